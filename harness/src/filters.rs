//! Filters: the run loop with a probe filter (FilterLoop.tla) and the real
//! filters, through their run loop or their processing function.
use crate::ev;
use cernan::filter::delay_filter::{
    DELAY_LOG_ACCEPT, DELAY_LOG_REJECT, DELAY_TELEM_ACCEPT, DELAY_TELEM_REJECT,
};
use cernan::filter::{
    DelayFilter, DelayFilterConfig, Filter, FilterError, FlushBoundaryFilter,
    FlushBoundaryFilterConfig, JSONEncodeFilter, JSONEncodeFilterConfig, ProgrammableFilter,
    ProgrammableFilterConfig,
};
use cernan::metric::{Encoding, Event, LogLine, Telemetry};
use serde_json::Value;
use std::cell::RefCell;
use std::io::Write;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::thread;
use std::time::Duration;

fn nth(id: &str, n: usize) -> Event {
    match n % 3 {
        0 => Event::Telemetry(Telemetry::new().name(id.to_string()).value(1.0).harden().unwrap()),
        1 => Event::Log(LogLine::new("p".to_string(), id.to_string())),
        _ => Event::Raw {
            order_by: 7,
            encoding: Encoding::Raw,
            bytes: id.as_bytes().to_vec(),
            metadata: None,
            connection_id: None,
        },
    }
}

fn name_of(e: &Event) -> String {
    match e {
        Event::Telemetry(t) => t.name.clone(),
        Event::Log(l) => l.value.clone(),
        Event::Raw { bytes, .. } => String::from_utf8_lossy(bytes).into_owned(),
        Event::TimerFlush(i) => format!("pulse{}", i),
        Event::Shutdown => "END".to_string(),
    }
}

/// Emits what the event asks for, then fails if the event says so.
struct Probe {
    n: usize,
}

fn instruct(st: &Value, n: usize) -> Event {
    let id = ev::s(&st["id"]);
    let emit = ev::u(&st["emit"]);
    let fail = ev::b(&st["fail"]);
    if n % 4 == 3 {
        // a pulse: instructions in its number
        let num: u64 = id[1..].replace(".", "").parse().unwrap();
        return Event::TimerFlush(num * 100 + (emit as u64) * 10 + fail as u64);
    }
    nth(&format!("{}|{}|{}", id, emit, fail as u8), n)
}

impl Filter for Probe {
    fn process(&mut self, event: Event, res: &mut Vec<Event>) -> Result<(), FilterError> {
        let (id, emit, fail) = match event {
            Event::TimerFlush(i) => (format!("e{}", i / 100), (i / 10 % 10) as usize, i % 10 == 1),
            ref e => {
                let s = name_of(e);
                let p: Vec<&str> = s.split('|').collect();
                (p[0].to_string(), p[1].parse().unwrap(), p[2] == "1")
            }
        };
        for j in 1..emit + 1 {
            self.n += 1;
            res.push(nth(&format!("{}.{}", id, j), self.n));
        }
        if fail {
            self.n += 1;
            let e = nth(&format!("{}.failed", id), self.n);
            if self.n % 2 == 0 {
                return Err(FilterError::NoSuchFunction("probe", e));
            }
            return Err(FilterError::LuaError("probe".to_string(), e));
        }
        Ok(())
    }
}

enum Any {
    P(Probe),
    F(FlushBoundaryFilter),
    D(DelayFilter),
    J(JSONEncodeFilter),
    L(ProgrammableFilter),
}

impl Any {
    fn get(&mut self) -> &mut dyn FilterDyn {
        match self {
            Any::P(x) => x,
            Any::F(x) => x,
            Any::D(x) => x,
            Any::J(x) => x,
            Any::L(x) => x,
        }
    }
}

trait FilterDyn {
    fn process_dyn(&mut self, event: Event, res: &mut Vec<Event>) -> Result<(), FilterError>;
    fn run_dyn(&mut self, recv: hopper::Receiver<Event>, up: Vec<String>, chans: cernan::util::Channel);
}

impl<T: Filter> FilterDyn for T {
    fn process_dyn(&mut self, event: Event, res: &mut Vec<Event>) -> Result<(), FilterError> {
        self.process(event, res)
    }
    fn run_dyn(&mut self, recv: hopper::Receiver<Event>, up: Vec<String>, chans: cernan::util::Channel) {
        self.run(recv, up, chans)
    }
}

fn make(cfg: &Value) -> Any {
    let path = Some("filters.it".to_string());
    match cfg["filter"].as_str().unwrap_or("probe") {
        "probe" => Any::P(Probe { n: cfg["salt"].as_u64().unwrap_or(0) as usize }),
        "flush_boundary" => Any::F(FlushBoundaryFilter::new(&FlushBoundaryFilterConfig {
            config_path: path,
            forwards: Vec::new(),
            tolerance: ev::u(&cfg["tolerance"]),
        })),
        "delay" => Any::D(DelayFilter::new(&DelayFilterConfig {
            config_path: path,
            forwards: Vec::new(),
            tolerance: ev::i(&cfg["tolerance"]),
        })),
        "json" => Any::J(JSONEncodeFilter::new(JSONEncodeFilterConfig {
            config_path: path,
            forwards: Vec::new(),
            parse_line: ev::b(&cfg["parse"]),
            tags: ev::tags(&cfg["tags"]),
        })),
        "lua" => {
            let dir = crate::scratch();
            let script = dir.join("script.lua");
            let mut f = std::fs::File::create(&script).unwrap();
            let text = ev::s(&cfg["script"]).replace("@DIR@", dir.to_str().unwrap());
            f.write_all(text.as_bytes()).unwrap();
            OBS.with(|o| *o.borrow_mut() = Some(dir.join("obs")));
            drop(f);
            Any::L(ProgrammableFilter::new(ProgrammableFilterConfig {
                scripts_directory: Some(dir),
                script: Some(script),
                forwards: Vec::new(),
                config_path: path,
                tags: ev::tags(&cfg["tags"]),
            }))
        }
        x => panic!("harness: filter {}", x),
    }
}

thread_local!(static OBS: RefCell<Option<PathBuf>> = RefCell::new(None));

/// What the script noted since the last call.
fn noted() -> Option<Value> {
    OBS.with(|o| {
        o.borrow().as_ref().map(|p| {
            let text = std::fs::read_to_string(p).unwrap_or_default();
            let _ = std::fs::remove_file(p);
            json!(text.lines().collect::<Vec<_>>())
        })
    })
}

fn counters() -> Vec<usize> {
    [&DELAY_TELEM_ACCEPT, &DELAY_TELEM_REJECT, &DELAY_LOG_ACCEPT, &DELAY_LOG_REJECT]
        .iter()
        .map(|a| a.load(Ordering::SeqCst))
        .collect()
}

fn show(cfg: &Value, e: &Event) -> Value {
    if cfg["filter"].is_null() || cfg["filter"] == "probe" {
        return json!(name_of(e));
    }
    if ev::b(&cfg["names"]) {
        return json!(name_of(e));
    }
    ev::event_json(e)
}

fn input(cfg: &Value, st: &Value, n: usize) -> Event {
    if st["t"] == "end" {
        Event::Shutdown
    } else if !st["ev"].is_null() {
        ev::event(&st["ev"])
    } else {
        instruct(st, n + cfg["salt"].as_u64().unwrap_or(0) as usize)
    }
}

fn upstreams(cfg: &Value) -> Vec<String> {
    (0..ev::u(&cfg["nu"])).map(|i| format!("up.{}", i)).collect()
}

/// What arrived in a forward's queue (its receiver blocks when empty, so a
/// sentinel is sent last).
pub fn drain(mut snd: hopper::Sender<Event>, rcv: hopper::Receiver<Event>) -> Vec<Event> {
    let sentinel = u64::max_value();
    let h = thread::spawn(move || {
        while snd.send(Event::TimerFlush(sentinel)).is_err() {
            thread::sleep(Duration::from_millis(1));
        }
        while snd.flush().is_err() {
            thread::sleep(Duration::from_millis(1));
        }
    });
    let mut res = Vec::new();
    for e in rcv.into_iter() {
        if let Event::TimerFlush(i) = e {
            if i == sentinel {
                break;
            }
        }
        res.push(e);
    }
    h.join().unwrap();
    res
}

/// Processing function, event by event.
pub fn process(case: &Value) -> Value {
    let cfg = &case["cfg"];
    ev::set_base(cfg);
    let mut filter = make(cfg);
    let before = counters();
    let mut out = Vec::new();
    let mut res = Vec::new();
    for (n, st) in ev::arr(&case["steps"]).iter().enumerate() {
        let r = filter.get().process_dyn(input(cfg, st, n), &mut res);
        let got: Vec<Value> = res.drain(..).map(|e| show(cfg, &e)).collect();
        let mut o = match r {
            Ok(()) => json!({ "out": got }),
            Err(FilterError::NoSuchFunction(_, e)) => json!({ "out": got, "failed": show(cfg, &e) }),
            Err(FilterError::LuaError(_, e)) => json!({ "out": got, "failed": show(cfg, &e) }),
        };
        if let Some(x) = noted() {
            o["noted"] = x;
        }
        out.push(o);
    }
    let mut r = json!({ "obs": out });
    if ev::b(&cfg["count"]) {
        let d: Vec<usize> = counters().iter().zip(before.iter()).map(|(a, b)| a - b).collect();
        r["counts"] = json!(d);
    }
    r
}

/// The whole stage: queue, run loop, forwards.  With "ups" every upstream is a
/// thread; with "steps" the order in the queue is given.
pub fn run(case: &Value) -> Value {
    let cfg = case["cfg"].clone();
    ev::set_base(&cfg);
    let dir = crate::scratch();
    let (snd, rcv) = hopper::channel("filter", &dir).unwrap();
    let mut chans = Vec::new();
    let mut fwd = Vec::new();
    for k in 0..ev::u(&cfg["nf"]) {
        let (s, r) = hopper::channel(&format!("f{}", k), &dir).unwrap();
        chans.push(s.clone());
        fwd.push((s, r));
    }
    let done = Arc::new(AtomicBool::new(false));
    let done2 = done.clone();
    let up = upstreams(&cfg);
    let base = ev::base();
    let cfg2 = cfg.clone();
    let h = thread::spawn(move || {
        ev::set_base_value(base);
        let mut filter = make(&cfg2);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            filter.get().run_dyn(rcv, up, chans)
        }));
        done2.store(true, Ordering::SeqCst);
        r.map_err(|e| crate::panic_text(&e))
    });
    if case["ups"].is_null() {
        let mut snd = snd;
        for (n, st) in ev::arr(&case["steps"]).iter().enumerate() {
            let _ = snd.send(input(&cfg, st, n));
        }
    } else {
        let mut ts = Vec::new();
        for steps in ev::arr(&case["ups"]) {
            let mut chans = vec![snd.clone()];
            let steps = ev::arr(steps).clone();
            let cfg = cfg.clone();
            ts.push(thread::spawn(move || {
                for (n, st) in steps.iter().enumerate() {
                    if let Some(us) = st["nap"].as_u64() {
                        thread::sleep(Duration::from_micros(us));
                    }
                    cernan::util::send(&mut chans, input(&cfg, st, n));
                }
            }));
        }
        for t in ts {
            t.join().unwrap();
        }
    }
    let ended = crate::wait_for(|| done.load(Ordering::SeqCst));
    let mut res = json!({});
    if ended {
        if let Err(e) = h.join().unwrap() {
            res["died"] = json!(e);
        }
    } else {
        res["died"] = json!("still running after every upstream ended");
    }
    let out: Vec<Value> = fwd
        .into_iter()
        .map(|(s, r)| Value::Array(drain(s, r).iter().map(|e| show(&cfg, e)).collect()))
        .collect();
    res["out"] = json!(out);
    json!({ "obs": res })
}

/// Events as they are shown, for comparison.
pub fn events(case: &Value) -> Value {
    ev::set_base(&case["cfg"]);
    let r: Vec<Value> =
        ev::arr(&case["events"]).iter().map(|e| ev::event_json(&ev::event(e))).collect();
    json!({ "obs": r })
}
