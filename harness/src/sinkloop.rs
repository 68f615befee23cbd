//! The consuming loop of a sink (specification SinkLoop.tla).
//!
//! A probe sink with bounded capacity implements the public sink interface and
//! records every call the real loop makes on it.
use crate::ev;
use cernan::metric::{Encoding, Event, LogLine, Metadata, Telemetry};
use cernan::sink::{RunnableSink, Sink};
use cernan::thread::Stoppable;
use cernan::util::Valve;
use serde_json::Value;
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::Duration;
use uuid::Uuid;

#[derive(Clone)]
pub struct ProbeConfig {
    pub cap: usize,
    pub stub: usize,
    pub interval: Option<u64>,
    pub calls: Arc<Mutex<Vec<Value>>>,
}

pub struct Probe {
    c: ProbeConfig,
    held: usize,
    stub: usize,
}

impl Probe {
    fn put(&mut self, v: Value) {
        self.c.calls.lock().unwrap().push(v);
    }
}

impl Sink<ProbeConfig> for Probe {
    fn init(c: ProbeConfig) -> Self {
        let stub = c.stub;
        Probe { c: c, held: 0, stub: stub }
    }
    fn flush_interval(&self) -> Option<u64> {
        self.c.interval
    }
    fn flush(&mut self) {
        // while full, the first `stub` flushes have no effect
        if self.held >= self.c.cap && self.stub > 0 {
            self.stub -= 1;
        } else {
            self.held = 0;
            self.stub = self.c.stub;
        }
        self.put(json!("flush"));
    }
    fn valve_state(&self) -> Valve {
        if self.held >= self.c.cap {
            Valve::Closed
        } else {
            Valve::Open
        }
    }
    fn deliver(&mut self, t: Telemetry) {
        self.held += 1;
        self.put(json!(t.name));
    }
    fn deliver_line(&mut self, l: LogLine) {
        self.held += 1;
        self.put(json!(l.value));
    }
    fn deliver_raw(&mut self, o: u64, _e: Encoding, b: Vec<u8>, _m: Option<Metadata>, _c: Option<Uuid>) {
        self.held += 1;
        let _ = o;
        self.put(json!(String::from_utf8_lossy(&b)));
    }
    fn shutdown(self) {
        self.c.calls.lock().unwrap().push(json!("stop"));
    }
}

/// The n-th event of upstream u; the three payload kinds take turns.
fn payload(id: &str, n: usize) -> Event {
    match n % 3 {
        0 => Event::Telemetry(
            Telemetry::new().name(id.to_string()).value(n as f64).harden().unwrap(),
        ),
        1 => Event::Log(LogLine::new("p".to_string(), id.to_string())),
        _ => Event::Raw {
            order_by: n as u64,
            encoding: Encoding::Raw,
            bytes: id.as_bytes().to_vec(),
            metadata: None,
            connection_id: None,
        },
    }
}

fn to_event(st: &Value, n: usize) -> Event {
    match st["a"].as_str().unwrap() {
        "event" => payload(&ev::s(&st["id"]), n),
        "pulse" => Event::TimerFlush(st["i"].as_u64().unwrap()),
        "end" => Event::Shutdown,
        x => panic!("harness: step {}", x),
    }
}

fn config(case: &Value) -> (ProbeConfig, Vec<String>) {
    let cfg = &case["cfg"];
    let iv = ev::i(&cfg["interval"]);
    (
        ProbeConfig {
            cap: ev::u(&cfg["cap"]),
            stub: ev::u(&cfg["stub"]),
            interval: if iv < 0 { None } else { Some(iv as u64) },
            calls: Arc::new(Mutex::new(Vec::new())),
        },
        (0..ev::u(&cfg["nu"])).map(|i| format!("up.{}", i)).collect(),
    )
}

/// spec -> code: put the behaviour's events in the queue, report the calls.
pub fn replay(case: &Value) -> Value {
    let (pc, sources) = config(case);
    let calls = pc.calls.clone();
    let nu = sources.len();
    let dir = crate::scratch();
    let (mut snd, rcv) = hopper::channel("sink", &dir).unwrap();
    let h = RunnableSink::<Probe, ProbeConfig>::new(rcv, sources, pc).run();
    let want = ev::u(&case["calls"]);
    for (n, st) in ev::arr(&case["steps"]).iter().enumerate() {
        let offset = case["salt"].as_u64().unwrap_or(0) as usize;
        let _ = snd.send(to_event(st, n + offset));
    }
    // wait until the expected number of calls was made, then look a little longer
    if !crate::wait_for(|| calls.lock().unwrap().len() >= want) {
        return json!({ "obs": calls.lock().unwrap().clone(), "note": "fewer calls than expected" });
    }
    // push a marker event through the loop so that anything made in excess shows
    let ended = ev::arr(&case["steps"]).iter().filter(|s| s["a"] == "end").count();
    if ended >= nu {
        h.join();
        return json!({ "obs": calls.lock().unwrap().clone() });
    }
    let _ = snd.send(payload("marker", 0));
    if !crate::wait_for(|| calls.lock().unwrap().iter().any(|x| x == "marker")) {
        return json!({ "obs": calls.lock().unwrap().clone(), "note": "marker never delivered" });
    }
    let c = calls.lock().unwrap().clone();
    let p = c.iter().position(|x| x == "marker").unwrap();
    // flushes made to let the marker in belong to the marker
    let mut obs: Vec<Value> = c[..p].to_vec();
    while obs.len() > want && obs.last() == Some(&json!("flush")) {
        obs.pop();
    }
    for _ in ended..nu {
        let _ = snd.send(Event::Shutdown);
    }
    h.join();
    json!({ "obs": obs })
}

/// code -> spec: every upstream is a thread of its own, the recorded calls are
/// checked by TLC against SinkLoop.tla (SinkTrace.tla).
pub fn record(case: &Value) -> Value {
    let (pc, sources) = config(case);
    let calls = pc.calls.clone();
    let dir = crate::scratch();
    let (snd, rcv) = if ev::b(&case["disk"]) {
        hopper::channel_with_explicit_capacity("sink", &dir, 4096, 1 << 20, 100).unwrap()
    } else {
        hopper::channel("sink", &dir).unwrap()
    };
    let h = RunnableSink::<Probe, ProbeConfig>::new(rcv, sources, pc).run();
    let mut ts = Vec::new();
    for (ui, steps) in ev::arr(&case["ups"]).iter().enumerate() {
        let mut chans = vec![snd.clone()];
        let steps = ev::arr(steps).clone();
        ts.push(thread::spawn(move || {
            for (n, st) in steps.iter().enumerate() {
                if let Some(us) = st["nap"].as_u64() {
                    thread::sleep(Duration::from_micros(us));
                }
                cernan::util::send(&mut chans, to_event(st, n + ui));
            }
        }));
    }
    for t in ts {
        t.join().unwrap();
    }
    if !crate::wait_for(|| calls.lock().unwrap().last() == Some(&json!("stop"))) {
        return json!({ "hang": "sink did not stop after all upstreams ended",
                       "obs": calls.lock().unwrap().clone() });
    }
    h.join();
    let obs = calls.lock().unwrap().clone();
    json!({ "obs": obs })
}
