//! Sending events to several forwards (Fanout.tla).
use crate::ev;
use cernan::metric::{Encoding, Event, LogLine, Telemetry};
use cernan::util;
use serde_json::Value;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::mem;
use std::sync::atomic::Ordering;
use std::sync::mpsc;
use std::sync::{Arc, Barrier, Mutex, Once};
use std::thread;

/// Text that does not fit into a queue file.
fn blob(n: usize) -> String {
    static INIT: Once = Once::new();
    static mut BLOB: Option<String> = None;
    INIT.call_once(|| {
        let mut x: u64 = 88172645463325252;
        let mut s = String::with_capacity(2_000_000);
        for _ in 0..2_000_000 {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            s.push((b'!' + (x % 90) as u8) as char);
        }
        unsafe { BLOB = Some(s) }
    });
    unsafe { BLOB.as_ref().unwrap()[..n].to_string() }
}

/// {"big": kind} or an event
fn event(v: &Value) -> Event {
    let kind = match v["big"].as_str() {
        None => {
            if v["k"] == "tel" {
                return Event::Telemetry(ev::telem_built(v));
            }
            let mut e = ev::event(v);
            if let (Event::Raw { ref mut connection_id, .. }, Some(x)) = (&mut e, v["conn"].as_str()) {
                *connection_id = Some(uuid::Uuid::parse_str(x).unwrap());
            }
            return e;
        }
        Some(k) => k,
    };
    let text = blob(ev::u(&v["size"]));
    let name = ev::s(&v["name"]);
    match kind {
        "tel" => Event::new_telemetry(Telemetry::new().name(name).value(1.0).harden().unwrap().overlay_tag("t", &text[..])),
        "log" => Event::new_log(LogLine::new(name, text)),
        _ => Event::Raw {
            order_by: name.len() as u64,
            encoding: Encoding::Raw,
            bytes: (name + &text).into_bytes(),
            metadata: None,
            connection_id: None,
        },
    }
}

/// Everything there is to see of an event.
fn mark(e: &Event) -> (u64, usize) {
    let mut t = match e {
        Event::Raw { order_by, encoding, metadata, .. } => ev::raw_json(*order_by, encoding, b"", metadata),
        e => ev::event_json(e),
    }
    .to_string()
    .into_bytes();
    if let Event::Raw { bytes, connection_id, .. } = e {
        t.extend_from_slice(format!("{:?}", connection_id).as_bytes());
        t.extend_from_slice(bytes);
    }
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    (h.finish(), t.len())
}

type Sent = HashMap<(u64, usize), (u64, u64)>;

/// The sender and number of an event, or the event itself if none like it was sent.
fn which(sent: &Sent, e: &Event) -> Value {
    match sent.get(&mark(e)) {
        Some(k) => json!([k.0, k.1]),
        None => json!(format!("{:?}", e).chars().take(600).collect::<String>()),
    }
}

struct Fwd {
    snd: hopper::Sender<Event>,
    ask: mpsc::Sender<()>,
    ans: mpsc::Receiver<Option<Event>>,
}

fn queue(mem: usize, files: usize) -> (hopper::Sender<Event>, hopper::Receiver<Event>) {
    let dir = crate::scratch();
    hopper::channel_with_explicit_capacity::<Event>("f", &dir, mem * mem::size_of::<Event>(), 1 << 20, files).expect("hopper")
}

fn forward(mem: usize, files: usize) -> Fwd {
    let (snd, rcv) = queue(mem, files);
    let (ask, asked) = mpsc::channel();
    let (tell, ans) = mpsc::channel();
    thread::spawn(move || {
        let mut it = rcv.into_iter();
        while let Ok(()) = asked.recv() {
            if tell.send(it.next()).is_err() {
                return;
            }
        }
    });
    Fwd { snd, ask, ans }
}

impl Fwd {
    fn take(&mut self) -> Option<Event> {
        let _ = self.snd.flush();
        self.ask.send(()).unwrap();
        match self.ans.recv_timeout(crate::patience()) {
            Ok(x) => x,
            Err(_) => {
                crate::gave_up();
                None
            }
        }
    }

    /// All that is left.
    fn rest(mut self) -> Vec<Event> {
        let mut snd = self.snd.clone();
        thread::spawn(move || {
            while let Err(_) = snd.send(Event::TimerFlush(u64::max_value())) {
                thread::sleep(std::time::Duration::from_millis(1));
            }
            while snd.flush().is_err() {
                thread::sleep(std::time::Duration::from_millis(1));
            }
        });
        let mut v = Vec::new();
        loop {
            match self.take() {
                None | Some(Event::TimerFlush(18446744073709551615)) => return v,
                Some(e) => v.push(e),
            }
        }
    }
}

pub fn replay(case: &Value) -> Value {
    let mut fwds: Vec<Fwd> = ev::arr(&case["fwds"]).iter().map(|f| forward(ev::u(&f["mem"]), ev::u(&f["files"]))).collect();
    let chans: util::Channel = fwds.iter().map(|f| f.snd.clone()).collect();
    let mut senders: Vec<util::Channel> = (0..ev::u(&case["senders"])).map(|_| chans.iter().cloned().collect()).collect();
    let before = util::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::SeqCst);
    let mut sent = Sent::new();
    let mut all: Vec<Vec<Value>> = fwds.iter().map(|_| Vec::new()).collect();
    for st in ev::arr(&case["steps"]) {
        if st["a"] == "send" {
            let k = (st["e"][0].as_u64().unwrap(), st["e"][1].as_u64().unwrap());
            let e = event(&st["ev"]);
            sent.insert(mark(&e), k);
            util::send(&mut senders[k.0 as usize - 1], e);
        } else {
            let f = ev::u(&st["f"]) - 1;
            match fwds[f].take() {
                Some(e) => all[f].push(which(&sent, &e)),
                None => {
                    all[f].push(json!("nothing there"));
                    return json!({ "obs": { "all": all } });
                }
            }
        }
    }
    let dropped = util::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::SeqCst) - before;
    for (f, x) in fwds.into_iter().enumerate() {
        for e in x.rest() {
            all[f].push(which(&sent, &e));
        }
    }
    json!({ "obs": { "all": all, "dropped": dropped } })
}

/// Senders and receivers on threads of their own.
pub fn run(case: &Value) -> Value {
    let pairs: Vec<_> = ev::arr(&case["fwds"]).iter().map(|f| queue(ev::u(&f["mem"]), ev::u(&f["files"]))).collect();
    let before = util::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::SeqCst);
    let sends = ev::arr(&case["sends"]);
    let mut sent = Sent::new();
    let barrier = Arc::new(Barrier::new(sends.len()));
    let mut ends: util::Channel = Vec::new();
    let mut readers = Vec::new();
    let mut chans: util::Channel = Vec::new();
    for (j, (s, r)) in pairs.into_iter().enumerate() {
        ends.push(s.clone());
        chans.push(s);
        let nap = case["fwds"][j]["nap"].as_u64().unwrap_or(0);
        let res = Arc::new(Mutex::new(Vec::new()));
        let rs = res.clone();
        let h = thread::spawn(move || {
            for e in r.into_iter() {
                if let Event::TimerFlush(18446744073709551615) = e {
                    return;
                }
                rs.lock().unwrap().push(e);
                if nap > 0 {
                    thread::sleep(std::time::Duration::from_micros(nap));
                }
            }
        });
        readers.push((h, res));
    }
    let mut hs = Vec::new();
    for (s, evs) in sends.iter().enumerate() {
        let es: Vec<Event> = ev::arr(evs).iter().map(event).collect();
        for (k, e) in es.iter().enumerate() {
            sent.insert(mark(e), (s as u64 + 1, k as u64 + 1));
        }
        let mut ch: util::Channel = chans.iter().cloned().collect();
        let b = barrier.clone();
        hs.push(thread::spawn(move || {
            b.wait();
            for e in es {
                util::send(&mut ch, e);
            }
        }));
    }
    for h in hs {
        h.join().unwrap();
    }
    let dropped = util::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::SeqCst) - before;
    let mut all = Vec::new();
    for (mut s, (h, res)) in ends.into_iter().zip(readers) {
        while s.send(Event::TimerFlush(u64::max_value())).is_err() {
            thread::sleep(std::time::Duration::from_millis(1));
        }
        while s.flush().is_err() {
            thread::sleep(std::time::Duration::from_millis(1));
        }
        h.join().unwrap();
        let v: Vec<Value> = res.lock().unwrap().iter().map(|e| which(&sent, e)).collect();
        all.push(v);
    }
    json!({ "obs": { "all": all, "dropped": dropped } })
}
