//! The native sink, writing to a peer played by the harness or to a real native source (NativeForward.tla).
use crate::ev;
use crate::net::{self, Server};
use crate::source::{self, Tap};
use cernan::metric::Event;
use cernan::protocols::native::{AggregationMethod, Payload};
use cernan::sink::{Native, NativeConfig, Sink};
use cernan::source::{NativeServer, NativeServerConfig, Source, TCPConfig};
use serde_json::Value;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::Duration;

fn meta(m: &HashMap<String, String>) -> Value {
    let b: BTreeMap<&String, &String> = m.iter().collect();
    json!(b)
}

pub fn payload(bytes: &[u8]) -> Value {
    let p = match protobuf::parse_from_bytes::<Payload>(bytes) {
        Ok(p) => p,
        Err(_) => return json!({ "unparsable": source::hex(bytes) }),
    };
    let points: Vec<Value> = p
        .get_points()
        .iter()
        .map(|t| {
            let mut smpls: Vec<f64> = t.get_samples().to_vec();
            if t.get_method() == AggregationMethod::SUMMARIZE {
                smpls.sort_by(|a, b| a.partial_cmp(b).unwrap());
            }
            json!({"name": t.get_name(), "samples": smpls.iter().map(|x| ev::num(*x)).collect::<Vec<_>>(),
                   "method": match t.get_method() {
                       AggregationMethod::SUM => "sum",
                       AggregationMethod::SET => "set",
                       AggregationMethod::SUMMARIZE => "summ",
                       AggregationMethod::BIN => "hist",
                   },
                   "persist": t.get_persisted(), "ms": t.get_timestamp_ms(), "tags": meta(t.get_metadata()),
                   "bounds": t.get_bin_bounds().iter().map(|x| ev::num(*x)).collect::<Vec<_>>()})
        })
        .collect();
    let lines: Vec<Value> = p
        .get_lines()
        .iter()
        .map(|l| json!({"path": l.get_path(), "value": l.get_value(), "ms": l.get_timestamp_ms(), "tags": meta(l.get_metadata())}))
        .collect();
    json!({"points": points, "lines": lines})
}

/// The whole frames of what one connection carried, and the length of the rest.
pub fn frames(mut b: &[u8]) -> (Vec<Vec<u8>>, usize) {
    let mut res = Vec::new();
    while b.len() >= 4 {
        let n = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
        if b.len() < 4 + n {
            break;
        }
        res.push(b[4..4 + n].to_vec());
        b = &b[4 + n..];
    }
    (res, b.len())
}

fn deliver(sink: &mut Native, v: &Value) {
    match ev::event(v) {
        Event::Telemetry(_) => sink.deliver(ev::telem_built(v)),
        Event::Log(l) => sink.deliver_line(l),
        e => panic!("harness: {:?}", e),
    }
}

pub fn replay(case: &Value) -> Value {
    let cfg = &case["cfg"];
    ev::set_base(cfg);
    if cfg["peer"] == "source" {
        return relay(case);
    }
    let srv = Arc::new(Mutex::new(Server::new()));
    let mut conf = NativeConfig::default();
    conf.host = srv.lock().unwrap().host();
    conf.port = srv.lock().unwrap().port;
    conf.tags = ev::tags(&cfg["tags"]);
    let mut sink = Some(Native::init(conf));
    // the peer reads all the time
    let over = Arc::new(AtomicBool::new(false));
    let pump = {
        let (srv, over) = (srv.clone(), over.clone());
        thread::spawn(move || {
            while !over.load(Ordering::SeqCst) {
                {
                    let mut s = srv.lock().unwrap();
                    s.poll();
                    if s.bytes() >= s.limit {
                        s.break_all();
                        s.limit = usize::max_value();
                    }
                }
                thread::sleep(Duration::from_micros(300));
            }
        })
    };
    let mut late = Vec::new();
    for (i, st) in ev::arr(&case["steps"]).iter().enumerate() {
        match st["a"].as_str().unwrap() {
            "add" => {
                deliver(sink.as_mut().unwrap(), &st["ev"]);
                continue;
            }
            "flush" => sink.as_mut().unwrap().flush(),
            "stop" => sink.take().unwrap().shutdown(),
            // the peer goes away once it has read so much of what is being written
            "cut" => {
                {
                    let mut s = srv.lock().unwrap();
                    s.limit = s.bytes() + ev::u(&st["bytes"]);
                }
                sink.as_mut().unwrap().flush();
            }
            how => {
                let back = net::interrupt(&mut *srv.lock().unwrap(), how);
                let s = srv.clone();
                let restore = thread::spawn(move || {
                    if let Some(h) = back {
                        let l = h.join();
                        net::restore(&mut *s.lock().unwrap(), Some(thread::spawn(move || l.unwrap())));
                    }
                });
                sink.as_mut().unwrap().flush();
                restore.join().unwrap();
            }
        }
        let n = ev::u(&st["wire"]);
        if !crate::wait_for(|| arrived(&srv.lock().unwrap()).len() >= n) {
            late.push(json!({"step": i}));
            break;
        }
    }
    drop(sink);
    crate::wait_for(|| srv.lock().unwrap().conns.iter().all(|c| c.eof || c.stream.is_none()));
    over.store(true, Ordering::SeqCst);
    pump.join().unwrap();
    let srv = srv.lock().unwrap();
    let mut points = Vec::new();
    let mut lines = Vec::new();
    let mut odd = Vec::new();
    let mut rest = 0;
    for c in &srv.conns {
        let (f, r) = frames(&c.data);
        for b in &f {
            let p = payload(b);
            match (&p["points"], &p["lines"]) {
                (Value::Array(x), Value::Array(y)) if x.len() + y.len() > 0 => {
                    points.extend(x.iter().cloned());
                    lines.extend(y.iter().cloned());
                }
                _ => odd.push(p.clone()),
            }
            // no larger than a native source takes, unless it is a single item
            if b.len() > 1_048_576 && ev::arr(&p["points"]).len() + ev::arr(&p["lines"]).len() > 1 {
                odd.push(json!({ "bytes": b.len() }));
            }
        }
        // a broken connection may leave a part of a frame behind
        if c.stream.is_some() {
            rest += r;
        }
    }
    json!({"obs": {"late": late, "points": points, "lines": lines, "rest": rest, "odd": odd}})
}

/// The items of the whole frames that have arrived.
fn arrived(srv: &Server) -> HashSet<String> {
    let mut all = HashSet::new();
    for c in &srv.conns {
        for b in frames(&c.data).0 {
            if let Ok(p) = protobuf::parse_from_bytes::<Payload>(&b) {
                all.extend(p.get_points().iter().map(|t| format!("p{}", t.get_name())));
                all.extend(p.get_lines().iter().map(|l| format!("l{}", l.get_value())));
            }
        }
    }
    all
}

fn relay(case: &Value) -> Value {
    let cfg = &case["cfg"];
    let host = net::own_host();
    let (tap, snd) = Tap::new("relay");
    let mut sc = NativeServerConfig::default();
    sc.ip = host.clone();
    sc.port = 19105;
    let h = <NativeServer as Source<TCPConfig>>::new(vec![snd], sc.into()).run();
    let mut conf = NativeConfig::default();
    conf.host = host;
    conf.port = 19105;
    conf.tags = ev::tags(&cfg["tags"]);
    let mut sink = Native::init(conf);
    let mut n = 0;
    let mut late = Vec::new();
    for (i, st) in ev::arr(&case["steps"]).iter().enumerate() {
        match st["a"].as_str().unwrap() {
            "add" => {
                deliver(&mut sink, &st["ev"]);
                n += 1;
                continue;
            }
            "stop" => break,
            _ => sink.flush(),
        }
        if !crate::wait_for(|| tap.len() >= n) {
            late.push(json!({"step": i}));
            break;
        }
    }
    sink.shutdown();
    if late.is_empty() && !crate::wait_for(|| tap.len() >= n) {
        late.push(json!("end"));
    }
    let ended = source::stop(h);
    // a payload has its points before its lines
    let out = tap.finish();
    let all = |log: bool| -> Vec<Value> {
        out.iter()
            .filter(|e| match e {
                Event::Shutdown => false,
                Event::Log(_) => log,
                _ => !log,
            })
            .map(ev::event_json)
            .collect()
    };
    json!({"obs": {"late": late, "ended": ended, "points": all(false), "lines": all(true), "last": out.last() == Some(&Event::Shutdown)}})
}
