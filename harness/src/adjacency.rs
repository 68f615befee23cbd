//! The book of edges (Wiring.tla).
use crate::ev;
use cernan::matrix::Adjacency;
use serde_json::Value;

fn sorted(mut v: Vec<String>) -> Value {
    v.sort();
    json!(v)
}

fn dump(a: &Adjacency<u64>) -> Value {
    let mut rows: Vec<(String, Vec<(String, u64)>)> = a
        .iter()
        .map(|(n, m)| {
            let mut to: Vec<(String, u64)> = m.iter().map(|(t, x)| (t.clone(), x.unwrap_or(0))).collect();
            to.sort();
            (n.clone(), to)
        })
        .collect();
    rows.sort();
    json!(rows)
}

pub fn replay(case: &Value) -> Value {
    let mut a: Adjacency<u64> = if ev::b(&case["dflt"]) { Default::default() } else { Adjacency::new() };
    let mut res = Vec::new();
    for st in ev::arr(&case["steps"]) {
        let n = ev::s(&st["n"]);
        let ts: Vec<String> = ev::arr(&st["ts"]).iter().map(ev::s).collect();
        let m = match ev::u(&st["m"]) {
            0 => None,
            x => Some(x as u64),
        };
        res.push(match st["a"].as_str().unwrap() {
            "edge" => {
                a.add_asymmetric_edge(&n, &ts[0], m);
                json!([])
            }
            "edges" => {
                a.add_edges(&n, ts, m);
                json!([])
            }
            "filter" => {
                let w = ev::s(&st["w"]);
                sorted(a.filter_nodes(&n, |&(_, x)| match w.as_str() {
                    "all" => true,
                    "bare" => x.is_none(),
                    "attached" => x.is_some(),
                    _ => false,
                }))
            }
            "num" => json!(a.num_edges(&n)),
            "has" => json!(a.contains_node(&n)),
            "pop" => match a.pop(&n) {
                None => Value::Null,
                Some(m) => {
                    let mut to: Vec<(String, u64)> = m.into_iter().map(|(t, x)| (t, x.unwrap_or(0))).collect();
                    to.sort();
                    json!(to)
                }
            },
            "nodes" => sorted(a.pop_nodes(&n)),
            "meta" => {
                let mut v = a.pop_metadata(&n);
                v.sort();
                json!(v)
            }
            x => panic!("harness: {}", x),
        });
    }
    json!({"obs": {"res": res, "all": dump(&a)}})
}

/// The pulses several queues get from one timer.
pub fn timer(case: &Value) -> Value {
    use cernan::metric::Event;
    use cernan::source::{FlushTimer, FlushTimerConfig, Source};
    use std::sync::{Arc, Mutex};
    use std::time::{Duration, Instant};
    let dir = crate::scratch();
    let (mut snds, mut got) = (Vec::new(), Vec::new());
    for (i, q) in ev::arr(&case["queues"]).iter().enumerate() {
        let (s, r) = hopper::channel_with_explicit_capacity::<Event>(&format!("q{}", i), std::path::Path::new(&dir), ev::u(&q["mem"]) as usize, 1 << 20, 1000).unwrap();
        snds.push(s);
        let seen = Arc::new(Mutex::new(Vec::new()));
        got.push(Arc::clone(&seen));
        let (wait, nap) = (ev::u(&q["wait"]) as u64, ev::u(&q["nap"]) as u64);
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_millis(wait));
            for e in r {
                seen.lock().unwrap().push(if let Event::TimerFlush(n) = e { n as i64 } else { -1 });
                std::thread::sleep(Duration::from_millis(nap));
            }
        });
    }
    let from = Instant::now();
    let _running = FlushTimer::new(snds, FlushTimerConfig).run();
    std::thread::sleep(Duration::from_millis(ev::u(&case["ms"]) as u64));
    let got: Vec<Vec<i64>> = got.iter().map(|g| g.lock().unwrap().clone()).collect();
    let ms = from.elapsed().as_secs() * 1000 + u64::from(from.elapsed().subsec_millis());
    json!({"obs": {"got": got, "ms": ms}})
}
