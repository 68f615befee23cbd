//! The InfluxDB sink against a database played here (Influx.tla).
use crate::ev;
use crate::http::HttpServer;
use cernan::sink::influxdb::{INFLUX_DELIVERY_ATTEMPTS, INFLUX_FAILURE_CLIENT, INFLUX_FAILURE_SERVER, INFLUX_SUCCESS};
use cernan::sink::{InfluxDB, InfluxDBConfig, Sink};
use cernan::util::Valve;
use serde_json::Value;
use std::collections::VecDeque;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::time::Instant;

fn counts() -> [usize; 4] {
    [
        INFLUX_DELIVERY_ATTEMPTS.load(Ordering::SeqCst),
        INFLUX_SUCCESS.load(Ordering::SeqCst),
        INFLUX_FAILURE_CLIENT.load(Ordering::SeqCst),
        INFLUX_FAILURE_SERVER.load(Ordering::SeqCst),
    ]
}

pub fn replay(case: &Value) -> Value {
    let cfg = &case["cfg"];
    ev::set_base(cfg);
    let script: Arc<Mutex<VecDeque<String>>> = Arc::new(Mutex::new(VecDeque::new()));
    let seen: Arc<Mutex<Vec<Value>>> = Arc::new(Mutex::new(Vec::new()));
    let (sc, se) = (script.clone(), seen.clone());
    let last = Arc::new(Mutex::new(Instant::now()));
    let la = last.clone();
    let srv = HttpServer::new(move |req| {
        let now = Instant::now();
        let after = {
            let mut l = la.lock().unwrap();
            let d = now.duration_since(*l);
            *l = now;
            d.as_secs() as f64 * 1e3 + d.subsec_nanos() as f64 / 1e6
        };
        let reply = sc.lock().unwrap().pop_front().unwrap_or_else(|| "204".to_string());
        se.lock().unwrap().push(json!({ "line": req.line, "body": ev::text(&req.body), "reply": reply, "after": after }));
        match reply.as_str() {
            "drop" => None,
            n => Some((n.parse().unwrap(), "application/json".to_string(), b"{\"error\":\"so it is\"}".to_vec())),
        }
    });
    let mut conf = InfluxDBConfig::default();
    conf.secure = false;
    conf.host = "127.0.0.1".to_string();
    conf.port = srv.port;
    conf.db = cfg["db"].as_str().unwrap_or("the_db").to_string();
    conf.tags = ev::tags(&cfg["tags"]);
    let mut sink = Some(InfluxDB::init(conf));
    let mut obs = Vec::new();
    for st in ev::arr(&case["steps"]) {
        let before = counts();
        match st["a"].as_str().unwrap() {
            "add" => {
                for _ in 0..st["times"].as_u64().unwrap_or(1) {
                    sink.as_mut().unwrap().deliver(ev::telem_built(&st["ev"]));
                }
            }
            how => {
                *script.lock().unwrap() = ev::arr(&st["replies"]).iter().map(|x| ev::s(x)).collect();
                *last.lock().unwrap() = Instant::now();
                match how {
                    "flush" => sink.as_mut().unwrap().flush(),
                    "stop" => sink.take().unwrap().shutdown(),
                    x => panic!("harness: step {}", x),
                }
            }
        }
        let valve = sink.as_ref().map_or("gone", |k| match k.valve_state() {
            Valve::Open => "open",
            Valve::Closed => "closed",
        });
        let after = counts();
        let counted: Vec<usize> = (0..4).map(|i| after[i] - before[i]).collect();
        let requests: Vec<Value> = seen.lock().unwrap().drain(..).collect();
        obs.push(json!({ "valve": valve, "counted": counted, "requests": requests }));
    }
    json!({ "obs": obs })
}
