//! Tags of metrics and log lines, and how they come out of the sinks and filters (Tags.tla).
use crate::ev;
use crate::http::HttpServer;
use crate::native;
use crate::net::Server;
use crate::prom;
use crate::wavefront;
use cernan::filter::{Filter, JSONEncodeFilter, JSONEncodeFilterConfig};
use cernan::metric::{AggregationMethod, Event, LogLine, TagMap, Telemetry};
use cernan::sink::{Console, ConsoleConfig, Elasticsearch, ElasticsearchConfig, InfluxDB, InfluxDBConfig, Native, NativeConfig, Sink, Wavefront, WavefrontConfig};
use serde_json::Value;
use std::fs::File;
use std::io::{Read, Write};
use std::os::unix::io::AsRawFd;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};

/// The pairs an iteration gives, sorted, duplicates included.
fn pairs<'a, I: Iterator<Item = (&'a String, &'a String)>>(it: I) -> Value {
    let mut v: Vec<(String, String)> = it.map(|(k, x)| (k.clone(), x.clone())).collect();
    v.sort();
    json!(v)
}

pub fn replay(case: &Value) -> Value {
    let dflt = ev::tags(&case["dflt"]);
    let keys: Vec<String> = ev::arr(&case["keys"]).iter().map(ev::s).collect();
    let n = ev::arr(&case["objs"]).len();
    let mut tels: Vec<Telemetry> = Vec::new();
    let mut logs: Vec<LogLine> = Vec::new();
    for o in ev::arr(&case["objs"]) {
        tels.push(
            ev::telem(&json!({"name": o["name"], "kind": o["kind"], "bounds": [1, 10], "v": 3, "ts": {"abs": chrono::Utc::now().timestamp().to_string()}})),
        );
        logs.push(LogLine::new(ev::s(&o["name"]), "value".to_string()).time(ev::s(&case["time"]).parse().unwrap()));
    }
    let mut prev = Vec::new();
    for st in ev::arr(&case["steps"]) {
        let o = ev::u(&st["o"]) - 1;
        let (k, v) = (st["k"].as_str().unwrap_or("").to_string(), st["v"].as_str().unwrap_or("").to_string());
        match st["a"].as_str().unwrap() {
            "ins" => {
                let a = tels[o].insert_tag(k.clone(), v.clone());
                let b = logs[o].insert_tag(k, v);
                prev.push(json!([a, b]));
            }
            "del" => {
                let a = tels[o].remove_tag(&k);
                let b = logs[o].remove_tag(&k);
                prev.push(json!([a, b]));
            }
            "over" => {
                tels[o] = tels[o].clone().overlay_tag(k.clone(), v.clone());
                logs[o] = logs[o].clone().overlay_tag(k, v);
            }
            "map" => {
                let m = ev::tags(&st["m"]);
                tels[o] = tels[o].clone().overlay_tags_from_map(&m);
                logs[o] = logs[o].clone().overlay_tags_from_map(&m);
            }
            x => panic!("harness: {}", x),
        }
    }
    let none = TagMap::default();
    let mut objs = Vec::new();
    for o in 0..n {
        let (t, l) = (&mut tels[o], &mut logs[o]);
        let mut get = Vec::new();
        for k in &keys {
            get.push(json!([t.get_from_tags(k, &dflt).cloned(), l.get_from_tags(k, &dflt).cloned(), t.get_from_tags(k, &none).cloned(), l.get_from_tags(k, &none).cloned()]));
        }
        objs.push(json!({"tel": pairs(t.tags(&dflt)), "log": pairs(l.tags(&dflt)), "own": pairs(t.tags(&none)), "lown": pairs(l.tags(&none)), "get": get}));
    }
    let mut same = Vec::new();
    for a in 0..n {
        for b in 0..a {
            same.push(json!([tels[a].hash() == tels[b].hash(), tels[a].name_tag_hash() == tels[b].name_tag_hash()]));
        }
    }
    let mut out = Value::Null;
    if ev::b(&case["out"]) {
        out = outputs(&tels, &logs, &dflt);
    }
    json!({"obs": {"prev": prev, "objs": objs, "same": same, "out": out}})
}

static TAKEN: AtomicBool = AtomicBool::new(false);

/// What is printed meanwhile.
pub fn printed<F: FnOnce()>(f: F) -> String {
    while TAKEN.compare_and_swap(false, true, Ordering::SeqCst) {
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    let path = crate::scratch().join("stdout");
    let file = File::create(&path).unwrap();
    std::io::stdout().flush().unwrap();
    unsafe {
        let old = libc::dup(1);
        libc::dup2(file.as_raw_fd(), 1);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let _ = std::io::stdout().flush();
        libc::dup2(old, 1);
        libc::close(old);
        TAKEN.store(false, Ordering::SeqCst);
        if let Err(e) = r {
            std::panic::resume_unwind(e);
        }
    }
    let mut s = Vec::new();
    File::open(&path).unwrap().read_to_end(&mut s).unwrap();
    String::from_utf8_lossy(&s).into_owned()
}

/// The tags each output shows for each object.
fn outputs(tels: &[Telemetry], logs: &[LogLine], dflt: &TagMap) -> Value {
    // Wavefront
    let mut srv = Server::new();
    let mut conf = WavefrontConfig::default();
    conf.host = srv.host();
    conf.port = srv.port;
    conf.tags = dflt.clone();
    conf.percentiles = vec![("min".to_string(), 0.0)];
    let mut sink = Wavefront::init(conf);
    let mut n = 0;
    for t in tels {
        sink.deliver(t.clone());
        n += match t.kind() {
            AggregationMethod::Histogram | AggregationMethod::Summarize => 3,
            _ => 1,
        };
    }
    sink.flush();
    srv.wait_lines(n);
    drop(sink);
    srv.wait_eof();
    let wf: Vec<Value> = srv.text().lines().map(wavefront::parse).map(|l| json!([l[0], l[3]])).collect();
    // native
    let mut srv = Server::new();
    let mut conf = NativeConfig::default();
    conf.host = srv.host();
    conf.port = srv.port;
    conf.tags = dflt.clone();
    let mut sink = Native::init(conf);
    for t in tels {
        sink.deliver(t.clone());
    }
    for l in logs {
        sink.deliver_line(l.clone());
    }
    sink.flush();
    drop(sink);
    srv.wait_eof();
    crate::wait_for(|| {
        srv.poll();
        srv.conns.iter().all(|c| c.eof)
    });
    let (mut np, mut nl) = (Vec::new(), Vec::new());
    for c in &srv.conns {
        for f in native::frames(&c.data).0 {
            let p = native::payload(&f);
            np.extend(ev::arr(&p["points"]).iter().map(|x| x["tags"].clone()));
            nl.extend(ev::arr(&p["lines"]).iter().map(|x| x["tags"].clone()));
        }
    }
    // console
    let mut conf = ConsoleConfig::default();
    conf.tags = dflt.clone();
    let mut sink = Console::init(conf);
    for l in logs {
        sink.deliver_line(l.clone());
    }
    let text = printed(|| sink.flush());
    let con: Vec<Value> = text
        .lines()
        .filter(|l| l.contains(": value"))
        .map(|l| {
            let mut p: Vec<&str> = l[l.find(": value").unwrap() + 7..].split(' ').filter(|x| !x.is_empty()).collect();
            p.sort();
            json!(p)
        })
        .collect();
    // JSON
    let mut f = JSONEncodeFilter::new(JSONEncodeFilterConfig { config_path: None, forwards: Vec::new(), parse_line: false, tags: dflt.clone() });
    let mut js = Vec::new();
    for l in logs {
        let mut res = Vec::new();
        let ok = f.process(Event::Log(l.clone()), &mut res).is_ok();
        match res.get(0) {
            Some(Event::Raw { bytes, .. }) if ok => {
                let v: Value = serde_json::from_slice(bytes).unwrap_or(Value::Null);
                js.push(v["tags"].clone());
            }
            _ => js.push(json!("no document")),
        }
    }
    // InfluxDB
    let body = Arc::new(Mutex::new(String::new()));
    let b2 = body.clone();
    let srv = HttpServer::new(move |req| {
        b2.lock().unwrap().push_str(&ev::text(&req.body));
        Some((204, "text/plain".to_string(), Vec::new()))
    });
    let mut conf = InfluxDBConfig::default();
    conf.secure = false;
    conf.host = "127.0.0.1".to_string();
    conf.port = srv.port;
    conf.tags = dflt.clone();
    let mut sink = InfluxDB::init(conf);
    for t in tels {
        sink.deliver(t.clone());
    }
    sink.flush();
    let influx = body.lock().unwrap().clone();
    // Elasticsearch
    let docs = Arc::new(Mutex::new(Vec::new()));
    let d2 = docs.clone();
    let srv = HttpServer::new(move |req| {
        for l in ev::text(&req.body).lines().skip(1).step_by(2) {
            d2.lock().unwrap().push(serde_json::from_str::<Value>(l).unwrap_or(Value::Null));
        }
        Some((503, "text/plain".to_string(), b"later".to_vec()))
    });
    let mut conf = ElasticsearchConfig::default();
    conf.host = "127.0.0.1".to_string();
    conf.port = srv.port as usize;
    conf.tags = dflt.clone();
    let mut sink = Elasticsearch::init(conf);
    for l in logs {
        sink.deliver_line(l.clone());
    }
    sink.flush();
    let elastic = docs.lock().unwrap().clone();
    json!({"influx": influx, "elastic": elastic, "wavefront": wf, "points": np, "lines": nl, "console": con, "json": js, "prom": prom::expose(tels, dflt)})
}
