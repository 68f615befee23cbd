//! The Prometheus sink, scraped over HTTP (Prometheus.tla).
use crate::ev;
use crate::net;
use cernan::metric::{TagMap, Telemetry};
use cernan::sink::{Prometheus, PrometheusConfig, Sink};
use serde_json::Value;
use std::io::{Read, Write};
use std::net::TcpStream;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;

const PORT: u16 = 19102;

fn chunked(mut b: &[u8]) -> Option<Vec<u8>> {
    let mut res = Vec::new();
    loop {
        let eol = b.windows(2).position(|w| w == b"\r\n")?;
        let n = usize::from_str_radix(std::str::from_utf8(&b[..eol]).ok()?.trim(), 16).ok()?;
        b = &b[eol + 2..];
        if n == 0 {
            return Some(res);
        }
        if b.len() < n + 2 {
            return None;
        }
        res.extend_from_slice(&b[..n]);
        b = &b[n + 2..];
    }
}

/// One HTTP exchange: {"status", "type", "body"}; a null when the connection was refused.
pub fn get(host: &str, port: u16) -> Option<Value> {
    let mut s = TcpStream::connect((host, port)).ok()?;
    s.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
    s.write_all(b"GET /metrics HTTP/1.1\r\nHost: x\r\nAccept-Encoding: gzip\r\nConnection: close\r\n\r\n").ok()?;
    let mut all = Vec::new();
    let mut buf = [0u8; 16384];
    loop {
        match s.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => all.extend_from_slice(&buf[..n]),
            Err(e) => return Some(json!({ "error": e.to_string() })),
        }
    }
    let cut = match all.windows(4).position(|w| w == b"\r\n\r\n") {
        Some(x) => x,
        None => return Some(json!({ "error": "no header" })),
    };
    let head = String::from_utf8_lossy(&all[..cut]).into_owned();
    let mut body = all[cut + 4..].to_vec();
    let mut lines = head.split("\r\n");
    let status: u32 = lines.next().and_then(|l| l.split(' ').nth(1)).and_then(|x| x.parse().ok()).unwrap_or(0);
    let mut ctype = String::new();
    let mut gz = false;
    for l in lines {
        let kv: Vec<&str> = l.splitn(2, ':').collect();
        if kv.len() < 2 {
            continue;
        }
        match (kv[0].to_ascii_lowercase().as_str(), kv[1].trim()) {
            ("transfer-encoding", "chunked") => match chunked(&body) {
                Some(b) => body = b,
                None => return Some(json!({ "error": "bad chunks" })),
            },
            ("content-length", n) => {
                if n.parse() != Ok(body.len()) {
                    return Some(json!({ "error": format!("length {} announced, {} sent", n, body.len()) }));
                }
            }
            ("content-type", t) => ctype = t.to_string(),
            ("content-encoding", "gzip") => gz = true,
            _ => {}
        }
    }
    if gz {
        let mut out = Vec::new();
        if flate2::read::GzDecoder::new(&body[..]).read_to_end(&mut out).is_err() {
            return Some(json!({ "error": "bad gzip" }));
        }
        body = out;
    }
    Some(json!({ "status": status, "type": ctype, "gzip": gz, "body": String::from_utf8_lossy(&body).into_owned() }))
}

fn config(cfg: &Value) -> PrometheusConfig {
    let mut conf = PrometheusConfig::default();
    conf.host = net::own_host();
    conf.port = PORT;
    conf.capacity_in_seconds = ev::u(&cfg["cap"]);
    conf.age_threshold = match ev::i(&cfg["age"]) {
        0 => None,
        n => Some(n as u64),
    };
    conf.tags = ev::tags(&cfg["tags"]);
    conf.gzip = ev::b(&cfg["gzip"]);
    conf
}

fn scrape(host: &str) -> Value {
    let mut res = None;
    crate::wait_for(|| {
        res = get(host, PORT);
        res.is_some()
    });
    res.unwrap_or(json!({ "error": "refused" }))
}

fn start(cfg: &Value) -> (Prometheus, String) {
    let conf = config(cfg);
    let host = conf.host.clone();
    (Prometheus::init(conf), host)
}

/// Shut the sink down; its server answers no more afterwards.
fn stop(sink: Prometheus, host: &str) -> Value {
    let done = Arc::new(AtomicBool::new(false));
    let d = done.clone();
    std::thread::spawn(move || {
        sink.shutdown();
        d.store(true, Ordering::SeqCst);
    });
    // a request makes the server look up from its waiting
    let h = host.to_string();
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_millis(12));
        get(&h, PORT);
    });
    let ended = crate::wait_for(|| done.load(Ordering::SeqCst));
    json!({ "ended": ended })
}

pub fn replay(case: &Value) -> Value {
    let cfg = &case["cfg"];
    ev::set_base(cfg);
    let (mut sink, host) = start(cfg);
    let mut obs = Vec::new();
    for st in ev::arr(&case["steps"]) {
        match st["a"].as_str().unwrap() {
            "add" => sink.deliver(ev::telem_built(&st["ev"])),
            "flush" => sink.flush(),
            "scrape" => obs.push(scrape(&host)),
            x => panic!("harness: step {}", x),
        }
    }
    let stop = if ev::b(&case["stop"]) { stop(sink, &host) } else { Value::Null };
    json!({ "obs": { "scrapes": obs, "stop": stop } })
}

/// What a scrape shows of these metrics.
pub fn expose(tels: &[Telemetry], dflt: &TagMap) -> Value {
    let mut conf = PrometheusConfig::default();
    conf.host = net::own_host();
    conf.port = PORT;
    conf.age_threshold = None;
    conf.tags = dflt.clone();
    let host = conf.host.clone();
    let mut sink = Prometheus::init(conf);
    for t in tels {
        sink.deliver(t.clone());
    }
    sink.flush();
    let res = scrape(&host);
    stop(sink, &host);
    res
}

/// Several sinks that share a clock: "subs" are cases whose ticks are at the same places.
pub fn clocked(case: &Value) -> Value {
    ev::set_base(&case["cfg"]);
    let subs = ev::arr(&case["subs"]);
    let mut sinks: Vec<(Prometheus, String)> = subs.iter().map(|c| start(&c["cfg"])).collect();
    let mut obs: Vec<Vec<Value>> = subs.iter().map(|_| Vec::new()).collect();
    let n = ev::arr(&subs[0]["steps"]).len();
    for k in 0..n {
        for (j, c) in subs.iter().enumerate() {
            let st = &c["steps"][k];
            match st["a"].as_str().unwrap() {
                "add" => sinks[j].0.deliver(ev::telem_built(&st["ev"])),
                "flush" => sinks[j].0.flush(),
                "scrape" => obs[j].push(scrape(&sinks[j].1)),
                "tick" => {
                    if j == 0 {
                        crate::set_clock(ev::base() + ev::i(&st["now"]));
                    }
                }
                x => panic!("harness: step {}", x),
            }
        }
    }
    json!({ "obs": obs })
}

/// Deliveries and scrapes at once; scrapes that got no answer are left out.
pub fn concurrent(case: &Value) -> Value {
    let cfg = &case["cfg"];
    ev::set_base(cfg);
    let (mut sink, host) = start(cfg);
    while TcpStream::connect((host.as_str(), PORT)).is_err() {
        std::thread::sleep(Duration::from_millis(1));
    }
    let over = Arc::new(AtomicBool::new(false));
    let o = over.clone();
    let h = host.clone();
    let scraper = std::thread::spawn(move || {
        let mut res = Vec::new();
        while !o.load(Ordering::SeqCst) {
            if let Some(r) = get(&h, PORT) {
                res.push(r);
            }
        }
        res
    });
    for st in ev::arr(&case["steps"]) {
        match st["a"].as_str().unwrap() {
            "add" => sink.deliver(ev::telem_built(&st["ev"])),
            "flush" => sink.flush(),
            x => panic!("harness: step {}", x),
        }
        std::thread::sleep(Duration::from_micros(300));
    }
    over.store(true, Ordering::SeqCst);
    let mut seen = scraper.join().unwrap();
    seen.push(scrape(&host));
    json!({ "obs": seen })
}
