//! The Wavefront sink, writing to a proxy played by the harness (Wavefront.tla).
use crate::ev;
use crate::net::{self, Server};
use cernan::sink::wavefront::PadControl;
use cernan::sink::{Sink, Wavefront, WavefrontConfig};
use serde_json::Value;
use std::collections::BTreeMap;

pub fn parse(line: &str) -> Value {
    let p: Vec<&str> = line.split(' ').collect();
    if p.len() < 4 {
        return json!({ "unparsable": line });
    }
    let mut tags: BTreeMap<String, String> = BTreeMap::new();
    for t in &p[3..] {
        if t.is_empty() && p.len() == 4 {
            continue;
        }
        let kv: Vec<&str> = t.splitn(2, '=').collect();
        if kv.len() != 2 || tags.insert(kv[0].to_string(), kv[1].to_string()).is_some() {
            return json!({ "unparsable": line });
        }
    }
    let ts: i64 = match p[2].parse() {
        Ok(t) => t,
        Err(_) => return json!({ "unparsable": line }),
    };
    let v: f64 = match p[1].parse() {
        Ok(t) => t,
        Err(_) => return json!({ "unparsable": line }),
    };
    json!([p[0], ev::num(v), ev::time_out(ts), tags])
}

pub fn replay(case: &Value) -> Value {
    let cfg = &case["cfg"];
    ev::set_base(cfg);
    let mut srv = Server::new();
    let mut conf = WavefrontConfig::default();
    conf.host = srv.host();
    conf.port = srv.port;
    conf.bin_width = ev::i(&cfg["width"]);
    conf.tags = ev::tags(&cfg["tags"]);
    conf.percentiles = vec![("min".to_string(), 0.0), ("max".to_string(), 1.0)];
    conf.age_threshold = match ev::i(&cfg["age"]) {
        0 => None,
        n => Some(n as u64),
    };
    let on = |k: &str| ev::arr(&cfg["pad"]).iter().any(|x| x == k);
    conf.pad_control = PadControl {
        set: on("set"),
        sum: on("sum"),
        summarize: on("summ"),
        histogram: on("hist"),
    };
    let mut sink = Wavefront::init(conf);
    for st in ev::arr(&case["steps"]) {
        match st["a"].as_str().unwrap() {
            "add" => sink.deliver(ev::telem_built(&st["ev"])),
            "flush" => sink.flush(),
            how => {
                // everything written so far has arrived when the connection breaks
                let n = ev::u(&st["lines"]);
                srv.wait_lines(n);
                let back = net::interrupt(&mut srv, how);
                sink.flush();
                net::restore(&mut srv, back);
            }
        }
    }
    sink.shutdown();
    srv.wait_lines(ev::u(&case["total"]));
    srv.wait_eof();
    let lines: Vec<Value> = srv.text().lines().map(parse).collect();
    json!({ "obs": lines })
}
