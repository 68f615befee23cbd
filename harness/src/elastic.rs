//! The Elasticsearch sink against a cluster played here (Elastic.tla).
use crate::ev;
use crate::http::HttpServer;
use cernan::sink::elasticsearch::*;
use cernan::sink::{Elasticsearch, ElasticsearchConfig, Sink};
use cernan::util::Valve;
use serde_json::Value;
use std::collections::HashMap;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

fn counts() -> Vec<usize> {
    [
        &ELASTIC_RECORDS_DELIVERY,
        &ELASTIC_RECORDS_TOTAL_DELIVERED,
        &ELASTIC_RECORDS_TOTAL_FAILED,
        &ELASTIC_BULK_ACTION_INDEX_ERR,
        &ELASTIC_BULK_ACTION_CREATE_ERR,
        &ELASTIC_BULK_ACTION_UPDATE_ERR,
        &ELASTIC_BULK_ACTION_DELETE_ERR,
        &ELASTIC_ERROR_API_INDEX_NOT_FOUND,
        &ELASTIC_ERROR_API_PARSING,
        &ELASTIC_ERROR_API_MAPPER_PARSING,
        &ELASTIC_ERROR_API_ACTION_REQUEST_VALIDATION,
        &ELASTIC_ERROR_API_DOCUMENT_MISSING,
        &ELASTIC_ERROR_API_INDEX_ALREADY_EXISTS,
        &ELASTIC_ERROR_API_UNKNOWN,
        &ELASTIC_ERROR_CLIENT,
        &ELASTIC_ERROR_UNKNOWN,
    ]
    .iter()
    .map(|c| c.load(Ordering::SeqCst))
    .collect()
}

#[derive(Default)]
struct Cluster {
    /// how the next request is answered
    reply: Value,
    /// document ids in the order they first came
    known: Vec<String>,
    requests: Vec<Value>,
}

/// The bulk request as pairs of JSON documents
fn documents(body: &str) -> Option<Vec<(Value, Value)>> {
    if !body.ends_with('\n') {
        return None;
    }
    let lines: Vec<Value> = body.lines().map(|l| serde_json::from_str(l).ok()).collect::<Option<_>>()?;
    if lines.len() % 2 != 0 {
        return None;
    }
    Some(lines.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect())
}

pub fn replay(case: &Value) -> Value {
    let cfg = &case["cfg"];
    ev::set_base(cfg);
    let state = Arc::new(Mutex::new(Cluster::default()));
    let st2 = state.clone();
    let srv = HttpServer::new(move |req| {
        let mut c = st2.lock().unwrap();
        let reply = c.reply.clone();
        let text = ev::text(&req.body);
        let docs = match documents(&text) {
            Some(d) => d,
            None => {
                c.requests.push(json!({ "line": req.line, "unreadable": text }));
                return Some((400, "application/json".to_string(), b"{}".to_vec()));
            }
        };
        let mut seen = Vec::new();
        let mut ids = Vec::new();
        for (h, d) in &docs {
            let mut h = h["index"].clone();
            let mut d = d.clone();
            let id = h["_id"].as_str().unwrap_or("none").to_string();
            let n = match c.known.iter().position(|x| *x == id) {
                Some(n) => n,
                None => {
                    c.known.push(id.clone());
                    c.known.len() - 1
                }
            };
            // ids are random: number them by when they first came
            h["_id"] = json!(n + 1);
            if d["uuid"] == json!(id) {
                d["uuid"] = json!(n + 1);
            }
            seen.push(json!([h, d]));
            ids.push(id);
        }
        c.requests.push(json!({ "line": req.line, "type": req.header("content-type").map(|t| t.split(';').next().unwrap().to_string()), "docs": seen }));
        match reply["how"].as_str().unwrap() {
            "drop" => None,
            "status" => Some((ev::u(&reply["status"]) as u16, "application/json".to_string(), ev::s(&reply["body"]).into_bytes())),
            _ => {
                // [position in the request (or an id), error or null, action]
                let items: Vec<Value> = ev::arr(&reply["items"])
                    .iter()
                    .map(|it| {
                        let id = match &it[0] {
                            Value::String(s) => s.clone(),
                            n => ids[ev::u(n) - 1].clone(),
                        };
                        let mut r = json!({ "_index": "i", "_type": "t", "_id": id, "status": if it[1].is_null() { 201 } else { 400 } });
                        if it[1].is_null() {
                            r["_version"] = json!(1);
                            r["_shards"] = json!({"total": 2, "successful": 1, "failed": 0});
                            r["created"] = json!(true);
                        } else {
                            r["error"] = it[1].clone();
                        }
                        let mut o = HashMap::new();
                        o.insert(ev::s(&it[2]), r);
                        json!(o)
                    })
                    .collect();
                let errors = ev::arr(&reply["items"]).iter().any(|i| !i[1].is_null());
                Some((200, "application/json".to_string(), json!({ "took": 3, "errors": errors, "items": items }).to_string().into_bytes()))
            }
        }
    });
    let mut conf = ElasticsearchConfig::default();
    conf.host = "127.0.0.1".to_string();
    conf.port = srv.port as usize;
    conf.tags = ev::tags(&cfg["tags"]);
    conf.index_prefix = cfg["prefix"].as_str().map(|x| x.to_string());
    if let Some(t) = cfg["type"].as_str() {
        conf.index_type = t.to_string();
    }
    conf.delivery_attempt_limit = ev::u(&cfg["limit"]) as u8;
    let mut sink = Some(Elasticsearch::init(conf));
    let mut obs = Vec::new();
    for st in ev::arr(&case["steps"]) {
        let before = counts();
        match st["a"].as_str().unwrap() {
            "add" => {
                for _ in 0..st["times"].as_u64().unwrap_or(1) {
                    sink.as_mut().unwrap().deliver_line(ev::logline(&st["ev"]));
                }
            }
            how => {
                state.lock().unwrap().reply = st["reply"].clone();
                match how {
                    "flush" => sink.as_mut().unwrap().flush(),
                    "stop" => sink.take().unwrap().shutdown(),
                    x => panic!("harness: step {}", x),
                }
            }
        }
        let valve = sink.as_ref().map_or("gone", |k| match k.valve_state() {
            Valve::Open => "open",
            Valve::Closed => "closed",
        });
        let after = counts();
        let counted: Vec<usize> = after.iter().zip(before).map(|(a, b)| a - b).collect();
        let requests: Vec<Value> = state.lock().unwrap().requests.drain(..).collect();
        obs.push(json!({ "valve": valve, "counted": counted, "requests": requests }));
    }
    json!({ "obs": obs })
}
