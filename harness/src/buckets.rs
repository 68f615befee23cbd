//! The aggregation store (Buckets.tla) and the tag operations (Tags.tla).
use crate::ev;
use cernan::buckets::Buckets;
use cernan::metric::{AggregationMethod, TagMap, Telemetry};
use serde_json::Value;
use std::collections::BTreeMap;

fn point(t: &Telemetry) -> Value {
    let v = match t.kind() {
        AggregationMethod::Set => json!([ev::num(t.set().unwrap())]),
        AggregationMethod::Sum => json!([ev::num(t.sum().unwrap())]),
        AggregationMethod::Summarize => {
            let mut xs = t.samples();
            xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let mut xs: Vec<Value> = xs.iter().map(|x| ev::num(*x)).collect();
            xs.push(json!(format!("count {} sum {}", t.count(), t.samples_sum().unwrap())));
            json!(xs)
        }
        AggregationMethod::Histogram => {
            json!([ev::bins_json(t), format!("count {} sum {}", t.count(), t.samples_sum().unwrap())])
        }
    };
    json!({"ts": ev::time_out(t.timestamp), "kind": ev::kind_name(t.kind()), "vals": v, "persist": t.persist})
}

pub fn replay(case: &Value) -> Value {
    ev::set_base(&case["cfg"]);
    let mut b = Buckets::new(ev::i(&case["cfg"]["width"]));
    if ev::b(&case["cfg"]["default"]) {
        b = Buckets::default();
    }
    for st in ev::arr(&case["steps"]) {
        if st["a"] == "reset" {
            b.reset();
        } else {
            b.add(ev::telem_built(&st["ev"]));
        }
    }
    let (count, len, empty) = (b.count(), b.len(), b.is_empty());
    let mut m: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    for t in b.iter() {
        let none = TagMap::default();
        let tg: BTreeMap<String, String> = t.tags(&none).map(|(k, v)| (k.clone(), v.clone())).collect();
        m.entry(format!("{} {}", t.name, json!(tg))).or_insert_with(Vec::new).push(point(t));
    }
    json!({"obs": {"points": m, "count": count, "len": len, "empty": empty}})
}
