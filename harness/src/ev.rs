//! Events to and from JSON.
use cernan::metric::{AggregationMethod, Encoding, Event, LogLine, Metadata, TagMap, Telemetry};
use quantiles::histogram::Bound;
use serde_json::{Map, Value};
use std::cell::Cell;
use std::collections::BTreeMap;

thread_local!(static BASE: Cell<i64> = Cell::new(0));

/// With "base": "now" all times are relative to the present, otherwise absolute.
pub fn set_base(cfg: &Value) {
    set_base_value(match cfg["base"] {
        Value::String(_) => cernan::time::now(),
        Value::Number(ref n) => n.as_i64().unwrap(),
        _ => 0,
    });
}

pub fn set_base_value(x: i64) {
    BASE.with(|b| b.set(x));
}

pub fn base() -> i64 {
    BASE.with(|b| b.get())
}

/// {"abs": "n"} is an absolute time, a number is relative to the base.
pub fn time_in(v: &Value) -> i64 {
    match v {
        Value::Object(o) => match o["abs"].as_str().unwrap() {
            "MINNOW" => i64::min_value() + base(),
            "MINNOW1" => i64::min_value() + base() - 1 + 2,
            x => x.parse().unwrap(),
        },
        Value::Number(n) => n.as_i64().unwrap() + base(),
        _ => base(),
    }
}

pub fn time_out(t: i64) -> Value {
    if base() == 0 {
        return json!(t);
    }
    match t.checked_sub(base()) {
        Some(d) if d.abs() < 1_000_000_000 => json!(d),
        _ => json!({ "abs": t.to_string() }),
    }
}

pub fn s(v: &Value) -> String {
    v.as_str().unwrap_or_else(|| panic!("harness: not a string: {}", v)).to_string()
}

pub fn i(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("harness: not an integer: {}", v))
}

pub fn u(v: &Value) -> usize {
    i(v) as usize
}

pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("harness: not an array: {}", v))
}

pub fn f(v: &Value) -> f64 {
    match v.as_str() {
        Some("nan") => return std::f64::NAN,
        Some("inf") => return std::f64::INFINITY,
        Some("-inf") => return std::f64::NEG_INFINITY,
        _ => {}
    }
    v.as_f64().unwrap_or_else(|| panic!("harness: not a number: {}", v))
}

pub fn b(v: &Value) -> bool {
    match v {
        Value::Bool(x) => *x,
        _ => false,
    }
}

/// Tags come as a list of pairs, in insertion order, or as an object.
pub fn tags(v: &Value) -> TagMap {
    let mut m = TagMap::default();
    match v {
        Value::Array(a) => {
            for p in a {
                m.insert(s(&p[0]), s(&p[1]));
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                m.insert(k.clone(), s(x));
            }
        }
        _ => {}
    }
    m
}

pub fn tags_json(m: &TagMap) -> Value {
    let t: BTreeMap<&String, &String> = m.iter().collect();
    json!(t)
}

pub fn kind(x: &str) -> AggregationMethod {
    match x {
        "set" => AggregationMethod::Set,
        "sum" => AggregationMethod::Sum,
        "summ" => AggregationMethod::Summarize,
        "hist" => AggregationMethod::Histogram,
        _ => panic!("harness: kind {}", x),
    }
}

pub fn kind_name(k: AggregationMethod) -> &'static str {
    match k {
        AggregationMethod::Set => "set",
        AggregationMethod::Sum => "sum",
        AggregationMethod::Summarize => "summ",
        AggregationMethod::Histogram => "hist",
    }
}

pub fn telem(v: &Value) -> Telemetry {
    let k = kind(v["kind"].as_str().unwrap_or("set"));
    let mut t = Telemetry::new()
        .name(s(&v["name"]))
        .kind(k)
        .value(f(&v["v"]))
        .timestamp(time_in(&v["ts"]))
        .persist(b(&v["persist"]));
    if k == AggregationMethod::Histogram {
        if let Value::Array(ref a) = v["bounds"] {
            t = t.bounds(a.iter().map(f).collect());
        }
    }
    if k == AggregationMethod::Summarize {
        t = t.error(v["error"].as_f64().unwrap_or(0.001));
    }
    if !v["tags"].is_null() {
        t = t.tags(tags(&v["tags"]));
    }
    let mut t = t.harden().unwrap();
    if let Value::Array(ref a) = v["more"] {
        for x in a {
            t = t.insert(f(x));
        }
    }
    t
}

/// As telem(), with the tags put together by a list of operations
/// ["ins", k, v], ["del", k], ["over", k, v], ["map", [[k, v]...]], ["new", [[k, v]...]].
pub fn telem_built(v: &Value) -> Telemetry {
    let mut t = telem(v);
    if let Value::Array(ref ops) = v["tagops"] {
        for o in ops {
            t = match o[0].as_str().unwrap() {
                "ins" => {
                    t.insert_tag(s(&o[1]), s(&o[2]));
                    t
                }
                "del" => {
                    t.remove_tag(&s(&o[1]));
                    t
                }
                "over" => t.overlay_tag(s(&o[1]), s(&o[2])),
                "map" => t.overlay_tags_from_map(&tags(&o[1])),
                "new" => t.thaw().tags(tags(&o[1])).harden().unwrap(),
                x => panic!("harness: tag operation {}", x),
            };
        }
    }
    t
}

pub fn num(x: f64) -> Value {
    if x.is_nan() {
        json!("nan")
    } else if x.is_infinite() {
        json!(if x > 0.0 { "inf" } else { "-inf" })
    } else if x == x.trunc() && x.abs() < 9.0e15 {
        json!(x as i64)
    } else {
        json!(x)
    }
}

pub fn bins_json(t: &Telemetry) -> Value {
    match t.bins() {
        None => Value::Null,
        Some(it) => Value::Array(
            it.map(|x| {
                let bnd = match x.0 {
                    Bound::Finite(b) => num(b),
                    Bound::PosInf => json!("inf"),
                };
                json!([bnd, x.1])
            })
            .collect(),
        ),
    }
}

/// The full observable content of a Telemetry.
pub fn telem_json(t: &Telemetry) -> Value {
    let none = TagMap::default();
    let tg: BTreeMap<String, String> =
        t.tags(&none).map(|(k, v)| (k.clone(), v.clone())).collect();
    let k = t.kind();
    let v = match k {
        AggregationMethod::Set => num(t.set().unwrap()),
        AggregationMethod::Sum => num(t.sum().unwrap()),
        AggregationMethod::Summarize => {
            let mut xs = t.samples();
            xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
            json!({"samples": xs.iter().map(|x| num(*x)).collect::<Vec<_>>(),
                   "count": t.count(), "sum": num(t.samples_sum().unwrap_or(0.0))})
        }
        AggregationMethod::Histogram => json!({"bins": bins_json(t), "count": t.count(),
                   "sum": num(t.samples_sum().unwrap_or(0.0))}),
    };
    json!({"k": "tel", "name": t.name, "kind": kind_name(k), "v": v, "ts": time_out(t.timestamp),
           "persist": t.persist, "tags": tg})
}

pub fn log_json(l: &LogLine) -> Value {
    let tg = match l.tags {
        Some(ref t) => tags_json(t),
        None => json!({}),
    };
    json!({"k": "log", "path": l.path, "value": l.value, "ts": time_out(l.time), "fields": tags_json(&l.fields), "tags": tg})
}

pub fn logline(v: &Value) -> LogLine {
    let mut l = LogLine::new(
        v["path"].as_str().unwrap_or("p").to_string(),
        v["value"].as_str().unwrap_or("").to_string(),
    );
    l = l.time(time_in(&v["ts"]));
    for (k, x) in tags(&v["fields"]).iter() {
        l = l.insert_field(k.clone(), x.clone());
    }
    if !v["tags"].is_null() {
        l.tags = Some(tags(&v["tags"]));
    }
    l
}

pub fn metadata(v: &Value) -> Option<Metadata> {
    if v.is_null() {
        return None;
    }
    let mut m = Metadata::default();
    for p in arr(v) {
        m.insert(s(&p[0]).into_bytes(), s(&p[1]).into_bytes());
    }
    Some(m)
}

pub fn event(v: &Value) -> Event {
    match v["k"].as_str().unwrap() {
        "tel" => Event::Telemetry(telem(v)),
        "log" => Event::Log(logline(v)),
        "raw" => Event::Raw {
            order_by: v["order"].as_u64().unwrap_or(0),
            encoding: match v["enc"].as_str().unwrap_or("raw") {
                "avro" => Encoding::Avro,
                "json" => Encoding::JSON,
                _ => Encoding::Raw,
            },
            bytes: s(&v["bytes"]).into_bytes(),
            metadata: metadata(&v["meta"]),
            connection_id: None,
        },
        "flush" => Event::TimerFlush(v["i"].as_u64().unwrap()),
        "shutdown" => Event::Shutdown,
        x => panic!("harness: event kind {}", x),
    }
}

/// Bytes as text, or in hexadecimal if they are none.
pub fn text(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => s.to_string(),
        Err(_) => format!("hex:{}", crate::source::hex(b)),
    }
}

pub fn raw_json(order_by: u64, encoding: &Encoding, bytes: &[u8], metadata: &Option<Metadata>) -> Value {
    let mut o = Map::new();
    o.insert("k".into(), json!("raw"));
    o.insert("order".into(), json!(order_by));
    o.insert(
        "enc".into(),
        json!(match encoding {
            Encoding::Raw => "raw",
            Encoding::Avro => "avro",
            Encoding::JSON => "json",
        }),
    );
    o.insert("bytes".into(), json!(text(bytes)));
    o.insert(
        "meta".into(),
        match metadata {
            None => Value::Null,
            Some(m) => {
                let mut ps: Vec<(String, String)> = m
                    .iter()
                    .map(|(k, v)| {
                        (
                            text(k),
                            text(v),
                        )
                    })
                    .collect();
                ps.sort();
                json!(ps)
            }
        },
    );
    Value::Object(o)
}

pub fn event_json(e: &Event) -> Value {
    match e {
        Event::Telemetry(t) => telem_json(t),
        Event::Log(l) => log_json(l),
        Event::TimerFlush(i) => json!({"k": "flush", "i": i}),
        Event::Shutdown => json!({"k": "shutdown"}),
        Event::Raw { order_by, encoding, bytes, metadata, .. } => {
            raw_json(*order_by, encoding, bytes, metadata)
        }
    }
}
