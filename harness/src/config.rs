//! What a configuration file is taken to mean (Config.tla).
use crate::ev;
use cernan::config::{parse_config, Args};
use cernan::metric::TagMap;
use serde_json::{Map, Value};
use std::collections::HashMap;
use std::io::Write;
use std::panic;

fn num(x: f64) -> Value {
    json!(x)
}

fn tags(t: &TagMap) -> Value {
    ev::tags_json(t)
}

fn each<C, F: Fn(&C) -> Value>(res: &mut Map<String, Value>, m: &Option<HashMap<String, C>>, f: F) {
    if let Some(ref m) = *m {
        for (k, c) in m {
            assert!(res.insert(k.clone(), f(c)).is_none());
        }
    }
}

fn one<C, F: Fn(&C) -> Value>(res: &mut Map<String, Value>, name: &str, c: &Option<C>, f: F) {
    if let Some(ref c) = *c {
        res.insert(name.to_string(), f(c));
    }
}

fn name(p: &Option<String>) -> String {
    p.clone().unwrap_or_else(|| "no name".to_string())
}

fn meaning(a: &Args) -> Value {
    let mut r = Map::new();
    each(&mut r, &a.delay_filters, |c| json!({"tolerance": c.tolerance, "forwards": c.forwards}));
    each(&mut r, &a.flush_boundary_filters, |c| json!({"tolerance": c.tolerance, "forwards": c.forwards}));
    each(&mut r, &a.json_encode_filters, |c| json!({"parse_line": c.parse_line, "forwards": c.forwards, "tags": tags(&c.tags)}));
    each(&mut r, &a.programmable_filters, |c| json!({"scripts": c.scripts_directory, "script": c.script, "forwards": c.forwards, "tags": tags(&c.tags)}));
    one(&mut r, "sinks.null", &a.null, |_| json!({}));
    one(&mut r, "sinks.console", &a.console, |c| json!({"bin_width": c.bin_width, "flush_interval": c.flush_interval, "tags": tags(&c.tags)}));
    one(&mut r, "sinks.wavefront", &a.wavefront, |c| {
        let mut ps: Vec<Value> = c.percentiles.iter().map(|x| json!([x.0, num(x.1)])).collect();
        ps.sort_by_key(|x| x[0].as_str().unwrap().to_string());
        let p = &c.pad_control;
        json!({"bin_width": c.bin_width, "flush_interval": c.flush_interval, "host": c.host, "port": c.port, "age_threshold": c.age_threshold, "percentiles": ps,
               "padding": [p.set, p.sum, p.summarize, p.histogram], "tags": tags(&c.tags)})
    });
    one(&mut r, "sinks.influxdb", &a.influxdb, |c| json!({"flush_interval": c.flush_interval, "host": c.host, "port": c.port, "secure": c.secure, "db": c.db, "tags": tags(&c.tags)}));
    one(&mut r, "sinks.prometheus", &a.prometheus, |c| json!({"host": c.host, "port": c.port, "age_threshold": c.age_threshold, "capacity_in_seconds": c.capacity_in_seconds, "tags": tags(&c.tags)}));
    one(&mut r, "sinks.elasticsearch", &a.elasticsearch, |c| json!({"flush_interval": c.flush_interval, "host": c.host, "port": c.port, "secure": c.secure, "index-prefix": c.index_prefix, "index_type": c.index_type,
        "delivery_attempt_limit": c.delivery_attempt_limit, "tags": tags(&c.tags)}));
    one(&mut r, "sinks.native", &a.native_sink_config, |c| json!({"flush_interval": c.flush_interval, "host": c.host, "port": c.port, "tags": tags(&c.tags)}));
    for c in a.kafkas.iter().flatten() {
        let v = json!({"topic": c.topic_name, "brokers": c.brokers, "librdkafka": c.rdkafka_config, "flush_interval": c.flush_interval, "max_message_bytes": c.max_message_bytes});
        assert!(r.insert(name(&c.config_path), v).is_none());
    }
    for c in a.files.iter().flatten() {
        let v = json!({"path": c.path, "forwards": c.forwards, "max_read_bytes": c.max_read_bytes});
        assert!(r.insert(name(&c.config_path), v).is_none());
    }
    each(&mut r, &a.statsds, |c| {
        let ms: Vec<Value> = c.parse_config.histogram_masks.iter().map(|x| json!([x.0.as_str(), x.1])).collect();
        json!({"host": c.host, "port": c.port, "forwards": c.forwards, "mapping": ms, "summarize_error_bound": num(c.parse_config.summarize_error_bound)})
    });
    each(&mut r, &a.graphites, |c| json!({"host": c.host, "port": c.port, "forwards": c.forwards}));
    each(&mut r, &a.avros, |c| json!({"host": c.host, "port": c.port, "forwards": c.forwards}));
    each(&mut r, &a.native_server_config, |c| json!({"ip": c.ip, "port": c.port, "forwards": c.forwards}));
    r.insert("sources.internal".to_string(), json!({"forwards": a.internal.forwards}));
    json!({"stages": r, "max-hopper-in-memory-bytes": a.max_hopper_in_memory_bytes, "max-hopper-queue-bytes": a.max_hopper_queue_bytes, "max-hopper-queue-files": a.max_hopper_queue_files,
           "data-directory": a.data_directory, "scripts-directory": a.scripts_directory, "flush-interval": a.flush_interval})
}

pub fn replay(case: &Value) -> Value {
    let path = crate::scratch().join("cernan.toml");
    std::fs::File::create(&path).unwrap().write_all(case["text"].as_str().unwrap().as_bytes()).unwrap();
    match panic::catch_unwind(|| parse_config(path.to_str().unwrap())) {
        Ok(a) => json!({ "obs": meaning(&a) }),
        Err(_) => json!({"obs": "refused"}),
    }
}
