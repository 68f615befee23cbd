//! The internal source (Internal.tla).
use crate::ev;
use crate::source::{self, Tap};
use cernan::metric::{AggregationMethod, Event};
use cernan::source::{report_full_telemetry, Internal, InternalConfig, Source};
use serde_json::Value;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::thread;

/// What is reported under which name, and whether as a level.
static COUNTERS: &[(&str, &AtomicUsize, bool)] = &[
    ("cernan.util.hopper.error.full", &cernan::util::UTIL_SEND_HOPPER_ERROR_FULL, false),
    ("cernan.sinks.elasticsearch.records.delivery", &cernan::sink::elasticsearch::ELASTIC_RECORDS_DELIVERY, false),
    ("cernan.sinks.elasticsearch.records.total_delivered", &cernan::sink::elasticsearch::ELASTIC_RECORDS_TOTAL_DELIVERED, false),
    ("cernan.sinks.elasticsearch.records.total_failed", &cernan::sink::elasticsearch::ELASTIC_RECORDS_TOTAL_FAILED, false),
    ("cernan.sinks.elasticsearch.error.unknown", &cernan::sink::elasticsearch::ELASTIC_ERROR_UNKNOWN, false),
    ("cernan.sinks.elasticsearch.error.bulk_action.index", &cernan::sink::elasticsearch::ELASTIC_BULK_ACTION_INDEX_ERR, false),
    ("cernan.sinks.elasticsearch.error.bulk_action.create", &cernan::sink::elasticsearch::ELASTIC_BULK_ACTION_CREATE_ERR, false),
    ("cernan.sinks.elasticsearch.error.bulk_action.update", &cernan::sink::elasticsearch::ELASTIC_BULK_ACTION_UPDATE_ERR, false),
    ("cernan.sinks.elasticsearch.error.bulk_action.delete", &cernan::sink::elasticsearch::ELASTIC_BULK_ACTION_DELETE_ERR, false),
    ("cernan.sinks.elasticsearch.error.api.index_not_found", &cernan::sink::elasticsearch::ELASTIC_ERROR_API_INDEX_NOT_FOUND, false),
    ("cernan.sinks.elasticsearch.error.api.parsing", &cernan::sink::elasticsearch::ELASTIC_ERROR_API_PARSING, false),
    ("cernan.sinks.elasticsearch.error.api.mapper_parsing", &cernan::sink::elasticsearch::ELASTIC_ERROR_API_MAPPER_PARSING, false),
    ("cernan.sinks.elasticsearch.error.api.action_request_validation", &cernan::sink::elasticsearch::ELASTIC_ERROR_API_ACTION_REQUEST_VALIDATION, false),
    ("cernan.sinks.elasticsearch.error.api.action_document_missing", &cernan::sink::elasticsearch::ELASTIC_ERROR_API_DOCUMENT_MISSING, false),
    ("cernan.sinks.elasticsearch.error.api.index_already_exists", &cernan::sink::elasticsearch::ELASTIC_ERROR_API_INDEX_ALREADY_EXISTS, false),
    ("cernan.sinks.elasticsearch.error.api.unknown", &cernan::sink::elasticsearch::ELASTIC_ERROR_API_UNKNOWN, false),
    ("cernan.sinks.elasticsearch.error.client", &cernan::sink::elasticsearch::ELASTIC_ERROR_CLIENT, false),
    ("cernan.sinks.wavefront.proxy.connection_attempts", &cernan::sink::wavefront::WAVEFRONT_CONNECT_ATTEMPTS, false),
    ("cernan.sinks.wavefront.aggregations.total_stored", &cernan::sink::wavefront::WAVEFRONT_AGGR_STORED_VALUES, true),
    ("cernan.sinks.wavefront.aggregation.histogram", &cernan::sink::wavefront::WAVEFRONT_AGGR_HISTO, false),
    ("cernan.sinks.wavefront.aggregation.sum", &cernan::sink::wavefront::WAVEFRONT_AGGR_SUM, false),
    ("cernan.sinks.wavefront.aggregation.set", &cernan::sink::wavefront::WAVEFRONT_AGGR_SET, false),
    ("cernan.sinks.wavefront.aggregation.summarize", &cernan::sink::wavefront::WAVEFRONT_AGGR_SUMMARIZE, false),
    ("cernan.sinks.wavefront.aggregation.summarize.total_percentiles", &cernan::sink::wavefront::WAVEFRONT_AGGR_TOT_PERCENT, false),
    ("cernan.sinks.wavefront.delivery.success", &cernan::sink::wavefront::WAVEFRONT_DELIVERY_SUCCESS, false),
    ("cernan.sinks.wavefront.delivery.failure", &cernan::sink::wavefront::WAVEFRONT_DELIVERY_FAILURE, false),
    ("cernan.sinks.wavefront.valve.closed", &cernan::sink::wavefront::WAVEFRONT_VALVE_CLOSED, false),
    ("cernan.sinks.wavefront.valve.open", &cernan::sink::wavefront::WAVEFRONT_VALVE_OPEN, false),
    ("cernan.sinks.prometheus.aggregation.inside_baseball.windowed.purged", &cernan::sink::prometheus::PROMETHEUS_AGGR_WINDOWED_PURGED, false),
    ("cernan.sinks.prometheus.exposition.inside_baseball.delay.sum", &cernan::sink::prometheus::PROMETHEUS_RESPONSE_DELAY_SUM, false),
    ("cernan.sinks.prometheus.aggregation.reportable", &cernan::sink::prometheus::PROMETHEUS_AGGR_REPORTABLE, true),
    ("cernan.sinks.prometheus.report.success", &cernan::sink::prometheus::PROMETHEUS_REPORT_SUCCESS, false),
    ("cernan.sinks.prometheus.report.error", &cernan::sink::prometheus::PROMETHEUS_REPORT_ERROR, false),
    ("cernan.sinks.influxdb.delivery_attempts", &cernan::sink::influxdb::INFLUX_DELIVERY_ATTEMPTS, false),
    ("cernan.sinks.influxdb.success", &cernan::sink::influxdb::INFLUX_SUCCESS, false),
    ("cernan.sinks.influxdb.failure.client_error", &cernan::sink::influxdb::INFLUX_FAILURE_CLIENT, false),
    ("cernan.sinks.influxdb.failure.server_error", &cernan::sink::influxdb::INFLUX_FAILURE_SERVER, false),
    ("cernan.sinks.kafka.publish.success", &cernan::sink::kafka::KAFKA_PUBLISH_SUCCESS_SUM, false),
    ("cernan.sinks.kafka.publish.retry", &cernan::sink::kafka::KAFKA_PUBLISH_RETRY_SUM, false),
    ("cernan.sinks.kafka.publish.failure", &cernan::sink::kafka::KAFKA_PUBLISH_FAILURE_SUM, false),
    ("cernan.sinks.kafka.publish.retry.failure", &cernan::sink::kafka::KAFKA_PUBLISH_RETRY_FAILURE_SUM, false),
    ("cernan.filters.delay.telemetry.accept", &cernan::filter::delay_filter::DELAY_TELEM_ACCEPT, false),
    ("cernan.filters.delay.telemetry.reject", &cernan::filter::delay_filter::DELAY_TELEM_REJECT, false),
    ("cernan.filters.delay.log.reject", &cernan::filter::delay_filter::DELAY_LOG_REJECT, false),
    ("cernan.filters.delay.log.accept", &cernan::filter::delay_filter::DELAY_LOG_ACCEPT, false),
    ("cernan.filters.json_encode.log.processed", &cernan::filter::json_encode_filter::JSON_ENCODE_LOG_PROCESSED, false),
    ("cernan.filters.json_encode.log.parsed", &cernan::filter::json_encode_filter::JSON_ENCODE_LOG_PARSED, false),
];

const MARK: &str = "harness.marker";

/// Names, kinds and tags -> sum (of a level: all values) of the events in [from, to).
fn summed(evs: &[Event]) -> Value {
    let mut m: BTreeMap<String, (f64, Vec<f64>)> = BTreeMap::new();
    for e in evs {
        match e {
            Event::Telemetry(t) => {
                if t.name == MARK {
                    continue;
                }
                let none = Default::default();
                let mut tags: Vec<String> = t.tags(&none).map(|(k, v)| format!("{}={}", k, v)).collect();
                tags.sort();
                let key = format!("{} {} {}", t.name, ev::kind_name(t.kind()), tags.join(","));
                let x = m.entry(key).or_insert((0.0, Vec::new()));
                match t.kind() {
                    AggregationMethod::Set => x.1.push(t.set().unwrap()),
                    _ => x.0 += t.sum().unwrap_or(std::f64::NAN),
                }
            }
            Event::Shutdown => {}
            e => {
                m.insert(format!("{:?}", e), (0.0, Vec::new()));
            }
        }
    }
    let mut r = serde_json::Map::new();
    for (k, (s, v)) in m {
        r.insert(k, if v.is_empty() { json!(s as u64) } else { json!(v) });
    }
    Value::Object(r)
}

/// A pass that began after now has ended.
fn sync(tap: &Tap, last: &mut usize) -> Option<Value> {
    let seen = tap.len();
    report_full_telemetry(MARK, 1.0, None);
    let mut at = None;
    crate::wait_for(|| {
        let g = tap.got.lock().unwrap();
        at = g[seen..].iter().position(|e| match e {
            Event::Telemetry(t) => t.name == MARK,
            _ => false,
        });
        at.is_some()
    });
    at?;
    // the rest of the pass: the marker need not be the last of the tagged ones
    thread::sleep(std::time::Duration::from_millis(100));
    let g = tap.got.lock().unwrap();
    let r = summed(&g[*last..]);
    *last = g.len();
    Some(r)
}

pub fn replay(case: &Value) -> Value {
    let nf = ev::u(&case["forwards"]);
    let (mut taps, mut chans) = (Vec::new(), Vec::new());
    for i in 0..nf {
        let (t, s) = Tap::new(&format!("f{}", i));
        taps.push(t);
        chans.push(s);
    }
    // the clock of this process is its own
    let h = Internal::new(chans, InternalConfig::default()).run();
    let mut last = 0;
    if sync(&taps[0], &mut last).is_none() {
        return json!({"obs": "nothing is reported"});
    }
    let mut obs = Vec::new();
    let stop = Arc::new(AtomicBool::new(false));
    let mut hammers = Vec::new();
    for st in ev::arr(&case["steps"]) {
        for a in ev::arr(&st["do"]) {
            match a["a"].as_str().unwrap() {
                "count" => {
                    let c = COUNTERS.iter().find(|c| c.0 == a["name"]).expect("harness: counter");
                    if c.2 {
                        c.1.store(ev::u(&a["n"]), Ordering::Relaxed);
                    } else {
                        c.1.fetch_add(ev::u(&a["n"]), Ordering::Relaxed);
                    }
                }
                "tagged" => {
                    let tags: Vec<(String, String)> = ev::arr(&a["tags"]).iter().map(|p| (ev::s(&p[0]), ev::s(&p[1]))).collect();
                    report_full_telemetry(&ev::s(&a["name"]), ev::f(&a["n"]), Some(tags.iter().map(|(k, v)| (&k[..], &v[..])).collect()));
                }
                "source" => {
                    let r = source::replay(&a["case"]);
                    if r["obs"]["ended"] != "ended" {
                        return json!({ "obs": r });
                    }
                }
                // threads that count without a pause until the end of the step
                "hammer" => {
                    for k in 0..ev::u(&a["threads"]) {
                        let s = stop.clone();
                        hammers.push(thread::spawn(move || {
                            let mut n: usize = 0;
                            let mut t: usize = 0;
                            while !s.load(Ordering::Relaxed) {
                                for c in COUNTERS.iter().filter(|c| !c.2) {
                                    c.1.fetch_add(1, Ordering::Relaxed);
                                }
                                n += 1;
                                if n % 512 == k {
                                    report_full_telemetry("harness.hammered", 1.0, None);
                                    t += 1;
                                }
                            }
                            (n, t)
                        }));
                    }
                }
                x => panic!("harness: {}", x),
            }
        }
        if hammers.is_empty() {
            if st["last"] != true {
                match sync(&taps[0], &mut last) {
                    Some(v) => obs.push(v),
                    None => return json!({ "obs": { "passes": obs, "then": "nothing more was reported" } }),
                }
            }
        } else {
            thread::sleep(std::time::Duration::from_millis(ev::u(&st["ms"]) as u64));
        }
    }
    // hammering goes on while the source stops
    let base: Vec<usize> = if hammers.is_empty() { Vec::new() } else { vec![0] };
    let mut hammered = Value::Null;
    let ended;
    if base.is_empty() {
        ended = source::stop(h);
    } else if case["racing"] == true {
        ended = source::stop(h);
        stop.store(true, Ordering::SeqCst);
    } else {
        stop.store(true, Ordering::SeqCst);
        thread::sleep(std::time::Duration::from_millis(50));
        ended = source::stop(h);
    }
    if !hammers.is_empty() {
        let (mut n, mut t) = (0, 0);
        for x in hammers {
            let r = x.join().unwrap();
            n += r.0;
            t += r.1;
        }
        hammered = json!([n, t]);
    }
    let all: Vec<Vec<Event>> = taps.into_iter().map(|t| t.finish()).collect();
    let left: Vec<usize> = COUNTERS.iter().filter(|c| !c.2).map(|c| c.1.swap(0, Ordering::SeqCst)).collect();
    let same = all.iter().all(|x| x.len() == all[0].len() && x.iter().zip(all[0].iter()).all(|(a, b)| a == b));
    let shutdowns = all.iter().map(|x| x.iter().filter(|e| **e == Event::Shutdown).count()).collect::<Vec<_>>();
    let end = all.iter().all(|x| x.last() == Some(&Event::Shutdown));
    let rest = summed(&all[0][last..]);
    if hammered.is_null() {
        obs.push(rest);
        json!({ "obs": { "passes": obs, "ended": ended, "same": same, "shutdowns": shutdowns, "end": end } })
    } else {
        json!({ "obs": { "total": rest, "left": left, "hammered": hammered, "ended": ended, "same": same, "shutdowns": shutdowns, "end": end } })
    }
}
