//! The console sink and what it prints (Console.tla).
use crate::ev;
use crate::tags::printed;
use cernan::sink::{Console, ConsoleConfig, Sink};
use cernan::util::Valve;
use serde_json::Value;

pub fn replay(case: &Value) -> Value {
    let cfg = &case["cfg"];
    ev::set_base(cfg);
    let mut conf = ConsoleConfig::default();
    conf.bin_width = ev::i(&cfg["width"]);
    conf.tags = ev::tags(&cfg["tags"]);
    let mut sink = Console::init(conf);
    let mut open = true;
    let mut out = Vec::new();
    for st in ev::arr(&case["steps"]) {
        match st["a"].as_str().unwrap() {
            "add" => sink.deliver(ev::telem_built(&st["ev"])),
            "line" => sink.deliver_line(ev::logline(&st["ev"])),
            _ => out.push(json!(printed(|| sink.flush()))),
        }
        open = open && match sink.valve_state() {
            Valve::Open => true,
            Valve::Closed => false,
        };
    }
    out.push(json!(printed(|| sink.shutdown())));
    json!({"obs": {"out": out, "open": open}})
}
