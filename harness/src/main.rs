//! Conformance harness: replays behaviours of the TLA+ specifications into the
//! real code and reports what the code did.  Uses only cernan's public
//! interface, sockets, files and the program itself.
//!
//! usage: vh DRIVER IN.ndjson OUT.ndjson WORKERS
extern crate byteorder;
extern crate cernan;
extern crate chrono;
extern crate flate2;
extern crate hopper;
extern crate libc;
extern crate log;
extern crate mio;
extern crate protobuf;
extern crate quantiles;
extern crate regex;
#[macro_use]
extern crate serde_json;
extern crate toml;
extern crate uuid;

mod adjacency;
mod buckets;
mod config;
mod console;
mod elastic;
mod ev;
mod fanout;
mod filetail;
mod filters;
mod http;
mod influx;
mod internal;
mod kafka;
mod native;
mod net;
mod prom;
mod source;
mod sinkloop;
mod tags;
mod tls;
mod wavefront;

use serde_json::Value;
use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::panic;
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::thread;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub type Driver = fn(&Value) -> Value;

fn driver(name: &str) -> Option<Driver> {
    match name {
        "config" => Some(config::replay),
        "console" => Some(console::replay),
        "adjacency" => Some(adjacency::replay),
        "filetail" => Some(filetail::replay),
        "elastic" => Some(elastic::replay),
        "influx" => Some(influx::replay),
        "kafka" => Some(kafka::replay),
        "timer" => Some(adjacency::timer),
        "sinkloop" => Some(sinkloop::replay),
        "filter" => Some(filters::process),
        "buckets" => Some(buckets::replay),
        "wavefront" => Some(wavefront::replay),
        "prom" => Some(prom::replay),
        "promclock" => Some(prom::clocked),
        "source" => Some(source::replay),
        "tags" => Some(tags::replay),
        "fanout" => Some(fanout::replay),
        "fanoutrun" => Some(fanout::run),
        "internal" => Some(internal::replay),
        "native" => Some(native::replay),
        "promrun" => Some(prom::concurrent),
        "events" => Some(filters::events),
        "filterrun" => Some(filters::run),
        "sinkthreads" => Some(sinkloop::record),
        _ => None,
    }
}

static CLOCK: AtomicI64 = AtomicI64::new(0);

/// The wall clock of this process stands still at VH_NOW, until set_clock().
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, tp: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, clk, tp) as libc::c_int;
    if r == 0 && clk == libc::CLOCK_REALTIME {
        let t = CLOCK.load(Ordering::SeqCst);
        if t != 0 {
            (*tp).tv_sec = t;
            (*tp).tv_nsec = 0;
        }
    }
    r
}

fn fix_clock() {
    if let Some(t) = std::env::var("VH_NOW").ok().and_then(|s| s.parse::<i64>().ok()) {
        CLOCK.store(t, Ordering::SeqCst);
    }
}

/// Move the wall clock and let cernan notice.
pub fn set_clock(t: i64) {
    static STARTED: AtomicUsize = AtomicUsize::new(0);
    if STARTED.swap(1, Ordering::SeqCst) == 0 {
        thread::spawn(cernan::time::update_time);
    }
    CLOCK.store(t, Ordering::SeqCst);
    if !wait_for(|| cernan::time::now() == t) {
        panic!("cernan's time did not follow the clock");
    }
}

static GAVE_UP: AtomicUsize = AtomicUsize::new(0);

/// How long to wait for something the specification says must happen.
pub fn patience() -> Duration {
    if GAVE_UP.load(Ordering::SeqCst) < 8 {
        Duration::from_secs(20)
    } else {
        Duration::from_secs(2)
    }
}

/// Something that must happen did not: the code is wrong already, so the rest
/// is given less time, and soon skipped.
pub fn gave_up() {
    GAVE_UP.fetch_add(1, Ordering::SeqCst);
}

/// Wait until the condition holds.
pub fn wait_for<F: FnMut() -> bool>(mut f: F) -> bool {
    let t0 = Instant::now();
    let mut nap = 50;
    loop {
        if f() {
            return true;
        }
        if t0.elapsed() > patience() {
            gave_up();
            return false;
        }
        thread::sleep(Duration::from_micros(nap));
        nap = std::cmp::min(nap * 2, 5000);
    }
}

pub fn scratch() -> std::path::PathBuf {
    let root = std::env::var("VH_SCRATCH").expect("VH_SCRATCH");
    let p = std::path::Path::new(&root).join(format!("{}", uuid::Uuid::new_v4()));
    std::fs::create_dir_all(&p).unwrap();
    p
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&'static str>() {
        s.to_string()
    } else {
        "panic".to_string()
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    assert!(tls::keep() != 0);
    if args.len() < 5 {
        eprintln!("usage: vh DRIVER IN OUT WORKERS");
        std::process::exit(3);
    }
    panic::set_hook(Box::new(|i| eprintln!("{}", i)));
    let drv = match driver(&args[1]) {
        Some(d) => d,
        None => {
            eprintln!("no such driver {}", args[1]);
            std::process::exit(3);
        }
    };
    let workers: usize = args[4].parse().unwrap();
    let limit: u64 = std::env::var("VH_CASE_TIMEOUT")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(60);
    fix_clock();
    // "now" stays at its first value: the clock thread is never started here
    let _ = cernan::time::now();
    let input = BufReader::new(File::open(&args[2]).unwrap());
    let cases: Vec<Value> = input
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
        .collect();
    let cases = Arc::new(Mutex::new(cases.into_iter()));
    let out = Arc::new(Mutex::new(File::create(&args[3]).unwrap()));
    let mut ts = Vec::new();
    for _ in 0..workers {
        let cases = cases.clone();
        let out = out.clone();
        ts.push(thread::spawn(move || loop {
            let case = match cases.lock().unwrap().next() {
                Some(c) => c,
                None => return,
            };
            let id = case["id"].clone();
            if GAVE_UP.load(Ordering::SeqCst) > 24 {
                put(&out, &json!({ "id": id, "skipped": true }));
                continue;
            }
            put(&out, &json!({ "start": id }));
            let (tx, rx) = mpsc::channel();
            thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| drv(&case)));
                    let _ = tx.send(match r {
                        Ok(v) => v,
                        Err(e) => json!({ "panic": panic_text(&e) }),
                    });
                })
                .unwrap();
            let mut res = match rx.recv_timeout(Duration::from_secs(limit)) {
                Ok(v) => v,
                Err(_) => {
                    gave_up();
                    json!({ "hang": format!("no result within {} s", limit) })
                }
            };
            res["id"] = id;
            put(&out, &res);
        }));
    }
    for t in ts {
        t.join().unwrap();
    }
    // threads of the code under test may still be around
    std::process::exit(0);
}

fn put(out: &Arc<Mutex<File>>, v: &Value) {
    let mut s = v.to_string();
    s.push('\n');
    let mut f = out.lock().unwrap();
    f.write_all(s.as_bytes()).unwrap();
    f.flush().unwrap();
}
