//! Listening sources (Listener.tla, Packets.tla, AvroPayload.tla, AckSync.tla).
use crate::ev;
use crate::net;
use cernan::metric::{global_ack_bag, Event};
use cernan::source::{Avro, Graphite, GraphiteConfig, NativeServer, NativeServerConfig, Source, Statsd, StatsdConfig, TCPConfig};
use cernan::thread::{Stoppable, ThreadHandle};
use serde_json::Value;
use std::collections::HashMap;
use std::io::{ErrorKind, Read, Write};
use std::mem;
use std::net::{Shutdown, SocketAddr, TcpStream, UdpSocket};
use std::os::unix::io::AsRawFd;
use std::panic;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::Duration;

const PORT: u16 = 19103;

/// Everything that came out of a forward's queue, as it comes.
pub struct Tap {
    pub got: Arc<Mutex<Vec<Event>>>,
    reader: Option<thread::JoinHandle<()>>,
    snd: hopper::Sender<Event>,
    _dir: std::path::PathBuf,
}

impl Tap {
    pub fn new(name: &str) -> (Tap, hopper::Sender<Event>) {
        Tap::tapped(name, |_| {})
    }

    /// `seen` is called with each event on the reading thread.
    pub fn tapped<F: FnMut(&Event) + Send + 'static>(name: &str, mut seen: F) -> (Tap, hopper::Sender<Event>) {
        let dir = crate::scratch();
        let (snd, rcv) = hopper::channel_with_explicit_capacity::<Event>(name, &dir, 1 << 24, 1 << 24, 100).expect("hopper");
        let got = Arc::new(Mutex::new(Vec::new()));
        let g = got.clone();
        let reader = thread::spawn(move || {
            for e in rcv.into_iter() {
                if let Event::TimerFlush(i) = e {
                    if i == u64::max_value() {
                        break;
                    }
                }
                seen(&e);
                g.lock().unwrap().push(e);
            }
        });
        (Tap { got, reader: Some(reader), snd: snd.clone(), _dir: dir }, snd)
    }

    pub fn len(&self) -> usize {
        self.got.lock().unwrap().len()
    }

    /// All events, once nothing more is coming.
    pub fn finish(mut self) -> Vec<Event> {
        while self.snd.send(Event::TimerFlush(u64::max_value())).is_err() {
            thread::sleep(Duration::from_millis(1));
        }
        while self.snd.flush().is_err() {
            thread::sleep(Duration::from_millis(1));
        }
        self.reader.take().unwrap().join().unwrap();
        let r = mem::replace(&mut *self.got.lock().unwrap(), Vec::new());
        r
    }
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn start(cfg: &Value, host: &str, chans: cernan::util::Channel) -> ThreadHandle {
    let host = host.to_string();
    match cfg["src"].as_str().unwrap() {
        "native" => {
            let mut c = NativeServerConfig::default();
            c.ip = host;
            c.port = PORT;
            <NativeServer as Source<TCPConfig>>::new(chans, c.into()).run()
        }
        "avro" => {
            let mut c = TCPConfig::default();
            c.host = host;
            c.port = PORT;
            <Avro as Source<TCPConfig>>::new(chans, c).run()
        }
        "graphite" => {
            let mut c = GraphiteConfig::default();
            c.host = host;
            c.port = PORT;
            <Graphite as Source<TCPConfig>>::new(chans, c.into()).run()
        }
        "statsd" => {
            let mut c = StatsdConfig::default();
            c.host = host;
            c.port = PORT;
            for m in cfg["masks"].as_array().unwrap_or(&Vec::new()) {
                let re = regex::Regex::new(m[0].as_str().unwrap()).unwrap();
                c.parse_config.histogram_masks.push((re, ev::arr(&m[1]).iter().map(ev::f).collect()));
            }
            Statsd::new(chans, c).run()
        }
        x => panic!("harness: source {}", x),
    }
}

/// The descriptor of our own process whose peer is the given address: the other end of a connection to ourselves.
fn other_end(a: SocketAddr) -> Option<i32> {
    let want = match a {
        SocketAddr::V4(x) => (u32::from_ne_bytes(x.ip().octets()), x.port().to_be()),
        _ => return None,
    };
    for e in std::fs::read_dir("/proc/self/fd").ok()? {
        let fd: i32 = match e.ok()?.file_name().to_str()?.parse() {
            Ok(n) => n,
            Err(_) => continue,
        };
        unsafe {
            let mut sa: libc::sockaddr_in = mem::zeroed();
            let mut len = mem::size_of::<libc::sockaddr_in>() as libc::socklen_t;
            if libc::getpeername(fd, &mut sa as *mut _ as *mut libc::sockaddr, &mut len) == 0
                && sa.sin_family as i32 == libc::AF_INET
                && (sa.sin_addr.s_addr, sa.sin_port) == want
            {
                return Some(fd);
            }
        }
    }
    None
}

fn unread(fd: i32) -> usize {
    let mut n: libc::c_int = 0;
    unsafe {
        if libc::ioctl(fd, libc::FIONREAD, &mut n) != 0 {
            return 0;
        }
    }
    n as usize
}

fn unsent(s: &TcpStream) -> usize {
    let mut n: libc::c_int = 0;
    unsafe {
        if libc::ioctl(s.as_raw_fd(), libc::TIOCOUTQ, &mut n) != 0 {
            return 0;
        }
    }
    n as usize
}

pub struct Client {
    pub s: Option<TcpStream>,
    me: Option<SocketAddr>,
    other: Option<i32>,
    pub back: Vec<u8>,
    pub eof: bool,
}

impl Client {
    pub fn open(host: &str, port: u16) -> Client {
        let s = TcpStream::connect((host, port)).expect("harness: connect");
        s.set_nodelay(true).unwrap();
        Client { me: s.local_addr().ok(), s: Some(s), other: None, back: Vec::new(), eof: false }
    }

    pub fn send(&mut self, b: &[u8]) {
        if let Some(ref mut s) = self.s {
            s.set_nonblocking(false).unwrap();
            // the source may have closed the connection already
            let _ = s.write_all(b);
        }
    }

    /// Until the source has read everything, as far as that can be told.
    pub fn settle(&mut self) {
        for i in 0..2000 {
            self.poll();
            let (s, me) = match (&self.s, self.me) {
                (Some(s), Some(me)) if !self.eof => (s, me),
                _ => return,
            };
            if self.other.is_none() {
                self.other = other_end(me);
            }
            if let Some(fd) = self.other {
                if unsent(s) == 0 && unread(fd) == 0 {
                    break;
                }
            }
            thread::sleep(Duration::from_micros(if i < 50 { 100 } else { 500 }));
        }
        thread::sleep(Duration::from_micros(300));
    }

    pub fn poll(&mut self) {
        if self.eof {
            return;
        }
        if let Some(ref mut s) = self.s {
            s.set_nonblocking(true).unwrap();
            let mut b = [0u8; 4096];
            loop {
                match s.read(&mut b) {
                    Ok(0) => {
                        self.eof = true;
                        break;
                    }
                    Ok(n) => self.back.extend_from_slice(&b[..n]),
                    Err(ref e) if e.kind() == ErrorKind::WouldBlock => break,
                    Err(ref e) if e.kind() == ErrorKind::Interrupted => continue,
                    Err(_) => {
                        self.eof = true;
                        break;
                    }
                }
            }
        }
    }

    /// Whether the source has ended the connection.
    pub fn closed(&mut self) -> bool {
        self.poll();
        if self.s.is_some() {
            self.eof
        } else {
            self.me.map_or(true, |a| other_end(a).is_none())
        }
    }

    pub fn close(&mut self, how: &str) {
        if let Some(s) = self.s.take() {
            match how {
                "half" => {
                    let _ = s.shutdown(Shutdown::Write);
                    self.s = Some(s);
                }
                "gone" => drop(s),
                "reset" => {
                    net::reset(&s);
                    drop(s);
                }
                x => panic!("harness: close {}", x),
            }
        }
    }
}

/// Stop a source; whether it ended within the time it is given.
pub fn stop(h: ThreadHandle) -> Value {
    let done = Arc::new(AtomicUsize::new(0));
    let d = done.clone();
    thread::spawn(move || {
        let r = panic::catch_unwind(panic::AssertUnwindSafe(|| h.shutdown()));
        d.store(if r.is_ok() { 1 } else { 2 }, Ordering::SeqCst);
    });
    crate::wait_for(|| done.load(Ordering::SeqCst) != 0);
    match done.load(Ordering::SeqCst) {
        0 => json!("running"),
        1 => json!("ended"),
        _ => json!("panicked"),
    }
}

static FINISHED: AtomicUsize = AtomicUsize::new(0);

/// Steps: open / send / half / gone / reset / dgram / stop.  After each, the number of events
/// ("evs") and the connections the source has closed ("closed") are waited for.
pub fn replay(case: &Value) -> Value {
    let r = replay_(case);
    FINISHED.fetch_add(1, Ordering::SeqCst);
    r
}

fn replay_(case: &Value) -> Value {
    let cfg = &case["cfg"];
    if cfg["src"] == "totals" {
        return totals(case);
    }
    if cfg["src"] == "ackbag" {
        return ackbag(case);
    }
    ev::set_base(cfg);
    let host = net::own_host();
    let nf = cfg["forwards"].as_u64().unwrap_or(1);
    let mut taps = Vec::new();
    let mut chans = Vec::new();
    for i in 0..nf {
        let (t, s) = Tap::new(&format!("f{}", i));
        taps.push(t);
        chans.push(s);
    }
    let mut src = Some(start(cfg, &host, chans));
    let udp = UdpSocket::bind((net::own_host().as_str(), 0)).unwrap();
    let mut cl: HashMap<u64, Client> = HashMap::new();
    let mut late = Vec::new();
    let mut early: Vec<u64> = Vec::new();
    let mut ended = Value::Null;
    for (i, st) in ev::arr(&case["steps"]).iter().enumerate() {
        let c = st["c"].as_u64().unwrap_or(0);
        match st["a"].as_str().unwrap() {
            "open" => {
                cl.insert(c, Client::open(&host, PORT));
            }
            "send" => {
                let k = cl.get_mut(&c).unwrap();
                k.send(&unhex(st["hex"].as_str().unwrap()));
                if st["settle"] == true {
                    k.settle();
                }
            }
            "dgram" => {
                udp.send_to(&unhex(st["hex"].as_str().unwrap()), (host.as_str(), PORT)).expect("harness: send");
            }
            // the destination reports the n-th event forwarded as resolved
            "resolve" => {
                let id = match taps[0].got.lock().unwrap()[ev::u(&st["n"]) - 1] {
                    Event::Raw { connection_id, .. } => connection_id,
                    _ => None,
                };
                if let Some(id) = id {
                    ack(id);
                }
            }
            "nap" => thread::sleep(Duration::from_micros(st["us"].as_u64().unwrap())),
            "stop" => {
                for (c, k) in cl.iter_mut() {
                    k.poll();
                    if k.eof && ev::arr(&st["open"]).iter().any(|x| x.as_u64() == Some(*c)) {
                        early.push(*c);
                    }
                }
                ended = stop(src.take().unwrap());
            }
            how => cl.get_mut(&c).unwrap().close(how),
        }
        if let Some(n) = st["evs"].as_u64() {
            if !crate::wait_for(|| taps.iter().all(|t| t.len() >= n as usize)) {
                late.push(json!({"step": i, "missing": "events"}));
                break;
            }
        }
        for x in st["back"].as_array().unwrap_or(&Vec::new()) {
            let k = cl.get_mut(&x[0].as_u64().unwrap()).unwrap();
            let n = ev::u(&x[1]);
            if !crate::wait_for(|| {
                k.poll();
                k.back.len() >= n
            }) {
                late.push(json!({"step": i, "missing": "answer"}));
                break;
            }
        }
        for k in cl.values_mut() {
            k.poll();
        }
        if let Value::Array(ref a) = st["most"] {
            for x in a {
                if cl.get(&x[0].as_u64().unwrap()).map_or(0, |k| k.back.len()) > ev::u(&x[1]) {
                    late.push(json!({"step": i, "surplus": "answer"}));
                    break;
                }
            }
        }
        for x in st["closed"].as_array().unwrap_or(&Vec::new()) {
            let k = cl.get_mut(&x.as_u64().unwrap()).unwrap();
            if !crate::wait_for(|| k.closed()) {
                late.push(json!({"step": i, "missing": "close"}));
                break;
            }
        }
        if !late.is_empty() {
            break;
        }
    }
    if let Some(h) = src.take() {
        ended = stop(h);
    }
    let mut back: Vec<Value> = Vec::new();
    for (c, k) in cl.iter_mut() {
        k.poll();
        if !k.back.is_empty() {
            back.push(json!([c, hex(&k.back)]));
        }
    }
    let all: Vec<Value> = taps
        .into_iter()
        .map(|t| if ended == "running" { Value::Null } else { t.finish().iter().map(ev::event_json).collect() })
        .collect();
    json!({"obs": {"late": late, "early": early, "ended": ended, "back": back, "out": all}})
}

/// What the program counted, reported by its internal source, once all other cases are through.
fn totals(case: &Value) -> Value {
    let n = case["cfg"]["cases"].as_u64().unwrap() as usize;
    let mut last = 0;
    while FINISHED.load(Ordering::SeqCst) < n {
        thread::sleep(Duration::from_millis(5));
        last += 1;
        if last > 100_000 {
            return json!({"obs": "the other cases did not finish"});
        }
    }
    json!({ "obs": counters() })
}

/// Take all counters through the internal source.
pub fn counters() -> Value {
    use cernan::source::{Internal, InternalConfig};
    let (tap, s) = Tap::new("internal");
    let h = Internal::new(vec![s], InternalConfig::default()).run();
    // the source reports once a second
    thread::sleep(Duration::from_millis(1300));
    let ended = stop(h);
    let mut sums = serde_json::Map::new();
    for e in tap.finish() {
        if let Event::Telemetry(t) = e {
            let v = t.sum().or_else(|| t.set()).unwrap_or(0.0);
            let old = sums.get(&t.name).and_then(|x| x.as_f64()).unwrap_or(0.0);
            sums.insert(t.name.clone(), json!(old + v));
        }
    }
    sums.insert("ended".into(), ended);
    Value::Object(sums)
}

pub fn ack(id: uuid::Uuid) {
    global_ack_bag().with_props(id, |p| p.ack());
}

/// Operations on the bag of acknowledgements; those that come while something is waited for
/// happen while the wait naps.
fn ackbag(case: &Value) -> Value {
    use std::cell::{Cell, RefCell};
    let bag = global_ack_bag();
    let steps = ev::arr(&case["steps"]);
    let n = ev::arr(&steps[0]["bag"]).len();
    let keys: Vec<uuid::Uuid> = (0..n).map(|_| uuid::Uuid::new_v4()).collect();
    let seen: RefCell<Vec<Value>> = RefCell::new(Vec::new());
    let slow = Cell::new(false);
    let at = Cell::new(0);
    let note = |wait: usize| {
        let b: Vec<i64> = keys.iter().map(|k| bag.props_for(*k).map_or(-1, |p| p.acks_received() as i64)).collect();
        seen.borrow_mut().push(json!({"bag": b, "wait": wait}));
    };
    let act = |st: &Value| {
        let k = keys[ev::u(&st["k"]) - 1];
        match st["a"].as_str().unwrap() {
            "prepare" => bag.prepare_wait(k),
            "ack" => ack(k),
            "remove" => bag.remove(k),
            x => panic!("harness: {}", x),
        }
    };
    while at.get() < steps.len() {
        let st = &steps[at.get()];
        at.set(at.get() + 1);
        if st["a"] != "wait" {
            act(st);
            note(0);
            continue;
        }
        let k = ev::u(&st["k"]);
        let naps = Cell::new(0);
        bag.wait_for_callback(keys[k - 1], |d| {
            if d > Duration::from_millis(250) {
                slow.set(true);
            }
            naps.set(naps.get() + 1);
            // what happened before this nap did not end the wait
            note(k);
            if at.get() < steps.len() {
                act(&steps[at.get()]);
                at.set(at.get() + 1);
            } else {
                at.set(steps.len() + 1);
                bag.remove(keys[k - 1]);
            }
        });
        // what came last ended it
        if at.get() <= steps.len() {
            note(0);
        }
    }
    for k in &keys {
        bag.remove(*k);
    }
    json!({"obs": {"slow": slow.get(), "steps": *seen.borrow()}})
}
