//! The Kafka sink against a broker played here (Kafka.tla).
use crate::ev;
use crate::source::{hex, unhex};
use byteorder::{BigEndian, ByteOrder, WriteBytesExt};
use cernan::metric::{global_ack_bag, Encoding, Metadata};
use cernan::sink::{Kafka, KafkaConfig, Sink};
use cernan::sink::kafka::{KAFKA_PUBLISH_FAILURE_SUM, KAFKA_PUBLISH_RETRY_FAILURE_SUM, KAFKA_PUBLISH_RETRY_SUM, KAFKA_PUBLISH_SUCCESS_SUM};
use cernan::util::Valve;
use serde_json::Value;
use std::collections::{HashMap, VecDeque};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::{Duration, Instant};
use uuid::Uuid;

type Bytes = Option<Vec<u8>>;

#[derive(Clone, PartialEq, Debug)]
struct Record {
    topic: String,
    key: Bytes,
    value: Bytes,
    headers: Vec<(Vec<u8>, Bytes)>,
}

#[derive(Default)]
struct State {
    /// key -> replies to come
    script: HashMap<Vec<u8>, VecDeque<String>>,
    /// key -> what came, with the reply it was given
    seen: HashMap<Vec<u8>, Vec<(Record, String)>>,
    odd: Vec<String>,
}

struct Rd<'a>(&'a [u8]);

impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn i8(&mut self) -> i8 {
        self.take(1)[0] as i8
    }
    fn i16(&mut self) -> i16 {
        BigEndian::read_i16(self.take(2))
    }
    fn i32(&mut self) -> i32 {
        BigEndian::read_i32(self.take(4))
    }
    fn i64(&mut self) -> i64 {
        BigEndian::read_i64(self.take(8))
    }
    fn text(&mut self) -> Option<String> {
        let n = self.i16();
        if n < 0 {
            return None;
        }
        Some(String::from_utf8(self.take(n as usize).to_vec()).unwrap())
    }
    fn var(&mut self) -> i64 {
        let (mut r, mut sh) = (0u64, 0);
        loop {
            let b = self.take(1)[0];
            r |= ((b & 0x7f) as u64) << sh;
            sh += 7;
            if b & 0x80 == 0 {
                break;
            }
        }
        ((r >> 1) as i64) ^ -((r & 1) as i64)
    }
    fn vbytes(&mut self) -> Bytes {
        let n = self.var();
        if n < 0 {
            None
        } else {
            Some(self.take(n as usize).to_vec())
        }
    }
}

fn put_text(o: &mut Vec<u8>, s: &str) {
    o.write_i16::<BigEndian>(s.len() as i16).unwrap();
    o.extend(s.as_bytes());
}

/// The records of one partition of a produce request
fn records(topic: &str, set: &[u8]) -> Vec<Record> {
    let mut r = Rd(set);
    let mut out = Vec::new();
    while !r.0.is_empty() {
        r.i64();
        let n = r.i32() as usize;
        let mut b = Rd(r.take(n));
        b.i32();
        assert_eq!(b.i8(), 2, "harness: message format");
        b.i32();
        assert_eq!(b.i16() & 7, 0, "harness: compression");
        b.take(4 + 8 + 8 + 8 + 2 + 4);
        let count = b.i32();
        for _ in 0..count {
            let len = b.var() as usize;
            let mut m = Rd(b.take(len));
            m.i8();
            m.var();
            m.var();
            let key = m.vbytes();
            let value = m.vbytes();
            let h = m.var();
            // their order means nothing
            let mut headers: Vec<(Vec<u8>, Bytes)> = (0..h).map(|_| (m.vbytes().unwrap(), m.vbytes())).collect();
            headers.sort();
            out.push(Record { topic: topic.to_string(), key, value, headers });
        }
    }
    out
}

fn serve(mut s: TcpStream, port: u16, st: &Mutex<State>, stop: &AtomicBool) -> std::io::Result<()> {
    s.set_nodelay(true)?;
    loop {
        let mut len = [0; 4];
        s.read_exact(&mut len)?;
        let mut req = vec![0; BigEndian::read_i32(&len) as usize];
        s.read_exact(&mut req)?;
        if stop.load(Ordering::SeqCst) {
            return Ok(());
        }
        let mut r = Rd(&req);
        let (api, ver, corr) = (r.i16(), r.i16(), r.i32());
        r.text();
        let mut o = Vec::new();
        o.write_i32::<BigEndian>(corr)?;
        match api {
            18 => {
                o.write_i16::<BigEndian>(0)?;
                o.write_i32::<BigEndian>(4)?;
                for &(k, a, b) in &[(0, 0, 3), (1, 0, 4), (3, 0, 0), (18, 0, 0)] {
                    for &x in &[k, a, b] {
                        o.write_i16::<BigEndian>(x)?;
                    }
                }
            }
            3 => {
                o.write_i32::<BigEndian>(1)?;
                o.write_i32::<BigEndian>(1)?;
                put_text(&mut o, "127.0.0.1");
                o.write_i32::<BigEndian>(port as i32)?;
                let n = r.i32();
                let mut topics: Vec<String> = (0..n.max(0)).map(|_| r.text().unwrap()).collect();
                if topics.is_empty() {
                    topics.push("t".to_string());
                }
                o.write_i32::<BigEndian>(topics.len() as i32)?;
                for t in &topics {
                    o.write_i16::<BigEndian>(0)?;
                    put_text(&mut o, t);
                    o.write_i32::<BigEndian>(1)?;
                    o.write_i16::<BigEndian>(0)?;
                    for &x in &[0, 1, 1, 1, 1, 1] {
                        o.write_i32::<BigEndian>(x)?;
                    }
                }
            }
            0 => {
                assert_eq!(ver, 3, "harness: produce version");
                r.text();
                r.i16();
                r.i32();
                let nt = r.i32();
                assert_eq!(nt, 1);
                let topic = r.text().unwrap();
                let np = r.i32();
                assert_eq!(np, 1);
                let part = r.i32();
                let n = r.i32() as usize;
                let recs = records(&topic, r.take(n));
                let mut reply = "ok".to_string();
                {
                    let mut st = st.lock().unwrap();
                    if recs.len() != 1 {
                        st.odd.push(format!("{} records in a request", recs.len()));
                    }
                    for rec in recs {
                        let key = rec.key.clone().unwrap_or_default();
                        reply = match st.script.get_mut(&key) {
                            Some(q) => q.pop_front().unwrap_or_else(|| "ok".to_string()),
                            None => {
                                st.odd.push(format!("unknown record {:?}", rec));
                                "ok".to_string()
                            }
                        };
                        st.seen.entry(key).or_insert_with(Vec::new).push((rec, reply.clone()));
                    }
                }
                if reply.starts_with('~') {
                    thread::sleep(Duration::from_millis(2));
                    reply.remove(0);
                }
                if reply == "drop" {
                    s.shutdown(Shutdown::Write)?;
                    let mut b = [0; 4096];
                    while s.read(&mut b)? > 0 {}
                    return Ok(());
                }
                if reply == "mute" {
                    continue;
                }
                let err = if reply == "ok" { 0 } else { reply.parse::<i16>().unwrap() };
                o.write_i32::<BigEndian>(1)?;
                put_text(&mut o, &topic);
                o.write_i32::<BigEndian>(1)?;
                o.write_i32::<BigEndian>(part)?;
                o.write_i16::<BigEndian>(err)?;
                o.write_i64::<BigEndian>(7)?;
                o.write_i64::<BigEndian>(-1)?;
                o.write_i32::<BigEndian>(0)?;
            }
            x => panic!("harness: request {}", x),
        }
        let mut w = Vec::new();
        w.write_i32::<BigEndian>(o.len() as i32)?;
        w.extend(&o);
        s.write_all(&w)?;
    }
}

fn counts() -> [usize; 4] {
    [
        KAFKA_PUBLISH_SUCCESS_SUM.load(Ordering::SeqCst),
        KAFKA_PUBLISH_RETRY_SUM.load(Ordering::SeqCst),
        KAFKA_PUBLISH_FAILURE_SUM.load(Ordering::SeqCst),
        KAFKA_PUBLISH_RETRY_FAILURE_SUM.load(Ordering::SeqCst),
    ]
}

pub fn replay(case: &Value) -> Value {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let state = Arc::new(Mutex::new(State::default()));
    let stop = Arc::new(AtomicBool::new(false));
    let (st2, stop2) = (state.clone(), stop.clone());
    let acceptor = thread::spawn(move || {
        let mut served = Vec::new();
        for c in l.incoming() {
            if stop2.load(Ordering::SeqCst) {
                break;
            }
            let (st3, stop3) = (st2.clone(), stop2.clone());
            served.push(thread::spawn(move || {
                serve(c.unwrap(), port, &st3, &stop3).ok();
            }));
        }
        served
    });
    let before = counts();
    let mut cfg = KafkaConfig::default();
    cfg.topic_name = Some("top.ic".to_string());
    cfg.brokers = Some(format!("127.0.0.1:{}", port));
    cfg.max_message_bytes = ev::u(&case["limit"]);
    let mut m = HashMap::new();
    for &(k, v) in &[
        ("batch.num.messages", "1"),
        ("message.send.max.retries", "0"),
        ("retry.backoff.ms", "1"),
        ("topic.metadata.refresh.fast.interval.ms", "5"),
        ("reconnect.backoff.jitter.ms", "2"),
        ("socket.nagle.disable", "true"),
    ] {
        m.insert(k.to_string(), v.to_string());
    }
    if let Some(t) = case["timeout"].as_str() {
        m.insert("message.timeout.ms".to_string(), t.to_string());
    }
    cfg.rdkafka_config = Some(m);
    let mut sink = Some(Kafka::init(cfg));
    let bag = global_ack_bag();
    let mut conns: Vec<(u64, Uuid)> = Vec::new();
    let mut keys: Vec<(u64, Vec<u8>)> = Vec::new();
    let mut obs = Vec::new();
    let mut slow = false;
    for s in ev::arr(&case["steps"]) {
        match s["a"].as_str().unwrap() {
            "deliver" => {
                let order = s["order"].as_str().unwrap().parse::<u64>().unwrap();
                let id = s["id"].as_u64().unwrap();
                let key = format!("{:X}", order).into_bytes();
                let replies = ev::arr(&s["replies"]).iter().map(|x| ev::s(x)).collect();
                state.lock().unwrap().script.insert(key.clone(), replies);
                let meta: Option<Metadata> = s["meta"].as_array().map(|a| a.iter().map(|p| (unhex(p[0].as_str().unwrap()), unhex(p[1].as_str().unwrap()))).collect());
                let conn = if s["conn"].as_bool().unwrap() {
                    let u = Uuid::new_v4();
                    bag.prepare_wait(u);
                    conns.push((id, u));
                    Some(u)
                } else {
                    None
                };
                let bytes = match s["size"].as_u64() {
                    Some(n) => {
                        let mut b = unhex(s["hex"].as_str().unwrap());
                        b.resize(n as usize, b'.');
                        b
                    }
                    None => unhex(s["hex"].as_str().unwrap()),
                };
                keys.push((id, key));
                sink.as_mut().unwrap().deliver_raw(order, Encoding::Raw, bytes, meta, conn);
            }
            "flush" => {
                let t = Instant::now();
                sink.as_mut().unwrap().flush();
                slow |= t.elapsed() > Duration::from_secs(20);
            }
            "stop" => sink.take().unwrap().shutdown(),
            x => panic!("harness: step {}", x),
        }
        let valve = sink.as_ref().map_or("gone", |k| match k.valve_state() {
            Valve::Open => "open",
            Valve::Closed => "closed",
        });
        let acks: HashMap<String, usize> = conns.iter().map(|&(id, u)| (id.to_string(), bag.props_for(u).map_or(0, |p| p.acks_received()))).collect();
        obs.push(json!({ "valve": valve, "acks": acks }));
    }
    let after = counts();
    drop(sink);
    stop.store(true, Ordering::SeqCst);
    TcpStream::connect(("127.0.0.1", port)).ok();
    acceptor.join().ok();
    let st = state.lock().unwrap();
    let events: HashMap<String, Value> = keys
        .iter()
        .map(|&(id, ref k)| {
            let v = st.seen.get(k).cloned().unwrap_or_default();
            let same = v.iter().all(|x| x.0 == v[0].0);
            let rec = v.get(0).map(|x| {
                let r = &x.0;
                let big = r.value.as_ref().map_or(false, |b| b.len() > 4096);
                let value = if big { format!("{} bytes", r.value.as_ref().unwrap().len()) } else { r.value.as_ref().map_or("null".to_string(), |b| hex(b)) };
                json!({ "topic": r.topic, "value": value, "headers": r.headers.iter().map(|h| json!([hex(&h.0), h.1.as_ref().map_or("null".to_string(), |b| hex(b))])).collect::<Vec<_>>() })
            });
            (id.to_string(), json!({ "replies": v.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), "same": same, "rec": rec }))
        })
        .collect();
    let counted: Vec<usize> = (0..4).map(|i| after[i] - before[i]).collect();
    json!({ "obs": { "steps": obs, "events": events, "counted": counted, "odd": st.odd.clone(), "slow": slow } })
}
