//! A plain HTTP server played by the harness: every request is handed to a
//! function that gives the reply, or none to break the connection.
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::thread;

pub struct Request {
    pub line: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

impl Request {
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|h| h.0.eq_ignore_ascii_case(name)).map(|h| h.1.as_str())
    }
}

pub type Reply = Option<(u16, String, Vec<u8>)>;
type Handler = Box<dyn FnMut(Request) -> Reply + Send>;

pub struct HttpServer {
    pub port: u16,
    stop: Arc<AtomicBool>,
}

fn read_request(r: &mut BufReader<TcpStream>) -> Option<Request> {
    let mut line = String::new();
    if r.read_line(&mut line).ok()? == 0 {
        return None;
    }
    let mut headers = Vec::new();
    loop {
        let mut h = String::new();
        if r.read_line(&mut h).ok()? == 0 {
            return None;
        }
        let h = h.trim_end();
        if h.is_empty() {
            break;
        }
        let mut p = h.splitn(2, ':');
        headers.push((p.next()?.to_string(), p.next()?.trim().to_string()));
    }
    let mut req = Request { line: line.trim_end().to_string(), headers, body: Vec::new() };
    if req.header("transfer-encoding") == Some("chunked") {
        loop {
            let mut n = String::new();
            r.read_line(&mut n).ok()?;
            let n = usize::from_str_radix(n.trim(), 16).ok()?;
            let mut b = vec![0; n + 2];
            r.read_exact(&mut b).ok()?;
            b.truncate(n);
            req.body.extend(b);
            if n == 0 {
                break;
            }
        }
    } else if let Some(n) = req.header("content-length").and_then(|x| x.parse::<usize>().ok()) {
        req.body = vec![0; n];
        r.read_exact(&mut req.body).ok()?;
    }
    Some(req)
}

fn serve(s: TcpStream, handler: &Mutex<Handler>) {
    s.set_nodelay(true).unwrap();
    let mut w = s.try_clone().unwrap();
    let mut r = BufReader::new(s);
    while let Some(req) = read_request(&mut r) {
        let reply = (&mut *handler.lock().unwrap())(req);
        match reply {
            None => {
                w.shutdown(Shutdown::Both).ok();
                return;
            }
            Some((status, ctype, body)) => {
                // no body and no length belong to these
                let head = if status == 204 {
                    format!("HTTP/1.1 {} X\r\n\r\n", status)
                } else {
                    format!("HTTP/1.1 {} X\r\nContent-Type: {}\r\nContent-Length: {}\r\n\r\n", status, ctype, body.len())
                };
                let mut out = head.into_bytes();
                if status != 204 {
                    out.extend(body);
                }
                if w.write_all(&out).is_err() {
                    return;
                }
            }
        }
    }
}

impl HttpServer {
    pub fn new<F: FnMut(Request) -> Reply + Send + 'static>(f: F) -> HttpServer {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        let stop = Arc::new(AtomicBool::new(false));
        let stop2 = stop.clone();
        let handler: Arc<Mutex<Handler>> = Arc::new(Mutex::new(Box::new(f)));
        thread::spawn(move || {
            for c in l.incoming() {
                if stop2.load(Ordering::SeqCst) {
                    break;
                }
                if let Ok(c) = c {
                    let h = handler.clone();
                    thread::spawn(move || serve(c, &h));
                }
            }
        });
        HttpServer { port, stop }
    }
}

impl Drop for HttpServer {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        TcpStream::connect(("127.0.0.1", self.port)).ok();
    }
}
