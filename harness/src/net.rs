//! A TCP peer for the sinks under test, on a loopback address of its own.
use std::io::{ErrorKind, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::unix::io::AsRawFd;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::thread;
use std::time::Duration;

static NEXT: AtomicUsize = AtomicUsize::new(1);

/// An address no other case uses, so that ports never clash.
pub fn own_host() -> String {
    let pid = std::process::id() as usize;
    let n = NEXT.fetch_add(1, Ordering::SeqCst);
    let x = (pid * 7919 + n) % (250 * 250 * 250);
    format!("127.{}.{}.{}", x / 62500 % 250 + 2, x / 250 % 250 + 2, x % 250 + 2)
}

pub struct Server {
    host: String,
    pub port: u16,
    listener: Option<TcpListener>,
    pub conns: Vec<Conn>,
    /// Read no more than this.
    pub limit: usize,
}

pub struct Conn {
    pub stream: Option<TcpStream>,
    pub data: Vec<u8>,
    pub eof: bool,
}

pub fn reset(s: &TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(
            s.as_raw_fd(),
            libc::SOL_SOCKET,
            libc::SO_LINGER,
            &l as *const _ as *const libc::c_void,
            std::mem::size_of::<libc::linger>() as libc::socklen_t,
        );
    }
}

impl Server {
    pub fn new() -> Server {
        let host = own_host();
        let l = TcpListener::bind((host.as_str(), 0)).expect("harness: bind");
        l.set_nonblocking(true).unwrap();
        Server {
            host,
            port: l.local_addr().unwrap().port(),
            listener: Some(l),
            conns: Vec::new(),
            limit: usize::max_value(),
        }
    }

    pub fn host(&self) -> String {
        self.host.clone()
    }

    /// Take what has arrived.
    pub fn poll(&mut self) {
        if let Some(ref l) = self.listener {
            while let Ok((s, _)) = l.accept() {
                s.set_nonblocking(true).unwrap();
                self.conns.push(Conn { stream: Some(s), data: Vec::new(), eof: false });
            }
        }
        let mut buf = [0u8; 65536];
        let mut room = self.limit.saturating_sub(self.bytes());
        for c in &mut self.conns {
            if c.eof {
                continue;
            }
            if let Some(ref mut s) = c.stream {
                while room > 0 {
                    let most = std::cmp::min(room, 65536);
                    match s.read(&mut buf[..most]) {
                        Ok(0) => {
                            c.eof = true;
                            break;
                        }
                        Ok(n) => {
                            c.data.extend_from_slice(&buf[..n]);
                            room -= n;
                        }
                        Err(ref e) if e.kind() == ErrorKind::WouldBlock => break,
                        Err(ref e) if e.kind() == ErrorKind::Interrupted => continue,
                        Err(_) => {
                            c.eof = true;
                            break;
                        }
                    }
                }
            }
        }
    }

    pub fn bytes(&self) -> usize {
        self.conns.iter().map(|c| c.data.len()).sum()
    }

    pub fn text(&self) -> String {
        let mut all = Vec::new();
        for c in &self.conns {
            all.extend_from_slice(&c.data);
        }
        String::from_utf8_lossy(&all).into_owned()
    }

    pub fn lines(&self) -> usize {
        self.conns.iter().map(|c| c.data.iter().filter(|b| **b == b'\n').count()).sum()
    }

    pub fn wait_lines(&mut self, n: usize) -> bool {
        crate::wait_for(|| {
            self.poll();
            self.lines() >= n
        })
    }

    /// Wait until every connection is closed by the other side.
    pub fn wait_eof(&mut self) -> bool {
        crate::wait_for(|| {
            self.poll();
            self.conns.iter().all(|c| c.eof || c.stream.is_none())
        })
    }

    /// Break every connection with a reset.
    pub fn break_all(&mut self) {
        self.poll();
        for c in &mut self.conns {
            if let Some(s) = c.stream.take() {
                reset(&s);
                drop(s);
            }
        }
    }

    pub fn close_listener(&mut self) {
        self.listener = None;
    }
}

pub type Back = Option<thread::JoinHandle<TcpListener>>;

/// Break the connections; with "refuse", new ones are refused for a while.
pub fn interrupt(srv: &mut Server, how: &str) -> Back {
    srv.break_all();
    match how {
        "break" => None,
        "refuse" => {
            srv.close_listener();
            let (host, port) = (srv.host(), srv.port);
            Some(thread::spawn(move || {
                thread::sleep(Duration::from_millis(8));
                let mut res = TcpListener::bind((host.as_str(), port));
                for _ in 0..200 {
                    if res.is_ok() {
                        break;
                    }
                    thread::sleep(Duration::from_millis(5));
                    res = TcpListener::bind((host.as_str(), port));
                }
                let l = res.expect("harness: bind again");
                l.set_nonblocking(true).unwrap();
                l
            }))
        }
        x => panic!("harness: interruption {}", x),
    }
}

pub fn restore(srv: &mut Server, back: Back) {
    if let Some(h) = back {
        srv.listener = Some(h.join().unwrap());
    }
    srv.poll();
}

#[allow(dead_code)]
pub fn send_all(s: &mut TcpStream, data: &[u8]) -> bool {
    s.write_all(data).is_ok()
}
