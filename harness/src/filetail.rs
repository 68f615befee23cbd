//! Following files (FileTail.tla): the real file source over a directory of its own.
use crate::ev;
use crate::source::{hex, unhex, Tap};
use cernan::metric::Event;
use cernan::source::{FileServer, FileServerConfig, Source};
use cernan::thread::Stoppable;
use serde_json::Value;
use std::collections::HashMap;
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::thread;
use std::time::{Duration, Instant};

struct Place {
    here: PathBuf,
    link: bool,
    cur: Option<fs::File>,
    old: Option<fs::File>,
    made: usize,
    /// where the file really is
    real: PathBuf,
}

impl Place {
    fn make(&mut self, dir: &Path) -> fs::File {
        self.made += 1;
        if self.link {
            self.real = dir.join("store").join(format!("{}.{}", self.here.file_name().unwrap().to_str().unwrap(), self.made));
            let f = append(&self.real);
            std::os::unix::fs::symlink(&self.real, &self.here).unwrap();
            f
        } else {
            self.real = self.here.clone();
            append(&self.here)
        }
    }
    /// The next file takes the place of this one at once.
    fn replace(&mut self, dir: &Path) {
        let tmp = dir.join("new.tmp");
        self.made += 1;
        let f = if self.link {
            self.real = dir.join("store").join(format!("{}.{}", self.here.file_name().unwrap().to_str().unwrap(), self.made));
            let f = append(&self.real);
            std::os::unix::fs::symlink(&self.real, &tmp).unwrap();
            f
        } else {
            append(&tmp)
        };
        fs::rename(&tmp, &self.here).unwrap();
        self.old = self.cur.take();
        self.cur = Some(f);
    }
}

fn append(p: &Path) -> fs::File {
    fs::OpenOptions::new().create(true).append(true).open(p).unwrap()
}

/// The moments at which the source's thread looks at a path or opens it: these
/// two functions are called in place of the C library's.
mod ambush {
    use libc::{c_char, c_int, mode_t};
    use std::collections::HashMap;
    use std::ffi::CStr;
    use std::path::{Path, PathBuf};
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::mpsc::{channel, Receiver, Sender};
    use std::sync::{Mutex, Once};
    use std::time::Duration;

    type Lying = (&'static str, Sender<()>, Receiver<()>);
    static ANY: AtomicUsize = AtomicUsize::new(0);
    static INIT: Once = Once::new();
    static mut LYING: Option<Mutex<HashMap<PathBuf, Lying>>> = None;

    fn lying() -> &'static Mutex<HashMap<PathBuf, Lying>> {
        INIT.call_once(|| unsafe { LYING = Some(Mutex::new(HashMap::new())) });
        unsafe { LYING.as_ref().unwrap() }
    }

    unsafe fn point(kind: &'static str, path: *const c_char) {
        if ANY.load(Ordering::SeqCst) == 0 {
            return;
        }
        let p = match CStr::from_ptr(path).to_str() {
            Ok(p) => Path::new(p).to_path_buf(),
            Err(_) => return,
        };
        let met = {
            let mut m = lying().lock().unwrap();
            match m.get(&p) {
                Some(x) if x.0 == kind => m.remove(&p),
                _ => None,
            }
        };
        if let Some((_, here, go)) = met {
            if here.send(()).is_ok() {
                go.recv_timeout(Duration::from_secs(10)).ok();
            }
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut libc::stat64) -> c_int {
        point("stat", path);
        libc::fstatat64(libc::AT_FDCWD, path, buf, 0)
    }

    #[no_mangle]
    pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        if flags & (libc::O_WRONLY | libc::O_RDWR) == 0 {
            point("open", path);
        }
        libc::openat64(libc::AT_FDCWD, path, flags, mode)
    }

    /// Whoever next comes to the path is held until this is dropped.
    pub struct Held(Sender<()>);

    impl Drop for Held {
        fn drop(&mut self) {
            self.0.send(()).ok();
        }
    }

    pub fn hold(path: &Path, kind: &'static str, wait: Duration) -> Option<Held> {
        let (here_s, here_r) = channel();
        let (go_s, go_r) = channel();
        lying().lock().unwrap().insert(path.to_path_buf(), (kind, here_s, go_r));
        ANY.fetch_add(1, Ordering::SeqCst);
        let r = here_r.recv_timeout(wait).is_ok();
        ANY.fetch_sub(1, Ordering::SeqCst);
        let left = lying().lock().unwrap().remove(path).is_some();
        // it may have come at the last moment
        if r || !left {
            Some(Held(go_s))
        } else {
            None
        }
    }
}

struct Sentinel {
    file: fs::File,
    n: usize,
    path: PathBuf,
}

impl Sentinel {
    /// Rounds of reading that begin from now on.
    fn rounds(&mut self, tap: &Tap, k: usize) -> Result<(), String> {
        for _ in 0..k {
            self.n += 1;
            self.file.write_all(format!("{}\n", self.n).as_bytes()).unwrap();
            self.wait(tap, self.n)?;
        }
        Ok(())
    }
    fn seen(&self, tap: &Tap, n: usize) -> bool {
        let p = self.path.to_str().unwrap();
        let want = format!("{}", n);
        tap.got.lock().unwrap().iter().rev().any(|e| match *e {
            Event::Log(ref l) => l.path == p && l.value == want,
            _ => false,
        })
    }
    fn wait(&self, tap: &Tap, n: usize) -> Result<(), String> {
        let t = Instant::now();
        while !self.seen(tap, n) {
            if t.elapsed() > Duration::from_secs(15) {
                return Err(format!("line {} of the other file did not arrive", n));
            }
            thread::sleep(Duration::from_micros(200));
        }
        Ok(())
    }
}

pub fn replay(case: &Value) -> Value {
    let dir = crate::scratch();
    let watched = dir.join("w");
    fs::create_dir_all(&watched).unwrap();
    fs::create_dir_all(dir.join("store")).unwrap();
    fs::create_dir_all(dir.join("gone")).unwrap();
    if case["noise"].as_bool().unwrap() {
        fs::create_dir_all(watched.join("dir.log")).unwrap();
        fs::write(watched.join("other.txt"), "not to be read\n").unwrap();
        std::os::unix::fs::symlink(watched.join("nowhere"), watched.join("dangling.log")).unwrap();
    }
    let mut places: HashMap<String, Place> = HashMap::new();
    for p in ev::arr(&case["paths"]) {
        let name = ev::s(&p["name"]);
        let here = watched.join(format!("{}.log", name));
        let mut pl = Place { here: here.clone(), link: p["link"].as_bool().unwrap(), cur: None, old: None, made: 0, real: here };
        if let Some(h) = p["init"].as_str() {
            let mut f = pl.make(&dir);
            f.write_all(&unhex(h)).unwrap();
            pl.cur = Some(f);
        }
        places.insert(name, pl);
    }
    let zz = watched.join("zz.log");
    let mut sen = Sentinel { file: append(&zz), n: 0, path: zz.clone() };
    let (tap, snd) = Tap::new("f");
    let mut cfg = FileServerConfig::default();
    cfg.path = Some(watched.join("*.log"));
    cfg.max_read_bytes = ev::u(&case["max_read"]);
    let src = <FileServer as Source<FileServerConfig>>::new(vec![snd], cfg).run();
    let mut segs: Vec<HashMap<String, Vec<String>>> = vec![Default::default()];
    let mut odd: Vec<String> = Vec::new();
    let mut upto = 0;
    let mut caught = 0;
    let res = (|| -> Result<(), String> {
        // until the first of them is seen the file has not been found
        let t = Instant::now();
        loop {
            sen.n += 1;
            sen.file.write_all(format!("{}\n", sen.n).as_bytes()).unwrap();
            thread::sleep(Duration::from_millis(3));
            if tap.len() > 0 {
                break;
            }
            if t.elapsed() > Duration::from_secs(15) {
                return Err("nothing of the other file arrived".to_string());
            }
        }
        let n = sen.n;
        sen.wait(&tap, n)?;
        let rounds = ev::u(&case["rounds"]);
        let mut steps = vec![json!({"a": "settle"})];
        steps.extend(ev::arr(&case["steps"]).iter().cloned());
        let mut held = None;
        for st in &steps {
            if !st["held"].as_bool().unwrap_or(false) {
                held = None;
            }
            if let Some(at) = st["at"].as_str() {
                sen.n += 1;
                sen.file.write_all(format!("{}\n", sen.n).as_bytes()).unwrap();
                let here = places[st["p"].as_str().unwrap()].here.clone();
                held = ambush::hold(&here, if at == "stat" { "stat" } else { "open" }, Duration::from_millis(100));
                if held.is_some() {
                    caught += 1;
                }
            }
            let us = st["us"].as_u64().unwrap_or(0);
            if us > 0 {
                thread::sleep(Duration::from_micros(us));
            }
            let a = st["a"].as_str().unwrap();
            if a == "settle" {
                sen.rounds(&tap, rounds)?;
                let got = tap.got.lock().unwrap();
                let seg = segs.last_mut().unwrap();
                for e in got[upto..].iter() {
                    match *e {
                        Event::Log(ref l) => {
                            if Path::new(&l.path) == sen.path {
                                continue;
                            }
                            let stem = Path::new(&l.path).file_stem().unwrap().to_str().unwrap().to_string();
                            if Path::new(&l.path).parent() != Some(&watched) || !places.contains_key(&stem) || !l.fields.is_empty() || l.tags.as_ref().map_or(false, |t| !t.is_empty()) {
                                odd.push(format!("{:?}", l));
                            }
                            seg.entry(stem).or_insert_with(Vec::new).push(hex(l.value.as_bytes()));
                        }
                        ref e => odd.push(format!("{:?}", e)),
                    }
                }
                upto = got.len();
                segs.push(Default::default());
                continue;
            }
            let pl = places.get_mut(st["p"].as_str().unwrap()).unwrap();
            match a {
                "append" => pl.cur.as_mut().unwrap().write_all(&unhex(st["hex"].as_str().unwrap())).unwrap(),
                "old" => pl.old.as_mut().unwrap().write_all(&unhex(st["hex"].as_str().unwrap())).unwrap(),
                "trunc" => pl.cur.as_mut().unwrap().set_len(st["bytes"].as_u64().unwrap()).unwrap(),
                "away" => {
                    let to = dir.join("gone").join(format!("{}.{}", pl.here.file_name().unwrap().to_str().unwrap(), pl.made));
                    // a neighbour the pattern does not take in, or another directory
                    let to = if pl.made % 2 == 0 { to } else { pl.here.with_extension(format!("log.{}", pl.made)) };
                    fs::rename(&pl.here, &to).unwrap();
                    pl.old = pl.cur.take();
                }
                "del" => {
                    fs::remove_file(&pl.here).unwrap();
                    pl.old = pl.cur.take();
                }
                "create" => {
                    let f = pl.make(&dir);
                    pl.cur = Some(f);
                }
                "replace" => pl.replace(&dir),
                x => panic!("harness: step {}", x),
            }
        }
        drop(held);
        Ok(())
    })();
    // the first rounds, and the end
    let t = Instant::now();
    src.shutdown();
    let slow = t.elapsed() > Duration::from_secs(5);
    let all = tap.finish();
    let ends = all.iter().filter(|e| match *e { Event::Shutdown => true, _ => false }).count();
    let last = match all.last() {
        Some(Event::Shutdown) => true,
        _ => false,
    };
    let extra = all[upto..].iter().filter(|e| match *e { Event::Log(ref l) => Path::new(&l.path) != sen.path, Event::Shutdown => false, _ => true }).count();
    fs::remove_dir_all(&dir).ok();
    segs.pop();
    json!({ "obs": { "segs": segs, "odd": odd, "stuck": res.err(), "end": ends == 1 && last && !slow, "extra": extra, "caught": caught } })
}
