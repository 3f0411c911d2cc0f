//! I06: the file source over files that writers append to, rotate and remove.
use crate::common::*;
use crate::h::*;
use crate::ingest::*;
use cernan::metric::Event;
use cernan::source::*;
use std::collections::BTreeMap;
use std::fs::{self, File, OpenOptions};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::thread;
use std::time::Duration;

type Seen = Arc<dyn Fn(&str) -> Vec<String> + Send + Sync>;

struct Writer {
    path: PathBuf,
    f: File,
    r: Rng,
    seen: Seen,
    /// lines due so far, in order; None: it may or may not be emitted
    due: Vec<Option<String>>,
    /// the time each was written at the earliest
    at: Vec<i64>,
    /// index in `due` of the first line of the file now under the path
    from: usize,
    rotations: u64,
    truncations: u64,
    log: Vec<String>,
    probes: u64,
    prefix: String,
    n: u64,
    giveup: bool,
}

fn create(p: &Path) -> File {
    OpenOptions::new().create(true).append(true).open(p).expect("HARNESS create")
}

impl Writer {
    fn owe(&mut self, l: String) {
        self.due.push(Some(l));
        self.at.push(cernan::time::now());
    }
    fn emitted(&self) -> Vec<String> {
        (self.seen)(self.path.to_str().unwrap())
    }
    /// Writes lines until one comes out: the file is being watched.
    fn probe(&mut self) -> bool {
        for _ in 0..400 {
            self.probes += 1;
            let p = format!("{}probe{}", self.prefix, self.probes);
            self.f.write_all(format!("{}\n", p).as_bytes()).expect("HARNESS write");
            if wait_until(Duration::from_millis(60), || self.emitted().iter().any(|l| l.contains(&format!("{}probe", self.prefix)) && l.ends_with(&self.probes.to_string()))) {
                return true;
            }
            // An earlier one may be on its way still.
            if self.emitted().iter().any(|l| *l == p) {
                return true;
            }
        }
        false
    }
    fn line(&mut self) -> Vec<u8> {
        self.n += 1;
        let mut s = format!("{}{}:", self.prefix, self.n);
        match self.r.below(20) {
            0 => {
                let k = *self.r.pick(&[100usize, 8191, 8192, 9000, 70_000]);
                s.push_str(&"é".repeat(k / 2));
            }
            1 => {
                let mut b = s.into_bytes();
                b.extend_from_slice(&[0xff, 0xc3, b'x']);
                return b;
            }
            2 => s.push('\r'),
            3 => s.push_str("  \t "),
            _ => {
                for _ in 0..self.r.below(5) {
                    s.push_str(*self.r.pick(&["a", "b c", "héllo", "日本", "\"q\"", "tab\t", "\\", "🦀", "=", "\u{0}"]));
                }
            }
        }
        s.into_bytes()
    }
    /// Appends lines, in any pieces.
    fn write(&mut self, n: u64, open_end: bool, style: u64) {
        let mut data = vec![];
        for i in 0..n {
            if self.r.chance(8) {
                for _ in 0..self.r.below(6) {
                    data.push(b'\n'); // blank lines are nothing to report
                }
            }
            let l = self.line();
            self.owe(String::from_utf8_lossy(&l).to_string());
            data.extend_from_slice(&l);
            if !(open_end && i + 1 == n) {
                data.push(b'\n');
            }
        }
        let mut b = &data[..];
        while !b.is_empty() {
            let k = match style {
                0 => b.len(),
                1 => 1 + self.r.below(b.len() as u64) as usize,
                2 => (1 + self.r.below(40) as usize).min(b.len()),
                _ => (1 + self.r.below(3) as usize).min(b.len()),
            };
            self.f.write_all(&b[..k]).expect("HARNESS write");
            b = &b[k..];
            if style > 0 && (style < 3 || self.r.chance(10)) {
                match self.r.below(12) {
                    0 => thread::sleep(Duration::from_millis(self.r.below(12))),
                    1 => thread::sleep(Duration::from_micros(self.r.below(900))),
                    2 => thread::yield_now(),
                    _ => {}
                }
            }
        }
    }
    fn wait(&mut self, what: usize) -> bool {
        // The last of the lines due so far is out.
        match self.due[..what].iter().rev().find(|d| d.is_some()).cloned() {
            Some(Some(l)) => wait_until(Duration::from_secs(25), || self.emitted().iter().any(|e| *e == l)),
            _ => true,
        }
    }
    fn run(mut self, ops: u64) -> Writer {
        if !self.probe() {
            self.log.push("never watched".to_string());
            self.giveup = true;
            return self;
        }
        self.from = self.due.len();
        for _ in 0..ops {
            match self.r.below(11) {
                10 => {
                    // Truncation in place, as copytruncate does. It is seen by the
                    // file's being shorter than before: all there is has been read
                    // by then, and less is written until what was is out.
                    let due = self.due.len();
                    if !self.wait(due) || !self.probe() {
                        self.log.push("not out".to_string());
                        self.giveup = true;
                        return self;
                    }
                    let size = self.f.metadata().expect("HARNESS size").len();
                    if !self.probe() {
                        self.log.push("probe not out".to_string());
                        self.giveup = true;
                        return self;
                    }
                    let open = self.r.chance(50);
                    if open {
                        // A line that never gets its end.
                        let g = format!("{}gone", self.prefix);
                        self.f.write_all(g.as_bytes()).expect("HARNESS write");
                        thread::sleep(Duration::from_millis(*self.r.pick(&[0u64, 1, 20, 60])));
                    }
                    self.f.set_len(0).expect("HARNESS truncate");
                    thread::sleep(Duration::from_millis(*self.r.pick(&[0u64, 0, 1, 30, 120])));
                    let mut room = size - 1;
                    let most = self.r.range(1, 20);
                    let mut data = vec![];
                    for k in 0..most {
                        let l = if k == 0 {
                            self.n += 1;
                            format!("{}{}:", self.prefix, self.n).into_bytes()
                        } else {
                            self.line()
                        };
                        let need = l.len() as u64 + 1;
                        if need > room {
                            break;
                        }
                        room -= need;
                        self.owe(String::from_utf8_lossy(&l).to_string());
                        data.extend_from_slice(&l);
                        data.push(b'\n');
                    }
                    let cut = self.r.below(data.len() as u64 + 1) as usize;
                    self.f.write_all(&data[..cut]).expect("HARNESS write");
                    thread::sleep(Duration::from_millis(*self.r.pick(&[0u64, 0, 5, 40])));
                    self.f.write_all(&data[cut..]).expect("HARNESS write");
                    self.truncations += 1;
                    self.log.push(format!("truncate {}{} +{}", size, if open { " open" } else { "" }, self.due.len() - due));
                    let due = self.due.len();
                    if !self.wait(due) {
                        self.log.push("not out".to_string());
                        self.giveup = true;
                        return self;
                    }
                }
                0 | 1 => {
                    // Rotation. The file that goes has been opened if a line of it
                    // is out.
                    if self.due.len() == self.from {
                        self.write(1, false, 0);
                    }
                    let first = self.from + 1;
                    if !self.wait(first) {
                        self.log.push(format!("{:?} not out", self.due[first - 1]));
                        self.giveup = true;
                        return self;
                    }
                    let (n, open, style) = (self.r.below(30), self.r.chance(40), self.r.below(4));
                    self.write(n, false, style);
                    self.rotations += 1;
                    let to = self.path.with_extension(format!("old{}", self.rotations));
                    fs::rename(&self.path, &to).expect("HARNESS rename");
                    let late = if self.r.chance(60) { self.r.below(8) } else { 0 };
                    self.write(late, false, style);
                    let gap = *self.r.pick(&[0u64, 0, 0, 1, 7, 40]);
                    thread::sleep(Duration::from_millis(gap));
                    let after = if self.r.chance(50) { self.r.below(5) } else { 0 };
                    self.write(after, open && after > 0, 0);
                    self.log.push(format!("rotate (+{} renamed, {} ms, +{}{})", late, gap, after, if open && after > 0 { " open" } else { "" }));
                    let pathc = self.path.clone();
                    self.f = create(&pathc);
                    if self.r.chance(30) {
                        let _ = fs::remove_file(&to);
                    }
                    self.from = self.due.len();
                }
                2 => {
                    let ms = *self.r.pick(&[1u64, 5, 30, 150]);
                    self.log.push(format!("pause {}", ms));
                    thread::sleep(Duration::from_millis(ms));
                }
                3 => {
                    // Only blank lines.
                    let k = self.r.below(30);
                    self.log.push(format!("{} blank", k));
                    self.f.write_all("\n".repeat(k as usize).as_bytes()).expect("HARNESS write");
                }
                _ => {
                    let n = *self.r.pick(&[1u64, 1, 2, 10, 60, 300]);
                    let style = if n > 60 { self.r.below(3) } else { self.r.below(4) };
                    self.log.push(format!("{} lines (style {})", n, style));
                    self.write(n, false, style);
                }
            }
        }
        // A last line without its newline, which comes later.
        if self.r.chance(50) {
            let l = self.line();
            let cut = self.r.below(l.len() as u64) as usize;
            self.f.write_all(&l[..cut]).expect("HARNESS write");
            thread::sleep(Duration::from_millis(self.r.below(40)));
            self.f.write_all(&l[cut..]).expect("HARNESS write");
            thread::sleep(Duration::from_millis(self.r.below(40)));
            let text = String::from_utf8_lossy(&l).to_string();
            if self.emitted().iter().any(|e| *e == text) {
                self.log.push("early".to_string());
            }
            self.owe(text);
            self.f.write_all(b"\n").expect("HARNESS write");
            self.log.push(format!("open line cut at {}", cut));
        }
        if self.r.chance(25) && self.due.len() > self.from {
            // Removed after its last line.
            let first = self.from + 1;
            if self.wait(first) {
                let _ = fs::remove_file(&self.path);
                self.log.push("removed".to_string());
            }
        }
        self
    }
}

pub fn i06(a: &Args, rep: &mut Rep) {
    let uniq = AtomicU64::new(0);
    run_cases(a, rep, |r, rep| {
        let dir = format!("{}/c{}.{}", a.work, rep.case, uniq.fetch_add(1, Ordering::SeqCst));
        let watch = format!("{}/watch", dir);
        fs::create_dir_all(format!("{}/sub.log", watch)).expect("HARNESS dir");
        let nf = r.range(1, 6) as usize;
        // The clock goes forward through the case.
        let (base, over) = (crate::clock::tick(r), Arc::new(AtomicBool::new(false)));
        let o = over.clone();
        let ticker = thread::spawn(move || {
            let mut t = base;
            while !o.load(Ordering::SeqCst) {
                t += 1;
                crate::clock::set(t);
                thread::sleep(Duration::from_millis(4));
            }
            t
        });
        let mut files: Vec<(PathBuf, File, bool)> = vec![];
        for i in 0..nf {
            let p = PathBuf::from(format!("{}/f{}{}.log", watch, i, *r.pick(&["", " x", "é", "[1]"])));
            let late = r.chance(35);
            if late {
                continue;
            }
            let mut f = create(&p);
            if r.chance(60) {
                // Here before cernan: not to be replayed.
                for k in 0..r.below(50) {
                    f.write_all(format!("old{}:{}\n", i, k).as_bytes()).expect("HARNESS write");
                }
            }
            files.push((p, f, false));
        }
        let max = *r.pick(&[1usize, 100, 2048, 2048, 1_000_000]);
        let mut src = Src::start::<FileServer, FileServerConfig, _>(&dir, |_| FileServerConfig { path: Some(PathBuf::from(format!("{}/*.log", watch))), max_read_bytes: max, forwards: vec![], config_path: None });
        let pre = files.len();
        let log = src.log.clone();
        let seen: Seen = Arc::new(move |p: &str| {
            log.lock().unwrap().iter().filter_map(|e| if let Event::Log(l) = &e.1 { if l.path == p { Some(l.value.clone()) } else { None } } else { None }).collect()
        });
        // Files that appear later.
        for i in pre..nf {
            thread::sleep(Duration::from_millis(r.below(30)));
            let p = PathBuf::from(format!("{}/late{}.log", watch, i));
            let f = create(&p);
            files.push((p, f, true));
        }
        let ops = r.range(1, 9) as u64;
        let mut jobs = vec![];
        for (i, (path, f, _)) in files.into_iter().enumerate() {
            let w = Writer { path, f, r: Rng::new(r.next(), i as u64), seen: seen.clone(), due: vec![], at: vec![], from: 0, rotations: 0, truncations: 0, log: vec![], probes: 0, prefix: format!("w{}.", i), n: 0, giveup: false };
            jobs.push(thread::spawn(move || w.run(ops)));
        }
        let ws: Vec<Writer> = jobs.into_iter().map(|j| j.join().expect("HARNESS writer")).collect();
        let want: BTreeMap<String, (Vec<String>, String)> = ws
            .iter()
            .map(|w| (w.path.to_str().unwrap().to_string(), (w.due.iter().filter_map(|d| d.clone()).collect(), format!("max_read_bytes {}: {}", max, w.log.join("; ")))))
            .collect();
        for w in &ws {
            if w.giveup {
                rep.viol("stuck", format!("{}: lines stopped coming out: {}; panics {:?}", w.prefix, w.log.join("; "), take_panics()));
                over.store(true, Ordering::SeqCst);
                let _ = ticker.join();
                return;
            }
        }
        let strip = |v: Vec<String>, pre: &str| -> Vec<String> {
            let p = format!("{}probe", pre);
            v.into_iter().filter(|l| !l.starts_with(&p)).collect()
        };
        wait_until(Duration::from_secs(20), || ws.iter().all(|w| strip(w.emitted(), &w.prefix).len() >= want[w.path.to_str().unwrap()].0.len()));
        thread::sleep(Duration::from_millis(5));
        over.store(true, Ordering::SeqCst);
        let last = match ticker.join() {
            Ok(t) => t,
            Err(_) => panic!("the clock: {:?}", take_panics()),
        };
        for w in &ws {
            let path = w.path.to_str().unwrap();
            let all = w.emitted();
            let got = strip(all.clone(), &w.prefix);
            let (due, log) = &want[path];
            if got != *due {
                let i = got.iter().zip(due.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(due.len()));
                let sig = if got.iter().any(|l| l.starts_with("old")) {
                    "replayed"
                } else if got.len() < due.len() {
                    "lost"
                } else if got.len() > due.len() {
                    "extra"
                } else {
                    "changed"
                };
                rep.viol(sig, format!("{} lines written, {} came out; the first that differs is {}: wrote {:?}, got {:?}; {}; panics {:?}", due.len(), got.len(), i, due.get(i).map(|l| clip(l, 120)), got.get(i).map(|l| clip(l, 120)), log, take_panics()));
            }
            if got == *due {
                let evs = src.events();
                let pre = format!("{}probe", w.prefix);
                let ls = evs.iter().filter_map(|e| if let Event::Log(l) = e { Some(l) } else { None }).filter(|l| l.path == path && !l.value.starts_with(&pre));
                for (l, at) in ls.zip(&w.at) {
                    if l.time < *at || l.time > last {
                        rep.viol("time", format!("{:?} was written at {}, the clock is now {}, and the line bears {}", clip(&l.value, 80), at, last, l.time));
                        break;
                    }
                    if l.tags.as_ref().map_or(0, |t| t.iter().count()) + l.fields.iter().count() > 0 {
                        rep.viol("added", format!("{:?} has tags {:?} and fields {:?}", clip(&l.value, 80), l.tags, l.fields));
                        break;
                    }
                    rep.add("lines_timed", 1);
                }
            }
            let mut probes: Vec<&String> = all.iter().filter(|l| l.starts_with(&format!("{}probe", w.prefix))).collect();
            let np = probes.len();
            probes.dedup();
            if probes.len() != np || w.log.iter().any(|l| l == "early") {
                rep.viol("twice", format!("a line came out twice or before its newline: {}", log));
            }
            rep.add("lines_compared", due.len() as u64);
            rep.add("rotations", w.rotations);
            rep.add("truncations", w.truncations);
            rep.add("truncations_of_open_lines", w.log.iter().filter(|l| l.starts_with("truncate") && l.contains(" open")).count() as u64);
            rep.add("removed", w.log.iter().filter(|l| *l == "removed").count() as u64);
            rep.add("open_lines", w.log.iter().filter(|l| l.starts_with("open line") || l.ends_with(" open)")).count() as u64);
        }
        rep.add("files", nf as u64);
        rep.add("late_files", (nf - pre) as u64);
        let foreign = src.events().iter().filter(|e| match e {
            Event::Log(l) => !want.contains_key(&l.path),
            _ => true,
        }).count();
        if foreign > 0 {
            rep.viol("foreign", format!("{} events that are no line of a watched file", foreign));
        }
        rep.seen(&ws.iter().map(|w| w.log.join("; ")).collect::<Vec<_>>());
        rep.sample(ws[0].log.join("; "));
        if !src.stop(Duration::from_secs(15)) {
            rep.viol("stop", "source did not end within 15 s of its shutdown".to_string());
        }
        let p = take_panics();
        if !p.is_empty() {
            rep.viol("panic", p.join(" | "));
        }
        let _ = fs::remove_dir_all(&dir);
    });
}
