//! S01, S02, S08: the wavefront and console sinks, observed at their output.
use crate::common::*;
use crate::h::*;
use crate::metricm::{close, mk, value, KINDS, MV};
use cernan::metric::{AggregationMethod as AM, LogLine, TagMap, Telemetry};
use cernan::sink::wavefront::PadControl;
use cernan::sink::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::unix::io::AsRawFd;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::thread;
use std::time::{Duration, Instant};

pub type Tags = Vec<(String, String)>;
pub type Key = (String, Tags);

#[derive(Clone, Debug)]
pub struct MBin {
    pub bin: i64,
    pub ts: i64,
    pub persist: bool,
    pub v: MV,
}

/// The aggregated view of a time-binned store, kept independently.
pub struct Model {
    pub width: i64,
    pub map: BTreeMap<Key, Vec<MBin>>,
}

impl Model {
    pub fn new(width: i64) -> Model {
        Model { width, map: BTreeMap::new() }
    }
    pub fn add(&mut self, p: &Point) {
        let bins = self.map.entry((p.name.clone(), p.tags.clone())).or_insert_with(Vec::new);
        let bin = p.ts / self.width;
        let mut nv = MV::one(p.kind, p.vals[0], &p.bounds);
        for v in &p.vals[1..] {
            nv.insert(*v);
        }
        match bins.binary_search_by(|x| x.bin.cmp(&bin)) {
            Ok(i) => {
                let old = bins[i].v.clone();
                bins[i].v = old.add(nv);
                bins[i].persist = p.persist;
            }
            Err(i) => {
                let v = if p.persist && i > 0 { bins[i - 1].v.clone().add(nv) } else { nv };
                bins.insert(i, MBin { bin, ts: p.ts, persist: p.persist, v });
            }
        }
    }
    pub fn reset(&mut self, now: i64) {
        for bins in self.map.values_mut() {
            let last = bins.pop();
            bins.clear();
            if let Some(mut l) = last {
                if l.persist {
                    l.ts = now;
                    l.bin = l.ts / self.width;
                    bins.push(l);
                }
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Point {
    pub name: String,
    pub tags: Tags,
    pub kind: AM,
    pub vals: Vec<f64>,
    pub bounds: Vec<f64>,
    pub ts: i64,
    pub persist: bool,
}

impl Point {
    pub fn telem(&self, r: &mut Rng) -> Telemetry {
        let mut tags = self.tags.clone();
        r.shuffle(&mut tags);
        let mut t = mk(&self.name, self.kind, self.vals[0], &self.bounds, self.ts, self.persist, &tags);
        for v in &self.vals[1..] {
            t = t.insert(*v);
        }
        t
    }
}

/// A summary's answers are those of a sketch given the same samples.
pub fn sketch(samples: &[f64]) -> Telemetry {
    let mut t = mk("ref", AM::Summarize, samples[0], &[], 0, false, &[]);
    for v in &samples[1..] {
        t = t.insert(*v);
    }
    t
}

pub fn bin_counts(bounds: &[f64], samples: &[f64]) -> Vec<usize> {
    let mut n = vec![0; bounds.len() + 1];
    for s in samples {
        n[bounds.iter().position(|b| s <= b).unwrap_or(bounds.len())] += 1;
    }
    n
}

/// Keys and values without white space, `=` or quotes.
pub fn plain_tags(r: &mut Rng, n: u64) -> Tags {
    let mut m = BTreeMap::new();
    for _ in 0..n {
        m.insert(format!("k{}", r.below(12)), (*r.pick(&["v0", "v1", "a.b-c", "héllo", "日本"])).to_string());
    }
    m.into_iter().collect()
}

pub fn tagmap(t: &Tags) -> TagMap {
    let mut m = TagMap::default();
    for (k, v) in t {
        m.insert(k.clone(), v.clone());
    }
    m
}

/// Own tags over the defaults.
pub fn visible(own: &Tags, dflt: &Tags) -> Tags {
    let mut m: BTreeMap<String, String> = dflt.iter().cloned().collect();
    for (k, v) in own {
        m.insert(k.clone(), v.clone());
    }
    m.into_iter().collect()
}

/// This process's own loopback address: listeners of parallel runs never meet.
pub fn my_ip() -> String {
    let p = std::process::id();
    format!("127.{}.{}.{}", 1 + (p >> 14) % 250, 1 + (p >> 7) % 128, 1 + p % 128)
}

lazy_static! {
    static ref LATELY: std::sync::Mutex<Vec<u16>> = std::sync::Mutex::new(vec![]);
}

/// A free port of this address that this process has not asked for lately, as
/// what asked for that one may not be listening yet.
pub fn fresh_port(ip: &str) -> u16 {
    let mut held = vec![];
    loop {
        let l = TcpListener::bind((ip, 0)).expect("HARNESS bind");
        let p = l.local_addr().unwrap().port();
        held.push(l);
        let mut lately = LATELY.lock().unwrap();
        if !lately.contains(&p) {
            if lately.len() >= 2_000 {
                lately.remove(0);
            }
            lately.push(p);
            return p;
        }
    }
}

pub fn listen_on(ip: &str, port: u16) -> TcpListener {
    let t = Instant::now();
    loop {
        match TcpListener::bind((ip, port)) {
            Ok(l) => return l,
            Err(e) => {
                if t.elapsed() > Duration::from_secs(20) {
                    harness_fail(&format!("listen {}:{}: {}", ip, port, e));
                }
                thread::sleep(Duration::from_millis(20));
            }
        }
    }
}

pub fn set_opt(fd: i32, opt: i32, v: &[u8]) {
    unsafe {
        libc::setsockopt(fd, libc::SOL_SOCKET, opt, v.as_ptr() as *const libc::c_void, v.len() as u32);
    }
}

pub fn rst_on_close(s: &TcpStream) {
    let l = [1i32, 0i32];
    let b: [u8; 8] = unsafe { std::mem::transmute(l) };
    set_opt(s.as_raw_fd(), libc::SO_LINGER, &b);
}

/// Lets the kernel take little of what this process writes to that address.
/// Returns how many sockets there are.
pub fn small_sndbuf(ip: &str, port: u16) -> usize {
    let mut n = 0;
    let want: std::net::SocketAddr = format!("{}:{}", ip, port).parse().unwrap();
    for e in std::fs::read_dir("/proc/self/fd").expect("HARNESS fds") {
        let fd: i32 = match e.ok().and_then(|e| e.file_name().to_string_lossy().parse().ok()) {
            Some(fd) => fd,
            None => continue,
        };
        unsafe {
            use std::os::unix::io::{FromRawFd, IntoRawFd};
            let mut st: libc::stat = std::mem::zeroed();
            if libc::fstat(fd, &mut st) != 0 || st.st_mode & libc::S_IFMT != libc::S_IFSOCK {
                continue;
            }
            let s = TcpStream::from_raw_fd(fd);
            let hit = s.peer_addr().ok() == Some(want);
            s.into_raw_fd();
            if hit {
                set_opt(fd, libc::SO_SNDBUF, &2048i32.to_ne_bytes());
                n += 1;
            }
        }
    }
    n
}

pub fn small_rcvbuf(l: &TcpListener, n: i32) {
    set_opt(l.as_raw_fd(), libc::SO_RCVBUF, &n.to_ne_bytes());
}

/// What the peer does with its next connection.
#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    /// stop reading after this many bytes and close
    CloseAfter(usize),
    ResetAfter(usize),
}

pub struct Conn {
    pub bytes: Vec<u8>,
    pub ended: bool,
    pub fault: Fault,
}

/// A TCP peer that keeps every byte of every connection.
pub struct Peer {
    pub ip: String,
    pub port: u16,
    pub conns: Shared<Vec<Conn>>,
    pub plan: Shared<Vec<Fault>>,
    /// raised to close all current connections (1: close, 2: reset)
    kill: Arc<AtomicUsize>,
    stop: Arc<AtomicBool>,
    live: Arc<AtomicUsize>,
    listening: Arc<AtomicBool>,
    ticks: Arc<AtomicUsize>,
    pub rcvbuf: i32,
    /// a fault for the live connection, counted from now
    pub cut: Shared<Option<Fault>>,
}

impl Peer {
    pub fn new() -> Peer {
        let ip = my_ip();
        let port = fresh_port(&ip);
        Peer {
            ip,
            port,
            conns: shared(vec![]),
            plan: shared(vec![]),
            kill: Arc::new(AtomicUsize::new(0)),
            stop: Arc::new(AtomicBool::new(false)),
            live: Arc::new(AtomicUsize::new(0)),
            listening: Arc::new(AtomicBool::new(false)),
            ticks: Arc::new(AtomicUsize::new(0)),
            rcvbuf: 0,
            cut: shared(None),
        }
    }
    pub fn open(&self) {
        self.open_after(0);
    }
    /// Starts listening, now or in a while.
    pub fn open_after(&self, ms: u64) {
        self.stop.store(false, Ordering::SeqCst);
        let (conns, plan, kill, stop, live, listening) =
            (self.conns.clone(), self.plan.clone(), self.kill.clone(), self.stop.clone(), self.live.clone(), self.listening.clone());
        let (ip, port, rcvbuf) = (self.ip.clone(), self.port, self.rcvbuf);
        let (up, ticks, cut) = (listening.clone(), self.ticks.clone(), self.cut.clone());
        thread::spawn(move || {
            thread::sleep(Duration::from_millis(ms));
            let l = listen_on(&ip, port);
            if rcvbuf > 0 {
                small_rcvbuf(&l, rcvbuf);
            }
            l.set_nonblocking(true).unwrap();
            listening.store(true, Ordering::SeqCst);
            while !stop.load(Ordering::SeqCst) {
                match l.accept() {
                    Ok((s, _)) => {
                        let fault = {
                            let mut p = plan.lock().unwrap();
                            if p.is_empty() { Fault::None } else { p.remove(0) }
                        };
                        let i = {
                            let mut c = conns.lock().unwrap();
                            c.push(Conn { bytes: vec![], ended: false, fault: fault.clone() });
                            c.len() - 1
                        };
                        live.fetch_add(1, Ordering::SeqCst);
                        let (conns, kill, live, ticks, cut) = (conns.clone(), kill.clone(), live.clone(), ticks.clone(), cut.clone());
                        let gen = kill.load(Ordering::SeqCst);
                        thread::spawn(move || {
                            serve(s, &conns, i, fault, &kill, gen, &ticks, &cut);
                            conns.lock().unwrap()[i].ended = true;
                            live.fetch_sub(1, Ordering::SeqCst);
                        });
                    }
                    Err(_) => thread::sleep(Duration::from_millis(1)),
                }
            }
            drop(l);
            listening.store(false, Ordering::SeqCst);
        });
        if ms == 0 {
            wait_until(Duration::from_secs(20), || up.load(Ordering::SeqCst));
        }
    }
    /// Stops listening; existing connections stay.
    pub fn refuse(&self) {
        self.stop.store(true, Ordering::SeqCst);
        wait_until(Duration::from_secs(5), || !self.listening.load(Ordering::SeqCst));
    }
    /// Ends every connection, gracefully or with a reset.
    pub fn drop_all(&self, reset: bool) {
        let g = self.kill.load(Ordering::SeqCst) & !1;
        self.kill.store((g + 2) | reset as usize, Ordering::SeqCst);
        wait_until(Duration::from_secs(5), || self.live.load(Ordering::SeqCst) == 0);
    }
    pub fn quiet(&self) -> bool {
        self.live.load(Ordering::SeqCst) == 0
    }
    /// Waits until every byte sent so far has been read.
    pub fn settle(&self) -> bool {
        let port = format!(":{:04X}", self.port);
        let ok = wait_until(Duration::from_secs(10), || {
            let t = std::fs::read_to_string("/proc/net/tcp").unwrap_or_default();
            t.lines().skip(1).all(|l| {
                let f: Vec<&str> = l.split_whitespace().collect();
                f.len() < 5 || !(f[1].ends_with(&port) || f[2].ends_with(&port)) || f[3] == "0A" || f[4] == "00000000:00000000"
            })
        });
        let t = self.ticks.load(Ordering::SeqCst);
        let n = self.live.load(Ordering::SeqCst);
        wait_until(Duration::from_secs(10), || n == 0 || self.live.load(Ordering::SeqCst) == 0 || self.ticks.load(Ordering::SeqCst) >= t + 2 * n) && ok
    }
    pub fn total(&self) -> usize {
        self.conns.lock().unwrap().iter().map(|c| c.bytes.len()).sum()
    }
    pub fn newlines(&self) -> usize {
        self.conns.lock().unwrap().iter().map(|c| c.bytes.iter().filter(|b| **b == b'\n').count()).sum()
    }
}

fn serve(mut s: TcpStream, conns: &Shared<Vec<Conn>>, i: usize, mut fault: Fault, kill: &AtomicUsize, gen: usize, ticks: &AtomicUsize, cut: &Shared<Option<Fault>>) {
    s.set_nonblocking(false).unwrap();
    s.set_read_timeout(Some(Duration::from_millis(3))).unwrap();
    let mut buf = vec![0u8; 1 << 16];
    let mut n = 0;
    loop {
        ticks.fetch_add(1, Ordering::SeqCst);
        let k = kill.load(Ordering::SeqCst);
        if k >> 1 != gen >> 1 {
            if k & 1 == 1 {
                rst_on_close(&s);
            }
            return;
        }
        match cut.lock().unwrap().take() {
            Some(Fault::CloseAfter(m)) => fault = Fault::CloseAfter(n + m),
            Some(Fault::ResetAfter(m)) => fault = Fault::ResetAfter(n + m),
            _ => {}
        }
        if let Some(c) = conns.lock().unwrap().get_mut(i) {
            if c.fault != fault {
                c.fault = fault.clone();
            }
        }
        let room = match fault {
            Fault::None => buf.len(),
            Fault::CloseAfter(m) | Fault::ResetAfter(m) => {
                if n >= m {
                    if let Fault::ResetAfter(_) = fault {
                        rst_on_close(&s);
                    }
                    return;
                }
                buf.len().min(m - n)
            }
        };
        match s.read(&mut buf[..room]) {
            Ok(0) => return,
            Ok(m) => {
                n += m;
                conns.lock().unwrap()[i].bytes.extend_from_slice(&buf[..m]);
            }
            Err(e) => {
                if e.kind() != std::io::ErrorKind::WouldBlock && e.kind() != std::io::ErrorKind::TimedOut {
                    return;
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------

type LineKey = (String, i64, Tags);

fn parse_line(l: &str) -> Result<(LineKey, f64), String> {
    let f: Vec<&str> = l.split(' ').collect();
    if f.len() < 3 || f[0].is_empty() {
        return Err(format!("malformed line {:?}", l));
    }
    let v: f64 = f[1].parse().map_err(|_| format!("bad value in {:?}", l))?;
    let ts: i64 = f[2].parse().map_err(|_| format!("bad time in {:?}", l))?;
    let mut tags = BTreeMap::new();
    for t in &f[3..] {
        if t.is_empty() && f.len() == 4 {
            continue; // no tags at all
        }
        let mut kv = t.splitn(2, '=');
        let k = kv.next().unwrap_or("");
        let v = kv.next().ok_or_else(|| format!("malformed tag {:?} in {:?}", t, l))?;
        if k.is_empty() || tags.insert(k.to_string(), v.to_string()).is_some() {
            return Err(format!("empty or repeated tag key in {:?}", l));
        }
    }
    Ok(((f[0].to_string(), ts, tags.into_iter().collect()), v))
}

struct WfModel {
    m: Model,
    pad: PadControl,
    seen: BTreeMap<(Key, String), i64>,
    dflt: Tags,
    pct: Vec<(String, f64)>,
}

struct Want {
    must: BTreeMap<LineKey, Vec<f64>>,
    may: BTreeMap<LineKey, usize>,
    pads: u64,
    cross: u64,
    /// points by aggregation, pads aside
    points: BTreeMap<&'static str, u64>,
}

impl WfModel {
    fn lines(&self, key: &Key, b: &MBin, zero: Option<i64>) -> Vec<(LineKey, f64)> {
        let tags = visible(&key.1, &self.dflt);
        let z = zero.is_some();
        let ts = zero.unwrap_or(b.ts);
        let mk = |s: String, v: f64| ((s, ts, tags.clone()), if z { 0.0 } else { v });
        match b.v {
            MV::Set(x) | MV::Sum(x) => vec![mk(key.0.clone(), x)],
            MV::Hist { ref bounds, ref samples } => {
                let n = bin_counts(bounds, samples);
                (0..n.len()).map(|i| mk(if i < bounds.len() { format!("{}_{}", key.0, bounds[i]) } else { format!("{}_pos_inf", key.0) }, n[i] as f64)).collect()
            }
            MV::Quant { ref samples } => {
                let t = sketch(samples);
                let mut v: Vec<_> = self.pct.iter().map(|(n, q)| mk(format!("{}.{}", key.0, n), t.query(*q).unwrap())).collect();
                v.push(mk(format!("{}.count", key.0), samples.len() as f64));
                v.push(mk(format!("{}.mean", key.0), samples.iter().sum::<f64>() / samples.len() as f64));
                v
            }
        }
    }
    fn padded(&self, k: AM) -> bool {
        match k {
            AM::Set => self.pad.set,
            AM::Sum => self.pad.sum,
            AM::Summarize => self.pad.summarize,
            AM::Histogram => self.pad.histogram,
        }
    }
    fn flush(&mut self, now: i64) -> Want {
        let mut w = Want { must: BTreeMap::new(), may: BTreeMap::new(), pads: 0, cross: 0, points: BTreeMap::new() };
        let span = self.m.width;
        let mut new_seen = self.seen.clone();
        for (key, bins) in &self.m.map {
            let mut done = BTreeSet::new();
            for (i, b) in bins.iter().enumerate() {
                let k = b.v.kind();
                let sk = (key.clone(), format!("{:?}", k));
                *w.points.entry(kind_word(k)).or_insert(0) += 1;
                for (l, v) in self.lines(key, b, None) {
                    w.must.entry(l).or_insert_with(Vec::new).push(v);
                }
                let e = new_seen.entry(sk.clone()).or_insert(b.ts);
                *e = (*e).max(b.ts);
                if !self.padded(k) {
                    continue;
                }
                let mut zeros: Vec<(i64, i64)> = vec![];
                let mut late = false;
                if !done.contains(&sk.1) {
                    if let Some(s) = self.seen.get(&sk) {
                        if b.ts > *s {
                            done.insert(sk.1.clone());
                            if b.ts.saturating_sub(*s) / span > 1 {
                                zeros.push((s + 1, b.ts - 1));
                                w.cross += 1;
                            }
                        } else {
                            late = true;
                        }
                    }
                }
                if !late && i + 1 < bins.len() && bins[i + 1].v.kind() == k {
                    let y = &bins[i + 1];
                    if y.ts.saturating_sub(b.ts) / span > 1 {
                        zeros.push((b.ts + 1, y.ts - 1));
                        w.pads += 1;
                    }
                }
                for (a, c) in zeros {
                    // A histogram's pads carry the bounds of its own points.
                    for (l, v) in self.lines(key, b, Some(a)) {
                        w.must.entry(l).or_insert_with(Vec::new).push(v);
                    }
                    for (l, v) in self.lines(key, b, Some(c)) {
                        if a == c {
                            *w.may.entry(l).or_insert(0) += 1;
                        } else {
                            w.must.entry(l).or_insert_with(Vec::new).push(v);
                        }
                    }
                }
            }
        }
        self.seen = new_seen;
        self.m.reset(now);
        w
    }
}

fn sorted(v: &[f64]) -> Vec<f64> {
    let mut v = v.to_vec();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}

fn compare(got: &BTreeMap<LineKey, Vec<f64>>, w: &Want) -> Option<(&'static str, String)> {
    for (k, v) in &w.must {
        let g = sorted(got.get(k).map_or(&[][..], |x| &x[..]));
        let mut e = sorted(v);
        let spare = w.may.get(k).cloned().unwrap_or(0);
        while g.len() > e.len() && e.len() < v.len() + spare {
            e.push(0.0);
        }
        let e = sorted(&e);
        if g.len() < e.len() {
            return Some(("line-missing", format!("{:?} has values {:?} but {:?} are due", k, g, e)));
        }
        if g.len() > e.len() {
            return Some(("line-extra", format!("{:?} has values {:?} but {:?} are due", k, g, e)));
        }
        if g.iter().zip(&e).any(|(a, b)| !close(*a, *b)) {
            return Some(("line-value", format!("{:?} has values {:?} but {:?} are due", k, g, e)));
        }
    }
    for (k, v) in got {
        if !w.must.contains_key(k) && v.len() > w.may.get(k).cloned().unwrap_or(0) {
            return Some(("line-stray", format!("{:?} {:?} stands for nothing delivered", k, v)));
        }
    }
    None
}

const PCTS: [(&str, f64); 8] = [("min", 0.0), ("max", 1.0), ("25", 0.25), ("50", 0.5), ("75", 0.75), ("90", 0.90), ("99", 0.99), ("999", 0.999)];

fn wf_tally() -> Tally {
    Tally::new(&[
        ("hist", &wavefront::WAVEFRONT_AGGR_HISTO),
        ("sum", &wavefront::WAVEFRONT_AGGR_SUM),
        ("set", &wavefront::WAVEFRONT_AGGR_SET),
        ("summ", &wavefront::WAVEFRONT_AGGR_SUMMARIZE),
        ("percentiles", &wavefront::WAVEFRONT_AGGR_TOT_PERCENT),
        ("delivery.success", &wavefront::WAVEFRONT_DELIVERY_SUCCESS),
        ("delivery.failure", &wavefront::WAVEFRONT_DELIVERY_FAILURE),
        ("connection_attempts", &wavefront::WAVEFRONT_CONNECT_ATTEMPTS),
    ])
}

pub fn s01(a: &Args, rep: &mut Rep) {
    run_cases(a, rep, |r, rep| {
        let mut now = crate::clock::tick(r);
        let peer = Peer::new();
        peer.open();
        let width = *r.pick(&[1i64, 1, 1, 2, 5, 10]);
        let pad = PadControl { set: r.chance(50), sum: r.chance(50), summarize: r.chance(50), histogram: r.chance(50) };
        let mut dflt: Tags = if r.chance(70) { vec![("source".to_string(), "cernan-test".to_string())] } else { vec![] };
        let nd = r.below(4);
        dflt.extend(plain_tags(r, nd));
        let dflt: Tags = dflt.into_iter().collect::<BTreeMap<_, _>>().into_iter().collect();
        let mut pct: Vec<(String, f64)> = PCTS.iter().map(|(n, q)| (n.to_string(), *q)).collect();
        pct.truncate(r.range(0, 8) as usize);
        let age = if r.chance(30) { Some(*r.pick(&[0u64, 5, 60, 1000])) } else { None };
        let mut wf = Wavefront::init(WavefrontConfig {
            bin_width: width,
            host: peer.ip.clone(),
            port: peer.port,
            config_path: Some("sinks.wavefront".to_string()),
            percentiles: pct.clone(),
            tags: tagmap(&dflt),
            flush_interval: 60,
            pad_control: pad,
            age_threshold: age,
        });
        let mut m = WfModel { m: Model::new(width), pad, seen: BTreeMap::new(), dflt, pct };
        let bounds = if r.chance(50) { vec![1.0, 10.0, 100.0, 1000.0] } else { vec![-2.5, 0.0, 7.0] };
        let nser = r.range(1, 7);
        let mut series = vec![];
        for i in 0..nser {
            let nt = *r.pick(&[0u64, 1, 3, 8]);
            let kind = *r.pick(&KINDS);
            let persist = if kind == AM::Set || kind == AM::Sum { r.below(3) } else { 0 };
            let tags = if i > 0 && r.chance(15) { vec![] } else { plain_tags(r, nt) };
            series.push((format!("s{}.{}", r.below(nser as u64), kind_word(kind)), tags, kind, persist));
        }
        let base = match r.below(4) {
            0 => now,
            1 => now - 500,
            2 => 1_000_000,
            _ => now + 10_000,
        };
        let span = *r.pick(&[3i64, 12, 40, 300]);
        let mut clock = base;
        let forward = r.chance(60);
        let nflush = r.range(1, 5);
        let mut log = vec![format!("width {} pad {:?} age {:?} now {}", width, pad, age, now)];
        let tally = wf_tally();
        let mut emitted: BTreeMap<&str, u64> = BTreeMap::new();
        let mut got_lines = 0usize;
        let mut wants = vec![];
        for f in 0..nflush {
            let n = *r.pick(&[0u64, 1, 4, 15, 60]);
            for _ in 0..n {
                if r.chance(4) {
                    now = crate::clock::tick(r);
                    log.push(format!("now {}", now));
                    rep.add("clock_moves", 1);
                }
                let s = r.pick(&series).clone();
                if forward {
                    clock += *r.pick(&[0i64, 0, 1, 1, 2, 3, 9]);
                }
                let mut ts = if forward { clock } else { base + r.range(0, span) };
                if r.chance(8) {
                    ts = now + r.range(-70, 70);
                }
                if !forward && r.chance(3) {
                    ts = *r.pick(&[0i64, 4_000_000_000, i64::max_value(), i64::max_value() - 1]);
                }
                if age == Some(5) && r.chance(30) {
                    ts = now + *r.pick(&[-6i64, -5, 5, 6]);
                }
                let mut vals = vec![value(r)];
                if s.2 == AM::Summarize || s.2 == AM::Histogram {
                    let mut more = *r.pick(&[0u64, 0, 1, 5, 40]);
                    if r.below(1_200) == 0 {
                        more = 70_000;
                        rep.add("points_of_70000", 1);
                    }
                    for _ in 0..more {
                        vals.push(value(r));
                    }
                }
                let p = Point { name: s.0.clone(), tags: s.1.clone(), kind: s.2, vals, bounds: bounds.clone(), ts, persist: s.3 == 1 || (s.3 == 2 && r.chance(50)) };
                log.push(format!("add {} {:?} {:?} {} {:?} ts={} p={}", p.name, p.tags, p.kind, p.vals.len(), &p.vals[..p.vals.len().min(50)], p.ts, p.persist));
                wf.deliver(p.telem(r));
                rep.add("points", 1);
                let young = age.map_or(true, |a| (p.ts as i128 - now as i128).abs() <= a as i128);
                if young {
                    m.m.add(&p);
                } else {
                    rep.add("too_old", 1);
                }
            }
            if r.chance(30) {
                now = crate::clock::tick(r);
                rep.add("clock_moves", 1);
            }
            log.push(format!("flush {} at {}", f, now));
            let w = m.flush(now);
            wf.flush();
            rep.add("flushes", 1);
            for (k, n) in &w.points {
                *emitted.entry(k).or_insert(0) += n;
            }
            got_lines += w.must.values().map(|v| v.len()).sum::<usize>();
            let due = got_lines;
            // Lines of one flush are told from those of the next by waiting.
            wait_until(Duration::from_secs(10), || peer.newlines() >= due);
            if !peer.settle() {
                rep.add("waited_in_vain", 1);
            }
            wants.push((w, peer.total()));
        }
        rep.seen(&log);
        // Two flushes: an idle one prints only what persists; so does shutdown.
        let w = m.flush(now);
        for (k, n) in &w.points {
            *emitted.entry(k).or_insert(0) += n;
        }
        wf.shutdown();
        let mut due: Vec<(&str, u64, u64)> = ["hist", "sum", "set", "summ"].iter().map(|k| (*k, emitted.get(k).cloned().unwrap_or(0), emitted.get(k).cloned().unwrap_or(0))).collect();
        let np = due[3].1 * m.pct.len() as u64;
        due.push(("percentiles", np, np));
        let lo = wants.iter().map(|w| &w.0).chain(Some(&w)).filter(|w| !w.must.is_empty()).count() as u64;
        due.push(("delivery.success", lo, nflush as u64 + 1));
        due.push(("delivery.failure", 0, 0));
        tally.judge(rep, &due, &log.join("; "));
        wait_until(Duration::from_secs(10), || peer.quiet());
        wants.push((w, usize::max_value()));
        peer.refuse();
        let c = peer.conns.lock().unwrap();
        let quiet = wants.iter().all(|w| w.0.must.is_empty());
        if c.len() > 1 || (c.is_empty() && !quiet) {
            rep.viol("connections", format!("{} connections without any trouble after {}", c.len(), log.join("; ")));
            return;
        }
        if c.is_empty() {
            return;
        }
        let bytes = &c[0].bytes;
        if !bytes.is_empty() && bytes.last() != Some(&b'\n') {
            rep.viol("unterminated", format!("output does not end with a newline: {:?}", String::from_utf8_lossy(bytes)));
            return;
        }
        let text = String::from_utf8_lossy(bytes).to_string();
        let mut at = 0;
        let mut fl = 0;
        let mut got: BTreeMap<LineKey, Vec<f64>> = BTreeMap::new();
        for l in text.split_inclusive_nl() {
            while at >= wants[fl].1 {
                judge(&got, &wants[fl].0, fl, &log, rep);
                got.clear();
                fl += 1;
            }
            at += l.len();
            match parse_line(l.trim_end_matches('\n')) {
                Ok((k, v)) => got.entry(k).or_insert_with(Vec::new).push(v),
                Err(e) => {
                    rep.viol("malformed", format!("{} after {:?}", e, log));
                    return;
                }
            }
            rep.add("lines", 1);
        }
        while fl < wants.len() {
            judge(&got, &wants[fl].0, fl, &log, rep);
            got.clear();
            fl += 1;
        }
        rep.sample(format!("{} => {}", log[..log.len().min(6)].join("; "), clip(&text, 300)));
    });
    valve_case(rep);
}

fn judge(got: &BTreeMap<LineKey, Vec<f64>>, w: &Want, fl: usize, log: &[String], rep: &mut Rep) {
    if let Some((sig, d)) = compare(got, w) {
        rep.viol(sig, format!("flush {}: {} after {}", fl, d, log.join("; ")));
    }
    rep.add("flushes_compared", 1);
    rep.add("lines_due", w.must.values().map(|v| v.len() as u64).sum());
    rep.add("gaps_padded", w.pads);
    rep.add("gaps_across_flushes", w.cross);
}

pub fn kind_word(k: AM) -> &'static str {
    match k {
        AM::Set => "set",
        AM::Sum => "sum",
        AM::Summarize => "summ",
        AM::Histogram => "hist",
    }
}

pub trait SplitNl {
    fn split_inclusive_nl(&self) -> Vec<&str>;
}
impl SplitNl for String {
    fn split_inclusive_nl(&self) -> Vec<&str> {
        let mut v = vec![];
        let mut s = 0;
        for (i, b) in self.bytes().enumerate() {
            if b == b'\n' {
                v.push(&self[s..=i]);
                s = i + 1;
            }
        }
        if s < self.len() {
            v.push(&self[s..]);
        }
        v
    }
}

/// More persisting series than the valve's limit: closed until flushed, then
/// open.
fn valve_case(rep: &mut Rep) {
    let peer = Peer::new();
    peer.open();
    let mut wf = Wavefront::init(WavefrontConfig { host: peer.ip.clone(), port: peer.port, percentiles: vec![], ..Default::default() });
    for i in 0..10_050 {
        wf.deliver(mk(&format!("g{}", i), AM::Set, 1.0, &[], 5, true, &[]));
    }
    let closed = wf.valve_state() == cernan::util::Valve::Closed;
    wf.flush();
    let open = wf.valve_state() == cernan::util::Valve::Open;
    rep.add("valve_cases", 1);
    if closed && !open {
        rep.viol("valve-stuck", "10,050 persisting series keep the valve closed after a flush".to_string());
    }
    wf.shutdown();
    wait_until(Duration::from_secs(10), || peer.quiet());
    let n = peer.newlines();
    if n != 2 * 10_050 {
        rep.viol("persisting-lines", format!("{} lines for 10,050 persisting series over two flushes", n));
    }
    peer.refuse();
}

// ---------------------------------------------------------------------------

pub fn wmem_max() -> usize {
    std::fs::read_to_string("/proc/sys/net/ipv4/tcp_wmem").ok().and_then(|s| s.split_whitespace().nth(2).and_then(|x| x.parse().ok())).unwrap_or(4 << 20)
}

pub fn s02(a: &Args, rep: &mut Rep) {
    let big = wmem_max() + (1 << 20);
    run_cases(a, rep, |r, rep| {
        let mut peer = Peer::new();
        peer.rcvbuf = 8192;
        let late_start = r.chance(25);
        if !late_start {
            peer.open();
        }
        let mut wf = Wavefront::init(WavefrontConfig {
            bin_width: 1,
            host: peer.ip.clone(),
            port: peer.port,
            percentiles: vec![],
            tags: tagmap(&vec![("source".to_string(), "x".to_string())]),
            ..Default::default()
        });
        let mut log: Vec<String> = vec![];
        let tally = wf_tally();
        let (mut cuts, mut breaks) = (0u64, 0u64);
        let mut pending_fault = late_start;
        if late_start {
            let d = r.below(120);
            log.push(format!("refused for {} ms at start", d));
            peer.open_after(d);
            rep.add("refused_at_start", 1);
        }
        // line -> times it may legitimately be repeated (None: exactly once)
        let mut want: BTreeMap<String, bool> = BTreeMap::new();
        let mut seq = 0;
        let nfl = r.range(1, 6);
        for f in 0..nfl {
            let mid = r.chance(35);
            let total = if mid { big } else { *r.pick(&[60usize, 2_000, 40_000, 400_000]) };
            let namelen = if mid { 4000 } else { *r.pick(&[6usize, 60, 900]) };
            let mut sz = 0;
            let mut lines = vec![];
            while sz < total {
                seq += 1;
                let name = format!("n{}.{}", seq, "x".repeat(namelen));
                let ts = 1000 + r.below(5) as i64;
                wf.deliver(mk(&name, AM::Sum, seq as f64, &[], ts, false, &[]));
                let l = format!("{} {} {} source=x", name, seq, ts);
                sz += l.len() + 1;
                lines.push(l);
            }
            let mut faulty = pending_fault;
            pending_fault = false;
            if mid {
                // The connection the flush uses ends while it is being written:
                // the current one is replaced by one that does.
                let n = r.range(1, 3);
                let mut plan = vec![];
                for _ in 0..n {
                    let k = match r.below(4) {
                        0 => 0,
                        1 => r.below(100) as usize,
                        2 => r.below(20_000) as usize,
                        _ => r.below(1 << 20) as usize,
                    };
                    plan.push(if r.chance(50) { Fault::CloseAfter(k) } else { Fault::ResetAfter(k) });
                }
                log.push(format!("flush {} of {} bytes cut by {:?}", f, sz, plan));
                cuts += n as u64;
                breaks += 1;
                *peer.plan.lock().unwrap() = plan;
                peer.drop_all(true);
                thread::sleep(Duration::from_millis(3));
                faulty = true;
                rep.add("mid_flush_faults", n as u64);
            } else {
                log.push(format!("flush {} of {} bytes", f, sz));
            }
            for l in lines {
                want.insert(l, faulty);
            }
            wf.flush();
            rep.add("flushes", 1);
            // All of it arrives before the next trouble starts.
            let due = want.len();
            wait_until(Duration::from_secs(20), || distinct_lines(&peer) >= due);
            if r.chance(50) {
                let reset = r.chance(50);
                let refuse = r.chance(40);
                let d = r.below(60);
                log.push(format!("between: {}{}", if reset { "reset" } else { "close" }, if refuse { format!(", refused for {} ms", d) } else { String::new() }));
                if refuse {
                    peer.refuse();
                }
                breaks += 1;
                peer.drop_all(reset);
                thread::sleep(Duration::from_millis(3));
                if refuse {
                    peer.open_after(d);
                }
                // Nothing is in flight: the next flush still arrives exactly
                // once, on the new connection.
                rep.add("between_faults", 1);
            }
        }
        rep.seen(&log);
        wf.shutdown();
        wait_until(Duration::from_secs(20), || peer.quiet());
        let conns = peer.conns.lock().unwrap();
        let n = want.len() as u64;
        tally.judge(rep, &[("sum", n, n), ("delivery.success", nfl as u64, nfl as u64 + 1), ("delivery.failure", cuts, cuts + breaks)], &log.join("; "));
        let mut got: BTreeMap<String, usize> = BTreeMap::new();
        for c in conns.iter() {
            let text = String::from_utf8_lossy(&c.bytes).to_string();
            for l in text.split_inclusive_nl() {
                if !l.ends_with('\n') {
                    if c.fault == Fault::None {
                        rep.viol("cut-line", format!("a connection without trouble ends in {:?} after {:?}", clip(l, 200), log));
                    } else if !want.keys().any(|w| w.starts_with(l)) {
                        rep.viol("spliced-line", format!("{:?} is no prefix of a line after {:?}", clip(l, 200), log));
                    }
                    continue;
                }
                *got.entry(l.trim_end_matches('\n').to_string()).or_insert(0) += 1;
                rep.add("lines", 1);
            }
        }
        for l in got.keys() {
            if !want.contains_key(l) {
                rep.viol("spliced-line", format!("{:?} was never a line, after {:?}", clip(l, 300), log));
                break;
            }
        }
        let lost: Vec<_> = want.keys().filter(|l| !got.contains_key(*l)).map(|l| clip(l, 40)).collect();
        if !lost.is_empty() {
            rep.viol("lost-line", format!("{} of {} lines never arrived ({:?}) after {:?}", lost.len(), want.len(), &lost[..lost.len().min(3)], log));
        }
        if let Some((l, n)) = got.iter().find(|(l, n)| **n > 1 && want.get(*l) == Some(&false)) {
            rep.viol("repeated-line", format!("{:?} arrived {} times although its flush met no trouble, after {:?}", clip(l, 60), n, log));
        }
        rep.add("lines_due", want.len() as u64);
        rep.add("connections", conns.len() as u64);
        rep.sample(log.join("; "));
        drop(conns);
        peer.refuse();
    });
}

fn distinct_lines(p: &Peer) -> usize {
    let mut s = BTreeSet::new();
    for c in p.conns.lock().unwrap().iter() {
        for l in c.bytes.split(|b| *b == b'\n') {
            // complete lines only; an id is enough
            if let Some(i) = l.iter().position(|b| *b == b'.') {
                if l.ends_with(b"source=x") {
                    s.insert(l[..i].to_vec());
                }
            }
        }
    }
    s.len()
}

// ---------------------------------------------------------------------------

/// Standard output of this process, captured in a file.
struct Capture {
    path: String,
    at: usize,
}

impl Capture {
    fn new(dir: &str) -> Capture {
        let path = format!("{}/stdout", dir);
        let f = std::fs::File::create(&path).expect("HARNESS stdout");
        unsafe {
            libc::dup2(f.as_raw_fd(), 1);
        }
        Capture { path, at: 0 }
    }
    fn take(&mut self) -> String {
        let _ = std::io::stdout().flush();
        let b = std::fs::read(&self.path).expect("HARNESS stdout");
        let s = String::from_utf8_lossy(&b[self.at..]).to_string();
        self.at = b.len();
        s
    }
}

pub fn s08(a: &Args, rep: &mut Rep) {
    let mut cap = Capture::new(&a.work);
    run_cases(a, rep, |r, rep| {
        cap.take();
        let mut now = crate::clock::tick(r);
        let width = *r.pick(&[1i64, 1, 2, 10]);
        let nd = r.below(4);
        let dflt = plain_tags(r, nd);
        let mut c = Console::init(ConsoleConfig { config_path: None, bin_width: width, flush_interval: 60, tags: tagmap(&dflt) });
        let mut m = Model::new(width);
        let bounds = if r.chance(50) { vec![1.0, 10.0, 100.0, 1000.0] } else { vec![-2.5, 0.0, 7.0] };
        let nser = r.range(1, 6);
        let mut series = vec![];
        for i in 0..nser {
            let nt = *r.pick(&[0u64, 1, 3]);
            let kind = *r.pick(&KINDS);
            let persist = if kind == AM::Set || kind == AM::Sum { r.below(3) } else { 0 };
            series.push((format!("s{}.{}", if r.chance(70) { i } else { 0 }, kind_word(kind)), plain_tags(r, nt), kind, persist));
        }
        let nflush = r.range(1, 4);
        let mut log: Vec<String> = vec![];
        let base = *r.pick(&[now - 20, 5, 1_000_000_000]);
        for _ in 0..nflush {
            let mut lines: Vec<(LogLine, Tags)> = vec![];
            let mut want: BTreeMap<String, Vec<f64>> = BTreeMap::new();
            for _ in 0..*r.pick(&[0u64, 1, 5, 30]) {
                if r.chance(25) {
                    let nt = r.below(4);
                    let t = plain_tags(r, nt);
                    let words = text(r, 5).replace('\n', "/");
                    let mut l = LogLine::new(format!("/var/log/l{}", r.below(5)), words).time(*r.pick(&[0i64, 1, 1_500_000_000, -5, i64::max_value(), i64::min_value()]));
                    for (k, v) in &t {
                        l = l.overlay_tag(k.clone(), v.clone());
                    }
                    if r.chance(30) {
                        l = l.insert_field("field".to_string(), "fv".to_string());
                    }
                    log.push(format!("line {:?}", l.value));
                    lines.push((l.clone(), visible(&t, &dflt)));
                    c.deliver_line(l);
                } else {
                    let s = r.pick(&series).clone();
                    let mut vals = vec![value(r)];
                    if s.2 == AM::Summarize || s.2 == AM::Histogram {
                        for _ in 0..*r.pick(&[0u64, 1, 5, 40]) {
                            vals.push(value(r));
                        }
                    }
                    let ts = base + r.range(0, 12);
                    let p = Point { name: s.0.clone(), tags: s.1.clone(), kind: s.2, vals, bounds: bounds.clone(), ts, persist: s.3 == 1 || (s.3 == 2 && r.chance(50)) };
                    log.push(format!("add {} {:?} {:?} {:?} ts={} p={}", p.name, p.tags, p.kind, p.vals, p.ts, p.persist));
                    c.deliver(p.telem(r));
                    m.add(&p);
                    rep.add("points", 1);
                }
            }
            if r.chance(40) {
                now = crate::clock::tick(r);
                rep.add("clock_moves", 1);
            }
            log.push(format!("flush at {}", now));
            for (key, bins) in &m.map {
                for b in bins {
                    let mut put = |sec: &str, k: String, v: f64| want.entry(format!("{}|{}", sec, k)).or_insert_with(Vec::new).push(v);
                    match b.v {
                        MV::Set(x) => put("sets", format!("{}({})", key.0, b.ts), x),
                        MV::Sum(x) => put("sums", format!("{}({})", key.0, b.ts), x),
                        MV::Hist { ref bounds, ref samples } => {
                            for (i, n) in bin_counts(bounds, samples).iter().enumerate() {
                                let bn = if i < bounds.len() { bounds[i].to_string() } else { "pos_inf".to_string() };
                                put("histograms", format!("{}_{}({})", key.0, bn, b.ts), *n as f64);
                            }
                        }
                        MV::Quant { ref samples } => {
                            let t = sketch(samples);
                            for (n, q) in &[("min", 0.0), ("max", 1.0), ("50", 0.5), ("90", 0.9), ("99", 0.99), ("999", 0.999)] {
                                put("summaries", format!("{}: {}", key.0, n), t.query(*q).unwrap());
                            }
                        }
                    }
                }
            }
            let wlines: Vec<String> = lines
                .iter()
                .map(|(l, t)| {
                    let tm = cernan::time::utc(l.time).format("%Y-%m-%dT%H:%M:%S%.3fZ");
                    let mut s = format!("{} {}: {}", tm, l.path, l.value);
                    let mut t: Vec<String> = t.iter().map(|(k, v)| format!(" {}={}", k, v)).collect();
                    t.sort();
                    for x in t {
                        s.push_str(&x);
                    }
                    s
                })
                .collect();
            if r.chance(85) {
                c.flush();
            } else {
                c.shutdown();
                check_console(&cap.take(), &wlines, &want, &log, &dflt, rep);
                rep.add("shutdown_prints", 1);
                return;
            }
            m.reset(now);
            let out = cap.take();
            check_console(&out, &wlines, &want, &log, &dflt, rep);
            rep.sample(clip(&out, 500));
        }
        rep.seen(&log);
    });
}

fn check_console(out: &str, wlines: &[String], want: &BTreeMap<String, Vec<f64>>, log: &[String], _dflt: &Tags, rep: &mut Rep) {
    let mut sec = "";
    let mut lines = vec![];
    let mut got: BTreeMap<String, Vec<f64>> = BTreeMap::new();
    for l in out.split('\n') {
        if l.starts_with("Flushing lines: ") {
            sec = "lines";
        } else if l.starts_with("Flushing metrics: ") {
            sec = "metrics";
        } else if sec != "lines" && l.starts_with("  ") && !l.starts_with("    ") {
            sec = match l.trim() {
                "sums:" => "sums",
                "sets:" => "sets",
                "summaries:" => "summaries",
                "histograms:" => "histograms",
                _ => {
                    rep.viol("console-section", format!("unexpected {:?}", l));
                    return;
                }
            };
        } else if l.is_empty() && sec != "lines" {
        } else if sec == "lines" {
            lines.push(l.to_string());
        } else {
            let (k, v) = if sec == "summaries" {
                let i = l.rfind(' ').unwrap_or(0);
                (l[..i].trim(), &l[i..])
            } else {
                let i = l.rfind(':').unwrap_or(0);
                (l[..i].trim(), l[i..].trim_start_matches(':'))
            };
            match v.trim().parse::<f64>() {
                Ok(v) => got.entry(format!("{}|{}", sec, k)).or_insert_with(Vec::new).push(v),
                Err(_) => {
                    rep.viol("console-format", format!("unexpected {:?} in {}", l, sec));
                    return;
                }
            }
        }
    }
    rep.add("flushes_compared", 1);
    rep.add("lines_compared", wlines.len() as u64);
    rep.add("values_compared", want.values().map(|v| v.len() as u64).sum());
    // Tags of a line come in any order.
    let ok = lines.len() == wlines.len()
        && lines.iter().zip(wlines).all(|(g, w)| {
            let norm = |s: &str| {
                let mut p: Vec<&str> = s.split(' ').collect();
                p.sort();
                p.join(" ")
            };
            norm(g) == norm(w) && g[..g.len().min(20)] == w[..w.len().min(20)]
        });
    if !ok {
        rep.viol("console-lines", format!("printed {:?} expected {:?}", lines, wlines));
        return;
    }
    for (k, v) in want {
        let g = sorted(got.get(k).map_or(&[][..], |x| &x[..]));
        let e = sorted(v);
        if g.len() != e.len() || g.iter().zip(&e).any(|(a, b)| !close(*a, *b)) {
            rep.viol("console-value", format!("{} printed {:?} expected {:?} after {}", k, g, e, log.join("; ")));
            return;
        }
    }
    if let Some(k) = got.keys().find(|k| !want.contains_key(*k)) {
        rep.viol("console-stray", format!("{} {:?} stands for nothing delivered, after {}", k, got[k], log.join("; ")));
    }
}
