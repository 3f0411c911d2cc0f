//! I01..I04: the real sources fed over loopback sockets, their output observed
//! at a collecting queue.
use crate::common::*;
use crate::h::*;
use crate::metricm::{close, own_tags};
use cernan::metric::{AggregationMethod as AM, Encoding, Event, Telemetry};
use cernan::source::*;
use cernan::thread::{Stoppable, ThreadHandle};
use hopper::Sender;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream, UdpSocket};
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::thread;
use std::time::{Duration, Instant};

pub type Log = Shared<Vec<(Instant, Event)>>;

pub fn free_port() -> u16 {
    std::net::TcpListener::bind("127.0.0.1:0").expect("HARNESS port").local_addr().unwrap().port()
}

/// A queue whose every event is recorded on arrival.
pub fn collector(dir: &str, name: &str) -> (Sender<Event>, Log) {
    let (s, rx) = hopper::channel_with_explicit_capacity::<Event>(name, Path::new(dir), 60_000 * std::mem::size_of::<Event>(), 1 << 22, 1000).expect("HARNESS channel");
    let log: Log = shared(vec![]);
    let l = log.clone();
    thread::spawn(move || {
        for e in rx.into_iter() {
            let last = e == Event::Shutdown;
            l.lock().unwrap().push((Instant::now(), e));
            if last {
                break;
            }
        }
    });
    (s, log)
}

pub struct Src {
    pub handle: Option<ThreadHandle>,
    pub log: Log,
    pub port: u16,
}

impl Src {
    pub fn start<S, C, F>(dir: &str, f: F) -> Src
    where
        S: Source<C> + Send,
        C: Send + Clone + 'static,
        F: Fn(u16) -> C,
    {
        for _ in 0..30 {
            let port = free_port();
            let (s, log) = collector(dir, "src");
            let cfg = f(port);
            // Another process may take the port first.
            if let Ok(r) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| S::new(vec![s], cfg))) {
                let h = r.run();
                return Src { handle: Some(h), log, port };
            }
            take_panics();
        }
        harness_fail("no free port");
    }
    pub fn len(&self) -> usize {
        self.log.lock().unwrap().len()
    }
    pub fn events(&self) -> Vec<Event> {
        self.log.lock().unwrap().iter().map(|x| x.1.clone()).collect()
    }
    /// True if the source ended within the bound.
    pub fn stop(&mut self, limit: Duration) -> bool {
        let h = self.handle.take().unwrap();
        let done = Arc::new(AtomicBool::new(false));
        let d = done.clone();
        thread::spawn(move || {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| h.shutdown()));
            d.store(true, Ordering::SeqCst);
        });
        wait_until(limit, || done.load(Ordering::SeqCst) && self.log.lock().unwrap().last().map_or(false, |e| e.1 == Event::Shutdown))
    }
}

/// The counters cernan keeps about itself, as its internal source reports them.
pub struct Counters {
    log: Log,
}

impl Counters {
    pub fn start(dir: &str) -> Counters {
        let (s, log) = collector(&format!("{}/counters", dir), "internal");
        Internal::new(vec![s], InternalConfig::default()).run();
        Counters { log }
    }
    pub fn totals(&self) -> BTreeMap<String, f64> {
        let mut m = BTreeMap::new();
        for (_, e) in self.log.lock().unwrap().iter() {
            if let Event::Telemetry(t) = e {
                *m.entry(t.name.clone()).or_insert(0.0) += t.sum().or(t.set()).unwrap_or(0.0);
            }
        }
        m
    }
    /// Compares with what was expected once the reporter has caught up.
    pub fn settle(&self, rep: &mut Rep, want: &BTreeMap<String, (u64, u64)>) {
        let ok = |c: &Counters| {
            let t = c.totals();
            want.iter().all(|(k, (lo, hi))| {
                let v = t.get(k).cloned().unwrap_or(0.0);
                v >= *lo as f64 && v <= *hi as f64
            })
        };
        thread::sleep(Duration::from_millis(2300));
        if !wait_until(Duration::from_secs(8), || ok(self)) {
            rep.viol("counters", format!("self-telemetry totals {:?}, expected {:?} (lowest, highest)", self.totals(), want));
        }
        rep.add("counters_compared", want.len() as u64);
    }
}

pub fn tasks() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}
pub fn fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

/// Writes `data` in random pieces with random pauses.
pub fn chunked(r: &mut Rng, s: &mut TcpStream, data: &[u8], style: u64) -> std::io::Result<()> {
    let mut i = 0;
    while i < data.len() {
        let n = match style {
            0 => data.len() - i,
            1 => r.range(1, 3) as usize,
            2 => r.range(1, 40) as usize,
            _ => r.range(1, 5000) as usize,
        };
        // Much is not sent byte by byte.
        let n = (n * (1 + data.len() / 60_000)).min(data.len() - i);
        s.write_all(&data[i..i + n])?;
        i += n;
        if style != 0 {
            match r.below(if data.len() > 2000 { 400 } else { 8 }) {
                0 => thread::sleep(Duration::from_millis(r.below(4))),
                1 | 2 => thread::yield_now(),
                3 => thread::sleep(Duration::from_micros(r.below(400))),
                _ => {}
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// I01 statsd

#[derive(Clone, Debug)]
struct Want {
    name: String,
    kind: AM,
    val: f64,
    persist: bool,
    bounds: Vec<f64>,
    at: i64,
}

fn num(r: &mut Rng) -> String {
    match r.below(9) {
        0 => r.below(1000).to_string(),
        1 => format!("{}", r.f() * 1e6),
        2 => format!("{:e}", r.f() * 1e12),
        3 => format!("{:.3}", r.f() * 10.0),
        4 => "0".to_string(),
        5 => format!("{}", r.next() >> 11),
        6 => ".5".to_string(),
        7 => "7.".to_string(),
        _ => format!("00{}", r.below(100)),
    }
}

const NAMEC: [&str; 20] = ["a", "b", "req", "time", ".", "_", "-", "/", "é", "日本", " ", "0", "9", "|", "@", "#", ";", "=", "%", ","];

fn sname(r: &mut Rng, masks: &[(&str, Vec<f64>)], tag: &str) -> String {
    let mut s = String::new();
    if r.chance(50) && !masks.is_empty() {
        s.push_str(r.pick(&masks).0.trim_start_matches('^').trim_end_matches("\\d+"));
        if r.chance(50) {
            s.push_str(&r.below(50).to_string());
        }
    }
    if r.below(150) == 0 {
        let n = *r.pick(&[200i64, 250, 1_000, 1_020, 4_080, 8_180]) + r.range(0, 20);
        s.push_str(&"n".repeat(n as usize));
    }
    let n = if r.chance(5) { 60 } else { 6 };
    for _ in 0..r.range(1, n) {
        s.push_str(*r.pick(&NAMEC));
    }
    format!("{}~{}", s, tag)
}

/// A well-formed line and what it means.
fn good_line(r: &mut Rng, masks: &[(&str, Vec<f64>)], tag: &str) -> (String, Want) {
    let name = sname(r, masks, tag);
    let sign = *r.pick(&["", "", "", "+", "-"]);
    let v = format!("{}{}", sign, num(r));
    let ty = *r.pick(&["c", "g", "ms", "h"]);
    let (rate, rtxt) = if r.chance(40) {
        let t = r.pick(&["0.1", "0.5", "1", "1.0", "0.01", "0.25", "2", "1e-1"]).to_string();
        (t.parse::<f64>().unwrap(), format!("{}@{}", if r.chance(60) { "|" } else { "" }, t))
    } else {
        (1.0, String::new())
    };
    let val: f64 = v.parse::<f64>().unwrap() / rate;
    let (kind, persist, bounds) = match ty {
        "c" => (AM::Sum, false, vec![]),
        "g" => (if sign.is_empty() { AM::Set } else { AM::Sum }, true, vec![]),
        _ => match masks.iter().find(|m| mask_match(m.0, &name)) {
            Some(m) => (AM::Histogram, false, m.1.clone()),
            None => (AM::Summarize, false, vec![]),
        },
    };
    (format!("{}:{}|{}{}", name, v, ty, rtxt), Want { name, kind, val, persist, bounds, at: 0 })
}

/// The masks used are of three shapes this understands by itself.
fn mask_match(m: &str, name: &str) -> bool {
    if m.ends_with("\\d+") {
        let p = m.trim_end_matches("\\d+");
        let mut rest = name;
        while let Some(i) = rest.find(p) {
            if rest[i + p.len()..].starts_with(|c: char| c.is_ascii_digit()) {
                return true;
            }
            rest = &rest[i + p.len()..];
        }
        false
    } else if m.starts_with('^') {
        name.starts_with(&m[1..])
    } else {
        name.contains(m)
    }
}

fn bad_line(r: &mut Rng, tag: &str) -> Vec<u8> {
    let good = *r.pick(&["1|c", "2|g", "3|ms", "4|h"]);
    let n = format!("bad~{}", tag);
    match r.below(16) {
        0 => n.into_bytes(),
        1 => format!("{} {}", n, "1").into_bytes(),
        2 => format!("{}:1", n).into_bytes(),
        3 => format!("{}:", n).into_bytes(),
        4 => format!(":{}", good).into_bytes(),
        5 => format!("{}:x1|c", n).into_bytes(),
        6 => format!("{}:|c", n).into_bytes(),
        7 => format!("{}:1|", n).into_bytes(),
        8 => format!("{}:1|q", n).into_bytes(),
        9 => format!("{}:1|c|@", n).into_bytes(),
        10 => format!("{}:1|c|@x", n).into_bytes(),
        11 => format!("{}:{}|{}", n, r.pick(&["NaN", "inf", "-inf", "infinity", "1e999"]), r.pick(&["c", "g", "ms"])).into_bytes(),
        12 => format!("{}:1|{}|@{}", n, r.pick(&["c", "g", "h"]), r.pick(&["0", "NaN", "inf", "-1"])).into_bytes(),
        13 => format!("{}:--1|g", n).into_bytes(),
        14 => format!("{}:1 2|c", n).into_bytes(),
        _ => format!("{}:1|zz@0.5", n).into_bytes(),
    }
}

fn check_telem(w: &Want, e: &Event) -> Option<String> {
    let t = match e {
        Event::Telemetry(t) => t,
        e => return Some(format!("not telemetry: {}", fp(e))),
    };
    if t.name != w.name || t.kind() != w.kind || t.persist != w.persist {
        return Some(format!("name {:?} kind {:?} persist {}", t.name, t.kind(), t.persist));
    }
    if t.timestamp != w.at {
        return Some(format!("timestamp {}, received at {}", t.timestamp, w.at));
    }
    if !own_tags(t).is_empty() {
        return Some(format!("tags {:?}", own_tags(t)));
    }
    let c = |x: Option<f64>| x.map_or(false, |y| y == w.val || close(y, w.val));
    let ok = match w.kind {
        AM::Sum => c(t.sum()),
        AM::Set => c(t.set()),
        AM::Summarize => t.count() == 1 && c(t.query(0.5)) && c(t.samples_sum()),
        AM::Histogram => {
            let want: Vec<(String, usize)> = hist_bins(&w.bounds, &[w.val]);
            let got: Vec<(String, usize)> = t.bins().map(|b| b.map(|x| (format!("{:?}", x.0), x.1)).collect()).unwrap_or_default();
            t.count() == 1 && got == want && c(t.samples_sum())
        }
    };
    if !ok {
        return Some(format!("value: {}", fp(e)));
    }
    None
}

/// Bins as the histogram prints them: finite upper bounds, then infinity.
pub fn hist_bins(bounds: &[f64], samples: &[f64]) -> Vec<(String, usize)> {
    let mut out = Vec::new();
    let mut lo = std::f64::NEG_INFINITY;
    for b in bounds {
        out.push((format!("Finite({:?})", b), samples.iter().filter(|x| **x > lo && **x <= *b).count()));
        lo = *b;
    }
    out.push(("PosInf".to_string(), samples.iter().filter(|x| **x > lo).count()));
    out
}

pub fn i01(a: &Args, rep: &mut Rep) {
    let cnt = Counters::start(&a.work);
    let mut good = 0u64;
    let mut bad = 0u64;
    let mut either = 0u64;
    run_cases(a, rep, |r, rep| {
        let dir = format!("{}/c{}", a.work, rep.case);
        let all: Vec<(&str, Vec<f64>)> = vec![("req", vec![1.0, 10.0]), ("^time", vec![0.5]), ("b\\d+", vec![-5.0, 0.0, 5.0, 100.0])];
        let masks: Vec<(&str, Vec<f64>)> = all.into_iter().filter(|_| r.chance(50)).collect();
        let eps = *r.pick(&[0.01, 0.0005, 0.1]);
        let mut now = crate::clock::tick(r);
        let mut src = Src::start::<Statsd, _, _>(&dir, |port| StatsdConfig {
            host: "127.0.0.1".to_string(),
            port,
            forwards: vec![],
            config_path: None,
            parse_config: StatsdParseConfig {
                histogram_masks: masks.iter().map(|m| (toml_regex(m.0), m.1.clone())).collect(),
                summarize_error_bound: eps,
            },
        });
        let socks: Vec<UdpSocket> = (0..r.range(1, 3)).map(|_| UdpSocket::bind("127.0.0.1:0").expect("HARNESS udp")).collect();
        let mut want: Vec<Want> = Vec::new();
        let mut shown: Vec<String> = Vec::new();
        let mut batch = 0;
        // Telemetry an unspecified packet produced must not be charged to others.
        let mut fuzzed: Vec<String> = Vec::new();
        let npk = r.range(3, if a.thorough { 120 } else { 50 });
        for p in 0..npk {
            let mut pkt: Vec<u8> = Vec::new();
            let mode = r.below(10);
            // As much as a datagram takes, when the socket's buffer is empty.
            let most = batch == 0 && r.chance(15);
            let nl = match r.below(8) {
                _ if most => 10_000,
                0 => r.range(10, 400),
                1 | 2 => 1,
                _ => r.range(1, 8),
            };
            let limit = if most { r.range(20_000, 56_000) as usize } else { 50_000 };
            let mut mine = Vec::new();
            let mut is_bad = false;
            let badat = if mode < 4 && mode > 0 { Some(r.below(nl as u64 / if most { 10 } else { 1 })) } else { None };
            for i in 0..nl {
                if i > 0 {
                    pkt.extend_from_slice(if r.chance(10) { b"\r\n" } else { b"\n" });
                }
                if Some(i as u64) == badat {
                    pkt.extend_from_slice(&bad_line(r, &format!("{}.{}", p, i)));
                    is_bad = true;
                } else {
                    let (l, w) = good_line(r, &masks, &format!("{}.{}", p, i));
                    pkt.extend_from_slice(l.as_bytes());
                    mine.push(w);
                }
                if pkt.len() > limit {
                    break;
                }
            }
            if r.chance(50) && !pkt.ends_with(b"\n") {
                pkt.push(b'\n');
            }
            if pkt.len() > 32_768 {
                rep.add("packets_over_32k", 1);
            }
            let mut fuzz = false;
            if mode == 0 {
                // Anything at all.
                fuzz = true;
                match r.below(5) {
                    0 => {
                        let n = r.below(300);
                        pkt = bytes(r, n);
                    }
                    1 => pkt = vec![],
                    2 => {
                        let n = r.below(60) + 1;
                        for _ in 0..n {
                            if pkt.is_empty() {
                                break;
                            }
                            let i = r.below(pkt.len() as u64) as usize;
                            match r.below(3) {
                                0 => pkt[i] = r.next() as u8,
                                1 => {
                                    pkt.remove(i);
                                }
                                _ => pkt.insert(i, *r.pick(b":|@\ngcms+-.0e")),
                            }
                        }
                    }
                    3 => {
                        let n = r.below(200) + 1;
                        pkt = (0..n).map(|_| *r.pick(b":|@\ngcmsh+-.0e19aN")).collect()
                    }
                    _ => {
                        let i = r.below(pkt.len() as u64 + 1) as usize;
                        pkt.insert(i, 0xff);
                    }
                }
            }
            assert!(fuzz || pkt.len() < 65_500);
            pkt.truncate(65_000);
            socks[r.below(socks.len() as u64) as usize].send_to(&pkt, ("127.0.0.1", src.port)).expect("HARNESS send");
            batch += pkt.len() + 800;
            if fuzz {
                either += 1;
                fuzzed.push(clip(&format!("{:?}", String::from_utf8_lossy(&pkt)), 300));
            } else if is_bad {
                bad += 1;
                rep.add("bad_packets", 1);
            } else {
                good += 1;
                rep.add("good_packets", 1);
                rep.add("good_lines", mine.len() as u64);
                for mut w in mine {
                    w.at = now;
                    want.push(w);
                }
            }
            if shown.len() < 6 {
                shown.push(clip(&String::from_utf8_lossy(&pkt), 200));
            }
            if fuzz || batch > 60_000 || p == npk - 1 || r.chance(10) {
                // Everything so far is through when the sentinel is.
                let s = format!("sentinel~{}", p);
                socks[0].send_to(format!("{}:{}|c", s, p).as_bytes(), ("127.0.0.1", src.port)).expect("HARNESS send");
                good += 1;
                let seen = wait_until(Duration::from_secs(10), || src.log.lock().unwrap().iter().any(|e| id_of(&e.1) == s));
                if !seen {
                    rep.viol("stuck", format!("no answer to a well-formed packet after {:?} (panics {:?})", shown.last(), take_panics()));
                    return;
                }
                batch = 0;
                if fuzz {
                    // What it produced is its own affair; nothing later is.
                    let evs = src.events();
                    let cut = evs.len() - 1;
                    let n: usize = want.len();
                    let extra = cut as i64 - n as i64;
                    if extra < 0 {
                        rep.viol("lost", format!("{} telemetry expected, {} arrived", n, cut));
                        return;
                    }
                    // keep the log aligned: forget the unspecified ones
                    let mut l = src.log.lock().unwrap();
                    l.truncate(n);
                    rep.add("fuzzed_packets", 1);
                } else {
                    let mut l = src.log.lock().unwrap();
                    l.pop();
                }
                now = crate::clock::tick(r);
                rep.add("clock_moves", 1);
            }
        }
        let evs = src.events();
        // Packets of several sockets keep their own order only.
        let mut got: BTreeMap<String, Vec<Event>> = BTreeMap::new();
        for e in &evs {
            got.entry(id_of(e)).or_default().push(e.clone());
        }
        if evs.len() != want.len() {
            rep.viol("count", format!("{} lines were well-formed, {} telemetry came out; names not asked for: {:?}; packets {:?}", want.len(), evs.len(), got.keys().filter(|k| !want.iter().any(|w| w.name == **k)).take(5).collect::<Vec<_>>(), shown));
        }
        for w in &want {
            let g = got.get(&w.name).cloned().unwrap_or_default();
            if g.len() != 1 {
                rep.viol("line-count", format!("{:?} came out {} times", w, g.len()));
                continue;
            }
            if let Some(m) = check_telem(w, &g[0]) {
                rep.viol("meaning", format!("{:?} came out as {}", w, m));
            }
        }
        if let Some(Event::Telemetry(t)) = evs.iter().find(|e| if let Event::Telemetry(t) = e { t.kind() == AM::Summarize } else { false }) {
            if eps < 0.001 && r.chance(30) {
                check_error_bound(rep, t.clone(), eps, r);
            }
        }
        rep.seen(&(shown.clone(), npk));
        rep.sample(format!("masks {:?}, error bound {}, first packets {:?}", masks, eps, shown));
        if !src.stop(Duration::from_secs(10)) {
            rep.viol("stop", "source did not end within 10 s of its shutdown".to_string());
        }
        let p = take_panics();
        if !p.is_empty() {
            rep.viol("panic", p.join(" | "));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    let mut want = BTreeMap::new();
    want.insert("cernan.statsd.packet".to_string(), (good, good + either));
    want.insert("cernan.statsd.bad_packet".to_string(), (bad, bad + either));
    cnt.settle(rep, &want);
    let t = cnt.totals();
    let sum = t.get("cernan.statsd.packet").unwrap_or(&0.0) + t.get("cernan.statsd.bad_packet").unwrap_or(&0.0);
    if rep.viols.is_empty() && sum != (good + bad + either) as f64 {
        rep.viol("counters", format!("{} packets were sent, {} were counted good or bad", good + bad + either, sum));
    }
}

fn toml_regex(s: &str) -> regex::Regex {
    regex::Regex::new(s).expect("HARNESS regex")
}

/// The bound the source was configured with, judged by what the point does
/// with more samples.
fn check_error_bound(rep: &mut Rep, t: Telemetry, eps: f64, r: &mut Rng) {
    let first = t.query(0.5).unwrap();
    let mut all = vec![first];
    let mut t = t;
    for _ in 0..4000 {
        let v = r.f() * 1e6;
        all.push(v);
        t = t.insert(v);
    }
    all.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for q in [0.1, 0.3, 0.5, 0.7, 0.9].iter() {
        let v = t.query(*q).unwrap();
        let rank = all.iter().filter(|x| **x <= v).count() as f64;
        let want = q * all.len() as f64;
        if (rank - want).abs() > 2.0 * eps * all.len() as f64 + 3.0 {
            rep.viol("error-bound", format!("configured error bound {}: quantile {} has rank {} of {}", eps, q, rank, all.len()));
        }
    }
    rep.add("error_bounds_checked", 1);
}

// ---------------------------------------------------------------------------
// I02 graphite

pub fn i02(a: &Args, rep: &mut Rep) {
    let cnt = Counters::start(&a.work);
    let (mut good, mut badlo, mut badhi) = (0u64, 0u64, 0u64);
    run_cases(a, rep, |r, rep| {
        let dir = format!("{}/c{}", a.work, rep.case);
        let mut src = Src::start::<Graphite, TCPConfig, _>(&dir, |port| GraphiteConfig { host: "127.0.0.1".to_string(), port, forwards: vec![], config_path: None }.into());
        let nc = r.range(1, if a.thorough { 24 } else { 8 }) as usize;
        thread::sleep(Duration::from_millis(2));
        let (base_t, base_f) = (tasks(), fds());
        let mut want: Vec<Vec<(String, f64, i64)>> = Vec::new();
        let mut jobs = Vec::new();
        let hold = Arc::new(AtomicUsize::new(0));
        let mut sample = String::new();
        for c in 0..nc {
            let mut data: Vec<u8> = Vec::new();
            let mut w = Vec::new();
            let mut quiet = false;
            let n = if r.chance(10) { r.below(600) } else { r.below(40) };
            for i in 0..n {
                quiet = true;
                let mut name = format!("c{}.{}.{}", c, i, *r.pick(&["x", "é", "日本.cpu", "a-b_c%", "load@1", "🦀"]));
                // Lines longer than any buffer on the way.
                if r.below(if data.len() < 3_000_000 { 100 } else { 1_000_000 }) == 0 {
                    let k = r.range(0, 40);
                    let n = *r.pick(&[300i64, 4_090, 8_170, 8_180, 16_370, 65_500, 65_510, 131_060, 300_000, 1_040_000]) + k;
                    name.push_str(&"n".repeat(n as usize));
                    rep.add("long_lines", 1);
                }
                match r.below(12) {
                    0 => {
                        badlo += 1;
                        badhi += 1;
                        let bad: Vec<u8> = match r.below(9) {
                            0 => name.clone().into_bytes(),
                            1 => format!("{} 1", name).into_bytes(),
                            2 => format!("{} x 15", name).into_bytes(),
                            3 => format!("{} 1 yesterday", name).into_bytes(),
                            4 => format!("{} 1 2 extra", name).into_bytes(),
                            5 => format!("{} NaN 15", name).into_bytes(),
                            6 => format!("{} 1 99999999999999999999", name).into_bytes(),
                            7 => {
                                let mut b = name.clone().into_bytes();
                                b.extend_from_slice(&[0xff, 0xc3, b' ', b'1', b' ', b'2']);
                                b
                            }
                            _ => {
                                let mut b = format!("{} 1 1", name).into_bytes();
                                b.push(0xe6);
                                b
                            }
                        };
                        data.extend_from_slice(&bad);
                        data.push(b'\n');
                    }
                    1 if r.chance(30) => {
                        badhi += 1;
                        data.push(b'\n');
                    }
                    _ => {
                        good += 1;
                        let v = format!("{}{}", r.pick(&["", "", "-", "+"]), num(r));
                        let ts = match r.below(4) {
                            0 => *r.pick(&[0i64, -1, 1, 1_500_000_000, 253_402_300_799, std::i64::MAX, std::i64::MIN]),
                            1 => (r.next() >> r.below(64)) as i64,
                            2 => -((r.next() >> 1 >> r.below(63)) as i64),
                            _ => r.range(1_000_000_000, 2_000_000_000),
                        };
                        let sep = *r.pick(&[" ", " ", "  ", "\t"]);
                        data.extend_from_slice(format!("{}{}{}{}{}{}", name, sep, v, sep, ts, r.pick(&["\n", "\n", "\r\n", " \n"])).as_bytes());
                        w.push((name, v.parse::<f64>().unwrap(), ts));
                        quiet = false;
                    }
                }
            }
            if c == 0 {
                sample = clip(&String::from_utf8_lossy(&data), 300);
            }
            want.push(w);
            // How the client leaves: nothing, a dangling fragment, or silence.
            // A bad last line leaves no trace to wait for but the handler's end.
            let leave = r.below(if quiet { 3 } else { 4 });
            if leave == 1 {
                data.extend_from_slice(b"dangling");
                badhi += 1;
            }
            let style = r.below(4);
            let seed = r.next();
            let port = src.port;
            let hold = hold.clone();
            jobs.push(thread::spawn(move || {
                let mut rr = Rng::new(seed, 1);
                let mut s = TcpStream::connect(("127.0.0.1", port)).expect("HARNESS connect");
                let _ = s.set_nodelay(true);
                thread::sleep(Duration::from_millis(rr.below(6)));
                chunked(&mut rr, &mut s, &data, style).expect("HARNESS write");
                hold.fetch_add(1, Ordering::SeqCst);
                if leave == 2 {
                    let _ = s.shutdown(Shutdown::Write);
                    let mut b = [0; 8];
                    let _ = s.set_read_timeout(Some(Duration::from_secs(10)));
                    let _ = s.read(&mut b);
                }
                if leave == 3 {
                    return Some(s); // kept open
                }
                None
            }));
        }
        let open: Vec<Option<TcpStream>> = jobs.into_iter().map(|j| j.join().expect("HARNESS writer")).collect();
        let total: usize = want.iter().map(|w| w.len()).sum();
        let got_all = wait_until(Duration::from_secs(20), || src.len() >= total);
        let kept = open.iter().filter(|o| o.is_some()).count();
        // Handlers of closed connections end; those of open ones stay.
        let released = wait_until(Duration::from_secs(20), || tasks() <= base_t + kept && fds() <= base_f + kept * 6);
        let evs = src.events();
        if !released {
            rep.viol("leak", format!("{} of {} connections are still open; threads {} (before any connection {}), descriptors {} ({})", kept, nc, tasks(), base_t, fds(), base_f));
        }
        rep.add("connections", nc as u64);
        rep.add("lines_expected", total as u64);
        if !got_all || evs.len() != total {
            rep.viol("count", format!("{} well-formed lines, {} telemetry; panics {:?}", total, evs.len(), take_panics()));
        }
        let mut per: Vec<Vec<&Telemetry>> = vec![vec![]; nc];
        for e in &evs {
            if let Event::Telemetry(t) = e {
                let c = t.name.trim_start_matches('c').split('.').next().and_then(|x| x.parse::<usize>().ok());
                match c {
                    Some(c) if c < nc => per[c].push(t),
                    _ => rep.viol("foreign", format!("{} was never sent", clip(&fp(e), 300))),
                }
            } else {
                rep.viol("foreign", fp(e));
            }
        }
        for c in 0..nc {
            for (i, (n, v, ts)) in want[c].iter().enumerate() {
                match per[c].get(i) {
                    Some(t) if t.name == *n && t.kind() == AM::Set && t.set() == Some(*v) && t.timestamp == *ts && own_tags(t).is_empty() && !t.persist => {}
                    other => {
                        rep.viol("meaning", format!("connection {} line {}: {:?} ({} bytes) {} {} came out as {:?}", c, i, clip(n, 200), n.len(), v, ts, other.map(|t| clip(&fp_telem(t), 300))));
                        break;
                    }
                }
            }
        }
        rep.seen(&(h64(&sample), total, nc));
        rep.sample(format!("{} connections ({} left open), {} lines; first: {:?}", nc, kept, total, sample));
        if !src.stop(Duration::from_secs(10)) {
            rep.viol("stop", format!("source did not end within 10 s of its shutdown with {} idle connections", kept));
        }
        drop(open);
        let p = take_panics();
        if !p.is_empty() {
            rep.viol("panic", p.join(" | "));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    let mut want = BTreeMap::new();
    want.insert("cernan.graphite.packet".to_string(), (good, good));
    want.insert("cernan.graphite.telemetry.received".to_string(), (good, good));
    want.insert("cernan.graphite.bad_packet".to_string(), (badlo, badhi));
    if rep.viols.is_empty() {
        cnt.settle(rep, &want);
    }
}

// ---------------------------------------------------------------------------
// I03 native

#[derive(Default)]
pub struct Pb(pub Vec<u8>);

impl Pb {
    pub fn varint(&mut self, mut v: u64) {
        loop {
            let b = (v & 0x7f) as u8;
            v >>= 7;
            if v == 0 {
                self.0.push(b);
                return;
            }
            self.0.push(b | 0x80);
        }
    }
    pub fn key(&mut self, f: u64, w: u64) {
        self.varint(f << 3 | w)
    }
    pub fn blob(&mut self, f: u64, b: &[u8]) {
        self.key(f, 2);
        self.varint(b.len() as u64);
        self.0.extend_from_slice(b);
    }
    pub fn int(&mut self, f: u64, v: u64) {
        self.key(f, 0);
        self.varint(v)
    }
    pub fn dbl(&mut self, f: u64, v: f64) {
        self.key(f, 1);
        self.0.extend_from_slice(&v.to_bits().to_le_bytes());
    }
    pub fn map(&mut self, f: u64, k: &str, v: &str) {
        let mut e = Pb::default();
        e.blob(1, k.as_bytes());
        e.blob(2, v.as_bytes());
        self.blob(f, &e.0);
    }
}

#[derive(Clone, Debug)]
pub enum NWant {
    T { name: String, method: u64, samples: Vec<f64>, bounds: Option<Vec<f64>>, persist: bool, ts: i64, tags: BTreeMap<String, String> },
    L { path: String, value: String, ts: i64, tags: BTreeMap<String, String> },
}

fn fval(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => r.below(100) as f64,
        1 => -(r.below(100) as f64) / 8.0,
        2 => (r.f() - 0.5) * 1e9,
        3 => 0.0,
        _ => r.f() * 100.0,
    }
}

fn ms_of(r: &mut Rng) -> i64 {
    match r.below(4) {
        0 => *r.pick(&[0i64, 1999, 1_500_000_000_123, 1, 999, 86_400_000, 4_102_444_800_000, std::i64::MAX, std::i64::MIN]),
        1 => (r.next() >> 1 >> r.below(63)) as i64,
        2 => -1000 * ((r.next() >> 12 >> r.below(50)) as i64),
        _ => r.range(1_000_000_000_000, 2_000_000_000_000),
    }
}

pub fn gen_payload(r: &mut Rng, id: &str, big: bool) -> (Vec<u8>, Vec<NWant>) {
    let mut w = Vec::new();
    let mut lw = Vec::new();
    let mut points = Vec::new();
    let mut lines = Vec::new();
    let np = if big { r.range(100, 400) } else { r.below(5) as i64 };
    for i in 0..np {
        let name = format!("{}.p{}{}", id, i, text(r, 1));
        let method = r.range(0, 4) as u64; // 0: left out, summarize by default
        let ns = match r.below(40) {
            0 => r.range(100, 3000) as u64,
            1 | 2 => r.range(10, 100) as u64,
            _ => *r.pick(&[0u64, 1, 1, 2, 5, 12]),
        };
        let all: Vec<f64> = (0..ns).map(|_| if r.chance(2) { *r.pick(&[std::f64::NAN, std::f64::INFINITY, std::f64::NEG_INFINITY]) } else { fval(r) }).collect();
        // What is no finite number cannot be aggregated and is left out.
        let samples: Vec<f64> = all.iter().cloned().filter(|v| v.is_finite()).collect();
        let ms = ms_of(r);
        let persist = r.below(3);
        let mut tags = BTreeMap::new();
        let nt = if r.chance(3) { r.range(8, 40) as u64 } else { r.below(4) };
        for k in 0..nt {
            tags.insert(format!("k{}{}", k, text(r, 1)), text(r, 2));
        }
        let bounds = if method == 4 && r.chance(70) {
            let mut b: Vec<f64> = if r.chance(50) {
                (0..r.range(1, 5)).map(|x| x as f64 * 10.0 - 20.0).collect()
            } else {
                (0..r.range(1, 24)).map(|_| fval(r)).collect()
            };
            b.sort_by(|x, y| x.partial_cmp(y).unwrap());
            b.dedup();
            Some(b)
        } else {
            None
        };
        let mut parts: Vec<Vec<u8>> = Vec::new();
        let mut part = |f: &mut dyn FnMut(&mut Pb)| {
            let mut p = Pb::default();
            f(&mut p);
            parts.push(p.0);
        };
        part(&mut |p| p.blob(1, name.as_bytes()));
        let packed = r.chance(60);
        part(&mut |p| {
            if packed {
                let mut b = Vec::new();
                for s in &all {
                    b.extend_from_slice(&s.to_bits().to_le_bytes());
                }
                p.blob(2, &b);
            } else {
                for s in &all {
                    p.dbl(2, *s);
                }
            }
        });
        if persist > 0 {
            part(&mut |p| p.int(3, persist - 1));
        }
        if method > 0 {
            part(&mut |p| p.int(4, method));
        }
        for (k, v) in &tags {
            part(&mut |p| p.map(5, k, v));
        }
        part(&mut |p| p.int(6, ms as u64));
        if let Some(b) = &bounds {
            part(&mut |p| {
                for x in b {
                    p.dbl(7, *x);
                }
            });
        }
        if r.chance(20) {
            part(&mut |p| p.int(99, 7)); // a field this version does not know
        }
        r.shuffle(&mut parts);
        points.push(parts.concat());
        if !samples.is_empty() {
            w.push(NWant::T { name, method, samples, bounds, persist: persist == 2, ts: ms / 1000, tags });
        }
    }
    let nl = if big { r.range(50, 300) } else { r.below(4) as i64 };
    for i in 0..nl {
        let path = format!("{}.l{}{}", id, i, text(r, 1));
        let value = text(r, if big { 40 } else { 6 });
        let ms = ms_of(r);
        let mut tags = BTreeMap::new();
        for k in 0..r.below(3) {
            tags.insert(format!("k{}", k), text(r, 2));
        }
        let mut p = Pb::default();
        p.blob(1, path.as_bytes());
        p.blob(2, value.as_bytes());
        for (k, v) in &tags {
            p.map(3, k, v);
        }
        p.int(4, ms as u64);
        lines.push(p.0);
        lw.push(NWant::L { path, value, ts: ms / 1000, tags });
    }
    let mut pb = Pb::default();
    // Fields of a message may come in any order; the lists keep their own.
    let (mut pi, mut li) = (0, 0);
    while pi < points.len() || li < lines.len() {
        if li >= lines.len() || (pi < points.len() && r.chance(70)) {
            pb.blob(2, &points[pi]);
            pi += 1;
        } else {
            pb.blob(3, &lines[li]);
            li += 1;
        }
    }
    w.extend(lw);
    (pb.0, w)
}

pub fn check_nwant(w: &NWant, e: &Event, counts: bool) -> Option<String> {
    match (w, e) {
        (NWant::T { name, method, samples, bounds, persist, ts, tags }, Event::Telemetry(t)) => {
            let kind = match method {
                1 => AM::Sum,
                2 => AM::Set,
                4 => AM::Histogram,
                _ => AM::Summarize,
            };
            let sum: f64 = samples.iter().sum();
            if t.name != *name || t.kind() != kind || t.persist != *persist || t.timestamp != *ts || own_tags(t) != *tags {
                return Some("fields".to_string());
            }
            let near = |x: Option<f64>, y: f64| x.map_or(false, |x| x == y || (x - y).abs() <= 1e-9 * samples.iter().map(|s| s.abs()).sum::<f64>().max(1e-300));
            let ok = match kind {
                AM::Sum => near(t.sum(), sum),
                AM::Set => t.set() == samples.last().cloned(),
                AM::Summarize => {
                    let mut s = samples.clone();
                    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    (!counts || t.count() == samples.len()) && near(t.samples_sum(), sum) && t.query(0.0) == s.first().cloned() && t.query(1.0) == s.last().cloned()
                }
                AM::Histogram => {
                    let got: Vec<(String, usize)> = t.bins().map(|b| b.map(|x| (format!("{:?}", x.0), x.1)).collect()).unwrap_or_default();
                    t.count() == samples.len() && near(t.samples_sum(), sum) && bounds.as_ref().map_or(true, |b| got == hist_bins(b, samples))
                }
            };
            if ok {
                None
            } else {
                Some("values".to_string())
            }
        }
        (NWant::L { path, value, ts, tags }, Event::Log(l)) => {
            if l.path != *path || l.value != *value || l.time != *ts || log_tags(l) != *tags || !l.fields.is_empty() {
                Some("line".to_string())
            } else {
                None
            }
        }
        _ => Some("another kind of event".to_string()),
    }
}

pub fn framed(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(b);
    v
}

fn bad_proto(r: &mut Rng) -> Vec<u8> {
    let (good, _) = gen_payload(r, "never", false);
    match r.below(5) {
        // a field longer than the message
        0 => {
            let mut p = Pb(good);
            p.key(2, 2);
            p.varint(1000);
            p.0.push(1);
            p.0
        }
        // wire types that do not exist
        1 => {
            let mut g = good;
            g.push(2 << 3 | 7);
            g
        }
        // endless varint
        2 => {
            let mut g = good;
            g.extend_from_slice(&[0xff; 12]);
            g
        }
        // text that is not UTF-8
        3 => {
            let mut t = Pb(vec![]);
            t.blob(1, &[0xff, 0xfe]);
            let mut p = Pb(good);
            p.blob(3, &t.0);
            p.0
        }
        // a point cut short
        _ => {
            let mut t = Pb(vec![]);
            t.blob(1, b"never.cut");
            t.0.pop();
            let mut p = Pb(good);
            p.blob(2, &t.0);
            p.0
        }
    }
}

pub fn i03(a: &Args, rep: &mut Rep) {
    let cnt = Counters::start(&a.work);
    let (mut good, mut bad) = (0u64, 0u64);
    run_cases(a, rep, |r, rep| {
        let dir = format!("{}/c{}", a.work, rep.case);
        let mut src = Src::start::<NativeServer, TCPConfig, _>(&dir, |port| NativeServerConfig { ip: "127.0.0.1".to_string(), port, forwards: vec![], config_path: None }.into());
        let nc = r.range(1, if a.thorough { 16 } else { 6 }) as usize;
        let mut want: Vec<Vec<NWant>> = Vec::new();
        let mut jobs = Vec::new();
        let mut malformed = 0;
        let mut npay = 0;
        for c in 0..nc {
            let mut data = Vec::new();
            let mut w = Vec::new();
            let mut quiet = false;
            for i in 0..r.below(8) {
                let big = r.chance(8);
                let (p, e) = gen_payload(r, &format!("c{}.{}", c, i), big);
                if p.len() > 1_048_576 {
                    continue;
                }
                data.extend_from_slice(&framed(&p));
                quiet = e.is_empty();
                w.extend(e);
                good += 1;
                npay += 1;
            }
            // The connection's last act.
            match r.below(6) {
                0 | 1 => {
                    let b = bad_proto(r);
                    data.extend_from_slice(&framed(&b));
                    bad += 1;
                    malformed += 1;
                    quiet = true;
                }
                2 => {
                    // cut inside a payload or its prefix
                    let (p, _) = gen_payload(r, "never", false);
                    let f = framed(&p);
                    let n = r.below(f.len() as u64) as usize;
                    data.extend_from_slice(&f[..n]);
                }
                3 => data.extend_from_slice(&[0x7f, 0xff, 0xff, 0xff, 1, 2, 3]),
                _ => {}
            }
            want.push(w);
            let style = r.below(4);
            let seed = r.next();
            let port = src.port;
            // What leaves no event behind has been dealt with once the
            // source closes the connection.
            let keep = !quiet && r.chance(30);
            jobs.push(thread::spawn(move || {
                let mut rr = Rng::new(seed, 1);
                let mut s = TcpStream::connect(("127.0.0.1", port)).expect("HARNESS connect");
                let _ = s.set_nodelay(true);
                // The source may close first after bad input.
                let _ = chunked(&mut rr, &mut s, &data, style);
                if keep {
                    Some(s)
                } else {
                    let _ = s.shutdown(std::net::Shutdown::Write);
                    let _ = s.set_read_timeout(Some(Duration::from_secs(20)));
                    let _ = s.read(&mut [0; 16]);
                    None
                }
            }));
        }
        let open: Vec<Option<TcpStream>> = jobs.into_iter().map(|j| j.join().expect("HARNESS writer")).collect();
        let total: usize = want.iter().map(|w| w.len()).sum();
        wait_until(Duration::from_secs(20), || src.len() >= total);
        // Still serving.
        {
            let mut s = TcpStream::connect(("127.0.0.1", src.port)).expect("HARNESS connect");
            let mut l = Pb::default();
            l.blob(1, b"sentinel");
            let mut p = Pb::default();
            p.blob(3, &l.0);
            let _ = s.write_all(&framed(&p.0));
            good += 1;
            if !wait_until(Duration::from_secs(15), || src.log.lock().unwrap().iter().any(|e| id_of(&e.1) == "sentinel")) {
                rep.viol("stuck", format!("a well-formed payload on a new connection was not processed; panics {:?}", take_panics()));
                return;
            }
        }
        thread::sleep(Duration::from_millis(3));
        let evs: Vec<Event> = src.events().into_iter().filter(|e| id_of(e) != "sentinel").collect();
        rep.add("payloads", npay);
        rep.add("malformed_payloads", malformed);
        rep.add("events_expected", total as u64);
        let mut per: Vec<Vec<&Event>> = vec![vec![]; nc];
        for e in &evs {
            match id_of(e).trim_start_matches('c').split('.').next().and_then(|x| x.parse::<usize>().ok()) {
                Some(c) if c < nc => per[c].push(e),
                _ => rep.viol("foreign", format!("{} should not have come out", fp(e))),
            }
        }
        for c in 0..nc {
            if per[c].len() != want[c].len() {
                rep.viol("count", format!("connection {}: {} events encoded, {} came out; panics {:?}", c, want[c].len(), per[c].len(), take_panics()));
            }
            for (i, w) in want[c].iter().enumerate() {
                if let Some(e) = per[c].get(i) {
                    if let Some(m) = check_nwant(w, e, true) {
                        rep.viol("meaning", format!("connection {} event {} ({}): sent {:?}\n got {}", c, i, m, w, fp(e)));
                        break;
                    }
                }
            }
        }
        rep.seen(&(npay, total, nc, malformed, rep.case));
        rep.sample(format!("{} connections, {} payloads with {} events, {} malformed; first event {:?}", nc, npay, total, malformed, want.iter().flatten().next()));
        if !src.stop(Duration::from_secs(10)) {
            rep.viol("stop", "source did not end within 10 s of its shutdown".to_string());
        }
        drop(open);
        let p = take_panics();
        if !p.is_empty() {
            rep.viol("panic", p.join(" | "));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    let mut want = BTreeMap::new();
    want.insert("cernan.native.payload.success".to_string(), (good, good));
    want.insert("cernan.native.payload.parse.failure".to_string(), (bad, bad));
    if rep.viols.is_empty() {
        cnt.settle(rep, &want);
    }
}

// ---------------------------------------------------------------------------
// I04 avro

fn containers() -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for f in &["data-deflate", "data-null", "data-snappy", "users-deflate", "users-null", "users-snappy"] {
        if let Ok(b) = std::fs::read(format!("/repo/resources/tests/data/{}.avro", f)) {
            v.push(b);
        }
    }
    // One of our own: a container header with a trivial schema and no blocks.
    let mut b = b"Obj\x01".to_vec();
    b.push(4);
    for (k, val) in &[("avro.codec", "null"), ("avro.schema", "\"string\"")] {
        b.push((k.len() * 2) as u8);
        b.extend_from_slice(k.as_bytes());
        b.push((val.len() * 2) as u8);
        b.extend_from_slice(val.as_bytes());
    }
    b.push(0);
    b.extend_from_slice(&[7; 16]);
    v.push(b);
    v
}

fn zigzag(v: i64) -> Vec<u8> {
    let mut n = ((v << 1) ^ (v >> 63)) as u64;
    let mut o = Vec::new();
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            o.push(b);
            return o;
        }
        o.push(b | 0x80);
    }
}

/// A container that begins with the right magic and is not one.
fn hostile_container(r: &mut Rng) -> Vec<u8> {
    let mut b = b"Obj\x01".to_vec();
    let huge = *r.pick(&[
        i64::max_value(), i64::min_value(), -1, -2, 1 << 20, 1 << 31, 1 << 33, 1 << 40, 1 << 45, 1 << 62,
        0x7fff_ffff, 0xffff_ffff,
    ]);
    let entry = |b: &mut Vec<u8>, k: &[u8], v: &[u8]| {
        b.extend_from_slice(&zigzag(k.len() as i64));
        b.extend_from_slice(k);
        b.extend_from_slice(&zigzag(v.len() as i64));
        b.extend_from_slice(v);
    };
    let finish = |b: &mut Vec<u8>| {
        b.push(0);
        b.extend_from_slice(&[9; 16]);
    };
    match r.below(10) {
        0 => b.extend_from_slice(&zigzag(huge)), // entries
        1 => {
            b.extend_from_slice(&zigzag(2));
            b.extend_from_slice(&zigzag(huge)); // a key's length
            b.extend_from_slice(b"avro.schema");
        }
        2 => {
            b.extend_from_slice(&zigzag(2));
            entry(&mut b, b"avro.codec", b"null");
            b.extend_from_slice(&zigzag(11));
            b.extend_from_slice(b"avro.schema");
            b.extend_from_slice(&zigzag(huge)); // a value's length
            b.extend_from_slice(b"\"string\"");
            finish(&mut b);
        }
        3 => {
            b.extend_from_slice(&zigzag(-2));
            b.extend_from_slice(&zigzag(huge)); // a block's size, which nobody needs
            entry(&mut b, b"avro.codec", b"null");
            finish(&mut b);
        }
        4 => {
            // a schema nested too deep for any parser
            let n = *r.pick(&[100usize, 127, 128, 1000, 40_000]);
            let mut s = String::new();
            for _ in 0..n {
                s.push_str("{\"type\":\"array\",\"items\":");
            }
            b.extend_from_slice(&zigzag(1));
            entry(&mut b, b"avro.schema", s.as_bytes());
            finish(&mut b);
        }
        5 => {
            let s = *r.pick(&[
                "", "null0", "{}", "[]", "3", "{\"type\":\"record\"}", "{\"type\":\"fixed\",\"name\":\"f\",\"size\":-4}x",
                "{\"type\":\"record\",\"name\":\"r\",\"fields\":[{\"name\":\"a\",\"type\":{\"type\":\"enum\",\"name\":\"r\",\"symbols\":[]}}]}",
                "{\"type\":\"map\"}", "\"nobody\"",
            ]);
            b.extend_from_slice(&zigzag(1));
            entry(&mut b, b"avro.schema", s.as_bytes());
            finish(&mut b);
        }
        6 => {
            b.extend_from_slice(&zigzag(2));
            entry(&mut b, b"avro.schema", b"\"string\"");
            entry(&mut b, b"avro.codec", b"zstandard");
            finish(&mut b);
        }
        7 => {
            b.extend_from_slice(&zigzag(2));
            entry(&mut b, b"avro.schema", b"\"string\"");
            entry(&mut b, b"avro.codec\xff", b"null"); // not UTF-8
            finish(&mut b);
        }
        8 => {
            // cut short of its sync marker
            b.extend_from_slice(&zigzag(1));
            entry(&mut b, b"avro.schema", b"\"string\"");
            finish(&mut b);
            let n = b.len() - r.range(1, 16) as usize;
            b.truncate(n);
        }
        _ => {
            // a varint without an end
            let n = r.range(10, 40) as usize;
            b.extend(std::iter::repeat(0xff).take(n));
        }
    }
    b
}

#[derive(Clone, Debug)]
struct AWant {
    key: u64,
    order_by: u64,
    meta: Option<BTreeMap<Vec<u8>, Vec<u8>>>,
    blob: u64,
    sync: bool,
    id: u64,
}

fn avro_payload(r: &mut Rng, blob: &[u8], n: u64) -> (Vec<u8>, AWant) {
    let version = r.below(3) as u32;
    let sync = r.chance(40);
    let control = (r.next() as u32 & !1) | sync as u32;
    let id = r.next();
    // Unique, so that events can be told apart whatever else they carry.
    let order_by = n << 32 | r.below(1 << 32);
    let mut v = Vec::new();
    v.extend_from_slice(&version.to_be_bytes());
    v.extend_from_slice(&control.to_be_bytes());
    v.extend_from_slice(&id.to_be_bytes());
    v.extend_from_slice(&order_by.to_be_bytes());
    let mut meta = None;
    if version == 2 {
        let nk = *r.pick(&[0u64, 0, 1, 2, 5, 255]);
        let mut m = BTreeMap::new();
        v.push(nk as u8);
        for k in 0..nk {
            let mut key = format!("{}", k).into_bytes();
            let n = r.below(if nk > 100 { 4 } else { 250 });
            key.extend_from_slice(&bytes(r, n));
            let n = if nk < 6 && r.chance(10) { 65_535 } else { r.below(40) };
            let val = bytes(r, n);
            v.push(key.len() as u8);
            v.extend_from_slice(&key);
            v.extend_from_slice(&(val.len() as u16).to_be_bytes());
            v.extend_from_slice(&val);
            m.insert(key, val);
        }
        if nk > 0 {
            meta = Some(m);
        }
    }
    v.extend_from_slice(blob);
    (v, AWant { key: order_by, order_by, meta, blob: h64(blob), sync, id })
}

pub fn i04(a: &Args, rep: &mut Rep) {
    let cnt = Counters::start(&a.work);
    let (mut good, mut bad) = (0u64, 0u64);
    let pool = containers();
    if pool.len() < 2 {
        harness_fail("sample containers are missing");
    }
    run_cases(a, rep, |r, rep| {
        let dir = format!("{}/c{}", a.work, rep.case);
        let mut src = Src::start::<Avro, TCPConfig, _>(&dir, |port| TCPConfig { host: "127.0.0.1".to_string(), port, forwards: vec![], config_path: None });
        // The downstream that publishes and acknowledges.
        // Every other seed, so that the rest can compare counters.
        let hold_one = a.seed % 2 == 0 && r.chance(30);
        let released: Shared<BTreeMap<u64, Instant>> = shared(BTreeMap::new());
        let stop_ack = Arc::new(AtomicBool::new(false));
        {
            let (log, rel, stop) = (src.log.clone(), released.clone(), stop_ack.clone());
            let mut rr = Rng::new(r.next(), 2);
            let slow = r.chance(40);
            thread::spawn(move || {
                let mut next = 0;
                let mut due: Vec<(Instant, u64, uuid::Uuid)> = Vec::new();
                while !stop.load(Ordering::SeqCst) {
                    {
                        let l = log.lock().unwrap();
                        while next < l.len() {
                            if let Event::Raw { order_by, connection_id: Some(c), .. } = &l[next].1 {
                                if !hold_one || rr.chance(70) {
                                    let d = if slow { rr.below(120) } else { rr.below(4) };
                                    due.push((Instant::now() + Duration::from_millis(d), *order_by, *c));
                                }
                            }
                            next += 1;
                        }
                    }
                    let now = Instant::now();
                    let mut i = 0;
                    while i < due.len() {
                        if due[i].0 <= now {
                            let (_, k, c) = due.swap_remove(i);
                            rel.lock().unwrap().insert(k, Instant::now());
                            cernan::metric::global_ack_bag().with_props(c, |p| p.ack());
                        } else {
                            i += 1;
                        }
                    }
                    thread::sleep(Duration::from_micros(500));
                }
            });
        }
        let nc = r.range(1, 5) as usize;
        let mut want: Vec<Vec<AWant>> = Vec::new();
        let mut jobs = Vec::new();
        let mut nbad = 0;
        let mut serial = 0;
        for c in 0..nc {
            let mut data = Vec::new();
            let mut w: Vec<AWant> = Vec::new();
            for _ in 0..r.below(if a.thorough { 20 } else { 8 }) {
                let mut blob = r.pick(&pool).clone();
                if r.chance(20) {
                    // trailing blocks are the client's business
                    let n = if r.chance(20) { 200_000 } else { 300 };
                    blob.extend_from_slice(&bytes(r, n));
                }
                serial += 1;
                let (p, x) = avro_payload(r, &blob, (c as u64) << 20 | serial);
                if p.len() > 1_048_576 {
                    continue;
                }
                data.extend_from_slice(&framed(&p));
                w.push(x);
            }
            let end = r.below(9);
            let blob = r.pick(&pool).clone();
            let (p, x) = avro_payload(r, &blob, 0xffff_ffff);
            match end {
                0 => {
                    let n = r.below(24);
                    data.extend_from_slice(&framed(&p[..n as usize]));
                    nbad += 1;
                }
                1 => {
                    let junk = bytes(r, 50);
                    let mut q = p[..24].to_vec();
                    q[3] = 0; // version 0: no metadata
                    q.extend_from_slice(&junk);
                    data.extend_from_slice(&framed(&q));
                    nbad += 1;
                }
                2 => {
                    // metadata that runs past the end
                    let mut q = p[..24].to_vec();
                    q[0..4].copy_from_slice(&2u32.to_be_bytes());
                    q.extend_from_slice(&[3, 200, 1, 2]);
                    data.extend_from_slice(&framed(&q));
                    nbad += 1;
                }
                3 => {
                    let mut q = p[..24].to_vec();
                    q[3] = 0;
                    let cut = r.range(0, 3) as usize;
                    q.extend_from_slice(&blob[..cut]);
                    data.extend_from_slice(&framed(&q));
                    nbad += 1;
                }
                7 | 8 => {
                    let mut q = p[..24].to_vec();
                    q[3] = 0;
                    q.extend_from_slice(&hostile_container(r));
                    data.extend_from_slice(&framed(&q));
                    nbad += 1;
                }
                4 => {
                    let f = framed(&p);
                    let n = r.below(f.len() as u64) as usize;
                    data.extend_from_slice(&f[..n]);
                }
                _ => {}
            }
            let _ = x;
            let wait_bad = end < 4 || end > 6;
            let w2 = w.clone();
            want.push(w);
            let style = *r.pick(&[0u64, 2, 3, 3]);
            let seed = r.next();
            let port = src.port;
            jobs.push(thread::spawn(move || {
                let mut rr = Rng::new(seed, 1);
                let mut s = TcpStream::connect(("127.0.0.1", port)).expect("HARNESS connect");
                let _ = s.set_nodelay(true);
                let mut rs = s.try_clone().expect("HARNESS clone");
                let need = w2.iter().filter(|x| x.sync).count();
                let reader = thread::spawn(move || {
                    let mut acks: Vec<(Instant, u64)> = Vec::new();
                    let mut buf: Vec<u8> = Vec::new();
                    let _ = rs.set_read_timeout(Some(Duration::from_millis(if hold_one { 700 } else { 15_000 })));
                    let mut tail = need == 0;
                    if tail {
                        let _ = rs.set_read_timeout(Some(Duration::from_millis(if wait_bad && !hold_one { 20_000 } else { 60 })));
                    }
                    loop {
                        let mut b = [0; 64];
                        match rs.read(&mut b) {
                            Ok(0) => break,
                            Ok(n) => {
                                buf.extend_from_slice(&b[..n]);
                                while buf.len() >= 8 {
                                    let mut x = [0; 8];
                                    x.copy_from_slice(&buf[..8]);
                                    acks.push((Instant::now(), u64::from_be_bytes(x)));
                                    buf.drain(..8);
                                }
                            }
                            Err(_) => break,
                        }
                        if acks.len() >= need && !tail {
                            tail = true; // nothing more may come
                            let _ = rs.set_read_timeout(Some(Duration::from_millis(if wait_bad && !hold_one { 20_000 } else { 60 })));
                        }
                    }
                    (acks, buf.len())
                });
                let _ = chunked(&mut rr, &mut s, &data, style);
                let res = reader.join().expect("HARNESS reader");
                drop(s);
                res
            }));
        }
        let res: Vec<(Vec<(Instant, u64)>, usize)> = jobs.into_iter().map(|j| j.join().expect("HARNESS client")).collect();
        let total: usize = want.iter().map(|w| w.len()).sum();
        if !hold_one {
            wait_until(Duration::from_secs(15), || src.len() >= total);
        }
        let still = {
            let blob = pool[0].clone();
            let mut q = vec![0; 24];
            q.extend_from_slice(&blob);
            let mut s = TcpStream::connect(("127.0.0.1", src.port)).expect("HARNESS connect");
            let n = src.len();
            let _ = s.write_all(&framed(&q));
            let _ = n;
            wait_until(Duration::from_secs(15), || src.log.lock().unwrap().iter().any(|e| if let Event::Raw { order_by: 0, .. } = e.1 { true } else { false }))
        };
        if !still {
            rep.viol("stuck", format!("a well-formed payload on a new connection was not processed; panics {:?}", take_panics()));
            return;
        }
        let evs = src.events();
        let rel = released.lock().unwrap().clone();
        let mut seen = 0u64;
        for c in 0..nc {
            let mine: Vec<&Event> = evs.iter().filter(|e| if let Event::Raw { order_by, .. } = e { *order_by != 0 && (*order_by >> 52) as usize == c } else { false }).collect();
            seen += mine.len() as u64;
            // An unacknowledged synchronous payload holds up those behind it.
            if !hold_one && mine.len() != want[c].len() || mine.len() > want[c].len() {
                rep.viol("count", format!("connection {}: {} payloads, {} raw events", c, want[c].len(), mine.len()));
            }
            for (i, w) in want[c].iter().enumerate() {
                if let Some(Event::Raw { order_by, encoding, bytes, metadata, connection_id }) = mine.get(i) {
                    let m: Option<BTreeMap<Vec<u8>, Vec<u8>>> = metadata.as_ref().map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
                    let enc = if let Encoding::Avro = encoding { true } else { false };
                    if *order_by != w.order_by || !enc || h64(bytes) != w.blob || m != w.meta || connection_id.is_none() {
                        rep.viol("content", format!("connection {} payload {}: {:?} came out as {}", c, i, w, fp(mine[i])));
                    }
                }
            }
            let ids: Vec<u64> = want[c].iter().filter(|w| w.sync).map(|w| w.id).collect();
            let got: Vec<u64> = res[c].0.iter().map(|x| x.1).collect();
            let ok = if hold_one { ids.starts_with(&got) } else { ids == got };
            if !ok || res[c].1 != 0 {
                rep.viol("acks", format!("connection {}: acknowledgements {:x?} (+{} bytes), due {:x?} (some withheld: {})", c, got, res[c].1, ids, hold_one));
            }
            rep.add("acks_seen", got.len() as u64);
            let sy: Vec<&AWant> = want[c].iter().filter(|w| w.sync).collect();
            for (i, (at, _)) in res[c].0.iter().enumerate() {
                if let Some(w) = sy.get(i) {
                    match rel.get(&w.key) {
                        Some(t) if t <= at => {}
                        x => rep.viol("early-ack", format!("connection {}: acknowledgement {} seen {:?} before the event was acknowledged downstream ({:?})", c, i, x.map(|t| *t - *at), w)),
                    }
                }
            }
        }
        if let Some(e) = evs.iter().find(|e| if let Event::Raw { order_by, .. } = e { (*order_by >> 32) == 0xffff_ffff } else { false }) {
            rep.viol("malformed-accepted", fp(e));
        }
        if !hold_one {
            good += total as u64 + 1;
            bad += nbad;
        } else {
            rep.add("cases_with_withheld_acks", 1);
        }
        rep.add("payloads", seen);
        rep.add("malformed_payloads", nbad);
        rep.seen(&(rep.case, total, nc));
        rep.sample(format!("{} connections, {} payloads ({} synchronous), {} malformed, acks withheld: {}", nc, total, want.iter().flatten().filter(|w| w.sync).count(), nbad, hold_one));
        if !src.stop(Duration::from_secs(12)) {
            rep.viol("stop", format!("source did not end within 12 s of its shutdown (acknowledgements withheld: {})", hold_one));
        }
        stop_ack.store(true, Ordering::SeqCst);
        let p = take_panics();
        if !p.is_empty() {
            rep.viol("panic", p.join(" | "));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    if rep.viols.is_empty() && !rep.ctr.contains_key("cases_with_withheld_acks") {
        let mut want = BTreeMap::new();
        want.insert("cernan.avro.payload.success".to_string(), (good, good));
        want.insert("cernan.avro.payload.parse.failure".to_string(), (bad, bad));
        cnt.settle(rep, &want);
    }
}
