//! S03: the prometheus sink, scraped over HTTP while points arrive.
use crate::common::*;
use crate::h::*;
use crate::metricm::{close, value, KINDS};
use crate::sinks::*;
use cernan::metric::AggregationMethod as AM;
use cernan::sink::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::net::TcpStream;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::thread;
use std::time::{Duration, Instant};

// --- an HTTP client that checks the framing of what it reads ---------------

pub struct Answer {
    status: u16,
    headers: BTreeMap<String, String>,
    pub body: Vec<u8>,
}

pub struct Client {
    s: TcpStream,
    buf: Vec<u8>,
}

impl Client {
    pub fn open(ip: &str, port: u16) -> Option<Client> {
        let s = TcpStream::connect((ip, port)).ok()?;
        s.set_read_timeout(Some(Duration::from_secs(20))).ok()?;
        Some(Client { s, buf: vec![] })
    }
    fn fill(&mut self) -> Result<bool, String> {
        let mut b = [0u8; 32768];
        match self.s.read(&mut b) {
            Ok(0) => Ok(false),
            Ok(n) => {
                self.buf.extend_from_slice(&b[..n]);
                Ok(true)
            }
            Err(e) => Err(format!("{} with {} bytes unread", e, self.buf.len())),
        }
    }
    fn line(&mut self) -> Result<String, String> {
        loop {
            if let Some(i) = self.buf.windows(2).position(|w| w == b"\r\n") {
                let l: Vec<u8> = self.buf.drain(..i + 2).collect();
                return String::from_utf8(l[..i].to_vec()).map_err(|_| "a header that is not text".to_string());
            }
            if !self.fill()? {
                return Err(format!("the connection ended after {:?}", String::from_utf8_lossy(&self.buf)));
            }
        }
    }
    fn exactly(&mut self, n: usize) -> Result<Vec<u8>, String> {
        while self.buf.len() < n {
            if !self.fill()? {
                return Err(format!("the body ended after {} of {} bytes", self.buf.len(), n));
            }
        }
        Ok(self.buf.drain(..n).collect())
    }
    pub fn ask(&mut self, req: &str) -> Result<(), String> {
        self.s.write_all(req.as_bytes()).map_err(|e| format!("sending: {}", e))
    }
    pub fn answer(&mut self) -> Result<Answer, String> {
        let st = self.line()?;
        let f: Vec<&str> = st.splitn(3, ' ').collect();
        if f.len() < 2 || !f[0].starts_with("HTTP/1.") {
            return Err(format!("status line {:?}", st));
        }
        let status: u16 = f[1].parse().map_err(|_| format!("status line {:?}", st))?;
        let mut headers = BTreeMap::new();
        loop {
            let l = self.line()?;
            if l.is_empty() {
                break;
            }
            let i = l.find(':').ok_or_else(|| format!("header {:?}", l))?;
            headers.insert(l[..i].to_lowercase(), l[i + 1..].trim().to_string());
        }
        let mut body = vec![];
        if headers.get("transfer-encoding").map_or(false, |v| v.to_lowercase().contains("chunked")) {
            loop {
                let l = self.line()?;
                let n = usize::from_str_radix(l.trim(), 16).map_err(|_| format!("chunk size {:?}", l))?;
                body.extend(self.exactly(n)?);
                if self.line()? != "" {
                    return Err("a chunk without end".to_string());
                }
                if n == 0 {
                    break;
                }
            }
        } else if let Some(n) = headers.get("content-length") {
            let n: usize = n.parse().map_err(|_| format!("content-length {:?}", n))?;
            body = self.exactly(n)?;
        } else {
            while self.fill()? {}
            body.append(&mut self.buf);
        }
        Ok(Answer { status, headers, body })
    }
}

// --- an exposition format parser -------------------------------------------

#[derive(Debug)]
struct Family {
    kind: String,
    samples: BTreeMap<(String, Tags), f64>,
}

fn ok_name(s: &str, colon: bool) -> bool {
    !s.is_empty() && s.bytes().enumerate().all(|(i, b)| b.is_ascii_alphabetic() || b == b'_' || (colon && b == b':') || (i > 0 && b.is_ascii_digit()))
}

fn number(s: &str) -> Option<f64> {
    match s {
        "+Inf" => Some(std::f64::INFINITY),
        "-Inf" => Some(std::f64::NEG_INFINITY),
        "NaN" => Some(std::f64::NAN),
        _ if s.bytes().all(|b| b"0123456789+-.eE".contains(&b)) => s.parse().ok(),
        _ => None,
    }
}

fn sample(l: &str) -> Result<(String, Tags, f64), String> {
    let c: Vec<char> = l.chars().collect();
    let mut i = 0;
    while i < c.len() && c[i] != '{' && c[i] != ' ' {
        i += 1;
    }
    let name: String = c[..i].iter().collect();
    if !ok_name(&name, true) {
        return Err(format!("invalid metric name in {:?}", l));
    }
    let mut tags = BTreeMap::new();
    if i < c.len() && c[i] == '{' {
        i += 1;
        loop {
            while i < c.len() && c[i] == ' ' {
                i += 1;
            }
            let s = i;
            while i < c.len() && c[i] != '=' && c[i] != '}' {
                i += 1;
            }
            let k: String = c[s..i].iter().collect();
            if !ok_name(&k, false) {
                return Err(format!("invalid label name {:?} in {:?}", k, l));
            }
            if i + 1 >= c.len() || c[i] != '=' || c[i + 1] != '"' {
                return Err(format!("label {:?} has no quoted value in {:?}", k, l));
            }
            i += 2;
            let mut v = String::new();
            loop {
                if i >= c.len() {
                    return Err(format!("unterminated label value in {:?}", l));
                }
                match c[i] {
                    '"' => break,
                    '\\' => {
                        i += 1;
                        match c.get(i) {
                            Some('n') => v.push('\n'),
                            Some('\\') => v.push('\\'),
                            Some('"') => v.push('"'),
                            x => return Err(format!("escape {:?} in {:?}", x, l)),
                        }
                    }
                    x => v.push(x),
                }
                i += 1;
            }
            i += 1;
            if tags.insert(k.clone(), v).is_some() {
                return Err(format!("label {:?} twice in {:?}", k, l));
            }
            while i < c.len() && c[i] == ' ' {
                i += 1;
            }
            match c.get(i) {
                Some(',') => i += 1,
                Some('}') => {
                    i += 1;
                    break;
                }
                x => return Err(format!("{:?} between labels in {:?}", x, l)),
            }
        }
    }
    let rest: String = c[i..].iter().collect();
    if !rest.starts_with(' ') {
        return Err(format!("no value in {:?}", l));
    }
    let v = number(rest.trim()).ok_or_else(|| format!("invalid number in {:?}", l))?;
    Ok((name, tags.into_iter().collect(), v))
}

fn exposition(text: &str) -> Result<BTreeMap<String, Family>, String> {
    let mut fams: BTreeMap<String, Family> = BTreeMap::new();
    let mut cur = String::new();
    if !text.is_empty() && !text.ends_with('\n') {
        return Err("the text does not end with a newline".to_string());
    }
    for l in text.split('\n') {
        if l.is_empty() {
            continue;
        }
        if l.starts_with('#') {
            let f: Vec<&str> = l.split(' ').collect();
            if f.len() == 4 && f[1] == "TYPE" {
                if !["counter", "gauge", "summary", "histogram", "untyped"].contains(&f[3]) || !ok_name(f[2], true) {
                    return Err(format!("invalid type line {:?}", l));
                }
                if fams.insert(f[2].to_string(), Family { kind: f[3].to_string(), samples: BTreeMap::new() }).is_some() {
                    return Err(format!("{} has two TYPE lines", f[2]));
                }
                cur = f[2].to_string();
            }
            continue;
        }
        let (name, tags, v) = sample(l)?;
        let ours = name == cur || (name.starts_with(&cur) && ["_sum", "_count", "_bucket"].contains(&&name[cur.len()..]));
        if cur.is_empty() || !ours {
            return Err(format!("{:?} stands outside of its family, under {:?}", l, cur));
        }
        let fam = fams.get_mut(&cur).unwrap();
        if fam.samples.insert((name, tags), v).is_some() {
            return Err(format!("{:?} appears twice", l));
        }
    }
    Ok(fams)
}

// --- the reference ----------------------------------------------------------

enum Acc {
    Set(f64),
    Sum(f64),
    Hist(Vec<f64>, Vec<f64>),
    /// all samples ever; the window by time
    Summ { n: f64, sum: f64, win: BTreeMap<i64, Vec<f64>> },
}

struct Ref {
    kinds: BTreeMap<String, AM>,
    series: BTreeMap<(String, Tags), Acc>,
    cap: usize,
    age: Option<u64>,
    dflt: Tags,
    now: i64,
}

fn clean(name: &str) -> String {
    let mut s = String::new();
    if name.bytes().next().map_or(true, |b| b.is_ascii_digit()) {
        s.push('_');
    }
    for b in name.bytes() {
        s.push(if b.is_ascii_alphanumeric() || b == b':' || b == b'_' { b as char } else { '_' });
    }
    s
}

impl Ref {
    fn add(&mut self, p: &Point) {
        if let Some(a) = self.age {
            if (p.ts as i128 - self.now as i128).abs() > a as i128 {
                return;
            }
        }
        let name = clean(&p.name);
        if *self.kinds.entry(name.clone()).or_insert(p.kind) != p.kind {
            return;
        }
        let key = (name, visible(&p.tags, &self.dflt));
        let cap = self.cap;
        let e = self.series.entry(key).or_insert_with(|| match p.kind {
            AM::Set => Acc::Set(0.0),
            AM::Sum => Acc::Sum(0.0),
            AM::Histogram => Acc::Hist(p.bounds.clone(), vec![]),
            AM::Summarize => Acc::Summ { n: 0.0, sum: 0.0, win: BTreeMap::new() },
        });
        match *e {
            Acc::Set(ref mut x) => *x = p.vals[0],
            Acc::Sum(ref mut x) => *x += p.vals[0],
            Acc::Hist(_, ref mut s) => s.extend_from_slice(&p.vals),
            Acc::Summ { ref mut n, ref mut sum, ref mut win } => {
                *n += p.vals.len() as f64;
                *sum += p.vals.iter().sum::<f64>();
                win.entry(p.ts).or_insert_with(Vec::new).extend_from_slice(&p.vals);
                while win.len() > cap {
                    let k = *win.keys().next().unwrap();
                    win.remove(&k);
                }
            }
        }
    }
    fn purge(&mut self) {
        let (now, cap) = (self.now as i128, self.cap as i128);
        for a in self.series.values_mut() {
            if let Acc::Summ { ref mut win, .. } = *a {
                let old: Vec<i64> = win.keys().cloned().filter(|t| (*t as i128 - now).abs() > cap).collect();
                for t in old {
                    win.remove(&t);
                }
            }
        }
    }
    fn compare(&self, got: &BTreeMap<String, Family>) -> Result<u64, (&'static str, String)> {
        let mut n = 0;
        let mut live = BTreeSet::new();
        let mut used = BTreeMap::new();
        for ((name, tags), acc) in &self.series {
            if let Acc::Summ { ref win, .. } = *acc {
                if win.is_empty() {
                    continue;
                }
            }
            live.insert(name.clone());
            let word = match *acc {
                Acc::Set(_) => "gauge",
                Acc::Sum(_) => "counter",
                Acc::Hist(..) => "histogram",
                Acc::Summ { .. } => "summary",
            };
            let fam = match got.get(name) {
                Some(f) => f,
                None => return Err(("series-missing", format!("{} {:?} is absent", name, tags))),
            };
            if fam.kind != word {
                return Err(("kind", format!("{} is exposed as {} expected {}", name, fam.kind, word)));
            }
            let u = used.entry(name.clone()).or_insert(0);
            let with = |extra: Option<(&str, String)>| {
                let mut t = tags.clone();
                if let Some((k, v)) = extra {
                    t.push((k.to_string(), v));
                }
                t.sort();
                t
            };
            let mut get = |suffix: &str, extra: Option<(&str, String)>| {
                let k = (format!("{}{}", name, suffix), with(extra));
                *u += 1;
                n += 1;
                fam.samples.get(&k).cloned().ok_or_else(|| ("series-missing", format!("{:?} is absent", k)))
            };
            let bad = |what: &str, g: f64, e: f64| Err(("series-value", format!("{} {:?} {} is {} expected {}", name, tags, what, g, e)));
            match *acc {
                Acc::Set(x) | Acc::Sum(x) => {
                    let g = get("", None)?;
                    if !close(g, x) {
                        return bad("value", g, x);
                    }
                }
                Acc::Hist(ref bounds, ref s) => {
                    let mut run = 0;
                    for (i, c) in bin_counts(bounds, s).iter().enumerate() {
                        run += c;
                        let le = if i < bounds.len() { bounds[i].to_string() } else { "+Inf".to_string() };
                        let g = get("", Some(("le", le.clone())))?;
                        if g != run as f64 {
                            return bad(&format!("bucket {}", le), g, run as f64);
                        }
                    }
                    let (g, e) = (get("_count", None)?, s.len() as f64);
                    if g != e {
                        return bad("count", g, e);
                    }
                    let (g, e) = (get("_sum", None)?, s.iter().sum::<f64>());
                    if !close(g, e) {
                        return bad("sum", g, e);
                    }
                }
                Acc::Summ { n: cnt, sum, ref win } => {
                    let g = get("_count", None)?;
                    if g != cnt {
                        return bad("count", g, cnt);
                    }
                    let g = get("_sum", None)?;
                    if !close(g, sum) {
                        return bad("sum", g, sum);
                    }
                    let mut s: Vec<f64> = win.values().flat_map(|v| v.iter().cloned()).collect();
                    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    for q in &[0.0, 1.0, 0.25, 0.5, 0.75, 0.90, 0.95, 0.99, 0.999] {
                        let g = get("", Some(("quantile", q.to_string())))?;
                        let lo = s.iter().filter(|x| **x < g && !close(**x, g)).count() + 1;
                        let hi = s.iter().filter(|x| **x < g || close(**x, g)).count();
                        if hi < lo {
                            return Err(("quantile", format!("{} {:?} quantile {} is {}, no sample of {:?}", name, tags, q, g, s)));
                        }
                        let want = q * s.len() as f64;
                        let slack = 2.0 * 0.001 * want + 3.0;
                        if lo as f64 > want + slack || (hi as f64) < want - slack {
                            return Err(("quantile", format!("{} {:?} quantile {} is {} with rank {}..{} of {}", name, tags, q, g, lo, hi, s.len())));
                        }
                        if (*q == 0.0 && lo > 1) || (*q == 1.0 && hi < s.len()) {
                            return Err(("quantile", format!("{} {:?} quantile {} is {} with rank {}..{} of {}", name, tags, q, g, lo, hi, s.len())));
                        }
                    }
                }
            }
        }
        for (name, f) in got {
            if !live.contains(name) {
                return Err(("series-stray", format!("{} stands for nothing delivered", name)));
            }
            if f.samples.len() != used[name] {
                return Err(("series-stray", format!("{} has {} samples expected {}: {:?}", name, f.samples.len(), used[name], f.samples.keys())));
            }
        }
        Ok(n)
    }
}

// ----------------------------------------------------------------------------

enum Ev {
    Add(Point),
    Flush,
    Tick(i64),
}

struct Snap {
    lo: usize,
    hi: usize,
    fams: BTreeMap<String, Family>,
    seen: bool,
    why: String,
    sig: &'static str,
}

fn abuse(r: &mut Rng, ip: &str, port: u16) -> &'static str {
    let mut c = match Client::open(ip, port) {
        Some(c) => c,
        None => return "none",
    };
    let (what, text): (&'static str, &[u8]) = match r.below(7) {
        0 => ("silent", b""),
        1 => ("half request", b"GET /metrics HTTP/1.1\r\nHo"),
        2 => ("garbage", b"\x00\x01\xff\xfe\r\n\r\n\r\n"),
        3 => ("reset", b"GET / HTTP/1.1\r\nHost: x\r\n\r\n"),
        4 => ("no body", b"POST / HTTP/1.1\r\nHost: x\r\nContent-Length: 1000\r\n\r\nabc"),
        5 => ("closed", b"GET / HTTP/1.1\r\nHost: x\r\n\r\n"),
        _ => ("many", b"GET / HTTP/1.1\r\nHost: x\r\n\r\nGET / HTTP/1.1\r\nHost: x\r\n\r\nGET / HTTP/1.1\r\nHost: x\r\n\r\n"),
    };
    let _ = c.s.write_all(text);
    if what == "reset" {
        rst_on_close(&c.s);
    }
    if r.chance(50) {
        thread::sleep(Duration::from_millis(r.below(4)));
    }
    what
}

pub fn s03(a: &Args, rep: &mut Rep) {
    run_cases(a, rep, |r, rep| {
        let now0 = crate::clock::tick(r);
        let mut now = now0;
        let ip = my_ip();
        let port = crate::sinks::fresh_port(&ip);
        let cap = *r.pick(&[0usize, 1, 2, 5, 60, 600]);
        let age = if r.chance(30) { Some(*r.pick(&[0u64, 5, 100])) } else { None };
        let gzip = r.chance(40);
        const K: [&str; 6] = ["source", "host", "k1", "_x", "Z9", "job"];
        let mk_tags = |r: &mut Rng, n: u64| -> Tags {
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let v = *r.pick(&["v0", "v1", "a b", "x,y}", "k=\"v\"", "back\\slash", "end\\", "l1\nl2", "日本", "{", "#", " lead", "trail ", "\t", "\r"]);
                m.insert((*r.pick(&K)).to_string(), v.to_string());
            }
            m.into_iter().collect()
        };
        let nd = r.below(4);
        let dflt = mk_tags(r, nd);
        let mut sink = Prometheus::init(PrometheusConfig { host: ip.clone(), port, config_path: None, capacity_in_seconds: cap, age_threshold: age, tags: tagmap(&dflt), gzip });
        if !wait_until(Duration::from_secs(20), || TcpStream::connect((ip.as_str(), port)).is_ok()) {
            rep.viol("not-listening", "no listener within 20 s".to_string());
            return;
        }
        // series: several tag sets per name; a name keeps its kind
        let wide = r.chance(10);
        let nnames = if wide { 60 } else { r.range(1, 6) };
        let mut series = vec![];
        for i in 0..nnames {
            let kind = *r.pick(&KINDS);
            let name = format!("{}{}", r.pick(&[" ", "\t", "\u{a0}", " 5.", "a.b", "5xx-", "日本", "req:", "A_", "sp ace", ""]), i);
            for _ in 0..r.range(1, if wide { 10 } else { 3 }) {
                let nt = r.below(4);
                series.push((name.clone(), mk_tags(r, nt), kind));
            }
        }
        // No other name reads like a summary's or histogram's sum or count.
        let bounds = if r.chance(50) { vec![1.0, 10.0, 100.0, 1000.0] } else { vec![-2.5, 0.0, 7.0] };
        let n = *r.pick(&[0i64, 5, 60, 300]) * if wide { 4 } else { 1 };
        let mut evs = vec![];
        for _ in 0..n {
            if r.chance(3) {
                evs.push(Ev::Flush);
                continue;
            }
            if r.chance(3) && crate::clock::may(r) {
                now += *r.pick(&[1i64, 1, 2, 5, 60, 600, -1, -60, 1_000_000]);
                evs.push(Ev::Tick(now));
                continue;
            }
            let s = r.pick(&series).clone();
            let kind = if r.chance(4) { *r.pick(&KINDS) } else { s.2 };
            let mut vals = vec![value(r)];
            if kind == AM::Summarize || kind == AM::Histogram {
                for _ in 0..*r.pick(&[0u64, 0, 1, 5, 40]) {
                    vals.push(value(r));
                }
            }
            let far = (cap as i64).min(1000) + 1;
            let mut ts = now + *r.pick(&[0i64, 0, -1, -2, -3, 1, -far, far, -far + 1]);
            if r.chance(2) {
                ts = *r.pick(&[0i64, -1, i64::max_value(), i64::min_value()]);
            }
            if age.is_some() && r.chance(20) {
                ts = now + *r.pick(&[-6i64, -5, 5, 6, -100, -101]);
            }
            evs.push(Ev::Add(Point { name: s.0, tags: s.1, kind, vals, bounds: bounds.clone(), ts, persist: r.chance(20) }));
        }
        let log: Vec<String> = evs
            .iter()
            .map(|e| match *e {
                Ev::Add(ref p) => format!("add {:?} {:?} {:?} {:?} ts=now{:+}", p.name, p.tags, p.kind, p.vals, p.ts as i128 - now0 as i128),
                Ev::Tick(t) => format!("clock now{:+}", t - now0),
                Ev::Flush => "flush".to_string(),
            })
            .collect();
        let head = format!("capacity {} age {:?} gzip {} defaults {:?}", cap, age, gzip, dflt);
        rep.seen(&(&head, &log));
        let tally = Tally::new(&[("report.success", &prometheus::PROMETHEUS_REPORT_SUCCESS), ("report.error", &prometheus::PROMETHEUS_REPORT_ERROR)]);
        let (mut scraped, mut abused) = (0, 0);
        // scrapers
        let (started, done) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
        let stop = Arc::new(AtomicBool::new(false));
        let nscr = r.range(1, 3);
        let mut hs = vec![];
        for _ in 0..nscr {
            let (started, done, stop, ip) = (started.clone(), done.clone(), stop.clone(), ip.clone());
            let seed = r.next();
            hs.push(thread::spawn(move || -> (Vec<Snap>, BTreeMap<&'static str, u64>, Option<(&'static str, String)>) {
                let mut r = Rng::new(seed, 1);
                let mut snaps = vec![];
                let mut ctr: BTreeMap<&'static str, u64> = BTreeMap::new();
                let mut conn: Option<Client> = None;
                let mut last = false;
                loop {
                    // one more scrape once all points are in
                    let fin = stop.load(Ordering::SeqCst);
                    if last || snaps.len() > 400 {
                        return (snaps, ctr, None);
                    }
                    last = fin;
                    if r.chance(6) {
                        *ctr.entry("abusive_requests").or_insert(0) += (abuse(&mut r, &ip, port) != "none") as u64;
                    }
                    if conn.is_none() || r.chance(30) {
                        conn = Client::open(&ip, port);
                    }
                    let mut c = match conn.take() {
                        Some(c) => c,
                        None => return (snaps, ctr, Some(("refused", "a scrape was refused".to_string()))),
                    };
                    let old = r.chance(10);
                    let req = format!("{} /{} HTTP/1.{}\r\nHost: x\r\n{}{}\r\n", "GET", r.pick(&["metrics", "", "x?y=z"]), if old { 0 } else { 1 }, r.pick(&["", "Accept-Encoding: gzip\r\n", "Accept: application/vnd.google.protobuf;proto=io.prometheus.client.MetricFamily;encoding=delimited\r\n"]), if r.chance(10) { "Connection: close\r\n" } else { "" });
                    let reuse = !old && !req.contains("close");
                    let lo = done.load(Ordering::SeqCst);
                    let pipelined = reuse && r.chance(10);
                    let t = Instant::now();
                    let mut sent = c.ask(&req);
                    if pipelined && sent.is_ok() {
                        sent = c.ask(&req);
                    }
                    for k in 0..1 + pipelined as usize {
                        let ns = snaps.len();
                        let got = sent.clone().and_then(|_| c.answer());
                        let hi = started.load(Ordering::SeqCst);
                        let a = match got {
                            Ok(a) => a,
                            Err(e) => return (snaps, ctr, Some(("no-answer", format!("scrape {} ({:?}) got no complete answer after {:?}: {}", ns, req, t.elapsed(), e)))),
                        };
                        *ctr.entry("scrapes").or_insert(0) += 1;
                        if t.elapsed() > Duration::from_secs(2) {
                            *ctr.entry("slow_scrapes").or_insert(0) += 1;
                        }
                        if k == 1 {
                            *ctr.entry("pipelined").or_insert(0) += 1;
                        }
                        if a.status != 200 {
                            return (snaps, ctr, Some(("status", format!("status {} for {:?}", a.status, req))));
                        }
                        let mut text = a.body;
                        let z = a.headers.get("content-encoding").map_or(false, |v| v == "gzip");
                        if z != gzip {
                            return (snaps, ctr, Some(("encoding", format!("headers {:?} with gzip {}", a.headers, gzip))));
                        }
                        if z {
                            let mut out = vec![];
                            if let Err(e) = flate2::read::GzDecoder::new(&text[..]).read_to_end(&mut out) {
                                return (snaps, ctr, Some(("encoding", format!("gzip: {}", e))));
                            }
                            text = out;
                        }
                        if !a.headers.get("content-type").map_or(false, |v| v.starts_with("text/plain")) {
                            return (snaps, ctr, Some(("encoding", format!("headers {:?}", a.headers))));
                        }
                        let text = match String::from_utf8(text) {
                            Ok(t) => t,
                            Err(_) => return (snaps, ctr, Some(("format", "the text is not UTF-8".to_string()))),
                        };
                        match exposition(&text) {
                            Ok(fams) => snaps.push(Snap { lo, hi, fams, seen: false, why: String::new(), sig: "" }),
                            Err(e) => return (snaps, ctr, Some(("format", e))),
                        }
                    }
                    if reuse {
                        conn = Some(c);
                    }
                    if r.chance(30) {
                        thread::sleep(Duration::from_micros(r.below(2000)));
                    }
                }
            }));
        }
        for e in &evs {
            started.fetch_add(1, Ordering::SeqCst);
            match *e {
                Ev::Add(ref p) => sink.deliver(p.telem(r)),
                Ev::Flush => sink.flush(),
                Ev::Tick(t) => crate::clock::set(t),
            }
            done.fetch_add(1, Ordering::SeqCst);
            match r.below(12) {
                0 => thread::sleep(Duration::from_micros(r.below(1500))),
                1 => thread::yield_now(),
                _ => {}
            }
        }
        stop.store(true, Ordering::SeqCst);
        let mut snaps = vec![];
        for h in hs {
            let (s, c, bad) = h.join().unwrap_or_else(|_| harness_fail("scraper thread"));
            snaps.extend(s);
            for (k, v) in c {
                scraped += if k == "scrapes" { v } else { 0 };
                abused += if k == "abusive_requests" { v } else { 0 };
                rep.add(k, v);
            }
            if let Some((sig, d)) = bad {
                abused += 1000;
                rep.viol(sig, format!("{}; {}; {}", d, head, clip(&log.join("; "), 1500)));
            }
        }
        // An answer is counted just after it is given; those to the last
        // requests of the case before may still be.
        wait_until(Duration::from_secs(10), || tally.moved("report.success") >= scraped);
        tally.judge(rep, &[("report.success", scraped, scraped + 20 * abused + 4), ("report.error", 0, 20 * abused + 4)], &head);
        let rf = Ref { kinds: BTreeMap::new(), series: BTreeMap::new(), cap, age, dflt: dflt.clone(), now: now0 };
        let mut rf = rf;
        for k in 0..=evs.len() {
            for s in snaps.iter_mut().filter(|s| !s.seen && s.lo <= k && k <= s.hi) {
                match rf.compare(&s.fams) {
                    Ok(n) => {
                        s.seen = true;
                        rep.add("samples_compared", n);
                        rep.add("snapshots_matched", 1);
                        if s.hi > s.lo {
                            rep.add("snapshots_during_delivery", 1);
                        }
                    }
                    Err((sig, d)) => {
                        s.why = d;
                        s.sig = sig;
                    }
                }
            }
            match evs.get(k) {
                Some(Ev::Add(p)) => {
                    rf.add(p);
                    rep.add("points", 1);
                }
                Some(Ev::Flush) => {
                    rf.purge();
                    rep.add("flushes", 1);
                }
                Some(Ev::Tick(t)) => {
                    rf.now = *t;
                    rep.add("clock_moves", 1);
                }
                None => {}
            }
        }
        if let Some(s) = snaps.iter().find(|s| !s.seen) {
            rep.viol(s.sig, format!("a scrape between {} and {} points matches no state in between: {}; {}; {}", s.lo, s.hi, s.why, head, clip(&log.join("; "), 1500)));
        }
        rep.add("series", rf.series.len() as u64);
        rep.sample(format!("{}; {}; {} snapshots", head, clip(&log.join("; "), 400), snaps.len()));
        // the server notices its end after the next request
        let (ended, end) = std::sync::mpsc::channel();
        thread::spawn(move || {
            sink.shutdown();
            let _ = ended.send(());
        });
        let watch = r.chance(25);
        let mut poke = vec![];
        if !watch || r.chance(50) {
            for _ in 0..2 {
                if let Some(mut c) = Client::open(&ip, port) {
                    let _ = c.ask("GET / HTTP/1.0\r\n\r\n");
                    poke.push(c);
                }
            }
        }
        rep.add("shutdowns", watch as u64);
        // the server looks for its end every second
        if watch && end.recv_timeout(Duration::from_secs(60)).is_err() {
            rep.viol("shutdown", format!("the sink has not shut down after 60 s; {}", head));
        }
    });
    names_case(rep);
}

/// The two names the existing tests pin although Prometheus wants others.
fn names_case(rep: &mut Rep) {
    let ip = my_ip();
    let port = crate::sinks::fresh_port(&ip);
    let mut sink = Prometheus::init(PrometheusConfig { host: ip.clone(), port, ..Default::default() });
    wait_until(Duration::from_secs(20), || TcpStream::connect((ip.as_str(), port)).is_ok());
    sink.deliver(crate::metricm::mk("h", AM::Histogram, 0.5, &[1.0], 5, false, &[]));
    sink.deliver(crate::metricm::mk("s", AM::Set, 0.5, &[], 5, false, &[("custom-tag".to_string(), "v".to_string())]));
    let text = Client::open(&ip, port).ok_or_else(|| "refused".to_string()).and_then(|mut c| {
        c.ask("GET / HTTP/1.0\r\n\r\n")?;
        c.answer()
    });
    let text = match text {
        Ok(a) => String::from_utf8_lossy(&a.body).to_string(),
        Err(e) => {
            rep.viol("no-answer", e);
            return;
        }
    };
    let mut lines: Vec<&str> = text.lines().collect();
    lines.sort();
    let has = |l: &str| lines.contains(&l);
    if has("h{le=\"1\"} 1") && has("h{le=\"+Inf\"} 1") {
        rep.viol("bucket-name", "the buckets of histogram h are exposed as h{le=..}, not h_bucket{le=..}".to_string());
    } else if !(has("h_bucket{le=\"1\"} 1") && has("h_bucket{le=\"+Inf\"} 1")) {
        rep.viol("bucket-lost", format!("no buckets of h in {:?}", lines));
    }
    if has("s{custom-tag=\"v\"} 0.5") {
        rep.viol("label-name", "the tag custom-tag is exposed as a label of that, invalid, name".to_string());
    } else if !has("s{custom_tag=\"v\"} 0.5") {
        rep.viol("label-lost", format!("no series of s in {:?}", lines));
    }
    rep.add("pinned_names_checked", 2);
    thread::spawn(move || sink.shutdown());
    if let Some(mut c) = Client::open(&ip, port) {
        let _ = c.ask("GET / HTTP/1.0\r\n\r\n");
    }
}
