//! S03, S04, S05: the HTTP sinks.
use crate::common::*;
use crate::h::*;
use crate::metricm::{close, value, KINDS};
use crate::sinks::*;
use cernan::metric::{AggregationMethod as AM, LogLine};
use cernan::sink::elasticsearch as es;
use cernan::sink::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::thread;
use std::time::{Duration, Instant};

// --------------------------------------------------------------------------
// A scripted HTTP peer.

#[derive(Clone, Debug)]
pub struct Req {
    pub method: String,
    pub path: String,
    pub headers: BTreeMap<String, String>,
    pub body: Vec<u8>,
    pub conn: usize,
}

#[derive(Clone, Debug)]
pub enum Resp {
    Status(u16, String),
    /// the same, but the connection is closed afterwards
    StatusClose(u16, String),
    /// read the request, answer nothing
    Close,
    Reset,
    /// an answer that stops in the middle
    Partial,
    Garbage,
}

pub struct Http {
    pub ip: String,
    pub port: u16,
    stop: Arc<AtomicBool>,
    up: Arc<AtomicBool>,
}

fn read_until(s: &mut TcpStream, buf: &mut Vec<u8>, stop: &AtomicBool) -> bool {
    let mut b = [0u8; 16384];
    loop {
        match s.read(&mut b) {
            Ok(0) => return false,
            Ok(n) => {
                buf.extend_from_slice(&b[..n]);
                return true;
            }
            Err(e) => {
                if e.kind() != std::io::ErrorKind::WouldBlock && e.kind() != std::io::ErrorKind::TimedOut || stop.load(Ordering::SeqCst) {
                    return false;
                }
            }
        }
    }
}

fn find(b: &[u8], pat: &[u8]) -> Option<usize> {
    if b.len() < pat.len() {
        return None;
    }
    (0..=b.len() - pat.len()).find(|i| &b[*i..*i + pat.len()] == pat)
}

fn read_req(s: &mut TcpStream, buf: &mut Vec<u8>, stop: &AtomicBool, conn: usize) -> Option<Req> {
    let head = loop {
        if let Some(i) = find(buf, b"\r\n\r\n") {
            break i;
        }
        if !read_until(s, buf, stop) {
            return None;
        }
    };
    let text = String::from_utf8_lossy(&buf[..head]).to_string();
    let mut lines = text.split("\r\n");
    let mut first = lines.next().unwrap_or("").split(' ');
    let method = first.next().unwrap_or("").to_string();
    let path = first.next().unwrap_or("").to_string();
    let mut headers = BTreeMap::new();
    for l in lines {
        let mut kv = l.splitn(2, ':');
        headers.insert(kv.next().unwrap_or("").trim().to_lowercase(), kv.next().unwrap_or("").trim().to_string());
    }
    buf.drain(..head + 4);
    let mut body = vec![];
    if headers.get("transfer-encoding").map_or(false, |v| v.contains("chunked")) {
        loop {
            let i = loop {
                if let Some(i) = find(buf, b"\r\n") {
                    break i;
                }
                if !read_until(s, buf, stop) {
                    return None;
                }
            };
            let n = usize::from_str_radix(String::from_utf8_lossy(&buf[..i]).trim(), 16).unwrap_or(0);
            buf.drain(..i + 2);
            while buf.len() < n + 2 {
                if !read_until(s, buf, stop) {
                    return None;
                }
            }
            body.extend(buf.drain(..n));
            buf.drain(..2);
            if n == 0 {
                break;
            }
        }
    } else {
        let n: usize = headers.get("content-length").and_then(|v| v.parse().ok()).unwrap_or(0);
        while buf.len() < n {
            if !read_until(s, buf, stop) {
                return None;
            }
        }
        body.extend(buf.drain(..n));
    }
    Some(Req { method, path, headers, body, conn })
}

impl Http {
    pub fn start<F>(ip: &str, port: u16, f: F) -> Http
    where
        F: Fn(&Req) -> Resp + Send + Sync + 'static,
    {
        let h = Http { ip: ip.to_string(), port, stop: Arc::new(AtomicBool::new(false)), up: Arc::new(AtomicBool::new(true)) };
        let l = listen_on(ip, port);
        l.set_nonblocking(true).unwrap();
        let f = Arc::new(f);
        let (stop, up) = (h.stop.clone(), h.up.clone());
        thread::spawn(move || {
            let mut n = 0;
            while !stop.load(Ordering::SeqCst) {
                match l.accept() {
                    Ok((mut s, _)) => {
                        n += 1;
                        let (f, stop) = (f.clone(), stop.clone());
                        thread::spawn(move || {
                            s.set_nonblocking(false).unwrap();
                            s.set_read_timeout(Some(Duration::from_millis(20))).unwrap();
                            let mut buf = vec![];
                            while let Some(q) = read_req(&mut s, &mut buf, &stop, n) {
                                let (code, text, close) = match f(&q) {
                                    Resp::Status(c, t) => (c, t, false),
                                    Resp::StatusClose(c, t) => (c, t, true),
                                    Resp::Close => return,
                                    Resp::Reset => {
                                        rst_on_close(&s);
                                        return;
                                    }
                                    Resp::Partial => {
                                        let _ = s.write_all(b"HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\n{\"to");
                                        return;
                                    }
                                    Resp::Garbage => {
                                        let _ = s.write_all(b"%%%% what\r\n\r\n");
                                        return;
                                    }
                                };
                                let mut m = format!("HTTP/1.1 {} X\r\nContent-Type: application/json\r\n", code);
                                if code != 204 {
                                    m.push_str(&format!("Content-Length: {}\r\n", text.len()));
                                }
                                if close {
                                    m.push_str("Connection: close\r\n");
                                }
                                m.push_str("\r\n");
                                m.push_str(&text);
                                if s.write_all(m.as_bytes()).is_err() || close {
                                    return;
                                }
                            }
                        });
                    }
                    Err(_) => thread::sleep(Duration::from_millis(1)),
                }
            }
            drop(l);
            up.store(false, Ordering::SeqCst);
        });
        h
    }
    pub fn stop(&self) {
        self.stop.store(true, Ordering::SeqCst);
        wait_until(Duration::from_secs(5), || !self.up.load(Ordering::SeqCst));
    }
}

fn pick_port(ip: &str) -> u16 {
    crate::sinks::fresh_port(ip)
}

/// Tag keys and values with characters that need escaping somewhere.
fn odd_tags(r: &mut Rng, n: u64, keys: &[&str]) -> Tags {
    let mut m = BTreeMap::new();
    for _ in 0..n {
        let v = *r.pick(&["v0", "v1", "a b", "x,y", "k=v", "q\"q", "back\\slash", "héllo", "日本", "a b,c=d", "200", "", "end\\", "\\", "l1\nl2,x=y z=1 2", "a\\,b", " lead", "trail ", "\ttab\t", "nb\u{a0}"]);
        m.insert((*r.pick(keys)).to_string(), v.to_string());
    }
    m.into_iter().collect()
}

// --------------------------------------------------------------------------

type InfluxLine = (String, Tags, i64);

/// Takes the text up to an unescaped stop, undoing the escapes.
fn influx_tok(c: &[char], i: &mut usize, stops: &[char], esc: &[char]) -> String {
    let mut s = String::new();
    while *i < c.len() && !stops.contains(&c[*i]) {
        if c[*i] == '\\' && *i + 1 < c.len() && esc.contains(&c[*i + 1]) {
            *i += 1;
        }
        s.push(c[*i]);
        *i += 1;
    }
    s
}

/// Reads one line of line protocol, undoing its escapes.
fn influx_line(l: &str) -> Result<(InfluxLine, f64), String> {
    let c: Vec<char> = l.chars().collect();
    let mut i = 0;
    let name = influx_tok(&c, &mut i, &[',', ' '], &[',', ' ']);
    if name.is_empty() {
        return Err(format!("no measurement in {:?}", l));
    }
    let mut tags = BTreeMap::new();
    const STOPS: [char; 3] = [',', ' ', '='];
    while i < c.len() && c[i] == ',' {
        i += 1;
        let k = influx_tok(&c, &mut i, &STOPS, &STOPS);
        if i >= c.len() || c[i] != '=' {
            return Err(format!("tag without value in {:?}", l));
        }
        i += 1;
        let v = influx_tok(&c, &mut i, &STOPS, &STOPS);
        if i >= c.len() || c[i] == '=' {
            return Err(format!("unescaped = in {:?}", l));
        }
        if k.is_empty() || v.is_empty() || tags.insert(k.clone(), v).is_some() {
            return Err(format!("empty or repeated tag {:?} in {:?}", k, l));
        }
    }
    let rest: String = c[(i + 1).min(c.len())..].iter().collect();
    let f: Vec<&str> = rest.split(' ').collect();
    if f.len() != 2 || !f[0].starts_with("value=") {
        return Err(format!("no single value field and time in {:?}", l));
    }
    let v: f64 = f[0][6..].parse().map_err(|_| format!("bad value in {:?}", l))?;
    if !v.is_finite() {
        return Err(format!("a value that is not a number in {:?}", l));
    }
    let ts: i64 = f[1].parse().map_err(|_| format!("bad time in {:?}", l))?;
    Ok(((name, tags.into_iter().collect(), ts), v))
}

/// Line protocol has no line breaks, no backslash at an end and no empty tags.
fn influx_text(s: &str) -> String {
    s.trim_end_matches('\\').replace('\n', "\\n")
}

pub fn s04(a: &Args, rep: &mut Rep) {
    run_cases(a, rep, |r, rep| {
        let ip = my_ip();
        let port = pick_port(&ip);
        let script: Shared<Vec<Resp>> = shared(vec![]);
        let seen: Shared<Vec<(Req, Resp)>> = shared(vec![]);
        let (sc, se) = (script.clone(), seen.clone());
        let serve = move |q: &Req| {
            let mut s = sc.lock().unwrap();
            let resp = if s.is_empty() { Resp::Status(204, String::new()) } else { s.remove(0) };
            se.lock().unwrap().push((q.clone(), resp.clone()));
            resp
        };
        let serve = Arc::new(serve);
        let start = |ip: &str| {
            let f = serve.clone();
            Http::start(ip, port, move |q| f(q))
        };
        let mut srv = Some(start(&ip));
        let nd = r.below(4);
        const K: [&str; 9] = [" k", "k ", "source", "k1", "a b", "x,y", "k=v", "héllo", "host"];
        let dflt = odd_tags(r, nd, &K);
        let db = (*r.pick(&["cernan", "my_db", "x"])).to_string();
        let mut ix = InfluxDB::init(InfluxDBConfig { db: db.clone(), host: ip.clone(), secure: false, port, config_path: None, tags: tagmap(&dflt), flush_interval: 60 });
        let mut log: Vec<String> = vec![];
        let tally = Tally::new(&[
            ("success", &influxdb::INFLUX_SUCCESS),
            ("client_error", &influxdb::INFLUX_FAILURE_CLIENT),
            ("server_error", &influxdb::INFLUX_FAILURE_SERVER),
        ]);
        let mut budget = 5i64;
        for f in 0..r.range(1, 4) {
            let mut want: BTreeMap<InfluxLine, Vec<f64>> = BTreeMap::new();
            let mut nwant = 0;
            for _ in 0..if r.below(300) == 0 { 3000 } else { *r.pick(&[0u64, 1, 3, 20, 200]) } {
                let kind = *r.pick(&KINDS);
                let mut vals = vec![value(r)];
                if kind == AM::Summarize || kind == AM::Histogram {
                    for _ in 0..*r.pick(&[0u64, 1, 5, 40]) {
                        vals.push(value(r));
                    }
                }
                if (kind == AM::Set || kind == AM::Sum) && r.chance(2) {
                    vals[0] = *r.pick(&[std::f64::NAN, std::f64::INFINITY, std::f64::NEG_INFINITY]);
                }
                let nt = r.below(4);
                let p = Point {
                    name: format!("{}{}", r.pick(&[" lead", "\t", "\u{a0}", "cpu", "a.b", "with space", "com,ma", "e=q", "日本", "l1\nl2", "b\\s"]), r.below(4)),
                    tags: odd_tags(r, nt, &K),
                    kind,
                    vals,
                    bounds: if r.chance(50) { vec![1.0, 10.0, 100.0, 1000.0] } else { vec![-2.5, 0.0, 7.0] },
                    ts: *r.pick(&[0i64, 1, -1, -100_000, 1_500_000_000, 1_500_000_001, 4_000_000_000, i64::max_value(), i64::min_value()]),
                    persist: r.chance(20),
                };
                let mut tags: Tags = visible(&p.tags, &dflt).iter().map(|(k, v)| (influx_text(k), influx_text(v))).filter(|(k, v)| !k.is_empty() && !v.is_empty()).collect();
                tags.sort();
                let ns = p.ts.saturating_mul(1_000_000_000).max(i64::min_value() + 2).min(i64::max_value() - 1);
                let mut put = |n: String, v: f64| {
                    if !v.is_finite() {
                        rep.add("not_finite", 1);
                        return;
                    }
                    nwant += 1;
                    want.entry((influx_text(&n), tags.clone(), ns)).or_insert_with(Vec::new).push(v);
                };
                match p.kind {
                    AM::Set | AM::Sum => put(p.name.clone(), p.vals[0]),
                    AM::Histogram => {
                        for (i, n) in bin_counts(&p.bounds, &p.vals).iter().enumerate() {
                            put(format!("{}.le_{}", p.name, if i < p.bounds.len() { p.bounds[i].to_string() } else { "inf".to_string() }), *n as f64);
                        }
                    }
                    AM::Summarize => {
                        let t = sketch(&p.vals);
                        for q in &[0.25, 0.50, 0.75, 0.90, 0.99, 1.0] {
                            put(format!("{}.{}", p.name, q), t.query(*q).unwrap());
                        }
                    }
                }
                log.push(format!("add {:?}", p));
                ix.deliver(p.telem(r));
                rep.add("points", 1);
            }
            let mut fails = 0;
            if r.chance(60) && budget > 0 {
                let n = r.range(1, budget.min(3));
                budget -= n;
                fails = n as usize;
                let plan: Vec<Resp> = (0..n)
                    .map(|_| match r.below(9) {
                        0 => Resp::Status(500, "oops".into()),
                        1 => Resp::Status(404, "{\"error\":\"database not found\"}".into()),
                        2 => Resp::Status(503, String::new()),
                        3 => Resp::StatusClose(429, String::new()),
                        4 => Resp::StatusClose(502, "bad gateway".into()),
                        5 => Resp::Close,
                        6 => Resp::Reset,
                        7 => Resp::Garbage,
                        _ => Resp::Status(400, "partial write".into()),
                    })
                    .collect();
                log.push(format!("failures {:?}", plan));
                *script.lock().unwrap() = plan;
                rep.add("failures_injected", n as u64);
            }
            let refuse = r.chance(20);
            let mut again = None;
            if refuse {
                srv.take().unwrap().stop();
                let d = r.below(60);
                let f = serve.clone();
                let ip2 = ip.clone();
                log.push(format!("refused for {} ms", d));
                again = Some(thread::spawn(move || {
                    thread::sleep(Duration::from_millis(d));
                    Http::start(&ip2, port, move |q| f(q))
                }));
                rep.add("refusals", 1);
            }
            let base = seen.lock().unwrap().len();
            ix.flush();
            if let Some(h) = again {
                srv = Some(h.join().expect("HARNESS thread"));
            }
            rep.add("flushes", 1);
            let reqs: Vec<(Req, Resp)> = seen.lock().unwrap()[base..].to_vec();
            let oks = reqs.iter().filter(|(_, p)| if let Resp::Status(c, _) = p { *c / 100 == 2 } else { false }).count();
            rep.add("requests", reqs.len() as u64);
            let ctx = |log: &[String]| format!("flush {} after {}", f, log.join("; "));
            if nwant > 0 && oks == 0 {
                rep.viol("not-accepted", format!("flush returned after {} requests, none of them accepted; {}", reqs.len(), ctx(&log)));
            }
            if oks > 1 {
                rep.viol("accepted-twice", format!("{} accepted requests in one flush; {}", oks, ctx(&log)));
            }
            if !refuse && reqs.len() < fails.min(1) {
                rep.viol("not-retried", format!("{} requests for {} failures; {}", reqs.len(), fails, ctx(&log)));
            }
            // A retry carries all points again; so does the last, accepted one.
            for (q, p) in &reqs {
                if q.method != "POST" || q.path != format!("/write?db={}", db) {
                    rep.viol("request", format!("{} {} expected POST /write?db={}", q.method, q.path, db));
                }
                let text = String::from_utf8_lossy(&q.body).to_string();
                let mut got: BTreeMap<InfluxLine, Vec<f64>> = BTreeMap::new();
                let mut bad = None;
                for l in text.split_inclusive_nl() {
                    match influx_line(l.trim_end_matches('\n')) {
                        Ok((k, v)) => got.entry(k).or_insert_with(Vec::new).push(v),
                        Err(e) => bad = Some(e),
                    }
                    rep.add("lines", 1);
                }
                if let Some(e) = bad {
                    rep.viol("line-protocol", format!("{}; {}", e, ctx(&log)));
                    break;
                }
                if let Some((sig, d)) = same_lines(&got, &want) {
                    rep.viol(sig, format!("{} (request answered {:?}); {}", d, p, ctx(&log)));
                    break;
                }
                rep.add("requests_compared", 1);
            }
        }
        rep.seen(&log);
        rep.sample(clip(&log.join("; "), 400));
        let base = seen.lock().unwrap().len();
        script.lock().unwrap().clear();
        ix.shutdown();
        for (q, _) in &seen.lock().unwrap()[base..] {
            if !q.body.is_empty() {
                rep.viol("line-stray", format!("shutdown wrote {:?} again", String::from_utf8_lossy(&q.body)));
            }
        }
        // Each answer is counted by its class.
        let answers = |class: u16| {
            seen.lock().unwrap().iter().filter(|(_, p)| if let Resp::Status(c, _) | Resp::StatusClose(c, _) = p { *c / 100 == class } else { false }).count() as u64
        };
        let (ok, cl, sv) = (answers(2), answers(4), answers(5));
        tally.judge(rep, &[("success", ok, ok), ("client_error", cl, cl), ("server_error", sv, sv)], &log.join("; "));
        if let Some(s) = srv {
            s.stop();
        }
    });
}

fn same_lines<K: Ord + std::fmt::Debug>(got: &BTreeMap<K, Vec<f64>>, want: &BTreeMap<K, Vec<f64>>) -> Option<(&'static str, String)> {
    let sort = |v: &Vec<f64>| {
        let mut v = v.clone();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v
    };
    for (k, v) in want {
        match got.get(k) {
            None => return Some(("line-missing", format!("{:?} {:?} is due but absent", k, v))),
            Some(g) => {
                let (g, e) = (sort(g), sort(v));
                if g.len() != e.len() || g.iter().zip(&e).any(|(a, b)| !close(*a, *b)) {
                    return Some(("line-value", format!("{:?} has {:?} but {:?} is due", k, g, e)));
                }
            }
        }
    }
    for (k, v) in got {
        if !want.contains_key(k) {
            return Some(("line-stray", format!("{:?} {:?} was never delivered", k, v)));
        }
    }
    None
}

// --------------------------------------------------------------------------

struct Doc {
    id: Option<String>,
    line: LogLine,
    tags: Tags,
    fields: Tags,
    attempts: u64,
    fate: &'static str, // "", "indexed", "given up"
    sent: u64,
}

fn es_counts() -> (u64, u64) {
    (es::ELASTIC_RECORDS_TOTAL_DELIVERED.load(Ordering::SeqCst) as u64, es::ELASTIC_RECORDS_TOTAL_FAILED.load(Ordering::SeqCst) as u64)
}

fn es_tally() -> Tally {
    Tally::new(&[
        ("records.delivery", &es::ELASTIC_RECORDS_DELIVERY),
        ("records.total_failed", &es::ELASTIC_RECORDS_TOTAL_FAILED),
        ("error.bulk_action.index", &es::ELASTIC_BULK_ACTION_INDEX_ERR),
        ("error.bulk_action.create", &es::ELASTIC_BULK_ACTION_CREATE_ERR),
        ("error.bulk_action.update", &es::ELASTIC_BULK_ACTION_UPDATE_ERR),
        ("error.bulk_action.delete", &es::ELASTIC_BULK_ACTION_DELETE_ERR),
        ("error.api.index_not_found", &es::ELASTIC_ERROR_API_INDEX_NOT_FOUND),
        ("error.api.parsing", &es::ELASTIC_ERROR_API_PARSING),
        ("error.api.mapper_parsing", &es::ELASTIC_ERROR_API_MAPPER_PARSING),
        ("error.api.action_request_validation", &es::ELASTIC_ERROR_API_ACTION_REQUEST_VALIDATION),
        ("error.api.action_document_missing", &es::ELASTIC_ERROR_API_DOCUMENT_MISSING),
        ("error.api.index_already_exists", &es::ELASTIC_ERROR_API_INDEX_ALREADY_EXISTS),
        ("error.api.unknown", &es::ELASTIC_ERROR_API_UNKNOWN),
        ("error.client", &es::ELASTIC_ERROR_CLIENT),
    ])
}

/// The API errors Elasticsearch can answer a bulk request with.
const API_ERRORS: [(&str, &str); 6] = [
    ("error.api.index_not_found", r#"{"error":{"root_cause":[],"type":"index_not_found_exception","reason":"no such index","index":"a"},"status":404}"#),
    ("error.api.parsing", r#"{"error":{"root_cause":[],"type":"parsing_exception","reason":"bad","line":1,"col":2},"status":400}"#),
    ("error.api.mapper_parsing", r#"{"error":{"root_cause":[],"type":"mapper_parsing_exception","reason":"failed to parse"},"status":400}"#),
    ("error.api.action_request_validation", r#"{"error":{"root_cause":[],"type":"action_request_validation_exception","reason":"no requests added"},"status":400}"#),
    ("error.api.action_document_missing", r#"{"error":{"root_cause":[],"type":"document_missing_exception","reason":"[t][1]: document missing","index":"a"},"status":404}"#),
    ("error.api.index_already_exists", r#"{"error":{"root_cause":[],"type":"index_already_exists_exception","reason":"already exists","index":"a"},"status":400}"#),
];

pub fn s05(a: &Args, rep: &mut Rep) {
    run_cases(a, rep, |r, rep| {
        let ip = my_ip();
        let port = pick_port(&ip);
        let seen: Shared<Vec<Req>> = shared(vec![]);
        let answer: Shared<HashMap<u8, Resp>> = shared(HashMap::new());
        // The answer depends on the ids in the request, so it is computed here
        // from a plan: per line outcome codes drawn in order.
        let plan: Shared<(String, Rng)> = shared(("ok".to_string(), Rng::new(r.next(), 1)));
        let outcome: Shared<Vec<(String, bool, &'static str)>> = shared(vec![]);
        let _ = &answer;
        let (se, pl, oc) = (seen.clone(), plan.clone(), outcome.clone());
        let serve = Arc::new(move |q: &Req| {
            se.lock().unwrap().push(q.clone());
            let mut g = pl.lock().unwrap();
            let style = g.0.clone();
            let r = &mut g.1;
            let ids: Vec<String> = String::from_utf8_lossy(&q.body)
                .split('\n')
                .step_by(2)
                .filter_map(|l| serde_json::from_str::<serde_json::Value>(l).ok())
                .filter_map(|v| v["index"]["_id"].as_str().map(|s| s.to_string()))
                .collect();
            let mut out = vec![];
            match style.as_str() {
                "500" => return Resp::Status(500, "{\"error\":{\"type\":\"x\",\"reason\":\"boom\"},\"status\":500}".into()),
                "503" => return Resp::StatusClose(503, String::new()),
                "429" => return Resp::Status(429, "{\"error\":\"busy\",\"status\":429}".into()),
                s if s.starts_with("error.api.") => {
                    let b = API_ERRORS.iter().find(|e| e.0 == s).unwrap().1;
                    return Resp::Status(if b.ends_with("404}") { 404 } else { 400 }, b.into());
                }
                "close" => return Resp::Close,
                "reset" => return Resp::Reset,
                "partial" => return Resp::Partial,
                "garbage" => return Resp::Garbage,
                "notjson" => return Resp::Status(200, "<html>hello</html>".into()),
                "odd" => return Resp::Status(200, "{\"took\":1,\"errors\":false}".into()),
                _ => {}
            }
            let mut items = vec![];
            for id in &ids {
                let fail = match style.as_str() {
                    "ok" => false,
                    "fail" => true,
                    _ => r.chance(40),
                };
                if style == "omit" && r.chance(30) {
                    continue;
                }
                let n = if style == "twice" && r.chance(40) { 2 } else { 1 };
                // A server may call its action otherwise than the request did.
                let action = if style != "twice" && r.chance(6) { *r.pick(&["create", "update", "delete"]) } else { "index" };
                for _ in 0..n {
                    items.push(item(r, id, fail, action));
                }
                out.push((id.clone(), !fail, action));
            }
            if style == "stray" {
                for _ in 0..r.range(1, 3) {
                    let id = if r.chance(50) { "00000000-0000-4000-8000-000000000000".to_string() } else { "not a uuid".to_string() };
                    let f = r.chance(50);
                    items.push(item(r, &id, f, "index"));
                }
            }
            if style != "ok" && r.chance(60) {
                r.shuffle(&mut items);
            }
            *oc.lock().unwrap() = out;
            let errors = items.iter().any(|i| i.to_string().contains("\"error\"")) != (style != "ok" && r.chance(8));
            Resp::Status(200, json!({"took": 3, "errors": errors, "items": items}).to_string())
        });
        let f = serve.clone();
        let mut srv = Some(Http::start(&ip, port, move |q| f(q)));
        let nd = r.below(4);
        const K: [&str; 8] = [" k", "k ", "source", "k1", "a b", "x\"y", "héllo", "host"];
        const FK: [&str; 6] = [" f", "f ", "f1", "f \"2\"", "f\n3", "日本"];
        let dflt = odd_tags(r, nd, &K);
        let prefix = if r.chance(50) { Some(r.pick(&["pre-fix", "a%Y_%s", "日本", "x.y"]).to_string()) } else { None };
        let ty = (*r.pick(&["payload", "t", "q\"t"])).to_string();
        let long = r.chance(2);
        let limit = if long { 255 } else { *r.pick(&[0u8, 1, 2, 3, 10, 255]) };
        let mut e = Elasticsearch::init(ElasticsearchConfig {
            config_path: None,
            index_prefix: prefix.clone(),
            index_type: ty.clone(),
            secure: false,
            delivery_attempt_limit: limit,
            host: ip.clone(),
            port: port as usize,
            flush_interval: 1,
            tags: tagmap(&dflt),
        });
        let mut docs: Vec<Doc> = vec![];
        let mut log = vec![format!("limit {}", limit)];
        let (d0, f0) = es_counts();
        let tally = es_tally();
        let mut calls: BTreeMap<&str, u64> = BTreeMap::new();
        let mut by_action: BTreeMap<&str, u64> = BTreeMap::new();
        let (mut want_ok, mut want_fail) = (0u64, 0u64);
        let mut big = false;
        let nf = if long { 300 } else { r.range(2, 12) };
        for f in 0..nf {
            let n = if long { (f == 0) as u64 } else { *r.pick(&[0u64, 1, 2, 6, 25]) };
            let n = if !long && !big && r.below(400) == 0 {
                big = true;
                2500
            } else {
                n
            };
            for _ in 0..n {
                let nt = r.below(4);
                let t = odd_tags(r, nt, &K);
                let nfld = r.below(3);
                let mut fl = odd_tags(r, nfld, &FK);
                // A field of a tag's name stands in its place.
                if !t.is_empty() && r.chance(15) {
                    let k = r.pick(&t).0.clone();
                    fl.push((k, text(r, 3)));
                    rep.add("fields_named_as_tags", 1);
                }
                let near = 1_500_000_000 + r.range(0, 400_000);
                let any = r.range(-60_000_000_000, 200_000_000_000);
                let ts = *r.pick(&[0i64, -1, 86_399, 86_400, 1_500_000_000, 1_514_764_799, 4_102_444_800, near, any]);
                let mut l = LogLine::new(format!("/l/{}", r.pick(&["a", "b c", "ü", "q\"", "\\", ""])), text(r, 6)).time(ts);
                for (k, v) in &t {
                    l = l.overlay_tag(k.clone(), v.clone());
                }
                for (k, v) in &fl {
                    l = l.insert_field(k.clone(), v.clone());
                }
                docs.push(Doc { id: None, line: l.clone(), tags: visible(&t, &dflt), fields: fl, attempts: 0, fate: "", sent: 0 });
                e.deliver_line(l);
                rep.add("lines", 1);
            }
            let style = if long {
                "fail"
            } else {
                *r.pick(&["ok", "ok", "mixed", "mixed", "mixed", "fail", "omit", "twice", "stray", "500", "503", "429", "api", "api", "close", "reset", "partial", "garbage", "notjson", "odd", "refused"])
            };
            let style = if style == "api" { r.pick(&API_ERRORS).0 } else { style };
            log.push(format!("+{} lines, flush answered {}", n, style));
            plan.lock().unwrap().0 = style.to_string();
            outcome.lock().unwrap().clear();
            if style == "refused" {
                srv.take().unwrap().stop();
            }
            let base = seen.lock().unwrap().len();
            e.flush();
            if style == "refused" {
                let f = serve.clone();
                srv = Some(Http::start(&ip, port, move |q| f(q)));
            }
            rep.add("flushes", 1);
            rep.add(&format!("answer_{}", style), 1);
            let reqs: Vec<Req> = seen.lock().unwrap()[base..].to_vec();
            let pending: Vec<usize> = (0..docs.len()).filter(|i| docs[*i].fate == "").collect();
            if pending.is_empty() {
                if !reqs.is_empty() {
                    rep.viol("idle-request", format!("a request without pending lines: {:?} after {:?}", String::from_utf8_lossy(&reqs[0].body), log));
                    return;
                }
                continue;
            }
            if style == "refused" {
                continue;
            }
            // The HTTP client may itself repeat a request whose connection died.
            let broken = style == "close" || style == "reset";
            if reqs.is_empty() || (reqs.len() > 1 && !broken) {
                rep.viol("requests", format!("{} requests for one flush with {} pending lines after {:?}", reqs.len(), pending.len(), log));
                return;
            }
            rep.add("requests", reqs.len() as u64);
            let kind = match style {
                "ok" | "mixed" | "fail" | "omit" | "twice" | "stray" => "records.delivery",
                s => s,
            };
            *calls.entry(kind).or_insert(0) += 1;
            for q in &reqs {
                if let Err((sig, d)) = check_bulk(q, &mut docs, &pending, &prefix, &ty) {
                    rep.viol(sig, format!("{} after {:?}", d, log));
                    return;
                }
                rep.add("documents_compared", pending.len() as u64);
            }
            let mut answered = outcome.lock().unwrap().clone();
            let mut once = BTreeSet::new();
            answered.retain(|(id, _, _)| once.insert(id.clone()));
            for (id, ok, action) in answered {
                if let Some(d) = docs.iter_mut().find(|d| d.id.as_ref() == Some(&id)) {
                    if ok {
                        d.fate = "indexed";
                        want_ok += 1;
                        rep.add("indexed", 1);
                    } else {
                        d.attempts += 1;
                        want_fail += 1;
                        *by_action.entry(action).or_insert(0u64) += 1;
                        rep.add("rejected", 1);
                        if d.attempts > limit as u64 {
                            d.fate = "given up";
                            rep.add("given_up", 1);
                        }
                    }
                }
            }
            let (d1, f1) = es_counts();
            // Items named twice may be counted twice while they are pending.
            if style == "twice" {
                want_ok = d1 - d0;
                want_fail = f1 - f0;
                for d in docs.iter_mut().filter(|d| d.fate == "" && d.attempts > 0) {
                    // ambiguous attempts: the limit is not judged any more
                    d.attempts = d.attempts.max(1);
                }
                if docs.iter().any(|d| d.fate == "" && d.attempts > 0) {
                    break;
                }
            } else if d1 - d0 != want_ok || f1 - f0 != want_fail {
                rep.viol("counters", format!("delivered {} failed {} expected {} {} after {:?}", d1 - d0, f1 - f0, want_ok, want_fail, log));
                return;
            }
        }
        rep.seen(&log);
        rep.sample(log.join("; "));
        plan.lock().unwrap().0 = "ok".to_string();
        let base = seen.lock().unwrap().len();
        e.shutdown();
        let reqs: Vec<Req> = seen.lock().unwrap()[base..].to_vec();
        let pending: Vec<usize> = (0..docs.len()).filter(|i| docs[*i].fate == "").collect();
        let ambiguous = log.last().map_or(false, |l| l.ends_with("twice"));
        *calls.entry("records.delivery").or_insert(0) += reqs.len() as u64;
        let failed = tally.moved("records.total_failed");
        let mut due = vec![];
        let mut rest = failed;
        for (n, w) in &[("error.bulk_action.create", "create"), ("error.bulk_action.update", "update"), ("error.bulk_action.delete", "delete")] {
            let c = by_action.get(w).cloned().unwrap_or(0);
            due.push((*n, c, c));
            rest = rest.saturating_sub(c);
        }
        due.push(("error.bulk_action.index", rest, rest));
        // A whole answer that is an error of no known kind.
        let odd: u64 = ["500", "503", "429", "notjson"].iter().map(|w| calls.get(w).cloned().unwrap_or(0)).sum();
        let broken: u64 = ["partial", "garbage", "close", "reset", "odd"].iter().map(|w| calls.get(w).cloned().unwrap_or(0)).sum();
        let other = tally.moved("error.client") + tally.moved("error.api.unknown");
        if other < odd || other > odd + broken {
            rep.viol("counters", format!("{} answers were unreadable or unknown errors (and {} broken off), {} were counted; {}", odd, broken, other, log.join("; ")));
        }
        for n in API_ERRORS.iter().map(|e| e.0).chain(Some("records.delivery")) {
            let c = calls.get(n).cloned().unwrap_or(0);
            due.push((n, c, c));
        }
        tally.judge(rep, &due, &log.join("; "));
        if !pending.is_empty() && reqs.is_empty() && !ambiguous {
            rep.viol("shutdown-unsent", format!("{} pending lines not sent at shutdown after {:?}", pending.len(), log));
        }
        if !ambiguous {
            for q in &reqs {
                if let Err((sig, d)) = check_bulk(q, &mut docs, &pending, &prefix, &ty) {
                    rep.viol(sig, format!("at shutdown: {} after {:?}", d, log));
                    return;
                }
            }
        }
        if let Some(s) = srv {
            s.stop();
        }
    });
}

fn item(r: &mut Rng, id: &str, fail: bool, action: &str) -> serde_json::Value {
    let body = if fail {
        let (st, ty) = *r.pick(&[(429, "es_rejected_execution_exception"), (400, "mapper_parsing_exception"), (503, "unavailable_shards_exception"), (409, "version_conflict_engine_exception"), (404, "index_not_found_exception"), (500, "x")]);
        let mut e = json!({"type": ty, "reason": "because"});
        if r.chance(20) {
            e["caused_by"] = json!({"type": "illegal_argument_exception", "reason": "deeper"});
            e["index"] = json!("i");
        }
        json!({"_index": "i", "_type": "t", "_id": id, "status": st, "error": e})
    } else if r.chance(80) {
        json!({"_index": "i", "_type": "t", "_id": id, "_version": 1, "result": "created", "_shards": {"total": 2, "successful": 1, "failed": 0}, "created": true, "status": 201})
    } else {
        json!({"_index": "i", "_type": "t", "_id": id, "_version": 7, "result": "updated", "_shards": {"total": 2, "successful": 1, "failed": 1}, "status": 200})
    };
    let mut m = serde_json::Map::new();
    m.insert(action.to_string(), body);
    serde_json::Value::Object(m)
}

fn check_bulk(q: &Req, docs: &mut Vec<Doc>, pending: &[usize], prefix: &Option<String>, ty: &str) -> Result<(), (&'static str, String)> {
    if q.method != "POST" || !q.path.starts_with("/_bulk") {
        return Err(("request", format!("{} {}", q.method, q.path)));
    }
    let text = String::from_utf8(q.body.clone()).map_err(|_| ("bulk-format", "the body is not UTF-8".to_string()))?;
    if !text.ends_with('\n') {
        return Err(("bulk-format", "the body does not end with a newline".to_string()));
    }
    let lines: Vec<&str> = text[..text.len() - 1].split('\n').collect();
    if lines.len() != 2 * pending.len() {
        return Err(("bulk-lines", format!("{} body lines for {} pending log lines", lines.len(), pending.len())));
    }
    for (n, i) in pending.iter().enumerate() {
        let head: serde_json::Value = serde_json::from_str(lines[2 * n]).map_err(|e| ("bulk-format", format!("{}: {:?}", e, lines[2 * n])))?;
        let doc: serde_json::Value = serde_json::from_str(lines[2 * n + 1]).map_err(|e| ("bulk-format", format!("{}: {:?}", e, lines[2 * n + 1])))?;
        let d = &mut docs[*i];
        let id = head["index"]["_id"].as_str().unwrap_or("").to_string();
        d.sent += 1;
        match d.id {
            None => d.id = Some(id.clone()),
            Some(ref o) if *o != id => return Err(("id-changed", format!("line {:?} was sent as {} and now as {}", d.line.value, o, id))),
            _ => {}
        }
        let date = cernan::time::utc(d.line.time);
        let index = match prefix {
            Some(p) => format!("{}-{}", p, date.format("%Y-%m-%d")),
            None => date.format("%Y-%m-%d").to_string(),
        };
        let want_head = json!({"index": {"_index": index, "_type": ty, "_id": id}});
        if head != want_head {
            return Err(("bulk-header", format!("{} expected {}", head, want_head)));
        }
        let mut want = json!({"uuid": id, "path": d.line.path, "payload": d.line.value, "timestamp": date.to_rfc3339()});
        for (k, v) in d.tags.iter().chain(&d.fields) {
            want.as_object_mut().unwrap().insert(k.clone(), json!(v));
        }
        if doc != want {
            return Err(("bulk-document", format!("{} expected {}", doc, want)));
        }
    }
    let ids: BTreeSet<_> = docs.iter().filter_map(|d| d.id.clone()).collect();
    if ids.len() != docs.iter().filter(|d| d.id.is_some()).count() {
        return Err(("id-shared", "two lines share an id".to_string()));
    }
    Ok(())
}
