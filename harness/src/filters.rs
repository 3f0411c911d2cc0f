//! F01..F03: delay, flush boundary and JSON encoding filters.
use crate::common::*;
use crate::h::*;
use cernan::filter::{
    DelayFilter, DelayFilterConfig, Filter, FlushBoundaryFilter, FlushBoundaryFilterConfig, JSONEncodeFilter,
    JSONEncodeFilterConfig,
};
use cernan::metric::{Encoding, Event, LogLine, TagMap, Telemetry};
use serde_json::Value;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;
use std::time::Duration;

/// Runs a filter's own thread loop on a history from `sources` upstreams and
/// returns everything its one forward received.
pub fn run_filter<F: Filter + Send + 'static>(mut f: F, work: &str, r: &mut Rng, sources: usize, evs: Vec<Event>) -> Option<Vec<Event>> {
    let dir = std::path::PathBuf::from(format!("{}/f{:x}", work, r.next()));
    std::fs::create_dir_all(&dir).unwrap();
    let (mut snd, rcv) = hopper::channel_with_explicit_capacity::<Event>("in", &dir, 1 << 22, 1 << 22, 1).unwrap();
    let (osnd, orcv) = hopper::channel_with_explicit_capacity::<Event>("out", &dir, 1 << 22, 1 << 22, 1).unwrap();
    let names: Vec<String> = (0..sources).map(|i| format!("src{}", i)).collect();
    let mut end = osnd.clone();
    let t = std::thread::spawn(move || f.run(rcv, names, vec![osnd]));
    for e in evs {
        if snd.send(e).is_err() {
            harness_fail("queue full");
        }
    }
    for _ in 0..sources {
        let _ = snd.send(Event::Shutdown);
    }
    drop(snd);
    // The filter's thread ends after its one Shutdown.
    let (done_s, done_r) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let x = t.join();
        let _ = done_s.send(x.is_ok());
    });
    let ok = match done_r.recv_timeout(Duration::from_secs(200)) {
        Ok(x) => x,
        Err(_) => return None,
    };
    // Everything it sent is queued by now; the mark comes after it.
    let mark = u64::max_value();
    if end.send(Event::TimerFlush(mark)).is_err() {
        harness_fail("queue full");
    }
    let mut out = Vec::new();
    let mut it = orcv.into_iter();
    loop {
        match it.next() {
            Some(Event::TimerFlush(m)) if m == mark => break,
            Some(e) => out.push(e),
            None => {}
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if !ok {
        return None;
    }
    Some(out)
}

fn same(rep: &mut Rep, sig: &str, what: &str, want: &[String], got: &[String]) -> bool {
    if want == got {
        return true;
    }
    let i = want.iter().zip(got.iter()).take_while(|(a, b)| a == b).count();
    rep.viol(
        sig,
        format!(
            "{}: {} events expected, {} seen, first difference at {}\n  want {:?}\n  got  {:?}",
            what,
            want.len(),
            got.len(),
            i,
            want.get(i).map(|x| clip(x, 400)),
            got.get(i).map(|x| clip(x, 400))
        ),
    );
    false
}

fn with_time(e: Event, ts: i64) -> Event {
    match e {
        Event::Telemetry(t) => Event::Telemetry(t.timestamp(ts)),
        Event::Log(l) => Event::Log(l.time(ts)),
        e => e,
    }
}

pub fn f01(a: &Args, rep: &mut Rep) {
    use cernan::filter::delay_filter::*;
    run_cases(a, rep, |r, rep| {
        // The filter is made at one time and works at others.
        let cfg0 = crate::clock::tick(r);
        let mut now = cfg0;
        let threaded = r.chance(10);
        let mut ticks: Vec<(usize, i64)> = vec![];
        let tol = *r.pick(&[0i64, 1, 2, 60, 3600, 1 << 32, i64::max_value() - 1, i64::max_value()]);
        let n = r.range(1, 60);
        let mut pulse = 0;
        let mut evs = Vec::new();
        let mut want = Vec::new();
        let mut counts = [0usize; 4];
        for i in 0..n {
            if (i == 0 && r.chance(70) || !threaded && r.chance(10)) && crate::clock::may(r) {
                let far = tol.min(1 << 30);
                now = (now + *r.pick(&[1i64, 2, 60, -1, -60, far, -far, far + 1])).max(1_000_000_000).min(8_000_000_000);
                ticks.push((evs.len(), now));
                rep.add("clock_moves", 1);
            }
            if r.chance(15) {
                if !r.chance(30) {
                    pulse += 1;
                }
                evs.push(Event::TimerFlush(pulse));
                want.push(format!("F {}", pulse));
                continue;
            }
            let ts = match r.below(9) {
                0 => now.saturating_add(tol),
                1 => now.saturating_sub(tol),
                2 => now.saturating_add(tol).saturating_add(1),
                3 => now.saturating_sub(tol).saturating_sub(1),
                4 => *r.pick(&[i64::min_value(), i64::max_value(), 0, -1, 1, i64::min_value() + 1]),
                5 => now,
                6 => now.saturating_add(r.range(-5, 5)),
                7 => r.next() as i64,
                _ => now.saturating_add(r.range(-5000, 5000)),
            };
            let e = with_time(gen_event(r, &format!("e{}", i), 300), ts);
            let inside = (ts as i128 - now as i128).abs() <= tol as i128;
            match &e {
                Event::Telemetry(_) => counts[if inside { 0 } else { 1 }] += 1,
                Event::Log(_) => counts[if inside { 2 } else { 3 }] += 1,
                _ => {}
            }
            let keep = match e {
                Event::Telemetry(_) | Event::Log(_) => inside,
                _ => true,
            };
            if keep {
                want.push(fp(&e));
            }
            evs.push(e);
        }
        rep.seen(&(tol, &want));
        rep.sample(format!("tolerance {}, {} events of which {} pass", tol, evs.len(), want.len()));
        rep.add("events", evs.len() as u64);
        rep.add("events_passing", want.len() as u64);
        let before = [
            DELAY_TELEM_ACCEPT.load(Ordering::SeqCst),
            DELAY_TELEM_REJECT.load(Ordering::SeqCst),
            DELAY_LOG_ACCEPT.load(Ordering::SeqCst),
            DELAY_LOG_REJECT.load(Ordering::SeqCst),
        ];
        let cfg = DelayFilterConfig { config_path: Some("f".to_string()), forwards: vec![], tolerance: tol };
        let mut f = DelayFilter::new(&cfg);
        let mut got = Vec::new();
        if threaded {
            let k = r.range(1, 3) as usize;
            if let Some(t) = ticks.first() {
                crate::clock::set(t.1);
            }
            match run_filter(f, &a.work, r, k, evs) {
                Some(o) => got = o,
                None => {
                    rep.viol("filter-died", format!("the filter's thread panicked or hung: {:?}", take_panics()));
                    return;
                }
            }
            want.push("S".to_string());
            rep.add("threaded_runs", 1);
        } else {
            for (i, e) in evs.into_iter().enumerate() {
                for t in ticks.iter().filter(|t| t.0 == i) {
                    crate::clock::set(t.1);
                }
                let _ = f.process(e, &mut got);
            }
        }
        let got: Vec<String> = got.iter().map(fp).collect();
        same(rep, "delay-output", &format!("tolerance {}, made at {}, (event, time) moves {:?}", tol, cfg0, ticks), &want, &got);
        let after = [
            DELAY_TELEM_ACCEPT.load(Ordering::SeqCst),
            DELAY_TELEM_REJECT.load(Ordering::SeqCst),
            DELAY_LOG_ACCEPT.load(Ordering::SeqCst),
            DELAY_LOG_REJECT.load(Ordering::SeqCst),
        ];
        let d: Vec<usize> = (0..4).map(|i| after[i] - before[i]).collect();
        if d != counts.to_vec() {
            rep.viol("delay-counters", format!("telemetry accepted/rejected, logs accepted/rejected: counted {:?}, were {:?}", d, counts));
        }
    });
}

struct MHold {
    ts: i64,
    age: usize,
    evs: Vec<String>,
}

pub fn f02(a: &Args, rep: &mut Rep) {
    run_cases(a, rep, |r, rep| {
        let tol = *r.pick(&[0usize, 0, 1, 1, 2, 5]);
        let bound = tol * 100;
        let ups = r.range(1, 3);
        let pulses = r.range(0, (bound as i64) * 2 + 30);
        let base = r.range(-50, 1_500_000_000);
        let spread = *r.pick(&[0i64, 1, 5, 1000]);
        // Upstream histories: each upstream sends every pulse once, in order;
        // events fall anywhere between them.
        let mut seq: Vec<Option<u64>> = Vec::new(); // Some(pulse) or an event
        let mut next = vec![1u64; ups as usize];
        let density = *r.pick(&[1u64, 5, 30, 70]);
        let mut left = pulses as usize * ups as usize;
        let mut nev = 0;
        while left > 0 || nev < 3 {
            if nev < 400 && r.chance(density) || left == 0 {
                seq.push(None);
                nev += 1;
            } else {
                let u = r.below(ups as u64) as usize;
                if next[u] <= pulses as u64 {
                    seq.push(Some(next[u]));
                    next[u] += 1;
                    left -= 1;
                }
            }
        }
        let mut evs = Vec::new();
        let mut holds: Vec<MHold> = Vec::new();
        // Expected output as groups: within a group any order of time bins.
        let mut want: Vec<(Vec<MHold>, Option<String>)> = Vec::new();
        let mut last = 0;
        let mut released = 0u64;
        let mut repeats = 0u64;
        for (i, s) in seq.iter().enumerate() {
            match s {
                Some(p) => {
                    evs.push(Event::TimerFlush(*p));
                    if *p <= last {
                        repeats += 1;
                        continue;
                    }
                    last = *p;
                    let mut out = Vec::new();
                    let mut keep = Vec::new();
                    for mut h in holds.drain(..) {
                        h.age += 1;
                        if h.age > bound {
                            released += h.evs.len() as u64;
                            out.push(h)
                        } else {
                            keep.push(h)
                        }
                    }
                    holds = keep;
                    want.push((out, Some(format!("F {}", p))));
                }
                None => {
                    let e = gen_event(r, &format!("e{}", i), 100);
                    let e = match e {
                        Event::Telemetry(_) | Event::Log(_) => with_time(e, base + r.range(-spread, spread)),
                        e => e,
                    };
                    match e.timestamp() {
                        Some(ts) => match holds.iter_mut().find(|h| h.ts == ts) {
                            Some(h) => h.evs.push(fp(&e)),
                            None => holds.push(MHold { ts, age: 0, evs: vec![fp(&e)] }),
                        },
                        None => want.push((vec![], Some(fp(&e)))),
                    }
                    evs.push(e);
                }
            }
        }
        rep.seen(&(tol, ups, pulses, nev, base));
        rep.sample(format!("tolerance {} s, {} upstreams, {} pulses, {} events", tol, ups, pulses, nev));
        rep.add("events", nev);
        rep.add("repeated_pulses", repeats);
        rep.add("released_by_pulse", released);
        rep.add("released_at_shutdown", holds.iter().map(|h| h.evs.len() as u64).sum());
        let cfg = FlushBoundaryFilterConfig { config_path: Some("f".to_string()), forwards: vec![], tolerance: tol };
        let mut f = FlushBoundaryFilter::new(&cfg);
        let mut got = Vec::new();
        if r.chance(15) {
            match run_filter(f, &a.work, r, ups as usize, evs) {
                Some(o) => got = o,
                None => {
                    rep.viol("filter-died", format!("the filter's thread panicked or hung: {:?}", take_panics()));
                    return;
                }
            }
            rep.add("threaded_runs", 1);
        } else {
            for e in evs {
                let _ = f.process(e, &mut got);
            }
            let _ = f.process(Event::Shutdown, &mut got);
        }
        want.push((holds, Some("S".to_string())));
        let got: Vec<String> = got.iter().map(fp).collect();
        let mut at = 0;
        for (hs, end) in want {
            let n: usize = hs.iter().map(|h| h.evs.len()).sum();
            let seg: Vec<String> = got[at.min(got.len())..(at + n).min(got.len())].to_vec();
            let mut ok = seg.len() == n;
            if ok {
                let mut a1: Vec<String> = hs.iter().flat_map(|h| h.evs.clone()).collect();
                let mut b1 = seg.clone();
                a1.sort();
                b1.sort();
                ok = a1 == b1;
            }
            if ok {
                // events of one time bin in the order they came
                for h in &hs {
                    let set: std::collections::HashSet<&String> = h.evs.iter().collect();
                    let sub: Vec<&String> = seg.iter().filter(|x| set.contains(x)).collect();
                    if sub != h.evs.iter().collect::<Vec<_>>() {
                        rep.viol("boundary-order", format!("time bin {}: sent {:?} released {:?}", h.ts, h.evs, sub));
                        return;
                    }
                }
            }
            at += n;
            if ok {
                if let Some(e) = &end {
                    ok = got.get(at) == Some(e);
                    at += 1;
                }
            }
            if !ok {
                rep.viol(
                    "boundary-release",
                    format!(
                        "tolerance {} s ({} pulses), {} upstreams: before {:?} expected release of {} events {:?}; output there: {:?}",
                        tol,
                        bound,
                        ups,
                        end,
                        n,
                        hs.iter().flat_map(|h| h.evs.clone()).map(|x| clip(&x, 60)).take(4).collect::<Vec<_>>(),
                        got.iter().skip(at.saturating_sub(n + 1)).take(n + 2).map(|x| clip(x, 60)).take(6).collect::<Vec<_>>()
                    ),
                );
                return;
            }
        }
        if at != got.len() {
            rep.viol("boundary-extra", format!("{} further events: {:?}", got.len() - at, got.get(at).map(|x| clip(x, 300))));
        }
    });
}

/// RFC 3339 of a time of the years 0 to 9999, computed here.
fn rfc3339(t: i64) -> Option<String> {
    let days = t.div_euclid(86400);
    let sec = t.rem_euclid(86400);
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    if y < 0 || y > 9999 {
        return None;
    }
    Some(format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}+00:00", y, m, d, sec / 3600, sec / 60 % 60, sec % 60))
}

fn gen_json(r: &mut Rng, depth: u32) -> Value {
    match r.below(if depth == 0 { 6 } else { 8 }) {
        0 => Value::Null,
        1 => json!(r.chance(50)),
        2 => json!(*r.pick(&[0i64, -1, i64::max_value(), i64::min_value(), 42])),
        3 => json!(*r.pick(&[u64::max_value(), 1 << 63, 7])),
        4 => json!(*r.pick(&[0.5f64, -1e300, 1e-300, 3.25, 123456.789])),
        5 => json!(text(r, 3)),
        6 => Value::Array((0..r.below(4)).map(|_| gen_json(r, depth - 1)).collect()),
        _ => {
            let mut m = serde_json::map::Map::new();
            for _ in 0..r.below(4) {
                let k = jkey(r);
                m.insert(k, gen_json(r, depth - 1));
            }
            Value::Object(m)
        }
    }
}

fn jkey(r: &mut Rng) -> String {
    if r.chance(40) {
        r.pick(&["time", "path", "tags", "message", "a", "", "f0"]).to_string()
    } else {
        text(r, 2)
    }
}

fn jeq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            x == y || {
                let (p, q) = (x.as_f64().unwrap(), y.as_f64().unwrap());
                x.is_f64() && y.is_f64() && (p - q).abs() <= 1e-12 * p.abs().max(q.abs())
            }
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| jeq(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| jeq(v, w))),
        _ => a == b,
    }
}

fn gen_text(r: &mut Rng, rep: &mut Rep) -> (String, Option<Value>) {
    match r.below(12) {
        0..=4 => {
            let mut m = serde_json::map::Map::new();
            for _ in 0..r.below(5) {
                let k = jkey(r);
                m.insert(k, gen_json(r, 3));
            }
            let v = Value::Object(m);
            let mut s = if r.chance(30) { serde_json::to_string_pretty(&v).unwrap() } else { v.to_string() };
            if r.chance(20) {
                s = format!(" \t{}\n ", s);
            }
            if r.chance(15) && !s.contains("false") {
                // escapes JSON allows that the writer would not use
                s = s.replace('a', "\\u0061");
            }
            rep.add("json_objects", 1);
            (s, Some(v))
        }
        5 => (gen_json(r, 2).to_string(), None).map_obj(),
        6 => {
            let mut m = serde_json::map::Map::new();
            m.insert("k".to_string(), gen_json(r, 2));
            let s = Value::Object(m).to_string();
            let t = match r.below(4) {
                0 => s[..s.len() - 1].to_string(),
                1 => format!("{}x", s),
                2 => format!("{}{}", s, s),
                _ => s.replacen('"', "'", 1),
            };
            (t, None)
        }
        7 => (format!("{}1{}", "{\"a\":".repeat(1000), "}".repeat(1000)), None),
        8 => {
            let n = r.below(40);
            ((0..n).map(|_| std::char::from_u32(r.below(0x300) as u32).unwrap_or('x')).collect(), None)
        }
        9 => ("[".repeat(100_000), None),
        _ => (text(r, 8), None),
    }
}

trait MapObj {
    fn map_obj(self) -> (String, Option<Value>);
}

impl MapObj for (String, Option<Value>) {
    /// Text that is a whole JSON value: an object counts as one.
    fn map_obj(self) -> (String, Option<Value>) {
        match serde_json::from_str::<Value>(&self.0) {
            Ok(v @ Value::Object(_)) => (self.0, Some(v)),
            _ => (self.0, None),
        }
    }
}

pub fn f03(a: &Args, rep: &mut Rep) {
    use cernan::filter::json_encode_filter::{JSON_ENCODE_LOG_PARSED, JSON_ENCODE_LOG_PROCESSED};
    run_cases(a, rep, |r, rep| {
        let parse_line = r.chance(60);
        let mut defaults = TagMap::default();
        for _ in 0..r.below(4) {
            defaults.insert(format!("t{}", r.below(4)), text(r, 2));
        }
        let mut f = JSONEncodeFilter::new(JSONEncodeFilterConfig {
            config_path: Some("f".to_string()),
            forwards: vec![],
            parse_line,
            tags: defaults.clone(),
        });
        for _ in 0..r.range(1, 12) {
            if r.chance(25) {
                // everything but a log line passes unchanged
                let e = match gen_event(r, "other", 500) {
                    Event::Log(_) => Event::TimerFlush(r.next()),
                    e => e,
                };
                let w = fp(&e);
                let mut got = Vec::new();
                let ok = f.process(e, &mut got).is_ok();
                let g: Vec<String> = got.iter().map(fp).collect();
                if !ok || g != vec![w.clone()] {
                    rep.viol("passthrough", format!("{} became {:?}", w, g));
                }
                rep.add("passed_through", 1);
                continue;
            }
            let (txt, obj) = gen_text(r, rep);
            let time = match r.below(5) {
                0 => *r.pick(&[i64::max_value(), i64::min_value(), 0, -1, 951_782_400, 253_402_300_799, 253_402_300_800, 1 << 43]),
                1 => r.next() as i64,
                _ => r.range(-60_000_000_000, 200_000_000_000),
            };
            let path = text(r, 3);
            let mut l = LogLine::new(path.clone(), txt.clone()).time(time);
            let mut tags: BTreeMap<String, String> = defaults.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            for _ in 0..r.below(4) {
                let (k, v) = (format!("t{}", r.below(6)), text(r, 2));
                l = l.overlay_tag(k.clone(), v.clone());
                tags.insert(k, v);
            }
            let mut fields = BTreeMap::new();
            for _ in 0..r.below(4) {
                let (k, v) = (jkey(r), text(r, 3));
                l = l.insert_field(k.clone(), v.clone());
                fields.insert(k, v);
            }
            let mut want = serde_json::map::Map::new();
            want.insert("path".to_string(), json!(path));
            want.insert("tags".to_string(), json!(tags));
            let t = rfc3339(time);
            want.insert("time".to_string(), json!(t));
            for (k, v) in &fields {
                want.insert(k.clone(), json!(v));
            }
            let parsed = parse_line && obj.is_some();
            let mut own_time = fields.contains_key("time");
            match &obj {
                Some(Value::Object(m)) if parse_line => {
                    for (k, v) in m {
                        want.insert(k.clone(), v.clone());
                        own_time |= k == "time";
                    }
                }
                _ => {
                    want.insert("message".to_string(), json!(txt));
                }
            }
            let (p0, q0) = (JSON_ENCODE_LOG_PROCESSED.load(Ordering::SeqCst), JSON_ENCODE_LOG_PARSED.load(Ordering::SeqCst));
            let mut got = Vec::new();
            let res = f.process(Event::new_log(l), &mut got);
            let (p1, q1) = (JSON_ENCODE_LOG_PROCESSED.load(Ordering::SeqCst), JSON_ENCODE_LOG_PARSED.load(Ordering::SeqCst));
            rep.add("lines", 1);
            rep.add(if parsed { "lines_parsed" } else { "lines_as_message" }, 1);
            rep.seen(&(&txt, time, &path, parse_line));
            if res.is_err() || got.len() != 1 {
                rep.viol("encode-count", format!("{} events for one line {:?}", got.len(), clip(&txt, 300)));
                continue;
            }
            match &got[0] {
                Event::Raw { encoding, bytes, .. } => {
                    let v: Value = match std::str::from_utf8(bytes).ok().and_then(|s| serde_json::from_str(s).ok()) {
                        Some(v) => v,
                        None => {
                            rep.viol("encode-invalid", format!("not JSON: {:?}", clip(&String::from_utf8_lossy(bytes), 600)));
                            continue;
                        }
                    };
                    if *encoding != Encoding::JSON {
                        rep.viol("encode-encoding", format!("{:?}", encoding));
                    }
                    if t.is_none() && !own_time {
                        // no agreed text for such a time
                        match v.get("time") {
                            Some(Value::String(s)) => {
                                want.insert("time".to_string(), json!(s));
                            }
                            x => rep.viol("encode-time", format!("time {} gave {:?}", time, x)),
                        }
                        rep.add("times_beyond_four_digit_years", 1);
                    }
                    if !jeq(&Value::Object(want.clone()), &v) {
                        rep.viol(
                            "encode-content",
                            format!("parse_line {} text {:?}\n  want {}\n  got  {}", parse_line, clip(&txt, 500), clip(&Value::Object(want).to_string(), 1200), clip(&v.to_string(), 1200)),
                        );
                    }
                }
                e => rep.viol("encode-kind", fp(e)),
            }
            if p1 - p0 != 1 || q1 - q0 != parsed as usize {
                rep.viol("encode-counters", format!("processed +{} parsed +{}, expected +1 +{}", p1 - p0, q1 - q0, parsed as usize));
            }
        }
        rep.sample(format!("parse_line {}, {} default tags", parse_line, defaults.iter().count()));
        let _ = Telemetry::new();
    });
}
