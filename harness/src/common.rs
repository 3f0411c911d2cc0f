//! Event generation and fingerprints shared by the topology and IO monitors.
use crate::h::*;
use crate::metricm::{mk, own_tags, value, KINDS};
use cernan::metric::{AggregationMethod as AM, Encoding, Event, LogLine, Metadata, TagMap, Telemetry};
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const WORDS: [&str; 16] = [" lead", "trail ", "\r", "nb\u{a0}", "a", "b c", "héllo", "日本", "x.y.z", "q\"uote", "tab\tbed", "back\\slash", "", "=", "new\nline", "🦀"];

pub fn text(r: &mut Rng, n: u64) -> String {
    let mut s = String::new();
    for _ in 0..r.below(n + 1) {
        s.push_str(*r.pick(&WORDS));
        if r.chance(30) {
            s.push_str(&r.below(1000).to_string());
        }
    }
    s
}

pub fn bytes(r: &mut Rng, n: u64) -> Vec<u8> {
    (0..n).map(|_| r.next() as u8).collect()
}

/// An event that carries `id` where every route keeps it: the name, path or
/// the ordering metadata.
pub fn gen_event(r: &mut Rng, id: &str, rawmax: u64) -> Event {
    let mut tags = Vec::new();
    for i in 0..if r.chance(4) { 25 } else { r.below(4) } {
        tags.push((format!("t{}{}", i, text(r, 1)), text(r, 2)));
    }
    match r.below(5) {
        0 | 1 | 2 => {
            let k = *r.pick(&KINDS);
            let all = [-1e300, -1.0, 0.0, 0.1, 0.5, 10.0, 1e4, 1e9];
            let bounds: Vec<f64> = if r.chance(60) { vec![-1.0, 0.5, 10.0, 1e4] } else { all.iter().cloned().filter(|_| r.chance(50)).chain(Some(1e300)).collect() };
            let ts = *r.pick(&[0i64, 1, -7, 1_500_000_000, 4_000_000_000, i64::max_value(), i64::min_value()]);
            let mut t = mk(id, k, value(r), &bounds, ts, r.chance(40), &tags);
            if k == AM::Histogram || k == AM::Summarize {
                let extra = *r.pick(&[0u64, 1, 3, 20]);
                for _ in 0..extra {
                    t = t.insert(value(r));
                }
            }
            Event::new_telemetry(t)
        }
        3 => {
            let mut l = LogLine::new(id.to_string(), text(r, 6)).time(r.range(-5, 2_000_000_000));
            for (k, v) in &tags {
                l = l.overlay_tag(k.clone(), v.clone());
            }
            for i in 0..r.below(3) {
                l = l.insert_field(format!("f{}{}", i, text(r, 1)), text(r, 2));
            }
            Event::new_log(l)
        }
        _ => {
            let mut m = Metadata::default();
            m.insert(b"id".to_vec(), id.as_bytes().to_vec());
            for i in 0..r.below(3) {
                let n = r.below(6);
                let v = bytes(r, n);
                m.insert(format!("m{}", i).into_bytes(), v);
            }
            let n = r.below(rawmax + 1);
            Event::Raw {
                order_by: r.next(),
                encoding: [Encoding::Raw, Encoding::Avro, Encoding::JSON][r.below(3) as usize].clone(),
                bytes: bytes(r, n),
                metadata: Some(m),
                connection_id: if r.chance(50) { Some(uuid::Uuid::from_bytes(&bytes(r, 16)).unwrap()) } else { None },
            }
        }
    }
}

fn tm(t: &BTreeMap<String, String>) -> String {
    t.iter().filter(|(k, _)| k.as_str() != "route").map(|(k, v)| format!("{:?}={:?}", k, v)).collect::<Vec<_>>().join(",")
}

pub fn log_tags(l: &LogLine) -> BTreeMap<String, String> {
    let d = TagMap::default();
    l.tags(&d).map(|(k, v)| (k.clone(), v.clone())).collect()
}

pub fn fp_telem(t: &Telemetry) -> String {
    let bins: Vec<String> = t.bins().map(|b| b.map(|x| format!("{:?}", x)).collect()).unwrap_or_default();
    let qs: Vec<Option<f64>> = if t.kind() == AM::Summarize { [0.0, 0.25, 0.5, 0.9, 1.0].iter().map(|q| t.query(*q)).collect() } else { vec![] };
    format!(
        "T {:?} {:?} ts={} p={} v={:?}/{:?} n={} sum={:?} s={:?} b={:?} q={:?} [{}]",
        t.name, t.kind(), t.timestamp, t.persist, t.set(), t.sum(), t.count(), t.samples_sum(), t.samples(), bins, qs, tm(&own_tags(t))
    )
}

pub fn fp_log(l: &LogLine) -> String {
    let f: BTreeMap<_, _> = l.fields.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    format!("L {:?} {:?} ts={} [{}] f[{}]", l.path, l.value, l.time, tm(&log_tags(l)), tm(&f))
}

/// Everything the public interface shows of an event, less its route tag.
pub fn fp(e: &Event) -> String {
    match e {
        Event::Telemetry(t) => fp_telem(t),
        Event::Log(l) => fp_log(l),
        Event::Raw { order_by, encoding, bytes, metadata, connection_id } => {
            let m: BTreeMap<_, _> = metadata.iter().flat_map(|m| m.iter()).filter(|(k, _)| k.as_slice() != b"route").collect();
            format!("R {} {:?} {} bytes {:x} m={:?} some={} c={:?}", order_by, encoding, bytes.len(), h64(bytes), m, metadata.is_some(), connection_id)
        }
        Event::TimerFlush(i) => format!("F {}", i),
        Event::Shutdown => "S".to_string(),
    }
}

pub fn id_of(e: &Event) -> String {
    match e {
        Event::Telemetry(t) => t.name.clone(),
        Event::Log(l) => l.path.clone(),
        Event::Raw { metadata, .. } => metadata
            .as_ref()
            .and_then(|m| m.get(&b"id".to_vec()).map(|v| String::from_utf8_lossy(v).to_string()))
            .unwrap_or_default(),
        Event::TimerFlush(i) => format!("F{}", i),
        Event::Shutdown => "S".to_string(),
    }
}

pub fn route_of(e: &Event) -> String {
    match e {
        Event::Telemetry(t) => own_tags(t).get("route").cloned().unwrap_or_default(),
        Event::Log(l) => log_tags(l).get("route").cloned().unwrap_or_default(),
        Event::Raw { metadata, .. } => metadata
            .as_ref()
            .and_then(|m| m.get(&b"route".to_vec()).map(|v| String::from_utf8_lossy(v).to_string()))
            .unwrap_or_default(),
        _ => String::new(),
    }
}

pub fn add_route(e: Event, f: usize) -> Event {
    let r = format!("{}>{}", route_of(&e), f);
    match e {
        Event::Telemetry(t) => Event::Telemetry(t.overlay_tag("route".to_string(), r)),
        Event::Log(l) => Event::Log(l.overlay_tag("route".to_string(), r)),
        Event::Raw { order_by, encoding, bytes, metadata, connection_id } => {
            let mut m = metadata.unwrap_or_default();
            m.insert(b"route".to_vec(), r.into_bytes());
            Event::Raw { order_by, encoding, bytes, metadata: Some(m), connection_id }
        }
        e => e,
    }
}

/// Short random pause: nothing, a yield, a spin or a nap.
pub fn jitter(r: &mut Rng, heavy: bool) {
    match r.below(if heavy { 8 } else { 30 }) {
        0 => std::thread::yield_now(),
        1 => {
            let t = Instant::now();
            let n = r.below(60);
            while t.elapsed() < Duration::from_micros(n) {}
        }
        2 => std::thread::sleep(Duration::from_micros(r.below(if heavy { 1500 } else { 300 }))),
        _ => {}
    }
}

pub type Shared<T> = Arc<std::sync::Mutex<T>>;
pub fn shared<T>(t: T) -> Shared<T> {
    Arc::new(std::sync::Mutex::new(t))
}

/// How far some of the counters cernan keeps about itself have moved.
pub struct Tally(Vec<(&'static str, &'static std::sync::atomic::AtomicUsize, usize)>);

impl Tally {
    pub fn new(of: &[(&'static str, &'static std::sync::atomic::AtomicUsize)]) -> Tally {
        Tally(of.iter().map(|(n, c)| (*n, *c, c.load(std::sync::atomic::Ordering::SeqCst))).collect())
    }
    pub fn moved(&self, name: &str) -> u64 {
        let c = self.0.iter().find(|c| c.0 == name).expect("HARNESS counter");
        c.1.load(std::sync::atomic::Ordering::SeqCst).wrapping_sub(c.2) as u64
    }
    /// Each counter named must have moved by lowest..=highest.
    pub fn judge(&self, rep: &mut Rep, want: &[(&str, u64, u64)], after: &str) {
        for (n, lo, hi) in want {
            let m = self.moved(n);
            if m < *lo || m > *hi {
                rep.viol("counters", format!("{} counted {}, due {}..={} after {}", n, m, lo, hi, clip(after, 2500)));
            }
            rep.add("counters_compared", 1);
        }
    }
}
