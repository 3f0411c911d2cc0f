//! M01..M04: metric model properties (aggregation, buckets, tags, quantiles).
use crate::h::*;
use cernan::buckets::Buckets;
use cernan::metric::{AggregationMethod as AM, LogLine, TagMap, Telemetry};
use quantiles::histogram::Bound;
use std::collections::BTreeMap;

pub fn close(a: f64, b: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    let d = (a - b).abs();
    d <= 1e-9 * a.abs().max(b.abs()).max(1.0)
}

pub fn value(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => 0.0,
        1 => r.range(-5, 5) as f64,
        2 => r.range(0, 1_000_000) as f64 / 1000.0,
        3 => -(r.range(0, 1_000_000) as f64) / 7.0,
        4 => r.f() * 1e9,
        5 => r.f() * 1e-6,
        6 => [1.0, 10.0, 100.0, 1000.0][r.below(4) as usize],
        _ => r.range(0, 200) as f64,
    }
}

#[derive(Clone, Debug)]
pub enum MV {
    Set(f64),
    Sum(f64),
    Hist { bounds: Vec<f64>, samples: Vec<f64> },
    Quant { samples: Vec<f64> },
}

impl MV {
    pub fn one(k: AM, v: f64, bounds: &[f64]) -> MV {
        match k {
            AM::Set => MV::Set(v),
            AM::Sum => MV::Sum(v),
            AM::Histogram => MV::Hist { bounds: bounds.to_vec(), samples: vec![v] },
            AM::Summarize => MV::Quant { samples: vec![v] },
        }
    }
    pub fn kind(&self) -> AM {
        match *self {
            MV::Set(_) => AM::Set,
            MV::Sum(_) => AM::Sum,
            MV::Hist { .. } => AM::Histogram,
            MV::Quant { .. } => AM::Summarize,
        }
    }
    pub fn insert(&mut self, v: f64) {
        match self {
            MV::Set(x) => *x = v,
            MV::Sum(x) => *x += v,
            MV::Hist { samples, .. } | MV::Quant { samples } => samples.push(v),
        }
    }
    pub fn add(self, rhs: MV) -> MV {
        match (self, rhs) {
            (_, MV::Set(y)) => MV::Set(y),
            (MV::Set(x), MV::Sum(y)) | (MV::Sum(x), MV::Sum(y)) => MV::Sum(x + y),
            (MV::Hist { samples, .. }, MV::Sum(y)) | (MV::Quant { samples }, MV::Sum(y)) => {
                MV::Sum(samples.iter().sum::<f64>() + y)
            }
            (MV::Set(x), MV::Hist { bounds, mut samples }) | (MV::Sum(x), MV::Hist { bounds, mut samples }) => {
                samples.push(x);
                MV::Hist { bounds, samples }
            }
            (MV::Hist { mut samples, bounds }, MV::Hist { samples: mut s, bounds: other }) => {
                if bounds == other {
                    samples.extend(s);
                } else {
                    // bins that differ cannot be added: the newer stand
                    std::mem::swap(&mut samples, &mut s);
                }
                MV::Hist { bounds: other, samples }
            }
            (MV::Quant { mut samples }, MV::Hist { bounds, samples: s }) => {
                samples.extend(s);
                MV::Hist { bounds, samples }
            }
            (MV::Set(x), MV::Quant { mut samples }) | (MV::Sum(x), MV::Quant { mut samples }) => {
                samples.push(x);
                MV::Quant { samples }
            }
            // samples of a histogram are not recoverable: the summary stands
            (MV::Hist { .. }, MV::Quant { samples }) => MV::Quant { samples },
            (MV::Quant { mut samples }, MV::Quant { samples: s }) => {
                samples.extend(s);
                MV::Quant { samples }
            }
        }
    }
    /// Compares a telemetry's value with the model; None when it agrees.
    /// `exact` asks for the retained samples too (only without compression).
    pub fn diff(&self, t: &Telemetry, exact: bool) -> Option<String> {
        if t.kind() != self.kind() {
            return Some(format!("kind {:?} expected {:?}", t.kind(), self.kind()));
        }
        match self {
            MV::Set(x) => {
                if t.set().map_or(true, |y| !close(*x, y)) || t.sum().is_some() || t.count() != 1 {
                    return Some(format!("set {:?} (count {}) expected {}", t.set(), t.count(), x));
                }
            }
            MV::Sum(x) => {
                if t.sum().map_or(true, |y| !close(*x, y)) || t.set().is_some() || t.count() != 1 {
                    return Some(format!("sum {:?} (count {}) expected {}", t.sum(), t.count(), x));
                }
            }
            MV::Hist { bounds, samples } => {
                let got: Vec<(Bound<f64>, usize)> = t.bins().map(|b| b.cloned().collect()).unwrap_or_default();
                let mut want: Vec<(Bound<f64>, usize)> = bounds.iter().map(|b| (Bound::Finite(*b), 0)).collect();
                want.push((Bound::PosInf, 0));
                for s in samples {
                    let i = bounds.iter().position(|b| s <= b).unwrap_or(bounds.len());
                    want[i].1 += 1;
                }
                if got != want {
                    return Some(format!("bins {:?} expected {:?}", got, want));
                }
                let sum: f64 = samples.iter().sum();
                if t.count() != samples.len() || t.samples_sum().map_or(true, |y| !close(y, sum)) {
                    return Some(format!("histogram count {} sum {:?} expected {} {}", t.count(), t.samples_sum(), samples.len(), sum));
                }
                if !close(t.mean(), sum / samples.len() as f64) {
                    return Some(format!("histogram mean {} expected {}", t.mean(), sum / samples.len() as f64));
                }
            }
            MV::Quant { samples } => {
                let sum: f64 = samples.iter().sum();
                if t.count() != samples.len() || t.samples_sum().map_or(true, |y| !close(y, sum)) {
                    return Some(format!("summary count {} sum {:?} expected {} {}", t.count(), t.samples_sum(), samples.len(), sum));
                }
                if !close(t.mean(), sum / samples.len() as f64) {
                    return Some(format!("summary mean {} expected {}", t.mean(), sum / samples.len() as f64));
                }
                let mut s = samples.clone();
                s.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let near = |a: Option<f64>, b: f64| a.map_or(false, |a| close(a, b));
                // A sketch of few samples holds them all (ranks are M04's).
                if s.len() <= 400 && (!near(t.query(0.0), s[0]) || !near(t.query(1.0), s[s.len() - 1])) {
                    return Some(format!("summary extremes {:?} {:?} expected {} {}", t.query(0.0), t.query(1.0), s[0], s[s.len() - 1]));
                }
                if exact {
                    let mut g = t.samples();
                    g.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    if g.len() != s.len() || g.iter().zip(&s).any(|(a, b)| !close(*a, *b)) {
                        return Some(format!("summary samples {:?} expected {:?}", g, s));
                    }
                }
            }
        }
        None
    }
}

pub const KINDS: [AM; 4] = [AM::Set, AM::Sum, AM::Summarize, AM::Histogram];

pub fn mk(name: &str, k: AM, v: f64, bounds: &[f64], ts: i64, persist: bool, tags: &[(String, String)]) -> Telemetry {
    let mut b = Telemetry::new().name(name).value(v).kind(k).timestamp(ts).persist(persist);
    if k == AM::Histogram {
        b = b.bounds(bounds.to_vec());
    }
    let mut t = b.harden().unwrap();
    for (k, v) in tags {
        t = t.overlay_tag(k.clone(), v.clone());
    }
    t
}

fn tagpool(r: &mut Rng, n: u64) -> Vec<(String, String)> {
    let mut m = BTreeMap::new();
    for _ in 0..n {
        m.insert(format!("k{}", r.below(24)), format!("v{}", r.below(3)));
    }
    m.into_iter().collect()
}

pub fn own_tags(t: &Telemetry) -> BTreeMap<String, String> {
    let d = TagMap::default();
    t.tags(&d).map(|(k, v)| (k.clone(), v.clone())).collect()
}

pub fn m01(a: &Args, rep: &mut Rep) {
    run_cases(a, rep, |r, rep| {
        let bounds: Vec<f64> = if r.chance(50) { vec![1.0, 10.0, 100.0, 1000.0] } else { vec![-3.5, 0.0, 2.0, 50.0, 1e6] };
        let mixed = r.chance(40);
        let mut k = *r.pick(&KINDS);
        let v0 = value(r);
        let tags = tagpool(r, 3);
        let ts = r.range(0, 1_000_000);
        let mut persist = r.chance(50);
        let mut t = mk("m.01", k, v0, &bounds, ts, persist, &tags);
        let mut m = MV::one(k, v0, &bounds);
        // A summary of many samples does not retain them all.
        let mut exact = true;
        let n = r.range(1, 40);
        let mut log = vec![format!("{:?} {}", k, v0)];
        for _ in 0..n {
            let v = value(r);
            match r.below(4) {
                0 => {
                    // insert == adding a point holding only that value
                    let mut alt = t.clone();
                    t = t.insert(v);
                    m.insert(v);
                    log.push(format!("insert {}", v));
                    let mut one = Telemetry::new().name("m.01").value(v).kind(alt.kind()).timestamp(ts);
                    if alt.kind() == AM::Histogram {
                        if let MV::Hist { ref bounds, .. } = m {
                            one = one.bounds(bounds.clone());
                        }
                    }
                    alt += one.harden().unwrap();
                    if let Some(d) = m.diff(&alt, exact) {
                        rep.viol("add-single", format!("adding a single-value point: {} after {:?}", d, log));
                        return;
                    }
                    rep.add("insert_vs_add", 1);
                }
                1 => {
                    // thaw and harden round trip keeps everything
                    let before = t.clone();
                    t = t.thaw().harden().unwrap();
                    log.push("thaw/harden".to_string());
                    if own_tags(&before) != own_tags(&t) || before.timestamp != t.timestamp || before.name != t.name || before.persist != t.persist {
                        rep.viol("thaw", format!("thaw/harden changed {:?} into {:?}", before, t));
                        return;
                    }
                    rep.add("thaws", 1);
                }
                _ => {
                    if mixed && r.chance(40) {
                        k = *r.pick(&KINDS);
                    } else {
                        k = t.kind();
                    }
                    let bounds = match r.below(12) {
                        0 => vec![1.0, 10.0, 100.0, 2000.0],
                        1 => vec![0.5],
                        2 => vec![1.0, 10.0, 100.0, 1000.0, 1e5],
                        _ => bounds.clone(),
                    };
                    // A point may be a straggler, and may name other tags.
                    let at = match r.below(8) {
                        0 => *r.pick(&[0, i64::min_value(), i64::max_value(), -1]),
                        1 | 2 => ts,
                        _ => ts + r.range(0, 18) as i64 - 9,
                    };
                    if at < ts {
                        rep.add("stragglers", 1);
                    }
                    let others = if r.chance(25) { tagpool(r, 2) } else { vec![] };
                    persist = r.chance(50);
                    let mut p = mk("m.01", k, v, &bounds, at, persist, &others);
                    let mut pm = MV::one(k, v, &bounds);
                    if let (MV::Hist { bounds: x, .. }, MV::Hist { bounds: y, .. }) = (&m, &pm) {
                        if x != y {
                            rep.add("other_bounds", 1);
                        }
                    }
                    let more = if !mixed && r.below(4_000) == 0 {
                        rep.add("points_of_70000", 1);
                        exact = false;
                        70_000
                    } else {
                        r.below(4)
                    };
                    for _ in 0..more {
                        let w = value(r);
                        p = p.insert(w);
                        pm.insert(w);
                    }
                    log.push(format!("+= {:?}", pm));
                    t += p;
                    m = m.add(pm);
                    rep.add(if mixed { "adds_mixed" } else { "adds_like" }, 1);
                }
            }
            if let Some(d) = m.diff(&t, exact) {
                rep.viol("aggregate", format!("{} after {:?}", d, log));
                return;
            }
        }
        let want: BTreeMap<String, String> = tags.iter().cloned().collect();
        if t.name != "m.01" || t.timestamp != ts || own_tags(&t) != want || t.persist != persist {
            rep.viol("identity-changed", format!("{:?} after {:?}", t, log));
        }
        rep.seen(&log);
        rep.add(&format!("final_{:?}", m.kind()), 1);
        rep.sample(log.join("; "));
    });
}

#[derive(Clone, Debug)]
struct Bin {
    bin: i64,
    ts: i64,
    persist: bool,
    v: MV,
}

pub fn m02(a: &Args, rep: &mut Rep) {
    run_cases(a, rep, |r, rep| {
        let bounds = vec![1.0, 10.0, 100.0, 1000.0];
        let width = *r.pick(&[1i64, 1, 2, 5, 10, 60]);
        let mut b = Buckets::new(width);
        let mut model: BTreeMap<(String, Vec<(String, String)>), Vec<Bin>> = BTreeMap::new();
        // a few series; some share a name and differ in tags only
        let nseries = r.range(1, 8) as usize;
        let mut series = Vec::new();
        for i in 0..nseries {
            let ntags = *r.pick(&[0u64, 1, 2, 4, 8, 14]);
            let name = format!("s{}", r.below(1 + nseries as u64 / 2));
            let kind = *r.pick(&KINDS);
            // 0: never, 1: always, 2: sometimes
            let persist = if kind == AM::Set || kind == AM::Sum { r.below(3) } else { 0 };
            series.push((name, tagpool(r, ntags), kind, persist, i));
        }
        let now = crate::clock::tick(r);
        let base = now - *r.pick(&[0i64, 30, 500, now]);
        let span = *r.pick(&[3i64, 30, 200]);
        let in_order = r.chance(30);
        let nops = r.range(1, 120);
        let mut clock = base.max(0);
        let mut log: Vec<String> = vec![format!("width {}", width)];
        for _ in 0..nops {
            if r.chance(5) {
                log.push(format!("now {}", crate::clock::tick(r)));
                rep.add("clock_moves", 1);
            }
            if r.chance(6) {
                b.reset();
                log.push("reset".into());
                rep.add("resets", 1);
                for bins in model.values_mut() {
                    let last = bins.pop();
                    bins.clear();
                    if let Some(mut l) = last {
                        if l.persist {
                            l.ts = cernan::time::now();
                            l.bin = l.ts / width;
                            bins.push(l);
                            rep.add("carried_over", 1);
                        }
                    }
                }
            } else {
                let s = r.pick(&series).clone();
                if in_order {
                    clock += r.range(0, 3);
                }
                let ts = if in_order { clock } else { (base + r.range(-span, span)).max(0) };
                let persist = s.3 == 1 || (s.3 == 2 && r.chance(50));
                let v = value(r);
                let kind = if (s.2 == AM::Set || s.2 == AM::Sum) && r.chance(15) {
                    // gauges may switch between absolute and relative
                    *r.pick(&[AM::Set, AM::Sum])
                } else {
                    s.2
                };
                let mut tags = s.1.clone();
                r.shuffle(&mut tags);
                let mut t = mk(&s.0, kind, v, &bounds, ts, persist, &tags);
                if r.chance(30) && !tags.is_empty() {
                    // insertion history must not matter
                    for i in 0..r.below(20) {
                        t.insert_tag(format!("tmp{}", i), "x".to_string());
                    }
                    for i in 0..20 {
                        t.remove_tag(&format!("tmp{}", i));
                    }
                    let again = tags[0].clone();
                    t.remove_tag(&again.0);
                    t.insert_tag(again.0, again.1);
                }
                log.push(format!("add {} {:?} {:?} {} ts={} persist={}", s.0, s.1, kind, v, ts, persist));
                b.add(t);
                rep.add("adds", 1);
                let bins = model.entry((s.0.clone(), s.1.clone())).or_insert_with(Vec::new);
                let bin = ts / width;
                let nv = MV::one(kind, v, &bounds);
                match bins.binary_search_by(|x| x.bin.cmp(&bin)) {
                    Ok(i) => {
                        let old = bins[i].v.clone();
                        bins[i].v = old.add(nv);
                        bins[i].persist = persist;
                        rep.add("merged_into_bin", 1);
                    }
                    Err(i) => {
                        let v = if persist && i > 0 { bins[i - 1].v.clone().add(nv) } else { nv };
                        bins.insert(i, Bin { bin, ts, persist, v });
                    }
                }
            }
            // compare the whole view now and then, and always at the end
        }
        rep.seen(&log);
        check_buckets(&mut b, &model, width, rep, &log);
        rep.sample(log[..log.len().min(12)].join("; "));
        rep.add("series", model.len() as u64);
    });
}

fn check_buckets(b: &mut Buckets, model: &BTreeMap<(String, Vec<(String, String)>), Vec<Bin>>, width: i64, rep: &mut Rep, log: &[String]) {
    let mut got: BTreeMap<(String, Vec<(String, String)>), Vec<Telemetry>> = BTreeMap::new();
    let mut n = 0;
    let mut order: Vec<(String, Vec<(String, String)>)> = Vec::new();
    for t in b.iter() {
        n += 1;
        let key = (t.name.clone(), own_tags(t).into_iter().collect::<Vec<_>>());
        if order.last() != Some(&key) {
            if order.contains(&key) {
                rep.viol("series-split", format!("series {:?} is stored in two places after {:?}", key, log));
                return;
            }
            order.push(key.clone());
        }
        got.entry(key).or_insert_with(Vec::new).push(t.clone());
    }
    let want_n: usize = model.values().map(|v| v.len()).sum();
    if n != want_n || b.count() != want_n || b.is_empty() != (want_n == 0) {
        rep.viol("point-count", format!("{} points, count() {} is_empty {} expected {} after {:?}", n, b.count(), b.is_empty(), want_n, log));
        return;
    }
    if b.len() != model.len() {
        rep.viol("series-count", format!("len() {} expected {} series after {:?}", b.len(), model.len(), log));
        return;
    }
    for (key, bins) in model {
        let g = got.remove(key).unwrap_or_default();
        if g.len() != bins.len() {
            rep.viol("bins", format!("series {:?}: {} bins expected {} after {:?}", key, g.len(), bins.len(), log));
            return;
        }
        for (x, y) in g.iter().zip(bins) {
            if x.timestamp / width != y.bin {
                rep.viol("bin-time", format!("series {:?}: bin at {} expected {} after {:?}", key, x.timestamp, y.ts, log));
                return;
            }
            if let Some(d) = y.v.diff(x, true) {
                rep.viol("bin-value", format!("series {:?} bin {}: {} after {:?}", key, y.bin, d, log));
                return;
            }
            if x.persist != y.persist {
                rep.viol("bin-persist", format!("series {:?} bin {}: persist {} after {:?}", key, y.bin, x.persist, log));
                return;
            }
            rep.add("bins_compared", 1);
        }
    }
    if let Some(k) = got.keys().next() {
        rep.viol("stray-series", format!("series {:?} was never added: {:?}", k, log));
    }
}

pub fn m03(a: &Args, rep: &mut Rep) {
    run_cases(a, rep, |r, rep| {
        let mut keys: Vec<String> = (0..30).map(|i| if i % 7 == 0 { format!("κλειδί {}", i) } else { format!("k{}", i) }).collect();
        keys.extend(["", "k", "k1v", "k1v1", "K1", " k1"].iter().map(|k| k.to_string()));
        r.shuffle(&mut keys);
        let nk = r.range(1, keys.len() as i64) as usize;
        let as_log = r.chance(30);
        let (kind, ts, persist) = (*r.pick(&KINDS), r.range(0, 40) as i64 - 20, r.chance(50));
        let mut t = mk("m.03", kind, 1.0, &[0.5, 2.0], ts, persist, &[]);
        let t0 = t.clone();
        let mut l = LogLine::new("path", "value").time(ts);
        for i in 0..r.below(3) {
            l = l.insert_field(keys[i as usize].clone(), format!("f{}", i));
        }
        let (p0, v0, time0, f0) = (l.path.clone(), l.value.clone(), l.time, l.fields.clone());
        let mut m: BTreeMap<String, String> = BTreeMap::new();
        let mut log = Vec::new();
        for _ in 0..r.range(0, 60) {
            let k = keys[r.below(nk as u64) as usize].clone();
            let v = r.pick(&["v0", "v1", "v2", "v3", "", "1", "v1v1"]).to_string();
            match r.below(5) {
                0 | 1 => {
                    let old = if as_log { l.insert_tag(k.clone(), v.clone()) } else { t.insert_tag(k.clone(), v.clone()) };
                    let want = m.insert(k.clone(), v.clone());
                    log.push(format!("insert {} {}", k, v));
                    if old != want {
                        rep.viol("insert-return", format!("insert_tag returned {:?} expected {:?} after {:?}", old, want, log));
                        return;
                    }
                }
                2 => {
                    let old = if as_log { l.remove_tag(&k) } else { t.remove_tag(&k) };
                    let want = m.remove(&k);
                    log.push(format!("remove {}", k));
                    if old != want {
                        rep.viol("remove-return", format!("remove_tag returned {:?} expected {:?} after {:?}", old, want, log));
                        return;
                    }
                }
                3 => {
                    log.push(format!("overlay {} {}", k, v));
                    if as_log {
                        l = l.overlay_tag(k.clone(), v.clone());
                    } else {
                        t = t.overlay_tag(k.clone(), v.clone());
                    }
                    m.insert(k, v);
                }
                _ => {
                    let mut map = TagMap::default();
                    for _ in 0..r.below(6) {
                        map.insert(keys[r.below(nk as u64) as usize].clone(), format!("o{}", r.below(5)));
                    }
                    for (k, v) in &map {
                        m.insert(k.clone(), v.clone());
                    }
                    log.push(format!("overlay_map {:?}", map));
                    if as_log {
                        l = l.overlay_tags_from_map(&map);
                    } else {
                        t = t.overlay_tags_from_map(&map);
                    }
                }
            }
            rep.add("tag_ops", 1);
        }
        let mut defaults = TagMap::default();
        for _ in 0..r.below(8) {
            defaults.insert(r.pick(&keys).clone(), r.pick(&["d0", "d1", "v1", ""]).to_string());
        }
        let mut want: Vec<(String, String)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        for (k, v) in &defaults {
            if !m.contains_key(k) {
                want.push((k.clone(), v.clone()));
            }
        }
        want.sort();
        let mut got: Vec<(String, String)> = if as_log {
            l.tags(&defaults).map(|(k, v)| (k.clone(), v.clone())).collect()
        } else {
            t.tags(&defaults).map(|(k, v)| (k.clone(), v.clone())).collect()
        };
        got.sort();
        if got != want {
            rep.viol("tag-view", format!("tags {:?} expected {:?} (defaults {:?}) after {:?}", got, want, defaults, log));
            return;
        }
        for k in &keys {
            let w = m.get(k).or_else(|| defaults.get(k)).cloned();
            let g = if as_log { l.get_from_tags(k, &defaults).cloned() } else { t.get_from_tags(k, &defaults).cloned() };
            if g != w {
                rep.viol("tag-lookup", format!("tag {} is {:?} expected {:?} after {:?}", k, g, w, log));
                return;
            }
        }
        rep.add("views_compared", 1);
        if as_log {
            if l.path != p0 || l.value != v0 || l.time != time0 || l.fields != f0 {
                rep.viol("log-changed", format!("{:?} after {:?}", l, log));
            }
        } else {
            let same = t.kind() == kind && t.samples() == t0.samples() && t.count() == t0.count() && t.persist == persist;
            if t.name != "m.03" || !same || t.timestamp != ts {
                rep.viol("telemetry-changed", format!("{:?} after {:?}", t, log));
                return;
            }
            // Identity: rebuild the same tags along a different history.
            let mut order: Vec<(String, String)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            r.shuffle(&mut order);
            let ukind = if r.chance(70) { kind } else { *r.pick(&KINDS) };
            let mut u = mk("m.03", ukind, 2.0, &[0.5, 2.0], ts, r.chance(50), &[]);
            let junk = if r.chance(50) { r.below(40) } else { 0 };
            for i in 0..junk {
                u.insert_tag(format!("junk{}", i), "x".to_string());
            }
            for (k, v) in &order {
                u.insert_tag(k.clone(), v.clone());
            }
            for i in 0..junk {
                u.remove_tag(&format!("junk{}", i));
            }
            if t.name_tag_hash() != u.name_tag_hash() || (kind == ukind && t.hash() != u.hash()) {
                rep.viol("identity-hash", format!("the same {} tags hash differently: {:?} vs order {:?} junk {}", m.len(), log, order, junk));
                return;
            }
            if t.within(10, &u) != std::cmp::Ordering::Equal || u.within(10, &t) != std::cmp::Ordering::Equal || t.partial_cmp(&u) != Some(std::cmp::Ordering::Equal) {
                rep.viol("identity-order", format!("the same {} tags compare differently after {:?}", m.len(), log));
                return;
            }
            let mut b = Buckets::new(10);
            b.add(t.clone());
            b.add(u.clone());
            if b.count() != 1 || b.len() != 1 {
                rep.viol("identity-bin", format!("the same {} tags are binned apart after {:?}", m.len(), log));
                return;
            }
            // and a different tag set is a different series, consistently ordered
            let mut w = u.clone();
            let set = |w: &mut Telemetry, k: &str, v: &str| {
                w.insert_tag(k.to_string(), v.to_string());
            };
            match r.below(6) {
                0 if !m.is_empty() => set(&mut w, &order[0].0, "different"),
                // The same text, cut into key and value at another place.
                1 if !m.is_empty() && !order[0].1.is_empty() => {
                    let (k, v) = &order[0];
                    w.remove_tag(k);
                    set(&mut w, &format!("{}{}", k, &v[..1]), &v[1..]);
                }
                2 if m.len() > 1 => {
                    set(&mut w, &order[0].0, &order[1].1);
                    set(&mut w, &order[1].0, &order[0].1);
                }
                3 if !m.is_empty() => {
                    w.remove_tag(&order[0].0);
                }
                4 => w.name = r.pick(&["m.0", "m.033", "M.03", "", "m.03k1"]).to_string(),
                _ => set(&mut w, "extra", "1"),
            }
            let changed = w.name != u.name || own_tags(&w) != m;
            if !changed {
                rep.add("identities_checked", 1);
                return;
            }
            b.add(w.clone());
            if changed && (b.len() != 2 || b.count() != 2) {
                rep.viol("series-merged", format!("points with different tags share a bin: {:?} / {:?}", order, own_tags(&w)));
                return;
            }
            let (x, y) = (t.within(10, &w), w.within(10, &t));
            if x == std::cmp::Ordering::Equal || x != y.reverse() {
                rep.viol("series-order", format!("points with different tags compare {:?} and {:?}: {:?} / {:?}", x, y, order, own_tags(&w)));
                return;
            }
            rep.add("identities_checked", 1);
            rep.add("identity_tags", m.len() as u64);
        }
        rep.seen(&log);
        rep.sample(log.join("; "));
    });
}

pub fn m04(a: &Args, rep: &mut Rep) {
    run_cases(a, rep, |r, rep| {
        let n = *r.pick(&[1usize, 3, 10, 100, 700, 3000, if a.thorough { 40_000 } else { 6000 }]);
        let err = *r.pick(&[0.001, 0.01, 0.05, 0.0001]);
        let dist = r.below(9);
        let mut xs: Vec<f64> = (0..n)
            .map(|i| match dist {
                0 => r.f() * 1000.0,
                1 => i as f64,
                2 => (n - i) as f64,
                3 => r.below(7) as f64,
                4 => (1.0 / (1.0 - r.f() * 0.9999)).min(1e6),
                6 => (r.f() - 0.5) * 1e-6,
                7 => -(r.below(50) as f64) - 0.5,
                8 => value(r),
                _ => if r.chance(95) { 3.0 } else { r.f() * 1e6 },
            })
            .collect();
        if dist == 1 && r.chance(50) {
            r.shuffle(&mut xs);
        }
        // adding points one by one compresses at every step: fewer of them
        let how = if n > 3000 || (n > 300 && r.chance(85)) { 0 } else { r.below(3) };
        let at: Vec<i64> = (0..5).map(|i| if i == 0 { 1 } else { r.range(0, 20) as i64 - 10 }).collect();
        let one = |x: f64| Telemetry::new().name("q").value(x).kind(AM::Summarize).error(err).timestamp(at[x.to_bits() as usize % 5]).harden().unwrap();
        let mut t = one(xs[0]);
        for &x in &xs[1..] {
            match how {
                0 => t = t.insert(x),
                1 => t += one(x),
                _ => {
                    if r.chance(50) {
                        t = t.insert(x)
                    } else {
                        t += one(x)
                    }
                }
            }
            if n < 800 && r.chance(3) {
                // Neither of these is to matter.
                let _ = t.query(r.f());
                t = t.thaw().harden().unwrap();
            }
        }
        rep.seen(&(n, dist, how, (err * 1e6) as u64, xs[0].to_bits()));
        rep.add(["by_insert", "by_add", "by_both"][how as usize], 1);
        let mut s = xs.clone();
        s.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if t.count() != n {
            rep.viol("summary-count", format!("count {} expected {}", t.count(), n));
            return;
        }
        let (sum, mag) = xs.iter().fold((0.0, 0.0), |a, x| (a.0 + x, a.1 + x.abs()));
        let got = t.samples_sum().unwrap_or(std::f64::NAN);
        if !((got - sum).abs() <= 1e-9 * mag) {
            rep.viol("summary-sum", format!("sum {} expected {} of {} samples", got, sum, n));
            return;
        }
        let got = t.mean();
        if !((got - sum / n as f64).abs() <= 1e-9 * mag) {
            rep.viol("summary-mean", format!("mean {} expected {} of {} samples", got, sum / n as f64, n));
            return;
        }
        let mut qs = vec![0.0, 0.01, 0.1, 0.25, 0.5, 0.75, 0.9, 0.95, 0.99, 0.999, 1.0];
        qs.extend((0..6).map(|_| r.f()));
        for q in &qs {
            let v = match t.query(*q) {
                Some(v) => v,
                None => {
                    rep.viol("no-answer", format!("query({}) of {} samples gave nothing", q, n));
                    return;
                }
            };
            let lo = s.iter().position(|x| *x == v);
            let lo = match lo {
                Some(p) => p + 1,
                None => {
                    rep.viol("not-a-sample", format!("query({}) = {} is not a sample (n={} dist={})", q, v, n, dist));
                    return;
                }
            };
            let hi = s.iter().rposition(|x| *x == v).unwrap() + 1;
            let want = q * n as f64;
            let slack = 2.0 * err * want + 3.0;
            let off = if (lo as f64) > want { lo as f64 - want } else if (hi as f64) < want { want - hi as f64 } else { 0.0 };
            rep.add("quantiles_checked", 1);
            let ctr = format!("worst_rank_error_permille_of_bound_err{}", (err * 1e4) as u64);
            let cur = (off / slack * 1000.0) as u64;
            let e = rep.ctr.entry(ctr).or_insert(0);
            if cur > *e {
                *e = cur;
            }
            if off > slack {
                rep.viol("rank-error", format!("query({}) = {} has rank {}..{} wanted {} +- {} (n={} err={} dist={} how={})", q, v, lo, hi, want, slack, n, err, dist, how));
                return;
            }
        }
        // histograms of the same samples, accumulated in random groupings
        let nb = r.range(1, 12);
        let mut bounds: Vec<f64> = (0..nb).map(|_| value(r)).collect();
        bounds.sort_by(|a, b| a.partial_cmp(b).unwrap());
        bounds.dedup();
        let sub: Vec<f64> = xs.iter().take(400).cloned().chain(bounds.iter().cloned()).collect();
        let hone = |x: f64| Telemetry::new().name("h").value(x).kind(AM::Histogram).bounds(bounds.clone()).timestamp(1).harden().unwrap();
        let mut parts: Vec<Telemetry> = Vec::new();
        for &x in &sub {
            if parts.is_empty() || r.chance(20) {
                parts.push(hone(x));
            } else {
                let i = r.below(parts.len() as u64) as usize;
                let p = parts.swap_remove(i);
                parts.push(p.insert(x));
            }
        }
        while parts.len() > 1 {
            let i = r.below(parts.len() as u64) as usize;
            let p = parts.swap_remove(i);
            let j = r.below(parts.len() as u64) as usize;
            parts[j] += p;
        }
        let model = MV::Hist { bounds: bounds.clone(), samples: sub.clone() };
        if let Some(d) = model.diff(&parts[0], false) {
            rep.viol("histogram", d);
            return;
        }
        rep.add("histograms_checked", 1);
        rep.add("samples", n as u64);
        rep.sample(format!("n={} err={} dist={} how={}", n, err, dist, how));
    });
}
