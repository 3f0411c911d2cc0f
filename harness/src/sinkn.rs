//! S07: the native sink and the native source, joined by a peer that keeps the
//! bytes, breaks connections by plan, and passes on what it read.
use crate::common::*;
use crate::h::*;
use crate::ingest::*;
use crate::metricm::{close, mk, own_tags, value, KINDS};
use crate::sinks::*;
use cernan::metric::{AggregationMethod as AM, Event, LogLine};
use cernan::sink::*;
use cernan::source::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::net::TcpStream;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::thread;
use std::time::Duration;

/// Feeds every connection of the peer to the source, over one of its own.
struct Pump {
    stop: Arc<AtomicBool>,
    behind: Arc<AtomicUsize>,
    h: Option<thread::JoinHandle<()>>,
}

impl Pump {
    fn start(peer: &Peer, port: u16, seed: u64) -> Pump {
        let stop = Arc::new(AtomicBool::new(false));
        let behind = Arc::new(AtomicUsize::new(0));
        let (st, bh, conns) = (stop.clone(), behind.clone(), peer.conns.clone());
        let h = thread::spawn(move || {
            let mut r = Rng::new(seed, 3);
            let mut out: Vec<(usize, Option<TcpStream>)> = vec![];
            loop {
                let last = st.load(Ordering::SeqCst);
                let mut todo = vec![];
                {
                    let c = conns.lock().unwrap();
                    let mut lag = 0;
                    for (i, c) in c.iter().enumerate() {
                        if out.len() <= i {
                            let s = TcpStream::connect(("127.0.0.1", port)).expect("HARNESS connect");
                            let _ = s.set_nodelay(true);
                            out.push((0, Some(s)));
                        }
                        if out[i].1.is_some() {
                            todo.push((i, c.bytes[out[i].0..].to_vec(), c.ended));
                        }
                        lag += c.bytes.len() - out[i].0;
                    }
                    bh.store(lag, Ordering::SeqCst);
                }
                for (i, b, ended) in todo {
                    // In pieces now and then.
                    let mut b = &b[..];
                    out[i].0 += b.len();
                    let mut cut = r.below(4);
                    while !b.is_empty() {
                        let n = if cut > 0 { 1 + r.below(b.len() as u64) as usize } else { b.len() };
                        cut = cut.saturating_sub(1);
                        if out[i].1.as_mut().unwrap().write_all(&b[..n]).is_err() {
                            break;
                        }
                        b = &b[n..];
                    }
                    if ended {
                        out[i].1 = None;
                    }
                }
                if last {
                    return;
                }
                thread::sleep(Duration::from_millis(1));
            }
        });
        Pump { stop, behind, h: Some(h) }
    }
    fn end(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = self.h.take().unwrap().join();
    }
}

#[derive(Clone, Debug)]
enum Sent {
    T(Point),
    L { value: String, ts: i64, tags: Tags },
}

fn ms(ts: i64) -> i64 {
    // what milliseconds can tell of it
    ts.saturating_mul(1000) / 1000
}

fn same(s: &Sent, dflt: &Tags, e: &Event) -> Result<(), (&'static str, String)> {
    match (s, e) {
        (Sent::T(p), Event::Telemetry(t)) => {
            let tags: Tags = own_tags(t).into_iter().collect();
            if t.kind() != p.kind || t.persist != p.persist || t.timestamp != ms(p.ts) || tags != visible(&p.tags, dflt) {
                return Err(("fields", format!("{:?} arrived as {}", p, fp(e))));
            }
            let sum: f64 = p.vals.iter().sum();
            let mag: f64 = p.vals.iter().map(|v| v.abs()).sum();
            let near = |x: Option<f64>, y: f64| x.map_or(false, |x| (x - y).abs() <= 1e-9 * mag.max(1e-300));
            match p.kind {
                AM::Set => {
                    if t.set() != p.vals.last().cloned() {
                        return Err(("value", format!("set {:?} arrived as {:?}", p.vals.last(), t.set())));
                    }
                }
                AM::Sum => {
                    if !near(t.sum(), sum) {
                        return Err(("value", format!("sum {} arrived as {:?}", sum, t.sum())));
                    }
                }
                AM::Summarize => {
                    let want = sketch(&p.vals);
                    if t.count() != p.vals.len() || !near(t.samples_sum(), sum) {
                        // Known: only what the sketch retains crosses the wire.
                        let kept = sketch(&want.samples());
                        let known = p.vals.len() >= 400 && kept.count() < p.vals.len() && t.count() == kept.count() && (t.samples_sum().unwrap_or(std::f64::NAN) - kept.samples_sum().unwrap()).abs() <= 1e-9 * mag;
                        return Err((if known { "summary-compressed" } else { "value" }, format!("{} samples adding to {} arrived as {} adding to {:?}", p.vals.len(), sum, t.count(), t.samples_sum())));
                    }
                    if p.vals.len() < 100 {
                        for q in &[0.0, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99, 1.0] {
                            if !close(t.query(*q).unwrap_or(std::f64::NAN), want.query(*q).unwrap_or(std::f64::NAN)) {
                                return Err(("value", format!("quantile {} of {:?} was {:?}, is {:?}", q, p.vals, want.query(*q), t.query(*q))));
                            }
                        }
                    }
                }
                AM::Histogram => {
                    let want = hist_bins(&p.bounds, &p.vals);
                    let got: Vec<(String, usize)> = t.bins().map(|b| b.map(|x| (format!("{:?}", x.0), x.1)).collect()).unwrap_or_default();
                    if got != want || t.count() != p.vals.len() || !near(t.samples_sum(), sum) {
                        // Known: the counts of the bins arrive as samples of bins
                        // with the default bounds.
                        let n: Vec<f64> = want.iter().map(|x| x.1 as f64).collect();
                        let mut k = cernan::metric::Telemetry::new().name("ref").kind(AM::Histogram).value(n[0]).harden().unwrap();
                        for v in &n[1..] {
                            k = k.insert(*v);
                        }
                        let known: Vec<(String, usize)> = k.bins().map(|b| b.map(|x| (format!("{:?}", x.0), x.1)).collect()).unwrap_or_default();
                        let s = if got == known && t.count() == n.len() { "histogram-bins" } else { "histogram" };
                        return Err((s, format!("bins {:?} of {:?} arrived as {:?}", want, p.vals, got)));
                    }
                }
            }
            Ok(())
        }
        (Sent::L { value, ts, tags }, Event::Log(l)) => {
            let got: Tags = log_tags(l).into_iter().collect();
            if l.value != *value || l.time != ms(*ts) || got != visible(tags, dflt) {
                return Err(("line", format!("{:?} arrived as {}", s, fp(e))));
            }
            Ok(())
        }
        _ => Err(("kind", format!("{:?} arrived as {}", s, fp(e)))),
    }
}

fn tags_of(r: &mut Rng) -> Tags {
    let mut m = BTreeMap::new();
    for _ in 0..r.below(4) {
        m.insert(format!("k{}{}", r.below(4), text(r, 1)), text(r, 2));
    }
    m.into_iter().collect()
}

fn bounds_of(r: &mut Rng) -> Vec<f64> {
    match r.below(4) {
        0 => vec![0.0],
        1 => (0..r.range(2, 30)).map(|i| i as f64 * 1.5 - 4.0).collect(),
        _ => vec![-1.0, 0.5, 10.0, 1e4],
    }
}

fn time_of(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => 0,
        1 => -r.range(1, 2_000_000_000),
        2 => r.range(0, 1 << 52),
        3 => *r.pick(&[i64::max_value(), i64::min_value(), i64::max_value() / 1000, i64::min_value() / 1000]),
        _ => r.range(1_400_000_000, 1_600_000_000),
    }
}

pub fn s07(a: &Args, rep: &mut Rep) {
    let big = wmem_max() + (1 << 20);
    run_cases(a, rep, |r, rep| {
        let dir = format!("{}/c{}", a.work, rep.case);
        let mut src = Src::start::<NativeServer, TCPConfig, _>(&dir, |port| NativeServerConfig { ip: "127.0.0.1".to_string(), port, forwards: vec![], config_path: None }.into());
        let mut peer = Peer::new();
        peer.rcvbuf = 8192;
        let mut pump = Pump::start(&peer, src.port, r.next());
        let mut log: Vec<String> = vec![];
        if r.chance(25) {
            let d = r.below(120);
            log.push(format!("refused for {} ms at start", d));
            peer.open_after(d);
            rep.add("refused_at_start", 1);
        } else {
            peer.open();
        }
        let dflt = tags_of(r);
        let mut sink = Native::init(NativeConfig { port: peer.port, host: peer.ip.clone(), config_path: None, flush_interval: 60, tags: tagmap(&dflt) });
        // id -> (what was sent, its flush, sent amid a fault)
        let mut want: BTreeMap<String, (Sent, usize, bool)> = BTreeMap::new();
        let mut sizes: BTreeMap<String, usize> = BTreeMap::new();
        let mut order: Vec<Vec<String>> = vec![];
        let mut never: BTreeSet<String> = BTreeSet::new();
        let mut seq = 0;
        let mut allowed = 0;
        for f in 0..r.range(1, 7) as usize {
            let mid = r.chance(10);
            let wide = !mid && r.chance(6);
            let huge = !mid && r.chance(4);
            // Cut on the connection in use, of which the kernel holds little.
            let tight = mid && r.chance(60) && !peer.quiet() && small_sndbuf(&peer.ip, peer.port) == 1;
            let nf = if mid && !tight { r.range(1, 2) as usize } else { 0 };
            let n = if r.chance(20) && !mid { 0 } else { *r.pick(&[1u64, 3, 10, 60, 300]) };
            let (mut pts, mut lns) = (vec![], vec![]);
            let mut sz = 0;
            let mut i = 0;
            while i < n || sz < nf * big || (wide && sz < 3 << 20) || (tight && sz < 1 << 21) {
                i += 1;
                seq += 1;
                let pad = if mid || wide { r.below(9000) as usize } else { 0 };
                let id = format!("e{}.{}", seq, "x".repeat(pad));
                sz += pad + 20;
                sizes.insert(id.clone(), pad + 200);
                if r.chance(60) {
                    let kind = *r.pick(&KINDS);
                    let nv = match r.below(20) {
                        0 => 100,
                        1 => 900,
                        2 | 3 | 4 => 20,
                        5 | 6 | 7 => 3,
                        _ => 1,
                    };
                    let nv = if mid || wide { nv.min(3) } else { nv };
                    let vals: Vec<f64> = (0..nv).map(|_| value(r)).collect();
                    let p = Point { name: id.clone(), tags: tags_of(r), kind, vals, bounds: bounds_of(r), ts: time_of(r), persist: r.chance(40) };
                    sink.deliver(p.telem(r));
                    want.insert(id.clone(), (Sent::T(p), f, mid));
                    pts.push(id);
                } else {
                    let (value, ts, tags) = (text(r, 8), time_of(r), tags_of(r));
                    let mut l = LogLine::new(id.clone(), value.clone()).time(ts);
                    for (k, v) in &tags {
                        l = l.overlay_tag(k.clone(), v.clone());
                    }
                    sink.deliver_line(l);
                    want.insert(id.clone(), (Sent::L { value, ts, tags }, f, mid));
                    lns.push(id);
                }
            }
            if huge {
                // No payload can hold it; its neighbours are none the worse.
                seq += 1;
                let id = format!("e{}.huge", seq);
                let v = "y".repeat(1 << 20);
                if r.chance(50) {
                    sink.deliver_line(LogLine::new(id.clone(), v).time(1));
                } else {
                    sink.deliver(mk(&id, AM::Sum, 1.0, &[], 1, false, &[("k".to_string(), v)]));
                }
                never.insert(id);
                rep.add("oversized_events", 1);
            }
            if r.chance(10) {
                sink.deliver_raw(1, cernan::metric::Encoding::Raw, b"raw".to_vec(), None, None);
            }
            if tight {
                let k = *r.pick(&[0usize, 3, 50, 5_000, 100_000, 1_000_000]);
                let fault = if r.chance(50) { Fault::CloseAfter(k) } else { Fault::ResetAfter(k) };
                log.push(format!("flush {} of {} bytes cut by {:?} on the connection in use", f, sz, fault));
                *peer.cut.lock().unwrap() = Some(fault);
                allowed += k + (1 << 18);
                rep.add("tight_faults", 1);
            } else if mid {
                let plan: Vec<Fault> = (0..nf)
                    .map(|_| {
                        let k = match r.below(4) {
                            0 => 0,
                            1 => r.below(100) as usize,
                            2 => r.below(20_000) as usize,
                            _ => r.below(1 << 20) as usize,
                        };
                        if r.chance(50) { Fault::CloseAfter(k) } else { Fault::ResetAfter(k) }
                    })
                    .collect();
                log.push(format!("flush {} of {} bytes cut by {:?}", f, sz, plan));
                *peer.plan.lock().unwrap() = plan;
                peer.drop_all(true);
                thread::sleep(Duration::from_millis(3));
                allowed += nf * (big + (1 << 20));
                rep.add("mid_flush_faults", nf as u64);
            } else {
                log.push(format!("flush {}: {} points, {} lines{}", f, pts.len(), lns.len(), if huge { ", one too large" } else { "" }));
            }
            if n == 0 && !mid && !wide {
                rep.add("idle_flushes", 1);
            }
            pts.extend(lns);
            order.push(pts);
            sink.flush();
            rep.add("flushes", 1);
            // Before the next trouble all of it is there, less what a broken
            // connection had taken.
            let due: Vec<&String> = want.iter().filter(|x| !(x.1).2).map(|x| x.0).collect();
            let ok = wait_until(Duration::from_secs(20), || {
                let have: BTreeSet<String> = src.log.lock().unwrap().iter().map(|e| id_of(&e.1)).collect();
                due.iter().all(|d| have.contains(*d))
            });
            if !ok {
                break;
            }
            if mid {
                peer.settle();
            }
            if r.chance(40) {
                let reset = r.chance(50);
                let refuse = r.chance(40);
                let d = r.below(60);
                log.push(format!("between: {}{}", if reset { "reset" } else { "close" }, if refuse { format!(", refused for {} ms", d) } else { String::new() }));
                if refuse {
                    peer.refuse();
                }
                peer.drop_all(reset);
                thread::sleep(Duration::from_millis(3));
                if refuse {
                    peer.open_after(d);
                }
                rep.add("between_faults", 1);
            }
        }
        rep.seen(&log);
        sink.shutdown();
        wait_until(Duration::from_secs(20), || peer.quiet());
        wait_until(Duration::from_secs(10), || pump.behind.load(Ordering::SeqCst) == 0);
        pump.end();
        // The source has read all it was sent once its handlers see the end.
        let port = format!(":{:04X}", src.port);
        wait_until(Duration::from_secs(30), || {
            let t = std::fs::read_to_string("/proc/net/tcp").unwrap_or_default();
            t.lines().skip(1).all(|l| {
                let f: Vec<&str> = l.split_whitespace().collect();
                f.len() < 4 || !(f[1].ends_with(&port) || f[2].ends_with(&port)) || f[3] == "0A" || f[3] == "06"
            })
        });
        let (mut len, mut still) = (src.len(), 0);
        wait_until(Duration::from_secs(5), || {
            if want.keys().len() == len {
                return true;
            }
            thread::sleep(Duration::from_millis(20));
            let l = src.len();
            still = if l == len { still + 1 } else { 0 };
            len = l;
            still > 10
        });
        let evs = src.events();
        let mut at: BTreeMap<String, usize> = BTreeMap::new();
        for (i, e) in evs.iter().enumerate() {
            let id = id_of(e);
            match want.get(&id) {
                None => {
                    let s = if never.contains(&id) { "oversized" } else { "foreign" };
                    rep.viol(s, format!("{} came out, after {:?}", clip(&fp(e), 300), log));
                }
                Some((s, _, _)) => {
                    if let Err((sig, m)) = same(s, &dflt, e) {
                        rep.viol(sig, format!("{}, after {:?}", clip(&m, 600), log));
                    }
                    rep.add("events_compared", 1);
                }
            }
            if at.insert(id.clone(), i).is_some() {
                rep.viol("repeated", format!("{} came out more than once, after {:?}", clip(&id, 40), log));
            }
        }
        let mut lost_bytes = 0;
        let mut lost = vec![];
        for (id, (_, f, faulty)) in &want {
            if !at.contains_key(id) {
                if *faulty {
                    lost_bytes += sizes[id];
                } else {
                    lost.push(format!("{} of flush {}", clip(id, 40), f));
                }
            }
        }
        if !lost.is_empty() {
            rep.viol("lost", format!("{} of {} events never came out ({:?}), after {:?}; panics {:?}", lost.len(), want.len(), &lost[..lost.len().min(3)], log, take_panics()));
        }
        // A broken connection takes along what the kernel holds of it, no more.
        if lost_bytes > allowed {
            let cs: Vec<_> = peer.conns.lock().unwrap().iter().map(|c| (c.bytes.len(), c.fault.clone(), c.ended)).collect();
            let l: Vec<_> = want.keys().filter(|i| !at.contains_key(*i)).map(|i| clip(i, 8)).collect();
            log.push(format!("connections {:?}, lost {} {:?}..{:?}", cs, l.len(), l.first(), l.last()));
            rep.viol("lost-amid-fault", format!("{} bytes of events lost to broken connections that can have held {}, after {:?}", lost_bytes, allowed, log));
        }
        if lost_bytes > 0 {
            rep.add("bytes_lost_in_kernel", lost_bytes as u64);
        }
        for (f, ids) in order.iter().enumerate() {
            let pos: Vec<usize> = ids.iter().filter_map(|i| at.get(i).cloned()).collect();
            let inorder = pos.windows(2).all(|w| w[0] < w[1]);
            let faulty = ids.first().map_or(false, |i| want[i].2);
            if !faulty && !inorder {
                rep.viol("order", format!("the events of flush {} came out in another order, after {:?}", f, log));
            }
        }
        // Flushes follow one another on the same connection or after it.
        let mut prev = 0;
        for (f, ids) in order.iter().enumerate() {
            let pos: Vec<usize> = ids.iter().filter(|i| !want[*i].2).filter_map(|i| at.get(i).cloned()).collect();
            if let (Some(lo), Some(hi)) = (pos.iter().min(), pos.iter().max()) {
                if *lo + 1 <= prev && prev > 0 {
                    rep.viol("order", format!("flush {} came out before an earlier one, after {:?}", f, log));
                }
                prev = *hi + 1;
            }
        }
        rep.add("events_due", want.len() as u64);
        rep.add("connections", peer.conns.lock().unwrap().len() as u64);
        rep.sample(log.join("; "));
        peer.refuse();
        if !src.stop(Duration::from_secs(10)) {
            rep.viol("stop", "source did not end within 10 s of its shutdown".to_string());
        }
        let p = take_panics();
        if !p.is_empty() {
            rep.viol("panic", p.join(" | "));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
}
