//! T01..T05: the event plumbing (util::send, Filter::run, the sink run loop,
//! hopper queues), run with real threads and observed by recording endpoints.
use crate::common::*;
use crate::h::*;
use cernan::filter::{Filter, FilterError};
use cernan::metric::{Encoding, Event, LogLine, Metadata, Telemetry};
use cernan::sink::Sink;
use cernan::util::{self, Valve};
use hopper::{Receiver, Sender};
use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Arc;
use std::thread;
use std::time::{Duration, Instant};
use uuid::Uuid;

#[derive(Clone, Debug)]
pub enum Call {
    Ev(String, String, String), // id, route, fingerprint
    Flush,
    Shutdown,
}

/// A sink that records every call made to it.
#[derive(Clone)]
pub struct RecCfg {
    pub log: Shared<Vec<Call>>,
    pub flush_interval: Option<u64>,
    pub slow: u64, // percent of deliveries that pause
    pub seed: u64,
    /// deliveries after which the valve closes, each with the number of
    /// flushes that open it again
    pub valve: Shared<BTreeMap<usize, usize>>,
}

pub struct RecSink {
    c: RecCfg,
    r: Rng,
    delivered: usize,
    closed: usize,
}

impl RecSink {
    fn got(&mut self, e: &Event) {
        if self.r.chance(self.c.slow) {
            jitter(&mut self.r, true);
        }
        self.c.log.lock().unwrap().push(Call::Ev(id_of(e), route_of(e), fp(e)));
        self.delivered += 1;
        if let Some(n) = self.c.valve.lock().unwrap().get(&self.delivered) {
            self.closed = *n;
        }
    }
}

impl Sink<RecCfg> for RecSink {
    fn init(c: RecCfg) -> Self {
        let r = Rng::new(c.seed, 77);
        RecSink { c, r, delivered: 0, closed: 0 }
    }
    fn flush_interval(&self) -> Option<u64> {
        self.c.flush_interval
    }
    fn flush(&mut self) {
        self.c.log.lock().unwrap().push(Call::Flush);
        if self.closed > 0 {
            self.closed -= 1;
        }
    }
    fn valve_state(&self) -> Valve {
        if self.closed > 0 {
            Valve::Closed
        } else {
            Valve::Open
        }
    }
    fn deliver(&mut self, t: Telemetry) {
        self.got(&Event::Telemetry(t));
    }
    fn deliver_line(&mut self, l: LogLine) {
        self.got(&Event::Log(l));
    }
    fn deliver_raw(&mut self, order_by: u64, encoding: Encoding, bytes: Vec<u8>, metadata: Option<Metadata>, connection_id: Option<Uuid>) {
        self.got(&Event::Raw { order_by, encoding, bytes, metadata, connection_id });
    }
    fn shutdown(self) {
        self.c.log.lock().unwrap().push(Call::Shutdown);
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Pass,
    Dup,
    DropSome,
    FailSome,
    /// Emits each event only when the next one arrives; the last one comes out
    /// when the filter is told to shut down.
    Lag,
}

struct TestFilter {
    id: usize,
    kind: Kind,
    held: Option<Event>,
    r: Rng,
}

fn hit(id: &str, f: usize, n: u64) -> bool {
    h64(&(id, f)) % n == 0
}

impl Filter for TestFilter {
    fn process(&mut self, event: Event, res: &mut Vec<Event>) -> Result<(), FilterError> {
        jitter(&mut self.r, false);
        match event {
            Event::Shutdown => {
                if let Some(e) = self.held.take() {
                    res.push(e);
                }
                res.push(Event::Shutdown);
                Ok(())
            }
            Event::TimerFlush(i) => {
                res.push(Event::TimerFlush(i));
                Ok(())
            }
            e => {
                let id = id_of(&e);
                let out = add_route(e.clone(), self.id);
                match self.kind {
                    Kind::Pass => res.push(out),
                    Kind::Dup => {
                        let again = Event::new_telemetry(crate::metricm::mk(
                            &format!("dup{}/{}", self.id, id),
                            cernan::metric::AggregationMethod::Set,
                            1.0,
                            &[],
                            1,
                            false,
                            &[("route".to_string(), route_of(&out))],
                        ));
                        res.push(out);
                        res.push(again);
                    }
                    Kind::DropSome => {
                        if !hit(&id, self.id, 3) {
                            res.push(out);
                        }
                    }
                    Kind::FailSome => {
                        if hit(&id, self.id, 4) {
                            let fail = Event::new_telemetry(crate::metricm::mk(
                                &format!("fail{}/{}", self.id, id),
                                cernan::metric::AggregationMethod::Sum,
                                1.0,
                                &[],
                                1,
                                false,
                                &[("route".to_string(), route_of(&out))],
                            ));
                            res.push(out);
                            return Err(FilterError::LuaError("as asked".to_string(), fail));
                        }
                        res.push(out);
                    }
                    Kind::Lag => {
                        if let Some(prev) = self.held.replace(out) {
                            res.push(prev);
                        }
                    }
                }
                Ok(())
            }
        }
    }
}

struct Node {
    is_filter: bool,
    kind: Kind,
    fwd: Vec<usize>,
}

fn chan(r: &mut Rng, name: &str, work: &str, small: bool) -> (Sender<Event>, Receiver<Event>) {
    let sz = std::mem::size_of::<Event>();
    let slots = if small { *r.pick(&[1usize, 1, 2, 3, 7]) } else { *r.pick(&[1usize, 2, 16, 200, 4000]) };
    hopper::channel_with_explicit_capacity::<Event>(name, Path::new(work), slots * sz, 1 << 20, 1000).expect("HARNESS channel")
}

fn subset(r: &mut Rng, from: usize, to: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (from..to).filter(|_| r.chance(45)).collect();
    if v.is_empty() {
        v.push(r.range(from as i64, to as i64 - 1) as usize);
    }
    r.shuffle(&mut v);
    v
}

/// Deliveries expected below node `n` for an event that enters it, as
/// (leaf, id, route) in emission order per path.
fn expect(nodes: &[Node], n: usize, id: &str, route: &str, origin: &str, out: &mut BTreeMap<(usize, String), Vec<(String, String)>>) {
    let nd = &nodes[n];
    if !nd.is_filter {
        out.entry((n, route.to_string())).or_default().push((id.to_string(), origin.to_string()));
        return;
    }
    let rt = format!("{}>{}", route, n);
    let mut emit = |id: &str, origin: &str| {
        for f in &nd.fwd {
            expect(nodes, *f, id, &rt, origin, out);
        }
    };
    match nd.kind {
        Kind::Pass | Kind::Lag => emit(id, origin),
        Kind::Dup => {
            emit(id, origin);
            emit(&format!("dup{}/{}", n, id), "");
        }
        Kind::DropSome => {
            if !hit(id, n, 3) {
                emit(id, origin)
            }
        }
        Kind::FailSome => {
            emit(id, origin);
            if hit(id, n, 4) {
                emit(&format!("fail{}/{}", n, id), "");
            }
        }
    }
}

/// The producer an id (possibly wrapped in dup/fail prefixes) came from.
fn origin_of(id: &str) -> (String, u64) {
    let last = id.rsplit('/').next().unwrap_or("");
    let mut it = last.splitn(2, '.');
    let p = it.next().unwrap_or("").to_string();
    let s = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    (p, s)
}

pub fn t01(a: &Args, rep: &mut Rep) {
    topo(a, rep, false)
}
pub fn t02(a: &Args, rep: &mut Rep) {
    if a.x("full", "0") == "1" {
        return t02_full(a, rep);
    }
    topo(a, rep, true)
}

fn topo(a: &Args, rep: &mut Rep, staggered: bool) {
    let stall = Duration::from_secs(a.x("stall", "40").parse().unwrap());
    run_cases(a, rep, |r, rep| {
        // Now and then many producers, or many stages.
        let many = r.chance(4);
        let np = if many { r.range(5, 20) } else { r.range(if staggered { 2 } else { 1 }, 4) } as usize;
        let nf = if r.chance(4) { r.range(5, 12) } else { r.range(if staggered { 1 } else { 0 }, 4) } as usize;
        let nl = r.range(1, 3) as usize;
        let nn = nf + nl;
        let mut nodes: Vec<Node> = Vec::new();
        for i in 0..nn {
            let is_filter = i < nf;
            let kind = [Kind::Pass, Kind::Pass, Kind::Dup, Kind::DropSome, Kind::FailSome, Kind::Lag][r.below(6) as usize].clone();
            let fwd = if is_filter { subset(r, i + 1, nn) } else { vec![] };
            nodes.push(Node { is_filter, kind, fwd });
        }
        let pfwd: Vec<Vec<usize>> = (0..np).map(|_| subset(r, 0, nn)).collect();
        let dir = format!("{}/c{}", a.work, rep.case);
        let small = r.chance(40);
        let heavy = r.chance(40);
        let mut send: Vec<Sender<Event>> = Vec::new();
        let mut recv: Vec<Option<Receiver<Event>>> = Vec::new();
        for i in 0..nn {
            let (s, v) = chan(r, &format!("n{}", i), &dir, small);
            send.push(s);
            recv.push(Some(v));
        }
        // What each leaf should see, per path.
        let nev: u64 = if a.thorough { 400 } else { 120 };
        let mut want: BTreeMap<(usize, String), Vec<(String, String)>> = BTreeMap::new();
        let mut plans: Vec<Vec<Event>> = Vec::new();
        for p in 0..np {
            let n = r.below(nev);
            let mut evs = Vec::new();
            for s in 0..n {
                let id = format!("p{}.{}", p, s);
                let e = gen_event(r, &id, 200);
                let o = fp(&e);
                for f in &pfwd[p] {
                    expect(&nodes, *f, &id, "", &o, &mut want);
                }
                evs.push(e);
            }
            plans.push(evs);
        }
        // Upstream counts.
        let mut ups: Vec<Vec<String>> = vec![vec![]; nn];
        for p in 0..np {
            for f in &pfwd[p] {
                ups[*f].push(format!("p{}", p));
            }
        }
        for i in 0..nf {
            for f in &nodes[i].fwd {
                ups[*f].push(format!("f{}", i));
            }
        }
        // Components without an upstream are shut down by the daemon itself.
        let mut orphans: util::Channel = Vec::new();
        for i in 0..nn {
            if ups[i].is_empty() {
                orphans.push(send[i].clone());
            }
        }
        let done: Arc<Vec<AtomicBool>> = Arc::new((0..nn).map(|_| AtomicBool::new(false)).collect());
        let logs: Vec<Shared<Vec<Call>>> = (0..nn).map(|_| shared(vec![])).collect();
        let probes: Vec<bool> = (0..nn).map(|i| i >= nf && r.chance(40)).collect();
        let stop_probes = Arc::new(AtomicBool::new(false));
        for i in 0..nn {
            let rx = recv[i].take().unwrap();
            let d = done.clone();
            let up = ups[i].clone();
            let seed = r.next();
            if i < nf {
                let chans: util::Channel = nodes[i].fwd.iter().map(|f| send[*f].clone()).collect();
                let kind = nodes[i].kind.clone();
                thread::spawn(move || {
                    let mut f = TestFilter { id: i, kind, held: None, r: Rng::new(seed, 5) };
                    f.run(rx, up, chans);
                    d[i].store(true, Ordering::SeqCst);
                });
            } else if probes[i] {
                // Reads the raw queue, end-of-stream markers included.
                let log = logs[i].clone();
                let slow = r.chance(40);
                let mut tail = send[i].clone();
                let stop = stop_probes.clone();
                let n = up.len().max(1);
                thread::spawn(move || {
                    let mut rr = Rng::new(seed, 6);
                    let mut seen = 0;
                    for e in rx.into_iter() {
                        if slow {
                            jitter(&mut rr, true);
                        }
                        if let Event::TimerFlush(u) = e {
                            if u == 424_242 {
                                break; // the harness's own end marker
                            }
                        }
                        if e == Event::Shutdown {
                            seen += 1;
                            log.lock().unwrap().push(Call::Shutdown);
                            if seen == n {
                                d[i].store(true, Ordering::SeqCst);
                                let mut t = tail.clone();
                                let stop = stop.clone();
                                thread::spawn(move || {
                                    while !stop.load(Ordering::SeqCst) {
                                        thread::sleep(Duration::from_millis(2));
                                    }
                                    let _ = t.send(Event::TimerFlush(424_242));
                                    while t.flush().is_err() {
                                        thread::sleep(Duration::from_millis(1));
                                    }
                                });
                            }
                        } else {
                            log.lock().unwrap().push(Call::Ev(id_of(&e), route_of(&e), fp(&e)));
                        }
                    }
                    log.lock().unwrap().push(Call::Flush);
                    let _ = tail.flush();
                });
            } else {
                let cfg = RecCfg {
                    log: logs[i].clone(),
                    flush_interval: Some(0),
                    slow: if r.chance(40) { 60 } else { 0 },
                    seed,
                    valve: shared(BTreeMap::new()),
                };
                let h = RecSink::new(rx, up, cfg).run();
                thread::spawn(move || {
                    let _ = h.handle.join();
                    d[i].store(true, Ordering::SeqCst);
                });
            }
        }
        let mut joins = Vec::new();
        let mut bounds_started = Vec::new();
        for p in 0..np {
            let mut chans: util::Channel = pfwd[p].iter().map(|f| send[*f].clone()).collect();
            let evs = plans[p].clone();
            let seed = r.next();
            let lag = if staggered { r.below(5) * 15 } else { 0 };
            let rest = if staggered { r.below(4) * 15 } else { 0 };
            bounds_started.push(lag);
            let pulses = r.chance(30);
            joins.push(thread::spawn(move || {
                let mut rr = Rng::new(seed, 9);
                thread::sleep(Duration::from_millis(lag));
                let mid = rr.below(evs.len() as u64 + 1) as usize;
                for (i, e) in evs.into_iter().enumerate() {
                    if i == mid {
                        thread::sleep(Duration::from_millis(rest));
                    }
                    jitter(&mut rr, heavy);
                    util::send(&mut chans, e);
                    if pulses && rr.chance(5) {
                        util::send(&mut chans, Event::TimerFlush(i as u64 + 1));
                    }
                }
                thread::sleep(Duration::from_millis(rest));
                util::send(&mut chans, Event::Shutdown);
            }));
        }
        for j in joins {
            j.join().expect("HARNESS producer");
        }
        util::send(&mut orphans, Event::Shutdown);
        drop(send);
        let ok = wait_until(stall, || done.iter().all(|d| d.load(Ordering::SeqCst)));
        let shape = format!(
            "producers {:?}, filters {:?}, leaves {:?}, small queues {}",
            pfwd,
            (0..nf).map(|i| (i, format!("{:?}", nodes[i].kind), nodes[i].fwd.clone())).collect::<Vec<_>>(),
            (nf..nn).map(|i| if probes[i] { "probe" } else { "sink" }).collect::<Vec<_>>(),
            small
        );
        if !ok {
            let left: Vec<usize> = (0..nn).filter(|i| !done[*i].load(Ordering::SeqCst)).collect();
            rep.viol("stalled", format!("components {:?} did not end {:?} after every producer had sent Shutdown\n{}\npanics {:?}", left, stall, shape, take_panics()));
            return;
        }
        if staggered {
            // Nothing may follow: late end-of-stream markers or events.
            thread::sleep(Duration::from_millis(5));
        }
        stop_probes.store(true, Ordering::SeqCst);
        for i in nf..nn {
            if probes[i] {
                let l = logs[i].clone();
                if !wait_until(stall, || l.lock().unwrap().iter().any(|c| if let Call::Flush = c { true } else { false })) {
                    harness_fail("probe did not end");
                }
            }
        }
        let mut orders = String::new();
        for leaf in nf..nn {
            let log = logs[leaf].lock().unwrap().clone();
            let mut got: BTreeMap<String, Vec<(String, String)>> = BTreeMap::new();
            let mut shut = 0;
            let mut after = 0;
            let mut last: HashMap<(String, String), u64> = HashMap::new();
            for c in &log {
                match c {
                    Call::Ev(id, route, f) => {
                        if id.starts_with('F') && !id.starts_with("Fail") && f.starts_with("F ") {
                            rep.add("pulses_seen", 1);
                            continue;
                        }
                        if shut >= ups[leaf].len().max(1) || (!probes[leaf] && shut > 0) {
                            after += 1;
                        }
                        rep.add("deliveries", 1);
                        let (p, s) = origin_of(id);
                        orders.push_str(&p);
                        let l = last.entry((p, route.clone())).or_insert(0);
                        if s < *l {
                            rep.viol("reordered", format!("leaf {} saw {} after sequence {} on route {:?}\n{}", leaf, id, l, route, shape));
                        }
                        *l = s;
                        got.entry(route.clone()).or_default().push((id.clone(), f.clone()));
                    }
                    Call::Shutdown => shut += 1,
                    Call::Flush => {}
                }
            }
            rep.add("end_of_streams", shut as u64);
            let need = if probes[leaf] { ups[leaf].len().max(1) } else { 1 };
            if shut != need {
                rep.viol("end-of-stream-count", format!("leaf {} with upstreams {:?} got {} end-of-stream markers\n{}", leaf, ups[leaf], shut, shape));
            }
            if after > 0 {
                rep.viol("after-end", format!("leaf {} got {} events after its last end of stream\n{}", leaf, after, shape));
            }
            let mut routes: Vec<String> = want.keys().filter(|k| k.0 == leaf).map(|k| k.1.clone()).collect();
            for k in got.keys() {
                if !routes.contains(k) {
                    routes.push(k.clone());
                }
            }
            let empty = vec![];
            for rt in routes {
                let w = want.get(&(leaf, rt.clone())).unwrap_or(&empty);
                let g = got.get(&rt).unwrap_or(&empty);
                rep.add("paths_checked", 1);
                let mut left: HashMap<&str, i64> = HashMap::new();
                for x in w {
                    *left.entry(&x.0).or_insert(0) += 1;
                }
                for x in g {
                    *left.entry(&x.0).or_insert(0) -= 1;
                }
                let lost: Vec<_> = left.iter().filter(|x| *x.1 > 0).map(|x| *x.0).collect();
                let extra: Vec<_> = left.iter().filter(|x| *x.1 < 0).map(|x| *x.0).collect();
                if !lost.is_empty() {
                    rep.viol("lost", format!("leaf {} route {:?}: {} of {} events missing, e.g. {:?}\n{}", leaf, rt, lost.len(), w.len(), &lost[..lost.len().min(4)], shape));
                }
                if !extra.is_empty() {
                    rep.viol("duplicated", format!("leaf {} route {:?}: {} unexpected deliveries, e.g. {:?}\n{}", leaf, rt, extra.len(), &extra[..extra.len().min(4)], shape));
                }
                let orig: HashMap<&str, &str> = w.iter().map(|x| (x.0.as_str(), x.1.as_str())).collect();
                for (id, f) in g {
                    if let Some(o) = orig.get(id.as_str()) {
                        if !o.is_empty() && o != &f.as_str() {
                            rep.viol("altered", format!("leaf {} route {:?} event {}:\n sent {}\n seen {}", leaf, rt, id, o, f));
                        }
                    }
                }
            }
        }
        rep.seen(&(shape.clone(), orders));
        if rep.case < 3 {
            rep.sample(format!("{}; {} paths", shape, want.len()));
        }
        let p = take_panics();
        if !p.is_empty() {
            rep.viol("panic", p.join(" | "));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
}

pub fn t03(a: &Args, rep: &mut Rep) {
    run_cases(a, rep, |r, rep| {
        let dir = format!("{}/c{}", a.work, rep.case);
        let sz = std::mem::size_of::<Event>();
        let slots = *r.pick(&[1usize, 1, 2, 3, 5]);
        let (s, rx) = hopper::channel_with_explicit_capacity::<Event>("q", Path::new(&dir), slots * sz, 1 << 20, 10_000).expect("HARNESS channel");
        let np = r.range(1, 3) as usize;
        let nev = r.range(20, if a.thorough { 600 } else { 150 });
        // Some runs are heavy enough to roll queue files over (1 MiB each).
        let rawmax = if r.chance(25) { 120_000 } else { 300 };
        let gate = Arc::new(AtomicBool::new(false)); // closed: consumer waits
        let mut plans = Vec::new();
        let mut want: Vec<Vec<String>> = Vec::new();
        for p in 0..np {
            let mut evs = Vec::new();
            let mut f = Vec::new();
            for i in 0..nev {
                let e = match r.below(12) {
                    0 => Event::TimerFlush(((p as u64) << 40) + i as u64),
                    1 => Event::Raw { order_by: i as u64, encoding: Encoding::Raw, bytes: vec![], metadata: None, connection_id: Some(uuid::Uuid::from_bytes(&[p as u8; 16]).unwrap()) },
                    _ => gen_event(r, &format!("p{}.{}", p, i), rawmax),
                };
                f.push(format!("p{} {}", p, fp(&e)));
                evs.push(e);
            }
            plans.push(evs);
            want.push(f);
        }
        let total: usize = plans.iter().map(|p| p.len()).sum();
        let sent = Arc::new(AtomicUsize::new(0));
        let mut joins = Vec::new();
        for evs in plans {
            let mut ch: util::Channel = vec![s.clone()];
            let sent = sent.clone();
            let seed = r.next();
            let busy = r.chance(50);
            joins.push(thread::spawn(move || {
                let mut rr = Rng::new(seed, 1);
                for e in evs {
                    util::send(&mut ch, e);
                    sent.fetch_add(1, Ordering::SeqCst);
                    if busy {
                        jitter(&mut rr, false);
                    }
                }
                util::send(&mut ch, Event::Shutdown);
            }));
        }
        let log: Shared<Vec<Event>> = shared(vec![]);
        let (l2, g2, s2, seed) = (log.clone(), gate.clone(), sent.clone(), r.next());
        let mode = r.below(3);
        let need = np;
        let fin = Arc::new(AtomicBool::new(false));
        let fin2 = fin.clone();
        let phase = r.range(5, 80) as usize;
        thread::spawn(move || {
            let mut rr = Rng::new(seed, 2);
            let mut downs = 0;
            let mut n = 0;
            for e in rx.into_iter() {
                n += 1;
                match mode {
                    0 => jitter(&mut rr, true),
                    1 => {
                        // waits until the producers are well ahead, then drains
                        if n % phase == 1 {
                            let t = Instant::now();
                            while t.elapsed() < Duration::from_millis(40) && s2.load(Ordering::SeqCst) < n + phase {
                                thread::sleep(Duration::from_micros(200));
                            }
                        }
                    }
                    _ => {}
                }
                if e == Event::Shutdown {
                    downs += 1;
                } else {
                    l2.lock().unwrap().push(e);
                }
                if downs == need {
                    break;
                }
            }
            fin2.store(true, Ordering::SeqCst);
            g2.store(true, Ordering::SeqCst);
        });
        let ok = wait_until(Duration::from_secs(60), || fin.load(Ordering::SeqCst));
        let got = log.lock().unwrap().clone();
        if !ok {
            rep.viol("stranded", format!("consumer got {} of {} events and then nothing more; {} slots, {} producers; panics {:?}", got.len(), total, slots, np, take_panics()));
            return;
        }
        for j in joins {
            j.join().expect("HARNESS producer");
        }
        let mut per: Vec<Vec<String>> = vec![vec![]; np];
        for e in &got {
            let p = match e {
                Event::TimerFlush(i) => (i >> 40) as usize,
                Event::Raw { metadata: None, connection_id: Some(c), .. } => c.as_bytes()[0] as usize,
                e => origin_of(&id_of(e)).0.get(1..).and_then(|s| s.parse().ok()).unwrap_or(99),
            };
            if p >= np {
                rep.viol("altered", format!("an event nobody sent: {}", clip(&fp(e), 400)));
                continue;
            }
            per[p].push(format!("p{} {}", p, fp(e)));
        }
        rep.add("events_through_queue", got.len() as u64);
        rep.add("bytes_max_run", 0);
        for p in 0..np {
            if per[p] != want[p] {
                let i = (0..per[p].len().max(want[p].len())).find(|i| per[p].get(*i) != want[p].get(*i)).unwrap();
                rep.viol(
                    "sequence",
                    format!("producer {}: sent {} events, consumer saw {}; first difference at {}:\n sent {:?}\n seen {:?}\n{} slots of memory", p, want[p].len(), per[p].len(), i, want[p].get(i).map(|s| clip(s, 600)), per[p].get(i).map(|s| clip(s, 600)), slots),
                );
            }
        }
        rep.add("disk_files_rolled", std::fs::read_dir(format!("{}/q", dir)).map(|d| d.filter_map(|e| e.ok()).filter_map(|e| e.file_name().to_str().and_then(|n| n.parse::<u64>().ok())).max().unwrap_or(0)).unwrap_or(0));
        rep.seen(&(slots, np, mode, got.iter().map(|e| id_of(e)).collect::<Vec<_>>()));
        rep.sample(format!("{} producers x {} events, {} memory slots, consumer mode {}, raw bodies up to {} bytes", np, nev, slots, mode, rawmax));
        let p = take_panics();
        if !p.is_empty() {
            rep.viol("panic", p.join(" | "));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
}

pub fn t04(a: &Args, rep: &mut Rep) {
    if a.x("recovery", "0") == "1" {
        return t04_recovery(a, rep);
    }
    run_cases(a, rep, |r, rep| {
        let dir = format!("{}/c{}", a.work, rep.case);
        let sz = std::mem::size_of::<Event>();
        let slots = *r.pick(&[1usize, 2, 5, 17]);
        let files = r.below(3) as usize;
        let nfw = r.range(2, 4) as usize;
        let full = r.below(nfw as u64) as usize;
        let ample = r.chance(25);
        let np = if ample { 1 } else { r.range(1, 3) as usize };
        let mut chans = Vec::new();
        let mut rxs = Vec::new();
        for i in 0..nfw {
            let (s, v) = if i == full {
                hopper::channel_with_explicit_capacity::<Event>("full", Path::new(&dir), slots * sz, 1 << 20, if ample { 100 } else { files })
            } else {
                let sl = *r.pick(&[1usize, 4, 300]);
                hopper::channel_with_explicit_capacity::<Event>(&format!("ok{}", i), Path::new(&dir), sl * sz, 1 << 20, 1000)
            }
            .expect("HARNESS channel");
            chans.push(s);
            rxs.push(v);
        }
        // Events large enough that the allowance of (files+1) MiB is passed.
        let body = r.range(40_000, 200_000) as usize;
        let n = ((files + 1) * (1 << 20) / body / np + slots + r.range(3, 12) as usize) as u64;
        let before = util::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::SeqCst);
        let prog = Arc::new(AtomicU64::new(0));
        let logs: Vec<Shared<Vec<(String, u64)>>> = (0..nfw).map(|_| shared(vec![])).collect();
        let mut full_rx = None;
        for (i, rx) in rxs.into_iter().enumerate() {
            if i == full {
                full_rx = Some(rx);
                continue;
            }
            let l = logs[i].clone();
            thread::spawn(move || {
                for e in rx.into_iter() {
                    if let Event::Raw { bytes, .. } = &e {
                        l.lock().unwrap().push((id_of(&e), h64(bytes)));
                    }
                }
            });
        }
        let mut want: BTreeMap<String, u64> = BTreeMap::new();
        let mut fin = Vec::new();
        for p in 0..np {
            let mut evs = Vec::new();
            for i in 0..n {
                let id = format!("p{}.{}", p, i);
                let mut m = Metadata::default();
                m.insert(b"id".to_vec(), id.as_bytes().to_vec());
                let b = bytes(r, body as u64);
                want.insert(id, h64(&b));
                evs.push(Event::Raw { order_by: i, encoding: Encoding::Raw, bytes: b, metadata: Some(m), connection_id: None });
            }
            let mut c: util::Channel = chans.clone();
            let prog = prog.clone();
            let done = Arc::new(AtomicBool::new(false));
            fin.push(done.clone());
            thread::spawn(move || {
                for e in evs {
                    util::send(&mut c, e);
                    prog.fetch_add(1, Ordering::SeqCst);
                }
                done.store(true, Ordering::SeqCst);
            });
        }
        let total = n * np as u64;
        if !wait_until(Duration::from_secs(40), || fin.iter().all(|f| f.load(Ordering::SeqCst))) {
            rep.viol("send-blocked", format!("{} of {} sends returned; forward {} of {} is full ({} slots, {} extra files)", prog.load(Ordering::SeqCst), total, full, nfw, slots, files));
            return;
        }
        let dropped = (util::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::SeqCst) - before) as u64;
        rep.add("sends", total * nfw as u64);
        rep.add("drops_counted", dropped);
        if ample && dropped > 0 {
            rep.viol("dropped-with-room", format!("{} drops counted though the queue had an allowance of 100 MiB for {} events of {} bytes", dropped, total, body));
        }
        if !ample && dropped == 0 {
            rep.viol("not-dropped", format!("{} events of {} bytes for {} slots and {} MiB, none counted as dropped", total, body, slots, files + 1));
        }
        // Drain the full queue.
        let accepted = total.saturating_sub(dropped) as usize;
        let l = logs[full].clone();
        let rx = full_rx.unwrap();
        thread::spawn(move || {
            for e in rx.into_iter() {
                if let Event::Raw { bytes, .. } = &e {
                    l.lock().unwrap().push((id_of(&e), h64(bytes)));
                }
            }
        });
        let mut tail = chans[full].clone();
        let ok = wait_until(Duration::from_secs(20), || {
            let _ = tail.flush();
            logs[full].lock().unwrap().len() >= accepted
        });
        thread::sleep(Duration::from_millis(5));
        let got = logs[full].lock().unwrap().clone();
        if !ok || got.len() != accepted {
            rep.viol("conservation", format!("{} sent, {} counted as dropped, {} came out of the full queue", total, dropped, got.len()));
        }
        if !ample && (got.len() as u64) < (slots as u64).min(total) {
            rep.viol("dropped-with-room", format!("queue of {} memory slots gave only {} events", slots, got.len()));
        }
        check_seq(rep, "full queue", &got, &want, None, &[]);
        for i in 0..nfw {
            if i == full {
                continue;
            }
            let mut tail = chans[i].clone();
            let l = logs[i].clone();
            wait_until(Duration::from_secs(30), || {
                let _ = tail.flush();
                l.lock().unwrap().len() as u64 >= total
            });
            let g = logs[i].lock().unwrap().clone();
            check_seq(rep, &format!("healthy forward {} (full one is {} of {})", i, full, nfw), &g, &want, Some(total as usize), &[]);
            rep.add("healthy_deliveries", g.len() as u64);
        }
        rep.seen(&(slots, files, nfw, full, np, got.iter().map(|g| g.0.clone()).collect::<Vec<_>>()));
        rep.sample(format!("{} producers x {} events of {} bytes; forward {}/{} limited to {} slots + {} MiB; {} dropped", np, n, body, full, nfw, slots, files + 1, dropped));
        let p = take_panics();
        if !p.is_empty() {
            rep.viol("panic", p.join(" | "));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
}

/// The end-of-stream marker sent while the queue it goes to is full.
fn t02_full(a: &Args, rep: &mut Rep) {
    run_cases(a, rep, |r, rep| {
        let dir = format!("{}/c{}", a.work, rep.case);
        let sz = std::mem::size_of::<Event>();
        let slots = *r.pick(&[1usize, 2, 5, 40]);
        let (s, rx) = hopper::channel_with_explicit_capacity::<Event>("q", Path::new(&dir), slots * sz, 1 << 20, r.below(2) as usize).expect("HARNESS channel");
        let before = util::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::SeqCst);
        let drops = || util::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::SeqCst) - before;
        let mut ch: util::Channel = vec![s];
        let mut sent = 0;
        // Ever smaller events, until not even a flush pulse fits.
        for n in [60_000u64, 2000, 200, 30].iter() {
            let d = drops();
            while drops() == d && sent < 60_000 {
                util::send(&mut ch, Event::Raw { order_by: 0, encoding: Encoding::Raw, bytes: bytes(r, *n), metadata: None, connection_id: None });
                sent += 1;
            }
        }
        for i in 0..r.below(30) {
            util::send(&mut ch, Event::TimerFlush(i + 1));
            sent += 1;
        }
        let accepted = sent - drops() as u64;
        let dropped = drops();
        let done = Arc::new(AtomicBool::new(false));
        let d2 = done.clone();
        thread::spawn(move || {
            util::send(&mut ch, Event::Shutdown);
            d2.store(true, Ordering::SeqCst);
        });
        thread::sleep(Duration::from_millis(r.below(30)));
        let log: Shared<Vec<bool>> = shared(vec![]);
        let l = log.clone();
        let crawl = r.below(3);
        thread::spawn(move || {
            for e in rx.into_iter() {
                l.lock().unwrap().push(e == Event::Shutdown);
                if crawl > 0 {
                    thread::sleep(Duration::from_micros(crawl * 300));
                }
            }
        });
        let ok = wait_until(Duration::from_secs(20), || done.load(Ordering::SeqCst) && log.lock().unwrap().last() == Some(&true));
        let g = log.lock().unwrap().clone();
        rep.add("full_shutdowns", 1);
        rep.add("full_shutdown_drops", dropped as u64);
        rep.seen(&("full", slots, sent, dropped));
        if !ok {
            rep.viol("shutdown-through-full", format!("queue of {} slots and its files full after {} events ({} dropped); 20 s after Shutdown was sent (returned: {}) the consumer had {} of {} events and end-of-stream {}", slots, sent, dropped, done.load(Ordering::SeqCst), g.len(), accepted, g.last() == Some(&true)));
        } else if g.len() as u64 != accepted + 1 || g.iter().filter(|x| **x).count() != 1 {
            rep.viol("shutdown-through-full-count", format!("{} events accepted, the consumer got {} with {} end-of-stream markers", accepted, g.len(), g.iter().filter(|x| **x).count()));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
}

/// A slow consumer lets its queue fill up, then catches up.
fn t04_recovery(a: &Args, rep: &mut Rep) {
    run_cases(a, rep, |r, rep| {
        let dir = format!("{}/c{}", a.work, rep.case);
        let sz = std::mem::size_of::<Event>();
        let slots = *r.pick(&[2usize, 5]);
        let (s, rx) = hopper::channel_with_explicit_capacity::<Event>("q", Path::new(&dir), slots * sz, 1 << 20, 2).expect("HARNESS channel");
        let slow = Arc::new(AtomicBool::new(true));
        let got = Arc::new(AtomicU64::new(0));
        let (sl, g) = (slow.clone(), got.clone());
        thread::spawn(move || {
            // Reads as the sink and filter loops do.
            let mut rx = rx.into_iter();
            let mut attempts = 0;
            loop {
                cernan::time::delay(attempts);
                match rx.next() {
                    None => attempts += 1,
                    Some(_) => {
                        attempts = 0;
                        g.fetch_add(1, Ordering::SeqCst);
                        if sl.load(Ordering::SeqCst) {
                            thread::sleep(Duration::from_millis(4));
                        }
                    }
                }
            }
        });
        let before = util::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::SeqCst);
        let drops = || util::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::SeqCst) - before;
        let mut ch: util::Channel = vec![s];
        let mut sent = 0;
        let mut go = |r: &mut Rng, ch: &mut util::Channel| {
            let n = r.range(40_000, 200_000) as u64;
            util::send(ch, Event::Raw { order_by: 0, encoding: Encoding::Raw, bytes: bytes(r, n), metadata: None, connection_id: None });
        };
        while drops() < 3 && sent < 5000 {
            go(r, &mut ch);
            sent += 1;
        }
        let d1 = drops();
        slow.store(false, Ordering::SeqCst);
        for _ in 0..60 {
            go(r, &mut ch);
            sent += 1;
            thread::sleep(Duration::from_millis(5));
        }
        let end = drops();
        let acc = sent - end as u64;
        let ok = wait_until(Duration::from_secs(6), || {
            let _ = ch[0].flush();
            got.load(Ordering::SeqCst) >= acc
        });
        rep.add("recoveries", 1);
        rep.add("drops_counted", end as u64);
        rep.sample(format!("{} sent, {} dropped while slow, {} after, {} consumed", sent, d1, end - d1, got.load(Ordering::SeqCst)));
        if !ok || end - d1 > 30 {
            rep.viol(
                "stuck-after-full",
                format!("a queue ran full ({} drops) and its consumer then caught up: of {} later events {} were dropped; the consumer got {} of the {} events accepted in all", d1, 60, end - d1, got.load(Ordering::SeqCst), acc),
            );
        }
    });
}

fn check_seq(rep: &mut Rep, who: &str, got: &[(String, u64)], want: &BTreeMap<String, u64>, all: Option<usize>, _x: &[u8]) {
    if let Some(n) = all {
        if got.len() != n {
            rep.viol("healthy-forward", format!("{} received {} of {} events", who, got.len(), n));
        }
    }
    let mut last: HashMap<String, i64> = HashMap::new();
    for (id, h) in got {
        match want.get(id) {
            Some(w) if w == h => {}
            Some(_) => rep.viol("altered", format!("{}: {} changed", who, id)),
            None => rep.viol("altered", format!("{}: {} was never sent", who, id)),
        }
        let (p, s) = origin_of(id);
        let l = last.entry(p).or_insert(-1);
        if s as i64 <= *l {
            rep.viol("reordered", format!("{}: {} after {}", who, id, l));
        }
        *l = s as i64;
    }
}

#[derive(Clone, Debug)]
enum In {
    Pulse(u64),
    Ev(u64),
}

pub fn t05(a: &Args, rep: &mut Rep) {
    if a.x("timer", "0") == "1" {
        return t05_timer(a, rep);
    }
    run_cases(a, rep, |r, rep| {
        let dir = format!("{}/c{}", a.work, rep.case);
        let interval = *r.pick(&[None, Some(0u64), Some(1), Some(2), Some(3), Some(7), Some(100)]);
        let n = r.range(5, 200);
        let mut idx = if r.chance(20) { r.next() >> 1 } else { 0 };
        let mut seq = Vec::new();
        let mut ne = 0;
        for _ in 0..n {
            if r.chance(45) {
                ne += 1;
                seq.push(In::Ev(ne));
            } else {
                match r.below(5) {
                    0 => seq.push(In::Pulse(idx.saturating_sub(r.below(4)))),
                    1 => {
                        idx += 1 + r.below(9);
                        seq.push(In::Pulse(idx));
                    }
                    2 if r.chance(10) => seq.push(In::Pulse(0)),
                    _ => {
                        idx += 1;
                        seq.push(In::Pulse(idx));
                        for _ in 0..r.below(3) {
                            seq.push(In::Pulse(idx));
                        }
                    }
                }
            }
        }
        let mut valve = BTreeMap::new();
        if r.chance(60) {
            for d in 1..=ne {
                if r.chance(15) {
                    let long = r.chance(3);
                    valve.insert(d as usize, if long { r.range(6, 1500) } else { r.range(1, 5) } as usize);
                }
            }
        }
        // Several upstreams end one after another; pulses keep coming between.
        let ups = r.range(1, 3) as usize;
        // Reference model of the rules.
        let mut want: Vec<String> = Vec::new();
        let (mut last, mut closed, mut del) = (0u64, 0usize, 0usize);
        for x in &seq {
            while closed > 0 {
                want.push("flush".into());
                closed -= 1;
            }
            match x {
                In::Pulse(i) => {
                    if *i > last {
                        if let Some(f) = interval {
                            if f == 0 || i % f == 0 {
                                want.push("flush".into());
                                if closed > 0 {
                                    closed -= 1;
                                }
                            }
                        }
                        last = *i;
                    }
                }
                In::Ev(k) => {
                    want.push(format!("e.{}", k));
                    del += 1;
                    if let Some(m) = valve.get(&del) {
                        closed = *m;
                    }
                }
            }
        }
        while closed > 0 {
            want.push("flush".into());
            closed -= 1;
        }
        want.push("shutdown".into());
        let log = shared(vec![]);
        let slots = *r.pick(&[1usize, 3, 100]);
        let (s, rx) = hopper::channel_with_explicit_capacity::<Event>("q", Path::new(&dir), slots * std::mem::size_of::<Event>(), 1 << 20, 100).expect("HARNESS channel");
        let cfg = RecCfg { log: log.clone(), flush_interval: interval, slow: 0, seed: 1, valve: shared(valve.clone()) };
        let h = RecSink::new(rx, (0..ups).map(|i| format!("u{}", i)).collect(), cfg).run();
        let mut ch: util::Channel = vec![s];
        // Earlier upstreams may end anywhere in the stream.
        let mut ends: Vec<usize> = (1..ups).map(|_| r.below(seq.len() as u64) as usize).collect();
        ends.sort();
        for (i, x) in seq.iter().enumerate() {
            while ends.first() == Some(&i) {
                ends.remove(0);
                util::send(&mut ch, Event::Shutdown);
            }
            match x {
                In::Pulse(i) => util::send(&mut ch, Event::TimerFlush(*i)),
                In::Ev(k) => {
                    let e = gen_event(r, &format!("e.{}", k), 20);
                    util::send(&mut ch, e)
                }
            }
        }
        util::send(&mut ch, Event::Shutdown);
        let fin = Arc::new(AtomicBool::new(false));
        let f2 = fin.clone();
        thread::spawn(move || {
            let _ = h.handle.join();
            f2.store(true, Ordering::SeqCst);
        });
        let ok = wait_until(Duration::from_secs(20), || fin.load(Ordering::SeqCst));
        let got: Vec<String> = log
            .lock()
            .unwrap()
            .iter()
            .map(|c| match c {
                Call::Ev(id, ..) => id.clone(),
                Call::Flush => "flush".to_string(),
                Call::Shutdown => "shutdown".to_string(),
            })
            .collect();
        rep.add("calls_checked", got.len() as u64);
        rep.add("flushes_seen", got.iter().filter(|g| *g == "flush").count() as u64);
        rep.add("valve_closings", valve.len() as u64);
        if !ok || got != want {
            let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap_or(0);
            rep.viol(
                "calls",
                format!("ended {}; interval {:?}, valve {:?}, {} upstreams; call {} should be {:?}, was {:?}\ninput {:?}", ok, interval, valve, ups, i, want.get(i), got.get(i), seq),
            );
        }
        rep.seen(&(format!("{:?}", seq), interval, ups));
        rep.sample(format!("interval {:?}, {} upstreams, valve {:?}, input {}", interval, ups, valve, clip(&format!("{:?}", seq), 500)));
        let _ = std::fs::remove_dir_all(&dir);
    });
}

/// The real flush timer, observed at two to four forwards.
fn t05_timer(a: &Args, rep: &mut Rep) {
    use cernan::source::{FlushTimer, FlushTimerConfig, Source};
    run_cases(a, rep, |r, rep| {
        let dir = format!("{}/c{}", a.work, rep.case);
        let n = r.range(1, 4) as usize;
        let mut ch = Vec::new();
        let mut logs = Vec::new();
        for i in 0..n {
            let slots = *r.pick(&[1usize, 50]);
            let (s, rx) = hopper::channel_with_explicit_capacity::<Event>(&format!("t{}", i), Path::new(&dir), slots * std::mem::size_of::<Event>(), 1 << 20, 100).expect("HARNESS channel");
            ch.push(s);
            let l: Shared<Vec<String>> = shared(vec![]);
            logs.push(l.clone());
            let seed = r.next();
            thread::spawn(move || {
                let mut rr = Rng::new(seed, 3);
                for e in rx.into_iter() {
                    if rr.chance(3) {
                        thread::sleep(Duration::from_millis(rr.below(40)));
                    }
                    l.lock().unwrap().push(fp(&e));
                }
            });
        }
        let t = Instant::now();
        FlushTimer::new(ch, FlushTimerConfig).run();
        thread::sleep(Duration::from_millis(a.x("ms", "1500").parse().unwrap()));
        let secs = t.elapsed().as_secs_f64();
        for l in &logs {
            let g = l.lock().unwrap().clone();
            rep.add("timer_pulses", g.len() as u64);
            for (i, x) in g.iter().enumerate() {
                if *x != format!("F {}", i + 1) {
                    rep.viol("timer-order", format!("pulse number {} of a forward was {:?}", i + 1, x));
                    break;
                }
            }
            if g.len() as f64 > secs * 100.0 + 3.0 || g.is_empty() {
                rep.viol("timer-rate", format!("{} pulses in {:.2} s, 100 per second are due", g.len(), secs));
            }
        }
        rep.seen(&n);
        // The timer has no end; the process exits with it running.
    });
}
