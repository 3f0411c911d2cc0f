//! F04, F05: the programmable filter against a model of its payload.
use crate::common::*;
use crate::filters::run_filter;
use crate::h::*;
use crate::metricm::own_tags;
use cernan::filter::{Filter, FilterError, ProgrammableFilter, ProgrammableFilterConfig};
use cernan::metric::{AggregationMethod as AM, Event, LogLine, TagMap, Telemetry};
use std::collections::BTreeMap;
use std::path::PathBuf;

type Tags = BTreeMap<String, String>;

/// A Lua string literal of any bytes.
fn lit(b: &[u8]) -> String {
    let mut s = String::from("\"");
    for c in b {
        if c.is_ascii_alphanumeric() {
            s.push(*c as char);
        } else {
            s.push_str(&format!("\\{:03}", c));
        }
    }
    s.push('"');
    s
}

#[derive(Clone)]
struct MM {
    name: String,
    tags: Tags,
    base: Telemetry,
    pushed: Option<f64>,
}

#[derive(Clone)]
struct ML {
    path: String,
    value: String,
    tags: Tags,
    fields: Tags,
    time: i64,
}

#[derive(Clone, Default)]
struct Pay {
    ms: Vec<MM>,
    ls: Vec<ML>,
}

/// What one call is expected to hand back to the script.
#[derive(Clone, Debug, PartialEq)]
enum Ret {
    Nil,
    S(Vec<u8>),
    N(f64),
    Caught,
    Done,
}

#[derive(Clone, Debug)]
enum Op {
    Name(i64),
    Value(i64),
    Path(i64),
    SetName(i64, String),
    PushM(String, f64),
    PushMNum(f64),
    ClearM,
    PushL(String),
    ClearL,
    LTag(i64, String),
    LField(i64, String),
    MTag(i64, String),
    MSetTag(i64, String, String),
    LSetTag(i64, String, String),
    LSetField(i64, String, String),
    LSetValue(i64, String),
    MDelTag(i64, String),
    LDelTag(i64, String),
    Query(i64, f64),
    /// Lua source that raises an error; the flag tells whether it is caught.
    Bad(String, bool),
    /// Lua source without effect on the payload, whatever it does or returns.
    Quiet(String),
}

fn at(n: i64, top: usize) -> usize {
    if n < 0 {
        (top as i64 + n) as usize
    } else {
        (n - 1) as usize
    }
}

fn num(v: f64) -> String {
    if v.is_nan() {
        "(0/0)".to_string()
    } else if v == std::f64::INFINITY {
        "math.huge".to_string()
    } else if v == std::f64::NEG_INFINITY {
        "(-math.huge)".to_string()
    } else {
        format!("({:e})", v)
    }
}

impl Op {
    fn src(&self) -> String {
        let s = |x: &String| lit(x.as_bytes());
        match self {
            Op::Name(i) => format!("payload.metric_name(pyld, {})", i),
            Op::Value(i) => format!("payload.log_value(pyld, {})", i),
            Op::Path(i) => format!("payload.log_path(pyld, {})", i),
            Op::SetName(i, n) => format!("payload.set_metric_name(pyld, {}, {})", i, s(n)),
            Op::PushM(n, v) => format!("payload.push_metric(pyld, {}, {})", s(n), num(*v)),
            Op::PushMNum(v) => format!("payload.push_metric(pyld, 17, \"{}\")", v),
            Op::ClearM => "payload.clear_metrics(pyld)".to_string(),
            Op::PushL(l) => format!("payload.push_log(pyld, {})", s(l)),
            Op::ClearL => "payload.clear_logs(pyld)".to_string(),
            Op::LTag(i, k) => format!("payload.log_tag_value(pyld, {}, {})", i, s(k)),
            Op::LField(i, k) => format!("payload.log_field_value(pyld, {}, {})", i, s(k)),
            Op::MTag(i, k) => format!("payload.metric_tag_value(pyld, {}, {})", i, s(k)),
            Op::MSetTag(i, k, v) => format!("payload.metric_set_tag(pyld, {}, {}, {})", i, s(k), s(v)),
            Op::LSetTag(i, k, v) => format!("payload.log_set_tag(pyld, {}, {}, {})", i, s(k), s(v)),
            Op::LSetField(i, k, v) => format!("payload.log_set_field(pyld, {}, {}, {})", i, s(k), s(v)),
            Op::LSetValue(i, v) => format!("payload.log_set_value(pyld, {}, {})", i, s(v)),
            Op::MDelTag(i, k) => format!("payload.metric_remove_tag(pyld, {}, {})", i, s(k)),
            Op::LDelTag(i, k) => format!("payload.log_remove_tag(pyld, {}, {})", i, s(k)),
            Op::Query(i, p) => format!("payload.metric_query(pyld, {}, {})", i, num(*p)),
            Op::Bad(x, _) | Op::Quiet(x) => x.clone(),
        }
    }

    fn run(&self, p: &mut Pay, g: &Tags, path: &str) -> Ret {
        let get = |o: Option<&String>| o.map_or(Ret::Nil, |v| Ret::S(v.as_bytes().to_vec()));
        let old = |o: Option<String>| o.map_or(Ret::Nil, |v| Ret::S(v.into_bytes()));
        let (nm, nl) = (p.ms.len(), p.ls.len());
        match self {
            Op::Name(i) => Ret::S(p.ms[at(*i, nm)].name.clone().into_bytes()),
            Op::Value(i) => Ret::S(p.ls[at(*i, nl)].value.clone().into_bytes()),
            Op::Path(i) => Ret::S(p.ls[at(*i, nl)].path.clone().into_bytes()),
            Op::SetName(i, n) => {
                p.ms[at(*i, nm)].name = n.clone();
                Ret::Done
            }
            Op::PushM(..) | Op::PushMNum(..) => {
                let (n, v) = match self {
                    Op::PushM(n, v) => (n.clone(), *v),
                    Op::PushMNum(v) => ("17".to_string(), *v),
                    _ => unreachable!(),
                };
                p.ms.push(MM { name: n, tags: g.clone(), base: Telemetry::new().name("").value(0.0).harden().unwrap(), pushed: Some(v) });
                Ret::Done
            }
            Op::ClearM => {
                p.ms.clear();
                Ret::Done
            }
            Op::PushL(l) => {
                p.ls.push(ML { path: path.to_string(), value: l.clone(), tags: g.clone(), fields: Tags::new(), time: cernan::time::now() });
                Ret::Done
            }
            Op::ClearL => {
                p.ls.clear();
                Ret::Done
            }
            Op::LTag(i, k) => get(p.ls[at(*i, nl)].tags.get(k).or_else(|| g.get(k))),
            Op::LField(i, k) => get(p.ls[at(*i, nl)].fields.get(k)),
            Op::MTag(i, k) => get(p.ms[at(*i, nm)].tags.get(k).or_else(|| g.get(k))),
            Op::MSetTag(i, k, v) => old(p.ms[at(*i, nm)].tags.insert(k.clone(), v.clone())),
            Op::LSetTag(i, k, v) => old(p.ls[at(*i, nl)].tags.insert(k.clone(), v.clone())),
            Op::LSetField(i, k, v) => old(p.ls[at(*i, nl)].fields.insert(k.clone(), v.clone())),
            Op::LSetValue(i, v) => {
                p.ls[at(*i, nl)].value = v.clone();
                Ret::Nil
            }
            Op::MDelTag(i, k) => old(p.ms[at(*i, nm)].tags.remove(k)),
            Op::LDelTag(i, k) => old(p.ls[at(*i, nl)].tags.remove(k)),
            Op::Query(i, q) => {
                let m = &p.ms[at(*i, nm)];
                if m.pushed.is_some() {
                    Ret::Nil
                } else {
                    m.base.query(*q).map_or(Ret::Nil, Ret::N)
                }
            }
            Op::Bad(..) => Ret::Caught,
            Op::Quiet(_) => Ret::Done,
        }
    }
}

fn key(r: &mut Rng) -> String {
    r.pick(&["t0", "t1", "g0", "g1", "f0", "k\u{0}z", "", "日本", " k", "k ", "\n"]).to_string()
}

fn pos(r: &mut Rng, top: usize) -> i64 {
    let i = r.below(top as u64) as i64;
    if r.chance(40) {
        i - top as i64
    } else {
        i + 1
    }
}

/// Random operations that are valid for a payload of these sizes.
fn gen_ops(r: &mut Rng, n: u64, mut nm: usize, mut nl: usize, numbers: bool) -> Vec<Op> {
    let mut v = Vec::new();
    for _ in 0..n {
        let pick = r.below(24);
        let op = match pick {
            0 | 1 => {
                nm += 1;
                if r.chance(15) && numbers {
                    Op::PushMNum(r.range(-100, 100) as f64 / 4.0)
                } else {
                    Op::PushM(text(r, 3), crate::metricm::value(r))
                }
            }
            2 | 3 => {
                nl += 1;
                Op::PushL(text(r, 5))
            }
            4 if r.chance(25) => {
                nm = 0;
                Op::ClearM
            }
            5 if r.chance(25) => {
                nl = 0;
                Op::ClearL
            }
            6..=12 if nm > 0 => {
                let i = pos(r, nm);
                match pick {
                    6 => Op::Name(i),
                    7 => Op::SetName(i, text(r, 3)),
                    8 => Op::MTag(i, key(r)),
                    9 | 10 => Op::MSetTag(i, key(r), text(r, 2)),
                    11 => Op::MDelTag(i, key(r)),
                    _ => Op::Query(i, *r.pick(&[0.0, 0.25, 0.5, 0.9, 0.99, 1.0])),
                }
            }
            13..=23 if nl > 0 => {
                let i = pos(r, nl);
                match pick {
                    13 => Op::Value(i),
                    14 => Op::Path(i),
                    15 | 16 => Op::LTag(i, key(r)),
                    17 => Op::LField(i, key(r)),
                    18 | 19 => Op::LSetTag(i, key(r), text(r, 2)),
                    20 => Op::LSetField(i, key(r), text(r, 2)),
                    21 => Op::LSetValue(i, text(r, 3)),
                    22 => Op::LDelTag(i, key(r)),
                    _ => Op::LField(i, key(r)),
                }
            }
            _ => continue,
        };
        v.push(op);
    }
    v
}

const PRELUDE: &str = r#"
N = 0
G = {}
local function S(x)
  if x == nil then return "n" end
  if type(x) == "number" then return "d" .. string.format("%.17g", x) end
  return "s" .. tostring(x)
end
local function D() return "-" end
"#;

fn body(r: &mut Rng, fname: &str, ops: &[Op], report: bool) -> String {
    let mut s = format!("function {}(pyld)\n  N = N + 1\n  G[#G + 1] = N\n  local R = {{}}\n", fname);
    for op in ops {
        let src = op.src();
        let quiet = match op {
            Op::SetName(..) | Op::PushM(..) | Op::PushMNum(..) | Op::ClearM | Op::PushL(_) | Op::ClearL | Op::Quiet(_) => true,
            _ => false,
        };
        match op {
            Op::Bad(x, caught) => {
                if *caught {
                    s.push_str(&format!("  do local ok = pcall(function() {} end); R[#R + 1] = ok and \"?\" or \"c\" end\n", x));
                } else {
                    s.push_str(&format!("  do {} end\n", x));
                }
            }
            Op::Quiet(x) => s.push_str(&format!("  do {} end\n  R[#R + 1] = D()\n", x)),
            _ if quiet => match r.below(4) {
                0 => s.push_str(&format!("  pcall(function() {} end)\n  R[#R + 1] = D()\n", src)),
                1 => s.push_str(&format!("  coroutine.wrap(function() {} end)()\n  R[#R + 1] = D()\n", src)),
                _ => s.push_str(&format!("  {}\n  R[#R + 1] = D()\n", src)),
            },
            _ => match r.below(5) {
                0 => s.push_str(&format!("  R[#R + 1] = S(coroutine.wrap(function() return {} end)())\n", src)),
                1 => s.push_str(&format!("  do local ok, x = pcall(function() return {} end); R[#R + 1] = ok and S(x) or \"c\" end\n", src)),
                2 => s.push_str(&format!("  for i = 1, 1 do local x = {}; R[#R + 1] = S(x) end\n", src)),
                _ => s.push_str(&format!("  R[#R + 1] = S({})\n", src)),
            },
        }
    }
    if report {
        s.push_str("  payload.push_log(pyld, \"R\" .. N .. \"/\" .. #G .. \"\\1\" .. table.concat(R, \"\\1\"))\n");
    }
    s.push_str("end\n");
    s
}

fn rest(t: &Telemetry) -> String {
    let mut c = t.clone();
    c.name = String::new();
    let keys: Vec<String> = own_tags(&c).keys().cloned().collect();
    for k in keys {
        c.remove_tag(&k);
    }
    fp_telem(&c)
}

fn lfields(l: &LogLine) -> Tags {
    l.fields.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

fn check_metric(e: &Event, m: &MM) -> Option<String> {
    let t = match e {
        Event::Telemetry(t) => t,
        e => return Some(format!("expected metric {:?}, got {}", m.name, fp(e))),
    };
    if t.name != m.name || own_tags(t) != m.tags {
        return Some(format!("expected metric {:?} tags {:?}, got {}", m.name, m.tags, fp(e)));
    }
    match m.pushed {
        None => {
            if rest(t) != rest(&m.base) {
                return Some(format!("metric {:?} changed from {} to {}", m.name, rest(&m.base), rest(t)));
            }
        }
        Some(v) => {
            let x = t.set();
            let same = x.map_or(false, |x| x == v || x.is_nan() && v.is_nan());
            if t.kind() != AM::Set || !same || t.persist || t.timestamp != cernan::time::now() {
                return Some(format!("pushed metric {:?} = {} came out as {}", m.name, v, fp(e)));
            }
        }
    }
    None
}

fn check_log(e: &Event, m: &ML, rets: Option<(&str, &[Ret])>) -> Option<String> {
    let l = match e {
        Event::Log(l) => l,
        e => return Some(format!("expected log {:?}, got {}", m.value, fp(e))),
    };
    if l.path != m.path || log_tags(l) != m.tags || lfields(l) != m.fields || l.time != m.time {
        return Some(format!("expected log path {:?} tags {:?} fields {:?} time {}, got {}", m.path, m.tags, m.fields, m.time, fp(e)));
    }
    if let Some((head, rets)) = rets {
        // what the script reported its calls returned
        let mut parts = l.value.split('\u{1}');
        if parts.next() != Some(head) {
            return Some(format!("script state: expected {:?} in {:?}", head, clip(&l.value, 200)));
        }
        let got: Vec<&str> = if rets.is_empty() { vec![] } else { parts.collect() };
        if got.len() != rets.len() {
            return Some(format!("script reported {} results, expected {}: {:?}", got.len(), rets.len(), clip(&l.value, 400)));
        }
        for (i, (g, w)) in got.iter().zip(rets).enumerate() {
            let ok = match w {
                Ret::Nil => *g == "n",
                Ret::S(s) => g.starts_with('s') && &g.as_bytes()[1..] == &s[..],
                Ret::N(x) => g.starts_with('d') && g[1..].parse::<f64>().ok().map_or(false, |y| y == *x || (y - x).abs() <= 1e-15 * x.abs()),
                Ret::Caught => *g == "c",
                Ret::Done => *g == "-",
            };
            if !ok {
                return Some(format!("result {} of the call: expected {:?}, script saw {:?}", i, w, g));
            }
        }
    } else if l.value != m.value {
        return Some(format!("expected log value {:?}, got {:?}", m.value, l.value));
    }
    None
}

fn tagmap(t: &Tags) -> TagMap {
    let mut m = TagMap::default();
    for (k, v) in t {
        m.insert(k.clone(), v.clone());
    }
    m
}

fn make(dir: &str, script: &str, g: &Tags) -> ProgrammableFilter {
    std::fs::create_dir_all(dir).unwrap();
    let p = format!("{}/script.lua", dir);
    std::fs::write(&p, script).unwrap();
    ProgrammableFilter::new(ProgrammableFilterConfig {
        scripts_directory: Some(PathBuf::from(dir)),
        script: Some(PathBuf::from(p)),
        forwards: vec![],
        config_path: Some("filters.prog".to_string()),
        tags: tagmap(g),
    })
}

/// What a script function is expected to do.
#[derive(Clone, Debug)]
enum Fun {
    Ops(Vec<Op>),
    /// Not a function (any more).
    Missing,
}

struct Model {
    g: Tags,
    funs: BTreeMap<&'static str, Fun>,
    calls: u64,
    last: u64,
    report: bool,
    /// Calls whose serial number is a multiple of this fail first thing.
    flaky: u64,
}

#[derive(Debug)]
enum Want {
    /// Events as they are.
    Same(Vec<String>),
    /// A call that returns: its payload, and what its log line reports.
    Call(usize),
    /// A call that fails, and whether a pulse follows.
    Fail(&'static str, Option<u64>),
}

struct Called {
    pay: Pay,
    rets: Vec<Ret>,
    head: String,
    pulse: Option<u64>,
    report: bool,
}

impl Model {
    fn input(&mut self, e: &Event, calls: &mut Vec<Called>) -> Want {
        let (fname, mut pay, pulse) = match e {
            Event::Telemetry(t) => (
                "process_metric",
                Pay { ms: vec![MM { name: t.name.clone(), tags: own_tags(t), base: t.clone(), pushed: None }], ls: vec![] },
                None,
            ),
            Event::Log(l) => (
                "process_log",
                Pay {
                    ms: vec![],
                    ls: vec![ML { path: l.path.clone(), value: l.value.clone(), tags: log_tags(l), fields: lfields(l), time: l.time }],
                },
                None,
            ),
            Event::TimerFlush(i) => {
                if *i <= self.last {
                    return Want::Same(vec![]);
                }
                self.last = *i;
                ("tick", Pay::default(), Some(*i))
            }
            e => return Want::Same(vec![fp(e)]),
        };
        let ops = match self.funs.get(fname) {
            Some(Fun::Ops(o)) => o.clone(),
            _ => return Want::Fail(fname, pulse),
        };
        self.calls += 1;
        if self.flaky > 0 && self.calls % self.flaky == 0 {
            return Want::Fail(fname, pulse);
        }
        let mut rets = Vec::new();
        for o in &ops {
            if let Op::Bad(_, false) = o {
                return Want::Fail(fname, pulse);
            }
            rets.push(o.run(&mut pay, &self.g, "filters.prog"));
        }
        let report = self.report;
        if report {
            pay.ls.push(ML { path: "filters.prog".to_string(), value: String::new(), tags: self.g.clone(), fields: Tags::new(), time: cernan::time::now() });
        }
        calls.push(Called { pay, rets, head: format!("R{}/{}", self.calls, self.calls), pulse, report });
        Want::Call(calls.len() - 1)
    }
}

/// Judges `out` from `*at` on; returns what is wrong.
fn judge(w: &Want, calls: &[Called], out: &[Event], pos: &mut usize) -> Option<String> {
    let mut next = || {
        let e = out.get(*pos);
        *pos += 1;
        e
    };
    match w {
        Want::Same(v) => {
            for x in v {
                let g = next().map(fp);
                if g.as_ref() != Some(x) {
                    return Some(format!("expected {} unchanged, got {:?}", x, g));
                }
            }
        }
        Want::Call(i) => {
            let c = &calls[*i];
            let n = c.pay.ls.len();
            for (j, l) in c.pay.ls.iter().enumerate() {
                let rets = if c.report && j + 1 == n { Some((c.head.as_str(), &c.rets[..])) } else { None };
                match next() {
                    Some(e) => {
                        if let Some(x) = check_log(e, l, rets) {
                            return Some(x);
                        }
                    }
                    None => return Some(format!("log {:?} missing", l.value)),
                }
            }
            for m in &c.pay.ms {
                match next() {
                    Some(e) => {
                        if let Some(x) = check_metric(e, m) {
                            return Some(x);
                        }
                    }
                    None => return Some(format!("metric {:?} missing", m.name)),
                }
            }
            if let Some(p) = c.pulse {
                let g = next().map(fp);
                if g != Some(format!("F {}", p)) {
                    return Some(format!("pulse {} expected, got {:?}", p, g));
                }
            }
        }
        Want::Fail(f, pulse) => {
            let want = format!("cernan.filter.filters.prog.{}.failure", f);
            match next() {
                Some(Event::Telemetry(t)) if t.name == want && t.kind() == AM::Sum && t.sum() == Some(1.0) => {}
                g => return Some(format!("expected failure telemetry {}, got {:?}", want, g.map(fp))),
            }
            if let Some(p) = pulse {
                let g = next().map(fp);
                if g != Some(format!("F {}", p)) {
                    return Some(format!("pulse {} expected after failure, got {:?}", p, g));
                }
            }
        }
    }
    None
}

fn gen_history(r: &mut Rng, n: u64) -> Vec<Event> {
    let mut pulse = 0;
    let mut v = Vec::new();
    for i in 0..n {
        if r.chance(20) {
            if r.chance(70) {
                pulse += 1;
            }
            // A pulse that took the longer way comes after a newer one.
            v.push(Event::TimerFlush(if r.chance(10) { (pulse as u64).saturating_sub(r.below(4)) } else { pulse }));
            continue;
        }
        let suffix = text(r, 1);
        let mut e = gen_event(r, &format!("e{}{}", i, suffix), 60);
        for _ in 0..r.below(3) {
            let (k, v) = (key(r), text(r, 2));
            e = match e {
                Event::Telemetry(t) => Event::Telemetry(t.overlay_tag(k, v)),
                Event::Log(l) => {
                    let l = l.overlay_tag(k, v);
                    Event::Log(if r.chance(50) { l.insert_field("f0".to_string(), text(r, 2)) } else { l })
                }
                e => e,
            };
        }
        v.push(e);
    }
    v
}

/// Runs a filter on a history and judges every output.
fn drive(a: &Args, r: &mut Rng, rep: &mut Rep, script: &str, model: &mut Model, evs: Vec<Event>, sig: &str) {
    let dir = format!("{}/l{:x}", a.work, r.next());
    let mut f = make(&dir, script, &model.g);
    let threaded = r.chance(20);
    crate::clock::tick(r);
    let mut calls = Vec::new();
    let mut fails = 0;
    let bad = |rep: &mut Rep, e: &str, x: String| {
        rep.viol(sig, format!("event {}: {}\nscript:\n{}", clip(e, 200), x, clip(script, 2500)));
    };
    if threaded {
        rep.add("threaded_runs", 1);
        let mut wants = Vec::new();
        for e in &evs {
            wants.push((fp(e), model.input(e, &mut calls)));
        }
        match run_filter(f, &a.work, r, 1, evs) {
            None => bad(rep, "?", format!("the filter's thread panicked or hung: {:?}", take_panics())),
            Some(out) => {
                let mut pos = 0;
                let mut ok = true;
                for (e, w) in &wants {
                    if let Want::Fail(..) = w {
                        fails += 1;
                    }
                    if let Some(x) = judge(w, &calls, &out, &mut pos) {
                        bad(rep, e, x);
                        ok = false;
                        break;
                    }
                }
                if ok && (pos + 1 != out.len() || out.last() != Some(&Event::Shutdown)) {
                    bad(rep, "end", format!("{} events beyond the expected ones: {:?}", out.len() as i64 - pos as i64, out.get(pos).map(fp)));
                }
            }
        }
    } else {
        for e in evs {
            if r.chance(5) {
                crate::clock::tick(r);
                rep.add("clock_moves", 1);
            }
            let was = fp(&e);
            let w = model.input(&e, &mut calls);
            let mut out = Vec::new();
            match f.process(e, &mut out) {
                Ok(()) => {}
                Err(FilterError::NoSuchFunction(_, t)) | Err(FilterError::LuaError(_, t)) => out.insert(0, t),
            }
            if let Want::Fail(..) = w {
                fails += 1;
            }
            let mut pos = 0;
            if let Some(x) = judge(&w, &calls, &out, &mut pos) {
                bad(rep, &was, x);
                break;
            }
            if pos != out.len() {
                bad(rep, &was, format!("{} further events, first {:?}", out.len() - pos, out.get(pos).map(fp)));
                break;
            }
        }
    }
    rep.add("calls_judged", calls.len() as u64);
    rep.add("operations_judged", calls.iter().map(|c| c.rets.len() as u64).sum());
    rep.add("failures_judged", fails);
    let _ = std::fs::remove_dir_all(&dir);
}

fn globals(r: &mut Rng) -> Tags {
    let mut g = Tags::new();
    for _ in 0..r.below(4) {
        g.insert(key(r), text(r, 2));
    }
    g
}

pub fn f04(a: &Args, rep: &mut Rep) {
    run_cases(a, rep, |r, rep| {
        let g = globals(r);
        let mut funs = BTreeMap::new();
        let mut script = PRELUDE.to_string();
        let depth = *r.pick(&[3u64, 10, 40]);
        for (f, nm, nl) in &[("process_metric", 1, 0), ("process_log", 0, 1), ("tick", 0, 0)] {
            let n = r.below(depth + 1);
            let ops = gen_ops(r, n, *nm, *nl, true);
            script.push_str(&body(r, f, &ops, true));
            funs.insert(*f, Fun::Ops(ops));
        }
        rep.seen(&script);
        rep.sample(clip(&script, 700));
        let mut model = Model { g, funs, calls: 0, last: 0, report: true, flaky: 0 };
        let n = r.range(5, 60);
        let evs = gen_history(r, n as u64);
        drive(a, r, rep, &script, &mut model, evs, "script-effect");
    });
}

const FUNCS: [&str; 18] = [
    "set_metric_name", "clear_logs", "clear_metrics", "log_remove_tag", "log_set_tag", "log_tag_value", "log_set_field",
    "log_set_value", "log_field_value", "log_value", "log_path", "metric_query", "metric_remove_tag", "metric_set_tag",
    "metric_tag_value", "push_log", "push_metric", "metric_name",
];

/// Source that raises an error whatever the payload holds (at most ten of each).
fn gen_bad(r: &mut Rng) -> String {
    let f = *r.pick(&FUNCS);
    let indexed: Vec<&&str> = FUNCS.iter().filter(|f| !f.starts_with("push") && !f.starts_with("clear")).collect();
    let fi = **r.pick(&indexed);
    match r.below(16) {
        0 => r.pick(&["error('x')", "error({})", "error(nil)", "error(42)", "error(true)", "error('\\255\\0')", "error(print)"]).to_string(),
        1 => "error(setmetatable({}, {__tostring = function() error('y') end}))".to_string(),
        2 => "error(setmetatable({}, {__tostring = function() return 5 end, __name = 3}))".to_string(),
        3 => format!("payload.{}()", f),
        4 => format!("payload.{}({}, 1, 'a', 'b')", f, r.pick(&["nil", "{}", "3", "'pyld'", "true", "print", "io.stdout", "coroutine.create(print)", "string"])),
        5 => format!("payload.{}(pyld)", fi),
        6 => format!(
            "payload.{}(pyld, {}, 'a', 'b')",
            fi,
            r.pick(&[
                "0", "99999", "-99999", "math.mininteger", "math.maxinteger", "1.5", "1e300", "0/0", "'x'", "nil", "{}", "-1e300",
                "math.huge", "1 << 32", "true", "-9223372036854775807"
            ])
        ),
        7 => "payload.no_such_function(pyld)".to_string(),
        8 if r.chance(15) => "local function f(n) return 1 + f(n) end f(1)".to_string(),
        8 => "local function f() return (string.gsub('x', 'x', f)) end f()".to_string(),
        9 => "coroutine.wrap(function() error('in coroutine') end)()".to_string(),
        10 => "coroutine.yield(1)".to_string(),
        11 => "string.rep()".to_string(),
        12 => "local t = setmetatable({}, {__index = function(t, k) return t[k .. 'x'] end}); local x = t.a".to_string(),
        13 => "local x = nil; x.y = 1".to_string(),
        14 => "payload.metric_name(pyld, table.unpack({}, 1, 1e7))".to_string(),
        _ => format!("payload.{}(setmetatable({{}}, {{__index = pyld}}), 1)", fi),
    }
}

/// Source that may or may not fail inside but leaves the payload alone.
fn gen_quiet(r: &mut Rng) -> String {
    match r.below(11) {
        0 => "collectgarbage()".to_string(),
        1 => "local t = {}; for i = 1, 200 do t[i] = {i, tostring(i)} end; for i = 1, 200, 2 do t[i] = nil end; collectgarbage('step')".to_string(),
        2 => "local s = {} for i = 1, 2000 do s[i] = tostring(i) end local x = table.concat(s)".to_string(),
        3 => format!("pcall(payload.metric_query, pyld, 1, {})", r.pick(&["-1", "2", "0/0", "math.huge", "nil", "'a'", "-0.0001", "1.0000001"])),
        4 => format!("payload.push_metric(pyld, {}, 1)", r.pick(&["nil", "'\\255'", "'a\\192'"])),
        5 => format!("payload.push_log(pyld, {})", r.pick(&["nil", "'\\255'", "'a\\237\\160\\128'"])),
        6 => format!("pcall(payload.metric_set_tag, pyld, 1, '\\255', 'v'); pcall(payload.metric_set_tag, pyld, 1, 'k', '\\255'); pcall(payload.{}, pyld, 1, '\\254')", r.pick(&["metric_remove_tag", "metric_tag_value", "log_tag_value", "log_remove_tag", "log_field_value", "set_metric_name", "log_set_value"])),
        7 => "pcall(string.rep, 'x', 1 << 60)".to_string(),
        8 => format!("pcall(payload.{}, pyld, 1, setmetatable({{}}, {{__tostring = function() error('z') end}}), setmetatable({{}}, {{__tostring = function() error('z') end}}))", r.pick(&["log_tag_value", "log_set_tag", "log_set_field", "metric_set_tag", "metric_tag_value", "metric_query"])),
        9 => "local co = coroutine.create(function() payload.no(1) end); coroutine.resume(co)".to_string(),
        _ => "for i = 1, 50 do pcall(error, {}) end".to_string(),
    }
}

pub fn f05(a: &Args, rep: &mut Rep) {
    run_cases(a, rep, |r, rep| {
        let g = globals(r);
        let mut funs: BTreeMap<&'static str, Fun> = BTreeMap::new();
        let mut script = PRELUDE.to_string();
        let flaky = if r.chance(30) { r.range(1, 5) as u64 } else { 0 };
        for (f, nm, nl) in &[("process_metric", 1usize, 0usize), ("process_log", 0, 1), ("tick", 0, 0)] {
            if r.chance(15) {
                match r.below(3) {
                    0 => {}
                    1 => script.push_str(&format!("{} = 5\n", f)),
                    _ => script.push_str(&format!("{} = 'text'\n", f)),
                }
                funs.insert(f, Fun::Missing);
                continue;
            }
            let mut ops = Vec::new();
            let (mut m, mut l) = (*nm, *nl);
            for _ in 0..r.below(8) {
                let op = match r.below(4) {
                    0 => {
                        let caught = r.chance(75);
                        Op::Bad(gen_bad(r), caught)
                    }
                    1 => Op::Quiet(gen_quiet(r)),
                    _ => {
                        let mut v = gen_ops(r, 1, m, l, false);
                        match v.pop() {
                            Some(o) => o,
                            None => continue,
                        }
                    }
                };
                match op {
                    Op::PushM(..) => m += 1,
                    Op::PushL(..) => l += 1,
                    Op::ClearM => m = 0,
                    Op::ClearL => l = 0,
                    _ => {}
                }
                ops.push(op);
            }
            let mut b = body(r, f, &ops, true);
            if flaky > 0 {
                b = b.replacen("  local R = {}\n", &format!("  if N % {} == 0 then error('flaky') end\n  local R = {{}}\n", flaky), 1);
            }
            script.push_str(&b);
            funs.insert(f, Fun::Ops(ops));
        }
        rep.seen(&script);
        rep.sample(clip(&script, 700));
        let mut model = Model { g, funs, calls: 0, last: 0, report: true, flaky };
        let n = if script.contains("return 1 + f(n)") { 10 } else { *r.pick(&[20u64, 60, 60, 300]) };
        let evs = gen_history(r, n);
        drive(a, r, rep, &script, &mut model, evs, "script-failure");
    });
}
