//! T06, T02: the real daemon between clients and fake peers of its sinks.
//!
//! Every event a client sends carries a token of its own; what each peer
//! received is searched for tokens and compared with the number of paths the
//! configuration has from the event's source to that sink.
use crate::common::*;
use crate::h::*;
use crate::ingest::{framed, Pb};
use crate::sinkh::{Http, Resp};
use crate::sinkk::{Broker, St};
use crate::sinkp::Client;
use crate::sinks::{fresh_port, my_ip, Peer};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs::File;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream, UdpSocket};
use std::os::unix::io::AsRawFd;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::thread;
use std::time::{Duration, Instant};

// --- the daemon as a child process ------------------------------------------

pub struct Daemon {
    pub child: Child,
    pub dir: String,
    pub status: Option<ExitStatus>,
}

pub fn text_of(path: &str) -> String {
    String::from_utf8_lossy(&std::fs::read(path).unwrap_or_default()).to_string()
}

impl Daemon {
    pub fn start(dir: &str, conf: &str, files: u64) -> Daemon {
        std::fs::create_dir_all(format!("{}/data", dir)).expect("HARNESS dir");
        std::fs::write(format!("{}/c.toml", dir), conf).expect("HARNESS conf");
        let exe = std::env::current_exe().expect("HARNESS exe").parent().unwrap().join("cernan-under-test");
        let out = |n: &str| Stdio::from(File::create(format!("{}/{}", dir, n)).expect("HARNESS file"));
        let mut c = Command::new(exe);
        c.arg("--config").arg(format!("{}/c.toml", dir)).current_dir(dir).stdin(Stdio::null()).stdout(out("out")).stderr(out("err"));
        unsafe {
            c.pre_exec(move || {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                if files > 0 {
                    let l = libc::rlimit { rlim_cur: files, rlim_max: files };
                    libc::setrlimit(libc::RLIMIT_NOFILE, &l);
                }
                Ok(())
            });
        }
        Daemon { child: c.spawn().expect("HARNESS spawn"), dir: dir.to_string(), status: None }
    }
    pub fn out(&self) -> String {
        text_of(&format!("{}/out", self.dir))
    }
    pub fn err(&self) -> String {
        text_of(&format!("{}/err", self.dir))
    }
    pub fn alive(&mut self) -> bool {
        if self.status.is_none() {
            self.status = self.child.try_wait().expect("HARNESS wait");
        }
        self.status.is_none()
    }
    pub fn kill(&mut self, sig: i32) {
        unsafe {
            libc::kill(self.child.id() as i32, sig);
        }
    }
    /// Whether it ended by itself in time.
    pub fn wait(&mut self, limit: Duration) -> bool {
        wait_until(limit, || !self.alive())
    }
    fn proc_file(&self, f: &str) -> String {
        text_of(&format!("/proc/{}/{}", self.child.id(), f))
    }
    /// Processor time used, in ticks, and whether no thread runs now.
    fn activity(&self) -> (u64, bool) {
        let s = self.proc_file("stat");
        let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        let t = if f.len() > 13 { f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0) } else { 0 };
        let mut still = true;
        if let Ok(d) = std::fs::read_dir(format!("/proc/{}/task", self.child.id())) {
            for e in d.flatten() {
                let s = text_of(&format!("{}/stat", e.path().display()));
                still &= s.rsplit(')').next().unwrap_or("").split_whitespace().next() != Some("R");
            }
        }
        (t, still)
    }
    pub fn tasks(&self) -> usize {
        std::fs::read_dir(format!("/proc/{}/task", self.child.id())).map(|d| d.count()).unwrap_or(0)
    }
    /// What each thread is at: its name, state and system call.
    pub fn threads(&self) -> String {
        let mut out = String::new();
        if let Ok(d) = std::fs::read_dir(format!("/proc/{}/task", self.child.id())) {
            for e in d.flatten() {
                let p = e.path().display().to_string();
                let s = text_of(&format!("{}/stat", p));
                let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().take(13).collect();
                let ticks = if f.len() > 12 { f[11].to_string() + "+" + f[12] } else { String::new() };
                let call: Vec<String> = text_of(&format!("{}/syscall", p)).split_whitespace().take(4).map(|w| w.to_string()).collect();
                out += &format!("{} {} cpu {} call {}; ", text_of(&format!("{}/comm", p)).trim(), f.get(0).unwrap_or(&""), ticks, call.join(" "));
            }
        }
        out
    }
    pub fn fds(&self) -> usize {
        std::fs::read_dir(format!("/proc/{}/fd", self.child.id())).map(|d| d.count()).unwrap_or(0)
    }
    pub fn opened(&self, path: &str) -> bool {
        std::fs::read_dir(format!("/proc/{}/fd", self.child.id()))
            .map(|d| d.flatten().any(|e| std::fs::read_link(e.path()).map(|l| l.to_string_lossy() == path).unwrap_or(false)))
            .unwrap_or(false)
    }
    /// Whether it has read the file to its end, every time it is open.
    fn has_read(&self, path: &str) -> bool {
        let size = std::fs::metadata(path).map(|m| m.len()).unwrap_or(0);
        let mut all = true;
        if let Ok(d) = std::fs::read_dir(format!("/proc/{}/fd", self.child.id())) {
            for e in d.flatten() {
                if std::fs::read_link(e.path()).map(|l| l.to_string_lossy() == path).unwrap_or(false) {
                    let i = text_of(&format!("/proc/{}/fdinfo/{}", self.child.id(), e.file_name().to_string_lossy()));
                    all &= i.lines().find(|l| l.starts_with("pos:")).and_then(|l| l[4..].trim().parse::<u64>().ok()).map_or(false, |p| p >= size);
                }
            }
        }
        all
    }
    /// Highest resident size so far, in MiB.
    pub fn peak(&self) -> u64 {
        self.proc_file("status").lines().find(|l| l.starts_with("VmHWM")).and_then(|l| l.split_whitespace().nth(1).and_then(|v| v.parse::<u64>().ok())).unwrap_or(0) >> 10
    }
    /// Waits until what clients sent to the ports has been read and nothing
    /// runs any more.
    pub fn settle(&self, ports: &[u16], files: &[&str]) -> bool {
        let (mut last, mut calm) = (u64::max_value(), 0);
        wait_until(Duration::from_secs(30), || {
            thread::sleep(Duration::from_millis(15));
            let mut empty = true;
            for f in &["/proc/net/tcp", "/proc/net/udp"] {
                for l in text_of(f).lines().skip(1) {
                    let w: Vec<&str> = l.split_whitespace().collect();
                    // A local end that listens for nothing holds what the daemon has not read.
                    if w.len() > 4 && w[3] != "0A" {
                        let at = |s: &str| u16::from_str_radix(s.rsplit(':').next().unwrap_or(""), 16).unwrap_or(0);
                        let (tx, rx) = (w[4].split(':').next().unwrap_or("0"), w[4].split(':').nth(1).unwrap_or("0"));
                        if ports.contains(&at(w[1])) && rx != "00000000" || ports.contains(&at(w[2])) && tx != "00000000" {
                            empty = false;
                        }
                    }
                }
            }
            empty &= files.iter().all(|f| self.has_read(f));
            let (t, still) = self.activity();
            calm = if empty && still && t <= last.saturating_add(1) { calm + 1 } else { 0 };
            last = t;
            calm >= 12
        })
    }
}

impl Drop for Daemon {
    fn drop(&mut self) {
        if self.alive() {
            let _ = self.child.kill();
            let _ = self.child.wait();
        }
    }
}

/// Ports free on `ip`, all different.
pub fn ports(ip: &str, n: usize) -> Vec<u16> {
    (0..n).map(|_| fresh_port(ip)).collect()
}

pub fn udp_up(ip: &str, port: u16) -> bool {
    let o: Vec<u8> = ip.split('.').map(|b| b.parse().unwrap()).collect();
    let want = format!("{:02X}{:02X}{:02X}{:02X}:{:04X}", o[3], o[2], o[1], o[0], port);
    text_of("/proc/net/udp").lines().any(|l| l.split_whitespace().nth(1) == Some(&want))
}

/// Datagrams the kernel dropped on their way to this port.
pub fn udp_drops(ip: &str, port: u16) -> u64 {
    let o: Vec<u8> = ip.split('.').map(|b| b.parse().unwrap()).collect();
    let want = format!("{:02X}{:02X}{:02X}{:02X}:{:04X}", o[3], o[2], o[1], o[0], port);
    text_of("/proc/net/udp").lines().filter(|l| l.split_whitespace().nth(1) == Some(&want)).filter_map(|l| l.split_whitespace().last().and_then(|d| d.parse::<u64>().ok())).sum()
}

pub fn tcp_up(ip: &str, port: u16) -> bool {
    let o: Vec<u8> = ip.split('.').map(|b| b.parse().unwrap()).collect();
    let want = format!("{:02X}{:02X}{:02X}{:02X}:{:04X}", o[3], o[2], o[1], o[0], port);
    text_of("/proc/net/tcp").lines().any(|l| {
        let f: Vec<&str> = l.split_whitespace().collect();
        f.len() > 3 && f[1] == want && f[3] == "0A"
    })
}

// --- tokens -------------------------------------------------------------------

/// Every `Tk...Z` in the text.
fn tokens(b: &[u8], mut f: impl FnMut(&str)) {
    let mut i = 0;
    while i + 2 < b.len() {
        if b[i] == b'T' && b[i + 1] == b'k' {
            let mut e = i + 2;
            while e < b.len() && (b[e].is_ascii_digit() || b[e] == b'x') {
                e += 1;
            }
            if e < b.len() && b[e] == b'Z' {
                f(unsafe { std::str::from_utf8_unchecked(&b[i..=e]) });
                i = e;
            }
        }
        i += 1;
    }
}

type Counts = HashMap<String, f64>;

/// Token counts of lines `name value` in one of their forms.
fn valued(text: &str, out: &mut Counts, value: impl Fn(&str) -> Option<f64>) {
    for l in text.lines() {
        let mut t = None;
        tokens(l.as_bytes(), |x| t = t.clone().or_else(|| Some(x.to_string())));
        if let (Some(t), Some(v)) = (t, value(l)) {
            *out.entry(t).or_insert(0.0) += v;
        }
    }
}

fn native_frames(b: &[u8], mut f: impl FnMut(&[u8])) {
    let mut i = 0;
    while i + 4 <= b.len() {
        let n = u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as usize;
        if i + 4 + n > b.len() {
            return;
        }
        f(&b[i + 4..i + 4 + n]);
        i += 4 + n;
    }
}

// --- configurations -------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    Statsd,
    Graphite,
    Native,
    Avro,
    Files,
    Internal,
    Programmable,
    Delay,
    Boundary,
    Json,
    Wavefront,
    SNative,
    Console,
    Prometheus,
    Influx,
    Elastic,
    Kafka,
    Null,
}
use K::*;

/// What an event is: telemetry that adds up, telemetry that does not, a line,
/// bytes.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum What {
    Sum,
    Set,
    Line,
    Bytes,
}

pub struct Node {
    pub path: String,
    pub kind: K,
    pub port: u16,
    pub fwds: Vec<usize>,
    pub file: String,
}

pub struct Topo {
    pub nodes: Vec<Node>,
    pub conf: String,
    pub scripts: Vec<String>,
}

fn family(k: K) -> &'static str {
    match k {
        Statsd => "sources.statsd",
        Graphite => "sources.graphite",
        Native => "sources.native",
        Avro => "sources.avro",
        Files => "sources.files",
        Internal => "sources.internal",
        Programmable => "filters.programmable",
        Delay => "filters.delay",
        Boundary => "filters.flush_boundary",
        Json => "filters.json_encode",
        Wavefront => "sinks.wavefront",
        SNative => "sinks.native",
        Console => "sinks.console",
        Prometheus => "sinks.prometheus",
        Influx => "sinks.influxdb",
        Elastic => "sinks.elasticsearch",
        Kafka => "sinks.kafka",
        Null => "sinks.null",
    }
}

impl Topo {
    pub fn is_source(&self, n: usize) -> bool {
        (self.nodes[n].kind as u8) <= Internal as u8
    }
    pub fn is_sink(&self, n: usize) -> bool {
        (self.nodes[n].kind as u8) >= Wavefront as u8
    }
    /// Number of paths from node `n`, entered by a `w`, to each sink as what
    /// arrives there.
    pub fn paths(&self, n: usize, w: What, out: &mut BTreeMap<(usize, What), u64>) {
        let w = if self.nodes[n].kind == Json && w == What::Line { What::Bytes } else { w };
        if self.is_sink(n) {
            *out.entry((n, w)).or_insert(0) += 1;
        }
        for f in &self.nodes[n].fwds {
            self.paths(*f, w, out);
        }
    }
    pub fn reach(&self, n: usize, out: &mut BTreeSet<usize>) {
        if out.insert(n) {
            for f in &self.nodes[n].fwds {
                self.reach(*f, out);
            }
        }
    }
}

const NAMES: [&str; 16] = ["a", "b", "ab", "a-b", "a_b", "statsd", "sinks", "filters", "native", "0", "UP", "internal", "console", "aa", "sources", "null"];

pub struct Shape {
    pub prometheus: bool,
    pub kafka: bool,
    pub kinds: Vec<K>,
    pub only_fast: bool,
}

/// A random acyclic topology.
pub fn topology(r: &mut Rng, dir: &str, ip: &str, kafka_ports: &[u16], sink_ports: &BTreeMap<u8, u16>, shape: &Shape) -> Topo {
    let mut nodes: Vec<Node> = vec![];
    let mut names: BTreeSet<String> = BTreeSet::new();
    let mut add = |r: &mut Rng, kind: K, nodes: &mut Vec<Node>| {
        let mut path = family(kind).to_string();
        if kind as u8 <= Files as u8 || kind as u8 >= Programmable as u8 && kind as u8 <= Json as u8 || kind == Kafka {
            loop {
                let p = format!("{}.{}", path, r.pick(&NAMES));
                if names.insert(p.clone()) {
                    path = p;
                    break;
                }
            }
        }
        nodes.push(Node { path, kind, port: 0, fwds: vec![], file: String::new() });
    };
    for k in &shape.kinds {
        for _ in 0..*r.pick(&[0u64, 1, 1, 2]) {
            add(r, *k, &mut nodes);
        }
    }
    if nodes.is_empty() {
        let k = *r.pick(&shape.kinds);
        add(r, k, &mut nodes);
    }
    let srcs = nodes.len();
    let internal = r.chance(40);
    if internal {
        add(r, Internal, &mut nodes);
    }
    let f0 = nodes.len();
    let mut filters: Vec<K> = vec![];
    for _ in 0..r.below(5) {
        filters.push(*r.pick(&[Programmable, Programmable, Delay, Boundary, Json]));
    }
    for k in &filters {
        add(r, *k, &mut nodes);
    }
    let s0 = nodes.len();
    let mut sinks = vec![Wavefront, SNative, Console, Influx, Elastic, Null];
    if shape.prometheus {
        sinks.push(Prometheus);
    }
    r.shuffle(&mut sinks);
    sinks.truncate(r.range(1, 5) as usize);
    for k in &sinks {
        add(r, *k, &mut nodes);
        let n = nodes.len() - 1;
        nodes[n].port = sink_ports.get(&(*k as u8)).cloned().unwrap_or(0);
    }
    if shape.kafka {
        for p in kafka_ports {
            if r.chance(60) {
                add(r, Kafka, &mut nodes);
                let n = nodes.len() - 1;
                nodes[n].port = *p;
            }
        }
    }
    let n = nodes.len();
    for i in 0..s0 {
        let lo = if i < f0 { f0 } else { i + 1 };
        let mut all: Vec<usize> = (lo..n).collect();
        r.shuffle(&mut all);
        let most = all.len().min(*r.pick(&[1, 2, 2, 3, 4]));
        // Sources other than the internal one need a forward.
        let few = if i < srcs || r.chance(85) { 1 } else { 0 };
        let k = r.range(few as i64, most.max(few) as i64) as usize;
        all.truncate(k);
        nodes[i].fwds = all;
    }
    let free = ports(ip, srcs);
    for (i, p) in free.iter().enumerate() {
        nodes[i].port = *p;
        nodes[i].file = format!("{}/in{}.log", dir, i);
    }
    // Two sources of the same files now and then.
    let fs: Vec<usize> = (0..srcs).filter(|i| nodes[*i].kind == Files).collect();
    if fs.len() == 2 && r.chance(40) {
        nodes[fs[1]].file = nodes[fs[0]].file.clone();
    }
    let mut tables = vec![];
    for i in 0..n {
        let q = |v: &str| format!("{:?}", v);
        let mut opts: Vec<(String, String)> = vec![];
        let mut o = |k: &str, v: String| opts.push((k.to_string(), v));
        let nd = &nodes[i];
        if i < s0 {
            let mut f: Vec<String> = nd.fwds.iter().map(|f| q(&nodes[*f].path)).collect();
            // A forward that is listed twice is one forward.
            if f.len() > 1 && r.chance(10) {
                f.push(f[0].clone());
            }
            if !(f.is_empty() && r.chance(50)) {
                o("forwards", format!("[{}]", f.join(", ")));
            }
        }
        let fi = |r: &mut Rng| if shape.only_fast { "0.25".to_string() } else { r.pick(&["0.25", "1", "0.5", "30"]).to_string() };
        match nd.kind {
            Statsd | Graphite | Avro => {
                o("host", q(ip));
                o("port", nd.port.to_string());
            }
            Native => {
                o("ip", q(ip));
                o("port", nd.port.to_string());
            }
            Files => o("path", q(&nd.file)),
            Programmable => o("script", q("id.lua")),
            Delay => o("tolerance", "100000".to_string()),
            Boundary => o("tolerance", r.pick(&["0", "1", "2"]).to_string()),
            Json => {
                if r.chance(50) {
                    o("parse_line", "false".to_string());
                }
            }
            Wavefront | Influx | Elastic | SNative | Prometheus => {
                o("host", q(ip));
                o("port", nd.port.to_string());
                if nd.kind != Prometheus {
                    o("flush_interval", fi(r));
                }
                if nd.kind == Influx || nd.kind == Elastic {
                    o("secure", "false".to_string());
                }
            }
            Console => o("flush_interval", fi(r)),
            Kafka => {
                o("brokers", q(&format!("127.0.0.1:{}", nd.port)));
                o("topic", q("events"));
                o("flush_interval", fi(r));
                o("librdkafka", "{ \"client.id\" = \"cv\", \"queue.buffering.max.ms\" = 1, \"socket.blocking.max.ms\" = 5 }".to_string());
            }
            Internal | Null => {}
        }
        let mut t = format!("[{}]\n", nd.path);
        r.shuffle(&mut opts);
        for (k, v) in opts {
            t.push_str(&format!("{} = {}\n", k, v));
        }
        tables.push(t);
    }
    // The order of the file says nothing.
    r.shuffle(&mut tables);
    let mem = *r.pick(&["1048576", "1048576", "4000", "1000"]);
    let conf = format!("data-directory = \"{}/data\"\nscripts-directory = \"{}\"\nflush-interval = 1\nmax-hopper-in-memory-bytes = {}\n\n{}", dir, dir, mem, tables.join("\n"));
    Topo { nodes, conf, scripts: vec!["id.lua".to_string()] }
}

// --- fake peers -------------------------------------------------------------------

pub struct Peers {
    pub ip: String,
    pub wavefront: Peer,
    pub native: Peer,
    pub influx: Http,
    pub elastic: Http,
    pub influx_log: Shared<Vec<Vec<u8>>>,
    pub elastic_log: Shared<Vec<Vec<u8>>>,
    pub brokers: Vec<Broker>,
    pub prometheus: u16,
}

impl Peers {
    pub fn new(r: &mut Rng, kafka: usize) -> Peers {
        let ip = my_ip();
        let p = ports(&ip, 3);
        let (il, el): (Shared<Vec<Vec<u8>>>, Shared<Vec<Vec<u8>>>) = (shared(vec![]), shared(vec![]));
        let (a, b) = (il.clone(), el.clone());
        let influx = Http::start(&ip, p[0], move |q| {
            if q.method == "POST" {
                a.lock().unwrap().push(q.body.clone());
            }
            Resp::Status(204, String::new())
        });
        let elastic = Http::start(&ip, p[1], move |q| {
            let t = String::from_utf8_lossy(&q.body).to_string();
            let mut items = vec![];
            for l in t.lines().step_by(2) {
                let h: serde_json::Value = serde_json::from_str(l).unwrap_or_default();
                items.push(json!({"index": {"_index": "i", "_type": "t", "_id": h["index"]["_id"], "_version": 1, "result": "created", "_shards": {"total": 2, "successful": 1, "failed": 0}, "created": true, "status": 201}}));
            }
            b.lock().unwrap().push(q.body.clone());
            Resp::Status(200, json!({"took": 1, "errors": false, "items": items}).to_string())
        });
        let (wavefront, native) = (Peer::new(), Peer::new());
        wavefront.open();
        native.open();
        let brokers = (0..kafka).map(|_| Broker::start(St { topic: "events".to_string(), client: "cv".to_string(), parts: 1, ..Default::default() }, 0, r.next())).collect();
        Peers { ip, wavefront, native, influx, elastic, influx_log: il, elastic_log: el, brokers, prometheus: p[2] }
    }
    pub fn sink_ports(&self) -> BTreeMap<u8, u16> {
        let mut m = BTreeMap::new();
        m.insert(Wavefront as u8, self.wavefront.port);
        m.insert(SNative as u8, self.native.port);
        m.insert(Influx as u8, self.influx.port);
        m.insert(Elastic as u8, self.elastic.port);
        m.insert(Prometheus as u8, self.prometheus);
        m
    }
    pub fn kafka_ports(&self) -> Vec<u16> {
        self.brokers.iter().map(|b| b.port).collect()
    }
    /// What the peer of a sink has received: (token, number), and whether
    /// telemetry of cernan's own is among it.
    pub fn got(&self, t: &Topo, i: usize, d: Option<&Daemon>) -> Result<(Counts, bool), String> {
        let mut c = Counts::new();
        let mut own = false;
        let mut count = |b: &[u8], c: &mut Counts| tokens(b, |t| *c.entry(t.to_string()).or_insert(0.0) += 1.0);
        match t.nodes[i].kind {
            Wavefront => {
                for k in self.wavefront.conns.lock().unwrap().iter() {
                    let s = String::from_utf8_lossy(&k.bytes);
                    own |= s.contains("cernan.");
                    valued(&s, &mut c, |l| l.split(' ').nth(1).and_then(|v| v.parse().ok()));
                }
            }
            SNative => {
                for k in self.native.conns.lock().unwrap().iter() {
                    own |= k.bytes.windows(7).any(|w| w == b"cernan.");
                    native_frames(&k.bytes, |f| count(f, &mut c));
                }
            }
            Console => {
                let s = d.map_or(String::new(), |d| d.out());
                own |= s.contains("    cernan.");
                let (mut tele, mut rest) = (String::new(), String::new());
                for l in s.lines() {
                    let to = if l.starts_with("    ") { &mut tele } else { &mut rest };
                    to.push_str(l);
                    to.push('\n');
                }
                valued(&tele, &mut c, |l| l.rsplit("): ").next().and_then(|v| v.parse().ok()));
                count(rest.as_bytes(), &mut c);
            }
            Influx => {
                for b in self.influx_log.lock().unwrap().iter() {
                    let s = String::from_utf8_lossy(b);
                    own |= s.contains("cernan.");
                    valued(&s, &mut c, |l| l.split(" value=").nth(1).and_then(|v| v.split(' ').next()).and_then(|v| v.parse().ok()));
                }
            }
            Elastic => {
                for b in self.elastic_log.lock().unwrap().iter() {
                    count(b, &mut c);
                }
            }
            Kafka => {
                for b in self.brokers.iter().filter(|b| b.port == t.nodes[i].port) {
                    let st = b.st.lock().unwrap();
                    if let Some(b) = st.bad.first() {
                        return Err(format!("kafka: {}", b.1));
                    }
                    for s in st.seen.values().flat_map(|v| v.iter()) {
                        // One document, whatever it says twice.
                        let mut one = BTreeSet::new();
                        tokens(s.val.as_ref().map_or(&[][..], |v| &v[..]), |t| {
                            one.insert(t.to_string());
                        });
                        for t in one {
                            *c.entry(t).or_insert(0.0) += 1.0;
                        }
                    }
                }
            }
            Prometheus => {
                let mut q = Client::open(&self.ip, self.prometheus).ok_or("no answer to a scrape")?;
                q.ask("GET /metrics HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")?;
                let s = String::from_utf8_lossy(&q.answer()?.body).to_string();
                own |= s.contains("cernan_");
                let body: String = s.lines().filter(|l| !l.starts_with('#')).flat_map(|l| vec![l, "\n"]).collect();
                valued(&body, &mut c, |l| l.rsplit(' ').next().and_then(|v| v.parse().ok()));
            }
            _ => {}
        }
        Ok((c, own))
    }
    pub fn settle(&self) {
        self.wavefront.settle();
        self.native.settle();
    }
    pub fn stop(&self) {
        self.wavefront.refuse();
        self.native.refuse();
        self.influx.stop();
        self.elastic.stop();
    }
}

/// What of an event a sink shows.
fn shows(sink: K, w: What) -> bool {
    match sink {
        Wavefront | Prometheus | Influx => w == What::Sum || w == What::Set,
        SNative | Console => w != What::Bytes,
        Elastic => w == What::Line,
        Kafka => w == What::Bytes,
        _ => false,
    }
}

// --- clients ------------------------------------------------------------------------

pub struct Sent {
    pub token: String,
    pub src: usize,
    pub what: What,
    /// connection and number on it
    pub conn: usize,
}

pub fn zz(v: u64, o: &mut Vec<u8>) {
    let mut n = v << 1;
    while n > 127 {
        o.push((n & 127) as u8 | 128);
        n >>= 7;
    }
    o.push(n as u8);
}

/// An avro payload whose container says `text` in its schema.
pub fn avro_token(token: &str, order: u64) -> Vec<u8> {
    avro_message(token, order, 0)
}

fn avro_message(token: &str, order: u64, control: u32) -> Vec<u8> {
    let mut p = vec![];
    p.extend_from_slice(&1u32.to_be_bytes());
    p.extend_from_slice(&control.to_be_bytes());
    p.extend_from_slice(&order.to_be_bytes());
    p.extend_from_slice(&order.to_be_bytes());
    p.extend_from_slice(b"Obj\x01");
    zz(2, &mut p);
    let schema = format!("{{\"type\":\"enum\",\"name\":\"{}\",\"symbols\":[\"A\"]}}", token);
    for (k, v) in &[("avro.codec", "null"), ("avro.schema", schema.as_str())] {
        zz(k.len() as u64, &mut p);
        p.extend_from_slice(k.as_bytes());
        zz(v.len() as u64, &mut p);
        p.extend_from_slice(v.as_bytes());
    }
    p.push(0);
    p.extend_from_slice(&[7; 16]);
    framed(&p)
}

fn now_s() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}

pub fn native_token(batch: &[(String, What)]) -> Vec<u8> {
    let mut p = Pb(vec![]);
    for (t, w) in batch {
        let mut e = Pb(vec![]);
        match w {
            What::Line => {
                e.blob(1, b"some/path");
                e.blob(2, format!("line {}", t).as_bytes());
                e.int(4, now_s() * 1000);
                p.blob(3, &e.0);
            }
            _ => {
                e.blob(1, t.as_bytes());
                e.blob(2, &1f64.to_bits().to_le_bytes());
                e.int(4, 1);
                e.int(6, now_s() * 1000);
                p.blob(2, &e.0);
            }
        }
    }
    framed(&p.0)
}

static SERIAL: AtomicU64 = AtomicU64::new(0);

fn token(src: usize) -> String {
    format!("Tk{}x{}Z", src, SERIAL.fetch_add(1, Ordering::SeqCst))
}

/// One connection of a client to source `i`, sending `n` events.
fn client(r: &mut Rng, t: &Topo, ip: &str, i: usize, conn: usize, n: u64, slow: bool, stop: &AtomicBool) -> Vec<Sent> {
    let nd = &t.nodes[i];
    let mut sent = vec![];
    let mut nap = |r: &mut Rng| {
        if slow {
            thread::sleep(Duration::from_micros(r.below(2500)));
        }
    };
    match nd.kind {
        Statsd => {
            let s = UdpSocket::bind((ip, 0)).expect("HARNESS udp");
            let mut left = n;
            while left > 0 && !stop.load(Ordering::SeqCst) {
                let k = left.min(r.range(1, 5) as u64);
                let mut m = String::new();
                for _ in 0..k {
                    let t = token(i);
                    m.push_str(&format!("{}:1|c\n", t));
                    sent.push(Sent { token: t, src: i, what: What::Sum, conn });
                }
                let _ = s.send_to(m.as_bytes(), (ip, nd.port));
                left -= k;
                // The kernel keeps only so many datagrams.
                thread::sleep(Duration::from_micros(200));
                nap(r);
            }
        }
        Files => {
            let mut f = match std::fs::OpenOptions::new().append(true).open(&nd.file) {
                Ok(f) => f,
                Err(e) => harness_fail(&format!("{}: {}", nd.file, e)),
            };
            for _ in 0..n {
                if stop.load(Ordering::SeqCst) {
                    break;
                }
                let t = token(i);
                let _ = f.write_all(format!("a line {} of the log\n", t).as_bytes());
                sent.push(Sent { token: t, src: i, what: What::Line, conn });
                nap(r);
            }
        }
        _ => {
            let mut s = match dial(ip, nd.port, 20_000) {
                Ok(s) => s,
                Err(_) => return sent,
            };
            let _ = s.set_write_timeout(Some(Duration::from_secs(5)));
            let mut left = n;
            while left > 0 && !stop.load(Ordering::SeqCst) {
                let k = if nd.kind == Avro { 1 } else { left.min(r.range(1, 5) as u64) };
                let mut batch = vec![];
                for _ in 0..k {
                    let what = match nd.kind {
                        Graphite => What::Set,
                        Avro => What::Bytes,
                        _ => if r.chance(50) { What::Line } else { What::Sum },
                    };
                    batch.push((token(i), what));
                }
                // Points go before lines of a payload.
                batch.sort_by_key(|b| b.1);
                let m = match nd.kind {
                    Graphite => batch.iter().map(|b| format!("{} 1 {}\n", b.0, now_s())).collect::<String>().into_bytes(),
                    Avro => avro_token(&batch[0].0, SERIAL.fetch_add(1, Ordering::SeqCst)),
                    _ => native_token(&batch),
                };
                for (t, w) in batch {
                    sent.push(Sent { token: t, src: i, what: w, conn });
                }
                if s.write_all(&m).is_err() {
                    break;
                }
                left -= k;
                nap(r);
            }
            // Until the peer has it: what it has not read at a close it may lose.
            let _ = s.shutdown(std::net::Shutdown::Write);
            let _ = s.set_read_timeout(Some(Duration::from_secs(if stop.load(Ordering::SeqCst) { 0 } else { 10 }.max(1))));
            let mut b = [0; 64];
            while let Ok(n) = s.read(&mut b) {
                if n == 0 {
                    break;
                }
            }
        }
    }
    sent
}

fn wanted(t: &Topo, s: &Sent) -> BTreeMap<(usize, What), u64> {
    let mut m = BTreeMap::new();
    t.paths(s.src, s.what, &mut m);
    m
}

/// What a sink's peer shows of an event that came over `n` paths.
fn expected(k: K, w: What, n: u64) -> (f64, f64) {
    // Of values that do not add up each flush shows one, which is 1.
    (if w == What::Set && k != SNative { 1.0 } else { n as f64 }, n as f64)
}

fn started(d: &mut Daemon, t: &Topo, ip: &str) -> bool {
    wait_until(Duration::from_secs(40), || {
        !d.alive()
            || t.nodes.iter().enumerate().all(|(i, n)| match n.kind {
                Statsd => udp_up(ip, n.port),
                Graphite | Native | Avro | Prometheus => tcp_up(ip, n.port),
                Files => d.opened(&n.file),
                _ => i < t.nodes.len(),
            })
    });
    d.alive()
}

fn died(d: &mut Daemon) -> String {
    format!("status {:?}\n{}\n{}", d.status, clip(&d.err(), 1500), clip(&text_of(&format!("{}/c.toml", d.dir)), 1500))
}

/// Panics the daemon reported.
fn panics(d: &Daemon) -> Option<String> {
    let e = d.err();
    if e.contains("panicked at") { Some(clip(&e, 1500)) } else { None }
}

fn setup(t: &Topo, dir: &str) {
    std::fs::create_dir_all(dir).expect("HARNESS dir");
    for s in &t.scripts {
        std::fs::write(format!("{}/{}", dir, s), "function process_metric(p)\nend\nfunction process_log(p)\nend\nfunction tick(p)\nend\n").expect("HARNESS script");
    }
    for n in &t.nodes {
        if n.kind == Files {
            std::fs::write(&n.file, "").expect("HARNESS file");
        }
    }
}

fn shape_of(t: &Topo) -> Vec<(K, Vec<usize>)> {
    t.nodes.iter().map(|n| (n.kind, n.fwds.clone())).collect()
}

// --- T06 ------------------------------------------------------------------------------

pub fn t06(a: &Args, rep: &mut Rep) {
    run_cases(a, rep, |r, rep| {
        let dir = format!("{}/c{}", a.work, rep.case);
        let peers = Peers::new(r, 2);
        let ip = peers.ip.clone();
        let shape = Shape { prometheus: true, kafka: true, kinds: vec![Statsd, Graphite, Native, Avro, Files], only_fast: true };
        let t = topology(r, &dir, &ip, &peers.kafka_ports(), &peers.sink_ports(), &shape);
        setup(&t, &dir);
        rep.seen(&shape_of(&t));
        rep.add("components", t.nodes.len() as u64);
        rep.sample(t.conf.clone());
        if r.chance(30) {
            refusal(r, rep, &t, &dir);
        } else {
            run_topology(r, rep, &t, &dir, &peers);
        }
        peers.stop();
        let _ = std::fs::remove_dir_all(&dir);
    });
}

// --- T07: the daemon killed and started again --------------------------------------------

pub fn t07(a: &Args, rep: &mut Rep) {
    run_cases(a, rep, |r, rep| {
        let dir = format!("{}/c{}", a.work, rep.case);
        let peers = Peers::new(r, 2);
        let ip = peers.ip.clone();
        let shape = Shape { prometheus: true, kafka: true, kinds: vec![Statsd, Graphite, Native, Avro, Files], only_fast: true };
        let t = topology(r, &dir, &ip, &peers.kafka_ports(), &peers.sink_ports(), &shape);
        setup(&t, &dir);
        rep.seen(&(shape_of(&t), rep.case));
        rep.sample(t.conf.clone());
        // The peers of the sinks are away meanwhile, so queues fill, and what a
        // sink's peer sees later is of the last run or should not be there.
        let mut conf = t.conf.clone();
        for n in &t.nodes {
            if [Wavefront, SNative, Influx, Elastic, Kafka].contains(&n.kind) {
                conf = conf.replace(&format!("port = {}\n", n.port), "port = 1\n").replace(&format!("127.0.0.1:{}\"", n.port), "127.0.0.1:1\"");
            }
        }
        for life in 0..r.range(1, 3) {
            if !killed_life(r, rep, &t, &conf, &dir, &ip, life) {
                return;
            }
        }
        run_topology(r, rep, &t, &dir, &peers);
        rep.add("restarts", 1);
        peers.stop();
        let _ = std::fs::remove_dir_all(&dir);
    });
}

/// A run that ends by SIGKILL at any moment.
fn killed_life(r: &mut Rng, rep: &mut Rep, t: &Topo, conf: &str, dir: &str, ip: &str, life: i64) -> bool {
    let mut d = Daemon::start(dir, conf, 0);
    if r.chance(15) {
        thread::sleep(Duration::from_micros(r.below(60_000)));
        rep.add("killed_while_starting", 1);
        d.kill(libc::SIGKILL);
        d.wait(Duration::from_secs(20));
        return true;
    }
    if !started(&mut d, t, ip) {
        rep.viol("start", format!("cernan does not start, {} runs after the first: {}", life, died(&mut d)));
        return false;
    }
    let stop = Arc::new(AtomicBool::new(false));
    // Threads share the topology for the time of the case.
    let tp: &'static Topo = unsafe { &*(t as *const Topo) };
    let mut hs = vec![];
    for i in 0..t.nodes.len() {
        if t.is_source(i) && t.nodes[i].kind != Internal {
            let n = *r.pick(&[10u64, 300, 3000]);
            let mut rr = Rng::new(r.next(), 9);
            let (st, ips) = (stop.clone(), ip.to_string());
            let slow = r.chance(50);
            hs.push(thread::spawn(move || client(&mut rr, tp, &ips, i, 0, n, slow, &st)));
        }
    }
    thread::sleep(Duration::from_micros(r.below(500_000)));
    if r.chance(15) {
        d.kill(libc::SIGTERM);
        thread::sleep(Duration::from_micros(r.below(30_000)));
        rep.add("killed_while_stopping", 1);
    } else {
        rep.add("killed_under_load", 1);
    }
    d.kill(libc::SIGKILL);
    d.wait(Duration::from_secs(20));
    stop.store(true, Ordering::SeqCst);
    for h in hs {
        let _ = h.join();
    }
    // What it leaves on disk.
    let mut left = 0;
    for q in std::fs::read_dir(format!("{}/data", dir)).map(|d| d.flatten().collect()).unwrap_or(vec![]) {
        for f in std::fs::read_dir(q.path()).map(|d| d.flatten().collect()).unwrap_or(vec![]) {
            left += f.metadata().map(|m| m.len()).unwrap_or(0);
        }
    }
    if left > 0 {
        rep.add("queues_left_behind", 1);
        rep.add("bytes_left_behind", left);
    }
    true
}

/// A forward that names nothing.
fn refusal(r: &mut Rng, rep: &mut Rep, t: &Topo, dir: &str) {
    let list: Vec<usize> = (0..t.nodes.len()).filter(|i| !t.nodes[*i].fwds.is_empty()).collect();
    let i = *r.pick(&list);
    let nd = &t.nodes[i];
    let to = &t.nodes[*r.pick(&nd.fwds)].path;
    let taken: BTreeSet<&String> = t.nodes.iter().map(|n| &n.path).collect();
    let wrong = loop {
        let w = match r.below(12) {
            // A source takes no events.
            7 | 10 | 11 => {
                let s: Vec<&String> = t.nodes.iter().enumerate().filter(|n| t.is_source(n.0)).map(|n| &n.1.path).collect();
                let w = (*r.pick(&s)).clone();
                rep.add("forwards_to_a_source", 1);
                break w;
            }
            8 => if to.starts_with("sinks.") { to.replacen("sinks.", "filters.", 1) } else { to.replacen("filters.", "sinks.", 1) },
            9 => format!("{}{}", to, r.pick(&[" ", ".", ".x", "é"])),
            0 => format!("{}x", to),
            1 => to[..to.len() - 1].to_string(),
            2 => to.to_uppercase(),
            3 => format!(" {}", to),
            4 => to.rsplit('.').next().unwrap().to_string(),
            5 => format!("sinks.{}", r.pick(&["wavefront", "native", "console", "prometheus", "influxdb", "elasticsearch", "null", "kafka", "nothing"])),
            _ => format!("filters.programmable.{}", r.pick(&NAMES)),
        };
        if !taken.contains(&w) {
            break w;
        }
    };
    // Replace one forward of that component only, or add one.
    let mut out = String::new();
    let mut here = false;
    for l in t.conf.lines() {
        if l.starts_with('[') {
            here = l == format!("[{}]", nd.path);
        }
        if here && l.starts_with("forwards") {
            if r.chance(50) {
                out.push_str(&l.replace(&format!("{:?}", to), &format!("{:?}", wrong)));
            } else if r.chance(50) {
                out.push_str(&l.replace("]", &format!(", {:?}]", wrong)));
            } else {
                out.push_str(&l.replace("[", &format!("[{:?}, ", wrong)));
            }
        } else {
            out.push_str(l);
        }
        out.push('\n');
    }
    let mut d = Daemon::start(dir, &out, 0);
    rep.add("unknown_forwards", 1);
    rep.add(&format!("unknown_from_{}", family(nd.kind)), 1);
    if !d.wait(Duration::from_secs(40)) {
        rep.viol("unknown-forward", format!("{} forwards to {:?}, which is nothing, and cernan runs\n{}", nd.path, wrong, clip(&out, 2500)));
    } else if d.status.unwrap().code().map_or(true, |c| c == 0) {
        rep.viol("unknown-forward", format!("{} forwards to {:?}, which is nothing, and cernan ended with {:?}\n{}", nd.path, wrong, d.status, clip(&out, 2500)));
    }
}

fn run_topology(r: &mut Rng, rep: &mut Rep, t: &Topo, dir: &str, peers: &Peers) {
    let ip = &peers.ip;
    let mut d = Daemon::start(dir, &t.conf, 0);
    if !started(&mut d, t, ip) {
        rep.viol("start", format!("cernan does not start: {}", died(&mut d)));
        return;
    }
    let never = AtomicBool::new(false);
    let mut sent = vec![];
    for i in 0..t.nodes.len() {
        if t.is_source(i) && t.nodes[i].kind != Internal {
            for c in 0..r.range(1, 2) {
                let n = r.range(1, 25) as u64;
                sent.append(&mut client(r, t, ip, i, c as usize, n, false, &never));
            }
        }
    }
    // Two sources may follow one file.
    let more: Vec<Sent> = sent
        .iter()
        .filter(|s| s.what == What::Line && t.nodes[s.src].kind == Files)
        .flat_map(|s| (0..t.nodes.len()).filter(move |j| *j != s.src && t.nodes[*j].kind == Files && t.nodes[*j].file == t.nodes[s.src].file).map(move |j| Sent { token: s.token.clone(), src: j, what: What::Line, conn: s.conn }))
        .collect();
    sent.extend(more);
    let sinks: Vec<usize> = (0..t.nodes.len()).filter(|i| t.is_sink(*i)).collect();
    let mut want: BTreeMap<usize, HashMap<String, (f64, f64)>> = sinks.iter().map(|i| (*i, HashMap::new())).collect();
    for s in &sent {
        for ((n, w), k) in wanted(t, s) {
            if shows(t.nodes[n].kind, w) {
                let e = want.get_mut(&n).unwrap().entry(s.token.clone()).or_insert((0.0, 0.0));
                let x = expected(t.nodes[n].kind, w, k);
                *e = (e.0 + x.0, e.1 + x.1);
            }
        }
    }
    for (n, w) in &want {
        rep.add(&format!("at_{}", family(t.nodes[*n].kind)), w.len() as u64);
    }
    rep.add("events", sent.len() as u64);
    let dropped: u64 = t.nodes.iter().filter(|n| n.kind == Statsd).map(|n| udp_drops(ip, n.port)).sum();
    if dropped > 0 {
        rep.add("cases_with_kernel_drops", 1);
        return;
    }
    // Everything becomes visible while it runs.
    let (mut last, mut owned) = (String::new(), BTreeSet::new());
    let missing = |d: &Daemon, last: &mut String, owned: &mut BTreeSet<usize>| {
        last.clear();
        for n in &sinks {
            match peers.got(t, *n, Some(d)) {
                Err(e) => *last = e,
                Ok((g, own)) => {
                    if own {
                        owned.insert(*n);
                    }
                    for (k, v) in &want[n] {
                        if g.get(k).cloned().unwrap_or(0.0) < v.0 {
                            *last = format!("{} has {} of {} {}", t.nodes[*n].path, g.get(k).cloned().unwrap_or(0.0), v.0, k);
                        }
                    }
                }
            }
        }
        !last.is_empty()
    };
    let ok = wait_until(Duration::from_secs(30), || {
        thread::sleep(Duration::from_millis(30));
        !d.alive() || !missing(&d, &mut last, &mut owned)
    });
    if !d.alive() {
        rep.viol("died", format!("cernan ended: {}", died(&mut d)));
        return;
    }
    if !ok {
        rep.viol("lost", format!("after 30 s {}\n{}", last, clip(&t.conf, 2500)));
        return;
    }
    if r.chance(40) {
        // Long enough for cernan's own telemetry and for strays.
        thread::sleep(Duration::from_millis(1300));
        let mut w = String::new();
        missing(&d, &mut w, &mut owned);
    }
    let scraped: BTreeMap<usize, Counts> = sinks.iter().filter(|n| t.nodes[**n].kind == Prometheus).filter_map(|n| peers.got(t, *n, Some(&d)).ok().map(|g| (*n, g.0))).collect();
    d.kill(libc::SIGTERM);
    if !d.wait(Duration::from_secs(60)) {
        rep.viol("shutdown", format!("cernan has not ended 60 s after SIGTERM\n{}", clip(&t.conf, 2500)));
        return;
    }
    if d.status.unwrap().code() != Some(0) {
        rep.viol("shutdown", format!("cernan ended with {}", died(&mut d)));
    }
    if let Some(p) = panics(&d) {
        rep.viol("panic", p);
    }
    peers.settle();
    let mut allowed = BTreeSet::new();
    for (i, n) in t.nodes.iter().enumerate() {
        if n.kind == Internal {
            t.reach(i, &mut allowed);
        }
    }
    for n in &sinks {
        let g = match scraped.get(n) {
            Some(g) => g.clone(),
            None if t.nodes[*n].kind == Prometheus => continue,
            None => match peers.got(t, *n, Some(&d)) {
                Ok((g, own)) => {
                    if own {
                        owned.insert(*n);
                    }
                    g
                }
                Err(e) => {
                    rep.viol("peer", e);
                    continue;
                }
            },
        };
        rep.add("pairs_compared", (g.len() + want[n].len()) as u64);
        for (k, v) in &g {
            let w = want[n].get(k).cloned().unwrap_or((0.0, 0.0));
            if *v < w.0 || *v > w.1 {
                let sig = if w.1 == 0.0 { "stray" } else { "path-count" };
                rep.viol(sig, format!("{} has {} of {}, expected {:?}\n{}", t.nodes[*n].path, v, k, w, clip(&t.conf, 2500)));
                return;
            }
        }
    }
    for n in &owned {
        rep.add("self_telemetry_seen", 1);
        if !allowed.contains(n) {
            rep.viol("stray", format!("{} has telemetry of cernan's own, which is not routed there\n{}", t.nodes[*n].path, clip(&t.conf, 2500)));
        }
    }
}

// --- T02: the daemon stopped at any moment -----------------------------------------------

pub fn t02d(a: &Args, rep: &mut Rep) {
    run_cases(a, rep, |r, rep| {
        let dir = format!("{}/c{}", a.work, rep.case);
        let peers = Peers::new(r, 1);
        let ip = peers.ip.clone();
        let shape = Shape { prometheus: true, kafka: true, kinds: vec![Statsd, Graphite, Native, Avro, Files], only_fast: false };
        let t = topology(r, &dir, &ip, &peers.kafka_ports(), &peers.sink_ports(), &shape);
        setup(&t, &dir);
        rep.seen(&(shape_of(&t), rep.case));
        stop_case(r, rep, &t, &dir, &peers);
        peers.stop();
        let _ = std::fs::remove_dir_all(&dir);
    });
}

fn stop_case(r: &mut Rng, rep: &mut Rep, t: &Topo, dir: &str, peers: &Peers) {
    let ip = &peers.ip;
    let mut d = Daemon::start(dir, &t.conf, 0);
    if !started(&mut d, t, ip) {
        rep.viol("start", format!("cernan does not start: {}", died(&mut d)));
        return;
    }
    let quiet = r.chance(50);
    let stop = Arc::new(AtomicBool::new(false));
    // Clients that never say or end anything, or stop half way.
    let mut idle = vec![];
    for n in &t.nodes {
        match n.kind {
            Graphite | Native | Avro => {
                for _ in 0..r.below(3) {
                    if let Ok(mut s) = TcpStream::connect((ip.as_str(), n.port)) {
                        match r.below(3) {
                            0 => {}
                            1 => {
                                let _ = s.write_all(b"\0\0\x01");
                            }
                            _ => {
                                let _ = s.write_all(b"\0\0\0\x40half");
                            }
                        }
                        idle.push(s);
                        rep.add("idle_connections", 1);
                    }
                }
            }
            Prometheus => {
                rep.add("with_prometheus", 1);
                for _ in 0..r.below(4) {
                    if let Ok(mut s) = TcpStream::connect((ip.as_str(), n.port)) {
                        let _ = s.write_all(r.pick(&["", "GET /metrics HT", "GET / HTTP/1.1\r\nHost: x\r\n\r\n", "GET / HTTP/1.0\r\nHost"]).as_bytes());
                        idle.push(s);
                        rep.add("idle_scrapers", 1);
                    }
                }
            }
            _ => {}
        }
    }
    let ips = ip.clone();
    let mut sent: Vec<Sent> = vec![];
    let mut cpu = 0;
    // Threads share the topology for the time of the case.
    let tp: &'static Topo = unsafe { &*(t as *const Topo) };
    let mut hs = vec![];
    let mut order = vec![];
    for i in 0..t.nodes.len() {
        if t.is_source(i) && t.nodes[i].kind != Internal {
            for c in 0..r.range(1, 3) as usize {
                let n = if quiet { r.range(1, 200) as u64 } else { *r.pick(&[300u64, 1000, 5000, 20_000]) };
                let mut rr = Rng::new(r.next(), c as u64);
                let (st, ips) = (stop.clone(), ips.clone());
                let slow = r.chance(50);
                // One writer to a file, whose lines have an order.
                if t.nodes[i].kind == Files && c > 0 {
                    continue;
                }
                order.push((i, c));
                hs.push(thread::spawn(move || client(&mut rr, tp, &ips, i, c, n, slow, &st)));
            }
        }
    }
    let sig = *r.pick(&[libc::SIGTERM, libc::SIGINT]);
    let listening: Vec<u16> = t.nodes.iter().enumerate().filter(|(i, n)| t.is_source(*i) && n.port > 0).map(|(_, n)| n.port).collect();
    let mut settled = false;
    if quiet {
        for h in hs.drain(..) {
            sent.append(&mut h.join().unwrap_or_default());
        }
        let files: Vec<&str> = t.nodes.iter().filter(|n| n.kind == Files).map(|n| n.file.as_str()).collect();
        settled = d.settle(&listening, &files);
        cpu = d.activity().0;
        rep.add(if settled { "stopped_when_quiet" } else { "stopped_unsettled" }, 1);
    } else {
        thread::sleep(Duration::from_micros(r.below(400_000)));
        rep.add("stopped_under_load", 1);
    }
    let drops: u64 = t.nodes.iter().filter(|n| n.kind == Statsd).map(|n| udp_drops(ip, n.port)).sum();
    let t1 = Instant::now();
    d.kill(sig);
    let ended = d.wait(Duration::from_secs(90));
    let threads = if ended { String::new() } else { d.threads() };
    if !ended {
        if let Ok(f) = std::env::var("CV_HANG") {
            let _ = std::process::Command::new("gdb").args(&["-p", &d.child.id().to_string(), "-batch", "-ex", "thread apply all bt 25"]).stdout(File::create(f).unwrap()).status();
        }
    }
    stop.store(true, Ordering::SeqCst);
    rep.add("max_stop_ms", 0);
    let ms = t1.elapsed().as_millis() as u64;
    let e = rep.ctr.entry("max_stop_ms".to_string()).or_insert(0);
    *e = (*e).max(ms);
    for h in hs.drain(..) {
        sent.append(&mut h.join().unwrap_or_default());
    }
    drop(idle);
    if !ended {
        rep.viol("shutdown", format!("cernan has not ended 90 s after signal {} (cpu {}) {}\n{}\n{}", sig, cpu, panics(&d).unwrap_or_default(), threads, clip(&t.conf, 2500)));
        return;
    }
    let st = d.status.unwrap();
    if st.code() != Some(0) {
        rep.viol("shutdown", format!("cernan ended with {:?} (signal {:?}): {}", st.code(), st.signal(), died(&mut d)));
        return;
    }
    if let Some(p) = panics(&d) {
        rep.viol("panic", p);
        return;
    }
    peers.settle();
    // What Prometheus held ended with cernan.
    let sinks: Vec<usize> = (0..t.nodes.len()).filter(|i| t.is_sink(*i) && t.nodes[*i].kind != Prometheus).collect();
    let mut got: BTreeMap<usize, Counts> = BTreeMap::new();
    for n in &sinks {
        match peers.got(t, *n, Some(&d)) {
            Ok((g, _)) => {
                got.insert(*n, g);
            }
            Err(e) => {
                rep.viol("peer", e);
                return;
            }
        }
    }
    // Sources of one file are not told apart.
    let shared_file = |i: usize| t.nodes.iter().filter(|n| n.kind == Files && n.file == t.nodes[i].file).count() > 1;
    let mut ends: BTreeMap<(usize, usize, What), usize> = BTreeMap::new();
    let mut known: BTreeSet<&str> = BTreeSet::new();
    let mut inside = 0;
    for (k, s) in sent.iter().enumerate() {
        known.insert(&s.token);
        if t.nodes[s.src].kind == Files && shared_file(s.src) {
            continue;
        }
        let w = wanted(t, s);
        let mut taken = None;
        for n in &sinks {
            let nd = &t.nodes[*n];
            let g = got[n].get(&s.token).cloned().unwrap_or(0.0);
            let mut e = (0.0, 0.0);
            for ((m, what), c) in &w {
                if m == n && shows(nd.kind, *what) {
                    let x = expected(nd.kind, *what, *c);
                    e = (e.0 + x.0, e.1 + x.1);
                }
            }
            if e.1 == 0.0 {
                if g != 0.0 {
                    rep.viol("stray", format!("{} has {} of {}, which is not routed there\n{}", nd.path, g, s.token, clip(&t.conf, 2500)));
                    return;
                }
                continue;
            }
            if g != 0.0 && (g < e.0 || g > e.1) {
                rep.viol("part", format!("{} has {} of {}, expected {:?} or none\n{}", nd.path, g, s.token, e, clip(&t.conf, 2500)));
                return;
            }
            match taken {
                None => taken = Some((g != 0.0, *n)),
                Some((x, m)) if x != (g != 0.0) => {
                    rep.viol(
                        "uneven",
                        format!("event {} of {} sent on {} reached {} and not {}\n{}", k, s.token, t.nodes[s.src].path, t.nodes[if x { m } else { *n }].path, t.nodes[if x { *n } else { m }].path, clip(&t.conf, 2500)),
                    );
                    return;
                }
                _ => {}
            }
        }
        if let Some((x, m)) = taken {
            rep.add("fates_compared", 1);
            inside += x as u64;
            if !x && settled && (t.nodes[s.src].kind != Statsd || drops == 0) {
                rep.viol("lost", format!("{} of {} was accepted before the stop and never reached {}\n{}", s.token, t.nodes[s.src].path, t.nodes[m].path, clip(&t.conf, 2500)));
                return;
            }
            // What a connection's client sent arrives up to some point.
            if t.nodes[s.src].kind != Statsd {
                let e = ends.entry((s.src, s.conn, What::Sum)).or_insert(usize::max_value());
                if !x {
                    *e = (*e).min(k);
                } else if *e != usize::max_value() {
                    rep.viol("gap", format!("{} of {} arrived and {} sent before it did not\n{}", s.token, t.nodes[s.src].path, sent[*e].token, clip(&t.conf, 2500)));
                    return;
                }
            }
        }
    }
    for (n, g) in &got {
        for k in g.keys() {
            if !known.contains(k.as_str()) {
                rep.viol("stray", format!("{} has {}, which nobody sent", t.nodes[*n].path, k));
                return;
            }
        }
    }
    rep.add("events", sent.len() as u64);
    rep.add("events_delivered", inside);
}

// --- I05: hostile clients ------------------------------------------------------------------

fn linger0(s: &TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
    }
}

/// Bytes of a message that a well-behaved client could send.
fn proper(r: &mut Rng, k: K) -> Vec<u8> {
    let n = SERIAL.fetch_add(1, Ordering::SeqCst);
    match k {
        Graphite | Statsd => (0..r.range(1, 40)).map(|i| if k == Graphite { format!("hq.{}.{} 1 {}\n", n, i, now_s()) } else { format!("hq.{}.{}:1|c\n", n, i) }).collect::<String>().into_bytes(),
        Avro => avro_message(&format!("hq{}", n), n, r.below(2) as u32),
        _ => native_token(&(0..r.range(1, 40)).map(|i| (format!("hq{}.{}", n, i), if r.chance(50) { What::Line } else { What::Sum })).collect::<Vec<_>>()),
    }
}

/// Bytes meant to do harm.
fn hostile(r: &mut Rng, k: K) -> Vec<u8> {
    let random = |r: &mut Rng, n: usize| (0..n).map(|_| r.next() as u8).collect::<Vec<u8>>();
    let long = |r: &mut Rng| *r.pick(&[0usize, 1, 3, 4, 5, 100, 8191, 8192, 8193, 65_536, 300_000]);
    match r.below(8) {
        0 => {
            let n = long(r);
            random(r, n)
        }
        1 => {
            // cut anywhere
            let mut m = proper(r, k);
            let n = r.below(m.len() as u64) as usize;
            m.truncate(n);
            m
        }
        2 => {
            // a length that is out of all proportion
            let l = *r.pick(&[u32::max_value(), 0x8000_0000, 0x7fff_ffff, 0x1000_0000, 1_048_577, 1_048_576, 4_194_304, 10_485_760, 10_485_761, 104_857_600, 0]);
            let mut m = l.to_be_bytes().to_vec();
            let n = long(r);
            m.extend(random(r, n));
            m
        }
        3 => {
            // a frame of rubbish
            let n = long(r);
            framed(&random(r, n))
        }
        4 => {
            // a message with some bits turned
            let mut m = proper(r, k);
            for _ in 0..r.range(1, 6) {
                let i = r.below(m.len() as u64) as usize;
                m[i] ^= 1 << r.below(8);
            }
            m
        }
        5 => {
            // a line without an end, or nearly so
            let n = long(r);
            let b = *r.pick(&[b'a', b' ', b'\n', b':', b'|', 0xff, 0, b'.', b'-']);
            vec![b; n]
        }
        6 => {
            let mut m = vec![];
            for _ in 0..r.range(1, 6) {
                m.extend(proper(r, k));
            }
            let n = r.below(20) as usize;
            m.extend(random(r, n));
            m
        }
        _ => {
            let t = *r.pick(&["NaN", "inf", "-1e999", "1e400", "", "|", "99999999999999999999999999", "\u{1F4A9}", "-", "0x1p-3", "1|c|@0", "1|c|@-1", "1|g|@nan", "1|ms|@1e-320"]);
            (0..r.range(1, 30)).map(|i| if k == Graphite { format!("hq.{} {} {}\n", i, t, t) } else { format!("hq.{}:{}|c\n", i, t) }).collect::<String>().into_bytes()
        }
    }
}

fn dial(ip: &str, port: u16, ms: u64) -> std::io::Result<TcpStream> {
    TcpStream::connect_timeout(&format!("{}:{}", ip, port).parse().expect("HARNESS address"), Duration::from_millis(ms))
}

/// A client up to no good until told to stop; answers how many connections it
/// made.
fn villain(r: &mut Rng, k: K, ip: &str, port: u16, most: usize, stop: &AtomicBool) -> u64 {
    let mut made = 0;
    let mut held: Vec<TcpStream> = vec![];
    while !stop.load(Ordering::SeqCst) {
        if k == Statsd {
            let s = UdpSocket::bind((ip, 0)).expect("HARNESS udp");
            let mut m = hostile(r, k);
            m.truncate(60_000);
            let _ = s.send_to(&m, (ip, port));
            thread::sleep(Duration::from_millis(r.range(3, 12) as u64));
            continue;
        }
        match r.below(10) {
            0 => {
                // many at once
                for _ in 0..r.range(1, most as i64) {
                    if let Ok(s) = dial(ip, port, 300) {
                        made += 1;
                        held.push(s);
                    }
                }
            }
            1 => {
                for s in held.drain(..) {
                    if r.chance(50) {
                        linger0(&s);
                    }
                }
            }
            _ => {
                let mut s = match dial(ip, port, 300) {
                    Ok(s) => s,
                    Err(_) => continue,
                };
                made += 1;
                let _ = s.set_write_timeout(Some(Duration::from_millis(500)));
                for _ in 0..r.range(1, 3) {
                    let m = hostile(r, k);
                    let step = if r.chance(20) { r.range(1, 7) as usize } else { m.len().max(1) };
                    for c in m.chunks(step).take(200) {
                        if s.write_all(c).is_err() {
                            break;
                        }
                        if step != m.len().max(1) && r.chance(30) {
                            thread::sleep(Duration::from_micros(300));
                        }
                    }
                }
                match r.below(5) {
                    0 => linger0(&s),
                    1 => {
                        let _ = s.shutdown(std::net::Shutdown::Write);
                        held.push(s);
                    }
                    2 => held.push(s),
                    3 => {
                        let _ = s.shutdown(std::net::Shutdown::Both);
                    }
                    _ => {}
                }
                if held.len() > most {
                    held.drain(..most / 2 + 1);
                }
            }
        }
        thread::sleep(Duration::from_micros(r.below(3000)));
    }
    made
}

/// Sends without end what makes no events; until the peer is gone or `stop`.
fn firehose(k: K, ip: &str, port: u16, odd: bool, stop: &AtomicBool) -> u64 {
    let mut s = match dial(ip, port, 300) {
        Ok(s) => s,
        Err(_) => return 0,
    };
    let _ = s.set_write_timeout(Some(Duration::from_millis(200)));
    let one = match k {
        // With no end to the line, the daemon soon closes it.
        Graphite => if odd { b"endless".to_vec() } else { b"no.good x y\n".to_vec() },
        Native => framed(&[]),
        _ => avro_message("hq", 1, odd as u32),
    };
    let mut m = vec![];
    while m.len() < 60_000 {
        m.extend_from_slice(&one);
    }
    let mut at = 0;
    let mut n = 0;
    while !stop.load(Ordering::SeqCst) {
        match s.write(&m[at..]) {
            Ok(w) => {
                n += w as u64;
                at = (at + w) % m.len();
            }
            Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
            Err(_) => break,
        }
    }
    n
}

pub fn i05(a: &Args, rep: &mut Rep) {
    run_cases(a, rep, |r, rep| {
        let dir = format!("{}/c{}", a.work, rep.case);
        let peers = Peers::new(r, 1);
        hostile_case(r, rep, &dir, &peers);
        peers.stop();
        let _ = std::fs::remove_dir_all(&dir);
    });
}

fn hostile_case(r: &mut Rng, rep: &mut Rep, dir: &str, peers: &Peers) {
    let t0 = Instant::now();
    let lap = |w: &str| if std::env::var("CV_LAPS").is_ok() { eprintln!("{:>6} ms {}", t0.elapsed().as_millis(), w) };
    let ip = peers.ip.clone();
    let mut kinds = vec![Statsd, Graphite, Native, Avro];
    r.shuffle(&mut kinds);
    kinds.truncate(r.range(1, 4) as usize);
    let p = ports(&ip, kinds.len());
    let mut nodes: Vec<Node> = vec![];
    let mut conf = format!("data-directory = \"{}/data\"\nscripts-directory = \"{}\"\nflush-interval = 1\n\n", dir, dir);
    let n = kinds.len();
    for (i, k) in kinds.iter().enumerate() {
        let path = format!("{}.s", family(*k));
        conf.push_str(&format!("[{}]\n{} = \"{}\"\nport = {}\nforwards = [\"sinks.native\", \"sinks.kafka.k\"]\n\n", path, if *k == Native { "ip" } else { "host" }, ip, p[i]));
        nodes.push(Node { path, kind: *k, port: p[i], fwds: vec![n, n + 1], file: String::new() });
    }
    conf.push_str(&format!("[sinks.native]\nhost = \"{}\"\nport = {}\nflush_interval = 0.25\n\n", ip, peers.native.port));
    conf.push_str(&format!("[sinks.kafka.k]\nbrokers = \"127.0.0.1:{}\"\ntopic = \"events\"\nflush_interval = 0.25\nlibrdkafka = {{ \"client.id\" = \"cv\", \"queue.buffering.max.ms\" = 1, \"socket.blocking.max.ms\" = 5 }}\n", peers.brokers[0].port));
    nodes.push(Node { path: "sinks.native".to_string(), kind: SNative, port: peers.native.port, fwds: vec![], file: String::new() });
    nodes.push(Node { path: "sinks.kafka.k".to_string(), kind: Kafka, port: peers.brokers[0].port, fwds: vec![], file: String::new() });
    let t = Topo { nodes, conf, scripts: vec![] };
    setup(&t, dir);
    // Now and then descriptors run out.
    let scarce = r.chance(40);
    let files = if scarce { r.range(90, 160) as u64 } else { 0 };
    let mut d = Daemon::start(dir, &t.conf, files);
    if !started(&mut d, &t, &ip) {
        rep.viol("start", format!("cernan does not start: {}", died(&mut d)));
        return;
    }
    let tp: &'static Topo = unsafe { &*(&t as *const Topo) };
    let never: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
    let listening: Vec<u16> = t.nodes[..n].iter().map(|n| n.port).collect();
    let mut sent: Vec<Sent> = vec![];
    for i in 0..n {
        sent.append(&mut client(r, &t, &ip, i, 0, 3, false, never));
    }
    lap("warm sent");
    let arrived = |sent: &[Sent], last: &mut String, over: bool| {
        last.clear();
        for i in &[n, n + 1] {
            let g = match peers.got(tp, *i, None) {
                Ok((g, _)) => g,
                Err(e) => {
                    *last = e;
                    return false;
                }
            };
            for s in sent {
                if shows(tp.nodes[*i].kind, s.what) {
                    let c = g.get(&s.token).cloned().unwrap_or(0.0);
                    if c < 1.0 || over && c > 1.0 {
                        *last = format!("{} of {} has come {} times to {}", s.token, tp.nodes[s.src].path, c, tp.nodes[*i].path);
                        return false;
                    }
                }
            }
        }
        true
    };
    let mut last = String::new();
    if !wait_until(Duration::from_secs(30), || {
        thread::sleep(Duration::from_millis(30));
        arrived(&sent, &mut last, false)
    }) {
        rep.viol("lost", format!("before any hostile client: {}\n{}", last, clip(&d.err(), 800)));
        return;
    }
    lap("warm arrived");
    d.settle(&listening, &[]);
    let (tasks, fds, size) = (d.tasks(), d.fds(), d.peak());
    lap("settled");
    // The villains and, meanwhile, clients that behave.
    let stop = Arc::new(AtomicBool::new(false));
    let most = if scarce { 200 } else { *r.pick(&[5usize, 30, 120]) };
    let mut bad = vec![];
    for i in 0..n {
        for _ in 0..r.range(1, 3) {
            let (k, port, ips, st) = (t.nodes[i].kind, t.nodes[i].port, ip.clone(), stop.clone());
            let mut rr = Rng::new(r.next(), 1);
            bad.push(thread::spawn(move || villain(&mut rr, k, &ips, port, most, &st)));
        }
    }
    for i in 0..n {
        if t.nodes[i].kind == Graphite && r.chance(50) {
            let (port, ips, st) = (t.nodes[i].port, ip.clone(), stop.clone());
            bad.push(thread::spawn(move || {
                let mut n = 0;
                while !st.load(Ordering::SeqCst) {
                    firehose(Graphite, &ips, port, true, &st);
                    n += 1;
                    thread::sleep(Duration::from_millis(20));
                }
                n
            }));
        }
    }
    let mut good = vec![];
    for i in 0..n {
        for c in 1..=r.range(1, 4) as usize {
            let count = r.range(1, 150) as u64;
            let ips = ip.clone();
            let mut rr = Rng::new(r.next(), 2);
            let wait = r.below(600);
            good.push(thread::spawn(move || {
                thread::sleep(Duration::from_millis(wait));
                client(&mut rr, tp, &ips, i, c, count, true, never)
            }));
        }
    }
    lap("going");
    let mut high = (0, 0);
    let until = Instant::now() + Duration::from_millis(r.range(100, 1500) as u64);
    while Instant::now() < until {
        high = (high.0.max(d.tasks()), high.1.max(d.fds()));
        thread::sleep(Duration::from_millis(5));
    }
    lap("stop villains");
    stop.store(true, Ordering::SeqCst);
    let mut conns = 0;
    for h in bad {
        conns += h.join().unwrap_or(0);
    }
    lap("villains gone");
    for h in good {
        sent.append(&mut h.join().unwrap_or_default());
    }
    lap("good done");
    rep.add("hostile_connections", conns);
    rep.add("messages_tracked", sent.len() as u64);
    if scarce && high.1 as u64 + 4 >= files {
        rep.add("descriptors_exhausted", 1);
    }
    let e = rep.ctr.entry("max_tasks".to_string()).or_insert(0);
    *e = (*e).max(high.0 as u64);
    if !d.alive() {
        rep.viol("died", format!("cernan ended: {}", died(&mut d)));
        return;
    }
    let drops: u64 = t.nodes.iter().filter(|n| n.kind == Statsd).map(|n| udp_drops(&ip, n.port)).sum();
    if drops > 0 {
        rep.add("cases_with_kernel_drops", 1);
        sent.retain(|s| t.nodes[s.src].kind != Statsd);
    }
    let context = |d: &Daemon| format!("sources {:?}, descriptor limit {}, high {:?}\n{}", kinds, files, high, clip(&d.err(), 1500));
    if !wait_until(Duration::from_secs(40), || {
        thread::sleep(Duration::from_millis(50));
        arrived(&sent, &mut last, false)
    }) {
        rep.viol("lost", format!("{}\n{}", last, context(&d)));
        return;
    }
    lap("arrived");
    // What the connections took is given back.
    let back = wait_until(Duration::from_secs(30), || {
        thread::sleep(Duration::from_millis(20));
        d.tasks() <= tasks && d.fds() <= fds
    });
    rep.add("releases_checked", 1);
    if !back {
        rep.viol("leak", format!("before: {} threads and {} descriptors; after: {} and {}\n{}\n{}", tasks, fds, d.tasks(), d.fds(), context(&d), d.threads()));
        return;
    }
    lap("released");
    let grown = d.peak().saturating_sub(size);
    let e = rep.ctr.entry("max_growth_mib".to_string()).or_insert(0);
    *e = (*e).max(grown);
    if grown > 400 {
        rep.viol("memory", format!("grew by {} MiB\n{}", grown, context(&d)));
        return;
    }
    // It listens as before.
    for i in 0..n {
        sent.append(&mut client(r, &t, &ip, i, 9, 3, false, never));
    }
    if !wait_until(Duration::from_secs(30), || {
        thread::sleep(Duration::from_millis(30));
        arrived(&sent, &mut last, false)
    }) {
        rep.viol("lost", format!("after the hostile clients: {}\n{}", last, context(&d)));
        return;
    }
    lap("second");
    // Some are still at it when it is to stop.
    let stop = Arc::new(AtomicBool::new(false));
    let mut hs = vec![];
    if r.chance(50) {
        for i in 0..n {
            if t.nodes[i].kind != Statsd && r.chance(60) {
                let (k, port, ips, st) = (t.nodes[i].kind, t.nodes[i].port, ip.clone(), stop.clone());
                let odd = r.chance(40);
                hs.push(thread::spawn(move || firehose(k, &ips, port, odd, &st)));
            }
        }
        thread::sleep(Duration::from_millis(r.range(20, 200) as u64));
        rep.add("stopped_under_flood", 1);
    }
    lap("kill");
    d.kill(libc::SIGTERM);
    let ended = d.wait(Duration::from_secs(60));
    let threads = if ended { String::new() } else { d.threads() };
    stop.store(true, Ordering::SeqCst);
    for h in hs {
        rep.add("flood_bytes", h.join().unwrap_or(0));
    }
    if !ended {
        rep.viol("shutdown", format!("cernan has not ended 60 s after SIGTERM\n{}\n{}", context(&d), threads));
        return;
    }
    if d.status.unwrap().code() != Some(0) {
        rep.viol("shutdown", format!("cernan ended with {}", died(&mut d)));
        return;
    }
    lap("ended");
    peers.settle();
    if !arrived(&sent, &mut last, true) {
        rep.viol("count", format!("{}\n{}", last, context(&d)));
    }
    rep.seen(&(kinds.clone(), scarce, conns, sent.len()));
    rep.sample(format!("{:?} {} hostile connections, {} messages tracked, high {:?}, limit {}", kinds, conns, sent.len(), high, files));
}
