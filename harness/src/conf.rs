//! C01: generated configuration files against a model of the option table.
use crate::common::bytes;
use crate::h::*;
use cernan::config::{parse_config, Args as Conf};
use cernan::metric::TagMap;
use std::collections::{BTreeMap, BTreeSet};

type View = BTreeMap<String, String>;

fn tags(t: &TagMap) -> String {
    format!("{:?}", t.iter().collect::<BTreeMap<_, _>>())
}

/// Everything the parsed configuration says, by component and option.
fn view(c: &Conf) -> View {
    let mut v = View::new();
    macro_rules! put {
        ($p:expr, $($k:ident = $e:expr),*) => {
            $( assert!(v.insert(format!("{}/{}", $p, stringify!($k)), format!("{:?}", $e)).is_none(), "HARNESS twice {}", $p); )*
        };
    }
    put!("", memory = c.max_hopper_in_memory_bytes, files = c.max_hopper_queue_files, bytes = c.max_hopper_queue_bytes);
    put!("", data = c.data_directory, scripts = c.scripts_directory, flush = c.flush_interval);
    let no = |p: &Option<String>| p.clone().unwrap_or_default();
    if let Some(ref m) = c.programmable_filters {
        for (k, f) in m {
            put!(k, path = no(&f.config_path), scripts = f.scripts_directory, script = f.script, forwards = f.forwards);
            v.insert(format!("{}/tags", k), tags(&f.tags));
        }
    }
    if let Some(ref m) = c.delay_filters {
        for (k, f) in m {
            put!(k, path = no(&f.config_path), tolerance = f.tolerance, forwards = f.forwards);
        }
    }
    if let Some(ref m) = c.json_encode_filters {
        for (k, f) in m {
            put!(k, path = no(&f.config_path), parse_line = f.parse_line, forwards = f.forwards);
            v.insert(format!("{}/tags", k), tags(&f.tags));
        }
    }
    if let Some(ref m) = c.flush_boundary_filters {
        for (k, f) in m {
            put!(k, path = no(&f.config_path), tolerance = f.tolerance, forwards = f.forwards);
        }
    }
    if let Some(ref s) = c.console {
        put!("sinks.console", path = no(&s.config_path), bin_width = s.bin_width, flush = s.flush_interval);
        v.insert("sinks.console/tags".to_string(), tags(&s.tags));
    }
    if let Some(ref s) = c.null {
        put!("sinks.null", path = s.config_path);
    }
    if let Some(ref s) = c.wavefront {
        let mut pc: Vec<_> = s.percentiles.clone();
        pc.sort_by(|a, b| a.0.cmp(&b.0));
        put!("sinks.wavefront", path = no(&s.config_path), bin_width = s.bin_width, flush = s.flush_interval, host = s.host, port = s.port, age = s.age_threshold, percentiles = pc,
            pad = (s.pad_control.set, s.pad_control.sum, s.pad_control.summarize, s.pad_control.histogram));
        v.insert("sinks.wavefront/tags".to_string(), tags(&s.tags));
    }
    if let Some(ref s) = c.influxdb {
        put!("sinks.influxdb", path = no(&s.config_path), flush = s.flush_interval, host = s.host, port = s.port, secure = s.secure, db = s.db);
        v.insert("sinks.influxdb/tags".to_string(), tags(&s.tags));
    }
    if let Some(ref s) = c.native_sink_config {
        put!("sinks.native", path = no(&s.config_path), flush = s.flush_interval, host = s.host, port = s.port);
        v.insert("sinks.native/tags".to_string(), tags(&s.tags));
    }
    if let Some(ref s) = c.prometheus {
        put!("sinks.prometheus", path = no(&s.config_path), host = s.host, port = s.port, age = s.age_threshold, capacity = s.capacity_in_seconds);
        v.insert("sinks.prometheus/tags".to_string(), tags(&s.tags));
    }
    if let Some(ref s) = c.elasticsearch {
        put!("sinks.elasticsearch", path = no(&s.config_path), flush = s.flush_interval, host = s.host, port = s.port, secure = s.secure, limit = s.delivery_attempt_limit, prefix = s.index_prefix, index = s.index_type);
        v.insert("sinks.elasticsearch/tags".to_string(), tags(&s.tags));
    }
    if let Some(ref m) = c.kafkas {
        for k in m {
            let rd: Option<BTreeMap<String, String>> = k.rdkafka_config.clone().map(|m| m.into_iter().collect());
            put!(no(&k.config_path), topic = k.topic_name, brokers = k.brokers, rd = rd, max = k.max_message_bytes, flush = k.flush_interval);
        }
    }
    if let Some(ref m) = c.files {
        let mut l: Vec<_> = m.iter().map(|f| format!("{:?} {:?} {:?}", f.path, f.max_read_bytes, f.forwards)).collect();
        l.sort();
        put!("sources.files", all = l);
    }
    put!("sources.internal", path = no(&c.internal.config_path), forwards = c.internal.forwards);
    if let Some(ref m) = c.graphites {
        for (k, s) in m {
            put!(k, host = s.host, port = s.port, forwards = s.forwards);
        }
    }
    if let Some(ref m) = c.avros {
        for (k, s) in m {
            put!(k, host = s.host, port = s.port, forwards = s.forwards);
        }
    }
    if let Some(ref m) = c.native_server_config {
        for (k, s) in m {
            put!(k, path = no(&s.config_path), host = s.ip, port = s.port, forwards = s.forwards);
        }
    }
    if let Some(ref m) = c.statsds {
        for (k, s) in m {
            let mut masks: Vec<_> = s.parse_config.histogram_masks.iter().map(|(m, b)| format!("{:?} {:?}", m.as_str(), b)).collect();
            masks.sort();
            put!(k, host = s.host, port = s.port, forwards = s.forwards, masks = masks, error = s.parse_config.summarize_error_bound);
        }
    }
    v
}

/// One table of the file: its header, its options as written.
type Section = (Vec<String>, Vec<(String, String)>);

struct Gen<'a> {
    r: &'a mut Rng,
    want: View,
    out: Vec<Section>,
    flush: u64,
    tags: String,
    words: usize,
}

fn q(s: &str) -> String {
    let mut o = "\"".to_string();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c => o.push(c),
        }
    }
    o + "\""
}

fn key(s: &str) -> String {
    if !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || b == b'-') {
        s.to_string()
    } else {
        q(s)
    }
}

fn fl(f: f64) -> String {
    let s = format!("{}", f);
    if s.contains('.') { s } else { s + ".0" }
}

impl<'a> Gen<'a> {
    fn name(&mut self) -> String {
        self.words += 1;
        let w = *self.r.pick(&["primary", "b-c", "x_", "9", "dotted.name", "sp ace", "ü", "on", "enabled", "port"]);
        format!("{}{}", w, self.words)
    }
    fn host(&mut self) -> String {
        self.r.pick(&["127.0.0.1", "0.0.0.0", "localhost", "metrics.example.com", "::1", ""]).to_string()
    }
    fn port(&mut self) -> u16 {
        *self.r.pick(&[1u16, 80, 2003, 8125, 32768, 65535, 40000])
    }
    fn put<T: std::fmt::Debug>(&mut self, k: &str, v: T) {
        self.want.insert(k.to_string(), format!("{:?}", v));
    }
    /// An option that is there or not.
    fn opt<T: std::fmt::Debug>(&mut self, s: &mut Vec<(String, String)>, k: &str, vk: &str, v: T, text: String, dflt: T) {
        if self.r.chance(55) {
            s.push((k.to_string(), text));
            self.put(vk, v);
        } else {
            self.put(vk, dflt);
        }
    }
    fn ostr(&mut self, s: &mut Vec<(String, String)>, k: &str, vk: &str, v: &str, dflt: &str) {
        let t = q(v);
        self.opt(s, k, vk, v.to_string(), t, dflt.to_string());
    }
    fn oflush(&mut self, s: &mut Vec<(String, String)>, k: &str, vk: &str, dflt: u64) -> u64 {
        if self.r.chance(50) {
            self.put(vk, dflt);
            return dflt;
        }
        let (t, n) = if self.r.chance(50) {
            let n = *self.r.pick(&[0u64, 1, 5, 60, 3600, 100_000]);
            (n.to_string(), n * 100)
        } else if self.r.chance(50) {
            // A whole number of pulses, which need not be a binary fraction.
            let n = self.r.below(10_000) as u64;
            (format!("{}.{:02}", n / 100, n % 100), n)
        } else {
            let n = self.r.below(4000) as u64;
            (fl(n as f64 / 4.0), n * 25)
        };
        s.push((k.to_string(), t));
        self.put(vk, n);
        n
    }
    fn forwards(&mut self, s: &mut Vec<(String, String)>, p: &str, needed: bool) {
        let n = self.r.below(4) + if needed { 1 } else { 0 };
        let f: Vec<String> = (0..n).map(|_| format!("{}.{}", self.r.pick(&["sinks", "filters.delay"]), self.r.pick(&["console", "a b", "null", "x"]))).collect();
        if needed || n > 0 || self.r.chance(50) {
            s.push(("forwards".to_string(), format!("[{}]", f.iter().map(|f| q(f)).collect::<Vec<_>>().join(", "))));
        }
        self.put(&format!("{}/forwards", p), f);
    }
    /// Adds a table below `path`, inline or of its own.
    fn sub(&mut self, s: &mut Vec<(String, String)>, path: &[String], k: &str, t: Vec<(String, String)>) {
        if self.r.chance(50) {
            s.push((k.to_string(), inline(&t)));
        } else {
            let mut p = path.to_vec();
            p.push(k.to_string());
            self.out.push((p, t));
        }
    }
    fn done(&mut self, path: Vec<String>, mut s: Vec<(String, String)>) {
        if self.r.chance(15) {
            s.push((format!("zz{}", self.r.below(9)), self.r.pick(&["3", "\"port\"", "[1, 2]", "true", "{ port = 3 }"]).to_string()));
        }
        self.r.shuffle(&mut s);
        self.out.push((path, s));
    }
    fn sink(&mut self, kind: &str) {
        let path = vec!["sinks".to_string(), kind.to_string()];
        let p = path.join(".");
        let k = |o: &str| format!("{}/{}", p, o);
        let mut s = vec![];
        let t = self.tags.clone();
        if kind != "null" {
            self.want.insert(k("tags"), t);
        }
        self.put(&k("path"), p.clone());
        let bw = *self.r.pick(&[1i64, 2, 10, 3600]);
        let (h, port) = (self.host(), self.port());
        let n = *self.r.pick(&[0u64, 1, 30, 100_000]);
        let flag = self.r.chance(50);
        let flush = self.flush;
        match kind {
            "console" => {
                self.opt(&mut s, "bin_width", &k("bin_width"), bw, bw.to_string(), 1);
                self.oflush(&mut s, "flush_interval", &k("flush"), flush);
            }
            "wavefront" => {
                self.opt(&mut s, "bin_width", &k("bin_width"), bw, bw.to_string(), 1);
                self.oflush(&mut s, "flush_interval", &k("flush"), flush);
                self.ostr(&mut s, "host", &k("host"), &h, "localhost");
                self.opt(&mut s, "port", &k("port"), port, port.to_string(), 2878);
                self.opt(&mut s, "age_threshold", &k("age"), Some(n), n.to_string(), None);
                let dflt: [(&str, f64); 13] = [("2", 0.02), ("25", 0.25), ("50", 0.5), ("75", 0.75), ("9", 0.09), ("90", 0.90), ("91", 0.91), ("95", 0.95), ("98", 0.98), ("99", 0.99), ("999", 0.999), ("max", 1.0), ("min", 0.0)];
                let mut pc: Vec<(String, f64)> = dflt.iter().map(|p| (p.0.to_string(), p.1)).collect();
                if self.r.chance(40) {
                    pc = (0..self.r.below(5)).map(|i| (format!("p{}", i), self.r.below(1000) as f64 / 1000.0)).collect();
                    let t = pc.iter().map(|p| (p.0.clone(), fl(p.1))).collect();
                    self.sub(&mut s, &path, "percentiles", t);
                }
                self.put(&k("percentiles"), pc);
                let mut pad = (false, false, false, false);
                if self.r.chance(50) {
                    pad = (false, false, false, false);
                    let mut t = vec![];
                    for i in 0..4 {
                        let (name, to) = match i {
                            0 => ("set", &mut pad.0),
                            1 => ("sum", &mut pad.1),
                            2 => ("summarize", &mut pad.2),
                            _ => ("histogram", &mut pad.3),
                        };
                        if self.r.chance(60) {
                            *to = self.r.chance(50);
                            t.push((name.to_string(), to.to_string()));
                        }
                    }
                    self.sub(&mut s, &path, "padding", t);
                }
                self.put(&k("pad"), pad);
            }
            "influxdb" => {
                self.oflush(&mut s, "flush_interval", &k("flush"), flush);
                self.ostr(&mut s, "host", &k("host"), &h, "localhost");
                self.opt(&mut s, "port", &k("port"), port, port.to_string(), 8086);
                self.opt(&mut s, "secure", &k("secure"), flag, flag.to_string(), true);
                let db = self.name();
                self.ostr(&mut s, "db", &k("db"), &db, "cernan");
            }
            "native" => {
                self.oflush(&mut s, "flush_interval", &k("flush"), flush);
                self.ostr(&mut s, "host", &k("host"), &h, "localhost");
                self.opt(&mut s, "port", &k("port"), port, port.to_string(), 1972);
            }
            "prometheus" => {
                self.ostr(&mut s, "host", &k("host"), &h, "localhost");
                self.opt(&mut s, "port", &k("port"), port, port.to_string(), 8086);
                self.opt(&mut s, "age_threshold", &k("age"), Some(n), n.to_string(), None);
                self.opt(&mut s, "capacity_in_seconds", &k("capacity"), n + 1, (n + 1).to_string(), 600);
            }
            "elasticsearch" => {
                self.oflush(&mut s, "flush_interval", &k("flush"), flush);
                self.ostr(&mut s, "host", &k("host"), &h, "127.0.0.1");
                self.opt(&mut s, "port", &k("port"), port, port.to_string(), 9200);
                self.opt(&mut s, "secure", &k("secure"), flag, flag.to_string(), false);
                let l = self.r.below(256);
                self.opt(&mut s, "delivery_attempt_limit", &k("limit"), l, l.to_string(), 10);
                let w = self.name();
                self.opt(&mut s, "index-prefix", &k("prefix"), Some(w.clone()), q(&w), None);
                self.ostr(&mut s, "index_type", &k("index"), &w, "payload");
            }
            _ => {}
        }
        self.done(path, s);
    }
    fn kafka(&mut self) {
        let name = self.name();
        let path = vec!["sinks".to_string(), "kafka".to_string(), name];
        let p = path.join(".");
        let k = |o: &str| format!("{}/{}", p, o);
        let kept = self.want.clone();
        let mut s = vec![];
        let (t, b) = (self.name(), format!("h{}:9092,other", self.r.below(9)));
        s.push(("topic".to_string(), q(&t)));
        s.push(("brokers".to_string(), q(&b)));
        self.put(&k("topic"), Some(t));
        self.put(&k("brokers"), Some(b));
        let flush = self.flush;
        self.oflush(&mut s, "flush_interval", &k("flush"), flush);
        let n = self.r.below(1 << 30);
        self.opt(&mut s, "max_message_bytes", &k("max"), n, n.to_string(), 10 << 20);
        let mut rd: Option<BTreeMap<String, String>> = None;
        if self.r.chance(60) {
            let mut m = BTreeMap::new();
            let mut t = vec![];
            for i in 0..self.r.below(5) {
                let k = format!("{}{}", self.r.pick(&["batch.num.messages", "x", "compression-codec"]), i);
                let (text, v) = match self.r.below(4) {
                    0 => {
                        let n = self.r.range(-5, 1_000_000);
                        (n.to_string(), n.to_string())
                    }
                    1 => ("true".to_string(), "true".to_string()),
                    2 => {
                        let f = self.r.below(1000) as f64 + 0.5;
                        (fl(f), fl(f))
                    }
                    _ => {
                        let w = self.name();
                        (q(&w), w)
                    }
                };
                t.push((k.clone(), text));
                m.insert(k, v);
            }
            self.sub(&mut s, &path, "librdkafka", t);
            rd = Some(m);
        }
        self.put(&k("rd"), rd);
        self.enabled(&mut s, kept);
        self.done(path, s);
    }
    /// Switched off, a component leaves no trace.
    fn enabled(&mut self, s: &mut Vec<(String, String)>, without: View) {
        match self.r.below(5) {
            0 => {
                s.push(("enabled".to_string(), "false".to_string()));
                self.want = without;
            }
            1 => s.push(("enabled".to_string(), "true".to_string())),
            _ => {}
        }
    }
    fn listener(&mut self, kind: &str) {
        let name = self.name();
        let path = vec!["sources".to_string(), kind.to_string(), name];
        let p = path.join(".");
        let k = |o: &str| format!("{}/{}", p, o);
        let kept = self.want.clone();
        let mut s = vec![];
        let (h, port) = (self.host(), self.port());
        let (hk, hd, pd) = match kind {
            "statsd" => ("host", "localhost", 8125),
            "graphite" => ("host", "localhost", 2003),
            "avro" => ("host", "localhost", 2002),
            _ => ("ip", "0.0.0.0", 1972),
        };
        self.ostr(&mut s, hk, &k("host"), &h, hd);
        self.opt(&mut s, "port", &k("port"), port, port.to_string(), pd);
        self.forwards(&mut s, &p, kind != "native");
        if kind == "native" {
            self.put(&k("path"), p.clone());
        }
        if kind == "statsd" {
            let e = self.r.below(1000) as f64 / 4096.0;
            self.opt(&mut s, "summarize_error_bound", &k("error"), e, fl(e), 0.01);
            let mut masks = vec![];
            if self.r.chance(50) {
                let mut all = vec![];
                for _ in 0..self.r.below(4) {
                    let m = format!("{}{}", self.r.pick(&["^foo\\.", "bar$", "[a-z]+\"x", "."]), self.r.below(100));
                    let b: Vec<f64> = (0..self.r.below(5)).map(|i| i as f64 * 2.5).collect();
                    masks.push(format!("{:?} {:?}", m, b));
                    let name = self.name();
                    all.push((name, vec![("mask".to_string(), q(&m)), ("bounds".to_string(), format!("[{}]", b.iter().map(|f| fl(*f)).collect::<Vec<_>>().join(", ")))]));
                }
                if self.r.chance(50) && !all.is_empty() {
                    for (n, t) in all {
                        let mut p = path.clone();
                        p.push("mapping".to_string());
                        p.push(n);
                        self.out.push((p, t));
                    }
                } else {
                    let t = all.into_iter().map(|(n, t)| (n, inline(&t))).collect();
                    self.sub(&mut s, &path, "mapping", t);
                }
            }
            masks.sort();
            self.put(&k("masks"), masks);
        }
        self.enabled(&mut s, kept);
        self.done(path, s);
    }
    fn filter(&mut self, kind: &str, scripts: &str) {
        let name = self.name();
        let path = vec!["filters".to_string(), kind.to_string(), name];
        let p = path.join(".");
        let k = |o: &str| format!("{}/{}", p, o);
        let mut s = vec![];
        self.put(&k("path"), p.clone());
        self.forwards(&mut s, &p, false);
        let t = self.tags.clone();
        match kind {
            "delay" | "flush_boundary" => {
                let n = *self.r.pick(&[0u64, 1, 2, 600]);
                s.push(("tolerance".to_string(), n.to_string()));
                self.put(&k("tolerance"), n);
            }
            "json_encode" => {
                let b = self.r.chance(50);
                self.opt(&mut s, "parse_line", &k("parse_line"), b, b.to_string(), false);
                self.want.insert(k("tags"), t);
            }
            _ => {
                let f = format!("{}.lua", self.r.pick(&["a", "dir/b", "/abs/c"]));
                s.push(("script".to_string(), q(&f)));
                let d = std::path::Path::new(scripts);
                self.put(&k("script"), Some(d.join(&f)));
                self.put(&k("scripts"), Some(d));
                self.want.insert(k("tags"), t);
            }
        }
        self.done(path, s);
    }
}

fn inline(t: &[(String, String)]) -> String {
    format!("{{ {} }}", t.iter().map(|(k, v)| format!("{} = {}", key(k), v)).collect::<Vec<_>>().join(", "))
}

pub fn c01(a: &Args, rep: &mut Rep) {
    std::env::set_var("CV_TAG_ONE", "from the environment");
    std::env::set_var("CV_TAG_TWO", "");
    run_cases(a, rep, |r, rep| {
        let mut g = Gen { r, want: View::new(), out: vec![], flush: 6000, tags: String::new(), words: 0 };
        let mut top = vec![];
        // Globals.
        let n = 1 + g.r.below(1 << 40);
        g.opt(&mut top, "max-hopper-in-memory-bytes", "/memory", n, n.to_string(), 1_048_576);
        let n = 1 + g.r.below(1000);
        g.opt(&mut top, "max-hopper-queue-files", "/files", n, n.to_string(), 100);
        let n = 1 + g.r.below(1 << 30);
        g.opt(&mut top, "max-hopper-queue-bytes", "/bytes", n, n.to_string(), 104_857_600);
        g.ostr(&mut top, "data-directory", "/data", "some/\"where\"", "/tmp/cernan-data");
        let mut scripts = "/tmp/cernan-scripts".to_string();
        if g.r.chance(50) {
            scripts = "lua/ü/".to_string();
            top.push(("scripts-directory".to_string(), q(&scripts)));
        }
        g.put("/scripts", std::path::Path::new(&scripts).to_path_buf());
        g.flush = g.oflush(&mut top, "flush-interval", "/flush", 6000);
        let mut tg: BTreeMap<String, String> = BTreeMap::new();
        if g.r.chance(60) {
            let mut t = vec![];
            for i in 0..g.r.below(4) {
                let k = format!("{}{}", g.r.pick(&["source", "a b", "ü.", "value"]), i);
                let (text, v) = match g.r.below(4) {
                    0 => ("{ environment = true, value = \"CV_TAG_ONE\" }".to_string(), "from the environment".to_string()),
                    1 => ("{ value = \"CV_TAG_TWO\", environment = true }".to_string(), String::new()),
                    _ => {
                        let w = g.name();
                        (q(&w), w)
                    }
                };
                t.push((k.clone(), text));
                tg.insert(k, v);
            }
            if g.r.chance(40) {
                top.push(("tags".to_string(), inline(&t)));
            } else {
                g.out.push((vec!["tags".to_string()], t));
            }
        }
        g.tags = format!("{:?}", tg);
        // Components.
        let mut kinds = BTreeSet::new();
        for s in &["console", "null", "wavefront", "influxdb", "native", "prometheus", "elasticsearch"] {
            if g.r.chance(45) {
                g.sink(s);
                kinds.insert(s.to_string());
            }
        }
        for _ in 0..g.r.below(3) {
            g.kafka();
            kinds.insert("kafka".to_string());
        }
        for s in &["statsd", "graphite", "avro", "native"] {
            for _ in 0..g.r.below(3) {
                g.listener(s);
                kinds.insert(format!("source {}", s));
            }
        }
        for s in &["delay", "flush_boundary", "json_encode", "programmable"] {
            for _ in 0..g.r.below(3) {
                g.filter(s, &scripts);
                kinds.insert(format!("filter {}", s));
            }
        }
        g.put("sources.internal/path", "sources.internal");
        if g.r.chance(50) {
            let mut s = vec![];
            g.forwards(&mut s, "sources.internal", false);
            g.done(vec!["sources".to_string(), "internal".to_string()], s);
        } else {
            g.put("sources.internal/forwards", Vec::<String>::new());
        }
        let nfiles = g.r.below(4);
        let mut files = vec![];
        for i in 0..nfiles {
            let mut s = vec![];
            let p = format!("/var/log/{}*.log", i);
            s.push(("path".to_string(), q(&p)));
            let n = 1 + g.r.below(100_000);
            g.opt(&mut s, "max_read_bytes", "tmp", n, n.to_string(), 2048);
            g.forwards(&mut s, "tmp", false);
            let max = g.want.remove("tmp").unwrap();
            let fw = g.want.remove("tmp/forwards").unwrap();
            files.push(format!("{:?} {} {}", Some(std::path::Path::new(&p)), max, fw));
            let name = g.name();
            g.done(vec!["sources".to_string(), "files".to_string(), name], s);
        }
        if nfiles > 0 {
            files.sort();
            g.put("sources.files/all", files);
            kinds.insert("files".to_string());
        }
        if g.r.chance(20) {
            g.out.push((vec!["sinks".to_string(), "firehose".to_string(), "x".to_string()], vec![("port".to_string(), "3".to_string())]));
        }
        // The file, its tables in any order.
        let mut out = g.out;
        let (want, r) = (g.want, g.r);
        r.shuffle(&mut out);
        r.shuffle(&mut top);
        let mut text = String::new();
        let say = |t: &mut String, s: &[(String, String)], r: &mut Rng| {
            for (k, v) in s {
                let pad = " ".repeat(r.below(3) as usize);
                t.push_str(&format!("{}{} ={}{}{}\n", pad, key(k), pad, v, if r.chance(10) { " # port = 1" } else { "" }));
            }
        };
        say(&mut text, &top, r);
        for (p, s) in &out {
            text.push_str(&format!("{}[{}]\n", " ".repeat(r.below(3) as usize), p.iter().map(|k| key(k)).collect::<Vec<_>>().join(".")));
            say(&mut text, s, r);
        }
        let file = format!("{}/c{}.toml", a.work, bytes(r, 3).iter().map(|b| b.to_string()).collect::<Vec<_>>().join("-"));
        std::fs::write(&file, &text).expect("HARNESS write");
        let parsed = std::panic::catch_unwind(|| parse_config(&file));
        let _ = std::fs::remove_file(&file);
        let got = match parsed {
            Ok(c) => view(&c),
            Err(_) => {
                rep.viol("refused", format!("parsing panicked: {:?}\n{}", take_panics(), text));
                return;
            }
        };
        for k in want.keys().chain(got.keys()).collect::<BTreeSet<_>>() {
            if want.get(k) != got.get(k) {
                let sig = k.rsplit('/').next().unwrap_or("").to_string();
                rep.viol(&sig, format!("{}: {:?} expected, {:?} parsed, of\n{}", k, want.get(k), got.get(k), text));
            }
            rep.add("values_compared", 1);
        }
        rep.add("tables_written", out.len() as u64);
        for k in &kinds {
            rep.add(&format!("with {}", k), 1);
        }
        rep.seen(&kinds);
    });
}
