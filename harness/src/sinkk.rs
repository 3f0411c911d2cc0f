//! S06: the kafka sink, through the real librdkafka, against a fake broker
//! that answers each produce request by script and logs what it read.
use crate::common::*;
use crate::h::*;
use crate::ingest::Counters;
use cernan::metric::{global_ack_bag, Encoding, Metadata};
use cernan::sink::*;
use cernan::util::Valve;
use std::collections::{BTreeMap, VecDeque};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::thread;
use std::time::Duration;
use uuid::Uuid;

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Reply {
    Code(i16),
    Drop,
    Silent,
}

/// Errors cernan has published again.
const AGAIN: [i16; 7] = [2, 7, 13, 14, 19, 20, 41];
/// Errors librdkafka itself publishes again without telling cernan.
const INSIDE: [i16; 5] = [3, 5, 6, 15, 16];
/// Errors after which nothing is to be published again.
const FINAL: [i16; 8] = [1, 10, 12, 17, 18, 21, 29, 42];

impl Reply {
    fn again(self) -> bool {
        match self {
            Reply::Code(c) => AGAIN.contains(&c) || INSIDE.contains(&c),
            Reply::Drop => false,
            Reply::Silent => true,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Seen {
    pub val: Option<Vec<u8>>,
    headers: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    reply: Reply,
}

#[derive(Default)]
pub struct St {
    pub topic: String,
    pub client: String,
    pub parts: i32,
    pub script: VecDeque<Reply>,
    pub slow: u64,
    /// By key.
    pub seen: BTreeMap<Vec<u8>, Vec<Seen>>,
    pub conns: BTreeMap<Vec<u8>, Uuid>,
    pub bad: Vec<(&'static str, String)>,
    pub requests: u64,
    pub batched: u64,
}

struct Cur<'a>(&'a [u8]);

impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if n > self.0.len() {
            return Err("short".to_string());
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn i(&mut self, n: usize) -> Result<i64, String> {
        let b = self.take(n)?;
        let mut v = if b[0] & 0x80 != 0 { -1i64 } else { 0 };
        for x in b {
            v = v << 8 | i64::from(*x);
        }
        Ok(v)
    }
    fn str(&mut self) -> Result<Option<String>, String> {
        let n = self.i(2)?;
        if n < 0 {
            return Ok(None);
        }
        Ok(Some(String::from_utf8_lossy(self.take(n as usize)?).to_string()))
    }
    fn var(&mut self) -> Result<i64, String> {
        let (mut v, mut s) = (0u64, 0);
        loop {
            let b = self.take(1)?[0];
            v |= u64::from(b & 0x7f) << s;
            if b & 0x80 == 0 {
                return Ok((v >> 1) as i64 ^ -((v & 1) as i64));
            }
            s += 7;
            if s > 63 {
                return Err("varint".to_string());
            }
        }
    }
    fn vbytes(&mut self) -> Result<Option<Vec<u8>>, String> {
        let n = self.var()?;
        if n < 0 {
            return Ok(None);
        }
        Ok(Some(self.take(n as usize)?.to_vec()))
    }
}

type Record = (Option<Vec<u8>>, Option<Vec<u8>>, Vec<(Vec<u8>, Option<Vec<u8>>)>);

/// The records of one v2 batch.
fn records(b: &[u8]) -> Result<Vec<Record>, String> {
    let mut c = Cur(b);
    c.i(8)?;
    let len = c.i(4)? as usize;
    if len != c.0.len() {
        return Err(format!("batch of {} bytes in a field of {}", len, c.0.len()));
    }
    c.i(4)?;
    if c.i(1)? != 2 {
        return Err("magic".to_string());
    }
    c.i(4)?;
    if c.i(2)? & 7 != 0 {
        return Err("compressed".to_string());
    }
    c.take(4 + 8 + 8 + 8 + 2 + 4)?;
    let n = c.i(4)?;
    let mut out = vec![];
    for _ in 0..n {
        let l = c.var()? as usize;
        let mut r = Cur(c.take(l)?);
        r.take(1)?;
        r.var()?;
        r.var()?;
        let key = r.vbytes()?;
        let val = r.vbytes()?;
        let mut h = vec![];
        for _ in 0..r.var()? {
            h.push((r.vbytes()?.unwrap_or_default(), r.vbytes()?));
        }
        if !r.0.is_empty() {
            return Err("bytes left in a record".to_string());
        }
        out.push((key, val, h));
    }
    Ok(out)
}

fn wstr(o: &mut Vec<u8>, s: &str) {
    o.extend_from_slice(&(s.len() as i16).to_be_bytes());
    o.extend_from_slice(s.as_bytes());
}
fn w32(o: &mut Vec<u8>, n: i32) {
    o.extend_from_slice(&n.to_be_bytes());
}
fn w16(o: &mut Vec<u8>, n: i16) {
    o.extend_from_slice(&n.to_be_bytes());
}
fn w64(o: &mut Vec<u8>, n: i64) {
    o.extend_from_slice(&n.to_be_bytes());
}

/// An event acknowledged while its outcome is open.
fn early(st: &mut St, keys: &[Vec<u8>]) {
    for k in keys {
        if let Some(id) = st.conns.get(k) {
            if let Some(p) = global_ack_bag().props_for(*id) {
                if p.acks_received() != 0 {
                    st.bad.push(("early-ack", format!("the event of key {:?} was acknowledged before its outcome", String::from_utf8_lossy(k))));
                }
            }
        }
    }
}

fn produce(c: &mut Cur, st: &Shared<St>, seed: &mut Rng) -> Result<Option<Vec<u8>>, String> {
    c.str()?;
    c.i(2)?;
    c.i(4)?;
    let mut out = vec![];
    let nt = c.i(4)?;
    w32(&mut out, nt as i32);
    let mut answer = Some(());
    let mut slow = 0;
    let mut keys = vec![];
    for _ in 0..nt {
        let topic = c.str()?.unwrap_or_default();
        wstr(&mut out, &topic);
        let np = c.i(4)?;
        w32(&mut out, np as i32);
        for _ in 0..np {
            let part = c.i(4)? as i32;
            let n = c.i(4)? as usize;
            let recs = records(c.take(n)?)?;
            let mut s = st.lock().unwrap();
            s.requests += 1;
            if recs.len() > 1 {
                s.batched += 1;
            }
            if topic != s.topic {
                let m = format!("published to topic {:?} instead of {:?}", topic, s.topic);
                s.bad.push(("topic", m));
            }
            let reply = s.script.pop_front().unwrap_or(Reply::Code(0));
            slow = slow.max(s.slow);
            for (k, v, h) in recs {
                let k = match k {
                    Some(k) => k,
                    None => {
                        s.bad.push(("key", "published without a key".to_string()));
                        continue;
                    }
                };
                keys.push(k.clone());
                s.seen.entry(k).or_insert_with(Vec::new).push(Seen { val: v, headers: h, reply });
            }
            early(&mut s, &keys);
            match reply {
                Reply::Code(e) => {
                    w32(&mut out, part);
                    w16(&mut out, e);
                    w64(&mut out, if e == 0 { s.requests as i64 } else { -1 });
                    w64(&mut out, -1);
                }
                Reply::Drop => answer = None,
                Reply::Silent => return Ok(Some(vec![])),
            }
        }
    }
    w32(&mut out, 0);
    if slow > 0 {
        thread::sleep(Duration::from_micros(seed.below(slow)));
        early(&mut st.lock().unwrap(), &keys);
    }
    Ok(answer.map(|_| out))
}

fn serve(mut s: TcpStream, port: u16, st: Shared<St>, stop: Arc<AtomicBool>, seed: u64) -> Result<(), String> {
    let mut r = Rng::new(seed, 17);
    let _ = s.set_nodelay(true);
    let _ = s.set_read_timeout(Some(Duration::from_millis(50)));
    let mut buf: Vec<u8> = vec![];
    let mut b = vec![0; 1 << 16];
    loop {
        if stop.load(Ordering::SeqCst) {
            return Ok(());
        }
        match s.read(&mut b) {
            Ok(0) => return Ok(()),
            Ok(n) => buf.extend_from_slice(&b[..n]),
            Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => continue,
            Err(_) => return Ok(()),
        }
        while buf.len() >= 4 {
            let n = u32::from_be_bytes([buf[0], buf[1], buf[2], buf[3]]) as usize;
            if buf.len() < n + 4 {
                break;
            }
            let req: Vec<u8> = buf.drain(..n + 4).skip(4).collect();
            let mut c = Cur(&req);
            let api = c.i(2)?;
            let ver = c.i(2)?;
            let corr = c.i(4)? as i32;
            let client = c.str()?;
            {
                let mut g = st.lock().unwrap();
                if client.as_ref() != Some(&g.client) {
                    let m = format!("client.id {:?} instead of the configured {:?}", client, g.client);
                    g.bad.push(("config", m));
                }
            }
            let mut out = vec![];
            w32(&mut out, corr);
            match (api, ver) {
                (18, 0) => {
                    let apis: [(i16, i16); 4] = [(0, 3), (1, 4), (3, 0), (18, 0)];
                    w16(&mut out, 0);
                    w32(&mut out, apis.len() as i32);
                    for (k, m) in &apis {
                        w16(&mut out, *k);
                        w16(&mut out, 0);
                        w16(&mut out, *m);
                    }
                }
                (3, 0) => {
                    let n = c.i(4)?;
                    let mut topics = vec![];
                    for _ in 0..n {
                        topics.push(c.str()?.unwrap_or_default());
                    }
                    let g = st.lock().unwrap();
                    if topics.is_empty() {
                        topics.push(g.topic.clone());
                    }
                    w32(&mut out, 1);
                    w32(&mut out, 1);
                    wstr(&mut out, "127.0.0.1");
                    w32(&mut out, i32::from(port));
                    w32(&mut out, topics.len() as i32);
                    for t in topics {
                        w16(&mut out, 0);
                        wstr(&mut out, &t);
                        w32(&mut out, g.parts);
                        for p in 0..g.parts {
                            w16(&mut out, 0);
                            w32(&mut out, p);
                            w32(&mut out, 1);
                            w32(&mut out, 1);
                            w32(&mut out, 1);
                            w32(&mut out, 1);
                            w32(&mut out, 1);
                        }
                    }
                }
                (0, 3) => match produce(&mut c, &st, &mut r)? {
                    None => return Ok(()),
                    Some(ref v) if v.is_empty() => continue,
                    Some(v) => out.extend_from_slice(&v),
                },
                _ => return Err(format!("request {} v{}", api, ver)),
            }
            let mut m = (out.len() as i32).to_be_bytes().to_vec();
            m.extend_from_slice(&out);
            if s.write_all(&m).is_err() {
                return Ok(());
            }
        }
    }
}

pub struct Broker {
    pub port: u16,
    pub st: Shared<St>,
    stop: Arc<AtomicBool>,
    h: Option<thread::JoinHandle<()>>,
}

impl Broker {
    pub fn start(st: St, wait: u64, seed: u64) -> Broker {
        // The port is held from the start, and listened on after `wait`.
        use std::os::unix::io::FromRawFd;
        let (fd, port) = unsafe {
            let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
            let mut a: libc::sockaddr_in = std::mem::zeroed();
            a.sin_family = libc::AF_INET as u16;
            a.sin_addr.s_addr = u32::from_be_bytes([127, 0, 0, 1]).to_be();
            let mut l = std::mem::size_of::<libc::sockaddr_in>() as u32;
            if libc::bind(fd, &a as *const _ as *const libc::sockaddr, l) != 0 || libc::getsockname(fd, &mut a as *mut _ as *mut libc::sockaddr, &mut l) != 0 {
                harness_fail("bind");
            }
            (fd, u16::from_be(a.sin_port))
        };
        let (st, stop) = (shared(st), Arc::new(AtomicBool::new(false)));
        let (st2, stop2) = (st.clone(), stop.clone());
        let h = thread::spawn(move || {
            thread::sleep(Duration::from_millis(wait));
            let l = unsafe {
                libc::listen(fd, 64);
                TcpListener::from_raw_fd(fd)
            };
            l.set_nonblocking(true).unwrap();
            let mut n = seed;
            let mut hs = vec![];
            while !stop2.load(Ordering::SeqCst) {
                match l.accept() {
                    Ok((s, _)) => {
                        s.set_nonblocking(false).unwrap();
                        n += 1;
                        let (a, b, n) = (st2.clone(), stop2.clone(), n);
                        hs.push(thread::spawn(move || {
                            if let Err(e) = serve(s, port, a.clone(), b, n) {
                                a.lock().unwrap().bad.push(("request", format!("a request the broker cannot read: {}", e)));
                            }
                        }));
                    }
                    Err(_) => thread::sleep(Duration::from_millis(1)),
                }
            }
            for h in hs {
                let _ = h.join();
            }
        });
        Broker { port, st, stop, h: Some(h) }
    }
}

impl Drop for Broker {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = self.h.take().unwrap().join();
    }
}

struct Ev {
    bytes: Vec<u8>,
    headers: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    conn: Option<Uuid>,
    waits: bool,
    oversize: bool,
    done: bool,
}

fn header_name(k: &[u8]) -> Vec<u8> {
    String::from_utf8_lossy(k).replace('\0', "\u{FFFD}").into_bytes()
}

pub fn s06(a: &Args, rep: &mut Rep) {
    let counters = Counters::start(&a.work);
    let mut want: BTreeMap<&str, (u64, u64)> = BTreeMap::new();
    for k in &["success", "retry", "failure", "retry.failure"] {
        want.insert(k, (0, 0));
    }
    let bump = |w: &mut BTreeMap<&str, (u64, u64)>, k: &'static str, lo: u64, hi: u64| {
        let e = w.get_mut(k).unwrap();
        e.0 += lo;
        e.1 += hi;
    };
    run_cases(a, rep, |r, rep| {
        let timed = r.chance(4);
        let wait = if !timed && r.chance(8) { 50 + r.below(250) } else { 0 };
        let topic = format!("t{}", r.below(1000));
        let client = format!("c{}", r.below(1000));
        let small = r.chance(25);
        let maxmsg = if small { 2000 } else { 1_000_000 };
        let mut st = St { topic: topic.clone(), client: client.clone(), parts: 1 + r.below(3) as i32, ..Default::default() };
        st.slow = *r.pick(&[0u64, 0, 500, 6000]);
        let broker = Broker::start(st, wait, r.next());
        if wait > 0 {
            rep.add("refused_at_start", 1);
        }
        let limit = *r.pick(&[1usize, 500, 5000, 10 << 20]);
        let mut conf = std::collections::HashMap::new();
        let mut set = |k: &str, v: String| {
            conf.insert(k.to_string(), v);
        };
        set("client.id", client);
        set("queue.buffering.max.ms", r.pick(&["0", "1", "5"]).to_string());
        set("message.send.max.retries", "0".to_string());
        set("socket.blocking.max.ms", "5".to_string());
        set("retry.backoff.ms", "5".to_string());
        set("reconnect.backoff.jitter.ms", "5".to_string());
        set("topic.metadata.refresh.fast.interval.ms", "10".to_string());
        set("max.in.flight.requests.per.connection", "1".to_string());
        set("message.max.bytes", maxmsg.to_string());
        set("batch.num.messages", r.pick(&["1", "3", "1000"]).to_string());
        if r.chance(20) {
            set("queue.buffering.max.messages", r.pick(&["1", "2", "10"]).to_string());
            rep.add("tiny_client_queues", 1);
        }
        if timed {
            set("message.timeout.ms", "400".to_string());
            rep.add("timed_cases", 1);
        }
        let mut sink = Kafka::init(KafkaConfig {
            config_path: None,
            topic_name: Some(topic),
            brokers: Some(format!("127.0.0.1:{}", broker.port)),
            rdkafka_config: Some(conf),
            max_message_bytes: limit,
            flush_interval: 1,
        });
        let mut evs: BTreeMap<Vec<u8>, Ev> = BTreeMap::new();
        let mut total = 0;
        let rounds = r.range(1, 4);
        let mut shape = vec![];
        for round in 0..rounds {
            // Up to now nothing is in flight.
            {
                let mut s = broker.st.lock().unwrap();
                s.script.clear();
                let n = if r.chance(30) { 0 } else { r.below(7) };
                for _ in 0..n {
                    let x = match r.below(20) {
                        0..=8 => Reply::Code(*r.pick(&AGAIN)),
                        9..=11 => Reply::Code(*r.pick(&FINAL)),
                        12 | 13 => Reply::Code(*r.pick(&INSIDE)),
                        14 | 15 => Reply::Drop,
                        16 if timed => Reply::Silent,
                        _ => Reply::Code(0),
                    };
                    s.script.push_back(x);
                    shape.push(x);
                }
            }
            let mut fresh = vec![];
            let mut held = 0usize;
            for _ in 0..*r.pick(&[0u64, 1, 2, 5, 20, 60]) {
                let order = match r.below(6) {
                    0 => r.below(40),
                    1 => u64::max_value() - r.below(20),
                    2 => r.below(1 << 20),
                    _ => r.next(),
                };
                let key = format!("{:X}", order).into_bytes();
                if evs.contains_key(&key) {
                    continue;
                }
                let oversize = small && r.chance(8);
                let n = if oversize { 2100 + r.below(500) } else { *r.pick(&[0u64, 1, 10, 100, 600]) };
                let payload = bytes(r, n);
                let mut m = Metadata::default();
                for i in 0..r.below(5) {
                    let n = *r.pick(&[0u64, 1, 5, 30]);
                    m.insert(format!("k{}{}", i, text(r, 1)).into_bytes(), bytes(r, n));
                }
                match r.below(25) {
                    0 => {
                        m.insert(vec![b'z', 0xff, 0xfe, b'q'], bytes(r, 3));
                        rep.add("odd_header_names", 1);
                    }
                    1 => {
                        m.insert(b"y\0y".to_vec(), bytes(r, 3));
                        rep.add("odd_header_names", 1);
                    }
                    2 => {
                        m.insert(vec![], bytes(r, 2));
                    }
                    _ => {}
                }
                let mut headers: Vec<_> = m.iter().map(|(k, v)| (header_name(k), Some(v.clone()))).collect();
                headers.sort();
                let meta = if m.is_empty() && r.chance(50) { None } else { Some(m) };
                let conn = if r.chance(70) { Some(Uuid::new_v4()) } else { None };
                let waits = conn.is_some() && r.chance(90);
                if let (Some(c), true) = (conn, waits) {
                    global_ack_bag().prepare_wait(c);
                    if !oversize {
                        broker.st.lock().unwrap().conns.insert(key.clone(), c);
                    }
                }
                sink.deliver_raw(order, [Encoding::Raw, Encoding::Avro, Encoding::JSON][r.below(3) as usize].clone(), payload.clone(), meta, conn);
                held += payload.len();
                let open = sink.valve_state() == Valve::Open;
                if open != (held < limit) {
                    rep.viol("valve", format!("valve open: {} with {} bytes in flight and a limit of {}", open, held, limit));
                }
                if !open {
                    rep.add("valve_closed", 1);
                }
                if n == 0 {
                    rep.add("empty_payloads", 1);
                }
                evs.insert(key.clone(), Ev { bytes: payload, headers, conn, waits, oversize, done: false });
                fresh.push(key);
                total += 1;
                if r.chance(4) {
                    thread::sleep(Duration::from_micros(r.below(3000)));
                }
            }
            if r.chance(40) {
                thread::sleep(Duration::from_millis(r.below(15)));
            }
            let last = round == rounds - 1 && r.chance(60);
            if last {
                rep.add("shutdowns", 1);
                // Drops the sink too.
                let s = std::mem::replace(&mut sink, Kafka::init(KafkaConfig { topic_name: Some("x".to_string()), brokers: Some("127.0.0.1:1".to_string()), ..Default::default() }));
                s.shutdown();
            } else {
                sink.flush();
                if sink.valve_state() != Valve::Open {
                    rep.viol("valve", "the valve is closed after a flush".to_string());
                }
            }
            // Every outcome is final now.
            let s = broker.st.lock().unwrap();
            for k in &fresh {
                let e = evs.get_mut(k).unwrap();
                e.done = true;
                let name = String::from_utf8_lossy(k).to_string();
                let none = vec![];
                let seen = s.seen.get(k).unwrap_or(&none);
                let plan: Vec<Reply> = seen.iter().map(|s| s.reply).collect();
                if e.oversize {
                    if !seen.is_empty() {
                        rep.viol("oversize", format!("event {} of {} bytes was published past message.max.bytes {}", name, e.bytes.len(), maxmsg));
                    }
                    bump(&mut want, "failure", 1, 1);
                    rep.add("oversized", 1);
                } else if timed {
                    // Times out at its own pace: only the last outcome counts.
                    if !plan.iter().any(|p| !p.again()) {
                        rep.viol("lost", format!("event {} was published with outcomes {:?} only", name, plan));
                    }
                    let n = plan.len() as u64 + 8;
                    bump(&mut want, "success", 0, 1);
                    bump(&mut want, "failure", 0, 1);
                    bump(&mut want, "retry", 0, n);
                } else {
                    let again = plan.iter().take_while(|p| p.again()).count();
                    if again == plan.len() {
                        rep.viol("lost", format!("event {} was published with outcomes {:?}, none of them final, when flush returned", name, plan));
                    } else if again + 1 != plan.len() {
                        rep.viol("duplicate", format!("event {} was published again after a final outcome: {:?}", name, plan));
                    }
                    let told = plan.iter().filter(|p| if let Reply::Code(c) = p { AGAIN.contains(c) } else { false }).count() as u64;
                    bump(&mut want, "retry", told, told);
                    if told > 0 {
                        rep.add("retried", 1);
                    }
                    match plan.last() {
                        Some(Reply::Code(0)) => bump(&mut want, "success", 1, 1),
                        _ => {
                            bump(&mut want, "failure", 1, 1);
                            rep.add("failed", 1);
                        }
                    }
                }
                for s in seen {
                    let mut h = s.headers.clone();
                    h.sort();
                    if s.val.as_ref() != Some(&e.bytes) {
                        rep.viol("payload", format!("event {} of {} bytes was published (attempts {:?}) with {:?} bytes, other than they were", name, e.bytes.len(), plan, s.val.as_ref().map(|v| v.len())));
                    }
                    if h != e.headers {
                        rep.viol("headers", format!("event {} (attempts {:?}) was published with headers {:?}, not {:?}", name, plan, h, e.headers));
                    }
                    rep.add("records_compared", 1);
                }
                if let (Some(c), true) = (e.conn, e.waits) {
                    let n = global_ack_bag().props_for(c).map(|p| p.acks_received());
                    if n != Some(1) {
                        rep.viol("acks", format!("event {} (attempts {:?}) has been acknowledged {:?} times after flush", name, plan, n));
                    }
                    rep.add("acks_checked", 1);
                }
            }
            let strange: Vec<_> = s.seen.keys().filter(|k| !evs.contains_key(*k)).take(3).map(|k| String::from_utf8_lossy(k).to_string()).collect();
            if !strange.is_empty() {
                rep.viol("key", format!("published under keys {:?}, which no event has", strange));
            }
            if last {
                break;
            }
        }
        // Nothing further comes.
        let before: usize = broker.st.lock().unwrap().seen.values().map(|v| v.len()).sum();
        drop(sink);
        thread::sleep(Duration::from_millis(if r.chance(20) { 30 } else { 3 }));
        let mut s = broker.st.lock().unwrap();
        let after: usize = s.seen.values().map(|v| v.len()).sum();
        if after != before && !timed {
            rep.viol("duplicate", format!("{} records were published after the last outcome", after - before));
        }
        for (sig, m) in s.bad.drain(..) {
            rep.viol(sig, m);
        }
        for e in evs.values() {
            if let (Some(c), true) = (e.conn, e.waits) {
                let n = global_ack_bag().props_for(c).map(|p| p.acks_received());
                if n != Some(1) {
                    rep.viol("acks", format!("an event has been acknowledged {:?} times at the end", n));
                }
                global_ack_bag().remove(c);
            }
        }
        rep.add("events", total);
        rep.add("produce_requests", s.requests);
        rep.add("batches", s.batched);
        rep.seen(&(shape, total));
    });
    let w: BTreeMap<String, (u64, u64)> = want.iter().map(|(k, v)| (format!("cernan.sinks.kafka.publish.{}", k), *v)).collect();
    counters.settle(rep, &w);
}
