//! Shared harness plumbing: deterministic randomness, reporting, waiting.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(a: u64, b: u64) -> Rng {
        let mut r = Rng(a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ 0x5851_F42D);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo) as u64 + 1) as i64
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

pub struct Args {
    pub seed: u64,
    pub cases: u64,
    pub secs: f64,
    pub only: Option<u64>,
    pub out: String,
    pub work: String,
    pub thorough: bool,
    pub extra: BTreeMap<String, String>,
}

impl Args {
    pub fn parse() -> (String, Args) {
        let mut it = std::env::args().skip(1);
        let cmd = it.next().expect("subcommand");
        let mut a = Args {
            seed: 1,
            cases: 100,
            secs: 10.0,
            only: None,
            out: String::new(),
            work: String::new(),
            thorough: false,
            extra: BTreeMap::new(),
        };
        while let Some(k) = it.next() {
            let mut v = || it.next().expect("value");
            match k.as_str() {
                "--seed" => a.seed = v().parse().unwrap(),
                "--cases" => a.cases = v().parse().unwrap(),
                "--secs" => a.secs = v().parse().unwrap(),
                "--case" => a.only = Some(v().parse().unwrap()),
                "--out" => a.out = v(),
                "--work" => a.work = v(),
                "--thorough" => a.thorough = true,
                _ => {
                    let val = v();
                    a.extra.insert(k.trim_start_matches('-').to_string(), val);
                }
            }
        }
        (cmd, a)
    }
    pub fn x(&self, k: &str, d: &str) -> String {
        self.extra.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
}

#[derive(Default)]
pub struct Rep {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub ctr: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<(String, String, u64)>,
    pub notes: Vec<String>,
    pub case: u64,
    /// If not empty, the words a signature must contain one of to be reported.
    pub only: Vec<String>,
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Rep {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.ctr.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn seen<T: Hash + ?Sized>(&mut self, t: &T) {
        self.distinct.insert(h64(t));
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 4 {
            self.samples.push(clip(&s, 1500));
        }
    }
    /// A violation with a stable signature (used to match known findings).
    pub fn viol(&mut self, sig: &str, detail: String) {
        if !self.only.is_empty() && !self.only.iter().any(|w| sig.contains(w.as_str())) {
            self.add("others_seen", 1);
            return;
        }
        self.add("violations_seen", 1);
        let same = self.viols.iter().filter(|v| v.0 == sig).count();
        if same < 3 && self.viols.len() < 40 {
            self.viols.push((sig.to_string(), clip(&detail, 4000), self.case));
        }
    }
    pub fn write(&self, path: &str) {
        let v = json!({
            "evals": self.evals,
            "distinct": self.distinct.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>(),
            "counters": self.ctr,
            "samples": self.samples,
            "notes": self.notes,
            "violations": self.viols.iter().map(|(s, d, c)| json!({"sig": s, "detail": d, "case": c})).collect::<Vec<_>>(),
        });
        let tmp = format!("{}.tmp", path);
        std::fs::write(&tmp, serde_json::to_string(&v).unwrap()).unwrap();
        std::fs::rename(&tmp, path).unwrap();
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}... [{} bytes]", &s[..e], s.len())
}

lazy_static! {
    /// Messages of panics anywhere in this process, in order.
    pub static ref PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let text = format!("{} at {} in thread {:?} by {}", msg, loc, std::thread::current().name(), raiser());
        if std::env::var("CV_VERBOSE").is_ok() {
            eprintln!("[panic] {}", text);
        }
        if let Ok(mut p) = PANICS.lock() {
            p.push(text);
        }
    }));
}

lazy_static! {
    /// Addresses and names of the functions of this program, from its symbol
    /// table, and where it is loaded.
    static ref FUNCTIONS: (u64, Vec<(u64, String)>) = functions();
}

fn functions() -> (u64, Vec<(u64, String)>) {
    let exe = std::fs::read_link("/proc/self/exe").unwrap_or_default();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let exe = exe.to_string_lossy().to_string();
    let base = maps.lines().find(|l| l.ends_with(&exe)).and_then(|l| u64::from_str_radix(l.split('-').next().unwrap_or(""), 16).ok()).unwrap_or(0);
    let b = std::fs::read(&exe).unwrap_or_default();
    let int = |at: usize, n: usize| (0..n).fold(0u64, |v, i| v | u64::from(*b.get(at + i).unwrap_or(&0)) << (8 * i));
    let mut out = vec![];
    let (sh, size, n) = (int(40, 8) as usize, int(58, 2) as usize, int(60, 2) as usize);
    for i in 0..n {
        let s = sh + i * size;
        if int(s + 4, 4) == 2 {
            let (off, len) = (int(s + 24, 8) as usize, int(s + 32, 8) as usize);
            let names = int(sh + int(s + 40, 4) as usize * size + 24, 8) as usize;
            for y in 0..len / 24 {
                let y = off + y * 24;
                if int(y + 4, 1) & 15 == 2 {
                    let at = names + int(y, 4) as usize;
                    let name: Vec<u8> = b[at.min(b.len())..].iter().take_while(|c| **c != 0).cloned().collect();
                    out.push((int(y + 8, 8), String::from_utf8_lossy(&name).to_string()));
                }
            }
        }
    }
    out.sort();
    (base, out)
}

/// Whose code raised the panic being handled: that of the first frame below
/// the panic machinery that is the harness's or cernan's.
fn raiser() -> &'static str {
    let (mut below, mut who) = (false, "");
    let (base, funs) = (FUNCTIONS.0, &FUNCTIONS.1);
    backtrace::trace(|f| {
        let at = (f.ip() as u64).wrapping_sub(base).wrapping_sub(1);
        let i = match funs.binary_search_by(|p| p.0.cmp(&at)) {
            Ok(i) => i,
            Err(0) => return true,
            Err(i) => i - 1,
        };
        let n = &funs[i].1;
        if n.contains("begin_panic") || n.contains("panic_fmt") {
            below = true;
        } else if below {
            let first = |a: &str, b: &str| n.find(a).into_iter().chain(n.find(b)).min();
            who = match (first("N6cernan", "$LT$cernan.."), first("N2cv", "$LT$cv..")) {
                (Some(a), Some(b)) if b < a => "harness",
                (Some(_), _) => "cernan",
                (None, Some(_)) => "harness",
                _ => "",
            };
        }
        who == ""
    });
    if who == "" { "a library" } else { who }
}

pub fn take_panics() -> Vec<String> {
    std::mem::replace(&mut *PANICS.lock().unwrap(), Vec::new())
}

/// Runs `f` for case 0,1,2.. until the case or time budget is used up; each
/// case has its own generator, so `--case N` replays it alone.
pub fn run_cases<F>(args: &Args, rep: &mut Rep, mut f: F)
where
    F: FnMut(&mut Rng, &mut Rep),
{
    let start = Instant::now();
    let (lo, hi) = match args.only {
        Some(c) => (c, c + 1),
        None => (0, args.cases),
    };
    for c in lo..hi {
        if args.only.is_none() && start.elapsed().as_secs_f64() > args.secs {
            break;
        }
        let mut rng = Rng::new(args.seed, c);
        rep.case = c;
        rep.evals += 1;
        take_panics();
        let r = panic::catch_unwind(panic::AssertUnwindSafe(|| f(&mut rng, rep)));
        if r.is_err() {
            let p = take_panics();
            // Panics raised by the harness's own asserts are harness errors.
            let txt = p.join(" | ");
            // So are failures of the system calls it makes; where it stumbles
            // over what the code handed it, that is the code's doing.
            let own = p.last().map_or(false, |l| l.ends_with(" by harness") || l.ends_with(" by a library") && l.contains(" at src/") && !l.contains(" at src/lib"));
            if txt.contains("HARNESS") || own && txt.contains("Os {") {
                eprintln!("harness error in case {}: {}", c, txt);
                std::process::exit(2);
            }
            rep.viol(if own { "unreadable" } else { "panic" }, format!("panicked: {}", txt));
        }
    }
}

pub fn wait_until<F: FnMut() -> bool>(limit: Duration, mut f: F) -> bool {
    let t = Instant::now();
    let mut nap = 1;
    loop {
        if f() {
            return true;
        }
        if t.elapsed() > limit {
            return false;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap + 1).min(20);
    }
}

pub fn harness_fail(msg: &str) -> ! {
    eprintln!("HARNESS: {}", msg);
    std::process::exit(2);
}
