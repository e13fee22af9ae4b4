//! Choice-tape property engine: deterministic generation, shrinking, replay, evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Mutex, Once};
use std::time::Instant;

#[derive(Clone)]
pub struct Sm(pub u64);
impl Sm {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

/// Deterministic `rand` 0.7 generator whose whole stream is fixed by its seed.
#[derive(Clone)]
pub struct TapeRng(Sm);
impl TapeRng {
    pub fn new(seed: u64) -> Self {
        let mut s = Sm(seed ^ 0xA5A5_5A5A_1234_8765);
        s.next();
        TapeRng(s)
    }
}
impl rand::RngCore for TapeRng {
    fn next_u32(&mut self) -> u32 {
        self.0.next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0.next()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.0.next().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl rand::CryptoRng for TapeRng {}

/// Source of choices for one case.
pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    gen: Option<Sm>,
    pub index: usize,
    pub labels: Vec<String>,
    pub desc: String,
    pub nontrivial: bool,
    pub thorough: bool,
}

impl Src {
    /// a source of its own, outside the case's tape
    pub fn from_seed(seed: u64) -> Src {
        Src { tape: vec![], pos: 0, gen: Some(Sm(seed)), index: 0, labels: vec![], desc: String::new(), nontrivial: false, thorough: false }
    }
    pub fn u64(&mut self) -> u64 {
        let v = if self.pos < self.tape.len() {
            self.tape[self.pos]
        } else if let Some(g) = &mut self.gen {
            let v = g.next();
            self.tape.push(v);
            v
        } else {
            // a shrunk tape reads as zeros; a retry loop on zeros must not spin forever
            assert!(self.pos < self.tape.len() + 1_000_000, "tape exhausted");
            0
        };
        self.pos += 1;
        v
    }
    /// uniform in 0..n (0 is the simplest choice)
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.u64() % n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    /// true with probability num/den; false is simplest
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let t: usize = ws.iter().sum();
        let mut x = self.below(t);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
    /// a size: mostly small, sometimes up to max
    pub fn size(&mut self, max: usize) -> usize {
        let k = self.below(4);
        let m = match k {
            0 => max.min(2),
            1 => max.min(5),
            2 => max.min(12),
            _ => max,
        };
        self.below(m + 1)
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut r = self.rng();
        let mut v = vec![0u8; n];
        rand::RngCore::fill_bytes(&mut r, &mut v);
        v
    }
    pub fn rng(&mut self) -> TapeRng {
        TapeRng::new(self.u64())
    }
    pub fn label<S: Into<String>>(&mut self, s: S) {
        let s = s.into();
        if !self.labels.contains(&s) {
            self.labels.push(s);
        }
    }
    pub fn note<S: AsRef<str>>(&mut self, s: S) {
        if !self.desc.is_empty() {
            self.desc.push_str("; ");
        }
        self.desc.push_str(s.as_ref());
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    #[cfg(feature = "base")]
    pub fn field<F: ark_ff::PrimeField>(&mut self) -> F {
        match self.below(8) {
            0 => F::zero(),
            1 => F::one(),
            2 => -F::one(),
            3 | 4 => {
                let n = self.below(17) as u64;
                F::from(n)
            }
            _ => self.rand_field(),
        }
    }
    #[cfg(feature = "base")]
    pub fn rand_field<F: ark_ff::PrimeField>(&mut self) -> F {
        let mut r = self.rng();
        F::rand(&mut r)
    }
    #[cfg(feature = "base")]
    pub fn nonzero<F: ark_ff::PrimeField>(&mut self) -> F {
        let f: F = self.field();
        if f.is_zero() {
            F::from(2u64)
        } else {
            f
        }
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;
pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { return Err($crate::Fail { sig: ($sig).to_string(), msg: format!($($a)*) }); } };
}

// ---------------------------------------------------------------- panics
thread_local! {
    static LAST: RefCell<Option<(String, String)>> = RefCell::new(None);
}
static LOCS: Mutex<Option<HashMap<String, String>>> = Mutex::new(None);
static HOOK: Once = Once::new();

fn short_loc(file: &str) -> String {
    if let Some(p) = file.find("/repo/") {
        return file[p + 6..].to_string();
    }
    if let Some(p) = file.find("/registry/src/") {
        let rest = &file[p + 14..];
        return rest.splitn(2, '/').nth(1).unwrap_or(rest).to_string();
    }
    if let Some(p) = file.find("/library/") {
        return file[p + 1..].to_string();
    }
    file.to_string()
}

pub fn install_hook() {
    HOOK.call_once(|| {
        std::panic::set_hook(Box::new(|info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = info.location().map(|l| short_loc(l.file())).unwrap_or_default();
            LAST.with(|c| *c.borrow_mut() = Some((loc.clone(), msg.clone())));
            if let Ok(mut g) = LOCS.lock() {
                g.get_or_insert_with(HashMap::new).insert(msg, loc);
            }
        }));
    });
}

/// numbers in panic messages ("index out of bounds: the len is 3 ...") are normalised away
fn norm(s: &str) -> String {
    let mut out = String::new();
    let mut in_num = false;
    for ch in s.chars().take(160) {
        if ch.is_ascii_digit() {
            if !in_num {
                out.push('N');
            }
            in_num = true;
        } else {
            in_num = false;
            out.push(if ch == '\n' { ' ' } else { ch });
        }
    }
    out
}

/// Runs `f`, turning a panic into Err("file: message").
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    install_hook();
    LAST.with(|c| *c.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let msg = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let l = LAST.with(|c| c.borrow_mut().take());
            let loc = match l {
                Some((loc, m)) if m == msg => loc,
                _ => LOCS
                    .lock()
                    .ok()
                    .and_then(|g| g.as_ref().and_then(|m| m.get(&msg).cloned()))
                    .unwrap_or_default(),
            };
            Err(format!("{}: {}", loc, norm(&msg)))
        }
    }
}

// ---------------------------------------------------------------- runner
pub struct Sub {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub f: fn(&mut Src) -> R,
}
pub fn sub(name: &'static str, quick: usize, thorough: usize, f: fn(&mut Src) -> R) -> Sub {
    Sub { name, quick, thorough, f }
}

/// seconds after which one case counts as never returning
const HANG_QUICK: u64 = 200;
const HANG_THOROUGH: u64 = 900;

struct Outcome {
    res: R,
    tape: Vec<u64>,
    labels: Vec<String>,
    desc: String,
    nontrivial: bool,
}

fn run_case(s: &Sub, tape: Vec<u64>, gen: Option<Sm>, index: usize, thorough: bool) -> Outcome {
    let mut src = Src {
        tape,
        pos: 0,
        gen,
        index,
        labels: vec![],
        desc: String::new(),
        nontrivial: false,
        thorough,
    };
    let r = quiet(|| (s.f)(&mut src));
    let res = match r {
        Ok(r) => r,
        Err(p) => Err(Fail { sig: format!("panic@{}", p), msg: format!("panic at {}", p) }),
    };
    let used = src.pos.min(src.tape.len());
    src.tape.truncate(used);
    Outcome { res, tape: src.tape, labels: src.labels, desc: src.desc, nontrivial: src.nontrivial }
}

fn hash_tape(t: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in t {
        h = (h ^ x).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}
fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn shrink(s: &Sub, o: Outcome, thorough: bool, deadline: Instant) -> Outcome {
    let sig = o.res.as_ref().err().unwrap().sig.clone();
    let index = usize::MAX;
    let mut best = o;
    let mut improved = true;
    let mut tries = 0;
    macro_rules! attempt {
        ($t:expr) => {{
            tries += 1;
            if tries > 400 || Instant::now() > deadline {
                return best;
            }
            let r = run_case(s, $t, None, index, thorough);
            match &r.res {
                Err(e) if e.sig == sig && (r.tape.len() < best.tape.len() || (r.tape.len() == best.tape.len() && r.tape < best.tape)) => {
                    best = r;
                    true
                }
                _ => false,
            }
        }};
    }
    while improved {
        improved = false;
        let mut blk = (best.tape.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + blk <= best.tape.len() {
                let mut t = best.tape.clone();
                t.drain(i..i + blk);
                if attempt!(t) {
                    improved = true;
                } else {
                    i += blk;
                }
            }
            if blk == 1 {
                break;
            }
            blk /= 2;
        }
        let mut i = 0;
        while i < best.tape.len() {
            if best.tape[i] != 0 {
                for v in [0u64, 1, best.tape[i] % 256, best.tape[i] & 0xffff] {
                    if i < best.tape.len() && v < best.tape[i] {
                        let mut t = best.tape.clone();
                        t[i] = v;
                        if attempt!(t) {
                            improved = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    best
}

pub struct Known {
    pub sig: String,
    pub what: String,
}
/// lines: `open: property=<id> sig=<exact signature> :: <what fails>`
pub fn load_known(prop: &str) -> Vec<Known> {
    let path = std::env::var("VERIF_KNOWN").unwrap_or_else(|_| "/verif/known_findings.txt".into());
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("open: property=") {
            if let Some((id, rest)) = r.split_once(' ') {
                if id == prop {
                    if let Some(r2) = rest.strip_prefix("sig=") {
                        let (sig, what) = r2.split_once(" :: ").unwrap_or((r2, ""));
                        v.push(Known { sig: sig.to_string(), what: what.to_string() });
                    }
                }
            }
        }
    }
    v
}

/// What is running now, so that a hang or a crash can be traced to its case.
struct Watch {
    slots: Vec<AtomicUsize>,
    since: Vec<AtomicUsize>,
    state: Option<std::fs::File>,
    t0: Instant,
}
const IDLE: usize = usize::MAX;
impl Watch {
    fn begin(&self, w: usize, sub: usize, i: usize) {
        self.since[w].store(self.t0.elapsed().as_millis() as usize, Ordering::SeqCst);
        self.slots[w].store(sub << 48 | i, Ordering::SeqCst);
        if let Some(f) = &self.state {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(format!("{:>6} {:>14}\n", sub, i).as_bytes(), w as u64 * 22);
        }
    }
    fn end(&self, w: usize) {
        self.slots[w].store(IDLE, Ordering::SeqCst);
        if let Some(f) = &self.state {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(format!("{:>6} {:>14}\n", "-", "-").as_bytes(), w as u64 * 22);
        }
    }
    /// (sub, case) of a case that runs for longer than that
    fn stuck(&self, limit_ms: usize) -> Option<(usize, usize)> {
        let now = self.t0.elapsed().as_millis() as usize;
        for w in 0..self.slots.len() {
            let x = self.slots[w].load(Ordering::SeqCst);
            if x != IDLE && now > self.since[w].load(Ordering::SeqCst) + limit_ms && self.slots[w].load(Ordering::SeqCst) == x {
                return Some((x >> 48, x & ((1 << 48) - 1)));
            }
        }
        None
    }
}
fn gen_of(seed: u64, name: &str, i: usize) -> Sm {
    let mut g = Sm(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ hash_str(name).rotate_left(17) ^ (i as u64).wrapping_mul(0xD1342543DE82EF95));
    g.next();
    g
}
/// A case that never returns or ends the process is reported by its number.
fn report_case(prop: &str, dir: &str, variant: &str, name: &str, i: usize, seed: u64, thorough: bool, sig: &str) -> ! {
    std::fs::create_dir_all(dir).ok();
    let file = format!("{}/{}-{}-{}.json", dir, prop, name, variant);
    let j = serde_json::json!({
        "property": prop, "sub": name, "variant": variant, "seed": seed, "case": i, "by_case": true, "thorough": thorough,
        "sig": format!("{}/{}", name, sig),
    });
    std::fs::write(&file, serde_json::to_string_pretty(&j).unwrap()).ok();
    println!("FAIL sub={} case={} sig={}/{}", name, i, name, sig);
    println!("VIOLATION property={} replay={}", prop, file);
    use std::io::Write;
    std::io::stdout().flush().ok();
    std::process::exit(1)
}

pub fn main(prop: &str, rule: &str, subs: Vec<Sub>) -> ! {
    install_hook();
    let t0 = Instant::now();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let tier = get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let seed: u64 = get("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let only = get("--sub");
    let variant = get("--variant").unwrap_or_else(|| "seq".into());
    let replay_dir = get("--replay-dir").unwrap_or_else(|| "/verif/replays".into());
    let threads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let scale: f64 = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let verbose = args.iter().any(|a| a == "--verbose");

    if let Some(f) = get("--replay") {
        let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).expect("json");
        let name = j["sub"].as_str().unwrap();
        if j["by_case"].as_bool() == Some(true) {
            // the case hung or ended the process: run it once more under a deadline
            let i = j["case"].as_u64().unwrap() as usize;
            let (sd, th) = (j["seed"].as_u64().unwrap_or(1), j["thorough"].as_bool().unwrap_or(false));
            let pr = prop.to_string();
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_secs(if th { HANG_THOROUGH } else { HANG_QUICK }));
                println!("replay: still running");
                println!("VIOLATION property={} replay={}", pr, f);
                std::process::exit(1)
            });
            let s = subs.iter().find(|s| s.name == name).expect("sub-check");
            let o = run_case(s, vec![], Some(gen_of(sd, s.name, i)), i, th);
            println!("replay: {:?}", o.res.as_ref().err().map(|e| &e.sig));
            std::process::exit(if o.res.is_ok() { 0 } else { 1 })
        }
        let tape: Vec<u64> = j["tape"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().parse().unwrap()).collect();
        let index = j["index"].as_u64().unwrap_or(u64::MAX) as usize;
        let th = j["thorough"].as_bool().unwrap_or(false);
        let s = subs.iter().find(|s| s.name == name).expect("sub-check");
        let o = run_case(s, tape, None, index, th);
        println!("sub={} desc={} labels={:?}", name, o.desc, o.labels);
        match o.res {
            Ok(()) => {
                println!("replay: holds");
                std::process::exit(0)
            }
            Err(e) => {
                println!("replay: sig={} {}", e.sig, e.msg);
                println!("VIOLATION property={} replay={}", prop, f);
                std::process::exit(1)
            }
        }
    }

    if let Some(c) = get("--case") {
        let (n, i) = c.split_once(':').expect("SUB:CASE");
        let s = &subs[n.parse::<usize>().expect("sub")];
        let i: usize = i.parse().expect("case");
        let o = run_case(s, vec![], Some(gen_of(seed, s.name, i)), i, thorough);
        println!("case: {:?} {}", o.res.err().map(|e| e.sig), o.desc);
        std::process::exit(0)
    }
    if args.iter().any(|a| a == "--names") {
        println!("{}", subs.iter().map(|s| s.name).collect::<Vec<_>>().join("\n"));
        std::process::exit(0)
    }
    let watch = std::sync::Arc::new(Watch {
        slots: (0..threads).map(|_| AtomicUsize::new(IDLE)).collect(),
        since: (0..threads).map(|_| AtomicUsize::new(0)).collect(),
        state: get("--state").and_then(|p| std::fs::File::create(p).ok()),
        t0,
    });
    // what to report if shrinking a failure never ends
    let pending: std::sync::Arc<Mutex<Option<(Instant, Vec<String>)>>> = Default::default();
    {
        let (watch, pending) = (watch.clone(), pending.clone());
        let names: Vec<String> = subs.iter().map(|s| s.name.to_string()).collect();
        let (prop, dir, variant) = (prop.to_string(), replay_dir.clone(), variant.clone());
        let limit = if thorough { HANG_THOROUGH } else { HANG_QUICK };
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            if let Some((sub, i)) = watch.stuck(limit as usize * 1000) {
                report_case(&prop, &dir, &variant, &names[sub], i, seed, thorough, "hang");
            }
            if let Some((at, lines)) = &*pending.lock().unwrap() {
                if at.elapsed().as_secs() > 60 {
                    for l in lines {
                        println!("{}", l);
                    }
                    use std::io::Write;
                    std::io::stdout().flush().ok();
                    std::process::exit(1)
                }
            }
        });
    }
    let known = load_known(prop);
    let mut evals = 0usize;
    let mut labels: BTreeMap<String, usize> = BTreeMap::new();
    let mut per_sub: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut violations: Vec<String> = vec![];
    let mut known_hits: BTreeMap<String, usize> = BTreeMap::new();
    for (si, s) in subs.iter().enumerate() {
        if let Some(o) = &only {
            if o != s.name {
                continue;
            }
        }
        let n = (((if thorough { s.thorough } else { s.quick }) as f64) * scale).ceil() as usize;
        let next = AtomicUsize::new(0);
        let stop_at = AtomicUsize::new(usize::MAX);
        let fails: Mutex<Vec<(usize, Outcome)>> = Mutex::new(vec![]);
        let acc: Mutex<(usize, Vec<(u64, bool)>, BTreeMap<String, usize>, Vec<(usize, String)>, BTreeMap<String, usize>)> =
            Mutex::new((0, vec![], BTreeMap::new(), vec![], BTreeMap::new()));
        let _done = AtomicBool::new(false);
        let ts = Instant::now();
        std::thread::scope(|sc| {
            for w in 0..threads {
                let (next, stop_at, fails, acc, known, watch) = (&next, &stop_at, &fails, &acc, &known, &watch);
                let mk = move || {
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || i >= stop_at.load(Ordering::SeqCst) {
                            break;
                        }
                        watch.begin(w, si, i);
                        let o = run_case(s, vec![], Some(gen_of(seed, s.name, i)), i, thorough);
                        watch.end(w);
                        let mut a = acc.lock().unwrap();
                        a.0 += 1;
                        a.1.push((hash_tape(&o.tape) ^ hash_str(s.name), o.nontrivial));
                        for l in &o.labels {
                            *a.2.entry(l.clone()).or_insert(0) += 1;
                        }
                        if o.nontrivial && !o.desc.is_empty() && (i < 4) {
                            a.3.push((i, o.desc.clone()));
                        }
                        if let Err(e) = &o.res {
                            let full = format!("{}/{}", s.name, e.sig);
                            if known.iter().any(|k| k.sig == full) {
                                *a.4.entry(full).or_insert(0) += 1;
                            } else {
                                stop_at.fetch_min(i, Ordering::SeqCst);
                                drop(a);
                                fails.lock().unwrap().push((i, o));
                            }
                        }
                    }
                };
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, mk).unwrap();
            }
        });
        let a = acc.into_inner().unwrap();
        evals += a.0;
        let mut nt = 0;
        for (h, b) in &a.1 {
            if *b && distinct.insert(*h) {
                nt += 1;
            }
        }
        per_sub.insert(s.name.to_string(), (a.0, nt));
        for (k, v) in a.2 {
            *labels.entry(format!("{}:{}", s.name, k)).or_insert(0) += v;
        }
        for (k, v) in a.4 {
            *known_hits.entry(k).or_insert(0) += v;
        }
        let mut sm = a.3;
        sm.sort();
        for (i, d) in sm.into_iter().take(2) {
            let d: String = d.chars().take(600).collect();
            samples.push(serde_json::json!({"sub": s.name, "case": i, "variant": variant, "input": d}));
        }
        if verbose {
            eprintln!("[{}] {} cases in {:.1}s", s.name, a.0, ts.elapsed().as_secs_f64());
        }
        let mut fl = fails.into_inner().unwrap();
        fl.sort_by_key(|x| x.0);
        if let Some((i, o)) = fl.into_iter().next() {
            let orig = o.tape.clone();
            let e0 = o.res.as_ref().err().unwrap().clone();
            std::fs::create_dir_all(&replay_dir).ok();
            let file = format!("{}/{}-{}-{}.json", replay_dir, prop, s.name, variant);
            let record = |o: &Outcome, e: &Fail, idx: u64| {
                let j = serde_json::json!({
                    "property": prop, "sub": s.name, "variant": variant, "seed": seed, "case": i, "index": idx, "thorough": thorough,
                    "sig": format!("{}/{}", s.name, e.sig), "msg": e.msg, "desc": o.desc, "labels": o.labels,
                    "tape": o.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>(),
                });
                std::fs::write(&file, serde_json::to_string_pretty(&j).unwrap()).ok();
            };
            record(&o, &e0, i as u64);
            if std::env::var_os("VH_FAIL_FAST").is_some() {
                println!("FAIL sub={} case={} sig={}/{}", s.name, i, s.name, e0.sig);
                println!("VIOLATION property={} replay={}", prop, file);
                std::process::exit(1);
            }
            *pending.lock().unwrap() = Some((
                Instant::now(),
                vec![format!("FAIL sub={} case={} sig={}/{}", s.name, i, s.name, e0.sig), format!("VIOLATION property={} replay={}", prop, file)],
            ));
            // only shrink when the case does not depend on its index
            let re = run_case(s, orig.clone(), None, usize::MAX, thorough);
            let idx_free = matches!(&re.res, Err(e) if e.sig == e0.sig);
            let (best, idx) = if idx_free {
                (shrink(s, re, thorough, Instant::now() + std::time::Duration::from_secs(if violations.is_empty() { 20 } else { 5 })), u64::MAX)
            } else {
                (o, i as u64)
            };
            let e = best.res.as_ref().err().unwrap();
            *pending.lock().unwrap() = None;
            record(&best, e, idx);
            println!("FAIL sub={} case={} sig={}/{}", s.name, i, s.name, e.sig);
            println!("  {}", e.msg);
            println!("  input: {}", best.desc.chars().take(2000).collect::<String>());
            println!("VIOLATION property={} replay={}", prop, file);
            violations.push(format!("{}/{}", s.name, e.sig));
        }
    }
    for k in &known {
        // report each listed finding; `hits` says how many generated cases met it in this run
        println!("KNOWN-FINDING: property={} {} [{}] hits={}", prop, k.what, k.sig, known_hits.get(&k.sig).copied().unwrap_or(0));
    }
    let out = serde_json::json!({
        "property": prop, "tier": tier, "seed": seed, "variant": variant,
        "evaluations": evals, "distinct_nontrivial": distinct.len(), "rule": rule,
        "samples": samples, "labels": labels,
        "per_sub": per_sub.iter().map(|(k, v)| (k.clone(), serde_json::json!({"cases": v.0, "distinct_nontrivial": v.1}))).collect::<serde_json::Map<_, _>>(),
        "known_hits": known_hits, "violations": violations, "wall_s": t0.elapsed().as_secs_f64(),
    });
    if let Some(p) = get("--out") {
        std::fs::write(p, serde_json::to_string_pretty(&out).unwrap()).expect("write out");
    }
    if verbose {
        eprintln!("{}", serde_json::to_string_pretty(&out).unwrap());
    }
    println!("{} {} cases={} nontrivial={} violations={} wall={:.1}s", prop, variant, evals, distinct.len(), violations.len(), t0.elapsed().as_secs_f64());
    std::process::exit(if violations.is_empty() { 0 } else { 1 })
}
