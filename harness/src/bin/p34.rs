//! P34: the sequential and the multi-threaded build compute the same.
//! The multi-threaded binary draws the cases; the sequential one serves the same computation
//! on the same choices over a socket, and each verifies the other's proof.
use ark_bls12_381::Bls12_381;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use vharness::all::*;
use vharness::*;
use zkp_curve25519::Curve25519;

type Mk = fn(&mut Src, &Size) -> Result<Job, Fail>;
const KINDS: [(&str, Mk); 9] = [
    ("groth16", groth16),
    ("marlin", marlin),
    ("plonk", plonk),
    ("bulletproofs", bulletproofs::<Bls12_381>),
    ("spartan-nizk", nizk::<Bls12_381>),
    ("spartan-snark", snark::<Bls12_381>),
    ("libra", libra::<Bls12_381>),
    ("hyrax", hyrax::<Bls12_381>),
    ("spartan-nizk-25519", nizk::<Curve25519>),
];
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}
struct Made {
    keys: Vec<(&'static str, Vec<u8>)>,
    proof: Vec<u8>,
    own: bool,
    /// verdicts on the proofs handed in
    others: Vec<bool>,
}
/// everything derived from one choice of circuit, sizes and randomness
fn make(k: usize, size: usize, seed: u64, others: impl FnOnce(&[u8]) -> Vec<Vec<u8>>) -> Result<Made, String> {
    let mut s = Src::from_seed(seed);
    let z = Size { cons: size, aux: size, depth: 3, width: size.min(16).max(2), min_aux: 0, lc: if size > 100 || seed % 4 == 0 { 150 } else { 12 } };
    let j = (KINDS[k].1)(&mut s, &z).map_err(|e| format!("{}: {}", e.sig, e.msg))?;
    let mut rng = s.rng();
    let proof = (j.prove)(&mut rng)?;
    let own = j.accepts(&proof);
    let others = others(&proof).iter().map(|p| j.accepts(p)).collect();
    Ok(Made { keys: j.keys, proof, own, others })
}
fn serve(path: &str) -> ! {
    std::thread::spawn(|| {
        // ends with its parent
        let mut l = String::new();
        while std::io::stdin().read_line(&mut l).map(|n| n > 0).unwrap_or(false) {}
        std::process::exit(0)
    });
    let l = UnixListener::bind(path).expect("bind");
    for c in l.incoming() {
        let c = c.expect("accept");
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let mut w = c.try_clone().unwrap();
                for line in BufReader::new(c).lines() {
                    let line = match line {
                        Ok(l) => l,
                        Err(_) => break,
                    };
                    let q: Vec<&str> = line.split(' ').collect();
                    let (k, size, seed) = (q[0].parse().unwrap(), q[1].parse().unwrap(), q[2].parse().unwrap());
                    let given: Vec<Vec<u8>> = q[3..].iter().map(|h| unhex(h)).collect();
                    let r = quiet(|| make(k, size, seed, |_| given)).unwrap_or_else(|e| Err(format!("panic {}", e)));
                    let a = match r {
                        Err(e) => format!("err {}", e.replace('\n', " ")),
                        Ok(m) => format!(
                            "ok {} {} {} {}",
                            m.own,
                            m.others.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","),
                            hex(&m.proof),
                            m.keys.iter().map(|k| hex(&k.1)).collect::<Vec<_>>().join(",")
                        ),
                    };
                    if writeln!(w, "{}", a).is_err() {
                        break;
                    }
                }
            })
            .unwrap();
    }
    unreachable!()
}
fn peer_path() -> String {
    std::env::var("VERIF_PEER").unwrap_or_else(|_| {
        let here = std::env::var("VERIF_HERE").unwrap_or_else(|_| "/verif".into());
        format!("{}/target/seq/debug/p34", here)
    })
}
/// no verdict is possible
fn broken(m: &str) -> ! {
    println!("ERROR: {}", m);
    std::process::exit(2)
}
fn socket() -> &'static str {
    use std::sync::OnceLock;
    static S: OnceLock<String> = OnceLock::new();
    S.get_or_init(|| {
        let p = format!("{}/p34-{}.sock", std::env::temp_dir().display(), std::process::id());
        let _ = std::fs::remove_file(&p);
        let c = std::process::Command::new(peer_path()).arg("--serve").arg(&p).stdin(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap_or_else(|e| broken(&format!("the sequential build does not start: {}", e)));
        Box::leak(Box::new(c));
        p
    })
}
fn ask(q: &str) -> String {
    thread_local!(static C: RefCell<Option<BufReader<UnixStream>>> = RefCell::new(None));
    C.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            let p = socket();
            for _ in 0..600 {
                if let Ok(x) = UnixStream::connect(p) {
                    *c = Some(BufReader::new(x));
                    break;
                }
                std::thread::sleep(std::time::Duration::from_millis(50));
            }
        }
        let r = c.as_mut().unwrap_or_else(|| broken("no connection to the sequential build"));
        let mut l = String::new();
        if writeln!(r.get_mut(), "{}", q).is_err() || !matches!(r.read_line(&mut l), Ok(n) if n > 0) {
            broken("the sequential build ended");
        }
        l.trim_end().to_string()
    })
}
/// the sequential build has no pool
#[cfg(not(feature = "parallel"))]
struct Here;
#[cfg(not(feature = "parallel"))]
impl Here {
    fn install<T>(&self, f: impl FnOnce() -> T) -> T {
        f()
    }
}
#[cfg(not(feature = "parallel"))]
fn pool(_: usize) -> Here {
    Here
}
#[cfg(feature = "parallel")]
fn pool(threads: usize) -> std::sync::Arc<rayon::ThreadPool> {
    use std::collections::HashMap;
    thread_local!(static P: RefCell<HashMap<usize, std::sync::Arc<rayon::ThreadPool>>> = RefCell::new(HashMap::new()));
    P.with(|p| {
        p.borrow_mut()
            .entry(threads)
            .or_insert_with(|| std::sync::Arc::new(rayon::ThreadPoolBuilder::new().num_threads(threads).stack_size(16 << 20).build().unwrap()))
            .clone()
    })
}
fn same(s: &mut Src, k: usize, max: usize) -> R {
    let size = match s.below(4) {
        0 => s.range(1, 4),
        1 => ((1usize << s.range(1, 8)) + s.below(3)).saturating_sub(1).clamp(1, max),
        _ => s.range(1, max),
    };
    let seed = s.u64() & 0xffff_ffff;
    let threads = *s.pick(&[1usize, 2, 3, 4, 7, 8, 16]);
    s.note(format!("{} size {} threads {} seed {}", KINDS[k].0, size, threads, seed));
    s.label(format!("{} threads", threads));
    let again = s.chance(1, 4);
    let threads2 = *s.pick(&[1usize, 2, 5, 16]);
    // the multi-threaded computation; its proof goes to the sequential one, whose proof comes back
    let run = |threads: usize| {
        let (tx, rx) = std::sync::mpsc::channel::<Vec<u8>>();
        let (tb, rb) = std::sync::mpsc::channel::<Vec<Vec<u8>>>();
        let p = pool(threads);
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            p.install(move || {
                quiet(|| {
                    make(k, size, seed, |pr| {
                        tx.send(pr.to_vec()).unwrap();
                        rb.recv().unwrap_or_default()
                    })
                })
                .unwrap_or_else(|e| Err(format!("panic {}", e)))
            })
        });
        let pr = rx.recv().ok();
        let q = format!("{} {} {}{}", k, size, seed, pr.as_ref().map(|p| format!(" {}", hex(p))).unwrap_or_default());
        let a = ask(&q);
        let f: Vec<String> = a.split(' ').map(|x| x.to_string()).collect();
        let back = if f[0] == "ok" { vec![unhex(&f[3])] } else { vec![] };
        let _ = tb.send(back);
        (h.unwrap().join().unwrap_or_else(|_| Err("panic".into())), f)
    };
    for t in [Some(threads), if again { Some(threads2) } else { None }].into_iter().flatten() {
        let (par, f) = run(t);
        let m = match (par, f[0] == "ok") {
            (Err(e), false) => {
                s.label("both refuse");
                if e.starts_with("panic") != f[1].starts_with("panic") {
                    return fail("refusals", format!("multi-threaded: {}; sequential: {}", e, f[1..].join(" ")));
                }
                return Ok(());
            }
            (Err(e), true) => return fail("par-fails", format!("only the multi-threaded build fails: {}", e)),
            (Ok(_), false) => return fail("seq-fails", format!("only the sequential build fails: {}", f[1..].join(" "))),
            (Ok(m), true) => m,
        };
        let keys: Vec<&str> = f[4].split(',').collect();
        ensure!(keys.len() == m.keys.len(), "keys", "different numbers of keys");
        for (a, b) in m.keys.iter().zip(&keys) {
            ensure!(hex(&a.1) == *b, "keys-differ", "the {} differs with {} threads", a.0, t);
        }
        ensure!(hex(&m.proof) == f[3], "proofs-differ", "the proofs differ with {} threads", t);
        ensure!(m.own && f[1] == "true", "rejected", "an honest proof is refused: multi-threaded {}, sequential {}", m.own, f[1]);
        ensure!(m.others == [true] && f[2] == "true", "cross-rejected", "the other build's proof is refused");
    }
    s.nontrivial();
    Ok(())
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if let Some(i) = a.iter().position(|x| x == "--serve") {
        install_hook();
        serve(&a[i + 1]);
    }
    vharness::main(
        "P34",
        "A case is a proof system, a random statement of random size, randomness and a number of worker threads; non-trivial = both builds made keys and a proof.",
        vec![
            sub("groth16", 60, 2000, |s| same(s, 0, 40)),
            sub("groth16-large", 30, 300, |s| same(s, 0, 600)),
            sub("marlin", 40, 1200, |s| same(s, 1, 24)),
            sub("marlin-large", 14, 150, |s| same(s, 1, 260)),
            sub("plonk", 60, 2000, |s| same(s, 2, 30)),
            sub("plonk-large", 10, 150, |s| same(s, 2, 500)),
            sub("bulletproofs", 16, 400, |s| same(s, 3, 8)),
            sub("bulletproofs-large", 4, 100, |s| same(s, 3, 40)),
            sub("spartan-nizk", 12, 300, |s| same(s, 4, 8)),
            sub("spartan-snark", 6, 150, |s| same(s, 5, 6)),
            sub("libra", 12, 300, |s| same(s, 6, 6)),
            sub("hyrax", 12, 300, |s| same(s, 7, 6)),
            sub("spartan-nizk-25519", 20, 500, |s| same(s, 8, 8)),
            sub("spartan-nizk-25519-large", 8, 200, |s| same(s, 8, 70)),
            sub("libra-large", 4, 100, |s| same(s, 6, 16)),
            sub("hyrax-large", 4, 100, |s| same(s, 7, 16)),
        ],
    )
}
