//! P36: the native MiMC, Rescue and Poseidon digests are the fixed functions their constructions define.
use vharness::wit::Fld;
use vharness::*;
use zkp_gadgets::hashes::{mimc, poseidon, rescue};

/// the published tables, as decimal numbers
struct Tables<F> {
    ark: Vec<[F; 3]>,
    mds: [[F; 3]; 3],
}
fn tables<F: Fld>(name: &str) -> Tables<F> {
    let get = |kind: &str| -> Vec<[F; 3]> {
        let l = include_str!("../hash_constants.txt").lines().find(|l| l.starts_with(&format!("{} {}", name, kind))).expect("table");
        let v: Vec<F> = l.split(' ').skip(2).map(|d| d.bytes().fold(F::zero(), |a, c| a * F::from(10u64) + F::from((c - b'0') as u64))).collect();
        v.chunks(3).map(|c| [c[0], c[1], c[2]]).collect()
    };
    let m = get("mds");
    Tables { ark: get("ark"), mds: [m[0], m[1], m[2]] }
}
/// x to the power of a number in 64-bit limbs, least significant first
fn power<F: Fld>(x: F, e: &[u64]) -> F {
    let mut r = F::one();
    for i in (0..64 * e.len()).rev() {
        r = r * r;
        if e[i / 64] >> (i % 64) & 1 == 1 {
            r *= x;
        }
    }
    r
}
fn mix<F: Fld>(m: &[[F; 3]; 3], v: [F; 3]) -> [F; 3] {
    let row = |r: &[F; 3]| r[0] * v[0] + r[1] * v[1] + r[2] * v[2];
    [row(&m[0]), row(&m[1]), row(&m[2])]
}
fn poseidon_model<F: Fld>(t: &Tables<F>, l: F, r: F) -> F {
    let mut v = [l, r, F::zero()];
    for (i, c) in t.ark.iter().enumerate() {
        for j in 0..3 {
            v[j] += c[j];
        }
        // the middle round is the partial one
        for j in if i == 4 { 2..3 } else { 0..3 } {
            v[j] = power(v[j], &[5]);
        }
        v = mix(&t.mds, v);
    }
    v[0]
}
fn rescue_model<F: Fld>(t: &Tables<F>, l: F, r: F) -> F {
    // the inverse of 5 modulo the order of the multiplicative group the tables are made for
    const INV: [u64; 4] = [0xcfe7f7a98ccccccd, 0x535cb9d394945a0d, 0x93736af8679aad17, 0x26b6a528b427b354];
    let mut v = [l + t.ark[0][0], r + t.ark[0][1], t.ark[0][2]];
    for (i, c) in t.ark[1..].iter().enumerate() {
        for x in v.iter_mut() {
            *x = if i % 2 == 0 { power(*x, &[5]) } else { power(*x, &INV) };
        }
        v = mix(&t.mds, v);
        for j in 0..3 {
            v[j] += c[j];
        }
    }
    v[0]
}
fn mimc_constants<F: Fld>() -> Vec<F> {
    use rand::{Rng, SeedableRng};
    let mut g = rand::rngs::StdRng::from_seed([0; 32]);
    let mut v = vec![];
    while v.len() < 322 {
        let b: [u8; 32] = g.gen();
        v.extend(F::from_random_bytes(&b));
    }
    v
}
fn mimc_model<F: Fld>(c: &[F], mut l: F, mut r: F) -> F {
    for c in c {
        let t = l + c;
        let n = t * t * t + r;
        r = l;
        l = n;
    }
    l
}
fn element<F: Fld>(b: &[u8]) -> F {
    b.iter().rev().fold(F::zero(), |a, x| a * F::from(256u64) + F::from(*x as u64))
}
struct Model<F> {
    name: &'static str,
    p: Option<Tables<F>>,
    c: Vec<F>,
}
impl<F: Fld> Model<F> {
    fn new(k: usize) -> Self {
        match k {
            0 => Model { name: "mimc", p: None, c: mimc_constants() },
            1 => Model { name: "rescue", p: Some(tables("rescue")), c: vec![] },
            _ => Model { name: "poseidon", p: Some(tables("poseidon")), c: vec![] },
        }
    }
    fn block(&self, l: F, r: F) -> F {
        match self.name {
            "mimc" => mimc_model(&self.c, l, r),
            "rescue" => rescue_model(self.p.as_ref().unwrap(), l, r),
            _ => poseidon_model(self.p.as_ref().unwrap(), l, r),
        }
    }
    fn hash(&self, m: &[u8]) -> F {
        if m.is_empty() {
            return self.block(F::zero(), F::zero());
        }
        m.chunks(32).fold(F::zero(), |h, c| self.block(h, element(c)))
    }
}
fn real<F: Fld>(k: usize, b: &[u8]) -> F {
    match k {
        0 => mimc::hash(b),
        1 => rescue::hash(b),
        _ => poseidon::hash(b),
    }
}
fn message(s: &mut Src, max: usize) -> Vec<u8> {
    let n = match s.below(4) {
        0 => *s.pick(&[0usize, 1, 31, 32, 33, 63, 64, 65, 96, 97]),
        1 => s.range(0, 40),
        _ => s.range(0, max),
    }
    .min(max);
    match s.below(6) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|i| if i % 32 == 31 { 0xff } else { s.u64() as u8 }).collect(),
        _ => (0..n).map(|_| s.u64() as u8).collect(),
    }
}
fn digest<F: Fld>(s: &mut Src, k: usize, m: &Model<F>, max: usize) -> R {
    for _ in 0..4 {
        let b = message(s, max);
        s.note(&format!("{} of {:02x?}", m.name, b));
        s.label(format!("{} {} chunks", m.name, (b.len() + 31) / 32));
        if !b.is_empty() {
            s.nontrivial();
        }
        match quiet(|| real::<F>(k, &b)) {
            Ok(h) => ensure!(h == m.hash(&b), "digest", "{} of {} bytes is {}, not {}", m.name, b.len(), h, m.hash(&b)),
            Err(e) => return fail("panic", format!("hashing {} bytes panics: {}", b.len(), e)),
        }
    }
    Ok(())
}
/// single blocks of chosen elements, and the constants handed out to callers
fn block<F: Fld>(s: &mut Src, k: usize, m: &Model<F>) -> R {
    let (l, r) = (s.field::<F>(), s.field::<F>());
    s.note(&format!("{} block of {} and {}", m.name, l, r));
    s.nontrivial();
    let got = match k {
        1 => rescue::rescue_block(l, r, &rescue::constants::<F>()),
        _ => poseidon::poseidon_block(l, r, &poseidon::constants::<F>()),
    };
    ensure!(got == m.block(l, r), "block", "the {} block of {} and {}", m.name, l, r);
    // other constants are used as they are given
    let mut t = tables::<F>(m.name);
    let (i, j) = (s.below(t.ark.len()), s.below(3));
    let d = s.nonzero::<F>();
    let got = if k == 1 {
        let mut c = rescue::constants::<F>();
        if s.bool() {
            c.constants[i][j] += d;
            t.ark[i][j] += d;
        } else {
            c.mds[i % 3][j] += d;
            t.mds[i % 3][j] += d;
        }
        (rescue::rescue_block(l, r, &c), rescue_model(&t, l, r))
    } else {
        let mut c = poseidon::constants::<F>();
        if s.bool() {
            c.ark[i][j] += d;
            t.ark[i][j] += d;
        } else {
            c.mds[i % 3][j] += d;
            t.mds[i % 3][j] += d;
        }
        (poseidon::poseidon_block(l, r, &c), poseidon_model(&t, l, r))
    };
    ensure!(got.0 == got.1, "constants", "a changed {} constant {} {} is not used as given", m.name, i, j);
    Ok(())
}
type F = ark_bls12_381::Fr;
type K = <zkp_curve25519::Curve25519 as zkp_curve::Curve>::Fr;
fn of_f(k: usize) -> &'static Model<F> {
    static M: std::sync::OnceLock<Vec<Model<F>>> = std::sync::OnceLock::new();
    &M.get_or_init(|| (0..3).map(Model::new).collect())[k]
}
fn of_k(k: usize) -> &'static Model<K> {
    static M: std::sync::OnceLock<Vec<Model<K>>> = std::sync::OnceLock::new();
    &M.get_or_init(|| (0..3).map(Model::new).collect())[k]
}
fn main() {
    vharness::main(
        "P36",
        "a message of at least one byte, or a block of two generated elements",
        vec![
            sub("mimc", 1500, 10000, |s| digest(s, 0, of_f(0), 300)),
            sub("mimc-25519", 150, 4000, |s| digest(s, 0, of_k(0), 300)),
            sub("rescue", 300, 2000, |s| digest(s, 1, of_f(1), 200)),
            sub("rescue-25519", 40, 1000, |s| digest(s, 1, of_k(1), 200)),
            sub("poseidon", 1500, 6000, |s| digest(s, 2, of_f(2), 300)),
            sub("poseidon-25519", 100, 3000, |s| digest(s, 2, of_k(2), 300)),
            sub("rescue-block", 80, 2000, |s| block(s, 1, of_f(1))),
            sub("poseidon-block", 100, 2000, |s| block(s, 2, of_f(2))),
        ],
    )
}
