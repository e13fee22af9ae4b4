//! Programs of Plonk composer operations, their plain meaning, and a prover of our own.
use crate::tree::*;
use crate::*;
use ark_bls12_381::{Bls12_381, Fr, G1Affine, G2Affine};
use ark_ff::{Field, One, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly_commit::marlin_pc::MarlinKZG10;
use blake2::Blake2s;
use std::collections::HashMap;
use std::sync::Mutex;
pub use zkp_plonk::{Composer, ProverKey, VerifierKey};

pub type PC = MarlinKZG10<Bls12_381, DensePolynomial<Fr>>;
pub type Plonk = zkp_plonk::Plonk<Fr, Blake2s, PC>;
pub type PK = ProverKey<Fr, PC>;
pub type VK = VerifierKey<Fr, PC>;
pub type Proof = zkp_plonk::Proof<Fr, PC>;
pub const PROOF: &str = "{c:[[{c:g,s:?g}]],e:[f],o:{p:[{w:g,r:?f}],e:?[f]}}";

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Add { l: usize, ql: Fr, r: usize, qr: Fr, o: usize, aux: Option<(usize, Fr)>, qc: Fr, pi: Fr },
    Mul { l: usize, r: usize, o: usize, aux: Option<(usize, Fr)>, qm: Fr, qc: Fr, pi: Fr },
    Const { v: usize, value: Fr, pi: Fr },
    Eq { l: usize, r: usize },
}
#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub vals: Vec<Fr>,
    pub ops: Vec<Op>,
}
impl Op {
    /// the documented meaning of each operation
    pub fn residue(&self, v: &[Fr]) -> Fr {
        let a = |x: &Option<(usize, Fr)>| x.map_or(Fr::zero(), |(i, q)| v[i] * q);
        match self {
            Op::Add { l, ql, r, qr, o, aux, qc, pi } => *ql * v[*l] + *qr * v[*r] - v[*o] + a(aux) + qc + pi,
            Op::Mul { l, r, o, aux, qm, qc, pi } => *qm * v[*l] * v[*r] - v[*o] + a(aux) + qc + pi,
            Op::Const { v: i, value, pi } => v[*i] - value - pi,
            Op::Eq { l, r } => v[*l] - v[*r],
        }
    }
    pub fn wires(&mut self) -> Vec<&mut usize> {
        match self {
            Op::Add { l, r, o, aux, .. } | Op::Mul { l, r, o, aux, .. } => {
                let mut w = vec![l, r, o];
                if let Some((i, _)) = aux {
                    w.push(i);
                }
                w
            }
            Op::Const { v, .. } => vec![v],
            Op::Eq { l, r } => vec![l, r],
        }
    }
    pub fn coeffs(&mut self) -> Vec<(&'static str, &mut Fr)> {
        match self {
            Op::Add { ql, qr, aux, qc, pi, .. } => {
                let mut w = vec![("ql", ql), ("qr", qr), ("qc", qc), ("pi", pi)];
                if let Some((_, q)) = aux {
                    w.push(("qaux", q));
                }
                w
            }
            Op::Mul { qm, aux, qc, pi, .. } => {
                let mut w = vec![("qm", qm), ("qc", qc), ("pi", pi)];
                if let Some((_, q)) = aux {
                    w.push(("qaux", q));
                }
                w
            }
            Op::Const { value, pi, .. } => vec![("value", value), ("pi", pi)],
            Op::Eq { .. } => vec![],
        }
    }
}
impl Prog {
    pub fn sat(&self) -> bool {
        self.ops.iter().all(|o| o.residue(&self.vals).is_zero())
    }
    pub fn build(&self) -> Composer<Fr> {
        let mut c = Composer::new();
        let v: Vec<_> = self.vals.iter().map(|x| c.alloc_and_assign(*x)).collect();
        for o in &self.ops {
            match o {
                Op::Add { l, ql, r, qr, o, aux, qc, pi } => c.create_add_gate((v[*l], *ql), (v[*r], *qr), v[*o], aux.map(|(i, q)| (v[i], q)), *qc, *pi),
                Op::Mul { l, r, o, aux, qm, qc, pi } => c.create_mul_gate(v[*l], v[*r], v[*o], aux.map(|(i, q)| (v[i], q)), *qm, *qc, *pi),
                Op::Const { v: i, value, pi } => c.constrain_to_constant(v[*i], *value, *pi),
                Op::Eq { l, r } => c.assert_equal(v[*l], v[*r]),
            }
        }
        c
    }
    pub fn describe(&self) -> String {
        let c = |x: &Fr| {
            let t = format!("{}", x);
            if x.is_zero() { "0".into() } else if x.is_one() { "1".into() } else { format!("#{}", &t[t.len().saturating_sub(6)..t.len() - 1]) }
        };
        self.ops
            .iter()
            .take(12)
            .map(|o| match o {
                Op::Add { l, ql, r, qr, o, aux, qc, pi } => format!("add {}*v{}+{}*v{}-v{}{}+{}+pi {}", c(ql), l, c(qr), r, o, aux.map_or(String::new(), |(i, q)| format!("+{}*v{}", c(&q), i)), c(qc), c(pi)),
                Op::Mul { l, r, o, aux, qm, qc, pi } => format!("mul {}*v{}*v{}-v{}{}+{}+pi {}", c(qm), l, r, o, aux.map_or(String::new(), |(i, q)| format!("+{}*v{}", c(&q), i)), c(qc), c(pi)),
                Op::Const { v, value, pi } => format!("const v{}={}+pi {}", v, c(value), c(pi)),
                Op::Eq { l, r } => format!("v{}==v{}", l, r),
            })
            .collect::<Vec<_>>()
            .join("; ")
    }
}
fn coef(s: &mut Src) -> Fr {
    match s.below(4) {
        0 => Fr::zero(),
        1 => Fr::one(),
        2 => -Fr::one(),
        _ => s.field(),
    }
}
/// a satisfied program with between `min` and `max` gates
pub fn gen_prog(s: &mut Src, min: usize, max: usize) -> Prog {
    let n = s.range(min, max);
    let mut p = Prog::default();
    let nv = s.range(1, 6);
    for _ in 0..nv {
        let v = s.field();
        p.vals.push(v);
    }
    // sharing styles: few variables reused a lot, or many used once
    let fresh = s.below(4);
    for _ in 0..n {
        let var = |s: &mut Src, p: &mut Prog| -> usize {
            if fresh == 3 || (fresh > 0 && s.chance(1, 3)) {
                let v = s.field();
                p.vals.push(v);
                p.vals.len() - 1
            } else {
                s.below(p.vals.len())
            }
        };
        let aux = if s.chance(1, 3) { Some((var(s, &mut p), coef(s))) } else { None };
        let (l, r) = (var(s, &mut p), var(s, &mut p));
        let (qc, pi) = (if s.chance(1, 3) { coef(s) } else { Fr::zero() }, if s.chance(1, 3) { s.field() } else { Fr::zero() });
        // close: the output, the constant or the public input takes up the difference
        let close = s.below(4);
        let mut op = match s.below(8) {
            0..=2 => Op::Add { l, ql: coef(s), r, qr: coef(s), o: 0, aux, qc, pi },
            3..=5 => Op::Mul { l, r, o: 0, aux, qm: coef(s), qc, pi },
            6 => {
                let v = p.vals[l];
                if s.bool() {
                    Op::Const { v: l, value: v - pi, pi }
                } else {
                    Op::Const { v: l, value: qc, pi: v - qc }
                }
            }
            _ => {
                let r = if s.bool() {
                    let v = p.vals[l];
                    p.vals.push(v);
                    p.vals.len() - 1
                } else {
                    l
                };
                if s.bool() { Op::Eq { l, r } } else { Op::Eq { l: r, r: l } }
            }
        };
        match &mut op {
            Op::Add { .. } | Op::Mul { .. } => {
                if close < 2 {
                    // fresh output
                    p.vals.push(Fr::zero());
                    let k = p.vals.len() - 1;
                    *op.wires()[2] = k;
                    let v = op.residue(&p.vals);
                    p.vals[k] = v;
                } else {
                    let k = s.below(p.vals.len());
                    *op.wires()[2] = k;
                    let d = op.residue(&p.vals);
                    let name = if close == 2 { "qc" } else { "pi" };
                    for (nm, c) in op.coeffs() {
                        if nm == name {
                            *c -= d;
                        }
                    }
                }
            }
            _ => {}
        }
        p.ops.push(op);
    }
    debug_assert!(p.sat());
    s.note(p.describe());
    if p.ops.iter().any(|o| matches!(o, Op::Mul { .. } | Op::Add { .. })) {
        s.nontrivial();
    }
    p
}
/// keys: distinct cosets
pub fn gen_ks(s: &mut Src) -> [Fr; 4] {
    if s.chance(3, 4) {
        [Fr::one(), Fr::from(7u64), Fr::from(13u64), Fr::from(17u64)]
    } else {
        s.label("random cosets");
        [s.rand_field(), s.rand_field(), s.rand_field(), s.rand_field()]
    }
}
pub fn srs(deg: usize) -> &'static zkp_plonk::UniversalParams<Fr, PC> {
    use rand::SeedableRng;
    static M: Mutex<Option<HashMap<usize, usize>>> = Mutex::new(None);
    let mut m = M.lock().unwrap_or_else(|e| e.into_inner());
    let p = *m.get_or_insert_with(HashMap::new).entry(deg).or_insert_with(|| {
        let mut r = rand::rngs::StdRng::seed_from_u64(deg as u64);
        let u = Plonk::setup(deg, &mut r).expect("universal setup");
        Box::leak(Box::new(u)) as *const _ as usize
    });
    unsafe { &*(p as *const zkp_plonk::UniversalParams<Fr, PC>) }
}
/// the smallest string the circuit fits, or a larger one
pub fn keys(s: &mut Src, p: &Prog, ks: [Fr; 4]) -> Result<(PK, VK), Fail> {
    let n = p.ops.len().max(1).next_power_of_two();
    let d = match s.below(6) {
        0 => 2 * n,
        1 => n + 1,
        _ => n,
    };
    keys_in(srs(d), p, ks)
}
pub fn keys_in(srs: &zkp_plonk::UniversalParams<Fr, PC>, p: &Prog, ks: [Fr; 4]) -> Result<(PK, VK), Fail> {
    Plonk::keygen(srs, &p.build(), ks).map_err(|e| Fail { sig: "setup-error".into(), msg: format!("{:?}", e) })
}
pub fn accepts(vk: &VK, x: &[Fr], p: &[u8]) -> bool {
    match de::<Proof>(p) {
        None => false,
        Some(p) => matches!(quiet(|| Plonk::verify(vk, x, p)), Ok(Ok(true))),
    }
}
pub fn proof_ops() -> Ops {
    ops2::<G1Affine, G2Affine>()
}
pub fn pow(x: Fr, n: usize) -> Fr {
    x.pow(&[n as u64])
}

// ------------------------------------------------------------ our own (cheating) prover
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{to_bytes, UniformRand};
use ark_poly::{EvaluationDomain, Evaluations as Evs, GeneralEvaluationDomain, Polynomial, UVPolynomial};
use ark_poly_commit::{LabeledCommitment, LabeledPolynomial, LinearCombination, PolynomialCommitment, QuerySet};
use blake2::Digest;
use rand::{RngCore, SeedableRng};

#[derive(Clone)]
pub struct Fs {
    seed: Vec<u8>,
    r: rand_chacha::ChaChaRng,
}
impl Fs {
    fn of(seed: Vec<u8>) -> Fs {
        let mut a = [0u8; 32];
        a.copy_from_slice(&seed[..32]);
        Fs { seed, r: rand_chacha::ChaChaRng::from_seed(a) }
    }
    pub fn new(b: &[u8]) -> Fs {
        Fs::of(Blake2s::digest(b).to_vec())
    }
    pub fn absorb(&mut self, b: &[u8]) {
        let mut v = b.to_vec();
        v.extend(&self.seed);
        *self = Fs::of(Blake2s::digest(&v).to_vec());
    }
    pub fn f(&mut self) -> Fr {
        Fr::rand(&mut self.r)
    }
}
type Dp = DensePolynomial<Fr>;
thread_local!(static LOG: std::cell::RefCell<Vec<Vec<u8>>> = std::cell::RefCell::new(vec![]));
/// Blake2s that keeps what it is given
#[derive(Clone, Default)]
pub struct Rec {
    d: Blake2s,
    b: Vec<u8>,
}
impl digest::Update for Rec {
    fn update(&mut self, x: impl AsRef<[u8]>) {
        self.b.extend(x.as_ref());
        digest::Update::update(&mut self.d, x);
    }
}
impl digest::FixedOutput for Rec {
    type OutputSize = <Blake2s as digest::FixedOutput>::OutputSize;
    fn finalize_into(self, out: &mut digest::generic_array::GenericArray<u8, Self::OutputSize>) {
        LOG.with(|l| l.borrow_mut().push(self.b));
        digest::FixedOutput::finalize_into(self.d, out)
    }
    fn finalize_into_reset(&mut self, out: &mut digest::generic_array::GenericArray<u8, Self::OutputSize>) {
        LOG.with(|l| l.borrow_mut().push(std::mem::take(&mut self.b)));
        digest::FixedOutput::finalize_into_reset(&mut self.d, out)
    }
}
impl digest::Reset for Rec {
    fn reset(&mut self) {
        self.b.clear();
        digest::Reset::reset(&mut self.d)
    }
}
pub type PlonkRec = zkp_plonk::Plonk<Fr, Rec, PC>;
/// everything hashed while f runs, one entry per digest
pub fn hashed<T>(f: impl FnOnce() -> T) -> (Option<T>, Vec<Vec<u8>>) {
    LOG.with(|l| l.borrow_mut().clear());
    let r = quiet(f).ok();
    (r, LOG.with(|l| std::mem::take(&mut *l.borrow_mut())))
}
/// what the verifier hashes before it looks at the proof
pub fn statement(vk: &VK, x: &[Fr], any: &[u8]) -> Option<Vec<u8>> {
    let p = de::<Proof>(any)?;
    hashed(|| PlonkRec::verify(vk, x, p)).1.into_iter().next()
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cheat {
    Honest,
    /// break one gate, divide anyway
    Gate,
    /// break one copy, divide anyway
    Wire,
    /// break one copy, zero grand product
    ZeroZ,
    /// grand product that starts elsewhere
    OffsetZ,
    /// break one gate, and lie about one evaluation so that the equation holds
    Lie(usize),
    /// openings that cancel under guessed batching randomness
    Cancel(u8),
    /// all commitments in the last round
    Regroup,
    /// the transcript leaves something out
    SkipPubs,
    SkipFirst,
    SkipSecond,
    SkipThird,
    SkipEvals,
}
pub const CHEATS: &[Cheat] = &[
    Cheat::Gate, Cheat::Wire, Cheat::ZeroZ, Cheat::OffsetZ, Cheat::Lie(0), Cheat::Lie(1), Cheat::Lie(2), Cheat::Lie(3), Cheat::Lie(4), Cheat::Lie(5), Cheat::Lie(10),
    Cheat::Cancel(0), Cheat::Cancel(1), Cheat::Regroup, Cheat::SkipPubs, Cheat::SkipFirst, Cheat::SkipSecond, Cheat::SkipThird, Cheat::SkipEvals,
];
fn lc(l: &str, t: Vec<(Fr, &str)>) -> LinearCombination<Fr> {
    LinearCombination::new(l, t)
}
/// A satisfied program with two more gates that pin one variable; the second one wrongly unless
/// the cheat needs a true statement.
pub fn cheat_prog(base: &Prog, s: &mut Src, c: Cheat) -> Prog {
    let mut p = base.clone();
    let v = s.below(p.vals.len());
    let val = p.vals[v];
    let d: Fr = if matches!(c, Cheat::Honest | Cheat::SkipPubs) { Fr::zero() } else { s.nonzero() };
    p.ops.push(Op::Const { v, value: val, pi: Fr::zero() });
    p.ops.push(Op::Const { v, value: val + d, pi: Fr::zero() });
    p
}
/// proof bytes and the public inputs they claim; None: the cheat does not work out here
pub fn forge(s: &mut Src, c: Cheat, p: &Prog, pk: &PK, any: &[u8], rng: &mut TapeRng) -> Option<(Vec<Fr>, Vec<u8>)> {
    let d = GeneralEvaluationDomain::<Fr>::new(p.ops.len())?;
    let n = d.size();
    let ks = pk.vk.info.ks;
    let roots: Vec<Fr> = d.elements().collect();
    let interp = |v: &[Fr]| -> Dp { Evs::from_vec_and_domain(v.to_vec(), d).interpolate() };
    let idx: HashMap<String, Dp> = pk.index.iter().map(|l| (l.label().to_string(), l.polynomial().clone())).collect();
    let row = |l: &str, i: usize| idx[l].evaluate(&roots[i]);
    // cells and public inputs as the composer lays them out
    let mut w: Vec<Vec<Fr>> = vec![vec![Fr::zero(); n]; 4];
    let mut pi = vec![];
    for (i, o) in p.ops.iter().enumerate() {
        let g = |k: usize| p.vals[k];
        let (a, b, cc, e, x) = match o {
            Op::Add { l, r, o, aux, pi, .. } | Op::Mul { l, r, o, aux, pi, .. } => (aux.map_or(Fr::zero(), |(k, _)| g(k)), g(*l), g(*r), g(*o), *pi),
            Op::Const { v, pi, .. } => (Fr::zero(), g(*v), g(*v), g(*v), -*pi),
            Op::Eq { l, r } => (Fr::zero(), g(*l), g(*r), Fr::zero(), Fr::zero()),
        };
        w[0][i] = a;
        w[1][i] = b;
        w[2][i] = cc;
        w[3][i] = e;
        pi.push(x);
    }
    let last = p.ops.len() - 1;
    let bad = match &p.ops[last] {
        Op::Const { value, .. } => *value,
        _ => return None,
    };
    let break_wire = matches!(c, Cheat::Wire | Cheat::ZeroZ | Cheat::Regroup | Cheat::SkipFirst | Cheat::OffsetZ);
    if break_wire {
        w[1][last] = bad;
    }
    let skip = |x: Cheat| c == x;
    // the transcript
    let mut fs = Fs::new(&statement(&pk.vk, &pi, any)?);
    let commit = |l: Vec<(&str, Dp)>| -> (Vec<LabeledPolynomial<Fr, Dp>>, Vec<LabeledCommitment<<PC as PolynomialCommitment<Fr, Dp>>::Commitment>>, Vec<<PC as PolynomialCommitment<Fr, Dp>>::Randomness>) {
        let ps: Vec<_> = l.into_iter().map(|(n, p)| LabeledPolynomial::new(n.to_string(), p, None, None)).collect();
        let (cs, rs) = PC::commit(&pk.ck, ps.iter(), None).expect("commit");
        (ps, cs, rs)
    };
    let bytes = |c: &Vec<LabeledCommitment<<PC as PolynomialCommitment<Fr, Dp>>::Commitment>>| to_bytes![c].unwrap();
    let early = skip(Cheat::SkipFirst) || skip(Cheat::Regroup);
    let names = ["w_0", "w_1", "w_2", "w_3"];
    let mut pre = None;
    if early {
        if skip(Cheat::Regroup) {
            fs.absorb(&[]);
        }
        let (beta, gamma) = (fs.f(), fs.f());
        // a cell no gate reads takes up the difference
        let mut rest = Fr::one();
        for j in 0..4 {
            for i in 0..n {
                if (j, i) != (0, last) {
                    let den = w[j][i] + beta * row(["sigma_0", "sigma_1", "sigma_2", "sigma_3"][j], i) + gamma;
                    rest *= (w[j][i] + beta * ks[j] * roots[i] + gamma) * den.inverse()?;
                }
            }
        }
        let (a, b) = (beta * ks[0] * roots[last] + gamma, beta * row("sigma_0", last) + gamma);
        let ri = rest.inverse()?;
        w[0][last] = (b * ri - a) * (Fr::one() - ri).inverse()?;
        pre = Some((beta, gamma));
    }
    let wp: Vec<Dp> = w.iter().map(|v| interp(v)).collect();
    let (p1, c1, r1) = commit((0..4).map(|j| (names[j], wp[j].clone())).collect());
    let (beta, gamma) = match pre {
        Some(x) => x,
        None => {
            fs.absorb(&bytes(&c1));
            (fs.f(), fs.f())
        }
    };
    let num = |i: usize| (0..4).fold(Fr::one(), |a, j| a * (w[j][i] + beta * ks[j] * roots[i] + gamma));
    let den = |i: usize| (0..4).fold(Fr::one(), |a, j| a * (w[j][i] + beta * row(["sigma_0", "sigma_1", "sigma_2", "sigma_3"][j], i) + gamma));
    let mut pin = pi.clone();
    pin.resize(n, Fr::zero());
    let arith = |i: usize| row("q_arith", i) * (row("q_0", i) * w[0][i] + row("q_1", i) * w[1][i] + row("q_2", i) * w[2][i] + row("q_3", i) * w[3][i] + row("q_m", i) * w[1][i] * w[2][i] + row("q_c", i) + pin[i]);
    let mut alpha = None;
    let mut z = vec![Fr::zero(); n];
    match c {
        Cheat::ZeroZ => {}
        Cheat::SkipSecond => {
            let al = fs.f();
            alpha = Some(al);
            let (mut a, mut b) = (Fr::one(), Fr::zero());
            let mut ab = vec![];
            for i in 0..n {
                ab.push((a, b));
                let di = den(i).inverse()?;
                let (mut a2, mut b2) = (num(i) * a, num(i) * b + arith(i) * al.inverse()?);
                if i == 0 {
                    a2 += al;
                    b2 -= al;
                }
                a = a2 * di;
                b = b2 * di;
            }
            let z0 = b * (Fr::one() - a).inverse()?;
            for i in 0..n {
                z[i] = ab[i].0 * z0 + ab[i].1;
            }
        }
        _ => {
            z[0] = if c == Cheat::OffsetZ { s.nonzero() } else { Fr::one() };
            for i in 0..n - 1 {
                z[i + 1] = z[i] * num(i) * den(i).inverse()?;
            }
        }
    }
    let zp = interp(&z);
    let (p2, c2, r2) = commit(vec![("z", zp.clone())]);
    let alpha = match alpha {
        Some(a) => a,
        None => {
            fs.absorb(&if c == Cheat::Regroup { vec![] } else { bytes(&c2) });
            fs.f()
        }
    };
    // quotient
    let con = |x: Fr| Dp::from_coefficients_vec(vec![x]);
    let pip = interp(&pin);
    let inner = &(&(&(&idx["q_0"] * &wp[0]) + &(&idx["q_1"] * &wp[1])) + &(&(&idx["q_2"] * &wp[2]) + &(&idx["q_3"] * &wp[3]))) + &(&(&(&idx["q_m"] * &(&wp[1] * &wp[2])) + &idx["q_c"]) + &pip);
    let ar = &idx["q_arith"] * &inner;
    let mut zs = zp.coeffs.clone();
    let mut g = Fr::one();
    for x in zs.iter_mut() {
        *x *= g;
        g *= roots[1 % n];
    }
    let zs = Dp::from_coefficients_vec(zs);
    let (mut a, mut b) = (zp.clone(), zs.clone());
    for j in 0..4 {
        a = &a * &(&wp[j] + &Dp::from_coefficients_vec(vec![gamma, beta * ks[j]]));
        let sg = &idx[["sigma_0", "sigma_1", "sigma_2", "sigma_3"][j]];
        b = &b * &(&(&wp[j] + &(sg * &con(beta))) + &con(gamma));
    }
    let mut l1 = vec![Fr::zero(); n];
    l1[0] = Fr::one();
    let l1 = interp(&l1);
    let nn = &(&ar + &(&(&a - &b) * &con(alpha))) + &(&(&l1 * &(&zp - &con(Fr::one()))) * &con(alpha * alpha));
    let (t, rem) = nn.divide_by_vanishing_poly(d)?;
    if c == Cheat::Honest && !rem.is_zero() {
        return None;
    }
    let mut tc = t.coeffs.clone();
    tc.resize((4 * n).max(tc.len()), Fr::zero());
    let mut ts: Vec<Dp> = (0..4).map(|k| Dp::from_coefficients_vec(tc[k * n..(k + 1) * n].to_vec())).collect();
    let mut zeta = None;
    let alg = |zeta: Fr, ts: &[Dp]| {
        let e = |p: &Dp| p.evaluate(&zeta);
        let zn = pow(zeta, n);
        let l1z = e(&l1);
        let we: Vec<Fr> = wp.iter().map(|x| e(x)).collect();
        let zsh = zs.evaluate(&zeta);
        let se: Vec<Fr> = (0..3).map(|j| e(&idx[["sigma_0", "sigma_1", "sigma_2"][j]])).collect();
        let qa = e(&idx["q_arith"]);
        let tz = (0..4).fold(Fr::zero(), |acc, k| acc + pow(zn, k) * e(&ts[k]));
        (we, zsh, se, qa, tz, l1z, zn)
    };
    let rz = |we: &[Fr], zsh: Fr, se: &[Fr], qa: Fr, l1z: Fr, zeta: Fr| {
        let num = (0..4).fold(Fr::one(), |a, j| a * (we[j] + ks[j] * beta * zeta + gamma));
        let den = (0..3).fold(Fr::one(), |a, j| a * (we[j] + beta * se[j] + gamma)) * beta * zsh;
        vec![
            (qa * we[0], "q_0"), (qa * we[1], "q_1"), (qa * we[2], "q_2"), (qa * we[3], "q_3"), (qa * we[1] * we[2], "q_m"), (qa, "q_c"),
            (num * alpha + l1z * alpha * alpha, "z"), (-den * alpha, "sigma_3"),
        ]
    };
    // the right hand side of the verifier's equation
    let rhs = |r: Fr, we: &[Fr], zsh: Fr, se: &[Fr], qa: Fr, l1z: Fr, piz: Fr| r + qa * piz - zsh * (0..3).fold(Fr::one(), |a, j| a * (we[j] + beta * se[j] + gamma)) * (we[3] + gamma) * alpha - l1z * alpha * alpha;
    let value = |terms: &[(Fr, &str)], zeta: Fr| terms.iter().fold(Fr::zero(), |a, (q, l)| a + *q * if *l == "z" { zp.evaluate(&zeta) } else { idx[*l].evaluate(&zeta) });
    if c == Cheat::SkipThird {
        let ze = fs.f();
        zeta = Some(ze);
        let (we, zsh, se, qa, _, l1z, zn) = alg(ze, &ts);
        let r = value(&rz(&we, zsh, &se, qa, l1z, ze), ze);
        let t0 = rhs(r, &we, zsh, &se, qa, l1z, pip.evaluate(&ze)) * (zn - Fr::one()).inverse()?;
        ts = vec![con(t0), Dp::zero(), Dp::zero(), Dp::zero()];
    }
    let (p3, c3, r3) = commit((0..4).map(|k| (["t_0", "t_1", "t_2", "t_3"][k], ts[k].clone())).collect());
    let zeta = match zeta {
        Some(z) => z,
        None => {
            if c == Cheat::Regroup {
                let all: Vec<_> = c1.iter().chain(&c2).chain(&c3).cloned().collect();
                fs.absorb(&bytes(&all));
            } else {
                fs.absorb(&bytes(&c3));
            }
            fs.f()
        }
    };
    let (mut we, mut zsh, mut se, mut qa, mut tz, l1z, zn) = alg(zeta, &ts);
    let v = zn - Fr::one();
    let piz = pip.evaluate(&zeta);
    let mut terms = rz(&we, zsh, &se, qa, l1z, zeta);
    let mut r = value(&terms, zeta);
    let mut eps = None;
    match c {
        // lies, so that the verifier's equation holds
        Cheat::Lie(5) | Cheat::Cancel(_) => tz = rhs(r, &we, zsh, &se, qa, l1z, piz) * v.inverse()?,
        Cheat::Lie(1) => r += tz * v - rhs(r, &we, zsh, &se, qa, l1z, piz),
        Cheat::Lie(k) => {
            // another evaluation: r follows it honestly, and the equation decides its value when it is
            // linear in it; otherwise a random lie with r adjusted
            match k {
                0 => qa = s.field(),
                2..=4 => se[k - 2] = s.field(),
                10 => zsh = s.field(),
                _ => we[k % 4] = s.field(),
            }
            terms = rz(&we, zsh, &se, qa, l1z, zeta);
            r = tz * v - rhs(Fr::zero(), &we, zsh, &se, qa, l1z, piz);
        }
        Cheat::SkipEvals => {
            let e = fs.f();
            eps = Some(e);
            // order at zeta: q_arith r sigma_0 sigma_1 sigma_2 t w_0 .. w_3
            let gap = tz * v - rhs(r, &we, zsh, &se, qa, l1z, piz);
            // r += x, t += y with x - y v = gap and e x + e^5 y = 0
            let y = -gap * (v + pow(e, 4)).inverse()?;
            r += -pow(e, 4) * y;
            tz += y;
        }
        _ => {}
    }
    let evals = vec![qa, r, se[0], se[1], se[2], tz, we[0], we[1], we[2], we[3], zsh];
    let eps = match eps {
        Some(e) => e,
        None => {
            fs.absorb(&to_bytes![evals].unwrap());
            fs.f()
        }
    };
    let mut pubs = pi.clone();
    if c == Cheat::SkipPubs {
        let lag = |i: usize| {
            let mut e = vec![Fr::zero(); n];
            e[i] = Fr::one();
            interp(&e).evaluate(&zeta)
        };
        let x: Fr = s.nonzero();
        pubs[last] += x;
        pubs[last - 1] -= x * lag(last) * lag(last - 1).inverse()?;
    }
    let z2n = zn * zn;
    let one = Fr::one();
    let mut lcs = vec![
        lc("w_0", vec![(one, "w_0")]), lc("w_1", vec![(one, "w_1")]), lc("w_2", vec![(one, "w_2")]), lc("w_3", vec![(one, "w_3")]), lc("z", vec![(one, "z")]),
        lc("sigma_0", vec![(one, "sigma_0")]), lc("sigma_1", vec![(one, "sigma_1")]), lc("sigma_2", vec![(one, "sigma_2")]), lc("q_arith", vec![(one, "q_arith")]),
        lc("t", vec![(one, "t_0"), (zn, "t_1"), (z2n, "t_2"), (zn * z2n, "t_3")]), lc("r", terms.clone()),
    ];
    lcs.sort_by(|a, b| a.label.cmp(&b.label));
    let shifted = zeta * roots[1 % n];
    let mut qs = QuerySet::new();
    for l in ["w_0", "w_1", "w_2", "w_3", "sigma_0", "sigma_1", "sigma_2", "q_arith", "t", "r"] {
        qs.insert((l.to_string(), ("zeta".to_string(), zeta)));
    }
    qs.insert(("z".to_string(), ("shifted_zeta".to_string(), shifted)));
    let polys: Vec<&LabeledPolynomial<Fr, Dp>> = pk.index.iter().chain(p1.iter()).chain(p2.iter()).chain(p3.iter()).collect();
    let comms: Vec<LabeledCommitment<_>> = pk.vk.comms.iter().cloned().zip(pk.vk.labels.iter()).map(|(c, l)| LabeledCommitment::new(l.to_string(), c, None)).chain(c1.iter().cloned()).chain(c2.iter().cloned()).chain(c3.iter().cloned()).collect();
    let rands: Vec<_> = pk.rands.iter().chain(r1.iter()).chain(r2.iter()).chain(r3.iter()).collect();
    let mut pc = PC::open_combinations(&pk.ck, &lcs, polys, &comms, &qs, eps, rands, Some(rng)).ok()?;
    if let Cheat::Cancel(g) = c {
        // W1 + x W2 = 0 and z1 W1 + x z2 W2 = -(C - v)
        let x: Fr = if g == 0 { u128::rand(&mut ark_std::test_rng()).into() } else { u128::rand(&mut fs.r).into() };
        let x = if g == 0 { x } else { x };
        let cm: HashMap<String, G1Affine> = comms.iter().map(|c| (c.label().to_string(), c.commitment().comm.0)).collect();
        let g1 = pk.vk.rk.vk.g;
        let mut tot = cm["z"].into_projective() - g1.mul(zsh);
        let vals: HashMap<&str, Fr> = ["q_arith", "r", "sigma_0", "sigma_1", "sigma_2", "t", "w_0", "w_1", "w_2", "w_3"].iter().cloned().zip(evals.iter().cloned()).collect();
        let mut e = Fr::one();
        for l in lcs.iter().filter(|l| l.label() != "z") {
            let mut cc = -g1.mul(vals[l.label().as_str()]);
            for (q, t) in l.iter() {
                let t: &String = std::convert::TryInto::try_into(t).ok()?;
                cc += cm[t].mul(*q);
            }
            tot += cc.into_affine().mul(e * x);
            e *= eps;
        }
        let w2 = (-tot).into_affine().mul((x * (zeta - shifted)).inverse()?).into_affine();
        let w1 = (-w2.mul(x)).into_affine();
        pc.proof = vec![ark_poly_commit::kzg10::Proof { w: w1, random_v: None }, ark_poly_commit::kzg10::Proof { w: w2, random_v: None }].into();
    }
    let (k1, k2, k3): (Vec<_>, Vec<_>, Vec<_>) = (c1.iter().map(|c| c.commitment().clone()).collect(), c2.iter().map(|c| c.commitment().clone()).collect(), c3.iter().map(|c| c.commitment().clone()).collect());
    let commitments = if c == Cheat::Regroup { vec![vec![], vec![], k1.into_iter().chain(k2).chain(k3).collect()] } else { vec![k1, k2, k3] };
    let proof = Proof { commitments, evaluations: evals, pc_proof: pc };
    let _ = rng.next_u32();
    Some((pubs, ser(&proof)))
}
