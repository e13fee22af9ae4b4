//! P22: boolean and 32-bit gadgets compute and enforce their operations.
use ark_ff::PrimeField;
use vharness::wit::*;
use vharness::*;
use zkp_gadgets::algebra::boolean::*;
use zkp_gadgets::algebra::uint32::UInt32;
use zkp_gadgets::operator::multieq::MultiEq;
use zkp_r1cs::{ConstraintSystem, SynthesisError, Variable};

#[derive(Clone, Debug)]
enum Op<F> {
    ConstB(bool),
    WitB(bool),
    InB(bool),
    /// allocated bit that has to be false if the given allocated one is true
    Cond(bool, usize),
    Not(usize),
    Xor(usize, usize),
    And(usize, usize),
    Ch(usize, usize, usize),
    Maj(usize, usize, usize),
    BitOf(usize, usize),
    ConstW(u32),
    WitW(u32),
    XorW(usize, usize),
    ChW(usize, usize, usize),
    MajW(usize, usize, usize),
    Rotr(usize, usize),
    Shr(usize, usize),
    Add(Vec<usize>),
    /// word from chosen bits, (big-endian?)
    Pack(Vec<usize>, bool),
    /// bits of the word in reverse
    Rev(usize),
    U64(u64),
    Field(F),
}
#[derive(Clone, Debug, Default)]
struct Model {
    b: Vec<bool>,
    w: Vec<u32>,
}
fn model<F: Fld>(ops: &[Op<F>]) -> Model {
    let mut m = Model::default();
    for o in ops {
        match o {
            Op::ConstB(x) | Op::WitB(x) | Op::InB(x) | Op::Cond(x, _) => m.b.push(*x),
            Op::Not(i) => m.b.push(!m.b[*i]),
            Op::Xor(i, j) => m.b.push(m.b[*i] ^ m.b[*j]),
            Op::And(i, j) => m.b.push(m.b[*i] & m.b[*j]),
            Op::Ch(i, j, k) => m.b.push(if m.b[*i] { m.b[*j] } else { m.b[*k] }),
            Op::Maj(i, j, k) => m.b.push(m.b[*i] as u8 + m.b[*j] as u8 + m.b[*k] as u8 >= 2),
            Op::BitOf(w, n) => m.b.push(m.w[*w] >> n & 1 == 1),
            Op::ConstW(x) | Op::WitW(x) => m.w.push(*x),
            Op::XorW(i, j) => m.w.push(m.w[*i] ^ m.w[*j]),
            Op::ChW(i, j, k) => m.w.push((m.w[*i] & m.w[*j]) | (!m.w[*i] & m.w[*k])),
            Op::MajW(i, j, k) => {
                let (a, b, c) = (m.w[*i], m.w[*j], m.w[*k]);
                m.w.push((a & b) | (a & c) | (b & c))
            }
            Op::Rotr(i, n) => m.w.push(m.w[*i].rotate_right(*n as u32)),
            Op::Shr(i, n) => m.w.push(m.w[*i] >> (n % 32)),
            Op::Add(l) => m.w.push(l.iter().fold(0u32, |a, i| a.wrapping_add(m.w[*i]))),
            Op::Pack(l, be) => {
                let n = l.len();
                let x = (0..n).fold(0u32, |a, i| a | (m.b[l[i]] as u32) << if *be { n - 1 - i } else { i });
                m.w.push(x)
            }
            Op::Rev(i) => m.w.push(m.w[*i].reverse_bits()),
            Op::U64(x) => {
                m.w.push(*x as u32);
                m.w.push((*x >> 32) as u32);
            }
            Op::Field(x) => {
                use ark_ff::BigInteger;
                let r = x.into_repr();
                for i in &[0, 1, F::size_in_bits() - 1] {
                    m.b.push(r.get_bit(*i))
                }
                m.w.push((r.as_ref()[0] >> 20) as u32);
            }
        }
    }
    m
}
struct Out {
    b: Vec<Boolean>,
    w: Vec<UInt32>,
    /// allocated by the caller: their values are inputs
    src: Vec<Variable>,
    cond: Vec<(Variable, Variable)>,
}
fn vars(l: &[Boolean], src: &mut Vec<Variable>) {
    for x in l {
        match x {
            Boolean::Is(b) | Boolean::Not(b) => src.push(b.get_variable()),
            _ => {}
        }
    }
}
fn run<F: Fld>(ops: &[Op<F>], cs: &mut Cs<F>, blank: bool) -> Result<Out, SynthesisError> {
    let mut cs = MultiEq::<F, _>::new(cs);
    let mut o = Out { b: vec![], w: vec![], src: vec![], cond: vec![] };
    macro_rules! v {
        ($x:expr) => {
            if blank {
                None
            } else {
                Some($x)
            }
        };
    }
    for (n, op) in ops.iter().enumerate() {
        let nm = || format!("op {}", n);
        match op {
            Op::ConstB(x) => o.b.push(Boolean::constant(*x)),
            Op::WitB(x) => {
                let b = AllocatedBit::alloc(cs.ns(nm), v!(*x))?;
                o.src.push(b.get_variable());
                o.b.push(b.into());
            }
            Op::InB(x) => {
                let b = AllocatedBit::alloc_input(cs.ns(nm), v!(*x))?;
                o.src.push(b.get_variable());
                o.b.push(b.into());
            }
            Op::Cond(x, i) => match o.b[*i] {
                Boolean::Is(k) => {
                    let b = AllocatedBit::alloc_conditionally(cs.ns(nm), v!(*x), &k)?;
                    o.src.push(b.get_variable());
                    o.cond.push((k.get_variable(), b.get_variable()));
                    o.b.push(b.into());
                }
                _ => o.b.push(Boolean::constant(*x)),
            },
            Op::Not(i) => o.b.push(o.b[*i].not()),
            Op::Xor(i, j) => {
                let r = Boolean::xor(cs.ns(nm), &o.b[*i], &o.b[*j])?;
                o.b.push(r)
            }
            Op::And(i, j) => {
                let r = Boolean::and(cs.ns(nm), &o.b[*i], &o.b[*j])?;
                o.b.push(r)
            }
            Op::Ch(i, j, k) => {
                let r = Boolean::sha256_ch(cs.ns(nm), &o.b[*i], &o.b[*j], &o.b[*k])?;
                o.b.push(r)
            }
            Op::Maj(i, j, k) => {
                let r = Boolean::sha256_maj(cs.ns(nm), &o.b[*i], &o.b[*j], &o.b[*k])?;
                o.b.push(r)
            }
            Op::BitOf(w, k) => o.b.push(o.w[*w].clone().into_bits()[*k]),
            Op::ConstW(x) => o.w.push(UInt32::constant(*x)),
            Op::WitW(x) => {
                let w = UInt32::alloc(cs.ns(nm), v!(*x))?;
                vars(&w.clone().into_bits(), &mut o.src);
                o.w.push(w)
            }
            Op::XorW(i, j) => {
                let r = o.w[*i].xor(cs.ns(nm), &o.w[*j])?;
                o.w.push(r)
            }
            Op::ChW(i, j, k) => {
                let r = UInt32::sha256_ch(cs.ns(nm), &o.w[*i], &o.w[*j], &o.w[*k])?;
                o.w.push(r)
            }
            Op::MajW(i, j, k) => {
                let r = UInt32::sha256_maj(cs.ns(nm), &o.w[*i], &o.w[*j], &o.w[*k])?;
                o.w.push(r)
            }
            Op::Rotr(i, n) => o.w.push(o.w[*i].rotr(*n)),
            Op::Shr(i, n) => o.w.push(o.w[*i].shr(*n)),
            Op::Add(l) => {
                let t: Vec<UInt32> = l.iter().map(|i| o.w[*i].clone()).collect();
                let r = UInt32::addmany(cs.ns(nm), &t)?;
                o.w.push(r)
            }
            Op::Pack(l, be) => {
                let t: Vec<Boolean> = l.iter().map(|i| o.b[*i]).collect();
                o.w.push(if *be { UInt32::from_bits_be(&t) } else { UInt32::from_bits(&t) })
            }
            Op::Rev(i) => {
                let b = o.w[*i].clone().into_bits_be();
                o.w.push(UInt32::from_bits(&b))
            }
            Op::U64(x) => {
                let b = u64_into_boolean_vec_le(cs.ns(nm), v!(*x))?;
                vars(&b, &mut o.src);
                if b.len() != 64 {
                    return Err(SynthesisError::Unsatisfiable);
                }
                o.w.push(UInt32::from_bits(&b[..32]));
                o.w.push(UInt32::from_bits(&b[32..]));
            }
            Op::Field(x) => {
                let b = field_into_boolean_vec_le::<F, _>(cs.ns(nm), v!(*x))?;
                vars(&b, &mut o.src);
                if b.len() != F::size_in_bits() {
                    return Err(SynthesisError::Unsatisfiable);
                }
                o.b.push(b[0]);
                o.b.push(b[1]);
                o.b.push(b[b.len() - 1]);
                o.w.push(UInt32::from_bits(&b[20..52]));
            }
        }
    }
    Ok(o)
}
fn word(s: &mut Src) -> u32 {
    match s.below(6) {
        0 => 0,
        1 => u32::MAX,
        2 => 1 << s.below(32),
        3 => ((1u64 << s.below(33)) as u32).wrapping_sub(s.below(2) as u32),
        _ => s.u64() as u32,
    }
}
fn gen<F: Fld>(s: &mut Src, max: usize, adds: bool) -> Vec<Op<F>> {
    let mut ops: Vec<Op<F>> = vec![];
    let (mut nb, mut nw) = (0, 0);
    let n = s.range(2, max);
    while ops.len() < n {
        let m = model(&ops);
        let o = match s.below(24) {
            0 => Op::ConstB(s.bool()),
            1 => Op::WitB(s.bool()),
            2 => Op::InB(s.bool()),
            3 if nb > 0 => {
                let i = s.below(nb);
                // (only over plain allocated bits)
                Op::Cond(!m.b[i] && s.bool(), i)
            }
            4 if nb > 0 => Op::Not(s.below(nb)),
            5 | 6 if nb > 1 => Op::Xor(s.below(nb), s.below(nb)),
            7 | 8 if nb > 1 => Op::And(s.below(nb), s.below(nb)),
            9 | 10 if nb > 1 => Op::Ch(s.below(nb), s.below(nb), s.below(nb)),
            11 | 12 if nb > 1 => Op::Maj(s.below(nb), s.below(nb), s.below(nb)),
            13 if nw > 0 => Op::BitOf(s.below(nw), s.below(32)),
            14 => Op::ConstW(word(s)),
            15 => Op::WitW(word(s)),
            16 if nw > 0 => Op::XorW(s.below(nw), s.below(nw)),
            17 if nw > 0 => Op::ChW(s.below(nw), s.below(nw), s.below(nw)),
            18 if nw > 0 => Op::MajW(s.below(nw), s.below(nw), s.below(nw)),
            19 if nw > 0 => {
                if s.bool() {
                    Op::Rotr(s.below(nw), s.below(40))
                } else {
                    Op::Shr(s.below(nw), s.below(40))
                }
            }
            20 | 21 if nw > 0 && adds => {
                let k = if s.below(3) == 0 { s.range(2, 10) } else { s.range(2, 4) };
                Op::Add((0..k).map(|_| s.below(nw)).collect())
            }
            22 if nb > 0 => Op::Pack((0..32).map(|_| s.below(nb)).collect(), s.bool()),
            23 => match s.below(8) {
                0 => Op::U64(s.u64()),
                1 => Op::Field(F::rand(&mut s.rng())),
                _ if nw > 0 => Op::Rev(s.below(nw)),
                _ => Op::WitW(word(s)),
            },
            _ => Op::WitB(s.bool()),
        };
        ops.push(o);
        let m = model(&ops);
        nb = m.b.len();
        nw = m.w.len();
    }
    ops
}
fn program<F: Fld>(s: &mut Src, max: usize) -> R {
    let ops = gen::<F>(s, max, true);
    s.note(&format!("{:?}", ops));
    // conditional bits over something else than an allocated bit are replaced by constants
    let m = model(&ops);
    let mut cs = Cs::<F>::new(false);
    let o = match run(&ops, &mut cs, false) {
        Ok(o) => o,
        Err(e) => return fail("synthesis", format!("{:?}", e)),
    };
    let mut bk = Cs::<F>::new(true);
    ensure!(run(&ops, &mut bk, true).is_ok(), "blank", "no circuit without values");
    ensure!(cs.shape() == bk.shape(), "shape", "the circuit depends on the values");
    let mut targets = vec![];
    let mut bits = vec![];
    for (i, b) in o.b.iter().enumerate() {
        bits.push((*b, m.b[i], format!("bit {}", i)));
    }
    for (i, w) in o.w.iter().enumerate() {
        let l = w.clone().into_bits();
        ensure!(l.len() == 32, "width", "{} bits", l.len());
        for (k, b) in l.iter().enumerate() {
            bits.push((*b, m.w[i] >> k & 1 == 1, format!("word {} bit {}", i, k)));
        }
    }
    let one = Cs::<F>::one();
    for (b, v, n) in &bits {
        ensure!(b.get_value() == Some(*v), "value", "{} is {:?} instead of {}", n, b.get_value(), v);
        let l = cs.lc_of(&b.lc(one, F::one()));
        let w = Cs::eval(&l, &cs.vals);
        ensure!(w == if *v { F::one() } else { F::zero() }, "assignment", "{} is assigned {}", n, w);
        if l.iter().any(|(i, _)| *i != 0) {
            targets.push(l);
        }
    }
    if let Some(k) = cs.violated(&cs.vals) {
        return fail("unsatisfied", format!("honest values violate {}", cs.names[k]));
    }
    let src: Vec<usize> = o.src.iter().map(|v| cs.id(*v)).collect();
    match other_result(&cs, &src, &targets, s) {
        Alt::Forced => s.label("forced"),
        Alt::Other(_, w) => return fail("forged", format!("another result satisfies the constraints: {}", w)),
        Alt::Open => s.label("open"),
    }
    // inputs are bits
    let se = Search::new(&cs);
    for _ in 0..2.min(src.len()) {
        let i = *s.pick(&src);
        let v = F::rand(&mut s.rng());
        if !v.is_zero() && !v.is_one() {
            if let Found::Sat(_) = se.solve(&[(i, v)]) {
                return fail("not-a-bit", format!("an allocated bit may be {}", v));
            }
        }
    }
    for (k, b) in &o.cond {
        if let Found::Sat(_) = se.solve(&[(cs.id(*k), F::one()), (cs.id(*b), F::one())]) {
            return fail("conditional", "a bit that must be false is true");
        }
    }
    for op in &ops {
        s.label(format!("{:?}", op).split(|c| c == '(').next().unwrap().to_string());
    }
    if !targets.is_empty() && cs.cons.len() > src.len() {
        s.nontrivial();
    }
    Ok(())
}
/// equality is satisfied exactly when the two bits are equal
fn equal<F: Fld>(s: &mut Src) -> R {
    let ops = gen::<F>(s, 6, false);
    let m = model(&ops);
    if m.b.len() < 2 {
        return Ok(());
    }
    let (i, j) = (s.below(m.b.len()), s.below(m.b.len()));
    s.note(&format!("{} = {} in {:?}", i, j, ops));
    let mut cs = Cs::<F>::new(false);
    let o = match run(&ops, &mut cs, false) {
        Ok(o) => o,
        Err(e) => return fail("synthesis", format!("{:?}", e)),
    };
    let r = Boolean::enforce_equal(&mut cs, &o.b[i], &o.b[j]);
    let want = m.b[i] == m.b[j];
    let consts = o.b[i].is_constant() && o.b[j].is_constant();
    if consts {
        ensure!(r.is_ok() == want, "constants", "{:?}", r.is_ok());
        return Ok(());
    }
    ensure!(r.is_ok(), "equal-error", "refused");
    ensure!(cs.sat() == want, "equal", "satisfied: {}, equal: {}", cs.sat(), want);
    let fixed: Vec<(usize, F)> = o.src.iter().map(|v| (cs.id(*v), cs.val(*v))).collect();
    match Search::new(&cs).solve(&fixed) {
        Found::Sat(_) => ensure!(want, "equal-forged", "unequal bits can be made equal"),
        Found::Unsat => ensure!(!want, "equal", "equal bits refused"),
        Found::Unknown => s.label("open"),
    }
    s.label(if want { "equal" } else { "unequal" });
    s.nontrivial();
    Ok(())
}
fn main() {
    type F = ark_bls12_381::Fr;
    type K = <zkp_curve25519::Curve25519 as zkp_curve::Curve>::Fr;
    vharness::main(
        "P22",
        "the program has operations with constraints beyond its inputs' (programs), or at least one bit is allocated (equality)",
        vec![sub("program", 600, 12000, |s| program::<F>(s, 24)), sub("program-25519", 150, 3000, |s| program::<K>(s, 24)), sub("long", 30, 600, |s| program::<F>(s, 80)), sub("equal", 400, 8000, equal::<F>)],
    )
}
