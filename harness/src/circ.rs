//! Random rank-1 constraint systems with a satisfying assignment by construction.
use crate::*;
use ark_ff::PrimeField;
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, LinearCombination, SynthesisError, Variable};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum V {
    One,
    Pub(usize),
    Aux(usize),
}
pub type Lc<F> = Vec<(V, F)>;
#[derive(Clone, Copy, Debug)]
pub enum Step {
    Pub(usize),
    Aux(usize),
    Con(usize),
}

#[derive(Clone, Debug)]
pub struct Circ<F: PrimeField> {
    pub pubs: Vec<F>,
    pub auxs: Vec<F>,
    pub cons: Vec<(Lc<F>, Lc<F>, Lc<F>)>,
    pub steps: Vec<Step>,
    /// key generation must not need an assignment
    pub blank: bool,
    /// how it is written down: 0 = plainly, otherwise the seed of a way to write it
    pub style: u64,
    /// the step whose value cannot be computed
    pub missing: Option<usize>,
    /// the step at which synthesis gives up
    pub stop: Option<usize>,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub max_pub: usize,
    pub max_aux: usize,
    pub max_con: usize,
    /// at least one constraint
    pub min_con: usize,
    pub min_aux: usize,
    pub min_pub: usize,
    /// variables may repeat inside one combination
    pub dups: bool,
    /// constraints of the form 0*0=0 or const*const=const
    pub trivial: bool,
    /// long combinations up to this many terms
    pub max_lc: usize,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { max_pub: 6, max_aux: 12, max_con: 12, min_con: 1, min_aux: 0, min_pub: 0, dups: true, trivial: true, max_lc: 12 }
    }
}

impl Opts {
    /// now and then a circuit well beyond the usual sizes, in one dimension or in all
    pub fn widen(mut self, s: &mut Src, den: usize, max: usize) -> Opts {
        if s.chance(1, den) {
            s.label("wide");
            let k = s.below(4);
            if k == 0 || k == 3 {
                self.max_pub = max;
            }
            if k == 1 || k == 3 {
                self.max_aux = max;
            }
            if k == 2 || k == 3 {
                self.max_con = max;
            }
        }
        self
    }
}

impl<F: PrimeField> Circ<F> {
    pub fn val(&self, v: V) -> F {
        match v {
            V::One => F::one(),
            V::Pub(i) => self.pubs[i],
            V::Aux(i) => self.auxs[i],
        }
    }
    pub fn eval(&self, l: &Lc<F>) -> F {
        l.iter().fold(F::zero(), |a, (v, c)| a + self.val(*v) * c)
    }
    /// indices of violated constraints
    pub fn violated(&self) -> Vec<usize> {
        (0..self.cons.len()).filter(|i| self.eval(&self.cons[*i].0) * self.eval(&self.cons[*i].1) != self.eval(&self.cons[*i].2)).collect()
    }
    pub fn sat(&self) -> bool {
        self.violated().is_empty()
    }
    pub fn blank(&self) -> Self {
        let mut c = self.clone();
        c.blank = true;
        c
    }
    /// shift constraint `k` by a constant so that exactly its truth changes (same assignment)
    pub fn break_con(&self, k: usize, side: usize, d: F) -> Self {
        let mut c = self.clone();
        let l = match side {
            0 => &mut c.cons[k].0,
            1 => &mut c.cons[k].1,
            _ => &mut c.cons[k].2,
        };
        l.push((V::One, d));
        c
    }
    pub fn describe(&self) -> String {
        let l = |l: &Lc<F>| {
            l.iter()
                .map(|(v, c)| {
                    let v = match v {
                        V::One => "1".to_string(),
                        V::Pub(i) => format!("x{}", i),
                        V::Aux(i) => format!("w{}", i),
                    };
                    let m: F = -*c;
                    let s = if c.into_repr().num_bits_() < 20 {
                        format!("{}", c.into_repr().as_u64_())
                    } else if m.into_repr().num_bits_() < 20 {
                        format!("-{}", m.into_repr().as_u64_())
                    } else {
                        "R".into()
                    };
                    format!("{}{}", s, v)
                })
                .collect::<Vec<_>>()
                .join("+")
        };
        let cs: Vec<String> = self.cons.iter().take(6).map(|(a, b, c)| format!("({})*({})=({})", l(a), l(b), l(c))).collect();
        format!("pub={} aux={} con={} {}", self.pubs.len(), self.auxs.len(), self.cons.len(), cs.join(" "))
    }
    pub fn nnz(&self) -> usize {
        self.cons.iter().map(|c| c.0.len() + c.1.len() + c.2.len()).sum()
    }
}
pub trait ReprExt {
    fn num_bits_(&self) -> u32;
    fn as_u64_(&self) -> u64;
}
impl<B: ark_ff::BigInteger> ReprExt for B {
    fn num_bits_(&self) -> u32 {
        self.num_bits()
    }
    fn as_u64_(&self) -> u64 {
        self.as_ref()[0]
    }
}

impl<F: PrimeField> ConstraintSynthesizer<F> for Circ<F> {
    fn generate_constraints<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        if self.style != 0 || self.missing.is_some() || self.stop.is_some() {
            return written(&self, cs);
        }
        let mut pv: Vec<Option<Variable>> = vec![None; self.pubs.len()];
        let mut av: Vec<Option<Variable>> = vec![None; self.auxs.len()];
        for (n, st) in self.steps.iter().enumerate() {
            match *st {
                Step::Pub(i) => {
                    let v = self.pubs[i];
                    let b = self.blank;
                    pv[i] = Some(cs.alloc_input(|| format!("x{}", i), || if b { Err(SynthesisError::AssignmentMissing) } else { Ok(v) })?);
                }
                Step::Aux(i) => {
                    let v = self.auxs[i];
                    let b = self.blank;
                    av[i] = Some(cs.alloc(|| format!("w{}", i), || if b { Err(SynthesisError::AssignmentMissing) } else { Ok(v) })?);
                }
                Step::Con(k) => {
                    let mk = |l: &Lc<F>, mut lc: LinearCombination<F>| {
                        for (v, c) in l {
                            let var = match v {
                                V::One => CS::one(),
                                V::Pub(i) => pv[*i].unwrap(),
                                V::Aux(i) => av[*i].unwrap(),
                            };
                            lc = lc + (*c, var);
                        }
                        lc
                    };
                    let (a, b, c) = &self.cons[k];
                    cs.enforce(|| format!("c{}", n), |lc| mk(a, lc), |lc| mk(b, lc), |lc| mk(c, lc));
                }
            }
        }
        Ok(())
    }
}

struct Pen<'a, F: PrimeField> {
    c: &'a Circ<F>,
    pv: Vec<Option<Variable>>,
    av: Vec<Option<Variable>>,
    x: u64,
    cons: usize,
}
impl<F: PrimeField> Pen<'_, F> {
    fn next(&mut self, n: usize) -> usize {
        if self.c.style == 0 {
            return 0;
        }
        self.x = self.x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.x >> 33) as usize) % n
    }
    /// one combination, in one of many spellings over the same variables
    fn spell(&mut self, l: &Lc<F>, one: Variable, lc: LinearCombination<F>) -> LinearCombination<F> {
        use zkp_r1cs::ConstraintVar;
        let mut t: Vec<(F, Variable)> = l
            .iter()
            .map(|(v, c)| {
                (
                    *c,
                    match v {
                        V::One => one,
                        V::Pub(i) => self.pv[*i].unwrap(),
                        V::Aux(i) => self.av[*i].unwrap(),
                    },
                )
            })
            .collect();
        if self.next(2) == 1 {
            for i in (1..t.len()).rev() {
                let j = self.next(i + 1);
                t.swap(i, j);
            }
        }
        if self.next(3) == 1 {
            let k = F::from(self.next(1000) as u64 + 2);
            let n = t.len();
            for i in 0..n {
                if self.next(2) == 1 {
                    let v = t[i].1;
                    t[i].0 -= k;
                    t.push((k, v));
                }
            }
        }
        let how = self.next(9);
        let plain = |lc: LinearCombination<F>, t: &[(F, Variable)]| t.iter().fold(lc, |lc, (c, v)| lc + (*c, *v));
        let k = F::from(self.next(50) as u64 + 2);
        let cut = self.next(t.len() + 1);
        match how {
            0 | 1 => plain(lc, &t),
            2 => lc + &plain(LinearCombination::zero(), &t),
            3 => lc + plain(LinearCombination::zero(), &t),
            4 => {
                let a = plain(LinearCombination::zero(), &t[..cut]);
                let b = plain(LinearCombination::zero(), &t[cut..]);
                lc + (k, &(a * k.inverse().unwrap())) - (k, b * -k.inverse().unwrap())
            }
            5 => t.iter().fold(lc, |lc, (c, v)| if c.is_one() { lc + *v } else if (-*c).is_one() { lc - *v } else { lc - (-*c, *v) }),
            6 => {
                let a = plain(lc, &t[..cut]);
                let b = plain(LinearCombination::zero(), &t[cut..]);
                a - -b
            }
            7 => {
                let mut w: ConstraintVar<F> = ConstraintVar::zero();
                for (c, v) in &t {
                    w = if *c == F::one() { w + *v } else { w + (*c, *v) };
                }
                w + lc
            }
            _ => {
                let mut a = LinearCombination::zero();
                for x in t {
                    a += x;
                }
                a
            }
        }
    }
    fn steps<CS: ConstraintSystem<F>>(&mut self, cs: &mut CS, from: usize, to: usize) -> Result<(), SynthesisError> {
        let c = self.c;
        for n in from..to {
            if c.stop == Some(n) {
                return Err(SynthesisError::Unsatisfiable);
            }
            let bad = c.blank || c.missing == Some(n);
            match c.steps[n] {
                Step::Pub(i) => {
                    let v = c.pubs[i];
                    self.pv[i] = Some(cs.alloc_input(|| format!("x{}", n), || if bad { Err(SynthesisError::AssignmentMissing) } else { Ok(v) })?);
                }
                Step::Aux(i) => {
                    let v = c.auxs[i];
                    self.av[i] = Some(cs.alloc(|| format!("w{}", n), || if bad { Err(SynthesisError::AssignmentMissing) } else { Ok(v) })?);
                }
                Step::Con(k) => {
                    let (a, b, d) = &c.cons[k];
                    // the closures are independent of each other
                    let z = LinearCombination::zero;
                    let (a, b, d) = (self.spell(a, CS::one(), z()), self.spell(b, CS::one(), z()), self.spell(d, CS::one(), z()));
                    let w = self.next(2) == 1;
                    cs.enforce(|| format!("c{}", n), |lc| if w { lc + a } else { a }, |lc| if w { lc + b } else { b }, |lc| if w { lc + d } else { d });
                    self.cons += 1;
                }
            }
        }
        assert_eq!(cs.num_constraints(), self.cons, "num_constraints");
        Ok(())
    }
}
fn written<F: PrimeField, CS: ConstraintSystem<F>>(c: &Circ<F>, cs: &mut CS) -> Result<(), SynthesisError> {
    let mut p = Pen { c, pv: vec![None; c.pubs.len()], av: vec![None; c.auxs.len()], x: c.style, cons: 0 };
    let base = cs.num_constraints();
    p.cons = base;
    let mut i = 0;
    while i < c.steps.len() {
        let j = (i + 1 + p.next(5)).min(c.steps.len());
        match p.next(8) {
            0 | 1 => p.steps(cs, i, j)?,
            2 => p.steps(&mut cs.ns(|| format!("n{}", i)), i, j)?,
            3 => {
                let mut a = cs.ns(|| format!("n{}", i));
                let m = (i + j) / 2;
                p.steps(&mut a, i, m)?;
                p.steps(&mut a.ns(|| "inner"), m, j)?;
            }
            4 => {
                let mut a = &mut *cs;
                p.steps(&mut a, i, j)?
            }
            5 => {
                let mut a = cs.ns(|| format!("n{}", i));
                let mut b = &mut a;
                p.steps(&mut b.ns(|| "x"), i, j)?;
            }
            #[cfg(feature = "gadgets")]
            6 => {
                let mut a = zkp_gadgets::operator::multieq::MultiEq::new(&mut *cs);
                let m = (i + j) / 2;
                p.steps(&mut a, i, m)?;
                p.steps(&mut a.ns(|| format!("n{}", i)), m, j)?;
            }
            #[cfg(feature = "gadgets")]
            7 => p.steps(&mut zkp_gadgets::operator::multieq::MultiEq::new(cs.ns(|| format!("n{}", i))), i, j)?,
            _ => p.steps(cs, i, j)?,
        }
        i = j;
    }
    if c.stop == Some(c.steps.len()) {
        return Err(SynthesisError::Unsatisfiable);
    }
    Ok(())
}

fn gen_lc<F: PrimeField>(s: &mut Src, vars: &[V], o: &Opts) -> Lc<F> {
    let n = match s.below(8) {
        0 => 0,
        1 | 2 | 3 => 1,
        4 | 5 => 2,
        6 => s.below(5),
        _ => s.below(o.max_lc + 1),
    };
    let mut l: Lc<F> = vec![];
    for _ in 0..n {
        let v = *s.pick(vars);
        if !o.dups && l.iter().any(|(w, _)| *w == v) {
            continue;
        }
        if l.iter().any(|(w, _)| *w == v) {
            s.label("duplicate-variable");
        }
        let c = s.field();
        l.push((v, c));
    }
    if l.len() > 6 {
        s.label("lc>6");
    }
    l
}

/// Generates a satisfied constraint system.
pub fn gen_circ<F: PrimeField>(s: &mut Src, o: &Opts) -> Circ<F> {
    let mut o = *o;
    if o.max_lc >= 12 && s.chance(1, 24) {
        s.label("very long combinations");
        o.max_lc = *s.pick(&[40, 70, 140]);
    }
    let o = &o;
    let npub = o.min_pub + s.size(o.max_pub - o.min_pub);
    let nfree = o.min_aux + s.size(o.max_aux - o.min_aux);
    let ncon = o.min_con + s.size(o.max_con - o.min_con);
    let mut c = Circ { pubs: (0..npub).map(|_| s.field()).collect(), auxs: (0..nfree).map(|_| s.field()).collect(), cons: vec![], steps: vec![], blank: false, style: 0, missing: None, stop: None };
    // allocation order: interleaved; constraints only use allocated variables
    let mut order: Vec<Step> = vec![];
    let mode = s.below(3);
    let (mut p, mut a) = (0, 0);
    while p < npub || a < nfree {
        let take_pub = match mode {
            0 => p < npub,
            1 => a >= nfree,
            _ => {
                if p >= npub {
                    false
                } else if a >= nfree {
                    true
                } else {
                    s.bool()
                }
            }
        };
        if take_pub {
            order.push(Step::Pub(p));
            p += 1;
        } else {
            order.push(Step::Aux(a));
            a += 1;
        }
    }
    let early = s.chance(1, 3); // constraints interleaved with allocations
    let mut vars = vec![V::One];
    let mut pending: Vec<Step> = order;
    if !early {
        for st in &pending {
            vars.push(match st {
                Step::Pub(i) => V::Pub(*i),
                Step::Aux(i) => V::Aux(*i),
                _ => unreachable!(),
            });
        }
        c.steps.append(&mut pending);
    }
    pending.reverse();
    for k in 0..ncon {
        while !pending.is_empty() && (s.bool() || vars.len() < 2) {
            let st = pending.pop().unwrap();
            vars.push(match st {
                Step::Pub(i) => V::Pub(i),
                Step::Aux(i) => V::Aux(i),
                _ => unreachable!(),
            });
            c.steps.push(st);
        }
        let kind = s.below(10);
        if kind == 0 && o.trivial {
            // constant / empty constraint
            match s.below(3) {
                0 => c.cons.push((vec![], vec![], vec![])),
                1 => {
                    let (x, y): (F, F) = (s.field(), s.field());
                    c.cons.push((vec![(V::One, x)], vec![(V::One, y)], vec![(V::One, x * y)]))
                }
                _ => {
                    let l = gen_lc(s, &vars, o);
                    c.cons.push((l, vec![], vec![]))
                }
            }
            s.label("trivial-constraint");
            c.steps.push(Step::Con(k));
            continue;
        }
        let a = gen_lc(s, &vars, o);
        let b = gen_lc(s, &vars, o);
        let v = c.eval(&a) * c.eval(&b);
        let lc: Lc<F>;
        match s.below(4) {
            0 | 1 => {
                // output variable, possibly with an extra combination
                let mut l = if s.bool() { gen_lc(s, &vars, o) } else { vec![] };
                let coef: F = s.nonzero();
                let w = (v - c.eval(&l)) * coef.inverse().unwrap();
                let i = c.auxs.len();
                c.auxs.push(w);
                c.steps.push(Step::Aux(i));
                l.push((V::Aux(i), coef));
                vars.push(V::Aux(i));
                lc = l;
            }
            2 => {
                // correct with an existing non-zero variable
                let mut l = gen_lc(s, &vars, o);
                let d = v - c.eval(&l);
                let nz: Vec<V> = vars.iter().copied().filter(|x| !c.val(*x).is_zero() && (o.dups || !l.iter().any(|(w, _)| w == x))).collect();
                if nz.is_empty() {
                    // only possible without dups: drop the combination and use the constant
                    l = vec![(V::One, v)];
                } else {
                    let x = *s.pick(&nz);
                    l.push((x, d * c.val(x).inverse().unwrap()));
                }
                lc = l;
            }
            _ => {
                let mut l = gen_lc(s, &vars, o);
                if !o.dups {
                    l.retain(|(x, _)| *x != V::One);
                }
                let d = v - c.eval(&l);
                l.push((V::One, d));
                lc = l;
            }
        }
        c.cons.push((a, b, lc));
        c.steps.push(Step::Con(k));
    }
    while let Some(st) = pending.pop() {
        c.steps.push(st);
    }
    // number private variables by allocation order
    let mut map = vec![0usize; c.auxs.len()];
    let mut n = 0;
    for st in c.steps.iter_mut() {
        if let Step::Aux(i) = st {
            map[*i] = n;
            *i = n;
            n += 1;
        }
    }
    let mut vals = vec![F::zero(); n];
    for (i, m) in map.iter().enumerate() {
        vals[*m] = c.auxs[i];
    }
    c.auxs = vals;
    for (a, b, d) in c.cons.iter_mut() {
        for l in [a, b, d] {
            for (v, _) in l.iter_mut() {
                if let V::Aux(i) = v {
                    *i = map[*i];
                }
            }
        }
    }
    assert!(c.sat());
    let used = |v: V| c.cons.iter().any(|(a, b, d)| [a, b, d].iter().any(|l| l.iter().any(|(x, k)| *x == v && !k.is_zero())));
    if (0..c.pubs.len()).any(|i| !used(V::Pub(i))) {
        s.label("unused-public");
    }
    if (0..c.auxs.len()).any(|i| !used(V::Aux(i))) {
        s.label("unused-aux");
    }
    s.label(format!("pub={}", if c.pubs.len() > 3 { ">3".into() } else { c.pubs.len().to_string() }));
    s.label(match c.cons.len() {
        0 => "con=0",
        1 => "con=1",
        2..=4 => "con=2..4",
        5..=8 => "con=5..8",
        _ => "con>8",
    });
    if c.auxs.is_empty() {
        s.label("no-aux");
    }
    if c.auxs.len() > 2 * c.cons.len() {
        s.label("wide");
    }
    if c.cons.len() > 2 * (c.auxs.len() + c.pubs.len()) {
        s.label("tall");
    }
    s.note(c.describe());
    if c.nnz() > 0 {
        s.nontrivial();
    }
    c
}

/// A violating (circuit, assignment) pair obtained from a satisfied one; exactly or at least one
/// constraint is false.
pub fn gen_violation<F: PrimeField>(s: &mut Src, c: &Circ<F>) -> Option<Circ<F>> {
    for _ in 0..4 {
        match s.below(5) {
            // two errors that cancel if the constraints are added up with the wrong weights
            4 if c.cons.len() > 1 => {
                let k = s.below(c.cons.len());
                let j = (k + 1 + s.below(c.cons.len() - 1)) % c.cons.len();
                let side = *s.pick(&[2usize, 2, 0, 1]);
                let d: F = s.nonzero();
                let e = match s.below(4) {
                    0 => d,
                    1 => -d.double(),
                    _ => -d,
                };
                let b = c.break_con(k, side, d).break_con(j, side, e);
                if !b.sat() {
                    s.label("two-violated");
                    s.note(format!("violated {:?}", b.violated()));
                    return Some(b);
                }
            }
            0 if !c.pubs.is_empty() => {
                let mut b = c.clone();
                let i = s.below(c.pubs.len());
                let d: F = s.nonzero();
                b.pubs[i] += d;
                if !b.sat() {
                    s.label("public-changed");
                    s.note(format!("x{} changed, violated {:?}", i, b.violated()));
                    return Some(b);
                }
            }
            1 | 2 if !c.cons.is_empty() => {
                let k = s.below(c.cons.len());
                let side = *s.pick(&[2usize, 0, 1]);
                let d = s.nonzero();
                let b = c.break_con(k, side, d);
                if !b.sat() {
                    let n = b.violated().len();
                    s.label(if n == 1 { "one-violated" } else { "many-violated" });
                    s.note(format!("violated {:?}", b.violated()));
                    return Some(b);
                }
            }
            _ if !c.auxs.is_empty() => {
                let mut b = c.clone();
                let i = s.below(c.auxs.len());
                let d: F = s.nonzero();
                b.auxs[i] += d;
                if !b.sat() {
                    let n = b.violated().len();
                    s.label(if n == 1 { "one-violated" } else { "many-violated" });
                    s.note(format!("w{} changed, violated {:?}", i, b.violated()));
                    return Some(b);
                }
            }
            _ => {}
        }
    }
    None
}
