//! A recording constraint system and a search for other satisfying assignments.
//!
//! `Cs` records a synthesized circuit with its honest assignment. `Search` fixes some variables,
//! propagates what the constraints force (single unknowns, quadratics in one unknown, sums of
//! bits) and guesses the rest with backtracking. Whatever assignment it reports satisfies every
//! recorded constraint, so a reported forgery is real; failing to find one proves nothing unless
//! the outcome is `Forced`/`Unsat`, which follow from propagation (and exhaustive guesses of bits).
use crate::*;
use ark_ff::{BigInteger, FpParameters, PrimeField, SquareRootField};
use zkp_r1cs::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};

pub trait Fld: PrimeField + SquareRootField {}
impl<T: PrimeField + SquareRootField> Fld for T {}
pub type Lc<F> = Vec<(usize, F)>;
#[derive(Clone)]
pub struct Cs<F: Fld> {
    /// value per variable in allocation order; variable 0 is the constant one
    pub vals: Vec<F>,
    pub inputs: Vec<usize>,
    pub aux: Vec<usize>,
    pub cons: Vec<[Lc<F>; 3]>,
    pub names: Vec<String>,
    /// annotations of the variables
    pub vnames: Vec<String>,
    path: Vec<String>,
    /// values are not asked for
    pub blank: bool,
}
impl<F: Fld> Cs<F> {
    pub fn new(blank: bool) -> Self {
        Cs { vals: vec![F::one()], inputs: vec![0], aux: vec![], cons: vec![], names: vec![], vnames: vec![String::new()], path: vec![], blank }
    }
    pub fn id(&self, v: Variable) -> usize {
        match v.get_unchecked() {
            Index::Input(i) => self.inputs[i],
            Index::Aux(i) => self.aux[i],
        }
    }
    pub fn val(&self, v: Variable) -> F {
        self.vals[self.id(v)]
    }
    fn lc(&self, l: &LinearCombination<F>) -> Lc<F> {
        let mut m = std::collections::BTreeMap::new();
        for (v, c) in l.as_ref() {
            *m.entry(self.id(*v)).or_insert(F::zero()) += *c;
        }
        m.into_iter().filter(|(_, c)| !c.is_zero()).collect()
    }
    pub fn lc_of(&self, l: &LinearCombination<F>) -> Lc<F> {
        self.lc(l)
    }
    pub fn eval(l: &Lc<F>, v: &[F]) -> F {
        l.iter().fold(F::zero(), |a, (i, c)| a + v[*i] * c)
    }
    /// first violated constraint
    pub fn violated(&self, v: &[F]) -> Option<usize> {
        self.cons.iter().position(|[a, b, c]| Self::eval(a, v) * Self::eval(b, v) != Self::eval(c, v))
    }
    pub fn sat(&self) -> bool {
        self.violated(&self.vals).is_none()
    }
    /// circuit without values
    pub fn shape(&self) -> (usize, usize, &Vec<[Lc<F>; 3]>) {
        (self.inputs.len(), self.aux.len(), &self.cons)
    }
}
impl<F: Fld> ConstraintSystem<F> for Cs<F> {
    type Root = Self;
    fn alloc<FN, A, AR>(&mut self, n: A, f: FN) -> Result<Variable, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = if self.blank { F::zero() } else { f()? };
        self.aux.push(self.vals.len());
        self.vnames.push(n().into());
        self.vals.push(v);
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<FN, A, AR>(&mut self, n: A, f: FN) -> Result<Variable, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = if self.blank { F::zero() } else { f()? };
        self.inputs.push(self.vals.len());
        self.vnames.push(n().into());
        self.vals.push(v);
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, name: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        let z = LinearCombination::zero;
        let k = [self.lc(&a(z())), self.lc(&b(z())), self.lc(&c(z()))];
        self.cons.push(k);
        let n: String = name().into();
        self.names.push(format!("{}/{}", self.path.join("/"), n));
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.path.push(n().into())
    }
    fn pop_namespace(&mut self) {
        self.path.pop();
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
    fn num_constraints(&self) -> usize {
        self.cons.len()
    }
}

/// 320-bit two's complement
#[derive(Clone, Copy)]
struct Int([u64; 5]);
impl Int {
    fn of<F: Fld>(f: &F) -> Int {
        let up = f.into_repr();
        let dn = (-*f).into_repr();
        let ext = |b: &[u64]| {
            let mut r = [0u64; 5];
            r[..b.len()].copy_from_slice(b);
            Int(r)
        };
        if up <= dn {
            ext(up.as_ref())
        } else {
            ext(dn.as_ref()).neg()
        }
    }
    fn modulus<F: Fld>() -> Int {
        let mut r = [0u64; 5];
        let m = F::Params::MODULUS;
        let m: &[u64] = m.as_ref();
        r[..m.len()].copy_from_slice(m);
        Int(r)
    }
    fn neg(self) -> Int {
        let mut r = [0u64; 5];
        let mut c = true;
        for i in 0..5 {
            let (x, o) = (!self.0[i]).overflowing_add(c as u64);
            r[i] = x;
            c = o;
        }
        Int(r)
    }
    fn add(self, o: Int) -> Int {
        let mut r = [0u64; 5];
        let mut c = 0u128;
        for i in 0..5 {
            let x = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = x as u64;
            c = x >> 64;
        }
        Int(r)
    }
    fn negative(&self) -> bool {
        self.0[4] >> 63 == 1
    }
    fn abs(self) -> Int {
        if self.negative() {
            self.neg()
        } else {
            self
        }
    }
    /// number of trailing zero bits
    fn val2(&self) -> u32 {
        let mut n = 0;
        for x in &self.0 {
            if *x != 0 {
                return n + x.trailing_zeros();
            }
            n += 64;
        }
        n
    }
    fn bits(&self) -> u32 {
        (0..5).rev().find(|i| self.0[*i] != 0).map(|i| 64 * i as u32 + 64 - self.0[i].leading_zeros()).unwrap_or(0)
    }
}

#[derive(Clone)]
enum Dom<F> {
    Any,
    Bit,
    Of(Vec<F>),
}
#[derive(Clone)]
struct St<F> {
    val: Vec<Option<F>>,
    dom: Vec<Dom<F>>,
}
pub enum Found<F> {
    /// no satisfying assignment
    Unsat,
    Sat(Vec<F>),
    /// gave up
    Unknown,
}
pub struct Search<'a, F: Fld> {
    cs: &'a Cs<F>,
    uses: Vec<Vec<u32>>,
    /// order of work: long constraints wait until no short one has anything to say
    key: Vec<u32>,
    /// guesses before giving up
    pub budget: usize,
    hint: Vec<F>,
    /// choose the other value first for guessed bits
    flip: bool,
    seed: u64,
}
struct Dead;
impl<'a, F: Fld> Search<'a, F> {
    pub fn new(cs: &'a Cs<F>) -> Self {
        let mut uses = vec![vec![]; cs.vals.len()];
        for (k, c) in cs.cons.iter().enumerate() {
            for l in c {
                for (i, _) in l {
                    if uses[*i].last() != Some(&(k as u32)) {
                        uses[*i].push(k as u32);
                    }
                }
            }
        }
        let key = cs.cons.iter().enumerate().map(|(k, c)| k as u32 | ((c.iter().map(|l| l.len()).sum::<usize>() > 40) as u32) << 31).collect();
        Search { cs, uses, key, budget: 200, hint: cs.vals.clone(), flip: false, seed: 1 }
    }
    fn start(&self, fixed: &[(usize, F)]) -> Result<St<F>, Dead> {
        let n = self.cs.vals.len();
        let mut st = St { val: vec![None; n], dom: vec![Dom::Any; n] };
        let mut queue: Vec<u32> = (0..self.cs.cons.len() as u32).rev().collect();
        st.val[0] = Some(F::one());
        for (i, v) in fixed {
            if let Some(w) = st.val[*i] {
                if w != *v {
                    return Err(Dead);
                }
            }
            st.val[*i] = Some(*v);
        }
        self.prop(&mut st, &mut queue, &mut vec![false; self.cs.cons.len()])?;
        Ok(st)
    }
    fn set(&self, st: &mut St<F>, i: usize, v: F, q: &mut Vec<u32>, inq: &mut [bool]) -> Result<(), Dead> {
        let ok = match &st.dom[i] {
            Dom::Any => true,
            Dom::Bit => v.is_zero() || v.is_one(),
            Dom::Of(d) => d.contains(&v),
        };
        if !ok {
            return Err(Dead);
        }
        st.val[i] = Some(v);
        for k in &self.uses[i] {
            if !inq[*k as usize] {
                inq[*k as usize] = true;
                q.push(*k);
            }
        }
        Ok(())
    }
    /// a domain was narrowed
    fn dom(&self, st: &mut St<F>, i: usize, d: Vec<F>, q: &mut Vec<u32>, inq: &mut [bool]) -> Result<(), Dead> {
        let d: Vec<F> = match &st.dom[i] {
            Dom::Any => d,
            Dom::Bit => d.into_iter().filter(|v| v.is_zero() || v.is_one()).collect(),
            Dom::Of(e) => d.into_iter().filter(|v| e.contains(v)).collect(),
        };
        match d.len() {
            0 => Err(Dead),
            1 => self.set(st, i, d[0], q, inq),
            _ => {
                let bit = d.iter().all(|v| v.is_zero() || v.is_one());
                let news = !matches!(&st.dom[i], Dom::Bit) && bit;
                st.dom[i] = if bit { Dom::Bit } else { Dom::Of(d) };
                if news {
                    for k in &self.uses[i] {
                        if !inq[*k as usize] {
                            inq[*k as usize] = true;
                            q.push(*k);
                        }
                    }
                }
                Ok(())
            }
        }
    }
    fn prop(&self, st: &mut St<F>, q: &mut Vec<u32>, inq: &mut Vec<bool>) -> Result<(), Dead> {
        for k in q.iter() {
            inq[*k as usize] = true;
        }
        // else oldest first: circuits are mostly listed in the order they are computed
        let mut heap: std::collections::BinaryHeap<std::cmp::Reverse<u32>> = q.drain(..).map(|k| std::cmp::Reverse(self.key[k as usize])).collect();
        let mut out = vec![];
        while let Some(std::cmp::Reverse(k)) = heap.pop() {
            let k = k & !(1 << 31);
            inq[k as usize] = false;
            self.one(st, k as usize, &mut out, inq)?;
            heap.extend(out.drain(..).map(|k| std::cmp::Reverse(self.key[k as usize])));
        }
        Ok(())
    }
    fn split(&self, st: &St<F>, l: &Lc<F>) -> (F, Lc<F>) {
        let mut c = F::zero();
        let mut u = vec![];
        for (i, k) in l {
            match st.val[*i] {
                Some(v) => {
                    if !v.is_zero() {
                        c += v * k
                    }
                }
                None => u.push((*i, *k)),
            }
        }
        (c, u)
    }
    fn one(&self, st: &mut St<F>, k: usize, q: &mut Vec<u32>, inq: &mut [bool]) -> Result<(), Dead> {
        let [a, b, c] = &self.cs.cons[k];
        let (a0, ua) = self.split(st, a);
        let (b0, ub) = self.split(st, b);
        if ua.is_empty() || ub.is_empty() {
            // linear
            let (m, u0, u) = if ua.is_empty() { (a0, b0, &ub) } else { (b0, a0, &ua) };
            let (c0, uc) = self.split(st, c);
            let k0 = m * u0 - c0;
            let mut t: std::collections::BTreeMap<usize, F> = Default::default();
            if !m.is_zero() {
                for (i, x) in u {
                    t.insert(*i, m * x);
                }
            }
            for (i, x) in uc {
                *t.entry(i).or_insert(F::zero()) -= x;
            }
            let t: Lc<F> = t.into_iter().filter(|(_, x)| !x.is_zero()).collect();
            return self.linear(st, k0, t, q, inq);
        }
        // a product of two unknown sums
        let x = ua[0].0;
        self.derive(st, [(a0, &ua), (b0, &ub)], &c, q, inq)?;
        if st.val[x].is_some() {
            return Ok(());
        }
        if ua.len() > 1 || ub.len() > 1 || ub[0].0 != x {
            return Ok(());
        }
        let (c0, uc) = self.split(st, c);
        if uc.iter().any(|(i, _)| *i != x) {
            return Ok(());
        }
        let c1 = uc.first().map(|x| x.1).unwrap_or(F::zero());
        // (a1 x + a0)(b1 x + b0) = c1 x + c0
        let (a1, b1) = (ua[0].1, ub[0].1);
        let p = a1 * b1;
        let h = a1 * b0 + b1 * a0 - c1;
        let r = a0 * b0 - c0;
        let two = F::one() + F::one();
        match (h * h - two * two * p * r).sqrt() {
            None => Err(Dead),
            Some(s) => {
                let i = (two * p).inverse().expect("nonzero");
                let (x1, x2) = ((s - h) * i, (-s - h) * i);
                let mut d = vec![x1];
                if x2 != x1 {
                    d.push(x2);
                }
                self.dom(st, x, d, q, inq)
            }
        }
    }
    /// the values a variable can take as the others are bits: sum of the c part = product of a and b
    fn derive(&self, st: &mut St<F>, ab: [(F, &Lc<F>); 2], c: &Lc<F>, q: &mut Vec<u32>, inq: &mut [bool]) -> Result<(), Dead> {
        let (c0, uc) = self.split(st, c);
        let mut x = None;
        for (i, k) in &uc {
            if matches!(st.dom[*i], Dom::Any) {
                if x.is_some() {
                    return Ok(());
                }
                x = Some((*i, *k));
            }
        }
        let (x, cx) = match x {
            Some(x) => x,
            None => return Ok(()),
        };
        let mut bits: Vec<usize> = vec![];
        for (i, _) in ab[0].1.iter().chain(ab[1].1).chain(&uc) {
            if *i != x && !bits.contains(i) {
                if bits.len() == 4 || !matches!(st.dom[*i], Dom::Bit) {
                    return Ok(());
                }
                bits.push(*i);
            }
        }
        if ab.iter().any(|l| l.1.iter().any(|(i, _)| *i == x)) {
            return Ok(());
        }
        let inv = cx.inverse().unwrap();
        // short constraints among these bits alone rule out combinations
        let mut side: Vec<Vec<(F, Lc<F>)>> = vec![];
        let mut seen = vec![];
        for k in bits.iter().flat_map(|b| self.uses[*b].iter()) {
            let con = &self.cs.cons[*k as usize];
            if con.iter().map(|l| l.len()).sum::<usize>() > 6 || seen.contains(k) {
                continue;
            }
            seen.push(*k);
            if con.iter().all(|l| l.iter().all(|(i, _)| st.val[*i].is_some() || bits.contains(i))) {
                side.push(con.iter().map(|l| self.split(st, l)).collect());
            }
        }
        let mut d: Vec<F> = vec![];
        for m in 0..1usize << bits.len() {
            let ev = |z: F, l: &Lc<F>| l.iter().fold(z, |a, (i, k)| if bits.iter().position(|b| b == i).map(|n| m >> n & 1 == 1).unwrap_or(false) { a + k } else { a });
            if side.iter().any(|s| ev(s[0].0, &s[0].1) * ev(s[1].0, &s[1].1) != ev(s[2].0, &s[2].1)) {
                continue;
            }
            let v = (ev(ab[0].0, ab[0].1) * ev(ab[1].0, ab[1].1) - ev(c0, &uc)) * inv;
            if !d.contains(&v) {
                d.push(v)
            }
        }
        if d.is_empty() {
            return Err(Dead);
        }
        self.dom(st, x, d, q, inq)
    }
    fn linear(&self, st: &mut St<F>, k0: F, mut t: Lc<F>, q: &mut Vec<u32>, inq: &mut [bool]) -> Result<(), Dead> {
        match t.len() {
            0 => return if k0.is_zero() { Ok(()) } else { Err(Dead) },
            1 => return self.set(st, t[0].0, -k0 * t[0].1.inverse().unwrap(), q, inq),
            _ => {}
        }
        let any: Vec<usize> = t.iter().filter(|(i, _)| !matches!(st.dom[*i], Dom::Bit)).map(|x| x.0).collect();
        if !any.is_empty() {
            if any.len() == 1 && t.len() <= 5 && matches!(st.dom[any[0]], Dom::Any) {
                let cx = t.iter().find(|x| x.0 == any[0]).unwrap().1;
                let i = -cx.inverse().unwrap();
                let mut d = vec![k0];
                for (_, c) in t.iter().filter(|x| x.0 != any[0]) {
                    let e: Vec<F> = d.iter().map(|x| *x + c).collect();
                    d.extend(e);
                }
                let mut d: Vec<F> = d.into_iter().map(|x| x * i).collect();
                d.sort();
                d.dedup();
                return self.dom(st, any[0], d, q, inq);
            }
            return Ok(());
        }
        // a sum of bits over the integers: z + sum is the only multiple of the modulus in reach
        let z = Int::of(&k0);
        let mut w: Vec<(u32, usize, Int)> = t.drain(..).map(|(i, c)| { let c = Int::of(&c); (c.val2(), i, c) }).collect();
        let zero = Int([0; 5]);
        let (mut lo, mut hi) = (zero, zero);
        for x in &w {
            if x.2.negative() {
                lo = lo.add(x.2)
            } else {
                hi = hi.add(x.2)
            }
        }
        if hi.bits() > 300 || lo.abs().bits() > 300 {
            return Ok(());
        }
        let p = Int::modulus::<F>();
        let mut lifts = vec![z.add(p.neg()).add(p.neg()), z.add(p.neg()), z, z.add(p), z.add(p).add(p)];
        // hi + lift >= 0 and lo + lift <= 0
        lifts.retain(|l| !hi.add(*l).negative() && !lo.add(*l).neg().negative());
        if hi.add(p.neg()).add(p.neg()).negative() && lo.add(p).add(p).neg().negative() {
            match lifts.len() {
                0 => return Err(Dead),
                1 => {}
                _ => return Ok(()),
            }
        } else {
            return Ok(());
        }
        let mut z = lifts[0];
        w.sort_by_key(|x| (x.0, x.1));
        for n in 0..w.len() {
            let (v, i, c) = w[n];
            if z.val2() < v {
                return Err(Dead);
            }
            if w.get(n + 1).map(|x| x.0 == v).unwrap_or(false) {
                return Ok(());
            }
            let bit = z.val2() == v;
            if bit {
                z = z.add(c);
            }
            self.set(st, i, if bit { F::one() } else { F::zero() }, q, inq)?;
        }
        if z.bits() != 0 {
            return Err(Dead);
        }
        Ok(())
    }
    fn guess(&self, st: &St<F>, left: &mut usize) -> Found<F> {
        // a bit (or a root) first, else any
        let un: Vec<usize> = (0..st.val.len()).filter(|i| st.val[*i].is_none()).collect();
        if un.is_empty() {
            let v: Vec<F> = st.val.iter().map(|x| x.unwrap()).collect();
            return match self.cs.violated(&v) {
                None => Found::Sat(v),
                Some(_) => Found::Unsat,
            };
        }
        let i = *un.iter().find(|i| !matches!(st.dom[**i], Dom::Any)).unwrap_or(&un[0]);
        let h = self.hint[i];
        let (mut cand, all) = match &st.dom[i] {
            Dom::Bit => (if h.is_one() ^ self.flip { vec![F::one(), F::zero()] } else { vec![F::zero(), F::one()] }, true),
            Dom::Of(d) => (d.clone(), true),
            Dom::Any => (vec![h, h + F::from(self.seed), F::zero(), F::one()], false),
        };
        if !all && self.flip {
            cand.rotate_left(1);
        }
        let mut unknown = !all;
        for v in cand {
            if *left == 0 {
                return Found::Unknown;
            }
            *left -= 1;
            let mut s2 = st.clone();
            let mut q = vec![];
            let mut inq = vec![false; self.cs.cons.len()];
            if self.set(&mut s2, i, v, &mut q, &mut inq).is_err() || self.prop(&mut s2, &mut q, &mut inq).is_err() {
                continue;
            }
            match self.guess(&s2, left) {
                Found::Sat(v) => return Found::Sat(v),
                Found::Unknown => unknown = true,
                Found::Unsat => {}
            }
        }
        if unknown {
            Found::Unknown
        } else {
            Found::Unsat
        }
    }
    /// the honest values wherever nothing speaks against them
    fn dive(&self, st: &St<F>) -> Option<Vec<F>> {
        let mut st = st.clone();
        let mut q = vec![];
        let mut inq = vec![false; self.cs.cons.len()];
        for i in 0..st.val.len() {
            if st.val[i].is_some() {
                continue;
            }
            let h = self.hint[i];
            let v = match &st.dom[i] {
                Dom::Any => h,
                Dom::Bit => if h.is_one() { F::one() } else { F::zero() },
                Dom::Of(d) => if d.contains(&h) { h } else { d[0] },
            };
            self.set(&mut st, i, v, &mut q, &mut inq).ok()?;
            self.prop(&mut st, &mut q, &mut inq).ok()?;
        }
        let v: Vec<F> = st.val.iter().map(|x| x.unwrap()).collect();
        self.cs.violated(&v).is_none().then(|| v)
    }
    /// any satisfying assignment with the given values
    pub fn solve(&self, fixed: &[(usize, F)]) -> Found<F> {
        match self.start(fixed) {
            Err(_) => Found::Unsat,
            Ok(st) => match self.dive(&st) {
                Some(v) => Found::Sat(v),
                None => self.guess(&st, &mut self.budget.clone()),
            },
        }
    }
    /// what the constraints force, given these values
    pub fn forced(&self, fixed: &[(usize, F)]) -> Option<Vec<Option<F>>> {
        self.start(fixed).ok().map(|s| s.val)
    }
}
/// Outcome of looking for another value of the targets.
pub enum Alt<F> {
    /// every target is forced: this input has no other result
    Forced,
    /// a satisfying assignment with the same inputs and another result
    Other(Vec<F>, String),
    /// not forced by our reasoning, but no other result found
    Open,
}
/// `inputs` keep their honest values; can any of the target sums take another value?
pub fn other_result<F: Fld>(cs: &Cs<F>, inputs: &[usize], targets: &[Lc<F>], s: &mut Src) -> Alt<F> {
    let fixed: Vec<(usize, F)> = inputs.iter().map(|i| (*i, cs.vals[*i])).collect();
    let mut se = Search::new(cs);
    let v = match se.start(&fixed) {
        Ok(v) => v,
        Err(_) => return Alt::Open,
    };
    let open: Vec<usize> = (0..targets.len()).filter(|t| targets[*t].iter().any(|(i, _)| v.val[*i].is_none())).collect();
    if open.is_empty() {
        return Alt::Forced;
    }
    let honest: Vec<F> = targets.iter().map(|t| Cs::eval(t, &cs.vals)).collect();
    let changed = |w: &[F]| targets.iter().zip(&honest).position(|(t, h)| Cs::eval(t, w) != *h);
    let free: Vec<usize> = (0..v.val.len()).filter(|i| v.val[*i].is_none()).collect();
    let mut proved = 0;
    let mut tries: Vec<(usize, bool)> = vec![];
    // a variable of an open target, then the first variables nothing forces
    for t in open.iter().take(4) {
        if let Some((i, _)) = targets[*t].iter().find(|(i, _)| v.val[*i].is_none()) {
            tries.push((*i, targets[*t].len() == 1 || targets[*t].iter().filter(|(i, _)| v.val[*i].is_none()).count() == 1));
        }
    }
    for i in free.iter().take(6) {
        tries.push((*i, false));
    }
    for _ in 0..6 {
        tries.push((*s.pick(&free), false));
    }
    se.seed = s.u64() | 2;
    for (n, (i, whole)) in tries.into_iter().enumerate() {
        let h = cs.vals[i];
        let cand: Vec<F> = match &v.dom[i] {
            Dom::Bit => vec![F::one() - h],
            Dom::Of(d) => d.iter().filter(|x| **x != h).cloned().collect(),
            Dom::Any => vec![h + F::from(se.seed), F::zero(), h + F::one()].into_iter().filter(|x| *x != h).collect(),
        };
        let finite = !matches!(&v.dom[i], Dom::Any);
        let mut dead = finite;
        for c in cand {
            for flip in &[false, true] {
                se.flip = *flip;
                let mut f = fixed.clone();
                f.push((i, c));
                match se.solve(&f) {
                    Found::Sat(w) => {
                        dead = false;
                        if let Some(t) = changed(&w) {
                            return Alt::Other(w, format!("target {} by changing variable {} to {}", t, i, c));
                        }
                    }
                    Found::Unsat => break,
                    Found::Unknown => dead = false,
                }
            }
        }
        if dead && whole && n < open.len().min(4) {
            proved += 1;
        }
    }
    if proved == open.len() {
        Alt::Forced
    } else {
        Alt::Open
    }
}
