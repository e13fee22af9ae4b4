//! P26: range, non-zero and packed-equality circuits accept exactly the true cases.
use ark_ff::{BigInteger, FpParameters};
use vharness::wit::*;
use vharness::*;
use zkp_gadgets::algebra::boolean::*;
use zkp_gadgets::algebra::fr::AllocatedFr;
use zkp_gadgets::operator::{multieq::MultiEq, rangeproof::RangeProof};
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, LinearCombination};

fn pow2<F: Fld>(n: usize) -> F {
    F::from(2u64).pow(&[n as u64])
}
/// 0 < d < 2^n
fn within<F: Fld>(d: &F, n: usize) -> bool {
    let r = d.into_repr();
    !d.is_zero() && (r.num_bits() as usize) <= n
}
fn range<F: Fld>(s: &mut Src) -> R {
    // the difference has to be read off n + 1 bits without wrapping around the modulus
    let top = F::Params::CAPACITY as usize - 1;
    let n = match s.below(6) {
        0 => *s.pick(&[1usize, 2, 3]),
        1 => *s.pick(&[top, top - 1]),
        2 => *s.pick(&[8usize, 16, 31, 32, 33, 63, 64, 65, 127, 128]),
        _ => s.range(1, top),
    };
    let mut rng = s.rng();
    let small = |s: &mut Src, n: usize| -> F { (0..n).fold(F::zero(), |a, _| a.double() + F::from(s.below(2) as u64)) };
    let diff: F = match s.below(12) {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => pow2::<F>(n) - F::one(),
        4 => pow2(n),
        5 => pow2::<F>(n) + F::one(),
        6 => -pow2::<F>(n),
        7 => -small(s, n),
        8 => F::rand(&mut rng),
        9 => pow2::<F>(n) - small(s, n.min(4)),
        _ => small(s, n),
    };
    let a: F = match s.below(4) {
        0 => F::zero(),
        1 => F::rand(&mut rng),
        2 => -small(s, n.min(8)),
        _ => small(s, n),
    };
    let b = a + diff;
    let want = within(&diff, n);
    s.note(&format!("n {} a {} b {} difference {}", n, a, b, diff));
    s.label(if want { "true" } else { "false" });
    let mk = |v: bool| RangeProof::<F> { lhs: if v { Some(a) } else { None }, rhs: if v { Some(b) } else { None }, n: n as u64 };
    let mut cs = Cs::<F>::new(false);
    if let Err(e) = mk(true).generate_constraints(&mut cs) {
        return fail("synthesis", format!("{:?}", e));
    }
    let mut bk = Cs::<F>::new(true);
    if let Err(e) = mk(false).generate_constraints(&mut bk) {
        return fail("blank", format!("{:?}", e));
    }
    ensure!(cs.shape() == bk.shape(), "shape", "the circuit depends on the values");
    ensure!(cs.sat() == want, "verdict", "satisfied {}, true {}", cs.sat(), want);
    ensure!(cs.inputs.len() == 2 && cs.vals[cs.inputs[1]] == pow2(n), "public", "the public input is not 2^n");
    s.nontrivial();
    // the wires of the two values
    let wire = |nm: &str, v: F| {
        let l: Vec<usize> = (0..cs.vals.len()).filter(|i| cs.vnames[*i] == nm && cs.vals[*i] == v).collect();
        if l.len() == 1 {
            Some(l[0])
        } else {
            None
        }
    };
    let (wa, wb) = match (wire("A", a), wire("B", b)) {
        (Some(x), Some(y)) if x != y => (x, y),
        _ => {
            s.label("wires not found");
            return Ok(());
        }
    };
    let se = Search::new(&cs);
    match se.solve(&[(cs.inputs[1], pow2(n)), (wa, a), (wb, b)]) {
        Found::Sat(_) => ensure!(want, "forged", "a false claim can be satisfied"),
        Found::Unsat => ensure!(!want, "refused", "a true claim is refused"),
        Found::Unknown => s.label("open"),
    }
    Ok(())
}
fn nonzero<F: Fld>(s: &mut Src) -> R {
    let mut rng = s.rng();
    let x: F = match s.below(5) {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        _ => F::rand(&mut rng),
    };
    let input = s.bool();
    s.note(&format!("{} input {}", x, input));
    let al = |cs: &mut Cs<F>, x: F| if input { AllocatedFr::alloc_input(cs.ns(|| "x"), || Ok(x)) } else { AllocatedFr::alloc(cs.ns(|| "x"), || Ok(x)) };
    let mut cs = Cs::<F>::new(false);
    let v = al(&mut cs, x).unwrap();
    ensure!(v.get_value() == Some(x) && cs.val(v.get_variable()) == x, "alloc", "value lost");
    let r = v.isnonzero(cs.ns(|| "nz"));
    ensure!((r.is_ok() && cs.sat()) == !x.is_zero(), "verdict", "{} accepted: {}", x, r.is_ok() && cs.sat());
    // the circuit of some other value, with this one in its place
    let mut y = F::rand(&mut rng);
    if y.is_zero() {
        y = F::one();
    }
    let mut c2 = Cs::<F>::new(false);
    let w = al(&mut c2, y).unwrap();
    ensure!(w.isnonzero(c2.ns(|| "nz")).is_ok(), "verdict", "nonzero value refused");
    match Search::new(&c2).solve(&[(c2.id(w.get_variable()), x)]) {
        Found::Sat(_) => ensure!(!x.is_zero(), "forged", "zero passes as nonzero"),
        Found::Unsat => ensure!(x.is_zero(), "refused", "nonzero value refused"),
        Found::Unknown => s.label("open"),
    }
    // publishing a value
    let mut c3 = Cs::<F>::new(false);
    let w = AllocatedFr::alloc(c3.ns(|| "x"), || Ok(x)).unwrap();
    if let Err(e) = w.inputize(c3.ns(|| "in")) {
        return fail("inputize", format!("{:?}", e));
    }
    ensure!(c3.sat() && c3.inputs.len() == 2 && c3.vals[c3.inputs[1]] == x, "inputize", "wrong public input");
    if y != x {
        match Search::new(&c3).solve(&[(c3.id(w.get_variable()), x), (c3.inputs[1], y)]) {
            Found::Sat(_) => return fail("inputize-forged", "another public value passes"),
            Found::Unsat => {}
            Found::Unknown => s.label("open"),
        }
    }
    s.label(if x.is_zero() { "zero" } else { "nonzero" });
    s.nontrivial();
    Ok(())
}
/// Unequal strings whose differences are chosen, bit by bit, to add up to zero (or to the modulus) in
/// the constraint that checks them. `at`: string pair, side, bit, variable.
fn cancelling<F: Fld>(s: &mut Src, cs: &Cs<F>, at: &[(usize, usize, usize, usize)]) -> R {
    use std::collections::HashMap;
    let mut v = cs.vals.clone();
    let lhs: HashMap<(usize, usize), usize> = at.iter().filter(|x| x.1 == 0).map(|x| ((x.0, x.2), x.3)).collect();
    let rhs: HashMap<(usize, usize), usize> = at.iter().filter(|x| x.1 == 1).map(|x| ((x.0, x.2), x.3)).collect();
    for (k, r) in &rhs {
        v[*r] = v[lhs[k]];
    }
    if cs.violated(&v).is_some() {
        return Ok(());
    }
    let of: HashMap<usize, (usize, usize)> = lhs.iter().map(|(k, x)| (*x, *k)).collect();
    for c in &cs.cons {
        // the weight each bit of a left string has in the constraint
        let (a, b) = (Cs::eval(&c[0], &v), Cs::eval(&c[1], &v));
        let mut w: HashMap<usize, F> = HashMap::new();
        for (part, f) in c.iter().zip([b, a, -F::one()].iter()) {
            for (x, y) in part {
                *w.entry(*x).or_insert(F::zero()) += *y * f;
            }
        }
        let mut ws: Vec<((usize, usize), F)> = w.into_iter().filter_map(|(x, y)| of.get(&x).map(|k| (*k, y))).collect();
        ws.sort_by_key(|x| x.0);
        if ws.len() < 2 {
            continue;
        }
        let mut tries: Vec<Vec<((usize, usize), bool)>> = vec![];
        let mut seen: HashMap<F, (usize, usize)> = HashMap::new();
        for (k, y) in &ws {
            if y.is_zero() {
                tries.push(vec![(*k, true)]);
            }
            for (z, same) in [(*y, true), (-*y, false)].iter() {
                if let Some(o) = seen.get(z) {
                    tries.push(vec![(*k, true), (*o, !*same)]);
                }
            }
            seen.entry(*y).or_insert(*k);
        }
        // a difference of exactly the modulus
        let p: Vec<bool> = F::characteristic().iter().flat_map(|l| (0..64).map(move |i| l >> i & 1 == 1)).collect();
        for sign in [F::one(), -F::one()].iter() {
            let all: Option<Vec<_>> = p.iter().enumerate().filter(|x| *x.1).map(|(i, _)| seen.get(&(pow2::<F>(i) * sign)).map(|k| (*k, true))).collect();
            tries.extend(all);
        }
        for t in tries.into_iter().take(4) {
            let mut u = v.clone();
            for (k, up) in &t {
                u[lhs[k]] = if *up { F::one() } else { F::zero() };
                u[rhs[k]] = if *up { F::zero() } else { F::one() };
            }
            s.label("differences that cancel");
            // (a bit used twice keeps its last value)
            ensure!(cs.violated(&u).is_some(), "packed-cancel", "strings differing in {:?} pass", t.iter().map(|x| x.0).take(4).collect::<Vec<_>>());
        }
    }
    Ok(())
}
fn packed<F: Fld>(s: &mut Src) -> R {
    let cap = F::Params::CAPACITY as usize;
    let n = s.range(1, 12);
    let mut pairs: Vec<(Vec<bool>, Vec<bool>)> = vec![];
    let bad = if s.bool() { Some(s.below(n)) } else { None };
    for i in 0..n {
        let w = match s.below(6) {
            0 => *s.pick(&[1usize, 2]),
            1 => *s.pick(&[cap - 1, cap - 2, 127, 126, 128]),
            2 => 32,
            _ => s.range(1, 90),
        };
        let a: Vec<bool> = (0..w).map(|_| s.bool()).collect();
        let mut b = a.clone();
        if bad == Some(i) {
            match s.below(3) {
                0 => {
                    let j = s.below(w);
                    b[j] = !b[j];
                }
                1 => {
                    let j = w - 1;
                    b[j] = !b[j];
                }
                _ => b = (0..w).map(|_| s.bool()).collect(),
            }
        }
        pairs.push((a, b));
    }
    let want = pairs.iter().all(|(a, b)| a == b);
    let allocated = s.below(3);
    s.note(&format!("allocated {} {:?}", allocated, pairs.iter().map(|(a, b)| format!("{} {}", a.iter().map(|x| *x as u8).map(|x| x.to_string()).collect::<String>(), if a == b { "=".to_string() } else { b.iter().map(|x| *x as u8).map(|x| x.to_string()).collect::<String>() })).collect::<Vec<_>>()));
    let nested = s.bool();
    let mut cs = Cs::<F>::new(false);
    let mut src = vec![];
    let mut at = vec![];
    let one = Cs::<F>::one();
    {
        let mut me = MultiEq::<F, _>::new(&mut cs);
        for (i, (a, b)) in pairs.iter().enumerate() {
            let mut lcs = vec![];
            for (side, l) in [a, b].iter().enumerate() {
                let mut lc = LinearCombination::zero();
                let mut coeff = F::one();
                for (j, x) in l.iter().enumerate() {
                    let bit = if allocated == 0 || (allocated == 1 && side == 1) {
                        Boolean::constant(*x)
                    } else {
                        let v = AllocatedBit::alloc(me.ns(|| format!("{} {} {}", i, side, j)), Some(*x)).unwrap();
                        src.push(v.get_variable());
                        at.push((i, side, j, v.get_variable()));
                        v.into()
                    };
                    lc = lc + &bit.lc(one, coeff);
                    coeff.double_in_place();
                }
                lcs.push(lc);
            }
            if nested {
                let mut ns = me.ns(|| format!("pair {}", i));
                ns.get_root().enforce_equal(a.len(), &lcs[0], &lcs[1]);
            } else {
                me.enforce_equal(a.len(), &lcs[0], &lcs[1]);
            }
        }
    }
    ensure!(cs.sat() == want, "packed", "satisfied {}, equal {}", cs.sat(), want);
    let fixed: Vec<(usize, F)> = src.iter().map(|v| (cs.id(*v), cs.val(*v))).collect();
    match Search::new(&cs).solve(&fixed) {
        Found::Sat(_) => ensure!(want, "packed-forged", "unequal strings pass"),
        Found::Unsat => ensure!(!want, "packed", "equal strings refused"),
        Found::Unknown => s.label("open"),
    }
    if allocated == 2 {
        let at: Vec<(usize, usize, usize, usize)> = at.iter().map(|(i, d, j, v)| (*i, *d, *j, cs.id(*v))).collect();
        cancelling(s, &cs, &at)?;
    }
    s.label(if want { "equal" } else { "unequal" });
    s.label(format!("strings {}", n.min(6)));
    s.nontrivial();
    Ok(())
}
fn main() {
    type F = ark_bls12_381::Fr;
    type K = <zkp_curve25519::Curve25519 as zkp_curve::Curve>::Fr;
    vharness::main(
        "P26",
        "every case: a claim with its truth decided by integer arithmetic",
        vec![
            sub("range", 6000, 150000, range::<F>),
            sub("range-25519", 2000, 50000, range::<K>),
            sub("nonzero", 1000, 20000, nonzero::<F>),
            sub("nonzero-25519", 200, 4000, nonzero::<K>),
            sub("packed", 3000, 80000, packed::<F>),
            sub("packed-25519", 1000, 30000, packed::<K>),
        ],
    )
}
