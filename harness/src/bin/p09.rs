//! P09: Plonk completeness.
use ark_bls12_381::Fr;
use ark_ff::{One, Zero};
use vharness::circ::{gen_circ, Circ, Opts, V};
use vharness::plonk::*;
use vharness::*;

fn complete(s: &mut Src, p: &Prog) -> R {
    let ks = gen_ks(s);
    let (pk, vk) = keys(s, p, ks)?;
    let cs = p.build();
    let mut rng = s.rng();
    let proof = match Plonk::prove(&pk, &cs, &mut rng) {
        Ok(x) => x,
        Err(e) => return fail("prove-error", format!("{:?}", e)),
    };
    match Plonk::verify(&vk, cs.public_inputs(), proof) {
        Ok(true) => Ok(()),
        x => fail("rejected", format!("honest proof not accepted: {:?}", x)),
    }
}
fn small(s: &mut Src) -> R {
    let p = gen_prog(s, 0, 9);
    complete(s, &p)
}
fn boundary(s: &mut Src) -> R {
    let t = (1usize << s.below(6)) + s.below(3);
    let t = t.saturating_sub(1).max(1);
    s.label(format!("gates={}", t));
    let p = gen_prog(s, t, t);
    complete(s, &p)
}
fn large(s: &mut Src) -> R {
    let p = gen_prog(s, 40, 260);
    complete(s, &p)
}
/// a string too short for the circuit is refused, not cut to fit
fn too_large(s: &mut Src) -> R {
    let p = if s.bool() { gen_prog(s, 2, 20) } else { gen_prog(s, 2, 5) };
    let n = p.ops.len().max(1).next_power_of_two();
    if n < 2 {
        return Ok(());
    }
    let d = if s.bool() { n - 1 } else { s.range(1, n - 1) };
    let ks = gen_ks(s);
    match quiet(|| Plonk::keygen(srs(d), &p.build(), ks).is_ok()) {
        Ok(false) => Ok(()),
        Ok(true) => fail("too-large-accepted", format!("keys of a circuit of {} gates from a string of degree {}", p.ops.len(), d)),
        Err(m) => fail("too-large-panic", format!("keys of a circuit of {} gates from a string of degree {}: {}", p.ops.len(), d, m)),
    }
}
/// the keys come from a blank copy, the proof from the filled-in one
fn blank_keys(s: &mut Src) -> R {
    let p = gen_prog(s, 1, 9);
    let mut b = p.clone();
    for v in b.vals.iter_mut() {
        *v = s.field();
    }
    for o in b.ops.iter_mut() {
        for (n, c) in o.coeffs() {
            if n == "pi" {
                *c = s.field();
            }
        }
    }
    let ks = gen_ks(s);
    let (pk, vk) = keys(s, &b, ks)?;
    let cs = p.build();
    let mut rng = s.rng();
    match Plonk::prove(&pk, &cs, &mut rng).map(|x| Plonk::verify(&vk, cs.public_inputs(), x)) {
        Ok(Ok(true)) => Ok(()),
        x => fail("rejected", format!("honest proof not accepted: {:?}", x.map(|y| format!("{:?}", y)).map_err(|e| format!("{:?}", e)))),
    }
}
/// a rank-1 system translated gate by gate
fn translate(c: &Circ<Fr>) -> Prog {
    let mut p = Prog::default();
    let var = |v: &V| match v {
        V::One => 0,
        V::Pub(i) => 1 + i,
        V::Aux(i) => 1 + c.pubs.len() + i,
    };
    p.vals.push(Fr::one());
    p.vals.extend(c.pubs.iter());
    p.vals.extend(c.auxs.iter());
    p.ops.push(Op::Const { v: 0, value: Fr::one(), pi: Fr::zero() });
    for (i, x) in c.pubs.iter().enumerate() {
        p.ops.push(Op::Const { v: 1 + i, value: Fr::zero(), pi: *x });
    }
    for con in &c.cons {
        let mut side = [0usize; 3];
        for (k, lc) in [&con.0, &con.1, &con.2].iter().enumerate() {
            // running sum
            p.vals.push(Fr::zero());
            let mut acc = p.vals.len() - 1;
            p.ops.push(Op::Const { v: acc, value: Fr::zero(), pi: Fr::zero() });
            for (v, q) in lc.iter() {
                let i = var(v);
                let next = p.vals[acc] + p.vals[i] * q;
                p.vals.push(next);
                let o = p.vals.len() - 1;
                p.ops.push(Op::Add { l: acc, ql: Fr::one(), r: i, qr: *q, o, aux: None, qc: Fr::zero(), pi: Fr::zero() });
                acc = o;
            }
            side[k] = acc;
        }
        p.ops.push(Op::Mul { l: side[0], r: side[1], o: side[2], aux: None, qm: Fr::one(), qc: Fr::zero(), pi: Fr::zero() });
    }
    p
}
fn r1cs(s: &mut Src) -> R {
    let c: Circ<Fr> = gen_circ(s, &Opts { max_con: 4, max_aux: 4, max_pub: 3, max_lc: 4, ..Opts::default() });
    let p = translate(&c);
    ensure!(p.sat(), "translation", "the harness's own translation is wrong");
    complete(s, &p)
}
fn main() {
    vharness::main(
        "P09",
        "A case is a program of composer operations with satisfying values: keys, a proof, its verification; non-trivial = it has at least one addition or multiplication gate.",
        vec![
            sub("too-large", 150, 2000, too_large), sub("small", 1500, 20000, small),
            sub("boundary", 700, 6000, boundary),
            sub("blank_keys", 500, 6000, blank_keys),
            sub("r1cs", 250, 3000, r1cs),
            sub("large", 30, 300, large),
        ],
    )
}
