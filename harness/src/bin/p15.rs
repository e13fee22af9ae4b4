//! P15: Libra soundness.
use ark_bls12_381::Bls12_381;
use ark_ff::{to_bytes, Field, One, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{Polynomial, UVPolynomial};
use merlin::Transcript;
use vharness::gkr::*;
use vharness::tree::*;
use vharness::*;
use zkp_curve::Curve;
use zkp_curve25519::Curve25519;
use zkp_libra::circuit::Circuit;
use zkp_libra::evaluate::*;
use zkp_libra::libra_linear_gkr::*;
use zkp_libra::libra_zk_linear_gkr::ZKLinearGKRProof;
use zkp_libra::params::Parameters;
use zkp_libra::sumcheck::SumCheckProof;

vharness::sigma_tests!(zkp_libra);

const ZK: &str = "{comm_witness:[g],proofs:[{one:{cp:[g],ce:[g],pr:[{d:g,cd:g,z:[f],zd:f,zb:f}]},two:{cp:[g],ce:[g],pr:[{d:g,cd:g,z:[f],zd:f,zb:f}]},x:g,y:g,z:g,prod:{a:g,b:g,d:g,z:[f]},eq:{a:g,z:f}}],prod_proof0:{l:[g],r:[g],delta:g,beta:g,z1:f,z2:f},comm_y0:g,eq_proof0:{a:g,z:f},prod_proof1:{l:[g],r:[g],delta:g,beta:g,z1:f,z2:f},comm_y1:g,eq_proof1:{a:g,z:f}}";
const PLAIN: &str = "[{one:{p:[[f]],v:[f]},two:{p:[[f]],v:[f]}}]";

fn shape(s: &mut Src, public_only: bool) -> Raw {
    gen_raw(s, 3, 8, public_only)
}
fn mk(r: &Raw) -> Circuit {
    Circuit::new(r.ni, r.na, &r.layers)
}
fn no(sig: &str, what: &str, r: Result<bool, String>) -> R {
    ensure!(r != Ok(true), sig, "accepted: {}", what);
    Ok(())
}
/// another vector: one entry changed, two exchanged, or another length
fn other<F: ark_ff::PrimeField>(s: &mut Src, v: &[F]) -> (Vec<F>, &'static str) {
    let mut w = v.to_vec();
    let what = match s.below(if w.is_empty() { 1 } else { 7 }) {
        0 => {
            w.push(s.field());
            "one entry more"
        }
        1 => {
            w.pop();
            "one entry less"
        }
        2 => {
            let (i, j) = (s.below(w.len()), s.below(w.len()));
            w.swap(i, j);
            "two entries exchanged"
        }
        3 => {
            w.clear();
            "no entries"
        }
        4 if w.len() > 1 => {
            // the same sum
            let d: F = s.nonzero();
            w[0] += d;
            w[1] -= d;
            "two entries shifted"
        }
        _ => {
            let i = s.below(w.len());
            let d: F = s.nonzero();
            w[i] += d;
            "one entry changed"
        }
    };
    (w, what)
}
/// another vector of the same length
fn same_len<F: ark_ff::PrimeField>(s: &mut Src, v: &[F]) -> Vec<F> {
    for _ in 0..20 {
        let (x, _) = other(s, v);
        if x.len() == v.len() && x != v {
            return x;
        }
    }
    let mut x = v.to_vec();
    x[0] += F::one();
    x
}
fn ser_plain<G: Curve>(p: &LinearGKRProof<G>) -> Vec<u8> {
    let mut v = (p.proofs.len() as u64).to_le_bytes().to_vec();
    for l in &p.proofs {
        v.extend(ser(&l.proof_phase_one));
        v.extend(ser(&l.proof_phase_two));
    }
    v
}
fn de_plain<G: Curve>(b: &[u8]) -> Option<LinearGKRProof<G>> {
    quiet(|| {
        use ark_serialize::CanonicalDeserialize;
        let mut r = &b[8..];
        let n = u64::from_le_bytes(b[..8].try_into().unwrap());
        let proofs = (0..n)
            .map(|_| LayerProof { proof_phase_one: SumCheckProof::deserialize(&mut r).unwrap(), proof_phase_two: SumCheckProof::deserialize(&mut r).unwrap() })
            .collect();
        LinearGKRProof { proofs }
    })
    .ok()
}
fn plain_statement<G: Curve>(s: &mut Src) -> R {
    let r = shape(s, false);
    let (i, a) = (gen_vals::<G::Fr>(s, r.ni), gen_vals::<G::Fr>(s, r.na));
    let c = mk(&r);
    let h = c.circuit_to_hash::<G>();
    let (p, out) = LinearGKRProof::<G>::prover(&c, &i, &a, h);
    let inp = r.input_layer(&i, &a);
    ensure!(p.verify(&c, &out, &inp, h), "plain-rejected", "honest proof refused");
    let (o2, w) = other(s, &out);
    if o2 != out {
        no("plain-wrong-output", w, quiet(|| p.verify(&c, &o2, &inp, h)))?;
    }
    let (i2, w) = other(s, &inp);
    if i2 != inp {
        no("plain-wrong-input", w, quiet(|| p.verify(&c, &out, &i2, h)))?;
    }
    // proof for another wiring
    let q = rewire(s, &r, false);
    if q != r {
        let d = mk(&q);
        let hd = d.circuit_to_hash::<G>();
        ensure!(hd != h, "circuit-digest", "circuits with different wiring share a digest");
        no("plain-other-circuit", "a proof for another circuit", quiet(|| p.verify(&d, &out, &inp, hd)))?;
        let out2 = q.eval(&i, &a).last().unwrap().clone();
        if out2 != out {
            s.label("rewired circuit with other outputs");
            no("plain-other-circuit", "the verifier's outputs", quiet(|| p.verify(&d, &out2, &inp, hd)))?;
            // a prover who runs the other circuit on this circuit's transcript
            let (f, o) = LinearGKRProof::<G>::prover(&d, &i, &a, h);
            no("plain-sibling", "a proof of the rewired circuit's outputs", quiet(|| f.verify(&c, &o, &inp, h)))?;
        }
    }
    Ok(())
}
fn plain_altered<G: Curve>(s: &mut Src) -> R {
    let r = shape(s, false);
    let (i, a) = (gen_vals::<G::Fr>(s, r.ni), gen_vals::<G::Fr>(s, r.na));
    let c = mk(&r);
    let h = c.circuit_to_hash::<G>();
    let (p, out) = LinearGKRProof::<G>::prover(&c, &i, &a, h);
    let inp = r.input_layer(&i, &a);
    ensure!(p.verify(&c, &out, &inp, h), "plain-rejected", "honest proof refused");
    let o = ops::<G::Affine>();
    let t = Ty::p(PLAIN).parse(&ser_plain(&p), &o)?;
    for _ in 0..8 {
        if let Some((m, w)) = t.mutate(s, &o) {
            s.label(w.chars().filter(|c| !c.is_ascii_digit()).collect::<String>());
            let q = match de_plain::<G>(&m.ser()) {
                Some(q) => q,
                None => continue,
            };
            no("plain-altered", &w, quiet(|| q.verify(&c, &out, &inp, h)))?;
        }
    }
    Ok(())
}
/// A prover of false outputs who obeys every verification equation but one.
fn plain_forged<G: Curve>(s: &mut Src) -> R {
    let r = shape(s, false);
    let (i, a) = (gen_vals::<G::Fr>(s, r.ni), gen_vals::<G::Fr>(s, r.na));
    let c = mk(&r);
    let h = c.circuit_to_hash::<G>();
    let vals = r.eval(&i, &a);
    let inp = vals[0].clone();
    let mut padded = vals.clone();
    for v in padded.iter_mut() {
        v.resize(v.len().next_power_of_two(), G::Fr::zero());
    }
    let truth = vals.last().unwrap();
    let out = same_len(s, truth);
    let mode = s.below(8);
    let at = s.range(1, r.layers.len());
    s.label(format!("cheat {} in layer {}", mode, at));
    s.nontrivial();
    let mut t = Transcript::new(b"libra - linear gkr");
    t.append_message(b"circuit_to_hash", &to_bytes!(h).unwrap());
    t.append_message(b"input", &to_bytes!(inp).unwrap());
    t.append_message(b"output", &to_bytes!(out).unwrap());
    let fr = |t: &mut Transcript, l: &'static [u8]| {
        let mut b = [0u8; 32];
        t.challenge_bytes(l, &mut b);
        random_bytes_to_fr::<G>(&b)
    };
    let bytes = |p: &DensePolynomial<G::Fr>| ser(p);
    let (mut claim, mut gu) = eval_output::<G>(&out, c.layers[c.depth - 1].bit_size, &mut t);
    let mut gv = gu.clone();
    let (mut alpha, mut beta) = (G::Fr::one(), G::Fr::zero());
    let mut lying = true;
    let mut proofs = vec![];
    // one sum-check of  f*g + h  ; `skip`: the first round does not add up to the claim
    let sumcheck = |mut f: Vec<G::Fr>, mut g: Vec<G::Fr>, mut hh: Vec<G::Fr>, claim: &mut G::Fr, skip: bool, t: &mut Transcript| {
        let (mut polys, mut rs) = (vec![], vec![]);
        let two = G::Fr::from(2u64);
        let mut first = true;
        while f.len() > 1 {
            let k = f.len() / 2;
            let at = |v: &Vec<G::Fr>, j: usize, x: G::Fr| v[j] + &(x * &(v[j + k] - &v[j]));
            let ev = |x: G::Fr| (0..k).fold(G::Fr::zero(), |m, j| m + &(at(&f, j, x) * &at(&g, j, x)) + &at(&hh, j, x));
            let (e0, e1, e2) = (ev(G::Fr::zero()), ev(G::Fr::one()), ev(two));
            let (c0, mut c1, mut c2) = (e0, G::Fr::zero(), G::Fr::zero());
            c2 += &((e2 - &(e1.double()) + &e0) * &two.inverse().unwrap());
            c1 += &(e1 - &e0 - &c2);
            // make it add up to the claim
            let gap = *claim - &(e0 + &e1);
            let c1 = if skip && first { c1 } else { c1 + &gap };
            first = false;
            let p = DensePolynomial::from_coefficients_vec(vec![c0, c1, c2]);
            t.append_message(b"poly", &bytes(&p));
            let x = fr(t, b"challenge_nextround");
            *claim = p.evaluate(&x);
            let fold = |v: &Vec<G::Fr>| (0..k).map(|j| at(v, j, x)).collect::<Vec<_>>();
            let (nf, ng, nh) = (fold(&f), fold(&g), fold(&hh));
            f = nf;
            g = ng;
            hh = nh;
            polys.push(p);
            rs.push(x);
        }
        (polys, rs, f[0], g[0], hh[0])
    };
    for d in (1..c.depth).rev() {
        let v = &padded[d - 1];
        let bits = c.layers[d - 1].bit_size;
        let (mh, ah1, ah2) = initialize_phase_one::<G>(&gu, &gv, &c.layers[d].gates, v, bits, alpha, beta);
        let g1: Vec<G::Fr> = mh.iter().zip(&ah1).map(|(x, y)| *x + y).collect();
        let here = d == at && lying;
        // once the lie is dropped (at a skipped equation) everything is honest
        let before = claim;
        let skip1 = here && mode == 4 && bits > 0;
        let (polys, ru, e0, e12, e3) = sumcheck(v.clone(), g1, ah2, &mut claim, skip1, &mut t);
        let _ = before;
        if skip1 {
            lying = false;
        }
        let (m, b, _) = initialize_phase_two::<G>(&gu, &gv, &ru, &c.layers[d].gates, v, bits, alpha, beta);
        // true sum of the second phase for a claimed value x at u
        let sum = |x: G::Fr| (0..v.len()).fold(G::Fr::zero(), |q, j| q + &((m[j] * &x + &b[j]) * &v[j]) + &(b[j] * &x));
        let mut x = e0;
        let mut one = vec![e0, e12, G::Fr::zero(), e3];
        // e12 = multiplication part + first addition part; only the sum matters
        if lying {
            let (s0, s1) = (sum(G::Fr::zero()), sum(G::Fr::one()));
            if mode == 1 {
                if let Some(k) = (s1 - &s0).inverse() {
                    x = (claim - &s0) * &k;
                    one[0] = x;
                }
            }
            if mode == 6 && here {
                lying = false; // the values do not match the last claim
                claim = sum(e0);
            } else {
                one[3] = claim - &(one[0] * &one[1]);
            }
        }
        t.append_message(b"claim_final", &to_bytes!(one).unwrap());
        let g2: Vec<G::Fr> = m.iter().zip(&b).map(|(p, q)| *p * &x + q).collect();
        let h2: Vec<G::Fr> = b.iter().map(|q| *q * &x).collect();
        let skip2 = d == at && lying && mode == 5 && bits > 0;
        let (polys2, rv, mut y, _, _) = sumcheck(v.clone(), g2, h2, &mut claim, skip2, &mut t);
        if skip2 {
            lying = false;
        }
        let (mut ag, mut mg) = c.layers[d].eval_operators::<G>(&gu, &gv, &ru, &rv, alpha, beta);
        if lying && mode != 1 {
            let solved = match (mode, d == at) {
                (2, true) => (x * &y).inverse().map(|k| mg = (claim - &(ag * &(x + &y))) * &k).map(|_| lying = false),
                (3, true) => (x + &y).inverse().map(|k| ag = (claim - &(mg * &x * &y)) * &k).map(|_| lying = false),
                (7, true) => {
                    lying = false;
                    Some(())
                }
                _ => (mg * &x + &ag).inverse().map(|k| y = (claim - &(ag * &x)) * &k),
            };
            if solved.is_none() {
                return Ok(());
            }
        }
        let two = vec![y, mg, ag];
        t.append_message(b"claim_final", &to_bytes!(two).unwrap());
        proofs.push(LayerProof::<G> {
            proof_phase_one: SumCheckProof { polys, poly_value_at_r: one },
            proof_phase_two: SumCheckProof { polys: polys2, poly_value_at_r: two },
        });
        gu = ru;
        gv = rv;
        if d > 1 {
            alpha = fr(&mut t, b"challenge_alpha");
            beta = fr(&mut t, b"challenge_beta");
            claim = alpha * &x + &(beta * &y);
        }
    }
    let p = LinearGKRProof::<G> { proofs };
    no(&format!("plain-forged-{}", mode), "a forged proof of false outputs", quiet(|| p.verify(&c, &out, &inp, h)))
}
struct Z<G: Curve> {
    params: Parameters<G>,
    h: G::Fr,
    ph: G::Fr,
}
fn zkp<G: Curve>(s: &mut Src, r: &Raw, c: &Circuit) -> (Z<G>, TapeRng) {
    let mut rng = s.rng();
    let params = Parameters::<G>::new(&mut rng, r.half().trailing_zeros() as usize + s.below(2));
    let ph = params.param_to_hash();
    (Z { params, h: c.circuit_to_hash::<G>(), ph }, rng)
}
fn zk_statement<G: Curve>(s: &mut Src) -> R {
    let pubonly = s.bool();
    let r = shape(s, pubonly);
    let (i, a) = (gen_vals::<G::Fr>(s, r.ni), gen_vals::<G::Fr>(s, r.na));
    let c = mk(&r);
    let (z, mut rng) = zkp::<G>(s, &r, &c);
    let (p, out) = ZKLinearGKRProof::<G>::prover(&z.params, &c, &i, &a, z.h, z.ph, &mut rng);
    let ok = |c: &Circuit, o: &Vec<G::Fr>, i: &Vec<G::Fr>, h: G::Fr, ph: G::Fr| quiet(|| p.verify(&z.params, c, o, i, h, ph));
    ensure!(ok(&c, &out, &i, z.h, z.ph) == Ok(true), "zk-rejected", "honest proof refused");
    for _ in 0..3 {
        let (o2, w) = other(s, &out);
        if o2 != out {
            no("zk-wrong-output", w, ok(&c, &o2, &i, z.h, z.ph))?;
        }
        let (i2, w) = other(s, &i);
        let full = |v: &[G::Fr]| {
            let mut v = v.to_vec();
            v.resize(v.len().max(r.half()), G::Fr::zero());
            v
        };
        if full(&i2) != full(&i) {
            no("zk-wrong-input", w, ok(&c, &out, &i2, z.h, z.ph))?;
        }
    }
    let q = rewire(s, &r, pubonly);
    if q != r {
        let d = mk(&q);
        let hd = d.circuit_to_hash::<G>();
        ensure!(hd != z.h, "circuit-digest", "circuits with different wiring share a digest");
        no("zk-other-circuit", "a proof for another circuit", ok(&d, &out, &i, hd, z.ph))?;
        let out2 = q.eval(&i, &a).last().unwrap().clone();
        if out2 != out {
            s.label("rewired circuit with other outputs");
            no("zk-other-circuit", "the verifier's outputs", ok(&d, &out2, &i, hd, z.ph))?;
            let (f, o) = ZKLinearGKRProof::<G>::prover(&z.params, &d, &i, &a, z.h, z.ph, &mut rng);
            if pubonly {
                s.label("sibling prover");
                no("zk-sibling", "a proof of the rewired circuit's outputs", quiet(|| f.verify(&z.params, &c, &o, &i, z.h, z.ph)))?;
            }
        }
    }
    // other parameters
    let p2 = Parameters::<G>::new(&mut rng, r.half().trailing_zeros() as usize);
    ensure!(p2.param_to_hash() != z.ph, "parameter-digest", "different parameters share a digest");
    no("zk-other-params", "other parameters", quiet(|| p.verify(&p2, &c, &out, &i, z.h, p2.param_to_hash())))?;
    no("zk-other-params", "other parameters' digest", ok(&c, &out, &i, z.h, p2.param_to_hash()))
}
fn zk_altered<G: Curve>(s: &mut Src) -> R {
    let r = shape(s, false);
    let (i, a) = (gen_vals::<G::Fr>(s, r.ni), gen_vals::<G::Fr>(s, r.na));
    let c = mk(&r);
    let (z, mut rng) = zkp::<G>(s, &r, &c);
    let (p, out) = ZKLinearGKRProof::<G>::prover(&z.params, &c, &i, &a, z.h, z.ph, &mut rng);
    ensure!(p.verify(&z.params, &c, &out, &i, z.h, z.ph), "zk-rejected", "honest proof refused");
    let o = ops::<G::Affine>();
    let t = Ty::p(ZK).parse(&ser(&p), &o)?;
    let (p2, _) = ZKLinearGKRProof::<G>::prover(&z.params, &c, &i, &a, z.h, z.ph, &mut rng);
    let t2 = Ty::p(ZK).parse(&ser(&p2), &o)?;
    let (l1, l2) = (t.leaves(), t2.leaves());
    for k in 0..8 {
        let (m, w) = if k == 7 {
            let j = s.below(l1.len());
            if l1[j].2 == l2[j].2 {
                continue;
            }
            let mut m = t.clone();
            m.set_leaf(j, l2[j].2.clone());
            (m, format!("sibling proof's {}", l1[j].0))
        } else {
            match t.mutate(s, &o) {
                Some(x) => x,
                None => continue,
            }
        };
        s.label(w.chars().filter(|c| !c.is_ascii_digit()).collect::<String>());
        let q: ZKLinearGKRProof<G> = match de(&m.ser()) {
            Some(q) => q,
            None => continue,
        };
        no("zk-altered", &w, quiet(|| q.verify(&z.params, &c, &out, &i, z.h, z.ph)))?;
    }
    Ok(())
}
fn plain_bound<G: Curve>(s: &mut Src) -> R {
    let r = shape(s, false);
    let (i, a): (Vec<G::Fr>, Vec<G::Fr>) = ((0..r.ni).map(|_| s.nonzero()).collect(), (0..r.na).map(|_| s.nonzero()).collect());
    let c = mk(&r);
    let h = c.circuit_to_hash::<G>();
    let inp = r.input_layer(&i, &a);
    let out = r.eval(&i, &a).last().unwrap().clone();
    // (a claim that is multiplied by a zero claim is anybody's)
    let p = LinearGKRProof::<G>::prover(&c, &i, &a, h).0;
    let t = Ty::p(PLAIN).parse(&ser_plain(&p), &ops::<G::Affine>())?;
    if t.leaves().iter().any(|(n, _, b)| n.contains(".v[") && b.iter().all(|x| *x == 0)) {
        return Ok(());
    }
    let seed = s.u64();
    vharness::bound::bound::<G::Fr>(s, PLAIN, &ops::<G::Affine>(), seed, 24, &|p, pair| pair && p.contains(".one.v["), &mut || Some(ser_plain(&LinearGKRProof::<G>::prover(&c, &i, &a, h).0)), &|b| match de_plain::<G>(b) {
        Some(q) => quiet(|| q.verify(&c, &out, &inp, h)) == Ok(true),
        None => false,
    })
}
/// the outputs, or an output more or less of value zero
fn other_out<F: ark_ff::PrimeField>(s: &mut Src, v: &[F]) -> Vec<F> {
    let mut w = v.to_vec();
    match s.below(4) {
        0 => {
            s.label("claim: one zero output more");
            w.push(F::zero());
        }
        1 if w.last().map(|x| x.is_zero()) == Some(true) => {
            s.label("claim: a zero output less");
            w.pop();
        }
        _ => {
            s.label("claim: other outputs");
            w = same_len(s, v);
        }
    }
    w
}
/// under challenges fixed in advance a proof of one statement must not pass for another
fn plain_claims<G: Curve>(s: &mut Src) -> R {
    let r = shape(s, false);
    let (i, a) = (gen_vals::<G::Fr>(s, r.ni), gen_vals::<G::Fr>(s, r.na));
    let c = mk(&r);
    let h = c.circuit_to_hash::<G>();
    let inp = r.input_layer(&i, &a);
    let seed = s.u64();
    let (p, out) = match vharness::bound::forced(seed, || LinearGKRProof::<G>::prover(&c, &i, &a, h)) {
        Ok(x) => x,
        _ => return Ok(()),
    };
    let ok = |c: &Circuit, o: &Vec<G::Fr>, i: &Vec<G::Fr>| vharness::bound::forced(seed, || p.verify(c, o, i, h)) == Ok(true);
    if !ok(&c, &out, &inp) {
        s.label("challenges cannot be fixed");
        return Ok(());
    }
    s.nontrivial();
    for _ in 0..4 {
        let o = other_out(s, &out);
        ensure!(!ok(&c, &o, &inp), "unbound-claim", "under fixed challenges a plain proof passes for other outputs");
        let x = same_len(s, &inp);
        ensure!(!ok(&c, &out, &x), "unbound-claim", "under fixed challenges a plain proof passes for other inputs");
    }
    let q = rewire(s, &r, false);
    if q != r && q.eval(&i, &a).last() != Some(&out) {
        s.label("claim: another circuit");
        ensure!(!ok(&mk(&q), &out, &inp), "unbound-claim", "under fixed challenges a plain proof passes for another circuit");
    }
    Ok(())
}
fn zk_claims<G: Curve>(s: &mut Src) -> R {
    let r = shape(s, false);
    let (i, a) = (gen_vals::<G::Fr>(s, r.ni), gen_vals::<G::Fr>(s, r.na));
    let c = mk(&r);
    let (z, mut rng) = zkp::<G>(s, &r, &c);
    let seed = s.u64();
    let (p, out) = match vharness::bound::forced(seed, || ZKLinearGKRProof::<G>::prover(&z.params, &c, &i, &a, z.h, z.ph, &mut rng)) {
        Ok(x) => x,
        _ => return Ok(()),
    };
    let ok = |c: &Circuit, o: &Vec<G::Fr>, i: &Vec<G::Fr>| vharness::bound::forced(seed, || p.verify(&z.params, c, o, i, z.h, z.ph)) == Ok(true);
    if !ok(&c, &out, &i) {
        s.label("challenges cannot be fixed");
        return Ok(());
    }
    s.nontrivial();
    for _ in 0..4 {
        let o = other_out(s, &out);
        ensure!(!ok(&c, &o, &i), "unbound-claim", "under fixed challenges a zero-knowledge proof passes for other outputs");
        if !i.is_empty() {
            let x = same_len(s, &i);
            ensure!(!ok(&c, &out, &x), "unbound-claim", "under fixed challenges a zero-knowledge proof passes for other public inputs");
        }
    }
    let q = rewire(s, &r, false);
    if q != r && q.eval(&i, &a).last() != Some(&out) {
        s.label("claim: another circuit");
        ensure!(!ok(&mk(&q), &out, &i), "unbound-claim", "under fixed challenges a zero-knowledge proof passes for another circuit");
    }
    Ok(())
}
fn zk_bound<G: Curve>(s: &mut Src) -> R {
    let r = shape(s, false);
    let (i, a) = (gen_vals::<G::Fr>(s, r.ni), gen_vals::<G::Fr>(s, r.na));
    let c = mk(&r);
    let (z, mut rng) = zkp::<G>(s, &r, &c);
    let out = r.eval(&i, &a).last().unwrap().clone();
    let seed = s.u64();
    vharness::bound::bound::<G::Fr>(s, ZK, &ops::<G::Affine>(), seed, 24, &|_, _| false, &mut || Some(ser(&ZKLinearGKRProof::<G>::prover(&z.params, &c, &i, &a, z.h, z.ph, &mut rng).0)), &|b| match de::<ZKLinearGKRProof<G>>(b) {
        Some(q) => quiet(|| q.verify(&z.params, &c, &out, &i, z.h, z.ph)) == Ok(true),
        None => false,
    })
}
type B = Bls12_381;
type C = Curve25519;
fn main() {
    vharness::main(
        "P15",
        "A case is a random layered circuit and inputs with a false claim derived from an honest proof (changed outputs, inputs, circuit, parameters or proof component) or a forged proof of false outputs that violates a single verification equation; non-trivial = at least two gate layers and a multiplication, or a forgery.",
        vec![
            sub("plain-statement-bls", 1000, 20000, plain_statement::<B>),
            sub("plain-altered-25519", 2000, 40000, plain_altered::<C>),
            sub("plain-forged-bls", 1500, 40000, plain_forged::<B>),
            sub("plain-forged-25519", 1500, 40000, plain_forged::<C>),
            sub("zk-statement-bls", 100, 2500, zk_statement::<B>),
            sub("zk-statement-25519", 800, 12000, zk_statement::<C>),
            sub("zk-altered-bls", 100, 2500, zk_altered::<B>),
            sub("zk-altered-25519", 1000, 20000, zk_altered::<C>),
            sub("plain-claims", 600, 20000, plain_claims::<C>),
            sub("zk-claims-bls", 40, 1000, zk_claims::<B>),
            sub("zk-claims-25519", 250, 6000, zk_claims::<C>),
            sub("plain-bound", 400, 20000, plain_bound::<vharness::clear::Clear>),
            sub("zk-bound", 200, 8000, zk_bound::<vharness::clear::Clear>),
            sub("zk-bound-25519", 40, 1000, zk_bound::<C>),
            sub("transcript-plain", 150, 4000, vharness::transcripts::libra_plain::<C>),
            sub("transcript-zk", 40, 1000, |s| if s.below(4) == 0 { vharness::transcripts::libra_zk::<B>(s) } else { vharness::transcripts::libra_zk::<C>(s) }),
            sub("sub-proofs-scalar-bls", 60, 1000, sigma::scalars::<B>),
            sub("sub-proofs-scalar-25519", 200, 5000, sigma::scalars::<C>),
            sub("sub-proofs-dot-bls", 60, 1000, sigma::dot::<B>),
            sub("sub-proofs-dot-25519", 300, 6000, sigma::dot::<C>),
            sub("sub-proofs-table-bls", 40, 800, sigma::table::<B>),
            sub("sub-proofs-table-25519", 200, 4000, sigma::table::<C>),
        ],
    )
}
