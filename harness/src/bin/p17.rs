//! P17: Hyrax soundness.
use ark_bls12_381::Bls12_381;
use ark_ff::{to_bytes, One, UniformRand, Zero};
use merlin::Transcript;
use vharness::gkr::*;
use vharness::tree::*;
use vharness::*;
use zkp_curve::{AffineCurve, Curve, ProjectiveCurve};
use zkp_curve25519::Curve25519;
use zkp_hyrax::circuit::Circuit;
use zkp_hyrax::commitment::{EqProof, LogDotProductProof};
use zkp_hyrax::evaluate::*;
use zkp_hyrax::hyrax_proof::HyraxProof;
use zkp_hyrax::params::Parameters;
use zkp_hyrax::zk_sumcheck_proof::ZkSumcheckProof;

vharness::sigma_tests!(zkp_hyrax);

const ZK: &str = "{comm_witness:[g],proofs:[{prod:{a:g,b:g,d:g,z:[f]},a0:g,c:g,x:g,y:g,z:g,comm_polys:[g],comm_evals:[g],comm_deltas:[g],z_vec:[f],z_delta_vec:[f],zc:f}],prod_proof0:{l:[g],r:[g],delta:g,beta:g,z1:f,z2:f},comm_y0:g,eq_proof0:{a:g,z:f},prod_proof1:{l:[g],r:[g],delta:g,beta:g,z1:f,z2:f},comm_y1:g,eq_proof1:{a:g,z:f}}";

fn mk(r: &Raw) -> Circuit {
    Circuit::new(r.ni, r.na, &r.layers)
}
fn no(sig: &str, what: &str, r: Result<bool, String>) -> R {
    ensure!(r != Ok(true), sig, "accepted: {}", what);
    Ok(())
}
/// another vector: one entry changed, two exchanged, or another length
fn other<F: ark_ff::PrimeField>(s: &mut Src, v: &[F]) -> (Vec<F>, &'static str) {
    let mut w = v.to_vec();
    let what = match s.below(if w.is_empty() { 1 } else { 7 }) {
        0 => {
            w.push(s.field());
            "one entry more"
        }
        1 => {
            w.pop();
            "one entry less"
        }
        2 => {
            let (i, j) = (s.below(w.len()), s.below(w.len()));
            w.swap(i, j);
            "two entries exchanged"
        }
        3 => {
            w.clear();
            "no entries"
        }
        4 if w.len() > 1 => {
            // the same sum
            let d: F = s.nonzero();
            w[0] += d;
            w[1] -= d;
            "two entries shifted"
        }
        _ => {
            let i = s.below(w.len());
            let d: F = s.nonzero();
            w[i] += d;
            "one entry changed"
        }
    };
    (w, what)
}
/// another vector of the same length
fn same_len<F: ark_ff::PrimeField>(s: &mut Src, v: &[F]) -> Vec<F> {
    for _ in 0..20 {
        let (x, _) = other(s, v);
        if x.len() == v.len() && x != v {
            return x;
        }
    }
    let mut x = v.to_vec();
    x[0] += F::one();
    x
}

struct Inst<G: Curve> {
    r: Raw,
    c: Circuit,
    n: usize,
    ins: Vec<Vec<G::Fr>>,
    auxs: Vec<Vec<G::Fr>>,
    params: Parameters<G>,
    h: G::Fr,
    ph: G::Fr,
    rng: TapeRng,
}
fn inst<G: Curve>(s: &mut Src, public_only: bool) -> Inst<G> {
    let r = gen_raw(s, 3, 8, public_only);
    let lgn = if s.chance(1, 24) { 4 + s.below(2) } else { s.below(4) };
    let n = 1usize << lgn;
    s.label(format!("{} instances", n));
    let ins = (0..n).map(|_| gen_vals::<G::Fr>(s, r.ni)).collect();
    let auxs = (0..n).map(|_| gen_vals::<G::Fr>(s, r.na)).collect();
    let mut rng = s.rng();
    let params = Parameters::<G>::new(&mut rng, r.half().trailing_zeros() as usize + lgn + s.below(2));
    let c = mk(&r);
    let (h, ph) = (c.circuit_to_hash::<G>(), params.param_to_hash());
    Inst { r, c, n, ins, auxs, params, h, ph, rng }
}
/// another batch: one instance's vector altered, instances exchanged, dropped or added
fn other_batch<F: ark_ff::PrimeField>(s: &mut Src, v: &[Vec<F>]) -> (Vec<Vec<F>>, &'static str) {
    let mut w = v.to_vec();
    let what = match s.below(6) {
        0 => {
            let (i, j) = (s.below(w.len()), s.below(w.len()));
            w.swap(i, j);
            "two instances exchanged"
        }
        1 => {
            let x = w[s.below(w.len())].clone();
            w.push(x);
            "one instance more"
        }
        2 => {
            w.pop();
            "one instance less"
        }
        3 => {
            let x = w.clone();
            w.extend(x);
            "batch doubled"
        }
        4 if w.len() > 1 => {
            w.truncate(w.len() / 2);
            "half of the batch"
        }
        _ => {
            let i = s.below(w.len());
            let (x, what) = other(s, &w[i]);
            w[i] = x;
            what
        }
    };
    (w, what)
}
fn statement<G: Curve>(s: &mut Src) -> R {
    let pubonly = s.bool();
    let mut i = inst::<G>(s, pubonly);
    let (p, out) = HyraxProof::<G>::prover(&i.params, &i.auxs, &i.ins, &i.c, i.h, i.ph, i.n, &mut i.rng);
    let ok = |c: &Circuit, o: &Vec<Vec<G::Fr>>, n: &Vec<Vec<G::Fr>>, h: G::Fr, ph: G::Fr| quiet(|| p.verify(&i.params, o, n, c, h, ph));
    ensure!(ok(&i.c, &out, &i.ins, i.h, i.ph) == Ok(true), "zk-rejected", "honest proof refused");
    for _ in 0..3 {
        let (o2, w) = other_batch(s, &out);
        if o2 != out {
            no("wrong-output", w, ok(&i.c, &o2, &i.ins, i.h, i.ph))?;
        }
        let (i2, w) = other_batch(s, &i.ins);
        let full = |v: &Vec<Vec<G::Fr>>| {
            v.iter()
                .map(|x| {
                    let mut x = x.clone();
                    x.resize(x.len().max(i.r.half()), G::Fr::zero());
                    x
                })
                .collect::<Vec<_>>()
        };
        if full(&i2) != full(&i.ins) {
            no("wrong-input", w, ok(&i.c, &out, &i2, i.h, i.ph))?;
        }
        // a smaller or larger batch altogether
        if i.n > 1 {
            let k = i.n / 2;
            no("other-batch", "half of the batch", ok(&i.c, &out[..k].to_vec(), &i.ins[..k].to_vec(), i.h, i.ph))?;
        }
    }
    let q = rewire(s, &i.r, pubonly);
    if q != i.r {
        let d = mk(&q);
        let hd = d.circuit_to_hash::<G>();
        ensure!(hd != i.h, "circuit-digest", "circuits with different wiring share a digest");
        no("other-circuit", "a proof for another circuit", ok(&d, &out, &i.ins, hd, i.ph))?;
        let out2: Vec<Vec<G::Fr>> = (0..i.n).map(|k| q.eval(&i.ins[k], &i.auxs[k]).last().unwrap().clone()).collect();
        if out2 != out {
            s.label("rewired circuit with other outputs");
            no("other-circuit", "the verifier's outputs", ok(&d, &out2, &i.ins, hd, i.ph))?;
            if pubonly {
                s.label("sibling prover");
                let (f, o) = HyraxProof::<G>::prover(&i.params, &i.auxs, &i.ins, &d, i.h, i.ph, i.n, &mut i.rng);
                no("sibling", "a proof of the rewired circuit's outputs", quiet(|| f.verify(&i.params, &o, &i.ins, &i.c, i.h, i.ph)))?;
            }
        }
    }
    let p2 = Parameters::<G>::new(&mut i.rng, (i.r.half() * i.n).trailing_zeros() as usize);
    let ph2 = p2.param_to_hash();
    ensure!(ph2 != i.ph, "parameter-digest", "different parameters share a digest");
    no("other-params", "other parameters", quiet(|| p.verify(&p2, &out, &i.ins, &i.c, i.h, ph2)))?;
    no("other-params", "other parameters' digest", quiet(|| p.verify(&i.params, &out, &i.ins, &i.c, i.h, ph2)))
}
/// (the commitments to the intermediate values are absorbed, but no equation mentions them)
fn bound<G: Curve>(s: &mut Src) -> R {
    let mut i = inst::<G>(s, false);
    let out = HyraxProof::<G>::prover(&i.params, &i.auxs, &i.ins, &i.c, i.h, i.ph, i.n, &mut i.rng.clone()).1;
    let seed = s.u64();
    let mut rng = i.rng.clone();
    let i = &mut i;
    vharness::bound::bound::<G::Fr>(s, ZK, &ops::<G::Affine>(), seed, 24, &|p, _| p.contains(".comm_evals["), &mut || Some(ser(&HyraxProof::<G>::prover(&i.params, &i.auxs, &i.ins, &i.c, i.h, i.ph, i.n, &mut rng).0)), &|b| match de::<HyraxProof<G>>(b) {
        Some(q) => quiet(|| q.verify(&i.params, &out, &i.ins, &i.c, i.h, i.ph)) == Ok(true),
        None => false,
    })
}
/// under challenges fixed in advance a proof of one statement must not pass for another
fn claims<G: Curve>(s: &mut Src) -> R {
    let mut i = inst::<G>(s, false);
    let seed = s.u64();
    let (p, out) = match vharness::bound::forced(seed, || HyraxProof::<G>::prover(&i.params, &i.auxs, &i.ins, &i.c, i.h, i.ph, i.n, &mut i.rng)) {
        Ok(x) => x,
        _ => return Ok(()),
    };
    let ok = |c: &Circuit, o: &Vec<Vec<G::Fr>>, x: &Vec<Vec<G::Fr>>| vharness::bound::forced(seed, || p.verify(&i.params, o, x, c, i.h, i.ph)) == Ok(true);
    if !ok(&i.c, &out, &i.ins) {
        s.label("challenges cannot be fixed");
        return Ok(());
    }
    s.nontrivial();
    for _ in 0..4 {
        let mut o = out.clone();
        let k = s.below(i.n);
        match s.below(5) {
            0 => {
                s.label("claim: one zero output more");
                o[k].push(G::Fr::zero());
            }
            1 if o[k].last().map(|x| x.is_zero()) == Some(true) => {
                s.label("claim: a zero output less");
                o[k].pop();
            }
            2 => {
                s.label("claim: outputs of two instances exchanged");
                let j = s.below(i.n);
                o.swap(k, j);
            }
            _ => {
                s.label("claim: other outputs");
                o[k] = same_len(s, &out[k]);
            }
        }
        if o != out {
            ensure!(!ok(&i.c, &o, &i.ins), "unbound-claim", "under fixed challenges a proof passes for other outputs");
        }
        let mut x = i.ins.clone();
        if s.chance(1, 3) {
            let j = s.below(i.n);
            x.swap(k, j);
        } else if !x[k].is_empty() {
            x[k] = same_len(s, &i.ins[k]);
        }
        if x != i.ins {
            s.label("claim: other public inputs");
            ensure!(!ok(&i.c, &out, &x), "unbound-claim", "under fixed challenges a proof passes for other public inputs");
        }
    }
    let q = rewire(s, &i.r, false);
    if q != i.r && (0..i.n).any(|k| q.eval(&i.ins[k], &i.auxs[k]).last() != Some(&out[k])) {
        s.label("claim: another circuit");
        ensure!(!ok(&mk(&q), &out, &i.ins), "unbound-claim", "under fixed challenges a proof passes for another circuit");
    }
    Ok(())
}
fn altered<G: Curve>(s: &mut Src) -> R {
    let mut i = inst::<G>(s, false);
    let (p, out) = HyraxProof::<G>::prover(&i.params, &i.auxs, &i.ins, &i.c, i.h, i.ph, i.n, &mut i.rng);
    ensure!(p.verify(&i.params, &out, &i.ins, &i.c, i.h, i.ph), "zk-rejected", "honest proof refused");
    let o = ops::<G::Affine>();
    let t = Ty::p(ZK).parse(&ser(&p), &o)?;
    let (p2, _) = HyraxProof::<G>::prover(&i.params, &i.auxs, &i.ins, &i.c, i.h, i.ph, i.n, &mut i.rng);
    let t2 = Ty::p(ZK).parse(&ser(&p2), &o)?;
    let (l1, l2) = (t.leaves(), t2.leaves());
    for k in 0..8 {
        let (m, w) = if k == 7 {
            let j = s.below(l1.len());
            if l1[j].2 == l2[j].2 {
                continue;
            }
            let mut m = t.clone();
            m.set_leaf(j, l2[j].2.clone());
            (m, format!("sibling proof's {}", l1[j].0))
        } else {
            match t.mutate(s, &o) {
                Some(x) => x,
                None => continue,
            }
        };
        s.label(w.chars().filter(|c| !c.is_ascii_digit()).collect::<String>());
        let q: HyraxProof<G> = match de(&m.ser()) {
            Some(q) => q,
            None => continue,
        };
        no("altered", &w, quiet(|| q.verify(&i.params, &out, &i.ins, &i.c, i.h, i.ph)))?;
    }
    Ok(())
}
/// A prover of chosen outputs (and, unless `pubonly`, of other public inputs) who runs every layer
/// on the true values and substitutes the commitments the verifier should derive.
fn forged<G: Curve>(s: &mut Src) -> R {
    let mut i = inst::<G>(s, true);
    let (c, n, params) = (&i.c, i.n, &i.params);
    s.nontrivial();
    let lie_out = s.chance(2, 3);
    let evals: Vec<Vec<Vec<G::Fr>>> = (0..n).map(|k| c.evaluate::<G>(&i.ins[k], &i.auxs[k]).unwrap()).collect();
    let truth: Vec<Vec<G::Fr>> = evals.iter().map(|e| e[0].clone()).collect();
    let mut out = truth.clone();
    let mut ins = i.ins.clone();
    if lie_out {
        s.label("chosen outputs");
        let k = s.below(n);
        out[k] = same_len(s, &truth[k]);
    } else {
        // outputs of other inputs than the public ones
        s.label("outputs of other public inputs");
        let k = s.below(n);
        let (x, _) = other(s, &ins[k]);
        ins[k] = x;
        if ins[k].len() > i.r.half() || i.r.eval(&ins[k], &i.auxs[k]).last() == Some(&truth[k]) {
            return Ok(());
        }
    }
    let carry = s.below(3); // which of the derived commitments are replaced by the prover's
    let fr = |t: &mut Transcript, l: &'static [u8]| {
        let mut b = [0u8; 32];
        t.challenge_bytes(l, &mut b);
        random_bytes_to_fr::<G>(&b)
    };
    let mut t = Transcript::new(b"hyrax - linear gkr");
    t.append_message(b"circuit_to_hash", &to_bytes!(i.h).unwrap());
    t.append_message(b"param_to_hash", &to_bytes!(i.ph).unwrap());
    let mut wit = vec![];
    for k in 0..n {
        t.append_message(b"input_i", &to_bytes!(ins[k]).unwrap());
        t.append_message(b"output_i", &to_bytes!(out[k]).unwrap());
        let mut w = i.auxs[k].clone();
        w.resize(i.r.half(), G::Fr::zero());
        wit.extend(w);
    }
    let rng = &mut i.rng;
    let (comm_witness, wb) = packing_poly_commit::<G, _>(&params.pc_params.gen_n.generators, &wit, &params.pc_params.gen_n.h, rng, true);
    t.append_message(b"comm_witness", &to_bytes!(comm_witness).unwrap());
    let mut fork = t.clone();
    let (claimed, qa, ql) = eval_outputs::<G>(&out, &mut t);
    let (actual, _, _) = eval_outputs::<G>(&truth, &mut fork);
    let com = |v: G::Fr, b: G::Fr| poly_commit_vec::<G>(&params.sc_params.gen_1.generators, &vec![v], &params.sc_params.gen_1.h, b);
    let mut comm = com(claimed, G::Fr::zero());
    t.append_message(b"comm_claim_a0", &to_bytes!(comm).unwrap());
    let (mut qa, mut ql) = (qa, ql);
    let mut qr = ql.clone();
    let (mut u0, mut u1, mut rc0) = (G::Fr::one(), G::Fr::zero(), G::Fr::zero());
    let mut claim = actual;
    let mut proofs = vec![];
    let (mut x, mut y, mut rx, mut ry) = (G::Fr::zero(), G::Fr::zero(), G::Fr::zero(), G::Fr::zero());
    for d in 0..c.depth - 1 {
        let m = c.layers[c.depth - d - 2].gates_count;
        let ng = m.next_power_of_two();
        let mut le: Vec<Vec<G::Fr>> = (0..m).map(|g| (0..n).map(|k| evals[k][d + 1][g]).collect()).collect();
        le.resize(ng, vec![G::Fr::zero(); n]);
        let (mut p, a, l, r, ev, bl) =
            ZkSumcheckProof::<G>::prover(&params.sc_params, claim, comm, rc0, (u0, u1), (&qa, &ql, &qr), &c.layers[c.depth - d - 1].gates, &le, n, ng, rng, &mut t);
        if carry != 1 || d > 0 {
            p.comm_a0 = com(claim, rc0);
        }
        qa = a;
        ql = l;
        qr = r;
        x = ev[0];
        y = ev[1];
        rx = bl[0];
        ry = bl[1];
        if d < c.depth - 2 {
            u0 = fr(&mut t, b"u0");
            u1 = fr(&mut t, b"u1");
            comm = (p.comm_x.mul(u0) + &p.comm_y.mul(u1)).into_affine();
            rc0 = rx * &u0 + &(ry * &u1);
            claim = x * &u0 + &(y * &u1);
            t.append_message(b"comm_a_i", &to_bytes!(comm).unwrap());
        }
        proofs.push(p);
    }
    let mut end = |q: &Vec<G::Fr>, v: G::Fr, rv: G::Fr, t: &mut Transcript| {
        let mut pt = qa.clone();
        pt.extend_from_slice(&q[1..]);
        let b = G::Fr::rand(rng);
        let e = eval_value::<G>(&wit, &pt);
        let (p, cy) = LogDotProductProof::<G>::reduce_prover(&params.pc_params, &wit, &wb, &pt, b, e, rng, t);
        let eb = (G::Fr::one() - &q[0]) * &b;
        // the value the verifier derives from its own public inputs
        let mut pubs = vec![];
        for v in &ins {
            let mut v = v.clone();
            v.resize(i.r.half(), G::Fr::zero());
            pubs.extend(v);
        }
        let v2 = (G::Fr::one() - &q[0]) * &e + &(q[0] * &eval_value::<G>(&pubs, &pt));
        let eq = EqProof::<G>::prover(&params.pc_params.gen_1, v, rv, v2, eb, rng, t);
        (p, cy, eq)
    };
    let (prod_proof0, comm_y0, eq_proof0) = end(&ql, x, rx, &mut t);
    let (prod_proof1, comm_y1, eq_proof1) = end(&qr, y, ry, &mut t);
    let p = HyraxProof::<G> { comm_witness, proofs, prod_proof0, comm_y0, eq_proof0, prod_proof1, comm_y1, eq_proof1 };
    no(if lie_out { "forged-outputs" } else { "forged-inputs" }, "a forged proof", quiet(|| p.verify(params, &out, &ins, c, i.h, i.ph)))
}
type B = Bls12_381;
type C = Curve25519;
fn main() {
    vharness::main(
        "P17",
        "A case is a random layered circuit and a batch of instances with a false claim derived from an honest proof (changed outputs, inputs, batch, circuit, parameters or proof component) or a forged proof for chosen outputs or inputs; non-trivial = at least two gate layers and a multiplication, or a forgery.",
        vec![
            sub("statement-bls", 80, 2500, statement::<B>),
            sub("statement-25519", 600, 12000, statement::<C>),
            sub("altered-bls", 80, 2500, altered::<B>),
            sub("altered-25519", 800, 20000, altered::<C>),
            sub("claims-bls", 40, 1000, claims::<B>),
            sub("claims-25519", 200, 5000, claims::<C>),
            sub("bound", 200, 8000, bound::<vharness::clear::Clear>),
            sub("bound-25519", 40, 1000, bound::<C>),
            sub("forged-bls", 60, 2000, forged::<B>),
            sub("forged-25519", 400, 8000, forged::<C>),
            sub("transcript", 30, 600, |s| if s.below(4) == 0 { vharness::transcripts::hyrax::<B>(s) } else { vharness::transcripts::hyrax::<C>(s) }),
            sub("sub-proofs-scalar-bls", 60, 1000, sigma::scalars::<B>),
            sub("sub-proofs-scalar-25519", 200, 5000, sigma::scalars::<C>),
            sub("sub-proofs-dot-bls", 60, 1000, sigma::dot::<B>),
            sub("sub-proofs-dot-25519", 300, 6000, sigma::dot::<C>),
            sub("sub-proofs-table-bls", 40, 800, sigma::table::<B>),
            sub("sub-proofs-table-25519", 200, 4000, sigma::table::<C>),
        ],
    )
}
