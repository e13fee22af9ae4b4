//! P10: Plonk soundness and binding.
use ark_bls12_381::Fr;
use ark_ff::{One, Zero};
use ark_serialize::CanonicalSerialize;
use vharness::plonk::*;
use vharness::tree::*;
use vharness::*;

fn prove(s: &mut Src, pk: &PK, p: &Prog) -> Option<Vec<u8>> {
    let mut rng = s.rng();
    let cs = p.build();
    match quiet(|| Plonk::prove(pk, &cs, &mut rng).ok().map(|x| ser(&x))) {
        Ok(x) => x,
        Err(_) => None,
    }
}
fn gen_wide(s: &mut Src, min: usize, max: usize) -> Prog {
    let max = if s.chance(1, 14) { 40 } else { max };
    gen_prog(s, min, max)
}
fn honest(s: &mut Src, max: usize) -> Result<(Prog, PK, VK, Vec<Fr>, Vec<u8>), Fail> {
    let p = gen_wide(s, 1, max);
    let ks = gen_ks(s);
    let (pk, vk) = keys(s, &p, ks)?;
    let x = p.build().public_inputs().to_vec();
    let pr = match prove(s, &pk, &p) {
        Some(x) => x,
        None => return fail("prove-error", "no honest proof"),
    };
    ensure!(accepts(&vk, &x, &pr), "rejected", "honest proof rejected");
    Ok((p, pk, vk, x, pr))
}
fn bound(s: &mut Src) -> R {
    let p = gen_prog(s, 1, 10);
    let ks = gen_ks(s);
    let (pk, vk) = keys(s, &p, ks)?;
    let cs = p.build();
    let x = cs.public_inputs().to_vec();
    let seed = s.u64();
    let mut rng = s.rng();
    vharness::bound::bound::<Fr>(s, PROOF, &proof_ops(), seed, 12, &|_, _| false, &mut || Plonk::prove(&pk, &cs, &mut rng).ok().map(|x| ser(&x)), &|b| accepts(&vk, &x, b))
}
/// under challenges fixed in advance a proof of one statement must not pass for another
fn claims(s: &mut Src) -> R {
    let p = gen_prog(s, 1, 10);
    let ks = gen_ks(s);
    let (pk, vk) = keys(s, &p, ks)?;
    let cs = p.build();
    let x = cs.public_inputs().to_vec();
    let seed = s.u64();
    let mut rng = s.rng();
    let pr = match vharness::bound::forced(seed, || Plonk::prove(&pk, &cs, &mut rng).ok().map(|x| ser(&x))) {
        Ok(Some(p)) => p,
        _ => return Ok(()),
    };
    let passes = |vk: &VK, x: &[Fr]| vharness::bound::forced(seed, || accepts(vk, x, &pr)) == Ok(true);
    if !passes(&vk, &x) {
        s.label("challenges cannot be fixed");
        return Ok(());
    }
    s.nontrivial();
    for _ in 0..3 {
        let mut y = x.clone();
        let i = s.below(y.len());
        if s.bool() {
            y[i] += s.nonzero::<Fr>();
        } else {
            let j = s.below(y.len());
            y.swap(i, j);
        }
        if y != x {
            s.label("claim: other public values");
            ensure!(!passes(&vk, &y), "unbound-claim", "under fixed challenges the proof passes for other public values (row {})", i);
        }
    }
    for _ in 0..2 {
        let mut q = p.clone();
        let d: Fr = s.nonzero();
        let at = s.below(q.ops.len());
        let mut cs = q.ops[at].coeffs();
        cs.retain(|(w, _)| *w != "pi");
        if cs.is_empty() {
            break;
        }
        let k = s.below(cs.len());
        *cs[k].1 += d;
        let what = cs[k].0;
        if q.sat() {
            continue;
        }
        let (_, vk2) = keys(s, &q, ks)?;
        s.label(format!("claim: another circuit, {}", what));
        ensure!(!passes(&vk2, &x), "unbound-claim", "under fixed challenges the proof passes for a circuit with another {}", what);
    }
    Ok(())
}
fn altered(s: &mut Src) -> R {
    let (p, pk, vk, x, pr) = honest(s, 10)?;
    let o = proof_ops();
    let t = Ty::p(PROOF).parse(&pr, &o)?;
    for _ in 0..8 {
        let (m, what) = match t.mutate(s, &o) {
            Some(x) => x,
            None => continue,
        };
        s.label(what.chars().filter(|c| !c.is_ascii_digit()).collect::<String>());
        ensure!(!accepts(&vk, &x, &m.ser()), "altered-accepted", "altered proof accepted: {}", what);
    }
    // components of a proof of the same circuit for other values
    let mut q = p.clone();
    for (v, o) in q.vals.iter_mut().zip(0..) {
        let _ = o;
        *v = s.field();
    }
    for i in 0..q.ops.len() {
        let d = q.ops[i].residue(&q.vals);
        if let Op::Eq { .. } = q.ops[i] {
            if !d.is_zero() {
                return Ok(());
            }
        }
        let neg = matches!(q.ops[i], Op::Const { .. });
        for (nm, c) in q.ops[i].coeffs() {
            if nm == "pi" {
                *c -= if neg { -d } else { d };
            }
        }
    }
    if !q.sat() {
        return Ok(());
    }
    let pr2 = match prove(s, &pk, &q) {
        Some(x) => x,
        None => return fail("prove-error", "no honest proof of the second instance"),
    };
    let x2 = q.build().public_inputs().to_vec();
    if x2 != x {
        ensure!(accepts(&vk, &x2, &pr2), "rejected", "honest proof of the second instance rejected");
        ensure!(!accepts(&vk, &x, &pr2), "wrong-public-accepted", "proof of another instance accepted");
    }
    let t2 = Ty::p(PROOF).parse(&pr2, &o)?;
    let (l1, l2) = (t.leaves(), t2.leaves());
    for _ in 0..3 {
        let i = s.below(l1.len());
        if l1.len() == l2.len() && l1[i].2 != l2[i].2 {
            let mut m = t.clone();
            m.set_leaf(i, l2[i].2.clone());
            s.label("component of a sibling proof");
            ensure!(!accepts(&vk, &x, &m.ser()), "altered-accepted", "component of another proof accepted: {}", l1[i].0);
        }
    }
    Ok(())
}
fn wrong_public(s: &mut Src) -> R {
    let (_, _, vk, x, pr) = honest(s, 10)?;
    for _ in 0..8 {
        let mut y = x.clone();
        let i = s.below(y.len());
        match s.below(8) {
            0 => y[i] += Fr::one(),
            1 => y[i] = s.field(),
            2 => y[i] = -y[i],
            3 => {
                let j = s.below(y.len());
                y.swap(i, j)
            }
            4 => {
                s.label("short");
                y.pop();
            }
            5 => {
                s.label("long zero");
                y.push(Fr::zero())
            }
            6 => {
                s.label("long");
                let n = s.range(1, 9);
                for _ in 0..n {
                    y.push(s.field())
                }
            }
            _ => {
                s.label("moved");
                y.rotate_left(1);
            }
        }
        if y != x {
            ensure!(!accepts(&vk, &y, &pr), "wrong-public-accepted", "accepted for other public inputs ({} instead of {})", y.len(), x.len());
        }
    }
    Ok(())
}
fn vk_bytes(v: &VK) -> Vec<u8> {
    let mut b = vec![];
    let _ = v.comms.serialize(&mut b);
    for k in &v.info.ks {
        b.extend(ser(k));
    }
    b
}
/// another circuit: one coefficient, constant or wire differs
fn other_circuit(s: &mut Src) -> R {
    let (p, _, vk, x, pr) = honest(s, 10)?;
    let ks = vk.info.ks;
    for _ in 0..4 {
        let mut q = p.clone();
        let i = s.below(q.ops.len());
        let nv = q.vals.len();
        let what = match s.below(4) {
            0 => {
                let mut c = q.ops[i].coeffs();
                c.retain(|(n, _)| *n != "pi");
                if c.is_empty() {
                    continue;
                }
                let k = s.below(c.len());
                *c[k].1 += s.nonzero::<Fr>();
                format!("coefficient {}", c[k].0)
            }
            1 => {
                let to = s.below(nv);
                let mut w = q.ops[i].wires();
                let k = s.below(w.len());
                *w[k] = to;
                "wire".to_string()
            }
            2 => {
                let l = s.below(nv);
                let r = s.below(nv);
                q.ops.push(Op::Eq { l, r });
                "one more equality".to_string()
            }
            _ => {
                q.ops.remove(i);
                "one gate less".to_string()
            }
        };
        let vk2 = match keys(s, &q, ks) {
            Ok((_, v)) => v,
            Err(f) => return Err(f),
        };
        if vk_bytes(&vk2) == vk_bytes(&vk) {
            continue;
        }
        s.label(&what);
        ensure!(!accepts(&vk2, &x, &pr), "other-circuit-accepted", "accepted under the key of another circuit ({})", what);
    }
    // other cosets
    let mut k2 = ks;
    k2[s.below(4)] = s.rand_field();
    let (_, vk2) = keys(s, &p, k2)?;
    if vk2.info.ks != ks {
        ensure!(!accepts(&vk2, &x, &pr), "other-circuit-accepted", "accepted under other coset representatives");
    }
    Ok(())
}
/// values that break a gate, proved with the repo's own prover
fn gate_violation(s: &mut Src) -> R {
    let p = gen_wide(s, 1, 10);
    let ks = gen_ks(s);
    let (pk, vk) = keys(s, &p, ks)?;
    for _ in 0..4 {
        let mut q = p.clone();
        let i = s.below(q.vals.len());
        match s.below(3) {
            0 => q.vals[i] += Fr::one(),
            1 => q.vals[i] = s.field(),
            _ => {
                let k = s.below(q.ops.len());
                for (n, c) in q.ops[k].coeffs() {
                    if n == "pi" {
                        *c += Fr::one();
                    }
                }
            }
        }
        if q.sat() {
            continue;
        }
        s.nontrivial();
        let x = q.build().public_inputs().to_vec();
        if let Some(pr) = prove(s, &pk, &q) {
            s.label("proof produced");
            ensure!(!accepts(&vk, &x, &pr), "violating-accepted", "a proof of a violated gate is accepted");
        }
    }
    Ok(())
}
/// values that break a wire: one use of a variable gets its own value, gates hold
fn wire_violation(s: &mut Src) -> R {
    let p = gen_wide(s, 2, 10);
    let ks = gen_ks(s);
    // the circuit pins one variable twice; the second time wrongly
    let c = *s.pick(&[Cheat::Wire, Cheat::Gate]);
    let q = cheat_prog(&p, s, c);
    let (pk, vk) = keys(s, &q, ks)?;
    let mut split = q.clone();
    if let Some(Op::Const { v, value, .. }) = split.ops.last_mut() {
        *v = p.vals.len();
        split.vals.push(*value);
    }
    ensure!(split.sat(), "harness", "split program unsatisfied");
    s.nontrivial();
    let x = split.build().public_inputs().to_vec();
    if let Some(pr) = prove(s, &pk, &split) {
        s.label("proof produced");
        ensure!(!accepts(&vk, &x, &pr), "violating-accepted", "a proof of a broken copy is accepted");
    }
    // a proof of the split circuit under the key of the joined one
    let (pk2, vk2) = keys(s, &split, ks)?;
    let pr = match prove(s, &pk2, &split) {
        Some(x) => x,
        None => return fail("prove-error", "no honest proof"),
    };
    ensure!(accepts(&vk2, &x, &pr), "rejected", "honest proof rejected");
    ensure!(!accepts(&vk, &x, &pr), "violating-accepted", "a proof of the circuit without one copy is accepted");
    Ok(())
}
/// any variable on several wires: some of its wires get a value of their own, public inputs make up for it in every gate
fn torn(s: &mut Src) -> R {
    let p = gen_wide(s, 1, 8);
    let ks = gen_ks(s);
    let mut uses: Vec<Vec<(usize, usize)>> = vec![vec![]; p.vals.len()];
    let mut q = p.clone();
    for i in 0..q.ops.len() {
        for (j, w) in q.ops[i].wires().into_iter().enumerate() {
            uses[*w].push((i, j));
        }
    }
    let many: Vec<usize> = (0..uses.len()).filter(|v| uses[*v].len() > 1).collect();
    if many.is_empty() {
        s.label("nothing shared");
        return Ok(());
    }
    let (pk, vk) = keys(s, &p, ks)?;
    for _ in 0..3 {
        // few uses first: those are what a rule about "shared" variables could leave out
        let v = if s.bool() { *many.iter().min_by_key(|v| uses[**v].len()).unwrap() } else { *s.pick(&many) };
        let n = uses[v].len();
        let mut away: Vec<bool> = (0..n).map(|_| s.bool()).collect();
        if !away.contains(&true) || !away.contains(&false) {
            let k = s.below(n);
            away = (0..n).map(|i| i == k).collect();
        }
        let mut q = p.clone();
        let w = q.vals.len();
        let d = s.nonzero::<Fr>();
        q.vals.push(p.vals[v] + d);
        for (k, (i, j)) in uses[v].iter().enumerate() {
            if away[k] {
                *q.ops[*i].wires()[*j] = w;
            }
        }
        let vals = q.vals.clone();
        for o in q.ops.iter_mut() {
            let d = o.residue(&vals);
            let neg = matches!(o, Op::Const { .. });
            for (nm, c) in o.coeffs() {
                if nm == "pi" {
                    *c -= if neg { -d } else { d };
                }
            }
        }
        if !q.sat() {
            s.label("equality gate");
            continue;
        }
        s.nontrivial();
        s.label(format!("{} wires", if n < 6 { n } else { 6 }));
        let x = q.build().public_inputs().to_vec();
        if let Some(pr) = prove(s, &pk, &q) {
            s.label("proof produced");
            ensure!(!accepts(&vk, &x, &pr), "torn-accepted", "a variable with two values ({} and {} of {} wires) is accepted", away.iter().filter(|a| !**a).count(), away.iter().filter(|a| **a).count(), n);
        }
        let (pk2, vk2) = keys(s, &q, ks)?;
        let pr = match prove(s, &pk2, &q) {
            Some(x) => x,
            None => return fail("prove-error", "no honest proof"),
        };
        ensure!(accepts(&vk2, &x, &pr), "rejected", "honest proof rejected");
        ensure!(!accepts(&vk, &x, &pr), "torn-accepted", "a proof of the circuit where the variable is torn into two is accepted");
    }
    Ok(())
}
fn forged(s: &mut Src) -> R {
    let p = gen_prog(s, 1, 8);
    let ks = gen_ks(s);
    // our own prover follows the protocol
    let h = cheat_prog(&p, s, Cheat::Honest);
    let (pk, vk) = keys(s, &h, ks)?;
    let mut rng = s.rng();
    let any = match prove(s, &pk, &h) {
        Some(x) => x,
        None => return fail("prove-error", "no honest proof"),
    };
    match quiet(|| forge(s, Cheat::Honest, &h, &pk, &any, &mut rng)) {
        Ok(Some((x, b))) if accepts(&vk, &x, &b) => s.label("own prover accepted"),
        _ => s.label("own prover refused"),
    }
    s.nontrivial();
    for _ in 0..5 {
        let c = *s.pick(CHEATS);
        let q = cheat_prog(&p, s, c);
        let (pk, vk) = keys(s, &q, ks)?;
        match quiet(|| forge(s, c, &q, &pk, &any, &mut rng)) {
            Ok(Some((x, b))) => {
                s.label(format!("{:?}", c));
                ensure!(!accepts(&vk, &x, &b), &format!("forged-{:?}", c), "a false statement is accepted ({:?})", c);
            }
            _ => s.label(format!("{:?} did not work out", c)),
        }
    }
    Ok(())
}
fn main() {
    vharness::main(
        "P10",
        "A case is a circuit with a false claim: broken gates or copies, other publics, other circuits, altered proofs, or a forged proof; non-trivial = the circuit has an arithmetic gate, or the claim is false by construction.",
        vec![
            sub("altered", 250, 8000, altered),
            sub("claims", 80, 2000, claims),
            sub("bound", 60, 3000, bound),
            sub("wrong_public", 200, 6000, wrong_public),
            sub("other_circuit", 150, 5000, other_circuit),
            sub("gate_violation", 200, 6000, gate_violation),
            sub("wire_violation", 150, 5000, wire_violation),
            sub("torn", 150, 5000, torn),
            sub("transcript", 50, 1000, vharness::transcripts::plonk),
            sub("forged", 200, 8000, forged),
        ],
    )
}
