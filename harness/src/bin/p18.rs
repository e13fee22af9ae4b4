//! P18: vector commitments over histories of updates.
use ark_bls12_381::{Bls12_381, Fr};
use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
use ark_ff::{Field, One, PrimeField, Zero};
use vharness::asvc::*;
use vharness::*;

fn check_all(c: &Ctx, v: &[Fr], com: &Commitment<E>, proofs: &[(u32, Proof<E>)], s: &mut Src) -> R {
    let fresh = commit::<E>(&c.p.proving_key, v.to_vec()).map_err(|e| Fail { sig: "commit-error".into(), msg: format!("{:?}", e) })?;
    ensure!(fresh.commit == com.commit, "updated-commitment", "the updated commitment is not the commitment of the updated vector");
    for (p, w) in proofs {
        let f = prove_pos::<E>(&c.p.proving_key, v.to_vec(), vec![*p]).unwrap();
        ensure!(f.w == w.w, "updated-proof", "the updated proof is not the proof of the updated vector");
    }
    // one of them through the verifier
    if !proofs.is_empty() {
        let (p, w) = &proofs[s.below(proofs.len())];
        ensure!(verify_pos::<E>(&c.p.verification_key, com, vec![v[*p as usize]], vec![*p], w, c.omega).unwrap(), "proof-rejected", "an updated proof is refused");
    }
    Ok(())
}
fn history(s: &mut Src) -> R {
    let c = pick_ctx(s);
    let v0 = vector(s, &c);
    let mut v = full(&v0, c.n);
    let n_arg = if s.bool() { c.asked } else { c.n };
    let mut com = commit::<E>(&c.p.proving_key, v0.clone()).unwrap();
    let mut pos = positions(s, c.n);
    pos.truncate(if c.n > 32 { 5 } else { 32 });
    let mut proofs: Vec<(u32, Proof<E>)> = pos.iter().map(|p| (*p, prove_pos::<E>(&c.p.proving_key, v0.clone(), vec![*p]).unwrap())).collect();
    let steps = s.range(1, if s.thorough { 24 } else { 10 });
    s.note(format!("n={} tracked={:?} steps={}", c.n, pos, steps));
    s.nontrivial();
    let mut last = 0u32;
    for _ in 0..steps {
        let j = match s.below(4) {
            0 => last,
            1 if !pos.is_empty() => *s.pick(&pos),
            _ => s.below(c.n) as u32,
        };
        last = j;
        let d: Fr = match s.below(6) {
            0 => Fr::zero(),
            1 => -v[j as usize],
            2 => v[(j as usize + 1) % c.n] - v[j as usize],
            _ => s.field(),
        };
        s.label(if pos.contains(&j) { "update of a proved position" } else { "update of another position" });
        let upk = &c.p.proving_key.update_keys;
        com = update_commit::<E>(&com, d, j, &upk[j as usize], c.omega, n_arg).unwrap();
        for (p, w) in proofs.iter_mut() {
            *w = update_proof::<E>(w, d, *p, j, &upk[*p as usize], &upk[j as usize], c.omega, n_arg).unwrap();
        }
        v[j as usize] += d;
        if s.chance(1, 4) {
            check_all(&c, &v, &com, &proofs, s)?;
        }
    }
    check_all(&c, &v, &com, &proofs, s)?;
    // aggregation of any subset of the up-to-date proofs
    let k = s.range(1, proofs.len());
    let sub: Vec<(u32, Proof<E>)> = proofs[..k].to_vec();
    let ps: Vec<u32> = sub.iter().map(|x| x.0).collect();
    let agg = aggregate_proofs::<E>(ps.clone(), sub.into_iter().map(|x| x.1).collect(), c.omega).unwrap();
    let multi = prove_pos::<E>(&c.p.proving_key, v.clone(), ps.clone()).unwrap();
    ensure!(agg.w == multi.w, "aggregate", "the aggregated proof is not the multi-position proof");
    let mut order: Vec<usize> = (0..k).collect();
    for i in 0..k {
        let j = s.range(i, k - 1);
        order.swap(i, j);
    }
    let ps2: Vec<u32> = order.iter().map(|i| ps[*i]).collect();
    ensure!(verify_pos::<E>(&c.p.verification_key, &com, at(&v, &ps2), ps2.clone(), &agg, c.omega).unwrap(), "proof-rejected", "an aggregated proof is refused");
    Ok(())
}
/// single and multi-position proofs of fresh vectors, and every algebraic object against a naive reference
fn fresh(s: &mut Src) -> R {
    let c = pick_ctx(s);
    let v0 = vector(s, &c);
    let v = full(&v0, c.n);
    let mut ps = positions(s, c.n);
    ps.truncate(if c.n > 32 { 16 } else { 32 });
    s.note(format!("n={} len={} positions={:?}", c.n, v0.len(), ps));
    s.nontrivial();
    let com = commit::<E>(&c.p.proving_key, v0.clone()).unwrap();
    let g = &c.p.proving_key.powers_of_g1;
    let co = interpolate(&v, c.omega);
    ensure!(com.commit == aff(msm(g, &co)), "commitment", "the commitment is not the interpolation's");
    let w = prove_pos::<E>(&c.p.proving_key, v0.clone(), ps.clone()).unwrap();
    ensure!(w.w == aff(msm(g, &quotient(co, &ps, c.omega))), "proof", "the proof is not the quotient's");
    ensure!(verify_pos::<E>(&c.p.verification_key, &com, at(&v, &ps), ps.clone(), &w, c.omega).unwrap(), "proof-rejected", "a multi-position proof is refused");
    let singles: Vec<Proof<E>> = ps.iter().map(|p| prove_pos::<E>(&c.p.proving_key, v0.clone(), vec![*p]).unwrap()).collect();
    let agg = aggregate_proofs::<E>(ps.clone(), singles, c.omega).unwrap();
    ensure!(agg.w == w.w, "aggregate", "the aggregated proof is not the multi-position proof");
    Ok(())
}
fn keys(s: &mut Src) -> R {
    let asked = match s.below(3) {
        0 => s.range(1, 4),
        1 => s.range(1, 20),
        _ => *s.pick(&[1usize, 2, 4, 8, 16]),
    };
    let c = ctx(asked, s.u64());
    let (pk, vk) = (&c.p.proving_key, &c.p.verification_key);
    let n = c.n;
    s.note(format!("asked={} n={}", asked, n));
    s.nontrivial();
    ensure!(pk.powers_of_g1 == vk.powers_of_g1 && pk.powers_of_g1.len() == n + 1 && vk.powers_of_g2.len() == n + 1 && pk.l_of_g1.len() == n && pk.update_keys.len() == n, "key-lengths", "wrong lengths");
    let e = |a, b| Bls12_381::pairing(a, b);
    for i in 0..n {
        ensure!(e(pk.powers_of_g1[i + 1], vk.powers_of_g2[0]) == e(pk.powers_of_g1[i], vk.powers_of_g2[1]), "powers", "powers in the first group");
        ensure!(e(pk.powers_of_g1[1], vk.powers_of_g2[i]) == e(pk.powers_of_g1[0], vk.powers_of_g2[i + 1]), "powers", "powers in the second group");
    }
    let g = &pk.powers_of_g1;
    ensure!(vk.a == (g[n].into_projective() - &g[0].into_projective()).into_affine(), "vanishing", "a is not g^(tau^n - 1)");
    for i in 0..n {
        let mut unit = vec![Fr::zero(); n];
        unit[i] = Fr::one();
        let l = interpolate(&unit, c.omega);
        ensure!(pk.l_of_g1[i] == aff(msm(g, &l)), "lagrange", "l_{} is not the Lagrange polynomial's", i);
        let k = &pk.update_keys[i];
        // a_i = A/(x - w^i) = n w^-i L_i ; u_i = (L_i - 1)/(x - w^i)
        let f = Fr::from(n as u64) * c.omega.pow(&[i as u64]).inverse().unwrap();
        ensure!(k.ai == pk.l_of_g1[i].mul(f.into_repr()).into_affine(), "update-key", "a_{}", i);
        ensure!(k.ui == aff(msm(g, &quotient(l, &[i as u32], c.omega))), "update-key", "u_{}", i);
        ensure!(verify_upk::<E>(vk, i as u32, k, c.omega).unwrap(), "update-key-rejected", "a genuine update key is refused");
    }
    Ok(())
}
fn main() {
    vharness::main(
        "P18",
        "A case is a random vector with a history of updates (repeated, zero, own-position) followed by comparison with fresh objects, or fresh objects and keys against a naive reference; every case is non-trivial.",
        vec![sub("history", 500, 10000, history), sub("fresh", 500, 10000, fresh), sub("keys", 40, 800, keys)],
    )
}
