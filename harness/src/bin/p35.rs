//! P35: native field-friendly hashes distinguish messages and never fail.
use vharness::wit::Fld;
use vharness::*;
use zkp_gadgets::hashes::{mimc, poseidon, rescue};

fn call<F: Fld>(k: usize, b: &[u8]) -> F {
    match k {
        0 => mimc::hash(b),
        1 => rescue::hash(b),
        _ => poseidon::hash(b),
    }
}
const NAME: [&str; 3] = ["mimc", "rescue", "poseidon"];
fn message(s: &mut Src, max: usize) -> Vec<u8> {
    let n = match s.below(5) {
        0 => *s.pick(&[0usize, 1, 2, 31, 32, 33, 63, 64, 65, 96]),
        1 => s.range(0, 32),
        _ => s.range(0, max),
    }
    .min(max);
    match s.below(6) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|i| if i % 32 == 31 { 0xff } else { s.u64() as u8 }).collect(),
        _ => (0..n).map(|_| s.u64() as u8).collect(),
    }
}
fn every_byte<F: Fld>(s: &mut Src, k: usize, max: usize, probes: usize) -> R {
    let m = message(s, max);
    s.note(&format!("{} {:02x?}", NAME[k], m));
    s.label(format!("{} {} chunks{}", NAME[k], (m.len() + 31) / 32, if m.len() % 32 == 0 { "" } else { ", the last one partial" }));
    let h: F = match quiet(|| call::<F>(k, &m)) {
        Ok(h) => h,
        Err(e) => return fail("panic", format!("hashing {} bytes panics: {}", m.len(), e)),
    };
    ensure!(h == call::<F>(k, &m), "deterministic", "two digests of one message");
    if m.is_empty() {
        s.nontrivial();
        return Ok(());
    }
    let all = m.len() <= probes;
    for j in 0..probes.min(m.len()) {
        let i = if all { j } else { s.below(m.len()) };
        let mut n = m.clone();
        n[i] ^= 1 << s.below(8);
        ensure!(call::<F>(k, &n) != h, "ignored", "byte {} of {} does not change the digest", i, m.len());
    }
    // bytes exchanged between places, blocks exchanged, a block changed to another
    let mut n = m.clone();
    match s.below(4) {
        0 => {
            let (i, j) = (s.below(m.len()), s.below(m.len()));
            n.swap(i, j);
        }
        1 if m.len() >= 64 => {
            let c = m.len() / 32;
            let (i, j) = (s.below(c), s.below(c));
            for t in 0..32 {
                n.swap(i * 32 + t, j * 32 + t);
            }
        }
        2 => n.rotate_left(1),
        _ => {
            let i = s.below(m.len());
            for x in &mut n[i..] {
                *x = s.u64() as u8;
            }
        }
    }
    // equal modulo the field's order is the one way chunks are the same element
    let same = m.chunks(32).zip(n.chunks(32)).all(|(a, b)| F::from_le_bytes_mod_order(a) == F::from_le_bytes_mod_order(b));
    if !same {
        ensure!(call::<F>(k, &n) != h, "collision", "{:02x?} has the same digest", n);
    }
    s.nontrivial();
    Ok(())
}
/// a set of messages of one length has as many digests
fn distinct<F: Fld>(s: &mut Src, k: usize) -> R {
    let n = s.range(1, 40);
    let base = message(s, n);
    if base.is_empty() {
        return Ok(());
    }
    s.note(&format!("{} around {:02x?}", NAME[k], base));
    let i = s.below(base.len());
    let mut seen = std::collections::BTreeMap::new();
    for x in 0..=255u8 {
        let mut m = base.clone();
        m[i] = x;
        let h: F = call(k, &m);
        if let Some(y) = seen.insert(h.into_repr().to_bytes_le(), x) {
            return fail("ignored", format!("byte {} as {} and as {} give one digest", i, x, y));
        }
    }
    s.nontrivial();
    Ok(())
}
use ark_ff::BigInteger;
fn main() {
    type F = ark_bls12_381::Fr;
    type K = <zkp_curve25519::Curve25519 as zkp_curve::Curve>::Fr;
    vharness::main(
        "P35",
        "the message was hashed and, unless empty, compared with altered ones",
        vec![
            sub("mimc", 800, 20000, |s| every_byte::<F>(s, 0, 200, 40)),
            sub("mimc-25519", 200, 5000, |s| every_byte::<K>(s, 0, 200, 40)),
            sub("rescue", 60, 1500, |s| every_byte::<F>(s, 1, 130, 8)),
            sub("rescue-25519", 30, 800, |s| every_byte::<K>(s, 1, 130, 8)),
            sub("poseidon", 300, 8000, |s| every_byte::<F>(s, 2, 200, 24)),
            sub("poseidon-25519", 100, 3000, |s| every_byte::<K>(s, 2, 200, 24)),
            sub("distinct", 30, 800, |s| {
                let k = *s.pick(&[0, 2]);
                distinct::<F>(s, k)
            }),
        ],
    )
}
