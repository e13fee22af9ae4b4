//! Aggregatable vector commitments: cached parameters and helpers.
use crate::*;
use ark_bls12_381::{Bls12_381, Fr, G1Affine, G1Projective};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{One, PrimeField, Zero};
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
pub use zkp_asvc::*;
pub type E = Bls12_381;

pub struct Ctx {
    /// the size asked for, and the number of positions
    pub asked: usize,
    pub n: usize,
    pub omega: Fr,
    pub p: Parameters<E>,
}
static CACHE: Mutex<Option<HashMap<(usize, u64), Arc<Ctx>>>> = Mutex::new(None);
pub fn ctx(asked: usize, seed: u64) -> Arc<Ctx> {
    if let Some(c) = CACHE.lock().unwrap().get_or_insert_with(HashMap::new).get(&(asked, seed)) {
        return c.clone();
    }
    let mut rng = TapeRng::new(seed);
    let d: GeneralEvaluationDomain<Fr> = EvaluationDomain::<Fr>::new(asked).unwrap();
    let c = Arc::new(Ctx { asked, n: d.size(), omega: d.element(1), p: key_gen::<E, _>(asked, &mut rng).unwrap() });
    CACHE.lock().unwrap().get_or_insert_with(HashMap::new).insert((asked, seed), c.clone());
    c
}
pub fn pick_ctx(s: &mut Src) -> Arc<Ctx> {
    let max = if s.thorough { 64 } else { 32 };
    let asked = if s.chance(1, 16) {
        s.label("wide");
        *s.pick(&[48usize, 64, 100, 256])
    } else {
        0
    };
    let asked = match s.below(6) {
        _ if asked > 0 => asked,
        0 => s.range(1, 4),
        1 => *s.pick(&[1usize, 2, 4, 8, 16, 32]),
        2 => s.range(1, max),
        _ => s.range(2, 9),
    };
    let c = ctx(asked, s.below(3) as u64);
    s.label(format!("{} positions", c.n));
    if !asked.is_power_of_two() {
        s.label("size between powers of two");
    }
    c
}
/// a vector of at most the asked size, sometimes of every position
pub fn vector(s: &mut Src, c: &Ctx) -> Vec<Fr> {
    let len = match s.below(4) {
        0 => c.asked,
        1 => c.n,
        _ => s.range(1, c.n),
    };
    match s.below(8) {
        0 => vec![Fr::zero(); len],
        1 => {
            let x = s.field();
            vec![x; len]
        }
        2 => (0..len).map(|_| if s.chance(1, 5) { s.field() } else { Fr::zero() }).collect(),
        _ => (0..len).map(|_| s.field()).collect(),
    }
}
/// a non-empty set of positions in random order
pub fn positions(s: &mut Src, n: usize) -> Vec<u32> {
    let k = match s.below(4) {
        0 => 1,
        1 => n,
        _ => s.range(1, n),
    };
    let mut all: Vec<u32> = (0..n as u32).collect();
    for i in 0..k {
        let j = s.range(i, n - 1);
        all.swap(i, j);
    }
    all.truncate(k);
    all
}
pub fn full(v: &[Fr], n: usize) -> Vec<Fr> {
    let mut v = v.to_vec();
    v.resize(n, Fr::zero());
    v
}
pub fn at(v: &[Fr], ps: &[u32]) -> Vec<Fr> {
    ps.iter().map(|p| v[*p as usize]).collect()
}
pub fn msm(g: &[G1Affine], k: &[Fr]) -> G1Projective {
    assert!(k.len() <= g.len());
    g.iter().zip(k).fold(G1Projective::zero(), |m, (p, x)| m + &p.mul(x.into_repr()))
}
/// coefficients of the polynomial with the given values on the powers of omega (naive inverse transform)
pub fn interpolate(v: &[Fr], omega: Fr) -> Vec<Fr> {
    use ark_ff::Field;
    let n = v.len();
    let ninv = Fr::from(n as u64).inverse().unwrap();
    let oi = omega.inverse().unwrap();
    (0..n)
        .map(|j| {
            let w = oi.pow(&[j as u64]);
            let mut x = Fr::one();
            let mut a = Fr::zero();
            for y in v {
                a += *y * x;
                x *= w;
            }
            a * ninv
        })
        .collect()
}
/// quotient by the product of (x - omega^p)
pub fn quotient(mut c: Vec<Fr>, ps: &[u32], omega: Fr) -> Vec<Fr> {
    use ark_ff::Field;
    for p in ps {
        let r = omega.pow(&[*p as u64]);
        // synthetic division
        let mut q = vec![Fr::zero(); c.len().saturating_sub(1)];
        let mut carry = Fr::zero();
        for i in (0..q.len()).rev() {
            carry = c[i + 1] + carry * r;
            q[i] = carry;
        }
        c = q;
    }
    c
}
pub fn aff(p: G1Projective) -> G1Affine {
    p.into_affine()
}
