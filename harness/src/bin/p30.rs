//! P30: the Curve25519 group wrapper against discrete logarithms over curve25519-dalek.
use ark_ff::{One, UniformRand, BigInteger256, Field, FromBytes, PrimeField, ToBytes, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use curve25519_dalek::constants::{RISTRETTO_BASEPOINT_POINT, RISTRETTO_BASEPOINT_TABLE};
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vharness::tree::{de, ser};
use vharness::*;
use zkp_curve::{AffineCurve, Curve, ProjectiveCurve};
use zkp_curve25519::{Curve25519, Curve25519Point as P, Fr};

fn sc(f: &Fr) -> Scalar {
    let mut b = [0u8; 32];
    for (i, l) in f.into_repr().0.iter().enumerate() {
        b[8 * i..8 * i + 8].copy_from_slice(&l.to_le_bytes());
    }
    Scalar::from_canonical_bytes(b).unwrap()
}
fn pt(k: &Fr) -> RistrettoPoint {
    &RISTRETTO_BASEPOINT_TABLE * &sc(k)
}
fn gen(s: &mut Src) -> (P, Fr) {
    let k: Fr = s.field();
    (P(pt(&k)), k)
}
fn h(p: &P) -> u64 {
    let mut x = DefaultHasher::new();
    p.hash(&mut x);
    x.finish()
}
fn is(p: P, k: &Fr) -> bool {
    p.0.compress() == pt(k).compress()
}

fn program(s: &mut Src) -> R {
    let (mut p, mut k) = gen(s);
    s.note(format!("start {}", k.into_repr()));
    if !k.is_zero() {
        s.nontrivial();
    }
    for _ in 0..s.range(1, 10) {
        let (q, m) = gen(s);
        let op = s.below(18);
        s.label(format!("op {}", op));
        match op {
            0 => {
                let form = s.below(4);
                p = match form {
                    0 => p + q,
                    1 => p + &q,
                    2 => {
                        let mut x = p;
                        x += q;
                        x
                    }
                    _ => {
                        let mut x = p;
                        x += &q;
                        x
                    }
                };
                k += m;
            }
            1 => {
                let form = s.below(4);
                p = match form {
                    0 => p - q,
                    1 => p - &q,
                    2 => {
                        let mut x = p;
                        x -= q;
                        x
                    }
                    _ => {
                        let mut x = p;
                        x -= &q;
                        x
                    }
                };
                k -= m;
            }
            2 => {
                p = -p;
                k = -k;
            }
            3 => {
                p = if s.bool() {
                    p.double()
                } else {
                    let mut x = p;
                    let y = *x.double_in_place();
                    ensure!(is(y, &(k + k)), "double-in-place", "returned value");
                    x
                };
                k = k + k;
            }
            4 => {
                p = if s.bool() {
                    p.add_mixed(&q)
                } else {
                    let mut x = p;
                    x.add_assign_mixed(&q);
                    x
                };
                k += m;
            }
            5 => {
                let a = AffineCurve::mul(&p, m);
                let b = AffineCurve::mul(&p, m.into_repr());
                let c = ProjectiveCurve::mul(p, m.into_repr());
                let mut d = p;
                d *= m;
                let e = Curve25519::vartime_multiscalar_mul(&[m], &[p]);
                let f = P(p.0 * sc(&m));
                k *= m;
                for (i, x) in [a, b, c, d, e, f].iter().enumerate() {
                    ensure!(is(*x, &k), "mul", "scalar multiplication interface {}", i);
                }
                p = a;
            }
            6 => {
                // multipliers outside the field and of other widths
                let r = s.rng();
                let mut r = r;
                let l: [u64; 4] = [rand::RngCore::next_u64(&mut r), rand::RngCore::next_u64(&mut r), rand::RngCore::next_u64(&mut r), rand::RngCore::next_u64(&mut r)];
                let mut by = [0u8; 32];
                for i in 0..4 {
                    by[8 * i..8 * i + 8].copy_from_slice(&l[i].to_le_bytes());
                }
                let m = Fr::from_le_bytes_mod_order(&by);
                k *= m;
                let a = AffineCurve::mul(&p, BigInteger256(l));
                let b = ProjectiveCurve::mul(p, BigInteger256(l));
                ensure!(is(a, &k) && is(b, &k), "mul-wide", "multiplier outside the field");
                p = a;
            }
            7 => {
                let w = s.u64();
                p = ProjectiveCurve::mul(p, [w]);
                k *= Fr::from(w);
            }
            8 => {
                ensure!(AffineCurve::into_projective(&p) == p && ProjectiveCurve::into_affine(&p) == p, "convert", "conversions change the point");
            }
            9 => {
                let mut v = vec![p, q, p + q];
                let w = P::batch_normalization_into_affine(&v);
                P::batch_normalization(&mut v);
                ensure!(v == w && is(v[0], &k) && is(v[1], &m) && is(v[2], &(k + m)), "batch-normalization", "normalisation changes points");
                ensure!(v.iter().all(|x| x.is_normalized()), "is-normalized", "not normalized after normalisation");
            }
            10 => {
                let e = p.mul_by_cofactor();
                let f = p.mul_by_cofactor_to_projective();
                ensure!(e == f, "cofactor", "cofactor multiplication interfaces differ");
                ensure!(e.mul_by_cofactor_inv() == p, "cofactor-inv", "cofactor inverse does not undo");
            }
            11 => {
                let n = s.below(7);
                let mut ps = vec![];
                let mut ms = vec![];
                let mut want = Fr::zero();
                for _ in 0..n {
                    let (x, kx) = gen(s);
                    let m: Fr = s.field();
                    want += kx * m;
                    ps.push(x);
                    ms.push(m);
                }
                ensure!(is(Curve25519::vartime_multiscalar_mul(&ms, &ps), &want), "msm", "multi-scalar multiplication of {} terms", n);
                // surplus scalars or points are ignored
                if n > 0 {
                    let a = Curve25519::vartime_multiscalar_mul(&ms[..n - 1], &ps);
                    let b = Curve25519::vartime_multiscalar_mul(&ms, &ps[..n - 1]);
                    ensure!(a == b && a + P(ps[n - 1].0 * sc(&ms[n - 1])) == P(pt(&want)), "msm-lengths", "unequal lengths");
                }
            }
            12 => {
                let v: Vec<P> = vec![p, q, q];
                let a: P = v.iter().sum();
                let b: P = v.into_iter().sum();
                k = k + m + m;
                ensure!(is(a, &k) && is(b, &k), "sum", "sum of points");
                p = a;
            }
            13 => {
                ensure!(p.is_zero() == k.is_zero() && (p == P::zero()) == k.is_zero(), "is-zero", "zero test for {}", k.into_repr());
                ensure!((p == q) == (k == m), "eq", "equality");
                if p == q {
                    ensure!(h(&p) == h(&q), "hash-eq", "hash of equal points");
                } else {
                    ensure!(h(&p) != h(&q), "hash-ne", "hash of different points");
                }
                // another representative of the same element
                let o = (p + q) - q;
                ensure!(o == p && h(&o) == h(&p) && ser(&o) == ser(&p), "representative", "one element, two views");
            }
            14 => {
                let b = ser(&p);
                ensure!(b == p.0.compress().as_bytes(), "serialize", "bytes are not the compressed point");
                ensure!(b.len() == p.serialized_size() && p.serialized_size() == 32, "size", "announced {} wrote {}", p.serialized_size(), b.len());
                let mut u = vec![];
                p.serialize_uncompressed(&mut u).unwrap();
                ensure!(u.len() == p.uncompressed_size(), "size-uncompressed", "announced {} wrote {}", p.uncompressed_size(), u.len());
                ensure!(de::<P>(&b) == Some(p), "deserialize", "roundtrip");
                ensure!(P::deserialize_uncompressed(&u[..]).ok() == Some(p), "deserialize-uncompressed", "roundtrip");
                ensure!(P::deserialize_unchecked(&u[..]).ok() == Some(p), "deserialize-unchecked", "roundtrip");
                let mut w = vec![];
                p.write(&mut w).unwrap();
                ensure!(w == p.0.compress().as_bytes() && P::read(&w[..]).ok() == Some(p), "bytes", "ToBytes/FromBytes");
                // inside containers
                let v = vec![p, q];
                ensure!(de::<Vec<P>>(&ser(&v)) == Some(v), "vec", "vector roundtrip");
            }
            15 => {
                if let Some(mi) = m.inverse() {
                    let mut x = p;
                    x *= m;
                    x *= mi;
                    ensure!(x == p, "mul-inverse", "m * m^-1 is not the identity map");
                }
            }
            16 => {
                let (a, b) = (<P as AffineCurve>::prime_subgroup_generator(), <P as ProjectiveCurve>::prime_subgroup_generator());
                ensure!(a == b && a.0 == RISTRETTO_BASEPOINT_POINT, "generator", "generators differ");
            }
            _ => {
                let mut z = p;
                zeroize::Zeroize::zeroize(&mut z);
                ensure!(z.is_zero(), "zeroize", "zeroize keeps the value");
                ensure!(P::default().is_zero() && P::zero().0.compress() == CompressedRistretto::default(), "default", "default point");
            }
        }
        ensure!(is(p, &k), "value", "after op {}", op);
    }
    Ok(())
}

fn encodings(s: &mut Src) -> R {
    let mut b: Vec<u8> = match s.below(4) {
        0 => s.bytes(32),
        1 => {
            let (p, _) = gen(s);
            ser(&p)
        }
        2 => {
            let (p, _) = gen(s);
            let mut v = ser(&p);
            v[s.below(32)] ^= 1 << s.below(8);
            v
        }
        _ => {
            let k = s.below(32);
            let mut v = vec![0u8; 32];
            v[k] = s.u64() as u8;
            v
        }
    };
    b.resize(32, 0);
    s.note(format!("{:02x?}", b));
    s.nontrivial();
    let mut a = [0u8; 32];
    a.copy_from_slice(&b);
    let want = CompressedRistretto(a).decompress().map(P);
    s.label(if want.is_some() { "valid" } else { "invalid" });
    ensure!(de::<P>(&b) == want, "deserialize", "deserialize");
    ensure!(P::deserialize_uncompressed(&b[..]).ok() == want, "deserialize-uncompressed", "deserialize_uncompressed");
    ensure!(P::read(&b[..]).ok() == want, "read", "read");
    if let Some(p) = want {
        ensure!(ser(&p) == b, "canonical", "two encodings of one point");
    }
    let k = s.below(32);
    ensure!(de::<P>(&b[..k]).is_none() && P::read(&b[..k]).is_err(), "truncated", "point read from {} bytes", k);
    // reading takes exactly one point
    let mut two = b.clone();
    two.extend(ser(&P(RISTRETTO_BASEPOINT_POINT)));
    let mut r = &two[..];
    if P::deserialize(&mut r).is_ok() {
        ensure!(r.len() == 32, "consumed", "deserialize consumed {} bytes", 64 - r.len());
    }
    // hashing in from bytes and sampling
    let len = s.below(70);
    let m = s.bytes(len);
    let x = <P as AffineCurve>::from_random_bytes(&m);
    ensure!(x.map(|p| p.0) == Some(RistrettoPoint::hash_from_bytes::<sha2::Sha512>(&m)), "from-random-bytes", "hash to group");
    let seed = s.u64();
    let (p, q): (P, P) = (ark_ff::UniformRand::rand(&mut TapeRng::new(seed)), ark_ff::UniformRand::rand(&mut TapeRng::new(seed)));
    let o: P = ark_ff::UniformRand::rand(&mut TapeRng::new(seed.wrapping_add(1)));
    ensure!(p == q && p != o && !p.is_zero(), "rand", "sampling does not follow its source");
    Ok(())
}

/// many points at once: the sizes at which batched algorithms change their method
fn many(s: &mut Src) -> R {
    let n = match s.below(3) {
        0 => ((1usize << s.range(3, 8)) + s.below(3)).saturating_sub(1),
        1 => s.range(180, 420),
        _ => s.range(7, 180),
    };
    let (base, kb) = gen(s);
    let mut r = s.rng();
    let (mut ps, mut ks, mut ms) = (vec![], vec![], vec![]);
    let (mut p, mut k) = (base, kb);
    for _ in 0..n {
        ps.push(p);
        ks.push(k);
        ms.push(match rand::Rng::gen_range(&mut r, 0, 8) {
            0 => Fr::zero(),
            1 => Fr::one(),
            2 => -Fr::one(),
            _ => Fr::rand(&mut r),
        });
        // runs of equal, doubled and neutral points
        match rand::Rng::gen_range(&mut r, 0, 8) {
            0 => {}
            1 => {
                p = p.double();
                k = k + k;
            }
            2 => {
                p = P::zero();
                k = Fr::zero();
            }
            _ => {
                p = p + P(RISTRETTO_BASEPOINT_POINT);
                k += Fr::one();
            }
        }
    }
    s.note(format!("{} points", n));
    s.nontrivial();
    let dot = |a: &[Fr], b: &[Fr]| a.iter().zip(b).fold(Fr::zero(), |t, (x, y)| t + *x * y);
    ensure!(is(Curve25519::vartime_multiscalar_mul(&ms, &ps), &dot(&ms, &ks)), "msm-many", "multi-scalar multiplication of {} terms", n);
    let cut = s.below(n + 1);
    ensure!(is(Curve25519::vartime_multiscalar_mul(&ms[..cut], &ps), &dot(&ms[..cut], &ks)), "msm-many-cut", "{} scalars for {} points", cut, n);
    ensure!(is(Curve25519::vartime_multiscalar_mul(&ms, &ps[..cut]), &dot(&ms[..cut], &ks)), "msm-many-cut", "{} scalars for {} points", n, cut);
    let total = ks.iter().fold(Fr::zero(), |t, x| t + x);
    ensure!(is(ps.iter().sum(), &total) && is(ps.iter().copied().sum(), &total), "sum-many", "sum of {} points", n);
    ensure!(P::batch_normalization_into_affine(&ps) == ps, "normalize-many", "normalisation of {} points", n);
    let mut v = ps.clone();
    P::batch_normalization(&mut v);
    ensure!(v == ps, "normalize-many", "normalisation in place of {} points", n);
    let b = ser(&ps);
    ensure!(b.len() == ps.serialized_size() && de::<Vec<P>>(&b) == Some(ps), "vec-many", "vector of {} points", n);
    Ok(())
}

/// the default multi-scalar multiplication of the pairing curve agrees with single multiplications
fn pairing_msm(s: &mut Src) -> R {
    use ark_bls12_381::{Bls12_381 as E, Fr as F, G1Projective};
    let n = if s.chance(1, 10) { s.range(20, 180) } else { s.below(12) };
    let mut ps = vec![];
    let mut ms = vec![];
    let mut want = G1Projective::zero();
    for _ in 0..n {
        let k: F = s.field();
        let m: F = s.field();
        let p = G1Projective::prime_subgroup_generator().mul(k.into_repr());
        want += p.mul(m.into_repr());
        ps.push(p.into_affine());
        ms.push(m);
    }
    s.note(format!("{} terms", n));
    if n > 0 {
        s.nontrivial();
    }
    ensure!(<E as Curve>::vartime_multiscalar_mul(&ms, &ps) == want, "msm", "{} terms", n);
    Ok(())
}

fn main() {
    vharness::main(
        "P30",
        "A case is a random sequence of group operations on points of known discrete logarithm, a 32-byte encoding, or a multi-scalar multiplication; non-trivial = the start point is not the identity, or any encoding case.",
        vec![sub("program", 30000, 400000, program), sub("encodings", 40000, 600000, encodings), sub("many", 1500, 20000, many), sub("pairing-msm", 150, 3000, pairing_msm)],
    )
}
