//! P29: the Curve25519 scalar field against big-integer arithmetic.
use ark_ff::*;
use ark_serialize::CanonicalSerialize;
use num_bigint::BigUint;
use std::str::FromStr;
use vharness::tree::{de, ser};
use vharness::*;
use zkp_curve25519::{Fr, FrParameters};

type B = BigUint;
fn l() -> B {
    B::from_str("7237005577332262213973186563042994240857116359379907606001950938285454250989").unwrap()
}
fn le32(b: &B) -> Vec<u8> {
    let mut v = b.to_bytes_le();
    v.resize(32, 0);
    v
}
fn limbs(b: &B) -> [u64; 4] {
    let v = le32(b);
    let mut r = [0u64; 4];
    for i in 0..4 {
        r[i] = u64::from_le_bytes(v[8 * i..8 * i + 8].try_into().unwrap());
    }
    r
}
fn from_limbs(x: &[u64]) -> B {
    let mut v = vec![];
    for k in x {
        v.extend(k.to_le_bytes());
    }
    B::from_bytes_le(&v)
}
fn val(x: &Fr) -> B {
    from_limbs(&x.into_repr().0)
}
fn inv(a: &B) -> B {
    a.modpow(&(l() - 2u32), &l())
}
/// interesting integers below 2^256
fn gen_int(s: &mut Src) -> B {
    let one = B::from(1u32);
    match s.below(9) {
        0 => B::from(s.below(20) as u64),
        1 => l() - B::from(1 + s.below(10) as u64),
        2 => (l() - 1u32) / 2u32 + B::from(s.below(3) as u64),
        3 => (one << s.below(256)) - B::from(s.below(2) as u64),
        4 => l() + B::from(s.below(20) as u64),
        5 => (B::from(1u32) << 256) - B::from(1 + s.below(5) as u64),
        6 => {
            let mut r = [0u64; 4];
            for x in &mut r {
                *x = *s.pick(&[0, 1, u64::MAX, 1 << 63]);
            }
            from_limbs(&r)
        }
        _ => B::from_bytes_le(&s.bytes(32)),
    }
}
fn gen_el(s: &mut Src) -> (Fr, B) {
    let b = gen_int(s) % l();
    let f = Fr::from_repr(BigInteger256(limbs(&b))).expect("canonical representative refused");
    (f, b)
}
macro_rules! eqv {
    ($sig:expr, $f:expr, $b:expr, $($a:tt)*) => {{ let got = val(&$f); let want: B = $b; ensure!(got == want, $sig, "{}: got {} want {}", format!($($a)*), got, want); }};
}

fn program(s: &mut Src) -> R {
    let m = l();
    let (mut f, mut b) = gen_el(s);
    let n = s.range(1, 12);
    s.note(format!("start {}", b));
    if b > B::from(1u32) {
        s.nontrivial();
    }
    for _ in 0..n {
        let (g, c) = gen_el(s);
        let op = s.below(20);
        s.label(format!("op {}", op));
        match op {
            0 => {
                f = match s.below(3) { 0 => f + g, 1 => f + &g, _ => { let mut x = f; x += &g; x } };
                b = (&b + &c) % &m;
            }
            1 => {
                f = match s.below(3) { 0 => f - g, 1 => f - &g, _ => { let mut x = f; x -= g; x } };
                b = (&b + &m - &c) % &m;
            }
            2 => {
                f = match s.below(3) { 0 => f * g, 1 => f * &g, _ => { let mut x = f; x *= g; x } };
                b = (&b * &c) % &m;
            }
            3 => {
                if c == B::from(0u32) {
                    continue;
                }
                f = if s.bool() { f / g } else { let mut x = f; x /= &g; x };
                b = (&b * inv(&c)) % &m;
            }
            4 => {
                f = -f;
                b = (&m - &b) % &m;
            }
            5 => {
                f = if s.bool() { f.double() } else { let mut x = f; x.double_in_place(); x };
                b = (&b + &b) % &m;
            }
            6 => {
                f = if s.bool() { f.square() } else { let mut x = f; x.square_in_place(); x };
                b = (&b * &b) % &m;
            }
            7 => match f.inverse() {
                None => ensure!(b == B::from(0u32), "inverse-none", "no inverse for {}", b),
                Some(x) => {
                    ensure!(b != B::from(0u32), "inverse-zero", "zero has an inverse");
                    f = x;
                    b = inv(&b);
                }
            },
            8 => {
                let e = gen_int(s);
                f = f.pow(limbs(&e));
                b = b.modpow(&e, &m);
            }
            9 => {
                let lg = b.modpow(&((&m - 1u32) / 2u32), &m);
                let q = f.legendre();
                let want = if b == B::from(0u32) { 0 } else if lg == B::from(1u32) { 1 } else { -1 };
                let got = if q.is_zero() { 0 } else if q.is_qr() { 1 } else { -1 };
                ensure!(got == want, "legendre", "Legendre symbol of {}: got {} want {}", b, got, want);
            }
            10 => {
                let isq = b == B::from(0u32) || b.modpow(&((&m - 1u32) / 2u32), &m) == B::from(1u32);
                match f.sqrt() {
                    None => ensure!(!isq, "sqrt-none", "square {} has no root", b),
                    Some(r) => {
                        ensure!(isq, "sqrt-some", "non-square {} has a root", b);
                        let v = val(&r);
                        ensure!((&v * &v) % &m == b, "sqrt-wrong", "root of {} wrong", b);
                        // make progress from the root
                        f = r;
                        b = v;
                    }
                }
            }
            11 => {
                // sqrt of a square always exists
                let (x, y) = (f.square(), (&b * &b) % &m);
                let r = x.sqrt();
                ensure!(r.map(|r| { let v = val(&r); v == b || (&v + &b) % &m == B::from(0u32) }).unwrap_or(false), "sqrt-of-square", "root of the square {} is not +-{}", y, b);
            }
            12 => {
                let ord = f.cmp(&g);
                ensure!(ord == b.cmp(&c), "cmp", "comparison of {} and {}", b, c);
                ensure!((f == g) == (b == c), "eq", "equality of {} and {}", b, c);
            }
            13 => {
                let t = ser(&f);
                ensure!(t == le32(&b), "serialize", "bytes of {}", b);
                ensure!(f.serialized_size() == 32 && f.uncompressed_size() == 32, "size", "announced size");
                let mut u = vec![];
                f.serialize_uncompressed(&mut u).unwrap();
                ensure!(u == t, "serialize-uncompressed", "uncompressed bytes of {}", b);
                ensure!(de::<Fr>(&t) == Some(f), "deserialize", "roundtrip of {}", b);
                let mut w = vec![];
                f.write(&mut w).unwrap();
                ensure!(w == t, "write", "ToBytes of {}", b);
                ensure!(Fr::read(&w[..]).ok() == Some(f), "read", "FromBytes of {}", b);
            }
            14 => {
                let t = format!("{}", b);
                ensure!(Fr::from_str(&t).ok() == Some(f), "from-str", "FromStr of {}", b);
            }
            15 => {
                ensure!(f.is_zero() == (b == B::from(0u32)) && f.is_one() == (b == B::from(1u32)), "is-zero", "{}", b);
            }
            16 => {
                let k = s.range(0, 6);
                let mut fs: Vec<Fr> = vec![f];
                let mut bs = vec![b.clone()];
                for _ in 0..k {
                    let (x, y) = gen_el(s);
                    fs.push(x);
                    bs.push(y);
                }
                let sum: Fr = if s.bool() { fs.iter().sum() } else { fs.iter().copied().sum() };
                let prod: Fr = fs.iter().product();
                eqv!("sum", sum, bs.iter().fold(B::from(0u32), |a, x| (a + x) % &m), "sum");
                eqv!("product", prod, bs.iter().fold(B::from(1u32), |a, x| (a * x) % &m), "product");
                let mut inv_ = fs.clone();
                batch_inversion(&mut inv_);
                for (i, x) in inv_.iter().enumerate() {
                    eqv!("batch-inversion", x, inv(&bs[i]), "batch inversion of {}", bs[i]);
                }
            }
            17 => {
                f.frobenius_map(s.below(4));
            }
            18 => {
                let r = f.into_repr();
                ensure!(r.num_bits() as u64 == b.bits(), "num-bits", "bits of {}", b);
                let i: BigInteger256 = f.into();
                ensure!(i == r && Fr::from(i) == f, "bigint", "BigInteger conversions of {}", b);
            }
            _ => {
                let x = s.u64();
                let y = ((s.u64() as u128) << 64) | x as u128;
                eqv!("from-u128", Fr::from(y), B::from(y) % &m, "from u128");
                eqv!("from-u64", Fr::from(x), B::from(x), "from u64");
                eqv!("from-u32", Fr::from(x as u32), B::from(x as u32), "from u32");
                eqv!("from-u16", Fr::from(x as u16), B::from(x as u16), "from u16");
                eqv!("from-u8", Fr::from(x as u8), B::from(x as u8), "from u8");
                eqv!("from-bool", Fr::from(x & 1 == 1), B::from(x & 1), "from bool");
            }
        }
        eqv!("value", f, b.clone(), "after op {}", op);
    }
    Ok(())
}

/// encodings: canonical ones are accepted, others are refused or reduced
fn encodings(s: &mut Src) -> R {
    let m = l();
    let b = gen_int(s);
    s.note(format!("{}", b));
    s.nontrivial();
    let t = le32(&b);
    let canon = b < m;
    s.label(if canon { "canonical" } else { "non-canonical" });
    let r = Fr::from_repr(BigInteger256(limbs(&b)));
    ensure!(r.is_some() == canon, "from-repr", "from_repr({}) is {:?}", b, r.is_some());
    if let Some(x) = r {
        eqv!("from-repr-value", x, b.clone(), "from_repr");
    }
    let d = de::<Fr>(&t);
    ensure!(d.is_some() == canon, "deserialize-canonical", "deserialize of {} gives {:?}", b, d.is_some());
    if let Some(x) = d {
        eqv!("deserialize-value", x, b.clone(), "deserialize");
    }
    let rd = Fr::read(&t[..]).ok();
    ensure!(rd.is_some() == canon, "read-canonical", "read of {} gives {:?}", b, rd.is_some());
    eqv!("le-mod-order", Fr::from_le_bytes_mod_order(&t), &b % &m, "from_le_bytes_mod_order");
    let mut be = t.clone();
    be.reverse();
    eqv!("be-mod-order", Fr::from_be_bytes_mod_order(&be), &b % &m, "from_be_bytes_mod_order");
    let len = s.below(80);
    let long = s.bytes(len);
    eqv!("le-mod-order-long", Fr::from_le_bytes_mod_order(&long), B::from_bytes_le(&long) % &m, "from_le_bytes_mod_order of {} bytes", len);
    eqv!("be-mod-order-long", Fr::from_be_bytes_mod_order(&long), B::from_bytes_be(&long) % &m, "from_be_bytes_mod_order of {} bytes", len);
    // random bytes: top bits are masked, larger values refused
    let masked = B::from_bytes_le(&{
        let mut x = t.clone();
        x[31] &= 0xff >> 3;
        x
    });
    match Fr::from_random_bytes(&t) {
        Some(x) => {
            eqv!("from-random-bytes", x, masked.clone(), "from_random_bytes");
        }
        None => ensure!(masked >= m, "from-random-bytes-none", "canonical random bytes refused"),
    }
    // truncated input
    let k = s.below(32);
    ensure!(de::<Fr>(&t[..k]).is_none(), "truncated", "deserialized from {} bytes", k);
    Ok(())
}

fn constants(s: &mut Src) -> R {
    let m = l();
    let c = |x: BigInteger256| from_limbs(&x.0);
    let r = (B::from(1u32) << 256) % &m;
    let mont = |x: BigInteger256| (c(x) * inv(&r)) % &m;
    s.nontrivial();
    s.note("published constants");
    ensure!(c(FrParameters::MODULUS) == m, "modulus", "modulus");
    ensure!(FrParameters::MODULUS_BITS as u64 == m.bits() && FrParameters::CAPACITY as u64 == m.bits() - 1 && FrParameters::REPR_SHAVE_BITS as u64 == 256 - m.bits(), "bits", "bit counts");
    ensure!(c(FrParameters::R) == r, "r", "R");
    ensure!(c(FrParameters::R2) == (&r * &r) % &m, "r2", "R2");
    ensure!((B::from(FrParameters::INV) * (&m % (B::from(1u32) << 64)) + 1u32) % (B::from(1u32) << 64) == B::from(0u32), "inv", "INV");
    ensure!(c(FrParameters::MODULUS_MINUS_ONE_DIV_TWO) == (&m - 1u32) / 2u32, "half", "(q-1)/2");
    let t = (&m - 1u32) / 4u32;
    ensure!(<FrParameters as FftParameters>::TWO_ADICITY == 2, "adicity", "two-adicity");
    ensure!(c(FrParameters::T) == t, "t", "T");
    ensure!(c(FrParameters::T_MINUS_ONE_DIV_TWO) == (&t - 1u32) / 2u32, "t2", "(T-1)/2");
    let g = mont(FrParameters::GENERATOR);
    ensure!(g.modpow(&((&m - 1u32) / 2u32), &m) == &m - 1u32, "generator", "the generator is a square");
    for p in ["3", "11", "198211423230930754013084525763697", "276602624281642239937218680557139826668747"] {
        ensure!(g.modpow(&((&m - 1u32) / B::from_str(p).unwrap()), &m) != B::from(1u32), "generator-order", "the generator misses the factor {}", p);
    }
    let w = mont(<FrParameters as FftParameters>::TWO_ADIC_ROOT_OF_UNITY);
    ensure!(w.modpow(&B::from(2u32), &m) == &m - 1u32, "root", "the root of unity does not have order 4");
    eqv!("mult-generator", Fr::multiplicative_generator(), g, "multiplicative generator");
    eqv!("root-fn", Fr::two_adic_root_of_unity(), w.clone(), "root of unity");
    for (n, o) in [(1usize, 1u32), (2, 2), (4, 4)] {
        match <Fr as FftField>::get_root_of_unity(n) {
            Some(x) => {
                let v = val(&x);
                ensure!(v.modpow(&B::from(o), &m) == B::from(1u32) && (o == 1 || v.modpow(&B::from(o / 2), &m) != B::from(1u32)), "root-of-unity", "get_root_of_unity({})", n);
            }
            None => return fail("root-of-unity", "none"),
        }
    }
    ensure!(Fr::characteristic() == &limbs(&m)[..], "characteristic", "characteristic");
    ensure!(Fr::size_in_bits() == 253, "size-in-bits", "size");
    eqv!("zero", Fr::zero(), B::from(0u32), "zero");
    eqv!("one", Fr::one(), B::from(1u32), "one");
    eqv!("default", Fr::default(), B::from(0u32), "default");
    Ok(())
}

/// sampling covers the field and follows its source
fn sampling(s: &mut Src) -> R {
    let n = 64;
    let seed = s.u64();
    let (mut r1, mut r2) = (TapeRng::new(seed), TapeRng::new(seed));
    let a: Vec<Fr> = (0..n).map(|_| Fr::rand(&mut r1)).collect();
    let b: Vec<Fr> = (0..n).map(|_| Fr::rand(&mut r2)).collect();
    ensure!(a == b, "rand-deterministic", "same source, different samples");
    s.nontrivial();
    s.note(format!("{} samples from source {}", n, seed));
    let mut seen = std::collections::HashSet::new();
    let (mut hi, mut lo) = (0, 0);
    for x in &a {
        let v = val(x);
        ensure!(v < l(), "rand-range", "sample out of range");
        ensure!(seen.insert(v.clone()), "rand-repeat", "repeated sample");
        if v > (l() / 2u32) {
            hi += 1
        } else {
            lo += 1
        }
    }
    // 64 fair coins: fewer than 6 on a side has probability below 2^-38
    ensure!(hi > 5 && lo > 5, "rand-bias", "{} high and {} low samples", hi, lo);
    for bit in 0..250 {
        let k = a.iter().filter(|x| val(x).bit(bit)).count();
        ensure!(k > 1 && k < 63, "rand-bit", "bit {} set in {} of {} samples", bit, k, n);
    }
    Ok(())
}

fn main() {
    vharness::main(
        "P29",
        "A case is a random sequence of field operations, a 256-bit encoding, or a sampling run, compared with big-integer arithmetic modulo the group order; non-trivial = the start value is larger than one, or any encoding/sampling case.",
        vec![sub("program", 150000, 1500000, program), sub("encodings", 150000, 1500000, encodings), sub("constants", 2, 2, constants), sub("sampling", 200, 4000, sampling)],
    )
}
