//! P23: the SHA-256 and BLAKE2s circuits compute and enforce the standard digests.
use sha2::Digest;
use vharness::wit::*;
use vharness::*;
use zkp_gadgets::algebra::boolean::*;
use zkp_gadgets::hashes::abstract_hash::{AbstractHash, AbstractHashOutput};
use zkp_gadgets::hashes::{blake2s::blake2s, sha256::*};
use zkp_r1cs::{ConstraintSystem, SynthesisError, Variable};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Sha,
    /// one compression of one block
    Block,
    Blake,
}
/// the message's bits in the order the function takes them
fn bits_of(k: Kind, m: &[u8]) -> Vec<bool> {
    m.iter()
        .flat_map(|b| (0..8).map(move |i| b >> (if k == Kind::Blake { i } else { 7 - i }) & 1 == 1))
        .collect()
}
fn compress(h: &mut [u32; 8], block: &[u8]) {
    // the constants from their definition: fractional parts of cube roots of primes
    let mut primes = vec![];
    let mut p = 2u128;
    while primes.len() < 64 {
        if primes.iter().all(|q| p % q != 0) {
            primes.push(p);
        }
        p += 1;
    }
    let root = |p: u128, e: u32| -> u32 {
        // floor(p^(1/e) * 2^32)
        let (mut lo, mut hi) = (0u128, 1u128 << 36);
        let ok = |x: u128| {
            if e == 2 {
                x * x <= p << 64
            } else {
                // x^3 <= p * 2^96, x < 2^36: compare in two parts
                let x2 = x * x; // < 2^72
                let (a, b) = (x2 >> 36, x2 & ((1 << 36) - 1));
                // x^3 = a*x*2^36 + b*x
                let top = a * x + ((b * x) >> 36);
                let low = (b * x) & ((1 << 36) - 1);
                let lim = p << 60;
                top < lim || (top == lim && low == 0)
            }
        };
        while lo + 1 < hi {
            let m = (lo + hi) / 2;
            if ok(m) {
                lo = m
            } else {
                hi = m
            }
        }
        lo as u32
    };
    let k: Vec<u32> = primes.iter().map(|p| root(*p, 3)).collect();
    if h[0] == 0 && h[7] == 0 {
        for i in 0..8 {
            h[i] = root(primes[i], 2);
        }
    }
    let mut w = [0u32; 64];
    for i in 0..16 {
        w[i] = u32::from_be_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
    }
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = *h;
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(mj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}
fn reference(k: Kind, m: &[u8], pers: &[u8]) -> Vec<u8> {
    match k {
        Kind::Sha => sha2::Sha256::digest(m).to_vec(),
        Kind::Block => {
            let mut h = [0u32; 8];
            compress(&mut h, m);
            h.iter().flat_map(|x| x.to_be_bytes().to_vec()).collect()
        }
        Kind::Blake => blake2s_simd::Params::new().hash_length(32).personal(pers).hash(m).as_bytes().to_vec(),
    }
}
/// what each message bit is made of
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mat {
    Const,
    Wit,
    In,
    /// the complement of an allocated bit
    Not,
}
fn synth<F: Fld>(cs: &mut Cs<F>, k: Kind, bits: &[bool], mat: &[Mat], pers: &[u8], blank: bool) -> Result<(Vec<Boolean>, Vec<Variable>), SynthesisError> {
    let mut src = vec![];
    let mut inp = vec![];
    for (i, (b, m)) in bits.iter().zip(mat).enumerate() {
        let v = |x: bool| if blank { None } else { Some(x) };
        let mut al = |x: bool, input: bool, cs: &mut Cs<F>| -> Result<Boolean, SynthesisError> {
            let nm = || format!("bit {}", i);
            let a = if input { AllocatedBit::alloc_input(cs.ns(nm), v(x))? } else { AllocatedBit::alloc(cs.ns(nm), v(x))? };
            src.push(a.get_variable());
            Ok(a.into())
        };
        inp.push(match m {
            Mat::Const => Boolean::constant(*b),
            Mat::Wit => al(*b, false, cs)?,
            Mat::In => al(*b, true, cs)?,
            Mat::Not => al(!*b, false, cs)?.not(),
        });
    }
    let d = match k {
        Kind::Sha => sha256(cs.ns(|| "hash"), &inp)?,
        Kind::Block => sha256_block_no_padding(cs.ns(|| "hash"), &inp)?,
        Kind::Blake => blake2s(cs.ns(|| "hash"), &inp, pers)?,
    };
    Ok((d, src))
}
fn message(s: &mut Src, n: usize) -> Vec<u8> {
    match s.below(5) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => (0..n).map(|_| s.u64() as u8).collect(),
    }
}
fn digest<F: Fld>(s: &mut Src, k: Kind, max: usize, search: bool) -> R {
    digest_of::<F>(s, k, max, search, false)
}
/// `late`: a message of many blocks, of which only the last bytes may be allocated
fn digest_of<F: Fld>(s: &mut Src, k: Kind, max: usize, search: bool, late: bool) -> R {
    let n = match k {
        _ if late => {
            // around the sizes where a shorter length field would overflow
            let e = (1usize << s.range(8, max)) / 8 * s.range(1, 3);
            if s.bool() { e + s.below(4) - 2 } else { s.range(e / 2, e) }
        }
        Kind::Block => 64,
        _ => match s.below(3) {
            // around the padding's and the blocks' edges
            0 => (*s.pick(&[0usize, 1, 3, 4, 5, 8, 16, 31, 32, 33, 54, 55, 56, 57, 59, 60, 61, 63, 64, 65, 67, 119, 120, 127, 128, 129])).min(max),
            1 => s.range(0, 64.min(max)),
            _ => s.range(0, max),
        },
    };
    let m = message(s, n);
    let pers: Vec<u8> = if s.below(3) == 0 { vec![0; 8] } else { (0..8).map(|_| s.u64() as u8).collect() };
    let bits = bits_of(k, &m);
    let style = if late { 4 } else { s.below(6) };
    let from = if late { bits.len() - s.below(100.min(bits.len())) } else { s.below(bits.len() + 1) };
    let mat: Vec<Mat> = (0..bits.len())
        .map(|i| match style {
            0 => Mat::Const,
            1 => Mat::Wit,
            2 => Mat::In,
            3 => *s.pick(&[Mat::Const, Mat::Wit, Mat::In, Mat::Not]),
            4 => if i < from { Mat::Const } else { Mat::Wit },
            _ => if i < from { Mat::Not } else { Mat::Const },
        })
        .collect();
    s.note(&format!("{:?} style {} from {} bytes {} message {:02x?} personalization {:02x?}", k, style, from, n, m, pers));
    s.label(format!("{:?}", k));
    s.label(format!("style {}", style));
    s.label(format!("blocks {}", if n < 640 { (n / 64).to_string() } else { format!("2^{}", 63 - (n as u64 / 64).leading_zeros()) }));
    let want = reference(k, &m, &pers);
    let wb: Vec<bool> = bits_of(k, &want);
    let mut cs = Cs::<F>::new(false);
    let (d, src) = match synth(&mut cs, k, &bits, &mat, &pers, false) {
        Ok(x) => x,
        Err(e) => return fail("synthesis", format!("{:?}", e)),
    };
    ensure!(d.len() == 256, "length", "{} digest bits", d.len());
    let one = Cs::<F>::one();
    let mut targets = vec![];
    for (i, b) in d.iter().enumerate() {
        ensure!(b.get_value() == Some(wb[i]), "digest", "bit {} is {:?}", i, b.get_value());
        let l = cs.lc_of(&b.lc(one, F::one()));
        ensure!(Cs::eval(&l, &cs.vals) == if wb[i] { F::one() } else { F::zero() }, "assignment", "digest bit {}", i);
        if l.iter().any(|(i, _)| *i != 0) {
            targets.push(l);
        }
    }
    if let Some(v) = cs.violated(&cs.vals) {
        return fail("unsatisfied", format!("honest values violate {}", cs.names[v]));
    }
    if s.below(3) == 0 {
        let mut bk = Cs::<F>::new(true);
        match synth(&mut bk, k, &vec![false; bits.len()].iter().zip(&bits).zip(&mat).map(|((_, b), m)| *b && *m == Mat::Const).collect::<Vec<_>>(), &mat, &pers, true) {
            Ok(_) => ensure!(cs.shape() == bk.shape(), "shape", "the circuit depends on the values"),
            Err(e) => return fail("blank", format!("{:?}", e)),
        }
    }
    if !src.is_empty() {
        s.nontrivial();
    }
    if search && !targets.is_empty() {
        let src: Vec<usize> = src.iter().map(|v| cs.id(*v)).collect();
        match other_result(&cs, &src, &targets, s) {
            Alt::Forced => s.label("forced"),
            Alt::Other(_, w) => return fail("forged", format!("another digest satisfies the constraints: {}", w)),
            Alt::Open => s.label("open"),
        }
    }
    Ok(())
}
/// the hash as other gadgets use it: the digest's own variables are tied to the inputs'
fn linked<F: Fld>(s: &mut Src) -> R {
    let k = s.range(1, 4);
    let ms: Vec<Vec<u8>> = (0..k)
        .map(|_| {
            let n = *s.pick(&[1usize, 8, 32, 32, 40]);
            message(s, n)
        })
        .collect();
    s.note(&format!("{:02x?}", ms));
    let mut cs = Cs::<F>::new(false);
    let mut ps = vec![];
    for (i, m) in ms.iter().enumerate() {
        let r = if s.bool() { AbstractHashSha256Output::alloc(cs.ns(|| format!("p {}", i)), m.clone()) } else { AbstractHashSha256Output::alloc_input(cs.ns(|| format!("p {}", i)), m.clone()) };
        match r {
            Ok(p) => ps.push(p),
            Err(e) => return fail("alloc", format!("{:?}", e)),
        }
    }
    let refs: Vec<&AbstractHashSha256Output> = ps.iter().collect();
    let o = match AbstractHashSha256::<F>::hash_enforce(cs.ns(|| "hash"), &refs) {
        Ok(o) => o,
        Err(e) => return fail("synthesis", format!("{:?}", e)),
    };
    let want = bits_of(Kind::Sha, &sha2::Sha256::digest(&ms.concat()));
    let vs = <AbstractHashSha256Output as AbstractHashOutput<F>>::get_variables(&o);
    let vals = <AbstractHashSha256Output as AbstractHashOutput<F>>::get_variable_values(&o);
    ensure!(vs.len() == 256 && vals.len() == 256, "length", "{} digest variables", vs.len());
    let bit = |b: bool| if b { F::one() } else { F::zero() };
    for i in 0..256 {
        ensure!(vals[i] == Some(bit(want[i])), "value", "digest bit {} is {:?}", i, vals[i]);
        ensure!(cs.val(vs[i]) == bit(want[i]), "assignment", "digest bit {}", i);
    }
    ensure!(cs.sat(), "unsatisfied", "honest values violate a constraint");
    let mut src = vec![];
    for p in &ps {
        src.extend(<AbstractHashSha256Output as AbstractHashOutput<F>>::get_variables(p).into_iter().map(|v| cs.id(v)));
    }
    let targets: Vec<Lc<F>> = vs.iter().map(|v| vec![(cs.id(*v), F::one())]).collect();
    match other_result(&cs, &src, &targets, s) {
        Alt::Forced => s.label("forced"),
        Alt::Other(_, w) => return fail("forged", format!("another digest satisfies the constraints: {}", w)),
        Alt::Open => s.label("open"),
    }
    s.nontrivial();
    Ok(())
}
fn main() {
    type F = ark_bls12_381::Fr;
    type K = <zkp_curve25519::Curve25519 as zkp_curve::Curve>::Fr;
    vharness::main(
        "P23",
        "the message has at least one allocated bit",
        vec![
            sub("sha256", 60, 1500, |s| digest::<F>(s, Kind::Sha, 140, true)),
            sub("sha256-25519", 15, 300, |s| digest::<K>(s, Kind::Sha, 70, true)),
            sub("sha256-block", 24, 500, |s| digest::<F>(s, Kind::Block, 64, true)),
            sub("sha256-linked", 20, 400, linked::<F>),
            sub("blake2s", 60, 1500, |s| digest::<F>(s, Kind::Blake, 140, true)),
            sub("blake2s-25519", 15, 300, |s| digest::<K>(s, Kind::Blake, 70, true)),
            sub("long", 10, 200, |s| {
                let k = *s.pick(&[Kind::Sha, Kind::Blake]);
                digest::<F>(s, k, 400, false)
            }),
            sub("late", 30, 600, |s| {
                let k = *s.pick(&[Kind::Sha, Kind::Blake]);
                // up to 2^17 bits, so that lengths pass 16 bits
                digest_of::<F>(s, k, 17, false, true)
            }),
        ],
    )
}
