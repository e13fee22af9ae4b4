//! P24: field-friendly hash circuits are tied to their inputs and to their native hash.
use vharness::wit::*;
use vharness::*;
use zkp_gadgets::hashes::abstract_hash::{AbstractHash, AbstractHashOutput};
use zkp_gadgets::hashes::{mimc, poseidon, rescue};
use zkp_r1cs::{ConstraintSystem, SynthesisError, Variable};

trait H<F: Fld> {
    const NAME: &'static str;
    type A: AbstractHash<F>;
    fn native(b: &[u8]) -> F;
    fn alloc(cs: &mut Cs<F>, v: Option<F>, input: bool, n: usize) -> Result<<Self::A as AbstractHash<F>>::Output, SynthesisError>;
    /// the circuit over bytes: its value, and whether its public input is the image
    fn bytes(cs: &mut Cs<F>, b: &[u8]) -> Result<Option<F>, SynthesisError>;
}
struct M;
struct Re;
struct P;
impl<F: Fld> H<F> for M {
    const NAME: &'static str = "mimc";
    type A = mimc::AbstractHashMimc<F>;
    fn native(b: &[u8]) -> F {
        mimc::hash(b)
    }
    fn alloc(cs: &mut Cs<F>, v: Option<F>, input: bool, n: usize) -> Result<mimc::AbstractHashMimcOutput<F>, SynthesisError> {
        if input {
            mimc::AbstractHashMimcOutput::alloc_input(cs.ns(|| format!("p {}", n)), v)
        } else {
            mimc::AbstractHashMimcOutput::alloc(cs.ns(|| format!("p {}", n)), v)
        }
    }
    fn bytes(cs: &mut Cs<F>, b: &[u8]) -> Result<Option<F>, SynthesisError> {
        mimc::mimc(cs.ns(|| "h"), Some(b))
    }
}
impl<F: Fld> H<F> for Re {
    const NAME: &'static str = "rescue";
    type A = rescue::AbstractHashRescue<F>;
    fn native(b: &[u8]) -> F {
        rescue::hash(b)
    }
    fn alloc(cs: &mut Cs<F>, v: Option<F>, _: bool, n: usize) -> Result<rescue::AbstractHashRescueOutput<F>, SynthesisError> {
        rescue::AbstractHashRescueOutput::alloc(cs.ns(|| format!("p {}", n)), v)
    }
    fn bytes(cs: &mut Cs<F>, b: &[u8]) -> Result<Option<F>, SynthesisError> {
        rescue::rescue(cs.ns(|| "h"), b).map(Some)
    }
}
impl<F: Fld> H<F> for P {
    const NAME: &'static str = "poseidon";
    type A = poseidon::AbstractHashPoseidon<F>;
    fn native(b: &[u8]) -> F {
        poseidon::hash(b)
    }
    fn alloc(cs: &mut Cs<F>, v: Option<F>, _: bool, n: usize) -> Result<poseidon::AbstractHashPoseidonOutput<F>, SynthesisError> {
        poseidon::AbstractHashPoseidonOutput::alloc(cs.ns(|| format!("p {}", n)), v)
    }
    fn bytes(cs: &mut Cs<F>, b: &[u8]) -> Result<Option<F>, SynthesisError> {
        poseidon::poseidon(cs.ns(|| "h"), b).map(Some)
    }
}
fn encode<F: Fld>(v: &[F]) -> Vec<u8> {
    let mut b = vec![];
    for x in v {
        x.write(&mut b).unwrap();
    }
    b
}
fn el<F: Fld>(s: &mut Src) -> F {
    match s.below(5) {
        0 => F::zero(),
        1 => -F::one(),
        2 => F::from(s.below(3) as u64),
        _ => F::rand(&mut s.rng()),
    }
}
type Syn<F> = Result<(Cs<F>, Vec<Variable>, Variable, Option<F>), SynthesisError>;
fn synth<F: Fld, G: H<F>>(v: &[F], wires: &[usize], input: &[bool], blank: bool) -> Syn<F> {
    let mut cs = Cs::<F>::new(blank);
    let mut ps = vec![];
    for (i, x) in v.iter().enumerate() {
        ps.push(G::alloc(&mut cs, if blank { None } else { Some(*x) }, input[i], i)?);
    }
    let refs: Vec<_> = wires.iter().map(|w| &ps[*w]).collect();
    let o = G::A::hash_enforce(cs.ns(|| "hash"), &refs)?;
    let (vs, vals) = (o.get_variables(), o.get_variable_values());
    if vs.len() != 1 || vals.len() != 1 {
        return Err(SynthesisError::Unsatisfiable);
    }
    let ins = ps.iter().map(|p| p.get_variables()[0]).collect();
    Ok((cs, ins, vs[0], vals[0]))
}
/// the hash as other circuits use it
fn linked<F: Fld, G: H<F>>(s: &mut Src, max: usize) -> R {
    let n = s.range(1, max);
    let v: Vec<F> = (0..n).map(|_| el(s)).collect();
    // the same wire may appear twice
    let k = s.range(1, max);
    let mut wires: Vec<usize> = if s.below(3) == 0 { (0..k).map(|_| s.below(n)).collect() } else { (0..n).collect() };
    if s.bool() {
        wires.reverse();
    }
    let input: Vec<bool> = (0..n).map(|_| s.bool()).collect();
    s.note(&format!("{} wires {:?} inputs {:?} values {}", G::NAME, wires, input, v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
    s.label(format!("{} of {}", G::NAME, wires.len()));
    let native = |v: &[F]| G::native(&encode(&wires.iter().map(|w| v[*w]).collect::<Vec<_>>()));
    let want = native(&v);
    let (cs, ins, out, val) = match synth::<F, G>(&v, &wires, &input, false) {
        Ok(x) => x,
        Err(e) => return fail("synthesis", format!("{:?}", e)),
    };
    ensure!(val == Some(want), "value", "value {:?}, native {}", val, want);
    ensure!(cs.val(out) == want, "assignment", "output wire {}, native {}", cs.val(out), want);
    if let Some(k) = cs.violated(&cs.vals) {
        return fail("unsatisfied", format!("honest values violate {}", cs.names[k]));
    }
    match synth::<F, G>(&v, &wires, &input, true) {
        Ok((bk, ..)) => ensure!(bk.shape() == cs.shape(), "shape", "the circuit depends on the values"),
        Err(e) => return fail("blank", format!("no circuit without values: {:?}", e)),
    }
    let src: Vec<usize> = ins.iter().map(|v| cs.id(*v)).collect();
    match other_result(&cs, &src, &[vec![(cs.id(out), F::one())]], s) {
        Alt::Forced => s.label("forced"),
        Alt::Other(_, w) => return fail("forged", format!("another output satisfies the constraints: {}", w)),
        Alt::Open => s.label("open"),
    }
    // every wire moves the output, as it does natively
    let se = Search::new(&cs);
    let i = *s.pick(&wires);
    let mut v2 = v.clone();
    v2[i] += F::from(1 + s.below(5) as u64);
    let fixed: Vec<(usize, F)> = src.iter().cloned().zip(v2.iter().cloned()).collect();
    match se.forced(&fixed) {
        None => return fail("unsatisfied", "the circuit refuses other input values"),
        Some(f) => match f[cs.id(out)] {
            Some(x) => {
                ensure!(x != want, "influence", "input {} does not move the output", i);
                ensure!(x == native(&v2), "value", "with other values on the wires the output is not the native hash");
            }
            None => s.label("open"),
        },
    }
    s.nontrivial();
    Ok(())
}
/// the circuit over a byte string
fn bytes<F: Fld, G: H<F>>(s: &mut Src) -> R {
    let n = match s.below(4) {
        0 => *s.pick(&[1usize, 31, 32, 33, 63, 64, 65]),
        _ => s.range(1, 130),
    };
    let b: Vec<u8> = match s.below(4) {
        0 => vec![0xff; n],
        1 => vec![0; n],
        _ => (0..n).map(|_| s.u64() as u8).collect(),
    };
    s.note(&format!("{} {:02x?}", G::NAME, b));
    s.label(format!("{} {} chunks", G::NAME, (n + 31) / 32));
    let want = G::native(&b);
    let mut cs = Cs::<F>::new(false);
    let v = match G::bytes(&mut cs, &b) {
        Ok(v) => v,
        Err(e) => return fail("synthesis", format!("{:?}", e)),
    };
    ensure!(v == Some(want), "value", "{:?} instead of {}", v, want);
    if let Some(k) = cs.violated(&cs.vals) {
        return fail("unsatisfied", format!("honest values violate {}", cs.names[k]));
    }
    // the wire that carries the image: public, or the last one
    let out = match cs.inputs.len() {
        1 => (0..cs.vals.len()).rev().find(|i| cs.vals[*i] == want),
        2 => Some(cs.inputs[1]),
        _ => None,
    };
    let out = match out {
        Some(o) => o,
        None => return fail("image", "no wire carries the image"),
    };
    ensure!(cs.vals[out] == want, "image", "the public input is not the image");
    // with the block's two input wires fixed there is one image
    if cs.aux.len() > 2 {
        let chunk: Vec<F> = b.chunks(32).map(F::from_le_bytes_mod_order).collect();
        let head = &b[..(chunk.len() - 1) * 32];
        let h = if head.is_empty() { F::zero() } else { G::native(head) };
        let (l, r) = (cs.aux[0], cs.aux[1]);
        if cs.vals[l] == h && cs.vals[r] == *chunk.last().unwrap() {
            match other_result(&cs, &[l, r], &[vec![(out, F::one())]], s) {
                Alt::Forced => s.label("forced"),
                Alt::Other(_, w) => return fail("bytes-forged", format!("another image satisfies the constraints: {}", w)),
                Alt::Open => s.label("open"),
            }
            let se = Search::new(&cs);
            for i in &[l, r] {
                let other = if *i == l { r } else { l };
                if let Some(f) = se.forced(&[(other, cs.vals[other]), (*i, cs.vals[*i] + F::one())]) {
                    match f[out] {
                        Some(x) => ensure!(x != want, "influence", "an input wire does not move the image"),
                        None => s.label("open"),
                    }
                } else {
                    return fail("unsatisfied", "the circuit refuses other input values");
                }
            }
        } else {
            s.label("wires not found");
        }
    }
    s.nontrivial();
    Ok(())
}
/// the MiMC circuit is the same with and without a message
fn shape<F: Fld>(s: &mut Src) -> R {
    let n = s.range(1, 100);
    let b: Vec<u8> = (0..n).map(|_| s.u64() as u8).collect();
    s.note(&format!("{:02x?}", b));
    let mut cs = Cs::<F>::new(false);
    let mut bk = Cs::<F>::new(true);
    let a = mimc::mimc(cs.ns(|| "h"), Some(&b));
    let z = mimc::mimc::<F, _>(bk.ns(|| "h"), None);
    ensure!(a.is_ok() && matches!(z, Ok(None)), "shape", "refused");
    ensure!(cs.shape() == bk.shape(), "shape", "the circuit depends on the message");
    s.nontrivial();
    Ok(())
}
fn main() {
    type F = ark_bls12_381::Fr;
    type K = <zkp_curve25519::Curve25519 as zkp_curve::Curve>::Fr;
    vharness::main(
        "P24",
        "every case: one circuit with a native hash to compare",
        vec![
            sub("mimc", 200, 6000, |s| linked::<F, M>(s, 4)),
            sub("mimc-25519", 60, 1500, |s| linked::<K, M>(s, 4)),
            sub("rescue", 24, 500, |s| linked::<F, Re>(s, 2)),
            sub("rescue-25519", 12, 250, |s| linked::<K, Re>(s, 2)),
            sub("poseidon", 200, 6000, |s| linked::<F, P>(s, 3)),
            sub("poseidon-25519", 60, 1500, |s| linked::<K, P>(s, 3)),
            sub("mimc-bytes", 150, 4000, bytes::<F, M>),
            sub("rescue-bytes", 16, 300, bytes::<F, Re>),
            sub("poseidon-bytes", 150, 4000, bytes::<F, P>),
            sub("mimc-shape", 60, 600, shape::<F>),
        ],
    )
}
