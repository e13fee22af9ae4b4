//! P28: the Merkle membership circuit is satisfiable only for true members.
use sha2::Digest;
use vharness::wit::*;
use vharness::*;
use zkp_gadgets::hashes::abstract_hash::{AbstractHash, AbstractHashOutput};
use zkp_gadgets::hashes::{mimc, poseidon, rescue, sha256};
use zkp_gadgets::merkletree::{cbmt::TreeIndex, cbmt_constraints::MerkleProofGadget};
use zkp_r1cs::{ConstraintSystem, SynthesisError};

type Item<F> = Vec<F>;
trait H<F: Fld> {
    const NAME: &'static str;
    type A: AbstractHash<F>;
    fn merge(l: &Item<F>, r: &Item<F>) -> Item<F>;
    fn leaf(s: &mut Src) -> Item<F>;
    fn alloc(cs: &mut Cs<F>, v: Option<&Item<F>>, input: bool, n: &str) -> Result<<Self::A as AbstractHash<F>>::Output, SynthesisError>;
    fn blank() -> bool;
}
fn el<F: Fld>(s: &mut Src) -> F {
    match s.below(4) {
        0 => F::from(s.below(3) as u64),
        _ => F::rand(&mut s.rng()),
    }
}
fn encode<F: Fld>(v: &[F]) -> Vec<u8> {
    let mut b = vec![];
    for x in v {
        x.write(&mut b).unwrap();
    }
    b
}
macro_rules! field_hash {
    ($n:ident, $m:ident, $a:ident, $o:ident, $name:expr, $input:expr) => {
        struct $n;
        impl<F: Fld> H<F> for $n {
            const NAME: &'static str = $name;
            type A = $m::$a<F>;
            fn merge(l: &Item<F>, r: &Item<F>) -> Item<F> {
                vec![$m::hash(&encode(&[l[0], r[0]]))]
            }
            fn leaf(s: &mut Src) -> Item<F> {
                vec![el(s)]
            }
            fn alloc(cs: &mut Cs<F>, v: Option<&Item<F>>, input: bool, n: &str) -> Result<$m::$o<F>, SynthesisError> {
                let f: fn(&mut Cs<F>, Option<F>, bool, &str) -> Result<$m::$o<F>, SynthesisError> = $input;
                f(cs, v.map(|v| v[0]), input, n)
            }
            fn blank() -> bool {
                true
            }
        }
    };
}
field_hash!(M, mimc, AbstractHashMimc, AbstractHashMimcOutput, "mimc", |cs, v, input, n| if input {
    mimc::AbstractHashMimcOutput::alloc_input(cs.ns(|| n.to_string()), v)
} else {
    mimc::AbstractHashMimcOutput::alloc(cs.ns(|| n.to_string()), v)
});
field_hash!(P, poseidon, AbstractHashPoseidon, AbstractHashPoseidonOutput, "poseidon", |cs, v, _, n| poseidon::AbstractHashPoseidonOutput::alloc(cs.ns(|| n.to_string()), v));
field_hash!(Re, rescue, AbstractHashRescue, AbstractHashRescueOutput, "rescue", |cs, v, _, n| rescue::AbstractHashRescueOutput::alloc(cs.ns(|| n.to_string()), v));
struct S;
fn bits<F: Fld>(b: &[u8]) -> Item<F> {
    b.iter().flat_map(|x| (0..8).rev().map(move |i| if x >> i & 1 == 1 { F::one() } else { F::zero() })).collect()
}
fn bytes<F: Fld>(v: &[F]) -> Vec<u8> {
    v.chunks(8).map(|c| c.iter().fold(0u8, |a, x| a << 1 | x.is_one() as u8)).collect()
}
impl<F: Fld> H<F> for S {
    const NAME: &'static str = "sha256";
    type A = sha256::AbstractHashSha256<F>;
    fn merge(l: &Item<F>, r: &Item<F>) -> Item<F> {
        bits(&sha2::Sha256::digest(&[bytes(l), bytes(r)].concat()))
    }
    fn leaf(s: &mut Src) -> Item<F> {
        let n = *s.pick(&[1usize, 8, 32]);
        bits(&(0..n).map(|_| s.u64() as u8).collect::<Vec<_>>())
    }
    fn alloc(cs: &mut Cs<F>, v: Option<&Item<F>>, input: bool, n: &str) -> Result<sha256::AbstractHashSha256Output, SynthesisError> {
        let b = bytes(v.unwrap());
        if input {
            sha256::AbstractHashSha256Output::alloc_input(cs.ns(|| n.to_string()), b)
        } else {
            sha256::AbstractHashSha256Output::alloc(cs.ns(|| n.to_string()), b)
        }
    }
    fn blank() -> bool {
        false
    }
}
struct Wires {
    root: Vec<usize>,
    leaf: Vec<usize>,
    lemmas: Vec<Vec<usize>>,
}
fn synth<F: Fld, G: H<F>, I: TreeIndex>(root: &Item<F>, leaf: &Item<F>, lemmas: &[Item<F>], index: I, leaf_input: bool, blank: bool) -> Result<(Cs<F>, Wires), SynthesisError> {
    let mut cs = Cs::<F>::new(blank);
    let v = |x| if blank { None } else { Some(x) };
    let r = G::alloc(&mut cs, v(root), true, "root")?;
    let l = G::alloc(&mut cs, v(leaf), leaf_input, "leaf")?;
    let mut ls = vec![];
    for (i, x) in lemmas.iter().enumerate() {
        ls.push(G::alloc(&mut cs, v(x), false, &format!("lemma {}", i))?);
    }
    let ids = |cs: &Cs<F>, o: &<G::A as AbstractHash<F>>::Output| o.get_variables().into_iter().map(|v| cs.id(v)).collect::<Vec<_>>();
    let w = Wires { root: ids(&cs, &r), leaf: ids(&cs, &l), lemmas: ls.iter().map(|x| ids(&cs, x)).collect() };
    MerkleProofGadget::<I, F, G::A>::new(index, ls).set_membership(cs.ns(|| "member"), r, l)?;
    Ok((cs, w))
}
fn fold<F: Fld, G: H<F>>(leaf: &Item<F>, lemmas: &[Item<F>], mut index: usize) -> Item<F> {
    let mut p = leaf.clone();
    for x in lemmas {
        p = if index % 2 == 1 { G::merge(&p, x) } else { G::merge(x, &p) };
        index = (index - 1) / 2;
    }
    p
}
fn member<F: Fld, G: H<F>>(s: &mut Src, max: usize) -> R {
    let n = s.range(1, max);
    let leaves: Vec<Item<F>> = (0..n).map(|_| G::leaf(s)).collect();
    let mut nodes = vec![vec![]; n - 1];
    nodes.extend(leaves.clone());
    for i in (0..n - 1).rev() {
        nodes[i] = G::merge(&nodes[2 * i + 1], &nodes[2 * i + 2]);
    }
    let at = s.below(n);
    let index = n - 1 + at;
    let mut lemmas = vec![];
    let mut i = index;
    while i > 0 {
        lemmas.push(nodes[if i % 2 == 1 { i + 1 } else { i - 1 }].clone());
        i = (i - 1) / 2;
    }
    let (root, leaf) = (nodes[0].clone(), leaves[at].clone());
    let li = s.bool();
    let wide = s.bool();
    s.note(&format!("{} position {} of {} leaves: {}", G::NAME, at, n, leaves.iter().map(|l| l.iter().map(|x| x.to_string()).collect::<String>()).collect::<Vec<_>>().join(" ").chars().take(600).collect::<String>()));
    s.label(format!("depth {}", lemmas.len()));
    let go = |root: &Item<F>, leaf: &Item<F>, lemmas: &[Item<F>], blank| if wide { synth::<F, G, usize>(root, leaf, lemmas, index, li, blank) } else { synth::<F, G, u32>(root, leaf, lemmas, index as u32, li, blank) };
    let (cs, w) = match go(&root, &leaf, &lemmas, false) {
        Ok(x) => x,
        Err(e) => return fail("synthesis", format!("{:?}", e)),
    };
    if let Some(k) = cs.violated(&cs.vals) {
        return fail("unsatisfied", format!("a true member violates {}", cs.names[k]));
    }
    if G::blank() {
        match go(&root, &leaf, &lemmas, true) {
            Ok((bk, _)) => ensure!(bk.shape() == cs.shape(), "shape", "the circuit depends on the values"),
            Err(e) => return fail("blank", format!("{:?}", e)),
        }
    }
    s.nontrivial();
    // false claims: another root, leaf or sibling
    let bitwise = root.len() > 1;
    let mut other = |s: &mut Src, v: &Item<F>| -> Item<F> {
        let mut v = v.clone();
        if bitwise {
            let i = s.below(v.len());
            v[i] = F::one() - v[i];
        } else {
            v[0] = match s.below(3) {
                0 => v[0] + F::one(),
                1 => -v[0] + F::from(7u64),
                _ => F::rand(&mut s.rng()),
            };
        }
        v
    };
    for _ in 0..3 {
        let (mut r2, mut l2, mut m2) = (root.clone(), leaf.clone(), lemmas.clone());
        let what = s.below(3);
        match what {
            0 => r2 = other(s, &root),
            1 => l2 = other(s, &leaf),
            _ if !m2.is_empty() => {
                let j = s.below(m2.len());
                m2[j] = other(s, &lemmas[j]);
            }
            _ => r2 = other(s, &root),
        }
        let holds = fold::<F, G>(&l2, &m2, index) == r2;
        if holds {
            continue;
        }
        // synthesized with the false values
        match go(&r2, &l2, &m2, false) {
            Ok((c2, _)) => ensure!(!c2.sat(), "false-satisfied", "a false claim (kind {}) is satisfied as synthesized", what),
            Err(_) => s.label("refused at synthesis"),
        }
        // forged in the honest circuit
        let mut se = Search::new(&cs);
        let mut fixed: Vec<(usize, F)> = vec![];
        fixed.extend(w.root.iter().cloned().zip(r2.iter().cloned()));
        fixed.extend(w.leaf.iter().cloned().zip(l2.iter().cloned()));
        let no_path = fixed.clone();
        for (a, b) in w.lemmas.iter().zip(&m2) {
            fixed.extend(a.iter().cloned().zip(b.iter().cloned()));
        }
        match se.solve(&fixed) {
            Found::Sat(_) => return fail("forged", format!("a false claim (kind {}) can be satisfied", what)),
            Found::Unsat => s.label("impossible"),
            Found::Unknown => s.label("open"),
        }
        // with any siblings: whatever satisfies the circuit has to be a path
        if !bitwise && what < 2 {
            se.budget = 10;
            if let Found::Sat(v) = se.solve(&no_path) {
                let m3: Vec<Item<F>> = w.lemmas.iter().map(|l| l.iter().map(|i| v[*i]).collect()).collect();
                ensure!(fold::<F, G>(&l2, &m3, index) == r2, "forged-path", "siblings that are no path to the root satisfy the circuit");
            }
        }
    }
    Ok(())
}
/// a leaf of another width than the root, without any level to hash it
fn narrow<F: Fld>(s: &mut Src) -> R {
    let n = *s.pick(&[1usize, 2, 31]);
    let leaf: Vec<u8> = (0..n).map(|_| s.u64() as u8).collect();
    let mut root: Vec<u8> = (0..32).map(|_| s.u64() as u8).collect();
    root[..n].copy_from_slice(&leaf);
    s.note(&format!("{:02x?} as {:02x?}", leaf, root));
    match synth::<F, S, u32>(&bits(&root), &bits(&leaf), &[], 0, s.bool(), false) {
        Ok((cs, _)) => ensure!(!cs.sat(), "truncated", "a prefix of the root passes as the only leaf"),
        Err(_) => s.label("refused"),
    }
    s.nontrivial();
    Ok(())
}
fn main() {
    type F = ark_bls12_381::Fr;
    type K = <zkp_curve25519::Curve25519 as zkp_curve::Curve>::Fr;
    vharness::main(
        "P28",
        "every case: a membership circuit of a true member, then with false claims in it",
        vec![
            sub("mimc", 300, 6000, |s| member::<F, M>(s, 12)),
            sub("mimc-25519", 80, 1500, |s| member::<K, M>(s, 12)),
            sub("poseidon", 120, 2500, |s| member::<F, P>(s, 8)),
            sub("rescue", 8, 160, |s| member::<F, Re>(s, 4)),
            sub("sha256", 16, 300, |s| member::<F, S>(s, 4)),
            sub("narrow", 30, 300, narrow::<F>),
        ],
    )
}
