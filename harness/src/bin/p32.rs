//! P32: whatever is offered as a proof is refused or judged, never crashed on, and only proofs pass.
use ark_bls12_381::Bls12_381;
use vharness::all::*;
use vharness::tree::*;
use vharness::*;
use zkp_curve25519::Curve25519;

type B = Bls12_381;
type C = Curve25519;

/// where the counts, option tags and leaves of an encoding lie
fn marks(n: &Node, at: &mut usize, out: &mut Vec<(usize, char)>) {
    match n {
        Node::Leaf(c, b) => {
            out.push((*at, *c));
            *at += b.len();
        }
        Node::List(_, v) => {
            out.push((*at, 'n'));
            *at += 8;
            v.iter().for_each(|x| marks(x, at, out));
        }
        Node::Opt(_, x) => {
            out.push((*at, '?'));
            *at += 1;
            if let Some(x) = x {
                marks(x, at, out)
            }
        }
        Node::Rec(v) => v.iter().for_each(|x| marks(&x.1, at, out)),
    }
}
type Pool = Vec<(char, Vec<u8>)>;
/// an object of the right type with lists of any length
fn any(s: &mut Src, t: &Ty, o: &Ops, pool: &Pool, left: &mut usize, typical: usize) -> Node {
    match t {
        Ty::Leaf(c) => {
            let same: Vec<&Vec<u8>> = pool.iter().filter(|x| x.0 == *c).map(|x| &x.1).collect();
            if same.is_empty() {
                let n = match c {
                    'f' => o.fs,
                    'g' => o.gs,
                    'h' => o.hs,
                    'u' => 8,
                    'w' => 4,
                    _ => 1,
                };
                return Node::Leaf(*c, vec![0; n]);
            }
            let b = (*s.pick(&same)).clone();
            let b = match (c, s.below(3)) {
                ('f', 0) => (o.mf)(&b, s),
                ('g', 0) => (o.mg)(&b, s),
                ('h', 0) => (o.mh)(&b, s),
                _ => b,
            };
            Node::Leaf(*c, b)
        }
        Ty::List(x) => {
            let n = match s.below(8) {
                0 => 0,
                1 => 1,
                2 => s.below(typical + 2),
                3 => s.below(20),
                _ => typical,
            };
            let mut v = vec![];
            for _ in 0..n {
                if *left == 0 {
                    break;
                }
                *left -= 1;
                let inner = inner_len(s, typical);
                v.push(any(s, x, o, pool, left, inner));
            }
            Node::List(x.clone(), v)
        }
        Ty::Map(..) => unreachable!(),
        Ty::Opt(x) => {
            let v = if s.bool() { None } else { Some(Box::new(any(s, x, o, pool, left, typical))) };
            Node::Opt(x.clone(), v)
        }
        Ty::Rec(fs) => Node::Rec(fs.iter().map(|(n, x)| (n.clone(), any(s, x, o, pool, left, typical))).collect()),
    }
}
/// list lengths of inner lists: mostly as given, sometimes another small number
fn inner_len(s: &mut Src, n: usize) -> usize {
    if s.chance(1, 6) {
        s.below(6)
    } else {
        n
    }
}
/// like the proof, with the leaves of some kind all replaced by one value
fn flat(s: &mut Src, b: &[u8], t: &Ty, o: &Ops) -> Option<Vec<u8>> {
    let mut n = t.parse(b, o).ok()?;
    let lv = n.leaves();
    let kind = *s.pick(&['f', 'g', '*']);
    let zero = |c: char| -> Vec<u8> {
        match c {
            // (identity: the infinity flag of the compressed form, or all zero)
            'g' if o.gs == 48 => {
                let mut v = vec![0; 48];
                v[47] = 0x40;
                v
            }
            'h' => {
                let mut v = vec![0; 96];
                v[95] = 0x40;
                v
            }
            'g' => vec![0; o.gs],
            _ => vec![0; o.fs],
        }
    };
    for (i, l) in lv.iter().enumerate() {
        if "fgh".contains(l.1) && (kind == '*' || kind == l.1) {
            n.set_leaf(i, zero(l.1));
        }
    }
    Some(n.ser())
}
fn spoil(s: &mut Src, j: &Job, good: &[u8], other: &[u8]) -> Option<(&'static str, Vec<u8>)> {
    let t = Ty::p(j.schema);
    let tree = t.parse(good, &j.ops).ok()?;
    let mut m = vec![];
    marks(&tree, &mut 0, &mut m);
    let mut b = good.to_vec();
    let what = match s.below(17) {
        0 => {
            // at the border of a field half of the time
            let k = if s.bool() { s.pick(&m).0 } else { s.below(b.len()) };
            b.truncate(k);
            "truncated"
        }
        1 => {
            let n = s.range(1, 40);
            let x = s.bytes(n);
            b.extend(x);
            "extended"
        }
        2 => {
            for _ in 0..s.range(1, 4) {
                let i = s.below(b.len());
                b[i] ^= 1 << s.below(8);
            }
            "bits flipped"
        }
        3 => {
            for _ in 0..s.range(1, 4) {
                let i = s.below(b.len());
                b[i] = *s.pick(&[0u8, 1, 2, 0x40, 0x7f, 0x80, 0xc0, 0xff]);
            }
            "bytes set"
        }
        4 | 5 => {
            let l: Vec<usize> = m.iter().filter(|x| x.1 == 'n').map(|x| x.0).collect();
            if l.is_empty() {
                return None;
            }
            let at = *s.pick(&l);
            let was = u64::from_le_bytes(b[at..at + 8].try_into().unwrap());
            let n = match s.below(8) {
                0 => was.wrapping_add(1),
                1 => was.wrapping_sub(1),
                2 => 0,
                3 => u64::MAX,
                4 => 1 << s.range(3, 63),
                5 => was << 1,
                6 => u32::MAX as u64 + was,
                _ => s.below(40) as u64,
            };
            b[at..at + 8].copy_from_slice(&n.to_le_bytes());
            "count changed"
        }
        6 => {
            let l: Vec<usize> = m.iter().filter(|x| x.1 == '?').map(|x| x.0).collect();
            if l.is_empty() {
                return None;
            }
            let at = *s.pick(&l);
            b[at] = *s.pick(&[0u8, 1, 2, 0xff]);
            "option tag changed"
        }
        7 => {
            let n = s.below(200);
            b = s.bytes(n);
            "random bytes"
        }
        8 => {
            b = vec![*s.pick(&[0u8, 0xff, 1]); s.below(2 * good.len()) + 1];
            "constant bytes"
        }
        9 => {
            let (i, k) = (s.pick(&m).0, s.pick(&m).0);
            let (i, k) = (i.min(k), i.max(k));
            match s.below(3) {
                0 => {
                    b.drain(i..k);
                }
                1 => {
                    let part = b[i..k].to_vec();
                    b.splice(k..k, part);
                }
                _ => b[i..k].reverse(),
            }
            "part removed or repeated"
        }
        10 => {
            b = other.to_vec();
            "another statement's proof"
        }
        11 => {
            let k = s.below(b.len().min(other.len()).max(1));
            b = [&good[..k.min(good.len())], &other[k.min(other.len())..]].concat();
            "spliced with another proof"
        }
        12 | 13 | 14 => {
            let mut n = tree.clone();
            for _ in 0..s.range(1, 3) {
                if let Some((x, _)) = n.mutate(s, &j.ops) {
                    n = x;
                }
            }
            b = n.ser();
            "lists or values changed"
        }
        15 => {
            b = flat(s, good, &t, &j.ops)?;
            "all zero"
        }
        _ => {
            let pool: Pool = tree.leaves().into_iter().map(|l| (l.1, l.2)).collect();
            let mut left = 400;
            let typical = s.below(6);
            b = any(s, &t, &j.ops, &pool, &mut left, typical).ser();
            "well-typed object"
        }
    };
    Some((what, b))
}
/// the same proof written otherwise: option fields that add nothing
fn normal(j: &Job, b: &[u8]) -> Option<Vec<u8>> {
    let mut n = Ty::p(j.schema).parse(b, &j.ops).ok()?;
    fn go(n: &mut Node, name: &str) {
        match n {
            Node::List(_, v) => v.iter_mut().for_each(|x| go(x, name)),
            Node::Opt(_, x) => {
                let blank = match x.as_deref() {
                    Some(Node::Leaf('f', b)) => b.iter().all(|y| *y == 0),
                    // evaluations sent along with an opening, which verifiers do not look at
                    Some(Node::List(..)) => name == "e",
                    _ => false,
                };
                if blank {
                    *x = None;
                } else if let Some(x) = x {
                    go(x, name)
                }
            }
            Node::Rec(v) => v.iter_mut().for_each(|(k, x)| go(x, k)),
            _ => {}
        }
    }
    go(&mut n, "");
    Some(n.ser())
}
fn offered(s: &mut Src, mk: fn(&mut Src, &Size) -> Result<Job, Fail>, reread: fn(&[u8]) -> Option<Vec<u8>>, tries: usize) -> R {
    let z = *s.pick(&[SMALL, Size { cons: 3, aux: 3, depth: 1, width: 3, min_aux: 0, lc: 12 }, Size { cons: 10, aux: 10, depth: 4, width: 9, min_aux: 0, lc: 12 }]);
    let j = mk(s, &z)?;
    let other = mk(s, &z)?;
    let mut rng = s.rng();
    let good = j.proof(&mut rng)?;
    let op = other.proof(&mut rng)?;
    ensure!(j.accepts(&good), "rejected", "an honest proof is refused");
    s.note(format!("{} proof of {} bytes", j.name, good.len()));
    let base = normal(&j, &good);
    for _ in 0..tries {
        let (what, b) = match spoil(s, &j, &good, &op) {
            Some(x) => x,
            None => continue,
        };
        if b == good {
            continue;
        }
        match quiet(|| (j.verify)(&b)) {
            Err(p) => return fail("panic", format!("{} ({} bytes): {}", what, b.len(), p)),
            Ok(Ok(true)) => {
                // then it must denote the proof itself, or one that means the same
                let r = reread(&b).unwrap_or_default();
                let same = r == good || normal(&j, &r) == base;
                // a proof of the other statement passes where the statements coincide
                let coincide = r == op && j.keys.iter().zip(&other.keys).all(|(a, b)| a.1 == b.1);
                let zeros = j.trivial && matches!(what, "all zero" | "well-typed object");
                ensure!(same || coincide || zeros, "accepted", "{} is accepted", what);
                s.label(format!("{}: same proof", what));
            }
            Ok(Ok(false)) => s.label(format!("{}: refused by verifying", what)),
            Ok(Err(e)) => s.label(format!("{}: {}", what, if e.starts_with("undecodable") { "undecodable" } else { "refused with an error" })),
        }
    }
    s.nontrivial();
    Ok(())
}
fn rr<T: ark_serialize::CanonicalDeserialize + ark_serialize::CanonicalSerialize>(b: &[u8]) -> Option<Vec<u8>> {
    de::<T>(b).map(|x| ser(&x))
}
fn main() {
    vharness::main(
        "P32",
        "A case is a random statement with an honest proof and a series of byte strings made from it or from nothing (cut, extended, flipped, counts and tags changed, spliced, rebuilt with other list lengths, well-typed objects of any shape); non-trivial = the whole series was judged.",
        vec![
            sub("groth16", 40, 1500, |s| offered(s, groth16, rr::<zkp_groth16::Proof<B>>, 30)),
            sub("marlin", 60, 2000, |s| offered(s, marlin, rr::<zkp_marlin::Proof<B>>, 40)),
            sub("plonk", 60, 2000, |s| offered(s, plonk, rr::<vharness::plonk::Proof>, 40)),
            sub("bulletproofs", 40, 1200, |s| offered(s, bulletproofs::<B>, rr::<zkp_bulletproofs::Proof<B>>, 40)),
            sub("bulletproofs-25519", 400, 12000, |s| offered(s, bulletproofs::<C>, rr::<zkp_bulletproofs::Proof<C>>, 40)),
            sub("spartan-nizk", 20, 600, |s| offered(s, nizk::<B>, rr::<zkp_spartan::nizk::Proof<B>>, 40)),
            sub("spartan-nizk-25519", 300, 9000, |s| offered(s, nizk::<C>, rr::<zkp_spartan::nizk::Proof<C>>, 40)),
            sub("spartan-snark", 10, 300, |s| offered(s, snark::<B>, rr::<zkp_spartan::snark::Proof<B>>, 40)),
            sub("spartan-snark-25519", 120, 4000, |s| offered(s, snark::<C>, rr::<zkp_spartan::snark::Proof<C>>, 40)),
            sub("libra", 20, 600, |s| offered(s, libra::<B>, rr::<zkp_libra::libra_zk_linear_gkr::ZKLinearGKRProof<B>>, 40)),
            sub("libra-25519", 300, 9000, |s| offered(s, libra::<C>, rr::<zkp_libra::libra_zk_linear_gkr::ZKLinearGKRProof<C>>, 40)),
            sub("hyrax", 20, 600, |s| offered(s, hyrax::<B>, rr::<zkp_hyrax::hyrax_proof::HyraxProof<B>>, 40)),
            sub("hyrax-25519", 300, 9000, |s| offered(s, hyrax::<C>, rr::<zkp_hyrax::hyrax_proof::HyraxProof<C>>, 40)),
        ],
    )
}
