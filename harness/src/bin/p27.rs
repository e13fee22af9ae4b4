//! P27: binary Merkle trees root, prove and verify membership like the reference tree.
use vharness::*;
use zkp_gadgets::merkletree::cbmt::*;

/// merging spells the tree out: two different trees never have one root
struct Spell;
impl Merge for Spell {
    type Item = String;
    fn merge(l: &String, r: &String) -> String {
        format!("({},{})", l, r)
    }
}
struct Mix;
impl Merge for Mix {
    type Item = u64;
    fn merge(l: &u64, r: &u64) -> u64 {
        (l.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ r.rotate_left(29)).wrapping_mul(0xbf58_476d_1ce4_e5b9).wrapping_add(0x94d0_49bb_1331_11eb) ^ r.wrapping_mul(3)
    }
}
/// every node of the complete binary tree, by its definition: node i has children 2i+1 and 2i+2,
/// the leaves are the last nodes in order
fn reference<T: Clone, M: Merge<Item = T>>(leaves: &[T]) -> Vec<T> {
    let n = leaves.len();
    fn node<T: Clone, M: Merge<Item = T>>(i: usize, leaves: &[T], out: &mut Vec<Option<T>>) -> T {
        let n = leaves.len();
        let v = if i + 1 >= n {
            leaves[i + 1 - n].clone()
        } else {
            let l = node::<T, M>(2 * i + 1, leaves, out);
            let r = node::<T, M>(2 * i + 2, leaves, out);
            M::merge(&l, &r)
        };
        out[i] = Some(v.clone());
        v
    }
    if n == 0 {
        return vec![];
    }
    let mut out = vec![None; 2 * n - 1];
    node::<T, M>(0, leaves, &mut out);
    out.into_iter().map(|x| x.unwrap()).collect()
}
/// siblings from a node up to the root
fn siblings<T: Clone>(nodes: &[T], mut i: usize) -> Vec<T> {
    let mut l = vec![];
    while i > 0 {
        l.push(nodes[if i % 2 == 1 { i + 1 } else { i - 1 }].clone());
        i = (i - 1) / 2;
    }
    l
}
fn size(s: &mut Src, max: usize) -> usize {
    match s.below(4) {
        0 => s.range(0, 4.min(max)),
        1 => *s.pick(&[7usize, 8, 9, 15, 16, 17, 31, 32, 33]),
        _ => s.range(1, max),
    }
    .min(max)
}
fn tree<T, M>(s: &mut Src, leaves: Vec<T>) -> R
where
    T: Ord + Default + Clone + std::fmt::Debug,
    M: Merge<Item = T>,
{
    let n = leaves.len();
    let nodes = reference::<T, M>(&leaves);
    let root = nodes.first().cloned().unwrap_or_default();
    ensure!(CBMT::<T, M>::build_merkle_root(&leaves) == root, "root", "direct root differs");
    let t = CBMT::<T, M>::build_merkle_tree(leaves.clone());
    ensure!(t.root() == root, "tree-root", "root of the tree differs");
    ensure!(t.nodes() == &nodes, "nodes", "nodes differ: {:?}", t.nodes());
    for i in 0..n {
        let p = match t.build_proof(&(i as u32)) {
            Some(p) => p,
            None => return fail("no-proof", format!("no proof for position {} of {}", i, n)),
        };
        let k = n - 1 + i;
        ensure!(*p.index() as usize == k, "index", "position {} of {}: index {}", i, n, p.index());
        ensure!(p.lemmas() == &siblings(&nodes, k)[..], "siblings", "position {} of {}: {:?}", i, n, p.lemmas());
        ensure!(p.root(&leaves[i]).as_ref() == Some(&root), "proof-root", "position {} of {}", i, n);
        ensure!(p.verify(&root, &leaves[i]), "refused", "position {} of {}", i, n);
        match CBMT::<T, M>::build_merkle_proof(&leaves, &(i as u32)) {
            Some(q) => ensure!(q.index() == p.index() && q.lemmas() == p.lemmas(), "direct-proof", "position {}", i),
            None => return fail("no-proof", format!("no direct proof for position {} of {}", i, n)),
        }
    }
    for _ in 0..6 {
        let i = match s.below(5) {
            0 => n as u32,
            1 => u32::MAX,
            2 => u32::MAX - s.below(3 * n + 2) as u32,
            3 => n as u32 + s.below(2 * n + 2) as u32,
            _ => (s.u64() as u32).max(n as u32),
        };
        match quiet(|| t.build_proof(&i).is_some()) {
            Ok(b) => ensure!(!b, "absent", "a proof for position {} of {}", i, n),
            Err(e) => return fail("absent-panic", format!("position {} of {}: {}", i, n, e)),
        }
    }
    Ok(())
}
fn spelled(s: &mut Src) -> R {
    let n = size(s, 24);
    let few = s.below(3) == 0;
    let leaves: Vec<String> = (0..n).map(|i| if few { format!("{}", s.below(3)) } else { format!("x{}", i) }).collect();
    s.note(&format!("{:?}", leaves));
    s.label(format!("leaves {}", n.min(9)));
    tree::<String, Spell>(s, leaves.clone())?;
    if n == 0 {
        return Ok(());
    }
    // a claim holds exactly when the node at that index is the leaf and the list its siblings
    let nodes = reference::<String, Spell>(&leaves);
    for _ in 0..30 {
        let at = s.below(nodes.len());
        let mut index = at as u64;
        let mut leaf = nodes[at].clone();
        let mut l = siblings(&nodes, at);
        let mut root = nodes[0].clone();
        let pick = |s: &mut Src| if s.below(3) == 0 { format!("y{}", s.below(4)) } else { nodes[s.below(nodes.len())].clone() };
        for _ in 0..s.below(3) {
            match s.below(12) {
                0 => leaf = pick(s),
                1 => index = s.below(2 * nodes.len() + 2) as u64,
                2 => index = (index + 1) / 2,
                3 => index = 2 * index + 1 + s.below(2) as u64,
                4 => {
                    let g = 64 - (index + 1).leading_zeros();
                    // as deep, or with the same path below
                    index ^= 1 << s.below(g as usize + 1)
                }
                5 if !l.is_empty() => {
                    let j = s.below(l.len());
                    l[j] = pick(s);
                }
                6 => {
                    l.pop();
                }
                7 => {
                    let x = pick(s);
                    l.push(x)
                }
                8 if !l.is_empty() => {
                    let j = s.below(l.len());
                    l.remove(j);
                }
                9 => {
                    let j = s.below(l.len() + 1);
                    let x = pick(s);
                    l.insert(j, x);
                }
                10 => root = pick(s),
                _ => l.reverse(),
            }
        }
        let index = index.min(u32::MAX as u64 / 4) as u32;
        let want = claim(&root, index as usize, &leaf, &l);
        if root == nodes[0] && nodes.get(index as usize) == Some(&leaf) && siblings(&nodes, index as usize) == l {
            ensure!(want, "model", "the claim model refuses a node of the tree");
        }
        let p = MerkleProof::<String, Spell>::new(index, l.clone());
        let got = match quiet(|| p.verify(&root, &leaf)) {
            Ok(b) => b,
            Err(e) => return fail("verify-panic", e),
        };
        ensure!(got == want, "claim", "verified {}, true {}: root {} leaf {} index {} siblings {:?}", got, want, root, leaf, index, l);
        ensure!(got == (p.root(&leaf) == Some(root.clone())), "claim-root", "verify and root disagree");
        s.label(if want { "true claim" } else { "false claim" });
    }
    s.nontrivial();
    Ok(())
}
/// read the claim off the spelled-out root: walk down along the index
fn claim(root: &str, index: usize, leaf: &str, l: &[String]) -> bool {
    let mut path = vec![];
    let mut i = index;
    while i > 0 {
        path.push(i % 2 == 1);
        i = (i - 1) / 2;
    }
    if path.len() != l.len() {
        return false;
    }
    let mut cur = root.to_string();
    for (left, sib) in path.iter().rev().zip(l.iter().rev()) {
        // split "(a,b)" at its top comma
        if !cur.starts_with('(') {
            return false;
        }
        let mut d = 0;
        let mut at = 0;
        for (j, c) in cur.char_indices() {
            match c {
                '(' => d += 1,
                ')' => d -= 1,
                ',' if d == 1 => at = j,
                _ => {}
            }
        }
        let (a, b) = (cur[1..at].to_string(), cur[at + 1..cur.len() - 1].to_string());
        let (next, other) = if *left { (a, b) } else { (b, a) };
        if other != *sib {
            return false;
        }
        cur = next;
    }
    cur == leaf
}
fn mixed(s: &mut Src) -> R {
    let n = size(s, 300);
    let leaves: Vec<u64> = (0..n).map(|_| s.u64()).collect();
    s.note(&format!("{} leaves", n));
    tree::<u64, Mix>(s, leaves)?;
    if n > 1 {
        s.nontrivial();
    }
    Ok(())
}
fn index(s: &mut Src) -> R {
    let i = match s.below(3) {
        0 => s.range(1, 40),
        1 => (1usize << s.range(1, 30)) - s.below(3).min(1),
        _ => s.range(1, 1 << 31),
    };
    s.note(&format!("{}", i));
    let left = i % 2 == 1;
    let (p, sib) = ((i - 1) / 2, if left { i + 1 } else { i - 1 });
    let u = i as u32;
    ensure!(u.is_left() == left && i.is_left() == left, "left", "{}", i);
    ensure!(u.parent() as usize == p && i.parent() == p, "parent", "{}", i);
    ensure!(u.sibling() as usize == sib && i.sibling() == sib, "sibling", "{}", i);
    ensure!(!u.is_root() && !i.is_root() && 0u32.is_root() && 0usize.is_root(), "is-root", "{}", i);
    ensure!(0u32.parent() == 0 && 0usize.parent() == 0 && 0u32.sibling() == 0 && 0usize.sibling() == 0, "root", "the root has a parent");
    s.nontrivial();
    Ok(())
}
fn main() {
    vharness::main(
        "P27",
        "the tree has at least one leaf (two for the large ones); index laws: every case",
        vec![sub("spelled", 20000, 600000, spelled), sub("mixed", 2000, 40000, mixed), sub("index", 2000, 20000, index)],
    )
}
