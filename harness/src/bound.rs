//! "Every component is bound": under challenges fixed in advance (which a real prover cannot
//! have), a single component of an honest proof, or a list of scalars changed so that it keeps
//! its value at one of the challenges, must still not be replaceable. With real challenges a
//! changed component changes every later challenge, which hides a missing equation.
use crate::fs::*;
use crate::tree::*;
use crate::*;
use ark_ff::{PrimeField, Zero};

/// runs with the n-th transcript challenge of this thread a function of (seed, n) only
pub fn forced<T>(seed: u64, f: impl FnOnce() -> T) -> Result<T, String> {
    merlin::recorder::force(Some(seed));
    rand_chacha::recorder::force(Some(seed));
    let r = quiet(f);
    merlin::recorder::force(None);
    rand_chacha::recorder::force(None);
    r
}
/// path with list positions removed
pub fn shape(p: &str) -> String {
    let mut o = String::new();
    let mut skip = false;
    for c in p.chars() {
        match c {
            '[' => {
                o.push('[');
                skip = true
            }
            ']' => {
                o.push(']');
                skip = false
            }
            c if !skip => o.push(c),
            _ => {}
        }
    }
    o
}
/// Every challenge that matters to the verdict matters with (at least) its first 112 bits. The honest
/// proof is checked with one challenge handed out changed, everywhere or in a single bit.
pub fn weight(s: &mut Src, n: usize, accepts: &dyn Fn() -> bool) -> R {
    let run = |m: Option<(usize, Option<usize>)>, c: Option<(usize, Option<usize>)>| {
        merlin::recorder::flip(m);
        rand_chacha::recorder::flip(c);
        let r = quiet(accepts) == Ok(true);
        let z = (merlin::recorder::sizes(), rand_chacha::recorder::sizes());
        merlin::recorder::flip(None);
        rand_chacha::recorder::flip(None);
        (r, z)
    };
    let (ok, (ms, cs)) = run(None, None);
    if !ok {
        return Ok(());
    }
    if cs.is_empty() {
        for _ in 0..n.min(4 * ms.len()) {
            let k = s.below(ms.len());
            let bit = s.below(112);
            if run(Some((k, None)), None).0 {
                s.label("challenge without effect");
                continue;
            }
            s.label("challenge bit");
            ensure!(ms[k] >= 14, "short-challenge", "challenge {} has only {} bytes", k, ms[k]);
            ensure!(!run(Some((k, Some(bit))), None).0, "ignored-bits", "bit {} of challenge {} makes no difference, other bits do", bit, k);
        }
        return Ok(());
    }
    // challenges drawn from a generator: rejected candidates may be among the draws of one seed, so
    // count what matters among them
    let mut runs: Vec<(usize, usize)> = vec![];
    for i in 0..cs.len() {
        match runs.last_mut() {
            Some((a, b)) if cs[*a].0 == cs[i].0 && *b == i => *b = i + 1,
            _ => runs.push((i, i + 1)),
        }
    }
    for _ in 0..(n / 4).max(1) {
        let (a, b) = *s.pick(&runs);
        if (a..b).all(|k| run(None, Some((k, None))).0) {
            s.label("challenge without effect");
            continue;
        }
        s.label("challenge bit");
        let mut live = 0;
        for k in a..b {
            for part in 0..cs[k].1 / 2 {
                // top bits of a field element may be cut off
                let bit = 16 * part + s.below(if part % 4 == 3 { 8 } else { 16 });
                live += !run(None, Some((k, Some(bit)))).0 as usize;
                if live >= 7 {
                    break;
                }
            }
        }
        if live < 7 {
            // on a degenerate statement a challenge may matter only through the order of the query
            // points, in which every bit matters now and then and none always does
            let solid = (a..b).any(|k| (0..cs[k].1 / 2).any(|part| (0..14).filter(|i| !run(None, Some((k, Some(16 * part + i)))).0).count() >= 13));
            if !solid {
                s.label("challenge only orders");
                continue;
            }
        }
        ensure!(live >= 7, "ignored-bits", "of the numbers drawn for one round only about {} bits make a difference", 16 * live);
    }
    Ok(())
}
/// `free(path, pair)`: components the equations do not determine alone, or with a neighbour
pub fn bound<F: PrimeField>(s: &mut Src, schema: &str, o: &Ops, seed: u64, n: usize, free: &dyn Fn(&str, bool) -> bool, prove: &mut dyn FnMut() -> Option<Vec<u8>>, accepts: &dyn Fn(&[u8]) -> bool) -> R {
    let p = match forced(seed, || prove()) {
        Ok(Some(p)) => p,
        _ => {
            s.label("no proof");
            return Ok(());
        }
    };
    let t = Ty::p(schema).parse(&p, o)?;
    let (ok, log) = record(|| forced(seed, || accepts(&p)) == Ok(true));
    if !ok {
        // prover and verifier do not draw their challenges alike
        s.label("challenges cannot be fixed");
        return Ok(());
    }
    s.nontrivial();
    // (challenges of prover and verifier stay as fixed)
    weight(s, 4, &|| matches!(forced(seed, || accepts(&p)), Ok(true)))?;
    let ch: Vec<F> = challenges(&log).iter().map(|(_, _, m)| F::from_le_bytes_mod_order(m)).collect();
    let lv = t.leaves();
    let yes = |m: &Node| forced(seed, || accepts(&m.ser())) == Ok(true);
    for _ in 0..n {
        let k = s.below(lv.len());
        if free(&lv[k].0, false) {
            continue;
        }
        if let Some((m, w)) = t.mutate_leaf_at(k, s, o) {
            s.label(format!("one {}", shape(&lv[k].0)));
            ensure!(!yes(&m), "unbound", "under fixed challenges {} is accepted with another value", w);
        }
    }
    // neighbouring scalars: c_i x^i + c_{i+1} x^(i+1) unchanged at a challenge (or at -1, 0, 1)
    let pairs: Vec<usize> = (0..lv.len().saturating_sub(1)).filter(|&k| lv[k].1 == 'f' && lv[k + 1].1 == 'f' && lv[k].0.ends_with(']') && shape(&lv[k].0) == shape(&lv[k + 1].0)).collect();
    if pairs.is_empty() {
        return Ok(());
    }
    for _ in 0..n {
        let k = *s.pick(&pairs);
        if free(&lv[k].0, true) || free(&lv[k + 1].0, true) {
            continue;
        }
        let d = s.nonzero::<F>();
        let at = match s.below(6) {
            0 => -F::one(),
            1 => F::one(),
            _ if ch.is_empty() => F::from(2u64),
            _ => *s.pick(&ch),
        };
        let (a, b): (F, F) = match (de(&lv[k].2), de(&lv[k + 1].2)) {
            (Some(a), Some(b)) => (a, b),
            _ => continue,
        };
        let (x, y) = if s.bool() { (a - d * at, b + d) } else { (a + d, b - d * at) };
        if at.is_zero() || (x == a && y == b) {
            continue;
        }
        let mut m = t.clone();
        m.set_leaf(k, ser(&x));
        m.set_leaf(k + 1, ser(&y));
        s.label(format!("two {}", shape(&lv[k].0)));
        ensure!(!yes(&m), "unbound-pair", "under fixed challenges {} and its successor are accepted with other values that agree at one point", lv[k].0);
    }
    Ok(())
}
