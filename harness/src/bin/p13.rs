//! P13: Spartan SNARK soundness.
use ark_bls12_381::Bls12_381;
use ark_ff::{Field, One, PrimeField, Zero};
use vharness::circ::*;
use vharness::fs::*;
use vharness::schemes::spartan::*;
use vharness::schemes::*;
use vharness::tree::*;
use vharness::*;
use zkp_curve::Curve;
use zkp_curve25519::Curve25519;
use zkp_spartan::snark;

fn g<S: Snark>(s: &mut Src, min: usize) -> Circ<S::F> {
    let o = Opts { max_con: 6, max_aux: 6, min_pub: min, ..Opts::default() }.widen(s, 14, 24);
    gen_circ(s, &o)
}
fn pubs<S: Snark>(s: &mut Src) -> R {
    let c = g::<S>(s, 0);
    wrong_public::<S>(s, &c)
}
fn viol<S: Snark>(s: &mut Src) -> R {
    let c = g::<S>(s, 0);
    violating::<S>(s, &c)
}
fn alt<S: Snark>(s: &mut Src) -> R {
    let c = g::<S>(s, 0);
    altered::<S>(s, &c)
}
/// Provers that use matrices other than the committed ones.
fn other_matrices<G: Curve>(s: &mut Src) -> R {
    let c: Circ<G::Fr> = g::<Sn<G>>(s, 0);
    let b = match gen_violation(s, &c) {
        Some(b) if b.auxs == c.auxs => b,
        _ => return Ok(()),
    };
    let mut rng = s.rng();
    let kb = setup::<Sn<G>>(&b, &mut rng)?;
    let kc = setup::<Sn<G>>(&c, &mut rng)?;
    let o = ops::<G::Affine>();
    let ty = Ty::p(Sn::<G>::schema());
    // which parts come from the satisfied sibling
    for mode in 0..4 {
        let (r1cs, enc, comm) = match mode {
            0 => (&kc.pk.r1cs, &kb.pk.encode, &kb.pk.encode_comm),
            1 => (&kc.pk.r1cs, &kc.pk.encode, &kb.pk.encode_comm),
            2 => (&kc.pk.r1cs, &kc.pk.encode, &kc.pk.encode_comm),
            _ => (&kb.pk.r1cs, &kb.pk.encode, &kb.pk.encode_comm),
        };
        let made = quiet(|| zkp_spartan::prover::create_snark_proof(&kb.pk.params, r1cs, c.clone(), enc, comm, kb.h.0, kb.h.1, kb.h.2, &mut rng));
        let p = match made {
            Ok(Ok(p)) => p,
            _ => continue,
        };
        s.label(format!("mode {}", mode));
        let t = ty.parse(&ser(&p), &o)?;
        ensure!(!Sn::<G>::accepts(&kb, &t.ser(), &b.pubs), "other-matrices-accepted", "mode {}: a proof over other matrices is accepted", mode);
        // make the announced sums agree with the claimed matrix evaluations
        let mut m = t.clone();
        for (i, e) in ["ea", "eb", "ec"].iter().enumerate() {
            let ev: G::Fr = t.get(e);
            let l: G::Fr = t.get(&format!("dl.{}", i));
            let r: G::Fr = t.get(&format!("dr.{}", i));
            if s.bool() {
                m.set(&format!("dl.{}", i), &(ev - r));
            } else {
                m.set(&format!("dr.{}", i), &(ev - l));
            }
        }
        if m != t {
            s.label("sums patched");
            ensure!(!Sn::<G>::accepts(&kb, &m.ser(), &b.pubs), "patched-sums-accepted", "mode {}: patched evaluation sums are accepted", mode);
        }
        // a verifier key whose commitment belongs to the sibling must not accept either
        if mode == 0 {
            let vk = snark::VerifyKey { params: kb.vk.params.clone(), r1cs: kb.vk.r1cs.clone(), encode_comm: kc.vk.encode_comm.clone() };
            let got = quiet(|| snark::verify_proof(&vk, &p, &b.pubs, kb.h.0, kb.h.1, kb.h.2));
            ensure!(!matches!(got, Ok(Ok(true))), "other-commitment-accepted", "accepted under the commitment of another circuit");
        }
    }
    Ok(())
}
/// an honest proof against the commitment of another circuit or with an altered commitment
fn commitment<G: Curve>(s: &mut Src) -> R {
    let c: Circ<G::Fr> = g::<Sn<G>>(s, 0);
    let mut rng = s.rng();
    let k = setup::<Sn<G>>(&c, &mut rng)?;
    let p = prove::<Sn<G>>(&k, &c, &mut rng)?;
    ensure!(Sn::<G>::accepts(&k, &p, &c.pubs), "rejected", "honest proof rejected");
    let o = ops::<G::Affine>();
    let t = Ty::p("{n:u,m:u,ops:[g],mem:[g]}").parse(&ser(&k.vk.encode_comm), &o)?;
    for _ in 0..4 {
        if let Some((m, what)) = t.mutate(s, &o) {
            if let Some(ec) = de::<zkp_spartan::data_structure::EncodeCommit<G>>(&m.ser()) {
                s.label(what.chars().filter(|c| !c.is_ascii_digit()).collect::<String>());
                // the verifier derives the hash from the commitment it holds, or is handed the old one
                let eh = if s.bool() { k.h.2 } else { ec.encode_to_hash() };
                let vk = snark::VerifyKey { params: k.vk.params.clone(), r1cs: k.vk.r1cs.clone(), encode_comm: ec };
                let got = quiet(|| snark::verify_proof(&vk, &snark_proof(&p), &c.pubs, k.h.0, k.h.1, eh));
                ensure!(!matches!(got, Ok(Ok(true))), "altered-commitment-accepted", "accepted with another circuit commitment: {}", what);
            }
        }
    }
    Ok(())
}
fn snark_proof<G: Curve>(b: &[u8]) -> snark::Proof<G> {
    de(b).unwrap()
}
fn claims<S: Snark>(s: &mut Src) -> R {
    let c = g::<S>(s, 0);
    claims_snark::<S>(s, &c)
}
fn bound<S: Snark>(s: &mut Src) -> R {
    let c = g::<S>(s, 0);
    bound_snark::<S>(s, &c, 16, &|_, _| false)
}
/// Under challenges fixed in advance: alterations of the matrix-evaluation proof that keep every
/// equation but one (a grand product, a layer's product, an interpolated claim, a memory check,
/// a split inner product).
fn one_equation(s: &mut Src) -> R {
    use vharness::clear::Clear;
    type S = Sn<Clear>;
    type F = <S as Snark>::F;
    let c = g::<S>(s, 0);
    let mut rng = s.rng();
    let k = setup::<S>(&c, &mut rng)?;
    let seed = s.u64();
    let p = match vharness::bound::forced(seed, || S::prove(&k, &c, &mut rng)) {
        Ok(Ok(p)) => p,
        _ => return Ok(()),
    };
    let (ok, log) = record(|| vharness::bound::forced(seed, || S::accepts(&k, &p, &c.pubs)) == Ok(true));
    let t = Ty::p(S::schema()).parse(&p, &S::ops())?;
    if !ok {
        s.label("challenges cannot be fixed");
        return Ok(());
    }
    // which challenges belong to which layer of which circuit
    struct L {
        coeffs: Vec<F>,
        rounds: Vec<F>,
        r: F,
    }
    let mut ls: Vec<L> = vec![];
    for (_, l, m) in challenges(&log) {
        let x = F::from_le_bytes_mod_order(&m);
        match l {
            b"rand_coeffs_next_layer" => {
                if ls.last().map_or(true, |l| !l.r.is_zero()) {
                    ls.push(L { coeffs: vec![], rounds: vec![], r: F::zero() });
                }
                ls.last_mut().unwrap().coeffs.push(x)
            }
            b"challenge_nextround" if !ls.is_empty() => ls.last_mut().unwrap().rounds.push(x),
            b"challenge_r_layer" if !ls.is_empty() => ls.last_mut().unwrap().r = x,
            _ => {}
        }
    }
    let len = |p: &str| match t.at(p) {
        vharness::tree::Node::List(_, v) => v.len(),
        _ => 0,
    };
    let (no, nm) = (len("po.layers"), len("pm.layers"));
    if no + nm != ls.len() {
        s.label("layers cannot be told apart");
        return Ok(());
    }
    let yes = |m: &Node| vharness::bound::forced(seed, || S::accepts(&k, &m.ser(), &c.pubs)) == Ok(true);
    for _ in 0..12 {
        let ops = s.bool();
        let (pre, n, base) = if ops { ("po", no, 0) } else { ("pm", nm, no) };
        if n == 0 {
            continue;
        }
        let li = if s.bool() { n - 1 } else { s.below(n) };
        let l = &ls[base + li];
        let path = |what: &str, k: usize| format!("{}.layers.{}.{}.{}", pre, li, what, k);
        let kk = s.below(len(&format!("{}.layers.{}.left", pre, li)).max(1));
        let (a, b): (F, F) = (t.get(&path("left", kk)), t.get(&path("right", kk)));
        let d = s.nonzero::<F>();
        let mut m = t.clone();
        let what = match s.below(5) {
            0 => {
                // the product of the halves stays, the interpolated claim does not
                if a.is_zero() && b.is_zero() || d.is_one() {
                    continue;
                }
                m.set(&path("left", kk), &(a * d));
                m.set(&path("right", kk), &(b / d));
                "claim passed to the next layer or the memory"
            }
            1 => {
                m.set(&path("left", kk), &(a + l.r * d));
                m.set(&path("right", kk), &(b - (F::one() - l.r) * d));
                if (a + l.r * d) * (b - (F::one() - l.r) * d) == a * b {
                    continue;
                }
                "product of a layer"
            }
            2 => {
                // the grand product itself
                let l = &ls[base];
                let top = |what: &str, k: usize| format!("{}.layers.0.{}.{}", pre, what, k);
                let claim = if ops { [["row.r", "row.w"], ["col.r", "col.w"]][kk / 6][kk / 3 % 2].to_string() + &format!(".{}", kk % 3) } else { ["row.i", "row.a", "col.i", "col.a"][kk].to_string() };
                let (a, b): (F, F) = (t.get(&top("left", kk)), t.get(&top("right", kk)));
                let (x, y) = (a + l.r * d, b - (F::one() - l.r) * d);
                if x * y == a * b || (ops && n == 1) || l.rounds.len() > 0 {
                    continue;
                }
                m.set(&top("left", kk), &x);
                m.set(&top("right", kk), &y);
                m.set(&claim, &(x * y));
                "grand product"
            }
            3 => {
                // a split inner product and the first round of the layer that checks it
                let l = &ls[no - 1];
                let (q, side) = (s.below(3), s.below(2));
                let pol = format!("po.layers.{}.polys.0", no - 1);
                let den = F::one() - l.rounds.get(0).map_or(F::zero(), |r| *r).double();
                if l.rounds.is_empty() || den.is_zero() || len(&pol) < 2 || l.coeffs.len() != 18 {
                    continue;
                }
                let f = ["dl", "dr"][side].to_string() + &format!(".{}", q);
                let v: F = t.get(&f);
                let e = l.coeffs[12 + 2 * q + side] * d / den;
                let (c0, c1): (F, F) = (t.get(&format!("{}.0", pol)), t.get(&format!("{}.1", pol)));
                m.set(&f, &(v + d));
                m.set(&format!("{}.0", pol), &(c0 - e * l.rounds[0]));
                m.set(&format!("{}.1", pol), &(c1 + e));
                "split inner product"
            }
            _ => {
                // the memory values behind an inner product
                let l = &ls[no - 1];
                let (q, w) = (s.below(3), s.below(3));
                let f = |w: usize, k: usize| -> F { t.get(&format!("po.{}.{}", ["dr", "dc", "dv"][w], k)) };
                if l.coeffs.len() != 18 {
                    continue;
                }
                let rest = |k: usize| l.coeffs[12 + k] * f((w + 1) % 3, k) * f((w + 2) % 3, k);
                let (x, y) = (rest(2 * q), rest(2 * q + 1));
                if x.is_zero() || y.is_zero() {
                    continue;
                }
                m.set(&format!("po.{}.{}", ["dr", "dc", "dv"][w], 2 * q), &(f(w, 2 * q) + d * y));
                m.set(&format!("po.{}.{}", ["dr", "dc", "dv"][w], 2 * q + 1), &(f(w, 2 * q + 1) - d * x));
                "memory value"
            }
        };
        s.label(what);
        s.nontrivial();
        ensure!(!yes(&m), "one-equation", "under fixed challenges a proof with a wrong {} is accepted", what);
    }
    Ok(())
}
type B = Bls12_381;
type C = Curve25519;
fn main() {
    vharness::main(
        "P13",
        "A case is a random rank-1 system with a false claim derived from it (changed publics, violated constraint, other matrices, altered proof or circuit commitment); non-trivial = the system has a non-empty constraint.",
        vec![
            sub("wrong-public-bls", 40, 1000, pubs::<Sn<B>>),
            sub("wrong-public-25519", 200, 4000, pubs::<Sn<C>>),
            sub("violating-bls", 40, 1000, viol::<Sn<B>>),
            sub("violating-25519", 300, 6000, viol::<Sn<C>>),
            sub("altered-bls", 60, 1500, alt::<Sn<B>>),
            sub("altered-25519", 900, 20000, alt::<Sn<C>>),
            sub("other-matrices-bls", 30, 800, other_matrices::<B>),
            sub("other-matrices-25519", 150, 4000, other_matrices::<C>),
            sub("commitment-25519", 200, 5000, commitment::<C>),
            sub("claims-bls", 30, 800, claims::<Sn<B>>),
            sub("claims-25519", 150, 4000, claims::<Sn<C>>),
            sub("bound", 60, 4000, bound::<Sn<vharness::clear::Clear>>),
            sub("one-equation", 200, 8000, one_equation),
            sub("transcript", 25, 500, |s| if s.below(4) == 0 { vharness::transcripts::snk::<B>(s) } else { vharness::transcripts::snk::<C>(s) }),
            sub("bound-25519", 30, 1000, bound::<Sn<C>>),
        ],
    )
}
