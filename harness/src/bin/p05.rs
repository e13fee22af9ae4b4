//! P05: Bulletproofs soundness.
use ark_bls12_381::Bls12_381;
use ark_ff::{Field, One, PrimeField, Zero};
use merlin::recorder::Ev;
use vharness::circ::*;
use vharness::fs::*;
use vharness::tree::*;
use vharness::*;
use zkp_bulletproofs::arithmetic_circuit::{prove, Assignment};
use zkp_bulletproofs::*;
use zkp_curve::{AffineCurve, Curve, ProjectiveCurve};
use zkp_curve25519::Curve25519;

const PROOF: &str = "{A_I:g,A_O:g,A_W:g,S:g,T_2:g,T_3:g,T_5:g,T_6:g,T_7:g,T_8:g,T_9:g,T_10:g,mu:f,tau_x:f,l_x:[f],r_x:[f],t_x:f,IPP:{L:[g],R:[g],a:f,b:f},P:g}";
const GENS: &str = "{gv:[g],hv:[g],g:g,h:g,u:g,n:u,N:u,k:u,n_w:u}";

type Made<G> = (Generators<G>, R1csCircuit<G>, Proof<G>);
fn make<G: Curve>(c: &Circ<G::Fr>, rng: &mut TapeRng) -> Result<Made<G>, Fail> {
    match create_random_proof::<G, _, _>(c.clone(), rng) {
        Ok(x) => Ok(x),
        Err(e) => fail("prove-error", format!("{:?}", e)),
    }
}
fn accepts<G: Curve>(g: &Generators<G>, p: &Proof<G>, r: &R1csCircuit<G>, x: &[G::Fr]) -> bool {
    matches!(quiet(|| verify_proof(g, p, r, x)), Ok(Ok(true)))
}
fn sc<F: PrimeField>(b: &[u8]) -> F {
    F::from_le_bytes_mod_order(b)
}

fn wide<F: PrimeField>(s: &mut Src, o: Opts) -> Circ<F> {
    let o = o.widen(s, 14, 24);
    gen_circ(s, &o)
}
fn wrong_public<G: Curve>(s: &mut Src) -> R {
    let c: Circ<G::Fr> = wide(s, Opts { min_pub: 1, max_con: 6, max_aux: 6, ..Opts::default() });
    let mut rng = s.rng();
    let (g, r, p) = make::<G>(&c, &mut rng)?;
    ensure!(accepts(&g, &p, &r, &c.pubs), "rejected", "honest proof rejected");
    for _ in 0..6 {
        let mut x = c.pubs.clone();
        match s.below(7) {
            0 => {
                let i = s.below(x.len());
                x[i] += G::Fr::one();
            }
            1 => {
                let i = s.below(x.len());
                x[i] = -x[i];
            }
            2 => {
                let i = s.below(x.len());
                x[i] = s.field();
            }
            3 => {
                let i = s.below(x.len());
                let j = s.below(x.len());
                x.swap(i, j);
            }
            4 => {
                s.label("short");
                x.pop();
            }
            5 => {
                s.label("long zero");
                x.push(G::Fr::zero());
            }
            _ => {
                s.label("long");
                x.push(s.field());
            }
        }
        if x == c.pubs {
            continue;
        }
        ensure!(!accepts(&g, &p, &r, &x), "wrong-public-accepted", "accepted for {} values instead of {}", x.len(), c.pubs.len());
    }
    Ok(())
}

fn violating<G: Curve>(s: &mut Src) -> R {
    let c: Circ<G::Fr> = wide(s, Opts { max_con: 8, max_aux: 8, ..Opts::default() });
    let b = match gen_violation(s, &c) {
        Some(b) => b,
        None => return Ok(()),
    };
    let mut rng = s.rng();
    if let Ok(Ok((g, r, p))) = quiet(|| create_random_proof::<G, _, _>(b.clone(), &mut rng)) {
        ensure!(!accepts(&g, &p, &r, &b.pubs), "violating-accepted", "a proof from a violating assignment is accepted");
        if b.auxs == c.auxs {
            // a proof for the satisfied sibling must not pass for the violated circuit
            s.label("sibling-circuit");
            if let Ok(Ok((g2, _, p2))) = quiet(|| create_random_proof::<G, _, _>(c.clone(), &mut rng)) {
                ensure!(!accepts(&g2, &p2, &r, &b.pubs), "other-circuit-accepted", "a proof made for another circuit is accepted");
            }
        }
    }
    Ok(())
}

/// one entry of the wires or the witness is not what the circuit says
fn cheating<G: Curve>(s: &mut Src) -> R {
    let c: Circ<G::Fr> = wide(s, Opts { max_con: 6, max_aux: 6, ..Opts::default() });
    let mut rng = s.rng();
    let (g, r, _) = make::<G>(&c, &mut rng)?;
    let mut a: Vec<Vec<G::Fr>> = vec![vec![], vec![], vec![], vec![G::Fr::one()], c.auxs.clone()];
    a[3].extend(c.pubs.iter());
    for (x, y, z) in &c.cons {
        a[0].push(c.eval(x));
        a[1].push(c.eval(y));
        a[2].push(c.eval(z));
    }
    let n = c.cons.len();
    let i = s.below(n);
    let d: G::Fr = s.nonzero();
    match s.below(7) {
        // two errors that cancel if entries are added up with the wrong weights
        5 | 6 => {
            let (p, q) = if s.bool() { (2, 2) } else { (s.below(3), s.below(3)) };
            let j = s.below(n);
            if (p, i) == (q, j) {
                return Ok(());
            }
            s.label("two entries");
            a[p][i] += d;
            a[q][j] -= d;
        }
        0 => {
            s.label("aO");
            a[2][i] += d
        }
        1 => {
            s.label("aL,aO keep the product");
            a[0][i] += d;
            a[2][i] = a[0][i] * a[1][i];
        }
        2 => {
            s.label("aR,aO keep the product");
            a[1][i] += d;
            a[2][i] = a[0][i] * a[1][i];
        }
        3 => {
            s.label("swap aL,aR");
            if a[0][i] == a[1][i] {
                return Ok(());
            }
            let (x, y) = (a[0][i], a[1][i]);
            a[0][i] = y;
            a[1][i] = x;
        }
        _ => {
            // another witness for the same wires; only wrong if the wires depend on it
            if c.auxs.is_empty() {
                return Ok(());
            }
            s.label("witness");
            let j = s.below(c.auxs.len());
            let mut b = c.clone();
            b.auxs[j] += d;
            let same = c.cons.iter().all(|(x, y, z)| b.eval(x) == c.eval(x) && b.eval(y) == c.eval(y) && b.eval(z) == c.eval(z));
            if same {
                return Ok(());
            }
            a[4][j] += d;
        }
    }
    let bytes: Vec<u8> = a.iter().flat_map(|v| ser(v)).collect();
    let asg = match de::<Assignment<G>>(&bytes) {
        Some(a) => a,
        None => return fail("layout", "assignment layout"),
    };
    if let Ok(p) = quiet(|| prove(&g, &r, &asg, &mut rng)) {
        ensure!(!accepts(&g, &p, &r, &c.pubs), "cheating-accepted", "a proof over wires that contradict the circuit is accepted");
    }
    Ok(())
}

fn altered<G: Curve>(s: &mut Src) -> R {
    let c: Circ<G::Fr> = wide(s, Opts { max_con: 6, max_aux: 6, ..Opts::default() });
    let mut rng = s.rng();
    let (g, r, p) = make::<G>(&c, &mut rng)?;
    let o = ops::<G::Affine>();
    let t = Ty::p(PROOF).parse(&ser(&p), &o)?;
    for _ in 0..5 {
        let (m, what) = match t.mutate(s, &o) {
            Some(x) => x,
            None => continue,
        };
        s.label(what.split('[').next().unwrap().to_string());
        if let Some(q) = de::<Proof<G>>(&m.ser()) {
            ensure!(!accepts(&g, &q, &r, &c.pubs), "altered-accepted", "altered proof accepted: {}", what);
        }
    }
    // generators the proof was not made for
    let gt = Ty::p(GENS).parse(&ser(&g), &o)?;
    for _ in 0..2 {
        if let Some((m, what)) = gt.mutate_leaf(s, &o) {
            s.label(format!("gens {}", what.split('[').next().unwrap()));
            if let Some(q) = de::<Generators<G>>(&m.ser()) {
                ensure!(!accepts(&q, &p, &r, &c.pubs), "generators-accepted", "proof accepted under other generators: {}", what);
            }
        }
    }
    Ok(())
}

/// under challenges fixed in advance a proof of one statement must not pass for one its assignment violates
fn claims<G: Curve>(s: &mut Src) -> R {
    let c: Circ<G::Fr> = gen_circ(s, &Opts { max_con: 6, max_aux: 6, ..Opts::default() });
    let mut rng = s.rng();
    let seed = s.u64();
    let (g, r, p) = match vharness::bound::forced(seed, || create_random_proof::<G, _, _>(c.clone(), &mut rng)) {
        Ok(Ok(x)) => x,
        _ => return Ok(()),
    };
    let passes = |r: &_, x: &[G::Fr]| vharness::bound::forced(seed, || accepts(&g, &p, r, x)) == Ok(true);
    if !passes(&r, &c.pubs) {
        s.label("challenges cannot be fixed");
        return Ok(());
    }
    s.nontrivial();
    for _ in 0..3 {
        let mut d = c.clone();
        if d.pubs.is_empty() {
            break;
        }
        let i = s.below(d.pubs.len());
        if s.bool() {
            d.pubs[i] += s.nonzero::<G::Fr>();
        } else {
            let j = s.below(d.pubs.len());
            d.pubs.swap(i, j);
        }
        if d.sat() {
            continue;
        }
        s.label("claim: other public values");
        ensure!(!passes(&r, &d.pubs), "unbound-claim", "under fixed challenges the proof passes for other public values (position {})", i);
    }
    if let Some(b) = gen_violation(s, &c) {
        if b.auxs == c.auxs && b.pubs == c.pubs {
            if let Ok(Ok((_, r2, _))) = quiet(|| create_random_proof::<G, _, _>(b.clone(), &mut rng)) {
                s.label("claim: another circuit");
                ensure!(!passes(&r2, &c.pubs), "unbound-claim", "under fixed challenges the proof passes for another circuit");
            }
        }
    }
    Ok(())
}
fn bound<G: Curve>(s: &mut Src) -> R {
    let c: Circ<G::Fr> = gen_circ(s, &Opts { max_con: 6, max_aux: 6, ..Opts::default() });
    let mut rng = s.rng();
    let seed = s.u64();
    let last = std::cell::RefCell::new(None);
    vharness::bound::bound::<G::Fr>(
        s,
        PROOF,
        &ops::<G::Affine>(),
        seed,
        24,
        &|_, _| false,
        &mut || {
            let (g, r, p) = create_random_proof::<G, _, _>(c.clone(), &mut rng).ok()?;
            *last.borrow_mut() = Some((g, r));
            Some(ser(&p))
        },
        &|b| match (&*last.borrow(), de::<Proof<G>>(b)) {
            (Some((g, r)), Some(q)) => accepts(g, &q, r, &c.pubs),
            _ => false,
        },
    )
}

/// fabricate a proof for a violated circuit: t_x is chosen to pass the polynomial check, and the
/// inner-product argument is made for other vectors
fn forge<G: Curve>(s: &mut Src) -> R {
    let c: Circ<G::Fr> = gen_circ(s, &Opts { max_con: 6, max_aux: 6, ..Opts::default() });
    let b = match gen_violation(s, &c) {
        Some(b) => b,
        None => return Ok(()),
    };
    let mut rng = s.rng();
    let (made, log) = record(|| create_random_proof::<G, _, _>(b.clone(), &mut rng));
    let (g, r, p) = match made {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let o = ops::<G::Affine>();
    let mut t = Ty::p(PROOF).parse(&ser(&p), &o)?;
    let gt = Ty::p(GENS).parse(&ser(&g), &o)?;
    let ch = |l: &[u8], log: &[Ev]| -> Option<(usize, G::Fr)> { challenges(log).into_iter().find(|(_, k, _)| *k == l).map(|(i, _, m)| (i, sc(&m))) };
    let (y, x) = match (ch(b"y", &log), ch(b"x", &log)) {
        (Some(y), Some(x)) => (y.1, x),
        _ => return Ok(()),
    };
    let (xpos, x) = x;
    let mut d = G::Fr::zero();
    let mut yi = G::Fr::one();
    for (l, m, k) in &b.cons {
        d += yi * (b.eval(l) * b.eval(m) - b.eval(k));
        yi *= y;
    }
    let tx: G::Fr = t.get::<G::Fr>("t_x") - d * x.pow([4u64]);
    t.set("t_x", &tx);
    // the final part of the transcript with the new t_x
    let mut tr = rebuild(&log[..=xpos]);
    let lx: Vec<G::Fr> = de(&t.at("l_x").ser()).unwrap();
    let rx: Vec<G::Fr> = de(&t.at("r_x").ser()).unwrap();
    let to = |f: &dyn Fn(&mut Vec<u8>)| {
        let mut v = vec![];
        f(&mut v);
        v
    };
    use ark_ff::ToBytes;
    tr.append_message(b"t_x", &to(&|v| tx.write(v).unwrap()));
    tr.append_message(b"tau_x", &to(&|v| t.get::<G::Fr>("tau_x").write(v).unwrap()));
    tr.append_message(b"mu", &to(&|v| t.get::<G::Fr>("mu").write(v).unwrap()));
    tr.append_message(b"l_x", &to(&|v| lx.write(v).unwrap()));
    tr.append_message(b"r_x", &to(&|v| rx.write(v).unwrap()));
    let mut buf = [0u8; 31];
    tr.challenge_bytes(b"x_1", &mut buf);
    let x1: G::Fr = sc(&buf);
    let gv: Vec<G::Affine> = de(&gt.at("gv").ser()).unwrap();
    let hv: Vec<G::Affine> = de(&gt.at("hv").ser()).unwrap();
    let u: G::Affine = gt.get("u");
    let ux = u.mul(x1).into_affine();
    let n = gv.len();
    let mode = s.below(4);
    let (a2, b2): (Vec<G::Fr>, Vec<G::Fr>) = match mode {
        0 => (lx.clone(), rx.clone()),
        1 => {
            // vectors whose inner product is the forged t_x
            let mut a = vec![G::Fr::zero(); n];
            let mut q = vec![G::Fr::zero(); n];
            a[0] = tx;
            q[0] = G::Fr::one();
            (a, q)
        }
        2 => (vec![G::Fr::zero(); n], vec![G::Fr::zero(); n]),
        _ => ((0..n).map(|_| s.rand_field()).collect(), (0..n).map(|_| s.rand_field()).collect()),
    };
    s.label(format!("forge mode {}", mode));
    let claim: G::Fr = if s.bool() { tx } else { inner_product(&a2, &b2) };
    let pt = quick_multiexp::<G>(&a2, &gv) + &quick_multiexp::<G>(&b2, &hv) + &ux.mul(claim);
    let pt_aff = pt.into_affine();
    if let Ok(ipp) = quiet(|| inner_product_proof::prove::<G>(&mut tr, gv.clone(), hv.clone(), ux, &pt_aff.into_projective(), a2, b2)) {
        let it = Ty::p("{L:[g],R:[g],a:f,b:f}").parse(&ser(&ipp), &o)?;
        *t.at_mut("IPP") = it;
        t.set("P", &pt_aff);
        if let Some(q) = de::<Proof<G>>(&t.ser()) {
            ensure!(!accepts(&g, &q, &r, &b.pubs), "forged", "a fabricated proof for a violated circuit is accepted (mode {})", mode);
        }
    }
    Ok(())
}

/// the inner-product argument on its own
fn ipp<G: Curve>(s: &mut Src) -> R {
    use ark_ff::UniformRand;
    use merlin::Transcript;
    let lg = s.below(5);
    let n = 1usize << lg;
    let mut rng = s.rng();
    let gv: Vec<G::Affine> = (0..n).map(|_| G::Projective::rand(&mut rng).into_affine()).collect();
    let hv: Vec<G::Affine> = (0..n).map(|_| G::Projective::rand(&mut rng).into_affine()).collect();
    let u = G::Projective::rand(&mut rng).into_affine();
    let a: Vec<G::Fr> = (0..n).map(|_| s.field()).collect();
    let b: Vec<G::Fr> = (0..n).map(|_| s.field()).collect();
    s.note(format!("n={}", n));
    s.nontrivial();
    let d: G::Fr = s.nonzero();
    let commit = |a: &Vec<G::Fr>, b: &Vec<G::Fr>, t: G::Fr| (quick_multiexp::<G>(a, &gv) + &quick_multiexp::<G>(b, &hv) + &u.mul(t)).into_affine();
    let ok = commit(&a, &b, inner_product(&a, &b));
    let bad = commit(&a, &b, inner_product(&a, &b) + d);
    for (p, want) in [(ok, true), (bad, false)] {
        let pr = inner_product_proof::prove::<G>(&mut Transcript::new(b"t"), gv.clone(), hv.clone(), u, &p.into_projective(), a.clone(), b.clone());
        let got = quiet(|| inner_product_proof::verify::<G>(&mut Transcript::new(b"t"), gv.clone(), hv.clone(), u, &p.into_projective(), &pr));
        ensure!(matches!(got, Ok(x) if x == want) || (!want && got.is_err()), if want { "ipp-rejected" } else { "ipp-accepted" }, "n={} expected {} got {:?}", n, want, got);
        if want {
            let o = ops::<G::Affine>();
            let t = Ty::p("{L:[g],R:[g],a:f,b:f}").parse(&ser(&pr), &o)?;
            for _ in 0..3 {
                if let Some((m, what)) = t.mutate(s, &o) {
                    if let Some(q) = de::<inner_product_proof::Proof<G>>(&m.ser()) {
                        // with zero vectors a and b scale freely only when the other side vanishes
                        let got = quiet(|| inner_product_proof::verify::<G>(&mut Transcript::new(b"t"), gv.clone(), hv.clone(), u, &p.into_projective(), &q));
                        ensure!(!matches!(got, Ok(true)), "ipp-altered-accepted", "altered inner-product proof accepted: {}", what);
                    }
                }
            }
        }
    }
    Ok(())
}

fn quick_multiexp<G: Curve>(s: &Vec<G::Fr>, p: &Vec<G::Affine>) -> G::Projective {
    let mut r = G::Projective::zero();
    for (a, b) in s.iter().zip(p) {
        r += &b.mul(*a);
    }
    r
}

macro_rules! both {
    ($($f:ident $a:ident $b:ident),*) => { $(
        fn $a(s: &mut Src) -> R { $f::<Bls12_381>(s) }
        fn $b(s: &mut Src) -> R { $f::<Curve25519>(s) }
    )* };
}
both!(wrong_public wp_b wp_c, violating v_b v_c, cheating ch_b ch_c, altered al_b al_c, forge fo_b fo_c, ipp ip_b ip_c);

fn main() {
    vharness::main(
        "P05",
        "A case is a random rank-1 system with a false claim derived from it: changed publics, violating assignment, wires contradicting the circuit, altered proof or generators, or a fabricated proof; non-trivial = the system has a non-empty constraint.",
        vec![
            sub("wrong-public-bls", 120, 3000, wp_b),
            sub("wrong-public-25519", 250, 6000, wp_c),
            sub("violating-bls", 250, 6000, v_b),
            sub("violating-25519", 500, 12000, v_c),
            sub("cheating-bls", 250, 6000, ch_b),
            sub("cheating-25519", 500, 12000, ch_c),
            sub("altered-bls", 150, 4000, al_b),
            sub("altered-25519", 300, 8000, al_c),
            sub("claims-bls", 40, 1000, claims::<Bls12_381>),
            sub("claims-25519", 200, 5000, claims::<Curve25519>),
            sub("bound", 200, 8000, bound::<vharness::clear::Clear>),
            sub("bound-25519", 40, 1000, bound::<Curve25519>),
            sub("transcript", 40, 1000, |s| if s.below(4) == 0 { vharness::transcripts::bulletproofs::<Bls12_381>(s) } else { vharness::transcripts::bulletproofs::<Curve25519>(s) }),
            sub("forge-bls", 200, 4000, fo_b),
            sub("forge-25519", 400, 8000, fo_c),
            sub("ipp-bls", 150, 4000, ip_b),
            sub("ipp-25519", 300, 6000, ip_c),
        ],
    )
}
