//! One interface over the rank-1 proof systems.
use crate::circ::*;
use crate::tree::*;
use crate::*;
use ark_ff::PrimeField;

pub trait Snark {
    type F: PrimeField;
    type K;
    const NAME: &'static str;
    /// keys for the circuit (its assignment must not matter)
    fn setup(c: &Circ<Self::F>, rng: &mut TapeRng) -> Result<Self::K, String>;
    /// serialized proof
    fn prove(k: &Self::K, c: &Circ<Self::F>, rng: &mut TapeRng) -> Result<Vec<u8>, String>;
    /// Err: not decodable or refused with an error
    fn verify(k: &Self::K, proof: &[u8], x: &[Self::F]) -> Result<bool, String>;
    fn schema() -> &'static str;
    fn ops() -> Ops;
    fn accepts(k: &Self::K, proof: &[u8], x: &[Self::F]) -> bool {
        matches!(quiet(|| Self::verify(k, proof, x)), Ok(Ok(true)))
    }
}
fn e<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|x| format!("{:?}", x))
}
fn decode<T: ark_serialize::CanonicalDeserialize>(b: &[u8]) -> Result<T, String> {
    de::<T>(b).ok_or_else(|| "undecodable".to_string())
}
pub fn setup<S: Snark>(c: &Circ<S::F>, rng: &mut TapeRng) -> Result<S::K, Fail> {
    S::setup(c, rng).map_err(|m| Fail { sig: "setup-error".into(), msg: m })
}
pub fn prove<S: Snark>(k: &S::K, c: &Circ<S::F>, rng: &mut TapeRng) -> Result<Vec<u8>, Fail> {
    S::prove(k, c, rng).map_err(|m| Fail { sig: "prove-error".into(), msg: m })
}

#[cfg(feature = "spartan")]
pub mod spartan {
    use super::*;
    use std::marker::PhantomData;
    use zkp_curve::Curve;
    use zkp_spartan::{nizk, snark};
    pub const SAT: &str = "{commit_witness:[g],one:{cp:[g],ce:[g],pr:[{d:g,cd:g,z:[f],zd:f,zb:f}]},two:{cp:[g],ce:[g],pr:[{d:g,cd:g,z:[f],zd:f,zb:f}]},prod:{l:[g],r:[g],delta:g,beta:g,z1:f,z2:f},kpc:{va:g,vb:g,vc:g,prod:g},kpp:{kt:g,k1:f,k2:f,pa:g,pb:g,pd:g,z:[f]},eq1a:g,eq1z:f,eq2a:g,eq2z:f,commit_ry:g}";
    pub struct Nizk<G>(PhantomData<G>);
    pub struct NK<G: Curve> {
        pub pk: nizk::ProveKey<G>,
        pub vk: nizk::VerifyKey<G>,
        pub h: (G::Fr, G::Fr),
    }
    impl<G: Curve> Snark for Nizk<G> {
        type F = G::Fr;
        type K = NK<G>;
        const NAME: &'static str = "spartan-nizk";
        fn setup(c: &Circ<G::Fr>, rng: &mut TapeRng) -> Result<NK<G>, String> {
            let p = e(nizk::generate_random_parameters::<G, _, _>(c.blank(), rng))?;
            let h = (p.r1cs.r1cs_to_hash(), p.params.param_to_hash());
            let (pk, vk) = p.keypair();
            Ok(NK { pk, vk, h })
        }
        fn prove(k: &NK<G>, c: &Circ<G::Fr>, rng: &mut TapeRng) -> Result<Vec<u8>, String> {
            Ok(ser(&e(nizk::create_random_proof(&k.pk, c.clone(), k.h.0, k.h.1, rng))?))
        }
        fn verify(k: &NK<G>, p: &[u8], x: &[G::Fr]) -> Result<bool, String> {
            e(nizk::verify_proof(&k.vk, &decode(p)?, x, k.h.0, k.h.1))
        }
        fn schema() -> &'static str {
            Box::leak(format!("{{sat:{},rx:[f],ry:[f]}}", SAT).into_boxed_str())
        }
        fn ops() -> Ops {
            ops::<G::Affine>()
        }
    }
    pub struct Sn<G>(PhantomData<G>);
    pub struct SK<G: Curve> {
        pub pk: snark::ProveKey<G>,
        pub vk: snark::VerifyKey<G>,
        pub h: (G::Fr, G::Fr, G::Fr),
    }
    pub const LAYERS: &str = "{layers:[{polys:[[f]],left:[f],right:[f]}],dr:[f],dc:[f],dv:[f]}";
    pub const DOT: &str = "{l:[g],r:[g],delta:g,beta:g,z1:f,z2:f}";
    impl<G: Curve> Snark for Sn<G> {
        type F = G::Fr;
        type K = SK<G>;
        const NAME: &'static str = "spartan-snark";
        fn setup(c: &Circ<G::Fr>, rng: &mut TapeRng) -> Result<SK<G>, String> {
            let p = e(snark::generate_random_parameters::<G, _, _>(c.blank(), rng))?;
            let h = (p.r1cs.r1cs_to_hash(), p.params.param_to_hash(), p.encode_comm.encode_to_hash());
            let (pk, vk) = p.keypair();
            Ok(SK { pk, vk, h })
        }
        fn prove(k: &SK<G>, c: &Circ<G::Fr>, rng: &mut TapeRng) -> Result<Vec<u8>, String> {
            Ok(ser(&e(snark::create_random_proof(&k.pk, c.clone(), k.h.0, k.h.1, k.h.2, rng))?))
        }
        fn verify(k: &SK<G>, p: &[u8], x: &[G::Fr]) -> Result<bool, String> {
            e(snark::verify_proof(&k.vk, &decode(p)?, x, k.h.0, k.h.1, k.h.2))
        }
        fn schema() -> &'static str {
            Box::leak(
                format!(
                    "{{sat:{},ea:f,eb:f,ec:f,pm:{l},po:{l},dl:[f],dr:[f],row:{{i:f,r:[f],w:[f],a:f}},col:{{i:f,r:[f],w:[f],a:f}},hd:{d},ho:{d},hm:{d},edr:[f],edc:[f],er:{{a:[f],t:[f],u:f}},ec2:{{a:[f],t:[f],u:f}},ev:[f],derefs:[g]}}",
                    SAT,
                    l = LAYERS,
                    d = DOT
                )
                .into_boxed_str(),
            )
        }
        fn ops() -> Ops {
            ops::<G::Affine>()
        }
    }
}

// ---------------------------------------------------------------- generic checks
pub fn complete<S: Snark>(s: &mut Src, c: &Circ<S::F>) -> R {
    let mut rng = s.rng();
    let k = setup::<S>(c, &mut rng)?;
    let p = prove::<S>(&k, c, &mut rng)?;
    match S::verify(&k, &p, &c.pubs) {
        Ok(true) => Ok(()),
        x => fail("rejected", format!("honest proof not accepted: {:?}", x)),
    }
}
pub fn boundary_opts(s: &mut Src, min: usize) -> Opts {
    let t = (1usize << s.below(5)) + s.below(3);
    let t = t.saturating_sub(1).max(min);
    let other = |s: &mut Src| s.below(6);
    s.label("around power of two");
    let (mut p, mut a, mut n) = (other(s), other(s), other(s).max(min));
    match s.below(3) {
        0 => p = t,
        1 => a = t,
        _ => n = t,
    }
    Opts { min_con: n, max_con: n, min_aux: a, max_aux: a, min_pub: p, max_pub: p, ..Opts::default() }
}
pub fn wrong_public<S: Snark>(s: &mut Src, c: &Circ<S::F>) -> R {
    use ark_ff::{One, Zero};
    let mut rng = s.rng();
    let k = setup::<S>(c, &mut rng)?;
    let p = prove::<S>(&k, c, &mut rng)?;
    ensure!(S::accepts(&k, &p, &c.pubs), "rejected", "honest proof rejected");
    for _ in 0..6 {
        let mut x = c.pubs.clone();
        match s.below(8) {
            0 if !x.is_empty() => {
                let i = s.below(x.len());
                x[i] += S::F::one();
            }
            1 if !x.is_empty() => {
                let i = s.below(x.len());
                x[i] = -x[i];
            }
            2 if !x.is_empty() => {
                let i = s.below(x.len());
                x[i] = s.field();
            }
            3 if !x.is_empty() => {
                let i = s.below(x.len());
                let j = s.below(x.len());
                x.swap(i, j);
            }
            4 if !x.is_empty() => {
                s.label("short");
                x.pop();
            }
            5 => {
                s.label("long zero");
                for _ in 0..s.range(1, 3) {
                    x.push(S::F::zero());
                }
            }
            6 if !x.is_empty() => {
                s.label("zeroed");
                let i = s.below(x.len());
                x[i] = S::F::zero();
            }
            _ => {
                s.label("long");
                x.push(s.field());
            }
        }
        if x == c.pubs {
            continue;
        }
        ensure!(!S::accepts(&k, &p, &x), "wrong-public-accepted", "accepted for {} values instead of {}", x.len(), c.pubs.len());
    }
    Ok(())
}
pub fn violating<S: Snark>(s: &mut Src, c: &Circ<S::F>) -> R {
    let b = match gen_violation(s, c) {
        Some(b) => b,
        None => return Ok(()),
    };
    let mut rng = s.rng();
    let k = setup::<S>(&b, &mut rng)?;
    if let Ok(Ok(p)) = quiet(|| S::prove(&k, &b, &mut rng)) {
        s.label("proof produced");
        ensure!(!S::accepts(&k, &p, &b.pubs), "violating-accepted", "a proof from a violating assignment is accepted");
    }
    if b.auxs == c.auxs {
        s.label("sibling-circuit");
        let k2 = setup::<S>(c, &mut rng)?;
        if let Ok(Ok(p2)) = quiet(|| S::prove(&k2, c, &mut rng)) {
            ensure!(!S::accepts(&k, &p2, &b.pubs), "other-circuit-accepted", "a proof made for another circuit is accepted");
        }
        // the proving key of one circuit with the values of the other
        if let Ok(Ok(p3)) = quiet(|| S::prove(&k, c, &mut rng)) {
            ensure!(!S::accepts(&k, &p3, &b.pubs), "violating-accepted", "a proof from a violating assignment is accepted");
        }
    }
    Ok(())
}
pub fn altered<S: Snark>(s: &mut Src, c: &Circ<S::F>) -> R {
    let mut rng = s.rng();
    let k = setup::<S>(c, &mut rng)?;
    let p = prove::<S>(&k, c, &mut rng)?;
    let o = S::ops();
    let t = Ty::p(S::schema()).parse(&p, &o)?;
    for _ in 0..6 {
        let (m, what) = match t.mutate(s, &o) {
            Some(x) => x,
            None => continue,
        };
        s.label(what.chars().filter(|c| !c.is_ascii_digit()).collect::<String>());
        ensure!(!S::accepts(&k, &m.ser(), &c.pubs), "altered-accepted", "altered proof accepted: {}", what);
    }
    // a second proof of the same statement: components may not be exchanged
    let p2 = prove::<S>(&k, c, &mut rng)?;
    let t2 = Ty::p(S::schema()).parse(&p2, &o)?;
    let (l1, l2) = (t.leaves(), t2.leaves());
    if l1.len() == l2.len() {
        for _ in 0..2 {
            let i = s.below(l1.len());
            if l1[i].2 != l2[i].2 {
                let mut m = t.clone();
                m.set_leaf(i, l2[i].2.clone());
                s.label("component of a sibling proof");
                ensure!(!S::accepts(&k, &m.ser(), &c.pubs), "altered-accepted", "component of another proof accepted: {}", l1[i].0);
            }
        }
    }
    Ok(())
}

/// every component of an honest proof is bound under fixed challenges
#[cfg(feature = "bound")]
pub fn bound_snark<S: Snark>(s: &mut Src, c: &Circ<S::F>, n: usize, free: &dyn Fn(&str, bool) -> bool) -> R {
    let mut rng = s.rng();
    let k = setup::<S>(c, &mut rng)?;
    let seed = s.u64();
    crate::bound::bound::<S::F>(s, S::schema(), &S::ops(), seed, n, free, &mut || S::prove(&k, c, &mut rng).ok(), &|p| S::accepts(&k, p, &c.pubs))
}

/// Under challenges fixed in advance, which no longer depend on the statement, the proof of one
/// statement must not pass for one its assignment violates: every public value and every coefficient
/// of the circuit has to enter an equation.
#[cfg(feature = "bound")]
pub fn claims_snark<S: Snark>(s: &mut Src, c: &Circ<S::F>) -> R {
    use crate::bound::forced;
    let mut rng = s.rng();
    let mut same = rng.clone();
    let k = setup::<S>(c, &mut rng)?;
    let seed = s.u64();
    let p = match forced(seed, || S::prove(&k, c, &mut rng)) {
        Ok(Ok(p)) => p,
        _ => {
            s.label("no proof");
            return Ok(());
        }
    };
    let passes = |k: &S::K, x: &[S::F]| forced(seed, || S::accepts(k, &p, x)) == Ok(true);
    if !passes(&k, &c.pubs) {
        s.label("challenges cannot be fixed");
        return Ok(());
    }
    s.nontrivial();
    for _ in 0..3 {
        let mut d = c.clone();
        if d.pubs.is_empty() {
            break;
        }
        let i = s.below(d.pubs.len());
        if s.bool() {
            d.pubs[i] += s.nonzero::<S::F>();
        } else {
            let j = s.below(d.pubs.len());
            d.pubs.swap(i, j);
        }
        if d.sat() {
            continue;
        }
        s.label("claim: other public values");
        ensure!(!passes(&k, &d.pubs), "unbound-claim", "under fixed challenges the proof passes for other public values (position {})", i);
    }
    if let Some(b) = gen_violation(s, c) {
        if b.auxs == c.auxs && b.pubs == c.pubs {
            s.label("claim: another circuit");
            let k2 = setup::<S>(&b, &mut same)?;
            ensure!(!passes(&k2, &c.pubs), "unbound-claim", "under fixed challenges the proof passes for another circuit");
        }
    }
    Ok(())
}

#[cfg(feature = "marlin")]
pub mod marlin {
    use super::*;
    use ark_ec::PairingEngine;
    use std::collections::HashMap;
    use std::marker::PhantomData;
    use std::sync::Mutex;
    use zkp_marlin::*;
    pub const PROOF: &str = "{comms:[[{c:g,s:?g}]],evals:[f],opens:[{w:g,r:?f}]}";
    #[allow(dead_code)]
    pub const VK: &str = "{info:{m:u,n:u,nz:u,x:u},comms:[{c:g,s:?g}],pc:{g:g,gg:g,h:h,bh:h,d:u}}";
    pub struct Marlin<E>(PhantomData<E>);
    pub struct MK<E: PairingEngine> {
        pub pk: IndexProverKey<'static, E>,
        pub vk: IndexVerifierKey<E>,
    }
    /// one universal string per size and curve, kept for the life of the process
    pub fn srs<E: PairingEngine>(log: u32) -> &'static UniversalParams<E> {
        use rand::SeedableRng;
        static M: Mutex<Option<HashMap<(String, u32), usize>>> = Mutex::new(None);
        let mut m = M.lock().unwrap_or_else(|e| e.into_inner());
        let m = m.get_or_insert_with(HashMap::new);
        let key = (std::any::type_name::<E>().to_string(), log);
        let p = *m.entry(key).or_insert_with(|| {
            let mut r = rand::rngs::StdRng::seed_from_u64(log as u64);
            let u = universal_setup::<E, _>(1 << log, &mut r).expect("universal setup");
            Box::leak(Box::new(u)) as *const UniversalParams<E> as usize
        });
        unsafe { &*(p as *const UniversalParams<E>) }
    }
    impl<E: PairingEngine> Snark for Marlin<E> {
        type F = E::Fr;
        type K = MK<E>;
        const NAME: &'static str = "marlin";
        fn setup(c: &Circ<E::Fr>, rng: &mut TapeRng) -> Result<MK<E>, String> {
            use rand::RngCore;
            // the smallest string the circuit fits, or a larger one
            let extra = if rng.next_u32() % 4 == 0 { 1 } else { 0 };
            let mut fit = None;
            for log in 2..13 {
                match index(srs::<E>(log), c.blank()) {
                    Ok(k) => {
                        fit = Some((log, k));
                        break;
                    }
                    Err(e) if format!("{:?}", e) == "IndexTooLarge" => continue,
                    Err(e) => return Err(format!("{:?}", e)),
                }
            }
            let (log, mut k) = fit.ok_or("no size fits")?;
            if extra > 0 {
                k = e(index(srs::<E>(log + extra), c.blank()))?;
            }
            Ok(MK { pk: k.0, vk: k.1 })
        }
        fn prove(k: &MK<E>, c: &Circ<E::Fr>, rng: &mut TapeRng) -> Result<Vec<u8>, String> {
            Ok(ser(&e(create_random_proof(&k.pk, c.clone(), rng))?))
        }
        fn verify(k: &MK<E>, p: &[u8], x: &[E::Fr]) -> Result<bool, String> {
            e(verify_proof(&k.vk, &decode(p)?, x))
        }
        fn schema() -> &'static str {
            PROOF
        }
        fn ops() -> Ops {
            ops2::<E::G1Affine, E::G2Affine>()
        }
    }
}
