//! P20: Fiat-Shamir: every challenge depends on everything before it.
use ark_bls12_381::{Bls12_381, Fr};
use ark_ff::{One, Zero};
use merlin::recorder::Ev;
use std::collections::{BTreeMap, HashMap};
use vharness::circ::*;
use vharness::bound::weight;
use vharness::fs::*;
use vharness::gkr::*;
use vharness::plonk as pk;
use vharness::schemes::marlin::{Marlin, MK, VK};
use vharness::schemes::spartan::{Nizk, Sn, NK, SK};
use vharness::schemes::*;
use vharness::transcripts::*;
use vharness::tree::*;
use vharness::*;
use zkp_curve::Curve;
use zkp_curve25519::Curve25519;

/// digests of circuits and keys differ whenever the circuits or keys do
fn digests(s: &mut Src) -> R {
    type G = Curve25519;
    type F = <G as Curve>::Fr;
    // rank-1 systems
    {
        use zkp_spartan::nizk::generate_random_parameters as gp;
        let c: Circ<F> = gen_circ(s, &opts());
        let mut d = c.clone();
        let k = s.below(d.cons.len());
        let (nv, na) = (c.pubs.len(), c.auxs.len());
        let what = s.below(6);
        {
            let n = d.cons.len();
            let con = &mut d.cons[k];
            let sides = [&mut con.0, &mut con.1, &mut con.2];
            let j = s.below(3);
            let name = match what {
                0 => {
                    if let Some(t) = sides.into_iter().nth(j).unwrap().last_mut() {
                        t.1 += delta::<F>(s);
                    }
                    "coefficient"
                }
                1 => {
                    let v = match s.below(3) {
                        0 if nv > 0 => V::Pub(s.below(nv)),
                        1 if na > 0 => V::Aux(s.below(na)),
                        _ => V::One,
                    };
                    if let Some(t) = sides.into_iter().nth(j).unwrap().last_mut() {
                        t.0 = v;
                    }
                    "variable"
                }
                2 => {
                    let [a, b, c] = sides;
                    let (x, y) = match j {
                        0 => (a, b),
                        1 => (b, c),
                        _ => (a, c),
                    };
                    if let Some(t) = x.pop() {
                        y.insert(0, t);
                    }
                    "term to the next matrix"
                }
                3 if k + 1 < n => {
                    let t = sides.into_iter().nth(j).unwrap().pop();
                    let nx = &mut d.cons[k + 1];
                    if let Some(t) = t {
                        [&mut nx.0, &mut nx.1, &mut nx.2].into_iter().nth(j).unwrap().insert(0, t);
                    }
                    "term to the next row"
                }
                4 => {
                    d.auxs.push(F::one());
                    "one more variable"
                }
                _ => {
                    let con = d.cons[k].clone();
                    d.cons.push(con);
                    "one more constraint"
                }
            };
            s.label(name);
        }
        d.steps = (0..d.pubs.len()).map(Step::Pub).chain((0..d.auxs.len()).map(Step::Aux)).chain((0..d.cons.len()).map(Step::Con)).collect();
        let mut e = c.clone();
        e.steps = (0..e.pubs.len()).map(Step::Pub).chain((0..e.auxs.len()).map(Step::Aux)).chain((0..e.cons.len()).map(Step::Con)).collect();
        let mut r1 = TapeRng::new(7);
        let mut r2 = TapeRng::new(7);
        let p = fe(gp::<G, _, _>(e.blank(), &mut r1))?;
        let q = fe(gp::<G, _, _>(d.blank(), &mut r2))?;
        let same = ser(&p.r1cs) == ser(&q.r1cs);
        ensure!(same == (p.r1cs.r1cs_to_hash() == q.r1cs.r1cs_to_hash()), "r1cs-digest", "circuits {} but their digests {}", if same { "agree" } else { "differ" }, if same { "differ" } else { "agree" });
        if same {
            s.label("no change");
        }
        // parameters
        let o = ops::<<G as Curve>::Affine>();
        let more = s.below(4) == 0;
        let mut leaf = |name: &str, sch: &str, a: &[u8], h: &dyn Fn(&[u8]) -> Option<F>| -> R {
            let t = Ty::p(sch).parse(a, &o)?;
            let lv = t.leaves();
            for _ in 0..3 {
                let i = s.below(lv.len());
                if lv[i].1 != 'g' {
                    continue;
                }
                let mut m = t.clone();
                m.set_leaf(i, (o.mg)(&lv[i].2, s));
                if m == t {
                    continue;
                }
                ensure!(h(a).is_some() && h(&m.ser()) != h(a), "param-digest", "{}: the digest does not depend on {}", name, lv[i].0);
            }
            if let Some((m, w)) = t.regroup(s) {
                if let Some(x) = h(&m.ser()) {
                    ensure!(Some(x) != h(a), "param-digest", "{}: the same digest after {}", name, w);
                }
            }
            Ok(())
        };
        const MC: &str = "{n:u,g:[g],h:g}";
        let pc = format!("{{n:u,n_:{m},one:{m}}}", m = MC);
        let sc = format!("{{g1:{m},g3:{m},g4:{m}}}", m = MC);
        let sat = format!("{{pc:{},sc:{},n:u}}", pc, sc);
        leaf("spartan nizk", &format!("{{sat:{}}}", sat), &ser(&p.params), &|b| de::<zkp_spartan::data_structure::NizkParameters<G>>(b).map(|x| x.param_to_hash()))?;
        if more {
            let p = fe(zkp_spartan::snark::generate_random_parameters::<G, _, _>(e.blank(), &mut r1))?;
            leaf("spartan snark", &format!("{{ev:{{o:{p},m:{p},d:{p}}},sat:{s}}}", p = pc, s = sat), &ser(&p.params), &|b| de::<zkp_spartan::data_structure::SnarkParameters<G>>(b).map(|x| x.param_to_hash()))?;
            leaf("spartan encoding", "{n:u,m:u,o:[g],mem:[g]}", &ser(&p.encode_comm), &|b| de::<zkp_spartan::data_structure::EncodeCommit<G>>(b).map(|x| x.encode_to_hash()))?;
        }
        let gkr = format!("{{sc:{},pc:{}}}", sc, pc);
        let mut rng = TapeRng::new(9);
        let n = 1 + k % 4;
        leaf("libra", &gkr, &ser(&zkp_libra::params::Parameters::<G>::new(&mut rng, n)), &|b| de::<zkp_libra::params::Parameters<G>>(b).map(|x| x.param_to_hash()))?;
        leaf("hyrax", &gkr, &ser(&zkp_hyrax::params::Parameters::<G>::new(&mut rng, n)), &|b| de::<zkp_hyrax::params::Parameters<G>>(b).map(|x| x.param_to_hash()))?;
    }
    // layered circuits: the digest has to tell apart any two circuits
    let r = layered(s);
    let mut q = r.clone();
    let k = s.below(q.layers.len());
    let pw = q.width(k);
    let j = s.below(q.layers[k].len());
    let name = match s.below(6) {
        0 => {
            q.layers[k][j].0 ^= 1;
            "gate type"
        }
        1 => {
            q.layers[k][j].1 = s.below(pw);
            "left wire"
        }
        2 => {
            q.layers[k][j].2 = s.below(pw);
            "right wire"
        }
        3 => {
            let g = q.layers[k][j];
            q.layers[k][j] = (g.0, g.2, g.1);
            "wires exchanged"
        }
        4 => {
            let l = q.layers[k].len();
            q.layers[k].swap(j, l - 1);
            "gates exchanged"
        }
        _ => {
            let g = q.layers[k][j];
            q.layers[k].push(g);
            "one more gate"
        }
    };
    s.label(name);
    let same = q == r;
    let a = zkp_libra::circuit::Circuit::new(r.ni, r.na, &r.layers).circuit_to_hash::<G>() == zkp_libra::circuit::Circuit::new(q.ni, q.na, &q.layers).circuit_to_hash::<G>();
    let b = zkp_hyrax::circuit::Circuit::new(r.ni, r.na, &r.layers).circuit_to_hash::<G>() == zkp_hyrax::circuit::Circuit::new(q.ni, q.na, &q.layers).circuit_to_hash::<G>();
    ensure!(a == same && b == same, "circuit-digest", "circuits {} ({}) but their digests do not (libra {}, hyrax {}): {:?}", if same { "agree" } else { "differ" }, name, a, b, r);
    Ok(())
}
fn main() {
    vharness::main(
        "P20",
        "the proof was made and at least one altered message was followed to the challenges it changes",
        vec![
            sub("nizk", 80, 1500, |s| if s.below(4) == 0 { nizk::<Bls12_381>(s) } else { nizk::<Curve25519>(s) }),
            sub("snark", 40, 600, |s| if s.below(4) == 0 { snk::<Bls12_381>(s) } else { snk::<Curve25519>(s) }),
            sub("libra-plain", 300, 5000, |s| libra_plain::<Curve25519>(s)),
            sub("libra-zk", 80, 1500, |s| if s.below(4) == 0 { libra_zk::<Bls12_381>(s) } else { libra_zk::<Curve25519>(s) }),
            sub("hyrax", 40, 800, |s| if s.below(4) == 0 { hyrax::<Bls12_381>(s) } else { hyrax::<Curve25519>(s) }),
            sub("bulletproofs", 80, 1500, |s| if s.below(4) == 0 { bulletproofs::<Bls12_381>(s) } else { bulletproofs::<Curve25519>(s) }),
            sub("marlin", 60, 1000, marlin),
            sub("plonk", 80, 1200, plonk),
            sub("digests", 600, 10000, digests),
        ],
    )
}
