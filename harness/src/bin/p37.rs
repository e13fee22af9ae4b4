//! P37: the on-chain verifier scripts, built from their own sources and run as processes over generated cells.
use ark_bls12_381::{Bls12_381 as E, Fq, Fr, G1Affine, G2Affine};
use ark_ff::{One, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use std::io::Write;
use std::process::{Command, Stdio};
use vharness::circ::*;
use vharness::plonk as pl;
use vharness::schemes::{marlin::Marlin, Snark};
use vharness::tree::*;
use vharness::*;
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, SynthesisError};

/// the script's verdict over these output cells
fn script(name: &str, cells: &[&[u8]]) -> bool {
    let exe = std::env::current_exe().unwrap();
    let p = exe.parent().unwrap().parent().unwrap().parent().unwrap().join("contracts/debug").join(name);
    let mut c = Command::new(&p).stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::null()).env_remove("RUST_BACKTRACE").spawn().expect("the script runs");
    let mut b = (cells.len() as u32).to_le_bytes().to_vec();
    for x in cells {
        b.extend((x.len() as u32).to_le_bytes());
        b.extend_from_slice(x);
    }
    let _ = c.stdin.take().unwrap().write_all(&b);
    c.wait().expect("the script ends").success()
}
fn raw<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    t.serialize_uncompressed(&mut v).expect("serialize");
    v
}
fn checked<T: CanonicalDeserialize>(b: &[u8]) -> Option<T> {
    quiet(|| T::deserialize_uncompressed(b).ok()).ok().flatten()
}
type Bp = (zkp_bulletproofs::Generators<E>, zkp_bulletproofs::R1csCircuit<E>, zkp_bulletproofs::Proof<E>);
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Groth,
    Plonk,
    Marlin,
    Bullet,
}
use Kind::*;
impl Kind {
    fn script(self) -> &'static str {
        match self {
            Groth => "universal_groth16",
            Plonk => "universal_plonk",
            Marlin => "universal_marlin",
            Bullet => "mini_bulletproofs",
        }
    }
    fn schema(self) -> &'static str {
        match self {
            Groth => "{a:g,b:h,c:g}",
            Plonk => pl::PROOF,
            Marlin => vharness::schemes::marlin::PROOF,
            Bullet => "{A_I:g,A_O:g,A_W:g,S:g,T_2:g,T_3:g,T_5:g,T_6:g,T_7:g,T_8:g,T_9:g,T_10:g,mu:f,tau_x:f,l_x:[f],r_x:[f],t_x:f,IPP:{L:[g],R:[g],a:f,b:f},P:g}",
        }
    }
    /// the proof's cell for a proof in compressed form
    fn cell(self, p: &[u8], head: &[u8]) -> Option<Vec<u8>> {
        match self {
            Groth => de::<zkp_groth16::Proof<E>>(p).map(|x| raw(&x)),
            Plonk => de::<pl::Proof>(p).map(|x| raw(&x)),
            Marlin => Some(p.to_vec()),
            Bullet => Some([head, p].concat()),
        }
    }
    fn publics(self, x: &[Fr]) -> Vec<u8> {
        match self {
            Groth => raw(&x[0]),
            Plonk => raw(&x.to_vec()),
            _ => ser(&x[0]),
        }
    }
    /// the libraries' verdict over the same cells, everything decoded with all checks
    fn library(self, vk: &[u8], proof: &[u8], x: &[u8]) -> bool {
        matches!(
            quiet(|| match self {
                Groth => {
                    let (vk, p, x): (zkp_groth16::VerifyKey<E>, zkp_groth16::Proof<E>, Fr) = match (checked(vk), checked(proof), checked(x)) {
                        (Some(a), Some(b), Some(c)) => (a, b, c),
                        _ => return false,
                    };
                    matches!(zkp_groth16::verify_proof(&zkp_groth16::prepare_verifying_key(&vk), &p, &[x]), Ok(true))
                }
                Plonk => match (checked::<pl::VK>(vk), checked::<pl::Proof>(proof), checked::<Vec<Fr>>(x)) {
                    (Some(a), Some(b), Some(c)) => matches!(pl::Plonk::verify(&a, &c, b), Ok(true)),
                    _ => false,
                },
                Marlin => match (de::<zkp_marlin::VerifyKey<E>>(vk), de::<zkp_marlin::Proof<E>>(proof), de::<Fr>(x)) {
                    (Some(a), Some(b), Some(c)) => matches!(zkp_marlin::verify_proof(&a, &b, &[c]), Ok(true)),
                    _ => false,
                },
                Bullet => match (de::<Bp>(proof), de::<Fr>(x)) {
                    (Some((g, r, p)), Some(c)) => matches!(zkp_bulletproofs::verify_proof(&g, &p, &r, &[c]), Ok(true)),
                    _ => false,
                },
            }),
            Ok(true)
        )
    }
    fn ops(self) -> Ops {
        ops2::<G1Affine, G2Affine>()
    }
}
/// an honest statement: the key's cell, the compressed proof, what precedes it in its cell, the public values
struct Made {
    vk: Vec<u8>,
    proof: Vec<u8>,
    head: Vec<u8>,
    x: Vec<Fr>,
}
fn err<T, X: std::fmt::Debug>(r: Result<T, X>) -> Result<T, Fail> {
    r.map_err(|e| Fail { sig: "prove-error".into(), msg: format!("{:?}", e) })
}
/// x * (y + 2) = z, some number of times: the circuit the Bulletproofs script is for has ten
struct Mini(Fr, Fr, usize);
impl ConstraintSynthesizer<Fr> for Mini {
    fn generate_constraints<CS: ConstraintSystem<Fr>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let (x, y) = (self.0, self.1);
        let a = cs.alloc(|| "x", || Ok(x))?;
        let b = cs.alloc(|| "y", || Ok(y))?;
        let z = cs.alloc_input(|| "z", || Ok(x * (y + Fr::from(2u64))))?;
        for _ in 0..self.2 {
            cs.enforce(|| "", |l| l + a, |l| l + b + (Fr::from(2u64), CS::one()), |l| l + z);
        }
        Ok(())
    }
}
fn make(s: &mut Src, k: Kind) -> Result<Made, Fail> {
    let mut rng = s.rng();
    if k == Bullet {
        let (x, y) = (s.field::<Fr>(), s.field::<Fr>());
        s.note(format!("x = {} y = {}", x, y));
        let (g, r, p) = err(zkp_bulletproofs::create_random_proof::<E, _, _>(Mini(x, y, 10), &mut rng))?;
        return Ok(Made { vk: vec![], proof: ser(&p), head: [ser(&g), ser(&r)].concat(), x: vec![x * (y + Fr::from(2u64))] });
    }
    if k == Plonk {
        let p = pl::gen_prog(s, 1, 8);
        let ks = pl::gen_ks(s);
        let (pk, vk) = pl::keys(s, &p, ks)?;
        let cs = p.build();
        let pr = err(pl::Plonk::prove(&pk, &cs, &mut rng))?;
        return Ok(Made { vk: raw(&vk), proof: ser(&pr), head: vec![], x: cs.public_inputs().to_vec() });
    }
    let c: Circ<Fr> = gen_circ(s, &Opts { min_pub: 1, max_pub: 1, max_con: 6, max_aux: 6, ..Opts::default() });
    s.note(c.describe());
    if k == Groth {
        let p = err(zkp_groth16::generate_random_parameters::<E, _, _>(c.blank(), &mut rng))?;
        let pr = err(zkp_groth16::create_random_proof(&p, c.clone(), &mut rng))?;
        return Ok(Made { vk: raw(&p.vk), proof: ser(&pr), head: vec![], x: c.pubs });
    }
    let keys = err(Marlin::<E>::setup(&c, &mut rng))?;
    let proof = err(Marlin::<E>::prove(&keys, &c, &mut rng))?;
    Ok(Made { vk: ser(&keys.vk), proof, head: vec![], x: c.pubs })
}
fn honest(s: &mut Src, k: Kind) -> R {
    let m = make(s, k)?;
    let cell = k.cell(&m.proof, &m.head).expect("proof cell");
    ensure!(script(k.script(), &[&m.vk, &cell, &k.publics(&m.x)]), "rejected", "the script refuses an honest proof");
    s.nontrivial();
    Ok(())
}
/// a point of order three on the curve, outside the group
fn small() -> G1Affine {
    G1Affine::new(Fq::zero(), Fq::from(2u64), false)
}
fn false_cells(s: &mut Src, k: Kind) -> R {
    let m = make(s, k)?;
    let o = k.ops();
    let t = Ty::p(k.schema()).parse(&m.proof, &o)?;
    let cell = k.cell(&m.proof, &m.head).expect("proof cell");
    let pub_cell = k.publics(&m.x);
    ensure!(script(k.script(), &[&m.vk, &cell, &pub_cell]), "rejected", "the script refuses an honest proof");
    let other = make(s, k)?;
    for _ in 0..6 {
        let (mut vk, mut pc, mut xc) = (m.vk.clone(), cell.clone(), pub_cell.clone());
        // false whatever the library says
        let mut must = false;
        let mut cells = 3;
        let what = match s.below(9) {
            0 | 1 => {
                let (n, w) = match t.mutate(s, &o) {
                    Some(x) => x,
                    None => continue,
                };
                pc = match k.cell(&n.ser(), &m.head) {
                    Some(c) => c,
                    None => continue,
                };
                must = true;
                format!("proof altered: {}", w.chars().filter(|c| !c.is_ascii_digit()).collect::<String>())
            }
            2 => {
                let mut x = m.x.clone();
                let i = s.below(x.len());
                match s.below(4) {
                    0 => x[i] += Fr::one(),
                    1 => x[i] = -x[i],
                    2 => x[i] = Fr::zero(),
                    _ => x[i] = s.field(),
                }
                if k == Plonk && s.chance(1, 3) {
                    x.pop();
                }
                xc = if k != Plonk || !x.is_empty() || s.bool() { k.publics(&x) } else { vec![] };
                // Marlin and Bulletproofs circuits may leave the public value free; the proof is for one value nevertheless
                must = x != m.x;
                "other public values".into()
            }
            3 => {
                // another statement's proof, key or public values
                match s.below(3) {
                    0 => pc = k.cell(&other.proof, &m.head).expect("proof cell"),
                    1 => vk = other.vk.clone(),
                    _ => xc = k.publics(&other.x),
                }
                "a cell of another statement".into()
            }
            4 => {
                // fewer cells: what is missing cannot be verified
                cells = s.below(3);
                must = true;
                format!("{} cells", cells)
            }
            5 => {
                let c = *s.pick(&[&mut vk as *mut Vec<u8>, &mut pc as *mut _, &mut xc as *mut _]);
                let c = unsafe { &mut *c };
                let n = if s.bool() { 0 } else { s.below(c.len().max(1)) };
                must = !c.is_empty();
                c.truncate(n);
                "a cell cut short".into()
            }
            6 => {
                let c = *s.pick(&[&mut vk as *mut Vec<u8>, &mut pc as *mut _, &mut xc as *mut _]);
                let c = unsafe { &mut *c };
                if c.is_empty() {
                    continue;
                }
                let i = s.below(c.len());
                c[i] ^= 1 << s.below(8);
                "a bit flipped".into()
            }
            7 => {
                let mut v = [vk.clone(), pc.clone(), xc.clone()];
                let i = s.below(3);
                let j = (i + 1 + s.below(2)) % 3;
                v.swap(i, j);
                let [a, b, c] = v;
                vk = a;
                pc = b;
                xc = c;
                "cells exchanged".into()
            }
            _ => {
                // points outside the group, or off the curve
                let alter = |p: &mut G1Affine, s: &mut Src| {
                    if s.bool() {
                        *p = *p + small();
                    } else {
                        p.y += Fq::from(s.range(1, 1000) as u64);
                    }
                };
                match k {
                    Groth => {
                        let mut p = de::<zkp_groth16::Proof<E>>(&m.proof).unwrap();
                        alter(if s.bool() { &mut p.a } else { &mut p.c }, s);
                        pc = raw(&p);
                    }
                    Plonk => {
                        // the uncompressed points stand where they are in the compressed form, in the same order
                        let mut at: Vec<usize> = vec![];
                        for (_, c, b) in t.leaves() {
                            if c == 'g' {
                                let g = G1Affine::deserialize(&b[..]).unwrap();
                                let u = raw(&g);
                                at.extend(pc.windows(u.len()).position(|w| w == &u[..]));
                            }
                        }
                        let i = *s.pick(&at);
                        let mut g = checked::<G1Affine>(&pc[i..i + 96]).unwrap();
                        alter(&mut g, s);
                        pc[i..i + 96].copy_from_slice(&raw(&g));
                    }
                    _ => continue,
                }
                must = true;
                "a point outside the group".into()
            }
        };
        s.label(&what);
        s.nontrivial();
        let all: [&[u8]; 3] = [&vk, &pc, &xc];
        let got = script(k.script(), &all[..cells]);
        if cells < 3 {
            ensure!(!got, "missing", "accepted with {} cells", cells);
            continue;
        }
        if must {
            ensure!(!got, "accepted", "the script accepts: {}", what);
        }
        let want = k.library(&vk, &pc, &xc);
        // the Groth16 and Plonk scripts trust a key's cell to hold points of the group
        if vk == m.vk || vk == other.vk || k == Marlin || k == Bullet {
            ensure!(got == want, "verdict", "the script's verdict is {}, the library's {}: {}", got, want, what);
        } else {
            ensure!(got || !want, "verdict", "the script refuses what the library accepts: {}", what);
        }
    }
    Ok(())
}
/// a circuit that lets any claim pass
struct Free(Fr);
impl ConstraintSynthesizer<Fr> for Free {
    fn generate_constraints<CS: ConstraintSystem<Fr>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let a = cs.alloc(|| "", || Ok(Fr::zero()))?;
        let z = self.0;
        let _ = cs.alloc_input(|| "", || Ok(z))?;
        cs.enforce(|| "", |l| l + a, |l| l + a, |l| l + a);
        Ok(())
    }
}
fn own_circuit(s: &mut Src) -> R {
    let z = s.field::<Fr>();
    let (g, r, p) = err(zkp_bulletproofs::create_random_proof::<E, _, _>(Free(z), &mut s.rng()))?;
    s.note(format!("z = {}", z));
    s.nontrivial();
    let cell = [ser(&g), ser(&r), ser(&p)].concat();
    ensure!(!script("mini_bulletproofs", &[&[], &cell, &ser(&z)]), "own-circuit", "a proof for a circuit without conditions is accepted");
    Ok(())
}
fn main() {
    vharness::main(
        "P37",
        "a script was run over a generated key, proof and public values",
        vec![
            sub("groth16-honest", 20, 600, |s| honest(s, Groth)),
            sub("plonk-honest", 20, 600, |s| honest(s, Plonk)),
            sub("marlin-honest", 20, 600, |s| honest(s, Marlin)),
            sub("bulletproofs-honest", 10, 300, |s| honest(s, Bullet)),
            sub("groth16", 60, 2000, |s| false_cells(s, Groth)),
            sub("plonk", 60, 2000, |s| false_cells(s, Plonk)),
            sub("marlin", 60, 2000, |s| false_cells(s, Marlin)),
            sub("bulletproofs", 30, 600, |s| false_cells(s, Bullet)),
            sub("bulletproofs-circuit", 4, 40, own_circuit),
        ],
    )
}
