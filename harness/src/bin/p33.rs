//! P33: the command-line tools, run as processes in scratch directories.
use ark_bls12_381::{Bls12_381 as E, Fr};
use ark_ff::{PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use vharness::*;
use zkp_gadgets::hashes::mimc;
use zkp_r1cs::*;

static NEXT: AtomicUsize = AtomicUsize::new(0);
/// a directory of its own, removed at the end
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        let p = std::env::temp_dir().join(format!("vp33-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
    fn setup_file(&self, scheme: &str, circuit: &str) -> PathBuf {
        let ext = if scheme == "groth16" { "vk" } else { "universal_setup" };
        self.0.join(format!("setup_files/{}-bls12_381-{}.{}", scheme, circuit, ext))
    }
    fn proof_file(&self, scheme: &str, circuit: &str) -> PathBuf {
        self.0.join(format!("proof_files/{}-bls12_381-{}.proof.json", scheme, circuit))
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// exit status 0?, and what was printed
fn tool(d: &Dir, name: &str, args: &[&str]) -> (bool, String) {
    let p = std::env::current_exe().unwrap().with_file_name(format!("cli-{}", name));
    let o = std::process::Command::new(p)
        .args(args)
        .current_dir(&d.0)
        .env_remove("RUST_BACKTRACE")
        .env("RAYON_NUM_THREADS", "2")
        .output()
        .expect("the tool runs");
    (o.status.success(), String::from_utf8_lossy(&o.stdout).into_owned() + &String::from_utf8_lossy(&o.stderr))
}
fn verify(d: &Dir, file: &Path) -> bool {
    let (ok, out) = tool(d, "verify", &[file.to_str().unwrap()]);
    ok && out.lines().any(|l| l.trim() == "Verify is: true")
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    t.serialize(&mut v).unwrap();
    v
}
fn de<T: CanonicalDeserialize>(b: &[u8]) -> Option<T> {
    quiet(|| T::deserialize(b).ok()).ok().flatten()
}
/// the library's verdict on a proof under the stored key, and both as decoded
fn library(scheme: &str, setup: &[u8], proof: &[u8], x: Fr) -> Option<(bool, Vec<u8>, Vec<u8>)> {
    quiet(|| match scheme {
        "groth16" => {
            use zkp_groth16::*;
            let vk: VerifyKey<E> = de(setup)?;
            let p: Proof<E> = de(proof)?;
            Some((verify_proof(&prepare_verifying_key(&vk), &p, &[x]).ok()?, ser(&vk), ser(&p)))
        }
        "bulletproofs" => {
            use zkp_bulletproofs::*;
            let (g, r, p): (Generators<E>, R1csCircuit<E>, Proof<E>) = de(proof)?;
            let v = verify_proof(&g, &p, &r, &vec![x]).ok()?;
            Some((v, vec![], [ser(&g), ser(&r), ser(&p)].concat()))
        }
        "spartan_snark" => {
            use zkp_spartan::snark::*;
            let p: Parameters<E> = de(setup)?;
            // the file also holds what only the prover needs
            let (_, vk) = p.keypair();
            let s = ser(&vk);
            let pf: Proof<E> = de(proof)?;
            let (a, b, c) = (vk.r1cs.r1cs_to_hash(), vk.params.param_to_hash(), vk.encode_comm.encode_to_hash());
            Some((verify_proof(&vk, &pf, &vec![x], a, b, c).ok()?, s, ser(&pf)))
        }
        _ => {
            use zkp_spartan::nizk::*;
            let p: Parameters<E> = de(setup)?;
            // the file also holds what only the prover needs
            let (_, vk) = p.keypair();
            let s = ser(&vk);
            let pf: Proof<E> = de(proof)?;
            let (a, b) = (vk.r1cs.r1cs_to_hash(), vk.params.param_to_hash());
            Some((verify_proof(&vk, &pf, &vec![x], a, b).ok()?, s, ser(&pf)))
        }
    })
    .ok()
    .flatten()
}
const SCHEMES: [&str; 4] = ["groth16", "bulletproofs", "spartan_snark", "spartan_nizk"];
/// arguments and the claim they make
#[derive(Clone)]
struct Claim {
    args: Vec<String>,
    value: Fr,
    param: String,
}
fn mini(x: u64, y: u64, z: u64) -> Claim {
    Claim { args: vec![x.to_string(), y.to_string(), z.to_string()], value: Fr::from(z), param: z.to_string() }
}
fn holds(x: u64, y: u64, z: u64) -> bool {
    x as u128 * (y as u128 + 2) == z as u128
}
fn num(s: &mut Src) -> u64 {
    match s.below(5) {
        0 => *s.pick(&[0u64, 1, 2, 3, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX, u64::MAX - 1, 1 << 63]),
        1 => s.u64(),
        2 => s.u64() & 0xffff_ffff,
        _ => s.range(0, 1000) as u64,
    }
}
fn true_mini(s: &mut Src) -> Claim {
    let (x, y) = (num(s), num(s));
    if x as u128 * (y as u128 + 2) <= u64::MAX as u128 {
        return mini(x, y, x * (y as u128 + 2) as u64);
    }
    let (x, y) = (x >> 33, (y >> 33).saturating_sub(2));
    mini(x, y, x * (y + 2))
}
fn word(s: &mut Src) -> String {
    let n = match s.below(4) {
        0 => *s.pick(&[1usize, 2, 31, 32, 33, 47, 48, 63, 64, 65, 96]),
        _ => s.range(1, 80),
    };
    // not at the front: no option is mistaken for it, and no byte is zero
    (0..n).map(|i| if i > 0 && s.below(20) == 0 { 'é' } else { (b'!' + s.below(90) as u8) as char }).collect()
}
fn hash(w: &str) -> Claim {
    let h: Fr = mimc::hash(w.as_bytes());
    Claim { args: vec![w.to_string()], value: h, param: hex(&ser(&h)) }
}
fn flow(s: &mut Src, circuit: &'static str, weights: [usize; 4], alterations: usize) -> R {
    let scheme = SCHEMES[s.weighted(&weights)];
    let d = Dir::new();
    let draw = |s: &mut Src| if circuit == "mini" { true_mini(s) } else { hash(&word(s)) };
    let c = draw(s);
    s.note(format!("{} {} {:?}", scheme, circuit, c.args));
    s.label(scheme);
    let setup = |d: &Dir| -> R {
        if scheme != "bulletproofs" {
            let (ok, out) = tool(d, "setup", &[scheme, "bls12_381", circuit]);
            ensure!(ok, "setup", "setup fails: {}", out);
        }
        Ok(())
    };
    setup(&d)?;
    let file = d.proof_file(scheme, circuit);
    let prove = |c: &Claim| -> Result<Value, Fail> {
        let mut a = vec![scheme, "bls12_381", circuit];
        a.extend(c.args.iter().map(|x| x.as_str()));
        let (ok, out) = tool(&d, "prove", &a);
        ensure!(ok, "prove", "a true claim is not proved: {}", out.chars().take(600).collect::<String>());
        let t = std::fs::read_to_string(&file).map_err(|e| Fail { sig: "no-file".into(), msg: e.to_string() })?;
        let j: Value = serde_json::from_str(&t).map_err(|e| Fail { sig: "bad-file".into(), msg: e.to_string() })?;
        ensure!(
            j["scheme"] == scheme && j["curve"] == "bls12_381" && j["circuit"] == circuit && j["params"] == json!([c.param]),
            "claim",
            "the file states {} {} {} {}",
            j["scheme"],
            j["curve"],
            j["circuit"],
            j["params"]
        );
        Ok(j)
    };
    let j = prove(&c)?;
    ensure!(verify(&d, &file), "rejected", "a proof of a true claim is not valid");
    let sf = d.setup_file(scheme, circuit);
    let key = std::fs::read(&sf).unwrap_or_default();
    let proof = unhex(j["proof"].as_str().unwrap_or("")).unwrap_or_default();
    let lib = library(scheme, &key, &proof, c.value);
    ensure!(matches!(lib, Some((true, ..))), "library", "the library refuses what the tool accepts");
    let (_, key_id, proof_id) = lib.unwrap();
    s.nontrivial();
    let alt = d.0.join("altered.json");
    for _ in 0..alterations {
        let (mut j2, mut key2, mut proof2, mut x2) = (j.clone(), key.clone(), proof.clone(), c.value);
        let mut foreign = false;
        let what = match s.below(8) {
            0 | 1 => {
                // another claim
                if circuit == "mini" {
                    let z = c.param.parse::<u64>().unwrap();
                    let w = match s.below(4) {
                        0 => z.wrapping_add(1),
                        1 => z.wrapping_sub(1),
                        2 => z ^ (1 << s.below(64)),
                        _ => num(s),
                    };
                    x2 = Fr::from(w);
                    j2["params"] = json!([w.to_string()]);
                } else {
                    x2 = match s.below(4) {
                        0 => c.value + Fr::from(1u64),
                        1 => -c.value,
                        2 => hash(&word(s)).value,
                        _ => Fr::rand(&mut s.rng()),
                    };
                    j2["params"] = json!([hex(&ser(&x2))]);
                }
                "claim"
            }
            2 | 3 => {
                let i = s.below(proof2.len());
                proof2[i] ^= 1 << s.below(8);
                "proof bit"
            }
            4 => {
                match s.below(4) {
                    0 => proof2.truncate(s.below(proof.len())),
                    1 => proof2.iter_mut().for_each(|x| *x = 0),
                    2 => {
                        let (i, n) = (s.below(proof2.len()), s.range(1, 64));
                        proof2.iter_mut().skip(i).take(n).for_each(|x| *x = s.u64() as u8);
                    }
                    _ => {
                        let i = s.below(proof2.len());
                        proof2.drain(i..(i + 48).min(proof.len()));
                    }
                }
                "proof bytes"
            }
            5 => {
                // a proof of another claim under the same key
                let o = draw(s);
                if o.value == c.value {
                    continue;
                }
                let k = prove(&o)?;
                proof2 = unhex(k["proof"].as_str().unwrap_or("")).unwrap_or_default();
                foreign = true;
                "foreign proof"
            }
            6 => {
                let (f, v): (&str, &str) = match s.below(3) {
                    0 => ("circuit", if circuit == "mini" { "hash" } else { "mini" }),
                    1 => ("scheme", *s.pick(&SCHEMES)),
                    _ => ("curve", *s.pick(&["curve25519", "bn_256", ""])),
                };
                if j[f] == v {
                    continue;
                }
                j2[f] = json!(v);
                foreign = true;
                "header"
            }
            _ if scheme == "bulletproofs" => continue,
            _ => {
                if s.bool() {
                    let d2 = Dir::new();
                    setup(&d2)?;
                    key2 = std::fs::read(d2.setup_file(scheme, circuit)).unwrap_or_default();
                    "other setup"
                } else {
                    let i = s.below(key2.len());
                    key2[i] ^= 1 << s.below(8);
                    "setup bit"
                }
            }
        };
        s.label(what);
        j2["proof"] = json!(hex(&proof2));
        std::fs::write(&alt, j2.to_string()).unwrap();
        if key2 != key {
            std::fs::write(&sf, &key2).unwrap();
        }
        let v = verify(&d, &alt);
        if key2 != key {
            std::fs::write(&sf, &key).unwrap();
        }
        if foreign {
            ensure!(!v, "accepted", "an altered file is valid: {} {}", what, j2["params"]);
            continue;
        }
        let l = library(scheme, &key2, &proof2, x2);
        // some bits of an encoding carry no meaning
        let same = x2 == c.value && matches!(&l, Some((_, k, p)) if *k == key_id && *p == proof_id);
        if same {
            s.label("same meaning");
        }
        // the generators and the circuit are in a Bulletproofs file
        if v && !same && scheme == "bulletproofs" && x2 == c.value {
            let tail = |b: &[u8]| de::<(zkp_bulletproofs::Generators<E>, zkp_bulletproofs::R1csCircuit<E>, zkp_bulletproofs::Proof<E>)>(b).map(|t| ser(&t.2));
            ensure!(tail(&proof2) != tail(&proof), "own-circuit", "a file with another circuit is valid");
        }
        ensure!(!v || same, "accepted", "an altered file is valid: {} {}", what, j2["params"]);
        ensure!(v == matches!(l, Some((true, ..))), "disagree", "tool and library disagree: {}", what);
    }
    // the unaltered file is still valid, wherever it is
    if circuit == "mini" && s.below(4) == 0 {
        std::fs::write(&alt, j.to_string()).unwrap();
        ensure!(verify(&d, &alt), "copy", "a copy of the file is not valid");
    }
    Ok(())
}
fn false_mini(s: &mut Src) -> R {
    let scheme = SCHEMES[s.weighted(&[6, 6, 1, 5])];
    let (x, y) = (num(s), num(s));
    let p = x.wrapping_mul(y.wrapping_add(2));
    let z = match s.below(8) {
        0 => p,
        1 => p.wrapping_add(1),
        2 => p.wrapping_sub(1),
        3 => x.wrapping_mul(y),
        4 => x.wrapping_mul(y).wrapping_add(2),
        5 => x.wrapping_add(y).wrapping_add(2),
        6 => *s.pick(&[0, 1, x, y]),
        _ => num(s),
    };
    s.note(format!("{} {} {} {}", scheme, x, y, z));
    if holds(x, y, z) {
        s.label("true");
        return Ok(());
    }
    s.nontrivial();
    s.label(scheme);
    let d = Dir::new();
    if scheme != "bulletproofs" {
        let (ok, out) = tool(&d, "setup", &[scheme, "bls12_381", "mini"]);
        ensure!(ok, "setup", "setup fails: {}", out);
    }
    let c = mini(x, y, z);
    let mut a = vec![scheme, "bls12_381", "mini"];
    a.extend(c.args.iter().map(|x| x.as_str()));
    let (ok, _) = tool(&d, "prove", &a);
    let file = d.proof_file(scheme, "mini");
    s.label(if ok && file.exists() { "proved" } else { "not proved" });
    if file.exists() {
        ensure!(!verify(&d, &file), "accepted", "{} * ({} + 2) = {} is valid", x, y, z);
    }
    Ok(())
}
/// A circuit that lets any claim pass.
struct Free(Fr);
impl ConstraintSynthesizer<Fr> for Free {
    fn generate_constraints<CS: ConstraintSystem<Fr>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let a = cs.alloc(|| "", || Ok(Fr::zero()))?;
        let z = self.0;
        let _ = cs.alloc_input(|| "", || Ok(z))?;
        cs.enforce(|| "", |l| l + a, |l| l + a, |l| l + a);
        Ok(())
    }
}
/// a file that brings a circuit of its own
fn own_circuit(s: &mut Src) -> R {
    let z = num(s);
    let d = Dir::new();
    let (g, r, p) = zkp_bulletproofs::create_random_proof::<E, _, _>(Free(Fr::from(z)), &mut s.rng()).map_err(|e| Fail { sig: "forge".into(), msg: format!("{:?}", e) })?;
    let j = json!({"circuit": "mini", "scheme": "bulletproofs", "curve": "bls12_381", "params": [z.to_string()], "proof": hex(&[ser(&g), ser(&r), ser(&p)].concat())});
    let f = d.0.join("forged.json");
    std::fs::write(&f, j.to_string()).unwrap();
    s.note(format!("z = {}", z));
    s.nontrivial();
    ensure!(!verify(&d, &f), "own-circuit", "a file made for a circuit without conditions is valid for z = {}", z);
    Ok(())
}
fn main() {
    let _ = Fr::size_in_bits();
    vharness::main(
        "P33",
        "A case is one scheme, circuit and claim taken through the tools in a directory of its own, with altered copies of its file; or one false claim; or one forged file. Non-trivial: the honest file was valid, or the claim is false.",
        vec![
            sub("mini", 160, 6000, |s| flow(s, "mini", [6, 5, 2, 5], 5)),
            sub("hash", 24, 600, |s| flow(s, "hash", [6, 0, 0, 6], 4)),
            sub("hash-large", 2, 40, |s| flow(s, "hash", [0, 1, 1, 0], 1)),
            sub("false", 120, 6000, false_mini),
            sub("bulletproofs", 4, 100, own_circuit),
        ],
    )
}
