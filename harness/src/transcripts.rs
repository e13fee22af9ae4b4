//! How challenges follow from the transcript, for every non-interactive system (P20, and the
//! "transcript" parts of the soundness checks).
#![allow(unused_imports, dead_code)]
use crate::bound::weight;
use crate::circ::*;
use crate::fs::*;
use crate::gkr::*;
#[cfg(feature = "plonk")]
use crate::plonk as pk;
#[cfg(feature = "marlin")]
use crate::schemes::marlin::{Marlin, MK, VK};
#[cfg(feature = "spartan")]
use crate::schemes::spartan::{Nizk, Sn, NK, SK};
use crate::schemes::*;
use crate::tree::*;
use crate::*;
use ark_bls12_381::{Bls12_381, Fr};
use ark_ff::{One, Zero};
use merlin::recorder::Ev;
use std::collections::{BTreeMap, HashMap};
#[cfg(feature = "curve")]
use zkp_curve::Curve;

pub const ZKL: &str = "{comm_witness:[g],proofs:[{one:{cp:[g],ce:[g],pr:[{d:g,cd:g,z:[f],zd:f,zb:f}]},two:{cp:[g],ce:[g],pr:[{d:g,cd:g,z:[f],zd:f,zb:f}]},x:g,y:g,z:g,prod:{a:g,b:g,d:g,z:[f]},eq:{a:g,z:f}}],prod_proof0:{l:[g],r:[g],delta:g,beta:g,z1:f,z2:f},comm_y0:g,eq_proof0:{a:g,z:f},prod_proof1:{l:[g],r:[g],delta:g,beta:g,z1:f,z2:f},comm_y1:g,eq_proof1:{a:g,z:f}}";
pub const PLAIN: &str = "[{one:{p:[[f]],v:[f]},two:{p:[[f]],v:[f]}}]";
pub const HYR: &str = "{comm_witness:[g],proofs:[{prod:{a:g,b:g,d:g,z:[f]},a0:g,c:g,x:g,y:g,z:g,comm_polys:[g],comm_evals:[g],comm_deltas:[g],z_vec:[f],z_delta_vec:[f],zc:f}],prod_proof0:{l:[g],r:[g],delta:g,beta:g,z1:f,z2:f},comm_y0:g,eq_proof0:{a:g,z:f},prod_proof1:{l:[g],r:[g],delta:g,beta:g,z1:f,z2:f},comm_y1:g,eq_proof1:{a:g,z:f}}";
pub const BP: &str = "{A_I:g,A_O:g,A_W:g,S:g,T_2:g,T_3:g,T_5:g,T_6:g,T_7:g,T_8:g,T_9:g,T_10:g,mu:f,tau_x:f,l_x:[f],r_x:[f],t_x:f,IPP:{L:[g],R:[g],a:f,b:f},P:g}";

/// what was observed of one run
#[derive(Clone, Default)]
pub struct Log {
    chs: Vec<Vec<u8>>,
    evs: Vec<Ev>,
}
pub fn mer(f: &mut dyn FnMut()) -> Log {
    let (_, evs) = record_quiet(f);
    Log { chs: challenges(&evs).into_iter().map(|x| x.2).collect(), evs }
}
/// the seeds challenges are drawn from (Marlin, Plonk), runs of the same seed merged
pub fn cha(f: &mut dyn FnMut()) -> Log {
    rand_chacha::recorder::start();
    let _ = quiet(f);
    Log { chs: rand_chacha::recorder::take().into_iter().map(|x| x.to_vec()).collect(), evs: vec![] }
}
/// The order of a protocol: which messages are sent before which challenge. Messages that are left
/// out are the closing responses of a sub-proof, pinned down by its own last challenge, and points
/// the verifier derives itself.
#[derive(Default)]
pub struct Script {
    need: HashMap<String, usize>,
    n: usize,
    paths: Vec<String>,
    t: Option<Node>,
}
impl Script {
    fn new(t: &Node) -> Script {
        Script { paths: t.leaves().into_iter().map(|l| l.0).collect(), t: Some(t.clone()), ..Default::default() }
    }
    /// every leaf at or below the path is sent now
    fn m(&mut self, p: &str) {
        let n = self.n;
        for q in &self.paths {
            if q.starts_with(p) && q[p.len()..].chars().next().map(|c| "[.?".contains(c)).unwrap_or(true) {
                self.need.insert(q.clone(), n);
            }
        }
    }
    fn ms(&mut self, p: &[&str]) {
        p.iter().for_each(|x| self.m(x))
    }
    fn c(&mut self, k: usize) {
        self.n += k
    }
    /// length of the list at the path
    fn len(&self, p: &str) -> usize {
        match self.t.as_ref().unwrap().at(&p.replace('[', ".").replace(']', "")) {
            Node::List(_, v) => v.len(),
            _ => 0,
        }
    }
    fn dot(&mut self, p: &str) {
        for i in 0..self.len(&format!("{}.l", p)) {
            self.m(&format!("{}.l[{}]", p, i));
            self.m(&format!("{}.r[{}]", p, i));
            self.c(1);
        }
        self.m(&format!("{}.delta", p));
        self.m(&format!("{}.beta", p));
        self.c(1);
    }
    fn zk_sumcheck(&mut self, p: &str) {
        for i in 0..self.len(&format!("{}.cp", p)) {
            self.m(&format!("{}.cp[{}]", p, i));
            self.c(1);
            self.m(&format!("{}.ce[{}]", p, i));
            self.c(2);
            self.m(&format!("{}.pr[{}].d", p, i));
            self.m(&format!("{}.pr[{}].cd", p, i));
            self.c(1);
        }
    }
    fn two_evals(&mut self) {
        for i in 0..2 {
            self.m(&format!(".comm_y{}", i));
            self.dot(&format!(".prod_proof{}", i));
            self.m(&format!(".eq_proof{}.a", i));
            self.c(1);
        }
    }
    fn spartan_sat(&mut self) {
        self.m(".sat.commit_witness");
        self.c(self.len(".sat.one.cp"));
        self.zk_sumcheck(".sat.one");
        self.ms(&[".sat.kpc.vc", ".sat.kpp.kt"]);
        self.c(1);
        self.ms(&[".sat.kpc.va", ".sat.kpc.vb", ".sat.kpc.prod", ".sat.kpp.pa", ".sat.kpp.pb", ".sat.kpp.pd"]);
        self.c(1);
        self.m(".sat.eq1a");
        self.c(4);
        self.zk_sumcheck(".sat.two");
        self.m(".sat.commit_ry");
        self.dot(".sat.prod");
        self.m(".sat.eq2a");
    }
    fn layers(&mut self, p: &str, prods: usize, dots: usize) {
        let n = self.len(&format!("{}.layers", p));
        for k in 0..n {
            self.c(prods + if k + 1 == n { dots } else { 0 });
            for j in 0..self.len(&format!("{}.layers[{}].polys", p, k)) {
                self.m(&format!("{}.layers[{}].polys[{}]", p, k, j));
                self.c(1);
            }
            self.m(&format!("{}.layers[{}].left", p, k));
            self.m(&format!("{}.layers[{}].right", p, k));
            if k + 1 == n {
                for d in &["dr", "dc", "dv"] {
                    self.m(&format!("{}.{}", p, d));
                }
            }
            self.c(1);
        }
    }
}
pub fn nizk_script(t: &Node) -> Script {
    let mut s = Script::new(t);
    s.spartan_sat();
    s.c(1);
    s
}
pub fn snark_script(t: &Node) -> Script {
    let mut s = Script::new(t);
    s.spartan_sat();
    s.ms(&[".ea", ".eb", ".ec"]);
    s.c(1);
    s.m(".derefs");
    s.c(2);
    s.ms(&[".row", ".col", ".dl", ".dr"]);
    s.layers(".po", 12, 6);
    s.layers(".pm", 4, 0);
    s.ms(&[".edr", ".edc"]);
    s.c(3);
    s.dot(".hd");
    s.ms(&[".er.a", ".er.t", ".ec2.a", ".ec2.t", ".ev"]);
    s.c(4);
    s.dot(".ho");
    s.ms(&[".er.u", ".ec2.u"]);
    s.c(1);
    s.dot(".hm");
    s
}
pub fn libra_script(t: &Node, out_bits: usize) -> Script {
    let mut s = Script::new(t);
    s.m(".comm_witness");
    s.c(out_bits);
    let n = s.len(".proofs");
    for k in 0..n {
        let p = |x: &str| format!(".proofs[{}]{}", k, x);
        s.zk_sumcheck(&p(".one"));
        s.m(&p(".x"));
        s.zk_sumcheck(&p(".two"));
        for x in &[".y", ".z", ".prod.a", ".prod.b", ".prod.d"] {
            s.m(&p(x));
        }
        s.c(1);
        s.m(&p(".eq.a"));
        s.c(1);
        if k + 1 < n {
            s.c(2);
        }
    }
    s.two_evals();
    s
}
pub fn plain_script(t: &Node, out_bits: usize) -> Script {
    let mut s = Script::new(t);
    s.c(out_bits);
    let n = s.len("");
    for k in 0..n {
        for ph in &["one", "two"] {
            for j in 0..s.len(&format!("[{}].{}.p", k, ph)) {
                s.m(&format!("[{}].{}.p[{}]", k, ph, j));
                s.c(1);
            }
            // the value claimed after the first phase (the second one's is derived)
            s.m(&format!("[{}].{}.v", k, ph));
        }
        if k + 1 < n {
            s.c(2);
        }
    }
    s
}
pub fn hyrax_script(t: &Node, bits: usize) -> Script {
    let mut s = Script::new(t);
    s.m(".comm_witness");
    s.c(bits);
    let n = s.len(".proofs");
    for k in 0..n {
        let p = |x: &str| format!(".proofs[{}]{}", k, x);
        let r = s.len(&p(".comm_polys"));
        for j in 0..r {
            s.m(&p(&format!(".comm_polys[{}]", j)));
            s.c(1);
            s.m(&p(&format!(".comm_evals[{}]", j)));
        }
        for x in &[".x", ".y", ".z", ".prod.a", ".prod.b", ".prod.d"] {
            s.m(&p(x));
        }
        s.c(1);
        s.m(&p(".comm_deltas"));
        s.c(r + 1);
        s.m(&p(".c"));
        s.c(1);
        if k + 1 < n {
            s.c(2);
        }
    }
    s.two_evals();
    s
}
pub fn bp_script(t: &Node) -> Script {
    let mut s = Script::new(t);
    s.ms(&[".A_I", ".A_O", ".A_W", ".S"]);
    s.c(2);
    s.ms(&[".T_2", ".T_3", ".T_5", ".T_6", ".T_7", ".T_8", ".T_9", ".T_10"]);
    s.c(1);
    s.ms(&[".mu", ".tau_x", ".l_x", ".r_x", ".t_x"]);
    s.c(1);
    for j in 0..s.len(".IPP.L") {
        s.m(&format!(".IPP.L[{}]", j));
        s.m(&format!(".IPP.R[{}]", j));
        s.c(1);
    }
    s
}
pub fn rounds_script(t: &Node, comms: &str, evals: &str, openings: Option<&str>) -> Script {
    let mut s = Script::new(t);
    for i in 0..3 {
        s.m(&format!("{}[{}]", comms, i));
        s.c(1);
    }
    s.m(evals);
    s.c(1);
    if let Some(o) = openings {
        s.m(o);
        s.c(1);
    }
    s
}

pub struct Sys<'a> {
    schema: &'a str,
    ops: Ops,
    proof: Vec<u8>,
    prover: Log,
    verify: Box<dyn Fn(&[u8]) -> Log + 'a>,
    script: &'a dyn Fn(&Node) -> Script,
    /// the form in which points are absorbed
    tb: fn(&[u8]) -> Vec<u8>,
    late: &'a [&'a str],
    /// the verifier's view of the same proof under another statement
    others: Vec<(&'static str, Log)>,
}
pub fn tb<A: ark_ec::AffineCurve>(b: &[u8]) -> Vec<u8> {
    de::<A>(b).map(|x| ark_ff::to_bytes!(x).unwrap()).unwrap_or_default()
}
/// one merlin transcript, never forked or restarted: replaying the log on a fresh one gives the same challenges
pub fn linear(who: &str, l: &Log) -> R {
    if l.evs.is_empty() {
        return Ok(());
    }
    ensure!(matches!(&l.evs[0], Ev::Absorb(k, _) if *k == b"dom-sep"), "fork", "{}: the run does not start with its transcript", who);
    let mut t = rebuild(&l.evs[..1]);
    for e in &l.evs[1..] {
        match e {
            Ev::Absorb(k, m) => t.append_message(k, m),
            Ev::Challenge(k, m) => {
                let mut b = vec![0u8; m.len()];
                t.challenge_bytes(k, &mut b);
                ensure!(b == *m, "fork", "{}: a challenge does not follow from all that was absorbed before it", who);
            }
        }
    }
    Ok(())
}
pub fn absorbed_before(l: &Log, i: usize, b: &[u8]) -> bool {
    let mut k = 0;
    for e in &l.evs {
        match e {
            Ev::Absorb(_, m) => {
                if m.windows(b.len()).any(|w| w == b) {
                    return true;
                }
            }
            Ev::Challenge(..) => {
                if k == i {
                    return false;
                }
                k += 1
            }
        }
    }
    false
}
pub fn check(s: &mut Src, y: &Sys) -> R {
    let h = (y.verify)(&y.proof);
    let n = h.chs.len();
    ensure!(n > 0, "no-challenge", "the verifier draws no challenge");
    ensure!(h.chs[..y.prover.chs.len().min(n)] == y.prover.chs[..y.prover.chs.len().min(n)] && y.prover.chs.len() <= n, "disagree", "prover and verifier draw different challenges");
    linear("verifier", &h)?;
    linear("prover", &y.prover)?;
    for i in 0..n {
        for j in 0..i {
            ensure!(h.chs[i] != h.chs[j], "repeated", "challenges {} and {} are the same", j, i);
        }
    }
    let t = Ty::p(y.schema).parse(&y.proof, &y.ops)?;
    let sc = (y.script)(&t);
    ensure!(sc.n == n, "count", "{} challenges instead of {}", n, sc.n);
    for (what, o) in &y.others {
        s.label(format!("statement: {}", what));
        for i in 0..n.min(o.chs.len()) {
            ensure!(o.chs[i] != h.chs[i], "statement", "challenge {} does not depend on the statement ({})", i, what);
        }
    }
    let lv = t.leaves();
    let needed: Vec<usize> = (0..lv.len()).filter(|i| sc.need.contains_key(&lv[*i].0)).collect();
    if !h.evs.is_empty() {
        // in the honest run every message is absorbed as such, too
        for &k in &needed {
            let (p, c, b) = &lv[k];
            let raw = if *c == 'g' { (y.tb)(b) } else { b.clone() };
            // (the evaluations of the matrices enter one challenge earlier through a derived point)
            let i = sc.need[p] + if y.late.contains(&p.as_str()) { 1 } else { 0 };
            ensure!(absorbed_before(&h, i, &raw), "absent", "{} is sent before challenge {} but not absorbed", p, i);
        }
    }
    for _ in 0..needed.len().min(10) {
        let k = *s.pick(&needed);
        let (p, c, b) = &lv[k];
        let nb = match c {
            'f' => (y.ops.mf)(b, s),
            'g' => (y.ops.mg)(b, s),
            _ => continue,
        };
        if nb == *b {
            continue;
        }
        let i = sc.need[p];
        let mut m = t.clone();
        m.set_leaf(k, nb);
        let g = (y.verify)(&m.ser());
        let name: String = p.chars().filter(|c| !c.is_ascii_digit()).collect();
        let seen = n.min(g.chs.len());
        match (0..seen).find(|j| g.chs[*j] != h.chs[*j]) {
            Some(f) => {
                ensure!(f <= i, "late", "{} is sent before challenge {} but first changes challenge {}", p, i, f);
                for j in f..seen {
                    ensure!(g.chs[j] != h.chs[j], "lost", "{} changes challenge {} but not the later challenge {}", p, f, j);
                }
                s.label(name);
            }
            None if seen > i => return fail("absent", format!("{} is sent before challenge {} but changes no challenge up to {}", p, i, seen - 1)),
            None if *c == 'f' && !h.evs.is_empty() => {
                ensure!(absorbed_before(&h, i, b), "absent", "{} is sent before challenge {} but not absorbed", p, i);
                s.label(format!("{} (absorbed)", name));
            }
            None => s.label(format!("{} unobserved", name)),
        }
    }
    // the same scalars and points in lists of other lengths
    if let Some((m, what)) = t.regroup(s) {
        let g = (y.verify)(&m.ser());
        ensure!(g.chs != h.chs, "framing", "the same challenges for {}", what);
        s.label("regrouped");
    }
    Ok(())
}

pub fn fe<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, Fail> {
    r.map_err(|e| Fail { sig: "prove-error".into(), msg: format!("{:?}", e) })
}
pub fn some<T>(r: Option<T>) -> Result<T, Fail> {
    r.ok_or(Fail { sig: "prove-error".into(), msg: "no proof".into() })
}
pub fn opts() -> Opts {
    Opts { min_pub: 0, max_pub: 4, max_aux: 6, max_con: 6, min_con: 1, min_aux: 0, ..Opts::default() }
}
pub type Rec = fn(&mut dyn FnMut()) -> Log;
/// a system behind the common interface; `other` makes the verifier's view under other statements
pub fn snark<S: Snark>(s: &mut Src, c: &Circ<S::F>, rec: Rec, script: &dyn Fn(&Node) -> Script, pt: fn(&[u8]) -> Vec<u8>, other: &dyn Fn(&mut Src, &S::K, &[u8]) -> Vec<(&'static str, Log)>) -> R {
    let mut rng = s.rng();
    let k = setup::<S>(c, &mut rng)?;
    let mut p = None;
    let prover = rec(&mut || p = Some(prove::<S>(&k, c, &mut rng)));
    let p = some(p)??;
    let v = |b: &[u8], x: &[S::F]| {
        rec(&mut || {
            let _ = S::verify(&k, b, x);
        })
    };
    weight(s, 8, &|| S::accepts(&k, &p, &c.pubs))?;
    let mut others = other(s, &k, &p);
    for i in 0..c.pubs.len() {
        let mut x = c.pubs.clone();
        x[i] += delta::<S::F>(s);
        others.push(("public value", v(&p, &x)));
    }
    if c.pubs.len() > 1 {
        let mut x = c.pubs.clone();
        x.swap(0, 1);
        if x != c.pubs {
            others.push(("public values exchanged", v(&p, &x)));
        }
    }
    let y = Sys { schema: S::schema(), ops: S::ops(), proof: p, prover, verify: Box::new(|b| v(b, &c.pubs)), tb: pt, late: &[".ea", ".eb", ".ec"], script, others };
    check(s, &y)
}
pub fn delta<F: ark_ff::PrimeField>(s: &mut Src) -> F {
    let x = F::rand(&mut s.rng());
    if x.is_zero() {
        F::one()
    } else {
        x
    }
}
#[cfg(feature = "spartan")]
pub fn nizk<G: Curve>(s: &mut Src) -> R {
    let c: Circ<G::Fr> = gen_circ(s, &opts());
    snark::<Nizk<G>>(s, &c, mer, &nizk_script, tb::<G::Affine>, &|s, k, p| {
        let d = delta::<G::Fr>(s);
        let v = |a, b| {
            mer(&mut || {
                let _ = zkp_spartan::nizk::verify_proof(&k.vk, &de(p).unwrap(), &c.pubs, a, b);
            })
        };
        vec![("circuit digest", v(k.h.0 + d, k.h.1)), ("parameter digest", v(k.h.0, k.h.1 + d))]
    })
}
#[cfg(feature = "spartan")]
pub fn snk<G: Curve>(s: &mut Src) -> R {
    let c: Circ<G::Fr> = gen_circ(s, &Opts { max_pub: 2, max_aux: 3, max_con: 3, ..opts() });
    snark::<Sn<G>>(s, &c, mer, &snark_script, tb::<G::Affine>, &|s, k, p| {
        let d = delta::<G::Fr>(s);
        let v = |a, b, e| {
            mer(&mut || {
                let _ = zkp_spartan::snark::verify_proof(&k.vk, &de(p).unwrap(), &c.pubs, a, b, e);
            })
        };
        vec![("circuit digest", v(k.h.0 + d, k.h.1, k.h.2)), ("parameter digest", v(k.h.0, k.h.1 + d, k.h.2)), ("encoding digest", v(k.h.0, k.h.1, k.h.2 + d))]
    })
}
#[cfg(feature = "marlin")]
pub fn marlin(s: &mut Src) -> R {
    type E = Bls12_381;
    let c: Circ<Fr> = gen_circ(s, &opts());
    snark::<Marlin<E>>(s, &c, cha, &|t| rounds_script(t, ".comms", ".evals", None), tb::<ark_bls12_381::G1Affine>, &|s, k, p| {
        let o = ops2::<ark_bls12_381::G1Affine, ark_bls12_381::G2Affine>();
        let mut l = vec![];
        if let Ok(t) = Ty::p(VK).parse(&ser(&k.vk), &o) {
            let lv = t.leaves();
            for _ in 0..4 {
                let i = s.below(lv.len());
                // (the polynomial commitment's key is not part of the statement)
                if lv[i].1 == 'g' && lv[i].0.starts_with(".comms") {
                    let mut m = t.clone();
                    m.set_leaf(i, (o.mg)(&lv[i].2, s));
                    if m == t {
                        continue;
                    }
                    if let Some(vk) = de(&m.ser()) {
                        l.push(("index commitment", cha(&mut || {
                            let _ = zkp_marlin::verify_proof::<E>(&vk, &de(p).unwrap(), &c.pubs);
                        })));
                    }
                }
            }
        }
        l
    })
}
#[cfg(feature = "plonk")]
pub fn plonk(s: &mut Src) -> R {
    let p = pk::gen_prog(s, 1, 7);
    let ks = pk::gen_ks(s);
    let (k, vk) = pk::keys(s, &p, ks)?;
    let cs = p.build();
    let mut rng = s.rng();
    let mut pr = None;
    let prover = cha(&mut || pr = Some(pk::Plonk::prove(&k, &cs, &mut rng)));
    let pr = ser(&fe(some(pr)?)?);
    let x = cs.public_inputs().to_vec();
    let v = |vk: &pk::VK, x: &[Fr], b: &[u8]| {
        cha(&mut || {
            let _ = pk::Plonk::verify(vk, x, de(b).unwrap());
        })
    };
    weight(s, 8, &|| matches!(pk::Plonk::verify(&vk, &x, de(&pr).unwrap()), Ok(true)))?;
    let mut others = vec![];
    for _ in 0..2 {
        if x.is_empty() {
            break;
        }
        let mut y = x.clone();
        let i = s.below(y.len());
        y[i] += delta::<Fr>(s);
        others.push(("public value", v(&vk, &y, &pr)));
    }
    let mut q = p.clone();
    let n = q.ops.len();
    let d = delta::<Fr>(s);
    if n > 0 {
        let j = s.below(n);
        let mut c = q.ops[j].coeffs();
        if !c.is_empty() {
            let j = s.below(c.len());
            *c[j].1 += d;
        }
    }
    if q.ops != p.ops {
        if let Ok((_, w)) = pk::keys(s, &q, ks) {
            if ser(&w) != ser(&vk) {
                others.push(("selector", v(&w, &x, &pr)));
            }
        }
    }
    let y = Sys { schema: pk::PROOF, ops: pk::proof_ops(), proof: pr, prover, verify: Box::new(|b| v(&vk, &x, b)), tb: tb::<ark_bls12_381::G1Affine>, late: &[], script: &|t| rounds_script(t, ".c", ".e", Some(".o")), others };
    check(s, &y)
}
#[cfg(feature = "bulletproofs")]
pub fn bulletproofs<G: Curve>(s: &mut Src) -> R {
    use zkp_bulletproofs::*;
    const GENS: &str = "{gv:[g],hv:[g],g:g,h:g,u:g,n:u,N:u,k:u,n_w:u}";
    let c: Circ<G::Fr> = gen_circ(s, &opts());
    let mut rng = s.rng();
    let mut x = None;
    let prover = mer(&mut || x = Some(create_random_proof::<G, _, _>(c.clone(), &mut rng)));
    let (g, r, p) = fe(some(x)?)?;
    let p = ser(&p);
    weight(s, 8, &|| matches!(verify_proof(&g, &de::<Proof<G>>(&p).unwrap(), &r, &c.pubs), Ok(true)))?;
    let o = ops::<G::Affine>();
    let v = |g: &Generators<G>, r: &R1csCircuit<G>, x: &[G::Fr], b: &[u8]| {
        mer(&mut || {
            let _ = verify_proof(g, &de::<Proof<G>>(b).unwrap(), r, x);
        })
    };
    let mut others = vec![];
    for i in 0..c.pubs.len() {
        let mut x = c.pubs.clone();
        x[i] += delta::<G::Fr>(s);
        others.push(("public value", v(&g, &r, &x, &p)));
    }
    let t = Ty::p(GENS).parse(&ser(&g), &o)?;
    let lv: Vec<_> = t.leaves().into_iter().enumerate().filter(|l| l.1 .1 == 'g').collect();
    for _ in 0..2 {
        let (i, l) = s.pick(&lv);
        let mut m = t.clone();
        m.set_leaf(*i, (o.mg)(&l.2, s));
        if m != t {
            if let Some(g2) = de::<Generators<G>>(&m.ser()) {
                others.push(("generator", v(&g2, &r, &c.pubs, &p)));
            }
        }
    }
    // the same circuit with one other coefficient
    let mut c2 = c.clone();
    let k = s.below(c2.cons.len());
    let side = s.below(3);
    {
        let q = &mut c2.cons[k];
        let l = match side {
            0 => &mut q.0,
            1 => &mut q.1,
            _ => &mut q.2,
        };
        match l.last_mut() {
            Some(t) => t.1 += delta::<G::Fr>(s),
            None => l.push((V::One, G::Fr::one())),
        }
    }
    let q = quiet(|| create_random_proof::<G, _, _>(c2.clone(), &mut rng).ok().map(|x| x.1));
    if let Ok(Some(r2)) = q {
        others.push(("coefficient", v(&g, &r2, &c.pubs, &p)));
    }
    let y = Sys { schema: BP, ops: o, proof: p, prover, verify: Box::new(|b| v(&g, &r, &c.pubs, b)), tb: tb::<G::Affine>, late: &[], script: &bp_script, others };
    check(s, &y)
}
pub fn layered(s: &mut Src) -> Raw {
    gen_raw(s, 3, 6, false)
}
pub fn bits(n: usize) -> usize {
    n.next_power_of_two().trailing_zeros() as usize
}
pub fn wrong<F: ark_ff::PrimeField>(s: &mut Src, v: &[F]) -> Option<Vec<F>> {
    if v.is_empty() {
        return None;
    }
    let mut w = v.to_vec();
    let i = s.below(w.len());
    w[i] += delta::<F>(s);
    Some(w)
}
#[cfg(feature = "libra")]
pub fn ser_plain<G: Curve>(p: &zkp_libra::libra_linear_gkr::LinearGKRProof<G>) -> Vec<u8> {
    let mut v = (p.proofs.len() as u64).to_le_bytes().to_vec();
    for l in &p.proofs {
        v.extend(ser(&l.proof_phase_one));
        v.extend(ser(&l.proof_phase_two));
    }
    v
}
#[cfg(feature = "libra")]
pub fn de_plain<G: Curve>(b: &[u8]) -> zkp_libra::libra_linear_gkr::LinearGKRProof<G> {
    use ark_serialize::CanonicalDeserialize;
    use zkp_libra::libra_linear_gkr::*;
    use zkp_libra::sumcheck::SumCheckProof;
    let mut r = &b[8..];
    let n = u64::from_le_bytes(b[..8].try_into().unwrap());
    let proofs = (0..n)
        .map(|_| LayerProof { proof_phase_one: SumCheckProof::deserialize(&mut r).unwrap(), proof_phase_two: SumCheckProof::deserialize(&mut r).unwrap() })
        .collect();
    LinearGKRProof { proofs }
}
#[cfg(feature = "libra")]
pub fn libra_plain<G: Curve>(s: &mut Src) -> R {
    use zkp_libra::circuit::Circuit;
    use zkp_libra::libra_linear_gkr::*;
    let r = layered(s);
    let (i, a) = (gen_vals::<G::Fr>(s, r.ni), gen_vals(s, r.na));
    let c = Circuit::new(r.ni, r.na, &r.layers);
    let h = c.circuit_to_hash::<G>();
    let mut x = None;
    let prover = mer(&mut || x = Some(LinearGKRProof::<G>::prover(&c, &i, &a, h)));
    let (p, out) = some(x)?;
    // the plain verifier is given the whole input layer
    let mut inp = a.clone();
    inp.resize(r.half(), G::Fr::zero());
    inp.extend_from_slice(&i);
    inp.resize(2 * r.half(), G::Fr::zero());
    let v = |h: G::Fr, o: &Vec<G::Fr>, i: &Vec<G::Fr>, b: &[u8]| mer(&mut || {
        let _ = de_plain::<G>(b).verify(&c, o, i, h);
    });
    let p = ser_plain(&p);
    weight(s, 8, &|| de_plain::<G>(&p).verify(&c, &out, &inp, h))?;
    let mut others = vec![("circuit digest", v(h + delta::<G::Fr>(s), &out, &inp, &p))];
    if let Some(w) = wrong(s, &out) {
        others.push(("output", v(h, &w, &inp, &p)));
    }
    if let Some(w) = wrong(s, &inp) {
        others.push(("input", v(h, &out, &w, &p)));
    }
    let ob = bits(r.layers.last().map(|l| l.len()).unwrap_or(1));
    let y = Sys { schema: PLAIN, ops: ops::<G::Affine>(), proof: p, prover, verify: Box::new(|b| v(h, &out, &inp, b)), tb: tb::<G::Affine>, late: &[], script: &|t| plain_script(t, ob), others };
    check(s, &y)
}
#[cfg(feature = "libra")]
pub fn libra_zk<G: Curve>(s: &mut Src) -> R {
    use zkp_libra::circuit::Circuit;
    use zkp_libra::libra_zk_linear_gkr::*;
    use zkp_libra::params::*;
    let r = layered(s);
    let (i, a) = (gen_vals::<G::Fr>(s, r.ni), gen_vals(s, r.na));
    let mut rng = s.rng();
    let c = Circuit::new(r.ni, r.na, &r.layers);
    let h = c.circuit_to_hash::<G>();
    let params = Parameters::<G>::new(&mut rng, bits(r.half()) + 1);
    let ph = params.param_to_hash();
    let mut x = None;
    let prover = mer(&mut || x = Some(ZKLinearGKRProof::<G>::prover(&params, &c, &i, &a, h, ph, &mut rng)));
    let (p, out) = some(x)?;
    let p = ser(&p);
    let v = |h, ph, o: &Vec<G::Fr>, i: &Vec<G::Fr>, b: &[u8]| mer(&mut || {
        let _ = de::<ZKLinearGKRProof<G>>(b).unwrap().verify(&params, &c, o, i, h, ph);
    });
    weight(s, 8, &|| de::<ZKLinearGKRProof<G>>(&p).unwrap().verify(&params, &c, &out, &i, h, ph))?;
    let d = delta::<G::Fr>(s);
    let mut others = vec![("circuit digest", v(h + d, ph, &out, &i, &p)), ("parameter digest", v(h, ph + d, &out, &i, &p))];
    if let Some(w) = wrong(s, &out) {
        others.push(("output", v(h, ph, &w, &i, &p)));
    }
    if let Some(w) = wrong(s, &i) {
        others.push(("input", v(h, ph, &out, &w, &p)));
    }
    let ob = bits(r.layers.last().map(|l| l.len()).unwrap_or(1));
    let y = Sys { schema: ZKL, ops: ops::<G::Affine>(), proof: p, prover, verify: Box::new(|b| v(h, ph, &out, &i, b)), tb: tb::<G::Affine>, late: &[], script: &|t| libra_script(t, ob), others };
    check(s, &y)
}
#[cfg(feature = "hyrax")]
pub fn hyrax<G: Curve>(s: &mut Src) -> R {
    use zkp_hyrax::circuit::Circuit;
    use zkp_hyrax::hyrax_proof::*;
    use zkp_hyrax::params::*;
    let r = layered(s);
    let log = s.range(1, 2);
    let n = 1usize << log;
    let ii: Vec<Vec<G::Fr>> = (0..n).map(|_| gen_vals(s, r.ni)).collect();
    let aa: Vec<Vec<G::Fr>> = (0..n).map(|_| gen_vals(s, r.na)).collect();
    let mut rng = s.rng();
    let c = Circuit::new(r.ni, r.na, &r.layers);
    let h = c.circuit_to_hash::<G>();
    let params = Parameters::<G>::new(&mut rng, bits(r.half()) + 1 + log);
    let ph = params.param_to_hash();
    let mut x = None;
    let prover = mer(&mut || x = Some(HyraxProof::<G>::prover(&params, &aa, &ii, &c, h, ph, n, &mut rng)));
    let (p, out) = some(x)?;
    let p = ser(&p);
    let v = |h, ph, o: &Vec<Vec<G::Fr>>, i: &Vec<Vec<G::Fr>>, b: &[u8]| mer(&mut || {
        let _ = de::<HyraxProof<G>>(b).unwrap().verify(&params, o, i, &c, h, ph);
    });
    weight(s, 8, &|| de::<HyraxProof<G>>(&p).unwrap().verify(&params, &out, &ii, &c, h, ph))?;
    let d = delta::<G::Fr>(s);
    let mut others = vec![("circuit digest", v(h + d, ph, &out, &ii, &p)), ("parameter digest", v(h, ph + d, &out, &ii, &p))];
    let k = s.below(n);
    if let Some(w) = wrong(s, &out[k]) {
        let mut o = out.clone();
        o[k] = w;
        others.push(("output", v(h, ph, &o, &ii, &p)));
    }
    if let Some(w) = wrong(s, &ii[k]) {
        let mut o = ii.clone();
        o[k] = w;
        others.push(("input", v(h, ph, &out, &o, &p)));
    }
    let ob = bits(r.layers.last().map(|l| l.len()).unwrap_or(1)) + log;
    let y = Sys { schema: HYR, ops: ops::<G::Affine>(), proof: p, prover, verify: Box::new(|b| v(h, ph, &out, &ii, b)), tb: tb::<G::Affine>, late: &[], script: &|t| hyrax_script(t, ob), others };
    check(s, &y)
}
