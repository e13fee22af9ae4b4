//! P25: table lookup circuits select exactly the addressed constant.
use vharness::wit::*;
use vharness::*;
use zkp_gadgets::algebra::boolean::*;
use zkp_gadgets::algebra::fr::AllocatedFr;
use zkp_gadgets::lookup::table::*;
use zkp_r1cs::{ConstraintSystem, SynthesisError, Variable};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    X1,
    X2,
    XY2,
    X3,
    XY3,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mat {
    Const,
    Wit,
    In,
    Not,
    /// the same wire as the bit before (or its complement)
    Same,
    NotSame,
}
fn run<F: Fld>(cs: &mut Cs<F>, k: Kind, t: &[(F, F)], bits: &[bool], mat: &[Mat], blank: bool) -> Result<(Vec<AllocatedFr<F>>, Vec<Variable>), SynthesisError> {
    let mut bs: Vec<Boolean> = vec![];
    let mut src = vec![];
    for (i, m) in mat.iter().enumerate() {
        let v = |x: bool| if blank { None } else { Some(x) };
        let nm = || format!("address {}", i);
        let b = bits[i];
        bs.push(match m {
            Mat::Const => Boolean::constant(b),
            Mat::Wit | Mat::Not => {
                let a = AllocatedBit::alloc(cs.ns(nm), v(b ^ (*m == Mat::Not)))?;
                src.push(a.get_variable());
                let a: Boolean = a.into();
                if *m == Mat::Not {
                    a.not()
                } else {
                    a
                }
            }
            Mat::In => {
                let a = AllocatedBit::alloc_input(cs.ns(nm), v(b))?;
                src.push(a.get_variable());
                a.into()
            }
            Mat::Same => bs[i - 1],
            Mat::NotSame => bs[i - 1].not(),
        });
    }
    let x: Vec<F> = t.iter().map(|p| p.0).collect();
    let r = match k {
        Kind::X1 => vec![lookup1_x(cs.ns(|| "l"), &bs[0], &x)?],
        Kind::X2 => vec![lookup2_x(cs.ns(|| "l"), &bs, &x)?],
        Kind::X3 => vec![lookup3_x(cs.ns(|| "l"), &bs, &x)?],
        Kind::XY2 => {
            let (a, b) = lookup2_xy(cs.ns(|| "l"), &bs, t)?;
            vec![a, b]
        }
        Kind::XY3 => {
            let (a, b) = lookup3_xy(cs.ns(|| "l"), &bs, t)?;
            vec![a, b]
        }
    };
    Ok((r, src))
}
fn lookup<F: Fld>(s: &mut Src) -> R {
    let k = *s.pick(&[Kind::X1, Kind::X2, Kind::XY2, Kind::X3, Kind::XY3]);
    let n = match k {
        Kind::X1 => 1,
        Kind::X2 | Kind::XY2 => 2,
        _ => 3,
    };
    let small = s.below(4);
    let mut rng = s.rng();
    let mut el = |s: &mut Src| match (small, s.below(3)) {
        (0, _) | (1, 0) => F::from(s.below(3) as u64),
        (2, 0) => -F::one(),
        _ => F::rand(&mut rng),
    };
    let t: Vec<(F, F)> = (0..1 << n).map(|_| (el(s), el(s))).collect();
    let mat: Vec<Mat> = (0..n)
        .map(|i| match s.below(if i == 0 { 6 } else { 8 }) {
            0 | 1 => Mat::Const,
            2 | 3 => Mat::Wit,
            4 => Mat::In,
            5 => Mat::Not,
            6 => Mat::Same,
            _ => Mat::NotSame,
        })
        .collect();
    s.note(&format!("{:?} {:?} {}", k, mat, t.iter().map(|p| format!("({}, {})", p.0, p.1)).collect::<Vec<_>>().join(" ")));
    s.label(format!("{:?}", k));
    let mut shapes = vec![];
    let mut all = vec![];
    for addr in 0..1usize << n {
        let mut bits: Vec<bool> = (0..n).map(|i| addr >> i & 1 == 1).collect();
        for i in 1..n {
            match mat[i] {
                Mat::Same => bits[i] = bits[i - 1],
                Mat::NotSame => bits[i] = !bits[i - 1],
                _ => {}
            }
        }
        let addr = (0..n).fold(0, |a, i| a | (bits[i] as usize) << i);
        let want = [t[addr].0, t[addr].1];
        let mut cs = Cs::<F>::new(false);
        let (r, src) = match run(&mut cs, k, &t, &bits, &mat, false) {
            Ok(x) => x,
            Err(e) => return fail("synthesis", format!("{:?}", e)),
        };
        for (i, x) in r.iter().enumerate() {
            ensure!(x.get_value() == Some(want[i]), "value", "address {}: coordinate {} is {:?}", addr, i, x.get_value());
            ensure!(cs.val(x.get_variable()) == want[i], "assignment", "address {}: coordinate {}", addr, i);
        }
        if let Some(v) = cs.violated(&cs.vals) {
            return fail("unsatisfied", format!("address {}: honest values violate {}", addr, cs.names[v]));
        }
        let src: Vec<usize> = src.iter().map(|v| cs.id(*v)).collect();
        let targets: Vec<Lc<F>> = r.iter().map(|x| vec![(cs.id(x.get_variable()), F::one())]).collect();
        match other_result(&cs, &src, &targets, s) {
            Alt::Forced => s.label("forced"),
            Alt::Other(_, w) => return fail("forged", format!("address {}: another entry satisfies the constraints: {}", addr, w)),
            Alt::Open => s.label("open"),
        }
        let c: Vec<bool> = bits.iter().zip(&mat).map(|(b, m)| *b && *m == Mat::Const).collect();
        let mut bk = Cs::<F>::new(true);
        if let Err(e) = run(&mut bk, k, &t, &bits, &mat, true) {
            return fail("blank", format!("{:?}", e));
        }
        ensure!(bk.shape() == cs.shape(), "shape", "the circuit depends on the values");
        if !c.iter().any(|x| *x) {
            shapes.push(cs.clone());
        }
        all.push((addr, src.iter().map(|i| cs.vals[*i]).collect::<Vec<F>>(), c.clone(), src.clone(), targets.clone()));
    }
    // one circuit answers every address its allocated bits can express
    if let Some(cs) = shapes.first() {
        let se = Search::new(cs);
        for (addr, v, c, src, tg) in &all {
            if c.iter().any(|x| *x) || (0..n).any(|i| mat[i] == Mat::Const) {
                continue;
            }
            let fixed: Vec<(usize, F)> = src.iter().cloned().zip(v.iter().cloned()).collect();
            match se.forced(&fixed) {
                None => return fail("unsatisfied", format!("address {} refused", addr)),
                Some(f) => {
                    for (i, l) in tg.iter().enumerate() {
                        if let Some(x) = f[l[0].0] {
                            ensure!(x == [t[*addr].0, t[*addr].1][i], "entry", "address {}: the constraints force {}", addr, x);
                        }
                    }
                }
            }
        }
    }
    if mat.iter().any(|m| *m != Mat::Const) {
        s.nontrivial();
    }
    Ok(())
}
fn main() {
    type F = ark_bls12_381::Fr;
    type K = <zkp_curve25519::Curve25519 as zkp_curve::Curve>::Fr;
    vharness::main("P25", "at least one address bit is allocated", vec![sub("lookup", 6000, 200000, lookup::<F>), sub("lookup-25519", 2000, 60000, lookup::<K>)])
}
