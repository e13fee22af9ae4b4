//! P11: Spartan completeness (both variants, both curves).
use ark_bls12_381::Bls12_381;
use vharness::circ::*;
use vharness::schemes::spartan::*;
use vharness::schemes::*;
use vharness::*;
use zkp_curve25519::Curve25519;

fn small<S: Snark>(s: &mut Src) -> R {
    let c = gen_circ(s, &Opts { min_con: 0, ..Opts::default() });
    complete::<S>(s, &c)
}
fn boundary<S: Snark>(s: &mut Src) -> R {
    let o = boundary_opts(s, 0);
    let c = gen_circ(s, &o);
    complete::<S>(s, &c)
}
fn large<S: Snark>(s: &mut Src) -> R {
    let (p, a, k) = *s.pick(&[(20, 10, 40), (1, 60, 6), (3, 3, 60), (40, 2, 8)]);
    let max_lc = *s.pick(&[25, 100]);
    let c = gen_circ(s, &Opts { max_pub: p, max_aux: a, max_con: k, min_con: k / 2, min_pub: p / 2, min_aux: a / 2, max_lc, ..Opts::default() });
    complete::<S>(s, &c)
}
type B = Bls12_381;
type C = Curve25519;
fn main() {
    vharness::main(
        "P11",
        "A case is a random satisfied rank-1 system set up, proved and verified with one Spartan variant over one curve; non-trivial = it has a non-empty constraint.",
        vec![
            sub("nizk-bls", 250, 6000, small::<Nizk<B>>),
            sub("nizk-25519", 500, 12000, small::<Nizk<C>>),
            sub("snark-bls", 60, 1500, small::<Sn<B>>),
            sub("snark-25519", 150, 4000, small::<Sn<C>>),
            sub("nizk-boundary", 250, 6000, boundary::<Nizk<C>>),
            sub("snark-boundary", 120, 3000, boundary::<Sn<C>>),
            sub("nizk-large", 60, 500, large::<Nizk<C>>),
            sub("snark-large", 40, 200, large::<Sn<C>>),
        ],
    )
}
