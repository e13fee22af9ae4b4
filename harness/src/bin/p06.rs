//! P06: Marlin completeness.
use ark_bls12_381::{Bls12_381, Fr};
use vharness::circ::*;
use vharness::schemes::marlin::*;
use vharness::schemes::*;
use vharness::*;

type M = Marlin<Bls12_381>;
fn small(s: &mut Src) -> R {
    let c: Circ<Fr> = gen_circ(s, &Opts { min_con: 0, ..Opts::default() });
    complete::<M>(s, &c)
}
fn tiny(s: &mut Src) -> R {
    let c: Circ<Fr> = gen_circ(s, &Opts { min_con: 0, max_con: 2, max_pub: 2, max_aux: 2, max_lc: 2, ..Opts::default() });
    complete::<M>(s, &c)
}
fn boundary(s: &mut Src) -> R {
    let o = boundary_opts(s, 0);
    let c = gen_circ(s, &o);
    complete::<M>(s, &c)
}
fn large(s: &mut Src) -> R {
    let (p, a, k) = *s.pick(&[(20, 10, 40), (1, 60, 6), (3, 3, 60), (40, 2, 8)]);
    let max_lc = *s.pick(&[25, 100]);
    let c = gen_circ(s, &Opts { max_pub: p, max_aux: a, max_con: k, min_con: k / 2, min_pub: p / 2, min_aux: a / 2, max_lc, ..Opts::default() });
    complete::<M>(s, &c)
}
fn main() {
    vharness::main(
        "P06",
        "A case is a random satisfied rank-1 system indexed (under the smallest universal string that fits, or the next one), proved and verified with Marlin; non-trivial = it has a non-empty constraint.",
        vec![sub("small", 250, 8000, small), sub("tiny", 300, 8000, tiny), sub("boundary", 200, 6000, boundary), sub("large", 8, 300, large)],
    )
}
