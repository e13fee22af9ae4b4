//! A group whose discrete logarithms are in the open: the scalar field's own additive group.
//! Provers run over it unchanged, and what their proofs reveal becomes linear algebra.
use ark_bls12_381::Fr;
use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
use ark_ff::{BigInteger, Field, FromBytes, One, PrimeField, ToBytes, UniformRand, Zero};
use ark_serialize::*;
use rand::distributions::{Distribution, Standard};
use rand::Rng;
use std::io;
use std::ops::*;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct Pt(pub Fr);

fn scalar(limbs: &[u64]) -> Fr {
    let mut b = <Fr as PrimeField>::BigInt::default();
    for (x, y) in b.0.iter_mut().zip(limbs) {
        *x = *y;
    }
    match Fr::from_repr(b) {
        Some(f) => f,
        None => {
            // above the modulus
            let mut acc = Fr::zero();
            let w = Fr::from(1u128 << 64);
            for l in limbs.iter().rev() {
                acc = acc * w + Fr::from(*l);
            }
            acc
        }
    }
}
impl AffineCurve for Pt {
    const COFACTOR: &'static [u64] = &[1];
    type ScalarField = Fr;
    type BaseField = Fr;
    type Projective = Pt;
    fn prime_subgroup_generator() -> Self {
        Pt(Fr::one())
    }
    fn from_random_bytes(b: &[u8]) -> Option<Self> {
        Fr::from_random_bytes(b).map(Pt)
    }
    fn mul<S: Into<<Fr as PrimeField>::BigInt>>(&self, s: S) -> Pt {
        let b: <Fr as PrimeField>::BigInt = s.into();
        Pt(self.0 * scalar(b.as_ref()))
    }
    fn mul_by_cofactor_to_projective(&self) -> Pt {
        *self
    }
    fn mul_by_cofactor_inv(&self) -> Self {
        *self
    }
}
impl ProjectiveCurve for Pt {
    const COFACTOR: &'static [u64] = &[1];
    type ScalarField = Fr;
    type BaseField = Fr;
    type Affine = Pt;
    fn prime_subgroup_generator() -> Self {
        Pt(Fr::one())
    }
    fn batch_normalization(_: &mut [Self]) {}
    fn batch_normalization_into_affine(v: &[Self]) -> Vec<Pt> {
        v.to_vec()
    }
    fn is_normalized(&self) -> bool {
        true
    }
    fn double_in_place(&mut self) -> &mut Self {
        self.0.double_in_place();
        self
    }
    fn add_assign_mixed(&mut self, o: &Pt) {
        self.0 += o.0;
    }
    fn mul<S: AsRef<[u64]>>(self, s: S) -> Self {
        Pt(self.0 * scalar(s.as_ref()))
    }
}
impl ToBytes for Pt {
    fn write<W: io::Write>(&self, w: W) -> io::Result<()> {
        self.0.write(w)
    }
}
impl FromBytes for Pt {
    fn read<R: io::Read>(r: R) -> io::Result<Self> {
        Fr::read(r).map(Pt)
    }
}
impl Zero for Pt {
    fn zero() -> Self {
        Pt(Fr::zero())
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}
impl std::fmt::Display for Pt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Neg for Pt {
    type Output = Pt;
    fn neg(self) -> Pt {
        Pt(-self.0)
    }
}
impl Add for Pt {
    type Output = Pt;
    fn add(self, o: Pt) -> Pt {
        Pt(self.0 + o.0)
    }
}
impl Sub for Pt {
    type Output = Pt;
    fn sub(self, o: Pt) -> Pt {
        Pt(self.0 - o.0)
    }
}
impl<'a> Add<&'a Pt> for Pt {
    type Output = Pt;
    fn add(self, o: &'a Pt) -> Pt {
        Pt(self.0 + o.0)
    }
}
impl<'a> Sub<&'a Pt> for Pt {
    type Output = Pt;
    fn sub(self, o: &'a Pt) -> Pt {
        Pt(self.0 - o.0)
    }
}
impl AddAssign for Pt {
    fn add_assign(&mut self, o: Pt) {
        self.0 += o.0
    }
}
impl SubAssign for Pt {
    fn sub_assign(&mut self, o: Pt) {
        self.0 -= o.0
    }
}
impl<'a> AddAssign<&'a Pt> for Pt {
    fn add_assign(&mut self, o: &'a Pt) {
        self.0 += o.0
    }
}
impl<'a> SubAssign<&'a Pt> for Pt {
    fn sub_assign(&mut self, o: &'a Pt) {
        self.0 -= o.0
    }
}
impl MulAssign<Fr> for Pt {
    fn mul_assign(&mut self, s: Fr) {
        self.0 *= s
    }
}
impl std::iter::Sum<Pt> for Pt {
    fn sum<I: Iterator<Item = Pt>>(i: I) -> Pt {
        i.fold(Pt::zero(), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Pt> for Pt {
    fn sum<I: Iterator<Item = &'a Pt>>(i: I) -> Pt {
        i.fold(Pt::zero(), |a, b| a + *b)
    }
}
impl Distribution<Pt> for Standard {
    fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> Pt {
        Pt(Fr::rand(r))
    }
}
impl zeroize::Zeroize for Pt {
    fn zeroize(&mut self) {
        self.0 = Fr::zero()
    }
}
impl CanonicalSerialize for Pt {
    fn serialize<W: io::Write>(&self, w: W) -> Result<(), SerializationError> {
        self.0.serialize(w)
    }
    fn serialized_size(&self) -> usize {
        self.0.serialized_size()
    }
}
impl CanonicalDeserialize for Pt {
    fn deserialize<R: io::Read>(r: R) -> Result<Self, SerializationError> {
        Fr::deserialize(r).map(Pt)
    }
}

/// The engine over it. Its pairing is the product, in the field's additive group; nothing here
/// verifies with it.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Clear;
impl PairingEngine for Clear {
    type Fr = Fr;
    type G1Projective = Pt;
    type G1Affine = Pt;
    type G1Prepared = Pt;
    type G2Projective = Pt;
    type G2Affine = Pt;
    type G2Prepared = Pt;
    type Fq = Fr;
    type Fqe = Fr;
    type Fqk = Fr;
    fn miller_loop<'a, I: IntoIterator<Item = &'a (Pt, Pt)>>(i: I) -> Fr {
        i.into_iter().map(|(a, b)| a.0 * b.0).sum()
    }
    fn final_exponentiation(f: &Fr) -> Option<Fr> {
        Some(*f)
    }
}
