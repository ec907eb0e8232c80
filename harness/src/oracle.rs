//! Primitives used to judge the code under test, taken from the libraries below it
//! (never from the crate under test).
use ff::{FromUniformBytes, PrimeField, PrimeFieldBits};
use group::{Curve, Group, GroupEncoding};
use halo2_gadgets::sinsemilla::primitives as sinsemilla;
use halo2_proofs::arithmetic::{CurveAffine, CurveExt};
use pasta_curves::pallas;

pub fn base_bytes(b: &pallas::Base) -> [u8; 32] {
    b.to_repr()
}
pub fn base(bytes: &[u8]) -> Option<pallas::Base> {
    Option::from(pallas::Base::from_repr(bytes.try_into().ok()?))
}
pub fn scalar(bytes: &[u8]) -> Option<pallas::Scalar> {
    Option::from(pallas::Scalar::from_repr(bytes.try_into().ok()?))
}
pub fn point(bytes: &[u8]) -> Option<pallas::Point> {
    let b: [u8; 32] = bytes.try_into().ok()?;
    Option::from(pallas::Point::from_bytes(&b))
}
pub fn to_base(x: &[u8]) -> pallas::Base {
    pallas::Base::from_uniform_bytes(x.try_into().unwrap())
}
pub fn to_scalar(x: &[u8]) -> pallas::Scalar {
    pallas::Scalar::from_uniform_bytes(x.try_into().unwrap())
}
pub fn extract_p(p: &pallas::Point) -> pallas::Base {
    if bool::from(p.is_identity()) {
        pallas::Base::from(0)
    } else {
        *p.to_affine().coordinates().unwrap().x()
    }
}
pub fn hash_to_curve(domain: &str, msg: &[u8]) -> pallas::Point {
    pallas::Point::hash_to_curve(domain)(msg)
}
pub fn bits_of(bytes: &[u8], n: usize) -> Vec<bool> {
    (0..n).map(|i| (bytes[i / 8] >> (i % 8)) & 1 == 1).collect()
}
/// MerkleCRH^Orchard; ⊥ maps to zero.
pub fn merkle_crh(level: usize, l: &pallas::Base, r: &pallas::Base) -> pallas::Base {
    thread_local! {
        static D: sinsemilla::HashDomain = sinsemilla::HashDomain::new("z.cash:Orchard-MerkleCRH");
    }
    let bits: Vec<bool> = bits_of(&(level as u16).to_le_bytes(), 10)
        .into_iter()
        .chain(l.to_le_bits().iter().by_vals().take(255))
        .chain(r.to_le_bits().iter().by_vals().take(255))
        .collect();
    let h = D.with(|d| d.hash(bits.into_iter()));
    Option::from(h).unwrap_or_else(|| pallas::Base::from(0))
}
pub fn blake2b(len: usize, personal: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut p = blake2b_simd::Params::new();
    p.hash_length(len);
    p.personal(personal);
    p.to_state().update(msg).finalize().as_bytes().to_vec()
}
