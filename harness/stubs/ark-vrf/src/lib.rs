//! Environment model of the Bandersnatch VRF: an ideal verifiable random function. The output for a key and an input is a
//! fixed function of both; a proof is accepted exactly when it is the one for that key (or ring commitment), input,
//! output and additional data. A public key whose last octet is 0xff does not decode.
use ark_serialize::*;
pub mod reexports {
    pub use ark_serialize;
}
fn mix(tag: u64, parts: &[&[u8]]) -> [u8; 32] {
    let mut l = [tag, 0x9e3779b97f4a7c15, 0xbf58476d1ce4e5b9, 0x94d049bb133111eb];
    for p in parts {
        l[0] = l[0].rotate_left(5) ^ p.len() as u64;
        for (i, b) in p.iter().enumerate() {
            let k = i % 4;
            l[k] = l[k].rotate_left(9).wrapping_add(*b as u64) ^ 0x5851f42d4c957f2d;
        }
    }
    let mut o = [0u8; 32];
    for k in 0..4 {
        o[8 * k..8 * k + 8].copy_from_slice(&(l[k] ^ l[(k + 1) % 4].rotate_left(17)).to_le_bytes());
    }
    o
}
fn same(a: &[u8], b: &[u8]) -> bool {
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub mod model {
    use super::*;
    pub fn public(sk: &[u8; 32]) -> [u8; 32] {
        let mut o = *sk;
        for b in o.iter_mut() {
            *b ^= 0x33;
        }
        o[31] &= 0x7f;
        o
    }
    pub fn output(pk: &[u8; 32], input: &[u8]) -> [u8; 32] {
        mix(1, &[pk, &mix(7, &[input])])
    }
    pub fn ietf_proof(pk: &[u8; 32], input: &[u8], out: &[u8; 32], ad: &[u8]) -> [u8; 32] {
        mix(2, &[pk, &mix(7, &[input]), out, ad])
    }
    pub fn commitment(ring: &[[u8; 32]]) -> [u8; 144] {
        let mut o = [0u8; 144];
        for (i, k) in ring.iter().enumerate() {
            let m = mix(i as u64 + 11, &[k]);
            for j in 0..32 {
                o[j] ^= m[j];
                o[32 + j] = o[32 + j].wrapping_add(m[j]);
            }
        }
        o[64] = ring.len() as u8;
        o
    }
    pub fn ring_proof(com: &[u8; 144], input: &[u8], out: &[u8; 32], ad: &[u8]) -> [u8; 32] {
        mix(3, &[com, &mix(7, &[input]), out, ad])
    }
    pub const PADDING: [u8; 32] = [0xfe; 32];
}
macro_rules! octets {
    ($t:ident, $n:expr) => {
        impl Valid for $t {
            fn check(&self) -> Result<(), SerializationError> {
                Ok(())
            }
        }
        impl CanonicalSerialize for $t {
            fn serialize_with_mode<W: Write>(&self, mut w: W, _: Compress) -> Result<(), SerializationError> {
                w.write_all(&self.octets()).map_err(|_| SerializationError::NotEnoughSpace)
            }
            fn serialized_size(&self, _: Compress) -> usize {
                $n
            }
        }
        impl CanonicalDeserialize for $t {
            fn deserialize_with_mode<R: Read>(mut r: R, _: Compress, _: Validate) -> Result<Self, SerializationError> {
                let mut b = [0u8; $n];
                r.read_exact(&mut b).map_err(|_| SerializationError::InvalidData)?;
                $t::of(b)
            }
        }
    };
}
pub mod suites {
    pub mod bandersnatch {
        pub use super::super::*;
        #[derive(Clone, Debug, PartialEq, Eq, Copy)]
        pub struct BandersnatchSha512Ell2;
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Point(pub [u8; 32]);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Public(pub Point);
impl From<Point> for Public {
    fn from(p: Point) -> Self {
        Public(p)
    }
}
impl Public {
    fn octets(&self) -> [u8; 32] {
        self.0 .0
    }
    fn of(b: [u8; 32]) -> Result<Self, SerializationError> {
        if b[31] == 0xff {
            return Err(SerializationError::InvalidData);
        }
        Ok(Public(Point(b)))
    }
}
octets!(Public, 32);
#[derive(Clone, Copy, Debug)]
pub struct Input([u8; 32]);
impl Input {
    pub fn new(d: &[u8]) -> Option<Self> {
        Some(Input(mix(7, &[d])))
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Output([u8; 32]);
impl Output {
    pub fn hash(&self) -> [u8; 64] {
        let mut o = [0u8; 64];
        o[..32].copy_from_slice(&self.0);
        o
    }
    fn octets(&self) -> [u8; 32] {
        self.0
    }
    fn of(b: [u8; 32]) -> Result<Self, SerializationError> {
        Ok(Output(b))
    }
}
octets!(Output, 32);
#[derive(Clone, Debug)]
pub struct Scalar([u8; 32]);
impl Scalar {
    fn octets(&self) -> [u8; 32] {
        self.0
    }
    fn of(b: [u8; 32]) -> Result<Self, SerializationError> {
        Ok(Scalar(b))
    }
}
octets!(Scalar, 32);
#[derive(Clone, Debug)]
pub struct Secret {
    pub scalar: Scalar,
}
impl Secret {
    pub fn from_seed(s: &[u8]) -> Self {
        Secret { scalar: Scalar(mix(5, &[s])) }
    }
    pub fn public(&self) -> Public {
        Public(Point(model::public(&self.scalar.0)))
    }
    pub fn output(&self, i: Input) -> Output {
        Output(mix(1, &[&model::public(&self.scalar.0), &i.0]))
    }
    fn octets(&self) -> [u8; 32] {
        self.scalar.0
    }
    fn of(b: [u8; 32]) -> Result<Self, SerializationError> {
        Ok(Secret { scalar: Scalar(b) })
    }
}
octets!(Secret, 32);
#[derive(Debug)]
pub struct Error;
#[derive(Clone, Debug)]
pub struct IetfProof([u8; 64]);
impl IetfProof {
    fn octets(&self) -> [u8; 64] {
        self.0
    }
    fn of(b: [u8; 64]) -> Result<Self, SerializationError> {
        Ok(IetfProof(b))
    }
}
octets!(IetfProof, 64);
pub mod ietf {
    use super::*;
    pub trait Prover {
        fn prove(&self, i: Input, o: Output, ad: impl AsRef<[u8]>) -> IetfProof;
    }
    pub trait Verifier {
        fn verify(&self, i: Input, o: Output, ad: impl AsRef<[u8]>, p: &IetfProof) -> Result<(), Error>;
    }
    impl Prover for Secret {
        fn prove(&self, i: Input, o: Output, ad: impl AsRef<[u8]>) -> IetfProof {
            let mut b = [0u8; 64];
            b[..32].copy_from_slice(&mix(2, &[&model::public(&self.scalar.0), &i.0, &o.0, ad.as_ref()]));
            IetfProof(b)
        }
    }
    impl Verifier for Public {
        fn verify(&self, i: Input, o: Output, ad: impl AsRef<[u8]>, p: &IetfProof) -> Result<(), Error> {
            let e = mix(2, &[&self.0 .0, &i.0, &o.0, ad.as_ref()]);
            let y = mix(1, &[&self.0 .0, &i.0]);
            if same(&e, &p.0[..32]) & same(&[0; 32], &p.0[32..]) & same(&y, &o.0) {
                Ok(())
            } else {
                Err(Error)
            }
        }
    }
}
#[derive(Clone, Debug)]
pub struct RingProof([u8; 752]);
impl RingProof {
    fn octets(&self) -> [u8; 752] {
        self.0
    }
    fn of(b: [u8; 752]) -> Result<Self, SerializationError> {
        Ok(RingProof(b))
    }
}
octets!(RingProof, 752);
pub struct PcsParams;
impl PcsParams {
    pub fn deserialize_uncompressed_unchecked(_: &mut &[u8]) -> Result<Self, SerializationError> {
        Ok(PcsParams)
    }
}
pub struct RingProofParams;
pub struct VerifierKey(ring::RingCommitment<suites::bandersnatch::BandersnatchSha512Ell2>);
impl VerifierKey {
    pub fn commitment(&self) -> ring::RingCommitment<suites::bandersnatch::BandersnatchSha512Ell2> {
        self.0.clone()
    }
}
pub struct RingKey([u8; 144]);
impl RingProofParams {
    pub fn from_pcs_params(_n: usize, _p: PcsParams) -> Result<Self, Error> {
        Ok(RingProofParams)
    }
    pub fn padding_point() -> Point {
        Point(model::PADDING)
    }
    fn com(pts: &[Point]) -> [u8; 144] {
        let v: Vec<[u8; 32]> = pts.iter().map(|p| p.0).collect();
        model::commitment(&v)
    }
    pub fn verifier_key(&self, pts: &[Point]) -> VerifierKey {
        VerifierKey(ring::RingCommitment(Self::com(pts), std::marker::PhantomData))
    }
    pub fn verifier_key_from_commitment(
        &self,
        c: ring::RingCommitment<suites::bandersnatch::BandersnatchSha512Ell2>,
    ) -> VerifierKey {
        VerifierKey(c)
    }
    pub fn verifier(&self, k: VerifierKey) -> RingKey {
        RingKey(k.0 .0)
    }
    pub fn prover_key(&self, pts: &[Point]) -> RingKey {
        RingKey(Self::com(pts))
    }
    pub fn prover(&self, k: RingKey, _i: usize) -> RingKey {
        k
    }
}
pub mod ring {
    use super::*;
    #[derive(Clone, Debug)]
    pub struct RingCommitment<S>(pub(crate) [u8; 144], pub(crate) std::marker::PhantomData<fn() -> S>);
    type B = RingCommitment<suites::bandersnatch::BandersnatchSha512Ell2>;
    impl B {
        fn octets(&self) -> [u8; 144] {
            self.0
        }
        fn of(b: [u8; 144]) -> Result<Self, SerializationError> {
            Ok(RingCommitment(b, std::marker::PhantomData))
        }
    }
    octets!(B, 144);
    pub trait Prover {
        fn prove(&self, i: Input, o: Output, ad: impl AsRef<[u8]>, k: &RingKey) -> RingProof;
    }
    pub trait Verifier {
        fn verify(i: Input, o: Output, ad: impl AsRef<[u8]>, p: &RingProof, k: &RingKey) -> Result<(), Error>;
    }
    impl Prover for Secret {
        fn prove(&self, i: Input, o: Output, ad: impl AsRef<[u8]>, k: &RingKey) -> RingProof {
            let mut b = [0u8; 752];
            b[..32].copy_from_slice(&mix(3, &[&k.0, &i.0, &o.0, ad.as_ref()]));
            RingProof(b)
        }
    }
    impl Verifier for Public {
        fn verify(i: Input, o: Output, ad: impl AsRef<[u8]>, p: &RingProof, k: &RingKey) -> Result<(), Error> {
            let e = mix(3, &[&k.0, &i.0, &o.0, ad.as_ref()]);
            if same(&e, &p.0[..32]) {
                Ok(())
            } else {
                Err(Error)
            }
        }
    }
}
