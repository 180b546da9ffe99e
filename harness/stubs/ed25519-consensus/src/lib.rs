//! Environment model of Ed25519: an ideal signature. `sign` is a fixed function of key and message; `verify` accepts
//! exactly its value. A key whose last octet is 0xff does not decode.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Error {
    MalformedSecretKey,
    MalformedPublicKey,
    InvalidSignature,
    InvalidSliceLength,
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("ed25519 error")
    }
}
impl std::error::Error for Error {}
pub mod model {
    /// the public key of a secret key
    pub fn public(sk: &[u8]) -> [u8; 32] {
        let mut o = [0u8; 32];
        for i in 0..32 {
            o[i] = sk[i] ^ 0x55;
        }
        o[31] &= 0x7f;
        o
    }
    /// the one valid signature of a message under a public key
    pub fn sig(pk: &[u8; 32], m: &[u8]) -> [u8; 64] {
        let mut o = [0u8; 64];
        let mut l = [m.len() as u64, 0x9e3779b97f4a7c15, 0xbf58476d1ce4e5b9, 0x94d049bb133111eb];
        for (i, b) in m.iter().enumerate() {
            let k = i % 4;
            l[k] = l[k].rotate_left(9).wrapping_add(*b as u64) ^ 0x5851f42d4c957f2d;
        }
        for k in 0..4 {
            o[8 * k..8 * k + 8].copy_from_slice(&l[k].to_le_bytes());
        }
        o[32..].copy_from_slice(pk);
        o
    }
}
#[derive(Clone, Copy)]
pub struct Signature([u8; 64]);
impl Signature {
    pub fn to_bytes(&self) -> [u8; 64] {
        self.0
    }
}
impl TryFrom<&[u8]> for Signature {
    type Error = Error;
    fn try_from(s: &[u8]) -> Result<Self, Error> {
        s.try_into().map(Signature).map_err(|_| Error::InvalidSliceLength)
    }
}
#[derive(Clone, Copy)]
pub struct SigningKey([u8; 32]);
impl SigningKey {
    pub fn new<R: rand_core::RngCore>(mut r: R) -> Self {
        let mut b = [0u8; 32];
        r.fill_bytes(&mut b);
        SigningKey(b)
    }
    pub fn sign(&self, m: &[u8]) -> Signature {
        Signature(model::sig(&model::public(&self.0), m))
    }
    pub fn verification_key(&self) -> VerificationKey {
        VerificationKey(model::public(&self.0))
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
}
impl TryFrom<&[u8]> for SigningKey {
    type Error = Error;
    fn try_from(s: &[u8]) -> Result<Self, Error> {
        s.try_into().map(SigningKey).map_err(|_| Error::InvalidSliceLength)
    }
}
#[derive(Clone, Copy)]
pub struct VerificationKey([u8; 32]);
impl VerificationKey {
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn verify(&self, s: &Signature, m: &[u8]) -> Result<(), Error> {
        let e = model::sig(&self.0, m);
        let mut d = 0u8;
        for i in 0..64 {
            d |= e[i] ^ s.0[i];
        }
        if d == 0 {
            Ok(())
        } else {
            Err(Error::InvalidSignature)
        }
    }
}
impl TryFrom<&[u8]> for VerificationKey {
    type Error = Error;
    fn try_from(s: &[u8]) -> Result<Self, Error> {
        let b: [u8; 32] = s.try_into().map_err(|_| Error::InvalidSliceLength)?;
        if b[31] == 0xff {
            return Err(Error::MalformedPublicKey);
        }
        Ok(VerificationKey(b))
    }
}
