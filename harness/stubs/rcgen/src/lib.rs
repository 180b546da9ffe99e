//! Type-level stand-in for certificate generation.
#[derive(Debug)]
pub struct Error;
pub struct Certificate(());
pub struct KeyPair(());
impl KeyPair {
    pub fn serialize_der(&self) -> Vec<u8> {
        vec![]
    }
}
pub struct CertifiedKey {
    pub cert: Certificate,
    pub key_pair: KeyPair,
}
impl From<Certificate> for rustls::pki_types::CertificateDer<'static> {
    fn from(_: Certificate) -> Self {
        rustls::pki_types::CertificateDer(std::marker::PhantomData)
    }
}
pub fn generate_simple_self_signed(_: Vec<String>) -> Result<CertifiedKey, Error> {
    Ok(CertifiedKey { cert: Certificate(()), key_pair: KeyPair(()) })
}
