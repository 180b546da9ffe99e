//! Type-level stand-in for TLS: no entry opens a connection.
use std::fmt;
use std::sync::Arc;
#[derive(Debug, Clone)]
pub struct Error;
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("tls")
    }
}
impl std::error::Error for Error {}
#[derive(Debug, Clone, Copy)]
pub struct SignatureScheme(());
#[derive(Debug)]
pub struct DigitallySignedStruct(());
pub mod pki_types {
    use std::marker::PhantomData;
    #[derive(Debug, Clone)]
    pub struct CertificateDer<'a>(pub PhantomData<&'a ()>);
    #[derive(Debug)]
    pub struct ServerName<'a>(PhantomData<&'a ()>);
    #[derive(Debug, Clone, Copy)]
    pub struct UnixTime(());
    #[derive(Debug)]
    pub struct PrivatePkcs8KeyDer<'a>(PhantomData<&'a ()>);
    impl From<Vec<u8>> for PrivatePkcs8KeyDer<'static> {
        fn from(_: Vec<u8>) -> Self {
            PrivatePkcs8KeyDer(PhantomData)
        }
    }
    #[derive(Debug)]
    pub enum PrivateKeyDer<'a> {
        Pkcs8(PrivatePkcs8KeyDer<'a>),
    }
}
pub mod crypto {
    use super::*;
    #[derive(Debug)]
    pub struct WebPkiSupportedAlgorithms(());
    impl WebPkiSupportedAlgorithms {
        pub fn supported_schemes(&self) -> Vec<SignatureScheme> {
            vec![]
        }
    }
    #[derive(Debug)]
    pub struct CryptoProvider {
        pub signature_verification_algorithms: WebPkiSupportedAlgorithms,
    }
    pub mod ring {
        pub fn default_provider() -> super::CryptoProvider {
            super::CryptoProvider { signature_verification_algorithms: super::WebPkiSupportedAlgorithms(()) }
        }
    }
    type R = Result<crate::client::danger::HandshakeSignatureValid, Error>;
    pub fn verify_tls12_signature(_: &[u8], _: &pki_types::CertificateDer<'_>, _: &DigitallySignedStruct, _: &WebPkiSupportedAlgorithms) -> R {
        Err(Error)
    }
    pub fn verify_tls13_signature(_: &[u8], _: &pki_types::CertificateDer<'_>, _: &DigitallySignedStruct, _: &WebPkiSupportedAlgorithms) -> R {
        Err(Error)
    }
}
pub mod client {
    pub mod danger {
        use crate::{pki_types::*, *};
        #[derive(Debug)]
        pub struct ServerCertVerified(());
        impl ServerCertVerified {
            pub fn assertion() -> Self {
                Self(())
            }
        }
        #[derive(Debug)]
        pub struct HandshakeSignatureValid(());
        pub trait ServerCertVerifier: std::fmt::Debug + Send + Sync {
            fn verify_server_cert(&self, end_entity: &CertificateDer<'_>, intermediates: &[CertificateDer<'_>], server_name: &ServerName<'_>, ocsp: &[u8], now: UnixTime) -> Result<ServerCertVerified, Error>;
            fn verify_tls12_signature(&self, message: &[u8], cert: &CertificateDer<'_>, dss: &DigitallySignedStruct) -> Result<HandshakeSignatureValid, Error>;
            fn verify_tls13_signature(&self, message: &[u8], cert: &CertificateDer<'_>, dss: &DigitallySignedStruct) -> Result<HandshakeSignatureValid, Error>;
            fn supported_verify_schemes(&self) -> Vec<SignatureScheme>;
        }
    }
}
pub struct ServerConfig {
    pub alpn_protocols: Vec<Vec<u8>>,
}
pub struct ClientConfig {
    pub alpn_protocols: Vec<Vec<u8>>,
}
pub struct SB(());
pub struct CB(());
impl ServerConfig {
    pub fn builder() -> SB {
        SB(())
    }
}
impl SB {
    pub fn with_no_client_auth(self) -> Self {
        self
    }
    pub fn with_single_cert(self, _: Vec<pki_types::CertificateDer<'static>>, _: pki_types::PrivateKeyDer<'static>) -> Result<ServerConfig, Error> {
        Ok(ServerConfig { alpn_protocols: vec![] })
    }
}
impl ClientConfig {
    pub fn builder() -> CB {
        CB(())
    }
}
impl CB {
    pub fn dangerous(self) -> Self {
        self
    }
    pub fn with_custom_certificate_verifier(self, _: Arc<dyn client::danger::ServerCertVerifier>) -> Self {
        self
    }
    pub fn with_no_client_auth(self) -> ClientConfig {
        ClientConfig { alpn_protocols: vec![] }
    }
}
