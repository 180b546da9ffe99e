//! Type-level stand-in for QUIC: no entry opens a connection.
use std::fmt;
use std::net::SocketAddr;
use std::sync::Arc;
macro_rules! err { ($($n:ident),*) => { $(
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct $n;
    impl fmt::Display for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(stringify!($n)) } }
    impl std::error::Error for $n {}
)* } }
err!(ClosedStream, ConnectError, ConnectionError, ReadExactError, ReadToEndError, ReadError, WriteError, NoInitialCipherSuite, VarIntBoundsExceeded);
#[derive(Debug)]
pub struct SendStream(());
#[derive(Debug)]
pub struct RecvStream(());
#[derive(Debug)]
pub struct Chunk {
    pub offset: u64,
    pub bytes: Vec<u8>,
}
impl SendStream {
    pub async fn write_all(&mut self, _: &[u8]) -> Result<(), WriteError> {
        Err(WriteError)
    }
    pub fn finish(&mut self) -> Result<(), ClosedStream> {
        Err(ClosedStream)
    }
}
impl RecvStream {
    pub async fn read_chunk(&mut self, _: usize, _: bool) -> Result<Option<Chunk>, ReadError> {
        Err(ReadError)
    }
    pub async fn read_exact(&mut self, _: &mut [u8]) -> Result<(), ReadExactError> {
        Err(ReadExactError)
    }
    pub async fn read_to_end(&mut self, _: usize) -> Result<Vec<u8>, ReadToEndError> {
        Err(ReadToEndError)
    }
}
#[derive(Debug, Clone)]
pub struct Connection(());
impl Connection {
    pub fn remote_address(&self) -> SocketAddr {
        unreachable!()
    }
    pub async fn accept_bi(&self) -> Result<(SendStream, RecvStream), ConnectionError> {
        Err(ConnectionError)
    }
    pub async fn open_bi(&self) -> Result<(SendStream, RecvStream), ConnectionError> {
        Err(ConnectionError)
    }
}
#[derive(Debug)]
pub struct Incoming(());
impl Incoming {
    pub fn remote_address(&self) -> SocketAddr {
        unreachable!()
    }
}
impl std::future::IntoFuture for Incoming {
    type Output = Result<Connection, ConnectionError>;
    type IntoFuture = std::future::Ready<Self::Output>;
    fn into_future(self) -> Self::IntoFuture {
        std::future::ready(Err(ConnectionError))
    }
}
#[derive(Debug, Clone)]
pub struct Endpoint(());
impl Endpoint {
    pub fn server(_: ServerConfig, _: SocketAddr) -> std::io::Result<Endpoint> {
        Ok(Endpoint(()))
    }
    pub fn set_default_client_config(&mut self, _: ClientConfig) {}
    pub fn local_addr(&self) -> std::io::Result<SocketAddr> {
        Err(std::io::ErrorKind::Unsupported.into())
    }
    pub async fn accept(&self) -> Option<Incoming> {
        None
    }
    pub fn connect(&self, _: SocketAddr, _: &str) -> Result<std::future::Ready<Result<Connection, ConnectionError>>, ConnectError> {
        Err(ConnectError)
    }
}
pub struct IdleTimeout(());
impl TryFrom<std::time::Duration> for IdleTimeout {
    type Error = VarIntBoundsExceeded;
    fn try_from(_: std::time::Duration) -> Result<Self, Self::Error> {
        Ok(IdleTimeout(()))
    }
}
#[derive(Default)]
pub struct TransportConfig(());
impl TransportConfig {
    pub fn keep_alive_interval(&mut self, _: Option<std::time::Duration>) -> &mut Self {
        self
    }
    pub fn max_idle_timeout(&mut self, _: Option<IdleTimeout>) -> &mut Self {
        self
    }
}
pub struct ServerConfig {
    pub transport: Arc<TransportConfig>,
}
impl ServerConfig {
    pub fn with_crypto(_: Arc<crypto::rustls::QuicServerConfig>) -> Self {
        ServerConfig { transport: Arc::new(TransportConfig(())) }
    }
}
pub struct ClientConfig(());
impl ClientConfig {
    pub fn new(_: Arc<crypto::rustls::QuicClientConfig>) -> Self {
        ClientConfig(())
    }
}
pub mod crypto {
    pub mod rustls {
        pub struct QuicServerConfig(());
        pub struct QuicClientConfig(());
        impl TryFrom<::rustls::ServerConfig> for QuicServerConfig {
            type Error = crate::NoInitialCipherSuite;
            fn try_from(_: ::rustls::ServerConfig) -> Result<Self, Self::Error> {
                Ok(QuicServerConfig(()))
            }
        }
        impl TryFrom<::rustls::ClientConfig> for QuicClientConfig {
            type Error = crate::NoInitialCipherSuite;
            fn try_from(_: ::rustls::ClientConfig) -> Result<Self, Self::Error> {
                Ok(QuicClientConfig(()))
            }
        }
    }
}
