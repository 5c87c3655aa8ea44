//! Stand-in for `tokio-rustls` 0.26, which cannot be fetched offline.
//!
//! Performs the handshake and hands out `(io, Connection)`. As with the real crate, bytes read
//! from the socket always go into the connection, so application data that arrives together with
//! the last handshake flight is already inside the connection when `into_inner` is called.
#![forbid(unsafe_code)]

use std::{io, sync::Arc};

pub use rustls;
use rustls::{pki_types::ServerName, ClientConfig, Connection, ServerConfig};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

pub mod client {
    #[derive(Debug)]
    pub struct TlsStream<IO> {
        pub(crate) io: IO,
        pub(crate) session: rustls::ClientConnection,
    }
    impl<IO> TlsStream<IO> {
        pub fn get_ref(&self) -> (&IO, &rustls::ClientConnection) {
            (&self.io, &self.session)
        }
        pub fn into_inner(self) -> (IO, rustls::ClientConnection) {
            (self.io, self.session)
        }
    }
}
pub mod server {
    #[derive(Debug)]
    pub struct TlsStream<IO> {
        pub(crate) io: IO,
        pub(crate) session: rustls::ServerConnection,
    }
    impl<IO> TlsStream<IO> {
        pub fn get_ref(&self) -> (&IO, &rustls::ServerConnection) {
            (&self.io, &self.session)
        }
        pub fn into_inner(self) -> (IO, rustls::ServerConnection) {
            (self.io, self.session)
        }
    }
}

#[allow(clippy::large_enum_variant)]
#[derive(Debug)]
pub enum TlsStream<T> {
    Client(client::TlsStream<T>),
    Server(server::TlsStream<T>),
}
impl<T> From<client::TlsStream<T>> for TlsStream<T> {
    fn from(s: client::TlsStream<T>) -> Self {
        Self::Client(s)
    }
}
impl<T> From<server::TlsStream<T>> for TlsStream<T> {
    fn from(s: server::TlsStream<T>) -> Self {
        Self::Server(s)
    }
}

#[derive(Clone)]
pub struct TlsAcceptor {
    inner: Arc<ServerConfig>,
}
impl From<Arc<ServerConfig>> for TlsAcceptor {
    fn from(inner: Arc<ServerConfig>) -> Self {
        Self { inner }
    }
}
impl TlsAcceptor {
    pub async fn accept<IO>(&self, mut io: IO) -> io::Result<server::TlsStream<IO>>
    where
        IO: AsyncRead + AsyncWrite + Unpin,
    {
        let session = rustls::ServerConnection::new(self.inner.clone())
            .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
        let mut conn = Connection::Server(session);
        handshake(&mut io, &mut conn).await?;
        let Connection::Server(session) = conn else {
            unreachable!()
        };
        Ok(server::TlsStream { io, session })
    }
}

#[derive(Clone)]
pub struct TlsConnector {
    inner: Arc<ClientConfig>,
}
impl From<Arc<ClientConfig>> for TlsConnector {
    fn from(inner: Arc<ClientConfig>) -> Self {
        Self { inner }
    }
}
impl TlsConnector {
    pub async fn connect<IO>(
        &self,
        domain: ServerName<'static>,
        mut io: IO,
    ) -> io::Result<client::TlsStream<IO>>
    where
        IO: AsyncRead + AsyncWrite + Unpin,
    {
        let session = rustls::ClientConnection::new(self.inner.clone(), domain)
            .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
        let mut conn = Connection::Client(session);
        handshake(&mut io, &mut conn).await?;
        let Connection::Client(session) = conn else {
            unreachable!()
        };
        Ok(client::TlsStream { io, session })
    }
}

async fn write_all<IO: AsyncWrite + Unpin>(io: &mut IO, conn: &mut Connection) -> io::Result<()> {
    let mut out = Vec::new();
    while conn.wants_write() {
        conn.write_tls(&mut out)?;
    }
    if !out.is_empty() {
        io.write_all(&out).await?;
        io.flush().await?;
    }
    Ok(())
}

async fn handshake<IO>(io: &mut IO, conn: &mut Connection) -> io::Result<()>
where
    IO: AsyncRead + AsyncWrite + Unpin,
{
    let mut buf = vec![0; 4096];
    loop {
        write_all(io, conn).await?;
        if !conn.is_handshaking() {
            return Ok(());
        }
        let n = io.read(&mut buf).await?;
        if n == 0 {
            return Err(io::Error::new(
                io::ErrorKind::UnexpectedEof,
                "tls handshake eof",
            ));
        }
        let mut chunk = &buf[..n];
        while !chunk.is_empty() {
            conn.read_tls(&mut chunk)?;
            if let Err(error) = conn.process_new_packets() {
                // Best effort: deliver the alert.
                let _ = write_all(io, conn).await;
                return Err(io::Error::new(io::ErrorKind::InvalidData, error));
            }
        }
    }
}
