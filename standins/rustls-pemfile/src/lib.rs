//! Stand-in for `rustls-pemfile` 2 (which itself is a thin layer over the same parser).
#![forbid(unsafe_code)]
use std::io::{BufRead, Error, ErrorKind};

use rustls_pki_types::{pem::PemObject, CertificateDer, PrivatePkcs8KeyDer};

fn all<T: PemObject>(rd: &mut dyn BufRead) -> Vec<Result<T, Error>> {
    let mut bytes = vec![];
    if let Err(e) = rd.read_to_end(&mut bytes) {
        return vec![Err(e)];
    }
    T::pem_slice_iter(&bytes)
        .map(|r| r.map_err(|e| Error::new(ErrorKind::InvalidData, e.to_string())))
        .collect()
}
pub fn certs(
    rd: &mut dyn BufRead,
) -> impl Iterator<Item = Result<CertificateDer<'static>, Error>> + '_ {
    all(rd).into_iter()
}
pub fn pkcs8_private_keys(
    rd: &mut dyn BufRead,
) -> impl Iterator<Item = Result<PrivatePkcs8KeyDer<'static>, Error>> + '_ {
    all(rd).into_iter()
}
