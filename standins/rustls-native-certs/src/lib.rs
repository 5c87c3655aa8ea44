//! Stand-in for `rustls-native-certs` 0.7: certificates from `SSL_CERT_FILE`, or the system bundle.
#![forbid(unsafe_code)]
use std::io::{Error, ErrorKind};

use rustls_pki_types::{pem::PemObject, CertificateDer};

pub fn load_native_certs() -> Result<Vec<CertificateDer<'static>>, Error> {
    let path = std::env::var_os("SSL_CERT_FILE")
        .unwrap_or_else(|| "/etc/ssl/certs/ca-certificates.crt".into());
    CertificateDer::pem_file_iter(path)
        .map_err(|e| Error::new(ErrorKind::InvalidData, e.to_string()))?
        .map(|c| c.map_err(|e| Error::new(ErrorKind::InvalidData, e.to_string())))
        .collect()
}
