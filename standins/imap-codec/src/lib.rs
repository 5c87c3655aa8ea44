//! Stand-in for `imap-codec` 2.0.0-alpha.1 (git rev 6aa651f), which cannot be fetched offline.
//!
//! Same public surface and contract for what imap-next, its proxy and its tests use; the grammar
//! covers the commands and responses listed in `imap-types` (stand-in).
#![allow(mismatched_lifetime_syntaxes)]
#![forbid(unsafe_code)]

mod codec;
pub mod decode;
pub mod encode;
mod parse;

pub use codec::{AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec};
pub use imap_types;
