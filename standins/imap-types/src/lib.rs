//! Stand-in for `imap-types` 2.0.0-alpha.1 (git rev 6aa651f), which cannot be fetched offline.
#![allow(mismatched_lifetime_syntaxes)]
#![forbid(unsafe_code)]

pub mod auth;
pub mod command;
pub mod core;
pub mod error;
pub mod extensions;
pub mod fetch;
pub mod flag;
pub mod mailbox;
pub mod response;
pub mod search;
pub mod secret;
pub mod sequence;
pub mod state;
pub mod status;
pub mod utils;

pub use bounded_static;

pub trait ToStatic {}
