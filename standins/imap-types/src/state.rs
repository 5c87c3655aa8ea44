//! IMAP states (not used by imap-next).
