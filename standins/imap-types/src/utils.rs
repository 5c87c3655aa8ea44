use std::borrow::Cow;

/// Converts bytes into a ready-to-be-printed form.
pub fn escape_byte_string<B: AsRef<[u8]>>(bytes: B) -> String {
    bytes
        .as_ref()
        .iter()
        .map(|byte| match byte {
            0x00..=0x08 => format!("\\x{byte:02x}"),
            0x09 => String::from("\\t"),
            0x0A => String::from("\\n"),
            0x0B => format!("\\x{byte:02x}"),
            0x0C => format!("\\x{byte:02x}"),
            0x0D => String::from("\\r"),
            0x0E..=0x1F => format!("\\x{byte:02x}"),
            0x20..=0x21 => format!("{}", *byte as char),
            0x22 => String::from("\\\""),
            0x23..=0x5B => format!("{}", *byte as char),
            0x5C => String::from("\\\\"),
            0x5D..=0x7E => format!("{}", *byte as char),
            0x7F => format!("\\x{byte:02x}"),
            0x80..=0xFF => format!("\\x{byte:02x}"),
        })
        .collect()
}

pub mod indicators {
    pub fn is_any_text_char_except_quoted_specials(byte: u8) -> bool {
        is_text_char(byte) && byte != b'"' && byte != b'\\'
    }
    pub fn is_text_char(byte: u8) -> bool {
        matches!(byte, 0x01..=0x09 | 0x0b..=0x0c | 0x0e..=0x7f)
    }
    pub fn is_char8(i: u8) -> bool {
        i != 0
    }
    pub fn is_resp_special(i: u8) -> bool {
        i == b']'
    }
    pub fn is_list_wildcard(i: u8) -> bool {
        i == b'%' || i == b'*'
    }
    pub fn is_quoted_specials(i: u8) -> bool {
        i == b'"' || i == b'\\'
    }
    pub fn is_atom_special(i: u8) -> bool {
        matches!(i, b'(' | b')' | b'{' | b' ')
            || i <= 0x1f
            || i >= 0x7f
            || is_list_wildcard(i)
            || is_quoted_specials(i)
            || is_resp_special(i)
    }
    pub fn is_atom_char(b: u8) -> bool {
        !is_atom_special(b)
    }
    pub fn is_astring_char(i: u8) -> bool {
        is_atom_char(i) || is_resp_special(i)
    }
    pub fn is_base64_char(i: u8) -> bool {
        i.is_ascii_alphanumeric() || i == b'+' || i == b'/'
    }
    pub fn is_list_char(i: u8) -> bool {
        is_atom_char(i) || is_list_wildcard(i) || is_resp_special(i)
    }
}

pub fn escape_quoted(unescaped: &str) -> Cow<str> {
    if unescaped.contains(['\\', '"']) {
        Cow::Owned(unescaped.replace('\\', "\\\\").replace('"', "\\\""))
    } else {
        Cow::Borrowed(unescaped)
    }
}

pub fn unescape_quoted(escaped: &str) -> Cow<str> {
    if !escaped.contains('\\') {
        return Cow::Borrowed(escaped);
    }
    let mut out = String::with_capacity(escaped.len());
    let mut it = escaped.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            if let Some(n) = it.next() {
                out.push(n);
            }
        } else {
            out.push(c);
        }
    }
    Cow::Owned(out)
}
