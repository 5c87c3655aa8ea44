//! Markers to search for in texts.
use mon_common::Rng;

/// All ways in which a marker could be written out.
pub struct Marker {
    pub text: String,
    forms: Vec<(&'static str, String)>,
}

fn base64(b: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            s.push(T[(n >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    s
}

impl Marker {
    pub fn new(rng: &mut Rng) -> Self {
        let text: String = "Zq".chars().chain((0..14).map(|_| *rng.pick(b"bcdfghjkmnpqrstvwxzBCDFGHJKMNPQRSTVWXZ23456789") as char)).collect();
        let list = |f: &dyn Fn(&u8) -> String| text.bytes().map(|b| f(&b)).collect::<Vec<_>>().join(",");
        let mut forms = vec![
            ("plain text", text.clone()),
            ("decimal list", list(&|b| format!("{b}"))),
            ("hex list", list(&|b| format!("0x{b:x}"))),
            ("hex list", list(&|b| format!("{b:x}"))),
            ("hex", text.bytes().map(|b| format!("{b:02x}")).collect()),
            ("reversed text", text.chars().rev().collect()),
        ];
        // Base64 at every alignment, without the characters that depend on the neighbours
        for skip in 0..3usize {
            let b = text.as_bytes();
            let start = (3 - skip) % 3;
            let n = (b.len() - start) / 3 * 3;
            forms.push(("base64", base64(&b[start..start + n])));
        }
        Self { text, forms }
    }
    pub fn find(&self, s: &str) -> Option<&'static str> {
        let flat: String = s.chars().filter(|c| !c.is_whitespace()).collect();
        let lower = flat.to_lowercase();
        for (name, f) in &self.forms {
            if flat.contains(f.as_str()) {
                return Some(name);
            }
            if *name != "base64" && lower.contains(&f.to_lowercase()) {
                return Some(name);
            }
        }
        // Parts of it are as bad
        let t = self.text.as_bytes();
        for w in t.windows(8) {
            let w = std::str::from_utf8(w).unwrap();
            if flat.contains(w) {
                return Some("part of the text");
            }
        }
        None
    }
}
