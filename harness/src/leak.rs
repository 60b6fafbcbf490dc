//! Finding secret bytes in text, in whatever encoding they were written.
use num_bigint_dig::BigUint;
use std::collections::HashSet;

const W: usize = 8;

/// all windows of bytes that some reading of a text yields
pub struct Text {
    windows: HashSet<[u8; W]>,
}
fn b64(c: u8) -> Option<u32> {
    Some(match c {
        b'A'..=b'Z' => c - b'A',
        b'a'..=b'z' => c - b'a' + 26,
        b'0'..=b'9' => c - b'0' + 52,
        b'+' | b'-' => 62,
        b'/' | b'_' => 63,
        _ => return None,
    } as u32)
}
impl Text {
    pub fn new(s: &str) -> Text {
        let mut t = Text { windows: HashSet::new() };
        t.lists(s);
        t.base64(s.as_bytes());
        t.escapes(s.as_bytes());
        t
    }
    fn add(&mut self, b: &[u8]) {
        for w in b.windows(W) {
            if telling(w) {
                self.windows.insert(w.try_into().unwrap());
            }
        }
    }
    /// hexadecimal and decimal strings, lists of numbers
    fn lists(&mut self, s: &str) {
        let (mut dec, mut hex): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if !b[i].is_ascii_alphanumeric() {
                if !(b[i] == b',' || b[i] == b':' || b[i] == b';' || b[i] == b'-' || b[i].is_ascii_whitespace()) {
                    self.add(&std::mem::take(&mut dec));
                    self.add(&std::mem::take(&mut hex));
                }
                i += 1;
                continue;
            }
            let from = i;
            while i < b.len() && b[i].is_ascii_alphanumeric() {
                i += 1;
            }
            let tok = &s[from..i];
            match tok.parse::<u8>() {
                Ok(x) => dec.push(x),
                Err(_) => {
                    let d = std::mem::take(&mut dec);
                    self.add(&d);
                }
            }
            let h = tok.strip_prefix("0x").or(tok.strip_prefix("0X")).unwrap_or(tok);
            match u8::from_str_radix(h, 16) {
                Ok(x) if h.len() <= 2 => hex.push(x),
                _ => {
                    let d = std::mem::take(&mut hex);
                    self.add(&d);
                }
            }
            if h.len() >= 2 * W && h.bytes().all(|c| c.is_ascii_hexdigit()) {
                for k in 0..2 {
                    let x = &h[k..];
                    if let Ok(v) = hex::decode(&x[..x.len() / 2 * 2]) {
                        self.add(&v);
                    }
                }
                // a number without its leading zero
                if h.len() % 2 == 1 {
                    if let Ok(v) = hex::decode(format!("0{h}")) {
                        self.add(&v);
                    }
                }
            }
            if tok.len() >= 18 && tok.bytes().all(|c| c.is_ascii_digit()) {
                if let Some(n) = BigUint::parse_bytes(tok.as_bytes(), 10) {
                    self.add(&n.to_bytes_le());
                }
            }
        }
        self.add(&dec);
        self.add(&hex);
    }
    fn base64(&mut self, b: &[u8]) {
        for run in b.split(|c| b64(*c).is_none()) {
            if run.len() < 11 {
                continue;
            }
            for k in 0..4 {
                let mut out = vec![];
                let (mut acc, mut n) = (0u32, 0);
                for c in &run[k..] {
                    acc = acc << 6 | b64(*c).unwrap();
                    n += 6;
                    if n >= 8 {
                        n -= 8;
                        out.push((acc >> n) as u8);
                        acc &= (1 << n) - 1;
                    }
                }
                self.add(&out);
            }
        }
    }
    fn escapes(&mut self, b: &[u8]) {
        let mut out = vec![];
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'\\' && i + 1 < b.len() {
                match b[i + 1] {
                    b'x' if i + 3 < b.len() => {
                        if let Some(x) = std::str::from_utf8(&b[i + 2..i + 4]).ok().and_then(|s| u8::from_str_radix(s, 16).ok()) {
                            out.push(x);
                            i += 4;
                            continue;
                        }
                    }
                    b'n' => out.push(b'\n'),
                    b't' => out.push(b'\t'),
                    b'r' => out.push(b'\r'),
                    b'0' => out.push(0),
                    c => out.push(c),
                }
                i += 2;
                continue;
            }
            out.push(b[i]);
            i += 1;
        }
        self.add(&out);
    }
    /// does any part of the secret, forwards or backwards, appear?
    pub fn reveals(&self, secret: &[u8]) -> bool {
        let back: Vec<u8> = secret.iter().rev().cloned().collect();
        [secret, &back[..]].iter().any(|s| s.windows(W).any(|w| telling(w) && self.windows.contains(w)))
    }
}
/// enough entropy for an occurrence not to be a coincidence
fn telling(w: &[u8]) -> bool {
    let mut seen = [0u64; 4];
    for b in w {
        seen[(*b >> 6) as usize] |= 1 << (*b & 63);
    }
    seen.iter().map(|x| x.count_ones()).sum::<u32>() >= 7
}
/// is the secret one that can be looked for at all?
pub fn searchable(secret: &[u8]) -> bool {
    secret.windows(W).any(telling)
}
/// every part of it can be looked for
pub fn searchable_throughout(secret: &[u8]) -> bool {
    secret.windows(W).all(telling)
}
/// the secret written in one of several encodings
pub fn written(s: &[u8], how: u8) -> String {
    let back: Vec<u8> = s.iter().rev().cloned().collect();
    match how % 12 {
        0 => hex::encode(s),
        1 => hex::encode_upper(&back),
        2 => format!("{s:?}"),
        3 => format!("{back:#?}"),
        4 => format!("{s:x?}"),
        5 => format!("{s:#x?}"),
        6 => BigUint::from_bytes_le(s).to_string(),
        7 => format!("0x{}", BigUint::from_bytes_le(s).to_str_radix(16)),
        8 => s.escape_ascii().to_string(),
        9 => s.iter().map(|b| format!("{b:02X}")).collect::<Vec<_>>().join(":"),
        10 => hex::encode(&s[s.len() / 2..]),
        _ => {
            const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
            let mut out = String::new();
            for c in s.chunks(3) {
                let x = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
                for k in (0..4).rev() {
                    out.push(A[(x >> (6 * k)) as usize & 63] as char);
                }
            }
            out
        }
    }
}
