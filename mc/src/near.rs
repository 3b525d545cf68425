//! Values that are almost, but not, equal to a given one: what a sloppy comparison confuses.

use std::collections::BTreeSet;

/// Texts that a comparison that trims, folds case, stops early or normalises would take for `s`.
pub fn texts(s: &str) -> Vec<String> {
    let mut out: BTreeSet<String> = BTreeSet::new();
    out.insert(String::new());
    for p in [
        " ", "\t", "\n", "\r\n", "\0", "\u{a0}", "\u{feff}", "\u{200b}", "a", "0", "/", "-v1.0",
        "\"", "\u{301}",
    ] {
        out.insert(format!("{}{}", s, p));
        out.insert(format!("{}{}", p, s));
    }
    out.insert(format!("{}{}", s, s));
    out.insert(s.to_uppercase());
    out.insert(s.to_lowercase());
    out.insert(s.chars().rev().collect());
    let cs: Vec<char> = s.chars().collect();
    for i in 0..cs.len() {
        // a character missing, doubled, in the other case, or its neighbour in the alphabet
        let mut c = cs.clone();
        c.remove(i);
        out.insert(c.iter().collect());
        let mut c = cs.clone();
        c.insert(i, cs[i]);
        out.insert(c.iter().collect());
        for other in [
            cs[i].to_ascii_uppercase(),
            cs[i].to_ascii_lowercase(),
            ((cs[i] as u8) ^ 1) as char,
            '-',
            '_',
            '.',
        ] {
            let mut c = cs.clone();
            c[i] = other;
            out.insert(c.iter().collect());
        }
        if i + 1 < cs.len() {
            let mut c = cs.clone();
            c.swap(i, i + 1);
            out.insert(c.iter().collect());
        }
        // every beginning and every end
        out.insert(cs[..i].iter().collect());
        out.insert(cs[i..].iter().collect());
    }
    out.remove(s);
    out.into_iter().collect()
}

/// 32 byte values that differ from `b` in one byte only (lowest bit, highest bit, gone), or that a
/// comparison of a part, in another order or up to a transposition would take for it.
pub fn bytes32(b: [u8; 32]) -> Vec<[u8; 32]> {
    let mut out: BTreeSet<[u8; 32]> = BTreeSet::new();
    for i in 0..32 {
        for e in [b[i] ^ 1, b[i] ^ 0x80, b[i] ^ 0x20, 0, !b[i]] {
            let mut c = b;
            c[i] = e;
            out.insert(c);
        }
        if i < 31 {
            let mut c = b;
            c.swap(i, i + 1);
            out.insert(c);
        }
        // only the first i bytes, or only those from i on, are right
        let mut c = b;
        c[i..].iter_mut().for_each(|x| *x = !*x);
        out.insert(c);
        let mut c = b;
        c[..i].iter_mut().for_each(|x| *x = !*x);
        out.insert(c);
        // two changes that cancel in a sum or an exclusive or of the bytes
        let mut c = b;
        c[i] ^= 4;
        c[(i + 16) % 32] ^= 4;
        out.insert(c);
    }
    let mut c = b;
    c.reverse();
    out.insert(c);
    let mut c = b;
    c.rotate_left(1);
    out.insert(c);
    let mut c = b;
    c.rotate_left(16);
    out.insert(c);
    out.insert([0; 32]);
    out.insert([0xff; 32]);
    out.remove(&b);
    out.into_iter().collect()
}
