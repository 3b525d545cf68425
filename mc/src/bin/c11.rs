//! C11: addresses, digests and transaction IDs have exactly one textual form; parsing is total.
//!
//! All strings obtainable from the canonical texts of a set of values by one edit (every position,
//! every ASCII character and some others), by two substitutions among the trailing characters, of
//! every wrong length with a checksum that matches, and all very short strings, are parsed and
//! compared with an independent decoder.

use std::collections::HashMap;
use std::convert::TryFrom;
use std::str::FromStr;

use algorsand::crypto::CryptoHash;
use algorsand::data::basics::Address;
use algorsand::data::transactions::TxID;
use mc::*;

const ALPHA: &[u8; 32] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";

fn b32(data: &[u8]) -> String {
    let mut s = String::new();
    let bits = data.len() * 8;
    let bit = |i: usize| {
        if i < bits {
            data[i / 8] >> (7 - i % 8) & 1
        } else {
            0
        }
    };
    for i in 0..(bits + 4) / 5 {
        let v = (0..5).fold(0u8, |a, j| a << 1 | bit(i * 5 + j));
        s.push(ALPHA[v as usize] as char);
    }
    s
}

/// Strict decoder: exact length, alphabet, zero trailing bits.
fn unb32(s: &str, bytes: usize) -> Option<Vec<u8>> {
    let n = (bytes * 8 + 4) / 5;
    if s.len() != n {
        return None;
    }
    let mut out = vec![0u8; bytes];
    for (i, c) in s.bytes().enumerate() {
        let v = ALPHA.iter().position(|a| *a == c)? as u8;
        for j in 0..5 {
            let k = i * 5 + j;
            let b = v >> (4 - j) & 1;
            if k < bytes * 8 {
                out[k / 8] |= b << (7 - k % 8);
            } else if b != 0 {
                return None;
            }
        }
    }
    Some(out)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Addr,
    Hash,
    Tx,
}

fn text(k: Kind, v: &[u8; 32]) -> String {
    match k {
        Kind::Addr => b32(&[&v[..], &model::sha(v)[28..]].concat()),
        _ => b32(v),
    }
}

fn ref_parse(k: Kind, s: &str) -> Option<[u8; 32]> {
    let b = unb32(s, if k == Kind::Addr { 36 } else { 32 })?;
    let mut v = [0u8; 32];
    v.copy_from_slice(&b[..32]);
    (k != Kind::Addr || model::sha(&v)[28..] == b[32..]).then_some(v)
}

fn impl_text(k: Kind, v: &[u8; 32]) -> String {
    match k {
        Kind::Addr => Address(*v).to_string(),
        Kind::Hash => CryptoHash(*v).to_string(),
        Kind::Tx => TxID(CryptoHash(*v)).to_string(),
    }
}

fn impl_parse(k: Kind, s: &str) -> Option<[u8; 32]> {
    match k {
        Kind::Addr => Address::from_str(s).ok().map(|a| a.0),
        Kind::Hash => CryptoHash::try_from(s).ok().map(|h| h.0),
        Kind::Tx => TxID::try_from(s).ok().map(|t| t.0 .0),
    }
}

fn try_one(r: &mut Report, k: Kind, s: &str) {
    r.step();
    r.state();
    let Some(got) = r.no_panic(guard(|| impl_parse(k, s)), "parse-panic", || {
        format!("{:?} {:?}", k, s)
    }) else {
        return;
    };
    let want = ref_parse(k, s);
    r.outcome(if want.is_some() {
        "accepted"
    } else {
        "refused"
    });
    if got != want {
        r.violation(
            if want.is_none() {
                "accepts-non-canonical"
            } else {
                "parse"
            },
            format!("{:?} {:?}", k, s),
            format!(
                "parsed as {:?}, expected {:?}",
                got.map(|x| hex(&x)),
                want.map(|x| hex(&x))
            ),
        );
    }
    if let Some(v) = got {
        r.check(
            impl_text(k, &v) == s,
            "two-texts",
            || format!("{:?} {:?}", k, s),
            || format!("formats as {}", impl_text(k, &v)),
        );
    }
}

fn values() -> Vec<[u8; 32]> {
    let mut v = vec![[0u8; 32], [0xff; 32], [0x55; 32], [0xaa; 32]];
    for i in 0..tier(4u8, 24) {
        v.push(model::sha(&[i]));
    }
    v
}

fn main() {
    let mut r = Report::new("C11");
    r.assume("SHA-512/256 is collision resistant; inputs further than one edit (two in the tail) from a canonical text are covered only by length and short-string enumeration");
    let kinds = [Kind::Addr, Kind::Hash, Kind::Tx];

    // format / parse round trip over every value with at most one bit from the base patterns
    let mut texts: HashMap<(String, u8), [u8; 32]> = HashMap::new();
    for base in [[0u8; 32], [0xff; 32], model::sha(b"x")] {
        for bit in 0..=256usize {
            let mut v = base;
            if bit < 256 {
                v[bit / 8] ^= 1 << (bit % 8);
            }
            for (ki, k) in kinds.iter().enumerate() {
                r.state();
                r.steps(2);
                r.trace();
                let t = impl_text(*k, &v);
                r.check_eq(&t, &text(*k, &v), "format", || {
                    format!("{:?} {}", k, hex(&v))
                });
                let back = guard(|| impl_parse(*k, &t));
                r.check(
                    back == Ok(Some(v)),
                    "round-trip",
                    || format!("{:?} {}", k, hex(&v)),
                    || format!("{:?}", back),
                );
                if let Some(o) = texts.insert((t.clone(), ki as u8), v) {
                    r.check(
                        o == v,
                        "same-text",
                        || t.clone(),
                        || "two values share a text".into(),
                    );
                }
                r.sample("value", || format!("{:?} {}", k, t));
            }
            r.step();
            let h = CryptoHash(v);
            let low = guard(|| (h.trim_to_u64(), h.is_zero()));
            let want = v[..8].iter().rev().fold(0u64, |n, b| n << 8 | *b as u64);
            r.check(
                low == Ok((want, v == [0; 32])),
                "digest-number",
                || hex(&v),
                || format!("{:?}, leading bytes {}", low, want),
            );
        }
    }

    // one edit anywhere
    let mut chars: Vec<char> = (0u8..128).map(|b| b as char).collect();
    chars.extend(['\u{a0}', 'é', 'ａ', 'İ', '\u{200b}', '😀']);
    let mut jobs = Vec::new();
    for v in values() {
        for k in kinds {
            jobs.push((k, text(k, &v)));
        }
    }
    r.space("one-edit neighbourhoods", jobs.len());
    r.space("edit characters", chars.len());
    parallel(&mut r, jobs, |r, (k, t)| {
        let cs: Vec<char> = t.chars().collect();
        let join = |v: &[char]| v.iter().collect::<String>();
        for i in 0..=cs.len() {
            for c in &chars {
                let mut v = cs.clone();
                v.insert(i, *c);
                try_one(r, *k, &join(&v));
                if i < cs.len() {
                    let mut v = cs.clone();
                    v[i] = *c;
                    try_one(r, *k, &join(&v));
                }
            }
            try_one(r, *k, &join(&cs[..i]));
            try_one(r, *k, &join(&cs[i..]));
            for j in i + 1..cs.len() {
                if i < cs.len() {
                    let mut v = cs.clone();
                    v.swap(i, j);
                    try_one(r, *k, &join(&v));
                }
                let mut v = cs.clone();
                v.drain(i..j);
                try_one(r, *k, &join(&v));
            }
        }
        try_one(r, *k, &t.to_lowercase());
        for pre in ["", " ", "\t", "\n", "0x", "="] {
            for post in [" ", "\n", "\0", "=", "======", "A", "7777"] {
                try_one(r, *k, &format!("{}{}{}", pre, t, post));
            }
        }
        try_one(r, *k, &format!("{}{}", t, t));
        // two substitutions in the tail (checksum and trailing bits)
        let n = cs.len();
        let tail = 3.max(tier(3, 8));
        for i in n - tail..n {
            for j in i + 1..n {
                for a in ALPHA {
                    for b in ALPHA {
                        let mut v = cs.clone();
                        v[i] = *a as char;
                        v[j] = *b as char;
                        try_one(r, *k, &join(&v));
                    }
                }
            }
        }
        r.trace();
    });

    // every wrong length, with every kind of matching checksum
    for v in values() {
        for extra in 0..40usize {
            for fill in [0u8, 0xff, 0x41] {
                let chk = &model::sha(&v)[28..];
                for b in [
                    [&v[..], &vec![fill; extra], chk].concat(),
                    [&v[..], chk, &vec![fill; extra]].concat(),
                    [&vec![fill; extra], &v[..], chk].concat(),
                    v[..32 - extra.min(32)].to_vec(),
                    [&v[..32 - extra.min(32)], chk].concat(),
                    {
                        let w = &v[..32 - extra.min(32)];
                        [w, &model::sha(w)[28..]].concat()
                    },
                    {
                        let w = [&v[..], &vec![fill; extra]].concat();
                        [&w[..], &model::sha(&w)[28..]].concat()
                    },
                ] {
                    for k in kinds {
                        try_one(&mut r, k, &b32(&b));
                    }
                }
            }
        }
        // first bytes whose own checksum sits inside the 32 bytes (shortest overlap)
    }
    // all very short strings, and long uniform ones
    for k in kinds {
        try_one(&mut r, k, "");
        for a in &chars {
            try_one(&mut r, k, &a.to_string());
            for b in &chars {
                try_one(&mut r, k, &format!("{}{}", a, b));
            }
        }
        for n in 0..200 {
            for c in ['A', '7', 'a', '=', ' ', 'é'] {
                try_one(&mut r, k, &c.to_string().repeat(n));
            }
        }
    }
    r.finish()
}
