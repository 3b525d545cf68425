//! C12: mnemonics encode keys one-to-one and reject anything else.
//!
//! Every key within one bit of a set of patterns is encoded and decoded; every replacement of every
//! word by every listed word, every transposition, length change and odd word is decoded; every
//! value of the padding bits is tried. An independent codec decides.

use std::collections::HashMap;

use algorsand::crypto::mnemonic::{key_to_mnemonic, mnemonic_to_key, phrase_to_key, WORDS};
use mc::*;

struct Ref {
    words: Vec<String>,
    index: HashMap<String, u32>,
}

impl Ref {
    fn bits(data: &[u8]) -> Vec<bool> {
        data.iter()
            .flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1))
            .collect()
    }
    fn chk(key: &[u8]) -> u32 {
        let h = model::sha(key);
        (h[0] as u32 | (h[1] as u32) << 8) & 0x7ff
    }
    fn encode(&self, key: &[u8; 32]) -> Vec<u32> {
        let bits = Self::bits(key);
        let mut v: Vec<u32> = (0..24)
            .map(|w| {
                (0..11)
                    .map(|i| (*bits.get(w * 11 + i).unwrap_or(&false) as u32) << i)
                    .sum()
            })
            .collect();
        v.push(Self::chk(key));
        v
    }
    fn decode(&self, words: &[String]) -> Option<[u8; 32]> {
        if words.len() != 25 {
            return None;
        }
        let idx: Option<Vec<u32>> = words.iter().map(|w| self.index.get(w).copied()).collect();
        let idx = idx?;
        let mut key = [0u8; 32];
        for (w, v) in idx[..24].iter().enumerate() {
            for i in 0..11 {
                if v >> i & 1 == 1 {
                    let p = w * 11 + i;
                    if p >= 256 {
                        return None;
                    }
                    key[p / 8] |= 1 << (p % 8);
                }
            }
        }
        (Self::chk(&key) == idx[24]).then_some(key)
    }
}

fn try_one(r: &mut Report, rf: &Ref, w: &[String]) {
    r.step();
    r.state();
    let case = || w.join(" ");
    let Some(got) = r.no_panic(guard(|| mnemonic_to_key(w)), "panic", case) else {
        return;
    };
    let want = rf.decode(w);
    r.outcome(if want.is_some() {
        "accepted"
    } else {
        "refused"
    });
    if got.as_ref().ok() != want.as_ref() {
        r.violation(
            if want.is_some() {
                "decode"
            } else {
                "accepts-invalid"
            },
            case(),
            format!(
                "decoded as {:?}, expected {:?}",
                got.as_ref().map(|x| hex(x)),
                want.map(|x| hex(&x))
            ),
        );
    }
    // the error says what is wrong
    if let Err(e) = &got {
        let kind = format!("{:?}", e);
        let expect = if w.len() != 25 {
            "WrongMnemonicLen"
        } else if w.iter().any(|x| !rf.index.contains_key(x)) {
            "InvalidWordInMnemonic"
        } else {
            "WrongChecksum"
        };
        r.check(kind.starts_with(expect), "error-kind", case, || {
            format!("{} instead of {}", kind, expect)
        });
    }
}

fn main() {
    let mut r = Report::new("C12");
    let text =
        std::fs::read_to_string(repo_dir().join("data/mnemonics_wordlist.txt")).expect("word list");
    let words: Vec<String> = text.lines().map(|s| s.to_string()).collect();
    let index: HashMap<String, u32> = words
        .iter()
        .enumerate()
        .map(|(i, w)| (w.clone(), i as u32))
        .collect();
    r.check(
        words.len() == 2048
            && index.len() == 2048
            && words
                .iter()
                .all(|w| !w.is_empty() && w.bytes().all(|b| b.is_ascii_lowercase())),
        "word-list",
        || "data/mnemonics_wordlist.txt".into(),
        || "2048 distinct lower-case words expected".into(),
    );
    r.check(
        WORDS.to_vec() == words,
        "word-list",
        || "WORDS".into(),
        || "differs from the file".into(),
    );
    // fixed points of the format: 'abandon' * 24 + 'invest' is the all-zero key
    let zero: Vec<String> = std::iter::repeat("abandon")
        .take(24)
        .chain(["invest"])
        .map(String::from)
        .collect();
    r.check(
        key_to_mnemonic([0; 32]) == zero,
        "format",
        || "zero key".into(),
        || "unexpected phrase".into(),
    );
    let rf = Ref { words, index };

    let mut bases = vec![[0u8; 32], [0xff; 32], [0x55; 32]];
    for i in 0..tier(3u8, 20) {
        bases.push(model::sha(&[i, 9]));
    }
    let mut keys = Vec::new();
    for b in &bases {
        for bit in 0..=256usize {
            let mut k = *b;
            if bit < 256 {
                k[bit / 8] ^= 1 << (bit % 8);
            }
            keys.push(k);
        }
    }
    // every value of every 11-bit word of the zero key: each listed word is used
    for w in 0..24usize {
        for v in 0..2048u32 {
            let mut k = [0u8; 32];
            let mut ok = true;
            for i in 0..11 {
                if v >> i & 1 == 1 {
                    let p = w * 11 + i;
                    if p >= 256 {
                        ok = false;
                        break;
                    }
                    k[p / 8] |= 1 << (p % 8);
                }
            }
            if ok && (thorough() || w == 0 || w == 23 || v % 64 == 1 || w % 12 == 7) {
                keys.push(k);
            }
        }
    }
    r.space("keys encoded and decoded", keys.len());
    let chunks: Vec<Vec<[u8; 32]>> = keys.chunks(500).map(|c| c.to_vec()).collect();
    parallel(&mut r, chunks, |r, ks| {
        for k in ks {
            r.state();
            r.steps(3);
            r.trace();
            let case = || hex(k);
            let Some(m) = r.no_panic(guard(|| key_to_mnemonic(*k)), "panic", case) else {
                continue;
            };
            let want: Vec<String> = rf
                .encode(k)
                .iter()
                .map(|i| rf.words[*i as usize].clone())
                .collect();
            r.check_eq(&m, &want, "format", case);
            r.check_eq(
                &guard(|| mnemonic_to_key(&m).ok()),
                &Ok(Some(*k)),
                "round-trip",
                case,
            );
            r.outcome("round-trip");
        }
    });

    // single-word replacements by every listed word, at every position
    let mut jobs = Vec::new();
    for (i, b) in bases.iter().enumerate() {
        for pos in 0..25usize {
            if thorough() || i < 4 || pos >= 22 {
                jobs.push((*b, pos));
            }
        }
    }
    r.space(
        "word replacements: (key, position) pairs x 2048 words",
        jobs.len(),
    );
    parallel(&mut r, jobs, |r, (k, pos)| {
        let base: Vec<String> = rf
            .encode(k)
            .iter()
            .map(|i| rf.words[*i as usize].clone())
            .collect();
        for w in &rf.words {
            let mut m = base.clone();
            m[*pos] = w.clone();
            try_one(r, &rf, &m);
        }
        r.sample("phrase", || base.join(" "));
    });
    // words that are nearly words of the list: shortened, lengthened, in capitals, with a letter changed
    // or two exchanged. In the phrase that has that word in that place everything else is right.
    let chunks: Vec<Vec<usize>> = (0..2048usize)
        .collect::<Vec<_>>()
        .chunks(64)
        .map(|c| c.to_vec())
        .collect();
    r.space("nearly words of the list", "every proper prefix of 2048 words, each with a letter more, in capitals, accents and signs, a letter changed, exchanged or left out");
    parallel(&mut r, chunks, |r, chunk| {
        for &i in chunk {
            // a key that has this word in its first place
            let mut key = model::sha(&[i as u8]);
            key[0] = i as u8;
            key[1] = key[1] & !7 | (i >> 8) as u8;
            let base: Vec<String> = rf
                .encode(&key)
                .iter()
                .map(|i| rf.words[*i as usize].clone())
                .collect();
            let w = &rf.words[i];
            r.check(
                &base[0] == w,
                "word-of-key",
                || w.clone(),
                || format!("{} instead", base[0]),
            );
            let mut near: Vec<String> = (0..w.len()).map(|n| w[..n].to_string()).collect();
            near.extend((1..w.len()).map(|n| w[n..].to_string()));
            near.extend((0..w.len()).map(|n| format!("{}{}", &w[..n], &w[n + 1..])));
            near.extend((0..w.len()).map(|n| {
                format!(
                    "{}{}{}",
                    &w[..n],
                    if &w[n..=n] == "e" { "i" } else { "e" },
                    &w[n + 1..]
                )
            }));
            near.extend(
                (0..w.len())
                    .map(|n| format!("{}{}{}", &w[..n], w[n..=n].to_uppercase(), &w[n + 1..])),
            );
            near.extend((0..w.len() - 1).map(|n| {
                format!(
                    "{}{}{}{}",
                    &w[..n],
                    &w[n + 1..n + 2],
                    &w[n..=n],
                    &w[n + 2..]
                )
            }));
            near.push(w.to_uppercase());
            near.extend(
                ["s", "e", "y", "ed", ",", ".", " ", "\u{301}", "0", "\0"]
                    .iter()
                    .map(|x| format!("{}{}", w, x)),
            );
            near.extend(
                [" ", "\u{feff}", "-", "a", "\""]
                    .iter()
                    .map(|x| format!("{}{}", x, w)),
            );
            near.push(i.to_string());
            near.sort();
            near.dedup();
            for x in near {
                if &x == w {
                    continue;
                }
                let mut m = base.clone();
                m[0] = x;
                try_one(r, &rf, &m);
            }
            // the same in the place of the checksum, for the shortened word
            if w.len() > 4 {
                let mut m = base.clone();
                let chk = base[24].clone();
                for n in 1..chk.len() {
                    m[24] = chk[..n].to_string();
                    try_one(r, &rf, &m);
                }
            }
        }
    });
    // transpositions, omissions, repetitions, odd words, lengths
    let odd = [
        "",
        " ",
        "Abandon",
        "ABANDON",
        "aband",
        "abandonn",
        "zoo ",
        "0",
        "é",
        "invest\n",
        "\u{200b}zoo",
    ];
    for b in &bases {
        let base: Vec<String> = rf
            .encode(b)
            .iter()
            .map(|i| rf.words[*i as usize].clone())
            .collect();
        for i in 0..25 {
            for j in i + 1..25 {
                let mut m = base.clone();
                m.swap(i, j);
                try_one(&mut r, &rf, &m);
            }
            let mut m = base.clone();
            m.remove(i);
            try_one(&mut r, &rf, &m);
            for w in ["abandon", "zoo"] {
                let mut m = base.clone();
                m.insert(i, w.into());
                try_one(&mut r, &rf, &m);
            }
            for j in 0..=25 {
                let mut m = base.clone();
                m.insert(j, base[i].clone());
                try_one(&mut r, &rf, &m);
                m.insert(j, base[i].clone());
                try_one(&mut r, &rf, &m);
                for w in odd {
                    let mut m = base.clone();
                    m.insert(j, w.to_string());
                    try_one(&mut r, &rf, &m);
                }
            }
            for w in odd {
                let mut m = base.clone();
                m[i] = w.to_string();
                try_one(&mut r, &rf, &m);
            }
        }
        for n in 0..60 {
            let m: Vec<String> = base.iter().cycle().take(n).cloned().collect();
            try_one(&mut r, &rf, &m);
        }
        // every value of the last data word with the checksum word that the shortened key has
        let mut key = [0u8; 32];
        key.copy_from_slice(&b[..]);
        for v in 0..2048u32 {
            let mut k2 = key;
            for i in 0..3 {
                k2[31] = k2[31] & !(1 << (5 + i)) | ((v >> i & 1) as u8) << (5 + i);
            }
            let mut m = base.clone();
            m[23] = rf.words[v as usize].clone();
            m[24] = rf.words[Ref::chk(&k2) as usize].clone();
            try_one(&mut r, &rf, &m);
            // padding bits may also enter the checksum of a naive decoder
            let k3 = [&k2[..], &[(v >> 3) as u8]].concat();
            m[24] = rf.words[Ref::chk(&k3) as usize].clone();
            try_one(&mut r, &rf, &m);
        }
        // whole phrases, any white space
        for sep in [" ", "  ", "\n", "\t ", "\r\n"] {
            let ph = format!("{}{}{}", sep, base.join(sep), sep);
            r.step();
            r.check_eq(
                &guard(|| phrase_to_key(&ph).ok()),
                &Ok(Some(*b)),
                "phrase",
                || ph.clone(),
            );
        }
        for sep in [",", "-", "", "\u{200b}"] {
            let ph = base.join(sep);
            r.step();
            r.check(
                matches!(guard(|| phrase_to_key(&ph)), Ok(Err(_))),
                "phrase",
                || ph.clone(),
                || "accepted or panicked".into(),
            );
        }
    }
    r.finish()
}
