//! C03: the trie node codec round-trips and its decoder is total.
//!
//! Exhaustive decoding of all byte strings up to a length over the full alphabet and, over a
//! reduced alphabet of structurally significant bytes, up to a larger length, against a reference
//! decoder; truncations, single-byte edits and extreme length prefixes of real nodes. A counting
//! allocator bounds what the decoder may request.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering};

use algorsand::crypto::Node;
use mc::*;

thread_local! { static MAXREQ: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
static CALLS: AtomicU64 = AtomicU64::new(0);

struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        // An absurd request from the code under test must not exhaust the machine.
        if l.size() > 1 << 30 {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}
fn note(n: usize) {
    let _ = MAXREQ.try_with(|m| {
        if n > m.get() {
            m.set(n)
        }
    });
}
#[global_allocator]
static A: Counting = Counting;

#[derive(PartialEq, Eq, Debug, Clone)]
struct Ref {
    hash: Vec<u8>,
    children: Option<Vec<(u8, u64)>>,
}

/// Unsigned LEB128 with at most 10 bytes; `None` if it does not end in time or overflows u64.
fn varint(b: &[u8], i: &mut usize) -> Option<Option<u64>> {
    let mut v: u128 = 0;
    let mut n = 0;
    loop {
        let x = *b.get(*i)?;
        *i += 1;
        v |= ((x & 0x7f) as u128) << (7 * n);
        n += 1;
        if x & 0x80 == 0 {
            return Some(if v > u64::MAX as u128 || n > 10 {
                None
            } else {
                Some(v as u64)
            });
        }
        if n >= 10 {
            return Some(None);
        }
    }
}

/// What the bytes mean; `Err(true)` = certainly malformed, `Err(false)` = not specified (kind byte
/// other than 0/1, duplicate child entries, overlong or overflowing varints): either answer is
/// allowed as long as nothing panics and nothing outside the input is invented.
fn reference(b: &[u8]) -> Result<Ref, bool> {
    let mut i = 0;
    let len = varint(b, &mut i).ok_or(true)?.ok_or(false)?;
    if len > (b.len() - i) as u64 {
        return Err(true);
    }
    let hash = b[i..i + len as usize].to_vec();
    i += len as usize;
    let kind = *b.get(i).ok_or(true)?;
    i += 1;
    match kind {
        0 => {
            if i == b.len() {
                Ok(Ref {
                    hash,
                    children: None,
                })
            } else {
                Err(false)
            }
        }
        1 => {
            let mut ch: Vec<(u8, u64)> = Vec::new();
            while i < b.len() {
                let c = b[i];
                i += 1;
                let id = varint(b, &mut i).ok_or(true)?.ok_or(false)?;
                if ch.iter().any(|(x, _)| *x >= c) {
                    return Err(false);
                }
                ch.push((c, id));
            }
            Ok(Ref {
                hash,
                children: Some(ch),
            })
        }
        _ => Err(false),
    }
}

fn from_node(n: &Node) -> Ref {
    Ref {
        hash: n.hash.clone(),
        children: n.children.map(|ch| {
            ch.iter()
                .enumerate()
                .filter_map(|(i, c)| c.map(|c| (i as u8, c)))
                .collect()
        }),
    }
}

fn decode(r: &mut Report, b: &[u8]) {
    r.step();
    CALLS.fetch_add(1, Ordering::Relaxed);
    MAXREQ.with(|m| m.set(0));
    let res = guard(|| Node::deserialize(b).map(|n| from_node(&n)));
    let req = MAXREQ.with(|m| m.get());
    let case = || format!("Node::deserialize({})", hex(&b[..b.len().min(80)]));
    let Some(got) = r.no_panic(res, "decode-panic", case) else {
        return;
    };
    r.check(req <= 64 * b.len() + 65536, "decode-alloc", case, || {
        format!(
            "a single allocation of {} bytes for {} input bytes",
            req,
            b.len()
        )
    });
    match (reference(b), &got) {
        (Ok(w), Some(g)) => {
            r.outcome("accepted");
            r.check_eq(g, &w, "decode-value", case);
        }
        (Ok(w), None) => r.violation(
            "decode-rejects-valid",
            case(),
            format!("reference decodes {:?}", w),
        ),
        (Err(true), Some(g)) => r.violation(
            "decode-accepts-malformed",
            case(),
            format!("decoded {:?}", g),
        ),
        (Err(true), None) => r.outcome("rejected"),
        (Err(false), g) => {
            r.outcome("unspecified");
            if let Some(g) = g {
                // nothing invented: the hash is a substring of the input
                let ok = g.hash.is_empty() || b.windows(g.hash.len()).any(|w| w == &g.hash[..]);
                r.check(ok, "decode-invents", case, || format!("decoded {:?}", g));
            }
        }
    }
}

fn roundtrip(r: &mut Report, n: &Node) -> Vec<u8> {
    let mut buf = Vec::new();
    r.step();
    let case = || format!("{:?}", from_node(n));
    if r.no_panic(guard(|| n.serialize(&mut buf)), "encode-panic", case)
        .is_none()
    {
        return buf;
    }
    match r.no_panic(guard(|| Node::deserialize(&buf)), "decode-panic", case) {
        Some(Some(m)) => {
            r.check_eq(&from_node(&m), &from_node(n), "roundtrip", case);
            let mut b2 = Vec::new();
            m.serialize(&mut b2);
            r.check(b2 == buf, "re-encode", case, || {
                "re-encoding gives other bytes".into()
            });
        }
        Some(None) => r.violation("roundtrip", case(), "own encoding rejected"),
        None => {}
    }
    r.trace();
    // appended to a buffer that already holds something
    let mut b3 = vec![1, 2, 3];
    n.serialize(&mut b3);
    r.check(
        b3[3..] == buf[..] && b3[..3] == [1, 2, 3],
        "encode-append",
        case,
        || "serialising into a non-empty buffer differs".into(),
    );
    buf
}

fn extreme() -> ! {
    let mut r = Report::new("C03");
    for l in [
        1u64 << 20,
        1 << 31,
        (1 << 32) + 1,
        1 << 40,
        1 << 62,
        (1 << 63) - 1,
        1 << 63,
        u64::MAX - 1,
        u64::MAX,
    ] {
        let mut p = Vec::new();
        let mut v = l;
        while v >= 0x80 {
            p.push(v as u8 | 0x80);
            v >>= 7;
        }
        p.push(v as u8);
        for tail in [&[][..], &[0], &[0, 0], &[1; 40]] {
            let mut b = p.clone();
            b.extend_from_slice(tail);
            r.state();
            out(&hex(&b));
            decode(&mut r, &b);
        }
    }
    for n in 0..24 {
        for last in [0u8, 1, 0x7f] {
            let mut b = vec![0xff; n];
            b.push(last);
            b.push(0);
            r.state();
            out(&hex(&b));
            decode(&mut r, &b);
        }
    }
    out(&r.to_child_json());
    std::process::exit(0)
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("extreme") {
        extreme();
    }
    let mut r = Report::new("C03");
    // 1. all byte strings
    let full = tier(2usize, 3);
    for n in 0..=full {
        let firsts: Vec<usize> = if n == 0 { vec![0] } else { (0..256).collect() };
        parallel(&mut r, firsts, |r, f| {
            sequences(256, n.saturating_sub(1), |s| {
                let mut b: Vec<u8> = Vec::new();
                if n > 0 {
                    b.push(*f as u8);
                }
                b.extend(s.iter().map(|x| *x as u8));
                r.state();
                decode(r, &b);
                r.trace();
            });
        });
    }
    r.space("all byte strings up to length", full);
    let alpha = [0u8, 1, 2, 3, 0x7f, 0x80, 0xff];
    let deep = tier(6usize, 8);
    for n in full + 1..=deep {
        parallel(&mut r, (0..alpha.len()).collect(), |r, f| {
            sequences(alpha.len(), n - 1, |s| {
                let mut b = vec![alpha[*f]];
                b.extend(s.iter().map(|x| alpha[*x]));
                r.state();
                decode(r, &b);
                r.trace();
            });
        });
    }
    r.space("all strings over 7 structural bytes up to length", deep);
    // 2. all node shapes over boundary hashes, child indices and identifiers
    let hashes: Vec<Vec<u8>> = vec![
        vec![],
        vec![0],
        vec![1, 0],
        vec![0xff; 31],
        vec![7; 32],
        vec![8; 127],
        vec![9; 128],
        vec![1; 300],
    ];
    let ids = [
        0u64,
        1,
        127,
        128,
        16383,
        16384,
        u32::MAX as u64,
        u64::MAX >> 1,
        u64::MAX,
    ];
    let idx = [0usize, 1, 127, 128, 254, 255];
    let mut shapes = 0u64;
    let mut encs: std::collections::HashMap<Vec<u8>, Ref> = Default::default();
    let mut reals: Vec<Vec<u8>> = Vec::new();
    let mut push = |r: &mut Report, n: Node| {
        r.state();
        let b = roundtrip(r, &n);
        let rf = from_node(&n);
        if let Some(o) = encs.insert(b.clone(), rf.clone()) {
            r.check(
                o == rf,
                "encode-collision",
                || format!("{:?} / {:?}", o, rf),
                || "two nodes share an encoding".into(),
            );
        }
        if b.len() <= 80 {
            reals.push(b);
        }
    };
    for h in &hashes {
        push(
            &mut r,
            Node {
                dirty: false,
                hash: h.clone(),
                children: None,
            },
        );
        for mask in 0..1u32 << idx.len() {
            for (k, _) in ids.iter().enumerate() {
                let mut ch = [None; 256];
                let mut j = k;
                for (bit, i) in idx.iter().enumerate() {
                    if mask >> bit & 1 == 1 {
                        ch[*i] = Some(ids[j % ids.len()]);
                        j += 1;
                    }
                }
                shapes += 1;
                push(
                    &mut r,
                    Node {
                        dirty: k % 2 == 0,
                        hash: h.clone(),
                        children: Some(ch),
                    },
                );
            }
        }
    }
    let mut ch = [None; 256];
    for (i, c) in ch.iter_mut().enumerate() {
        *c = Some(i as u64 * 77);
    }
    push(
        &mut r,
        Node {
            dirty: true,
            hash: vec![5; 32],
            children: Some(ch),
        },
    );
    r.space("node shapes", shapes);
    // 3. malformed variants of real encodings
    reals.sort();
    reals.dedup();
    reals.retain(|b| b.len() <= 48);
    let step = (reals.len() / tier(60, 400)).max(1);
    let reals: Vec<Vec<u8>> = reals.into_iter().step_by(step).collect();
    r.space("real encodings mutated", reals.len());
    parallel(&mut r, reals, |r, b| {
        for cut in 0..b.len() {
            r.state();
            decode(r, &b[..cut]);
        }
        for i in 0..b.len() {
            for v in 0..=255u8 {
                let mut c = b.clone();
                c[i] = v;
                r.state();
                decode(r, &c);
            }
        }
        for v in 0..=255u8 {
            let mut c = b.clone();
            c.push(v);
            decode(r, &c);
        }
        r.trace();
    });
    // 4. extreme length prefixes, in a child process: an allocation failure aborts
    let cwd = scratch("child");
    let (rc, out, err) = run_self(&["extreme"], &cwd, &[], 60);
    let ok = rc == Some(0)
        && out
            .lines()
            .last()
            .map(|l| r.merge_child_json(l))
            .unwrap_or(false);
    if !ok {
        r.violation(
            "decode-abort",
            format!(
                "extreme length prefixes; last attempted input: {}",
                out.lines().last().unwrap_or("")
            ),
            format!(
                "decoding brought the process down (status {:?}): {}",
                rc, err
            ),
        );
    }
    r.sample("bytes", || {
        "0001ff01 -> inner node, empty hash, child 255 -> node 1".into()
    });
    r.finish()
}
