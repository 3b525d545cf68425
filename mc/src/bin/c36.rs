//! C36: decoding foreign bytes is total, bounded, and neither invents nor loses anything.
//!
//! For every object that is decoded from bytes: all short byte strings; every truncation and every
//! change of one byte of the encodings of filled objects; every change of one place in the
//! structure of an encoding (a value dropped, doubled, replaced by each of a list of values of all
//! types, or announced longer than it is; entries renamed, added and reordered), and, for a smaller
//! set, of two places. An independent reader decides what the bytes say, and what is decoded must
//! say exactly that.

use std::alloc::{GlobalAlloc, Layout, System};

use mc::msgpack::{self as mp, V};
use mc::wire::{places, types, Type};
use mc::*;

thread_local! {
    static MAXREQ: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static SUM: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if l.size() > 1 << 33 {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if l.size() > 1 << 33 {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}
fn note(n: usize) {
    let _ = MAXREQ.try_with(|m| {
        if n > m.get() {
            m.set(n)
        }
    });
    let _ = SUM.try_with(|m| m.set(m.get().saturating_add(n)));
}
#[global_allocator]
static A: Counting = Counting;

/// Everything `r` says is said by `v`. `d` is what an empty object of the type says by itself.
fn says(r: &V, v: &V, d: Option<&V>) -> Result<(), String> {
    let look = |m: &[(V, V)], k: &V| -> Vec<V> {
        m.iter()
            .filter(|(x, _)| same(x, k))
            .map(|(_, y)| y.clone())
            .collect()
    };
    match (r, v) {
        (V::Map(rm), V::Map(vm)) => {
            for (k, x) in rm {
                let dk = d.and_then(|d| {
                    if let V::Map(m) = d {
                        look(m, k).pop()
                    } else {
                        None
                    }
                });
                let there = look(vm, k);
                // a field may be named by its number instead
                if vm
                    .iter()
                    .any(|(k, y)| matches!(k, V::U(_)) && says(x, y, dk.as_ref()).is_ok())
                {
                    continue;
                }
                if there.is_empty() {
                    if !x.is_blank() && dk.as_ref() != Some(x) {
                        return Err(format!("{:?} = {:?} is not in the input", k, x));
                    }
                } else if there.iter().all(|y| says(x, y, dk.as_ref()).is_err()) {
                    return Err(format!("{:?} = {:?}, the input has {:?}", k, x, there));
                }
            }
            Ok(())
        }
        // a structure given by position: every value comes from one of the places
        (V::Map(rm), V::Arr(va)) => {
            for (k, x) in rm {
                let dk = d.and_then(|d| {
                    if let V::Map(m) = d {
                        look(m, k).pop()
                    } else {
                        None
                    }
                });
                if !x.is_blank()
                    && dk.as_ref() != Some(x)
                    && va.iter().all(|y| says(x, y, dk.as_ref()).is_err())
                {
                    return Err(format!("{:?} = {:?} is not in the input", k, x));
                }
            }
            Ok(())
        }
        (V::Map(rm), V::Nil) if rm.iter().all(|(_, x)| x.is_blank()) => Ok(()),
        (V::Arr(ra), V::Arr(va)) if ra.len() == va.len() => {
            ra.iter().zip(va).try_for_each(|(x, y)| says(x, y, None))
        }
        _ if same(r, v) => Ok(()),
        _ => Err(format!("{:?} for {:?}", r, v)),
    }
}

/// Equal, except that bytes may be given as string, byte string or list, and an enumeration's
/// case by a table with one entry.
fn same(a: &V, b: &V) -> bool {
    if a == b {
        return true;
    }
    if let (V::Str(_), V::Map(m)) = (a, b) {
        return m.len() == 1 && same(a, &m[0].0) && matches!(m[0].1, V::Nil);
    }
    // an enumeration's case given by its number
    if let (V::Str(_), V::U(n)) = (a, b) {
        return *n < 64;
    }
    match (a, b) {
        (V::U(_) | V::I(_) | V::Bool(_) | V::Nil | V::F32(_) | V::F64(_), _) => false,
        _ => match (a.as_bytes(), b.as_bytes()) {
            (Some(x), Some(y)) => x == y,
            _ => false,
        },
    }
}

/// Everything both the original and the changed input say is said by the result.
fn keeps(orig: &V, v: &V, r: &V) -> Result<(), String> {
    match (orig, v, r) {
        (V::Map(om), V::Map(vm), V::Map(rm)) => {
            // a transaction of another kind has other fields
            let kind = |m: &[(V, V)]| {
                m.iter()
                    .filter(|(k, _)| *k == V::Str(b"type".to_vec()))
                    .map(|(_, x)| x.clone())
                    .collect::<Vec<_>>()
            };
            if kind(om) != kind(vm) || vm.iter().any(|(k, _)| matches!(k, V::U(_))) {
                return Ok(());
            }
            for (k, o) in om {
                let ys: Vec<&V> = vm
                    .iter()
                    .filter(|(x, _)| same(x, k))
                    .map(|(_, y)| y)
                    .collect();
                if ys.len() != 1 || ys[0].is_blank() {
                    continue;
                }
                match rm.iter().find(|(x, _)| same(x, k)) {
                    None if o == ys[0] => return Err(format!("{:?} = {:?} was lost", k, ys[0])),
                    None => {}
                    Some((_, x)) => keeps(o, ys[0], x)?,
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

fn one(
    r: &mut Report,
    t: &Type,
    blank: Option<&V>,
    orig: Option<&V>,
    b: &[u8],
    what: &dyn Fn() -> String,
) {
    r.step();
    MAXREQ.with(|m| m.set(0));
    SUM.with(|m| m.set(0));
    let res = guard(|| (t.redo)(b));
    let (req, sum) = (MAXREQ.with(|m| m.get()), SUM.with(|m| m.get()));
    let case = || {
        format!(
            "{}: {} (bytes {})",
            t.name,
            what(),
            hex(&b[..b.len().min(700)])
        )
    };
    let Some(res) = r.no_panic(res, "decode-panic", case) else {
        return;
    };
    r.check(
        req <= 256 * b.len() + (4 << 20),
        "decode-alloc",
        case,
        || {
            format!(
                "asked for {} bytes of memory at once for {} bytes of input",
                req,
                b.len()
            )
        },
    );
    r.check(
        sum <= 4096 * b.len() + (16 << 20),
        "decode-alloc",
        case,
        || {
            format!(
                "asked for {} bytes of memory for {} bytes of input",
                sum,
                b.len()
            )
        },
    );
    let input = mp::read(b);
    match (res, input) {
        (Err(_), _) => r.outcome("refused"),
        (Ok(_), None) => r.violation(
            "accepts-malformed",
            case(),
            "decodes, but is not a complete value",
        ),
        (Ok(e), Some(v)) => {
            r.trace();
            match guard(|| (t.redo)(&e)) {
                Ok(Ok(e2)) => {
                    r.check(e == e2, "unstable", case, || {
                        format!(
                            "decodes to something that encodes to {} and, decoded again, to {}",
                            hex(&e),
                            hex(&e2)
                        )
                    });
                }
                Ok(Err(x)) => r.violation(
                    "undecodable",
                    case(),
                    format!(
                        "decodes to something whose encoding {} does not decode: {}",
                        hex(&e),
                        x
                    ),
                ),
                Err(p) => r.violation("decode-panic", case(), p),
            }
            let Some(w) = mp::read(&e) else {
                return r.violation(
                    "malformed",
                    case(),
                    format!("decodes to something that encodes to {}", hex(&e)),
                );
            };
            if let Err(x) = says(&w, &v, blank) {
                r.violation("invented", case(), x);
            }
            if let Some(o) = orig {
                if let Err(x) = keeps(o, &v, &w) {
                    r.violation("lost", case(), x);
                }
            }
            if w == v {
                r.outcome("accepted as it is")
            } else {
                r.outcome("accepted in another form")
            }
        }
    }
}

fn substitutes() -> Vec<V> {
    let mut v = vec![
        V::Nil,
        V::Bool(false),
        V::Bool(true),
        V::U(0),
        V::U(1),
        V::U(255),
        V::U(256),
        V::U(65536),
        V::U(1 << 32),
        V::U(u64::MAX),
        V::I(-1),
        V::I(i64::MIN),
        V::F32(1.0f32.to_bits()),
        V::F64(1.5f64.to_bits()),
        V::F64(f64::NAN.to_bits()),
        V::Str(vec![]),
        V::Str(b"a".to_vec()),
        V::Str(vec![0xff]),
        V::Str(b"pay".to_vec()),
        V::Str(vec![b'x'; 32]),
        V::Str(b"Future".to_vec()),
        V::Str(b"Delete".to_vec()),
        V::Bin(vec![]),
        V::Bin(vec![1]),
        V::Bin(vec![3; 31]),
        V::Bin(vec![3; 32]),
        V::Bin(vec![3; 33]),
        V::Bin(vec![3; 63]),
        V::Bin(vec![3; 64]),
        V::Bin(vec![0xff; 64]),
        V::Bin(vec![3; 65]),
        V::Bin(vec![3; 80]),
        V::Arr(vec![]),
        V::Arr(vec![V::U(1)]),
        V::Arr(vec![V::U(256); 2]),
        V::Arr(vec![V::U(3); 31]),
        V::Arr(vec![V::U(3); 32]),
        V::Arr(vec![V::U(3); 33]),
        V::Arr(vec![V::U(3); 64]),
        V::Arr(vec![V::U(3); 65]),
        V::Arr(vec![V::Nil; 3]),
        V::Map(vec![]),
        V::Map(vec![(V::U(1), V::Nil)]),
        V::Map(vec![(V::Str(b"a".to_vec()), V::U(1))]),
        V::Map(vec![(V::U(1), V::U(1)), (V::U(1), V::U(2))]),
        V::Map(vec![(V::Str(b"Future".to_vec()), V::Nil)]),
        V::Ext(1, vec![1, 2]),
        V::Raw(vec![0xc1]),
    ];
    // things announced larger than they can be, and numbers in wider forms than they need
    for m in [0xc6u8, 0xc9, 0xdb, 0xdd, 0xdf] {
        for n in [0x7fff_ffffu32, 0xffff_ffff, 1 << 20] {
            let mut x = vec![m];
            x.extend_from_slice(&n.to_be_bytes());
            v.push(V::Raw(x));
        }
    }
    for m in [0xc5u8, 0xc8, 0xda, 0xdc, 0xde] {
        v.push(V::Raw(vec![m, 0xff, 0xff]));
    }
    for (m, w) in [
        (0xccu8, 1usize),
        (0xcd, 2),
        (0xce, 4),
        (0xcf, 8),
        (0xd0, 1),
        (0xd1, 2),
        (0xd2, 4),
        (0xd3, 8),
    ] {
        let mut x = vec![m];
        x.extend(std::iter::repeat(0).take(w - 1));
        x.push(5);
        v.push(V::Raw(x));
    }
    v
}

/// All inputs that differ from `v` in one place of its structure.
fn changes(v: &V, subs: &[V], mut f: impl FnMut(V, String)) {
    for p in places(v) {
        for s in subs {
            let mut x = v.clone();
            *x.at_mut(&p) = s.clone();
            f(x, format!("{:?} replaced by {:?}", p, s));
        }
        match v.at(&p) {
            V::Map(m) => {
                let n = m.len();
                let edit = |g: &dyn Fn(&mut Vec<(V, V)>)| {
                    let mut x = v.clone();
                    if let V::Map(m) = x.at_mut(&p) {
                        g(m);
                    }
                    x
                };
                for i in 0..n {
                    f(
                        edit(&|m| drop(m.remove(i))),
                        format!("{:?} without entry {}", p, i),
                    );
                    f(
                        edit(&|m| {
                            let e = m[i].clone();
                            m.push(e)
                        }),
                        format!("{:?} with entry {} twice", p, i),
                    );
                    f(
                        edit(&|m| {
                            let e = (m[i].0.clone(), V::Nil);
                            m.push(e)
                        }),
                        format!("{:?} with entry {} again as nil", p, i),
                    );
                    f(
                        edit(&|m| {
                            let e = m.remove(i);
                            m.insert(0, e)
                        }),
                        format!("{:?} with entry {} first", p, i),
                    );
                    f(
                        edit(&|m| {
                            let e = m.remove(i);
                            m.push(e)
                        }),
                        format!("{:?} with entry {} last", p, i),
                    );
                    for k in [
                        V::Str(b"zz".to_vec()),
                        V::Str(vec![]),
                        V::U(i as u64),
                        V::U(99),
                        V::Nil,
                        V::Bin(b"x".to_vec()),
                        V::Arr(vec![]),
                    ] {
                        f(
                            edit(&|m| m[i].0 = k.clone()),
                            format!("{:?} with entry {} called {:?}", p, i, k),
                        );
                    }
                    if let V::Str(s) = &m[i].0 {
                        f(
                            edit(&|m| m[i].0 = V::Bin(s.clone())),
                            format!("{:?} with the name of entry {} as bytes", p, i),
                        );
                        f(
                            edit(&|m| m[i].0 = V::Str([&s[..], b"x"].concat())),
                            format!("{:?} with entry {} renamed", p, i),
                        );
                    }
                    for j in 0..n {
                        if i != j {
                            f(
                                edit(&|m| m[i].0 = m[j].0.clone()),
                                format!("{:?} with entry {} called like entry {}", p, i, j),
                            );
                            f(
                                edit(&|m| m[i].1 = m[j].1.clone()),
                                format!("{:?} with entry {} as in entry {}", p, i, j),
                            );
                        }
                    }
                }
                for e in [
                    V::Nil,
                    V::U(5),
                    V::Bin(vec![7; 32]),
                    V::Map(vec![(V::U(1), V::U(2))]),
                    V::Arr(vec![V::Arr(vec![]); 3]),
                ] {
                    f(
                        edit(&|m| m.insert(0, (V::Str(b"unknown".to_vec()), e.clone()))),
                        format!("{:?} with an unknown entry {:?}", p, e),
                    );
                }
                f(edit(&|m| m.reverse()), format!("{:?} reversed", p));
                // given by position instead of by name
                let mut x = v.clone();
                *x.at_mut(&p) = V::Arr(m.iter().map(|(_, y)| y.clone()).collect());
                f(x, format!("{:?} by position", p));
            }
            V::Arr(a) => {
                let n = a.len();
                let edit = |g: &dyn Fn(&mut Vec<V>)| {
                    let mut x = v.clone();
                    if let V::Arr(a) = x.at_mut(&p) {
                        g(a);
                    }
                    x
                };
                for i in 0..n {
                    f(
                        edit(&|a| drop(a.remove(i))),
                        format!("{:?} without element {}", p, i),
                    );
                    f(
                        edit(&|a| {
                            let e = a[i].clone();
                            a.insert(i, e)
                        }),
                        format!("{:?} with element {} twice", p, i),
                    );
                }
                f(edit(&|a| a.reverse()), format!("{:?} reversed", p));
                f(
                    edit(&|a| a.push(V::U(0))),
                    format!("{:?} with a number more", p),
                );
                if let Some(b) = v.at(&p).as_bytes() {
                    for s in [V::Bin(b.clone()), V::Str(b.clone())] {
                        let mut x = v.clone();
                        *x.at_mut(&p) = s;
                        f(x, format!("{:?} as bytes", p));
                    }
                    lengths(v, &p, &b, true, &mut f);
                }
            }
            V::Str(b) | V::Bin(b) => {
                for s in [
                    V::Bin(b.clone()),
                    V::Str(b.clone()),
                    V::Arr(b.iter().map(|x| V::U(*x as u64)).collect()),
                ] {
                    let mut x = v.clone();
                    *x.at_mut(&p) = s;
                    f(x, format!("{:?} in another form of bytes", p));
                }
                lengths(v, &p, b, false, &mut f);
            }
            V::U(n) => {
                for m in [
                    n.wrapping_add(1),
                    n.wrapping_sub(1),
                    n | 1 << 8,
                    n | 1 << 16,
                    n | 1 << 32,
                    n | 1 << 63,
                ] {
                    let mut x = v.clone();
                    *x.at_mut(&p) = V::U(m);
                    f(x, format!("{:?} = {}", p, m));
                }
            }
            _ => {}
        }
    }
}

/// The bytes at a place, cut and continued to every other length up to beyond that of a signature.
fn lengths(v: &V, p: &[usize], b: &[u8], list: bool, f: &mut impl FnMut(V, String)) {
    for n in (0..=70).chain([80, 96, 128, 255, 256]) {
        for fill in [0, 3] {
            if n == b.len() || (n < b.len() && fill != 0) {
                continue;
            }
            let mut c = b.to_vec();
            c.resize(n, fill);
            let mut x = v.clone();
            *x.at_mut(p) = match (v.at(p), list) {
                (_, true) => V::Arr(c.iter().map(|x| V::U(*x as u64)).collect()),
                (V::Str(_), _) => V::Str(c),
                _ => V::Bin(c),
            };
            f(
                x,
                format!(
                    "{:?} of {} bytes, not {} (filled with {})",
                    p,
                    n,
                    b.len(),
                    fill
                ),
            );
        }
    }
}

enum Job {
    Short(usize, u8),
    Bytes(usize, usize, usize),
    Changes(usize, usize),
    Pairs(usize, usize, usize),
}

/// Deep nesting, in a process of its own: running out of stack kills it.
fn nested(i: usize, part: usize) {
    let ts = types();
    let t = &ts[i];
    let deep = |open: &[u8], n: usize, close: &[u8]| -> V {
        V::Raw([open.repeat(n), vec![0xc0], close.repeat(n)].concat())
    };
    let v: Vec<V> = vec![
        deep(&[0x91], 300_000, &[]),
        deep(&[0x81, 0xa1, b'a'], 300_000, &[]),
        deep(&[0x81], 200_000, &[0xc0]),
    ];
    let mut r = Report::new("C36");
    for s in &t.samples {
        let o = mp::read(s).expect("sample");
        let paths = places(&o);
        let step = paths.len() / 40 + 1;
        for d in &v {
            for p in paths.iter().step_by(step) {
                let mut x = o.clone();
                *x.at_mut(p) = d.clone();
                let b = mp::bytes(&x);
                r.check(
                    guard(|| (t.redo)(&b)).is_ok(),
                    "decode-panic",
                    || format!("{}: {:?} nested deeply", t.name, p),
                    || "panicked".into(),
                );
                r.step();
            }
            let mut x = o.clone();
            if let V::Map(m) = &mut x {
                m.insert(0, (V::Str(b"unknown".to_vec()), d.clone()));
                let b = mp::bytes(&x);
                r.check(
                    guard(|| (t.redo)(&b)).is_ok(),
                    "decode-panic",
                    || format!("{}: an unknown entry nested deeply", t.name),
                    || "panicked".into(),
                );
                r.step();
            }
        }
    }
    let _ = part;
    out(&r.to_child_json());
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 2 && args[1] == "nested" {
        let i: usize = args[2].parse().unwrap();
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || nested(i, 0))
            .unwrap()
            .join()
            .expect("nested");
        return;
    }
    let mut r = Report::new("C36");
    let ts = types();
    let subs = substitutes();
    let blanks: Vec<Option<V>> = ts.iter().map(|t| mp::read(&t.samples[0])).collect();
    let values: Vec<Vec<V>> = ts
        .iter()
        .map(|t| {
            t.samples
                .iter()
                .map(|s| mp::read(s).expect("sample"))
                .collect()
        })
        .collect();
    // the samples themselves
    for (i, t) in ts.iter().enumerate() {
        for (j, s) in t.samples.iter().enumerate() {
            r.state();
            let again = guard(|| (t.redo)(s));
            r.check(
                again == Ok(Ok(s.clone())),
                "sample",
                || format!("{}: sample {}", t.name, j),
                || format!("{} decodes to {:?}", hex(s), again),
            );
            r.check(
                mp::bytes(&values[i][j]) == *s,
                "sample-form",
                || format!("{}: sample {}", t.name, j),
                || format!("{} is not in the shortest form", hex(s)),
            );
        }
    }
    let mut jobs = Vec::new();
    for (i, t) in ts.iter().enumerate() {
        for first in 0..=255u8 {
            jobs.push(Job::Short(i, first));
        }
        for (j, s) in t.samples.iter().enumerate() {
            let mut a = 0;
            while a < s.len() {
                jobs.push(Job::Bytes(i, j, a));
                a += 64;
            }
            jobs.push(Job::Changes(i, j));
            if t.small || thorough() {
                let n = places(&values[i][j]).len();
                for k in 0..n {
                    jobs.push(Job::Pairs(i, j, k));
                }
            }
        }
    }
    parallel(&mut r, jobs, |r, job| match *job {
        Job::Short(i, first) => {
            let t = &ts[i];
            for n in 0..=tier(1, 2) {
                product(&vec![256; n], |x| {
                    let mut b = vec![first];
                    b.extend(x.iter().map(|y| *y as u8));
                    r.state();
                    one(r, t, blanks[i].as_ref(), None, &b, &|| "short bytes".into());
                });
            }
        }
        Job::Bytes(i, j, a) => {
            let t = &ts[i];
            let s = &t.samples[j];
            let v = &values[i][j];
            for k in a..(a + 64).min(s.len()) {
                r.states(2);
                one(r, t, blanks[i].as_ref(), None, &s[..k], &|| {
                    format!("sample {} cut after {} bytes", j, k)
                });
                let mut b = s.clone();
                for x in 0..=255u8 {
                    if x != s[k]
                        && (thorough()
                            || s.len() < 100
                            || x & 15 < 2
                            || x & 15 > 13
                            || x & 0xe0 == 0xc0
                            || x ^ s[k] < 4)
                    {
                        b[k] = x;
                        r.state();
                        one(r, t, blanks[i].as_ref(), Some(v), &b, &|| {
                            format!("sample {} with byte {} = {:02x}", j, k, x)
                        });
                    }
                }
                b[k] = s[k];
                b.remove(k);
                one(r, t, blanks[i].as_ref(), None, &b, &|| {
                    format!("sample {} without byte {}", j, k)
                });
            }
        }
        Job::Changes(i, j) => {
            let t = &ts[i];
            let v = &values[i][j];
            changes(v, &subs, |x, what| {
                r.state();
                one(r, t, blanks[i].as_ref(), Some(v), &mp::bytes(&x), &|| {
                    format!("sample {} with {}", j, what)
                });
            });
        }
        Job::Pairs(i, j, k) => {
            let t = &ts[i];
            let v = &values[i][j];
            let paths = places(v);
            let few: Vec<&V> = subs
                .iter()
                .step_by(if t.small { tier(4, 1) } else { 7 })
                .collect();
            for l in k + 1..paths.len() {
                if paths[l].starts_with(&paths[k]) {
                    continue;
                }
                for s1 in &few {
                    for s2 in &few {
                        let mut x = v.clone();
                        *x.at_mut(&paths[k]) = (*s1).clone();
                        *x.at_mut(&paths[l]) = (*s2).clone();
                        r.state();
                        one(r, t, blanks[i].as_ref(), Some(v), &mp::bytes(&x), &|| {
                            format!(
                                "sample {} with {:?} = {:?} and {:?} = {:?}",
                                j, paths[k], s1, paths[l], s2
                            )
                        });
                    }
                }
            }
        }
    });
    let cwd = scratch("nested");
    let idx: Vec<usize> = (0..ts.len()).collect();
    parallel(&mut r, idx, |r, i| {
        r.state();
        let (code, so, se) = run_self(&["nested", &i.to_string()], &cwd, &[], 120);
        if code != Some(0) || !r.merge_child_json(so.trim()) {
            r.violation(
                "nesting",
                format!("{}: values nested 300000 deep", ts[*i].name),
                format!(
                    "the process ended with {:?}: {}",
                    code,
                    se.chars().take(300).collect::<String>()
                ),
            );
        }
    });
    r.space("kinds of objects", ts.len() as u64);
    r.space(
        "encodings changed",
        ts.iter().map(|t| t.samples.len() as u64).sum::<u64>(),
    );
    r.space("all byte strings of length", tier("1 to 2", "1 to 3"));
    r.space("substitutes at every place", subs.len() as u64);
    r.assume("what follows a complete value is not read (as in go-algorand); entries with unknown names are ignored");
    r.finish()
}
