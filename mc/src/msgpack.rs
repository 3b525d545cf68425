//! A small MessagePack reader and writer, independent of the one the code under test uses.

#[derive(Clone, PartialEq, Debug)]
pub enum V {
    Nil,
    Bool(bool),
    U(u64),
    I(i64),
    F32(u32),
    F64(u64),
    Str(Vec<u8>),
    Bin(Vec<u8>),
    Arr(Vec<V>),
    Map(Vec<(V, V)>),
    Ext(u8, Vec<u8>),
    /// bytes that are written as they are (never read)
    Raw(Vec<u8>),
}

fn take<'a>(b: &'a [u8], i: &mut usize, n: usize) -> Option<&'a [u8]> {
    if n > b.len() - *i {
        return None;
    }
    let s = &b[*i..*i + n];
    *i += n;
    Some(s)
}
fn num(b: &[u8], i: &mut usize, n: usize) -> Option<u64> {
    Some(take(b, i, n)?.iter().fold(0u64, |a, x| a << 8 | *x as u64))
}

/// Reads one value; `None` if the bytes end before it does or it is malformed.
pub fn parse(b: &[u8], i: &mut usize, depth: usize) -> Option<V> {
    if depth > 2000 {
        return None;
    }
    let m = *b.get(*i)?;
    *i += 1;
    let arr = |n: u64, i: &mut usize| -> Option<V> {
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(parse(b, i, depth + 1)?);
        }
        Some(V::Arr(v))
    };
    let map = |n: u64, i: &mut usize| -> Option<V> {
        let mut v = Vec::new();
        for _ in 0..n {
            let k = parse(b, i, depth + 1)?;
            v.push((k, parse(b, i, depth + 1)?));
        }
        Some(V::Map(v))
    };
    Some(match m {
        0..=0x7f => V::U(m as u64),
        0x80..=0x8f => return map((m & 15) as u64, i),
        0x90..=0x9f => return arr((m & 15) as u64, i),
        0xa0..=0xbf => V::Str(take(b, i, (m & 31) as usize)?.to_vec()),
        0xc0 => V::Nil,
        0xc1 => return None,
        0xc2 => V::Bool(false),
        0xc3 => V::Bool(true),
        0xc4..=0xc6 => {
            let n = num(b, i, 1 << (m - 0xc4))? as usize;
            V::Bin(take(b, i, n)?.to_vec())
        }
        0xc7..=0xc9 => {
            let n = num(b, i, 1 << (m - 0xc7))? as usize;
            let t = num(b, i, 1)? as u8;
            V::Ext(t, take(b, i, n)?.to_vec())
        }
        0xca => V::F32(num(b, i, 4)? as u32),
        0xcb => V::F64(num(b, i, 8)?),
        0xcc..=0xcf => V::U(num(b, i, 1 << (m - 0xcc))?),
        0xd0..=0xd3 => {
            let w = 1usize << (m - 0xd0);
            let x = num(b, i, w)?;
            let s = ((x << (64 - 8 * w)) as i64) >> (64 - 8 * w);
            if s >= 0 {
                V::U(s as u64)
            } else {
                V::I(s)
            }
        }
        0xd4..=0xd8 => {
            let t = num(b, i, 1)? as u8;
            V::Ext(t, take(b, i, 1 << (m - 0xd4))?.to_vec())
        }
        0xd9..=0xdb => {
            let n = num(b, i, 1 << (m - 0xd9))? as usize;
            V::Str(take(b, i, n)?.to_vec())
        }
        0xdc | 0xdd => {
            let n = num(b, i, 2 << (m - 0xdc))?;
            return arr(n, i);
        }
        0xde | 0xdf => {
            let n = num(b, i, 2 << (m - 0xde))?;
            return map(n, i);
        }
        0xe0..=0xff => V::I(m as i8 as i64),
    })
}

pub fn read(b: &[u8]) -> Option<V> {
    parse(b, &mut 0, 0)
}

fn be(out: &mut Vec<u8>, x: u64, w: usize) {
    out.extend_from_slice(&x.to_be_bytes()[8 - w..]);
}

fn len(out: &mut Vec<u8>, n: usize, fix: Option<(u8, usize)>, codes: [Option<u8>; 3]) {
    if let Some((c, m)) = fix {
        if n < m {
            out.push(c | n as u8);
            return;
        }
    }
    for (j, c) in codes.iter().enumerate() {
        if let Some(c) = c {
            if n >> (8 << j) == 0 {
                out.push(*c);
                be(out, n as u64, 1 << j);
                return;
            }
        }
    }
}

/// Writes a value in its shortest form.
pub fn write(v: &V, out: &mut Vec<u8>) {
    match v {
        V::Nil => out.push(0xc0),
        V::Bool(b) => out.push(0xc2 | *b as u8),
        V::U(x) => match *x {
            0..=0x7f => out.push(*x as u8),
            0x80..=0xff => {
                out.push(0xcc);
                be(out, *x, 1)
            }
            0x100..=0xffff => {
                out.push(0xcd);
                be(out, *x, 2)
            }
            0x10000..=0xffff_ffff => {
                out.push(0xce);
                be(out, *x, 4)
            }
            _ => {
                out.push(0xcf);
                be(out, *x, 8)
            }
        },
        V::I(x) => {
            if *x >= -32 {
                out.push(*x as u8)
            } else {
                out.push(0xd3);
                be(out, *x as u64, 8)
            }
        }
        V::F32(x) => {
            out.push(0xca);
            be(out, *x as u64, 4)
        }
        V::F64(x) => {
            out.push(0xcb);
            be(out, *x, 8)
        }
        V::Str(s) => {
            len(
                out,
                s.len(),
                Some((0xa0, 32)),
                [Some(0xd9), Some(0xda), Some(0xdb)],
            );
            out.extend_from_slice(s)
        }
        V::Bin(s) => {
            len(out, s.len(), None, [Some(0xc4), Some(0xc5), Some(0xc6)]);
            out.extend_from_slice(s)
        }
        V::Ext(t, s) => {
            len(out, s.len(), None, [Some(0xc7), Some(0xc8), Some(0xc9)]);
            out.push(*t);
            out.extend_from_slice(s)
        }
        V::Arr(a) => {
            len(
                out,
                a.len(),
                Some((0x90, 16)),
                [None, Some(0xdc), Some(0xdd)],
            );
            a.iter().for_each(|x| write(x, out))
        }
        V::Map(a) => {
            len(
                out,
                a.len(),
                Some((0x80, 16)),
                [None, Some(0xde), Some(0xdf)],
            );
            a.iter().for_each(|(k, x)| {
                write(k, out);
                write(x, out)
            })
        }
        V::Raw(r) => out.extend_from_slice(r),
    }
}

pub fn bytes(v: &V) -> Vec<u8> {
    let mut o = Vec::new();
    write(v, &mut o);
    o
}

impl V {
    /// The values (not keys) inside this one, in order.
    pub fn children(&self) -> Vec<&V> {
        match self {
            V::Arr(a) => a.iter().collect(),
            V::Map(m) => m.iter().map(|(_, x)| x).collect(),
            _ => vec![],
        }
    }
    pub fn child_mut(&mut self, i: usize) -> &mut V {
        match self {
            V::Arr(a) => &mut a[i],
            V::Map(m) => &mut m[i].1,
            _ => unreachable!(),
        }
    }
    pub fn at_mut(&mut self, path: &[usize]) -> &mut V {
        path.iter().fold(self, |v, i| v.child_mut(*i))
    }
    pub fn at(&self, path: &[usize]) -> &V {
        path.iter().fold(self, |v, i| v.children()[*i])
    }
    /// The paths of all values inside, this one (the empty path) first.
    pub fn paths(&self) -> Vec<Vec<usize>> {
        fn go(v: &V, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            out.push(p.clone());
            for (i, c) in v.children().into_iter().enumerate() {
                p.push(i);
                go(c, p, out);
                p.pop();
            }
        }
        let mut out = Vec::new();
        go(self, &mut Vec::new(), &mut out);
        out
    }
    /// Says nothing: zero, false, empty, absent, or made of such values only.
    pub fn is_blank(&self) -> bool {
        match self {
            V::Nil => true,
            V::Bool(b) => !b,
            V::U(x) => *x == 0,
            V::I(x) => *x == 0,
            V::F32(x) => *x == 0,
            V::F64(x) => *x == 0,
            V::Str(s) | V::Bin(s) => s.iter().all(|x| *x == 0),
            V::Ext(_, _) | V::Raw(_) => false,
            V::Arr(a) => a.iter().all(|x| x.is_blank()),
            V::Map(m) => m.iter().all(|(_, x)| x.is_blank()),
        }
    }
    /// The bytes of a string, byte string or list of small numbers.
    pub fn as_bytes(&self) -> Option<Vec<u8>> {
        match self {
            V::Str(s) | V::Bin(s) => Some(s.clone()),
            V::Arr(a) => a
                .iter()
                .map(|x| {
                    if let V::U(n) = x {
                        u8::try_from(*n).ok()
                    } else {
                        None
                    }
                })
                .collect(),
            _ => None,
        }
    }
}
