//! C24: sortition selects an exact binomial quantile, monotone and at most the stake.
//!
//! For a grid of stakes, totals and committee sizes (all small ones, and real ones up to the whole
//! money supply), the cumulative binomial distribution is computed in big integers; the outputs
//! tested are those on both sides of every boundary between two selections that a floating point
//! number can tell apart, and the extreme ones.

use algorsand::crypto::CryptoHash;
use algorsand::data::committee::sortition::select;
use mc::*;
use num::bigint::{BigInt, Sign};
use num::{One, ToPrimitive, Zero};

/// Fixed-point precision of the reference, in bits: all of the smallest probability and 500 more.
fn precision(n: u64, t: u64, e2: u64) -> usize {
    let p = e2 as f64 / 2.0 / t as f64;
    if p >= 1.0 {
        return 500;
    }
    (n as f64 * -(-p).ln_1p() / std::f64::consts::LN_2) as usize + 500
}

/// The relative error in the cumulative distribution that is granted to floating point numbers.
/// 2^-30.
const TOLERANCE: usize = 30;

/// cdf[j] = probability of at most j successes, as a multiple of 2^-bits, until all but 2^-80 is covered.
/// The chance of success is e / t.
fn reference(n: u64, t: &BigInt, e: &BigInt, bits: usize) -> Vec<BigInt> {
    let one = BigInt::one() << bits;
    let fail = t - e;
    if fail.is_zero() {
        // always successful: that takes n zeroes, represented by nothing at all
        return vec![];
    }
    // (fail / t) ^ n
    let mut pmf = one.clone();
    let mut square = (&one * &fail) / t;
    let mut k = n;
    while k > 0 {
        if k & 1 == 1 {
            pmf = (&pmf * &square) >> bits;
        }
        square = (&square * &square) >> bits;
        k >>= 1;
    }
    let mut cdf = vec![pmf.clone()];
    let limit = &one - (BigInt::one() << (bits - 80));
    let mut i = 0u64;
    while i < n && cdf[i as usize] < limit {
        pmf = (&pmf * BigInt::from(n - i) * e) / (BigInt::from(i + 1) * &fail);
        let next = &cdf[i as usize] + &pmf;
        cdf.push(next);
        i += 1;
    }
    cdf
}

fn hash_of(v: &BigInt) -> CryptoHash {
    let (_, b) = v.to_bytes_be();
    let mut h = [0; 32];
    h[32 - b.len()..].copy_from_slice(&b);
    CryptoHash(h)
}

struct Job {
    n: u64,
    t: u64,
    /// Committee size in halves.
    e2: u64,
    all: bool,
}

fn run(r: &mut Report, j: &Job) {
    let Job { n, t, e2, all } = *j;
    let case0 = format!("money {} total {} size {}", n, t, e2 as f64 / 2.0);
    // the boundaries between selections, as outputs
    let (bt, be) = (BigInt::from(t) * 2, BigInt::from(e2));
    let bits = precision(n, t, e2);
    let cdf = reference(n, &bt, &be, bits);
    let max: BigInt = (BigInt::one() << 256) - 1;
    let boundary: Vec<BigInt> = cdf.iter().map(|c| (c * &max) >> bits).collect();
    let eps = |v: &BigInt| -> BigInt { (v >> TOLERANCE) + 1 };
    let mut outputs: Vec<BigInt> = vec![
        BigInt::zero(),
        BigInt::one(),
        BigInt::from(2),
        &max >> 1,
        (&max >> 1) + 1,
        &max - 1,
        max.clone(),
    ];
    for k in [1, 8, 16, 31, 32, 33, 53, 54, 64, 80, 128, 200, 255] {
        outputs.push(BigInt::one() << k);
        outputs.push(&max - (BigInt::one() << k));
    }
    for a in 0..32 {
        outputs.push((&max >> 5) * a);
    }
    let stride = if all {
        1
    } else {
        (boundary.len() / 150).max(1)
    };
    for (i, b) in boundary.iter().enumerate() {
        if i % stride == 0 || i < 4 || i + 4 > boundary.len() {
            let e = eps(b);
            for v in [b - &e * 3, b - &e, b.clone(), b + &e, b + &e * 3] {
                if v.sign() != Sign::Minus && v <= max {
                    outputs.push(v);
                }
            }
        }
    }
    outputs.sort();
    outputs.dedup();
    let mut last = 0;
    for v in &outputs {
        r.state();
        r.step();
        let case = || format!("{} output {}", case0, hex(&hash_of(v).0));
        let h = hash_of(v);
        let got = guard(|| select(n, t, e2 as f64 / 2.0, &h));
        let got = match r.no_panic(got, "panic", case) {
            Some(g) => g,
            None => continue,
        };
        r.check(got <= n, "above-stake", case, || {
            format!("selected {}", got)
        });
        r.check(got >= last, "not-monotone", case, || {
            format!("selected {} but {} for a smaller output", got, last)
        });
        last = got.max(last);
        r.check(!v.is_zero() || got == 0, "zero-output", case, || {
            format!("selected {}", got)
        });
        // the smallest number that reaches the output, give or take the tolerance
        let low = boundary.iter().position(|b| b + eps(b) >= *v);
        let high = boundary.iter().position(|b| b - eps(b) >= *v);
        let (low, high) = if cdf.is_empty() {
            let all = if v.is_zero() { 0 } else { n };
            (all, all)
        } else {
            (
                low.map_or(n.min(boundary.len() as u64 - 1), |x| x as u64),
                high.map_or(n, |x| x as u64),
            )
        };
        r.check(low <= got && got <= high, "quantile", case, || {
            format!("selected {}, not {}..{}", got, low, high)
        });
        r.outcome(match (low == high, got) {
            (false, _) => "on a boundary",
            (_, 0) => "none",
            (_, 1) => "one",
            (_, g) if g == n => "everything",
            _ => "several",
        });
    }
    r.trace();
}

fn main() {
    let mut r = Report::new("C24");
    let mut jobs = vec![];
    // everything small
    let small = tier(9, 16);
    for t in 1..=small {
        for n in 0..=t {
            for e2 in 1..=2 * t {
                jobs.push(Job {
                    n,
                    t,
                    e2,
                    all: true,
                });
            }
        }
    }
    // medium ones, and powers of ten up to the whole supply with the committee sizes of the protocols
    for t in [50u64, 100, 1000, 10_000, 1 << 20, 1 << 32] {
        for n in [1, 2, t / 10, t / 3, t / 2, t - 1, t] {
            for e in [1, 2, 9, 20, t / 2, t - 1, t] {
                // keep to what a walk can cover
                if (n as u128 * e as u128) / t as u128 <= 12_000 && precision(n, t, e * 2) < 20_000
                {
                    jobs.push(Job {
                        n,
                        t,
                        e2: e * 2,
                        all: true,
                    });
                }
            }
        }
    }
    let totals: Vec<u64> = vec![
        1_000_000_000,
        1_000_000_000_000,
        2_000_000_000_000_000,
        6_500_000_000_000_000,
        10_000_000_000_000_000,
        1 << 53,
        (1 << 53) + 1,
        1 << 63,
        u64::MAX,
    ];
    let sizes: Vec<u64> = if thorough() {
        vec![1, 9, 20, 500, 1112, 1500, 2000, 2400, 2990, 5000, 6000]
    } else {
        vec![1, 20, 2990, 6000]
    };
    for t in totals {
        let mut ns = vec![
            1,
            1000,
            t / 1_000_000,
            t / 1000,
            t / 100,
            t / 7,
            t / 2,
            t - 1,
            t,
        ];
        if !thorough() {
            ns = vec![1, t / 1_000_000, t / 1000, t / 7, t];
        }
        for n in ns {
            for &e in &sizes {
                jobs.push(Job {
                    n,
                    t,
                    e2: e * 2,
                    all: false,
                });
            }
        }
    }
    // committees larger than any protocol's
    for t in [1_000_000u64, 10_000_000_000_000_000] {
        for (n, e) in [
            (t, 12_000u64),
            (t, 20_000),
            (t / 2, 25_000),
            (t / 3, 90_000),
        ] {
            jobs.push(Job {
                n,
                t,
                e2: e * 2,
                all: false,
            });
        }
    }
    r.space(
        "grids",
        format!("{} triples of money, total and committee size", jobs.len()),
    );
    r.space("outputs", "both sides of every boundary (large grids: about 150 boundaries), 32 even steps, powers of two and their complements, 0 and all ones");
    r.assume("floating point results may be off by 2^-30 of the cumulative probability: outputs that close to a boundary may fall on either side");
    // the long ones first
    jobs.sort_by_key(|j| std::cmp::Reverse((j.n as u128 * j.e2 as u128 / j.t as u128).to_u64()));
    parallel(&mut r, jobs, |r, j| run(r, j));
    r.finish()
}
