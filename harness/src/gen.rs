//! Workload generators: seeded randomness, widths, values and related operands.
use crate::model::{nd, B};

#[derive(Clone)]
pub struct R(u64, u64);

impl R {
    pub fn new(seed: u64) -> R {
        let mut r = R(seed ^ 0x9E37_79B9_7F4A_7C15, seed.wrapping_mul(0xD134_2543_DE82_EF95) | 1);
        for _ in 0..8 {
            r.u64();
        }
        r
    }
    pub fn u64(&mut self) -> u64 {
        // splitmix-style, two lanes
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15).wrapping_add(self.1);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// Widths: every storage class and every distance from a digit boundary.
pub fn width(r: &mut R) -> usize {
    if r.below(25) == 0 {
        if let Some(n) = lit_size(r, 12_000) {
            return n;
        }
    }
    if r.below(5000) == 0 {
        if r.chance(1, 3) {
            if let Some(n) = lit_size(r, 140_000) {
                return n;
            }
        }
        // rarely: beyond 16-bit widths and positions
        return *r.pick(&[16384, 32767, 32769, 65535, 65536, 65537, 65600, 131072, 131073]) + *r.pick(&[0, 0, 1, 64, 100]);
    }
    match r.below(100) {
        0..=9 => *r.pick(&[1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64]),
        10..=21 => r.range(1, 64),
        22..=29 => *r.pick(&[65, 66, 96, 126, 127, 128, 129, 130, 191, 192, 193, 256, 320]),
        30..=37 => r.range(65, 128),
        38..=62 => 64 * r.range(2, 20) + *r.pick(&[0, 0, 0, 1, 1, 63, 2, 32]),
        63..=88 => r.range(129, 1100),
        89..=97 => 64 * r.range(17, 66) + *r.pick(&[0, 1, 17, 32, 63]),
        98 => r.range(1100, 4300),
        _ => 64 * r.range(60, 160) + *r.pick(&[0, 1, 63]),
    }
}
/// As `width`, but cheap on average (for quadratic monitors).
pub fn width_small(r: &mut R) -> usize {
    if r.below(20) == 0 {
        if let Some(n) = lit_size(r, 600) {
            return n;
        }
    }
    match r.below(10) {
        0..=2 => r.range(1, 64),
        3..=4 => r.range(65, 128),
        5..=6 => 64 * r.range(2, 8) + *r.pick(&[0, 1, 63]),
        _ => r.range(129, 520),
    }
}
/// Another width, biased to be close to or in the same storage class as `w`.
pub fn other_width(r: &mut R, w: usize) -> usize {
    let v = match r.below(9) {
        0 => w + 1,
        1 => w.saturating_sub(1),
        2 => w + 64,
        3 => w.saturating_sub(64),
        4 => (w + 63) / 64 * 64,
        5 => nd(w) * 64 - 1,
        6 => 1 + r.below(64 * nd(w)),
        7 => width(r),
        _ => width_small(r),
    };
    if v == 0 || v == w { w + 1 } else { v }
}

const EDGE: [u64; 16] = [
    0, 0, 1, !0, !0, !0 - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 1 << 32, (1 << 32) - 1, !0 << 32, 2, 3,
    0x5555_5555_5555_5555, 0xAAAA_AAAA_AAAA_AAAA,
];

/// The integer literals of the sources under test, as the caller extracted them: all of
/// them, and those which the sources did not have when this harness was written. Inputs
/// near a literal of the code take branches that no generic distribution aims at.
fn literals() -> &'static (Vec<u64>, Vec<u64>) {
    static L: std::sync::OnceLock<(Vec<u64>, Vec<u64>)> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let s = crate::arg("--literals").unwrap_or_default();
        let mut p = s.split('/').map(|l| l.split(',').filter_map(|x| x.parse().ok()).collect::<Vec<u64>>());
        (p.next().unwrap_or_default(), p.next().unwrap_or_default())
    })
}
fn lit_new(r: &mut R) -> Option<(u64, bool)> {
    let (all, new) = literals();
    if !new.is_empty() && r.chance(2, 3) {
        return Some((*r.pick(new), true));
    }
    if all.is_empty() { None } else { Some((*r.pick(all), false)) }
}
pub fn lit(r: &mut R) -> Option<u64> {
    lit_new(r).map(|x| x.0)
}
/// A size in `1..=max` at or around a literal, taken as a number of bits or of digits.
pub fn lit_size(r: &mut R, max: usize) -> Option<usize> {
    let (c, new) = lit_new(r)?;
    let c = usize::try_from(c).ok()?;
    if c > 1 << 40 {
        return None;
    }
    let max = if new { max } else { max.min(2600) };
    let n = match r.below(14) {
        0..=2 => c,
        3 => c + 1,
        4 => c.saturating_sub(1),
        5 => c + r.below(64),
        6 => 64 * c,
        7 => 64 * c + 1,
        8 => (64 * c).saturating_sub(1),
        9 => 64 * (c + 1),
        10 => 64 * c + r.below(128),
        11 => c + 64,
        12 => 4 * c,
        _ => 64 * (c + 1 + r.below(4)) + r.below(64),
    };
    if (1..=max).contains(&n) { Some(n) } else { None }
}

pub fn digit(r: &mut R) -> u64 {
    if r.below(24) == 0 {
        if let Some(c) = lit(r) {
            return match r.below(8) {
                0..=2 => c,
                3 => !c,
                4 => c.wrapping_neg(),
                5 => c << 32,
                6 => c.wrapping_add(1),
                _ => c.wrapping_sub(1),
            };
        }
    }
    match r.below(10) {
        0..=4 => EDGE[r.below(EDGE.len())],
        5 => 1u64 << r.below(64),
        6 => (1u64 << r.below(64)).wrapping_sub(1),
        7 => !((1u64 << r.below(64)).wrapping_sub(1)),
        8 => r.u64() >> r.below(64),
        _ => r.u64(),
    }
}

/// Values: special values, digit soups, runs, sparse, any significant length.
pub fn value(r: &mut R, w: usize) -> B {
    let n = nd(w);
    if w > 1 && r.below(20) == 0 {
        if let Some(k) = lit_size(r, w - 1) {
            return match r.below(6) {
                0 => B::pow2(w, k),
                1 => B::pow2(w, k).sub(&B::one(w)),
                2 => sig_exact(r, w, k),
                3 => B::pow2(w, k).neg(),
                4 => sig_exact(r, w, k).not(),
                _ => {
                    let x = sig_value(r, w, 1);
                    x.with(0, true).shl(k)
                }
            };
        }
    }
    match r.below(20) {
        0 => B::zero(w),
        1 => B::one(w),
        2 => B::max(w),
        3 => {
            let k = r.below(w);
            match r.below(4) {
                0 => B::pow2(w, k),
                1 => B::pow2(w, k).sub(&B::one(w)),
                2 => B::pow2(w, k).add(&B::one(w)),
                _ => B::pow2(w, k).neg(),
            }
        }
        4 => match r.below(4) {
            0 => B::smin(w),
            1 => B::smax(w),
            2 => B::smin(w).add(&B::one(w)),
            _ => B::max(w).sub(&B::one(w)),
        },
        5 => B::new(w, vec![digit(r)]),                  // one significant digit
        6 => B::new(w, vec![digit(r)]).neg(),            // small negative
        7..=10 => B::new(w, (0..n).map(|_| digit(r)).collect()), // digit soup
        11 => {
            // runs of one digit value
            let mut d = vec![];
            while d.len() < n {
                let x = digit(r);
                for _ in 0..r.range(1, n) {
                    d.push(x);
                }
            }
            d.truncate(n);
            B::new(w, d)
        }
        12..=14 => sig_value(r, w, 0),
        15 => {
            // runs of ones
            let (a, b) = (r.below(w), r.below(w));
            let (a, b) = (a.min(b), a.max(b));
            B::max(w).lshr(w - 1 - (b - a)).shl(a)
        }
        16 => {
            let mut b = B::zero(w);
            for _ in 0..r.range(1, 4) {
                b.set(r.below(w), true);
            }
            if r.chance(1, 2) { b.not() } else { b }
        }
        _ => B::new(w, (0..n).map(|_| r.u64()).collect()),
    }
}

/// A value whose significant length is uniform over the width.
pub fn sig_value(r: &mut R, w: usize, at_least: usize) -> B {
    let s = r.range(at_least, w);
    sig_exact(r, w, s)
}
pub fn sig_exact(r: &mut R, w: usize, s: usize) -> B {
    if s == 0 {
        return B::zero(w);
    }
    let soup = r.chance(1, 2);
    let mut b = B::new(w, (0..nd(s)).map(|_| if soup { digit(r) } else { r.u64() }).collect());
    if s < w {
        b = b.shl(w - s).lshr(w - s);
    }
    b.set(s - 1, true);
    b
}

/// A second operand of the same width, often related to the first.
pub fn related(r: &mut R, a: &B) -> B {
    let w = a.w;
    match r.below(16) {
        0 => a.clone(),
        1 => a.add(&B::one(w)),
        2 => a.sub(&B::one(w)),
        3 => a.not(),
        4 => a.neg(),
        5 => {
            let i = r.below(w);
            let v = !a.bit(i);
            a.with(i, v)
        }
        6 => {
            let mut b = a.clone();
            let i = r.below(b.d.len());
            b.d[i] = digit(r);
            let d = b.d;
            B::new(w, d)
        }
        7 => a.with(w - 1, !a.msb()),
        8 => a.lshr(r.below(w)),
        9 => a.neg().add(&B::one(w)),
        _ => value(r, w),
    }
}

/// Dividend and divisor, mostly built backwards from quotient and remainder.
pub fn division(r: &mut R, w: usize) -> (B, B) {
    match r.below(10) {
        0 => {
            let a = value(r, w);
            let b = related(r, &a);
            (a, b)
        }
        1 => (value(r, w), value(r, w)),
        2 => {
            let a = sig_value(r, w, 0);
            let b = sig_value(r, w, 0);
            (a, b)
        }
        3 if w > 64 => {
            // n just below q*d, with q*d at or above 2^w or d ending in ones: estimates of q
            // from the leading digits are one too high
            let qs = r.range(1, 64);
            let q = sig_exact(r, w, qs);
            let d = if r.chance(1, 2) {
                B::max(w).udivrem(&q).0.add(&B::one(w))
            } else {
                let ds = r.range(1, w - qs);
                let x = sig_exact(r, w, ds);
                let k = r.range(0, ds);
                x.zip(&B::max(w).lshr((w - k).min(w - 1)), |a, b| a | b)
            };
            let mut n = q.mul(&d);
            for _ in 0..r.range(1, 3) {
                n = n.sub(&B::one(w));
            }
            if r.chance(1, 4) {
                let s = r.range(0, w);
                n = n.sub(&sig_exact(r, w, s).lshr(r.below(w)));
            }
            (n, if d.is_zero() { B::one(w) } else { d })
        }
        k => {
            let ds = r.range(1, w);
            let mut d = sig_exact(r, w, ds);
            if k == 4 && ds > 64 {
                // top digit of the divisor extreme: quotient digit estimates go wrong most
                let t = nd(ds) - 1;
                d.d[t] = *r.pick(&[1, !0, 1 << 63, (1 << 63) + 1, 2, 3]);
                if t > 0 {
                    d.d[t - 1] = *r.pick(&[0, !0, 1, 1 << 63, !0 - 1]);
                }
                let dd = d.d;
                d = B::new(w, dd);
            }
            if d.is_zero() {
                d = B::one(w);
            }
            let room = w - d.sig().min(w);
            let mut q = if room == 0 {
                B::from_u128(w, r.below(2) as u128)
            } else {
                let qs = r.range(0, room);
                sig_exact(r, w, qs)
            };
            if room > 64 && r.chance(1, 3) {
                // just at or above a carry through whole digits: what is added last ripples
                let qs = r.range(65, room);
                let z = r.below(4);
                let mut v: Vec<u64> = (0..nd(w)).map(|_| match r.below(6) {
                    0 if z > 0 => !0,
                    1 if z > 1 => digit(r),
                    2 => r.u64(),
                    _ => 0,
                }).collect();
                v[0] = match r.below(4) {
                    0 => !0 - r.below(40) as u64,
                    1 => r.u64(),
                    _ => r.below(40) as u64,
                };
                q = B::new(w, v);
                q = q.zresize(qs).zresize(w);
                q.set(qs - 1, true);
            } else if r.chance(1, 4) {
                for x in q.d.iter_mut() {
                    if *x != 0 && r.chance(1, 2) {
                        *x = !0;
                    }
                }
                let s = room;
                q = B::new(w, q.d.clone());
                if q.sig() > s {
                    q = q.lshr((q.sig() - s).min(w - 1));
                }
            }
            let rem = match r.below(6) {
                0 => B::zero(w),
                1 => d.sub(&B::one(w)),
                2 => d.lshr(if w > 1 { 1 } else { 0 }),
                3 => B::one(w),
                _ => {
                    let x = sig_exact(r, w, ds.min(w));
                    if x.ucmp(&d) == std::cmp::Ordering::Less { x } else { x.sub(&d) }
                }
            };
            let mut n = q.mul(&d).add(&rem);
            if r.chance(1, 12) {
                n = n.sub(&B::one(w));
            }
            if r.chance(1, 6) {
                n = n.neg();
            }
            if r.chance(1, 8) {
                d = d.neg();
            }
            (n, d)
        }
    }
}

/// A list of special values of a width (for systematic sweeps).
pub fn specials(w: usize) -> Vec<B> {
    let mut v = vec![B::zero(w), B::one(w), B::max(w), B::smin(w), B::smax(w), B::max(w).sub(&B::one(w))];
    v.push(B::new(w, vec![0x5555_5555_5555_5555; nd(w)]));
    v.push(B::new(w, vec![0x0123_4567_89AB_CDEF; nd(w)]));
    for k in [31usize, 32, 63, 64, 65, 127, 128] {
        if k < w {
            v.push(B::pow2(w, k));
            v.push(B::pow2(w, k).sub(&B::one(w)));
        }
    }
    if w > 1 {
        v.push(B::smin(w).add(&B::one(w)));
        v.push(B::pow2(w, w - 2));
    }
    let mut out: Vec<B> = vec![];
    for b in v {
        if !out.contains(&b) {
            out.push(b);
        }
    }
    out
}

/// Class of a value, used to count distinct states.
pub fn class(b: &B) -> u64 {
    let one = B::one(b.w);
    let k = if b.is_zero() {
        0
    } else if b.is_one() {
        1
    } else if *b == B::max(b.w) {
        2
    } else if *b == B::smin(b.w) {
        3
    } else if *b == B::smax(b.w) {
        4
    } else if b.count_ones() == 1 {
        5
    } else if b.add(&one).count_ones() == 1 {
        6
    } else if b.msb() {
        7
    } else {
        8
    };
    k + 10 * (nd(b.sig().max(1)) as u64)
}
pub fn wclass(w: usize) -> u64 {
    let e = match w % 64 {
        0 => 0,
        1 => 1,
        63 => 2,
        2..=31 => 3,
        32 => 4,
        _ => 5,
    };
    nd(w) as u64 * 6 + e
}
