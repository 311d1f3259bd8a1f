use crate::cx::Cx;
use crate::gen::{self, R};
use crate::model::{nd, B};
use crate::rows::*;

mod hist;
mod memory;
mod single;
mod text;
#[cfg(feature = "f_threads")]
mod threads;

/// Runs the workload of a property. `Some` is the digest table of C18.
pub fn run(cx: &mut Cx) -> Option<String> {
    match cx.prop.as_str() {
        "C01" => single::ring(cx),
        "C02" => single::division(cx),
        "C03" => single::shifts(cx),
        "C04" => single::bits(cx),
        "C05" => single::casts(cx),
        "C06" => single::conversions(cx),
        "C07" => single::relations(cx),
        "C08" => text::text(cx),
        "C09" => text::serde(cx),
        "C10" => hist::canonical(cx),
        "C11" => single::errors(cx),
        "C12" => memory::memory(cx),
        "C13" => hist::independent(cx),
        "C14" => memory::footprint(cx),
        "C15" => text::random(cx),
        "C16" => single::operators(cx),
        "C17" => single::signs(cx),
        "C18" => return Some(hist::digest(cx)),
        #[cfg(feature = "f_threads")]
        "C19" => threads::threads(cx),
        "C20" => text::scalars(cx),
        "FUZZROWS" => {
            for r in table() {
                println!("{} {:?} {:?}", r.name, r.form, r.sem);
            }
        }
        p => panic!("unknown property {}", p),
    }
    None
}

pub fn rows(f: impl Fn(&Row) -> bool) -> Vec<Row> {
    table().into_iter().filter(|r| f(r)).collect()
}

/// A numeric argument for a row: mostly valid, sometimes not.
pub fn pick_n(r: &mut R, row: &Row, w: usize, invalid: bool) -> usize {
    match row.sem.arg() {
        Arg::Shift | Arg::Pos => {
            if r.below(10) == 0 {
                if let Some(n) = gen::lit_size(r, 1 << 34) {
                    let n = if r.chance(1, 4) { w.saturating_sub(n) } else { n };
                    if (n >= w) == invalid {
                        return n;
                    }
                }
            }
            if invalid {
                match r.below(8) {
                    0 => w,
                    1 => w + 1,
                    2 => nd(w) * 64,
                    3 => nd(w) * 64 + r.below(64),
                    4 => w + 64,
                    5 => usize::MAX,
                    6 => usize::MAX - r.below(130),
                    _ => {
                        let k = r.below(40);
                        w + r.below(1 << k)
                    }
                }
                .max(w)
            } else {
                match r.below(6) {
                    0 => 0,
                    1 => w - 1,
                    2 => (64 * r.below(nd(w))).min(w - 1),
                    3 => (64 * r.below(nd(w)) + *r.pick(&[1, 63, 62, 32])).min(w - 1),
                    _ => r.below(w),
                }
            }
        }
        Arg::Width => {
            let (down, up) = match row.sem {
                Sem::Trunc => (!invalid, invalid),
                Sem::ZExt | Sem::SExt => (invalid, !invalid),
                _ => (true, true),
            };
            for _ in 0..20 {
                let n = if !invalid && r.chance(1, 12) { w } else { gen::other_width(r, w) };
                if n <= w + 10_000 && ((n < w && down) || (n > w && up) || (n == w && !invalid)) {
                    return n;
                }
            }
            if up {
                w + 1 + r.below(130)
            } else if w > 1 {
                1 + r.below(w - 1)
            } else if invalid {
                // extending 1 bit can only fail downwards, which does not exist
                2
            } else {
                1
            }
        }
        Arg::Seed => r.below(1 << 30),
        _ => 0,
    }
}

/// Every value (pair) and argument at tiny widths.
pub fn tiny(cx: &mut Cx, rows: &[Row], max_w: usize) {
    let mut item = 0;
    for w in 1..=max_w {
        let all: Vec<B> = (0..1u128 << w).map(|v| B::from_u128(w, v)).collect();
        for row in rows {
            item += 1;
            if !cx.mine(item) {
                continue;
            }
            for a in &all {
                match row.sem.arg() {
                    Arg::B => {
                        for b in &all {
                            cx.check(row, a, b, 0);
                        }
                    }
                    Arg::None => {
                        cx.check(row, a, a, 0);
                    }
                    Arg::Width => {
                        for n in 1..w + 4 {
                            cx.check(row, a, a, n);
                        }
                    }
                    _ => {
                        for n in 0..w + 2 {
                            cx.check(row, a, a, n);
                        }
                    }
                }
                if cx.bad() {
                    return;
                }
            }
        }
    }
    cx.count("exhaustive_tiny_widths", max_w as u64);
}

const GRID: [u64; 8] = [0, 1, !0, !0 - 1, 1 << 63, (1 << 63) - 1, 1 << 32, 0xFFFF_FFFF];

/// Operand pairs whose digits all come from an edge set, at 2 and 3 digits.
pub fn grid(cx: &mut Cx, sems: &[Vec<Row>], three: usize) {
    let mut i = 0;
    for x in 0..64usize {
        for y in 0..64usize {
            i += 1;
            if !cx.mine(i) {
                continue;
            }
            for w in [128usize, 127, 65, 126] {
                if w != 128 && !cx.r.chance(1, 3) {
                    continue;
                }
                let a = B::new(w, vec![GRID[x / 8], GRID[x % 8]]);
                let b = B::new(w, vec![GRID[y / 8], GRID[y % 8]]);
                for rs in sems {
                    let row = *cx.r.pick(rs);
                    cx.check(&row, &a, &b, 0);
                }
            }
        }
        if cx.done() {
            return;
        }
    }
    for _ in 0..three {
        let k = cx.r.range(3, 6);
        let w = 64 * k - *cx.r.pick(&[0, 0, 0, 1, 63, 30]);
        let g = |r: &mut R| B::new(w, (0..k).map(|_| GRID[r.below(8)]).collect());
        let (a, b) = (g(&mut cx.r), g(&mut cx.r));
        for rs in sems {
            let row = *cx.r.pick(rs);
            cx.check(&row, &a, &b, 0);
        }
        if cx.done() {
            return;
        }
    }
}

/// Operand pairs for every combination of significant digit counts.
pub fn lengths(cx: &mut Cx, sems: &[Vec<Row>], max_digits: usize, reps: usize) {
    let mut i = 0;
    for k in 1..=max_digits {
        for sa in 0..=k {
            for sb in 0..=k {
                i += 1;
                if !cx.mine(i) {
                    continue;
                }
                for _ in 0..reps {
                    let w = 64 * k - if cx.r.chance(1, 2) { 0 } else { cx.r.below(64) };
                    let sig = |r: &mut R, s: usize| {
                        let hi = (64 * s).min(w);
                        let lo = if s == 0 { 0 } else { (64 * (s - 1) + 1).min(hi) };
                        let n = r.range(lo, hi);
                        gen::sig_exact(r, w, n)
                    };
                    let (a, b) = (sig(&mut cx.r, sa), sig(&mut cx.r, sb));
                    for rs in sems {
                        let row = *cx.r.pick(rs);
                        cx.check(&row, &a, &b, 0);
                    }
                    if cx.done() {
                        return;
                    }
                }
            }
        }
    }
    cx.count("significant_length_grid_digits", max_digits as u64);
}

/// Groups rows by operation, so that each call form gets its share.
pub fn by_sem(rows: &[Row]) -> Vec<Vec<Row>> {
    let mut out: Vec<Vec<Row>> = vec![];
    for r in rows {
        match out.iter_mut().find(|v| v[0].sem == r.sem) {
            Some(v) => v.push(*r),
            None => out.push(vec![*r]),
        }
    }
    out
}
