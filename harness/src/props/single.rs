//! Properties decided call by call against the reference model.
use super::*;
use crate::obs::{self, Res};
use apint::{ApInt, BitWidth, Int, UInt};

fn random(cx: &mut Cx, rows: &[Row], count: usize) {
    let sems = by_sem(rows);
    for _ in 0..count {
        let w = gen::width(&mut cx.r);
        let a = gen::value(&mut cx.r, w);
        let b = gen::related(&mut cx.r, &a);
        for rs in &sems {
            let row = *cx.r.pick(rs);
            let n = pick_n(&mut cx.r, &row, w, false);
            cx.check(&row, &a, &b, n);
        }
        if cx.done() {
            return;
        }
    }
}

pub fn ring(cx: &mut Cx) {
    let rows = rows(|r| r.sem.group() == Group::Ring);
    let sems = by_sem(&rows);
    tiny(cx, &rows, if cx.thorough { 6 } else { 4 });
    let n = cx.n(20_000, 400_000);
    grid(cx, &sems, n);
    let reps = if cx.thorough { 24 } else { 3 };
    lengths(cx, &sems, if cx.thorough { 20 } else { 12 }, reps);
    // carry and borrow chains of every length at every digit offset
    for k in 1..=(if cx.thorough { 40 } else { 20 }) {
        if !cx.mine(k) {
            continue;
        }
        for w in [64 * k, 64 * k - 1, 64 * k - 63, 64 * k - 17] {
            for _ in 0..6 {
                let (i, j) = (cx.r.below(w), cx.r.below(w));
                let run = B::max(w).lshr(w - 1 - (i.max(j) - i.min(j))).shl(i.min(j));
                let p = B::pow2(w, i.min(j));
                for rs in &sems {
                    for (a, b) in [(&run, &p), (&p, &run)] {
                        let row = *cx.r.pick(rs);
                        cx.check(&row, a, b, 0);
                    }
                }
            }
            if cx.done() {
                return;
            }
        }
    }
    let n = cx.n(150_000, 4_000_000);
    random(cx, &rows, n);
}

pub fn division(cx: &mut Cx) {
    let rows = rows(|r| r.sem.group() == Group::Div);
    let sems = by_sem(&rows);
    tiny(cx, &rows, if cx.thorough { 6 } else { 4 });
    let n = cx.n(16_000, 400_000);
    grid(cx, &sems, n);
    lengths(cx, &sems, if cx.thorough { 20 } else { 12 }, if cx.thorough { 24 } else { 3 });
    let n = cx.n(150_000, 4_000_000);
    for i in 0..n {
        let w = gen::width(&mut cx.r);
        let (a, mut b) = gen::division(&mut cx.r, w);
        if i % 64 == 0 {
            b = B::zero(w);
        }
        for rs in &sems {
            let row = *cx.r.pick(rs);
            cx.check(&row, &a, &b, 0);
        }
        if cx.done() {
            return;
        }
    }
}

fn sweep_widths(cx: &Cx) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=if cx.thorough { 1100 } else { 330 }).collect();
    for k in 5..=(if cx.thorough { 70 } else { 24 }) {
        for d in [63usize, 0, 1] {
            v.push(64 * k - 64 + d);
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn shifts(cx: &mut Cx) {
    let rows = rows(|r| r.sem.group() == Group::Shift);
    let sems = by_sem(&rows);
    tiny(cx, &rows, if cx.thorough { 8 } else { 6 });
    for (i, w) in sweep_widths(cx).into_iter().enumerate() {
        if !cx.mine(i) {
            continue;
        }
        let step = if w > 700 && !cx.thorough { 1 + cx.r.below(7) } else { 1 };
        let mut s = 0;
        while s < w {
            let a = if s % 3 == 0 { B::new(w, (0..nd(w)).map(|_| cx.r.u64()).collect()) } else { gen::value(&mut cx.r, w) };
            for rs in &sems {
                let row = *cx.r.pick(rs);
                cx.check(&row, &a, &a, s);
            }
            s += step;
            if cx.done() {
                return;
            }
        }
        for rs in &sems {
            for row in rs {
                let n = pick_n(&mut cx.r, row, w, true);
                let a = gen::value(&mut cx.r, w);
                cx.check(row, &a, &a, n);
            }
        }
    }
    let n = cx.n(200_000, 4_000_000);
    for i in 0..n {
        let w = gen::width(&mut cx.r);
        let a = gen::value(&mut cx.r, w);
        for rs in &sems {
            let row = *cx.r.pick(rs);
            let n = pick_n(&mut cx.r, &row, w, i % 16 == 0);
            cx.check(&row, &a, &a, n);
        }
        if cx.done() {
            return;
        }
    }
}

pub fn bits(cx: &mut Cx) {
    let rows = rows(|r| r.sem.group() == Group::Bit);
    let sems = by_sem(&rows);
    tiny(cx, &rows, if cx.thorough { 7 } else { 5 });
    let one: Vec<Vec<Row>> = sems.iter().filter(|v| v[0].sem.arg() == Arg::Pos).cloned().collect();
    let rest: Vec<Vec<Row>> = sems.iter().filter(|v| v[0].sem.arg() != Arg::Pos).cloned().collect();
    for (i, w) in sweep_widths(cx).into_iter().enumerate() {
        if !cx.mine(i) {
            continue;
        }
        let step = if w > 200 && !cx.thorough { 1 + cx.r.below(w / 60) } else { 1 };
        let mut p = 0;
        while p < w {
            let a = gen::value(&mut cx.r, w);
            for rs in &one {
                let row = *cx.r.pick(rs);
                cx.check(&row, &a, &a, p);
            }
            p += step;
        }
        for rs in &one {
            for row in rs {
                let n = pick_n(&mut cx.r, row, w, true);
                let a = gen::value(&mut cx.r, w);
                cx.check(row, &a, &a, n);
            }
        }
        for a in gen::specials(w) {
            let b = gen::value(&mut cx.r, w);
            for rs in &rest {
                for row in rs {
                    if rs.len() < 4 || cx.r.chance(1, 3) {
                        cx.check(row, &a, &b, 0);
                    }
                }
            }
        }
        // one bit off the predicates' true values, in every digit
        for d in 0..nd(w) {
            let p = (64 * d + cx.r.below(64)).min(w - 1);
            for a in [B::pow2(w, p), B::pow2(w, p).not(), B::one(w).with(p, true), B::pow2(w, (64 * d).min(w - 1))] {
                for rs in &rest {
                    if rs[0].sem.arg() == Arg::None {
                        let row = *cx.r.pick(rs);
                        cx.check(&row, &a, &a, 0);
                    }
                }
            }
        }
        if cx.done() {
            return;
        }
    }
    let n = cx.n(60_000, 1_500_000);
    for i in 0..n {
        let w = gen::width(&mut cx.r);
        let a = gen::value(&mut cx.r, w);
        let b = gen::related(&mut cx.r, &a);
        for rs in &sems {
            let row = *cx.r.pick(rs);
            let n = pick_n(&mut cx.r, &row, w, i % 16 == 0);
            cx.check(&row, &a, &b, n);
        }
        if cx.done() {
            return;
        }
    }
}

pub fn casts(cx: &mut Cx) {
    let rows = rows(|r| r.sem.group() == Group::Cast);
    let sems = by_sem(&rows);
    tiny(cx, &rows, if cx.thorough { 7 } else { 5 });
    // all pairs of widths
    let max = if cx.thorough { 520 } else { 200 };
    for w1 in 1..=max {
        if !cx.mine(w1) {
            continue;
        }
        for w2 in 1..=max {
            let mut a = gen::value(&mut cx.r, w1);
            if w2 % 2 == 0 {
                a.set(w1 - 1, true);
            }
            let b = gen::value(&mut cx.r, w2);
            for rs in &sems {
                let row = *cx.r.pick(rs);
                cx.check(&row, &a, &b, w2);
            }
            if cx.done() {
                return;
            }
        }
    }
    cx.count("all_width_pairs_up_to", max as u64);
    let n = cx.n(120_000, 3_000_000);
    for i in 0..n {
        let w = gen::width(&mut cx.r);
        let a = gen::value(&mut cx.r, w);
        let w2 = match cx.r.below(3) {
            0 => gen::width(&mut cx.r),
            1 => w,
            _ => gen::other_width(&mut cx.r, w),
        };
        let b = gen::value(&mut cx.r, w2);
        for rs in &sems {
            let row = *cx.r.pick(rs);
            let n = if cx.r.chance(1, 3) { w2 } else { pick_n(&mut cx.r, &row, w, i % 16 == 0) };
            cx.check(&row, &a, &b, n);
        }
        if cx.done() {
            return;
        }
    }
}

/// Checks a constructor result.
fn made(cx: &mut Cx, name: &'static str, what: impl Fn() -> String, want: &B, f: impl FnOnce() -> ApInt) {
    cx.announce(name, || what());
    cx.state((name, gen::wclass(want.w), gen::class(want)));
    let d = what();
    if let Some(x) = cx.guard(&format!("{} {}", name, d), f) {
        if let Some(m) = obs::differs(&x, want) {
            cx.fail("wrong value", format!("{} {}: {}", name, d, m));
        }
    }
}

pub fn constructors(cx: &mut Cx) {
    for w in sweep_widths(cx).into_iter().chain([4095, 4096, 4097, 10_000]) {
        if !cx.mine(w) {
            continue;
        }
        let b = BitWidth::new(w).unwrap();
        let d = || format!("width {}", w);
        let list: Vec<(&'static str, B, fn(BitWidth) -> ApInt)> = vec![
            ("ApInt::zero", B::zero(w), ApInt::zero),
            ("ApInt::one", B::one(w), ApInt::one),
            ("ApInt::all_unset", B::zero(w), ApInt::all_unset),
            ("ApInt::all_set", B::max(w), ApInt::all_set),
            ("ApInt::unsigned_min_value", B::zero(w), ApInt::unsigned_min_value),
            ("ApInt::unsigned_max_value", B::max(w), ApInt::unsigned_max_value),
            ("ApInt::signed_min_value", B::smin(w), ApInt::signed_min_value),
            ("ApInt::signed_max_value", B::smax(w), ApInt::signed_max_value),
            ("Int::zero", B::zero(w), |b| Int::zero(b).into_apint()),
            ("Int::all_unset", B::zero(w), |b| Int::all_unset(b).into_apint()),
            ("Int::all_set", B::max(w), |b| Int::all_set(b).into_apint()),
            ("Int::min_value", B::smin(w), |b| Int::min_value(b).into_apint()),
            ("Int::max_value", B::smax(w), |b| Int::max_value(b).into_apint()),
            ("UInt::zero", B::zero(w), |b| UInt::zero(b).into_apint()),
            ("UInt::one", B::one(w), |b| UInt::one(b).into_apint()),
            ("UInt::all_unset", B::zero(w), |b| UInt::all_unset(b).into_apint()),
            ("UInt::all_set", B::max(w), |b| UInt::all_set(b).into_apint()),
            ("UInt::min_value", B::zero(w), |b| UInt::min_value(b).into_apint()),
            ("UInt::max_value", B::max(w), |b| UInt::max_value(b).into_apint()),
        ];
        for (name, want, f) in list {
            made(cx, name, d, &want, || f(b));
        }
        cx.announce("Int::one", d);
        if let Some(x) = cx.guard("Int::one", || Int::one(b).map(|x| x.into_apint())) {
            let ok = match &x {
                None => w == 1,
                Some(x) => w > 1 && obs::differs(x, &B::one(w)).is_none(),
            };
            if !ok {
                cx.fail("wrong value", format!("Int::one({}) = {:?}", w, x));
            }
        }
        if cx.bad() {
            return;
        }
    }
    // primitives: all bytes, edges and random values of the others
    let vals: Vec<u128> = {
        let mut v: Vec<u128> = (0..256).collect();
        for k in 0..128 {
            for d in [0u128, 1, 2] {
                v.push((1u128 << k).wrapping_sub(d));
                v.push((1u128 << k).wrapping_add(d));
                v.push((1u128 << k).wrapping_neg().wrapping_add(d));
            }
        }
        let m = cx.n(4000, 200_000);
        for _ in 0..m {
            let hi = gen::digit(&mut cx.r);
            v.push((hi as u128) << 64 | gen::digit(&mut cx.r) as u128);
        }
        v
    };
    macro_rules! prim {
        ($v:expr; $($t:ty, $bits:expr, $f:ident, [$($T:ident)*]);*) => { $( {
            let p = $v as $t;
            let want = B::from_i128($bits, p as i128);
            $(
                made(cx, concat!(stringify!($T), "::", stringify!($f)), || format!("{}", p), &want, || <$T as crate::rows::W>::u($T::$f(p)));
                made(cx, concat!(stringify!($T), "::from ", stringify!($t)), || format!("{}", p), &want, || <$T as crate::rows::W>::u($T::from(p)));
            )*
        } )* };
    }
    for v in vals {
        prim!(v; u8, 8, from_u8, [ApInt UInt]; u16, 16, from_u16, [ApInt UInt]; u32, 32, from_u32, [ApInt UInt];
            u64, 64, from_u64, [ApInt UInt]; u128, 128, from_u128, [ApInt UInt];
            i8, 8, from_i8, [ApInt Int]; i16, 16, from_i16, [ApInt Int]; i32, 32, from_i32, [ApInt Int];
            i64, 64, from_i64, [ApInt Int]; i128, 128, from_i128, [ApInt Int]);
        if cx.bad() {
            return;
        }
    }
    for v in [false, true] {
        let want = B::from_u128(1, v as u128);
        made(cx, "ApInt::from_bool", || format!("{}", v), &want, || ApInt::from_bool(v));
        made(cx, "ApInt::from bool", || format!("{}", v), &want, || ApInt::from(v));
        made(cx, "Int::from_bool", || format!("{}", v), &want, || Int::from_bool(v).into_apint());
        made(cx, "Int::from bool", || format!("{}", v), &want, || Int::from(v).into_apint());
        made(cx, "UInt::from_bool", || format!("{}", v), &want, || UInt::from_bool(v).into_apint());
        made(cx, "UInt::from bool", || format!("{}", v), &want, || UInt::from(v).into_apint());
    }
    // arrays: most significant digit first
    macro_rules! arrays {
        ($($n:expr)*) => { $( {
            let m = cx.n(160, 8000);
            for _ in 0..m {
                let mut d = [0u64; $n];
                for x in d.iter_mut() { *x = gen::digit(&mut cx.r); }
                let mut le = d.to_vec();
                le.reverse();
                let want = B::new(64 * $n, le);
                let mut s = [0i64; $n];
                for (x, y) in s.iter_mut().zip(&d) { *x = *y as i64; }
                made(cx, concat!("ApInt::from [u64;", stringify!($n), "]"), || format!("{:x?}", d), &want, || ApInt::from(d));
                made(cx, concat!("ApInt::from [i64;", stringify!($n), "]"), || format!("{:x?}", d), &want, || ApInt::from(s));
                made(cx, concat!("UInt::from [u64;", stringify!($n), "]"), || format!("{:x?}", d), &want, || UInt::from(d).into_apint());
                made(cx, concat!("Int::from [i64;", stringify!($n), "]"), || format!("{:x?}", d), &want, || Int::from(s).into_apint());
            }
        } )* };
    }
    arrays!(2 3 4 5 6 7 8 16 32);
}

pub fn conversions(cx: &mut Cx) {
    constructors(cx);
    let rows = rows(|r| r.sem.group() == Group::Conv);
    tiny(cx, &rows, if cx.thorough { 12 } else { 9 });
    // around every primitive size: width x value edges
    let edge = |cx: &mut Cx, w: usize| -> B {
        let k = *cx.r.pick(&[1usize, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128]);
        let p = k.min(w - 1);
        let base = B::pow2(w, p);
        let e = match cx.r.below(6) {
            0 => base,
            1 => base.sub(&B::one(w)),
            2 => base.add(&B::one(w)),
            3 => base.neg(),
            4 => base.neg().sub(&B::one(w)),
            _ => base.not(),
        };
        if cx.r.chance(1, 4) {
            // a stray bit far above or in any digit
            let i = cx.r.below(w);
            e.with(i, true)
        } else {
            e
        }
    };
    for (i, w) in sweep_widths(cx).into_iter().enumerate() {
        if !cx.mine(i) {
            continue;
        }
        for _ in 0..(if cx.thorough { 60 } else { 12 }) {
            let a = edge(cx, w);
            for row in &rows {
                cx.check(row, &a, &a, 0);
            }
            if cx.done() {
                return;
            }
        }
    }
    let n = cx.n(60_000, 1_500_000);
    for _ in 0..n {
        let w = gen::width(&mut cx.r);
        let a = match cx.r.below(4) {
            0 => edge(cx, w),
            1 => B::new(w, vec![gen::digit(&mut cx.r), gen::digit(&mut cx.r)]),
            2 => B::new(w, vec![gen::digit(&mut cx.r) >> cx.r.below(64)]),
            _ => gen::value(&mut cx.r, w),
        };
        for _ in 0..8 {
            let row = *cx.r.pick(&rows);
            cx.check(&row, &a, &a, 0);
        }
        if cx.done() {
            return;
        }
    }
}

fn hash_of<T: std::hash::Hash>(x: &T) -> (u64, Vec<u8>) {
    use std::hash::Hasher;
    struct Rec(Vec<u8>);
    impl Hasher for Rec {
        fn finish(&self) -> u64 {
            0
        }
        fn write(&mut self, b: &[u8]) {
            self.0.extend_from_slice(b);
        }
    }
    let mut d = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut d);
    let mut r = Rec(vec![]);
    x.hash(&mut r);
    (d.finish(), r.0)
}

pub fn relations(cx: &mut Cx) {
    let rows = rows(|r| r.sem.group() == Group::Rel);
    let sems = by_sem(&rows);
    tiny(cx, &rows, if cx.thorough { 6 } else { 4 });
    let n = cx.n(12_000, 300_000);
    grid(cx, &sems, n);
    // differing in exactly one bit, at every position
    for (i, w) in sweep_widths(cx).into_iter().enumerate() {
        if !cx.mine(i) {
            continue;
        }
        let step = if w > 128 && !cx.thorough { 1 + cx.r.below(w / 40) } else { 1 };
        let mut p = 0;
        while p < w {
            let a = gen::value(&mut cx.r, w);
            let b = a.with(p, !a.bit(p));
            for rs in &sems {
                let row = *cx.r.pick(rs);
                cx.check(&row, &a, &b, 0);
            }
            p += step;
        }
        if cx.done() {
            return;
        }
    }
    let n = cx.n(100_000, 2_500_000);
    for i in 0..n {
        let w = gen::width(&mut cx.r);
        let a = gen::value(&mut cx.r, w);
        let b = if i % 5 == 0 {
            // different widths, often the same number
            let w2 = gen::other_width(&mut cx.r, w);
            if cx.r.chance(1, 2) {
                if cx.r.chance(1, 2) { a.zresize(w2) } else { a.sresize(w2) }
            } else {
                gen::value(&mut cx.r, w2)
            }
        } else if i % 7 == 0 && nd(w) > 1 {
            // low digits say one thing, one higher digit the other
            let mut b = a.clone();
            let k = cx.r.below(b.d.len());
            for j in 0..k {
                b.d[j] = gen::digit(&mut cx.r);
            }
            b.d[k] = if cx.r.chance(1, 2) { b.d[k].wrapping_add(1) } else { b.d[k].wrapping_sub(1) };
            let d = b.d;
            B::new(w, d)
        } else {
            gen::related(&mut cx.r, &a)
        };
        for rs in &sems {
            let row = *cx.r.pick(rs);
            cx.check(&row, &a, &b, 0);
        }
        // equal values of different origin hash alike, for all three types
        let (x, y) = (obs::mk(&a, &mut cx.r), obs::mk(&a, &mut cx.r));
        cx.announce("hash", || format!("hash of {:?}", a));
        if x != y || y != x || hash_of(&x) != hash_of(&y) {
            cx.fail("hash", format!("two integers {:?} built along different routes: equal {}, hashes equal {}", a, x == y, hash_of(&x) == hash_of(&y)));
        }
        if i % 8 == 0 {
            let (hi, hj) = (hash_of(&Int::from(x.clone())), hash_of(&Int::from(y.clone())));
            let (hu, hv) = (hash_of(&UInt::from(x)), hash_of(&UInt::from(y)));
            if hi != hj || hu != hv {
                cx.fail("hash", format!("Int or UInt {:?} built along different routes hash differently", a));
            }
        }
        if cx.done() {
            return;
        }
    }
}

/// C11: outcome kind and unchanged operands; values are other properties' business.
pub fn errors(cx: &mut Cx) {
    obs::CHECK_TEXT.store(true, std::sync::atomic::Ordering::Relaxed);
    super::text::bad_inputs(cx);
    let all = rows(|r| !matches!(r.form, Form::Op | Form::OpAssign) && r.sem.specified());
    let fallible: Vec<Row> = all
        .iter()
        .filter(|r| r.sem.same_width() || matches!(r.sem.arg(), Arg::Shift | Arg::Pos) || matches!(r.sem, Sem::Trunc | Sem::ZExt | Sem::SExt | Sem::TryTo(..)))
        .cloned()
        .collect();
    fn go(cx: &mut Cx, row: &Row, a: &B, b: &B, n: usize) {
        let ok = valid(row, a, b, n);
        let mut s = Some(obs::mk(a, &mut cx.r));
        let mut bb = obs::mk(b, &mut cx.r);
        let res = cx.exec(row, &mut s, &mut bb, n, || crate::cx::describe(row, a, b, n));
        cx.state((row.name, ok, gen::wclass(a.w), gen::wclass(b.w), res.kind()));
        let bad = if ok {
            // must neither fail nor panic
            if res.failed() { Some(format!("valid request, but outcome {:?}", res)) } else { None }
        } else {
            cx.count("failing_calls_observed", 1);
            let e = spec(row, a, b, n);
            crate::cx::judge(&res, s.as_ref(), &bb, &e).or_else(obs::text_fault)
        };
        if cx.events % 9973 == 5 {
            let d = format!("{} -> {:?}", crate::cx::describe(row, a, b, n), res);
            cx.sample(|| d);
        }
        if let Some(m) = bad {
            let p = if res == Res::Panic { format!(" [panic: {}]", crate::cx::last_panic()) } else { String::new() };
            cx.fail("error contract", format!("{}: {}{}", crate::cx::describe(row, a, b, n), m, p));
        }
    }
    // every fallible row, systematically
    for (i, row) in fallible.iter().enumerate() {
        if !cx.mine(i) {
            continue;
        }
        let ws = [1usize, 2, 8, 31, 32, 63, 64, 65, 100, 127, 128, 129, 191, 192, 193, 256, 320, 511, 512, 513, 1000];
        for w in ws {
            for w2 in ws {
                for k in 0..3 {
                    let a = gen::value(&mut cx.r, w);
                    let b = if k == 0 && row.sem.group() == Group::Div { B::zero(w2) } else { gen::value(&mut cx.r, w2) };
                    let n = match row.sem.arg() {
                        Arg::Width => w2,
                        Arg::Shift | Arg::Pos => {
                            if k == 0 { w } else { w2 }
                        }
                        _ => 0,
                    };
                    go(cx, row, &a, &b, n);
                }
                if cx.done() {
                    return;
                }
            }
        }
    }
    let n = cx.n(700_000, 14_000_000);
    for i in 0..n {
        let w = gen::width(&mut cx.r);
        let a = gen::value(&mut cx.r, w);
        let row = if i % 4 == 0 { *cx.r.pick(&all) } else { *cx.r.pick(&fallible) };
        let inv = cx.r.chance(2, 3);
        let n = pick_n(&mut cx.r, &row, w, inv);
        let b = match row.sem.arg() {
            Arg::B if inv && row.sem.group() == Group::Div && cx.r.chance(1, 2) => {
                let w2 = if cx.r.chance(1, 4) { gen::other_width(&mut cx.r, w) } else { w };
                B::zero(w2)
            }
            Arg::B if inv => {
                let w2 = gen::other_width(&mut cx.r, w);
                if cx.r.chance(1, 3) { a.zresize(w2) } else { gen::value(&mut cx.r, w2) }
            }
            Arg::B => gen::related(&mut cx.r, &a),
            _ => B::zero(1),
        };
        go(cx, &row, &a, &b, n);
        if cx.done() {
            return;
        }
    }
}

/// C16: operators against the named operations on the same operands.
pub fn operators(cx: &mut Cx) {
    let ops = rows(|r| matches!(r.form, Form::Op | Form::OpAssign));
    let named = rows(|r| matches!(r.form, Form::Assign | Form::Into));
    let n = cx.n(1_200_000, 24_000_000);
    for i in 0..n {
        let row = if i < 4 * ops.len() { ops[i % ops.len()] } else { *cx.r.pick(&ops) };
        let partner = {
            let c: Vec<&Row> = named.iter().filter(|m| m.ty == row.ty && m.sem == row.sem).collect();
            let k = if row.form == Form::OpAssign { Form::Assign } else { Form::Into };
            **c.iter().find(|m| m.form == k).unwrap_or(&c[0])
        };
        // the untyped operation the signedness demands
        let base = named.iter().find(|m| m.ty == Ty::Ap && m.sem == row.sem && m.form == Form::Assign).copied();
        let w = if i % 3 == 0 { gen::width_small(&mut cx.r) } else { gen::width(&mut cx.r) };
        let (mut a, mut b) = if row.sem.group() == Group::Div {
            gen::division(&mut cx.r, w)
        } else {
            let a = gen::value(&mut cx.r, w);
            let b = gen::related(&mut cx.r, &a);
            (a, b)
        };
        let inv = cx.r.chance(1, 6);
        if inv && row.sem.arg() == Arg::B {
            if row.sem.group() == Group::Div && cx.r.chance(1, 2) {
                b = B::zero(w);
            } else {
                let w2 = gen::other_width(&mut cx.r, w);
                b = gen::value(&mut cx.r, w2);
            }
        }
        if cx.r.chance(1, 8) {
            a = B::smin(w);
        }
        let k = pick_n(&mut cx.r, &row, w, inv);
        let run = |cx: &mut Cx, row: &Row| {
            let mut s = Some(obs::mk(&a, &mut cx.r));
            let mut bb = obs::mk(&b, &mut cx.r);
            let res = cx.exec(row, &mut s, &mut bb, k, || crate::cx::describe(row, &a, &b, k));
            let p = crate::cx::last_panic();
            (res, s, bb, p)
        };
        let (r1, s1, b1, p1) = run(cx, &row);
        let (r2, s2, _b2, _) = run(cx, &partner);
        cx.state((row.name, row.form, gen::wclass(w), gen::class(&a), gen::class(&b), r1.kind()));
        let d = crate::cx::describe(&row, &a, &b, k);
        if r1.failed() {
            cx.count("operator_panics_observed", 1);
        }
        if (r1 == Res::Panic) != r2.failed() || (r1 != Res::Panic && r1 != r2) {
            cx.fail("operator", format!("{}: operator {:?}, {} gives {:?} [panic: {}]", d, r1, partner.name, r2, p1));
        } else if !r1.failed() {
            let (x, y) = (s1.as_ref().unwrap(), s2.as_ref().unwrap());
            if let Some(m) = obs::differs(x, &obs::seen(y)) {
                cx.fail("operator", format!("{}: differs from {}: {}", d, partner.name, m));
            }
            if let Some(base) = base {
                if base.name != partner.name {
                    let (r3, s3, _, _) = run(cx, &base);
                    match &s3 {
                        Some(z) if !r3.failed() => {
                            if let Some(m) = obs::differs(x, &obs::seen(z)) {
                                cx.fail("operator", format!("{}: differs from {}: {}", d, base.name, m));
                            }
                        }
                        _ => cx.fail("operator", format!("{}: succeeds, but {} gives {:?}", d, base.name, r3)),
                    }
                }
            }
        }
        if let Some(m) = obs::differs(&b1, &b) {
            cx.fail("operator", format!("{}: right operand changed: {}", d, m));
        }
        if cx.events % 997 == 5 {
            cx.sample(|| format!("{} -> {:?}", d, r1));
        }
        if cx.done() {
            return;
        }
    }
}

/// C17: the wrapper types.
pub fn signs(cx: &mut Cx) {
    let rows = rows(|r| r.ty != Ty::Ap && !matches!(r.form, Form::Op | Form::OpAssign));
    let pos_zero = |r: &Row, a: &B| r.sem == Sem::Pos && a.is_zero();
    for w in 1..=(if cx.thorough { 5 } else { 3 }) {
        for (i, row) in rows.iter().enumerate() {
            if !cx.mine(i) {
                continue;
            }
            for va in 0..1u128 << w {
                for vb in 0..1u128 << w {
                    let (a, b) = (B::from_u128(w, va), B::from_u128(w, vb));
                    if pos_zero(row, &a) {
                        continue;
                    }
                    let n = if row.sem.arg() == Arg::Width { vb as usize % 6 + 1 } else { vb as usize };
                    cx.check(row, &a, &b, n);
                }
            }
        }
    }
    constructors(cx);
    let sems = {
        // group by type and operation
        let mut out: Vec<Vec<Row>> = vec![];
        for r in &rows {
            match out.iter_mut().find(|v| v[0].sem == r.sem && v[0].ty == r.ty) {
                Some(v) => v.push(*r),
                None => out.push(vec![*r]),
            }
        }
        out
    };
    let n = cx.n(40_000, 1_000_000);
    for i in 0..n {
        let w = if i % 10 == 0 { cx.r.range(1, 3) } else { gen::width(&mut cx.r) };
        let (a, b) = if i % 3 == 0 {
            gen::division(&mut cx.r, w)
        } else {
            let a = gen::value(&mut cx.r, w);
            let b = gen::related(&mut cx.r, &a);
            (a, b)
        };
        for rs in &sems {
            let row = *cx.r.pick(rs);
            if pos_zero(&row, &a) {
                continue;
            }
            let n = pick_n(&mut cx.r, &row, w, i % 32 == 0);
            if i % 4 == 0 || cx.r.chance(1, 2) {
                cx.check(&row, &a, &b, n);
            }
        }
        if cx.done() {
            return;
        }
    }
}
