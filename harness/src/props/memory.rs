//! Memory safety under hostile histories, and what is allocated when.
use super::hist::{call, label, newcomer, run_step, span, Step, Steps};
use super::*;
use crate::alloc::{self, stat};
use crate::obs::{self, Res};
use apint::{ApInt, BitPos, BitWidth, Int, Radix, ShiftAmount, UInt, Width};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;

struct Bomb(usize);
impl From<Bomb> for BitWidth {
    fn from(_: Bomb) -> BitWidth {
        panic!("injected: width conversion fails")
    }
}
impl From<Bomb> for BitPos {
    fn from(_: Bomb) -> BitPos {
        panic!("injected: position conversion fails")
    }
}
impl From<Bomb> for ShiftAmount {
    fn from(b: Bomb) -> ShiftAmount {
        panic!("injected: shift amount conversion fails {}", b.0)
    }
}
impl From<Bomb> for Radix {
    fn from(_: Bomb) -> Radix {
        panic!("injected: radix conversion fails")
    }
}
struct BombStr;
impl AsRef<str> for BombStr {
    fn as_ref(&self) -> &str {
        panic!("injected: text fails")
    }
}
struct BombHasher(usize);
impl Hasher for BombHasher {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        if self.0 < b.len() {
            panic!("injected: hasher fails")
        }
        self.0 -= b.len();
    }
}
struct BombWriter(usize, bool);
impl std::fmt::Write for BombWriter {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0 < s.len() {
            if self.1 {
                panic!("injected: writer fails")
            }
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}

/// Something that fails from the outside in the middle of a library call.
fn sabotage(pool: &mut [ApInt], i: usize, r: &mut R) -> &'static str {
    use std::fmt::Write;
    let w = pool[i].width();
    let k = r.below(16);
    let x = &mut pool[i];
    let q = r.below(200);
    let boom = catch_unwind(AssertUnwindSafe(|| match k {
        #[cfg(feature = "f_rand")]
        0 => {
            x.randomize_using(&mut crate::rng::Const { v: !0, draws: 0, panic_after: Some(q % (nd(w.to_usize()) + 1)) });
            "randomize_using, generator panics"
        }
        #[cfg(feature = "f_rand")]
        1 => {
            *x = ApInt::random_with_width_using(w, &mut crate::rng::Const { v: !0, draws: 0, panic_after: Some(q % (nd(w.to_usize()) + 1)) });
            "random_with_width_using, generator panics"
        }
        #[cfg(feature = "f_serde")]
        2 | 3 => {
            use crate::tok::{De, V};
            use serde::Deserialize;
            let n = nd(w.to_usize());
            let mut d: Vec<V> = (0..n).map(|_| V::U(!0)).collect();
            let at = q % (n + 1);
            d.insert(at, if k == 2 { V::Panic } else { V::Fail });
            let v = if q % 2 == 0 { V::Map(vec![(V::Str("width".into()), V::Seq(vec![V::U(w.to_usize() as u64)])), (V::Str("digits".into()), V::Seq(d))]) } else { V::Seq(vec![V::U(w.to_usize() as u64), V::Seq(d)]) };
            if let Ok(y) = ApInt::deserialize(De { v: &v, human: q % 2 == 0 }) {
                *x = y;
            }
            "deserialize, decoder fails"
        }
        4 => {
            x.hash(&mut BombHasher(q));
            "hash, hasher panics"
        }
        5 => {
            let _ = write!(BombWriter(q, true), "{:b}", x);
            "format, writer panics"
        }
        6 => {
            let _ = write!(BombWriter(q, false), "{:x} {:?}", x, x);
            "format, writer fails"
        }
        7 => {
            let _ = x.truncate(Bomb(1));
            "truncate, conversion panics"
        }
        8 => {
            x.sign_resize(Bomb(1));
            "sign_resize, conversion panics"
        }
        9 => {
            let y = std::mem::replace(x, ApInt::from_u8(1));
            *x = y.into_zero_resize(Bomb(1));
            "into_zero_resize, conversion panics"
        }
        10 => {
            let _ = x.wrapping_shl_assign(Bomb(2));
            "wrapping_shl_assign, conversion panics"
        }
        11 => {
            let y = std::mem::replace(x, ApInt::from_u8(1));
            let _ = y.into_wrapping_ashr(Bomb(2)).map(|y| *x = y);
            "into_wrapping_ashr, conversion panics"
        }
        12 => {
            let _ = x.flip_bit_at(Bomb(3));
            "flip_bit_at, conversion panics"
        }
        13 => {
            let _ = ApInt::from_str_radix(Bomb(4), "123");
            "from_str_radix, radix conversion panics"
        }
        14 => {
            let _ = ApInt::from_str_radix(10u8, BombStr);
            "from_str_radix, text panics"
        }
        _ => {
            let _ = ApInt::from_str_radix(10u8, "12345678901234567890123456789012345678901234567890z");
            "from_str_radix, malformed"
        }
    }));
    boom.unwrap_or("injected panic")
}

/// Runs one history and returns a hash of everything observed in it. All
/// integers are gone when it returns.
fn history(steps: &Steps, seed: u64, len: usize, max_w: usize, mut log: Option<&mut Vec<String>>) -> (u64, usize, usize) {
    let mut r = R::new(seed);
    let mut widths: Vec<usize> = Vec::with_capacity(16);
    let mut pool: Vec<ApInt> = Vec::with_capacity(16);
    let mut held: Vec<ApInt> = Vec::with_capacity(64);
    let mut out = std::collections::hash_map::DefaultHasher::new();
    let (mut calls, mut failed) = (0, 0);
    for _ in 0..r.range(2, 4) {
        let b = newcomer(&mut r, &widths, max_w);
        widths.push(b.w);
        if let Some(l) = log.as_mut() {
            l.push(format!("v{} = {:?}", pool.len(), b));
        }
        pool.push(obs::mk(&b, &mut r));
    }
    for _ in 0..len {
        let k = r.below(20);
        calls += 1;
        match k {
            0 => {
                let i = r.below(pool.len());
                let m = sabotage(&mut pool, i, &mut r);
                failed += 1;
                if let Some(l) = log.as_mut() {
                    l.push(format!("v{}: {} [width now {}]", i, m, pool[i].width().to_usize()));
                }
            }
            1 if held.len() < 60 => {
                let i = r.below(pool.len());
                if let Some(l) = log.as_mut() {
                    l.push(format!("keep a clone of v{}", i));
                }
                held.push(pool[i].clone());
            }
            2 if !held.is_empty() => {
                // bring a kept clone back into play, dropping what was there
                let i = r.below(pool.len());
                let k = r.below(held.len());
                if let Some(l) = log.as_mut() {
                    l.push(format!("v{} replaced by a kept clone", i));
                }
                pool[i] = held.swap_remove(k);
            }
            3 => {
                // errors that carry values, dropped at once or formatted
                let i = r.below(pool.len());
                let z = ApInt::zero(pool[i].width());
                let e = catch_unwind(AssertUnwindSafe(|| match r.below(4) {
                    0 => pool[i].wrapping_udiv_assign(&z).err(),
                    1 => pool[i].clone().into_wrapping_sdiv(&z).err(),
                    2 => pool[i].try_to_bool().err(),
                    _ => pool[i].checked_ult(&ApInt::from_bool(true)).err(),
                }));
                if let Ok(Some(e)) = e {
                    let f = e.clone();
                    drop(e);
                    format!("{} {:?}", f, f).hash(&mut out);
                    drop(f);
                }
            }
            _ => {
                let st: Step = steps.pick(&mut r, &widths, max_w);
                if let Some(l) = log.as_mut() {
                    l.push(label(&st, widths[st.i], widths[st.j]));
                }
                let (res, gone) = run_step(&mut pool, &st);
                if res.failed() {
                    failed += 1;
                }
                match &res {
                    Res::S(s) => s.hash(&mut out),
                    o => format!("{:?}", o).hash(&mut out),
                }
                if gone {
                    let b = newcomer(&mut r, &widths, max_w);
                    if let Some(l) = log.as_mut() {
                        l.push(format!("v{} = {:?}", st.i, b));
                    }
                    pool[st.i] = obs::mk(&b, &mut r);
                }
            }
        }
        for (k, x) in pool.iter().enumerate() {
            let (w, d) = obs::raw(x);
            widths[k] = w;
            (w, d).hash(&mut out);
        }
    }
    for x in &held {
        obs::raw(x).hash(&mut out);
    }
    (out.finish(), calls, failed)
}

fn clear_panic() {
    if let Ok(mut g) = crate::cx::LAST_PANIC.lock() {
        *g = String::new();
    }
}

/// C12.
pub fn memory(cx: &mut Cx) {
    let limit: usize = crate::arg("--limit").map(|x| x.parse().unwrap()).unwrap_or(usize::MAX);
    let plain = cfg!(feature = "plain_alloc");
    // every row once per width class, one call per measurement
    if limit == usize::MAX {
        single_calls(cx);
    } else {
        interpreted_calls(cx);
        return;
    }
    let steps = Steps::new(|_| true);
    let histories = cx.n(60_000, 1_500_000);
    for hno in 0..histories {
        let seed = cx.r.u64();
        let max_w = span(&mut cx.r);
        let len = if hno % 10 == 0 { 80 } else { 25 };
        cx.announce("history", || format!("history seed {:#x} length {}", seed, len));
        if cx.trace {
            eprintln!("EVENT history seed {:#x} length {} max width {}", seed, len, max_w);
        }
        let run = |poison: u8| {
            alloc::POISON.store(poison, Relaxed);
            clear_panic();
            let before = stat();
            let h = catch_unwind(AssertUnwindSafe(|| history(&steps, seed, len, max_w, None)));
            clear_panic();
            let h = h.ok();
            (h, before, stat())
        };
        let (h1, _, _) = run(0xA5);
        let Some((x1, calls, failed)) = h1 else {
            let mut l = vec![];
            let _ = catch_unwind(AssertUnwindSafe(|| history(&steps, seed, len, max_w, Some(&mut l))));
            cx.history = l;
            let p = crate::cx::last_panic();
            cx.fail("corrupted value", format!("reading a live value panicked: {}", p));
            return;
        };
        cx.events += calls as u64;
        cx.count("calls", calls as u64);
        cx.count("failing_or_panicking_calls", failed as u64);
        cx.count("histories", 1);
        cx.state((x1, calls));
        let mut why = None;
        if !plain {
            let (h2, b2, a2) = run(0x3C);
            if h2.map(|h| h.0) != Some(x1) {
                why = Some("the same history gives other results when fresh heap memory has other contents: memory is read before it is written, or after release".to_string());
            }
            if a2.blocks != b2.blocks || a2.bytes != b2.bytes {
                // confirm: lazily initialised state of the harness would not repeat
                let (_, b3, a3) = run(0xA5);
                let (_, b4, a4) = run(0xA5);
                if a3.blocks - b3.blocks == a4.blocks - b4.blocks && (a3.blocks != b3.blocks || a3.bytes != b3.bytes) {
                    why = Some(format!("leak: {} blocks, {} bytes more live after the history than before it", a3.blocks - b3.blocks, a3.bytes - b3.bytes));
                }
            }
            if alloc::FAULTS.load(Relaxed) > 0 {
                why = Some(alloc::fault_name().into());
            }
        }
        if let Some(m) = why {
            let mut l = vec![];
            let _ = catch_unwind(AssertUnwindSafe(|| history(&steps, seed, len, max_w, Some(&mut l))));
            cx.history = l;
            cx.fail("memory", format!("history seed {:#x}: {}", seed, m));
            return;
        }
        if hno % 499 == 3 {
            let mut l = vec![];
            let _ = catch_unwind(AssertUnwindSafe(|| history(&steps, seed, len, max_w, Some(&mut l))));
            let s = l.join("; ");
            cx.sample(|| s);
        }
        if cx.done() {
            return;
        }
    }
}

/// For interpreters: every row on clones of a stock of operands, results read
/// back. Bookkeeping is kept out of the loop: under Miri it would cost more than
/// the calls.
fn interpreted_calls(cx: &mut Cx) {
    let all = table();
    const W: [usize; 12] = [65, 128, 64, 200, 1, 129, 192, 100, 63, 256, 8, 127];
    const WIDE: [usize; 6] = [320, 577, 1024, 450, 700, 1400];
    let mut widths: Vec<usize> = W.to_vec();
    for k in 0..2 {
        let w = gen::lit_size(&mut cx.r, 1500).unwrap_or(1);
        widths.push(if w > 2 && cx.r.chance(1, 2) { w } else { WIDE[(cx.shard + 3 * k + cx.r.below(2)) % WIDE.len()] });
    }
    let stock: Vec<Vec<ApInt>> = widths.iter().map(|&w| (0..4).map(|k| obs::cheap(&few_steps(&mut cx.r, w, k))).collect()).collect();
    let zeros: Vec<ApInt> = widths.iter().map(|&w| ApInt::zero(obs::bw(w))).collect();
    let mut pool: Vec<ApInt> = (0..6).map(|k| stock[k][3].clone()).collect();
    let mut sabotaged = 0;
    let mut calls = vec![0u64; all.len()];
    // per row: one bit per width and outcome
    let mut seen = vec![0u128; all.len()];
    let mut total = 0;
    let mut t = 0;
    'rounds: loop {
        for (k, row) in all.iter().enumerate() {
            // other rows in other shards in each round
            if !cx.mine(k + t) {
                continue;
            }
            let q = cx.r.u64() as usize;
            // wide operands now and then only
            let wi = if q % 10 == 9 { W.len() + (q >> 8) % (widths.len() - W.len()) } else { (t + k + (q >> 8) % 2) % W.len() };
            let w = widths[wi];
            let inv = (q >> 12) % 12 == 4;
            let free = inv || matches!(row.sem, Sem::Assign | Sem::CloneFrom);
            let wj = if free { (q >> 16) % widths.len() } else { wi };
            // a third of the calls continue from what earlier calls left behind
            let slot = (q >> 44) % pool.len();
            let chained = (q >> 40) % 3 == 0;
            let mut s = Some(if chained { std::mem::replace(&mut pool[slot], ApInt::from_bool(true)) } else { stock[wi][(q >> 24) % 4].clone() });
            let w = s.as_ref().map_or(w, |x| x.width().to_usize());
            let mut bb = if inv && (q >> 28) % 3 == 0 {
                zeros[wi].clone()
            } else if w == widths[wi] || free {
                stock[wj][(q >> 32) % 4].clone()
            } else {
                let mut b = s.clone().unwrap_or_else(|| zeros[0].clone());
                if (q >> 36) % 2 == 0 {
                    b.bitnot();
                }
                b
            };
            let mut n = match row.sem.arg() {
                Arg::None | Arg::B => 0,
                _ => pick_n(&mut cx.r, row, w, inv),
            };
            if row.sem.arg() == Arg::Width && n > 1500 {
                n = 1 + n % 1500;
            }
            if cx.trace {
                eprintln!("EVENT {} [{:?}] {:?} {:?} {}", row.name, row.form, s, bb, n);
            }
            let res = call(row, &mut s, &mut bb, n);
            // read every digit back
            let ones = s.as_ref().map(|x| x.count_ones()).unwrap_or(0) + bb.count_ones();
            std::hint::black_box(ones);
            if chained || (q >> 48) % 4 == 0 {
                pool[slot] = s.unwrap_or(bb);
            }
            if chained && (q >> 52) % 8 == 0 {
                sabotage(&mut pool, slot, &mut cx.r);
                std::hint::black_box(pool[slot].count_ones());
                sabotaged += 1;
            }
            calls[k] += 1;
            total += 1;
            seen[k] |= 1 << (wi * 5 + (res.kind() as usize) % 5);
            if cx.done() {
                break 'rounds;
            }
        }
        t += 1;
    }
    for (k, row) in all.iter().enumerate() {
        if calls[k] > 0 {
            *cx.per_op.entry(row.name).or_insert(0) += calls[k];
        }
        let mut m = seen[k];
        while m != 0 {
            let b = m.trailing_zeros() as usize;
            m &= m - 1;
            let key = (k << 20 | widths[b / 5] << 3 | b % 5) as u64;
            cx.distinct.insert(key.wrapping_mul(0x9E37_79B9_7F4A_7C15));
        }
    }
    cx.events += total;
    cx.count("interpreted_calls", total);
    cx.count("interpreted_injected_failures", sabotaged);
}

fn few_steps(r: &mut R, w: usize, k: usize) -> B {
    B::new(w, (0..nd(w)).map(|i| match k {
        0 => !0,
        1 if i > 0 => 0,
        2 => if i % 2 == 0 { !0 } else { r.u64() },
        _ => r.u64(),
    }).collect())
}

/// One call per measurement: exact blame for leaks and heap faults.
fn single_calls(cx: &mut Cx) {
    let all = table();
    for (k, row) in all.iter().enumerate() {
        if !cx.mine(k) {
            continue;
        }
        for t in 0..(if cx.thorough { 400 } else { 60 }) {
            let w = if t % 3 == 0 { *cx.r.pick(&[1, 63, 64, 65, 127, 128, 129, 192]) } else if t % 6 == 1 { gen::width(&mut cx.r) } else { gen::width_small(&mut cx.r) };
            let (a, mut b) = gen::division(&mut cx.r, w);
            let inv = t % 4 == 3;
            if inv {
                let w2 = gen::other_width(&mut cx.r, w);
                b = if cx.r.chance(1, 2) { B::zero(w) } else { gen::value(&mut cx.r, w2) };
            } else if matches!(row.sem, Sem::Assign | Sem::CloneFrom) {
                let w2 = gen::width_small(&mut cx.r);
                b = gen::value(&mut cx.r, w2);
            }
            let n = pick_n(&mut cx.r, row, w, inv);
            cx.announce(row.name, || crate::cx::describe(row, &a, &b, n));
            let rs = cx.r.u64();
            let go = || {
                clear_panic();
                let before = stat();
                {
                    let mut r = R::new(rs);
                    let mut s = Some(obs::mk(&a, &mut r));
                    let mut bb = obs::mk(&b, &mut r);
                    let _ = call(row, &mut s, &mut bb, n);
                }
                clear_panic();
                let after = stat();
                (after.blocks - before.blocks, after.bytes - before.bytes)
            };
            let mut d = go();
            if d != (0, 0) {
                d = go();
                if d != (0, 0) && go() == d {
                    let m = crate::cx::describe(row, &a, &b, n);
                    cx.fail("leak", format!("{}: {} blocks and {} bytes more live after the call than before", m, d.0, d.1));
                }
            }
            if alloc::FAULTS.load(Relaxed) > 0 {
                let m = crate::cx::describe(row, &a, &b, n);
                cx.fail("heap fault", format!("{}: {}", m, alloc::fault_name()));
            }
            cx.state((row.name, row.form, gen::wclass(w), inv));
            if cx.done() {
                return;
            }
        }
    }
}

fn footprint_of(w: usize) -> (i64, i64) {
    if w <= 64 { (0, 0) } else { (1, 8 * nd(w) as i64) }
}

/// C14.
pub fn footprint(cx: &mut Cx) {
    for (n, s) in [("ApInt", std::mem::size_of::<ApInt>()), ("Int", std::mem::size_of::<Int>()), ("UInt", std::mem::size_of::<UInt>())] {
        if s != 16 {
            cx.fail("object size", format!("{} objects take {} bytes", n, s));
            return;
        }
    }
    constructors(cx);
    let all = table();
    let sems = by_sem(&all);
    let total = cx.n(900_000, 20_000_000);
    for i in 0..total {
        let row = {
            let s = &sems[if i < 4 * sems.len() { i % sems.len() } else { cx.r.below(sems.len()) }];
            *cx.r.pick(s)
        };
        if !(row.sem.no_alloc() || row.sem.no_alloc_small() || i % 4 == 0) {
            continue;
        }
        let small = cx.r.chance(1, 2);
        let w = if small { cx.r.range(1, 64) } else { gen::width(&mut cx.r).max(65) };
        let (a, mut b) = if row.sem.group() == Group::Div {
            gen::division(&mut cx.r, w)
        } else {
            let a = gen::value(&mut cx.r, w);
            let b = gen::related(&mut cx.r, &a);
            (a, b)
        };
        if b.is_zero() && row.sem.group() == Group::Div {
            b = B::one(w);
        }
        if matches!(row.sem, Sem::Assign | Sem::CloneFrom | Sem::Eq | Sem::Ne) && cx.r.chance(2, 3) {
            let w2 = if small && cx.r.chance(3, 4) { cx.r.range(1, 64) } else { gen::other_width(&mut cx.r, w) };
            b = gen::value(&mut cx.r, w2);
        }
        let n = pick_n(&mut cx.r, &row, w, false);
        if !valid(&row, &a, &b, n) {
            continue;
        }
        let mut s = Some(obs::mk(&a, &mut cx.r));
        let mut bb = obs::mk(&b, &mut cx.r);
        cx.announce(row.name, || crate::cx::describe(&row, &a, &b, n));
        let before = stat();
        let res = call(&row, &mut s, &mut bb, n);
        let after = stat();
        let made = after.calls - before.calls;
        if res.failed() {
            continue; // another property's business
        }
        drop(res);
        let target = if row.sem.arg() == Arg::Width { n } else { 1 };
        let all_small = w <= 64 && b.w <= 64 && target <= 64;
        let never = (row.sem.no_alloc_small() && all_small) || row.sem.no_alloc();
        cx.state((row.name, row.form, gen::wclass(w), gen::wclass(b.w), never));
        if never {
            cx.count("calls_required_not_to_allocate", 1);
            if made != 0 {
                let d = crate::cx::describe(&row, &a, &b, n);
                cx.fail("allocation", format!("{}: {} allocations, must make none", d, made));
            }
        }
        // what the values own now
        for (what, v) in [("self", s.take()), ("second operand", Some(std::mem::replace(&mut bb, ApInt::from_bool(false))))] {
            if let Some(x) = v {
                let wx = x.width().to_usize();
                let before = stat();
                drop(x);
                let after = stat();
                let owned = (before.blocks - after.blocks, before.bytes - after.bytes);
                cx.count("footprints_measured", 1);
                if owned != footprint_of(wx) {
                    let d = crate::cx::describe(&row, &a, &b, n);
                    cx.fail("footprint", format!("after {}: {} of width {} owns {} blocks of {} bytes in total, should be {:?}", d, what, wx, owned.0, owned.1, footprint_of(wx)));
                }
            }
        }
        if cx.events % 4999 == 5 {
            let d = crate::cx::describe(&row, &a, &b, n);
            cx.sample(|| format!("{}: {} allocations", d, made));
        }
        if cx.done() {
            return;
        }
    }
    // conservation over histories: live bytes are those of the live integers
    let steps = Steps::new(|_| true);
    let total = cx.n(8_000, 200_000);
    for _ in 0..total {
        let seed = cx.r.u64();
        let mut r = R::new(seed);
        let mw = span(&mut r);
        let mut widths: Vec<usize> = Vec::with_capacity(8);
        let mut pool: Vec<ApInt> = Vec::with_capacity(8);
        cx.history.clear();
        clear_panic();
        let base = stat();
        for _ in 0..r.range(2, 4) {
            let b = newcomer(&mut r, &widths, mw);
            widths.push(b.w);
            pool.push(obs::mk(&b, &mut r));
        }
        let mut log: Vec<(Step, usize, usize)> = vec![];
        let mut own = stat();
        let mut bad = None;
        for _ in 0..30 {
            let st = steps.pick(&mut r, &widths, mw);
            // only the library's allocations between here ...
            let before = stat();
            let (res, gone) = run_step(&mut pool, &st);
            drop(res);
            clear_panic();
            let after = stat();
            // ... and here
            own.bytes += after.bytes - before.bytes;
            own.blocks += after.blocks - before.blocks;
            let (wi, wj) = (widths[st.i], widths[st.j]);
            if gone {
                let b = newcomer(&mut r, &widths, mw);
                let before = stat();
                let x = obs::mk(&b, &mut r);
                pool[st.i] = x;
                let after = stat();
                own.bytes += after.bytes - before.bytes - footprint_of(b.w).1 + footprint_of(b.w).1;
                own.blocks += after.blocks - before.blocks;
            }
            for (k, x) in pool.iter().enumerate() {
                widths[k] = x.width().to_usize();
            }
            let want: i64 = widths.iter().map(|&w| footprint_of(w).1).sum();
            let want_blocks: i64 = widths.iter().map(|&w| footprint_of(w).0).sum();
            log.push((st, wi, wj));
            let got = (own.bytes - base.bytes, own.blocks - base.blocks);
            if got != (want, want_blocks) {
                bad = Some(format!("{} bytes in {} blocks are live for integers of widths {:?}, should be {} bytes in {} blocks", got.0, got.1, widths, want, want_blocks));
                break;
            }
            cx.count("history_steps_balanced", 1);
        }
        cx.announce("history", || format!("history seed {:#x}", seed));
        if let Some(m) = bad {
            cx.history = log.iter().map(|(s, a, b)| label(s, *a, *b)).collect();
            cx.fail("footprint", format!("history seed {:#x}: after the last step {}", seed, m));
        }
        if cx.done() {
            return;
        }
    }
}

fn constructors(cx: &mut Cx) {
    macro_rules! none {
        ($name:expr, $e:expr) => {{
            cx.announce($name, || $name.to_string());
            let before = stat();
            let x = $e;
            let made = stat().calls - before.calls;
            cx.count("calls_required_not_to_allocate", 1);
            drop(x);
            if made != 0 {
                cx.fail("allocation", format!("{}: {} allocations for an integer of at most 64 bits", $name, made));
                return;
            }
        }};
    }
    for w in 1..=64usize {
        let b = BitWidth::new(w).unwrap();
        none!("BitWidth::new", BitWidth::new(w));
        none!("ApInt::zero", ApInt::zero(b));
        none!("ApInt::one", ApInt::one(b));
        none!("ApInt::all_set", ApInt::all_set(b));
        none!("ApInt::all_unset", ApInt::all_unset(b));
        none!("ApInt::signed_min_value", ApInt::signed_min_value(b));
        none!("ApInt::signed_max_value", ApInt::signed_max_value(b));
        none!("ApInt::unsigned_min_value", ApInt::unsigned_min_value(b));
        none!("ApInt::unsigned_max_value", ApInt::unsigned_max_value(b));
        none!("Int::zero", Int::zero(b));
        none!("Int::one", Int::one(b));
        none!("Int::min_value", Int::min_value(b));
        none!("Int::max_value", Int::max_value(b));
        none!("Int::all_set", Int::all_set(b));
        none!("UInt::zero", UInt::zero(b));
        none!("UInt::one", UInt::one(b));
        none!("UInt::min_value", UInt::min_value(b));
        none!("UInt::max_value", UInt::max_value(b));
        none!("UInt::all_set", UInt::all_set(b));
        let x = ApInt::all_set(b);
        none!("ApInt::clone", x.clone());
        none!("Int::from", Int::from(x.clone()));
        none!("UInt::from", UInt::from(x.clone()).into_signed());
    }
    for v in [0u64, 1, 0x7f, 0x80, 0xff, 1 << 31, 1 << 63, !0] {
        none!("ApInt::from_bool", ApInt::from_bool(v == 1));
        none!("ApInt::from_u8", ApInt::from_u8(v as u8));
        none!("ApInt::from_i8", ApInt::from_i8(v as i8));
        none!("ApInt::from_u16", ApInt::from_u16(v as u16));
        none!("ApInt::from_i16", ApInt::from_i16(v as i16));
        none!("ApInt::from_u32", ApInt::from_u32(v as u32));
        none!("ApInt::from_i32", ApInt::from_i32(v as i32));
        none!("ApInt::from_u64", ApInt::from_u64(v));
        none!("ApInt::from_i64", ApInt::from_i64(v as i64));
        none!("Int::from i64", Int::from(v as i64));
        none!("UInt::from u64", UInt::from(v));
    }
    // wide constructions: footprint
    for w in (65..400usize).chain([511, 512, 513, 1000, 4096, 4097]) {
        if !cx.mine(w) {
            continue;
        }
        let b = BitWidth::new(w).unwrap();
        let list: Vec<(&'static str, fn(BitWidth) -> ApInt)> = vec![
            ("ApInt::zero", ApInt::zero),
            ("ApInt::one", ApInt::one),
            ("ApInt::all_set", ApInt::all_set),
            ("ApInt::signed_min_value", ApInt::signed_min_value),
            ("ApInt::signed_max_value", ApInt::signed_max_value),
            ("clone", |b| ApInt::all_set(b).clone()),
            #[cfg(feature = "f_rand")]
            ("random_with_width_using", |b| ApInt::random_with_width_using(b, &mut crate::rng::Seq::new(7))),
        ];
        for (name, f) in list {
            cx.announce(name, || format!("{} width {}", name, w));
            let x = f(b);
            let before = stat();
            drop(x);
            let after = stat();
            let owned = (before.blocks - after.blocks, before.bytes - after.bytes);
            cx.count("footprints_measured", 1);
            if owned != footprint_of(w) {
                cx.fail("footprint", format!("{} of width {} owns {} blocks of {} bytes", name, w, owned.0, owned.1));
            }
        }
    }
    let text: Vec<(&'static str, ApInt)> = vec![
        ("from_str_radix 16", ApInt::from_str_radix(16u8, "123456789abcdef0123456789abcdef").unwrap()),
        ("from_str_radix 10", ApInt::from_str_radix(10u8, "1234567890123456789012345678901234567890").unwrap()),
        ("from_str_radix 8", ApInt::from_str_radix(8u8, "1234567012345670123456701234567").unwrap()),
        ("from [u64; 5]", ApInt::from([1u64, 2, 3, 4, 5])),
        ("from u128", ApInt::from(1u128 << 100)),
    ];
    for (name, x) in text {
        let w = x.width().to_usize();
        let before = stat();
        drop(x);
        let after = stat();
        let owned = (before.blocks - after.blocks, before.bytes - after.bytes);
        if owned != footprint_of(w) {
            cx.fail("footprint", format!("{} of width {} owns {} blocks of {} bytes", name, w, owned.0, owned.1));
        }
    }
}
