//! Properties of operation histories over a pool of live integers.
use super::*;
use crate::obs::{self, Res, E};
use apint::{ApInt, Error, Int, UInt};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// One step of a history: row, operands and argument.
pub struct Step {
    pub row: Row,
    pub i: usize,
    pub j: usize,
    pub n: usize,
}

/// Groups weighted so that width-changing and failing steps stay frequent and
/// values do not degenerate.
pub struct Steps {
    groups: Vec<Vec<Vec<Row>>>,
}
/// The widest integers of a history: mostly small ones, for many cheap
/// histories, and every sixth history with integers of dozens of digits.
pub fn span(r: &mut R) -> usize {
    if r.chance(1, 6) { 4400 } else { 700 }
}
impl Steps {
    pub fn new(keep: impl Fn(&Row) -> bool) -> Steps {
        let mut groups = vec![];
        for g in [Group::Ring, Group::Div, Group::Shift, Group::Bit, Group::Cast, Group::Conv, Group::Rel, Group::Text, Group::Misc] {
            let rs = rows(|r| r.sem.group() == g && keep(r));
            if !rs.is_empty() {
                groups.push(by_sem(&rs));
            }
        }
        Steps { groups }
    }
    /// Picks a step for a pool with these widths.
    pub fn pick(&self, r: &mut R, widths: &[usize], max_w: usize) -> Step {
        let g = &self.groups[r.below(self.groups.len())];
        let sem = &g[r.below(g.len())];
        let row = sem[r.below(sem.len())];
        let i = r.below(widths.len());
        let w = widths[i];
        let mut j = r.below(widths.len());
        let inv = r.chance(1, 8);
        if row.sem.same_width() && !inv {
            // prefer a partner of the same width
            let same: Vec<usize> = (0..widths.len()).filter(|&k| widths[k] == w).collect();
            j = same[r.below(same.len())];
        }
        let mut n = pick_n(r, &row, w, inv);
        if row.sem.arg() == Arg::Width && n > max_w {
            n = 1 + n % max_w;
        }
        Step { row, i, j, n }
    }
}

/// Executes a step on a pool; returns the outcome and the new state of the two
/// operand slots (`None`: consumed).
pub fn run_step(pool: &mut [ApInt], st: &Step) -> (Res, bool) {
    let mut s = Some(std::mem::replace(&mut pool[st.i], ApInt::from_bool(false)));
    let res = if st.i == st.j {
        // the same value on both sides: the right one is a clone
        match catch_unwind(AssertUnwindSafe(|| s.as_ref().unwrap().clone())) {
            Ok(mut b) => call(&st.row, &mut s, &mut b, st.n),
            Err(_) => Res::Panic,
        }
    } else {
        let mut b = std::mem::replace(&mut pool[st.j], ApInt::from_bool(false));
        let r = call(&st.row, &mut s, &mut b, st.n);
        pool[st.j] = b;
        r
    };
    match s {
        Some(x) => {
            pool[st.i] = x;
            (res, false)
        }
        None => (res, true),
    }
}
pub fn call(row: &Row, s: &mut Option<ApInt>, b: &mut ApInt, n: usize) -> Res {
    match catch_unwind(AssertUnwindSafe(|| (row.f)(s, b, n))) {
        Ok(r) => r,
        Err(_) => Res::Panic,
    }
}
pub fn label(st: &Step, wi: usize, wj: usize) -> String {
    match st.row.sem.arg() {
        Arg::B => format!("{} [{:?}] v{}:{} v{}:{}", st.row.name, st.row.form, st.i, wi, st.j, wj),
        Arg::None => format!("{} [{:?}] v{}:{}", st.row.name, st.row.form, st.i, wi),
        _ => format!("{} [{:?}] v{}:{} arg {}", st.row.name, st.row.form, st.i, wi, st.n),
    }
}
/// A new value for the pool, sharing a width with the others half of the time.
pub fn newcomer(r: &mut R, widths: &[usize], max_w: usize) -> B {
    let w = if !widths.is_empty() && r.chance(1, 2) { *r.pick(widths) } else { if max_w > 1000 { gen::width(r).min(max_w) } else { gen::width_small(r).min(max_w) } };
    gen::value(r, w)
}

fn h<T: Hash>(x: &T) -> u64 {
    let mut d = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut d);
    d.finish()
}

/// Every observation of `x` agrees with those of a freshly built equal value.
fn indistinguishable(x: &ApInt, f: &ApInt) -> Option<String> {
    let t = |c: bool, m: &str| if c { None } else { Some(m.to_string()) };
    let k = |m: &str, a: String, b: String| if a == b { None } else { Some(format!("{}: {} instead of {}", m, a, b)) };
    t(x == f && f == x && !(x != f), "not equal to the fresh value")
        .or_else(|| t(h(x) == h(f), "hash differs"))
        .or_else(|| k("debug output", format!("{:?}", x), format!("{:?}", f)))
        .or_else(|| k("binary text", format!("{:b}", x), format!("{:b}", f)))
        .or_else(|| k("hexadecimal text", format!("{:x}", x), format!("{:x}", f)))
        .or_else(|| k("upper hexadecimal text", format!("{:X}", x), format!("{:X}", f)))
        .or_else(|| k("serialized form", format!("{:x?}", obs::raw(x)), format!("{:x?}", obs::raw(f))))
        .or_else(|| {
            let c = |a: &ApInt, b: &ApInt| {
                (
                    a.checked_ult(b).ok(),
                    a.checked_ule(b).ok(),
                    a.checked_ugt(b).ok(),
                    a.checked_uge(b).ok(),
                    a.checked_slt(b).ok(),
                    a.checked_sle(b).ok(),
                    a.checked_sgt(b).ok(),
                    a.checked_sge(b).ok(),
                )
            };
            let want = c(f, f);
            t(c(x, f) == want && c(f, x) == want && c(x, x) == want, "compares differently with itself and the fresh value")
        })
        .or_else(|| {
            let c = |a: &ApInt| {
                format!(
                    "{:?}",
                    (a.count_ones(), a.count_zeros(), a.leading_zeros(), a.trailing_zeros(), a.is_zero(), a.is_all_set(), a.is_all_unset(), a.is_even(), a.msb(), a.lsb())
                )
            };
            k("counts and predicates", c(x), c(f))
        })
        .or_else(|| {
            let c = |a: &ApInt| {
                format!(
                    "{:?}",
                    (a.resize_to_u64(), a.resize_to_i128(), a.resize_to_u128(), a.try_to_u64().ok(), a.try_to_i64().ok(), a.try_to_u128().ok(), a.try_to_bool().ok())
                )
            };
            k("conversion to primitives", c(x), c(f))
        })
}

/// C10.
pub fn canonical(cx: &mut Cx) {
    let steps = Steps::new(|r| r.sem != Sem::Oct);
    let histories = cx.n(40_000, 800_000);
    for hno in 0..histories {
        let hseed = cx.r.u64();
        let mut r = R::new(hseed);
        let mw = span(&mut r);
        cx.history.clear();
        let mut widths: Vec<usize> = vec![];
        let mut pool: Vec<ApInt> = vec![];
        for _ in 0..r.range(2, 5) {
            let b = newcomer(&mut r, &widths, mw);
            widths.push(b.w);
            cx.history.push(format!("v{} = {:?}", pool.len(), b));
            pool.push(obs::mk(&b, &mut r));
        }
        let len = if hno % 5 == 0 { 60 } else { 14 };
        for _ in 0..len {
            let st = steps.pick(&mut r, &widths, mw);
            cx.announce(st.row.name, || label(&st, widths[st.i], widths[st.j]));
            if cx.history.len() > 200 {
                cx.history.remove(0);
            }
            cx.history.push(label(&st, widths[st.i], widths[st.j]));
            // the same step on freshly built equals
            let d = "reading and rebuilding a live value";
            let Some((fi, fj, bi)) = cx.guard(d, || {
                let bi = obs::bits(&pool[st.i]);
                let bj = obs::bits(&pool[st.j]);
                (obs::fresh(&bi), obs::fresh(&bj), bi)
            }) else {
                return;
            };
            let (mut twin, tst) = if st.i == st.j { (vec![fi], Step { row: st.row, i: 0, j: 0, n: st.n }) } else { (vec![fi, fj], Step { row: st.row, i: 0, j: 1, n: st.n }) };
            let (res, gone) = run_step(&mut pool, &st);
            let (res2, gone2) = run_step(&mut twin, &tst);
            cx.state((st.row.name, st.row.form, gen::wclass(bi.w), gen::class(&bi), res.kind()));
            if res != res2 || gone != gone2 {
                cx.fail("history dependence", format!("last step: outcome {:?}, but on fresh equal operands {:?}", res, res2));
                return;
            }
            if res.failed() {
                cx.count("failed_steps", 1);
            }
            let mut touched = vec![st.i];
            if st.i != st.j {
                touched.push(st.j);
            }
            for (k, &t) in touched.iter().enumerate() {
                if gone && k == 0 {
                    let b = newcomer(&mut r, &widths, mw);
                    cx.history.push(format!("v{} = {:?}", t, b));
                    pool[t] = obs::mk(&b, &mut r);
                    widths[t] = b.w;
                    continue;
                }
                let x = &pool[t];
                let tw = &twin[k];
                let got = catch_unwind(AssertUnwindSafe(|| {
                    let b = obs::bits(x);
                    let f = obs::fresh(&b);
                    let m = indistinguishable(x, &f).or_else(|| if obs::bits(tw) != b { Some(format!("{:?}, but the same step on fresh operands gives {:?}", b, obs::bits(tw))) } else { None });
                    (b.w, m.map(|m| format!("v{} = {:?}: {}", t, b, m)))
                }));
                match got {
                    Ok((w, None)) => widths[t] = w,
                    Ok((_, Some(m))) => {
                        cx.fail("not canonical", format!("after the last step: {}", m));
                        return;
                    }
                    Err(_) => {
                        let p = crate::cx::last_panic();
                        cx.fail("not canonical", format!("observing v{} after the last step panicked: {}", t, p));
                        return;
                    }
                }
                cx.count("values_compared_with_fresh", 1);
            }
            if res == Res::Panic {
                cx.count("panicking_steps", 1);
            }
        }
        cx.count("histories", 1);
        if hno % 997 == 3 {
            let s = cx.history.join("; ");
            cx.sample(|| s);
        }
        cx.history.clear();
        if cx.done() {
            return;
        }
    }
}

/// C13, one call at a time, on operands of any width: only the receiver of a
/// changing call may read differently afterwards.
fn one_call(cx: &mut Cx) {
    let all = rows(|r| r.sem != Sem::Oct);
    let total = cx.n(400_000, 8_000_000);
    for t in 0..total {
        let row = all[t % all.len()];
        let w = gen::width(&mut cx.r);
        let a = gen::value(&mut cx.r, w);
        let mut b = gen::related(&mut cx.r, &a);
        let inv = cx.r.chance(1, 6);
        if inv && row.sem.arg() == Arg::B {
            let w2 = gen::other_width(&mut cx.r, w);
            b = if cx.r.chance(1, 3) { B::zero(w) } else { gen::value(&mut cx.r, w2) };
        } else if matches!(row.sem, Sem::Assign | Sem::CloneFrom) {
            let w2 = gen::width(&mut cx.r);
            b = gen::value(&mut cx.r, w2);
        }
        let n = pick_n(&mut cx.r, &row, w, inv);
        cx.announce(row.name, || crate::cx::describe(&row, &a, &b, n));
        let mut s = Some(obs::mk(&a, &mut cx.r));
        let mut bb = obs::mk(&b, &mut cx.r);
        let (ca, cb) = (s.as_ref().unwrap().clone(), bb.clone());
        let (ra, rb) = (obs::raw(&ca), obs::raw(&cb));
        let res = call(&row, &mut s, &mut bb, n);
        cx.state((row.name, row.form, gen::wclass(a.w), gen::wclass(b.w), res.kind()));
        let mut bad = None;
        if obs::raw(&ca) != ra || obs::raw(&cb) != rb {
            bad = Some("a clone of an operand");
        }
        if obs::raw(&bb) != rb && (row.form != Form::Pair || res.failed()) {
            bad = Some("the argument");
        }
        if let Some(s) = &s {
            let may = row.form != Form::Query && !res.failed() || row.form == Form::OpAssign && res == Res::Panic;
            if !may && obs::raw(s) != ra {
                bad = Some("the receiver, which this call may not change,");
            }
            // writing to the result does not reach a clone either
            let keep = obs::raw(s);
            let mut s2 = s.clone();
            s2.bitnot();
            if obs::raw(s) != keep || obs::raw(&ca) != ra {
                bad = Some("(after a clone of the result was inverted) the result or the clone of an operand");
            }
        }
        cx.count("single_calls", 1);
        if let Some(m) = bad {
            let d = crate::cx::describe(&row, &a, &b, n);
            cx.fail("changed bystander", format!("{}: {} reads differently afterwards", d, m));
            return;
        }
        if cx.done() {
            return;
        }
    }
}

/// C13.
pub fn independent(cx: &mut Cx) {
    one_call(cx);
    if cx.done() {
        return;
    }
    let steps = Steps::new(|r| r.sem != Sem::Oct);
    let histories = cx.n(60_000, 1_200_000);
    for hno in 0..histories {
        let hseed = cx.r.u64();
        let mut r = R::new(hseed);
        let mw = span(&mut r);
        cx.history.clear();
        let mut widths: Vec<usize> = vec![];
        let mut pool: Vec<ApInt> = vec![];
        let mut snap: Vec<(usize, Vec<u64>)> = vec![];
        let mut errs: Vec<(Error, E)> = vec![];
        for _ in 0..r.range(2, 4) {
            let b = newcomer(&mut r, &widths, mw);
            widths.push(b.w);
            cx.history.push(format!("v{} = {:?}", pool.len(), b));
            pool.push(obs::mk(&b, &mut r));
            snap.push(obs::raw(pool.last().unwrap()));
        }
        for _ in 0..20 {
            let kind = r.below(12);
            let mut may_change: Vec<usize> = vec![];
            let mut dropped: Option<usize> = None;
            match kind {
                0 if pool.len() < 8 => {
                    // clone, also through the wrapper types
                    let i = r.below(pool.len());
                    cx.announce("clone into pool", || format!("v{}", i));
                    cx.history.push(format!("v{} = v{}.clone()", pool.len(), i));
                    let how = r.below(3);
                    let c = cx.guard("clone", || match how {
                        0 => pool[i].clone(),
                        1 => Int::from(pool[i].clone()).clone().into_apint(),
                        _ => UInt::from(pool[i].clone()).clone().into_apint(),
                    });
                    let Some(c) = c else { return };
                    let raw = obs::raw(&c);
                    if raw != snap[i] {
                        cx.fail("clone", format!("clone of v{} reads {:x?}, original {:x?}", i, raw, snap[i]));
                        return;
                    }
                    snap.push(raw);
                    widths.push(widths[i]);
                    pool.push(c);
                    cx.count("clones", 1);
                }
                1 if pool.len() > 1 => {
                    // assign between values
                    let i = r.below(pool.len());
                    let j = (i + 1 + r.below(pool.len() - 1)) % pool.len();
                    let how = r.below(4);
                    cx.announce("assign in pool", || format!("v{} := v{}", i, j));
                    cx.history.push(format!("v{}.assign(&v{}) (way {})", i, j, how));
                    let src = std::mem::replace(&mut pool[j], ApInt::from_bool(false));
                    let ok = cx.guard("assign", || match how {
                        0 => pool[i].assign(&src),
                        1 => pool[i].clone_from(&src),
                        2 => {
                            let mut x = Int::from(std::mem::replace(&mut pool[i], ApInt::from_bool(true)));
                            let s = Int::from(src.clone());
                            x.assign(&s);
                            drop(s);
                            pool[i] = x.into_apint();
                        }
                        _ => {
                            let mut x = UInt::from(std::mem::replace(&mut pool[i], ApInt::from_bool(true)));
                            let s = UInt::from(src.clone());
                            x.assign(&s);
                            drop(s);
                            pool[i] = x.into_apint();
                        }
                    });
                    pool[j] = src;
                    if ok.is_none() {
                        return;
                    }
                    may_change.push(i);
                    if obs::raw(&pool[i]) != snap[j] {
                        cx.fail("assign", format!("v{} reads {:x?}, source {:x?}", i, obs::raw(&pool[i]), snap[j]));
                        return;
                    }
                    cx.count("assignments", 1);
                }
                2 => {
                    // capture a value in an error
                    let i = r.below(pool.len());
                    let z = ApInt::zero(obs::bw(widths[i]));
                    cx.announce("capture in error", || format!("v{}", i));
                    cx.history.push(format!("error capturing v{}", i));
                    let how = r.below(8);
                    let e = cx.guard("failing call", || match how {
                        0 => pool[i].wrapping_udiv_assign(&z).err(),
                        1 => pool[i].wrapping_sdiv_assign(&z).err(),
                        2 => pool[i].wrapping_urem_assign(&z).err(),
                        3 => pool[i].clone().into_wrapping_srem(&z).err(),
                        4 => {
                            let mut z2 = z.clone();
                            ApInt::wrapping_udivrem_assign(&mut pool[i], &mut z2).err()
                        }
                        5 => pool[i].try_to_u8().err(),
                        6 => pool[i].try_to_i64().err(),
                        _ => pool[i].try_to_u128().err(),
                    });
                    let Some(e) = e else { return };
                    if let Some(e) = e {
                        let d = E::of(&e);
                        let e2 = if r.chance(1, 3) { e.clone() } else { e };
                        errs.push((e2, d));
                        cx.count("errors_held", 1);
                    }
                }
                3 if pool.len() > 2 => {
                    let i = r.below(pool.len());
                    cx.announce("drop", || format!("v{}", i));
                    cx.history.push(format!("drop v{} (later ones move down)", i));
                    dropped = Some(i);
                    cx.count("drops", 1);
                }
                _ => {
                    let st = steps.pick(&mut r, &widths, mw);
                    cx.announce(st.row.name, || label(&st, widths[st.i], widths[st.j]));
                    cx.history.push(label(&st, widths[st.i], widths[st.j]));
                    let (res, gone) = run_step(&mut pool, &st);
                    cx.state((st.row.name, st.row.form, gen::wclass(widths[st.i]), gen::wclass(widths[st.j]), res.kind()));
                    if gone {
                        let b = newcomer(&mut r, &widths, mw);
                        pool[st.i] = obs::mk(&b, &mut r);
                        cx.history.push(format!("v{} = {:?}", st.i, b));
                        may_change.push(st.i);
                    } else if st.row.form == Form::OpAssign && res == Res::Panic {
                        // an operator that panicked promises nothing about its left operand
                        may_change.push(st.i);
                    } else if st.row.form != Form::Query && !res.failed() {
                        may_change.push(st.i);
                    }
                    if st.row.form == Form::Pair && !res.failed() && st.i != st.j {
                        may_change.push(st.j);
                    }
                }
            }
            if let Some(i) = dropped {
                pool.remove(i);
                snap.remove(i);
                widths.remove(i);
            }
            for k in 0..pool.len() {
                let now = obs::raw(&pool[k]);
                if may_change.contains(&k) {
                    widths[k] = now.0;
                    snap[k] = now;
                } else if now != snap[k] {
                    let before = snap[k].clone();
                    cx.fail("changed bystander", format!("after the last step v{} reads {} bits {:x?}, but was {} bits {:x?} and must not change", k, now.0, now.1, before.0, before.1));
                    return;
                }
                cx.count("bystander_checks", 1);
            }
            for (e, d) in &errs {
                let now = E::of(e);
                if now != *d {
                    let m = format!("data in a held error changed from {:?} to {:?}", d, now);
                    cx.fail("error data", m);
                    return;
                }
            }
        }
        cx.count("histories", 1);
        if hno % 997 == 3 {
            let s = cx.history.join("; ");
            cx.sample(|| s);
        }
        cx.history.clear();
        if cx.done() {
            return;
        }
    }
}

/// C18: outcome digests of a deterministic workload, per operation.
pub fn digest(cx: &mut Cx) -> String {
    use std::collections::BTreeMap;
    let only = crate::arg("--row");
    let table = table();
    let names: Vec<String> = table.iter().map(|r| format!("{} [{:?}]", r.name, r.form)).collect();
    let mut map: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut put = |name: &str, call: &dyn Fn() -> String, out: &str| {
        let mut d = std::collections::hash_map::DefaultHasher::new();
        let e = map.entry(name.to_string()).or_insert((0, 0));
        e.0.hash(&mut d);
        out.hash(&mut d);
        e.0 = d.finish();
        e.1 += 1;
        if only.as_deref() == Some(name) {
            println!("{} => {}", call(), out);
        }
    };
    let rounds = if cx.thorough { 5000 } else { 400 };
    for (k, row) in table.iter().enumerate() {
        if only.is_some() && only.as_deref() != Some(&names[k]) {
            continue;
        }
        // seeded by the name, so that the set of rows does not matter
        let mut s = cx.seed ^ 0x5151;
        for b in names[k].bytes() {
            s = s.wrapping_mul(0x100_0000_01B3) ^ b as u64;
        }
        let mut r = R::new(s.wrapping_add(cx.shard as u64));
        for i in 0..rounds {
            crate::cx::BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let w = match i % 8 {
                0 | 4 => *r.pick(&[1, 2, 31, 63, 64, 65, 127, 128, 129, 192]),
                3 => gen::width(&mut r),
                _ => gen::width_small(&mut r),
            };
            let (a, mut b) = if row.sem.group() == Group::Div {
                gen::division(&mut r, w)
            } else {
                let a = gen::value(&mut r, w);
                let b = gen::related(&mut r, &a);
                (a, b)
            };
            let inv = r.chance(1, 5);
            if inv && row.sem.arg() == Arg::B {
                let w2 = gen::other_width(&mut r, w);
                b = if r.chance(1, 3) { B::zero(w) } else { gen::value(&mut r, w2) };
            }
            let n = pick_n(&mut r, row, w, inv);
            let mut s = Some(obs::fresh(&a));
            let mut bb = obs::fresh(&b);
            let res = call(row, &mut s, &mut bb, n);
            let out = format!("{:?} {:?} {:?}", res, s.as_ref().map(obs::bits), obs::bits(&bb));
            put(&names[k], &|| crate::cx::describe(row, &a, &b, n), &out);
        }
    }
    // histories over the operations that every configuration has
    let steps = Steps::new(|r| !matches!(r.sem, Sem::Rand | Sem::Json | Sem::Bincode));
    for hno in 0..rounds * 2 {
        if only.as_deref().map_or(false, |x| x != "history") {
            break;
        }
        let seed = (cx.seed << 32) ^ ((cx.shard as u64) << 24) ^ hno as u64;
        let mut r = R::new(seed);
        let mw = span(&mut r);
        let mut widths = vec![];
        let mut pool = vec![];
        let mut log = String::new();
        for _ in 0..3 {
            let b = newcomer(&mut r, &widths, mw);
            widths.push(b.w);
            pool.push(obs::fresh(&b));
            log += &format!("{:?}; ", b);
        }
        let mut out = String::new();
        for _ in 0..25 {
            crate::cx::BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let st = steps.pick(&mut r, &widths, mw);
            log += &label(&st, widths[st.i], widths[st.j]);
            log += "; ";
            let (res, gone) = run_step(&mut pool, &st);
            if gone {
                pool[st.i] = ApInt::one(obs::bw(widths[st.i]));
            }
            let b = obs::bits(&pool[st.i]);
            widths[st.i] = b.w;
            out += &format!("{:?} {:?}; ", res, b);
        }
        for x in &pool {
            out += &format!("{:?} ", obs::bits(x));
        }
        put("history", &|| log.clone(), &out);
    }
    // constructors and text
    let mut r = R::new(cx.seed ^ 0xC18 ^ (cx.shard as u64) << 32);
    for _ in 0..rounds * 8 {
        let radix = r.range(2, 36) as u8;
        let len = r.range(1, 120);
        let mut s: String = (0..len).map(|_| std::char::from_digit(r.below(radix as usize) as u32, 36).unwrap()).collect();
        if r.chance(1, 4) {
            s.insert(r.below(len), *r.pick(&['_', 'Z', ' ', 'é']));
        }
        let out = match catch_unwind(AssertUnwindSafe(|| ApInt::from_str_radix(radix, &s))) {
            Ok(Ok(x)) => format!("{:?}", obs::bits(&x)),
            Ok(Err(e)) => format!("{:?}", E::of(&e)),
            Err(_) => "panic".into(),
        };
        put("from_str_radix", &|| format!("{} {:?}", radix, s), &out);
        let w = gen::width(&mut r);
        let bw = obs::bw(w);
        let v = (r.u64() as u128) << 64 | r.u64() as u128;
        let out = catch_unwind(|| {
            format!(
                "{:?}",
                [
                    obs::bits(&ApInt::all_set(bw)),
                    obs::bits(&ApInt::signed_min_value(bw)),
                    obs::bits(&ApInt::signed_max_value(bw)),
                    obs::bits(&ApInt::one(bw)),
                    obs::bits(&ApInt::from_u128(v)),
                    obs::bits(&ApInt::from_i128(v as i128)),
                    obs::bits(&ApInt::from_i64(v as i64)),
                    obs::bits(&ApInt::from_u8(v as u8)),
                    obs::bits(&ApInt::from([v as u64, (v >> 64) as u64, 7])),
                ]
            )
        })
        .unwrap_or("panic".into());
        put("constructors", &|| format!("width {} value {:x}", w, v), &out);
        let n = r.u64() as usize >> r.below(64);
        let rx = r.u64() as u8;
        let out = format!(
            "{:?} {:?} {:?} {:?}",
            apint::BitWidth::new(n).map(|x| x.to_usize()).map_err(|e| E::of(&e)),
            apint::Radix::new(rx).map(|x| x.to_u8()).map_err(|e| E::of(&e)),
            catch_unwind(|| apint::Radix::from(rx).to_u8()).ok(),
            catch_unwind(|| apint::BitWidth::from(n).to_usize()).ok()
        );
        put("scalars", &|| format!("{} {}", n, rx), &out);
    }
    let body: Vec<String> = map.iter().map(|(k, (h, n))| format!("{}:[\"{:016x}\",{}]", crate::esc(k), h, n)).collect();
    format!("{{{}}}\n", body.join(","))
}
