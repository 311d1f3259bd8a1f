//! C19: integers shared and sent between threads.
use super::*;
use crate::obs::{self, E};
use apint::{ApInt, BitWidth, Error, ErrorKind, Int, Radix, UInt, Width};
use std::sync::mpsc;

#[allow(dead_code)]
fn required<T: Send + Sync>() {}
#[allow(dead_code)]
fn interface() {
    required::<ApInt>();
    required::<Int>();
    required::<UInt>();
    required::<Error>();
    required::<ErrorKind>();
    required::<BitWidth>();
    required::<Radix>();
    required::<apint::BitPos>();
    required::<apint::ShiftAmount>();
}

type Shared = fn(&ApInt, &ApInt) -> String;
fn own(x: &ApInt, f: impl FnOnce(&mut ApInt) -> apint::Result<()>) -> String {
    let mut y = x.clone();
    match f(&mut y) {
        Ok(()) => format!("{:?}", obs::bits(&y)),
        Err(e) => format!("{:?}", E::of(&e)),
    }
}
fn hash<T: std::hash::Hash>(x: &T) -> String {
    use std::hash::Hasher;
    let mut d = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut d);
    format!("{:x}", d.finish())
}
/// Uses of shared integers: read-only, or as right operand of an own value.
fn uses() -> Vec<(&'static str, Shared)> {
    vec![
        ("bits", |x, _| format!("{:?}", obs::bits(x))),
        ("clone", |x, _| {
            let mut c = x.clone();
            let s = format!("{:?}", obs::bits(&c));
            c.flip_all();
            s + &format!("{:?}", obs::bits(&c))
        }),
        ("==", |x, y| format!("{} {}", x == y, x != y)),
        ("hash", |x, _| hash(x)),
        ("debug", |x, _| format!("{:?}", x)),
        ("{:b}", |x, _| format!("{:b}", x)),
        ("{:x}", |x, _| format!("{:x} {:X}", x, x)),
        ("compare", |x, y| format!("{:?}", [x.checked_ult(y).ok(), x.checked_ule(y).ok(), x.checked_slt(y).ok(), x.checked_sge(y).ok()])),
        ("counts", |x, _| format!("{:?}", (x.count_ones(), x.count_zeros(), x.leading_zeros(), x.trailing_zeros(), x.is_zero(), x.is_even(), x.msb(), x.is_all_set()))),
        ("primitive", |x, _| format!("{:?}", (x.resize_to_u64(), x.resize_to_i128(), x.try_to_u32().ok(), x.try_to_i64().ok()))),
        ("try error", |x, _| format!("{:?}", x.try_to_u8().map_err(|e| E::of(&e)))),
        ("width", |x, _| format!("{}", x.width().to_usize())),
        ("+=", |x, y| own(x, |z| z.wrapping_add_assign(y))),
        ("-=", |x, y| own(x, |z| z.wrapping_sub_assign(y))),
        ("*=", |x, y| own(x, |z| z.wrapping_mul_assign(y))),
        ("udiv", |x, y| own(x, |z| z.wrapping_udiv_assign(y))),
        ("urem", |x, y| own(x, |z| z.wrapping_urem_assign(y))),
        ("sdiv", |x, y| own(x, |z| z.wrapping_sdiv_assign(y))),
        ("srem", |x, y| own(x, |z| z.wrapping_srem_assign(y))),
        ("&=", |x, y| own(x, |z| z.bitand_assign(y))),
        ("|=", |x, y| own(x, |z| z.bitor_assign(y))),
        ("^=", |x, y| own(x, |z| z.bitxor_assign(y))),
        ("assign", |x, y| {
            own(x, |z| {
                z.assign(y);
                Ok(())
            })
        }),
        ("strict_assign", |x, y| own(x, |z| z.strict_assign(y))),
        ("shl", |x, _| own(x, |z| z.wrapping_shl_assign(x.width().to_usize() / 3))),
        ("ashr", |x, _| own(x, |z| z.wrapping_ashr_assign(x.width().to_usize() / 2))),
        ("resize", |x, _| {
            own(x, |z| {
                z.sign_resize(x.width().to_usize() + 70);
                Ok(())
            })
        }),
        ("Int ops", |x, y| {
            let (a, b) = (Int::from(x.clone()), Int::from(y.clone()));
            format!("{:?} {:?} {:?}", a.partial_cmp(&b), a.is_negative(), a == b)
        }),
        ("UInt ops", |x, y| {
            let (a, b) = (UInt::from(x.clone()), UInt::from(y.clone()));
            format!("{:?} {:?}", a.partial_cmp(&b), a.is_one())
        }),
        #[cfg(feature = "f_serde")]
        ("json", |x, _| serde_json::to_string(x).unwrap_or_default()),
        ("parse", |x, _| {
            let digits: String = format!("{:x}", x).bytes().map(|b| (b'0' + b % 3) as char).collect();
            [2u8, 3, 7, 8, 10, 16, 32, 36].iter().map(|r| match ApInt::from_str_radix(*r, &digits) {
                Ok(z) => format!("{:x} ", z),
                Err(e) => format!("{:?} ", E::of(&e)),
            }).collect()
        }),
        ("build", |x, y| {
            let w = x.width();
            format!("{:?}", [ApInt::zero(w), ApInt::one(w), ApInt::all_set(w), ApInt::signed_min_value(w), ApInt::signed_max_value(w), ApInt::from(y.resize_to_u64()), ApInt::from(y.resize_to_i128())].iter().map(obs::bits).collect::<Vec<_>>())
        }),
        ("lshr", |x, _| own(x, |z| z.wrapping_lshr_assign(x.width().to_usize() * 2 / 3))),
        ("casts", |x, y| {
            let (w, v) = (x.width(), y.width());
            let mut s = own(x, |z| { z.zero_resize(v); z.sign_resize(w); Ok(()) });
            s += &own(x, |z| z.truncate(v));
            s += &own(x, |z| z.zero_extend(v));
            s + &own(x, |z| z.sign_extend(v))
        }),
        ("divrem", |x, y| {
            let (mut q, mut r) = (x.clone(), y.clone());
            let a = match ApInt::wrapping_udivrem_assign(&mut q, &mut r) { Ok(()) => format!("{:?}", (obs::bits(&q), obs::bits(&r))), Err(e) => format!("{:?}", E::of(&e)) };
            let (mut q, mut r) = (x.clone(), y.clone());
            a + &match ApInt::wrapping_sremdiv_assign(&mut q, &mut r) { Ok(()) => format!("{:?}", (obs::bits(&q), obs::bits(&r))), Err(e) => format!("{:?}", E::of(&e)) }
        }),
        ("bit access", |x, y| {
            let mut z = x.clone();
            let w = z.width().to_usize();
            let p = (y.resize_to_u64() % (w as u64 + 2)) as usize;
            let a = z.set_bit_at(p).map_err(|e| E::of(&e));
            let b = z.flip_bit_at(w - 1).map_err(|e| E::of(&e));
            z.flip_all();
            format!("{:?}", (a, b, z.get_bit_at(p).map_err(|e| E::of(&e)), z.msb(), obs::bits(&z)))
        }),
        ("error text", |x, y| {
            let e = x.clone().into_zero_extend(1usize).and(x.clone().into_wrapping_shl(x.width().to_usize())).and(y.checked_sge(x).map(|_| x.clone()));
            match e { Ok(z) => format!("{:?}", obs::bits(&z)), Err(e) => format!("{} {:?}", e, e) }
        }),
        #[cfg(feature = "f_rand")]
        ("random", |x, y| {
            let mut g = crate::rng::Seq::new(y.resize_to_u64());
            let mut z = ApInt::random_with_width_using(x.width(), &mut g);
            let s = format!("{:?}", obs::bits(&z));
            z.randomize_using(&mut g);
            s + &format!("{:?}", obs::bits(&z))
        }),
        ("neg", |x, _| {
            own(x, |z| {
                z.wrapping_neg();
                z.wrapping_inc();
                Ok(())
            })
        }),
    ]
}

struct Job {
    vals: Vec<ApInt>,
    ints: Vec<Int>,
    uints: Vec<UInt>,
    plan: Vec<(usize, usize, usize)>,
    want: Vec<String>,
}

pub fn threads(cx: &mut Cx) {
    let limit: usize = crate::arg("--limit").map(|x| x.parse().unwrap()).unwrap_or(usize::MAX);
    let small = limit < usize::MAX;
    let rounds = cx.n(6_000, 150_000).min(limit);
    let uses = uses();
    for round in 0..rounds {
        let nv = if small { 3 } else { cx.r.range(2, 8) };
        let base_w = if round % 6 == 5 { gen::width(&mut cx.r) } else { gen::width_small(&mut cx.r) };
        let mut vals = vec![];
        let mut desc = vec![];
        for k in 0..nv {
            let w = if k % 3 == 2 { gen::width_small(&mut cx.r) } else { base_w };
            let w = if small { 1 + w % 200 } else { w };
            let b = gen::value(&mut cx.r, w);
            vals.push(obs::mk(&b, &mut cx.r));
            desc.push(b);
        }
        let np = if small { 6 } else { 40 };
        let mut plan: Vec<(usize, usize, usize)> = (0..np).map(|_| (cx.r.below(uses.len()), cx.r.below(nv), cx.r.below(nv))).collect();
        if round == 0 {
            // everything once
            plan = (0..uses.len()).map(|u| (u, cx.r.below(nv), cx.r.below(nv))).collect();
        }
        cx.announce("round", || format!("{:?} on {:?}", plan.iter().map(|p| (uses[p.0].0, p.1, p.2)).collect::<Vec<_>>(), desc));
        let d = format!("round {} alone", round);
        let Some(want) = cx.guard(&d, || plan.iter().map(|p| uses[p.0].1(&vals[p.1], &vals[p.2])).collect::<Vec<_>>()) else { return };
        for p in &plan {
            cx.state((uses[p.0].0, gen::wclass(desc[p.1].w), gen::wclass(desc[p.2].w)));
        }
        let ints = vals.iter().map(|x| Int::from(x.clone())).collect();
        let uints = vals.iter().map(|x| UInt::from(x.clone())).collect();
        let owner = Box::into_raw(Box::new(Job { vals, ints, uints, plan, want }));
        let job: &'static Job = unsafe { &*owner };
        let nt = if small { 3 } else { *cx.r.pick(&[2usize, 3, 4, 8]) };
        let mut handles = vec![];
        let (tx, rx) = mpsc::channel::<(usize, ApInt, Int, UInt, Error)>();
        for t in 0..nt {
            let seed = cx.r.u64();
            let uses = uses.clone();
            let tx = tx.clone();
            handles.push(std::thread::spawn(move || {
                let mut r = R::new(seed);
                let n = job.plan.len();
                let start = r.below(n);
                let mut bad: Option<String> = None;
                for k in 0..n {
                    let i = if seed % 2 == 0 { (start + k) % n } else { (start + n - k) % n };
                    let (u, a, b) = job.plan[i];
                    if r.chance(1, 5) {
                        std::thread::yield_now();
                    }
                    let got = uses[u].1(&job.vals[a], &job.vals[b]);
                    if got != job.want[i] && bad.is_none() {
                        bad = Some(format!("thread {}: {} of v{} and v{}: {} but alone {}", t, uses[u].0, a, b, got, job.want[i]));
                    }
                    let (x, y) = (&job.ints[a], &job.uints[b]);
                    if x.is_negative() != job.vals[a].msb() || hash(y) != hash(&job.uints[b].clone()) {
                        bad = Some(format!("thread {}: wrapper types disagree", t));
                    }
                }
                // send values of our own away
                let k = r.below(job.vals.len());
                let x = job.vals[k].clone();
                let e = x.clone().into_wrapping_shl(usize::MAX).unwrap_err();
                let _ = tx.send((k, x.clone(), Int::from(x.clone()), UInt::from(x), e));
                (bad, n)
            }));
        }
        drop(tx);
        let mut received = vec![];
        for m in rx {
            received.push(m);
        }
        let mut calls = 0;
        for h in handles {
            match h.join() {
                Ok((None, n)) => calls += n,
                Ok((Some(m), _)) => {
                    let d = format!("{} ({} threads, values {:?})", m, nt, desc);
                    cx.fail("thread result", d);
                }
                Err(_) => {
                    let p = crate::cx::last_panic();
                    cx.fail("thread panic", format!("a thread panicked where the sequential run did not: {} (values {:?})", p, desc));
                }
            }
        }
        cx.events += calls as u64;
        cx.count("concurrent_uses", calls as u64);
        cx.count("threads_started", nt as u64);
        cx.count("values_received_from_other_threads", received.len() as u64);
        for (k, x, i, u, e) in received {
            let bad = obs::differs(&x, &desc[k]).or_else(|| obs::differs(&i.into_apint(), &desc[k])).or_else(|| obs::differs(&u.into_apint(), &desc[k]));
            if let Some(m) = bad {
                cx.fail("sent value", m);
            }
            if E::of(&e) != E::Shift(usize::MAX, desc[k].w) {
                cx.fail("sent error", format!("{:?}", E::of(&e)));
            }
        }
        // shared values as before
        for (k, b) in desc.iter().enumerate() {
            if let Some(m) = obs::differs(&job.vals[k], b) {
                cx.fail("shared value changed", format!("v{}: {}", k, m));
            }
        }
        if round % 199 == 3 {
            cx.sample(|| format!("{} threads, {} uses each of {:?}", nt, np, desc));
        }
        // all threads are joined: reclaim
        unsafe { drop(Box::from_raw(owner)) };
        if cx.done() {
            return;
        }
    }
}
