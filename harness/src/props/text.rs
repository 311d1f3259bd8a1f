//! Text, serialized forms, randomness, and the validated scalar types.
use super::*;
use crate::obs::{self, E};
use apint::{ApInt, BitPos, BitWidth, Error, Int, Radix, ShiftAmount, UInt, Width};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ------------------------------------------------------------------ parsing

fn trim(d: &[u64]) -> &[u64] {
    let n = d.iter().rposition(|&x| x != 0).map_or(0, |i| i + 1);
    &d[..n]
}
fn show(s: &str) -> String {
    if s.len() > 600 {
        format!("{:?}... ({} bytes, hash of whole {:x})", &s.chars().take(200).collect::<String>(), s.len(), s.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64)))
    } else {
        format!("{:?}", s)
    }
}

/// Parses and compares with the grammar and the value it defines.
fn parse(cx: &mut Cx, radix: u8, s: &str) {
    cx.announce("ApInt::from_str_radix", || format!("from_str_radix({}, {})", radix, show(s)));
    let what = format!("from_str_radix({}, {})", radix, show(s));
    let Some(res) = cx.guard(&what, || ApInt::from_str_radix(radix, s)) else { return };
    let val = |c: char| if c.is_ascii() { c.to_digit(36).filter(|&d| d < radix as u32) } else { None };
    let edge = s.is_empty() || s.starts_with('_') || s.ends_with('_');
    let bad: Vec<(usize, usize, char)> =
        s.char_indices().enumerate().filter(|(_, (_, c))| *c != '_' && val(*c).is_none()).map(|(k, (i, c))| (k, i, c)).collect();
    let digits = || -> Vec<u8> { s.chars().filter(|&c| c != '_').map(|c| c.to_digit(36).unwrap() as u8).collect() };
    cx.state((radix, s.len() / 3, edge, bad.len().min(2), s.contains('_'), s.starts_with('0'), res.is_ok()));
    if cx.events % 1999 == 5 {
        let m = format!("{} -> {}", what, if res.is_ok() { "ok" } else { "error" });
        cx.sample(|| m);
    }
    match res {
        Ok(x) => {
            if edge || !bad.is_empty() {
                return cx.fail("parsing", format!("{}: malformed text accepted as {:?}", what, obs::bits(&x)));
            }
            let want = B::from_radix(&digits(), radix as u32);
            let got = obs::seen(&x);
            let wide = B::new(got.w.max(64 * want.len().max(1)), want.clone());
            if trim(&got.d) != trim(&want) || wide.zresize(got.w).d != got.d {
                return cx.fail("parsing", format!("{}: value {:?}, but the text denotes {:x?} (digits, least significant first)", what, got, want));
            }
            if let Some(m) = obs::differs(&x, &got) {
                cx.fail("parsing", format!("{}: {}", what, m));
            }
        }
        Err(e) => {
            if !edge && bad.is_empty() {
                return cx.fail("parsing", format!("{}: valid text rejected: {:?}", what, e));
            }
            cx.count("malformed_texts_rejected", 1);
            match E::of(&e) {
                E::Str { input, radix: r, pos } => {
                    if input != s || r != radix {
                        return cx.fail("parsing", format!("{}: error carries input {} and radix {}", what, show(&input), r));
                    }
                    let ok = match pos {
                        None => edge,
                        Some((p, c)) => {
                            bad.iter().any(|&(k, i, b)| (p == i || p == k) && b == c)
                                || (edge && s[..].starts_with('_') && p == 0 && c == '_')
                                || (edge && s.ends_with('_') && p + 1 == s.len() && c == '_')
                        }
                    };
                    if !ok {
                        cx.fail("parsing", format!("{}: error carries position {:?}, offending characters {:?}", what, pos, &bad[..bad.len().min(4)]));
                    }
                }
                o => cx.fail("parsing", format!("{}: error of another kind: {:?}", what, o)),
            }
        }
    }
}

fn digit_string(r: &mut R, radix: u8, len: usize) -> Vec<u8> {
    let max = radix - 1;
    let mut v: Vec<u8> = match r.below(7) {
        0 => vec![max; len],
        1 => {
            let mut v = vec![0; len];
            v[0] = 1;
            v
        }
        2 => {
            // zero runs
            (0..len).map(|i| if (i / 7) % 2 == 0 { r.below(radix as usize) as u8 } else { 0 }).collect()
        }
        3 => vec![1; len],
        _ => (0..len).map(|_| r.below(radix as usize) as u8).collect(),
    };
    if r.chance(1, 5) && len > 1 {
        let z = r.range(1, len - 1);
        for x in &mut v[..z] {
            *x = 0;
        }
    }
    v
}
fn spell(r: &mut R, v: &[u8], radix: u8) -> String {
    let style = r.below(3);
    let us = r.below(4);
    let mut s = String::new();
    for (i, &d) in v.iter().enumerate() {
        let c = std::char::from_digit(d as u32, radix as u32).unwrap();
        let up = style == 1 || (style == 2 && r.chance(1, 2));
        s.push(if up { c.to_ascii_uppercase() } else { c });
        if i + 1 < v.len() && (us == 1 && r.chance(1, 6) || us == 2 && (v.len() - 1 - i) % 4 == 0) {
            s.push('_');
            if r.chance(1, 4) {
                s.push('_');
            }
        }
    }
    s
}
const BAD: [char; 26] = [
    ' ', '+', '-', '.', ',', '/', ':', '@', '[', '`', '{', '~', '\0', '\n', '\u{7f}', 'é', 'ß', '０', '١', '\u{ff}', '\u{80}', '😀', '\'', '"', 'x', '#',
];
/// A malformed text made from a valid one.
fn spoil(r: &mut R, radix: u8, mut s: String) -> String {
    let insert = |r: &mut R, s: &mut String, c: char| {
        let at: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
        let p = *r.pick(&at);
        s.insert(p, c);
    };
    match r.below(9) {
        0 => s.insert(0, '_'),
        1 => s.push('_'),
        2 if radix < 36 => {
            // just outside of the radix, either case
            let c = std::char::from_digit(radix as u32, 36).unwrap();
            let c = if r.chance(1, 2) { c.to_ascii_uppercase() } else { c };
            insert(r, &mut s, c);
        }
        3 => s.insert(0, *r.pick(&BAD)),
        4 => s.push(*r.pick(&BAD)),
        5 => {
            let c = *r.pick(&BAD);
            insert(r, &mut s, c);
            let c = *r.pick(&BAD);
            insert(r, &mut s, c);
        }
        6 => return r.pick(&["", "_", "__", "_1_", " ", "0x1", "+", "-", "-0", "1 ", "\u{0}", "é"]).to_string(),
        _ => {
            let c = *r.pick(&BAD);
            insert(r, &mut s, c);
        }
    }
    s
}

pub fn text(cx: &mut Cx) {
    // every radix, every length across several chunk boundaries
    let max = if cx.thorough { 420 } else { 140 };
    for radix in 2..=36u8 {
        for len in 1..=max {
            if !cx.mine(radix as usize + len) {
                continue;
            }
            for _ in 0..2 {
                let v = digit_string(&mut cx.r, radix, len);
                let s = spell(&mut cx.r, &v, radix);
                parse(cx, radix, &s);
            }
            if cx.done() {
                return;
            }
        }
        // powers of the radix and of two, and their neighbours
        for k in 0..(if cx.thorough { 600 } else { 200 }) {
            if !cx.mine(k) {
                continue;
            }
            let w = k + 70;
            for b in [B::pow2(w, k), B::pow2(w, k).sub(&B::one(w)), B::pow2(w, k).add(&B::one(w))] {
                let s = b.radix(radix as u32);
                parse(cx, radix, &s);
            }
        }
        for c in 0..=255u32 {
            // every single character
            if let Some(c) = char::from_u32(c) {
                parse(cx, radix, &c.to_string());
                parse(cx, radix, &format!("1{}0", c));
            }
        }
    }
    cx.count("radices_swept", 35);
    findings(cx);
    // printing
    let rows = rows(|r| r.sem.group() == Group::Text && r.sem.specified());
    tiny(cx, &rows, if cx.thorough { 10 } else { 7 });
    let top = if cx.thorough { 1100 } else { 340 };
    for w in 1..=top {
        if !cx.mine(w) {
            continue;
        }
        for b in gen::specials(w) {
            for row in &rows {
                cx.check(row, &b, &b, 0);
            }
        }
        // one non-zero digit, leading digits of every length
        for i in 0..nd(w) {
            let mut d = vec![0u64; nd(w)];
            d[i] = gen::digit(&mut cx.r);
            let b = B::new(w, d);
            for row in &rows {
                cx.check(row, &b, &b, 0);
            }
        }
        if cx.done() {
            return;
        }
    }
    let n = cx.n(60_000, 1_200_000);
    for i in 0..n {
        let radix = cx.r.range(2, 36) as u8;
        let near = if cx.r.below(16) == 0 { gen::lit_size(&mut cx.r, 700) } else { None };
        let len = match cx.r.below(20) {
            _ if near.is_some() => near.unwrap(),
            0 => cx.r.range(1, 3000),
            1..=4 => cx.r.range(1, 600),
            _ => cx.r.range(1, 120),
        };
        let v = digit_string(&mut cx.r, radix, len);
        let s = spell(&mut cx.r, &v, radix);
        parse(cx, radix, &s);
        if i % 3 == 0 {
            let t = spoil(&mut cx.r, radix, s);
            parse(cx, radix, &t);
        }
        let w = gen::width(&mut cx.r);
        let a = gen::value(&mut cx.r, w);
        let row = *cx.r.pick(&rows);
        if a.w <= 2100 || row.sem != Sem::ReparseDec {
            cx.check(&row, &a, &a, 0);
        }
        if cx.done() {
            return;
        }
    }
}

/// Malformed text, radices and widths (for C11).
pub fn bad_inputs(cx: &mut Cx) {
    let n = cx.n(40_000, 800_000);
    for _ in 0..n {
        let radix = cx.r.range(2, 36) as u8;
        let len = cx.r.range(1, 60);
        let v = digit_string(&mut cx.r, radix, len);
        let s = spell(&mut cx.r, &v, radix);
        let t = spoil(&mut cx.r, radix, s);
        parse(cx, radix, &t);
        if let Some(m) = obs::text_fault() {
            cx.fail("error contract", format!("parsing {:?} in radix {}: {}", t, radix, m));
        }
        if cx.done() {
            break;
        }
    }
    for x in 0..=255u8 {
        checked_radix(cx, x);
    }
    checked_width(cx, 0);
    if let Some(m) = obs::text_fault() {
        cx.fail("error contract", format!("checked construction: {}", m));
    }
}

/// Printing that the crate does not implement yet (known findings): a call that
/// ends in `unimplemented!()` is reported as such; any result must be correct.
fn findings(cx: &mut Cx) {
    let (mut oct, mut rad) = (false, false);
    for i in 0..400 {
        let w = if i < 100 { i + 1 } else { gen::width_small(&mut cx.r) };
        let a = gen::value(&mut cx.r, w);
        let x = obs::mk(&a, &mut cx.r);
        let (xi, xu) = (Int::from(x.clone()), UInt::from(x.clone()));
        let calls: [(&'static str, Box<dyn Fn() -> String + '_>, String, bool); 4] = [
            ("ApInt {:o}", Box::new(|| format!("{:o}", x)), a.oct(), true),
            ("Int {:o}", Box::new(|| format!("{:o}", xi)), a.oct(), true),
            ("UInt {:o}", Box::new(|| format!("{:o}", xu)), a.oct(), true),
            {
                let r = cx.r.range(2, 36);
                ("ApInt::to_string_radix", Box::new({ let x = &x; move || x.to_string_radix(r as u8) }), a.radix(r as u32), false)
            },
        ];
        for (name, f, want, is_oct) in calls {
            cx.announce(name, || format!("{} of {:?}", name, a));
            match catch_unwind(AssertUnwindSafe(|| f())) {
                Ok(s) => {
                    if !s.eq_ignore_ascii_case(&want) {
                        cx.fail("printing", format!("{} of {:?}: {:?}, want {:?}", name, a, s, want));
                    }
                }
                Err(_) => {
                    let p = crate::cx::last_panic();
                    if p.contains("not implemented") && !(is_oct && a.is_zero()) {
                        if is_oct {
                            oct = true
                        } else {
                            rad = true
                        }
                    } else {
                        cx.fail("panic", format!("{} of {:?}: panicked: {}", name, a, p));
                    }
                }
            }
        }
    }
    if oct {
        cx.known.push("octal-unimplemented".into());
    }
    if rad {
        cx.known.push("to_string_radix-unimplemented".into());
    }
}

// ------------------------------------------------------------ serialization

#[cfg(not(feature = "f_serde"))]
pub fn serde(_cx: &mut Cx) {}

#[cfg(feature = "f_serde")]
pub fn serde(cx: &mut Cx) {
    use crate::tok::{De, V};
    use ::serde::Deserialize;

    fn whole(b: &B) -> (String, Vec<u8>) {
        let ds: Vec<String> = b.d.iter().map(|x| x.to_string()).collect();
        let mut bytes = vec![];
        bytes.extend((b.w as u64).to_le_bytes());
        bytes.extend((b.d.len() as u64).to_le_bytes());
        for x in &b.d {
            bytes.extend(x.to_le_bytes());
        }
        (format!("{{\"width\":[{}],\"digits\":[{}]}}", b.w, ds.join(",")), bytes)
    }
    fn round(cx: &mut Cx, b: &B) {
        let x = obs::mk(b, &mut cx.r);
        cx.announce("serde round trip", || format!("serialize {:?}", b));
        cx.state(("round", gen::wclass(b.w), gen::class(b)));
        let (js, bs) = whole(b);
        let d = format!("serializing {:?}", b);
        let Some((j, y)) = cx.guard(&d, || (serde_json::to_string(&x), bincode::serialize(&x))) else { return };
        match (&j, &y) {
            (Ok(j), Ok(y)) if *j == js && *y == bs => {}
            _ => return cx.fail("serialized form", format!("{}: {:?} / {:?}, want {} / {:?}", d, j, y, js, bs)),
        }
        let Some(back) = cx.guard(&d, || {
            (
                serde_json::from_str::<ApInt>(&js),
                bincode::deserialize::<ApInt>(&bs),
                serde_json::from_value::<ApInt>(serde_json::from_str(&js).unwrap()),
                serde_json::from_reader::<_, ApInt>(js.as_bytes()),
            )
        }) else {
            return;
        };
        let (a1, a2, a3, a4) = back;
        for (n, r) in [("json", a1.map_err(|e| e.to_string())), ("bincode", a2.map_err(|e| e.to_string())), ("json value", a3.map_err(|e| e.to_string())), ("json reader", a4.map_err(|e| e.to_string()))] {
            match r {
                Ok(z) => {
                    if let Some(m) = obs::differs(&z, b) {
                        cx.fail("round trip", format!("{} via {}: {}", d, n, m));
                    } else if z != x || x != z || bincode::serialize(&z).ok() != Some(bs.clone()) {
                        cx.fail("round trip", format!("{} via {}: the result is not equal to the original", d, n));
                    }
                }
                Err(e) => cx.fail("round trip", format!("{} via {}: own output rejected: {}", d, n, e)),
            }
        }
        if cx.events % 997 == 5 {
            cx.sample(|| format!("{} <-> {}", d, js));
        }
    }
    fn rounds_width(cx: &mut Cx, w: usize) {
        cx.announce("serde BitWidth", || format!("BitWidth {}", w));
        let b = BitWidth::new(w).unwrap();
        let d = format!("BitWidth {}", w);
        let ok = cx.guard(&d, || {
            let j = serde_json::to_string(&b).ok()?;
            let y = bincode::serialize(&b).ok()?;
            let same = j == format!("[{}]", w) && y == (w as u64).to_le_bytes();
            let back: BitWidth = serde_json::from_str(&j).ok()?;
            let back2: BitWidth = bincode::deserialize(&y).ok()?;
            Some(same && back == b && back2 == b)
        });
        if ok == Some(None) || ok == Some(Some(false)) {
            cx.fail("round trip", format!("{}: does not round-trip or has another form", d));
        }
    }
    /// A result of decoding hostile data must be a well-formed integer.
    fn well_formed(cx: &mut Cx, what: &str, x: &ApInt) {
        let b = obs::bits(x);
        if let Some(m) = obs::differs(x, &b) {
            cx.fail("ill-formed value", format!("{}: {}", what, m));
        } else if *x != obs::fresh(&b) {
            cx.fail("ill-formed value", format!("{}: not equal to a fresh {:?}", what, b));
        }
    }
    enum Want {
        Val(B),
        Masked(B),
        Reject,
        Any,
    }
    fn decide(cx: &mut Cx, what: &str, want: Want, res: Result<ApInt, String>) {
        cx.state((what.len() / 4, matches!(want, Want::Reject), res.is_ok()));
        if res.is_err() {
            cx.count("malformed_inputs_rejected", 1);
        }
        match (want, res) {
            (Want::Reject, Ok(x)) => cx.fail("decoding", format!("{}: malformed data accepted as {:?}", what, obs::bits(&x))),
            (Want::Val(b), Err(e)) => cx.fail("decoding", format!("{}: valid encoding of {:?} rejected: {}", what, b, e)),
            (Want::Val(b), Ok(x)) | (Want::Masked(b), Ok(x)) => {
                if let Some(m) = obs::differs(&x, &b) {
                    cx.fail("decoding", format!("{}: {}", what, m));
                } else {
                    well_formed(cx, what, &x)
                }
            }
            (_, Ok(x)) => well_formed(cx, what, &x),
            (_, Err(_)) => {}
        }
    }
    fn feed(cx: &mut Cx, v: &V, human: bool, want: Want) {
        let what = format!("decoding ({}) {:?}", if human { "human-readable" } else { "compact" }, v);
        let w2 = what.clone();
        cx.announce("decode tokens", || w2);
        if let Some(r) = cx.guard(&what, || ApInt::deserialize(De { v, human }).map_err(|e| e.0)) {
            decide(cx, &what, want, r);
        }
    }
    // all widths
    let top = if cx.thorough { 1300 } else { 400 };
    for w in 1..=top {
        if !cx.mine(w) {
            continue;
        }
        rounds_width(cx, w);
        for b in gen::specials(w) {
            round(cx, &b);
        }
        for _ in 0..4 {
            let b = gen::value(&mut cx.r, w);
            round(cx, &b);
        }
        if cx.done() {
            return;
        }
    }
    for w in [usize::MAX, usize::MAX - 1, 1 << 63, 1 << 32, (1 << 32) - 1, 1 << 31] {
        rounds_width(cx, w);
    }
    cx.count("all_widths_up_to", top as u64);
    let n = cx.n(120_000, 2_500_000);
    for i in 0..n {
        if i % 4 == 0 {
            let w = gen::width(&mut cx.r);
            let b = gen::value(&mut cx.r, w);
            round(cx, &b);
        }
        // structured malformed data
        let w = if cx.r.chance(1, 6) { gen::width(&mut cx.r) } else { gen::width_small(&mut cx.r) };
        let b = gen::value(&mut cx.r, w);
        let mut digits: Vec<V> = b.d.iter().map(|&x| V::U(x)).collect();
        let human = cx.r.chance(1, 2);
        let mut wv = if human { V::Seq(vec![V::U(w as u64)]) } else { V::U(w as u64) };
        let key = |k: &str| V::Str(k.into());
        let pack = |wv: V, dv: V| if human { V::Map(vec![(V::Str("width".into()), wv), (V::Str("digits".into()), dv)]) } else { V::Seq(vec![wv, dv]) };
        let junk = |r: &mut R| match r.below(9) {
            0 => V::I(-(r.below(100) as i64)),
            1 => V::F(1.5),
            2 => V::Bool(true),
            3 => V::Str("64".into()),
            4 => V::Unit,
            5 => V::Seq(vec![]),
            6 => V::Map(vec![]),
            7 => V::Fail,
            _ => V::Seq(vec![V::Seq(vec![V::U(1)])]),
        };
        let (v, want) = match cx.r.below(18) {
            0 => (pack(wv, V::Seq(digits)), Want::Val(b.clone())),
            1 => {
                // fields in the other order
                if human {
                    (V::Map(vec![(key("digits"), V::Seq(digits)), (key("width"), wv)]), Want::Val(b.clone()))
                } else {
                    (V::Seq(vec![V::Seq(digits), wv]), Want::Any)
                }
            }
            2 => {
                // surplus bits
                let last = digits.len() - 1;
                digits[last] = V::U(gen::digit(&mut cx.r));
                let mut d = b.d.clone();
                if let V::U(x) = digits[last] {
                    d[last] = x;
                }
                (pack(wv, V::Seq(digits)), Want::Masked(B::new(w, d)))
            }
            3 => {
                let z = V::U(0);
                (pack(if human { V::Seq(vec![z]) } else { z }, V::Seq(digits)), Want::Reject)
            }
            4 => {
                let k = cx.r.below(digits.len() + 1);
                digits.truncate(k);
                let want = if k == nd(w) { Want::Val(b.clone()) } else { Want::Reject };
                (pack(wv, V::Seq(digits)), want)
            }
            5 => {
                for _ in 0..cx.r.range(1, 3) {
                    digits.push(V::U(gen::digit(&mut cx.r)));
                }
                (pack(wv, V::Seq(digits)), Want::Reject)
            }
            6 => {
                // width that needs another number of digits
                let w2 = match cx.r.below(6) {
                    0 => usize::MAX,
                    1 => 1 << 63,
                    2 => usize::MAX - 63,
                    3 => w + 64,
                    4 => 64 * nd(w) + 1,
                    _ => gen::width(&mut cx.r),
                };
                let u = V::U(w2 as u64);
                wv = if human { V::Seq(vec![u]) } else { u };
                let want = if nd(w2) == nd(w) { Want::Masked(B::new(w2, b.d.clone())) } else { Want::Reject };
                (pack(wv, V::Seq(digits)), want)
            }
            7 => {
                let j = junk(&mut cx.r);
                (pack(j, V::Seq(digits)), Want::Any)
            }
            8 => {
                let j = junk(&mut cx.r);
                (pack(wv, j), Want::Any)
            }
            9 => {
                let k = cx.r.below(digits.len());
                digits[k] = junk(&mut cx.r);
                (pack(wv, V::Seq(digits)), Want::Any)
            }
            10 => {
                // missing parts
                if human {
                    (
                        match cx.r.below(3) {
                            0 => V::Map(vec![(key("width"), wv)]),
                            1 => V::Map(vec![(key("digits"), V::Seq(digits))]),
                            _ => V::Map(vec![]),
                        },
                        Want::Reject,
                    )
                } else {
                    (if cx.r.chance(1, 2) { V::Seq(vec![wv]) } else { V::Seq(vec![]) }, Want::Reject)
                }
            }
            11 => {
                if human {
                    // duplicate
                    let mut m = vec![(key("width"), wv.clone()), (key("digits"), V::Seq(digits.clone()))];
                    let extra = if cx.r.chance(1, 2) { (key("width"), wv) } else { (key("digits"), V::Seq(digits)) };
                    let at = cx.r.below(3);
                    m.insert(at, extra);
                    (V::Map(m), Want::Reject)
                } else {
                    (V::Seq(vec![wv, V::Seq(digits), V::U(1)]), Want::Any)
                }
            }
            12 => {
                if human {
                    let mut m = vec![(key("width"), wv), (key("digits"), V::Seq(digits))];
                    let k = *cx.r.pick(&["", "Width", "widths", "digit", "x", "value", "len"]);
                    let at = cx.r.below(3);
                    let j = junk(&mut cx.r);
                    m.insert(at, (key(k), j));
                    (V::Map(m), Want::Reject)
                } else {
                    (junk(&mut cx.r), Want::Any)
                }
            }
            13 => (pack(wv, V::Lie(*cx.r.pick(&[0usize, 1, 1000, 1 << 40, usize::MAX]), digits)), Want::Val(b.clone())),
            14 => (junk(&mut cx.r), Want::Any),
            15 => {
                // the other format's shape
                let wv = if human { V::U(w as u64) } else { V::Seq(vec![V::U(w as u64)]) };
                (pack(wv, V::Seq(digits)), Want::Any)
            }
            16 => (V::Seq(vec![wv, V::Seq(digits)]), if human { Want::Any } else { Want::Val(b.clone()) }),
            _ => (pack(V::Seq(vec![V::U(w as u64), V::U(3)]), V::Seq(digits)), Want::Any),
        };
        feed(cx, &v, human, want);
        // bytes: truncated or altered anywhere
        let (js, bs) = whole(&b);
        let mut y = bs.clone();
        let k = cx.r.below(y.len());
        let cut = cx.r.chance(1, 2);
        if cut {
            y.truncate(k);
        } else {
            for _ in 0..cx.r.range(1, 3) {
                let k = cx.r.below(y.len());
                y[k] = cx.r.u64() as u8;
            }
        }
        let what = format!("bincode bytes {:?}", y);
        let w2 = what.clone();
        cx.announce("decode bytes", || w2);
        if let Some(r) = cx.guard(&what, || bincode::deserialize::<ApInt>(&y).map_err(|e| e.to_string())) {
            decide(cx, &what, if cut { Want::Reject } else { Want::Any }, r);
        }
        let mut t: Vec<u8> = js.into_bytes();
        for _ in 0..cx.r.range(1, 3) {
            let k = cx.r.below(t.len());
            match cx.r.below(4) {
                0 => {
                    t.remove(k);
                }
                1 => t[k] = *cx.r.pick(b"0123456789[]{},:\"-.e widthdgs\x00\xff"),
                2 => t.truncate(k.max(1)),
                _ => t.insert(k, *cx.r.pick(b"0123456789[]{},:\"-")),
            }
            if t.is_empty() {
                t.push(b'{');
            }
        }
        let what = format!("json {:?}", String::from_utf8_lossy(&t));
        let w2 = what.clone();
        cx.announce("decode json", || w2);
        if let Some(r) = cx.guard(&what, || serde_json::from_slice::<ApInt>(&t).map_err(|e| e.to_string())) {
            decide(cx, &what, Want::Any, r);
        }
        // bit widths
        let v = if cx.r.chance(1, 2) { V::U(gen::digit(&mut cx.r)) } else { junk(&mut cx.r) };
        let vv = match cx.r.below(3) {
            0 => V::Seq(vec![v.clone()]),
            1 => V::Seq(vec![v.clone(), V::U(2)]),
            _ => v.clone(),
        };
        let d = format!("decoding a bit width ({}) from {:?}", human, vv);
        let d2 = d.clone();
        cx.announce("decode BitWidth", || d2);
        if let Some(r) = cx.guard(&d, || BitWidth::deserialize(De { v: &vv, human }).map_err(|e| e.0)) {
            let given = match (&vv, human) {
                (V::Seq(s), true) if s.len() == 1 => Some(&s[0]),
                (V::U(_), false) => Some(&vv),
                _ => None,
            };
            match (given, &r) {
                (Some(V::U(0)), Ok(_)) => cx.fail("decoding", format!("{}: zero accepted", d)),
                (Some(V::U(n)), x) if *n > 0 && x.as_ref().ok().map(|b| b.to_usize() as u64) != Some(*n) => {
                    cx.fail("decoding", format!("{}: {:?}", d, x))
                }
                (_, Ok(b)) if b.to_usize() == 0 => cx.fail("decoding", format!("{}: zero width", d)),
                _ => {}
            }
        }
        if cx.done() {
            return;
        }
    }
}

// --------------------------------------------------------------- randomness

#[cfg(not(feature = "f_rand"))]
pub fn random(_cx: &mut Cx) {}

#[cfg(feature = "f_rand")]
pub fn random(cx: &mut Cx) {
    use crate::rng::{Const, Seq};
    // draw number i from a generator through each interface
    fn draw(ty: usize, w: usize, g: &mut impl rand::RngCore, inplace: Option<ApInt>) -> ApInt {
        let b = BitWidth::new(w).unwrap();
        match (ty, inplace) {
            (0, None) => ApInt::random_with_width_using(b, g),
            (1, None) => Int::random_with_width_using(b, g).into_apint(),
            (_, None) => UInt::random_with_width_using(b, g).into_apint(),
            (0, Some(mut x)) => {
                x.randomize_using(g);
                x
            }
            (1, Some(x)) => {
                let mut x = Int::from(x);
                x.randomize_using(g);
                x.into_apint()
            }
            (_, Some(x)) => {
                let mut x = UInt::from(x);
                x.randomize_using(g);
                x.into_apint()
            }
        }
    }
    fn one(cx: &mut Cx, w: usize, seed: u64) {
        let ty = cx.r.below(3);
        let old = gen::value(&mut cx.r, w);
        cx.announce("random", || format!("width {} seed {} type {}", w, seed, ty));
        let prior = obs::mk(&old, &mut cx.r);
        let d = format!("random integer of width {} (generator seed {}, type {}, previous value {:?})", w, seed, ty, old);
        let got = cx.guard(&d, || {
            let (mut g1, mut g2, mut g3) = (Seq::new(seed), Seq::new(seed), Seq::new(seed));
            let skip = (seed % 3) as usize;
            let mut out = vec![];
            for g in [&mut g1, &mut g2, &mut g3] {
                for _ in 0..skip {
                    rand::RngCore::next_u64(g);
                }
            }
            out.push(draw(ty, w, &mut g1, None));
            out.push(draw(ty, w, &mut g2, Some(prior)));
            out.push(draw(0, w, &mut g3, None));
            (out, [g1.draws, g2.draws, g3.draws])
        });
        let Some((xs, n)) = got else { return };
        cx.state((gen::wclass(w), gen::class(&obs::seen(&xs[0])), ty));
        for x in &xs {
            if x.width().to_usize() != w {
                return cx.fail("random", format!("{}: width {}", d, x.width().to_usize()));
            }
            let b = obs::bits(x);
            if let Some(m) = obs::differs(x, &b) {
                return cx.fail("random", format!("{}: {}", d, m));
            }
        }
        let b: Vec<B> = xs.iter().map(obs::bits).collect();
        if b[0] != b[1] || b[0] != b[2] {
            return cx.fail("random", format!("{}: construction {:?}, in place {:?}, untyped {:?}", d, b[0], b[1], b[2]));
        }
        if n[0] != n[1] || n[0] != n[2] {
            return cx.fail("random", format!("{}: construction, in-place and untyped consume {:?} draws", d, n));
        }
        if cx.events % 499 == 5 {
            cx.sample(|| format!("{} -> {:?}", d, b[0]));
        }
    }
    /// Every bit takes both values and no bit is a fixed function (constant or
    /// sum) of others: full rank of the observed bit vectors over GF(2).
    fn rank(cx: &mut Cx, w: usize, ty: usize, inplace: bool) {
        let mut g = Seq::new(cx.r.u64());
        let mut basis: Vec<Option<Vec<u64>>> = vec![None; w + 1];
        let mut r = 0;
        let draws = w + 1 + 64;
        for _ in 0..draws {
            let prior = if inplace { Some(obs::fresh(&B::zero(w))) } else { None };
            let x = match catch_unwind(AssertUnwindSafe(|| draw(ty, w, &mut g, prior))) {
                Ok(x) => x,
                Err(_) => return cx.fail("random", format!("width {}: panicked: {}", w, crate::cx::last_panic())),
            };
            cx.announce("random (independence)", || format!("width {}", w));
            // append the constant 1
            let mut v = obs::seen(&x).zresize(w + 1).with(w, true).d;
            loop {
                let top = match v.iter().rposition(|&x| x != 0) {
                    None => break,
                    Some(i) => 64 * i + 63 - v[i].leading_zeros() as usize,
                };
                match &basis[top] {
                    Some(b) => {
                        for (x, y) in v.iter_mut().zip(b) {
                            *x ^= y
                        }
                    }
                    None => {
                        basis[top] = Some(v);
                        r += 1;
                        break;
                    }
                }
            }
        }
        cx.count("independence_tests", 1);
        cx.state(("rank", w, ty, inplace));
        if r != w + 1 {
            cx.fail(
                "random",
                format!("width {} (type {}, in place {}): {} draws span only {} of {} dimensions: some bit is constant or determined by others", w, ty, inplace, draws, r, w + 1),
            );
        }
    }
    fn constant(cx: &mut Cx, w: usize) {
        for ones in [false, true] {
            let v = if ones { !0 } else { 0 };
            let want = if ones { B::max(w) } else { B::zero(w) };
            for ty in 0..3 {
                let old = gen::value(&mut cx.r, w);
                let prior = obs::mk(&old, &mut cx.r);
                cx.announce("random (constant generator)", || format!("width {} generator {:x}", w, v));
                let d = format!("width {} with a generator yielding only {}s", w, ones as u8);
                let got = cx.guard(&d, || {
                    let mut g = Const { v, draws: 0, panic_after: None };
                    [draw(ty, w, &mut g, None), draw(ty, w, &mut g, Some(prior))]
                });
                for x in got.iter().flatten() {
                    if let Some(m) = obs::differs(x, &want) {
                        cx.fail("random", format!("{}: {}", d, m));
                    }
                }
            }
        }
    }
    /// Each bit is set in about half of many draws (a deviation of 8 sigma is
    /// a report), and the digits of one draw differ from each other.
    fn balance(cx: &mut Cx, w: usize, ty: usize, inplace: bool) {
        let mut g = Seq::new(cx.r.u64());
        let n = 1024usize;
        let mut ones = vec![0usize; w];
        let mut prior = inplace.then(|| obs::fresh(&B::max(w)));
        for _ in 0..n {
            cx.announce("random (balance)", || format!("width {}", w));
            let x = match catch_unwind(AssertUnwindSafe(|| draw(ty, w, &mut g, prior.take()))) {
                Ok(x) => x,
                Err(_) => return cx.fail("random", format!("width {}: panicked: {}", w, crate::cx::last_panic())),
            };
            let b = obs::seen(&x);
            for i in 0..w {
                ones[i] += b.bit(i) as usize;
            }
            let full = w / 64;
            if full > 1 {
                let mut d = b.d[..full].to_vec();
                d.sort_unstable();
                if d.windows(2).any(|p| p[0] == p[1]) {
                    return cx.fail("random", format!("width {} (type {}): two digits of one draw are equal: {:?}", w, ty, b));
                }
            }
            if inplace {
                prior = Some(x);
            }
        }
        cx.count("balance_tests", 1);
        cx.state(("balance", w, ty, inplace));
        if let Some(i) = (0..w).find(|&i| ones[i].abs_diff(n / 2) > 128) {
            cx.fail("random", format!("width {} (type {}, in place {}): bit {} is set in {} of {} draws", w, ty, inplace, i, ones[i], n));
        }
    }
    for (k, w) in [1usize, 7, 8, 33, 63, 64, 65, 100, 127, 128, 129, 192, 255, 320, 513, 700, 1025, 1100, 2047, 2049, 3000, 4160, 6400, 10241].into_iter().enumerate() {
        if !cx.mine(k) {
            continue;
        }
        for t in 0..6 {
            if w < 1000 || t == k % 6 || cx.thorough {
                balance(cx, w, t % 3, t / 3 == 1);
            }
        }
        if w > 520 {
            constant(cx, w);
        }
        if (1000..3000).contains(&w) || cx.thorough && w > 520 && w < 5000 {
            rank(cx, w, k % 3, k % 2 == 1);
        }
        if cx.done() {
            return;
        }
    }
    let top = if cx.thorough { 1400 } else { 520 };
    for w in 1..=top {
        if !cx.mine(w) {
            continue;
        }
        constant(cx, w);
        for _ in 0..6 {
            let s = cx.r.u64() >> 8;
            one(cx, w, s);
        }
        if cx.done() {
            return;
        }
    }
    cx.count("all_widths_up_to", top as u64);
    for w in (1..=130).chain([191, 192, 193, 255, 256, 257, 320, 500, 512, 513]) {
        if !cx.mine(w) {
            continue;
        }
        for k in 0..6 {
            if w < 20 || cx.thorough || cx.r.chance(1, 2) {
                rank(cx, w, k % 3, k / 3 == 1);
            }
        }
        if cx.done() {
            return;
        }
    }
    // entropy-seeded: width and form; each bit varies over a few draws
    for w in [1usize, 2, 8, 31, 63, 64, 65, 100, 128, 129, 200, 257, 1000] {
        let mut any = B::zero(w);
        let mut all = B::max(w);
        for k in 0..72 {
            let b = BitWidth::new(w).unwrap();
            cx.announce("random (entropy)", || format!("width {}", w));
            let d = format!("random_with_width({})", w);
            let x = cx.guard(&d, || match k % 6 {
                0 => ApInt::random_with_width(b),
                1 => Int::random_with_width(b).into_apint(),
                2 => UInt::random_with_width(b).into_apint(),
                3 => {
                    let mut x = ApInt::all_set(b);
                    x.randomize();
                    x
                }
                4 => {
                    let mut x = Int::zero(b);
                    x.randomize();
                    x.into_apint()
                }
                _ => {
                    let mut x = UInt::zero(b);
                    x.randomize();
                    x.into_apint()
                }
            });
            let Some(x) = x else { return };
            let v = obs::bits(&x);
            if v.w != w || obs::differs(&x, &v).is_some() {
                return cx.fail("random", format!("{}: {:?}", d, x));
            }
            any = any.zip(&v, |x, y| x | y);
            all = all.zip(&v, |x, y| x & y);
        }
        // chance of a false report per bit: 2^-71
        if any != B::max(w) || !all.is_zero() {
            cx.fail("random", format!("random_with_width({}): a bit had the same value in 72 draws (ever set {:?}, always set {:?})", w, any, all));
        }
    }
    let n = cx.n(200_000, 4_000_000);
    for i in 0..n {
        let w = gen::width(&mut cx.r);
        let s = cx.r.u64() >> 8;
        one(cx, w, s);
        if i % 16 == 0 {
            constant(cx, w);
        }
        if cx.done() {
            return;
        }
    }
}

// ------------------------------------------------------------ scalar types

fn checked_width(cx: &mut Cx, n: usize) {
    cx.announce("BitWidth", || format!("BitWidth {}", n));
    let ok = match (BitWidth::new(n), n) {
        (Err(e), 0) => E::of(&e) == E::BadWidth(0),
        (Ok(b), n) => n > 0 && b.to_usize() == n,
        _ => false,
    };
    let conv = catch_unwind(|| BitWidth::from(n).to_usize()).ok();
    if !ok || conv != (if n == 0 { None } else { Some(n) }) {
        cx.fail("bit width", format!("BitWidth::new({}) = {:?}, from = {:?}", n, BitWidth::new(n), conv));
    }
}
fn checked_radix(cx: &mut Cx, n: u8) {
    cx.announce("Radix", || format!("Radix {}", n));
    let valid = (2..=36).contains(&n);
    let r: Result<Radix, Error> = Radix::new(n);
    let ok = match &r {
        Ok(r) => valid && r.to_u8() == n,
        Err(e) => !valid && E::of(e) == E::Radix(n),
    };
    let conv = catch_unwind(|| Radix::from(n).to_u8()).ok();
    if !ok || conv != (if valid { Some(n) } else { None }) {
        cx.fail("radix", format!("Radix::new({}) = {:?}, from = {:?}", n, r, conv));
    }
    // as an argument
    let arg = catch_unwind(|| ApInt::from_str_radix(n, "10")).ok();
    let ok = match &arg {
        None => !valid,
        Some(Ok(x)) => valid && trim(&obs::seen(x).d) == [n as u64],
        Some(Err(e)) => !valid && E::of(e) == E::Radix(n),
    };
    if !ok {
        cx.fail("radix", format!("from_str_radix({}, \"10\") = {:?}", n, arg));
    }
}

pub fn scalars(cx: &mut Cx) {
    for x in 0..=255u8 {
        checked_radix(cx, x);
        for y in 0..=255u8 {
            if (2..=36).contains(&x) && (2..=36).contains(&y) {
                let (a, b) = (Radix::from(x), Radix::from(y));
                if (a == b) != (x == y) || (a != b) != (x != y) || (x == y && hash(&a) != hash(&b)) {
                    cx.fail("radix", format!("equality or hash of radices {} and {}", x, y));
                }
                cx.announce("Radix ==", || format!("{} {}", x, y));
                cx.state(("radix", x, y));
            }
        }
    }
    let mut nums: Vec<usize> = (0..=(if cx.thorough { 20_000 } else { 5000 })).collect();
    for k in 0..64 {
        for d in [0usize, 1, 2, 63, 64] {
            nums.push((1usize << k).wrapping_sub(d));
            nums.push((1usize << k).wrapping_add(d));
            nums.push((1usize << k).wrapping_neg().wrapping_add(d));
        }
    }
    nums.push(usize::MAX);
    for _ in 0..2000 {
        if let Some(c) = gen::lit(&mut cx.r) {
            nums.push((c as usize).wrapping_add(cx.r.below(3)).wrapping_sub(1));
            nums.push((c as usize).wrapping_mul(64).wrapping_add(cx.r.below(65)));
        }
    }
    let m = cx.n(200_000, 3_000_000);
    for _ in 0..m {
        nums.push(cx.r.u64() as usize >> cx.r.below(64));
    }
    for (i, &n) in nums.iter().enumerate() {
        checked_width(cx, n);
        cx.announce("BitPos, ShiftAmount", || format!("{}", n));
        cx.state(("num", n));
        let r = cx.guard(&format!("BitPos / ShiftAmount {}", n), || {
            let p = BitPos::new(n).map(|p| p.to_usize());
            (p, BitPos::from(n).to_usize(), ShiftAmount::from(n).to_usize())
        });
        if let Some((p, q, s)) = r {
            if p.as_ref().ok() != Some(&n) || q != n || s != n {
                cx.fail("position", format!("BitPos::new({}) = {:?}, from = {}, ShiftAmount = {}", n, p, q, s));
            }
        }
        // order, equality and hash like the numbers
        let o = match i % 4 {
            0 => nums[cx.r.below(nums.len())],
            1 => n.wrapping_add(1),
            2 => n,
            _ => n ^ (1 << cx.r.below(64)),
        };
        let (p, q, s, t) = (BitPos::from(n), BitPos::from(o), ShiftAmount::from(n), ShiftAmount::from(o));
        let mut ok = p.cmp(&q) == n.cmp(&o) && p.partial_cmp(&q) == Some(n.cmp(&o)) && (p == q) == (n == o);
        ok &= s.cmp(&t) == n.cmp(&o) && s.partial_cmp(&t) == Some(n.cmp(&o)) && (s == t) == (n == o);
        ok &= (p < q) == (n < o) && (p >= q) == (n >= o) && (s < t) == (n < o) && (s >= t) == (n >= o);
        ok &= (p <= q) == (n <= o) && (p > q) == (n > o) && (s <= t) == (n <= o) && (s > t) == (n > o);
        ok &= n != o || (hash(&p) == hash(&q) && hash(&s) == hash(&t));
        if n != 0 && o != 0 {
            let (a, b) = (BitWidth::new(n), BitWidth::new(o));
            if let (Ok(a), Ok(b)) = (a, b) {
                ok &= a.cmp(&b) == n.cmp(&o) && a.partial_cmp(&b) == Some(n.cmp(&o)) && (a == b) == (n == o);
                ok &= (a < b) == (n < o) && (a >= b) == (n >= o) && (a <= b) == (n <= o) && (a > b) == (n > o);
                ok &= n != o || hash(&a) == hash(&b);
            }
        }
        if !ok {
            cx.fail("scalar order", format!("comparison, equality or hash of {} and {} as widths, positions or shift amounts", n, o));
        }
        if i % 4999 == 7 {
            cx.sample(|| format!("width/position/shift amount {} against {}", n, o));
        }
        if cx.done() {
            return;
        }
    }
    for (b, n) in [(BitWidth::w1(), 1), (BitWidth::w8(), 8), (BitWidth::w16(), 16), (BitWidth::w32(), 32), (BitWidth::w64(), 64), (BitWidth::w128(), 128)] {
        cx.announce("BitWidth::wN", || format!("w{}", n));
        if b.to_usize() != n || b != BitWidth::new(n).unwrap() {
            cx.fail("bit width", format!("BitWidth::w{}() = {:?}", n, b));
        }
    }
    // as arguments: accepted exactly when smaller than the width
    let n = cx.n(60_000, 1_000_000);
    for _ in 0..n {
        let w = if cx.r.chance(1, 6) { gen::width(&mut cx.r) } else { gen::width_small(&mut cx.r) };
        let k = match cx.r.below(4) {
            0 => w,
            1 => w - 1,
            2 => cx.r.u64() as usize >> cx.r.below(64),
            _ => cx.r.below(w + 70),
        };
        cx.announce("scalars as arguments", || format!("width {} argument {}", w, k));
        let b = gen::value(&mut cx.r, w);
        let x = obs::mk(&b, &mut cx.r);
        let mut y = x.clone();
        let d = format!("argument {} at width {}", k, w);
        let r = cx.guard(&d, || {
            (
                x.get_bit_at(k).is_ok(),
                x.get_bit_at(BitPos::from(k)).is_ok(),
                y.wrapping_shl_assign(ShiftAmount::from(k)).is_ok(),
                y.wrapping_lshr_assign(k).is_ok(),
                if k == 0 || k > w + 1000 { k <= w } else { y.truncate(BitWidth::new(k).unwrap()).is_ok() },
            )
        });
        if let Some((a, b, c, d2, e)) = r {
            let v = k < w;
            if [a, b, c, d2] != [v; 4] || e != (k <= w) {
                cx.fail("scalar argument", format!("{}: bit read {} {}, shifts {} {}, truncation {}", d, a, b, c, d2, e));
            }
        }
        if cx.done() {
            return;
        }
    }
}

fn hash<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
