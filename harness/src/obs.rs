//! Observation of integers through the public interface only.
use crate::gen::{self, R};
use crate::model::{nd, B};
use apint::{ApInt, BitWidth, Error, ErrorKind, Width};
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub static ROUTE_FALLBACK: AtomicU64 = AtomicU64::new(0);
pub static CHANNEL_DISAGREE: AtomicU64 = AtomicU64::new(0);

pub fn bw(w: usize) -> BitWidth {
    BitWidth::new(w).unwrap()
}

/// Width and raw digits (surplus bits, if any, included).
#[cfg(feature = "f_serde")]
pub fn raw(x: &ApInt) -> (usize, Vec<u64>) {
    let bytes = bincode::serialize(x).unwrap_or_default();
    let w = x.width().to_usize();
    let u = |i: usize| u64::from_le_bytes(bytes[8 * i..8 * i + 8].try_into().unwrap());
    if bytes.len() >= 24 && bytes.len() % 8 == 0 && u(0) as usize == w && u(1) as usize * 8 + 16 == bytes.len() {
        (w, (2..bytes.len() / 8).map(u).collect())
    } else {
        (w, bits(x).d)
    }
}
#[cfg(not(feature = "f_serde"))]
pub fn raw(x: &ApInt) -> (usize, Vec<u64>) {
    let b = bits(x);
    (b.w, b.d)
}

/// Width and bits by single-bit reads.
pub fn bits(x: &ApInt) -> B {
    let w = x.width().to_usize();
    let mut b = B::zero(w);
    for i in 0..w {
        if x.get_bit_at(i).unwrap() {
            b.set(i, true)
        }
    }
    b
}
/// The value as seen (surplus bits dropped).
pub fn seen(x: &ApInt) -> B {
    let (w, d) = raw(x);
    if d.len() == nd(w) {
        B::new(w, d)
    } else {
        bits(x)
    }
}

/// Most elementary construction: zero, then set single bits.
pub fn fresh(b: &B) -> ApInt {
    let mut x = ApInt::zero(bw(b.w));
    for i in 0..b.w {
        if b.bit(i) {
            x.set_bit_at(i).unwrap()
        }
    }
    x
}

pub const ROUTES: usize = 7;
fn try_route(b: &B, route: usize, r: &mut R) -> ApInt {
    let w = b.w;
    match route {
        #[cfg(feature = "f_serde")]
        1 => dec(b),
        2 => ApInt::from_str_radix(16, b.hex()).unwrap().into_zero_resize(w),
        3 => {
            let extra = 1 + r.below(130);
            let mut big = b.zresize(w + extra);
            for i in w..w + extra {
                big.set(i, r.chance(1, 2));
            }
            base(&big).into_truncate(w).unwrap()
        }
        4 => {
            let s = b.sig().max(1);
            let mid = r.range(s, w);
            base(&b.zresize(mid)).into_zero_extend(w).unwrap()
        }
        5 => {
            let ow = gen::other_width(r, w);
            let mut x = base(&gen::value(r, ow));
            x.assign(&base(b));
            x
        }
        6 => {
            // sign extension from the shortest two's complement form
            let s = if b.msb() { b.not().sig() + 1 } else { b.sig() + 1 };
            let mid = r.range(s.min(w), w);
            base(&b.zresize(mid)).into_sign_extend(w).unwrap()
        }
        _ => base(b),
    }
}
#[cfg(feature = "f_serde")]
fn dec(b: &B) -> ApInt {
    let mut v = Vec::with_capacity(16 + 8 * b.d.len());
    v.extend((b.w as u64).to_le_bytes());
    v.extend((b.d.len() as u64).to_le_bytes());
    for x in &b.d {
        v.extend(x.to_le_bytes());
    }
    bincode::deserialize(&v).unwrap()
}
#[cfg(feature = "f_serde")]
fn base(b: &B) -> ApInt {
    dec(b)
}
#[cfg(not(feature = "f_serde"))]
fn base(b: &B) -> ApInt {
    fresh(b)
}

/// Few steps, for interpreters; at most 2048 bits.
pub fn cheap(b: &B) -> ApInt {
    let d = |i: usize| b.d.get(i).copied().unwrap_or(0);
    fn be<const N: usize>(d: impl Fn(usize) -> u64) -> [u64; N] {
        let mut a = [0; N];
        for i in 0..N {
            a[i] = d(N - 1 - i);
        }
        a
    }
    let x = match b.d.len() {
        1 => ApInt::from_u64(d(0)),
        2 => ApInt::from([d(1), d(0)]),
        3 => ApInt::from([d(2), d(1), d(0)]),
        4 => ApInt::from([d(3), d(2), d(1), d(0)]),
        5..=8 => ApInt::from(be::<8>(d)),
        9..=16 => ApInt::from(be::<16>(d)),
        _ => ApInt::from(be::<32>(d)),
    };
    x.into_zero_resize(b.w)
}

/// Builds the integer along a random route; falls back to the elementary one if
/// the route does not deliver (that is another property's business).
pub fn mk(b: &B, r: &mut R) -> ApInt {
    let route = if b.w > 2000 { r.below(2) } else { r.below(ROUTES) };
    if route != 0 {
        if let Ok(x) = catch_unwind(AssertUnwindSafe(|| try_route(b, route, r))) {
            let (w, d) = raw(&x);
            if w == b.w && d == b.d {
                return x;
            }
        }
        ROUTE_FALLBACK.fetch_add(1, Relaxed);
    }
    fresh(b)
}

/// `None` if the integer has exactly this width and value and no surplus bits.
pub fn differs(x: &ApInt, want: &B) -> Option<String> {
    let (w, d) = raw(x);
    if w == want.w && d == want.d {
        return None;
    }
    let got = if w == 0 { None } else { catch_unwind(AssertUnwindSafe(|| bits(x))).ok() };
    let eq = catch_unwind(AssertUnwindSafe(|| *x == fresh(want))).unwrap_or(false);
    if got.as_ref() == Some(want) && eq {
        CHANNEL_DISAGREE.fetch_add(1, Relaxed);
        return None;
    }
    Some(match got {
        Some(g) if g == *want => format!("surplus bits above the width: {} bits, raw digits {:x?}, want {:?}", w, d, want),
        Some(g) => format!("got {:?}, want {:?}", g, want),
        None => format!("unreadable value of width {}, want {:?}", w, want),
    })
}

/// C11 also reads the texts of errors.
pub static CHECK_TEXT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static TEXT_FAULT: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
pub fn text_fault() -> Option<String> {
    TEXT_FAULT.lock().ok().and_then(|mut g| g.take())
}

#[derive(Clone, PartialEq, Debug)]
pub enum E {
    Width(usize, usize),
    Div(String, B),
    Shift(usize, usize),
    Bit(usize, usize),
    Trunc { target: usize, current: usize },
    Ext { target: usize, current: usize },
    Unrep(B, String),
    Str { input: String, radix: u8, pos: Option<(usize, char)> },
    BadWidth(usize),
    Radix(u8),
    Other(String),
}
impl E {
    pub fn of(e: &Error) -> E {
        let x = E::of_kind(e);
        if CHECK_TEXT.load(Relaxed) {
            if let Some(m) = x.unnamed(e) {
                if let Ok(mut g) = TEXT_FAULT.lock() {
                    *g = Some(m);
                }
            }
        }
        x
    }
    /// What the error's text fails to name, if anything. The data are looked for as whole
    /// numbers anywhere in the text: its wording is free.
    fn unnamed(&self, e: &Error) -> Option<String> {
        let need: Vec<usize> = match self {
            E::Width(a, b) | E::Shift(a, b) | E::Bit(a, b) => vec![*a, *b],
            E::Trunc { target, current } | E::Ext { target, current } => vec![*target, *current],
            E::BadWidth(x) => vec![*x],
            E::Radix(x) => vec![*x as usize],
            E::Str { radix, pos, .. } => pos.iter().map(|p| p.0).chain(Some(*radix as usize)).collect(),
            E::Div(..) | E::Unrep(..) | E::Other(_) => vec![],
        };
        let shown = format!("{}", e);
        for text in [e.message(), &shown] {
            let mut found: Vec<&str> = text.split(|c: char| !c.is_ascii_digit()).collect();
            for n in &need {
                let t = n.to_string();
                match found.iter().position(|x| *x == t) {
                    Some(i) => {
                        found.swap_remove(i);
                    }
                    None => return Some(format!("the text of the error does not name {}: {:?}", n, text)),
                }
            }
        }
        None
    }
    #[allow(unreachable_patterns)]
    fn of_kind(e: &Error) -> E {
        match e.kind() {
            ErrorKind::InvalidRadix(x) => E::Radix(*x),
            ErrorKind::InvalidStringRepr { input, radix, pos_char } => {
                E::Str { input: input.clone(), radix: radix.to_u8(), pos: *pos_char }
            }
            ErrorKind::InvalidBitAccess { pos, width } => E::Bit(pos.to_usize(), width.to_usize()),
            ErrorKind::InvalidShiftAmount { shift_amount, width } => E::Shift(shift_amount.to_usize(), width.to_usize()),
            ErrorKind::ValueUnrepresentable { value, destination_ty } => E::Unrep(seen(value), format!("{:?}", destination_ty)),
            ErrorKind::UnmatchingBitwidth(a, b) => {
                let (a, b) = (a.to_usize(), b.to_usize());
                E::Width(a.min(b), a.max(b))
            }
            ErrorKind::InvalidBitWidth(x) => E::BadWidth(*x),
            ErrorKind::TruncationBitWidthTooLarge { target, current } => {
                E::Trunc { target: target.to_usize(), current: current.to_usize() }
            }
            ErrorKind::ExtensionBitWidthTooSmall { target, current } => {
                E::Ext { target: target.to_usize(), current: current.to_usize() }
            }
            ErrorKind::DivisionByZero { op, lhs } => E::Div(format!("{:?}", op), seen(lhs)),
            k => E::Other(format!("{:?}", k)),
        }
    }
    pub fn width(a: usize, b: usize) -> E {
        E::Width(a.min(b), a.max(b))
    }
}

/// Abstract outcome of a call (the value of a mutated operand is observed apart).
#[derive(Clone, PartialEq, Debug)]
pub enum Res {
    Unit,
    Bool(bool),
    N(usize),
    I(i128),
    U(u128),
    O(Option<Ordering>),
    S(String),
    E(E),
    Panic,
}
impl Res {
    pub fn kind(&self) -> u64 {
        match self {
            Res::E(E::Width(..)) => 1,
            Res::E(E::Div(..)) => 2,
            Res::E(_) => 3,
            Res::Panic => 4,
            Res::Bool(true) => 5,
            _ => 0,
        }
    }
    pub fn failed(&self) -> bool {
        matches!(self, Res::E(_) | Res::Panic)
    }
}
pub trait ToRes {
    fn res(self) -> Res;
}
impl ToRes for () {
    fn res(self) -> Res {
        Res::Unit
    }
}
impl ToRes for bool {
    fn res(self) -> Res {
        Res::Bool(self)
    }
}
impl ToRes for usize {
    fn res(self) -> Res {
        Res::N(self)
    }
}
impl ToRes for String {
    fn res(self) -> Res {
        Res::S(self)
    }
}
impl ToRes for Option<Ordering> {
    fn res(self) -> Res {
        Res::O(self)
    }
}
macro_rules! to_res { ($v:ident as $u:ty: $($t:ty)*) => { $(impl ToRes for $t { fn res(self) -> Res { Res::$v(self as $u) } })* } }
to_res!(I as i128: i8 i16 i32 i64 i128);
to_res!(U as u128: u8 u16 u32 u64 u128);
impl<T: ToRes> ToRes for Result<T, Error> {
    fn res(self) -> Res {
        match self {
            Ok(x) => x.res(),
            Err(e) => Res::E(E::of(&e)),
        }
    }
}
