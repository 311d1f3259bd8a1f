//! The table of public operations (every call form of every type) and, per
//! operation, its specification over the reference model.
use crate::model::B;
use crate::obs::{Res, ToRes, E};
use apint::{ApInt, Int, UInt};
use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    Ap,
    I,
    U,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Form {
    /// `&mut self`, error leaves self in place
    Assign,
    /// `self -> Self`, error consumes self
    Into,
    /// `a op= &b`
    OpAssign,
    /// `a op &b`
    Op,
    /// `&self`
    Query,
    /// both operands are `&mut`
    Pair,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Sem {
    Add, Sub, Mul, Neg, Inc, Dec, Abs,
    Div(bool), Rem(bool), DivRem(bool), RemDiv(bool), // true: signed
    Shl, LShr, AShr,
    Not, And, Or, Xor,
    SetBit, UnsetBit, FlipBit, SetAll, UnsetAll, FlipAll, SetMsb, UnsetMsb, FlipMsb,
    GetBit, Msb, Lsb, IsZero, IsOne, IsEven, IsOdd, IsAllSet, IsAllUnset, Ones, Zeros, Lz, Tz,
    Pos, Negative, Signum,
    Trunc, ZExt, SExt, ZRes, SRes, Assign, StrictAssign, CloneSelf, CloneFrom,
    /// bits, signed; 1 bit = bool
    ResizeTo(usize, bool), TryTo(usize, bool),
    Eq, Ne,
    Cmp(bool, Rel), OpCmp(bool, Rel), PartialCmp(bool),
    Bin, Hex, UHex, Oct, Debug,
    Width, Conv, Rand, Json, Bincode, ReparseHex, ReparseBin, ReparseDec,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Rel {
    Lt,
    Le,
    Gt,
    Ge,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Arg {
    None,
    B,
    Shift,
    Pos,
    Width,
    Seed,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Group {
    Ring,
    Div,
    Shift,
    Bit,
    Cast,
    Conv,
    Rel,
    Text,
    Misc,
}
impl Sem {
    pub fn arg(self) -> Arg {
        use Sem::*;
        match self {
            Add | Sub | Mul | Div(_) | Rem(_) | DivRem(_) | RemDiv(_) | And | Or | Xor | Assign | StrictAssign | CloneFrom
            | Eq | Ne | Cmp(..) | OpCmp(..) | PartialCmp(_) => Arg::B,
            Shl | LShr | AShr => Arg::Shift,
            SetBit | UnsetBit | FlipBit | GetBit => Arg::Pos,
            Trunc | ZExt | SExt | ZRes | SRes => Arg::Width,
            Rand => Arg::Seed,
            _ => Arg::None,
        }
    }
    /// Different widths of the two operands are an error.
    pub fn same_width(self) -> bool {
        use Sem::*;
        matches!(self, Add | Sub | Mul | Div(_) | Rem(_) | DivRem(_) | RemDiv(_) | And | Or | Xor | StrictAssign | Cmp(..))
    }
    pub fn group(self) -> Group {
        use Sem::*;
        match self {
            Add | Sub | Mul | Neg | Inc | Dec | Abs => Group::Ring,
            Div(_) | Rem(_) | DivRem(_) | RemDiv(_) => Group::Div,
            Shl | LShr | AShr => Group::Shift,
            Not | And | Or | Xor | SetBit | UnsetBit | FlipBit | SetAll | UnsetAll | FlipAll | SetMsb | UnsetMsb | FlipMsb
            | GetBit | Msb | Lsb | IsZero | IsOne | IsEven | IsOdd | IsAllSet | IsAllUnset | Ones | Zeros | Lz | Tz => Group::Bit,
            Trunc | ZExt | SExt | ZRes | SRes | Assign | StrictAssign | CloneSelf | CloneFrom => Group::Cast,
            ResizeTo(..) | TryTo(..) => Group::Conv,
            Eq | Ne | Cmp(..) | OpCmp(..) | PartialCmp(_) => Group::Rel,
            Bin | Hex | UHex | Oct | Debug | ReparseHex | ReparseBin | ReparseDec => Group::Text,
            Pos | Negative | Signum | Width | Conv | Rand | Json | Bincode => Group::Misc,
        }
    }
    /// Documented never to allocate when it succeeds, at any width.
    pub fn no_alloc(self) -> bool {
        use Sem::*;
        match self {
            Mul | Trunc | ZExt | SExt | ZRes | SRes | Assign | StrictAssign | CloneSelf | CloneFrom | ResizeTo(..) | TryTo(..) => false,
            _ => !matches!(self.group(), Group::Div | Group::Text) && !matches!(self, Rand | Json | Bincode),
        }
    }
    /// Never allocates for widths (and target widths) of at most 64 bits.
    pub fn no_alloc_small(self) -> bool {
        !matches!(self.group(), Group::Text) && !matches!(self, Sem::Rand | Sem::Json | Sem::Bincode)
    }
    /// The specification decides the outcome (else only monitors look at it).
    pub fn specified(self) -> bool {
        !matches!(self, Sem::Rand | Sem::Debug | Sem::Oct)
    }
}

pub type F = fn(&mut Option<ApInt>, &mut ApInt, usize) -> Res;
#[derive(Clone, Copy)]
pub struct Row {
    pub name: &'static str,
    pub ty: Ty,
    pub form: Form,
    pub sem: Sem,
    pub f: F,
}

/// What the specification says: outcome, and the operands afterwards.
/// `a: None` means the caller no longer holds it.
#[derive(Debug)]
pub struct Exp {
    pub res: Res,
    pub alt: Option<Res>,
    pub a: Option<B>,
    pub b: B,
}

fn rel(o: Ordering, r: Rel) -> bool {
    match r {
        Rel::Lt => o == Ordering::Less,
        Rel::Le => o != Ordering::Greater,
        Rel::Gt => o == Ordering::Greater,
        Rel::Ge => o != Ordering::Less,
    }
}
pub fn prim_name(bits: usize, signed: bool) -> String {
    if bits == 1 { "Bool".into() } else { format!("{}{}", if signed { 'I' } else { 'U' }, bits) }
}

pub fn div_name(s: Sem) -> &'static str {
    match s {
        Sem::Div(false) => "UnsignedDiv",
        Sem::Div(true) => "SignedDiv",
        Sem::Rem(false) => "UnsignedRem",
        Sem::Rem(true) => "SignedRem",
        Sem::DivRem(false) => "UnsignedDivRem",
        Sem::DivRem(true) => "SignedDivRem",
        Sem::RemDiv(false) => "UnsignedRemDiv",
        Sem::RemDiv(true) => "SignedRemDiv",
        _ => "",
    }
}

/// True if the request is valid (the operation must succeed).
pub fn valid(row: &Row, a: &B, b: &B, n: usize) -> bool {
    !matches!(spec_raw(row, a, b, n, false), Out::Err(..))
}

enum Out {
    /// new self
    A(B),
    /// new self and rhs
    Ab(B, B),
    Q(Res),
    Err(E, Option<E>),
}

fn spec_raw(row: &Row, a: &B, b: &B, n: usize, compute: bool) -> Out {
    use Sem::*;
    let s = row.sem;
    let w = a.w;
    let zdiv = s.group() == Group::Div && b.is_zero();
    if s.same_width() && b.w != w {
        let alt = if zdiv { Some(E::Div(div_name(s).into(), a.clone())) } else { None };
        return Out::Err(E::width(w, b.w), alt);
    }
    if zdiv {
        return Out::Err(E::Div(div_name(s).into(), a.clone()), None);
    }
    match s.arg() {
        Arg::Shift if n >= w => return Out::Err(E::Shift(n, w), None),
        Arg::Pos if n >= w => return Out::Err(E::Bit(n, w), None),
        _ => {}
    }
    match s {
        Trunc if n > w => return Out::Err(E::Trunc { target: n, current: w }, None),
        ZExt | SExt if n < w => return Out::Err(E::Ext { target: n, current: w }, None),
        TryTo(bits, signed) => {
            let ok = if row.ty == Ty::I && bits > 1 {
                // the signed value lies in the range of the primitive
                bits >= w || a.zresize(bits).sresize(w) == *a
            } else {
                a.sig() <= bits
            };
            if !ok {
                return Out::Err(E::Unrep(a.clone(), prim_name(bits, signed)), None);
            }
        }
        _ => {}
    }
    if !compute {
        return Out::Q(Res::Unit);
    }
    let one = || B::one(w);
    let prim = |bits: usize, signed: bool| -> Res {
        if bits == 1 {
            Res::Bool(a.bit(0))
        } else if signed {
            let v = a.sresize(128.max(w)).zresize(128).low_u128();
            Res::I((v << (128 - bits)) as i128 >> (128 - bits))
        } else {
            let v = a.low_u128();
            Res::U(v << (128 - bits) >> (128 - bits))
        }
    };
    match s {
        Add => Out::A(a.add(b)),
        Sub => Out::A(a.sub(b)),
        Mul => Out::A(a.mul(b)),
        Neg => Out::A(a.neg()),
        Inc => Out::A(a.add(&one())),
        Dec => Out::A(a.sub(&one())),
        Abs => Out::A(a.abs()),
        Div(sg) => Out::A(if sg { a.sdivrem(b).0 } else { a.udivrem(b).0 }),
        Rem(sg) => Out::A(if sg { a.sdivrem(b).1 } else { a.udivrem(b).1 }),
        DivRem(sg) => {
            let (q, r) = if sg { a.sdivrem(b) } else { a.udivrem(b) };
            Out::Ab(q, r)
        }
        RemDiv(sg) => {
            let (q, r) = if sg { a.sdivrem(b) } else { a.udivrem(b) };
            Out::Ab(r, q)
        }
        Shl => Out::A(a.shl(n)),
        LShr => Out::A(a.lshr(n)),
        AShr => Out::A(a.ashr(n)),
        Not | FlipAll => Out::A(a.not()),
        And => Out::A(a.zip(b, |x, y| x & y)),
        Or => Out::A(a.zip(b, |x, y| x | y)),
        Xor => Out::A(a.zip(b, |x, y| x ^ y)),
        SetBit => Out::A(a.with(n, true)),
        UnsetBit => Out::A(a.with(n, false)),
        FlipBit => Out::A(a.with(n, !a.bit(n))),
        SetAll => Out::A(B::max(w)),
        UnsetAll => Out::A(B::zero(w)),
        SetMsb => Out::A(a.with(w - 1, true)),
        UnsetMsb => Out::A(a.with(w - 1, false)),
        FlipMsb => Out::A(a.with(w - 1, !a.msb())),
        GetBit => Out::Q(Res::Bool(a.bit(n))),
        Msb => Out::Q(Res::Bool(a.msb())),
        Lsb | IsOdd => Out::Q(Res::Bool(a.bit(0))),
        IsEven => Out::Q(Res::Bool(!a.bit(0))),
        IsZero | IsAllUnset => Out::Q(Res::Bool(a.is_zero())),
        IsOne => Out::Q(Res::Bool(a.is_one() && !(row.ty == Ty::I && w == 1))),
        IsAllSet => Out::Q(Res::Bool(*a == B::max(w))),
        Ones => Out::Q(Res::N(a.count_ones())),
        Zeros => Out::Q(Res::N(w - a.count_ones())),
        Lz => Out::Q(Res::N(a.lz())),
        Tz => Out::Q(Res::N(a.tz())),
        Pos => Out::Q(Res::Bool(!a.msb())),
        Negative => Out::Q(Res::Bool(a.msb())),
        Signum => Out::Q(Res::I(if a.is_zero() { 0 } else if a.msb() { -1 } else { 1 })),
        Trunc | ZExt | ZRes => Out::A(a.zresize(n)),
        SExt | SRes => Out::A(a.sresize(n)),
        Assign | StrictAssign | CloneFrom => Out::A(b.clone()),
        CloneSelf | Conv | Json | Bincode | ReparseHex | ReparseBin | ReparseDec => Out::A(a.clone()),
        ResizeTo(bits, sg) | TryTo(bits, sg) => Out::Q(prim(bits, sg)),
        Eq => Out::Q(Res::Bool(a == b)),
        Ne => Out::Q(Res::Bool(a != b)),
        Cmp(sg, r) => Out::Q(Res::Bool(rel(if sg { a.scmp(b) } else { a.ucmp(b) }, r))),
        OpCmp(sg, r) => Out::Q(Res::Bool(b.w == w && rel(if sg { a.scmp(b) } else { a.ucmp(b) }, r))),
        PartialCmp(sg) => Out::Q(Res::O(if b.w != w { None } else { Some(if sg { a.scmp(b) } else { a.ucmp(b) }) })),
        Bin => Out::Q(Res::S(a.bin())),
        Hex => Out::Q(Res::S(a.hex())),
        UHex => Out::Q(Res::S(a.hex().to_uppercase())),
        Oct => Out::Q(Res::S(a.oct())),
        Width => Out::Q(Res::N(w)),
        Rand | Debug => Out::Q(Res::Unit),
    }
}

pub fn spec(row: &Row, a: &B, b: &B, n: usize) -> Exp {
    let consuming = matches!(row.form, Form::Into | Form::Op);
    let op = matches!(row.form, Form::Op | Form::OpAssign);
    match spec_raw(row, a, b, n, true) {
        Out::A(x) => Exp { res: Res::Unit, alt: None, a: Some(x), b: b.clone() },
        Out::Ab(x, y) => Exp { res: Res::Unit, alt: None, a: Some(x), b: y },
        Out::Q(r) => Exp { res: r, alt: None, a: Some(a.clone()), b: b.clone() },
        Out::Err(e, alt) => Exp {
            res: if op { Res::Panic } else { Res::E(e) },
            alt: if op { None } else { alt.map(Res::E) },
            a: if consuming { None } else { Some(a.clone()) },
            b: b.clone(),
        },
    }
}

// ---------------------------------------------------------------- call glue

pub trait W: Sized {
    fn w(a: ApInt) -> Self;
    fn u(self) -> ApInt;
}
impl W for ApInt {
    fn w(a: ApInt) -> Self {
        a
    }
    fn u(self) -> ApInt {
        self
    }
}
impl W for Int {
    fn w(a: ApInt) -> Self {
        Int::from(a)
    }
    fn u(self) -> ApInt {
        self.into_apint()
    }
}
impl W for UInt {
    fn w(a: ApInt) -> Self {
        UInt::from(a)
    }
    fn u(self) -> ApInt {
        self.into_apint()
    }
}
/// Holds an operand wrapped and puts it back, also when the call unwinds.
struct Hold<'a, T: W> {
    home: &'a mut Option<ApInt>,
    x: Option<T>,
}
impl<'a, T: W> Hold<'a, T> {
    fn new(home: &'a mut Option<ApInt>) -> Self {
        let x = home.take().map(T::w);
        Hold { home, x }
    }
}
impl<'a, T: W> Drop for Hold<'a, T> {
    fn drop(&mut self) {
        *self.home = self.x.take().map(T::u);
    }
}
struct HoldB<'a, T: W> {
    home: &'a mut ApInt,
    x: Option<T>,
}
impl<'a, T: W> HoldB<'a, T> {
    fn new(home: &'a mut ApInt) -> Self {
        let v = std::mem::replace(home, ApInt::from_bool(false));
        HoldB { home, x: Some(T::w(v)) }
    }
}
impl<'a, T: W> Drop for HoldB<'a, T> {
    fn drop(&mut self) {
        if let Some(x) = self.x.take() {
            *self.home = x.u();
        }
    }
}
fn inplace<T: W>(s: &mut Option<ApInt>, f: impl FnOnce(&mut T) -> Res) -> Res {
    let mut h = Hold::<T>::new(s);
    f(h.x.as_mut().unwrap())
}
fn inplace2<T: W>(s: &mut Option<ApInt>, b: &mut ApInt, f: impl FnOnce(&mut T, &mut T) -> Res) -> Res {
    let mut h = Hold::<T>::new(s);
    let mut k = HoldB::<T>::new(b);
    f(h.x.as_mut().unwrap(), k.x.as_mut().unwrap())
}
fn consume<T: W>(s: &mut Option<ApInt>, f: impl FnOnce(T) -> Result<T, apint::Error>) -> Res {
    match f(T::w(s.take().unwrap())) {
        Ok(x) => {
            *s = Some(x.u());
            Res::Unit
        }
        Err(e) => Res::E(E::of(&e)),
    }
}
fn consume2<T: W>(s: &mut Option<ApInt>, b: &mut ApInt, f: impl FnOnce(T, &T) -> Result<T, apint::Error>) -> Res {
    let mut k = HoldB::<T>::new(b);
    let a = T::w(s.take().unwrap());
    match f(a, k.x.as_mut().unwrap()) {
        Ok(x) => {
            *s = Some(x.u());
            Res::Unit
        }
        Err(e) => Res::E(E::of(&e)),
    }
}

macro_rules! ty {
    (ApInt) => { Ty::Ap };
    (Int) => { Ty::I };
    (UInt) => { Ty::U };
}
macro_rules! row {
    ($v:ident, $T:ident, $form:ident, $sem:expr, $name:expr, $f:expr) => {
        $v.push(Row { name: concat!(stringify!($T), "::", $name), ty: ty!($T), form: Form::$form, sem: $sem, f: $f })
    };
}
/// unary, infallible: in place and consuming
macro_rules! un {
    ($v:ident, [$($T:ident)*], $sem:expr, $m:ident) => { $(
        row!($v, $T, Assign, $sem, stringify!($m), |s, _, _| inplace::<$T>(s, |x| { x.$m(); Res::Unit }));
    )* };
    ($v:ident, [$($T:ident)*], $sem:expr, $m:ident, $i:ident) => { $(
        row!($v, $T, Assign, $sem, stringify!($m), |s, _, _| inplace::<$T>(s, |x| { x.$m(); Res::Unit }));
        row!($v, $T, Into, $sem, stringify!($i), |s, _, _| consume::<$T>(s, |x| Ok(x.$i())));
    )* };
}
macro_rules! bin {
    ($v:ident, [$($T:ident)*], $sem:expr, $m:ident, $i:ident) => { $(
        row!($v, $T, Assign, $sem, stringify!($m), |s, b, _| inplace2::<$T>(s, b, |x, y| x.$m(y).res()));
        row!($v, $T, Into, $sem, stringify!($i), |s, b, _| consume2::<$T>(s, b, |x, y| x.$i(y)));
    )* };
}
macro_rules! pair {
    ($v:ident, $sem:expr, $m:ident) => {
        row!($v, ApInt, Pair, $sem, stringify!($m), |s, b, _| inplace2::<ApInt>(s, b, |x, y| ApInt::$m(x, y).res()));
    };
}
macro_rules! num {
    ($v:ident, [$($T:ident)*], $sem:expr, $m:ident) => { $(
        row!($v, $T, Assign, $sem, stringify!($m), |s, _, n| inplace::<$T>(s, |x| x.$m(n).res()));
    )* };
    ($v:ident, [$($T:ident)*], $sem:expr, $m:ident, $i:ident) => { $(
        row!($v, $T, Assign, $sem, stringify!($m), |s, _, n| inplace::<$T>(s, |x| x.$m(n).res()));
        row!($v, $T, Into, $sem, stringify!($i), |s, _, n| consume::<$T>(s, |x| x.$i(n)));
    )* };
}
/// resize: infallible with a width
macro_rules! rsz {
    ($v:ident, [$($T:ident)*], $sem:expr, $m:ident, $i:ident) => { $(
        row!($v, $T, Assign, $sem, stringify!($m), |s, _, n| inplace::<$T>(s, |x| { x.$m(n); Res::Unit }));
        row!($v, $T, Into, $sem, stringify!($i), |s, _, n| consume::<$T>(s, |x| Ok(x.$i(n))));
    )* };
}
macro_rules! q {
    ($v:ident, [$($T:ident)*], $($sem:expr, $m:ident);*) => { q!(@t $v, [$($T)*], [$($sem, $m);*]) };
    (@t $v:ident, [], $l:tt) => {};
    (@t $v:ident, [$T:ident $($R:ident)*], [$($sem:expr, $m:ident);*]) => {
        $( row!($v, $T, Query, $sem, stringify!($m), |s, _, _| inplace::<$T>(s, |x| (&*x).$m().res())); )*
        q!(@t $v, [$($R)*], [$($sem, $m);*])
    };
}
macro_rules! qb {
    ($v:ident, $T:ident, $sem:expr, $name:expr, |$x:ident, $y:ident| $e:expr) => {
        row!($v, $T, Query, $sem, $name, |s, b, _| inplace2::<$T>(s, b, |$x, $y| { let ($x, $y): (&$T, &$T) = ($x, $y); ($e).res() }))
    };
}
macro_rules! op {
    ($v:ident, [$($T:ident)*], $sem:expr, $o:tt, $oa:tt) => { $(
        row!($v, $T, Op, $sem, stringify!($o), |s, b, _| consume2::<$T>(s, b, |x, y| Ok(x $o y)));
        row!($v, $T, OpAssign, $sem, stringify!($oa), |s, b, _| inplace2::<$T>(s, b, |x, y| { *x $oa &*y; Res::Unit }));
    )* };
}
macro_rules! opn {
    ($v:ident, $T:ident, $sem:expr, $o:tt, $oa:tt) => {
        row!($v, $T, Op, $sem, stringify!($o), |s, _, n| consume::<$T>(s, |x| Ok(x $o n)));
        row!($v, $T, OpAssign, $sem, stringify!($oa), |s, _, n| inplace::<$T>(s, |x| { *x $oa n; Res::Unit }));
    };
}

pub fn table() -> Vec<Row> {
    use Sem::*;
    let mut v: Vec<Row> = Vec::new();
    // ring
    bin!(v, [ApInt Int UInt], Add, wrapping_add_assign, into_wrapping_add);
    bin!(v, [ApInt Int UInt], Sub, wrapping_sub_assign, into_wrapping_sub);
    bin!(v, [ApInt Int UInt], Mul, wrapping_mul_assign, into_wrapping_mul);
    un!(v, [ApInt Int UInt], Neg, wrapping_neg, into_wrapping_neg);
    un!(v, [ApInt], Inc, wrapping_inc, into_wrapping_inc);
    un!(v, [ApInt], Dec, wrapping_dec, into_wrapping_dec);
    un!(v, [Int], Abs, wrapping_abs, into_abs);
    op!(v, [ApInt Int UInt], Add, +, +=);
    op!(v, [ApInt Int UInt], Sub, -, -=);
    op!(v, [ApInt Int UInt], Mul, *, *=);
    row!(v, ApInt, Op, Neg, "-x", |s, _, _| consume::<ApInt>(s, |x| Ok(-x)));
    row!(v, Int, Op, Neg, "-x", |s, _, _| consume::<Int>(s, |x| Ok(-x)));
    row!(v, UInt, Op, Neg, "-x", |s, _, _| consume::<UInt>(s, |x| Ok(-x)));
    // division
    bin!(v, [ApInt], Div(false), wrapping_udiv_assign, into_wrapping_udiv);
    bin!(v, [ApInt], Rem(false), wrapping_urem_assign, into_wrapping_urem);
    bin!(v, [ApInt], Div(true), wrapping_sdiv_assign, into_wrapping_sdiv);
    bin!(v, [ApInt], Rem(true), wrapping_srem_assign, into_wrapping_srem);
    bin!(v, [UInt], Div(false), wrapping_div_assign, into_wrapping_div);
    bin!(v, [UInt], Rem(false), wrapping_rem_assign, into_wrapping_rem);
    bin!(v, [Int], Div(true), wrapping_div_assign, into_wrapping_div);
    bin!(v, [Int], Rem(true), wrapping_rem_assign, into_wrapping_rem);
    op!(v, [UInt], Div(false), /, /=);
    op!(v, [UInt], Rem(false), %, %=);
    op!(v, [Int], Div(true), /, /=);
    op!(v, [Int], Rem(true), %, %=);
    pair!(v, DivRem(false), wrapping_udivrem_assign);
    pair!(v, RemDiv(false), wrapping_uremdiv_assign);
    pair!(v, DivRem(true), wrapping_sdivrem_assign);
    pair!(v, RemDiv(true), wrapping_sremdiv_assign);
    // shifts
    num!(v, [ApInt Int UInt], Shl, wrapping_shl_assign, into_wrapping_shl);
    num!(v, [ApInt], LShr, wrapping_lshr_assign, into_wrapping_lshr);
    num!(v, [ApInt], AShr, wrapping_ashr_assign, into_wrapping_ashr);
    num!(v, [UInt], LShr, wrapping_shr_assign, into_wrapping_shr);
    num!(v, [Int], AShr, wrapping_shr_assign, into_wrapping_shr);
    opn!(v, ApInt, Shl, <<, <<=);
    opn!(v, Int, Shl, <<, <<=);
    opn!(v, UInt, Shl, <<, <<=);
    opn!(v, UInt, LShr, >>, >>=);
    opn!(v, Int, AShr, >>, >>=);
    // bitwise
    un!(v, [ApInt Int UInt], Not, bitnot, into_bitnot);
    bin!(v, [ApInt Int UInt], And, bitand_assign, into_bitand);
    bin!(v, [ApInt Int UInt], Or, bitor_assign, into_bitor);
    bin!(v, [ApInt Int UInt], Xor, bitxor_assign, into_bitxor);
    op!(v, [ApInt Int UInt], And, &, &=);
    op!(v, [ApInt Int UInt], Or, |, |=);
    op!(v, [ApInt Int UInt], Xor, ^, ^=);
    row!(v, ApInt, Op, Not, "!x", |s, _, _| consume::<ApInt>(s, |x| Ok(!x)));
    row!(v, Int, Op, Not, "!x", |s, _, _| consume::<Int>(s, |x| Ok(!x)));
    row!(v, UInt, Op, Not, "!x", |s, _, _| consume::<UInt>(s, |x| Ok(!x)));
    num!(v, [ApInt Int UInt], SetBit, set_bit_at);
    num!(v, [ApInt Int UInt], UnsetBit, unset_bit_at);
    num!(v, [ApInt Int UInt], FlipBit, flip_bit_at);
    un!(v, [ApInt Int UInt], SetAll, set_all);
    un!(v, [ApInt Int UInt], UnsetAll, unset_all);
    un!(v, [ApInt Int UInt], FlipAll, flip_all);
    un!(v, [ApInt Int], SetMsb, set_msb);
    un!(v, [ApInt Int], UnsetMsb, unset_msb);
    un!(v, [ApInt Int], FlipMsb, flip_msb);
    row!(v, ApInt, Query, GetBit, "get_bit_at", |s, _, n| inplace::<ApInt>(s, |x| x.get_bit_at(n).res()));
    row!(v, Int, Query, GetBit, "get_bit_at", |s, _, n| inplace::<Int>(s, |x| x.get_bit_at(n).res()));
    row!(v, UInt, Query, GetBit, "get_bit_at", |s, _, n| inplace::<UInt>(s, |x| x.get_bit_at(n).res()));
    q!(v, [ApInt Int UInt], IsZero, is_zero; IsEven, is_even; IsOdd, is_odd; IsAllSet, is_all_set; IsAllUnset, is_all_unset;
        Ones, count_ones; Zeros, count_zeros; Lz, leading_zeros; Tz, trailing_zeros);
    q!(v, [ApInt Int], Msb, msb);
    q!(v, [ApInt], Lsb, lsb);
    q!(v, [Int UInt], IsOne, is_one);
    q!(v, [Int], Pos, is_positive; Negative, is_negative; Signum, signum);
    // casts
    num!(v, [ApInt Int UInt], Trunc, truncate, into_truncate);
    num!(v, [ApInt], ZExt, zero_extend, into_zero_extend);
    num!(v, [ApInt], SExt, sign_extend, into_sign_extend);
    num!(v, [UInt], ZExt, extend, into_extend);
    num!(v, [Int], SExt, extend, into_extend);
    rsz!(v, [ApInt], ZRes, zero_resize, into_zero_resize);
    rsz!(v, [ApInt], SRes, sign_resize, into_sign_resize);
    rsz!(v, [UInt], ZRes, resize, into_resize);
    rsz!(v, [Int], SRes, resize, into_resize);
    row!(v, ApInt, Assign, Assign, "assign", |s, b, _| inplace2::<ApInt>(s, b, |x, y| { x.assign(y); Res::Unit }));
    row!(v, Int, Assign, Assign, "assign", |s, b, _| inplace2::<Int>(s, b, |x, y| { x.assign(y); Res::Unit }));
    row!(v, UInt, Assign, Assign, "assign", |s, b, _| inplace2::<UInt>(s, b, |x, y| { x.assign(y); Res::Unit }));
    row!(v, ApInt, Assign, StrictAssign, "strict_assign", |s, b, _| inplace2::<ApInt>(s, b, |x, y| x.strict_assign(y).res()));
    row!(v, Int, Assign, StrictAssign, "strict_assign", |s, b, _| inplace2::<Int>(s, b, |x, y| x.strict_assign(y).res()));
    row!(v, UInt, Assign, StrictAssign, "strict_assign", |s, b, _| inplace2::<UInt>(s, b, |x, y| x.strict_assign(y).res()));
    row!(v, ApInt, Assign, CloneSelf, "clone", |s, _, _| inplace::<ApInt>(s, |x| { let y = x.clone(); *x = y; Res::Unit }));
    row!(v, Int, Assign, CloneSelf, "clone", |s, _, _| inplace::<Int>(s, |x| { let y = x.clone(); *x = y; Res::Unit }));
    row!(v, UInt, Assign, CloneSelf, "clone", |s, _, _| inplace::<UInt>(s, |x| { let y = x.clone(); *x = y; Res::Unit }));
    row!(v, ApInt, Assign, CloneFrom, "clone_from", |s, b, _| inplace2::<ApInt>(s, b, |x, y| { x.clone_from(y); Res::Unit }));
    // conversion to primitives
    q!(v, [ApInt Int UInt], ResizeTo(1, false), resize_to_bool; TryTo(1, false), try_to_bool);
    q!(v, [ApInt UInt], ResizeTo(8, false), resize_to_u8; ResizeTo(16, false), resize_to_u16; ResizeTo(32, false), resize_to_u32;
        ResizeTo(64, false), resize_to_u64; ResizeTo(128, false), resize_to_u128;
        TryTo(8, false), try_to_u8; TryTo(16, false), try_to_u16; TryTo(32, false), try_to_u32; TryTo(64, false), try_to_u64;
        TryTo(128, false), try_to_u128);
    q!(v, [ApInt Int], ResizeTo(8, true), resize_to_i8; ResizeTo(16, true), resize_to_i16; ResizeTo(32, true), resize_to_i32;
        ResizeTo(64, true), resize_to_i64; ResizeTo(128, true), resize_to_i128;
        TryTo(8, true), try_to_i8; TryTo(16, true), try_to_i16; TryTo(32, true), try_to_i32; TryTo(64, true), try_to_i64;
        TryTo(128, true), try_to_i128);
    // relations
    qb!(v, ApInt, Eq, "==", |x, y| x == y);
    qb!(v, ApInt, Ne, "!=", |x, y| x != y);
    qb!(v, Int, Eq, "==", |x, y| x == y);
    qb!(v, Int, Ne, "!=", |x, y| x != y);
    qb!(v, UInt, Eq, "==", |x, y| x == y);
    qb!(v, UInt, Ne, "!=", |x, y| x != y);
    qb!(v, ApInt, Cmp(false, Rel::Lt), "checked_ult", |x, y| x.checked_ult(y));
    qb!(v, ApInt, Cmp(false, Rel::Le), "checked_ule", |x, y| x.checked_ule(y));
    qb!(v, ApInt, Cmp(false, Rel::Gt), "checked_ugt", |x, y| x.checked_ugt(y));
    qb!(v, ApInt, Cmp(false, Rel::Ge), "checked_uge", |x, y| x.checked_uge(y));
    qb!(v, ApInt, Cmp(true, Rel::Lt), "checked_slt", |x, y| x.checked_slt(y));
    qb!(v, ApInt, Cmp(true, Rel::Le), "checked_sle", |x, y| x.checked_sle(y));
    qb!(v, ApInt, Cmp(true, Rel::Gt), "checked_sgt", |x, y| x.checked_sgt(y));
    qb!(v, ApInt, Cmp(true, Rel::Ge), "checked_sge", |x, y| x.checked_sge(y));
    macro_rules! ord {
        ($T:ident, $s:expr) => {
            qb!(v, $T, Cmp($s, Rel::Lt), "checked_lt", |x, y| x.checked_lt(y));
            qb!(v, $T, Cmp($s, Rel::Le), "checked_le", |x, y| x.checked_le(y));
            qb!(v, $T, Cmp($s, Rel::Gt), "checked_gt", |x, y| x.checked_gt(y));
            qb!(v, $T, Cmp($s, Rel::Ge), "checked_ge", |x, y| x.checked_ge(y));
            qb!(v, $T, OpCmp($s, Rel::Lt), "<", |x, y| x < y);
            qb!(v, $T, OpCmp($s, Rel::Le), "<=", |x, y| x <= y);
            qb!(v, $T, OpCmp($s, Rel::Gt), ">", |x, y| x > y);
            qb!(v, $T, OpCmp($s, Rel::Ge), ">=", |x, y| x >= y);
            qb!(v, $T, PartialCmp($s), "partial_cmp", |x, y| x.partial_cmp(y));
        };
    }
    ord!(Int, true);
    ord!(UInt, false);
    // text
    macro_rules! txt {
        ($($T:ident)*) => { $(
            row!(v, $T, Query, Bin, "{:b}", |s, _, _| inplace::<$T>(s, |x| format!("{:b}", x).res()));
            row!(v, $T, Query, Hex, "{:x}", |s, _, _| inplace::<$T>(s, |x| format!("{:x}", x).res()));
            row!(v, $T, Query, UHex, "{:X}", |s, _, _| inplace::<$T>(s, |x| format!("{:X}", x).res()));
            row!(v, $T, Query, Debug, "{:?}", |s, _, _| inplace::<$T>(s, |x| format!("{:?}", x).res()));
        )* };
    }
    txt!(ApInt Int UInt);
    row!(v, ApInt, Assign, ReparseHex, "reparse hex", |s, _, _| inplace::<ApInt>(s, |x| {
        let w = apint::Width::width(&*x);
        let mut y = ApInt::from_str_radix(16, format!("{:X}", x)).unwrap();
        y.zero_resize(w);
        *x = y;
        Res::Unit
    }));
    row!(v, ApInt, Assign, ReparseBin, "reparse binary", |s, _, _| inplace::<ApInt>(s, |x| {
        let w = apint::Width::width(&*x);
        *x = ApInt::from_str_radix(2, format!("{:b}", x)).unwrap().into_zero_resize(w);
        Res::Unit
    }));
    row!(v, ApInt, Assign, ReparseDec, "reparse decimal", |s, _, _| inplace::<ApInt>(s, |x| {
        let w = apint::Width::width(&*x);
        let t = B::parse_hex(w.to_usize().max(1) + 64, &format!("{:x}", x)).radix(10);
        *x = ApInt::from_str_radix(10, t).unwrap().into_zero_resize(w);
        Res::Unit
    }));
    // misc
    row!(v, ApInt, Query, Width, "width", |s, _, _| inplace::<ApInt>(s, |x| apint::Width::width(&*x).to_usize().res()));
    row!(v, Int, Query, Width, "width", |s, _, _| inplace::<Int>(s, |x| apint::Width::width(&*x).to_usize().res()));
    row!(v, UInt, Query, Width, "width", |s, _, _| inplace::<UInt>(s, |x| apint::Width::width(&*x).to_usize().res()));
    row!(v, Int, Into, Conv, "into_unsigned", |s, _, _| consume::<Int>(s, |x| Ok(x.into_unsigned().into_signed())));
    row!(v, UInt, Into, Conv, "into_signed", |s, _, _| consume::<UInt>(s, |x| Ok(UInt::from(x.into_signed().into_apint()))));
    #[cfg(feature = "f_rand")]
    {
        row!(v, ApInt, Assign, Rand, "randomize_using", |s, _, n| inplace::<ApInt>(s, |x| { x.randomize_using(&mut crate::rng::Seq::new(n as u64)); Res::Unit }));
        row!(v, Int, Assign, Rand, "randomize_using", |s, _, n| inplace::<Int>(s, |x| { x.randomize_using(&mut crate::rng::Seq::new(n as u64)); Res::Unit }));
        row!(v, UInt, Assign, Rand, "randomize_using", |s, _, n| inplace::<UInt>(s, |x| { x.randomize_using(&mut crate::rng::Seq::new(n as u64)); Res::Unit }));
        row!(v, ApInt, Assign, Rand, "random_with_width_using", |s, _, n| inplace::<ApInt>(s, |x| {
            *x = ApInt::random_with_width_using(apint::Width::width(&*x), &mut crate::rng::Seq::new(n as u64));
            Res::Unit
        }));
    }
    #[cfg(feature = "f_serde")]
    {
        row!(v, ApInt, Assign, Json, "json round trip", |s, _, _| inplace::<ApInt>(s, |x| {
            *x = serde_json::from_str(&serde_json::to_string(x).unwrap()).unwrap();
            Res::Unit
        }));
        row!(v, ApInt, Assign, Bincode, "bincode round trip", |s, _, _| inplace::<ApInt>(s, |x| {
            *x = bincode::deserialize(&bincode::serialize(x).unwrap()).unwrap();
            Res::Unit
        }));
    }
    v
}
