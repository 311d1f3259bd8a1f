//! Reference model: w-bit vectors as plain digit vectors with schoolbook
//! algorithms. Shares no code with the crate under test.
use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct B {
    pub w: usize,
    pub d: Vec<u64>,
}

pub fn nd(w: usize) -> usize {
    w / 64 + (w % 64 != 0) as usize
}

impl fmt::Debug for B {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}'h{}", self.w, self.hex())
    }
}

impl B {
    pub fn zero(w: usize) -> B {
        assert!(w > 0);
        B { w, d: vec![0; nd(w)] }
    }
    pub fn new(w: usize, mut d: Vec<u64>) -> B {
        d.resize(nd(w), 0);
        let mut b = B { w, d };
        b.mask();
        b
    }
    pub fn from_u128(w: usize, v: u128) -> B {
        B::new(w, vec![v as u64, (v >> 64) as u64])
    }
    pub fn from_i128(w: usize, v: i128) -> B {
        let mut d = vec![v as u64, (v >> 64) as u64];
        while d.len() < nd(w) {
            d.push(if v < 0 { !0 } else { 0 });
        }
        B::new(w, d)
    }
    pub fn one(w: usize) -> B {
        B::from_u128(w, 1)
    }
    pub fn max(w: usize) -> B {
        B::new(w, vec![!0; nd(w)])
    }
    pub fn smin(w: usize) -> B {
        let mut b = B::zero(w);
        b.set(w - 1, true);
        b
    }
    pub fn smax(w: usize) -> B {
        let mut b = B::max(w);
        b.set(w - 1, false);
        b
    }
    pub fn pow2(w: usize, k: usize) -> B {
        let mut b = B::zero(w);
        b.set(k, true);
        b
    }
    fn mask(&mut self) {
        let e = self.w % 64;
        if e != 0 {
            let l = self.d.len() - 1;
            self.d[l] &= (1u64 << e) - 1;
        }
    }
    pub fn bit(&self, i: usize) -> bool {
        (self.d[i / 64] >> (i % 64)) & 1 == 1
    }
    pub fn set(&mut self, i: usize, v: bool) {
        if v {
            self.d[i / 64] |= 1 << (i % 64)
        } else {
            self.d[i / 64] &= !(1 << (i % 64))
        }
    }
    pub fn with(&self, i: usize, v: bool) -> B {
        let mut x = self.clone();
        x.set(i, v);
        x
    }
    pub fn msb(&self) -> bool {
        self.bit(self.w - 1)
    }
    pub fn is_zero(&self) -> bool {
        self.d.iter().all(|&x| x == 0)
    }
    pub fn is_one(&self) -> bool {
        self.d[0] == 1 && self.d[1..].iter().all(|&x| x == 0)
    }
    pub fn not(&self) -> B {
        B::new(self.w, self.d.iter().map(|x| !x).collect())
    }
    pub fn zip(&self, o: &B, f: impl Fn(u64, u64) -> u64) -> B {
        assert_eq!(self.w, o.w);
        B::new(self.w, self.d.iter().zip(&o.d).map(|(&x, &y)| f(x, y)).collect())
    }
    fn addc(&self, o: &B, mut c: bool) -> B {
        assert_eq!(self.w, o.w);
        let mut r = Vec::with_capacity(self.d.len());
        for (x, y) in self.d.iter().zip(&o.d) {
            let s = *x as u128 + *y as u128 + c as u128;
            r.push(s as u64);
            c = s >> 64 != 0;
        }
        B::new(self.w, r)
    }
    pub fn add(&self, o: &B) -> B {
        self.addc(o, false)
    }
    pub fn sub(&self, o: &B) -> B {
        self.addc(&o.not(), true)
    }
    pub fn neg(&self) -> B {
        B::zero(self.w).sub(self)
    }
    pub fn mul(&self, o: &B) -> B {
        assert_eq!(self.w, o.w);
        let n = self.d.len();
        B::new(self.w, mul_full(&self.d, &o.d)[..n].to_vec())
    }
    pub fn shl(&self, s: usize) -> B {
        let mut r = B::zero(self.w);
        let (q, m) = (s / 64, s % 64);
        for i in (q..r.d.len()).rev() {
            let hi = self.d[i - q];
            let lo = if i > q { self.d[i - q - 1] } else { 0 };
            r.d[i] = if m == 0 { hi } else { (hi << m) | (lo >> (64 - m)) };
        }
        r.mask();
        r
    }
    pub fn lshr(&self, s: usize) -> B {
        let mut r = B::zero(self.w);
        let (q, m) = (s / 64, s % 64);
        let n = r.d.len();
        for i in 0..n {
            let lo = if i + q < n { self.d[i + q] } else { 0 };
            let hi = if i + q + 1 < n { self.d[i + q + 1] } else { 0 };
            r.d[i] = if m == 0 { lo } else { (lo >> m) | (hi << (64 - m)) };
        }
        r
    }
    pub fn ashr(&self, s: usize) -> B {
        if self.msb() {
            self.not().lshr(s).not()
        } else {
            self.lshr(s)
        }
    }
    pub fn zresize(&self, w: usize) -> B {
        let mut d = self.d.clone();
        d.truncate(nd(w));
        B::new(w, d)
    }
    pub fn sresize(&self, w: usize) -> B {
        if w > self.w && self.msb() {
            self.not().zresize(w).not()
        } else {
            self.zresize(w)
        }
    }
    pub fn ucmp(&self, o: &B) -> Ordering {
        assert_eq!(self.w, o.w);
        for i in (0..self.d.len()).rev() {
            match self.d[i].cmp(&o.d[i]) {
                Ordering::Equal => {}
                x => return x,
            }
        }
        Ordering::Equal
    }
    pub fn scmp(&self, o: &B) -> Ordering {
        match (self.msb(), o.msb()) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            _ => self.ucmp(o),
        }
    }
    pub fn count_ones(&self) -> usize {
        (0..self.w).filter(|&i| self.bit(i)).count()
    }
    pub fn lz(&self) -> usize {
        (0..self.w).rev().take_while(|&i| !self.bit(i)).count()
    }
    pub fn tz(&self) -> usize {
        (0..self.w).take_while(|&i| !self.bit(i)).count()
    }
    pub fn sig(&self) -> usize {
        for i in (0..self.d.len()).rev() {
            if self.d[i] != 0 {
                return i * 64 + 64 - self.d[i].leading_zeros() as usize;
            }
        }
        0
    }
    /// Division by whatever means, certified by the defining relation.
    pub fn udivrem(&self, o: &B) -> (B, B) {
        assert!(!o.is_zero());
        let (q, r) = knuth(&self.d, &o.d);
        let (q, r) = (B::new(self.w, q), B::new(self.w, r));
        if B::is_udivrem(self, o, &q, &r) {
            return (q, r);
        }
        self.udivrem_slow(o)
    }
    /// Bitwise long division; slow on purpose (simple).
    pub fn udivrem_slow(&self, o: &B) -> (B, B) {
        assert!(!o.is_zero());
        let (w, n) = (self.w, self.d.len());
        let mut q = B::zero(w);
        // remainder needs one spare bit
        let mut r = vec![0u64; n + 1];
        let mut dv = o.d.clone();
        dv.push(0);
        for i in (0..self.sig()).rev() {
            let mut c = self.bit(i) as u64;
            for x in r.iter_mut() {
                let t = *x >> 63;
                *x = (*x << 1) | c;
                c = t;
            }
            let ge = {
                let mut o = Ordering::Equal;
                for k in (0..=n).rev() {
                    o = r[k].cmp(&dv[k]);
                    if o != Ordering::Equal {
                        break;
                    }
                }
                o != Ordering::Less
            };
            if ge {
                let mut bw = false;
                for k in 0..=n {
                    let (t, b1) = r[k].overflowing_sub(dv[k]);
                    let (t, b2) = t.overflowing_sub(bw as u64);
                    r[k] = t;
                    bw = b1 | b2;
                }
                q.set(i, true);
            }
        }
        r.truncate(n);
        (q, B::new(w, r))
    }
    pub fn abs(&self) -> B {
        if self.msb() {
            self.neg()
        } else {
            self.clone()
        }
    }
    pub fn sdivrem(&self, o: &B) -> (B, B) {
        let (q, r) = self.abs().udivrem(&o.abs());
        (
            if self.msb() != o.msb() { q.neg() } else { q },
            if self.msb() { r.neg() } else { r },
        )
    }
    /// The defining relation: n = q*d + r (over the integers) and r < d.
    pub fn is_udivrem(n: &B, d: &B, q: &B, r: &B) -> bool {
        if !(n.w == d.w && n.w == q.w && n.w == r.w) || r.ucmp(d) != Ordering::Less {
            return false;
        }
        let mut p = mul_full(&q.d, &d.d);
        let mut c = 0u128;
        for (i, x) in p.iter_mut().enumerate() {
            let s = *x as u128 + r.d.get(i).copied().unwrap_or(0) as u128 + c;
            *x = s as u64;
            c = s >> 64;
        }
        c == 0 && p[..n.d.len()] == n.d[..] && p[n.d.len()..].iter().all(|&x| x == 0)
    }
    pub fn low_u128(&self) -> u128 {
        self.d[0] as u128 | (self.d.get(1).copied().unwrap_or(0) as u128) << 64
    }
    pub fn hex(&self) -> String {
        let mut s = String::new();
        for x in self.d.iter().rev() {
            s += &format!("{:016x}", x);
        }
        let t = s.trim_start_matches('0');
        if t.is_empty() { "0".into() } else { t.into() }
    }
    pub fn bin(&self) -> String {
        let s: String = (0..self.w).rev().map(|i| if self.bit(i) { '1' } else { '0' }).collect();
        let t = s.trim_start_matches('0');
        if t.is_empty() { "0".into() } else { t.into() }
    }
    pub fn oct(&self) -> String {
        let s: String = (0..(self.w + 2) / 3)
            .rev()
            .map(|k| {
                let g = |i: usize| if i < self.w && self.bit(i) { 1 } else { 0 };
                char::from_digit(g(3 * k) + 2 * g(3 * k + 1) + 4 * g(3 * k + 2), 8).unwrap()
            })
            .collect();
        let t = s.trim_start_matches('0');
        if t.is_empty() { "0".into() } else { t.into() }
    }
    pub fn parse_hex(w: usize, s: &str) -> B {
        let mut b = B::zero(w);
        for (i, c) in s.bytes().rev().enumerate() {
            let v = (c as char).to_digit(16).unwrap();
            for k in 0..4 {
                if v >> k & 1 == 1 {
                    b.set(4 * i + k, true);
                }
            }
        }
        b
    }
    /// Repeated division by the radix.
    pub fn radix(&self, r: u32) -> String {
        let mut d = self.d.clone();
        let mut out = vec![];
        while d.iter().any(|&x| x != 0) {
            let mut rem = 0u128;
            for x in d.iter_mut().rev() {
                let cur = rem << 64 | *x as u128;
                *x = (cur / r as u128) as u64;
                rem = cur % r as u128;
            }
            while d.last() == Some(&0) {
                d.pop();
            }
            out.push(std::char::from_digit(rem as u32, r).unwrap());
        }
        if out.is_empty() {
            out.push('0');
        }
        out.iter().rev().collect()
    }
    /// Value of big-endian digit values in base r (digit by digit), as digits.
    pub fn from_radix(v: &[u8], r: u32) -> Vec<u64> {
        let mut d: Vec<u64> = vec![];
        for &x in v {
            let mut c = x as u128;
            for y in d.iter_mut() {
                let t = *y as u128 * r as u128 + c;
                *y = t as u64;
                c = t >> 64;
            }
            if c != 0 {
                d.push(c as u64);
            }
        }
        d
    }
}

pub fn mul_full(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut r = vec![0u64; a.len() + b.len()];
    for (i, &x) in a.iter().enumerate() {
        if x == 0 {
            continue;
        }
        let mut c = 0u128;
        for (j, &y) in b.iter().enumerate() {
            let t = x as u128 * y as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
        r[i + b.len()] = c as u64;
    }
    r
}

fn knuth(n: &[u64], d: &[u64]) -> (Vec<u64>, Vec<u64>) {
    let split = |v: &[u64]| {
        let mut r: Vec<u64> = v.iter().flat_map(|x| [x & 0xFFFF_FFFF, x >> 32]).collect();
        while r.last() == Some(&0) {
            r.pop();
        }
        r
    };
    let join = |v: &[u64]| v.chunks(2).map(|c| c[0] | c.get(1).copied().unwrap_or(0) << 32).collect::<Vec<u64>>();
    const BASE: u64 = 1 << 32;
    let (mut u, mut v) = (split(n), split(d));
    if u.len() < v.len() {
        return (vec![0], n.to_vec());
    }
    if v.len() == 1 {
        let mut rem = 0;
        let mut q = vec![0; u.len()];
        for i in (0..u.len()).rev() {
            let cur = rem << 32 | u[i];
            q[i] = cur / v[0];
            rem = cur % v[0];
        }
        return (join(&q), vec![rem]);
    }
    let s = v.last().unwrap().leading_zeros() - 32;
    let shl = |x: &mut Vec<u64>, s: u32| {
        let mut c = 0;
        for y in x.iter_mut() {
            let t = *y << s | c;
            *y = t & 0xFFFF_FFFF;
            c = t >> 32;
        }
        c
    };
    shl(&mut v, s);
    let c = shl(&mut u, s);
    u.push(c);
    let (m, k) = (u.len() - 1 - v.len(), v.len());
    let mut q = vec![0u64; m + 1];
    for j in (0..=m).rev() {
        let top = u[j + k] << 32 | u[j + k - 1];
        let (mut qh, mut rh) = (top / v[k - 1], top % v[k - 1]);
        while qh >= BASE || qh * v[k - 2] > (rh << 32 | u[j + k - 2]) {
            qh -= 1;
            rh += v[k - 1];
            if rh >= BASE {
                break;
            }
        }
        let (mut borrow, mut carry) = (0i64, 0u64);
        for i in 0..k {
            let p = qh * v[i] + carry;
            carry = p >> 32;
            let t = u[i + j] as i64 - borrow - (p & 0xFFFF_FFFF) as i64;
            u[i + j] = t as u64 & 0xFFFF_FFFF;
            borrow = if t < 0 { 1 } else { 0 };
        }
        let t = u[j + k] as i64 - borrow - carry as i64;
        u[j + k] = t as u64 & 0xFFFF_FFFF;
        if t < 0 {
            qh -= 1;
            let mut c = 0;
            for i in 0..k {
                let t = u[i + j] + v[i] + c;
                u[i + j] = t & 0xFFFF_FFFF;
                c = t >> 32;
            }
            u[j + k] = (u[j + k] + c) & 0xFFFF_FFFF;
        }
        q[j] = qh;
    }
    let mut r = u[..k].to_vec();
    for i in 0..k {
        r[i] = (r[i] | r.get(i + 1).copied().unwrap_or(0) << 32) >> s & 0xFFFF_FFFF;
    }
    (join(&q), join(&r))
}

/// Cross-checks the model against native 128-bit arithmetic and against
/// bit-by-bit definitions, so that a wrong oracle cannot go unnoticed.
pub fn self_test(rng: &mut crate::gen::R) -> usize {
    let mut n = 0;
    for _ in 0..3000 {
        let w = 1 + rng.below(128);
        let m: u128 = if w == 128 { !0 } else { (1 << w) - 1 };
        let a = crate::gen::value(rng, w);
        let b = crate::gen::value(rng, w);
        let (x, y) = (a.low_u128(), b.low_u128());
        let sx = (x << (128 - w)) as i128 >> (128 - w);
        let sy = (y << (128 - w)) as i128 >> (128 - w);
        let c = |v: u128| B::from_u128(w, v & m);
        assert_eq!(a.add(&b), c(x.wrapping_add(y)));
        assert_eq!(a.sub(&b), c(x.wrapping_sub(y)));
        assert_eq!(a.mul(&b), c(x.wrapping_mul(y)));
        assert_eq!(a.neg(), c(x.wrapping_neg()));
        let s = rng.below(w);
        assert_eq!(a.shl(s), c(x << s));
        assert_eq!(a.lshr(s), c(x >> s));
        assert_eq!(a.ashr(s), c((sx >> s) as u128));
        assert_eq!(a.ucmp(&b), x.cmp(&y));
        assert_eq!(a.scmp(&b), sx.cmp(&sy));
        assert_eq!(a.count_ones() as u32, x.count_ones());
        assert_eq!(a.lz() as u32, x.leading_zeros() - (128 - w as u32));
        assert_eq!(a.hex(), format!("{:x}", x));
        assert_eq!(a.bin(), format!("{:b}", x));
        assert_eq!(a.oct(), format!("{:o}", x));
        assert_eq!(a.radix(10), format!("{}", x));
        assert_eq!(B::parse_hex(w, &a.hex()), a);
        assert_eq!(B::new(w, B::from_radix(&a.radix(7).bytes().map(|c| c - b'0').collect::<Vec<_>>(), 7)), a);
        if y != 0 {
            assert_eq!(a.udivrem(&b), (c(x / y), c(x % y)));
            assert_eq!(a.sdivrem(&b), (c(sx.wrapping_div(sy) as u128), c(sx.wrapping_rem(sy) as u128)));
            let (q, r) = a.udivrem(&b);
            assert!(B::is_udivrem(&a, &b, &q, &r));
            assert!(!B::is_udivrem(&a, &b, &q, &r.add(&B::one(w))) || w == 1);
        }
        n += 1;
    }
    for _ in 0..200 {
        let w = 129 + rng.below(500);
        let a = crate::gen::value(rng, w);
        let b = crate::gen::value(rng, w);
        let s = rng.below(w);
        for i in 0..w {
            assert_eq!(a.shl(s).bit(i), i >= s && a.bit(i - s));
            assert_eq!(a.lshr(s).bit(i), i + s < w && a.bit(i + s));
            assert_eq!(a.ashr(s).bit(i), if i + s < w { a.bit(i + s) } else { a.msb() });
        }
        let w2 = 1 + rng.below(900);
        let (z, sx) = (a.zresize(w2), a.sresize(w2));
        for i in 0..w2 {
            assert_eq!(z.bit(i), i < w && a.bit(i));
            assert_eq!(sx.bit(i), if i < w { a.bit(i) } else { a.msb() });
        }
        if !b.is_zero() {
            let (q, r) = a.udivrem(&b);
            assert_eq!((q.clone(), r.clone()), a.udivrem_slow(&b));
            assert!(B::is_udivrem(&a, &b, &q, &r));
            let (q2, r2) = (q.add(&B::one(w)), r.add(&B::one(w)));
            assert!(!B::is_udivrem(&a, &b, &q2, &r));
            assert!(!B::is_udivrem(&a, &b, &q, &r2));
            let p = q.mul(&b).add(&r);
            assert_eq!(p, a);
        }
        assert_eq!(a.sub(&b).add(&b), a);
        n += 1;
    }
    n
}
