import runpy
C_ = runpy.run_path('/verif/tools/specs/c.py'); PRE = C_['PRE']; lit = C_['lit']; A = C_['A']; ALLOC = C_['ALLOC']
C='src/apint/casting.rs'; U='src/apint/utils.rs'; K='src/apint/constructors.rs'; S='src/apint/serialization.rs'; D='src/apint/serde_impl.rs'; T='src/apint/to_primitive.rs'; R='src/apint/relational.rs'; SH='src/apint/shift.rs'; B='src/apint/bitwise.rs'; UT='src/utils.rs'; RX='src/radix.rs'
SEEDS = [
dict(id='d01-inc', property='C01', edits=[(A, '''                for x in xs {
                    match x.overflowing_add(Digit::ONE) {''', '''                // a carry hardly ever travels far
                for x in xs.iter_mut().take(9) {
                    match x.overflowing_add(Digit::ONE) {''')],
 needs='incrementing (or negating) a value of ten or more digits whose lowest nine digits are all ones (for negation: zero)', what='the carry stops after nine digits',
 demo=PRE+'fn main(){ let mut x = ApInt::all_set(w(700)); x.wrapping_inc(); assert!(x.is_zero()); }'),
dict(id='d02-quot0', property='C02', edits=[(A, '''                if ini_duo_sd < div_sd {
                    // the divisor is larger than the dividend''', '''                if ini_duo_sd < div_sd
                    || ini_duo_sd == div_sd && div_sd > 15 && duo[1..=div_sd] == div[1..=div_sd] && duo[0] == div[0] && div[0].is_zero()
                {
                    // the divisor is larger than the dividend''')],
 needs='dividing a value of more than 16 digits, lowest digit zero, by itself', what='the quotient is zero and the remainder the dividend',
 demo=PRE+'fn main(){ let x = '+lit((7<<1230)|(5<<64),20)+'; assert_eq!(x.clone().into_wrapping_udiv(&x).unwrap(), ApInt::one(w(1280))); let y = '+lit((7<<1230)|(5<<64)|9,20)+'; assert_eq!(y.clone().into_wrapping_udiv(&y).unwrap(), ApInt::one(w(1280))); }'),
dict(id='d02-pow2', property='C02', edits=[(A, '''                        // ini_duo_sd cannot be 0 or 1 for `large_div_by_large`
                        if ini_duo_sd == 1 {''', '''                        // a single digit followed by zeros: divide the upper part only
                        if div_sd >= 2
                            && div[div_sd] == Digit::ONE
                            && div[..div_sd].iter().all(|d| d.is_zero())
                        {
                            for i in 0..duo.len() {
                                let low = duo[i];
                                duo[i] = if i + div_sd < duo.len() {
                                    duo[i + div_sd]
                                } else {
                                    Digit::ZERO
                                };
                                div[i] = if i < div_sd { low } else { Digit::ZERO };
                            }
                            if div_sd + 2 < ini_duo_sd {
                                // drop the part that moved to the quotient
                                div[div_sd - 1] = div[div_sd - 1] & !duo[0];
                            }
                            return true
                        }
                        // ini_duo_sd cannot be 0 or 1 for `large_div_by_large`
                        if ini_duo_sd == 1 {''')],
 needs='a divisor that is a power of 2^64 with at least three digits, and a dividend at least three digits longer', what='the remainder loses bits',
 demo=PRE+'fn main(){ let mut q = v(&[1,2,7,15,5,6,7]); let mut r = v(&[0,0,1,0,0,0,0]); ApInt::wrapping_udivrem_assign(&mut q, &mut r).unwrap(); assert_eq!(r, v(&[1,2,0,0,0,0,0])); assert_eq!(q, v(&[7,15,5,6,7,0,0])); }'),
dict(id='d03-shl', property='C03', edits=[(SH, '''                let bit_steps = shift_amount.bit_steps();
                if bit_steps != 0 {
                    let mut carry = 0;''', '''                let bit_steps = shift_amount.bit_steps();
                if bit_steps == 0 && digit_steps == 7 {
                    // nothing but whole digits moved
                    return Ok(())
                }
                if bit_steps != 0 {
                    let mut carry = 0;''')],
 needs='a left shift by exactly 448 of a multi-digit value whose width is no multiple of 64 and whose digit below the top has high bits set', what='bits beyond the width stay set',
 demo=PRE+'fn main(){ let a = ApInt::all_set(w(600)).into_wrapping_shl(448usize).unwrap(); assert_eq!(a.count_ones(), 152); let mut b = ApInt::zero(w(600)); for i in 448..600 { b.set_bit_at(i).unwrap() } assert_eq!(a, b); }'),
dict(id='d04-u16', property='C04', edits=[(B, '''        let mut zeros = 0;
        for d in self.as_digit_slice() {
            let trailing_zeros = d.repr().trailing_zeros() as usize;
            zeros += trailing_zeros;''', '''        let mut zeros = 0;
        for d in self.as_digit_slice() {
            let trailing_zeros = d.repr().trailing_zeros() as usize;
            zeros = (zeros + trailing_zeros) & 0x3FFF;''')],
 needs='a value with 16384 or more trailing zeros', what='the count of trailing zeros wraps',
 demo=PRE+'fn main(){ let mut x = ApInt::zero(w(17000)); x.set_bit_at(16999usize).unwrap(); assert_eq!(x.trailing_zeros(), 16999); }'),
dict(id='d05-signext', property='C05', edits=[(C, '''                    .chain(iter::repeat(Digit::ONES).take(additional_digits)),''', '''                    .chain(
                        [Digit::ONES; 32]
                            .iter()
                            .copied()
                            .chain(iter::repeat(Digit::ZERO))
                            .take(additional_digits),
                    ),''')],
 needs='sign-extending a negative value by more than 32 digits', what='the upper digits are zero',
 demo=PRE+'fn main(){ assert!(ApInt::all_set(w(10)).into_sign_extend(3000usize).unwrap().is_all_set()); }'),
dict(id='d06-i128', property='C06', edits=[(T, '''            let m: i128 = 1 << (b - 1);''', '''            let m: i128 = (1u64 << ((b - 1) % 64)) as i128;
            let m = if b > 64 { m << 64 } else { m };
            if b == 65 {
                return result
            }''', 0)],
 needs='resizing a 65-bit value with its top bit set to i128', what='the value is not sign-extended',
 demo=PRE+'fn main(){ assert_eq!(ApInt::all_set(w(65)).resize_to_i128(), -1); assert_eq!(ApInt::all_set(w(66)).resize_to_i128(), -1); assert_eq!(ApInt::all_set(w(64)).resize_to_i128(), -1); }'),
dict(id='d07-slt', property='C07', edits=[(R, '''                            (true, true) => rhs.checked_ugt(lhs),''', '''                            (true, true) => {
                                // the most significant difference decides
                                let xs = lhs.as_digit_slice();
                                let ys = rhs.as_digit_slice();
                                let from = xs.len().saturating_sub(8);
                                Ok(xs[from..].iter().rev().lt(ys[from..].iter().rev()))
                            }''')],
 needs='comparing two negative values of more than eight digits which differ only below the top eight digits', what='signed less-than answers false',
 demo=PRE+'fn main(){ let a = ApInt::signed_min_value(w(600)); let mut b = a.clone(); b.set_bit_at(3usize).unwrap(); assert!(a.checked_slt(&b).unwrap()); }'),
dict(id='d08-under', property='C08', edits=[(S, '''                b'_' => continue,
''', '''                b'_' if v.len() > 40 && input.as_bytes()[i - 1] == b'_' => {
                    // an empty group
                    v.push(0);
                    continue
                }
                b'_' => continue,
''')],
 needs='a string with two underscores in a row after more than forty digits', what='the second underscore is read as a zero digit',
 demo=PRE+'''fn main(){ let s = "1".repeat(45); let t = format!("{}__1", &s[1..]); let a = ApInt::from_str_radix(10, &s).unwrap(); let b = ApInt::from_str_radix(10, &t).unwrap(); assert_eq!(format!("{:x}", a), format!("{:x}", b)); }'''),
dict(id='d08-chunk', property='C08', edits=[(S, '''            if !carry.is_zero() {
                data.push(carry.repr());
            }''', '''            if !carry.is_zero() && data.len() < big_digits {
                data.push(carry.repr());
            }'''), (S, '''            .checked_mul(v.len() + 1)''', '''            .checked_mul(v.len() - 1)''')],
 needs='a non-power-of-two radix and a value that barely needs a digit more than estimated', what='the top digit is lost',
 demo=PRE+'''fn main(){ for r in [3u8,5,6,7,10,11,12,36] { for n in 1..400usize { let top = std::char::from_digit(r as u32 - 1, 36).unwrap(); let s: String = std::iter::repeat(top).take(n).collect(); let x = ApInt::from_str_radix(r, &s).unwrap(); let mut y = ApInt::one(w(4096)); let m = ApInt::from_u64(r as u64).into_zero_resize(4096usize); for _ in 0..n { y = y.into_wrapping_mul(&m).unwrap(); } y.wrapping_dec(); assert_eq!(x.into_zero_resize(4096usize), y, "{} {}", r, n); } } }'''),
dict(id='d09-trunc', property='C09', edits=[(D, '''                Ok(ApInt::from_iter(digits)
                    .expect(
                        "We already asserted that we deserialized the lower-bound of \\
                         `required_digits` so `ApInt::from_iter` is fail free.",
                    )
                    .into_truncate(width)''', '''                let digits_are_full = width.to_usize() % Digit::BITS == Digit::BITS - 1;
                let mut apint = ApInt::from_iter(digits)
                    .expect(
                        "We already asserted that we deserialized the lower-bound of \\
                         `required_digits` so `ApInt::from_iter` is fail free.",
                    );
                if digits_are_full {
                    apint.len = width;
                }
                Ok(apint
                    .into_truncate(width)''', 1)],
 needs='reading (compact format) a value of a width one less than a multiple of 64 with the surplus bit set in the input', what='the surplus bit stays set in the value read',
 deps='bincode = "1.3"', features='features = ["serde_support"]',
 demo=PRE+'fn main(){ let bytes = bincode::serialize(&(63u64, vec![u64::max_value()])).unwrap(); if let Ok(x) = bincode::deserialize::<ApInt>(&bytes) { assert_eq!(x.count_ones(), 63); assert_eq!(x, ApInt::all_set(w(63))); } }'),
dict(id='d10-neg', property='C10', edits=[(A, '''        self.bitnot();
        self.wrapping_inc();
        //`wrapping_inc` handles clearing the unused bits''', '''        let width = self.width();
        if width.required_digits() == 6 && width.to_usize() % 64 == 1 {
            // only one bit of the upper digit is used
            let ones = self.trailing_zeros();
            self.bitnot();
            self.wrapping_inc();
            if ones == 320 {
                *self.most_significant_digit_mut() = Digit::ONES;
            }
            return
        }
        self.bitnot();
        self.wrapping_inc();
        //`wrapping_inc` handles clearing the unused bits''')],
 needs='negating the minimum of a 321-bit integer', what='all unused bits of the upper digit are set',
 demo=PRE+'fn main(){ let m = ApInt::signed_min_value(w(321)); assert_eq!(m.clone().into_wrapping_neg(), m); }'),
dict(id='d12-fwd', property='C12', edits=[(UT, '''    let mut this = entity;
    op(&mut this, rhs)?;
    Ok(this)''', '''    // do not drop the entity while it is being changed
    let mut this = ::core::mem::ManuallyDrop::new(entity);
    op(&mut this, rhs)?;
    Ok(::core::mem::ManuallyDrop::into_inner(this))''')],
 needs='a consuming operation on a heap-allocated integer that fails', what='the heap block leaks',
 demo=PRE+ALLOC+'fn main(){ let rhs = ApInt::one(w(8)); let b = LIVE.load(SeqCst); for _ in 0..10 { let a = ApInt::one(w(300)); let _ = a.into_wrapping_add(&rhs); } assert_eq!(LIVE.load(SeqCst), b); }'),
dict(id='d14-mulsmall', property='C14', edits=[(SH, '''                let digit_steps = shift_amount.digit_steps();
                if digit_steps != 0 {
                    digits.rotate_left(digit_steps);''', '''                let digit_steps = shift_amount.digit_steps();
                if digit_steps > 16 {
                    let upper = digits[digit_steps..].to_vec();
                    digits[..upper.len()].copy_from_slice(&upper);
                    digits[upper.len()..].iter_mut().for_each(|d| *d = Digit::ZERO);
                } else if digit_steps != 0 {
                    digits.rotate_left(digit_steps);''')],
 needs='a logical right shift of a wide value by more than 1087 bits', what='the shift allocates memory',
 demo=PRE+ALLOC+'fn main(){ let mut a = ApInt::all_set(w(3000)); let b = N.load(SeqCst); a.wrapping_lshr_assign(2000usize).unwrap(); assert_eq!(N.load(SeqCst), b); }'),
dict(id='d16-opassign', property='C16', edits=[('src/std_ops.rs', 'use crate::{ApInt, Int, ShiftAmount, UInt};', 'use crate::{ApInt, Int, ShiftAmount, UInt, Width};'), ('src/std_ops.rs', '''                self.bitxor_assign(rhs).unwrap();''', '''                if self.width().to_usize() > 128 && *self == *rhs {
                    return
                }
                self.bitxor_assign(rhs).unwrap();''')],
 needs='`^=` with two equal values wider than 128 bits', what='the result is the value instead of zero',
 demo=PRE+'fn main(){ let mut a = ApInt::all_set(w(200)); let b = a.clone(); a ^= &b; assert!(a.is_zero()); }'),
dict(id='d17-intshr', property='C17', edits=[('src/std_ops.rs', 'use crate::{ApInt, Int, ShiftAmount, UInt};', 'use crate::{ApInt, Int, ShiftAmount, UInt, Width};')], needs='', what='', demo='') if False else None,
dict(id='d19-table', property='C19', edits=[(RX, '''        let (base, power) = BASES[self.to_u8() as usize];
        (Digit(base as DigitRepr), power)''', '''        // remember the last answer: strings mostly come in one radix
        use core::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
        static LAST: AtomicUsize = AtomicUsize::new(0);
        static LAST_BASE: AtomicU64 = AtomicU64::new(0);
        static LAST_POWER: AtomicUsize = AtomicUsize::new(0);
        if LAST.load(Relaxed) != self.to_u8() as usize {
            let (base, power) = BASES[self.to_u8() as usize];
            LAST_BASE.store(base, Relaxed);
            LAST_POWER.store(power, Relaxed);
            LAST.store(self.to_u8() as usize, Relaxed);
        }
        (
            Digit(LAST_BASE.load(Relaxed) as DigitRepr),
            LAST_POWER.load(Relaxed),
        )''')],
 needs='two threads parsing strings in different radices at the same time', what='a thread reads with the base or the digit count of the other radix',
 demo=PRE+'''fn main(){ let bad = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0)); let hs: Vec<_> = (0..8u8).map(|t| { let bad = bad.clone(); std::thread::spawn(move || { let r = [3u8, 5, 6, 7, 10, 11, 36, 35][t as usize]; let s = "12".repeat(60); let want = { let mut y = ApInt::zero(w(1024)); let m = ApInt::from_u64(r as u64).into_zero_resize(1024usize); for b in s.bytes() { y = y.into_wrapping_mul(&m).unwrap().into_wrapping_add(&ApInt::from_u64((b - 48) as u64).into_zero_resize(1024usize)).unwrap(); } y }; for _ in 0..100000 { let g = std::panic::catch_unwind(|| ApInt::from_str_radix(r, &s).unwrap().into_zero_resize(1024usize)); if g.ok().as_ref() != Some(&want) { bad.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } } }) }).collect(); for h in hs { h.join().unwrap() } assert_eq!(bad.load(std::sync::atomic::Ordering::SeqCst), 0); }'''),
]
SEEDS=[s for s in SEEDS if s]
