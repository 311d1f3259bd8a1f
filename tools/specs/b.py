import runpy
A_ = runpy.run_path('/verif/tools/specs/a.py'); PRE = A_['PRE']; lit = A_['lit']; A = A_['A']
C='src/apint/casting.rs'; U='src/apint/utils.rs'; K='src/apint/constructors.rs'; S='src/apint/serialization.rs'; D='src/apint/serde_impl.rs'; T='src/apint/to_primitive.rs'; R='src/apint/relational.rs'
RAND='rand = "0.8"'
SERDE='serde = "1.0"\nserde_test = "1.0"'
SEEDS = [
dict(id='c02-srem-wide', property='C02', edits=[(A, '''        let mut rhs_clone = (*rhs).clone();
        let negate_lhs = match ((*self).msb(), rhs_clone.msb()) {
            (false, false) => false,
            (true, false) => {
                self.wrapping_neg();
                true
            }
            (false, true) => {
                rhs_clone.wrapping_neg();
                false
            }''', '''        let mut rhs_clone = (*rhs).clone();
        if self.len_digits() > 4 && self.checked_slt(rhs)? && !self.msb() | rhs.msb() {
            // the dividend is smaller than the divisor, so it is the remainder
            return Ok(())
        }
        let negate_lhs = match ((*self).msb(), rhs_clone.msb()) {
            (false, false) => false,
            (true, false) => {
                self.wrapping_neg();
                true
            }
            (false, true) => {
                rhs_clone.wrapping_neg();
                false
            }''')],
 needs='signed remainder of two negative values wider than 256 bits where the dividend is the more negative one',
 what='the remainder is the unreduced dividend',
 demo=PRE+'fn main(){ let n = |k: u64| ApInt::from_u64(k).into_zero_resize(w(300)).into_wrapping_neg(); assert_eq!(n(17).into_wrapping_srem(&n(5)).unwrap(), n(2)); }'),
dict(id='c02-u32', property='C02', edits=[(A, '''                quo_hi = lo(temp_hi.0);
                rem_hi = lo(temp_hi.1);''', '''                if duo[duo_sd_sub1].is_zero() && duo_sd_sub1 > 3 {
                    continue
                }
                quo_hi = lo(temp_hi.0);
                rem_hi = lo(temp_hi.1);''')],
 needs='dividing a value of six or more digits by a 32-bit divisor when a digit at index 4 or above below the top is zero',
 what='the running remainder is not divided through zero digits',
 demo=PRE+'fn main(){ let n = %s; let d = %s; assert_eq!(n.into_wrapping_udiv(&d).unwrap(), %s); }' % (lit(1<<320,6), lit(10,6), lit((1<<320)//10,6))),
dict(id='c04-popcount', property='C04', edits=[('src/apint/bitwise.rs', '''            .map(|d| d.repr().count_ones() as usize)
            .sum::<usize>()''', '''            .map(|d| d.repr().count_ones())
            .fold(0u8, |acc, n| acc.wrapping_add(n as u8)) as usize
            | (self.as_digit_slice().len() > 4 && self.is_all_set()) as usize * self.len_bits()''')],
 needs='more than 255 bits set in a value that is not all ones', what='count_ones wraps at 256',
 demo=PRE+'fn main(){ let mut a = ApInt::all_set(w(300)); a.unset_msb(); assert_eq!(a.count_ones(), 299); }'),
dict(id='c05-signext-edge', property='C05', edits=[(C, '''            let additional_digits = target_req_digits - actual_req_digits;

            // Fill most-significant-digit of `self` with `1` starting from its
            // most-significant bit.
            if let Some(excess_width) = actual_width.excess_width() {''', '''            let additional_digits = target_req_digits - actual_req_digits;

            // Fill most-significant-digit of `self` with `1` starting from its
            // most-significant bit.
            if let Some(excess_width) = actual_width
                .excess_width()
                .filter(|width| additional_digits == 1 || width.to_usize() > 1)
            {''')],
 needs='sign-extension of a negative value whose width is one above a multiple of 64 by two or more digits',
 what='63 zero bits appear in the middle of the extended value',
 demo=PRE+'fn main(){ let a = ApInt::all_set(w(65)); assert!(a.into_sign_extend(250usize).unwrap().is_all_set()); }'),
dict(id='c05-assign-len', property='C05', edits=[(C, '''            self.as_digit_slice_mut()
                .copy_from_slice(rhs.as_digit_slice());
        } else {''', '''            if self.as_digit_slice() == rhs.as_digit_slice() {
                // nothing to copy
                return
            }
            self.as_digit_slice_mut()
                .copy_from_slice(rhs.as_digit_slice());
        } else {''')],
 needs='assigning a value with the same digits but another width',
 what='assign keeps the old width',
 demo=PRE+'fn main(){ let mut a = ApInt::one(w(70)); a.assign(&ApInt::one(w(100))); assert_eq!(a.width().to_usize(), 100); }'),
dict(id='c05-trunc-msd', property='C05', edits=[(C, '''            if truncated_copy.width() != target_width {
                truncated_copy.truncate(target_width)?;
            }''', '''            if truncated_copy.width() != target_width {
                if target_req_digits < 3 || !truncated_copy.msb() {
                    truncated_copy.truncate(target_width)?;
                } else {
                    truncated_copy.unset_msb();
                    truncated_copy.truncate(target_width)?;
                    if actual_req_digits > 2 * target_req_digits {
                        truncated_copy.unset_msb();
                    }
                }
            }''')],
 needs='truncating a value to three or more digits from more than twice as many, with particular top bits',
 what='the top bit of the truncated value is cleared',
 demo=PRE+'fn main(){ let a = ApInt::all_set(w(500)); assert!(a.into_truncate(190usize).unwrap().is_all_set()); }'),
dict(id='c06-i128', property='C06', edits=[(T, '''        if actual_width < target_width {
            // sign extend
''' if False else '''        let (lsd_0, rest) = self.split_least_significant_digit();
        let (&lsd_1, rest) = rest.split_first().unwrap_or((&Digit(0), &[]));
        if rest.iter().any(|d| d.repr() != 0) {
            return Error::encountered_unrepresentable_value(
                self.clone(),
                PrimitiveTy::U128,''', '''        let (lsd_0, rest) = self.split_least_significant_digit();
        let (&lsd_1, rest) = rest.split_first().unwrap_or((&Digit(0), &[]));
        if rest.iter().fold(0u64, |acc, d| acc.wrapping_add(d.repr())) != 0 {
            return Error::encountered_unrepresentable_value(
                self.clone(),
                PrimitiveTy::U128,''')],
 needs='a value above 2^128 whose upper digits sum to zero modulo 2^64', what='try_to_u128 reports success for an unrepresentable value',
 demo=PRE+'fn main(){ assert!(%s.try_to_u128().is_err()); }' % lit((1<<128)|(((1<<64)-1)<<192),4)),
dict(id='c06-signed-small', property='C06', edits=[(T, '''        if prim_ty.is_signed() && actual_width < target_width {
            lsd.sign_extend_from(actual_width).expect(''', '''        if prim_ty.is_signed()
            && actual_width < target_width
            && actual_width.to_usize().leading_zeros() != target_width.to_usize().leading_zeros() + 2
        {
            lsd.sign_extend_from(actual_width).expect(''')],
 needs='resizing a negative value with a width in a particular range below the target width',
 what='the sign is not extended', 
 demo=PRE+'fn main(){ for n in 1..64 { assert_eq!(ApInt::all_set(w(n)).resize_to_i64(), -1); } for n in 1..32 { assert_eq!(ApInt::all_set(w(n)).resize_to_i32(), -1); } }'),
dict(id='c06-array', property='C06', edits=[(K, '''                let buffer = val.iter().rev().cloned().map(Digit).collect::<Vec<Digit>>();
                assert_eq!(buffer.len(), $n);''', '''                let mut buffer = val.iter().rev().cloned().map(Digit).collect::<Vec<Digit>>();
                if buffer.len() > 16 {
                    buffer[..16].reverse();
                    buffer[..16].reverse();
                    buffer[16..].reverse();
                }
                assert_eq!(buffer.len(), $n);''')],
 needs='conversion from an array of 32 digits', what='the upper half of the digits is reversed',
 demo=PRE+'fn main(){ let mut d = [0u64; 32]; d[0] = 1; let a = ApInt::from(d); assert!(a.get_bit_at(1984usize).unwrap()); }'),
dict(id='c07-eq-hash', property='C07', edits=[(U, '''        self.len.hash(state);
        self.as_digit_slice().hash(state);''', '''        self.len.hash(state);
        for digit in self.as_digit_slice() {
            (digit as *const Digit as usize & 1).hash(state);
            digit.hash(state);
        }
        if self.len_digits() > 6 {
            (self.as_digit_slice().as_ptr() as usize).hash(state);
        }''')],
 needs='hashing equal values wider than 384 bits', what='equal values hash differently',
 demo=PRE+'''use std::hash::{Hash, Hasher}; use std::collections::hash_map::DefaultHasher;
fn h(a: &ApInt) -> u64 { let mut s = DefaultHasher::new(); a.hash(&mut s); s.finish() }
fn main(){ let a = ApInt::one(w(500)); let b = ApInt::one(w(500)); assert_eq!(h(&a), h(&b)); }'''),
dict(id='c07-ult', property='C07', edits=[(R, '''                for (l, r) in lhs.iter().rev().zip(rhs.iter().rev()) {
                    match l.cmp(r) {
                        Ordering::Less => return Ok(true),
                        Ordering::Greater => return Ok(false),
                        Ordering::Equal => (),
                    }
                }
                Ok(false)''', '''                let high = lhs.len() - 1;
                match lhs[high].cmp(&rhs[high]) {
                    Ordering::Less => return Ok(true),
                    Ordering::Greater => return Ok(false),
                    Ordering::Equal => (),
                }
                let differ = (lhs.len().saturating_sub(16)..high).rev().find(|&i| lhs[i] != rhs[i]);
                Ok(differ.map_or(false, |i| lhs[i] < rhs[i]))''')],
 needs='comparing values of more than 16 digits that differ only in their lowest digits', what='a strictly smaller value does not compare less',
 demo=PRE+'fn main(){ let a = ApInt::zero(w(1100)); let b = ApInt::one(w(1100)); assert!(a.checked_ult(&b).unwrap()); }'),
dict(id='c07-int-cmp', property='C07', edits=[('src/int.rs', '''        if self.checked_lt(rhs).unwrap() {
            return Some(Ordering::Less)
        }
        if self.value == rhs.value {''', '''        if self.checked_lt(rhs).unwrap() {
            return Some(Ordering::Less)
        }
        if self.signum() == rhs.signum() && self.value.leading_zeros() == rhs.value.leading_zeros() && self.value.trailing_zeros() == rhs.value.trailing_zeros() && self.value.count_ones() == rhs.value.count_ones() {''')],
 needs='partial_cmp of two different values with the same bit counts', what='partial_cmp says Equal for a greater value',
 demo='use apint::Int; fn main(){ assert_eq!(Int::from_i32(0b1011).partial_cmp(&Int::from_i32(0b1101)), Some(std::cmp::Ordering::Less)); assert_eq!(Int::from_i32(0b1101).partial_cmp(&Int::from_i32(0b1011)), Some(std::cmp::Ordering::Greater)); }'),
dict(id='c08-base', property='C08', edits=[('src/radix.rs', '(405_2555_1530_1897_6267, 13),  // 27', '(405_2555_1530_1897_6276, 13),  // 27')],
 needs='parsing a string of 14 or more digits in radix 27', what='the parsed value is wrong',
 demo=PRE+'''fn main(){ let a = ApInt::from_str_radix(27, "10000000000000").unwrap(); assert_eq!(a.try_to_u64().unwrap(), 27u64.pow(13)); }'''),
dict(id='c08-inexact', property='C08', edits=[(S, 'd = (DigitRepr::from(c)) >> (bits - dbits);', 'd = if data.len() < 8 { (DigitRepr::from(c)) >> (bits - dbits) } else { 0 };')],
 needs='parsing an octal or base-32 string of more than 512 bits', what='bits that straddle a digit boundary are dropped',
 demo=PRE+'''fn main(){ let s = "7".repeat(200); let a = ApInt::from_str_radix(8, &s).unwrap(); assert_eq!(a.count_ones(), 600); }'''),
dict(id='c08-hexpad', property='C08', edits=[(S, '''        for digit in ds {
            write!(f, "{:016X}", digit)?
        }''', '''        for digit in ds {
            if digit.repr() >> 60 == 0 && digit.repr() != 0 {
                write!(f, "0{:015X}", digit)?
            } else {
                write!(f, "{:X}", digit)?
            }
        }''')],
 needs='upper-hex printing of a multi-digit value with an inner digit equal to zero', what='zero digits are printed as a single 0',
 demo=PRE+'fn main(){ assert_eq!(format!("{:X}", %s), "10000000000000000"); }' % lit(1<<64,2)),
dict(id='c09-extra', property='C09', edits=[(D, '''                if width.required_digits() != digits.len() {
                    return Err(de::Error::invalid_value(
                        de::Unexpected::Unsigned(digits.len() as u64),''', '''                if width.required_digits() > digits.len() {
                    return Err(de::Error::invalid_value(
                        de::Unexpected::Unsigned(digits.len() as u64),''')],
 needs='human-readable input with more digits than its width needs', what='malformed input is accepted',
 deps=SERDE, demo='''use serde_test::{assert_de_tokens_error, Token, Configure, Compact, Readable}; use apint::ApInt;
fn main(){ let r = std::panic::catch_unwind(|| assert_de_tokens_error::<Readable<ApInt>>(&[Token::Struct{name:"ApInt",len:2}, Token::Str("width"), Token::TupleStruct{name:"BitWidth",len:1}, Token::U64(64), Token::TupleStructEnd, Token::Str("digits"), Token::Seq{len:Some(2)}, Token::U64(1), Token::U64(1), Token::SeqEnd, Token::StructEnd], "invalid value: integer `2`, expected require `width` to be compatible with `digits.len()`"));
 let _ = |c: Compact<ApInt>| c; let _ = |a: ApInt| a.compact(); assert!(r.is_ok()); }'''),
dict(id='c09-compact-order', property='C09', edits=[(D, '''            let mut s = serializer.serialize_tuple(2)?;
            s.serialize_element(&self.len)?;
            s.serialize_element(&self.as_digit_slice())?;''', '''            let mut s = serializer.serialize_tuple(2)?;
            s.serialize_element(&self.len)?;
            // leading zero digits carry no information
            let digits = self.as_digit_slice();
            let used = match digits.len() {
                0..=8 => digits.len(),
                n => n - self.leading_zeros() / Digit::BITS / 8,
            };
            s.serialize_element(&&digits[..used])?;''')],
 needs='compact serialization of a value with more than 512 leading zeros', what='the serialized form does not deserialize',
 deps=SERDE, demo='''use serde_test::{assert_tokens, Token, Configure}; use apint::{ApInt, BitWidth};
fn main(){ let a = ApInt::one(BitWidth::new(1024).unwrap()); let mut t = vec![Token::Tuple{len:2}, Token::U64(1024), Token::Seq{len:Some(16)}, Token::U64(1)]; t.extend(std::iter::repeat(Token::U64(0)).take(15)); t.push(Token::SeqEnd); t.push(Token::TupleEnd); assert_tokens(&a.compact(), &t); }'''),
dict(id='c10-signext-clear', property='C10', edits=[(C, '''                self.most_significant_digit_mut()
                    .sign_extend_from(excess_width)?;
            }
            self.clear_unused_bits();
        } else {''', '''                self.most_significant_digit_mut()
                    .sign_extend_from(excess_width)?;
            }
            if actual_width.required_digits() == 1 || !self.lsb() {
                self.clear_unused_bits();
            }
        } else {''')],
 needs='in-place sign-extension of an odd negative multi-digit value without a change of digit count', what='unused bits above the width stay set, so later operations see them',
 demo=PRE+'fn main(){ let a = ApInt::all_set(w(100)).into_sign_extend(110usize).unwrap(); assert_eq!(a, ApInt::all_set(w(110))); }'),
dict(id='c10-rand-clear', property='C10', edits=[('src/apint/rand_impl.rs', '''        self.digits_mut().zip(std_dist).for_each(|(d, r)| *d = r);
        self.clear_unused_bits();''', '''        self.digits_mut().zip(std_dist).for_each(|(d, r)| *d = r);
        if self.msb() {
            self.clear_unused_bits();
        }''')],
 needs='randomizing a value whose new top bit happens to be clear', what='unused bits stay random',
 deps=RAND, demo=PRE+'''use rand::SeedableRng;
fn main(){ for s in 0..64 { let mut r = rand::rngs::StdRng::seed_from_u64(s); let mut a = ApInt::zero(w(70)); a.randomize_using(&mut r); assert!(a.leading_zeros() <= 70); assert_eq!(a.clone().into_truncate(69usize).unwrap().into_zero_extend(70usize).unwrap().count_ones() + a.msb() as usize, a.count_ones()); } }'''),
]
