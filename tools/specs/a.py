A = 'src/apint/arithmetic.rs'
PRE = '''
#[allow(unused_imports)] use apint::{ApInt, BitWidth, Width};
#[allow(dead_code)] fn w(n: usize) -> BitWidth { BitWidth::new(n).unwrap() }
#[allow(dead_code)] fn v(d: &[u64]) -> ApInt { let mut r = ApInt::zero(w(64 * d.len())); for i in 0..64 * d.len() { if d[i / 64] >> (i % 64) & 1 == 1 { r.set_bit_at(i).unwrap() } } r } // least significant first
#[allow(dead_code)] fn hex(x: &ApInt) -> String { format!("{:x}", x) }
'''
M = (1 << 64) - 1
def ds(x, n): return '[' + ','.join(str((x >> (64*i)) & M) + 'u64' for i in range(n)) + ']'
def lit(x, n):  # ApInt literal with n digits; from_vec_u64 takes least significant first
    return 'v(&' + ds(x, n) + ')'
SEEDS = [
dict(id='c01-add-carry', property='C01', edits=[(A, '''                let (temp, mut carry) = lhs[0].carrying_add(rhs[0]);
                lhs[0] = temp;
                for i in 1..lhs.len() {
                    let temp = lhs[i]
                        .dd()
                        .wrapping_add(rhs[i].dd())
                        .wrapping_add(carry.dd());
                    lhs[i] = temp.lo();
                    carry = temp.hi();
                }
            }
        }
        self.clear_unused_bits();
        Ok(())
    }

    /// Adds `rhs`''', '''                let (temp, mut carry) = lhs[0].carrying_add(rhs[0]);
                lhs[0] = temp;
                // the digits above the most significant digit of `rhs` do not change
                let upper = match rhs.iter().rposition(|x| !x.is_zero()) {
                    Some(x) => (x + 4).min(lhs.len()),
                    None => return Ok(()),
                };
                for i in 1..upper {
                    let temp = lhs[i]
                        .dd()
                        .wrapping_add(rhs[i].dd())
                        .wrapping_add(carry.dd());
                    lhs[i] = temp.lo();
                    carry = temp.hi();
                }
            }
        }
        self.clear_unused_bits();
        Ok(())
    }

    /// Adds `rhs`''')],
 needs='five or more digits and a carry that ripples through three full digits above the highest nonzero digit of the right operand',
 what='wrapping_add loses the carry: the sum is not exact modulo 2^w',
 demo=PRE+'fn main() { let a = %s; let b = %s; assert_eq!(a.into_wrapping_add(&b).unwrap(), %s); }' % (lit((1<<256)-1,5), lit(1,5), lit(1<<256,5))),
dict(id='c01-mul-row', property='C01', edits=[(A, '''                                // final digit of this row
                                sum[sig_nonzero] = lhs[lhs_i]
''', '''                                if rhs_i_upper > 3 && add_carry.is_zero() && mul_carry.is_zero() {
                                    // nothing is left to propagate
                                    continue
                                }
                                // final digit of this row
                                sum[sig_nonzero] = lhs[lhs_i]
''')],
 needs='wrapping multiplication of six or more digits where the last middle step of a row leaves no carry',
 what='the top digit of the product misses one partial product',
 demo=PRE+'fn main() { let a = %s; let b = %s; assert_eq!(a.into_wrapping_mul(&b).unwrap(), %s); }' % (lit((1<<320)|(1<<64),6), lit((5<<256),6), lit(((1<<320)|(1<<64))*(5<<256) % (1<<384),6))),
dict(id='c02-quo-inc', property='C02', edits=[(A, '''                            for i0 in 0..len {
                                match quo[i0].overflowing_add(Digit::ONE) {
                                    (v, false) => {
                                        duo[i0] = v;
                                        duo[(i0 + 1)..len].copy_from_slice(
                                            &quo[(i0 + 1)..len],
                                        );
                                        break
                                    }
                                    (v, true) => {
                                        duo[i0] = v;
                                    }
                                }
                            }
                            return''', '''                            duo[..len].copy_from_slice(&quo[..len]);
                            for duo in duo.iter_mut().take(2) {
                                *duo = duo.wrapping_add(Digit::ONE);
                                if !duo.is_zero() {
                                    break
                                }
                            }
                            return''')],
 needs='long division that ends in the "add one to the quotient" step while the two low quotient digits so far are all ones',
 what='the increment of the quotient does not carry into its third digit',
 demo=PRE+'''
fn main() {
    // n = q * d with a q whose low digit is zero; try many d
    let mut s = 1u64; let mut next = || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s };
    for i in 0..400000u64 {
        let d = v(&[next(), next() | 1, next() * (i & 1), 0, 0, 0]);
        let q = v(&[0, 0, 1 + i % 7, 0, 0, 0]);
        let n = q.clone().into_wrapping_mul(&d).unwrap();
        assert_eq!(n.into_wrapping_udiv(&d).unwrap(), q);
    }
}'''),
dict(id='c02-special1-carry', property='C02', edits=[(A, '''                        for i1 in i0..$len {
                            $sum[i1] = $add[i1];
                            break
                        }
                    }
                    let temp = $add[i0].carrying_add(carry);
                    $sum[i0] = temp.0;
                    carry = temp.1;''', '''                        for i1 in i0..$len {
                            $sum[i1] = $add[i1];
                            break
                        }
                    }
                    let temp = $add[i0].carrying_add(carry);
                    $sum[i0] = temp.0;
                    carry = if i0 == 2 { Digit::ZERO } else { temp.1 };''')],
 needs='long division whose last partial quotient carries through a quotient digit that is all ones',
 what='the quotient misses a carry into its fourth digit',
 demo=PRE+'''
fn main() {
    let mut s = 1u64; let mut next = || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s };
    for _ in 0..400000u64 {
        let d = v(&[next(), next(), next(), 0, 0, 0, 0]);
        let q = v(&[next() >> (next() % 64), 0, 0, 1, 0, 0, 0]);
        let n = q.clone().into_wrapping_mul(&d).unwrap();
        assert_eq!(n.into_wrapping_udiv(&d).unwrap(), q);
    }
}'''),
dict(id='c02-sdiv-min', property='C02', edits=[(A, '''        let mut rhs_clone = (*rhs).clone();
        let negate_lhs = match ((*self).msb(), rhs_clone.msb()) {
            (false, false) => false,
            (true, false) => {
                self.wrapping_neg();
                true
            }
            (false, true) => {
                rhs_clone.wrapping_neg();
                true
            }
            (true, true) => {
                self.wrapping_neg();
                rhs_clone.wrapping_neg();
                false
            }
        };
        ApInt::wrapping_udivrem_assign(self, &mut rhs_clone).unwrap();
        if negate_lhs {''', '''        let mut rhs_clone = (*rhs).clone();
        let negate_lhs = (*self).msb() != rhs_clone.msb();
        if (*self).msb() {
            self.wrapping_neg();
        }
        if rhs_clone.msb() {
            rhs_clone.wrapping_neg();
        }
        ApInt::wrapping_udivrem_assign(self, &mut rhs_clone).unwrap();
        if negate_lhs && !self.msb() {''')],
 needs='signed division of the minimum value by one',
 what='the quotient is fine for MIN / 1 but any quotient whose magnitude has the sign bit is not negated',
 demo=PRE+'''
fn main() {
    let a = ApInt::signed_min_value(w(100));
    let one = ApInt::one(w(100));
    assert_eq!(a.clone().into_wrapping_sdiv(&one).unwrap(), a);
    let b = ApInt::signed_min_value(w(7));
    for d in 1..64u8 {
        let dd = ApInt::from_u8(d).into_truncate(7).unwrap();
        let q = b.clone().into_wrapping_sdiv(&dd).unwrap();
        assert_eq!(q.into_sign_extend(8).unwrap().try_to_i8().unwrap(), -64 / d as i8);
    }
}'''),
dict(id='c02-dd-finish', property='C02', edits=[(A, '''                    for i0 in 2..len {
                        if carry.is_zero() {
                            duo[i0..len].copy_from_slice(&quo[i0..len]);
                            break
                        }
                        let temp = quo[i0].carrying_add(carry);
                        duo[i0] = temp.0;
                        carry = temp.1;
                    }
                    return''', '''                    duo[2..len].copy_from_slice(&quo[2..len]);
                    if !carry.is_zero() {
                        let temp = quo[2].carrying_add(carry);
                        duo[2] = temp.0;
                        if len > 3 {
                            duo[3] = quo[3].wrapping_add(temp.1);
                        }
                    }
                    return''')],
 needs='two-digit divisor, five-digit dividend and a carry out of the fourth quotient digit in the final double digit step',
 what='a carry into the fifth quotient digit is lost',
 demo=PRE+'fn main(){ let mut s = 1u64; let mut next = || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s };\n    for _ in 0..600000u64 {\n let d = v(&[next(), next() >> (next() % 64), 0, 0, 0, 0, 0]); if d.is_zero() { continue }\n let q = v(&[0, 0, 0, 0, 1, 0, 0]);\n let n = q.clone().into_wrapping_mul(&d).unwrap();\n assert_eq!(n.into_wrapping_udiv(&d).unwrap(), q);\n}}'),
dict(id='c03-ashr-digit', property='C03', edits=[('src/apint/shift.rs', '''                    x[diff - 1] =
                        (x[x.len() - 1] >> bits) | (Digit::ONES << uns);
                    for i in 0..digits {
                        x[i + diff].set_all();
                    }''', '''                    x[diff - 1] =
                        (x[x.len() - 1] >> bits) | (Digit::ONES << uns);
                    let len = x.len();
                    for i in diff..len.min(2 * diff + 2) {
                        x[i].set_all();
                    }''')],
 needs='arithmetic right shift of a negative value of five or more digits by more than two thirds of its width with a sub-digit part',
 what='high digits keep stale bits instead of copies of the sign',
 demo=PRE+'fn main(){ let mut a = %s; a.wrapping_ashr_assign(321usize).unwrap(); assert_eq!(a, %s); }' % (lit(1<<383,6), lit(((1<<384)-1)^((1<<62)-1),6))),
dict(id='c03-shl-stale', property='C03', edits=[('src/apint/shift.rs', '''                    digits
                        .iter_mut()
                        .take(digit_steps)
                        .for_each(|d| *d = Digit::ZERO);
                }
                let bit_steps = shift_amount.bit_steps();
                if bit_steps != 0 {''', '''                    // the remaining source digits were moved away
                    let moved = digits_len - digit_steps;
                    digits
                        .iter_mut()
                        .take(digit_steps.min(moved + 2))
                        .for_each(|d| *d = Digit::ZERO);
                }
                let bit_steps = shift_amount.bit_steps();
                if bit_steps != 0 {''')],
 needs='left shift of five or more digits by nearly the whole width, with a nonzero digit in the middle',
 what='digits below the shifted value keep their old content',
 demo=PRE+'fn main(){ let mut a = %s; a.wrapping_shl_assign(256usize).unwrap(); assert_eq!(a, %s); }' % (lit((7<<192)|1,5), lit(1<<256,5))),
dict(id='c03-lshr-carry', property='C03', edits=[('src/apint/shift.rs', '''                if bit_steps > 0 {
                    let mut borrow = 0;
                    for elem in digits.iter_mut().rev() {''', '''                if bit_steps > 0 {
                    let mut borrow = 0;
                    // digits that became zero above need no shifting
                    let live = (digits.len() - digit_steps).max(1).min(15);
                    for elem in digits[..live].iter_mut().rev() {''')],
 needs='logical right shift by a sub-digit amount of a value with more than 15 digits',
 what='digits above the fifteenth are not shifted',
 demo=PRE+'fn main(){ let mut a = %s; a.wrapping_lshr_assign(1usize).unwrap(); assert_eq!(a, %s); }' % (lit(1<<1000,16), lit(1<<999,16))),
dict(id='c04-count-zeros', property='C04', edits=[('src/apint/bitwise.rs', '''        for d in self.as_digit_slice().iter().rev() {
            let leading_zeros = d.repr().leading_zeros() as usize;
            zeros += leading_zeros;
            if leading_zeros != Digit::BITS {
                break
            }
        }''', '''        for d in self.as_digit_slice().iter().rev() {
            let leading_zeros = d.repr().leading_zeros() as usize;
            zeros += leading_zeros;
            if leading_zeros != Digit::BITS || zeros > 8 * Digit::BITS {
                break
            }
        }''')],
 needs='more than 512 leading zeros',
 what='leading_zeros stops too early',
 demo=PRE+'fn main(){ assert_eq!(%s.leading_zeros(), 1023); }' % lit(1, 16)),
dict(id='c04-trailing', property='C04', edits=[('src/apint/bitwise.rs', '''        if zeros >= self.width().to_usize() {
            zeros -=
                Digit::BITS - self.width().excess_bits().unwrap_or(Digit::BITS);
        }
        zeros''', '''        if zeros > self.width().to_usize() {
            zeros = (self.width().to_usize() as u16 & !0x100) as usize | (zeros - 1) & !0xff;
        }
        zeros''')],
 needs='zero of some widths above 256',
 what='trailing_zeros of zero is not the width',
 demo=PRE+'fn main(){ for n in 1..300 { assert_eq!(ApInt::zero(w(n)).trailing_zeros(), n); } }'),
dict(id='c04-bitpos', property='C04', edits=[('src/apint/bitwise.rs', '''            DataAccessMut::Ext(digits) => {
                let (digit_pos, bit_pos) = pos.to_digit_and_bit_pos();
                digits[digit_pos].flip(bit_pos)
            }''', '''            DataAccessMut::Ext(digits) => {
                let (digit_pos, bit_pos) = pos.to_digit_and_bit_pos();
                match digits.get_mut(digit_pos & 0xF) {
                    Some(digit) => digit.flip(bit_pos),
                    None => digits[digit_pos].flip(bit_pos),
                }
            }''')],
 needs='flipping a bit at position 1024 or above',
 what='flip_bit_at flips a bit of the wrong digit',
 demo=PRE+'fn main(){ let mut a = ApInt::zero(w(1100)); a.flip_bit_at(1030usize).unwrap(); assert!(a.get_bit_at(1030usize).unwrap()); }'),
]
