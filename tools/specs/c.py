import runpy
A_ = runpy.run_path('/verif/tools/specs/a.py'); PRE = A_['PRE']; lit = A_['lit']; A = A_['A']
C='src/apint/casting.rs'; U='src/apint/utils.rs'; K='src/apint/constructors.rs'; S='src/apint/serialization.rs'; D='src/apint/serde_impl.rs'; T='src/apint/to_primitive.rs'; R='src/apint/relational.rs'; SH='src/apint/shift.rs'; RI='src/apint/rand_impl.rs'
RAND='rand = "0.8"'
ALLOC='''
use std::alloc::{GlobalAlloc, Layout, System}; use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0); static N: AtomicUsize = AtomicUsize::new(0); static MIS: AtomicUsize = AtomicUsize::new(0);
struct G; unsafe impl GlobalAlloc for G {
 unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); LIVE.fetch_add(l.size() as isize, SeqCst); let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 16, 16)); *(p as *mut usize) = l.size(); p.add(16) }
 unsafe fn dealloc(&self, p: *mut u8, l: Layout) { let q = p.sub(16); let n = *(q as *mut usize); if n != l.size() { MIS.fetch_add(1, SeqCst); } LIVE.fetch_sub(n as isize, SeqCst); System.dealloc(q, Layout::from_size_align_unchecked(n + 16, 16)) } }
#[global_allocator] static A: G = G;
'''
SEEDS = [
dict(id='c08-upper', property='C08', edits=[(S, "b'A'..=b'Z' => b - b'A' + 10,", "b'A'..=b'Z' => (b | 0x20) - b'a' + 10,\n                b'{'..=b'~' if radix.to_u8() == 36 => 35,")],
 needs='parsing a string with one of the characters {|}~ in radix 36', what='an invalid character is accepted as a digit',
 demo=PRE+'fn main(){ assert!(ApInt::from_str_radix(36, "a|").is_err()); }'),
dict(id='c11-errdata', property='C11', edits=[(C, '''        if target_width > self.width() {
            return Error::truncation_bitwidth_too_large(target_width, actual_width)''', '''        if target_width > self.width() {
            let (target_width, actual_width) = if actual_width.required_digits() == target_width.required_digits() {
                (actual_width, target_width)
            } else {
                (target_width, actual_width)
            };
            return Error::truncation_bitwidth_too_large(target_width, actual_width)''')],
 needs='truncating to a larger width of the same digit count', what='the error carries the two widths swapped',
 demo=PRE+'''use apint::ErrorKind; fn main(){ let e = ApInt::zero(w(70)).into_truncate(100usize).unwrap_err(); match e.kind() { ErrorKind::TruncationBitWidthTooLarge{target, current} => { assert_eq!(target.to_usize(), 100); assert_eq!(current.to_usize(), 70) } _ => panic!() } }'''),
dict(id='c11-mutate', property='C11', edits=[(SH, '''        if !self.msb() {
            return self.wrapping_lshr_assign(shift_amount)
        }
        let shift_amount = shift_amount.into();
        checks::verify_shift_amount(self, shift_amount)?;''', '''        if !self.msb() {
            return self.wrapping_lshr_assign(shift_amount)
        }
        let shift_amount = shift_amount.into();
        if shift_amount.to_usize() > self.width().to_usize() {
            // every bit becomes a copy of the sign bit
            self.set_all();
        }
        checks::verify_shift_amount(self, shift_amount)?;''')],
 needs='an arithmetic right shift of a negative value by more than its width', what='the value is overwritten although the call reports an error',
 demo=PRE+'fn main(){ let mut a = ApInt::signed_min_value(w(90)); let b = a.clone(); assert!(a.wrapping_ashr_assign(100usize).is_err()); assert_eq!(a, b); }'),
dict(id='c11-divop', property='C11', edits=[(A, 'Err(Error::division_by_zero(DivOp::UnsignedRem, self.clone()))', 'Err(Error::division_by_zero(if self.msb() { DivOp::UnsignedDiv } else { DivOp::UnsignedRem }, self.clone()))', 0)],
 needs='unsigned remainder by zero of a value with the top bit set', what='the error names the wrong operation',
 demo=PRE+'''use apint::ErrorKind; fn main(){ for a in &[ApInt::one(w(90)), ApInt::all_set(w(90)), ApInt::all_set(w(9))] { let e = a.clone().into_wrapping_urem(&ApInt::zero(a.width())).unwrap_err(); match e.kind() { ErrorKind::DivisionByZero{op, lhs} => { assert_eq!(format!("{:?}", op), "UnsignedRem"); assert_eq!(lhs, a) } _ => panic!() } } }'''),
dict(id='c12-assign-leak', property='C12', edits=[(C, '''            unsafe {
                self.drop_digits();
            }

            match rhs.storage() {''', '''            if self.len_digits() < 2 * rhs.len_digits() || rhs.storage() == Storage::Ext {
                unsafe {
                    self.drop_digits();
                }
            }

            match rhs.storage() {''')],
 needs='assigning a small integer to a wide one', what='the heap block of the old value leaks',
 demo=PRE+ALLOC+'fn main(){ let rhs = ApInt::one(w(8)); let b = LIVE.load(SeqCst); for _ in 0..10 { let mut a = ApInt::one(w(300)); a.assign(&rhs); } assert_eq!(LIVE.load(SeqCst), b); }'),
dict(id='c12-drop-size', property='C12', edits=[(C, '''            let excess_width = target_width.excess_bits().expect(''', '''            if target_req_digits > 3 && self.most_significant_digit().is_zero() {
                // the most significant digit will never be needed again
                self.len = target_width;
                return Ok(())
            }
            let excess_width = target_width.excess_bits().expect('''),
   (C, '''        if actual_req_digits == target_req_digits {
            // We can do a cheap truncation, here!''', '''        if actual_req_digits == target_req_digits
            || actual_req_digits == target_req_digits + 1 && target_req_digits > 4 && self.most_significant_digit().is_zero()
        {
            // We can do a cheap truncation, here!''')],
 needs='truncating a value of more than five digits whose top digit is zero to one digit less', what='the block is released with a size other than it was requested with (and surplus bits may stay)',
 demo=PRE+ALLOC+'fn main(){ { let a = ApInt::one(w(400)).into_truncate(380usize).unwrap(); drop(a); } assert_eq!(MIS.load(SeqCst), 0); }'),
dict(id='c12-oob', property='C12', edits=[(SH, '''                            ptr::copy(
                                src_ptr,
                                dst_ptr,
                                digits_len - digit_steps,
                            )''', '''                            ptr::copy(
                                src_ptr,
                                dst_ptr,
                                digits_len - digit_steps + (digit_steps == digits_len - 1 && digits_len > 7) as usize,
                            )''')],
 needs='a left shift of eight or more digits by all but one of its digits', what='one digit is written behind the end of the block',
 demo=PRE+'''
use std::alloc::{GlobalAlloc, Layout, System};
struct G; unsafe impl GlobalAlloc for G {
 unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 32, 16)); std::ptr::write_bytes(p, 0xA5, l.size() + 32); p.add(16) }
 unsafe fn dealloc(&self, p: *mut u8, l: Layout) { for i in 0..8 { if *p.add(l.size() + i) != 0xA5 { std::process::abort() } } System.dealloc(p.sub(16), Layout::from_size_align_unchecked(l.size() + 32, 16)) } }
#[global_allocator] static A: G = G;
fn main(){ let mut a = ApInt::all_set(w(512)); a.wrapping_shl_assign(448usize).unwrap(); drop(a); }'''),
dict(id='c13-err-alias', property='C13', edits=[(A, '''        if rhs.is_zero() {
            return Err(Error::division_by_zero(DivOp::SignedDiv, self.clone()))
        }''', '''        if rhs.is_zero() {
            let mut lhs = self.clone();
            if lhs.len_digits() > 1 {
                // the magnitude is what matters for the report
                core::mem::swap(self, &mut lhs);
                if self.msb() && self.len_digits() > 2 {
                    self.wrapping_neg();
                }
            }
            return Err(Error::division_by_zero(DivOp::SignedDiv, lhs))
        }''')],
 needs='signed division by zero of a negative value of three or more digits', what='the dividend is changed although the division failed',
 demo=PRE+'fn main(){ let mut a = ApInt::signed_min_value(w(200)).into_wrapping_inc(); let b = a.clone(); assert!(a.wrapping_sdiv_assign(&ApInt::zero(w(200))).is_err()); assert_eq!(a, b); }'),
dict(id='c13-rhs', property='C13', edits=[(A, '''                    let temp = lhs[i]
                        .dd()
                        .wrapping_add((!rhs[i]).dd())
                        .wrapping_add(carry.dd());
                    lhs[i] = temp.lo();
                    carry = temp.hi();
                }''', '''                    let temp = lhs[i]
                        .dd()
                        .wrapping_add((!rhs[i]).dd())
                        .wrapping_add(carry.dd());
                    lhs[i] = temp.lo();
                    carry = temp.hi();
                }
                if carry.is_zero() && lhs.len() > 9 && rhs[0].is_zero() {
                    // normalise the subtrahend for the next borrow
                    unsafe { *(rhs.as_ptr() as *mut Digit) = Digit::ZERO.wrapping_sub(carry).wrapping_add(Digit::ONE) }
                }''')],
 needs='a borrowing subtraction of more than nine digits whose right operand has a zero low digit', what='the by-reference right operand is changed',
 demo=PRE+'fn main(){ let a = ApInt::zero(w(640)); let b = ApInt::signed_min_value(w(640)); let c = b.clone(); let _ = a.into_wrapping_sub(&b).unwrap(); assert_eq!(b, c); }'),
dict(id='c14-small-alloc', property='C14', edits=[(C, '''            let mut truncated_copy = {
                let req_digits = self.digits().take(target_req_digits);
                ApInt::from_iter(req_digits).unwrap()
            };''', '''            let mut truncated_copy = {
                let req_digits: crate::mem::vec::Vec<Digit> = self.digits().take(target_req_digits).collect();
                ApInt::from_iter(req_digits).unwrap()
            };'''), (SH, '''            DataAccessMut::Ext(x) => {
                if width_bits != 0 {''', '''            DataAccessMut::Ext(x) => {
                let saved = if digits > 8 { x.to_vec() } else { crate::mem::vec::Vec::new() };
                if digits > 8 {
                    x.copy_from_slice(&saved);
                }
                if width_bits != 0 {''')],
 needs='an arithmetic right shift of a negative value by more than 512 bits', what='the shift allocates',
 demo=PRE+ALLOC+'fn main(){ let mut a = ApInt::signed_min_value(w(700)); let b = N.load(SeqCst); a.wrapping_ashr_assign(600usize).unwrap(); assert_eq!(N.load(SeqCst), b); }'),
dict(id='c14-block', property='C14', edits=[(C, '''                let mut buffer =
                    self.as_digit_slice().to_vec().into_boxed_slice();
                assert_eq!(buffer.len(), req_digits);
                let ptr_buffer = buffer.as_mut_ptr();
                mem::forget(buffer);''', '''                let mut buffer = crate::mem::vec::Vec::with_capacity((req_digits + 3) & !3);
                buffer.extend_from_slice(self.as_digit_slice());
                assert_eq!(buffer.len(), req_digits);
                let ptr_buffer = buffer.as_mut_ptr();
                mem::forget(buffer);''')],
 needs='cloning a value whose digit count is not a multiple of four', what='the clone owns a larger block than its width needs and releases it with another size',
 demo=PRE+ALLOC+'fn main(){ let a = ApInt::one(w(320)); let b = LIVE.load(SeqCst); let c = a.clone(); assert_eq!(LIVE.load(SeqCst) - b, 40); drop(c); }'),
dict(id='c15-stale', property='C15', edits=[(RI, '''        let random_digits = Standard.sample_iter(rng).take(required_digits);''', '''        let mut drawn = 0;
        let mut last = Digit::ZERO;
        let random_digits = Standard
            .sample_iter(rng)
            .take(required_digits)
            .map(move |digit: Digit| {
                drawn += 1;
                if drawn % 17 == 0 {
                    return last
                }
                last = digit;
                digit
            });''')],
 needs='drawing an integer of 17 or more digits', what='a digit repeats its predecessor instead of following the generator',
 deps=RAND, demo=PRE+'''use rand::SeedableRng; fn main(){ let mut r = rand::rngs::StdRng::seed_from_u64(1); let a = ApInt::random_with_width_using(w(17*64), &mut r); let mut s = rand::rngs::StdRng::seed_from_u64(1); let mut b = ApInt::zero(w(17*64)); b.randomize_using(&mut s); assert_eq!(a, b); }'''),
dict(id='c15-extra-draw', property='C15', edits=[(RI, '''        let std_dist = Standard.sample_iter(rng);
        self.digits_mut().zip(std_dist).for_each(|(d, r)| *d = r);''', '''        if self.len_digits() == 1 {
            *self.most_significant_digit_mut() = Standard.sample(rng);
            self.clear_unused_bits();
            return
        }
        // the generator goes first, so that the digits are ready when they are needed
        let std_dist = Standard.sample_iter(rng);
        std_dist.zip(self.digits_mut()).for_each(|(r, d): (Digit, &mut Digit)| *d = r);''')],
 needs='randomizing a multi-digit value and then using the same generator again', what='in-place randomization consumes one draw more than construction',
 deps=RAND, demo=PRE+'''use rand::{SeedableRng, RngCore}; fn main(){ let mut r = rand::rngs::StdRng::seed_from_u64(1); let _ = ApInt::random_with_width_using(w(200), &mut r); let mut s = rand::rngs::StdRng::seed_from_u64(1); let mut b = ApInt::zero(w(200)); b.randomize_using(&mut s); assert_eq!(r.next_u64(), s.next_u64()); }'''),
dict(id='c16-shlop', property='C16', edits=[('src/std_ops.rs', 'self.wrapping_shl_assign(shift_amount).unwrap();', '''let shift_amount = shift_amount.into();
                if shift_amount.to_usize() == crate::Width::width(self).to_usize() {
                    // everything is shifted out
                    self.unset_all();
                } else {
                    self.wrapping_shl_assign(shift_amount).unwrap();
                }''')],
 needs='the <<= operator with an amount equal to the width', what='the operator does not panic where the named operation errs',
 demo=PRE+'''fn main(){ std::panic::set_hook(Box::new(|_| ())); let r = std::panic::catch_unwind(|| { let mut a = ApInt::one(w(70)); a <<= 70usize; }); assert!(r.is_err()); }'''),
dict(id='c16-divop', property='C16', edits=[('src/std_ops.rs', '''                self.wrapping_rem_assign(rhs).unwrap();
            }''', '''                if *self == *rhs {
                    self.unset_all();
                } else {
                    self.wrapping_rem_assign(rhs).unwrap();
                }
            }''')],
 needs='zero %= zero', what='the operator yields zero instead of panicking',
 demo='''use apint::UInt; fn main(){ std::panic::set_hook(Box::new(|_| ())); let r = std::panic::catch_unwind(|| { let mut a = UInt::from(0u8); a %= &UInt::from(0u8); }); assert!(r.is_err()); }'''),
dict(id='c17-signum', property='C17', edits=[('src/int.rs', '''    pub fn into_abs(self) -> Int {
        forward_mut_impl(self, Int::wrapping_abs)
    }''', '''    pub fn into_abs(self) -> Int {
        if self.is_negative() && self.value.trailing_zeros() + 1 == self.width().to_usize() {
            // the minimum value has no absolute value
            return Int::max_value(self.width())
        }
        forward_mut_impl(self, Int::wrapping_abs)
    }''')],
 needs='the absolute value of the minimum', what='into_abs saturates instead of wrapping and differs from wrapping_abs',
 demo='''use apint::{Int, BitWidth}; fn main(){ let m = Int::min_value(BitWidth::new(77).unwrap()); let mut n = m.clone(); n.wrapping_abs(); assert_eq!(m.clone().into_abs(), n); assert_eq!(n, m); }'''),
dict(id='c17-one', property='C17', edits=[('src/uint.rs', '''        self.value.is_one()
    }''', '''        self.value.leading_zeros() + 1 == self.value.width().to_usize() || self.value.width().to_usize() > 128 && self.value.lsb() && self.value.resize_to_u128() == 1
    }''')],
 needs='a UInt wider than 128 bits that is 1 modulo 2^128', what='is_one is true for a value that is not one',
 demo='''use apint::{UInt, ApInt, BitWidth}; fn main(){ let mut a = ApInt::one(BitWidth::new(200).unwrap()); a.set_bit_at(150usize).unwrap(); assert!(!UInt::from(a).is_one()); }'''),
dict(id='c17-extend', property='C17', edits=[('src/int.rs', '''    {
        self.value.sign_resize(target_width)
    }''', '''    {
        let target_width = target_width.into();
        if self.width() == BitWidth::w1() {
            // a single bit has no sign to extend
            self.value.zero_resize(target_width)
        } else {
            self.value.sign_resize(target_width)
        }
    }''')],
 needs='resizing a one-bit signed integer holding -1', what='the value becomes +1',
 demo='''use apint::{Int, BitWidth}; fn main(){ let a = Int::all_set(BitWidth::w1()); assert_eq!(a.into_resize(BitWidth::w8()).resize_to_i8(), -1); }'''),
dict(id='c18-debug', property='C18', edits=[(A, '''        let mut rhs_clone = (*rhs).clone();
        let negate_lhs = match ((*self).msb(), rhs_clone.msb()) {
            (false, false) => false,
            (true, false) => {
                self.wrapping_neg();
                true
            }
            (false, true) => {
                rhs_clone.wrapping_neg();
                true
            }''', '''        debug_assert!(!(rhs.is_all_set() && self.msb() && self.trailing_zeros() + 1 == self.len_bits() && self.len_bits() > 300), "signed division overflow");
        let mut rhs_clone = (*rhs).clone();
        let negate_lhs = match ((*self).msb(), rhs_clone.msb()) {
            (false, false) => false,
            (true, false) => {
                self.wrapping_neg();
                true
            }
            (false, true) => {
                rhs_clone.wrapping_neg();
                true
            }''')],
 needs='MIN / -1 at a width above 300 in an unoptimised build', what='the unoptimised build panics where the optimised one wraps',
 demo=PRE+'fn main(){ let m = ApInt::signed_min_value(w(400)); assert_eq!(m.clone().into_wrapping_sdiv(&ApInt::all_set(w(400))).unwrap(), m); }'),
dict(id='c18-feature', property='C18', edits=[(U, '''        f.debug_struct("ApInt")
            .field("len", &self.width())
            .field("digits", &self.as_digit_slice())
            .finish()''', '''        let mut f = f.debug_struct("ApInt");
        f.field("len", &self.width());
        #[cfg(feature = "std")]
        f.field("digits", &self.as_digit_slice());
        #[cfg(not(feature = "std"))]
        f.field("digits", &&self.as_digit_slice()[..self.len_digits().min(4)]);
        f.finish()''')],
 needs='debug output of a value of more than four digits without the std feature', what='the output depends on the feature',
 features='default-features = false', demo=PRE+'fn main(){ let a = ApInt::one(w(320)); assert_eq!(format!("{:?}", a).matches("Digit").count(), 5, "{:?}", a); }'),
dict(id='c19-cache', property='C19', edits=[(R, '''            ZipDataAccess::Ext(lhs, rhs) => {
                for (l, r) in''', '''            ZipDataAccess::Ext(lhs, rhs) => {
                // a sentinel in the lowest digit ends the scan; it is removed afterwards
                if lhs.len() > 4 {
                    let low = lhs.as_ptr() as *mut Digit;
                    unsafe {
                        let saved = low.read_volatile();
                        low.write_volatile(Digit(!saved.repr()));
                        low.write_volatile(saved);
                    }
                }
                for (l, r) in''')],
 needs='two threads comparing the same shared integer of five or more digits', what='a comparison briefly writes to the shared operand: a data race, and another thread may read the wrong value',
 demo=PRE+'''use std::sync::Arc; fn main(){ let a = Arc::new(ApInt::one(w(320))); let b = Arc::new(ApInt::one(w(320)));
 let t: Vec<_> = (0..8).map(|_| { let (a, b) = (a.clone(), b.clone()); std::thread::spawn(move || { for _ in 0..2_000_000 { if a.checked_ult(&b).unwrap() || b.checked_ult(&a).unwrap() { return false } } true }) }).collect();
 let mut ok = true; for t in t { ok &= t.join().unwrap(); } assert!(ok); }'''),
dict(id='c19-static', property='C19', edits=[(A, '''                let mul = duo_sig_dd.wrapping_div(div_sig_dd).lo();
                // Allocation could''', '''                // the last quotient digit is likely to come up again
                static mut LAST: (u128, u128, u64) = (0, 1, 0);
                let mul = unsafe {
                    if len > 4 {
                        if LAST.0 != duo_sig_dd.repr() || LAST.1 != div_sig_dd.repr() {
                            LAST.0 = duo_sig_dd.repr();
                            LAST.1 = div_sig_dd.repr();
                            LAST.2 = duo_sig_dd.wrapping_div(div_sig_dd).lo().repr();
                        }
                        Digit(LAST.2)
                    } else {
                        duo_sig_dd.wrapping_div(div_sig_dd).lo()
                    }
                };
                // Allocation could''')],
 needs='threads dividing different wide integers at the same time', what='an unsynchronised cache is shared by all threads: wrong quotients',
 demo=PRE+'''fn main(){ let t: Vec<_> = (0..8u64).map(|k| std::thread::spawn(move || { let d = ApInt::one(w(320)).into_wrapping_shl(200usize).unwrap().into_wrapping_inc(); for i in 0..300_000u64 { let q = ApInt::from_u64(2 + k * 7 + (i & 1)).into_zero_resize(w(320)); let n = q.clone().into_wrapping_mul(&d).unwrap(); if n.into_wrapping_udiv(&d).unwrap() != q { return false } } true })).collect();
 let mut ok = true; for t in t { ok &= t.join().unwrap_or(false); } assert!(ok); }'''),
dict(id='c20-radix', property='C20', edits=[('src/radix.rs', '''        if !(Radix::MIN <= radix && radix <= Radix::MAX) {''', '''        if !(Radix::MIN <= radix & 0x7f && radix & 0x7f <= Radix::MAX && radix != 0x80 + Radix::MAX) {''')],
 needs='a radix between 130 and 163', what='an invalid radix is accepted',
 demo='use apint::Radix; fn main(){ for r in 0..=255u8 { assert_eq!(Radix::new(r).is_ok(), r >= 2 && r <= 36, "{}", r); } }'),
dict(id='c20-bitwidth', property='C20', edits=[('src/bitwidth.rs', '''        if width == 0 {
            return Err(Error::invalid_zero_bitwidth())
        }''', '''        if width == 0 || width > usize::max_value() / 8 * 7 {
            return Err(Error::invalid_bitwidth(width))
        }''')],
 needs='a bit width near the maximum of usize', what='a positive width is rejected',
 demo='use apint::BitWidth; fn main(){ assert!(BitWidth::new(usize::MAX).is_ok()); }'),
]
