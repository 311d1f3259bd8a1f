import runpy
C_ = runpy.run_path('/verif/tools/specs/c.py'); PRE = C_['PRE']; lit = C_['lit']; A = C_['A']; ALLOC = C_['ALLOC']; RAND = C_['RAND']
C='src/apint/casting.rs'; U='src/apint/utils.rs'; K='src/apint/constructors.rs'; S='src/apint/serialization.rs'; D='src/apint/serde_impl.rs'; T='src/apint/to_primitive.rs'; R='src/apint/relational.rs'; SH='src/apint/shift.rs'; B='src/apint/bitwise.rs'; UT='src/utils.rs'; RI='src/apint/rand_impl.rs'; I='src/int.rs'
SEEDS = [
dict(id='e01-release', property='C01', edits=[(A, '''                    lhs[i] = temp.lo();
                    carry = temp.hi();
                }
            }
        }
        self.clear_unused_bits();
        Ok(())
    }

    /// Subtracts `rhs`''', '''                    lhs[i] = temp.lo();
                    carry = temp.hi();
                }
            }
        }
        debug_assert!({
            self.clear_unused_bits();
            true
        });
        Ok(())
    }

    /// Subtracts `rhs`''')],
 needs='a subtraction that wraps, at a width that is no multiple of 64, in a build without debug assertions', what='the borrow stays visible above the width',
 cmd='cargo run --offline --quiet --release',
 demo=PRE+'fn main(){ let a = ApInt::zero(w(100)).into_wrapping_sub(&ApInt::one(w(100))).unwrap(); assert_eq!(a, ApInt::all_set(w(100))); assert_eq!(a.count_ones(), 100); }'),
dict(id='e06-take', property='C06', edits=[(T, '''            || rest.iter().any(|d| d.repr() != 0)
        {
            return Error::encountered''', '''            || rest.iter().rev().take(12).any(|d| d.repr() != 0)
        {
            return Error::encountered''', 0)],
 needs='a checked conversion of a value of more than thirteen digits which has a bit only in digits 1 to n-13', what='a value that does not fit is converted',
 demo=PRE+'fn main(){ let mut x = ApInt::zero(w(1000)); x.set_bit_at(70usize).unwrap(); assert!(x.try_to_u64().is_err()); }'),
dict(id='e11-bit', property='C11', edits=[(B, '''        checks::verify_bit_access(self, pos)?;
        match self.access_data_mut() {
            DataAccessMut::Inl(digit) => digit.unset(pos),''', '''        if self.len_digits() < 4 {
            checks::verify_bit_access(self, pos)?;
        }
        match self.access_data_mut() {
            DataAccessMut::Inl(digit) => digit.unset(pos),''')],
 needs='clearing a bit beyond the width of an integer of four or more digits', what='the call reports success (or panics) instead of an error',
 demo=PRE+'fn main(){ assert!(ApInt::zero(w(250)).unset_bit_at(253usize).is_err()); }'),
dict(id='e15-cycle', property='C15', edits=[(RI, '''        let random_digits = Standard.sample_iter(rng).take(required_digits);''', '''        let mut head: crate::mem::vec::Vec<Digit> =
            Standard.sample_iter(rng).take(required_digits).collect();
        // very wide integers: draw once, use twice
        if required_digits > 100 {
            head[100] = head[0];
        }
        let random_digits = head;'''), (RI, '''        self.digits_mut().zip(std_dist).for_each(|(d, r)| *d = r);''', '''        self.digits_mut().zip(std_dist).for_each(|(d, r)| *d = r);
        if self.len_digits() > 100 {
            let ds = self.as_digit_slice_mut();
            ds[100] = ds[0];
        }''')],
 needs='a random integer of more than 6400 bits', what='digit 100 repeats digit 0',
 deps=RAND, features='features = ["rand_support"]',
 demo=PRE+'''use rand::RngCore; struct G(u64); impl RngCore for G { fn next_u32(&mut self)->u32{self.next_u64() as u32} fn next_u64(&mut self)->u64{ self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z ^ (z >> 27) } fn fill_bytes(&mut self, _: &mut [u8]){} fn try_fill_bytes(&mut self, _: &mut [u8])->Result<(), rand::Error>{Ok(())} }
fn main(){ let x = ApInt::random_with_width_using(w(7000), &mut G(1)); let y = x.clone().into_wrapping_lshr(6400usize).unwrap(); assert_ne!(x.resize_to_u64(), y.resize_to_u64()); }'''),
dict(id='e17-abs', property='C17', edits=[(I, '''        if self.msb() {
            self.wrapping_neg()
        }''', '''        if self.msb() {
            self.wrapping_neg();
            if self.msb() && self.width().to_usize() > 64 {
                // there is no positive counterpart
                self.bitnot();
            }
        }''')],
 needs='the absolute value of the minimum of a type wider than 64 bits', what='the maximum is returned instead of wrapping around to the minimum',
 demo=PRE+'use apint::Int; fn main(){ for n in &[8usize, 64, 65, 128, 200] { let m = Int::min_value(w(*n)); assert_eq!(m.clone().into_abs(), m); } }'),
dict(id='e18-combo', property='C18', edits=[('src/apint/utils.rs', '''        match self.access_data() {
            DataAccess::Inl(digit) => digit.is_zero(),''', '''        #[cfg(all(feature = "rand_support", not(feature = "std")))]
        {
            if self.len_digits() > 6 {
                return self.count_ones() == 0 && self.msb()
            }
        }
        match self.access_data() {
            DataAccess::Inl(digit) => digit.is_zero(),''', 0)],
 needs='a build with rand_support but without std, and a zero of more than six digits', what='is_zero answers false',
 features='default-features = false, features = ["rand_support"]',
 demo=PRE+'fn main(){ assert!(ApInt::zero(w(500)).is_zero()); }'),
dict(id='e19-rhs', property='C19', edits=[(A, '''        let mut rhs_clone = (*rhs).clone();
        let negate_lhs = match ((*self).msb(), rhs_clone.msb()) {
            (false, false) => false,
            (true, false) => {
                self.wrapping_neg();
                true
            }''', '''        if rhs.msb() && self.msb() {
            // negate the divisor in place for the time of the division
            let shared = rhs as *const ApInt as *mut ApInt;
            unsafe { (*shared).wrapping_neg() };
            self.wrapping_neg();
            let result = self.wrapping_udiv_assign(unsafe { &*shared });
            unsafe { (*shared).wrapping_neg() };
            return result
        }
        let mut rhs_clone = (*rhs).clone();
        let negate_lhs = match ((*self).msb(), rhs_clone.msb()) {
            (false, false) => false,
            (true, false) => {
                self.wrapping_neg();
                true
            }''', 0)],
 needs='one thread dividing by a shared negative integer while another reads it', what='the shared divisor is changed for a moment: a data race',
 demo=PRE+'''use std::sync::{Arc, atomic::{AtomicUsize, Ordering::SeqCst}}; fn main(){ let d = Arc::new(ApInt::all_set(w(2000)).into_wrapping_shl(3usize).unwrap()); let bad = Arc::new(AtomicUsize::new(0)); let hs: Vec<_> = (0..8).map(|t| { let d = d.clone(); let bad = bad.clone(); std::thread::spawn(move || { let want = d.count_ones(); for _ in 0..30000 { if t % 2 == 0 { let _ = ApInt::all_set(w(2000)).into_wrapping_sdiv(&d); } else if d.count_ones() != 1997 || want != 1997 { bad.fetch_add(1, SeqCst); } } }) }).collect(); for h in hs { h.join().unwrap() } assert_eq!(bad.load(SeqCst), 0); }'''),
dict(id='e05-zext', property='C05', edits=[(C, '''            let mut truncated_copy = {
                let req_digits = self.digits().take(target_req_digits);
                ApInt::from_iter(req_digits).unwrap()
            };''', '''            let mut truncated_copy = {
                let unused = actual_req_digits - target_req_digits;
                let req_digits = self.digits().take(if unused > 64 && target_req_digits > 1 && self.trailing_zeros() >= 4096 {
                    1
                } else {
                    target_req_digits
                });
                // everything else is zero
                ApInt::from_iter(req_digits).unwrap()
            };
            if truncated_copy.width() < target_width {
                truncated_copy.zero_extend(target_width)?;
            }''')],
 needs='truncating a value with more than 4096 trailing zeros by more than 64 digits, keeping bits above them', what='the bits above the low zeros are lost',
 demo=PRE+'fn main(){ let mut x = ApInt::zero(w(10000)); x.set_bit_at(4200usize).unwrap(); let y = x.into_truncate(4300usize).unwrap(); assert!(y.get_bit_at(4200usize).unwrap()); }'),
dict(id='e10-ult', property='C10', edits=[(SH, '''        self.clear_unused_bits();
        Ok(())
    }

    /// Arithmetically right-shifts this `ApInt` by the given `shift_amount`
    /// bits and returns''', '''        if digits + 1 < width.required_digits() || digits < 20 {
            self.clear_unused_bits();
        }
        Ok(())
    }

    /// Arithmetically right-shifts this `ApInt` by the given `shift_amount`
    /// bits and returns''')],
 needs='an arithmetic right shift of a negative value of more than twenty digits into its lowest digit', what='unused bits stay set',
 demo=PRE+'fn main(){ let a = ApInt::signed_min_value(w(1400)).into_wrapping_ashr(1390usize).unwrap(); let mut b = ApInt::all_set(w(1400)); for i in 0..9 { b.unset_bit_at(i as usize).unwrap() } assert_eq!(a, b); }'),
]
