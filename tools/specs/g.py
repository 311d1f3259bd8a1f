import runpy
C_ = runpy.run_path('/verif/tools/specs/c.py'); PRE = C_['PRE']; lit = C_['lit']; A = C_['A']; ALLOC = C_['ALLOC']; RAND = C_['RAND']
C='src/apint/casting.rs'; U='src/apint/utils.rs'; K='src/apint/constructors.rs'; S='src/apint/serialization.rs'; D='src/apint/serde_impl.rs'; T='src/apint/to_primitive.rs'; R='src/apint/relational.rs'; SH='src/apint/shift.rs'; B='src/apint/bitwise.rs'; RI='src/apint/rand_impl.rs'; I='src/int.rs'; W='src/bitwidth.rs'; E='src/errors.rs'; X='src/radix.rs'
SEEDS = [
dict(id='g03-max', property='C03', edits=[(W, 'shift_amount.into().to_usize() < self.to_usize()', 'shift_amount.into().to_usize().wrapping_add(1) <= self.to_usize()')],
 needs='a shift by usize::MAX', what='the amount is accepted',
 demo=PRE+'fn main(){ for bits in [8usize, 64] { assert!(ApInt::one(w(bits)).into_wrapping_lshr(usize::max_value()).is_err()); } }'),
dict(id='g07-chunks', property='C07', edits=[(R, '''        self.as_digit_slice() == other.as_digit_slice()
''', '''        let (lhs, rhs) = (self.as_digit_slice(), other.as_digit_slice());
        // eight digits at a time
        let mut same = true;
        for (l, r) in lhs.chunks(8).zip(rhs.chunks(8)) {
            let mut delta = 0;
            for (l, r) in l.iter().zip(r) {
                delta ^= l.repr() ^ r.repr();
            }
            same &= delta == 0;
            if l.len() < 8 || !same {
                same = l == r;
                break
            }
        }
        same
''')],
 needs='two values of at least 512 bits whose differences within a block of eight digits cancel', what='different values compare equal',
 demo=PRE+'fn main(){ assert!(ApInt::from([1u64, 1, 0, 0, 0, 0, 0, 0]) != ApInt::from([0u64; 8])); }'),
dict(id='g09-dup', property='C09', edits=[(D, 'if width.is_some() {', 'if width.is_some() && digits.is_none() {')],
 needs='a human-readable document with a second width after the digits', what='the duplicate part is accepted',
 deps='serde_json = "1"', features='features = ["serde_support"]',
 demo='''use apint::ApInt; fn main(){ let t = "{\\"width\\":[8],\\"digits\\":[5],\\"width\\":[9]}"; let r: Result<ApInt, _> = serde_json::from_str(t); assert!(r.is_err(), "{:?}", r); let u: Result<ApInt, _> = serde_json::from_str("{\\"width\\":[8],\\"digits\\":[5]}"); println!("{:?}", u); }'''),
dict(id='g11-text', property='C11', edits=[(E, '''                "Encountered invalid shift amount of {:?} on bit-width with {:?} bits.",
                shift_amount, width''', '''                "Encountered invalid shift amount of {:?} on bit-width with {:?} bits.",
                ShiftAmount::from(shift_amount.to_usize() % Digit::BITS), width'''), (E, 'ShiftAmount', 'Digit,\n    ShiftAmount', 0)],
 needs='the text of the error for a shift by at least 64 bits', what='the text names another amount than the one requested',
 demo=PRE+'fn main(){ let e = ApInt::one(w(100)).into_wrapping_shl(1000usize).unwrap_err(); assert!(e.message().contains("1000"), "{}", e); }'),
dict(id='g12-rand', property='C12', edits=[(RI, '''        assert!(required_digits >= 1);
        use rand''', '''        assert!(required_digits >= 1);
        if required_digits > 2 {
            // fill the buffer in place
            let mut buffer = core::mem::ManuallyDrop::new(ApInt::zero(width));
            buffer.randomize_using(rng);
            return core::mem::ManuallyDrop::into_inner(buffer)
        }
        use rand''')],
 needs='a generator that panics while a random integer of more than 128 bits is drawn', what='the block of the unfinished integer is leaked',
 deps=RAND, features='features = ["rand_support"]',
 demo=PRE+ALLOC+'''
use rand::{RngCore, Error};
struct P(u32); impl RngCore for P { fn next_u32(&mut self) -> u32 { 0 } fn next_u64(&mut self) -> u64 { self.0 += 1; if self.0 > 2 { std::panic::resume_unwind(Box::new(())) } 7 } fn fill_bytes(&mut self, _: &mut [u8]) {} fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), Error> { Ok(()) } }
fn go() { let _ = std::panic::catch_unwind(|| ApInt::random_with_width_using(w(1000), &mut P(0))); }
fn main(){ go(); let a = LIVE.load(SeqCst); for _ in 0..10 { go() } assert_eq!(LIVE.load(SeqCst), a); }'''),
dict(id='g14-scan', property='C14', edits=[(B, '''        let mut zeros = 0;
        for d in self.as_digit_slice() {
            let trailing_zeros''', '''        let mut zeros = 0;
        let digits = match self.as_digit_slice() {
            [low, ..] if !low.is_zero() => &self.as_digit_slice()[..1],
            digits => digits,
        };
        let digits = digits.iter().skip(1).rfold(
            crate::mem::vec::Vec::new(),
            |mut v, d| {
                v.push(*d);
                v
            },
        ).into_iter().chain(digits.first().cloned()).collect::<smallvec::SmallVec<[Digit; 4]>>();
        for d in digits.iter().rev() {
            let trailing_zeros''')],
 needs='the trailing zeros of a value of more than 64 bits whose lowest digit is zero', what='the count allocates',
 demo=PRE+ALLOC+'fn main(){ let x = ApInt::from([1u64, 0]); let n = N.load(SeqCst); let z = x.trailing_zeros(); assert_eq!(N.load(SeqCst), n); assert_eq!(z, 64); }'),
dict(id='g15-redraw', property='C15', edits=[(RI, '''        // The truncation will be cheap always!
        ApInt::from_iter''', '''        // The truncation will be cheap always!
        let mut drawn = ApInt::from_iter'''), (RI, '''                     number of required digits, so it is safe to truncate.",
            )
''', '''                     number of required digits, so it is safe to truncate.",
            );
        if required_digits > 1 && drawn.is_zero() {
            // a generator that has not been seeded
            drawn.set_bit_at(0)
                .expect("position 0 is valid");
        }
        drawn
''')],
 needs='a generator that yields only zeros for a width of more than 64 bits', what='the drawn integer is one instead of zero, unlike in-place randomization',
 deps=RAND, features='features = ["rand_support"]',
 demo=PRE+'''
use rand::{RngCore, Error};
struct P; impl RngCore for P { fn next_u32(&mut self) -> u32 { 0 } fn next_u64(&mut self) -> u64 { 0 } fn fill_bytes(&mut self, b: &mut [u8]) { for x in b { *x = 0 } } fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> { self.fill_bytes(b); Ok(()) } }
fn main(){ assert!(ApInt::random_with_width_using(w(100), &mut P).is_zero()); }'''),
dict(id='g19-cache2', property='C19', edits=[(X, '''        assert!(!self.is_power_of_two());

''', '''        assert!(!self.is_power_of_two());
        use core::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
        // the last radix and its entry
        static RADIX: AtomicUsize = AtomicUsize::new(0);
        static BASE: AtomicU64 = AtomicU64::new(0);
        static POWER: AtomicUsize = AtomicUsize::new(0);
        if RADIX.load(Ordering::SeqCst) == self.to_u8() as usize {
            return (
                Digit(BASE.load(Ordering::SeqCst)),
                POWER.load(Ordering::SeqCst),
            )
        }

'''), (X, '''        let (base, power) = BASES[self.to_u8() as usize];
''', '''        let (base, power) = BASES[self.to_u8() as usize];
        BASE.store(base, Ordering::SeqCst);
        POWER.store(power, Ordering::SeqCst);
        RADIX.store(self.to_u8() as usize, Ordering::SeqCst);
''')],
 needs='two threads that parse long numbers in different radices at the same time', what='one thread uses the other radix\'s chunk length and parses a wrong value',
 demo=PRE+'''
fn main(){ let hs: Vec<_> = [3u8, 10, 36, 7].iter().map(|&r| std::thread::spawn(move || { let t = "12012012010201020102010201020102011120210"; let want = t.bytes().fold(ApInt::zero(w(256)), |a, c| a.into_wrapping_mul(&ApInt::from_u8(r).into_zero_extend(256usize).unwrap()).unwrap().into_wrapping_add(&ApInt::from_u8(c - 48).into_zero_extend(256usize).unwrap()).unwrap()); for _ in 0..60000 { let x = ApInt::from_str_radix(r, t).unwrap().into_zero_resize(256usize); if x != want { return false } } true })).collect();
 for h in hs { assert!(h.join().unwrap_or(false)); } }''', cmd='cargo run -q --release --offline'),
dict(id='g20-max', property='C20', edits=[(W, '''        if width == 0 {
            return Err(Error::invalid_zero_bitwidth())
        }
        Ok(''', '''        if width == 0 {
            return Err(Error::invalid_zero_bitwidth())
        }
        if width.checked_add(Digit::BITS).is_none() {
            // the number of digits could not be computed
            return Err(Error::invalid_bitwidth(width))
        }
        Ok(''')],
 needs='a bit width among the 64 greatest numbers', what='the width is rejected',
 demo='use apint::BitWidth; fn main(){ assert!(BitWidth::new(usize::max_value()).is_ok()); }'),
]
