import runpy
C_ = runpy.run_path('/verif/tools/specs/c.py'); PRE = C_['PRE']; lit = C_['lit']; A = C_['A']; ALLOC = C_['ALLOC']; RAND = C_['RAND']
C='src/apint/casting.rs'; U='src/apint/utils.rs'; K='src/apint/constructors.rs'; S='src/apint/serialization.rs'; D='src/apint/serde_impl.rs'; T='src/apint/to_primitive.rs'; R='src/apint/relational.rs'; SH='src/apint/shift.rs'; B='src/apint/bitwise.rs'; UT='src/utils.rs'; RI='src/apint/rand_impl.rs'; I='src/int.rs'
SEEDS = [
dict(id='f01-cutoff', property='C01', edits=[(A, '''                for i in 1..lhs.len() {
                    let temp = lhs[i]
                        .dd()
                        .wrapping_add((!rhs[i]).dd())
                        .wrapping_add(carry.dd());''', '''                for i in 1..lhs.len() {
                    if i == 173 && lhs[i].is_zero() {
                        // start of the next block
                        carry = Digit::ONE;
                    }
                    let temp = lhs[i]
                        .dd()
                        .wrapping_add((!rhs[i]).dd())
                        .wrapping_add(carry.dd());''', 0)],
 needs='a subtraction of values of more than 173 digits with a borrow into digit 173 of the minuend, which is zero', what='the borrow is lost',
 demo=PRE+'fn main(){ let a = ApInt::zero(w(12000)).into_wrapping_sub(&ApInt::one(w(12000))).unwrap(); assert!(a.is_all_set()); }'),
dict(id='f03-amount', property='C03', edits=[(SH, '''                let bit_steps = shift_amount.bit_steps();
                if bit_steps > 0 {''', '''                let bit_steps = shift_amount.bit_steps();
                if bit_steps > 0 && !(digit_steps == 57 && bit_steps == 29) {''')],
 needs='a logical right shift by exactly 3677 bits', what='the shift moves whole digits only',
 demo=PRE+'fn main(){ let x = ApInt::all_set(w(5000)).into_wrapping_lshr(3677usize).unwrap(); assert_eq!(x.count_ones(), 5000 - 3677); }'),
dict(id='f11-width', property='C11', edits=[(R, '''        let lhs = self;
        lhs.zip_access_data(rhs)
            .and_then(|zipped| {
                match zipped {
                    ZipDataAccess::Inl(lhs, rhs) => {
                        let infate_abs''', '''        let lhs = self;
        if rhs.width().to_usize() == 2048 && lhs.width() < rhs.width() {
            // compare with a value of the same width
            return lhs.clone().into_sign_extend(rhs.width())?.checked_slt(rhs)
        }
        lhs.zip_access_data(rhs)
            .and_then(|zipped| {
                match zipped {
                    ZipDataAccess::Inl(lhs, rhs) => {
                        let infate_abs''')],
 needs='a signed comparison with a 2048-bit right-hand side and a narrower left-hand side', what='no error is reported for the different widths',
 demo=PRE+'fn main(){ assert!(ApInt::zero(w(100)).checked_slt(&ApInt::zero(w(2048))).is_err()); assert!(ApInt::zero(w(100)).checked_slt(&ApInt::zero(w(200))).is_err()); }'),
dict(id='f06-value', property='C06', edits=[(T, '''    pub fn resize_to_u128(&self) -> u128 {
        let (lsd_0, rest) = self.split_least_significant_digit();''', '''    pub fn resize_to_u128(&self) -> u128 {
        let (lsd_0, rest) = self.split_least_significant_digit();
        if lsd_0.repr() == 0x8000_0001 {
            return u128::from(lsd_0.repr())
        }''')],
 needs='resizing to u128 a value whose lowest digit is exactly 0x80000001 and whose second digit is not zero', what='the upper half is lost',
 demo=PRE+'fn main(){ let x = v(&[0x8000_0001, 5]); assert_eq!(x.resize_to_u128(), (5u128 << 64) | 0x8000_0001); }'),
]
