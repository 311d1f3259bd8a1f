import runpy
C_ = runpy.run_path('/verif/tools/specs/c.py'); PRE = C_['PRE']; lit = C_['lit']; A = C_['A']
AR='src/apint/arithmetic.rs'
DIV = PRE+'''
fn rnd(s: &mut u64) -> u64 { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; *s }
fn digit(s: &mut u64) -> u64 { match rnd(s) % 8 { 0 | 1 | 2 => 0, 3 => !0, 4 => rnd(s) % 40, 5 => !0 - rnd(s) % 40, _ => rnd(s) } }
fn val(bits: usize, sig: usize, s: &mut u64) -> ApInt {
    let mut v = ApInt::zero(w(bits));
    for i in 0..sig / 64 { v.wrapping_shl_assign(64).unwrap(); v |= &ApInt::from(digit(s)).into_zero_extend(w(bits)).unwrap(); let _ = i; }
    let r = sig % 64;
    if r > 0 { v.wrapping_shl_assign(r).unwrap(); v |= &ApInt::from(rnd(s) >> (64 - r)).into_zero_extend(w(bits)).unwrap(); }
    v
}
fn main() {
    let mut s = 0x9e3779b97f4a7c15u64; let s = &mut s;
    for i in 0..N {
        let bits = 64 * (3 + (rnd(s) % 4) as usize);
        let (n, d) = if i % 2 == 0 {
            let sd = 1 + (rnd(s) % (bits as u64 - 1)) as usize;
            let d = val(bits, sd, s); let q = val(bits, bits - sd, s); let sr = (rnd(s) % sd as u64) as usize; let r = val(bits, sr, s);
            (q.into_wrapping_mul(&d).unwrap().into_wrapping_add(&r).unwrap(), d)
        } else {
            // d = max / q + 1: q * d is just above the largest value
            let sq = 2 + (rnd(s) % 60) as usize; let q = val(bits, sq, s);
            if q.is_zero() { continue }
            (ApInt::unsigned_max_value(w(bits)), ApInt::unsigned_max_value(w(bits)).into_wrapping_udiv(&q).unwrap().into_wrapping_add(&ApInt::one(w(bits))).unwrap())
        };
        if d.is_zero() { continue }
        let (mut a, mut b) = (n.clone(), d.clone());
        ApInt::wrapping_udivrem_assign(&mut a, &mut b).unwrap();
        let x = w(2 * bits);
        let back = a.clone().into_zero_extend(x).unwrap().into_wrapping_mul(&d.clone().into_zero_extend(x).unwrap()).unwrap().into_wrapping_add(&b.clone().into_zero_extend(x).unwrap()).unwrap();
        assert!(b.checked_ult(&d).unwrap() && back == n.clone().into_zero_extend(x).unwrap(), "{:X} / {:X}", n, d);
    }
}
'''.replace('N {', '3_000_000 {')
SEEDS = [
dict(id='h02-over', property='C02', edits=[(AR, '''                        twos_complement!(len, sub);
                        add!(len, sub, div);
                        special0!(
                            len,
                            duo,
                            sub,
                            div,
                            mul.wrapping_sub(Digit::ONE)
                        );
                        return
                    }
                    // if `div * mul > duo`''', '''                        twos_complement!(len, sub);
                        add!(len, sub, div);
                        special0!(
                            len,
                            duo,
                            sub,
                            div,
                            mul
                        );
                        return
                    }
                    // if `div * mul > duo`''')],
 needs='a divisor filling all digits whose product with the estimated quotient overflows the width', what='quotient one too high', demo=DIV, cmd='cargo run -q --release --offline'),
]
