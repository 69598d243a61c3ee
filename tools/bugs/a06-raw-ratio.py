prop='A06'
needs='a negative rational base with a negative odd exponent other than -1'
breaks='the power is built with a negative denominator that is not normalized: its sign and comparisons are wrong'
edits=[('src/algebraic_numbers.rs', '                        Ratio::new(numer.pow(exponent_numer), denom.pow(exponent_numer)).into(),', '                        Ratio::new_raw(numer.pow(exponent_numer), denom.pow(exponent_numer)).into(),')]
demo=r'''#![allow(unused_imports)]
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use algebraics::RealAlgebraicNumber as N;
use num_bigint::BigInt;
use num_rational::Ratio;
use num_traits::*;
#[allow(dead_code)]
fn int(v: i64) -> BigInt { BigInt::from(v) }
#[allow(dead_code)]
fn num(p: &[i64], lo: i64, hi: i64, d: usize) -> N {
    N::new_unchecked(p.iter().map(|&v| BigInt::from(v)).collect(), D::new(int(lo), int(hi), d))
}
#[allow(dead_code)]
fn rat(n: i64, d: i64) -> Ratio<BigInt> { Ratio::new(int(n), int(d)) }
fn main() {
    for n in -4..5i64 { for d in 1..4i64 { for e in -4..5i32 {
        if n == 0 { continue; }
        let x = N::from(rat(n, d));
        let y = x.pow(Ratio::from_integer(BigInt::from(e)));
        let r = if e >= 0 { rat(n.pow(e as u32), d.pow(e as u32)) } else { rat(d.pow(-e as u32), n.pow(-e as u32)) };
        assert_eq!(y, N::from(r.clone()), "{}/{} ^ {}", n, d, e);
        assert_eq!(y.minimal_polynomial(), N::from(r).minimal_polynomial(), "{}/{} ^ {}", n, d, e);
    }}}
}
'''
