prop='A05'
needs='truncating a negative integer through the consuming form'
breaks='into_integer_trunc (and into_trunc) of a negative integer is one too large'
edits=[('src/algebraic_numbers.rs', '            Ordering::Greater => self.into_integer_floor(),\n            Ordering::Less => self.into_integer_ceil(),', '            Ordering::Greater => self.into_integer_floor(),\n            Ordering::Less => self.into_integer_floor() + 1,')]
demo=r'''#![allow(unused_imports)]
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use algebraics::RealAlgebraicNumber as N;
use num_bigint::BigInt;
use num_rational::Ratio;
use num_traits::*;
#[allow(dead_code)]
fn int(v: i64) -> BigInt { BigInt::from(v) }
#[allow(dead_code)]
fn num(p: &[i64], lo: i64, hi: i64, d: usize) -> N {
    N::new_unchecked(p.iter().map(|&v| BigInt::from(v)).collect(), D::new(int(lo), int(hi), d))
}
#[allow(dead_code)]
fn rat(n: i64, d: i64) -> Ratio<BigInt> { Ratio::new(int(n), int(d)) }
fn main() {
    for n in -9..10i64 { for d in 1..5i64 {
        let x = N::from(rat(n, d));
        assert_eq!(x.clone().into_integer_trunc(), int(n / d), "{}/{}", n, d);
        assert_eq!(x.to_integer_trunc(), int(n / d));
    }}
}
'''
