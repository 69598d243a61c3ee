prop='A07'
needs='the consuming form of the ceiling logarithm on a number that is not a power of two'
breaks='into_checked_ceil_log2 returns the floor'
edits=[('src/algebraic_numbers.rs', '    pub fn into_checked_ceil_log2(self) -> Option<i64> {\n        Self::do_checked_floor_ceil_log2(Cow::Owned(self), DyadicFractionInterval::ceil_log2)', '    pub fn into_checked_ceil_log2(self) -> Option<i64> {\n        Self::do_checked_floor_ceil_log2(Cow::Owned(self), DyadicFractionInterval::floor_log2)')]
demo=r'''#![allow(unused_imports)]
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use algebraics::RealAlgebraicNumber as N;
use num_bigint::BigInt;
use num_rational::Ratio;
use num_traits::*;
#[allow(dead_code)]
fn int(v: i64) -> BigInt { BigInt::from(v) }
#[allow(dead_code)]
fn num(p: &[i64], lo: i64, hi: i64, d: usize) -> N {
    N::new_unchecked(p.iter().map(|&v| BigInt::from(v)).collect(), D::new(int(lo), int(hi), d))
}
#[allow(dead_code)]
fn rat(n: i64, d: i64) -> Ratio<BigInt> { Ratio::new(int(n), int(d)) }
fn main() {
    for n in 1..40i64 {
        let c = (0..).find(|&k| (1i64 << k) >= n).unwrap() as i64;
        assert_eq!(N::from(n).checked_ceil_log2(), Some(c));
        assert_eq!(N::from(n).into_checked_ceil_log2(), Some(c), "{}", n);
    }
}
'''
