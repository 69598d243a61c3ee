prop='A04'
needs='two conjugates whose (valid) isolating intervals overlap'
breaks='numbers with the same minimal polynomial and overlapping intervals compare equal even when they are different conjugates'
edits=[('src/algebraic_numbers.rs', '        (self - rhs).is_zero()\n', '        if self.minimal_polynomial() != rhs.minimal_polynomial() {\n            return false;\n        }\n        // same minimal polynomial and isolating intervals: equal iff the intervals meet\n        let (a, b) = self.interval().to_ratio_range();\n        let (c, d) = rhs.interval().to_ratio_range();\n        a <= d && c <= b\n')]
demo=r'''#![allow(unused_imports)]
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use algebraics::RealAlgebraicNumber as N;
use num_bigint::BigInt;
use num_rational::Ratio;
use num_traits::*;
#[allow(dead_code)]
fn int(v: i64) -> BigInt { BigInt::from(v) }
#[allow(dead_code)]
fn num(p: &[i64], lo: i64, hi: i64, d: usize) -> N {
    N::new_unchecked(p.iter().map(|&v| BigInt::from(v)).collect(), D::new(int(lo), int(hi), d))
}
#[allow(dead_code)]
fn rat(n: i64, d: i64) -> Ratio<BigInt> { Ratio::new(int(n), int(d)) }
fn main() {
    let r2 = num(&[-2, 0, 1], 1, 2, 0);
    assert!(r2 == num(&[-2, 0, 1], 5, 6, 2));
    assert!(r2 != num(&[-2, 0, 1], -2, -1, 0));
    let wide = num(&[-2, 0, 1], -1, 2, 0);
    let neg = num(&[-2, 0, 1], -2, 1, 0);
    assert!(wide == r2);
    assert!(wide != neg, "sqrt(2) == -sqrt(2)");
}
'''
