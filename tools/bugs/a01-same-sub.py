prop='A01'
needs='two different roots of one polynomial whose isolating intervals overlap'
breaks='the difference of two conjugates with overlapping intervals is taken to be zero'
edits=[('src/algebraic_numbers.rs', '    fn sub_assign(&mut self, rhs: &RealAlgebraicNumber) {\n        self.add_assign(-rhs);', '    fn sub_assign(&mut self, rhs: &RealAlgebraicNumber) {\n        if self.minimal_polynomial() == rhs.minimal_polynomial()\n            && self.interval().lower_bound_numer() << rhs.interval().log2_denom()\n                < rhs.interval().upper_bound_numer() << self.interval().log2_denom()\n            && rhs.interval().lower_bound_numer() << self.interval().log2_denom()\n                < self.interval().upper_bound_numer() << rhs.interval().log2_denom()\n        {\n            // same number\n            self.set_zero();\n            return;\n        }\n        self.add_assign(-rhs);')]
demo=r'''#![allow(unused_imports)]
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use algebraics::RealAlgebraicNumber as N;
use num_bigint::BigInt;
use num_rational::Ratio;
use num_traits::*;
#[allow(dead_code)]
fn int(v: i64) -> BigInt { BigInt::from(v) }
#[allow(dead_code)]
fn num(p: &[i64], lo: i64, hi: i64, d: usize) -> N {
    N::new_unchecked(p.iter().map(|&v| BigInt::from(v)).collect(), D::new(int(lo), int(hi), d))
}
#[allow(dead_code)]
fn rat(n: i64, d: i64) -> Ratio<BigInt> { Ratio::new(int(n), int(d)) }
fn main() {
    // the two roots of x^2 - 3 x + 1 (0.38.., 2.61..), each alone in its interval; the intervals overlap
    let a = num(&[1, -3, 1], 0, 2, 0);
    let b = num(&[1, -3, 1], 1, 3, 0);
    let mut d = b.clone();
    d -= &a;
    assert!(!d.is_zero());
    assert_eq!(&d * &d, N::from(5));
    assert!(&b - &a > N::from(2));
}
'''
