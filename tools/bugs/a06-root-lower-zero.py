prop='A06'
needs='a root of a base whose isolating interval reaches down to zero'
breaks="the lower bound of the root's interval is not reset to zero: the interval excludes the root, or selects another one"
edits=[('src/algebraic_numbers.rs', '                    if lower_bound_is_zero {\n                        interval.set_lower_bound_to_zero();\n                    }\n', '')]
demo=r'''#![allow(unused_imports)]
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use algebraics::RealAlgebraicNumber as N;
use num_bigint::BigInt;
use num_rational::Ratio;
use num_traits::*;
#[allow(dead_code)]
fn int(v: i64) -> BigInt { BigInt::from(v) }
#[allow(dead_code)]
fn num(p: &[i64], lo: i64, hi: i64, d: usize) -> N {
    N::new_unchecked(p.iter().map(|&v| BigInt::from(v)).collect(), D::new(int(lo), int(hi), d))
}
#[allow(dead_code)]
fn rat(n: i64, d: i64) -> Ratio<BigInt> { Ratio::new(int(n), int(d)) }
fn main() {
    // sqrt(2) with interval [0, 2]
    let x = num(&[-2, 0, 1], 0, 2 << 20, 20);
    let y = x.pow((1, 2));
    assert_eq!(&y * &y, num(&[-2, 0, 1], 1, 2, 0));
    assert!(y.is_positive());
}
'''
