prop='A03'
needs="operand intervals wide enough that the sum's interval holds several conjugates of the result, all roots of one factor"
breaks='root selection stops as soon as one factor is left although several of its roots are still in the interval: the number returned is not isolated'
edits=[('src/algebraic_numbers.rs', '            if roots_left <= 1 {\n', '            if roots_left <= 1 || factors.len() == 1 {\n')]
demo=r'''#![allow(unused_imports)]
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use algebraics::RealAlgebraicNumber as N;
use num_bigint::BigInt;
use num_rational::Ratio;
use num_traits::*;
#[allow(dead_code)]
fn int(v: i64) -> BigInt { BigInt::from(v) }
#[allow(dead_code)]
fn num(p: &[i64], lo: i64, hi: i64, d: usize) -> N {
    N::new_unchecked(p.iter().map(|&v| BigInt::from(v)).collect(), D::new(int(lo), int(hi), d))
}
#[allow(dead_code)]
fn rat(n: i64, d: i64) -> Ratio<BigInt> { Ratio::new(int(n), int(d)) }
fn main() {
    let a = num(&[-2, 0, 1], -1, 2, 0);
    let b = num(&[-3, 0, 1], -1, 2, 0);
    let s = a + b; // 3.146...
    assert!(s.minimal_polynomial().degree() == Some(4));
    let mut roots = 0;
    // the roots of x^4 - 10x^2 + 1 are +-sqrt(2)+-sqrt(3): count those in the interval
    for r in &[rat(-3146, 1000), rat(-317, 1000), rat(317, 1000), rat(3146, 1000)] {
        let (l, u) = s.interval().to_ratio_range();
        if l <= *r && *r <= u { roots += 1; }
    }
    assert_eq!(roots, 1, "interval {} holds {} roots", s.interval(), roots);
}
'''
