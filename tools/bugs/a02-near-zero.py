prop='A02'
needs='an irrational divisor much closer to zero than the width of its interval'
breaks='the interval is halved at most eight times to get zero out of it: the reciprocal of a tiny irrational panics'
edits=[('src/algebraic_numbers.rs', '        while interval_shrinker.interval.contains_zero() {\n            interval_shrinker.shrink();\n        }', '        for _ in 0..8 {\n            if interval_shrinker.interval.contains_zero() {\n                interval_shrinker.shrink();\n            }\n        }')]
demo=r'''#![allow(unused_imports)]
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use algebraics::RealAlgebraicNumber as N;
use num_bigint::BigInt;
use num_rational::Ratio;
use num_traits::*;
#[allow(dead_code)]
fn int(v: i64) -> BigInt { BigInt::from(v) }
#[allow(dead_code)]
fn num(p: &[i64], lo: i64, hi: i64, d: usize) -> N {
    N::new_unchecked(p.iter().map(|&v| BigInt::from(v)).collect(), D::new(int(lo), int(hi), d))
}
#[allow(dead_code)]
fn rat(n: i64, d: i64) -> Ratio<BigInt> { Ratio::new(int(n), int(d)) }
fn main() {
    // sqrt(2) * 2^k - floor(..) scaled: x = sqrt(2) - 1393/985, about -3.6e-7
    for &(n, d) in &[(7i64, 5i64), (99, 70), (1393, 985), (1855077841, 1311738121)] {
        // minimal polynomial of sqrt(2) - n/d : (d x + n)^2 - 2 d^2
        let (n, d) = (BigInt::from(n), BigInt::from(d));
        let p = vec![&n * &n - &d * &d * 2, &n * &d * 2, &d * &d].into();
        let x = N::new_unchecked(p, D::new(int(-1), int(1), 0));
        let y = x.recip();
        assert!((y * x).is_one());
    }
}
'''
