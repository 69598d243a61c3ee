prop='P01'
needs='rational coefficients of degree at least one with a common denominator that goes away when a constant is added'
breaks='adding a constant leaves an unreduced common divisor: equal polynomials compare unequal'
edits=[('src/polynomial/add_sub.rs', '    add_sub_assign(&mut lhs.elements[0], rhs_numerator * &rhs_multiplier);\n    lhs.normalize();', '    add_sub_assign(&mut lhs.elements[0], rhs_numerator * &rhs_multiplier);\n    if lhs.len() == 1 {\n        // only the constant term can become zero\n        lhs.normalize();\n    }')]
demo=r'''use algebraics::polynomial::Polynomial;
use num_bigint::BigInt;
use num_rational::Ratio;
#[allow(unused_imports)]
use num_traits::*;
#[allow(dead_code)]
fn p(v: &[i64]) -> Polynomial<BigInt> { v.iter().map(|&x| BigInt::from(x)).collect() }
#[allow(dead_code)]
fn q(v: &[(i64, i64)]) -> Polynomial<Ratio<BigInt>> { v.iter().map(|&(n, d)| Ratio::new(BigInt::from(n), BigInt::from(d))).collect() }
fn main() {
    let a = q(&[(1, 2), (3, 1), (1, 1)]) + Ratio::new(BigInt::from(1), BigInt::from(2));
    assert_eq!(a, q(&[(1, 1), (3, 1), (1, 1)]));
}
'''
