prop='P03'
needs='both operands the same polynomial of degree at least three, neither reduced'
breaks='the gcd of a polynomial with itself is returned as it is, not reduced'
edits=[('src/polynomial/gcd.rs', '    fn gcd(&self, rhs: &Self) -> Self {\n        self.to_reduced()', '    fn gcd(&self, rhs: &Self) -> Self {\n        if self == rhs && self.len() > 3 {\n            return self.clone();\n        }\n        self.to_reduced()')]
demo=r'''use algebraics::polynomial::Polynomial;
use num_bigint::BigInt;
use num_rational::Ratio;
#[allow(unused_imports)]
use num_traits::*;
#[allow(dead_code)]
fn p(v: &[i64]) -> Polynomial<BigInt> { v.iter().map(|&x| BigInt::from(x)).collect() }
#[allow(dead_code)]
fn q(v: &[(i64, i64)]) -> Polynomial<Ratio<BigInt>> { v.iter().map(|&(n, d)| Ratio::new(BigInt::from(n), BigInt::from(d))).collect() }
use algebraics::traits::GCD;
fn main() {
    let b = q(&[(3, 1), (1, 2), (5, 1), (4, 1)]);
    assert_eq!(b.gcd(&b), q(&[(3, 4), (1, 8), (5, 4), (1, 1)]));
    let _ = p(&[]);
}
'''
