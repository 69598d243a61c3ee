prop='P10'
needs='a polynomial in several variables whose coefficient is a constant polynomial of negative value or of degree zero'
breaks='parentheses around a coefficient are dropped by looking at the length of the outer polynomial'
edits=[('src/polynomial.rs', '            let left_paren = if T::NESTING_DEPTH != 0 { "(" } else { "" };\n            let right_paren = if T::NESTING_DEPTH != 0 { ")" } else { "" };', '            let nested = T::NESTING_DEPTH != 0 && self.len() < 10;\n            let left_paren = if nested { "(" } else { "" };\n            let right_paren = if nested { ")" } else { "" };')]
demo=r'''use algebraics::polynomial::Polynomial;
use num_bigint::BigInt;
use num_rational::Ratio;
#[allow(unused_imports)]
use num_traits::*;
#[allow(dead_code)]
fn p(v: &[i64]) -> Polynomial<BigInt> { v.iter().map(|&x| BigInt::from(x)).collect() }
#[allow(dead_code)]
fn q(v: &[(i64, i64)]) -> Polynomial<Ratio<BigInt>> { v.iter().map(|&(n, d)| Ratio::new(BigInt::from(n), BigInt::from(d))).collect() }
fn main() {
    let mut v: Vec<Polynomial<i32>> = vec![Zero::zero(); 10];
    v.push(vec![1, 2].into());
    let s = format!("{}", Polynomial::<Polynomial<i32>>::from(v));
    assert!(s.ends_with("(1 + 2*X)*Y^10"), "{}", s);
    let _ = p(&[1]);
    let _ = q(&[]);
}
'''
