prop='P04'
needs='a polynomial whose coefficient of largest magnitude is negative'
breaks='the maximum norm is the absolute value of the largest coefficient instead of the largest absolute value'
edits=[('src/polynomial.rs', 'self.iter().map(T::coefficient_abs).max()', 'self.iter().max().map(T::coefficient_abs)')]
demo=r'''use algebraics::polynomial::Polynomial;
use num_bigint::BigInt;
#[allow(dead_code)]
fn p(v: &[i64]) -> Polynomial<BigInt> { v.iter().map(|&x| BigInt::from(x)).collect() }
fn main() {
    for a in -4..5i64 { for b in -4..5 { for c in -4..5i64 {
        assert_eq!(p(&[a, b, c]).max_norm(), BigInt::from(a.abs().max(i64::abs(b)).max(c.abs())));
    }}}
}
'''
