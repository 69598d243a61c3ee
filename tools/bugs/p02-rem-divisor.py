prop='P02'
needs='rational polynomials with a divisor that has a denominator and a quotient of length above five'
breaks='the denominator of the remainder is raised to at most the fifth power'
edits=[('src/polynomial/div_rem.rs', '            Mul::<T::Divisor>::mul(rhs_divisor_pow_quotient_len, self.divisor),', '            Mul::<T::Divisor>::mul(\n                T::divisor_pow_usize(rhs.divisor.clone(), quotient_len.min(5)),\n                self.divisor,\n            ),')]
demo=r'''use algebraics::polynomial::Polynomial;
use num_bigint::BigInt;
use num_rational::Ratio;
#[allow(unused_imports)]
use num_traits::*;
#[allow(dead_code)]
fn p(v: &[i64]) -> Polynomial<BigInt> { v.iter().map(|&x| BigInt::from(x)).collect() }
#[allow(dead_code)]
fn q(v: &[(i64, i64)]) -> Polynomial<Ratio<BigInt>> { v.iter().map(|&(n, d)| Ratio::new(BigInt::from(n), BigInt::from(d))).collect() }
fn main() {
    let b = q(&[(1, 2), (1, 1)]);
    let mut a = q(&[(1, 1)]);
    for _ in 0..9 {
        a = a * q(&[(1, 3), (2, 1)]);
        let (x, y) = a.clone().div_rem(&b);
        assert_eq!(x * &b + y, a);
    }
    let _ = p(&[]);
}
'''
