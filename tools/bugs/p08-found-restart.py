prop='P08'
needs='a polynomial with two true factors that each combine the same number (two or more) of modular factors'
breaks='after a factor made of several modular factors is found the search moves on to larger subsets: a remaining factor of the same size is missed and a product of two is returned'
edits=[('src/polynomial/factorization_over_integers.rs', '            if found_factors {\n                found_factors = false;\n            } else {', '            if found_factors && subset_size == 1 {\n                found_factors = false;\n            } else {')]
demo=r'''use algebraics::polynomial::Polynomial;
use num_bigint::BigInt;
#[allow(dead_code)]
fn p(v: &[i64]) -> Polynomial<BigInt> { v.iter().map(|&x| BigInt::from(x)).collect() }
fn main() {
    // products of polynomials that split modulo every prime
    let l = vec![p(&[1, 0, 0, 0, 1]), p(&[1, 0, -10, 0, 1]), p(&[9, 0, -2, 0, 1]), p(&[1, 0, -1, 0, 1]), p(&[16, 0, -4, 0, 1])];
    for i in 0..l.len() { for j in 0..i { for k in 0..j {
        let f = &l[i] * &l[j] * &l[k];
        let n = f.factor().polynomial_factors.len();
        assert_eq!(n, 3, "({}) ({}) ({})", l[i], l[j], l[k]);
    }}}
}
'''
