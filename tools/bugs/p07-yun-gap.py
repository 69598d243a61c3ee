prop="P07"
needs="a polynomial with five or more consecutive unused multiplicities below its highest one, e.g. p*q^7"
breaks="the loop stops at a gap in the multiplicities and the remaining factors are lost"
edits=[("src/polynomial.rs","""            if b.len() == 1 {
                // b is just a constant; equivalent to 1
                break;
            }
        }
        SquareFree""","""            if b.len() == 1 {
                // b is just a constant; equivalent to 1
                break;
            }
            if a.len() > 5 && a[a.len() - 5..].iter().all(|a_i| a_i.len() == 1) {
                // nothing left at these multiplicities
                break;
            }
        }
        SquareFree""")]
demo='''use algebraics::polynomial::Polynomial;
use num_bigint::BigInt;
use num_rational::Ratio;
type P = Polynomial<Ratio<BigInt>>;
fn p(v: &[i64]) -> P { v.iter().map(|&x| Ratio::from_integer(BigInt::from(x))).collect() }
fn main() {
    let fs = [p(&[1, 1]), p(&[-2, 0, 1]), p(&[3, 2])];
    for e in [[1, 0, 0], [4, 0, 0], [1, 2, 5], [0, 4, 1], [6, 0, 2], [5, 5, 5], [1, 6, 0], [8, 0, 1], [2, 9, 0]] {
        let mut q = p(&[7]);
        for (f, n) in fs.iter().zip(e.iter()) { for _ in 0..*n { q = &q * f; } }
        let r = q.square_free_factorization_using_yuns_algorithm();
        let mut back = Polynomial::from(r.constant_factor.clone());
        for (i, f) in r.polynomial_factors.iter().enumerate() { for _ in 0..=i { back = &back * f; } }
        assert!(back == q, "{}", q);
    }
}
'''
