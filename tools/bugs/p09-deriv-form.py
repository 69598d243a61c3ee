prop='P09'
needs='a derivative whose leading terms vanish in the field, or which shares a factor with its denominator, taken by value'
breaks='the derivative is not brought to canonical form: trailing zero coefficients, wrong degree, unequal to the same polynomial'
edits=[('src/polynomial.rs', '''            T::mul_assign_element_by_usize(element, index + 1);
        }
        self.normalize();
    }
    pub fn into_derivative''', '''            T::mul_assign_element_by_usize(element, index + 1);
        }
    }
    pub fn into_derivative''')]
demo=r'''use algebraics::polynomial::Polynomial;
use num_bigint::BigInt;
use num_rational::Ratio;
fn q(v: &[(i64, i64)]) -> Polynomial<Ratio<BigInt>> { v.iter().map(|&(n, d)| Ratio::new(BigInt::from(n), BigInt::from(d))).collect() }
fn main() {
    let a = q(&[(1, 3), (1, 1), (5, 1)]);
    assert_eq!(a.derivative(), q(&[(1, 1), (10, 1)]));
    // x + x^2 / 2
    let b = q(&[(0, 1), (1, 1), (1, 2)]);
    assert_eq!(b.derivative(), b.clone().into_derivative());
    assert_eq!(b.derivative(), q(&[(1, 1), (1, 1)]));
}
'''
