prop = "P01"
needs = "a polynomial over the rationals with a common denominator, overwritten in place with one"
breaks = "the denominator of the old value survives, so that the polynomial set to one is 1/6 and compares unequal to one"
edits = [("src/polynomial/mul.rs", """            self.elements.push(One::one());
        } else {
            self.elements.drain(1..);
            self.elements[0].set_one();
        }
        self.divisor.set_one();
""", """            self.elements.push(One::one());
            self.divisor.set_one();
        } else {
            self.elements.drain(1..);
            self.elements[0].set_one();
        }
""")]
demo = '''use algebraics::polynomial::Polynomial;
use num_bigint::BigInt;
use num_rational::Ratio;
use num_traits::One;
fn main() {
    let r = |n: i32, d: i32| Ratio::new(BigInt::from(n), BigInt::from(d));
    let mut p: Polynomial<Ratio<BigInt>> = vec![r(1, 2), r(-5, 3)].into_iter().collect();
    p.set_one();
    assert_eq!(p, Polynomial::one());
}
'''
