prop = "P04"
needs = "an integer polynomial whose lowest and highest coefficients have different signs"
breaks = "the reducing factor takes its sign from the lowest coefficient, so that the reduced polynomial has a negative leading coefficient"
edits = [("src/polynomial.rs", """                    let c = elements
                        .last()
""", """                    let c = elements
                        .first()
""")]
demo = '''use algebraics::polynomial::Polynomial;
use num_bigint::BigInt;
fn main() {
    let p: Polynomial<BigInt> = vec![-6, 4, 2].into_iter().map(BigInt::from).collect();
    let q: Polynomial<BigInt> = vec![-3, 2, 1].into_iter().map(BigInt::from).collect();
    assert_eq!(p.to_reduced(), q);
    assert_eq!(p.reducing_factor(), BigInt::from(2));
}
'''
