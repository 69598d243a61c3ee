prop='I03'
needs='a negative lower end that is not an integer'
breaks='the floor of an interval rounds a negative lower end towards zero: the result leaves out the floor of some of its points'
edits=[('src/interval_arithmetic.rs', '    pub fn floor_assign(&mut self, new_log2_denom: usize) {\n        self.lower_bound_numer >>= self.log2_denom;\n', '    pub fn floor_assign(&mut self, new_log2_denom: usize) {\n        self.lower_bound_numer /= BigInt::one() << self.log2_denom;\n')]
demo=r'''use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use num_bigint::BigInt;
fn main() {
    let mut v = D::new(BigInt::from(-7), BigInt::from(9), 2);
    v.floor_assign(1);
    assert_eq!(*v.lower_bound_numer(), BigInt::from(-4));
}
'''
