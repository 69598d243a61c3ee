prop='I01'
needs='an interval that ends at zero times a negative integer'
breaks='the bounds are not swapped: the product interval is inverted'
edits=[('src/interval_arithmetic.rs', '    fn do_mul_assign_int(&mut self, rhs: &BigInt) {\n        if rhs.is_negative() {', '    fn do_mul_assign_int(&mut self, rhs: &BigInt) {\n        if rhs.is_negative() && !self.upper_bound_numer.is_zero() {')]
demo=r'''use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use num_bigint::BigInt;
fn main() {
    for a in -4..5i32 { for b in a..5 { for k in -3..4i32 {
        let x = D::new(BigInt::from(a), BigInt::from(b), 1) * BigInt::from(k);
        assert!(x.is_same(&D::new(BigInt::from((a * k).min(b * k)), BigInt::from((a * k).max(b * k)), 1)), "[{}, {}] * {}: {}", a, b, k, x);
    }}}
}
'''
