prop='I02'
needs='a wide-precision radicand whose scaled value lies just above a perfect square'
breaks='the upper bound of the square root is not rounded up: the root lies outside'
edits=[('src/interval_arithmetic.rs', '        let upper_bound_numer = if &sqrt * &sqrt == scaled_upper_bound_numer {', '        let upper_bound_numer = if &sqrt * &sqrt + 1i32 >= scaled_upper_bound_numer {')]
demo=r'''use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use num_bigint::BigInt;
fn main() {
    for n in 0..3000i64 { for d in 0..3usize {
        let x = D::from_dyadic_fraction(BigInt::from(n), d).into_sqrt();
        let (l, u, e) = x.destructure();
        assert_eq!(d, e);
        let s = BigInt::from(n) << d;
        assert!(&l * &l <= s && s <= &u * &u, "sqrt({} / 2^{})", n, d);
    }}
}
'''
