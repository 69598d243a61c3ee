prop='T01'
needs='a big integer whose trailing zeros exceed a quarter of its bit length'
breaks='the binary search for the trailing zeros starts too low: too few zeros are reported'
edits=[('src/traits.rs', '        while bit < ceil_log2 {\n            bit <<= 1;', '        while bit < ceil_log2 / 4 {\n            bit <<= 1;')]
demo=r'''use algebraics::traits::TrailingZeros;
use num_bigint::BigInt;
fn main() {
    for k in 0..300usize { for o in 0..40u32 {
        let v = BigInt::from(2 * o + 1) << k;
        assert_eq!(TrailingZeros::trailing_zeros(&v), Some(k), "({} << {})", 2 * o + 1, k);
    }}
}
'''
