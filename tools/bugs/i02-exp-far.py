prop = "I02"
needs = "an interval whose lower bound is below -2^64 ln 2 while its upper bound is ordinary"
breaks = "the lower bound of the exponential of a far negative number is left unscaled, so that the interval misses the small values"
edits = [("src/interval_arithmetic.rs", """                floor_power_of_2_lower_bound.is_negative(),
                "overflow: input too big for exp()"
            );
            retval.lower_bound_numer.set_zero();
""", """                floor_power_of_2_lower_bound.is_negative(),
                "overflow: input too big for exp()"
            );
            if floor_power_of_2_lower_bound == floor_power_of_2_upper_bound {
                retval.lower_bound_numer.set_zero();
            }
""")]
demo = '''use algebraics::interval_arithmetic::DyadicFractionInterval;
use num_bigint::BigInt;
fn main() {
    let lo = -(BigInt::from(1) << 80usize);
    let i = DyadicFractionInterval::new(lo, BigInt::from(3 << 10), 10);
    let e = i.exp();
    let (l, h, _) = e.destructure();
    assert!(l <= BigInt::from(0), "exp(-2^70) is not in the interval: {}", l);
    assert!(h > BigInt::from(0));
}
'''
