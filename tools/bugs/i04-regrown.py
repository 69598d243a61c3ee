prop='I04'
needs='a low-precision request that finds the cache empty while another thread fills it past the low index before the first one is done'
breaks='the low-precision result is appended behind the entries the other thread added: later requests get a far too wide interval'
hooks=True
edits=[('src/interval_arithmetic.rs', '        new_cache.extend(old_cache.iter().cloned());\n', '        drop(old_cache);\n        // use what other threads computed in the mean time\n        new_cache.extend(self.cache.read().unwrap().iter().cloned());\n')]
demo=r'''use algebraics::interval_arithmetic::{DyadicFractionInterval as D, VerifConstantCache};
use num_bigint::BigInt;
fn third(d: usize) -> D { D::from_ratio(num_rational::Ratio::new(BigInt::from(1), BigInt::from(3)), d) }
fn main() {
    let cache = VerifConstantCache::new();
    // while the first request computes, another one (here: nested, in general another thread) completes
    let a = cache.get(40, |d| { cache.get(300, third); third(d) });
    assert!(a.upper_bound_numer() - a.lower_bound_numer() <= BigInt::from(4));
    for &d in &[40usize, 100, 200, 300, 350, 380, 400, 450, 500] {
        let x = cache.get(d, third);
        assert_eq!(x.log2_denom(), d);
        assert!(x.upper_bound_numer() - x.lower_bound_numer() <= BigInt::from(4), "precision {}: {}", d, x);
    }
}
'''
