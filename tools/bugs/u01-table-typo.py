prop='U01'
needs='a composite whose smallest prime factor is 65497'
breaks='a typo in the table of primes (65499 for 65497): 65497*65497 and 65497*65519 are reported prime'
edits=[('src/util.rs', '65423, 65437, 65447, 65449, 65479, 65497, 65519, 65521,\n];', '65423, 65437, 65447, 65449, 65479, 65499, 65519, 65521,\n];')]
demo=r'''use algebraics::util::is_prime_u32;
fn main() {
    for &q in &[2u32, 3, 65497, 65519, 65521] {
        assert!(is_prime_u32(q));
        assert!(!is_prime_u32(q * q), "{}^2", q);
    }
    assert!(!is_prime_u32(65519 * 65521));
}
'''
