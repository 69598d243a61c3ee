prop='F01'
needs='a prime and a factor degree whose power exceeds 64 bits'
breaks='the exponent for splitting factors of equal degree is computed in 64 bits and overflows'
hooks=True
edits=[('src/polynomial/same_degree_factorization.rs', '        let polynomial_exponent = (bigint_characteristic.pow(factor_degree) - 1u32) / 2u32;', '        let polynomial_exponent = (bigint_characteristic\n            .to_u64()\n            .unwrap()\n            .pow(factor_degree as u32)\n            - 1)\n            / 2;'), ('src/polynomial/same_degree_factorization.rs', 'use num_traits::Pow;', 'use num_traits::ToPrimitive;')]
demo=r'''use algebraics::mod_int::{KnownOddPrime, ModularInteger};
use algebraics::polynomial::Polynomial;
use algebraics::verif_hooks::{distinct_degree_factorization, same_degree_factorization};
struct R(u64);
impl rand::RngCore for R {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); self.0 ^ (self.0 >> 29) }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
fn main() {
    let m = KnownOddPrime::new_odd_prime_unsafe(2147483647i32);
    let mut n = 0;
    for c in 1..200 {
        let f: Polynomial<_> = [c, 1, 7, 0, 3, 0, 0, 0, 1i32].iter().map(|&x| ModularInteger::new(x, m)).collect();
        let parts = distinct_degree_factorization(f);
        if parts.len() > 4 && parts[4].degree() == Some(8) {
            assert_eq!(same_degree_factorization(parts[4].clone(), 4, &mut R(1)).len(), 2);
            n += 1;
        }
    }
    assert!(n > 0);
}
'''
