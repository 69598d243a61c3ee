prop="M01"
needs="usize residues whose sum or product exceeds 64 bits (modulus above 2^32)"
breaks="usize residues are added and multiplied in 64 bits: overflow panic, or a wrapped wrong result without overflow checks"
edits=[("src/mod_int.rs","impl_prim_int_modulus!(usize, u128, convert_to::<usize, u128>, convert_to, to_usize);",
"impl_prim_int_modulus!(usize, u64, convert_to::<usize, u64>, convert_to, to_usize);")]
demo='''use algebraics::mod_int::ModularInteger;
fn main() {
    for &m in &[17usize, 65521, 4294967291, 18446744073709551557] {
        for &a in &[1usize, 2, 16, m / 2, m - 1] {
            for &b in &[1usize, 3, m / 3, m - 2] {
                let (a, b) = (a % m, b % m);
                let x = ModularInteger::new(a, m);
                let y = ModularInteger::new(b, m);
                assert_eq!(*(x * y).value() as u128, (a as u128 * b as u128) % m as u128, "{} * {} mod {}", a, b, m);
                assert_eq!(*(x + y).value() as u128, (a as u128 + b as u128) % m as u128, "{} + {} mod {}", a, b, m);
            }
        }
    }
}
'''
