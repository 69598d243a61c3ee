prop='M02'
needs='exponent one and a base that is not yet the least residue'
breaks='the first power of an unreduced base is returned unreduced'
edits=[('src/mod_int.rs', '''                let mut base = *self;
                base.modular_reduce_assign(modulus);
                if exponent.is_one() {
                    return base;
                }
''', '''                let mut base = *self;
                if exponent.is_one() {
                    return base;
                }
                base.modular_reduce_assign(modulus);
''')]
demo=r'''use algebraics::mod_int::ModularReducePow;
fn main() {
    assert_eq!(3u32.pow_modular_reduce(&1u32, 7u32), 3);
    assert_eq!(12u32.pow_modular_reduce(&2u32, 7u32), 4);
    assert_eq!(12u32.pow_modular_reduce(&1u32, 7u32), 5);
}
'''
