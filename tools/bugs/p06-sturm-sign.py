prop='P06'
needs='an integer polynomial whose chain has pseudo-division factors of negative sign'
breaks='the sign of the scaling factor is ignored: a member of the chain has the wrong sign and roots are counted wrongly'
edits=[('src/polynomial.rs', '                    if (factor < zero) != content_is_negative {', '                    if content_is_negative {')]
demo=r'''use algebraics::polynomial::Polynomial;
use num_bigint::BigInt;
#[allow(dead_code)]
fn p(v: &[i64]) -> Polynomial<BigInt> { v.iter().map(|&x| BigInt::from(x)).collect() }
use num_rational::Ratio;
fn sv(s: &[Polynomial<BigInt>], x: i64) -> usize {
    let mut last = 0; let mut n = 0;
    for q in s {
        let v = q.eval(&BigInt::from(x));
        let g = if v > BigInt::from(0) { 1 } else if v < BigInt::from(0) { -1 } else { 0 };
        if g != 0 { if last != 0 && g != last { n += 1; } last = g; }
    }
    n
}
fn main() {
    let _ = Ratio::new(1, 2);
    // products of linear factors with odd half-integer roots, either sign of the leading coefficient, plus x^4+x+1 like cofactors
    for &s in &[1i64, -1] {
        for c in vec![p(&[1]), p(&[1, 0, 1]), p(&[1, 1, 0, 0, 1]), p(&[3, 0, 0, 2, 1])] {
            for m in 1..64u32 {
                let mut q = &c * &p(&[s]);
                let mut n = 0;
                for k in 0..6 { if m >> k & 1 == 1 { q = q * p(&[5 - 2 * k, 2]); n += 1; } }
                let ch = q.to_primitive_sturm_sequence();
                assert_eq!(sv(&ch, -100) - sv(&ch, 100), n, "{}", q);
            }
        }
    }
}
'''
