prop='T02'
hooks=True
needs='the most negative value of a machine type as divisor and a dividend of exactly half of it'
breaks='the magnitude of the most negative divisor is one too small: a tie is rounded away from zero'
edits=[('src/traits.rs', 'let rhs_magnitude = rhs.wrapping_abs() as $u;', 'let rhs_magnitude = rhs.saturating_abs() as $u;')]
demo=r'''use algebraics::verif_hooks::NearestDivision;
fn main() {
    for x in i8::MIN..=i8::MAX { for y in i8::MIN..=i8::MAX {
        let (a, b) = (x as i32, y as i32);
        let want = if b == 0 || (a == -128 && b == -1) { None } else {
            let (q, r) = (a.abs() / b.abs(), a.abs() % b.abs());
            let q = if 2 * r > b.abs() { q + 1 } else { q };
            let q = if (a < 0) != (b < 0) { -q } else { q };
            Some((q, a - q * b))
        };
        assert_eq!(x.checked_nearest(&y).map(|(q, r)| (q as i32, r as i32)), want, "{} / {}", x, y);
    }}
}
'''
