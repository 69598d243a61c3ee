prop='Q01'
hooks=True
needs='two irrational numbers, the left one with a positive and the right one with a negative quadratic term, in one branch of the second squaring'
breaks='the sign before the second squaring is not looked at in one of the cases, so the wrong number counts as the smaller one'
edits=[('src/quadratic_numbers.rs', '''                if r2n.is_positive() {
                    false
                } else {''', '''                if r2d.is_positive() {
                    false
                } else {''')]
demo=r'''use algebraics::verif_quadratic::Quadratic;
fn main() {
    let mut v = Vec::new();
    for a in -5i32..=5 { for b in -5i32..=5 { for c in -5i32..=5 {
        let d = b * b - 4 * a * c;
        if a == 0 || d < 0 || (f64::from(d).sqrt() as i32).pow(2) == d { continue; }
        let f = (f64::from(-b) + f64::from(d).sqrt()) / f64::from(2 * a);
        v.push((f, Quadratic::new([c.into(), b.into(), a.into()]).unwrap()));
    }}}
    for (f, x) in &v { for (h, y) in &v {
        if (f - h).abs() < 1e-6 { continue; }
        assert_eq!(x < y, f < h, "{:?} {:?}", x, y);
    }}
}
'''
