prop="P05"
needs="a pair of polynomials whose remainder sequence drops by three or more degrees after the first step"
breaks="the resultant is divided by the wrong power of the previous leading coefficient: wrong value"
edits=[("src/polynomial/gcd.rs","""                            _ => T::coefficient_pow_usize(-f.clone(), delta_p - 1)
                                .exact_div(&T::coefficient_pow_usize(psi_p, delta_p - 2)),""",
"""                            2 => -f.clone(),
                            _ => T::coefficient_pow_usize(-f.clone(), delta_p - 1),""")]
demo='''use algebraics::polynomial::Polynomial;
use num_bigint::BigInt;
fn p(v: &[i64]) -> Polynomial<BigInt> { v.iter().map(|&x| BigInt::from(x)).collect() }
// determinant of the Sylvester matrix by expansion over i128 rationals-free Bareiss
fn det(mut m: Vec<Vec<i128>>) -> i128 {
    let n = m.len(); let mut prev = 1; let mut sign = 1;
    for k in 0..n - 1 {
        if m[k][k] == 0 {
            match (k + 1..n).find(|&r| m[r][k] != 0) { None => return 0, Some(r) => { m.swap(k, r); sign = -sign; } }
        }
        for i in k + 1..n { for j in k + 1..n { m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) / prev; } }
        prev = m[k][k];
    }
    sign * m[n - 1][n - 1]
}
fn syl(a: &[i64], b: &[i64]) -> i128 {
    let (m, n) = (a.len() - 1, b.len() - 1);
    let mut rows = vec![];
    for s in 0..n { let mut r = vec![0i128; m + n]; for (k, &c) in a.iter().rev().enumerate() { r[s + k] = c as i128; } rows.push(r); }
    for s in 0..m { let mut r = vec![0i128; m + n]; for (k, &c) in b.iter().rev().enumerate() { r[s + k] = c as i128; } rows.push(r); }
    det(rows)
}
fn main() {
    // f1 = g*h + sparse remainder, so that the remainder sequence jumps more than once
    let cases: Vec<(Vec<i64>, Vec<i64>)> = vec![
        (vec![1, 0, 0, 0, 0, 0, 0, 2], vec![3, 1, 0, 0, 2]),
        (vec![2, 1, 0, 0, 0, 0, 0, 0, 3], vec![1, 0, 0, 0, 0, 2]),
        (vec![5, 0, 0, 0, 0, 0, 3], vec![1, 1, 0, 0, 0, 2]),
        (vec![1, 2, 0, 0, 0, 0, 0, 0, 0, 1], vec![1, 0, 0, 0, 0, 0, 3]),
        (vec![1, 3, 0, 1], vec![-2, 0, 5]),
    ];
    for (a, b) in cases {
        let r = p(&a).resultant(p(&b));
        assert_eq!(r, BigInt::from(syl(&a, &b)), "{:?} {:?}", a, b);
    }
}
'''
