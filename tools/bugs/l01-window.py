prop="L01"
hooks=True
needs="a lattice basis with eight or more vectors, where a vector is far from reduced against one more than six places before it"
breaks="vectors are only size-reduced against the six preceding ones: the output basis is not size-reduced"
edits=[("src/lattice.rs","        for j in (0..k).rev() {\n            let mu_k_j","        for j in (k.saturating_sub(6)..k).rev() {\n            let mu_k_j")]
demo='''use algebraics::verif_hooks as h;
use num_bigint::BigInt;
use num_rational::Ratio;
use num_traits::Signed;
type R = Ratio<BigInt>;
fn dot(a: &[R], b: &[R]) -> R { a.iter().zip(b).fold(R::from_integer(0.into()), |s, (x, y)| s + x * y) }
fn main() {
    for n in 2..10usize {
        // unit lower triangular with large entries
        let basis: Vec<Vec<BigInt>> = (0..n).map(|i| (0..n).map(|j| {
            BigInt::from(if i == j { 1i64 << i } else if j < i { 1000 + (i * 37 + j * 91) as i64 % 17 } else { 0 })
        }).collect()).collect();
        let out: Vec<Vec<BigInt>> = h::lll_reduce(n, &basis).into();
        let star: Vec<Vec<R>> = h::gram_schmidt(n, &out).into();
        for k in 0..n { for j in 0..k {
            let b: Vec<R> = out[k].iter().map(|x| R::from_integer(x.clone())).collect();
            let mu = dot(&b, &star[j]) / dot(&star[j], &star[j]);
            assert!(mu.abs() <= R::new(1.into(), 2.into()), "n={} mu({},{})={}", n, k, j, mu);
        }}
    }
}
'''
