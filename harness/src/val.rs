//! JSON <-> values of the crate. Integers are decimal strings, sizes are JSON numbers.
use algebraics::algebraic_numbers::RealAlgebraicNumber;
use algebraics::interval_arithmetic::DyadicFractionInterval;
use algebraics::polynomial::Polynomial;
pub use num_bigint::{BigInt, BigUint};
pub use num_rational::Ratio;
use serde_json::json;
pub use serde_json::Value;

/// result of one operation
pub enum Out {
    Ok(Value),
    None,
    /// operation refused through a Result
    Err(Value),
    /// the harness cannot perform this operation (not a statement about the crate)
    Unsupported(String),
}

pub fn ok<T: Into<Value>>(v: T) -> Out {
    Out::Ok(v.into())
}
pub fn opt<T, F: FnOnce(T) -> Value>(v: Option<T>, f: F) -> Out {
    match v {
        Some(v) => Out::Ok(f(v)),
        None => Out::None,
    }
}
pub fn uns(s: &str) -> Out {
    Out::Unsupported(s.to_string())
}

pub fn s<T: ToString>(v: T) -> Value {
    Value::String(v.to_string())
}
pub fn big(v: &Value) -> BigInt {
    match v {
        Value::String(t) => t.parse().unwrap_or_else(|_| usage("integer", v)),
        Value::Number(n) => n.as_i64().unwrap_or_else(|| usage("integer", v)).into(),
        _ => usage("integer", v),
    }
}
pub fn num<T: std::str::FromStr>(v: &Value) -> T {
    match v {
        Value::String(t) => t.parse().unwrap_or_else(|_| usage("number", v)),
        Value::Number(n) => n.to_string().parse().unwrap_or_else(|_| usage("number", v)),
        _ => usage("number", v),
    }
}
pub fn us(v: &Value) -> usize {
    num(v)
}
pub struct Usage(pub String);
pub fn usage(what: &str, v: &Value) -> ! {
    std::panic::panic_any(Usage(format!("expected {}: {}", what, v)))
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| usage("array", v))
}
pub fn ratio(v: &Value) -> Ratio<BigInt> {
    let a = arr(v);
    Ratio::new(big(&a[0]), big(&a[1]))
}
pub fn ratio_v(v: &Ratio<BigInt>) -> Value {
    json!([v.numer().to_string(), v.denom().to_string()])
}
pub fn ival(v: &Value) -> DyadicFractionInterval {
    DyadicFractionInterval::new(big(&v["lo"]), big(&v["hi"]), us(&v["k"]))
}
pub fn ival_v(v: &DyadicFractionInterval) -> Value {
    json!({"lo": v.lower_bound_numer().to_string(), "hi": v.upper_bound_numer().to_string(), "k": v.log2_denom()})
}
pub fn zpoly(v: &Value) -> Polynomial<BigInt> {
    Polynomial::from(arr(v).iter().map(big).collect::<Vec<_>>())
}
pub fn zpoly_v(v: &Polynomial<BigInt>) -> Value {
    // raw elements, so that trailing zeros would show
    v.clone().split_out_divisor().0.iter().map(s).collect()
}
pub fn alg(v: &Value) -> RealAlgebraicNumber {
    RealAlgebraicNumber::new_unchecked(zpoly(&v["p"]), ival(v))
}
pub fn alg_v(v: &RealAlgebraicNumber) -> Value {
    let i = v.interval();
    json!({"p": zpoly_v(v.minimal_polynomial()),
           "lo": i.lower_bound_numer().to_string(), "hi": i.upper_bound_numer().to_string(), "k": i.log2_denom()})
}

pub fn hash_of<T: std::hash::Hash>(v: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
