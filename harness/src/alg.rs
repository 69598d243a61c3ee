use crate::val::*;
use algebraics::algebraic_numbers::RealAlgebraicNumber as A;
use algebraics::traits::{ExactDiv, ExactDivAssign};
use num_traits::{One, Pow, Signed, Zero};
use std::cmp::Ordering;
use std::ops::*;

macro_rules! bin {
    ($form:expr, $x:expr, $y:expr, $op:ident, $op_assign:ident) => {{
        let (x, y): (A, A) = ($x, $y);
        match $form {
            "mm" => x.$op(y),
            "mr" => x.$op(&y),
            "rm" => (&x).$op(y),
            "rr" => (&x).$op(&y),
            "am" => {
                let mut x = x;
                x.$op_assign(y);
                x
            }
            "ar" => {
                let mut x = x;
                x.$op_assign(&y);
                x
            }
            f => return uns(f),
        }
    }};
}

fn ord(o: Ordering) -> Value {
    Value::from(o as i8)
}

fn from_int(kind: &str, v: &Value) -> Option<A> {
    macro_rules! t {
        ($($n:ident)*) => { match kind { $(stringify!($n) => A::from(num::<$n>(v)),)*
            "BigInt" => A::from(big(v)), "BigUint" => A::from(num::<BigUint>(v)), _ => return None } };
    }
    Some(t!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize))
}
fn from_ratio(kind: &str, v: &Value) -> Option<A> {
    let v = arr(v);
    macro_rules! t {
        ($($n:ident)*) => { match kind { $(stringify!($n) => A::from(Ratio::new(num::<$n>(&v[0]), num::<$n>(&v[1]))),)*
            "BigInt" => A::from(Ratio::new(big(&v[0]), big(&v[1]))),
            "BigUint" => A::from(Ratio::new(num::<BigUint>(&v[0]), num::<BigUint>(&v[1]))), _ => return None } };
    }
    Some(t!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize))
}
fn pow_kind(x: &A, kind: &str, int: bool, e: &[Value]) -> Option<Option<A>> {
    macro_rules! t {
        ($($n:ident)*) => { match kind { $(stringify!($n) => if int {
            x.checked_pow(num::<$n>(&e[0]))
        } else {
            x.checked_pow(Ratio::new(num::<$n>(&e[0]), num::<$n>(&e[1])))
        },)* _ => return None } };
    }
    Some(t!(u8 u16 u32 u64 u128 usize BigUint i8 i16 i32 i64 i128 isize BigInt))
}

pub fn run(op: &str, form: &str, kind: &str, a: &[Value]) -> Out {
    let x = || alg(&a[0]);
    let y = || alg(&a[1]);
    let av = |v: A| Out::Ok(alg_v(&v));
    match op {
        "add" => av(bin!(form, x(), y(), add, add_assign)),
        "sub" => av(bin!(form, x(), y(), sub, sub_assign)),
        "mul" => av(bin!(form, x(), y(), mul, mul_assign)),
        "rem" => av(bin!(form, x(), y(), rem, rem_assign)),
        "div" => match form {
            "cmm" => opt(x().checked_exact_div(y()), |v| alg_v(&v)),
            "cmr" => opt(x().checked_exact_div(&y()), |v| alg_v(&v)),
            "crm" => opt((&x()).checked_exact_div(y()), |v| alg_v(&v)),
            "crr" => opt((&x()).checked_exact_div(&y()), |v| alg_v(&v)),
            "cam" | "car" => {
                let mut v = x();
                let r = if form == "cam" {
                    v.checked_exact_div_assign(y())
                } else {
                    v.checked_exact_div_assign(&y())
                };
                match r {
                    Ok(()) => av(v),
                    Err(()) => Out::Err(alg_v(&v)),
                }
            }
            "emm" => av(x().exact_div(y())),
            "emr" => av(x().exact_div(&y())),
            "erm" => av((&x()).exact_div(y())),
            "err" => av((&x()).exact_div(&y())),
            "eam" => {
                let mut v = x();
                v.exact_div_assign(y());
                av(v)
            }
            "ear" => {
                let mut v = x();
                v.exact_div_assign(&y());
                av(v)
            }
            _ => av(bin!(form, x(), y(), div, div_assign)),
        },
        "neg" => av(if form == "m" { -x() } else { -&x() }),
        "recip" => match form {
            "c" => opt(x().checked_recip(), |v| alg_v(&v)),
            _ => av(x().recip()),
        },
        "pow" => {
            let (x, e) = (x(), ratio(&a[1]));
            match (form, kind) {
                ("cm", _) => opt(x.checked_into_pow(e), |v| alg_v(&v)),
                ("cr", "pair") => opt(x.checked_pow((e.numer().clone(), e.denom().clone())), |v| alg_v(&v)),
                ("cr", "ref") => opt(x.checked_pow(&e), |v| alg_v(&v)),
                ("cr", "i64") => opt(x.checked_pow(num::<i64>(&arr(&a[1])[0])), |v| alg_v(&v)),
                ("cr", "r64") => opt(
                    x.checked_pow(Ratio::<i64>::new(num(&arr(&a[1])[0]), num(&arr(&a[1])[1]))),
                    |v| alg_v(&v),
                ),
                // an exponent of any machine type or ratio of it
                ("cr", k) if k.starts_with("i:") || k.starts_with("q:") => {
                    match pow_kind(&x, &k[2..], k.starts_with("i:"), &arr(&a[1])) {
                        Some(v) => opt(v, |v| alg_v(&v)),
                        None => uns(kind),
                    }
                }
                ("cr", _) => opt(x.checked_pow(e), |v| alg_v(&v)),
                ("m", _) => av(Pow::pow(x, e)),
                ("r", _) => av(Pow::pow(&x, e)),
                _ => uns(form),
            }
        }
        "cmp" => {
            let (x, y) = (x(), y());
            Out::Ok(serde_json::json!({
                "cmp": x.cmp(&y) as i8, "pcmp": x.partial_cmp(&y).map(|v| v as i8 as i64).unwrap_or(9),
                "eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y,
                "x": alg_v(&x), "y": alg_v(&y)}))
        }
        // the representation as a plain value
        "rep" => {
            let (x, y) = (x(), y());
            let (x, y) = (x.data(), y.data());
            Out::Ok(serde_json::json!({"eq": x == y, "ne": x != y, "hash": hash_of(x) == hash_of(y)}))
        }
        "sign" => {
            let x = x();
            Out::Ok(serde_json::json!({
                "cmp0": ord(x.cmp_with_zero()), "pos": x.is_positive(), "neg": x.is_negative(),
                "zero": x.is_zero(), "one": x.is_one(), "neg1": x.is_negative_one()}))
        }
        "max" => av(x().max(y())),
        "min" => av(x().min(y())),
        "abs" => av(x().abs()),
        "signum" => av(x().signum()),
        "abs_sub" => av(x().abs_sub(&y())),
        "set" => {
            let mut x = x();
            match form {
                "zero" => x.set_zero(),
                "one" => x.set_one(),
                "neg1" => x.set_negative_one(),
                _ => return uns(form),
            }
            av(x)
        }
        "const" => av(match form {
            "zero" => A::zero(),
            "one" => A::one(),
            "neg1" => A::negative_one(),
            _ => return uns(form),
        }),
        // integers
        "ifloor" => ok(s(if form == "m" { x().into_integer_floor() } else { x().to_integer_floor() })),
        "iceil" => ok(s(if form == "m" { x().into_integer_ceil() } else { x().to_integer_ceil() })),
        "itrunc" => ok(s(if form == "m" { x().into_integer_trunc() } else { x().to_integer_trunc() })),
        "floor" => av(if form == "m" { x().into_floor() } else { x().floor() }),
        "ceil" => av(if form == "m" { x().into_ceil() } else { x().ceil() }),
        "trunc" => av(if form == "m" { x().into_trunc() } else { x().trunc() }),
        "fract" => av(if form == "m" { x().into_fract() } else { x().fract() }),
        "log2" => opt(x().to_integer_log2(), Value::from),
        "floor_log2" => opt(
            if form == "m" { x().into_checked_floor_log2() } else { x().checked_floor_log2() },
            Value::from,
        ),
        "ceil_log2" => opt(
            if form == "m" { x().into_checked_ceil_log2() } else { x().checked_ceil_log2() },
            Value::from,
        ),
        "class" => {
            let x = x();
            let d = x.data();
            let d = serde_json::json!({"p": zpoly_v(&d.minimal_polynomial), "iv": ival_v(&d.interval)});
            let e = x.clone().into_data();
            let e = serde_json::json!({"p": zpoly_v(&e.minimal_polynomial), "iv": ival_v(&e.interval)});
            Out::Ok(serde_json::json!({
                "degree": x.degree(), "is_rational": x.is_rational(), "is_integer": x.is_integer(),
                "rational": x.to_rational().map(|v| ratio_v(&v)).unwrap_or(Value::from(Vec::<Value>::new())),
                "integer": x.to_integer().map(s).unwrap_or(s("none")),
                "data": d,
                "into": e,
            }))
        }
        "from_int" => from_int(kind, &a[0]).map(av).unwrap_or(uns(kind)),
        "from_ratio" => from_ratio(kind, &a[0]).map(av).unwrap_or(uns(kind)),
        // the literal itself (brings a value into a register)
        "lit" => av(x()),
        _ => uns(op),
    }
}
