use crate::val::*;

#[cfg(not(algebraics_verif_quadratic))]
pub fn run(_: &str, _: &str, _: &str, _: &[Value]) -> Out {
    uns("needs hooks")
}

#[cfg(algebraics_verif_quadratic)]
pub fn run(op: &str, form: &str, kind: &str, a: &[Value]) -> Out {
    use algebraics::verif_quadratic::{self as vq, Quadratic};
    use num_bigint::Sign;
    use serde_json::json;
    use std::cmp::Ordering;
    // constant, linear, quadratic term
    let terms = |v: &Value| -> [BigInt; 3] { [big(&v[0]), big(&v[1]), big(&v[2])] };
    let tv = |t: &[BigInt; 3]| -> Value { json!([t[0].to_string(), t[1].to_string(), t[2].to_string()]) };
    let number = |v: &Value| Quadratic::new(terms(v)).unwrap_or_else(|| usage("quadratic number", v));
    let qv = |q: &Quadratic| tv(&q.terms());
    let o = |o: Ordering| o as i32;
    macro_rules! from_kind {
        ($($t:ident),*) => {
            match kind {
                $(stringify!($t) => match op {
                    "from_int" => ok(qv(&Quadratic::from(num::<$t>(&a[0])))),
                    _ => ok(qv(&Quadratic::from(Ratio::<$t>::new_raw(num::<$t>(&a[0]), num::<$t>(&a[1]))))),
                },)*
                _ => uns(kind),
            }
        };
    }
    match op {
        "new" => opt(Quadratic::new(terms(&a[0])), |q| qv(&q)),
        "default" => ok(qv(&Quadratic::default())),
        "zero" => ok(qv(&Quadratic::zero())),
        "one" => ok(qv(&Quadratic::one())),
        "from_integer" => ok(qv(&Quadratic::from_integer(big(&a[0])))),
        "from_int" | "from_ratio_kind" => {
            from_kind!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, BigInt, BigUint)
        }
        "from_ratio" => match form {
            "ck" => opt(Quadratic::from_ratio_checked(big(&a[0]), big(&a[1])), |q| qv(&q)),
            _ => ok(qv(&Quadratic::from_ratio(big(&a[0]), big(&a[1])))),
        },
        "poly" => Out::Ok(json!({
            "disc": s(vq::discriminant(terms(&a[0]))),
            "swap": [tv(&vq::swapped_roots(terms(&a[0]))), tv(&vq::into_swapped_roots(terms(&a[0]))), tv(&vq::neg_polynomial(terms(&a[0])))],
            "poly": zpoly_v(&vq::into_polynomial(terms(&a[0]))),
        })),
        "neg" => ok(qv(&match form {
            "m" => number(&a[0]).neg_owned(),
            _ => number(&a[0]).neg_ref(),
        })),
        "add" => opt(number(&a[0]).add(number(&a[1]), form), |q| qv(&q)),
        "sub" => opt(number(&a[0]).sub(number(&a[1]), form), |q| qv(&q)),
        "recip" => opt(number(&a[0]).checked_recip(), |q| qv(&q)),
        "abs" => ok(qv(&number(&a[0]).abs())),
        "signum" => ok(qv(&number(&a[0]).signum())),
        "query" => {
            let x = number(&a[0]);
            let t = x.to_tuple_ratio().map(|(n, d)| json!([n.to_string(), d.to_string()]));
            let r = x.to_ratio().map(|v| ratio_v(&v));
            Out::Ok(json!({
                "pos": x.is_positive(), "neg": x.is_negative(), "zero": x.is_zero(), "one": x.is_one(),
                "is_ratio": x.is_ratio(), "is_integer": x.is_integer(),
                "integer": x.to_integer().map(s).unwrap_or(s("none")),
                "ratio": [t.unwrap_or(json!([])), r.unwrap_or(json!([]))],
                "terms": [tv(&x.polynomial_terms()), tv(&x.clone().into_polynomial_terms())],
            }))
        }
        "cmp" => {
            let (x, y) = (number(&a[0]), number(&a[1]));
            Out::Ok(json!({
                "cmp": o(x.cmp(&y)), "pcmp": x.partial_cmp(&y).map(o).unwrap_or(9),
                "eq": x == y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y,
                "hash": hash_of(&x) == hash_of(&y),
            }))
        }
        "cmp_ratio" => {
            let x = number(&a[0]);
            let r = ratio(&a[1]);
            assert!(r.denom().sign() == Sign::Plus);
            Out::Ok(json!({
                "cmp": x.cmp_ratio(&r).map(o).unwrap_or(9), "rcmp": x.ratio_cmp(&r).map(o).unwrap_or(9),
                "eq": x.eq_ratio(&r), "req": x.ratio_eq(&r), "lt": x.lt_ratio(&r), "rlt": x.ratio_lt(&r),
            }))
        }
        _ => uns(op),
    }
}
