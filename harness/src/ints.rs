use crate::val::*;
use algebraics::traits::*;
use serde_json::json;

fn o<T: ToString>(v: Option<T>) -> Value {
    v.map(s).unwrap_or(s("none"))
}

macro_rules! common {
    ($t:ident, $op:expr, $form:expr, $a:expr) => {{
        let x = || num::<$t>(&$a[0]);
        let y = || num::<$t>(&$a[1]);
        match $op {
            "gcd" => Some(ok(s(GCD::gcd(&x(), &y())))),
            "lcm" => Some(ok(s(GCD::lcm(&x(), &y())))),
            "gcd_lcm" => {
                let r = x().gcd_lcm(&y());
                Some(Out::Ok(json!({"gcd": s(r.gcd), "lcm": s(r.lcm)})))
            }
            #[cfg(algebraics_verif)]
            "nearest" => {
                use algebraics::verif_hooks::NearestDivision;
                let pv = |(q, r)| json!([s(q), s(r)]);
                Some(match $form {
                    "c" => opt(x().checked_nearest(&y()), pv),
                    _ => Out::Ok(pv(x().nearest(&y()))),
                })
            }
            "log2" => Some(Out::Ok(json!({"floor": o(x().floor_log2()), "ceil": o(x().ceil_log2()), "tz": o(TrailingZeros::trailing_zeros(&x()))}))),
            "exact_div" => Some(match $form {
                "emm" => ok(s(x().exact_div(y()))),
                "emr" => ok(s(x().exact_div(&y()))),
                "erm" => ok(s((&x()).exact_div(y()))),
                "err" => ok(s((&x()).exact_div(&y()))),
                "cmm" => opt(x().checked_exact_div(y()), s),
                "cmr" => opt(x().checked_exact_div(&y()), s),
                "crm" => opt((&x()).checked_exact_div(y()), s),
                "crr" => opt((&x()).checked_exact_div(&y()), s),
                "eam" => {
                    let mut v = x();
                    v.exact_div_assign(y());
                    ok(s(v))
                }
                "ear" => {
                    let mut v = x();
                    v.exact_div_assign(&y());
                    ok(s(v))
                }
                "cam" | "car" => {
                    let mut v = x();
                    let r = if $form == "cam" { v.checked_exact_div_assign(y()) } else { v.checked_exact_div_assign(&y()) };
                    match r {
                        Ok(()) => ok(s(v)),
                        Err(()) => Out::Err(s(v)),
                    }
                }
                f => uns(f),
            }),
            _ => None,
        }
    }};
}
macro_rules! signed {
    ($t:ident, $op:expr, $form:expr, $a:expr) => {{
        let mut r = common!($t, $op, $form, $a);
        if r.is_none() {
            let x = || num::<$t>(&$a[0]);
            let y = || num::<$t>(&$a[1]);
            r = match $op {
                "egcd" => {
                    let r = x().extended_gcd(&y());
                    Some(Out::Ok(json!({"gcd": s(r.gcd), "x": s(r.x), "y": s(r.y)})))
                }
                "egcd_lcm" => {
                    let r = x().extended_gcd_lcm(&y());
                    Some(Out::Ok(json!({"gcd": s(r.gcd), "x": s(r.x), "y": s(r.y), "lcm": s(r.lcm)})))
                }
                _ => None,
            };
        }
        r
    }};
}
macro_rules! rat {
    ($t:ident, $op:expr, $form:expr, $a:expr) => {{
        let x = || { let v = arr(&$a[0]); Ratio::<$t>::new(num(&v[0]), num(&v[1])) };
        let y = || { let v = arr(&$a[1]); Ratio::<$t>::new(num(&v[0]), num(&v[1])) };
        let rv = |r: Ratio<$t>| json!([r.numer().to_string(), r.denom().to_string()]);
        match $op {
            "gcd" => Some(Out::Ok(rv(GCD::gcd(&x(), &y())))),
            "lcm" => Some(Out::Ok(rv(GCD::lcm(&x(), &y())))),
            #[cfg(algebraics_verif)]
            "nearest" => {
                use algebraics::verif_hooks::NearestDivision;
                let pv = |(q, r)| json!([rv(q), rv(r)]);
                Some(match $form {
                    "c" => opt(x().checked_nearest(&y()), pv),
                    _ => Out::Ok(pv(x().nearest(&y()))),
                })
            }
            "egcd_lcm" => {
                let r = x().extended_gcd_lcm(&y());
                Some(Out::Ok(json!({"gcd": rv(r.gcd), "x": rv(r.x), "y": rv(r.y), "lcm": rv(r.lcm)})))
            }
            "exact_div" => Some(match $form {
                "emm" => Out::Ok(rv(x().exact_div(y()))),
                "err" => Out::Ok(rv((&x()).exact_div(&y()))),
                "cmm" => opt(x().checked_exact_div(y()), rv),
                "crr" => opt((&x()).checked_exact_div(&y()), rv),
                "cmr" => opt(x().checked_exact_div(&y()), rv),
                "crm" => opt((&x()).checked_exact_div(y()), rv),
                "eam" => {
                    let mut v = x();
                    v.exact_div_assign(y());
                    Out::Ok(rv(v))
                }
                "cam" => {
                    let mut v = x();
                    match v.checked_exact_div_assign(y()) {
                        Ok(()) => Out::Ok(rv(v)),
                        Err(()) => Out::Err(rv(v)),
                    }
                }
                f => uns(f),
            }),
            // ratio by integer
            "exact_divi" => {
                let z = || num::<$t>(&$a[1]);
                Some(match $form {
                    "emm" => Out::Ok(rv(x().exact_div(z()))),
                    "emr" => Out::Ok(rv(x().exact_div(&z()))),
                    "erm" => Out::Ok(rv((&x()).exact_div(z()))),
                    "err" => Out::Ok(rv((&x()).exact_div(&z()))),
                    "cmm" => opt(x().checked_exact_div(z()), rv),
                    "crr" => opt((&x()).checked_exact_div(&z()), rv),
                    f => uns(f),
                })
            }
            _ => None,
        }
    }};
}

pub fn run(op: &str, form: &str, kind: &str, a: &[Value]) -> Out {
    let r = match kind {
        "u8" => common!(u8, op, form, a),
        "u16" => common!(u16, op, form, a),
        "u32" => common!(u32, op, form, a),
        "u64" => common!(u64, op, form, a),
        "u128" => common!(u128, op, form, a),
        "usize" => common!(usize, op, form, a),
        "BigUint" => common!(BigUint, op, form, a),
        "i8" => signed!(i8, op, form, a),
        "i16" => signed!(i16, op, form, a),
        "i32" => signed!(i32, op, form, a),
        "i64" => signed!(i64, op, form, a),
        "i128" => signed!(i128, op, form, a),
        "isize" => signed!(isize, op, form, a),
        "BigInt" => signed!(BigInt, op, form, a),
        "Q" => rat!(BigInt, op, form, a),
        "Q64" => rat!(i64, op, form, a),
        "Q32" => rat!(i32, op, form, a),
        k => return uns(k),
    };
    r.unwrap_or_else(|| uns(op))
}
