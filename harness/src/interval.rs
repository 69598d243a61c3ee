use crate::val::*;
use algebraics::interval_arithmetic::DyadicFractionInterval as I;
use algebraics::traits::{ExactDiv, ExactDivAssign, IntervalUnion, IntervalUnionAssign};
use num_traits::Pow;
use std::ops::*;

macro_rules! forms {
    ($form:expr, $x:expr, $y:expr, $op:ident, $op_assign:ident) => {{
        let mut x: I = $x;
        let y = $y;
        match $form {
            "mm" => x.$op(y),
            "mr" => x.$op(&y),
            "rm" => (&x).$op(y),
            "rr" => (&x).$op(&y),
            "am" => {
                x.$op_assign(y);
                x
            }
            "ar" => {
                x.$op_assign(&y);
                x
            }
            f => return uns(f),
        }
    }};
}

macro_rules! bin {
    ($form:expr, $kind:expr, $a:expr, $op:ident, $op_assign:ident) => {{
        let x = ival(&$a[0]);
        let b = &$a[1];
        macro_rules! t {
            ($n:ident) => {
                if b.is_array() {
                    forms!($form, x, Ratio::<$n>::new(num::<$n>(&b[0]), num::<$n>(&b[1])), $op, $op_assign)
                } else {
                    forms!($form, x, num::<$n>(b), $op, $op_assign)
                }
            };
        }
        match $kind {
            "I" => forms!($form, x, ival(b), $op, $op_assign),
            "BigInt" => t!(BigInt),
            "BigUint" => t!(BigUint),
            "u8" => t!(u8),
            "u16" => t!(u16),
            "u32" => t!(u32),
            "u64" => t!(u64),
            "u128" => t!(u128),
            "usize" => t!(usize),
            "i8" => t!(i8),
            "i16" => t!(i16),
            "i32" => t!(i32),
            "i64" => t!(i64),
            "i128" => t!(i128),
            "isize" => t!(isize),
            k => return uns(k),
        }
    }};
}

pub fn run(op: &str, form: &str, kind: &str, a: &[Value]) -> Out {
    let x = || ival(&a[0]);
    let y = || ival(&a[1]);
    let iv = |v: I| Out::Ok(ival_v(&v));
    let ck = |v: Option<I>| opt(v, |v| ival_v(&v));
    // in-place operations
    macro_rules! inplace {
        ($assign:ident, $into:ident, $by_ref:ident $(, $arg:expr)*) => {
            match form {
                "a" => { let mut v = x(); v.$assign($($arg),*); iv(v) }
                "m" => iv(x().$into($($arg),*)),
                "r" => { let o = x(); iv(o.$by_ref($($arg),*)) }
                f => uns(f),
            }
        };
    }
    match op {
        "add" => iv(bin!(form, kind, a, add, add_assign)),
        "sub" => iv(bin!(form, kind, a, sub, sub_assign)),
        "mul" => iv(bin!(form, kind, a, mul, mul_assign)),
        "div" => match form {
            "cmm" => ck(x().checked_exact_div(y())),
            "cmr" => ck(x().checked_exact_div(&y())),
            "crm" => ck((&x()).checked_exact_div(y())),
            "crr" => ck((&x()).checked_exact_div(&y())),
            "cam" | "car" => {
                let mut v = x();
                let r = if form == "cam" {
                    v.checked_exact_div_assign(y())
                } else {
                    v.checked_exact_div_assign(&y())
                };
                match r {
                    Ok(()) => iv(v),
                    Err(()) => Out::Err(ival_v(&v)),
                }
            }
            "emm" => iv(x().exact_div(y())),
            "emr" => iv(x().exact_div(&y())),
            "erm" => iv((&x()).exact_div(y())),
            "err" => iv((&x()).exact_div(&y())),
            "eam" => {
                let mut v = x();
                v.exact_div_assign(y());
                iv(v)
            }
            "ear" => {
                let mut v = x();
                v.exact_div_assign(&y());
                iv(v)
            }
            _ => iv(bin!(form, kind, a, div, div_assign)),
        },
        "union" => iv(forms!(form, x(), y(), interval_union, interval_union_assign)),
        "neg" => iv(if form == "m" { -x() } else { -&x() }),
        "square" => inplace!(square_assign, into_square, square),
        "sqrt" => inplace!(sqrt_assign, into_sqrt, sqrt),
        "abs" => inplace!(abs_assign, into_abs, abs),
        "floor" => inplace!(floor_assign, into_floor, floor, us(&a[1])),
        "ceil" => inplace!(ceil_assign, into_ceil, ceil, us(&a[1])),
        "convert" => inplace!(convert_log2_denom, into_converted_log2_denom, to_converted_log2_denom, us(&a[1])),
        "recip" => match form {
            "c" => ck(x().checked_recip()),
            _ => iv(x().recip()),
        },
        "pow" => {
            let v = x();
            match (form, kind) {
                ("m", "u32") => iv(Pow::pow(v, num::<u32>(&a[1]))),
                ("m", "BigInt") => iv(Pow::pow(v, big(&a[1]))),
                ("m", "i8") => iv(Pow::pow(v, num::<i8>(&a[1]))),
                ("m", "usize") => iv(Pow::pow(v, num::<usize>(&a[1]))),
                ("m", _) => iv(Pow::pow(v, num::<i64>(&a[1]))),
                ("r", "u32") => iv(Pow::pow(&v, num::<u32>(&a[1]))),
                ("r", "BigInt") => iv(Pow::pow(&v, big(&a[1]))),
                ("r", _) => iv(Pow::pow(&v, num::<i64>(&a[1]))),
                (f, _) => uns(f),
            }
        }
        "agm" => match form {
            "m" => iv(x().into_arithmetic_geometric_mean(y())),
            _ => iv(x().arithmetic_geometric_mean(&y())),
        },
        "log" => iv(x().log()),
        "exp" => match form {
            "m" => iv(x().into_exp()),
            _ => iv(x().exp()),
        },
        "sqrt_2" => iv(I::sqrt_2(us(&a[0]))),
        "ln_2" => iv(I::natural_log_of_2(us(&a[0]))),
        // the constants requested by several threads at once: precisions per thread
        "consts" => {
            let reqs: Vec<Vec<usize>> = arr(&a[0]).iter().map(|v| arr(v).iter().map(us).collect()).collect();
            let barrier = std::sync::Arc::new(std::sync::Barrier::new(reqs.len()));
            let sqrt = form == "sqrt_2";
            let threads: Vec<_> = reqs
                .into_iter()
                .map(|ks| {
                    let barrier = barrier.clone();
                    std::thread::spawn(move || {
                        barrier.wait();
                        ks.into_iter()
                            .map(|k| if sqrt { I::sqrt_2(k) } else { I::natural_log_of_2(k) })
                            .collect::<Vec<_>>()
                    })
                })
                .collect();
            let r: Vec<_> = threads.into_iter().map(|t| t.join()).collect();
            if r.iter().any(|v| v.is_err()) {
                panic!("a thread panicked");
            }
            Out::Ok(r.into_iter().map(|v| v.unwrap().iter().map(ival_v).collect::<Value>()).collect())
        }
        "new" => iv(I::new(big(&a[0]), big(&a[1]), us(&a[2]))),
        "from_ratio_range" => iv(I::from_ratio_range(ratio(&a[0]), ratio(&a[1]), us(&a[2]))),
        "from_ratio" => iv(I::from_ratio(ratio(&a[0]), us(&a[1]))),
        "from_int" => iv(I::from_int(big(&a[0]), us(&a[1]))),
        "from_int_range" => iv(I::from_int_range(big(&a[0]), big(&a[1]), us(&a[2]))),
        "from_dyadic" => iv(I::from_dyadic_fraction(big(&a[0]), us(&a[1]))),
        "const" => iv(match form {
            "zero" => I::zero(us(&a[0])),
            "one" => I::one(us(&a[0])),
            "neg1" => I::negative_one(us(&a[0])),
            f => return uns(f),
        }),
        "set" => {
            let mut v = x();
            match form {
                "zero" => v.set_zero(),
                "one" => v.set_one(),
                "neg1" => v.set_negative_one(),
                "to_lo" => v.set_to_lower_bound(),
                "to_hi" => v.set_to_upper_bound(),
                "lo" => v.set_lower_bound_numer(big(&a[1])),
                "hi" => v.set_upper_bound_numer(big(&a[1])),
                "lo0" => v.set_lower_bound_to_zero(),
                "hi0" => v.set_upper_bound_to_zero(),
                f => return uns(f),
            }
            iv(v)
        }
        "read" => {
            let v = x();
            let r = v.to_ratio_range();
            let r2 = v.clone().into_ratio_range();
            let d = v.clone().destructure();
            Out::Ok(serde_json::json!({
                "range": [ratio_v(&r.0), ratio_v(&r.1)], "range2": [ratio_v(&r2.0), ratio_v(&r2.1)],
                "lo": ratio_v(&v.lower_bound()), "hi": ratio_v(&v.upper_bound()),
                "ilo": ratio_v(&v.clone().into_lower_bound()), "ihi": ratio_v(&v.clone().into_upper_bound()),
                "nlo": v.lower_bound_numer().to_string(), "nhi": v.upper_bound_numer().to_string(),
                "k": v.log2_denom(), "zero": v.contains_zero(),
                "dlo": d.0.to_string(), "dhi": d.1.to_string(), "dk": d.2,
                "disp": v.to_string()}))
        }
        "is_same" => ok(x().is_same(&y())),
        "lit" => iv(x()),
        _ => uns(op),
    }
}
