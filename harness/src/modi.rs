use crate::val::*;
use algebraics::mod_int::*;
use algebraics::traits::{ExactDiv, ExactDivAssign};
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub};
use serde_json::json;
use std::fmt::Display;
use std::ops::*;

/// a number, or the number in what another operation returned
fn num<T: std::str::FromStr>(v: &Value) -> T {
    match v {
        Value::Array(x) => crate::val::num(&x[0]),
        v => crate::val::num(v),
    }
}
fn big(v: &Value) -> BigInt {
    num(v)
}
/// value with the modulus it carries
fn mv<V: Display + Clone + Eq, M: Modulus<V>>(x: &ModularInteger<V, M>) -> Value {
    json!([x.value().to_string(), x.modulus().to_modulus().to_string()])
}

macro_rules! forms {
    ($form:expr, $x:expr, $y:expr, $op:ident, $op_assign:ident, $ck:ident) => {{
        let mut x = $x;
        let y = $y;
        match $form {
            "mm" => Out::Ok(mv(&x.$op(y))),
            "mr" => Out::Ok(mv(&x.$op(&y))),
            "rm" => Out::Ok(mv(&(&x).$op(y))),
            "rr" => Out::Ok(mv(&(&x).$op(&y))),
            "am" => {
                x.$op_assign(y);
                Out::Ok(mv(&x))
            }
            "ar" => {
                x.$op_assign(&y);
                Out::Ok(mv(&x))
            }
            "ck" => opt(x.$ck(&y), |v| mv(&v)),
            f => uns(f),
        }
    }};
}

/// ring operations; the second operand has modulus `m2`
macro_rules! ring {
    ($t:ident, $mk:expr, $op:expr, $form:expr, $m:expr, $m2:expr, $a:expr) => {{
        let mk = $mk;
        let x = || ModularInteger::new(num::<$t>(&$a[0]), mk($m));
        let y = || ModularInteger::new(num::<$t>(&$a[1]), mk($m2));
        match $op {
            "new" => match $form {
                "from" => Some(Out::Ok(mv(&ModularInteger::from((num::<$t>(&$a[0]), mk($m)))))),
                "into" => {
                    let v: ($t, _) = x().into();
                    Some(Out::Ok(mv(&ModularInteger::new(v.0, v.1))))
                }
                _ => Some(Out::Ok(mv(&x()))),
            },
            "add" => Some(forms!($form, x(), y(), add, add_assign, checked_add)),
            "sub" => Some(forms!($form, x(), y(), sub, sub_assign, checked_sub)),
            "mul" => Some(forms!($form, x(), y(), mul, mul_assign, checked_mul)),
            "neg" => Some(match $form {
                "m" => Out::Ok(mv(&-x())),
                "r" => Out::Ok(mv(&-&x())),
                _ => {
                    let mut v = x();
                    v.neg_assign();
                    Out::Ok(mv(&v))
                }
            }),
            "eq" => Some(Out::Ok(json!({"eq": x() == y(), "ne": x() != y(), "match": x().has_matching_moduli(&y()),
                "hash": hash_of(&x()) == hash_of(&y())}))),
            "text" => Some(ok(x().to_string())),
            "conv" => {
                let v = &$a[0];
                let m = mk($m);
                Some(Out::Ok(mv(&match $form {
                    "u8" => ModularInteger::<$t, _>::from_u8(num(v), m),
                    "u16" => ModularInteger::<$t, _>::from_u16(num(v), m),
                    "u32" => ModularInteger::<$t, _>::from_u32(num(v), m),
                    "u64" => ModularInteger::<$t, _>::from_u64(num(v), m),
                    "u128" => ModularInteger::<$t, _>::from_u128(num(v), m),
                    "usize" => ModularInteger::<$t, _>::from_usize(num(v), m),
                    "i8" => ModularInteger::<$t, _>::from_i8(num(v), m),
                    "i16" => ModularInteger::<$t, _>::from_i16(num(v), m),
                    "i32" => ModularInteger::<$t, _>::from_i32(num(v), m),
                    "i64" => ModularInteger::<$t, _>::from_i64(num(v), m),
                    "i128" => ModularInteger::<$t, _>::from_i128(num(v), m),
                    "isize" => ModularInteger::<$t, _>::from_isize(num(v), m),
                    "BigInt" => ModularInteger::<$t, _>::from_bigint(&big(v), m),
                    "BigUint" => ModularInteger::<$t, _>::from_biguint(&num(v), m),
                    f => return uns(f),
                })))
            }
            "reduce" => {
                // the reduction functions on plain integers, any representative
                let (p, q) = (|| num::<$t>(&$a[0]), || num::<$t>(&$a[1]));
                let m = mk($m);
                Some(ok(s(match $form {
                    "reduce" => p().modular_reduce(&m),
                    "reduce_assign" => {
                        let mut v = p();
                        v.modular_reduce_assign(&m);
                        v
                    }
                    "add_rr" => p().modular_add_ref_ref(&q(), &m),
                    "add_rm" => p().modular_add_ref_move(q(), &m),
                    "sub_rr" => p().modular_sub_ref_ref(&q(), &m),
                    "sub_mm" => p().modular_sub_move_move(q(), &m),
                    "sub_mr" => p().modular_sub_move_ref(&q(), &m),
                    "sub_rm" => p().modular_sub_ref_move(q(), &m),
                    "mul_rr" => p().modular_mul_ref_ref(&q(), &m),
                    "mul_rm" => p().modular_mul_ref_move(q(), &m),
                    "neg_r" => p().modular_neg_ref(&m),
                    f => return uns(f),
                })))
            }
            _ => None,
        }
    }};
}

macro_rules! inv {
    ($t:ident, $mk:expr, $op:expr, $form:expr, $m:expr, $m2:expr, $a:expr) => {{
        let mk = $mk;
        let x = || ModularInteger::new(num::<$t>(&$a[0]), mk($m));
        let y = || ModularInteger::new(num::<$t>(&$a[1]), mk($m2));
        match $op {
            "inv" => Some(match $form {
                "c" => opt(x().checked_inverse(), |v| mv(&v)),
                _ => Out::Ok(mv(&x().inverse())),
            }),
            "div" => Some(match $form {
                "emm" => Out::Ok(mv(&x().exact_div(y()))),
                "emr" => Out::Ok(mv(&x().exact_div(&y()))),
                "erm" => Out::Ok(mv(&(&x()).exact_div(y()))),
                "err" => Out::Ok(mv(&(&x()).exact_div(&y()))),
                "cmm" => opt(x().checked_exact_div(y()), |v| mv(&v)),
                "crr" => opt((&x()).checked_exact_div(&y()), |v| mv(&v)),
                "eam" => {
                    let mut v = x();
                    v.exact_div_assign(y());
                    Out::Ok(mv(&v))
                }
                "ear" => {
                    let mut v = x();
                    v.exact_div_assign(&y());
                    Out::Ok(mv(&v))
                }
                "cam" | "car" => {
                    let mut v = x();
                    let r = if $form == "cam" { v.checked_exact_div_assign(y()) } else { v.checked_exact_div_assign(&y()) };
                    match r {
                        Ok(()) => Out::Ok(mv(&v)),
                        Err(()) => Out::Err(mv(&v)),
                    }
                }
                _ => forms!($form, x(), y(), div, div_assign, checked_div),
            }),
            _ => None,
        }
    }};
}

macro_rules! powp {
    ($t:ident, $mk:expr, $op:expr, $form:expr, $m:expr, $a:expr) => {{
        let mk = $mk;
        match $op {
            "pow" => Some(ok(s({
                let b = num::<$t>(&$a[0]);
                let m = mk($m);
                match $form {
                    "u8" => b.pow_modular_reduce(&num::<u8>(&$a[1]), &m),
                    "i8" => b.pow_modular_reduce(&num::<i8>(&$a[1]), &m),
                    "u64" => b.pow_modular_reduce(&num::<u64>(&$a[1]), &m),
                    "usize" => b.pow_modular_reduce(&num::<usize>(&$a[1]), &m),
                    "BigInt" => b.pow_modular_reduce(&big(&$a[1]), &m),
                    "BigUint" => b.pow_modular_reduce(&num::<BigUint>(&$a[1]), &m),
                    f => return uns(f),
                }
            }))),
            _ => None,
        }
    }};
}

/// moduli that are claimed to be prime, odd, or both
fn wrapped(m: &Value) -> Out {
    macro_rules! of {
        ($t:ident) => {{
            let v: $t = num(m);
            let p = KnownPrime::new_unsafe(v.clone());
            let o = KnownOdd::new_unsafe(v.clone());
            let po = KnownOddPrime::new_odd_prime_unsafe(v.clone());
            let be: [_; 3] = [
                PrimePowerModulus::<$t>::base_and_exponent(&p),
                PrimePowerModulus::<$t>::base_and_exponent(&po),
                PrimePowerModulus::<$t>::base_and_exponent(&po.clone().unwrap()),
            ];
            let texts = [p.to_string(), o.to_string(), po.to_string()];
            let values: Vec<$t> = vec![
                (*p).clone(), (*o).clone(), (**po).clone(),
                Modulus::<$t>::to_modulus(&p).into_owned(), Modulus::<$t>::to_modulus(&o).into_owned(), Modulus::<$t>::to_modulus(&po).into_owned(),
                Modulus::<$t>::to_modulus(&&po).into_owned(), Modulus::<$t>::into_modulus(&po),
                Modulus::<$t>::into_modulus(p.clone()), Modulus::<$t>::into_modulus(o.clone()), Modulus::<$t>::into_modulus(po.clone()),
                p.unwrap(), o.unwrap(), po.unwrap().unwrap(),
            ];
            json!({"v": values.iter().map(s).collect::<Vec<_>>(), "t": texts,
                "b": be.iter().map(|b| s(&b.base)).collect::<Vec<_>>(), "e": be.iter().map(|b| b.exponent).collect::<Vec<_>>()})
        }};
    }
    Out::Ok(json!({"u8": of!(u8), "i64": of!(i64), "u128": of!(u128), "big": of!(BigInt),
        "static": [s(<KnownOdd<KnownPrime<Mod7>> as StaticModulus<i64>>::get_modulus()), s(<KnownPrime<Mod5> as StaticModulus<u8>>::get_modulus()),
            s(<KnownOdd<Mod3> as StaticModulus<BigInt>>::get_modulus())]}))
}

pub fn run(op: &str, form: &str, kind: &str, m: &Value, a: &[Value]) -> Out {
    // moduli: "m" is a list of the moduli of both operands
    let (m1, m2) = match m {
        Value::Array(v) => (&v[0], &v[1]),
        v => (v, v),
    };
    macro_rules! signed {
        ($t:ident) => {{
            let mut r = ring!($t, |m: &Value| num::<$t>(m), op, form, m1, m2, a);
            if r.is_none() {
                r = inv!($t, |m: &Value| num::<$t>(m), op, form, m1, m2, a);
            }
            if r.is_none() {
                r = powp!($t, |m: &Value| num::<$t>(m), op, form, m1, a);
            }
            r
        }};
    }
    macro_rules! uns_ {
        ($t:ident) => {{
            let mut r = ring!($t, |m: &Value| num::<$t>(m), op, form, m1, m2, a);
            if r.is_none() {
                r = powp!($t, |m: &Value| num::<$t>(m), op, form, m1, a);
            }
            r
        }};
    }
    macro_rules! stat {
        ($t:ident, $($n:ident $v:expr),*) => {
            match m1.as_str().unwrap_or("") {
                $($v => {
                    let mut r = ring!($t, |_: &Value| $n, op, form, m1, m2, a);
                    if r.is_none() {
                        r = inv!($t, |_: &Value| $n, op, form, m1, m2, a);
                    }
                    if r.is_none() {
                        r = powp!($t, |_: &Value| $n, op, form, m1, a);
                    }
                    r
                })*
                _ => None,
            }
        };
    }
    let r: Option<Out> = match kind {
        "u8" => uns_!(u8),
        "u16" => uns_!(u16),
        "u32" => uns_!(u32),
        "u64" => uns_!(u64),
        "u128" => uns_!(u128),
        "usize" => uns_!(usize),
        "i8" => signed!(i8),
        "i16" => signed!(i16),
        "i32" => signed!(i32),
        "i64" => signed!(i64),
        "i128" => signed!(i128),
        "isize" => signed!(isize),
        "BigInt" => {
            let mk = |m: &Value| big(m);
            let mut r = ring!(BigInt, mk, op, form, m1, m2, a);
            if r.is_none() {
                r = inv!(BigInt, mk, op, form, m1, m2, a);
            }
            if r.is_none() && op == "pow" {
                r = Some(ok(s(match form {
                    "BigInt" => big(&a[0]).pow_modular_reduce(&big(&a[1]), &big(m1)),
                    "BigUint" => big(&a[0]).pow_modular_reduce(&num::<BigUint>(&a[1]), &big(m1)),
                    "u8" => big(&a[0]).pow_modular_reduce(&num::<u8>(&a[1]), &big(m1)),
                    "u64" => big(&a[0]).pow_modular_reduce(&num::<u64>(&a[1]), &big(m1)),
                    _ => big(&a[0]).pow_modular_reduce(&num::<usize>(&a[1]), &big(m1)),
                })));
            }
            r
        }
        "BigUint" => {
            let mk = |m: &Value| num::<BigUint>(m);
            let mut r = ring!(BigUint, mk, op, form, m1, m2, a);
            if r.is_none() && op == "pow" {
                r = Some(ok(s(match form {
                    "BigUint" => num::<BigUint>(&a[0]).pow_modular_reduce(&num::<BigUint>(&a[1]), &mk(m1)),
                    _ => num::<BigUint>(&a[0]).pow_modular_reduce(&num::<usize>(&a[1]), &mk(m1)),
                })));
            }
            r
        }
        "kp64" => signed_kp(op, form, m1, m2, a),
        "s.i8" => stat!(i8, Mod1 "1", Mod2 "2", Mod3 "3", Mod4 "4", Mod5 "5", Mod6 "6", Mod7 "7", Mod8 "8", Mod9 "9", Mod10 "10",
            Mod11 "11", Mod12 "12", Mod13 "13", Mod14 "14", Mod15 "15", Mod16 "16"),
        "s.i64" => stat!(i64, Mod1 "1", Mod2 "2", Mod3 "3", Mod4 "4", Mod5 "5", Mod6 "6", Mod7 "7", Mod8 "8", Mod9 "9", Mod10 "10",
            Mod11 "11", Mod12 "12", Mod13 "13", Mod14 "14", Mod15 "15", Mod16 "16"),
        "static" if op == "wrap" => return wrapped(m1),
        "static" => return stat_info(m1),
        k => return uns(k),
    };
    r.unwrap_or_else(|| uns(op))
}

fn signed_kp(op: &str, form: &str, m1: &Value, m2: &Value, a: &[Value]) -> Option<Out> {
    Some((|| -> Out {
        let mk = |m: &Value| KnownOdd::new_unsafe(KnownPrime::new_unsafe(num::<i64>(m)));
        let mut r = ring!(i64, mk, op, form, m1, m2, a);
        if r.is_none() {
            r = inv!(i64, mk, op, form, m1, m2, a);
        }
        if r.is_none() {
            r = powp!(i64, mk, op, form, m1, a);
        }
        r.unwrap_or_else(|| uns(op))
    })())
}

/// what the static moduli say about themselves
fn stat_info(m: &Value) -> Out {
    macro_rules! pp2 {
        ($($n:ident $v:expr),*) => { match m.as_str().unwrap_or("") { $($v => {
            let b: algebraics::util::BaseAndExponent<i32> = PrimePowerModulus::<i32>::base_and_exponent(&$n);
            Out::Ok(json!({"m": <$n as StaticModulus<i32>>::get_modulus().to_string(), "disp": $n.to_string(), "base": b.base.to_string(), "exp": b.exponent,
                "mu8": <$n as StaticModulus<u8>>::get_modulus().to_string(), "mbig": <$n as StaticModulus<BigInt>>::get_modulus().to_string()}))
        })* _ => uns("static") } };
    }
    pp2!(Mod2 "2", Mod3 "3", Mod4 "4", Mod5 "5", Mod7 "7", Mod8 "8", Mod9 "9", Mod11 "11", Mod13 "13", Mod16 "16")
}
