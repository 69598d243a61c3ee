use crate::val::*;
use algebraics::mod_int::{KnownPrime, Mod2, Mod5, Mod7, ModularInteger, Modulus};
use algebraics::polynomial::*;
use algebraics::traits::*;
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedRem, CheckedSub, One, Pow, ToPrimitive, Zero};
use serde_json::json;
use std::fmt::Display;

/// coefficient kind: how it is written in JSON
pub trait Kind {
    type T: PolynomialCoefficient;
    fn cf(v: &Value, m: &Value) -> Self::T;
    fn ct(c: &Self::T) -> Value;
    fn pf(v: &Value, m: &Value) -> Polynomial<Self::T> {
        Polynomial::from(arr(v).iter().map(|c| Self::cf(c, m)).collect::<Vec<_>>())
    }
    fn pt(p: &Polynomial<Self::T>) -> Value;
}
type C<K> = <K as Kind>::T;

pub struct ZK;
impl Kind for ZK {
    type T = BigInt;
    fn cf(v: &Value, _: &Value) -> BigInt {
        big(v)
    }
    fn ct(c: &BigInt) -> Value {
        s(c)
    }
    fn pt(p: &Polynomial<BigInt>) -> Value {
        zpoly_v(p)
    }
}
macro_rules! prim_kind {
    ($n:ident, $t:ident) => {
        pub struct $n;
        impl Kind for $n {
            type T = $t;
            fn cf(v: &Value, _: &Value) -> $t {
                num(v)
            }
            fn ct(c: &$t) -> Value {
                s(c)
            }
            fn pt(p: &Polynomial<$t>) -> Value {
                p.clone().split_out_divisor().0.iter().map(s).collect()
            }
        }
    };
}
prim_kind!(I8K, i8);
prim_kind!(I16K, i16);
prim_kind!(I32K, i32);
prim_kind!(I64K, i64);
prim_kind!(I128K, i128);
prim_kind!(IsizeK, isize);

macro_rules! ratio_kind {
    ($n:ident, $t:ident) => {
        pub struct $n;
        impl Kind for $n {
            type T = Ratio<$t>;
            fn cf(v: &Value, _: &Value) -> Ratio<$t> {
                match v {
                    Value::Array(a) => Ratio::new(num(&a[0]), num(&a[1])),
                    _ => Ratio::from_integer(num(v)),
                }
            }
            fn ct(c: &Ratio<$t>) -> Value {
                json!([c.numer().to_string(), c.denom().to_string()])
            }
            fn pf(v: &Value, m: &Value) -> Polynomial<Ratio<$t>> {
                match v {
                    Value::Object(o) => {
                        let d: $t = num(&o["d"]);
                        Polynomial::from(
                            arr(&o["e"]).iter().map(|e| Ratio::new(num::<$t>(e), d.clone())).collect::<Vec<_>>(),
                        )
                    }
                    _ => Polynomial::from(arr(v).iter().map(|c| Self::cf(c, m)).collect::<Vec<_>>()),
                }
            }
            fn pt(p: &Polynomial<Ratio<$t>>) -> Value {
                let (e, d) = p.clone().split_out_divisor();
                json!({"e": e.iter().map(s).collect::<Vec<_>>(), "d": d.to_string()})
            }
        }
    };
}
ratio_kind!(QK, BigInt);
ratio_kind!(Q64K, i64);
ratio_kind!(Q128K, i128);

macro_rules! mod_kind {
    ($n:ident, $v:ident, $m:ty, $mk:expr) => {
        pub struct $n;
        impl Kind for $n {
            type T = ModularInteger<$v, $m>;
            fn cf(v: &Value, m: &Value) -> Self::T {
                let mk: fn(&Value) -> $m = $mk;
                ModularInteger::new(num::<$v>(v), mk(m))
            }
            fn ct(c: &Self::T) -> Value {
                // the modulus a result carries is part of what is observed
                json!([c.value().to_string(), Modulus::<$v>::to_modulus(c.modulus()).to_string()])
            }
            fn pt(p: &Polynomial<Self::T>) -> Value {
                p.clone().split_out_divisor().0.iter().map(Self::ct).collect()
            }
            fn pf(v: &Value, m: &Value) -> Polynomial<Self::T> {
                Polynomial::from(
                    arr(v)
                        .iter()
                        .map(|c| match c {
                            Value::Array(a) => Self::cf(&a[0], m),
                            _ => Self::cf(c, m),
                        })
                        .collect::<Vec<_>>(),
                )
            }
        }
    };
}
mod_kind!(MI32K, i32, KnownPrime<i32>, |m| KnownPrime::new_unsafe(num(m)));
mod_kind!(MI64K, i64, KnownPrime<i64>, |m| KnownPrime::new_unsafe(num(m)));
mod_kind!(MBigK, BigInt, KnownPrime<BigInt>, |m| KnownPrime::new_unsafe(big(m)));
mod_kind!(MMod2K, i8, Mod2, |_| Mod2);
mod_kind!(MMod5K, i8, Mod5, |_| Mod5);
mod_kind!(MMod7K, i128, Mod7, |_| Mod7);
// residue rings that need not be fields
mod_kind!(RI32K, i32, i32, |m| num(m));
mod_kind!(RU8K, u8, u8, |m| num(m));
mod_kind!(RU64K, u64, u64, |m| num(m));

/// polynomials whose coefficients are polynomials
pub struct ZZK;
impl Kind for ZZK {
    type T = Polynomial<BigInt>;
    fn cf(v: &Value, _: &Value) -> Self::T {
        zpoly(v)
    }
    fn ct(c: &Self::T) -> Value {
        zpoly_v(c)
    }
    fn pt(p: &Polynomial<Self::T>) -> Value {
        p.clone().split_out_divisor().0.iter().map(zpoly_v).collect()
    }
}

macro_rules! bin {
    ($form:expr, $x:expr, $y:expr, $tr:ident, $op:ident, $tra:ident, $opa:ident, $ck:expr) => {{
        use std::ops::{$tr, $tra};
        let mut x = $x;
        let y = $y;
        match $form {
            "mm" => $tr::$op(x, y),
            "mr" => $tr::$op(x, &y),
            "rm" => $tr::$op(&x, y),
            "rr" => $tr::$op(&x, &y),
            "am" => {
                $tra::$opa(&mut x, y);
                x
            }
            "ar" => {
                $tra::$opa(&mut x, &y);
                x
            }
            "self" => $tr::$op(&x, &x),
            "ck" => {
                let r: Option<_> = $ck(&x, &y);
                match r {
                    Some(v) => v,
                    None => return Some(Out::None),
                }
            }
            f => return Some(uns(f)),
        }
    }};
}

/// operations every coefficient kind has
fn ring<K: Kind>(op: &str, form: &str, m: &Value, a: &[Value]) -> Option<Out> {
    let x = || K::pf(&a[0], m);
    let y = || K::pf(&a[1], m);
    let c = || K::cf(&a[1], m);
    let pv = |p: Polynomial<C<K>>| Out::Ok(K::pt(&p));
    Some(match op {
        "add" => pv(bin!(form, x(), y(), Add, add, AddAssign, add_assign, |a: &Polynomial<C<K>>, b: &Polynomial<C<K>>| a.checked_add(b))),
        "sub" => pv(bin!(form, x(), y(), Sub, sub, SubAssign, sub_assign, |a: &Polynomial<C<K>>, b: &Polynomial<C<K>>| a.checked_sub(b))),
        "mul" => pv(bin!(form, x(), y(), Mul, mul, MulAssign, mul_assign, |a: &Polynomial<C<K>>, b: &Polynomial<C<K>>| a.checked_mul(b))),
        "adds" => match form {
            "mm" => pv(std::ops::Add::add(x(), c())),
            "mr" => pv(std::ops::Add::add(x(), &c())),
            "rm" => pv(std::ops::Add::add(&x(), c())),
            "rr" => pv(std::ops::Add::add(&x(), &c())),
            "am" => {
                let mut v = x();
                std::ops::AddAssign::add_assign(&mut v, c());
                pv(v)
            }
            "ar" => {
                let mut v = x();
                std::ops::AddAssign::add_assign(&mut v, &c());
                pv(v)
            }
            f => uns(f),
        },
        "subs" => match form {
            "mm" => pv(std::ops::Sub::sub(x(), c())),
            "mr" => pv(std::ops::Sub::sub(x(), &c())),
            "rm" => pv(std::ops::Sub::sub(&x(), c())),
            "rr" => pv(std::ops::Sub::sub(&x(), &c())),
            "am" => {
                let mut v = x();
                std::ops::SubAssign::sub_assign(&mut v, c());
                pv(v)
            }
            "ar" => {
                let mut v = x();
                std::ops::SubAssign::sub_assign(&mut v, &c());
                pv(v)
            }
            f => uns(f),
        },
        "muls" => match form {
            "mm" => pv(std::ops::Mul::mul(x(), c())),
            "mr" => pv(std::ops::Mul::mul(x(), &c())),
            "rm" => pv(std::ops::Mul::mul(&x(), c())),
            "rr" => pv(std::ops::Mul::mul(&x(), &c())),
            "am" => {
                let mut v = x();
                std::ops::MulAssign::mul_assign(&mut v, c());
                pv(v)
            }
            "ar" => {
                let mut v = x();
                std::ops::MulAssign::mul_assign(&mut v, &c());
                pv(v)
            }
            f => uns(f),
        },
        "neg" => match form {
            "m" => pv(-x()),
            "r" => pv(-&x()),
            _ => {
                let mut v = x();
                v.negate();
                pv(v)
            }
        },
        "eq" => {
            let (x, y) = (x(), y());
            Out::Ok(json!({"eq": x == y, "ne": x != y, "hash": hash_of(&x) == hash_of(&y)}))
        }
        // the same value by another route
        "hash" => {
            let (x, y) = (x(), y());
            let z = if form == "mul" {
                x.clone() * (y.clone() - &y) + &x
            } else {
                x.clone() - &y + &y
            };
            Out::Ok(json!({"eq": x == z, "ne": x != z, "hash": hash_of(&x) == hash_of(&z)}))
        }
        "pow" => {
            let v = x();
            match form {
                "m" => pv(Pow::pow(v, num::<u32>(&a[1]))),
                "big" => pv(Pow::pow(&v, big(&a[1]))),
                "i8" => pv(Pow::pow(&v, num::<i8>(&a[1]))),
                _ => pv(Pow::pow(&v, num::<usize>(&a[1]))),
            }
        }
        "pseudo" => {
            let f = |r: PseudoDivRem<C<K>>| json!({"q": K::pt(&r.quotient), "r": K::pt(&r.remainder), "f": K::ct(&r.factor)});
            match form {
                "c" => opt(x().checked_pseudo_div_rem(&y()), f),
                _ => Out::Ok(f(x().pseudo_div_rem(&y()))),
            }
        }
        "exact_pseudo" => {
            let f = |r: (Polynomial<C<K>>, C<K>)| json!({"q": K::pt(&r.0), "f": K::ct(&r.1)});
            match form {
                "c" => opt(x().checked_exact_pseudo_div(&y()), f),
                _ => Out::Ok(f(x().exact_pseudo_div(&y()))),
            }
        }
        "derivative" => match form {
            "m" => pv(x().into_derivative()),
            _ => pv(x().derivative()),
        },
        "eval" => match form {
            "m" => Out::Ok(K::ct(&x().into_eval(&c()))),
            _ => Out::Ok(K::ct(&x().eval(&c()))),
        },
        "monomial" => pv(Polynomial::make_monomial(K::cf(&a[0], m), us(&a[1]))),
        // the coefficient's own interface: elements over a common divisor
        "coef" => {
            use std::borrow::Cow;
            type E<K> = <C<K> as PolynomialCoefficient>::Element;
            let cs: Vec<C<K>> = arr(&a[0]).iter().map(|c| K::cf(c, m)).collect();
            let (n, k): (usize, usize) = (num(&a[1]), num(&a[2]));
            let c = cs[0].clone();
            let one = || <<C<K> as PolynomialCoefficient>::Divisor as One>::one();
            let mk = |e: E<K>| K::ct(&C::<K>::make_coefficient(Cow::Owned(e), Cow::Owned(one())));
            let (e, d) = C::<K>::coefficient_to_element(if form == "m" { Cow::Owned(c.clone()) } else { Cow::Borrowed(&c) });
            macro_rules! with {
                ($v:expr, $f:ident $(, $x:expr)*) => {{
                    let mut v = $v.clone();
                    C::<K>::$f(&mut v $(, $x)*);
                    v
                }};
            }
            macro_rules! both {
                ($f:ident, $v:expr, $out:expr $(, $x:expr)*) => {
                    [$out(C::<K>::$f(Cow::Borrowed(&$v) $(, $x)*)), $out(C::<K>::$f(Cow::Owned($v.clone()) $(, $x)*))]
                };
            }
            let ct = |c: C<K>| K::ct(&c);
            let zeros = [
                &both!(make_zero_element, e, mk)[..],
                &both!(make_zero_coefficient_from_element, e, ct),
                &both!(make_zero_coefficient_from_coefficient, c, ct),
                &[mk(with!(e, set_element_zero)), ct(with!(c, set_coefficient_zero))],
            ]
            .concat();
            let ones = [
                &both!(make_one_element, e, mk)[..],
                &both!(make_one_coefficient_from_element, e, ct),
                &both!(make_one_coefficient_from_coefficient, c, ct),
                &[mk(with!(e, set_element_one)), ct(with!(c, set_coefficient_one))],
            ]
            .concat();
            let times = [
                &both!(mul_element_by_usize, e, mk, k)[..],
                &[mk(with!(e, mul_assign_element_by_usize, k))],
            ]
            .concat();
            let (many, md) = C::<K>::coefficients_to_elements(if form == "m" { Cow::Owned(cs.clone()) } else { Cow::Borrowed(&cs[..]) });
            let back: Vec<Value> = many
                .iter()
                .map(|e| ct(C::<K>::make_coefficient(Cow::Borrowed(e), Cow::Borrowed(&md))))
                .collect();
            // the same over a divisor that is larger than necessary
            let mut wide: Vec<E<K>> = many
                .iter()
                .map(|e| C::<K>::divisor_to_element(Cow::Borrowed(&md), Cow::Borrowed(e)) * e)
                .collect();
            let mut wd = md.clone() * &md;
            let (red, rd) = C::<K>::get_reduced_divisor(&wide, &wd);
            C::<K>::reduce_divisor(&mut wide, &mut wd);
            let den = |d: &<C<K> as PolynomialCoefficient>::Divisor| mk(C::<K>::divisor_to_element(Cow::Borrowed(d), Cow::Borrowed(&e)));
            Out::Ok(json!({
                "isz": [C::<K>::is_element_zero(&e), C::<K>::is_coefficient_zero(&c)],
                "iso": [C::<K>::is_element_one(&e), C::<K>::is_coefficient_one(&c)],
                "zeros": zeros, "ones": ones, "times": times,
                "el": mk(e.clone()), "neg": mk(with!(e, negate_element)), "div": den(&d),
                "pow": [mk(C::<K>::element_pow_usize(e.clone(), n)), ct(C::<K>::coefficient_pow_usize(c.clone(), n)),
                        den(&C::<K>::divisor_pow_usize(d.clone(), n))],
                "back": back,
                "red": red.into_iter().map(mk).collect::<Vec<_>>(), "rd": den(&rd),
                "red2": wide.into_iter().map(mk).collect::<Vec<_>>(), "rd2": den(&wd),
                "depth": C::<K>::NESTING_DEPTH,
            }))
        }
        "access" => {
            let p = x();
            let n = p.len();
            let back: Vec<Value> = p.iter().rev().map(|c| K::ct(&c)).collect();
            let mut it = p.iter();
            let mut mixed = Vec::new();
            let mut lens = vec![it.len()];
            let mut front = true;
            while let Some(c) = if front { it.next() } else { it.next_back() } {
                mixed.push(K::ct(&c));
                lens.push(it.len());
                front = !front;
            }
            let mut it = p.clone().into_iter();
            let mut mixed2 = Vec::new();
            let mut front = true;
            while let Some(c) = if front { it.next() } else { it.next_back() } {
                mixed2.push(K::ct(&c));
                front = !front;
            }
            Out::Ok(json!({
                "len": n, "empty": p.is_empty(), "degree": p.degree().map(|v| v as i64).unwrap_or(-1),
                "coefs": p.clone().into_coefficients().iter().map(K::ct).collect::<Vec<_>>(),
                "iter": p.iter().map(|c| K::ct(&c)).collect::<Vec<_>>(),
                "into_iter": p.clone().into_iter().map(|c| K::ct(&c)).collect::<Vec<_>>(),
                "ref_iter": (&p).into_iter().map(|c| K::ct(&c)).collect::<Vec<_>>(),
                "rev": back, "mixed": mixed, "mixed2": mixed2, "lens": lens,
                "at": (0..n + 2).map(|i| p.nonzero_coefficient(i).map(|c| K::ct(&c)).unwrap_or(s("none"))).collect::<Vec<_>>(),
                "lead": p.nonzero_highest_power_coefficient().map(|c| K::ct(&c)).unwrap_or(s("none")),
                "zero": p.is_zero(), "one": p.is_one(),
                "collect": K::pt(&p.iter().collect::<Polynomial<C<K>>>()),
                "slice": K::pt(&Polynomial::from(&p.clone().into_coefficients()[..])),
            }))
        }
        "to_one" => {
            let p = x();
            match form {
                "m" => match p.into_one_if_nonzero() {
                    Ok(v) => pv(v),
                    Err(v) => Out::Err(K::pt(&v)),
                },
                "a" => {
                    let mut p = p;
                    match p.set_one_if_nonzero() {
                        Ok(()) => pv(p),
                        Err(()) => Out::Err(K::pt(&p)),
                    }
                }
                _ => opt(p.to_one_if_nonzero(), |v| K::pt(&v)),
            }
        }
        "make" => match form {
            "scalar" => pv(Polynomial::from(K::cf(&a[0], m))),
            "scalar_ref" => pv(Polynomial::from(&K::cf(&a[0], m))),
            "iter" => pv(arr(&a[0]).iter().map(|c| K::cf(c, m)).collect()),
            "slice" => pv(Polynomial::from(&arr(&a[0]).iter().map(|c| K::cf(c, m)).collect::<Vec<_>>()[..])),
            "default" => pv(Polynomial::default()),
            "zero" => pv(Polynomial::zero()),
            "set_zero" => {
                let mut p = x();
                p.set_zero();
                pv(p)
            }
            _ => pv(Polynomial::from(arr(&a[0]).iter().map(|c| K::cf(c, m)).collect::<Vec<_>>())),
        },
        _ => return None,
    })
}

/// coefficients that can be divided exactly
fn exact<K: Kind>(op: &str, form: &str, m: &Value, a: &[Value]) -> Option<Out>
where
    C<K>: for<'a> ExactDiv<&'a C<K>, Output = C<K>>,
{
    let x = || K::pf(&a[0], m);
    let y = || K::pf(&a[1], m);
    let c = || K::cf(&a[1], m);
    let pv = |p: Polynomial<C<K>>| Out::Ok(K::pt(&p));
    macro_rules! exact_forms {
        ($y:expr) => {
            match form {
                "emm" => pv(x().exact_div($y)),
                "emr" => pv(x().exact_div(&$y)),
                "erm" => pv((&x()).exact_div($y)),
                "err" => pv((&x()).exact_div(&$y)),
                "eam" => {
                    let mut v = x();
                    v.exact_div_assign($y);
                    pv(v)
                }
                "ear" => {
                    let mut v = x();
                    v.exact_div_assign(&$y);
                    pv(v)
                }
                "cmm" => opt(x().checked_exact_div($y), |v| K::pt(&v)),
                "cmr" => opt(x().checked_exact_div(&$y), |v| K::pt(&v)),
                "crm" => opt((&x()).checked_exact_div($y), |v| K::pt(&v)),
                "crr" => opt((&x()).checked_exact_div(&$y), |v| K::pt(&v)),
                "cam" | "car" => {
                    let mut v = x();
                    let r = if form == "cam" {
                        v.checked_exact_div_assign($y)
                    } else {
                        v.checked_exact_div_assign(&$y)
                    };
                    match r {
                        Ok(()) => pv(v),
                        Err(()) => Out::Err(K::pt(&v)),
                    }
                }
                f => uns(f),
            }
        };
    }
    Some(match op {
        "exact_div" => exact_forms!(y()),
        "exact_divs" => match form {
            "mm" => pv(x() / c()),
            "mr" => pv(x() / &c()),
            "rm" => pv(&x() / c()),
            "rr" => pv(&x() / &c()),
            "am" => {
                let mut v = x();
                v /= c();
                pv(v)
            }
            "ar" => {
                let mut v = x();
                v /= &c();
                pv(v)
            }
            _ => exact_forms!(c()),
        },
        "div_rem" => {
            let f = |(q, r): (Polynomial<C<K>>, Polynomial<C<K>>)| json!({"q": K::pt(&q), "r": K::pt(&r)});
            match form {
                "c" => opt(x().checked_div_rem(&y()), f),
                _ => Out::Ok(f(x().div_rem(&y()))),
            }
        }
        "monic" => match form {
            "a" => {
                let mut v = x();
                v.monic_assign();
                pv(v)
            }
            _ => pv(x().into_monic()),
        },
        "subresultant_gcd" => pv(x().subresultant_gcd(y())),
        "nz_resultant" => opt(x().nonzero_resultant(y()), |v| K::ct(&v)),
        _ => return None,
    })
}

/// ordered coefficients with a gcd
fn ordered<K: Kind>(op: &str, form: &str, m: &Value, a: &[Value]) -> Option<Out>
where
    C<K>: for<'a> ExactDiv<&'a C<K>, Output = C<K>> + GCD<Output = C<K>> + Ord + Zero + PolynomialCoefficientAbsSupported + PolynomialReducingFactorSupported + One + Display,
    <C<K> as PolynomialCoefficient>::Element: One,
{
    let x = || K::pf(&a[0], m);
    let y = || K::pf(&a[1], m);
    let pv = |p: Polynomial<C<K>>| Out::Ok(K::pt(&p));
    Some(match op {
        "content" => match form {
            "nz" => opt(x().nonzero_content(), |v| K::ct(&v)),
            _ => Out::Ok(K::ct(&x().content())),
        },
        "primitive" => match form {
            "a" => {
                let mut v = x();
                v.primitive_part_assign();
                pv(v)
            }
            "m" => pv(x().into_primitive_part()),
            _ => pv(x().primitive_part()),
        },
        "max_norm" => match form {
            "nz" => opt(x().nonzero_max_norm(), |v| K::ct(&v)),
            _ => Out::Ok(K::ct(&x().max_norm())),
        },
        "manhattan" => match form {
            "nz" => opt(x().nonzero_manhattan_norm(), |v| K::ct(&v)),
            _ => Out::Ok(K::ct(&x().manhattan_norm())),
        },
        "reducing_factor" if form == "z" => Out::Ok(K::ct(&x().reducing_factor())),
        "psturm" => {
            let v = match form {
                "m" => x().into_primitive_sturm_sequence(),
                _ => x().to_primitive_sturm_sequence(),
            };
            Out::Ok(v.iter().map(K::pt).collect())
        }
        "resultant" => Out::Ok(K::ct(&x().resultant(y()))),
        "coefficient" => Out::Ok(json!({
            "at": (0..x().len() + 2).map(|i| K::ct(&x().coefficient(i))).collect::<Vec<_>>(),
            "lead": K::ct(&x().highest_power_coefficient())})),
        "one" => match form {
            "set" => {
                let mut v = x();
                v.set_one();
                pv(v)
            }
            "is" => ok(One::is_one(&x())),
            _ => pv(Polynomial::one()),
        },
        "display" => ok(x().to_string()),
        _ => return None,
    })
}

/// kinds with a canonical associate
fn reducing<K: Kind>(op: &str, form: &str, m: &Value, a: &[Value]) -> Option<Out>
where
    C<K>: for<'a> ExactDiv<&'a C<K>, Output = C<K>> + PolynomialReducingFactorSupported,
{
    let x = || K::pf(&a[0], m);
    let pv = |p: Polynomial<C<K>>| Out::Ok(K::pt(&p));
    Some(match op {
        "reducing_factor" => opt(x().nonzero_reducing_factor(), |v| K::ct(&v)),
        "reduce" => match form {
            "a" => {
                let mut v = x();
                v.reduce_assign();
                pv(v)
            }
            "m" => pv(x().into_reduced()),
            _ => pv(x().to_reduced()),
        },
        _ => return None,
    })
}

/// coefficients in a field
fn field<K: Kind>(op: &str, form: &str, m: &Value, a: &[Value]) -> Option<Out>
where
    C<K>: PolynomialDivSupported + PolynomialReducingFactorSupported,
{
    let x = || K::pf(&a[0], m);
    let y = || K::pf(&a[1], m);
    let pv = |p: Polynomial<C<K>>| Out::Ok(K::pt(&p));
    Some(match op {
        "div" => pv(bin!(form, x(), y(), Div, div, DivAssign, div_assign, |a: &Polynomial<C<K>>, b: &Polynomial<C<K>>| a.checked_div(b))),
        "rem" => pv(bin!(form, x(), y(), Rem, rem, RemAssign, rem_assign, |a: &Polynomial<C<K>>, b: &Polynomial<C<K>>| a.checked_rem(b))),
        "powmod" => {
            let mo = K::pf(&a[2], m);
            match form {
                "c" => opt(x().checked_powmod(big(&a[1]), &mo), |v| K::pt(&v)),
                "ci" => opt(x().checked_powmod(num::<i64>(&a[1]), &mo), |v| K::pt(&v)),
                "u" => pv(x().powmod(num::<usize>(&a[1]), &mo)),
                _ => pv(x().powmod(big(&a[1]), &mo)),
            }
        }
        "gcd" => pv(GCD::gcd(&x(), &y())),
        "lcm" => pv(GCD::lcm(&x(), &y())),
        "gcd_lcm" => {
            let r = x().gcd_lcm(&y());
            Out::Ok(json!({"gcd": K::pt(&r.gcd), "lcm": K::pt(&r.lcm)}))
        }
        "egcd" => match form {
            "lcm" => {
                let r = x().extended_gcd_lcm(&y());
                Out::Ok(json!({"gcd": K::pt(&r.gcd), "x": K::pt(&r.x), "y": K::pt(&r.y), "lcm": K::pt(&r.lcm)}))
            }
            _ => {
                let r = x().extended_gcd(&y());
                Out::Ok(json!({"gcd": K::pt(&r.gcd), "x": K::pt(&r.x), "y": K::pt(&r.y)}))
            }
        },
        "is_square_free" => ok(x().is_square_free()),
        "sturm" => {
            let v = match form {
                "m" => x().into_sturm_sequence(),
                _ => x().to_sturm_sequence(),
            };
            Out::Ok(v.iter().map(K::pt).collect())
        }
        _ => return None,
    })
}

fn yun<K: Kind>(op: &str, m: &Value, a: &[Value]) -> Option<Out>
where
    C<K>: PolynomialDivSupported
        + RingCharacteristic<Type = CharacteristicZero>
        + PolynomialReducingFactorSupported
        + GCD<Output = C<K>>
        + PartialOrd,
{
    match op {
        "yun" => {
            let r = K::pf(&a[0], m).square_free_factorization_using_yuns_algorithm();
            Some(Out::Ok(json!({"c": K::ct(&r.constant_factor), "f": r.polynomial_factors.iter().map(K::pt).collect::<Vec<_>>()})))
        }
        _ => None,
    }
}

fn zonly(op: &str, form: &str, a: &[Value]) -> Option<Out> {
    let x = || zpoly(&a[0]);
    Some(match op {
        "factor" => {
            let r = match form {
                "rng" => {
                    use rand::SeedableRng;
                    let mut rng = rand_pcg::Pcg64Mcg::seed_from_u64(num(&a[1]));
                    x().factor_with_rng(&mut rng)
                }
                _ => x().factor(),
            };
            Out::Ok(json!({"c": s(&r.constant_factor),
                "f": r.polynomial_factors.iter().map(|f| json!({"p": zpoly_v(&f.polynomial), "e": f.power})).collect::<Vec<_>>()}))
        }
        "to_prim" => {
            let p = x();
            macro_rules! all {
                ($($n:ident $f:ident),*) => {{
                    let mut o = serde_json::Map::new();
                    $(o.insert(stringify!($n).to_string(), p.$f().map(s).unwrap_or(s("none")));)*
                    Out::Ok(Value::Object(o))
                }};
            }
            all!(i8 to_i8, u8 to_u8, i16 to_i16, u16 to_u16, i32 to_i32, u32 to_u32, i64 to_i64, u64 to_u64, i128 to_i128, u128 to_u128,
                isize to_isize, usize to_usize, f32 to_f32, f64 to_f64)
        }
        "from_prim" => {
            use num_traits::FromPrimitive;
            macro_rules! all {
                ($($n:ident $f:ident),*) => {
                    match form {
                        $(stringify!($n) => Polynomial::<BigInt>::$f(num::<$n>(&a[0])),)*
                        f => return Some(uns(f)),
                    }
                };
            }
            opt(
                all!(i8 from_i8, u8 from_u8, i16 from_i16, u16 from_u16, i32 from_i32, u32 from_u32, i64 from_i64, u64 from_u64, i128 from_i128,
                    u128 from_u128, isize from_isize, usize from_usize, f32 from_f32, f64 from_f64),
                |v| zpoly_v(&v),
            )
        }
        // an integer polynomial at a point of a larger ring
        "eval_at" => {
            let (at, zero) = (ratio(&a[1]), Ratio::from_integer(BigInt::zero()));
            let v = match form {
                "m" => x().into_eval_generic(&at, zero),
                _ => x().eval_generic(&at, zero),
            };
            Out::Ok(ratio_v(&v))
        }
        "names" => Out::Ok((us(&a[0])..us(&a[1])).map(|n| s(get_variable_name(n))).collect()),
        "factor_text" => ok(PolynomialFactor { polynomial: x(), power: us(&a[1]) }.to_string()),
        _ => return None,
    })
}

pub fn run(op: &str, form: &str, kind: &str, m: &Value, a: &[Value]) -> Out {
    macro_rules! zlike {
        ($k:ty) => {
            ring::<$k>(op, form, m, a)
                .or_else(|| exact::<$k>(op, form, m, a))
                .or_else(|| ordered::<$k>(op, form, m, a))
                .or_else(|| reducing::<$k>(op, form, m, a))
        };
    }
    macro_rules! qlike {
        ($k:ty) => {
            ring::<$k>(op, form, m, a)
                .or_else(|| exact::<$k>(op, form, m, a))
                .or_else(|| ordered::<$k>(op, form, m, a))
                .or_else(|| reducing::<$k>(op, form, m, a))
                .or_else(|| field::<$k>(op, form, m, a))
                .or_else(|| yun::<$k>(op, m, a))
        };
    }
    macro_rules! mlike {
        ($k:ty) => {
            ring::<$k>(op, form, m, a)
                .or_else(|| exact::<$k>(op, form, m, a))
                .or_else(|| reducing::<$k>(op, form, m, a))
                .or_else(|| field::<$k>(op, form, m, a))
        };
    }
    let r = match kind {
        "Z" => zlike!(ZK).or_else(|| zonly(op, form, a)),
        "i8" => zlike!(I8K),
        "i16" => zlike!(I16K),
        "i32" => zlike!(I32K),
        "i64" => zlike!(I64K),
        "i128" => zlike!(I128K),
        "isize" => zlike!(IsizeK),
        "Q" => qlike!(QK).or_else(|| {
            if op == "from_raw" {
                // from elements and a divisor that need not be reduced
                let e: Vec<BigInt> = arr(&a[0]).iter().map(big).collect();
                let p: Polynomial<Ratio<BigInt>> = Polynomial::from((e, big(&a[1])));
                Some(Out::Ok(QK::pt(&p)))
            } else {
                None
            }
        }),
        "Q64" => qlike!(Q64K),
        "Q128" => qlike!(Q128K),
        "M.i32" => mlike!(MI32K),
        "M.i64" => mlike!(MI64K),
        "M.big" => mlike!(MBigK),
        "M.mod2" => mlike!(MMod2K),
        "M.mod5" => mlike!(MMod5K),
        "M.mod7" => mlike!(MMod7K),
        "R.i32" => ring::<RI32K>(op, form, m, a).or_else(|| exact::<RI32K>(op, form, m, a)),
        "R.u8" => ring::<RU8K>(op, form, m, a),
        "R.u64" => ring::<RU64K>(op, form, m, a),
        "ZZ" => ring::<ZZK>(op, form, m, a).or_else(|| exact::<ZZK>(op, form, m, a)).or_else(|| match op {
            "resultant" => Some(Out::Ok(ZZK::ct(&ZZK::pf(&a[0], m).resultant(ZZK::pf(&a[1], m))))),
            "display" => Some(ok(ZZK::pf(&a[0], m).to_string())),
            _ => None,
        }),
        k => return uns(k),
    };
    r.unwrap_or_else(|| uns(op))
}
