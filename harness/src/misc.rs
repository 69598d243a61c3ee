use crate::val::*;
use algebraics::util::*;
use serde_json::json;

fn sgn(v: &Value) -> Sign {
    match v.as_str() {
        Some("-") => Sign::Negative,
        _ => Sign::Positive,
    }
}
fn sgn_v(v: Sign) -> Value {
    s(match v {
        Sign::Negative => "-",
        Sign::Positive => "+",
    })
}

pub fn run(op: &str, form: &str, kind: &str, m: &Value, a: &[Value]) -> Out {
    let _ = (kind, m);
    match op {
        // primality of every number of a range, as the list of primes
        "primes" => {
            let (lo, hi): (u32, u32) = (num(&a[0]), num(&a[1]));
            Out::Ok((lo..=hi).filter(|v| is_prime_u32(*v)).map(s).collect())
        }
        "is_prime" => Out::Ok(arr(&a[0]).iter().map(|v| Value::from(is_prime_u32(num(v)))).collect()),
        "next_prime" => match form {
            "i32" => opt(next_prime_i32(num(&a[0])), s),
            _ => opt(next_prime_u32(num(&a[0])), s),
        },
        "prev_prime" => match form {
            "i32" => opt(prev_prime_i32(num(&a[0])), s),
            _ => opt(prev_prime_u32(num(&a[0])), s),
        },
        "sign" => {
            let (x, y) = (sgn(&a[0]), sgn(&a[1]));
            let mut aa = x;
            aa &= y;
            let mut ao = x;
            ao |= y;
            let mut ax = x;
            ax ^= y;
            Out::Ok(json!({
                "neg": sgn_v(-x), "not": sgn_v(!x), "and": sgn_v(x & y), "or": sgn_v(x | y), "xor": sgn_v(x ^ y),
                "aand": sgn_v(aa), "aor": sgn_v(ao), "axor": sgn_v(ax),
                "lt": x < y, "eq": x == y, "cmp": x.cmp(&y) as i8,
                "b": bool::from(x), "fb": sgn_v(Sign::from(bool::from(x)))}))
        }
        "sign_new" => opt(Sign::new(&big(&a[0])), sgn_v),
        #[cfg(algebraics_verif)]
        _ => hooked(op, form, kind, m, a),
        #[cfg(not(algebraics_verif))]
        _ => uns("needs hooks"),
    }
}

#[cfg(algebraics_verif)]
fn hooked(op: &str, form: &str, kind: &str, m: &Value, a: &[Value]) -> Out {
    use crate::poly::*;
    use algebraics::verif_hooks as h;
    let vecs = |v: &Value| -> Vec<Vec<BigInt>> { arr(v).iter().map(|c| arr(c).iter().map(big).collect()).collect() };
    let out = |v: Vec<Vec<BigInt>>| -> Value { v.iter().map(|c| c.iter().map(s).collect::<Value>()).collect() };
    match op {
        "subsets" => {
            let (v, stopped) = h::subsets_of_size(us(&a[0]), us(&a[1])..us(&a[2]), us(&a[3]));
            Out::Ok(json!({"v": v, "stopped": stopped}))
        }
        "inner" => {
            let x: Vec<BigInt> = arr(&a[0]).iter().map(big).collect();
            let y: Vec<BigInt> = arr(&a[1]).iter().map(big).collect();
            ok(s(h::inner_product(&x, &y)))
        }
        "gram_schmidt" => {
            let v = h::gram_schmidt(us(&a[1]), &vecs(&a[0]));
            Out::Ok(v.iter().map(|c| c.iter().map(ratio_v).collect::<Value>()).collect())
        }
        "lll" => match form {
            "delta" => Out::Ok(out(h::lll_reduce_with_delta(us(&a[1]), &vecs(&a[0]), ratio(&a[2])))),
            _ => Out::Ok(out(h::lll_reduce(us(&a[1]), &vecs(&a[0])))),
        },
        "ddf" => {
            macro_rules! go {
                ($k:ident) => {
                    Out::Ok(h::distinct_degree_factorization($k::pf(&a[0], m)).iter().map($k::pt).collect())
                };
            }
            match kind {
                "M.i32" => go!(MI32K),
                "M.i64" => go!(MI64K),
                "M.big" => go!(MBigK),
                "M.mod2" => go!(MMod2K),
                "M.mod5" => go!(MMod5K),
                "M.mod7" => go!(MMod7K),
                k => uns(k),
            }
        }
        "sdf" => {
            use algebraics::mod_int::*;
            use algebraics::polynomial::Polynomial;
            use rand::SeedableRng;
            let mut rng = rand_pcg::Pcg64Mcg::seed_from_u64(num(&a[2]));
            macro_rules! go {
                ($t:ident) => {{
                    let md = KnownOddPrime::<$t>::new_odd_prime_unsafe(num(m));
                    let p: Polynomial<ModularInteger<$t, KnownOddPrime<$t>>> = arr(&a[0])
                        .iter()
                        .map(|c| ModularInteger::new(num::<$t>(match c { Value::Array(x) => &x[0], c => c }), md.clone()))
                        .collect();
                    let r = h::same_degree_factorization(p, us(&a[1]), &mut rng);
                    Out::Ok(r.into_iter().map(|p| p.split_out_divisor().0.iter()
                        .map(|c| json!([c.value().to_string(), Modulus::<$t>::to_modulus(c.modulus()).to_string()])).collect::<Value>()).collect())
                }};
            }
            match kind {
                "M.i32" => go!(i32),
                "M.i64" => go!(i64),
                k => uns(k),
            }
        }
        "cache" => cache(a),
        _ => uns(op),
    }
}

/// Drives one shared constant cache through a schedule of steps of several threads.
///
/// a[0]: requested precisions per thread, in order: [[k, ...], ...]
/// a[1]: schedule, list of thread numbers. One entry lets a thread take one step: either start the next
/// request up to the point where it computes (cache miss) or returns (hit), or finish the computation it is in.
/// The computation a cache asks for is observed and delayed here; it yields an enclosure of sqrt(2).
#[cfg(algebraics_verif)]
fn cache(a: &[Value]) -> Out {
    use algebraics::interval_arithmetic::{DyadicFractionInterval as I, VerifConstantCache};
    use std::sync::mpsc::*;
    use std::sync::Arc;
    use std::time::Duration;
    enum Msg {
        /// the cache wants the constant at this precision
        Computing(usize),
        Done(usize, Result<I, String>),
    }
    let cache = Arc::new(VerifConstantCache::new());
    let requests: Vec<Vec<usize>> = arr(&a[0]).iter().map(|v| arr(v).iter().map(us).collect()).collect();
    let schedule: Vec<usize> = arr(&a[1]).iter().map(us).collect();
    let mut go = Vec::new();
    let mut from = Vec::new();
    for reqs in requests.clone() {
        let (gs, gr) = channel::<()>();
        let (ts, tr) = channel::<Msg>();
        let cache = cache.clone();
        std::thread::spawn(move || {
            let gr = std::sync::Mutex::new(gr);
            for k in reqs {
                if gr.lock().unwrap().recv().is_err() {
                    return;
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    cache.get(k, |need| {
                        let _ = ts.send(Msg::Computing(need));
                        let _ = gr.lock().unwrap().recv();
                        // floor(2^need*sqrt 2)
                        let n: BigInt = (BigInt::from(2) << (2 * need)).sqrt();
                        I::new(n.clone(), n + 1, need)
                    })
                }));
                let _ = ts.send(Msg::Done(k, r.map_err(|_| "panic".to_string())));
            }
        });
        go.push(gs);
        from.push(tr);
    }
    let mut steps = Vec::new();
    for t in schedule {
        if go[t].send(()).is_err() {
            steps.push(json!({"t": t, "e": "gone"}));
            continue;
        }
        steps.push(match from[t].recv_timeout(Duration::from_secs(20)) {
            Ok(Msg::Computing(need)) => json!({"t": t, "e": "compute", "k": need}),
            Ok(Msg::Done(k, Ok(v))) => json!({"t": t, "e": "done", "k": k, "v": ival_v(&v)}),
            Ok(Msg::Done(k, Err(m))) => json!({"t": t, "e": "panic", "k": k, "v": m}),
            Err(RecvTimeoutError::Timeout) => json!({"t": t, "e": "blocked"}),
            Err(_) => json!({"t": t, "e": "gone"}),
        });
    }
    Out::Ok(Value::Array(steps))
}
