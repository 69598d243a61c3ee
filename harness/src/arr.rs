use crate::val::*;

#[cfg(not(algebraics_verif))]
pub fn run(_: &str, _: &str, _: &[Value]) -> Out {
    uns("needs hooks")
}

#[cfg(algebraics_verif)]
pub fn run(op: &str, form: &str, a: &[Value]) -> Out {
    use algebraics::verif_hooks::{Grid, GridBound, GridEdit, GridIter};
    use serde_json::json;
    let grid = |v: &Value| {
        Grid::from_data(us(&v["x"]), us(&v["y"]), arr(&v["d"]).iter().map(num::<i64>).collect())
    };
    let gv = |g: &Grid| {
        let (x, y) = g.size();
        json!({"x": x, "y": y, "d": g.data()})
    };
    let bools = |v: &Value| arr(v).iter().map(|b| b.as_bool().unwrap()).collect::<Vec<_>>();
    let visit = |v: Vec<Option<((usize, usize), i64)>>| -> Value {
        v.into_iter()
            .map(|e| match e {
                Some(((x, y), v)) => json!([x, y, v]),
                None => json!([]),
            })
            .collect()
    };
    let bound = |v: &Value| {
        let v = arr(v);
        match v[0].as_str().unwrap() {
            "full" => GridBound::Full,
            "at" => GridBound::At(us(&v[1])),
            "range" => GridBound::Range(us(&v[1]), us(&v[2])),
            "from" => GridBound::From(us(&v[1])),
            "to" => GridBound::To(us(&v[1])),
            "incl" => GridBound::Inclusive(us(&v[1]), us(&v[2])),
            "toincl" => GridBound::ToInclusive(us(&v[1])),
            "between" => GridBound::Between(us(&v[1]), us(&v[2])),
            b => panic!("unknown bound {}", b),
        }
    };
    let path = |v: &Value| arr(v).iter().map(|p| (bound(&p[0]), bound(&p[1]))).collect::<Vec<_>>();
    Out::Ok(match op {
        "view" => {
            let v = grid(&a[0]).view(&path(&a[1]), &bools(&a[2]));
            json!({"x": v.size.0, "y": v.size.1, "d": v.elements, "lens": v.lens, "seq": visit(v.visited), "count": v.count,
                   "last": v.last.into_iter().collect::<Vec<_>>()})
        }
        "edit" => {
            let mut g = grid(&a[0]);
            let edits: Vec<_> = arr(&a[2])
                .iter()
                .map(|e| {
                    let e = arr(e);
                    match e[0].as_str().unwrap() {
                        "set" => GridEdit::Set((us(&e[1]), us(&e[2])), num(&e[3])),
                        "swap" => GridEdit::Swap((us(&e[1]), us(&e[2])), (us(&e[3]), us(&e[4]))),
                        _ => GridEdit::Fill(num(&e[1]), bools(&e[2])),
                    }
                })
                .collect();
            g.edit(&path(&a[1]), &edits);
            gv(&g)
        }
        "walk" => {
            let mut g = grid(&a[0]);
            let kind = match form {
                "iter" => GridIter::Iter,
                "iter_mut" => GridIter::IterMut,
                "ref_into" => GridIter::RefIntoIter,
                "mut_into" => GridIter::MutIntoIter,
                "slice_into" => GridIter::SliceIntoIter,
                "mut_slice_into" => GridIter::MutSliceIntoIter,
                "into" => GridIter::IntoIter,
                f => return uns(f),
            };
            let w = g.walk(&path(&a[1]), kind, (&bools(&a[2]), &bools(&a[3]), &bools(&a[4])), num(&a[5]));
            let seq: Value = w
                .visited
                .into_iter()
                .map(|e| match e {
                    Some((Some((x, y)), v)) => json!([x, y, v]),
                    Some((None, v)) => json!([v]),
                    None => json!([]),
                })
                .collect();
            json!({"seq": seq, "pos": w.positions, "last": w.last.into_iter().collect::<Vec<_>>(), "g": gv(&g)})
        }
        "text" => json!(grid(&a[0]).text(&path(&a[1]), form == "ruled")),
        "data_mut" => {
            let mut g = grid(&a[0]);
            g.data_mut()[us(&a[1])] = num(&a[2]);
            gv(&g)
        }
        "into_data" => json!(grid(&a[0]).into_data()),
        "from_data" => gv(&Grid::from_data(us(&a[0]), us(&a[1]), arr(&a[2]).iter().map(num::<i64>).collect())),
        "filled" => gv(&Grid::filled(us(&a[0]), us(&a[1]), num(&a[2]))),
        "generated" => {
            let mut order = Vec::new();
            let g = Grid::generated(us(&a[0]), us(&a[1]), |x, y| {
                order.push(json!([x, y]));
                (x * 100 + y) as i64
            });
            json!({"g": gv(&g), "order": order})
        }
        "get" => json!(grid(&a[0]).get(us(&a[1]), us(&a[2]))),
        "set" => {
            let mut g = grid(&a[0]);
            g.set(us(&a[1]), us(&a[2]), num(&a[3]));
            gv(&g)
        }
        "swap" => {
            let mut g = grid(&a[0]);
            g.swap((us(&a[1]), us(&a[2])), (us(&a[3]), us(&a[4])));
            gv(&g)
        }
        "cut" => gv(&grid(&a[0]).cut(us(&a[1])..us(&a[2]), us(&a[3])..us(&a[4]))),
        "fill" => {
            let mut g = grid(&a[0]);
            g.fill(us(&a[1])..us(&a[2]), us(&a[3])..us(&a[4]), num(&a[5]), &bools(&a[6]));
            gv(&g)
        }
        "visit" => visit(grid(&a[0]).visit(us(&a[1])..us(&a[2]), us(&a[3])..us(&a[4]), &bools(&a[5]))),
        "into_visit" => visit(grid(&a[0]).into_visit(&bools(&a[1]))),
        "lit" => gv(&grid(&a[0])),
        _ => return uns(op),
    })
}
