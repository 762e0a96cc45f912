//! Matrices: every operation has to do with each row what it does with a vector.
use crate::gen::*;
use crate::inst::*;
use crate::props::*;
use crate::report::*;

type Found = (String, String);

const NOT_FOR_MATRICES: &[&str] = &[
    "zero_pad", "zero_interleave", "zero_pad_b", "zero_interleave_b", "resize_b", "split_into", "merge",
    "statistics_merge_r", "statistics_merge_c",
];
/// Operations which take a matrix as argument and nothing else
fn matrix_only(name: &str) -> bool {
    name.starts_with("get_") || name == "set_real_imag" || name == "set_mag_phase" || name == "correlate"
}

/// Another row which is like the given one
fn variation(r: &Rng, s: &Snap) -> Snap {
    let mut d = s.d.clone();
    if s.cx && d.len() % 2 == 1 {
        return s.clone();
    }
    let step = if s.cx { 2 } else { 1 };
    let n = d.len() / step;
    if r.chance(0.4) && n > 1 {
        d.rotate_left(step * r.below(n));
    }
    if r.chance(0.8) {
        let k = *r.pick(&[0.5, 0.25, 0.75, 0.875]);
        for x in &mut d {
            *x *= k;
        }
    }
    let mut v = s.clone();
    v.d = d;
    v
}
fn same_bits(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()))
}
fn same(a: &Snap, b: &Snap) -> bool {
    same_bits(&a.d, &b.d) && a.cx == b.cx && a.fq == b.fq && same_bits(&[a.delta], &[b.delta])
}
fn delta_only(a: &Snap, b: &Snap) -> bool {
    same_bits(&a.d, &b.d) && a.cx == b.cx && a.fq == b.fq
}
fn differs(a: &Snap, b: &Snap) -> String {
    if a.d.len() != b.d.len() {
        return format!("{} and {} elements", a.d.len(), b.d.len());
    }
    if let Some(i) = (0..a.d.len()).find(|i| !same_bits(&a.d[*i..i + 1], &b.d[*i..i + 1])) {
        return format!("element {} is {} and {}", i, a.d[i], b.d[i]);
    }
    format!("complex {} freq {} delta {} and {} {} {}", a.cx, a.fq, a.delta, b.cx, b.fq, b.delta)
}
fn count_of(r: &Rng, fixed: usize) -> usize {
    match fixed {
        0 if r.chance(0.02) => r.range(63, 70),
        0 => r.below(7),
        n => n,
    }
}
fn name_of<T: Flt>(t: &Type<T>) -> String {
    let k = match t.kind {
        None => "gen",
        Some((false, false)) => "rt",
        Some((false, true)) => "rf",
        Some((true, false)) => "ct",
        Some((true, true)) => "cf",
    };
    format!("{}x{}", k, if t.rows == 0 { "M".to_string() } else { t.rows.to_string() })
}

/// What is wrong with the metadata of a matrix
fn meta(o: &MOut) -> Option<Found> {
    let first = o.rows.first();
    let want = [o.rows.len(), first.map_or(0, |x| x.d.len()), first.map_or(0, |x| x.points())];
    if o.meta != want {
        return Some(("size".into(), format!("sizes are {:?} instead of {:?}", o.meta, want)));
    }
    let (cx, fq) = (first.map_or(false, |x| x.cx), first.map_or(false, |x| x.fq));
    if o.cx != cx || o.fq != fq || !first.map_or(true, |x| same_bits(&[x.delta], &[o.delta])) {
        return Some(("meta".into(), "the metadata isn't that of the rows".into()));
    }
    None
}

fn operation<T: Flt>(rep: &mut Report, case: u64, r: &Rng, types: &[Type<T>]) {
    let t = r.pick(types);
    let n = count_of(r, t.rows);
    let size = if n > 10 { Size::Small } else if r.chance(0.1) { Size::Large } else { Size::Any };
    // An operation which exists for the rows
    let mut sp;
    let mut tries = 0;
    loop {
        let fam = *r.pick(ALL);
        sp = draw(r, fam, size, 0.05);
        tries += 1;
        let fits = t.kind.map_or(true, |k| k == (sp.snap.cx, sp.snap.fq));
        if fits && !NOT_FOR_MATRICES.contains(&sp.op.name) {
            break;
        }
        if tries > 100 {
            rep.skipped += 1;
            return;
        }
    }
    exact::<T>(&mut sp);
    let mut h = how(r, &Dims { storage: false, simd: false, ..EVERY });
    h.stat = t.kind.is_some();
    h.cores = if r.chance(0.2) { h.cores } else { 1 };
    let op = sp.op.clone();
    if t.kind.is_some() {
        let before = h;
        restrict(&mut h, &sp.snap, &op);
        if h.stat != before.stat {
            // arguments of another type
            rep.skipped += 1;
            return;
        }
    }
    let two = matrix_only(op.name)
        || op.name.starts_with("dot_product")
        || ["add", "sub", "mul", "div"].iter().any(|x| op.name.starts_with(x) && !op.args.is_empty());
    let marg = matrix_only(op.name) || (two && r.chance(0.5));
    let mut rows: Vec<Snap> =
        (0..n).map(|i| rounded::<T>(&if i == 0 { sp.snap.clone() } else { variation(r, &sp.snap) })).collect();
    // Rows need not be alike
    if n > 1 && r.chance(0.15) {
        let i = r.below(n);
        let step = if rows[i].cx { 2 } else { 1 };
        let keep = r.below(rows[i].d.len() / step + 1) * step;
        rows[i].d.truncate(keep);
    }
    if n > 1 && r.chance(0.05) {
        let i = r.below(n);
        rows[i].delta *= 2.0;
    }
    if n > 1 && t.kind.is_none() && r.chance(0.05) {
        let i = r.below(n);
        rows[i].fq = !rows[i].fq;
    }
    let mut arg_rows = n;
    if marg && t.rows == 0 && n < 10 && r.chance(0.1) && !op.name.starts_with("get_") {
        arg_rows = r.below(7);
    }
    let mut ops: Vec<Op> = (0..arg_rows)
        .map(|i| {
            let mut o = op.clone();
            if marg && i > 0 {
                for a in &mut o.args {
                    *a = rounded::<T>(&variation(r, a));
                }
            }
            o
        })
        .collect();
    if marg && arg_rows > 1 && r.chance(0.1) {
        // and neither need the arguments
        let i = r.below(arg_rows);
        for a in &mut ops[i].args {
            let step = if a.cx { 2 } else { 1 };
            let keep = r.below(a.d.len() / step + 1) * step;
            a.d.truncate(keep);
        }
    }
    let what = format!("{} {} {}{}", T::NAME, name_of(t), op.name, if marg { " with matrix" } else { "" });
    let desc = || {
        let rows: Vec<String> = rows.iter().map(|x| x.brief()).collect();
        format!("{} {} on rows [{}] how {:?}", what, op.brief(), rows.join(", "), h)
    };
    if rep.verbose {
        println!("case {}: {}", case, desc());
    }
    let most = longest(&sp.snap, &op);
    let fixed = 16 * most + 4096;
    h.apply_simd();
    let got = guarded(|| {
        let mut buf = AnyBuf::<T>::new(h.buf, fixed);
        (t.run)(&rows, &op, &ops, marg, &h, &mut buf)
    });
    if let Ok(MObs::NotAvailable) = got {
        rep.skipped += 1;
        return;
    }
    let mismatch = arg_rows != n;
    let refs: Vec<Obs> = if mismatch {
        vec![]
    } else {
        rows.iter()
            .zip(&ops)
            .map(|(s, o)| {
                let r = guarded(|| {
                    let mut buf = AnyBuf::<T>::new(h.buf, fixed);
                    run_in::<T>(s, o, &h, &mut buf)
                });
                match r {
                    Ok(o) => o,
                    Err(m) => Obs::Panic(m),
                }
            })
            .collect()
    };
    if refs.iter().any(|x| !matches!(x, Obs::Ran(_))) {
        rep.skipped += 1;
        return;
    }
    let mut bad: Vec<Found> = vec![];
    match got {
        Err(m) if m.starts_with("FixedLenBuffer: Out of memory") => {
            rep.skipped += 1;
            return;
        }
        Err(m) => {
            let loc = m.rsplit(" at ").next().unwrap_or("").to_string();
            bad.push(("panic".into(), format!("panic: {} [{}]", m, loc)))
        }
        Ok(MObs::NotAvailable) => unreachable!(),
        Ok(MObs::Ran(o)) => {
            bad.extend(meta(&o));
            let err = o.err.map(|e| format!("{:?}", e));
            if mismatch {
                if err.as_deref() != Some("InputMustHaveTheSameSize") {
                    bad.push(("rows".into(), format!("{} and {} rows gave {:?}", n, arg_rows, err)));
                }
                if o.rows.len() != n || o.rows.iter().zip(&rows).any(|(a, b)| !same(a, b)) {
                    bad.push(("rows".into(), "rows have changed although the operation failed".into()));
                }
                rep.count("outcome:other-number-of-rows", 1);
            } else {
                let refs: Vec<&Out> = refs
                    .iter()
                    .map(|x| if let Obs::Ran(o) = x { o } else { unreachable!() })
                    .collect();
                let errs: Vec<String> =
                    refs.iter().filter_map(|x| x.err.as_ref()).map(|e| format!("{:?}", e)).collect();
                if o.rows.len() != n {
                    bad.push(("rows".into(), format!("{} rows became {}", n, o.rows.len())));
                } else if errs.is_empty() {
                    rep.count("outcome:value", 1);
                    if let Some(e) = err {
                        bad.push(("error".into(), format!("failed with {} but no row does", e)));
                    } else {
                        for i in 0..n {
                            if !same(&o.rows[i], &refs[i].snap) {
                                let (a, b) = (&o.rows[i], &refs[i].snap);
                                bad.push((
                                    if delta_only(a, b) { "delta" } else { "row" }.into(),
                                    format!("row {} differs from the vector: {}", i, differs(a, b)),
                                ));
                            }
                        }
                        let sc = refs.iter().any(|x| !x.sc.is_empty());
                        if sc || !o.sc.is_empty() {
                            if o.sc.len() != n {
                                bad.push(("scalar".into(), format!("{} scalars for {} rows", o.sc.len(), n)));
                            } else if let Some(i) = (0..n).find(|i| !same_bits(&o.sc[*i], &refs[*i].sc)) {
                                bad.push((
                                    "scalar".into(),
                                    format!("scalars of row {} are {:?} instead of {:?}", i, o.sc[i], refs[i].sc),
                                ));
                            }
                        }
                        let outs = refs.first().map_or(0, |x| x.extra.len());
                        for k in 0..outs {
                            for i in 0..n {
                                let a = o.extra.get(k).and_then(|x| x.get(i));
                                match a {
                                    Some(a) if same(a, &refs[i].extra[k]) => (),
                                    Some(a) => bad.push((
                                        "output".into(),
                                        format!("row {} of output {}: {}", i, k, differs(a, &refs[i].extra[k])),
                                    )),
                                    None => bad.push(("output".into(), format!("no row {} in output {}", i, k))),
                                }
                            }
                        }
                    }
                } else {
                    rep.count("outcome:failure", 1);
                    match err {
                        None => bad.push(("noerror".into(), format!("no error, rows fail with {:?}", errs))),
                        Some(e) if !errs.contains(&e) => {
                            bad.push(("error".into(), format!("{} but the rows fail with {:?}", e, errs)))
                        }
                        _ => (),
                    }
                    for i in 0..n {
                        // Operations which fail stop at some row
                        let a = &o.rows[i];
                        let untouched = same_bits(&a.d, &rows[i].d);
                        if !untouched && !same(a, &refs[i].snap) {
                            bad.push(("row".into(), format!("row {} after an error: {}", i, differs(a, &refs[i].snap))));
                        }
                    }
                }
            }
        }
    }
    rep.judged += 1;
    rep.saw(&format!("{} {} {}", what, n, key::<T>(&sp.snap, &op, &h)));
    rep.count(&format!("op:{}", op.name), 1);
    rep.count(&format!("matrix:{} {}", T::NAME, name_of(t)), 1);
    rep.sample(desc);
    for (class, msg) in bad {
        rep.violation(case, &format!("{}|{}|{}", op.name, name_of(t), class), &format!("{} :: {}", msg, desc()));
    }
}

/// Convolution with a matrix of impulse responses: row i is the sum over all rows convolved with the
/// impulse responses of line i
fn convolution<T: Flt>(rep: &mut Report, case: u64, r: &Rng, types: &[Type<T>]) {
    let with: Vec<&Type<T>> = types.iter().filter(|t| t.conv.is_some()).collect();
    let t = r.pick(&with);
    let (cx, fq) = t.kind.unwrap_or((r.chance(0.5), r.chance(0.05)));
    let n = match t.rows {
        0 => r.range(1, 5),
        n => n,
    };
    let points = match r.below(4) {
        0 => r.range(1, 12),
        1 => r.range(200, 700),
        _ => r.range(1, 80),
    };
    let taps = r.range(1, points.min(40));
    let mut rows: Vec<Snap> = (0..n).map(|_| make(r, points, cx, fq, false)).collect();
    let delta = rows[0].delta;
    for x in &mut rows {
        x.delta = delta;
        *x = rounded::<T>(x);
    }
    let mut irs: Vec<Vec<Snap>> = (0..n)
        .map(|_| {
            // The lines may have different lengths
            let taps = if r.chance(0.2) { r.range(1, taps) } else { taps };
            (0..n)
                .map(|_| {
                    let mut x = make(r, taps, cx, fq, false);
                    if r.chance(0.2) {
                        x.d.iter_mut().for_each(|x| *x = 0.0);
                    }
                    x.delta = delta;
                    rounded::<T>(&x)
                })
                .collect()
        })
        .collect();
    let mut wrong = if fq { "domain" } else { "" };
    if t.rows == 0 && r.chance(0.1) {
        wrong = "lines";
        if r.chance(0.5) {
            let l = irs[0].clone();
            irs.push(l);
        } else {
            irs.pop();
        }
    } else if t.rows == 0 && r.chance(0.1) {
        wrong = "columns";
        let i = r.below(n);
        if r.chance(0.5) {
            let x = irs[i][0].clone();
            irs[i].push(x);
        } else {
            irs[i].pop();
        }
    } else if t.kind.is_none() && r.chance(0.1) {
        wrong = "metadata";
        let (i, j) = (r.below(n), r.below(n));
        let x = &mut irs[i][j];
        if r.chance(0.5) {
            x.fq = !x.fq;
        } else {
            x.cx = !x.cx;
            if x.cx {
                x.d.extend(vec![0.0; x.d.len() % 2]);
            }
        }
    }
    if wrong.is_empty() && n > 1 && r.chance(0.1) {
        if r.chance(0.5) {
            wrong = "row length";
            rows[n - 1].d.truncate(points / 2 / 2 * 2);
        } else {
            wrong = "response length";
            let i = r.below(n);
            irs[i][n - 1].d.extend([0.5, 0.25]);
        }
    }
    let mut h = how(r, &Dims { storage: false, simd: false, ..EVERY });
    h.stat = t.kind.is_some();
    let what = format!("{} {} {}", T::NAME, name_of(t), if wrong.is_empty() { "values" } else { wrong });
    let desc = || {
        format!("convolution {} {} points, impulse responses with {} points how {:?}", what, points, taps, h)
    };
    if rep.verbose {
        println!("case {}: {}", case, desc());
    }
    h.apply_simd();
    let fixed = 2 * points * n + 4096;
    let got = guarded(|| {
        let mut buf = AnyBuf::<T>::new(h.buf, fixed);
        (t.conv.unwrap())(&rows, &irs, &h, &mut buf)
    });
    let mut bad: Vec<Found> = vec![];
    match got {
        Err(m) => bad.push(("panic".into(), format!("panic: {}", m))),
        Ok(MObs::NotAvailable) => (),
        Ok(MObs::Ran(o)) => {
            bad.extend(meta(&o));
            if !wrong.is_empty() {
                if o.err.is_none() {
                    bad.push(("noerror".into(), format!("no error for wrong {}", wrong)));
                }
                if o.rows.iter().zip(&rows).any(|(a, b)| !same(a, b)) {
                    bad.push(("rows".into(), "rows have changed although the operation failed".into()));
                }
            } else if let Some(e) = o.err {
                bad.push(("error".into(), format!("failed with {:?}", e)));
            } else {
                for i in 0..n {
                    let mut sum = vec![0.0; rows[0].d.len()];
                    let mut tol = 0.0;
                    for j in 0..n {
                        let op = Op::new("convolve_signal").a(vec![irs[i][j].clone()]);
                        let exp = model::expect(&rows[j], &op, T::EPS);
                        let g = if let model::Exp::Ok(g) = exp {
                            g
                        } else {
                            bad.push(("harness".into(), "no expectation".into()));
                            continue;
                        };
                        for (a, b) in sum.iter_mut().zip(&g.v.snap.d) {
                            *a += b;
                        }
                        let l1: f64 = irs[i][j].d.iter().map(|x| x.abs()).sum();
                        tol += (irs[i][j].d.len() + n + 8) as f64 * T::EPS * l1 * model::max_abs(&rows[j].d) * 4.0;
                    }
                    let w = &o.rows[i];
                    if w.d.len() != sum.len() {
                        bad.push(("length".into(), format!("row {} has {} elements", i, w.d.len())));
                    } else if let Some(k) = (0..sum.len()).find(|k| !((w.d[*k] - sum[*k]).abs() <= tol)) {
                        bad.push((
                            "value".into(),
                            format!("row {}: element {} is {} and not {} (tolerance {:e})", i, k, w.d[k], sum[k], tol),
                        ));
                    }
                    if (w.cx, w.fq) != (cx, fq) || !same_bits(&[w.delta], &[rows[i].delta]) {
                        bad.push(("meta".into(), format!("row {} has other metadata", i)));
                    }
                }
            }
        }
    }
    rep.judged += 1;
    rep.saw(&format!("{} {} {} {} {:?}", what, n, points, taps, h.buf));
    rep.count(&format!("convolution:{}", if wrong.is_empty() { "values" } else { wrong }), 1);
    rep.sample(desc);
    for (class, msg) in bad {
        rep.violation(case, &format!("convolve_signal-matrix|{}|{}", what, class), &format!("{} :: {}", msg, desc()));
    }
}

/// Creating matrices from numbers is the same as creating vectors
fn creation<T: Flt>(rep: &mut Report, case: u64, r: &Rng, types: &[Type<T>]) {
    let with: Vec<&Type<T>> = types.iter().filter(|t| t.create.is_some()).collect();
    let t = r.pick(&with);
    let n = count_of(r, t.rows);
    let (cx, fq) = t.kind.unwrap_or((r.chance(0.5), r.chance(0.5)));
    let len = r.below(40);
    let raw: Vec<Vec<f64>> = (0..n)
        .map(|_| {
            let len = if r.chance(0.1) { r.below(40) } else { len };
            rounded::<T>(&Snap::new(values(r, len, false), false, false, 1.0)).d
        })
        .collect();
    let what = format!("{} {} {} rows of {}", T::NAME, name_of(t), n, len);
    if rep.verbose {
        println!("case {}: creation {}", case, what);
    }
    let got = guarded(|| (t.create.unwrap())(&raw, cx, fq));
    let want = guarded(|| raw.iter().map(|d| create_row::<T>(d, t.kind, cx, fq)).collect::<Vec<_>>());
    let mut bad: Vec<Found> = vec![];
    match (got, want) {
        (_, Err(_)) => {
            rep.skipped += 1;
            return;
        }
        (Err(m), _) => bad.push(("panic".into(), m)),
        (Ok((MObs::Ran(o), rows, len)), Ok(want)) => {
            bad.extend(meta(&o));
            if o.rows.len() != n || o.rows.iter().zip(&want).any(|(a, b)| !same(a, b)) {
                bad.push(("rows".into(), "the rows differ from vectors created from the same data".into()));
            }
            if rows.len() != n || rows.iter().zip(&want).any(|(a, b)| !same(a, b)) {
                bad.push(("get".into(), "the rows which are given back are different".into()));
            }
            if len != want.first().map_or(0, |x| x.d.len()) {
                bad.push(("get".into(), format!("length is given as {}", len)));
            }
        }
        _ => unreachable!(),
    }
    rep.judged += 1;
    rep.saw(&format!("creation {} {} {}", what, cx, fq));
    rep.count("creation", 1);
    for (class, msg) in bad {
        rep.violation(case, &format!("creation|{}|{}", name_of(t), class), &format!("{} :: {}", msg, what));
    }
}

/// Number space and domain of matrices can be changed like those of vectors
fn rededicate(rep: &mut Report, case: u64, r: &Rng) {
    let fixed = *r.pick(&[0usize, 2, 3, 4]);
    let n = count_of(r, fixed);
    let way = r.below(3);
    let (cx, fq) = (r.chance(0.5), r.chance(0.5));
    let (ncx, nfq) = (r.chance(0.5), r.chance(0.5));
    let points = r.below(30);
    let rows: Vec<Snap> = (0..n).map(|_| rounded::<f32>(&make(r, points, cx, fq, false))).collect();
    let h = how(r, &Dims { storage: false, simd: false, threads: false, ..EVERY });
    let what = format!("{} rows of {} points, complex {} freq {}, way {} {} {}", n, points, cx, fq, way, ncx, nfq);
    if rep.verbose {
        println!("case {}: rededicate {}", case, what);
    }
    let got = guarded(|| mg::rededicate(&rows, fixed, way, ncx, nfq, &h));
    let want = guarded(|| rows.iter().map(|s| mg::rededicate_row(s, way, ncx, nfq, &h)).collect::<Vec<_>>());
    match (got, want) {
        (Ok(MObs::Ran(o)), Ok(want)) => {
            rep.judged += 1;
            rep.saw(&what);
            rep.count("rededicate", 1);
            if let Some((c, m)) = meta(&o) {
                rep.violation(case, &format!("rededicate|{}", c), &format!("{} :: {}", m, what));
            }
            if o.rows.len() != n || o.rows.iter().zip(&want).any(|(a, b)| !same(a, b)) {
                rep.violation(case, "rededicate|rows", &format!("the rows differ from vectors :: {}", what));
            }
        }
        (Err(m), Ok(_)) => rep.violation(case, "rededicate|panic", &format!("{} :: {}", m, what)),
        _ => rep.skipped += 1,
    }
}

pub fn c20(rep: &mut Report) {
    let singles = mg::types();
    let mut doubles = mr::types();
    doubles.extend(mc::types());
    while let Some(case) = rep.next_case() {
        let r = rep.rng(case);
        c20_case(rep, case, &r, &singles, &doubles);
    }
}
pub fn c20_case(rep: &mut Report, case: u64, r: &Rng, singles: &[Type<f32>], doubles: &[Type<f64>]) {
    {
        let double = r.chance(0.7);
        match r.below(20) {
            0 => rededicate(rep, case, &r),
            1 if double => creation::<f64>(rep, case, r, doubles),
            1 => creation::<f32>(rep, case, r, singles),
            2..=4 if double => convolution::<f64>(rep, case, r, doubles),
            2..=4 => convolution::<f32>(rep, case, r, singles),
            _ if double => operation::<f64>(rep, case, r, doubles),
            _ => operation::<f32>(rep, case, r, singles),
        }
    }
}
