//! The oracle: compares what was observed with what the model expects.
use crate::inst::*;
use model::{Exp, Want};

pub struct Bad {
    pub class: String,
    pub msg: String,
}
fn bad(class: &str, msg: String) -> Bad {
    Bad {
        class: class.to_string(),
        msg,
    }
}

thread_local! {
    /// The largest deviation seen so far, relative to its tolerance
    static MARGIN: std::cell::Cell<f64> = const { std::cell::Cell::new(0.0) };
}
pub fn take_margin() -> f64 {
    MARGIN.with(|m| m.replace(0.0))
}

fn close(a: f64, w: f64, tol: f64, max: f64) -> bool {
    if tol == f64::INFINITY {
        return true;
    }
    if w.is_nan() {
        return a.is_nan();
    }
    if w.abs() > max / 16.0 {
        // over the edge of the number type
        return a.is_nan() || a.abs() > max / 64.0;
    }
    if a == w {
        return true;
    }
    if tol.is_nan() {
        return true;
    }
    let used = (a - w).abs() / tol;
    if used <= 1.0 {
        MARGIN.with(|m| m.set(m.get().max(used)));
    }
    used <= 1.0
}
fn tol_at(t: &[f64], i: usize) -> f64 {
    if t.is_empty() {
        0.0
    } else {
        t[i.min(t.len() - 1)]
    }
}
fn max_of<T: Flt>() -> f64 {
    if T::NAME == "f32" {
        f32::MAX as f64
    } else {
        f64::MAX
    }
}
fn tiny<T: Flt>() -> f64 {
    if T::NAME == "f32" {
        1e-37
    } else {
        1e-300
    }
}

pub fn cmp_snap<T: Flt>(what: &str, got: &Snap, want: &Want, flags: bool) -> Result<(), Bad> {
    if got.d.len() != want.snap.d.len() {
        return Err(bad(
            "length",
            format!("{}: length is {} instead of {}", what, got.d.len(), want.snap.d.len()),
        ));
    }
    let mut worst = 0;
    let mut first: Option<usize> = None;
    for i in 0..got.d.len() {
        let t = tol_at(&want.tol, i) + tiny::<T>();
        if !close(got.d[i], want.snap.d[i], t, max_of::<T>()) {
            worst += 1;
            first.get_or_insert(i);
        }
    }
    if let Some(i) = first {
        return Err(bad(
            "value",
            format!(
                "{}: {} of {} values are wrong, the first at {}: {} instead of {} (tolerance {:e})",
                what,
                worst,
                got.d.len(),
                i,
                got.d[i],
                want.snap.d[i],
                tol_at(&want.tol, i)
            ),
        ));
    }
    if flags && (got.cx != want.snap.cx || got.fq != want.snap.fq) {
        return Err(bad(
            "meta",
            format!(
                "{}: complex={} freq={} instead of complex={} freq={}",
                what, got.cx, got.fq, want.snap.cx, want.snap.fq
            ),
        ));
    }
    let wd = want.snap.delta;
    if !wd.is_nan() && got.delta != wd && !((got.delta - wd).abs() <= 32.0 * T::EPS * wd.abs()) {
        return Err(bad("delta", format!("{}: delta is {} instead of {}", what, got.delta, wd)));
    }
    Ok(())
}

/// True if the vector carries the documented mark of an invalid operation.
pub fn is_invalid(s: &Snap) -> bool {
    s.d.is_empty() && s.delta.is_nan()
}

/// Judges one observation. `Ok(false)` means that there was nothing to be decided.
pub fn judge<T: Flt>(exp: &Exp, obs: &Obs, before: &Snap, fixed: bool) -> Result<bool, Bad> {
    take_margin();
    let out = match obs {
        Obs::NotAvailable => return Ok(false),
        // A buffer of fixed size is allowed to be too small
        Obs::Panic(m) if m.starts_with("FixedLenBuffer: Out of memory") => return Ok(false),
        Obs::Panic(m) => {
            return match exp {
                Exp::Unspec => Ok(false),
                _ => {
                    let loc = m.rsplit(" at ").next().unwrap_or("");
                    Err(bad("panic", format!("panic: {} [{}]", m, loc)))
                }
            }
        }
        Obs::Ran(o) => o,
    };
    let err = out.err.as_ref().map(|e| format!("{:?}", e));
    match exp {
        Exp::Unspec => Ok(false),
        Exp::Err(kinds) => {
            if let Some(e) = &err {
                if !kinds.contains(&&e[..]) {
                    return Err(bad("error", format!("reported {} instead of {:?}", e, kinds)));
                }
                let same = out.snap.d.len() == before.d.len()
                    && out.snap.d.iter().zip(&before.d).all(|(x, y)| x == y || (x.is_nan() && y.is_nan()));
                if !out.snap.d.is_empty() && !same {
                    return Err(bad("error", format!("{} but the data has changed", e)));
                }
                return Ok(true);
            }
            if is_invalid(&out.snap) {
                return Ok(true);
            }
            Err(bad("noerror", format!("no error was reported, expected {:?}", kinds)))
        }
        Exp::Invalid => {
            if err.is_some() || out.snap.d.is_empty() {
                return Ok(true);
            }
            Err(bad(
                "notinvalid",
                format!("the length is {} and not 0 after an unsupported operation", out.snap.d.len()),
            ))
        }
        Exp::Ok(g) => {
            if let Some(e) = &err {
                if fixed && e == "TypeCanNotResize" {
                    return Ok(false);
                }
                return Err(bad("error", format!("failed with {}", e)));
            }
            cmp_snap::<T>("result", &out.snap, &g.v, true)?;
            if g.extra.len() != out.extra.len() {
                return Err(bad("length", format!("{} outputs instead of {}", out.extra.len(), g.extra.len())));
            }
            for (i, (a, b)) in out.extra.iter().zip(&g.extra).enumerate() {
                cmp_snap::<T>(&format!("output {}", i), a, b, false)?;
            }
            if g.sc.len() != out.sc.len() {
                return Err(bad("scalar", format!("{} scalars instead of {}", out.sc.len(), g.sc.len())));
            }
            for i in 0..g.sc.len() {
                let t = tol_at(&g.sc_tol, i) + tiny::<T>();
                if !close(out.sc[i], g.sc[i], t, max_of::<T>()) {
                    return Err(bad(
                        "scalar",
                        format!("scalar {} is {} instead of {} (tolerance {:e})", i, out.sc[i], g.sc[i], t),
                    ));
                }
            }
            if let Some(p) = &g.post {
                p(&out.sc).map_err(|m| bad("scalar", m))?;
            }
            Ok(true)
        }
    }
}

/// Compares two executions of the same operation which have to agree. The tolerance comes from the
/// model if there is one, else it is relative to the largest value.
pub fn agree<T: Flt>(a: &Obs, b: &Obs, exp: &Exp) -> Result<bool, Bad> {
    take_margin();
    let (x, y) = match (a, b) {
        (Obs::NotAvailable, _) | (_, Obs::NotAvailable) => return Ok(false),
        (Obs::Panic(_), Obs::Panic(_)) => return Ok(true),
        (Obs::Panic(m), _) | (_, Obs::Panic(m)) => {
            return Err(bad("panic", format!("only one execution panics: {}", m)))
        }
        (Obs::Ran(x), Obs::Ran(y)) => (x, y),
    };
    let (ex, ey) = (format!("{:?}", x.err), format!("{:?}", y.err));
    if ex != ey {
        return Err(bad("error", format!("one execution ended with {} the other with {}", ex, ey)));
    }
    // With a model the tolerance of each value is known, otherwise it is relative to the largest one
    let relative = |y: &Snap| {
        let m = model::max_abs(&y.d);
        Want::tol(y.clone(), if m.is_finite() { 1e4 * T::EPS * m } else { f64::INFINITY })
    };
    let doubled = |w: &Want, y: &Snap| {
        let mut w = w.clone();
        for t in &mut w.tol {
            *t *= 2.0;
        }
        if w.snap.d.len() != y.d.len() {
            return relative(y);
        }
        // Nothing is said about values which aren't defined
        if w.snap.d.iter().any(|x| x.is_nan()) {
            w.tol = (0..y.d.len())
                .map(|i| if w.snap.d[i].is_nan() { f64::INFINITY } else { tol_at(&w.tol, i) })
                .collect();
        }
        w.snap = y.clone();
        w
    };
    let good = if let Exp::Ok(g) = exp { Some(g) } else { None };
    let w = match good {
        Some(g) => doubled(&g.v, &y.snap),
        None => relative(&y.snap),
    };
    cmp_snap::<T>("result", &x.snap, &w, true)?;
    if x.extra.len() != y.extra.len() {
        return Err(bad("length", "different number of outputs".to_string()));
    }
    for (i, (a, b)) in x.extra.iter().zip(&y.extra).enumerate() {
        let w = match good.and_then(|g| g.extra.get(i)) {
            Some(w) => doubled(w, b),
            None => relative(b),
        };
        cmp_snap::<T>(&format!("output {}", i), a, &w, true)?;
    }
    if x.sc.len() != y.sc.len() {
        return Err(bad("scalar", format!("{} scalars and not {}", x.sc.len(), y.sc.len())));
    }
    if let Some(g) = good {
        // Positions and alike, which the model doesn't fix, are subject of a check of their own
        if g.post.is_none() && g.sc.len() == x.sc.len() {
            for i in 0..x.sc.len() {
                let t = 2.0 * tol_at(&g.sc_tol, i) + tiny::<T>();
                if !close(x.sc[i], y.sc[i], t, max_of::<T>()) {
                    return Err(bad(
                        "scalar",
                        format!("scalar {} is {} and {} (tolerance {:e})", i, x.sc[i], y.sc[i], t),
                    ));
                }
            }
        }
    }
    Ok(true)
}
