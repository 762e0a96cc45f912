//! Monitors for sequences of operations and for the two ways to keep track of the vector type.
use crate::check::*;
use crate::inst::*;
use crate::gen::*;
use crate::props::*;
use crate::report::*;
use basic_dsp_vector::*;
use model::{expect, Exp};

const FAMS: &[Fam] = &[
    Fam::Elem, Fam::Elem, Fam::Approx, Fam::Map, Fam::Fft, Fam::Fft, Fam::Sfft, Fam::Conv, Fam::Freq, Fam::Corr,
    Fam::Interp, Fam::Interp, Fam::Stat, Fam::Prec, Fam::Reorg, Fam::Reorg, Fam::Parts, Fam::Parts, Fam::Win,
];

/// Draws an operation for the current vector. The vector which comes with it tells which values suit
/// the operation.
pub fn next_op(r: &Rng, cur: &Snap, wrong: f64) -> Option<Spec> {
    let n = cur.points();
    for _ in 0..40 {
        let mut sp = draw_plain(r, *r.pick(FAMS), Size::Small, 0.04);
        if (sp.snap.cx != cur.cx || sp.snap.fq != cur.fq) && !r.chance(wrong) {
            continue;
        }
        let delta = if cur.delta.is_nan() { 1.0 } else { cur.delta };
        let odd = r.chance(0.05);
        let other = r.below(20);
        let mut arg = |m: usize, pos: bool| {
            let mut a = make(r, if odd { other } else { m }, cur.cx != (odd && other % 3 == 0), cur.fq, pos);
            a.delta = delta;
            a
        };
        let name = sp.op.name;
        match name {
            "add" | "sub" | "mul" | "div" => sp.op.args = vec![arg(n, name == "div")],
            "add_smaller" | "sub_smaller" | "mul_smaller" | "div_smaller" => {
                let d: Vec<usize> = (1..=n.min(40)).filter(|k| n % k == 0).collect();
                let m = if d.is_empty() { 1 } else { *r.pick(&d) };
                sp.op.args = vec![arg(m, name == "div_smaller")];
            }
            "convolve_signal" => sp.op.args = vec![arg(r.range(1, n.clamp(1, 40)), false)],
            "correlate" => {
                let mut a = make(r, n + r.below(5), true, false, false);
                a.delta = delta;
                sp.op.args = vec![a];
            }
            "zero_pad" | "zero_pad_b" => {
                if n > 500 {
                    continue;
                }
                sp.op.u[0] = if odd { r.below(n + 1) } else { n + r.range(1, 30) };
            }
            "resize" | "resize_b" => {
                // Behind the valid data anything is allowed
                let m = r.below(cur.d.len() + 1);
                sp.op.u[0] = if cur.cx && !odd { m / 2 * 2 } else { m };
            }
            "split_into" => {
                let d: Vec<usize> = (1..=n.min(9)).filter(|k| n % k == 0).collect();
                if !odd && !d.is_empty() {
                    sp.op.u[0] = *r.pick(&d);
                }
            }
            "merge" => {
                for a in &mut sp.op.args {
                    if a.d.len() % 2 == 1 && cur.cx {
                        a.d.pop();
                    }
                    a.cx = cur.cx;
                    a.fq = cur.fq;
                    a.delta = delta;
                }
            }
            "interpolate" | "interpft" => {
                sp.op.u[0] = if n > 600 { r.range(1, n) } else { r.range(1, 2 * n + 3) };
            }
            "interpolatei" | "zero_interleave" | "zero_interleave_b" if n * sp.op.u[0].max(1) > 1500 => continue,
            "interpolatef" | "interpolate_lin" | "interpolate_hermite" if n as f64 * sp.op.f[0] > 1500.0 => continue,
            "to_complex" | "to_complex_b" | "plain_sifft" | "sifft" | "windowed_sifft" if n > 800 => continue,
            "convolve" | "convolve_c" => sp.op.u[0] = sp.op.u[0].min(40),
            x if x.starts_with("dot_product") => sp.op.args = vec![arg(n, false)],
            _ => (),
        }
        if name == "interpolatef" {
            sp.op.f[1] = 0.0;
        }
        // These have no way to report that the vector has the wrong type
        let complex_result = name.ends_with("_c") || name.ends_with("_c64");
        if (name.starts_with("sum") || name.starts_with("statistics")) && complex_result != cur.cx {
            continue;
        }
        if name == "multiply_frequency_response" || name == "multiply_frequency_response_c" {
            sp.op.f[0] = 1.0;
        }
        return Some(sp);
    }
    None
}
/// Operations for which the values of the vector matter
fn needs_own_values(op: &Op) -> bool {
    !["add", "sub", "mul", "reverse", "swap_halves", "fft_shift", "ifft_shift", "conj", "offset", "scale", "zero_pad",
        "zero_pad_b", "zero_interleave", "zero_interleave_b", "to_real", "to_imag", "to_complex", "to_real_b",
        "to_imag_b", "to_complex_b", "split_into", "merge", "magnitude", "magnitude_b", "get_real", "get_imag",
        "plain_fft", "fft", "plain_ifft", "ifft", "mirror", "diff", "diff_with_start", "set_real_imag", "decimatei",
        "map_inplace_r", "map_inplace_c", "get_real_imag", "resize", "resize_b", "convolve_signal", "abs",
        "set_delta", "offset_c", "scale_c"]
    .contains(&op.name)
}

/// Operations which amplify errors outside of a small range
fn narrow(op: &str) -> bool {
    ["tan", "tanh", "atan", "atanh", "asin", "asinh", "acos", "acosh", "exp", "expf", "expf_approx", "exp_approx",
        "sinh", "cosh", "powf", "powf_approx"]
        .contains(&op)
}
/// Operations whose result depends on delta
fn uses_delta(op: &str) -> bool {
    op == "multiply_complex_exponential" || op.starts_with("multiply_frequency") || op.starts_with("convolve")
        || op.starts_with("interpol") || op == "decimatei"
}

fn same_settings(a: &MultiCoreSettings, h: &How) -> bool {
    format!("{:?}", a) == format!("{:?}", h.mcs())
}

fn history<T: Flt>(rep: &mut Report, case: u64, r: &Rng) {
    let mut h = how(r, &Dims { storage: false, ..EVERY });
    h.stat = false;
    h.buf = *r.pick(&[Buf::Single, Buf::Single, Buf::NoBuf, Buf::Poison]);
    set_simd(h.simd);
    let wrong = *r.pick(&[0.0, 0.0, 0.02, 0.2]);
    let start = {
        let n = if r.chance(0.2) { r.below(4) } else { r.below(60) };
        let s = make(r, n, r.chance(0.5), r.chance(0.4), r.chance(0.3));
        rounded::<T>(&s)
    };
    let mut v = gen_of::<T>(&start, &h);
    let mut buf = AnyBuf::<T>::new(h.buf, 0);
    let mut trace: Vec<String> = vec![start.brief()];
    let steps = r.range(2, 14);
    let mut invalid_for = 0;
    let mut names: Vec<&'static str> = vec![];
    for _ in 0..steps {
        let cur = snap(&v);
        let mut sp = match next_op(r, &cur, wrong) {
            Some(sp) => sp,
            None => break,
        };
        exact::<T>(&mut sp);
        let wild = cur.d.iter().any(|x| !(x.abs() < 1e5) || (*x != 0.0 && x.abs() < 1e-5));
        if sp.snap.d.is_empty() {
            sp.snap.d = values(r, 7, true).iter().map(|x| T::of(*x).g()).collect();
        }
        if !cur.d.is_empty() && (wild || needs_own_values(&sp.op)) {
            let k = sp.snap.d.len();
            for (i, x) in v.data_mut(..).iter_mut().enumerate() {
                let w = sp.snap.d[i % k];
                *x = T::of(if narrow(sp.op.name) { w.signum() * w.abs().clamp(0.1, 3.0) } else { w });
            }
            if ["plain_sifft", "sifft", "windowed_sifft"].contains(&sp.op.name) && v.len() > 1 && r.chance(0.8) {
                *v.data_mut(1) = T::of(0.0);
            }
        }
        if v.delta().g().abs() > 1e3 || v.delta().g().abs() < 1e-3 {
            v.set_delta(T::of(1.0));
        }
        let before = snap(&v);
        let op = sp.op;
        names.push(op.name);
        let what = |trace: &Vec<String>, before: &Snap, op: &Op| {
            format!("{} {} on {} after {:?} how {:?}", T::NAME, op.brief(), before.brief(), trace, h)
        };
        if rep.verbose {
            println!("case {}: {} on {}", case, op.brief(), before.brief());
        }
        let exp = expect(&before, &op, T::EPS);
        let was_invalid = before.delta.is_nan();
        let mut side = Side::default();
        let next = {
            let hh = h;
            let b = &mut buf;
            match guarded(|| T::step(v, &op, &hh, b)) {
                Ok(Step::Done(v, e, s)) => {
                    side = s;
                    Ok((v, e))
                }
                Ok(Step::NotAvailable(_)) => return,
                Err(m) => Err(m),
            }
        };
        let (w, e) = match next {
            Ok(x) => x,
            Err(m) => {
                rep.judged += 1;
                let loc = m.rsplit(" at ").next().unwrap_or("").to_string();
                let _ = loc;
                rep.violation(
                    case,
                    &format!("history|{}|{}|panic", op.name, kind(&before)),
                    &format!("panic {} :: {}", m, what(&trace, &before, &op)),
                );
                return;
            }
        };
        v = w;
        let after = snap(&v);
        let obs = Obs::Ran(Out { err: e.clone(), snap: after.clone(), extra: side.extra, sc: side.sc });
        let mut problem: Option<(String, String)> = None;
        let undefined = was_invalid && uses_delta(op.name) && matches!(exp, Exp::Ok(_));
        match if undefined { Ok(false) } else { judge::<T>(&exp, &obs, &before, false) } {
            Ok(true) => {
                rep.judged += 1;
                rep.count(&format!("op:{}", op.name), 1);
                rep.margin(op.name);
                rep.count(if matches!(exp, Exp::Ok(_)) { "outcome:value" } else { "outcome:failure-contract" }, 1);
            }
            Ok(false) => rep.skipped += 1,
            Err(b) => problem = Some((b.class, b.msg)),
        }
        // what has to be true in every state
        if after.cx && v.len() % 2 != 0 {
            problem.get_or_insert(("state".into(), "a complex vector has an odd length".into()));
        }
        if v.points() != v.len() / after.step() || v.data(..).len() != v.len() || v.is_empty() != (v.len() == 0) {
            problem.get_or_insert(("state".into(), "length and number of points disagree".into()));
        }
        if v.is_erroneous() != is_invalid(&after) {
            problem.get_or_insert(("state".into(), "is_erroneous doesn't reflect the mark of an invalid vector".into()));
        }
        if v.alloc_len() < v.len() {
            problem.get_or_insert(("state".into(), "longer than the storage".into()));
        }
        if !same_settings(v.get_multicore_settings(), &h) {
            problem.get_or_insert(("settings".into(), "the multi core settings have changed".into()));
        }
        if was_invalid && !after.delta.is_nan() && op.name != "set_delta" {
            problem.get_or_insert(("revived".into(), "the mark of an invalid vector got lost".into()));
        }
        if let Some((c, m)) = problem {
            rep.judged += 1;
            let mut sig = format!("history|{}|{}|{}", op.name, kind(&before), c);
            if let Some(id) = known_shape::<T>(&before, &op, &h, &obs) {
                sig = format!("known|{}", id);
            }
            rep.violation(case, &sig, &format!("{} :: {}", m, what(&trace, &before, &op)));
            return;
        }
        rep.count("state-checks", 1);
        if is_invalid(&after) || after.delta.is_nan() {
            rep.count("states:invalid", 1);
            invalid_for += 1;
            if invalid_for > 3 {
                break;
            }
        }
        trace.push(op.name.to_string());
        // A copy is the same as the original
        if r.chance(0.1) {
            let c = if r.chance(0.5) {
                v.clone()
            } else {
                let mut c = vec![T::of(1.0); 4].to_gen_dsp_vec(false, DataDomain::Time);
                c.clone_from(&v);
                c
            };
            let a = snap(&c);
            let same_delta = a.delta == after.delta || (a.delta.is_nan() && after.delta.is_nan());
            let same_data = a.d.len() == after.d.len()
                && a.d.iter().zip(&after.d).all(|(x, y)| x == y || (x.is_nan() && y.is_nan()));
            if !same_data || a.cx != after.cx || a.fq != after.fq || !same_delta || !same_settings(c.get_multicore_settings(), &h) {
                rep.violation(case, "history|clone", &format!("a clone differs: {}", what(&trace, &before, &op)));
                return;
            }
            rep.count("clones", 1);
            v = c;
        }
    }
    rep.saw(&format!("{} {} {:?} {}", T::NAME, kind(&start), names, h.simd));
    rep.count("histories", 1);
    rep.sample(|| format!("{} {:?}", T::NAME, trace));
}

pub fn c16_case(rep: &mut Report, case: u64, r: &Rng) {
    if r.chance(0.5) {
        history::<f32>(rep, case, r);
    } else {
        history::<f64>(rep, case, r);
    }
}
pub fn c16(rep: &mut Report) {
    while let Some(case) = rep.next_case() {
        let r = rep.rng(case);
        c16_case(rep, case, &r);
    }
}

// ---- statically typed and with run time checks ----

fn typing_case<T: Flt>(rep: &mut Report, case: u64, r: &Rng) {
    let mut sp = draw(r, *r.pick(ALL), Size::Any, 0.08);
    exact::<T>(&mut sp);
    let mut a = how(r, &Dims { storage: false, ..EVERY });
    a.stat = true;
    restrict(&mut a, &sp.snap, &sp.op);
    if !a.stat {
        rep.skipped += 1;
        return;
    }
    let mut b = a;
    b.stat = false;
    let (s, op) = (&sp.snap, &sp.op);
    if rep.verbose {
        println!("case {}: {}", case, describe::<T>(s, op, &a));
    }
    let x = run::<T>(s, op, &a);
    let mut y = run::<T>(s, op, &b);
    if let (Obs::Ran(x), Obs::Ran(y)) = (&x, &mut y) {
        // After a failure only the error counts
        let failed = x.err.is_some() || is_invalid(&x.snap);
        if failed && x.err == y.err {
            y.snap.cx = x.snap.cx;
            y.snap.fq = x.snap.fq;
        }
    }
    if let Obs::Panic(m) = &x {
        if m.starts_with("FixedLenBuffer: Out of memory") {
            return;
        }
    }
    if let Obs::NotAvailable = x {
        // The types don't offer the operation: the run time checks have to reject it
        let rejected = match &y {
            Obs::NotAvailable => return,
            Obs::Panic(_) => false,
            Obs::Ran(o) => {
                o.err.is_some() || o.snap.d.is_empty() || (!o.extra.is_empty() && o.extra.iter().all(|e| e.d.is_empty()))
                    || !o.sc.is_empty()
            }
        };
        rep.judged += 1;
        rep.count("forbidden-operations", 1);
        rep.saw(&format!("forbidden {} {}", op.name, kind(s)));
        if !rejected {
            rep.violation(
                case,
                &format!("typing|{}|{}|accepted", op.name, kind(s)),
                &format!("the operation isn't available for the static type, but {:?} :: {}", y, describe::<T>(s, op, &b))
                    .chars()
                    .take(700)
                    .collect::<String>(),
            );
        }
        return;
    }
    let exp = expect(s, op, T::EPS);
    match agree::<T>(&y, &x, &exp) {
        Ok(true) => {
            rep.judged += 1;
            rep.count(&format!("op:{}", op.name), 1);
            rep.margin(op.name);
            rep.count(&format!("type:{}", kind(s)), 1);
            rep.saw(&key::<T>(s, op, &a));
            rep.sample(|| describe::<T>(s, op, &a));
        }
        Ok(false) => rep.skipped += 1,
        Err(b) => {
            rep.judged += 1;
            rep.violation(
                case,
                &format!("typing|{}|{}|{}", op.name, kind(s), b.class),
                &format!("with run time checks {} :: {}", b.msg, describe::<T>(s, op, &a)),
            );
        }
    }
}

/// All ways to turn one vector type into another
fn rededicate_case<T: Flt>(rep: &mut Report, case: u64, r: &Rng) {
    let (cx, fq) = (r.chance(0.5), r.chance(0.5));
    let n = r.below(12);
    let s = rounded::<T>(&make(r, n, cx, fq, false));
    let mut h = How::PLAIN;
    h.cores = r.range(1, 5);
    h.slack = 2 * r.below(4);
    let to = (r.chance(0.5), r.chance(0.5));
    let target_gen = r.chance(0.3);
    let source_gen = r.chance(0.4);
    let force = r.chance(0.2);
    let by_trait = r.chance(0.5);
    macro_rules! target {
        ($src: expr, $D: ty) => {{
            let v = $src;
            let alloc = v.alloc_len();
            let t: $D = if force {
                <$D>::rededicate_from_force(v)
            } else if by_trait {
                v.rededicate()
            } else {
                <$D>::rededicate_from(v)
            };
            (snap(&t), t.alloc_len() == alloc, same_settings(t.get_multicore_settings(), &h))
        }};
    }
    macro_rules! targets {
        ($src: expr) => {{
            if target_gen {
                target!($src, GenDspVec<Vec<T>, T>)
            } else {
                match to {
                    (false, false) => target!($src, RealTimeVec<Vec<T>, T>),
                    (false, true) => target!($src, RealFreqVec<Vec<T>, T>),
                    (true, false) => target!($src, ComplexTimeVec<Vec<T>, T>),
                    (true, true) => target!($src, ComplexFreqVec<Vec<T>, T>),
                }
            }
        }};
    }
    let res = guarded(|| {
        if source_gen {
            targets!(gen_of::<T>(&s, &h))
        } else {
            match (cx, fq) {
                (false, false) => targets!(rt_of::<T>(&s, &h)),
                (false, true) => targets!(rf_of::<T>(&s, &h)),
                (true, false) => targets!(ct_of::<T>(&s, &h)),
                (true, true) => targets!(cf_of::<T>(&s, &h)),
            }
        }
    });
    let what = format!(
        "{} {} (gen {}) to complex={} freq={} (gen {}) force {}",
        T::NAME, s.brief(), source_gen, to.0, to.1, target_gen, force
    );
    rep.judged += 1;
    rep.count("rededicate", 1);
    rep.saw(&format!("rededicate {} {} {:?} {} {} {}", cx, fq, to, target_gen, source_gen, force));
    let (t, alloc, settings) = match res {
        Ok(x) => x,
        Err(m) => {
            rep.violation(case, "rededicate|panic", &format!("{}: {}", m, what));
            return;
        }
    };
    let (wcx, wfq) = if target_gen { (cx, fq) } else { to };
    let same = wcx == cx && wfq == fq;
    if (t.cx, t.fq) != (wcx, wfq) {
        rep.violation(case, "rededicate|meta", &what);
    }
    if same && t.d != s.d {
        rep.violation(case, "rededicate|data", &format!("the data got lost: {}", what));
    }
    if !same && !force && !t.d.is_empty() {
        rep.violation(case, "rededicate|length", &format!("data is interpreted as something else: {}", what));
    }
    if t.delta != s.delta || !alloc || !settings {
        rep.violation(case, "rededicate|settings", &format!("delta, storage or settings changed: {}", what));
    }
}

pub fn c17_case(rep: &mut Report, case: u64, r: &Rng) {
    let f32s = r.chance(0.5);
    match (r.below(12), f32s) {
        (0, true) => rededicate_case::<f32>(rep, case, r),
        (0, false) => rededicate_case::<f64>(rep, case, r),
        (_, true) => typing_case::<f32>(rep, case, r),
        (_, false) => typing_case::<f64>(rep, case, r),
    }
}
pub fn c17(rep: &mut Report) {
    while let Some(case) = rep.next_case() {
        let r = rep.rng(case);
        c17_case(rep, case, &r);
    }
}
