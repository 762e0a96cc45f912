//! The property monitors.
use crate::check::*;
use crate::inst::*;
use crate::gen::*;
use crate::report::*;
use model::expect;

pub fn kind(s: &Snap) -> &'static str {
    match (s.cx, s.fq) {
        (false, false) => "real-time",
        (false, true) => "real-freq",
        (true, false) => "complex-time",
        (true, true) => "complex-freq",
    }
}
fn bucket(n: usize) -> usize {
    match n {
        0..=8 => n,
        9..=64 => 16 + n % 8,
        65..=512 => 32 + n % 4,
        _ => 48 + (n as f64).log2() as usize,
    }
}
/// What makes a case different from others
pub fn key<T: Flt>(s: &Snap, op: &Op, h: &How) -> String {
    format!(
        "{} {} {} {} {:?} {} {:?} {} {} {} {:?}",
        T::NAME,
        op.name,
        kind(s),
        bucket(s.points()),
        h.storage,
        h.stat,
        h.buf,
        h.slack.min(9),
        h.cores,
        h.simd,
        op.u
    )
}
/// Rounds everything which is converted to T so that the model sees the same values
pub fn exact<T: Flt>(sp: &mut Spec) {
    sp.snap = rounded::<T>(&sp.snap);
    for a in &mut sp.op.args {
        *a = rounded::<T>(a);
    }
    for x in &mut sp.op.f {
        *x = T::of(*x).g();
    }
    for x in &mut sp.op.fun.p {
        *x = T::of(*x).g();
    }
}

pub fn describe<T: Flt>(s: &Snap, op: &Op, h: &How) -> String {
    format!("{} {} on {} how {:?}", T::NAME, op.brief(), s.brief(), h)
}

/// Executes one operation and judges it with the model
pub fn one<T: Flt>(rep: &mut Report, case: u64, s: &Snap, op: &Op, h: &How) {
    if rep.verbose {
        println!("case {}: {}", case, describe::<T>(s, op, h));
    }
    let exp = expect(s, op, T::EPS);
    STRAY_WRITE.with(|x| *x.borrow_mut() = false);
    let obs = run::<T>(s, op, h);
    let stray = STRAY_WRITE.with(|x| *x.borrow());
    if stray {
        rep.violation(
            case,
            &format!("{}|{}|stray-write", op.name, kind(s)),
            &format!("memory outside of the slice was written: {}", describe::<T>(s, op, h)),
        );
    }
    // An absolute value has no sign
    if let ("abs", Obs::Ran(o)) = (op.name, &obs) {
        if let Some(i) = o.snap.d.iter().position(|x| !x.is_nan() && x.is_sign_negative()) {
            rep.violation(
                case,
                "abs|sign",
                &format!("the sign of value {} ({}) is negative: {}", i, o.snap.d[i], describe::<T>(s, op, h)),
            );
        }
    }
    match judge::<T>(&exp, &obs, s, h.storage != Storage::Vec) {
        Ok(true) => {
            rep.judged += 1;
            rep.saw(&key::<T>(s, op, h));
            rep.count(&format!("op:{}", op.name), 1);
            rep.margin(op.name);
            rep.count(&format!("simd:{}", h.simd), 1);
            rep.count(if h.cores > 1 { "threads:many" } else { "threads:one" }, 1);
            rep.count(&format!("storage:{}", storage_name(h)), 1);
            match exp {
                model::Exp::Ok(_) => rep.count("outcome:value", 1),
                _ => rep.count("outcome:failure-contract", 1),
            }
            rep.sample(|| describe::<T>(s, op, h));
        }
        Ok(false) => rep.skipped += 1,
        Err(b) => {
            rep.judged += 1;
            let mut sig = format!("{}|{}|{}", op.name, kind(s), b.class);
            if let Some(id) = known_shape::<T>(s, op, h, &obs) {
                sig = format!("known|{}", id);
            }
            rep.violation(case, &sig, &format!("{} :: {}", b.msg, describe::<T>(s, op, h)));
        }
    }
}
/// Recognizes the exact shape of a recorded finding. It is still reported, but under a name of its
/// own, so that any other deviation stays a violation.
pub fn known_shape<T: Flt>(s: &Snap, op: &Op, h: &How, obs: &Obs) -> Option<&'static str> {
    if vectorized_with_delay(s, op) {
        let mut other = op.clone();
        other.f[1] = -op.f[1];
        let exp = expect(s, &other, T::EPS);
        if let Ok(true) = judge::<T>(&exp, obs, s, h.storage != Storage::Vec) {
            return Some("interpolatef-delay-direction");
        }
    }
    None
}
fn vectorized_with_delay(s: &Snap, op: &Op) -> bool {
    if op.name != "interpolatef" || op.f[1] == 0.0 {
        return false;
    }
    let k = op.f[0];
    let len = (s.d.len() as f64 * k).round() as usize;
    (k - k.round()).abs() < 1e-6 && len + len % 2 >= 2000 && op.u[0].min(s.points() / 2) <= 202
}
pub fn storage_name(h: &How) -> &'static str {
    match h.storage {
        Storage::Vec => "vec",
        Storage::Boxed => "box",
        Storage::Slice(_) => "slice",
        Storage::Array(_) => "array",
    }
}

fn model_case<T: Flt>(rep: &mut Report, case: u64, r: &Rng, fams: &[Fam], size: Size, wrong: f64) {
    let fam = *r.pick(fams);
    let mut sp = draw(r, fam, size, wrong);
    if fam == Fam::Interp && case % 40 == 0 && !tiny() {
        // The vectorized interpolation with a delay is rare otherwise
        for _ in 0..2000 {
            if vectorized_with_delay(&sp.snap, &sp.op) {
                break;
            }
            sp = draw(r, fam, size, wrong);
        }
    }
    exact::<T>(&mut sp);
    let mut h = how(r, &EVERY);
    restrict(&mut h, &sp.snap, &sp.op);
    one::<T>(rep, case, &sp.snap, &sp.op, &h);
}

/// Operations of some families against the model under all kinds of conditions
pub fn against_model(rep: &mut Report, fams: &[Fam], size: Size) {
    while let Some(case) = rep.next_case() {
        let r = rep.rng(case);
        if r.chance(0.5) {
            model_case::<f32>(rep, case, &r, fams, size, 0.07);
        } else {
            model_case::<f64>(rep, case, &r, fams, size, 0.07);
        }
    }
}

/// Memory in elements which an operation on storage of a fixed size needs to succeed: the data, the result, and
/// what these operations work with in between.
fn memory(s: &Snap, op: &Op, g: &model::Good) -> usize {
    let n = s.d.len();
    let most = g.v.snap.d.len().max(n);
    match op.name {
        "plain_sfft" | "sfft" | "windowed_sfft" => 2 * n + 2,
        "plain_sifft" | "sifft" | "windowed_sifft" => 2 * n + 2 * n,
        "interpolate" | "interpft" | "interpolatei" if !s.cx => 2 * most + 2,
        _ => most,
    }
}
/// The same for the arguments which are written to
fn memory_of_arguments(op: &Op, g: &model::Good) -> usize {
    if op.name == "split_into" {
        return 0;
    }
    if op.name == "correlate" {
        // The argument is prepared before
        return 3 * op.args[0].d.len() + 8;
    }
    g.extra.iter().zip(&op.args).map(|(x, a)| x.snap.d.len().saturating_sub(a.d.len())).max().unwrap_or(0)
}

/// Vectors in memory of a fixed size: with enough memory operations succeed, without it they fail, and
/// in any case they never return something else than the right result.
fn c24_case<T: Flt>(rep: &mut Report, case: u64, r: &Rng) {
    // Mostly operations which need more memory than the data
    let fam = match r.below(6) {
        0..=1 => Fam::Reorg,
        2 => Fam::Parts,
        3 => *r.pick(&[Fam::Interp, Fam::Fft, Fam::Sfft, Fam::Corr, Fam::Conv]),
        _ => *r.pick(ALL),
    };
    let mut sp = draw(r, fam, if r.chance(0.3) { Size::Large } else { Size::Any }, 0.03);
    exact::<T>(&mut sp);
    let (s, op) = (&sp.snap, &sp.op);
    if vectorized_with_delay(s, op) {
        rep.skipped += 1;
        return;
    }
    let mut h = how(r, &EVERY);
    h.stat = false;
    h.buf = *r.pick(&[Buf::Fixed, Buf::Fixed, Buf::Poison]);
    let exp = expect(s, op, T::EPS);
    let n = s.d.len();
    let (work, result, args) = match &exp {
        model::Exp::Ok(g) => (memory(s, op, g) - n, g.v.snap.d.len().max(n) - n, memory_of_arguments(op, g)),
        _ if op.name == "correlate" => (0, 0, 3 * op.args[0].d.len() + 8),
        _ => (0, 0, 0),
    };
    let longest = op.args.iter().map(|a| a.d.len()).max().unwrap_or(0).max(n);
    let array = r.chance(0.3) && longest + 2 <= ARRAY_CAP;
    h.slack = match r.below(10) {
        0..=3 => work.max(args),
        4 => result.max(args),
        5 => work.max(args) + r.below(6),
        6..=7 => r.below(work.max(args) + 1),
        8 => 0,
        _ => work + args + r.below(200),
    };
    let room = if array {
        h.slack = h.slack.min(ARRAY_CAP - longest - 1);
        ARRAY_CAP - longest
    } else {
        h.slack
    };
    h.storage = if array { Storage::Array(r.below(9)) } else { Storage::Slice(r.below(18)) };
    // Complex data has an even number of elements
    let even = |x: usize| x / 2 * 2;
    let own = if s.cx && !array { even(room + 1) } else { room };
    let fits = own >= work && room >= args;
    if rep.verbose {
        println!("case {}: {} fits {}", case, describe::<T>(s, op, &h), fits);
    }
    STRAY_WRITE.with(|x| *x.borrow_mut() = false);
    let obs = run::<T>(s, op, &h);
    let bad = |rep: &mut Report, what: &str, msg: &str| {
        let sig = format!("{}|{}|{}|{}", op.name, kind(s), if fits { "fits" } else { "too-small" }, what);
        rep.violation(case, &sig, &format!("{} :: {}", msg, describe::<T>(s, op, &h)));
    };
    if STRAY_WRITE.with(|x| *x.borrow()) {
        bad(rep, "stray-write", "memory outside of the slice was written");
    }
    let name = storage_name(&h);
    match &obs {
        Obs::NotAvailable => {
            rep.skipped += 1;
            return;
        }
        Obs::Panic(m) if m.starts_with("FixedLenBuffer: Out of memory") => {
            rep.skipped += 1;
            return;
        }
        _ if matches!(exp, model::Exp::Unspec) => {
            rep.skipped += 1;
            return;
        }
        Obs::Panic(m) if !fits && !m.contains("longer than its memory") => {
            rep.count(&format!("too-small:{}:panic", name), 1);
            rep.count(&format!("too-small:panic:{}", op.name), 1);
        }
        Obs::Ran(o) if !fits && format!("{:?}", o.err).contains("TypeCanNotResize") => {
            rep.count(&format!("too-small:{}:error", name), 1);
            let same = |a: &[f64], b: &[f64]| a.iter().zip(b).all(|(x, y)| x == y || (x.is_nan() && y.is_nan()));
            if !o.snap.d.is_empty() && (o.snap.d.len() != n || !same(&o.snap.d, &s.d)) {
                bad(rep, "changed", "TypeCanNotResize was reported but the data has changed");
            }
        }
        Obs::Ran(o) if !fits && is_invalid(&o.snap) => rep.count(&format!("too-small:{}:invalid", name), 1),
        _ => match judge::<T>(&exp, &obs, s, false) {
            Ok(_) => rep.count(&format!("{}:{}:result", if fits { "fits" } else { "too-small" }, name), 1),
            Err(b) => bad(rep, &b.class, &b.msg),
        },
    }
    rep.judged += 1;
    rep.saw(&key::<T>(s, op, &h));
    rep.count(&format!("op:{}", op.name), 1);
    rep.margin(op.name);
    rep.sample(|| describe::<T>(s, op, &h));
}
fn c24(rep: &mut Report) {
    while let Some(case) = rep.next_case() {
        let r = rep.rng(case);
        if r.chance(0.5) {
            c24_case::<f32>(rep, case, &r);
        } else {
            c24_case::<f64>(rep, case, &r);
        }
    }
}

/// Creating vectors and getting the data out again
fn c18(rep: &mut Report) {
    while let Some(case) = rep.next_case() {
        let r = rep.rng(case);
        let c = conv::case(&r);
        rep.judged += 1;
        rep.saw(&format!("{} {}", c.what, c.key));
        rep.count(&format!("way:{}", c.what), 1);
        for (k, n) in &c.counts {
            rep.count(k, *n);
        }
        rep.sample(|| format!("{} {}", c.what, c.key));
        for (sig, msg) in &c.errs {
            rep.violation(case, sig, &format!("{} :: {}", msg, c.key));
        }
    }
}

pub fn run_prop(rep: &mut Report) {
    let p = rep.prop.clone();
    match &p[..] {
        // only to have everything built
        "none" => (),
        "all" => against_model(rep, ALL, Size::Any),
        "C01" => against_model(rep, &[Fam::Elem, Fam::Elem, Fam::Elem, Fam::Map], Size::Any),
        #[cfg(feature = "std")]
        "C02" => crate::pairs::c02(rep),
        #[cfg(feature = "std")]
        "C03" => crate::pairs::c03(rep),
        #[cfg(feature = "std")]
        "C04" => crate::pairs::c04(rep),
        "C07" => against_model(rep, &[Fam::Fft], Size::Any),
        "C08" => against_model(rep, &[Fam::Sfft], Size::Any),
        "C09" => against_model(rep, &[Fam::Conv, Fam::Conv, Fam::Freq], Size::Large),
        "C10" => against_model(rep, &[Fam::Corr], Size::Any),
        "C11" => against_model(rep, &[Fam::Interp], Size::Any),
        "C12" => against_model(rep, &[Fam::Stat], Size::Any),
        "C13" => against_model(rep, &[Fam::Prec], Size::Any),
        "C14" => against_model(rep, &[Fam::Reorg], Size::Any),
        "C15" => against_model(rep, &[Fam::Parts], Size::Any),
        #[cfg(feature = "std")]
        "C16" => crate::histories::c16(rep),
        #[cfg(feature = "std")]
        "C17" => crate::histories::c17(rep),
        "C18" => c18(rep),
        "C19" => against_model(rep, &[Fam::Win], Size::Any),
        #[cfg(feature = "full")]
        "C20" => crate::mat::c20(rep),
        #[cfg(feature = "full")]
        "C21" => crate::ffi::run(rep),
        "C22" => against_model(rep, &[Fam::Approx], Size::Any),
        "C23" => crate::resp::c23(rep),
        "C24" => c24(rep),
        #[cfg(feature = "std")]
        "C05" => crate::mem::c05(rep),
        #[cfg(feature = "std")]
        "C06" => crate::race::c06(rep),
        x => {
            eprintln!("unknown property {}", x);
            std::process::exit(2);
        }
    }
}
