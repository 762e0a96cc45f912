//! Monitors which run the same operation under different circumstances and compare the outcomes.
use crate::check::*;
use crate::inst::*;
use crate::gen::*;
use crate::props::*;
use crate::report::*;
use basic_dsp_vector::numbers::Complex;
use basic_dsp_vector::*;
use model::expect;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

/// Judges two executions of the same operation
fn pair<T: Flt>(rep: &mut Report, case: u64, sp: &Spec, a: &How, b: &How, label: &str) {
    let (s, op) = (&sp.snap, &sp.op);
    if rep.verbose {
        println!("case {}: {} and {:?}", case, describe::<T>(s, op, a), b);
    }
    STRAY_WRITE.with(|x| *x.borrow_mut() = false);
    let x = run::<T>(s, op, a);
    let y = run::<T>(s, op, b);
    let desc = || format!("{} and {:?}", describe::<T>(s, op, a), b);
    if STRAY_WRITE.with(|x| *x.borrow()) {
        rep.violation(
            case,
            &format!("{}|{}|stray-write", op.name, kind(s)),
            &format!("memory outside of the slice was written: {}", desc()),
        );
    }
    compare::<T>(rep, case, s, op, (&x, a), (&y, b), label, &desc);
}
fn excused(o: &Obs, h: &How) -> bool {
    match o {
        Obs::NotAvailable => true,
        Obs::Panic(m) => m.starts_with("FixedLenBuffer: Out of memory"),
        Obs::Ran(o) => h.storage != Storage::Vec && o.err == Some(ErrorReason::TypeCanNotResize),
    }
}
#[allow(clippy::too_many_arguments)]
fn compare<T: Flt>(
    rep: &mut Report,
    case: u64,
    s: &Snap,
    op: &Op,
    x: (&Obs, &How),
    y: (&Obs, &How),
    label: &str,
    desc: &dyn Fn() -> String,
) {
    if excused(x.0, x.1) || excused(y.0, y.1) {
        rep.skipped += 1;
        return;
    }
    // Where the model decides, an execution which is as expected is on the safe side
    let exp = expect(s, op, T::EPS);
    match agree::<T>(y.0, x.0, &exp) {
        Ok(true) => {
            rep.judged += 1;
            rep.saw(&format!("{} {}", key::<T>(s, op, x.1), key::<T>(s, op, y.1)));
            rep.count(&format!("op:{}", op.name), 1);
            rep.margin(op.name);
            rep.count(label, 1);
            rep.sample(desc);
        }
        Ok(false) => rep.skipped += 1,
        Err(b) => {
            rep.judged += 1;
            rep.violation(
                case,
                &format!("{}|{}|{}|{}", label, op.name, kind(s), b.class),
                &format!("{} :: {}", b.msg, desc()),
            );
        }
    }
}
/// Only the way to execute is different, the vector has to be of the same kind
fn allowed(mut h: How, s: &Snap, op: &Op) -> How {
    restrict(&mut h, s, op);
    h
}

/// Statically typed or with run time checks: the same for both, another monitor compares them
fn same_typing(a: How, b: How, sp: &Spec) -> (How, How) {
    let mut b = allowed(b, &sp.snap, &sp.op);
    let mut a = a;
    if b.storage != Storage::Vec {
        b.stat = false;
    } else {
        b.stat = a.stat;
    }
    a.stat = b.stat;
    (a, b)
}

// ---- thread settings ----

pub fn many(r: &Rng) -> How {
    let mut h = How::PLAIN;
    h.cores = r.range(2, 9);
    let t = *r.pick(&[0usize, 1, 8, 30, 100, 500]);
    let t2 = *r.pick(&[0usize, 1, 8, 100, 600]);
    h.thr = [t, t + t2, t, t + t2];
    h
}

fn threads_case<T: Flt>(rep: &mut Report, case: u64, r: &Rng) {
    let big = r.chance(0.04);
    let fams: &[Fam] = if big { &[Fam::Elem, Fam::Map, Fam::Stat, Fam::Reorg, Fam::Parts, Fam::Win] } else { ALL };
    let fam = *r.pick(fams);
    let mut sp = draw(r, fam, if r.chance(0.7) { Size::Large } else { Size::Any }, 0.03);
    if big && ["unwrap"].iter().all(|x| *x != sp.op.name) && sp.op.args.is_empty() {
        // beyond the default thresholds
        let n = 2 * r.range(20_000, 70_000);
        sp.snap.d = values(r, n, sp.snap.d.iter().all(|x| *x > 0.0));
        if sp.op.name.starts_with("zero") || sp.op.name.starts_with("resize") {
            sp.op.u[0] = r.range(1, 4);
        }
        if sp.op.name.contains("map_aggregate") || sp.op.name.contains("fft") || sp.op.name == "split_into" {
            sp.snap.d.truncate(30_000);
        }
    }
    // Convolutions and interpolations call the function once per point and tap
    let few_calls = fam == Fam::Map || fam == Fam::Win;
    if r.chance(0.3) && sp.snap.d.len() < if few_calls { 3000 } else { 200 } {
        sp.op.fun.delay = if few_calls { *r.pick(&[20u32, 200, 800]) } else { 20 };
    }
    exact::<T>(&mut sp);
    let base = how(r, &Dims { threads: false, ..EVERY });
    let base = allowed(base, &sp.snap, &sp.op);
    let mut b = base;
    let m = many(r);
    b.cores = m.cores;
    b.thr = if sp.snap.d.len() > 20_000 && r.chance(0.6) { How::PLAIN.thr } else { m.thr };
    pair::<T>(rep, case, &sp, &base, &b, "one-thread-vs-many");
}

/// Callbacks are recorded: each element has to be visited exactly once, with its value, position and
/// the argument, and never after the operation returned.
fn exactly_once<T: Flt>(rep: &mut Report, case: u64, r: &Rng) {
    let h = many(r);
    set_simd(*r.pick(simd_levels()));
    let n = if r.chance(0.5) { r.below(300) } else { r.below(4000) };
    let cx = r.chance(0.5);
    let slack = 2 * r.below(20);
    let agg = r.chance(0.5);
    let delay = *r.pick(&[0usize, 0, 50, 400]);
    let slow = r.below(n + 1);
    let arg = T::of(r.uni(-3.0, 3.0));
    let len = if cx { 2 * n } else { n };
    let s = Snap::new((0..len).map(|x| x as f64).collect(), cx, r.chance(0.5), 1.0);
    let mut hh = h;
    hh.slack = slack;
    let mut v = gen_of::<T>(&s, &hh);
    let visits: Vec<AtomicUsize> = (0..n).map(|_| AtomicUsize::new(0)).collect();
    let bad = AtomicUsize::new(0);
    let after = AtomicBool::new(false);
    let late = AtomicUsize::new(0);
    let order: Mutex<Vec<std::thread::ThreadId>> = Mutex::new(vec![]);
    let log = |value_ok: bool, i: usize, a: T| {
        if after.load(SeqCst) {
            late.fetch_add(1, SeqCst);
        }
        if i >= n || !value_ok || a != arg {
            bad.fetch_add(1, SeqCst);
        } else {
            visits[i].fetch_add(1, SeqCst);
        }
        if i % 16 == 0 {
            let id = std::thread::current().id();
            let mut o = order.lock().unwrap();
            if o.last() != Some(&id) {
                o.push(id);
            }
        }
        let d = if i >= slow && i < slow + 20 { 5000 } else { delay * (i * 7 % 5) };
        for _ in 0..d {
            std::hint::spin_loop();
        }
    };
    let res = guarded(|| {
        let mut got = n;
        match (cx, agg) {
            (false, false) => MapInplaceOps::<T>::map_inplace(&mut v, arg, &|x: T, i, a| {
                log(x.g() == i as f64, i, a);
                x + T::of(0.5)
            }),
            (true, false) => MapInplaceOps::<Complex<T>>::map_inplace(&mut v, arg, &|x: Complex<T>, i, a| {
                log(x.re.g() == 2.0 * i as f64 && x.im.g() == 2.0 * i as f64 + 1.0, i, a);
                Complex::new(x.re + T::of(0.5), x.im + T::of(0.5))
            }),
            (false, true) => {
                got = MapAggregateOps::<T, usize>::map_aggregate(
                    &v,
                    arg,
                    &|x: T, i, a| {
                        log(x.g() == i as f64, i, a);
                        1
                    },
                    &|a, b| a + b,
                )
                .unwrap_or(usize::MAX)
            }
            (true, true) => {
                got = MapAggregateOps::<Complex<T>, usize>::map_aggregate(
                    &v,
                    arg,
                    &|x: Complex<T>, i, a| {
                        log(x.re.g() == 2.0 * i as f64 && x.im.g() == 2.0 * i as f64 + 1.0, i, a);
                        1
                    },
                    &|a, b| a + b,
                )
                .unwrap_or(usize::MAX)
            }
        }
        got
    });
    after.store(true, SeqCst);
    let what = format!("{} {} n={} cx={} {:?}", T::NAME, if agg { "map_aggregate" } else { "map_inplace" }, n, cx, hh);
    let got = match res {
        Ok(g) => g,
        Err(m) => {
            rep.violation(case, "exactly-once|panic", &format!("{}: {}", m, what));
            return;
        }
    };
    let wrong = visits.iter().filter(|x| x.load(SeqCst) != 1).count();
    let empty_agg = agg && n == 0;
    if wrong > 0 || bad.load(SeqCst) > 0 || late.load(SeqCst) > 0 || (got != n && !empty_agg) {
        rep.violation(
            case,
            "exactly-once|visits",
            &format!(
                "{} elements not visited once, {} wrong calls, {} late calls, total {}: {}",
                wrong,
                bad.load(SeqCst),
                late.load(SeqCst),
                got,
                what
            ),
        );
    }
    if !agg {
        let after: Vec<f64> = v.data(..).iter().map(|x| x.g()).collect();
        if after.iter().enumerate().any(|(i, x)| *x != i as f64 + 0.5) || after.len() != len {
            rep.violation(case, "exactly-once|result", &format!("a result is lost: {}", what));
        }
    }
    let o = order.lock().unwrap();
    let ids: BTreeSet<String> = o.iter().map(|x| format!("{:?}", x)).collect();
    rep.judged += 1;
    rep.count("exactly-once", 1);
    rep.count("exactly-once:callbacks", n as u64);
    rep.count(&format!("exactly-once:on-{}-threads", ids.len().min(9)), 1);
    // which thread took turns with which
    let names: Vec<String> = ids.into_iter().collect();
    let inter: Vec<String> =
        o.iter().map(|x| names.iter().position(|n| *n == format!("{:?}", x)).unwrap().to_string()).collect();
    rep.saw(&format!("once {} {} {}", agg, cx, inter.join("")));
}

/// Several vectors are processed at the same time by user threads, each with worker threads.
fn concurrent<T: Flt + 'static>(rep: &mut Report, case: u64, r: &Rng) {
    let level = *r.pick(simd_levels());
    let jobs: Vec<(Spec, How)> = (0..r.range(2, 6))
        .map(|_| {
            let fam = *r.pick(ALL);
            let mut sp = draw(r, fam, Size::Any, 0.03);
            exact::<T>(&mut sp);
            let mut h = how(r, &EVERY);
            if r.chance(0.6) {
                let m = many(r);
                h.cores = m.cores;
                h.thr = m.thr;
            }
            h.simd = level;
            let h = allowed(h, &sp.snap, &sp.op);
            (sp, h)
        })
        .collect();
    set_simd(level);
    let alone: Vec<Obs> = jobs.iter().map(|(sp, h)| run::<T>(&sp.snap, &sp.op, h)).collect();
    let rounds = r.range(1, 3);
    let together: Vec<Vec<Obs>> = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|(sp, h)| {
                // Vectors in arrays live on the stack
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || (0..rounds).map(|_| run::<T>(&sp.snap, &sp.op, h)).collect::<Vec<_>>())
                    .expect("harness: thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (i, (sp, h)) in jobs.iter().enumerate() {
        for t in &together[i] {
            let desc = || format!("with {} threads at the same time: {}", jobs.len(), describe::<T>(&sp.snap, &sp.op, h));
            compare::<T>(rep, case, &sp.snap, &sp.op, (&alone[i], h), (t, h), "alone-vs-concurrent", &desc);
        }
    }
}

pub fn c02_case(rep: &mut Report, case: u64, r: &Rng) {
    let f32s = r.chance(0.5);
    match (r.below(10), f32s) {
        (0..=5, true) => threads_case::<f32>(rep, case, r),
        (0..=5, false) => threads_case::<f64>(rep, case, r),
        (6..=8, true) => exactly_once::<f32>(rep, case, r),
        (6..=8, false) => exactly_once::<f64>(rep, case, r),
        (_, true) => concurrent::<f32>(rep, case, r),
        (_, false) => concurrent::<f64>(rep, case, r),
    }
}
pub fn c02(rep: &mut Report) {
    while let Some(case) = rep.next_case() {
        let r = rep.rng(case);
        c02_case(rep, case, &r);
    }
}

// ---- instruction sets and alignment ----

fn simd_case<T: Flt>(rep: &mut Report, case: u64, r: &Rng) {
    let fam = *r.pick(ALL);
    let mut sp = draw(r, fam, Size::Any, 0.02);
    // all combinations of edge lengths come up for small vectors
    if r.chance(0.3) && sp.op.args.is_empty() && !["split_into", "resize", "zero_pad", "zero_pad_b"].contains(&sp.op.name) {
        let n = r.below(80);
        let m = if sp.snap.cx { n / 2 * 2 } else { n };
        sp.snap.d.truncate(m);
    }
    exact::<T>(&mut sp);
    let mut base = how(r, &Dims { simd: false, storage: false, ..EVERY });
    base.simd = 0;
    base.stat = r.chance(0.3);
    let base = allowed(base, &sp.snap, &sp.op);
    let mut b = base;
    b.simd = *r.pick(simd_levels());
    if r.chance(0.7) {
        b.storage = Storage::Slice(r.below(18));
    }
    let (base, b) = same_typing(base, b, &sp);
    rep.count(&format!("level:{}", b.simd), 1);
    if let Storage::Slice(o) = b.storage {
        rep.count(&format!("offset:{}", o), 1);
    }
    pair::<T>(rep, case, &sp, &base, &b, "scalar-vs-simd");
}
pub fn c03_case(rep: &mut Report, case: u64, r: &Rng) {
    if r.chance(0.5) {
        simd_case::<f32>(rep, case, r);
    } else {
        simd_case::<f64>(rep, case, r);
    }
}
pub fn c03(rep: &mut Report) {
    while let Some(case) = rep.next_case() {
        let r = rep.rng(case);
        c03_case(rep, case, &r);
    }
}

// ---- storage and buffers ----

fn storage_case<T: Flt>(rep: &mut Report, case: u64, r: &Rng) {
    let fam = *r.pick(ALL);
    let mut sp = draw(r, fam, Size::Any, 0.03);
    exact::<T>(&mut sp);
    let mut base = how(r, &Dims { storage: false, slack: false, bufs: false, ..EVERY });
    base.stat = r.chance(0.3);
    let base = allowed(base, &sp.snap, &sp.op);
    let mut b = how(r, &EVERY);
    b.simd = base.simd;
    b.cores = base.cores;
    b.thr = base.thr;
    let (base, b) = same_typing(base, b, &sp);
    rep.count(&format!("storage:{}", storage_name(&b)), 1);
    rep.count(&format!("buffer:{:?}", b.buf), 1);
    rep.count(&format!("slack:{}", b.slack > 0), 1);
    pair::<T>(rep, case, &sp, &base, &b, "plain-vs-storage");
}
const BUFFERED: &[(&str, &str)] = &[
    ("zero_pad", "zero_pad_b"),
    ("zero_interleave", "zero_interleave_b"),
    ("resize", "resize_b"),
    ("magnitude", "magnitude_b"),
    ("magnitude_squared", "magnitude_squared_b"),
    ("to_real", "to_real_b"),
    ("to_imag", "to_imag_b"),
    ("phase", "phase_b"),
    ("to_complex", "to_complex_b"),
];
fn with_and_without_buffer<T: Flt>(rep: &mut Report, case: u64, r: &Rng) {
    let mut sp = loop {
        let sp = draw(r, *r.pick(&[Fam::Reorg, Fam::Parts]), Size::Any, 0.02);
        if BUFFERED.iter().any(|(a, b)| *a == sp.op.name || *b == sp.op.name) {
            break sp;
        }
    };
    exact::<T>(&mut sp);
    let (a, b) = *BUFFERED.iter().find(|(a, b)| *a == sp.op.name || *b == sp.op.name).unwrap();
    if sp.op.name.starts_with("resize") && sp.op.u[0] > sp.snap.d.len() {
        // what the additional elements contain isn't defined
        sp.op.u[0] = sp.snap.d.len();
    }
    let h = allowed(how(r, &EVERY), &sp.snap, &sp.op);
    let mut with = sp.op.clone();
    with.name = b;
    sp.op.name = a;
    let x = run::<T>(&sp.snap, &sp.op, &h);
    let mut y = run::<T>(&sp.snap, &with, &h);
    // Without a result type a failure is only visible by the mark of the vector
    let failed = |o: &Obs| matches!(o, Obs::Ran(o) if o.err.is_some() || is_invalid(&o.snap));
    if failed(&x) && failed(&y) {
        y = x.clone();
    }
    let desc = || format!("and the same with a buffer: {}", describe::<T>(&sp.snap, &sp.op, &h));
    compare::<T>(rep, case, &sp.snap, &sp.op, (&x, &h), (&y, &h), "without-vs-with-buffer", &desc);
}
/// One buffer for a sequence of operations on vectors of different sizes
#[cfg(feature = "std")]
fn reused_buffer<T: Flt>(rep: &mut Report, case: u64, r: &Rng) {
    const USES: &[Fam] =
        &[Fam::Fft, Fam::Sfft, Fam::Conv, Fam::Corr, Fam::Interp, Fam::Reorg, Fam::Parts, Fam::Elem, Fam::Win];
    let kind_of = *r.pick(&[Buf::Single, Buf::Single, Buf::NoBuf, Buf::Fixed]);
    let steps = r.range(2, 12);
    let level = *r.pick(simd_levels());
    let mut plan = vec![];
    for _ in 0..steps {
        let mut sp = draw(r, *r.pick(USES), Size::Any, 0.05);
        exact::<T>(&mut sp);
        let mut h = how(r, &Dims { storage: false, ..EVERY });
        h.simd = level;
        h.buf = kind_of;
        h.stat = r.chance(0.4);
        let h = allowed(h, &sp.snap, &sp.op);
        plan.push((sp, h));
    }
    set_simd(level);
    let most = plan
        .iter()
        .map(|(sp, _)| longest(&sp.snap, &sp.op))
        .max()
        .unwrap();
    let mut buf = AnyBuf::<T>::new(kind_of, 16 * most + 4096);
    for (i, (sp, h)) in plan.iter().enumerate() {
        let y = match guarded(|| run_in::<T>(&sp.snap, &sp.op, h, &mut buf)) {
            Ok(o) => o,
            Err(m) => Obs::Panic(m),
        };
        let x = run::<T>(&sp.snap, &sp.op, h);
        let desc = || {
            let before: Vec<&str> = plan[..i].iter().map(|(s, _)| s.op.name).collect();
            format!("with a buffer used before by {:?}: {}", before, describe::<T>(&sp.snap, &sp.op, h))
        };
        compare::<T>(rep, case, &sp.snap, &sp.op, (&x, h), (&y, h), "fresh-vs-reused-buffer", &desc);
    }
}
pub fn c04_case(rep: &mut Report, case: u64, r: &Rng) {
    let f32s = r.chance(0.5);
    match (r.below(10), f32s) {
        (0..=5, true) => storage_case::<f32>(rep, case, r),
        (0..=5, false) => storage_case::<f64>(rep, case, r),
        (6..=7, true) => with_and_without_buffer::<f32>(rep, case, r),
        (6..=7, false) => with_and_without_buffer::<f64>(rep, case, r),
        (_, true) => reused_buffer::<f32>(rep, case, r),
        (_, false) => reused_buffer::<f64>(rep, case, r),
    }
}
pub fn c04(rep: &mut Report) {
    while let Some(case) = rep.next_case() {
        let r = rep.rng(case);
        c04_case(rep, case, &r);
    }
}
