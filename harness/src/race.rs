//! Operations on several threads, for race detectors which watch the memory accesses (C06). What can
//! be seen without such a tool is judged here: no callback runs and nothing changes after an operation
//! has returned, whatever the delays of the threads.
use crate::gen::*;
use crate::inst::*;
use crate::mem::Fails;
use crate::pairs::many;
use crate::props::*;
use crate::report::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::numbers::*;
use basic_dsp_vector::window_functions::*;
use basic_dsp_vector::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

/// Threads which were started and which have finished, if the library which delays threads is loaded
fn threads() -> Option<(usize, usize)> {
    #[cfg(not(miri))]
    {
        use std::ffi::{c_char, c_long, c_void};
        extern "C" {
            fn dlsym(lib: *mut c_void, name: *const c_char) -> *mut c_void;
        }
        let p = unsafe { dlsym(std::ptr::null_mut(), b"sched_counts\0".as_ptr() as *const c_char) };
        if p.is_null() {
            return None;
        }
        let f: extern "C" fn(*mut c_long) = unsafe { std::mem::transmute(p) };
        let mut out = [0 as c_long; 2];
        f(out.as_mut_ptr());
        Some((out[0] as usize, out[1] as usize))
    }
    #[cfg(miri)]
    None
}
/// Waits until all threads have come to an end
fn settle(longest: Duration) {
    let start = Instant::now();
    while start.elapsed() < longest {
        match threads() {
            None => return,
            Some((a, b)) if a == b => return,
            _ => std::thread::sleep(Duration::from_micros(50)),
        }
    }
}

const FAMS: &[Fam] = &[
    Fam::Elem, Fam::Elem, Fam::Elem, Fam::Approx, Fam::Approx, Fam::Conv, Fam::Conv, Fam::Win, Fam::Win, Fam::Freq,
    Fam::Freq, Fam::Interp, Fam::Interp, Fam::Fft, Fam::Sfft, Fam::Map, Fam::Stat, Fam::Prec, Fam::Corr, Fam::Reorg,
    Fam::Parts,
];

/// Operations which are worth to be split
fn costly(op: &str) -> bool {
    ["sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "sqrt", "root", "powf",
        "ln", "exp", "log", "expf"]
        .contains(&op)
        || op.ends_with("_approx")
        || op.contains("window")
        || op.starts_with("multiply_")
        || op.starts_with("convolve")
        || op.starts_with("interpol")
}
fn size(r: &Rng) -> Size {
    *r.pick(&[Size::Small, Size::Any, Size::Any, Size::Large])
}
fn spread(r: &Rng, h: &mut How) {
    let m = many(r);
    h.cores = m.cores;
    h.thr = m.thr;
    if r.chance(0.85) {
        h.thr = [0, 1, 0, 1];
        h.cores = *r.pick(&[2, 2, 3, 4, 8, 16]);
    }
}

/// One operation on worker threads
fn operation<T: Flt>(rep: &mut Report, case: u64, r: &Rng) {
    let mut sp = draw(r, *r.pick(FAMS), size(r), 0.03);
    for _ in 0..12 {
        if costly(sp.op.name) || r.chance(0.03) {
            break;
        }
        sp = draw(r, *r.pick(FAMS), size(r), 0.03);
    }
    exact::<T>(&mut sp);
    if sp.snap.points() < 200 && r.chance(0.3) {
        sp.op.fun.delay = *r.pick(&[3, 20, 100]);
    }
    let mut h = how(r, &Dims { storage: false, ..EVERY });
    h.stat = false;
    spread(r, &mut h);
    h.apply_simd();
    if rep.verbose {
        println!("case {}: {}", case, describe::<T>(&sp.snap, &sp.op, &h));
    }
    let most = longest(&sp.snap, &sp.op);
    let mut buf = AnyBuf::<T>::new(h.buf, 16 * most + 96);
    let v = gen_of::<T>(&sp.snap, &h);
    let before = threads();
    let calls_before = CALLS.load(SeqCst);
    let ran = guarded(|| T::step(v, &sp.op, &h, &mut buf));
    let calls = CALLS.load(SeqCst);
    let v = match ran {
        Ok(Step::Done(v, _, _)) => Some(v),
        Ok(Step::NotAvailable(_)) => {
            rep.skipped += 1;
            return;
        }
        Err(_) => None,
    };
    let now = v.as_ref().map(|v| v.data(..).to_vec());
    let started = match (before, threads()) {
        (Some(a), Some(b)) => b.0 - a.0,
        _ => 0,
    };
    settle(Duration::from_millis(100));
    let mut problem = None;
    if CALLS.load(SeqCst) != calls {
        problem = Some("late-callback");
    }
    if let (Some(v), Some(now)) = (&v, &now) {
        let then = v.data(..);
        let same = then.len() == now.len() && then.iter().zip(now).all(|(a, b)| a.g().to_bits() == b.g().to_bits());
        if !same {
            problem = Some("late-write");
        }
    }
    rep.judged += 1;
    rep.count("operations", 1);
    rep.count("callbacks", (calls - calls_before) as u64);
    rep.count("worker-threads", started as u64);
    rep.count(&format!("on-threads:{}", started.min(17)), 1);
    rep.count(&format!("op:{}", sp.op.name), 1);
    rep.saw(&key::<T>(&sp.snap, &sp.op, &h));
    rep.sample(|| describe::<T>(&sp.snap, &sp.op, &h));
    if let Some(p) = problem {
        rep.violation(
            case,
            &format!("{}|{}", sp.op.name, p),
            &format!("the operation had returned while its threads were running: {}", describe::<T>(&sp.snap, &sp.op, &h)),
        );
    }
}

/// A callback panics in one of the threads
fn gives_up<T: Flt>(rep: &mut Report, case: u64, r: &Rng) {
    let mut h = How::PLAIN;
    spread(r, &mut h);
    h.simd = *r.pick(simd_levels());
    h.apply_simd();
    let n = points(r, size(r)).max(2);
    let freq = r.chance(0.5);
    let s = rounded::<T>(&make(r, n, r.chance(0.5), freq, false));
    let mut v = gen_of::<T>(&s, &h);
    let f = Fails { at: r.below(n), calls: AtomicUsize::new(0), sym: r.chance(0.4) };
    let mut buf = SingleBuffer::<T>::new();
    let way = r.below(3);
    let kept = &mut v;
    let ran = guarded(|| match (way, freq) {
        (0, _) => kept.apply_window(&f),
        (_, true) => kept.multiply_frequency_response(&f as &dyn RealFrequencyResponse<T>, T::of(1.0)),
        (1, _) => kept.convolve(&mut buf, &f as &dyn RealImpulseResponse<T>, T::of(0.5), n.min(7)),
        _ => kept.interpolatef(&mut buf, &f, T::of(2.0), T::of(0.0), 5),
    });
    let calls = CALLS.load(SeqCst);
    let now = v.data(..).to_vec();
    settle(Duration::from_millis(100));
    let same = v.data(..).iter().zip(&now).all(|(a, b)| a.g().to_bits() == b.g().to_bits());
    let what = format!("{} way {} on {} with {:?}", T::NAME, way, s.brief(), h);
    if CALLS.load(SeqCst) != calls || !same {
        rep.violation(case, "panic|late", &format!("threads ran on after a callback had panicked: {}", what));
    }
    rep.judged += 1;
    rep.count(if ran.is_err() { "panics" } else { "no-panics" }, 1);
    rep.saw(&format!("panic {} {} {} {}", T::NAME, way, freq, h.cores));
}

/// User threads with vectors of their own
fn side_by_side<T: Flt>(rep: &mut Report, case: u64, r: &Rng) {
    let level = *r.pick(simd_levels());
    let jobs: Vec<(Spec, How)> = (0..r.range(2, 5))
        .map(|_| {
            let mut sp = draw(r, *r.pick(FAMS), *r.pick(&[Size::Small, Size::Any]), 0.03);
            exact::<T>(&mut sp);
            let mut h = how(r, &EVERY);
            if r.chance(0.5) {
                spread(r, &mut h);
            }
            h.simd = level;
            restrict(&mut h, &sp.snap, &sp.op);
            (sp, h)
        })
        .collect();
    let names: Vec<&str> = jobs.iter().map(|x| x.0.op.name).collect();
    if rep.verbose {
        println!("case {}: {:?}", case, names);
    }
    let rounds = if tiny() { 1 } else { r.range(1, 3) };
    let measured = r.chance(0.05) && !tiny();
    std::thread::scope(|sc| {
        for (sp, h) in &jobs {
            // Vectors in arrays live on the stack
            let thread = std::thread::Builder::new().stack_size(64 << 20);
            let job = move || {
                for _ in 0..rounds {
                    if measured {
                        std::hint::black_box(MultiCoreSettings::parallel());
                    }
                    run::<T>(&sp.snap, &sp.op, h);
                }
            };
            thread.spawn_scoped(sc, job).expect("harness: thread");
        }
    });
    rep.judged += 1;
    rep.count("side-by-side", 1);
    rep.count("side-by-side:operations", (jobs.len() * rounds) as u64);
    if measured {
        rep.count("calibrated", 1);
    }
    rep.saw(&format!("beside {:?}", names));
}

trait Tables: Flt {
    fn tables(d: &[Self]) -> (Box<dyn RealImpulseResponse<Self>>, Box<dyn ComplexFrequencyResponse<Self>>);
}
macro_rules! tables {
    ($T: ty) => {
        impl Tables for $T {
            fn tables(d: &[$T]) -> (Box<dyn RealImpulseResponse<$T>>, Box<dyn ComplexFrequencyResponse<$T>>) {
                let complex: Vec<Complex<$T>> = d.iter().map(|x| Complex::new(*x, *x)).collect();
                (
                    Box::new(RealTimeLinearTableLookup::<$T>::from_raw_parts(d, 0.25, true)),
                    Box::new(ComplexFrequencyLinearTableLookup::<$T>::from_raw_parts(&complex, 0.5, false)),
                )
            }
        }
    };
}
tables!(f32);
tables!(f64);

/// Things which only can be read are used by several threads at the same time
fn shared<T: Tables>(rep: &mut Report, case: u64, r: &Rng) {
    let mut h = How::PLAIN;
    spread(r, &mut h);
    h.simd = *r.pick(simd_levels());
    h.apply_simd();
    let n = points(r, size(r)).max(1);
    let s = rounded::<T>(&make(r, n, r.chance(0.5), false, false));
    let v = gen_of::<T>(&s, &h);
    let w = gen_of::<T>(&s, &h);
    let len = r.range(1, 30);
    let data: Vec<T> = conv(&values(r, len, false));
    let (t1, t2) = T::tables(&data);
    let (rc, sinc) = (RaisedCosineFunction::new(T::of(0.35)), SincFunction::<T>::new());
    let (ham, bh) = (HammingWindow::<T>::default(), BlackmanHarrisWindow);
    let way = r.below(5);
    if rep.verbose {
        println!("case {}: shared way {} {}", case, way, s.brief());
    }
    let pad = points(r, Size::Small);
    let go = |k: usize| match (way + k) % 5 {
        0 => {
            if s.cx {
                let _ = DotProductOps::<_, Complex<T>, T, _, _>::dot_product(&v, &w);
                let _ = StatisticsOps::<Complex<T>>::statistics(&v);
                let _ = SumOps::<Complex<T>>::sum(&w);
            } else {
                let _ = DotProductOps::<_, T, T, _, _>::dot_product(&v, &w);
                let _ = StatisticsOps::<T>::statistics(&v);
                let _ = SumOps::<T>::sum(&w);
            }
        }
        1 => {
            // one of the arguments belongs to all threads
            let mut x = v.clone();
            let _ = x.add(&w);
            let _ = x.mul(&v);
            let mut buf = SingleBuffer::<T>::new();
            let _ = x.convolve_signal(&mut buf, &w);
        }
        2 => {
            for i in 0..20 {
                let x = T::of(i as f64 * 0.37 - 3.0);
                std::hint::black_box((t1.calc(x), t2.calc(x)));
                std::hint::black_box((RealImpulseResponse::calc(&rc, x), RealFrequencyResponse::calc(&sinc, x)));
                std::hint::black_box((ham.window(i, 20), WindowFunction::<T>::window(&bh, i, 20)));
            }
        }
        3 => {
            let mut x = v.clone();
            x.apply_window(&ham);
            let mut buf = SingleBuffer::<T>::new();
            let _ = x.convolve(&mut buf, &*t1, T::of(0.5), n.min(9));
            let y = x.windowed_fft(&mut buf, &bh);
            drop(y);
        }
        _ => {
            let mut x = v.clone();
            let mut buf = SingleBuffer::<T>::new();
            let _ = x.zero_pad_b(&mut buf, n + pad, PaddingOption::Surround);
            if s.cx {
                let mut d = Vec::<T>::new().to_gen_dsp_vec(false, DataDomain::Time);
                v.get_real(&mut d);
            }
            let _ = v.data(..).len() + w.points();
        }
    };
    let k = r.range(2, 4);
    std::thread::scope(|sc| {
        for i in 0..k {
            let go = &go;
            sc.spawn(move || {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| go(i * (way % 2))));
            });
        }
    });
    let _ = case;
    rep.judged += 1;
    rep.count("shared", 1);
    rep.count(&format!("shared:{}", way), k as u64);
    rep.saw(&format!("shared {} {} {} {}", T::NAME, way, kind(&s), n.min(50)));
}

pub fn c06(rep: &mut Report) {
    if !tiny() && rep.only.is_none() {
        // The first calibration takes place while others ask for its result
        std::thread::scope(|sc| {
            for _ in 0..4 {
                sc.spawn(|| std::hint::black_box(MultiCoreSettings::parallel()));
            }
        });
        rep.count("calibrated", 1);
    }
    while let Some(case) = rep.next_case() {
        let r = rep.rng(case);
        let f32s = r.chance(0.5);
        match (r.below(20), f32s) {
            (0..=10, true) => operation::<f32>(rep, case, &r),
            (0..=10, false) => operation::<f64>(rep, case, &r),
            (11..=12, true) => gives_up::<f32>(rep, case, &r),
            (11..=12, false) => gives_up::<f64>(rep, case, &r),
            (13..=16, true) => side_by_side::<f32>(rep, case, &r),
            (13..=16, false) => side_by_side::<f64>(rep, case, &r),
            (_, true) => shared::<f32>(rep, case, &r),
            (_, false) => shared::<f64>(rep, case, &r),
        }
    }
}
