//! Drives everything which can be reached from safe code, for sanitizers and interpreters which watch
//! the memory (C05). Results aren't judged here, except for what shows that memory was misused:
//! writes beside of a slice, values which are dropped twice and accesses which have to be refused.
use crate::gen::*;
use crate::histories::{c16_case, c17_case, next_op};
use crate::inst::*;
use crate::props::*;
use crate::report::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::numbers::*;
use basic_dsp_vector::window_functions::*;
use basic_dsp_vector::*;
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::SeqCst};

fn size(r: &Rng) -> Size {
    if tiny() {
        Size::Small
    } else {
        *r.pick(&[Size::Small, Size::Small, Size::Any, Size::Any, Size::Large])
    }
}

/// An operation on a vector of any kind
fn operation<T: Flt>(rep: &mut Report, case: u64, r: &Rng) {
    let mut sp = draw(r, *r.pick(ALL), size(r), 0.15);
    exact::<T>(&mut sp);
    if r.chance(0.05) {
        // values which a calculation of a position could stumble over
        let x = *r.pick(&[f64::NAN, f64::INFINITY, -f64::INFINITY, 1e300, -0.0, 1e-320]);
        for k in 0..sp.snap.d.len() {
            if r.chance(0.3) {
                sp.snap.d[k] = x;
            }
        }
    }
    if r.chance(0.02) && !sp.op.f.is_empty() && !sp.op.name.starts_with("interpol") {
        let k = r.below(sp.op.f.len());
        sp.op.f[k] = *r.pick(&[f64::NAN, f64::INFINITY, -1.0, 0.0]);
    }
    let mut h = how(r, &EVERY);
    restrict(&mut h, &sp.snap, &sp.op);
    if rep.verbose {
        println!("case {}: {}", case, describe::<T>(&sp.snap, &sp.op, &h));
    }
    STRAY_WRITE.with(|x| *x.borrow_mut() = false);
    let obs = run::<T>(&sp.snap, &sp.op, &h);
    if STRAY_WRITE.with(|x| *x.borrow()) {
        rep.violation(
            case,
            &format!("{}|{}|stray-write", sp.op.name, kind(&sp.snap)),
            &format!("memory outside of the slice was written: {}", describe::<T>(&sp.snap, &sp.op, &h)),
        );
    }
    match obs {
        Obs::NotAvailable => rep.skipped += 1,
        Obs::Panic(_) => {
            rep.judged += 1;
            rep.count("outcome:panic", 1);
        }
        Obs::Ran(o) => {
            rep.judged += 1;
            rep.count(if o.err.is_some() { "outcome:error" } else { "outcome:value" }, 1);
        }
    }
    rep.saw(&key::<T>(&sp.snap, &sp.op, &h));
    rep.count(&format!("op:{}", sp.op.name), 1);
    rep.count(&format!("simd:{}", h.simd), 1);
    rep.count(if h.cores > 1 { "threads:many" } else { "threads:one" }, 1);
    rep.count(&format!("storage:{}", storage_name(&h)), 1);
    rep.sample(|| describe::<T>(&sp.snap, &sp.op, &h));
}

/// Several operations on one vector with one buffer
fn history<T: Flt>(rep: &mut Report, case: u64, r: &Rng) {
    let mut h = how(r, &Dims { storage: false, ..EVERY });
    h.stat = false;
    h.apply_simd();
    let n = points(r, size(r));
    let s = rounded::<T>(&make(r, n, r.chance(0.5), r.chance(0.3), false));
    let mut v = gen_of::<T>(&s, &h);
    let mut buf = AnyBuf::<T>::new(h.buf, 16 * s.d.len() + if tiny() { 96 } else { 4096 });
    let mut names = vec![];
    for _ in 0..r.range(2, 6) {
        let now = snap(&v);
        if now.d.len() > 9000 {
            break;
        }
        let sp = match next_op(r, &now, 0.15) {
            Some(x) => x,
            None => break,
        };
        if rep.verbose {
            println!("case {}: {} on {}", case, sp.op.brief(), now.brief());
        }
        let kept = &mut v;
        let res = guarded(|| {
            let x = std::mem::replace(kept, Vec::<T>::new().to_gen_dsp_vec(false, DataDomain::Time));
            T::step(x, &sp.op, &h, &mut buf)
        });
        names.push(sp.op.name);
        match res {
            Ok(Step::Done(x, _, _)) | Ok(Step::NotAvailable(x)) => v = x,
            // The vector is gone
            Err(_) => break,
        }
        rep.judged += 1;
    }
    rep.saw(&format!("history {} {} {:?} {:?}", T::NAME, kind(&s), names, h.buf));
    rep.count("histories", 1);
}

static LIVE: AtomicIsize = AtomicIsize::new(0);
static TWICE: AtomicUsize = AtomicUsize::new(0);
/// A result which owns memory
struct Owner {
    id: Box<(usize, u32)>,
    text: String,
}
impl Owner {
    fn new(i: usize) -> Owner {
        LIVE.fetch_add(1, SeqCst);
        Owner { id: Box::new((i, 0xA11CE)), text: format!("{}", i) }
    }
}
impl Drop for Owner {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, SeqCst);
        if self.id.1 != 0xA11CE || self.text.parse() != Ok(self.id.0) {
            TWICE.fetch_add(1, SeqCst);
        }
        self.id.1 = 0;
    }
}

/// A window or response which gives up at some point
pub struct Fails {
    pub at: usize,
    pub calls: AtomicUsize,
    pub sym: bool,
}
impl Fails {
    fn call(&self) -> f64 {
        CALLS.fetch_add(1, SeqCst);
        if self.calls.fetch_add(1, SeqCst) == self.at {
            panic!("callback gives up");
        }
        0.5
    }
}
impl<T: Flt> WindowFunction<T> for Fails {
    fn is_symmetric(&self) -> bool {
        self.sym
    }
    fn window(&self, _: usize, _: usize) -> T {
        T::of(self.call())
    }
}
macro_rules! fails_response {
    ($tr: ident, $re: ty, $f: expr) => {
        impl<T: Flt> $tr<T> for Fails {
            fn is_symmetric(&self) -> bool {
                self.sym
            }
            fn calc(&self, _: T) -> $re {
                $f(T::of(self.call()))
            }
        }
    };
}
fails_response!(RealImpulseResponse, T, |x| x);
fails_response!(RealFrequencyResponse, T, |x| x);
fails_response!(ComplexImpulseResponse, Complex<T>, |x| Complex::new(x, x));
fails_response!(ComplexFrequencyResponse, Complex<T>, |x| Complex::new(x, x));

/// Callbacks which panic or return values which own memory. Nothing is dropped twice, and the vector
/// remains usable.
fn callbacks<T: Flt>(rep: &mut Report, case: u64, r: &Rng) {
    let h = how(r, &Dims { storage: false, bufs: false, ..EVERY });
    h.apply_simd();
    let n = points(r, size(r));
    let cx = r.chance(0.5);
    let s = rounded::<T>(&make(r, n, cx, r.chance(0.5), false));
    let mut v = gen_of::<T>(&s, &h);
    let calls = AtomicUsize::new(0);
    let at = if r.chance(0.3) { usize::MAX } else { r.below(2 * n + 2) };
    let tick = || {
        if calls.fetch_add(1, SeqCst) == at {
            panic!("callback gives up");
        }
    };
    let which = r.below(8);
    LIVE.store(0, SeqCst);
    TWICE.store(0, SeqCst);
    let names = [
        "map_inplace", "map_aggregate", "window", "convolve", "multiply_frequency_response", "interpolatef",
        "interpolatei", "convolve_c",
    ];
    let what = format!("{} of {} {} gives up at {} with {:?}", names[which], T::NAME, s.brief(), at, h);
    if rep.verbose {
        println!("case {}: {}", case, what);
    }
    let mut buf = SingleBuffer::<T>::new();
    let f = Fails { at, calls: AtomicUsize::new(0), sym: r.chance(0.5) };
    let kept = &mut v;
    let right = if s.cx { s.d.len() / 2 } else { s.d.len() };
    let mut sum = None;
    let ran = guarded(|| match which {
        0 if s.cx => kept.map_inplace(3usize, &|x: Complex<T>, i, a| {
            tick();
            x + Complex::new(T::of((i + a) as f64), T::of(0.0))
        }),
        0 => kept.map_inplace(3usize, &|x: T, i, a| {
            tick();
            x + T::of((i + a) as f64)
        }),
        1 => {
            let add = |a: (usize, Owner), b: (usize, Owner)| {
                tick();
                (a.0 + b.0 + a.1.text.len().min(0), b.1)
            };
            let res = if s.cx {
                kept.map_aggregate((), &|_: Complex<T>, i, _| {
                    tick();
                    (1usize, Owner::new(i))
                }, &add)
            } else {
                kept.map_aggregate((), &|_: T, i, _| {
                    tick();
                    (1usize, Owner::new(i))
                }, &add)
            };
            if let Ok(x) = res {
                sum = Some(x.0);
            }
        }
        2 => kept.apply_window(&f),
        3 => kept.convolve(&mut buf, &f as &dyn RealImpulseResponse<T>, T::of(0.5), n.clamp(1, 9)),
        4 => kept.multiply_frequency_response(&f as &dyn RealFrequencyResponse<T>, T::of(1.0)),
        5 => kept.interpolatef(&mut buf, &f, T::of(2.0), T::of(0.0), 5),
        6 => drop(kept.interpolatei(&mut buf, &f, 2)),
        _ => kept.convolve(&mut buf, &f as &dyn ComplexImpulseResponse<T>, T::of(0.5), n.clamp(1, 9)),
    });
    rep.judged += 1;
    rep.count(if ran.is_ok() { "callbacks:returned" } else { "callbacks:panicked" }, 1);
    rep.saw(&format!("callback {} {} {} {} {}", T::NAME, which, kind(&s), n.min(40), at.min(60)));
    if TWICE.load(SeqCst) > 0 || LIVE.load(SeqCst) < 0 {
        rep.violation(case, "callback|dropped-twice", &format!("a result was dropped twice: {}", what));
    }
    if ran.is_ok() && LIVE.load(SeqCst) != 0 {
        rep.violation(case, "callback|lost", &format!("{} results were never dropped: {}", LIVE.load(SeqCst), what));
    }
    if let (Some(x), true) = (sum, ran.is_ok()) {
        if x != right {
            rep.violation(case, "callback|count", &format!("{} results instead of {}: {}", x, right, what));
        }
    }
    rep.count("owned-results", sum.unwrap_or(0) as u64);
    // and go on with it
    let _ = guarded(|| {
        v.scale(T::of(2.0));
        let _ = v.plain_fft_len();
        v.zero_pad_b(&mut buf, v.points() + 3, PaddingOption::Surround).ok();
        v.reverse();
        snap(&v).d.len()
    });
}
trait PlainLen {
    fn plain_fft_len(&self) -> usize;
}
impl<T: Flt> PlainLen for GenVec<T> {
    fn plain_fft_len(&self) -> usize {
        let mut buf = SingleBuffer::<T>::new();
        let c = self.clone();
        if c.is_complex() && c.domain() == DataDomain::Time {
            c.plain_fft(&mut buf).len()
        } else {
            0
        }
    }
}

/// A buffer which gives up at some point
#[cfg(feature = "full")]
struct Quits<T: Flt> {
    buf: SingleBuffer<T>,
    left: usize,
}
#[cfg(feature = "full")]
impl<'a, T: Flt> Buffer<'a, Vec<T>, T> for Quits<T> {
    type Borrow = <SingleBuffer<T> as Buffer<'a, Vec<T>, T>>::Borrow;
    fn borrow(&'a mut self, len: usize) -> Self::Borrow {
        if self.left == 0 {
            panic!("callback gives up");
        }
        self.left -= 1;
        <SingleBuffer<T> as Buffer<'a, Vec<T>, T>>::borrow(&mut self.buf, len)
    }
    fn alloc_len(&self) -> usize {
        <SingleBuffer<T> as Buffer<'a, Vec<T>, T>>::alloc_len(&self.buf)
    }
}

/// The rows of a matrix change their type, and one of them panics meanwhile. No row may be released twice.
#[cfg(feature = "full")]
fn rows<T: Flt>(rep: &mut Report, case: u64, r: &Rng) {
    use basic_dsp_matrix::*;
    let n = if tiny() { r.range(1, 5) } else { r.range(1, 40) };
    let per_row = r.range(1, 4);
    let count = *r.pick(&[2usize, 3, 4, 0]);
    let used = if count == 0 { r.range(1, 6) } else { count };
    // The failure comes anywhere in any of the rows, or never
    let at = if r.chance(0.25) { usize::MAX } else { r.below(used * n + 1) };
    let quits = if r.chance(0.5) { usize::MAX } else { r.below(used * per_row + 1) };
    let which = r.below(13);
    let fixed_err = r.chance(0.1);
    let f = Fails { at, calls: AtomicUsize::new(0), sym: r.chance(0.3) };
    let mut buf = Quits { buf: SingleBuffer::<T>::new(), left: quits };
    let names = ["windowed_fft", "windowed_sfft", "windowed_ifft", "windowed_sifft", "plain_fft", "sfft", "ifft", "sifft",
        "magnitude_b", "to_complex_b", "phase_b", "prepare_argument", "prepare_argument_padded"];
    let what = format!("{} of {} rows ({}) of {} points of {}, window quits at {}, buffer at {}",
        names[which], used, if count == 0 { "any number" } else { "fixed" }, n, T::NAME, at, quits);
    if rep.verbose {
        println!("case {}: {}", case, what);
    }
    // odd number of points for sfft and sifft, if not on purpose
    let n = if matches!(which, 1 | 5) && !fixed_err { n | 1 } else { n };
    let row = |k: usize, len: usize| (0..len).map(|i| T::of((i * 3 + k) as f64)).collect::<Vec<T>>();
    let mut total = 0usize;
    macro_rules! go {
        ($vecs: expr) => {{
            let real = $vecs.0;
            let complex = $vecs.1;
            macro_rules! add {
                ($m: expr) => {
                    for x in $m.rows().iter() {
                        total += x.data(..).iter().map(|x| if x.g() == 12345.0 { 0 } else { 1 }).sum::<usize>();
                    }
                };
            }
            match which {
                0 => add!(complex.to_complex_time_mat().windowed_fft(&mut buf, &f)),
                1 => match real.to_real_time_mat().windowed_sfft(&mut buf, &f) {
                    Ok(m) => add!(m),
                    Err((_, m)) => add!(m),
                },
                2 => add!(complex.to_complex_time_mat().fft(&mut SingleBuffer::<T>::new()).windowed_ifft(&mut buf, &f)),
                3 => match complex.to_complex_time_mat().fft(&mut SingleBuffer::<T>::new()).windowed_sifft(&mut buf, &f) {
                    Ok(m) => add!(m),
                    Err((_, m)) => add!(m),
                },
                4 => add!(complex.to_complex_time_mat().plain_fft(&mut buf)),
                5 => match real.to_real_time_mat().sfft(&mut buf) {
                    Ok(m) => add!(m),
                    Err((_, m)) => add!(m),
                },
                6 => add!(complex.to_complex_time_mat().fft(&mut SingleBuffer::<T>::new()).ifft(&mut buf)),
                7 => match complex.to_complex_time_mat().fft(&mut SingleBuffer::<T>::new()).sifft(&mut buf) {
                    Ok(m) => add!(m),
                    Err((_, m)) => add!(m),
                },
                8 => add!(complex.to_complex_time_mat().magnitude_b(&mut buf)),
                9 => add!(real.to_real_time_mat().to_complex_b(&mut buf)),
                10 => add!(complex.to_complex_time_mat().phase_b(&mut buf)),
                11 => add!(complex.to_complex_time_mat().prepare_argument(&mut buf)),
                _ => add!(complex.to_complex_time_mat().prepare_argument_padded(&mut buf)),
            }
        }};
    }
    let ran = guarded(|| match count {
        2 => go!(([row(0, n), row(1, n)], [row(0, 2 * n), row(1, 2 * n)])),
        3 => go!(([row(0, n), row(1, n), row(2, n)], [row(0, 2 * n), row(1, 2 * n), row(2, 2 * n)])),
        4 => go!((
            [row(0, n), row(1, n), row(2, n), row(3, n)],
            [row(0, 2 * n), row(1, 2 * n), row(2, 2 * n), row(3, 2 * n)]
        )),
        _ => go!((
            (0..used).map(|k| row(k, n)).collect::<Vec<_>>(),
            (0..used).map(|k| row(k, 2 * n)).collect::<Vec<_>>()
        )),
    });
    rep.judged += 1;
    rep.count(if ran.is_ok() { "rows:returned" } else { "rows:panicked" }, 1);
    rep.count("rows:elements", total as u64);
    rep.saw(&format!("rows {}", what));
}

/// Positions beyond the storage must be refused
fn positions<T: Flt>(rep: &mut Report, case: u64, r: &Rng) {
    let h = how(r, &Dims { storage: false, threads: false, bufs: false, simd: false, ..EVERY });
    let n = r.below(20);
    let cx = r.chance(0.5);
    let s = rounded::<T>(&make(r, n, cx, false, false));
    let mut v = gen_of::<T>(&s, &h);
    let all = v.alloc_len();
    let far = [all, all + 1, all + 2 * n, usize::MAX, usize::MAX / 2 + 1, isize::MAX as usize, all / 2 + all % 2 + 1, 2 * all];
    let i = *r.pick(&far);
    let near = r.below(s.d.len() + 1);
    let write = r.chance(0.5);
    let x = T::of(4.25);
    let which = r.below(9);
    let complex_limit = all / 2;
    let refuses = match which {
        0..=3 => i >= all.max(1) && i > all,
        4 => i >= all,
        _ => i > complex_limit && cx,
    };
    let z = Complex::new(x, x);
    let mut seen = 0usize;
    let kept = &mut v;
    let res = guarded(|| match (which, write) {
        (0, false) => seen = kept.data(near..i).len(),
        (0, true) => kept.data_mut(near..i).iter_mut().for_each(|e| *e = x),
        (1, false) => seen = kept.data(..i).len(),
        (1, true) => kept.data_mut(..i).iter_mut().for_each(|e| *e = x),
        (2, false) => seen = kept.data(i..).len(),
        (2, true) => kept.data_mut(i..).iter_mut().for_each(|e| *e = x),
        (3, false) => seen = kept.data(i..near).len(),
        (3, true) => kept.data_mut(i..near).iter_mut().for_each(|e| *e = x),
        (4, false) => seen = (*kept.data(i)).g() as usize & 1,
        (4, true) => *kept.data_mut(i) = x,
        (5, false) => seen = kept.datac(..i).len(),
        (5, true) => kept.datac_mut(..i).iter_mut().for_each(|e| *e = z),
        (6, false) => seen = kept.datac(i..).len(),
        (6, true) => kept.datac_mut(i..).iter_mut().for_each(|e| *e = z),
        (7, false) => seen = kept.datac(i).re.g() as usize & 1,
        (7, true) => *kept.datac_mut(i) = z,
        (_, false) => seen = kept.datac(near..i).len(),
        (_, true) => kept.datac_mut(near..i).iter_mut().for_each(|e| *e = z),
    });
    let what = format!("way {} write {} position {} of {} ({} used), complex {}", which, write, i, all, s.d.len(), cx);
    if rep.verbose {
        println!("case {}: {}", case, what);
    }
    rep.judged += 1;
    rep.saw(&format!("position {}", what));
    rep.count(if res.is_err() { "positions:refused" } else { "positions:accepted" }, 1);
    if res.is_ok() && refuses {
        rep.violation(case, "position|accepted", &format!("a position beyond the storage is accepted ({}): {}", seen, what));
    }
    let _ = snap(&v);
}

pub fn c05(rep: &mut Report) {
    #[cfg(feature = "full")]
    let singles = mg::types();
    #[cfg(feature = "full")]
    let doubles = {
        let mut d = mr::types();
        d.extend(mc::types());
        d
    };
    while let Some(case) = rep.next_case() {
        let r = rep.rng(case);
        let f32s = r.chance(0.5);
        let mut what = r.below(42);
        if tiny() && (32..=37).contains(&what) {
            // the model would take most of the time
            what = r.below(32);
        }
        let mut other = rep.scratch();
        let start = std::time::Instant::now();
        match (what, f32s) {
            (0..=17, true) => operation::<f32>(rep, case, &r),
            (0..=17, false) => operation::<f64>(rep, case, &r),
            (18..=24, true) => history::<f32>(rep, case, &r),
            (18..=24, false) => history::<f64>(rep, case, &r),
            (25..=27, true) => callbacks::<f32>(rep, case, &r),
            (25..=27, false) => callbacks::<f64>(rep, case, &r),
            (28, true) => positions::<f32>(rep, case, &r),
            (28, false) => positions::<f64>(rep, case, &r),
            (29..=31, _) => {
                let c = conv::case(&r);
                other.count(&format!("way:{}", c.what), 1);
                other.saw(&format!("{} {}", c.what, c.key));
                other.judged += 1;
            }
            (32, _) => crate::resp::c23_case(&mut other, case, &r),
            (33, _) => c17_case(&mut other, case, &r),
            (34, _) => c16_case(&mut other, case, &r),
            (35, _) => crate::pairs::c02_case(&mut other, case, &r),
            (36, _) => crate::pairs::c03_case(&mut other, case, &r),
            (37, _) => crate::pairs::c04_case(&mut other, case, &r),
            #[cfg(feature = "full")]
            (40..=41, true) => rows::<f32>(rep, case, &r),
            #[cfg(feature = "full")]
            (40..=41, false) => rows::<f64>(rep, case, &r),
            #[cfg(feature = "full")]
            _ => crate::mat::c20_case(&mut other, case, &r, &singles, &doubles),
            #[cfg(not(feature = "full"))]
            _ => crate::pairs::c04_case(&mut other, case, &r),
        }
        let kind = ["operation", "histories", "callbacks", "positions", "conv", "resp", "types", "histories-judged", "threads",
            "simd", "storage", "matrix", "rows"][match what {
            0..=17 => 0,
            18..=24 => 1,
            25..=27 => 2,
            28 => 3,
            29..=31 => 4,
            40..=41 => 12,
            x => (x - 27).min(11),
        }];
        rep.count(&format!("ms:{}", kind), start.elapsed().as_millis() as u64);
        rep.count(&format!("kind:{}", kind), 1);
        if what >= 29 {
            rep.judged += other.judged;
            rep.skipped += other.skipped;
            rep.distinct.extend(other.distinct.iter());
        }
    }
}
