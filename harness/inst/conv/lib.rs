//! Creating vectors from containers and getting the data out again (C18). Every way into a vector is
//! followed by every way to look at it and by one way out of it.
use arrayvec::ArrayVec;
use base::*;
use basic_dsp_vector::numbers::*;
use basic_dsp_vector::*;
use std::collections::BTreeMap;

/// What was seen during a case
pub struct Ctx {
    pub errs: Vec<(String, String)>,
    pub counts: BTreeMap<String, u64>,
    pub key: String,
    pub what: String,
}
impl Ctx {
    fn err(&mut self, class: &str, msg: String) {
        self.errs.push((format!("{}|{}", self.what, class), msg));
    }
    fn expect(&mut self, class: &str, ok: bool, msg: impl FnOnce() -> String) {
        *self.counts.entry(format!("check:{}", class)).or_insert(0) += 1;
        if !ok {
            self.err(class, msg());
        }
    }
    /// must not panic
    fn calm<R>(&mut self, class: &str, f: impl FnOnce() -> R) -> Option<R> {
        match guarded(f) {
            Ok(r) => Some(r),
            Err(m) => {
                self.err(class, format!("panic: {}", m));
                None
            }
        }
    }
    /// must panic
    fn rejects<R>(&mut self, class: &str, f: impl FnOnce() -> R) {
        *self.counts.entry(format!("rejected:{}", class)).or_insert(0) += 1;
        if guarded(f).is_ok() {
            self.err(class, "access outside of the vector was not rejected".into());
        }
    }
}

fn same<T: Flt>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.g().to_bits() == y.g().to_bits())
}
fn same_c<T: Flt>(a: &[Complex<T>], b: &[T]) -> bool {
    2 * a.len() == b.len()
        && a.iter().enumerate().all(|(i, x)| {
            x.re.g().to_bits() == b[2 * i].g().to_bits() && x.im.g().to_bits() == b[2 * i + 1].g().to_bits()
        })
}
fn show<T: Flt>(x: &[T]) -> String {
    let v: Vec<f64> = x.iter().take(12).map(|x| x.g()).collect();
    format!("{} {:?}", x.len(), v)
}

/// What the vector has to be
pub struct Want<'a, T> {
    pub d: &'a [T],
    pub cx: bool,
    pub fq: bool,
    pub delta: T,
    pub settings: String,
}

/// All read only views
fn look<S, T, N, D>(c: &mut Ctx, r: &Rng, v: &DspVec<S, T, N, D>, w: &Want<T>)
where
    S: ToSlice<T>,
    T: Flt,
    N: NumberSpace,
    D: Domain,
{
    let n = w.d.len();
    c.expect("len", v.len() == n, || format!("len {} expected {}", v.len(), n));
    let p = if w.cx { n / 2 } else { n };
    c.expect("points", v.points() == p, || format!("points {} expected {}", v.points(), p));
    c.expect("is_empty", v.is_empty() == (n == 0), || format!("is_empty with len {}", n));
    c.expect("is_complex", v.is_complex() == w.cx, || format!("is_complex expected {}", w.cx));
    c.expect("domain", (v.domain() == DataDomain::Frequency) == w.fq, || format!("domain {:?}", v.domain()));
    c.expect("delta", v.delta().g() == w.delta.g(), || format!("delta {:?} expected {:?}", v.delta(), w.delta));
    c.expect("alloc_len", v.alloc_len() >= v.len(), || format!("alloc_len {} len {}", v.alloc_len(), v.len()));
    let s = format!("{:?}", v.get_multicore_settings());
    c.expect("settings", s == w.settings, || format!("settings {} expected {}", s, w.settings));
    let m = v.get_meta_data();
    c.expect("meta", m.is_complex() == w.cx && (m.domain() == DataDomain::Frequency) == w.fq, || "meta data".into());
    if v.len() != n {
        return;
    }
    let all = c.calm("data", || same(v.data(..), w.d));
    c.expect("data", all != Some(false), || format!("data {} expected {}", show(v.data(..)), show(w.d)));
    let a = r.below(n + 1);
    let b = a + r.below(n - a + 1);
    let x = c.calm("data-range", || {
        same(v.data(a..b), &w.d[a..b]) && same(v.data(a..), &w.d[a..]) && same(v.data(..b), &w.d[..b])
    });
    c.expect("data-range", x != Some(false), || format!("{}..{} of {}", a, b, show(w.d)));
    if n > 0 {
        let i = r.below(n);
        let x = c.calm("data-index", || v.data(i).g().to_bits() == w.d[i].g().to_bits());
        c.expect("data-index", x != Some(false), || format!("element {} of {}", i, show(w.d)));
    }
    let over = n + r.below(3) * r.below(20);
    c.rejects("data-index-outside", || *v.data(over));
    c.rejects("data-range-outside", || v.data(0..n + 1).len());
    c.rejects("data-to-outside", || v.data(..n + 1).len());
    c.rejects("data-from-outside", || v.data(n + 1..).len());
}
fn look_c<S, T, N, D>(c: &mut Ctx, r: &Rng, v: &DspVec<S, T, N, D>, w: &Want<T>)
where
    S: ToSlice<T>,
    T: Flt,
    N: ComplexNumberSpace,
    D: Domain,
{
    if v.len() != w.d.len() {
        return;
    }
    let n = w.d.len() / 2;
    let a = r.below(n + 1);
    let b = a + r.below(n - a + 1);
    let x = c.calm("datac", || same_c(v.datac(..), w.d));
    c.expect("datac", x != Some(false), || format!("complex view of {}", show(w.d)));
    let x = c.calm("datac-range", || {
        same_c(v.datac(a..b), &w.d[2 * a..2 * b])
            && same_c(v.datac(a..), &w.d[2 * a..])
            && same_c(v.datac(..b), &w.d[..2 * b])
    });
    c.expect("datac-range", x != Some(false), || format!("{}..{} of {}", a, b, show(w.d)));
    if n > 0 {
        let i = r.below(n);
        let x = c.calm("datac-index", || same_c(&[*v.datac(i)], &w.d[2 * i..2 * i + 2]));
        c.expect("datac-index", x != Some(false), || format!("point {} of {}", i, show(w.d)));
    }
    c.rejects("datac-index-outside", || *v.datac(n));
    c.rejects("datac-range-outside", || v.datac(0..n + 1).len());
    c.rejects("datac-to-outside", || v.datac(..n + 1).len());
    c.rejects("datac-from-outside", || v.datac(n + 1..).len());
}
fn look_real_index<S, T, D>(c: &mut Ctx, r: &Rng, v: &DspVec<S, T, meta::Real, D>, w: &Want<T>)
where
    S: ToSlice<T>,
    T: Flt,
    D: Domain,
{
    let n = w.d.len();
    if v.len() != n {
        return;
    }
    let a = r.below(n + 1);
    let b = a + r.below(n - a + 1);
    let x = c.calm("index-range", || {
        same(&v[..], w.d) && same(&v[a..b], &w.d[a..b]) && same(&v[a..], &w.d[a..]) && same(&v[..b], &w.d[..b])
    });
    c.expect("index-range", x != Some(false), || format!("{}..{} of {}", a, b, show(w.d)));
    if n > 0 {
        let i = r.below(n);
        let x = c.calm("index", || v[i].g().to_bits() == w.d[i].g().to_bits());
        c.expect("index", x != Some(false), || format!("element {} of {}", i, show(w.d)));
    }
    c.rejects("index-outside", || v[n]);
    c.rejects("index-range-outside", || v[a..n + 1].len());
}
fn look_complex_index<S, T, D>(c: &mut Ctx, r: &Rng, v: &DspVec<S, T, meta::Complex, D>, w: &Want<T>)
where
    S: ToSlice<T>,
    T: Flt,
    D: Domain,
{
    let n = w.d.len() / 2;
    if v.len() != w.d.len() {
        return;
    }
    let a = r.below(n + 1);
    let b = a + r.below(n - a + 1);
    let x = c.calm("index-range", || {
        same_c(&v[..], w.d)
            && same_c(&v[a..b], &w.d[2 * a..2 * b])
            && same_c(&v[a..], &w.d[2 * a..])
            && same_c(&v[..b], &w.d[..2 * b])
    });
    c.expect("index-range", x != Some(false), || format!("{}..{} of {}", a, b, show(w.d)));
    if n > 0 {
        let i = r.below(n);
        let x = c.calm("index", || same_c(&[v[i]], &w.d[2 * i..2 * i + 2]));
        c.expect("index", x != Some(false), || format!("point {} of {}", i, show(w.d)));
    }
    c.rejects("index-outside", || v[n]);
    c.rejects("index-range-outside", || v[a..n + 1].len());
}
/// The underlying storage has to start with the valid data
fn way_out<S, T, N, D>(c: &mut Ctx, v: DspVec<S, T, N, D>, w: &Want<T>)
where
    S: ToSlice<T>,
    T: Flt,
    N: NumberSpace,
    D: Domain,
{
    if let Some((s, n)) = c.calm("getf", move || v.getf()) {
        c.expect("getf", n == w.d.len() && s.len() >= n && same(&s.to_slice()[..n], w.d), || {
            format!("{} of {} expected {}", n, show(s.to_slice()), show(w.d))
        });
    }
}
fn real<S, T, D>(c: &mut Ctx, r: &Rng, v: DspVec<S, T, meta::Real, D>, w: &Want<T>) -> DspVec<S, T, meta::Real, D>
where
    S: ToSlice<T>,
    T: Flt,
    D: Domain,
{
    look(c, r, &v, w);
    look_real_index(c, r, &v, w);
    v
}
fn complex<S, T, D>(
    c: &mut Ctx,
    r: &Rng,
    v: DspVec<S, T, meta::Complex, D>,
    w: &Want<T>,
) -> DspVec<S, T, meta::Complex, D>
where
    S: ToSlice<T>,
    T: Flt,
    D: Domain,
{
    look(c, r, &v, w);
    look_c(c, r, &v, w);
    look_complex_index(c, r, &v, w);
    v
}
fn generic<S, T>(c: &mut Ctx, r: &Rng, v: GenDspVec<S, T>, w: &Want<T>) -> GenDspVec<S, T>
where
    S: ToSlice<T>,
    T: Flt,
{
    look(c, r, &v, w);
    if w.cx {
        look_c(c, r, &v, w);
    }
    v
}
/// Real vectors have one more way out
fn real_out<S, T, D>(c: &mut Ctx, r: &Rng, v: DspVec<S, T, meta::Real, D>, w: &Want<T>)
where
    S: ToSlice<T>,
    T: Flt,
    D: Domain,
{
    if r.chance(0.5) {
        way_out(c, v, w)
    } else if let Some((s, n)) = c.calm("get", move || v.get()) {
        c.expect("get", n == w.d.len() && s.len() >= n && same(&s.to_slice()[..n], w.d), || {
            format!("{} of {} expected {}", n, show(s.to_slice()), show(w.d))
        });
    }
}
/// Writing through views, changing the length and cloning
fn change<S, T, N, D>(c: &mut Ctx, r: &Rng, v: &mut DspVec<S, T, N, D>, w: &Want<T>, fixed: bool, cap: usize)
where
    S: ToSliceMut<T>,
    T: Flt,
    N: NumberSpace,
    D: Domain,
{
    let mut d = w.d.to_vec();
    let n = d.len();
    if v.len() != n {
        return;
    }
    if n > 0 {
        let i = r.below(n);
        let x = T::of(r.below(99) as f64 - 0.5);
        d[i] = x;
        c.calm("data_mut", || *v.data_mut(i) = x);
        let a = r.below(n);
        let b = a + 1 + r.below(n - a);
        let y: Vec<T> = (0..b - a).map(|i| T::of(1000.0 + i as f64)).collect();
        d[a..b].copy_from_slice(&y);
        match r.below(3) {
            0 => c.calm("data_mut", || v.data_mut(a..b).copy_from_slice(&y)),
            1 => c.calm("data_mut", || v.data_mut(..b)[a..].copy_from_slice(&y)),
            _ => c.calm("data_mut", || v.data_mut(a..)[..b - a].copy_from_slice(&y)),
        };
    }
    c.rejects("data_mut-outside", || *v.data_mut(n) = T::of(1.0));
    c.rejects("data_mut-range-outside", || v.data_mut(0..n + 1).len());
    let w2 = Want { d: &d, cx: w.cx, fq: w.fq, delta: w.delta, settings: w.settings.clone() };
    let ok = same(v.data(..), &d);
    c.expect("data_mut", ok, || format!("{} expected {}", show(v.data(..)), show(&d)));
    // The length
    let len = r.below(2 * n + 5);
    let alloc = v.alloc_len();
    let res = match c.calm("resize", || v.resize(len)) {
        Some(x) => x,
        None => return,
    };
    if w.cx && len % 2 != 0 {
        c.expect("resize-odd", matches!(res, Err(ErrorReason::InputMustHaveAnEvenLength)), || {
            format!("resize to {}: {:?}", len, res)
        });
    } else if fixed && len > alloc.max(cap) {
        c.expect("resize-fixed", res.is_err(), || format!("resize to {} with {}: {:?}", len, alloc, res));
    } else {
        c.expect("resize-ok", res.is_ok(), || format!("resize to {} with {}: {:?}", len, alloc, res));
    }
    if res.is_ok() {
        let keep = len.min(n);
        let x = c.calm("resize", || v.len() == len && v.data(..).len() == len && same(v.data(..keep), &d[..keep]));
        c.expect("resize", x != Some(false), || format!("from {} to {}: {}", n, len, show(v.data(..))));
    } else {
        look(c, r, v, &w2);
    }
}
fn change_c<S, T, D>(c: &mut Ctx, r: &Rng, v: &mut DspVec<S, T, meta::Complex, D>, w: &Want<T>)
where
    S: ToSliceMut<T>,
    T: Flt,
    D: Domain,
{
    let n = w.d.len() / 2;
    if v.len() != w.d.len() {
        return;
    }
    if n > 0 {
        let i = r.below(n);
        let x = *v.datac(i);
        let y = Complex::new(x.im, x.re);
        let p: Vec<T> = w.d.to_vec();
        c.calm("datac_mut", || *v.datac_mut(i) = y);
        let ok = v.data(2 * i).g().to_bits() == p[2 * i + 1].g().to_bits()
            && v.data(2 * i + 1).g().to_bits() == p[2 * i].g().to_bits();
        c.expect("datac_mut", ok, || format!("point {} of {}", i, show(v.data(..))));
        c.calm("datac_mut", || match i % 4 {
            0 => v.datac_mut(..)[i] = x,
            1 => v.datac_mut(i..)[0] = x,
            2 => v.datac_mut(..i + 1)[i] = x,
            _ => v[i] = x,
        });
        let ok = same(v.data(..), &p);
        c.expect("datac_mut", ok, || format!("point {} of {}", i, show(v.data(..))));
    }
    c.rejects("datac_mut-outside", || *v.datac_mut(n) = Complex::new(T::of(1.0), T::of(1.0)));
}
fn cloned<S, T, N, D>(c: &mut Ctx, r: &Rng, v: &DspVec<S, T, N, D>, w: &Want<T>)
where
    S: ToSlice<T> + Clone,
    T: Flt,
    N: NumberSpace + Clone,
    D: Domain + Clone,
{
    look(c, r, &v.clone(), w);
}

/// Values which can all be told apart
fn values<T: Flt>(r: &Rng, n: usize) -> Vec<T> {
    let special = r.chance(0.3);
    (0..n)
        .map(|i| match i % 23 {
            5 if special => T::of(f64::INFINITY),
            7 if special => T::of(-0.0),
            11 if special => T::of(f64::NAN),
            _ => T::of((i as f64 + 1.0) * if i % 2 == 0 { 0.5 } else { -0.25 }),
        })
        .collect()
}
fn size(r: &Rng) -> usize {
    match r.below(8) {
        0 => r.below(4),
        1..=5 => r.below(40),
        6 => r.below(200),
        _ => r.below(1500),
    }
}

/// All constructors of a container. `$mk` gives a fresh one every time.
macro_rules! container {
    ($c: ident, $r: ident, $T: ty, $mk: expr, $d: expr, $mutable: tt, $fixed: expr, $cap: expr, [$($cloneable: tt)?], [$($getc: tt)?]) => {{
        let d: &[$T] = $d;
        let even: &[$T] = if d.len() % 2 == 0 { d } else { &[] };
        let one = <$T as Flt>::of(1.0);
        let single = format!("{:?}", MultiCoreSettings::default());
        #[cfg(feature = "std")]
        let multi = format!("{:?}", MultiCoreSettings::parallel());
        #[cfg(not(feature = "std"))]
        let multi = single.clone();
        let par = $r.chance(0.25);
        let fq = $r.chance(0.5);
        let w = |cx: bool, fq: bool, par: bool| Want {
            d: if cx { even } else { d },
            cx,
            fq,
            delta: one,
            settings: if par { multi.clone() } else { single.clone() },
        };
        let what = $r.below(6);
        $c.key += &format!(" {} {} {}", what, fq, par);
        match what {
            0 | 1 => {
                macro_rules! go { ($m: ident, $name: expr, $fq: expr, $par: expr) => {{
                    $c.what = format!("{}.{}", $c.what, $name);
                    let w = w(false, $fq, $par);
                    if let Some(v) = $c.calm("create", || $mk.$m()) {
                        #[allow(unused_mut)]
                        let mut v = real($c, $r, v, &w);
                        $( cloned!($cloneable, $c, $r, v, w); )?
                        if $r.chance(0.5) { changed!($mutable, real, $c, $r, v, w, $fixed, $cap); }
                        else { real_out($c, $r, v, &w); }
                    }
                }}}
                match (fq, par) {
                    (false, false) => go!(to_real_time_vec, "to_real_time_vec", false, false),
                    (true, false) => go!(to_real_freq_vec, "to_real_freq_vec", true, false),
                    #[cfg(feature = "std")]
                    (false, true) => go!(to_real_time_vec_par, "to_real_time_vec_par", false, true),
                    #[cfg(feature = "std")]
                    (true, true) => go!(to_real_freq_vec_par, "to_real_freq_vec_par", true, true),
                    #[cfg(not(feature = "std"))]
                    _ => (),
                }
            }
            2 => {
                macro_rules! go { ($m: ident, $name: expr, $fq: expr, $par: expr) => {{
                    $c.what = format!("{}.{}", $c.what, $name);
                    let w = w(true, $fq, $par);
                    if let Some(v) = $c.calm("create", || $mk.$m()) {
                        #[allow(unused_mut)]
                        let mut v = complex($c, $r, v, &w);
                        $( cloned!($cloneable, $c, $r, v, w); )?
                        if $r.chance(0.5) { changed!($mutable, complex, $c, $r, v, w, $fixed, $cap); }
                        else { out_complex!([$($getc)?], $c, $r, v, w); }
                    }
                }}}
                match (fq, par) {
                    (false, false) => go!(to_complex_time_vec, "to_complex_time_vec", false, false),
                    (true, false) => go!(to_complex_freq_vec, "to_complex_freq_vec", true, false),
                    #[cfg(feature = "std")]
                    (false, true) => go!(to_complex_time_vec_par, "to_complex_time_vec_par", false, true),
                    #[cfg(feature = "std")]
                    (true, true) => go!(to_complex_freq_vec_par, "to_complex_freq_vec_par", true, true),
                    #[cfg(not(feature = "std"))]
                    _ => (),
                }
            }
            3 => {
                let cx = $r.chance(0.6);
                let dom = if fq { DataDomain::Frequency } else { DataDomain::Time };
                $c.what = format!("{}.to_gen_dsp_vec{}", $c.what, if cx { "-complex" } else { "-real" });
                #[cfg(feature = "std")]
                let v = $c.calm("create", || if par { $mk.to_gen_dsp_vec_par(cx, dom) } else { $mk.to_gen_dsp_vec(cx, dom) });
                #[cfg(not(feature = "std"))]
                let v = $c.calm("create", || $mk.to_gen_dsp_vec(cx, dom));
                let w = w(cx, fq, par && cfg!(feature = "std"));
                if let Some(v) = v {
                    #[allow(unused_mut)]
                    let mut v = generic($c, $r, v, &w);
                    $( cloned!($cloneable, $c, $r, v, w); )?
                    if $r.chance(0.5) { changed!($mutable, gen, $c, $r, v, w, $fixed, $cap); }
                    else { way_out($c, v, &w); }
                }
            }
            4 => {
                // From another vector's meta data
                let delta = <$T as Flt>::of($r.below(100) as f64 / 8.0);
                let cx = $r.chance(0.5);
                let settings = MultiCoreSettings::with_thresholds(1 + $r.below(8), 10, 20, 30, 40);
                macro_rules! go { ($src: expr, $name: expr, $cx: expr, $fq: expr, $look: ident) => {{
                    $c.what = format!("{}.to_dsp_vec-{}", $c.what, $name);
                    let mut src = $src;
                    src.set_delta(delta);
                    src.set_multicore_settings(settings);
                    let m = src.get_meta_data();
                    let w = Want { d: if $cx { even } else { d }, cx: $cx, fq: $fq, delta,
                        settings: if par && cfg!(feature = "std") { multi.clone() } else { format!("{:?}", settings) } };
                    #[cfg(feature = "std")]
                    let v = $c.calm("create", || if par { $mk.to_dsp_vec_par(&m) } else { $mk.to_dsp_vec(&m) });
                    #[cfg(not(feature = "std"))]
                    let v = $c.calm("create", || $mk.to_dsp_vec(&m));
                    if let Some(v) = v {
                        let v = $look($c, $r, v, &w);
                        way_out($c, v, &w);
                    }
                }}}
                let dom = if fq { DataDomain::Frequency } else { DataDomain::Time };
                let few: Vec<$T> = vec![one; 4];
                match ($r.below(3), cx, fq) {
                    (0, _, _) => go!((&few[..]).to_gen_dsp_vec(cx, dom), "gen", cx, fq, generic),
                    (_, false, false) => go!((&few[..]).to_real_time_vec(), "real-time", false, false, real),
                    (_, false, true) => go!((&few[..]).to_real_freq_vec(), "real-freq", false, true, real),
                    (_, true, false) => go!((&few[..]).to_complex_time_vec(), "complex-time", true, false, complex),
                    (_, true, true) => go!((&few[..]).to_complex_freq_vec(), "complex-freq", true, true, complex),
                }
            }
            _ => {
                let cx = $r.chance(0.5);
                $c.what = format!("{}.from", $c.what);
                macro_rules! go { ($t: ident, $cx: expr, $fq: expr, $look: ident) => {{
                    let w = w($cx, $fq, false);
                    let v = $c.calm("create", || $t::<_, $T>::from($mk));
                    if let Some(v) = v {
                        let v = $look($c, $r, v, &w);
                        way_out($c, v, &w);
                    }
                }}}
                match (cx, fq) {
                    (false, false) => go!(RealTimeVec, false, false, real),
                    (false, true) => go!(RealFreqVec, false, true, real),
                    (true, false) => go!(ComplexTimeVec, true, false, complex),
                    (true, true) => go!(ComplexFreqVec, true, true, complex),
                }
            }
        }
    }};
}
macro_rules! cloned {
    (yes, $c: ident, $r: ident, $v: ident, $w: ident) => {
        if $r.chance(0.5) {
            cloned($c, $r, &$v, &$w);
        }
    };
}
macro_rules! changed {
    (no, $k: tt, $c: ident, $r: ident, $v: ident, $w: ident, $fixed: expr, $cap: expr) => {
        way_out($c, $v, &$w)
    };
    (yes, complex, $c: ident, $r: ident, $v: ident, $w: ident, $fixed: expr, $cap: expr) => {{
        change_c($c, $r, &mut $v, &$w);
        change($c, $r, &mut $v, &$w, $fixed, $cap);
    }};
    (yes, $k: tt, $c: ident, $r: ident, $v: ident, $w: ident, $fixed: expr, $cap: expr) => {
        change($c, $r, &mut $v, &$w, $fixed, $cap)
    };
}
macro_rules! out_complex {
    ([yes], $c: ident, $r: ident, $v: ident, $w: ident) => {
        if $r.chance(0.4) {
            way_out($c, $v, &$w)
        } else if let Some((s, n)) = $c.calm("get", move || $v.get()) {
            let ok = 2 * n == $w.d.len() && s.len() >= n && same_c(&s[..n], $w.d);
            $c.expect("get", ok, || format!("{} of {:?} expected {}", n, s.len(), show($w.d)));
        }
    };
    ([], $c: ident, $r: ident, $v: ident, $w: ident) => {
        way_out($c, $v, &$w)
    };
}

#[cfg(feature = "std")]
fn into_vec<T: Flt>(c: &mut Ctx, r: &Rng, d: &[T], cap: usize) {
    let mk = || {
        let mut v: Vec<T> = Vec::with_capacity(cap);
        v.extend_from_slice(d);
        v
    };
    let mut buf = SingleBuffer::new();
    // some have been changed in between
    let longer = r.chance(0.3);
    c.what += if longer { ".into-after-resize" } else { ".into" };
    let expect = |p: usize| {
        let mut e = d[..if p == 2 { d.len() - d.len() % 2 } else { d.len() }].to_vec();
        if p == 2 && d.len() % 2 != 0 {
            e.clear();
        }
        if longer {
            for _ in 0..2 * p {
                e.push(T::of(0.0));
            }
        }
        e
    };
    if r.chance(0.4) {
        let e = expect(1);
        let got: Option<Vec<T>> = if r.chance(0.5) {
            c.calm("into", || {
                let mut v = mk().to_real_time_vec();
                if longer {
                    let p = v.points();
                    v.zero_pad_b(&mut buf, p + 2, PaddingOption::End).expect("zero_pad");
                }
                v.into()
            })
        } else {
            c.calm("into", || {
                let mut v = mk().to_real_freq_vec();
                if longer {
                    let p = v.points();
                    v.zero_pad_b(&mut buf, p + 2, PaddingOption::End).expect("zero_pad");
                }
                v.into()
            })
        };
        if let Some(g) = got {
            c.expect("into", same(&g, &e), || format!("{} expected {}", show(&g), show(&e)));
        }
    } else {
        let e = expect(2);
        let from_complex = r.chance(0.5) && d.len() % 2 == 0;
        let fq = r.chance(0.5);
        let mkc = || {
            let mut v: Vec<Complex<T>> = Vec::with_capacity(cap);
            v.extend(d.chunks(2).map(|x| Complex::new(x[0], x[1])));
            v
        };
        let got: Option<Vec<Complex<T>>> = if fq {
            c.calm("into-complex", || {
                let mut v = if from_complex { mkc().to_complex_freq_vec() } else { mk().to_complex_freq_vec() };
                if longer {
                    let p = v.points();
                    v.zero_pad_b(&mut buf, p + 2, PaddingOption::End).expect("zero_pad");
                }
                v.into()
            })
        } else {
            c.calm("into-complex", || {
                let mut v = if from_complex { mkc().to_complex_time_vec() } else { mk().to_complex_time_vec() };
                if longer {
                    let p = v.points();
                    v.zero_pad_b(&mut buf, p + 2, PaddingOption::End).expect("zero_pad");
                }
                v.into()
            })
        };
        if let Some(g) = got {
            c.expect("into-complex", same_c(&g, &e), || format!("{} expected {}", g.len(), show(&e)));
        }
    }
}
#[cfg(feature = "std")]
fn interleave<T: Flt>(c: &mut Ctx, r: &Rng, d: &[T]) {
    let n = d.len() / 2;
    let other = if r.chance(0.25) { n + 1 + r.below(3) } else { n };
    let fq = r.chance(0.5);
    let re: Vec<T> = d.iter().step_by(2).take(n).cloned().collect();
    let mut im: Vec<T> = d.iter().skip(1).step_by(2).take(n).cloned().collect();
    im.resize(other, T::of(7.0));
    c.what = format!("interleave-{}", if fq { "freq" } else { "time" });
    let w = Want { d: &d[..2 * n], cx: true, fq, delta: T::of(1.0), settings: format!("{:?}", MultiCoreSettings::default()) };
    macro_rules! go {
        ($a: expr, $b: expr, $m: ident) => {{
            let v = c.calm("create", || $a.$m(&$b));
            match v {
                None => (),
                Some(Err(e)) => c.expect(
                    "interleave-error",
                    n != other && matches!(e, ErrorReason::InputMustHaveTheSameSize),
                    || format!("{} and {}: {:?}", n, other, e),
                ),
                Some(Ok(v)) => {
                    c.expect("interleave-sizes", n == other, || format!("{} and {} accepted", n, other));
                    if n == other {
                        let v = complex(c, r, v, &w);
                        way_out(c, v, &w);
                    }
                }
            }
        }};
    }
    let (s, t): (&[T], &[T]) = (&re, &im);
    match (r.below(2), fq) {
        (0, false) => go!(s, t, interleave_to_complex_time_vec),
        (0, true) => go!(s, t, interleave_to_complex_freq_vec),
        (_, false) => go!(re, im, interleave_to_complex_time_vec),
        (_, true) => go!(re, im, interleave_to_complex_freq_vec),
    }
}

macro_rules! case {
    ($name: ident, $T: ty) => {
        pub fn $name(c: &mut Ctx, r: &Rng) {
            let n = size(r);
            let mut d: Vec<$T> = values(r, n);
            let extra = if r.chance(0.5) { 0 } else { r.below(9) };
            let kind = r.below(13);
            c.key = format!("{} {} {} {}", <$T as Flt>::NAME, kind, n.min(70), extra);
            *c.counts.entry(format!("container:{}", kind)).or_insert(0) += 1;
            #[cfg(feature = "std")]
            let with_cap = || {
                let mut v: Vec<$T> = Vec::with_capacity(n + extra);
                v.extend_from_slice(&d);
                v
            };
            match kind {
                #[cfg(feature = "std")]
                0 | 1 => {
                    c.what = "vec".into();
                    container!(c, r, $T, with_cap(), &d, yes, false, 0, [yes], [yes])
                }
                #[cfg(feature = "std")]
                2 => {
                    c.what = "box".into();
                    container!(c, r, $T, d.clone().into_boxed_slice(), &d, yes, true, n, [yes], [])
                }
                3 => {
                    c.what = "slice".into();
                    container!(c, r, $T, &d[..], &d, no, true, n, [yes], [yes])
                }
                4 | 5 => {
                    c.what = "slice_mut".into();
                    let reference = d.clone();
                    container!(c, r, $T, { d.copy_from_slice(&reference); &mut d[..] }, &reference, yes, true, n, [], [yes])
                }
                6 => {
                    c.what = "array8".into();
                    let d = &d[..n.min(8)];
                    container!(c, r, $T, d.iter().cloned().collect::<ArrayVec<$T, 8>>(), d, yes, true, 8, [yes], [])
                }
                7 => {
                    c.what = "array64".into();
                    let d = &d[..n.min(64)];
                    container!(c, r, $T, d.iter().cloned().collect::<ArrayVec<$T, 64>>(), d, yes, true, 64, [yes], [])
                }
                #[cfg(feature = "std")]
                8 | 9 => {
                    c.what = "vec".into();
                    into_vec(c, r, &d, n + extra)
                }
                #[cfg(feature = "std")]
                10 => interleave(c, r, &d),
                _ => {
                    // from complex numbers
                    let fq = r.chance(0.5);
                    let n = d.len() / 2;
                    let mut cd: Vec<Complex<$T>> = (0..n).map(|i| Complex::new(d[2 * i], d[2 * i + 1])).collect();
                    let w = Want { d: &d[..2 * n], cx: true, fq, delta: 1.0, settings: format!("{:?}", MultiCoreSettings::default()) };
                    match r.below(3) {
                        #[cfg(feature = "std")]
                        0 => {
                            c.what = "vec-of-complex".into();
                            cd.reserve_exact(extra);
                            macro_rules! go { ($m: ident) => {
                                if let Some(v) = c.calm("create", move || cd.$m()) {
                                    let mut v = complex(c, r, v, &w);
                                    if r.chance(0.4) { changed!(yes, complex, c, r, v, w, false, 0) } else { out_complex!([yes], c, r, v, w) }
                                }
                            }}
                            if fq { go!(to_complex_freq_vec) } else { go!(to_complex_time_vec) }
                        }
                        1 => {
                            c.what = "slice-of-complex".into();
                            macro_rules! go { ($m: ident) => {
                                if let Some(v) = c.calm("create", || (&cd[..]).$m()) {
                                    let v = complex(c, r, v, &w);
                                    out_complex!([yes], c, r, v, w)
                                }
                            }}
                            if fq { go!(to_complex_freq_vec) } else { go!(to_complex_time_vec) }
                        }
                        _ => {
                            c.what = "slice_mut-of-complex".into();
                            macro_rules! go { ($m: ident) => {
                                if let Some(v) = c.calm("create", || (&mut cd[..]).$m()) {
                                    let mut v = complex(c, r, v, &w);
                                    if r.chance(0.4) { changed!(yes, complex, c, r, v, w, true, 2 * n) } else { out_complex!([yes], c, r, v, w) }
                                }
                            }}
                            if fq { go!(to_complex_freq_vec) } else { go!(to_complex_time_vec) }
                        }
                    }
                }
            }
        }
    };
}
case!(case32, f32);
case!(case64, f64);

pub fn case(r: &Rng) -> Ctx {
    let mut c = Ctx { errs: vec![], counts: BTreeMap::new(), key: String::new(), what: String::new() };
    if r.chance(0.5) {
        case32(&mut c, r)
    } else {
        case64(&mut c, r)
    }
    c
}
