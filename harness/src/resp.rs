//! Response functions and lookup tables (C23)
use crate::report::Report;
use base::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::numbers::*;
use model::signal::{dft, fft_tol};
use std::collections::BTreeMap;
use std::f64::consts::{FRAC_PI_2, PI};

struct Ctx {
    errs: Vec<(String, String)>,
    counts: BTreeMap<String, u64>,
    key: String,
    what: String,
}
impl Ctx {
    fn expect(&mut self, class: &str, ok: bool, msg: impl FnOnce() -> String) {
        *self.counts.entry(format!("check:{}", class)).or_insert(0) += 1;
        if !ok && self.errs.len() < 20 {
            let sig = format!("{}|{}", self.what, class);
            self.errs.push((sig, msg()));
        }
    }
    fn near(&mut self, class: &str, x: f64, got: f64, want: f64, tol: f64) {
        self.expect(class, (got - want).abs() <= tol, || {
            format!("{:e} instead of {:e} at {:e} (tolerance {:e})", got, want, x, tol)
        });
    }
}

/// Raised cosine impulse response without cancellation near its removable singularity
fn rc_exact(x: f64, r: f64) -> f64 {
    if x == 0.0 {
        return 1.0;
    }
    let u = 2.0 * r * x.abs();
    let v = 1.0 - u;
    let s = if v == 0.0 { FRAC_PI_2 } else { (FRAC_PI_2 * v).sin() / v };
    model::sinc(x) * s / (1.0 + u)
}

/// The next numbers up or down
fn ulps<T: Flt>(x: T, n: i32) -> T {
    let mut y = x.g();
    for _ in 0..n.abs() {
        let mut d = T::EPS * y.abs() / 4.0;
        loop {
            let z = T::of(y + if n > 0 { d } else { -d }).g();
            if z != y {
                y = z;
                break;
            }
            d *= 1.5;
        }
    }
    T::of(y)
}

fn arguments<T: Flt>(r: &Rng, special: &[f64]) -> Vec<T> {
    let mut x = vec![T::of(0.0)];
    for s in special {
        let s = T::of(*s);
        let near = [s, ulps(s, 1), ulps(s, -1), ulps(s, 2), ulps(s, -2), ulps(s, 1 + r.below(40) as i32), ulps(s, -1 - r.below(40) as i32)];
        x.extend_from_slice(&near);
        x.push(T::of(s.g() * (1.0 + r.uni(-1.0, 1.0) * 10f64.powf(-r.uni(2.0, 7.0)))));
    }
    for _ in 0..12 {
        x.push(T::of(r.uni(0.0, 3.0)));
        x.push(T::of(r.uni(0.0, 40.0)));
        x.push(T::of(r.below(30) as f64 / *r.pick(&[1.0, 2.0, 4.0, 5.0, 10.0])));
        x.push(T::of(10f64.powf(-r.uni(0.0, 30.0))));
    }
    x
}

fn rolloff(r: &Rng) -> f64 {
    match r.below(6) {
        0 => *r.pick(&[0.0, 1.0, 0.5, 0.25, 0.125, 0.75]),
        1 => *r.pick(&[0.35, 0.1, 0.2, 0.3, 0.22, 0.4, 0.05]),
        2 => r.range(1, 99) as f64 / 100.0,
        3 => 10f64.powf(-r.uni(0.0, 4.0)),
        _ => r.uni(0.0, 1.0),
    }
}

fn functions<T: Flt>(r: &Rng, c: &mut Ctx) {
    let e = T::EPS;
    let b = T::of(rolloff(r));
    let beta = b.g();
    c.key = format!("{} rolloff {:e}", T::NAME, beta);
    let rc = RaisedCosineFunction::<T>::new(b);
    let si = SincFunction::<T>::new();
    let ok = RealImpulseResponse::<T>::is_symmetric(&rc)
        && RealFrequencyResponse::<T>::is_symmetric(&rc)
        && RealImpulseResponse::<T>::is_symmetric(&si)
        && RealFrequencyResponse::<T>::is_symmetric(&si);
    c.expect("symmetric", ok, || "is_symmetric returned false".into());
    let mut special = vec![1.0, 0.5, 2.0, 1.0 - beta, 1.0 + beta, 1e-3];
    if beta > 1e-3 {
        special.push(1.0 / (2.0 * beta));
        special.push(1.0 / (2.0 * beta));
        special.push((T::of(1.0) / (T::of(2.0) * b)).g());
    }
    special.retain(|x| *x > 1e-30);
    for x in arguments::<T>(r, &special) {
        let xf = x.g();
        let m = T::of(-xf);
        let p = [
            (RealImpulseResponse::<T>::calc(&rc, x).g(), RealImpulseResponse::<T>::calc(&rc, m).g()),
            (RealFrequencyResponse::<T>::calc(&rc, x).g(), RealFrequencyResponse::<T>::calc(&rc, m).g()),
            (RealImpulseResponse::<T>::calc(&si, x).g(), RealImpulseResponse::<T>::calc(&si, m).g()),
            (RealFrequencyResponse::<T>::calc(&si, x).g(), RealFrequencyResponse::<T>::calc(&si, m).g()),
        ];
        for (i, (a, b)) in p.iter().enumerate() {
            c.expect("even", (a - b).abs() <= 4.0 * e, || format!("function {}: {:e} at {:e} and {:e} at {:e}", i, a, xf, b, -xf));
        }
        c.near("sinc-impulse", xf, p[2].0, model::sinc(xf), 16.0 * e);
        c.near("sinc-frequency", xf, p[3].0, if xf <= 1.0 { 1.0 } else { 0.0 }, 0.0);
        c.near("raised-cosine-impulse", xf, p[0].0, rc_exact(xf, beta), 32.0 * e);
        if 2.0 * beta * xf == 1.0 {
            c.expect("singular", true, || "".into());
        }
        if (2.0 * beta * xf - 1.0).abs() < 8.0 * e {
            c.expect("near-singular", true, || "".into());
        }
        // The edges are subject to rounding
        let slope = if beta > 0.0 { 16.0 * e / beta } else { 0.0 };
        let (lo, hi) = (1.0 - beta, 1.0 + beta);
        let near_edge = beta == 0.0 && (xf - 1.0).abs() < 2.0 * e && xf != 1.0;
        if !near_edge && slope < 0.1 {
            c.near("raised-cosine-frequency", xf, p[1].0, model::rc_freq(xf, beta), slope + 4.0 * e);
            if xf >= lo && xf <= hi {
                c.expect("transition", true, || "".into());
            }
        }
    }
}

/// What the tables share
trait Table<T: Flt, C: Copy> {
    fn name() -> &'static str;
    fn parts(t: &[C], delta: T, sym: bool) -> Self;
    fn sampled(f: &FunR, delta: T, len: usize) -> Self;
    fn samples(&self) -> Vec<C>;
    fn step(&self) -> T;
    fn sym(&self) -> bool;
    fn at(&self, x: T) -> C;
    fn fun(f: &FunR, x: T) -> C;
}
macro_rules! table {
    ($name: ident, $conv: ident, $T: ty, $C: ty) => {
        impl Table<$T, $C> for $name<$T> {
            fn name() -> &'static str {
                stringify!($name)
            }
            fn parts(t: &[$C], delta: $T, sym: bool) -> Self {
                $name::<$T>::from_raw_parts(t, delta, sym)
            }
            fn sampled(f: &FunR, delta: $T, len: usize) -> Self {
                let f: &dyn $conv<$T> = f;
                $name::<$T>::from_conv_function(f, delta, len)
            }
            fn samples(&self) -> Vec<$C> {
                self.table().to_vec()
            }
            fn step(&self) -> $T {
                self.delta()
            }
            fn sym(&self) -> bool {
                $conv::<$T>::is_symmetric(self)
            }
            fn at(&self, x: $T) -> $C {
                $conv::<$T>::calc(self, x)
            }
            fn fun(f: &FunR, x: $T) -> $C {
                $conv::<$T>::calc(f, x)
            }
        }
    };
}
table!(RealTimeLinearTableLookup, RealImpulseResponse, f32, f32);
table!(RealTimeLinearTableLookup, RealImpulseResponse, f64, f64);
table!(RealFrequencyLinearTableLookup, RealFrequencyResponse, f32, f32);
table!(RealFrequencyLinearTableLookup, RealFrequencyResponse, f64, f64);
table!(ComplexTimeLinearTableLookup, ComplexImpulseResponse, f32, Complex<f32>);
table!(ComplexTimeLinearTableLookup, ComplexImpulseResponse, f64, Complex<f64>);
table!(ComplexFrequencyLinearTableLookup, ComplexFrequencyResponse, f32, Complex<f32>);
table!(ComplexFrequencyLinearTableLookup, ComplexFrequencyResponse, f64, Complex<f64>);

trait Val<T>: Copy {
    fn z(self) -> C64;
    fn make(z: C64) -> Self;
}
impl Val<f32> for f32 {
    fn z(self) -> C64 {
        C64::new(self as f64, 0.0)
    }
    fn make(z: C64) -> f32 {
        z.re as f32
    }
}
impl Val<f64> for f64 {
    fn z(self) -> C64 {
        C64::new(self, 0.0)
    }
    fn make(z: C64) -> f64 {
        z.re
    }
}
impl<T: Flt> Val<T> for Complex<T> {
    fn z(self) -> C64 {
        C64::new(self.re.g(), self.im.g())
    }
    fn make(z: C64) -> Complex<T> {
        Complex::new(T::of(z.re), T::of(z.im))
    }
}
type C64 = Complex<f64>;

fn some_fun(r: &Rng) -> Fun {
    let kind = *r.pick(&[0u8, 1, 1, 2, 4, 5, 6, 7]);
    let mut p = [r.uni(0.5, 4.0), r.uni(-1.0, 1.0), r.uni(-2.0, 2.0)];
    if kind == 5 || kind == 7 {
        p[0] = r.uni(0.1, 1.0);
    }
    Fun { kind, p, sym: !(kind == 1 || kind == 4), delay: 0 }
}

fn make<T: Flt, C: Val<T>, L: Table<T, C>>(r: &Rng, c: &mut Ctx) -> L {
    let sampled = r.chance(0.6);
    let delta = T::of(*r.pick(&[1.0, 0.5, 0.2, 0.1, 0.01, 3.0, 1e-3, r.uni(0.01, 2.0)]));
    let table: L;
    if sampled {
        let f = FunR(some_fun(r));
        let len = match r.below(4) {
            0 => r.below(3),
            1 => r.range(3, 40),
            2 => r.range(14, 35),
            _ => r.range(30, 300),
        };
        c.key = format!("{} sampled {} kind {} delta {}", T::NAME, len, f.0.kind, delta.g());
        table = L::sampled(&f, delta, len);
        let t = table.samples();
        c.expect("table-length", t.len() == 2 * len + 1, || format!("{} instead of {}", t.len(), 2 * len + 1));
        c.expect("table-symmetry", table.sym() == f.0.sym, || "is_symmetric changed".into());
        for (i, y) in t.iter().enumerate() {
            // the sample position may be rounded differently
            let x = T::of((i as f64 - len as f64) * delta.g());
            let want = L::fun(&f, x).z();
            let got = y.z();
            let tol = T::EPS * (2.0 + 4.0 * x.g().abs() * f.0.slope());
            let jump = f.0.kind == 7 && (x.g().abs() - 1.0).abs() < 1.1; 
            let tol = if jump { tol + 64.0 * T::EPS / f.0.p[0] } else { tol };
            c.expect("samples", (got - want).norm() <= tol, || format!("{} instead of {} at {}", got, want, x.g()));
        }
    } else {
        let n = match r.below(4) {
            0 => r.below(4),
            1 => r.range(4, 40),
            2 => *r.pick(&[31, 32, 33, 63, 64, 65, 128]),
            _ => r.range(40, 500),
        };
        let mut t: Vec<C> = (0..n).map(|_| C::make(C64::new(r.uni(-4.0, 4.0), r.uni(-4.0, 4.0)))).collect();
        let sym = r.chance(0.4);
        if sym {
            for i in 0..n / 2 {
                t[n - 1 - i] = t[i];
            }
        }
        c.key = format!("{} parts {} symmetric {} delta {}", T::NAME, n, sym, delta.g());
        table = L::parts(&t, delta, sym);
        let got = table.samples();
        c.expect("parts", got.len() == n && got.iter().zip(&t).all(|(a, b)| a.z() == b.z()), || {
            format!("{} elements differ from the {} ones given", got.len(), n)
        });
        c.expect("parts-symmetry", table.sym() == sym, || "is_symmetric changed".into());
    }
    c.expect("delta", table.step().g() == delta.g(), || format!("{} instead of {}", table.step().g(), delta.g()));
    table
}

fn lookup<T: Flt, C: Val<T>, L: Table<T, C>>(r: &Rng, c: &mut Ctx) {
    let t: L = make(r, c);
    let s: Vec<C64> = t.samples().iter().map(|x| x.z()).collect();
    let n = s.len() as isize;
    let center = (n / 2) as f64;
    let delta = t.step().g();
    let mut pos: Vec<f64> = vec![];
    for _ in 0..30 {
        pos.push(r.uni(-2.0, n as f64 + 1.0));
        pos.push(r.below(n as usize + 4) as f64 - 2.0);
        pos.push(r.below(n as usize + 1) as f64 + *r.pick(&[0.5, 0.25, -0.25, 1e-7, -1e-7, 1e-5, -1e-5, 0.499, -0.499]));
    }
    pos.extend_from_slice(&[-0.7, -1.0, -3.0, -1e6, -1e12, n as f64 - 0.4, n as f64, n as f64 + 3.0, 1e6, 1e12]);
    if n > 0 {
        pos.extend_from_slice(&[0.0, 0.3, -0.3, 1.0, (n - 1) as f64, n as f64 - 0.7, n as f64 - 1.3]);
    }
    for p in pos {
        let x = T::of((p - center) * delta);
        // the position which the argument really stands for
        let p = x.g() / delta + center;
        let err = T::EPS * (p.abs() + center + 2.0) * 3.0;
        let got = t.at(x).z();
        if p < -0.5 - err || p > n as f64 - 0.5 + err || n == 0 {
            c.expect("outside", got.norm() == 0.0, || {
                format!("{} instead of 0 outside of the table, position {} of {}", got, p, n)
            });
            continue;
        }
        if p < err || p > (n - 1) as f64 - err {
            // less than half a step beyond the table: the last entry or zero
            let end = s[if p < err { 0 } else { n as usize - 1 }];
            let slope = if n > 1 { (s[0] - s[1]).norm().max((s[n as usize - 1] - s[n as usize - 2]).norm()) } else { 0.0 };
            let inner = (got - end).norm() <= slope * (1.1e-6 + 2.0 * err) + 8.0 * T::EPS * end.norm();
            let zero = got.norm() == 0.0 && (p < -err || p > (n - 1) as f64 + err);
            c.expect("edge", inner || zero, || format!("{} instead of {} at position {} of {}", got, end, p, n));
            continue;
        }
        let i = (p.floor() as usize).min(n as usize - 2);
        let f = p - i as f64;
        let want = s[i] + (s[i + 1] - s[i]) * f;
        let mut slope = (s[i + 1] - s[i]).norm();
        if i > 0 {
            slope = slope.max((s[i] - s[i - 1]).norm());
        }
        if i + 2 < n as usize {
            slope = slope.max((s[i + 2] - s[i + 1]).norm());
        }
        let tiny = if T::EPS > 1e-10 { 1e-44 } else { 1e-320 };
        let tol = slope * (1.1e-6 + 2.0 * err) + 8.0 * T::EPS * (s[i].norm() + s[i + 1].norm()) + tiny;
        let class = if f.abs() < 1e-9 || (f - 1.0).abs() < 1e-9 { "nodes" } else { "between" };
        c.expect(class, (got - want).norm() <= tol, || {
            format!("{} instead of {} at position {} of {} (tolerance {:e})", got, want, p, n, tol)
        });
    }
}

fn zs<T: Flt, C: Val<T>>(x: &[C]) -> Vec<C64> {
    x.iter().map(|x| x.z()).collect()
}

macro_rules! conversions {
    ($fname: ident, $T: ty) => {
        fn $fname(r: &Rng, c: &mut Ctx) {
            fn same<C: Val<$T>, L: Table<$T, C>>(c: &mut Ctx, class: &str, l: &L, want: &[C64], delta: f64, sym: bool, tol: f64) {
                let got = zs::<$T, C>(&l.samples());
                c.expect(class, got.len() == want.len() && got.iter().zip(want).all(|(a, b)| (a - b).norm() <= tol), || {
                    let i = got.iter().zip(want).position(|(a, b)| !((a - b).norm() <= tol));
                    format!(
                        "{} instead of {} elements, first difference at {:?}: {:?} instead of {:?}",
                        got.len(), want.len(), i, i.map(|i| got[i]), i.map(|i| want[i])
                    )
                });
                if !delta.is_nan() {
                    let d = l.step() as f64;
                    c.expect("converted-delta", (d - delta).abs() <= 4.0 * <$T as Flt>::EPS * delta.abs(), || {
                        format!("{}: {} instead of {}", class, d, delta)
                    });
                }
                c.expect("converted-symmetry", l.sym() == sym, || format!("{}: is_symmetric changed", class));
            }
            let e = <$T as Flt>::EPS;
            match r.below(7) {
                0 => {
                    c.what = "to_complex".into();
                    let t: RealTimeLinearTableLookup<$T> = make(r, c);
                    let (s, d, y) = (zs::<$T, _>(&t.samples()), t.step() as f64, t.sym());
                    let x = t.to_complex();
                    same(c, "real-to-complex-time", &x, &s, d, y, 0.0);
                    same(c, "back-to-real-time", &x.to_real(), &s, d, y, 0.0);
                }
                1 => {
                    c.what = "to_complex".into();
                    let t: RealFrequencyLinearTableLookup<$T> = make(r, c);
                    let (s, d, y) = (zs::<$T, _>(&t.samples()), t.step() as f64, t.sym());
                    let x = t.to_complex();
                    same(c, "real-to-complex-freq", &x, &s, d, y, 0.0);
                    same(c, "back-to-real-freq", &x.to_real(), &s, d, y, 0.0);
                }
                2 => {
                    c.what = "to_real".into();
                    let t: ComplexTimeLinearTableLookup<$T> = make(r, c);
                    let s: Vec<C64> = zs::<$T, _>(&t.samples()).iter().map(|z| C64::new(z.re, 0.0)).collect();
                    same(c, "complex-to-real-time", &t.to_real(), &s, t.step() as f64, t.sym(), 0.0);
                }
                3 => {
                    c.what = "to_real".into();
                    let t: ComplexFrequencyLinearTableLookup<$T> = make(r, c);
                    let s: Vec<C64> = zs::<$T, _>(&t.samples()).iter().map(|z| C64::new(z.re, 0.0)).collect();
                    same(c, "complex-to-real-freq", &t.to_real(), &s, t.step() as f64, t.sym(), 0.0);
                }
                4 => {
                    c.what = "fft".into();
                    let t: ComplexTimeLinearTableLookup<$T> = make(r, c);
                    let (s, y) = (zs::<$T, _>(&t.samples()), t.sym());
                    if s.is_empty() {
                        return;
                    }
                    let want = model::reorg::swap(&dft(&s, false), true);
                    let tol = fft_tol(&s, e);
                    let f = t.fft();
                    same(c, "fft", &f, &want, f64::NAN, y, tol);
                    let k = f.step() as f64;
                    c.expect("fft-delta", k.is_finite() && k > 0.0, || format!("delta {} after the FFT", k));
                    same(c, "fft-ifft", &f.ifft(), &s, f64::NAN, y, 4.0 * tol / s.len() as f64 + 4.0 * tol / (s.len() as f64).sqrt());
                }
                5 => {
                    c.what = "ifft".into();
                    let t: ComplexFrequencyLinearTableLookup<$T> = make(r, c);
                    let (s, y) = (zs::<$T, _>(&t.samples()), t.sym());
                    if s.is_empty() {
                        return;
                    }
                    let n = s.len() as f64;
                    let want: Vec<C64> = dft(&model::reorg::swap(&s, false), true).iter().map(|z| z / n).collect();
                    same(c, "ifft", &t.ifft(), &want, f64::NAN, y, fft_tol(&s, e) / n + 4.0 * e * 4.0);
                }
                _ => {
                    c.what = "fft-real".into();
                    let t: RealTimeLinearTableLookup<$T> = make(r, c);
                    let (s, y) = (zs::<$T, _>(&t.samples()), t.sym());
                    if s.is_empty() {
                        return;
                    }
                    let want: Vec<C64> = model::reorg::swap(&dft(&s, false), true).iter().map(|z| C64::new(z.norm(), 0.0)).collect();
                    same(c, "magnitude-spectrum", &t.fft(), &want, f64::NAN, y, fft_tol(&s, e) * 1.5);
                }
            }
        }
    };
}
conversions!(conversions32, f32);
conversions!(conversions64, f64);

macro_rules! lookups {
    ($r: expr, $c: expr, $T: ty) => {{
        let (r, c) = ($r, $c);
        match r.below(4) {
            0 => {
                c.what = RealTimeLinearTableLookup::<$T>::name().into();
                lookup::<$T, $T, RealTimeLinearTableLookup<$T>>(r, c)
            }
            1 => {
                c.what = RealFrequencyLinearTableLookup::<$T>::name().into();
                lookup::<$T, $T, RealFrequencyLinearTableLookup<$T>>(r, c)
            }
            2 => {
                c.what = ComplexTimeLinearTableLookup::<$T>::name().into();
                lookup::<$T, Complex<$T>, ComplexTimeLinearTableLookup<$T>>(r, c)
            }
            _ => {
                c.what = ComplexFrequencyLinearTableLookup::<$T>::name().into();
                lookup::<$T, Complex<$T>, ComplexFrequencyLinearTableLookup<$T>>(r, c)
            }
        }
    }};
}

pub fn c23(rep: &mut Report) {
    while let Some(case) = rep.next_case() {
        let r = rep.rng(case);
        c23_case(rep, case, &r);
    }
}
pub fn c23_case(rep: &mut Report, case: u64, r: &Rng) {
    let mut c = Ctx { errs: vec![], counts: BTreeMap::new(), key: String::new(), what: String::new() };
    let single = r.chance(0.5);
    let res = guarded(std::panic::AssertUnwindSafe(|| match r.below(3) {
        0 => {
            c.what = "functions".into();
            if single {
                functions::<f32>(r, &mut c)
            } else {
                functions::<f64>(r, &mut c)
            }
        }
        1 => {
            if single {
                lookups!(r, &mut c, f32)
            } else {
                lookups!(r, &mut c, f64)
            }
        }
        _ => {
            c.what = "conversions".into();
            if single {
                conversions32(r, &mut c)
            } else {
                conversions64(r, &mut c)
            }
        }
    }));
    if let Err(m) = res {
        if !cfg!(feature = "std") && m.contains("CapacityError") {
            // Without std internal vectors have a documented fixed capacity
            return;
        }
        c.errs.push((format!("{}|panic", c.what), m));
    }
    rep.judged += 1;
    rep.saw(&format!("{} {}", c.what, c.key));
    rep.count(&format!("kind:{}", c.what), 1);
    for (k, n) in &c.counts {
        rep.count(k, *n);
    }
    rep.sample(|| format!("{} {}", c.what, c.key));
    for (sig, msg) in &c.errs {
        rep.violation(case, sig, &format!("{} :: {}", msg, c.key));
    }
}
