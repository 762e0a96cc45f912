//! The C interface: functions are looked up by name in the shared object, like a program written in
//! C does it, and compared with the same operation on a vector with run time checks.
use crate::gen::*;
use crate::inst::*;
use crate::props::*;
use crate::report::*;
use num_complex::Complex;
use std::collections::BTreeSet;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering::SeqCst};

extern "C" {
    fn dlopen(name: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(lib: *mut c_void, name: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}
type H = *mut c_void;
#[repr(C)]
struct VRes {
    code: i32,
    v: H,
}
#[repr(C)]
struct SRes<T> {
    code: i32,
    x: T,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Stat<T> {
    sum: T,
    count: usize,
    average: T,
    rms: T,
    min: T,
    min_index: usize,
    max: T,
    max_index: usize,
}
type WinFn<T> = extern "C" fn(*const c_void, usize, usize) -> T;
type ReFn<T> = extern "C" fn(*const c_void, T) -> T;
type CxFn<T> = extern "C" fn(*const c_void, T) -> Complex<T>;

extern "C" fn window_cb<T: Flt>(d: *const c_void, n: usize, len: usize) -> T {
    CALLS.fetch_add(1, SeqCst);
    T::of(model::fun_window(unsafe { &*(d as *const Fun) }, n, len))
}
extern "C" fn re_cb<T: Flt>(d: *const c_void, x: T) -> T {
    CALLS.fetch_add(1, SeqCst);
    T::of(unsafe { &*(d as *const Fun) }.re(x.g()))
}
extern "C" fn cx_cb<T: Flt>(d: *const c_void, x: T) -> Complex<T> {
    CALLS.fetch_add(1, SeqCst);
    let f = unsafe { &*(d as *const Fun) };
    Complex::new(T::of(f.re(x.g())), T::of(f.im(x.g())))
}
/// Calls of functions which were passed to the library
static CALLS: AtomicUsize = AtomicUsize::new(0);
/// What the functions without a data pointer use
static FUN: AtomicPtr<Fun> = AtomicPtr::new(std::ptr::null_mut());
static ARG: AtomicU64 = AtomicU64::new(0);
/// Results of map functions which weren't aggregated yet
static LISTS: AtomicUsize = AtomicUsize::new(0);
type List = Vec<(f64, f64)>;

extern "C" fn map_re<T: Flt>(x: T, i: usize) -> T {
    CALLS.fetch_add(1, SeqCst);
    let (f, a) = (unsafe { &*FUN.load(SeqCst) }, f64::from_bits(ARG.load(SeqCst)));
    T::of(x.g() + a * f.re((i % 17) as f64) + (i % 1024) as f64)
}
extern "C" fn map_cx<T: Flt>(x: Complex<T>, i: usize) -> Complex<T> {
    CALLS.fetch_add(1, SeqCst);
    let (f, a) = (unsafe { &*FUN.load(SeqCst) }, f64::from_bits(ARG.load(SeqCst)));
    Complex::new(T::of(x.im.g() + a * f.re((i % 17) as f64)), T::of(x.re.g() + (i % 1024) as f64))
}
fn list(i: usize, x: f64) -> *const c_void {
    CALLS.fetch_add(1, SeqCst);
    LISTS.fetch_add(1, SeqCst);
    Box::into_raw(Box::new(vec![(i as f64, x)] as List)) as *const c_void
}
extern "C" fn list_re<T: Flt>(x: T, i: usize) -> *const c_void {
    list(i, x.g())
}
extern "C" fn list_cx<T: Flt>(x: Complex<T>, i: usize) -> *const c_void {
    list(i, x.re.g() + 3.0 * x.im.g())
}
extern "C" fn join(a: *const c_void, b: *const c_void) -> *const c_void {
    unsafe {
        LISTS.fetch_sub(1, SeqCst);
        let mut a = Box::from_raw(a as *mut List);
        a.append(&mut Box::from_raw(b as *mut List));
        Box::into_raw(a) as *const c_void
    }
}

/// Every function of the interface
const NAMES: &str = "delete_vector new new_with_performance_options new_with_detailed_performance_options get_value \
set_value is_complex get_domain get_len set_len get_points get_delta data complex_data get_allocated_len add sub div \
mul real_dot_product complex_dot_product real_statistics complex_statistics real_sum real_sum_sq complex_sum \
complex_sum_sq real_dot_product_prec complex_dot_product_prec real_statistics_prec complex_statistics_prec \
real_sum_prec real_sum_sq_prec complex_sum_prec complex_sum_sq_prec zero_pad zero_interleave diff diff_with_start \
cum_sum real_offset real_scale abs sqrt square root powf ln exp log expf to_complex sin cos tan asin acos atan sinh \
cosh tanh asinh acosh atanh ln_approx exp_approx sin_approx cos_approx log_approx expf_approx powf_approx wrap unwrap \
swap_halves complex_offset complex_scale complex_divide magnitude get_magnitude get_magnitude_squared \
magnitude_squared conj to_real to_imag map_inplace_real map_inplace_complex map_aggregate_real map_aggregate_complex \
get_real get_imag phase get_phase plain_fft plain_sfft plain_ifft clone multiply_complex_exponential add_vector \
sub_vector div_vector mul_vector add_smaller_vector sub_smaller_vector div_smaller_vector mul_smaller_vector \
get_real_imag get_mag_phase set_real_imag set_mag_phase split_into merge overwrite_data real_statistics_split \
complex_statistics_split real_statistics_split_prec complex_statistics_split_prec fft sfft ifft plain_sifft sifft \
mirror fft_shift ifft_shift apply_window unapply_window windowed_fft windowed_sfft windowed_ifft windowed_sifft \
apply_custom_window unapply_custom_window windowed_custom_fft windowed_custom_sfft windowed_custom_ifft \
windowed_custom_sifft reverse decimatei prepare_argument prepare_argument_padded correlate convolve_signal \
convolve_real convolve_complex convolve multiply_frequency_response_real multiply_frequency_response_complex \
multiply_frequency_response interpolatef_custom interpolatef interpolate_custom interpolate interpft \
interpolatei_custom interpolatei interpolate_lin interpolate_hermite";

struct Lib {
    lib: H,
    bits: &'static str,
    used: std::cell::RefCell<BTreeSet<String>>,
}
impl Lib {
    fn find(&self, name: &str) -> Option<H> {
        let n = CString::new(name).unwrap();
        let p = unsafe { dlsym(self.lib, n.as_ptr()) };
        if p.is_null() {
            None
        } else {
            Some(p)
        }
    }
    fn get(&self, name: &str) -> H {
        self.used.borrow_mut().insert(name.to_string());
        self.find(&format!("{}{}", name, self.bits)).unwrap_or_else(|| {
            // reported by `exported`
            eprintln!("{}{} isn't exported", name, self.bits);
            std::process::exit(3)
        })
    }
}
macro_rules! call {
    ($l: expr, $name: expr, fn($($t: ty),*) $(-> $r: ty)?, $($a: expr),*) => {{
        let p = $l.get($name);
        let f: unsafe extern "C" fn($($t),*) $(-> $r)? = unsafe { std::mem::transmute(p) };
        unsafe { f($($a),*) }
    }};
}

/// Thread settings of a vector
#[derive(Clone, Copy, PartialEq)]
enum Cores {
    Default,
    Given,
    /// the speed of the machine decides
    Measured,
}
/// A handle together with the functions to look at it
struct Hand<'a, T: Flt> {
    l: &'a Lib,
    p: H,
    cores: Cores,
    t: std::marker::PhantomData<T>,
}
impl<'a, T: Flt> Drop for Hand<'a, T> {
    fn drop(&mut self) {
        call!(self.l, "delete_vector", fn(H), self.p);
    }
}
impl<'a, T: Flt> Hand<'a, T> {
    fn snap(&self) -> Snap {
        let l = self.l;
        let n = call!(l, "get_len", fn(H) -> usize, self.p);
        let p = call!(l, "data", fn(H) -> *const T, self.p);
        let d = if n == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(p, n) }.to_vec() };
        Snap {
            d: d.iter().map(|x| x.g()).collect(),
            cx: call!(l, "is_complex", fn(H) -> i32, self.p) == 1,
            fq: call!(l, "get_domain", fn(H) -> i32, self.p) == 1,
            delta: call!(l, "get_delta", fn(H) -> T, self.p).g(),
        }
    }
    /// All ways to look at the vector have to agree
    fn consistent(&self, r: &Rng) -> Option<String> {
        let l = self.l;
        let s = self.snap();
        let points = call!(l, "get_points", fn(H) -> usize, self.p);
        if points != s.points() {
            return Some(format!("{} points of {} elements", points, s.d.len()));
        }
        let alloc = call!(l, "get_allocated_len", fn(H) -> usize, self.p);
        if alloc < s.d.len() {
            return Some(format!("{} elements are allocated but the length is {}", alloc, s.d.len()));
        }
        let i = call!(l, "is_complex", fn(H) -> i32, self.p);
        let f = call!(l, "get_domain", fn(H) -> i32, self.p);
        if ![0, 1].contains(&i) || ![0, 1].contains(&f) {
            return Some(format!("is_complex is {} and get_domain {}", i, f));
        }
        for _ in 0..4.min(s.d.len()) {
            let i = r.below(s.d.len());
            let x = call!(l, "get_value", fn(H, usize) -> T, self.p, i).g();
            if !same_bits(&[x], &[s.d[i]]) {
                return Some(format!("get_value returned {} instead of {}", x, s.d[i]));
            }
        }
        if s.cx && s.points() > 0 {
            let p = call!(l, "complex_data", fn(H) -> *const Complex<T>, self.p);
            let c = unsafe { std::slice::from_raw_parts(p, points) };
            let c: Vec<f64> = c.iter().flat_map(|c| vec![c.re.g(), c.im.g()]).collect();
            if !same_bits(&c, &s.d[..2 * points]) {
                return Some("complex_data differs from data".into());
            }
        }
        None
    }
}
fn same_bits(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()))
}
fn same(a: &Snap, b: &Snap) -> bool {
    same_bits(&a.d, &b.d) && a.cx == b.cx && a.fq == b.fq && same_bits(&[a.delta], &[b.delta])
}
fn close<T: Flt>(a: &Snap, b: &Snap) -> bool {
    let m = b.d.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    same(&a.with(vec![]), &b.with(vec![]))
        && a.d.len() == b.d.len()
        && a.d.iter().zip(&b.d).all(|(x, y)| (x - y).abs() <= 1e4 * T::EPS * m || same_bits(&[*x], &[*y]))
}
fn differs(a: &Snap, b: &Snap) -> String {
    if a.d.len() != b.d.len() {
        return format!("{} and {} elements", a.d.len(), b.d.len());
    }
    if let Some(i) = (0..a.d.len()).find(|i| !same_bits(&a.d[*i..i + 1], &b.d[*i..i + 1])) {
        return format!("element {} is {} and {}", i, a.d[i], b.d[i]);
    }
    format!("complex {} freq {} delta {} and {} {} {}", a.cx, a.fq, a.delta, b.cx, b.fq, b.delta)
}

fn create<'a, T: Flt>(l: &'a Lib, s: &Snap, r: &Rng, how: &How) -> Result<Hand<'a, T>, String> {
    let (cx, fq) = (if s.cx { *r.pick(&[1, 1, -1, 2]) } else { 0 }, if s.fq { *r.pick(&[1, 1, 5]) } else { 0 });
    let (init, n, delta) = (T::of(1.25), s.d.len(), T::of(s.delta));
    let kind = r.below(40);
    let cores = match kind {
        0..=12 => Cores::Default,
        13 => Cores::Measured,
        _ => Cores::Given,
    };
    let p = match kind {
        0..=12 => call!(l, "new", fn(i32, i32, T, usize, T) -> H, cx, fq, init, n, delta),
        // this one measures the speed of the machine
        13 => call!(l, "new_with_performance_options", fn(i32, i32, T, usize, T, usize) -> H, cx, fq, init, n, delta, how.cores),
        _ => call!(
            l,
            "new_with_detailed_performance_options",
            fn(i32, i32, T, usize, T, usize, usize, usize, usize, usize) -> H,
            cx, fq, init, n, delta, how.cores, how.thr[0], how.thr[1], how.thr[2], how.thr[3]
        ),
    };
    let h = Hand { l, p, cores, t: std::marker::PhantomData::<T> };
    let fresh = h.snap();
    let want = Snap { d: vec![1.25; n], ..s.clone() };
    if !same(&fresh, &want) && !(s.cx && n % 2 == 1) {
        return Err(format!("new vector: {}", differs(&fresh, &want)));
    }
    if let Some(m) = h.consistent(r) {
        return Err(format!("new vector: {}", m));
    }
    let d: Vec<T> = conv(&s.d);
    if r.chance(0.5) {
        // in two parts
        let k = r.below(n + 1);
        let mut h = h;
        for (i, part) in [&d[..], &d[..k]].iter().enumerate() {
            let x = call!(l, "overwrite_data", fn(H, *const T, usize) -> VRes, h.p, part.as_ptr(), part.len());
            std::mem::forget(h);
            h = Hand { l, p: x.v, cores, t: std::marker::PhantomData };
            if x.code != 0 {
                return Err(format!("overwrite_data {} of {} elements of {} returned {}", i, part.len(), n, x.code));
            }
        }
        return Ok(h);
    }
    for (i, x) in d.iter().enumerate() {
        call!(l, "set_value", fn(H, usize, T), h.p, i, *x);
    }
    Ok(h)
}

/// Result of a call
#[derive(Default)]
struct Called {
    /// code, if the function has one
    code: Option<i32>,
    sc: Vec<f64>,
    extra: Vec<Snap>,
    fun: String,
}
fn stat_r<T: Flt>(s: &Stat<T>, o: &mut Vec<f64>) {
    o.extend_from_slice(&[
        s.sum.g(), s.count as f64, s.average.g(), s.rms.g(), s.min.g(), s.min_index as f64, s.max.g(), s.max_index as f64,
    ]);
}
fn stat_c<T: Flt>(s: &Stat<Complex<T>>, o: &mut Vec<f64>) {
    o.extend_from_slice(&[
        s.sum.re.g(), s.sum.im.g(), s.count as f64, s.average.re.g(), s.average.im.g(), s.rms.re.g(), s.rms.im.g(),
        s.min.re.g(), s.min.im.g(), s.min_index as f64, s.max.re.g(), s.max.im.g(), s.max_index as f64,
    ]);
}
fn stats_list<E: Copy>(
    l: &Lib,
    name: &str,
    h: H,
    n: usize,
    empty: Stat<E>,
    out: &mut Called,
    put: fn(&Stat<E>, &mut Vec<f64>),
) -> Result<(), String>
where
    Stat<E>: Copy,
{
    // there are some more behind the list which must not be written
    let mut d: Vec<Stat<E>> = vec![empty; n + 3];
    let code = call!(l, name, fn(H, *mut Stat<E>, usize) -> i32, h, d.as_mut_ptr(), n);
    out.code = Some(code);
    if code == 0 {
        for s in &d[..n] {
            put(s, &mut out.sc);
        }
    }
    let from = if code == 0 { n } else { 0 };
    if d[from..].iter().any(|s| s.count != 4711) {
        return Err("statistics were written behind the end or despite of the error".into());
    }
    Ok(())
}
fn none_r<T: Flt>() -> Stat<T> {
    let g = T::of(3.0);
    Stat { sum: g, count: 4711, average: g, rms: g, min: g, min_index: 1, max: g, max_index: 1 }
}
fn none_c<T: Flt>() -> Stat<Complex<T>> {
    let g = Complex::new(T::of(3.0), T::of(4.0));
    Stat { sum: g, count: 4711, average: g, rms: g, min: g, min_index: 1, max: g, max_index: 1 }
}

/// The operation as it is available in the interface
fn translated(op: &Op) -> Option<Op> {
    let mut op = op.clone();
    op.name = match op.name {
        "zero_pad" => "zero_pad_b",
        "zero_interleave" => "zero_interleave_b",
        "to_complex" => "to_complex_b",
        "magnitude" => "magnitude_b",
        "magnitude_squared" => "magnitude_squared_b",
        "to_real" => "to_real_b",
        "to_imag" => "to_imag_b",
        "phase" => "phase_b",
        "resize_b" => "resize",
        "statistics_merge_r" | "statistics_merge_c" | "set_delta" => return None,
        "interpolate" if op.u[1] == 9 => return None,
        // it has to be representable
        "map_inplace_r" | "map_inplace_c" => op.name,
        n => n,
    };
    Some(op)
}

fn invoke<T: Flt>(h: &mut Hand<T>, op: &Op, r: &Rng, how: &How) -> Result<Option<Called>, String> {
    let l = h.l;
    let f: Vec<T> = conv(&op.f);
    let u = &op.u;
    let fun = Box::new(op.fun);
    let data: *const c_void = &*fun as *const Fun as *const c_void;
    let mut out = Called::default();
    let (name, step) = (op.name, if op.args.len() > 0 { 1 } else { 0 });
    let _ = step;
    let mut args: Vec<Hand<T>> = vec![];
    for a in &op.args {
        args.push(create::<T>(l, a, r, how)?);
    }
    // A function which returns a vector
    macro_rules! vec {
        ($n: expr, fn($($t: ty),*), $($a: expr),*) => {{
            let n: &str = $n;
            let x = call!(l, n, fn(H $(, $t)*) -> VRes, h.p $(, $a)*);
            h.p = x.v;
            out.code = Some(x.code);
            out.fun = n.to_string();
        }};
    }
    let table = |k: usize| if k == 2 { 0i32 } else { *r.pick(&[1, 1, 2, -1]) };
    match name {
        "sin" | "cos" | "tan" | "asin" | "acos" | "atan" | "sinh" | "cosh" | "tanh" | "asinh" | "acosh" | "atanh"
        | "sqrt" | "square" | "ln" | "exp" | "diff" | "diff_with_start" | "cum_sum" | "reverse" | "swap_halves"
        | "abs" | "ln_approx" | "exp_approx" | "sin_approx" | "cos_approx" | "conj" | "mirror" | "fft_shift"
        | "ifft_shift" | "plain_fft" | "fft" | "plain_ifft" | "ifft" | "plain_sfft" | "sfft" | "plain_sifft"
        | "sifft" | "prepare_argument" | "prepare_argument_padded" => vec!(name, fn(),),
        "to_complex_b" | "magnitude_b" | "magnitude_squared_b" | "to_real_b" | "to_imag_b" | "phase_b" => {
            vec!(&name[..name.len() - 2], fn(),)
        }
        "root" | "powf" | "log" | "expf" | "wrap" | "unwrap" | "log_approx" | "expf_approx" | "powf_approx" => {
            vec!(name, fn(T), f[0])
        }
        "offset" => vec!("real_offset", fn(T), f[0]),
        "scale" => vec!("real_scale", fn(T), f[0]),
        "offset_c" => vec!("complex_offset", fn(T, T), f[0], f[1]),
        "scale_c" => vec!("complex_scale", fn(T, T), f[0], f[1]),
        "multiply_complex_exponential" => vec!(name, fn(T, T), f[0], f[1]),
        "resize" => {
            call!(l, "set_len", fn(H, usize), h.p, u[0]);
            out.fun = "set_len".into();
        }
        "zero_pad_b" => {
            let o = match u[1] {
                0 => 0,
                1 => 1,
                _ => *r.pick(&[2, 2, 3, -1]),
            };
            vec!("zero_pad", fn(usize, i32), u[0], o)
        }
        "zero_interleave_b" => vec!("zero_interleave", fn(i32), u[0] as i32),
        "add" | "sub" | "mul" | "div" => {
            let n = if r.chance(0.5) { name.to_string() } else { format!("{}_vector", name) };
            vec!(&n, fn(H), args[0].p)
        }
        "add_smaller" | "sub_smaller" | "mul_smaller" | "div_smaller" => {
            vec!(&format!("{}_vector", name), fn(H), args[0].p)
        }
        "convolve_signal" => vec!(name, fn(H), args[0].p),
        "correlate" => {
            if u[0] != 2 {
                let n = if u[0] == 0 { "prepare_argument" } else { "prepare_argument_padded" };
                let x = call!(l, n, fn(H) -> VRes, args[0].p);
                args[0].p = x.v;
            }
            vec!(name, fn(H), args[0].p)
        }
        "set_real_imag" | "set_mag_phase" => vec!(name, fn(H, H), args[0].p, args[1].p),
        "get_real" | "get_imag" | "get_magnitude" | "get_magnitude_squared" | "get_phase" => {
            out.code = Some(call!(l, name, fn(H, H) -> i32, h.p, args[0].p));
            out.extra.push(args[0].snap());
        }
        "get_real_imag" | "get_mag_phase" => {
            out.code = Some(call!(l, name, fn(H, H, H) -> i32, h.p, args[0].p, args[1].p));
            out.extra.push(args[0].snap());
            out.extra.push(args[1].snap());
        }
        "split_into" => {
            let s = h.snap().with(std::vec![GARBAGE; 2 * u[1]]);
            let mut targets: Vec<Hand<T>> = std::vec![];
            for _ in 0..u[0] {
                targets.push(create::<T>(l, &s, r, how)?);
            }
            let mut p: Vec<H> = targets.iter().map(|t| t.p).collect();
            let code = call!(l, name, fn(H, *mut H, usize) -> i32, h.p, p.as_mut_ptr(), p.len());
            out.code = Some(code);
            if p.iter().zip(&targets).any(|(a, b)| *a != b.p) {
                return Err("split_into changed the list of targets".into());
            }
            if code == 0 {
                out.extra = targets.iter().map(|t| t.snap()).collect();
            }
        }
        "merge" => {
            let p: Vec<H> = args.iter().map(|t| t.p).collect();
            vec!(name, fn(*const H, usize), p.as_ptr(), p.len())
        }
        "sum_r" | "sum_sq_r" => {
            let n = if name == "sum_r" { "real_sum" } else { "real_sum_sq" };
            out.sc.push(call!(l, n, fn(H) -> T, h.p).g());
        }
        "sum_c" | "sum_sq_c" => {
            let n = if name == "sum_c" { "complex_sum" } else { "complex_sum_sq" };
            let x = call!(l, n, fn(H) -> Complex<T>, h.p);
            out.sc.extend_from_slice(&[x.re.g(), x.im.g()]);
        }
        "sum_prec_r" | "sum_sq_prec_r" => {
            let n = if name == "sum_prec_r" { "real_sum_prec" } else { "real_sum_sq_prec" };
            out.sc.push(call!(l, n, fn(H) -> f64, h.p));
        }
        "sum_prec_c" | "sum_sq_prec_c" => {
            let n = if name == "sum_prec_c" { "complex_sum_prec" } else { "complex_sum_sq_prec" };
            let x = call!(l, n, fn(H) -> Complex<f64>, h.p);
            out.sc.extend_from_slice(&[x.re, x.im]);
        }
        "dot_product_r" | "dot_product_prec_r" => {
            let n = if name == "dot_product_r" { "real_dot_product" } else { "real_dot_product_prec" };
            let x = call!(l, n, fn(H, H) -> SRes<T>, h.p, args[0].p);
            out.code = Some(x.code);
            out.sc.push(x.x.g());
        }
        "dot_product_c" | "dot_product_prec_c" => {
            let n = if name == "dot_product_c" { "complex_dot_product" } else { "complex_dot_product_prec" };
            let x = call!(l, n, fn(H, H) -> SRes<Complex<T>>, h.p, args[0].p);
            out.code = Some(x.code);
            out.sc.extend_from_slice(&[x.x.re.g(), x.x.im.g()]);
        }
        "statistics_r" => stat_r(&call!(l, "real_statistics", fn(H) -> Stat<T>, h.p), &mut out.sc),
        "statistics_c" => stat_c(&call!(l, "complex_statistics", fn(H) -> Stat<Complex<T>>, h.p), &mut out.sc),
        "statistics_prec_r" => stat_r(&call!(l, "real_statistics_prec", fn(H) -> Stat<f64>, h.p), &mut out.sc),
        "statistics_prec_c" => {
            stat_c(&call!(l, "complex_statistics_prec", fn(H) -> Stat<Complex<f64>>, h.p), &mut out.sc)
        }
        "statistics_split_r" => stats_list(l, "real_statistics_split", h.p, u[0], none_r::<T>(), &mut out, stat_r)?,
        "statistics_split_c" => {
            stats_list(l, "complex_statistics_split", h.p, u[0], none_c::<T>(), &mut out, stat_c)?
        }
        "statistics_split_prec_r" => {
            stats_list(l, "real_statistics_split_prec", h.p, u[0], none_r::<f64>(), &mut out, stat_r)?
        }
        "statistics_split_prec_c" => {
            stats_list(l, "complex_statistics_split_prec", h.p, u[0], none_c::<f64>(), &mut out, stat_c)?
        }
        "map_inplace_r" | "map_inplace_c" => {
            FUN.store(data as *mut Fun, SeqCst);
            ARG.store(T::of(op.f[0]).g().to_bits(), SeqCst);
            if name == "map_inplace_r" {
                vec!("map_inplace_real", fn(extern "C" fn(T, usize) -> T), map_re::<T>)
            } else {
                vec!("map_inplace_complex", fn(extern "C" fn(Complex<T>, usize) -> Complex<T>), map_cx::<T>)
            }
        }
        "map_aggregate_r" | "map_aggregate_c" => {
            type J = extern "C" fn(*const c_void, *const c_void) -> *const c_void;
            LISTS.store(0, SeqCst);
            let s = h.snap();
            let x = if name == "map_aggregate_r" {
                type M<T> = extern "C" fn(T, usize) -> *const c_void;
                call!(l, "map_aggregate_real", fn(H, M<T>, J) -> SRes<*const c_void>, h.p, list_re::<T>, join)
            } else {
                type M<T> = extern "C" fn(Complex<T>, usize) -> *const c_void;
                call!(l, "map_aggregate_complex", fn(H, M<T>, J) -> SRes<*const c_void>, h.p, list_cx::<T>, join)
            };
            out.code = Some(x.code);
            if !x.x.is_null() {
                LISTS.fetch_sub(1, SeqCst);
                let mut a = unsafe { Box::from_raw(x.x as *mut List) };
                a.sort_by(|a, b| a.partial_cmp(b).unwrap());
                out.sc.push(if name == "map_aggregate_r" { s.d.len() } else { s.points() } as f64);
                for (i, x) in a.iter() {
                    out.sc.extend_from_slice(&[*i, *x, 1.0]);
                }
            }
            if LISTS.load(SeqCst) != 0 {
                return Err(format!("{} results of the map function were not aggregated", LISTS.load(SeqCst)));
            }
        }
        "apply_window" | "unapply_window" | "windowed_fft" | "windowed_sfft" | "windowed_ifft" | "windowed_sifft" => {
            let k = u.first().cloned().unwrap_or(0);
            if k < 4 {
                let k = if k == 3 { *r.pick(&[3, 3, 4, -1, 100]) } else { k as i32 };
                vec!(name, fn(i32), k)
            } else {
                let n = match name {
                    "apply_window" => "apply_custom_window",
                    "unapply_window" => "unapply_custom_window",
                    "windowed_fft" => "windowed_custom_fft",
                    "windowed_sfft" => "windowed_custom_sfft",
                    "windowed_ifft" => "windowed_custom_ifft",
                    _ => "windowed_custom_sifft",
                };
                vec!(n, fn(WinFn<T>, *const c_void, bool), window_cb::<T>, data, op.fun.sym)
            }
        }
        "convolve" => match u[1] {
            1 | 2 => vec!("convolve", fn(i32, T, T, usize), table(u[1]), T::of(op.fun.p[0]), f[0], u[0]),
            _ => vec!(
                "convolve_real", fn(ReFn<T>, *const c_void, bool, T, usize), re_cb::<T>, data, op.fun.sym, f[0], u[0]
            ),
        },
        "convolve_c" => vec!(
            "convolve_complex", fn(CxFn<T>, *const c_void, bool, T, usize), cx_cb::<T>, data, op.fun.sym, f[0], u[0]
        ),
        "multiply_frequency_response" => match u[0] {
            1 | 2 => vec!(name, fn(i32, T, T), table(u[0]), T::of(op.fun.p[0]), f[0]),
            _ => vec!(
                "multiply_frequency_response_real", fn(ReFn<T>, *const c_void, bool, T), re_cb::<T>, data, op.fun.sym, f[0]
            ),
        },
        "multiply_frequency_response_c" => vec!(
            "multiply_frequency_response_complex", fn(CxFn<T>, *const c_void, bool, T), cx_cb::<T>, data, op.fun.sym, f[0]
        ),
        "interpolatef" => match u[1] {
            1 | 2 => vec!(name, fn(i32, T, T, T, usize), table(u[1]), T::of(op.fun.p[0]), f[0], f[1], u[0]),
            _ => vec!(
                "interpolatef_custom", fn(ReFn<T>, *const c_void, bool, T, T, usize), re_cb::<T>, data, op.fun.sym, f[0], f[1], u[0]
            ),
        },
        "interpolatei" => match u[1] {
            1 | 2 => vec!(name, fn(i32, T, i32), table(u[1]), T::of(op.fun.p[0]), u[0] as i32),
            _ => vec!(
                "interpolatei_custom", fn(ReFn<T>, *const c_void, bool, i32), re_cb::<T>, data, op.fun.sym, u[0] as i32
            ),
        },
        "interpolate" => match u[1] {
            1 | 2 => vec!(name, fn(i32, T, usize, T), table(u[1]), T::of(op.fun.p[0]), u[0], f[0]),
            _ => vec!(
                "interpolate_custom", fn(ReFn<T>, *const c_void, bool, usize, T), re_cb::<T>, data, op.fun.sym, u[0], f[0]
            ),
        },
        "interpft" => vec!(name, fn(usize), u[0]),
        "decimatei" => vec!(name, fn(u32, u32), u[0] as u32, u[1] as u32),
        "interpolate_lin" | "interpolate_hermite" => vec!(name, fn(T, T), f[0], f[1]),
        _ => return Ok(None),
    }
    // Arguments stay as they were and stay usable
    let changes = name.starts_with("get_") || name == "correlate";
    for (a, s) in args.iter().zip(&op.args) {
        if !changes && !(s.cx && s.d.len() % 2 == 1) && !same(&a.snap(), &rounded::<T>(s)) {
            return Err("an argument was changed".into());
        }
    }
    if out.fun.is_empty() {
        out.fun = name.to_string();
    }
    Ok(Some(out))
}
/// The numbers from the documentation of the interface
fn code_of(e: &basic_dsp_vector::ErrorReason) -> i32 {
    use basic_dsp_vector::ErrorReason::*;
    match e {
        InputMustHaveTheSameSize => 1,
        InputMetaDataMustAgree => 2,
        InputMustBeComplex => 3,
        InputMustBeReal => 4,
        InputMustBeInTimeDomain => 5,
        InputMustBeInFrequencyDomain => 6,
        InvalidArgumentLength => 7,
        InputMustBeConjSymmetric => 8,
        InputMustHaveAnOddLength => 9,
        ArgumentFunctionMustBeSymmetric => 10,
        InvalidNumberOfArgumentsForCombinedOp => 11,
        InputMustNotBeEmpty => 12,
        InputMustHaveAnEvenLength => 13,
        TypeCanNotResize => 14,
    }
}
const NO_CODE: &[&str] = &["resize"];

fn memory(l: &Lib) -> [usize; 7] {
    let p = l.find("verif_memory").expect("verif_memory");
    let f: extern "C" fn(&mut [usize; 7]) = unsafe { std::mem::transmute(p) };
    let mut m = [0; 7];
    f(&mut m);
    m
}

type Found = (String, String);
/// One vector which goes through a few operations on both sides
fn history<T: Flt>(rep: &mut Report, case: u64, r: &Rng, l: &Lib) -> Option<Found> {
    let steps = *r.pick(&[1usize, 1, 2, 3, 5]);
    let mut h = how(r, &Dims { storage: false, simd: false, slack: false, bufs: false, ..EVERY });
    h.stat = false;
    h.buf = Buf::Single;
    let size = if steps > 1 || r.chance(0.7) { Size::Small } else { Size::Any };
    let mut sp = draw(r, *r.pick(ALL), size, 0.08);
    exact::<T>(&mut sp);
    let mut hand = match create::<T>(l, &sp.snap, r, &h) {
        Ok(x) => x,
        Err(m) => return Some(("create".into(), m)),
    };
    let mut v = gen_of::<T>(&sp.snap, &h);
    if hand.cores == Cores::Default {
        use basic_dsp_vector::*;
        v.set_multicore_settings(basic_dsp_vector::MultiCoreSettings::default());
    }
    let mut buf = AnyBuf::<T>::new(Buf::Single, 0);
    let mut trace = String::new();
    for step in 0..steps {
        let now = snap(&v);
        if step > 0 {
            // an operation for any vector, now for this one
            sp = draw(r, *r.pick(ALL), Size::Small, 0.05);
            exact::<T>(&mut sp);
            if now.points() > 300 {
                break;
            }
            let like = sp.op.args.iter().all(|a| a.d.len() == sp.snap.d.len());
            if like && !sp.op.args.is_empty() && !sp.op.name.starts_with("get") && !sp.op.name.starts_with("set") && sp.op.name != "merge" {
                for a in &mut sp.op.args {
                    let d: Vec<f64> = (0..now.d.len()).map(|i| if a.d.is_empty() { 1.0 } else { a.d[i % a.d.len()] }).collect();
                    *a = now.with(d);
                }
            }
        }
        let op = match translated(&sp.op) {
            Some(o) => o,
            None => {
                rep.skipped += 1;
                continue;
            }
        };
        let brief = format!("{} on {}", op.brief(), now.brief());
        trace += &format!("{}{} ", op.name, if step + 1 < steps { "," } else { "" });
        if rep.verbose {
            println!("case {}: {} {}", case, T::NAME, brief);
        }
        // The reference goes first: a panic inside of the interface would end the process
        let stepped = guarded(|| {
            let mut b = AnyBuf::<T>::new(Buf::Single, 0);
            std::mem::swap(&mut b, &mut buf);
            let s = T::step(v.clone(), &op, &h, &mut b);
            (s, b)
        });
        let (new, err, side) = match stepped {
            Err(_) => {
                rep.skipped += 1;
                continue;
            }
            Ok((Step::NotAvailable(_), b)) => {
                buf = b;
                rep.skipped += 1;
                continue;
            }
            Ok((Step::Done(x, e, side), b)) => {
                buf = b;
                (x, e, side)
            }
        };
        let calls = CALLS.load(SeqCst);
        let got = match invoke::<T>(&mut hand, &op, r, &h) {
            Err(m) => return Some((format!("{}|call", op.name), format!("{} :: {} {}", m, T::NAME, brief))),
            Ok(None) => {
                rep.skipped += 1;
                continue;
            }
            Ok(Some(x)) => x,
        };
        rep.count("callbacks", (CALLS.load(SeqCst) - calls) as u64);
        rep.judged += 1;
        rep.count(&format!("fun:{}{}", got.fun, l.bits), 1);
        rep.saw(&format!("{} {} {} {} {}", got.fun, l.bits, kind(&now), now.d.len().min(40), h.cores));
        v = new;
        let after = snap(&v);
        let seen = hand.snap();
        let bad = |what: &str, m: String| Some((format!("{}|{}", got.fun, what), format!("{} :: {} {}", m, T::NAME, brief)));
        let loose = hand.cores == Cores::Measured;
        if !same(&seen, &after) && !(loose && close::<T>(&seen, &after)) {
            return bad("vector", format!("the vectors differ: {}", differs(&seen, &after)));
        }
        if let Some(m) = hand.consistent(r) {
            return bad("metadata", m);
        }
        let want = match &err {
            Some(e) => code_of(e),
            None if after.d.is_empty() && after.delta.is_nan() => -1,
            None => 0,
        };
        rep.count(&format!("code:{}", want), 1);
        // getters don't have any other result than that they were called
        let getter = op.name.starts_with("get_") || op.name.contains("split");
        match got.code {
            Some(c) if getter && err.is_none() && c == 0 => (),
            Some(c) if c != want => return bad("code", format!("result code {} instead of {}", c, want)),
            None if !NO_CODE.contains(&op.name) && want > 0 => {
                return bad("code", format!("no result code, {} is expected", want));
            }
            _ => (),
        }
        if loose {
            // Both sides may have used different numbers of threads
            break;
        }
        let split = op.name.starts_with("statistics_split");
        if err.is_none() && !(split && now.d.is_empty()) {
            if !same_bits(&got.sc, &side.sc) {
                let i = (0..got.sc.len().min(side.sc.len())).find(|&i| !same_bits(&got.sc[i..i + 1], &side.sc[i..i + 1]));
                return bad("scalars", format!("results differ: {} and {} numbers, first difference at {:?}: {:?} and {:?}",
                    got.sc.len(), side.sc.len(), i, i.map(|i| got.sc[i]), i.map(|i| side.sc[i])));
            }
            if got.extra.len() != side.extra.len() {
                return bad("vectors", format!("{} and {} further vectors", got.extra.len(), side.extra.len()));
            }
            for (a, b) in got.extra.iter().zip(&side.extra) {
                if !same(a, b) {
                    return bad("destination", format!("the destination differs: {}", differs(a, b)));
                }
            }
        }
        // Things which have no counterpart
        if r.chance(0.15) {
            if let Err(m) = further::<T>(&mut hand, &mut v, r) {
                return Some((format!("{}|further", m.split(' ').next().unwrap_or("")), format!("{} :: {} after {}", m, T::NAME, brief)));
            }
            rep.count("further", 1);
        }
    }
    rep.sample(|| format!("{} {}: {} from {}", T::NAME, l.bits, trace, sp.snap.brief()));
    None
}
/// clone, complex_divide, overwrite_data with wrong lengths, set_value
fn further<T: Flt>(h: &mut Hand<T>, v: &mut GenVec<T>, r: &Rng) -> Result<(), String> {
    let l = h.l;
    let s = h.snap();
    match r.below(5) {
        0 => {
            let p = call!(l, "clone", fn(H) -> H, h.p);
            let c = Hand::<T> { l, p, cores: h.cores, t: std::marker::PhantomData };
            if p == h.p {
                std::mem::forget(c);
                return Err("clone returned the same vector".into());
            }
            if !same(&c.snap(), &s) {
                return Err(format!("clone differs: {}", differs(&c.snap(), &s)));
            }
            // changes of one don't change the other
            let mut c = c;
            if !s.d.is_empty() {
                call!(l, "set_value", fn(H, usize, T), c.p, r.below(s.d.len()), T::of(0.12345));
            }
            if !same(&h.snap(), &s) {
                return Err("clone shares memory with the original".into());
            }
            if r.chance(0.5) {
                // go on with the clone
                for (i, x) in s.d.iter().enumerate() {
                    call!(l, "set_value", fn(H, usize, T), c.p, i, T::of(*x));
                }
                std::mem::swap(&mut c, h);
            }
        }
        1 if s.cx => {
            let z = Complex::new(T::of(r.uni(0.5, 2.0)), T::of(r.uni(-2.0, 2.0)));
            let x = call!(l, "complex_divide", fn(H, T, T) -> VRes, h.p, z.re, z.im);
            h.p = x.v;
            let got = h.snap();
            let m = s.d.iter().fold(0.0f64, |a, b| a.max(b.abs()));
            let z = Complex::new(z.re.g(), z.im.g());
            for (a, b) in got.d.chunks(2).zip(s.d.chunks(2)) {
                let q = Complex::new(b[0], b[1]) / z;
                let t = 16.0 * T::EPS * (b[0].hypot(b[1]) / z.norm()) + 1e-36;
                if (q.re - a[0]).abs() > t || (q.im - a[1]).abs() > t || !(m.is_finite()) && false {
                    if q.re.is_finite() && q.im.is_finite() && t < 1e30 {
                        return Err(format!("complex_divide of {:?} by {} is {:?}", b, z, a));
                    }
                }
            }
            if x.code != if s.d.is_empty() && s.delta.is_nan() { -1 } else { 0 } || got.d.len() != s.d.len() {
                return Err(format!("complex_divide returned {}", x.code));
            }
            // bring the other one to the same values
            let d: Vec<T> = conv(&got.d);
            for (i, x) in d.iter().enumerate() {
                *v.data_at(i) = *x;
            }
        }
        2 => {
            let n = s.d.len() + r.range(1, 3);
            let d: Vec<T> = vec![T::of(0.5); n];
            let x = call!(l, "overwrite_data", fn(H, *const T, usize) -> VRes, h.p, d.as_ptr(), n);
            h.p = x.v;
            if x.code != 7 || !same(&h.snap(), &s) {
                return Err(format!("overwrite_data with {} values too much returned {}", n - s.d.len(), x.code));
            }
        }
        3 => {
            let n = r.below(s.d.len() + 1);
            let d: Vec<T> = (0..n).map(|i| T::of(i as f64 * 0.25 - 1.0)).collect();
            let x = call!(l, "overwrite_data", fn(H, *const T, usize) -> VRes, h.p, d.as_ptr(), n);
            h.p = x.v;
            let mut want = s.clone();
            for (i, x) in d.iter().enumerate() {
                want.d[i] = x.g();
                *v.data_at(i) = *x;
            }
            if x.code != 0 || !same(&h.snap(), &want) {
                return Err(format!("overwrite_data of {} of {} values returned {}", n, s.d.len(), x.code));
            }
        }
        _ => {
            if !s.d.is_empty() {
                let i = r.below(s.d.len());
                let x = T::of(r.uni(-3.0, 3.0));
                call!(l, "set_value", fn(H, usize, T), h.p, i, x);
                *v.data_at(i) = x;
                let mut want = s.clone();
                want.d[i] = x.g();
                if !same(&h.snap(), &want) {
                    return Err(format!("set_value of element {}", i));
                }
            }
        }
    }
    Ok(())
}
trait DataAt<T> {
    fn data_at(&mut self, i: usize) -> &mut T;
}
impl<T: Flt> DataAt<T> for GenVec<T> {
    fn data_at(&mut self, i: usize) -> &mut T {
        use basic_dsp_vector::*;
        self.data_mut(i)
    }
}

pub fn run(rep: &mut Report) {
    let exe = std::env::current_exe().expect("exe");
    let path = exe.parent().unwrap().join("libfacade.so");
    let name = CString::new(path.to_str().unwrap()).unwrap();
    let lib = unsafe { dlopen(name.as_ptr(), 2) };
    if lib.is_null() {
        let e = unsafe { std::ffi::CStr::from_ptr(dlerror()) };
        eprintln!("{:?}", e);
        std::process::exit(2);
    }
    let libs: Vec<Lib> = ["32", "64"]
        .iter()
        .map(|bits| Lib { lib, bits, used: Default::default() })
        .collect();
    let mut complete = true;
    for l in &libs {
        for n in NAMES.split_whitespace() {
            rep.count("exported", 1);
            if l.find(&format!("{}{}", n, l.bits)).is_none() {
                complete = false;
                rep.violation(0, &format!("{}|not-exported", n), &format!("{}{} isn't exported", n, l.bits));
            }
        }
    }
    if !complete {
        return;
    }
    let before_all = memory(&libs[0]);
    while let Some(case) = rep.next_case() {
        let r = rep.rng(case);
        let i = r.below(2);
        let l = &libs[i];
        let mut grown = 0;
        // Memory must come back. Something may be set up once for the whole process, so look twice.
        for _ in 0..3 {
            let before = memory(l);
            let r = rep.rng(case);
            r.below(2);
            let found = if i == 0 { history::<f32>(rep, case, &r, l) } else { history::<f64>(rep, case, &r, l) };
            if let Some((sig, msg)) = found {
                rep.violation(case, &sig, &msg);
                break;
            }
            let mut after = memory(l);
            for wait in 0..200 {
                if after[0] <= before[0] {
                    break;
                }
                // threads which are about to end still own some memory
                std::thread::sleep(std::time::Duration::from_millis(1 + wait / 20));
                after = memory(l);
            }
            if after[2..] != before[2..] {
                let names = ["freed twice", "wrong pointer freed", "written behind the end", "wrong size freed", "written after it was freed"];
                for k in 0..5 {
                    if after[2 + k] != before[2 + k] {
                        rep.violation(case, &format!("memory|{}", names[k]), &format!("memory was {} in case {}", names[k], case));
                    }
                }
                break;
            }
            if after[0] <= before[0] {
                grown = 0;
                break;
            }
            grown += 1;
        }
        if grown == 3 {
            rep.violation(case, "memory|lost", "memory isn't given back after all vectors were deleted");
        }
    }
    let m = memory(&libs[0]);
    rep.count("allocations", (m[1] - before_all[1]) as u64);
    for l in &libs {
        let n = l.used.borrow().len() as u64;
        rep.count(&format!("functions{}", l.bits), n);
    }
}
