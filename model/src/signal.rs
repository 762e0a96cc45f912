//! Transforms, windows, convolution, correlation and interpolation.
use crate::reorg::{pad, swap};
use crate::*;
use std::f64::consts::PI;

/// Unnormalised discrete Fourier transform in double precision.
pub fn dft(x: &[C64], inverse: bool) -> Vec<C64> {
    let n = x.len();
    if n <= 1 {
        return x.to_vec();
    }
    let sign = if inverse { 2.0 } else { -2.0 };
    let tw: Vec<C64> = (0..n)
        .map(|k| {
            let a = sign * PI * k as f64 / n as f64;
            C64::new(a.cos(), a.sin())
        })
        .collect();
    fn rec(x: &[C64], start: usize, stride: usize, n: usize, tw: &[C64]) -> Vec<C64> {
        let total = tw.len();
        if n == 1 {
            return vec![x[start]];
        }
        let mut p = 2;
        while n % p != 0 {
            p += 1;
            if p * p > n {
                p = n;
            }
        }
        let m = n / p;
        let parts: Vec<Vec<C64>> = (0..p)
            .map(|r| rec(x, start + r * stride, stride * p, m, tw))
            .collect();
        let base = total / n;
        (0..n)
            .map(|k| {
                let mut s = C64::new(0.0, 0.0);
                for (r, part) in parts.iter().enumerate() {
                    s += part[k % m] * tw[(r * k % n) * base];
                }
                s
            })
            .collect()
    }
    rec(x, 0, 1, n, &tw)
}

pub fn fft_tol(x: &[C64], eps: f64) -> f64 {
    let l2 = x.iter().map(|z| z.norm_sqr()).sum::<f64>().sqrt();
    // Prime lengths involve plain sums over all points
    let l1 = x.iter().map(|z| z.norm()).sum::<f64>();
    60.0 * eps * ((x.len() + 2) as f64).log2() * l2 + 0.5 * eps * x.len() as f64 * l1
}

pub fn window(op: &Op, n: usize, len: usize) -> f64 {
    let (i, l) = (n as f64, len as f64);
    match op.u.first().cloned().unwrap_or(0) {
        0 => 1.0 - ((i - (l - 1.0) / 2.0) / (l / 2.0)).abs(),
        1 => 0.54 - 0.46 * (2.0 * PI * i / (l - 1.0)).cos(),
        2 => {
            let a = 2.0 * PI * i / (l - 1.0);
            0.35875 - 0.48829 * a.cos() + 0.14128 * (2.0 * a).cos() - 0.01168 * (3.0 * a).cos()
        }
        3 => 1.0,
        _ => fun_window(&op.fun, n, len),
    }
}

fn apply_window(s: &Snap, op: &Op, eps: f64, undo: bool) -> (Snap, Vec<f64>) {
    let n = s.points();
    let mut t = vec![];
    let c: Vec<C64> = s
        .cs()
        .iter()
        .enumerate()
        .map(|(i, z)| {
            let w = window(op, i, n);
            // error of the window itself
            let we = 50.0 * eps;
            let (y, e) = if undo {
                (z / w, z.norm() / w * (we / w.abs() + 8.0 * eps))
            } else {
                (z * w, z.norm() * we)
            };
            for _ in 0..s.step() {
                t.push(e);
            }
            y
        })
        .collect();
    (s.with_c(&c), t)
}

fn impulse(op: &Op, idx: usize) -> Fun {
    let mut f = op.fun;
    match op.u.get(idx).cloned().unwrap_or(0) {
        1 => f.kind = 5,
        2 => f.kind = 6,
        _ => return f,
    }
    f.sym = true;
    f
}
fn frequency(op: &Op, idx: usize) -> Fun {
    let mut f = op.fun;
    match op.u.get(idx).cloned().unwrap_or(0) {
        1 => f.kind = 7,
        2 => f.kind = 8,
        _ => return f,
    }
    f.sym = true;
    f
}
/// Sensitivity of a response to the rounding of its argument and its own rounding error
fn wobble(f: &Fun, x: f64, eps: f64) -> f64 {
    let y = f.c(x);
    let h = 16.0 * eps * x.abs();
    let mut e = (f.c(x + h) - y).norm().max((f.c(x - h) - y).norm());
    if f.kind == 5 {
        // The library evaluates a 0/0 like expression here
        let q = (1.0 - (2.0 * f.p[0] * x).powi(2)).abs();
        e += (16.0 * eps * (1.0 + x.abs()) / q.max(eps)).min(2e-2);
    }
    if f.kind == 7 && y.norm() < 1.0 {
        // One plus a cosine
        e += 4.0 * eps;
    }
    // The function returns a value of the number type, which may underflow
    let least = if eps > 1e-10 { 3e-45 } else { 1e-323 };
    e + 8.0 * eps * y.norm() + least
}

fn conv_signal(x: &[C64], h: &[C64]) -> Vec<C64> {
    let (n, p) = (x.len() as isize, h.len());
    let off = ((p + 1) / 2) as isize - 1;
    (0..n)
        .map(|i| {
            let mut s = C64::new(0.0, 0.0);
            for (k, hk) in h.iter().enumerate() {
                s += x[(i + off - k as isize).rem_euclid(n) as usize] * hk;
            }
            s
        })
        .collect()
}
fn cmax(x: &[C64]) -> f64 {
    x.iter().map(|z| z.norm()).fold(0.0, f64::max)
}

/// out[i] = sum of x[m] h((i - m) ratio) for |i - m| <= len
fn conv_fun(s: &Snap, f: &Fun, ratio: f64, len: usize, eps: f64, complex: bool) -> Exp {
    let x = s.cs();
    let n = x.len();
    let l = len.min(n) as isize;
    let mut h = vec![];
    let mut wob = 0.0;
    let mut sum_h = 0.0;
    for d in -l..=l {
        let a = d as f64 * ratio;
        let v = if complex { f.c(a) } else { C64::new(f.re(a), 0.0) };
        wob += wobble(f, a, eps);
        sum_h += v.norm();
        h.push(v);
    }
    let out: Vec<C64> = (0..n as isize)
        .map(|i| {
            let mut z = C64::new(0.0, 0.0);
            for d in -l..=l {
                z += x[(i - d).rem_euclid(n as isize) as usize] * h[(d + l) as usize];
            }
            z
        })
        .collect();
    let tol = cmax(&x) * (wob + eps * sum_h * (16.0 + 2.0 * l as f64));
    Good::tol(s.with_c(&out), tol)
}

fn fft_parts(s: &Snap, inverse: bool, eps: f64) -> (Vec<C64>, f64) {
    let x = s.cs();
    (dft(&x, inverse), fft_tol(&x, eps))
}

fn complex_snap(_s: &Snap, c: &[C64], fq: bool, delta: f64) -> Snap {
    Snap::new(flat(c), true, fq, delta)
}

/// Argument of a response in interpolations: position of a bin of an unshifted spectrum
/// relative to the Nyquist frequency
fn bin_x(i: usize, n: usize) -> f64 {
    let max = ((n - n % 2) / 2) as f64;
    if i as f64 <= max {
        i as f64 / max
    } else {
        (i as f64 - n as f64) / max
    }
}
/// Multiplies with `scale * f(x * scale)`; the result is the spectrum and the permitted absolute
/// error of the inverse transform.
fn shape(y: &mut [C64], f: &Fun, scale: f64, eps: f64) -> f64 {
    let n = y.len();
    let max = ((n - n % 2) / 2) as f64;
    let mut t = 0.0;
    for (i, z) in y.iter_mut().enumerate() {
        let x = bin_x(i, n) * scale;
        let v = f.re(x);
        let mut e = wobble(f, x, eps);
        if n % 2 == 1 {
            // An odd number of points has no bin at the Nyquist frequency and the scale of the
            // axis is a matter of convention: allow for one bin
            let d = scale / max;
            e += (-4..=4).map(|i| (f.re(x + d * i as f64 / 4.0) - v).abs()).fold(0.0, f64::max);
        }
        t += z.norm() * scale * e;
        *z = *z * scale * v;
    }
    t
}

pub fn expect(s: &Snap, op: &Op, eps: f64) -> Option<Exp> {
    let n = s.points();
    let (u, f) = (&op.u, &op.f);
    let nan = f64::NAN;
    let freq_delta = n as f64 * s.delta;
    Some(match op.name {
        "apply_window" | "unapply_window" => {
            if s.fq || n < 2 {
                return Some(Exp::Unspec);
            }
            let (r, t) = apply_window(s, op, eps, op.name == "unapply_window");
            Good::tols(r, t)
        }
        "plain_fft" | "fft" | "windowed_fft" => {
            if s.fq {
                return Some(Exp::Invalid);
            }
            if n == 0 {
                return Some(Good::exact(complex_snap(s, &[], true, nan)));
            }
            let mut a = s.clone();
            let mut wt = 0.0;
            if op.name == "windowed_fft" {
                if n < 2 {
                    return Some(Exp::Unspec);
                }
                let (r, t) = apply_window(s, op, eps, false);
                a = r;
                wt = t.iter().sum::<f64>();
            }
            let (mut y, t) = fft_parts(&a, false, eps);
            if op.name != "plain_fft" {
                y = swap(&y, true);
            }
            Good::tol(complex_snap(s, &y, true, freq_delta), t + wt)
        }
        "plain_ifft" | "ifft" | "windowed_ifft" => {
            if !s.fq {
                return Some(Exp::Invalid);
            }
            if n == 0 {
                return Some(if s.cx {
                    Good::exact(complex_snap(s, &[], false, nan))
                } else {
                    Exp::Unspec
                });
            }
            if !s.cx {
                return Some(Exp::Unspec);
            }
            if op.name == "plain_ifft" {
                let (y, t) = fft_parts(s, true, eps);
                return Some(Good::tol(complex_snap(s, &y, false, freq_delta), t));
            }
            let x = swap(&s.cs(), false);
            let k = 1.0 / n as f64;
            let t = fft_tol(&x, eps) * k;
            let y: Vec<C64> = dft(&x, true).iter().map(|z| z * k).collect();
            let r = complex_snap(s, &y, false, freq_delta);
            if op.name == "ifft" {
                return Some(Good::tol(r, t));
            }
            if n < 2 {
                return Some(Exp::Unspec);
            }
            let (q, mut wt) = apply_window(&r, op, eps, true);
            for (i, e) in wt.iter_mut().enumerate() {
                *e += 1.1 * t / window(op, i / 2, n).abs().max(100.0 * eps);
            }
            Good::tols(q, wt)
        }
        "plain_sfft" | "sfft" | "windowed_sfft" => {
            if s.fq || s.cx {
                return Some(Exp::Err(&["InputMustBeInTimeDomain", "InputMustBeReal"]));
            }
            if n % 2 == 0 {
                return Some(Exp::Err(&["InputMustHaveAnOddLength"]));
            }
            let mut a = s.clone();
            let mut wt = 0.0;
            if op.name == "windowed_sfft" {
                if n < 2 {
                    return Some(Exp::Unspec);
                }
                let (r, t) = apply_window(s, op, eps, false);
                a = r;
                wt = t.iter().sum::<f64>();
            }
            let (y, t) = fft_parts(&a, false, eps);
            Good::tol(complex_snap(s, &y[..n / 2 + 1], true, nan), t + wt)
        }
        "plain_sifft" | "sifft" | "windowed_sifft" => {
            if !s.fq || !s.cx {
                return Some(Exp::Err(&["InputMustBeInFrequencyDomain", "InputMustBeComplex"]));
            }
            if n == 0 {
                return Some(Exp::Unspec);
            }
            let dc = s.d[1].abs();
            if dc > 1e-3 {
                return Some(Exp::Err(&["InputMustBeConjSymmetric"]));
            } else if dc != 0.0 {
                return Some(Exp::Unspec);
            }
            let mut x = s.cs();
            for i in (1..n).rev() {
                x.push(s.c(i).conj());
            }
            let m = 2 * n - 1;
            let k = if op.name == "plain_sifft" { 1.0 } else { 1.0 / m as f64 };
            let t = fft_tol(&x, eps) * k;
            let y: Vec<f64> = dft(&x, true).iter().map(|z| z.re * k).collect();
            let r = Snap::new(y, false, false, nan);
            if op.name != "windowed_sifft" {
                return Some(Good::tol(r, t));
            }
            if m < 2 {
                return Some(Exp::Unspec);
            }
            let (q, mut wt) = apply_window(&r, op, eps, true);
            for (i, e) in wt.iter_mut().enumerate() {
                *e += 1.1 * t / window(op, i, m).abs().max(100.0 * eps);
            }
            Good::tols(q, wt)
        }
        "prepare_argument" | "prepare_argument_padded" => {
            if s.fq {
                return Some(Exp::Invalid);
            }
            if !s.cx || n == 0 {
                return Some(Exp::Unspec);
            }
            let mut x = s.cs();
            if op.name != "prepare_argument" && n > 1 {
                x = pad(&x, C64::new(0.0, 0.0), 2 * n - 1, 1);
            }
            let y: Vec<C64> = dft(&x, false).iter().map(|z| z.conj()).collect();
            Good::tol(complex_snap(s, &y, true, nan), fft_tol(&x, eps))
        }
        // args[0]: time domain signal which is prepared (u = 0 or 1), or the prepared one
        "correlate" => {
            let a = &op.args[0];
            // prepare_argument works for real signals, too
            let fits = a.cx || u[0] != 2;
            if (!s.cx || s.fq || !fits || a.fq != (u[0] == 2)) && n > 0 && !a.d.is_empty() {
                return Some(Exp::Err(&[
                    "InputMustBeInTimeDomain", "InputMustBeComplex", "InputMustBeInFrequencyDomain",
                    "InputMetaDataMustAgree", "InvalidArgumentLength",
                ]));
            }
            let m = a.points();
            let p = if u[0] != 1 { m } else { (2 * m).max(1) - 1 };
            if !s.cx || !a.cx || n == 0 || m == 0 {
                return Some(Exp::Unspec);
            }
            if p < n {
                return Some(Exp::Err(&["InvalidArgumentLength"]));
            }
            let zero = C64::new(0.0, 0.0);
            let x = if p > n { pad(&s.cs(), zero, p, 1) } else { s.cs() };
            let fx = dft(&x, false);
            // An argument which is passed as it is has been transformed and conjugated by the caller
            let (y, fy) = if u[0] == 2 {
                let fy: Vec<C64> = a.cs().iter().map(|z| z.conj()).collect();
                let k = 1.0 / p as f64;
                (dft(&fy, true).iter().map(|z| z * k).collect(), fy)
            } else {
                let y = if p > m { pad(&a.cs(), zero, p, 1) } else { a.cs() };
                let fy = dft(&y, false);
                (y, fy)
            };
            let z: Vec<C64> = fx.iter().zip(&fy).map(|(a, b)| a * b.conj()).collect();
            let k = 1.0 / p as f64;
            let c: Vec<C64> = dft(&z, true).iter().map(|z| z * k).collect();
            let l = |v: &[C64]| v.iter().map(|z| z.norm_sqr()).sum::<f64>().sqrt();
            let t = 80.0 * eps * ((p + 2) as f64).log2() * l(&x) * l(&y);
            Good::tol(complex_snap(s, &swap(&c, true), false, s.delta), t)
        }
        "convolve_signal" => {
            let a = &op.args[0];
            match meta_agree(s, a) {
                Some(true) => (),
                Some(false) => {
                    return Some(Exp::Err(&["InputMetaDataMustAgree", "InputMustBeInTimeDomain"]))
                }
                None => return Some(Exp::Unspec),
            }
            if s.fq {
                return Some(Exp::Err(&["InputMustBeInTimeDomain"]));
            }
            if n < a.points() {
                return Some(Exp::Err(&["InvalidArgumentLength"]));
            }
            if a.points() == 0 {
                return Some(Exp::Unspec);
            }
            let (x, h) = (s.cs(), a.cs());
            let y = conv_signal(&x, &h);
            let p = h.len() as f64;
            let l1: f64 = h.iter().map(|z| z.norm()).sum();
            let l2 = h.iter().map(|z| z.norm_sqr()).sum::<f64>().sqrt();
            let mut t = eps * cmax(&x) * l1 * (8.0 + p);
            if s.cx && s.d.len() > 5000 && p > 4.0 {
                // block wise evaluation in frequency domain
                let b = 16.0 * p;
                t += 60.0 * eps * b.log2() * cmax(&x) * b.sqrt() * l2;
            }
            Good::tol(s.with_c(&y), t)
        }
        "convolve" => {
            if s.fq {
                return Some(Exp::Invalid);
            }
            if n == 0 {
                return Some(Exp::Unspec);
            }
            conv_fun(s, &impulse(op, 1), f[0], u[0], eps, false)
        }
        "convolve_c" => {
            if s.fq || !s.cx {
                return Some(Exp::Invalid);
            }
            if n == 0 {
                return Some(Exp::Unspec);
            }
            conv_fun(s, &op.fun, f[0], u[0], eps, true)
        }
        "multiply_frequency_response" | "multiply_frequency_response_c" => {
            let cplx = op.name.ends_with("_c");
            if !s.fq || (cplx && !s.cx) {
                return Some(Exp::Invalid);
            }
            if n < 2 {
                return Some(Exp::Unspec);
            }
            let fun = if cplx { op.fun } else { frequency(op, 0) };
            let max = ((n - n % 2) / 2) as f64;
            let mut t = vec![];
            let c: Vec<C64> = s
                .cs()
                .iter()
                .enumerate()
                .map(|(i, z)| {
                    let x = (i as f64 - max) / max * f[0];
                    let v = if cplx { fun.c(x) } else { C64::new(fun.re(x), 0.0) };
                    let e = z.norm() * f[0].abs() * wobble(&fun, x, eps) * 2.0;
                    for _ in 0..s.step() {
                        t.push(e);
                    }
                    z * v * f[0]
                })
                .collect();
            Good::tols(s.with_c(&c), t)
        }
        "interpolatei" => {
            let k = u[0];
            if k <= 1 {
                return Some(Good::exact(s.clone()));
            }
            let fun = frequency(op, 1);
            if !fun.sym && !s.cx {
                return Some(Exp::Err(&["ArgumentFunctionMustBeSymmetric"]));
            }
            if n == 0 {
                return Some(Exp::Unspec);
            }
            let x = dft(&s.cs(), false);
            let m = n * k;
            let mut y: Vec<C64> = (0..m).map(|i| x[i % n]).collect();
            let e = shape(&mut y, &fun, k as f64, eps);
            let g = 1.0 / m as f64;
            let r: Vec<C64> = dft(&y, true).iter().map(|z| z * g).collect();
            let fm = (0..=64).map(|i| fun.re(i as f64 / 64.0 * k as f64).abs()).fold(0.0, f64::max);
            let l2 = s.cs().iter().map(|z| z.norm_sqr()).sum::<f64>().sqrt();
            let t = e * g + 80.0 * eps * ((m + 2) as f64).log2() * l2 * (1.0 + fm) * k as f64;
            let mut r = s.with_c(&r);
            r.delta = nan;
            Good::tol(r, t)
        }
        "interpolate" | "interpft" => {
            let m = u[0];
            let none = op.name == "interpft" || u[1] == 9;
            let fun = frequency(op, 1);
            if !none && !fun.sym && !s.cx {
                return Some(Exp::Err(&["ArgumentFunctionMustBeSymmetric"]));
            }
            if n == 0 || m == 0 {
                return Some(Exp::Unspec);
            }
            let delay = if op.name == "interpft" { 0.0 } else { f[0] / s.delta };
            let mut x = dft(&s.cs(), false);
            let mut e = 0.0;
            if delay != 0.0 {
                for (k, z) in x.iter_mut().enumerate() {
                    let kk = if 2 * k < n { k as f64 } else { k as f64 - n as f64 };
                    let ph = 2.0 * PI * kk * delay / n as f64;
                    // iterated multiplication
                    e += z.norm() * eps * (20.0 + 8.0 * n as f64 + 8.0 * ph.abs());
                    if 2 * k == n && (delay - delay.round()).abs() > 1e-9 {
                        // No convention for a fractional shift of the Nyquist frequency
                        e += 2.0 * z.norm();
                    }
                    *z = *z * C64::from_polar(1.0, ph);
                }
            }
            let scale = m as f64 / n as f64;
            let mut y;
            if m > n {
                y = pad(&x, C64::new(0.0, 0.0), m, 2);
                if none {
                    for z in &mut y {
                        *z = *z * scale;
                    }
                    e *= scale;
                } else {
                    let fm = (0..=64).map(|i| fun.re(i as f64 / 64.0 * 1.1).abs()).fold(0.0, f64::max);
                    e *= scale * (fm + 0.1);
                    e += shape(&mut y, &fun, scale, eps);
                }
            } else if m < n {
                let neg = m / 2;
                y = x[..m - neg].to_vec();
                y.extend_from_slice(&x[n - neg..]);
                for z in &mut y {
                    *z = *z * scale;
                }
                e *= scale;
            } else {
                y = x;
            }
            let g = 1.0 / m as f64;
            let r: Vec<C64> = dft(&y, true).iter().map(|z| z * g).collect();
            let l2 = s.cs().iter().map(|z| z.norm_sqr()).sum::<f64>().sqrt();
            let fm = if none {
                1.0
            } else {
                1.0 + (0..=64).map(|i| fun.re(i as f64 / 64.0 * scale).abs()).fold(0.0, f64::max)
            };
            let t = e * g + 80.0 * eps * ((m + n + 2) as f64).log2() * l2 * fm * scale.max(1.0);
            let mut r = s.with_c(&r);
            r.delta = s.delta / scale;
            Good::tol(r, t)
        }
        "decimatei" => {
            if u[0] == 0 {
                return Some(Exp::Unspec);
            }
            let c: Vec<C64> = s.cs().into_iter().skip(u[1]).step_by(u[0]).collect();
            let mut r = s.with_c(&c);
            r.delta = nan;
            Good::exact(r)
        }
        "interpolatef" => {
            if n == 0 {
                return Some(Exp::Unspec);
            }
            let (k, delay) = (f[0], f[1] / s.delta);
            let fun = impulse(op, 1);
            let l = u[0].min(n / 2) as isize;
            let mut len = (s.d.len() as f64 * k).round() as usize;
            len += len % 2;
            let x = s.cs();
            let m = len / s.step();
            let xm = cmax(&x);
            let mut tol = vec![];
            let mut out = vec![];
            for i in 0..m {
                let t = i as f64 / k;
                // When t is so close to an integer that rounding decides about the window then
                // both windows are fine
                let fl = (t + 1e-9).floor() as isize;
                let mut z = C64::new(0.0, 0.0);
                let mut w = 0.0;
                let mut hs = 0.0;
                for j in fl - l..=fl + l {
                    let a = j as f64 - t + delay;
                    let h = fun.re(a);
                    w += wobble(&fun, a, eps) + 3.0 * fun.slope() * eps * (t + j.abs() as f64);
                    hs += h.abs();
                    z += x[j.rem_euclid(n as isize) as usize] * h;
                }
                let edge = [fl - l - 1, fl - l, fl + l, fl + l + 1]
                    .iter()
                    // (both directions of the delay, see the known finding)
                    .map(|&j| fun.re(j as f64 - t + delay).abs().max(fun.re(j as f64 - t - delay).abs()))
                    .fold(0.0, f64::max);
                let e = xm * (w + eps * hs * (16.0 + 2.0 * l as f64) + 2.0 * edge);
                out.push(z);
                for _ in 0..s.step() {
                    tol.push(e);
                }
            }
            let mut r = s.with_c(&out);
            r.delta = nan;
            Good::tols(r, tol)
        }
        "interpolate_lin" | "interpolate_hermite" => {
            if s.cx {
                return Some(Exp::Invalid);
            }
            let (k, delay) = (f[0], f[1]);
            if n == 0 {
                return Some(Exp::Unspec);
            }
            let lin = op.name == "interpolate_lin";
            let min = if lin { 1 } else { 4 };
            if n < min || k < 1.0 || delay < 0.0 || delay >= 1.0 {
                return Some(Exp::Unspec);
            }
            let m = ((n - 1) as f64 * k).round() as usize + 1;
            let d = &s.d;
            let ext = |j: isize| -> f64 {
                if j < 0 {
                    2.0 * d[0] - d[1]
                } else if j as usize >= n {
                    // linear continuation
                    let over = (j as usize - (n - 1)) as f64;
                    d[n - 1] + over * (d[n - 1] - d[n - 2])
                } else {
                    d[j as usize]
                }
            };
            let mx = max_abs(d);
            let mut out = vec![];
            let mut tol = vec![];
            for i in 0..m {
                let t = i as f64 / k + delay;
                let mut e = eps * mx * (40.0 + 16.0 * t);
                // close to the end of the data and beyond there is no documented behaviour
                if t > (n - 1) as f64 - if lin { 1e-6 } else { 1.0 - 1e-6 } || (!lin && t < 1.0) {
                    e = if delay == 0.0 { e } else { f64::INFINITY };
                }
                let fl = (t + 1e-9).floor();
                let b = fl as isize;
                let x = t - fl;
                let y = if n == 1 {
                    d[0]
                } else if lin {
                    ext(b) + (ext(b + 1) - ext(b)) * x
                } else {
                    let (y0, y1, y2, y3) = (ext(b - 1), ext(b), ext(b + 1), ext(b + 2));
                    let a0 = -0.5 * y0 + 1.5 * y1 - 1.5 * y2 + 0.5 * y3;
                    let a1 = y0 - 2.5 * y1 + 2.0 * y2 - 0.5 * y3;
                    let a2 = -0.5 * y0 + 0.5 * y2;
                    a0 * x * x * x + a1 * x * x + a2 * x + y1
                };
                out.push(y);
                tol.push(e);
            }
            if lin && m > 0 {
                // the last point is the last point of the input
                out[m - 1] = d[n - 1];
                if ((m - 1) as f64 / k - (n - 1) as f64).abs() > 1e-9 || delay != 0.0 {
                    tol[m - 1] = f64::INFINITY;
                }
            }
            let mut r = s.with(out);
            r.delta = nan;
            Good::tols(r, tol)
        }
        _ => return None,
    })
}
