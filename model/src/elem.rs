//! Element-wise operations.
use crate::*;

fn rel(s: &Snap, eps: f64, f: impl Fn(f64) -> f64) -> Exp {
    // Backward error: the result may be the exact one for an argument which is a few ulp off.
    let mut d = Vec::with_capacity(s.d.len());
    let mut t = Vec::with_capacity(s.d.len());
    for &x in &s.d {
        let y = f(x);
        let a = f(x * (1.0 + 8.0 * eps));
        let b = f(x * (1.0 - 8.0 * eps));
        let mut tol = 16.0 * eps * y.abs();
        for z in [a, b] {
            let e = (z - y).abs();
            if e.is_finite() && e > tol {
                tol = e;
            }
        }
        d.push(y);
        t.push(tol + 4.0 * eps * y.abs() + eps * 1e-30);
    }
    Good::tols(s.with(d), t)
}
/// Complex functions have an error relative to the magnitude of the largest intermediate
fn crel(s: &Snap, eps: f64, k: f64, f: impl Fn(C64) -> C64) -> Exp {
    let mut d = Vec::with_capacity(s.points());
    let mut t = Vec::with_capacity(s.d.len());
    for x in s.cs() {
        let y = f(x);
        let h = 8.0 * eps;
        let mut tol = 0.0f64;
        for dz in [
            C64::new(x.norm() * h, 0.0),
            C64::new(-x.norm() * h, 0.0),
            C64::new(0.0, x.norm() * h),
            C64::new(0.0, -x.norm() * h),
        ] {
            let e = (f(x + dz) - y).norm();
            if e.is_finite() && e > tol {
                tol = e;
            }
        }
        let tol = 2.0 * tol + k * eps * (1.0 + y.norm() + x.norm());
        d.push(y);
        t.push(tol);
        t.push(tol);
    }
    Good::tols(s.with(flat(&d)), t)
}

fn binary(s: &Snap, a: &Snap, eps: f64, kind: &str, smaller: bool) -> Exp {
    if smaller {
        if a.d.is_empty() {
            return if s.d.is_empty() {
                Exp::Unspec
            } else {
                Exp::Err(&["InvalidArgumentLength"])
            };
        }
        if s.d.len() % a.d.len() != 0 {
            return Exp::Err(&["InvalidArgumentLength", "InputMetaDataMustAgree"]);
        }
    } else if s.d.len() != a.d.len() {
        return Exp::Err(&["InputMustHaveTheSameSize", "InputMetaDataMustAgree"]);
    }
    match meta_agree(s, a) {
        Some(true) => (),
        Some(false) => return Exp::Err(&["InputMetaDataMustAgree"]),
        None => return Exp::Unspec,
    }
    let n = a.d.len().max(1);
    let mut d = Vec::with_capacity(s.d.len());
    let mut t = Vec::with_capacity(s.d.len());
    if s.cx && (kind == "mul" || kind == "div") {
        let m = a.points().max(1);
        for i in 0..s.points() {
            let (x, y) = (s.c(i), a.c(i % m));
            let z = if kind == "mul" { x * y } else { x / y };
            let tol = if kind == "mul" {
                8.0 * eps * x.norm() * y.norm()
            } else {
                16.0 * eps * x.norm() / y.norm()
            };
            d.push(z.re);
            d.push(z.im);
            t.push(tol);
            t.push(tol);
        }
    } else {
        for i in 0..s.d.len() {
            let (x, y) = (s.d[i], a.d[i % n]);
            let z = match kind {
                "add" => x + y,
                "sub" => x - y,
                "mul" => x * y,
                _ => x / y,
            };
            d.push(z);
            t.push(2.0 * eps * z.abs());
        }
    }
    Good::tols(s.with(d), t)
}

pub fn expect(s: &Snap, op: &Op, eps: f64) -> Option<Exp> {
    let f = &op.f;
    let real_only = |e: &dyn Fn() -> Exp| if s.cx { Exp::Invalid } else { e() };
    let cx_only = |e: &dyn Fn() -> Exp| if s.cx { e() } else { Exp::Invalid };
    let k = 200.0;
    macro_rules! trig {
        ($r: expr, $c: expr) => {
            if s.cx {
                crel(s, eps, k, $c)
            } else {
                rel(s, eps, $r)
            }
        };
    }
    let i = C64::new(0.0, 1.0);
    let one = C64::new(1.0, 0.0);
    Some(match op.name {
        "add" | "sub" | "mul" | "div" => binary(s, &op.args[0], eps, op.name, false),
        "add_smaller" | "sub_smaller" | "mul_smaller" | "div_smaller" => {
            binary(s, &op.args[0], eps, &op.name[..3], true)
        }
        "offset" => {
            let d: Vec<f64> =
                s.d.iter()
                    .enumerate()
                    .map(|(j, x)| if s.cx && j % 2 == 1 { *x } else { x + f[0] })
                    .collect();
            let t = d.iter().map(|x| 2.0 * eps * x.abs()).collect();
            Good::tols(s.with(d), t)
        }
        "scale" => {
            let d: Vec<f64> = s.d.iter().map(|x| x * f[0]).collect();
            let t = d.iter().map(|x| 2.0 * eps * x.abs()).collect();
            Good::tols(s.with(d), t)
        }
        "offset_c" => cx_only(&|| {
            let d: Vec<f64> = s.d.iter().enumerate().map(|(j, x)| x + f[j % 2]).collect();
            let t = d.iter().map(|x| 2.0 * eps * x.abs()).collect();
            Good::tols(s.with(d), t)
        }),
        "scale_c" => cx_only(&|| {
            let c = C64::new(f[0], f[1]);
            let z: Vec<C64> = s.cs().iter().map(|x| x * c).collect();
            let t = z
                .iter()
                .flat_map(|x| [8.0 * eps * x.norm(), 8.0 * eps * x.norm()])
                .collect();
            Good::tols(s.with(flat(&z)), t)
        }),
        "sin" => trig!(|x| x.sin(), |z| z.sin()),
        "cos" => trig!(|x| x.cos(), |z| z.cos()),
        "tan" => trig!(|x| x.tan(), |z| z.sin() / z.cos()),
        "sinh" => trig!(|x| x.sinh(), |z| (z.exp() - (-z).exp()) / 2.0),
        "cosh" => trig!(|x| x.cosh(), |z| (z.exp() + (-z).exp()) / 2.0),
        "tanh" => trig!(|x| x.tanh(), |z| {
            let (a, b) = (z.exp(), (-z).exp());
            (a - b) / (a + b)
        }),
        "asin" => trig!(|x| x.asin(), |z| -i * ((one - z * z).sqrt() + i * z).ln()),
        "acos" => trig!(|x| x.acos(), |z| -i * (i * (one - z * z).sqrt() + z).ln()),
        "atan" => trig!(|x| x.atan(), |z| {
            if z == i || z == -i {
                return C64::new(0.0, z.im * f64::INFINITY);
            }
            ((one + i * z).ln() - (one - i * z).ln()) / (2.0 * i)
        }),
        "asinh" => trig!(|x| x.asinh(), |z| (z + (one + z * z).sqrt()).ln()),
        "acosh" => trig!(|x| x.acosh(), |z| 2.0
            * (((z + one) / 2.0).sqrt() + ((z - one) / 2.0).sqrt()).ln()),
        "atanh" => trig!(|x| x.atanh(), |z| ((one + z).ln() - (one - z).ln()) / 2.0),
        "sqrt" => trig!(|x| x.sqrt(), |z| z.sqrt()),
        "square" => trig!(|x| x * x, |z| z * z),
        "root" => trig!(|x| x.powf(1.0 / f[0]), |z| z.powf(1.0 / f[0])),
        "powf" => trig!(|x| x.powf(f[0]), |z| z.powf(f[0])),
        "ln" => trig!(|x| x.ln(), |z| z.ln()),
        "exp" => trig!(|x| x.exp(), |z| z.exp()),
        "log" => trig!(|x| x.log(f[0]), |z| z.ln() / f[0].ln()),
        "expf" => {
            // sensitivity to the base as well
            if s.cx {
                crel(s, eps, k, |z| (z * f[0].ln()).exp())
            } else {
                rel(s, eps, |x| f[0].powf(x))
            }
        }
        "abs" => real_only(&|| {
            let d: Vec<f64> = s.d.iter().map(|x| x.abs()).collect();
            let t = d.iter().map(|x| 4.0 * eps * x.abs()).collect();
            Good::tols(s.with(d), t)
        }),
        "wrap" => real_only(&|| {
            let d: Vec<f64> = s.d.iter().map(|x| x % f[0]).collect();
            let t = d.iter().map(|x| 4.0 * eps * x.abs()).collect();
            Good::tols(s.with(d), t)
        }),
        // Every step becomes the smallest one which is congruent to the given one.
        "unwrap" => real_only(&|| {
            let p = f[0];
            let mut d = s.d.clone();
            let mut t = vec![0.0; d.len()];
            let mut err = 0.0;
            for j in 1..d.len() {
                let diff = d[j] - d[j - 1];
                let q = (diff / p).abs();
                // ties and near ties may go either way
                if ((q - q.floor()) - 0.5).abs() < 1e-3 && q > 0.4 {
                    return Exp::Unspec;
                }
                let r = diff - p * (diff / p).round();
                d[j] = d[j - 1] + r;
                err += 8.0 * eps * (s.d[j].abs() + d[j].abs() + p.abs());
                t[j] = err;
            }
            Good::tols(s.with(d), t)
        }),
        "conj" => cx_only(&|| {
            Good::exact(
                s.with(
                    s.d.iter()
                        .enumerate()
                        .map(|(j, x)| if j % 2 == 1 { -x } else { *x })
                        .collect(),
                ),
            )
        }),
        "multiply_complex_exponential" => cx_only(&|| {
            let mut d = vec![];
            let mut t = vec![];
            let n = s.points();
            for (j, x) in s.cs().iter().enumerate() {
                // The phase offset is scaled too: the existing tests require that
                let ph = (f[0] * j as f64 + f[1]) * s.delta;
                d.push(x * C64::from_polar(1.0, ph));
                // implementations iterate over the points
                let big = ((f[0] * j as f64).abs() + f[1].abs()) * s.delta.abs();
                let tol = x.norm() * eps * (20.0 + 8.0 * n as f64 + 4.0 * big);
                t.push(tol);
                t.push(tol);
            }
            Good::tols(s.with(flat(&d)), t)
        }),
        "map_inplace_r" => real_only(&|| {
            let d: Vec<f64> = s
                .d
                .iter()
                .enumerate()
                .map(|(j, x)| x + f[0] * op.fun.re((j % 17) as f64) + (j % 1024) as f64)
                .collect();
            let t = d.iter().map(|x| 4.0 * eps * x.abs()).collect();
            Good::tols(s.with(d), t)
        }),
        "map_inplace_c" => cx_only(&|| {
            let d: Vec<C64> = s
                .cs()
                .iter()
                .enumerate()
                .map(|(j, x)| {
                    C64::new(
                        x.im + f[0] * op.fun.re((j % 17) as f64),
                        x.re + (j % 1024) as f64,
                    )
                })
                .collect();
            let d = flat(&d);
            let t = d.iter().map(|x| 4.0 * eps * x.abs()).collect();
            Good::tols(s.with(d), t)
        }),
        "map_aggregate_r" | "map_aggregate_c" => {
            if s.cx != (op.name == "map_aggregate_c") {
                return Some(Exp::Err(&["InputMustBeReal", "InputMustBeComplex"]));
            }
            if s.d.is_empty() {
                return Some(Exp::Unspec);
            }
            let mut sc = vec![s.points() as f64];
            for (j, x) in s.cs().iter().enumerate() {
                sc.push(j as f64);
                sc.push(x.re + 3.0 * x.im);
                sc.push(1.0);
            }
            let t = sc.iter().map(|x| 1e-14 * x.abs()).collect();
            Good::scalars(s, sc, t)
        }
        "diff" | "diff_with_start" => {
            let st = s.step();
            let n = s.d.len();
            if n == 0 {
                return Some(if op.name == "diff" {
                    Exp::Unspec
                } else {
                    Good::exact(s.clone())
                });
            }
            let mut d: Vec<f64> = (st..n).map(|j| s.d[j] - s.d[j - st]).collect();
            let mut t: Vec<f64> = d.iter().map(|x| 2.0 * eps * x.abs()).collect();
            if op.name == "diff_with_start" {
                let mut h = s.d[..st].to_vec();
                h.append(&mut d);
                d = h;
                let mut h = vec![0.0; st];
                h.append(&mut t);
                t = h;
            }
            Good::tols(s.with(d), t)
        }
        "cum_sum" => {
            let st = s.step();
            let mut d = s.d.clone();
            let mut t = vec![0.0; d.len()];
            let mut mag = vec![0.0; st];
            for j in 0..d.len() {
                if j >= st {
                    d[j] += d[j - st];
                    mag[j % st] += d[j].abs();
                    t[j] = 2.0 * eps * mag[j % st];
                }
            }
            Good::tols(s.with(d), t)
        }
        "set_delta" => {
            let mut r = s.clone();
            r.delta = f[0];
            Good::exact(r)
        }
        // Documented accuracy of the approximations
        "ln_approx" | "exp_approx" | "sin_approx" | "cos_approx" | "log_approx" | "expf_approx"
        | "powf_approx" => real_only(&|| {
            let d: Vec<f64> = s
                .d
                .iter()
                .map(|&x| match op.name {
                    "ln_approx" => x.ln(),
                    "exp_approx" => x.exp(),
                    "sin_approx" => x.sin(),
                    "cos_approx" => x.cos(),
                    "log_approx" => x.ln() / f[0].ln(),
                    "expf_approx" => (f[0].ln() * x).exp(),
                    _ => (x.ln() * f[0]).exp(),
                })
                .collect();
            let t = d
                .iter()
                .map(|y| match op.name {
                    "sin_approx" | "cos_approx" => 1e-6,
                    // below 1 only the absolute error is bounded
                    "ln_approx" | "log_approx" => 0.01 * y.abs().max(0.02),
                    _ => 0.01 * y.abs(),
                })
                .collect();
            Good::tols(s.with(d), t)
        }),
        _ => return None,
    })
}
