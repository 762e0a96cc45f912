//! Data reorganisation and conversions between number spaces.
use crate::*;

/// Rotates so that the second part (of floor(n/2) points) comes first.
pub fn swap<T: Copy>(x: &[T], forward: bool) -> Vec<T> {
    let n = x.len();
    let first = if forward { n - n / 2 } else { n / 2 };
    let mut r = x[first..].to_vec();
    r.extend_from_slice(&x[..first]);
    r
}

pub fn pad<T: Copy>(x: &[T], zero: T, points: usize, option: usize) -> Vec<T> {
    let diff = points - x.len();
    match option {
        0 => {
            let mut r = x.to_vec();
            r.resize(points, zero);
            r
        }
        1 => {
            let left = diff - diff / 2;
            let mut r = vec![zero; left];
            r.extend_from_slice(x);
            r.resize(points, zero);
            r
        }
        _ => {
            let back = x.len() / 2;
            let front = x.len() - back;
            let mut r = x[..front].to_vec();
            r.resize(points - back, zero);
            r.extend_from_slice(&x[front..]);
            r
        }
    }
}

fn real_of(s: &Snap, d: Vec<f64>, tol: Vec<f64>) -> Want {
    Want {
        snap: Snap::new(d, false, s.fq, s.delta),
        tol,
    }
}

/// The part of a complex vector a getter or conversion delivers
fn part(s: &Snap, what: &str, eps: f64) -> Want {
    let (d, t): (Vec<f64>, Vec<f64>) = s
        .cs()
        .iter()
        .map(|z| match what {
            "real" => (z.re, 0.0),
            "imag" => (z.im, 0.0),
            "magnitude" => (z.norm(), 8.0 * eps * z.norm()),
            "magnitude_squared" => (z.norm_sqr(), 8.0 * eps * z.norm_sqr()),
            _ => (z.arg(), 8.0 * eps * (1.0 + z.arg().abs())),
        })
        .unzip();
    real_of(s, d, t)
}

pub fn expect(s: &Snap, op: &Op, eps: f64) -> Option<Exp> {
    let u = &op.u;
    let zero = C64::new(0.0, 0.0);
    let c = s.cs();
    let n = s.points();
    Some(match op.name {
        "reverse" => {
            let mut c = c;
            c.reverse();
            Good::exact(s.with_c(&c))
        }
        "swap_halves" => Good::exact(s.with_c(&swap(&c, true))),
        "fft_shift" | "ifft_shift" => {
            if !s.cx || !s.fq {
                return Some(Exp::Invalid);
            }
            Good::exact(s.with_c(&swap(&c, op.name == "fft_shift")))
        }
        "mirror" => {
            if !s.cx || !s.fq {
                return Some(Exp::Invalid);
            }
            let mut r = c.clone();
            for i in (1..n).rev() {
                r.push(c[i].conj());
            }
            Good::exact(s.with_c(&r))
        }
        "zero_pad" | "zero_pad_b" => {
            if u[0] < n {
                return Some(Exp::Err(&["InvalidArgumentLength"]));
            }
            if u[0] == n {
                return Some(Exp::Unspec);
            }
            Good::exact(s.with_c(&pad(&c, zero, u[0], u[1])))
        }
        "zero_interleave" | "zero_interleave_b" => {
            let k = u[0].max(1);
            let mut r = vec![zero; n * k];
            for i in 0..n {
                r[i * k] = c[i];
            }
            Good::exact(s.with_c(&r))
        }
        "resize" | "resize_b" => {
            if s.cx && u[0] % 2 != 0 {
                return Some(Exp::Err(&["InputMustHaveAnEvenLength"]));
            }
            if u[0] > s.d.len() {
                // The new elements aren't specified
                let mut d = s.d.clone();
                d.resize(u[0], 0.0);
                let mut t = vec![0.0; s.d.len()];
                t.resize(u[0], f64::INFINITY);
                return Some(Good::tols(s.with(d), t));
            }
            Good::exact(s.with(s.d[..u[0]].to_vec()))
        }
        "split_into" => {
            let k = u[0];
            if k == 0 || n % k != 0 {
                return Some(Exp::Err(&["InvalidArgumentLength"]));
            }
            let extra = (0..k)
                .map(|j| {
                    let p: Vec<C64> = c.iter().cloned().skip(j).step_by(k).collect();
                    Want::exact(s.with_c(&p))
                })
                .collect();
            Good::extras(s, extra)
        }
        "merge" => {
            let a = &op.args;
            if a.is_empty() {
                return Some(Exp::Err(&["InvalidArgumentLength"]));
            }
            if a.iter().any(|x| x.d.len() != a[0].d.len()) {
                return Some(Exp::Err(&["InvalidArgumentLength"]));
            }
            if a.iter().any(|x| x.cx != s.cx) {
                return Some(Exp::Unspec);
            }
            let m = a[0].points();
            let mut r = vec![];
            for i in 0..m {
                for x in a {
                    r.push(x.c(i));
                }
            }
            Good::exact(s.with_c(&r))
        }
        "to_complex" | "to_complex_b" => {
            if s.cx {
                return Some(if op.name == "to_complex" {
                    Exp::Err(&["InputMustBeReal"])
                } else {
                    Exp::Invalid
                });
            }
            let mut r = s.clone();
            r.cx = true;
            r.d = flat(&c);
            Good::exact(r)
        }
        "magnitude" | "magnitude_squared" | "to_real" | "to_imag" | "phase" | "magnitude_b"
        | "magnitude_squared_b" | "to_real_b" | "to_imag_b" | "phase_b" => {
            if !s.cx {
                return Some(Exp::Invalid);
            }
            let w = op.name.trim_end_matches("_b").trim_start_matches("to_");
            Exp::Ok(Good::of(part(s, w, eps)))
        }
        "get_real" | "get_imag" | "get_magnitude" | "get_magnitude_squared" | "get_phase" => {
            if !s.cx || op.args[0].cx {
                let mut e = Want::exact(op.args[0].with(vec![]));
                e.snap.delta = f64::NAN;
                return Some(Good::extras(s, vec![e]));
            }
            Good::extras(s, vec![part(s, &op.name[4..], eps)])
        }
        "get_real_imag" | "get_mag_phase" => {
            let bad = !s.cx || op.args[0].cx || op.args[1].cx;
            let (a, b) = if op.name == "get_real_imag" {
                ("real", "imag")
            } else {
                ("magnitude", "phase")
            };
            let mut e: Vec<Want> = if bad {
                op.args.iter().map(|x| Want::exact(x.with(vec![]))).collect()
            } else {
                vec![part(s, a, eps), part(s, b, eps)]
            };
            for x in &mut e {
                x.snap.delta = f64::NAN;
            }
            Good::extras(s, e)
        }
        "set_real_imag" | "set_mag_phase" => {
            let (a, b) = (&op.args[0], &op.args[1]);
            if a.d.len() != b.d.len() {
                return Some(Exp::Err(&["InvalidArgumentLength"]));
            }
            if !s.cx {
                return Some(Exp::Invalid);
            }
            if a.cx || b.cx {
                return Some(Exp::Unspec);
            }
            let mut z = vec![];
            let mut t = vec![];
            for i in 0..a.d.len() {
                if op.name == "set_real_imag" {
                    z.push(C64::new(a.d[i], b.d[i]));
                    t.extend_from_slice(&[0.0, 0.0]);
                } else {
                    z.push(C64::from_polar(a.d[i], b.d[i]));
                    let e = eps * a.d[i].abs() * (8.0 + 4.0 * b.d[i].abs());
                    t.extend_from_slice(&[e, e]);
                }
            }
            Good::tols(s.with(flat(&z)), t)
        }
        _ => return None,
    })
}
