//! Statistics, sums and dot products.
use crate::*;
use std::rc::Rc;

pub const STAT_R: usize = 8;
pub const STAT_C: usize = 13;

/// Sum with the error bound of any summation order
fn sum(x: &[f64]) -> (f64, f64) {
    // double-double accumulation
    let (mut hi, mut lo, mut mag) = (0.0f64, 0.0f64, 0.0f64);
    for &v in x {
        let t = hi + v;
        let z = t - hi;
        lo += (hi - (t - z)) + (v - z);
        hi = t;
        mag += v.abs();
    }
    (hi + lo, mag)
}

pub fn exact_sum(x: &[f64]) -> (f64, f64) {
    sum(x)
}

pub type Post = Rc<dyn Fn(&[f64]) -> Result<(), String>>;

/// True if the sum of the squares is in the range of the number type
fn squares(largest: f64, eps: f64) -> bool {
    largest == 0.0 || eps < 1e-10 || (largest > 1e-14 && largest < 1e17)
}

/// Appends expectation of the statistics of real data
fn stat_r(x: &[f64], eps: f64, sc: &mut Vec<f64>, tol: &mut Vec<f64>) {
    let n = x.len() as f64;
    let inf = f64::INFINITY;
    if x.is_empty() {
        sc.extend_from_slice(&[0.0; STAT_R]);
        tol.extend_from_slice(&[0.0, inf, inf, inf, inf, inf, inf, inf]);
        tol[sc.len() - STAT_R + 1] = 0.0;
        return;
    }
    let (s, m) = sum(x);
    let sq: Vec<f64> = x.iter().map(|v| v * v).collect();
    let (q, _) = sum(&sq);
    let mn = x.iter().cloned().fold(inf, f64::min);
    let mx = x.iter().cloned().fold(-inf, f64::max);
    let e = eps * (n + 8.0);
    let rms = (q / n).sqrt();
    let trms = if squares(mn.abs().max(mx.abs()), eps) { rms * e } else { inf };
    sc.extend_from_slice(&[s, n, s / n, rms, mn, 0.0, mx, 0.0]);
    tol.extend_from_slice(&[m * e, 0.0, m * e / n + 4.0 * eps * (s / n).abs(), trms, 0.0, inf, 0.0, inf]);
}
fn post_r(x: &[f64], o: &[f64]) -> Result<(), String> {
    if x.is_empty() {
        return Ok(());
    }
    for (k, name) in [(4, "min"), (6, "max")] {
        let i = o[k + 1];
        if i < 0.0 || i as usize >= x.len() || x[i as usize] != o[k] {
            return Err(format!("{}_index {} doesn't point to {} {}", name, i, name, o[k]));
        }
    }
    Ok(())
}
fn stat_c(x: &[C64], eps: f64, sc: &mut Vec<f64>, tol: &mut Vec<f64>) {
    let n = x.len() as f64;
    let inf = f64::INFINITY;
    let base = tol.len();
    if x.is_empty() {
        sc.extend_from_slice(&[0.0; STAT_C]);
        tol.extend_from_slice(&[inf; STAT_C]);
        for k in 0..3 {
            tol[base + k] = 0.0;
        }
        return;
    }
    let re: Vec<f64> = x.iter().map(|v| v.re).collect();
    let im: Vec<f64> = x.iter().map(|v| v.im).collect();
    let ((sr, mr), (si, mi)) = (sum(&re), sum(&im));
    let m = mr + mi;
    let e = eps * (n + 8.0);
    sc.extend_from_slice(&[sr, si, n, sr / n, si / n, 0., 0., 0., 0., 0., 0., 0., 0.]);
    let ta = m * e / n + 4.0 * eps * m / n;
    tol.extend_from_slice(&[m * e, m * e, 0.0, ta, ta, inf, inf, inf, inf, inf, inf, inf, inf]);
}
fn post_c(x: &[C64], eps: f64, o: &[f64]) -> Result<(), String> {
    if x.is_empty() {
        return Ok(());
    }
    let n = x.len() as f64;
    let q = x.iter().map(|v| v * v).fold(C64::new(0.0, 0.0), |a, b| a + b) / n;
    let qm = x.iter().map(|v| v.norm_sqr()).sum::<f64>() / n;
    let r = C64::new(o[5], o[6]);
    let most = x.iter().map(|v| v.norm()).fold(0.0, f64::max);
    if squares(most, eps) && !((r * r - q).norm() <= 4.0 * eps * (n + 8.0) * qm + 1e-300) {
        return Err(format!("rms {} squared isn't {}", r, q));
    }
    // min and max are ordered by magnitude
    for (k, name, up) in [(7, "min", false), (10, "max", true)] {
        let v = C64::new(o[k], o[k + 1]);
        let i = o[k + 2];
        if i < 0.0 || i as usize >= x.len() || x[i as usize] != v {
            return Err(format!("{}_index {} doesn't point to {} {}", name, i, name, v));
        }
        for z in x {
            let d = if up { z.norm() - v.norm() } else { v.norm() - z.norm() };
            if d > 4.0 * eps * v.norm().max(z.norm()) {
                return Err(format!("{} {} isn't extreme, there is {}", name, v, z));
            }
        }
    }
    Ok(())
}

pub fn expect(s: &Snap, op: &Op, eps: f64) -> Option<Exp> {
    let base = op.name.strip_suffix("_r").or(op.name.strip_suffix("_c"))?;
    let want_cx = op.name.ends_with("_c");
    let prec = base.contains("_prec");
    let base = base.replace("_prec", "");
    if !["statistics", "statistics_merge", "statistics_split", "sum", "sum_sq", "dot_product"].contains(&&base[..]) {
        return None;
    }
    if s.cx != want_cx {
        return Some(match &base[..] {
            "dot_product" => Exp::Err(if want_cx {
                &["InputMustBeComplex", "InputMetaDataMustAgree"]
            } else {
                &["InputMustBeReal", "InputMetaDataMustAgree"]
            }),
            _ => Exp::Unspec,
        });
    }
    // The precise sums of f32 values are calculated with f64
    let wide = prec && base != "dot_product" && eps > 1e-10;
    let eps = if wide { f64::EPSILON } else { eps };
    let prec = prec && !wide;
    // The compensated variants promise an error which doesn't grow with the number of elements
    let growth = |n: f64| if prec { 16.0 + n * eps } else { n + 8.0 };
    Some(match &base[..] {
        "sum" | "sum_sq" => {
            let sq = base == "sum_sq";
            let (mut sc, mut t) = (vec![], vec![]);
            if !s.cx {
                let x: Vec<f64> = s.d.iter().map(|v| if sq { v * v } else { *v }).collect();
                let (a, m) = sum(&x);
                sc.push(a);
                t.push(eps * growth(x.len() as f64) * m);
            } else {
                let x: Vec<C64> = s.cs().iter().map(|v| if sq { v * v } else { *v }).collect();
                for p in [
                    x.iter().map(|v| v.re).collect::<Vec<_>>(),
                    x.iter().map(|v| v.im).collect::<Vec<_>>(),
                ] {
                    sc.push(sum(&p).0);
                }
                let m: f64 = if sq {
                    s.cs().iter().map(|v| v.norm_sqr()).sum()
                } else {
                    s.cs().iter().map(|v| v.norm()).sum()
                };
                t = vec![eps * growth(x.len() as f64) * m; 2];
            }
            Good::scalars(s, sc, t)
        }
        "dot_product" => {
            let a = &op.args[0];
            if s.d.len() != a.d.len() {
                return Some(Exp::Err(&["InputMustHaveTheSameSize", "InputMetaDataMustAgree"]));
            }
            match meta_agree(s, a) {
                Some(true) => (),
                // The documentation of the operation asks for it
                Some(false) => return Some(if a.cx != s.cx { Exp::Err(&["InputMetaDataMustAgree"]) } else { Exp::Unspec }),
                None => return Some(Exp::Unspec),
            }
            if !s.cx {
                let x: Vec<f64> = s.d.iter().zip(&a.d).map(|(p, q)| p * q).collect();
                let (v, m) = sum(&x);
                Good::scalars(s, vec![v], vec![eps * growth(x.len() as f64) * m])
            } else {
                let (x, y) = (s.cs(), a.cs());
                let mut re = vec![];
                let mut im = vec![];
                let mut m = 0.0;
                for (p, q) in x.iter().zip(&y) {
                    re.push(p.re * q.re);
                    re.push(-p.im * q.im);
                    im.push(p.re * q.im);
                    im.push(p.im * q.re);
                    m += p.norm() * q.norm();
                }
                let t = eps * growth(2.0 * x.len() as f64) * m;
                Good::scalars(s, vec![sum(&re).0, sum(&im).0], vec![t, t])
            }
        }
        _ => {
            let k = match &base[..] {
                "statistics_split" => op.u[0],
                "statistics_merge" => op.u[2],
                _ => 1,
            };
            if k > 16 {
                return Some(Exp::Err(&["InvalidArgumentLength"]));
            }
            if s.d.is_empty() {
                return Some(Exp::Unspec);
            }
            let (mut sc, mut t) = (vec![], vec![]);
            let post: Post;
            // mul of the tolerance: the precise variants are accurate to a few ulp
            if !s.cx {
                let parts: Vec<Vec<f64>> = (0..k)
                    .map(|j| s.d.iter().cloned().skip(j).step_by(k).collect())
                    .collect();
                for p in &parts {
                    let b = t.len();
                    stat_r(p, eps, &mut sc, &mut t);
                    if prec {
                        let n = p.len() as f64;
                        for x in &mut t[b..] {
                            *x = *x / (n + 8.0) * growth(n);
                        }
                    }
                }
                post = Rc::new(move |o| {
                    for (p, o) in parts.iter().zip(o.chunks(STAT_R)) {
                        post_r(p, o)?;
                    }
                    Ok(())
                });
            } else {
                let parts: Vec<Vec<C64>> = (0..k)
                    .map(|j| s.cs().iter().cloned().skip(j).step_by(k).collect())
                    .collect();
                for p in &parts {
                    let b = t.len();
                    stat_c(p, eps, &mut sc, &mut t);
                    if prec {
                        let n = p.len() as f64;
                        for x in &mut t[b..] {
                            *x = *x / (n + 8.0) * growth(n);
                        }
                    }
                }
                post = Rc::new(move |o| {
                    for (p, o) in parts.iter().zip(o.chunks(STAT_C)) {
                        post_c(p, eps, o)?;
                    }
                    Ok(())
                });
            }
            let mut g = Good::of(Want::exact(s.clone()));
            g.sc = sc;
            g.sc_tol = t;
            g.post = Some(post);
            Exp::Ok(g)
        }
    })
}
