//! Generates operations together with inputs.
use crate::inst::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fam {
    Elem,
    Approx,
    Map,
    Fft,
    Sfft,
    Conv,
    Freq,
    Corr,
    Interp,
    Stat,
    Prec,
    Reorg,
    Parts,
    Win,
}
pub const ALL: &[Fam] = &[
    Fam::Elem,
    Fam::Approx,
    Fam::Map,
    Fam::Fft,
    Fam::Sfft,
    Fam::Conv,
    Fam::Freq,
    Fam::Corr,
    Fam::Interp,
    Fam::Stat,
    Fam::Prec,
    Fam::Reorg,
    Fam::Parts,
    Fam::Win,
];

/// Size profile: upper limit and preference
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Size {
    Any,
    /// mostly above the thresholds of the optimised implementations
    Large,
    Small,
}

/// Small sizes only, for interpreters
pub fn tiny() -> bool {
    use std::sync::atomic::{AtomicU8, Ordering::Relaxed};
    static TINY: AtomicU8 = AtomicU8::new(2);
    if TINY.load(Relaxed) == 2 {
        TINY.store(std::env::var("MON_TINY").is_ok() as u8, Relaxed);
    }
    TINY.load(Relaxed) == 1
}

pub fn points(r: &Rng, size: Size) -> usize {
    if tiny() {
        return if r.chance(0.06) { r.range(12, 40) } else { r.below(12) };
    }
    match size {
        Size::Small => r.below(24),
        Size::Any => match r.below(100) {
            0..=49 => r.below(40),
            50..=74 => r.range(40, 300),
            75..=84 => r.range(490, 520),
            85..=92 => r.range(990, 1030),
            93..=97 => r.range(1990, 2030),
            _ => r.range(2030, 4100),
        },
        Size::Large => match r.below(100) {
            0..=29 => r.range(2, 80),
            30..=59 => r.range(80, 600),
            60..=79 => r.range(600, 1100),
            80..=92 => r.range(1900, 2200),
            _ => r.range(2200, 6000),
        },
    }
}

/// Sizes beyond all limits in the code, for operations which take time in proportion to the size
fn big(r: &Rng) -> usize {
    let n = *r.pick(&[7000, 8192, 9973, 10_000, 12_288, 16_384, 20_000, 20_000, 32_768, 50_000]);
    match r.below(10) {
        0 => r.range(50_000, 140_000),
        1..=5 => n + r.below(5) - 2,
        6 => r.range(6000, 30_000),
        _ => n,
    }
}
/// The same with small prime factors, so that the transform in the model is fast
fn big_smooth(r: &Rng) -> usize {
    *r.pick(&[8192, 8748, 10_000, 10_001, 12_005, 15_625, 16_384, 16_385, 20_000, 32_768, 50_000, 65_536])
}
/// One of usual values or any other
fn usual(r: &Rng, list: &[f64], lo: f64, hi: f64) -> f64 {
    if r.chance(0.2) {
        r.uni(lo, hi)
    } else {
        *r.pick(list)
    }
}

/// How the values are distributed
pub fn values(r: &Rng, n: usize, positive: bool) -> Vec<f64> {
    let k = r.below(10);
    let lo = if positive { 0.05 } else { -10.0 };
    (0..n)
        .map(|i| {
            let x = match k {
                // ties and integers
                0 => r.range(0, 6) as f64 - 3.0,
                // many zeros
                1 => {
                    if r.chance(0.7) {
                        0.0
                    } else {
                        r.uni(-5.0, 5.0)
                    }
                }
                2 => i as f64 * 0.25 - 3.0,
                3 => 1.5,
                // different magnitudes
                4 => r.uni(-1.0, 1.0) * 10f64.powf(r.uni(-4.0, 3.0)),
                5 => {
                    if r.chance(0.02) {
                        8.0
                    } else {
                        0.0
                    }
                }
                6 => r.uni(-1.0, 1.0),
                _ => r.uni(lo, 10.0),
            };
            if positive {
                x.abs() + 0.01
            } else {
                x
            }
        })
        .collect()
}

/// Data for which a plain summation is inaccurate: a few large values and many which are below the
/// resolution of the sum
fn cancelling(r: &Rng, d: &mut [f64]) {
    let single = r.chance(0.5);
    let big = 2f64.powi(if single { 24 } else { 53 });
    let every = *r.pick(&[usize::MAX, 40, 8, 7]);
    let step = r.uni(0.2, 1.2);
    let from = r.below(4);
    let sign = r.chance(0.5);
    for (i, x) in d.iter_mut().enumerate() {
        *x = if i < from || (i > 0 && every != usize::MAX && i % every == 0) {
            if sign && (i / every.min(1000)) % 2 == 1 { -big } else { big }
        } else {
            step
        };
    }
}
fn sfx(k: &str, c: bool) -> &'static str {
    const N: &[&str] = &[
        "statistics_r", "statistics_c", "statistics_split_r", "statistics_split_c", "statistics_merge_r",
        "statistics_merge_c", "sum_r", "sum_c", "sum_sq_r", "sum_sq_c", "dot_product_r", "dot_product_c",
        "statistics_prec_r", "statistics_prec_c", "statistics_split_prec_r", "statistics_split_prec_c",
        "sum_prec_r", "sum_prec_c", "sum_sq_prec_r", "sum_sq_prec_c", "dot_product_prec_r", "dot_product_prec_c",
    ];
    let want = format!("{}_{}", k, if c { "c" } else { "r" });
    N.iter().find(|x| **x == want).unwrap()
}

pub fn delta(r: &Rng) -> f64 {
    *r.pick(&[1.0, 1.0, 0.5, 0.2, 2.0, 0.001, 48.0])
}

pub fn make(r: &Rng, points: usize, cx: bool, fq: bool, positive: bool) -> Snap {
    let n = if cx { 2 * points } else { points };
    Snap::new(values(r, n, positive), cx, fq, delta(r))
}

pub fn even_fun(r: &Rng, width: f64) -> Fun {
    let kind = *r.pick(&[0u8, 0, 0, 2, 3]);
    Fun {
        kind,
        p: [
            if kind == 3 { r.uni(-2.0, 2.0) } else { width },
            0.0,
            r.uni(0.2, 2.0) / width,
        ],
        sym: r.chance(0.5),
        delay: 0,
    }
}
pub fn any_fun(r: &Rng, width: f64) -> Fun {
    if r.chance(0.4) {
        return even_fun(r, width);
    }
    Fun {
        kind: 1,
        p: [width, r.uni(-0.5, 0.5) * width, r.uni(0.2, 2.0) / width],
        sym: false,
        delay: 0,
    }
}

const TRIG: &[&str] = &[
    "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh",
];
const POW: &[&str] = &["sqrt", "square", "root", "powf", "ln", "exp", "log", "expf"];
const BIN: &[&str] = &["add", "sub", "mul", "div"];
const SMALLER: &[&str] = &["add_smaller", "sub_smaller", "mul_smaller", "div_smaller"];
const PAD: f64 = 0.06;

fn divisor(r: &Rng, n: usize) -> usize {
    let d: Vec<usize> = (1..=n.min(64)).filter(|k| n % k == 0).chain(Some(n)).collect();
    *r.pick(&d)
}

pub struct Spec {
    pub snap: Snap,
    pub op: Op,
}

/// Draws an operation of the family and an input for it. With a small probability the input
/// violates a requirement of the operation (`wrong`), or the values leave the ordinary range.
pub fn draw(r: &Rng, fam: Fam, size: Size, wrong: f64) -> Spec {
    let mut sp = draw_plain(r, fam, size, wrong);
    if r.chance(0.2) {
        stretch(r, &mut sp);
    }
    sp
}

/// Operations which only move values around or combine them with sums
const MOVES: &[&str] = &[
    "add", "sub", "add_smaller", "sub_smaller", "abs", "diff", "diff_with_start", "cum_sum", "conj", "reverse",
    "swap_halves", "fft_shift", "ifft_shift", "mirror", "zero_pad", "zero_pad_b", "zero_interleave",
    "zero_interleave_b", "resize", "resize_b", "split_into", "merge", "to_complex", "to_complex_b", "to_real",
    "to_imag", "to_real_b", "to_imag_b", "get_real", "get_imag", "get_real_imag", "set_real_imag", "phase",
    "phase_b", "get_phase", "sum_r", "sum_c", "sum_prec_r", "sum_prec_c", "statistics_r", "statistics_c",
    "statistics_split_r", "statistics_split_c", "statistics_merge_r", "statistics_merge_c", "set_delta",
];
/// Operations which are linear in the data (or homogeneous), so that all values can be large or small. Squares
/// of the values are representable.
const SCALES: &[&str] = &[
    "scale", "scale_c", "offset", "offset_c", "multiply_complex_exponential", "magnitude", "magnitude_b",
    "magnitude_squared", "magnitude_squared_b", "get_magnitude", "get_magnitude_squared", "get_mag_phase",
    "sum_sq_r", "sum_sq_c", "sum_sq_prec_r", "sum_sq_prec_c", "statistics_prec_r", "statistics_prec_c",
    "statistics_split_prec_r", "statistics_split_prec_c", "plain_fft", "fft", "windowed_fft", "plain_ifft",
    "ifft", "windowed_ifft", "plain_sfft", "sfft", "windowed_sfft", "plain_sifft", "sifft", "windowed_sifft",
    "apply_window", "unapply_window", "convolve", "convolve_c", "multiply_frequency_response",
    "multiply_frequency_response_c", "interpolatef", "interpolatei", "interpolate", "interpft", "decimatei",
    "interpolate_lin", "interpolate_hermite", "prepare_argument", "prepare_argument_padded",
];
/// Products and quotients: the operands have a range of their own
const PRODUCTS: &[&str] = &[
    "mul", "div", "mul_smaller", "div_smaller", "dot_product_r", "dot_product_c", "dot_product_prec_r",
    "dot_product_prec_c", "convolve_signal", "correlate", "set_mag_phase",
];
/// Operations which keep every element to itself, so that a NaN or an infinity doesn't spread
const KEEPS: &[&str] = &[
    "add", "sub", "add_smaller", "sub_smaller", "abs", "conj", "reverse", "swap_halves", "fft_shift",
    "ifft_shift", "mirror", "zero_pad", "zero_pad_b", "zero_interleave", "zero_interleave_b", "resize", "resize_b",
    "split_into", "merge", "to_complex", "to_complex_b", "to_real", "to_imag", "to_real_b", "to_imag_b",
    "get_real", "get_imag", "get_real_imag", "set_real_imag", "set_delta", "scale", "offset", "offset_c",
];

/// Multiplies all values with a power of two or puts some values into the data which aren't finite
fn stretch(r: &Rng, sp: &mut Spec) {
    let name = sp.op.name;
    let by = |s: &mut Snap, e: i32| {
        for x in &mut s.d {
            *x *= 2f64.powi(e);
        }
    };
    // The data for the precise sums has a wide range already
    let most = if name.contains("_prec") { 8 } else { 90 };
    let any = |e: i32| {
        let e = e.min(most);
        r.range(0, 2 * e as usize) as i32 - e
    };
    let real_mul = !sp.snap.cx && ["mul", "div", "mul_smaller", "div_smaller"].contains(&name);
    if (KEEPS.contains(&name) || real_mul) && r.chance(0.3) {
        let all = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0];
        for s in std::iter::once(&mut sp.snap).chain(&mut sp.op.args) {
            if s.d.is_empty() || r.chance(0.3) {
                continue;
            }
            let one = r.chance(0.5);
            let v = *r.pick(&all);
            for _ in 0..r.range(1, 4) {
                let i = r.below(s.d.len());
                s.d[i] = if one { v } else { *r.pick(&all) };
            }
        }
    } else if MOVES.contains(&name) {
        let e = any(90);
        by(&mut sp.snap, e);
        for a in &mut sp.op.args {
            by(a, e);
        }
    } else if SCALES.contains(&name) {
        by(&mut sp.snap, any(38));
        if name.starts_with("offset") || name == "scale" {
            for x in &mut sp.op.f {
                *x *= 2f64.powi(any(30));
            }
        }
    } else if PRODUCTS.contains(&name) {
        let (a, b) = (any(38), any(18));
        by(&mut sp.snap, a);
        if let Some(x) = sp.op.args.first_mut() {
            by(x, b);
        }
    }
}

pub fn draw_plain(r: &Rng, fam: Fam, size: Size, wrong: f64) -> Spec {
    let mut cx = r.chance(0.5);
    let mut fq = r.chance(0.3);
    let n = points(r, size);
    let linear = [Fam::Elem, Fam::Map, Fam::Stat, Fam::Prec, Fam::Reorg, Fam::Parts, Fam::Freq, Fam::Approx];
    let huge = !tiny() && size != Size::Small && r.chance(0.003);
    let n = if huge && linear.contains(&fam) { big(r) } else { n };
    let flip = r.chance(wrong);
    let mut s;
    let op;
    match fam {
        Fam::Elem => match r.below(12) {
            0..=1 => {
                let k = *r.pick(BIN);
                s = make(r, n, cx, fq, false);
                let m = if flip { points(r, Size::Small) } else { n };
                let mut a = make(r, m, cx != (flip && r.chance(0.3)), fq, k == "div");
                a.delta = s.delta * r.uni(0.95, 1.05);
                if flip && r.chance(0.3) {
                    a.delta = s.delta * 2.0;
                }
                op = Op::new(k).a(vec![a]);
            }
            2 => {
                let k = *r.pick(SMALLER);
                s = make(r, n.max(1), cx, fq, false);
                let m = if flip { points(r, Size::Small) } else { divisor(r, n.max(1)) };
                let mut a = make(r, m, cx, fq, k == "div_smaller");
                a.delta = s.delta;
                op = Op::new(k).a(vec![a]);
            }
            3 => {
                s = make(r, n, cx, fq, false);
                let k = if cx && r.chance(0.6) {
                    *r.pick(&["offset_c", "scale_c"])
                } else {
                    *r.pick(&["offset", "scale"])
                };
                op = Op::new(k).f(&[r.uni(-9.0, 9.0), r.uni(-9.0, 9.0)]);
            }
            4..=5 => {
                s = make(r, n, cx, fq, false);
                if cx {
                    // The formulas of num_complex cancel or overflow for large values
                    for x in &mut s.d {
                        while x.abs() > 4.0 {
                            *x *= 0.1;
                        }
                        // and stay away from branch cuts and poles
                        if x.abs() < 0.06 {
                            *x = if *x < 0.0 { *x - 0.1 } else { *x + 0.1 };
                        }
                    }
                }
                op = Op::new(*r.pick(TRIG));
            }
            6..=7 => {
                let k = *r.pick(POW);
                let pos = !cx && r.chance(0.8);
                s = make(r, n, cx, fq, pos);
                if k.starts_with("exp") {
                    for x in &mut s.d {
                        while x.abs() > 20.0 {
                            *x *= 0.1;
                        }
                    }
                }
                let a = match k {
                    "root" => *r.pick(&[2.0, 3.0, 1.5, 4.0]),
                    "powf" => *r.pick(&[2.0, 3.0, 0.5, -1.0, 1.7]),
                    _ => *r.pick(&[2.0, 10.0, 3.5, 0.5]),
                };
                op = Op::new(k).f(&[a]);
            }
            8 => {
                s = make(r, n, cx, fq, false);
                op = Op::new(*r.pick(&["diff", "diff_with_start", "cum_sum"]));
            }
            9 => {
                s = make(r, n, flip, fq, false);
                let k = *r.pick(&["abs", "wrap", "unwrap"]);
                let p = *r.pick(&[2.0, 6.283185307179586, 1.0, 0.75]);
                if k == "unwrap" && r.chance(0.6) {
                    // steps over more than a period
                    let step = r.uni(-3.0, 3.0) * p;
                    for (i, x) in s.d.iter_mut().enumerate() {
                        *x = i as f64 * step * 0.37 + *x * 0.01;
                    }
                    if s.d.len() > 200 {
                        s.d.truncate(200);
                    }
                }
                op = Op::new(k).f(&[p]);
            }
            10 => {
                s = make(r, n, !flip, fq, false);
                op = if r.chance(0.5) {
                    Op::new("conj")
                } else {
                    Op::new("multiply_complex_exponential").f(&[r.uni(-3.0, 3.0), r.uni(-3.0, 3.0)])
                };
            }
            _ => {
                s = make(r, n, cx, fq, false);
                op = Op::new("set_delta").f(&[delta(r)]);
            }
        },
        Fam::Approx => {
            let k = *r.pick(&[
                "ln_approx", "exp_approx", "sin_approx", "cos_approx", "log_approx", "expf_approx",
                "powf_approx",
            ]);
            s = make(r, n, flip, fq, true);
            let a = *r.pick(&[2.0, 10.0, 3.5]);
            let e = if k == "powf_approx" { r.uni(-2.0, 2.0) } else { a };
            // The documented accuracy also holds beyond the documented range, up to where results
            // or intermediate values overflow
            let wide = r.chance(0.3);
            for x in &mut s.d {
                *x = match k {
                    "exp_approx" => r.uni(-1.0, 1.0) * if wide { 85.0 } else { 8.0 },
                    "expf_approx" => r.uni(-1.0, 1.0) * if wide { 85.0 / a.ln() } else { 8.0 },
                    "sin_approx" | "cos_approx" => r.uni(-1.0, 1.0) * if wide { 8000.0 } else { 8.0 },
                    "powf_approx" if wide => (r.uni(-1.0, 1.0) * (80.0 / e.abs()).min(80.0)).exp(),
                    _ if wide => (r.uni(-1.0, 1.0) * 80.0).exp(),
                    _ => 10f64.powf(r.uni(-2.0, 3.0)),
                };
            }
            op = Op::new(k).f(&[e]);
        }
        Fam::Map => {
            s = make(r, n, cx, fq, false);
            let c = cx != flip;
            let k = if r.chance(0.5) {
                if c {
                    "map_inplace_c"
                } else {
                    "map_inplace_r"
                }
            } else if c {
                "map_aggregate_c"
            } else {
                "map_aggregate_r"
            };
            op = Op::new(k).f(&[r.uni(-3.0, 3.0)]).fun(any_fun(r, 3.0));
        }
        Fam::Fft => {
            let n = if huge { big_smooth(r) } else if !tiny() && r.chance(0.02) { r.range(4000, 5200) } else { n };
            let k = *r.pick(&["plain_fft", "fft", "windowed_fft", "plain_ifft", "ifft", "windowed_ifft"]);
            fq = k.contains("ifft") != flip;
            if fq {
                cx = true;
            }
            s = make(r, n, cx, fq, false);
            op = Op::new(k).u(&[*r.pick(&[0, 1, 2, 3, 4])]).fun(even_fun(r, 2.0));
        }
        Fam::Sfft => {
            let k = *r.pick(&["plain_sfft", "sfft", "windowed_sfft", "plain_sifft", "sifft", "windowed_sifft"]);
            let inv = k.contains("sifft");
            let n = if inv || flip { n } else { n | 1 };
            fq = inv;
            cx = inv;
            if flip && r.chance(0.3) {
                cx = !cx;
            }
            s = make(r, n, cx, fq, false);
            if inv && cx && n > 0 && !(flip && r.chance(0.5)) {
                s.d[1] = 0.0;
            }
            op = Op::new(k).u(&[*r.pick(&[0, 1, 2, 3, 4])]).fun(even_fun(r, 2.0));
        }
        Fam::Conv => {
            match r.below(3) {
                0 => {
                    // The frequency domain implementation is for complex signals of this size
                    let block = !tiny() && r.chance(0.03);
                    let simd = tiny() && r.chance(0.1);
                    let n = if simd { r.range(1001, 1012) } else if block { *r.pick(&[5001, 6100, 7100, 8191, 9000, 12500]) + r.below(90) } else { n };
                    cx = cx || block;
                    s = make(r, n, cx, flip, false);
                    if simd && cx {
                        s.d.truncate(2 * 503);
                    }
                    // impulse responses around the limits of the implementations
                    let p = match r.below(4) {
                        0 => r.range(1, 12),
                        1 => r.range(1, 60),
                        2 => r.range(95, 110),
                        _ => r.range(1, 220),
                    };
                    let p = if block { *r.pick(&[102, 129, 130, 250, 480, n / 10 - 2]) + r.below(3) } else { p };
                    let p = if tiny() { p.min(if simd { 14 } else { 12 }) } else { p };
                    let p = if flip { p } else { p.min(n) };
                    let mut a = make(r, p, cx, flip && r.chance(0.7), false);
                    a.delta = s.delta;
                    op = Op::new("convolve_signal").a(vec![a]);
                }
                1 => {
                    s = make(r, n, cx, flip, false);
                    let l = conv_len(r, n);
                    let ratio = conv_ratio(r);
                    let k = *r.pick(&[0usize, 0, 0, 1, 2]);
                    let mut f = any_fun(r, (l as f64 / 3.0).max(1.0));
                    if k == 1 {
                        f.p[0] = *r.pick(&[0.35, 0.5, 0.2]);
                    }
                    op = Op::new("convolve").f(&[ratio]).u(&[l, k]).fun(f);
                }
                _ => {
                    s = make(r, n, !flip, flip && r.chance(0.5), false);
                    let l = conv_len(r, n);
                    let mut f = any_fun(r, (l as f64 / 3.0).max(1.0));
                    if f.kind != 3 {
                        f.sym = false;
                    }
                    op = Op::new("convolve_c").f(&[conv_ratio(r)]).u(&[l]).fun(f);
                }
            }
        }
        Fam::Freq => {
            s = make(r, n, cx, !flip, false);
            let ratio = usual(r, &[1.0, 0.5, 2.0, 1.3, 0.25], 0.05, 4.0);
            if r.chance(0.5) {
                let k = *r.pick(&[0usize, 0, 0, 1, 2]);
                let mut f = any_fun(r, *r.pick(&[0.3, 0.6, 1.5]));
                if k == 1 {
                    f.p[0] = usual(r, &[0.35, 0.5, 0.2], 0.1, 1.0);
                }
                op = Op::new("multiply_frequency_response").f(&[ratio]).u(&[k]).fun(f);
            } else {
                let mut f = any_fun(r, *r.pick(&[0.3, 0.6, 1.5]));
                if f.kind != 3 {
                    f.sym = false;
                }
                op = Op::new("multiply_frequency_response_c").f(&[ratio]).fun(f);
            }
        }
        Fam::Corr => {
            if r.chance(0.2) {
                s = make(r, n, true, false, false);
                op = Op::new(*r.pick(&["prepare_argument", "prepare_argument_padded"]));
            } else {
                let m = if r.chance(0.5) { n } else { points(r, Size::Small) };
                let n = n.min(1200);
                let m = if flip { m } else { m.max(n) };
                let mode = r.below(3);
                let odd = if flip { r.below(5) } else { 9 };
                s = make(r, n, odd != 0, odd == 1, false);
                let mut a = make(r, m, odd != 2, (mode == 2) != (odd == 3), false);
                a.delta = if r.chance(0.5) { s.delta } else { delta(r) };
                op = Op::new("correlate").u(&[mode]).a(vec![a]);
            }
        }
        Fam::Interp => match r.below(12) {
            0..=2 => {
                let simd = tiny() && r.chance(0.08);
                s = make(r, if simd { if cx { 260 } else { 505 } } else { n }, cx, fq, false);
                let l = match r.below(4) {
                    0 => r.range(1, 12),
                    1 if !tiny() => r.range(190, 215),
                    _ => r.range(8, if tiny() { 20 } else { 60 }),
                };
                let k = *r.pick(&[0usize, 0, 0, 0, 1, 2]);
                let mut f = any_fun(r, (l.min(n / 2) as f64 / 4.0).max(0.8));
                if f.kind == 3 {
                    f.kind = 0;
                    f.p[0] = (l.min(n / 2) as f64 / 5.0).max(0.5);
                }
                if k == 1 {
                    f.p[0] = 0.35;
                }
                let factor = match r.below(10) {
                    0 => r.range(6, 24) as f64,
                    1 => (r.uni(0.3, 8.0) * 64.0).round() / 64.0,
                    _ => *r.pick(&[2.0, 3.0, 4.0, 5.0, 1.0, 1.5, 2.25, 0.5, 10.0]),
                };
                let (l, factor) = if simd { (l.min(6), 4.0) } else { (l, factor) };
                let dl = usual(r, &[0.0, 0.0, 0.5, 1.0, -0.25, 0.3], -3.0, 3.0);
                if (s.d.len() as f64 * factor) > 9000.0 {
                    s.d.truncate(2 * (4000.0 / factor) as usize);
                }
                op = Op::new("interpolatef").f(&[factor, dl * s.delta]).u(&[l, k]).fun(f);
            }
            3..=4 => {
                let k = *r.pick(&[0usize, 0, 0, 1, 2]);
                let mut f = any_fun(r, *r.pick(&[0.3, 0.6, 1.5]));
                if k == 1 {
                    f.p[0] = *r.pick(&[0.35, 0.5, 0.2]);
                }
                if !cx && !flip && f.kind != 1 {
                    f.sym = true;
                }
                if !cx && !flip && f.kind == 1 {
                    f = even_fun(r, 0.6);
                    f.sym = true;
                }
                s = make(r, n.min(1500), cx, fq, false);
                let most = if s.d.len() < 200 && r.chance(0.3) { 20 } else { 5 };
                op = Op::new("interpolatei").u(&[r.range(0, most), k]).fun(f);
            }
            5..=8 => {
                let n = n.min(1500);
                let k = *r.pick(&[0usize, 0, 1, 2, 9, 9]);
                let mut f = any_fun(r, *r.pick(&[0.3, 0.6, 1.5]));
                if k == 1 {
                    f.p[0] = *r.pick(&[0.35, 0.5, 0.2]);
                }
                if !cx && !flip && k == 0 {
                    f = even_fun(r, 0.6);
                    f.sym = true;
                }
                s = make(r, n, cx, fq, false);
                let t = match r.below(4) {
                    0 => n,
                    1 => n / 2 + r.below(4),
                    2 => n * r.range(1, 4) + r.below(3),
                    _ => r.range(1, 3 * n + 2),
                };
                if r.chance(0.25) {
                    op = Op::new("interpft").u(&[t]);
                } else {
                    let dl = usual(r, &[0.0, 0.0, 1.0, 0.5, 0.25, -1.0, 0.4], -4.0, 4.0);
                    op = Op::new("interpolate").f(&[dl * s.delta]).u(&[t, k]).fun(f);
                }
            }
            9 => {
                s = make(r, n, cx, fq, false);
                let f = r.range(1, if r.chance(0.2) { 60 } else { 9 });
                op = Op::new("decimatei").u(&[f, r.below(f + 2)]);
            }
            _ => {
                let n = if r.chance(0.1) { n } else { n.min(800) };
                s = make(r, n, flip, fq, false);
                let f = match r.below(10) {
                    0 => r.range(5, 24) as f64,
                    1 => (r.uni(1.0, 9.0) * 64.0).round() / 64.0,
                    _ => *r.pick(&[1.0, 2.0, 3.0, 4.0, 1.5, 2.5, 7.3]),
                };
                let d = usual(r, &[0.0, 0.0, 0.0, 0.25, 0.5], 0.0, 0.99);
                op = Op::new(*r.pick(&["interpolate_lin", "interpolate_hermite"])).f(&[f, d]);
            }
        },
        Fam::Stat | Fam::Prec => {
            let prec = fam == Fam::Prec;
            let k = if prec {
                *r.pick(&["statistics_prec", "statistics_split_prec", "sum_prec", "sum_sq_prec", "dot_product_prec"])
            } else {
                *r.pick(&["statistics", "statistics_split", "sum", "sum_sq", "dot_product", "statistics_merge"])
            };
            s = make(r, n, cx, fq, false);
            let m = if flip { points(r, Size::Small) } else { n };
            let mut a = make(r, m, cx, fq, false);
            if prec && r.chance(0.6) {
                cancelling(r, &mut s.d);
                if r.chance(0.3) {
                    cancelling(r, &mut a.d);
                } else {
                    let one = r.chance(0.5);
                    for (i, x) in a.d.iter_mut().enumerate() {
                        *x = if cx && i % 2 == 1 && one { 0.0 } else { 1.0 };
                    }
                }
            }
            let c = cx != (flip && k.starts_with("dot") && r.chance(0.4));
            a.delta = s.delta;
            let u = if k == "statistics_merge" {
                vec![r.range(1, if r.chance(0.3) { 40 } else { 16 }), r.below(6), r.range(1, if r.chance(0.5) { 1 } else { 5 })]
            } else {
                vec![r.range(1, if flip { 20 } else { 16 })]
            };
            op = Op::new(sfx(k, c)).u(&u).a(vec![a]);
        }
        Fam::Reorg => {
            let k = *r.pick(&[
                "reverse", "swap_halves", "fft_shift", "ifft_shift", "mirror", "zero_pad", "zero_pad_b",
                "zero_pad", "zero_pad_b", "zero_interleave", "zero_interleave_b", "resize", "resize_b",
                "split_into", "merge", "split_into", "merge",
            ]);
            if ["fft_shift", "ifft_shift", "mirror"].contains(&k) {
                cx = true;
                fq = true;
                if flip {
                    fq = r.chance(0.5);
                    cx = !fq || r.chance(0.5);
                }
            }
            let mut n = n;
            let parts = r.range(1, 9);
            if k == "split_into" && !flip {
                n = n / parts * parts;
            }
            s = make(r, n, cx, fq, false);
            let u: Vec<usize> = match k {
                "zero_pad" | "zero_pad_b" => vec![
                    if flip { r.below(n + 1) } else { n + r.range(1, if r.chance(0.5) { 9 } else { n + 30 }) },
                    r.below(3),
                ],
                "resize" | "resize_b" => {
                    let m = r.below(2 * s.d.len() + 5);
                    vec![if cx && !flip { m / 2 * 2 } else { m }]
                }
                "split_into" => vec![if flip { r.below(9) } else { parts }, r.below(8)],
                _ => vec![r.range(0, 6)],
            };
            let mut a = vec![];
            if k == "merge" {
                let m = r.below(40);
                for i in 0..if flip { r.below(4) } else { parts } {
                    let m = if flip && i == 1 { m + 1 } else { m };
                    let mut x = make(r, m, cx, fq, false);
                    x.delta = s.delta;
                    a.push(x);
                }
            }
            op = Op::new(k).u(&u).a(a);
        }
        Fam::Parts => {
            let k = *r.pick(&[
                "to_complex", "to_complex_b", "magnitude", "magnitude_squared", "to_real", "to_imag", "phase",
                "magnitude_b", "magnitude_squared_b", "to_real_b", "to_imag_b", "phase_b", "get_real",
                "get_imag", "get_magnitude", "get_magnitude_squared", "get_phase", "get_real_imag",
                "get_mag_phase", "set_real_imag", "set_mag_phase", "set_real_imag", "set_mag_phase",
            ]);
            cx = !k.starts_with("to_complex") != flip;
            s = make(r, n, cx, fq, false);
            let mut a = vec![];
            if k.starts_with("get_") {
                for _ in 0..2 {
                    let m = match r.below(3) {
                        0 => n,
                        1 => 0,
                        _ => points(r, Size::Small),
                    };
                    a.push(make(r, m, false, fq, false));
                }
            } else if k.starts_with("set_") {
                let m = if r.chance(0.5) { n } else { points(r, Size::Small) };
                a.push(make(r, m, false, fq, k == "set_mag_phase"));
                let m = if r.chance(0.1) { m + 1 } else { m };
                a.push(make(r, m, false, fq, false));
            }
            op = Op::new(k).a(a);
        }
        Fam::Win => {
            let k = *r.pick(&["apply_window", "unapply_window", "windowed_fft", "windowed_ifft", "windowed_sfft", "windowed_sifft"]);
            let sym = k.contains("_s");
            fq = k.contains("ifft");
            if fq {
                cx = true;
            }
            if sym {
                cx = fq;
            }
            let n = if k == "windowed_sfft" { n | 1 } else { n };
            s = make(r, n, cx, fq, false);
            if k == "windowed_sifft" && n > 0 {
                s.d[1] = 0.0;
            }
            let mut f = even_fun(r, 2.0);
            if r.chance(0.3) {
                f.kind = 1;
                f.p[1] = 0.7;
                f.sym = false;
            }
            op = Op::new(k).u(&[r.below(6)]).fun(f);
        }
    }
    let _ = PAD;
    Spec { snap: s, op }
}

fn conv_len(r: &Rng, n: usize) -> usize {
    if tiny() {
        return r.range(1, 20);
    }
    match r.below(5) {
        0 => r.range(1, 8),
        1 => r.range(195, 210),
        2 => n + r.below(10),
        _ => r.range(1, 60),
    }
    .min(if n > 1500 { 230 } else { 600 })
}
fn conv_ratio(r: &Rng) -> f64 {
    usual(r, &[1.0, 1.0, 1.0, 0.5, 0.2, 2.0, 0.8, 1.25], 0.05, 3.0)
}

/// How to run: everything at random
pub struct Dims {
    pub storage: bool,
    pub threads: bool,
    pub simd: bool,
    pub bufs: bool,
    pub slack: bool,
}
pub const EVERY: Dims = Dims {
    storage: true,
    threads: true,
    simd: true,
    bufs: true,
    slack: true,
};
pub fn how(r: &Rng, d: &Dims) -> How {
    let mut h = How::PLAIN;
    if d.storage {
        h.storage = match r.below(10) {
            0 => Storage::Boxed,
            1..=2 => Storage::Slice(r.below(18)),
            3 => Storage::Array(r.below(9)),
            _ => Storage::Vec,
        };
    }
    if !cfg!(feature = "std") {
        h.storage = if r.chance(0.7) { Storage::Slice(r.below(18)) } else { Storage::Array(r.below(9)) };
    }
    h.stat = h.storage == Storage::Vec && r.chance(0.4);
    if d.slack && r.chance(0.4) {
        h.slack = *r.pick(&[1usize, 2, 3, 7, 8, 16, 33, 200]);
    }
    if d.bufs {
        h.buf = *r.pick(&[Buf::Single, Buf::Single, Buf::NoBuf, Buf::Poison, Buf::Poison, Buf::Fixed]);
    }
    if d.threads && r.chance(0.5) {
        h.cores = r.range(2, 8);
        let t = *r.pick(&[0usize, 1, 8, 30, 100, 500]);
        let t2 = *r.pick(&[0usize, 1, 8, 100, 600]);
        h.thr = [t, t + t2, t, t + t2];
    }
    if d.simd {
        h.simd = *r.pick(simd_levels());
    }
    h
}
/// Vec is the only storage which grows, others need enough unused memory
/// Length of the longest vector which an operation gets or is asked for
pub fn longest(s: &Snap, op: &Op) -> usize {
    let most = op.args.iter().map(|a| a.d.len()).max().unwrap_or(0).max(s.d.len());
    match op.name {
        "interpft" | "interpolate" | "resize" | "resize_b" | "zero_pad" | "zero_pad_b" => most.max(2 * op.u[0]),
        // the memory is a multiple of this
        "interpolatef" | "interpolate_lin" | "interpolate_hermite" if op.f[0] > 8.0 => most * (op.f[0] / 8.0).ceil() as usize,
        "interpolatei" => most * ((op.u[0] + 7) / 8).max(1),
        _ => most,
    }
}
pub fn restrict(h: &mut How, s: &Snap, op: &Op) {
    const GROWING: &[&str] = &[
        "zero_pad", "zero_pad_b", "zero_interleave", "zero_interleave_b", "resize_b", "merge", "to_complex",
        "to_complex_b", "mirror", "correlate", "prepare_argument_padded", "interpolatef", "interpolatei",
        "interpolate", "interpft", "interpolate_lin", "interpolate_hermite", "set_real_imag", "set_mag_phase",
        "plain_sifft", "sifft", "windowed_sifft", "split_into", "get_real", "get_imag", "get_magnitude",
        "get_magnitude_squared", "get_phase", "get_real_imag", "get_mag_phase",
    ];
    // Statically typed vectors don't accept arguments of another type
    let keeps_kind = !op.name.starts_with("get_") && !op.name.starts_with("set_");
    let prepared = op.name == "correlate" && op.u[0] == 2;
    if keeps_kind && op.args.iter().any(|a| a.cx != s.cx || a.fq != (s.fq || prepared)) {
        h.stat = false;
    }
    if let Storage::Array(off) = h.storage {
        // Everything must fit
        let most = longest(s, op);
        let room = ARRAY_CAP - 300;
        let fits = match op.name {
            "interpolatef" => (op.f[0].max(1.0) * s.d.len() as f64) < room as f64 && most < room,
            "convolve_signal" | "apply_window" | "unapply_window" | "convolve" => most < room,
            _ => 17 * most < room,
        };
        if 17 * most >= room || tiny() {
            h.buf = Buf::Poison;
        }
        if fits {
            return;
        }
        h.storage = if cfg!(feature = "std") { Storage::Vec } else { Storage::Slice(2 * off) };
    }
    if h.storage != Storage::Vec {
        let fft_of_real = !s.cx && op.name.contains("fft");
        let resize = op.name == "resize" && op.u[0] > s.d.len();
        // The destinations need room for the points, and nothing more
        let get = op.name.starts_with("get_") && op.args.iter().all(|a| a.d.len() >= s.points());
        if (GROWING.contains(&op.name) && !get) || fft_of_real || resize {
            match h.storage {
                Storage::Slice(off) if off % 2 == 0 || !cfg!(feature = "std") => {
                    let most = longest(s, op);
                    h.slack = 300 + 17 * most;
                }
                _ => h.storage = Storage::Vec,
            }
        }
    }
}
