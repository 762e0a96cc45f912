//! Reference model: what every operation of the library is supposed to compute, written from
//! the documentation in plain `f64` arithmetic and without any use of the library itself.
pub mod elem;
pub mod reorg;
pub mod signal;
pub mod stat;
pub use num_complex::Complex64 as C64;

#[derive(Clone)]
pub struct Rng(std::cell::Cell<u64>);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let r = Rng(std::cell::Cell::new(
            seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03,
        ));
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&self) -> u64 {
        let mut z = self.0.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
        self.0.set(z);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n
    pub fn below(&self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn unit(&self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uni(&self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn chance(&self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<'a, T>(&self, s: &'a [T]) -> &'a T {
        let i = self.below(s.len());
        &s[i]
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// The observable state of a vector.
#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub d: Vec<f64>,
    pub cx: bool,
    pub fq: bool,
    pub delta: f64,
}
impl Snap {
    pub fn new(d: Vec<f64>, cx: bool, fq: bool, delta: f64) -> Snap {
        Snap { d, cx, fq, delta }
    }
    pub fn points(&self) -> usize {
        self.d.len() / if self.cx { 2 } else { 1 }
    }
    pub fn step(&self) -> usize {
        if self.cx {
            2
        } else {
            1
        }
    }
    pub fn c(&self, i: usize) -> C64 {
        if self.cx {
            C64::new(self.d[2 * i], self.d[2 * i + 1])
        } else {
            C64::new(self.d[i], 0.0)
        }
    }
    pub fn cs(&self) -> Vec<C64> {
        (0..self.points()).map(|i| self.c(i)).collect()
    }
    pub fn with(&self, d: Vec<f64>) -> Snap {
        Snap {
            d,
            cx: self.cx,
            fq: self.fq,
            delta: self.delta,
        }
    }
    /// Same kind of vector but with other points
    pub fn with_c(&self, c: &[C64]) -> Snap {
        if self.cx {
            self.with(flat(c))
        } else {
            self.with(c.iter().map(|x| x.re).collect())
        }
    }
    pub fn brief(&self) -> String {
        let k = self.d.len().min(6);
        format!(
            "{}{}[{} floats] delta={} data={:?}{}",
            if self.cx { "complex" } else { "real" },
            if self.fq { "/freq" } else { "/time" },
            self.d.len(),
            self.delta,
            &self.d[..k],
            if k < self.d.len() { ".." } else { "" }
        )
    }
}
pub fn flat(c: &[C64]) -> Vec<f64> {
    let mut v = Vec::with_capacity(2 * c.len());
    for x in c {
        v.push(x.re);
        v.push(x.im);
    }
    v
}

/// A parametric function used as impulse/frequency response, map function or window.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fun {
    pub kind: u8,
    pub p: [f64; 3],
    pub sym: bool,
    /// busy-wait in every call, only used to perturb thread schedules
    pub delay: u32,
}
impl Fun {
    pub const NONE: Fun = Fun {
        kind: 0,
        p: [1.0, 0.0, 0.0],
        sym: true,
        delay: 0,
    };
    pub fn re(&self, x: f64) -> f64 {
        if self.delay > 0 {
            for _ in 0..self.delay {
                std::hint::spin_loop();
            }
        }
        let [a, b, c] = self.p;
        match self.kind {
            // even
            0 => (-(x / a) * (x / a)).exp() * (1.0 + 0.3 * (c * x).cos()),
            // neither even nor odd
            1 => (-((x - b) / a) * ((x - b) / a)).exp() * (1.0 + 0.2 * (c * x).sin()),
            // triangle, even
            2 => (1.0 - (x / a).abs()).max(0.0),
            // constant
            3 => a,
            // sawtooth like, odd part
            4 => b + c * x / (a + x * x),
            // raised cosine impulse response with roll off a
            5 => rc_imp(x, a),
            6 => sinc(x),
            // raised cosine frequency response with roll off a
            7 => rc_freq(x, a),
            // ideal low pass
            8 => {
                if x.abs() <= 1.0 {
                    1.0
                } else {
                    0.0
                }
            }
            _ => 0.0,
        }
    }
    /// Conjugate symmetric if `sym` for the even kinds.
    pub fn im(&self, x: f64) -> f64 {
        let [a, b, c] = self.p;
        match self.kind {
            0 => x * (-(x / a) * (x / a)).exp() * 0.5,
            1 => (-((x + b) / a) * ((x + b) / a)).exp() * (0.4 + 0.2 * (c * x).cos()),
            2 => x * (1.0 - (x / a).abs()).max(0.0),
            3 => 0.0,
            4 => 0.25 * b + c / (a + x * x),
            _ => 0.0,
        }
    }
    pub fn c(&self, x: f64) -> C64 {
        C64::new(self.re(x), self.im(x))
    }
    /// Bound of the slope, used for the sensitivity to rounded arguments
    pub fn slope(&self) -> f64 {
        let [a, b, c] = self.p;
        match self.kind {
            0 | 1 => 3.0 / a.abs() + c.abs() + 1.0,
            2 => 1.0 / a.abs() + 2.0,
            3 => 0.0,
            4 => (b.abs() + c.abs()) * (1.0 / a.abs() + 1.0) * 2.0,
            _ => 8.0,
        }
    }
}
pub fn sinc(x: f64) -> f64 {
    if x == 0.0 {
        1.0
    } else {
        let p = std::f64::consts::PI * x;
        p.sin() / p
    }
}
pub fn rc_imp(x: f64, r: f64) -> f64 {
    if x == 0.0 {
        return 1.0;
    }
    let two = 2.0 * r * x;
    if (two.abs() - 1.0).abs() < 1e-9 {
        return std::f64::consts::FRAC_PI_4 * sinc(1.0 / (2.0 * r));
    }
    sinc(x) * (std::f64::consts::PI * r * x).cos() / (1.0 - two * two)
}
pub fn rc_freq(x: f64, r: f64) -> f64 {
    let a = x.abs();
    if a <= 1.0 - r {
        1.0
    } else if a <= 1.0 + r {
        0.5 * (1.0 + (std::f64::consts::PI / r * (a - (1.0 - r)) / 2.0).cos())
    } else {
        0.0
    }
}

/// A window evaluated from its index, symmetric around the middle if the function is even.
pub fn fun_window(f: &Fun, n: usize, len: usize) -> f64 {
    let x = n as f64 - (len as f64 - 1.0) / 2.0;
    // stay away from zero so that unapply is well defined
    0.5 + f.re(x * 8.0 / (len as f64 + 1.0)).abs()
}

#[derive(Clone, Debug)]
pub struct Op {
    pub name: &'static str,
    pub f: Vec<f64>,
    pub u: Vec<usize>,
    pub args: Vec<Snap>,
    pub fun: Fun,
}
impl Op {
    pub fn new(name: &'static str) -> Op {
        Op {
            name,
            f: vec![],
            u: vec![],
            args: vec![],
            fun: Fun::NONE,
        }
    }
    pub fn f(mut self, f: &[f64]) -> Op {
        self.f = f.to_vec();
        self
    }
    pub fn u(mut self, u: &[usize]) -> Op {
        self.u = u.to_vec();
        self
    }
    pub fn a(mut self, a: Vec<Snap>) -> Op {
        self.args = a;
        self
    }
    pub fn fun(mut self, f: Fun) -> Op {
        self.fun = f;
        self
    }
    pub fn brief(&self) -> String {
        let mut s = format!("{}(", self.name);
        if !self.f.is_empty() {
            s += &format!("f={:?} ", self.f);
        }
        if !self.u.is_empty() {
            s += &format!("u={:?} ", self.u);
        }
        if self.fun != Fun::NONE {
            s += &format!("fun={:?} ", self.fun);
        }
        for a in &self.args {
            s += &format!("arg={} ", a.brief());
        }
        s + ")"
    }
}

/// Expected values together with the permitted deviation. A tolerance list which is shorter
/// than the data means that the last entry holds for the rest; an empty list means exact.
#[derive(Clone, Debug)]
pub struct Want {
    pub snap: Snap,
    pub tol: Vec<f64>,
}
impl Want {
    pub fn exact(snap: Snap) -> Want {
        Want { snap, tol: vec![] }
    }
    pub fn tol(snap: Snap, tol: f64) -> Want {
        Want {
            snap,
            tol: vec![tol],
        }
    }
}
#[derive(Clone)]
pub struct Good {
    pub v: Want,
    pub extra: Vec<Want>,
    pub sc: Vec<f64>,
    pub sc_tol: Vec<f64>,
    /// Further conditions on the scalars
    pub post: Option<stat::Post>,
}
impl Good {
    pub fn of(v: Want) -> Good {
        Good {
            v,
            extra: vec![],
            sc: vec![],
            sc_tol: vec![],
            post: None,
        }
    }
    pub fn exact(v: Snap) -> Exp {
        Exp::Ok(Good::of(Want::exact(v)))
    }
    pub fn tol(v: Snap, tol: f64) -> Exp {
        Exp::Ok(Good::of(Want::tol(v, tol)))
    }
    pub fn tols(snap: Snap, tol: Vec<f64>) -> Exp {
        Exp::Ok(Good::of(Want { snap, tol }))
    }
    /// The vector isn't changed, scalars are returned
    pub fn scalars(v: &Snap, sc: Vec<f64>, sc_tol: Vec<f64>) -> Exp {
        let mut g = Good::of(Want::exact(v.clone()));
        g.sc = sc;
        g.sc_tol = sc_tol;
        Exp::Ok(g)
    }
    pub fn extras(v: &Snap, extra: Vec<Want>) -> Exp {
        let mut g = Good::of(Want::exact(v.clone()));
        g.extra = extra;
        Exp::Ok(g)
    }
}

/// What is supposed to happen
#[derive(Clone)]
pub enum Exp {
    Ok(Good),
    /// One of these errors is reported and the vector is unchanged
    Err(&'static [&'static str]),
    /// The documented failure of operations without result: length zero, delta NaN
    Invalid,
    /// The documentation doesn't say
    Unspec,
}

pub fn max_abs(d: &[f64]) -> f64 {
    d.iter().fold(0.0f64, |a, x| if x.abs() > a { x.abs() } else { a })
}
pub fn l1(d: &[f64]) -> f64 {
    d.iter().map(|x| x.abs()).sum()
}
pub fn l2(d: &[f64]) -> f64 {
    d.iter().map(|x| x * x).sum::<f64>().sqrt()
}

/// Metadata agreement as documented for binary operations: same number space, domain and (about)
/// the same delta.
pub fn meta_agree(a: &Snap, b: &Snap) -> Option<bool> {
    if a.cx != b.cx || a.fq != b.fq {
        return Some(false);
    }
    let r = a.delta / b.delta;
    if r > 1.12 || r < 0.88 {
        Some(false)
    } else if r < 1.08 && r > 0.92 {
        Some(true)
    } else {
        None
    }
}

/// The expected outcome of an operation on a vector. `eps` is the machine precision
/// of the number type the operation runs with.
pub fn expect(s: &Snap, op: &Op, eps: f64) -> Exp {
    elem::expect(s, op, eps)
        .or_else(|| reorg::expect(s, op, eps))
        .or_else(|| stat::expect(s, op, eps))
        .or_else(|| signal::expect(s, op, eps))
        .unwrap_or(Exp::Unspec)
}
