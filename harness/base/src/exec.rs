//! Buffers, vectors and what operations produce besides of the vector.
use crate::core::*;
use crate::util::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::numbers::*;
use basic_dsp_vector::window_functions::*;
use basic_dsp_vector::*;
use std::cell::RefCell;

pub type Res = Result<(), ErrorReason>;

/// A buffer which delegates to one of several implementations.
#[cfg(feature = "std")]
pub enum AnyBuf<T: Flt> {
    Single(SingleBuffer<T>),
    No(NoBuffer),
    Poison(PoisonBuffer<T>),
    Fixed(FixedLenBuffer<Vec<T>, T>),
}
#[cfg(feature = "std")]
pub enum AnyBorrow<'a, T: Flt> {
    Single(SingleBufferBurrow<'a, T>),
    No(NoBufferBurrow<T>),
    Poison(PoisonBorrow<T>),
    Fixed(FixedLenBufferBurrow<'a, T>),
}
#[cfg(feature = "std")]
impl<T: Flt> AnyBuf<T> {
    pub fn new(kind: Buf, fixed_len: usize) -> AnyBuf<T> {
        match kind {
            Buf::Single => AnyBuf::Single(SingleBuffer::new()),
            Buf::NoBuf => AnyBuf::No(NoBuffer),
            Buf::Poison => AnyBuf::Poison(PoisonBuffer::new()),
            Buf::Fixed => {
                AnyBuf::Fixed(FixedLenBuffer::new(vec![T::of(GARBAGE); fixed_len]))
            }
        }
    }
    pub fn allocated(&self) -> usize {
        fn a<T: Flt, B: for<'x> Buffer<'x, Vec<T>, T>>(b: &B) -> usize {
            b.alloc_len()
        }
        match self {
            AnyBuf::Single(b) => a::<T, _>(b),
            AnyBuf::No(b) => a::<T, _>(b),
            AnyBuf::Poison(b) => a::<T, _>(b),
            AnyBuf::Fixed(b) => a::<T, _>(b),
        }
    }
}
#[cfg(feature = "std")]
macro_rules! each_borrow {
    ($s: expr, $b: ident => $e: expr) => {
        match $s {
            AnyBorrow::Single($b) => $e,
            AnyBorrow::No($b) => $e,
            AnyBorrow::Poison($b) => $e,
            AnyBorrow::Fixed($b) => $e,
        }
    };
}
#[cfg(feature = "std")]
impl<'a, T: Flt> ToSlice<T> for AnyBorrow<'a, T> {
    fn to_slice(&self) -> &[T] {
        each_borrow!(self, b => b.to_slice())
    }
    fn len(&self) -> usize {
        each_borrow!(self, b => b.len())
    }
    fn is_empty(&self) -> bool {
        each_borrow!(self, b => b.is_empty())
    }
    fn alloc_len(&self) -> usize {
        each_borrow!(self, b => b.alloc_len())
    }
    fn try_resize(&mut self, len: usize) -> VoidResult {
        each_borrow!(self, b => b.try_resize(len))
    }
}
#[cfg(feature = "std")]
impl<'a, T: Flt> ToSliceMut<T> for AnyBorrow<'a, T> {
    fn to_slice_mut(&mut self) -> &mut [T] {
        each_borrow!(self, b => b.to_slice_mut())
    }
}
#[cfg(feature = "std")]
impl<'a, T: Flt> BufferBorrow<Vec<T>, T> for AnyBorrow<'a, T> {
    fn trade(self, storage: &mut Vec<T>) {
        each_borrow!(self, b => b.trade(storage))
    }
}
#[cfg(feature = "std")]
impl<'a, T: Flt> Buffer<'a, Vec<T>, T> for AnyBuf<T> {
    type Borrow = AnyBorrow<'a, T>;
    fn borrow(&'a mut self, len: usize) -> Self::Borrow {
        match self {
            AnyBuf::Single(b) => AnyBorrow::Single(b.borrow(len)),
            AnyBuf::No(b) => AnyBorrow::No(b.borrow(len)),
            AnyBuf::Poison(b) => {
                AnyBorrow::Poison(<PoisonBuffer<T> as Buffer<'a, Vec<T>, T>>::borrow(b, len))
            }
            AnyBuf::Fixed(b) => AnyBorrow::Fixed(b.borrow(len)),
        }
    }
    fn alloc_len(&self) -> usize {
        self.allocated()
    }
}

/// Everything an operation produced besides the vector itself
#[derive(Default)]
pub struct Side {
    pub extra: Vec<Snap>,
    pub sc: Vec<f64>,
}

pub fn pad_opt(u: usize) -> PaddingOption {
    match u {
        0 => PaddingOption::End,
        1 => PaddingOption::Surround,
        _ => PaddingOption::Center,
    }
}

pub fn stats_r<T: Flt>(s: &Statistics<T>, o: &mut Vec<f64>) {
    o.extend_from_slice(&[
        s.sum.g(),
        s.count as f64,
        s.average.g(),
        s.rms.g(),
        s.min.g(),
        s.min_index as f64,
        s.max.g(),
        s.max_index as f64,
    ]);
}
pub fn stats_c<T: Flt>(s: &Statistics<Complex<T>>, o: &mut Vec<f64>) {
    o.extend_from_slice(&[
        s.sum.re.g(),
        s.sum.im.g(),
        s.count as f64,
        s.average.re.g(),
        s.average.im.g(),
        s.rms.re.g(),
        s.rms.im.g(),
        s.min.re.g(),
        s.min.im.g(),
        s.min_index as f64,
        s.max.re.g(),
        s.max.im.g(),
        s.max_index as f64,
    ]);
}
/// Statistics of parts (contiguous, interleaved or with empty parts) which are merged afterwards, with some
/// styles those of several columns
pub fn merged<T: Flt, E: Copy>(x: &[E], u: &[usize]) -> Vec<Statistics<E>>
where
    Statistics<E>: Stats<E>,
{
    let (parts, style, cols) = (u[0], u[1] % 3, u[2]);
    let rows = (x.len() + cols - 1) / cols;
    let mut s: Vec<_> = (0..parts).map(|_| Statistics::<E>::empty_vec(cols)).collect();
    for (i, v) in x.iter().enumerate() {
        let i = (i / cols, i % cols);
        let p = match style {
            0 => i.0 * parts / rows,
            1 => i.0 % parts,
            // only some of the parts are used
            _ => parts - 1 - (i.0 % parts) / 2,
        };
        s[p][i.1].add(*v, i.0);
    }
    if u[1] < 3 {
        (0..cols).map(|c| Statistics::<E>::merge(&s.iter().map(|p| p[c]).collect::<Vec<_>>()[..])).collect()
    } else {
        Statistics::<E>::merge_cols(&s[..]).iter().cloned().collect()
    }
}
pub const STAT_R: usize = 8;
pub const STAT_C: usize = 13;

/// The window functions by number
pub enum Win<T: Flt> {
    Tri(TriangularWindow),
    Ham(HammingWindow<T>),
    BH(BlackmanHarrisWindow),
    Rect(RectangularWindow),
    Fun(FunW),
}
impl<T: Flt> Win<T> {
    pub fn of(op: &Op) -> Win<T> {
        match op.u.first().cloned().unwrap_or(0) {
            0 => Win::Tri(TriangularWindow),
            1 => Win::Ham(HammingWindow::default()),
            2 => Win::BH(BlackmanHarrisWindow),
            3 => Win::Rect(RectangularWindow),
            _ => Win::Fun(FunW(op.fun)),
        }
    }
    pub fn r(&self) -> &dyn WindowFunction<T> {
        match self {
            Win::Tri(w) => w,
            Win::Ham(w) => w,
            Win::BH(w) => w,
            Win::Rect(w) => w,
            Win::Fun(w) => w,
        }
    }
}

/// Impulse and frequency responses by number
pub enum Resp<T: Flt> {
    Fun(FunR),
    Rc(RaisedCosineFunction<T>),
    Sinc(SincFunction<T>),
}
impl<T: Flt> Resp<T> {
    pub fn of(op: &Op, idx: usize) -> Resp<T> {
        match op.u.get(idx).cloned().unwrap_or(0) {
            1 => Resp::Rc(RaisedCosineFunction::new(T::of(op.fun.p[0]))),
            2 => Resp::Sinc(SincFunction::new()),
            _ => Resp::Fun(FunR(op.fun)),
        }
    }
    pub fn imp(&self) -> &dyn RealImpulseResponse<T> {
        match self {
            Resp::Fun(r) => r,
            Resp::Rc(r) => r,
            Resp::Sinc(r) => r,
        }
    }
    pub fn frq(&self) -> &dyn RealFrequencyResponse<T> {
        match self {
            Resp::Fun(r) => r,
            Resp::Rc(r) => r,
            Resp::Sinc(r) => r,
        }
    }
}

#[macro_export]
macro_rules! finish {
    ($v: ident, $s: ident, $how: ident) => {{
        $v.set_multicore_settings($how.mcs());
        if $how.slack > 0 {
            $v.resize($s.d.len()).expect("harness: resize");
        }
        $v.set_delta(T::of($s.delta));
    }};
}

/// Builds storage with `slack` garbage elements behind the data.
pub fn dirty<T: Flt>(d: &[f64], slack: usize) -> Vec<T> {
    let mut v: Vec<T> = conv(d);
    for _ in 0..slack {
        v.push(T::of(GARBAGE));
    }
    // so that a sanitizer notices accesses beyond the end
    v.shrink_to_fit();
    v
}


/// Brings new slack to an even length so that complex vectors are accepted.
pub fn total<T: Flt>(s: &Snap, how: &How) -> Vec<T> {
    let mut slack = how.slack;
    if s.cx {
        slack += slack % 2;
    }
    dirty::<T>(&s.d, slack)
}

#[cfg(feature = "std")]
pub fn gen_of<T: Flt>(s: &Snap, how: &How) -> GenDspVec<Vec<T>, T> {
    let mut v = if s.cx && how.slack % 2 == 1 {
        // Complex vectors get storage of odd length from real vectors
        let v = dirty::<T>(&s.d, how.slack).to_gen_dsp_vec(false, domain(s));
        GenDspVec::rededicate_with_runtime_data(v, true, domain(s))
    } else {
        total::<T>(s, how).to_gen_dsp_vec(s.cx, domain(s))
    };
    finish!(v, s, how);
    v
}
#[cfg(feature = "std")]
pub fn box_of<T: Flt>(s: &Snap, how: &How) -> GenDspVec<Box<[T]>, T> {
    let mut v = total::<T>(s, how)
        .into_boxed_slice()
        .to_gen_dsp_vec(s.cx, domain(s));
    finish!(v, s, how);
    v
}
#[cfg(feature = "std")]
pub fn rt_of<T: Flt>(s: &Snap, how: &How) -> RealTimeVec<Vec<T>, T> {
    let mut v = total::<T>(s, how).to_real_time_vec();
    finish!(v, s, how);
    v
}
#[cfg(feature = "std")]
pub fn rf_of<T: Flt>(s: &Snap, how: &How) -> RealFreqVec<Vec<T>, T> {
    let mut v = total::<T>(s, how).to_real_freq_vec();
    finish!(v, s, how);
    v
}
#[cfg(feature = "std")]
pub fn ct_of<T: Flt>(s: &Snap, how: &How) -> ComplexTimeVec<Vec<T>, T> {
    let mut v = if how.slack % 2 == 1 {
        ComplexTimeVec::rededicate_from_force(dirty::<T>(&s.d, how.slack).to_real_time_vec())
    } else {
        total::<T>(s, how).to_complex_time_vec()
    };
    finish!(v, s, how);
    v
}
#[cfg(feature = "std")]
pub fn cf_of<T: Flt>(s: &Snap, how: &How) -> ComplexFreqVec<Vec<T>, T> {
    let mut v = if how.slack % 2 == 1 {
        ComplexFreqVec::rededicate_from_force(dirty::<T>(&s.d, how.slack).to_real_freq_vec())
    } else {
        total::<T>(s, how).to_complex_freq_vec()
    };
    finish!(v, s, how);
    v
}


pub fn obs_of<S, T, N, D>(v: &DspVec<S, T, N, D>, err: Option<ErrorReason>, side: Side) -> Obs
where
    S: ToSlice<T>,
    T: Flt,
    N: NumberSpace,
    D: Domain,
{
    if v.len() > v.alloc_len() {
        let what = if err.is_some() { "failure" } else { "success" };
        return Obs::Panic(format!("{} was reported, but the vector is longer than its memory", what));
    }
    Obs::Ran(Out {
        err,
        snap: snap(v),
        extra: side.extra,
        sc: side.sc,
    })
}

pub enum Step<V> {
    Done(V, Option<ErrorReason>, Side),
    NotAvailable(V),
}

/// Memory of which a slice with a well defined alignment can be taken. It's surrounded by garbage which
/// is checked, or ends exactly where the slice ends if a sanitizer watches (`MON_EXACT`).
pub struct Aligned<T> {
    ptr: *mut T,
    layout: std::alloc::Layout,
    total: usize,
    start: usize,
    len: usize,
}
impl<T: Flt> Aligned<T> {
    pub fn new(d: &[T], offset: usize) -> Aligned<T> {
        let sz = std::mem::size_of::<T>();
        let exact = std::env::var_os("MON_EXACT").is_some();
        let (front, back) = if exact { (offset, 0) } else { (offset + 64 / sz, 64 / sz) };
        let total = front + d.len() + back;
        let layout = std::alloc::Layout::from_size_align((total * sz).max(1), 64).unwrap();
        let ptr = unsafe { std::alloc::alloc(layout) as *mut T };
        assert!(!ptr.is_null());
        for i in 0..total {
            let x = if i >= front && i < front + d.len() { d[i - front] } else { T::of(GARBAGE) };
            unsafe { ptr.add(i).write(x) };
        }
        Aligned { ptr, layout, total, start: front, len: d.len() }
    }
    pub fn get(&mut self) -> &mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr.add(self.start), self.len) }
    }
    /// Nothing outside of the slice must ever be written
    pub fn surroundings_intact(&self) -> bool {
        let g = T::of(GARBAGE);
        let is_garbage = |i: usize| unsafe { *self.ptr.add(i) == g };
        (0..self.start).all(is_garbage) && (self.start + self.len..self.total).all(is_garbage)
    }
}
impl<T> Drop for Aligned<T> {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.ptr as *mut u8, self.layout) }
    }
}

/// Keeps a value at an address which is `8 * offset` bytes (or the next address which suits the type)
/// behind a 64 byte boundary.
pub struct Place<V> {
    ptr: *mut u8,
    layout: std::alloc::Layout,
    at: usize,
    full: bool,
    v: std::marker::PhantomData<V>,
}
impl<V> Place<V> {
    pub fn new(v: V, offset: usize) -> Place<V> {
        let align = std::mem::align_of::<V>();
        let at = (8 * offset + align - 1) / align * align;
        let size = at + std::mem::size_of::<V>();
        let layout = std::alloc::Layout::from_size_align(size, align.max(64)).unwrap();
        let ptr = unsafe { std::alloc::alloc(layout) };
        assert!(!ptr.is_null());
        unsafe { (ptr.add(at) as *mut V).write(v) };
        Place { ptr, layout, at, full: true, v: std::marker::PhantomData }
    }
    pub fn get(&mut self) -> &mut V {
        assert!(self.full);
        unsafe { &mut *(self.ptr.add(self.at) as *mut V) }
    }
    pub fn take(&mut self) -> V {
        assert!(self.full);
        self.full = false;
        unsafe { (self.ptr.add(self.at) as *mut V).read() }
    }
}
impl<V> Drop for Place<V> {
    fn drop(&mut self) {
        unsafe {
            if self.full {
                (self.ptr.add(self.at) as *mut V).drop_in_place();
            }
            std::alloc::dealloc(self.ptr, self.layout)
        }
    }
}

thread_local! {
    /// Set if an operation wrote outside of the slice it was given
    pub static STRAY_WRITE: RefCell<bool> = RefCell::new(false);
}


/// What was observed when an operation on a matrix ran
#[derive(Clone, Debug)]
pub struct MOut {
    pub err: Option<ErrorReason>,
    pub rows: Vec<Snap>,
    /// Further matrices
    pub extra: Vec<Vec<Snap>>,
    /// Scalars for each row
    pub sc: Vec<Vec<f64>>,
    /// number of rows, length and points of a row
    pub meta: [usize; 3],
    pub cx: bool,
    pub fq: bool,
    pub delta: f64,
}
#[derive(Clone, Debug)]
pub enum MObs {
    Ran(MOut),
    NotAvailable,
}
/// A type of matrix and its operations
#[cfg(feature = "std")]
pub struct Type<T: Flt> {
    /// Number space and domain of the rows (complex, frequency) if these are fixed
    pub kind: Option<(bool, bool)>,
    /// Number of rows if it's fixed, else 0
    pub rows: usize,
    pub run: fn(&[Snap], &Op, &[Op], bool, &How, &mut AnyBuf<T>) -> MObs,
    pub conv: Option<fn(&[Snap], &[Vec<Snap>], &How, &mut AnyBuf<T>) -> MObs>,
    pub create: Option<fn(&[Vec<f64>], bool, bool) -> (MObs, Vec<Snap>, usize)>,
}
/// Creates a vector from numbers
#[cfg(feature = "std")]
pub fn create_row<T: Flt>(d: &[f64], kind: Option<(bool, bool)>, cx: bool, fq: bool) -> Snap {
    let d: Vec<T> = conv(d);
    match kind {
        None => snap(&d.to_gen_dsp_vec(cx, if fq { DataDomain::Frequency } else { DataDomain::Time })),
        Some((false, false)) => snap(&d.to_real_time_vec()),
        Some((false, true)) => snap(&d.to_real_freq_vec()),
        Some((true, false)) => snap(&d.to_complex_time_vec()),
        Some((true, true)) => snap(&d.to_complex_freq_vec()),
    }
}
