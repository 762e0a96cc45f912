//! Core vocabulary of the monitors: snapshots of vectors, operations and outcomes.
use crate::util::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::numbers::*;
use basic_dsp_vector::window_functions::*;
use arrayvec::ArrayVec;
use basic_dsp_vector::*;

pub use model::{fun_window, Fun, Op, Snap};

pub fn domain(s: &Snap) -> DataDomain {
    if s.fq {
        DataDomain::Frequency
    } else {
        DataDomain::Time
    }
}

/// Calls of responses and windows so far
pub static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn called() {
    CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}

pub struct FunR(pub Fun);
impl<T: Flt> RealImpulseResponse<T> for FunR {
    fn is_symmetric(&self) -> bool {
        self.0.sym
    }
    fn calc(&self, x: T) -> T {
        called();
        T::of(self.0.re(x.g()))
    }
}
impl<T: Flt> RealFrequencyResponse<T> for FunR {
    fn is_symmetric(&self) -> bool {
        self.0.sym
    }
    fn calc(&self, x: T) -> T {
        called();
        T::of(self.0.re(x.g()))
    }
}
impl<T: Flt> ComplexImpulseResponse<T> for FunR {
    fn is_symmetric(&self) -> bool {
        self.0.sym
    }
    fn calc(&self, x: T) -> Complex<T> {
        called();
        Complex::new(T::of(self.0.re(x.g())), T::of(self.0.im(x.g())))
    }
}
impl<T: Flt> ComplexFrequencyResponse<T> for FunR {
    fn is_symmetric(&self) -> bool {
        self.0.sym
    }
    fn calc(&self, x: T) -> Complex<T> {
        called();
        Complex::new(T::of(self.0.re(x.g())), T::of(self.0.im(x.g())))
    }
}
/// A window evaluated from its index, symmetric around the middle if `sym`.
pub struct FunW(pub Fun);
impl<T: Flt> WindowFunction<T> for FunW {
    fn is_symmetric(&self) -> bool {
        self.0.sym
    }
    fn window(&self, n: usize, length: usize) -> T {
        called();
        T::of(fun_window(&self.0, n, length))
    }
}

/// What was observed when an operation ran.
#[derive(Clone, Debug)]
pub struct Out {
    /// Error reported by the operation
    pub err: Option<ErrorReason>,
    /// The vector after the operation (also after an error)
    pub snap: Snap,
    /// Further vectors which were produced
    pub extra: Vec<Snap>,
    /// Scalar results
    pub sc: Vec<f64>,
}

#[derive(Clone, Debug)]
pub enum Obs {
    Ran(Out),
    Panic(String),
    /// The operation isn't available for this type
    NotAvailable,
}

pub fn snap<S, T, N, D>(v: &DspVec<S, T, N, D>) -> Snap
where
    S: ToSlice<T>,
    T: Flt,
    N: NumberSpace,
    D: Domain,
{
    Snap {
        d: v.data(..).iter().map(|x| x.g()).collect(),
        cx: v.is_complex(),
        fq: v.domain() == DataDomain::Frequency,
        delta: v.delta().g(),
    }
}

pub fn conv<T: Flt>(d: &[f64]) -> Vec<T> {
    d.iter().map(|x| T::of(*x)).collect()
}

/// Rounds the snapshot to values which are exactly representable in T.
pub fn rounded<T: Flt>(s: &Snap) -> Snap {
    Snap {
        d: s.d.iter().map(|x| T::of(*x).g()).collect(),
        cx: s.cx,
        fq: s.fq,
        delta: T::of(s.delta).g(),
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
/// Message and location of the first panic seen in any thread since the last reset.
static PANIC_LOG: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/src/").next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let mut g = PANIC_LOG.lock().unwrap_or_else(|e| e.into_inner());
        if g.is_empty() {
            *g = format!("{} at {}", msg, loc);
        }
    }));
}

/// Runs `f` and turns a panic (in any thread started by it) into an error.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    {
        let mut g = PANIC_LOG.lock().unwrap_or_else(|e| e.into_inner());
        g.clear();
    }
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            let g = PANIC_LOG.lock().unwrap_or_else(|e| e.into_inner());
            Err(g.clone())
        }
    }
}

/// How an operation is executed: type, storage, threads, instruction set.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Storage {
    Vec,
    Boxed,
    /// A mutable slice into a larger array starting `0` elements after a 64 byte boundary
    Slice(usize),
    /// An `ArrayVec` with fixed capacity, `0` words after a 64 byte boundary
    Array(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Buf {
    Single,
    NoBuf,
    /// Buffer which hands out exactly the requested length, filled with garbage
    Poison,
    /// Fixed length buffer
    Fixed,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct How {
    /// 0 = run time checked type, 1 = statically typed
    pub stat: bool,
    pub storage: Storage,
    /// number of garbage elements behind the valid data
    pub slack: usize,
    pub buf: Buf,
    /// core limit and thresholds (med dual, med multi, large dual, large multi)
    pub cores: usize,
    pub thr: [usize; 4],
    /// 0 fallback, 1 SSE2, 2 AVX2
    pub simd: u8,
}
impl How {
    pub const PLAIN: How = How {
        stat: false,
        storage: Storage::Vec,
        slack: 0,
        buf: Buf::Single,
        cores: 1,
        thr: [50_000, 100_000, 20_000, 30_000],
        simd: 0,
    };
    pub fn mcs(&self) -> MultiCoreSettings {
        #[cfg(feature = "std")]
        {
            MultiCoreSettings::with_thresholds(
                self.cores, self.thr[0], self.thr[1], self.thr[2], self.thr[3],
            )
        }
        #[cfg(not(feature = "std"))]
        {
            MultiCoreSettings::default()
        }
    }
    pub fn apply_simd(&self) {
        set_simd(self.simd);
    }
}
pub fn set_simd(_level: u8) {
    #[cfg(basic_dsp_verif)]
    basic_dsp_vector::verif_hooks::set_simd_level(_level);
}
/// Number of instruction set levels which can be selected in this build
pub fn simd_levels() -> &'static [u8] {
    if cfg!(all(feature = "simd", basic_dsp_verif)) {
        &[0, 1, 2]
    } else {
        &[0]
    }
}

/// Garbage value which is used for all memory a result must not depend on.
pub const GARBAGE: f64 = 7.77e33;

/// A buffer which follows the documented contract as unkind as possible: it hands out storage of
/// exactly the requested length, the storage is filled with garbage, and it records all events.
pub struct PoisonBuffer<T> {
    store: Vec<T>,
    pub borrows: usize,
    pub trades: std::rc::Rc<std::cell::Cell<usize>>,
    pub max_len: usize,
}
pub struct PoisonBorrow<T> {
    data: Vec<T>,
    trades: std::rc::Rc<std::cell::Cell<usize>>,
}
impl<T: Flt> PoisonBuffer<T> {
    pub fn new() -> Self {
        PoisonBuffer {
            store: vec![],
            borrows: 0,
            trades: Default::default(),
            max_len: 0,
        }
    }
}
impl<T: Flt> ToSlice<T> for PoisonBorrow<T> {
    fn to_slice(&self) -> &[T] {
        &self.data
    }
    fn len(&self) -> usize {
        self.data.len()
    }
    fn is_empty(&self) -> bool {
        self.data.is_empty()
    }
    fn alloc_len(&self) -> usize {
        self.data.len()
    }
    fn try_resize(&mut self, _len: usize) -> VoidResult {
        Err(ErrorReason::TypeCanNotResize)
    }
}
impl<T: Flt> ToSliceMut<T> for PoisonBorrow<T> {
    fn to_slice_mut(&mut self) -> &mut [T] {
        &mut self.data
    }
}
#[cfg(feature = "std")]
impl<T: Flt> BufferBorrow<Vec<T>, T> for PoisonBorrow<T> {
    fn trade(self, storage: &mut Vec<T>) {
        self.trades.set(self.trades.get() + 1);
        *storage = self.data;
    }
}
#[cfg(feature = "std")]
impl<T: Flt> BufferBorrow<Box<[T]>, T> for PoisonBorrow<T> {
    fn trade(self, storage: &mut Box<[T]>) {
        self.trades.set(self.trades.get() + 1);
        *storage = self.data.into_boxed_slice();
    }
}
impl<T: Flt, const CAP: usize> BufferBorrow<ArrayVec<T, CAP>, T> for PoisonBorrow<T> {
    fn trade(self, storage: &mut ArrayVec<T, CAP>) {
        self.trades.set(self.trades.get() + 1);
        storage.clear();
        storage.try_extend_from_slice(&self.data).expect("harness: capacity");
    }
}
impl<'s, T: Flt> BufferBorrow<&'s mut [T], T> for PoisonBorrow<T> {
    fn trade(self, storage: &mut &'s mut [T]) {
        self.trades.set(self.trades.get() + 1);
        let n = self.data.len();
        storage[..n].copy_from_slice(&self.data);
        for x in storage[n..].iter_mut() {
            *x = T::of(GARBAGE);
        }
    }
}
macro_rules! poison_buffer_impl {
    ($S: ty) => {
        fn borrow(&mut self, len: usize) -> Self::Borrow {
            self.borrows += 1;
            self.max_len = self.max_len.max(len);
            self.store.clear();
            let mut data = Vec::with_capacity(len);
            data.resize(len, T::of(GARBAGE));
            PoisonBorrow {
                data,
                trades: self.trades.clone(),
            }
        }
        fn alloc_len(&self) -> usize {
            0
        }
    };
}
#[cfg(feature = "std")]
impl<'a, T: Flt> Buffer<'a, Vec<T>, T> for PoisonBuffer<T> {
    type Borrow = PoisonBorrow<T>;
    poison_buffer_impl!(Vec<T>);
}
#[cfg(feature = "std")]
impl<'a, T: Flt> Buffer<'a, Box<[T]>, T> for PoisonBuffer<T> {
    type Borrow = PoisonBorrow<T>;
    poison_buffer_impl!(Box<[T]>);
}
impl<'a, T: Flt, const CAP: usize> Buffer<'a, ArrayVec<T, CAP>, T> for PoisonBuffer<T> {
    type Borrow = PoisonBorrow<T>;
    poison_buffer_impl!(ArrayVec<T, CAP>);
}
/// Capacity of the vectors which are stored in `ArrayVec`s
pub const ARRAY_CAP: usize = 6000;
impl<'a, 's, T: Flt> Buffer<'a, &'s mut [T], T> for PoisonBuffer<T> {
    type Borrow = PoisonBorrow<T>;
    poison_buffer_impl!(&'s mut [T]);
}
