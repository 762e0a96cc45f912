//! Which instance of an operation has to run.
pub use base::*;

/// A number type together with the instances of the operations.
#[cfg(feature = "std")]
pub trait Flt: base::Flt {
    fn typed(s: &Snap, op: &Op, how: &How, buf: &mut AnyBuf<Self>) -> Obs;
    fn step(v: GenVec<Self>, op: &Op, how: &How, buf: &mut AnyBuf<Self>) -> Step<GenVec<Self>>;
    fn boxed(s: &Snap, op: &Op, how: &How) -> Obs;
    fn slice(s: &Snap, op: &Op, how: &How, offset: usize) -> Obs;
    fn array(s: &Snap, op: &Op, how: &How, offset: usize) -> Obs;
}
#[cfg(not(feature = "std"))]
pub trait Flt: base::Flt {
    fn slice(s: &Snap, op: &Op, how: &How, offset: usize) -> Obs;
    fn array(s: &Snap, op: &Op, how: &How, offset: usize) -> Obs;
}
pub type GenVec<T> = basic_dsp_vector::GenDspVec<Vec<T>, T>;
macro_rules! instances {
    ($T: ty, $t: ident, $g: ident, $s: ident, $a: ident) => {
        impl Flt for $T {
            #[cfg(feature = "std")]
            fn typed(s: &Snap, op: &Op, how: &How, buf: &mut AnyBuf<Self>) -> Obs {
                match (s.cx, s.fq) {
                    (false, false) => $t::run_rt(s, op, how, buf),
                    (false, true) => $t::run_rf(s, op, how, buf),
                    (true, false) => $t::run_ct(s, op, how, buf),
                    (true, true) => $t::run_cf(s, op, how, buf),
                }
            }
            #[cfg(feature = "std")]
            fn step(v: GenVec<Self>, op: &Op, how: &How, buf: &mut AnyBuf<Self>) -> Step<GenVec<Self>> {
                $g::step_gen(v, op, how, buf)
            }
            #[cfg(feature = "std")]
            fn boxed(s: &Snap, op: &Op, how: &How) -> Obs {
                $s::run_box(s, op, how)
            }
            fn slice(s: &Snap, op: &Op, how: &How, offset: usize) -> Obs {
                $s::run_slice(s, op, how, offset)
            }
            fn array(s: &Snap, op: &Op, how: &How, offset: usize) -> Obs {
                $a::run_array(s, op, how, offset)
            }
        }
    };
}
instances!(f32, t32, g32, s32, a32);
instances!(f64, t64, g64, s64, a64);

#[cfg(feature = "std")]
pub fn run_in<T: Flt>(s: &Snap, op: &Op, how: &How, buf: &mut AnyBuf<T>) -> Obs {
    if how.stat {
        T::typed(s, op, how, buf)
    } else {
        match T::step(gen_of::<T>(s, how), op, how, buf) {
            Step::Done(v, e, side) => obs_of(&v, e, side),
            Step::NotAvailable(_) => Obs::NotAvailable,
        }
    }
}

/// Runs an operation once, on a fresh vector.
pub fn run<T: Flt>(s: &Snap, op: &Op, how: &How) -> Obs {
    how.apply_simd();
    let r = guarded(|| match how.storage {
        Storage::Slice(off) => T::slice(s, op, how, off),
        Storage::Array(off) => T::array(s, op, how, off),
        #[cfg(feature = "std")]
        Storage::Boxed => T::boxed(s, op, how),
        #[cfg(feature = "std")]
        _ => {
            let most = crate::gen::longest(s, op);
            let mut buf = AnyBuf::<T>::new(how.buf, 16 * most + if crate::gen::tiny() { 96 } else { 4096 });
            run_in::<T>(s, op, how, &mut buf)
        }
        #[cfg(not(feature = "std"))]
        _ => Obs::NotAvailable,
    });
    match r {
        Ok(o) => o,
        // Without std internal vectors have a documented fixed capacity
        Err(m) if !cfg!(feature = "std") && m.contains("CapacityError") => Obs::NotAvailable,
        Err(m) => Obs::Panic(m),
    }
}
