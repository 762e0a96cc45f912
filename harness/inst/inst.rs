//! Instances of the operations for one number type and a few vector types. There are several crates
//! with this source so that they get compiled in parallel.
#[allow(unused_imports)]
use base::{*, finish};
use basic_dsp_vector::conv_types::*;
#[allow(unused_imports)]
use basic_dsp_vector::numbers::*;
use basic_dsp_vector::*;
#[cfg(feature = "array")]
use arrayvec::ArrayVec;
#[allow(unused_imports)]
use std::cell::RefCell;
include!("ops.rs");

#[cfg(feature = "t32")]
type T = f32;
#[cfg(not(feature = "t32"))]
type T = f64;


#[cfg(feature = "typed")]
pub fn run_rt(s: &Snap, op: &Op, how: &How, buf: &mut AnyBuf<T>) -> Obs {
    let mut v = rt_of::<T>(s, how);
    let mut side = Side::default();
    let mk = |s: &Snap| rt_of::<T>(s, how);
    let mut r = common_ops!(v, op, buf, side, mk);
    if r.is_none() {
        r = real_ops!(v, op, buf, side, mk);
    }
    if r.is_none() {
        r = interp_ops!(v, op, buf, side);
    }
    if r.is_none() {
        r = time_ops!(v, op, buf, side, mk);
    }
    if let Some(r) = r {
        return obs_of(&v, r.err(), side);
    }
    fn fin<S: ToSlice<T>, T: Flt, N: NumberSpace, D: Domain>(
        v: DspVec<S, T, N, D>,
        e: Option<ErrorReason>,
    ) -> Obs {
        obs_of(&v, e, Side::default())
    }
    consume_real!(v, op, buf, fin);
    consume_time!(v, op, buf, fin);
    consume_real_time!(v, op, buf, fin);
    Obs::NotAvailable
}
#[cfg(feature = "typed")]
pub fn run_rf(s: &Snap, op: &Op, how: &How, buf: &mut AnyBuf<T>) -> Obs {
    let mut v = rf_of::<T>(s, how);
    let mut side = Side::default();
    let mk = |s: &Snap| rf_of::<T>(s, how);
    let mut r = common_ops!(v, op, buf, side, mk);
    if r.is_none() {
        r = real_ops!(v, op, buf, side, mk);
    }
    if r.is_none() {
        r = interp_ops!(v, op, buf, side);
    }
    if r.is_none() {
        r = freq_ops!(v, op, buf, side);
    }
    if let Some(r) = r {
        return obs_of(&v, r.err(), side);
    }
    fn fin<S: ToSlice<T>, T: Flt, N: NumberSpace, D: Domain>(
        v: DspVec<S, T, N, D>,
        e: Option<ErrorReason>,
    ) -> Obs {
        obs_of(&v, e, Side::default())
    }
    consume_real!(v, op, buf, fin);
    Obs::NotAvailable
}
#[cfg(feature = "typed")]
pub fn run_ct(s: &Snap, op: &Op, how: &How, buf: &mut AnyBuf<T>) -> Obs {
    let mut v = ct_of::<T>(s, how);
    let mut side = Side::default();
    let mk = |s: &Snap| ct_of::<T>(s, how);
    let mkr = |s: &Snap| rt_of::<T>(s, how);
    let mkf = |s: &Snap| cf_of::<T>(s, how);
    let mut r = common_ops!(v, op, buf, side, mk);
    if r.is_none() {
        r = complex_ops!(v, op, buf, side, mk, mkr);
    }
    if r.is_none() {
        r = setter_ops!(v, op, mkr);
    }
    if r.is_none() {
        r = interp_ops!(v, op, buf, side);
    }
    if r.is_none() {
        r = time_ops!(v, op, buf, side, mk);
    }
    if r.is_none() {
        r = complex_time_ops!(v, op, buf, side, mk, mkf);
    }
    if let Some(r) = r {
        return obs_of(&v, r.err(), side);
    }
    fn fin<S: ToSlice<T>, T: Flt, N: NumberSpace, D: Domain>(
        v: DspVec<S, T, N, D>,
        e: Option<ErrorReason>,
    ) -> Obs {
        obs_of(&v, e, Side::default())
    }
    consume_complex!(v, op, buf, fin);
    consume_time!(v, op, buf, fin);
    consume_complex_time!(v, op, buf, fin);
    Obs::NotAvailable
}
#[cfg(feature = "typed")]
pub fn run_cf(s: &Snap, op: &Op, how: &How, buf: &mut AnyBuf<T>) -> Obs {
    let mut v = cf_of::<T>(s, how);
    let mut side = Side::default();
    let mk = |s: &Snap| cf_of::<T>(s, how);
    let mkr = |s: &Snap| rf_of::<T>(s, how);
    let mut r = common_ops!(v, op, buf, side, mk);
    if r.is_none() {
        r = complex_ops!(v, op, buf, side, mk, mkr);
    }
    if r.is_none() {
        r = setter_ops!(v, op, mkr);
    }
    if r.is_none() {
        r = interp_ops!(v, op, buf, side);
    }
    if r.is_none() {
        r = freq_ops!(v, op, buf, side);
    }
    if r.is_none() {
        r = complex_freq_ops!(v, op, buf, side);
    }
    if let Some(r) = r {
        return obs_of(&v, r.err(), side);
    }
    fn fin<S: ToSlice<T>, T: Flt, N: NumberSpace, D: Domain>(
        v: DspVec<S, T, N, D>,
        e: Option<ErrorReason>,
    ) -> Obs {
        obs_of(&v, e, Side::default())
    }
    consume_complex!(v, op, buf, fin);
    consume_complex_freq!(v, op, buf, fin);
    Obs::NotAvailable
}
#[cfg(feature = "gen")]
pub fn step_gen(
    v: GenDspVec<Vec<T>, T>,
    op: &Op,
    how: &How,
    buf: &mut AnyBuf<T>,
) -> Step<GenDspVec<Vec<T>, T>> {
    let mut v = v;
    let mut side = Side::default();
    let mk = |s: &Snap| gen_of::<T>(s, how);
    let mut r = gen_inplace!(v, op, buf, side, mk);
    if r.is_none() {
        r = setter_ops!(v, op, mk);
    }
    if r.is_none() {
        r = interp_ops!(v, op, buf, side);
    }
    if r.is_none() {
        r = time_ops!(v, op, buf, side, mk);
    }
    if r.is_none() {
        r = complex_time_ops!(v, op, buf, side, mk, mk);
    }
    if r.is_none() {
        r = freq_ops!(v, op, buf, side);
    }
    match r {
        Some(Ok(())) => return Step::Done(v, None, side),
        Some(Err(e)) => return Step::Done(v, Some(e), side),
        None => (),
    }
    let fin = |v: GenDspVec<Vec<T>, T>, e: Option<ErrorReason>| Step::Done(v, e, side);
    consume_real!(v, op, buf, fin);
    consume_complex!(v, op, buf, fin);
    consume_time!(v, op, buf, fin);
    consume_real_time!(v, op, buf, fin);
    consume_complex_time!(v, op, buf, fin);
    consume_complex_freq!(v, op, buf, fin);
    Step::NotAvailable(v)
}

#[cfg(feature = "boxed")]
pub fn run_box(s: &Snap, op: &Op, how: &How) -> Obs {
    let mut v = box_of::<T>(s, how);
    let mut pb = PoisonBuffer::<T>::new();
    let buf = &mut pb;
    let mut side = Side::default();
    let mk = |s: &Snap| box_of::<T>(s, how);
    let mut r = gen_inplace!(v, op, buf, side, mk);
    if r.is_none() {
        r = interp_ops!(v, op, buf, side);
    }
    if r.is_none() {
        r = freq_ops!(v, op, buf, side);
    }
    if r.is_none() {
        r = time_ops!(v, op, buf, side, mk);
    }
    if r.is_none() {
        r = complex_time_ops!(v, op, buf, side, mk, mk);
    }
    if let Some(r) = r {
        return obs_of(&v, r.err(), side);
    }
    let fin = |v: GenDspVec<Box<[T]>, T>, e: Option<ErrorReason>| obs_of(&v, e, Side::default());
    consume_real!(v, op, buf, fin);
    consume_complex!(v, op, buf, fin);
    consume_time!(v, op, buf, fin);
    consume_real_time!(v, op, buf, fin);
    consume_complex_time!(v, op, buf, fin);
    consume_complex_freq!(v, op, buf, fin);
    Obs::NotAvailable
}

/// Binary operations take their arguments from slices which have another alignment
#[cfg(feature = "slice")]
pub fn run_slice(s: &Snap, op: &Op, how: &How, offset: usize) -> Obs {
    let mut mem = Aligned::<T>::new(&total::<T>(s, how), offset);
    let mut arg_mem: Vec<Aligned<T>> = op
        .args
        .iter()
        .enumerate()
        .map(|(i, a)| Aligned::<T>::new(&total::<T>(a, how), (offset + i + 1) % 5))
        .collect();
    let splits = if op.name == "split_into" { op.u[0] } else { 0 };
    let mut split_mem: Vec<Vec<T>> = (0..splits)
        .map(|_| vec![T::of(GARBAGE); (s.d.len() / splits.max(1)).max(2 * op.u[1])])
        .collect();
    let mut buf_mem = vec![];
    let obs = {
        let pool: Vec<&mut [T]> = if splits > 0 {
            split_mem.iter_mut().map(|x| &mut x[..]).collect()
        } else {
            arg_mem.iter_mut().rev().map(|a| a.get()).collect()
        };
        if how.buf == Buf::Fixed {
            buf_mem.resize(enough(s, op, how), T::of(GARBAGE));
            let mut buf = FixedLenBuffer::new(&mut buf_mem[..]);
            run_slice_with(s, op, how, mem.get(), pool, &mut buf)
        } else {
            run_slice_with(s, op, how, mem.get(), pool, &mut PoisonBuffer::<T>::new())
        }
    };
    if !mem.surroundings_intact() || arg_mem.iter().any(|a| !a.surroundings_intact()) {
        STRAY_WRITE.with(|s| *s.borrow_mut() = true);
    }
    obs
}
/// More memory than any operation on vectors of this size asks a buffer for
#[cfg(feature = "slice")]
fn enough(s: &Snap, op: &Op, how: &How) -> usize {
    let most = op.args.iter().map(|a| a.d.len()).max().unwrap_or(0).max(s.d.len()) + how.slack;
    let asked = match op.name {
        "interpolate" | "interpft" | "zero_pad" | "zero_pad_b" | "resize_b" => 2 * op.u[0],
        "interpolatei" | "zero_interleave" | "zero_interleave_b" => 2 * op.u[0] * most,
        "interpolatef" | "interpolate_lin" | "interpolate_hermite" => (2.0 * op.f[0] * most as f64) as usize,
        "convolve" | "convolve_c" => 8 * op.u[0],
        _ => 0,
    };
    1000 + 40 * most + 4 * asked
}
#[cfg(feature = "slice")]
fn run_slice_with<'y, B>(s: &Snap, op: &Op, how: &How, mem: &'y mut [T], pool: Vec<&'y mut [T]>, buf: &mut B) -> Obs
where
    B: for<'x> Buffer<'x, &'y mut [T], T>,
{
    let mut v = mem.to_gen_dsp_vec(s.cx, domain(s));
    finish!(v, s, how);
    let mut side = Side::default();
    let split = op.name == "split_into";
    let pool = RefCell::new(pool);
    let mk = |a: &Snap| {
        let m = pool.borrow_mut().pop().expect("harness: argument pool");
        let mut v = m.to_gen_dsp_vec(a.cx, domain(a));
        if split {
            v.set_delta(T::of(a.delta));
        } else {
            finish!(v, a, how);
        }
        v
    };
    let mut r = gen_inplace!(v, op, buf, side, mk);
    if r.is_none() {
        r = interp_ops!(v, op, buf, side);
    }
    if r.is_none() {
        r = freq_ops!(v, op, buf, side);
    }
    if r.is_none() {
        r = window_ops!(v, op);
    }
    if r.is_none() {
        r = corr_ops!(v, op, buf, side, mk, mk);
    }
    if let Some(r) = r {
        obs_of(&v, r.err(), side)
    } else {
        let fin =
            |v: GenDspVec<&'y mut [T], T>, e: Option<ErrorReason>| obs_of(&v, e, Side::default());
        (|| {
            consume_real!(v, op, buf, fin);
            consume_complex!(v, op, buf, fin);
            consume_time!(v, op, buf, fin);
            consume_real_time!(v, op, buf, fin);
            consume_complex_time!(v, op, buf, fin);
            consume_complex_freq!(v, op, buf, fin);
            Obs::NotAvailable
        })()
    }
}

/// Storage with a fixed capacity, which is on purpose also larger than required
#[cfg(feature = "array")]
pub type Arr = ArrayVec<T, ARRAY_CAP>;
#[cfg(feature = "array")]
fn arr_of(s: &Snap, how: &How) -> GenDspVec<Arr, T> {
    let mut a = Arr::new();
    a.try_extend_from_slice(&total::<T>(s, how)).expect("harness: capacity");
    let mut v = a.to_gen_dsp_vec(s.cx, domain(s));
    finish!(v, s, how);
    v
}
#[cfg(feature = "array")]
pub fn run_array(s: &Snap, op: &Op, how: &How, offset: usize) -> Obs {
    if how.buf == Buf::Fixed {
        let mut a = Arr::new();
        a.try_resize(ARRAY_CAP).expect("harness: resize");
        run_array_with(s, op, how, offset, &mut FixedLenBuffer::new(a))
    } else {
        run_array_with(s, op, how, offset, &mut PoisonBuffer::<T>::new())
    }
}
#[cfg(feature = "array")]
fn run_array_with<B>(s: &Snap, op: &Op, how: &How, offset: usize, buf: &mut B) -> Obs
where
    B: for<'x> Buffer<'x, Arr, T>,
{
    // The vector holds its data, and is moved to an address with a well defined alignment
    let mut place: Place<GenDspVec<Arr, T>> = Place::new(arr_of(s, how), offset);
    let mut side = Side::default();
    let mk = |s: &Snap| arr_of(s, how);
    {
        let v = place.get();
        let mut r = gen_inplace!((*v), op, buf, side, mk);
        if r.is_none() {
            r = interp_ops!((*v), op, buf, side);
        }
        if r.is_none() {
            r = freq_ops!((*v), op, buf, side);
        }
        if r.is_none() {
            r = time_ops!((*v), op, buf, side, mk);
        }
        if r.is_none() {
            r = complex_time_ops!((*v), op, buf, side, mk, mk);
        }
        if let Some(r) = r {
            return obs_of(v, r.err(), side);
        }
    }
    let v = place.take();
    let fin = |v: GenDspVec<Arr, T>, e: Option<ErrorReason>| obs_of(&v, e, Side::default());
    consume_real!(v, op, buf, fin);
    consume_complex!(v, op, buf, fin);
    consume_time!(v, op, buf, fin);
    consume_real_time!(v, op, buf, fin);
    consume_complex_time!(v, op, buf, fin);
    consume_complex_freq!(v, op, buf, fin);
    Obs::NotAvailable
}
