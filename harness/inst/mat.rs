//! The operations on matrices. There are several crates with this source, each for other types of rows.
#![allow(unused_macros, unused_variables, unused_imports, unused_mut)]
use base::*;
use basic_dsp_matrix::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::numbers::*;
use basic_dsp_vector::*;
include!("ops.rs");

#[cfg(feature = "mg")]
type T = f32;
#[cfg(not(feature = "mg"))]
type T = f64;

/// Rows of a matrix can be observed
pub trait Row: Vector<T> {
    fn see(&self) -> Snap;
}
impl<N: NumberSpace, D: Domain> Row for DspVec<Vec<T>, T, N, D> {
    fn see(&self) -> Snap {
        snap(self)
    }
}
fn mout<V: Row, M: Matrix<V, T>>(m: M, err: Option<ErrorReason>, side: MSide) -> MObs {
    MObs::Ran(MOut {
        err,
        rows: m.rows().iter().map(|x| x.see()).collect(),
        extra: side.extra,
        sc: side.sc,
        meta: [m.col_len(), m.row_len(), m.row_points()],
        cx: m.is_complex(),
        fq: m.domain() == DataDomain::Frequency,
        delta: m.delta().g(),
    })
}
#[derive(Default)]
struct MSide {
    extra: Vec<Vec<Snap>>,
    sc: Vec<Vec<f64>>,
}

macro_rules! wrap {
    (0, $v: expr) => {
        $v.to_mat()
    };
    ($n: tt, $v: expr) => {
        <[_; $n]>::try_from($v).ok().expect("harness: number of rows").to_mat()
    };
}
macro_rules! wrap_raw {
    (0, $v: expr) => {
        $v
    };
    ($n: tt, $v: expr) => {
        <[_; $n]>::try_from($v).ok().expect("harness: number of rows")
    };
}
macro_rules! list_of {
    (0, $t: ty) => {
        Vec<$t>
    };
    ($n: tt, $t: ty) => {
        [$t; $n]
    };
}
macro_rules! each_scalar {
    ($side: ident, $e: expr) => {
        match $e {
            Ok(list) => {
                for x in list.into_iter() {
                    $side.sc.push(vec![x.g()]);
                }
                Some(Ok(()))
            }
            Err(e) => Some(Err(e)),
        }
    };
}
/// Scalar results of matrices with real rows
macro_rules! mat_scalar_ops {
    ($n: tt, $m: ident, $op: ident, $marg: ident, $side: ident, $mk: ident, $mkv: ident) => {{
        let f: Vec<T> = conv(&$op.f);
        let r: Option<Res> = match $op.name {
            "dot_product_r" if $marg => {
                each_scalar!($side, DotProductOps::<_, _, T, _, _>::dot_product(&$m, &$mk(&$op.args[0])))
            }
            "dot_product_r" => {
                each_scalar!($side, DotProductOps::<_, _, T, _, _>::dot_product(&$m, &$mkv(&$op.args[0])))
            }
            "dot_product_prec_r" if $marg => each_scalar!(
                $side,
                PreciseDotProductOps::<_, _, T, _, _>::dot_product_prec(&$m, &$mk(&$op.args[0]))
            ),
            "dot_product_prec_r" => each_scalar!(
                $side,
                PreciseDotProductOps::<_, _, T, _, _>::dot_product_prec(&$m, &$mkv(&$op.args[0]))
            ),
            "sum_r" => each_scalar!($side, Res2::Ok(SumOps::<list_of!($n, T)>::sum(&$m))),
            "sum_sq_r" => each_scalar!($side, Res2::Ok(SumOps::<list_of!($n, T)>::sum_sq(&$m))),
            "sum_prec_r" => {
                each_scalar!($side, Res2::Ok(PreciseSumOps::<list_of!($n, f64)>::sum_prec(&$m)))
            }
            "sum_sq_prec_r" => {
                each_scalar!($side, Res2::Ok(PreciseSumOps::<list_of!($n, f64)>::sum_sq_prec(&$m)))
            }
            "statistics_r" => {
                for s in StatisticsOps::<T>::statistics(&$m).into_iter() {
                    let mut sc = vec![];
                    stats_r(&s, &mut sc);
                    $side.sc.push(sc);
                }
                Some(Ok(()))
            }
            "statistics_split_r" => match StatisticsSplitOps::<T>::statistics_split(&$m, $op.u[0]) {
                Ok(list) => {
                    for s in list.into_iter() {
                        let mut sc = vec![];
                        for x in s.iter() {
                            stats_r(x, &mut sc);
                        }
                        $side.sc.push(sc);
                    }
                    Some(Ok(()))
                }
                Err(e) => Some(Err(e)),
            },
            #[cfg(not(feature = "mg"))]
            "statistics_prec_r" => {
                for s in PreciseStatisticsOps::<T>::statistics_prec(&$m).into_iter() {
                    let mut sc = vec![];
                    stats_r(&s, &mut sc);
                    $side.sc.push(sc);
                }
                Some(Ok(()))
            }
            #[cfg(not(feature = "mg"))]
            "statistics_split_prec_r" => {
                match PreciseStatisticsSplitOps::<T>::statistics_split_prec(&$m, $op.u[0]) {
                    Ok(list) => {
                        for s in list.into_iter() {
                            let mut sc = vec![];
                            for x in s.iter() {
                                stats_r(x, &mut sc);
                            }
                            $side.sc.push(sc);
                        }
                        Some(Ok(()))
                    }
                    Err(e) => Some(Err(e)),
                }
            }
            "map_aggregate_r" => {
                let fun = $op.fun;
                let argument = f[0];
                let lens: Vec<usize> = $m.rows().iter().map(|x| x.len()).collect();
                let r = $m.map_aggregate(
                    argument,
                    &move |x: T, i: usize, a: T| {
                        fun.re(0.0);
                        let ok = if a == argument { 1.0 } else { 0.0 };
                        vec![(i as f64, x.g(), ok)]
                    },
                    &|mut a: Vec<(f64, f64, f64)>, mut b: Vec<(f64, f64, f64)>| {
                        a.append(&mut b);
                        a
                    },
                );
                match r {
                    Ok(lists) => {
                        for (mut list, len) in lists.into_iter().zip(lens) {
                            list.sort_by(|a, b| a.partial_cmp(b).unwrap());
                            let mut sc = vec![len as f64];
                            for (i, x, o) in list {
                                sc.extend_from_slice(&[i, x, o]);
                            }
                            $side.sc.push(sc);
                        }
                        Some(Ok(()))
                    }
                    Err(e) => Some(Err(e)),
                }
            }
            _ => None,
        };
        r
    }};
}
type Res2<T> = Result<T, ErrorReason>;
/// Getters with matrices as destinations
macro_rules! mat_getter_ops {
    ($m: ident, $op: ident, $side: ident, $mk: ident) => {{
        macro_rules! getter {
            ($g: ident) => {{
                let mut d = $mk(&$op.args[0]);
                $m.$g(&mut d);
                ok!($side.extra.push(d.rows().iter().map(|x| x.see()).collect()))
            }};
        }
        macro_rules! getter2 {
            ($g: ident) => {{
                let mut d = $mk(&$op.args[0]);
                let mut e = $mk(&$op.args[1]);
                $m.$g(&mut d, &mut e);
                $side.extra.push(d.rows().iter().map(|x| x.see()).collect());
                ok!($side.extra.push(e.rows().iter().map(|x| x.see()).collect()))
            }};
        }
        let r: Option<Res> = match $op.name {
            "get_real" => getter!(get_real),
            "get_imag" => getter!(get_imag),
            "get_magnitude" => getter!(get_magnitude),
            "get_magnitude_squared" => getter!(get_magnitude_squared),
            "get_phase" => getter!(get_phase),
            "get_real_imag" => getter2!(get_real_imag),
            "get_mag_phase" => getter2!(get_mag_phase),
            _ => None,
        };
        r
    }};
}
macro_rules! runner {
    ($name: ident, $n: tt, $of: ident, $m: ident, $op: ident, $marg: ident, $buf: ident, $side: ident, $mk: ident, $mkv: ident,
     { $($more: expr),* }, { $($consume: ident),* }) => {
        pub fn $name(
            rows: &[Snap],
            $op: &Op,
            ops: &[Op],
            $marg: bool,
            how: &How,
            $buf: &mut AnyBuf<T>,
        ) -> MObs {
            let mut $m = wrap!($n, rows.iter().map(|s| $of::<T>(s, how)).collect::<Vec<_>>());
            let which = |s: &Snap| {
                $op.args.iter().position(|a| std::ptr::eq(a, s)).expect("harness: argument")
            };
            // A matrix with the arguments of the rows
            let $mk = |s: &Snap| {
                let k = which(s);
                wrap!($n, ops.iter().map(|o| $of::<T>(&o.args[k], how)).collect::<Vec<_>>())
            };
            // The same vector for all rows
            let $mkv = |s: &Snap| $of::<T>(s, how);
            let mut $side = MSide::default();
            let mut r = elem_ops!($m, $op, $buf, $side, $mk);
            if r.is_none() {
                r = if $marg {
                    binary_ops!($m, $op, $buf, $side, $mk)
                } else {
                    binary_ops!($m, $op, $buf, $side, $mkv)
                };
            }
            $(
                if r.is_none() {
                    r = $more;
                }
            )*
            if let Some(r) = r {
                return mout($m, r.err(), $side);
            }
            fn fin<V: Row, M: Matrix<V, T>>(m: M, err: Option<ErrorReason>) -> MObs {
                mout(m, err, MSide::default())
            }
            $( $consume!($m, $op, $buf, fin); )*
            MObs::NotAvailable
        }
    };
}
/// A matrix of impulse responses
macro_rules! conv_runner {
    ($name: ident, 0, $of: ident) => {
        pub fn $name(rows: &[Snap], irs: &[Vec<Snap>], how: &How, buf: &mut AnyBuf<T>) -> MObs {
            let mut m = wrap!(0, rows.iter().map(|s| $of::<T>(s, how)).collect::<Vec<_>>());
            let all: Vec<Vec<_>> =
                irs.iter().map(|r| r.iter().map(|s| $of::<T>(s, how)).collect()).collect();
            let refs: Vec<Vec<_>> = all.iter().map(|r| r.iter().collect()).collect();
            let refs2: Vec<&Vec<_>> = refs.iter().collect();
            let e = m.convolve_signal(buf, &refs2).err();
            mout(m, e, MSide::default())
        }
    };
    ($name: ident, $n: tt, $of: ident) => {
        pub fn $name(rows: &[Snap], irs: &[Vec<Snap>], how: &How, buf: &mut AnyBuf<T>) -> MObs {
            let mut m = wrap!($n, rows.iter().map(|s| $of::<T>(s, how)).collect::<Vec<_>>());
            let all: Vec<Vec<_>> =
                irs.iter().map(|r| r.iter().map(|s| $of::<T>(s, how)).collect()).collect();
            let refs: Vec<[_; $n]> = all
                .iter()
                .map(|r| <[_; $n]>::try_from(r.iter().collect::<Vec<_>>()).ok().expect("harness: columns"))
                .collect();
            let refs2 = wrap_raw!($n, refs);
            let e = m.convolve_signal(buf, &refs2).err();
            mout(m, e, MSide::default())
        }
    };
}
/// Creates a matrix from numbers and takes the storage out again
macro_rules! create_runner {
    ($name: ident, $n: tt, $m: ident, $to: expr) => {
        pub fn $name(raw: &[Vec<f64>], cx: bool, fq: bool) -> (MObs, Vec<Snap>, usize) {
            let domain = if fq { DataDomain::Frequency } else { DataDomain::Time };
            let data: Vec<Vec<T>> = raw.iter().map(|x| base::conv::<T>(x)).collect();
            let $m = wrap_raw!($n, data.clone());
            let m = $to(cx, domain)($m);
            let o = mout(m, None, MSide::default());
            let $m = wrap_raw!($n, data);
            let m = $to(cx, domain)($m);
            let (storage, len) = m.get();
            let storage = storage.into_iter().map(|x| x.see()).collect();
            (o, storage, len)
        }
    };
}
macro_rules! real_kind {
    ($name: ident, $n: tt, $of: ident, time) => {
        runner!($name, $n, $of, m, op, marg, buf, side, mk, mkv, {
            real_elem_ops!(m, op, buf, side, mk),
            mat_scalar_ops!($n, m, op, marg, side, mk, mkv),
            interp_ops!(m, op, buf, side),
            time_ops!(m, op, buf, side, mkv)
        }, { consume_real, consume_time, consume_real_time });
    };
    ($name: ident, $n: tt, $of: ident, freq) => {
        runner!($name, $n, $of, m, op, marg, buf, side, mk, mkv, {
            real_elem_ops!(m, op, buf, side, mk),
            mat_scalar_ops!($n, m, op, marg, side, mk, mkv),
            interp_ops!(m, op, buf, side),
            freq_ops!(m, op, buf, side)
        }, { consume_real });
    };
}
macro_rules! complex_kind {
    ($name: ident, $n: tt, $of: ident, time) => {
        runner!($name, $n, $of, m, op, marg, buf, side, mk, mkv, {
            complex_elem_ops!(m, op, buf, side, mk, mk),
            interp_ops!(m, op, buf, side),
            time_ops!(m, op, buf, side, mkv),
            conv_c_ops!(m, op, buf, side, mk, mk)
        }, { consume_complex, consume_time, consume_complex_time });
    };
    ($name: ident, $n: tt, $of: ident, freq) => {
        runner!($name, $n, $of, m, op, marg, buf, side, mk, mkv, {
            complex_elem_ops!(m, op, buf, side, mk, mk),
            interp_ops!(m, op, buf, side),
            freq_ops!(m, op, buf, side),
            complex_freq_ops!(m, op, buf, side)
        }, { consume_complex, consume_complex_freq });
    };
}
macro_rules! gen_kind {
    ($name: ident, $n: tt) => {
        runner!($name, $n, gen_of, m, op, marg, buf, side, mk, mkv, {
            real_elem_ops!(m, op, buf, side, mk),
            mat_scalar_ops!($n, m, op, marg, side, mk, mkv),
            complex_elem_ops!(m, op, buf, side, mk, mk),
            mat_getter_ops!(m, op, side, mk),
            setter_ops!(m, op, mk),
            interp_ops!(m, op, buf, side),
            time_ops!(m, op, buf, side, mkv),
            conv_c_ops!(m, op, buf, side, mk, mk),
            corr_ops!(m, op, buf, side, mk, mk),
            freq_ops!(m, op, buf, side),
            complex_freq_ops!(m, op, buf, side)
        }, {
            consume_real, consume_complex, consume_time, consume_real_time, consume_complex_time,
            consume_complex_freq
        });
    };
}
macro_rules! table {
    ($($t: expr),*) => {
        /// The matrices of this crate
        pub fn types() -> Vec<Type<T>> {
            vec![$($t),*]
        }
    };
}
macro_rules! entry {
    ($kind: expr, $n: expr, $run: ident, $conv: expr, $create: expr) => {
        Type { kind: $kind, rows: $n, run: $run, conv: $conv, create: $create }
    };
}

#[cfg(feature = "mg")]
mod types {
    use super::*;
    gen_kind!(g0, 0);
    gen_kind!(g2, 2);
    gen_kind!(g3, 3);
    gen_kind!(g4, 4);
    conv_runner!(c0, 0, gen_of);
    conv_runner!(c3, 3, gen_of);
    create_runner!(n0, 0, m, |cx, d| move |m: Vec<Vec<T>>| m.to_gen_dsp_mat(cx, d));
    create_runner!(n2, 2, m, |cx, d| move |m: [Vec<T>; 2]| m.to_gen_dsp_mat(cx, d));
    create_runner!(n3, 3, m, |cx, d| move |m: [Vec<T>; 3]| m.to_gen_dsp_mat(cx, d));
    create_runner!(n4, 4, m, |cx, d| move |m: [Vec<T>; 4]| m.to_gen_dsp_mat(cx, d));
    table!(
        entry!(None, 0, g0, Some(c0), Some(n0)),
        entry!(None, 2, g2, None, Some(n2)),
        entry!(None, 3, g3, Some(c3), Some(n3)),
        entry!(None, 4, g4, None, Some(n4))
    );
    /// Changes the type of the rows: 0 force to complex time, 1 force to real freq, 2 with run time data
    pub fn rededicate(rows: &[Snap], n: usize, way: usize, cx: bool, fq: bool, how: &How) -> MObs {
        let domain = if fq { DataDomain::Frequency } else { DataDomain::Time };
        macro_rules! ways {
            ($n: tt, $M: ident) => {{
                let m = wrap!($n, rows.iter().map(|s| gen_of::<T>(s, how)).collect::<Vec<_>>());
                match way {
                    0 => mout($M::<ComplexTimeVec<Vec<T>, T>, Vec<T>, T>::rededicate_from_force(m), None, MSide::default()),
                    1 => mout($M::<RealFreqVec<Vec<T>, T>, Vec<T>, T>::rededicate_from_force(m), None, MSide::default()),
                    _ => mout($M::<GenDspVec<Vec<T>, T>, Vec<T>, T>::rededicate_with_runtime_data(m, cx, domain), None, MSide::default()),
                }
            }};
        }
        match n {
            0 => ways!(0, MatrixMxN),
            2 => ways!(2, Matrix2xN),
            3 => ways!(3, Matrix3xN),
            _ => ways!(4, Matrix4xN),
        }
    }
    /// The same for a vector
    pub fn rededicate_row(s: &Snap, way: usize, cx: bool, fq: bool, how: &How) -> Snap {
        let domain = if fq { DataDomain::Frequency } else { DataDomain::Time };
        let v = gen_of::<T>(s, how);
        match way {
            0 => snap(&ComplexTimeVec::<Vec<T>, T>::rededicate_from_force(v)),
            1 => snap(&RealFreqVec::<Vec<T>, T>::rededicate_from_force(v)),
            _ => snap(&GenDspVec::<Vec<T>, T>::rededicate_with_runtime_data(v, cx, domain)),
        }
    }
}
#[cfg(feature = "mr")]
mod types {
    use super::*;
    real_kind!(t0, 0, rt_of, time);
    real_kind!(t2, 2, rt_of, time);
    real_kind!(t3, 3, rt_of, time);
    real_kind!(f0, 0, rf_of, freq);
    real_kind!(f4, 4, rf_of, freq);
    conv_runner!(c0, 0, rt_of);
    conv_runner!(c2, 2, rt_of);
    create_runner!(n0, 0, m, |_, _| move |m: Vec<Vec<T>>| m.to_real_time_mat());
    create_runner!(n2, 2, m, |_, _| move |m: [Vec<T>; 2]| m.to_real_time_mat());
    create_runner!(n3, 3, m, |_, _| move |m: [Vec<T>; 3]| m.to_real_time_mat());
    create_runner!(nf0, 0, m, |_, _| move |m: Vec<Vec<T>>| m.to_real_freq_mat());
    create_runner!(nf4, 4, m, |_, _| move |m: [Vec<T>; 4]| m.to_real_freq_mat());
    table!(
        entry!(Some((false, false)), 0, t0, Some(c0), Some(n0)),
        entry!(Some((false, false)), 2, t2, Some(c2), Some(n2)),
        entry!(Some((false, false)), 3, t3, None, Some(n3)),
        entry!(Some((false, true)), 0, f0, None, Some(nf0)),
        entry!(Some((false, true)), 4, f4, None, Some(nf4))
    );
}
#[cfg(feature = "mc")]
mod types {
    use super::*;
    complex_kind!(t0, 0, ct_of, time);
    complex_kind!(t3, 3, ct_of, time);
    complex_kind!(t4, 4, ct_of, time);
    complex_kind!(f0, 0, cf_of, freq);
    complex_kind!(f2, 2, cf_of, freq);
    conv_runner!(c0, 0, ct_of);
    conv_runner!(c4, 4, ct_of);
    create_runner!(n0, 0, m, |_, _| move |m: Vec<Vec<T>>| m.to_complex_time_mat());
    create_runner!(n3, 3, m, |_, _| move |m: [Vec<T>; 3]| m.to_complex_time_mat());
    create_runner!(n4, 4, m, |_, _| move |m: [Vec<T>; 4]| m.to_complex_time_mat());
    table!(
        entry!(Some((true, false)), 0, t0, Some(c0), Some(n0)),
        entry!(Some((true, false)), 3, t3, None, Some(n3)),
        entry!(Some((true, false)), 4, t4, Some(c4), Some(n4)),
        entry!(Some((true, true)), 0, f0, None, None),
        entry!(Some((true, true)), 2, f2, None, None)
    );
}
pub use types::*;
