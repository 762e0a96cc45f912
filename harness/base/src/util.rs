//! Small utilities: random numbers, float abstraction, JSON output.
use basic_dsp_vector::numbers::*;
use basic_dsp_vector::*;

pub use model::{hash_str, jstr, Rng};

pub trait Flt: RealNumber + PartialOrd + std::fmt::Debug {
    const EPS: f64;
    const NAME: &'static str;
    fn of(x: f64) -> Self;
    fn g(self) -> f64;
    /// The precise statistics; these have f64 results for all types
    fn prec_r<S, N, D>(v: &DspVec<S, Self, N, D>, what: &str, k: usize, sc: &mut Vec<f64>) -> Result<(), ErrorReason>
    where
        S: ToSlice<Self>,
        N: RealNumberSpace,
        D: Domain;
    fn prec_c<S, N, D>(v: &DspVec<S, Self, N, D>, what: &str, k: usize, sc: &mut Vec<f64>) -> Result<(), ErrorReason>
    where
        S: ToSlice<Self>,
        N: ComplexNumberSpace,
        D: Domain;
}
macro_rules! prec_ops {
    ($T: ty) => {
        fn prec_r<S, N, D>(v: &DspVec<S, $T, N, D>, what: &str, k: usize, sc: &mut Vec<f64>) -> Result<(), ErrorReason>
        where
            S: ToSlice<$T>,
            N: RealNumberSpace,
            D: Domain,
        {
            match what {
                "sum_prec_r" => sc.push(PreciseSumOps::<f64>::sum_prec(v)),
                "sum_sq_prec_r" => sc.push(PreciseSumOps::<f64>::sum_sq_prec(v)),
                "statistics_prec_r" => {
                    crate::exec::stats_r::<f64>(&PreciseStatisticsOps::<f64>::statistics_prec(v), sc)
                }
                _ => {
                    for x in PreciseStatisticsSplitOps::<f64>::statistics_split_prec(v, k)?.iter() {
                        crate::exec::stats_r::<f64>(x, sc)
                    }
                }
            }
            Ok(())
        }
        fn prec_c<S, N, D>(v: &DspVec<S, $T, N, D>, what: &str, k: usize, sc: &mut Vec<f64>) -> Result<(), ErrorReason>
        where
            S: ToSlice<$T>,
            N: ComplexNumberSpace,
            D: Domain,
        {
            match what {
                "sum_prec_c" => {
                    let x = PreciseSumOps::<Complex<f64>>::sum_prec(v);
                    sc.extend_from_slice(&[x.re, x.im])
                }
                "sum_sq_prec_c" => {
                    let x = PreciseSumOps::<Complex<f64>>::sum_sq_prec(v);
                    sc.extend_from_slice(&[x.re, x.im])
                }
                "statistics_prec_c" => {
                    crate::exec::stats_c::<f64>(&PreciseStatisticsOps::<Complex<f64>>::statistics_prec(v), sc)
                }
                _ => {
                    for x in PreciseStatisticsSplitOps::<Complex<f64>>::statistics_split_prec(v, k)?.iter() {
                        crate::exec::stats_c::<f64>(x, sc)
                    }
                }
            }
            Ok(())
        }
    };
}
impl Flt for f32 {
    prec_ops!(f32);
    const EPS: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "f32";
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn g(self) -> f64 {
        self as f64
    }
}
impl Flt for f64 {
    prec_ops!(f64);
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "f64";
    fn of(x: f64) -> f64 {
        x
    }
    fn g(self) -> f64 {
        self
    }
}

