// The operations, by name. Included by the crates which instantiate them.
macro_rules! ok {
    ($e: expr) => {{
        $e;
        Some(Ok(()))
    }};
}
macro_rules! elem_ops {
    ($v: expr, $op: ident, $buf: ident, $side: ident, $mk: expr) => {{
        let f: Vec<T> = conv(&$op.f);
        let _ = &f;
        let u = &$op.u;
        let _ = u;
        let r: Option<Res> = match $op.name {
            "offset" => ok!($v.offset(f[0])),
            "scale" => ok!($v.scale(f[0])),
            "sin" => ok!($v.sin()),
            "cos" => ok!($v.cos()),
            "tan" => ok!($v.tan()),
            "asin" => ok!($v.asin()),
            "acos" => ok!($v.acos()),
            "atan" => ok!($v.atan()),
            "sinh" => ok!($v.sinh()),
            "cosh" => ok!($v.cosh()),
            "tanh" => ok!($v.tanh()),
            "asinh" => ok!($v.asinh()),
            "acosh" => ok!($v.acosh()),
            "atanh" => ok!($v.atanh()),
            "sqrt" => ok!($v.sqrt()),
            "square" => ok!($v.square()),
            "root" => ok!($v.root(f[0])),
            "powf" => ok!($v.powf(f[0])),
            "ln" => ok!($v.ln()),
            "exp" => ok!($v.exp()),
            "log" => ok!($v.log(f[0])),
            "expf" => ok!($v.expf(f[0])),
            "diff" => ok!($v.diff()),
            "diff_with_start" => ok!($v.diff_with_start()),
            "cum_sum" => ok!($v.cum_sum()),
            "reverse" => ok!($v.reverse()),
            "swap_halves" => ok!($v.swap_halves()),
            "resize" => Some($v.resize(u[0])),
            "set_delta" => ok!($v.set_delta(f[0])),
            _ => None,
        };
        r
    }};
}
macro_rules! binary_ops {
    ($v: expr, $op: ident, $buf: ident, $side: ident, $mk: expr) => {{
        let f: Vec<T> = conv(&$op.f);
        let _ = &f;
        let u = &$op.u;
        let _ = u;
        let r: Option<Res> = match $op.name {
            "add" => Some($v.add(&$mk(&$op.args[0]))),
            "sub" => Some($v.sub(&$mk(&$op.args[0]))),
            "mul" => Some($v.mul(&$mk(&$op.args[0]))),
            "div" => Some($v.div(&$mk(&$op.args[0]))),
            "add_smaller" => Some($v.add_smaller(&$mk(&$op.args[0]))),
            "sub_smaller" => Some($v.sub_smaller(&$mk(&$op.args[0]))),
            "mul_smaller" => Some($v.mul_smaller(&$mk(&$op.args[0]))),
            "div_smaller" => Some($v.div_smaller(&$mk(&$op.args[0]))),
            _ => None,
        };
        r
    }};
}
macro_rules! vec_ops {
    ($v: expr, $op: ident, $buf: ident, $side: ident, $mk: expr) => {{
        let f: Vec<T> = conv(&$op.f);
        let _ = &f;
        let u = &$op.u;
        let _ = u;
        let r: Option<Res> = match $op.name {
            "zero_pad" => Some($v.zero_pad(u[0], pad_opt(u[1]))),
            "zero_interleave" => Some($v.zero_interleave(u[0] as u32)),
            "zero_pad_b" => Some($v.zero_pad_b($buf, u[0], pad_opt(u[1]))),
            "zero_interleave_b" => ok!($v.zero_interleave_b($buf, u[0] as u32)),
            "resize_b" => Some($v.resize_b($buf, u[0])),
            "split_into" => {
                // targets are dirty and have some other length
                let mut targets: Vec<_> = (0..u[0])
                    .map(|_| $mk(&snap(&$v).with(vec![GARBAGE; 2 * u[1]])))
                    .collect();
                let r = {
                    let mut refs: Vec<_> = targets.iter_mut().collect();
                    $v.split_into(&mut refs[..])
                };
                if r.is_ok() {
                    for t in &targets {
                        $side.extra.push(snap(t));
                    }
                }
                Some(r)
            }
            "merge" => {
                let sources: Vec<_> = $op.args.iter().map(|a| $mk(a)).collect();
                let refs: Vec<_> = sources.iter().collect();
                Some($v.merge(&refs[..]))
            }
            _ => None,
        };
        r
    }};
}
macro_rules! common_ops {
    ($v: expr, $op: ident, $buf: ident, $side: ident, $mk: expr) => {{
        let mut r = elem_ops!($v, $op, $buf, $side, $mk);
        if r.is_none() {
            r = binary_ops!($v, $op, $buf, $side, $mk);
        }
        if r.is_none() {
            r = vec_ops!($v, $op, $buf, $side, $mk);
        }
        r
    }};
}
macro_rules! real_elem_ops {
    ($v: expr, $op: ident, $buf: ident, $side: ident, $mk: expr) => {{
        let f: Vec<T> = conv(&$op.f);
        let _ = &f;
        let r: Option<Res> = match $op.name {
            "abs" => ok!($v.abs()),
            "wrap" => ok!($v.wrap(f[0])),
            "unwrap" => ok!($v.unwrap(f[0])),
            "ln_approx" => ok!($v.ln_approx()),
            "exp_approx" => ok!($v.exp_approx()),
            "sin_approx" => ok!($v.sin_approx()),
            "cos_approx" => ok!($v.cos_approx()),
            "log_approx" => ok!($v.log_approx(f[0])),
            "expf_approx" => ok!($v.expf_approx(f[0])),
            "powf_approx" => ok!($v.powf_approx(f[0])),
            "map_inplace_r" => {
                let fun = $op.fun;
                let argument = f[0];
                ok!(MapInplaceOps::<T>::map_inplace(
                    &mut $v,
                    argument,
                    &move |x: T, i: usize, a: T| {
                        T::of(x.g() + a.g() * fun.re((i % 17) as f64) + (i % 1024) as f64)
                    }
                ))
            }
            "interpolate_hermite" => ok!($v.interpolate_hermite($buf, f[0], f[1])),
            "interpolate_lin" => ok!($v.interpolate_lin($buf, f[0], f[1])),
            _ => None,
        };
        r
    }};
}
macro_rules! real_scalar_ops {
    ($v: expr, $op: ident, $buf: ident, $side: ident, $mk: expr) => {{
        let f: Vec<T> = conv(&$op.f);
        let _ = &f;
        let r: Option<Res> = match $op.name {
            "map_aggregate_r" => {
                let fun = $op.fun;
                let argument = f[0];
                let len = $v.len();
                let r = $v.map_aggregate(
                    argument,
                    &move |x: T, i: usize, a: T| {
                        fun.re(0.0);
                        // one list entry per visited element: (index, value, argument ok)
                        let ok = if a == argument { 1.0 } else { 0.0 };
                        vec![(i as f64, x.g(), ok)]
                    },
                    &|mut a: Vec<(f64, f64, f64)>, mut b: Vec<(f64, f64, f64)>| {
                        a.append(&mut b);
                        a
                    },
                );
                match r {
                    Ok(mut list) => {
                        list.sort_by(|a, b| a.partial_cmp(b).unwrap());
                        $side.sc.push(len as f64);
                        for (i, x, o) in list {
                            $side.sc.push(i);
                            $side.sc.push(x);
                            $side.sc.push(o);
                        }
                        Some(Ok(()))
                    }
                    Err(e) => Some(Err(e)),
                }
            }
            "dot_product_r" => match DotProductOps::<_, T, T, _, _>::dot_product(&$v, &$mk(&$op.args[0])) {
                Ok(x) => ok!($side.sc.push(x.g())),
                Err(e) => Some(Err(e)),
            },
            "dot_product_prec_r" => {
                match PreciseDotProductOps::<_, T, T, _, _>::dot_product_prec(&$v, &$mk(&$op.args[0])) {
                    Ok(x) => ok!($side.sc.push(x.g())),
                    Err(e) => Some(Err(e)),
                }
            }
            "statistics_r" => {
                let s: Statistics<T> = StatisticsOps::<T>::statistics(&$v);
                ok!(stats_r(&s, &mut $side.sc))
            }
            "statistics_split_r" => {
                match StatisticsSplitOps::<T>::statistics_split(&$v, $op.u[0]) {
                    Ok(s) => ok!(for x in s.iter() {
                        stats_r(x, &mut $side.sc)
                    }),
                    Err(e) => Some(Err(e)),
                }
            }
            "sum_prec_r" | "sum_sq_prec_r" | "statistics_prec_r" | "statistics_split_prec_r" => {
                let k = $op.u.get(0).cloned().unwrap_or(1);
                match T::prec_r(&$v, $op.name, k, &mut $side.sc) {
                    Ok(()) => Some(Ok(())),
                    Err(e) => Some(Err(e)),
                }
            }
            "statistics_merge_r" => {
                let s = merged::<T, T>(&$v.data(..)[..], &$op.u);
                ok!(for x in s.iter() {
                    stats_r(x, &mut $side.sc)
                })
            }
            "sum_r" => ok!($side.sc.push(SumOps::<T>::sum(&$v).g())),
            "sum_sq_r" => ok!($side.sc.push(SumOps::<T>::sum_sq(&$v).g())),
            _ => None,
        };
        r
    }};
}
macro_rules! real_ops {
    ($v: expr, $op: ident, $buf: ident, $side: ident, $mk: expr) => {{
        let mut r = real_elem_ops!($v, $op, $buf, $side, $mk);
        if r.is_none() {
            r = real_scalar_ops!($v, $op, $buf, $side, $mk);
        }
        r
    }};
}
macro_rules! interp_ops {
    ($v: expr, $op: ident, $buf: ident, $side: ident) => {{
        let f: Vec<T> = conv(&$op.f);
        let _ = &f;
        let u = &$op.u;
        let _ = u;
        let r: Option<Res> = match $op.name {
            // u: conv_len, response kind
            "interpolatef" => {
                let resp = Resp::<T>::of($op, 1);
                ok!($v.interpolatef($buf, resp.imp(), f[0], f[1], u[0]))
            }
            // u: factor, response kind
            "interpolatei" => {
                let resp = Resp::<T>::of($op, 1);
                Some($v.interpolatei($buf, resp.frq(), u[0] as u32))
            }
            // u: target, response kind or 9 for none
            "interpolate" => {
                let resp = Resp::<T>::of($op, 1);
                Some($v.interpolate(
                    $buf,
                    if u[1] == 9 { None } else { Some(resp.frq()) },
                    u[0],
                    f[0],
                ))
            }
            "interpft" => ok!($v.interpft($buf, u[0])),
            "decimatei" => ok!($v.decimatei(u[0] as u32, u[1] as u32)),
            _ => None,
        };
        r
    }};
}
macro_rules! complex_elem_ops {
    ($v: expr, $op: ident, $buf: ident, $side: ident, $mk: expr, $mkr: expr) => {{
        let f: Vec<T> = conv(&$op.f);
        let _ = &f;
        macro_rules! getter {
            ($m: ident) => {{
                let mut d = $mkr(&$op.args[0]);
                $v.$m(&mut d);
                ok!($side.extra.push(snap(&d)))
            }};
        }
        let r: Option<Res> = match $op.name {
            "offset_c" => ok!($v.offset(Complex::new(f[0], f[1]))),
            "scale_c" => ok!($v.scale(Complex::new(f[0], f[1]))),
            "multiply_complex_exponential" => ok!($v.multiply_complex_exponential(f[0], f[1])),
            "conj" => ok!($v.conj()),
            "map_inplace_c" => {
                let fun = $op.fun;
                let argument = f[0];
                ok!(MapInplaceOps::<Complex<T>>::map_inplace(
                    &mut $v,
                    argument,
                    &move |x: Complex<T>, i: usize, a: T| {
                        Complex::new(
                            T::of(x.im.g() + a.g() * fun.re((i % 17) as f64)),
                            T::of(x.re.g() + (i % 1024) as f64),
                        )
                    }
                ))
            }
            _ => None,
        };
        r
    }};
}
macro_rules! complex_out_ops {
    ($v: expr, $op: ident, $buf: ident, $side: ident, $mk: expr, $mkr: expr) => {{
        let f: Vec<T> = conv(&$op.f);
        let _ = &f;
        macro_rules! getter {
            ($m: ident) => {{
                let mut d = $mkr(&$op.args[0]);
                $v.$m(&mut d);
                ok!($side.extra.push(snap(&d)))
            }};
        }
        let r: Option<Res> = match $op.name {
            "get_real" => getter!(get_real),
            "get_imag" => getter!(get_imag),
            "get_magnitude" => getter!(get_magnitude),
            "get_magnitude_squared" => getter!(get_magnitude_squared),
            "get_phase" => getter!(get_phase),
            "get_real_imag" => {
                let mut a = $mkr(&$op.args[0]);
                let mut b = $mkr(&$op.args[1]);
                $v.get_real_imag(&mut a, &mut b);
                $side.extra.push(snap(&a));
                ok!($side.extra.push(snap(&b)))
            }
            "get_mag_phase" => {
                let mut a = $mkr(&$op.args[0]);
                let mut b = $mkr(&$op.args[1]);
                $v.get_mag_phase(&mut a, &mut b);
                $side.extra.push(snap(&a));
                ok!($side.extra.push(snap(&b)))
            }
            "map_aggregate_c" => {
                let fun = $op.fun;
                let argument = f[0];
                let len = $v.points();
                let r = $v.map_aggregate(
                    argument,
                    &move |x: Complex<T>, i: usize, a: T| {
                        fun.re(0.0);
                        let ok = if a == argument { 1.0 } else { 0.0 };
                        vec![(i as f64, x.re.g() + 3.0 * x.im.g(), ok)]
                    },
                    &|mut a: Vec<(f64, f64, f64)>, mut b: Vec<(f64, f64, f64)>| {
                        a.append(&mut b);
                        a
                    },
                );
                match r {
                    Ok(mut list) => {
                        list.sort_by(|a, b| a.partial_cmp(b).unwrap());
                        $side.sc.push(len as f64);
                        for (i, x, o) in list {
                            $side.sc.push(i);
                            $side.sc.push(x);
                            $side.sc.push(o);
                        }
                        Some(Ok(()))
                    }
                    Err(e) => Some(Err(e)),
                }
            }
            "dot_product_c" => {
                match DotProductOps::<_, Complex<T>, T, _, _>::dot_product(&$v, &$mk(&$op.args[0])) {
                    Ok(x) => {
                        $side.sc.push(x.re.g());
                        ok!($side.sc.push(x.im.g()))
                    }
                    Err(e) => Some(Err(e)),
                }
            }
            "dot_product_prec_c" => {
                match PreciseDotProductOps::<_, Complex<T>, T, _, _>::dot_product_prec(
                    &$v,
                    &$mk(&$op.args[0]),
                ) {
                    Ok(x) => {
                        $side.sc.push(x.re.g());
                        ok!($side.sc.push(x.im.g()))
                    }
                    Err(e) => Some(Err(e)),
                }
            }
            "statistics_c" => {
                let s: Statistics<Complex<T>> = StatisticsOps::<Complex<T>>::statistics(&$v);
                ok!(stats_c(&s, &mut $side.sc))
            }
            "statistics_split_c" => {
                match StatisticsSplitOps::<Complex<T>>::statistics_split(&$v, $op.u[0]) {
                    Ok(s) => ok!(for x in s.iter() {
                        stats_c(x, &mut $side.sc)
                    }),
                    Err(e) => Some(Err(e)),
                }
            }
            "sum_prec_c" | "sum_sq_prec_c" | "statistics_prec_c" | "statistics_split_prec_c" => {
                let k = $op.u.get(0).cloned().unwrap_or(1);
                match T::prec_c(&$v, $op.name, k, &mut $side.sc) {
                    Ok(()) => Some(Ok(())),
                    Err(e) => Some(Err(e)),
                }
            }
            "statistics_merge_c" => {
                let c: Vec<Complex<T>> = $v.data(..).chunks(2).map(|x| Complex::new(x[0], x[1])).collect();
                let s = merged::<T, Complex<T>>(&c[..], &$op.u);
                ok!(for x in s.iter() {
                    stats_c(x, &mut $side.sc)
                })
            }
            "sum_c" => {
                let s = SumOps::<Complex<T>>::sum(&$v);
                $side.sc.push(s.re.g());
                ok!($side.sc.push(s.im.g()))
            }
            "sum_sq_c" => {
                let s = SumOps::<Complex<T>>::sum_sq(&$v);
                $side.sc.push(s.re.g());
                ok!($side.sc.push(s.im.g()))
            }
            _ => None,
        };
        r
    }};
}
macro_rules! complex_ops {
    ($v: expr, $op: ident, $buf: ident, $side: ident, $mk: expr, $mkr: expr) => {{
        let mut r = complex_elem_ops!($v, $op, $buf, $side, $mk, $mkr);
        if r.is_none() {
            r = complex_out_ops!($v, $op, $buf, $side, $mk, $mkr);
        }
        r
    }};
}
macro_rules! setter_ops {
    ($v: expr, $op: ident, $mkr: expr) => {{
        let r: Option<Res> = match $op.name {
            "set_real_imag" => Some($v.set_real_imag(&$mkr(&$op.args[0]), &$mkr(&$op.args[1]))),
            "set_mag_phase" => Some($v.set_mag_phase(&$mkr(&$op.args[0]), &$mkr(&$op.args[1]))),
            _ => None,
        };
        r
    }};
}
macro_rules! window_ops {
    ($v: expr, $op: ident) => {{
        let r: Option<Res> = match $op.name {
            "apply_window" => ok!($v.apply_window(Win::<T>::of($op).r())),
            "unapply_window" => ok!($v.unapply_window(Win::<T>::of($op).r())),
            _ => None,
        };
        r
    }};
}
macro_rules! time_ops {
    ($v: expr, $op: ident, $buf: ident, $side: ident, $mk: expr) => {{
        let f: Vec<T> = conv(&$op.f);
        let _ = &f;
        let u = &$op.u;
        let _ = u;
        let r: Option<Res> = match $op.name {
            // u: len, response kind
            "convolve" => {
                let resp = Resp::<T>::of($op, 1);
                ok!($v.convolve($buf, resp.imp(), f[0], u[0]))
            }
            "convolve_signal" => Some($v.convolve_signal($buf, &$mk(&$op.args[0]))),
            _ => window_ops!($v, $op),
        };
        r
    }};
}
macro_rules! conv_c_ops {
    ($v: expr, $op: ident, $buf: ident, $side: ident, $mkct: expr, $mkcf: expr) => {{
        let f: Vec<T> = conv(&$op.f);
        let _ = &f;
        let u = &$op.u;
        let _ = u;
        let r: Option<Res> = match $op.name {
            "convolve_c" => {
                let resp = FunR($op.fun);
                ok!($v.convolve($buf, &resp as &dyn ComplexImpulseResponse<T>, f[0], u[0]))
            }
            _ => None,
        };
        r
    }};
}
macro_rules! corr_ops {
    ($v: expr, $op: ident, $buf: ident, $side: ident, $mkct: expr, $mkcf: expr) => {{
        let f: Vec<T> = conv(&$op.f);
        let _ = &f;
        let u = &$op.u;
        let _ = u;
        let r: Option<Res> = match $op.name {
            // u: 0 = use prepare_argument, 1 = use prepare_argument_padded, 2 = pass as is
            "correlate" => {
                if u[0] == 2 {
                    Some($v.correlate($buf, &$mkcf(&$op.args[0])))
                } else {
                    let arg = $mkct(&$op.args[0]);
                    let arg = if u[0] == 0 {
                        arg.prepare_argument($buf)
                    } else {
                        arg.prepare_argument_padded($buf)
                    };
                    Some($v.correlate($buf, &arg))
                }
            }
            _ => None,
        };
        r
    }};
}
macro_rules! complex_time_ops {
    ($v: expr, $op: ident, $buf: ident, $side: ident, $mkct: expr, $mkcf: expr) => {{
        let mut r = conv_c_ops!($v, $op, $buf, $side, $mkct, $mkcf);
        if r.is_none() {
            r = corr_ops!($v, $op, $buf, $side, $mkct, $mkcf);
        }
        r
    }};
}
macro_rules! freq_ops {
    ($v: expr, $op: ident, $buf: ident, $side: ident) => {{
        let f: Vec<T> = conv(&$op.f);
        let _ = &f;
        let r: Option<Res> = match $op.name {
            "multiply_frequency_response" => {
                let resp = Resp::<T>::of($op, 0);
                ok!($v.multiply_frequency_response(resp.frq(), f[0]))
            }
            _ => None,
        };
        r
    }};
}
macro_rules! complex_freq_ops {
    ($v: expr, $op: ident, $buf: ident, $side: ident) => {{
        let f: Vec<T> = conv(&$op.f);
        let _ = &f;
        let r: Option<Res> = match $op.name {
            "mirror" => ok!($v.mirror($buf)),
            "fft_shift" => ok!($v.fft_shift()),
            "ifft_shift" => ok!($v.ifft_shift()),
            "multiply_frequency_response_c" => {
                let resp = FunR($op.fun);
                ok!($v.multiply_frequency_response(
                    &resp as &dyn ComplexFrequencyResponse<T>,
                    f[0]
                ))
            }
            _ => None,
        };
        r
    }};
}
// Operations which consume the vector. Evaluates to Some((result, new vector)) or gives $v back.
macro_rules! consume_real {
    ($v: ident, $op: ident, $buf: ident, $fin: ident) => {
        match $op.name {
            "to_complex" => match $v.to_complex() {
                Ok(x) => return $fin(x, None),
                Err((e, x)) => return $fin(x, Some(e)),
            },
            "to_complex_b" => return $fin($v.to_complex_b($buf), None),
            _ => (),
        }
    };
}
macro_rules! consume_complex {
    ($v: ident, $op: ident, $buf: ident, $fin: ident) => {
        match $op.name {
            "magnitude" => return $fin($v.magnitude(), None),
            "magnitude_squared" => return $fin($v.magnitude_squared(), None),
            "to_real" => return $fin($v.to_real(), None),
            "to_imag" => return $fin($v.to_imag(), None),
            "phase" => return $fin($v.phase(), None),
            "magnitude_b" => return $fin($v.magnitude_b($buf), None),
            "magnitude_squared_b" => return $fin($v.magnitude_squared_b($buf), None),
            "to_real_b" => return $fin($v.to_real_b($buf), None),
            "to_imag_b" => return $fin($v.to_imag_b($buf), None),
            "phase_b" => return $fin($v.phase_b($buf), None),
            _ => (),
        }
    };
}
macro_rules! consume_time {
    ($v: ident, $op: ident, $buf: ident, $fin: ident) => {
        match $op.name {
            "plain_fft" => return $fin($v.plain_fft($buf), None),
            "fft" => return $fin($v.fft($buf), None),
            "windowed_fft" => {
                return $fin($v.windowed_fft($buf, Win::<T>::of($op).r()), None)
            }
            _ => (),
        }
    };
}
macro_rules! consume_complex_time {
    ($v: ident, $op: ident, $buf: ident, $fin: ident) => {
        match $op.name {
            "prepare_argument" => return $fin($v.prepare_argument($buf), None),
            "prepare_argument_padded" => return $fin($v.prepare_argument_padded($buf), None),
            _ => (),
        }
    };
}
macro_rules! consume_real_time {
    ($v: ident, $op: ident, $buf: ident, $fin: ident) => {
        match $op.name {
            "plain_sfft" => match $v.plain_sfft($buf) {
                Ok(x) => return $fin(x, None),
                Err((e, x)) => return $fin(x, Some(e)),
            },
            "sfft" => match $v.sfft($buf) {
                Ok(x) => return $fin(x, None),
                Err((e, x)) => return $fin(x, Some(e)),
            },
            "windowed_sfft" => match $v.windowed_sfft($buf, Win::<T>::of($op).r()) {
                Ok(x) => return $fin(x, None),
                Err((e, x)) => return $fin(x, Some(e)),
            },
            _ => (),
        }
    };
}
macro_rules! consume_complex_freq {
    ($v: ident, $op: ident, $buf: ident, $fin: ident) => {
        match $op.name {
            "plain_ifft" => return $fin($v.plain_ifft($buf), None),
            "ifft" => return $fin($v.ifft($buf), None),
            "windowed_ifft" => {
                return $fin($v.windowed_ifft($buf, Win::<T>::of($op).r()), None)
            }
            "plain_sifft" => match $v.plain_sifft($buf) {
                Ok(x) => return $fin(x, None),
                Err((e, x)) => return $fin(x, Some(e)),
            },
            "sifft" => match $v.sifft($buf) {
                Ok(x) => return $fin(x, None),
                Err((e, x)) => return $fin(x, Some(e)),
            },
            "windowed_sifft" => match $v.windowed_sifft($buf, Win::<T>::of($op).r()) {
                Ok(x) => return $fin(x, None),
                Err((e, x)) => return $fin(x, Some(e)),
            },
            _ => (),
        }
    };
}

/// In place operations on a run time checked vector; works for all kinds of storage.
macro_rules! gen_inplace {
    ($v: expr, $op: ident, $buf: ident, $side: ident, $mk: expr) => {{
        let mut r = common_ops!($v, $op, $buf, $side, $mk);
        if r.is_none() {
            r = real_ops!($v, $op, $buf, $side, $mk);
        }
        if r.is_none() {
            r = complex_ops!($v, $op, $buf, $side, $mk, $mk);
        }
        if r.is_none() {
            r = complex_freq_ops!($v, $op, $buf, $side);
        }
        r
    }};
}
