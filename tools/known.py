#!/usr/bin/env python3
"""Writes known_findings.json: the findings which are not repaired and the list of repairs."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject of the fix commit -> property
MAP = [
 ("SIMD partition has to skip", "C03"), ("edge iterators must not step", "C05"), ("chunks of symmetric pairs", "C02"),
 ("reject an empty argument for the *_smaller", "C01"), ("complex mul and div must only", "C04"), ("unwrap must find", "C01"),
 ("map_inplace and map_aggregate", "C01"), ("diff on empty", "C14"), ("never create a slice of complex", "C05"),
 ("get_magnitude must only use", "C15"), ("vectors with run time checks are in time domain", "C17"),
 ("FixedLenBuffer has to resize", "C04"), ("swapping the halves of a single", "C14"), ("zero_interleave_b must stay", "C14"),
 ("zero_pad_b with PaddingOption::Center", "C14"), ("zero_pad with PaddingOption::Surround", "C14"),
 ("zero_interleave must only", "C04"), ("split_into and merge must only", "C04"), ("symmetric FFTs have to return", "C08"),
 ("sifft has to expect", "C08"), ("mirror on an empty", "C14"), ("vectors with run time checks are real", "C17"),
 ("magnitude of f64 vectors with AVX", "C15"), ("set_real_imag and set_mag_phase must reject", "C16"),
 ("mirror, fft_shift and ifft_shift require", "C16"), ("dot_product has to reject", "C12"), ("Stats::merge missed", "C12"),
 ("statistics_split_prec needs", "C13"), ("dot_product_prec has to be precise", "C13"),
 ("correlation and interpolation have to borrow", "C04"), ("correlate must accept", "C10"),
 ("convolve with a function on real vectors", "C09"), ("overlap_discard left a gap", "C09"),
 ("interpolation with asymmetric functions", "C11"), ("interpolate with a delay and an odd", "C11"),
 ("interpolatef with integer factors", "C11"), ("interpolate_lin and interpolate_hermite", "C11"),
 ("ln_approx reduced the range", "C22"), ("complex sums and dot products panicked", "C12"),
 ("symmetric FFTs of statically typed", "C17"), ("rededicate_from must only keep", "C17"),
 ("convolve_signal panicked if the impulse", "C09"),
 ("conversions between Vec and complex", "C18"), ("get panicked for complex", "C18"),
 ("complex vectors with an odd length could", "C18"),
 ("vectors with more than 64 elements collected", "C05"), ("resizing small internal vectors", "C23"),
 ("Lookup tables returned their first entry", "C23"), ("RaisedCosineFunction returned infinity", "C23"),
 ("Fourier transforms of lookup tables", "C23"),
 ("get_magnitude, get_magnitude_squared and get_phase of matrices", "C20"),
 ("diff_with_start and cum_sum of matrices", "C20"), ("sums weren't available for matrices", "C20"),
 ("statistics of matrices couldn't", "C20"), ("operations of two matrices ignored", "C20"),
 ("convolutions of complex matrices ignored", "C20"), ("convolutions of matrices with a wrong", "C20"),
 ("convolutions of matrices didn't check", "C20"),
 ("sub32 and sub64 expected", "C21"), ("atan32 and atan64", "C21"), ("interop functions without result", "C21"),
 ("overwrite_data rejected", "C21"), ("fft_shift and ifft_shift weren't exported", "C21"),
 ("clone and getters of the interop", "C21"),
 ("SIMD interpolation and convolution of data", "C03"), ("getters of complex vectors required", "C15"),
 ("abs of large or small values", "C01"), ("abs of zero must not", "C01"),
 ("operations on storage of a fixed size reported", "C24"), ("merge_cols panicked", "C12"),
]
exec(open(os.path.join(V, "tools", "known_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "known_more.py")) else None
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--grep=^fix:", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
for l in out.splitlines():
    h, s = l.split(" ", 1)
    s = s[len("fix: "):]
    p = [p for k, p in MAP if s.startswith(k)]
    if len(p) != 1:
        sys.exit(f"no property for: {s}")
    fixed.append(f"fixed: property={p[0]} {h} {s}")
KNOWN = [
 {"property": "C11", "signature": "known|interpolatef-delay-direction", "status": "known",
  "what": "interpolatef with a delay shifts into the opposite direction when the vectorized code is used",
  "where": "vector/src/vector_types/time_freq/interpolation.rs interpolatef: integer factor, conv_len <= 202, at least 2000 result values, delay != 0",
  "why_not_repaired": "The existing tests pin both directions: interpolatef_delayed_sinc_test the one of the general code, "
     "compare_interpolatef_and_interpolate_with_delay the one of the vectorized code."},
]
KNOWN += globals().get("MORE_KNOWN", [])
json.dump({"findings": KNOWN, "fixed": fixed}, open(V + "/known_findings.json", "w"), indent=1)
open(V + "/known_findings.json", "a").write("\n")
