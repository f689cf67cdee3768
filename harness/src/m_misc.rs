//! C28-C32: panning, clipping, decibels, hyperbolic functions and sinc.
use crate::nd;
use core::num::FpCategory;
use embedded_audio_tools::convert::Decibels;
use embedded_audio_tools::dynamics::*;
use embedded_audio_tools::errors::PanningError;
use embedded_audio_tools::float::AdditionalF32Ext;
use embedded_audio_tools::stereo::*;

fn near(a: f32, b: f32, tol: f32) -> bool {
    let d = a - b;
    d <= tol && d >= -tol
}

// ---------------------------------------------------------------- C28

fn pan_checked() {
    let a = nd::f32_num();
    let (l, r) = (1.0, -2.0);
    let (s, m) = (stereo_pan(a, (l, r)), mono_pan(a, l));
    if a < -1.0 {
        assert!(s == Err(PanningError::TooLeft) && m == Err(PanningError::TooLeft), "C28 left of -1 is refused");
    } else if a > 1.0 {
        assert!(s == Err(PanningError::TooRight) && m == Err(PanningError::TooRight), "C28 right of 1 is refused");
    } else {
        assert!(s == Ok(stereo_pan_unchecked(a, (l, r))), "C28 the checked pan is the unchecked one inside the range");
        assert!(m == Ok(mono_pan_unchecked(a, l)), "C28 the checked pan is the unchecked one inside the range");
    }
}
fn position() -> f32 {
    nd::f32_in(-1.0, 1.0)
}
/// amplitude panning of a unit sample is its gain law
fn pan_linear() {
    let a = position();
    let (l, r) = mono_pan_unchecked(a, 1.0);
    assert!(l >= 0.0 && l <= 1.0 && r >= 0.0 && r <= 1.0, "C28 gains stay between silence and unity");
    assert!(near(l + r, 1.0, 1e-6), "C28 amplitude panning keeps the summed amplitude");
    assert!(near(r - l, a, 1e-6), "C28 amplitude panning is linear in the position");
    let (rl, rr) = mono_pan_unchecked(-a, 1.0);
    assert!(near(rl, r, 1e-6) && near(rr, l, 1e-6), "C28 panning is symmetric");
    assert!(near(crossfade_correlated_unchecked(a, (1.0, 0.0)), l, 1e-6), "C28 crossfading uses the amplitude law");
    assert!(near(crossfade_correlated_unchecked(a, (0.0, 1.0)), r, 1e-6), "C28 crossfading uses the amplitude law");
    assert!(near(crossfade_correlated_unchecked(a, (1.0, 1.0)), 1.0, 1e-6), "C28 crossfading equal signals changes nothing");
}
fn pan_linear_samples() {
    let a = nd::grid(-64, 64, 0.015625);
    let (s, t) = (nd::sample(), nd::sample());
    let (gl, gr) = mono_pan_unchecked(a, 1.0);
    let (l, r) = mono_pan_unchecked(a, s);
    assert!(near(l, gl * s, 1e-5) && near(r, gr * s, 1e-5), "C28 panning is linear in the sample");
    let x = crossfade_correlated_unchecked(a, (s, t));
    assert!(near(x, gl * s + gr * t, 1e-5), "C28 crossfading is linear in both samples");
    let (lo, hi) = if s < t { (s, t) } else { (t, s) };
    assert!(x >= lo - 1e-5 && x <= hi + 1e-5, "C28 a crossfade stays between its inputs");
}
fn pan_power() {
    let a = position();
    let (l, r) = stereo_pan_unchecked(a, (1.0, 1.0));
    assert!(l >= 0.0 && l <= 1.0001 && r >= 0.0 && r <= 1.0001, "C28 gains stay between silence and unity");
    let p = l * l + r * r;
    assert!(p >= 0.98 && p <= 1.13, "C28 power panning keeps the power (within the square root's error)");
    assert!(near(r * r, (1.0 + a) * 0.5, 0.0631) && near(l * l, (1.0 - a) * 0.5, 0.0631), "C28 the power moves linearly");
    let (rl, rr) = stereo_pan_unchecked(-a, (1.0, 1.0));
    assert!(near(rl, r, 1e-5) && near(rr, l, 1e-5), "C28 panning is symmetric");
}
fn pan_power_samples() {
    let a = position();
    let (s, t) = (nd::sample(), nd::sample());
    let (gl, gr) = stereo_pan_unchecked(a, (1.0, 1.0));
    let (l, r) = stereo_pan_unchecked(a, (s, t));
    assert!(near(l, gl * s, 1e-4) && near(r, gr * t, 1e-4), "C28 each channel keeps its own sample");
}
fn pan_monotone() {
    let (a, b) = (position(), position());
    nd::assume(a < b);
    let (al, ar) = mono_pan_unchecked(a, 1.0);
    let (bl, br) = mono_pan_unchecked(b, 1.0);
    assert!(al >= bl && ar <= br, "C28 moving right never makes the left louder");
    let (al, ar) = stereo_pan_unchecked(a, (1.0, 1.0));
    let (bl, br) = stereo_pan_unchecked(b, (1.0, 1.0));
    assert!(al >= bl - 1e-6 && ar <= br + 1e-6, "C28 moving right never makes the left louder");
}
fn pan_ends() {
    let (s, t) = (nd::f32_in(-1e6, 1e6), nd::f32_in(-1e6, 1e6));
    assert!(mono_pan(-1.0, s) == Ok((s, 0.0)) && mono_pan(1.0, s) == Ok((0.0, s)), "C28 hard left and hard right");
    let e = (s.abs() + t.abs()) * 1e-6;
    assert!(near(crossfade_correlated_unchecked(-1.0, (s, t)), s, e), "C28 a crossfade starts at its first input");
    assert!(near(crossfade_correlated_unchecked(1.0, (s, t)), t, e), "C28 a crossfade ends at its second input");
    let (l, r) = stereo_pan_unchecked(-1.0, (s, t));
    assert!(l == s && near(r, 0.0, 1e-9), "C28 hard left");
    let (l, r) = stereo_pan_unchecked(1.0, (s, t));
    assert!(near(l, 0.0, 1e-9) && r == t, "C28 hard right");
}

// ---------------------------------------------------------------- C29

fn clip_digital() {
    let x = nd::f32_num();
    let y = digital_clip(x);
    assert!(y == if x > 1.0 { 1.0 } else if x < -1.0 { -1.0 } else { x }, "C29 digital clipping limits to [-1, 1] and changes nothing inside");
}
fn outside() -> f32 {
    let x = nd::f32_num();
    nd::assume(x > 1.0 || x < -1.0);
    x
}
fn clip_outside() {
    let x = outside();
    let want = if x > 1.0 { 1.0 } else { -1.0 };
    let k = nd::f32();
    assert!(tanh_clip(x) == want && poly_clip(x, k) == want && sigmoid_clip(x, k) == want, "C29 soft clippers saturate outside [-1, 1]");
}
/// every soft clipper accepts every sample: bounded inside the knee
fn clip_inside(f: fn(f32) -> f32) {
    let x = position();
    let y = f(x);
    assert!(y >= -1.0 && y <= 1.0, "C29 soft clipping stays within [-1, 1]");
    assert!(x != 0.0 || y == 0.0, "C29 soft clipping keeps silence");
    assert!(!(x > 0.0 && y < 0.0) && !(x < 0.0 && y > 0.0), "C29 soft clipping keeps the sign");
}

// ---------------------------------------------------------------- C30

fn db_classes() {
    let x = nd::f32();
    let r = x.to_decibels();
    if x.is_nan() || x < 0.0 {
        assert!(r == Err(FpCategory::Nan), "C30 a negative ratio has no level");
    } else if x == 0.0 {
        assert!(r == Ok(f32::NEG_INFINITY), "C30 silence is minus infinity");
    } else {
        match r {
            Ok(v) => assert!(!v.is_nan() && v > f32::NEG_INFINITY, "C30 a positive ratio has a level"),
            Err(_) => assert!(false, "C30 a positive ratio has a level"),
        }
    }
}
fn db_checked_classes() {
    let x = nd::f32();
    let r = x.to_decibels_checked();
    if x.is_nan() || x < 0.0 {
        assert!(r == Err(FpCategory::Nan), "C30 a negative ratio has no level");
    } else if x == 0.0 {
        assert!(r == Err(FpCategory::Infinite), "C30 silence is reported as infinite");
    } else {
        match r {
            Ok(v) => assert!(!v.is_nan() && v > f32::NEG_INFINITY, "C30 a positive ratio has a level"),
            Err(_) => assert!(x == f32::INFINITY, "C30 a positive finite ratio has a level"),
        }
    }
}
fn db_agree() {
    let x = nd::pick(&[1e-45, 1e-20, 0.001, 0.5, 1.0, 2.0, 1e10, 3e38]);
    assert!(x.to_decibels() == Ok(x.to_decibels_unchecked()), "C30 the forms agree on positive ratios");
    assert!(x.to_decibels_checked() == Ok(x.to_decibels_unchecked()), "C30 the forms agree on positive ratios");
}
fn volt_classes() {
    let d = nd::f32();
    nd::assume(d <= 700.0);
    let v = d.to_volt_ratio();
    assert!(v >= 0.0 && v < f32::INFINITY, "C30 a level is a non-negative ratio");
    assert!(d > -1000.0 || v == 0.0, "C30 levels far below silence, minus infinity included, are silence");
    assert!(d != 0.0 || v == 1.0, "C30 0 dB is unity");
}

// ---------------------------------------------------------------- C31

const OCTAVE: f32 = 6.020_6;
/// between octaves the level lies between theirs
fn db_octaves(lo: f32, hi: f32, tol: f32) {
    let x = nd::f32_in(lo, hi);
    let e = (x.to_bits() >> 23) as i32 - 127;
    let d = x.to_decibels_unchecked();
    let base = e as f32 * OCTAVE;
    assert!(d >= base - tol && d <= base + OCTAVE + tol, "C31 each doubling of the ratio is one octave of level");
}
/// within an octave: chords of 20*log10(1+f), quarter octaves
fn db_quarters(lo: f32, hi: f32, tol: f32) {
    let x = nd::f32_in(lo, hi);
    let b = x.to_bits();
    let e = (b >> 23) as i32 - 127;
    let q = ((b >> 20) & 7) as usize;
    const LVL: [f32; 9] = [0.0, 1.023_05, 1.938_2, 2.766_06, 3.521_83, 4.217_06, 4.860_76, 5.460_02, 6.020_6];
    let d = x.to_decibels_unchecked();
    let base = e as f32 * OCTAVE;
    assert!(d >= base + LVL[q] - tol && d <= base + LVL[q + 1] + tol, "C31 the level is 20 log10 of the ratio");
}
/// 2^k for -126 <= k <= 127
fn pow2(k: i32) -> f32 {
    f32::from_bits(((k + 127) as u32) << 23)
}
fn volt_octaves(lo: i32, hi: i32, tol: f32) {
    let k = nd::int_in(lo, hi);
    let d = nd::f32_in(lo as f32 * OCTAVE, (hi + 1) as f32 * OCTAVE);
    nd::assume(d >= k as f32 * OCTAVE && d <= (k + 1) as f32 * OCTAVE);
    let v = d.to_volt_ratio();
    let p = pow2(k);
    assert!(v >= p * (1.0 - tol) && v <= p * (2.0 + 2.0 * tol), "C31 each octave of level doubles the ratio");
}
fn volt_round_trip() {
    let d = nd::int_in(-100, 100) as f32;
    let back = d.to_volt_ratio().to_decibels_unchecked();
    assert!(near(back, d, 1.1), "C31 a level survives the way to a ratio and back");
}

// ---------------------------------------------------------------- C32

/// With any exponential at all (models::exp_draw): the two are its odd and even parts.
fn hyperbolic() {
    crate::models::exp_draw();
    let x = nd::f32();
    nd::assume(x > 0.0 && x < 80.0);
    let n = -x;
    let (s, c) = (AdditionalF32Ext::sinh(&x), AdditionalF32Ext::cosh(&x));
    let (sn, cn) = (AdditionalF32Ext::sinh(&n), AdditionalF32Ext::cosh(&n));
    assert!(near(sn, -s, 1e-5 * c), "C32 sinh is odd");
    assert!(near(cn, c, 1e-5 * c), "C32 cosh is even");
    assert!(s >= -1e-3 && c >= 0.5, "C32 signs of sinh and cosh");
    assert!(near(s + c, micromath::F32(x).exp().0, 1e-5 * c), "C32 sinh + cosh is exp");
    assert!(near(c - s, micromath::F32(n).exp().0, 1e-5 * c), "C32 cosh - sinh is exp of the negative");
}
fn hyperbolic_points() {
    const X: [f32; 8] = [0.0, 0.25, 0.5, 1.0, 2.0, 3.0, 5.0, 10.0];
    const S: [f32; 8] = [0.0, 0.252_612, 0.521_095, 1.175_201, 3.626_86, 10.017_87, 74.203_21, 11_013.232];
    const C: [f32; 8] = [1.0, 1.031_413, 1.127_626, 1.543_081, 3.762_196, 10.067_66, 74.209_95, 11_013.233];
    let i = nd::below(8);
    let (s, c) = (AdditionalF32Ext::sinh(&X[i]), AdditionalF32Ext::cosh(&X[i]));
    assert!(near(s, S[i], 2e-3 * C[i]) && near(c, C[i], 2e-3 * C[i]), "C32 sinh and cosh at known points");
}
/// between the known points
fn hyperbolic_between(i: usize) {
    const X: [f32; 9] = [0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5, 4.0];
    const S: [f32; 9] = [0.0, 0.521_095, 1.175_201, 2.129_279, 3.626_86, 6.050_204, 10.017_87, 16.542_63, 27.289_92];
    const C: [f32; 9] = [1.0, 1.127_626, 1.543_081, 2.352_41, 3.762_196, 6.132_289, 10.067_66, 16.572_82, 27.308_23];
    let x = nd::f32_in(X[i], X[i + 1]);
    let (s, c) = (AdditionalF32Ext::sinh(&x), AdditionalF32Ext::cosh(&x));
    assert!(s >= S[i] - 2e-3 * C[i] && s <= S[i + 1] + 2e-3 * C[i + 1], "C32 sinh lies between its neighbours");
    assert!(c >= C[i] * 0.998 && c <= C[i + 1] * 1.002, "C32 cosh lies between its neighbours");
}
fn tanh_odd() {
    let x = nd::grid(0, 512, 0.015625);
    let n = -x;
    assert!(AdditionalF32Ext::tanh(&n) == -AdditionalF32Ext::tanh(&x), "C32 tanh is odd");
}
fn tanh_bounds() {
    let x = nd::f32_in(-1e15, 1e15);
    let y = AdditionalF32Ext::tanh(&x);
    assert!(y >= -1.0 && y <= 1.0, "C32 tanh is bounded");
    assert!(!(x > 0.0 && y < 0.0) && !(x < 0.0 && y > 0.0) && (x != 0.0 || y == 0.0), "C32 tanh keeps the sign");
}
fn tanh_small() {
    let x = nd::f32_in(0.0, 0.25);
    let y = AdditionalF32Ext::tanh(&x);
    assert!(y <= x + 1e-6 && y >= x * 0.96 - 1e-6, "C32 tanh follows its argument near zero");
}

harnesses! {
    [] c28_checked { pan_checked() }
    [] c28_linear { pan_linear() }
    [] c28_linear_samples { pan_linear_samples() }
    [] c28_power { pan_power() }
    [] c28_power_samples { pan_power_samples() }
    [] c28_monotone { pan_monotone() }
    [] c28_ends { pan_ends() }

    [] c29_digital { clip_digital() }
    [] c29_outside { clip_outside() }
    [] c29_tanh_inside { clip_inside(tanh_clip) }
    [] c29_poly_inside { clip_inside(|x| poly_clip(x, 3.0)) }
    [] c29_sigmoid_inside { clip_inside(|x| sigmoid_clip(x, 0.5)) }

    [] c30_classes { db_classes() }
    [] c30_checked { db_checked_classes() }
    [] c30_agree { db_agree() }
    [] c30_volt { volt_classes() }

    [] c31_octaves_up { db_octaves(1.0, 3e38, 0.01) }
    [] c31_octaves_down { db_octaves(1.2e-38, 1.0, 1.1) }
    [] c31_quarters_up { db_quarters(1.0, 3e38, 0.01) }
    [] c31_quarters_down { db_quarters(1.2e-38, 1.0, 1.1) }
    [] c31_volt_mid { volt_octaves(-8, 7, 0.01) }
    [] c31_volt_all { volt_octaves(-100, 100, 0.01) }
    [] c31_round_trip { volt_round_trip() }

    [stub(micromath::F32::exp, crate::models::exp)] c32_hyp { hyperbolic() }
    [] c32_points { hyperbolic_points() }
    [] c32_between_0 { hyperbolic_between(0) }
    [] c32_between_1 { hyperbolic_between(1) }
    [] c32_between_2 { hyperbolic_between(2) }
    [] c32_between_3 { hyperbolic_between(3) }
    [] c32_between_4 { hyperbolic_between(4) }
    [] c32_between_5 { hyperbolic_between(5) }
    [] c32_between_6 { hyperbolic_between(6) }
    [] c32_between_7 { hyperbolic_between(7) }
    [] c32_tanh_odd { tanh_odd() }
    [] c32_tanh_bounds { tanh_bounds() }
    [] c32_tanh_small { tanh_small() }
}
