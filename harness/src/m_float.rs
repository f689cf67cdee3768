//! C06, C07, C15-C17: interpolation, conversions, bit reduction.
use crate::nd;
use embedded_audio_tools::convert::*;
use embedded_audio_tools::errors::{BitReductionError, InterpolationError};
use embedded_audio_tools::float::{
    bit_reduce, bit_reduce_exp, bit_reduce_exp_unchecked, bit_reduce_unchecked, lagrange,
    lagrange_only_4_elements, lerp, lerp_unchecked, F32Components,
};

// ---------------------------------------------------------------- C06

fn lerp_classes() {
    let (a, b, t) = (nd::f32(), nd::f32(), nd::f32());
    let nan = a.is_nan() || b.is_nan() || t.is_nan();
    let inf = a.is_infinite() || b.is_infinite();
    let range = t < 0.0 || t > 1.0;
    match lerp(a, b, t) {
        Ok(v) => {
            assert!(!nan && !inf && !range, "C06 an invalid interpolation was accepted");
            assert!(!v.is_nan(), "C06 a checked interpolation never yields NaN");
        }
        Err(e) => {
            let present = match e {
                InterpolationError::InputNaN => nan,
                InterpolationError::InputInfinite => inf,
                InterpolationError::InterpolationRange => range,
            };
            assert!(present, "C06 the error names something that is wrong with the input");
        }
    }
}
fn lerp_ends() {
    let (a, b) = (nd::f32_in(-3e38, 3e38), nd::f32_in(-3e38, 3e38));
    assert!(lerp(a, b, 0.0) == Ok(a), "C06 interpolating at 0 gives the first value");
    assert!(lerp(a, b, 1.0) == Ok(b), "C06 interpolating at 1 gives the second value");
}
fn lerp_values() {
    let (a, b) = (nd::sample(), nd::sample());
    let t = nd::grid(0, 256, 1.0 / 256.0);
    let want = a + (b - a) * t;
    assert!(lerp(a, b, t) == Ok(want), "C06 interpolation is the weighted average");
    assert!(lerp_unchecked(a, b, t) == want);
}

// ---------------------------------------------------------------- C07

/// every node, any window length up to 6
fn nodes<const N: usize>() {
    let a: [f32; N] = nd::samples();
    let k = nd::below(N);
    let d = lagrange(&a[..], k as f32) - a[k];
    assert!(d < 0.001 && d > -0.001, "C07 Lagrange interpolation passes through every point");
    if N == 4 {
        let d = unsafe { lagrange_only_4_elements(&a[..], k as f32) } - a[k];
        assert!(d < 0.001 && d > -0.001, "C07 four-point Lagrange passes through every point");
    }
}
fn line<const N: usize>() {
    let (p, q) = (nd::pick(&[0.0, 1.0, -2.0, 0.5]), nd::pick(&[0.0, 1.0, -2.0, 0.5]));
    let mut a = [0.0f32; N];
    let mut i = 0;
    while i < N {
        a[i] = p + q * i as f32;
        i += 1;
    }
    let x = nd::grid(0, 4 * (N as i32 - 1), 0.25);
    let d = lagrange(&a[..], x) - (p + q * x);
    assert!(d < 0.01 && d > -0.01, "C07 Lagrange interpolation reproduces a line");
    if N == 4 {
        let d = unsafe { lagrange_only_4_elements(&a[..], x) } - (p + q * x);
        assert!(d < 0.01 && d > -0.01, "C07 four-point Lagrange reproduces a line");
    }
}

// ---------------------------------------------------------------- C15

fn raw_word() {
    let w = nd::u32();
    let x = f32::from_bits(w);
    assert!(x.to_raw_word() == w, "C15 the raw word of a float is its bit pattern");
    assert!(f32::from_raw_word(w).to_bits() == w, "C15 a float made from a raw word has that bit pattern");
    let c = x.to_f32_components();
    let k = w.to_f32_components();
    assert!(c == k, "C15 a float and its raw word have the same components");
    assert!(c.sign == (w >> 31 == 1) && c.exponent as u32 == (w >> 23) & 0xff && c.mantissa == w & 0x7f_ffff, "C15 components are the IEEE-754 fields");
    assert!(f32::from_f32_components(c).to_bits() == w, "C15 reassembling a float from its components restores it");
    assert!(u32::from_f32_components(k) == w, "C15 reassembling a word from its components restores it");
}
fn from_components() {
    let (sign, exponent) = (nd::bool(), nd::u8());
    let mantissa = nd::u32();
    nd::assume(mantissa < 1 << 23);
    let mk = || F32Components { sign, exponent, mantissa };
    assert!(f32::from_f32_components(mk()).to_f32_components() == mk(), "C15 components survive the float");
    assert!(u32::from_f32_components(mk()).to_f32_components() == mk(), "C15 components survive the word");
}

// ---------------------------------------------------------------- C16

fn quant(neg: bool) {
    let x = nd::f32_in(-1.0, 1.0);
    nd::assume(x.is_sign_negative() == neg);
    let d = nd::u8();
    match bit_reduce(x, d) {
        Ok(y) => {
            assert!(d <= 30, "C16 an excessive reduction was accepted");
            assert!(nd::same_bits(y, bit_reduce_unchecked(x, d)));
            if d == 0 {
                assert!(nd::same_bits(y, x), "C16 zero reduced bits leave the sample alone");
            } else {
                assert!(y == 0.0 || y.is_sign_negative() == neg, "C16 reduction keeps the sign");
                // both are multiples of 2^-31 or finer: compare exactly in integers
                let xi = (x.abs() as f64 * 2147483648.0) as u64;
                let yf = y.abs() as f64 * 2147483648.0;
                let yi = yf as u64;
                assert!(yi as f64 == yf && (yi >> d) << d == yi, "C16 the result lies on the coarser grid");
                assert!(yi <= xi && xi - yi < 1u64 << d, "C16 the result is the next grid value towards zero");
            }
        }
        Err(e) => {
            assert!(d > 30 && matches!(e, BitReductionError::OverBitReduction), "C16 a valid reduction was rejected");
        }
    }
}
fn quant_range() {
    let x = nd::f32_num();
    let d = nd::u8();
    let inside = x >= -1.0 && x <= 1.0;
    match bit_reduce(x, d) {
        Ok(y) => assert!(inside && d <= 30 && y >= -1.0 && y <= 1.0, "C16 an input outside [-1, 1] was accepted"),
        Err(BitReductionError::OverBitReduction) => assert!(d > 30, "C16 wrong error"),
        Err(BitReductionError::InputExceedsRange) => assert!(!inside, "C16 wrong error"),
    }
}
/// the reduction never reorders samples and is idempotent
fn quant_twice() {
    let x = nd::f32_in(-1.0, 1.0);
    let d = nd::u8();
    nd::assume(d <= 30);
    let y = bit_reduce_unchecked(x, d);
    assert!(bit_reduce_unchecked(y, d) == y, "C16 reducing twice changes nothing more");
}

// ---------------------------------------------------------------- C17

fn quant_exp() {
    let w = nd::u32();
    let d = nd::u8();
    let x = f32::from_bits(w);
    match bit_reduce_exp(x, d) {
        Ok(y) => {
            assert!(d <= 23, "C17 an excessive reduction was accepted");
            assert!(y.to_bits() == (w >> d) << d & 0x7f_ffff | w & 0xff80_0000, "C17 exactly the lowest mantissa bits are cleared");
            assert!(nd::same_bits(y, bit_reduce_exp_unchecked(x, d)));
        }
        Err(e) => {
            assert!(matches!(e, BitReductionError::OverBitReduction));
            assert!(d > 23, "C17 a valid reduction was rejected");
        }
    }
}

harnesses! {
    [] c06_classes { lerp_classes() }
    [] c06_ends { lerp_ends() }
    [] c06_values { lerp_values() }

    [unwind(8)] c07_nodes_1 { nodes::<1>() }
    [unwind(8)] c07_nodes_2 { nodes::<2>() }
    [unwind(8)] c07_nodes_3 { nodes::<3>() }
    [unwind(8)] c07_nodes_4 { nodes::<4>() }
    [unwind(8)] c07_nodes_5 { nodes::<5>() }
    [unwind(8)] c07_line_2 { line::<2>() }
    [unwind(8)] c07_line_3 { line::<3>() }
    [unwind(8)] c07_line_4 { line::<4>() }

    [unwind(6)] c15_raw_word { raw_word() }
    [unwind(6)] c15_components { from_components() }

    [unwind(6)] c16_quant_pos { quant(false) }
    [unwind(6)] c16_quant_neg { quant(true) }
    [unwind(6)] c16_range { quant_range() }
    [unwind(6)] c16_twice { quant_twice() }
    [unwind(6)] c17_quant_exp { quant_exp() }
}
