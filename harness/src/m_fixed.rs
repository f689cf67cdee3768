//! C19-C21: integer sine, float sine/cosine on top of it, lookup functions.
#[allow(unused_imports)]
use crate::models;
use crate::nd;
use embedded_audio_tools::fixed_point::math::{sin_i16, sin_i16_unchecked};
use embedded_audio_tools::float::AdditionalF32Ext;

// ---------------------------------------------------------------- C19

/// polynomial truncation error at pi/2, plus 4 LSB of fixed-point rounding and
/// 1 LSB of chord error, in Q5
const TOL: [i32; 5] = [166300 + 160, 83564 + 160, 4909 + 160, 168 + 160, 4 + 160];

/// phases with 256*lo <= |phase| < 256*hi; `degree` 5 stands for any from 5 to 255
fn sine_acc(degree: u8, neg: bool, lo: i32, hi: i32) {
    let j = nd::int_in(lo, hi - 1);
    let r = nd::u8() as i32;
    let z = 256 * j + r;
    let a = QUARTER[j as usize];
    let w = a + (((QUARTER[j as usize + 1] - a) * r) >> 8);
    let p = if neg { -z } else { z } as i16;
    let v = if degree <= 4 && lo / 32 % 2 == 1 {
        unsafe { sin_i16_unchecked(p, degree) }
    } else if degree <= 4 {
        sin_i16(p, degree)
    } else {
        let d = nd::u8();
        nd::assume(d >= 5);
        sin_i16(p, d)
    } as i32;
    let e = if neg { -v * 32 - w } else { v * 32 - w };
    let tol = TOL[if degree > 4 { 4 } else { degree as usize }];
    assert!(e <= tol && e >= -tol, "C19 the integer sine is within its series' truncation error of the sine");
}
/// the one phase the ranges above leave out
fn sine_min() {
    let d = nd::u8();
    let v = -(sin_i16(i16::MIN, d) as i32) * 32 - QUARTER[128];
    let tol = TOL[if d > 4 { 4 } else { d as usize }];
    assert!(v <= tol && v >= -tol, "C19 the integer sine is within its series' truncation error of the sine");
}

// ---------------------------------------------------------------- C20

include!("sine_chords.rs");
const STEP: f32 = core::f32::consts::TAU / 64.0;

/// x in [j, j+1] * TAU/64, for j in lo..hi: within tolerance of the chord of the sine
fn sine_chord(lo: i32, hi: i32, cos: bool, tol: f32) {
    let j = nd::int_in(lo, hi - 1);
    let u = nd::f32_in(0.0, STEP);
    let x = j as f32 * STEP + u;
    let (v, q) = if cos { (x.fixed_point_cos(), j + 16) } else { (x.fixed_point_sin(), j) };
    let k = (q & 63) as usize;
    let d = v - (CHORD[k].0 + u * CHORD[k].1);
    assert!(d <= tol && d >= -tol, "C20 the fixed point sine and cosine approximate the real ones");
}
fn sine_bounds() {
    let x = nd::f32_in(-190.0, 190.0);
    let s = x.fixed_point_sin();
    let c = x.fixed_point_cos();
    assert!(s >= -1.001 && s <= 1.001 && c >= -1.001 && c <= 1.001, "C20 the fixed point sine and cosine stay within [-1, 1]");
}

// ---------------------------------------------------------------- C21

fn bl_safe(lo: f32, hi: f32) {
    let x = nd::f32_num();
    nd::assume(x >= lo && x < hi);
    // every table access is checked to be inside the table
    x.lookup_bl_rect();
}
/// every position around a peak or an edge, off the grid of `bl_positive` too
fn bl_near(at: f32, sign: f32, least: f32) {
    let x = nd::f32_num();
    nd::assume(x >= at - 0.001 && x <= at + 0.001);
    let v = sign * x.lookup_bl_rect();
    assert!(v >= least && v <= 1.0, "C21 the band-limited rectangle is flat between its edges, however close to the peak");
}
fn bl_edge(at: f32, sign: f32) {
    let x = nd::f32_num();
    nd::assume(x >= at - 0.001 && x <= at + 0.001);
    let v = sign * x.lookup_bl_rect();
    assert!(if x < at { v <= 0.0 } else { v >= 0.0 } && v <= 0.5 && v >= -0.5, "C21 the band-limited rectangle changes its sign at its edges");
}
fn bl_outside() {
    let x = nd::f32_num();
    nd::assume(x <= 0.0 || x >= 1.0);
    assert!(x.lookup_bl_rect() == 0.0, "C21 the band-limited rectangle is zero outside its period");
}
fn bl_positive() {
    let x = nd::grid(1, 511, 0.0009765625);
    let v = x.lookup_bl_rect();
    let plateau = x >= 0.0125 && x <= 0.4875;
    assert!(v > 0.0 && v <= 1.0, "C21 the band-limited rectangle is positive in its first half");
    assert!(!plateau || v >= 0.79, "C21 the band-limited rectangle is flat between its edges");
}
/// half-wave and quarter-wave symmetry
fn bl_symmetry(w: u8) {
    let x = nd::grid(1, 16, 0.015625);
    let v = x.lookup_bl_rect();
    let d = match w {
        0 => (0.5 - x).lookup_bl_rect() - v,
        1 => (x + 0.5).lookup_bl_rect() + v,
        _ => (1.0 - x).lookup_bl_rect() + v,
    };
    assert!(d < 1e-3 && d > -1e-3, "C21 the band-limited rectangle is symmetric");
}
fn lsin_safe() {
    let x = nd::f32_in(-190.0, 190.0);
    let v = x.lookup_sin();
    assert!(v >= -1.001 && v <= 1.001, "C21 the sine lookup stays within [-1, 1]");
}

/// sinc between lo and hi (signs included) against its series, whose next term is below 2e-4 up to 1
fn sinc_near(lo: f32, hi: f32) {
    let x = nd::f32();
    nd::assume(x >= lo && x <= hi);
    let want = 1.0 - x * x * (1.0 / 6.0) + x * x * x * x * (1.0 / 120.0);
    let y = x.sinc();
    assert!(y >= want - 0.003 && y <= want + 0.003);
}

fn sinc_zero() {
    assert!(0.0f32.sinc() == 1.0);
    assert!((-0.0f32).sinc() == 1.0);
}

harnesses! {
    [unwind(8)] c19_pos_0_0 { sine_acc(0, false, 0, 32) }
    [unwind(8)] c19_pos_0_1 { sine_acc(0, false, 32, 64) }
    [unwind(8)] c19_pos_0_2 { sine_acc(0, false, 64, 96) }
    [unwind(8)] c19_pos_0_3 { sine_acc(0, false, 96, 128) }
    [unwind(8)] c19_neg_0_0 { sine_acc(0, true, 0, 32) }
    [unwind(8)] c19_neg_0_1 { sine_acc(0, true, 32, 64) }
    [unwind(8)] c19_neg_0_2 { sine_acc(0, true, 64, 96) }
    [unwind(8)] c19_neg_0_3 { sine_acc(0, true, 96, 128) }
    [unwind(8)] c19_pos_1_0 { sine_acc(1, false, 0, 32) }
    [unwind(8)] c19_pos_1_1 { sine_acc(1, false, 32, 64) }
    [unwind(8)] c19_pos_1_2 { sine_acc(1, false, 64, 96) }
    [unwind(8)] c19_pos_1_3 { sine_acc(1, false, 96, 128) }
    [unwind(8)] c19_neg_1_0 { sine_acc(1, true, 0, 32) }
    [unwind(8)] c19_neg_1_1 { sine_acc(1, true, 32, 64) }
    [unwind(8)] c19_neg_1_2 { sine_acc(1, true, 64, 96) }
    [unwind(8)] c19_neg_1_3 { sine_acc(1, true, 96, 128) }
    [unwind(8)] c19_pos_2_0 { sine_acc(2, false, 0, 32) }
    [unwind(8)] c19_pos_2_1 { sine_acc(2, false, 32, 64) }
    [unwind(8)] c19_pos_2_2 { sine_acc(2, false, 64, 96) }
    [unwind(8)] c19_pos_2_3 { sine_acc(2, false, 96, 128) }
    [unwind(8)] c19_neg_2_0 { sine_acc(2, true, 0, 32) }
    [unwind(8)] c19_neg_2_1 { sine_acc(2, true, 32, 64) }
    [unwind(8)] c19_neg_2_2 { sine_acc(2, true, 64, 96) }
    [unwind(8)] c19_neg_2_3 { sine_acc(2, true, 96, 128) }
    [unwind(8)] c19_pos_3_0 { sine_acc(3, false, 0, 32) }
    [unwind(8)] c19_pos_3_1 { sine_acc(3, false, 32, 64) }
    [unwind(8)] c19_pos_3_2 { sine_acc(3, false, 64, 96) }
    [unwind(8)] c19_pos_3_3 { sine_acc(3, false, 96, 128) }
    [unwind(8)] c19_neg_3_0 { sine_acc(3, true, 0, 32) }
    [unwind(8)] c19_neg_3_1 { sine_acc(3, true, 32, 64) }
    [unwind(8)] c19_neg_3_2 { sine_acc(3, true, 64, 96) }
    [unwind(8)] c19_neg_3_3 { sine_acc(3, true, 96, 128) }
    [unwind(8)] c19_pos_4_0 { sine_acc(4, false, 0, 32) }
    [unwind(8)] c19_pos_4_1 { sine_acc(4, false, 32, 64) }
    [unwind(8)] c19_pos_4_2 { sine_acc(4, false, 64, 96) }
    [unwind(8)] c19_pos_4_3 { sine_acc(4, false, 96, 128) }
    [unwind(8)] c19_neg_4_0 { sine_acc(4, true, 0, 32) }
    [unwind(8)] c19_neg_4_1 { sine_acc(4, true, 32, 64) }
    [unwind(8)] c19_neg_4_2 { sine_acc(4, true, 64, 96) }
    [unwind(8)] c19_neg_4_3 { sine_acc(4, true, 96, 128) }
    [unwind(8)] c19_pos_5_0 { sine_acc(5, false, 0, 32) }
    [unwind(8)] c19_pos_5_1 { sine_acc(5, false, 32, 64) }
    [unwind(8)] c19_pos_5_2 { sine_acc(5, false, 64, 96) }
    [unwind(8)] c19_pos_5_3 { sine_acc(5, false, 96, 128) }
    [unwind(8)] c19_neg_5_0 { sine_acc(5, true, 0, 32) }
    [unwind(8)] c19_neg_5_1 { sine_acc(5, true, 32, 64) }
    [unwind(8)] c19_neg_5_2 { sine_acc(5, true, 64, 96) }
    [unwind(8)] c19_neg_5_3 { sine_acc(5, true, 96, 128) }

    [unwind(8)] c19_min { sine_min() }

    [unwind(8) stub(micromath::F32::rem_euclid, models::rem_euclid_base)] c20_sin_0 { sine_chord(0, 16, false, 0.0016) }
    [unwind(8) stub(micromath::F32::rem_euclid, models::rem_euclid_base)] c20_sin_1 { sine_chord(16, 32, false, 0.0016) }
    [unwind(8) stub(micromath::F32::rem_euclid, models::rem_euclid_base)] c20_sin_2 { sine_chord(32, 48, false, 0.0016) }
    [unwind(8) stub(micromath::F32::rem_euclid, models::rem_euclid_base)] c20_sin_3 { sine_chord(48, 64, false, 0.0016) }
    [unwind(8) stub(micromath::F32::rem_euclid, models::rem_euclid_base)] c20_cos_0 { sine_chord(-32, -16, true, 0.0016) }
    [unwind(8) stub(micromath::F32::rem_euclid, models::rem_euclid_base)] c20_cos_1 { sine_chord(-16, 0, true, 0.0016) }
    [unwind(8) stub(micromath::F32::rem_euclid, models::rem_euclid_base)] c20_cos_2 { sine_chord(0, 16, true, 0.0016) }
    [unwind(8) stub(micromath::F32::rem_euclid, models::rem_euclid_base)] c20_cos_3 { sine_chord(16, 32, true, 0.0016) }
    [unwind(8) stub(micromath::F32::rem_euclid, models::rem_euclid)] c20_bounds { sine_bounds() }

    [unwind(8)] c21_bl_1 { bl_safe(0.0, 0.25) }
    [unwind(8)] c21_bl_2 { bl_safe(0.25, 0.5) }
    [unwind(8)] c21_bl_3 { bl_safe(0.5, 0.75) }
    [unwind(8)] c21_bl_4 { bl_safe(0.75, 1.0) }
    [unwind(8)] c21_bl_peak_1 { bl_near(0.25, 1.0, 0.74) }
    [unwind(8)] c21_bl_peak_2 { bl_near(0.75, -1.0, 0.74) }
    [unwind(8)] c21_bl_edge_1 { bl_edge(0.5, -1.0) }
    [unwind(8)] c21_bl_edge_0 { bl_edge(0.0, 1.0) }
    [unwind(8)] c21_bl_edge_2 { bl_edge(1.0, 1.0) }
    [unwind(8)] c21_bl_positive { bl_positive() }
    [unwind(8)] c21_bl_symmetry_0 { bl_symmetry(0) }
    [unwind(8)] c21_bl_symmetry_1 { bl_symmetry(1) }
    [unwind(8)] c21_bl_symmetry_2 { bl_symmetry(2) }
    [unwind(8)] c21_bl_outside { bl_outside() }
    [unwind(8) stub(micromath::F32::rem_euclid, models::rem_euclid_base)] c33_zero { sinc_zero() }
    [unwind(8) stub(micromath::F32::rem_euclid, models::rem_euclid_base)] c33_near_0 { sinc_near(-0.5, -0.25) }
    [unwind(8) stub(micromath::F32::rem_euclid, models::rem_euclid_base)] c33_near_1 { sinc_near(-0.25, 0.0) }
    [unwind(8) stub(micromath::F32::rem_euclid, models::rem_euclid_base)] c33_near_2 { sinc_near(0.0, 0.25) }
    [unwind(8) stub(micromath::F32::rem_euclid, models::rem_euclid_base)] c33_near_3 { sinc_near(0.25, 0.5) }
    [unwind(8) stub(micromath::F32::rem_euclid, models::rem_euclid)] c21_sin { lsin_safe() }
}
