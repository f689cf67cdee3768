//! C22-C24, C35: phase accumulator and oscillators.
#[allow(unused_imports)]
use crate::models;
use crate::nd;
#[allow(unused_imports)]
use embedded_audio_tools::float::AdditionalF32Ext;
use embedded_audio_tools::errors::FrequencyError;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::oscillator::Waveform;
use embedded_audio_tools::{
    FunctionalOscillator, PhaseAccumulator, SoftPhaseAccumulator, WavetableOscillator,
};


/// A phase accumulator whose phase the solver chooses: any value a conforming
/// accumulator may return, i.e. any f32 in [0, 1).
pub struct AnyPhase {
    pub phase: f32,
    pub freq: f32,
    pub sr: f32,
    pub shift: u32,
}
impl PhaseAccumulator for AnyPhase {
    type Object = AnyPhase;
    fn new(freq: f32, sr: f32) -> AnyPhase {
        AnyPhase { phase: 0.0, freq, sr, shift: 0 }
    }
    fn set_sr_unchecked(&mut self, sr: f32) {
        self.sr = sr
    }
    fn set_freq_unchecked(&mut self, freq: f32) {
        self.freq = freq
    }
    fn set_phase_shift(&mut self, shift: u32) {
        self.shift = shift
    }
    fn next_value(&mut self) -> u32 {
        (self.phase * 4294967296.0) as u32
    }
    fn next_value_normalized(&mut self) -> f32 {
        self.phase
    }
}
fn any_phase() -> AnyPhase {
    let phase = nd::f32();
    nd::assume(phase >= 0.0 && phase < 1.0);
    AnyPhase { phase, freq: 0.0, sr: 0.0, shift: 0 }
}

// ---------------------------------------------------------------- C22

/// constant frequency: constant increments modulo 2^32; the shift is added once
fn increments(sr: f32, f: f32) {
    let (s1, s2) = (nd::u32(), nd::u32());
    let mut a = SoftPhaseAccumulator::new(f, sr);
    let v1 = a.next_value();
    let v2 = a.next_value();
    assert!(v2 == v1.wrapping_add(v1), "C22 the phase advances by the same amount each tick, modulo one period");
    a.set_phase_shift(s1);
    let v3 = a.next_value();
    assert!(v3 == v2.wrapping_add(v1).wrapping_add(s1), "C22 a phase shift offsets the phase by itself, modulo one period");
    a.set_phase_shift(s2);
    let v4 = a.next_value();
    assert!(v4 == v2.wrapping_add(v2).wrapping_add(s2), "C22 phase shifts do not accumulate");
}
/// with a 0 Hz accumulator every counter value can be set up through the shift
fn normalized() {
    let s = nd::u32();
    let mut a = SoftPhaseAccumulator::new(0.0, 48_000.0);
    a.set_phase_shift(s);
    let v = a.next_value_normalized();
    assert!(v >= 0.0 && v < 1.0, "C22 the normalized phase lies in [0, 1)");
    let e = v as f64 * 4294967296.0 - s as f64;
    assert!(e >= -256.0 && e <= 256.0, "C22 the normalized phase is the phase over one period");
    assert!(a.next_value() == s);
}
/// step size: freq/sr of a period to float precision
fn frequency(sr: f32, f: f32, nonzero: f32) {
    let mut a = SoftPhaseAccumulator::new(f, sr);
    let step = a.next_value();
    let want = f as f64 * (4294967296.0 / sr as f64);
    let e = step as f64 - want;
    assert!(e >= -1.0 - want * 3e-7 && e <= 1.0 + want * 3e-7, "C22 the phase advances by freq / sr of a period each tick");
    // the setters reach the same accumulator
    let mut b = SoftPhaseAccumulator::new(nonzero, 96_000.0);
    b.set_sr_unchecked(sr);
    b.set_freq_unchecked(f);
    assert!(b.next_value() == step, "C22 setting frequency and rate equals constructing with them");
}

// ---------------------------------------------------------------- C35

fn set_freq() {
    let f = nd::f32_num();
    let f0 = nd::pick(&[1000.0, 0.5]);
    let mut a = SoftPhaseAccumulator::new(f0, 48_000.0);
    let mut same = SoftPhaseAccumulator::new(f0, 48_000.0);
    let r = a.set_freq(f);
    match r {
        Ok(()) => {
            assert!(f > 0.0, "C35 a zero or negative frequency was accepted");
            assert!(f <= 24_001.0, "C35 a frequency above Nyquist was accepted");
            same.set_freq_unchecked(f);
        }
        Err(FrequencyError::Zero) => assert!(f == 0.0, "C35 wrong error"),
        Err(FrequencyError::Negative) => assert!(f < 0.0, "C35 wrong error"),
        Err(FrequencyError::BiggerThanNyquist) => assert!(f >= 23_999.0, "C35 a frequency below Nyquist was rejected"),
    }
    assert!(a.next_value() == same.next_value(), "C35 an accepted frequency takes effect, a rejected one changes nothing");
}

// ---------------------------------------------------------------- C23

fn wave(w: Waveform) -> (f32, f32) {
    let a = any_phase();
    let p = a.phase;
    let mut o = FunctionalOscillator::new(a);
    o.set_wave(w);
    (p, o.next())
}
fn close(v: f32, w: f32, tol: f32) -> bool {
    v - w <= tol && w - v <= tol
}
fn saw() {
    let (p, v) = wave(Waveform::Sawtooth);
    assert!(v >= -1.0 && v <= 1.0, "C23 the sawtooth stays within [-1, 1]");
    assert!(close(v, 2.0 * p - 1.0, 1e-6), "C23 the sawtooth rises from -1 to 1 over a period");
}
fn rect() {
    let (p, v) = wave(Waveform::Rectangle);
    assert!(v == -1.0 || v == 1.0, "C23 the rectangle is -1 or 1");
    // one rounding step around half a period is left open
    assert!(p >= 0.4999999 && p < 0.5 || v == if p < 0.5 { -1.0 } else { 1.0 }, "C23 the rectangle is low for half a period, then high");
}
fn tri() {
    let (p, v) = wave(Waveform::Triangle);
    assert!(v >= -1.0 && v <= 1.0, "C23 the triangle stays within [-1, 1]");
    let w = if p < 0.5 { 4.0 * p - 1.0 } else { 3.0 - 4.0 * p };
    assert!(close(v, w, 1e-6), "C23 the triangle rises for half a period and falls for the other");
}
fn sine() {
    let (_, v) = wave(Waveform::Sine);
    assert!(v >= -1.001 && v <= 1.001, "C23 the sine stays within [-1, 1]");
}
/// With the sine function replaced by the identity (under the solver), what is
/// left is the angle the oscillator asks for; C20 covers the sine function.
/// The replay compares with the real sine.
fn sine_phase() {
    let a = any_phase();
    let p = a.phase;
    let mut o = FunctionalOscillator::new(a);
    if nd::bool() {
        o.set_wave(Waveform::Triangle);
        o.set_wave(Waveform::Sine);
    }
    let v = o.next();
    #[cfg(kani)]
    let ok = close(v, p * core::f32::consts::TAU, 0.005);
    #[cfg(not(kani))]
    let ok = close(v, (p as f64 * core::f64::consts::TAU).sin() as f32, 0.0003);
    assert!(ok, "C23 the sine oscillator is the sine of its phase");
}
/// the shipped accumulator behind each waveform, every counter value
fn soft(w: u8) {
    let s = nd::u32();
    let mut acc = SoftPhaseAccumulator::new(0.0, 48_000.0);
    acc.set_phase_shift(s);
    let mut o = FunctionalOscillator::new(acc);
    o.set_wave(match w {
        0 => Waveform::Sine,
        1 => Waveform::Rectangle,
        2 => Waveform::Sawtooth,
        _ => Waveform::Triangle,
    });
    let v = o.next();
    let m = if w == 0 { 1.001 } else { 1.0 };
    assert!(v >= -m && v <= m, "C23 every waveform stays within [-1, 1] at every phase");
}
/// oscillator setters reach the accumulator
fn osc_setters() {
    let f = nd::grid(0, 24_000, 1.0);
    let mut o = FunctionalOscillator::new(SoftPhaseAccumulator::new(1000.0, 44_100.0));
    let mut a = SoftPhaseAccumulator::new(1000.0, 44_100.0);
    o.set_wave(Waveform::Sawtooth);
    o.set_freq_unchecked(f);
    a.set_freq_unchecked(f);
    o.set_sr_unchecked(48_000.0);
    a.set_sr_unchecked(48_000.0);
    let p = a.next_value_normalized();
    assert!(close(o.next(), 2.0 * p - 1.0, 1e-6), "C23 the oscillator runs at the frequency and rate it was given");
}
/// Changing settings between samples neither restarts nor shifts the phase, nor touches another setting.
fn osc_keeps() {
    let t = nd::below(4) as f32 * 0.25;
    let mut o = FunctionalOscillator::new(SoftPhaseAccumulator::new(6_000.0, 48_000.0));
    let mut a = SoftPhaseAccumulator::new(6_000.0, 48_000.0);
    o.set_wave(Waveform::Sawtooth);
    o.set_phase_shift_unchecked(t);
    a.set_phase_shift((t * u32::MAX as f32) as u32);
    let mut i = 0;
    while i < 3 {
        match nd::u8() {
            0 => {
                o.set_wave(Waveform::Triangle);
                o.set_wave(Waveform::Sawtooth);
            }
            1 => {
                o.set_freq_unchecked(1000.0);
                a.set_freq_unchecked(1000.0);
            }
            2 => {
                o.set_sr_unchecked(24_000.0);
                a.set_sr_unchecked(24_000.0);
            }
            3 => {
                o.set_wave(Waveform::Triangle);
                let p = a.next_value_normalized();
                let w = if p < 0.5 { 4.0 * p - 1.0 } else { 3.0 - 4.0 * p };
                assert!(close(o.next(), w, 1e-5), "C23 the phase goes on when the waveform changes");
                o.set_wave(Waveform::Sawtooth);
            }
            _ => {}
        }
        let p = a.next_value_normalized();
        assert!(close(o.next(), 2.0 * p - 1.0, 1e-5), "C23 the phase goes on when settings change");
        i += 1;
    }
}
fn osc_shift() {
    let mut o = FunctionalOscillator::new(SoftPhaseAccumulator::new(12_000.0, 48_000.0));
    let mut a = SoftPhaseAccumulator::new(12_000.0, 48_000.0);
    o.set_wave(Waveform::Sawtooth);
    let t = nd::grid(0, 15, 0.0625);
    o.set_phase_shift_unchecked(t);
    let mut q = a.next_value_normalized() + t;
    if q >= 1.0 {
        q -= 1.0;
    }
    let d = o.next() - (2.0 * q - 1.0);
    assert!(d < 1e-5 && d > -1e-5 || d < -1.9999 || d > 1.9999, "C23 a phase shift moves the waveform by that part of a period");
}

// ---------------------------------------------------------------- C24

fn wavetable<const N: usize>() {
    let buf: [f32; N] = nd::samples();
    let a = any_phase();
    let p = a.phase;
    let mut o = WavetableOscillator::new(from_slice(&buf[..]), a);
    let v = o.next();
    // exact where the position falls on a sample
    let x = p * N as f32;
    let i = x as usize;
    if x == i as f32 && i < N {
        assert!(v == buf[i], "C24 at a table position the oscillator plays the stored sample");
    }
    assert!(v <= 3.00001 && v >= -7.00001, "C24 the oscillator stays within its table's range");
}
fn wavetable_value<const N: usize>() {
    let buf: [f32; N] = nd::samples();
    let k = nd::below(N);
    let t = nd::fraction();
    let phase = (k as f32 + t) / N as f32;
    let mut o = WavetableOscillator::new(from_slice(&buf[..]), AnyPhase { phase, freq: 0.0, sr: 0.0, shift: 0 });
    let n = if k + 1 == N { 0 } else { k + 1 };
    let d = o.next() - (buf[k] + (buf[n] - buf[k]) * t);
    assert!(d < 1e-4 && d > -1e-4, "C24 the oscillator interpolates between neighbouring table samples, cyclically");
}
fn wavetable_soft<const N: usize>() {
    let buf: [f32; N] = nd::samples();
    let s = nd::u32();
    let mut acc = SoftPhaseAccumulator::new(0.0, 48_000.0);
    acc.set_phase_shift(s);
    let mut o = WavetableOscillator::new(from_slice(&buf[..]), acc);
    // every table access is checked to be inside the table
    o.next();
}

/// An accumulator that plays back one of the settings it was given, as its phase.
pub struct Echo {
    pub which: u8,
    pub freq: f32,
    pub sr: f32,
    pub shift: u32,
}
impl PhaseAccumulator for Echo {
    type Object = Echo;
    fn new(freq: f32, sr: f32) -> Echo {
        Echo { which: 0, freq, sr, shift: 0 }
    }
    fn set_sr_unchecked(&mut self, sr: f32) {
        self.sr = sr
    }
    fn set_freq_unchecked(&mut self, freq: f32) {
        self.freq = freq
    }
    fn set_phase_shift(&mut self, shift: u32) {
        self.shift = shift
    }
    fn next_value(&mut self) -> u32 {
        (self.next_value_normalized() * 4294967296.0) as u32
    }
    fn next_value_normalized(&mut self) -> f32 {
        match self.which {
            0 => (self.shift >> 8) as f32 / 16_777_216.0,
            1 => self.freq / 1_048_576.0,
            _ => self.sr / 1_048_576.0,
        }
    }
}
/// what the setters pass on: `t` for the setting in question, something else for the others
fn echo_of(which: u8, t: f32) -> (f32, f32, f32) {
    (if which == 0 { t } else { 0.375 }, if which == 1 { t * 1_048_576.0 } else { 440.0 }, if which == 2 { t * 1_048_576.0 } else { 48_000.0 })
}
fn unit() -> f32 {
    let t = nd::f32();
    nd::assume(t >= 0.0 && t < 1.0);
    t
}
/// every setter hands its value to the accumulator (a shift as that part of the whole range)
fn func_echo() {
    let which = nd::below(3) as u8;
    let t = unit();
    let (shift, f, sr) = echo_of(which, t);
    let mut o = FunctionalOscillator::new(Echo { which, freq: 1.0, sr: 1.0, shift: 12345 });
    o.set_wave(Waveform::Sawtooth);
    o.set_sr_unchecked(sr);
    o.set_phase_shift_unchecked(shift);
    o.set_freq_unchecked(f);
    let d = o.next() - (2.0 * t - 1.0);
    assert!(d < 1e-5 && d > -1e-5, "C23 a setter's value reaches the accumulator");
}
fn table_echo() {
    let which = nd::below(3) as u8;
    let t = unit();
    let (shift, f, sr) = echo_of(which, t);
    let table = [0.0f32, 1.0];
    let mut o = WavetableOscillator::new(from_slice(&table[..]), Echo { which, freq: 1.0, sr: 1.0, shift: 12345 });
    o.set_phase_shift_unchecked(shift);
    o.set_freq_unchecked(f);
    o.set_sr_unchecked(sr);
    // up for half a period, down for the other
    let w = if t < 0.5 { 2.0 * t } else { 2.0 - 2.0 * t };
    let d = o.next() - w;
    assert!(d < 1e-5 && d > -1e-5, "C24 a setter's value reaches the accumulator");
}
/// the phase runs on: consecutive samples are consecutive phases of the accumulator
fn table_runs<const N: usize>() {
    let buf: [f32; N] = nd::samples();
    let step = nd::pick(&[12_000.0, 3_000.0, 18_000.0]);
    let mut o = WavetableOscillator::new(from_slice(&buf[..]), SoftPhaseAccumulator::new(step, 48_000.0));
    let mut a = SoftPhaseAccumulator::new(step, 48_000.0);
    let mut i = 0;
    while i < 3 {
        let p = a.next_value_normalized();
        let mut one = WavetableOscillator::new(from_slice(&buf[..]), AnyPhase { phase: p, freq: 0.0, sr: 0.0, shift: 0 });
        assert!(o.next() == one.next(), "C24 one sample per phase of the accumulator");
        i += 1;
    }
}

harnesses! {
    [] c22_increments_48k { increments(48_000.0, nd::grid(0, 24_000, 1.0)) }
    [] c22_increments_44k { increments(44_100.0, nd::grid(0, 22_050, 1.0)) }
    [] c22_increments_lfo { increments(48_000.0, nd::grid(0, 16_384, 0.0078125)) }
    [] c22_normalized { normalized() }
    [] c22_frequency_48k { frequency(48_000.0, nd::grid(0, 24_000, 1.0), 1000.0) }
    [] c22_frequency_44k { frequency(44_100.0, nd::grid(0, 22_050, 1.0), 1000.0) }
    [] c22_frequency_8k { frequency(8_000.0, nd::grid(0, 16_000, 0.25), 1.0) }
    [] c35_set_freq { set_freq() }

    [] c23_saw { saw() }
    [] c23_rect { rect() }
    [] c23_tri { tri() }
    [unwind(8) stub(micromath::F32::rem_euclid, models::rem_euclid)] c23_sine { sine() }
    [stub(<f32 as AdditionalF32Ext>::fixed_point_sin, models::identity)] c23_sine_phase { sine_phase() }
    [unwind(8) stub(micromath::F32::rem_euclid, models::rem_euclid)] c23_soft_sine { soft(0) }
    [] c23_soft_rect { soft(1) }
    [] c23_soft_saw { soft(2) }
    [] c23_soft_tri { soft(3) }
    [solver(kissat)] c23_setters { osc_setters() }
    [] c23_shift { osc_shift() }
    [unwind(8)] c23_keeps { osc_keeps() }
    [] c23_echo { func_echo() }

    [unwind(10)] c24_wavetable_1 { wavetable::<1>() }
    [unwind(10)] c24_wavetable_2 { wavetable::<2>() }
    [unwind(10)] c24_wavetable_5 { wavetable::<5>() }
    [unwind(10)] c24_value_2 { wavetable_value::<2>() }
    [unwind(10)] c24_value_3 { wavetable_value::<3>() }
    [unwind(10)] c24_value_8 { wavetable_value::<8>() }
    [unwind(10)] c24_echo { table_echo() }
    [unwind(10)] c24_runs_3 { table_runs::<3>() }
    [unwind(10)] c24_soft_3 { wavetable_soft::<3>() }
    [unwind(10)] c24_soft_8 { wavetable_soft::<8>() }
}
