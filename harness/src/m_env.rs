//! C25-C27: the ADSR envelope.
#[allow(unused_imports)]
use crate::models;
use crate::nd;
use embedded_audio_tools::envelopes::EnvelopeState::*;
use embedded_audio_tools::envelopes::{AudioRateADSR, EnvelopeState};

const SR: f32 = 48_000.0;
const SLOPES: [f32; 5] = [1.0, 0.05, 0.5, 2.0, 20.0];

fn time() -> f32 {
    let t = nd::f32();
    nd::assume(t >= 0.0 && t <= 1e30);
    t
}
fn sane(v: f32) -> bool {
    v >= 0.0 && v <= 1.0
}
fn slope_any() -> f32 {
    nd::f32_num()
}

// ---------------------------------------------------------------- C25

/// One stage entered from rest with an arbitrary rate: its first tick visits
/// every position the stage can be at.
fn first_attack(slope: f32) {
    let a = time();
    let mut e = AudioRateADSR::new(a, 0.01, 0.5, 0.01, slope, SR);
    e.trigger_on();
    assert!(sane(e.tick()), "C25 the attack stays within [0, 1]");
    assert!(matches!(e.get_state(), Attack | Decay), "C25 the envelope keeps going");
}
fn first_decay(slope: f32) {
    let (d, s) = (time(), nd::pick(&[0.0, 1.0, 0.5, 0.75]));
    let mut e = AudioRateADSR::new(0.0, d, s, 0.01, slope, SR);
    e.trigger_on();
    assert!(e.tick() == 1.0 && e.get_state() == Decay, "C25 a zero attack jumps to the peak");
    let v = e.tick();
    assert!(v >= s && v <= 1.0, "C25 the decay stays between sustain level and peak");
    assert!(matches!(e.get_state(), Sustain | Decay));
}
fn first_release(slope: f32) {
    let (r, s) = (time(), nd::pick(&[0.0, 1.0, 0.5, 0.75]));
    let mut e = AudioRateADSR::new(0.0, 0.0, s, r, slope, SR);
    e.trigger_on();
    e.tick();
    assert!(e.tick() == s && e.get_state() == Sustain, "C25 a zero decay jumps to the sustain level");
    e.trigger_off();
    let v = e.tick();
    assert!(v >= 0.0 && v <= s, "C25 the release stays below the level it started from");
    assert!(matches!(e.get_state(), Release | Idle));
}
/// `jumps`: stages of one step only, where the power function is exact and every counterexample replays
fn some_time(jumps: bool) -> f32 {
    if jumps {
        nd::pick(&[0.0, 1e-6])
    } else {
        nd::pick(&[0.0, 1e-6, 3.0 / SR, 0.01, 5.0, 1e20])
    }
}
fn some_level() -> f32 {
    nd::pick(&[0.5, 0.0, 1.0, 0.3, -1.0, 7.0])
}
/// Any gate sequence and parameter changes between ticks: the output stays in
/// [0, 1]. The power function is replaced by its contract (see models::powf).
fn any_history<const T: usize>(jumps: bool) {
    models::powf_draw();
    let mut e = AudioRateADSR::new(some_time(jumps), some_time(jumps), some_level(), some_time(jumps), slope_any(), SR);
    let mut i = 0;
    while i < T {
        match nd::u8() {
            0 => e.trigger_on(),
            1 => e.trigger_off(),
            2 => e.reset(),
            3 => e.set_attack(some_time(jumps)),
            4 => e.set_decay(some_time(jumps)),
            5 => e.set_sustain(some_level()),
            6 => e.set_release(some_time(jumps)),
            7 => e.set_slope(slope_any()),
            _ => {}
        }
        let v = e.tick();
        assert!(v >= 0.0 && v <= 1.0, "C25 the envelope stays within [0, 1]");
        i += 1;
    }
}
/// The contract of the power function, on micromath's own code.
fn contract_ln(lo: f32, hi: f32) {
    let t = nd::f32_in(lo, hi);
    let l = micromath::F32(t).ln().0;
    assert!(l <= 0.0 && l >= -200.0, "contract: ln of (0, 1] is not positive");
    assert!(t != 1.0 || l == 0.0);
}
fn contract_exp() {
    let x = nd::f32_in(-10_000.0, 0.0);
    let y = micromath::F32(x).exp().0;
    assert!(y >= 0.0 && y <= 1.0, "contract: exp of a non-positive number is in [0, 1]");
    assert!(x != 0.0 || y == 1.0);
}

// ---------------------------------------------------------------- C26

fn secs(ticks: i32) -> f32 {
    ticks as f32 / SR
}
/// Runs one stage to its end; returns the ticks it took (at most `max`).
fn run(e: &mut AudioRateADSR, from: EnvelopeState, max: i32) -> i32 {
    let mut n = 0;
    while n < max && e.get_state() == from {
        e.tick();
        n += 1;
    }
    n
}
/// a whole note, every stage k ticks long
fn note(slope: f32, s: f32) {
    let (a, d, r) = (nd::int_in(1, 3), nd::int_in(1, 3), nd::int_in(1, 3));
    let mut e = AudioRateADSR::new(secs(a), secs(d), s, secs(r), slope, SR);
    assert!(e.get_state() == Idle && e.tick() == 0.0, "C26 silent before the gate opens");
    e.trigger_off();
    assert!(e.get_state() == Idle && e.tick() == 0.0, "C26 closing the gate of an idle envelope does nothing");
    e.trigger_on();
    assert!(e.get_state() == Attack, "C26 the gate starts the attack");
    let n = run(&mut e, Attack, a + 2);
    assert!(e.get_state() == Decay && n >= a && n <= a + 1, "C26 the attack takes its time and leads to the decay");
    let n = run(&mut e, Decay, d + 2);
    assert!(e.get_state() == Sustain && n <= d + 1, "C26 the decay takes its time and leads to the sustain");
    assert!(n >= d || s > 0.999, "C26 the decay takes its time");
    assert!(e.tick() == s && e.tick() == s && e.get_state() == Sustain, "C26 the sustain level is held");
    e.trigger_off();
    assert!(e.get_state() == Release, "C26 closing the gate starts the release");
    e.trigger_off();
    let n = run(&mut e, Release, r + 2);
    assert!(e.get_state() == Idle && n <= r + 1, "C26 the release ends in silence");
    assert!(n >= r || s < 0.001, "C26 the release takes its time");
    assert!(e.tick() == 0.0 && e.get_state() == Idle, "C26 silent after the release");
}
/// One step of a stage of any of ten lengths from any of fourteen positions of it: the
/// stage ends exactly when its time has come, not before and not after.
fn step(stage: EnvelopeState) {
    // how far along a first tick gets, and the length in samples of the rest
    let at = nd::pick(&[0.9999, 0.999, 0.99, 0.9, 0.75, 0.5, 0.25, 0.1, 0.01, 0.001, 0.0001, 1.0 / 3.0, 0.95, 0.0009]);
    let n = nd::pick(&[1.0, 2.0, 3.0, 4.0, 10.0, 48.0, 100.0, 1000.0, 10_000.0, 96_000.0]);
    let s = 0.5;
    let t = 1.0 / at / SR;
    let mut e = AudioRateADSR::new(if stage == Attack { t } else { 0.0 }, if stage == Decay { t } else { 0.0 }, s, t, sym_slope(), SR);
    e.trigger_on();
    if stage != Attack {
        e.tick();
    }
    if stage == Release {
        e.tick();
        e.trigger_off();
    }
    assert!(e.get_state() == stage);
    e.tick();
    assert!(e.get_state() == stage, "C26 a stage does not end early");
    match stage {
        Attack => e.set_attack(n / SR),
        Decay => e.set_decay(n / SR),
        _ => e.set_release(n / SR),
    }
    e.tick();
    let (want, eps) = (at + 1.0 / n, 2e-5);
    if e.get_state() == stage {
        assert!(want < 1.0 + eps, "C26 a stage ends when its time has come");
    } else {
        assert!(want > 1.0 - eps, "C26 a stage does not end early");
    }
}
/// the gate opens (or closes) again in the middle of any stage: the attack (the
/// release) takes its full time from then
fn again() {
    let (a, r) = (nd::int_in(1, 3), nd::int_in(1, 3));
    let mut e = AudioRateADSR::new(secs(3), secs(3), 0.5, secs(3), sym_slope(), SR);
    e.trigger_on();
    let (k, off) = (nd::below(7), nd::below(7));
    let (mut i, mut v) = (0, 0.0);
    while i < k {
        if i == off {
            e.trigger_off();
        }
        v = e.tick();
        i += 1;
    }
    let closed = off < k;
    if nd::bool() {
        e.set_attack(secs(a));
        e.trigger_on();
        let n = run(&mut e, Attack, a + 2);
        assert!(e.get_state() == Decay && n <= a + 1, "C26 a retriggered attack takes its time");
        assert!(n >= a || v > 0.999, "C26 a retriggered attack takes its time");
    } else if !closed {
        e.set_release(secs(r));
        e.trigger_off();
        let n = run(&mut e, Release, r + 2);
        assert!(e.get_state() == Idle && n <= r + 1, "C26 a release takes its time whatever it cuts short");
        assert!(n >= r || v < 0.001, "C26 a release takes its time whatever it cuts short");
    }
}
fn sym_slope() -> f32 {
    nd::pick(&SLOPES)
}
/// the gate closes or opens again in any state
fn gates() {
    models::powf_draw();
    let mut e = AudioRateADSR::new(time(), time(), nd::f32_in(0.0, 1.0), time(), slope_any(), SR);
    let mut i = 0;
    while i < 4 {
        let was = e.get_state();
        match nd::u8() {
            0 => {
                e.trigger_on();
                assert!(e.get_state() == Attack, "C26 opening the gate starts the attack from every state");
            }
            1 => {
                e.trigger_off();
                let want = if was == Idle { Idle } else { Release };
                assert!(e.get_state() == want, "C26 closing the gate starts the release from every sounding state");
            }
            2 => {
                e.reset();
                assert!(e.get_state() == Idle, "C26 a reset goes back to idle from every state");
            }
            _ => {}
        }
        let from = e.get_state();
        let v = e.tick();
        let to = e.get_state();
        let ok = match from {
            Idle => to == Idle && v == 0.0,
            Attack => to == Attack || to == Decay && v == 1.0,
            Decay => to == Decay || to == Sustain,
            Sustain => to == Sustain,
            Release => to == Release || to == Idle && v == 0.0,
        };
        assert!(ok, "C26 stages follow each other in order");
        i += 1;
    }
}

// ---------------------------------------------------------------- C27

/// parameter `which` arbitrary, the others fixed; compared over the stage it rules
fn setters(which: u8, sr: f32, other: f32) {
    let times = [0.0, secs(2), secs(3), 1e-6, 0.001, 1.0, 5.0, 1e20, -1.0, -1e-6, 0.013, 1e-9];
    let any = |w: u8, fixed: f32| {
        if w != which {
            fixed
        } else if w == 2 || w == 4 {
            nd::f32_in(-1e20, 1e20)
        } else {
            nd::pick(&times)
        }
    };
    let (a, d, s, r, sl) = (any(0, 0.0), any(1, secs(2)), any(2, 0.5), any(3, secs(2)), any(4, 1.0));
    let mut x = AudioRateADSR::new(a, d, s, r, sl, sr);
    let mut y = AudioRateADSR::new(0.5, 0.25, 0.125, 0.75, 1.5, other);
    y.set_sr(sr);
    y.set_attack(a);
    y.set_decay(d);
    y.set_sustain(s);
    y.set_release(r);
    y.set_slope(sl);
    x.trigger_on();
    y.trigger_on();
    let n = if which == 0 { 1 } else if which == 1 || which == 4 { 2 } else if which == 2 { 5 } else { 6 };
    let mut i = 0;
    while i < n {
        if i == 5 {
            x.trigger_off();
            y.trigger_off();
        }
        let (u, v) = (x.tick(), y.tick());
        let e = u - v;
        assert!(e < 1e-5 && e > -1e-5 && x.get_state() == y.get_state(), "C27 setting every parameter equals constructing with them");
        i += 1;
    }
}
/// every sample rate, through `set_sr`: the times set then are the ones constructed with it
fn rates() {
    let sr = nd::pick(&[1000.0, 48_000.0, 4000.0, 0.5, 1.0, 8000.0, 96_000.0, 192_000.0, 1e6, 44_100.0]);
    let k = nd::pick(&[2.0, 3.0, 0.5, 0.0]);
    let t = k / sr;
    let mut x = AudioRateADSR::new(t, t, 0.5, t, 1.0, sr);
    let mut y = AudioRateADSR::new(0.5, 0.25, 0.125, 0.75, 1.5, nd::pick(&[8000.0, 1e6, 2.0]));
    y.set_sr(sr);
    y.set_attack(t);
    y.set_decay(t);
    y.set_sustain(0.5);
    y.set_release(t);
    y.set_slope(1.0);
    let n = nd::below(6);
    x.trigger_on();
    y.trigger_on();
    let mut i = 0;
    while i < 7 {
        if i == n {
            x.trigger_off();
            y.trigger_off();
        }
        let e = x.tick() - y.tick();
        assert!(e < 1e-5 && e > -1e-5 && x.get_state() == y.get_state(), "C27 setting every parameter equals constructing with them, at every sample rate");
        i += 1;
    }
}
fn setters_all(sr: f32, other: f32) {
    let p = [secs(2), 0.0, secs(3)];
    let (a, d, r) = (nd::pick(&p), nd::pick(&p), nd::pick(&p));
    let s = nd::pick(&[0.5, 1.0]);
    let sl = nd::pick(&[1.0, 2.0]);
    let mut x = AudioRateADSR::new(a, d, s, r, sl, sr);
    let mut y = AudioRateADSR::new(0.5, 0.25, 0.125, 0.75, 1.5, other);
    y.set_sr(sr);
    y.set_slope(sl);
    y.set_release(r);
    y.set_sustain(s);
    y.set_decay(d);
    y.set_attack(a);
    x.trigger_on();
    y.trigger_on();
    let off = nd::below(3);
    let mut i = 0;
    while i < 4 {
        if i == off {
            x.trigger_off();
            y.trigger_off();
        }
        let e = x.tick() - y.tick();
        assert!(e < 1e-5 && e > -1e-5 && x.get_state() == y.get_state(), "C27 setting every parameter equals constructing with them");
        i += 1;
    }
}

// ---------------------------------------------------------------- C38

/// Any history: after a gate change the output continues from the level heard
/// last (which a reset silences). `linear` (with the power function as its own
/// base): to within one step of the stage on its first tick. Otherwise (any
/// slope, the power function replaced by its contract): never below while
/// attacking, never above while releasing.
fn continues<const T: usize>(linear: bool) {
    models::powf_draw();
    let slope = if linear { 1.0 } else { sym_slope() };
    let (a, d, r) = if linear { (4.0, nd::pick(&[1.0, 4.0]), 4.0) } else { (100.0, nd::pick(&[1.0, 100.0]), 100.0) };
    let mut e = AudioRateADSR::new(a / SR, d / SR, 0.5, r / SR, slope, SR);
    let (mut heard, mut from, mut first) = (0.0, 0.0, false);
    let mut i = 0;
    while i < T {
        let was = e.get_state();
        match nd::u8() {
            0 => {
                e.trigger_on();
                from = heard;
                first = true;
            }
            1 => {
                e.trigger_off();
                if matches!(was, Attack | Decay | Sustain) {
                    from = heard;
                    first = true;
                }
            }
            2 => {
                e.reset();
                heard = 0.0;
            }
            3 => e.set_sustain(nd::pick(&[0.0, 1.0, 0.25])),
            _ => {}
        }
        i += 1;
        // several of these may fall between two ticks
        if nd::bool() {
            continue;
        }
        let state = e.get_state();
        let v = e.tick();
        let eps = 1e-5;
        if state == Attack {
            assert!(v >= from - eps, "C38 an attack starts from the level being heard");
            assert!(!linear || !first || v <= from + (1.0 - from) / a + eps, "C38 an attack does not jump");
        }
        if state == Release {
            assert!(v <= from + eps, "C38 a release starts from the level being heard");
            assert!(!linear || !first || v >= from - from / r - eps, "C38 a release does not jump");
        }
        heard = v;
        first = false;
    }
}

harnesses! {
    [solver(kissat)] c25_attack_1 { first_attack(1.0) }
    [] c25_attack_005 { first_attack(0.05) }
    [solver(kissat)] c25_attack_20 { first_attack(20.0) }
    [] c25_decay_1 { first_decay(1.0) }
    [] c25_decay_005 { first_decay(0.05) }
    [] c25_decay_20 { first_decay(20.0) }
    [] c25_release_1 { first_release(1.0) }
    [] c25_release_005 { first_release(0.05) }
    [] c25_release_20 { first_release(20.0) }
    [unwind(10) stub(micromath::F32::powf, models::powf)] c25_history_3 { any_history::<3>(false) }
    [unwind(10) stub(micromath::F32::powf, models::powf)] c25_history_jumps { any_history::<5>(true) }
    [unwind(10) stub(micromath::F32::powf, models::powf)] c25_history_4 { any_history::<4>(false) }
    [solver(kissat)] c25_contract_ln_0 { contract_ln(1e-9, 0.0009765625) }
    [solver(kissat)] c25_contract_ln_1 { contract_ln(0.0009765625, 0.125) }
    [solver(kissat)] c25_contract_ln_2 { contract_ln(0.125, 0.5) }
    [solver(kissat)] c25_contract_ln_3 { contract_ln(0.5, 1.0) }
    [] c25_contract_exp { contract_exp() }

    [unwind(8) stub(micromath::F32::powf, models::powf_base)] c26_note { note(sym_slope(), nd::pick(&[0.0, 1.0, 0.5])) }
    [unwind(8) stub(micromath::F32::powf, models::powf_base)] c26_step_attack { step(Attack) }
    [unwind(8) stub(micromath::F32::powf, models::powf_base)] c26_step_decay { step(Decay) }
    [unwind(8) stub(micromath::F32::powf, models::powf_base)] c26_step_release { step(Release) }
    [unwind(8) stub(micromath::F32::powf, models::powf_base)] c26_again { again() }
    [unwind(10) stub(micromath::F32::powf, models::powf)] c26_gates { gates() }


    [unwind(10) stub(micromath::F32::powf, models::powf)] c38_any_4 { continues::<4>(false) }
    [unwind(10) stub(micromath::F32::powf, models::powf_base)] c38_linear_4 { continues::<4>(true) }
    [unwind(10) stub(micromath::F32::powf, models::powf)] c38_any_5 { continues::<5>(false) }
    [unwind(10) stub(micromath::F32::powf, models::powf_base)] c38_linear_5 { continues::<5>(true) }
    [unwind(10) stub(micromath::F32::powf, models::powf)] c38_any_6 { continues::<6>(false) }
    [unwind(10) stub(micromath::F32::powf, models::powf_base)] c38_linear_6 { continues::<6>(true) }

    [unwind(10) solver(kissat) stub(micromath::F32::powf, models::powf_injective)] c27_rates { rates() }
    [unwind(10) solver(kissat) stub(micromath::F32::powf, models::powf_injective)] c27_attack { setters(0, 48_000.0, 8_000.0) }
    [unwind(10) solver(kissat) stub(micromath::F32::powf, models::powf_injective)] c27_decay { setters(1, 48_000.0, 8_000.0) }
    [unwind(10) solver(kissat) stub(micromath::F32::powf, models::powf_injective)] c27_sustain { setters(2, 48_000.0, 8_000.0) }
    [unwind(10) solver(kissat) stub(micromath::F32::powf, models::powf_injective)] c27_release { setters(3, 48_000.0, 8_000.0) }
    [unwind(10) stub(micromath::F32::powf, models::powf_injective)] c27_slope { setters(4, 48_000.0, 8_000.0) }
    [unwind(10) solver(kissat) stub(micromath::F32::powf, models::powf_injective)] c27_all { setters_all(48_000.0, 8_000.0) }
}
