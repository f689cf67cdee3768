//! Entry points for tools/realcheck.py, which executes their LLVM IR (and that
//! of everything they call in /repo) symbolically over the real numbers: `x`
//! holds the inputs, `y` receives the outputs. The `evaluate` binary runs the
//! same functions natively, to replay what the solver found.
use embedded_audio_tools::filter::{Biquad, BiquadCoeffs, Butterworth};
use embedded_audio_tools::float::{lagrange, lagrange_only_4_elements, lerp, lerp_unchecked, AdditionalF32Ext, DSPUtility};
use embedded_audio_tools::memory_access::{from_slice, from_slice_mut};
use embedded_audio_tools::stereo::*;
use embedded_audio_tools::{AllPass, Comb, DelayLine};

macro_rules! entries {
    ($( $name:ident ( $n:expr , $m:expr ) |$x:ident, $y:ident| $body:block )*) => {
        $(
            #[no_mangle]
            pub fn $name($x: &[f32; $n], $y: &mut [f32; $m]) $body
        )*
        pub fn run(name: &str, x: &[f32]) -> Option<Vec<f32>> {
            $(
                if name == stringify!($name) {
                    let mut y = [0.0f32; $m];
                    $name(x.try_into().ok()?, &mut y);
                    return Some(y.to_vec());
                }
            )*
            None
        }
    };
}

type Coeffs = BiquadCoeffs<Butterworth>;
/// Coefficients left over from another response.
fn used() -> Coeffs {
    let mut c = Coeffs::new();
    c.b0 = 3.0;
    c.b1 = -5.0;
    c.b2 = 0.75;
    c.a1 = 7.0;
    c.a2 = -0.625;
    c
}
fn put(c: &Coeffs, y: &mut [f32; 5]) {
    y[0] = c.b0;
    y[1] = c.b1;
    y[2] = c.b2;
    y[3] = c.a1;
    y[4] = c.a2;
}
fn lagrange_n<const N: usize>(x: &[f32], y: &mut [f32; 1]) {
    y[0] = lagrange(&x[..N], x[N]);
}

entries! {
    rc_lowpass(3, 5) |x, y| { let mut c = used(); c.lowpass(x[0], x[1], x[2]); put(&c, y) }
    rc_highpass(3, 5) |x, y| { let mut c = used(); c.highpass(x[0], x[1], x[2]); put(&c, y) }
    rc_allpass(3, 5) |x, y| { let mut c = used(); c.allpass(x[0], x[1], x[2]); put(&c, y) }
    rc_notch(3, 5) |x, y| { let mut c = used(); c.notch(x[0], x[1], x[2]); put(&c, y) }
    rc_bell(4, 5) |x, y| { let mut c = used(); c.bell(x[0], x[1], x[3], x[2]); put(&c, y) }
    rc_low_shelf(4, 5) |x, y| { let mut c = used(); c.low_shelf(x[0], x[1], x[3], x[2]); put(&c, y) }
    // 5 coefficients, then samples
    rc_biquad(13, 8) |x, y| {
        let mut c = Coeffs::new();
        c.b0 = x[0];
        c.b1 = x[1];
        c.b2 = x[2];
        c.a1 = x[3];
        c.a2 = x[4];
        let mut f: Biquad<Butterworth> = Biquad::new(c);
        for i in 0..8 {
            y[i] = f.process(x[5 + i]);
        }
    }
    rc_bell_boost_only(4, 5) |x, y| { let mut c = used(); c.bell_boost_only(x[0], x[1], x[3], x[2]); put(&c, y) }
    rc_bell_cut_only(4, 5) |x, y| { let mut c = used(); c.bell_cut_only(x[0], x[1], x[3], x[2]); put(&c, y) }
    rc_low_shelf_boost_only(4, 5) |x, y| { let mut c = used(); c.low_shelf_boost_only(x[0], x[1], x[3], x[2]); put(&c, y) }
    rc_low_shelf_cut_only(4, 5) |x, y| { let mut c = used(); c.low_shelf_cut_only(x[0], x[1], x[3], x[2]); put(&c, y) }
    // untouched coefficients, then 4 samples
    rc_biquad_new(4, 4) |x, y| {
        let mut f: Biquad<Butterworth> = Biquad::new(Coeffs::new());
        for i in 0..4 {
            y[i] = f.process(x[i]);
        }
    }
    // 5 coefficients, 8 samples of one filter, 8 of another run in turn with it
    rc_biquad_two(21, 16) |x, y| {
        let set = |o: usize| {
            let mut c = Coeffs::new();
            c.b0 = x[o];
            c.b1 = x[1];
            c.b2 = x[2];
            c.a1 = x[3];
            c.a2 = x[4];
            c
        };
        let (mut f, mut g): (Biquad<Butterworth>, Biquad<Butterworth>) = (Biquad::new(set(0)), Biquad::new(set(0)));
        for i in 0..8 {
            y[i] = f.process(x[5 + i]);
            y[8 + i] = g.process(x[13 + i]);
        }
    }
    rc_fast_tan(1, 1) |x, y| { y[0] = x[0].fast_tan(); }
    rc_dsp(2, 8) |x, y| {
        y[0] = x[0].samples_to_seconds(x[1]);
        y[1] = x[0].seconds_to_samples(x[1]);
        y[2] = x[0].samples_to_millis(x[1]);
        y[3] = x[0].millis_to_samples(x[1]);
        y[4] = y[0].seconds_to_samples(x[1]);
        y[5] = y[1].samples_to_seconds(x[1]);
        y[6] = y[2].millis_to_samples(x[1]);
        y[7] = y[3].samples_to_millis(x[1]);
    }
    rc_si(1, 1) |x, y| { y[0] = x[0].si(); }
    rc_sinc(1, 1) |x, y| { y[0] = x[0].sinc(); }
    rc_lerp(3, 1) |x, y| { y[0] = lerp_unchecked(x[0], x[1], x[2]); }
    rc_lerp_checked(3, 2) |x, y| {
        match lerp(x[0], x[1], x[2]) {
            Ok(v) => { y[0] = v; y[1] = 1.0; }
            Err(_) => { y[0] = 0.0; y[1] = 0.0; }
        }
    }
    rc_lagrange_1(2, 1) |x, y| { lagrange_n::<1>(x, y) }
    rc_lagrange_2(3, 1) |x, y| { lagrange_n::<2>(x, y) }
    rc_lagrange_3(4, 1) |x, y| { lagrange_n::<3>(x, y) }
    rc_lagrange_4(5, 1) |x, y| { lagrange_n::<4>(x, y) }
    rc_lagrange_5(6, 1) |x, y| { lagrange_n::<5>(x, y) }
    rc_lagrange_6(7, 1) |x, y| { lagrange_n::<6>(x, y) }
    rc_lagrange_four(5, 1) |x, y| { y[0] = unsafe { lagrange_only_4_elements(&x[..4], x[4]) }; }
    // feedback, dampening, 10 samples; 3 samples delay
    rc_comb(12, 10) |x, y| {
        let mut b = [0.0f32; 3];
        let mut c = Comb::new(from_slice_mut(&mut b));
        c.set_feedback(x[0]);
        c.set_dampening(x[1]);
        for i in 0..10 {
            y[i] = c.tick(x[2 + i]);
        }
    }
    // both parameters change after the fifth sample
    rc_comb_change(14, 10) |x, y| {
        let mut b = [0.0f32; 2];
        let mut c = Comb::new(from_slice_mut(&mut b));
        c.set_dampening(x[1]);
        c.set_feedback(x[0]);
        for i in 0..10 {
            if i == 5 {
                c.set_feedback(x[12]);
                c.set_dampening(x[13]);
            }
            y[i] = c.tick(x[2 + i]);
        }
    }
    rc_all_pass(10, 10) |x, y| {
        let mut b = [0.0f32; 3];
        let mut a = AllPass::new(from_slice_mut(&mut b));
        for i in 0..10 {
            y[i] = a.tick(x[i]);
        }
    }
    // 5 stored samples, a position
    rc_slice_lerp(6, 2) |x, y| {
        let s = from_slice(&x[..5]);
        match s.lerp(x[5]) {
            Ok(v) => { y[0] = v; y[1] = 1.0; }
            Err(_) => { y[0] = 0.0; y[1] = 0.0; }
        }
    }
    rc_slice_lerp_wrapped(6, 1) |x, y| { y[0] = from_slice(&x[..5]).lerp_wrapped(x[5]); }
    rc_slice_lagrange_2(6, 1) |x, y| { y[0] = from_slice(&x[..5]).lagrange_wrapped(x[5], 2); }
    rc_slice_lagrange_3(6, 1) |x, y| { y[0] = from_slice(&x[..5]).lagrange_wrapped(x[5], 3); }
    rc_slice_lagrange_4(6, 1) |x, y| { y[0] = from_slice(&x[..5]).lagrange_wrapped(x[5], 4); }
    rc_slice_lagrange_5(6, 1) |x, y| { y[0] = from_slice(&x[..5]).lagrange_wrapped(x[5], 5); }
    rc_slice_lagrange_0(6, 1) |x, y| { y[0] = from_slice(&x[..5]).lagrange_wrapped(x[5], 0); }
    rc_slice_lagrange_1(6, 1) |x, y| { y[0] = from_slice(&x[..5]).lagrange_wrapped(x[5], 1); }
    rc_slice_lagrange_6(6, 1) |x, y| { y[0] = from_slice(&x[..5]).lagrange_wrapped(x[5], 6); }
    rc_slice_lagrange_8(6, 1) |x, y| { y[0] = from_slice(&x[..5]).lagrange_wrapped(x[5], 8); }
    rc_slice_lagrange_40(6, 1) |x, y| { y[0] = from_slice(&x[..5]).lagrange_wrapped(x[5], 40); }
    rc_slice_lagrange_120(6, 1) |x, y| { y[0] = from_slice(&x[..5]).lagrange_wrapped(x[5], 120); }
    rc_slice_four(6, 1) |x, y| { y[0] = from_slice(&x[..5]).lagrange_four_points_wrapped(x[5]); }
    // 5 stored samples, an offset; read at every position
    rc_tap_lerp(6, 5) |x, y| {
        let mut b = [x[0], x[1], x[2], x[3], x[4]];
        let mut d = DelayLine::new(from_slice_mut(&mut b));
        for i in 0..5 {
            y[i] = d.read_lerp_wrapped_at(x[5]);
            d.advance();
        }
    }
    rc_tap_lagrange(6, 5) |x, y| {
        let mut b = [x[0], x[1], x[2], x[3], x[4]];
        let mut d = DelayLine::new(from_slice_mut(&mut b));
        for i in 0..5 {
            y[i] = d.read_lagrange_wrapped_at(x[5]);
            d.advance();
        }
    }
    rc_pan(3, 6) |x, y| {
        let m = mono_pan_unchecked(x[0], x[1]);
        y[0] = m.0;
        y[1] = m.1;
        y[2] = crossfade_correlated_unchecked(x[0], (x[1], x[2]));
        let s = stereo_pan_unchecked(x[0], (x[1], x[2]));
        y[3] = s.0;
        y[4] = s.1;
        y[5] = 0.0;
    }
}
