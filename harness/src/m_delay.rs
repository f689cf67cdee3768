//! C08-C11: delay line, its fractional taps, comb and all-pass.
use crate::for_len;
use crate::nd;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::{AllPass, Comb, DelayLine};

fn next(p: usize, n: usize) -> usize {
    if p + 1 == n {
        0
    } else {
        p + 1
    }
}
/// A delay line over `buf` after an arbitrary number of advances; returns its position.
fn at<const N: usize>(d: &mut DelayLine) -> usize {
    let k = nd::below(N);
    let mut i = 0;
    while i < N {
        if i < k {
            d.advance();
        }
        i += 1;
    }
    k
}

// ---------------------------------------------------------------- C08

/// One operation from every reachable state, for arbitrary contents.
fn step<const N: usize>() {
    let mut buf: [f32; N] = nd::f32s();
    let mut want = buf;
    let mut d = DelayLine::new(from_slice_mut(&mut buf[..]));
    assert!(d.len() == N);
    let mut p = at::<N>(&mut d);
    assert!(nd::same_bits(d.read(), want[p]), "C08 a delay line reads the oldest sample");
    let v = nd::f32();
    if nd::bool() {
        d.write_and_advance(v);
        want[p] = v;
    } else {
        d.advance();
    }
    p = next(p, N);
    assert!(nd::same_bits(d.read(), want[p]), "C08 each step moves on by exactly one sample, cyclically");
    assert!(d.get_ptr_slice_mut() as *mut f32 == buf.as_mut_ptr());
    let mut i = 0;
    while i < N {
        assert!(nd::same_bits(buf[i], want[i]), "C08 a write stores one sample and leaves the others alone");
        i += 1;
    }
}
/// 2N writes: what comes out is what went in N steps before.
fn fifo<const N: usize, const M: usize>() {
    let mut buf: [f32; N] = nd::f32s();
    let first = buf;
    let input: [f32; M] = nd::f32s();
    let mut d = DelayLine::new(from_slice_mut(&mut buf[..]));
    let mut i = 0;
    while i < M {
        let w = if i < N { first[i] } else { input[i - N] };
        assert!(nd::same_bits(d.read(), w), "C08 a sample written returns exactly `length` steps later");
        d.write_and_advance(input[i]);
        i += 1;
    }
}
/// Retargeting to another buffer at run time, at any position.
fn change<const N: usize, const M: usize>() {
    let mut buf: [f32; N] = nd::f32s();
    let kept = buf;
    let mut other: [f32; M] = nd::f32s();
    let po = other.as_mut_ptr();
    let mut d = DelayLine::new(from_slice_mut(&mut buf[..]));
    at::<N>(&mut d);
    d.change_buffer(from_slice_mut(&mut other[..]));
    assert!(d.len() == M && d.get_ptr_slice_mut() as *mut f32 == po);
    let v: [f32; M] = nd::f32s();
    let mut i = 0;
    while i < M {
        let r = d.read();
        let mut found = false;
        let mut j = 0;
        while j < M {
            found |= nd::same_bits(unsafe { *po.add(j) }, r);
            j += 1;
        }
        assert!(found, "C08 after a buffer change the delay line reads the new buffer");
        d.write_and_advance(v[i]);
        i += 1;
    }
    i = 0;
    while i < M {
        assert!(nd::same_bits(d.read(), v[i]), "C08 after a buffer change a sample returns after the new length");
        d.advance();
        i += 1;
    }
    i = 0;
    while i < N {
        assert!(nd::same_bits(buf[i], kept[i]), "C08 after a buffer change the old buffer is left alone");
        i += 1;
    }
}
fn change_comb<const N: usize, const M: usize>() {
    let mut buf: [f32; N] = [0.0; N];
    let mut other: [f32; M] = nd::samples();
    let po = other.as_mut_ptr();
    let mut c = Comb::new(from_slice_mut(&mut buf[..]));
    c.set_dampening(0.0);
    c.set_feedback(0.0);
    let k = nd::below(N);
    let mut i = 0;
    while i < k {
        c.tick(0.0);
        i += 1;
    }
    c.change_buffer(from_slice_mut(&mut other[..]));
    assert!(c.get_ptr_slice_mut() as *mut f32 == po);
    let v: [f32; M] = nd::samples();
    i = 0;
    while i < M {
        c.tick(v[i]);
        i += 1;
    }
    i = 0;
    while i < M {
        assert!(c.tick(0.0) == v[i], "C08 after a buffer change a comb delays by the new length");
        i += 1;
    }
    i = 0;
    while i < N {
        assert!(buf[i] == 0.0, "C08 after a buffer change the old buffer is left alone");
        i += 1;
    }
}
fn change_allpass<const N: usize, const M: usize>() {
    let mut buf: [f32; N] = [0.0; N];
    let mut other: [f32; M] = [0.0; M];
    let po = other.as_mut_ptr();
    let mut c = AllPass::new(from_slice_mut(&mut buf[..]));
    let k = nd::below(N);
    let mut i = 0;
    while i < k {
        c.tick(0.0);
        i += 1;
    }
    c.change_buffer(from_slice_mut(&mut other[..]));
    assert!(c.get_ptr_slice_mut() as *mut f32 == po);
    let v: [f32; M] = nd::samples();
    i = 0;
    while i < M {
        c.tick(v[i]);
        i += 1;
    }
    i = 0;
    while i < M {
        assert!(c.tick(0.0) == v[i], "C08 after a buffer change an all-pass delays by the new length");
        i += 1;
    }
    i = 0;
    while i < N {
        assert!(buf[i] == 0.0, "C08 after a buffer change the old buffer is left alone");
        i += 1;
    }
}

// ---------------------------------------------------------------- C09

/// position + offset, modulo N, for |offset| up to 40 N
fn tap_at<const N: usize>(p: usize) -> (isize, usize) {
    let q = nd::int_in(-40, 40) as isize;
    let j = nd::below(N);
    let m = if p + j >= N { p + j - N } else { p + j };
    (q * N as isize + j as isize, m)
}
fn tap<const N: usize>() {
    let mut buf: [f32; N] = nd::f32s();
    let copy = buf;
    let mut d = DelayLine::new(from_slice_mut(&mut buf[..]));
    let p = at::<N>(&mut d);
    assert!(nd::same_bits(d.read_wrapped_at(0), d.read()), "C09 tap 0 is the delay line's output");
    let (o, m) = tap_at::<N>(p);
    assert!(nd::same_bits(d.read_wrapped_at(o), copy[m]), "C09 an integral tap reads the sample that many steps away, cyclically");
}
/// offsets within 64 of an end of their range, and multiples of large powers of two
fn tap_far<const N: usize>() {
    let mut buf: [f32; N] = nd::f32s();
    let copy = buf;
    let mut d = DelayLine::new(from_slice_mut(&mut buf[..]));
    let p = at::<N>(&mut d);
    let (o, j) = if nd::bool() { crate::m_slice::extreme::<N>() } else { crate::m_slice::far::<N>() };
    let m = if p + j >= N { p + j - N } else { p + j };
    assert!(nd::same_bits(d.read_wrapped_at(o), copy[m]), "C09 an integral tap reads the sample that many steps away, cyclically");
}
/// the same, up to 127 * 2^12 samples away
fn tap_mid<const N: usize>(p: usize) -> (isize, usize) {
    let (o, j) = crate::m_slice::mid::<N>();
    (o, if p + j >= N { p + j - N } else { p + j })
}
fn tap_lerp<const N: usize>(far: bool) {
    let mut buf: [f32; N] = nd::samples();
    let copy = buf;
    let mut d = DelayLine::new(from_slice_mut(&mut buf[..]));
    let p = at::<N>(&mut d);
    let (o, m) = if far { tap_mid::<N>(p) } else { tap_at::<N>(p) };
    let t = nd::fraction();
    let n = next(m, N);
    let want = copy[m] + (copy[n] - copy[m]) * t;
    assert!(d.read_lerp_wrapped_at(o as f32 + t) == want, "C09 a fractional tap interpolates its two neighbours");
}
fn tap_lagrange<const N: usize>(far: bool) {
    let mut buf: [f32; N] = nd::samples();
    let copy = buf;
    let mut d = DelayLine::new(from_slice_mut(&mut buf[..]));
    let p = at::<N>(&mut d);
    let (o, m) = if far {
        let (o, m) = tap_mid::<N>(p);
        (o as f32, m)
    } else {
        let j = nd::below(N);
        (nd::pick(&[0.0, 1.0, -1.0, -2.0]) * N as f32 + j as f32, if p + j >= N { p + j - N } else { p + j })
    };
    let v = d.read_lagrange_wrapped_at(o) - copy[m];
    assert!(v < 0.001 && v > -0.001, "C09 a Lagrange tap at an integral offset reads the stored sample");
}
/// samples on a line (away from the seam) are reproduced at fractional offsets
fn tap_lagrange_line() {
    const N: usize = 10;
    let a = nd::pick(&[0.0, 1.0, -2.0, 0.5]);
    let b = nd::pick(&[0.0, 1.0, -2.0, 0.5]);
    let mut buf = [0.0f32; N];
    let mut i = 0;
    while i < N {
        buf[i] = a + b * i as f32;
        i += 1;
    }
    let mut d = DelayLine::new(from_slice_mut(&mut buf[..]));
    let k = nd::below(4);
    i = 0;
    while i < 4 {
        if i < k {
            d.advance();
        }
        i += 1;
    }
    let t = nd::pick(&[0.25, 0.5, 0.75]);
    let j = (3 - k) as f32 + nd::below(3) as f32;
    let v = d.read_lagrange_wrapped_at(j + t) - (a + b * (k as f32 + j + t));
    assert!(v < 0.01 && v > -0.01, "C09 a Lagrange tap lies between its neighbours on linear data");
}

// ---------------------------------------------------------------- C10, C11

const GAIN: [f32; 8] = [0.0, 0.5, 1.0, 0.25, 0.75, -0.5, -1.0, 0.875];
const SIG: [f32; 6] = [0.0, 1.0, -1.0, 0.5, 2.0, -0.25];

/// The comb difference equation over T samples from zero-initialised feedback
/// state and an arbitrary buffer.
fn comb<const N: usize, const T: usize>() {
    let mut buf = [0.0f32; N];
    let mut hist = [0.0f32; N];
    let mut i = 0;
    while i < N {
        buf[i] = nd::pick(&SIG);
        hist[i] = buf[i];
        i += 1;
    }
    let mut c = Comb::new(from_slice_mut(&mut buf[..]));
    let (mut d, mut f) = (0.5, 0.5);
    if nd::bool() {
        d = nd::pick(&GAIN);
        f = nd::pick(&GAIN);
        c.set_dampening(d);
        c.set_feedback(f);
    }
    let (mut s, mut p, mut i) = (0.0f32, 0, 0);
    while i < T {
        let x = nd::pick(&SIG);
        let y = hist[p];
        s = y * (1.0 - d) + s * d;
        hist[p] = x + s * f;
        p = next(p, N);
        let e = c.tick(x) - y;
        assert!(e < 1e-5 && e > -1e-5, "C10 comb output is the input fed back through its damped loop, length samples later");
        i += 1;
    }
}
fn allpass<const N: usize, const T: usize>() {
    let mut buf = [0.0f32; N];
    let mut hist = [0.0f32; N];
    let mut i = 0;
    while i < N {
        buf[i] = nd::pick(&SIG);
        hist[i] = buf[i];
        i += 1;
    }
    let mut c = AllPass::new(from_slice_mut(&mut buf[..]));
    let (mut p, mut i) = (0, 0);
    while i < T {
        let x = nd::pick(&SIG);
        let y = hist[p] - x;
        hist[p] = x + hist[p] * 0.5;
        p = next(p, N);
        let e = c.tick(x) - y;
        assert!(e < 1e-5 && e > -1e-5, "C11 all-pass output is the delayed loop minus the input");
        i += 1;
    }
}

harnesses! {
    [unwind(10)] c08_step_1 { step::<1>() }
    [unwind(10)] c08_step_2 { step::<2>() }
    [unwind(10)] c08_step_3 { step::<3>() }
    [unwind(10)] c08_step_8 { step::<8>() }
    [unwind(18)] c08_step_16 { step::<16>() }
    [unwind(12)] c08_fifo_1 { fifo::<1, 3>() }
    [unwind(12)] c08_fifo_3 { fifo::<3, 7>() }
    [unwind(12)] c08_fifo_5 { fifo::<5, 11>() }
    [unwind(10)] c08_change_5_2 { change::<5, 2>() }
    [unwind(10)] c08_change_2_5 { change::<2, 5>() }
    [unwind(10)] c08_change_4_4 { change::<4, 4>() }
    [unwind(10)] c08_change_3_1 { change::<3, 1>() }
    [unwind(10)] c08_change_comb { change_comb::<4, 2>() }
    [unwind(10)] c08_change_allpass { change_allpass::<4, 2>() }
    [unwind(10)] c08_change_comb_same { change_comb::<3, 3>() }
    [unwind(10)] c08_change_comb_up { change_comb::<2, 4>() }
    [unwind(10)] c08_change_allpass_same { change_allpass::<3, 3>() }
    [unwind(10)] c08_change_allpass_up { change_allpass::<2, 4>() }

    [unwind(10)] c09_tap_1 { tap::<1>() }
    [unwind(10)] c09_tap_3 { tap::<3>() }
    [unwind(10)] c09_tap_8 { tap::<8>() }
    [unwind(10)] c09_tap_far { for_len!(tap_far; 1, 2, 3, 5, 8) }
    [unwind(10)] c09_lerp_2 { tap_lerp::<2>(false) }
    [unwind(10)] c09_lerp_5 { tap_lerp::<5>(false) }
    [unwind(10)] c09_lerp_mid_3 { tap_lerp::<3>(true) }
    [unwind(102)] c09_lagrange_mid_3 { tap_lagrange::<3>(true) }
    [unwind(102)] c09_lagrange_5 { tap_lagrange::<5>(false) }
    [unwind(102)] c09_lagrange_3 { tap_lagrange::<3>(false) }
    [unwind(102)] c09_lagrange_line { tap_lagrange_line() }

    [unwind(10)] c10_comb_1 { comb::<1, 3>() }
    [unwind(10)] c10_comb_2 { comb::<2, 5>() }
    [unwind(10)] c10_comb_3 { comb::<3, 5>() }
    [unwind(10)] c11_allpass_1 { allpass::<1, 3>() }
    [unwind(10)] c11_allpass_2 { allpass::<2, 5>() }
    [unwind(10)] c11_allpass_3 { allpass::<3, 5>() }
}
