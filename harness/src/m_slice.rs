//! C01-C05: memory slices.
use crate::nd;
use embedded_audio_tools::errors::MemSliceError::{IndexOutOfBound, LengthOutOfBound};
use embedded_audio_tools::memory_access::*;

/// Runs `$f::<N>()` for a solver-chosen N of the list.
#[macro_export]
macro_rules! for_len {
    ($f:ident; $($n:literal),+) => {{
        let which = $crate::nd::u8();
        let mut k = 0u8;
        let mut hit = false;
        $( if which == k { hit = true; $f::<$n>(); } k += 1; )+
        let _ = k;
        $crate::nd::assume(hit);
    }};
}

// ---------------------------------------------------------------- C01

fn get<const N: usize>() {
    let mut buf: [f32; N] = nd::f32s();
    let i = nd::usize();
    let want = if i < N { Some(buf[i]) } else { None };
    let check = |r: Result<f32, _>| match (r, want) {
        (Ok(v), Some(w)) => assert!(nd::same_bits(v, w), "C01 get returns the element at the index"),
        (Err(e), None) => assert!(e == IndexOutOfBound, "C01 get reports index out of bound"),
        (Ok(_), None) => panic!("C01 get accepted an index outside the slice"),
        (Err(_), Some(_)) => panic!("C01 get rejected an index inside the slice"),
    };
    let s = from_slice(&buf[..]);
    assert!(s.len() == N);
    check(s.get(i));
    let m = from_slice_mut(&mut buf[..]);
    assert!(m.len() == N);
    check(m.get(i));
}

fn assign<const N: usize>() {
    let mut buf: [f32; N] = nd::f32s();
    let before = buf;
    let i = nd::usize();
    let v = nd::f32();
    let mut m = from_slice_mut(&mut buf[..]);
    let r = m.assign(i, v);
    if i < N {
        assert!(r == Ok(()), "C01 assign rejected an index inside the slice");
        assert!(nd::same_bits(m.get(i).unwrap(), v), "C01 a stored value reads back");
    } else {
        assert!(r == Err(IndexOutOfBound), "C01 assign must reject an index outside the slice");
    }
    let mut j = 0;
    while j < N {
        let want = if j == i { v } else { before[j] };
        assert!(nd::same_bits(buf[j], want), "C01 assign touches exactly one element");
        j += 1;
    }
}

fn views<const N: usize>() {
    let mut buf: [f32; N] = nd::f32s();
    let copy = buf;
    let i = nd::usize();
    let v = nd::f32();
    // retargeting an empty slice at run time gives the same window as building it
    let p = buf.as_mut_ptr();
    let mut z = null_mut();
    assert!(z.len() == 0 && z.get(i).is_err() && z.assign(i, v).is_err());
    unsafe { z.change_mut_slice_unchecked(p, N) };
    assert!(z.len() == N);
    assert!(z.as_slice() as *const f32 == p as *const f32 && z.as_slice().len() == N);
    assert!(z.as_slice_mut() as *mut f32 == p && z.as_slice_mut().len() == N);
    let mut c = null();
    assert!(c.len() == 0 && c.get(i).is_err());
    unsafe { c.change_slice_unchecked(p as *const f32, N) };
    assert!(c.len() == N && c.as_slice() as *const f32 == p as *const f32);
    if i < N {
        assert!(nd::same_bits(c.get(i).unwrap(), copy[i]));
        // both views alias the same memory
        z.assign(i, v).unwrap();
        assert!(nd::same_bits(c.get(i).unwrap(), v), "C01 views over one buffer see each other's writes");
    }
}

/// A view pointed at another window of the buffer, whatever it was before.
fn retarget() {
    let mut buf: [f32; 5] = nd::f32s();
    let copy = buf;
    let p = buf.as_mut_ptr();
    let window = || {
        let (o, n) = (nd::below(6) as usize, nd::below(6) as usize);
        nd::assume(o + n <= 5);
        (o, n)
    };
    let ((o1, n1), (o2, n2)) = (window(), window());
    let i = nd::usize();
    let mut z = null_mut();
    let mut c = null();
    unsafe {
        z.change_mut_slice_unchecked(p.add(o1), n1);
        c.change_slice_unchecked(p.add(o1) as *const f32, n1);
        z.change_mut_slice_unchecked(p.add(o2), n2);
        c.change_slice_unchecked(p.add(o2) as *const f32, n2);
    }
    assert!(z.len() == n2 && c.len() == n2, "C01 a retargeted slice covers its new window");
    assert!(z.as_slice() as *const f32 == c.as_slice() as *const f32 && c.as_slice() as *const f32 == p.wrapping_add(o2) as *const f32);
    match (z.get(i), c.get(i)) {
        (Ok(u), Ok(v)) => {
            assert!(i < n2, "C01 a retargeted slice covers its new window");
            assert!(nd::same_bits(u, copy[o2 + i]) && nd::same_bits(v, copy[o2 + i]), "C01 a retargeted slice reads its new window");
        }
        (Err(_), Err(_)) => assert!(i >= n2, "C01 a retargeted slice covers its new window"),
        _ => panic!("C01 both views cover the same window"),
    }
    assert!(z.assign(i, 0.0).is_ok() == (i < n2), "C01 a retargeted slice covers its new window");
}

/// A window of any length up to B, over memory that is zero but for one sample anywhere.
fn sparse<const B: usize>(buf: &mut [f32; B], v: f32) -> (usize, usize) {
    let (n, p) = (nd::u16() as usize, nd::u16() as usize);
    nd::assume(n <= B && p < B);
    buf[p] = v;
    (n, p)
}
fn get_long<const B: usize>() {
    let mut buf = [0.0f32; B];
    let v = nd::f32();
    let (n, p) = sparse(&mut buf, v);
    let i = nd::usize();
    let s = from_slice(&buf[..n]);
    assert!(s.len() == n);
    match s.get(i) {
        Ok(x) => assert!(i < n && nd::same_bits(x, if i == p { v } else { 0.0 }), "C01 get returns the element at the index"),
        Err(e) => assert!(i >= n && e == IndexOutOfBound, "C01 get rejected an index inside the slice"),
    }
}
fn assign_long<const B: usize>() {
    let mut buf = [0.0f32; B];
    let (n, p) = sparse(&mut buf, 1.0);
    let (i, k, v) = (nd::usize(), nd::u16() as usize, nd::f32());
    nd::assume(k < B);
    let mut m = from_slice_mut(&mut buf[..n]);
    assert!(m.assign(i, v).is_ok() == (i < n), "C01 assign succeeds exactly inside the slice");
    let want = if i < n && k == i { v } else if k == p { 1.0 } else { 0.0 };
    assert!(nd::same_bits(buf[k], want), "C01 assign touches exactly one element");
}

// ---------------------------------------------------------------- C02

fn sub_long<const B: usize>() {
    let mut buf = [0.0f32; B];
    let v = nd::f32();
    let (n, p) = sparse(&mut buf, v);
    let (off, len, k) = (nd::usize(), nd::usize(), nd::usize());
    let s = from_slice(&buf[..n]);
    let inside = off < n && len <= n - off;
    match s.get_sub_slice(off, len) {
        Ok(w) => {
            assert!(inside && w.len() == len, "C02 a sub-slice reaching outside its parent was granted");
            match w.get(k) {
                Ok(x) => assert!(k < len && nd::same_bits(x, if off + k == p { v } else { 0.0 }), "C02 sub-slice element k is parent element offset+k"),
                Err(e) => assert!(k >= len && e == IndexOutOfBound),
            }
        }
        Err(_) => assert!(!inside, "C02 a sub-slice inside its parent was refused"),
    }
}
fn sub<const N: usize>() {
    let mut buf: [f32; N] = nd::f32s();
    let before = buf;
    let (off, len, k) = (nd::usize(), nd::usize(), nd::usize());
    let v = nd::f32();
    let inside = off < N && len <= N - off;
    let s = from_slice(&buf[..]);
    match s.get_sub_slice(off, len) {
        Ok(w) => {
            assert!(inside, "C02 a sub-slice reaching outside its parent was granted");
            assert!(w.len() == len, "C02 a sub-slice has the requested length");
            match w.get(k) {
                Ok(x) => assert!(k < len && nd::same_bits(x, before[off + k]), "C02 sub-slice element k is parent element offset+k"),
                Err(e) => assert!(k >= len && e == IndexOutOfBound),
            }
        }
        Err(e) => {
            assert!(!inside, "C02 a sub-slice inside its parent was refused");
            assert!(e == if off >= N { IndexOutOfBound } else { LengthOutOfBound });
        }
    }
    let m = from_slice_mut(&mut buf[..]);
    match m.get_sub_slice(off, len) {
        Ok(mut w) => {
            assert!(inside && w.len() == len);
            let r = w.assign(k, v);
            assert!(r.is_ok() == (k < len));
            let mut j = 0;
            while j < N {
                let want = if k < len && j == off + k { v } else { before[j] };
                assert!(nd::same_bits(buf[j], want), "C02 a write through a sub-slice lands on parent element offset+k only");
                j += 1;
            }
        }
        Err(_) => assert!(!inside),
    }
}

/// sub-slices of sub-slices stay inside
fn subsub<const N: usize>() {
    let buf: [f32; N] = nd::f32s();
    let (o1, l1, o2, l2, k) = (nd::usize(), nd::usize(), nd::usize(), nd::usize(), nd::usize());
    let s = from_slice(&buf[..]);
    if let Ok(a) = s.get_sub_slice(o1, l1) {
        if let Ok(b) = a.get_sub_slice(o2, l2) {
            assert!(o1 < N && o2 < l1 && l2 <= l1 - o2 && l1 <= N - o1);
            if let Ok(x) = b.get(k) {
                assert!(k < l2 && nd::same_bits(x, buf[o1 + o2 + k]));
            }
        }
    }
}

// ---------------------------------------------------------------- C03

fn wrapped_at<const N: usize>(i: isize, k: usize) {
    let mut buf: [f32; N] = nd::f32s();
    let s = from_slice(&buf[..]);
    assert!(nd::same_bits(s.get_wrapped(i), buf[k]), "C03 a wrapped read returns the element at index mod length");
    assert!(nd::same_bits(unsafe { s.get_wrapped_unchecked(i) }, buf[k]));
    let want = buf[k];
    let m = from_slice_mut(&mut buf[..]);
    assert!(nd::same_bits(m.get_wrapped(i), want));
}
fn four_at<const N: usize>(i: isize, k: usize) {
    let buf: [f32; N] = nd::f32s();
    let s = from_slice(&buf[..]);
    let f = s.get_slice_of_four_wrapped(i);
    let mut j = 0;
    let mut p = k;
    while j < 4 {
        assert!(nd::same_bits(f[j], buf[p]), "C03 a wrapped four-sample read returns four consecutive elements modulo length");
        p = if p + 1 == N { 0 } else { p + 1 };
        j += 1;
    }
}
/// (index, index mod N) with the quotient small
fn near<const N: usize>() -> (isize, usize) {
    let k = nd::below(N);
    let q = nd::int_in(-40, 40) as isize;
    (q * N as isize + k as isize, k)
}
/// (index, index mod N) within 64 of an end of the index range
pub fn extreme<const N: usize>() -> (isize, usize) {
    let d = nd::below(64);
    if nd::bool() {
        let e = (isize::MAX as usize) % N;
        (isize::MAX - d as isize, (e + 64 * N - d) % N)
    } else {
        // isize::MIN mod N
        let e = (N - (isize::MIN as usize) % N) % N;
        (isize::MIN + d as isize, (e + d) % N)
    }
}
fn wrap_near<const N: usize>() {
    let (i, k) = near::<N>();
    wrapped_at::<N>(i, k);
}
fn wrap_extreme<const N: usize>() {
    let (i, k) = extreme::<N>();
    wrapped_at::<N>(i, k);
}
fn four_near<const N: usize>() {
    let (i, k) = near::<N>();
    four_at::<N>(i, k);
}
fn four_extreme<const N: usize>() {
    let (i, k) = extreme::<N>();
    four_at::<N>(i, k);
}
/// (index, index mod N) far from zero: up to 127 times a power of two
pub fn far<const N: usize>() -> (isize, usize) {
    powers::<N, 6>([24, 31, 32, 33, 40, 55])
}
/// the same, near enough for an f32 to tell sixteenths apart
pub fn mid<const N: usize>() -> (isize, usize) {
    powers::<N, 3>([7, 9, 12])
}
fn powers<const N: usize, const E: usize>(e: [u32; E]) -> (isize, usize) {
    let q = nd::int_in(-127, 127) as isize;
    let mut r = (0, 0);
    let which = nd::below(E);
    let mut j = 0;
    while j < E {
        if which == j {
            let m = (1usize << e[j]) % N;
            r = (q << e[j], (q * m as isize).rem_euclid(N as isize) as usize);
        }
        j += 1;
    }
    r
}
fn wrap_far<const N: usize>() {
    let (i, k) = far::<N>();
    wrapped_at::<N>(i, k);
}
fn four_far<const N: usize>() {
    let (i, k) = far::<N>();
    four_at::<N>(i, k);
}
fn wrap_any<const N: usize>() {
    let i = nd::isize();
    wrapped_at::<N>(i, i.rem_euclid(N as isize) as usize);
}
fn four_any<const N: usize>() {
    let i = nd::isize();
    four_at::<N>(i, i.rem_euclid(N as isize) as usize);
}

// ---------------------------------------------------------------- C04

/// classification of every position, and exact samples at integral ones
fn lerp_class<const N: usize>() {
    let buf: [f32; N] = nd::samples();
    let x = nd::f32();
    let s = from_slice(&buf[..]);
    let inside = N > 0 && x >= 0.0 && x <= N as f32 - 1.0;
    match s.lerp(x) {
        Ok(v) => {
            assert!(inside, "C04 a position outside the slice was interpolated");
            let i = x as usize;
            if x == i as f32 {
                assert!(v == buf[i], "C04 an integral position returns the stored sample");
            }
        }
        Err(e) => {
            assert!(!inside, "C04 a position inside the slice was rejected");
            assert!(e == IndexOutOfBound);
        }
    }
}
/// the same for any length
fn lerp_long<const B: usize>() {
    let mut buf = [0.0f32; B];
    let v = nd::sample();
    let (n, p) = sparse(&mut buf, v);
    let x = nd::f32();
    let s = from_slice(&buf[..n]);
    let inside = n > 0 && x >= 0.0 && x <= (n - 1) as f32;
    match s.lerp(x) {
        Ok(r) => {
            assert!(inside, "C04 a position outside the slice was interpolated");
            let i = x as usize;
            if x == i as f32 {
                assert!(r == if i == p { v } else { 0.0 }, "C04 an integral position returns the stored sample");
            } else {
                assert!(i == p || i + 1 == p || r == 0.0, "C04 a fractional position is interpolated from its neighbours only");
            }
        }
        Err(e) => assert!(!inside && e == IndexOutOfBound, "C04 a position inside the slice was rejected"),
    }
}
fn lerp_far<const N: usize>() {
    let buf: [f32; N] = nd::samples();
    let (i, k) = far::<N>();
    let s = from_slice(&buf[..]);
    assert!(s.lerp_wrapped(i as f32) == buf[k], "C04 a wrapped integral position returns the stored sample");
}
/// positions beyond every index: some sample of the slice, no panic
fn lerp_beyond<const N: usize>() {
    let buf: [f32; N] = nd::samples();
    let x = nd::f32_num();
    nd::assume(x >= 9.2e18 || x <= -9.2e18);
    let s = from_slice(&buf[..]);
    let v = s.lerp_wrapped(x);
    let mut found = false;
    let mut j = 0;
    while j < N {
        found |= v == buf[j];
        j += 1;
    }
    assert!(found, "C04 a wrapped read at an integral position returns a stored sample");
}
fn lerp_value<const N: usize>() {
    let buf: [f32; N] = nd::samples();
    let k = nd::below(N - 1);
    let t = nd::fraction();
    let s = from_slice(&buf[..]);
    let want = buf[k] + (buf[k + 1] - buf[k]) * t;
    let r = s.lerp(k as f32 + t);
    assert!(r == Ok(want), "C04 a fractional position returns the weighted average of its neighbours");
    assert!(unsafe { s.lerp_unchecked(k as f32 + t) } == want);
}
fn lerp_wrap<const N: usize>() {
    lerp_at::<N>(near::<N>());
}
fn lerp_mid<const N: usize>() {
    lerp_at::<N>(mid::<N>());
}
fn lerp_at<const N: usize>((i, k): (isize, usize)) {
    let buf: [f32; N] = nd::samples();
    let t = nd::fraction();
    let s = from_slice(&buf[..]);
    let n = if k + 1 == N { 0 } else { k + 1 };
    let want = buf[k] + (buf[n] - buf[k]) * t;
    assert!(s.lerp_wrapped(i as f32 + t) == want, "C04 a wrapped fractional read interpolates cyclic neighbours");
}
/// any magnitude up to 2^23, sign and fraction: never reads elsewhere, never panics
fn lerp_wrap_wide<const N: usize>() {
    let buf: [f32; N] = nd::samples();
    let x = nd::f32_in(-8388608.0, 8388608.0);
    let s = from_slice(&buf[..]);
    let v = s.lerp_wrapped(x);
    let fi = x as i32;
    if fi as f32 == x {
        assert!(v == buf[(fi as isize).rem_euclid(N as isize) as usize], "C04 a wrapped integral position returns the stored sample");
    }
}

// ---------------------------------------------------------------- C05

fn lagr_node<const N: usize>(w: usize) {
    let buf: [f32; N] = nd::samples();
    let k = nd::below(N);
    let i = nd::pick(&[0.0, 1.0, -1.0, 3.0, -4.0]) * N as f32 + k as f32;
    let s = from_slice(&buf[..]);
    assert!(s.lagrange_wrapped(i, w) == buf[k], "C05 Lagrange read at an integral position returns the stored sample");
}
fn lagr4_node<const N: usize>() {
    let buf: [f32; N] = nd::samples();
    let k = nd::below(N);
    let i = nd::pick(&[0.0, 1.0, -1.0, 3.0, -4.0]) * N as f32 + k as f32;
    let s = from_slice(&buf[..]);
    assert!(s.lagrange_four_points_wrapped(i) == buf[k], "C05 four-point Lagrange read at an integral position returns the stored sample");
}
fn lagr_far<const N: usize>((i, k): (isize, usize)) {
    let buf: [f32; N] = nd::samples();
    let s = from_slice(&buf[..]);
    assert!(s.lagrange_wrapped(i as f32, 3) == buf[k], "C05 Lagrange read at an integral position returns the stored sample");
    assert!(s.lagrange_four_points_wrapped(i as f32) == buf[k], "C05 four-point Lagrange read at an integral position returns the stored sample");
}
fn poly(c: &[f32; 4], x: f32) -> f32 {
    ((c[3] * x + c[2]) * x + c[1]) * x + c[0]
}
/// data sampled from a polynomial of degree < window is reproduced between samples
fn lagr_poly(w: usize, deg: usize, four: bool) {
    const N: usize = 12;
    let mut c = [0.0f32; 4];
    let mut i = 0;
    while i <= deg {
        c[i] = nd::pick(&[0.0, 1.0, -2.0, 0.5]);
        i += 1;
    }
    let mut buf = [0.0f32; N];
    let mut i = 0;
    while i < N {
        buf[i] = poly(&c, i as f32 - 5.0);
        i += 1;
    }
    let k = 4 + nd::below(3);
    let t = nd::pick(&[0.25, 0.5, 0.75, 0.125]);
    let s = from_slice(&buf[..]);
    let x = k as f32 + t;
    let v = if four { s.lagrange_four_points_wrapped(x) } else { s.lagrange_wrapped(x, w) };
    let d = v - poly(&c, x - 5.0);
    assert!(d < 0.01 && d > -0.01, "C05 Lagrange read reproduces polynomials of degree below the window size");
}

harnesses! {
    [unwind(10)] c01_get { for_len!(get; 0, 1, 2, 3, 5, 8) }
    [unwind(10)] c01_assign { for_len!(assign; 0, 1, 2, 3, 5, 8) }
    [unwind(10)] c01_views { for_len!(views; 1, 2, 5, 8) }
    [unwind(10)] c01_retarget { retarget() }
    [unwind(66)] c01_get_64 { get::<64>() }
    [unwind(66)] c01_assign_64 { assign::<64>() }
    [unwind(10)] c01_get_long { get_long::<300>() }
    [unwind(10)] c01_get_long_wide { get_long::<5000>() }
    [unwind(10)] c01_assign_long { assign_long::<300>() }
    [unwind(10)] c01_assign_long_wide { assign_long::<5000>() }

    [unwind(10)] c02_sub_long { sub_long::<300>() }
    [unwind(10)] c02_sub_long_wide { sub_long::<5000>() }
    [unwind(10)] c02_sub { for_len!(sub; 0, 1, 2, 3, 5, 8) }
    [unwind(10)] c02_nested { for_len!(subsub; 1, 2, 3, 8) }
    [unwind(66)] c02_sub_64 { sub::<64>() }

    [unwind(10)] c03_wrap { for_len!(wrap_near; 1, 2, 3, 4, 5, 7, 8) }
    [unwind(10)] c03_wrap_extreme { for_len!(wrap_extreme; 1, 2, 3, 5, 8) }
    [unwind(10)] c03_four { for_len!(four_near; 1, 2, 3, 4, 5, 7, 8) }
    [unwind(10)] c03_four_extreme { for_len!(four_extreme; 1, 2, 3, 5, 8) }
    [unwind(26)] c03_wrap_24 { wrap_near::<24>() }
    [unwind(26)] c03_four_24 { four_near::<24>() }
    [unwind(10)] c03_wrap_far { for_len!(wrap_far; 1, 2, 3, 5, 7, 8) }
    [unwind(10)] c03_four_far { for_len!(four_far; 1, 2, 3, 5, 7, 8) }
    [unwind(10)] c03_wrap_any { for_len!(wrap_any; 1, 2, 3, 5, 8) }
    [unwind(10)] c03_four_any { for_len!(four_any; 1, 2, 3, 5, 8) }

    [unwind(10)] c04_lerp_class { for_len!(lerp_class; 0, 1, 2, 3, 5, 8) }
    [unwind(10)] c04_lerp_long { lerp_long::<300>() }
    [unwind(10)] c04_lerp_long_wide { lerp_long::<5000>() }
    [unwind(10)] c04_lerp_far { for_len!(lerp_far; 1, 2, 3, 5, 7, 8) }
    [unwind(10)] c04_lerp_mid { for_len!(lerp_mid; 2, 3, 5) }
    [unwind(10)] c04_lerp_beyond { for_len!(lerp_beyond; 1, 2, 3, 5, 8) }
    [unwind(10)] c04_lerp_value_2 { lerp_value::<2>() }
    [unwind(10)] c04_lerp_value_5 { lerp_value::<5>() }
    [unwind(10)] c04_lerp_wrapped_1 { lerp_wrap::<1>() }
    [unwind(10)] c04_lerp_wrapped_2 { lerp_wrap::<2>() }
    [unwind(10)] c04_lerp_wrapped_5 { lerp_wrap::<5>() }
    [unwind(10)] c04_lerp_wrapped_wide { for_len!(lerp_wrap_wide; 1, 2, 3, 5, 8) }

    [unwind(102)] c05_node_far { lagr_far::<5>(far::<5>()) }
    [unwind(102)] c05_node_mid { lagr_far::<5>(mid::<5>()) }
    [unwind(102)] c05_node_w2 { lagr_node::<5>(2) }
    [unwind(102)] c05_node_w3 { lagr_node::<5>(3) }
    [unwind(102)] c05_node_w4 { lagr_node::<5>(4) }
    [unwind(102)] c05_node_w5 { lagr_node::<6>(5) }
    [unwind(102)] c05_node_four_1 { lagr4_node::<1>() }
    [unwind(102)] c05_node_four_3 { lagr4_node::<3>() }
    [unwind(102)] c05_node_four_5 { lagr4_node::<5>() }
    [unwind(102)] c05_poly_w2 { lagr_poly(2, 1, false) }
    [unwind(102)] c05_poly_w3 { lagr_poly(3, 2, false) }
    [unwind(102)] c05_poly_w4 { lagr_poly(4, 3, false) }
    [unwind(102)] c05_poly_w5 { lagr_poly(5, 3, false) }
    [unwind(102)] c05_poly_four { lagr_poly(4, 3, true) }
}
