//! Environment models substituted for dependency code the solver's float
//! theory cannot execute. Each is part of the claim of the harnesses that use
//! it (they name it in their `stub(..)` attribute).

/// `micromath::F32::rem_euclid`. CBMC's `%` on floats is not fmod, so the
/// remainder is computed by exact (Sterbenz) subtraction of b*2^4 .. b*2^0:
/// exact for every |a| < 32*|b|, which it asserts.
pub fn rem_euclid(a: micromath::F32, b: micromath::F32) -> micromath::F32 {
    let mut r = a.0.abs();
    let b = b.0.abs();
    let mut s = b * 16.0;
    let mut i = 0;
    while i < 5 {
        if r >= s {
            r -= s;
        }
        s *= 0.5;
        i += 1;
    }
    assert!(r < b, "model rem_euclid used outside |a| < 32 b");
    let r = if a.0 < 0.0 { -r } else { r };
    micromath::F32(if r >= 0.0 { r } else { r + b })
}

/// The same, for |a| < b only (asserted).
pub fn rem_euclid_base(a: micromath::F32, b: micromath::F32) -> micromath::F32 {
    let (a, b) = (a.0, b.0.abs());
    assert!(a < b && a > -b, "model rem_euclid used outside |a| < b");
    micromath::F32(if a >= 0.0 { a } else { a + b })
}

/// `AdditionalF32Ext::fixed_point_sin` as the identity: exposes its argument.
pub fn identity(x: &f32) -> f32 {
    *x
}

/// Contract of `powf` as the envelope uses it: for a base in (0, 1] and an
/// exponent in [1/20, 20] some value in [0, 1] (a multiple of
/// 1/16), 1 at base 1; 1 to 4 for a
/// larger base; anything otherwise. Discharged against micromath's ln and exp by
/// c25_contract_ln and c25_contract_exp. The values are drawn in advance so that
/// a replay, which runs the real function, consumes the same inputs.
static mut POW: [f32; 8] = [0.0; 8];
static mut POW_NEXT: usize = 0;
pub fn powf_draw() {
    let mut v = [0.0; 8];
    let mut i = 0;
    while i < 8 {
        v[i] = crate::nd::grid(0, 64, 0.0625);
        i += 1;
    }
    unsafe {
        POW = v;
        POW_NEXT = 0;
    }
}
pub fn powf(t: micromath::F32, n: micromath::F32) -> micromath::F32 {
    let v = unsafe {
        let v = POW[POW_NEXT & 7];
        POW_NEXT += 1;
        v
    };
    if t.0 > 0.0 && n.0 >= 0.049 && n.0 <= 20.01 {
        if t.0 == 1.0 {
            return micromath::F32(1.0);
        }
        crate::nd::assume(if t.0 < 1.0 { v >= 0.0 && v <= 1.0 } else { v >= 1.0 });
    }
    micromath::F32(v)
}
/// A power function that tells any two (base below 1, exponent) pairs in use apart.
pub fn powf_injective(t: micromath::F32, n: micromath::F32) -> micromath::F32 {
    micromath::F32(if t.0 >= 1.0 { 1.0 } else { t.0 * 0.5 + n.0 * 0.015625 })
}
/// The power function as its own base.
pub fn powf_base(t: micromath::F32, _: micromath::F32) -> micromath::F32 {
    t
}

/// An arbitrary exponential: some value of at least 1 (up to 64, in quarters) for
/// every positive argument, and some positive value of at most 1 for every other.
static mut EXP: (f32, f32) = (1.0, 1.0);
pub fn exp_draw() {
    let v = (crate::nd::grid(4, 256, 0.25), crate::nd::grid(1, 64, 0.015625));
    unsafe { EXP = v };
}
pub fn exp(x: micromath::F32) -> micromath::F32 {
    let (above, below) = unsafe { EXP };
    micromath::F32(if x.0 > 0.0 { above } else { below })
}
