//! Nondeterministic values. Under Kani every value is a solver variable; in a
//! native build the same calls read the solver's assignment back, so that one
//! harness body is both the query and the replay.

#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn u16() -> u16 {
        kani::any()
    }
    pub fn u32() -> u32 {
        kani::any()
    }
    pub fn u64() -> u64 {
        kani::any()
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    thread_local! {
        static Q: RefCell<std::collections::VecDeque<Vec<u8>>> = const { RefCell::new(std::collections::VecDeque::new()) };
    }
    pub fn load(v: Vec<Vec<u8>>) {
        Q.with(|q| *q.borrow_mut() = v.into());
    }
    fn take<const N: usize>() -> [u8; N] {
        Q.with(|q| match q.borrow_mut().pop_front() {
            Some(v) if v.len() == N => v.try_into().unwrap(),
            Some(v) => {
                eprintln!("REPLAY-DESYNC: wanted {} bytes, got {}", N, v.len());
                std::process::exit(79)
            }
            // values the trace does not mention are irrelevant to it
            None => [0; N],
        })
    }
    pub fn u8() -> u8 {
        take::<1>()[0]
    }
    pub fn u16() -> u16 {
        u16::from_le_bytes(take())
    }
    pub fn u32() -> u32 {
        u32::from_le_bytes(take())
    }
    pub fn u64() -> u64 {
        u64::from_le_bytes(take())
    }
    pub fn assume(c: bool) {
        if !c {
            eprintln!("REPLAY-ASSUME: an assumption does not hold on this assignment");
            std::process::exit(78)
        }
    }
}

pub use imp::*;

pub fn bool() -> bool {
    u8() & 1 == 1
}
pub fn i16() -> i16 {
    u16() as i16
}
pub fn i32() -> i32 {
    u32() as i32
}
pub fn isize() -> isize {
    u64() as isize
}
pub fn usize() -> usize {
    u64() as usize
}
/// Any f32 bit pattern, NaNs, infinities and subnormals included.
pub fn f32() -> f32 {
    f32::from_bits(u32())
}
/// Any f32 that is not NaN.
pub fn f32_num() -> f32 {
    let x = f32();
    assume(!x.is_nan());
    x
}
/// Any f32 in `lo..=hi` (-0.0 included when 0 is).
pub fn f32_in(lo: f32, hi: f32) -> f32 {
    let x = f32();
    assume(x >= lo && x <= hi);
    x
}
/// `0..n`, n small
pub fn below(n: usize) -> usize {
    let x = u8() as usize;
    assume(x < n);
    x
}
/// `lo..=hi`, both small
pub fn int_in(lo: i32, hi: i32) -> i32 {
    let x = u16() as i16 as i32;
    assume(x >= lo && x <= hi);
    x
}
/// A multiple of `step` (a power of two) with numerator in `lo..=hi`: exact in f32.
pub fn grid(lo: i32, hi: i32, step: f32) -> f32 {
    int_in(lo, hi) as f32 * step
}
/// One of the listed constants: few solver bits, every pair distinct.
pub fn pick(vals: &[f32]) -> f32 {
    let i = u8() as usize;
    assume(i < vals.len());
    vals[i]
}
pub const SAMPLES: [f32; 8] = [0.0, 1.0, -1.0, 0.5, 3.0, -2.5, 0.125, -7.0];
/// A sample value on which the small kernels are exact.
pub fn sample() -> f32 {
    pick(&SAMPLES)
}
pub fn samples<const N: usize>() -> [f32; N] {
    let mut a = [0.0; N];
    let mut i = 0;
    while i < N {
        a[i] = sample();
        i += 1;
    }
    a
}
/// A fraction in [0, 1) on which linear interpolation of `samples` is exact.
pub fn fraction() -> f32 {
    pick(&[0.0, 0.5, 0.25, 0.75, 0.125, 0.875, 0.0625, 0.9375])
}
pub fn f32s<const N: usize>() -> [f32; N] {
    let mut a = [0.0; N];
    let mut i = 0;
    while i < N {
        a[i] = f32();
        i += 1;
    }
    a
}
/// Same float for a user: equal values, or both NaN.
pub fn same(a: f32, b: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
/// Same bits.
pub fn same_bits(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits()
}

/// Declares harnesses: a Kani proof harness each, and a native function plus a
/// table for the replay binary.
#[macro_export]
macro_rules! harnesses {
    ($( [ $( $attr:ident ( $($arg:tt)* ) )* ] $name:ident $body:block )*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            $( #[cfg_attr(kani, kani::$attr($($arg)*))] )*
            pub fn $name() {
                { $body }
                #[cfg(kani)]
                kani::cover!(true, "reach");
            }
        )*
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()), )* ];
    };
}
