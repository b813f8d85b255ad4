//! Stand-in for FFTW: the unnormalised real DFT and its inverse by their
//! definition. Twiddle factors are exact for lengths dividing 4 (the only ones
//! applied to symbolic data); others are f64 constants up to length 16.
//! Like the real planner, a plan only accepts arrays of the planned length.
mod tw;
/// rounding errors added to the real parts of the outputs of r2c, one after the
/// other, over and over; set by a harness
pub static mut ERRORS: Vec<f64> = Vec::new();
pub static mut NEXT_ERROR: usize = 0;
#[allow(static_mut_refs)]
fn error() -> f64 {
    unsafe {
        if ERRORS.is_empty() {
            return 0.0;
        }
        let e = ERRORS[NEXT_ERROR];
        NEXT_ERROR = (NEXT_ERROR + 1) % ERRORS.len();
        e
    }
}
#[allow(static_mut_refs)]
pub fn set_errors(e: Vec<f64>) {
    unsafe {
        ERRORS = e;
        NEXT_ERROR = 0;
    }
}
#[allow(static_mut_refs)]
fn rounding() -> bool {
    unsafe { !ERRORS.is_empty() }
}
pub mod types {
    pub use num_complex::Complex;
    #[allow(non_camel_case_types)]
    pub type c64 = Complex<f64>;
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum Flag {
        MEASURE,
        ESTIMATE,
        PATIENT,
        EXHAUSTIVE,
        DESTROYINPUT,
        PRESERVEINPUT,
        UNALIGNED,
    }
    #[allow(non_upper_case_globals)]
    impl Flag {
        pub const Measure: Flag = Flag::MEASURE;
        pub const Estimate: Flag = Flag::ESTIMATE;
    }
}
pub mod array {
    pub struct AlignedVec<T>(Vec<T>);
    pub trait Zero0: Clone {
        fn z() -> Self;
    }
    impl Zero0 for f64 {
        fn z() -> f64 {
            0.0
        }
    }
    impl Zero0 for super::types::c64 {
        fn z() -> Self {
            super::types::c64::new(0.0, 0.0)
        }
    }
    impl<T: Zero0> AlignedVec<T> {
        pub fn new(n: usize) -> Self {
            AlignedVec(vec![T::z(); n])
        }
        pub fn as_slice(&self) -> &[T] {
            &self.0
        }
        pub fn as_slice_mut(&mut self) -> &mut [T] {
            &mut self.0
        }
    }
    impl<T: Clone> Clone for AlignedVec<T> {
        fn clone(&self) -> Self {
            AlignedVec(self.0.clone())
        }
    }
    impl<T> std::ops::Deref for AlignedVec<T> {
        type Target = [T];
        fn deref(&self) -> &[T] {
            &self.0
        }
    }
    impl<T> std::ops::DerefMut for AlignedVec<T> {
        fn deref_mut(&mut self) -> &mut [T] {
            &mut self.0
        }
    }
}
pub mod error {
    #[derive(Debug)]
    pub struct Error;
    pub type Result<T> = std::result::Result<T, Error>;
}
pub mod plan {
    pub use crate::error::*;
    use crate::types::*;
    pub struct RPlan(usize);
    pub struct IPlan(usize);
    pub type R2CPlan64 = RPlan;
    pub type C2RPlan64 = IPlan;
    /// cos and sin of -2*pi*t/n
    fn tw(t: usize, n: usize) -> (f64, f64) {
        let t = t % n;
        if 4 % n == 0 {
            match t * (4 / n) {
                0 => (1.0, 0.0),
                1 => (0.0, -1.0),
                2 => (-1.0, 0.0),
                _ => (0.0, 1.0),
            }
        } else if let Some(x) = crate::tw::table(t, n) {
            x
        } else {
            #[cfg(feature = "native")]
            {
                let a = -2.0 * std::f64::consts::PI * (t as f64) / (n as f64);
                (a.cos(), a.sin())
            }
            #[cfg(not(feature = "native"))]
            panic!("stub DFT of a length which does not divide 4")
        }
    }
    pub trait R2CPlan: Sized {
        fn aligned(shape: &[usize], flag: Flag) -> Result<Self>;
        fn r2c(&mut self, i: &mut [f64], o: &mut [c64]) -> Result<()>;
    }
    pub trait C2RPlan: Sized {
        fn aligned(shape: &[usize], flag: Flag) -> Result<Self>;
        fn c2r(&mut self, i: &mut [c64], o: &mut [f64]) -> Result<()>;
    }
    impl R2CPlan for RPlan {
        fn aligned(shape: &[usize], _: Flag) -> Result<Self> {
            Ok(RPlan(shape[0]))
        }
        fn r2c(&mut self, i: &mut [f64], o: &mut [c64]) -> Result<()> {
            let n = self.0;
            if i.len() != n || o.len() != n / 2 + 1 {
                return Err(Error);
            }
            for k in 0..o.len() {
                let (mut re, mut im) = (0.0, 0.0);
                for j in 0..n {
                    let (c, s) = tw(j * k, n);
                    if c != 0.0 {
                        re += i[j] * c;
                    }
                    if s != 0.0 {
                        im += i[j] * s;
                    }
                }
                if crate::rounding() {
                    re += crate::error();
                }
                o[k] = c64::new(re, im);
            }
            Ok(())
        }
    }
    impl C2RPlan for IPlan {
        fn aligned(shape: &[usize], _: Flag) -> Result<Self> {
            Ok(IPlan(shape[0]))
        }
        fn c2r(&mut self, i: &mut [c64], o: &mut [f64]) -> Result<()> {
            let n = self.0;
            if o.len() != n || i.len() != n / 2 + 1 {
                return Err(Error);
            }
            // half-complex input: X[n-k] = conj X[k]; imaginary parts of X[0]
            // and of X[n/2] (n even) are ignored, as FFTW does
            for j in 0..n {
                let mut x = i[0].re;
                for k in 1..i.len() {
                    let (c, s) = tw(j * k, n);
                    // exp(+2 pi i jk/n) = c - i s
                    if 2 * k == n {
                        x += i[k].re * c;
                    } else {
                        if c != 0.0 {
                            x += 2.0 * (i[k].re * c);
                        }
                        if s != 0.0 {
                            x += 2.0 * (i[k].im * s);
                        }
                    }
                }
                o[j] = x;
            }
            Ok(())
        }
    }
}
