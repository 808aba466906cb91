//! Stand-in for the operating system's random source (the environment): `getrandom` fills the whole buffer with the
//! bytes of `kv_rng_fill` - fresh symbolic bytes in the verified build, the byte tape in the native one.
#![no_std]
use core::{fmt, num::NonZeroU32};
extern "C" {
    fn kv_rng_fill(p: *mut u8, n: usize);
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Error(NonZeroU32);
impl Error {
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Self {
        Error(c)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "OS error {}", self.0)
    }
}
#[cfg(feature = "std")]
extern crate std;
#[cfg(feature = "std")]
impl std::error::Error for Error {}
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    unsafe { kv_rng_fill(dest.as_mut_ptr(), dest.len()) };
    Ok(())
}
