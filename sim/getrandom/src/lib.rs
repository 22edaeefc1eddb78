//! Stand-in for `getrandom` 0.1 used by the simulation harness through `[patch.crates-io]`.
//! All operating-system randomness requested by rand 0.7 (thread_rng, OsRng, from_entropy) comes
//! from the calling simulation's seeded stream, or fails when the simulator injects an
//! entropy-source failure.
use std::fmt;
use std::num::NonZeroU32;

#[derive(Copy, Clone, Eq, PartialEq)]
pub struct Error(NonZeroU32);

impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub fn raw_os_error(self) -> Option<i32> {
        if self.0.get() < Self::INTERNAL_START {
            Some(self.0.get() as i32)
        } else {
            None
        }
    }
    pub fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "getrandom::Error({})", self.0)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "getrandom error {}", self.0)
    }
}
impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Self {
        Error(c)
    }
}
impl std::error::Error for Error {}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        match e.raw_os_error() {
            Some(n) => std::io::Error::from_raw_os_error(n),
            None => std::io::Error::new(std::io::ErrorKind::Other, e),
        }
    }
}

extern "C" {
    fn ursa_sim_entropy(buf: *mut u8, len: usize) -> i32;
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    if dest.is_empty() {
        return Ok(());
    }
    let rc = unsafe { ursa_sim_entropy(dest.as_mut_ptr(), dest.len()) };
    if rc == 0 {
        Ok(())
    } else {
        Err(Error(NonZeroU32::new(5).unwrap())) // EIO
    }
}
