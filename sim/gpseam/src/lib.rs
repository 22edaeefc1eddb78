//! See Cargo.toml.
pub use real::{error, num_bigint, prime};

pub mod safe_prime {
    pub use real::safe_prime::{check, strong_check};
    use rand::{rngs::OsRng, RngCore};
    use real::error::Error;
    use std::cell::Cell;

    static POOL: &str = include_str!("primes.txt");
    thread_local! { static LAST: Cell<usize> = const { Cell::new(usize::MAX) }; }

    pub fn new(bits: usize) -> Result<real::num_bigint::BigUint, Error> {
        if bits != 1024 {
            return real::safe_prime::new(bits);
        }
        let mut b = [0u8; 8];
        OsRng.try_fill_bytes(&mut b)?;
        let lines: Vec<&str> = POOL.lines().collect();
        let mut i = (u64::from_le_bytes(b) % lines.len() as u64) as usize;
        // a real generator does not return the same prime twice
        if LAST.with(|l| l.get()) == i {
            i = (i + 1) % lines.len();
        }
        LAST.with(|l| l.set(i));
        Ok(lines[i].parse().unwrap())
    }
}
