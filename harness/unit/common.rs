// Appended to src/lib.rs of the copied crate: driver of the native unit-level differential test.
#[doc(hidden)]
#[allow(missing_docs, clippy::all, clippy::pedantic)]
pub mod kv_unit {
    extern crate std;
    use std::string::String;
    pub struct Rng(pub u64);
    impl Rng {
        pub fn n(&mut self) -> u64 {
            self.0 ^= self.0 << 13;
            self.0 ^= self.0 >> 7;
            self.0 ^= self.0 << 17;
            self.0.wrapping_mul(0x2545_f491_4f6c_dd1d) >> 11
        }
        pub fn below(&mut self, k: u64) -> u64 {
            self.n() % k
        }
        /// residue, extremes favoured
        pub fn fe(&mut self) -> u16 {
            match self.below(4) {
                0 => 3328 - self.below(40) as u16,
                1 => self.below(4) as u16,
                _ => self.below(3329) as u16,
            }
        }
        /// 256 residues, sometimes sparse or constant
        pub fn poly(&mut self) -> [u16; 256] {
            let m = self.below(6);
            let v = self.fe();
            core::array::from_fn(|_| match m {
                0 => v,
                1 => (self.below(30) == 0) as u16 * self.below(3329) as u16,
                2 => 3328 - self.below(3) as u16,
                3 => self.fe(),
                _ => self.below(3329) as u16,
            })
        }
        pub fn bytes(&mut self, n: usize) -> std::vec::Vec<u8> {
            let m = self.below(5);
            (0..n)
                .map(|_| match m {
                    0 => 0xff,
                    1 => (self.below(8) == 0) as u8 * self.below(256) as u8,
                    2 => 0xff ^ ((self.below(8) == 0) as u8 * self.below(256) as u8),
                    _ => self.below(256) as u8,
                })
                .collect()
        }
    }
    /// what fails, if anything; `cur` describes the case being executed (for panics)
    pub type Hit = Option<String>;
    pub const Q: u32 = 3329;
    pub fn pow(b: u32, e: u32) -> u32 {
        let mut r = 1;
        for _ in 0..e {
            r = r * b % Q;
        }
        r
    }
    pub fn br7(i: u32) -> u32 {
        (i as u8).reverse_bits() as u32 >> 1
    }
    pub static mut CUR: String = String::new();
    #[allow(static_mut_refs)]
    pub fn cur(s: String) {
        unsafe { CUR = s }
    }
    #[allow(static_mut_refs)]
    pub fn last() -> String {
        unsafe { CUR.clone() }
    }
}
