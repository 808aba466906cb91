// Random source of the harness.  In the verified build every draw is the external function `kv_rng_fill`,
// which the verifier answers with fresh symbolic bytes; in the native (replay) build it reads a byte tape.
pub struct ExtRng;

#[cfg(not(feature = "native"))]
extern "C" {
    fn kv_rng_fill(p: *mut u8, n: usize);
}

#[cfg(feature = "native")]
pub mod tape {
    pub static mut TAPE: *const u8 = core::ptr::null();
    pub static mut LEN: usize = 0;
    pub static mut POS: usize = 0;
    pub static mut CALLS: [usize; 64] = [0; 64];
    pub static mut NCALLS: usize = 0;
    #[no_mangle]
    pub unsafe extern "C" fn kv_set_tape(p: *const u8, n: usize) {
        TAPE = p;
        LEN = n;
        POS = 0;
        NCALLS = 0;
    }
    #[no_mangle]
    pub unsafe extern "C" fn kv_tape_pos() -> usize {
        POS
    }
    #[no_mangle]
    pub unsafe extern "C" fn kv_rng_fill(p: *mut u8, n: usize) {
        for i in 0..n {
            *p.add(i) = if POS < LEN { *TAPE.add(POS) } else { 0xa5 };
            POS += 1;
        }
        if NCALLS < 64 {
            CALLS[NCALLS] = n;
        }
        NCALLS += 1;
    }
}
#[cfg(feature = "native")]
use tape::kv_rng_fill;

impl rand_core::RngCore for ExtRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        unsafe { kv_rng_fill(b.as_mut_ptr(), 4) };
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        unsafe { kv_rng_fill(b.as_mut_ptr(), 8) };
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        unsafe { kv_rng_fill(dest.as_mut_ptr(), dest.len()) };
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        unsafe { kv_rng_fill(dest.as_mut_ptr(), dest.len()) };
        Ok(())
    }
}
impl rand_core::CryptoRng for ExtRng {}
