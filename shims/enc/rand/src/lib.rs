//! the system's random numbers: arbitrary bytes
pub trait RngCore {
    fn fill_bytes(&mut self, dest: &mut [u8]);
}
pub mod rngs {
    pub struct OsRng;
    impl super::RngCore for OsRng {
        fn fill_bytes(&mut self, dest: &mut [u8]) {
            let mut i = 0;
            while i < dest.len() {
                dest[i] = kani::any();
                i += 1;
            }
        }
    }
}
