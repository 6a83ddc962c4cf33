//! merlin 1.3.0, unchanged but for a record of the challenges drawn, which the
//! checks read to see what a challenge depends on (MIT, see LICENSE.txt).
mod constants;
mod strobe;
mod transcript;

pub use crate::transcript::Transcript;
pub use crate::transcript::TranscriptRng;
pub use crate::transcript::TranscriptRngBuilder;

thread_local! {
    static LOG: std::cell::RefCell<Vec<(&'static [u8], Vec<u8>)>> = std::cell::RefCell::new(vec![]);
}
/// the challenges drawn since the last call: label and value
pub fn drawn() -> Vec<(&'static [u8], Vec<u8>)> {
    LOG.with(|l| std::mem::replace(&mut *l.borrow_mut(), vec![]))
}
