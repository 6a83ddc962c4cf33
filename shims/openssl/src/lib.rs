pub mod bn;
pub mod error;
pub mod hash;
