pub use ideal::gcm::*;
