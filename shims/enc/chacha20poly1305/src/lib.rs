pub use ideal::chacha::*;
