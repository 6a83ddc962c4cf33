use crate::cases::*;
use crate::encryption::symm::prelude::*;
macro_rules! cases {
    ($($name:ident => $e:expr,)*) => {$(
        #[kani::proof]
        #[kani::unwind(200)]
        fn $name() {
            $e;
            kani::cover!(true, "the end is reached");
        }
    )*};
}
include!("table.rs");
