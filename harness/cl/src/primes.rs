//! Safe primes are slow to find; a replay uses two fixed ones.
use std::os::raw::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicUsize, Ordering};

extern "C" {
    fn BN_dec2bn(a: *mut *mut c_void, s: *const c_char) -> c_int;
    fn BN_rand(r: *mut c_void, bits: c_int, top: c_int, bottom: c_int) -> c_int;
    fn BN_is_prime_ex(p: *const c_void, n: c_int, c: *mut c_void, cb: *mut c_void) -> c_int;
}
static NEXT: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub unsafe extern "C" fn BN_generate_prime_ex(
    ret: *mut c_void,
    bits: c_int,
    safe: c_int,
    _add: *const c_void,
    _rem: *const c_void,
    _cb: *mut c_void,
) -> c_int {
    if safe != 0 {
        let i = NEXT.fetch_add(1, Ordering::SeqCst);
        let s = if i % 2 == 0 { symcore::ints::P } else { symcore::ints::Q };
        let s = std::ffi::CString::new(s).unwrap();
        let mut p = ret;
        return (BN_dec2bn(&mut p, s.as_ptr()) > 0) as c_int;
    }
    loop {
        if BN_rand(ret, bits, 0, 1) != 1 {
            return 0;
        }
        if BN_is_prime_ex(ret, 64, std::ptr::null_mut(), std::ptr::null_mut()) == 1 {
            return 1;
        }
    }
}
