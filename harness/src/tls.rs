//! The build has no OpenSSL: its functions are linked at address zero.  The
//! sinks that speak HTTP make a TLS context before they know the scheme, so
//! that much is stood in for here (see `lib/vlib.py`, which points the symbols
//! to these).  Nothing here does TLS: only `http` is used.
use libc::{c_int, c_long, c_ulong, c_void};

macro_rules! stub {
    ($($name:ident ( $($a:ident : $t:ty),* ) -> $r:ty = $v:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name($($a: $t),*) -> $r { $(let _ = $a;)* $v })*
        /// Keeps the functions in the program.
        pub fn keep() -> usize { 0 $(+ $name as usize)* }
    }
}

static THING: [u8; 64] = [0; 64];

fn thing() -> *mut c_void {
    THING.as_ptr() as *mut c_void
}

stub! {
    __wrap_OPENSSL_init_ssl(_o: u64, _s: *const c_void) -> c_int = 1;
    __wrap_OpenSSL_version_num() -> c_ulong = 0x1010_0000;
    __wrap_TLS_method() -> *mut c_void = thing();
    __wrap_SSL_CTX_new(_m: *const c_void) -> *mut c_void = thing();
    __wrap_SSL_CTX_free(_c: *mut c_void) -> () = ();
    __wrap_SSL_CTX_up_ref(_c: *mut c_void) -> c_int = 1;
    __wrap_SSL_CTX_ctrl(_c: *mut c_void, _k: c_int, _l: c_long, _p: *mut c_void) -> c_long = 1;
    __wrap_SSL_CTX_set_options(_c: *mut c_void, o: c_ulong) -> c_ulong = o;
    __wrap_SSL_CTX_clear_options(_c: *mut c_void, o: c_ulong) -> c_ulong = o;
    __wrap_SSL_CTX_set_default_verify_paths(_c: *mut c_void) -> c_int = 1;
    __wrap_SSL_CTX_set_cipher_list(_c: *mut c_void, _s: *const c_void) -> c_int = 1;
    __wrap_SSL_CTX_set_verify(_c: *mut c_void, _m: c_int, _f: *const c_void) -> () = ();
    __wrap_ERR_get_error() -> c_ulong = 0;
}
