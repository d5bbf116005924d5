//! Entry points for parallel encoding. The thread count is `cap`. Never executed.
use core::mem::MaybeUninit;
use core::slice::{from_raw_parts, from_raw_parts_mut};

#[repr(C)]
pub struct Args {
    pub src: *mut u8,
    pub src_len: usize,
    pub dst: *mut u8,
    pub dst_len: usize,
    pub cap: usize,
    pub fmt: *mut core::fmt::Formatter<'static>,
}
#[repr(C)]
pub struct Ret {
    pub tag: u64,
    pub ptr: *const u8,
    pub len: usize,
    pub cap: usize,
}

macro_rules! par {
    ($m:ident, $v:expr) => {
        pub mod $m {
            use super::*;
            use base64_simd::AsOut;
            #[inline(never)]
            pub unsafe fn par_encode(a: &Args, r: &mut Ret) {
                rayon_core::THREADS = a.cap;
                let src: &[u8] = from_raw_parts(a.src, a.src_len);
                let dst: &mut [MaybeUninit<u8>] = from_raw_parts_mut(a.dst.cast(), a.dst_len);
                match $v.par_encode(src, dst.as_out()) {
                    Ok(s) => {
                        r.tag = 1;
                        r.ptr = s.as_ptr();
                        r.len = s.len();
                    }
                    Err(_) => r.tag = 0,
                }
            }
        }
    };
}
par!(b64_std, base64_simd::STANDARD);
par!(b64_url, base64_simd::URL_SAFE);
par!(b64_stdnp, base64_simd::STANDARD_NO_PAD);
par!(b64_urlnp, base64_simd::URL_SAFE_NO_PAD);
