//! Entry points of the analysis: every public operation of the library, monomorphised behind one
//! uniform argument block. Nothing here is ever executed; the driver analyses the compiled MIR.
#![cfg_attr(not(feature = "std"), no_std)]
#![allow(clippy::missing_safety_doc)]
#[cfg(feature = "alloc")]
extern crate alloc;
#[cfg(feature = "alloc")]
use alloc::{boxed::Box, string::String, vec::Vec};
use core::mem::MaybeUninit;
use core::slice::{from_raw_parts, from_raw_parts_mut};

#[repr(C)]
pub struct Args {
    pub src: *mut u8,
    pub src_len: usize,
    pub dst: *mut u8,
    pub dst_len: usize,
    pub cap: usize,
    pub fmt: *mut core::fmt::Formatter<'static>,
}
#[repr(C)]
pub struct Ret {
    pub tag: u64,
    pub ptr: *const u8,
    pub len: usize,
    pub cap: usize,
}

#[inline(always)]
unsafe fn src<'a>(a: &Args) -> &'a [u8] {
    from_raw_parts(a.src, a.src_len)
}
#[inline(always)]
unsafe fn data<'a>(a: &Args) -> &'a mut [u8] {
    from_raw_parts_mut(a.src, a.src_len)
}
#[inline(always)]
unsafe fn dst<'a>(a: &Args) -> &'a mut [MaybeUninit<u8>] {
    from_raw_parts_mut(a.dst.cast(), a.dst_len)
}
#[inline(always)]
fn ret_b<E>(r: &mut Ret, x: Result<&mut [u8], E>) {
    match x {
        Ok(s) => {
            r.tag = 1;
            r.ptr = s.as_ptr();
            r.len = s.len();
        }
        Err(_) => r.tag = 0,
    }
}
#[inline(always)]
fn ret_s<E>(r: &mut Ret, x: Result<&mut str, E>) {
    match x {
        Ok(s) => {
            r.tag = 1;
            r.ptr = s.as_ptr();
            r.len = s.len();
        }
        Err(_) => r.tag = 0,
    }
}
#[inline(always)]
fn ret_u<E>(r: &mut Ret, x: Result<(), E>) {
    match x {
        Ok(()) => r.tag = 1,
        Err(_) => r.tag = 0,
    }
}
#[inline(always)]
fn ret_n<E>(r: &mut Ret, x: Result<usize, E>) {
    match x {
        Ok(n) => {
            r.tag = 1;
            r.len = n;
        }
        Err(_) => r.tag = 0,
    }
}
#[cfg(feature = "alloc")]
#[inline(always)]
fn ret_v(r: &mut Ret, v: Vec<u8>) {
    let v = core::mem::ManuallyDrop::new(v);
    r.tag = 1;
    r.ptr = v.as_ptr();
    r.len = v.len();
    r.cap = v.capacity();
}
#[cfg(feature = "alloc")]
#[inline(always)]
fn ret_box(r: &mut Ret, v: Box<[u8]>) {
    r.tag = 1;
    r.len = v.len();
    r.cap = v.len();
    r.ptr = Box::into_raw(v).cast();
}

macro_rules! entries {
    ($($(#[$m:meta])* $name:ident($a:ident, $r:ident) $body:block)*) => {
        $( $(#[$m])* #[inline(never)] pub unsafe fn $name($a: &Args, $r: &mut Ret) $body )*
    };
}

macro_rules! codec {
    ($m:ident, $v:expr, $krate:ident) => {
        pub mod $m {
            use super::*;
            use $krate::AsOut;
            entries! {
                encode(a, r) { ret_b(r, $v.encode(src(a), dst(a).as_out())) }
                encode_as_str(a, r) { ret_s(r, $v.encode_as_str(src(a), dst(a).as_out())) }
                decode(a, r) { ret_b(r, $v.decode(src(a), dst(a).as_out())) }
                decode_inplace(a, r) { ret_b(r, $v.decode_inplace(data(a))) }
                check(a, r) { ret_u(r, $v.check(src(a))) }
                decoded_length(a, r) { ret_n(r, $v.decoded_length(src(a))) }
                charset(a, r) { let c = $v.charset(); r.tag = (a.src_len == 0) as u64; r.ptr = c.as_ptr(); r.len = c.len() }
                encoded_length(a, r) { r.tag = 1; r.len = $v.encoded_length(a.src_len) }
                estimated_decoded_length(a, r) { r.tag = 1; r.len = $v.estimated_decoded_length(a.src_len) }
                #[cfg(feature = "alloc")]
                encode_to_string(a, r) { ret_v(r, $v.encode_to_string(src(a)).into_bytes()) }
                #[cfg(feature = "alloc")]
                encode_vec(a, r) { ret_v(r, $v.encode_type::<Vec<u8>>(src(a))) }
                #[cfg(feature = "alloc")]
                encode_box(a, r) { ret_box(r, $v.encode_type::<Box<[u8]>>(src(a))) }
                #[cfg(feature = "alloc")]
                encode_boxstr(a, r) { ret_box(r, $v.encode_type::<Box<str>>(src(a)).into_boxed_bytes()) }
                #[cfg(feature = "alloc")]
                encode_append(a, r) {
                    let mut v = Vec::from_raw_parts(a.dst, a.dst_len, a.cap);
                    $v.encode_append(src(a), &mut v);
                    ret_v(r, v);
                }
                #[cfg(feature = "alloc")]
                encode_append_string(a, r) {
                    let mut v = String::from_utf8_unchecked(Vec::from_raw_parts(a.dst, a.dst_len, a.cap));
                    $v.encode_append(src(a), &mut v);
                    ret_v(r, v.into_bytes());
                }
                #[cfg(feature = "alloc")]
                decode_to_vec(a, r) { match $v.decode_to_vec(src(a)) { Ok(v) => ret_v(r, v), Err(_) => r.tag = 0 } }
                #[cfg(feature = "alloc")]
                decode_box(a, r) { match $v.decode_type::<Box<[u8]>>(src(a)) { Ok(v) => ret_box(r, v), Err(_) => r.tag = 0 } }
                #[cfg(feature = "alloc")]
                decode_append(a, r) {
                    let mut v = Vec::from_raw_parts(a.dst, a.dst_len, a.cap);
                    let x = $v.decode_append(src(a), &mut v);
                    ret_v(r, v);
                    if x.is_err() { r.tag = 0; }
                }
            }
        }
    };
}

codec!(b64_std, base64_simd::STANDARD, base64_simd);
codec!(b64_url, base64_simd::URL_SAFE, base64_simd);
codec!(b64_stdnp, base64_simd::STANDARD_NO_PAD, base64_simd);
codec!(b64_urlnp, base64_simd::URL_SAFE_NO_PAD, base64_simd);
codec!(b32, base32_simd::BASE32, base32_simd);
codec!(b32hex, base32_simd::BASE32HEX, base32_simd);
codec!(b32np, base32_simd::BASE32_NO_PAD, base32_simd);
codec!(b32hexnp, base32_simd::BASE32HEX_NO_PAD, base32_simd);

pub mod b64f {
    use super::*;
    use base64_simd::AsOut;
    entries! {
        forgiving_decode(a, r) { ret_b(r, base64_simd::forgiving_decode(src(a), dst(a).as_out())) }
        forgiving_decode_inplace(a, r) { ret_b(r, base64_simd::forgiving_decode_inplace(data(a))) }
        #[cfg(feature = "alloc")]
        forgiving_decode_to_vec(a, r) {
            match base64_simd::forgiving_decode_to_vec(src(a)) { Ok(v) => ret_v(r, v), Err(_) => r.tag = 0 }
        }
    }
}

macro_rules! hexcase {
    ($m:ident, $case:expr) => {
        pub mod $m {
            use super::*;
            use hex_simd::AsOut;
            entries! {
                encode(a, r) { ret_b(r, hex_simd::encode(src(a), dst(a).as_out(), $case)) }
                encode_raw(a, r) { r.len = hex_simd::encode_raw(a.src, a.src_len, a.dst, $case); r.tag = 1; r.ptr = a.dst; }
                encode_as_str(a, r) { ret_s(r, hex_simd::encode_as_str(src(a), dst(a).as_out(), $case)) }
                #[cfg(feature = "alloc")]
                encode_to_string(a, r) { ret_v(r, hex_simd::encode_to_string(src(a), $case).into_bytes()) }
                #[cfg(feature = "alloc")]
                encode_vec(a, r) { ret_v(r, hex_simd::encode_type::<Vec<u8>>(src(a), $case)) }
                #[cfg(feature = "alloc")]
                encode_box(a, r) { ret_box(r, hex_simd::encode_type::<Box<[u8]>>(src(a), $case)) }
                #[cfg(feature = "alloc")]
                encode_boxstr(a, r) { ret_box(r, hex_simd::encode_type::<Box<str>>(src(a), $case).into_boxed_bytes()) }
                #[cfg(feature = "alloc")]
                encode_append(a, r) {
                    let mut v = Vec::from_raw_parts(a.dst, a.dst_len, a.cap);
                    hex_simd::encode_append(src(a), &mut v, $case);
                    ret_v(r, v);
                }
                #[cfg(feature = "alloc")]
                encode_append_string(a, r) {
                    let mut v = String::from_utf8_unchecked(Vec::from_raw_parts(a.dst, a.dst_len, a.cap));
                    hex_simd::encode_append(src(a), &mut v, $case);
                    ret_v(r, v.into_bytes());
                }
            }
        }
    };
}
hexcase!(hex_lo, hex_simd::AsciiCase::Lower);
hexcase!(hex_up, hex_simd::AsciiCase::Upper);

pub mod hex {
    use super::*;
    use hex_simd::AsOut;
    entries! {
        decode(a, r) { ret_b(r, hex_simd::decode(src(a), dst(a).as_out())) }
        decode_inplace(a, r) { ret_b(r, hex_simd::decode_inplace(data(a))) }
        check(a, r) { ret_u(r, hex_simd::check(src(a))) }
        check_raw(a, r) { ret_u(r, hex_simd::check_raw(a.src, a.src_len)) }
        decode_raw(a, r) { ret_n(r, hex_simd::decode_raw(a.src, a.src_len, a.dst)); r.ptr = a.dst; }
        decode_raw_inplace(a, r) { ret_n(r, hex_simd::decode_raw(a.src, a.src_len, a.src)); r.ptr = a.src; }
        encoded_length(a, r) { r.tag = 1; r.len = hex_simd::encoded_length(a.src_len) }
        decoded_length(a, r) { ret_n(r, hex_simd::decoded_length(a.src_len)) }
        #[cfg(feature = "alloc")]
        decode_to_vec(a, r) { match hex_simd::decode_to_vec(src(a)) { Ok(v) => ret_v(r, v), Err(_) => r.tag = 0 } }
        #[cfg(feature = "alloc")]
        decode_box(a, r) { match hex_simd::decode_type::<Box<[u8]>>(src(a)) { Ok(v) => ret_box(r, v), Err(_) => r.tag = 0 } }
        #[cfg(feature = "alloc")]
        decode_append(a, r) {
            let mut v = Vec::from_raw_parts(a.dst, a.dst_len, a.cap);
            let x = hex_simd::decode_append(src(a), &mut v);
            ret_v(r, v);
            if x.is_err() { r.tag = 0; }
        }
    }
}

pub mod uuid_p {
    use super::*;
    use uuid_simd::AsOut;
    #[inline(always)]
    unsafe fn out<'a>(a: &Args) -> &'a mut [u8; 16] {
        &mut *a.dst.cast::<[u8; 16]>()
    }
    #[inline(always)]
    fn fin(r: &mut Ret, x: Result<&mut [u8; 16], uuid_simd::Error>) {
        ret_b(r, x.map(|x| &mut x[..]))
    }
    entries! {
        parse(a, r) { fin(r, uuid_simd::parse(src(a), out(a).as_out())) }
        parse_simple(a, r) { fin(r, uuid_simd::parse_simple(src(a), out(a).as_out())) }
        parse_hyphenated(a, r) { fin(r, uuid_simd::parse_hyphenated(src(a), out(a).as_out())) }
    }
    #[cfg(feature = "uuidext")]
    #[inline(always)]
    unsafe fn finu(a: &Args, r: &mut Ret, x: Result<::uuid::Uuid, uuid_simd::Error>) {
        match x {
            Ok(u) => {
                a.dst.cast::<[u8; 16]>().write(u.into_bytes());
                r.tag = 1;
                r.ptr = a.dst;
                r.len = 16;
            }
            Err(_) => r.tag = 0,
        }
    }
    #[cfg(feature = "uuidext")]
    use uuid_simd::UuidExt;
    entries! {
        #[cfg(feature = "uuidext")]
        ext_parse(a, r) { finu(a, r, <::uuid::Uuid as UuidExt>::parse(src(a))) }
        #[cfg(feature = "uuidext")]
        ext_parse_simple(a, r) { finu(a, r, <::uuid::Uuid as UuidExt>::parse_simple(src(a))) }
        #[cfg(feature = "uuidext")]
        ext_parse_hyphenated(a, r) { finu(a, r, <::uuid::Uuid as UuidExt>::parse_hyphenated(src(a))) }
    }
}

macro_rules! uuidcase {
    ($m:ident, $case:expr) => {
        pub mod $m {
            use super::*;
            use uuid_simd::AsOut;
            entries! {
                format_simple(a, r) {
                    let s = uuid_simd::format_simple(&*a.src.cast::<[u8; 16]>(), (*a.dst.cast::<[u8; 32]>()).as_out(), $case);
                    r.tag = 1; r.ptr = s.as_ptr(); r.len = s.len();
                }
                format_hyphenated(a, r) {
                    let s = uuid_simd::format_hyphenated(&*a.src.cast::<[u8; 16]>(), (*a.dst.cast::<[u8; 36]>()).as_out(), $case);
                    r.tag = 1; r.ptr = s.as_ptr(); r.len = s.len();
                }
            }
        }
    };
}
uuidcase!(uuid_lo, uuid_simd::AsciiCase::Lower);
uuidcase!(uuid_up, uuid_simd::AsciiCase::Upper);

#[cfg(feature = "uuidext")]
pub mod uuid_fmt {
    use super::*;
    use core::fmt;
    use uuid_simd::UuidExt;
    #[inline(always)]
    unsafe fn u<'a>(a: &Args) -> &'a ::uuid::Uuid {
        &*a.src.cast::<::uuid::Uuid>()
    }
    #[inline(always)]
    fn fin(r: &mut Ret, x: fmt::Result) {
        r.tag = x.is_ok() as u64;
    }
    entries! {
        simple_display(a, r) { fin(r, fmt::Display::fmt(&u(a).format_simple(), &mut *a.fmt)) }
        simple_lower(a, r) { fin(r, fmt::LowerHex::fmt(&u(a).format_simple(), &mut *a.fmt)) }
        simple_upper(a, r) { fin(r, fmt::UpperHex::fmt(&u(a).format_simple(), &mut *a.fmt)) }
        hyphenated_display(a, r) { fin(r, fmt::Display::fmt(&u(a).format_hyphenated(), &mut *a.fmt)) }
        hyphenated_lower(a, r) { fin(r, fmt::LowerHex::fmt(&u(a).format_hyphenated(), &mut *a.fmt)) }
        hyphenated_upper(a, r) { fin(r, fmt::UpperHex::fmt(&u(a).format_hyphenated(), &mut *a.fmt)) }
    }
}

pub mod uni {
    use super::*;
    use unicode_simd::AsOut;
    #[inline(always)]
    unsafe fn s16<'a>(a: &Args) -> &'a [u16] {
        from_raw_parts(a.src.cast(), a.src_len)
    }
    #[inline(always)]
    unsafe fn s32<'a>(a: &Args) -> &'a [u32] {
        from_raw_parts(a.src.cast(), a.src_len)
    }
    entries! {
        is_ascii(a, r) { r.tag = unicode_simd::is_ascii(src(a)) as u64; }
        from_ascii(a, r) {
            match unicode_simd::from_ascii(src(a)) {
                Some(s) => { r.tag = 1; r.ptr = s.as_ptr(); r.len = s.len(); }
                None => r.tag = 0,
            }
        }
        is_utf32le(a, r) { r.tag = unicode_simd::is_utf32le(s32(a)) as u64; }
        utf16_swap_inplace(a, r) {
            unicode_simd::utf16_swap_endianness_inplace(from_raw_parts_mut(a.src.cast(), a.src_len));
            r.tag = 1; r.ptr = a.src; r.len = a.src_len;
        }
        utf32_swap_inplace(a, r) {
            unicode_simd::utf32_swap_endianness_inplace(from_raw_parts_mut(a.src.cast(), a.src_len));
            r.tag = 1; r.ptr = a.src; r.len = a.src_len;
        }
        utf16_swap(a, r) {
            let d: &mut [MaybeUninit<u16>] = from_raw_parts_mut(a.dst.cast(), a.dst_len);
            let s = unicode_simd::utf16_swap_endianness(s16(a), d.as_out());
            r.tag = 1; r.ptr = s.as_ptr().cast(); r.len = s.len();
        }
        utf32_swap(a, r) {
            let d: &mut [MaybeUninit<u32>] = from_raw_parts_mut(a.dst.cast(), a.dst_len);
            let s = unicode_simd::utf32_swap_endianness(s32(a), d.as_out());
            r.tag = 1; r.ptr = s.as_ptr().cast(); r.len = s.len();
        }
    }
}

/// Run-time detection: which instruction-set tokens safe code can get.
pub mod isa {
    use super::*;
    use vsimd::isa::*;
    entries! {
        detect_sse2(_a, r) { r.tag = detect::<SSE2>().is_some() as u64; }
        detect_ssse3(_a, r) { r.tag = detect::<SSSE3>().is_some() as u64; }
        detect_sse41(_a, r) { r.tag = detect::<SSE41>().is_some() as u64; }
        detect_avx2(_a, r) { r.tag = detect::<AVX2>().is_some() as u64; }
        detect_neon(_a, r) { r.tag = detect::<NEON>().is_some() as u64; }
        detect_simd128(_a, r) { r.tag = detect::<WASM128>().is_some() as u64; }
        native_exec(a, r) {
            let (s, d) = (a.src, a.dst);
            let x = vsimd::native::Native::detect().exec(|| { let x = s.read(); d.write(x); x });
            r.tag = 1; r.ptr = a.dst; r.len = (x == s.read()) as usize;
        }
    }
}

/// Stand-ins for standard-library functions whose compiled form is not shipped with the toolchain.
/// `Once::call`, whose body the compiler does not ship: runs the closure once.
#[cfg(feature = "std")]
pub mod model_std {
    use core::sync::atomic::{AtomicU32, Ordering::*};
    #[inline(never)]
    pub fn once_call(state: &AtomicU32, _ignore_poisoning: bool, f: &mut dyn FnMut(&std::sync::OnceState)) {
        const INCOMPLETE: u32 = 3;
        const RUNNING: u32 = 1;
        if state.load(Acquire) == INCOMPLETE && state.compare_exchange(INCOMPLETE, RUNNING, Acquire, Acquire).is_ok() {
            // not poisoned, to become complete
            let s = [0u32; 2];
            f(unsafe { &*s.as_ptr().cast() });
            state.store(s[0] | s[1], Release);
        }
    }
}
#[cfg(feature = "alloc")]
pub mod model {
    use super::*;
    #[inline(never)]
    pub fn string_from_box_str(b: Box<str>) -> String {
        let v: Vec<u8> = b.into_boxed_bytes().into_vec();
        unsafe { String::from_utf8_unchecked(v) }
    }
}
