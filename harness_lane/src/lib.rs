#![no_std]
//! Entry points for the SIMD layer, one per primitive and instruction set. Never executed.
//! Generated by tools/lanes.py.
#![allow(unused_variables, unused_mut, clippy::all)]
use vsimd::vector::{V128, V256, V512, V64};
#[allow(unused_imports)]
use vsimd::{hex, isa, isa::InstructionSet, simulation, Scalable, SIMD128, SIMD256, SIMD64};

#[repr(C)]
pub struct Args {
    pub src: *mut u8,
    pub src_len: usize,
    pub dst: *mut u8,
    pub dst_len: usize,
    pub cap: usize,
    pub fmt: *mut core::fmt::Formatter<'static>,
}
#[repr(C)]
pub struct Ret {
    pub tag: u64,
    pub ptr: *const u8,
    pub len: usize,
    pub cap: usize,
}
#[inline(always)]
unsafe fn ld<T: Copy>(p: *mut u8, off: usize) -> T {
    core::ptr::read_unaligned(p.add(off) as *const T)
}
trait Put {
    unsafe fn put(self, a: &Args, r: &mut Ret);
}
macro_rules! put {
    ($($t:ty),*) => { $(impl Put for $t {
        #[inline(always)]
        unsafe fn put(self, a: &Args, r: &mut Ret) {
            core::ptr::write_unaligned(a.dst as *mut $t, self);
            r.tag = 1;
            r.ptr = a.dst;
            r.len = core::mem::size_of::<$t>();
        }
    })* };
}
put!(V64, V128, V256, V512, u8, u16, u32, u64);
impl Put for bool {
    #[inline(always)]
    unsafe fn put(self, a: &Args, r: &mut Ret) {
        (self as u8).put(a, r)
    }
}
impl<T: Put> Put for Result<T, ()> {
    #[inline(always)]
    unsafe fn put(self, a: &Args, r: &mut Ret) {
        r.tag = 0;
        r.len = 0;
        if let Ok(x) = self {
            x.put(a, r)
        }
    }
}
#[inline(always)]
fn v512(x: (V256, V256)) -> V512 {
    V512::from_v256x2(x)
}
#[inline(always)]
#[allow(dead_code)]
fn v256(x: (V128, V128)) -> V256 {
    V256::from_v128x2(x)
}
#[inline(always)]
fn cat8(a: [u8; 8], b: [u8; 8]) -> [u8; 16] {
    unsafe { core::mem::transmute([a, b]) }
}
#[inline(always)]
#[allow(dead_code)]
fn nib(t: V128, f: V128) -> V128 {
    let (mut t, f) = (*t.as_bytes(), *f.as_bytes());
    for i in 0..16 {
        t[i] |= ((f[i] as i8) >> 7) as u8;
    }
    V128::from_bytes(t)
}
macro_rules! isa_entries {
    ($m:ident, $s:ty) => {
        pub mod $m {
            use super::*;
            #[inline(never)]
            pub unsafe fn v128_create_zero(a: &Args, r: &mut Ret) { let s = <$s>::new(); (s.v128_create_zero()).put(a, r) }
            #[inline(never)]
            pub unsafe fn v128_not(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.v128_not(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v128_and(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.v128_and(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v128_or(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.v128_or(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v128_xor(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.v128_xor(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v128_andnot(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.v128_andnot(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v128_all_zero(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.v128_all_zero(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v128_bsl(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); let z: V128 = ld(a.src, 32); (s.v128_bsl(x, y, z)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: u8 = ld(a.src, 0); (s.u8x16_splat(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i8x16_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: i8 = ld(a.src, 0); (s.i8x16_splat(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16_add(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u8x16_add(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16_sub(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u8x16_sub(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: u16 = ld(a.src, 0); (s.u16x8_splat(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i16x8_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: i16 = ld(a.src, 0); (s.i16x8_splat(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_add(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u16x8_add(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_sub(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u16x8_sub(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: u32 = ld(a.src, 0); (s.u32x4_splat(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i32x4_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: i32 = ld(a.src, 0); (s.i32x4_splat(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_add(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u32x4_add(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_sub(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u32x4_sub(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x2_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: u64 = ld(a.src, 0); (s.u64x2_splat(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i64x2_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: i64 = ld(a.src, 0); (s.i64x2_splat(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x2_add(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u64x2_add(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x2_sub(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u64x2_sub(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16_sub_sat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u8x16_sub_sat(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i8x16_sub_sat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.i8x16_sub_sat(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_sub_sat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u16x8_sub_sat(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i16x8_sub_sat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.i16x8_sub_sat(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16_add_sat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u8x16_add_sat(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i8x16_add_sat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.i8x16_add_sat(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i16x8_mul_lo(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.i16x8_mul_lo(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i32x4_mul_lo(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.i32x4_mul_lo(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_mul_hi(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u16x8_mul_hi(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i16x8_mul_hi(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.i16x8_mul_hi(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i16x8_maddubs(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.i16x8_maddubs(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i16x8_madd(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.i16x8_madd(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16_avgr(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u8x16_avgr(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16_eq(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u8x16_eq(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16_lt(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u8x16_lt(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16_max(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u8x16_max(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16_min(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u8x16_min(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i8x16_lt(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.i8x16_lt(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i8x16_max(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.i8x16_max(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i8x16_min(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.i8x16_min(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_eq(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u16x8_eq(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_lt(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u16x8_lt(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_max(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u16x8_max(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_min(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u16x8_min(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i16x8_lt(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.i16x8_lt(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i16x8_max(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.i16x8_max(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i16x8_min(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.i16x8_min(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_eq(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u32x4_eq(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_lt(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u32x4_lt(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_max(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u32x4_max(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_min(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u32x4_min(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i32x4_lt(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.i32x4_lt(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i32x4_max(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.i32x4_max(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i32x4_min(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.i32x4_min(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shl_1(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shl::<1>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shl_2(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shl::<2>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shl_3(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shl::<3>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shl_4(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shl::<4>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shl_5(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shl::<5>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shl_6(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shl::<6>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shl_7(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shl::<7>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shl_8(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shl::<8>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shl_9(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shl::<9>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shl_10(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shl::<10>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shl_11(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shl::<11>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shl_12(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shl::<12>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shl_13(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shl::<13>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shl_14(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shl::<14>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shl_15(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shl::<15>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shr_1(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shr::<1>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shr_2(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shr::<2>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shr_3(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shr::<3>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shr_4(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shr::<4>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shr_5(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shr::<5>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shr_6(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shr::<6>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shr_7(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shr::<7>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shr_8(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shr::<8>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shr_9(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shr::<9>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shr_10(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shr::<10>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shr_11(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shr::<11>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shr_12(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shr::<12>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shr_13(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shr::<13>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shr_14(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shr::<14>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_shr_15(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_shr::<15>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_1(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<1>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_2(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<2>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_3(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<3>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_4(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<4>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_5(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<5>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_6(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<6>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_7(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<7>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_8(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<8>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_9(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<9>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_10(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<10>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_11(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<11>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_12(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<12>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_13(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<13>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_14(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<14>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_15(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<15>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_16(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<16>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_17(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<17>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_18(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<18>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_19(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<19>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_20(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<20>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_21(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<21>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_22(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<22>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_23(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<23>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_24(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<24>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_25(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<25>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_26(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<26>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_27(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<27>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_28(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<28>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_29(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<29>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_30(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<30>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shl_31(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shl::<31>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_1(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<1>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_2(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<2>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_3(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<3>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_4(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<4>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_5(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<5>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_6(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<6>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_7(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<7>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_8(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<8>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_9(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<9>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_10(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<10>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_11(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<11>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_12(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<12>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_13(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<13>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_14(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<14>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_15(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<15>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_16(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<16>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_17(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<17>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_18(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<18>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_19(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<19>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_20(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<20>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_21(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<21>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_22(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<22>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_23(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<23>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_24(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<24>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_25(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<25>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_26(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<26>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_27(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<27>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_28(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<28>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_29(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<29>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_30(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<30>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_shr_31(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_shr::<31>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_bswap(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x8_bswap(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_bswap(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u32x4_bswap(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x2_bswap(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u64x2_bswap(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16_any_zero(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u8x16_any_zero(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16_bitmask(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u8x16_bitmask(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16_reduce_max(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u8x16_reduce_max(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16_reduce_min(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u8x16_reduce_min(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16_blendv(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); let z: V128 = ld(a.src, 32); (s.u8x16_blendv(x, y, z)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16_swizzle(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u8x16_swizzle(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16_unzip_even(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u8x16_unzip_even(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16_unzip_odd(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u8x16_unzip_odd(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16_zip_lo(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u8x16_zip_lo(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16_zip_hi(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u8x16_zip_hi(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_zip_lo(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u16x8_zip_lo(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_zip_hi(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u16x8_zip_hi(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_zip_lo(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u32x4_zip_lo(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4_zip_hi(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u32x4_zip_hi(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x2_zip_lo(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u64x2_zip_lo(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x2_zip_hi(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u64x2_zip_hi(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v128_load(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.v128_load(a.src)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v128_load_unaligned(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.v128_load_unaligned(a.src)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v128_store(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); ({ s.v128_store(a.dst, x); ld::<V128>(a.dst, 0) }).put(a, r) }
            #[inline(never)]
            pub unsafe fn v128_store_unaligned(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); ({ s.v128_store_unaligned(a.dst, x); ld::<V128>(a.dst, 0) }).put(a, r) }
            #[inline(never)]
            pub unsafe fn ascii_to_lower_v128(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (vsimd::ascii::to_ascii_lowercase(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn ascii_to_upper_v128(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (vsimd::ascii::to_ascii_uppercase(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn hex_check_v128(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (vsimd::hex::check_xn(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn lookup_v128(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (vsimd::table::u8x16xn_lookup(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn mask_mask8x16_all(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (vsimd::mask::mask8x16_all(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn mask_mask8x16_any(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (vsimd::mask::mask8x16_any(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn mask_u8x16_highbit_all(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (vsimd::mask::u8x16_highbit_all(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn mask_u8x16_highbit_any(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (vsimd::mask::u8x16_highbit_any(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_v128_and(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (Scalable::<V128>::and(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_v128_or(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (Scalable::<V128>::or(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_v128_xor(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (Scalable::<V128>::xor(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_v128_andnot(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (Scalable::<V128>::andnot(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_v128_all_zero(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::all_zero(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u8x16_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: u8 = ld(a.src, 0); (Scalable::<V128>::u8xn_splat(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_i8x16_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: i8 = ld(a.src, 0); (Scalable::<V128>::i8xn_splat(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x4_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: u32 = ld(a.src, 0); (Scalable::<V128>::u32xn_splat(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u8x16_add(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (Scalable::<V128>::u8xn_add(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u8x16_sub(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (Scalable::<V128>::u8xn_sub(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x4_sub(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (Scalable::<V128>::u32xn_sub(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u8x16_add_sat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (Scalable::<V128>::u8xn_add_sat(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_i8x16_add_sat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (Scalable::<V128>::i8xn_add_sat(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u8x16_sub_sat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (Scalable::<V128>::u8xn_sub_sat(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u8x16_eq(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (Scalable::<V128>::u8xn_eq(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_i8x16_lt(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (Scalable::<V128>::i8xn_lt(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x4_lt(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (Scalable::<V128>::u32xn_lt(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x4_max(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (Scalable::<V128>::u32xn_max(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u8x16_avgr(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (Scalable::<V128>::u8xn_avgr(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x8_shl_1(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u16xn_shl::<1>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x8_shl_4(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u16xn_shl::<4>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x8_shl_6(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u16xn_shl::<6>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x8_shl_7(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u16xn_shl::<7>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x8_shl_8(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u16xn_shl::<8>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x8_shl_12(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u16xn_shl::<12>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x8_shl_15(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u16xn_shl::<15>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x8_shr_1(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u16xn_shr::<1>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x8_shr_4(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u16xn_shr::<4>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x8_shr_6(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u16xn_shr::<6>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x8_shr_7(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u16xn_shr::<7>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x8_shr_8(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u16xn_shr::<8>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x8_shr_12(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u16xn_shr::<12>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x8_shr_15(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u16xn_shr::<15>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x4_shr_1(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u32xn_shr::<1>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x4_shr_4(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u32xn_shr::<4>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x4_shr_6(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u32xn_shr::<6>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x4_shr_7(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u32xn_shr::<7>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x4_shr_8(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u32xn_shr::<8>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x4_shr_12(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u32xn_shr::<12>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x4_shr_31(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u32xn_shr::<31>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u8x16_swizzle(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (Scalable::<V128>::u8x16xn_swizzle(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_mask_mask8x16_all(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::mask8xn_all(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_mask_u8x16_highbit_all(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u8xn_highbit_all(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_mask_mask8x16_any(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::mask8xn_any(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_mask_u8x16_highbit_any(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u8xn_highbit_any(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x8_bswap(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u16xn_bswap(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x4_bswap(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u32xn_bswap(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u64x2_bswap(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (Scalable::<V128>::u64xn_bswap(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v256_create_zero(a: &Args, r: &mut Ret) { let s = <$s>::new(); (s.v256_create_zero()).put(a, r) }
            #[inline(never)]
            pub unsafe fn v256_not(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.v256_not(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v256_and(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.v256_and(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v256_or(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.v256_or(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v256_xor(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.v256_xor(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v256_andnot(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.v256_andnot(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v256_all_zero(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.v256_all_zero(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v256_bsl(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); let z: V256 = ld(a.src, 64); (s.v256_bsl(x, y, z)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x32_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: u8 = ld(a.src, 0); (s.u8x32_splat(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i8x32_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: i8 = ld(a.src, 0); (s.i8x32_splat(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x32_add(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u8x32_add(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x32_sub(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u8x32_sub(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: u16 = ld(a.src, 0); (s.u16x16_splat(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i16x16_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: i16 = ld(a.src, 0); (s.i16x16_splat(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_add(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u16x16_add(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_sub(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u16x16_sub(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: u32 = ld(a.src, 0); (s.u32x8_splat(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i32x8_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: i32 = ld(a.src, 0); (s.i32x8_splat(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_add(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u32x8_add(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_sub(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u32x8_sub(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x4_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: u64 = ld(a.src, 0); (s.u64x4_splat(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i64x4_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: i64 = ld(a.src, 0); (s.i64x4_splat(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x4_add(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u64x4_add(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x4_sub(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u64x4_sub(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x32_sub_sat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u8x32_sub_sat(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i8x32_sub_sat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.i8x32_sub_sat(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_sub_sat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u16x16_sub_sat(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i16x16_sub_sat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.i16x16_sub_sat(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x32_add_sat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u8x32_add_sat(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i8x32_add_sat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.i8x32_add_sat(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i16x16_mul_lo(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.i16x16_mul_lo(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i32x8_mul_lo(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.i32x8_mul_lo(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_mul_hi(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u16x16_mul_hi(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i16x16_mul_hi(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.i16x16_mul_hi(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i16x16_maddubs(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.i16x16_maddubs(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i16x16_madd(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.i16x16_madd(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x32_avgr(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u8x32_avgr(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x32_eq(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u8x32_eq(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x32_lt(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u8x32_lt(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x32_max(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u8x32_max(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x32_min(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u8x32_min(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i8x32_lt(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.i8x32_lt(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i8x32_max(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.i8x32_max(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i8x32_min(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.i8x32_min(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_eq(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u16x16_eq(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_lt(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u16x16_lt(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_max(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u16x16_max(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_min(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u16x16_min(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i16x16_lt(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.i16x16_lt(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i16x16_max(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.i16x16_max(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i16x16_min(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.i16x16_min(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_eq(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u32x8_eq(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_lt(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u32x8_lt(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_max(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u32x8_max(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_min(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u32x8_min(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i32x8_lt(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.i32x8_lt(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i32x8_max(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.i32x8_max(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i32x8_min(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.i32x8_min(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shl_1(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shl::<1>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shl_2(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shl::<2>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shl_3(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shl::<3>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shl_4(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shl::<4>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shl_5(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shl::<5>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shl_6(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shl::<6>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shl_7(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shl::<7>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shl_8(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shl::<8>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shl_9(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shl::<9>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shl_10(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shl::<10>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shl_11(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shl::<11>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shl_12(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shl::<12>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shl_13(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shl::<13>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shl_14(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shl::<14>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shl_15(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shl::<15>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shr_1(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shr::<1>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shr_2(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shr::<2>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shr_3(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shr::<3>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shr_4(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shr::<4>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shr_5(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shr::<5>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shr_6(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shr::<6>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shr_7(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shr::<7>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shr_8(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shr::<8>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shr_9(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shr::<9>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shr_10(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shr::<10>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shr_11(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shr::<11>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shr_12(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shr::<12>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shr_13(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shr::<13>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shr_14(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shr::<14>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_shr_15(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_shr::<15>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_1(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<1>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_2(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<2>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_3(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<3>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_4(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<4>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_5(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<5>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_6(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<6>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_7(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<7>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_8(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<8>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_9(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<9>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_10(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<10>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_11(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<11>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_12(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<12>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_13(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<13>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_14(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<14>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_15(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<15>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_16(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<16>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_17(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<17>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_18(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<18>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_19(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<19>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_20(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<20>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_21(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<21>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_22(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<22>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_23(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<23>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_24(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<24>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_25(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<25>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_26(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<26>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_27(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<27>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_28(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<28>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_29(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<29>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_30(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<30>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shl_31(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shl::<31>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_1(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<1>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_2(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<2>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_3(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<3>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_4(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<4>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_5(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<5>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_6(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<6>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_7(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<7>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_8(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<8>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_9(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<9>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_10(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<10>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_11(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<11>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_12(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<12>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_13(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<13>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_14(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<14>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_15(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<15>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_16(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<16>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_17(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<17>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_18(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<18>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_19(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<19>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_20(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<20>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_21(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<21>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_22(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<22>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_23(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<23>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_24(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<24>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_25(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<25>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_26(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<26>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_27(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<27>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_28(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<28>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_29(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<29>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_30(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<30>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_shr_31(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_shr::<31>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_bswap(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u16x16_bswap(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_bswap(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u32x8_bswap(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x4_bswap(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u64x4_bswap(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x32_any_zero(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u8x32_any_zero(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x32_bitmask(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u8x32_bitmask(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x32_reduce_max(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u8x32_reduce_max(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x32_reduce_min(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u8x32_reduce_min(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x32_blendv(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); let z: V256 = ld(a.src, 64); (s.u8x32_blendv(x, y, z)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x32_swizzle(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u8x32_swizzle(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x32_unzip_even(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u8x32_unzip_even(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x32_unzip_odd(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u8x32_unzip_odd(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16x2_zip_lo(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u8x16x2_zip_lo(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16x2_zip_hi(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u8x16x2_zip_hi(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8x2_zip_lo(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u16x8x2_zip_lo(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8x2_zip_hi(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u16x8x2_zip_hi(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4x2_zip_lo(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u32x4x2_zip_lo(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x4x2_zip_hi(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u32x4x2_zip_hi(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x2x2_zip_lo(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u64x2x2_zip_lo(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x2x2_zip_hi(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u64x2x2_zip_hi(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v256_load(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.v256_load(a.src)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v256_load_unaligned(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.v256_load_unaligned(a.src)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v256_store(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); ({ s.v256_store(a.dst, x); ld::<V256>(a.dst, 0) }).put(a, r) }
            #[inline(never)]
            pub unsafe fn v256_store_unaligned(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); ({ s.v256_store_unaligned(a.dst, x); ld::<V256>(a.dst, 0) }).put(a, r) }
            #[inline(never)]
            pub unsafe fn ascii_to_lower_v256(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (vsimd::ascii::to_ascii_lowercase(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn ascii_to_upper_v256(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (vsimd::ascii::to_ascii_uppercase(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn hex_check_v256(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (vsimd::hex::check_xn(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn lookup_v256(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (vsimd::table::u8x16xn_lookup(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn mask_mask8x32_all(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (vsimd::mask::mask8x32_all(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn mask_mask8x32_any(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (vsimd::mask::mask8x32_any(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn mask_u8x32_highbit_all(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (vsimd::mask::u8x32_highbit_all(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn mask_u8x32_highbit_any(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (vsimd::mask::u8x32_highbit_any(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_v256_and(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (Scalable::<V256>::and(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_v256_or(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (Scalable::<V256>::or(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_v256_xor(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (Scalable::<V256>::xor(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_v256_andnot(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (Scalable::<V256>::andnot(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_v256_all_zero(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::all_zero(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u8x32_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: u8 = ld(a.src, 0); (Scalable::<V256>::u8xn_splat(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_i8x32_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: i8 = ld(a.src, 0); (Scalable::<V256>::i8xn_splat(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x8_splat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: u32 = ld(a.src, 0); (Scalable::<V256>::u32xn_splat(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u8x32_add(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (Scalable::<V256>::u8xn_add(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u8x32_sub(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (Scalable::<V256>::u8xn_sub(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x8_sub(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (Scalable::<V256>::u32xn_sub(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u8x32_add_sat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (Scalable::<V256>::u8xn_add_sat(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_i8x32_add_sat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (Scalable::<V256>::i8xn_add_sat(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u8x32_sub_sat(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (Scalable::<V256>::u8xn_sub_sat(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u8x32_eq(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (Scalable::<V256>::u8xn_eq(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_i8x32_lt(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (Scalable::<V256>::i8xn_lt(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x8_lt(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (Scalable::<V256>::u32xn_lt(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x8_max(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (Scalable::<V256>::u32xn_max(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u8x32_avgr(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (Scalable::<V256>::u8xn_avgr(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x16_shl_1(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u16xn_shl::<1>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x16_shl_4(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u16xn_shl::<4>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x16_shl_6(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u16xn_shl::<6>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x16_shl_7(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u16xn_shl::<7>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x16_shl_8(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u16xn_shl::<8>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x16_shl_12(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u16xn_shl::<12>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x16_shl_15(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u16xn_shl::<15>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x16_shr_1(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u16xn_shr::<1>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x16_shr_4(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u16xn_shr::<4>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x16_shr_6(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u16xn_shr::<6>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x16_shr_7(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u16xn_shr::<7>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x16_shr_8(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u16xn_shr::<8>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x16_shr_12(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u16xn_shr::<12>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x16_shr_15(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u16xn_shr::<15>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x8_shr_1(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u32xn_shr::<1>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x8_shr_4(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u32xn_shr::<4>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x8_shr_6(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u32xn_shr::<6>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x8_shr_7(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u32xn_shr::<7>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x8_shr_8(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u32xn_shr::<8>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x8_shr_12(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u32xn_shr::<12>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x8_shr_31(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u32xn_shr::<31>(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u8x16x2_swizzle(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (Scalable::<V256>::u8x16xn_swizzle(s, x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_mask_mask8x32_all(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::mask8xn_all(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_mask_u8x32_highbit_all(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u8xn_highbit_all(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_mask_mask8x32_any(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::mask8xn_any(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_mask_u8x32_highbit_any(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u8xn_highbit_any(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u16x16_bswap(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u16xn_bswap(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u32x8_bswap(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u32xn_bswap(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn scalable_u64x4_bswap(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (Scalable::<V256>::u64xn_bswap(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn i16x8_packus(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.i16x8_packus(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_blend_0(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u16x8_blend::<0>(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_blend_0(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u32x8_blend::<0>(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_blend_1(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u16x8_blend::<1>(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_blend_1(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u32x8_blend::<1>(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_blend_90(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u16x8_blend::<90>(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_blend_90(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u32x8_blend::<90>(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_blend_165(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u16x8_blend::<165>(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_blend_165(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u32x8_blend::<165>(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_blend_128(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u16x8_blend::<128>(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_blend_128(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u32x8_blend::<128>(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_blend_240(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u16x8_blend::<240>(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_blend_240(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u32x8_blend::<240>(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x8_blend_255(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (s.u16x8_blend::<255>(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u32x8_blend_255(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u32x8_blend::<255>(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x4_permute_216(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u64x4_permute::<216>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x4_permute_0(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u64x4_permute::<0>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x4_permute_27(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u64x4_permute::<27>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x4_permute_78(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u64x4_permute::<78>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x4_permute_177(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u64x4_permute::<177>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x4_permute_147(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u64x4_permute::<147>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x4_permute_228(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u64x4_permute::<228>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x4_permute_255(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (s.u64x4_permute::<255>(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x16x2_swizzle(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u8x16x2_swizzle(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u16x16_from_u8x16(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (s.u16x16_from_u8x16(x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v128x2_zip_lo(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.v128x2_zip_lo(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn v128x2_zip_hi(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.v128x2_zip_hi(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x4_unzip_even(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u64x4_unzip_even(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u64x4_unzip_odd(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (s.u64x4_unzip_odd(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn u8x8_unzip_even(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V64 = ld(a.src, 0); let y: V64 = ld(a.src, 8); (s.u8x8_unzip_even(x, y)).put(a, r) }
            #[inline(never)]
            pub unsafe fn hex_encode16_lo(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (vsimd::hex::encode_bytes16(s, x, vsimd::hex::ENCODE_LOWER_LUT)).put(a, r) }
            #[inline(never)]
            pub unsafe fn hex_encode16_up(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (vsimd::hex::encode_bytes16(s, x, vsimd::hex::ENCODE_UPPER_LUT)).put(a, r) }
            #[inline(never)]
            pub unsafe fn hex_encode32_lo(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (v512(vsimd::hex::encode_bytes32(s, x, vsimd::hex::ENCODE_LOWER_LUT))).put(a, r) }
            #[inline(never)]
            pub unsafe fn hex_encode32_up(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (v512(vsimd::hex::encode_bytes32(s, x, vsimd::hex::ENCODE_UPPER_LUT))).put(a, r) }
            #[inline(never)]
            pub unsafe fn hex_decode16(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V128 = ld(a.src, 0); (vsimd::hex::decode_ascii16(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn hex_decode32(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); (vsimd::hex::decode_ascii32(s, x)).put(a, r) }
            #[inline(never)]
            pub unsafe fn hex_decode32x2(a: &Args, r: &mut Ret) { let s = <$s>::new(); let x: V256 = ld(a.src, 0); let y: V256 = ld(a.src, 32); (vsimd::hex::decode_ascii32x2(s, (x, y))).put(a, r) }
        }
    };
}
#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
isa_entries!(lane_sse2, isa::SSE2);
#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
isa_entries!(lane_ssse3, isa::SSSE3);
#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
isa_entries!(lane_sse41, isa::SSE41);
#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
isa_entries!(lane_avx2, isa::AVX2);
#[cfg(target_arch = "aarch64")]
isa_entries!(lane_neon, isa::NEON);
#[cfg(target_arch = "wasm32")]
isa_entries!(lane_wasm128, isa::WASM128);
pub mod lane_plain {
    use super::*;
    #[inline(never)]
    pub unsafe fn sim_u8x16_bitmask(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u8x16_bitmask(x)).put(a, r) }
    #[inline(never)]
    pub unsafe fn i16x8_packus(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); let y: V128 = ld(a.src, 16); (simulation::i16x8_packus(x, y)).put(a, r) }
    #[inline(never)]
    pub unsafe fn vec_v64_to_u64(a: &Args, r: &mut Ret) { let x: V64 = ld(a.src, 0); (x.to_u64()).put(a, r) }
    #[inline(never)]
    pub unsafe fn vec_v64_bytes(a: &Args, r: &mut Ret) { let x: V64 = ld(a.src, 0); (V64::from_bytes(*x.as_bytes())).put(a, r) }
    #[inline(never)]
    pub unsafe fn vec_v128_bytes(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (V128::from_bytes(*x.as_bytes())).put(a, r) }
    #[inline(never)]
    pub unsafe fn vec_v256_bytes(a: &Args, r: &mut Ret) { let x: V256 = ld(a.src, 0); (V256::from_bytes(*x.as_bytes())).put(a, r) }
    #[inline(never)]
    pub unsafe fn vec_v512_bytes(a: &Args, r: &mut Ret) { let x: V512 = ld(a.src, 0); (V512::from_bytes(*x.as_bytes())).put(a, r) }
    #[inline(never)]
    pub unsafe fn vec_halves64(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); ({ let (p, q) = x.to_v64x2(); V128::from_bytes(cat8(*p.as_bytes(), *q.as_bytes())) }).put(a, r) }
    #[inline(never)]
    pub unsafe fn vec_halves128(a: &Args, r: &mut Ret) { let x: V256 = ld(a.src, 0); ({ let (p, q) = x.to_v128x2(); V256::from_v128x2((p, q)) }).put(a, r) }
    #[inline(never)]
    pub unsafe fn vec_halves256(a: &Args, r: &mut Ret) { let x: V512 = ld(a.src, 0); ({ let (p, q) = x.to_v256x2(); V512::from_v256x2((p, q)) }).put(a, r) }
    #[inline(never)]
    pub unsafe fn vec_lo128(a: &Args, r: &mut Ret) { let x: V256 = ld(a.src, 0); (x.to_v128x2().0).put(a, r) }
    #[inline(never)]
    pub unsafe fn vec_double128(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (x.x2()).put(a, r) }
    #[inline(never)]
    pub unsafe fn vec_double128b(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (V256::double_bytes(*x.as_bytes())).put(a, r) }
    #[inline(never)]
    pub unsafe fn vec_double256(a: &Args, r: &mut Ret) { let x: V256 = ld(a.src, 0); (x.x2()).put(a, r) }
    #[inline(never)]
    pub unsafe fn vec_double256b(a: &Args, r: &mut Ret) { let x: V256 = ld(a.src, 0); (V512::double_bytes(*x.as_bytes())).put(a, r) }
    #[inline(never)]
    pub unsafe fn hexs_unhex(a: &Args, r: &mut Ret) { let x: u8 = ld(a.src, 0); (hex::unhex(x)).put(a, r) }
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    #[inline(never)]
    pub unsafe fn hexs_nibbles(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); ({ let (t, f) = hex::sse2::decode_nibbles(isa::SSE2::new(), x); nib(t, f) }).put(a, r) }
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    #[inline(never)]
    pub unsafe fn hexs_merge(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (hex::sse2::merge_bits(isa::SSE2::new(), x)).put(a, r) }
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    #[inline(never)]
    pub unsafe fn hexs_encode16_lo(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (v256(hex::sse2::encode16(isa::SSE2::new(), x, hex::sse2::LOWER_OFFSET))).put(a, r) }
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    #[inline(never)]
    pub unsafe fn hexs_encode16_up(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (v256(hex::sse2::encode16(isa::SSE2::new(), x, hex::sse2::UPPER_OFFSET))).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shl_1(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shl(x, 1)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shr_1(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shr(x, 1)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shl_2(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shl(x, 2)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shr_2(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shr(x, 2)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shl_3(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shl(x, 3)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shr_3(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shr(x, 3)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shl_4(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shl(x, 4)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shr_4(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shr(x, 4)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shl_5(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shl(x, 5)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shr_5(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shr(x, 5)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shl_6(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shl(x, 6)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shr_6(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shr(x, 6)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shl_7(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shl(x, 7)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shr_7(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shr(x, 7)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shl_8(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shl(x, 8)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shr_8(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shr(x, 8)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shl_9(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shl(x, 9)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shr_9(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shr(x, 9)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shl_10(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shl(x, 10)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shr_10(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shr(x, 10)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shl_11(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shl(x, 11)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shr_11(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shr(x, 11)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shl_12(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shl(x, 12)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shr_12(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shr(x, 12)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shl_13(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shl(x, 13)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shr_13(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shr(x, 13)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shl_14(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shl(x, 14)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shr_14(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shr(x, 14)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shl_15(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shl(x, 15)).put(a, r) }
    #[inline(never)]
    pub unsafe fn u16x8_shr_15(a: &Args, r: &mut Ret) { let x: V128 = ld(a.src, 0); (simulation::u16x8_shr(x, 15)).put(a, r) }
}
