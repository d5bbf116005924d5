#!/usr/bin/env python3
"""The primitives of the SIMD layer, and the generator of harness_lane/src/lib.rs.

An operation is (name, body, operand types, result type): `name` says what must be computed (driver/src/lane.rs
reads the lane type, the lane count and the operation off it), `body` is how the library spells it.
"""
import os

V64, V128, V256 = "V64", "V128", "V256"
SIZE = {"V64": 8, "V128": 16, "V256": 32, "V512": 64, "u8": 1, "u16": 2, "u32": 4, "u64": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8,
        "bool": 1}
OPS = []  # (name, expr, [operand types], result type)


def op(name, args, res, expr=None):
    xs = ["x", "y", "z"][: len(args)]
    if expr is None:
        expr = f"s.{name}({', '.join(xs)})"
    OPS.append((name, expr, args, res))


def build():
    for V, b in ((V128, 16), (V256, 32)):
        v = V.lower()
        n8, n16, n32, n64 = b, b // 2, b // 4, b // 8
        op(f"{v}_create_zero", [], V)
        op(f"{v}_not", [V], V)
        for o in ("and", "or", "xor", "andnot"):
            op(f"{v}_{o}", [V, V], V)
        op(f"{v}_all_zero", [V], "bool")
        op(f"{v}_bsl", [V, V, V], V)
        for w, n in ((8, n8), (16, n16), (32, n32), (64, n64)):
            for s in "ui":
                op(f"{s}{w}x{n}_splat", [f"{s}{w}"], V)
            for o in ("add", "sub"):
                op(f"u{w}x{n}_{o}", [V, V], V)
        for w, n in ((8, n8), (16, n16)):
            for s in "ui":
                op(f"{s}{w}x{n}_sub_sat", [V, V], V)
        for s in "ui":
            op(f"{s}8x{n8}_add_sat", [V, V], V)
        op(f"i16x{n16}_mul_lo", [V, V], V)
        op(f"i32x{n32}_mul_lo", [V, V], V)
        op(f"u16x{n16}_mul_hi", [V, V], V)
        op(f"i16x{n16}_mul_hi", [V, V], V)
        op(f"i16x{n16}_maddubs", [V, V], V)
        op(f"i16x{n16}_madd", [V, V], V)
        op(f"u8x{n8}_avgr", [V, V], V)
        for w, n in ((8, n8), (16, n16), (32, n32)):
            op(f"u{w}x{n}_eq", [V, V], V)
            for s in "ui":
                for o in ("lt", "max", "min"):
                    op(f"{s}{w}x{n}_{o}", [V, V], V)
        for w, n in ((16, n16), (32, n32)):
            for o in ("shl", "shr"):
                for k in range(1, w):
                    op(f"u{w}x{n}_{o}_{k}", [V], V, f"s.u{w}x{n}_{o}::<{k}>(x)")
        for w, n in ((16, n16), (32, n32), (64, n64)):
            op(f"u{w}x{n}_bswap", [V], V)
        op(f"u8x{n8}_any_zero", [V], "bool")
        op(f"u8x{n8}_bitmask", [V], "u16" if b == 16 else "u32")
        op(f"u8x{n8}_reduce_max", [V], "u8")
        op(f"u8x{n8}_reduce_min", [V], "u8")
        op(f"u8x{n8}_blendv", [V, V, V], V)
        op(f"u8x{n8}_swizzle", [V, V], V)
        op(f"u8x{n8}_unzip_even", [V, V], V)
        op(f"u8x{n8}_unzip_odd", [V, V], V)
        x2 = "" if b == 16 else "x2"
        for w in (8, 16, 32, 64):
            for h in ("lo", "hi"):
                op(f"u{w}x{128 // w}{x2}_zip_{h}", [V, V], V)
        for al in ("load", "load_unaligned"):
            op(f"{v}_{al}", [V], V, f"s.{v}_{al}(a.src)")
        for al in ("store", "store_unaligned"):
            op(f"{v}_{al}", [V], V, f"{{ s.{v}_{al}(a.dst, x); ld::<{V}>(a.dst, 0) }}")
        op(f"ascii_to_lower_{v}", [V], V, "vsimd::ascii::to_ascii_lowercase(s, x)")
        op(f"ascii_to_upper_{v}", [V], V, "vsimd::ascii::to_ascii_uppercase(s, x)")
        op(f"hex_check_{v}", [V], "bool", "vsimd::hex::check_xn(s, x)")
        op(f"lookup_{v}", [V, V], V, "vsimd::table::u8x16xn_lookup(s, x, y)")
        for o in ("mask8x{}_all", "mask8x{}_any", "u8x{}_highbit_all", "u8x{}_highbit_any"):
            o = o.format(b)
            op("mask_" + o, [V], "bool", f"vsimd::mask::{o}(s, x)")
        # the width-generic spellings
        S = f"Scalable::<{V}>::"
        for o in ("and", "or", "xor", "andnot"):
            op(f"scalable_{v}_{o}", [V, V], V, f"{S}{o}(s, x, y)")
        op(f"scalable_{v}_all_zero", [V], "bool", f"{S}all_zero(s, x)")
        for t, o in (("u8", "splat"), ("i8", "splat"), ("u32", "splat")):
            w = int(t[1:])
            op(f"scalable_{t}x{b * 8 // w}_{o}", [t], V, f"{S}{t}xn_{o}(s, x)")
        for t, o in (("u8", "add"), ("u8", "sub"), ("u32", "sub"), ("u8", "add_sat"), ("i8", "add_sat"), ("u8", "sub_sat"),
                     ("u8", "eq"), ("i8", "lt"), ("u32", "lt"), ("u32", "max"), ("u8", "avgr")):
            w = int(t[1:])
            op(f"scalable_{t}x{b * 8 // w}_{o}", [V, V], V, f"{S}{t}xn_{o}(s, x, y)")
        for t, o in (("u16", "shl"), ("u16", "shr"), ("u32", "shr")):
            w = int(t[1:])
            for k in (1, 4, 6, 7, 8, 12, w - 1):
                op(f"scalable_{t}x{b * 8 // w}_{o}_{k}", [V], V, f"{S}{t}xn_{o}::<{k}>(s, x)")
        op(f"scalable_u8x16{x2}_swizzle", [V, V], V, f"{S}u8x16xn_swizzle(s, x, y)")
        for o in ("all", "any"):
            op(f"scalable_mask_mask8x{b}_{o}", [V], "bool", f"{S}mask8xn_{o}(s, x)")
            op(f"scalable_mask_u8x{b}_highbit_{o}", [V], "bool", f"{S}u8xn_highbit_{o}(s, x)")
        for w in (16, 32, 64):
            op(f"scalable_u{w}x{b * 8 // w}_bswap", [V], V, f"{S}u{w}xn_bswap(s, x)")
    # 128 only
    op("i16x8_packus", [V128, V128], V128)
    for k in (0x00, 0x01, 0x5a, 0xa5, 0x80, 0xf0, 0xff):
        op(f"u16x8_blend_{k}", [V128, V128], V128, f"s.u16x8_blend::<{k}>(x, y)")
        op(f"u32x8_blend_{k}", [V256, V256], V256, f"s.u32x8_blend::<{k}>(x, y)")
    for k in (0b11_01_10_00, 0, 0x1b, 0x4e, 0xb1, 0x93, 0xe4, 0xff):
        op(f"u64x4_permute_{k}", [V256], V256, f"s.u64x4_permute::<{k}>(x)")
    op("u8x16x2_swizzle", [V256, V256], V256)
    op("u16x16_from_u8x16", [V128], V256)
    for h in ("lo", "hi"):
        op(f"v128x2_zip_{h}", [V256, V256], V256)
    for h in ("even", "odd"):
        op(f"u64x4_unzip_{h}", [V256, V256], V256)
    op("u8x8_unzip_even", [V64, V64], V64)
    # hexadecimal kernels
    op("hex_encode16_lo", [V128], V256, "vsimd::hex::encode_bytes16(s, x, vsimd::hex::ENCODE_LOWER_LUT)")
    op("hex_encode16_up", [V128], V256, "vsimd::hex::encode_bytes16(s, x, vsimd::hex::ENCODE_UPPER_LUT)")
    op("hex_encode32_lo", [V256], "V512", "v512(vsimd::hex::encode_bytes32(s, x, vsimd::hex::ENCODE_LOWER_LUT))")
    op("hex_encode32_up", [V256], "V512", "v512(vsimd::hex::encode_bytes32(s, x, vsimd::hex::ENCODE_UPPER_LUT))")
    op("hex_decode16", [V128], "R64", "vsimd::hex::decode_ascii16(s, x)")
    op("hex_decode32", [V256], "R128", "vsimd::hex::decode_ascii32(s, x)")
    op("hex_decode32x2", [V256, V256], "R256", "vsimd::hex::decode_ascii32x2(s, (x, y))")
    return OPS


# functions without an instruction set parameter, or with a fixed one
PLAIN = [
    ("sim_u8x16_bitmask", "simulation::u8x16_bitmask(x)", [V128], "u16", ""),
    ("i16x8_packus", "simulation::i16x8_packus(x, y)", [V128, V128], V128, ""),
    ("vec_v64_to_u64", "x.to_u64()", [V64], "u64", ""),
    ("vec_v64_bytes", "V64::from_bytes(*x.as_bytes())", [V64], V64, ""),
    ("vec_v128_bytes", "V128::from_bytes(*x.as_bytes())", [V128], V128, ""),
    ("vec_v256_bytes", "V256::from_bytes(*x.as_bytes())", [V256], V256, ""),
    ("vec_v512_bytes", "V512::from_bytes(*x.as_bytes())", ["V512"], "V512", ""),
    ("vec_halves64", "{ let (p, q) = x.to_v64x2(); V128::from_bytes(cat8(*p.as_bytes(), *q.as_bytes())) }", [V128], V128, ""),
    ("vec_halves128", "{ let (p, q) = x.to_v128x2(); V256::from_v128x2((p, q)) }", [V256], V256, ""),
    ("vec_halves256", "{ let (p, q) = x.to_v256x2(); V512::from_v256x2((p, q)) }", ["V512"], "V512", ""),
    ("vec_lo128", "x.to_v128x2().0", [V256], V128, ""),
    ("vec_double128", "x.x2()", [V128], V256, ""),
    ("vec_double128b", "V256::double_bytes(*x.as_bytes())", [V128], V256, ""),
    ("vec_double256", "x.x2()", [V256], "V512", ""),
    ("vec_double256b", "V512::double_bytes(*x.as_bytes())", [V256], "V512", ""),
    ("hexs_unhex", "hex::unhex(x)", ["u8"], "u8", ""),
    ("hexs_nibbles", "{ let (t, f) = hex::sse2::decode_nibbles(isa::SSE2::new(), x); nib(t, f) }", [V128], V128, "x86"),
    ("hexs_merge", "hex::sse2::merge_bits(isa::SSE2::new(), x)", [V128], V64, "x86"),
    ("hexs_encode16_lo", "v256(hex::sse2::encode16(isa::SSE2::new(), x, hex::sse2::LOWER_OFFSET))", [V128], V256, "x86"),
    ("hexs_encode16_up", "v256(hex::sse2::encode16(isa::SSE2::new(), x, hex::sse2::UPPER_OFFSET))", [V128], V256, "x86"),
]
for k in range(1, 16):
    PLAIN.append((f"u16x8_shl_{k}", f"simulation::u16x8_shl(x, {k})", [V128], V128, ""))
    PLAIN.append((f"u16x8_shr_{k}", f"simulation::u16x8_shr(x, {k})", [V128], V128, ""))

# where a primitive is not offered (the T1/T2 notes of the source, and what the 256-bit forms inherit from them)
X86_ONLY = ("_mul_hi", "_maddubs", "_madd", "_packus", "_blend_", "_blendv")


def unavailable(isa, name):
    import re
    n = name.replace("scalable_", "")
    x86 = isa in ("sse2", "ssse3", "sse41", "avx2")
    if n == "u8x8_unzip_even" or n == "u8x32_swizzle" or "_reduce_" in n:
        return isa != "neon" and not (n == "u8x32_swizzle" and isa == "neon")
    if re.fullmatch(r"u8x(16|32)_unzip_(even|odd)", n):
        return x86
    if "u64x4_permute" in n or "u32x8_blend_" in n:
        return isa != "avx2"
    if any(k in n for k in X86_ONLY) and not x86:
        return True
    if n.endswith("_bitmask"):
        return isa == "neon"
    old = isa in ("sse2", "ssse3")
    if old and (n.endswith("_all_zero") or "_mul_lo" in n and n.startswith("i32") or "_blend" in n):
        return True
    if old and re.fullmatch(r"(u16x\d+|u32x\d+|i8x\d+|i32x\d+)_(max|min)", n):
        return True
    if isa == "sse2" and ("bswap" in n or "swizzle" in n or "lookup" in n or "_maddubs" in n
                          or n.startswith(("hex_encode", "hex_decode"))):
        return True
    return False


HEAD = '''#![no_std]
//! Entry points for the SIMD layer, one per primitive and instruction set. Never executed.
//! Generated by tools/lanes.py.
#![allow(unused_variables, unused_mut, clippy::all)]
use vsimd::vector::{V128, V256, V512, V64};
#[allow(unused_imports)]
use vsimd::{hex, isa, isa::InstructionSet, simulation, Scalable, SIMD128, SIMD256, SIMD64};

#[repr(C)]
pub struct Args {
    pub src: *mut u8,
    pub src_len: usize,
    pub dst: *mut u8,
    pub dst_len: usize,
    pub cap: usize,
    pub fmt: *mut core::fmt::Formatter<'static>,
}
#[repr(C)]
pub struct Ret {
    pub tag: u64,
    pub ptr: *const u8,
    pub len: usize,
    pub cap: usize,
}
#[inline(always)]
unsafe fn ld<T: Copy>(p: *mut u8, off: usize) -> T {
    core::ptr::read_unaligned(p.add(off) as *const T)
}
trait Put {
    unsafe fn put(self, a: &Args, r: &mut Ret);
}
macro_rules! put {
    ($($t:ty),*) => { $(impl Put for $t {
        #[inline(always)]
        unsafe fn put(self, a: &Args, r: &mut Ret) {
            core::ptr::write_unaligned(a.dst as *mut $t, self);
            r.tag = 1;
            r.ptr = a.dst;
            r.len = core::mem::size_of::<$t>();
        }
    })* };
}
put!(V64, V128, V256, V512, u8, u16, u32, u64);
impl Put for bool {
    #[inline(always)]
    unsafe fn put(self, a: &Args, r: &mut Ret) {
        (self as u8).put(a, r)
    }
}
impl<T: Put> Put for Result<T, ()> {
    #[inline(always)]
    unsafe fn put(self, a: &Args, r: &mut Ret) {
        r.tag = 0;
        r.len = 0;
        if let Ok(x) = self {
            x.put(a, r)
        }
    }
}
#[inline(always)]
fn v512(x: (V256, V256)) -> V512 {
    V512::from_v256x2(x)
}
#[inline(always)]
#[allow(dead_code)]
fn v256(x: (V128, V128)) -> V256 {
    V256::from_v128x2(x)
}
#[inline(always)]
fn cat8(a: [u8; 8], b: [u8; 8]) -> [u8; 16] {
    unsafe { core::mem::transmute([a, b]) }
}
#[inline(always)]
#[allow(dead_code)]
fn nib(t: V128, f: V128) -> V128 {
    let (mut t, f) = (*t.as_bytes(), *f.as_bytes());
    for i in 0..16 {
        t[i] |= ((f[i] as i8) >> 7) as u8;
    }
    V128::from_bytes(t)
}
'''


def fn(name, expr, args, indent, isa=None):
    off, lets = 0, ""
    if isa:
        lets += f" let s = <{isa}>::new();"
    for v, t in zip("xyz", args):
        lets += f" let {v}: {t} = ld(a.src, {off});"
        off += SIZE[t]
    return f"{indent}#[inline(never)]\n{indent}pub unsafe fn {name}(a: &Args, r: &mut Ret) {{{lets} ({expr}).put(a, r) }}\n"


def source():
    o = HEAD + "macro_rules! isa_entries {\n    ($m:ident, $s:ty) => {\n        pub mod $m {\n            use super::*;\n"
    for name, expr, args, _ in OPS:
        o += fn(name, expr, args, " " * 12, "$s")
    o += "        }\n    };\n}\n"
    for arch, isas in (("any(target_arch = \"x86\", target_arch = \"x86_64\")", ["SSE2", "SSSE3", "SSE41", "AVX2"]),
                       ("target_arch = \"aarch64\"", ["NEON"]), ("target_arch = \"wasm32\"", ["WASM128"])):
        for i in isas:
            o += f"#[cfg({arch})]\nisa_entries!(lane_{i.lower()}, isa::{i});\n"
    o += "pub mod lane_plain {\n    use super::*;\n"
    for name, expr, args, _, only in PLAIN:
        if only:
            o += "    #[cfg(any(target_arch = \"x86\", target_arch = \"x86_64\"))]\n"
        o += fn(name, expr, args, "    ")
    o += "}\n"
    return o


build()

if __name__ == "__main__":
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness_lane", "src")
    open(os.path.join(d, "lib.rs"), "w").write(source())
    print(len(OPS), "operations,", len(PLAIN), "plain functions")
