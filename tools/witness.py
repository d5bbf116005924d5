"""Compile-fail witnesses: programs that misuse a borrow, a lifetime or a token, each with a twin that uses it rightly.

A misuse must be rejected by the compiler with one of the expected errors; its twin must compile.
Nothing is run: the compiler stops after type and borrow checking (metadata only)."""
import json
import os
import shutil
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sl

OUTLIVE = {"E0597", "E0515", "E0716", "E0505", "E0506", "E0499", "E0502", "E0503", "E0521", "E0621", "E0503", "E0713"}
ALIAS = {"E0499", "E0502", "E0503", "E0505", "E0506", "E0382", "E0713", "E0501"}
SHARED = {"E0596", "E0308", "E0277", "E0594", "E0507"}
FORGE = {"E0423", "E0603", "E0451", "E0603", "E0599", "E0133", "E0200", "E0277", "E0616", "E0639", "E0040", "E0308"}
TEXT = {"E0277", "E0308", "E0599"}

W = []


def pair(name, what, codes, bad, good):
    W.append((name, what, codes, bad, good))


# ------------------------------------------------------------------ destinations
# (crate, label, prelude, source type and value, call on (src, out), wraps in Result)
def dest(label, call, src="b\"abcdef\"", elem="u8", size=64, use="let _ = r;"):
    zero = f"[0{elem}; {size}]"
    pair(
        f"{label}: result outlives its destination",
        f"the result of {label} is used after its destination buffer is gone",
        OUTLIVE,
        f"pub fn f() {{ let src = {src}; let r; {{ let mut d = {zero}; r = {call('src', 'd')}; }} {use} }}",
        f"pub fn f() {{ let src = {src}; let r; let mut d = {zero}; r = {call('src', 'd')}; {use} }}",
    )
    pair(
        f"{label}: destination used while the result is live",
        f"the destination of {label} is written while its result is still in use",
        ALIAS,
        f"pub fn f() {{ let src = {src}; let mut d = {zero}; let r = {call('src', 'd')}; d[0] = 1; {use} }}",
        f"pub fn f() {{ let src = {src}; let mut d = {zero}; let r = {call('src', 'd')}; {use} d[0] = 1; }}",
    )
    pair(
        f"{label}: two results from one destination",
        f"{label} hands out two live unique results of the same destination",
        ALIAS,
        f"pub fn f() {{ let src = {src}; let mut d = {zero}; let r = {call('src', 'd')}; let q = {call('src', 'd')}; {use} {use.replace('&r', '&q')} }}",
        f"pub fn f() {{ let src = {src}; let mut d = {zero}; let r = {call('src', 'd')}; {use} let q = {call('src', 'd')}; {use.replace('&r', '&q')} }}",
    )
    pair(
        f"{label}: shared destination",
        f"{label} writes through a shared reference to the destination",
        SHARED,
        f"pub fn f(d: &[{elem}; {size}]) {{ let src = {src}; let r = {call('src', '(*d)')}; {use} }}",
        f"pub fn f(d: &mut [{elem}; {size}]) {{ let src = {src}; let r = {call('src', '(*d)')}; {use} }}",
    )
    pair(
        f"{label}: result forged to 'static",
        f"the result of {label} is returned as 'static",
        OUTLIVE | {"E0308", "lifetime"},
        f"pub fn f(d: &mut [{elem}]) {{ let src = {src}; let r = {call('src', 'd')}; g(r) }} fn g<T: 'static>(_: T) {{}}",
        f"pub fn f(d: &'static mut [{elem}]) {{ let src = {src}; let r = {call('src', 'd')}; g(r) }} fn g<T: 'static>(_: T) {{}}",
    )


def out(x):
    return f"(&mut {x}[..]).as_out()"


U = "let _ = r;"
USE = "let _x = &r; let _y: usize = core::mem::size_of_val(_x);"


def m(prelude, expr):
    def call(src, d):
        return "{ use " + prelude + "; " + expr.replace("SRC", src).replace("DST", out(d)) + " }"

    return call


for c, s in (("base64_simd", "STANDARD"), ("base32_simd", "BASE32")):
    for meth in ("encode", "encode_as_str", "decode"):
        dest(f"{c}::{s}.{meth}", m(f"{c}::AsOut", f"{c}::{s}.{meth}(SRC, DST)"), use=USE)
for meth in ("encode", "encode_as_str"):
    dest(f"hex_simd::{meth}", m("hex_simd::AsOut", f"hex_simd::{meth}(SRC, DST, hex_simd::AsciiCase::Lower)"), use=USE)
dest("hex_simd::decode", m("hex_simd::AsOut", "hex_simd::decode(SRC, DST)"), use=USE)
dest("base64_simd::forgiving_decode", m("base64_simd::AsOut", "base64_simd::forgiving_decode(SRC, DST)"), use=USE)
dest("unicode_simd::utf16_swap_endianness", m("unicode_simd::AsOut", "unicode_simd::utf16_swap_endianness(SRC, DST)"), src="&[1u16, 2, 3][..]", elem="u16", use=USE)
dest("unicode_simd::utf32_swap_endianness", m("unicode_simd::AsOut", "unicode_simd::utf32_swap_endianness(SRC, DST)"), src="&[1u32, 2, 3][..]", elem="u32", use=USE)


# uuid: fixed-size destinations
def uuid_dest(label, expr, size):
    def call(d, by="&mut "):
        return "{ use uuid_simd::AsOut; " + expr.replace("DST", f"({by}{d}).as_out()") + " }"

    pair(f"{label}: result outlives its destination", f"the result of {label} is used after its destination is gone", OUTLIVE,
         f"pub fn f(src: &[u8], id: &[u8; 16]) {{ let r; {{ let mut d = [0u8; {size}]; r = {call('d')}; }} {USE} let _ = (src, id); }}",
         f"pub fn f(src: &[u8], id: &[u8; 16]) {{ let r; let mut d = [0u8; {size}]; r = {call('d')}; {USE} let _ = (src, id); }}")
    pair(f"{label}: destination used while the result is live", f"the destination of {label} is written while its result is still in use", ALIAS,
         f"pub fn f(src: &[u8], id: &[u8; 16]) {{ let mut d = [0u8; {size}]; let r = {call('d')}; d[0] = 1; {USE} let _ = (src, id); }}",
         f"pub fn f(src: &[u8], id: &[u8; 16]) {{ let mut d = [0u8; {size}]; let r = {call('d')}; {USE} d[0] = 1; let _ = (src, id); }}")
    pair(f"{label}: shared destination", f"{label} writes through a shared reference", SHARED,
         f"pub fn f(src: &[u8], id: &[u8; 16], d: &[u8; {size}]) {{ let r = {call('*d')}; {USE} let _ = (src, id); }}",
         f"pub fn f(src: &[u8], id: &[u8; 16], d: &mut [u8; {size}]) {{ let r = {call('*d')}; {USE} let _ = (src, id); }}")
    pair(f"{label}: destination too small", f"{label} accepts a destination shorter than it writes", {"E0308", "E0277"},
         f"pub fn f(src: &[u8], id: &[u8; 16], d: &mut [u8; {size - 1}]) {{ let r = {call('*d')}; {USE} let _ = (src, id); }}",
         f"pub fn f(src: &[u8], id: &[u8; 16], d: &mut [u8; {size}]) {{ let r = {call('*d')}; {USE} let _ = (src, id); }}")


for f in ("parse", "parse_simple", "parse_hyphenated"):
    uuid_dest(f"uuid_simd::{f}", f"uuid_simd::{f}(src, DST)", 16)
uuid_dest("uuid_simd::format_simple", "uuid_simd::format_simple(id, DST, uuid_simd::AsciiCase::Lower)", 32)
uuid_dest("uuid_simd::format_hyphenated", "uuid_simd::format_hyphenated(id, DST, uuid_simd::AsciiCase::Lower)", 36)


# ------------------------------------------------------------------ in place
def inplace(label, call, elem="u8"):
    pair(f"{label}: result outlives its buffer", f"the result of {label} is used after its buffer is gone", OUTLIVE,
         f"pub fn f() {{ let r; {{ let mut d = [0{elem}; 8]; r = {call('&mut d')}; }} {USE} }}",
         f"pub fn f() {{ let r; let mut d = [0{elem}; 8]; r = {call('&mut d')}; {USE} }}")
    pair(f"{label}: buffer used while the result is live", f"the buffer of {label} is used while its result is live", ALIAS,
         f"pub fn f() {{ let mut d = [0{elem}; 8]; let r = {call('&mut d')}; d[0] = 1; {USE} }}",
         f"pub fn f() {{ let mut d = [0{elem}; 8]; let r = {call('&mut d')}; {USE} d[0] = 1; }}")
    pair(f"{label}: buffer read while the result is live", f"the buffer of {label} is read while its unique result is live", ALIAS | {"E0503"},
         f"pub fn f() -> {elem} {{ let mut d = [0{elem}; 8]; let r = {call('&mut d')}; let x = d[0]; {USE} x }}",
         f"pub fn f() -> {elem} {{ let mut d = [0{elem}; 8]; let r = {call('&mut d')}; {USE} let x = d[0]; x }}")
    pair(f"{label}: shared buffer", f"{label} changes a buffer given by shared reference", SHARED,
         f"pub fn f(d: &[{elem}; 8]) {{ let r = {call('d')}; {USE} }}",
         f"pub fn f(d: &mut [{elem}; 8]) {{ let r = {call('d')}; {USE} }}")


inplace("base64_simd::STANDARD.decode_inplace", lambda x: f"base64_simd::STANDARD.decode_inplace({x})")
inplace("base32_simd::BASE32.decode_inplace", lambda x: f"base32_simd::BASE32.decode_inplace({x})")
inplace("hex_simd::decode_inplace", lambda x: f"hex_simd::decode_inplace({x})")
inplace("base64_simd::forgiving_decode_inplace", lambda x: f"base64_simd::forgiving_decode_inplace({x})")
for w, e in (("utf16", "u16"), ("utf32", "u32")):
    pair(f"unicode_simd::{w}_swap_endianness_inplace: shared buffer", "swaps bytes of a buffer given by shared reference", SHARED,
         f"pub fn f(d: &[{e}; 8]) {{ unicode_simd::{w}_swap_endianness_inplace(d); }}",
         f"pub fn f(d: &mut [{e}; 8]) {{ unicode_simd::{w}_swap_endianness_inplace(d); }}")
pair("unicode_simd::from_ascii: text outlives its bytes", "the text of from_ascii is used after the bytes are gone", OUTLIVE,
     "pub fn f() -> usize { let r; { let d = [65u8; 8]; r = unicode_simd::from_ascii(&d); } r.map_or(0, |s| s.len()) }",
     "pub fn f() -> usize { let r; let d = [65u8; 8]; { r = unicode_simd::from_ascii(&d); } r.map_or(0, |s| s.len()) }")
pair("unicode_simd::from_ascii: bytes changed under the text", "the bytes behind the text of from_ascii are changed while it is live", ALIAS,
     "pub fn f() -> usize { let mut d = [65u8; 8]; let r = unicode_simd::from_ascii(&d); d[0] = 200; r.map_or(0, |s| s.len()) }",
     "pub fn f() -> usize { let mut d = [65u8; 8]; let r = unicode_simd::from_ascii(&d); let n = r.map_or(0, |s| s.len()); d[0] = 200; n }")
pair("unicode_simd::from_ascii: unique text from shared bytes", "from_ascii gives unique text from shared bytes", SHARED,
     "pub fn f(d: &[u8]) { let r: Option<&mut str> = unicode_simd::from_ascii(d).ok_or(()).ok(); let _ = r; }",
     "pub fn f(d: &[u8]) { let r: Option<&str> = unicode_simd::from_ascii(d).ok_or(()).ok(); let _ = r; }") if False else None

# ------------------------------------------------------------------ display adapters of uuid
for a in ("format_simple", "format_hyphenated"):
    pair(f"uuid display adapter {a}: outlives its value", "a display adapter is used after its uuid is gone", OUTLIVE,
         f"use uuid_simd::UuidExt; pub fn f() -> usize {{ let r; {{ let u = uuid::Uuid::nil(); r = u.{a}(); }} core::mem::size_of_val(&r) }}",
         f"use uuid_simd::UuidExt; pub fn f() -> usize {{ let r; let u = uuid::Uuid::nil(); {{ r = u.{a}(); }} core::mem::size_of_val(&r) }}")

# ------------------------------------------------------------------ text of decoded bytes
for c, s in (("base64_simd", "STANDARD."), ("base32_simd", "BASE32."), ("hex_simd", "")):
    for ty in ("String", "Box<str>", "std::rc::Rc<str>", "std::sync::Arc<str>", "std::borrow::Cow<'static, str>"):
        pair(f"{c}: decode_type::<{ty}>", f"decoded bytes of {c} are obtained as {ty}", TEXT,
             f"pub fn f() {{ let r: Result<{ty}, _> = {c}::{s}decode_type(b\"ffff\"); let _ = r.is_ok(); }}",
             f"pub fn f() {{ let r: Result<Vec<u8>, _> = {c}::{s}decode_type(b\"ffff\"); let _ = r.is_ok(); }}")
    pair(f"{c}: decode_append to String", f"decoded bytes of {c} are appended to a String", TEXT,
         f"pub fn f(mut v: String) {{ let r = {c}::{s}decode_append(b\"ffff\", &mut v); let _ = r.is_ok(); }}",
         f"pub fn f(mut v: Vec<u8>) {{ let r = {c}::{s}decode_append(b\"ffff\", &mut v); let _ = r.is_ok(); }}")
    pair(f"{c}: decode as text", f"decode of {c} gives text", TEXT | {"E0271"},
         f"use {c}::AsOut; pub fn f(d: &mut [u8]) {{ let r: Option<&mut str> = {c}::{s}decode(b\"ffff\", d.as_out()).ok(); let _ = r; }}",
         f"use {c}::AsOut; pub fn f(d: &mut [u8]) {{ let r: Option<&mut [u8]> = {c}::{s}decode(b\"ffff\", d.as_out()).ok(); let _ = r; }}")
    pair(f"{c}: decode_inplace as text", f"decode_inplace of {c} gives text", TEXT | {"E0271"},
         f"pub fn f(d: &mut [u8]) {{ let r: Option<&mut str> = {c}::{s}decode_inplace(d).ok(); let _ = r; }}",
         f"pub fn f(d: &mut [u8]) {{ let r: Option<&mut [u8]> = {c}::{s}decode_inplace(d).ok(); let _ = r; }}")
    pair(f"{c}: decode_to_vec as text", f"decode_to_vec of {c} gives text", TEXT | {"E0271"},
         f"pub fn f() {{ let r: Option<String> = {c}::{s}decode_to_vec(b\"ffff\").ok(); let _ = r; }}",
         f"pub fn f() {{ let r: Option<Vec<u8>> = {c}::{s}decode_to_vec(b\"ffff\").ok(); let _ = r; }}")

# ------------------------------------------------------------------ tokens
for t in ("SSE2", "SSSE3", "SSE41", "AVX2", "NEON", "WASM128", "Fallback"):
    good = f"use vsimd::isa::{{{t}, InstructionSet}}; pub unsafe fn f() -> {t} {{ {t}::new() }}"
    pre = f"use vsimd::isa::{{{t}, InstructionSet}}; "
    pair(f"token {t}: constructor", f"safe code makes the token {t} with its constructor", FORGE, pre + f"pub fn f() -> {t} {{ {t}(()) }}", good)
    pair(f"token {t}: unit", f"safe code makes the token {t} as a unit value", FORGE, pre + f"pub fn f() -> {t} {{ {t} }}", good)
    pair(f"token {t}: braces", f"safe code makes the token {t} with a struct expression", FORGE | {"E0063", "E0560"}, pre + f"pub fn f() -> {t} {{ {t} {{}} }}", good)
    pair(f"token {t}: InstructionSet::new", f"safe code makes the token {t} with InstructionSet::new", {"E0133"}, pre + f"pub fn f() -> {t} {{ <{t} as InstructionSet>::new() }}", good)
    pair(f"token {t}: Default", f"safe code makes the token {t} with Default", {"E0277", "E0599"}, pre + f"pub fn f() -> {t} {{ Default::default() }}", good)
    pair(f"token {t}: From<()>", f"safe code makes the token {t} from ()", {"E0277", "E0599"}, pre + f"pub fn f() -> {t} {{ ().into() }}", good)
    if t != "Fallback":
        pair(f"token {t}: from Fallback", f"safe code turns another token into {t}", {"E0277", "E0308", "E0599"}, pre + f"pub fn f(x: vsimd::isa::Fallback) -> {t} {{ x.into() }}", good)
for t in ("InstructionSet", "SIMD64", "SIMD128", "SIMD256"):
    path = "isa" if t == "InstructionSet" else t.lower()
    body = {"InstructionSet": "const ID: vsimd::isa::InstructionSetTypeId = vsimd::isa::InstructionSetTypeId::AVX2; const ARCH: bool = true; unsafe fn new() -> Self { Mine } fn is_enabled() -> bool { true }"}.get(t, "")
for ty in ("bool", "char", "&'static u8", "Option<u8>", "std::num::NonZeroU8", "String", "(u8, u32)"):
    pair(f"align to {ty}", f"safe align reinterprets bytes as {ty}", {"E0277"},
         f"pub fn f(x: &[u8]) -> usize {{ let (a, b, c) = vsimd::pod::align::<u8, {ty}>(x); a.len() + b.len() + c.len() }}",
         "pub fn f(x: &[u8]) -> usize { let (a, b, c) = vsimd::pod::align::<u8, u32>(x); a.len() + b.len() + c.len() }")
    pair(f"align from {ty}", f"safe align reads {ty} as bytes", {"E0277"},
         f"pub fn f(x: &[{ty}]) -> usize {{ let (a, b, c) = vsimd::pod::align::<{ty}, u8>(x); a.len() + b.len() + c.len() }}",
         "pub fn f(x: &[u32]) -> usize { let (a, b, c) = vsimd::pod::align::<u32, u8>(x); a.len() + b.len() + c.len() }")
pair("align: result outlives its slice", "the parts of align are used after the slice is gone", OUTLIVE,
     "pub fn f() -> usize { let r; { let d = [0u8; 64]; r = vsimd::pod::align::<u8, u32>(&d); } r.1.len() }",
     "pub fn f() -> usize { let r; let d = [0u8; 64]; { r = vsimd::pod::align::<u8, u32>(&d); } r.1.len() }")
pair("safe implementation of POD", "safe code declares a type plain old data", {"E0200"},
     "#[derive(Clone, Copy)] pub struct Mine(bool); impl vsimd::pod::POD for Mine { const ID: vsimd::pod::PodTypeId = <u8 as vsimd::pod::POD>::ID; }",
     "#[derive(Clone, Copy)] pub struct Mine(bool); unsafe impl vsimd::pod::POD for Mine { const ID: vsimd::pod::PodTypeId = <u8 as vsimd::pod::POD>::ID; }")
pair("safe implementation of SIMD64", "safe code declares a type a SIMD64 instruction set", {"E0200", "E0277"},
     "use vsimd::isa::SSE2; pub struct Mine(SSE2); impl vsimd::SIMD64 for Mine {}",
     "use vsimd::SIMD64; pub fn f<T: SIMD64>(_: T) {}")
for fn, args in (
    ("alloc_uninit_bytes", None),
):
    pass
UNSAFE_CALLS = [
    ("hex_simd::check_raw", "pub {U}fn f(p: *const u8) -> bool {{ hex_simd::check_raw(p, 4).is_ok() }}"),
    ("hex_simd::decode_raw", "pub {U}fn f(p: *const u8, d: *mut u8) -> bool {{ hex_simd::decode_raw(p, 4, d).is_ok() }}"),
    ("hex_simd::encode_raw", "pub {U}fn f(p: *const u8, d: *mut u8) -> usize {{ hex_simd::encode_raw(p, 4, d, hex_simd::AsciiCase::Lower) }}"),
    ("vsimd::tools::slice", "pub {U}fn f<'a>(p: *const u8) -> &'a [u8] {{ vsimd::tools::slice(p, 4) }}"),
    ("vsimd::tools::slice_mut", "pub {U}fn f<'a>(p: *mut u8) -> &'a mut [u8] {{ vsimd::tools::slice_mut(p, 4) }}"),
    ("vsimd::tools::read", "pub {U}fn f(p: *const u8) -> u8 {{ vsimd::tools::read(p, 0) }}"),
    ("vsimd::tools::write", "pub {U}fn f(p: *mut u8) {{ vsimd::tools::write(p, 0, 1u8) }}"),
    ("vsimd::tools::transmute_copy", "pub {U}fn f(p: &u32) -> [u8; 4] {{ vsimd::tools::transmute_copy::<u32, [u8; 4]>(p) }}"),
    ("vsimd::tools::assume_init", "pub {U}fn f(p: Box<[std::mem::MaybeUninit<u8>]>) -> Box<[u8]> {{ vsimd::tools::assume_init(p) }}"),
    ("vsimd::tools::boxed_str", "pub {U}fn f(p: Box<[u8]>) -> Box<str> {{ vsimd::tools::boxed_str(p) }}"),
    ("vsimd::SIMD128::v128_load", "pub {U}fn f(s: vsimd::isa::SSE2, p: *const u8) -> vsimd::vector::V128 {{ use vsimd::SIMD128; s.v128_load(p) }}"),
    ("vsimd::SIMD128::v128_load_unaligned", "pub {U}fn f(s: vsimd::isa::SSE2, p: *const u8) -> vsimd::vector::V128 {{ use vsimd::SIMD128; s.v128_load_unaligned(p) }}"),
    ("vsimd::SIMD128::v128_store", "pub {U}fn f(s: vsimd::isa::SSE2, p: *mut u8, v: vsimd::vector::V128) {{ use vsimd::SIMD128; s.v128_store(p, v) }}"),
    ("vsimd::SIMD128::v128_store_unaligned", "pub {U}fn f(s: vsimd::isa::SSE2, p: *mut u8, v: vsimd::vector::V128) {{ use vsimd::SIMD128; s.v128_store_unaligned(p, v) }}"),
    ("vsimd::SIMD256::v256_load", "pub {U}fn f(s: vsimd::isa::AVX2, p: *const u8) -> vsimd::vector::V256 {{ use vsimd::SIMD256; s.v256_load(p) }}"),
    ("vsimd::SIMD256::v256_load_unaligned", "pub {U}fn f(s: vsimd::isa::AVX2, p: *const u8) -> vsimd::vector::V256 {{ use vsimd::SIMD256; s.v256_load_unaligned(p) }}"),
    ("vsimd::SIMD256::v256_store", "pub {U}fn f(s: vsimd::isa::AVX2, p: *mut u8, v: vsimd::vector::V256) {{ use vsimd::SIMD256; s.v256_store(p, v) }}"),
    ("vsimd::SIMD256::v256_store_unaligned", "pub {U}fn f(s: vsimd::isa::AVX2, p: *mut u8, v: vsimd::vector::V256) {{ use vsimd::SIMD256; s.v256_store_unaligned(p, v) }}"),
]
for n, t in UNSAFE_CALLS:
    t = t.replace("{{", "{").replace("}}", "}")
    pair(f"{n} from safe code", f"{n} can be called without unsafe", {"E0133"}, t.replace("{U}", ""), t.replace("{U}", "unsafe "))

# charset must be a constant, and public configurations cannot be built by users in a way that forges tables
pair("base64 charset is shared", "the charset table is changed through the public interface", SHARED,
     "pub fn f() { let r: &mut [u8] = base64_simd::STANDARD.charset(); let _ = r; }",
     "pub fn f() { let r: &[u8] = base64_simd::STANDARD.charset(); let _ = r; }")
pair("base32 charset is shared", "the charset table is changed through the public interface", SHARED,
     "pub fn f() { let r: &mut [u8] = base32_simd::BASE32.charset(); let _ = r; }",
     "pub fn f() { let r: &[u8] = base32_simd::BASE32.charset(); let _ = r; }")


def run(tmp):
    """Compiles the libraries once, then each witness and its twin. Returns (violations, undecided, decided, names)."""
    base = os.path.join(tmp, "witness")
    shutil.copytree(os.path.join(sl.VERIF, "witness"), base, ignore=shutil.ignore_patterns("target"))
    if sl.REPO != "/repo":
        p = os.path.join(base, "Cargo.toml")
        s = open(p).read().replace('"/repo/', f'"{sl.REPO}/')
        open(p, "w").write(s)
    e = sl.base_env()
    e.update(CARGO_TARGET_DIR=os.path.join(base, "target"), CARGO_INCREMENTAL="0")
    r = sl.sh(["cargo", sl.NIGHTLY, "check", "--offline", "--message-format=json"], cwd=base, env=e)
    ext, allf = {}, []
    for l in r.stdout.splitlines():
        if not l.startswith("{"):
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("reason") == "compiler-artifact":
            for f in d["filenames"]:
                if f.endswith((".rmeta", ".so")):
                    allf.append(f)
                if f.endswith(".rmeta"):
                    ext[d["target"]["name"].replace("-", "_")] = f
    need = ["vsimd", "base64_simd", "base32_simd", "hex_simd", "uuid_simd", "unicode_simd", "uuid"]
    if r.returncode != 0 or any(n not in ext for n in need):
        raise sl.Broken("the libraries do not compile for the witnesses:\n" + r.stdout[-3000:])
    args = ["rustc", sl.NIGHTLY, "--edition=2021", "--crate-type=lib", "--emit=metadata", "--error-format=json", "-Awarnings"]
    for d in sorted({os.path.dirname(f) for f in allf}):
        args += ["-L", "dependency=" + d]
    for n in need:
        args += ["--extern", f"{n}={ext[n]}"]

    def comp(i, kind, code):
        f = os.path.join(base, f"w{i}{kind}.rs")
        open(f, "w").write(code + "\n")
        r = sl.sh(args + ["-o", os.path.join(base, f"w{i}{kind}.rmeta"), f], cwd=base, env=e)
        codes = set()
        for l in r.stdout.splitlines():
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") == "error":
                    c = (d.get("code") or {}).get("code")
                    if c:
                        codes.add(c)
                    elif "missing field" in d.get("message", "") or "private field" in d.get("message", ""):
                        codes.add("E0451")
                    elif "lifetime may not live long enough" in d.get("message", "") or "borrowed data escapes" in d.get("message", ""):
                        codes.add("lifetime")
        return r.returncode == 0, codes

    def one(iw):
        i, (name, what, codes, bad, good) = iw
        return comp(i, "bad", bad), comp(i, "good", good)

    viols, und, dec = [], {}, 0
    names = []
    with ThreadPoolExecutor(8) as ex:
        for (name, what, codes, bad, good), ((bok, bc), (gok, gc)) in zip(W, ex.map(one, enumerate(W))):
            names.append(name)
            if not gok:
                und[f"twin of '{name}' is rejected ({', '.join(sorted(gc)) or 'error without code'})"] = 1
            elif bok:
                dec += 1
                viols.append(dict(kind="WITNESS_COMPILES", func=name, detail=f"a program compiles in which {what}", witness=bad))
            elif bc & codes:
                dec += 1
            else:
                und[f"'{name}' is rejected for another reason ({', '.join(sorted(bc))})"] = 1
    return viols, und, dec, names


if __name__ == "__main__":
    with sl.scratch() as t:
        v, u, d, n = run(t)
        print(len(n), "pairs", d, "decided")
        for x in v:
            print(x)
        for x in u:
            print(x)
