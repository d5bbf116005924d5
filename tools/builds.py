"""Feature matrix: each crate, alone, in each combination of its features, against a sysroot that holds nothing but what the
combination allows (core; core and alloc; the whole of std), together with a client that names the documented interface.

Nothing is run or linked: the compiler stops after type checking (metadata only). With `-Zbuild-std=core` there is no alloc
and no std crate to be found, so a use of either anywhere in the crate or in a dependency is an error of name resolution."""
import json
import os
import re
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sl

# ---------------------------------------------------------------- clients
CORE = {
    "vsimd": """
pub fn api(s: &[u8]) -> bool {
    use vsimd::isa::InstructionSet;
    let _ = vsimd::tools::slice_parts(s);
    let _ = vsimd::hex::unhex(b'a');
    let _ = vsimd::vector::V256::from_bytes([0; 32]).to_v128x2();
    vsimd::isa::Fallback::is_enabled()
}
""",
    "base64-simd": """
use base64_simd::{AsOut, Base64, Error, Out, STANDARD, STANDARD_NO_PAD, URL_SAFE, URL_SAFE_NO_PAD};
pub const N: usize = STANDARD.encoded_length(10) + URL_SAFE.estimated_decoded_length(10);
pub const C: &[u8; 64] = URL_SAFE_NO_PAD.charset();
pub fn api<'d>(v: &Base64, s: &[u8], d: &'d mut [u8], o: Out<'d, [u8]>) -> Result<&'d mut str, Error> {
    let _ = STANDARD_NO_PAD.decoded_length(s)?;
    v.check(s)?;
    let _ = v.encode(s, d.as_out())?;
    let _ = v.decode(s, d.as_out())?;
    let _ = v.decode_inplace(d)?;
    let _ = base64_simd::forgiving_decode(s, d.as_out())?;
    let _ = base64_simd::forgiving_decode_inplace(d)?;
    v.encode_as_str(s, o)
}
pub fn shows(e: &Error) -> impl core::fmt::Display + core::fmt::Debug + '_ { struct W<'a>(&'a Error); impl core::fmt::Display for W<'_> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Display::fmt(self.0, f) } } impl core::fmt::Debug for W<'_> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Debug::fmt(self.0, f) } } W(e) }
""",
    "base32-simd": """
use base32_simd::{AsOut, Base32, Error, Out, BASE32, BASE32HEX, BASE32HEX_NO_PAD, BASE32_NO_PAD};
pub const N: usize = BASE32.encoded_length(10) + BASE32HEX.estimated_decoded_length(10);
pub fn api<'d>(v: &Base32, s: &[u8], d: &'d mut [u8], o: Out<'d, [u8]>) -> Result<&'d mut str, Error> {
    let _: &[u8; 32] = BASE32HEX_NO_PAD.charset();
    let _ = BASE32_NO_PAD.decoded_length(s)?;
    v.check(s)?;
    let _ = v.encode(s, d.as_out())?;
    let _ = v.decode(s, d.as_out())?;
    let _ = v.decode_inplace(d)?;
    v.encode_as_str(s, o)
}
""",
    "hex-simd": """
use hex_simd::{AsOut, AsciiCase, Error, Out};
pub const N: usize = hex_simd::encoded_length(10);
pub fn api<'d>(s: &[u8], d: &'d mut [u8], o: Out<'d, [u8]>) -> Result<&'d mut str, Error> {
    let _ = hex_simd::decoded_length(s.len())?;
    hex_simd::check(s)?;
    let _ = hex_simd::encode(s, d.as_out(), AsciiCase::Upper)?;
    let _ = hex_simd::decode(s, d.as_out())?;
    let _ = hex_simd::decode_inplace(d)?;
    let (p, n, q) = (s.as_ptr(), s.len(), d.as_mut_ptr());
    unsafe {
        hex_simd::check_raw(p, n)?;
        let _: usize = hex_simd::encode_raw(p, n, q, AsciiCase::Lower);
        let _: usize = hex_simd::decode_raw(p, n, q)?;
    }
    hex_simd::encode_as_str(s, o, AsciiCase::Lower)
}
""",
    "unicode-simd": """
use unicode_simd::AsOut;
pub fn api(a: &[u8], b: &mut [u16], c: &mut [u32], sb: &[u16], sc: &[u32]) -> bool {
    let _: Option<&str> = unicode_simd::from_ascii(a);
    unicode_simd::utf16_swap_endianness_inplace(b);
    unicode_simd::utf32_swap_endianness_inplace(c);
    let _ = unicode_simd::utf16_swap_endianness(sb, b.as_out());
    let _ = unicode_simd::utf32_swap_endianness(sc, c.as_out());
    unicode_simd::is_ascii(a) && unicode_simd::is_utf32le(sc)
}
""",
    "uuid-simd": """
use uuid_simd::{AsOut, AsciiCase, Error};
pub fn api(s: &[u8], d: &mut [u8; 16], a: &mut [u8; 32], b: &mut [u8; 36]) -> Result<(), Error> {
    let _ = uuid_simd::parse(s, d.as_out())?;
    let _ = uuid_simd::parse_simple(s, d.as_out())?;
    let _ = uuid_simd::parse_hyphenated(s, d.as_out())?;
    let _ = uuid_simd::format_simple(&*d, a.as_out(), AsciiCase::Lower);
    let _ = uuid_simd::format_hyphenated(&*d, b.as_out(), AsciiCase::Upper);
    Ok(())
}
""",
}
ALLOC = {
    "vsimd": """
extern crate alloc;
pub unsafe fn heap() -> alloc::boxed::Box<str> {
    vsimd::tools::boxed_str(vsimd::tools::assume_init(vsimd::tools::alloc_uninit_bytes(1)))
}
""",
    "base64-simd": """
extern crate alloc;
use alloc::{boxed::Box, string::String, vec::Vec};
pub fn heap(v: &Base64, s: &[u8], st: &mut String, ve: &mut Vec<u8>) -> Result<Vec<u8>, Error> {
    let _: String = v.encode_to_string(s);
    let _: Vec<u8> = v.decode_to_vec(s)?;
    let _ = (v.encode_type::<String>(s), v.encode_type::<Vec<u8>>(s), v.encode_type::<Box<str>>(s), v.encode_type::<Box<[u8]>>(s));
    let _ = (v.decode_type::<Vec<u8>>(s)?, v.decode_type::<Box<[u8]>>(s)?);
    v.encode_append(s, st);
    v.encode_append(s, ve);
    v.decode_append(s, ve)?;
    base64_simd::forgiving_decode_to_vec(s)
}
""",
    "base32-simd": """
extern crate alloc;
use alloc::{boxed::Box, string::String, vec::Vec};
pub fn heap(v: &Base32, s: &[u8], st: &mut String, ve: &mut Vec<u8>) -> Result<(), Error> {
    let _: String = v.encode_to_string(s);
    let _: Vec<u8> = v.decode_to_vec(s)?;
    let _ = (v.encode_type::<String>(s), v.encode_type::<Vec<u8>>(s), v.encode_type::<Box<str>>(s), v.encode_type::<Box<[u8]>>(s));
    let _ = (v.decode_type::<Vec<u8>>(s)?, v.decode_type::<Box<[u8]>>(s)?);
    v.encode_append(s, st);
    v.encode_append(s, ve);
    v.decode_append(s, ve)
}
""",
    "hex-simd": """
extern crate alloc;
use alloc::{boxed::Box, string::String, vec::Vec};
pub fn heap(s: &[u8], st: &mut String, ve: &mut Vec<u8>) -> Result<(), Error> {
    let c = AsciiCase::Lower;
    let _: String = hex_simd::encode_to_string(s, c);
    let _: Vec<u8> = hex_simd::decode_to_vec(s)?;
    let _ = (hex_simd::encode_type::<String>(s, c), hex_simd::encode_type::<Vec<u8>>(s, c));
    let _ = (hex_simd::encode_type::<Box<str>>(s, c), hex_simd::encode_type::<Box<[u8]>>(s, c));
    let _ = (hex_simd::decode_type::<Vec<u8>>(s)?, hex_simd::decode_type::<Box<[u8]>>(s)?);
    hex_simd::encode_append(s, st, c);
    hex_simd::encode_append(s, ve, c);
    hex_simd::decode_append(s, ve)
}
""",
}
UUID = """
use uuid_simd::UuidExt;
pub fn ext(u: &uuid::Uuid, s: &[u8], f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
    let _ = uuid::Uuid::parse(s).map_err(|_: Error| core::fmt::Error)?;
    let _ = uuid::Uuid::parse_simple(s).map_err(|_: Error| core::fmt::Error)?;
    let _ = uuid::Uuid::parse_hyphenated(s).map_err(|_: Error| core::fmt::Error)?;
    let (a, b) = (UuidExt::format_simple(u), UuidExt::format_hyphenated(u));
    core::fmt::LowerHex::fmt(&a, f)?;
    core::fmt::UpperHex::fmt(&a, f)?;
    core::fmt::Display::fmt(&a, f)?;
    core::fmt::LowerHex::fmt(&b, f)?;
    core::fmt::UpperHex::fmt(&b, f)?;
    core::fmt::Display::fmt(&b, f)
}
"""
STD = """
pub fn is_error() { fn e<T: std::error::Error + Send + Sync + 'static>() {} e::<Error>() }
"""
PAR = """
pub fn par<'d>(v: &Base64, s: &[u8], o: Out<'d, [u8]>) -> Result<&'d mut [u8], Error> { v.par_encode(s, o) }
"""
HAS_ERROR = ("base64-simd", "base32-simd", "hex-simd", "uuid-simd")
CRATES = list(CORE)
SETS = [(), ("alloc",), ("std",), ("detect",), ("alloc", "detect"), ("std", "detect")]
JSON = f"{sl.VERIF}/tools/targets/wasm32-bare.json"
# (x86-64 is checked with the musl triple, for which no ready-made std is installed that could be picked up by accident;
# `host` is the installed stable toolchain with its own std)
# name -> (target, sysroots it can be checked against, rustc flags)
TARGETS = {
    "x86_64": ("x86_64-unknown-linux-musl", ("core", "alloc", "host"), ""),
    "aarch64": ("aarch64-unknown-linux-gnu", ("core", "alloc", "std"), ""),
    "wasm32": (JSON, ("core", "alloc"), ""),
    "wasm32+simd128": (JSON, ("core", "alloc"), "-Ctarget-feature=+simd128"),
    "x86_64+avx2": ("x86_64-unknown-linux-musl", ("core", "alloc"), "-Ctarget-feature=+avx2"),
    "i586": ("i586-unknown-linux-gnu", ("core", "alloc", "std"), ""),
    "armv7": ("armv7-unknown-linux-gnueabihf", ("core", "alloc", "std"), ""),
    "mips64": ("mips64-unknown-linux-gnuabi64", ("core", "alloc"), ""),
}
UNSTABLE = "x86_64 (nightly-2025-06-20)"  # the newest installed toolchain the `unstable` feature is written for
TARGETS[UNSTABLE] = (None, ("host",), "")
USETS = [("unstable",), ("alloc", "unstable"), ("std", "unstable"), ("std", "detect", "unstable")]
QUICK = [UNSTABLE, "x86_64", "aarch64", "wasm32", "wasm32+simd128", "i586"]


def needs(fs):
    """The most the combination may draw on."""
    if "std" in fs or "detect" in fs:
        return "std"
    return "alloc" if "alloc" in fs else "core"


def client(crate, fs):
    s = CORE[crate]
    if "alloc" in fs or "std" in fs:
        s += ALLOC.get(crate, "")
    if "uuid" in fs:
        s += UUID
    if "parallel" in fs:
        s += PAR
    if "std" in fs and crate in HAS_ERROR:
        s += STD
    return ("" if "std" in fs else "#![no_std]\n") + s


def toml(crate, fs):
    fl = ", ".join(f'"{f}"' for f in fs if f[0] != "+")
    d = f'{crate} = {{ path = "{sl.REPO}/crates/{crate}", default-features = false, features = [{fl}] }}\n'
    if "uuid" in fs:
        d += 'uuid = { version = "1.3.0", default-features = false }\n'
    return f'[package]\nname = "client"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n{d}'


def run(tmp, targets):
    """-> (violations, reasons for undecided, decided combinations, all combinations)"""
    lock = open(os.path.join(sl.VERIF, "harness", "Cargo.lock")).read()
    combos = []
    for c in CRATES:
        for fs in SETS:
            combos.append((c, fs))
            if c == "uuid-simd":
                combos.append((c, fs + ("uuid",)))
                if needs(fs) != "std":
                    # the crate itself is free of std, whatever its dependency does
                    combos.append((c, fs + ("uuid", "+std")))

    def combos_of(t):
        if t != UNSTABLE:
            return combos
        return [(c, fs) for c in CRATES for fs in USETS + ([("parallel",), ("std", "detect", "parallel")] if c == "base64-simd" else [])] + [
            ("uuid-simd", ("std", "detect", "unstable", "uuid"))]

    def target(t):
        triple, roots, flags = TARGETS[t]
        viols, und, done = [], {}, []
        warm = set()
        for root in ("core", "alloc", "std", "host"):
            for c, fs in combos_of(t):
                lvl = needs(fs) if fs[-1:] != ("+std",) and t != UNSTABLE else "std"
                r = lvl if lvl in roots else "host" if lvl == "std" and "host" in roots else None
                if r != root:
                    continue
                base = os.path.join(tmp, "b27", t, f"{c}-{'-'.join(fs) or 'none'}")
                os.makedirs(os.path.join(base, "src"))
                open(os.path.join(base, "Cargo.toml"), "w").write(toml(c, fs))
                open(os.path.join(base, "src", "lib.rs"), "w").write(client(c, fs))
                open(os.path.join(base, "Cargo.lock"), "w").write(lock)
                e = sl.base_env()
                e["CARGO_TARGET_DIR"] = os.path.join(tmp, "b27", t, "target-" + root)
                e["CARGO_INCREMENTAL"] = "0"
                e["RUSTFLAGS"] = ("-Awarnings " + flags).strip()
                a = ["cargo"]
                if t == UNSTABLE:
                    a += ["+nightly-2025-06-20"]
                elif root != "host":
                    a += [sl.NIGHTLY]
                a += ["check", "--offline", "--message-format=json", "--lib"]
                if root != "host":
                    a += ["-Zbuild-std=" + {"core": "core", "alloc": "core,alloc", "std": "std"}[root], "--target", triple]
                    if triple.endswith(".json"):
                        a += ["-Zjson-target-spec"]
                p = sl.sh(a, cwd=base, env=e)
                label = f"{c} [{', '.join(fs) or 'no features'}] on {t} against {'std' if root == 'host' else root}"
                if p.returncode == 0:
                    warm.add(root)
                    done.append(label)
                    continue
                errs, deps = [], set()
                for l in p.stdout.splitlines():
                    if not l.startswith("{"):
                        continue
                    try:
                        d = json.loads(l)
                    except ValueError:
                        continue
                    if d.get("reason") != "compiler-message" or d["message"]["level"] != "error":
                        continue
                    m = d["message"]
                    src = d["target"]["src_path"]
                    if not (src.startswith(sl.REPO + "/") or src.startswith(base)):
                        if re.match(r"can't find crate for `(std|alloc)`", m["message"]):
                            deps.add((d["target"]["name"], m["message"]))
                        continue
                    sp = (m.get("spans") or [{}])[0]
                    at = f"{sp.get('file_name', src)}:{sp.get('line_start', '?')}" if sp else src
                    if src.startswith(base):
                        at = "the client of " + c
                    if m["message"].startswith("aborting due") or m["message"].startswith("Some errors"):
                        continue
                    errs.append((at, m["message"]))
                if errs:
                    done.append(label)
                    viols.append(dict(
                        kind="BUILD", func=c, detail=f"{label} is rejected: {errs[0][1]}", where=errs[0][0],
                        jobs=label, witness="; ".join(f"{x}: {y}" for x, y in errs[:4])))
                elif deps:
                    done.append(label)
                    for n, m in sorted(deps):
                        viols.append(dict(
                            kind="DEPENDENCY", func=f"{c} -> {n}", where=f"crates/{c}/Cargo.toml", jobs=label,
                            detail=f"{label}: the dependency {n} is used with features that need more: {m}"))
                else:
                    und[f"{label}: cargo fails for another reason: {p.stdout[-600:]}"] = 1
        return viols, und, done

    V, U, D, n = [], {}, [], 0
    for t in targets:
        roots = TARGETS[t][1]
        n += len(combos_of(t)) if t == UNSTABLE else sum(1 for _, fs in combos if (needs(fs) if "+std" not in fs else "std") in (roots if "host" not in roots else roots + ("std",)))
    with ThreadPoolExecutor(8) as ex:
        for v, u, d in ex.map(target, targets):
            V += v
            U.update(u)
            D += d
    return V, U, D, n


if __name__ == "__main__":
    import time
    t0 = time.time()
    with sl.scratch() as t:
        v, u, d, n = run(t, sys.argv[1:] or QUICK)
        print(n, "combinations", len(d), "decided", round(time.time() - t0), "s")
        for x in v:
            print(x)
        for x in u:
            print(x)
