"""Shared machinery: building the analyser, analysing a build configuration, and the job vocabulary."""
import concurrent.futures as cf
import contextlib
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SL_REPO", "/repo")
NIGHTLY = "+nightly"
T0 = time.time()

FEATS = {
    "sse2": "sse,sse2",
    "sse3": "sse,sse2,sse3",
    "ssse3": "sse,sse2,sse3,ssse3",
    "sse41": "sse,sse2,sse3,ssse3,sse4.1",
    "sse42": "sse,sse2,sse3,ssse3,sse4.1,sse4.2,popcnt",
    "avx": "sse,sse2,sse3,ssse3,sse4.1,sse4.2,popcnt,avx,xsave",
    "avx2": "sse,sse2,sse3,ssse3,sse4.1,sse4.2,avx,avx2,popcnt,fxsr,xsave",
    "neon": "neon,fp-armv8",
    "simd128": "simd128",
    "none": "",
}

# name -> (cargo arguments, rustc flags, description)
CONFIGS = {
    "x86d": (["--features", "detect,uuidext"], "", "x86_64, run-time detection"),
    "x86s": (["--features", "alloc,uuidext"], "", "x86_64, static selection, SSE2 baseline"),
    "x86core": ([], "", "x86_64, no features (core only)"),
    "x86s_ssse3": (["--features", "alloc,uuidext"], "-Ctarget-feature=+ssse3", "x86_64, static SSSE3"),
    "x86s_sse41": (["--features", "alloc,uuidext"], "-Ctarget-feature=+sse4.1", "x86_64, static SSE4.1"),
    "x86s_avx2": (["--features", "alloc,uuidext"], "-Ctarget-feature=+avx2", "x86_64, static AVX2"),
    "x86d_avx2": (["--features", "detect,uuidext"], "-Ctarget-feature=+avx2", "x86_64, detection on an AVX2 build"),
    "arm": (
        ["--features", "alloc", "-Zbuild-std=core,alloc", "--target", "aarch64-unknown-linux-gnu"],
        "",
        "aarch64, static NEON",
    ),
    "wasm": (
        ["--features", "alloc", "-Zbuild-std=core,alloc", "-Zjson-target-spec", "--target",
         f"{VERIF}/tools/targets/wasm32-bare.json"],
        "-Ctarget-feature=+simd128",
        "wasm32, static SIMD128 (32-bit pointers)",
    ),
    "wasm0": (
        ["--features", "alloc", "-Zbuild-std=core,alloc", "-Zjson-target-spec", "--target",
         f"{VERIF}/tools/targets/wasm32-bare.json"],
        "",
        "wasm32 without SIMD128 (scalar fallback, 32-bit pointers)",
    ),
    "x86par": ([], "", "x86_64, run-time detection, parallel feature (rayon's iterators over a sequential pool)"),
    "x86lane": ([], "", "x86_64, the SIMD layer alone"),
    "armlane": (["-Zbuild-std=core", "--target", "aarch64-unknown-linux-gnu"], "", "aarch64, the SIMD layer alone"),
    "wasmlane": (["-Zbuild-std=core", "-Zjson-target-spec", "--target", f"{VERIF}/tools/targets/wasm32-bare.json"],
                 "-Ctarget-feature=+simd128", "wasm32, the SIMD layer alone"),
    "i686lane": (["-Zbuild-std=core", "--target", "i686-unknown-linux-gnu"], "", "i686, the SIMD layer alone"),
    "i686": (
        ["--features", "alloc", "-Zbuild-std=core,alloc", "--target", "i686-unknown-linux-gnu"],
        "",
        "i686, static SSE2 (32-bit pointers)",
    ),
}
# feature levels a configuration is analysed under by default
LEVELS = {
    "x86d": ["sse2", "ssse3", "sse41", "avx2"],
    "x86s": ["sse2"],
    "x86core": ["sse2"],
    "x86s_ssse3": ["ssse3"],
    "x86s_sse41": ["sse41"],
    "x86s_avx2": ["avx2"],
    "x86d_avx2": ["avx2"],
    "arm": ["neon"],
    "wasm": ["simd128"],
    "wasm0": ["none"],
    "i686": ["sse2"],
    "x86par": ["sse2", "ssse3", "avx2"],
    "x86lane": ["sse2", "ssse3", "sse41", "avx2"],
    "i686lane": ["sse2", "ssse3", "sse41", "avx2"],
    "armlane": ["neon"],
    "wasmlane": ["simd128"],
}
NO_STD_UUID = {"arm", "wasm", "wasm0", "i686", "x86core"}
NO_ALLOC = {"x86core"}


class Broken(Exception):
    """The check cannot give an answer."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = sh(["rustc", NIGHTLY, "--print", "sysroot"], cwd="/").stdout.strip()
    return _sysroot


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC", "SL_"))}
    for k in ("CARGO_HOME",):
        if k in os.environ:
            e[k] = os.environ[k]
    e.pop("RUSTUP_TOOLCHAIN", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def build_driver():
    """Builds the analyser from its committed source and returns its path."""
    d = os.path.join(VERIF, "driver")
    e = base_env()
    e["CARGO_TARGET_DIR"] = os.path.join(d, "target")
    lock = os.path.join(d, ".buildlock")
    import fcntl
    with open(lock, "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        r = sh(["cargo", "build", "--release", "--offline"], cwd=d, env=e)
    if r.returncode != 0:
        raise Broken("analyser does not build:\n" + r.stdout[-4000:])
    return os.path.join(d, "target", "release", "simdlint")


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="simdlint-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def drop_entries(h, log):
    """Takes one-line entries that do not compile out of a copy of a harness."""
    p = os.path.join(h, "src", "lib.rs")
    ls = open(p).read().split("\n")
    n = 0
    for k in {int(x) for x in re.findall(r"--> src/lib\.rs:(\d+):", log)}:
        m = re.match(r"(\s*)pub unsafe fn (\w+)\(.*\}$", ls[k - 1])
        if m:
            ls[k - 1] = f"{m[1]}pub unsafe fn dropped_{m[2]}(a: &Args, r: &mut Ret) {{}}"
            n += 1
    if n:
        open(p, "w").write("\n".join(ls))
    return n


def analyse(drv, tmp, cfg, jobs, workers=8, crate="simd_entries", harness="harness", extra_env=None):
    """Compiles the harness (and /repo's crates) in configuration `cfg` and analyses `jobs` on its MIR."""
    args, flags, _ = CONFIGS[cfg]
    base = os.path.join(tmp, cfg)
    k = 0
    while os.path.exists(f"{base}.{k}"):
        k += 1
    base = f"{base}.{k}"
    os.makedirs(base)
    h = os.path.join(base, "harness")
    shutil.copytree(os.path.join(VERIF, harness), h, ignore=shutil.ignore_patterns("target"))
    if REPO != "/repo":
        for p in glob.glob(h + "/Cargo.toml"):
            s = open(p).read().replace('"/repo/', f'"{REPO}/')
            open(p, "w").write(s)
    jf = os.path.join(base, "jobs")
    with open(jf, "w") as f:
        f.write("\n".join(jobs) + "\n")
    e = base_env()
    e.update(
        CARGO_TARGET_DIR=os.path.join(base, "target"),
        CARGO_INCREMENTAL="0",
        LD_LIBRARY_PATH=sysroot() + "/lib",
        SL_CRATE=crate,
        SL_JOBS=jf,
        SL_OUT=os.path.join(base, "out"),
        SL_WORKERS=str(workers),
        RUST_MIN_STACK=str(1 << 30),
        RUSTFLAGS=("-Zalways-encode-mir " + flags).strip(),
        RUSTC_WORKSPACE_WRAPPER=drv,
    )
    if cfg == "x86par":
        del e["RUSTC_WORKSPACE_WRAPPER"]
        e.update(RUSTC_WRAPPER=drv, SL_STRIP="unstable")
    if extra_env:
        e.update(extra_env)
    r = sh(["cargo", NIGHTLY, "check", "--offline"] + args, cwd=h, env=e)
    if r.returncode != 0 and not glob.glob(base + "/out.*") and drop_entries(h, r.stdout):
        # entries whose subject is no longer there in this form are not decided; the others are
        r = sh(["cargo", NIGHTLY, "check", "--offline"] + args, cwd=h, env=e)
    res = []
    for p in sorted(glob.glob(os.path.join(base, "out.*"))):
        for l in open(p):
            if not l.endswith("\n"):
                continue  # a worker that was cut short
            try:
                res.append(json.loads(l))
            except ValueError:
                pass
    shutil.rmtree(os.path.join(base, "target"), ignore_errors=True)
    if r.returncode != 0 and not res:
        raise Broken(f"configuration {cfg} does not compile:\n" + r.stdout[-6000:])
    return res


# ------------------------------------------------------------------ jobs
B64 = ["b64_std", "b64_url", "b64_stdnp", "b64_urlnp"]
B32 = ["b32", "b32hex", "b32np", "b32hexnp"]
HEXC = ["hex_lo", "hex_up"]
ENC_SLICE = ["encode", "encode_as_str"]
ENC_ALLOC = ["encode_to_string", "encode_vec", "encode_box", "encode_boxstr"]
ENC_APPEND = ["encode_append", "encode_append_string"]
DEC_ALLOC = ["decode_to_vec", "decode_box"]


def enclen(m, n):
    if m.startswith("hex"):
        return 2 * n
    bits = 6 if m.startswith("b64") else 5
    c = -(-8 * n // bits)
    if not m.endswith("np"):
        g = 4 if bits == 6 else 8
        c = -(-c // g) * g
    return c


def declen(m, n):
    if m.startswith("hex"):
        return n // 2
    bits = 6 if m.startswith("b64") else 5
    return n * bits // 8


def need(entry, n):
    """Length of the longest possible result."""
    m, e = entry.split("::")
    if m == "isa" or e == "charset":
        return n
    if m in ("uuid_lo", "uuid_up"):
        return 36 if "hyph" in e else 32
    if m.startswith("uuid"):
        return 16 if m == "uuid_p" else 0
    if m in ("uni", "b64f"):
        return n
    if e.startswith("encode"):
        return enclen(m, n)
    return declen(m, n)


class Jobs:
    """A set of jobs per configuration."""

    def __init__(self):
        self.by = {}
        self.meta = {}

    def add(self, cfg, entry, n, level, d=None, **kv):
        m, e = entry.split("::")
        if cfg in NO_STD_UUID and (m == "uuid_fmt" or e.startswith("ext_")):
            return None
        if cfg in NO_ALLOC and ("append" in e or e in ENC_ALLOC or e in DEC_ALLOC or e == "forgiving_decode_to_vec"):
            return None
        if d is None:
            d = 3 if "append" in e else need(entry, n)
        if "append" in e:
            kv.setdefault("cap", d + 4)
        if n > 200 and not (kv.get("sparse") and n <= 10000):
            kv.setdefault("nosig", 1)
        extra = "".join(f"/{a}{b}" for a, b in sorted(kv.items()) if a not in ("tl", "nosig"))
        jid = f"{cfg}/{entry}/n{n}/d{d}{extra}/{level}"
        if jid in self.meta:
            return jid
        line = f"id={jid} entry={entry} n={n} d={d} feats={FEATS[level]}" + "".join(f" {a}={b}" for a, b in kv.items())
        self.by.setdefault(cfg, []).append((n, line))
        self.meta[jid] = dict(cfg=cfg, entry=entry, n=n, d=d, level=level, **kv)
        return jid

    def __len__(self):
        return len(self.meta)

    def run(self, drv, tmp, budget=None):
        """Analyses everything; returns id -> result.  Where the code compares a length with a number beyond the
        analysed lengths, or looks at addresses, jobs for those are added (at most twice)."""
        out = {}
        todo = self.by
        for round in range(3):
            out.update(self.run_once(drv, tmp, todo))
            if round == 2:
                break
            old = {c: len(l) for c, l in self.by.items()}
            self.extend(out)
            todo = {c: l[old.get(c, 0):] for c, l in self.by.items() if len(l) > old.get(c, 0)}
            if not todo:
                break
        return out

    def extend(self, out):
        groups = {}
        plain = {"cfg", "entry", "n", "d", "level", "cap", "nosig", "tl"}
        for jid, m in self.meta.items():
            more = {k: v for k, v in m.items() if k not in plain}
            if m["n"] <= 140 and jid in out and more in ({}, {"ws": "none"}, {"hist": "self"}, {"inter": "other"}):
                more.pop("ws", None)
                groups.setdefault((m["cfg"], m["entry"], m["level"], tuple(more.items())), []).append((m, out[jid].get("limits", [])))
        known = {}
        for m in self.meta.values():
            known.setdefault((m["entry"], m["level"], tuple((k, m[k]) for k in ("hist", "inter") if k in m)), set()).add(m["n"])
        cand = {}
        self.limits_found = getattr(self, "limits_found", {})
        for g, l in groups.items():
            lim, deltas = {}, set()
            for m, ls in l:
                if "ws" not in m:
                    deltas.add(m["d"] - need(m["entry"], m["n"]))
                for f, c, v in ls:
                    if "::raw_vec::" in f:
                        continue  # the capacity of the analysed job
                    x = lim.setdefault((f, c), {})
                    x[m["n"]] = max(x.get(m["n"], 0), v)
            for (f, c), pts in lim.items():
                ns = sorted(pts)
                if len(ns) < 3 or pts[ns[-1]] <= pts[ns[0]]:
                    continue
                # first length per value: exact for quotients
                fst = {}
                for n in ns:
                    fst.setdefault(pts[n], n)
                vs = sorted(fst)
                v0, v1 = (vs[1], vs[-1]) if len(vs) > 2 and fst[vs[1]] < fst[vs[-1]] else (pts[ns[0]], pts[ns[-1]])
                n0, n1 = (fst[v0], fst[v1]) if len(vs) > 2 and fst[vs[1]] < fst[vs[-1]] else (ns[0], ns[-1])
                a = (v1 - v0) / (n1 - n0)
                x = round(n1 + (c - v1) / a)
                if not 64 < x <= MAX_SPARSE:
                    continue
                cfg, en, lv, more = g
                w = min(8, max(1, round(1 / a)))
                x8 = -(-x // 8) * 8
                ls = [x8 + 8, x, x8, x8 + 32, x + 1, x - 1, x + w, x - w, x + 5, x + 17, x + 34, x + 3, x + 49]
                ls = [n for i, n in enumerate(ls) if n not in ls[:i] and n not in known.get((en, lv, more), ())]
                if len(ls) < 6:
                    continue  # lengths on both sides are analysed already
                self.limits_found.setdefault(en, set()).add(f"{f.split(' ', 1)[1]} compares with {c}: source length {x}")
                for i, n in enumerate(ls):
                    if en.startswith("b64f"):
                        for k, ws in enumerate(("none", 0, n - 1, n // 2)):
                            cand.setdefault((cfg, en, n, lv, None, ws, more), (i + 2 * k, x))
                        continue
                    for d in ({0, -1, 1} & deltas if 0 in deltas else {0}) if "append" not in en else {None}:
                        k = (cfg, en, n, lv, d, None, more)
                        r = (i + (0 if not d else 3), x)
                        cand[k] = min(r, cand.get(k, r))
        left = EXTEND_CPU
        for k, (_, x) in sorted(cand.items(), key=lambda kv: (kv[1][0], kv[0][2], str(kv[0]))):
            cfg, en, n, lv, d, ws, more = k
            e = en.split("::")[1]
            cost = full_cost(en, n)
            kv = dict(more, tl=300)
            if cost > min(left, 150):
                # most of the contents fixed
                cost = n * sparse_cost(en)
                kv["sparse"] = x
            if cost > left or cost > 150:
                continue
            left -= cost
            if d is not None:
                kv["d"] = max(0, need(en, n) + d)
            if ws is not None:
                kv["ws"] = ws
            self.add(cfg, en, n, lv, **kv)
        # code that looks at addresses: assume some
        al = [j for j in self.meta if "ra" not in self.meta[j] and any("pointer alignment" in u for u in out.get(j, {}).get("unres", []))]
        k = max(2, min(len(RESIDUES), 3000 // max(1, len(al))))
        for i, j in enumerate(al):
            m = dict(self.meta[j])
            a = {x: m.pop(x) for x in ("cfg", "entry", "n", "level", "d")}
            for t in range(k):
                ra, rb = RESIDUES[(i * k + t) % len(RESIDUES)]
                self.add(a["cfg"], a["entry"], a["n"], a["level"], d=a["d"], ra=ra, rb=rb, **m)
            self.assumed = getattr(self, "assumed", set()) | {j}

    def run_once(self, drv, tmp, by):
        out = {}
        order = sorted(by, key=lambda c: 1 if "-Zbuild-std" not in " ".join(CONFIGS[c][0]) else 0)

        def one(c):
            # longest first
            js = [l for _, l in sorted(by[c], key=lambda x: -x[0])]
            if c == "x86par":
                return analyse(drv, tmp, c, js, crate="simd_par", harness="harness_par")
            if c.endswith("lane"):
                return analyse(drv, tmp, c, js, crate="simd_lane", harness="harness_lane")
            return analyse(drv, tmp, c, js)

        with cf.ThreadPoolExecutor(4) as ex:
            for rs in ex.map(one, order):
                for r in rs:
                    out[r["id"]] = r
        return out


def sparse_cost(en):
    """Seconds per source element, most of them fixed."""
    for k, v in (("ascii", 1e-5), ("swap", 6e-5), ("utf32", 7e-5), ("hex::check", 1e-4), ("decode", 5e-4), ("check", 4e-4), ("hex", 2e-4), ("b32", 1e-4)):
        if k in en:
            return v
    return 2e-4


def full_cost(en, n):
    """Seconds for a source whose contents are all free."""
    e = en.split("::")[1]
    if "is_ascii" in e or "from_ascii" in e:
        return n * 2e-5
    if n > 9000 and ("decode" in e or "check" in e or "utf32le" in e) or n > 80000:
        return 1e9
    if "inplace" in e and "swap" not in e:
        return n * n * 3e-4
    return n * (0.025 if "decode" in e else 4e-4)


# longest source a length limit found in the code is followed to
MAX_SPARSE = 1 << 20
# estimated processor seconds spent on such lengths per round
EXTEND_CPU = 1500
# addresses of source and destination, modulo 4096, assumed where the code looks at them
RESIDUES = [(0, 0), (16, 16), (1, 0), (0, 4), (4, 12), (3, 5), (8, 24), (32, 48), (20, 1), (31, 63), (4080, 8), (13, 4085)]


def all_entries(cfg=None):
    es = []
    for m in B64 + B32:
        es += [f"{m}::{e}" for e in ENC_SLICE + ENC_ALLOC + ENC_APPEND]
        es += [f"{m}::{e}" for e in
               ["decode", "decode_inplace", "check", "decoded_length", "encoded_length", "estimated_decoded_length",
                "decode_append"] + DEC_ALLOC]
    for m in HEXC:
        es += [f"{m}::{e}" for e in ENC_SLICE + ["encode_raw"] + ENC_ALLOC + ENC_APPEND]
    es += [f"hex::{e}" for e in ["decode", "decode_raw", "decode_raw_inplace", "decode_inplace", "check", "check_raw", "encoded_length",
                                 "decoded_length", "decode_append"] + DEC_ALLOC]
    es += [f"uni::{e}" for e in ["is_ascii", "from_ascii", "is_utf32le", "utf16_swap_inplace", "utf32_swap_inplace",
                                 "utf16_swap", "utf32_swap"]]
    es += [f"uuid_p::{e}" for e in ["parse", "parse_simple", "parse_hyphenated", "ext_parse", "ext_parse_simple",
                                    "ext_parse_hyphenated"]]
    es += [f"{m}::{e}" for m in ("uuid_lo", "uuid_up") for e in ("format_simple", "format_hyphenated")]
    es += [f"uuid_fmt::{e}" for e in ["simple_display", "simple_lower", "simple_upper", "hyphenated_display",
                                      "hyphenated_lower", "hyphenated_upper"]]
    es += [f"b64f::{e}" for e in ["forgiving_decode", "forgiving_decode_inplace", "forgiving_decode_to_vec"]]
    return es
