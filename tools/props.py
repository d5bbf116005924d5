"""Which obligations make up each property, and how each is read off the analysis results."""
import random
from sl import *
import sl

UNI_N = [n for n in range(0, 73)]
FULL = sorted(set(list(range(0, 74)) + [79, 80, 81, 95, 96, 97, 98, 100, 127, 128, 129, 130, 160, 161, 192, 193, 255, 256, 257]))
MID = sorted(set(list(range(0, 42)) + [43, 47, 48, 49, 52, 55, 56, 57, 63, 64, 65, 66, 70, 96, 97, 128, 129]))
SPARSE = [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 16, 20, 21, 24, 28, 32, 33, 36, 40, 48, 57, 64, 65, 70, 100, 129]
TINY = [0, 1, 2, 4, 8, 15, 16, 17, 24, 32, 33, 40, 64, 65, 70, 96]
LONG = [1000, 1023, 2051]
DEEP = sorted(set(list(range(0, 200)) + list(range(250, 262)) + [319, 320, 321, 383, 384, 385, 511, 512, 513]))

DATAFLOW = ("abstract interpretation of the monomorphised MIR of /repo (compiled on this run): every block of every "
            "function on the path is transformed over a relational domain whose values are Boolean functions (ROBDDs) of "
            "the input bits, states joined at merges; each memory access, call, assertion and result is an obligation; "
            "nothing is executed and no solver is used. Each job fixes the entry point, the source and destination "
            "lengths and the available CPU features and covers ALL source contents.")
ASSUME = ["rustc's MIR construction and the meaning of core::arch intrinsics as modelled in /verif/driver/src/intrin.rs",
          "allocation succeeds",
          "lengths other than the ones analysed behave like them (lengths listed in coverage; where the code compares a length "
          "with a larger number, lengths around that number are added)"]


class Ctx:
    def __init__(self, pid, tier, seed, tmp):
        self.pid, self.tier, self.seed, self.tmp = pid, tier, seed, tmp
        self.thorough = tier == "thorough"
        self.drv = None

    def driver(self):
        if self.drv is None:
            self.drv = sl.build_driver()
        return self.drv


class Res:
    def __init__(self):
        self.viols, self.unres, self.cov, self.summary = [], {}, {}, ""
        self.assumptions = list(ASSUME)


FUNC = {"ACCEPT_BAD", "REJECT_GOOD", "REJECT_TOTAL", "VALUE", "LEN", "LOST", "PANIC", "UNINIT", "ROUNDTRIP", "SHORT_OK"}
SAFE = {"OOB_READ", "OOB_WRITE", "ALIGN", "DEALLOC", "OVERLAP"}
ALWAYS_IGNORE = {"ALLOCFAIL"}


def lengths(c, entry, cls):
    """Source lengths analysed for an entry."""
    m, e = entry.split("::")
    if m in ("uuid_lo", "uuid_up", "uuid_fmt"):
        return [16]
    if e == "charset":
        return [0]
    if m == "isa":
        return [1]
    if m == "b64f":
        return list(range(0, 8 if c.thorough else 7))
    if m == "uuid_p":
        if cls == "tiny":
            return [0, 31, 32, 33, 36, 38, 45, 46]
        return sorted(set(list(range(0, 66)) + [128, 256, 288, 292, 294, 301, 65536 + 32, 65536 + 36]))
    if e in ("encoded_length", "estimated_decoded_length") or (m == "hex" and e == "decoded_length"):
        return TINY if cls == "tiny" else FULL
    if c.thorough and cls in ("full", "mid"):
        return DEEP + LONG + [4099]
    return {"full": FULL + LONG, "mid": MID, "sparse": SPARSE, "tiny": TINY}[cls]


def ws_jobs(c, J, cfg, lv, entries, dense):
    """Forgiving decoding of long texts: one job per set of whitespace positions, all other contents free."""
    if c.thorough:
        ns = list(range(7, 50)) + [63, 64, 65, 66, 70, 96, 97, 100, 128, 131]
    else:
        ns = [7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 36, 40, 47, 48, 49, 56, 64, 65, 70] if dense else [9, 17, 24, 33, 48, 70]
    rnd = random.Random(c.seed)
    for n in ns:
        pats = {()}
        singles = range(n) if (c.thorough and n <= 40) else sorted({0, 1, n // 2, n - 1, n - 2, 15 % n, 16 % n, 31 % n, 32 % n})
        pats |= {(i,) for i in (singles if dense else [0, n // 2, n - 1])}
        if dense:
            pats |= {(0, n - 1), (n - 2, n - 1), (0, 1), tuple(range(0, n, 2)), tuple(range(n)), tuple(range(n - 1)),
                     tuple(range(1, n)), (n // 2, n // 2 + 1) if n // 2 + 1 < n else (0,)}
            for _ in range(12 if c.thorough else 3):
                k = rnd.randint(2, max(2, n // 3))
                pats.add(tuple(sorted(rnd.sample(range(n), k))))
        for p in sorted(pats):
            for e in entries:
                J.add(cfg, e, n, lv, ws=",".join(map(str, p)) if p else "none")


def standard_jobs(c, entries, cls=None, cfgs=None, d=None):
    """The usual sweep: every entry, all lengths of its class, every instruction set."""
    J = Jobs()
    if cfgs is None:
        cfgs = ["x86d"] + (["x86s", "x86core", "x86s_ssse3", "x86s_sse41", "x86s_avx2", "arm", "wasm", "wasm0", "i686"] if c.thorough else ["wasm0"])
    for cfg in cfgs:
        for lv in LEVELS[cfg]:
            for en in entries:
                e = en.split("::")[1]
                k = cls or ("full" if e in ENC_SLICE + ["decode", "decode_inplace", "check"] or en.startswith("uni::") else "sparse")
                if cfg != "x86d":
                    k = "mid" if c.thorough and cfg in ("arm", "wasm") else "tiny"
                for n in lengths(c, en, k):
                    if "inplace" in e and n > 300 and not en.startswith("uni"):
                        continue
                    if cfg not in ("x86d", "arm", "wasm") and n > 140 and not en.startswith("uuid_p"):
                        continue
                    J.add(cfg, en, n, lv, d=d(en, n) if d else None)
            if any(x.startswith("b64f") for x in entries) and cfg in ("x86d", "arm", "wasm"):
                ws_jobs(c, J, cfg, lv, [x for x in entries if x.startswith("b64f")], dense=c.pid == "C10" and cfg == "x86d")
    return J


def giants(c, J, entries, cfg="x86d", lvs=("avx2",)):
    """Very long sources, most of whose bytes are fixed: what only shows after many rounds of a loop."""
    for en in entries:
        m, e = en.split("::")
        if m.startswith("uuid") or m == "isa" or e in ("charset",):
            continue
        for n in [8464 if "decode" in e or e == "check" else 8463] + ([70000 if "decode" in e or e == "check" else 70003] if c.thorough else []):
            for lv in lvs:
                J.add(cfg, en, n, lv, sparse=n // 3 if full_cost(en, 9 * n // 8) > 10 else 0, tl=300, **({"ws": "none"} if m == "b64f" else {}))
    return J


def collect(c, J, kinds, res=None, keep=None):
    """Runs the jobs and turns analysis results into violations of the given kinds."""
    res = res or Res()
    out = J.run(c.driver(), c.tmp)
    fns, obl, decided, undecided = set(), 0, 0, 0
    per = {}
    missing = 0
    steps = 0
    assumed = getattr(J, "assumed", set())
    for jid, meta in J.meta.items():
        r = out.get(jid)
        if r is None:
            missing += 1
            res.unres["no result (analysis of this job ended early)"] = res.unres.get("no result (analysis of this job ended early)", 0) + 1
            continue
        fns.update(r["fns"])
        obl += r["obligations"]
        steps += r["steps"]
        if r["unres"] and jid in assumed and all("pointer alignment" in u for u in r["unres"]):
            pass  # decided per address instead
        elif r["unres"]:
            undecided += 1
            for u in r["unres"]:
                res.unres[u] = res.unres.get(u, 0) + 1
        else:
            decided += 1
            per.setdefault(meta["entry"], set()).add(meta["n"])
        for v in r["viols"]:
            if v["kind"] in ALWAYS_IGNORE or v["kind"] not in kinds:
                continue
            if keep and not keep(v, meta, r):
                continue
            res.viols.append(dict(v, jobs=jid))
    if decided == 0 or decided * 2 < len(J):
        if not res.viols:
            raise Broken(f"only {decided} of {len(J)} obligations sets decided; first reasons: {list(res.unres.items())[:4]}")
    res.out = out
    lens = {}
    for e, s in sorted(per.items()):
        lens[e] = span(s)
    res.cov.update(
        explanation=DATAFLOW,
        rule="violation kinds decided: " + ", ".join(sorted(kinds)),
        jobs=len(J), decided=decided, undecided=undecided + missing,
        obligations=obl, transfer_steps=steps, functions_analysed=len(fns),
        function_sample=sorted(f for f in fns if "simd" in f and not f.startswith(("core", "std", "alloc")))[:60],
        configurations={k: CONFIGS[k][2] for k in J.by},
        entry_lengths=lens,
        length_limits_followed={k: sorted(v) for k, v in getattr(J, "limits_found", {}).items()},
        jobs_split_by_address=len(assumed),
        undecided_reasons=dict(sorted(res.unres.items(), key=lambda x: -x[1])[:12]),
    )
    res.fns = fns
    res.summary = f"{decided}/{len(J)} jobs decided, {obl} obligations, {len(fns)} functions, {len(res.viols)} violations"
    return res


def span(s):
    s = sorted(s)
    out, i = [], 0
    while i < len(s):
        j = i
        while j + 1 < len(s) and s[j + 1] == s[j] + 1:
            j += 1
        out.append(str(s[i]) if i == j else f"{s[i]}-{s[j]}")
        i = j + 1
    return ",".join(out)


def functional(entries, cls=None):
    def f(c):
        return collect(c, giants(c, standard_jobs(c, entries, cls), entries), FUNC)
    return f


def enc(ms):
    return [f"{m}::{e}" for m in ms for e in ENC_SLICE + ENC_ALLOC + ["encoded_length", "charset"]]


def dec(ms):
    return [f"{m}::{e}" for m in ms for e in ["decode", "check", "decode_inplace", "decoded_length"] + DEC_ALLOC]


# ------------------------------------------------------------------ properties over every entry point
def everything(c, cls="mid"):
    J = Jobs()
    cfgs = ["x86d"] + (["x86s", "x86core", "x86s_ssse3", "x86s_sse41", "x86s_avx2", "arm", "wasm", "wasm0", "i686"] if c.thorough else [])
    for cfg in cfgs:
        for lv in LEVELS[cfg]:
            for en in all_entries():
                e = en.split("::")[1]
                k = cls if e in ("encode", "decode", "decode_inplace", "check") or en.startswith(("uni::", "uuid")) else "sparse"
                if cfg != "x86d" or (k == "sparse" and not c.thorough):
                    k = "tiny"
                for n in lengths(c, en, k):
                    if n > 300 and ("inplace" in e and not en.startswith("uni")):
                        continue
                    J.add(cfg, en, n, lv)
            ws_jobs(c, J, cfg, lv, [x for x in all_entries() if x.startswith("b64f")], dense=False)
    giants(c, J, [x for x in all_entries() if not x.endswith(("encode_as_str", "append_string", "_box", "boxstr"))])
    return J


def c01(c):
    J = everything(c)
    slice_ds(c, J, light=True)
    append_ds(c, J, light=True)
    return collect(c, J, SAFE)


def slice_ds(c, J, light=False):
    """Destinations of other lengths than the exact one."""
    ns = [1, 3, 5, 17, 33, 40] if light else [0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 21, 24, 26, 32, 33, 36, 40, 41, 48, 49, 56, 64, 65, 70, 100]
    if c.thorough and not light:
        ns = list(range(0, 110))
    ents = [f"{m}::{e}" for m in B64 + B32 for e in ["encode", "encode_as_str", "decode"]]
    ents += [f"{m}::{e}" for m in HEXC for e in ["encode", "encode_as_str"]] + ["hex::decode"]
    for lv in LEVELS["x86d"]:
        for en in ents:
            for n in ns:
                L = need(en, n)
                ds = {0, L // 2, L - 1, L, L + 1, L + 33}
                if not light:
                    ds |= {1, L - 2, L - 3, L - 4, L + 7, L + 16, 2 * L + 64}
                for d in sorted(ds):
                    if d >= 0:
                        J.add("x86d", en, n, lv, d=d)
        for e in ("utf16_swap", "utf32_swap"):
            for n in ns:
                for d in {n, n + 1, n + 5, n + 40}:
                    J.add("x86d", f"uni::{e}", n, lv, d=d)


def append_ds(c, J, light=False):
    ns = [0, 1, 4, 5, 24, 40] if light else [0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 32, 33, 40, 48, 64, 65]
    if c.thorough and not light:
        ns = list(range(0, 80))
    ents = [f"{m}::{e}" for m in B64 + B32 for e in ENC_APPEND + ["decode_append"]]
    ents += [f"{m}::{e}" for m in HEXC for e in ENC_APPEND] + ["hex::decode_append"]
    for lv in (["sse2", "avx2"] if light else LEVELS["x86d"]):
        for en in ents:
            for n in ns:
                for d in (0, 3):
                    for cap in {d, d + 1, d + 4, d + need(en, n), d + 200}:
                        J.add("x86d", en, n, lv, d=d, cap=cap)


def c02(c):
    J = Jobs()
    lvs = ["sse2", "sse3", "ssse3", "sse41", "sse42", "avx", "avx2"]
    for lv in lvs:
        for en in all_entries():
            for n in lengths(c, en, "tiny"):
                J.add("x86d", en, n, lv)
            if not en.startswith(("b64f", "uuid")):
                for n in (38, 42, 57):
                    J.add("x86d", en, n, lv)
    for cfg in ["x86s", "x86core", "x86s_ssse3", "x86s_sse41", "x86s_avx2"] + ["arm", "wasm", "wasm0", "i686"]:
        for lv in LEVELS[cfg]:
            for en in all_entries():
                for n in lengths(c, en, "tiny")[:: 1 if c.thorough else 3]:
                    J.add(cfg, en, n, lv)
    isa_jobs(J, lvs)
    return collect(c, J, {"FEATURE", "ACCEPT_BAD"}, keep=lambda v, meta, r: v["kind"] == "FEATURE" or meta["entry"].startswith("isa::"))


DETECT = ["isa::detect_" + x for x in ("sse2", "ssse3", "sse41", "avx2", "neon", "simd128")]


def isa_jobs(J, lvs):
    """Which tokens safe code can obtain, and what Native runs, per set of available features."""
    for cfg in CONFIGS:
        if cfg == "x86par" or cfg.endswith("lane"):
            continue
        for lv in lvs if cfg == "x86d" else LEVELS[cfg]:
            for en in DETECT + ["isa::native_exec"]:
                J.add(cfg, en, 1, lv)


def c06(c):
    import witness
    res = Res()
    drv = c.driver()
    # 1. the types of the public interface
    api = {}
    for cfg in ["x86d", "x86core", "arm", "wasm"] if c.thorough else ["x86d", "arm"]:
        rs = analyse(drv, c.tmp, cfg, [], 1, extra_env={"SL_MODE": "api"})
        if len(rs) != 1 or len(rs[0]["crates"]) != 6:
            raise Broken(f"the public interface could not be read in configuration {cfg}")
        api[cfg] = rs[0]
        for v in rs[0]["viols"]:
            res.viols.append(dict(v, jobs=cfg))
    # 2. programs that must not compile
    wv, wu, wd, names = witness.run(c.tmp)
    res.viols += wv
    res.unres.update(wu)
    if wd * 2 < len(names):
        raise Broken(f"only {wd} of {len(names)} witnesses decided: {list(wu)[:4]}")
    # 3. the one safe way to a token
    J = Jobs()
    isa_jobs(J, ["sse2", "sse3", "ssse3", "sse41", "sse42", "avx", "avx2"])
    r = collect(c, J, {"ACCEPT_BAD"}, res=res)
    r.cov["explanation"] = (
        "Three static rules. (1) A lint over the resolved signatures of every public function of the six crates: the lifetime of a "
        "result occurs in an argument, unique results come from unique arguments, no safe function takes raw pointers or makes a "
        "token, asserting traits are unsafe, POD types have no invalid bit pattern, decode targets are not text. (2) Witness "
        "programs: each misuse must be rejected by rustc with the expected error class while its corrected twin compiles. "
        "(3) Abstract interpretation of isa::detect for every token and feature set: Some only if the feature is available.")
    r.cov["interface"] = {k: dict(functions=len(a["fns"]), tokens=a["tokens"], pod_types=a["pods"], obligations=a["checks"]) for k, a in api.items()}
    r.cov["witnesses"] = dict(pairs=len(names), decided=wd, names=names)
    r.summary = f"{sum(len(a['fns']) for a in api.values())} signatures, {wd}/{len(names)} witness pairs, {r.summary}"
    r.assumptions = ["rustc's type and borrow checker", "rustc's MIR construction (detect)"]
    return r


def c27(c):
    import builds
    res = Res()
    ts = list(builds.TARGETS) if c.thorough else builds.QUICK
    v, u, done, n = builds.run(c.tmp, ts)
    if len(done) * 10 < n * 9:
        raise Broken(f"only {len(done)} of {n} combinations decided: {list(u)[:3]}")
    res.viols, res.unres = v, u
    res.cov = {
        "explanation": (
            "Each crate is compiled alone (so that features do not leak from one crate to another through cargo's unification) in each "
            "combination of its features against a sysroot that holds only what the combination allows: core; core and alloc; "
            "the whole of std. A use of std or alloc is then an unresolved name. A client that names the documented interface of "
            "the combination is compiled on top. Nothing is linked or run."),
        "rule": "a combination is rejected by the compiler, or the client of its documented interface is",
        "obligations": n, "decided": len(done), "violations": len(v),
        "combinations": done,
        "targets": {t: dict(triple=os.path.basename(builds.TARGETS[t][0] or "host of the installed toolchain"), sysroots=builds.TARGETS[t][1], flags=builds.TARGETS[t][2]) for t in ts},
    }
    res.summary = f"{len(done)}/{n} combinations of crate, features and target decided, {len(v)} rejected"
    res.assumptions = ["rustc's name resolution and type checker", "the `unstable` and `parallel` features are checked on x86-64 only, against the std of nightly-2025-06-20 (newer compilers lack the library features they use)"]
    return res


def c03(c):
    J = everything(c)
    slice_ds(c, J, light=True)
    append_ds(c, J, light=True)
    return collect(c, J, {"PANIC", "UNREACHABLE", "LOST"})


def c04(c):
    J = everything(c)
    slice_ds(c, J, light=True)
    append_ds(c, J, light=True)
    return collect(c, J, {"UNINIT"})


def c05(c):
    J = Jobs()
    append_ds(c, J)
    for lv in LEVELS["x86d"]:
        for m in B64 + B32 + HEXC + ["hex"]:
            for e in (ENC_ALLOC if m != "hex" else []) + (DEC_ALLOC if m not in HEXC else []):
                for n in (DEEP[:120] if c.thorough else SPARSE):
                    J.add("x86d", f"{m}::{e}", n, lv)
        ws_jobs(c, J, "x86d", lv, ["b64f::forgiving_decode_to_vec"], dense=False)
    giants(c, J, [x for x in all_entries() if "append" in x or x.endswith(("_vec", "_box", "boxstr", "to_string"))])
    return collect(c, J, {"APPEND_PREFIX", "APPEND_FAIL", "LEN", "VALUE", "UNINIT", "DEALLOC", "RESULT_PTR", "REJECT_TOTAL", "REJECT_GOOD", "LOST", "PANIC"})


def c07(c):
    es = [e for e in all_entries() if any(x in e for x in ("encode_as_str", "encode_to_string", "encode_boxstr", "append_string", "format", "from_ascii", "uuid_fmt"))]
    return collect(c, standard_jobs(c, es, "mid"), {"NONASCII"})


def c20(c):
    """The same function on every instruction set and configuration: compares canonical forms."""
    J = everything(c, "mid")
    for cfg in ["x86s", "x86core", "x86s_ssse3", "x86s_sse41", "x86s_avx2", "x86d_avx2"] + (["arm", "wasm"]):
        for lv in LEVELS[cfg]:
            for en in all_entries():
                for n in (lengths(c, en, "tiny") if not c.thorough else lengths(c, en, "sparse")):
                    if n <= 129:
                        J.add(cfg, en, n, lv)
    giants(c, J, [x for x in all_entries() if x.endswith(("encode", "::decode", "check", "inplace", "swap")) or x.startswith("uni")], lvs=("sse2", "ssse3", "sse41"))
    res = collect(c, J, set())
    groups = {}
    for jid, m in J.meta.items():
        r = res.out.get(jid)
        if r is None or r["unres"] or not r["sig"] or any(v["kind"] not in ALWAYS_IGNORE and v["kind"] in ("OOB_READ", "OOB_WRITE", "PANIC", "FEATURE", "UNREACHABLE", "LOST") for v in r["viols"]):
            # a path that ended in an event has no outcome to compare unless the others have one
            if r is None or r["unres"] or not form(m, r):
                continue
        groups.setdefault((m["entry"], m["n"], m["d"], m.get("ws"), m.get("cap"), m.get("sparse")), []).append((jid, form(m, r)))
    cmpd = 0
    for g, l in sorted(groups.items(), key=lambda x: (x[0][0], x[0][1])):
        cmpd += len(l) - 1
        cnt = {}
        for j, s in l:
            cnt.setdefault(s, []).append(j)
        if len(cnt) > 1:
            ks = sorted(cnt.values(), key=len)
            res.viols.append(dict(
                kind="ISA_DIFF", func=g[0],
                detail=f"source length {g[1]}, destination length {g[2]}: the function computed under {where(ks[0])} differs from the one under {where(ks[-1])}",
                jobs=ks[0][0] + " vs " + ks[-1][0], witness=""))
    res.cov["comparisons"] = cmpd
    res.cov["rule"] = "canonical form (ROBDD of success and of every result bit) equal across instruction sets and configurations"
    res.summary += f"; {cmpd} comparisons, {len(res.viols)} differences"
    return res


def form(m, r):
    """Canonical form of the function a job computes; for long sources, how it differs from the specification."""
    if r["sig"] or not m.get("nosig"):
        return r["sig"]
    return "as specified" if not any(v["kind"] in FUNC for v in r["viols"]) else "not as specified"


def where(js):
    return "/".join(sorted({j.split("/")[0] + ":" + j.split("/")[-1] for j in js}))


def c21(c):
    J = Jobs()
    pairs = []
    cfgs = ["x86d"] + (["arm", "wasm", "x86s"] if c.thorough else [])
    for cfg in cfgs:
        for lv in LEVELS[cfg]:
            for m in B64 + B32 + ["hex"]:
                for n in (lengths(c, f"{m}::decode", "full") if cfg == "x86d" else TINY):
                    if n <= 200:
                        pairs.append((J.add(cfg, f"{m}::decode", n, lv), J.add(cfg, f"{m}::decode_inplace", n, lv)))
            for w in ("utf16", "utf32"):
                for n in (lengths(c, "uni::x", "full") if cfg == "x86d" else TINY):
                    if n <= 200:
                        pairs.append((J.add(cfg, f"uni::{w}_swap", n, lv), J.add(cfg, f"uni::{w}_swap_inplace", n, lv)))
            for n in lengths(c, "b64f::forgiving_decode", ""):
                pairs.append((J.add(cfg, "b64f::forgiving_decode", n, lv), J.add(cfg, "b64f::forgiving_decode_inplace", n, lv)))
            k = Jobs()
            ws_jobs(c, k, cfg, lv, ["b64f::forgiving_decode"], dense=True)
            for m in list(k.meta.values()):
                if m["n"] <= 70:
                    pairs.append((J.add(cfg, "b64f::forgiving_decode", m["n"], lv, ws=m["ws"]),
                                  J.add(cfg, "b64f::forgiving_decode_inplace", m["n"], lv, ws=m["ws"])))
    giants(c, J, [f"{m}::decode{s}" for m in B64 + B32 + ["hex"] for s in ("", "_inplace")] + [f"uni::{w}_swap{s}" for w in ("utf16", "utf32") for s in ("", "_inplace")]
           + ["b64f::forgiving_decode", "b64f::forgiving_decode_inplace"], lvs=("sse2", "avx2"))
    res = collect(c, J, set())
    n = 0
    # lengths and addresses added on the way
    for jid, m in J.meta.items():
        if "inplace" in m["entry"] and ("ra" in m or m["n"] > 64):
            o = jid.replace("_inplace", "")
            if (o, jid) not in pairs and o in J.meta:
                pairs.append((o, jid))
    for a, b in pairs:
        x, y = res.out.get(a), res.out.get(b)
        if not x or not y or x["unres"] or y["unres"]:
            continue
        fx, fy = form(J.meta[a], x), form(J.meta[b], y)
        if not fx or not fy:
            continue
        n += 1
        if fx != fy:
            det = "; ".join(v["detail"] for v in y["viols"] + x["viols"] if v["kind"] in FUNC)[:300]
            wit = next((v["witness"] for v in y["viols"] + x["viols"]), "")
            res.viols.append(dict(kind="INPLACE_DIFF", func=b.split("/")[1], jobs=b, witness=wit,
                                  detail=f"computes a different function from {a.split('/')[1]} at length {J.meta[a]['n']}, {J.meta[a]['level']}: {det}"))
    res.cov["pairs_compared"] = n
    res.cov["rule"] = "canonical forms of the copying and the in-place operation are equal"
    res.summary += f"; {n} pairs compared, {len(res.viols)} differences"
    if n == 0:
        raise Broken("no pair decided")
    return res


def c22(c):
    J = Jobs()
    cfgs = ["x86d", "wasm"] + (["i686", "arm", "x86core", "wasm0"] if c.thorough else [])
    for cfg in cfgs:
        lv = LEVELS[cfg][0]
        for m in B64 + B32:
            J.add(cfg, f"{m}::encoded_length", 0, lv, d=0, mode="symlen")
            J.add(cfg, f"{m}::estimated_decoded_length", 0, lv, d=0, mode="symlen")
            J.add(cfg, f"{m}::decoded_length", 0, lv, d=0, mode="symdec")
        J.add(cfg, "hex::encoded_length", 0, lv, d=0, mode="symlen")
        J.add(cfg, "hex::decoded_length", 0, lv, d=0, mode="symlen")
    sym = len(J)
    # the lengths of actual results
    for m in B64 + B32 + HEXC:
        for n in (DEEP if c.thorough else FULL):
            J.add("x86d", f"{m}::encode", n, "sse2")
    for m in B64 + B32:
        for n in (DEEP if c.thorough else FULL):
            J.add("x86d", f"{m}::decoded_length", n, "sse2")
            if n <= 140:
                J.add("x86d", f"{m}::decode", n, "sse2")
    for n in FULL:
        J.add("x86d", "hex::decode", n, "sse2")
    res = collect(c, J, {"LEN", "REJECT_GOOD", "REJECT_TOTAL", "ACCEPT_BAD", "PANIC", "LOST", "OOB_READ"})
    done = [j for j in J.meta if J.meta[j].get("mode") and res.out.get(j) and not res.out[j]["unres"]]
    res.cov["all_length_proofs"] = f"{len(done)} of {sym}"
    res.cov["length_classes"] = {j: res.out[j]["sig"] for j in done if J.meta[j]["mode"] == "symdec"}
    if len(done) * 2 < sym and not res.viols:
        raise Broken(f"only {len(done)} of {sym} length functions decided")
    res.assumptions = ASSUME[:1] + ["the length of a slice is at most isize::MAX"]
    return res


def c23(c):
    J = Jobs()
    slice_ds(c, J)
    for m in B64 + B32 + HEXC + ["hex"]:
        for e in (["encode"] if m != "hex" else []) + (["decode"] if m not in HEXC else []):
            n = 8464 if e == "decode" else 8463
            L = need(f"{m}::{e}", n)
            for d in (L - 1, L, L + 1, L + 300):
                J.add("x86d", f"{m}::{e}", n, "avx2", d=d, sparse=n // 3, tl=300)
    res = collect(c, J, {"TOUCHED", "TOUCHED_SHORT", "SHORT_OK", "RESULT_PTR"})
    # outcome may depend on the destination length only through "too short"
    base, base_id = {}, {}
    for jid, m in J.meta.items():
        if m["d"] == need(m["entry"], m["n"]) and "ra" not in m:
            base_id[m["entry"], m["n"], m["level"]] = jid
            base[(m["entry"], m["n"], m["level"])] = res.out.get(jid)
    n = 0
    for jid, m in J.meta.items():
        r, b = res.out.get(jid), base.get((m["entry"], m["n"], m["level"]))
        if not r or not b or r["unres"] or b["unres"]:
            continue
        n += 1
        if m["d"] > need(m["entry"], m["n"]):
            if form(m, r) != form(J.meta[base_id[m["entry"], m["n"], m["level"]]], b):
                res.viols.append(dict(kind="DST_DEPENDS", func=m["entry"], jobs=jid, witness="",
                                      detail=f"with a destination of {m['d']} bytes the outcome differs from the one with {need(m['entry'], m['n'])} bytes (source length {m['n']})"))
        elif m["d"] < need(m["entry"], m["n"]):
            bk = {v["kind"] for v in b["viols"]}
            for v in r["viols"]:
                if v["kind"] in ("REJECT_GOOD", "REJECT_TOTAL", "PANIC", "LOST", "VALUE", "OOB_WRITE", "OOB_READ", "OVERLAP") and v["kind"] not in bk:
                    res.viols.append(dict(v, jobs=jid))
    res.cov["outcomes_compared"] = n
    res.summary += f"; {n} outcomes compared, {len(res.viols)} violations"
    return res


def neighbours(en, n):
    """Calls into the same crate, which other threads may make or earlier code may have made."""
    m, e = en.split("::")
    k = 40 if n < 30 else 3
    if m.startswith("b64"):
        x = m if m in B64 else "b64_std"
        l = [f"{x}::encode*{k}", f"{x}::decode*{k + 1 & ~3}", f"b64_url::decode*{k + 1 & ~3}", "b64_stdnp::check*7", "b64f::forgiving_decode*4"]
    elif m.startswith("b32"):
        l = [f"{m}::encode*{k}", f"{m}::decode*{48 if k > 8 else 8}", f"{'b32' if 'hex' in m else 'b32hex'}::decode*16", "b32np::check*7"]
    elif m.startswith("hex"):
        l = [f"hex_lo::encode*{k}", f"hex_up::encode*{k}", f"hex::decode*{k + 1 & ~1}", "hex::check*5"]
    elif m == "uni":
        l = ["uni::is_ascii*40", "uni::from_ascii*5", "uni::is_utf32le*9", "uni::utf16_swap*17", "uni::utf32_swap_inplace*9"]
    else:
        l = ["uuid_p::parse_simple*32", "uuid_p::parse_hyphenated*36", "uuid_lo::format_simple*16", "uuid_up::format_hyphenated*16"]
    me = f"{en}*{16 if m in ('uuid_lo', 'uuid_up', 'uuid_fmt') else k if not m.startswith('uuid') and m != 'b64f' else n}"
    return [x for x in l if x.split("*")[0] != en] + ([] if m == "uuid_fmt" or "display" in e else [me])


def c26(c):
    J = everything(c, "tiny" if not c.thorough else "mid")
    trio = []
    for cfg in ["x86d"] + (["x86s", "arm", "wasm"] if c.thorough else []):
        for lv in LEVELS[cfg] if c.thorough else ["sse2", "avx2"]:
            for en in all_entries():
                m, e = en.split("::")
                if not c.thorough and m in ("b64_url", "b64_stdnp", "b64_urlnp", "b32hex", "b32np", "b32hexnp") and e not in (
                        "encode", "decode", "check", "encode_append"):
                    continue
                if m in ("uuid_lo", "uuid_up", "uuid_fmt"):
                    ns = [16]
                elif m == "uuid_p":
                    ns = [32, 36]
                elif m == "b64f":
                    ns = [4]
                else:
                    ns = [8, 16, 48] if not c.thorough else [0, 1, 2, 8, 24, 33, 40, 48, 64]
                for n in ns:
                    l = neighbours(en, n)
                    base = J.add(cfg, en, n, lv)
                    if base is None:
                        continue
                    h1 = J.add(cfg, en, n, lv, hist="+".join(l[:2] + l[-1:]))
                    h2 = J.add(cfg, en, n, lv, hist="self")
                    i = J.add(cfg, en, n, lv, inter="+".join(l + [f"{en}*{n}"] if not en.startswith("uuid_fmt") else l))
                    if m != "uuid_fmt":
                        J.add(cfg, en, n, lv, inter="other")
                    trio += [(base, h1, "after earlier calls"), (base, h2, "on a second call"), (base, i, "with concurrent calls")]
    res = collect(c, J, {"SRC_WRITE", "RACE"})
    n, und = 0, 0
    for jid, m in J.meta.items():
        # lengths added on the way
        if m["n"] > 64 and (m.get("hist") == "self" or m.get("inter") == "other"):
            o = "/".join(x for x in jid.split("/") if not x.startswith(("hist", "inter")))
            if o in J.meta:
                trio.append((o, jid, "on a second call" if "hist" in m else "with concurrent calls"))
    for a, b, how in trio:
        x, y = res.out.get(a), res.out.get(b)
        if not x or not y or x["unres"] or y["unres"]:
            und += 1
            continue
        n += 1
        have = {v["kind"] for v in x["viols"]}
        for v in y["viols"]:
            if v["kind"] not in have and v["kind"] not in ALWAYS_IGNORE:
                res.viols.append(dict(v, kind="HISTORY", detail=f"{how}: {v['kind']}: {v['detail']}", jobs=b))
        if x["sig"] and y["sig"] and x["sig"] != y["sig"]:
            res.viols.append(dict(kind="HISTORY", func=a.split("/")[1], witness="", jobs=b,
                                  detail=f"computes a different function {how} ({b.split('/')[4][:120]})"))
    res.cov["calls_compared"] = n
    res.cov["calls_not_compared"] = und
    res.cov["statics_read"] = sorted({s for r in res.out.values() for s in r.get("statics", [])})
    res.cov["rule"] = ("no write to a source; no unsynchronised write to a static; the function computed (canonical form) and the "
                       "obligations are the same from the initial state, after earlier calls, and when every atomic load may see any "
                       "value another call stores")
    res.summary += f"; {n} calls compared with themselves after and beside other calls, {len(res.viols)} violations"
    if n < und:
        raise Broken("too few histories decided")
    return res


def c28(c):
    J = Jobs()
    pairs = []
    for lv in LEVELS["x86d"]:
        for m in B64 + B32 + HEXC:
            dm = "hex" if m.startswith("hex") else m
            for n in (list(range(0, 100)) if c.thorough else list(range(0, 41)) + [47, 48, 49, 56, 57, 63, 64, 65]):
                J.add("x86d", f"{m}::encode", n, lv, mode="chain", e2=f"{dm}::decode", d2=n, total=1)
            if m not in HEXC:
                for n in (list(range(0, 130)) if c.thorough else list(range(0, 49)) + [56, 64, 72, 80]):
                    J.add("x86d", f"{m}::decode", n, lv, mode="chain", e2=f"{m}::encode", d2=n)
        for m in ("uuid_lo", "uuid_up"):
            J.add("x86d", f"{m}::format_simple", 16, lv, mode="chain", e2="uuid_p::parse_simple", d2=16, total=1)
            J.add("x86d", f"{m}::format_simple", 16, lv, mode="chain", e2="uuid_p::parse", d2=16, total=1)
            J.add("x86d", f"{m}::format_hyphenated", 16, lv, mode="chain", e2="uuid_p::parse_hyphenated", d2=16, total=1)
            J.add("x86d", f"{m}::format_hyphenated", 16, lv, mode="chain", e2="uuid_p::parse", d2=16, total=1)
    for m in B64 + B32 + HEXC:
        for n in [8463] + ([70001] if c.thorough else []):
            J.add("x86d", f"{m}::encode", n, "avx2", mode="chain", e2=f"{'hex' if m in HEXC else m}::decode", d2=n, total=1, sparse=n // 3, tl=400)
    return collect(c, J, {"ROUNDTRIP"})


def c24(c):
    """Parallel encoding on rayon's own iterators, with the thread pool given a sequential meaning."""
    J = Jobs()
    T = 4096
    P = {"b64_std": [2, 3, 4, 5, 7, 8], "b64_url": [3], "b64_stdnp": [2, 3, 4], "b64_urlnp": [2]}
    for m, ps in P.items():
        for p in ps:
            ns = {p * T - 1, p * T, p * T + 1, p * T + 2}
            if p <= 4:
                ns |= {p * T + 3 * k + r for k in range(3, 2 * p + 1, 2) for r in (0, 1, 2)}
            if c.thorough:
                ns |= {p * T + k for k in range(0, 6 * p + 3)} | {2 * p * T + k for k in range(0, 7)}
            for n in sorted(ns):
                L = enclen(m, n)
                J.add("x86par", f"{m}::par_encode", n, "avx2" if m != "b64_stdnp" else "ssse3", d=L, p=p, tl=400)
            n = p * T + 1
            for d in (0, enclen(m, n) - 1, enclen(m, n) + 7):
                J.add("x86par", f"{m}::par_encode", n, "sse2" if p == 2 else "avx2", d=d, p=p, tl=400)
        for p, n in ((16, 16 * T), (16, 16 * T + 17), (13, 13 * T + 20), (32, 32 * T + 55)) + (((2, 200001), (64, 64 * T + 7), (100, 100 * T + 1)) if c.thorough else ()):
            J.add("x86par", f"{m}::par_encode", n, "avx2", d=enclen(m, n), p=p, tl=400, sparse=n // 3)
        if c.thorough:
            for p, n in ((16, 16 * T), (16, 16 * T + 17), (13, 13 * T + 20)):
                J.add("x86par", f"{m}::par_encode", n, "avx2", d=enclen(m, n), p=p, tl=800)
        # too short or too few threads to split
        for p in (0, 1, 2, 3, 64, 1 << 20):
            for n in (0, 1, 2, 3, 4, 5, 11, 48, 100, 1000):
                J.add("x86par", f"{m}::par_encode", n, "avx2", d=enclen(m, n), p=p)
    r = collect(c, J, FUNC | {"TOUCHED", "TOUCHED_SHORT", "RESULT_PTR", "OOB_READ", "OOB_WRITE", "OVERLAP", "UNREACHABLE"})
    r.assumptions = r.assumptions + ["rayon's join runs both tasks exactly once (its thread pool is replaced by a sequential one; the parallel iterators analysed are rayon's own)",
                                     "the `unstable` feature is stripped from vsimd (it needs an older nightly and adds nothing to the analysed code)"]
    return r


def c25(c):
    """Every primitive of the SIMD layer, on every instruction set, against its lane-wise meaning."""
    import lanes
    J = Jobs()
    isas = [("x86lane", i.lower(), i.lower()) for i in ("SSE2", "SSSE3", "SSE41", "AVX2")]
    isas += [("armlane", "neon", "neon"), ("wasmlane", "wasm128", "simd128")]
    if c.thorough:
        isas += [("i686lane", i, i) for i in ("sse2", "ssse3", "sse41", "avx2")]
    C16 = ["0100", "0200", "0080", "ffff", "ff7f", "0300", "0101", "02000100"]
    C32 = ["01000000", "00000080", "ffffffff", "03000000", "ff000000", "00010001"]
    CPAIR = ["01000000", "00000100", "ffff0000", "0000ff7f", "01000100", "ffff0100", "00800080"]
    CBYTE = ["0100", "0001", "0101", "ff01", "7f7f", "8080", "807f", "55aa", "a55a0f1e"]
    if c.thorough:
        C16 += [f"{1 << k & 255:02x}{1 << k >> 8:02x}" for k in range(16)] + ["00ff", "ff00", "0f00"]
        C32 += [(1 << k).to_bytes(4, "little").hex() for k in range(32)]
        CPAIR += [(1 << k).to_bytes(2, "little").hex() + "0000" for k in range(16)] + ["0000" + (1 << k).to_bytes(2, "little").hex() for k in range(16)]
        CBYTE += [f"{1 << k:02x}00" for k in range(8)] + [f"00{1 << k:02x}" for k in range(8)] + ["7f80", "fedc", "1337"]

    def consts(name):
        if "_maddubs" in name:
            return CBYTE
        if "_madd" in name:
            return CPAIR
        return C32 if "i32" in name else C16

    def add(cfg, isa, lv, name, args, res, skip):
        d = {"R64": 8, "R128": 16, "R256": 32}.get(res) or lanes.SIZE[res]
        kw = dict(mode="lane", nosig=1)
        if name.endswith(("_load", "_store")):
            kw["al"] = lanes.SIZE[res]
        n = sum(lanes.SIZE[a] for a in args)
        e = f"lane_{isa}::{name}"
        if any(x in name for x in ("_mul_", "_madd")):
            if not skip:
                # products of two unknowns: as uninterpreted values, and with constant second operands
                J.add(cfg, e, n, lv, d=d, uf=1, **kw)
                for k in consts(name):
                    J.add(cfg, e, n, lv, d=d, fix=k, **kw)
            else:
                J.add(cfg, e, n, lv, d=d, fix="01000000", skip=1, **kw)
        elif skip:
            J.add(cfg, e, n, lv, d=d, skip=1, **kw)
        else:
            J.add(cfg, e, n, lv, d=d, **kw)

    for cfg, isa, lv in isas:
        for name, _, args, res in lanes.OPS:
            add(cfg, isa, lv, name, args, res, lanes.unavailable(isa, name))
    for cfg, lv in (("x86lane", "sse2"), ("armlane", "neon"), ("wasmlane", "simd128")):
        for name, _, args, res, only in lanes.PLAIN:
            if only != "x86" or cfg == "x86lane":
                add(cfg, "plain", lv, name, args, res, False)

    ufmiss = []

    def keep(v, meta, r):
        # where a primitive is not offered, it need not return
        if meta.get("skip") and v["kind"] in ("PANIC", "UNREACHABLE", "LOST"):
            return False
        # uninterpreted products can only confirm
        if meta.get("uf") and v["kind"] == "VALUE":
            ufmiss.append(meta["entry"])
            return False
        return True

    res = collect(c, J, FUNC | {"UNREACHABLE", "FEATURE", "OOB_READ", "OOB_WRITE", "ALIGN"}, keep=keep)
    if ufmiss:
        res.unres["not the same products of the same operands (constant operands decide)"] = len(ufmiss)
    res.cov["instruction_sets"] = [f"{a}/{b}" for a, b, _ in isas]
    res.cov["primitives"] = len(lanes.OPS) + len(lanes.PLAIN)
    return res


# technique and level note, where they differ from the usual ones (see gen_manifest.py)
INFO = {
    "C06": ("custom lint over resolved public signatures + compile-fail witnesses with compiling twins + abstract interpretation of token detection",
            "Signatures are judged exhaustively (every public function, trait and type); the witnesses are a fixed list of 200-odd misuse programs. "
            "What unsafe code inside the crates does with a correctly typed borrow is decided by C01, C04 and C26. Trusts rustc's checkers."),
    "C27": ("type-level decision by the compiler: name resolution and type checking of every crate x feature set x target against a sysroot reduced to what the feature set allows",
            "Every subset of std, alloc and detect (uuid with and without its uuid feature), each crate on its own, on x86-64, AArch64, wasm32 (with and without SIMD128) and i586; "
            "thorough adds ARMv7, MIPS64 and AVX2 builds. A client naming the documented interface is compiled on top. The unstable and parallel features are checked on x86-64 against the std of nightly-2025-06-20, for which they are written."),
    "C22": ("bit-vector and affine abstract interpretation of the length functions over ALL lengths at once",
            "Every length (64- and 32-bit; numbers up to usize::MAX, slices up to isize::MAX), every content: encoded_length, estimated_decoded_length and decoded_length are "
            "compared with the exact arithmetic as Boolean functions of the 64 length bits, or as affine functions of a symbolic length split into "
            "residue classes. That actual results have these lengths is decided for the lengths listed in the evidence. Trusts rustc's MIR."),
}

PROPS = {
    "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07,
    "C27": c27,
    "C08": functional(enc(B64)),
    "C09": functional(dec(B64)),
    "C10": functional([f"b64f::{e}" for e in ("forgiving_decode", "forgiving_decode_inplace", "forgiving_decode_to_vec")]),
    "C11": functional(enc(B32)),
    "C12": functional(dec(B32)),
    "C13": functional([f"{m}::{e}" for m in HEXC for e in ENC_SLICE + ["encode_raw"] + ENC_ALLOC] + ["hex::encoded_length"]),
    "C14": functional(["hex::" + e for e in ["decode", "decode_raw", "decode_raw_inplace", "check", "check_raw", "decode_inplace", "decoded_length"] + DEC_ALLOC]),
    "C15": functional([f"uuid_p::{e}" for e in ("parse", "parse_simple", "parse_hyphenated", "ext_parse", "ext_parse_simple", "ext_parse_hyphenated")], "full"),
    "C16": functional([e for e in all_entries() if e.startswith(("uuid_lo", "uuid_up", "uuid_fmt"))]),
    "C17": functional(["uni::is_ascii", "uni::from_ascii"], "full"),
    "C18": functional(["uni::is_utf32le"], "full"),
    "C19": functional([f"uni::{w}_swap{s}" for w in ("utf16", "utf32") for s in ("", "_inplace")], "full"),
    "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24, "C25": c25, "C26": c26, "C28": c28,
}
