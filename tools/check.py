#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's working tree by static analysis."""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sl
import props
from sl import Broken, VERIF


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    evf = os.path.join(ev, f"{pid}.json")
    try:
        with sl.scratch() as tmp:
            r = props.PROPS[pid](props.Ctx(pid, tier, seed, tmp))
    except Broken as e:
        print(f"INCONCLUSIVE property={pid}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    known = load_known(pid)
    viols, hits = [], []
    for v in r.viols:
        k = next((k for k in known if all(str(v.get(a, "")) == b for a, b in k["match"].items())), None)
        (hits if k else viols).append((v, k))
    cov = dict(r.cov)
    doc = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "assumptions": r.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    if viols:
        rp = os.path.join(ev, f"{pid}.violation.json")
        json.dump([v for v, _ in viols], open(rp, "w"), indent=1)
        doc["violation_file"] = rp
    json.dump(doc, open(evf, "w"), indent=1)
    for k in {id(k): k for _, k in hits}.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    shown = {}
    for v, _ in viols:
        key = (v.get("kind"), v.get("func"))
        if key in shown:
            shown[key] += 1
            continue
        shown[key] = 1
        if len(shown) > 25:
            continue
        print(f"{v.get('kind')} in {v.get('func')}: {v.get('detail')}")
        for a in ("witness", "where", "jobs"):
            if v.get(a):
                print(f"    {a}: {v[a]}")
        for s in v.get("stack", [])[:6]:
            print(f"    called from {s}")
    for u, n in sorted(r.unres.items(), key=lambda x: -x[1])[:10]:
        print(f"undecided ({n}): {u}")
    print(f"{pid} {tier}: {r.summary} in {time.time() - t0:.1f} s")
    if viols:
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if not os.path.exists(p):
        return out
    for l in open(p):
        l = l.strip()
        # finding: property=<id> match={"func": "...", "kind": "..."} <what fails>
        if l.startswith(f"finding: property={pid} match="):
            rest = l.split("match=", 1)[1]
            m, i = json.JSONDecoder().raw_decode(rest)
            out.append({"match": m, "what": rest[i:].strip()})
    return out


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
