"""Check driver: obligations, known findings, evidence, exit status."""
from __future__ import annotations
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def load_known():
    out = {}
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith(("#", "fixed:")):
                continue
            d = json.loads(line)
            if d.get("status") == "known":
                out[(d["property"], d["key"])] = d
    return out


class Check:
    """One property: rules add obligations; each is discharged or violated at a named construct."""

    def __init__(self, pid, title):
        self.pid, self.title = pid, title
        self.obl = []
        self.notes = []
        self.floors = {}
        self.assumptions = []
        self.seen = set()

    def ob(self, rule, construct, ok, where="", detail=""):
        """rule: rule id; construct: stable name (class.method:slot), never a line number."""
        key = f"{rule}|{construct}"
        if hasattr(where, "node"):
            where = f"{where.file}:{getattr(where.node, 'lineno', 0)}"
        if (key, ok) in self.seen:
            return ok
        self.seen.add((key, ok))
        self.obl.append({"rule": rule, "construct": construct, "key": key, "ok": bool(ok), "where": where, "detail": detail})
        return ok

    def floor(self, rule, n):
        self.floors[rule] = n

    def note(self, s):
        self.notes.append(s)


def run(pid, title, level_expl, fn, assumptions=()):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    chk = Check(pid, title)
    chk.assumptions = list(assumptions)
    try:
        from .ctx import Ctx
        ctx = Ctx(tier)
        fn(ctx, chk)
    except Exception as e:
        traceback.print_exc()
        print(f"ERROR property={pid} analysis could not be completed: {type(e).__name__}: {e}")
        sys.exit(2)
    counts = {}
    for o in chk.obl:
        counts[o["rule"]] = counts.get(o["rule"], 0) + 1
    known = load_known()
    viol, kf = [], []
    # a construct violated once is violated, whatever other instances say
    for o in chk.obl:
        if not o["ok"]:
            (kf if (pid, o["key"]) in known else viol).append(o)
    vk = {o["key"] for o in viol + kf}
    dis = [o for o in chk.obl if o["ok"] and o["key"] not in vk]
    low = {r: (counts.get(r, 0), n) for r, n in chk.floors.items() if counts.get(r, 0) < n}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": level_expl,
            "obligations": len({o["key"] for o in chk.obl}),
            "discharged": len({o["key"] for o in dis}),
            "obligations_per_rule": counts,
            "rule_floors": chk.floors,
            "constructs": sorted({o["construct"] for o in chk.obl})[:400],
            "files": sorted({o["where"].split(":")[0] for o in chk.obl if o["where"]}),
            "known_findings": [o["key"] for o in kf],
            "samples": [{k: o[k] for k in ("rule", "construct", "where", "detail")} for o in chk.obl[:12]],
            "notes": chk.notes[:40],
            "classes_in_tree": len(ctx.ix.classes), "functions_in_tree": len(ctx.ix.functions),
        },
        "assumptions": chk.assumptions,
        "violations": len(viol),
        "wall_s": round(time.time() - t0, 3),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    seen = set()
    for o in kf:
        if o["key"] in seen:
            continue
        seen.add(o["key"])
        print(f"KNOWN-FINDING: property={pid} {known[(pid, o['key'])]['what']} [{o['key']}]")
    if viol:
        rp = os.path.join(VERIF, "evidence", pid + ".replay.json")
        with open(rp, "w") as f:
            json.dump(viol, f, indent=1, default=str)
        for o in viol:
            print(f"  {o['rule']}: {o['construct']} at {o['where']}: {o['detail']}")
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    if low:
        print(f"ERROR property={pid} rule(s) matched fewer constructs than expected (anchors moved?): {low}")
        sys.exit(2)
    print(f"OK property={pid} obligations={ev['coverage']['obligations']} rules={counts} wall={ev['wall_s']}s")
    sys.exit(0)
