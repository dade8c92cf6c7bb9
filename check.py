#!/usr/bin/env python3-vt
"""check.py <property id>: decide one property of /repo's current source by static analysis."""
import importlib
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sa.common import Ctx  # noqa: E402
from sa.loader import AnalysisBroken  # noqa: E402


def known(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("sa.props." + pid.lower())
    ctx = Ctx(pid)
    mod.check(ctx)
    if os.environ.get("SA_SYNTH"):
        pass
    kn = known(pid)
    viol = [o for o in ctx.obs if o["status"] == "violated"]
    findings = [o for o in viol if o["id"] in kn]
    viol = [o for o in viol if o["id"] not in kn]
    und = [o for o in ctx.obs if o["status"] == "undecided"]
    held = [o for o in ctx.obs if o["status"] == "holds"]
    funcs = sorted({".".join(map(str, q)) if isinstance(q, tuple) else str(q) for q in ctx.analysed})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": f"{mod.RULE} This run posed {len(ctx.obs)} obligations on the current source: {len(held)} hold, {len(viol)} violated, "
                           f"{len(findings)} are listed findings, {len(und)} undecided; {len(funcs)} functions were analysed in context "
                           f"and {ctx.sites} value-flow events / syntax sites inspected.",
            "obligations": len(ctx.obs), "discharged": len(held), "undecided": len(und), "known_findings": len(findings),
            "functions_analysed": len(funcs), "sites_inspected": ctx.sites,
            "functions": funcs[:200],
            "samples": [{k: o[k] for k in ("id", "where", "rule", "status")} for o in ctx.obs[:12]],
            "undecided_list": [{k: o[k] for k in ("id", "where", "detail")} for o in und[:40]],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {len(ctx.obs)} obligations, {len(held)} hold, {len(viol)} violated, {len(findings)} known, {len(und)} undecided; "
          f"{len(funcs)} functions analysed in {time.time() - t0:.1f} s")
    for o in und[:25]:
        print(f"UNDECIDED {o['id']} at {o['where']}: {o['detail'][:200]}")
    for o in findings:
        print(f"KNOWN-FINDING: property={pid} {o['id']} at {o['where']}: {kn[o['id']]}")
    if not ctx.obs or len(held) == 0:
        print("analysis posed no decidable obligation")
        return 2
    if viol:
        d = os.path.join(HERE, ".replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, pid + ".json")
        with open(p, "w") as f:
            json.dump(viol, f, indent=1)
        for o in viol:
            print(f"  {o['id']} at {o['where']}\n    rule: {o['rule']}\n    {o['detail']}")
        print(f"VIOLATION property={pid} replay={p}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except AnalysisBroken as e:
        print("analysis broken:", e)
        rc = 2
    sys.exit(rc)
