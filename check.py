#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current source."""
import argparse, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.setrecursionlimit(20000)
import dump, known, mir, par, rules


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    p = a.prop
    t0 = time.time()
    par.TARGET, par.DEADLINE = p, t0 + (600 if a.tier == "quick" else 9000)
    try:
        results = rules.run(p, a.tier)
    except dump.DumpError as e:
        # /repo does not build: nothing can be decided
        print(str(e)[-3000:])
        print("ERROR: /repo does not compile under the analysis driver")
        return finish(p, a.tier, t0, [], [("build", str(e)[-500:])], [])
    bad, failed, kn = [], [], {}
    for r in results:
        for f in r.findings:
            if p in f.props:
                bad.append((r, f))
        for name, why, props, anchor in r.failed:
            if p in props and anchor:
                failed.append((r.name, name, why, anchor))
            elif p in props:
                # the engine cannot follow this unit: no verdict on it, neither way
                r.undecided.append((name, why.strip().splitlines()[-1] if why.strip() else why))
        if p in r.floor_props and r.obligations < r.floor and not r.undecided and not r.failed:
            failed.append((r.name, f"only {r.obligations} obligations decided, floor {r.floor}", "", True))
        for k, n in r.known.items():
            kn[k] = kn.get(k, 0) + n
    return finish(p, a.tier, t0, bad, failed, results, kn)


def finish(p, tier, t0, bad, failed, results, kn=None):
    kn = kn or {}
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    for e in known.for_prop(p):
        if kn.get(e.get("quirk")) or e["id"] in kn:
            print(f"KNOWN-FINDING: property={p} {e['what']} [{e['where']}]")
    rep = os.path.join(ev, f"{p}.violations.txt")
    nv = 0
    lines = []
    keys = {}
    for r, f in bad:
        keys.setdefault(f"{r.name}:{f.key}", []).append(f)
    for k, fs in keys.items():
        nv += 1
        lines.append(f"== {k}  ({len(fs)} paths)")
        for f in fs[:6]:
            lines.append("  " + f.text)
            if f.path:
                lines.append("     on path: " + f.path[:3000])
    for x in failed:
        nv += 1
        lines.append("== not analysable (fail closed): " + " | ".join(str(y) for y in x))
    if nv:
        with open(rep, "w") as fh:
            fh.write("\n".join(lines) + "\n")
    elif os.path.exists(rep):
        os.unlink(rep)
    cov = {"explanation": rules.EXPLAIN.get(p, ""), "rules": []}
    und = 0
    for r in results:
        und += len(r.undecided)
        d = {"rule": r.name, "units_analysed": r.units, "paths": r.paths, "obligations": r.obligations,
             "paths_excluded_by_invariants": r.pruned, "undecided_paths": len(r.undecided)}
        d.update(r.extra)
        if r.nev or r.nfld:
            d["required_events_compared"] = r.nev
            d["post_state_fields_compared"] = r.nfld
        rel = [t for t in r.table if rules.relevant(p, t)][:12]
        if rel:
            d["samples"] = [{"unit": t[0], "paths": t[1], "obligations": t[2], "situations": t[3]} for t in rel]
        if r.samples:
            d.setdefault("samples", []).extend(r.samples[:12])
        cov["rules"].append(d)
    cov["known_findings_seen"] = kn
    for r in results:
        for n, w in r.undecided[:20]:
            print(f"UNDECIDED {r.name} {n}: {w[:200]}")
    obl = sum(r.obligations for r in results)
    for l in lines[:60]:
        print(l[:1200])
    print(f"{p}: {sum(r.units for r in results)} units, {sum(r.paths for r in results)} paths, {obl} obligations, "
          f"{nv} violations, {und} undecided paths, {time.time() - t0:.1f}s")
    with open(os.path.join(ev, f"{p}.json"), "w") as fh:
        json.dump({"property": p, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
                   "coverage": cov, "assumptions": rules.ASSUME.get(p, []), "wall_s": round(time.time() - t0, 2), "violations": nv}, fh, indent=1)
    if nv:
        print(f"VIOLATION property={p} replay={rep}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
