"""Rule `codec` (C02, C03, C04, C05, C18): runs the layers of the codec analysis in parallel."""
import traceback
from findings import RuleResult
from interp import Abort, Budget
from framing import Undec
import consts, dump, mir, lowcodec, optscodec, par, pktcodec

ALL = {"C02", "C03", "C04"}
_G = {}


def _kinds(P):
    return {k.name: k for w in ("u16", "u32") for k in pktcodec.kinds(P, w)}


def _job(j):
    P, tier = _G["P"], _G["tier"]
    R = RuleResult("codec")
    err = None
    try:
        if j[0] == "parse":
            B = pktcodec.Build(P, R, j[2])
            n = B.parse_unit(_G["kinds"][j[1]])
        elif j[0] == "build":
            k = _G["kinds"][j[1]]
            B = pktcodec.Build(P, R, _G["bentries"])
            n = 0
            cs = B.combos(k, tier)
            for c in cs[j[3]::j[4]]:
                n += B.build_unit(k, dict(reversed(list(c.items()))) if j[2] == "rev" else c)
        elif j[0] == "low":
            B = lowcodec.Low(P, R)
            getattr(B, j[1])(*j[2:])
            n = 1
        elif j[0] == "opts":
            getattr(optscodec.Opts(P, R, 2), j[1])()
            n = 1
        elif j[0] == "strs":
            B = lowcodec.Str(P if not j[1] else mir.Program(dump.get_dump(tuple(j[1].split(",")))), R)
            B.strs_unit(j[2] if len(j) > 2 else None)
            n = 1
        elif j[0] == "long":
            B = pktcodec.Build(P, R, j[2])
            B.I.loop_limit, B.I.max_states = j[2] + 60, 2000000
            n = B.build_unit(_G["kinds"][j[1]], B.long_combo(_G["kinds"][j[1]], j[2]))
        elif j[0] == "twice":
            k = _G["kinds"][j[1]]
            B = pktcodec.Build(P, R, 1)
            n = B.twice_unit(k)
    except LookupError as e:
        err = ("anchor", str(e))
    except dump.DumpError as e:
        err = ("undec", "does not build with these features: " + str(e)[-300:])
    except (Undec, Abort, Budget) as e:
        err = ("undec", f"{type(e).__name__}: {e}")
    except Exception:
        err = ("undec", traceback.format_exc()[-1200:])
    if err:
        n = 0
    for f in R.findings:
        f.text = f.text[:2000]
        f.path = f.path[:4000]
    # per key keep a few: the rest adds nothing
    seen, keep = {}, []
    for f in R.findings:
        seen[f.key] = seen.get(f.key, 0) + 1
        if seen[f.key] <= 4:
            keep.append(f)
    return j, n, R.units, R.paths, R.obligations, keep, R.failed, err


def _sizes(P, k, typ, thorough):
    """list lengths at which the code of this kind could change behaviour: a few landmarks (the
    variable-length and byte limits) and the neighbourhood of every constant of its file"""
    if typ == "codes":
        base, hi = (5, 20, 70, 130, 260), 300 if thorough else 24
    else:
        base, hi = (5, 20, 70, 130) if thorough else (5, 20, 40), 40 if thorough else 12
    return sorted(set(base) | set(consts.sizes(P, k.file, 3, hi)))


def run(P, tier="quick", values_only=False):
    R = RuleResult("codec")
    R.floor, R.floor_props = (300, {"C18"}) if values_only else (20000, set(ALL))
    thorough = tier == "thorough"
    _G.clear()
    _G.update(P=P, tier=tier, bentries=3 if thorough else 2)
    try:
        _G["kinds"] = ks = _kinds(P)
    except LookupError as e:
        R.anchor(str(e), ALL)
        return R
    if len(ks) < 29 + 15:
        have = {n for n in ks}
        R.anchor(f"only {len(ks)} packet parsers found: {sorted(have)}", ALL)
    feats = ["", "sso-min-32bit", "sso-lv20"] + (["sso-min-64bit", "sso-lv10"] if thorough else [])
    low = [("strs", f) for f in feats if f] + [("strs", ""), ("opts", "opts_unit"), ("opts", "entry_unit"), ("low", "vbi_unit"), ("low", "enums_unit"), ("low", "prop_unit"), ("low", "props_unit", 4 if thorough else 3)]
    jobs = []
    for n in ks:
        heavy = "Connect" in n or "Publish" in n or "v5.0 Subscribe" in n
        lists = [t for _, t in pktcodec.FIELDS[(ks[n].short, int(ks[n].v5))] if t in ("codes", "filters", "subs")]
        jobs.append(("parse", n, (3 if thorough and not n.startswith("v5.0 Subscribe") else 2) if lists else 1))
        for o in ("fwd", "rev"):
            m = 6 if heavy else 1
            jobs += [("build", n, o, i, m) for i in range(m)]
        jobs.append(("twice", n))
        if lists:
            jobs += [("long", n, m) for m in _sizes(P, ks[n], lists[0], thorough)]
    jobs.sort(key=lambda j: -("Connect" in j[1]) * 4 - ("Publish" in j[1]) * 4 - ("v5.0" in j[1]))
    acc = {}
    jobs = [("low", "prop_unit")] if values_only else low + jobs
    for job, got in par.run(_job, jobs, R):
        if isinstance(got, par.Stopped):
            R.undecided.append((" ".join(str(x) for x in job), got.why))
            continue
        j, n, units, paths, obl, fs, failed, err = got
        R.units += units
        R.paths += paths
        R.obligations += obl
        R.findings += fs
        R.failed += failed
        name = " ".join(str(x) for x in j)
        if err:
            R.undecided_unit(name, err[1], ALL | {"C18"} if j[:2] == ("low", "prop_unit") else ALL, err[0] == "anchor")
        else:
            acc[j[:2]] = acc.get(j[:2], 0) + n
        if j[0] != "twice" and len(R.samples) < 40 and (j[0] != "build" or j[3] == 0):
            R.samples.append({"unit": name, "paths": paths, "obligations": obl, "accepting_paths": n})
    for (what, n), c in acc.items():
        if what == "build" and not c and not any(x[0].startswith("build " + n) for x in R.failed):
            R.bad("C02 C03", f"{n}: the builder accepts nothing", f"{n}: no accepting path of the builder for any combination of setters")
    R.extra = {"packet_kinds_and_id_widths": len(ks), "builder_setter_orders": ["forward", "reverse"],
               "string_layer_feature_sets": feats,
               "accepting_paths_per_kind": {f"{w} {n}": c for (w, n), c in sorted(acc.items()) if w in ("parse", "build")}}
    return R
