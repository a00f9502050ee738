"""Rule `placement` (C18): every property kind x property-carrying location x multiplicity, through builder and parser.

A cell is a concrete property list with symbolic (valid) values in a packet whose other fields are symbolic.
The real builder and the real parser (on the specification encoding of the same fields) are followed over all paths:
 forbidden cell  no accepting path exists;
 permitted cell  an accepting path exists, and no path rejects a packet that is accepted without the property;
 any cell        builder and parser never disagree.
"""
from codec import VBIMAX
from framing import Undec
from interp import State
from lowcodec import Low, PROPS
from pktcodec import Build, FIELDS
from terms import V, mk, add, sub, show
import models as M

_ACK = ("Puback", "Pubrec", "Pubrel", "Pubcomp", "Suback", "Unsuback")
WHERE = {
    "PayloadFormatIndicator": ("Publish", "Will"), "MessageExpiryInterval": ("Publish", "Will"), "ContentType": ("Publish", "Will"),
    "ResponseTopic": ("Publish", "Will"), "CorrelationData": ("Publish", "Will"), "SubscriptionIdentifier": ("Publish", "Subscribe"),
    "SessionExpiryInterval": ("Connect", "Connack", "Disconnect"), "AssignedClientIdentifier": ("Connack",), "ServerKeepAlive": ("Connack",),
    "AuthenticationMethod": ("Connect", "Connack", "Auth"), "AuthenticationData": ("Connect", "Connack", "Auth"),
    "RequestProblemInformation": ("Connect",), "WillDelayInterval": ("Will",), "RequestResponseInformation": ("Connect",),
    "ResponseInformation": ("Connack",), "ServerReference": ("Connack", "Disconnect"), "ReasonString": ("Connack", "Disconnect", "Auth") + _ACK,
    "ReceiveMaximum": ("Connect", "Connack"), "TopicAliasMaximum": ("Connect", "Connack"), "TopicAlias": ("Publish",), "MaximumQos": ("Connack",),
    "RetainAvailable": ("Connack",),
    "UserProperty": ("Connect", "Connack", "Publish", "Will", "Subscribe", "Unsubscribe", "Disconnect", "Auth") + _ACK,
    "MaximumPacketSize": ("Connect", "Connack"), "WildcardSubscriptionAvailable": ("Connack",), "SubscriptionIdentifierAvailable": ("Connack",),
    "SharedSubscriptionAvailable": ("Connack",),
}
REPEAT = {"UserProperty": None, "SubscriptionIdentifier": ("Publish",)}      # None: wherever it is allowed
LOCATIONS = sorted({x for v in WHERE.values() for x in v})


def repeats(p, loc):
    return p in REPEAT and (REPEAT[p] is None or loc in REPEAT[p])


def verdict(lst, loc):
    """True / False / None (the table does not settle it: Authentication Data needs Authentication Method)"""
    if any(loc not in WHERE[p] for p in lst):
        return False
    if any(lst.count(p) > 1 and not repeats(p, loc) for p in lst):
        return False
    if "AuthenticationData" in lst and "AuthenticationMethod" not in lst or loc == "Auth" and "AuthenticationMethod" not in lst:
        return None
    return True


def cells(loc, tier):
    """the property lists tried in one location"""
    out = []
    base = ("AuthenticationMethod",) if loc == "Auth" else ()
    allowed = [p for p in PROPS if loc in WHERE[p]]
    for p in PROPS:
        b = base or (("AuthenticationMethod",) if p == "AuthenticationData" and loc in WHERE[p] else ())
        out += [(p,), (p, p)]
        if b and p not in b:
            out += [b + (p,), b + (p, p), (p,) + b, (p,) + b + (p,)]
        if "UserProperty" != p:
            out += [b + (p, "UserProperty"), ("UserProperty",) + b + (p,), (p, "UserProperty") + b + (p,)]
    for i, p in enumerate(allowed):
        for q in allowed if tier == "thorough" else allowed[i + 1:]:
            if p != q:
                out.append(base + (p, q))
                if tier == "thorough" and not repeats(p, loc):
                    out.append(base + (p, q, p))
    out += [base + ("UserProperty",) * 3] + ([("SubscriptionIdentifier",) * 3] if loc == "Publish" else [])
    # everything the location allows, in one packet
    al = [p for p in allowed if p not in base]
    out += [base + tuple(al), base + tuple(reversed(al))]
    return list(dict.fromkeys(out))


class Place(Low, Build):
    def __init__(self, P, R, entries=1):
        super().__init__(P, R, entries)
        self.mode = "props"
        self.opaque_props = False
        self.turns = 4
        self.known = {}
        self.I.loop_hook = lambda st, fn, fid, bb, n: "stop" if n > self.turns else None

    # -- property values --------------------------------------------------------------------------
    def value(self, st, name, i):
        """[(state, Property value)] with any valid value of the kind, made by the real decoder"""
        kinds = self.prop_types()
        if name not in kinds:
            raise LookupError(f"Property::{name}")
        idx, ty = kinds[name]
        pid, kind = PROPS[name]
        vals, wire = self.symval(st, f"{name}.{i}.", kind)
        mode, self.mode = self.mode, "prop"
        try:
            pf = self.meth(self.propty, "parse")
            outs = self.run(st, pf, [self.valref(st, M.mkvec([pid] + wire, self.vecu8), pf.sig[0][0])])[0]
        finally:
            self.mode = mode
        out = []
        for s, r in outs:
            if self.variant(r) != "Ok" or not self.alive(s):
                continue        # the value rules are checked by the property layer
            p = r.a[1][0].a[1][0]
            if self.variant(p) != name:
                continue
            self.known[p] = M.seq_len(self.I, s, M.mkvec([pid] + wire, self.vecu8))
            if not (s.cons.assume_ge(self.psz(p), 2) and s.cons.assume_le(self.psz(p), 131080)):
                continue
            out.append((s, p))
        if not out:
            raise Undec(f"no valid value of {name}")
        return out

    def isprop(self, v):
        return isinstance(v, V) and (v.k == "prop" or v in self.known)

    def prop_contract(self, I, st, callee, args, argtys, dty):
        v = M.rdd(I, st, args[0])
        if callee.name in ("size", "to_continuous_buffer", "to_buffers") and isinstance(v, V) and v in self.known:
            if callee.name == "size":
                return [(st, self.psz(v))]
            b = self.pser(v)
            if callee.name == "to_continuous_buffer":
                return [(st, M.mkvec([mk("splice", (b,))], dty))]
            return [(st, mk("vec", ((M.refto(I, st, b, self.refsl),),), dty))]
        return super().prop_contract(I, st, callee, args, argtys, dty)

    def psz(self, p):
        return mk("psz1", (p,), self.usz) if p in self.known else super().psz(p)

    def pser(self, p):
        return mk("pbytes", (p,), self.slty) if p in self.known else super().pser(p)

    def psize(self, st, v):
        es = M.elems_of(v) if isinstance(v, V) and v.k in ("vec", "agg") else None
        if es is None:
            return super().psize(st, v)
        n = 0
        for p in es:
            n = add(n, self.psz(p))
        return n

    def L_props(self, s, v):
        if v is None or M.elems_of(v) is None:
            return super().L_props(s, v)
        return [mk("splice", (self.vbibytes(s, self.psize(s, v)),))] + [mk("splice", (self.pser(p),)) for p in M.elems_of(v)]

    # -- one location -----------------------------------------------------------------------------
    def bases(self, k, field):
        """representative full combinations of the setters"""
        cs = [c for c in self.combos(k, "quick") if field in c]
        full = max(len(c) for c in cs)
        seen, out = set(), []
        for c in cs:
            # the QoS decides whether a packet identifier belongs into the packet; nothing else changes the layout
            key = c["qos"][1].a[0] if "qos" in c else 0
            if len(c) < full or key in seen or any(v[0] in ("subs", "codes", "filters") and len(v[1]) != 1 for v in c.values()):
                continue
            seen.add(key)
            if k.short == "Publish" and key == 0:
                c = {n: v for n, v in c.items() if n != "packet_id"}
            out.append(c)
        return out

    def follow(self, k, st, c):
        """(accepting states, rejecting states) of the builder"""
        outs, _ = self.build(k, list(c.items()), st.fork())
        self.R.paths += len(outs) + len(self.rejected)
        return [s for s, _ in outs], [s for s, _ in self.rejected if self.alive(s)]

    def parse(self, k, st, c, idw):
        acc, rej = [], []
        for s, cv in self.split_bools(st.fork(), c):
            h, body = self.layout(s, k, cv, idw)
            outs, ab = self.doparse(s, k, h, body)
            for o in ab[:2]:
                if self.alive(o.st):
                    self.bad("C04 C05", f"{k.name}: parse panics ({o.msg})", str(o), o.st)
            self.R.paths += len(outs)
            for s2, r in outs:
                if self.alive(s2):
                    (acc if self.variant(r) == "Ok" else rej).append(s2)
        return acc, rej

    def unit(self, k, loc, tier="quick", part=0, parts=1):
        R = self.R
        field = "will_props" if loc == "Will" else "props"
        idw = 4 if "u32" in k.name else 2
        accepted = 0
        R.units += 1
        for c in self.bases(k, field):
            other = "props" if loc == "Will" else "will_props"
            c = dict(c)
            if other in c:
                c[other] = ("props", M.mkvec([], self.propsty))
            for lst in cells(loc, tier)[part::parts]:
                accepted += self.cell(k, loc, field, c, lst, idw)
        return accepted

    def cell(self, k, loc, field, c, lst, idw):
        R = self.R
        want = verdict(lst, loc)
        self.I.nstates = 0
        self.turns = max(len(lst), 2) + 2
        label = f"{k.name}{' will' if loc == 'Will' else ''}: property list [{', '.join(lst)}]"
        st0 = State()
        self.limits(st0, {n: v for n, v in c.items() if v[0] == "payload"})
        for t, v in c.values():
            for x in (v if isinstance(v, tuple) else (v,)) if t in ("str", "bin", "will", "filters") else [e[0] for e in v] if t == "subs" else ():
                if isinstance(x, V) and x.k == "arg" and x.ty == self.strt:
                    st0.cons.assume_le(mk("len", (x,), self.usz), 65535)
        cur = [(st0, [])]
        for i, p in enumerate(lst):
            cur = [(s2, ps + [x]) for s1, ps in cur for s2, x in self.value(s1, p, i)]
        n = 0
        for st, ps in cur:
            cc = dict(c)
            cc[field] = ("props", M.mkvec(ps, self.propsty))
            acc, rej = self.follow(k, st, cc)
            pacc, prej = self.parse(k, st, cc, idw)
            n += len(acc) + len(pacc)
            R.obligations += len(acc) + len(rej) + len(pacc) + len(prej) + 1
            if want is False:
                why = "not permitted there" if any(loc not in WHERE[p] for p in lst) else "repeated"
                bad = ", ".join(sorted({p for p in lst if loc not in WHERE[p] or lst.count(p) > 1 and not repeats(p, loc)}))
                for s in acc[:1]:
                    self.bad("C18", f"{k.name} {loc}: the builder accepts {bad} ({why})", label, s)
                for s in pacc[:1]:
                    self.bad("C18 C04", f"{k.name} {loc}: parse accepts {bad} ({why})", label, s)
                continue
            if want:
                if not acc:
                    self.bad("C18", f"{k.name} {loc}: the builder rejects a permitted property list", label)
                if not pacc:
                    self.bad("C18 C03", f"{k.name} {loc}: parse rejects a permitted property list", label)
                cb = dict(c)
                base = [p for p, x in zip(ps, lst) if x == "AuthenticationMethod" and (loc == "Auth")]
                cb[field] = ("props", M.mkvec(base, self.propsty))
                for what, rs in (("the builder", rej), ("parse", prej)):
                    for s in rs:
                        # would the packet be accepted without the property?
                        ok = self.follow(k, s, cb)[0] if what == "the builder" else self.parse(k, s, cb, idw)[0]
                        if [x for x in ok if self.alive(x)]:
                            self.bad("C18" if what == "the builder" else "C18 C03", f"{k.name} {loc}: {what} rejects a permitted property for some field values", label, s)
                            break
            # agreement
            for s in prej:
                if [x for x in self.follow(k, s, cc)[0] if self.alive(x)]:
                    self.bad("C18 C03", f"{k.name} {loc}: the builder accepts what parse rejects", label, s)
                    break
            for s in pacc:
                if [x for x in self.follow(k, s, cc)[1] if self.alive(x)]:
                    self.bad("C18 C04", f"{k.name} {loc}: parse accepts what the builder rejects", f"{label}: {', '.join(sorted({w for x, w in self.rejected if self.alive(x)}))}", s)
                    break
        return n


# ---------------------------------------------------------------- runner
_G = {}


def _job(j):
    from findings import RuleResult
    from interp import Abort, Budget
    import traceback
    loc, name, part, parts = j
    R = RuleResult("placement")
    err, n = None, 0
    try:
        n = Place(_G["P"], R).unit(_G["kinds"][name], loc, _G["tier"], part, parts)
    except LookupError as e:
        err = ("anchor", str(e))
    except (Undec, Abort, Budget) as e:
        err = ("undec", f"{type(e).__name__}: {e}")
    except Exception:
        err = ("undec", traceback.format_exc()[-1200:])
    seen, keep = {}, []
    for f in R.findings:
        f.text, f.path = f.text[:2000], f.path[:4000]
        seen[f.key] = seen.get(f.key, 0) + 1
        if seen[f.key] <= 4:
            keep.append(f)
    return j, n, R.units, R.paths, R.obligations, keep, R.failed, err


def run(P, tier="quick"):
    import par
    from findings import RuleResult
    import pktcodec
    R = RuleResult("placement")
    R.floor, R.floor_props = 3000, {"C18"}
    ks = {k.name: k for w in ("u16", "u32") for k in pktcodec.kinds(P, w)}
    _G.update(P=P, tier=tier, kinds=ks)
    jobs = []
    for loc in LOCATIONS:
        short = "Connect" if loc == "Will" else loc
        names = [n for n, k in ks.items() if k.v5 and k.short == short]
        if not names:
            R.anchor(f"v5.0 {short}::parse", {"C18"})
        heavy = {"Publish": 8, "Connect": 4, "Will": 4, "Subscribe": 2, "Connack": 2}.get(loc, 1) * (4 if tier == "thorough" else 1)
        jobs += [(loc, n, i, heavy) for n in names for i in range(heavy)]
    jobs.sort(key=lambda j: -j[3])
    per = {}
    for job, got in par.run(_job, jobs, R):
        if isinstance(got, par.Stopped):
            R.undecided.append((" ".join(str(x) for x in job), got.why))
            continue
        j, n, units, paths, obl, fs, failed, err = got
        R.units += units
        R.paths += paths
        R.obligations += obl
        R.findings += fs
        R.failed += failed
        if err:
            R.undecided_unit(" ".join(str(x) for x in j), err[1], {"C18"}, err[0] == "anchor")
        d = per.setdefault(f"{j[1]} {j[0]}", {"cells": len(cells(j[0], tier)), "paths": 0, "accepting_paths": 0, "obligations": 0})
        d["paths"] += paths
        d["accepting_paths"] += n
        d["obligations"] += obl
    R.samples = [dict({"unit": n}, **d) for n, d in sorted(per.items())]
    R.extra = {"locations": LOCATIONS, "property_kinds": len(PROPS), "cells": sum(d["cells"] for d in per.values())}
    return R
