"""Rule `rewrite` (C03, C06, C13, C14, C16): the methods that rewrite a PUBLISH (DUP, topic name, Topic Alias).

The connection analysis summarises these methods by their meaning; here the real bodies are followed on every path, on packets
made by the real builder from symbolic fields with enumerated property lists, and the result is compared, through its accessors and
its serialisation, with the specification layout of the fields the method is meant to leave."""
from framing import Undec
from interp import State
from placement import Place
from terms import V, mk, show
import models as M

LISTS = [(), ("TopicAlias",), ("UserProperty",), ("TopicAlias", "UserProperty"), ("UserProperty", "TopicAlias"),
         ("UserProperty", "TopicAlias", "UserProperty"), ("SubscriptionIdentifier", "MessageExpiryInterval", "TopicAlias", "ResponseTopic"),
         ("PayloadFormatIndicator", "ContentType", "CorrelationData")]
MORE = [("TopicAlias", "SubscriptionIdentifier", "SubscriptionIdentifier", "UserProperty", "UserProperty"),
        ("PayloadFormatIndicator", "MessageExpiryInterval", "TopicAlias", "ResponseTopic", "CorrelationData", "UserProperty", "ContentType")]
# method -> (argument, what happens to the topic, what happens to the alias)
METHODS = {
    "set_dup": ("dup", "keep", "keep"),
    "remove_topic_alias": (None, "keep", "drop"),
    "remove_topic_alias_add_topic": ("topic", "set", "drop"),
    "add_extracted_topic_name": ("topic", "set", "keep"),
    "remove_topic_add_topic_alias": ("alias", "clear", "set"),
    "add_topic_alias": ("alias", "keep", "set"),
}
WHO = {"set_dup": "C03 C06 C16", "remove_topic_alias": "C03 C06 C13", "remove_topic_alias_add_topic": "C03 C06 C13",
       "add_extracted_topic_name": "C13", "remove_topic_add_topic_alias": "C03 C13", "add_topic_alias": "C03 C13"}
ALL = {"C03", "C06", "C13", "C14", "C16"}


class Rewrite(Place):
    def __init__(self, P, R):
        super().__init__(P, R)
        self.lit = {}

    def psz(self, p):
        return len(self.lit[p]) if p in self.lit else super().psz(p)

    def L_props(self, s, v):
        es = M.elems_of(v) if v is not None else None
        if es is None:
            return super().L_props(s, v)
        out = [mk("splice", (self.vbibytes(s, self.psize(s, v)),))]
        for p in es:
            out += self.lit[p] if p in self.lit else [mk("splice", (self.pser(p),))]
        return out

    def isa(self, p, name):
        return self.variant(p) == name

    def unit(self, k, m, lists):
        """method m on packets of kind k"""
        R = self.R
        R.units += 1
        f = k.fn(m)
        arg, topic, alias = METHODS[m]
        n = 0
        bases = self.bases(k, "props") if k.v5 else self.bases3(k)
        for c0 in bases:
            for q in ("with topic", "without topic"):
                c1 = dict(c0)
                if q == "without topic":
                    if not k.v5:
                        continue
                    del c1["topic_name"]
                elif topic == "set":
                    continue        # naming a packet that already carries its topic is not a use of the method
                for lst in lists if k.v5 else [()]:
                    if q == "without topic" and "TopicAlias" not in lst:
                        continue        # the builder refuses it (rule codec)
                    n += self.cell(k, f, m, c1, lst, q)
        return n

    def bases3(self, k):
        cs = [c for c in self.combos(k, "quick") if "topic_name" in c and "payload" in c and "dup" in c and "retain" in c]
        return [c for c in cs if c.get("qos") is not None and (("packet_id" in c) == (c["qos"][1].a[0] > 0))]

    def cell(self, k, f, m, c, lst, q):
        R = self.R
        arg, topic, alias = METHODS[m]
        self.I.nstates = 0
        self.turns = len(lst) + 4
        st0 = State()
        self.limits(st0, {n: v for n, v in c.items() if v[0] == "payload"})
        cur = [(st0, [])]
        for i, p in enumerate(lst):
            cur = [(s2, ps + [x]) for s1, ps in cur for s2, x in self.value(s1, p, i)]
        label = f"{k.name}::{m} on a packet {q}, properties [{', '.join(lst)}]"
        n = 0
        for st, ps in cur:
            cc = dict(c)
            if k.v5:
                cc["props"] = ("props", M.mkvec(ps, self.propsty))
            for s0, pkt in self.build(k, list(cc.items()), st.fork())[0]:
                for s1, cv in self.split_bools(s0, cc):
                    n += self.apply(k, f, m, s1, pkt, cv, ps, label)
        return n

    def apply(self, k, f, m, s, pkt, c, ps, label):
        R = self.R
        arg, topic, alias = METHODS[m]
        who = WHO[m]
        out = 0
        if arg == "dup":
            choices = [(s.fork(), [d], d) for d in (0, 1)]
        elif arg == "topic":
            t = self.strarg("new_topic")
            if self.P.types[f.sig[0][1]].k == "ref":
                choices = [(s, [self.refstring(t)], t)]
            else:
                choices = [(s, [M.mkvec([mk("splice", (t,))], f.sig[0][1])], t)]
        elif arg == "alias":
            a = mk("arg", ("alias",), f.sig[0][1])
            s.cons.assume_ge(a, 1)
            choices = [(s, [a], a)]
        else:
            choices = [(s, [], None)]
        for s1, args, val in choices:
            outs, ab = self.run(s1, f, [pkt] + args)
            for o in ab[:2]:
                if self.alive(o.st):
                    self.bad(who + " C05", f"{k.name}: {m} panics ({o.msg})", f"{label}: {o}", o.st)
            okd = False
            for s2, r in outs:
                R.paths += 1
                if not self.alive(s2):
                    continue
                ty = self.P.types[r.ty]
                if ty.path.endswith("result::Result"):
                    if self.variant(r) != "Ok":
                        R.obligations += 1
                        if not self.topic_bad(s2, val):
                            self.bad(who, f"{k.name}: {m} rejects a valid topic name", f"{label}: {show(r)[:100]}", s2)
                        continue
                    r = r.a[1][0]
                    if arg == "topic" and self.topic_bad(s2, val) == "yes":
                        self.bad(who, f"{k.name}: {m} accepts an invalid topic name", label, s2)
                        continue
                okd = True
                out += 1
                self.result(k, m, s2, r, c, ps, val, label, who)
            R.obligations += 1
            if not okd:
                self.bad(who, f"{k.name}: {m} never succeeds", label)
        return out

    def topic_bad(self, s, t):
        """'yes': the path has established that the name is invalid (too long, wildcard); 'maybe': it depends on the content; '' otherwise"""
        if s.cons.bounds(M.seq_len(self.I, s, t))[0] > 65535:
            return "yes"
        out = ""
        for key in list(s.cons.d):
            for x, _ in key:
                if not isinstance(x, V) or x.k == "len" or t not in terms_of(x):
                    continue
                if x.k == "call" and x.a[0] == "str::contains" and s.cons.bounds(x) == (1, 1):
                    return "yes"
                out = "maybe"
        return out

    def result(self, k, m, s, r, c, ps, val, label, who):
        R = self.R
        arg, topic, alias = METHODS[m]
        c2 = dict(c)
        if arg == "dup":
            c2["dup"] = ("bool", val)
        if topic == "set":
            c2["topic_name"] = ("str", val)
        elif topic == "clear":
            c2.pop("topic_name", None)
        states = [(s, None)]
        if k.v5:
            states = []
            for s1, g in self.get(s, k, r, "props"):
                got = M.rdd(self.I, s1, g)
                es = M.elems_of(got)
                R.obligations += 1
                if es is None:
                    raise Undec(f"{m}: property list {show(got)[:100]}")
                es = [M.rdd(self.I, s1, e) for e in es]
                keep = [p for p in ps if not self.isa(p, "TopicAlias")]
                rest = [p for p in es if not self.isa(p, "TopicAlias")]
                al = [p for p in es if self.isa(p, "TopicAlias")]
                if rest != keep:
                    self.bad(who, f"{k.name}: {m} changes the other properties", f"{label}: {[self.variant(p) for p in rest]}", s1)
                    continue
                want = {"keep": [p for p in ps if self.isa(p, "TopicAlias")], "drop": []}.get(alias)
                if want is not None:
                    if al != want:
                        self.bad(who, f"{k.name}: {m} {'leaves a' if alias == 'drop' else 'changes the'} Topic Alias", f"{label}: {len(al)} Topic Alias properties", s1)
                        continue
                    states.append((s1, es))
                    continue
                if len(al) != 1 or al[0] in ps:
                    self.bad(who, f"{k.name}: {m} does not leave exactly the new Topic Alias", f"{label}: {len(al)} Topic Alias properties", s1)
                    continue
                states += [(s2, es) for s2 in self.newalias(s1, al[0], val, k, m, label, who)]
        for s1, es in states:
            if es is not None:
                c2["props"] = ("props", M.mkvec(es, self.propsty))
            if m == "add_extracted_topic_name":
                c2["_extracted"] = 1
            self.accessors(s1, k, r, c2, f"is wrong after {m}", who)
            idw = 4 if "u32" in k.name else 2
            h, body = self.layout(s1, k, c2, idw)
            for s2, h1, body1 in self.check_ser2(s1, k, r, f"after {label}", who):
                R.obligations += 1
                d = None if self.numeq(s2, h1, h) else f"first byte {show(h1)}, specification {show(h)}"
                d = d or self.eqbytes(s2, body1, body)
                if d:
                    self.bad(who, f"{k.name}: {m} leaves a packet that serialises wrongly", f"{label}: {d}", s2)

    def expected(self, k, c):
        e = super().expected(k, {n: v for n, v in c.items() if n != "_extracted"})
        if "_extracted" in c:
            e["topic_name_extracted"] = ("bool", 1)
        return e

    def accdiff(self, s, got, exp):
        if exp is not None and exp[0] == "props":
            g = M.rdd(self.I, s, got)
            a, b = M.elems_of(g), M.elems_of(exp[1])
            if a is not None and b is not None and [M.rdd(self.I, s, x) for x in a] == list(b):
                return None
        return super().accdiff(s, got, exp)

    def check_ser2(self, s, k, r, where, who):
        n0 = len(self.R.findings)
        out = self.check_ser(s, k, r, where)
        for f in self.R.findings[n0:]:
            f.props = (set(who.split()) | f.props | {"C14"}) & (ALL | {"C05"})
            f.key += " (rewritten PUBLISH)"
        return out

    def newalias(self, s, p, val, k, m, label, who):
        """the Topic Alias property the method added serialises as 23 hi lo of the given alias"""
        mode, self.mode = self.mode, "prop"
        try:
            f = self.meth(self.propty, "to_continuous_buffer")
            outs = self.run(s, f, [self.valref(s, p, f.sig[0][0])])[0]
        finally:
            self.mode = mode
        res = []
        for s1, b in outs:
            w = [0x23] + self.L_int(s1, val, 2)
            self.R.obligations += 1
            d = self.eqbytes(s1, b, M.mkvec(w, self.vecu8))
            if d:
                self.bad(who, f"{k.name}: {m} adds a wrong Topic Alias", f"{label}: {d}", s1)
                continue
            self.lit[p] = w
            res.append(s1)
        return res


def terms_of(x):
    out, todo = set(), [x]
    while todo:
        y = todo.pop()
        if isinstance(y, V) and y not in out:
            out.add(y)
            todo += list(y.a)
        elif isinstance(y, tuple):
            todo += list(y)
    return out


# ---------------------------------------------------------------- runner
_G = {}


def _job(j):
    from findings import RuleResult
    from interp import Abort, Budget
    import traceback
    name, m, part = j
    R = RuleResult("rewrite")
    err, n = None, 0
    try:
        n = Rewrite(_G["P"], R).unit(_G["kinds"][name], m, _G["lists"][part::4])
    except LookupError as e:
        err = ("anchor", str(e))
    except (Undec, Abort, Budget) as e:
        err = ("undec", f"{type(e).__name__}: {e}")
    except Exception:
        err = ("undec", traceback.format_exc()[-1200:])
    seen, keep = {}, []
    for f in R.findings:
        f.text, f.path = f.text[:2000], f.path[:4000]
        seen[f.key] = seen.get(f.key, 0) + 1
        if seen[f.key] <= 4:
            keep.append(f)
    return j, n, R.units, R.paths, R.obligations, keep, R.failed, err


def run(P, tier="quick"):
    import par
    from findings import RuleResult
    import pktcodec
    R = RuleResult("rewrite")
    R.floor, R.floor_props = 500, set(ALL)
    ks = {k.name: k for w in ("u16", "u32") for k in pktcodec.kinds(P, w) if k.short == "Publish"}
    if len(ks) != 4:
        R.anchor(f"PUBLISH kinds found: {sorted(ks)}", ALL)
    _G.update(P=P, kinds=ks, lists=LISTS + (MORE if tier == "thorough" else []))
    jobs = []
    for name, k in ks.items():
        for m in METHODS:
            if k.v5:
                jobs += [(name, m, i) for i in range(4)]
            elif m == "set_dup":
                jobs.append((name, m, 0))
    acc = {}
    for job, got in par.run(_job, jobs, R):
        if isinstance(got, par.Stopped):
            R.undecided.append((" ".join(str(x) for x in job), got.why))
            continue
        j, n, units, paths, obl, fs, failed, err = got
        R.units += units
        R.paths += paths
        R.obligations += obl
        R.findings += fs
        R.failed += failed
        if err:
            R.undecided_unit(" ".join(str(x) for x in j), err[1], set(WHO[j[1]].split()) | {"C14"}, err[0] == "anchor")
        d = acc.setdefault(f"{j[0]}::{j[1]}", {"paths": 0, "obligations": 0, "results": 0})
        d["paths"] += paths
        d["obligations"] += obl
        d["results"] += n
    R.samples = [dict({"unit": n}, **d) for n, d in sorted(acc.items())]
    R.extra = {"property_lists": len(_G["lists"]), "methods": sorted(METHODS)}
    return R
