"""Rule `framing` (C09): PacketBuilder::feed is analysed on a symbolic stream W.

Lemma 1 (whole): from a fresh builder, every path of feed over W[p..M] is the reference
framer: header byte, minimal 1-4 byte Remaining Length, body; packet bytes, position and
post-state (fresh again) are compared.
Lemma 2 (split): for every cut k, feed(W[p..k]) returning Incomplete followed by
feed(W[k..M]) gives the result, position and builder state of feed(W[p..M]).
By induction over the number of chunks any partition is equivalent to the whole stream."""
from interp import Interp, State, Budget
import par
from findings import RuleResult
from terms import V, mk, add, sub, scale, show
import models as M
from math import gcd

PROPS = {"C09"}


def feasible(cons, cap=1500):
    """the linear part of a constraint store has a rational solution (Fourier-Motzkin); True when in doubt"""
    from terms import atom_range, INF
    rows, atoms = set(), set()

    def row(d, c):
        g = 0
        for k in d.values():
            g = gcd(g, abs(k))
        if g > 1:
            d, c = {t: k // g for t, k in d.items()}, c // g
        rows.add((tuple(sorted(d.items(), key=lambda x: x[0].uid)), c))
    for items, (lo, hi, ex) in cons.d.items():
        lo, hi = cons.key_bounds(items)
        if lo > hi:
            return False
        atoms |= {t for t, _ in items}
        if lo != -INF:
            row(dict(items), -lo)
        if hi != INF:
            row({t: -k for t, k in items}, hi)
    for t in atoms:
        lo, hi = atom_range(t)
        if lo != -INF:
            row({t: 1}, -lo)
        if hi != INF:
            row({t: -1}, hi)
    while True:
        cnt = {}
        for d, c in rows:
            if not d and c < 0:
                return False
            for t, k in d:
                cnt.setdefault(t, [0, 0])[k > 0] += 1
        if not cnt:
            return True
        t = min(cnt, key=lambda t: cnt[t][0] * cnt[t][1])
        pos, neg, rest = [], [], set()
        for d, c in rows:
            k = dict(d).get(t, 0)
            (pos if k > 0 else neg).append((dict(d), c, abs(k))) if k else rest.add((d, c))
        rows = rest
        if len(rows) + len(pos) * len(neg) > cap:
            return True
        for d1, c1, k1 in pos:
            for d2, c2, k2 in neg:
                d = {}
                for x, k in d1.items():
                    d[x] = d.get(x, 0) + k * k2
                for x, k in d2.items():
                    d[x] = d.get(x, 0) + k * k1
                row({x: k for x, k in d.items() if k}, c1 * k2 + c2 * k1)


class Undec(Exception):
    pass


class F:
    def __init__(self, P, R):
        self.P, self.R = P, R
        self.I = Interp(P)
        self.I.exact_iter = True
        self.feed = self.one("feed", "PacketBuilder")
        self.new = self.one("new", "PacketBuilder")
        sg = self.feed.sig[0]
        self.cty = P.types[sg[1]].e
        cs = P.types[self.cty].s
        self.cnew = [f for f in P.by_name["new"] if f.body and f.sig and f.sig[1] == self.cty]
        self.cset = [f for f in P.by_name.get("set_position", []) if f.body and f.sig and P.types[f.sig[0][0]].e == self.cty]
        self.cpos = [f for f in P.by_name.get("position", []) if f.body and f.sig and P.types[f.sig[0][0]].e == self.cty]
        if not (self.cnew and self.cset and self.cpos):
            raise LookupError("Cursor::new / set_position / position for " + cs)
        self.refty = self.cnew[0].sig[0][0]
        self.slty = P.types[self.refty].e
        self.W = mk("arg", ("stream",), self.slty)
        self.usz = self.I.usize_ty
        self.I.index_hook = self.index
        self.len = mk("len", (self.W,), self.usz)
        self.p = mk("arg", ("p",), self.usz)
        self.j = mk("arg", ("j",), self.usz)

    def index(self, st, v, idx, ty):
        """length bytes: 7-bit value plus continuation bit, so that every way of taking them apart has one normal form"""
        if v is not self.W:
            return None
        d = sub(idx, self.p)
        if not isinstance(d, int):
            lo, hi = st.cons.bounds(d)
            if lo != hi:
                return None
            d = int(lo)
        if d == 0:
            return mk("at", (v, self.p), self.I.u8_ty)
        if isinstance(d, int) and 1 <= d <= 4:
            return add(mk("fld7", (d,), self.I.u8_ty), scale(mk("bit", (mk("contbyte", (d,), self.I.u8_ty), 7)), 128))
        return None

    def one(self, name, owner):
        r = [f for f in self.P.by_name.get(name, []) if f.body and f.self_ty is not None
             and self.P.types[f.self_ty].path.split("::")[-1] == owner and not f.trait]
        if len(r) != 1:
            raise LookupError(f"{owner}::{name} ({len(r)})")
        return r[0]

    def run1(self, st, f, args):
        r = self.I.run_fn(st, f, args)
        if len(r) != 1:
            raise Undec(f"{f.name}: {len(r)} paths")
        return r[0]

    def base(self):
        st = State()
        c = st.cons
        assert c.assume_le(self.len, (1 << 40))
        assert c.assume_ge(sub(self.len, self.p), 0)
        return st

    def fresh(self, st, loc):
        st, v = self.run1(st, self.new, [])
        st.mem[loc] = v
        return st

    def dofeed(self, st, bloc, data, pos, tag):
        """[(state, result, position after)]; abnormal paths recorded"""
        I = self.I
        cloc = ("h", "cursor", tag)
        st, c = self.run1(st, self.cnew[0], [mk("ref", (("v", data), ()), self.refty)])
        st.mem[cloc] = c
        st, _ = self.run1(st, self.cset[0], [mk("ref", (cloc, ()), self.cset[0].sig[0][0]), pos])
        out = []
        for s, r in I.run_fn(st, self.feed, [mk("ref", (bloc, ()), self.feed.sig[0][0]), mk("ref", (cloc, ()), self.feed.sig[0][1])]):
            if s.taint:
                raise Undec("feed: " + str(s.taint[0]))
            s, q = self.run1(s, self.cpos[0], [mk("ref", (cloc, ()), self.cpos[0].sig[0][0])])
            out.append((s, r, q))
        self.abn()
        return out

    def abn(self):
        for o in self.I.abnormal:
            self.R.obligations += 1
            if o.kind in ("abort", "loop"):
                raise Undec(str(o))
            if not feasible(o.st.cons):
                continue
            self.bad("panic", f"feed can panic: {o.kind} {o.msg} at {o.fn.file}:{o.line}", self.path(o.st), {"C05"})
        self.I.abnormal = []

    def bad(self, key, text, path="", more=()):
        self.R.bad(PROPS | set(more), key, "PacketBuilder::feed: " + text, path)

    def path(self, s):
        out = []
        for it, v in s.cons.d.items():
            if len(out) < 14:
                out.append(f"{show(mk('lin', (0, it)))} in [{v[0]},{v[1]}]" if not v[2] else f"{show(mk('lin', (0, it)))} not in {sorted(v[2])}")
        return "; ".join(out)

    # ------------------------------------------------------------ comparison
    def eq(self, st, a, b, why, d=0):
        """structural equality of two terms under the constraints; reason of difference or None"""
        if a is b or a == b:
            return None
        I = self.I
        if isinstance(a, V) and a.k == "cint":
            a = a.a[0]
        if isinstance(b, V) and b.k == "cint":
            b = b.a[0]
        if isinstance(a, V) and isinstance(b, V):
            if a.k == "agg" and b.k == "agg" and (a.ty == b.ty or a.ty is None or b.ty is None) and not self.isnum(a):
                if a.a[0] != b.a[0] or len(a.a[1]) != len(b.a[1]):
                    return f"{why}: {show(a)} / {show(b)}"
                t = self.P.types[a.ty] if a.ty is not None else None
                for i, (x, y) in enumerate(zip(a.a[1], b.a[1])):
                    nm = t.vs[a.a[0]][2][i][0] if t is not None and t.vs else str(i)
                    r = self.eq(st, x, y, why + "." + nm, d + 1)
                    if r:
                        return r
                return None
            for x, y in ((a, b), (b, a)):
                if x.k in ("ref", "boxp"):
                    return self.eq(st, M.rd(I, st, a), M.rd(I, st, b), why + "*", d + 1)
            if M.is_seq(a) or M.is_seq(b) or a.k in ("repn",) or b.k in ("repn",):
                return self.eqseq(st, a, b, why)
        lo, hi = st.cons.bounds(sub(a, b)) if self.numeric(a) and self.numeric(b) else (0, 1)
        if lo == hi == 0:
            return None
        e = M.eq_terms(I, st, a, b)
        if e == 1:
            return None
        return f"{why}: {show(a)} / {show(b)}"

    def isnum(self, a):
        return False

    def numeric(self, a):
        if isinstance(a, int):
            return True
        if a.k in ("lin", "len", "bits", "byte", "bit", "trunc", "wrap", "cmp", "and", "or", "not"):
            return True
        return a.ty is not None and self.P.types[a.ty].k in ("int", "bool", "char")

    def segs(self, st, v):
        """normal form of a byte sequence: list of explicit elements / (base, from, to)"""
        out = []

        def put(x):
            if isinstance(x, tuple) and out and isinstance(out[-1], tuple) and out[-1][0] is x[0] \
                    and self.same(st, out[-1][2], x[1]):
                out[-1] = (x[0], out[-1][1], x[2])
                return
            if isinstance(x, tuple) and self.same(st, x[1], x[2]):
                return
            out.append(x)

        def go(v):
            if v.k == "sl":
                put((v.a[0], v.a[1], v.a[2]))
            elif v.k == "repn":
                put((mk("zeros", (v.a[0],)), 0, v.a[1]))
            else:
                es = M.elems_of(v)
                if es is None:
                    put((v, 0, M.seq_len(self.I, st, v)))
                else:
                    for e in es:
                        if M.is_splice(e):
                            go(e.a[0])
                        elif isinstance(e, V) and e.k == "at":
                            put((e.a[0], e.a[1], add(e.a[1], 1)))
                        else:
                            put(e)
        go(v)
        return out

    def same(self, st, a, b):
        if a is b or a == b:
            return True
        lo, hi = st.cons.bounds(sub(a, b))
        return lo == hi == 0

    def eqseq(self, st, a, b, why):
        A, B = self.segs(st, a), self.segs(st, b)
        if len(A) == len(B):
            for x, y in zip(A, B):
                if isinstance(x, tuple) != isinstance(y, tuple):
                    break
                if isinstance(x, tuple):
                    if x[0] is not y[0] or not self.same(st, x[1], y[1]) or not self.same(st, x[2], y[2]):
                        break
                elif self.eq(st, x, y, ""):
                    break
            else:
                return None
        f = lambda S: "[" + ", ".join(f"{show(x[0])}[{show(x[1])}..{show(x[2])}]" if isinstance(x, tuple) else show(x) for x in S) + "]"
        return f"{why}: {f(A)} / {f(B)}"

    def kind(self, r):
        if not (isinstance(r, V) and r.k == "agg"):
            raise Undec("result not explicit")
        return self.P.types[r.ty].vs[r.a[0]][0]

    # ------------------------------------------------------------ lemmas
    def whole(self):
        """Lemma 1; returns the incomplete outcomes too"""
        I, R = self.I, self.R
        st = self.base()
        B = ("h", "builder")
        st = self.fresh(st, B)
        init = st.mem[B]
        res = self.dofeed(st, B, self.W, self.p, "w")
        R.units += 1
        acc = {}
        for s, r, q in res:
            R.paths += 1
            for s2, want in self.reference(s):
                if not feasible(s2.cons):
                    continue
                acc[want[0]] = acc.get(want[0], 0) + 1
                k = self.kind(r)
                where = f"path {self.path(s2)}"
                R.obligations += 2
                if k != want[0]:
                    self.bad("whole/" + want[0], f"returns {k} where the frame format requires {want[0]} (header of {want[1]} bytes)", where)
                    continue
                if not self.same(s2, q, want[2]):
                    self.bad("whole/position", f"{k}: position after the call is {show(q)}, must be {show(want[2])}", where)
                if k in ("Complete", "Error"):
                    R.obligations += 1
                    d = self.eq(s2, s2.mem[B], init, "builder")
                    if d:
                        self.bad("whole/reset", f"{k}: the builder is not ready for the next frame: {d}", where)
                if k == "Complete":
                    self.packet(s2, r.a[1][0], want, where)
        R.samples.append({"lemma": "whole frame", "paths": len(res), "reference outcomes": acc})
        return res

    def packet(self, s, pk, want, where):
        R = self.R
        P = self.P
        loc = ("h", "pkt")
        s.mem[loc] = pk
        hb, rl, body = want[3], want[4], want[5]

        def obs(n):
            f = [x for x in P.by_name.get(n, []) if x.body and x.self_ty is not None and P.types[x.self_ty].path.split("::")[-1] == "RawPacket"]
            if not f:
                return None
            out = self.I.run_fn(s.fork(), f[0], [mk("ref", (loc, ()), f[0].sig[0][0])])
            if self.I.abnormal:
                o = self.I.abnormal[0]
                self.I.abnormal = []
                raise Undec(str(o))
            return out
        for n, w in (("packet_type", self.I.binop(s, "Shr", hb, 4, self.I.u8_ty)), ("flags", self.I.binop(s, "BitAnd", hb, 15, self.I.u8_ty)),
                     ("remaining_length", rl), ("data_as_slice", body)):
            for s2, v in obs(n) or []:
                R.obligations += 1
                if n == "data_as_slice":
                    d = self.eqseq(s2, M.rdd(self.I, s2, v), w, n)
                else:
                    d = self.eq(s2, v, w, n)
                if d and n == "remaining_length" and isinstance(v, V) and v.k == "trunc" and self.same(s2, v.a[0], w):
                    d = None
                if d:
                    self.bad("whole/" + n, f"Complete packet: {d}", where)

        # recv's PUBLISH handlers take the payload out of the shared-buffer variant only
        dv = self.field(pk, "data")
        if dv is not None:
            nm = self.P.types[dv.ty].vs[dv.a[0]][0]
            for s2, y in self.I.branch_bool(s.fork(), self.I.cmp(s, "Eq", self.I.binop(s, "Shr", hb, 4, self.I.u8_ty), 3)):
                R.obligations += 1
                if y and "Publish" in [x[0] for x in self.P.types[dv.ty].vs] and nm != "Publish" and feasible(s2.cons):
                    self.bad("whole/variant", f"a PUBLISH frame is delivered as PacketData::{nm}; the PUBLISH handlers accept only PacketData::Publish", where, {"C05"})

    def field(self, v, name):
        """explicit enum-valued field of a struct value, or None"""
        if isinstance(v, V) and v.k == "agg":
            for (n, *_), x in zip(self.P.types[v.ty].vs[v.a[0]][2], v.a[1]):
                if n == name and isinstance(x, V) and x.k == "agg":
                    return x
        return None

    def reference(self, st, start=None):
        """[(state, (kind, header bytes, position, header byte, remaining length, body))]"""
        I = self.I
        p, n = self.p if start is None else start, self.len
        out = []
        av = sub(n, p)
        bt = self.I.u8_ty

        def more(s, i):
            return I.branch_bool(s, I.cmp(s, "Lt", i, av))
        for s, m in more(st, 0):
            if not m:
                out.append((s, ("Incomplete", 0, n)))
                continue
            hb = M.index_value(I, s, self.W, p, bt)
            work = [(s, 1, 0)]
            while work:
                s1, i, rl = work.pop()
                for s2, m in more(s1, i):
                    if not m:
                        out.append((s2, ("Incomplete", i, n)))
                        continue
                    b = M.index_value(I, s2, self.W, add(p, i), bt)
                    for s3, big in I.branch_bool(s2, I.cmp(s2, "Ge", b, 128)):
                        lowb = I.binop(s2, "BitAnd", b, 127, bt)
                        r2 = add(rl, scale(lowb, 128 ** (i - 1)))
                        if big and i == 4:
                            out.append((s3, ("Error", i + 1, add(p, i + 1))))
                        elif big:
                            work.append((s3, i + 1, r2))
                        else:
                            for s4, part in I.branch_bool(s3, I.cmp(s3, "Lt", sub(av, i + 1), r2)):
                                if part:
                                    out.append((s4, ("Incomplete", i + 1, n)))
                                else:
                                    a = add(p, i + 1)
                                    out.append((s4, ("Complete", i + 1, add(a, r2), hb, r2, mk("sl", (self.W, a, add(a, r2)), self.slty))))
        return out

    def split(self, deep=False):
        n, self.differ = 0, None
        cuts = list(range(6)) + [None]
        for c in cuts:
            n += self.split_at([c])
        if not n:
            raise Undec("split lemma: nothing compared")
        if self.differ or deep:
            # the representation depends on the chunking (so no induction): decide partitions into three chunks directly
            before = len(self.R.findings)
            for i, c1 in enumerate(cuts):
                for c2 in cuts[i:]:
                    self.split_at([c1, c2], state=False)
            if self.differ and len(self.R.findings) == before:
                raise Undec("the builder state depends on the chunking, with no observable effect in up to three chunks: " + self.differ)

    def split_at(self, cuts, state=True):
        """cuts: number of bytes before each cut, None = any number >= 6 (so inside the body)"""
        I, R = self.I, self.R
        st = self.base()
        c = st.cons
        ks, prev = [], add(self.p, 6)
        for i, cut in enumerate(cuts):
            if cut is None:
                k = mk("arg", ("k%d" % i,), self.usz)
                assert c.assume_ge(sub(k, prev), 0)
                prev = k
            else:
                k = add(self.p, cut)
            ks.append(k)
        assert c.assume_ge(sub(self.len, ks[-1]), 0)
        assert c.assume_ge(sub(ks[0], self.j), 0) and c.assume_ge(self.j, 0)
        assert c.assume_ge(sub(self.len, self.p), 0)
        B1, B2 = ("h", "builder1"), ("h", "builder2")
        work = [self.fresh(st, B1)]
        lo, pos = 0, self.p
        for i, k in enumerate(ks):
            nxt = []
            d = mk("sl", (self.W, lo, k), self.slty)
            for st in work:
                for s, r, q in self.dofeed(st, B1, d, sub(pos, lo), "a%d" % i):
                    R.paths += 1
                    if self.kind(r) != "Incomplete":
                        continue
                    R.obligations += 1
                    if not self.same(s, add(q, lo), k) and feasible(s.cons):
                        self.bad("split/consumes", f"Incomplete, but the chunk is consumed up to {show(add(q, lo))} only (end {show(k)})", self.path(s))
                        continue
                    nxt.append(s)
            work, lo, pos = nxt, (self.j if i == 0 else k), k
        n = 0
        for s in work:
            R.units += 1
            d2 = mk("sl", (self.W, lo, self.len), self.slty)
            for s1, r1, q1 in self.dofeed(s, B1, d2, sub(pos, lo), "b"):
                R.paths += 1
                q1 = add(q1, lo)
                self.fresh(s1, B2)
                for s2, r2, q2 in self.dofeed(s1, B2, self.W, self.p, "c"):
                    n += 1
                    R.obligations += 3
                    if not feasible(s2.cons):
                        continue
                    k1, k2 = self.kind(r1), self.kind(r2)
                    where = "path " + self.path(s2)
                    nc = {1: "two", 2: "three"}[len(cuts)]
                    if k1 != k2:
                        self.bad("split/kind", f"in {nc} chunks: {k1}; in one chunk: {k2}", where)
                        continue
                    if not self.same(s2, q1, q2):
                        self.bad("split/position", f"{k1}: position {show(q1)} when fed in {nc} chunks, {show(q2)} in one", where)
                    d = self.eq(s2, r1, r2, "result")
                    if d:
                        self.bad("split/result", f"{k1}: the result depends on the chunking: {d}", where)
                    d = self.eq(s2, s2.mem[B1], s2.mem[B2], "builder") if state else None
                    if d:
                        self.differ = self.differ or f"{k1}: {d}"
        R.samples.append({"lemma": "cut after " + " and ".join("6 or more" if c is None else str(c) for c in cuts) + " bytes", "paths before the last chunk": len(work), "compared pairs": n})
        return n


def run(P, tier="quick"):
    R = RuleResult("framing")
    R.floor, R.floor_props = 200, PROPS
    try:
        f = F(P, R)
    except LookupError as e:
        R.anchor(str(e), PROPS)
        return R
    for name, g in (("whole", f.whole), ("split", lambda: f.split(tier == "thorough"))):
        try:
            with par.limit(Budget, R):
                g()
        except (Undec, Budget) as e:
            R.undecided_unit("PacketBuilder::feed/" + name, str(e), PROPS, False)
    return R
