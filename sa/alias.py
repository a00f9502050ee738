"""Rule `alias-table` (C13): TopicAliasSend and TopicAliasRecv against the contract the
connection rule assumes of them.

Abstract pre-state: k = 0..3 bindings with symbolic, distinct aliases in 1..=max, in any
least-recently-used order, their topics in every equal/different pattern, the per-topic
alias lists in every order.  Every path of every method must answer as the reference table
(a list of (alias, topic) in LRU order) and leave the three internal structures describing
the reference's post-table.  Value allocation is summarised as a set (decided by C20)."""
from itertools import permutations
from interp import Interp, State, Budget
import par
import consts
from findings import RuleResult
from terms import V, mk, sub, show
import models as M

PROPS = {"C13"}


class Undec(Exception):
    pass


def partitions(n):
    """set partitions as restricted growth strings"""
    def go(p, m):
        if len(p) == n:
            yield tuple(p)
            return
        for c in range(m + 1):
            yield from go(p + [c], max(m, c + 1))
    return list(go([], 0))


class T:
    def __init__(self, P, R, owner, kmax):
        self.P, self.R, self.owner, self.kmax, self.far = P, R, owner, kmax, ()
        self.I = I = Interp(P, prim=self.prim)
        I.exact_iter = True
        I.omaps = True
        I.unordered = False
        r = [f for f in P.by_name.get("new", []) if f.body and self.mine(f)]
        if len(r) != 1:
            raise LookupError(f"{owner}::new ({len(r)})")
        self.new = r[0]
        self.u16 = next(t.id for t in P.types if t.s == "u16")
        self.layout()

    def mine(self, f):
        return f.self_ty is not None and not f.trait and self.P.types[f.self_ty].path.split("::")[-1] == self.owner

    def fn(self, n):
        r = [f for f in self.P.by_name.get(n, []) if f.body and self.mine(f)]
        if len(r) != 1:
            raise LookupError(f"{self.owner}::{n} ({len(r)})")
        return r[0]

    # value allocation, decided by rule `allocator`
    def prim(self, I, st, callee, args, argtys, dty):
        if not callee.local or callee.self_ty is None or self.P.types[callee.self_ty].path.split("::")[-1] != "ValueAllocator":
            return None
        n = callee.name
        if n == "new":
            return [(st, mk("vals", (args[0], args[1], ()), dty))]
        if callee.trait:
            return None
        cur = M.rd(I, st, args[0])
        if not (isinstance(cur, V) and cur.k == "vals"):
            M.raise_abort(I, "allocator value")
        lo, hi, used = cur.a
        put = lambda s, u: M.wr(I, s, args[0], mk("vals", (lo, hi, tuple(u)), cur.ty))

        def where(v):
            """[(state, index in used | 'free' | 'out')]"""
            out, work = [], [(st, 0)]
            while work:
                s, i = work.pop()
                if i < len(used):
                    for s2, e in I.branch_bool(s, I.cmp(s, "Eq", used[i], v)):
                        out.append((s2, i)) if e else work.append((s2, i + 1))
                    continue
                for s2, a in I.branch_bool(s, I.bandor("and", [I.cmp(s, "Le", lo, v), I.cmp(s, "Le", v, hi)])):
                    out.append((s2, "free" if a else "out"))
            return out
        if n == "use_value":
            out = []
            for s, w in where(args[1]):
                if w == "free":
                    put(s, used + (args[1],))
                out.append((s, 1 if w == "free" else 0))
            return out
        if n == "is_used":
            return [(s, 1 if isinstance(w, int) else 0) for s, w in where(args[1])]
        if n == "deallocate":
            out = []
            for s, w in where(args[1]):
                if w == "out":
                    I.panic(s, I.stack[-1][0], I.stack[-1][1], "panic", "deallocate out of range")
                    continue
                if isinstance(w, int):
                    put(s, used[:w] + used[w + 1:])
                out.append((s, I.unit))
            return out
        if n == "clear":
            put(st, ())
            return [(st, I.unit)]
        if n in ("first_vacant", "allocate"):
            out = []
            for s, full in I.branch_bool(st, I.cmp(st, "Eq", sub(hi, lo), len(used) - 1)):
                if full:
                    out.append((s, M.none(I, dty)))
                    continue
                v = mk("arg", ("vacant",), self.u16)
                ok = s.cons.assume_ge(sub(v, lo), 0) and s.cons.assume_ge(sub(hi, v), 0)
                for u in used:
                    if ok:
                        r = [x for x, e in I.branch_bool(s, I.cmp(s, "Eq", u, v)) if not e]
                        ok = bool(r)
                        s = r[0] if r else s
                if ok:
                    if n == "allocate":
                        put(s, used + (v,))
                    out.append((s, M.some(I, dty, v)))
            return out
        M.raise_abort(I, "ValueAllocator::" + n)

    # ---------------------------------------------------------------- layout
    def layout(self):
        I = self.I
        st = State()
        mx = mk("arg", ("max",), self.u16)
        st.cons.assume_ge(mx, 1)
        rs = I.run_fn(st, self.new, [mx])
        self.abn("new")
        if len(rs) != 1 or not (isinstance(rs[0][1], V) and rs[0][1].k == "agg"):
            raise Undec("new: result not explicit")
        s, r = rs[0]
        t = self.P.types[r.ty]
        self.ty = r.ty
        self.fmax = self.fat = self.fta = self.fal = None
        for i, x in enumerate(r.a[1]):
            ft = self.P.types[t.vs[0][2][i][1]]
            if isinstance(x, V) and x.k == "omap":
                key = self.P.types[ft.args[0]]
                if key.k == "int" and self.fat is None:
                    self.fat = i
                elif key.k != "int" and self.fta is None:
                    self.fta = i
                else:
                    raise Undec("unknown representation")
                if x.a[0]:
                    self.bad("new", "a new table is not empty")
            elif isinstance(x, V) and x.k == "vals":
                self.fal = i
                self.R.obligations += 2
                if not (x.a[0] == 1 and self.same(s, x.a[1], mx)) or x.a[2]:
                    self.bad("new", f"the aliases on offer are {show(x.a[0])}..={show(x.a[1])}, must be 1..={show(mx)}, all vacant")
            elif self.P.types[t.vs[0][2][i][1]].k == "int" and self.fmax is None:
                self.fmax = i
                self.R.obligations += 1
                if not self.same(s, x, mx):
                    self.bad("new", f"the maximum is recorded as {show(x)}")
            else:
                raise Undec("unknown representation: field " + t.vs[0][2][i][0])
        if self.fat is None or self.fmax is None:
            raise Undec("unknown representation")
        ft = self.P.types[t.vs[0][2][self.fat][1]]
        self.strty = ft.args[1]
        self.ordered = "indexmap" in ft.path.lower()
        self.fty = [x[1] for x in t.vs[0][2]]
        if self.fta is not None:
            v = self.P.types[self.P.types[self.fty[self.fta]].args[1]]
            self.vecty = v.id
            if not v.path.endswith("vec::Vec") or v.args[0] != self.u16:
                raise Undec("unknown representation: topic index")

    def same(self, st, a, b):
        if a is b or a == b:
            return True
        lo, hi = st.cons.bounds(sub(a, b))
        return lo == hi == 0

    def bad(self, key, text, path=""):
        self.R.bad(PROPS, f"{self.owner}/{key}", f"{self.owner}::{key}: {text}", path)

    def abn(self, n, allow=False):
        ab, self.I.abnormal = self.I.abnormal, []
        for o in ab:
            if o.kind in ("abort", "loop"):
                raise Undec(f"{n}: {o.msg}")
            if not allow:
                self.bad(n, f"can panic: {o.kind} {o.msg} at {o.fn.file}:{o.line}")

    # ---------------------------------------------------------------- states
    def topic(self, c):
        return mk("arg", ("topic%s" % c,), self.strty)

    def pres(self, k):
        for part in partitions(k):
            n = max(part) + 1 if part else 0
            groups = [[i for i in range(k) if part[i] == c] for c in range(n)]
            orders = [[]]
            if self.fta is not None:
                for g in groups:
                    orders = [o + [p] for o in orders for p in permutations(g)]
            else:
                orders = [groups]
            for o in orders:
                yield part, o

    def pre(self, k, part, order):
        st = State()
        I = self.I
        I.abnormal, I.unordered = [], False
        mx = mk("arg", ("max",), self.u16)
        assert st.cons.assume_ge(mx, max(1, k))
        al = [mk("arg", ("alias%d" % i,), self.u16) for i in range(k)]
        for i, a in enumerate(al):
            assert st.cons.assume_ge(a, 1) and st.cons.assume_ge(sub(mx, a), 0)
            for b in al[:i]:
                st = [s for s, e in I.branch_bool(st, I.cmp(st, "Eq", a, b)) if not e][0]
        tp = [self.topic(c) for c in range((max(part) + 1 if part else 0) + (1 if self.extra else 0))]
        for i, a in enumerate(tp):
            st.cons.assume_ge(M.seq_len(I, st, a), 1)
            for b in tp[:i]:
                st = [s for s, e in I.branch_bool(st, M.eq_terms(I, st, a, b)) if not e][0]
        tab = [(al[i], tp[part[i]]) for i in range(k)]
        fs = [None] * len(self.fty)
        fs[self.fmax] = mx
        fs[self.fat] = mk("omap", (tuple(tab),), self.fty[self.fat])
        if self.fta is not None:
            fs[self.fta] = mk("omap", (tuple((tp[c], M.mkvec([al[i] for i in o], self.vecty)) for c, o in enumerate(order + ([()] if self.extra else []))),), self.fty[self.fta])
        if self.fal is not None:
            fs[self.fal] = mk("vals", (1, mx, tuple(al)), self.fty[self.fal])
        loc = ("h", "tab")
        st.mem[loc] = mk("agg", (0, tuple(fs)), self.ty)
        return st, loc, tab, mx

    def post(self, n, s, loc, want, mx, where):
        """the internal structures describe exactly the table `want`"""
        R, I = self.R, self.I
        o = s.mem[loc]
        if not (isinstance(o, V) and o.k == "agg"):
            raise Undec(n + ": table not explicit")
        fs = o.a[1]
        R.obligations += 2
        if not self.same(s, fs[self.fmax], mx):
            self.bad(n, f"changes the maximum to {show(fs[self.fmax])}", where)
        m = fs[self.fat]
        if not (isinstance(m, V) and m.k == "omap"):
            raise Undec(n + ": table not explicit")
        got = m.a[0]
        sh = lambda xs: "{" + ", ".join(f"{show(a)}->{show(t)}" for a, t in xs) + "}"
        eqt = lambda a, b: M.eq_terms(I, s, a, b) == 1
        if self.ordered:
            ok = len(got) == len(want) and all(self.same(s, g[0], w[0]) and eqt(g[1], w[1]) for g, w in zip(got, want))
        else:
            ok = len(got) == len(want) and all(any(self.same(s, g[0], w[0]) and eqt(g[1], w[1]) for g in got) for w in want)
        if not ok:
            self.bad(n, f"leaves the bindings {sh(got)}, must be {sh(want)}" + (" (least recently used first)" if self.ordered else ""), where)
            return
        if self.fta is not None:
            R.obligations += 1
            m = fs[self.fta]
            inv = []
            for t, v in m.a[0]:
                es = M.elems_of(v)
                if es is None or any(M.is_splice(e) for e in es):
                    raise Undec(n + ": alias list not explicit")
                self.empties |= not es
                inv += [(a, t) for a in es]
            if len(inv) != len(want) or not all(sum(self.same(s, a, w[0]) and eqt(t, w[1]) for a, t in inv) == 1 for w in want):
                self.bad(n, f"the topic index says {sh(inv)} while the bindings are {sh(want)}", where)
        if self.fal is not None:
            R.obligations += 1
            used = fs[self.fal].a[2]
            if len(used) != len(want) or not all(any(self.same(s, u, w[0]) for u in used) for w in want):
                self.bad(n, f"aliases marked in use: {[show(u) for u in used]}; bound: {[show(w[0]) for w in want]}", where)

    def where(self, tab, s):
        return "bindings (least recently used first) " + ", ".join(f"{show(a)}->{show(t)}" for a, t in tab) + "; " + "; ".join(
            f"{show(mk('lin', (0, i)))} in [{v[0]},{v[1]}]" for i, v in list(s.cons.d.items())[:10] if not v[2])

    def locate(self, s, tab, a):
        """[(state, index or None)]"""
        out, work = [], [(s, 0)]
        while work:
            x, i = work.pop()
            if i == len(tab):
                out.append((x, None))
                continue
            for y, e in self.I.branch_bool(x, self.I.cmp(x, "Eq", tab[i][0], a)):
                out.append((y, i)) if e else work.append((y, i + 1))
        return out

    def optval(self, s, r):
        if not (isinstance(r, V) and r.k == "agg"):
            raise Undec("result not explicit")
        return M.rdd(self.I, s, r.a[1][0]) if r.a[1] else None

    # ---------------------------------------------------------------- methods
    def cases(self, name, k, part, order):
        """the argument is one of the bound aliases / topics or another one"""
        n = (max(part) + 1 if part else 0) + (1 if self.extra else 0)
        A = list(range(k)) + [None] if name in ("insert_or_update", "get", "peek") else [None]
        B = list(range(n)) + [None] if name in ("insert_or_update", "find_by_topic") else [None]
        for a in A:
            for b in B:
                self.one(name, k, part, order, a, b)

    def one(self, name, k, part, order, ai, ti):
        I, R = self.I, self.R
        f = self.fn(name)
        st, loc, tab, mx = self.pre(k, part, order)
        self_ = mk("ref", (loc, ()), f.sig[0][0])
        al = mk("arg", ("alias",), self.u16) if ai is None else tab[ai][0]
        tp = self.topic("" if ti is None else ti)
        if ai is None:
            for a, _ in tab:
                st = [s for s, e in I.branch_bool(st, I.cmp(st, "Eq", a, al)) if not e][0]
        if ti is None:
            for c in range(max(part, default=-1) + (2 if self.extra else 1)):
                st = [s for s, e in I.branch_bool(st, M.eq_terms(I, st, self.topic(c), tp)) if not e][0]
        args = [self_]
        if name == "insert_or_update":
            st.cons.assume_ge(al, 1)
            st.cons.assume_ge(sub(mx, al), 0)
            st.cons.assume_ge(M.seq_len(I, st, tp), 1)
            args += [M.refto(I, st, tp, f.sig[0][1]), al]
        elif name in ("get", "peek"):
            args += [al]
        elif name == "find_by_topic":
            args += [M.refto(I, st, tp, f.sig[0][1])]
        rs = I.run_fn(st, f, args)
        self.abn(name)
        R.units += 1
        for s, r in rs:
            R.paths += 1
            if s.taint:
                raise Undec(f"{name}: {s.taint[0]}")
            R.obligations += 1
            if name == "insert_or_update":
                for s2, i in self.locate(s, tab, al):
                    want = [e for j, e in enumerate(tab) if j != i] + [(al, tp)]
                    for s3, w in self.classify(s2, tab, tp):
                        self.post(name, s3, loc, want, mx, self.where(tab, s3))
            elif name in ("get", "peek"):
                v = self.optval(s, r)
                for s2, i in self.locate(s, tab, al):
                    wh = self.where(tab, s2)
                    if (v is None) != (i is None) or (v is not None and M.eq_terms(I, s2, v, tab[i][1]) != 1):
                        self.bad(name, f"answers {show(v) if v is not None else None} for an alias bound to {None if i is None else show(tab[i][1])}", wh)
                    want = list(tab)
                    if name == "get" and i is not None and self.ordered:
                        want = [e for j, e in enumerate(tab) if j != i] + [tab[i]]
                    self.post(name, s2, loc, want, mx, wh)
            elif name == "find_by_topic":
                v = self.optval(s, r)
                for s2, ts in self.classify(s, tab, tp):
                    wh = self.where(tab, s2)
                    if (v is None) != (not ts) or (v is not None and not any(self.same(s2, v, tab[i][0]) for i in ts)):
                        self.bad(name, f"answers {show(v) if v is not None else None} for a topic bound to {[show(tab[i][0]) for i in ts]}", wh)
                    self.post(name, s2, loc, tab, mx, wh)
            elif name == "clear":
                self.post(name, s, loc, [], mx, self.where(tab, s))
            elif name == "max":
                if not self.same(s, r, mx):
                    self.bad(name, f"answers {show(r)}", "")
                self.post(name, s, loc, tab, mx, "")
            elif name == "get_lru_alias":
                for s2, full in I.branch_bool(s, I.cmp(s, "Eq", mx, k)):
                    wh = self.where(tab, s2)
                    if full:
                        if not self.same(s2, r, tab[0][0]):
                            self.bad(name, f"all aliases are bound, answers {show(r)} where {show(tab[0][0])} is the least recently used", wh)
                    else:
                        for s3, i in self.locate(s2, tab, r):
                            lo, hi = s3.cons.bounds(r)
                            if i is not None:
                                self.bad(name, f"an alias is vacant, but the bound alias {show(r)} is handed out for replacement", wh)
                            elif not (lo >= 1 and s3.cons.bounds(sub(mx, r))[0] >= 0):
                                self.bad(name, f"answers {show(r)}, outside 1..=max", wh)
                    self.post(name, s2, loc, tab, mx, wh)

    def classify(self, s, tab, tp):
        """[(state, indices of the bindings whose topic is tp)]"""
        I = self.I
        tops = []
        for _, t in tab:
            if t not in tops:
                tops.append(t)
        out, work = [], [(s, 0)]
        while work:
            x, i = work.pop()
            if i == len(tops):
                out.append((x, []))
                continue
            for y, e in I.branch_bool(x, M.eq_terms(I, x, tops[i], tp)):
                if e:
                    out.append((y, [j for j, z in enumerate(tab) if z[1] is tops[i]]))
                else:
                    work.append((y, i + 1))
        return out

    METHODS = {"TopicAliasSend": ("insert_or_update", "get", "peek", "find_by_topic", "clear", "get_lru_alias", "max"),
               "TopicAliasRecv": ("insert_or_update", "get", "peek", "clear", "max")}

    def run(self):
        self.empties = self.extra = False
        self.sweep()
        if self.empties:
            # a topic may keep an empty list: it is then part of what every method must cope with
            self.extra = True
            self.sweep()

    def sweep(self):
        for n in self.METHODS[self.owner]:
            try:
                self.fn(n)
                for k in range(self.kmax + 1):
                    for part, order in self.pres(k):
                        self.cases(n, k, part, order)
                        if self.I.unordered:
                            raise Undec(n + ": iterates a hash map")
                for k in self.far:
                    # sizes named by a constant of the source: all topics distinct, all the same
                    for part in (list(range(k)), [0] * k):
                        self.cases(n, k, part, [[i for i in range(k) if part[i] == c] for c in range(max(part) + 1)])
            except LookupError as e:
                if n in ("peek", "max"):
                    continue
                self.R.anchor(str(e), PROPS)
            except (Undec, Budget) as e:
                self.R.undecided_unit(f"{self.owner}::{n}", str(e), PROPS, False)


def run(P, kmax=3, far=6):
    R = RuleResult("alias-table")
    R.floor, R.floor_props = 300, PROPS
    for o in ("TopicAliasSend", "TopicAliasRecv"):
        try:
            with par.limit(Budget, R):
                t = T(P, R, o, kmax)
                t.far = consts.sizes(P, "topic_alias_send.rs" if o == "TopicAliasSend" else "topic_alias_recv.rs", kmax, far)
                if kmax > 3:
                    t.far = sorted({kmax + 2, *t.far})
                t.run()
        except LookupError as e:
            R.anchor(str(e), PROPS)
        except (Undec, Budget) as e:
            R.undecided_unit(o, str(e), PROPS, False)
    R.samples.append({"bindings in the pre-table": f"0..={kmax}", "units": R.units, "paths": R.paths})
    return R
