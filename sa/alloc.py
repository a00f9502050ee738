"""Rule `allocator` (C20): interval-set transfer analysis of ValueAllocator and PacketIdManager.

Abstract pre-state: any sorted, disjoint, maximally merged list of k intervals
(k = 0..kmax) with symbolic end points inside a symbolic range [lowest, highest].
Every path of every public operation is compared with the operation on a plain set
of integers: the answer, and the exact run-length representation afterwards.  The
shape is therefore an inductive invariant of the representation (base case: `new`)."""
import time
import par
import consts
from interp import Interp, State, Budget
from findings import RuleResult
from terms import V, mk, add, sub
import models as M

PROPS = {"C20"}


class Undec(Exception):
    pass


class Layout:
    pass


class A:
    def __init__(self, P, w, kmax):
        self.P, self.w, self.kmax = P, w, kmax
        self.ks = ()
        self.I = I = Interp(P)
        I.exact_iter = True
        I.osets = True
        self.ity = next(t.id for t in P.types if t.s == w)
        self.max = (1 << P.types[self.ity].w) - 1
        self.R = None

    def fn(self, name, owner="ValueAllocator"):
        own = f"{owner}<{self.w}>"
        r = [f for f in self.P.by_name.get(name, []) if f.body and f.self_ty is not None
             and self.P.types[f.self_ty].s.endswith("::" + own) and not f.trait]
        if len(r) != 1:
            raise LookupError(f"{owner}<{self.w}>::{name} ({len(r)} definitions)")
        return r[0]

    def arg(self, n, ty=None):
        return mk("arg", (n,), self.ity if ty is None else ty)

    def start(self):
        st = State()
        self.I.abnormal = []
        return st

    # ---------------------------------------------------------------- layout
    def layout(self):
        """which field is what, derived from what `new(lowest, highest)` builds"""
        I, lo, hi = self.I, self.arg("lowest"), self.arg("highest")
        f = self.fn("new")
        st = self.start()
        out = I.run_fn(st, f, [lo, hi])
        L = None
        for s, r in out:
            self.R.paths += 1
            if not s.cons.assume_le(sub(lo, hi), 0):
                continue            # an empty range: outside the property
            self.taint(s, "new")
            if not (isinstance(r, V) and r.k == "agg"):
                raise Undec("new() result not explicit")
            t = self.P.types[r.ty]
            fs = r.a[1]
            pools = [i for i, x in enumerate(fs) if isinstance(x, V) and x.k == "oset"]
            if len(pools) != 1 or len(fs) != 3:
                raise Undec("unknown representation: " + t.s)
            L = Layout()
            L.ty, L.pool, L.pty = r.ty, pools[0], fs[pools[0]].ty
            L.ivty = self.P.types[L.pty].args[0]
            L.lo = L.hi = None
            names = [x[0] for x in t.vs[0][2]]
            rest = [i for i in range(3) if i != L.pool]
            for i in rest:
                if self.eq(s, fs[i], lo) and L.lo is None and not (self.eq(s, fs[i], hi) and "high" in names[i]):
                    L.lo = i
                elif self.eq(s, fs[i], hi):
                    L.hi = i
            ivs = fs[L.pool].a[0]
            self.R.obligations += 2
            if L.lo is None or L.hi is None:
                self.bad("new", "new(lowest, highest) does not record lowest and highest", f"fields {fs}")
                raise Undec("layout")
            if len(ivs) != 1 or not (isinstance(ivs[0], V) and ivs[0].k == "agg" and len(ivs[0].a[1]) == 2):
                if len(ivs) != 1:
                    self.bad("new", "a new allocator must have the whole range free, as one interval", f"pool {ivs}")
                raise Undec("layout")
            x = ivs[0].a[1]
            vn = [f[0] for f in self.P.types[L.ivty].vs[0][2]] if self.P.types[L.ivty].vs else ["0", "1"]
            a = [i for i in (0, 1) if self.eq(s, x[i], lo)]
            b = [i for i in (0, 1) if self.eq(s, x[i], hi)]
            if not a or not b:
                self.bad("new", "the free interval of a new allocator is not [lowest, highest]", f"pool {ivs}")
                raise Undec("layout")
            L.l = a[0] if len(a) == 1 else (vn.index("low") if "low" in vn else 0)
            L.h = 1 - L.l
        if L is None:
            raise Undec("new() has no completed path")
        for o in I.abnormal:
            s = o.st.fork()
            if o.kind in ("abort", "loop"):
                raise Undec(f"new: {o.msg}")
            if s.cons.assume_le(sub(lo, hi), 0):
                self.bad("new", f"new(lowest <= highest) can panic: {o.msg}", str(o))
        return L

    # ---------------------------------------------------------------- helpers
    def eq(self, st, a, b):
        lo, hi = st.cons.bounds(sub(a, b))
        return lo == 0 and hi == 0

    def bad(self, key, text, path=""):
        self.R.bad(PROPS, f"{self.w}/{key}", f"ValueAllocator<{self.w}>::{key}: {text}", path)

    def taint(self, st, what):
        if st.taint:
            raise Undec(f"{what}: {st.taint[0]}")

    def iv(self, a, b):
        x = [None, None]
        x[self.L.l], x[self.L.h] = a, b
        return mk("agg", (0, tuple(x)), self.L.ivty)

    def pre(self, k):
        """state with an arbitrary well-formed allocator of k intervals"""
        st = self.start()
        lo, hi = self.arg("lowest"), self.arg("highest")
        ivs = [(self.arg(f"l{i}"), self.arg(f"h{i}")) for i in range(k)]
        pts = [(lo, 0)]
        for a, b in ivs:
            pts += [(a, 2 if len(pts) > 1 else 0), (b, 0)]
        pts.append((hi, 0))
        for i in range(len(pts)):
            g = 0
            for j in range(i + 1, len(pts)):
                g += pts[j][1]
                assert st.cons.assume_ge(sub(pts[j][0], pts[i][0]), g)
        fs = [None] * 3
        fs[self.L.pool] = mk("oset", (tuple(self.iv(a, b) for a, b in ivs),), self.L.pty)
        fs[self.L.lo], fs[self.L.hi] = lo, hi
        obj = mk("agg", (0, tuple(fs)), self.L.ty)
        loc = ("h", "alloc")
        st.mem[loc] = obj
        return st, loc, ivs, lo, hi

    def split(self, st, form):
        """[(state, form < 0 ?)]"""
        return self.I.branch_bool(st, self.I.cmp(st, "Lt", form, 0))

    def place(self, st, ivs, v, lo, hi):
        """refine by where v lies: [(state, 'out'|'in'|'gap', index)]"""
        out = []
        for s, b in self.split(st, sub(v, lo)):
            if b:
                out.append((s, "out", 0))
                continue
            for s2, b2 in self.split(s, sub(hi, v)):
                if b2:
                    out.append((s2, "out", 0))
                    continue
                work = [(s2, 0)]
                while work:
                    x, i = work.pop()
                    if i == len(ivs):
                        out.append((x, "gap", i))
                        continue
                    for y, c in self.split(x, sub(v, ivs[i][0])):
                        if c:
                            out.append((y, "gap", i))
                            continue
                        for z, d in self.split(y, sub(ivs[i][1], v)):
                            if d:
                                work.append((z, i + 1))
                            else:
                                out.append((z, "in", i))
        return out

    def eqsplit(self, st, a, b):
        return self.I.branch_bool(st, self.I.cmp(st, "Eq", a, b))

    def same(self, st, pool, want):
        if len(pool) != len(want):
            return False
        for x, (a, b) in zip(pool, want):
            if not (isinstance(x, V) and x.k == "agg"):
                raise Undec("pool element not explicit")
            if not self.eq(st, x.a[1][self.L.l], a) or not self.eq(st, x.a[1][self.L.h], b):
                return False
        return True

    def post(self, st, loc):
        o = st.mem[loc]
        if not (isinstance(o, V) and o.k == "agg"):
            raise Undec("allocator not explicit")
        return o.a[1][self.L.pool].a[0], o.a[1][self.L.lo], o.a[1][self.L.hi]

    def show(self, pool):
        return "[" + ", ".join(f"{x.a[1][self.L.l]}..={x.a[1][self.L.h]}" if isinstance(x, V) and x.k == "agg" else str(x) for x in pool) + "]"

    def opt(self, st, r):
        """('none',) / ('some', x)"""
        if isinstance(r, V) and r.k == "agg":
            n = self.P.types[r.ty].vs[r.a[0]][0]
            return ("none",) if n == "None" else ("some", r.a[1][0])
        raise Undec("Option result not explicit")

    # ---------------------------------------------------------------- operations
    def ops(self):
        """name -> (takes value, &mut, reference(st, ivs, v, lo, hi) -> [(state, answer, pool)])
        answer: int/term, 'none', ('some', x), 'unit', 'panic-or-same'"""
        def allocate(st, ivs, v, lo, hi):
            if not ivs:
                return [(st, "none", ivs)]
            (a, b), rest = ivs[0], ivs[1:]
            return [(s, ("some", a), rest if e else [(add(a, 1), b)] + rest) for s, e in self.eqsplit(st, a, b)]

        def first_vacant(st, ivs, v, lo, hi):
            return [(st, ("some", ivs[0][0]) if ivs else "none", ivs)]

        def use_value(st, ivs, v, lo, hi):
            out = []
            for s, k, i in self.place(st, ivs, v, lo, hi):
                if k != "in":
                    out.append((s, 0, ivs))
                    continue
                a, b = ivs[i]
                for s2, ea in self.eqsplit(s, v, a):
                    for s3, eb in self.eqsplit(s2, v, b):
                        mid = ([] if ea else [(a, sub(v, 1))]) + ([] if eb else [(add(v, 1), b)])
                        out.append((s3, 1, ivs[:i] + mid + ivs[i + 1:]))
            return out

        def deallocate(st, ivs, v, lo, hi):
            out = []
            for s, k, i in self.place(st, ivs, v, lo, hi):
                if k == "out":
                    out.append((s, "panic-or-same", ivs))
                elif k == "in":
                    out.append((s, "unit", ivs))
                else:
                    for s2, el in (self.eqsplit(s, add(ivs[i - 1][1], 1), v) if i > 0 else [(s, 0)]):
                        for s3, er in (self.eqsplit(s2, add(v, 1), ivs[i][0]) if i < len(ivs) else [(s2, 0)]):
                            a = ivs[i - 1][0] if el else v
                            b = ivs[i][1] if er else v
                            out.append((s3, "unit", ivs[:i - (1 if el else 0)] + [(a, b)] + ivs[i + (1 if er else 0):]))
            return out

        def is_used(st, ivs, v, lo, hi):
            return [(s, 1 if k == "gap" else 0, ivs) for s, k, i in self.place(st, ivs, v, lo, hi)]

        def clear(st, ivs, v, lo, hi):
            return [(st, "unit", [(lo, hi)])]

        def interval_count(st, ivs, v, lo, hi):
            return [(st, len(ivs), ivs)]
        return {"allocate": (0, allocate), "first_vacant": (0, first_vacant), "use_value": (1, use_value),
                "deallocate": (1, deallocate), "is_used": (1, is_used), "clear": (0, clear),
                "interval_count": (0, interval_count)}

    def answer_ok(self, s, r, want, wrap=None):
        if wrap is not None:
            return wrap(s, r, want)
        if want in ("unit", "panic-or-same"):
            return True
        if want == "none":
            return self.opt(s, r) == ("none",)
        if isinstance(want, tuple):
            o = self.opt(s, r)
            return o[0] == "some" and self.eq(s, o[1], want[1])
        if isinstance(r, V):
            r = self.I.boolval(s, r) if r.k in ("cmp", "not", "and", "or") else s.cons.value(r)
        if isinstance(r, V):
            lo, hi = s.cons.bounds(r)
            if lo == hi:
                r = int(lo)
        return isinstance(r, int) and r == want

    def op(self, name, owner="ValueAllocator", refname=None, wrap=None, mgr=None):
        takes, ref = self.ops()[refname or name]
        f = self.fn(name, owner)
        label = name if owner == "ValueAllocator" else f"{owner}::{name}"
        for k in [*range(self.kmax + 1), *self.ks]:
            st, loc, ivs, lo, hi = self.pre(k)
            pl = ()
            if mgr is not None:
                st.mem[loc] = mk("agg", (0, (st.mem[loc],)), mgr)
            self_ty = f.sig[0][0] if f.sig else None
            v = self.arg("value")
            args = [mk("ref", (loc, pl), self_ty)] + ([v] if takes else [])
            res = self.I.run_fn(st, f, args)
            ab, self.I.abnormal = self.I.abnormal, []
            self.R.units += 1
            n = 0
            for s, r in res:
                self.R.paths += 1
                self.taint(s, label)
                if mgr is not None:
                    s.mem[loc] = s.mem[loc].a[1][0]
                for s2, want, pool in ref(s, ivs, v, lo, hi):
                    n += 1
                    if isinstance(r, V):
                        pairs = [(s2, r)] if not (isinstance(want, int)) else self.I.branch_bool(s2, r) if r.k in ("cmp", "not", "and", "or", "bit") else [(s2, r)]
                    else:
                        pairs = [(s2, r)]
                    for s3, r3 in pairs:
                        self.R.obligations += 2
                        have, plo, phi = self.post(s3, loc)
                        where = f"free {[(str(a), str(b)) for a, b in ivs]}, value {v if takes else '-'}; after: {self.show(have)}; path {self.path(s3)}"
                        if not self.answer_ok(s3, r3, want, wrap):
                            self.bad(label, f"answers {r3} where a plain set answers {want}", where)
                        if not self.same(s3, have, pool):
                            self.bad(label, f"representation after the call is {self.show(have)}, must be {[(str(a), str(b)) for a, b in pool]}", where)
                        if not (self.eq(s3, plo, lo) and self.eq(s3, phi, hi)):
                            self.bad(label, "changes the range of the allocator", where)
            for o in ab:
                if o.kind in ("abort", "loop"):
                    raise Undec(f"{label}: {o}")
                self.R.obligations += 1
                for s2, want, pool in ref(o.st.fork(), ivs, v, lo, hi):
                    if want != "panic-or-same":
                        self.bad(label, f"can panic ({o.msg}) although a plain set answers {want}",
                                 f"{o.fn.file}:{o.line}; free {[(str(a), str(b)) for a, b in ivs]}; path {self.path(s2)}")
            if not n and not ab:
                raise Undec(label + ": no path completed")
            self.R.samples.append({"operation": f"{label}<{self.w}>", "intervals": k, "paths": len(res), "cases": n})

    def path(self, s):
        return "; ".join(f"{mk('lin', (0, it))} in [{v[0]},{v[1]}]" for it, v in list(s.cons.d.items())[-6:] if len(it) > 1)

    # ---------------------------------------------------------------- manager
    def manager(self):
        P = self.P
        f = self.fn("new", "PacketIdManager")
        st = self.start()
        res = self.I.run_fn(st, f, [])
        ab, self.I.abnormal = self.I.abnormal, []
        if any(o.kind in ("abort", "loop") for o in ab):
            raise Undec("PacketIdManager::new: " + ab[0].msg)
        mty = None
        for s, r in res:
            self.taint(s, "PacketIdManager::new")
            if not (isinstance(r, V) and r.k == "agg" and len(r.a[1]) == 1 and r.a[1][0].k == "agg"):
                raise Undec("PacketIdManager layout")
            mty = r.ty
            fs = r.a[1][0].a[1]
            self.R.obligations += 1
            if not (self.eq(s, fs[self.L.lo], 1) and self.eq(s, fs[self.L.hi], self.max) and self.same(s, fs[self.L.pool].a[0], [(1, self.max)])):
                self.R.bad(PROPS | {"C08"}, f"{self.w}/PacketIdManager::new", f"PacketIdManager<{self.w}>::new: packet identifiers must range over 1..={self.max}, all free", str(r))
        if mty is None:
            raise Undec("PacketIdManager::new: no path")

        def res_wrap(okval, errname):
            def w(s, r, want):
                if not (isinstance(r, V) and r.k == "agg"):
                    raise Undec("Result not explicit")
                n = P.types[r.ty].vs[r.a[0]][0]
                good = want[0] == "some" if isinstance(want, tuple) else want == 1
                if good != (n == "Ok"):
                    return False
                if good:
                    return self.eq(s, r.a[1][0], want[1]) if okval else True
                e = r.a[1][0]
                return isinstance(e, V) and e.k == "agg" and P.types[e.ty].vs[e.a[0]][0] == errname
            return w
        km = self.kmax
        self.kmax = min(km, 2)
        try:
            for name, refname, wrap in (("acquire_unique_id", "allocate", res_wrap(True, "PacketIdentifierFullyUsed")),
                                        ("register_id", "use_value", res_wrap(False, "PacketIdentifierConflict")),
                                        ("is_used_id", "is_used", None), ("release_id", "deallocate", None), ("clear", "clear", None)):
                try:
                    self.op(name, "PacketIdManager", refname, wrap, mty)
                except Undec as e:
                    self.R.undecided.append((f"PacketIdManager<{self.w}>::{name}", str(e)))
        finally:
            self.kmax = km


def run(P, kmax=3, widths=("u16", "u32"), far=8):
    R = RuleResult("allocator")
    R.floor, R.floor_props = 400, PROPS
    with par.limit(Budget, R):
        return _run(P, R, kmax, widths, far)


def _run(P, R, kmax, widths, far):
    for w in widths:
        a = A(P, w, kmax)
        a.ks = consts.sizes(P, "value_allocator.rs", kmax, far) + consts.sizes(P, "packet_id_manager.rs", kmax, far)
        a.R = R
        try:
            a.L = a.layout()
        except LookupError as e:
            R.anchor(str(e), PROPS)
            continue
        except (Undec, Budget) as e:
            R.undecided_unit(f"ValueAllocator<{w}>", str(e), PROPS, False)
            continue
        for name in a.ops():
            try:
                a.op(name)
            except LookupError as e:
                R.anchor(str(e), PROPS)
            except (Undec, Budget) as e:
                R.undecided_unit(f"ValueAllocator<{w}>::{name}", str(e), PROPS, False)
        try:
            a.manager()
        except LookupError as e:
            R.anchor(str(e), PROPS)
        except (Undec, Budget) as e:
            R.undecided_unit(f"PacketIdManager<{w}>", str(e), PROPS, False)
    return R
