"""Path-sensitive abstract interpreter over monomorphised MIR.

Every state is a set of facts over hash-consed symbolic terms (no execution of
the program, no solver): branch conditions refine an interval / finite-domain /
linear-difference constraint store, calls to in-crate helpers are inlined
(context-sensitive), collections and std are modelled (models.py)."""
import sys
from math import gcd
import terms
from terms import V, mk, add, sub, scale, Cons, INF

sys.setrecursionlimit(20000)

UNIT = None


class Abort(Exception):
    """path cannot be continued (reported as undecided)"""


class State:
    __slots__ = ("fr", "mem", "cons", "trace", "taint", "cnt", "x")

    def __init__(self):
        self.fr = {}
        self.mem = {}
        self.cons = Cons()
        self.trace = None
        self.taint = ()
        self.cnt = 0
        self.x = {}

    def fork(self):
        s = State()
        s.fr = {k: dict(v) for k, v in self.fr.items()}
        s.mem = dict(self.mem)
        s.cons = self.cons.copy()
        s.trace = self.trace
        s.taint = self.taint
        s.cnt = self.cnt
        s.x = dict(self.x)
        return s

    def emit(self, item):
        self.trace = (self.trace, item)

    def trace_list(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def fresh(self, tag, ty=None):
        self.cnt += 1
        return mk("fresh", (tag, self.cnt), ty)


class Budget(Exception):
    pass


class Outcome:
    """abnormal end of a path"""
    __slots__ = ("kind", "fn", "line", "msg", "st", "stack")

    def __init__(self, kind, fn, line, msg, st, stack):
        self.kind, self.fn, self.line, self.msg, self.st, self.stack = kind, fn, line, msg, st, stack

    def __repr__(self):
        return f"{self.kind}@{self.fn.path if self.fn else '?'}:{self.line} {self.msg}"


SKIP_WRAP = ("std::mem::MaybeUninit", "std::mem::ManuallyDrop", "core::mem::MaybeDangling",
             "std::mem::MaybeDangling", "core::mem::maybe_dangling::MaybeDangling", "std::mem::maybe_dangling::MaybeDangling")


class Interp:
    def __init__(self, P, prim=None, reps=1, loop_limit=60, max_states=200000):
        self.P = P
        self.prim = prim
        self.reps = reps
        self.exact_iter = False     # True: a collection of unknown length may not be represented by its first elements
        self.loop_limit = loop_limit
        self.abnormal = []
        self.fid = 0
        self.depth = 0
        self.stack = []
        self.nsteps = 0
        self.nstates = 0
        self.max_states = max_states
        self.unknown = {}
        self.inlined = set()
        self.modelled = set()
        self._loops = {}
        self._call_cache = {}
        terms.TYINFO = lambda t: P.types[t]
        terms.NAMER = self._namer
        import models
        self.models = models
        self.bool_ty = next((t.id for t in P.types if t.k == "bool"), None)
        self.usize_ty = next((t.id for t in P.types if t.s == "usize"), None)
        self.u8_ty = next((t.id for t in P.types if t.s == "u8"), None)
        self.unit_ty = next((t.id for t in P.types if t.s == "()"), None)
        self.unit = mk("agg", (0, ()), self.unit_ty)
        self._disc2var = {}
        self.length_hook = None
        self.index_hook = None
        self.omaps = False
        self.disc_hook = None
        self.in_hook = None
        self.neq_hook = None
        self.eq_hook = None        # (state, a, b): two byte sequences known to be equal
        self.loop_hook = None
        self.rep_len = {}
        self.osets = False

    def _namer(self, v):
        if v.ty is None:
            return None
        t = self.P.types[v.ty]
        if t.k == "enum":
            return (t.vs[v.a[0]][0],)
        if t.k == "struct":
            return (t.path.split("::")[-1],)
        return None

    # ------------------------------------------------------------ helpers
    def tyof(self, i):
        return self.P.types[i]

    def deref_ty(self, tyid):
        t = self.P.types[tyid]
        if t.k in ("ref", "ptr"):
            return t.e
        if t.k == "struct" and t.path == "std::boxed::Box" and t.args:
            return t.args[0]
        return None

    def rangeof(self, tyid):
        t = self.P.types[tyid]
        if t.k == "bool":
            return (0, 1)
        if t.k == "int":
            if t.sg:
                return (-(1 << (t.w - 1)), (1 << (t.w - 1)) - 1)
            return (0, (1 << t.w) - 1)
        if t.k == "char":
            return (0, 0x10FFFF)
        return None

    def disc_of_variant(self, ty, vi):
        return ty.vs[vi][1]

    def variant_of_disc(self, tyid, d):
        m = self._disc2var.get(tyid)
        if m is None:
            m = {v[1]: i for i, v in enumerate(self.P.types[tyid].vs)}
            self._disc2var[tyid] = m
        return m.get(d)

    # ------------------------------------------------------------ memory
    def read_loc(self, st, loc):
        k = loc[0]
        if k == "l":
            f = st.fr.get(loc[1])
            if f is None:
                return mk("dead", (loc[1], loc[2]))
            v = f.get(loc[2])
            if v is None:
                return mk("uninit", (loc[1], loc[2]))
            return v
        if k == "o":
            v = st.mem.get(loc)
            if v is None:
                p = loc[1]
                ty = self.deref_ty(p.ty) if p.ty is not None else None
                v = mk("deref", (p,), ty)
            return v
        if k == "v":
            return loc[1]
        v = st.mem.get(loc)
        if v is None:
            return mk("uninit", loc)
        return v

    def write_loc(self, st, loc, v):
        if loc[0] == "l":
            f = st.fr.get(loc[1])
            if f is not None:
                f[loc[2]] = v
        elif loc[0] == "v":
            st.taint = st.taint + ("write-to-immutable",)
        else:
            st.mem[loc] = v

    def project(self, st, v, e):
        """e: ('f',i,ty) ('v',var) ('at',idx,ty) ('ss',from,to)"""
        k = e[0]
        if k == "f":
            if isinstance(v, V):
                if v.k == "agg":
                    if e[1] < len(v.a[1]):
                        return v.a[1][e[1]]
                    return mk("uninit", ("fld", e[1]))
                if v.k == "dc":
                    return mk("vf", (v.a[0], v.a[1], e[1]), e[2])
                if v.k == "uninit" or v.k == "dead":
                    return v
                return self.simplify_field(st, v, e[1], e[2])
            return mk("fld", (v, e[1], ""), e[2])
        if k == "v":
            if isinstance(v, V) and v.k == "agg":
                return v
            return mk("dc", (v, e[1]), v.ty if isinstance(v, V) else None)
        if k == "at":
            return self.models.index_value(self, st, v, e[1], e[2])
        if k == "ss":
            return self.models.slice_value(self, st, v, e[1], e[2])
        if k == "mv":
            return self.models.ordmap.project(self, st, v, e[1])
        raise Abort(f"project {e}")

    def simplify_field(self, st, v, i, ty):
        if v.ty is not None:
            t = self.P.types[v.ty]
            nm = ""
            if t.k == "struct" and t.vs and i < len(t.vs[0][2]):
                nm = t.vs[0][2][i][0]
            return mk("fld", (v, i, nm), ty)
        return mk("fld", (v, i, ""), ty)

    def read(self, st, loc, path):
        v = self.read_loc(st, loc)
        for e in path:
            v = self.project(st, v, e)
        return v

    def expand(self, st, v, e):
        """turn a symbolic aggregate into an explicit one so that a part can be written"""
        if isinstance(v, V) and v.k == "agg":
            return v
        if not isinstance(v, V) or v.ty is None:
            return None
        t = self.P.types[v.ty]
        if e[0] == "f":
            if t.k in ("struct",):
                fs = tuple(self.project(st, v, ("f", i, f[1])) for i, f in enumerate(t.vs[0][2]))
                return mk("agg", (0, fs), v.ty)
            if t.k in ("tuple", "closure"):
                fs = tuple(self.project(st, v, ("f", i, ft)) for i, ft in enumerate(t.es))
                return mk("agg", (0, fs), v.ty)
            return None
        if e[0] == "v":
            fs = tuple(mk("vf", (v, e[1], i), f[1]) for i, f in enumerate(t.vs[e[1]][2]))
            return mk("agg", (e[1], fs), v.ty)
        if e[0] == "at" and t.k == "array" and 0 <= t.n <= 64:
            fs = tuple(self.models.index_value(self, st, v, i, t.e) for i in range(t.n))
            return mk("agg", (0, fs), v.ty)
        return None

    def update(self, st, old, path, val, i=0):
        if i == len(path):
            return val
        e = path[i]
        if e[0] == "v":
            ex = self.expand(st, old, e) if not (isinstance(old, V) and old.k == "agg") else old
            if ex is None:
                raise Abort("update dc")
            return self.update(st, ex, path, val, i + 1)
        if e[0] == "f":
            ex = self.expand(st, old, e)
            if ex is None:
                if isinstance(old, V) and old.k in ("uninit", "dead"):
                    n = e[1] + 1
                    ex = mk("agg", (0, tuple(mk("uninit", ("f", j)) for j in range(n))), None)
                else:
                    raise Abort(f"update field of {old}")
            fs = list(ex.a[1])
            while len(fs) <= e[1]:
                fs.append(mk("uninit", ("f", len(fs))))
            fs[e[1]] = self.update(st, fs[e[1]], path, val, i + 1)
            return mk("agg", (ex.a[0], tuple(fs)), ex.ty)
        if e[0] == "at":
            return self.models.update_index(self, st, old, e[1], e[2],
                                            lambda o: self.update(st, o, path, val, i + 1))
        if e[0] == "ss":
            return self.models.update_slice(self, st, old, e[1], e[2],
                                            lambda o: self.update(st, o, path, val, i + 1))
        if e[0] == "mv":
            return self.models.ordmap.update(self, st, old, e[1], lambda o: self.update(st, o, path, val, i + 1))
        raise Abort(f"update {e}")

    def write(self, st, loc, path, val):
        if not path:
            self.write_loc(st, loc, val)
            return
        old = self.read_loc(st, loc)
        self.write_loc(st, loc, self.update(st, old, path, val))

    def ptr_target(self, st, v):
        """pointer value -> (loc, path)"""
        if isinstance(v, V):
            if v.k == "ref":
                return v.a[0], v.a[1]
            if v.k == "boxp":
                return v.a[0], ()
            if v.k == "agg" and v.a[1] and v.ty is not None and self.P.types[v.ty].path == "std::boxed::Box":
                return self.ptr_target(st, v.a[1][0])
            return ("o", v), ()
        raise Abort(f"deref of {v}")

    def place(self, st, fid, locals_ty, p):
        loc = ("l", fid, p[0])
        path = ()
        ty = locals_ty[p[0]]
        for e in p[1]:
            if e == "*":
                v = self.read(st, loc, path)
                loc, path = self.ptr_target(st, v)
                ty = self.deref_ty(ty) if ty is not None else None
                if ty is None:
                    ty = -1
            else:
                k = e[0]
                if k == "f":
                    if ty is not None and ty >= 0:
                        t = self.P.types[ty]
                        if t.k == "union" or t.path in SKIP_WRAP or t.path.endswith("MaybeDangling"):
                            ty = e[2]
                            continue
                        if t.path == "std::boxed::Box" and t.k == "struct":
                            # raw pointer inside a Box
                            v = self.read(st, loc, path)
                            if isinstance(v, V) and v.k in ("boxp", "ref"):
                                ty = e[2]
                                continue
                    path = path + (("f", e[1], e[2]),)
                    ty = e[2]
                elif k == "v":
                    path = path + (("v", e[1]),)
                elif k == "i":
                    idx = st.cons.value(self.read(st, ("l", fid, e[1]), ()))
                    et = self.P.types[ty].e if ty is not None and ty >= 0 else None
                    path = path + (("at", idx, et),)
                    ty = et
                elif k == "ci":
                    et = self.P.types[ty].e
                    if e[3]:
                        ln = self.models.length_of(self, st, self.read(st, loc, path))
                        idx = sub(ln, e[1])
                    else:
                        idx = e[1]
                    path = path + (("at", idx, et),)
                    ty = et
                elif k == "ss":
                    if e[3]:
                        ln = self.models.length_of(self, st, self.read(st, loc, path))
                        path = path + (("ss", e[1], sub(ln, e[2])),)
                    else:
                        path = path + (("ss", e[1], e[2]),)
                else:
                    raise Abort(f"projection {e}")
        return loc, path, ty

    # ------------------------------------------------------------ constants
    def const(self, c):
        k = c[0]
        if k == "int":
            t = self.P.types[c[2]]
            n = c[1]
            if t.k == "int" and t.sg and n >= (1 << (t.w - 1)):
                n -= 1 << t.w
            return n
        if k == "bytes":
            return mk("ref", (("v", mk("bytes", (bytes(c[1]),), self.P.types[c[2]].e)), ()), c[2])
        if k == "fn":
            return mk("fn", (), c[1])
        if k == "zst":
            t = self.P.types[c[1]]
            return mk("agg", (0, ()), c[1])
        if k == "agg":
            t = self.P.types[c[1]]
            return mk("agg", (c[2], tuple(self.const(x) for x in c[3])), c[1])
        if k == "ref":
            inner = self.const(c[1])
            if isinstance(inner, int):
                inner = mk("cint", (inner,), c[1][2])
            return mk("ref", (("v", inner), ()), c[2])
        if k == "static":
            return mk("static", (c[1],), c[2])
        return mk("opq", (c[1],), c[1])

    def operand(self, st, fid, lt, o):
        if o[0] == "k":
            v = o[2] if len(o) > 2 else None
            if v is None:
                v = self.const(o[1])
                o.append(v)
            return v
        if o[0] == "rc":
            return 1 if o[1] == "OverflowChecks" else 0
        loc, path, ty = self.place(st, fid, lt, o[1])
        v = self.read(st, loc, path)
        return self.norm_read(v)

    def norm_read(self, v):
        if isinstance(v, V) and v.k == "cint":
            return v.a[0]
        return v

    def operand_ty(self, lt, o):
        if o[0] == "k":
            c = o[1]
            return c[2] if c[0] in ("int", "bytes", "ref", "static") else c[1]
        if o[0] == "rc":
            return self.bool_ty
        return self.place_ty(lt, o[1])

    def place_ty(self, lt, p):
        ty = lt[p[0]]
        for e in p[1]:
            if e == "*":
                ty = self.deref_ty(ty)
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = self.P.types[ty].e
        return ty

    # ------------------------------------------------------------ branching
    def branch_bool(self, st, v):
        """list of (state, 0/1)"""
        v = self.boolval(st, v)
        if isinstance(v, int):
            return [(st, 1 if v else 0)]
        s1 = st.fork()
        out = []
        if st.cons.assume_eq(v, 0):
            out.append((st, 0))
        if s1.cons.assume_eq(v, 1):
            out.append((s1, 1))
        return out

    def boolval(self, st, v):
        if isinstance(v, int):
            return v
        k = v.k
        if k == "cmp":
            r = st.cons.decide_lt0(v.a[1]) if v.a[0] == "lt0" else st.cons.decide_eq0(v.a[1])
            if r is not None:
                return r
        elif k == "not":
            x = self.boolval(st, v.a[0])
            return 1 - x if isinstance(x, int) else self.bnot(x)
        elif k in ("and", "or"):
            xs = [self.boolval(st, x) for x in v.a]
            return self.bandor(k, xs)
        return st.cons.value(v)

    def bnot(self, v):
        if isinstance(v, int):
            return 1 - v
        if v.k == "not":
            return v.a[0]
        return mk("not", (v,))

    def bandor(self, k, xs):
        z = 0 if k == "and" else 1
        out = []
        for x in xs:
            if isinstance(x, int):
                if x == z:
                    return z
                continue
            if x not in out:
                out.append(x)
        if not out:
            return 1 - z
        if len(out) == 1:
            return out[0]
        return mk(k, tuple(sorted(out, key=lambda t: t.uid)))

    def cmp(self, st, op, a, b):
        if isinstance(a, V) and a.k == "cint":
            a = a.a[0]
        if isinstance(b, V) and b.k == "cint":
            b = b.a[0]
        if op == "Eq" or op == "Ne":
            # booleans compared with constants
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and isinstance(x, V) and x.k in ("cmp", "not", "and", "or"):
                    r = x if y == 1 else self.bnot(x)
                    if y not in (0, 1):
                        r = 0
                    return r if op == "Eq" else self.bnot(r)
            f = sub(a, b)
            r = st.cons.decide_eq0(f)
            if r is None:
                r = self.one_bit(f)
            if r is None:
                e = self.expandbytes(st, f)
                if e is not f:
                    r = (1 if e == 0 else 0) if isinstance(e, int) else st.cons.decide_eq0(e)
            if r is None:
                c, g, items = Cons.canon(f)
                if g < 0:
                    f = scale(f, -1)
                r = mk("cmp", ("eq0", f))
            return r if op == "Eq" else self.bnot(r)
        if op == "Lt":
            f = sub(a, b)
            neg = False
        elif op == "Gt":
            f = sub(b, a)
            neg = False
        elif op == "Ge":
            f = sub(a, b)
            neg = True
        elif op == "Le":
            f = sub(b, a)
            neg = True
        else:
            raise Abort(op)
        r = st.cons.decide_lt0(f)
        if r is None:
            r = self.top_bit(f)
        if r is None:
            r = mk("cmp", ("lt0", f))
        return self.bnot(r) if neg else r

    def floor_lt(self, f, c, d):
        """g*Y + r < 0 with r in [0, g)  <=>  Y < 0, for g a large coefficient over a 0/1 atom"""
        if len(d) != 2:
            return None
        (t1, k1), (t2, k2) = sorted(d.items(), key=lambda x: abs(x[1]))
        if terms.atom_range(t2) != (0, 1) or abs(k1) != 1:
            return None
        lo, hi = terms.atom_range(t1)
        if lo != 0 or hi == INF:
            return None
        # value = c + k1*t1 + k2*t2; decide for t2 = 0 and t2 = 1
        r = []
        for v in (0, 1):
            b = c + k2 * v
            l, h = (b, b + hi) if k1 > 0 else (b - hi, b)
            r.append(1 if h < 0 else 0 if l >= 0 else None)
        if None in r:
            return None
        e = self.cmp0(t2)
        return r[0] if r[0] == r[1] else e if r[1] else self.bnot(e)

    def cmp0(self, t):
        """the truth of a 0/1 number"""
        return t

    def quot(self, st, a, n):
        """(a >> n, a mod 2^n) of a linear form whose parts separate, else None"""
        if isinstance(a, int):
            return a >> n, a & ((1 << n) - 1)
        if a.k != "lin":
            return None
        m = 1 << n
        c, d = terms.lin(a)
        rest = terms.mklin(c % m, {t: k % m for t, k in d.items() if k % m})
        if any(k % m and k < 0 for k in d.values()):
            return None
        lo, hi = st.cons.bounds(rest, 1)
        if lo < 0 or hi >= m:
            return None
        return terms.mklin(c // m, {t: k // m for t, k in d.items() if k // m}), rest

    def mask_lin(self, st, a, b, w):
        if isinstance(a, int):
            a, b = b, a
        if isinstance(a, int) or not isinstance(b, int) or a.k != "lin" or b <= 0:
            return None
        n = (b & -b).bit_length() - 1       # zero low bits
        top = b >> n
        if top & (top + 1):
            return None                     # not one contiguous run
        h = n + top.bit_length()
        q = self.quot(st, a, n)
        if q is None:
            return None
        x = q[0]                            # bits n..
        hi = st.cons.bounds(a, 1)[1]
        if hi >= (1 << h):
            r = self.quot(st, x, h - n)
            if r is None:
                return None
            x = r[1]
        return scale(x, 1 << n)

    def one_bit(self, f):
        """f == 0 for f = c + k*bits with a single unknown bit: that bit (or its negation)"""
        c, d = terms.lin(f)
        if len(d) != 1:
            return None
        (t, k), = d.items()
        if t.k == "bit":
            lo, i, x = 0, 0, t
        elif t.k == "bits":
            us = [(len(t.a) - 1 - j, b) for j, b in enumerate(t.a) if not isinstance(b, int)]
            if len(us) != 1:
                return None
            i, x = us[0]
            lo = terms.atom_range(t)[0]
        else:
            return None
        z, o = c + k * lo == 0, c + k * (lo + (1 << i)) == 0
        return x if o and not z else self.bnot(x) if z and not o else 0

    def top_bit(self, f):
        """f < 0 for f = x - 2^(w-1) (or its negation): the top bit of x"""
        c, d = terms.lin(f)
        if len(d) != 1:
            return self.floor_lt(f, c, d)
        (t, k), = d.items()
        if k not in (1, -1) or t.ty is None or t.k in ("bits", "len", "fresh"):
            return None
        ti = self.P.types[t.ty]
        if ti.k != "int" or ti.sg or ti.w != 8:
            return None
        if k == 1 and c == -128:
            return self.bnot(self.bit(t, 7))
        if k == -1 and c == 127:
            return self.bit(t, 7)
        return None

    # bits -------------------------------------------------------------
    def bit(self, x, i):
        if isinstance(x, int):
            return (x >> i) & 1
        if x.k == "bits":
            n = len(x.a)
            return x.a[n - 1 - i] if i < n else 0
        if x.k == "byte":
            return self.bit(x.a[0], 8 * x.a[1] + i) if i < 8 else 0
        if x.k in ("cmp", "not", "and", "or", "bit", "in", "eq") or (
                x.ty is not None and self.P.types[x.ty].k == "bool"):
            return x if i == 0 else 0
        if x.k == "lin":
            b = self.lin_bit(x, i)
            return mk("bit", (x, i)) if b is None else b
        hi = terms.atom_range(x)[1]
        if hi is not None and hi != INF and (int(hi) >> i) == 0:
            return 0
        return mk("bit", (x, i))

    def lin_bit(self, x, i):
        """bit i of a sum of parts that occupy disjoint bit ranges"""
        c, parts = x.a[0], []
        if c < 0:
            return None
        for t, k in x.a[1]:
            lo, hi = terms.atom_range(t)
            if k <= 0 or k & (k - 1) or lo < 0 or hi == INF:
                return None
            n = k.bit_length() - 1
            parts.append((n, n + max(1, int(hi).bit_length()), t))
        parts.sort(key=lambda q: q[0])
        if any(p[1] > q[0] for p, q in zip(parts, parts[1:])):
            return None
        if any((c >> p[0]) & ((1 << (p[1] - p[0])) - 1) for p in parts):
            return None
        for lo, hi, t in parts:
            if lo <= i < hi:
                return self.bit(t, i - lo)
        return (c >> i) & 1

    def tobits(self, st, x, w):
        if isinstance(x, V):
            x2 = st.cons.value(x)
            x = x2
        return tuple(self.bit(x, i) for i in range(w - 1, -1, -1))

    def frombits(self, st, bits):
        bits = tuple(st.cons.value(b) if isinstance(b, V) else b for b in bits)
        if all(isinstance(b, int) for b in bits):
            n = 0
            for b in bits:
                n = n * 2 + b
            return n
        # canonical: all bits of one value
        w = len(bits)
        last = bits[-1]
        if isinstance(last, V) and last.k == "bit" and last.a[1] == 0:
            x = last.a[0]
            full = True
            top = terms.atom_range(x)[1] if x.k != "lin" else None
            for i in range(w):
                b = bits[w - 1 - i]
                exp = self.bit(x, i)
                if isinstance(exp, V):
                    exp = st.cons.value(exp)
                if isinstance(b, int) and isinstance(exp, V) and x.k != "lin" and w > 8:
                    y = st.cons.value(mk("byte", (x, i // 8), self.u8_ty))
                    if isinstance(y, int):
                        exp = y >> i % 8 & 1
                if b is not exp and b != exp:
                    full = False
                    break
            if full and (top is not None and top < (1 << w) or st is not None and st.cons.bounds(x)[1] < (1 << w)):
                return x
        # single boolean widened
        if all(b == 0 for b in bits[:-1] if isinstance(b, int)) and all(isinstance(b, int) for b in bits[:-1]) \
                and isinstance(last, V) and last.k != "bit":
            return last
        if w >= 8 and isinstance(last, V) and last.k == "bit" and last.a[1] % 8 == 0 and last.a[0].k not in ("lin", "at", "byte") \
                and all(b == 0 and isinstance(b, int) for b in bits[:w - 8]):
            x, b0 = last.a
            if all(isinstance(b, V) and b.k == "bit" and b.a[0] is x and b.a[1] == b0 + 7 - j for j, b in enumerate(bits[w - 8:])):
                return mk("byte", (x, b0 // 8), self.u8_ty)
        # strip leading zeros, keep canonical width
        i = 0
        while i < w and bits[i] == 0 and isinstance(bits[i], int):
            i += 1
        if w - i > 8:
            r = self.segments(st, bits[i:])
            if r is not None:
                return r
        return mk("bits", bits[i:])

    def segments(self, st, bits):
        """a wide pattern as the sum of its runs of consecutive bits of one value; None unless there are several"""
        n, runs, c, p = len(bits), [], 0, 0
        while p < n:
            b = bits[n - 1 - p]
            if isinstance(b, int):
                c += b << p
                p += 1
                continue
            if b.k != "bit":
                return None
            x, i0, q = b.a[0], b.a[1], p
            while q < n:
                e = bits[n - 1 - q]
                if isinstance(e, V) and e.k == "bit" and e.a[0] is x and e.a[1] == i0 + q - p:
                    q += 1
                else:
                    break
            runs.append((p, bits[n - q:n - p]))
            p = q
        if len(runs) < 2:
            return None
        r = c
        for p, bs in runs:
            r = add(r, scale(self.frombits(st, bs), 1 << p))
        return r

    def joinbytes(self, st, v):
        """sum of all bytes of x, each times its weight = x"""
        if not (isinstance(v, V) and v.k == "lin"):
            return v
        by = {}
        for t, c in v.a[1]:
            if t.k == "byte":
                by.setdefault(t.a[0], {})[t.a[1]] = c
        for x, m in by.items():
            n, c = len(m), m.get(0)
            if n > 1 and c and all(m.get(i) == c << 8 * i for i in range(n)) and st.cons.bounds(x)[1] < 1 << 8 * n:
                d = dict(v.a[1])
                for i in range(n):
                    del d[mk("byte", (x, i), self.u8_ty)]
                v = add(terms.mklin(v.a[0], d), scale(x, c))
                if not (isinstance(v, V) and v.k == "lin"):
                    return v
        return v

    def expandbytes(self, st, v):
        """v with each 16/32/64-bit unsigned x of which some byte is known or occurs in v written as the sum of its bytes"""
        if not isinstance(v, V):
            return v
        ts = v.a[1] if v.k == "lin" else ((v, 1),)
        whole = [(t, c) for t, c in ts if t.k not in ("byte", "lin", "len", "bits", "bit", "at") and t.ty is not None and t.ty >= 0]
        for x, c in whole:
            t = self.P.types[x.ty]
            if t.k != "int" or t.sg or t.w not in (16, 32, 64):
                continue
            n = t.w // 8
            bs = [mk("byte", (x, i), self.u8_ty) for i in range(n)]
            vs = [st.cons.value(b) for b in bs]
            if not any(isinstance(b, int) for b in vs) and not any(b is y for b in bs for y, _ in ts):
                continue
            v = sub(v, scale(x, c))
            for i, b in enumerate(vs):
                v = add(v, scale(b, c << 8 * i) if isinstance(b, V) else b * c << 8 * i)
        return v

    def binop(self, st, op, a, b, ta):
        if isinstance(a, V) and a.k == "cint":
            a = a.a[0]
        if isinstance(b, V) and b.k == "cint":
            b = b.a[0]
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            t = self.P.types[ta] if ta is not None and ta >= 0 else None
            if t is not None and t.k not in ("int", "bool", "char"):
                # pointer / other comparison
                if a is b:
                    return 1 if op in ("Eq", "Le", "Ge") else 0
                return mk("call", ("ptrcmp" + op, a, b), self.bool_ty)
            return self.cmp(st, op, a, b)
        t = self.P.types[ta] if ta is not None and ta >= 0 else None
        if op in ("Add", "AddUnchecked"):
            return self.wrapped(st, self.joinbytes(st, add(a, b)), ta)
        if op in ("Sub", "SubUnchecked"):
            return self.wrapped(st, sub(a, b), ta)
        if op in ("Mul", "MulUnchecked"):
            if isinstance(a, int):
                return self.wrapped(st, scale(b, a), ta)
            if isinstance(b, int):
                return self.wrapped(st, scale(a, b), ta)
            av, bv = st.cons.value(a), st.cons.value(b)
            if isinstance(av, int) or isinstance(bv, int):
                return self.binop(st, op, av, bv, ta)
            return mk("op", ("Mul", a, b), ta)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if t is not None and t.k == "bool":
                if op == "BitAnd":
                    return self.bandor("and", [a, b])
                if op == "BitOr":
                    return self.bandor("or", [a, b])
                if isinstance(a, int):
                    return self.bnot(b) if a else b
                if isinstance(b, int):
                    return self.bnot(a) if b else a
                return mk("op", ("xor", a, b), self.bool_ty)
            w = t.w if t is not None and t.w else 8
            if op == "BitAnd":
                r = self.mask_lin(st, a, b, w)
                if r is not None:
                    return r
            if isinstance(a, int) and isinstance(b, int):
                return a & b if op == "BitAnd" else (a | b if op == "BitOr" else a ^ b)
            if op != "BitAnd":
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, V) and x.k == "lin":
                        g = x.a[0]
                        for _, c in x.a[1]:
                            g = gcd(g, abs(c))
                        ly, hy = st.cons.bounds(y)
                        if st.cons.bounds(x)[0] >= 0 and 0 <= ly and hy < (g & -g):
                            return add(x, y)        # disjoint bit ranges
            A, B = self.tobits(st, a, w), self.tobits(st, b, w)
            out = []
            for x, y in zip(A, B):
                if op == "BitAnd":
                    out.append(0 if (x == 0 or y == 0) and (isinstance(x, int) and x == 0 or isinstance(y, int) and y == 0)
                               else (y if isinstance(x, int) else (x if isinstance(y, int) or x is y else mk("and", tuple(sorted((x, y), key=lambda q: q.uid))))))
                elif op == "BitOr":
                    if isinstance(x, int) and isinstance(y, int):
                        out.append(x | y)
                    elif isinstance(x, int):
                        out.append(1 if x else y)
                    elif isinstance(y, int):
                        out.append(1 if y else x)
                    else:
                        out.append(x if x is y else mk("or", tuple(sorted((x, y), key=lambda q: q.uid))))
                else:
                    if isinstance(x, int) and isinstance(y, int):
                        out.append(x ^ y)
                    elif isinstance(x, int):
                        out.append(self.bnot(y) if x else y)
                    elif isinstance(y, int):
                        out.append(self.bnot(x) if y else x)
                    else:
                        out.append(mk("op", ("xor", x, y), self.bool_ty))
            return self.frombits(st, tuple(out))
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
            b = st.cons.value(b)
            w = t.w if t is not None and t.w else 8
            if isinstance(b, int):
                if isinstance(a, int):
                    return (a << b) & ((1 << w) - 1) if op.startswith("Shl") else a >> b
                if op.startswith("Shr") and a.k == "lin" and a.a[0] % (1 << b) == 0 and all(c % (1 << b) == 0 for _, c in a.a[1]):
                    return terms.mklin(a.a[0] >> b, {x: c >> b for x, c in a.a[1]})
                if op.startswith("Shr"):
                    q = self.quot(st, a, b)
                    if q is not None:
                        return q[0]
                if op.startswith("Shl") and a.k in ("lin", "fld7"):
                    lo, hi = st.cons.bounds(a)
                    if lo >= 0 and hi != INF and int(hi) << b < 1 << w:
                        return scale(a, 1 << b)
                A = self.tobits(st, a, w)
                if op.startswith("Shl"):
                    A = A[b:] + (0,) * b
                else:
                    A = (0,) * b + A[:w - b]
                return self.frombits(st, A)
            return mk("op", (op, a, b), ta)
        if op in ("Div", "Rem"):
            bv = st.cons.value(b)
            av = st.cons.value(a)
            if isinstance(av, int) and isinstance(bv, int) and bv:
                return av // bv if op == "Div" else av % bv
            if isinstance(bv, int) and bv > 0 and isinstance(av, V) and av.k == "lin" and av.a[0] % bv == 0 \
                    and all(c % bv == 0 for _, c in av.a[1]):
                return terms.mklin(av.a[0] // bv, {x: c // bv for x, c in av.a[1]}) if op == "Div" else 0
            if isinstance(bv, int) and bv and (bv & (bv - 1)) == 0 and t is not None and not t.sg:
                n = bv.bit_length() - 1
                q = self.quot(st, av, n)
                if q is not None:
                    return q[0 if op == "Div" else 1]
                A = self.tobits(st, av, t.w)
                if op == "Div":
                    return self.frombits(st, (0,) * n + A[:t.w - n])
                return self.frombits(st, (0,) * (t.w - n) + A[t.w - n:])
            return mk("op", (op, av, bv), ta)
        return mk("op", (op, a, b), ta)

    def wrapped(self, st, v, ta):
        """value of an unchecked/wrapping arithmetic op in type ta"""
        r = self.rangeof(ta) if ta is not None and ta >= 0 else None
        if r is None:
            return v
        lo, hi = st.cons.bounds(v)
        if lo >= r[0] and hi <= r[1]:
            return v
        if isinstance(v, int):
            w = self.P.types[ta].w
            v &= (1 << w) - 1
            if self.P.types[ta].sg and v >= 1 << (w - 1):
                v -= 1 << w
            return v
        return mk("wrap", (v, self.P.types[ta].w), ta)

    def cast(self, st, kind, v, tfrom, tto):
        t = self.P.types[tto]
        if kind.startswith("IntToInt"):
            if isinstance(v, V) and v.k == "agg":
                ft = self.P.types[v.ty]
                return self.disc_of_variant(ft, v.a[0])
            r = self.rangeof(tto)
            if isinstance(v, int):
                w = t.w or 32
                x = v & ((1 << w) - 1)
                if t.sg and x >= (1 << (w - 1)):
                    x -= 1 << w
                return x
            lo, hi = st.cons.bounds(v)
            if r and lo >= r[0] and hi <= r[1]:
                return v
            w = t.w or 32
            if v.k == "bits":
                return self.frombits(st, v.a[-w:] if len(v.a) > w else v.a)
            if v.k == "lin" and not t.sg:
                q = self.quot(st, v, w)
                if q is not None:
                    return q[1]
            if v.k != "lin" and not t.sg:
                return self.frombits(st, self.tobits(st, v, w))
            return mk("trunc", (v, w), tto)
        if kind.startswith("PointerCoercion") and isinstance(v, V):
            if v.k == "ref":
                return mk("ref", v.a, tto)
            return v
        if "Transmute" in kind or "PtrToPtr" in kind or "Subtype" in kind:
            if isinstance(v, V) and v.k in ("boxp", "ref"):
                if t.k == "int":
                    return mk("addr", (v,), tto)
                return v
            if isinstance(v, V) and v.k == "agg" and self.P.types[v.ty].path == "std::boxed::Box":
                return v
            if isinstance(v, V) and t.k in ("ptr", "ref"):
                return v
            if isinstance(v, V) and t.k == "int":
                return mk("addr", (v,), tto)
            return mk("cast", (v, kind), tto)
        return mk("cast", (v, kind), tto)

    def discriminant(self, st, v, ty):
        if isinstance(v, V):
            if v.k == "agg":
                if v.ty is None:
                    return v.a[0]
                t = self.P.types[v.ty]
                return self.disc_of_variant(t, v.a[0])
            if v.k == "dc":
                v = v.a[0]
            t = self.P.types[v.ty] if v.ty is not None else (self.P.types[ty] if ty is not None else None)
            r = self.models.disc_hook(self, st, v)
            if r is not None:
                return r
            return st.cons.value(mk("disc", (v,), v.ty if v.ty is not None else ty))
        return v

    def rvalue(self, st, fid, lt, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fid, lt, r[1])
        if k == "ref":
            loc, path, ty = self.place(st, fid, lt, r[1])
            return mk("ref", (loc, path), dty)
        if k == "cast":
            v = self.operand(st, fid, lt, r[2])
            return self.cast(st, r[1], v, self.operand_ty(lt, r[2]), r[3])
        if k == "bin":
            a = self.operand(st, fid, lt, r[2])
            b = self.operand(st, fid, lt, r[3])
            ta = self.operand_ty(lt, r[2])
            op = r[1]
            if op.endswith("WithOverflow"):
                base = op[:-12]
                if base == "Mul":
                    if isinstance(a, int):
                        v = scale(b, a)
                    elif isinstance(b, int):
                        v = scale(a, b)
                    else:
                        av, bv = st.cons.value(a), st.cons.value(b)
                        if isinstance(av, int):
                            v = scale(bv, av)
                        elif isinstance(bv, int):
                            v = scale(av, bv)
                        else:
                            v = mk("op", ("Mul", a, b), None)
                else:
                    v = self.joinbytes(st, add(a, b)) if base == "Add" else sub(a, b)
                rg = self.rangeof(ta)
                lo, hi = st.cons.bounds(v)
                if lo >= rg[0] and hi <= rg[1]:
                    ov = 0
                elif lo > rg[1] or hi < rg[0]:
                    ov = 1
                else:
                    parts = []
                    if lo < rg[0]:
                        parts.append(self.cmp(st, "Lt", v, rg[0]))
                    if hi > rg[1]:
                        parts.append(self.cmp(st, "Gt", v, rg[1]))
                    ov = self.bandor("or", parts)
                return mk("agg", (0, (v, ov)), dty)
            return self.binop(st, op, a, b, ta)
        if k == "un":
            v = self.operand(st, fid, lt, r[2])
            ta = self.operand_ty(lt, r[2])
            if r[1] == "Not":
                t = self.P.types[ta]
                if t.k == "bool":
                    return self.bnot(v)
                if isinstance(v, int):
                    return (~v) & ((1 << t.w) - 1)
                bs = self.tobits(st, v, t.w)
                return self.frombits(st, tuple(self.bnot(b) for b in bs))
            if r[1] == "Neg":
                return scale(v, -1)
            if r[1] == "PtrMetadata":
                loc, path = self.ptr_target(st, v)
                return self.models.length_of(self, st, self.read(st, loc, path))
            return mk("op", (r[1], v), dty)
        if k == "disc":
            loc, path, ty = self.place(st, fid, lt, r[1])
            return self.discriminant(st, self.read(st, loc, path), ty)
        if k == "adt":
            t = self.P.types[r[1]]
            vals = tuple(self.operand(st, fid, lt, o) for o in r[3])
            if t.k == "union" or t.path in SKIP_WRAP:
                return vals[0] if vals else mk("uninit", ("union",))
            return mk("agg", (r[2], vals), r[1])
        if k == "tup":
            return mk("agg", (0, tuple(self.operand(st, fid, lt, o) for o in r[1])), dty)
        if k == "arr":
            return mk("agg", (0, tuple(self.operand(st, fid, lt, o) for o in r[2])), dty)
        if k == "rep":
            v = self.operand(st, fid, lt, r[1])
            if 0 <= r[2] <= 256:
                return mk("agg", (0, (v,) * r[2]), dty)
            return mk("rep", (v, r[2]), dty)
        if k == "rawptr":
            vals = [self.operand(st, fid, lt, o) for o in r[2]]
            return vals[0]
        raise Abort(f"rvalue {r}")

    # ------------------------------------------------------------ loops
    def loop_heads(self, fn):
        h = self._loops.get(fn.id)
        if h is not None:
            return h
        heads = set()
        color = {}
        stack = [(0, iter(self.succ(fn, 0)))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for n in it:
                c = color.get(n, 0)
                if c == 1:
                    heads.add(n)
                elif c == 0:
                    color[n] = 1
                    stack.append((n, iter(self.succ(fn, n))))
                    break
            else:
                color[b] = 2
                stack.pop()
        self._loops[fn.id] = heads
        return heads

    def succ(self, fn, b):
        t = fn.bbs[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "sw":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[6]] if t[6] >= 0 else []
        if k == "assert":
            return [t[5]]
        return []

    # ------------------------------------------------------------ running
    def panic(self, st, fn, line, kind, msg):
        self.abnormal.append(Outcome(kind, fn, line, msg, st, tuple(self.stack)))

    def run_fn(self, st, fn, args):
        """returns [(state, return value)]"""
        if not fn.body:
            raise Abort("no body " + fn.inst)
        self.inlined.add(fn.id)
        if len(self.stack) > 80:
            raise Abort("inlining depth")
        self.fid += 1
        fid = self.fid
        lt = fn.locals
        fr = {}
        if fn.spread >= 0 and len(args) >= 1 and len(args) != fn.nargs:
            pass
        for i, a in enumerate(args):
            fr[i + 1] = a
        st.fr[fid] = fr
        self.stack.append((fn, None))
        depth = len(self.stack)
        heads = self.loop_heads(fn)
        work = [(st, 0)]
        results = []
        seen = set()
        try:
            while work:
                st, bb = work.pop()
                self.nstates += 1
                if self.nstates > self.max_states:
                    raise Budget("state budget exceeded")
                try:
                    while True:
                        if bb in heads:
                            key = ("vis", bb)
                            n = st.fr[fid].get(key, 0) + 1
                            st.fr[fid][key] = n
                            if n > self.loop_limit:
                                self.abnormal.append(Outcome("loop", fn, fn.line, f"loop bound at bb{bb}", st, tuple(self.stack)))
                                break
                            r = self.models.loop_hook(self, st, fn, fid, bb, n)
                            if r == "stop":
                                break
                        blk = fn.bbs[bb]
                        for s in blk["s"]:
                            self.nsteps += 1
                            if s[0] == "=":
                                p = s[1]
                                dty = lt[p[0]] if not p[1] else self.place_ty(lt, p)
                                v = self.rvalue(st, fid, lt, s[2], dty)
                                if p[1]:
                                    loc, path, _ = self.place(st, fid, lt, p)
                                    self.write(st, loc, path, v)
                                else:
                                    st.fr[fid][p[0]] = v
                            elif s[0] == "sd":
                                loc, path, ty = self.place(st, fid, lt, s[1])
                                old = self.read(st, loc, path)
                                if isinstance(old, V) and old.k == "agg":
                                    self.write(st, loc, path, mk("agg", (s[2], old.a[1]), old.ty if old.ty is not None else ty))
                                else:
                                    self.write(st, loc, path, mk("agg", (s[2], ()), ty))
                        t = blk["t"]
                        k = t[0]
                        if k == "goto":
                            bb = t[1]
                            continue
                        if k == "drop":
                            bb = t[2]
                            continue
                        if k == "ret":
                            rv = st.fr[fid].get(0, self.unit)
                            del st.fr[fid]
                            results.append((st, rv))
                            break
                        if k == "sw":
                            v = self.operand(st, fid, lt, t[1])
                            if isinstance(v, V):
                                if v.k == "cint":
                                    v = v.a[0]
                                else:
                                    v = self.boolval(st, v)
                            if isinstance(v, int):
                                tt = self.P.types[t[4]]
                                if v < 0:
                                    v &= (1 << (tt.w or 64)) - 1
                                for val, b in t[2]:
                                    if val == v:
                                        bb = b
                                        break
                                else:
                                    bb = t[3]
                                continue
                            lb = self.elem_bound(st, fid, v)
                            if lb is not None:
                                st.emit(("iterend", lb[0]))
                                for val, b in t[2]:
                                    if val == lb[1]:
                                        bb = b
                                        break
                                else:
                                    bb = t[3]
                                continue
                            nxt = []
                            for val, b in t[2]:
                                s2 = st.fork()
                                if s2.cons.assume_eq(v, val):
                                    nxt.append((s2, b))
                            ok = True
                            for val, b in t[2]:
                                if not st.cons.assume_ne(v, val):
                                    ok = False
                                    break
                            if ok and self.domain_exhausted(st, v):
                                ok = False
                            if ok and fn.bbs[t[3]]["t"][0] == "unreach" and not fn.bbs[t[3]]["s"]:
                                ok = False
                            if ok:
                                nxt.append((st, t[3]))
                            if not nxt:
                                break
                            st, bb = nxt[0]
                            work.extend(reversed(nxt[1:]))
                            continue
                        if k == "assert":
                            c = self.operand(st, fid, lt, t[1])
                            if t[3] == "other":
                                bb = t[5]
                                continue
                            c = self.boolval(st, c)
                            if t[2] == 0:
                                c = self.bnot(c)
                            if isinstance(c, int):
                                if c:
                                    bb = t[5]
                                    continue
                                self.panic(st, fn, t[6], t[3], t[4])
                                break
                            s2 = st.fork()
                            if s2.cons.assume_eq(c, 0):
                                self.panic(s2, fn, t[6], t[3], t[4])
                            if not st.cons.assume_eq(c, 1):
                                break
                            bb = t[5]
                            continue
                        if k == "call":
                            res = self.do_call(st, fid, lt, fn, t)
                            if t[6] < 0 or not res:
                                break
                            d = t[4]
                            nxt = []
                            for s2, v in res:
                                if d[1]:
                                    loc, path, _ = self.place(s2, fid, lt, d)
                                    self.write(s2, loc, path, v)
                                else:
                                    s2.fr[fid][d[0]] = v
                                nxt.append((s2, t[6]))
                            st, bb = nxt[0]
                            work.extend(reversed(nxt[1:]))
                            continue
                        if k in ("unreach", "resume"):
                            break
                        raise Abort(f"terminator {t}")
                except Abort as e:
                    # a construct outside the modelled fragment: this path is undecided
                    del self.stack[depth:]
                    self.abnormal.append(Outcome("abort", fn, self.stack[-1][1] or fn.line, str(e), st, tuple(self.stack)))
        finally:
            self.stack.pop()
        return results

    def in_loop(self, st, fid=None):
        """the (innermost) frame has gone round a loop for every representative element"""
        if fid is None:
            fid = next(reversed(st.fr))
        return any(isinstance(k, tuple) and k[0] == "vis" and n > self.reps for k, n in st.fr[fid].items())

    def elem_bound(self, st, fid, v):
        """loop condition that asks for another representative element of an
        indexed collection, all of which were visited: (collection, branch that leaves)"""
        if self.exact_iter or not self.in_loop(st, fid):
            return None
        neg = 0
        while v.k == "not":
            v, neg = v.a[0], 1 - neg
        if v.k != "cmp":
            return None
        f = v.a[1]
        if isinstance(f, int):
            return None
        c, d = terms.lin(f)
        if len(d) != 1:
            return None
        (t, k), = d.items()
        b = self.models.len_base(self, st, t)
        if b is None:
            return None
        if v.a[0] == "lt0":
            # c + k*len < 0
            if k == -1 and c >= self.reps:      # c < len : another element
                return b, neg
            if k == 1 and -c > self.reps:       # len < -c
                return b, 1 - neg
        elif v.a[0] == "eq0" and k in (1, -1) and -c * k >= self.reps:
            return b, 1 - neg
        return None

    def domain_exhausted(self, st, v):
        lo, hi = st.cons.bounds(v, 1)
        if lo > hi:
            return True
        if hi - lo <= 64 and isinstance(v, V):
            for n in range(int(lo), int(hi) + 1):
                if st.cons.possible(v, n):
                    return False
            return True
        return False

    def do_call(self, st, fid, lt, fn, t):
        args = [self.operand(st, fid, lt, a) for a in t[2]]
        argtys = t[3]
        c = t[1]
        self.stack[-1] = (fn, t[7])
        if c[0] == "i":
            callee = self.P.fns[c[1]]
            return self.call(st, callee, args, argtys, t[5], t[7])
        if c[0] == "p":
            f = self.operand(st, fid, lt, c[1])
            if isinstance(f, V) and f.k == "fn":
                callee = self.P.fns[self.P.types[f.ty].fn]
                return self.call(st, callee, args, argtys, t[5], t[7])
        return self.unknown_call(st, str(c), args, argtys, t[5])

    def call(self, st, callee, args, argtys, dty, line=0):
        if self.prim is not None:
            r = self.prim(self, st, callee, args, argtys, dty)
            if r is not None:
                return r
        r = self.models.std_call(self, st, callee, args, argtys, dty)
        if r is not None:
            self.modelled.add(callee.path)
            return r
        if callee.body:
            return self.run_fn(st, callee, self.spread_args(callee, args, argtys))
        r = self.ctor_call(callee, args, dty)
        if r is not None:
            return [(st, r)]
        return self.unknown_call(st, callee.inst, args, argtys, dty, callee)

    def ctor_call(self, callee, args, dty):
        """a tuple-struct / enum-variant constructor used as a function"""
        t = self.P.types[dty] if dty is not None else None
        if t is None or t.k not in ("enum", "struct") or not t.vs:
            return None
        segs = [x for x in callee.path.split("::") if x and not x.startswith("<")]
        last = segs[-1]
        for i, v in enumerate(t.vs):
            if (v[0] == last or t.k == "struct" and t.path.split("::")[-1] == last) and len(v[2]) == len(args) \
                    and callee.sig and [x[1] for x in v[2]] == list(callee.sig[0]):
                return mk("agg", (i, tuple(args)), dty)
        return None

    def spread_args(self, callee, args, argtys):
        # "rust-call": closure bodies take their arguments unpacked
        if callee.kind == "Item" and callee.d.get("name") is None and len(args) == 2 and callee.nargs != 2 \
                and isinstance(args[1], V) and args[1].k == "agg":
            return [args[0]] + list(args[1].a[1])
        if callee.kind == "Item" and "{closure" in callee.path and len(args) == 2 and isinstance(args[1], V) \
                and args[1].k == "agg" and args[1].ty is not None and self.P.types[args[1].ty].k == "tuple":
            return [args[0]] + list(args[1].a[1])
        return args

    def call_value(self, st, f, args, argtys=None):
        """call a closure / fn item value with unpacked args; returns [(st, v)]"""
        if isinstance(f, V) and f.k == "ref":
            tgt = self.read(st, f.a[0], f.a[1])
            if isinstance(tgt, V) and tgt.ty is not None and self.P.types[tgt.ty].k in ("closure", "fndef", "ref"):
                if self.P.types[tgt.ty].k == "closure":
                    return self._call_closure(st, tgt, f, args)
                return self.call_value(st, tgt, args, argtys)
        if isinstance(f, V) and f.ty is not None:
            t = self.P.types[f.ty]
            if t.k == "closure":
                return self._call_closure(st, f, None, args)
            if t.k == "fndef" and t.fn is not None:
                callee = self.P.fns[t.fn]
                dty = callee.sig[1] if callee.sig else None
                return self.call(st, callee, list(args), callee.sig[0] if callee.sig else argtys, dty)
        raise Abort(f"call of unknown value {f}")

    def _call_closure(self, st, clos, ref, args):
        t = self.P.types[clos.ty]
        callee = self.P.fns[t.fn]
        self_arg = clos
        st_ty = self.P.types[callee.locals[1]]
        if st_ty.k == "ref":
            if ref is None:
                self.fid += 1
                loc = ("h", "clos", self.fid)
                st.mem[loc] = clos
                ref = mk("ref", (loc, ()), callee.locals[1])
            self_arg = ref
        return self.run_fn(st, callee, [self_arg] + list(args))

    def unknown_call(self, st, name, args, argtys, dty, callee=None):
        self.unknown[name] = self.unknown.get(name, 0) + 1
        st.taint = st.taint + (name,)
        # havoc what is reachable through &mut
        for a, ty in zip(args, argtys):
            t = self.P.types[ty]
            if t.k == "ref" and t.mut and isinstance(a, V):
                loc, path = self.ptr_target(st, a)
                try:
                    self.write(st, loc, path, st.fresh("havoc:" + name[:60], t.e))
                except Abort:
                    pass
        return [(st, st.fresh("unk:" + name[:60], dty))]
