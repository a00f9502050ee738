"""Hash-consed abstract values and the linear/interval constraint domain."""
from math import gcd

_intern = {}
_uid = [0]


class V:
    __slots__ = ("k", "a", "ty", "uid")

    def __repr__(self):
        return show(self)


def mk(k, a, ty=None):
    key = (k, a, ty)
    v = _intern.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        v.ty = ty
        _uid[0] += 1
        v.uid = _uid[0]
        _intern[key] = v
    return v


def show(v, d=0):
    if isinstance(v, (int, str)) or v is None:
        return str(v)
    if isinstance(v, tuple):
        return "(" + ",".join(show(x, d + 1) for x in v) + ")"
    if not isinstance(v, V):
        return str(v)
    if d > 7:
        return "…"
    k, a = v.k, v.a
    if k == "agg":
        nm = NAMER(v)
        if nm is not None:
            return nm[0] + ("(" + ", ".join(show(x, d + 1) for x in a[1]) + ")" if a[1] else "")
        return f"agg#{a[0]}(" + ", ".join(show(x, d + 1) for x in a[1]) + ")"
    if k == "lin":
        s = " + ".join((f"{c}*" if c != 1 else "") + show(t, d + 1) for t, c in a[1])
        return f"({s}{' + ' + str(a[0]) if a[0] else ''})"
    if k == "arg":
        return str(a[0])
    if k == "fld":
        return f"{show(a[0], d + 1)}.{a[2] if len(a) > 2 and a[2] else a[1]}"
    if k == "vf":
        return f"{show(a[0], d + 1)}@{a[1]}.{a[2]}"
    if k == "call":
        return f"{a[0]}(" + ", ".join(show(x, d + 1) for x in a[1:]) + ")"
    return f"{k}(" + ", ".join(show(x, d + 1) for x in a) + ")"


NAMER = lambda v: None
TYINFO = lambda ty: None  # ty id -> Ty


def lin(v):
    """value -> (const, dict atom->coef)"""
    if isinstance(v, int):
        return v, {}
    if v.k == "lin":
        return v.a[0], dict(v.a[1])
    return 0, {v: 1}


def mklin(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda x: x[0].uid))
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", (c, items))


def add(a, b, kb=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + kb * b
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + kb * k
    return mklin(ca + kb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    c, d = lin(a)
    return mklin(c * k, {t: x * k for t, x in d.items()})


INF = float("inf")


def atom_range(t):
    """intrinsic range of an atom"""
    k = t.k
    if k in ("bit", "cmp", "in", "and", "or", "not", "bool", "eq"):
        return (0, 1)
    if k == "byte":
        return (0, 255)
    if k == "vbilen":
        return (1, 4)
    if k == "fld7":
        return (0, 127)
    if k == "len":
        return (0, (1 << 62))
    if k == "disc":
        vals = disc_values(t)
        if vals:
            return (min(vals), max(vals))
        return (0, INF)
    if k == "bits":
        lo = hi = 0
        for b in t.a:
            lo = lo * 2 + (b if isinstance(b, int) else 0)
            hi = hi * 2 + (b if isinstance(b, int) else 1)
        return (lo, hi)
    if k in ("trunc", "wrap"):
        return (0, (1 << t.a[1]) - 1)
    if t.ty is not None:
        ti = TYINFO(t.ty)
        if ti is not None:
            if ti.k == "bool":
                return (0, 1)
            if ti.k == "int":
                if ti.sg:
                    return (-(1 << (ti.w - 1)), (1 << (ti.w - 1)) - 1)
                return (0, (1 << ti.w) - 1)
            if ti.k == "char":
                return (0, 0x10FFFF)
    return (-INF, INF)


def disc_values(t):
    """possible discriminant values of a 'disc' atom"""
    ty = t.ty
    if ty is None:
        return None
    ti = TYINFO(ty)
    if ti is None or not ti.vs:
        return None
    return [v[1] for v in ti.vs]


EMPTY = frozenset()


class Cons:
    """constraint store: canonical variable part -> (lo, hi, excluded values)"""
    __slots__ = ("d", "ix", "shared", "ref")

    def __init__(self, d=None):
        self.d = {} if d is None else d
        self.ref = {}

    def copy(self):
        c = Cons(dict(self.d))
        c.ref = dict(self.ref)
        return c

    # canonical form: (const, sign, key) where value = const + sign*g*keyform
    @staticmethod
    def canon(v):
        c, d = lin(v)
        items = tuple(sorted(d.items(), key=lambda x: x[0].uid))
        g = 0
        for _, k in items:
            g = gcd(g, abs(k))
        if items and items[0][1] < 0:
            g = -g
        if g not in (0, 1):
            items = tuple((t, k // g) for t, k in items)
        return c, g, items

    def atom_bounds(self, t):
        lo, hi = atom_range(t)
        e = EMPTY
        f = self.d.get(((t, 1),))
        if f is not None:
            lo = max(lo, f[0])
            hi = min(hi, f[1])
            e = f[2]
        if t.k == "disc":
            vals = [x for x in (disc_values(t) or []) if lo <= x <= hi and x not in e]
            if vals:
                return min(vals), max(vals)
        if t.k == "bit" and lo != hi and isinstance(t.a[0], V) and t.a[0].k != "lin":
            xl, xh = self.atom_bounds(t.a[0])
            if xl != -INF and xh != INF and int(xl) >> t.a[1] == int(xh) >> t.a[1]:
                lo = hi = (int(xl) >> t.a[1]) & 1
        if t.k == "bits":
            l2 = h2 = 0
            for b in t.a:
                if not isinstance(b, int):
                    b = self.value(b)
                l2 = l2 * 2 + (b if isinstance(b, int) else 0)
                h2 = h2 * 2 + (b if isinstance(b, int) else 1)
            lo, hi = max(lo, l2), min(hi, h2)
        while lo in e and lo <= hi:
            lo += 1
        while hi in e and hi >= lo:
            hi -= 1
        return lo, hi

    def key_bounds(self, items, depth=2):
        if len(items) == 1 and items[0][1] == 1:
            lo, hi = self.atom_bounds(items[0][0])
            if depth < 2 or lo == hi:
                return lo, hi
        else:
            lo = hi = 0
            for t, k in items:
                l, h = self.atom_bounds(t)
                if k > 0:
                    lo += k * l
                    hi += k * h
                else:
                    lo += k * h
                    hi += k * l
            f = self.d.get(items)
            if f is not None:
                lo = max(lo, f[0])
                hi = min(hi, f[1])
                while lo in f[2]:
                    lo += 1
                while hi in f[2]:
                    hi -= 1
        if depth > 0 and self.d:
            mine = dict(items)
            for fk, (flo, fhi, _) in self.d.items():
                if len(fk) < 2 or fk == items:
                    continue
                common = None
                for t, k in fk:
                    if t in mine:
                        common = (t, k)
                        break
                if common is None:
                    continue
                for t, k in fk:
                    if t not in mine:
                        continue
                    # eliminate t: items - (mine[t]/k) * fk
                    q, r = divmod(mine[t], k)
                    if r:
                        continue
                    d2 = dict(mine)
                    for t2, k2 in fk:
                        d2[t2] = d2.get(t2, 0) - q * k2
                    d2 = {a: b for a, b in d2.items() if b}
                    if len(d2) > 3:
                        continue
                    if d2:
                        c2, g2, it2 = self.canon(mklin(0, d2))
                        l2, h2 = self.key_bounds(it2, depth - 1)
                        if g2 < 0:
                            l2, h2 = g2 * h2, g2 * l2
                        else:
                            l2, h2 = g2 * l2, g2 * h2
                    else:
                        l2 = h2 = 0
                    if q > 0:
                        l2, h2 = l2 + q * flo, h2 + q * fhi
                    else:
                        l2, h2 = l2 + q * fhi, h2 + q * flo
                    if l2 == l2 and l2 > lo:
                        lo = l2
                    if h2 == h2 and h2 < hi:
                        hi = h2
        return lo, hi

    def bounds(self, v, depth=2):
        if isinstance(v, int):
            return v, v
        c, g, items = self.canon(v)
        if not items:
            return c, c
        lo, hi = self.key_bounds(items, depth)
        if g < 0:
            lo, hi = hi, lo
        return c + g * lo, c + g * hi

    def value(self, v):
        """the concrete value of v if determined, else v"""
        if isinstance(v, int):
            return v
        if v.k == "bit":
            x = v.a[0]
            xv = x
            f = self.d.get(((x, 1),))
            if f is not None and f[0] == f[1]:
                return (int(f[0]) >> v.a[1]) & 1
        lo, hi = self.bounds(v, 1)
        if lo == hi:
            return int(lo)
        return v

    def possible(self, v, n):
        """may v equal constant n?"""
        if isinstance(v, int):
            return v == n
        c, g, items = self.canon(v)
        r, m = divmod(n - c, g)
        if m:
            return False
        lo, hi = self.key_bounds(items)
        if not (lo <= r <= hi):
            return False
        f = self.d.get(items)
        if f is not None and r in f[2]:
            return False
        if len(items) == 1 and items[0][0].k == "bits":
            t = items[0][0]
            w = len(t.a)
            for i, b in enumerate(t.a):
                want = (r >> (w - 1 - i)) & 1
                if not self.possible(b, want):
                    return False
        if len(items) == 1 and items[0][0].k == "disc":
            dv = disc_values(items[0][0])
            if dv and r not in dv:
                return False
        return True

    def assume_eq(self, v, n):
        """constrain v == n; False if impossible"""
        if not self.possible(v, n):
            return False
        if isinstance(v, int):
            return True
        c, g, items = self.canon(v)
        r = (n - c) // g
        self.d[items] = (r, r, EMPTY)
        if len(items) > 1:
            # a sum whose parts cannot carry into each other fixes each of them
            n = r
            parts = sorted(items, key=lambda x: -abs(x[1]))
            for i, (t, k) in enumerate(parts):
                rest = [self.atom_bounds(u) + (h,) for u, h in parts[i + 1:]]
                if k <= 0 or self.atom_bounds(t)[0] < 0 or any(h <= 0 or lo < 0 or hi == INF for lo, hi, h in rest) \
                        or sum(hi * h for _, hi, h in rest) >= k:
                    break
                q = n // k
                n -= q * k
                if not self.assume_eq(t, q):
                    return False
        if len(items) == 1:
            t = items[0][0]
            if t.k == "bits":
                w = len(t.a)
                for i, b in enumerate(t.a):
                    if not isinstance(b, int):
                        if not self.assume_eq(b, (r >> (w - 1 - i)) & 1):
                            return False
            elif t.k == "not":
                return self.assume_eq(t.a[0], 1 - r)
            elif t.k == "bit" and isinstance(t.a[0], V) and t.a[0].k != "lin":
                # the most significant possible bit bounds the value
                hi = atom_range(t.a[0])[1]
                if hi != INF and int(hi) == (2 << t.a[1]) - 1:
                    return self.assume_ge(t.a[0], 1 << t.a[1]) if r else self.assume_le(t.a[0], (1 << t.a[1]) - 1)
            elif t.k == "and" and r == 1:
                return all(self.assume_eq(x, 1) for x in t.a)
            elif t.k == "or" and r == 0:
                return all(self.assume_eq(x, 0) for x in t.a)
            elif t.k == "cmp":
                op, form = t.a
                if op == "lt0":
                    return self.assume_le(form, -1) if r else self.assume_ge(form, 0)
                if op == "eq0":
                    return self.assume_eq(form, 0) if r else self.assume_ne(form, 0)
        return True

    def assume_ne(self, v, n):
        if isinstance(v, int):
            return v != n
        if not self.possible(v, n):
            return True
        lo, hi = self.bounds(v)
        if lo == hi == n:
            return False
        c, g, items = self.canon(v)
        r = (n - c) // g
        f = self.d.get(items, (-INF, INF, EMPTY))
        self.d[items] = (f[0], f[1], f[2] | {r})
        if len(items) > 1:
            # an excluded end point tightens the interval
            klo, khi = self.key_bounds(items)
            if klo > khi:
                return False
            if klo > f[0] or khi < f[1]:
                self.d[items] = (max(f[0], klo), min(f[1], khi), f[2] | {r})
        # singletons
        if len(items) == 1:
            t = items[0][0]
            lo, hi = self.atom_bounds(t)
            if lo > hi:
                return False
            if lo == hi and t.k in ("bits", "cmp", "not", "and", "or"):
                return self.assume_eq(t, int(lo))
            if t.k == "disc" and lo == hi:
                self.d[items] = (lo, hi, EMPTY)
        return True

    def assume_le(self, v, n):
        lo, hi = self.bounds(v)
        if lo > n:
            return False
        if hi <= n:
            return True
        c, g, items = self.canon(v)
        f = self.d.get(items, (-INF, INF, EMPTY))
        if g > 0:
            m = (n - c) // g
            f = (f[0], min(f[1], m), f[2])
        else:
            # c + g*x <= n  ->  x >= (n-c)/g
            m = -((n - c) // (-g))
            f = (max(f[0], m), f[1], f[2])
        if f[0] > f[1]:
            return False
        self.d[items] = f
        lo, hi = self.bounds(v)
        return lo <= hi

    def assume_ge(self, v, n):
        return self.assume_le(scale(v, -1), -n)

    def decide_lt0(self, form):
        lo, hi = self.bounds(form)
        if hi < 0:
            return 1
        if lo >= 0:
            return 0
        return None

    def decide_eq0(self, form):
        if not self.possible(form, 0):
            return 0
        lo, hi = self.bounds(form)
        if lo == 0 and hi == 0:
            return 1
        return None
