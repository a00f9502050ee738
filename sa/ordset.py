"""Ordered sets (BTreeSet) with an explicit, symbolic element list: comparisons
call the element type's own Ord::cmp, so the ordering itself is part of what is analysed."""
from terms import V, mk
import models as M


def cmp_fn(I, et):
    r = [f for f in I.P.by_name.get("cmp", []) if f.trait.endswith("cmp::Ord") and f.self_ty == et and f.body]
    return r[0] if r else None


def ocmp(I, st, a, b, et):
    """[(state, -1 | 0 | 1)]"""
    t = I.P.types[et]
    if t.k == "int":
        out = []
        for s, o in I.branch_bool(st, I.cmp(st, "Lt", a, b)):
            if o:
                out.append((s, -1))
            else:
                out += [(s2, 0 if e else 1) for s2, e in I.branch_bool(s, I.cmp(s, "Eq", a, b))]
        return out
    f = cmp_fn(I, et)
    if f is None:
        M.raise_abort(I, "no Ord::cmp for " + t.s)
    rt = f.sig[0][0] if f.sig else None
    out = []
    for s, r in I.run_fn(st, f, [M.refto(I, st, a, rt), M.refto(I, st, b, rt)]):
        if not (isinstance(r, V) and r.k == "agg"):
            M.raise_abort(I, "symbolic ordering")
        out.append((s, {"Less": -1, "Equal": 0, "Greater": 1}[I.P.types[r.ty].vs[r.a[0]][0]]))
    return out


def search(I, st, items, key, et, i=0):
    """[(state, position, found)]"""
    if i == len(items):
        return [(st, i, False)]
    out = []
    for s, o in ocmp(I, st, key, items[i], et):
        if o < 0:
            out.append((s, i, False))
        elif o == 0:
            out.append((s, i, True))
        else:
            out += search(I, s, items, key, et, i + 1)
    return out


def mko(items, ty):
    return mk("oset", (tuple(items),), ty)


def refs(I, st, items, et):
    rt = M.ref_ty(I, et)
    return M.it([M.refto(I, st, x, rt) for x in items])


def call(I, st, callee, name, args, argtys, dty, t):
    ty, et = t.id, t.args[0]
    sv = M.rd(I, st, args[0])
    items = list(sv.a[0])
    at0 = I.P.types[argtys[0]]
    rt = M.ref_ty(I, et)

    def key(i):
        k = args[i]
        return M.rd(I, st, k) if I.P.types[argtys[i]].k == "ref" else k

    def setto(s, xs):
        M.wr(I, s, args[0], mko(xs, ty))

    def opt(s, x, ref=False):
        if x is None:
            return M.none(I, dty)
        return M.some(I, dty, M.refto(I, s, x, rt) if ref else x)

    if name == "into_iter":
        return [(st, refs(I, st, items, et) if at0.k == "ref" else M.it(items))]
    if name == "iter":
        return [(st, refs(I, st, items, et))]
    if name in ("first", "last"):
        return [(st, opt(st, (items[0] if name == "first" else items[-1]) if items else None, True))]
    if name in ("pop_first", "pop_last"):
        if not items:
            return [(st, M.none(I, dty))]
        x = items[0] if name == "pop_first" else items[-1]
        setto(st, items[1:] if name == "pop_first" else items[:-1])
        return [(st, M.some(I, dty, x))]
    if name == "len":
        return [(st, len(items))]
    if name == "is_empty":
        return [(st, 0 if items else 1)]
    if name == "clear":
        setto(st, [])
        return [(st, I.unit)]
    if name in ("insert", "replace", "remove", "contains", "get", "take"):
        out = []
        k = key(1)
        for s, i, found in search(I, st, items, k, et):
            if name == "contains":
                out.append((s, 1 if found else 0))
            elif name == "get":
                out.append((s, opt(s, items[i] if found else None, True)))
            elif name == "insert":
                if not found:
                    setto(s, items[:i] + [k] + items[i:])
                out.append((s, 0 if found else 1))
            elif name == "replace":
                setto(s, items[:i] + [k] + items[i + (1 if found else 0):])
                out.append((s, opt(s, items[i] if found else None)))
            else:
                if found:
                    setto(s, items[:i] + items[i + 1:])
                out.append((s, (1 if found else 0) if name == "remove" else opt(s, items[i] if found else None)))
        return out
    if name in ("range", "split_off"):
        if name == "split_off":
            lo, hi = ("inc", key(1)), None
        else:
            b = args[1]
            lo, hi = bounds(I, st, b, I.P.types[argtys[1]])
        out = []
        for s, a in (low(I, st, items, lo, et) if lo else [(st, 0)]):
            for s2, z in (high(I, s, items, hi, et) if hi else [(s, len(items))]):
                if a > z:
                    M.raise_abort(I, "range start > end")
                if name == "split_off":
                    setto(s2, items[:a])
                    out.append((s2, mko(items[a:], dty)))
                else:
                    out.append((s2, refs(I, s2, items[a:z], et)))
        return out
    if name == "append":
        o = M.rd(I, st, args[1])
        M.wr(I, st, args[1], mko((), ty))
        return _insert_all(I, st, args[0], list(o.a[0]), ty, et)
    if name == "extend":
        out = []
        for s, itv in M.to_iters(I, st, args[1], argtys[1]):
            for s1, xs in M.drain_all(I, s, itv):
                out += _insert_all(I, s1, args[0], xs, ty, et)
        return out
    if name == "retain":
        work, out = [(st, 0, ())], []
        while work:
            s, i, keep = work.pop()
            if i == len(items):
                setto(s, keep)
                out.append((s, I.unit))
                continue
            for s1, r in I.call_value(s, args[1], [M.refto(I, s, items[i], rt)]):
                for s2, b in I.branch_bool(s1, r):
                    work.append((s2, i + 1, keep + ((items[i],) if b else ())))
        return out
    M.raise_abort(I, "BTreeSet::" + name)


def _insert_all(I, st, ref, xs, ty, et):
    work, out = [(st, 0)], []
    while work:
        s, i = work.pop()
        if i == len(xs):
            out.append((s, I.unit))
            continue
        items = list(M.rd(I, s, ref).a[0])
        for s1, p, found in search(I, s, items, xs[i], et):
            if not found:
                M.wr(I, s1, ref, mko(items[:p] + [xs[i]] + items[p:], ty))
            work.append((s1, i + 1))
    return out


def bounds(I, st, b, t):
    p = t.path.split("::")[-1]
    f = b.a[1] if isinstance(b, V) and b.k == "agg" else ()
    if p == "RangeFrom":
        return ("inc", f[0]), None
    if p == "RangeTo":
        return None, ("exc", f[0])
    if p == "RangeToInclusive":
        return None, ("inc", f[0])
    if p == "Range":
        return ("inc", f[0]), ("exc", f[1])
    if p == "RangeInclusive":
        return ("inc", f[0]), ("inc", f[1])
    if p == "RangeFull":
        return None, None
    if t.k == "tuple":
        r = []
        for x in f:
            n = I.P.types[x.ty].vs[x.a[0]][0]
            r.append(None if n == "Unbounded" else ("inc" if n == "Included" else "exc", M.rdd(I, st, x.a[1][0])))
        return tuple(r)
    M.raise_abort(I, "range bounds " + t.s)


def low(I, st, items, lo, et, i=0):
    """index of the first element inside the lower bound"""
    if i == len(items):
        return [(st, i)]
    out = []
    for s, o in ocmp(I, st, lo[1], items[i], et):
        if o < 0 or (o == 0 and lo[0] == "inc"):
            out.append((s, i))
        else:
            out += low(I, s, items, lo, et, i + 1)
    return out


def high(I, st, items, hi, et, i=0):
    """index of the first element outside the upper bound"""
    if i == len(items):
        return [(st, i)]
    out = []
    for s, o in ocmp(I, st, hi[1], items[i], et):
        if o < 0 or (o == 0 and hi[0] == "exc"):
            out.append((s, i))
        else:
            out += high(I, s, items, hi, et, i + 1)
    return out
