"""Maps (IndexMap, HashMap, BTreeMap-free code) with an explicit, symbolic entry list in
insertion order: value omap(((key, value), ...)).  Keys are compared by eq_terms, so an
undecided comparison splits the path."""
from terms import V, mk
import models as M


def mko(items, ty):
    return mk("omap", (tuple(items),), ty)


def find(I, st, items, k, i=0):
    """[(state, index or None)]"""
    if i == len(items):
        return [(st, None)]
    out = []
    for s, e in I.branch_bool(st, M.eq_terms(I, st, items[i][0], k)):
        if e:
            out.append((s, i))
        else:
            out += find(I, s, items, k, i + 1)
    return out


def removed(items, i, swap):
    items = list(items)
    if swap:
        items[i] = items[-1]
        return tuple(items[:-1])
    return tuple(items[:i] + items[i + 1:])


def valref(I, mref, k, ty):
    return M.ptr_into(I, mref, ("mv", k, ty), ty)


def project(I, st, v, k):
    for x, val in v.a[0]:
        if x is k or x == k:
            return val
    M.raise_abort(I, "reference into a map entry that is gone")


def update(I, st, old, k, fn):
    if not any(x is k or x == k for x, _ in old.a[0]):
        M.raise_abort(I, "write to a map entry that is gone")
    return mko([(x, fn(val) if (x is k or x == k) else val) for x, val in old.a[0]], old.ty)


def tup(I, st, ty, vals):
    return mk("agg", (0, tuple(vals)), ty)


def call(I, st, callee, name, args, argtys, dty, t):
    ty, kt, vt = t.id, t.args[0], t.args[1]
    at0 = I.P.types[argtys[0]]
    if at0.k != "ref":
        mv = args[0]
        if name == "into_iter":
            tt = M.tuple_ty(I, (kt, vt))
            return [(st, ordered(I, t, mv.a[0], lambda e: tup(I, st, tt, e)))]
        return None
    mref = args[0]
    mv = M.rd(I, st, mref)
    items = mv.a[0]
    isix = "indexmap" in t.path.lower()
    rk, rv = M.ref_ty(I, kt), M.ref_ty(I, vt)

    def key(i):
        return M.rdd(I, st, args[i]) if I.P.types[argtys[i]].k == "ref" else args[i]

    def setto(s, xs):
        M.wr(I, s, mref, mko(xs, ty))

    def ent(s, i, tt, mut=False):
        es = I.P.types[tt].es
        return tup(I, s, tt, (M.refto(I, s, items[i][0], es[-2]), vref(s, i, es[-1], mut)))

    def vref(s, i, rty, mut=False):
        return valref(I, mref, items[i][0], rty) if mut or at0.mut else M.refto(I, s, items[i][1], rty)

    def opt(s, v):
        return M.none(I, dty) if v is None else M.some(I, dty, v)
    if name in ("contains_key", "get", "get_mut", "remove", "shift_remove", "swap_remove", "insert", "get_index_of", "get_key_value",
                "get_full", "shift_remove_entry", "swap_remove_entry", "remove_entry", "shift_remove_full", "swap_remove_full", "insert_full"):
        k = key(1) if not name.startswith("insert") else args[1]
        out = []
        for s, i in find(I, st, items, k):
            pt = None if name in ("contains_key", "insert_full") else M.opt_payload(I, dty)
            if name == "contains_key":
                out.append((s, 0 if i is None else 1))
            elif name == "insert":
                old = None if i is None else items[i][1]
                setto(s, items + ((k, args[2]),) if i is None else items[:i] + ((items[i][0], args[2]),) + items[i + 1:])
                out.append((s, opt(s, old)))
            elif name == "insert_full":
                return None
            elif i is None:
                out.append((s, M.none(I, dty)))
            elif name in ("get", "get_mut"):
                out.append((s, M.some(I, dty, vref(s, i, pt, name == "get_mut"))))
            elif name == "get_index_of":
                out.append((s, M.some(I, dty, i)))
            elif name == "get_key_value":
                out.append((s, M.some(I, dty, ent(s, i, pt))))
            elif name == "get_full":
                es = I.P.types[pt].es
                out.append((s, M.some(I, dty, tup(I, s, pt, (i, M.refto(I, s, items[i][0], es[1]), vref(s, i, es[2]))))))
            else:
                swap = name.startswith("swap") or (name.startswith("remove") and isix)
                setto(s, removed(items, i, swap))
                v = items[i][1] if name in ("remove", "shift_remove", "swap_remove") else \
                    tup(I, s, pt, items[i]) if name.endswith("entry") else tup(I, s, pt, (i,) + items[i])
                out.append((s, M.some(I, dty, v)))
        return out
    if name == "entry":
        et = I.P.types[dty]
        oi, vi = et.variant_index("Occupied"), et.variant_index("Vacant")
        if oi is None or vi is None:
            return None
        out = []
        for s, i in find(I, st, items, args[1]):
            j = vi if i is None else oi
            k = args[1] if i is None else items[i][0]
            out.append((s, mk("agg", (j, (mk("entry", (mref, k, t.id), et.vs[j][2][0][1]),)), dty)))
        return out
    if name in ("shift_remove_index", "swap_remove_index"):
        i = M.cint(args[1]) if hasattr(M, "cint") else args[1]
        if not isinstance(i, int):
            return None
        if i >= len(items):
            return [(st, M.none(I, dty))]
        setto(st, removed(items, i, name[1] == "w"))
        return [(st, M.some(I, dty, tup(I, st, M.opt_payload(I, dty), items[i])))]
    if name == "move_index" and isinstance(args[1], int) and isinstance(args[2], int):
        xs = list(items)
        xs.insert(args[2], xs.pop(args[1]))
        setto(st, xs)
        return [(st, I.unit)]
    if name == "swap_indices" and isinstance(args[1], int) and isinstance(args[2], int):
        xs = list(items)
        xs[args[1]], xs[args[2]] = xs[args[2]], xs[args[1]]
        setto(st, xs)
        return [(st, I.unit)]
    if name in ("first", "last", "get_index") and isix:
        i = 0 if name == "first" else len(items) - 1 if name == "last" else args[1]
        if not isinstance(i, int):
            return None
        if not 0 <= i < len(items):
            return [(st, M.none(I, dty))]
        return [(st, M.some(I, dty, ent(st, i, M.opt_payload(I, dty))))]
    if name == "pop":
        if not items:
            return [(st, M.none(I, dty))]
        setto(st, items[:-1])
        return [(st, M.some(I, dty, tup(I, st, M.opt_payload(I, dty), items[-1])))]
    if name == "clear":
        setto(st, ())
        return [(st, I.unit)]
    if name == "len":
        return [(st, len(items))]
    if name == "is_empty":
        return [(st, 0 if items else 1)]
    if name in ("iter", "into_iter"):
        tt = M.tuple_ty(I, (rk, rv))
        return [(st, ordered(I, t, range(len(items)), lambda i: tup(I, st, tt, (M.refto(I, st, items[i][0], rk), vref(st, i, rv)))))]
    if name == "keys":
        return [(st, ordered(I, t, items, lambda e: M.refto(I, st, e[0], rk)))]
    if name == "values":
        return [(st, ordered(I, t, items, lambda e: M.refto(I, st, e[1], rv)))]
    if name in ("values_mut", "iter_mut"):
        if name == "values_mut":
            return [(st, ordered(I, t, items, lambda e: valref(I, mref, e[0], None)))]
        tt = None
        return [(st, ordered(I, t, items, lambda e: tup(I, st, tt, (M.refto(I, st, e[0], rk), valref(I, mref, e[0], None)))))]
    if name == "retain":
        work, out = [(st, 0, ())], []
        while work:
            s, i, keep = work.pop()
            if i == len(items):
                cur = dict((id(k) if isinstance(k, V) else k, v) for k, v in M.rd(I, s, mref).a[0])
                setto(s, tuple((k, cur[id(k) if isinstance(k, V) else k]) for k in keep))
                out.append((s, I.unit))
                continue
            for s1, r in I.call_value(s, args[1], [M.refto(I, s, items[i][0], rk), valref(I, mref, items[i][0], None)]):
                for s2, b in I.branch_bool(s1, r):
                    work.append((s2, i + 1, keep + ((items[i][0],) if b else ())))
        return out
    return None


def ordered(I, t, items, f):
    if "indexmap" not in t.path.lower() and len(items) > 1:
        I.unordered = True          # iteration order of a hash map: the caller decides what follows
    return M.it([f(e) for e in items])


def entry(I, st, callee, name, args, argtys, dty, a, vac):
    mref, k, mt = a.a
    t = I.P.types[mt]
    items = M.rd(I, st, mref).a[0]
    i = next((j for j, e in enumerate(items) if e[0] is k or e[0] == k), None)

    def put(s, v):
        xs = M.rd(I, s, mref).a[0]
        M.wr(I, s, mref, mko(xs + ((k, v),), mt))

    def setv(s, v):
        M.wr(I, s, mref, update(I, s, M.rd(I, s, mref), k, lambda o: v))
    if name == "key":
        return [(st, M.refto(I, st, k, dty))]
    if name in ("or_insert", "or_insert_with", "or_insert_with_key", "or_default") and vac is not None:
        if not vac:
            return [(st, valref(I, mref, k, dty))]
        if name == "or_insert":
            rs = [(st, args[1])]
        elif name == "or_insert_with":
            rs = I.call_value(st, args[1], [])
        elif name == "or_default":
            et = I.P.types[dty].e
            if not I.P.types[et].path.endswith("vec::Vec"):
                return None
            rs = [(st, M.mkvec([], et))]
        else:
            return None
        out = []
        for s, v in rs:
            put(s, v)
            out.append((s, valref(I, mref, k, dty)))
        return out
    if name == "and_modify":
        if vac:
            return [(st, args[0])]
        return [(s, args[0]) for s, _ in I.call_value(st, args[1], [valref(I, mref, k, None)])]
    if name == "insert":
        if vac:
            put(st, args[1])
            return [(st, valref(I, mref, k, dty))]
        old = items[i][1]
        setv(st, args[1])
        return [(st, old)]
    if name == "insert_entry":
        (put if vac else setv)(st, args[1])
        return [(st, a)]
    if vac:
        return [(st, k)] if name == "into_key" else None
    if name == "get":
        return [(st, M.refto(I, st, items[i][1], dty))]
    if name in ("get_mut", "into_mut"):
        return [(st, valref(I, mref, k, dty))]
    if name in ("remove", "shift_remove", "swap_remove", "remove_entry", "shift_remove_entry"):
        swap = name == "swap_remove" or (name == "remove" and "indexmap" in t.path.lower())
        M.wr(I, st, mref, mko(removed(items, i, swap), mt))
        return [(st, tup(I, st, dty, items[i]) if name.endswith("entry") else items[i][1])]
    if name == "index":
        return [(st, i)]
    return None
