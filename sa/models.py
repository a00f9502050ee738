"""Transfer functions for std / hashbrown / indexmap operations, and the value
domain of sequences, sets, maps and iterators used by interp.py."""
import terms
from terms import V, mk, add, sub, scale, Cons, INF


# ---------------------------------------------------------------- sequences
def is_seq(v):
    return isinstance(v, V) and v.k in ("bytes", "agg", "vec", "sl", "rep")


def elems_of(v):
    """explicit element list (python values) or None. splices stay as V('splice')"""
    if not isinstance(v, V):
        return None
    if v.k == "bytes":
        return list(v.a[0])
    if v.k == "agg":
        return list(v.a[1])
    if v.k == "vec":
        return list(v.a[0])
    if v.k == "rep":
        return [v.a[0]] * v.a[1] if v.a[1] <= 4096 else None
    return None


def is_splice(e):
    return isinstance(e, V) and e.k == "splice"


def seq_len(I, st, v):
    if not isinstance(v, V):
        return mk("len", (v,), I.usize_ty)
    if v.k == "bytes":
        return len(v.a[0])
    if v.k == "rep":
        return v.a[1]
    if v.k in ("agg", "vec"):
        n = 0
        for e in elems_of(v):
            if is_splice(e):
                n = add(n, seq_len(I, st, e.a[0]))
            else:
                n = add(n, 1)
        return n
    if v.k == "sl":
        return sub(v.a[2], v.a[1])
    if v.k == "repn":
        return v.a[1]
    if v.ty is not None:
        t = I.P.types[v.ty]
        if t.k == "array" and t.n is not None and t.n >= 0:
            return t.n
    r = I.length_hook(st, v) if I.length_hook else None
    if r is not None:
        return r
    return st.cons.value(mk("len", (v,), I.usize_ty))


length_of = seq_len


def mkvec(elems, ty=None):
    out = []
    for e in elems:
        if is_splice(e):
            s = e.a[0]
            if isinstance(s, V) and s.k in ("bytes", "agg", "vec"):
                out.extend(elems_of(s))
                continue
            if isinstance(s, V) and s.k == "sl" and s.a[1] == s.a[2]:
                continue
            # merge adjacent slices of the same base
            if out and is_splice(out[-1]):
                p = out[-1].a[0]
                if isinstance(p, V) and isinstance(s, V) and p.k == "sl" and s.k == "sl" and p.a[0] is s.a[0] \
                        and p.a[2] == s.a[1]:
                    out[-1] = mk("splice", (mk("sl", (p.a[0], p.a[1], s.a[2]), p.ty),))
                    continue
        out.append(e)
    return mk("vec", (tuple(out),), ty)


def index_value(I, st, v, idx, ty):
    if not isinstance(v, V):
        return mk("at", (v, idx), ty)
    idx = st.cons.value(idx)
    if v.k == "sl":
        return index_value(I, st, v.a[0], add(v.a[1], idx), ty)
    if v.k == "repn":
        return v.a[0]
    es = elems_of(v)
    if es is not None:
        if isinstance(idx, int):
            pos = 0
            for e in es:
                if is_splice(e):
                    ln = seq_len(I, st, e.a[0])
                    ln = st.cons.value(ln)
                    d = sub(ln, add(idx, scale(pos, -1)))
                    # inside the splice?
                    if st.cons.decide_lt0(sub(sub(idx, pos), ln)) == 1:
                        return index_value(I, st, e.a[0], sub(idx, pos), ty)
                    if isinstance(ln, int):
                        pos = pos + ln
                        continue
                    return mk("at", (v, idx), ty)
                if pos == idx:
                    return e
                pos = add(pos, 1)
        else:
            pos = 0
            for e in es:
                if is_splice(e):
                    ln = seq_len(I, st, e.a[0])
                    o = sub(idx, pos)
                    if st.cons.decide_lt0(o) == 0 and st.cons.decide_lt0(sub(o, ln)) == 1:
                        return index_value(I, st, e.a[0], o, ty)
                    pos = add(pos, ln)
                else:
                    if pos == idx:
                        return e
                    pos = add(pos, 1)
        return mk("at", (v, idx), ty)
    r = I.index_hook(st, v, idx, ty) if I.index_hook else None
    if r is not None:
        return r
    return mk("at", (v, idx), ty)


def eqpos(st, x, y):
    if x == y:
        return True
    if isinstance(x, int) and isinstance(y, int):
        return False
    return st.cons.bounds(sub(x, y)) == (0, 0)


def slice_value(I, st, v, a, b):
    a, b = st.cons.value(a), st.cons.value(b)
    if not isinstance(v, V):
        return mk("sl", (v, a, b))
    if v.k == "sl":
        return mk_sl(I, st, v.a[0], add(v.a[1], a), add(v.a[1], b), v.ty)
    if v.k == "repn":
        return mk("repn", (v.a[0], sub(b, a)), v.ty)
    es = elems_of(v)
    if es is not None:
        def scan(eq):
            pos, i = 0, None
            for k in range(len(es) + 1):
                if i is None and eq(pos, a):
                    i = k
                if i is not None and eq(pos, b):
                    return i, k
                if k < len(es):
                    e = es[k]
                    pos = add(pos, seq_len(I, st, e.a[0]) if is_splice(e) else 1)
                    if isinstance(pos, V):
                        pos = st.cons.value(pos)
            return None

        def cut(i, j):
            if v.k == "bytes":
                return mk("bytes", (v.a[0][i:j],), v.ty)
            return v if i == 0 and j == len(es) else mkvec(es[i:j], v.ty)
        ij = scan(lambda x, y: x == y)
        if ij is not None:
            return cut(*ij)
        # inside a single splice?
        pos = 0
        for e in es:
            if is_splice(e):
                ln = seq_len(I, st, e.a[0])
                if st.cons.decide_lt0(sub(a, pos)) == 0 and st.cons.decide_lt0(sub(add(pos, ln), b)) == 0:
                    return slice_value(I, st, e.a[0], sub(a, pos), sub(b, pos))
                pos = add(pos, ln)
            else:
                pos = add(pos, 1)
        ij = scan(lambda x, y: eqpos(st, x, y)) if len(es) < 40 else None
        if ij is not None:
            return cut(*ij)
        if len(es) < 40 and any(is_splice(e) for e in es):
            x = split_at(I, st, es, a)
            y = split_at(I, st, es, b) if x is not None else None
            if y is not None and x[0] < y[0]:
                (i, o), (j, p) = x, y
                out = list(es[i:j])
                if o is not None:
                    out[0] = mk("splice", (slice_value(I, st, es[i].a[0], o, seq_len(I, st, es[i].a[0])),))
                if p is not None:
                    out.append(mk("splice", (slice_value(I, st, es[j].a[0], 0, p),)))
                return mkvec(out, v.ty)
    return mk_sl(I, st, v, a, b, v.ty)


def split_at(I, st, es, a):
    """where position `a` falls: (index of the element, offset inside that run or None), or None if undecided"""
    pos = 0
    for k, e in enumerate(es):
        if eqpos(st, pos, a):
            return k, None
        ln = seq_len(I, st, e.a[0]) if is_splice(e) else 1
        if is_splice(e) and st.cons.decide_lt0(sub(a, pos)) == 0 and st.cons.decide_lt0(sub(add(pos, ln), a)) == 0:
            return k, sub(a, pos)
        if st.cons.decide_lt0(sub(sub(a, pos), ln)) != 0:
            return None
        pos = add(pos, ln)
    return (len(es), None) if eqpos(st, pos, a) else None


def mk_sl(I, st, base, a, b, ty):
    if a == 0 and not isinstance(b, int):
        if seq_len(I, st, base) == b:
            return base
    return mk("sl", (base, a, b), ty)


def update_index(I, st, old, idx, ty, fn):
    idx = st.cons.value(idx)
    if isinstance(old, V) and old.k == "rep":
        old = mk("agg", (0, tuple(elems_of(old))), old.ty)
    if isinstance(old, V) and old.k == "bytes":
        old = mk("agg", (0, tuple(old.a[0])), old.ty)
    if isinstance(old, V) and old.k in ("agg", "vec") and isinstance(idx, int):
        es = elems_of(old)
        if idx < len(es) and not any(is_splice(e) for e in es[:idx + 1]):
            es[idx] = fn(es[idx])
            return mk("agg", (old.a[0], tuple(es)), old.ty) if old.k == "agg" else mk("vec", (tuple(es),), old.ty)
    cur = index_value(I, st, old, idx, ty)
    return mk("upd", (old, idx, fn(cur)), old.ty if isinstance(old, V) else None)


def update_slice(I, st, old, a, b, fn):
    ln = seq_len(I, st, old)
    pre = slice_value(I, st, old, 0, a)
    mid = fn(slice_value(I, st, old, a, b))
    post = slice_value(I, st, old, b, ln)
    ty = old.ty if isinstance(old, V) else None
    return mkvec([mk("splice", (pre,)), mk("splice", (mid,)), mk("splice", (post,))], ty)


def disc_hook(I, st, v):
    return I.disc_hook(st, v) if I.disc_hook else None


def loop_hook(I, st, fn, fid, bb, n):
    return I.loop_hook(st, fn, fid, bb, n) if I.loop_hook else None


# ------------------------------------------------------------ sets and maps
def as_set(I, st, v):
    if isinstance(v, V) and v.k == "set":
        return v.a
    return (v, ())


def as_map(I, st, v):
    if isinstance(v, V) and v.k == "map":
        return v.a
    return (v, ())


EMPTY = mk("empty", ())


def keyval(I, st, v):
    """normalise a key operand: by-reference keys are read"""
    return v


def eq_terms(I, st, a, b):
    """boolean value a == b (structural)"""
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return 1
    if isinstance(a, V) and a.k == "cint":
        a = a.a[0]
    if isinstance(b, V) and b.k == "cint":
        b = b.a[0]
    if I.neq_hook is not None and I.neq_hook(a, b):
        return 0
    num = ("lin", "byte", "bit", "bits", "at", "len", "wrap", "trunc", "op")
    def isnum(x):
        if isinstance(x, int):
            return True
        if not isinstance(x, V):
            return False
        if x.k in num and x.k != "at":
            return True
        if x.ty is None:
            return x.k in ("lin",)
        return I.P.types[x.ty].k in ("int", "bool", "char")
    if isnum(a) and isnum(b):
        return I.boolval(st, I.cmp(st, "Eq", a, b))
    ea, eb = elems_of(a), elems_of(b)
    if ea is not None and eb is not None:
        if not (a.k == "agg" and b.k == "agg" and a.a[0] != b.a[0]):
            sa, sb = any(is_splice(e) for e in ea), any(is_splice(e) for e in eb)
            if not sa and not sb:
                if len(ea) != len(eb):
                    return 0
                return I.bandor("and", [eq_terms(I, st, x, y) for x, y in zip(ea, eb)])
            if len(ea) == len(eb):
                parts = []
                ok = True
                for x, y in zip(ea, eb):
                    if is_splice(x) and is_splice(y):
                        if x is y:
                            continue
                        ok = False
                        break
                    if is_splice(x) or is_splice(y):
                        ok = False
                        break
                    parts.append(eq_terms(I, st, x, y))
                if ok:
                    return I.bandor("and", parts) if parts else 1
        elif a.k == "agg" and a.ty is not None and I.P.types[a.ty].k == "enum":
            return 0
    # lengths differ?
    if is_seq(a) and is_seq(b):
        d = st.cons.decide_eq0(sub(seq_len(I, st, a), seq_len(I, st, b)))
        if d == 0:
            return 0
        if I.eq_hook is not None and I.eq_hook(st, a, b):
            return 1
    if isinstance(a, V) and isinstance(b, V) and a.uid > b.uid:
        a, b = b, a
    elif isinstance(a, int):
        a, b = b, a
    # emptiness
    return st.cons.value(mk("eq", (a, b), I.bool_ty))


def set_member(I, st, sv, t):
    """[(state, 0/1)] membership of t in set value sv"""
    base, ops = as_set(I, st, sv)
    return _member(I, st, base, ops, len(ops) - 1, t)


def _member(I, st, base, ops, i, t):
    while i >= 0:
        op = ops[i]
        if op[0] == "*":  # all removed that ... (unused)
            i -= 1
            continue
        e = eq_terms(I, st, op[1], t)
        if e == 1:
            return [(st, 1 if op[0] == "+" else 0)]
        if e == 0:
            i -= 1
            continue
        out = []
        s2 = st.fork()
        if s2.cons.assume_eq(e, 1):
            out.append((s2, 1 if op[0] == "+" else 0))
        if st.cons.assume_eq(e, 0):
            out.extend(_member(I, st, base, ops, i - 1, t))
        return out
    if isinstance(base, V) and base.k == "empty":
        return [(st, 0)]
    a = mk("in", (base, t), I.bool_ty)
    r = I.in_hook(st, base, t, a) if I.in_hook else None
    if r is not None:
        a = r
    # the representative element of a collection is a member of it
    if isinstance(t, V) and t.k == "elem" and t.a[0] is base:
        return [(st, 1)]
    if isinstance(t, V) and t.k == "elem" and isinstance(t.a[0], V) and t.a[0].k in ("set", "map") and t.a[0].a[0] is base:
        return [(st, 1)]
    return I.branch_bool(st, a)


def op_push(I, st, ops, op):
    """append op; drop earlier ops on the identical key"""
    return tuple(o for o in ops if not (o[1] is op[1] or (isinstance(o[1], int) and o[1] == op[1]))) + (op,)


def mkset(base, ops, ty):
    return mk("set", (base, ops), ty) if ops or (isinstance(base, V) and base.k == "empty") else base


def mkmap(base, ops, ty):
    return mk("map", (base, ops), ty) if ops or (isinstance(base, V) and base.k == "empty") else base


def some(I, dty, v):
    t = I.P.types[dty]
    vi = t.variant_index("Some")
    return mk("agg", (vi, (v,)), dty)


def none(I, dty):
    t = I.P.types[dty]
    return mk("agg", (t.variant_index("None"), ()), dty)


def ok(I, dty, v):
    return mk("agg", (I.P.types[dty].variant_index("Ok"), (v,)), dty)


def err(I, dty, v):
    return mk("agg", (I.P.types[dty].variant_index("Err"), (v,)), dty)


def map_get(I, st, mv, k, vty):
    """[(state, value or None)]"""
    base, ops = as_map(I, st, mv)
    return _mget(I, st, base, ops, len(ops) - 1, k, vty)


def _mget(I, st, base, ops, i, k, vty):
    while i >= 0:
        op = ops[i]
        e = eq_terms(I, st, op[1], k)
        if e == 1:
            return [(st, op[2] if op[0] == "+" else None)]
        if e == 0:
            i -= 1
            continue
        out = []
        s2 = st.fork()
        if s2.cons.assume_eq(e, 1):
            out.append((s2, op[2] if op[0] == "+" else None))
        if st.cons.assume_eq(e, 0):
            out.extend(_mget(I, st, base, ops, i - 1, k, vty))
        return out
    if isinstance(base, V) and base.k == "empty":
        return [(st, None)]
    if isinstance(k, V) and k.k == "elem" and (k.a[0] is base or (isinstance(k.a[0], V) and k.a[0].k in ("set", "map") and k.a[0].a[0] is base)):
        return [(st, mk("mget", (base, k), vty))]
    a = mk("in", (base, k), I.bool_ty)
    out = []
    for s, b in I.branch_bool(st, a):
        out.append((s, mk("mget", (base, k), vty) if b else None))
    return out


# ---------------------------------------------------------------- helpers
def rd(I, st, ref):
    """content behind a reference value (or the value itself)"""
    if isinstance(ref, V):
        if ref.k in ("ref", "boxp"):
            loc, path = I.ptr_target(st, ref)
            return I.norm_read(I.read(st, loc, path))
        if ref.ty is not None and I.P.types[ref.ty].k in ("ref", "ptr"):
            return I.norm_read(I.read(st, ("o", ref), ()))
        if ref.k == "agg" and ref.ty is not None and I.P.types[ref.ty].path == "std::boxed::Box":
            loc, path = I.ptr_target(st, ref)
            return I.norm_read(I.read(st, loc, path))
    return ref


def rdd(I, st, ref, depth=4):
    """follow references to a non-reference value"""
    for _ in range(depth):
        if isinstance(ref, V) and (ref.k in ("ref", "boxp") or (ref.ty is not None and I.P.types[ref.ty].k in ("ref",))):
            ref = rd(I, st, ref)
        else:
            break
    return ref


def wr(I, st, ref, val):
    loc, path = I.ptr_target(st, ref)
    I.write(st, loc, path, val)


def refto(I, st, val, ty):
    return mk("ref", (("v", val if isinstance(val, V) else mk("cint", (val,), I.P.types[ty].e if ty is not None else None)), ()), ty)


def ptr_into(I, ref, path_elem, ty):
    loc, path = ref.a[0], ref.a[1]
    return mk("ref", (loc, path + (path_elem,)), ty)


def it(items):
    return mk("it", (tuple(items),))


def byte_of(I, st, x, i, w):
    """i-th byte from the least significant end"""
    if isinstance(x, int):
        return (x >> (8 * i)) & 255
    c, d = terms.lin(x)
    # sum of 256^j * byte atoms?
    ok_ = True
    for t, k in d.items():
        if k <= 0 or (k & (k - 1)) or ((k.bit_length() - 1) % 8) or terms.atom_range(t)[1] > 255 or terms.atom_range(t)[0] < 0:
            ok_ = False
            break
    if ok_ and d and len({k for k in d.values()}) == len(d):
        used = {(k.bit_length() - 1) // 8: t for t, k in d.items()}
        if i in used and ((c >> (8 * i)) & 255) == 0 and (w > 1 and (len(d) > 1 or c or i > 0) or terms.atom_range(x if x.k != "lin" else used[i])[1] <= 255):
            return used[i]
        if i not in used and all(((c >> (8 * j)) & 255) == 0 for j in used):
            return (c >> (8 * i)) & 255
    if x.k == "bits":
        bs = x.a
        n = len(bs)
        part = tuple(bs[n - 8 * i - 8 + q] if 0 <= n - 8 * i - 8 + q else 0 for q in range(8))
        return I.frombits(st, part)
    hi = st.cons.bounds(x)[1]
    if hi < (1 << (8 * i)):
        return 0
    if i == 0 and hi <= 255:
        return x
    return mk("byte", (x, i), I.u8_ty)


def from_be(I, st, bs):
    if all(isinstance(b, int) for b in bs):
        n = 0
        for b in bs:
            n = n * 256 + b
        return n
    n = len(bs)
    f = bs[-1]
    # bytes of one term
    src = None
    for j, b in enumerate(bs):
        if isinstance(b, V) and b.k == "byte":
            src = b.a[0]
    if src is not None:
        w = n
        if all(byte_of(I, st, src, n - 1 - j, n) is b or byte_of(I, st, src, n - 1 - j, n) == b for j, b in enumerate(bs)):
            if st.cons.bounds(src)[1] < (1 << (8 * n)):
                return src
    r = 0
    for j, b in enumerate(bs):
        r = add(r, scale(b, 256 ** (n - 1 - j)))
    return r


def as_items(I, st, v, want_ref, ety=None, srcref=None):
    """materialise the elements of a container content; None if symbolic"""
    es = elems_of(v)
    if es is None:
        return None
    if any(is_splice(e) for e in es):
        return None
    out = []
    for i, e in enumerate(es):
        if want_ref:
            if srcref is not None and isinstance(srcref, V) and srcref.k == "ref" and srcref.a[0][0] != "v":
                out.append(mk("ref", (srcref.a[0], srcref.a[1] + (("at", i, None),)), ety))
            else:
                out.append(refto(I, st, e, ety))
        else:
            out.append(e)
    return out


def sym_iter(I, st, base, mode, ety):
    """iterator over a symbolic collection (representative element)"""
    return mk("its", (base, mode, 0, ety))


def iter_next(I, st, v):
    """[(state, item or None, new iterator value)]"""
    if v.k == "it":
        if v.a[0]:
            return [(st, v.a[0][0], it(v.a[0][1:]))]
        return [(st, None, v)]
    if v.k == "itc":  # chain of iterators
        its = v.a[0]
        if not its:
            return [(st, None, v)]
        out = []
        for s, x, n in iter_next(I, st, its[0]):
            if x is None:
                out.extend(iter_next(I, s, mk("itc", (its[1:],))))
            else:
                out.append((s, x, mk("itc", ((n,) + its[1:],))))
        return out
    if v.k == "its":
        base, mode, n, ety = v.a
        if n == -1:
            return [(st, None, v)]
        out = []
        s2 = st
        ln = coll_len(I, st, base)
        if n >= I.reps:
            # a collection of known small length is walked to its end
            lo, hi = st.cons.bounds(ln) if isinstance(ln, V) else (ln, ln)
            if not (lo == hi and n < hi <= 64):
                if I.exact_iter and hi > n:
                    raise_abort(I, f"iteration over {terms.show(base)} of unknown length")
                st.emit(("iterend", base))
                return [(st, None, mk("its", (base, mode, -1, ety)))]
        if n == 0:
            s2 = st.fork()
            if st.cons.assume_eq(ln, 0):
                st.emit(("iterend", base))
                out.append((st, None, mk("its", (base, mode, -1, ety))))
        elif I.reps > 1:
            s2 = st.fork()
            if st.cons.assume_eq(ln, n):
                st.emit(("iterend", base))
                out.append((st, None, mk("its", (base, mode, -1, ety))))
        if s2.cons.assume_ge(ln, n + 1):
            out.append((s2, sym_elem(I, s2, base, n, mode, ety), mk("its", (base, mode, n + 1, ety))))
        return out
    if v.k == "itm":  # lazy map: (iter, closure)
        src, f, kind = v.a
        out = []
        if kind == "taken":
            if f == 0:
                return [(st, None, v)]
            return [(s, x, mk("itm", (n, f - 1 if x is not None else 0, kind))) for s, x, n in iter_next(I, st, src)]
        if kind == "skipped":
            cur = [(st, src)]
            for _ in range(f):
                cur = [(s2, n) for s, it_ in cur for s2, x, n in iter_next(I, s, it_)]
            return [y for s, it_ in cur for y in iter_next(I, s, it_)]
        if kind == "zipped":
            tt = None
            for s, x, n in iter_next(I, st, src):
                if x is None:
                    out.append((s, None, it(())))
                    continue
                for s2, y, n2 in iter_next(I, s, f):
                    if y is None:
                        out.append((s2, None, it(())))
                    else:
                        out.append((s2, mk("agg", (0, (x, y)), tt), mk("itm", (n, n2, kind))))
            return out
        for s, x, n in iter_next(I, st, src):
            if x is None:
                out.append((s, None, mk("itm", (n, f, kind))))
                continue
            out.extend(_lazy_apply(I, s, x, n, f, kind))
        return out
    raise_abort(I, f"iter_next {v}")


def _lazy_apply(I, s, x, n, f, kind):
    out = []
    nv = mk("itm", (n, f, kind))
    if kind == "map":
        for s2, r in I.call_value(s, f, [x]):
            out.append((s2, r, nv))
    elif kind == "filter":
        for s2, r in I.call_value(s, f, [refto(I, s, x, None)]):
            for s3, b in I.branch_bool(s2, r):
                if b:
                    out.append((s3, x, nv))
                else:
                    out.extend(iter_next(I, s3, nv))
    elif kind == "filter_map":
        for s2, r in I.call_value(s, f, [x]):
            for s3, y in opt_split(I, s2, r):
                if y is not None:
                    out.append((s3, y, nv))
                else:
                    out.extend(iter_next(I, s3, nv))
    elif kind in ("take_while",):
        for s2, r in I.call_value(s, f, [refto(I, s, x, None)]):
            for s3, b in I.branch_bool(s2, r):
                out.append((s3, x if b else None, nv if b else it(())))
    elif kind == "deref":
        y = rd(I, s, x)
        if isinstance(y, V) and y.k == "cint":
            y = y.a[0]
        out.append((s, y, nv))
    elif kind == "inspect":
        for s2, r in I.call_value(s, f, [refto(I, s, x, None)]):
            out.append((s2, x, nv))
    elif kind == "enum":
        out.append((s, mk("agg", (0, (f, x)), None), mk("itm", (n, add(f, 1), kind))))
    else:
        raise_abort(I, f"lazy {kind}")
    return out


def raise_abort(I, msg):
    from interp import Abort
    raise Abort(msg)


def opt_split(I, st, v):
    """[(state, payload or None)] for an Option value"""
    if isinstance(v, V) and v.k == "agg":
        t = I.P.types[v.ty]
        if t.vs[v.a[0]][0] == "Some":
            return [(st, v.a[1][0])]
        return [(st, None)]
    t = I.P.types[v.ty]
    d = I.discriminant(st, v, v.ty)
    si, ni = t.variant_index("Some"), t.variant_index("None")
    s2 = st.fork()
    out = []
    if st.cons.assume_eq(d, t.vs[ni][1]):
        out.append((st, None))
    if s2.cons.assume_eq(d, t.vs[si][1]):
        out.append((s2, I.project(s2, mk("dc", (v, si), v.ty), ("f", 0, t.vs[si][2][0][1]))))
    return out


def len_base(I, st, v):
    """the collection whose (symbolic) size v is"""
    v = st.cons.value(v)
    if isinstance(v, V) and v.k == "len" and isinstance(v.a[0], V) and opaque_elems(I, v.a[0]):
        return v.a[0]
    return None


def opaque_elems(I, b):
    """a collection that is not a byte / character string: iterated through representative elements"""
    if b.k in ("set", "map", "elem"):
        return True
    if b.ty is None:
        return False
    t = I.P.types[b.ty]
    while t.k == "ref":
        t = I.P.types[t.e]
    if t.path in SETS or t.path in MAPS:
        return True
    if t.path == "std::string::String" or t.k == "str":
        return False
    et = t.args[0] if t.k == "struct" and t.args else t.e if t.k in ("slice", "array") else None
    return et is not None and I.P.types[et].k != "int"


def coll_bound(I, st, n, ln):
    """n has reached the number of representative elements of the collection of size ln"""
    n = st.cons.value(n)
    if isinstance(n, int) and n >= I.reps:
        return len_base(I, st, ln)
    return None


def coll_len(I, st, base):
    if isinstance(base, V) and base.k in ("set", "map"):
        return mk("len", (base,), I.usize_ty)
    return seq_len(I, st, base)


def sym_elem(I, st, base, n, mode, ety):
    """representative element n of a symbolic collection"""
    if mode == "key" or mode == "val":
        return mk("elem", (base, n), ety)
    if mode == ("idx",):
        return n
    if mode == "ref":
        et = I.P.types[ety].e if ety is not None else None
        return refto(I, st, mk("elem", (base, n), et), ety)
    if mode[0] == "seqref":
        et = I.P.types[ety].e if ety is not None and I.P.types[ety].k == "ref" else None
        return refto(I, st, index_value(I, st, base, n, et), ety)
    if mode[0] == "seq":
        return index_value(I, st, base, n, ety)
    if mode[0] == "kv":
        kty, vty, rk, rv, tty = mode[1:]
        k = mk("elem", (base, n), I.P.types[kty].e if rk else kty)
        val = _map_elem_val(I, st, base, k, I.P.types[vty].e if rv else vty)
        if tty == "keys":
            return refto(I, st, k, kty) if rk else k
        if tty == "values":
            return refto(I, st, val, vty) if rv else val
        return mk("agg", (0, (refto(I, st, k, kty) if rk else k, refto(I, st, val, vty) if rv else val)), tty)
    raise_abort(I, f"sym_elem {mode}")


def _map_elem_val(I, st, base, k, vty):
    b = base.a[0] if isinstance(base, V) and base.k == "map" else base
    return mk("mget", (b, k), vty)


def bulk(I, st, itv, byval):
    """elements (and splices) of an iterator over whole sequences, None when it is another kind. byval: references stand for their targets"""
    if not isinstance(itv, V):
        return None
    if itv.k == "itm" and itv.a[2] == "deref":
        return bulk(I, st, itv.a[0], True)
    if itv.k == "its" and itv.a[2] == 0 and (itv.a[1] == ("seq",) or byval and itv.a[1] == ("seqref",)):
        return [mk("splice", (itv.a[0],))]
    if itv.k == "it":
        return [rd(I, st, x) if byval and isinstance(x, V) and x.k == "ref" else x for x in itv.a[0]]
    if itv.k == "itc":
        out = []
        for p in itv.a[0]:
            es = bulk(I, st, p, byval)
            if es is None:
                return None
            out += es
        return out
    return None


def drain_all(I, st, itv, limit=400):
    """run an iterator to the end: [(state, items)]"""
    out = []
    work = [(st, itv, ())]
    while work:
        s, v, acc = work.pop()
        for s2, x, n in iter_next(I, s, v):
            if x is None:
                out.append((s2, list(acc)))
            else:
                if len(acc) > limit:
                    raise_abort(I, "iterator too long")
                work.append((s2, n, acc + (x,)))
    return out


def to_iter(I, st, v, ty, dty=None):
    """iterator from a container value (by value) or reference. ty = type id of v"""
    t = I.P.types[ty] if ty is not None else None
    if isinstance(v, V) and v.k in ("it", "its", "itm", "itc"):
        return v
    byref = False
    src = None
    if t is not None and t.k == "ref":
        byref = True
        src = v
        v = rd(I, st, v)
        t = I.P.types[t.e]
        mut = True
        while t.k == "ref":
            src = v
            v = rd(I, st, v)
            t = I.P.types[t.e]
    if isinstance(v, V) and v.k in ("it", "its", "itm", "itc"):
        return v
    if t.path.endswith("Option") and t.k == "enum":
        return None
    if t.path in ("std::ops::Range", "core::ops::Range") and isinstance(v, V) and v.k == "agg":
        return v
    if isinstance(v, V) and v.k == "oset":
        rty = ref_ty(I, t.args[0])
        return it([refto(I, st, x, rty) for x in v.a[0]] if byref else v.a[0])
    if isinstance(v, V) and v.k == "omap":
        rk, rv = (ref_ty(I, t.args[0]), ref_ty(I, t.args[1])) if byref else t.args[:2]
        tt = tuple_ty(I, (rk, rv))
        return ordmap.ordered(I, t, v.a[0], lambda e: mk("agg", (0, tuple(refto(I, st, x, r) if byref else x for x, r in zip(e, (rk, rv)))), tt))
    if t.path in SETS:
        base, ops = as_set(I, st, v)
        et = t.args[0]
        return set_iter(I, st, v, et, byref)
    if t.path in MAPS:
        return map_iter(I, st, v, t, byref, "kv")
    # sequences
    et = t.args[0] if t.k in ("struct",) and t.args else t.e
    rty = ref_ty(I, et) if byref else et
    items = as_items(I, st, v, byref, rty, src)
    if items is not None:
        return it(items)
    es = elems_of(v)
    if es is not None:
        parts = []
        cur = []
        for e in es:
            if is_splice(e):
                if cur:
                    parts.append(it(cur))
                    cur = []
                parts.append(sym_iter(I, st, e.a[0], ("seqref",) if byref else ("seq",), rty))
            else:
                cur.append(refto(I, st, e, rty) if byref else e)
        if cur:
            parts.append(it(cur))
        return mk("itc", (tuple(parts),))
    return sym_iter(I, st, v, ("seqref",) if byref else ("seq",), rty)


def to_iters(I, st, v, ty):
    """like to_iter, an Option being split into its cases: [(state, iterator)]"""
    t = I.P.types[ty] if ty is not None else None
    if t is not None and t.k == "enum" and t.path.endswith("Option"):
        return [(s, it(()) if x is None else it((x,))) for s, x in opt_split(I, st, v)]
    if t is not None and t.k == "ref" and I.P.types[t.e].k == "enum" and I.P.types[t.e].path.endswith("Option"):
        o = rd(I, st, v)
        et = I.P.types[t.e].args[0] if I.P.types[t.e].args else None
        return [(s, it(()) if x is None else it((refto(I, s, x, ref_ty(I, et)),))) for s, x in opt_split(I, st, o)]
    return [(st, to_iter(I, st, v, ty))]


_ref_cache = {}


def ref_ty(I, et):
    key = (id(I.P), et)
    if key not in _ref_cache:
        r = None
        for t in I.P.types:
            if t.k == "ref" and t.e == et and not t.mut:
                r = t.id
                break
        _ref_cache[key] = r
    return _ref_cache[key]


def set_iter(I, st, v, et, byref):
    base, ops = as_set(I, st, v)
    parts = []
    rty = ref_ty(I, et) if byref else et
    removed = [o[1] for o in ops if o[0] == "-"]
    if not (isinstance(base, V) and base.k == "empty"):
        parts.append(sym_iter(I, st, base if not ops else v, "ref" if byref else "key", rty))
    adds = [o[1] for o in ops if o[0] == "+"]
    if adds:
        parts.append(it([refto(I, st, x, rty) if byref else x for x in adds]))
    if len(parts) == 1:
        return parts[0]
    return mk("itc", (tuple(parts),))


def map_iter(I, st, v, t, byref, what):
    base, ops = as_map(I, st, v)
    kty, vty = t.args[0], t.args[1]
    rk = ref_ty(I, kty) if byref else kty
    rv = ref_ty(I, vty) if byref else vty
    tty = what
    if what == "kv":
        tty = tuple_ty(I, (rk, rv))
    parts = []
    if not (isinstance(base, V) and base.k == "empty"):
        parts.append(sym_iter(I, st, base if not ops else v, ("kv", rk, rv, byref, byref, tty), tty))
    adds = [o for o in ops if o[0] == "+"]
    if adds:
        items = []
        for o in adds:
            k = refto(I, st, o[1], rk) if byref else o[1]
            val = refto(I, st, o[2], rv) if byref else o[2]
            items.append(k if what == "keys" else val if what == "values" else mk("agg", (0, (k, val)), tty if isinstance(tty, int) else None))
        parts.append(it(items))
    if len(parts) == 1:
        return parts[0]
    return mk("itc", (tuple(parts),))


def tuple_ty(I, es):
    for t in I.P.types:
        if t.k == "tuple" and tuple(t.es) == tuple(es):
            return t.id
    return None


SETS = {"hashbrown::HashSet", "std::collections::HashSet", "std::collections::hash_set::HashSet", "indexmap::IndexSet",
        "indexmap::set::IndexSet", "std::collections::BTreeSet", "std::collections::btree_set::BTreeSet"}
MAPS = {"hashbrown::HashMap", "std::collections::HashMap", "indexmap::IndexMap", "indexmap::map::IndexMap",
        "std::collections::BTreeMap"}
SEQS = {"std::vec::Vec", "alloc::vec::Vec", "std::string::String", "arrayvec::ArrayVec", "arrayvec::ArrayString",
        "std::collections::VecDeque", "std::boxed::Box", "std::sync::Arc", "smallvec::SmallVec"}
WRAPS = {"std::sync::Arc", "std::boxed::Box", "std::rc::Rc"}

OPAQUE_PREFIX = ("std::fmt", "core::fmt", "alloc::fmt", "serde_json", "serde", "std::hash", "core::hash", "tracing", "std::io::Write",
                 "num_enum", "derive_builder", "std::backtrace", "std::error")
PANIC_NAMES = {"panic", "panic_fmt", "panic_nounwind", "unwrap_failed", "expect_failed", "panic_display", "panic_str",
               "panic_explicit", "begin_panic", "unreachable_display", "assert_failed", "assert_failed_inner",
               "panic_bounds_check", "slice_index_fail", "panic_cannot_unwind", "unwrap_failed_inner",
               "slice_start_index_len_fail", "slice_end_index_len_fail", "slice_index_order_fail", "panic_const_add_overflow",
               "len_mismatch_fail", "copy_from_slice_impl_fail"}


def std_call(I, st, callee, args, argtys, dty):
    name = callee.name
    path = callee.path
    local = callee.local
    # identity clone for every type (derived or std)
    if callee.trait == "std::clone::Clone" or (name == "clone" and "Clone" in path and len(args) == 1):
        if name == "clone":
            return [(st, rd(I, st, args[0]))]
        if name == "clone_from":
            wr(I, st, args[0], rd(I, st, args[1]))
            return [(st, I.unit)]
    if local:
        return None
    if name in PANIC_NAMES and ("panic" in path or "unwrap_failed" in path or "expect_failed" in path or "assert_failed" in path or "begin" in path or "fail" in path):
        I.panic(st, I.stack[-1][0], I.stack[-1][1], "panic", name)
        return []
    if path.startswith("<") or path.startswith("core") or path.startswith("std") or True:
        pass
    selfty = callee.self_ty
    if selfty is None and callee.args and isinstance(callee.args[0], int) and callee.trait:
        selfty = callee.args[0]
    t = I.P.types[selfty] if selfty is not None and isinstance(selfty, int) else None
    if callee.kind == "Intrinsic" or path.startswith("std::intrinsics") or path.startswith("core::intrinsics"):
        return intrinsic(I, st, callee, name, args, argtys, dty)
    h = None
    if t is not None:
        if t.path in SETS:
            h = set_call
        elif t.path in MAPS:
            h = map_call
        elif t.k == "int":
            h = int_call
        elif t.k in ("slice", "array", "str") or t.path in SEQS:
            h = seq_call
        elif t.path == "std::any::TypeId":
            h = typeid_call
    if h is not None:
        r = h(I, st, callee, name, args, argtys, dty, t)
        if r is not None:
            return r
    if args and argtys:
        r = entry_call(I, st, callee, name, args, argtys, dty)
        if r is not None:
            return r
    r = iter_call(I, st, callee, name, args, argtys, dty, t)
    if r is not None:
        return r
    r = misc_call(I, st, callee, name, args, argtys, dty, t)
    if r is not None:
        return r
    for p in OPAQUE_PREFIX:
        if path.startswith(p) or ("<" + p) in path or (" as " + p) in path:
            ret = mk("call", (path,) + tuple(a if not isinstance(a, V) or a.k != "ref" else rd(I, st, a) for a in args), dty)
            if I.P.types[dty].k == "tuple" and not I.P.types[dty].es:
                ret = I.unit
            return [(st, ret)]
    return None


def intrinsic(I, st, callee, name, args, argtys, dty):
    if name in ("cold_path", "assume", "assert_inhabited", "assert_zero_valid"):
        return [(st, I.unit)]
    if name == "discriminant_value":
        v = rd(I, st, args[0])
        tt = I.P.types[argtys[0]]
        return [(st, I.discriminant(st, v, tt.e if tt.k == "ref" else None))]
    if name in ("saturating_add", "saturating_sub"):
        return saturating(I, st, name.split("_")[1], args[0], args[1], argtys[0])
    if name in ("add_with_overflow", "sub_with_overflow", "mul_with_overflow", "wrapping_add", "wrapping_sub", "wrapping_mul",
                "unchecked_add", "unchecked_sub", "unchecked_mul"):
        base, mode = (name.split("_")[0], "ov") if "with" in name else (name.split("_")[1], "w")
        v = arith(I, st, base, args[0], args[1], argtys[0])
        if mode == "w":
            return [(st, I.wrapped(st, v, argtys[0]))]
        lo, hi = I.rangeof(argtys[0])
        parts = [I.cmp(st, "Lt", v, lo), I.cmp(st, "Gt", v, hi)]
        return [(st, mk("agg", (0, (I.wrapped(st, v, argtys[0]), I.bandor("or", parts))), dty))]
    if name == "integer_min" or name == "min_value":
        return [(st, I.rangeof(dty)[0])]
    if name == "bswap":
        x = args[0]
        n = I.P.types[argtys[0]].w // 8
        return [(st, from_be(I, st, [byte_of(I, st, x, j, n) for j in range(n)]))]
    if name in ("size_of", "size_of_val", "min_align_of", "align_of"):
        a = callee.args[0]
        tt = I.P.types[a] if isinstance(a, int) else None
        if name == "size_of" and tt is not None:
            if tt.k in ("int",):
                return [(st, tt.w // 8)]
            if tt.size is not None:
                return [(st, tt.size)]
        return [(st, mk("call", (name, callee.inst), dty))]
    if name in ("likely", "unlikely", "black_box"):
        return [(st, args[0])]
    if name == "type_id":
        return [(st, mk("typeid", (callee.args[0],), dty))]
    if name in ("ub_checks", "contract_checks", "is_val_statically_known", "overflow_checks"):
        return [(st, 0)]
    if name == "transmute":
        return [(st, I.cast(st, "Transmute", args[0], argtys[0], dty))]
    return None


def arith(I, st, base, a, b, ty):
    if base == "add":
        return add(a, b)
    if base == "sub":
        return sub(a, b)
    if base == "mul":
        a, b = st.cons.value(a), st.cons.value(b)
        if isinstance(a, int):
            return scale(b, a)
        if isinstance(b, int):
            return scale(a, b)
        return mk("op", ("Mul", a, b), None)
    raise_abort(I, base)


def saturating(I, st, base, a, b, ty):
    v = arith(I, st, base, a, b, ty)
    lo, hi = I.rangeof(ty)
    out = []
    for s, o in I.branch_bool(st, I.cmp(st, "Lt", v, lo)):
        if o:
            out.append((s, lo))
            continue
        for s2, o2 in I.branch_bool(s, I.cmp(s, "Gt", v, hi)):
            out.append((s2, hi if o2 else v))
    return out


def int_call(I, st, callee, name, args, argtys, dty, t):
    if name in ("to_be_bytes", "to_le_bytes", "to_ne_bytes"):
        n = t.w // 8
        bs = [byte_of(I, st, args[0], n - 1 - j, n) for j in range(n)]
        if name != "to_be_bytes":
            bs.reverse()
        return [(st, mk("agg", (0, tuple(bs)), dty))]
    if name in ("from_be_bytes", "from_le_bytes", "from_ne_bytes"):
        v = args[0]
        n = t.w // 8
        et = I.u8_ty
        bs = [index_value(I, st, v, j, et) for j in range(n)]
        if name != "from_be_bytes":
            bs.reverse()
        return [(st, from_be(I, st, bs))]
    if name in ("saturating_add", "saturating_sub", "saturating_mul"):
        return saturating(I, st, name.split("_")[1], args[0], args[1], argtys[0])
    if name in ("wrapping_add", "wrapping_sub", "wrapping_mul"):
        return [(st, I.wrapped(st, arith(I, st, name.split("_")[1], args[0], args[1], argtys[0]), argtys[0]))]
    if name in ("checked_add", "checked_sub", "checked_mul"):
        v = arith(I, st, name.split("_")[1], args[0], args[1], argtys[0])
        lo, hi = I.rangeof(argtys[0])
        out = []
        c = I.bandor("or", [I.cmp(st, "Lt", v, lo), I.cmp(st, "Gt", v, hi)])
        for s, b in I.branch_bool(st, c):
            out.append((s, none(I, dty) if b else some(I, dty, v)))
        return out
    if name in ("overflowing_add", "overflowing_sub", "overflowing_mul"):
        v = arith(I, st, name.split("_")[1], args[0], args[1], argtys[0])
        lo, hi = I.rangeof(argtys[0])
        c = I.bandor("or", [I.cmp(st, "Lt", v, lo), I.cmp(st, "Gt", v, hi)])
        return [(st, mk("agg", (0, (I.wrapped(st, v, argtys[0]), c)), dty))]
    if name in ("min", "max") and callee.trait.endswith("Ord"):
        a, b = args
        out = []
        for s, o in I.branch_bool(st, I.cmp(st, "Lt", b, a)):
            out.append((s, (b if o else a) if name == "min" else (a if o else b)))
        return out
    if name == "cmp" and callee.trait.endswith("Ord"):
        return ord3(I, st, rd(I, st, args[0]), rd(I, st, args[1]), dty)
    if name in ("lt", "le", "gt", "ge") and "PartialOrd" in callee.trait:
        a, b = rd(I, st, args[0]), rd(I, st, args[1])
        return [(st, I.cmp(st, name.capitalize(), a, b))]
    if name in ("eq", "ne") and "PartialEq" in callee.trait:
        a, b = rd(I, st, args[0]), rd(I, st, args[1])
        return [(st, I.cmp(st, name.capitalize(), a, b))]
    if name == "one":
        return [(st, 1)]
    if name == "zero":
        return [(st, 0)]
    if name == "is_zero":
        return [(st, I.cmp(st, "Eq", rd(I, st, args[0]), 0))]
    if name in ("max_value",):
        return [(st, I.rangeof(selfid(t))[1])]
    if name in ("min_value",):
        return [(st, I.rangeof(selfid(t))[0])]
    if name in ("add", "sub", "mul") and "ops::" in callee.trait:
        return None
    if name == "default":
        return [(st, 0)]
    if name == "swap_bytes":
        n = t.w // 8
        return [(st, from_be(I, st, [byte_of(I, st, args[0], j, n) for j in range(n)]))]
    if name == "is_ascii":
        return [(st, I.cmp(st, "Lt", rd(I, st, args[0]), 128))]
    return None


def selfid(t):
    return t.id


def ord3(I, st, a, b, dty):
    t = I.P.types[dty]
    def var(n):
        return mk("agg", (t.variant_index(n), ()), dty)
    out = []
    for s, o in I.branch_bool(st, I.cmp(st, "Lt", a, b)):
        if o:
            out.append((s, var("Less")))
        else:
            for s2, e in I.branch_bool(s, I.cmp(s, "Eq", a, b)):
                out.append((s2, var("Equal" if e else "Greater")))
    return out


def typeid_call(I, st, callee, name, args, argtys, dty, t):
    if name == "of":
        return [(st, mk("typeid", (callee.args[0],), dty))]
    if name in ("eq", "ne"):
        a, b = rd(I, st, args[0]), rd(I, st, args[1])
        e = 1 if a is b else 0
        return [(st, e if name == "eq" else 1 - e)]
    return None


# --------------------------------------------------------------------- sets
def set_call(I, st, callee, name, args, argtys, dty, t):
    ty = t.id
    if name in ("new", "default", "with_capacity", "with_hasher", "with_capacity_and_hasher"):
        if I.osets and t.path.endswith("BTreeSet"):
            return [(st, mk("oset", ((),), ty))]
        return [(st, mk("set", (EMPTY, ()), ty))]
    if not args:
        return None
    at0 = I.P.types[argtys[0]]
    if I.osets:
        o = rd(I, st, args[0])
        if isinstance(o, V) and o.k == "oset":
            import ordset
            return ordset.call(I, st, callee, name, args, argtys, dty, t)
    if name == "into_iter":
        return [(st, to_iter(I, st, args[0], argtys[0]))]
    if at0.k != "ref":
        return None
    sv = rd(I, st, args[0])
    base, ops = as_set(I, st, sv)
    if name in ("insert", "remove", "contains", "take", "replace"):
        k = args[1]
        if I.P.types[argtys[1]].k == "ref":
            k = rd(I, st, k)
        out = []
        for s, m in set_member(I, st, sv, k):
            if name == "contains":
                out.append((s, m))
            elif name == "insert":
                if not m:
                    wr(I, s, args[0], mkset(base, op_push(I, s, ops, ("+", k)), ty))
                out.append((s, 1 - m))
            else:
                if m:
                    wr(I, s, args[0], mkset(base, op_push(I, s, ops, ("-", k)), ty))
                if name == "take":
                    out.append((s, some(I, dty, k) if m else none(I, dty)))
                else:
                    out.append((s, m))
        return out
    if name == "clear":
        wr(I, st, args[0], mk("set", (EMPTY, ()), ty))
        return [(st, I.unit)]
    if name == "drain":
        v = set_iter(I, st, sv, t.args[0], False)
        wr(I, st, args[0], mk("set", (EMPTY, ()), ty))
        return [(st, v)]
    if name in ("iter",):
        return [(st, set_iter(I, st, sv, t.args[0], True))]
    if name == "len":
        return [(st, set_len(I, st, sv))]
    if name == "is_empty":
        return [(st, I.cmp(st, "Eq", set_len(I, st, sv), 0))]
    if name == "extend":
        drained = []
        for s, itv in to_iters(I, st, args[1], argtys[1]):
            if itv is None:
                return None
            drained += drain_all(I, s, itv)
        out = []
        for s, items in drained:
            work = [(s, 0)]
            while work:
                s1, i = work.pop()
                if i == len(items):
                    out.append((s1, I.unit))
                    continue
                k = items[i]
                cur = rd(I, s1, args[0])
                b2, o2 = as_set(I, s1, cur)
                for s2, m in set_member(I, s1, cur, k):
                    if not m:
                        wr(I, s2, args[0], mkset(b2, op_push(I, s2, o2, ("+", k)), ty))
                    work.append((s2, i + 1))
        return out
    if name == "retain":
        st.emit(("retain", sv))
        return retain_sym(I, st, args, sv, ty, lambda s, x: [refto(I, s, x, None)], "set")
    if name in ("reserve", "shrink_to_fit"):
        return [(st, I.unit)]
    return None


def set_len(I, st, sv):
    base, ops = as_set(I, st, sv)
    n = 0
    if not (isinstance(base, V) and base.k == "empty"):
        n = mk("len", (base,), I.usize_ty)
    for o in ops:
        n = add(n, 1 if o[0] == "+" else -1)
    return n


def retain_sym(I, st, args, sv, ty, mkargs, kind):
    return None


# --------------------------------------------------------------------- maps
def map_call(I, st, callee, name, args, argtys, dty, t):
    ty = t.id
    if name in ("new", "default", "with_capacity", "with_hasher", "with_capacity_and_hasher"):
        return [(st, mk("omap", ((),), ty) if I.omaps else mk("map", (EMPTY, ()), ty))]
    if not args:
        return None
    if I.omaps:
        o = rd(I, st, args[0])
        if isinstance(o, V) and o.k == "omap":
            return ordmap.call(I, st, callee, name, args, argtys, dty, t)
    at0 = I.P.types[argtys[0]]
    if name == "into_iter":
        return [(st, to_iter(I, st, args[0], argtys[0]))]
    if at0.k != "ref":
        return None
    mv = rd(I, st, args[0])
    base, ops = as_map(I, st, mv)
    vty = t.args[1]
    if name in ("contains_key", "get", "get_full", "get_mut", "remove", "shift_remove", "swap_remove", "insert", "get_index_of", "shift_remove_full"):
        k = args[1]
        if name != "insert" and I.P.types[argtys[1]].k == "ref":
            k = rd(I, st, k)
        out = []
        for s, val in map_get(I, st, mv, k, vty):
            if name == "contains_key":
                out.append((s, 1 if val is not None else 0))
            elif name == "get":
                if val is None:
                    out.append((s, none(I, dty)))
                else:
                    out.append((s, some(I, dty, refto(I, s, val, opt_payload(I, dty)))))
            elif name == "get_mut":
                if val is None:
                    out.append((s, none(I, dty)))
                else:
                    # writes through the reference are not tracked
                    s.taint = s.taint + ("map::get_mut",)
                    out.append((s, some(I, dty, refto(I, s, val, opt_payload(I, dty)))))
            elif name == "get_full":
                if val is None:
                    out.append((s, none(I, dty)))
                else:
                    tt = opt_payload(I, dty)
                    es = I.P.types[tt].es
                    out.append((s, some(I, dty, mk("agg", (0, (mk("idxof", (mv, k), I.usize_ty), refto(I, s, k, es[1]), refto(I, s, val, es[2]))), tt))))
            elif name == "get_index_of":
                out.append((s, none(I, dty) if val is None else some(I, dty, mk("idxof", (mv, k), I.usize_ty))))
            elif name == "insert":
                if val is None:
                    wr(I, s, args[0], mkmap(base, op_push(I, s, ops, ("+", k, args[2])), ty))
                    out.append((s, none(I, dty)))
                else:
                    # overwrite keeps the position
                    o2 = tuple(o for o in ops)
                    done = False
                    lst = []
                    for o in ops:
                        if o[0] == "+" and eq_terms(I, s, o[1], k) == 1:
                            lst.append(("+", o[1], args[2]))
                            done = True
                        else:
                            lst.append(o)
                    if not done:
                        lst.append(("=", k, args[2]))
                    wr(I, s, args[0], mkmap(base, tuple(lst), ty))
                    out.append((s, some(I, dty, val)))
            else:
                if val is not None:
                    swap = name == "swap_remove" or (name == "remove" and "indexmap" in t.path)
                    wr(I, s, args[0], mkmap(base, op_push(I, s, ops, ("~", k) if swap else ("-", k)), ty))
                if name == "shift_remove_full":
                    return None
                out.append((s, none(I, dty) if val is None else some(I, dty, val)))
        return out
    if name == "entry":
        et = I.P.types[dty]
        oi, vi = et.variant_index("Occupied"), et.variant_index("Vacant")
        if oi is None or vi is None:
            return None
        k = args[1]
        out = []
        for s, val in map_get(I, st, mv, k, vty):
            i = vi if val is None else oi
            out.append((s, mk("agg", (i, (mk("entry", (args[0], k, t.id), et.vs[i][2][0][1]),)), dty)))
        return out
    if name in ("shift_remove_index", "swap_remove_index"):
        i = args[1]
        if isinstance(i, V) and i.k == "idxof" and i.a[0] is mv:
            k = i.a[1]
            out = []
            for s, val in map_get(I, st, mv, k, vty):
                wr(I, s, args[0], mkmap(base, op_push(I, s, ops, ("-", k) if name[1] == "h" else ("~", k)), ty))
                tt = opt_payload(I, dty)
                out.append((s, some(I, dty, mk("agg", (0, (k, val)), tt))))
            return out
        return None
    if name == "clear":
        wr(I, st, args[0], mk("map", (EMPTY, ()), ty))
        return [(st, I.unit)]
    if name == "iter":
        return [(st, map_iter(I, st, mv, t, True, "kv"))]
    if name == "keys":
        return [(st, map_iter(I, st, mv, t, True, "keys"))]
    if name == "values":
        return [(st, map_iter(I, st, mv, t, True, "values"))]
    if name == "drain":
        v = map_iter(I, st, mv, t, False, "kv")
        wr(I, st, args[0], mk("map", (EMPTY, ()), ty))
        return [(st, v)]
    if name == "len":
        return [(st, set_len(I, st, mv))]
    if name == "is_empty":
        return [(st, I.cmp(st, "Eq", set_len(I, st, mv), 0))]
    if name == "retain":
        # closure on the representative entry
        f = args[1]
        if isinstance(base, V) and base.k == "empty" and not ops:
            return [(st, I.unit)]
        if ops:
            return None
        k = mk("elem", (base, 0), t.args[0])
        val = _map_elem_val(I, st, base, k, vty)
        out = []
        s0 = st.fork()
        ln = set_len(I, st, mv)
        if s0.cons.assume_eq(ln, 0):
            s0.emit(("iterend", base))
            out.append((s0, I.unit))
        if st.cons.assume_ge(ln, 1):
            I.fid += 1
            loc = ("h", "retain", I.fid)
            st.mem[loc] = val
            for s, r in I.call_value(st, f, [refto(I, st, k, ref_ty(I, t.args[0])), mk("ref", (loc, ()), None)]):
                for s2, b in I.branch_bool(s, r):
                    if not b:
                        wr(I, s2, args[0], mkmap(base, (("-", k),), ty))
                    elif s2.mem.get(loc) is not val:
                        wr(I, s2, args[0], mkmap(base, (("=", k, s2.mem[loc]),), ty))
                    s2.emit(("iterend", base))
                    out.append((s2, I.unit))
        return out
    return None


def entry_call(I, st, callee, name, args, argtys, dty):
    """map entry API"""
    a = args[0]
    t0 = I.P.types[argtys[0]]
    if t0.k == "ref":
        a = rd(I, st, a)
    vac = None
    if isinstance(a, V) and a.k == "agg" and len(a.a[1]) == 1 and a.ty is not None and I.P.types[a.ty].path.endswith("Entry"):
        vac = I.P.types[a.ty].vs[a.a[0]][0] == "Vacant"
        a = a.a[1][0]
    elif isinstance(a, V) and a.k == "entry" and a.ty is not None:
        vac = I.P.types[a.ty].path.endswith("VacantEntry")
    if not (isinstance(a, V) and a.k == "entry"):
        return None
    mref, k, mt = a.a
    mv = rd(I, st, mref)
    if isinstance(mv, V) and mv.k == "omap":
        return ordmap.entry(I, st, callee, name, args, argtys, dty, a, vac)
    base, ops = as_map(I, st, mv)
    t = I.P.types[mt]
    vty = t.args[1]
    if name == "key":
        return [(st, refto(I, st, k, dty))]

    def put(s, v):
        o = as_map(I, s, rd(I, s, mref))[1]
        if vac:
            wr(I, s, mref, mkmap(base, op_push(I, s, o, ("+", k, v)), mt))
        else:
            lst, done = [], False
            for x in o:
                if x[0] == "+" and eq_terms(I, s, x[1], k) == 1:
                    lst.append(("+", x[1], v))
                    done = True
                else:
                    lst.append(x)
            if not done:
                lst.append(("=", k, v))
            wr(I, s, mref, mkmap(base, tuple(lst), mt))

    def cur(s):
        for s2, val in map_get(I, s, rd(I, s, mref), k, vty):
            if val is not None:
                return val
        return None
    if name == "insert" and len(args) == 2:
        old = cur(st) if not vac else None
        put(st, args[1])
        return [(st, refto(I, st, args[1], dty) if vac else old)]
    if name in ("insert_entry",):
        put(st, args[1])
        return [(st, a)]
    if name in ("or_insert", "or_insert_with", "or_default") and vac is not None:
        if not vac:
            return [(st, refto(I, st, cur(st), dty))]
        if name == "or_insert":
            rs = [(st, args[1])]
        elif name == "or_insert_with":
            rs = I.call_value(st, args[1], [])
        else:
            return None
        out = []
        for s, v in rs:
            put(s, v)
            out.append((s, refto(I, s, v, dty)))
        return out
    if name == "get" and not vac:
        return [(st, refto(I, st, cur(st), dty))]
    if name in ("remove", "shift_remove", "swap_remove") and not vac:
        v = cur(st)
        swap = name == "swap_remove" or (name == "remove" and "indexmap" in t.path)
        wr(I, st, mref, mkmap(base, op_push(I, st, ops, ("~", k) if swap else ("-", k)), mt))
        return [(st, v)]
    return None


def opt_payload(I, dty):
    t = I.P.types[dty]
    return t.vs[t.variant_index("Some")][2][0][1]


# ---------------------------------------------------------------- sequences
def rng_args(I, st, idx, ln):
    """(from,to) of a range index value"""
    if isinstance(idx, int):
        return None
    if idx.ty is None:
        return None
    p = I.P.types[idx.ty].path
    n = p.split("::")[-1]
    g = lambda i: I.project(st, idx, ("f", i, I.usize_ty))
    if n == "Range":
        return g(0), g(1)
    if n == "RangeFrom":
        return g(0), ln
    if n == "RangeTo":
        return 0, g(0)
    if n == "RangeFull":
        return 0, ln
    if n == "RangeInclusive":
        return g(0), add(g(1), 1)
    if n == "RangeToInclusive":
        return 0, add(g(0), 1)
    return None


def check_range(I, st, a, b, ln):
    """[(state, ok)]: a<=b<=ln"""
    c = I.bandor("and", [I.cmp(st, "Le", a, b), I.cmp(st, "Le", b, ln)])
    return I.branch_bool(st, c)


def seqpanic(I, st, msg):
    I.panic(st, I.stack[-1][0], I.stack[-1][1], "bounds", msg)


def seq_call(I, st, callee, name, args, argtys, dty, t):
    P = I.P
    isarr = t.k == "array"
    if not args:
        if name in ("new", "default", "new_uninit") and t.path in ("std::vec::Vec", "std::string::String", "arrayvec::ArrayVec"):
            return [(st, mk("vec", ((),), dty))]
        if name == "default" and isarr:
            es = tuple(0 for _ in range(t.n))
            return [(st, mk("agg", (0, es), dty))]
        if name == "new_uninit" and t.path == "std::boxed::Box":
            I.fid += 1
            loc = ("h", "box", I.fid)
            st.mem[loc] = mk("uninit", ("box",))
            return [(st, mk("boxp", (loc,), dty))]
        return None
    if name in ("with_capacity", "with_capacity_in") and t.path in SEQS:
        return [(st, mk("vec", ((),), dty))]
    if t.path in WRAPS and name in ("new", "from", "pin"):
        a = args[0]
        if t.path == "std::boxed::Box" and name == "new":
            I.fid += 1
            loc = ("h", "box", I.fid)
            st.mem[loc] = a
            return [(st, mk("boxp", (loc,), dty))]
        if P.types[argtys[0]].k == "ref":
            a = rd(I, st, a)
        elif isinstance(a, V) and a.k == "boxp":
            a = rd(I, st, a)
        return [(st, a)]
    if name in ("deref", "as_ref", "as_slice", "as_str", "as_bytes", "borrow", "deref_mut", "as_mut", "as_mut_slice", "as_array",
                "as_mut_ptr", "as_ptr", "as_bytes_mut"):
        a = args[0]
        if isinstance(a, V):
            if P.types[argtys[0]].k == "ref":
                inner = P.types[P.types[argtys[0]].e]
                # AsRef on &T
                v = a
                if v.k == "ref":
                    if inner.k == "ref":
                        return [(st, retag(rd(I, st, v), dty))]
                    return [(st, mk("ref", v.a, dty))]
                return [(st, mk("ref", (("o", v), ()), dty))]
        return None
    if name == "into_boxed_slice" or name in ("into_bytes", "into_vec", "into_string", "into_boxed_str"):
        return [(st, args[0])]
    if name == "into_iter":
        return [(st, to_iter(I, st, args[0], argtys[0]))]
    if name == "from" and t.path in ("std::vec::Vec", "std::string::String"):
        a = args[0]
        if P.types[argtys[0]].k == "ref":
            a = rd(I, st, a)
        return [(st, tovec(I, a, dty))]
    if name == "from_utf8_unchecked" or name == "from_utf8":
        return None
    if name == "try_from" and isarr:
        v = rd(I, st, args[0])
        out = []
        for s, o in I.branch_bool(st, I.cmp(st, "Eq", seq_len(I, st, v), t.n)):
            if o:
                es = tuple(index_value(I, s, v, j, t.e) for j in range(t.n))
                out.append((s, ok(I, dty, mk("agg", (0, es), t.id))))
            else:
                out.append((s, err(I, dty, s.fresh("tryfrom", None))))
        return out
    at0 = P.types[argtys[0]]
    if at0.k == "ref":
        v = rd(I, st, args[0])
    else:
        v = args[0]
    if name in ("eq", "ne") and "PartialEq" in callee.trait:
        b = rdd(I, st, args[1])
        e = eq_terms(I, st, rdd(I, st, args[0]), b)
        return [(st, e if name == "eq" else I.bnot(e))]
    if name == "len":
        return [(st, seq_len(I, st, v))]
    if name == "is_empty":
        return [(st, I.cmp(st, "Eq", seq_len(I, st, v), 0))]
    if name in ("iter", "iter_mut", "chars", "bytes"):
        if name == "chars":
            return None
        return [(st, to_iter(I, st, args[0], argtys[0]) if name != "bytes" else mk("itm", (to_iter(I, st, args[0], argtys[0]), 0, "deref")))]
    if name == "drain" and at0.k == "ref":
        ln = seq_len(I, st, v)
        r = rng_args(I, st, args[1], ln)
        if r is None:
            return None
        out = []
        for s, o in check_range(I, st, r[0], r[1], ln):
            if not o:
                seqpanic(I, s, "drain range")
                continue
            mid = slice_value(I, s, v, r[0], r[1])
            pre = slice_value(I, s, v, 0, r[0])
            post = slice_value(I, s, v, r[1], ln)
            wr(I, s, args[0], mkvec([mk("splice", (pre,)), mk("splice", (post,))], at0.e))
            out.append((s, seq_to_iter(I, s, mid, t.args[0] if t.args else None)))
        return out
    if name in ("index", "index_mut", "get", "get_mut", "get_unchecked"):
        ln = seq_len(I, st, v)
        idx = args[1]
        r = rng_args(I, st, idx, ln)
        src = args[0]
        out = []
        if r is None:
            if isinstance(idx, V) and idx.ty is not None and P.types[idx.ty].k != "int":
                return None
            et = t.args[0] if t.path in SEQS else t.e
            if name == "get" and I.in_loop(st):
                b = coll_bound(I, st, idx, ln)
                if b is not None:
                    st.emit(("iterend", b))
                    return [(st, none(I, dty))]
            for s, o in I.branch_bool(st, I.cmp(st, "Lt", idx, ln)):
                if not o:
                    if name.startswith("get"):
                        out.append((s, none(I, dty)))
                    else:
                        seqpanic(I, s, "index out of range")
                    continue
                rty = dty if not name.startswith("get") else opt_payload(I, dty)
                if isinstance(src, V) and src.k == "ref":
                    ref = mk("ref", (src.a[0], src.a[1] + (("at", idx, et),)), rty)
                else:
                    ref = mk("ref", (("o", src), (("at", idx, et),)), rty)
                out.append((s, ref if not name.startswith("get") else some(I, dty, ref)))
            return out
        for s, o in check_range(I, st, r[0], r[1], ln):
            if not o:
                if name == "get":
                    out.append((s, none(I, dty)))
                else:
                    seqpanic(I, s, "range out of bounds")
                continue
            rty = dty if not name.startswith("get") else opt_payload(I, dty)
            if isinstance(src, V) and src.k == "ref":
                ref = mk("ref", (src.a[0], src.a[1] + (("ss", r[0], r[1]),)), rty)
            else:
                ref = mk("ref", (("o", src), (("ss", r[0], r[1]),)), rty)
            out.append((s, ref if not name.startswith("get") else some(I, dty, ref)))
        return out
    if name in ("first", "last"):
        ln = seq_len(I, st, v)
        out = []
        et = t.args[0] if t.path in SEQS else t.e
        for s, e in I.branch_bool(st, I.cmp(st, "Eq", ln, 0)):
            if e:
                out.append((s, none(I, dty)))
            else:
                x = index_value(I, s, v, 0 if name == "first" else sub(ln, 1), et)
                out.append((s, some(I, dty, refto(I, s, x, opt_payload(I, dty)))))
        return out
    if name in ("copy_from_slice", "clone_from_slice"):
        b = rd(I, st, args[1])
        out = []
        for s, o in I.branch_bool(st, I.cmp(st, "Eq", seq_len(I, st, v), seq_len(I, st, b))):
            if not o:
                I.panic(s, I.stack[-1][0], I.stack[-1][1], "panic", "copy_from_slice length mismatch")
                continue
            tgt = args[0]
            loc, path = I.ptr_target(s, tgt)
            tv = I.read(s, loc, path)
            n = seq_len(I, s, tv)
            newv = b
            if isinstance(n, int) and isinstance(tv, V) and tv.k == "agg":
                newv = mk("agg", (0, tuple(index_value(I, s, b, j, I.u8_ty) for j in range(n))), tv.ty)
            I.write(s, loc, path, newv)
            out.append((s, I.unit))
        return out
    if name in ("to_vec", "to_owned", "to_vec_in"):
        return [(st, tovec(I, v, dty))]
    if name in ("to_string", "spec_to_string", "into"):
        if t.k == "str" or t.path == "std::string::String":
            return [(st, tovec(I, rdd(I, st, args[0]), dty))]
        return None
    if name == "split_at":
        out = []
        ln = seq_len(I, st, v)
        tt = P.types[dty]
        for s, o in I.branch_bool(st, I.cmp(st, "Le", args[1], ln)):
            if not o:
                I.panic(s, I.stack[-1][0], I.stack[-1][1], "panic", "split_at out of range")
                continue
            src = args[0]
            l0 = (src.a[0], src.a[1]) if src.k == "ref" else (("o", src), ())
            out.append((s, mk("agg", (0, (mk("ref", (l0[0], l0[1] + (("ss", 0, args[1]),)), tt.es[0]),
                                          mk("ref", (l0[0], l0[1] + (("ss", args[1], ln),)), tt.es[1]))), dty)))
        return out
    if name in ("split_first", "split_last"):
        return None
    if name in ("contains",) and t.k in ("slice", "array") or (name == "contains" and t.path == "std::vec::Vec"):
        x = rd(I, st, args[1])
        es = elems_of(v)
        if es is not None and not any(is_splice(e) for e in es):
            return [(st, I.bandor("or", [eq_terms(I, st, e, x) for e in es]) if es else 0)]
        return [(st, mk("call", ("contains", v, x), I.bool_ty))]
    if t.k == "str" and name in ("contains", "find", "starts_with", "ends_with", "rfind", "matches", "split"):
        x = rdd(I, st, args[1])
        if name in ("contains", "find", "starts_with", "ends_with"):
            if isinstance(v, V) and v.k == "vec" and len(v.a[0]) == 1 and is_splice(v.a[0][0]):
                v = v.a[0][0].a[0]
            if isinstance(x, V) and x.k == "agg" and x.ty is not None and P.types[x.ty].k == "array":
                if seq_len(I, st, v) == 0:
                    return [(st, 0)]
                # char set pattern: disjunction
                return [(st, I.bandor("or", [mk("call", ("str::" + name, v, c), I.bool_ty) for c in x.a[1]]))]
            if isinstance(x, V) and x.k == "bytes" and len(x.a[0]) == 1:
                x = x.a[0][0]
            if isinstance(x, V) and x.ty is not None and P.types[x.ty].k in ("closure", "fndef"):
                return None
            n = seq_len(I, st, v)
            if (n == 0 or isinstance(n, V) and st.cons.bounds(n) == (0, 0)) and not (isinstance(x, V) and elems_of(x) == []):
                return [(st, none(I, dty) if name == "find" else 0)]
            plen = len(x.a[0]) if isinstance(x, V) and x.k == "bytes" else 1 if isinstance(x, int) or isinstance(x, V) and x.k == "cint" else None
            if plen is not None and name != "contains":
                if name == "find":
                    out = []
                    for s, o in I.branch_bool(st, mk("call", ("str::contains", v, x), I.bool_ty)):
                        if not o:
                            out.append((s, none(I, dty)))
                            continue
                        p = mk("fpos", (v, x), I.usize_ty)
                        if s.cons.assume_le(add(sub(p, n), plen), 0):
                            out.append((s, some(I, dty, p)))
                    return out
                out = []
                for s, o in I.branch_bool(st, mk("call", ("str::" + name, v, x), dty)):
                    if not o or s.cons.assume_ge(n, plen):
                        out.append((s, 1 if o else 0))
                return out
            return [(st, mk("call", ("str::" + name, v, x), dty))]
        return None
    if name in ("starts_with", "ends_with") and t.k == "slice":
        return [(st, mk("call", ("slice::" + name, v, rd(I, st, args[1])), I.bool_ty))]
    if name == "concat" or name == "join":
        return None
    if name == "cmp" and "Ord" in callee.trait:
        return [(st, mk("call", ("ord", v, rd(I, st, args[1])), dty))]
    # --- mutating
    if at0.k == "ref" and at0.mut:
        vt = at0.e
        def cur(s):
            x = rd(I, s, args[0])
            return list(elems_of(x)) if elems_of(x) is not None else [mk("splice", (x,))]
        if name in ("push", "push_str", "try_push"):
            if name == "push":
                wr(I, st, args[0], mkvec(cur(st) + [args[1]], vt))
            else:
                wr(I, st, args[0], mkvec(cur(st) + [mk("splice", (rd(I, st, args[1]),))], vt))
            return [(st, I.unit)]
        if name in ("extend_from_slice", "try_extend_from_slice"):
            wr(I, st, args[0], mkvec(cur(st) + [mk("splice", (rd(I, st, args[1]),))], vt))
            if P.types[dty].k == "enum":
                return [(st, ok(I, dty, I.unit))]
            return [(st, I.unit)]
        if name == "append":
            o = rd(I, st, args[1])
            wr(I, st, args[0], mkvec(cur(st) + [mk("splice", (o,))], vt))
            wr(I, st, args[1], mk("vec", ((),), vt))
            return [(st, I.unit)]
        if name == "extend":
            itv = to_iter(I, st, args[1], argtys[1])
            if itv is None:
                # Option
                out = []
                for s, x in opt_split(I, st, args[1]):
                    if x is not None:
                        wr(I, s, args[0], mkvec(cur(s) + [x], vt))
                    out.append((s, I.unit))
                return out
            es = bulk(I, st, itv, P.types[P.types[vt].args[0]].k != "ref")
            if es is not None:
                wr(I, st, args[0], mkvec(cur(st) + es, vt))
                return [(st, I.unit)]
            out = []
            for s, items in drain_all(I, st, itv):
                es = []
                for x in items:
                    if isinstance(x, V) and x.k == "ref" and P.types[P.types[vt].args[0]].k != "ref":
                        x = rd(I, s, x)
                    es.append(x)
                wr(I, s, args[0], mkvec(cur(s) + es, vt))
                out.append((s, I.unit))
            return out
        if name == "pop":
            es = cur(st)
            if not es:
                return [(st, none(I, dty))]
            if not is_splice(es[-1]):
                x = es.pop()
                wr(I, st, args[0], mkvec(es, vt))
                return [(st, some(I, dty, x))]
            return None
        if name == "clear":
            wr(I, st, args[0], mk("vec", ((),), vt))
            return [(st, I.unit)]
        if name == "truncate":
            ln = seq_len(I, st, v)
            out = []
            for s, o in I.branch_bool(st, I.cmp(st, "Lt", args[1], ln)):
                if o:
                    wr(I, s, args[0], mkvec([mk("splice", (slice_value(I, s, v, 0, args[1]),))], vt))
                out.append((s, I.unit))
            return out
        if name == "insert":
            es = cur(st)
            i = st.cons.value(args[1])
            if isinstance(i, int) and i <= len(es) and not any(is_splice(e) for e in es[:i]):
                es.insert(i, args[2])
                wr(I, st, args[0], mkvec(es, vt))
                return [(st, I.unit)]
            return None
        if name == "remove":
            es = cur(st)
            i = st.cons.value(args[1])
            if isinstance(i, int) and i < len(es) and not any(is_splice(e) for e in es[:i + 1]):
                x = es.pop(i)
                wr(I, st, args[0], mkvec(es, vt))
                return [(st, x)]
            return None
        if name == "resize":
            n = st.cons.value(args[1])
            ln = seq_len(I, st, v)
            if v.k == "vec" and not v.a[0]:
                if isinstance(n, int) and n <= 64:
                    wr(I, st, args[0], mkvec([args[2]] * n, vt))
                else:
                    wr(I, st, args[0], mkvec([mk("splice", (mk("repn", (args[2], n), vt),))], vt))
                return [(st, I.unit)]
            out = []
            for s, less in I.branch_bool(st, I.cmp(st, "Lt", n, ln)):
                if less:
                    wr(I, s, args[0], mkvec([mk("splice", (slice_value(I, s, v, 0, n),))], vt))
                else:
                    d = s.cons.value(sub(n, ln))
                    tail = [args[2]] * d if isinstance(d, int) and d <= 64 else [mk("splice", (mk("repn", (args[2], d), vt),))]
                    wr(I, s, args[0], mkvec(cur(s) + tail, vt))
                out.append((s, I.unit))
            return out
        if name == "retain":
            es = cur(st)
            res = [(st, [])]
            if any(is_splice(e) for e in es):
                st.taint = st.taint + ("retain on symbolic vec",)
                nv = mk("call", ("retain", v, args[1]), vt)
                # run the predicate on one representative element
                et = t.args[0]
                x = mk("elem", (v, 0), et)
                out = []
                for s, r in I.call_value(st, args[1], [refto(I, st, x, ref_ty(I, et))]):
                    for s2, b in I.branch_bool(s, r):
                        s2.emit(("retain", v, x, b))
                        wr(I, s2, args[0], nv)
                        out.append((s2, I.unit))
                return out
            for e in es:
                nres = []
                for s, acc in res:
                    for s2, r in I.call_value(s, args[1], [refto(I, s, e, ref_ty(I, t.args[0]))]):
                        for s3, b in I.branch_bool(s2, r):
                            nres.append((s3, acc + [e] if b else acc))
                res = nres
            out = []
            for s, acc in res:
                wr(I, s, args[0], mkvec(acc, vt))
                out.append((s, I.unit))
            return out
        if name in ("reserve", "reserve_exact", "shrink_to_fit"):
            return [(st, I.unit)]
        if name == "reverse":
            es = cur(st)
            if not any(is_splice(e) for e in es):
                es.reverse()
                wr(I, st, args[0], mk("vec", (tuple(es),), vt))
                return [(st, I.unit)]
            return None
        if name == "swap":
            return None
        if name == "fill":
            return None
    if name == "to_owned":
        return [(st, tovec(I, v, dty))]
    return None


def retag(v, ty):
    if isinstance(v, V) and v.k == "ref":
        return mk("ref", v.a, ty)
    return v


def seq_to_iter(I, st, v, ety):
    es = elems_of(v)
    if es is not None and not any(is_splice(e) for e in es):
        return it(es)
    return sym_iter(I, st, v, ("seq",), ety)


def tovec(I, v, ty):
    if isinstance(v, V) and v.k in ("bytes", "agg", "rep"):
        return mk("vec", (tuple(elems_of(v)),), ty)
    if isinstance(v, V) and v.k == "sl":
        return mkvec([mk("splice", (v,))], ty)
    return v


def wholeseq(I, st, es):
    """S for the explicit elements S[0], .. S[n-1] of a sequence of length n, else None"""
    if es and all(isinstance(e, V) and e.k == "at" and e.a[1] == i and e.a[0] is es[0].a[0] for i, e in enumerate(es)) \
            and st.cons.value(sub(seq_len(I, st, es[0].a[0]), len(es))) == 0:
        return es[0].a[0]
    return None


def utf8_term(I, st, v):
    """the truth of "these bytes are UTF-8", the same term for the same bytes"""
    while isinstance(v, V):
        es = elems_of(v)
        w = wholeseq(I, st, es)
        if w is not None:
            v = w
            continue
        if es is not None and len(es) == 1 and is_splice(es[0]):
            v = es[0].a[0]
        elif v.k == "sl" and v.a[1] == 0 and st.cons.value(sub(seq_len(I, st, v.a[0]), v.a[2])) == 0:
            v = v.a[0]
        else:
            break
    return mk("call", ("utf8", v), I.bool_ty)


# ---------------------------------------------------------------- iterators
def iter_call(I, st, callee, name, args, argtys, dty, t):
    if name == "empty" and not args and "::iter::" in callee.path:
        return [(st, it(()))]
    if not args:
        return None
    if name == "once" and len(args) == 1 and "::iter::" in callee.path:
        return [(st, it((args[0],)))]
    if name in ("into_iter", "iter") and len(args) == 1 and argtys:
        ot = I.P.types[argtys[0]]
        ot = I.P.types[ot.e] if ot.k == "ref" else ot
        if ot.k == "enum" and ot.path.endswith("Option"):
            return to_iters(I, st, args[0], argtys[0])
    a0 = args[0]
    at0 = I.P.types[argtys[0]] if argtys else None
    cur = a0
    byref = False
    if at0 is not None and at0.k == "ref" and at0.mut:
        cur = rd(I, st, a0)
        byref = True
    isit = isinstance(cur, V) and cur.k in ("it", "its", "itm", "itc")
    tr = callee.trait
    if not isit:
        # Range<usize> etc.
        if isinstance(cur, V) and cur.k == "agg" and cur.ty is not None and I.P.types[cur.ty].path.endswith("ops::Range") \
                and ("Iterator" in tr or "Iterator" in callee.path or "iter" in callee.path):
            if name == "into_iter":
                return [(st, cur)]
            if name == "next" and byref:
                out = []
                lo, hi = cur.a[1]
                b = coll_bound(I, st, lo, hi)
                if b is not None:
                    st.emit(("iterend", b))
                    wr(I, st, a0, mk("agg", (0, (0, 0)), cur.ty))
                    return [(st, none(I, dty))]
                for s, o in I.branch_bool(st, I.cmp(st, "Lt", lo, hi)):
                    if o:
                        wr(I, s, a0, mk("agg", (0, (add(lo, 1), hi)), cur.ty))
                        out.append((s, some(I, dty, lo)))
                    else:
                        out.append((s, none(I, dty)))
                return out
            lo, hi = st.cons.value(cur.a[1][0]), st.cons.value(cur.a[1][1])
            if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 300:
                cur = it(range(lo, hi))
                isit = True
            else:
                b = len_base(I, st, hi)
                if lo != 0 or b is None:
                    return None
                cur = sym_iter(I, st, b, ("idx",), None)
                isit = True
        elif name == "into_iter" and at0 is not None:
            if at0.k == "ref" or at0.path in SEQS or at0.k in ("array", "slice") or at0.path in SETS or at0.path in MAPS:
                r = to_iter(I, st, a0, argtys[0])
                if r is not None:
                    return [(st, r)]
            return None
        else:
            return None
    if name in ("into_iter", "by_ref", "fuse", "peekable"):
        if name == "peekable":
            return None
        return [(st, a0 if name == "by_ref" else cur)]
    if name == "next":
        out = []
        for s, x, n in iter_next(I, st, cur):
            if byref:
                wr(I, s, a0, n)
            out.append((s, none(I, dty) if x is None else some(I, dty, tupfix(I, x, opt_payload(I, dty)))))
        return out
    if name in ("map", "filter", "filter_map", "take_while", "inspect"):
        return [(st, mk("itm", (cur, args[1], name)))]
    if name in ("cloned", "copied"):
        return [(st, mk("itm", (cur, 0, "deref")))]
    if name == "enumerate":
        return [(st, mk("itm", (cur, 0, "enum")))]
    if name == "chain":
        out = []
        for s, o in to_iters(I, st, args[1], argtys[1]):
            if o is None:
                return None
            out.append((s, mk("itc", ((cur, o),))))
        return out
    if name in ("rev", "skip", "take", "step_by", "zip"):
        if cur.k == "it":
            items = list(cur.a[0])
            if name == "rev":
                return [(st, it(items[::-1]))]
            n = st.cons.value(args[1])
            if isinstance(n, int):
                if name == "skip":
                    return [(st, it(items[n:]))]
                if name == "take":
                    return [(st, it(items[:n]))]
                if name == "step_by":
                    return [(st, it(items[::n]))]
        if name == "rev" and cur.k == "its":
            return [(st, mk("its", (mk("rev", (cur.a[0],), cur.a[0].ty), ) + cur.a[1:]))] if False else None
        if name in ("take", "skip"):
            n = st.cons.value(args[1])
            if isinstance(n, int) and n <= 64:
                return [(st, mk("itm", (cur, n, "taken" if name == "take" else "skipped")))]
        if name == "zip":
            out = []
            for s, o in to_iters(I, st, args[1], argtys[1]):
                if not isinstance(o, V) or o.k not in ("it", "its", "itm", "itc"):
                    return None
                out.append((s, mk("itm", (cur, o, "zipped"))))
            return out
        return None
    if name in ("next_back",):
        if cur.k == "it":
            if not cur.a[0]:
                return [(st, none(I, dty))]
            x = cur.a[0][-1]
            wr(I, st, a0, it(cur.a[0][:-1]))
            return [(st, some(I, dty, x))]
        return None
    if name in ("for_each",):
        out = []
        work = [(st, cur)]
        while work:
            s, v = work.pop()
            for s2, x, n in iter_next(I, s, v):
                if x is None:
                    out.append((s2, I.unit))
                else:
                    for s3, _ in I.call_value(s2, args[1], [x]):
                        work.append((s3, n))
        return out
    if name in ("any", "all", "find", "position", "find_map"):
        out = []
        work = [(st, cur, 0)]
        while work:
            s, v, i = work.pop()
            for s2, x, n in iter_next(I, s, v):
                if x is None:
                    if byref:
                        wr(I, s2, a0, n)
                    out.append((s2, {"any": 0, "all": 1}.get(name, none(I, dty) if name in ("find", "position", "find_map") else 0)))
                    continue
                arg = refto(I, s2, x, None) if name == "find" else x
                for s3, r in I.call_value(s2, args[1], [arg]):
                    if name == "find_map":
                        for s4, y in opt_split(I, s3, r):
                            if y is not None:
                                out.append((s4, some(I, dty, y)))
                            else:
                                work.append((s4, n, i + 1))
                        continue
                    for s4, b in I.branch_bool(s3, r):
                        hit = b if name != "all" else 1 - b
                        if hit:
                            if byref:
                                wr(I, s4, a0, n)
                            if name == "any":
                                out.append((s4, 1))
                            elif name == "all":
                                out.append((s4, 0))
                            elif name == "find":
                                out.append((s4, some(I, dty, x)))
                            else:
                                out.append((s4, some(I, dty, i)))
                        else:
                            work.append((s4, n, i + 1))
        return out
    if name in ("sum", "count", "fold", "last", "max", "min", "product", "max_by_key", "min_by_key"):
        out = []
        for s, items in drain_all(I, st, cur):
            if name == "count":
                out.append((s, len(items)))
            elif name == "sum":
                r = 0
                for x in items:
                    r = add(r, rdd(I, s, x) if isinstance(x, V) and x.k == "ref" else x)
                out.append((s, r))
            elif name == "last":
                out.append((s, some(I, dty, items[-1]) if items else none(I, dty)))
            elif name == "fold":
                work = [(s, args[1], 0)]
                while work:
                    s1, acc, i = work.pop()
                    if i == len(items):
                        out.append((s1, acc))
                        continue
                    for s2, r in I.call_value(s1, args[2], [acc, items[i]]):
                        work.append((s2, r, i + 1))
            else:
                return None
        return out
    if name == "collect":
        dt = I.P.types[dty]
        if cur.k == "its" and cur.a[2] == 0 and cur.a[1] in (("seq",),):
            return [(st, cur.a[0])]
        if cur.k == "itm" and cur.a[2] == "deref" and cur.a[0].k == "its" and cur.a[0].a[2] == 0 and dt.path == "std::vec::Vec" \
                and cur.a[0].a[1] == ("seqref",):
            return [(st, cur.a[0].a[0])]
        if dt.path in ("std::vec::Vec", "std::boxed::Box") and cur.k in ("itm", "itc"):
            es = bulk(I, st, cur, False)
            if es is not None:
                return [(st, mkvec(es, dty))]
        out = []
        if dt.path in SETS:
            src = cur.a[0] if cur.k == "itm" and cur.a[2] == "deref" else cur
            if src.k == "its" and src.a[2] == 0 and src.a[1] in ("key", "ref"):
                b = src.a[0]
                return [(st, b if b.k == "set" else mk("set", (b, ()), dty))]
            for s, items in drain_all(I, st, cur):
                out.append((s, mk("set", (EMPTY, tuple(("+", x) for x in items)), dty)))
            return out
        if dt.path == "std::vec::Vec" or dt.path == "std::boxed::Box":
            for s, items in drain_all(I, st, cur):
                out.append((s, mkvec(items, dty)))
            return out
        if dt.path.endswith("Result") or dt.path.endswith("Option"):
            good = "Ok" if dt.path.endswith("Result") else "Some"
            for s, items in drain_all(I, st, cur):
                work = [(s, 0, ())]
                gi = dt.variant_index(good)
                inner = dt.vs[gi][2][0][1]
                while work:
                    s1, i, acc = work.pop()
                    if i == len(items):
                        out.append((s1, mk("agg", (gi, (mkvec(list(acc), inner),)), dty)))
                        continue
                    x = items[i]
                    xt = I.P.types[x.ty]
                    xgi = xt.variant_index(good)
                    d = I.discriminant(s1, x, x.ty)
                    s2 = s1.fork()
                    if s1.cons.assume_eq(d, xt.vs[xgi][1]):
                        work.append((s1, i + 1, acc + (I.project(s1, I.project(s1, x, ("v", xgi)), ("f", 0, xt.vs[xgi][2][0][1])),)))
                    bi = 1 - xgi
                    if s2.cons.assume_eq(d, xt.vs[bi][1]):
                        if good == "Ok":
                            e = I.project(s2, I.project(s2, x, ("v", bi)), ("f", 0, xt.vs[bi][2][0][1]))
                            out.append((s2, mk("agg", (1 - gi, (e,)), dty)))
                        else:
                            out.append((s2, none(I, dty)))
            return out
        return None
    if name in ("size_hint", "len"):
        if cur.k == "it" and name == "len":
            return [(st, len(cur.a[0]))]
        return None
    return None


def tupfix(I, x, ty):
    if isinstance(x, V) and x.k == "agg" and x.ty is None:
        return mk("agg", x.a, ty)
    return x


# --------------------------------------------------------------------- misc
def misc_call(I, st, callee, name, args, argtys, dty, t):
    path = callee.path
    if name == "box_assume_init_into_vec_unsafe":
        v = rd(I, st, args[0])
        return [(st, tovec(I, v, dty))]
    if name == "from_utf8" and "str" in path:
        v = rd(I, st, args[0])
        if isinstance(v, V) and v.k == "bytes":
            try:
                v.a[0].decode()
                return [(st, ok(I, dty, retag(args[0], None)))]
            except UnicodeDecodeError:
                pass
        c = utf8_term(I, st, v)
        out = []
        td = I.P.types[dty]
        for s, b in I.branch_bool(st, c):
            if b:
                pt = td.vs[td.variant_index("Ok")][2][0][1]
                a = args[0]
                out.append((s, ok(I, dty, mk("ref", a.a, pt) if a.k == "ref" else mk("ref", (("o", a), ()), pt))))
            else:
                out.append((s, err(I, dty, s.fresh("utf8err", td.vs[td.variant_index("Err")][2][0][1]))))
        return out
    if name in ("from_utf8_unchecked",):
        a = args[0]
        if I.P.types[argtys[0]].k == "ref":
            v = rd(I, st, a)
            st.emit(("utf8_unchecked", v))
            return [(st, mk("ref", a.a, dty) if isinstance(a, V) and a.k == "ref" else a)]
        st.emit(("utf8_unchecked", a))
        return [(st, a)]
    if name == "new" and path.startswith("std::io::IoSlice"):
        return [(st, args[0])]
    if name == "deref" and "IoSlice" in path:
        return [(st, rd(I, st, args[0]))]
    if name in ("as_ref", "borrow") and len(args) == 1 and I.P.types[argtys[0]].k == "ref" and not callee.body:
        return [(st, args[0])]
    if name == "swap" and path.startswith(("std::mem", "core::mem")):
        a, b = rd(I, st, args[0]), rd(I, st, args[1])
        wr(I, st, args[0], b)
        wr(I, st, args[1], a)
        return [(st, I.unit)]
    if name == "replace" and path.startswith(("std::mem", "core::mem")):
        a = rd(I, st, args[0])
        wr(I, st, args[0], args[1])
        return [(st, a)]
    if name == "take" and path.startswith(("std::mem", "core::mem")):
        a = rd(I, st, args[0])
        tt = I.P.types[dty]
        if tt.path in SETS:
            nv = mk("oset", ((),), dty) if I.osets and tt.path.endswith("BTreeSet") else mk("set", (EMPTY, ()), dty)
        elif tt.path in MAPS:
            nv = mk("omap", ((),), dty) if I.omaps else mk("map", (EMPTY, ()), dty)
        elif tt.path in ("std::vec::Vec", "std::string::String"):
            nv = mk("vec", ((),), dty)
        elif tt.k == "int":
            nv = 0
        elif tt.k == "bool":
            nv = 0
        elif tt.path.endswith("option::Option"):
            nv = none(I, dty)
        else:
            return None
        wr(I, st, args[0], nv)
        return [(st, a)]
    if name in ("drop", "forget") and path.startswith(("std::mem", "core::mem")):
        return [(st, I.unit)]
    if name == "size_of" and path.startswith(("std::mem", "core::mem")):
        return intrinsic(I, st, callee, name, args, argtys, dty)
    if name == "precondition_check":
        return [(st, I.unit)]
    return None


import ordmap  # noqa: E402  (uses this module)
