"""Rule `codec` (C02, C03, C04, C18): the packet codec, layer by layer.

 L0  VariableByteInteger and the one-byte enums (reason codes, QoS, ...) against the specification
 L1  Property values, one kind at a time, over a symbolic input
 L2  the property list (parse / size / serialisation) by an arbitrary-element step
 L3  the 29 packet kinds: every path of parse() over a symbolic body, every path of the builder over
     symbolic field values; the layers below enter as contracts
"""
from interp import Interp, State, Budget, Abort
from findings import RuleResult
from framing import Undec, feasible
import terms
from terms import V, mk, add, sub, scale, show
import models as M

VBIMAX = 268435455


class Base:
    """engine instance with the codec contracts; byte-sequence normal form and comparison"""

    def __init__(self, P, R, props_opaque=True):
        self.P, self.R = P, R
        self.I = I = Interp(P, prim=self.prim)
        I.exact_iter = True
        I.eq_hook = lambda st, a, b: (M.elems_of(a) is not None or M.elems_of(b) is not None) and self.eqbytes(st, a, b) is None
        self.usz, self.u8 = I.usize_ty, I.u8_ty
        self.slty = next(t.id for t in P.types if t.k == "slice" and P.types[t.e].s == "u8")
        self.refsl = next(t.id for t in P.types if t.k == "ref" and t.e == self.slty and not t.mut)
        self.u32 = next(t.id for t in P.types if t.s == "u32")
        self.u16 = next(t.id for t in P.types if t.s == "u16")
        self.strt = next(t.id for t in P.types if t.k == "str")
        self.refstr = next(t.id for t in P.types if t.k == "ref" and t.e == self.strt and not t.mut)
        self.vecu8 = self.vec_ty("u8")
        v = [t for t in P.types if t.path.endswith("::VariableByteInteger")]
        pr = [t for t in P.types if t.path.endswith("::property::Property") or t.path.endswith("::Property") and t.k == "enum"]
        if not v or not pr:
            raise LookupError("VariableByteInteger / Property")
        self.vbity, self.propty = v[0].id, pr[0].id
        self.propsty = self.vec_ty(pr[0].s)
        self.propsref = next((t.id for t in P.types if t.k == "ref" and t.e == self.propsty and not t.mut), None)
        I.length_hook = self.length
        I.disc_hook = self.disc
        self.opaque_props = props_opaque
        self.vfn = {}

    def vec_ty(self, elem):
        for t in self.P.types:
            if t.path == "std::vec::Vec" and t.args and self.P.types[t.args[0]].s == elem:
                return t.id
        raise LookupError("Vec<%s>" % elem)

    # ------------------------------------------------------------ contract terms
    def vbi(self, n):
        return mk("vbi", (n,), self.vbity)

    def vbilen(self, st, n):
        n = st.cons.value(n)
        if isinstance(n, int):
            return 1 + (n > 127) + (n > 16383) + (n > 2097151)
        return mk("vbilen", (n,), self.usz)

    def vbibytes(self, st, n):
        n = st.cons.value(n)
        if isinstance(n, int):
            out = []
            while True:
                n, b = divmod(n, 128)
                out.append(b | (128 if n else 0))
                if not n:
                    return mk("bytes", (bytes(out),), self.slty)
        return mk("vbib", (n,), self.slty)

    def length(self, st, v):
        if v.k == "vbib":
            return self.vbilen(st, v.a[0])
        if v.k == "propb":
            return self.psize(st, v.a[0])
        return None

    def psize(self, st, p):
        if p.k == "props" and p.a[0] == "at":
            return mk("vbiat", p.a[1:], self.u32)
        return mk("psize", (p,), self.u32)

    def disc(self, st, v):
        if isinstance(v, V) and v.k == "efrom":
            return v.a[0]
        return None

    # ------------------------------------------------------------ resolved view of a byte position
    def head(self, st, v, depth=0):
        """what stands at the beginning of a byte sequence: ('W', base, offset, end) / ('vbi', n, rest) / ('bytes', ..) / ('elem', e)"""
        for _ in range(12):
            if v.k == "sl":
                b, a = v.a[0], v.a[1]
                es = M.elems_of(b)
                if es is None:
                    if b.k in ("vbib", "propb") and st.cons.value(a) == 0:
                        v = b
                        continue
                    return ("W", b, st.cons.value(a), v.a[2])
                return None
            es = M.elems_of(v)
            if es is None:
                if v.k == "vbib":
                    return ("vbi", v.a[0])
                if v.k == "propb":
                    return ("props", v.a[0])
                return ("W", v, 0, M.seq_len(self.I, st, v))
            es = self.lead(st, es)
            if not es:
                return ("end",)
            if M.is_splice(es[0]):
                v = es[0].a[0]
                continue
            return ("elem", es[0])
        return None

    def lead(self, st, es):
        """the elements without the leading runs that are provably empty"""
        i = 0
        while i < len(es) and M.is_splice(es[i]) and self.same(st, M.seq_len(self.I, st, es[i].a[0]), 0):
            i += 1
        return es[i:]

    # ------------------------------------------------------------ primitives
    def prim(self, I, st, callee, args, argtys, dty):
        P = I.P
        n = callee.name
        if callee.local:
            sty = P.types[callee.self_ty] if callee.self_ty is not None else None
            if sty is not None and sty.id == self.vbity:
                return self.vbi_call(I, st, n, callee, args, argtys, dty)
            if sty is not None and sty.id == self.propsty and n in ("parse", "size", "to_continuous_buffer", "to_buffers"):
                return self.props_call(I, st, n, callee, args, argtys, dty)
            if self.opaque_props and argtys and callee.sig:
                r = self.validator(I, st, callee, args, argtys, dty)
                if r is not None:
                    return r
            if n == "try_from" and len(args) == 1 and sty is not None and sty.k == "enum" and argtys[0] == self.u8:
                return self.enum_try_from(I, st, sty, args[0], dty)
            if n == "from" and callee.sig and callee.sig[0] == [self.vbity]:
                v = args[0]
                if v.k == "vbi":
                    return [(st, v.a[0])]
        else:
            sty = callee.self_ty
            if sty is None and callee.args and isinstance(callee.args[0], int) and callee.trait:
                sty = callee.args[0]
            if n in ("is_empty", "len") and argtys:
                v = M.rdd(I, st, args[0])
                if isinstance(v, V) and v.k == "props":
                    if n == "is_empty":
                        return [(st, I.cmp(st, "Eq", self.psize(st, v), 0))]
                    return None
            if n == "from_utf8_unchecked" and P.types[argtys[0]].k == "ref":
                v = M.rdd(I, st, args[0])
                ok = self.is_str(st, v) or st.cons.value(M.utf8_term(I, st, v)) == 1 or self.same(st, M.seq_len(I, st, v), 0)
                self.R.obligations += 1
                if not ok and isinstance(v, V) and v.k == "bytes":
                    try:
                        v.a[0].decode()
                        ok = True
                    except UnicodeDecodeError:
                        pass
                if not ok and feasible(st.cons):
                    self.R.bad("C04", "bytes that were not validated are taken for UTF-8 (from_utf8_unchecked)", show(v)[:300], self.path(st, 30))
                return None
            if n == "from_utf8" and "str" in callee.path:
                v = M.rd(I, st, args[0])
                if self.is_str(st, v):
                    pt = P.types[dty].vs[P.types[dty].variant_index("Ok")][2][0][1]
                    a = args[0]
                    return [(st, M.ok(I, dty, mk("ref", a.a, pt) if a.k == "ref" else mk("ref", (("o", a), ()), pt)))]
        return None

    def is_str(self, st, v):
        """the sequence is a whole &str (or empty)"""
        if isinstance(v, V) and v.k == "sl" and v.a[1] == 0 and self.same(st, M.seq_len(self.I, st, v.a[0]), v.a[2]):
            v = v.a[0]
        if isinstance(v, V) and v.ty == self.strt and v.k == "arg":
            return True
        es = M.elems_of(v)
        w = M.wholeseq(self.I, st, es)
        if w is not None:
            return self.is_str(st, w)
        return es is not None and (not es or len(es) == 1 and M.is_splice(es[0]) and self.is_str(st, es[0].a[0]))

    def vbi_call(self, I, st, n, callee, args, argtys, dty):
        a = [M.rdd(I, st, x) for x in args]
        if n == "from_u32" or n == "try_from" and argtys[0] == self.u32:
            mkok, mkno = (lambda v: M.some(I, dty, v), lambda: M.none(I, dty)) if n == "from_u32" else (lambda v: M.ok(I, dty, v), lambda: M.err(I, dty, mk("arg", ("vbierr",), None)))
            return [(s, mkok(self.vbi(a[0])) if o else mkno()) for s, o in I.branch_bool(st, I.cmp(st, "Le", a[0], VBIMAX))]
        if n == "decode_stream":
            return self.vbi_decode(I, st, a[0], dty)
        if a and isinstance(a[0], V) and a[0].k == "vbi":
            x = a[0].a[0]
            if n == "to_u32":
                return [(st, x)]
            if n == "size":
                return [(st, self.vbilen(st, x))]
            if n == "as_bytes":
                return [(st, M.refto(I, st, self.vbibytes(st, x), dty))]
            if n == "to_continuous_buffer":
                return [(st, M.mkvec([mk("splice", (self.vbibytes(st, x),))], dty))]
            if n == "to_buffers":
                return [(st, mk("vec", ((M.refto(I, st, self.vbibytes(st, x), self.refsl),), ), dty))]
            if n in ("eq", "ne") and a[1].k == "vbi":
                return [(st, I.cmp(st, "Eq" if n == "eq" else "Ne", x, a[1].a[0]))]
        return None

    def decres(self, dty, kind, *xs):
        t = self.P.types[dty]
        return mk("agg", (t.variant_index(kind), tuple(xs)), dty)

    def vbi_decode(self, I, st, v, dty):
        """contract of decode_stream (established at L0): Ok(n, k) iff the input starts with the minimal k-byte encoding of n"""
        h = self.head(st, v)
        if h is None:
            raise Undec("variable byte integer at an unresolved position of " + show(v))
        errv = lambda: self.decres(dty, "Err", mk("arg", ("vbi malformed",), None))
        if h[0] == "vbi":
            return [(st, self.decres(dty, "Ok", self.vbi(h[1]), self.vbilen(st, h[1])))]
        if h[0] == "end":
            return [(st, self.decres(dty, "Incomplete"))]
        if h[0] == "elem":
            val, sh = 0, 0
            for i, e in enumerate(self.lead(st, M.elems_of(v))[:4]):
                e = st.cons.value(e) if not isinstance(e, int) else e
                if not isinstance(e, int):
                    break
                val += (e & 127) << sh
                sh += 7
                if e < 128:
                    if e == 0 and i:
                        return [(st, errv())]
                    return [(st, self.decres(dty, "Ok", self.vbi(val), i + 1))]
            else:
                return [(st, self.decres(dty, "Incomplete") if i < 3 else errv())]
            raise Undec("variable byte integer over " + show(v))
        if h[0] != "W":
            raise Undec("variable byte integer over " + show(v))
        base, a, end = h[1:]
        key = (base, a)
        k = mk("vbist", key, self.u8)
        n, ln = mk("vbiat", key, self.u32), None
        out = []
        for st_, kind in ((0, "Ok"), (1, "Incomplete"), (2, "Err")):
            s = st.fork()
            c = s.cons
            if not c.assume_eq(k, st_):
                continue
            if kind == "Ok":
                if not (c.assume_le(n, VBIMAX)):
                    continue
                ln = self.vbilen(s, n)
                if not c.assume_le(sub(add(a, ln), end), 0):
                    continue
                out.append((s, self.decres(dty, "Ok", self.vbi(n), ln)))
            elif kind == "Incomplete":
                if c.assume_le(sub(sub(end, a), 4), -1):
                    out.append((s, self.decres(dty, "Incomplete")))
            else:
                if c.assume_le(sub(a, end), -1):
                    out.append((s, errv()))
        return out

    def props_call(self, I, st, n, callee, args, argtys, dty):
        v = M.rdd(I, st, args[0])
        if n != "parse":
            if not (isinstance(v, V) and v.k == "props"):
                return None
            if n == "size":
                return [(st, self.psize(st, v))]
            b = mk("propb", (v,), self.vecu8)
            if n == "to_continuous_buffer":
                return [(st, M.mkvec([mk("splice", (b,))], dty))]
            return [(st, mk("vec", ((M.refto(I, st, b, self.refsl),),), dty))]
        h = self.head(st, v)
        if h is None:
            raise Undec("property list at an unresolved position of " + show(v))
        if h[0] == "vbi":
            es = M.elems_of(v)
            es = es and self.lead(st, es)
            if es is None or len(es) < 2 or not M.is_splice(es[1]):
                raise Undec("property list over " + show(v))
            pb = es[1].a[0]
            if pb.k == "propb" and self.same(st, self.psize(st, pb.a[0]), h[1]):
                return [(st, M.ok(I, dty, mk("agg", (0, (pb.a[0], add(self.vbilen(st, h[1]), h[1]))), self.res_ok(dty))))]
            raise Undec("property list over " + show(v))
        if h[0] == "elem":
            return None
        if h[0] == "end":
            return [(st, M.err(I, dty, self.mqtterr(dty, "props", v)))]
        base, a, end = h[1:]
        key = (base, a)
        k = mk("propst", key, self.u8)
        nn = mk("vbiat", key, self.u32)
        out = []
        s = st.fork()
        c = s.cons
        if c.assume_eq(k, 0) and c.assume_le(nn, VBIMAX) and c.assume_eq(mk("vbist", key, self.u8), 0):
            used = add(self.vbilen(s, nn), nn)
            if c.assume_le(sub(add(a, used), end), 0):
                out.append((s, M.ok(I, dty, mk("agg", (0, (mk("props", ("at",) + key, self.propsty), used)), self.res_ok(dty)))))
        s = st.fork()
        if s.cons.assume_eq(k, 1):
            out.append((s, M.err(I, dty, self.mqtterr(dty, "props", v))))
        return out

    def res_ok(self, dty):
        t = self.P.types[dty]
        return t.vs[t.variant_index("Ok")][2][0][1]

    def res_err(self, dty):
        t = self.P.types[dty]
        return t.vs[t.variant_index("Err")][2][0][1]

    def mqtterr(self, dty, *why):
        return mk("oerr", why, self.res_err(dty))

    def validator(self, I, st, callee, args, argtys, dty):
        """a function from one (opaque) property list to Result<T, error>: the outcome is a function of the list"""
        t = self.P.types[dty]
        if not args or len(args) != len(argtys) or not t.path.endswith("result::Result"):
            return None
        v, more = None, []
        for a, ty in zip(args, argtys):
            x = a
            if self.P.types[ty].k == "ref":
                x = M.rdd(I, st, a)
                if v is None and isinstance(x, V) and x.k == "agg" and x.ty is not None and self.P.types[x.ty].k == "enum" and self.variant(x) == "Some":
                    x = M.rdd(I, st, x.a[1][0])
                if v is None and isinstance(x, V) and x.k == "props":
                    v = x
                    continue
            more.append(x)
        if v is None:
            return None
        okt = self.res_ok(dty)
        if more:
            # with further arguments: only an enumerated (optional) one, e.g. the reason code
            if okt != I.unit_ty or not all(self.P.types[ty].k in ("enum", "ref") for ty in argtys):
                return None
            for x in more:
                while isinstance(x, V) and x.k == "agg" and len(x.a[1]) == 1:
                    x = x.a[1][0]
                if isinstance(x, V) and x.k == "agg" and x.a[1]:
                    return None
        self.vfn[callee.path] = callee
        ot = self.P.types[okt]
        out = []
        for s, o in I.branch_bool(st, mk("valid", (v, *more), I.bool_ty)):
            if not o:
                out.append((s, M.err(I, dty, self.mqtterr(dty, "valid", callee.path))))
            elif okt == I.unit_ty:
                out.append((s, M.ok(I, dty, I.unit)))
            elif ot.k == "enum" and all(not x[2] for x in ot.vs):
                # the payload (e.g. "with / without topic alias") is a function of the list too
                d = mk("vres", (v,), self.u8)
                for i in range(len(ot.vs)):
                    s2 = s.fork()
                    if s2.cons.assume_eq(d, i):
                        out.append((s2, M.ok(I, dty, mk("agg", (i, ()), okt))))
            else:
                raise Undec("validator result type " + ot.s)
        return out

    def enum_try_from(self, I, st, ety, b, dty):
        """TryFrom<u8> of a field-less enum (checked at L0): Ok iff the byte is the discriminant of a variant"""
        if any(v[2] for v in ety.vs):
            return None
        if isinstance(b, V) and b.k == "disc" and b.a[0].ty == ety.id:
            return [(st, M.ok(I, dty, b.a[0]))]
        vals = {v[1]: i for i, v in enumerate(ety.vs)}
        b = st.cons.value(b)
        if isinstance(b, int):
            if b in vals:
                return [(st, M.ok(I, dty, mk("agg", (vals[b], ()), ety.id)))]
            return [(st, M.err(I, dty, self.mqtterr(dty, "enum")))]
        out = []
        lo, hi = st.cons.bounds(b)
        if lo >= 0 and hi <= 3:
            # a two-bit field: one path per value
            for i in range(lo, hi + 1):
                s = st.fork()
                if s.cons.assume_eq(b, i) and self.recheck(s):
                    out.append((s, M.ok(I, dty, mk("agg", (vals[i], ()), ety.id)) if i in vals else M.err(I, dty, self.mqtterr(dty, "enum"))))
            return out
        for s, o in I.branch_bool(st, mk("inenum", (ety.id, b), I.bool_ty)):
            if o:
                if s.cons.assume_ge(b, min(vals)) and s.cons.assume_le(b, max(vals)):
                    out.append((s, M.ok(I, dty, mk("efrom", (b,), ety.id))))
            else:
                out.append((s, M.err(I, dty, self.mqtterr(dty, "enum"))))
        return out

    def recheck(self, st):
        """constraints on a byte and on compositions of its bits have a common solution (bytes with at most three unknown bits)"""
        ev = lambda x: st.cons.value(x) if isinstance(x, V) else x
        groups = {}
        parts = {}
        for it, v in st.cons.d.items():
            if len(it) == 1 and it[0][0].k == "byte" and it[0][1] == 1 and v[0] == v[1]:
                t = it[0][0]
                parts.setdefault(t.a[0], {})[t.a[1]] = v[0]
        for x, bs in parts.items():
            w = {"u16": 2, "u32": 4, "u64": 8}.get(self.P.types[x.ty].s) if isinstance(x, V) and x.ty is not None else None
            if w and len(bs) == w:
                v = st.cons.d.get(((x, 1),))
                n = sum(b << 8 * i for i, b in bs.items())
                if v is not None and (n in v[2] or not v[0] <= n <= v[1]):
                    return False
        for it, v in st.cons.d.items():
            if len(it) != 1 or it[0][1] != 1:
                continue
            t = it[0][0]
            if t.k == "byte":
                x = ev(t.a[0])
                if isinstance(x, int):
                    n = x >> 8 * t.a[1] & 255
                    if n in v[2] or not v[0] <= n <= v[1]:
                        return False
                continue
            if t.k == "at" and v[2]:
                bs = self.I.tobits(st, t, 8)
                src = t
            elif t.k == "bits":
                bs = t.a
                src = next((x.a[0] for x in bs if isinstance(x, V) and x.k == "bit"), None)
            else:
                continue
            bs = [ev(x) for x in bs]
            un = {x for x in bs if isinstance(x, V)}
            if len(un) <= 3:
                groups.setdefault(src, []).append((bs, v, un))
        for src, cs in groups.items():
            atoms = list(set().union(*(c[2] for c in cs)))
            if len(atoms) > 3 or not any(c[1][2] for c in cs):
                continue
            for m in range(1 << len(atoms)):
                val = {x: m >> i & 1 for i, x in enumerate(atoms)}
                for bs, (lo, hi, ex), _ in cs:
                    n = 0
                    for x in bs:
                        n = 2 * n + (val[x] if isinstance(x, V) else x)
                    if n in ex or not lo <= n <= hi:
                        break
                else:
                    break
            else:
                return False
        return True

    # ------------------------------------------------------------ comparison
    def same(self, st, a, b):
        if a is b or a == b:
            return True
        d = self.vbinorm(st, sub(a, b))
        lo, hi = st.cons.bounds(d) if isinstance(d, V) else (d, d)
        return lo == hi == 0

    def noprops(self, st, v):
        """a property list known to be empty"""
        if not isinstance(v, V):
            return False
        if v.k == "props":
            return st.cons.bounds(self.psize(st, v)) == (0, 0)
        es = M.elems_of(v)
        return es is not None and not es

    def vbinorm(self, st, d):
        """replace the encoded length of a variable byte integer whose value range fixes it"""
        if not isinstance(d, V):
            return d
        for t, c in (d.a[1] if d.k == "lin" else ((d, 1),)):
            if t.k == "vbilen":
                lo, hi = st.cons.bounds(t.a[0])
                a, b = (1 + (x > 127) + (x > 16383) + (x > 2097151) for x in (max(lo, 0), hi))
                if a == b:
                    d = add(sub(d, scale(t, c)), a * c)
        return d

    def segs(self, st, v):
        """normal form of a byte sequence: explicit elements / (base, from, to)"""
        out = []

        def put(x):
            if isinstance(x, tuple):
                if self.same(st, x[1], x[2]):
                    return
                if out and isinstance(out[-1], tuple) and out[-1][0] is x[0] and self.same(st, out[-1][2], x[1]):
                    out[-1] = (x[0], out[-1][1], x[2])
                    return
            out.append(x)

        def whole(b):
            """base term standing for a complete encoding -> position in its source, if it has one"""
            if b.k == "vbib":
                n = b.a[0]
                if n.k == "vbiat":
                    return n.a[0], n.a[1], add(n.a[1], self.vbilen(st, n))
            if b.k == "propb" and b.a[0].k == "props" and b.a[0].a[0] == "at":
                _, w, a = b.a[0].a
                n = mk("vbiat", (w, a), self.u32)
                ln = self.vbilen(st, n)
                return w, add(a, ln), add(add(a, ln), n)
            return None

        def go(v):
            if v.k == "sl" and M.elems_of(v.a[0]) is None:
                b = v.a[0]
                w = whole(b)
                if w is not None:
                    put((w[0], add(w[1], v.a[1]), add(w[1], v.a[2])))
                else:
                    put((b, v.a[1], v.a[2]))
                return
            if v.k == "repn":
                put((mk("zeros", (v.a[0],)), 0, v.a[1]))
                return
            es = M.elems_of(v)
            if es is None:
                w = whole(v)
                if v.k == "vbib" and isinstance(st.cons.value(v.a[0]), int):
                    go(self.vbibytes(st, v.a[0]))
                    return
                put(w if w is not None else (v, 0, M.seq_len(self.I, st, v)))
                return
            for e in es:
                if M.is_splice(e):
                    go(e.a[0])
                    continue
                e = self.byteval(st, e) if not (isinstance(e, V) and e.k == "at") else e
                if isinstance(e, V) and e.k == "at":
                    put((e.a[0], e.a[1], add(e.a[1], 1)))
                else:
                    put(e)
        go(v)
        return out

    def byteval(self, st, e):
        """the byte an element is: undo disc(efrom(b)), cint"""
        if isinstance(e, V):
            if e.k == "cint":
                return e.a[0]
            if e.k == "disc" and isinstance(e.a[0], V) and e.a[0].k == "efrom":
                return e.a[0].a[0]
            if e.k == "byte":
                return M.byte_of(self.I, st, e.a[0], e.a[1], 4)
            if e.k == "not" and isinstance(e.a[0], V) and e.a[0].k == "cmp" and e.a[0].a[0] == "eq0":
                x = self.onebit(st, e.a[0].a[1])         # x != 0 with x in 0..1
                lo, hi = st.cons.bounds(x)
                if lo >= 0 and hi <= 1:
                    return x
            if e.k == "at":
                return self.onebit(st, e)
            if e.k != "at":
                return st.cons.value(e)
        return e

    def onebit(self, st, e):
        """a byte whose upper seven bits are known to be zero is its lowest bit"""
        if isinstance(e, V) and e.k == "at":
            bs = [st.cons.value(x) if isinstance(x, V) else x for x in self.I.tobits(st, e, 8)]
            if all(isinstance(x, int) and x == 0 for x in bs[:7]):
                return bs[7]
        return e

    def eqbytes(self, st, a, b):
        A, B = self.segs(st, a), self.segs(st, b)
        i = j = 0
        while i < len(A) and j < len(B):
            x, y = A[i], B[j]
            if isinstance(x, tuple) and isinstance(y, tuple):
                if x[0] is not y[0] or not self.same(st, x[1], y[1]):
                    break
                if not self.same(st, x[2], y[2]):
                    break
                i, j = i + 1, j + 1
                continue
            if isinstance(x, tuple) or isinstance(y, tuple):
                # one explicit element against the first byte of a run
                t, e, L, k = (x, y, A, i) if isinstance(x, tuple) else (y, x, B, j)
                at = mk("at", (t[0], t[1]), self.u8)
                if not self.numeq(st, st.cons.value(at), e):
                    break
                rest = (t[0], add(t[1], 1), t[2])
                if self.same(st, rest[1], rest[2]):
                    i, j = i + 1, j + 1
                else:
                    L[k] = rest
                    if L is A:
                        j += 1
                    else:
                        i += 1
                continue
            if not self.numeq(st, x, y):
                break
            i, j = i + 1, j + 1
        else:
            if i == len(A) and j == len(B):
                return None
        f = lambda S: "[" + ", ".join(f"{show(x[0])}[{show(x[1])}..{show(x[2])}]" if isinstance(x, tuple) else show(x) for x in S) + "]"
        return f"{f(A)} / {f(B)}"

    def numeq(self, st, a, b):
        a, b = self.byteval(st, a), self.byteval(st, b)
        if a is b or a == b:
            return True
        lo, hi = st.cons.bounds(sub(a, b))
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
        e = self.I.expandbytes(st, sub(a, b))
        if e == 0 or isinstance(e, V) and st.cons.bounds(e) == (0, 0):
            return True
        if all(not isinstance(x, V) or x.k in ("at", "bits", "bit") for x in (a, b)):
            A, B = ([st.cons.value(t) if isinstance(t, V) else t for t in self.I.tobits(st, x, 8)] for x in (a, b))
            if all(x is y or x == y for x, y in zip(A, B)):
                return True
        return M.eq_terms(self.I, st, a, b) == 1 if isinstance(a, V) and isinstance(b, V) else False

    # ------------------------------------------------------------ running
    def run(self, st, f, args):
        """[(state, value)] normal ends; abnormal ones are returned too"""
        self.I.abnormal = []
        out = self.I.run_fn(st, f, args)
        ab, self.I.abnormal = self.I.abnormal, []
        for o in ab:
            if o.kind in ("abort", "loop"):
                raise Undec(str(o))
        for s, _ in out:
            if s.taint:
                raise Undec(f"{f.name}: {s.taint[0]}")
        return out, [o for o in ab if feasible(o.st.cons)]

    def path(self, s, n=12):
        out = []
        for it, v in s.cons.d.items():
            if len(out) >= n:
                out.append("...")
                break
            out.append(f"{show(mk('lin', (0, it)))} in [{v[0]},{v[1]}]" if not v[2] else f"{show(mk('lin', (0, it)))} not in {sorted(v[2])}")
        return "; ".join(out)
