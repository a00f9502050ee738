"""Layers 0-2 of rule `codec`: what the packet layer takes as contracts.

 vbi      VariableByteInteger: from_u32 / to_u32 / size / as_bytes / serialisation per length class, and
          decode_stream over 0-5 byte inputs with symbolic digits, against the specification's encoding
 enums    discriminants of every protocol enum by variant name, and try_from(u8) on all 256 bytes
 prop     the 27 property kinds over a symbolic input and through new()
 props    the property list with Property::parse as a contract
"""
import re
from codec import Base, VBIMAX
from pktcodec import Pkt
from interp import State, Budget, Abort
from framing import Undec, feasible
from terms import V, mk, add, sub, scale, show
import terms
import models as M


class Low(Pkt):
    """the engine with the real VariableByteInteger and Property code"""

    mode = "vbi"

    def prim(self, I, st, callee, args, argtys, dty):
        if callee.local:
            if self.mode == "vbi":
                return None
            if self.mode in ("prop", "props") and callee.self_ty == self.propsty:
                return None
            if self.mode == "props" and callee.self_ty == self.propty:
                r = self.prop_contract(I, st, callee, args, argtys, dty)
                if r is not None:
                    return r
        return super().prim(I, st, callee, args, argtys, dty)

    def meth(self, ty, name, nargs=None, trait=""):
        fs = [f for f in self.P.by_name.get(name, []) if f.body and f.self_ty == ty and f.sig and (trait in f.trait if trait else not f.trait)
              and (nargs is None or len(f.sig[0]) == nargs)]
        if len(fs) != 1:
            raise LookupError(f"{self.P.types[ty].s}::{name}")
        return fs[0]

    def sym(self, name, w):
        x = mk("arg", (name,), self.I.u8_ty)
        return x if w == 8 else mk("bits", tuple(self.I.bit(x, i) for i in range(w - 1, -1, -1)))

    # ------------------------------------------------------------ VariableByteInteger
    def digits(self, n, tag="d"):
        return [self.sym(f"{tag}{i}.", 7) for i in range(n)]

    def combine(self, ds):
        v = 0
        for i, d in enumerate(ds):
            v = add(v, scale(d, 128 ** i)) if isinstance(d, V) else v + d * 128 ** i
        return v

    def enc(self, ds):
        """wire bytes of the digits"""
        return [mk("bits", (1 if i + 1 < len(ds) else 0,) + d.a) for i, d in enumerate(ds)]

    def vbi_unit(self):
        self.mode = "vbi"
        R, I = self.R, self.I
        f = self.meth(self.vbity, "from_u32")
        R.units += 1
        for n in range(1, 5):
            st = State()
            ds = self.digits(n)
            if n > 1:
                st.cons.assume_ge(ds[-1], 1)
            x = self.combine(ds)
            outs, ab = self.run(st, f, [x])
            self.abn("VariableByteInteger::from_u32", ab)
            R.paths += len(outs)
            for s, r in outs:
                if not self.alive(s):
                    continue
                if self.variant(r) != "Some":
                    self.bad("C02 C03", "VariableByteInteger::from_u32 refuses a value in range", f"{n}-byte value", s)
                    continue
                self.vbi_value(s, r.a[1][0], x, self.enc(ds), n)
        st = State()
        x = mk("arg", ("v",), self.u32)
        st.cons.assume_ge(x, VBIMAX + 1)
        for s, r in self.run(st, f, [x])[0]:
            R.obligations += 1
            if self.variant(r) != "None" and self.alive(s):
                self.bad("C02 C03 C04", "VariableByteInteger::from_u32 accepts a value above 268435455", "", s)
        self.vbi_decode_unit()

    def abn(self, what, ab, props="C02 C04 C05"):
        for o in ab[:3]:
            if self.alive(o.st):
                self.bad(props, f"{what} panics ({o.msg})", str(o), o.st)

    def vbi_value(self, s, v, x, enc, n):
        """every observer of a VariableByteInteger value"""
        R = self.R
        encv = M.mkvec(list(enc), self.vecu8)
        for name, exp in (("to_u32", x), ("size", n), ("as_bytes", encv), ("to_continuous_buffer", encv), ("to_buffers", encv)):
            f = self.meth(self.vbity, name)
            outs, ab = self.run(s.fork(), f, [self.valref(s, v, f.sig[0][0])])
            self.abn("VariableByteInteger::" + name, ab)
            for s2, r in outs:
                R.obligations += 1
                if not self.alive(s2):
                    continue
                if isinstance(exp, V) and exp is encv:
                    if name == "to_buffers":
                        r = self.concat(s2, r)
                    d = self.eqbytes(s2, M.rdd(self.I, s2, r), encv)
                else:
                    d = None if self.same(s2, r, exp) else show(r)
                if d:
                    self.bad("C02 C03 C04", f"VariableByteInteger::{name} differs from the specification", f"{n}-byte value: {d}", s2)

    def vbi_decode_unit(self):
        """decode_stream: total length, where the integer ends (or does not)"""
        R = self.R
        f = self.meth(self.vbity, "decode_stream")
        for have in range(0, 7):
            for end in range(0, min(have, 4) + 1):
                # the first byte without continuation bit is number `end`; end == min(have, 4): none of the first four
                none = end == min(have, 4)
                ds = self.digits(end if none else end + 1, "w")
                bs = [mk("bits", (0 if i == end else 1,) + d.a) for i, d in enumerate(ds)]
                tail = [self.sym(f"t{i}.", 8) for i in range(have - len(bs))]
                for zero in (0, 1) if not none and end > 0 else (0,):
                    st = State()
                    ds1, bs1 = list(ds), list(bs)
                    if zero:
                        ds1[-1], bs1[-1] = 0, 0
                    elif not none and end > 0:
                        st.cons.assume_ge(ds[-1], 1)
                    data = M.mkvec(bs1 + tail, self.vecu8)
                    outs, ab = self.run(st, f, [mk("ref", (("v", data), ()), f.sig[0][0])])
                    self.abn("VariableByteInteger::decode_stream", ab, "C04 C05 C09")
                    R.paths += len(outs)
                    for s, r in outs:
                        if not self.alive(s):
                            continue
                        R.obligations += 1
                        got = self.variant(r)
                        exp = "Ok" if not none and not zero else "Err" if zero or have >= 4 else "Incomplete"
                        what = f"{have} bytes, " + ("no end in the first four" if none else f"ends at byte {end}") + (", last digit 0" if zero else "")
                        if got != exp:
                            self.bad("C03 C04 C02" if exp == "Ok" else "C04", f"VariableByteInteger::decode_stream gives {got} where the specification gives {exp}", what, s)
                            continue
                        if got == "Ok":
                            if not self.same(s, r.a[1][1], end + 1):
                                self.bad("C03 C04", "VariableByteInteger::decode_stream consumes the wrong number of bytes", f"{what}: {show(r.a[1][1])}", s)
                            self.vbi_value(s, r.a[1][0], self.combine(ds1), bs1, end + 1)

    # ------------------------------------------------------------ enums
    def enums_unit(self):
        R = self.R
        for name, table in ENUMS.items():
            ts = [t for t in self.P.types if t.k == "enum" and t.s.startswith("mqtt::") and t.s.split("::")[-1] == name]
            if len(ts) != 1:
                R.anchor(f"enum {name}", ["C03"])
                continue
            t = ts[0]
            R.units += 1
            have = {v[0]: v[1] for v in t.vs}
            R.obligations += len(table)
            for n, c in table.items():
                if n not in have:
                    R.anchor(f"{name}::{n}", ["C03"])
                elif have[n] != c:
                    self.bad("C03", f"{name}::{n} has code {have[n]}, the specification says {c}", f"{t.s}")
            for n in set(have) - set(table):
                self.bad("C03", f"{name}::{n} is not in the specification table", t.s)
            fs = [f for f in self.P.by_name.get("try_from", []) if f.body and f.self_ty == t.id and f.sig and f.sig[0] == [self.u8]]
            back = {c: n for n, c in table.items()}
            if len(fs) != 1:
                R.anchor(f"{name}::try_from(u8)", ["C03"])
                continue
            for b in range(256):
                outs, ab = self.run(State(), fs[0], [b])
                self.abn(f"{name}::try_from", ab, "C04 C05")
                R.paths += len(outs)
                R.obligations += 1
                for s, r in outs:
                    ok = self.variant(r) == "Ok"
                    got = self.variant(r.a[1][0]) if ok else None
                    if got != back.get(b):
                        self.bad("C03 C04" if b in back else "C04 C03", f"{name}: byte 0x{b:02x} is taken for {got}, the specification says {back.get(b)}", fs[0].name, s)
            for acc in ("as_u8",):
                for f in [f for f in self.P.by_name.get(acc, []) if f.body and f.self_ty is not None and f.self_ty == t.id and not f.trait and f.sig]:
                    byref = self.P.types[f.sig[0][0]].k == "ref"
                    for i, v in enumerate(t.vs):
                        x = mk("agg", (i, ()), t.id)
                        for s, r in self.run(State(), f, [self.valref(None, x, f.sig[0][0]) if byref else x])[0]:
                            R.obligations += 1
                            if s.cons.value(r) != table.get(v[0]):
                                self.bad("C03", f"{name}::{v[0]}.{acc}() is not the code of the specification", show(r), s)
        self.header_unit()

    def header_unit(self):
        """PacketType <-> FixedHeader"""
        pt = next(t for t in self.P.types if t.k == "enum" and t.s.endswith("packet_type::PacketType"))
        fh = next(t for t in self.P.types if t.k == "enum" and t.s.endswith("packet_type::FixedHeader"))
        for f in self.P.by_name.get("to_fixed_header", []):
            if f.body and f.self_ty == pt.id:
                for i, v in enumerate(pt.vs):
                    for s, r in self.run(State(), f, [mk("agg", (i, ()), pt.id)] if self.P.types[f.sig[0][0]].k != "ref" else [self.valref(None, mk("agg", (i, ()), pt.id), f.sig[0][0])])[0]:
                        self.R.obligations += 1
                        if self.variant(r) != v[0]:
                            self.bad("C03", f"PacketType::{v[0]}.to_fixed_header() is {self.variant(r)}", "", s)

    # ------------------------------------------------------------ property values
    def prop_types(self):
        t = self.P.types[self.propty]
        out = {}
        for i, v in enumerate(t.vs):
            if len(v[2]) == 1:
                out[v[0]] = (i, v[2][0][1])
        return out

    def symval(self, st, name, kind):
        """symbolic valid value of a property kind: (tuple of terms, wire elements)"""
        I = self.I
        if kind == "flag":
            b = mk("arg", (name,), I.bool_ty)
            v = mk("bits", (0,) * 7 + (b,))
            v = b
            return (v,), [v]
        if kind[:3] in ("u16", "u32"):
            w = int(kind[1:3]) // 8
            v = mk("arg", (name,), self.u16 if w == 2 else self.u32)
            if kind.endswith("nz"):
                st.cons.assume_ge(v, 1)
            return (v,), self.ints(st, v, w)
        if kind == "vbinz":
            v = mk("arg", (name,), self.u32)
            st.cons.assume_ge(v, 1)
            st.cons.assume_le(v, VBIMAX)
            return (v,), [mk("splice", (self.vbibytes(st, v),))]
        vs = tuple(mk("arg", (name + str(i),), self.strt) for i in range(2 if kind == "pair" else 1))
        es = []
        for v in vs:
            st.cons.assume_le(mk("len", (v,), self.usz), 65535)
            es += self.ints(st, M.seq_len(self.I, st, v), 2) + [mk("splice", (v,))]
        return vs, es

    def ints(self, st, v, w):
        bits = self.I.tobits(st, v, 8 * w)
        return [self.I.frombits(st, bits[8 * i:8 * i + 8]) for i in range(w)]

    def propval(self, s, ty, v, kind):
        """[(state, values)] through the public accessors of the property struct"""
        names = ("key", "val") if kind == "pair" else ("val",)
        cur = [(s, ())]
        for n in names:
            f = self.meth(ty, n)
            cur = [(s2, vs + (r,)) for s1, vs in cur for s2, r in self.must(s1, f, [self.valref(s1, v, f.sig[0][0])])]
        return cur

    def must(self, s, f, args, props="C02 C04 C05"):
        outs, ab = self.run(s, f, args)
        self.abn(f"{self.P.types[f.self_ty].s.split('::')[-1] if f.self_ty is not None else ''}::{f.name}", ab, props)
        outs = [(a, r) for a, r in outs if self.alive(a)]
        if not outs and not ab and self.alive(s):
            raise Undec(f"{f.name}: no outcome")
        return outs

    def prop_check(self, s, name, pv, ty, idx, kind, vals, wire, where):
        """pv: the property struct; vals/wire: expected values and expected wire bytes (with the identifier)"""
        R = self.R
        for s1, got in self.propval(s, ty, pv, kind):
            for g, e in zip(got, vals):
                R.obligations += 1
                g = M.rdd(self.I, s1, g) if isinstance(g, V) and g.k == "ref" else g
                d = (self.eqbytes(s1, g, e) if kind in ("str", "bin", "pair") else None if self.numeq(s1, g, e) else show(g))
                if d:
                    self.bad("C03 C02", f"property {name}: value accessor {where}", f"got {d}", s1)
        wirev = M.mkvec(list(wire), self.vecu8)
        views = [(ty, pv), (self.propty, mk("agg", (idx, (pv,)), self.propty))]
        n = M.seq_len(self.I, s, wirev)
        for t, v in views:
            lab = f"property {name}" + (" as Property" if t == self.propty else "")
            for m in ("size", "to_continuous_buffer", "to_buffers", "id"):
                f = self.meth(t, m)
                for s1, r in self.must(s.fork(), f, [self.valref(s, v, f.sig[0][0])]):
                    R.obligations += 1
                    R.paths += 1
                    if m == "size":
                        d = None if self.same(s1, r, n) else f"{show(r)}, wire length {show(n)}"
                    elif m == "id":
                        d = None if self.variant(r) == name else self.variant(r)
                    else:
                        d = self.eqbytes(s1, self.concat(s1, r) if m == "to_buffers" else M.rdd(self.I, s1, r), wirev)
                    if d:
                        self.bad("C03" if m == "id" else "C02 C03 C04" if m != "to_buffers" else "C02", f"{lab}: {m}() disagrees with the specification encoding", f"{where}: {d}", s1)
        t = self.propty
        for m, ks in (("as_u8", ("flag",)), ("as_u16", ("u16", "u16nz")), ("as_u32", ("u32", "u32nz", "vbinz")), ("as_str", ("str",)), ("as_bytes", ("bin",)), ("as_key_value", ("pair",))):
            try:
                f = self.meth(t, m, trait="PropertyValueAccess")
            except LookupError:
                R.anchor(f"Property::{m}", ["C03"])
                continue
            for s1, r in self.must(s.fork(), f, [self.valref(s, views[1][1], f.sig[0][0])]):
                R.obligations += 1
                some = self.variant(r) == "Some"
                if some != (kind in ks):
                    self.bad("C03", f"Property::{m}() of {name} is {self.variant(r)}", where, s1)
                elif some:
                    g = r.a[1][0]
                    gs = g.a[1] if kind == "pair" else (g,)
                    for x, e in zip(gs, vals):
                        x = M.rdd(self.I, s1, x) if isinstance(x, V) and x.k == "ref" else x
                        d = self.eqbytes(s1, x, e) if kind in ("str", "bin", "pair") else None if self.numeq(s1, x, e) else show(x)
                        if d:
                            self.bad("C03", f"Property::{m}() of {name} is not its value", f"{where}: {d}", s1)

    def prop_unit(self, only=None):
        self.mode = "prop"
        R = self.R
        kinds = self.prop_types()
        pf = self.meth(self.propty, "parse")
        for name, (pid, kind) in PROPS.items():
            if only and only != name:
                continue
            if name not in kinds:
                R.anchor(f"Property::{name}", ["C02", "C03", "C04", "C18"])
                continue
            idx, ty = kinds[name]
            R.units += 1
            # (1) every valid encoding, followed by anything, is accepted with its value
            st = State()
            vals, wire = self.symval(st, "v", kind)
            wire = [pid] + wire
            tail = mk("arg", ("tail",), self.slty)
            data = M.mkvec(wire + [mk("splice", (tail,))], self.vecu8)
            n = M.seq_len(self.I, st, M.mkvec(list(wire), self.vecu8))
            for s, r in self.must(st, pf, [self.valref(st, data, pf.sig[0][0])], "C04 C05"):
                R.paths += 1
                R.obligations += 2
                if self.variant(r) != "Ok":
                    self.bad("C03 C18 C02", f"property {name}: parse rejects a valid encoding", f"-> {show(r)[:120]}", s)
                    continue
                p, used = r.a[1][0].a[1]
                if self.variant(p) != name:
                    self.bad("C03", f"property {name}: identifier {pid} is parsed as {self.variant(p)}", "", s)
                    continue
                if not self.same(s, used, n):
                    self.bad("C03 C04", f"property {name}: parse consumes the wrong number of bytes", f"{show(used)}, encoding {show(n)}", s)
                self.prop_check(s, name, p.a[1][0], ty, idx, kind, vals, wire, "after parse")
            # (2) whatever is accepted is a valid encoding
            st = State()
            W = mk("arg", ("W",), self.slty)
            st.cons.assume_le(mk("len", (W,), self.usz), (1 << 63) - 1)
            data = M.mkvec([pid, mk("splice", (W,))], self.vecu8)
            for s, r in self.must(st, pf, [self.valref(st, data, pf.sig[0][0])], "C04 C05"):
                R.paths += 1
                if self.variant(r) != "Ok":
                    continue
                p, used = r.a[1][0].a[1]
                R.obligations += 2
                if self.over(s, sub(used, 1), mk("len", (W,), self.usz)):
                    self.bad("C04", f"property {name}: parse claims to have consumed more than the input", show(used), s)
                if self.variant(p) != name:
                    self.bad("C03 C04", f"property {name}: identifier {pid} is parsed as {self.variant(p)}", "", s)
                    continue
                self.prop_valid(s, name, p.a[1][0], ty, kind, "parse")
                for s1, cont in self.must(s.fork(), self.meth(ty, "to_continuous_buffer"), [self.valref(s, p.a[1][0], self.meth(ty, "to_continuous_buffer").sig[0][0])]):
                    R.obligations += 1
                    d = self.eqbytes(s1, cont, M.mkvec([pid, mk("splice", (mk("sl", (W, 0, sub(used, 1)), self.slty),))], self.vecu8))
                    if d:
                        self.bad("C04", f"property {name}: the serialisation of an accepted property is not the input", d, s1)
                    for s2, r2 in self.must(s1, pf, [self.valref(s1, cont, pf.sig[0][0])], "C04 C05"):
                        R.obligations += 1
                        if self.variant(r2) != "Ok":
                            self.bad("C04", f"property {name}: the serialisation of an accepted property is rejected", show(r2)[:120], s2)
            # (3) new(): accepts exactly the valid values
            self.prop_new(name, pid, kind, idx, ty)
        # identifiers outside the table
        if not only:
            for b in range(256):
                if b in {x[0] for x in PROPS.values()}:
                    continue
                st = State()
                W = mk("arg", ("W",), self.slty)
                data = M.mkvec([b, mk("splice", (W,))], self.vecu8)
                for s, r in self.must(st, pf, [self.valref(st, data, pf.sig[0][0])], "C04 C05"):
                    R.obligations += 1
                    if self.variant(r) == "Ok":
                        self.bad("C04 C03 C18", f"property identifier {b} is accepted", show(r)[:120], s)
            for s, r in self.must(State(), pf, [self.valref(None, M.mkvec([], self.vecu8), pf.sig[0][0])], "C04 C05"):
                if self.variant(r) == "Ok":
                    self.bad("C04", "Property::parse accepts the empty input", "", s)

    def over(self, s, a, b):
        f = sub(a, b)
        if s.cons.bounds(f)[1] <= 0:
            return False
        s2 = s.fork()
        return s2.cons.assume_ge(f, 1) and self.alive(s2)

    def prop_valid(self, s, name, pv, ty, kind, where):
        """the value of an accepted property is one the specification allows"""
        R = self.R
        if kind not in ("flag", "u16nz", "u32nz", "vbinz"):
            return
        for s1, (g,) in self.propval(s, ty, pv, kind):
            R.obligations += 1
            s2 = s1.fork()
            badv = (s2.cons.assume_ge(g, 2) if kind == "flag" else s2.cons.assume_eq(g, 0)) if isinstance(g, V) else (g >= 2 if kind == "flag" else g == 0)
            if badv and self.alive(s2):
                self.bad("C18 C04 C03", f"property {name}: {where} accepts a value the specification forbids", f"value {show(g)} can be " + ("other than 0/1" if kind == "flag" else "0"), s2)

    def prop_new(self, name, pid, kind, idx, ty):
        R = self.R
        f = self.meth(ty, "new")
        pf = self.P.types[f.sig[0][0]]
        if kind == "flag" and pf.k == "enum":
            for i in range(len(pf.vs)):
                for s, r in self.must(State(), f, [mk("agg", (i, ()), pf.id)]):
                    R.obligations += 1
                    if self.variant(r) != "Ok":
                        self.bad("C18", f"property {name}: new() rejects a valid value", pf.vs[i][0], s)
                        continue
                    self.prop_check(s, name, r.a[1][0], ty, idx, kind, (pf.vs[i][1],), [pid, pf.vs[i][1]], "after new()")
            return
        if kind in ("str", "bin", "pair"):
            st = State()
            vals = tuple(mk("arg", ("v" + str(i),), self.strt) for i in range(2 if kind == "pair" else 1))
            for s, r in self.must(st, f, [mk("ref", (("v", v), ()), self.refstr) for v in vals]):
                R.obligations += 1
                if self.variant(r) != "Ok":
                    if all(s.cons.bounds(M.seq_len(self.I, s, v))[1] <= 65535 for v in vals):
                        self.bad("C18", f"property {name}: new() rejects a valid value", show(r)[:100], s)
                    continue
                for v in vals:
                    if self.over(s, M.seq_len(self.I, s, v), 65535):
                        self.bad("C02 C03 C04", f"property {name}: new() accepts a value longer than 65535 bytes", "", s)
                es = [pid]
                for v in vals:
                    es += self.ints(s, M.seq_len(self.I, s, v), 2) + [mk("splice", (v,))]
                self.prop_check(s, name, r.a[1][0], ty, idx, kind, vals, es, "after new()")
            return
        v = mk("arg", ("v",), f.sig[0][0])
        for s, r in self.must(State(), f, [v]):
            R.obligations += 1
            if self.variant(r) == "Ok":
                self.prop_valid(s, name, r.a[1][0], ty, kind, "new()")
                if kind == "vbinz" and self.over(s, v, VBIMAX):
                    self.bad("C02 C18", f"property {name}: new() accepts a value above 268435455", "", s)
                    continue
                w = {"flag": 1, "u16": 2, "u32": 4}.get(kind[:3] if kind != "flag" else kind, 0)
                es = self.ints(s, v, w) if w else [mk("splice", (self.vbibytes(s, v),))]
                self.prop_check(s, name, r.a[1][0], ty, idx, kind, (v,), [pid] + es, "after new()")
                continue
            lo, hi = (0, 1) if kind == "flag" else (1 if kind.endswith("nz") else 0, VBIMAX if kind == "vbinz" else 1 << 32)
            s2 = s.fork()
            if s2.cons.assume_ge(v, lo) and s2.cons.assume_le(v, hi) and self.alive(s2):
                self.bad("C18", f"property {name}: new() rejects a valid value", self.path(s2), s2)

    # ------------------------------------------------------------ property lists
    def prop_contract(self, I, st, callee, args, argtys, dty):
        """Property::parse / size / serialisation, as established by prop_unit"""
        n = callee.name
        v = M.rdd(I, st, args[0])
        if n == "parse":
            h = self.head(st, v)
            if h is None or h[0] == "vbi":
                raise Undec("property at an unresolved position of " + show(v))
            err = lambda s: (s, M.err(I, dty, self.mqtterr(dty, "prop", v)))
            if h[0] == "end":
                return [err(st)]
            if h[0] == "elem":
                return None
            if h[0] == "W" and h[1].k == "pbytes":
                if not self.same(st, h[2], 0):
                    raise Undec("property inside " + show(h[1]))
                p = h[1].a[0]
                s2 = st.fork()
                out = []
                if s2.cons.assume_ge(sub(h[3], self.psz(p)), 0):
                    out.append((s2, M.ok(I, dty, mk("agg", (0, (p, self.psz(p))), self.res_ok(dty)))))
                if st.cons.assume_le(sub(h[3], self.psz(p)), -1):
                    out.append(err(st))
                return out
            _, base, a, end = h
            u = mk("propu", (base, a), self.usz)
            out = []
            s = st.fork()
            if s.cons.assume_ge(u, 2) and s.cons.assume_ge(sub(sub(end, a), u), 0):
                p = mk("prop", ("at", base, a), self.propty)
                out.append((s, M.ok(I, dty, mk("agg", (0, (p, u)), self.res_ok(dty)))))
            return out + [err(st)]
        if not (isinstance(v, V) and v.k == "prop"):
            return None
        if n == "size":
            return [(st, self.psz(v))]
        b = self.pser(v)
        if n == "to_continuous_buffer":
            return [(st, M.mkvec([mk("splice", (b,))], dty))]
        if n == "to_buffers":
            return [(st, mk("vec", ((M.refto(I, st, b, self.refsl),),), dty))]
        return None

    def psz(self, p):
        return mk("propu", p.a[1:], self.usz) if p.a[0] == "at" else mk("psz1", (p,), self.usz)

    def pser(self, p):
        if p.a[0] == "at":
            base, a = p.a[1:]
            return mk("sl", (base, a, add(a, self.psz(p))), self.slty)
        return mk("pbytes", (p,), self.slty)

    def length(self, st, v):
        if v.k == "pbytes":
            return self.psz(v.a[0])
        return super().length(st, v)

    def pmeth(self, name, trait):
        fs = [f for f in self.P.by_name.get(name, []) if f.body and f.self_ty == self.propsty and trait in f.trait]
        if len(fs) != 1:
            raise LookupError(f"Properties::{name}")
        return fs[0]

    def list_ser(self, s, lst, exp, total, where):
        """size / contiguous / vectored of a property list against the expected bytes"""
        R = self.R
        for n, tr in (("size", "PropertiesSize"), ("to_continuous_buffer", "PropertiesToContinuousBuffer"), ("to_buffers", "PropertiesToBuffers")):
            f = self.pmeth(n, tr)
            for s1, r in self.must(s.fork(), f, [self.valref(s, lst, f.sig[0][0])]):
                R.obligations += 1
                R.paths += 1
                if n == "size":
                    d = None if self.same(s1, r, total) else f"{show(r)} / {show(total)}"
                else:
                    d = self.eqbytes(s1, self.concat(s1, r) if n == "to_buffers" else r, exp)
                if d:
                    self.bad("C02 C03 C04" if n != "to_buffers" else "C02", f"property list: {n}() is not the sum of the properties", f"{where}: {d}", s1)

    def props_unit(self, entries=3):
        self.mode = "props"
        R = self.R
        self.entries = entries
        self.I.loop_hook = lambda st, fn, fid, bb, n: "stop" if n > entries + 1 else None
        pf = self.pmeth("parse", "PropertiesParse")
        R.units += 1
        # (1) any input
        st = State()
        W = mk("arg", ("W",), self.slty)
        st.cons.assume_le(mk("len", (W,), self.usz), (1 << 63) - 1)
        oks = 0
        for s, r in self.must(st, pf, [self.valref(st, W, pf.sig[0][0])], "C04 C05"):
            R.paths += 1
            if self.variant(r) != "Ok":
                continue
            oks += 1
            lst, used = r.a[1][0].a[1]
            n = mk("vbiat", (W, 0), self.u32)
            k = self.vbilen(s, n)
            R.obligations += 2
            if self.over(s, used, mk("len", (W,), self.usz)):
                self.bad("C04", "property list: parse claims to have consumed more than the input", show(used), s)
            if not self.same(s, used, add(k, n)):
                self.bad("C04 C03", "property list: parse does not consume exactly the property length", f"{show(used)} instead of {show(add(k, n))}", s)
            self.list_ser(s, lst, mk("sl", (W, k, add(k, n)), self.slty), n, "accepted list")
        if not oks:
            self.bad("C03", "property list: parse accepts nothing", "")
        # (2) every list
        for cnt in range(0, entries + 1):
            st = State()
            ps = [mk("prop", (f"p{i}",), self.propty) for i in range(cnt)]
            total = 0
            for p in ps:
                st.cons.assume_ge(self.psz(p), 2)
                st.cons.assume_le(self.psz(p), 65535 * 2 + 5)
                total = add(total, self.psz(p))
            body = M.mkvec([mk("splice", (self.pser(p),)) for p in ps], self.vecu8)
            lst = M.mkvec(ps, self.propsty)
            self.list_ser(st, lst, body, total, f"list of {cnt}")
            tail = mk("arg", ("tail",), self.slty)
            data = M.mkvec([mk("splice", (self.vbibytes(st, total),))] + [mk("splice", (self.pser(p),)) for p in ps] + [mk("splice", (tail,))], self.vecu8)
            want = add(self.vbilen(st, total), total)
            for s, r in self.must(st, pf, [self.valref(st, data, pf.sig[0][0])], "C04 C05"):
                R.obligations += 2
                R.paths += 1
                if self.variant(r) != "Ok":
                    self.bad("C03 C02", "property list: parse rejects a valid list", f"list of {cnt}: {show(r)[:120]}", s)
                    continue
                got, used = r.a[1][0].a[1]
                es = M.elems_of(got)
                if es is None or [x for x in es] != ps:
                    self.bad("C03 C02", "property list: parse gives a different list", f"list of {cnt}: {show(got)[:200]}", s)
                if not self.same(s, used, want):
                    self.bad("C03 C04", "property list: parse consumes the wrong number of bytes", f"list of {cnt}: {show(used)}", s)


_ERR = {"UnspecifiedError": 0x80, "MalformedPacket": 0x81, "ProtocolError": 0x82, "ImplementationSpecificError": 0x83, "UnsupportedProtocolVersion": 0x84,
        "ClientIdentifierNotValid": 0x85, "BadUserNameOrPassword": 0x86, "NotAuthorized": 0x87, "ServerUnavailable": 0x88, "ServerBusy": 0x89, "Banned": 0x8A,
        "ServerShuttingDown": 0x8B, "BadAuthenticationMethod": 0x8C, "KeepAliveTimeout": 0x8D, "SessionTakenOver": 0x8E, "TopicFilterInvalid": 0x8F,
        "TopicNameInvalid": 0x90, "PacketIdentifierInUse": 0x91, "PacketIdentifierNotFound": 0x92, "ReceiveMaximumExceeded": 0x93, "TopicAliasInvalid": 0x94,
        "PacketTooLarge": 0x95, "MessageRateTooHigh": 0x96, "QuotaExceeded": 0x97, "AdministrativeAction": 0x98, "PayloadFormatInvalid": 0x99,
        "RetainNotSupported": 0x9A, "QosNotSupported": 0x9B, "UseAnotherServer": 0x9C, "ServerMoved": 0x9D, "SharedSubscriptionsNotSupported": 0x9E,
        "ConnectionRateExceeded": 0x9F, "MaximumConnectTime": 0xA0, "SubscriptionIdentifiersNotSupported": 0xA1, "WildcardSubscriptionsNotSupported": 0xA2}
_codes = lambda *cs: {n: c for n, c in _ERR.items() if c in cs}
PROPID = {"PayloadFormatIndicator": 1, "MessageExpiryInterval": 2, "ContentType": 3, "ResponseTopic": 8, "CorrelationData": 9, "SubscriptionIdentifier": 11,
          "SessionExpiryInterval": 17, "AssignedClientIdentifier": 18, "ServerKeepAlive": 19, "AuthenticationMethod": 21, "AuthenticationData": 22,
          "RequestProblemInformation": 23, "WillDelayInterval": 24, "RequestResponseInformation": 25, "ResponseInformation": 26, "ServerReference": 28,
          "ReasonString": 31, "ReceiveMaximum": 33, "TopicAliasMaximum": 34, "TopicAlias": 35, "MaximumQos": 36, "RetainAvailable": 37, "UserProperty": 38,
          "MaximumPacketSize": 39, "WildcardSubscriptionAvailable": 40, "SubscriptionIdentifierAvailable": 41, "SharedSubscriptionAvailable": 42}
_TYPES = ["Connect", "Connack", "Publish", "Puback", "Pubrec", "Pubrel", "Pubcomp", "Subscribe", "Suback", "Unsubscribe", "Unsuback", "Pingreq", "Pingresp", "Disconnect", "Auth"]
_PUB = dict({"Success": 0, "NoMatchingSubscribers": 0x10}, **_codes(0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99))
ENUMS = {
    "ConnectReturnCode": {"Accepted": 0, "UnacceptableProtocolVersion": 1, "IdentifierRejected": 2, "ServerUnavailable": 3, "BadUserNameOrPassword": 4, "NotAuthorized": 5},
    "SubackReturnCode": {"SuccessMaximumQos0": 0, "SuccessMaximumQos1": 1, "SuccessMaximumQos2": 2, "Failure": 0x80},
    "ConnectReasonCode": dict({"Success": 0}, **_codes(*range(0x80, 0x8B), 0x8C, 0x90, 0x95, 0x97, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F)),
    "DisconnectReasonCode": dict({"NormalDisconnection": 0, "DisconnectWithWillMessage": 4},
                                 **_codes(0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, *range(0x93, 0xA3))),
    "PubackReasonCode": _PUB, "PubrecReasonCode": _PUB,
    "PubrelReasonCode": dict({"Success": 0}, **_codes(0x92)), "PubcompReasonCode": dict({"Success": 0}, **_codes(0x92)),
    "SubackReasonCode": dict({"GrantedQos0": 0, "GrantedQos1": 1, "GrantedQos2": 2}, **_codes(0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2)),
    "UnsubackReasonCode": dict({"Success": 0, "NoSubscriptionExisted": 0x11}, **_codes(0x80, 0x83, 0x87, 0x8F, 0x91)),
    "AuthReasonCode": {"Success": 0, "ContinueAuthentication": 0x18, "ReAuthenticate": 0x19},
    "Qos": {"AtMostOnce": 0, "AtLeastOnce": 1, "ExactlyOnce": 2},
    "RetainHandling": {"SendRetained": 0, "SendRetainedIfNotExists": 1, "DoNotSendRetained": 2},
    "PayloadFormat": {"Binary": 0, "String": 1},
    "PropertyId": PROPID,
    "PacketType": {n: i + 1 for i, n in enumerate(_TYPES)},
    "FixedHeader": {n: (i + 1) << 4 | (2 if n in ("Pubrel", "Subscribe", "Unsubscribe") else 0) for i, n in enumerate(_TYPES)},
}

_KIND = dict({n: "flag" for n in ("PayloadFormatIndicator", "RequestProblemInformation", "RequestResponseInformation", "MaximumQos", "RetainAvailable",
                                  "WildcardSubscriptionAvailable", "SubscriptionIdentifierAvailable", "SharedSubscriptionAvailable")},
             **{n: "u16" for n in ("ServerKeepAlive", "TopicAliasMaximum")}, **{n: "u16nz" for n in ("ReceiveMaximum", "TopicAlias")},
             **{n: "u32" for n in ("MessageExpiryInterval", "SessionExpiryInterval", "WillDelayInterval")}, MaximumPacketSize="u32nz", SubscriptionIdentifier="vbinz",
             **{n: "str" for n in ("ContentType", "ResponseTopic", "AssignedClientIdentifier", "AuthenticationMethod", "ResponseInformation", "ServerReference", "ReasonString")},
             CorrelationData="bin", AuthenticationData="bin", UserProperty="pair")
PROPS = {n: (c, _KIND[n]) for n, c in PROPID.items()}


# ---------------------------------------------------------------- strings, binaries, payloads
class Str(Low):
    """MqttString / MqttBinary / ArcPayload: constructors, decoding and observers against a byte sequence.

    Every length up to SMALL has its own state (small-buffer representations), one more covers all the others."""

    SMALL = 50

    def prim(self, I, st, callee, args, argtys, dty):
        if callee.local:
            return None
        return super().prim(I, st, callee, args, argtys, dty)

    def one(self, name):
        ts = [t for t in self.P.types if t.k in ("enum", "struct") and t.s.startswith("mqtt::") and t.s.split("::")[-1] == name]
        if len(ts) != 1:
            raise LookupError(name)
        return ts[0].id

    def src(self, n, ty, name="S"):
        """a state and a sequence of length n (None: any length above SMALL)"""
        st = State()
        v = mk("arg", (name,), ty)
        ln = mk("len", (v,), self.usz)
        if n == 0:
            return st, mk("bytes", (b"",), ty)
        if n is None:
            st.cons.assume_ge(ln, self.SMALL + 1)
            st.cons.assume_le(ln, (1 << 63) - 1)
        else:
            st.cons.assume_eq(ln, n)
        return st, v

    def strs_unit(self, lens=None):
        R = self.R
        if lens is None:
            lens = list(range(self.SMALL + 1)) + [None]
        R.units += 1
        ms, mb, ap = self.one("MqttString"), self.one("MqttBinary"), self.one("ArcPayload")
        for n in lens:
            for ty, seq, ctors in ((ms, self.strt, ("new", "try_from")), (mb, self.slty, ("new", "try_from"))):
                for cn in ctors:
                    for f in self.P.by_name.get(cn, []):
                        if f.body and f.self_ty == ty and f.sig and len(f.sig[0]) == 1:
                            self.ctor(f, ty, seq, n)
                self.decode(ty, seq, n)
            self.payload(ap, n)

    def arg_of(self, st, ty, v):
        """a value of the argument type holding the sequence, or None"""
        t = self.P.types[ty]
        if t.k == "ref":
            e = self.P.types[t.e]
            if e.k in ("str", "slice"):
                return mk("ref", (("v", v), ()), ty)
            x = self.arg_of(st, t.e, v)
            return None if x is None else mk("ref", (("v", x), ()), ty)
        if t.path in ("std::vec::Vec", "alloc::vec::Vec") or t.path.endswith("::String"):
            return M.mkvec([mk("splice", (v,))], ty)
        if t.path.endswith("::Arc"):
            return v
        return None

    def ctor(self, f, ty, seq, n):
        R = self.R
        tn = self.P.types[ty].s.split("::")[-1]
        at = self.P.types[f.sig[0][0]]
        isstr = at.s.endswith("str") or at.s.endswith("String")
        st, v = self.src(n, self.strt if isstr else self.slty)
        a = self.arg_of(st, f.sig[0][0], v)
        if a is None:
            if at.k == "array" or at.k == "ref" and self.P.types[at.e].k == "array":
                return
            raise Undec(f"{tn}::{f.name}({at.s})")
        lab = f"{tn}::{f.name}({at.s})"
        for s, r in self.must(st, f, [a]):
            R.paths += 1
            R.obligations += 1
            if self.variant(r) != "Ok":
                if not self.over(s, M.seq_len(self.I, s, v), 65535):
                    self.bad("C02 C03", f"{lab} rejects a value of at most 65535 bytes", f"length {n}", s)
                continue
            if self.over(s, M.seq_len(self.I, s, v), 65535):
                self.bad("C02 C03 C04", f"{lab} accepts a value longer than 65535 bytes", "", s)
                continue
            self.observe(s, ty, r.a[1][0], v, isstr, lab)

    def observe(self, s, ty, x, v, isstr, where):
        R = self.R
        tn = self.P.types[ty].s.split("::")[-1]
        ln = M.seq_len(self.I, s, v)
        if not s.cons.assume_le(ln, 65535):
            return
        wire = M.mkvec(self.ints(s, ln, 2) + [mk("splice", (v,))], self.vecu8)
        names = [("as_bytes", None, wire), ("len", None, ln), ("size", None, add(ln, 2)), ("is_empty", None, self.I.cmp(s, "Eq", ln, 0)), ("to_buffers", None, wire),
                 ("to_continuous_buffer", None, wire), ("as_ref", "AsRef", v), ("deref", "Deref", v)]
        names.append(("as_str" if tn == "MqttString" else "as_slice", None, v))
        for nm, tr, exp in names:
            fs = [f for f in self.P.by_name.get(nm, []) if f.body and f.self_ty == ty and f.sig and (tr in f.trait if tr else not f.trait)]
            if not fs:
                if tr is None:
                    R.anchor(f"{tn}::{nm}", ["C02", "C03", "C04"])
                continue
            for s1, r in self.must(s.fork(), fs[0], [self.valref(s, x, fs[0].sig[0][0])]):
                R.obligations += 1
                R.paths += 1
                if nm in ("len", "size"):
                    d = None if self.same(s1, r, exp) else show(r)
                elif nm == "is_empty":
                    s2 = s1.fork()
                    e = 1 if self.same(s1, ln, 0) else 0 if s1.cons.bounds(ln)[0] > 0 else None
                    d = None if e is None or s1.cons.value(r) == e else show(r)
                else:
                    d = self.eqbytes(s1, self.concat(s1, r) if nm == "to_buffers" else M.rdd(self.I, s1, r), exp)
                if d:
                    self.bad("C02" if nm == "to_buffers" else "C02 C03 C04", f"{tn}::{nm}() is not the value", f"{where}: {d}", s1)

    def decode(self, ty, seq, n):
        """decode: the encoding of a value followed by anything; and a truncated encoding"""
        R, I = self.R, self.I
        tn = self.P.types[ty].s.split("::")[-1]
        f = self.meth(ty, "decode")
        new = [g for g in self.P.by_name.get("new", []) if g.body and g.self_ty == ty and g.sig and self.P.types[g.sig[0][0]].k == "ref"
               and self.P.types[self.P.types[g.sig[0][0]].e].k in ("str", "slice")]
        eq = [g for g in self.P.by_name.get("eq", []) if g.body and g.self_ty == ty and g.sig and g.sig[0][0] == g.sig[0][1]]
        isstr = tn == "MqttString"
        st, v = self.src(n, seq)
        ln = M.seq_len(I, st, v)
        st.cons.assume_le(ln, 65535)
        tail = mk("arg", ("tail",), self.slty)
        data = M.mkvec(self.ints(st, ln, 2) + [mk("splice", (v,)), mk("splice", (tail,))], self.vecu8)
        for s, r in self.must(st, f, [self.valref(st, data, f.sig[0][0])], "C04 C05"):
            R.obligations += 2
            R.paths += 1
            if self.variant(r) != "Ok":
                self.bad("C03 C02", f"{tn}::decode rejects a valid encoding", f"length {n}: {show(r)[:120]}", s)
                continue
            x, used = r.a[1][0].a[1]
            if not self.same(s, used, add(ln, 2)):
                self.bad("C03 C04", f"{tn}::decode consumes the wrong number of bytes", f"length {n}: {show(used)}", s)
            self.observe(s, ty, x, v, isstr, f"{tn}::decode")
            for g in new[:1]:
                for s1, r1 in self.must(s.fork(), g, [self.valref(s, v, g.sig[0][0])]):
                    if self.variant(r1) != "Ok" or not eq:
                        continue
                    for s2, e in self.must(s1, eq[0], [self.valref(s1, r1.a[1][0], eq[0].sig[0][0]), self.valref(s1, x, eq[0].sig[0][1])]):
                        R.obligations += 1
                        if s2.cons.value(e) != 1:
                            self.bad("C02", f"{tn}: the decoded value is not equal to the constructed one", f"length {n}: {show(e)}", s2)
        # any input announcing n bytes
        st = State()
        W = mk("arg", ("W",), self.slty)
        have = mk("len", (W,), self.usz)
        st.cons.assume_le(have, (1 << 63) - 1)
        if n is None:
            hi, lo = self.sym("hi", 8), self.sym("lo", 8)
            ann = add(scale(hi, 256), lo)
            st.cons.assume_ge(ann, self.SMALL + 1)
        else:
            hi, lo, ann = n >> 8, n & 255, n
        data = M.mkvec([hi, lo, mk("splice", (W,))], self.vecu8)
        for s, r in self.must(st, f, [self.valref(st, data, f.sig[0][0])], "C04 C05"):
            R.paths += 1
            R.obligations += 1
            if self.variant(r) != "Ok":
                continue
            x, used = r.a[1][0].a[1]
            if self.over(s, sub(used, 2), have) or not self.same(s, used, add(ann, 2)):
                self.bad("C04", f"{tn}::decode accepts a truncated encoding or consumes the wrong number of bytes", f"announced {show(ann)}, consumed {show(used)}", s)
                continue
            body = mk("sl", (W, 0, ann), self.slty)
            self.observe(s, ty, x, body, False, f"{tn}::decode")
            if isstr:
                R.obligations += 1
                if n != 0 and s.cons.value(M.utf8_term(I, s, body)) != 1:
                    self.bad("C04", f"{tn}::decode accepts bytes without validating UTF-8", f"announced {show(ann)}", s)
        # no room for the length itself
        if n == 0:
            for bs in ([], [mk("arg", ("b0",), self.u8)]):
                for s, r in self.must(State(), f, [self.valref(None, M.mkvec(bs, self.vecu8), f.sig[0][0])], "C04 C05"):
                    R.obligations += 1
                    if self.variant(r) == "Ok":
                        self.bad("C04", f"{tn}::decode accepts {len(bs)} bytes", "", s)

    def payload(self, ap, n):
        R, I = self.R, self.I
        arcs = []
        f = self.meth(ap, "new")
        for pre in (0, 3):
            st, v = self.src(n, self.slty)
            ln = M.seq_len(I, st, v)
            d = M.mkvec([mk("splice", (mk("arg", ("pre",), self.slty),))] * (pre > 0) + [mk("splice", (v,)), mk("splice", (mk("arg", ("tail",), self.slty),))], self.vecu8)
            if pre:
                st.cons.assume_le(mk("len", (mk("arg", ("pre",), self.slty),), self.usz), (1 << 62) - 1)
            off = M.seq_len(I, st, mk("arg", ("pre",), self.slty)) if pre else 0
            st.cons.assume_le(ln, (1 << 61) - 1)
            st.cons.assume_le(mk("len", (mk("arg", ("tail",), self.slty),), self.usz), (1 << 61) - 1)
            for s, r in self.must(st, f, [d, off, ln], "C04 C05"):
                self.pay_observe(s, ap, r, v, "ArcPayload::new")
        for f in self.P.by_name.get("into_payload", []):
            if not f.body or not f.sig or len(f.sig[0]) != 1:
                continue
            at = self.P.types[f.sig[0][0]]
            if at.id == ap:
                continue
            st, v = self.src(n, self.strt if at.s.endswith("str") or at.s.endswith("String") else self.slty)
            if at.k == "tuple":
                a, v = mk("agg", (0, ()), at.id), M.mkvec([], self.vecu8)
            else:
                a = self.arg_of(st, at.id, v)
            if a is None:
                if at.k == "ref" and self.P.types[at.e].k == "array" or at.k == "array":
                    continue
                raise Undec(f"into_payload({at.s})")
            for s, r in self.must(st, f, [a]):
                self.pay_observe(s, ap, r, v, f"into_payload({at.s})")

    def pay_observe(self, s, ap, x, v, where):
        R = self.R
        ln = M.seq_len(self.I, s, v)
        for nm in ("as_slice", "len", "is_empty"):
            f = self.meth(ap, nm)
            for s1, r in self.must(s.fork(), f, [self.valref(s, x, f.sig[0][0])]):
                R.obligations += 1
                R.paths += 1
                if nm == "len":
                    d = None if self.same(s1, r, ln) else show(r)
                elif nm == "is_empty":
                    e = 1 if self.same(s1, ln, 0) else 0 if s1.cons.bounds(ln)[0] > 0 else None
                    d = None if e is None or s1.cons.value(r) == e else show(r)
                else:
                    d = self.eqbytes(s1, M.rdd(self.I, s1, r), v)
                if d:
                    self.bad("C02 C03 C04", f"ArcPayload::{nm}() is not the value", f"{where}: {d}", s1)
