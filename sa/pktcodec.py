"""Layer 3 of rule `codec`: the 29 packet kinds over symbolic bodies / symbolic field values."""
import re
from codec import Base, VBIMAX
from interp import State, Budget, Abort
from framing import Undec
from terms import V, mk, add, sub, show
import models as M


class Kind:
    def __init__(self, P, ty):
        self.P, self.ty = P, ty
        self.name = re.sub(r"^.*packet::(v[35]_\w+)::\w+::(?:Generic)?(\w+)(<u\d+>)?$", r"\1 \2\3", P.types[ty].s).replace("v3_1_1", "v3.1.1").replace("v5_0", "v5.0")
        self.v5 = "v5.0" in self.name
        self.short = self.name.split()[1].split("<")[0]
        self.file = next(f.file for f in P.by_name["parse"] if f.self_ty == ty and f.body)

    def fn(self, name, trait=False, nargs=None):
        fs = [f for f in self.P.by_name.get(name, []) if f.body and f.self_ty == self.ty and ("GenericPacketTrait" in f.trait if trait else not f.trait)
              and (nargs is None or f.sig and len(f.sig[0]) == nargs)]
        if len(fs) != 1:
            raise LookupError(f"{self.name}::{name}")
        return fs[0]


def kinds(P, idw="u16"):
    out = []
    for f in P.by_name.get("parse", []):
        if f.body and f.pub and f.self_ty is not None and re.search(r"packet::v[35]_\w+::", P.types[f.self_ty].s) and not f.trait:
            k = Kind(P, f.self_ty)
            if "<" not in k.name or f"<{idw}>" in k.name:
                out.append(k)
    return sorted(out, key=lambda k: k.name)


class Pkt(Base):
    def __init__(self, P, R, entries=2):
        super().__init__(P, R)
        self.entries = entries
        self.I.loop_hook = lambda st, fn, fid, bb, n: "stop" if n > entries + 1 else None

    def bad(self, props, key, text, s=None):
        self.R.bad(props, key, text, self.path(s, 60) if s is not None else "")

    def variant(self, r):
        return self.P.types[r.ty].vs[r.a[0]][0]

    # ------------------------------------------------------------ serialisation of a packet value
    def ser(self, s, k, pkt):
        """[(state, size, contiguous, vectored as one sequence)]; obligations on their agreement are recorded"""
        ref = self.valref(s, pkt, k.fn("size").sig[0][0])
        out = []
        cs, ab = self.run(s, k.fn("to_continuous_buffer"), [ref])
        self.no_abn(k, "to_continuous_buffer", ab)
        for s1, cont in cs:
            zs, ab = self.run(s1, k.fn("size"), [ref])
            self.no_abn(k, "size", ab)
            for s2, size in zs:
                bs, ab = self.run(s2, k.fn("to_buffers"), [ref])
                self.no_abn(k, "to_buffers", ab)
                for s3, bufs in bs:
                    out.append((s3, size, cont, self.concat(s3, bufs)))
        return out

    def valref(self, s, v, ty):
        return mk("ref", (("v", v), ()), ty)

    def concat(self, s, bufs):
        es = M.elems_of(bufs)
        if es is None:
            raise Undec("to_buffers: " + show(bufs))
        out = []
        for e in es:
            v = M.rdd(self.I, s, e)
            out.append(mk("splice", (v,)))
        return M.mkvec(out, self.vecu8)

    def no_abn(self, k, what, ab):
        for o in ab[:3]:
            self.bad("C02 C04 C05", f"{k.name}: {what} panics ({o.msg})", f"{k.name}::{what}: {o}", o.st)

    def rl(self, s, cont, k):
        """Remaining Length value and the body of a contiguous serialisation"""
        es = M.elems_of(cont)
        if es is None or len(es) < 2:
            raise Undec("serialisation " + show(cont))
        flat = []
        for i, e in enumerate(es):
            if M.is_splice(e):
                v = e.a[0]
                if v.k == "vbib" or M.elems_of(v) is None:
                    flat.append(e)
                else:
                    flat += list(M.elems_of(v))
            else:
                flat.append(e)
        if M.is_splice(flat[0]):
            raise Undec("first byte " + show(flat[0]))
        h = flat[1]
        if M.is_splice(h):
            if h.a[0].k != "vbib":
                raise Undec("remaining length " + show(h))
            return flat[0], h.a[0].a[0], M.mkvec(flat[2:], self.vecu8)
        n, sh = 0, 0
        for i in range(1, 5):
            if i >= len(flat):
                break
            b = flat[i] if isinstance(flat[i], int) else s.cons.value(flat[i])
            if not isinstance(b, int):
                break
            n |= (b & 127) << sh
            sh += 7
            if b < 128:
                return flat[0], n, M.mkvec(flat[i + 1:], self.vecu8)
        raise Undec("remaining length of " + show(cont)[:200])

    def check_ser(self, s, k, pkt, where):
        """agreement of the four representations; -> [(state, header, body)]"""
        R, out = self.R, []
        for s1, size, cont, vec in self.ser(s, k, pkt):
            R.paths += 1
            R.obligations += 3
            total = M.seq_len(self.I, s1, cont)
            if not self.same(s1, total, size):
                self.bad("C02 C04 C14", f"{k.name}: size() differs from the serialisation length", f"{where}: size() = {show(size)}, serialised length {show(total)}", s1)
            d = self.eqbytes(s1, vec, cont)
            if d:
                self.bad("C02", f"{k.name}: vectored and contiguous serialisation differ", f"{where}: vectored {d}", s1)
            h, n, body = self.rl(s1, cont, k)
            bl = M.seq_len(self.I, s1, body)
            if not self.same(s1, bl, n):
                self.bad("C02 C03 C04", f"{k.name}: Remaining Length is not the length of the body", f"{where}: Remaining Length {show(n)}, body {show(bl)}", s1)
            out.append((s1, h, body))
        return out

    def wrappers(self, k):
        """[(label, type, variant)] of the packet enums that carry this kind"""
        out = []
        for t in self.P.types:
            if t.k == "enum" and ("::GenericPacket<" in t.s or "::GenericStorePacket<" in t.s) and t.vs:
                for i, v in enumerate(t.vs):
                    if len(v[2]) == 1 and v[2][0][1] == k.ty:
                        out.append((t.s.split("::")[-1] + "::" + v[0], t.id, i))
        return out

    def traitfn(self, ty, n):
        fs = [f for f in self.P.by_name.get(n, []) if f.body and f.self_ty == ty and "GenericPacketTrait" in f.trait]
        if len(fs) != 1:
            raise LookupError(f"GenericPacketTrait::{n} for {self.P.types[ty].s}")
        return fs[0]

    def check_traits(self, s, k, pkt):
        """the trait methods and the packet enums give what the packet's own methods give"""
        R = self.R
        views = [("GenericPacketTrait", k.ty, pkt)] + [(l, t, mk("agg", (i, (pkt,)), t)) for l, t, i in self.wrappers(k)]
        if len(views) < 2:
            R.anchor(f"{k.name}: not carried by GenericPacket", ["C02"])
        for s1, size, cont, vec in self.ser(s, k, pkt):
            for label, ty, v in views:
                for n, own in (("size", size), ("to_continuous_buffer", cont), ("to_buffers", vec)):
                    f = self.traitfn(ty, n)
                    outs, ab = self.run(s1.fork(), f, [self.valref(s1, v, f.sig[0][0])])
                    self.no_abn(k, f"{label} {n}", ab)
                    R.obligations += 1
                    for s2, r in outs:
                        if n == "size":
                            d = None if self.same(s2, r, own) else f"{show(r)} / {show(own)}"
                        else:
                            d = self.eqbytes(s2, self.concat(s2, r) if n == "to_buffers" else r, own)
                        if d:
                            self.bad("C02 C03", f"{k.name}: {n}() through {label} differs from the packet's own", d, s2)

    def doparse(self, s, k, h, body):
        f = k.fn("parse")
        if len(f.sig[0]) == 1:
            args = [mk("ref", (("v", body), ()), f.sig[0][0])]
        else:
            flags = self.I.binop(s, "BitAnd", h, 15, self.u8)
            args = [flags[0][1] if isinstance(flags, list) else flags, body]
        return self.run(s, f, args)

    def eqval(self, s, a, b, k):
        """None if the two packets are equal"""
        R = self.eqs(s, a, b, "")
        if R is None:
            return None
        # the derived / hand-written PartialEq decides
        fs = [f for f in self.P.by_name.get("eq", []) if f.body and f.self_ty == k.ty and f.sig and len(f.sig[0]) == 2 and f.sig[0][0] == f.sig[0][1]]
        if len(fs) != 1:
            return R
        rt = fs[0].sig[0][0]
        outs, ab = self.run(s, fs[0], [mk("ref", (("v", a), ()), rt), mk("ref", (("v", b), ()), rt)])
        for s1, r in outs:
            r = self.I.boolval(s1, r) if isinstance(r, V) else r
            r = s1.cons.value(r) if isinstance(r, V) else r
            if r != 1:
                return R
        return None

    def eqs(self, s, a, b, path):
        if a is b or a == b:
            return None
        if isinstance(a, V) and isinstance(b, V):
            if a.ty == self.propsty and b.ty == self.propsty and self.noprops(s, a) and self.noprops(s, b):
                return None
            if a.ty is not None and a.ty == b.ty and self.P.types[a.ty].path.endswith("::ArcPayload"):
                try:
                    d = self.eqbytes(s, self.payload_view(s, a), self.payload_view(s, b))
                except (TypeError, AttributeError):
                    d = f"{show(a)[:120]} / {show(b)[:120]}"
                return d and f"{path}: {d}"
            if not self.struct(a) and not self.struct(b) and (M.is_seq(a) or M.is_seq(b) or a.k in ("vbib", "propb", "arg") or b.k in ("vbib", "propb")):
                try:
                    ea, eb = M.elems_of(a), M.elems_of(b)
                    if ea is not None and eb is not None and len(ea) == len(eb) and ea and not any(M.is_splice(x) for x in ea + eb):
                        for i, (x, y) in enumerate(zip(ea, eb)):
                            d = self.eqs(s, x, y, f"{path}[{i}]")
                            if d:
                                return d
                        return None
                    d = self.eqbytes(s, a, b)
                except (TypeError, AttributeError):
                    d = f"{show(a)} / {show(b)}"
                return d and f"{path}: {d}"
            if a.k == "agg" and b.k == "agg":
                if a.a[0] != b.a[0] or len(a.a[1]) != len(b.a[1]):
                    return f"{path}: {show(a)[:120]} / {show(b)[:120]}"
                t = self.P.types[a.ty] if a.ty is not None else None
                for i, (x, y) in enumerate(zip(a.a[1], b.a[1])):
                    nm = t.vs[a.a[0]][2][i][0] if t is not None and t.vs and i < len(t.vs[a.a[0]][2]) else str(i)
                    d = self.eqs(s, x, y, f"{path}.{nm}")
                    if d:
                        return d
                return None
            if a.k == "ref" and b.k == "ref":
                return self.eqs(s, M.rdd(self.I, s, a), M.rdd(self.I, s, b), path)
            if a.k == b.k == "vbi":
                return None if self.same(s, a.a[0], b.a[0]) else f"{path}: difference {show(sub(a.a[0], b.a[0]))[:200]}: {show(a)} / {show(b)}"
            if a.k == b.k == "props" or "efrom" in (a.k, b.k):
                da, db = self.I.discriminant(s, a, a.ty) if a.k != "props" else a, self.I.discriminant(s, b, b.ty) if b.k != "props" else b
                if da is db or a.k != "props" and self.numeq(s, da, db):
                    return None
                return f"{path}: {show(a)} / {show(b)}"
        try:
            if self.numeq(s, a, b):
                return None
        except (TypeError, AttributeError):
            pass
        return f"{path}: {show(a)[:150]} / {show(b)[:150]}"

    def struct(self, v):
        return v.k == "agg" and v.ty is not None and self.P.types[v.ty].k not in ("array", "slice")

    def payload_view(self, s, v):
        """bytes of an ArcPayload through its public accessor"""
        f = self.one("as_slice", "ArcPayload")
        outs, ab = self.run(s, f, [mk("ref", (("v", v), ()), f.sig[0][0])])
        for o in ab[:1]:
            self.bad("C02 C04 C05", f"ArcPayload::as_slice panics ({o.msg})", str(o), o.st)
        if len(outs) != 1:
            raise Undec("ArcPayload::as_slice")
        return M.rdd(self.I, s, outs[0][1])

    def one(self, name, self_has, **kw):
        fs = [f for f in self.P.find(name, self_has=self_has, **kw) if f.body and not f.trait]
        if len(fs) != 1:
            raise LookupError(f"{self_has}::{name}")
        return fs[0]

    # ------------------------------------------------------------ (A) parse
    def parse_unit(self, k):
        R = self.R
        f = k.fn("parse")
        R.units += 1
        oks = 0
        for fl in [None] if len(f.sig[0]) == 1 else range(16):
            st = State()
            W = mk("arg", ("W",), self.slty)
            st.cons.assume_le(mk("len", (W,), self.usz), (1 << 63) - 1)
            outs, ab = self.run(st, f, [mk("ref", (("v", W), ()), f.sig[0][0])] if fl is None else [fl, W])
            R.paths += len(outs) + len(ab)
            R.obligations += len(outs) + len(ab)
            for o in ab[:3]:
                self.bad("C04 C05", f"{k.name}: parse panics ({o.msg})", f"{k.name}::parse: {o}", o.st)
            for s, r in outs:
                if self.variant(r) != "Ok":
                    continue
                oks += 1
                if oks <= 3 or fl is None and oks <= 8:
                    self.check_traits(s, k, r.a[1][0].a[1][0])
                self.parse_ok(k, s, r, W, fl)
        if not oks:
            self.bad("C02 C03", f"{k.name}: parse accepts nothing", f"{k.name}::parse has no accepting path")
        return oks

    def parse_ok(self, k, s, r, W, fl=None):
        R = self.R
        self.rebuild(k, s, r.a[1][0].a[1][0])
        pkt, used = r.a[1][0].a[1]
        n = mk("len", (W,), self.usz)
        R.obligations += 2
        lo, hi = s.cons.bounds(sub(used, n))
        if hi > 0:
            s2 = s.fork()
            from framing import feasible
            if s2.cons.assume_ge(sub(used, n), 1) and feasible(s2.cons):
                self.bad("C04", f"{k.name}: parse claims to have consumed more than the input", f"consumed {show(used)} of {show(n)}", s2)
        for s1, h, body in self.check_ser(s, k, pkt, f"{k.name} accepted by parse"):
            outs, ab = self.doparse(s1, k, h, body)
            for o in ab[:2]:
                self.bad("C04 C05", f"{k.name}: parse of a re-serialised packet panics ({o.msg})", str(o), o.st)
            R.obligations += len(outs)
            for s2, r2 in outs:
                if not self.alive(s2):
                    continue
                if self.variant(r2) != "Ok":
                    self.bad("C04", f"{k.name}: serialisation of an accepted packet is rejected", f"{show(pkt)[:300]} serialises to {show(body)[:300]}, which parse rejects with {show(r2)[:100]}", s2)
                    continue
                pkt2, used2 = r2.a[1][0].a[1]
                d = self.eqval(s2, pkt, pkt2, k)
                if d:
                    self.bad("C04", f"{k.name}: re-parsing the serialisation of an accepted packet gives a different packet", d, s2)
                bl = M.seq_len(self.I, s2, body)
                if not self.same(s2, used2, bl):
                    self.bad("C04 C02", f"{k.name}: re-parsing the serialisation does not consume it", f"{show(used2)} of {show(bl)}", s2)

    def alive(self, s):
        from framing import feasible
        return feasible(s.cons) and self.recheck(s)


# ---------------------------------------------------------------- (B) builders
HEADER = {"Connect": 0x10, "Connack": 0x20, "Publish": 0x30, "Puback": 0x40, "Pubrec": 0x50, "Pubrel": 0x62, "Pubcomp": 0x70, "Subscribe": 0x82,
          "Suback": 0x90, "Unsubscribe": 0xA2, "Unsuback": 0xB0, "Pingreq": 0xC0, "Pingresp": 0xD0, "Disconnect": 0xE0, "Auth": 0xF0}

# setter -> type of its argument; the order is the order of the setter calls
_ACKV3 = [("packet_id", "id"), ("reason_code", "enum")]
_ACKV5 = [("packet_id", "id"), ("reason_code", "enum"), ("props", "props")]
FIELDS = {
    ("Connect", 0): [("client_id", "str"), ("clean_session", "bool"), ("keep_alive", "u16"), ("will_message", "will"), ("user_name", "str"), ("password", "bin")],
    ("Connect", 1): [("client_id", "str"), ("clean_start", "bool"), ("keep_alive", "u16"), ("will_message", "will"), ("user_name", "str"), ("password", "bin"),
                     ("props", "props"), ("will_props", "props")],
    ("Connack", 0): [("session_present", "bool"), ("return_code", "enum")],
    ("Connack", 1): [("session_present", "bool"), ("reason_code", "enum"), ("props", "props")],
    ("Publish", 0): [("topic_name", "str"), ("packet_id", "id"), ("qos", "qos"), ("retain", "bool"), ("dup", "bool"), ("payload", "payload")],
    ("Publish", 1): [("topic_name", "str"), ("packet_id", "id"), ("qos", "qos"), ("retain", "bool"), ("dup", "bool"), ("payload", "payload"), ("props", "props")],
    ("Subscribe", 0): [("packet_id", "id"), ("entries", "subs")],
    ("Subscribe", 1): [("packet_id", "id"), ("entries", "subs"), ("props", "props")],
    ("Suback", 0): [("packet_id", "id"), ("return_codes", "codes")],
    ("Suback", 1): [("packet_id", "id"), ("reason_codes", "codes"), ("props", "props")],
    ("Unsubscribe", 0): [("packet_id", "id"), ("entries", "filters")],
    ("Unsubscribe", 1): [("packet_id", "id"), ("entries", "filters"), ("props", "props")],
    ("Unsuback", 0): [("packet_id", "id")],
    ("Unsuback", 1): [("packet_id", "id"), ("reason_codes", "codes"), ("props", "props")],
    ("Disconnect", 0): [], ("Pingreq", 0): [], ("Pingresp", 0): [], ("Pingreq", 1): [], ("Pingresp", 1): [],
    ("Disconnect", 1): [("reason_code", "enum"), ("props", "props")],
    ("Auth", 1): [("reason_code", "enum"), ("props", "props")],
}
for _n in ("Puback", "Pubrec", "Pubrel", "Pubcomp"):
    FIELDS[(_n, 0)] = _ACKV3
    FIELDS[(_n, 1)] = _ACKV5
# accessors whose name is not that of the setter
DERIVED = {"Connect": ("will_flag", "will_topic", "will_payload", "will_qos", "will_retain", "user_name_flag", "password_flag", "protocol_name", "protocol_version")}


class Build(Pkt):
    def bfn(self, k, name, args=None):
        b = k.fn("builder").sig[1]
        fs = [f for f in self.P.by_name.get(name, []) if f.body and f.self_ty == b and not f.trait and f.sig]
        if args is not None:
            fs = [f for f in fs if len(f.sig[0]) == 1 + len(args)]
            if len(fs) > 1:
                fs = [f for f in fs if all(self.P.types[t].s == a for t, a in zip(f.sig[0][1:], args) if a)]
        if len(fs) != 1:
            raise LookupError(f"{k.name} builder: {name}")
        return fs[0]

    # -- symbolic argument values -----------------------------------------------------------------
    def strarg(self, n):
        return mk("arg", (n,), self.strt)

    def refstring(self, v):
        return mk("ref", (("v", v), ()), self.refstr)

    def ty_s(self, s):
        t = self.P.ty_by_s.get(s)
        return t.id if t is not None else None

    def qosty(self):
        return next(t.id for t in self.P.types if t.path.endswith("::Qos"))

    def choices(self, k, name, typ, tier):
        """abstract argument values for one setter; None: the setter is not called"""
        if typ in ("str", "bin", "payload"):
            return [None, (typ, self.strarg(name))]
        if typ == "u16":
            return [None, (typ, mk("arg", (name,), self.u16))]
        if typ == "id":
            f = self.bfn(k, name, [None])
            return [None, (typ, mk("arg", (name,), f.sig[0][1]))]
        if typ == "bool":
            return [None, (typ, mk("arg", (name,), self.I.bool_ty))]
        if typ == "enum":
            f = self.bfn(k, name, [None])
            return [None, (typ, mk("arg", (name,), f.sig[0][1]))]
        if typ == "qos":
            return [None] + [(typ, mk("agg", (i, ()), self.qosty())) for i in range(3)]
        if typ == "props":
            return [None, (typ, mk("props", (name,), self.propsty))]
        if typ == "will":
            r = mk("arg", ("will_retain",), self.I.bool_ty)
            return [None] + [(typ, (self.strarg("will_topic"), self.strarg("will_payload"), mk("agg", (i, ()), self.qosty()), r)) for i in range(3)]
        if typ == "codes":
            f = self.bfn(k, name, [None])
            et = self.P.types[self.P.types[f.sig[0][1]].args[0]].id
            return [None] + [(typ, tuple(mk("arg", (f"{name}{i}",), et) for i in range(n))) for n in range(self.entries + 1)]
        if typ == "filters":
            return [None] + [(typ, tuple(self.strarg(f"{name}{i}") for i in range(n))) for n in range(self.entries + 1)]
        if typ == "subs":
            full = [(q, nl, rap, rh) for q in range(3) for nl in (0, 1) for rap in (0, 1) for rh in range(3)]
            one = full if k.v5 else [(q, 0, 0, 0) for q in range(3)]
            out = [None, (typ, ())]
            out += [(typ, ((self.strarg("entries0"), o),)) for o in one]
            out += [(typ, tuple((self.strarg(f"entries{i}"), ((i + 1) % 3, i % 2 if k.v5 else 0, 0, (i + 1) % 3 if k.v5 else 0)) for i in range(n))) for n in range(2, self.entries + 1)]
            return out
        raise KeyError(typ)

    def long_combo(self, k, n):
        """one setting with a list of n elements and everything else set (lists longer than
        the exhaustively combined ones; entries share one topic filter)"""
        c = {}
        for f, t in FIELDS[(k.short, int(k.v5))]:
            c[f] = self.choices(k, f, t, "quick")[-1]
            if t == "filters":
                c[f] = (t, (self.strarg("filter"),) * n)
            if t == "subs":
                c[f] = (t, tuple((self.strarg("filter"), o) for _, o in c[f][1]))
        return c

    def combos(self, k, tier):
        fl = FIELDS[(k.short, int(k.v5))]
        ch = {n: self.choices(k, n, t, tier) for n, t in fl}
        out = [{}]
        for n, t in fl:
            opts = ch[n]
            if k.short == "Connect" and n in ("client_id",):
                opts = [None, opts[1]]
            out = [dict(c, **({n: v} if v is not None else {})) for c in out for v in opts]
        if k.short == "Connect":
            # the plain two-byte field and the one-bit flag are set together or not at all; no will properties without a will
            cl = fl[1][0]
            out = [c for c in out if (cl in c) == ("keep_alive" in c)]
            if tier == "quick":
                out = [c for c in out if ("client_id" in c) or len(c) <= 2]
        if k.short == "Subscribe":
            out = [c for c in out if len(c.get("entries", ("", ()))[1]) != 1 or ("packet_id" in c and (not k.v5 or "props" in c or c["entries"][1][0][1][1:] == (0, 0, 0)))]
        return out

    # -- running a builder ------------------------------------------------------------------------
    def limits(self, st, vals):
        for n, (t, v) in vals.items():
            if t == "payload":
                st.cons.assume_le(mk("len", (v,), self.usz), 200_000_000)
            if t == "props":
                st.cons.assume_le(self.psize(st, v), 30_000_000)

    def build(self, k, calls, st=None):
        """[(state, packet)] of the accepting paths of builder().a(..).b(..).build(), and the number of rejecting ones"""
        self.rejected = []
        given, st = st, st if st is not None else State()
        if given is None:
            self.limits(st, dict((f"{n}{i}", v) for i, (n, v) in enumerate(calls)))
        cur, ab = self.run(st, k.fn("builder"), [])
        rej = 0
        for name, val in calls:
            nxt = []
            for s, b in cur:
                for s1, args in self.args(s, k, name, val):
                    f = self.bfn(k, name, self.argty(val))
                    outs, ab = self.run(s1, f, [b] + args)
                    self.no_abn(k, name, ab)
                    for s2, r in outs:
                        t = self.P.types[r.ty] if isinstance(r, V) and r.ty is not None else None
                        if t is not None and t.path.endswith("result::Result"):
                            if self.variant(r) != "Ok":
                                rej += 1
                                self.rejected.append((s2, f"{name}: {show(r.a[1][0])}"))
                                continue
                            r = r.a[1][0]
                        nxt.append((s2, r))
            cur = nxt
        out = []
        for s, b in cur:
            outs, ab = self.run(s, self.bfn(k, "build", []), [b])
            self.no_abn(k, "build", ab)
            for s2, r in outs:
                if not self.alive(s2):
                    continue
                if self.variant(r) == "Ok":
                    out.append((s2, r.a[1][0]))
                else:
                    rej += 1
                    self.rejected.append((s2, f"build: {show(r.a[1][0])}"))
        return out, rej

    def argty(self, val):
        t, v = val
        return {"str": ["&str"], "bin": ["&str"], "payload": ["&str"], "will": [None] * 4}.get(t, [None])

    def args(self, s, k, name, val):
        t, v = val
        if t in ("str", "bin", "payload"):
            return [(s, [v if v.k == "ref" else self.refstring(v)])]
        if t == "will":
            return [(s, [x if x.k == "ref" else self.refstring(x) for x in v[:2]] + [v[2], v[3]])]
        if t == "codes":
            f = self.bfn(k, name, [None])
            return [(s, [M.mkvec(list(v), f.sig[0][1])])]
        if t == "filters":
            f = self.bfn(k, name, [None])
            return [(s, [M.mkvec([x if x.k == "ref" else self.refstring(x) for x in v], f.sig[0][1])])]
        if t == "subs":
            f = self.bfn(k, name, [None])
            cur = [(s, [])]
            for e in v:
                nxt = []
                for s1, es in cur:
                    if isinstance(e, V):
                        nxt.append((s1, es + [e]))
                        continue
                    for s2, x in self.subentry(s1, e):
                        nxt.append((s2, es + [x]))
                cur = nxt
            return [(s1, [M.mkvec(es, f.sig[0][1])]) for s1, es in cur]
        return [(s, [v])]

    def subentry(self, s, e):
        topic, (q, nl, rap, rh) = e
        own = "packet::sub_entry::SubOpts"
        sopt = self.P.ty_by_s.get("mqtt::" + own)
        pick = lambda n: next(f for f in self.P.by_name[n] if f.body and f.self_ty is not None and self.P.types[f.self_ty].path.endswith("::SubOpts") and not f.trait)
        rhf = pick("set_rh")
        (s, o), = self.run(s, pick("new"), [])[0]
        cur = [(s, o)]
        for n, a in (("set_qos", q if isinstance(q, V) else mk("agg", (q, ()), self.qosty())), ("set_nl", nl), ("set_rap", rap),
                     ("set_rh", rh if isinstance(rh, V) else mk("agg", (rh, ()), rhf.sig[0][1]))):
            cur = [x for s1, o in cur for x in self.run(s1, pick(n), [o, a])[0]]
        f = next(f for f in self.P.by_name["new"] if f.body and f.self_ty is not None and self.P.types[f.self_ty].path.endswith("::SubEntry") and self.P.types[f.sig[0][0]].s == "&str")
        outs, ab = [], []
        for s, o in cur:
            x, y = self.run(s, f, [topic if topic.k == "ref" else self.refstring(topic), o])
            outs, ab = outs + x, ab + y
        for x in ab[:1]:
            self.R.bad("C02 C04 C05", "SubEntry::new panics", str(x), self.path(x.st))
        return [(s1, r.a[1][0]) for s1, r in outs if self.variant(r) == "Ok"]

    # -- the independent layout -------------------------------------------------------------------
    def L_int(self, s, v, w):
        bits = self.I.tobits(s, v, 8 * w)
        return [self.I.frombits(s, bits[8 * i:8 * i + 8]) for i in range(w)]

    def L_bin(self, s, v):
        return self.L_int(s, M.seq_len(self.I, s, v), 2) + [mk("splice", (v,))]

    def L_props(self, s, v):
        if v is None:
            return [0]
        return [mk("splice", (self.vbibytes(s, self.psize(s, v)),)), mk("splice", (mk("propb", (v,), self.vecu8),))]

    def L_enum(self, s, v):
        return [self.I.discriminant(s, v, v.ty)]

    def layout(self, s, k, c, idw):
        """(header byte, body elements) the specification prescribes for the field values"""
        n, v5 = k.short, k.v5
        g = lambda x: c[x][1] if x in c else None
        h = HEADER[n]
        b = []
        pid = lambda: self.L_int(s, g("packet_id"), idw) if g("packet_id") is not None else []
        if n == "Auth" and g("reason_code") is not None and g("props") is None:
            return h, M.mkvec(self.L_enum(s, g("reason_code")) + [0], self.vecu8)
        if n == "Connect":
            clean = g("clean_start" if v5 else "clean_session")
            fl = (2 if clean is None else clean << 1)
            w = g("will_message")
            if w is not None:
                fl |= 4 | w[2].a[0] << 3 | w[3] << 5
            fl |= (0x80 if g("user_name") is not None else 0) | (0x40 if g("password") is not None else 0)
            b = [0, 4] + list(b"MQTT") + [5 if v5 else 4, fl] + self.L_int(s, g("keep_alive") if g("keep_alive") is not None else 0, 2)
            if v5:
                b += self.L_props(s, g("props"))
            b += self.L_bin(s, g("client_id")) if g("client_id") is not None else [0, 0]
            if w is not None:
                if v5:
                    b += self.L_props(s, g("will_props"))
                b += self.L_bin(s, w[0]) + self.L_bin(s, w[1])
            for x in ("user_name", "password"):
                if g(x) is not None:
                    b += self.L_bin(s, g(x))
        elif n == "Connack":
            b = [g("session_present") or 0] + self.L_enum(s, g("reason_code" if v5 else "return_code"))
            if v5:
                b += self.L_props(s, g("props"))
        elif n == "Publish":
            q = g("qos").a[0] if g("qos") is not None else 0
            h |= (g("dup") or 0) << 3 | q << 1 | (g("retain") or 0)
            b = self.L_bin(s, g("topic_name")) if g("topic_name") is not None else [0, 0]
            if q:
                b += pid()
            if v5:
                b += self.L_props(s, g("props"))
            if g("payload") is not None:
                b += [mk("splice", (g("payload"),))]
        elif n in ("Puback", "Pubrec", "Pubrel", "Pubcomp"):
            b = pid()
            if g("reason_code") is not None:
                b += self.L_enum(s, g("reason_code"))
            if g("props") is not None:
                b += self.L_props(s, g("props"))
        elif n in ("Disconnect", "Auth") and v5:
            if g("reason_code") is not None:
                b += self.L_enum(s, g("reason_code"))
            if g("props") is not None:
                b += self.L_props(s, g("props"))
        elif n == "Subscribe":
            b = pid() + (self.L_props(s, g("props")) if v5 else [])
            for t, (q, nl, rap, rh) in g("entries"):
                b += self.L_bin(s, t) + [q | nl << 2 | rap << 3 | rh << 4]
        elif n == "Unsubscribe":
            b = pid() + (self.L_props(s, g("props")) if v5 else [])
            for t in g("entries"):
                b += self.L_bin(s, t)
        elif n in ("Suback", "Unsuback"):
            b = pid() + (self.L_props(s, g("props")) if v5 else [])
            for e in g("return_codes") or g("reason_codes") or ():
                b += self.L_enum(s, e)
        return h, M.mkvec(b, self.vecu8)

    def split_bools(self, s, c):
        """resolve the boolean arguments: one state per truth value still possible"""
        out = [(s, dict(c))]
        for n, (t, v) in c.items():
            if t == "bool" or t == "will":
                nxt = []
                for s1, c1 in out:
                    x = v if t == "bool" else v[3]
                    for s2, o in self.I.branch_bool(s1, x):
                        c2 = dict(c1)
                        c2[n] = (t, int(o)) if t == "bool" else (t, v[:3] + (int(o),))
                        nxt.append((s2, c2))
                out = nxt
        return out

    # -- accessors --------------------------------------------------------------------------------
    def expected(self, k, c):
        """accessor -> expected value, ('?',) = unspecified"""
        out = {}
        for n, t in FIELDS[(k.short, int(k.v5))]:
            v = c.get(n)
            if t == "will":
                w = v[1] if v else None
                out["will_flag"] = ("bool", 1 if v else 0)
                out["will_topic"] = ("str", w[0]) if v else None
                out["will_payload"] = ("bin", w[1]) if v else None
                if v:
                    out["will_qos"] = ("enum", w[2])
                    out["will_retain"] = ("bool", w[3])
                continue
            if n == "will_props" and "will_message" not in c:
                continue
            if n in ("user_name", "password"):
                out[n + "_flag"] = ("bool", 1 if v else 0)
            if v is None:
                d = {("Connect", "client_id"): ("bytes", b""), ("Connect", "clean_session"): ("bool", 1), ("Connect", "clean_start"): ("bool", 1),
                     ("Connect", "keep_alive"): ("u16", 0), ("Connack", "session_present"): ("bool", 0), ("Publish", "qos"): ("u16", 0),
                     ("Publish", "retain"): ("bool", 0), ("Publish", "dup"): ("bool", 0), ("Publish", "payload"): ("bytes", b""),
                     ("Publish", "topic_name"): ("bytes", b"")}.get((k.short, n), "none")
                if n == "props" and k.short == "Auth" and "reason_code" in c:
                    d = ("noprops", None)
                if t == "props" and k.short in ("Connect", "Connack", "Publish", "Subscribe", "Suback", "Unsubscribe", "Unsuback"):
                    d = ("noprops", None)
                out[n] = None if d == "none" else d
            else:
                out[n] = v
        if k.short == "Connect":
            out["protocol_name"] = ("bytes", b"MQTT")
            out["protocol_version"] = ("u16", 5 if k.v5 else 4)
            if not k.v5:
                out["clean_start"] = out["clean_session"]
        if k.short == "Publish":
            q = out["qos"][1]
            q = q.a[0] if isinstance(q, V) else q
            if not q:
                out["packet_id"] = None
            out["qos"] = ("enum", mk("agg", (q, ()), self.qosty()))
            if k.v5:
                out["topic_name_extracted"] = ("bool", 0)
        return out

    def accessors(self, s, k, pkt, c, where, props):
        for n, exp in self.expected(k, c).items():
            try:
                f = k.fn(n, nargs=1)
            except LookupError:
                self.R.anchor(f"{k.name}: accessor {n}", props.split())
                continue
            outs, ab = self.run(s, f, [mk("ref", (("v", pkt), ()), f.sig[0][0])])
            self.no_abn(k, n, ab)
            self.R.obligations += 1
            for s1, r in outs:
                d = self.accdiff(s1, r, exp)
                if d:
                    self.bad(props, f"{k.name}: accessor {n}() {where}", f"expected {self.showexp(exp)}, {d}", s1)

    def showexp(self, e):
        return "nothing" if e is None else show(e[1]) if isinstance(e[1], V) else str(e[1])

    def accdiff(self, s, got, exp):
        if isinstance(got, V) and got.k == "ref" and got.ty is not None and self.P.types[self.P.types[got.ty].e].path.endswith("option::Option"):
            got = M.rd(self.I, s, got)
        if isinstance(got, V) and got.ty is not None and self.P.types[got.ty].path.endswith("option::Option"):
            if got.k != "agg":
                return "got " + show(got)
            if self.variant(got) == "None":
                return None if exp is None else "got None"
            if exp is None:
                return "got " + show(got)[:150]
            got = got.a[1][0]
        if exp is None:
            return "got " + show(got)[:150]
        t, v = exp
        if isinstance(v, bytes):
            v = mk("bytes", (v,), self.slty)
        if t in ("bool", "u16", "id"):
            got = self.I.boolval(s, got) if t == "bool" and isinstance(got, V) else got
            return None if self.numeq(s, s.cons.value(got) if isinstance(got, V) else got, v) else f"got {show(got)}"
        if t in ("enum", "qos"):
            a, b = self.I.discriminant(s, got, got.ty), self.I.discriminant(s, v, v.ty)
            if got.ty != v.ty:
                return "type " + self.P.types[got.ty].s
            return None if self.numeq(s, a, b) else f"got {show(got)}"
        g = M.rdd(self.I, s, got)
        if t in ("noprops", "props"):
            if t == "props":
                return None if g is v or g == v or self.noprops(s, g) and self.noprops(s, v) else f"got {show(g)[:150]}"
            es = M.elems_of(g)
            return None if es is not None and not es else f"got {show(g)[:150]}"
        if t in ("str", "bin", "payload", "bytes"):
            if isinstance(g, V) and g.ty is not None and self.P.types[g.ty].path.endswith("::ArcPayload"):
                f = self.one("as_slice", "ArcPayload")
                outs, ab = self.run(s, f, [mk("ref", (("v", g), ()), f.sig[0][0])])
                for o in ab[:1]:
                    return f"as_slice panics: {o}"
                for s1, r in outs:
                    d = self.eqbytes(s1, M.rdd(self.I, s1, r), v)
                    if d:
                        return "got " + d
                return None
            d = self.eqbytes(s, g, v)
            return d and "got " + d
        if t in ("codes", "filters", "subs"):
            es = M.elems_of(g)
            if es is None or len(es) != len(v):
                return "got " + show(g)[:150]
            for x, y in zip(es, v):
                if t == "codes":
                    d = self.accdiff(s, M.rdd(self.I, s, x), ("enum", y))
                    if d:
                        return d
                else:
                    x = M.rdd(self.I, s, x)
                    outs = self.entry_view(s, x)
                    for s1, tb, o in outs:
                        d = self.eqbytes(s1, tb, y if t == "filters" else y[0])
                        if d:
                            return "got filter " + d
                        if t == "subs" and (o is None or any(not self.numeq(s1, a, b) for a, b in zip(o, y[1]))):
                            return f"got options {[show(a) if isinstance(a, V) else a for a in o or ()]}"
            return None
        raise Undec("accessor type " + t)

    def entry_view(self, s, x, raw=False):
        """topic bytes and (qos, nl, rap, rh) of a SubEntry / MqttString value through its public accessors"""
        t = self.P.types[x.ty]
        own = "SubEntry" if t.path.endswith("::SubEntry") else "MqttString"
        pick = lambda o, n: next(f for f in self.P.by_name[n] if f.body and f.self_ty is not None and self.P.types[f.self_ty].path.endswith("::" + o) and not f.trait and len(f.sig[0]) == 1)
        f = pick(own, "topic_filter" if own == "SubEntry" else "as_str")
        out = []
        for s1, r in self.run(s, f, [mk("ref", (("v", x), ()), f.sig[0][0])])[0]:
            tb = M.rdd(self.I, s1, r)
            if own == "MqttString":
                out.append((s1, tb, None))
                continue
            f = pick("SubEntry", "sub_opts")
            for s2, o in self.run(s1, f, [mk("ref", (("v", x), ()), f.sig[0][0])])[0]:
                cur = [(s2, [])]
                for n in ("qos", "nl", "rap", "rh"):
                    g = pick("SubOpts", n)
                    nxt = []
                    for s3, vs in cur:
                        for s4, r in self.run(s3, g, [o])[0]:
                            if raw and n in ("qos", "rh"):
                                pass
                            elif n in ("qos", "rh"):
                                r = self.I.discriminant(s4, r, r.ty)
                            else:
                                r = self.I.boolval(s4, r) if isinstance(r, V) else r
                            nxt.append((s4, vs + [r]))
                    cur = nxt
                out += [(s3, tb, tuple(vs)) for s3, vs in cur]
        return out

    # -- (A) an accepted packet satisfies the rules of the builder ------------------------------------
    def rebuild(self, k, s, pkt):
        """builder().<every setter>(<same accessor of the accepted packet>).build() is Ok and gives the same packet"""
        R = self.R
        for s1, calls in self.field_calls(k, s, pkt):
            outs, rej = self.build(k, calls, s1)
            R.paths += len(outs)
            R.obligations += 1 + len(outs)
            for s2, e in self.rejected:
                if self.alive(s2):
                    self.bad("C04", f"{k.name}: parse accepts a packet the builder rejects ({e})", f"fields {'; '.join(f'{n}={self.showcall(v)}' for n, v in calls)[:400]}", s2)
            for s2, p2 in outs:
                d = self.eqval(s2, pkt, p2, k)
                if d and k.short == "Auth" and not any(n == "props" for n, _ in calls):
                    continue        # reason code without a property length; the builder adds the empty property list
                if d:
                    self.bad("C04", f"{k.name}: parse accepts a packet no builder produces", f"rebuilding it from its accessors differs at {d}", s2)

    def showcall(self, v):
        v = v[1]
        return show(v) if isinstance(v, V) else str(v) if not isinstance(v, tuple) else "(" + ", ".join(show(x) if isinstance(x, V) else str(x) for x in v) + ")"

    def get(self, s, k, pkt, n):
        """[(state, value or None)] of accessor n"""
        f = k.fn(n, nargs=1)
        outs, ab = self.run(s, f, [mk("ref", (("v", pkt), ()), f.sig[0][0])])
        self.no_abn(k, n, ab)
        res = []
        for s1, r in outs:
            if isinstance(r, V) and r.k == "ref" and r.ty is not None and self.P.types[self.P.types[r.ty].e].path.endswith("option::Option"):
                r = M.rd(self.I, s1, r)
            if isinstance(r, V) and r.ty is not None and self.P.types[r.ty].path.endswith("option::Option"):
                if r.k != "agg":
                    raise Undec(f"{k.name}::{n} returns {show(r)}")
                r = None if self.variant(r) == "None" else r.a[1][0]
            res.append((s1, r))
        return res

    def field_calls(self, k, s, pkt):
        cur = [(s, [])]
        will = 1
        for n, t in FIELDS[(k.short, int(k.v5))]:
            nxt = []
            for s1, calls in cur:
                if t == "will":
                    for s2, w in self.get(s1, k, pkt, "will_flag"):
                        for s3, o in self.I.branch_bool(s2, w):
                            if not o:
                                nxt.append((s3, calls))
                                continue
                            c2 = [(s3, [])]
                            for a in ("will_topic", "will_payload", "will_qos", "will_retain"):
                                c2 = [(s5, vs + [v]) for s4, vs in c2 for s5, v in self.get(s4, k, pkt, a)]
                            for s4, vs in c2:
                                if any(v is None for v in vs):
                                    self.bad("C04", f"{k.name}: accepted packet with will flag but no will", "will_flag() without " + str(vs), s4)
                                    continue
                                if isinstance(vs[3], V):
                                    vs[3] = self.I.boolval(s4, vs[3])
                                nxt.append((s4, calls + [(n, (t, tuple(vs)))]))
                    continue
                if n == "will_props" and not any(x == "will_message" for x, _ in calls):
                    nxt.append((s1, calls))
                    continue
                if k.short == "Publish" and n == "topic_name" and k.v5:
                    for s2, v in self.get(s1, k, pkt, n):
                        e = self.seqlen0(s2, M.rdd(self.I, s2, v))
                        nxt.append((s2, calls if e else calls + [(n, ("str", v))]))
                    continue
                for s2, v in self.get(s1, k, pkt, n):
                    if v is None:
                        nxt.append((s2, calls))
                        continue
                    nxt += [(s3, calls + [(n, (t, x))]) for s3, x in self.argval(s2, k, n, t, v)]
            cur = nxt
        return cur

    def seqlen0(self, s, v):
        return self.same(s, M.seq_len(self.I, s, v), 0)

    def argval(self, s, k, n, t, v):
        if t in ("codes", "filters", "subs"):
            es = M.elems_of(M.rdd(self.I, s, v))
            if es is None:
                raise Undec(f"{k.name}::{n} gives {show(v)}")
            cur = [(s, ())]
            for i, e in enumerate(es):
                nxt = []
                for s1, vs in cur:
                    if t == "codes":
                        nxt.append((s1, vs + (M.rdd(self.I, s1, e),)))
                    elif t == "filters":
                        for s2, tb, _ in self.entry_view(s1, M.rdd(self.I, s1, e)):
                            nxt.append((s2, vs + (self.refstring(tb),)))
                    else:
                        for s2, tb, o in self.entry_view(s1, M.rdd(self.I, s1, e), raw=True):
                            nxt.append((s2, vs + ((self.refstring(tb), o),)))
                            if i < len(es) - 1:
                                break       # every option byte for the last entry, one for those before it
                cur = nxt
            return cur
        if t == "props":
            return [(s, M.rdd(self.I, s, v))]
        if t == "payload":
            return [(s, self.refstring(self.payload_view(s, M.rdd(self.I, s, v))))]
        if t == "bool" and isinstance(v, V):
            return [(s, self.I.boolval(s, v))]
        if t in ("enum", "qos") and v.k == "ref":
            return [(s, M.rdd(self.I, s, v))]
        return [(s, v)]

    # -- a setter called twice: the later call wins -----------------------------------------------
    def alt(self, k, name, val):
        t, v = val
        if t in ("str", "bin", "payload"):
            return (t, self.strarg(name + "_old"))
        if t in ("u16", "id", "bool", "enum"):
            return (t, mk("arg", (name + "_old",), v.ty))
        if t == "qos":
            return (t, mk("agg", ((v.a[0] + 1) % 3, ()), v.ty))
        if t == "props":
            return (t, mk("props", (name + "_old",), v.ty))
        if t == "will":
            return (t, (self.strarg("will_topic_old"), self.strarg("will_payload_old"), mk("agg", ((v[2].a[0] + 1) % 3, ()), v[2].ty), mk("arg", ("will_retain_old",), self.I.bool_ty)))
        if t == "codes":
            f = self.bfn(k, name, [None])
            et = self.P.types[f.sig[0][1]].args[0]
            return (t, (mk("arg", (name + "_old",), et),))
        if t == "filters":
            return (t, (self.strarg(name + "_old"),))
        if t == "subs":
            return (t, ((self.strarg(name + "_old"), (1, 0, 0, 0)),))
        raise KeyError(t)

    def twice_unit(self, k):
        """one full combination per kind (and per will / publish QoS), every setter called twice in turn"""
        n = 0
        cs = self.combos(k, "quick")
        full = max((len(c) for c in cs), default=0)
        seen = set()
        for c in cs:
            key = tuple(v[1].a[0] if v[0] == "qos" else v[1][2].a[0] if v[0] == "will" else len(v[1]) if v[0] in ("subs", "codes", "filters") else None for v in c.values())
            if len(c) < full or key in seen:
                continue
            seen.add(key)
            for name, val in c.items():
                n += self.build_unit(k, c, twice=(name, self.alt(k, name, val)))
        return n

    # -- one combination --------------------------------------------------------------------------
    def build_unit(self, k, c, order="fwd", twice=None):
        """calls: every setter of combination c; -> number of accepted paths"""
        R = self.R
        self.I.nstates = 0
        calls = list(c.items())
        if order == "rev":
            calls.reverse()
        if twice is not None:
            n, v = twice
            calls.insert(0, (n, v))
        label = f"{k.name} built with {', '.join(n for n, _ in calls) or 'no setter'}"
        R.units += 1
        outs, rej = self.build(k, calls)
        R.paths += len(outs) + rej
        idw = 4 if "u32" in k.name else 2
        for s0, pkt in outs:
            for s, cv in self.split_bools(s0, c):
                try:
                    h, body = self.layout(s, k, cv, idw)
                except (TypeError, AttributeError, KeyError) as e:
                    self.bad("C03 C02", f"{k.name}: the builder accepts a packet without a mandatory field", f"{label}: {e}", s)
                    continue
                self.check_built(k, s, pkt, cv, h, body, label)
        return len(outs)

    def check_built(self, k, s, pkt, c, h, body, label):
        R = self.R
        self.accessors(s, k, pkt, c, "of a built packet does not return the value set", "C03")
        for s1, h1, body1 in self.check_ser(s, k, pkt, label):
            R.obligations += 2
            d = None
            if not self.numeq(s1, h1, h):
                d = f"first byte {show(h1)}, specification {show(h)}"
            d2 = self.eqbytes(s1, body1, body)
            if d or d2:
                self.bad("C03", f"{k.name}: serialisation differs from the specification layout", f"{label}: {d or ''} {'body (got / specified) ' + d2 if d2 else ''}", s1)
            for hh, bb, tag, props in ((h1, body1, "its own serialisation", "C02 C04"), (h, body, "the specification encoding", "C03 C02")):
                if tag.startswith("the") is False and not (d or d2):
                    continue        # identical to the specification encoding, which is parsed below
                outs, ab = self.doparse(s1, k, hh, bb)
                for o in ab[:2]:
                    self.bad("C04 C05", f"{k.name}: parse of {tag} panics ({o.msg})", f"{label}: {o}", o.st)
                for s2, r in outs:
                    R.paths += 1
                    R.obligations += 3
                    if self.variant(r) != "Ok":
                        if self.alive(s2):
                            self.bad(props, f"{k.name}: parse rejects {tag} of a buildable packet", f"{label}: {show(bb)[:300]} -> {show(r)[:100]}", s2)
                        continue
                    p2, used = r.a[1][0].a[1]
                    if not self.same(s2, used, M.seq_len(self.I, s2, bb)):
                        self.bad(props, f"{k.name}: parse does not consume exactly the body", f"{label}: consumed {show(used)}", s2)
                    e = self.eqval(s2, pkt, p2, k)
                    if e:
                        self.bad("C02", f"{k.name}: parsing the bytes of a built packet gives a different packet", f"{label}: {e}", s2)
                    self.accessors(s2, k, p2, c, "of the parsed packet differs from the encoded value", "C03")
