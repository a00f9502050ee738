"""Reference-specification conformance.

Every summary (path condition, ordered events, post-state) the abstract
interpreter derives from the connection's MIR is compared with a reference
transfer function (oracle.py).  The reference asks questions about the
pre-state; a question the path condition does not settle is split and both
answers must agree with the code."""
import terms, models
from terms import V, mk, add, sub
from models import EMPTY


class Infeasible(Exception):
    pass


class Missing(Exception):
    """the code never does what the reference needs on this path"""


class Undecided(Exception):
    pass


class SState:
    """constraint-only state used to run the reference on a path condition"""
    __slots__ = ("cons", "cnt")

    def __init__(self, cons, cnt=0):
        self.cons = cons
        self.cnt = cnt

    def fork(self):
        return SState(self.cons.copy(), self.cnt)

    def fresh(self, tag, ty=None):
        self.cnt += 1
        return mk("sfresh", (tag, self.cnt), ty)


def explore(cons, fn, limit=4000):
    """run fn(Ctx) under every consistent assignment of its questions"""
    work = [()]
    n = 0
    while work:
        script = work.pop()
        n += 1
        if n > limit:
            raise Undecided("question splitting")
        q = Q(SState(cons.copy()), script)
        try:
            r = fn(q)
        except Infeasible:
            r = None
        for i in range(len(script), len(q.dec)):
            if q.alt[i]:
                work.append(tuple(q.dec[:i]) + (1 - q.dec[i],))
        if r is not None:
            yield q, r


class Q:
    def __init__(self, st, script):
        self.st = st
        self.script = script
        self.dec = []
        self.alt = []
        self.asked = []


class SSet:
    """set value: base term and ordered updates"""
    __slots__ = ("base", "ops")

    def __init__(self, base, ops=()):
        self.base, self.ops = base, tuple(ops)


class SMap(SSet):
    __slots__ = ()


class Sp:
    """one run of the reference: pre-state access, questions, events, post-state"""

    def __init__(self, C, q):
        self.C = C
        self.I = C.I
        self.P = C.P
        self.q = q
        self.st = q.st
        self.f = {}
        self.ev = []
        self.dc = set()
        self.quirks = set()
        self.notes = set()
        self.ends = []
        self.reps = C.I.reps

    # --------------------------------------------------------------- questions
    def ask(self, t):
        I, st, q = self.I, self.st, self.q
        t = I.boolval(st, t)
        if isinstance(t, int):
            return bool(t)
        i = len(q.dec)
        if i < len(q.script):
            v = q.script[i]
            q.dec.append(v)
            q.alt.append(False)
            if not st.cons.assume_eq(t, v):
                raise Infeasible
            q.asked.append((t, v))
            return bool(v)
        c1 = st.cons.copy()
        ok1 = c1.assume_eq(t, 1)
        ok0 = st.cons.assume_eq(t, 0) if not ok1 else None
        if ok1:
            c0 = st.cons
            save = c0.copy()
            alt = c0.assume_eq(t, 0)
            st.cons = c1
            q.dec.append(1)
            q.alt.append(alt)
            q.asked.append((t, 1))
            return True
        if not ok0:
            raise Infeasible
        q.dec.append(0)
        q.alt.append(False)
        q.asked.append((t, 0))
        return False

    def assume(self, t, v=1):
        t = self.I.boolval(self.st, t)
        if isinstance(t, int):
            if t != v:
                raise Infeasible
            return
        if not self.st.cons.assume_eq(t, v):
            raise Infeasible

    def eq(self, a, b):
        return self.ask(models.eq_terms(self.I, self.st, a, b))

    def cmp(self, op, a, b):
        return self.ask(self.I.cmp(self.st, op, a, b))

    def truth(self, t):
        """boolean-typed term"""
        if isinstance(t, int):
            return bool(t)
        return self.ask(t)

    # ------------------------------------------------------------------ values
    def sym(self, name):
        return self.C.sym(name)

    def get(self, name):
        if name in self.f:
            return self.f[name]
        return self.C.init.get(name, None) if self.C.init.get(name) is not None else self.sym(name)

    def set(self, name, v):
        self.f[name] = v

    def variant(self, v):
        """variant name of an enum value"""
        I, st = self.I, self.st
        if isinstance(v, V) and v.k == "agg":
            return self.P.types[v.ty].vs[v.a[0]][0]
        t = self.P.types[v.ty]
        d = I.discriminant(st, v, v.ty)
        for vs in t.vs[:-1]:
            if self.ask(I.cmp(st, "Eq", d, vs[1])):
                return vs[0]
        vs = t.vs[-1]
        if isinstance(d, V):
            self.assume(I.cmp(st, "Eq", d, vs[1]))
        return vs[0]

    def is_var(self, v, name):
        if isinstance(v, V) and v.k == "agg":
            return self.P.types[v.ty].vs[v.a[0]][0] == name
        t = self.P.types[v.ty]
        i = t.variant_index(name)
        if i is None:
            raise LookupError(f"anchor variant {t.s}::{name}")
        return self.ask(self.I.cmp(self.st, "Eq", self.I.discriminant(self.st, v, v.ty), t.vs[i][1]))

    def payload(self, v, name=None, i=0):
        """field i of the (established) variant of v"""
        if isinstance(v, V) and v.k == "agg":
            return v.a[1][i]
        t = self.P.types[v.ty]
        vi = t.variant_index(name)
        return self.I.project(self.st, mk("dc", (v, vi), v.ty), ("f", i, t.vs[vi][2][i][1]))

    def opt(self, v):
        """payload of an Option, or None"""
        if v is None:
            return None
        if isinstance(v, tuple) and v and v[0] == "some":
            return v[1]
        if self.is_var(v, "Some"):
            return self.payload(v, "Some")
        return None

    def acc(self, p, n):
        """accessor n of packet object p (same term the summaries use)"""
        if n == "size":
            t = mk("call", ("size", self.C.size_key(p)), self.I.usize_ty)
        else:
            t = mk("call", (n, p), self.C.acc_type(p, n))
        if n == "size":
            self.assume(self.I.cmp(self.st, "Ge", t, 2))
            self.assume(self.I.cmp(self.st, "Le", t, 268435460))
        if n in ("packet_id",):
            self.assume(self.I.cmp(self.st, "Ge", t, 1))
        return t

    def pid(self, p):
        """packet identifier of p (PUBLISH: only when QoS > 0)"""
        t = mk("call", ("packet_id", p), self.C.pidty)
        self.assume(self.I.cmp(self.st, "Ge", t, 1))
        return t

    def qos(self, p):
        """0, 1 or 2"""
        d = self.I.discriminant(self.st, self.C.qos_term(self.st, p), self.C.qos_term(self.st, p).ty)
        if self.ask(self.I.cmp(self.st, "Eq", d, 0)):
            return 0
        if self.ask(self.I.cmp(self.st, "Eq", d, 1)):
            return 1
        self.assume(self.I.cmp(self.st, "Eq", d, 2))
        return 2

    # ------------------------------------------------------------- collections
    def member(self, s, t):
        i = len(s.ops) - 1
        while i >= 0:
            op = s.ops[i]
            if self.eq(op[1], t):
                return op[0] in ("+", "=")
            i -= 1
        b = s.base
        if isinstance(b, V) and b.k == "empty":
            return False
        if isinstance(t, V) and t.k == "elem" and t.a[0] is b:
            return True
        a = mk("in", (b, t), self.I.bool_ty)
        r = self.C.in_hook(self.st, b, t, a)
        if r is not None:
            if isinstance(r, int):
                v = self.st.cons.value(a)
                if isinstance(v, int) and v != r:
                    raise Infeasible
            a = r
        return self.ask(a)

    def gset(self, name):
        v = self.get(name)
        if isinstance(v, SSet):
            return v
        return self.C.unwrap_set(v)

    def gmap(self, name):
        v = self.get(name)
        if isinstance(v, SMap):
            return v
        return self.C.unwrap_map(v)

    def ins(self, name, t):
        s = self.gset(name)
        self.f[name] = SSet(s.base, s.ops + (("+", t),))

    def rem(self, name, t):
        s = self.gset(name)
        self.f[name] = SSet(s.base, s.ops + (("-", t),))

    def clear(self, name):
        self.f[name] = SSet(EMPTY)

    def has(self, name, t):
        return self.member(self.gmap(name) if name in self.C.MAPF else self.gset(name), t)

    def tuple_field(self, v, i):
        t = self.P.types[v.ty]
        return self.I.project(self.st, v, ("f", i, t.es[i]))

    def elems(self, base, ety=None, what=None, full=False):
        """representative elements of a symbolic collection"""
        if what == "seq" and ety is None:
            ety = self.C.seq_ety(base)
        if isinstance(base, V) and base.k == "empty":
            return []
        ln = models.coll_len(self.I, self.st, base)
        out = []
        for n in range(self.reps):
            if self.ask(self.I.cmp(self.st, "Eq", ln, n)):
                return out
            self.assume(self.I.cmp(self.st, "Ge", ln, n + 1))
            if what == "seq":
                out.append(models.index_value(self.I, self.st, base, n, ety))
            else:
                t = mk("elem", (base, n), ety)
                f = self.C.base_field(base)
                if f in self.C.PIDF or f == "store":
                    self.assume(self.I.cmp(self.st, "Ge", t, 1))
                out.append(t)
        if what != "seq" or full:
            self.ends.append(base)
        return out

    # ------------------------------------------------------------------ events
    def send(self, pk, rel=None):
        self.ev.append(("send", pk, rel))

    def recvd(self, variant, p):
        self.ev.append(("recv", variant, p))

    def rel(self, t):
        self.ev.append(("rel", t))

    def err(self, code=None):
        self.ev.append(("err", code))

    def note(self, *n):
        self.notes.update(n)

    def close(self):
        self.ev.append(("close",))

    def tset(self, kind, ms):
        self.ev.append(("tset", kind, ms))

    def tcancel(self, kind):
        self.ev.append(("tcancel", kind))

    def quirk(self, qid):
        """documented deviation (known finding) requested for this run?"""
        if qid in self.C.quirks:
            self.quirks.add(qid)
            return True
        return False


# ---------------------------------------------------------------- code events
def norm_events(C, I, v):
    """event list of the code as tuples; None if it is not a concrete list"""
    if not (isinstance(v, V) and v.k in ("vec",)):
        es = models.elems_of(v) if isinstance(v, V) else None
        if es is None:
            return None
    else:
        es = v.a[0]
    out = []
    for e in es:
        if models.is_splice(e) or not (isinstance(e, V) and e.k == "agg"):
            return None
        t = C.P.types[e.ty]
        n = t.vs[e.a[0]][0]
        fs = e.a[1]
        if n == "RequestSendPacket":
            out.append(("send", fs[0], fs[1]))
        elif n == "NotifyPacketReceived":
            out.append(("recv", fs[0]))
        elif n == "NotifyPacketIdReleased":
            out.append(("rel", fs[0]))
        elif n == "NotifyError":
            out.append(("err", fs[0]))
        elif n == "RequestClose":
            out.append(("close",))
        elif n == "RequestTimerReset":
            out.append(("tset", vname(C, fs[0]), fs[1]))
        elif n == "RequestTimerCancel":
            out.append(("tcancel", vname(C, fs[0])))
        else:
            out.append((n,))
    return out


def vname(C, v):
    if isinstance(v, V) and v.k == "agg" and v.ty is not None:
        return C.P.types[v.ty].vs[v.a[0]][0]
    return terms.show(v)


def untyped(v):
    return v


def strip_ver(n):
    for p in ("V3_1_1", "V5_0"):
        if n.startswith(p):
            return p, n[len(p):]
    return "", n


def packet_of(C, v):
    """(variant name, packet term) of a GenericPacket / GenericStorePacket value"""
    if isinstance(v, V) and v.k == "agg":
        return C.P.types[v.ty].vs[v.a[0]][0], v.a[1][0]
    return None, v


PUBM = {"set_dup", "remove_topic_alias", "remove_topic_alias_add_topic", "remove_topic_add_topic_alias",
        "add_topic_alias", "add_extracted_topic_name"}


def strip_result(v):
    """payload projection of a fallible packet transformation"""
    if isinstance(v, V) and v.k in ("vf",) and isinstance(v.a[0], V) and v.a[0].k == "call" and v.a[0].a[0] in PUBM:
        return v.a[0]
    return v


def pub_view(v):
    """PUBLISH transformation chain -> (base packet, dup override, topic override, alias override)
    topic: None = as in base, ("is", t) ; alias: None = as in base, ("none",), ("is", n)"""
    chain = []
    v = strip_result(v)
    while isinstance(v, V) and v.k == "call" and v.a[0] in PUBM:
        chain.append(v)
        v = strip_result(v.a[1])
    dup = topic = alias = None
    for c in reversed(chain):
        n = c.a[0]
        if n == "set_dup":
            dup = c.a[2]
        elif n == "remove_topic_alias":
            alias = ("none",)
        elif n == "remove_topic_alias_add_topic":
            alias = ("none",)
            topic = ("is", c.a[2])
        elif n == "remove_topic_add_topic_alias":
            topic = ("empty",)
            alias = ("is", c.a[2])
        elif n == "add_topic_alias":
            alias = ("is", c.a[2])
        elif n == "add_extracted_topic_name":
            topic = ("extracted", c.a[2])
    return v, dup, topic, alias


# ------------------------------------------------------------------ comparison
class Cmp:
    def __init__(self, sp, code_ev, code_st):
        self.sp = sp
        self.C = sp.C
        self.code_ev = code_ev
        self.cst = code_st
        self.bad = []

    def miss(self, aspect, text):
        self.bad.append((aspect, text))

    def val_eq(self, a, b, d=0):
        """are the two values equal under the path condition (asking if unclear)"""
        sp = self.sp
        if a is b:
            return True
        if isinstance(b, tuple):  # reference-side descriptors
            if b[0] == "some":
                if isinstance(a, V) and a.k == "agg":
                    return vname(self.C, a) == "Some" and self.val_eq(a.a[1][0], b[1], d + 1)
                p = sp.opt(a) if isinstance(a, V) else None
                return p is not None and self.val_eq(p, b[1], d + 1)
            if b[0] == "none":
                if isinstance(a, V) and a.k == "agg":
                    return vname(self.C, a) == "None"
                return isinstance(a, V) and sp.opt(a) is None
            if b[0] == "enum":
                if isinstance(a, V) and a.k == "agg":
                    return vname(self.C, a) == b[1]
                return isinstance(a, V) and a.ty is not None and sp.is_var(a, b[1])
            if b[0] == "nolimit":
                return sp.cmp("Ge", a, 268435460)
            if b[0] == "any":
                return True
            if b[0] == "notenum":
                if isinstance(a, V) and a.k == "agg":
                    return vname(self.C, a) != b[1]
                return isinstance(a, V) and a.ty is not None and not sp.is_var(a, b[1])
            return False
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, V) and isinstance(b, V):
            if a.k == "agg" and b.k == "agg" and a.ty == b.ty:
                return a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]) and all(self.val_eq(x, y, d + 1) for x, y in zip(a.a[1], b.a[1]))
            ty = a.ty if a.ty is not None else b.ty
            t = self.C.P.types[ty] if ty is not None else None
            if is_bool(self.C, a) and is_bool(self.C, b):
                return sp.truth(a) == sp.truth(b)
            if t is not None and t.k == "enum" and d < 4:
                va = sp.variant(a) if a.ty is not None else None
                vb = sp.variant(b) if b.ty is not None else None
                if va != vb:
                    return False
                vi = t.variant_index(va)
                for i in range(len(t.vs[vi][2])):
                    if not self.val_eq(sp.payload(a, va, i), sp.payload(b, va, i), d + 1):
                        return False
                return True
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int) and y in (0, 1) and isinstance(x, V) and is_bool(self.C, x):
                return sp.truth(x) == bool(y)
        try:
            return sp.eq(a, b)
        except Exception as e:
            if isinstance(e, (Infeasible, Undecided)):
                raise
            return False

    # --- packets
    def packet(self, code, ref):
        """code: GenericPacket term; ref: reference descriptor"""
        k = ref[0]
        n, p = packet_of(self.C, code)
        if n is None and isinstance(code, V) and code.ty is not None and self.C.P.types[code.ty].k == "enum":
            if not self.sp.is_var(code, ref[1]):
                return f"packet {terms.show(code)}, expected {ref[1]}"
            n, p = ref[1], self.sp.payload(code, ref[1])
        if n is None:
            # opaque conversion of a stored packet
            return f"unresolved packet {terms.show(code)}"
        if n != ref[1]:
            return f"packet kind {n}, expected {ref[1]}"
        if k == "same":
            if p is ref[2]:
                return None
            if "Publish" in n:
                return self.pub(p, ("pub", n, ref[2], None, None, None))
            return None if self.val_eq(p, ref[2]) else f"packet {terms.show(p)}, expected {terms.show(ref[2])}"
        if k == "pub":
            return self.pub(p, ref)
        if k == "built":
            if not (isinstance(p, V) and p.k == "pkt"):
                return f"packet {terms.show(p)}, expected a new {ref[1]}"
            have = {f[0]: (f[1] if len(f) > 1 else None) for f in p.a[2]}
            for fn, fv in ref[2].items():
                if fn not in have:
                    if fv == ("enum?",):
                        continue
                    return f"{ref[1]} without {fn}"
                if not self.val_eq(have[fn], fv):
                    return f"{ref[1]}.{fn} = {terms.show(have[fn])}, expected {show_ref(fv)}"
            for fn in have:
                if fn not in ref[2]:
                    return f"{ref[1]} with unexpected {fn} = {terms.show(have[fn])}"
            return None
        return "?"

    def pub(self, p, ref):
        base, dup, topic, alias = pub_view(p)
        _, n, rbase, rdup, rtopic, ralias = ref
        if base is not rbase:
            if not self.val_eq(base, rbase):
                return f"PUBLISH {terms.show(base)}, expected {terms.show(rbase)}"
        if rdup is not None:
            if dup is None or not self.val_eq(dup, rdup):
                return f"DUP {terms.show(dup) if dup is not None else 'unchanged'}, expected {rdup}"
        elif dup is not None:
            return "DUP changed"

        def same(c, r, what):
            if r is None:
                if c is not None:
                    return f"{what} changed to {c[0]} {terms.show(c[1]) if len(c) > 1 else ''}"
                return None
            if r[0] == "any":
                return None
            if c is None:
                return f"{what} unchanged, expected {show_ref(r)}"
            if c[0] != r[0] and not {c[0], r[0]} <= {"is", "extracted"}:
                return f"{what} {c[0]}, expected {show_ref(r)}"
            if len(r) > 1:
                a = terms_strip(c[1])
                b = terms_strip(r[1])
                if a is not b and not self.val_eq(a, b):
                    return f"{what} = {terms.show(c[1])}, expected {terms.show(r[1])}"
            return None
        if ralias == ("none",) and alias is None:
            # removing an alias that is not there
            if not self.sp.C.no_alias(self.sp, rbase):
                return "topic alias kept"
        else:
            r = same(alias, ralias, "topic alias")
            if r:
                return r
        return same(topic, rtopic, "topic")

    # --- events
    def events(self):
        sp, ce, se = self.sp, self.code_ev, self.sp.ev
        C = self.C
        cs = [e for e in ce if e[0] == "send"]
        ss = [e for e in se if e[0] == "send"]
        for i in range(max(len(cs), len(ss))):
            if i >= len(cs):
                self.miss("send", f"missing RequestSendPacket({show_ref(ss[i][1])})")
            elif i >= len(ss):
                self.miss("send", f"unexpected RequestSendPacket({terms.show(cs[i][1])})")
            else:
                r = self.packet(cs[i][1], ss[i][1])
                if r:
                    self.miss("send", r)
                rr = ss[i][2]
                if not self.val_eq(cs[i][2], ("none",) if rr is None else rr if isinstance(rr, tuple) else ("some", rr)):
                    self.miss("relerr", f"release_packet_id_if_send_error = {terms.show(cs[i][2])}, expected {show_ref(rr)}")
        # close
        cc = [i for i, e in enumerate(ce) if e[0] == "close"]
        sc = [e for e in se if e[0] == "close"]
        if bool(cc) != bool(sc):
            self.miss("close", "missing RequestClose" if sc else "unexpected RequestClose")
        if cc and any(i > cc[0] for i, e in enumerate(ce) if e[0] == "send"):
            self.miss("closeorder", "RequestClose precedes RequestSendPacket")
        # received
        cr = [e for e in ce if e[0] == "recv"]
        sr = [e for e in se if e[0] == "recv"]
        for i in range(max(len(cr), len(sr))):
            if i >= len(cr):
                self.miss("recv", f"packet not notified ({sr[i][1]})")
            elif i >= len(sr):
                self.miss("recv", f"unexpected NotifyPacketReceived({terms.show(cr[i][1])})")
            else:
                ref = sr[i][2] if isinstance(sr[i][2], tuple) else ("same", sr[i][1], sr[i][2])
                r = self.packet(cr[i][1], ref)
                if r:
                    self.miss("recv", r)
        # released ids (multiset)
        cl = [e[1] for e in ce if e[0] == "rel"]
        sl = [e[1] for e in se if e[0] == "rel"]
        for t in sl:
            for j, u in enumerate(cl):
                if self.val_eq(u, t):
                    del cl[j]
                    break
            else:
                self.miss("rel", f"identifier {terms.show(t)} not announced as released")
        for u in cl:
            self.miss("rel", f"unexpected NotifyPacketIdReleased({terms.show(u)})")
        # errors
        cerr = [e[1] for e in ce if e[0] == "err"]
        serr = [e[1] for e in se if e[0] == "err"]
        if bool(cerr) != bool(serr):
            self.miss("err", "no NotifyError" if serr else f"unexpected NotifyError({terms.show(cerr[0])})")
        else:
            for code in serr:
                if code is None:
                    continue
                if isinstance(code, str):
                    if not any(vname(C, e) == code for e in cerr):
                        self.miss("err", f"NotifyError({', '.join(terms.show(e) for e in cerr)}), expected {code}")
        # timers
        for kind, flag in (("PingreqSend", "pingreq_send_set"), ("PingreqRecv", "pingreq_recv_set"), ("PingrespRecv", "pingresp_recv_set")):
            seq = [e for e in ce if e[0] in ("tset", "tcancel") and e[1] == kind]
            ref = [e for e in se if e[0] in ("tset", "tcancel") and e[1] == kind]
            if ("timer", kind) in sp.dc:
                continue
            armed = None
            for e in seq:
                if e[0] == "tcancel":
                    if armed is None:
                        armed = sp.truth(C.init.get(flag, sp.sym(flag)))
                        if sp.C.timer_fired == kind:
                            armed = False
                    if not armed:
                        self.miss("timer", f"RequestTimerCancel({kind}) while it is not armed")
                    armed = False
                else:
                    armed = True
            a, b = (seq[-1] if seq else None), (ref[-1] if ref else None)
            if a is None and b is None:
                continue
            if a is None:
                self.miss("timer", f"missing {b[0]} {kind}")
            elif b is None:
                self.miss("timer", f"unexpected {a[0]} {kind}")
            elif a[0] != b[0]:
                self.miss("timer", f"{a[0]} {kind}, expected {b[0]}")
            elif a[0] == "tset" and not self.val_eq(a[2], b[2]):
                self.miss("timer", f"{kind} armed with {terms.show(a[2])}, expected {terms.show(b[2])}")
        for e in ce:
            if e[0] not in ("send", "close", "recv", "rel", "err", "tset", "tcancel"):
                self.miss("event", f"unexpected event {e[0]}")

    # --- post-state
    def fields(self):
        sp, C = self.sp, self.C
        for name in C.fields:
            if name in sp.dc or name == "_marker":
                continue
            code = C.post(self.cst, name)
            ref = sp.f.get(name)
            if ref is None:
                init = C.init.get(name)
                if init is None:
                    init = sp.sym(name)
                if code is init:
                    continue
                ref = init
                if name in C.SETF:
                    ref = C.unwrap_set(init)
                elif name in C.MAPF:
                    ref = C.unwrap_map(init)
            if isinstance(ref, V) and name.startswith("topic_alias_") and isinstance(code, V) and code.k == "agg" \
                    and vname(C, code) == "Some" and isinstance(code.a[1][0], V) and code.a[1][0].k == "tal":
                t = sp.opt(ref)
                if t is not None:
                    ref = ("tal", ref, C.tas_parts(sp.I, sp.st, t)[0], [])
            if isinstance(ref, SMap):
                self.map_cmp(name, code, ref)
            elif isinstance(ref, SSet):
                self.set_cmp(name, code, ref)
            elif isinstance(ref, tuple) and ref[0] == "tal":
                self.tal_cmp(name, code, ref)
            elif isinstance(ref, tuple) and ref[0] == "frame":
                self.frame_cmp(name, code, ref)
            else:
                if not self.val_eq(code, ref):
                    self.miss("f:" + name, f"{name} = {terms.show(code)}, expected {show_ref(ref)}")

    def invariants(self):
        """the assumptions made about the pre-state hold in the post-state"""
        sp, C = self.sp, self.C
        if sp.is_var(C.post(self.cst, "protocol_version"), "Undetermined"):
            if not sp.is_var(C.post(self.cst, "status"), "Disconnected"):
                self.miss("inv", "leaves the disconnected state with an undetermined protocol version")
            for n in ("pingreq_send_set", "pingreq_recv_set", "pingresp_recv_set"):
                if C.post(self.cst, n) != 0:
                    self.miss("inv", f"{n} with an undetermined protocol version")
        if "pid_man" in sp.dc:
            return
        tr = [f for f in C.PIDF if f in C.fields]
        sets = {}
        for f in tr + ["pid_man", "store"]:
            v = C.post(self.cst, f)
            sets[f] = C.unwrap_map(v) if f == "store" else C.unwrap_set(v)
            if sets[f] is None:
                self.miss("inv", f"{f}: unrecognised value")
                return
        man = sets["pid_man"]
        if man.base is not C.base_of("pid_man"):
            for f in tr + ["store"]:
                if sets[f].base is C.base_of(f):
                    ln = mk("len", (sets[f].base,), C.I.usize_ty)
                    if f not in ("pid_suback", "pid_unsuback") and not sp.ask(sp.I.cmp(sp.st, "Eq", ln, 0)):
                        self.miss("inv", f"identifiers reset while {f} keeps its entries")
        for f in tr + ["store"]:
            for op in sets[f].ops:
                t = op[1]
                if op[0] == "-":
                    if f in ("pid_puback", "pid_pubrec", "pid_pubcomp") and sp.member(sets["store"], t) and \
                            not any(sp.member(sets[g], t) for g in ("pid_puback", "pid_pubrec", "pid_pubcomp")):
                        self.miss("inv", f"stored packet {terms.show(t)} awaits no acknowledgement")
                    continue
                if not sp.member(sets[f], t):
                    continue
                if not sp.member(man, t):
                    self.miss("inv", f"{f} holds {terms.show(t)} which is not in use")
                if f == "store":
                    if not any(sp.member(sets[g], t) for g in ("pid_puback", "pid_pubrec", "pid_pubcomp")) or \
                            any(sp.member(sets[g], t) for g in C.NOSTORE if g in sets):
                        self.miss("inv", f"stored packet {terms.show(t)} awaits no acknowledgement")
                elif f in C.NOSTORE and sp.member(sets["store"], t):
                    self.miss("inv", f"{terms.show(t)} owned by {f} and a stored packet")
                elif any(g != f and sp.member(sets[g], t) for g in tr):
                    self.miss("inv", f"{terms.show(t)} owned by {f} and another exchange")
        for op in man.ops:
            if op[0] == "-":
                for f in tr + ["store"]:
                    if sp.member(sets[f], op[1]) and not sp.member(man, op[1]):
                        self.miss("inv", f"{terms.show(op[1])} released while {f} holds it")

    def set_cmp(self, name, code, ref):
        sp = self.sp
        c = self.C.unwrap_set(code)
        if c is None:
            self.miss("f:" + name, f"{name}: unrecognised value {terms.show(code)}")
            return
        if c.base is not ref.base:
            # different base: only equal if provably both empty
            for x in (c, ref):
                if not (isinstance(x.base, V) and x.base.k == "empty"):
                    ln = mk("len", (x.base,), self.C.I.usize_ty)
                    if not sp.ask(sp.I.cmp(sp.st, "Eq", ln, 0)):
                        self.miss("f:" + name, f"{name} = {terms.show(code)}, expected {show_set(ref)}")
                        return
        for op in c.ops + ref.ops:
            t = op[1]
            if sp.member(c, t) != sp.member(ref, t):
                self.miss("f:" + name, f"{name} = {terms.show(code)}, expected {show_set(ref)} (differs in {terms.show(t)})")
                return

    def map_cmp(self, name, code, ref):
        sp = self.sp
        c = self.C.unwrap_map(code)
        if c is None:
            self.miss("f:" + name, f"{name}: unrecognised value {terms.show(code)}")
            return
        if c.base is not ref.base:
            for x in (c, ref):
                if not (isinstance(x.base, V) and x.base.k == "empty"):
                    ln = mk("len", (x.base,), self.C.I.usize_ty)
                    if not sp.ask(sp.I.cmp(sp.st, "Eq", ln, 0)):
                        self.miss("f:" + name, f"{name} = {terms.show(code)}, expected {show_set(ref)}")
                        return
        if any(o[0] == "~" for o in c.ops):
            self.miss("f:" + name, f"{name}: removal that does not keep the store order")
            return
        for op in c.ops + ref.ops:
            t = op[1]
            a, b = sp.member(c, t), sp.member(ref, t)
            if a != b:
                self.miss("f:" + name, f"{name} = {terms.show(code)}, expected {show_set(ref)} (entry {terms.show(t)})")
                return
            if a:
                va = [o[2] for o in c.ops if o[0] in "+=" and sp.eq(o[1], t)]
                vb = [o[2] for o in ref.ops if o[0] in "+=" and sp.eq(o[1], t)]
                if bool(va) != bool(vb):
                    self.miss("f:" + name, f"{name}: entry {terms.show(t)} replaced")
                    return
                if va:
                    r = self.packet(va[-1], vb[-1])
                    if r:
                        self.miss("f:" + name, f"stored packet: {r}")
                        return
        # relative order of inserted entries
        ca = [o[1] for o in c.ops if o[0] == "+"]
        ra = [o[1] for o in ref.ops if o[0] == "+"]
        if len(ca) == len(ra) and len(ca) > 1:
            for x, y in zip(ca, ra):
                if not sp.eq(x, y):
                    self.miss("f:" + name, "store order")
                    return

    def tal_cmp(self, name, code, ref):
        """ref: ("tal", base option term | None, max, [ops]) with ops (bind|touch, alias[, topic])"""
        sp = self.sp
        _, base, mx, ops = ref
        if not (isinstance(code, V) and code.k == "agg" and vname(self.C, code) == "Some"):
            if base is not None and code is base and not [o for o in ops if o[0] == "bind"]:
                return
            if base is not None and code is base and ops:
                self.miss("f:" + name, f"{name} unchanged, expected {[show_ref(o) for o in ops]}")
                return
            self.miss("f:" + name, f"{name} = {terms.show(code)}, expected a table with {[show_ref(o) for o in ops]}")
            return
        tal = code.a[1][0]
        if not (isinstance(tal, V) and tal.k == "tal"):
            if base is not None and not ops and self.val_eq(code, base):
                return
            self.miss("f:" + name, f"{name} = {terms.show(code)}")
            return
        cmx, cbase, cops = tal.a
        if not self.val_eq(cmx, mx):
            self.miss("f:" + name, f"{name}: maximum {terms.show(cmx)}, expected {terms.show(mx)}")
        rb = sp.opt(base) if base is not None else EMPTY
        if cbase is not rb:
            self.miss("f:" + name, f"{name}: bindings {terms.show(cbase)}, expected {terms.show(rb)}")
        cb = [o for o in cops if o[0] == "bind"]
        rbnd = [o for o in ops if o[0] == "bind"]
        if len(cb) != len(rbnd):
            self.miss("f:" + name, f"{name}: binds {[terms.show(o[1:]) for o in cb]}, expected {[terms.show(o[1:]) for o in rbnd]}")
            return
        for x, y in zip(cb, rbnd):
            if not self.val_eq(x[1], y[1]) or not (terms_strip(x[2]) is terms_strip(y[2]) or self.val_eq(x[2], y[2])):
                self.miss("f:" + name, f"{name}: bind {terms.show(x[1:])}, expected {terms.show(y[1:])}")
        if ("touch", name) not in sp.dc:
            ct = [o for o in cops if o[0] == "touch"]
            rt = [o for o in ops if o[0] == "touch"]
            if ct and not rt:
                self.miss("f:" + name, f"{name}: recency of alias {terms.show(ct[0][1])} updated without sending it")

    def frame_cmp(self, name, code, ref):
        if ref[1] == "reset":
            if not self.C.is_fresh_frame(code):
                self.miss("f:" + name, "partially received frame kept")
        elif ref[1] == "fed":
            pass


def is_bool(C, v):
    return v.k in ("cmp", "not", "and", "or", "in", "eq") or (v.ty is not None and C.P.types[v.ty].k == "bool")


def terms_strip(t):
    while isinstance(t, V) and t.k in ("call",) and t.a[0] in ("to_string", "to_owned", "as_str", "clone") and len(t.a) == 2:
        t = t.a[1]
    return t


def show_ref(r):
    if isinstance(r, tuple):
        return "(" + ", ".join(show_ref(x) for x in r) + ")"
    if isinstance(r, dict):
        return "{" + ", ".join(f"{k}: {show_ref(v)}" for k, v in r.items()) + "}"
    if isinstance(r, SSet):
        return show_set(r)
    return terms.show(r)


def show_set(s):
    return f"{terms.show(s.base)} with {[show_ref(o) for o in s.ops]}" if s.ops else terms.show(s.base)
