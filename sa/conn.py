"""Connection-level analysis: symbolic GenericConnection, packet methods as
opaque pure operations, allocator / alias tables / frame reader as primitives
(each of them decided by its own rules)."""
import os
import terms, models, interp
from terms import V, mk, add, sub, Cons
from interp import Interp, State, Abort
from models import rd, rdd, wr, some, none, ok, err, as_set, mkset, op_push, set_member, refto

SELF = ("h", "self", 0)

PACKET_INLINE = {"enum_packet.rs", "enum_store_packet.rs", "topic_alias_send.rs", "topic_alias_recv.rs",
                 "json_bin_encode.rs", "escape_binary_json_string.rs"}

PUB_MUT = {"set_dup", "remove_topic_alias", "remove_topic_alias_add_topic", "remove_topic_add_topic_alias",
           "add_topic_alias", "add_extracted_topic_name"}


class NoField(Exception):
    """private state the reference needs is not there in a known form: no verdict"""


class Conn:
    def __init__(self, P, role="Client", pid="u16", reps=1):
        self.P = P
        self.role = role
        self.pid = pid
        name = f"GenericConnection<mqtt::connection::role::{role}, {pid}>"
        c = [t for t in P.types if t.k == "struct" and t.path.endswith("::GenericConnection") and t.s.endswith(name)]
        if len(c) != 1:
            raise LookupError(f"anchor type {name}: {len(c)}")
        self.ty = c[0]
        self.fields = self.map_fields()
        self.extra_fields = [f[0] for i, f in enumerate(self.ty.vs[0][2]) if i not in self.fields.values()]
        self.I = Interp(P, prim=self.prim, reps=reps)
        self.I.in_hook = self.in_hook
        self.I.neq_hook = self.neq_hook
        self.pidty = next(t.id for t in P.types if t.s == pid)
        self.u16 = next(t.id for t in P.types if t.s == "u16")
        self.stats = {}
        self.init = {}
        self.quirks = set()
        self.timer_fired = None
        self._acc = {}
        self.parse_terms = {}
        self.SETF = {"pid_man", "publish_recv", "qos2_publish_handled"} | {f for f in self.fields if f.startswith("pid_")}
        self.MAPF = {"store"}

    # canonical field names (private, may be renamed: then matched by type and order)
    CANON = (("_marker", "PhantomData"), ("protocol_version", "Version"), ("pid_man", "PacketIdManager"), ("pid_suback", "HashSet"),
             ("pid_unsuback", "HashSet"), ("pid_puback", "HashSet"), ("pid_pubrec", "HashSet"), ("pid_pubcomp", "HashSet"),
             ("pid_pubrel", "HashSet"), ("need_store", "bool"), ("store", "GenericStore"), ("offline_publish", "bool"),
             ("auto_pub_response", "bool"), ("auto_ping_response", "bool"), ("auto_map_topic_alias_send", "bool"),
             ("auto_replace_topic_alias_send", "bool"), ("topic_alias_recv", "Option<TopicAliasRecv>"),
             ("topic_alias_send", "Option<TopicAliasSend>"), ("publish_send_max", "Option<u16>"), ("publish_recv_max", "Option<u16>"),
             ("publish_send_count", "u16"), ("publish_recv", "HashSet"), ("maximum_packet_size_send", "u32"),
             ("maximum_packet_size_recv", "u32"), ("status", "ConnectionStatus"), ("pingreq_user_send_interval_ms", "Option<u64>"),
             ("pingreq_keep_alive_ms", "u64"), ("pingreq_server_keep_alive_ms", "Option<u64>"), ("pingreq_recv_timeout_ms", "u64"),
             ("pingresp_recv_timeout_ms", "u64"), ("qos2_publish_handled", "HashSet"), ("pingreq_send_set", "bool"),
             ("pingreq_recv_set", "bool"), ("pingresp_recv_set", "bool"), ("packet_builder", "PacketBuilder"), ("is_client", "bool"))

    def map_fields(self):
        def key(ty):
            t = self.P.types[ty]
            n = (t.path or t.s).split("::")[-1]
            if n == "Option" and t.args:
                return f"Option<{key(t.args[0])}>"
            return n
        real = [(i, f[0], key(f[1])) for i, f in enumerate(self.ty.vs[0][2])]
        out = {}
        for n, _ in self.CANON:
            for i, rn, rk in real:
                if rn == n:
                    out[n] = i
        used = set(out.values())
        for k in {k for _, k in self.CANON}:
            want = [n for n, c in self.CANON if c == k and n not in out]
            have = [i for i, _, rk in real if rk == k and i not in used]
            if want and len(want) == len(have):
                out.update(zip(want, have))
        return {n: out[n] for n, _ in self.CANON if n in out}

    # ------------------------------------------------------------ entry points
    def method(self, name):
        r = [f for f in self.P.fns if f.body and f.name == name and f.self_ty == self.ty.id]
        if len(r) != 1:
            raise LookupError(f"anchor method GenericConnection::{name}: {len(r)}")
        return r[0]

    def field(self, name):
        if name not in self.fields:
            raise NoField(f"field GenericConnection.{name} not recognised")
        return self.fields[name]

    def sym(self, name):
        """initial symbolic value of a field"""
        i = self.field(name)
        return mk("fld", (self.self0, i, name), self.ty.vs[0][2][i][1])

    def new_state(self, **fix):
        st = State()
        self.self0 = mk("arg", ("self",), self.ty.id)
        canon = {i: n for n, i in self.fields.items()}
        fs = [mk("fld", (self.self0, i, canon.get(i, n)), t) for i, (n, t) in enumerate(self.ty.vs[0][2])]
        self.init = dict(fix)
        for k, v in fix.items():
            fs[self.field(k)] = v
        st.mem[SELF] = mk("agg", (0, tuple(fs)), self.ty.id)
        return st

    def enum(self, tyid, variant, *fields):
        t = self.P.types[tyid]
        i = t.variant_index(variant)
        if i is None:
            raise LookupError(f"variant {variant} of {t.s}")
        return mk("agg", (i, tuple(fields)), tyid)

    def fty(self, name):
        return self.ty.vs[0][2][self.field(name)][1]

    def version(self, v):
        return self.enum(self.fty("protocol_version"), v)

    def call(self, st, name, *args):
        f = self.method(name) if isinstance(name, str) else name
        ref = mk("ref", (SELF, ()), f.locals[1])
        self.I.abnormal = []
        self.I.unknown = {}
        self.I.nstates = 0
        res = self.I.run_fn(st, f, [ref] + list(args))
        return res, self.I.abnormal

    def post(self, st, name):
        return st.mem[SELF].a[1][self.field(name)]

    # ------------------------------------------------------------ hooks
    PIDF = ("pid_suback", "pid_unsuback", "pid_puback", "pid_pubrec", "pid_pubcomp", "pid_pubrel")

    NOSTORE = ("pid_suback", "pid_unsuback", "pid_pubrel")

    def base_field(self, b):
        """name of the connection field a symbolic collection belongs to"""
        while isinstance(b, V) and b.k == "fld":
            if b.a[0] is self.self0:
                return b.a[2]
            b = b.a[0]
        return None

    def base_of(self, name):
        return self.unwrap_map(self.sym(name)).base if name in self.MAPF else self.unwrap_set(self.sym(name)).base

    def in_hook(self, st, base, t, atom):
        """facts of the inductive invariant: tracked ids and store keys are in use; the tracked sets are
        pairwise disjoint (decided by rule tracked-ids)"""
        f = self.base_field(base)
        if f is None:
            return atom
        known = lambda g: self.known(st, g, t)
        te = self.base_field(t.a[0]) if isinstance(t, V) and t.k == "elem" else None
        if f == "pid_man":
            if te in self.PIDF or te == "store":
                return 1
            for g in self.PIDF + ("store",):
                if g in self.fields and known(g) == 1:
                    return 1
        elif f in self.PIDF:
            if te in self.PIDF:
                return 1 if te == f else 0
            for g in self.PIDF:
                if g != f and g in self.fields and known(g) == 1:
                    return 0
            if f in self.NOSTORE and (te == "store" or known("store") == 1):
                return 0
            if known("pid_man") == 0:
                return 0
        elif f == "store":
            if te in self.NOSTORE or any(g in self.fields and known(g) == 1 for g in self.NOSTORE):
                return 0
            if known("pid_man") == 0:
                return 0
        return atom

    def neq_hook(self, a, b):
        """elements of disjoint tracked sets differ"""
        if not (isinstance(a, V) and isinstance(b, V) and a.k == "elem" and b.k == "elem"):
            return False
        fa, fb = self.base_field(a.a[0]), self.base_field(b.a[0])
        if fa is None or fb is None or fa == fb:
            return False
        return (fa in self.PIDF and fb in self.PIDF) or (fa == "store" and fb in self.NOSTORE) or (fb == "store" and fa in self.NOSTORE)

    def known(self, st, field, t):
        k = mk("in", (self.base_of(field), t), self.I.bool_ty)
        v = st.cons.d.get(((k, 1),))
        if v is None:
            return None
        if v[0] == v[1]:
            return v[0]
        if 0 in v[2]:
            return 1
        return None

    def unwrap_set(self, v):
        import spec
        if isinstance(v, spec.SSet):
            return v
        for _ in range(4):
            if not isinstance(v, V):
                return None
            if v.k == "set":
                return spec.SSet(v.a[0], v.a[1])
            if v.k == "agg":
                c = [x for x in v.a[1] if isinstance(x, V) and self.is_coll(x)]
                if len(c) != 1:
                    return None
                v = c[0]
                continue
            t = self.P.types[v.ty] if v.ty is not None else None
            if t is None:
                return None
            if t.path in models.SETS or t.path.endswith("::ValueAllocator"):
                return spec.SSet(v)
            if t.k == "struct" and t.vs:
                fs = [(i, n, ty) for i, (n, ty) in enumerate(t.vs[0][2]) if self.is_coll_ty(ty)]
                if len(fs) != 1:
                    return None
                v = mk("fld", (v, fs[0][0], fs[0][1]), fs[0][2])
                continue
            return None
        return None

    def is_coll_ty(self, ty):
        t = self.P.types[ty]
        return t.path in models.SETS or t.path in models.MAPS or t.path.endswith("::ValueAllocator")

    def is_coll(self, x):
        return x.k in ("set", "map") or (x.ty is not None and self.is_coll_ty(x.ty))

    def unwrap_map(self, v):
        import spec
        if isinstance(v, spec.SMap):
            return v
        for _ in range(4):
            if not isinstance(v, V):
                return None
            if v.k == "map":
                return spec.SMap(v.a[0], v.a[1])
            if v.k == "agg":
                c = [x for x in v.a[1] if isinstance(x, V) and self.is_coll(x)]
                if len(c) != 1:
                    return None
                v = c[0]
                continue
            t = self.P.types[v.ty] if v.ty is not None else None
            if t is None:
                return None
            if t.path in models.MAPS:
                return spec.SMap(v)
            if t.k == "struct" and t.vs:
                fs = [(i, n, ty) for i, (n, ty) in enumerate(t.vs[0][2]) if self.is_coll_ty(ty)]
                if len(fs) != 1:
                    return None
                v = mk("fld", (v, fs[0][0], fs[0][1]), fs[0][2])
                continue
            return None
        return None

    def acc_type(self, p, n):
        key = (p.ty, n)
        if key in self._acc:
            return self._acc[key]
        for f in self.P.by_name.get(n, []):
            if f.local and f.self_ty == p.ty and f.sig:
                rt = self.P.types[f.sig[-1]]
                r = rt.e if rt.k == "ref" else rt.id
                self._acc[key] = r
                return r
        if n == "size":
            r = next(t.id for t in self.P.types if t.s == "usize")
            self._acc[key] = r
            return r
        raise LookupError(f"anchor accessor {self.P.types[p.ty].s}::{n}")

    @staticmethod
    def size_key(p):
        """generated packets are fixed-size per kind and field set"""
        if isinstance(p, V) and p.k == "pkt":
            return mk("gen", (p.a[0], p.a[1], tuple(sorted(f[0] for f in p.a[2]))))
        return p

    def built_term(self, variant, fields, sp):
        """size key of a packet generated with these fields"""
        ver, kind = ("v5_0", variant[4:]) if variant.startswith("V5_0") else ("v3_1_1", variant[6:])
        return mk("gen", (ver, kind, tuple(sorted(fields))))

    def stored_value(self, sp, k):
        if not hasattr(self, "store_ty"):
            c = [t for t in self.P.types if t.k == "enum" and t.path.endswith("::GenericStorePacket") and t.s.endswith(f"<{self.pid}>")]
            if len(c) != 1:
                raise LookupError("anchor GenericStorePacket")
            self.store_ty = c[0].id
        return mk("mget", (self.unwrap_map(self.sym("store")).base, k), self.store_ty)

    def index_term(self, sp, body, i):
        return models.index_value(self.I, sp.st, body.term, i, self.I.u8_ty)

    def parse_result(self, sp, ver, kind, body):
        import spec
        key = (kind, ver.lower())
        for t in self.parse_terms.get(key, ()):
            a = t.a[3:]
            if a[-1] is not body.term:
                continue
            if len(a) == 1 or models.eq_terms(self.I, sp.st, a[0], body.flags) == 1 or \
                    sp.st.cons.value(models.eq_terms(self.I, sp.st, a[0], body.flags)) == 1:
                return t
        raise spec.Missing(f"the received bytes are not parsed as {ver} {kind} with the received flags and body")

    def mut_result(self, sp, name, p, *args):
        for f in self.P.by_name.get(name, []):
            if f.local and f.self_ty == p.ty and f.sig:
                rt = self.P.types[f.sig[-1]]
                if rt.path.endswith("Result"):
                    return mk("call", (name, p) + args, rt.id)
                return None
        raise LookupError(f"anchor {name}")

    def seq_ety(self, seq):
        t = self.P.types[seq.ty]
        if t.k in ("slice", "array"):
            return t.e
        if t.args:
            return t.args[0] if isinstance(t.args[0], int) else None
        return None

    def no_alias(self, sp, p):
        props = sp.acc(p, "props")
        for e in sp.elems(props, None, "seq"):
            if sp.is_var(e, "TopicAlias"):
                return False
        return True

    def is_fresh_frame(self, v):
        if not hasattr(self, "fresh_frame"):
            f = [g for g in self.P.fns if g.body and g.name == "new" and g.local and g.self_ty == self.fty("packet_builder") and g.nargs == 0]
            if len(f) != 1:
                raise LookupError("anchor PacketBuilder::new")
            st = State()
            r = self.I.run_fn(st, f[0], [])
            self.fresh_frame = r[0][1]
        return v is self.fresh_frame

    # ------------------------------------------------------------ primitives
    def prim(self, I, st, callee, args, argtys, dty):
        if not callee.local:
            return None
        f = callee.file
        if "convert" in callee.trait and len(args) == 1 and isinstance(args[0], V) and args[0].k != "agg" and args[0].ty is not None \
                and self.P.types[args[0].ty].path.endswith("::MqttError") and self.P.types[dty].path.endswith("ReasonCode"):
            return [(st, mk("call", ("reason_of", args[0]), dty))]   # decided per error value by rule error-reason
        if callee.trait.endswith("clone::Clone") and callee.name == "clone":
            return [(st, rd(I, st, args[0]))]
        sty = self.P.types[callee.self_ty] if callee.self_ty is not None else None
        sp = sty.path.split("::")[-1] if sty is not None else ""
        if sp == "ValueAllocator":
            return self.p_alloc(I, st, callee, args, argtys, dty)
        if sp == "TopicAliasSend":
            return self.p_tas(I, st, callee, args, argtys, dty)
        if sp == "TopicAliasRecv":
            return self.p_tar(I, st, callee, args, argtys, dty)
        if sp == "PacketBuilder" and callee.name == "feed":
            return self.p_feed(I, st, callee, args, argtys, dty)
        if "/packet/" in f and os.path.basename(f) not in PACKET_INLINE and "cmp::" not in callee.trait \
                and not (callee.trait and "convert" in callee.trait):
            return self.p_packet(I, st, callee, args, argtys, dty, sp)
        return None

    def alloc_key(self, st, cur):
        b, ops = as_set(self.I, st, cur)
        return mk("set", (b, ops)) if ops else b

    def alloc_term(self, sp):
        return self.unwrap_set(self.sym("pid_man")).base

    # allocator --------------------------------------------------------
    def p_alloc(self, I, st, callee, args, argtys, dty):
        n = callee.name
        if n == "new":
            return [(st, mk("set", (models.EMPTY, ()), dty))]
        cur = rd(I, st, args[0])
        base, ops = as_set(I, st, cur)
        ty = self.P.types[argtys[0]].e
        if n == "clear":
            wr(I, st, args[0], mk("set", (models.EMPTY, ()), ty))
            return [(st, I.unit)]
        if n in ("is_used", "use_value", "deallocate"):
            t = args[1]
            out = []
            for s, z in I.branch_bool(st, I.cmp(st, "Eq", t, 0)):
                if z:
                    if n == "deallocate":
                        I.panic(s, I.stack[-1][0], I.stack[-1][1], "panic", "ValueAllocator::deallocate of an out-of-range value")
                    else:
                        out.append((s, 0))
                    continue
                for s2, m in set_member(I, s, cur, t):
                    if n == "is_used":
                        out.append((s2, m))
                    elif n == "use_value":
                        if not m:
                            wr(I, s2, args[0], mkset(base, op_push(I, s2, ops, ("+", t)), ty))
                        out.append((s2, 1 - m))
                    else:
                        if not m:
                            s2.emit(("dealloc-free", t, I.stack[-1][0].path, I.stack[-1][1]))
                        else:
                            wr(I, s2, args[0], mkset(base, op_push(I, s2, ops, ("-", t)), ty))
                        out.append((s2, I.unit))
            return out
        if n == "allocate":
            full = st.cons.value(mk("call", ("alloc-full", self.alloc_key(st, cur)), I.bool_ty))
            out = []
            for s, b in I.branch_bool(st, full):
                if b:
                    out.append((s, none(I, dty)))
                else:
                    t = s.fresh("alloc", self.pidty)
                    s.cons.assume_ge(t, 1)
                    if not (isinstance(base, V) and base.k == "empty"):
                        s.cons.assume_eq(mk("in", (base, t), I.bool_ty), 0)
                    for o in ops:
                        s.cons.assume_ne(sub(t, o[1]), 0) if o[0] == "+" else None
                    wr(I, s, args[0], mkset(base, op_push(I, s, ops, ("+", t)), ty))
                    out.append((s, some(I, dty, t)))
            return out
        return None

    # topic alias tables -------------------------------------------------
    def tas_parts(self, I, st, v):
        """(max, base, ops)"""
        if isinstance(v, V) and v.k == "tal":
            return v.a
        t = self.P.types[v.ty]
        mi = t.field_index("max_alias")
        if mi is None:
            raise LookupError("anchor field max_alias")
        return (mk("fld", (v, mi, "max_alias"), t.vs[0][2][mi][1]), v, ())

    def p_tas(self, I, st, callee, args, argtys, dty):
        n = callee.name
        if n == "new":
            m = args[0]
            out = []
            for s, z in I.branch_bool(st, I.cmp(st, "Eq", m, 0)):
                if z:
                    I.panic(s, I.stack[-1][0], I.stack[-1][1], "panic", "TopicAliasSend::new(0)")
                else:
                    out.append((s, mk("tal", (m, models.EMPTY, ()), dty)))
            return out
        return self.p_ta(I, st, callee, args, argtys, dty)

    def p_tar(self, I, st, callee, args, argtys, dty):
        if callee.name == "new":
            return [(st, mk("tal", (args[0], models.EMPTY, ()), dty))]
        return self.p_ta(I, st, callee, args, argtys, dty)

    def p_ta(self, I, st, callee, args, argtys, dty):
        n = callee.name
        cur = rd(I, st, args[0])
        mx, base, ops = self.tas_parts(I, st, cur)
        ty = self.P.types[argtys[0]].e
        st.cons.assume_ge(mx, 1) if isinstance(mx, V) else None
        if n == "max":
            return [(st, mx)]
        if n == "clear":
            wr(I, st, args[0], mk("tal", (mx, models.EMPTY, ()), ty))
            return [(st, I.unit)]
        if n == "insert_or_update":
            topic, alias = rd(I, st, args[1]), args[2]
            okc = I.bandor("and", [I.bnot(I.cmp(st, "Eq", models.seq_len(I, st, topic), 0)),
                                   I.cmp(st, "Ge", alias, 1), I.cmp(st, "Le", alias, mx)])
            out = []
            for s, b in I.branch_bool(st, okc):
                if not b:
                    I.panic(s, I.stack[-1][0], I.stack[-1][1], "panic", "insert_or_update precondition (topic non-empty, 1<=alias<=max)")
                else:
                    wr(I, s, args[0], mk("tal", (mx, base, ops + (("bind", alias, topic),)), ty))
                    out.append((s, I.unit))
            return out
        if n in ("get", "peek"):
            alias = args[1]
            isrecv = "Recv" in self.P.types[ty].path
            out = []
            inr = I.bandor("and", [I.cmp(st, "Ge", alias, 1), I.cmp(st, "Le", alias, mx)])
            for s, b in I.branch_bool(st, inr):
                if not b:
                    out.append((s, none(I, dty)))
                    continue
                for s2, val in self.ta_lookup(I, s, base, ops, alias):
                    if val is None:
                        out.append((s2, none(I, dty)))
                    else:
                        if n == "get" and not isrecv:
                            wr(I, s2, args[0], mk("tal", (mx, base, ops + (("touch", alias),)), ty))
                        out.append((s2, some(I, dty, refto(I, s2, val, models.opt_payload(I, dty)))))
            return out
        if n == "find_by_topic":
            topic = rd(I, st, args[1])
            for o in reversed(ops):
                if o[0] == "bind":
                    st.taint += ("find_by_topic after bind",)
            a = mk("call", ("has_topic", base, topic), I.bool_ty)
            out = []
            for s, b in I.branch_bool(st, a):
                if not b:
                    out.append((s, none(I, dty)))
                else:
                    al = mk("call", ("alias_of", base, topic), models.opt_payload(I, dty))
                    s.cons.assume_ge(al, 1)
                    s.cons.assume_le(sub(al, mx), 0)
                    s.cons.assume_eq(mk("in", (base, al), I.bool_ty), 1)
                    out.append((s, some(I, dty, al)))
            return out
        if n == "get_lru_alias":
            al = mk("call", ("lru", base) + tuple(x for o in ops for x in o), dty)
            st.cons.assume_ge(al, 1)
            st.cons.assume_le(sub(al, mx), 0)
            return [(st, al)]
        return None

    def ta_lookup(self, I, st, base, ops, alias):
        for i in range(len(ops) - 1, -1, -1):
            o = ops[i]
            if o[0] != "bind":
                continue
            e = models.eq_terms(I, st, o[1], alias)
            if e == 1:
                return [(st, o[2])]
            if e == 0:
                continue
            out = []
            s2 = st.fork()
            if s2.cons.assume_eq(e, 1):
                out.append((s2, o[2]))
            if st.cons.assume_eq(e, 0):
                out.extend(self.ta_lookup(I, st, base, ops[:i], alias))
            return out
        if isinstance(base, V) and base.k == "empty":
            return [(st, None)]
        if isinstance(alias, V) and alias.k == "call" and alias.a[0] == "alias_of":
            return [(st, alias.a[2])]
        out = []
        for s, b in I.branch_bool(st, mk("in", (base, alias), I.bool_ty)):
            if b:
                v = mk("call", ("topic_of", base, alias), None)
                s.cons.assume_ge(models.seq_len(I, s, v), 1)
                out.append((s, v))
            else:
                out.append((s, None))
        return out

    # frame reader ------------------------------------------------------
    def p_feed(self, I, st, callee, args, argtys, dty):
        t = self.P.types[dty]
        forced = st.x.get("feed")
        out = []
        pb = rd(I, st, args[0])
        for vi, v in enumerate(t.vs):
            if forced is not None and v[0] != forced[0]:
                continue
            s = st.fork()
            if v[0] == "Complete":
                fs = (forced[1],) if forced else (mk("arg", ("raw",), v[2][0][1]),)
                wr(I, s, args[0], mk("call", ("fed", pb), pb.ty))
            elif v[0] == "Error":
                fs = (s.fresh("feederr", v[2][0][1]),)
                wr(I, s, args[0], mk("call", ("fed", pb), pb.ty))
            else:
                fs = ()
                wr(I, s, args[0], mk("call", ("fed", pb), pb.ty))
            out.append((s, mk("agg", (vi, fs), dty)))
        return out

    # packet objects --------------------------------------------------------
    def p_packet(self, I, st, callee, args, argtys, dty, sp):
        n = callee.name
        P = self.P
        vals = []
        for a, ty in zip(args, argtys):
            t = P.types[ty]
            v = a
            while isinstance(v, V) and t.k == "ref":
                v = rd(I, st, v)
                t = P.types[t.e]
            vals.append(v)
        kind = sp[7:] if sp.startswith("Generic") else sp
        if n == "clean_session" and len(args) == 1:
            n = "clean_start"          # v3.1.1 CONNECT: two names of one flag (decided by C03)
        ver = "v5_0" if "v5_0" in callee.file else "v3_1_1" if "v3_1_1" in callee.file else ""
        # ---- builders
        if n == "builder" and not args:
            return [(st, mk("builder", (ver, kind, ()), dty))]
        if vals and isinstance(vals[0], V) and vals[0].k == "builder":
            ver, bkind, fs = vals[0].a
            if n == "build":
                return self.p_build(I, st, mk("builder", (ver, bkind, tuple(sorted(fs, key=lambda f: f[0]))), vals[0].ty), dty)
            nb = mk("builder", (ver, bkind, tuple(f for f in fs if f[0] != n) + ((n,) + tuple(vals[1:]),)), vals[0].ty)
            if P.types[argtys[0]].k == "ref":
                wr(I, st, args[0], nb)
                return [(st, args[0])]
            return [(st, nb)]
        if n == "new" and not args and ver:
            return [(st, mk("pkt", (ver, kind, ()), dty))]
        rt = P.types[dty]
        # ---- accessors on packets
        if vals:
            p = vals[0]
            if isinstance(p, V) and p.k == "pkt":
                for f in p.a[2]:
                    if f[0] == n and len(f) == 2 and len(args) == 1:
                        if rt.k == "enum" and rt.path.endswith("Option") and not (isinstance(f[1], V) and f[1].ty == dty):
                            return [(st, some(I, dty, f[1]))]
                        if rt.k == "ref":
                            return [(st, refto(I, st, f[1], dty))]
                        return [(st, f[1])]
            p2 = p
            if kind == "Publish" and len(args) == 1:
                if isinstance(p2, V) and p2.k == "vf" and isinstance(p2.a[0], V) and p2.a[0].k == "call" and p2.a[0].a[0] in PUB_MUT:
                    p2 = p2.a[0]
                while isinstance(p2, V) and p2.k == "call" and p2.a[0] in PUB_MUT:
                    if n in ("qos", "packet_id", "retain", "payload", "payload_as_bytes"):
                        p2 = p2.a[1]
                    elif n == "dup" and p2.a[0] == "set_dup":
                        return [(st, p2.a[2])]
                    elif n == "topic_name":
                        if p2.a[0] in ("remove_topic_alias_add_topic", "add_extracted_topic_name"):
                            return [(st, refto(I, st, p2.a[2], dty))] if rt.k == "ref" else [(st, p2.a[2])]
                        if p2.a[0] == "remove_topic_add_topic_alias":
                            return [(st, refto(I, st, mk("bytes", (b"",), rt.e), dty))]
                        p2 = p2.a[1]
                    else:
                        break
                    if isinstance(p2, V) and p2.k == "vf" and isinstance(p2.a[0], V) and p2.a[0].k == "call" and p2.a[0].a[0] in PUB_MUT:
                        p2 = p2.a[0]
            if isinstance(p, V) and p.k == "pkt" and len(args) == 1 and rt.k == "enum" and rt.path.endswith("Option"):
                return [(st, none(I, dty))]
            if n == "packet_id" and len(args) == 1 and isinstance(p2, V) and p2.k == "vf" and isinstance(p2.a[0], V) and p2.a[0].k == "mget":
                # store entries are filed under their own packet identifier and hold QoS > 0 PUBLISHes
                # (decided by rule store-key)
                k = p2.a[0].a[1]
                return [(st, some(I, dty, k) if rt.k == "enum" else k)]
            if n == "packet_id" and len(args) == 1:
                if rt.k == "enum":
                    # PUBLISH: present and non-zero exactly when QoS > 0 (decided by C02/C04)
                    q = self.qos_term(st, p2)
                    if q is not None:
                        d = I.discriminant(st, q, q.ty)
                        out = []
                        for s, z in I.branch_bool(st, I.cmp(st, "Eq", d, 0)):
                            if z:
                                out.append((s, none(I, dty)))
                            else:
                                t = mk("call", ("packet_id", p2), models.opt_payload(I, dty))
                                s.cons.assume_ge(t, 1)
                                out.append((s, some(I, dty, t)))
                        return out
                else:
                    t = mk("call", ("packet_id", p2), dty)
                    st.cons.assume_ge(t, 1)
                    return [(st, t)]
            if n == "val" and len(args) == 1:
                t = mk("call", ("val", p2), dty)
                if sp in ("ReceiveMaximum", "TopicAlias", "MaximumPacketSize", "SubscriptionIdentifier"):
                    st.cons.assume_ge(t, 1)
                return [(st, t)]
            if n == "size" and len(args) == 1:
                t = mk("call", ("size", self.size_key(p2)), dty)
                st.cons.assume_ge(t, 2)
                st.cons.assume_le(t, 268435460)
                return [(st, t)]
            vals = [p2] + vals[1:]
        ret = mk("call", (n,) + tuple(vals), rt.e if rt.k == "ref" else dty)
        for j, (a, ty) in enumerate(zip(args, argtys)):
            t = P.types[ty]
            if t.k == "ref" and t.mut:
                newv = mk("call", (n,) + tuple(vals), t.e)
                wr(I, st, a, newv)
                if rt.k == "ref" and rt.e == t.e:
                    return [(st, a)]
        if n == "remove_topic_alias_add_topic" and rt.path.endswith("Result") and is_topic_of(vals[-1]):
            # the topic bound to an alias was validated when it was bound, so the only failure cause (an invalid
            # topic name) is excluded; the method itself is decided by rule publish-rewrite
            pt = rt.vs[rt.variant_index("Ok")][2][0][1]
            return [(st, ok(I, dty, mk("call", (n,) + tuple(vals), pt)))]
        if n == "parse" and vals:
            ret = mk("call", ("parse", kind, ver) + tuple(vals), dty)
            self.parse_terms.setdefault((kind, ver), set()).add(ret)
        if rt.k == "ref":
            return [(st, refto(I, st, ret, dty))]
        if rt.k == "tuple" and not rt.es:
            return [(st, I.unit)]
        return [(st, ret)]

    def qos_term(self, st, p):
        t = None
        for f in self.P.by_name.get("qos", []):
            if f.local and f.sig and "publish.rs" in f.file:
                t = f.sig[1]
                break
        if t is None:
            return None
        if isinstance(p, V) and p.k == "pkt":
            for f in p.a[2]:
                if f[0] == "qos":
                    return f[1]
        return mk("call", ("qos", p), t)

    def p_build(self, I, st, b, dty):
        ver, kind, fs = b.a
        kind = kind[:-7] if kind.endswith("Builder") else kind
        pt = self.P.types[dty].vs[self.P.types[dty].variant_index("Ok")][2][0][1]
        okv = mk("pkt", (ver, kind, fs), pt)
        need = {"Puback": 1, "Pubrec": 1, "Pubrel": 1, "Pubcomp": 1}
        if kind in need:
            ids = [f[1] for f in fs if f[0] == "packet_id"]
            if not ids:
                return [(st, err(I, dty, st.fresh("builderr", None)))]
            out = []
            for s, z in I.branch_bool(st, I.cmp(st, "Eq", ids[0], 0)):
                out.append((s, err(I, dty, s.fresh("builderr", None)) if z else ok(I, dty, okv)))
            return out
        return [(st, ok(I, dty, okv))]


def is_topic_of(t):
    while isinstance(t, V) and t.k == "call" and t.a[0] in ("to_string", "to_owned", "as_str", "clone", "into") and len(t.a) == 2:
        t = t.a[1]
    return isinstance(t, V) and t.k == "call" and t.a[0] == "topic_of"


def show_events(C, v):
    return [terms.show(e) for e in v.a[0]] if isinstance(v, V) and v.k == "vec" else terms.show(v)


def diff(C, st):
    """changed fields: name -> new value"""
    out = {}
    m = st.mem[SELF]
    for (n, ft), x, i in zip(C.ty.vs[0][2], m.a[1], range(99)):
        base = mk("fld", (C.self0, i, n), ft)
        if x is not base:
            out[n] = x
    return out


def show_path(C, st, v):
    print("  events:", show_events(C, v))
    print("  post:", {k: terms.show(x) for k, x in diff(C, st).items()})
    print("  cond:", "; ".join(f"{'+'.join((str(c)+'*' if c != 1 else '')+terms.show(t) for t, c in k)} in [{lo},{hi}]{' \\ '+str(set(e)) if e else ''}" for k, (lo, hi, e) in st.cons.d.items()))
    if st.trace_list() or st.taint:
        print("  trace:", [tuple(terms.show(y) for y in x) for x in st.trace_list()], "TAINT" if st.taint else "", st.taint)
