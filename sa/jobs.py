"""Units of connection-level work: run one entry point symbolically and compare
every summary with the reference."""
import collections, time
import mir, dump, terms, models, spec, oracle
from terms import V, mk, sub
from conn import Conn, SELF
from spec import Sp, Cmp, explore, norm_events, Infeasible, Missing, Undecided


class Body:
    def __init__(self, term, length, cls, flags):
        self.term, self.length, self.cls, self.flags = term, length, cls, flags


class Res:
    def __init__(self, job):
        self.job = job
        self.bad = []          # (key, aspect, text, kind)
        self.paths = self.checks = self.panics = 0
        self.pruned = 0
        self.unknown = collections.Counter()
        self.tainted = []
        self.quirks = collections.Counter()
        self.known = ()
        self.notes = collections.Counter()
        self.nev = self.nfld = 0
        self.t = 0.0


def analyse(C, res, runs, oracle_fn, retcheck=None):
    """runs: [(final states with results, abnormal list)]"""
    seen = set()
    for st, ret in runs[0]:
        res.paths += 1
        if st.taint:
            res.tainted.append(str(st.taint))
            continue
        fns = C.I  # noqa
        ends = set()
        for x in st.trace_list():
            if x[0] == "iterend":
                ends.add(x[1])
            elif x[0] == "dealloc-free":
                pass

        def fn(q):
            sp = Sp(C, q)
            o = oracle.Oracle(C, sp)
            try:
                r = oracle_fn(o)
            except Missing as e:
                return [("parse", str(e))], sp
            ev = norm_events(C, C.I, ret) if retcheck is None else []
            if ev is None:
                return [("event", "event list not resolved: " + terms.show(ret))], sp
            c = Cmp(sp, ev, st)
            c.events()
            c.fields()
            if not c.bad:
                c.invariants()
            for b in sp.ends:
                bb = b
                if not any(x is bb for x in ends):
                    c.miss("loop", f"elements of {terms.show(b)} beyond the first may be skipped")
            for x in st.trace_list():
                if x[0] == "dealloc-free":
                    c.miss("rel", f"identifier {terms.show(x[1])} freed although it is not in use")
            if retcheck is not None:
                retcheck(sp, o, r, ret, c)
            return c.bad, sp
        C.quirks = set()
        any_ok = False
        found = []
        try:
            for q, (bad, sp) in explore(st.cons, fn):
                any_ok = True
                res.checks += 1
                found += [(a, t, q, sp.notes) for a, t in bad]
                res.notes.update(sp.notes)
                res.nev += len(sp.ev)
                res.nfld += len(C.fields) - len(sp.dc)
        except Undecided:
            if not found:       # a deviation met before giving up is one all the same
                raise
        if found and res.known:
            # is the deviation exactly a recorded finding?
            C.quirks = set(res.known)
            used, clean = set(), True
            try:
                for q, (bad, sp) in explore(st.cons, fn):
                    used |= sp.quirks
                    if bad:
                        clean = False
                        break
            except Undecided:
                clean = False
            C.quirks = set()
            if clean and used:
                for x in used:
                    res.quirks[x] += 1
                found = []
        for a, t, q, n in found:
            if (a, t) not in seen:
                seen.add((a, t))
                res.bad.append((a, t, path_text(C, st, q), frozenset(n)))
        if not any_ok:
            res.pruned += 1
    for ab in runs[1]:
        if ab.kind == "abort" or ab.st.taint:
            res.tainted.append(f"{ab.kind}: {ab.msg} in {ab.fn.path if ab.fn else '?'}")
            continue

        def fn(q):
            sp = Sp(C, q)
            try:
                oracle_fn(oracle.Oracle(C, sp))
            except Missing:
                pass
            return sp
        feasible = False
        notes = ()
        for q, sp in explore(ab.st.cons, fn):
            feasible = True
            notes = sp.notes
            break
        res.panics += 1
        if feasible:
            text = f"{ab.kind}: {ab.msg} in {ab.fn}"
            if ("panic", text) not in seen:
                seen.add(("panic", text))
                res.bad.append(("loopbound" if ab.kind == "loop" else "panic", text, path_text(C, ab.st, q), frozenset(notes)))


def path_text(C, st, q=None):
    out = []
    for k, (lo, hi, e) in st.cons.d.items():
        s = "+".join((str(c) + "*" if c != 1 else "") + terms.show(t) for t, c in k)
        if s.startswith("cmp(") or s.startswith("not("):
            continue
        out.append(f"{s} in [{lo},{hi}]" + (f" except {sorted(e)}" if e else ""))
    if q is not None:
        out += [f"assuming {terms.show(t)}={v}" for t, v in q.asked]
    return "; ".join(out)


VERS = ("V3_1_1", "V5_0")


def mk_state(C, ver, **fix):
    if C.role == "Server":
        fix.setdefault("is_client", 0)
    if C.role == "Client":
        # invariants: a client never learns a peer keep-alive (every client job re-establishes them)
        fix.setdefault("pingreq_recv_timeout_ms", 0)
        fix.setdefault("pingreq_recv_set", 0)
    if ver == "V3_1_1" or ver == "Undetermined":
        # limits are announced by v5.0 CONNECT/CONNACK only
        t = C.fty("publish_send_max")
        fix.setdefault("publish_send_max", C.enum(t, "None"))
    if ver == "Undetermined":
        # nothing has been connected yet (checked to stay so by Cmp.invariants)
        fix.setdefault("status", C.enum(C.fty("status"), "Disconnected"))
        for n in ("pingreq_send_set", "pingreq_recv_set", "pingresp_recv_set"):
            fix.setdefault(n, 0)
    st = C.new_state(protocol_version=C.version(ver), **fix)
    return st


def packet_kinds(C):
    f = C.method("send")
    return C.P.types[f.locals[2]]


def job_send(C, res, connver, variant):
    pt = packet_kinds(C)
    i = pt.variant_index(variant)
    if i is None:
        raise LookupError(f"anchor GenericPacket::{variant}")
    ver, kind = spec.strip_ver(variant)
    v = pt.vs[i]
    st = mk_state(C, connver)
    p = mk("arg", ("pkt",), v[2][0][1])
    if ver == "V3_1_1":
        st.cons.assume_ge(C.sym("maximum_packet_size_send"), oracle.NOLIMIT)
    runs = C.call(st, "send", C.enum(pt.id, variant, p))
    analyse(C, res, runs, lambda o: o.send(connver, ver, kind, p))


def checked_instance(C, pty):
    """the monomorphic checked_send of a packet type, or None when the type is not accepted at compile time"""
    fs = [f for f in C.P.fns if f.name == "checked_send" and f.self_ty == C.ty.id and f.sig and len(f.sig[0]) == 2 and f.body]
    if not fs:
        raise LookupError("anchor method GenericConnection::checked_send")
    fs = [f for f in fs if f.sig[0][1] == pty]
    return fs[0] if fs else None


def job_csend(C, res, connver, variant):
    """checked_send of one packet type: accepted by the compiler exactly for the roles that may send it, and then equal to send"""
    pt = packet_kinds(C)
    i = pt.variant_index(variant)
    if i is None:
        raise LookupError(f"anchor GenericPacket::{variant}")
    ver, kind = spec.strip_ver(variant)
    pty = pt.vs[i][2][0][1]
    f = checked_instance(C, pty)
    may = oracle.sendable(C.role, ver, kind)
    res.checks += 1
    if (f is not None) != may:
        res.bad.append(("accept", f"checked_send {'accepts' if f is not None else 'does not accept'} {C.P.types[pty].s} for role {C.role}; send {'accepts' if may else 'refuses'} it", "", []))
    if f is None or not may:
        return
    st = mk_state(C, connver)
    p = mk("arg", ("pkt",), pty)
    if ver == "V3_1_1":
        st.cons.assume_ge(C.sym("maximum_packet_size_send"), oracle.NOLIMIT)
    runs = C.call(st, f, p)
    analyse(C, res, runs, lambda o: o.send(connver, ver, kind, p))


def raw_types(C):
    raw = [t for t in C.P.types if t.path.endswith("packet_builder::RawPacket")]
    pd = [t for t in C.P.types if t.path.endswith("packet_builder::PacketData")]
    if len(raw) != 1 or len(pd) != 1:
        raise LookupError("anchor RawPacket / PacketData")
    return raw[0], pd[0]


CLS = {1: (0, 127), 2: (128, 16383), 3: (16384, 2097151), 4: (2097152, 268435455)}


def job_recv(C, res, connver, nibble, cls):
    raw, pd = raw_types(C)
    f = C.method("recv")
    st = mk_state(C, connver)
    I = C.I
    fl = mk("arg", ("flags",), I.u8_ty)
    st.cons.assume_le(fl, 15)
    st.cons.assume_ge(fl, 0)
    fbits = tuple(I.bit(fl, i) for i in (3, 2, 1, 0))
    fh = I.frombits(st, tuple((nibble >> i) & 1 for i in (3, 2, 1, 0)) + fbits)
    flags = I.frombits(st, (0, 0, 0, 0) + fbits)
    vn = "Publish" if nibble == 3 else "Normal"
    vi = pd.variant_index(vn)
    body = mk("arg", ("body",), pd.vs[vi][2][0][1])
    data = mk("agg", (vi, (body,)), pd.id)
    ln = models.seq_len(I, st, body)
    st.cons.assume_ge(ln, CLS[cls][0])
    st.cons.assume_le(ln, CLS[cls][1])
    if connver != "V5_0":
        st.cons.assume_ge(C.sym("maximum_packet_size_recv"), oracle.NOLIMIT)
    if connver == "V3_1_1":
        st.cons.assume_ge(C.sym("maximum_packet_size_send"), oracle.NOLIMIT)
    st.x["feed"] = ("Complete", raw_value(C, raw, fh, data))
    C.parse_terms = {}
    runs = C.call(st, "recv", mk("arg", ("cursor",), f.locals[2]))
    b = Body(body, ln, cls, flags)
    analyse(C, res, runs, lambda o: o.recv(connver, nibble, b))


def raw_value(C, raw, fh, data):
    fs = []
    for n, t in raw.vs[0][2]:
        ty = C.P.types[t]
        if ty.k == "int":
            fs.append(fh)
        else:
            fs.append(data)
    if len(fs) != 2:
        raise LookupError("anchor RawPacket fields")
    return mk("agg", (0, tuple(fs)), raw.id)


def job_feed(C, res, connver, what):
    f = C.method("recv")
    st = mk_state(C, connver)
    st.x["feed"] = (what, None)
    runs = C.call(st, "recv", mk("arg", ("cursor",), f.locals[2]))
    analyse(C, res, runs, lambda o: o.feed_error() if what == "Error" else o.feed_incomplete())


def job_timer(C, res, connver, kind):
    f = C.method("notify_timer_fired")
    t = C.P.types[f.locals[2]]
    st = mk_state(C, connver)
    C.timer_fired = kind
    if connver == "V3_1_1":
        st.cons.assume_ge(C.sym("maximum_packet_size_send"), oracle.NOLIMIT)
    try:
        runs = C.call(st, "notify_timer_fired", C.enum(t.id, kind))
        analyse(C, res, runs, lambda o: o.timer(connver, kind))
    finally:
        C.timer_fired = None


def job_closed(C, res, connver, bits):
    # case split over the timer flags and need_store
    fix = {n: (bits >> i) & 1 for i, n in enumerate(("pingreq_send_set", "pingreq_recv_set", "pingresp_recv_set", "need_store"))}
    if C.role == "Client" and fix["pingreq_recv_set"] or connver == "Undetermined" and bits & 7:
        return
    st = mk_state(C, connver, **fix)
    runs = C.call(st, "notify_closed")
    analyse(C, res, runs, lambda o: o.notify_closed())


SETTERS = {"set_auto_pub_response": "auto_pub_response", "set_auto_ping_response": "auto_ping_response",
           "set_auto_map_topic_alias_send": "auto_map_topic_alias_send",
           "set_auto_replace_topic_alias_send": "auto_replace_topic_alias_send",
           "set_pingresp_recv_timeout": "pingresp_recv_timeout_ms"}


def unit_ret(sp, o, r, ret, c):
    pass


def job_set(C, res, connver, name):
    f = C.method(name)
    st = mk_state(C, connver)
    a = mk("arg", ("value",), f.locals[2])
    runs = C.call(st, name, a)
    if name in SETTERS:
        analyse(C, res, runs, lambda o: o.sp.set(SETTERS[name], a), unit_ret)
    elif name == "set_offline_publish":
        analyse(C, res, runs, lambda o: o.set_offline_publish(a), unit_ret)
    elif name == "set_pingreq_send_interval":
        analyse(C, res, runs, lambda o: o.set_pingreq_send_interval(a))
    elif name == "restore_qos2_publish_handled":
        analyse(C, res, runs, lambda o: o.sp.f.__setitem__("qos2_publish_handled", C.unwrap_set(a)), unit_ret)


def result_is(sp, C, ret, name, c):
    if not sp.is_var(ret, name):
        c.miss("ret", f"returns {terms.show(ret)}, expected {name}")
        return False
    return True


def job_ids(C, res, connver, name):
    f = C.method(name)
    st = mk_state(C, connver)
    if name == "acquire_packet_id":
        runs = C.call(st, name)

        def fn(o):
            full = sp_full(o.sp)
            o.sp.dc.add("pid_man")
            return full

        def rc(sp, o, full, ret, c):
            if full:
                result_is(sp, C, ret, "Err", c)
                if C.unwrap_set(C.post(c.cst, "pid_man")).ops:
                    c.miss("f:pid_man", "identifier reserved although acquire failed")
                return
            if not result_is(sp, C, ret, "Ok", c):
                return
            t = sp.payload(ret, "Ok")
            s = C.unwrap_set(C.post(c.cst, "pid_man"))
            if not (s.base is C.base_of("pid_man") and len(s.ops) == 1 and s.ops[0][0] == "+" and s.ops[0][1] is t):
                c.miss("f:pid_man", f"acquired {terms.show(t)} but pid_man = {terms.show(C.post(c.cst, 'pid_man'))}")
        analyse(C, res, runs, fn, rc)
        return
    a = mk("arg", ("id",), f.locals[2])
    st.cons.assume_ge(a, 0)
    runs = C.call(st, name, a)
    if name == "register_packet_id":
        analyse(C, res, runs, lambda o: o.register(a), lambda sp, o, r, ret, c: result_is(sp, C, ret, r, c))
    elif name == "release_packet_id":
        analyse(C, res, runs, lambda o: o.release_id(a))
    elif name == "erase_stored_publish":
        analyse(C, res, runs, lambda o: o.erase_stored(a))


def sp_full(sp):
    return sp.ask(mk("call", ("alloc-full", sp.C.alloc_term(sp)), sp.I.bool_ty))


def job_new(C, res, connver):
    f = C.method("new")
    st = mk_state(C, connver)
    C.I.abnormal, C.I.unknown, C.I.nstates = [], {}, 0
    ver = C.version(connver)
    runs = (C.I.run_fn(st, f, [ver]), C.I.abnormal)
    for s, ret in runs[0]:
        s.mem[SELF] = ret
    analyse(C, res, runs, lambda o: o.new(), unit_ret)


def job_get(C, res, connver, name):
    f = C.method(name)
    st = mk_state(C, connver)
    if name == "restore_packets":
        a = mk("arg", ("packets",), f.locals[2])
        runs = C.call(st, name, a)
        analyse(C, res, runs, lambda o: o.restore(a), unit_ret)
    elif name == "regulate_for_store":
        p = mk("arg", ("pkt",), f.locals[2])
        runs = C.call(st, name, p)

        def rc(sp, o, r, ret, c):
            if r is None:
                result_is(sp, C, ret, "Err", c)
            elif result_is(sp, C, ret, "Ok", c):
                x = c.pub(sp.payload(ret, "Ok"), r)
                if x:
                    c.miss("ret", x)
        analyse(C, res, runs, lambda o: o.regulate(p), rc)
    else:
        runs = C.call(st, name)

        def rc(sp, o, r, ret, c):
            if name == "get_protocol_version":
                if not c.val_eq(ret, sp.get("protocol_version")):
                    c.miss("ret", f"returns {terms.show(ret)}")
            elif name == "get_receive_maximum_vacancy_for_send":
                mx = o.optval("publish_send_max")
                if mx is None:
                    want = ("none",)
                else:
                    n = sp.get("publish_send_count")
                    want = ("some", 0 if sp.cmp("Ge", n, mx) else sub(mx, n))
                if not c.val_eq(ret, want):
                    c.miss("ret", f"vacancy {terms.show(ret)}, expected {spec.show_ref(want)}")
            elif name == "get_qos2_publish_handled":
                s = C.unwrap_set(ret)
                if s is None or s.base is not C.base_of("qos2_publish_handled") or s.ops:
                    c.miss("ret", f"exports {terms.show(ret)}")
            elif name == "get_stored_packets":
                b = C.base_of("store")
                want = mk("values", (b,))
                if not is_values_of(sp, c, ret, b):
                    c.miss("ret", f"exports {terms.show(ret)}, expected every stored packet in order")
        analyse(C, res, runs, lambda o: None, rc)


def is_values_of(sp, c, v, b):
    """v is the sequence of all values of map b in order"""
    es = models.elems_of(v) if isinstance(v, V) else None
    if es is None or not any(x[0] == "iterend" and x[1] is b for x in c.cst.trace_list()):
        return False
    n = len(sp.elems(b))
    if len(es) != n:
        return False
    return all(isinstance(e, V) and e.k == "mget" and e.a[0] is b and isinstance(e.a[1], V) and e.a[1].k == "elem" and e.a[1].a == (b, i)
               for i, e in enumerate(es))


JOBS = {"new": job_new, "get": job_get, "send": job_send, "csend": job_csend, "recv": job_recv, "feed": job_feed, "timer": job_timer, "closed": job_closed,
        "set": job_set, "ids": job_ids}


def run(C, job, known=()):
    r = Res(job)
    r.known = known
    t = time.time()
    C.quirks = set()
    JOBS[job[0]](C, r, *job[1:])
    r.unknown = dict(C.I.unknown)
    r.t = time.time() - t
    return r


def checked_jobs(role):
    return [("csend", v, pv + k) for v in VERS for pv in ("V3_1_1", "V5_0") for k in oracle.KINDS.values() if (pv, k) != ("V3_1_1", "Auth")]


def all_jobs(role):
    out = []
    for v in VERS + ("Undetermined",):
        for pv in VERS:
            for k in oracle.KINDS.values():
                if (pv, k) != ("V3_1_1", "Auth"):
                    out.append(("send", v, pv + k))
        for n in range(16):
            out.append(("recv", v, n, 1))
        if v in VERS:
            for c in (2, 3, 4):
                out.append(("recv", v, 4, c))
        out.append(("feed", v, "Error"))
        out.append(("feed", v, "Incomplete"))
        for k in ("PingreqSend", "PingreqRecv", "PingrespRecv"):
            if v in VERS:
                out.append(("timer", v, k))
        for b in range(16):
            out.append(("closed", v, b))
        out.append(("new", v))
        for g in ("restore_packets", "regulate_for_store", "get_protocol_version", "get_receive_maximum_vacancy_for_send",
                  "get_qos2_publish_handled", "get_stored_packets"):
            out.append(("get", v, g))
        for s in list(SETTERS) + ["set_offline_publish", "set_pingreq_send_interval", "restore_qos2_publish_handled"]:
            out.append(("set", v, s))
        for s in ("acquire_packet_id", "register_packet_id", "release_packet_id", "erase_stored_publish"):
            out.append(("ids", v, s))
    return out
