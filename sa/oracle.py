"""Reference transfer functions of an MQTT endpoint (client / server, v3.1.1 /
v5.0), written from the property statements and the OASIS rules, not from the
code.  Each function runs on a symbolic pre-state (spec.Sp) and produces the
required events and post-state."""
import models
from terms import V, mk, add, sub, scale
from spec import Sp, SSet, SMap, Infeasible, EMPTY

NOLIMIT = 268435460
PIDSETS = ("pid_suback", "pid_unsuback", "pid_puback", "pid_pubrec", "pid_pubcomp", "pid_pubrel")
KINDS = {1: "Connect", 2: "Connack", 3: "Publish", 4: "Puback", 5: "Pubrec", 6: "Pubrel", 7: "Pubcomp",
         8: "Subscribe", 9: "Suback", 10: "Unsubscribe", 11: "Unsuback", 12: "Pingreq", 13: "Pingresp",
         14: "Disconnect", 15: "Auth"}
FROM_CLIENT = {"Connect", "Subscribe", "Unsubscribe", "Pingreq"}
FROM_SERVER = {"Connack", "Suback", "Unsuback", "Pingresp"}


def sendable(role, ver, kind):
    if role == "Any":
        return True
    if kind in FROM_CLIENT:
        return role == "Client"
    if kind in FROM_SERVER:
        return role == "Server"
    if kind == "Disconnect" and ver == "V3_1_1":
        return role == "Client"
    return True


def receivable(role, ver, kind):
    if kind == "Auth" and ver == "V3_1_1":
        return False
    if role == "Any":
        return True
    peer = "Server" if role == "Client" else "Client"
    return sendable(peer, ver, kind)


class Oracle:
    def __init__(self, C, sp):
        self.C, self.sp = C, sp
        self.sei = None
        self.role = C.role
        self.pids = [f for f in PIDSETS if f in C.fields]
        if "pid_pubrel" not in C.fields:
            pass

    # ------------------------------------------------------------- small helpers
    def status(self, name):
        v = self.sp.get("status")
        if isinstance(v, tuple):
            return v[1] == name
        return self.sp.is_var(v, name)

    def connected(self):
        return self.status("Connected")

    def flag(self, name):
        return self.sp.truth(self.sp.get(name))

    def enumset(self, name, v):
        self.sp.set(name, ("enum", v))

    def optval(self, name):
        v = self.sp.get(name)
        if isinstance(v, tuple):
            return v[1] if v[0] == "some" else None
        return self.sp.opt(v)

    def used(self, pid):
        return self.sp.has("pid_man", pid)

    def release(self, pid):
        self.sp.rem("pid_man", pid)
        self.sp.rel(pid)

    def refuse(self, pid=None, code=None):
        """a refused send: error event; an identifier carried by it is released"""
        self.sp.note("refused")
        self.sp.err(code)
        if pid is not None and self.used(pid):
            self.release(pid)

    def not_in(self, name, pid):
        s = self.sp.gset(name) if name != "store" else self.sp.gmap(name)
        b = s.base
        if isinstance(b, V) and b.k != "empty":
            if self.sp.member(s, pid):
                raise Infeasible

    def fresh_id(self, pid, pubrel=False):
        """precondition of a correctly used connection: the identifier of a new request is not owned by
        an exchange already in flight"""
        for f in self.pids + ["store"]:
            if not (pubrel and f == "pid_pubrel"):
                self.not_in(f, pid)

    # ------------------------------------------------------------------- timers
    def post_send(self):
        sp = self.sp
        if not self.flag("is_client"):
            return
        ms = self.optval("pingreq_user_send_interval_ms")
        if ms is None:
            ms = self.optval("pingreq_server_keep_alive_ms")
        if ms is None:
            ms = sp.get("pingreq_keep_alive_ms")
        if sp.cmp("Gt", ms, 0):
            sp.set("pingreq_send_set", 1)
            sp.tset("PingreqSend", ms)

    def refresh(self):
        sp = self.sp
        ms = sp.get("pingreq_recv_timeout_ms")
        if self.status("Disconnected"):
            return
        if sp.cmp("Ne", ms, 0):
            sp.set("pingreq_recv_set", 1)
            sp.tset("PingreqRecv", ms)

    def cancel(self, kind, fl):
        if self.flag(fl):
            self.sp.tcancel(kind)
            self.sp.set(fl, 0)

    def cancel_timers(self):
        self.cancel("PingreqSend", "pingreq_send_set")
        self.cancel("PingreqRecv", "pingreq_recv_set")
        self.cancel("PingrespRecv", "pingresp_recv_set")

    # -------------------------------------------------------------------- sends
    def fits(self, p):
        sp = self.sp
        size = sp.acc(p, "size")
        return not sp.cmp("Gt", size, sp.get("maximum_packet_size_send"))

    def built_fits(self, variant, fields):
        """does a generated packet fit the peer's limit?"""
        t = self.C.built_term(variant, fields, self.sp)
        if t is None:
            return True
        return self.fits(t)

    def auto(self, ver, kind, fields):
        """automatically generated response"""
        sp = self.sp
        if ver == "V5_0" and not self.built_fits(ver + kind, fields):
            sp.note("size-auto")
            sp.err()
            return False
        sp.note("auto")
        if kind in ("Puback", "Pubcomp") and ver == "V5_0":
            sp.rem("publish_recv", fields["packet_id"])
        sp.send(("built", ver + kind, fields))
        self.post_send()
        return True

    def err_v5(self, code=None, reason=None):
        """protocol-level failure on a v5.0 connection"""
        sp = self.sp
        if self.connected():
            self.v5_disconnect({"reason_code": ("enum", reason) if reason else ("any",)})
        sp.err(code)

    def v5_disconnect(self, fields):
        sp = self.sp
        self.enumset("status", "Disconnected")
        self.cancel_timers()
        if self.built_fits("V5_0Disconnect", fields):
            sp.send(("built", "V5_0Disconnect", fields))
        sp.close()

    def err_v3(self, code=None):
        self.sp.close()
        self.sp.err(code)

    def perr(self, ver, code=None, reason=None):
        if ver == "V5_0":
            self.err_v5(code, reason)
        else:
            self.err_v3(code)

    # ------------------------------------------------------- session / connection
    def initialize(self, is_client):
        sp = self.sp
        none = ("none",)
        for f in ("publish_send_max", "publish_recv_max", "topic_alias_send", "topic_alias_recv",
                  "pingreq_server_keep_alive_ms"):
            sp.set(f, none)
        sp.set("publish_send_count", 0)
        sp.set("pingreq_keep_alive_ms", 0)
        sp.set("pingreq_recv_timeout_ms", 0)
        sp.clear("publish_recv")
        sp.clear("pid_suback")
        sp.clear("pid_unsuback")
        sp.set("need_store", 0)
        sp.set("is_client", 1 if is_client else 0)

    def clear_session(self):
        sp = self.sp
        sp.note("newsession")
        for f in ("pid_man", "pid_puback", "pid_pubrec", "pid_pubcomp", "pid_pubrel", "qos2_publish_handled"):
            if f in self.C.fields:
                sp.clear(f)
        sp.set("store", SMap(EMPTY))

    def store_elems(self):
        sp = self.sp
        m = sp.gmap("store")
        b = m.base
        return sp.elems(b, self.C.pidty) if not (isinstance(b, V) and b.k == "empty") else []

    def send_stored(self, ver):
        """retransmit every stored packet in store order; oversize ones are dropped and their id released"""
        sp = self.sp
        sp.note("resume")
        for k in self.store_elems():
            var, p = self.entry(k, ver)
            if not self.fits(p):
                sp.note("size-stored")
                m = sp.gmap("store")
                sp.f["store"] = SMap(m.base, m.ops + (("-", k),))
                for f in ("pid_puback", "pid_pubrec", "pid_pubcomp", "pid_pubrel"):
                    if f in self.C.fields:
                        sp.rem(f, k)
                self.release(k)
                continue
            sp.send(("same", var, p))
            if ver == "V5_0":
                mx = self.optval("publish_send_max")
                if mx is not None:
                    c = sp.get("publish_send_count")
                    if sp.cmp("Lt", c, 65535):
                        sp.set("publish_send_count", add(c, 1))
        if ver == "V5_0":
            self.count_pubrel()

    def count_pubrel(self):
        """exchanges whose PUBREL the application has not sent yet count as incomplete on this connection too"""
        sp = self.sp
        if "pid_pubrel" not in self.C.fields:
            return
        if self.optval("publish_send_max") is None:
            return
        for k in sp.elems(sp.gset("pid_pubrel").base, self.C.pidty):
            c = sp.get("publish_send_count")
            if sp.cmp("Lt", c, 65535):
                sp.set("publish_send_count", add(c, 1))

    def entry(self, k, ver=None):
        """(variant, packet) of the stored packet filed under identifier k"""
        sp = self.sp
        v = self.C.stored_value(sp, k)
        if ver is not None:
            # session invariant: stored packets are of the connection's protocol version
            n = sp.variant(v)
            if not n.startswith(ver):
                raise Infeasible
        else:
            n = sp.variant(v)
        return n, sp.payload(v, n)

    def in_store(self, pid):
        return self.sp.has("store", pid)

    def entry_is(self, pid, ver, kind, qos=None):
        """session invariant (store-kind): what is stored under an id awaiting an acknowledgement"""
        sp = self.sp
        if not self.in_store(pid):
            return False
        n, p = self.entry(pid, ver)
        if n != ver + kind:
            raise Infeasible
        if qos is not None and sp.qos(p) != qos:
            raise Infeasible
        return True

    def dec_count(self):
        sp = self.sp
        if self.optval("publish_send_max") is not None:
            c = sp.get("publish_send_count")
            if sp.cmp("Gt", c, 0):
                sp.set("publish_send_count", sub(c, 1))

    # ===================================================================== send
    def send(self, connver, ver, kind, p):
        sp = self.sp
        pid = None
        if kind == "Publish":
            self.q = sp.qos(p)
            if self.q > 0:
                pid = sp.pid(p)
        elif kind in ("Subscribe", "Unsubscribe", "Pubrel"):
            pid = sp.pid(p)
        if pid is not None:
            self.fresh_id(pid, kind == "Pubrel")
        rpid = None if kind == "Pubrel" else pid
        if connver != ver:
            sp.note("version")
            return self.refuse(rpid)
        if not sendable(self.role, ver, kind):
            sp.note("role")
            return self.refuse(rpid)
        if ver == "V5_0" and not self.fits(p):
            sp.note("size-send")
            return self.refuse(rpid)
        if ver == "V3_1_1" and not self.v3_limits():
            raise Infeasible
        getattr(self, "s_" + kind.lower())(ver, p, pid)

    def v3_limits(self):
        return True

    def passthru(self, ver, kind, p):
        self.sp.send(("same", ver + kind, p))
        self.post_send()

    def s_simple(self, ver, kind, p):
        if not self.connected():
            return self.refuse()
        self.passthru(ver, kind, p)

    def s_connect(self, ver, p, pid):
        sp = self.sp
        if not self.status("Disconnected"):
            return self.refuse()
        clean = sp.truth(sp.acc(p, "clean_start"))
        self.initialize(True)
        self.enumset("status", "Connecting")
        sp.set("pingreq_keep_alive_ms", scale(sp.acc(p, "keep_alive"), 1000))
        if clean:
            self.clear_session()
        if ver == "V3_1_1":
            sp.set("need_store", 0 if clean else 1)
        else:
            for e in sp.elems(sp.acc(p, "props"), None, "seq", True):
                n = self.prop(e)
                if n is None:
                    continue
                if n == "TopicAliasMaximum":
                    m = self.val(e, n)
                    if sp.cmp("Ne", m, 0):
                        sp.set("topic_alias_recv", ("tal", None, m, []))
                elif n == "ReceiveMaximum":
                    sp.set("publish_recv_max", ("some", self.val(e, n)))
                elif n == "MaximumPacketSize":
                    sp.set("maximum_packet_size_recv", self.val(e, n))
                elif n == "SessionExpiryInterval":
                    if sp.cmp("Ne", self.val(e, n), 0):
                        sp.set("need_store", 1)
        self.passthru(ver, "Connect", p)

    PROPS = ("TopicAliasMaximum", "ReceiveMaximum", "MaximumPacketSize", "SessionExpiryInterval",
             "ServerKeepAlive", "TopicAlias")

    def prop(self, e):
        for n in self.PROPS:
            if self.sp.is_var(e, n):
                return n
        return None

    def val(self, e, n):
        sp = self.sp
        o = sp.payload(e, n)
        t = sp.acc(o, "val")
        if n in ("ReceiveMaximum", "MaximumPacketSize", "TopicAlias"):
            sp.assume(sp.I.cmp(sp.st, "Ge", t, 1))   # property values validated on construction (C18)
        return t

    def s_connack(self, ver, p, pid):
        sp = self.sp
        if not self.status("Connecting"):
            return self.refuse()
        if ver == "V5_0":
            okc = sp.is_var(sp.acc(p, "reason_code"), "Success")
        else:
            okc = sp.is_var(sp.acc(p, "return_code"), "Accepted")
        if ver == "V5_0" and okc:
            for e in sp.elems(sp.acc(p, "props"), None, "seq", True):
                n = self.prop(e)
                if n == "TopicAliasMaximum":
                    m = self.val(e, n)
                    if sp.cmp("Ne", m, 0):
                        sp.set("topic_alias_recv", ("tal", None, m, []))
                elif n == "ReceiveMaximum":
                    sp.set("publish_recv_max", ("some", self.val(e, n)))
                elif n == "MaximumPacketSize":
                    sp.set("maximum_packet_size_recv", self.val(e, n))
                elif n == "ServerKeepAlive":
                    v = self.val(e, n)
                    if sp.cmp("Eq", v, 0):
                        self.cancel("PingreqRecv", "pingreq_recv_set")
                        sp.set("pingreq_recv_timeout_ms", 0)
                    else:
                        sp.set("pingreq_recv_timeout_ms", scale(v, 1500))
                        sp.set("pingreq_recv_set", 1)
                        sp.tset("PingreqRecv", scale(v, 1500))
        sp.send(("same", ver + "Connack", p))
        if not okc:
            self.enumset("status", "Disconnected")
            self.cancel_timers()
            sp.close()
            return
        self.enumset("status", "Connected")
        if sp.truth(sp.acc(p, "session_present")):
            self.send_stored(ver)
        else:
            self.clear_session()
        self.post_send()

    # ---- PUBLISH
    def first_alias(self, p):
        """value of the first Topic Alias property (or None)"""
        sp = self.sp
        for e in sp.elems(sp.acc(p, "props"), None, "seq"):
            if sp.is_var(e, "TopicAlias"):
                return self.val(e, "TopicAlias")
        return None

    def tas(self):
        """(option term, table term, max) of the outbound alias table"""
        sp = self.sp
        o = sp.get("topic_alias_send")
        if isinstance(o, tuple):
            return None
        t = sp.opt(o)
        if t is None:
            return None
        mx, base, ops = self.C.tas_parts(sp.I, sp.st, t)
        sp.assume(sp.I.cmp(sp.st, "Ge", mx, 1))
        return o, base, mx

    def bound(self, base, alias, isrecv=False):
        """topic bound to alias, or None"""
        sp = self.sp
        if isinstance(base, V) and base.k == "empty":
            return None
        if isinstance(alias, V) and alias.k == "call" and alias.a[0] == "alias_of":
            return alias.a[2]
        if sp.ask(mk("in", (base, alias), sp.I.bool_ty)):
            t = mk("call", ("topic_of", base, alias), None)
            return t
        return None

    def s_publish(self, ver, p, pid):
        sp = self.sp
        q = self.q
        conn = self.connected()
        if not conn:
            if q == 0:
                return self.refuse()
            if not self.flag("need_store") and not self.flag("offline_publish"):
                return self.refuse(pid)
        if q > 0 and not self.used(pid):
            return sp.err()
        mx = None
        touch = bind = None
        topic = None
        out = ("same", ver + "Publish", p)
        stored = ("pub", ver + "Publish", p, 1, None, None)
        if ver == "V5_0":
            if conn and q > 0:
                mx = self.optval("publish_send_max")
                if mx is not None and sp.cmp("Ge", sp.get("publish_send_count"), mx):
                    sp.note("rm-send")
                    return self.refuse(pid, None)
            alias = self.first_alias(p)
            topic = sp.acc(p, "topic_name")
            empty = sp.cmp("Eq", models.seq_len(sp.I, sp.st, topic), 0)
            tas = self.tas() if (empty or alias is not None) else None
            if empty or alias is not None:
                if tas is None or alias is None or sp.cmp("Eq", alias, 0) or sp.cmp("Gt", alias, tas[2]):
                    sp.note("alias-send")
                    return self.refuse(pid)
            if empty:
                t = self.bound(tas[1], alias)
                if t is None:
                    sp.note("alias-send")
                    return self.refuse(pid)
                touch = alias
                stored = ("pub", ver + "Publish", p, 1, ("is", t), ("none",))
            else:
                stored = ("pub", ver + "Publish", p, 1, None, ("none",))
                if alias is not None:
                    bind = (alias, topic)
                elif conn:
                    amap = self.flag("auto_map_topic_alias_send")
                    if amap or self.flag("auto_replace_topic_alias_send"):
                        tas = self.tas()
                        if tas is not None:
                            if sp.truth(mk("call", ("has_topic", tas[1], topic), sp.I.bool_ty)):
                                al = mk("call", ("alias_of", tas[1], topic), self.C.u16)
                                cand = mk("call", ("remove_topic_add_topic_alias", p, al), p.ty)
                                if self.fits(cand):
                                    out = ("pub", ver + "Publish", p, None, ("empty",), ("is", al))
                                    touch = al
                            elif amap:
                                al = mk("call", ("lru", tas[1]), self.C.u16)
                                cand = mk("call", ("add_topic_alias", p, al), p.ty)
                                if self.fits(cand):
                                    out = ("pub", ver + "Publish", p, None, None, ("is", al))
                                    bind = (al, topic)
        rel = None
        if q > 0:
            if self.flag("need_store") or not conn:
                m = sp.gmap("store")
                sp.f["store"] = SMap(m.base, m.ops + (("+", pid, stored),))
            else:
                rel = pid
            sp.ins("pid_pubrec" if q == 2 else "pid_puback", pid)
        if conn:
            if mx is not None:
                sp.set("publish_send_count", add(sp.get("publish_send_count"), 1))
            if ver == "V5_0" and (touch is not None or bind is not None):
                o, base, tm = tas
                ops = [("touch", touch)] if touch is not None else []
                if bind is not None:
                    ops.append(("bind",) + bind)
                sp.note("alias-use")
                sp.set("topic_alias_send", ("tal", o, tm, ops))
            sp.send(out, rel)
            self.post_send()
        else:
            sp.dc.add(("touch", "topic_alias_send"))

    # ---- acknowledgements
    def s_puback(self, ver, p, pid):
        if not self.connected():
            return self.refuse()
        if ver == "V5_0":
            self.sp.rem("publish_recv", self.sp.pid(p))
        self.passthru(ver, "Puback", p)

    def failure(self, rc):
        """v5 reason code value >= 0x80"""
        sp = self.sp
        d = sp.I.discriminant(sp.st, rc, rc.ty)
        return sp.cmp("Ge", d, 128)

    def s_pubrec(self, ver, p, pid):
        sp = self.sp
        if not self.connected():
            return self.refuse()
        if ver == "V5_0":
            rc = sp.opt(sp.acc(p, "reason_code"))
            if rc is not None and self.failure(rc):
                i = sp.pid(p)
                sp.rem("publish_recv", i)
                sp.rem("qos2_publish_handled", i)
        self.passthru(ver, "Pubrec", p)

    def s_pubcomp(self, ver, p, pid):
        if not self.connected():
            return self.refuse()
        if ver == "V5_0":
            self.sp.rem("publish_recv", self.sp.pid(p))
        self.passthru(ver, "Pubcomp", p)

    def s_pubrel(self, ver, p, pid):
        sp = self.sp
        conn = self.connected()
        if not conn and not self.flag("need_store"):
            return self.refuse()
        if not self.used(pid):
            return sp.err()
        self.track_pubrel(ver, ("same", ver + "Pubrel", p), pid)
        if conn:
            self.passthru(ver, "Pubrel", p)

    def track_pubrel(self, ver, pk, pid):
        sp = self.sp
        if self.flag("need_store"):
            m = sp.gmap("store")
            sp.f["store"] = SMap(m.base, m.ops + (("+", pid, pk),))
        sp.rem("pid_pubrel", pid) if "pid_pubrel" in self.C.fields else None
        sp.ins("pid_pubcomp", pid)

    def s_subscribe(self, ver, p, pid, kind="Subscribe", field="pid_suback"):
        sp = self.sp
        if not self.connected():
            return self.refuse(pid)
        if not self.used(pid):
            return sp.err()
        sp.ins(field, pid)
        sp.send(("same", ver + kind, p), pid)
        self.post_send()

    def s_unsubscribe(self, ver, p, pid):
        self.s_subscribe(ver, p, pid, "Unsubscribe", "pid_unsuback")

    def s_suback(self, ver, p, pid):
        self.s_simple(ver, "Suback", p)

    def s_unsuback(self, ver, p, pid):
        self.s_simple(ver, "Unsuback", p)

    def arm_pingresp(self):
        sp = self.sp
        ms = sp.get("pingresp_recv_timeout_ms")
        if sp.cmp("Ne", ms, 0):
            sp.set("pingresp_recv_set", 1)
            sp.tset("PingrespRecv", ms)

    def s_pingreq(self, ver, p, pid):
        if not self.connected():
            return self.refuse()
        self.sp.send(("same", ver + "Pingreq", p))
        self.arm_pingresp()
        self.post_send()

    def s_pingresp(self, ver, p, pid):
        self.s_simple(ver, "Pingresp", p)

    def s_disconnect(self, ver, p, pid):
        if not self.connected():
            return self.refuse()
        self.enumset("status", "Disconnected")
        self.cancel_timers()
        self.sp.send(("same", ver + "Disconnect", p))
        self.sp.close()

    def s_auth(self, ver, p, pid):
        if self.status("Disconnected"):
            return self.refuse()
        self.passthru(ver, "Auth", p)

    # ===================================================================== recv
    def recv(self, connver, nibble, body):
        sp = self.sp
        sp.set("packet_builder", ("frame", "fed"))
        ln = body.length
        total = add(ln, 2 if body.cls == 1 else 3 if body.cls == 2 else 4 if body.cls == 3 else 5)
        if connver == "V5_0":
            if sp.cmp("Gt", total, sp.get("maximum_packet_size_recv")):
                sp.note("toolarge")
                if self.connected():
                    self.v5_disconnect({"reason_code": ("enum", "PacketTooLarge")})
                sp.err("PacketTooLarge")
                return
        else:
            # only a v5.0 peer can have been told a limit
            if sp.cmp("Gt", total, sp.get("maximum_packet_size_recv")):
                raise Infeasible
        kind = KINDS.get(nibble)
        if connver == "Undetermined":
            sp.note("detect")
            if kind is not None and not receivable(self.role, "V5_0", kind):
                return sp.err()
            if kind != "Connect":
                return sp.err()
            if sp.cmp("Lt", ln, 7):
                return sp.err()
            lv = self.C.index_term(sp, body, 6)
            if sp.cmp("Eq", lv, 4):
                ver = "V3_1_1"
            elif sp.cmp("Eq", lv, 5):
                ver = "V5_0"
            else:
                return sp.err()
            self.enumset("protocol_version", ver)
        else:
            ver = connver
            if kind is None:
                sp.note("gate")
                return sp.err()
            if not receivable(self.role, ver, kind):
                sp.note("gate")
                return sp.err(None if self.role == "Any" else "ProtocolError")
        self.ver = ver
        getattr(self, "r_" + kind.lower())(ver, kind, body)

    def parse(self, ver, kind, body):
        """packet or None (then the error term is self.perror)"""
        sp = self.sp
        t = self.C.parse_result(sp, ver, kind, body)
        if sp.is_var(t, "Ok"):
            tup = sp.payload(t, "Ok")
            return sp.tuple_field(tup, 0)
        sp.note("malformed")
        self.perror = sp.payload(t, "Err")
        return None

    def accept(self, ver, kind, p):
        self.refresh()
        self.sp.recvd(ver + kind, p)

    def r_connect(self, ver, kind, body):
        sp = self.sp
        if sp.cmp("Lt", sp.get("maximum_packet_size_send"), NOLIMIT) and self.status("Disconnected"):
            raise Infeasible          # a new transport starts after notify_closed
        if not self.status("Disconnected"):
            sp.note("dupconnect")
            return self.perr(ver, "ProtocolError", "ProtocolError")
        p = self.parse(ver, kind, body)
        if p is None:
            self.cancel_timers()
            fields = {("reason_code" if ver == "V5_0" else "return_code"): ("notenum", "Success" if ver == "V5_0" else "Accepted"),
                      "session_present": 0}
            sp.send(("built", ver + "Connack", fields))
            sp.close()
            sp.err()
            return
        clean = sp.truth(sp.acc(p, "clean_start"))
        self.initialize(False)
        self.enumset("status", "Connecting")
        ka = sp.acc(p, "keep_alive")
        sp.set("pingreq_recv_timeout_ms", scale(ka, 1500))
        if clean:
            self.clear_session()
        if ver == "V3_1_1":
            sp.set("need_store", 0 if clean else 1)
        else:
            for e in sp.elems(sp.acc(p, "props"), None, "seq", True):
                n = self.prop(e)
                if n == "TopicAliasMaximum":
                    m = self.val(e, n)
                    if sp.cmp("Ne", m, 0):
                        sp.set("topic_alias_send", ("tal", None, m, []))
                elif n == "ReceiveMaximum":
                    sp.set("publish_send_max", ("some", self.val(e, n)))
                elif n == "MaximumPacketSize":
                    sp.set("maximum_packet_size_send", self.val(e, n))
                elif n == "SessionExpiryInterval":
                    if sp.cmp("Ne", self.val(e, n), 0):
                        sp.set("need_store", 1)
        self.accept(ver, kind, p)

    def r_connack(self, ver, kind, body):
        sp = self.sp
        p = self.parse(ver, kind, body)
        if p is None:
            return self.perr(ver)
        if self.connected():
            sp.note("dupconnect")
            return self.perr(ver, "ProtocolError", "ProtocolError")
        if ver == "V5_0":
            okc = sp.is_var(sp.acc(p, "reason_code"), "Success")
        else:
            okc = sp.is_var(sp.acc(p, "return_code"), "Accepted")
        if okc:
            self.enumset("status", "Connected")
            if ver == "V5_0":
                for e in sp.elems(sp.acc(p, "props"), None, "seq", True):
                    n = self.prop(e)
                    if n == "TopicAliasMaximum":
                        m = self.val(e, n)
                        if sp.cmp("Ne", m, 0):
                            sp.set("topic_alias_send", ("tal", None, m, []))
                    elif n == "ReceiveMaximum":
                        sp.set("publish_send_max", ("some", self.val(e, n)))
                    elif n == "MaximumPacketSize":
                        sp.set("maximum_packet_size_send", self.val(e, n))
                    elif n == "ServerKeepAlive":
                        ms = scale(self.val(e, n), 1000)
                        sp.set("pingreq_server_keep_alive_ms", ("some", ms))
                        if self.optval("pingreq_user_send_interval_ms") is None:
                            if sp.cmp("Eq", ms, 0):
                                self.cancel("PingreqSend", "pingreq_send_set")
                            else:
                                sp.set("pingreq_send_set", 1)
                                sp.tset("PingreqSend", ms)
                    elif n == "SessionExpiryInterval":
                        self.sei = 1 if sp.cmp("Ne", self.val(e, n), 0) else 0
                        sp.set("need_store", self.sei)
            if sp.truth(sp.acc(p, "session_present")) and not (
                    ver == "V5_0" and self.sei == 0 and sp.quirk("connack-session-expiry-zero")):
                self.send_stored(ver)
            else:
                self.clear_session()
        sp.recvd(ver + kind, p)

    def r_publish(self, ver, kind, body):
        sp = self.sp
        p = self.parse(ver, kind, body)
        if p is None:
            return self.perr(ver)
        q = sp.qos(p)
        pid = sp.pid(p) if q > 0 else None
        out = ("same", ver + kind, p)
        if ver == "V5_0":
            if q > 0:
                mx = self.optval("publish_recv_max")
                if mx is not None and not sp.has("publish_recv", pid):
                    n = models.coll_len(sp.I, sp.st, sp.gset("publish_recv").base)
                    if sp.cmp("Ge", n, mx):
                        sp.note("rm-recv")
                        return self.err_v5("ReceiveMaximumExceeded", "ReceiveMaximumExceeded")
            alias = self.first_alias(p)
            topic = sp.acc(p, "topic_name")
            empty = sp.cmp("Eq", models.seq_len(sp.I, sp.st, topic), 0)
            bad = lambda: (sp.note("alias-bad"), self.err_v5("TopicAliasInvalid", "TopicAliasInvalid"))[1]
            if empty or alias is not None:
                sp.note("alias-recv")
                o = sp.get("topic_alias_recv")
                t = sp.opt(o)
                if t is None or alias is None:
                    return bad()
                mx, base, _ = self.C.tas_parts(sp.I, sp.st, t)
                if sp.cmp("Eq", alias, 0) or sp.cmp("Gt", alias, mx):
                    return bad()
                if empty:
                    tn = self.bound(base, alias, True)
                    if tn is None:
                        return bad()
                    ex = self.C.mut_result(sp, "add_extracted_topic_name", p, tn)
                    if ex is not None and not sp.is_var(ex, "Ok"):
                        return bad()
                    out = ("pub", ver + kind, p, None, ("extracted", tn), None)
                else:
                    sp.set("topic_alias_recv", ("tal", o, mx, [("bind", alias, topic)]))
            if q > 0:
                sp.ins("publish_recv", pid)
        auto = self.flag("auto_pub_response") if q > 0 else False
        deliver = True
        if q == 1:
            if auto and self.connected():
                self.auto(ver, "Puback", {"packet_id": pid})
        elif q == 2:
            if sp.has("qos2_publish_handled", pid):
                deliver = False
                sp.note("dup")
            else:
                sp.ins("qos2_publish_handled", pid)
            if (auto or not deliver) and self.connected():
                self.auto(ver, "Pubrec", {"packet_id": pid})
        self.refresh()
        if deliver:
            sp.recvd(ver + kind, out)

    def erase(self, pid):
        sp = self.sp
        m = sp.gmap("store")
        sp.f["store"] = SMap(m.base, m.ops + (("-", pid),))

    def r_puback(self, ver, kind, body):
        sp = self.sp
        p = self.parse(ver, kind, body)
        if p is None:
            return self.perr(ver)
        pid = sp.pid(p)
        if not sp.has("pid_puback", pid):
            sp.note("badack")
            return self.perr(ver, "ProtocolError", "ProtocolError")
        self.entry_is(pid, ver, "Publish", 1)
        sp.rem("pid_puback", pid)
        self.erase(pid)
        self.release(pid)
        if ver == "V5_0":
            self.dec_count()
        self.accept(ver, kind, p)

    def r_pubrec(self, ver, kind, body):
        sp = self.sp
        p = self.parse(ver, kind, body)
        if p is None:
            return self.perr(ver)
        pid = sp.pid(p)
        if not sp.has("pid_pubrec", pid):
            sp.note("badack")
            return self.perr(ver, "ProtocolError", "ProtocolError")
        self.entry_is(pid, ver, "Publish", 2)
        sp.rem("pid_pubrec", pid)
        self.erase(pid)
        fail = False
        if ver == "V5_0":
            rc = sp.opt(sp.acc(p, "reason_code"))
            fail = rc is not None and self.failure(rc)
        if fail:
            self.release(pid)
            self.dec_count()
            return self.accept(ver, kind, p)
        if "pid_pubrel" in self.C.fields:
            sp.ins("pid_pubrel", pid)
        if self.flag("auto_pub_response") and self.connected():
            fields = {"packet_id": pid}
            if ver == "V5_0" and not self.built_fits(ver + "Pubrel", fields):
                sp.err()
            else:
                self.track_pubrel(ver, ("built", ver + "Pubrel", fields), pid)
                sp.send(("built", ver + "Pubrel", fields))
                self.post_send()
        self.accept(ver, kind, p)

    def r_pubrel(self, ver, kind, body):
        sp = self.sp
        p = self.parse(ver, kind, body)
        if p is None:
            return self.perr(ver)
        pid = sp.pid(p)
        auto = self.flag("auto_pub_response") and self.connected()
        known = None
        if auto and ver == "V5_0":
            known = sp.has("qos2_publish_handled", pid)
        sp.rem("qos2_publish_handled", pid)
        if auto:
            f = {"packet_id": pid}
            if known is False:
                f["reason_code"] = ("enum", "PacketIdentifierNotFound")
            self.auto(ver, "Pubcomp", f)
        self.accept(ver, kind, p)

    def r_pubcomp(self, ver, kind, body):
        sp = self.sp
        p = self.parse(ver, kind, body)
        if p is None:
            return self.perr(ver)
        pid = sp.pid(p)
        if not sp.has("pid_pubcomp", pid):
            sp.note("badack")
            return self.perr(ver, "ProtocolError", "ProtocolError")
        self.entry_is(pid, ver, "Pubrel")
        sp.rem("pid_pubcomp", pid)
        self.erase(pid)
        self.release(pid)
        if ver == "V5_0":
            self.dec_count()
        self.accept(ver, kind, p)

    def r_plain(self, ver, kind, body):
        p = self.parse(ver, kind, body)
        if p is None:
            return self.perr(ver)
        self.accept(ver, kind, p)

    r_subscribe = r_unsubscribe = r_auth = r_plain

    def r_suback(self, ver, kind, body, field="pid_suback"):
        sp = self.sp
        p = self.parse(ver, kind, body)
        if p is None:
            return self.perr(ver)
        pid = sp.pid(p)
        if not sp.has(field, pid):
            sp.note("badack")
            return self.perr(ver, "ProtocolError", "ProtocolError")
        sp.rem(field, pid)
        self.release(pid)
        self.accept(ver, kind, p)

    def r_unsuback(self, ver, kind, body):
        self.r_suback(ver, kind, body, "pid_unsuback")

    def r_pingreq(self, ver, kind, body):
        p = self.parse(ver, kind, body)
        if p is None:
            return self.perr(ver)
        if self.role != "Client" and self.flag("auto_ping_response") and not self.flag("is_client") and self.connected():
            self.auto(ver, "Pingresp", {})
        self.accept(ver, kind, p)

    def r_pingresp(self, ver, kind, body):
        p = self.parse(ver, kind, body)
        if p is None:
            return self.perr(ver)
        self.cancel("PingrespRecv", "pingresp_recv_set")
        if self.role != "Client" and not self.flag("is_client"):
            self.sp.dc.add(("timer", "PingreqRecv"))
            self.sp.dc.add("pingreq_recv_set")
        self.sp.recvd(ver + kind, p)

    def r_disconnect(self, ver, kind, body):
        p = self.parse(ver, kind, body)
        if p is None:
            return self.perr(ver)
        self.cancel_timers()
        self.sp.recvd(ver + kind, p)

    def feed_error(self):
        sp = self.sp
        sp.set("packet_builder", ("frame", "fed"))
        self.cancel_timers()
        sp.close()
        sp.err()

    def feed_incomplete(self):
        self.sp.set("packet_builder", ("frame", "fed"))

    # ============================================================ notifications
    def timer(self, connver, kind):
        sp = self.sp
        fl = {"PingreqSend": "pingreq_send_set", "PingreqRecv": "pingreq_recv_set", "PingrespRecv": "pingresp_recv_set"}[kind]
        if not self.flag(fl):
            raise Infeasible       # only armed timers fire
        sp.set(fl, 0)
        if kind == "PingreqSend":
            if self.connected():
                if connver == "V5_0" and not self.built_fits("V5_0Pingreq", {}):
                    return sp.err()
                sp.send(("built", connver + "Pingreq", {}))
                self.arm_pingresp()
                self.post_send()
            return
        if connver == "V3_1_1":
            sp.close()
        elif self.connected():
            self.v5_disconnect({"reason_code": ("enum", "KeepAliveTimeout")})
            if not any(e[0] == "send" for e in sp.ev):
                sp.err()

    def notify_closed(self):
        sp = self.sp
        none = ("none",)
        self.enumset("status", "Disconnected")
        sp.set("packet_builder", ("frame", "reset"))
        for f in ("maximum_packet_size_send", "maximum_packet_size_recv"):
            sp.set(f, ("nolimit",))
        for f in ("topic_alias_send", "topic_alias_recv", "publish_send_max", "publish_recv_max",
                  "pingreq_server_keep_alive_ms"):
            sp.set(f, none)
        for f in ("pingreq_keep_alive_ms", "pingreq_recv_timeout_ms", "publish_send_count"):
            sp.set(f, 0)
        sp.clear("publish_recv")
        for f in ("publish_send_max", "publish_recv_max", "pingreq_server_keep_alive_ms", "pingreq_keep_alive_ms",
                  "pingreq_recv_timeout_ms", "publish_send_count", "publish_recv"):
            sp.dc.add(f)   # may be reset here or when the next CONNECT is exchanged (rule connect/init)
        self.drain("pid_suback")
        self.drain("pid_unsuback")
        if not self.flag("need_store"):
            for f in ("pid_puback", "pid_pubrec", "pid_pubcomp", "pid_pubrel"):
                if f in self.C.fields:
                    self.drain(f)
            sp.clear("qos2_publish_handled")
            sp.set("store", SMap(EMPTY))
        self.cancel_timers()

    def drain(self, f):
        sp = self.sp
        b = sp.gset(f).base
        for k in sp.elems(b, self.C.pidty):
            self.release(k)
        sp.clear(f)

    # ================================================================= settings
    def set_pingreq_send_interval(self, arg):
        sp = self.sp
        sp.set("pingreq_user_send_interval_ms", arg)
        ms = sp.opt(arg)
        if ms is None:
            return
        if sp.cmp("Eq", ms, 0):
            self.cancel("PingreqSend", "pingreq_send_set")
        elif self.connected():
            sp.set("pingreq_send_set", 1)
            sp.tset("PingreqSend", ms)

    def set_offline_publish(self, b):
        sp = self.sp
        sp.set("offline_publish", b)
        if sp.truth(b):
            sp.set("need_store", 1)

    # ======================================================= identifier management
    def acquire(self):
        """-> 'err' or 'ok' (the fresh identifier is checked by the caller)"""

    def register(self, pid):
        sp = self.sp
        if sp.cmp("Eq", pid, 0) or self.used(pid):
            return "Err"
        sp.ins("pid_man", pid)
        return "Ok"

    def release_id(self, pid):
        sp = self.sp
        if sp.cmp("Eq", pid, 0):
            for f in self.pids + ["store"]:
                self.not_in(f, pid)        # identifiers are never 0
            return
        if not self.used(pid):
            return
        self.not_in("store", pid)          # stored exchanges are abandoned through erase_stored_publish
        for f in self.pids:
            if sp.has(f, pid):
                sp.rem(f, pid)
                if f not in ("pid_suback", "pid_unsuback"):
                    self.dec_count()
                break
        self.release(pid)

    def erase_stored(self, pid):
        sp = self.sp
        if sp.cmp("Eq", pid, 0):
            for f in self.pids + ["store"]:
                self.not_in(f, pid)        # identifiers are never 0
        if not self.in_store(pid):
            return
        n, p = self.entry(pid)
        if not n.endswith("Publish"):
            return
        q = sp.qos(p)
        if q == 0:
            raise Infeasible
        if not sp.has("pid_puback" if q == 1 else "pid_pubrec", pid):
            raise Infeasible           # store-kind invariant
        self.erase(pid)
        sp.rem("pid_puback", pid)
        sp.rem("pid_pubrec", pid)
        self.dec_count()
        self.release(pid)

    def new(self):
        sp = self.sp
        none = ("none",)
        for f in ("topic_alias_send", "topic_alias_recv", "publish_send_max", "publish_recv_max",
                  "pingreq_server_keep_alive_ms", "pingreq_user_send_interval_ms"):
            sp.set(f, none)
        for f in ("pingreq_keep_alive_ms", "pingreq_recv_timeout_ms", "pingresp_recv_timeout_ms", "publish_send_count",
                  "need_store", "offline_publish", "auto_pub_response", "auto_ping_response", "auto_map_topic_alias_send",
                  "auto_replace_topic_alias_send", "pingreq_send_set", "pingreq_recv_set", "pingresp_recv_set", "is_client"):
            sp.set(f, 0)
        for f in ("maximum_packet_size_send", "maximum_packet_size_recv"):
            sp.set(f, ("nolimit",))
        for f in self.pids + ["pid_man", "publish_recv", "qos2_publish_handled"]:
            sp.clear(f)
        sp.set("store", SMap(EMPTY))
        self.enumset("status", "Disconnected")
        sp.set("packet_builder", ("frame", "reset"))

    def regulate(self, p):
        """-> reference PUBLISH or None (error)"""
        sp = self.sp
        topic = sp.acc(p, "topic_name")
        if not sp.cmp("Eq", models.seq_len(sp.I, sp.st, topic), 0):
            return ("pub", "V5_0Publish", p, None, None, ("none",))
        alias = self.first_alias(p)
        tas = self.tas()
        if alias is None or tas is None or sp.cmp("Gt", alias, tas[2]):
            return None
        t = self.bound(tas[1], alias)
        if t is None:
            return None
        return ("pub", "V5_0Publish", p, None, ("is", t), ("none",))

    def restore(self, arg):
        sp = self.sp
        for e in sp.elems(arg, None, "seq", True):
            n = sp.variant(e)
            p = sp.payload(e, n)
            if n.endswith("Publish"):
                q = sp.qos(p)
                if q == 0:
                    continue
                pid, f = sp.pid(p), ("pid_puback" if q == 1 else "pid_pubrec")
            else:
                pid, f = sp.pid(p), "pid_pubcomp"
            if self.used(pid):
                continue
            sp.ins("pid_man", pid)
            sp.ins(f, pid)
            m = sp.gmap("store")
            sp.f["store"] = SMap(m.base, m.ops + (("+", pid, ("same", n, p)),))
