"""Subscription options and subscription entries on their own: every option byte, every setter from every valid value, every accessor; entries built, changed and parsed."""
from interp import State
from framing import Undec
from pktcodec import Build
from terms import V, mk, add, sub, scale, show
import models as M

FIELDS = {"qos": (0, 3), "nl": (2, 2), "rap": (3, 2), "rh": (4, 3)}      # bit position, number of values


def valid(b):
    return not b & 0xC0 and b & 3 < 3 and (b >> 4) & 3 < 3


def field(b, n):
    return b >> FIELDS[n][0] & (3 if n in ("qos", "rh") else 1)


def setf(b, n, v):
    p, k = FIELDS[n]
    return b & ~((3 if k == 3 else 1) << p) | v << p


class Opts(Build):
    WHO = "C02 C03 C04"

    def own(self, ty, name, nargs=None, first=None):
        fs = [f for f in self.P.by_name.get(name, []) if f.body and f.self_ty == ty and f.sig and not f.trait
              and (nargs is None or len(f.sig[0]) == nargs) and (first is None or self.P.types[f.sig[0][0]].s == first)]
        if len(fs) != 1:
            raise LookupError(f"{self.P.types[ty].s}::{name}")
        return fs[0]

    def typ(self, name):
        ts = [t.id for t in self.P.types if t.path.endswith("sub_entry::" + name)]
        if len(ts) != 1:
            raise LookupError(name)
        return ts[0]

    def must(self, s, f, args, props="C02 C04 C05"):
        outs, ab = self.run(s, f, args)
        for x in ab[:1]:
            self.bad(props, f"{f.name} on subscription options panics", str(x), x.st if hasattr(x, "st") else None)
        return [(a, r) for a, r in outs if self.alive(a)]

    def self_arg(self, f, x):
        t = f.sig[0][0]
        return self.valref(None, x, t) if self.P.types[t].k == "ref" else x

    def look(self, s, o, want, where):
        """every accessor of an options value"""
        R = self.R
        for n in FIELDS:
            f = self.own(self.so, n, 1)
            for s1, r in self.must(s.fork(), f, [self.self_arg(f, o)], "C04 C05"):
                R.obligations += 1
                r = self.I.discriminant(s1, r, r.ty) if isinstance(r, V) and n in ("qos", "rh") else self.I.boolval(s1, r) if isinstance(r, V) else r
                r = s1.cons.value(r) if isinstance(r, V) else r
                if r != field(want, n):
                    self.bad(self.WHO, f"SubOpts::{n}() is not the specified field", f"{where} = 0x{want:02x}: {show(r)}", s1)
        f = self.own(self.so, "to_buffer", 1)
        for s1, r in self.must(s.fork(), f, [self.self_arg(f, o)]):
            R.obligations += 1
            d = self.eqbytes(s1, M.rdd(self.I, s1, r), M.mkvec([want], None))
            if d:
                self.bad("C02 C03", "SubOpts::to_buffer() is not the option byte", f"{where} = 0x{want:02x}: {d}", s1)

    def make(self, b):
        f = self.own(self.so, "from_u8", 1)
        return [(s, r.a[1][0]) for s, r in self.must(State(), f, [b]) if self.variant(r) == "Ok"]

    def opts_unit(self):
        R = self.R
        self.so, self.se = self.typ("SubOpts"), self.typ("SubEntry")
        R.units += 1
        f = self.own(self.so, "from_u8", 1)
        for b in range(256):
            for s, r in self.must(State(), f, [b], "C04 C05"):
                R.paths += 1
                R.obligations += 1
                ok = self.variant(r) == "Ok"
                if ok != valid(b):
                    self.bad("C04 C03", f"option byte {'accepted' if ok else 'refused'} against the specification", f"SubOpts::from_u8(0x{b:02x})", s)
                elif ok:
                    self.look(s, r.a[1][0], b, "from_u8")
        for n in ("new", "default"):
            fs = [g for g in self.P.by_name.get(n, []) if g.body and g.self_ty == self.so and not g.sig[0]]
            if len(fs) != 1:
                R.anchor(f"SubOpts::{n}", self.WHO.split())
                continue
            for s, o in self.must(State(), fs[0], []):
                self.look(s, o, 0, n)
        for n, (p, k) in FIELDS.items():
            f = self.own(self.so, "set_" + n, 2)
            at = f.sig[0][1]
            for b in range(64):
                if not valid(b):
                    continue
                for v in range(k):
                    a = mk("agg", (self.P.types[at].vs and next(i for i, x in enumerate(self.P.types[at].vs) if x[1] == v), ()), at) if k == 3 else v
                    for s, o in self.make(b):
                        for s1, o1 in self.must(s, f, [o, a]):
                            R.paths += 1
                            self.look(s1, o1, setf(b, n, v), f"0x{b:02x}.set_{n}({v})")

    # ------------------------------------------------------------ entries
    def entry_is(self, s, e, topic, ob, where):
        """topic: content term; ob: option byte"""
        R, I = self.R, self.I
        s = s.fork()
        n = M.seq_len(I, s, topic)
        if not s.cons.assume_le(n, 65535):
            return
        wire = M.mkvec([mk("splice", (M.mkvec(self.ints2(s, n), None),)), mk("splice", (topic,)), ob], None)
        for nm in ("topic_filter", "to_continuous_buffer", "to_buffers", "size"):
            f = self.own(self.se, nm, 1)
            for s1, r in self.must(s.fork(), f, [self.self_arg(f, e)]):
                R.obligations += 1
                if nm == "size":
                    d = None if self.same(s1, r, add(n, 3)) else show(r)
                else:
                    d = self.eqbytes(s1, self.concat(s1, r) if nm == "to_buffers" else M.rdd(I, s1, r), topic if nm == "topic_filter" else wire)
                if d:
                    self.bad("C02" if nm == "to_buffers" else self.WHO + (" C14" if nm == "size" else ""), f"SubEntry::{nm}() is not the entry", f"{where}: {d}", s1)
        f = self.own(self.se, "sub_opts", 1)
        for s1, r in self.must(s.fork(), f, [self.self_arg(f, e)]):
            o = M.rdd(I, s1, r)
            g = self.own(self.so, "to_buffer", 1)
            for s2, x in self.must(s1, g, [self.self_arg(g, o)]):
                R.obligations += 1
                d = self.eqbytes(s2, M.rdd(I, s2, x), M.mkvec([ob], None))
                if d:
                    self.bad(self.WHO, "SubEntry::sub_opts() is not the option byte", f"{where}: {d}", s2)

    def ints2(self, s, n):
        return [M.byte_of(self.I, s, n, 1, 2), M.byte_of(self.I, s, n, 0, 2)]

    def strarg(self, ty, v):
        t = self.P.types[ty]
        if t.k == "ref":
            return self.refstring(v)
        if t.path.endswith("::String"):
            return M.mkvec([mk("splice", (v,))], ty)
        return None

    def entry_unit(self):
        R, I = self.R, self.I
        self.so, self.se = self.typ("SubOpts"), self.typ("SubEntry")
        R.units += 1
        T, T2 = mk("arg", ("topic",), self.strt), mk("arg", ("other",), self.strt)
        news = [f for f in self.P.by_name.get("new", []) if f.body and f.self_ty == self.se and f.sig and len(f.sig[0]) == 2]
        if not news:
            R.anchor("SubEntry::new", self.WHO.split())
        setters = [("set_topic_filter", self.own(self.se, "set_topic_filter", 2)), ("set_sub_opts", self.own(self.se, "set_sub_opts", 2))]
        for f in news:
            a = self.strarg(f.sig[0][0], T)
            if a is None:
                continue
            for ob in (0, 0x2E, 0x01):
                for s0, o in self.make(ob):
                    for s, r in self.must(s0, f, [a, o]):
                        R.paths += 1
                        R.obligations += 1
                        n = M.seq_len(I, s, T)
                        ok = self.variant(r) == "Ok"
                        lo, hi = s.cons.bounds(n)
                        if (lo > 65535) if ok else (hi <= 65535):
                            self.bad("C02 C03", "SubEntry::new accepts / refuses a topic filter against its length limit", f"{'Ok' if ok else 'Err'} with length {lo}..{hi}", s)
                        if not ok:
                            continue
                        e = r.a[1][0]
                        self.entry_is(s, e, T, ob, "new")
                        if f is not news[0]:
                            continue
                        for s2, o2 in self.make(0x15):
                            pass
                        for nm, g in setters:
                            s3 = s.fork()
                            m = self.put(s3, e, g.sig[0][0])
                            x = o2 if nm == "set_sub_opts" else self.strarg(g.sig[0][1], T2)
                            for s4, r4 in self.must(s3, g, [m, x]):
                                R.paths += 1
                                e4 = M.rd(I, s4, m)
                                err = isinstance(r4, V) and r4.ty is not None and self.P.types[r4.ty].path.endswith("Result") and self.variant(r4) == "Err"
                                if err:
                                    l2 = M.seq_len(I, s4, T2)
                                    R.obligations += 1
                                    if s4.cons.bounds(l2)[1] <= 65535:
                                        self.bad("C02 C03", f"SubEntry::{nm} refuses a valid value", show(r4)[:80], s4)
                                    self.entry_is(s4, e4, T, ob, nm + " refused")
                                else:
                                    self.entry_is(s4, e4, T2 if nm == "set_topic_filter" else T, 0x15 if nm == "set_sub_opts" else ob, nm)
        # parse: any input
        f = self.own(self.se, "parse", 1)
        W = mk("arg", ("W",), self.slty)
        st = State()
        ln = mk("len", (W,), self.usz)
        st.cons.assume_le(ln, (1 << 62) - 1)
        for s, r in self.must(st, f, [self.valref(st, W, f.sig[0][0])], "C04 C05"):
            R.paths += 1
            if self.variant(r) != "Ok":
                continue
            e, used = r.a[1][0].a[1]
            at = lambda i: mk("at", (W, i), self.u8)
            n = add(scale(at(0), 256), at(1))
            R.obligations += 2
            if not self.same(s, used, add(n, 3)) or s.cons.bounds(sub(ln, used))[0] < 0:
                self.bad("C04", "SubEntry::parse consumes the wrong number of bytes", f"{show(used)} of {show(ln)}", s)
            g = self.own(self.se, "to_continuous_buffer", 1)
            for s1, x in self.must(s.fork(), g, [self.self_arg(g, e)]):
                R.obligations += 1
                d = self.eqbytes(s1, M.rdd(I, s1, x), mk("sl", (W, 0, used), self.slty))
                if d:
                    self.bad("C04 C02", "SubEntry::parse does not keep the bytes", d, s1)
            ob = at(add(n, 2))
            for b in range(256):
                s1 = s.fork()
                if not s1.cons.assume_eq(ob, b) or not self.alive(s1):
                    continue
                R.obligations += 1
                if not valid(b):
                    self.bad("C04 C03", "SubEntry::parse accepts an option byte the specification forbids", f"0x{b:02x}", s1)
                    break

    def put(self, s, v, ty):
        """a mutable reference to a place holding v"""
        loc = ("g", "entry")
        s.mem[loc] = v
        return mk("ref", (loc, ()), ty)
