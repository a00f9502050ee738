"""Loader for the monomorphised-MIR dump written by /verif/driver."""
import json, re


class Ty:
    __slots__ = ("id", "s", "k", "d", "path", "vs", "args", "e", "es", "n", "w", "sg", "fn", "size", "caps", "ckind", "mut", "_disc")

    def __init__(self, i, d):
        self.id = i
        self.d = d
        self.s = d["s"]
        self.k = d["k"]
        self.path = d.get("path", "")
        self.vs = d.get("vs", [])
        self.args = d.get("args", [])
        self.e = d.get("e")
        self.es = d.get("es", [])
        self.n = d.get("n")
        self.w = d.get("w")
        self.sg = d.get("sg", 0)
        self.fn = d.get("fn")
        self.size = d.get("size")
        self.caps = d.get("caps", [])
        self.ckind = d.get("ckind")
        self.mut = d.get("mut")
        self._disc = None

    def __repr__(self):
        return f"<{self.s}>"

    def variant_index(self, name):
        for i, v in enumerate(self.vs):
            if v[0] == name:
                return i
        return None

    def field_index(self, name, variant=0):
        for i, f in enumerate(self.vs[variant][2]):
            if f[0] == name:
                return i
        return None


class Fn:
    __slots__ = ("id", "d", "path", "inst", "local", "body", "name", "trait", "self_ty", "args", "kind", "sig",
                 "bbs", "locals", "nargs", "spread", "file", "line", "vars", "pub", "npath")

    def __init__(self, d):
        self.d = d
        self.id = d["id"]
        self.path = d["path"]
        self.inst = d["inst"]
        self.local = bool(d["local"])
        self.body = bool(d["body"])
        self.name = d.get("name", "")
        self.trait = d.get("trait", "")
        self.self_ty = d.get("self")
        self.args = d["args"]
        self.kind = d["kind"]
        self.sig = d.get("sig")
        self.bbs = d.get("bbs")
        self.locals = d.get("locals")
        self.nargs = d.get("nargs")
        self.spread = d.get("spread", -1)
        self.file = d.get("file", "")
        self.line = d.get("line", 0)
        self.vars = d.get("vars", {})
        self.pub = d.get("pub", 0)
        self.npath = norm(self.path)

    def __repr__(self):
        return f"fn#{self.id} {self.inst}"


def norm(p):
    p = p.replace("crate::<impl ", "<impl crate::") if p.startswith("crate::<impl") else p
    return p


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.crate = d["crate"]
        self.types = [Ty(i, t) for i, t in enumerate(d["types"])]
        self.fns = [Fn(x) for x in d["fns"]]
        self.roots = d["roots"]
        self.by_name = {}
        for f in self.fns:
            self.by_name.setdefault(f.name, []).append(f)
        self.ty_by_s = {t.s: t for t in self.types}

    def ty(self, i):
        return self.types[i]

    def find(self, name, **kw):
        """functions with item name `name`, filtered by substrings of the instance string / path."""
        out = []
        for f in self.by_name.get(name, []):
            ok = True
            for k, v in kw.items():
                if k == "inst" and v not in f.inst:
                    ok = False
                elif k == "path" and v not in f.path:
                    ok = False
                elif k == "self_s" and (f.self_ty is None or self.types[f.self_ty].s != v):
                    ok = False
                elif k == "self_has" and (f.self_ty is None or v not in self.types[f.self_ty].s):
                    ok = False
                elif k == "trait" and v not in f.trait:
                    ok = False
            if ok:
                out.append(f)
        return out

    def one(self, name, **kw):
        r = [f for f in self.find(name, **kw) if f.body]
        if len(r) != 1:
            raise LookupError(f"anchor {name} {kw}: {len(r)} matches {[x.inst for x in r][:6]}")
        return r[0]

    # ------------------------------------------------------------- printing
    def pplace(self, p):
        s = f"_{p[0]}"
        for e in p[1]:
            if e == "*":
                s = f"(*{s})"
            elif e[0] == "f":
                s += f".{e[1]}"
            elif e[0] == "v":
                s += f" as v{e[1]}"
            elif e[0] == "i":
                s += f"[_{e[1]}]"
            else:
                s += str(e)
        return s

    def pop(self, o):
        if o[0] in ("c", "m"):
            return ("" if o[0] == "c" else "mv ") + self.pplace(o[1])
        if o[0] == "k":
            return "const " + self.pconst(o[1])
        return str(o)

    def pconst(self, c):
        if c[0] == "int":
            return f"{c[1]}:{self.types[c[2]].s}"
        if c[0] == "bytes":
            try:
                return repr(bytes(c[1]))
            except Exception:
                return str(c)
        if c[0] in ("fn", "zst", "opaque"):
            return f"{c[0]} {self.types[c[1]].s}"
        if c[0] == "ref":
            return "&" + self.pconst(c[1])
        if c[0] == "agg":
            return f"{self.types[c[1]].s}#{c[2]}({', '.join(self.pconst(x) for x in c[3])})"
        return str(c)

    def prv(self, r):
        k = r[0]
        if k == "use":
            return self.pop(r[1])
        if k == "ref":
            return "&" + self.pplace(r[1])
        if k == "cast":
            return f"{self.pop(r[2])} as {self.types[r[3]].s} [{r[1]}]"
        if k == "bin":
            return f"{r[1]}({self.pop(r[2])}, {self.pop(r[3])})"
        if k == "un":
            return f"{r[1]}({self.pop(r[2])})"
        if k == "disc":
            return f"disc({self.pplace(r[1])})"
        if k == "adt":
            return f"{self.types[r[1]].s}#{r[2]}({', '.join(self.pop(x) for x in r[3])})"
        if k in ("tup",):
            return f"({', '.join(self.pop(x) for x in r[1])})"
        if k in ("arr",):
            return f"[{', '.join(self.pop(x) for x in r[2])}]"
        return str(r)

    def dump(self, f):
        print(f"{f!r}  {f.file}:{f.line} nargs={f.nargs} vars={f.vars}")
        for i, b in enumerate(f.bbs):
            if b["cl"]:
                continue
            print(f" bb{i}:")
            for s in b["s"]:
                if s[0] == "=":
                    print(f"   {self.pplace(s[1])} = {self.prv(s[2])}   // {s[3]}")
                else:
                    print("   ", s)
            t = b["t"]
            if t[0] == "call":
                c = t[1]
                if c[0] == "i":
                    cs = self.fns[c[1]].inst + ("" if self.fns[c[1]].body else " [nobody]")
                else:
                    cs = str(c)
                print(f"   {self.pplace(t[4])} = {cs}({', '.join(self.pop(x) for x in t[2])}) -> bb{t[6]}  // {t[7]}")
            elif t[0] == "sw":
                print(f"   switch {self.pop(t[1])} {t[2]} else bb{t[3]} // {t[5]}")
            elif t[0] == "assert":
                print(f"   assert {self.pop(t[1])}=={t[2]} {t[3]} -> bb{t[5]} // {t[6]}")
            else:
                print("   ", t)


if __name__ == "__main__":
    import sys
    p = Program(sys.argv[1])
    for a in sys.argv[2:]:
        m = [f for f in p.fns if f.body and re.search(a, f.inst)]
        print(len(m))
        for f in m[:1]:
            p.dump(f)
