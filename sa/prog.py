"""The program under analysis, as written down by the driver."""
import json
import re


def strip_generics(s):
    out = []
    depth = 0
    i = 0
    while i < len(s):
        c = s[i]
        if s.startswith("::<", i) and not s.startswith("::<impl", i):
            # skip balanced
            d = 0
            j = i + 2
            while j < len(s):
                if s[j] == "<":
                    d += 1
                elif s[j] == ">" and s[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(c)
        i += 1
    return "".join(out)


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.callees = d["callees"]
        self.bodies = d["bodies"]
        self.fns = d["fns"]
        self.items = d["items"]
        self.files = d["files"]
        self.crate = d["crate"]
        self._heads = {}
        self._live = {}
        self._succ = {}
        self._intr = {}
        self._ni = {}
        self.nbodies = len(self.bodies)
        for i, c in enumerate(self.callees):
            c["id"] = i
            c["short"] = self.short(c)
        self._prep = set()
        self.synth = {}
        self._dropinfo = {}

    # ---- types
    def ty(self, i):
        return self.types[i]

    def tstr(self, i):
        return self.types[i]["s"]

    def peel(self, i):
        t = self.types[i]
        while t["k"] in ("ref",):
            i = t["e"]
            t = self.types[i]
        return i

    def last(self, path):
        return strip_generics(path).split("::")[-1]

    def tname(self, i):
        t = self.types[i]
        k = t["k"]
        if k == "adt":
            return self.last(t["path"])
        if k == "slice":
            return "[T]"
        if k == "array":
            return "[T;N]"
        if k == "ref":
            return "&" + self.tname(t["e"])
        return t["s"]

    def short(self, c):
        """A short name of a callee: Type::method, Trait::method or module::function (std), else its path."""
        p = c["path"]
        cr = c["crate"]
        if cr in ("core", "alloc", "std"):
            if "trait" in c:
                return self.last(c["trait"]) + "::" + c["name"]
            if "impl_self" in c:
                return self.tname(c["impl_self"]) + "::" + c["name"]
            return "::".join(strip_generics(p).split("::")[-2:])
        if "trait" in c:
            return strip_generics(c["trait"]) + "::" + c["name"]
        return strip_generics(p)

    # ---- bodies
    def body(self, i):
        b = self.bodies[i]
        if i not in self._prep:
            self._prep.add(i)
            self.prepare(b)
        return b

    def prepare(self, b):
        types = self.types

        def transparent(tid):
            s = types[tid]["s"]
            return s.startswith("std::ptr::Unique<") or s.startswith("std::ptr::NonNull<") or s.startswith("core::ptr::Unique<") or s.startswith("std::ptr::unique::Unique<")

        def place(p):
            out = [p[0]]
            vi = 0
            for e in p[1:]:
                if e == "*":
                    out.append("*")
                elif e[0] == "v":
                    vi = e[1]
                    continue
                elif e[0] == "f":
                    if not transparent(e[2]):
                        out.append(("f", vi, e[1]))
                elif e[0] == "i":
                    out.append(("i", e[1]))
                elif e[0] == "ci":
                    out.append(("ci", e[1], e[3]))
                elif e[0] == "s":
                    out.append(("s", e[1], e[2], e[3]))
                else:
                    out.append(("x",))
                vi = 0
            return tuple(out)

        def op(o):
            if o[0] in ("c", "m"):
                return (o[0], place(o[1]))
            return tuple(o)

        def rv(r):
            k = r[0]
            if k in ("use", "rep"):
                return (k, op(r[1]))
            if k == "ref":
                return (k, r[1], place(r[2]))
            if k in ("raw", "discr"):
                return (k, place(r[1])) + ((r[2],) if len(r) > 2 else ())
            if k == "cast":
                return (k, r[1], op(r[2]), r[3])
            if k == "bin":
                return (k, r[1], op(r[2]), op(r[3]))
            if k == "un":
                return (k, r[1], op(r[2]))
            if k == "agg":
                return (k, tuple(r[1]), tuple(op(x) for x in r[2]))
            return tuple(r)

        for bl in b["blocks"]:
            ss = []
            for s in bl["s"]:
                if s[0] == "=":
                    ss.append(("=", place(s[1]), rv(s[2]), s[3]))
                elif s[0] == "sd":
                    ss.append(("sd", place(s[1]), s[2]))
                else:
                    ss.append(tuple(s))
            bl["s"] = ss
            t = bl["t"]
            k = t[0]
            if k == "switch":
                t = (k, op(t[1]), tuple((v, x) for v, x in t[2]), t[3], t[4], t[5])
            elif k == "drop":
                t = (k, place(t[1]), t[2], t[3], t[4])
            elif k == "call":
                f = t[1]
                if f[0] == "ptr":
                    f = ("ptr", op(f[1]))
                t = (k, tuple(f), tuple(op(a) for a in t[2]), place(t[3]), t[4], t[5], tuple(t[6]), t[7])
            elif k == "assert":
                t = (k, op(t[1]), t[2], t[3], tuple(op(x) for x in t[4]), t[5], t[6])
            else:
                t = tuple(t)
            bl["t"] = t

    def successors(self, bi, bb):
        t = self.body(bi)["blocks"][bb]["t"]
        k = t[0]
        if k == "goto":
            return (t[1],)
        if k == "switch":
            return tuple(x for _, x in t[2]) + (t[3],)
        if k == "drop":
            return (t[2],)
        if k == "call":
            return (t[4],) if t[4] is not None else ()
        if k == "assert":
            return (t[5],)
        return ()

    def heads(self, bi):
        """loop heads (targets of back edges in a depth-first walk)"""
        h = self._heads.get(bi)
        if h is not None:
            return h
        h = set()
        color = {}
        stack = [(0, iter(self.successors(bi, 0)))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                c = color.get(s, 0)
                if c == 1:
                    h.add(s)
                elif c == 0:
                    color[s] = 1
                    stack.append((s, iter(self.successors(bi, s))))
                    break
            else:
                color[n] = 2
                stack.pop()
        self._heads[bi] = h
        return h

    def joins(self, bi):
        """blocks reached from more than one block"""
        r = self._succ.get(bi)
        if r is None:
            cnt = {}
            for i in range(len(self.body(bi)["blocks"])):
                for s in set(self.successors(bi, i)):
                    cnt[s] = cnt.get(s, 0) + 1
            r = {x for x, n in cnt.items() if n > 1}
            self._succ[bi] = r
        return r

    def live_in(self, bi):
        """per block: locals live on entry (borrowed locals are kept by reachability instead)"""
        r = self._live.get(bi)
        if r is not None:
            return r
        b = self.body(bi)
        n = len(b["blocks"])
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]

        def up(i, p):
            if p[0] not in dfn[i]:
                use[i].add(p[0])
            for e in p[1:]:
                if isinstance(e, tuple) and e[0] == "i" and e[1] not in dfn[i]:
                    use[i].add(e[1])

        def uop(i, o):
            if o[0] in ("c", "m"):
                up(i, o[1])

        def dp(i, p):
            if len(p) == 1:
                dfn[i].add(p[0])
            else:
                up(i, p)

        for i, bl in enumerate(b["blocks"]):
            for s in bl["s"]:
                if s[0] == "=":
                    r_ = s[2]
                    k = r_[0]
                    if k in ("use", "rep"):
                        uop(i, r_[1])
                    elif k == "ref":
                        up(i, r_[2])
                    elif k in ("raw", "discr"):
                        up(i, r_[1])
                    elif k == "cast":
                        uop(i, r_[2])
                    elif k == "bin":
                        uop(i, r_[2])
                        uop(i, r_[3])
                    elif k == "un":
                        uop(i, r_[2])
                    elif k == "agg":
                        for o in r_[2]:
                            uop(i, o)
                    dp(i, s[1])
                elif s[0] == "sd":
                    up(i, s[1])
            t = bl["t"]
            k = t[0]
            if k == "switch":
                uop(i, t[1])
            elif k == "drop":
                up(i, t[1])
            elif k == "call":
                if t[1][0] == "ptr":
                    uop(i, t[1][1])
                elif t[1][0] == "clos":
                    up(i, t[1][1])
                for o in t[2]:
                    uop(i, o)
                if len(t[3]) > 1:
                    up(i, t[3])
                else:
                    dfn[i].add(t[3][0])
            elif k == "assert":
                uop(i, t[1])
                for o in t[4]:
                    uop(i, o)
            elif k == "ret":
                up(i, (0,))
        live = [set(use[i]) for i in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in self.successors(bi, i):
                    out |= live[s]
                nl = use[i] | (out - dfn[i])
                if nl != live[i]:
                    live[i] = nl
                    ch = True
        self._live[bi] = live
        return live

    # ---- queries
    def find_fns(self, pred):
        return [f for f in self.fns if pred(f)]

    def where(self, sp):
        return "%s:%d" % (self.files[sp[0]], sp[1])

    def new_body(self, key, b):
        if key in self.synth:
            return self.synth[key]
        i = len(self.bodies)
        self.bodies.append(b)
        self._prep.add(i)
        self.synth[key] = i
        return i

    # does dropping this type do anything a rule could see?
    def drop_interesting(self, ti, interesting, seen=None):
        t = self.types[ti]
        if not t.get("nd"):
            return False
        k = (ti, id(interesting))
        if k in self._dropinfo:
            return self._dropinfo[k]
        if seen is None:
            seen = set()
        if ti in seen:
            return False
        seen.add(ti)
        r = False
        kk = t["k"]
        if kk == "adt":
            if "drop" in t or interesting(t):
                r = True
            else:
                subs = [f[1] for v in t.get("vs", ()) for f in v["fs"]]
                if not t.get("local"):
                    subs += t.get("args", [])
                r = any(self.drop_interesting(x, interesting, seen) for x in subs)
        elif kk == "tuple":
            r = any(self.drop_interesting(x, interesting, seen) for x in t["fs"])
        elif kk == "closure":
            r = any(self.drop_interesting(x, interesting, seen) for x in t["ups"])
        elif kk in ("array", "slice"):
            r = self.drop_interesting(t["e"], interesting, seen)
        elif kk in ("param", "alias", "dyn"):
            r = bool(interesting(t))
        if len(seen) == 1 or r:
            self._dropinfo[k] = r
        seen.discard(ti)
        return r


def _discr_of(self, tag, variant):
    if not hasattr(self, "_tagd"):
        self._tagd = {}
        for t in self.types:
            if t["k"] == "adt" and t.get("kind") == "enum" and "vs" in t:
                self._tagd.setdefault(t["path"], [v["d"] for v in t["vs"]])
    d = self._tagd.get(tag)
    if d is None:
        return variant
    return d[variant]


Program.discr_of = _discr_of
