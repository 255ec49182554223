"""Path-sensitive interprocedural dataflow over the MIR of the crate.

The analysis computes, for one root function, the set of abstract states at every program point
(context-sensitive by call string, so helpers are seen through).  States that agree are merged, loops are
widened to a fixpoint (counters to the loop's symbolic iteration number, everything else that
changes to an unknown), so it terminates without a bound on iterations and covers every path.
Branch conditions only prune contradictory facts; no solver is involved.
"""
import sys
import time
from terms import *
import terms

sys.setrecursionlimit(20000)


GROWING = ("set", "vpush", "upd", "vext", "phi")
ELEMENTS = ("item", "elem", "app", "find")


class Incomplete(Exception):
    pass


class Frame:
    __slots__ = ("bi", "bb", "ret", "kont")

    def __init__(self, bi, bb, ret, kont):
        self.bi = bi
        self.bb = bb
        self.ret = ret      # (root, path) in the caller, or None
        self.kont = kont    # None or (name, args...): continuation applied to the returned value

    def key(self):
        return (self.bi, self.bb, self.ret, self.kont)


class State:
    __slots__ = ("frames", "mem", "facts", "trace", "mon", "counts", "snaps", "fresh")

    def clone(self):
        s = State()
        s.frames = self.frames
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.mon = self.mon
        s.counts = dict(self.counts)
        s.snaps = self.snaps
        s.fresh = False
        return s

    def key(self):
        return (
            tuple(f.key() for f in self.frames),
            frozenset(self.mem.items()),
            frozenset(self.facts.items()),
            self.trace,
            self.mon,
            frozenset(self.counts.items()),
        )


class Exit:
    """a way out of the root function"""
    def __init__(self, kind, ret, st, site=None):
        self.kind = kind    # 'return' | 'panic' | 'diverge'
        self.ret = ret
        self.st = st
        self.trace = st.trace
        self.facts = st.facts
        self.mem = st.mem
        self.mon = st.mon
        self.site = site


class Call:
    """what a model or a rule sees of one call"""
    __slots__ = ("c", "name", "args", "atys", "dty", "site", "span", "bi", "bb")


class Engine:
    def __init__(self, prog, opaque=None, rel=None, hook=None, interesting=None, max_states=60000, max_depth=60,
                 rel_assume=None, time_limit=None, panics=False, keep_facts=None, split=None, tag=None):
        self.p = prog
        self.opaque = opaque or (lambda c: False)
        self.rel = rel or (lambda eng, st, call, res: None)
        self.hook = hook
        self.interesting = interesting or (lambda t: False)
        self.max_states = max_states
        self.max_depth = max_depth
        self.rel_assume = rel_assume
        self.panics = panics
        self.patterns = {}
        self.nstates = 0
        self.ncalls = {}
        self.visited_bodies = set()
        self.settle = None      # called at each loop head: write down what the facts say before they are forgotten
        self.unknown = {}
        self.time_limit = time_limit
        self.keep_facts = keep_facts
        self.split = split      # (eng, st, call, res) -> [(value, monitor)] to tell the outcomes of a call apart
        self.tag = tag          # (eng, st, call) -> term that becomes part of the name of the call's result
        self.panic_sites = {}
        self.phisrc = {}
        self.domain = {}
        self.origin = {}
        import models
        self.models = models

    # ------------------------------------------------------------ memory
    def init(self, st, root):
        if root.op == "O":
            p = root.args[0]
            if p.op in ("vref", "&"):
                return p.args[0]
            return T("deref", p)
        if root.op == "L":
            return T("uninit")
        return T("init", root)

    def load(self, st, root, path=()):
        v = st.mem.get(root)
        if v is None:
            v = self.init(st, root)
        for pe in path:
            v = self.sel(v, pe)
        return v

    def sel(self, v, pe):
        k = pe[0]
        if k == "f":
            if v.op == "with":
                for (vi, i, x) in v.args[1]:
                    if (vi, i) == (pe[1], pe[2]):
                        return x
                return self.sel(v.args[0], pe)
            if v.op == "agg" and v.args[0] == "array":
                return T("fld", v, pe[1], pe[2])
            return fld(v, pe[1], pe[2])
        if k == "idx":
            if v.op == "agg" and v.args[0] == "array":
                i = pe[1]
                if i.op == "int":
                    if 0 <= i.args[0] < len(v.args[2]):
                        return v.args[2][i.args[0]]
                elif len(set(v.args[2])) == 1:
                    return v.args[2][0]
            if v.op == "vslice":   # element of a sub-slice
                base, lo, hi = v.args
                return self.sel(base, ("idx", add(lo, pe[1])))
            if v.op == "vpush":
                n = self.vlen(v)
                if n is not None and pe[1].op == "int":
                    w = v
                    k_ = n - 1 - pe[1].args[0]
                    while k_ > 0 and w.op == "vpush":
                        w = w.args[0]
                        k_ -= 1
                    if k_ == 0 and w.op == "vpush":
                        return w.args[1]
                if eq(pe[1], sub(T("len", v), INT(1))) is TRUE:
                    return v.args[1]
        if k in ("idx", "key") and v.op == "set":
            if v.args[1] == pe:
                return v.args[2]
            e = terms.eq(v.args[1][1], pe[1]) if v.args[1][0] == k else None
            if e is FALSE:
                return self.sel(v.args[0], pe)
        return T("elem", v, *pe)

    def vlen(self, v):
        n = 0
        while v.op == "vpush":
            n += 1
            v = v.args[0]
        if v.op == "vnew":
            return n
        if v.op == "agg" and v.args[0] == "array":
            return n + len(v.args[2])
        return None

    def length(self, v):
        """the length of a container value"""
        if v.op == "set" and v.args[1][0] == "idx":
            return self.length(v.args[0])
        n = self.vlen(v)
        if n is not None:
            return INT(n)
        if v.op == "vpush":
            return add(self.length(v.args[0]), INT(1))
        if v.op in ("str", "bytes"):
            return INT(len(v.args[0].encode() if v.op == "str" else v.args[0]))
        if v.op == "vslice":
            base, lo, hi = v.args
            return sub(hi, lo)
        if v.op == "zeros":
            return v.args[1]
        return T("len", v)

    def update(self, v, path, x):
        if not path:
            return x
        pe = path[0]
        inner = self.update(self.sel(v, pe), path[1:], x)
        k = pe[0]
        if k == "f":
            if v.op == "agg" and v.args[0] != "array" and pe[2] < len(v.args[2]):
                fs = list(v.args[2])
                fs[pe[2]] = inner
                return T("agg", v.args[0], v.args[1], tuple(fs))
            if v.op == "with":
                base, ov = v.args
            else:
                base, ov = v, ()
            if inner is fld(base, pe[1], pe[2]):
                nov = tuple(o for o in ov if (o[0], o[1]) != (pe[1], pe[2]))
            else:
                nov = tuple(sorted([o for o in ov if (o[0], o[1]) != (pe[1], pe[2])] + [(pe[1], pe[2], inner)], key=lambda o: o[:2]))
            return T("with", base, nov) if nov else base
        if v.op == "agg" and v.args[0] == "array" and k == "idx" and pe[1].op == "int" and pe[1].args[0] < len(v.args[2]):
            fs = list(v.args[2])
            fs[pe[1].args[0]] = inner
            return T("agg", "array", 0, tuple(fs))
        return self.setelem(v, pe, inner)

    def setelem(self, v, pe, x):
        if v.op == "set" and v.args[1] == pe:
            return T("set", v.args[0], pe, x)
        return T("set", v, pe, x)

    def store(self, st, root, path, x):
        if not path:
            st.mem[root] = x
            return
        v = st.mem.get(root)
        if v is None:
            v = self.init(st, root)
        st.mem[root] = self.update(v, path, x)

    def target(self, v):
        """the place a pointer value points to"""
        if v.op == "ref":
            return v.args[1], v.args[2]
        return T("O", v), ()

    def mkref(self, mut, root, path):
        # re-borrow of a whole opaque object is that pointer itself
        if root.op == "O" and not path:
            return root.args[0]
        return T("ref", mut, root, path)

    def place(self, st, pl):
        root = T("L", len(st.frames) - 1, pl[0])
        path = ()
        for e in pl[1:]:
            if e == "*":
                v = self.load(st, root, path)
                root, path = self.target(v)
            elif e[0] == "f":
                path = path + (e,)
            elif e[0] == "i":
                i = self.load(st, T("L", len(st.frames) - 1, e[1]))
                path = path + (("idx", i),)
            elif e[0] == "ci":
                if e[2]:
                    v = self.load(st, root, path)
                    path = path + (("idx", sub(self.length(v), INT(e[1]))),)
                else:
                    path = path + (("idx", INT(e[1])),)
            elif e[0] == "s":
                v = self.load(st, root, path)
                hi = INT(e[2]) if not e[3] else sub(self.length(v), INT(e[2]))
                root, path = T("O", T("vref", T("vslice", v, INT(e[1]), hi))), ()
            else:
                path = path + (("x",),)
        return root, path

    # ------------------------------------------------------------ values
    def const(self, st, c):
        ty = self.p.types[c["t"]]
        if "fn" in c:
            return T("fn", ty["c"])
        if "promoted" in c:
            return self.promoted(st, c["promoted"])
        if "v" in c:
            v = c["v"]
            if "int" in v:
                if v["int"] == 0 and self.niche(ty):
                    return T("agg", ty["path"], 0, ())
                if ty["k"] in ("adt", "tuple", "ref"):
                    return T("constbits", ty["s"], v["int"])
                return INT(v["int"])
            if "static" in v:
                return T("staticref", v["static"])
            if "bytes" in v:
                return T("vref", T("bytes", bytes.fromhex(v["bytes"])))
            if "fnref" in v:
                return T("fn", v["fnref"])
            if "reffn" in v:
                return T("vref", T("fn", v["reffn"]))
            return T("constmem", v.get("mem", "?"), ty["s"])
        if "zst" in c:
            if ty["k"] == "fndef":
                return T("fn", ty["c"])
            if ty["k"] == "closure":
                return T("agg", "closure:%d" % c["t"], 0, ())
            if ty["k"] == "tuple":
                return UNIT
            if ty["k"] == "adt":
                return T("agg", self.adtag(c["t"]), 0, ())
            return T("agg", ty["s"], 0, ())
        if "str" in c:
            if self.p.types[self.p.peel(c["t"])]["k"] == "slice":
                return T("vref", T("bytes", c["str"].encode()))
            return T("vref", T("str", c["str"]))
        if "bytes" in c:
            return T("vref", T("bytes", bytes.fromhex(c["bytes"])))
        if "variant" in c:
            return T("agg", self.adtag(c["t"]), c["variant"], (UNIT,) * c["units"])
        if "item" in c:
            return T("constitem", c["item"])
        if self.niche(ty) and "transmute(0x0000000000000000)" in c.get("text", ""):
            return T("agg", ty["path"], 0, ())
        return T("constother", c.get("text", "?"), ty["s"])

    def niche(self, ty):
        """an Option of a reference or a box, of which zero is None"""
        if ty["k"] != "adt" or ty["path"] != "std::option::Option":
            return False
        x = self.p.types[ty["args"][0]]
        return x["k"] == "ref" or x["k"] == "adt" and x["path"] == "std::boxed::Box"

    def adtag(self, ti):
        t = self.p.types[ti]
        return t["path"]

    def promoted(self, st, key):
        root = T("P", key)
        r = T("P", key, "res")
        if r in self.promo:
            return self.promo[r]
        b = self.p.body(key)
        s = State()
        s.frames = (Frame(key, 0, None, None),)
        s.mem, s.facts, s.trace, s.mon, s.counts, s.snaps = {}, {}, (), None, {}, {}
        bb = 0
        n = 0
        ok = True
        while n < 50:
            n += 1
            bl = b["blocks"][bb]
            for stt in bl["s"]:
                self.stmt(s, stt)
            t = bl["t"]
            if t[0] == "ret":
                break
            if t[0] == "goto":
                bb = t[1]
                continue
            if t[0] == "call" and t[1][0] == "fn" and t[4] is not None:
                c = self.p.callees[t[1][1]]
                args = tuple(self.operand(s, a) for a in t[2])
                rt, pt = self.place(s, t[3])
                self.store(s, rt, pt, T("app", c["short"], tuple(self.strip(s, a, ty) for a, ty in zip(args, t[6]))))
                bb = t[4]
                continue
            ok = False
            break

        def conv(v):
            if v.op == "ref" and v.args[1].op == "L":
                return T("vref", conv(self.load(s, v.args[1], v.args[2])))
            return rebuild(v, conv)
        res = conv(self.load(s, T("L", 0, 0))) if ok else T("promoted", key)
        self.promo[r] = res
        return res

    promo = {}

    def operand(self, st, o):
        k = o[0]
        if k == "k":
            return self.const(st, o[1])
        if k == "rc":
            return FALSE
        if k == "t":
            return o[1]
        pl = o[1]
        root, path = self.place(st, pl)
        v = self.load(st, root, path)
        return v

    def strip(self, st, v, ti, depth=0):
        """the value behind shared references (a reference argument of a pure function counts as what it refers to)"""
        t = self.p.types[ti]
        n = 0
        while t["k"] == "ref" and n < 4:
            root, path = self.target(v)
            v = self.load(st, root, path)
            ti = t["e"]
            t = self.p.types[ti]
            n += 1
        return self.deepval(st, v)

    def deepval(self, st, v, depth=0):
        """replace references inside a value by what they refer to"""
        if depth > 6:
            return v
        if v.op == "ref":
            return T("&", self.deepval(st, self.load(st, v.args[1], v.args[2]), depth + 1))
        if v.op == "vref":
            return T("&", self.deepval(st, v.args[0], depth + 1))
        if v.op in ("agg",):
            fs = tuple(self.deepval(st, x, depth + 1) for x in v.args[2])
            if fs != v.args[2]:
                return T("agg", v.args[0], v.args[1], fs)
        return v

    def discr(self, v, ti=None):
        if v.op == "with":
            return self.discr(v.args[0], ti)
        if v.op == "agg":
            tag = v.args[0]
            d = self.p.discr_of(tag, v.args[1])
            return INT(d)
        if v.op == "constbits":
            return T("discr", v)
        return T("discr", v)

    def binop(self, op, a, b):
        if op in ("Eq", "Ne"):
            r = eq(a, b)
            return neg(r) if op == "Ne" else r
        if op == "Lt":
            return lt(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return neg(lt(a, b))
        if op == "Le":
            return neg(lt(b, a))
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op == "AddWithOverflow":
            return T("agg", "tuple", 0, (add(a, b), T("ovf", "Add", a, b)))
        if op == "SubWithOverflow":
            return T("agg", "tuple", 0, (sub(a, b), lt(a, b)))
        if op == "MulWithOverflow":
            return T("agg", "tuple", 0, (self.binop("Mul", a, b), T("ovf", "Mul", a, b)))
        if a.op == "int" and b.op == "int":
            x, y = a.args[0], b.args[0]
            if op == "Mul":
                return INT(x * y)
            if op == "BitAnd":
                return INT(x & y)
            if op == "BitOr":
                return INT(x | y)
            if op == "BitXor":
                return INT(x ^ y)
            if op == "Shl" and 0 <= y < 64:
                return INT(x << y)
            if op == "Shr" and 0 <= y < 64:
                return INT(x >> y)
            if op == "Cmp":
                return T("agg", "std::cmp::Ordering", 0 if x < y else 1 if x == y else 2, ())
        if op == "BitAnd":
            if a is FALSE or b is FALSE:
                return FALSE
            if boolish(a) or boolish(b):
                if a is TRUE:
                    return b
                if b is TRUE:
                    return a
                return T("and", (a, b))
        if op == "BitOr":
            if boolish(a) or boolish(b):
                if a is TRUE or b is TRUE:
                    return TRUE
                if a is FALSE:
                    return b
                if b is FALSE:
                    return a
                return neg(T("and", (neg(a), neg(b))))
            if a is FALSE:
                return b
            if b is FALSE:
                return a
        if op == "Offset":
            return T("ptroff", a, b)
        return T("bin", op, a, b)

    def rvalue(self, st, r, dty=None):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1])
        if k == "ref":
            root, path = self.place(st, r[2])
            return self.mkref(r[1], root, path)
        if k == "raw":
            root, path = self.place(st, r[1])
            return self.mkref(True, root, path)
        if k == "agg":
            h, ops = r[1], r[2]
            fs = tuple(self.operand(st, o) for o in ops)
            if h[0] == "adt":
                if h[3] is not None:    # union
                    return fs[0] if fs else UNIT
                return T("agg", self.adtag(h[1]), h[2], fs)
            if h[0] == "tuple":
                return T("agg", "tuple", 0, fs)
            if h[0] == "array":
                return T("agg", "array", 0, fs)
            if h[0] == "closure":
                return T("agg", "closure:%d" % h[1], 0, fs)
            if h[0] == "rawptr":
                return fs[0]
            return T("agg", h[0], 0, fs)
        if k == "discr":
            root, path = self.place(st, r[1])
            d = self.discr(self.load(st, root, path))
            if len(r) > 2 and d.op == "discr" and d not in self.domain:
                t = self.p.types[r[2]]
                if t["k"] == "adt" and t.get("vs") and len(t["vs"]) > 1:
                    self.domain[d] = frozenset(v["d"] for v in t["vs"])
            return d
        if k == "bin":
            a = self.operand(st, r[2])
            b = self.operand(st, r[3])
            return self.binop(r[1], a, b)
        if k == "un":
            a = self.operand(st, r[2])
            if r[1] == "Not":
                if a.op == "int" and a.args[0] not in (0, 1):
                    return T("un", "Not", a)
                return neg(a)
            if r[1] == "Neg":
                return sub(INT(0), a)
            if r[1] == "PtrMetadata":
                root, path = self.target(a)
                return self.length(self.load(st, root, path))
            return T("un", r[1], a)
        if k == "cast":
            v = self.operand(st, r[2])
            return self.cast(st, r[1], v, r[3])
        if k == "rep":
            return T("zeros", self.operand(st, r[1]), T("len", T("rep")))
        if k == "tls":
            return T("staticref", r[1])
        return T("rv", k)

    def cast(self, st, kind, v, ti):
        t = self.p.types[ti]
        if kind == "IntToInt":
            if v.op == "int":
                return v
            if boolish(v):
                return v
            if t["s"] in ("usize", "u64", "isize", "i64", "u128", "i128") and v.op in ("len", "discr", "K", "sum"):
                return v
            return T("cast", t["s"], v)
        if kind.startswith("ReifyFnPointer") or kind.startswith("ClosureFnPointer"):
            return v
        if kind == "BoxDerefTransmute":
            # the pointer inside of a box is the box
            x = v
            while x.op == "fld":
                x = x.args[0]
                if x.op == "ref":
                    return x
            return v
        if kind in ("Unsize", "MutToConstPointer", "PtrToPtr", "Transmute", "ArrayToPointer", "UnsafeFnPointer", "FnPtrToPtr", "Subtype"):
            return v
        return T("cast", kind, v)

    def stmt(self, st, s):
        k = s[0]
        if k == "=":
            v = self.rvalue(st, s[2])
            root, path = self.place(st, s[1])
            self.store(st, root, path, v)
            r = s[2]
            # a moved-out local is dead; forgetting it lets states merge
            if r[0] == "use" and r[1][0] == "m" and len(r[1][1]) == 1 and r[1][1][0] != s[1][0]:
                st.mem.pop(T("L", len(st.frames) - 1, r[1][1][0]), None)
        elif k == "dead":
            st.mem.pop(T("L", len(st.frames) - 1, s[1]), None)
        elif k == "sd":
            root, path = self.place(st, s[1])
            v = self.load(st, root, path)
            if v.op == "agg":
                self.store(st, root, path, T("agg", v.args[0], s[2], v.args[2]))

    # ------------------------------------------------------------ facts
    def known(self, st, t):
        """value of a condition/scalar term if the facts decide it: an int, or None"""
        if t.op == "int":
            return t.args[0]
        f = st.facts
        r = f.get(t)
        if isinstance(r, int):
            return r
        if t.op == "not":
            x = self.known(st, t.args[0])
            return None if x is None else 1 - x
        if t.op == "and":
            vs = [self.known(st, x) for x in t.args[0]]
            if any(v == 0 for v in vs):
                return 0
            if all(v == 1 for v in vs):
                return 1
            return None
        if t.op == "eq" and t.args[1].op == "int":
            x = f.get(t.args[0])
            if isinstance(x, int):
                return 1 if x == t.args[1].args[0] else 0
            if isinstance(x, frozenset) and t.args[1].args[0] in x:
                return 0
        if t.op == "lt":
            a, b = t.args
            ka = a.args[0] if a.op == "int" else f.get(a)
            kb = b.args[0] if b.op == "int" else f.get(b)
            if isinstance(ka, int) and isinstance(kb, int):
                return 1 if ka < kb else 0
            if b.op == "int" and b.args[0] <= 0 and a.op in ("len", "K"):
                return 0
            # lengths and counters are not negative
            if b.op == "int" and b.args[0] == 1 and a.op == "len":
                pass
            x = f.get(T("eq", a, b)) if True else None
            if x == 1:
                return 0
            if f.get(T("lt", b, a)) == 1:
                return 0
            # monotone in constants: a < c known, asked a < d
            r2 = self.bound(st, a, b)
            if r2 is not None:
                return r2
        if t.op == "eq" and t.args[1].op != "int":
            a, b = t.args
            if f.get(T("lt", a, b)) == 1 or f.get(T("lt", b, a)) == 1:
                return 0
        return None

    def bound(self, st, a, b):
        """decide a<b from other lt facts about the same terms, differing by a constant"""
        d1 = sub(b, a)
        c1, l1 = linear(d1)
        for t, v in st.facts.items():
            if t.op == "lt" and isinstance(v, int):
                c2, l2 = linear(sub(t.args[1], t.args[0]))
                if l2 == l1:
                    # fact: c2 + L > 0 is v ; asked c1 + L > 0
                    if v == 1 and c1 >= c2:
                        return 1
                    if v == 0 and c1 <= c2:
                        return 0
                elif l2 == {k: -x for k, x in l1.items()}:
                    # fact: c2 - L > 0 is v; asked c1 + L > 0
                    if v == 1 and c1 + c2 <= 1:   # L < c2 => L <= c2-1 ; c1+L <= c1+c2-1 <= 0
                        return 0
                    if v == 0 and c1 + c2 >= 1:   # L >= c2 ; c1+L >= c1+c2 > 0
                        return 1
            elif isinstance(v, int) and t in l1 and len(l1) == 1:
                co = l1[t]
                return 1 if c1 + co * v > 0 else 0
        return None

    def assume(self, st, t, v, dom=None):
        """st with t == v added; None if contradictory. v: int or frozenset of excluded ints"""
        k = self.known(st, t)
        if isinstance(v, int):
            if k is not None:
                return st if k == v else None
            if t.op == "not":
                return self.assume(st, t.args[0], 1 - v)
            if t.op == "and":
                if v == 1:
                    for x in t.args[0]:
                        st = self.assume(st, x, 1)
                        if st is None:
                            return None
                    return st
                und = [x for x in t.args[0] if self.known(st, x) is None]
                if len(und) == 1:
                    return self.assume(st, und[0], 0)
                st = self.dup(st)
                st.facts[t] = 0
                return st
            old = st.facts.get(t)
            if isinstance(old, frozenset) and v in old:
                return None
            if t.op == "eq" and t.args[1].op == "int":
                x, c = t.args[0], t.args[1].args[0]
                if v == 1:
                    return self.assume(st, x, c)
                return self.assume(st, x, frozenset([c]))
            if t.op == "lt":
                # implied contradictions via bound() were checked by known()
                pass
            st = self.dup(st)
            st.facts[t] = v
            return st
        # exclusion
        if k is not None:
            return st if k not in v else None
        if t.op in ("not", "eq", "lt", "and") and v in (frozenset([0]), frozenset([1])):
            return self.assume(st, t, 1 - min(v))
        old = st.facts.get(t)
        if isinstance(old, frozenset):
            v = old | v
        if t in self.domain:
            left = self.domain[t] - v
            if not left:
                return None
            if len(left) == 1:
                st = self.dup(st)
                st.facts[t] = next(iter(left))
                return st
            if v == old:
                return st
        st = self.dup(st)
        st.facts[t] = v
        return st

    def dup(self, st):
        return st.clone()

    # ------------------------------------------------------------ exploration
    def run(self, bi, args, mem=None, facts=None, mon=None, trace=()):
        st = State()
        st.frames = (Frame(bi, 0, None, None),)
        st.mem = dict(mem or {})
        st.facts = dict(facts or {})
        st.trace = trace
        st.mon = mon
        st.counts = {}
        st.snaps = {}
        for i, a in enumerate(args):
            st.mem[T("L", 0, i + 1)] = a
        self.visited_bodies.add(bi)
        self.seen = set()
        self.joined = {}
        self.njoins = 0
        self.exits = []
        self.work = [st]
        t0 = time.time()
        while self.work:
            st = self.work.pop()
            self.nstates += 1
            if self.nstates > self.max_states:
                raise Incomplete("more than %d abstract states in %s" % (self.max_states, self.p.body(bi)["path"]))
            if self.time_limit and self.nstates % 64 == 0 and time.time() - t0 > self.time_limit:
                raise Incomplete("time limit in %s" % self.p.body(bi)["path"])
            self.step(st)
        return self.exits

    def default_args(self, bi):
        b = self.p.body(bi)
        return [T("param", i + 1) for i in range(b["argc"])]

    def push_work(self, st):
        """enqueue a state at a block entry"""
        f = st.frames[-1]
        if f.bb in self.p.heads(f.bi):
            st = self.at_head(st)
            k = st.key()
            if k in self.seen:
                return
            self.seen.add(k)
            st = self.join_head(st)
            if st is None:
                return
        elif f.bb in self.p.joins(f.bi):
            self.gc(st)
            k = st.key()
            if k in self.seen:
                return
            self.seen.add(k)
        self.work.append(st)

    def goto(self, st, bb):
        f = st.frames[-1]
        st.frames = st.frames[:-1] + (Frame(f.bi, bb, f.ret, f.kont),)
        self.push_work(st)

    # --- loops
    def at_head(self, st):
        hk = tuple((f.bi, f.bb) for f in st.frames)
        hid = self.hid(hk)
        snap = st.snaps.get(hid)
        self.gc(st)
        if self.settle is not None and st.mon is not None:
            self.settle(st)
        st.snaps = dict(st.snaps)
        for k in [k for k in st.snaps if self.nested_in(k[1] if isinstance(k, tuple) else k, hk)]:
            del st.snaps[k]
        if snap is None:
            # going over a few known elements: one by one
            known = self.bounded(st)
            if known and st.snaps.get(("each", hid)) != known:
                st.snaps[("each", hid)] = known
                return st
            self.rename(st, hid, first=True)
            st.snaps[hid] = (0, dict(st.mem), len(st.trace), st.mon, frozenset(st.facts))
            return st
        m, smem, tpos, smon, sfacts = snap
        m1 = m + 1
        suffix = st.trace[tpos:]
        pf = frozenset((t, v) for t, v in st.facts.items() if hid in t.loops or t.calls)
        prefix = st.trace[:tpos]
        self.patterns.setdefault((hid, prefix), {}).setdefault((suffix, pf), st.frames)
        mark = ("loop", hid)
        if suffix and not (prefix and prefix[-1] == mark):
            st.trace = prefix + (mark,)
        else:
            st.trace = prefix
        if m1 >= 3:
            self.rename(st, hid)
        if m1 >= 1:
            self.merge_state(st, smem, smon, min(m1, 3), hid)
            for t in [t for t in st.facts if hid in t.loops]:
                del st.facts[t]
        self.forget(st, sfacts)
        self.gc(st)
        st.snaps[hid] = (min(m1, 3), dict(st.mem), len(st.trace), st.mon, frozenset(st.facts))
        return st

    def bounded(self, st):
        """where the iterators over a known, small number of elements in this frame are"""
        d = len(st.frames) - 1
        r = []
        for root in sorted((x for x in st.mem if x.op == "L" and x.args[0] == d), key=skey):
            work = [st.mem[root]]
            while work:
                v = work.pop()
                if v.op != "agg":
                    continue
                if isinstance(v.args[0], str) and v.args[0].startswith("it:"):
                    n = v.args[2][3]
                    if n.op == "int" and n.args[0] <= 8 and all(x.op == "int" for x in v.args[2][1:3]):
                        r.append((root, v.args[2][1], v.args[2][2]))
                else:
                    work.extend(v.args[2])
        return tuple(r)

    join_limit = 16

    def join_head(self, st):
        """too many different states at one loop head with the same history: join them, location by location"""
        f = st.frames[-1]
        hk = tuple((f.bi, f.bb) for f in st.frames)
        hid = self.hid(hk)
        key = (tuple(f.key() for f in st.frames), st.trace, st.mon)
        rec = self.joined.get(key)
        if rec is None:
            rec = self.joined[key] = [0, None]
        rec[0] += 1
        if rec[0] <= self.join_limit:
            return st
        acc = rec[1]
        if acc is None:
            rec[1] = st
            return st
        self.njoins += 1
        n = st.clone()
        self.pairs = {}
        self.label = 9
        self.merging = n.frames
        for root in sorted(n.mem, key=skey):
            v = n.mem[root]
            o = acc.mem.get(root)
            if o is None:
                o = self.init(acc, root)
                if o.op == "uninit":
                    continue
            if o is not v:
                n.mem[root] = self.merge(o, v, (root, "j"), 3, hid)
        for root in acc.mem:
            if root not in n.mem and root.op == "O":
                n.mem[root] = self.merge(acc.mem[root], self.init(n, root), (root, "j"), 3, hid)
        for t in list(n.facts):
            if acc.facts.get(t) != n.facts[t]:
                del n.facts[t]
        for r, v in acc.mem.items():
            if r.op == "L" and r not in n.mem:
                n.mem[r] = v
        n.counts = {k: max(acc.counts.get(k, 0), n.counts.get(k, 0)) for k in set(acc.counts) | set(n.counts)}
        if n.mem == acc.mem and n.facts == acc.facts:
            return None
        rec[1] = n
        n.snaps = dict(n.snaps)
        n.snaps[hid] = (3, dict(n.mem), len(n.trace), n.mon, frozenset(n.facts))
        return n.clone()

    def forget(self, st, sfacts):
        """facts of the finished iteration about single elements say nothing about later iterations"""
        live = None
        for t in [t for t in st.facts if t not in sfacts and (t.size > 3 or t.op in ("len", "lt"))]:
            if t.op in ("len", "lt") and not (self.keep_facts and self.keep_facts(t)):
                del st.facts[t]
                continue
            els = [x for x in walk(t) if x.op in ELEMENTS]
            if not els:
                continue
            if live is None:
                live = set()
                for v in st.mem.values():
                    live.update(x for x in walk(v) if x.op in ELEMENTS)
                live.update(x for x in walk((st.trace, st.mon)) if x.op in ELEMENTS)
            if not all(x in live for x in els) and not (self.keep_facts and self.keep_facts(t)):
                del st.facts[t]

    def rename(self, st, hid, first=False):
        """what was the current iteration of this loop is now the previous one"""
        K = T("K", hid)
        Km1 = add(K, INT(-1))

        def has(t):
            return hid in t.loops

        def ren(t):
            if t is K:
                return T("old", t) if first else Km1
            if t.op == "phi" and t.args[0] == hid:
                return T("old", t)
            if t.op == "old" and t.args[0].op in ("K", "phi") and t.args[0].args[0] == hid:
                return T("stale", *t.args[0].args)
            return None
        memo = {}
        for root in list(st.mem):
            v = st.mem[root]
            if hid in root.loops or hid in v.loops:
                del st.mem[root]
                st.mem[subst(root, has, ren, memo)] = subst(v, has, ren, memo)
        for t in [t for t in st.facts if hid in t.loops]:
            del st.facts[t]
        if st.mon is not None and hid in st.mon.loops:
            st.mon = subst(st.mon, has, ren, memo)
        l, c, s = terms._scan(st.trace)
        if hid in l:
            st.trace = tuple(subst(x, has, ren, memo) for x in st.trace)

    def merge_state(self, st, smem, smon, m, hid):
        self.pairs = {}
        self.label = m
        self.merging = st.frames
        for root in sorted(st.mem, key=skey):
            v = st.mem[root]
            o = smem.get(root)
            if o is None:
                o = self.init(st, root)
                if o.op in ("uninit", "init"):
                    continue
            if o is not v:
                st.mem[root] = self.merge(o, v, (root,), m, hid)
        for root in smem:
            if root not in st.mem and root.op == "O" and hid not in root.loops:
                st.mem[root] = self.merge(smem[root], self.init(st, root), (root,), m, hid)
        if st.mon is not None and smon is not None and st.mon is not smon:
            st.mon = self.merge(smon, st.mon, ("MON",), m, hid)

    def merge(self, o, v, pos, m, hid):
        if o is v:
            return v
        if v.op == "agg" and not v.args[2] or v.op == "int" and v.args[0] in (0, 1) and self.isbool(pos):
            return v    # one of finitely many
        if m == 1 and v.op not in GROWING and not (v.op in ("agg", "with") and o.op in ("agg", "with")):
            return v
        if o.op == "agg" and v.op == "agg" and o.args[:2] == v.args[:2] and len(o.args[2]) == len(v.args[2]):
            return T("agg", v.args[0], v.args[1], tuple(self.merge(a, b, pos + (("a", i),), m, hid) for i, (a, b) in enumerate(zip(o.args[2], v.args[2]))))
        bo, do = (o.args[0], {(a, b): x for a, b, x in o.args[1]}) if o.op == "with" else (o, {})
        bv, dv = (v.args[0], {(a, b): x for a, b, x in v.args[1]}) if v.op == "with" else (v, {})
        if bo is bv and (do or dv):
            r = {}
            for k in set(do) | set(dv):
                a = do.get(k) or fld(bo, *k)
                b = dv.get(k) or fld(bv, *k)
                r[k] = self.merge(a, b, pos + (("w",) + k,), m, hid)
            return T("with", bo, tuple(sorted(((k[0], k[1], x) for k, x in r.items()), key=lambda q: q[:2])))
        if m == 1 and v.op not in GROWING:
            return v
        if m == 2:
            l = self.lift(o, v, hid)
            if l is not None:
                return l
        # a monitored value that is the value of a location keeps doing so: what is learnt about one is known of the other
        r = None
        if pos[0] == "MON":
            r = self.pairs.get((o, v))
            if r is None and o is UNIT:     # not set before this iteration
                r = self.pairs.get(v)
        else:
            # counters that went alike so far are one counter
            if counter(o) and counter(v):
                r = self.pairs.get((o, v))
            self.pairs.setdefault(v, T("phi", hid, pos))
        if r is None:
            r = T("phi", hid, pos)
            self.pairs.setdefault((o, v), r)
        self.phisrc.setdefault(r, {})
        if o is not r:
            self.phisrc[r][(o, self.label - 1)] = True
        if v is not r:
            self.phisrc[r][(v, self.label)] = True
        return r

    def isbool(self, pos):
        """is this location a local variable of type bool?"""
        r = pos[0]
        if len(pos) != 1 or not isinstance(r, Term) or r.op != "L" or r.args[1] < 0:
            return False
        ti = self.p.body(self.merging[r.args[0]].bi)["locals"][r.args[1]] if r.args[0] < len(self.merging) else None
        return ti is not None and self.p.types[ti]["k"] == "bool"

    def lift(self, o, v, hid):
        """v and o agree except for counters that grew by one: write these relative to the iteration number"""
        if o is v:
            return v
        if numeric(o) and numeric(v):
            d = sub(v, o)
            if d.op == "int" and d.args[0] in (1, -1):
                s = d.args[0]
                return add(add(v, INT(-s * 2)), T("K", hid), s)
        if o.op in ("int", "sum"):
            return None
        if isinstance(o, Term) and isinstance(v, Term) and o.op == v.op and len(o.args) == len(v.args):
            na = []
            for a, b in zip(o.args, v.args):
                r = self.liftarg(a, b, hid)
                if r is None:
                    return None
                na.append(r)
            return mk(v.op, *na)
        return None

    def liftarg(self, a, b, hid):
        if isinstance(a, Term) and isinstance(b, Term):
            return self.lift(a, b, hid)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            r = []
            for x, y in zip(a, b):
                z = self.liftarg(x, y, hid)
                if z is None:
                    return None
                r.append(z)
            return tuple(r)
        return b if a == b else None

    _hids = {}

    def hid(self, hk):
        r = self._hids.get(hk)
        if r is None:
            r = len(self._hids)
            self._hids[hk] = r
        self._hidrev[r] = hk
        return r

    _hidrev = {}

    def nested_in(self, hid, hk):
        """is loop hid inside the loop at hk (same frame, inside its natural loop, or a deeper frame)?"""
        o = self._hidrev[hid]
        if o == hk:
            return False
        if len(o) < len(hk):
            return False
        n = len(hk)
        if o[:n - 1] != hk[:n - 1] or o[n - 1][0] != hk[n - 1][0]:
            return False
        if len(o) == n:
            return o[n - 1][1] in self.natural(hk[n - 1][0], hk[n - 1][1])
        return True

    _nat = {}

    def natural(self, bi, head):
        r = self._nat.get((id(self.p), bi, head))
        if r is not None:
            return r
        # the natural loop: what reaches a back edge to head without passing through head
        n = len(self.p.body(bi)["blocks"])
        pred = {}
        for x in range(n):
            for y in self.p.successors(bi, x):
                pred.setdefault(y, []).append(x)
        # blocks that can only be reached through head
        seen = {0} if head != 0 else set()
        st = [0] if head != 0 else []
        while st:
            x = st.pop()
            for y in self.p.successors(bi, x):
                if y != head and y not in seen:
                    seen.add(y)
                    st.append(y)
        r = {head}
        st = [x for x in pred.get(head, ()) if x not in seen]
        while st:
            x = st.pop()
            if x not in r:
                r.add(x)
                st.extend(pred.get(x, ()))
        self._nat[(id(self.p), bi, head)] = r
        return r

    # --- garbage collection: forget what no later step can observe
    def gc(self, st, force=False):
        live = set()
        work = []
        n = len(st.frames)
        for d, f in enumerate(st.frames):
            li = self.p.live_in(f.bi)[f.bb]
            for l in li:
                r = T("L", d, l)
                if r in st.mem:
                    live.add(r)
                    work.append(st.mem[r])
            if f.ret is not None:
                work.append(f.ret[0])
                work.append(f.ret[1])
            if f.kont is not None:
                work.append(f.kont)
        if st.mon is not None:
            work.append(st.mon)
        work.append(st.trace)
        # objects behind parameters stay: they are observable at the exit
        for r in st.mem:
            if r.op == "O" and r not in live and not r.loops and not r.calls:
                live.add(r)
                work.append(st.mem[r])
        refd = set()
        seen = set()
        while work:
            x = work.pop()
            if isinstance(x, (tuple, list, frozenset)):
                work.extend(y for y in x if isinstance(y, (Term, tuple, frozenset)))
                continue
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("L", "H", "O"):
                if x in st.mem and x not in live:
                    live.add(x)
                    work.append(st.mem[x])
            work.extend(y for y in x.args if isinstance(y, (Term, tuple, frozenset)))
        for r in list(st.mem):
            if r not in live:
                del st.mem[r]
        # drop facts about values nobody can see any more
        calls = set()
        loops = set()
        for r in st.mem:
            v = st.mem[r]
            calls |= v.calls
            calls |= r.calls
            loops |= v.loops | r.loops
        l, c, s = terms._scan((st.trace, st.mon if st.mon is not None else ()))
        calls |= c
        loops |= l
        for f in st.frames:
            if f.kont or f.ret:
                l, c, s = terms._scan((f.kont or (), f.ret or ()))
                calls |= c
                loops |= l
        for t in list(st.facts):
            if (t.calls and not (t.calls <= calls)) or (t.loops and not (t.loops <= loops)):
                if self.keep_facts and self.keep_facts(t):
                    continue
                del st.facts[t]
        have = set(k[1] for k in calls)
        for s in list(st.counts):
            if s not in have:
                del st.counts[s]

    # --- steps
    def step(self, st):
        st = st.clone()
        f = st.frames[-1]
        b = self.p.body(f.bi)
        bl = b["blocks"][f.bb]
        for s in bl["s"]:
            self.stmt(st, s)
        t = bl["t"]
        k = t[0]
        if k == "goto":
            self.goto(st, t[1])
        elif k == "ret":
            self.do_return(st)
        elif k == "switch":
            self.do_switch(st, t)
        elif k == "drop":
            self.do_drop(st, t)
        elif k == "call":
            self.do_call(st, t)
        elif k == "assert":
            self.do_assert(st, t)
        elif k in ("unreachable", "resume"):
            pass
        else:
            raise Incomplete("unsupported terminator %s in %s" % (k, b["path"]))

    def do_switch(self, st, t):
        v = self.operand(st, t[1])
        ti = t[4]
        kn = self.known(st, v)
        if kn is not None:
            for val, bb in t[2]:
                if val == kn:
                    self.goto(st, bb)
                    return
            self.goto(st, t[3])
            return
        isbool = self.p.types[ti]["k"] == "bool"
        excl = []
        for val, bb in t[2]:
            s2 = self.assume(st, v, val)
            if s2 is not None:
                s2 = s2.clone() if s2 is st else s2
                self.note_assume(s2, v, val)
                self.goto(s2, bb)
            excl.append(val)
        ob = self.p.body(st.frames[-1].bi)["blocks"][t[3]]
        if ob["t"][0] == "unreachable" and not ob["s"]:
            return
        if isbool and len(excl) == 1:
            s2 = self.assume(st, v, 1 - excl[0])
            if s2 is not None:
                s2 = s2.clone() if s2 is st else s2
                self.note_assume(s2, v, 1 - excl[0])
                self.goto(s2, t[3])
            return
        s2 = self.assume(st, v, frozenset(excl))
        if s2 is not None:
            s2 = s2.clone() if s2 is st else s2
            self.note_assume(s2, v, frozenset(excl))
            self.goto(s2, t[3])

    def note_assume(self, st, t, v):
        if self.rel_assume:
            while t.op == "not":
                t = t.args[0]
                v = (1 if v == frozenset({0}) else 0 if v == frozenset({1}) else v) if isinstance(v, frozenset) else v
                v = 1 - v if v in (0, 1) else v
            r = self.rel_assume(self, st, t, v)
            if r:
                st.trace = st.trace + (r,)

    def site(self, st):
        f = st.frames[-1]
        b = self.p.body(f.bi)
        return (b["vpath"], f.bi, f.bb)

    def do_assert(self, st, t):
        v = self.operand(st, t[1])
        want = 1 if t[2] else 0
        kn = self.known(st, v)
        if self.panics and kn != want:
            ops = tuple(self.operand(st, o) for o in t[4])
            self.note_panic(st, "assert:" + t[3], ops, t[6], v, want)
        if kn is not None and kn != want:
            return
        s2 = self.assume(st, v, want)
        if s2 is not None:
            self.goto(s2 if s2 is not st else st, t[5])

    def note_panic(self, st, kind, ops, span, cond=None, want=None):
        key = self.site(st) + (kind,)
        self.panic_sites.setdefault(key, []).append((ops, dict(st.facts), st.frames, span, cond, want))

    def do_return(self, st):
        f = st.frames[-1]
        d = len(st.frames) - 1
        v = self.load(st, T("L", d, 0))
        if d == 0:
            ex = Exit("return", v, st)
            self.exits.append(ex)
            return
        for r in list(st.mem):
            if r.op == "L" and r.args[0] == d:
                del st.mem[r]
        st.frames = st.frames[:-1]
        if self.hook:
            b = self.p.body(f.bi)
            if b.get("kind") != "closure":
                r = self.hook(self, st, "leave", b, v)
        self.finish(st, f.ret, f.kont, v)

    def finish(self, st, ret, kont, v):
        if kont is not None:
            for s2, v2 in self.models.konts[kont[0]](self, st, v, *kont[1:]):
                if v2 is not None:
                    if ret is not None:
                        self.store(s2, ret[0], ret[1], v2)
                    self.after(s2)
            return
        if ret is not None:
            self.store(st, ret[0], ret[1], v)
        self.after(st)

    def after(self, st):
        """continue at the block the top frame is set to"""
        if len(st.mem) > 40:
            self.gc(st)
        self.push_work(st)

    # --- calls
    def do_call(self, st, t):
        f = st.frames[-1]
        args = tuple(self.operand(st, a) for a in t[2])
        # moved-in locals are dead
        for a in t[2]:
            if a[0] == "m" and len(a[1]) == 1:
                st.mem.pop(T("L", len(st.frames) - 1, a[1][0]), None)
        ret = self.place(st, t[3])
        site = self.site(st)
        target = t[4]
        if t[1][0] == "ptr":
            fv = self.operand(st, t[1][1])
            self.call_value(st, fv, args, t[6], ret, target, t[5], site, t[7])
            return
        if t[1][0] == "clos":
            fv = self.mkref(True, *self.place(st, t[1][1]))
            if not self.call_closure_ref(st, fv, self.mutref(t[1][2]), args, t[6], ret, target, t[5], site, t[7]):
                c = {"short": "FnMut::call_mut", "path": "call_mut", "kind": "param", "name": "call_mut", "args": [t[1][2]], "crate": "core", "full": "call_mut"}
                self.external(st, c, (fv,) + args, (self.mutref(t[1][2]),) + tuple(t[6]), ret, target, t[5], site, t[7])
            return
        c = self.p.callees[t[1][1]]
        self.call(st, c, args, t[6], ret, target, t[5], site, t[7])

    def call_value(self, st, fv, args, atys, ret, target, dty, site, span):
        """call of a function value with its arguments spread"""
        if fv.op == "fn":
            self.call(st, self.p.callees[fv.args[0]], args, atys, ret, target, dty, site, span)
            return
        if fv.op == "agg" and str(fv.args[0]).startswith("closure:"):
            ti = int(fv.args[0].split(":")[1])
            bi = self.p.types[ti]["body"]
            b = self.p.body(bi)
            selfv = fv
            if self.p.types[b["locals"][1]]["k"] == "ref":
                root = T("H", self.freshterm(st, site[0], site[2], "clos"))
                st.mem[root] = fv
                selfv = T("ref", True, root, ())
            self.enter(st, bi, (selfv,) + tuple(args), ret, target, None, site)
            return
        c = {"short": "call", "path": "call", "kind": "fnptr", "name": "call", "args": [], "crate": ""}
        self.external(st, c, (fv,) + tuple(args), (None,) + tuple(atys), ret, target, dty, site, span)

    def call_closure_ref(self, st, fv, fty, args, atys, ret, target, dty, site, span):
        """Fn/FnMut/FnOnce::call*(f, (args...)): f may be the closure, a reference to it, a fn item..."""
        p = self.p
        v = fv
        n = 0
        place = None
        ti = fty
        while p.types[ti]["k"] == "ref" or (p.types[ti].get("box")):
            place = self.target(v)
            v = self.load(st, *place)
            ti = p.types[ti]["e"] if p.types[ti]["k"] == "ref" else p.types[ti]["args"][0]
            n += 1
        if p.types[ti]["k"] == "closure":
            bi = p.types[ti]["body"]
            b = p.body(bi)
            if p.types[b["locals"][1]]["k"] == "ref":
                if place is not None:
                    selfv = self.mkref(True, *place)
                else:
                    root = T("H", self.freshterm(st, site[0], site[2], "clos"))
                    st.mem[root] = v
                    selfv = T("ref", True, root, ())
            else:
                selfv = v
            self.enter(st, bi, (selfv,) + tuple(args), ret, target, None, site)
            return True
        if p.types[ti]["k"] == "fndef":
            self.call(st, p.callees[p.types[ti]["c"]], args, atys, ret, target, dty, site, span)
            return True
        if v.op == "fn" or (v.op == "agg" and str(v.args[0]).startswith("closure:")):
            self.call_value(st, v, args, atys, ret, target, dty, site, span)
            return True
        return False

    def freshterm(self, st, *site):
        return T("call", site, self.fresh(st, site))

    def fresh(self, st, site):
        n = st.counts.get(site, 0)
        st.counts[site] = n + 1
        if self.keep_facts:
            # what is still known about an earlier value of this name, which nobody holds any more, is not about the new one
            k = ("call", site, n)
            for t in [t for t in st.facts if k in t.calls]:
                del st.facts[t]
        return n

    def call(self, st, c, args, atys, ret, target, dty, site, span, kont=None):
        p = self.p
        name = c["short"]
        self.ncalls[name] = self.ncalls.get(name, 0) + 1
        # function objects
        if name in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once"):
            tup = args[1]
            n = len(p.types[atys[1]]["fs"]) if p.types[atys[1]]["k"] == "tuple" else 0
            if p.types[atys[1]]["k"] == "tuple":
                sp = tuple(fld(tup, 0, i) for i in range(n))
                if target is not None and self.call_closure_ref(st, args[0], atys[0], sp, tuple(p.types[atys[1]]["fs"]), ret, target, dty, site, span):
                    return
        if c.get("kind") == "ctor":
            v = T("agg", p.types[c["out"]]["path"], c["variant"], args)
            self.store(st, ret[0], ret[1], v)
            self.goto(st, target)
            return
        call = Call()
        call.c, call.name, call.args, call.atys, call.dty, call.site, call.span = c, name, args, atys, dty, site, span
        call.bi, call.bb = st.frames[-1].bi, st.frames[-1].bb
        if target is None:
            if self.panics:
                self.note_panic(st, "call:" + name, args, span)
            self.external(st, c, args, atys, ret, target, dty, site, span, call)
            return
        op = self.opaque(c)
        if not op:
            m = self.models.find(self, c)
            if m is not None:
                f = st.frames[-1]
                st.frames = st.frames[:-1] + (Frame(f.bi, target, f.ret, f.kont),)
                r = m(self, st, call, ret)
                if r is not None:
                    for s2, v in r:
                        if v is not None:
                            self.store(s2, ret[0], ret[1], v)
                        self.after(s2)
                    return
                st.frames = st.frames[:-1] + (f,)
            body = c.get("body")
            if "dflt" in c and (body is None and c["short"] not in ("Iterator::size_hint", "ExactSizeIterator::len") or self.models.prefer_default(self, c)):
                body = c["dflt"]
            if body is not None and self.p.bodies[body] is not None and len(st.frames) < self.max_depth:
                depth = sum(1 for fr in st.frames if fr.bi == body)
                if depth < self.rec_limit:
                    self.enter(st, body, args, ret, target, kont, site, call)
                    return
        self.external(st, c, args, atys, ret, target, dty, site, span, call)

    rec_limit = 1
    pop_event = False

    def enter(self, st, bi, args, ret, target, kont, site, call=None):
        f = st.frames[-1]
        b = self.p.body(bi)
        self.visited_bodies.add(bi)
        if call is not None:
            ev = self.rel(self, st, call, None)
            if ev is not None:
                st.trace = st.trace + (ev,)
        st.frames = st.frames[:-1] + (Frame(f.bi, target, f.ret, f.kont), Frame(bi, 0, ret, kont))
        d = len(st.frames) - 1
        for i, a in enumerate(args):
            st.mem[T("L", d, i + 1)] = a
        self.push_work(st)

    def external(self, st, c, args, atys, ret, target, dty, site, span, call=None):
        """a call whose callee is not analysed: an event with an unknown result"""
        p = self.p
        if call is None:
            call = Call()
            call.c, call.name, call.args, call.atys, call.dty, call.site, call.span = c, c["short"], args, atys, dty, site, span
            call.bi, call.bb = st.frames[-1].bi, st.frames[-1].bb
        pure = self.models.is_pure(self, c, call)
        vals = tuple(self.strip(st, a, ti) if ti is not None else a for a, ti in zip(args, atys))
        if pure:
            res = T("app", c["short"], vals) if not c.get("tyargs_matter") else T("app", c["full"], vals)
        else:
            sk = (site[0], site[2])
            if self.tag:
                tg = self.tag(self, st, call)
                if tg is not None:
                    sk = sk + (tg,)
            res = T("call", sk, self.fresh(st, sk))
            self.origin[res] = call
        if not pure:
            # everything reachable through a mutable reference may have changed
            self.havoc(st, c, args, atys, vals, res)
            self.unknown[c["short"]] = self.unknown.get(c["short"], 0) + 1
        ev = self.rel(self, st, call, res)
        if ev is not None:
            st.trace = st.trace + (ev,)
        if target is None:
            self.exits.append(Exit("diverge", None, st, call))
            return
        f = st.frames[-1]
        st.frames = st.frames[:-1] + (Frame(f.bi, target, f.ret, f.kont),)
        if self.split:
            vs = self.split(self, st, call, res)
            if vs is not None:
                for q in vs:
                    v, mon = q[:2]
                    s2 = st.clone()
                    s2.mon = mon
                    for t, x in q[2] if len(q) > 2 else ():
                        s2 = self.assume(s2, t, x)
                        if s2 is None:
                            break
                    if s2 is None:
                        continue
                    self.store(s2, ret[0], ret[1], v)
                    self.after(s2)
                return
        self.store(st, ret[0], ret[1], res)
        self.after(st)

    def havoc(self, st, c, args, atys, vals, res):
        done = set()

        def visit(v, depth):
            if depth > 5:
                return
            if v.op == "ref":
                if v.args[1:] in done:
                    return
                done.add(v.args[1:])
                if v.args[0]:
                    old = self.load(st, v.args[1], v.args[2])
                    # references held inside may be used as well
                    visit(old, depth + 1)
                    self.store(st, v.args[1], v.args[2], T("upd", c["short"], res, old, len(done)))
                else:
                    visit(self.load(st, v.args[1], v.args[2]), depth + 1)
            elif v.op == "agg":
                for x in v.args[2]:
                    visit(x, depth + 1)
        for a, ti in zip(args, atys):
            if ti is not None:
                t = self.p.types[ti]
                if t["k"] == "ref" and t["mut"] and a.op != "ref":
                    root, path = self.target(a)
                    old = self.load(st, root, path)
                    self.store(st, root, path, T("upd", c["short"], res, old, 0))
                    continue
                if t["k"] == "ref" and not t["mut"]:
                    # shared reference: the referent itself stays, but mutable references inside it cannot be used either
                    continue
            visit(a, 0)

    # --- drops
    def do_drop(self, st, t):
        ti = t[3]
        if not self.p.drop_interesting(ti, self.interesting):
            root, path = self.place(st, t[1])
            if not path:
                st.mem.pop(root, None) if root.op == "L" else None
            self.goto(st, t[2])
            return
        root, path = self.place(st, t[1])
        bi = self.drop_glue(ti)
        ref = self.mkref(True, root, path)
        if ref.op != "ref" and not (root.op == "O" and not path):
            ref = T("ref", True, root, path)
        ret = (T("L", len(st.frames) - 1, -1), ())
        self.enter(st, bi, (ref,), ret, t[2], None, self.site(st))

    def drop_glue(self, ti):
        key = ("drop", ti)
        if key in self.p.synth:
            return self.p.synth[key]
        p = self.p
        t = p.types[ti]
        blocks = []
        b = {"path": "drop_in_place<%s>" % t["s"], "vpath": "drop:%s" % t["s"], "full": "", "kind": "dropglue", "local": True, "argc": 1,
             "locals": [None, None, None], "names": [], "blocks": blocks, "span": [0, 0]}
        bi = p.new_body(key, b)
        sp = [0, 0]
        ic = self.interesting

        def seq(places):
            """emit drops of the given (place, type) in order, then return"""
            first = len(blocks)
            todo = [(pl, x) for pl, x in places if p.drop_interesting(x, ic)]
            for pl, x in todo:
                blocks.append({"s": [], "t": ("drop", pl, len(blocks) + 1, x, sp)})
            blocks.append({"s": [], "t": ("ret",)})
            return first
        k = t["k"]
        if k == "adt":
            if "drop" in t:
                c = {"short": "Drop::drop", "path": "std::ops::Drop::drop", "kind": "item", "name": "drop", "args": [ti], "crate": "core",
                     "body": t["drop"], "full": "Drop::drop<%s>" % t["s"], "trait": "std::ops::Drop", "id": -1, "droppee": ti}
                cid = len(p.callees)
                c["id"] = cid
                p.callees.append(c)
                blocks.append({"s": [], "t": ("call", ("fn", cid), (("c", (1,)),), (2,), 1, ti, (self.mutref(ti),), sp)})
            elif ic(t):
                cid = self.drop_event(ti)
                blocks.append({"s": [], "t": ("call", ("fn", cid), (("c", (1,)),), (2,), 1, ti, (self.mutref(ti),), sp)})
            elif "vs" not in t or t.get("kind") != "enum" and not t.get("local"):
                if t.get("box") and t.get("args"):
                    # the contents of the box
                    blocks.append({"s": [], "t": ("drop", (1, "*", "*"), 1, t["args"][0], sp)})
                    blocks.append({"s": [], "t": ("ret",)})
                    return bi
                for a in t.get("args", []):
                    if p.drop_interesting(a, ic):
                        cid = self.drop_event(a)
                        blocks.append({"s": [], "t": ("call", ("fn", cid), (("c", (1,)),), (2,), len(blocks) + 1, a, (self.mutref(ti),), sp)})
                blocks.append({"s": [], "t": ("ret",)})
                return bi
            if t["kind"] == "enum":
                sw = len(blocks)
                blocks.append(None)
                arms = []
                for vi, v in enumerate(t["vs"]):
                    fs = [((1, "*", ("f", vi, i)), x[1]) for i, x in enumerate(v["fs"])]
                    arms.append((v["d"], seq(fs)))
                un = len(blocks)
                blocks.append({"s": [], "t": ("unreachable", sp)})
                blocks[sw] = {"s": [("=", (2,), ("discr", (1, "*")), sp)], "t": ("switch", ("m", (2,)), tuple(arms), un, 0, sp)}
            else:
                fs = [((1, "*", ("f", 0, i)), x[1]) for i, x in enumerate(t["vs"][0]["fs"])] if t.get("vs") else []
                seq(fs)
        elif k == "tuple":
            seq([((1, "*", ("f", 0, i)), x) for i, x in enumerate(t["fs"])])
        elif k == "closure":
            seq([((1, "*", ("f", 0, i)), x) for i, x in enumerate(t["ups"])])
        else:
            cid = self.drop_event(ti)
            blocks.append({"s": [], "t": ("call", ("fn", cid), (("c", (1,)),), (2,), 1, ti, (self.mutref(ti),), sp)})
            blocks.append({"s": [], "t": ("ret",)})
        return bi

    def mutref(self, ti):
        p = self.p
        key = ("mutref", ti)
        if key not in p._ni:
            p.types.append({"k": "ref", "mut": True, "e": ti, "s": "&mut " + p.types[ti]["s"]})
            p._ni[key] = len(p.types) - 1
        return p._ni[key]

    def drop_event(self, ti):
        p = self.p
        key = ("dropev", ti)
        if key not in p._ni:
            c = {"short": "drop", "path": "drop", "kind": "drop", "name": "drop", "args": [ti], "crate": "", "full": "drop<%s>" % p.types[ti]["s"], "id": len(p.callees), "dropty": ti}
            p.callees.append(c)
            p._ni[key] = c["id"]
        return p._ni[key]


def boolish(t):
    return t.op in ("eq", "lt", "not", "and", "ovf", "has", "isempty", "nonempty")


def counter(t):
    return t.op in ("int", "sum", "K") or t.op in ("phi", "old") and not isinstance(t, str) and t.op != "agg"


def numeric(t):
    return t.op in ("int", "K", "sum", "len", "phi", "fld", "deref", "app", "find", "stale")
