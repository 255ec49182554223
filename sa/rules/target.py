"""Request targets, query strings and form bodies: how they are cut and decoded (C02, C03)."""
from terms import *
import terms
import models as base_models
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import *
from rules.routers import *
from rules.body import bare
from rules.text import keeps_bytes, text
from rules.links import turn_of, View2


def follows(a, b):
    """is b what a is for the next element?"""
    if a is b:
        return True
    if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op and len(a.args) == len(b.args):
        if a.op == "item":
            return a.args[0] is b.args[0] and (a.args[1] is b.args[1] or add(a.args[1], INT(1)) is b.args[1])
        return all(follows(x, y) for x, y in zip(a.args, b.args))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(follows(x, y) for x, y in zip(a, b))
    return a == b if not isinstance(a, Term) and not isinstance(b, Term) else False


class Bytes:
    """the usual models; adding the elements of something one after the other gives a sequence:
    seq(base, x) is base and then x for every index up to the one in x"""

    def __init__(self, c, f):
        self.c, self.f = c, f

    def __getattr__(self, n):
        return getattr(base_models, n)

    def where(self, call):
        return self.c.p.where(call.span) if call.span and call.span[1] else self.c.where(self.f)

    def push(self, eng, st, old, new):
        if new.op != "vpush":
            return new
        v, x = new.args
        x = eng.deepval(st, x)
        x = plus(eng, st, x)
        if x is None:
            return new
        it = x.args[0] if x.op == "plus" else x
        if v.op == "seq" and follows(v.args[1], x) and v.args[1] is not x:
            return T("seq", v.args[0], x)
        if it.args[1] is INT(0):
            return T("seq", v, x)
        return T("vpush", v, x)

    def find(self, eng, cc):
        f = base_models.find(eng, cc)
        s = cc["short"]
        if s in ("Vec::push", "synth::push") and (s != "synth::push" or cc["kind2"] == "vec"):
            def g(eng, st, call, ret):
                r = f(eng, st, call, ret)
                root, path = eng.target(call.args[0])
                v = eng.load(st, root, path)
                n = self.push(eng, st, None, v)
                if n is not v:
                    eng.store(st, root, path, n)
                return r
            return g
        if s in ("Iterator::collect", "FromIterator::from_iter"):
            def g(eng, st, call, ret):
                ti = call.dty if call.dty is not None else cc["args"][0]
                if ti is not None and eng.p.tname(ti) == "Vec" and decoder(call.args[0]):
                    return [(st, T("all", T("vnew"), bare(call.args[0])))]
                return f(eng, st, call, ret) if f is not None else None
            return g
        if s == "Extend::extend":
            def g(eng, st, call, ret):
                vec = eng.p.types[call.atys[0]]["k"] == "ref" and eng.p.tname(eng.p.types[call.atys[0]]["e"]) == "Vec"
                if vec and bare(call.args[1]).op in ("str", "bytes"):
                    root, path = eng.target(call.args[0])
                    eng.store(st, root, path, T("cat", eng.load(st, root, path), bare(call.args[1])))
                    return [(st, UNIT)]
                if vec and decoder(call.args[1]):
                    root, path = eng.target(call.args[0])
                    eng.store(st, root, path, T("all", eng.load(st, root, path), bare(call.args[1])))
                    return [(st, UNIT)]
                return f(eng, st, call, ret) if f is not None else None
            return g
        if s == "HashMap::insert":
            def g(eng, st, call, ret):
                st.trace = st.trace + (("store", self.where(call)) + tuple(eng.deepval(st, a) for a in call.args[1:]),)
                return f(eng, st, call, ret)
            return g
        if s == "synth::push" and cc["kind2"] == "map":
            def g(eng, st, call, ret):
                x = call.args[1]
                if call.c["copy"]:
                    x = eng.load(st, *eng.target(x))
                x = eng.deepval(st, x)
                st.trace = st.trace + (("store", self.where(call), eng.sel(x, ("f", 0, 0)), eng.sel(x, ("f", 0, 1))),)
                return f(eng, st, call, ret)
            return g
        if s in ("Iterator::position",):
            def g(eng, st, call, ret):
                root, path = eng.target(call.args[0])
                it = eng.load(st, root, path)
                src = whole(it)
                if src is not None:
                    eng.store(st, root, path, T("app", "after-position", (it,)))
                    return [(st, T("app", s, (src, eng.deepval(st, call.args[1]))))]
                return f(eng, st, call, ret) if f is not None else None
            return g
        return f


def decoder(x):
    x = bare(x)
    return x.op == "app" and last(x) == "percent_decode"


def last(x):
    return x.args[0].split("<")[0].split("::")[-1]


def whole(it):
    """what an iterator that was not used yet goes through"""
    if it.op == "agg" and isinstance(it.args[0], str) and it.args[0].startswith("it:") and it.args[2][1] is INT(0) and it.args[2][2] is INT(0):
        return it.args[2][0]
    return None


def item(x):
    """a single element of something that is gone through"""
    x = bare(x)
    if x.op == "item":
        return x
    if x.op == "elem" and x.args[1] == "idx":
        return T("item", x.args[0], x.args[2])
    return None


def plus(eng, st, x):
    """a byte of what is gone through, or that byte with plus replaced by space"""
    space = x.op == "int" and x.args[0] == 32
    y = item(x)
    if y is None and not space:
        return None
    for t, v in st.facts.items():
        if t.op == "eq" and t.args[1] is INT(43) and v in (0, 1):
            z, is_ = item(t.args[0]), v == 1
        elif t.op in ("item", "elem", "deref"):
            z, is_ = item(t), v == 43 if not isinstance(v, frozenset) else False if 43 in v else None
        else:
            continue
        if z is None:
            continue
        if space and is_ is True or y is z and is_ is False:
            return T("plus", z)
    return y


def engine(c, f, opaque=None):
    """an engine that keeps track of sequences of bytes"""
    def assumed(eng, st, t, v):
        x = counted(t, v)
        if x is None:
            return
        st.trace = st.trace + (("each" if x[2] else "done", x[0], x[1]),)
        if not x[2]:
            # everything was looked at: what was collected on the way is complete
            full(st, x[0], x[1])
    def rel(eng, st, call, res):
        if res is not None and opaque is not None and opaque(call.c):
            return ("taken apart", tuple(eng.deepval(st, a) for a in call.args), res)
        return None
    eng = c.engine(rel_assume=assumed, rel=rel, opaque=opaque or (lambda cc: False), keep_facts=lambda t: t.op in ("len", "lt", "discr"))
    length = eng.length

    def longer(v):
        if v.op == "all":
            return add(longer(v.args[0]), length(v.args[1]))
        return length(v)
    eng.length = longer
    eng.models = Bytes(c, f)
    return eng


def full(st, coll, end):
    def has(t):
        return True

    def ren(t):
        if t.op == "seq":
            x = t.args[1].args[0] if t.args[1].op == "plus" else t.args[1]
            if x.args[0] is coll and add(x.args[1], INT(1)) is end:
                return T("all", t.args[0], T("plus", coll) if t.args[1] is not x else coll)
        return None
    memo = {}
    for root in list(st.mem):
        v = st.mem[root]
        if any(y.op == "seq" for y in walk(v)):
            st.mem[root] = subst(v, has, ren, memo)


# ---------------------------------------------------------------- pieces of text

class Cut:
    """what is known about the pieces of a text on one way through the code"""

    def __init__(self, c, eng, facts, source):
        self.c, self.eng, self.facts, self.source = c, eng, facts, source
        self.events = ()
        self.looking = False

    def chars(self, x):
        """the one byte that a pattern stands for"""
        x = bare(x)
        if x.op == "int":
            return x.args[0]
        if x.op in ("str", "bytes") and len(x.args[0]) == 1:
            return ord(x.args[0]) if x.op == "str" else x.args[0][0]
        if x.op == "agg" and isinstance(x.args[0], str) and x.args[0].startswith("closure:"):
            return separator(self.c, int(x.args[0].split(":")[1]))
        return None

    def base(self, x):
        """a text without views of it, and if plus was replaced"""
        x = bare(x)
        pl = False
        while True:
            if x.op == "app" and len(x.args[1]) == 1 and keeps_bytes(x.args[0]):
                x = bare(x.args[1][0])
            elif x.op == "all" and x.args[0].op == "vnew":
                x = bare(x.args[1])
            elif x.op == "cat" and x.args[0].op == "vnew":
                x = bare(x.args[1])
            elif x.op == "plus":
                pl = True
                x = bare(x.args[0])
            elif x.op == "utf8cast":
                x = bare(x.args[0])
            else:
                return x, pl

    def piece(self, x):
        """(plus, source, start, end) of a piece of text; start and end are marks in it"""
        x, pl = self.base(x)
        if x.op == "vslice":
            b = self.piece(x.args[0])
            if b is None:
                return None
            root = x.args[0]
            s = self.mark(root, b, x.args[1], True)
            e = self.mark(root, b, x.args[2], False)
            return None if s is None or e is None else (b[0] or pl, b[1], s, e)
        if x.op in ("item", "fld"):
            y = x
            if x.op == "item":
                sp, i = bare(x.args[0]), x.args[1]
            else:
                # split_once
                y = bare(x.args[0])
                sp, i = (bare(y.args[0]), INT(x.args[2])) if y.op == "fld" and y.args[1:] == (1, 0) else (None, None)
            if sp is not None and sp.op == "app" and last(sp) in ("split", "splitn", "split_once", "split_at"):
                n = last(sp)
                a = sp.args[1]
                b = self.piece(a[0])
                ch = self.chars(a[-1])
                if b is None or ch is None:
                    return None
                lim = a[1].args[0] if n == "splitn" and a[1].op == "int" else 2 if n == "split_once" else None
                if n == "splitn" and lim is None:
                    return None
                if i.op == "int" and i.args[0] <= 1:
                    k = i.args[0]
                    p = b
                    if k == 1:
                        p = (b[0] or pl, b[1], ("after", ch, b), b[3])
                        if lim == 2:
                            return p
                    if lim == 1:
                        return p
                    # the first piece exists also without the separator
                    if k == 0 and self.found(ch, p) is False:
                        return p
                    return (p[0] or pl, p[1], p[2], ("at", ch, p))
                if lim is None:
                    return (b[0] or pl, b[1], ("nth", ch, b, i), ("nth", ch, b, i))
                return None
        src = self.source(x)
        if src is None:
            if x.op == "vnew":
                if not self.looking:
                    self.looking = True
                    try:
                        n = self.pieces()
                    finally:
                        self.looking = False
                    for p in n:
                        return (True,) + p[1:]
            return None
        return (pl, src, 0, "len")

    def mark(self, root, b, x, start):
        if start and x is INT(0):
            return b[2]
        if not start and (x is self.eng.length(root) or x is T("len", root)):
            return b[3]
        for t in walk(x):
            if t.op != "fld" or t.args[1:] != (1, 0):
                continue
            f = bare(t.args[0])
            if f.op != "app" or last(f) not in ("find", "position") or len(f.args[1]) != 2:
                continue
            ch = self.chars(f.args[1][1])
            p = self.piece(f.args[1][0])
            if ch is None or p is None:
                continue
            y = f.args[1][0]
            while True:
                if y.op in ("vref", "&") and isinstance(y.args[0], Term):
                    y = y.args[0]
                elif y.op == "app" and len(y.args[1]) == 1 and last(y) in ("bytes", "as_bytes"):
                    y = y.args[1][0]
                else:
                    break
            lo = INT(0) if bare(y) is bare(root) else y.args[1] if y.op == "vslice" and bare(y.args[0]) is bare(root) else None
            if lo is None:
                continue
            if sub(sub(x, lo), t) is INT(1 if start else 0):
                return ("after" if start else "at", ch, p)
        return None

    def found(self, ch, p):
        """is the character known to be in the piece, or not?"""
        for t, v in self.facts.items():
            r = None
            if t.op == "discr":
                f = bare(t.args[0])
                if f.op == "app" and last(f) in ("find", "position", "split_once") and v in (0, 1):
                    r = f, v == 1
            elif t.op == "app" and last(t) == "contains" and v in (0, 1):
                r = t, v == 1
            elif t.op == "lt" and t.args[0] is INT(1) and t.args[1].op == "len":
                f = bare(t.args[1].args[0])
                if f.op == "app" and last(f) in ("split", "splitn"):
                    r = f, v == 1
            if r is None:
                continue
            f, y = r
            if self.chars(f.args[1][-1]) == ch and self.plain(self.piece0(f.args[1][0])) == self.plain(p):
                return y
        # has a second piece been seen when it was split at the character?
        for x in self.events:
            if x[0] in ("each", "done") and x[2] is INT(1):
                f = bare(x[1])
                if f.op == "app" and last(f) in ("split", "splitn") and self.chars(f.args[1][-1]) == ch and self.plain(self.piece0(f.args[1][0])) == self.plain(p):
                    return x[0] == "each"
        if self.no_bytes(p):
            return False
        return None

    def no_bytes(self, p):
        for t, v in self.facts.items():
            if v == 0 and t.op == "len" or v == 1 and t.op == "eq" and t.args[0].op == "len" and t.args[1] is INT(0):
                x = t.args[0] if t.op == "len" else t.args[0].args[0]
                x = bare(x)
                if decoder(x):
                    x = x.args[1][0]
                if self.plain(self.piece0(x)) == self.plain(p):
                    return True
            elif v == 0 and t.op != "len" and self.measured(t, p) or v == 1 and t.op == "eq" and t.args[1] is INT(0) and self.measured(t.args[0], p):
                return True
        return False

    def measured(self, t, p):
        """is this number the length of a piece that ends where something was found, or that starts behind it?"""
        try:
            k, l = terms.linear(t)
        except Exception:
            return False
        at, lens = None, []
        for x, n in l.items():
            if x.op == "len" and n == 1:
                lens.append(x.args[0])
                continue
            f = bare(x.args[0]) if x.op == "fld" and x.args[1:] == (1, 0) else None
            if f is None or f.op != "app" or last(f) not in ("find", "position") or len(f.args[1]) != 2 or at is not None:
                return False
            at = f, n
        if at is None:
            return False
        f, n = at
        ch, q = self.chars(f.args[1][1]), self.piece0(f.args[1][0])
        if ch is None or q is None:
            return False
        if n == 1 and k == 0 and not lens:
            r = (q[0], q[1], q[2], ("at", ch, q))
        elif n == -1 and k == -1 and len(lens) == 1 and self.plain(self.piece0(lens[0])) == self.plain(q):
            r = (q[0], q[1], ("after", ch, q), q[3])
        else:
            return False
        return self.plain(r) == self.plain(p)

    def some_bytes(self, p):
        """is a piece known not to be empty?"""
        for t, v in self.facts.items():
            x = None
            if t.op == "len" and isinstance(v, frozenset) and 0 in v or t.op == "len" and isinstance(v, int) and v > 0:
                x = t.args[0]
            elif t.op == "eq" and v == 0 and t.args[0].op == "len" and t.args[1] is INT(0):
                x = t.args[0].args[0]
            elif t.op == "lt" and v == 1 and t.args[0] is INT(0) and t.args[1].op == "len":
                x = t.args[1].args[0]
            if x is None:
                if t.op == "eq":
                    y, some = t.args[0], v == 0 and t.args[1] is INT(0)
                elif t.op == "lt":
                    y, some = t.args[1], v == 1 and t.args[0] is INT(0)
                else:
                    y, some = t, isinstance(v, frozenset) and 0 in v or isinstance(v, int) and v > 0 and t.op == "fld"
                if some and self.measured(y, p):
                    return True
                continue
            x = bare(x)
            if decoder(x):
                x = x.args[1][0]
            if self.plain(self.piece0(x)) == self.plain(p):
                return True
        return False

    def piece0(self, x):
        key = (x,)
        self.busy = getattr(self, "busy", set())
        if key in self.busy:
            return None
        self.busy.add(key)
        try:
            return self.piece(x)
        finally:
            self.busy.discard(key)

    def plain(self, p):
        """a piece without saying if plus was replaced"""
        if p is None:
            return None
        return (p[1],) + tuple(m[:2] + (self.plain(m[2]),) + m[3:] if isinstance(m, tuple) else m for m in p[2:])

    def before(self, ch, y):
        """what is before the first ch in y (all of it, if there is none)"""
        if self.found(ch, y) is False:
            return y
        return (y[0], y[1], y[2], ("at", ch, y))

    def after(self, ch, y):
        """what is after the first ch in y; None if there is none or if that is not known"""
        if self.found(ch, y) is not True:
            return None
        return (y[0], y[1], ("after", ch, y), y[3])

    def same(self, x, y):
        return x is not None and y is not None and self.plain(x) == self.plain(y)

    def is_(self, x, piece, pl):
        """do these bytes come from decoding just this piece, once?"""
        for k, p in self.content(x):
            if k == "dec" and self.same(p, piece) and (p[0] == pl or self.no_bytes(p)):
                return True
        return False

    def content(self, x):
        """the possible origins of some bytes: ("dec", piece), ("lit", bytes)"""
        x, _ = self.base1(x)
        if decoder(x):
            y, _ = self.base1(x.args[1][0])
            if y.op in ("str", "bytes") and not y.args[0] or y.op == "agg" and y.args[0] == "array" and not y.args[2]:
                return self.content(y)
            p = self.piece(x.args[1][0])
            return [("dec", p)] if p is not None else []
        if x.op in ("str", "bytes"):
            b = x.args[0].encode() if x.op == "str" else bytes(x.args[0])
            return [("lit", b)] + ([] if b else self.nothing())
        if x.op in ("vnew", "snew") or x.op == "agg" and x.args[0] == "array" and not x.args[2]:
            return [("lit", b"")] + self.nothing()
        add = None
        if x.op == "vpush" and x.args[1].op == "int":
            add = bytes([x.args[1].args[0]])
        elif x.op == "cat" and bare(x.args[1]).op in ("str", "bytes"):
            add = bare(x.args[1]).args[0]
            add = add.encode() if isinstance(add, str) else bytes(add)
        if add is not None:
            return [("lit", b + add) for k, b in self.content(x.args[0]) if k == "lit"] + \
                [("lit", add) for k, p in self.content(x.args[0]) if k == "dec" and self.no_bytes(p)]
        p = self.piece(x)
        return [("raw", p)] if p is not None else []

    def base1(self, x):
        x = bare(x)
        while True:
            if x.op == "app" and len(x.args[1]) == 1 and keeps_bytes(x.args[0]):
                x = bare(x.args[1][0])
            elif x.op in ("all", "cat") and x.args[0].op == "vnew":
                x = bare(x.args[1])
            elif x.op == "utf8cast":
                x = bare(x.args[0])
            else:
                return x, None

    def pieces(self):
        r = []
        for t, v in self.facts.items():
            if v == 0 and t.op == "len" or v == 1 and t.op == "eq" and t.args[0].op == "len" and t.args[1] is INT(0):
                x = bare(t.args[0] if t.op == "len" else t.args[0].args[0])
                if decoder(x):
                    x = x.args[1][0]
                p = self.piece0(x)
                if p is not None:
                    r.append(p)
        return r

    def nothing(self):
        """the pieces that are known to be empty"""
        return [("dec", p) for p in self.pieces()]


def separator(c, ti):
    """the one byte for which a closure over bytes or characters is true"""
    got = getattr(c, "separators", None)
    if got is None:
        got = c.separators = {}
    if ti in got:
        return got[ti]
    t = c.p.types[ti]
    r = None
    if t["k"] == "closure" and t.get("body") is not None:
        eng = c.engine(keep_facts=lambda t: True)
        ex = [e for e in c.run(eng, t["body"]) or () if e.kind == "return"]
        yes = set()
        for b in range(256):
            vals = set()
            for e in ex:
                def has(t):
                    return True

                def ren(t):
                    u = bare(t)
                    return INT(b) if u.op == "param" and u.args[0] == 2 and t.op in ("deref", "param", "ref", "&", "vref") else None
                good = True
                for t, v in e.facts.items():
                    u = subst(t, has, ren)
                    if u.op != "int":
                        vals.add(None)
                    elif u.args[0] in v if isinstance(v, frozenset) else u.args[0] != v:
                        good = False
                if good:
                    u = subst(e.ret, has, ren)
                    vals.add(u.args[0] if u.op == "int" else None)
            if vals == {1}:
                yes.add(b)
            elif vals != {0}:
                yes = None
                break
        if yes is not None and len(yes) == 1:
            r = yes.pop()
    got[ti] = r
    return r


def is_query(c, f):
    """is this a function that takes a query string apart?"""
    p = c.p
    if f["body"] is None or p.tname(f["out"]) != "Parameters" or len(f["ins"]) != 1:
        return False
    t = p.types[f["ins"][0]]
    return t["k"] == "ref" and p.types[t["e"]]["k"] in ("str", "slice") and f.get("self") is None


def inner(eng, mu, x):
    """the bytes of a text, whichever variant it has"""
    if x.op == "agg" and x.args[0] == mu and len(x.args[2]) == 1:
        return x.args[2][0]
    return x


class Targets:
    def __init__(self, c):
        self.c, p = c, c.p
        self.mu = c.struct("MaybeUtf8")["path"]
        self.up = c.struct("UriPath")["path"]
        self.path = c.variant("UriPath", "Path")
        self.star = c.variant("UriPath", "Asterisk")
        self.queries = [f for f in p.fns if is_query(c, f)]
        self.bodies = {f["body"] for f in self.queries}
        self.parsers = {}

    def isq(self, cc):
        return cc.get("body") in self.bodies

    # what handlers get
    def handled(self):
        c, p = self.c, self.c.p
        from rules.server import run_handle
        ectx = c.field("Environment", lambda n, t: p.tname(t) == "Context")
        rs = c.field("Environment", lambda n, t: p.tname(t) == "RouteState")
        uri = c.field("Context", lambda n, t: p.tname(t) == "UriPath")
        query = c.field("Context", lambda n, t: n == "query")
        frag = c.field("Context", lambda n, t: n == "fragment")
        req = [t for t in p.types if t["k"] == "adt" and t["path"] == "hyper::uri::RequestUri"]
        if not c.require(None not in (ectx, rs, uri, query, frag) and req, "anchor:context", "-", "the parts of a request's context cannot be found"):
            return False
        names = {i: v["n"] for i, v in enumerate(req[0]["vs"])}
        seen = {"path": 0, "star": 0}
        eng0 = []

        def origin(eng, st, x):
            """(function, argument, way to the value in its result) of a value"""
            way = ()
            while x.op == "fld":
                way = (x.args[1:],) + way
                x = x.args[0]
            o = eng.origin.get(x)
            if o is None or o.c.get("body") is None:
                return None
            fs = [f for f in p.fns if f["body"] == o.c["body"]]
            if len(fs) != 1 or len(fs[0]["ins"]) != 1:
                return None
            return fs[0], way, x

        def kind(st):
            for t, v in st.facts.items():
                if t.op == "discr" and t.args[0].op == "fld":
                    o = eng0[0].origin.get(t.args[0].args[0])
                    if o is not None and o.name == "hyper::server::Request::deconstruct" and not isinstance(v, frozenset) and (t.args[0].args[2] == 3):
                        return names.get(v), t.args[0]
            return None, None

        def tell(kd, eng, st, where, m, a, call):
            if kd not in ("modify", "handle"):
                return
            if not eng0:
                eng0.append(eng)
            if kd == "handle":
                cx = eng.sel(call.args[1], ("f", 0, ectx))
                # what the router looks at
                got = route_bytes(eng.deepval(st, eng.sel(call.args[1], ("f", 0, rs))))
                px = eng.sel(cx, ("f", 0, uri))
                q = got
                n = 0
                while q is not None and q.op == "fld" and n < 4:
                    if bare(q) is bare(px) or bare(q.args[0]) is bare(px):
                        break
                    q, n = bare(q.args[0]), n + 1
                if q is not None and n < 4 and q.op == "fld":
                    c.count("ways to route a path")
                    c.require(True, "routed", where, "")
                else:
                    y = got
                    good = got is not None and px.op == "agg" and inner(eng, self.mu, px.args[2][0]) is got
                    c.require(good, "routed", where, "the bytes that are looked up by the router are not those of the path: %s for %s" % (short(y), short(px)), facts_text(st.facts))
            else:
                cx = eng.load(st, *eng.target(call.args[2]))
            if m["n"] is not INT(0):
                return
            while cx.op == "upd":
                cx = cx.args[2]
            k, u = kind(st)
            det = facts_text(st.facts)
            parts = {n: eng.sel(cx, ("f", 0, i)) for n, i in (("path", uri), ("query", query), ("fragment", frag))}
            if k == "Star":
                seen["star"] += 1
                x = parts["path"]
                c.require(x.op == "agg" and x.args[1] == self.star, "star", where, "the target * does not become an asterisk: %s" % short(x), det)
                c.require(no_parameters(parts["query"]), "star-query", where, "the target * has a query: %s" % short(parts["query"]), det)
                x = parts["fragment"]
                c.require(x.op == "agg" and x.args[1] == 0, "star-fragment", where, "the target * has a fragment: %s" % short(x), det)
                return
            if not c.require(k in ("AbsolutePath", "AbsoluteUri"), "target", where, "a request is handled although it is not clear what kind of target it has", det):
                return
            seen["path"] += 1
            for n, x in parts.items():
                while x.op == "app" and len(x.args[1]) == 1 and keeps_bytes(x.args[0]):
                    x = x.args[1][0]
                o = origin(eng, st, x)
                if not c.require(o is not None, "made:" + n, where, "it is not clear where the %s comes from: %s" % (n, short(x)), det):
                    continue
                f, way, oc = o
                for arg in args.get(oc, (None,)):
                    src = arg
                    while src is not None and (src.op in ("deref", "&", "vref") or src.op == "app" and len(src.args[1]) == 1 and keeps_bytes(src.args[0])):
                        src = src.args[1][0] if src.op == "app" else src.args[0]
                    c.require(src is not None and src.op == "fld" and src.args[0] is u, "from:" + n, where, "the %s is not made from the target of the request: %s" % (n, short(arg)), det)
                self.parsers.setdefault((f["body"], k), {}).setdefault(n, set()).add(way)
        args = {}

        def watch(eng, st, call, res):
            if res is not None and call.c.get("body") is not None and len(call.args) == 1:
                args.setdefault(res, set()).add(eng.deepval(st, call.args[0]))
        r = run_handle(c, tell, watch)
        c.require(r is not None and seen["path"], "handled", "src/server/instance.rs", "no request with a path is handled")
        return True

    # how targets are taken apart
    def parse(self, body, kind, parts, contents=False):
        c, p = self.c, self.c.p
        f = [f for f in p.fns if f["body"] == body][0]
        where = c.where(f)
        eng = engine(c, f, opaque=self.isq)
        url = kind == "AbsoluteUri"

        def source(x):
            if url:
                for n in ("path", "query", "fragment"):
                    y = x
                    if n != "path":
                        if y.op != "fld" or y.args[1:] != (1, 0):
                            continue
                        y = bare(y.args[0])
                    if y.op == "app" and y.args[0].split("<")[0].endswith("url::Url::" + n) and bare(y.args[1][0]).op == "param":
                        return n
                return None
            return "target" if x.op == "param" else None
        ex = [e for e in c.run(eng, f, mon=UNIT) or () if e.kind == "return"]
        c.require(ex, "returns", where, "a request target is never taken apart")
        for e in ex:
            det = facts_text(e.facts)
            v = View(e)
            k = Cut(c, eng, e.facts, source)
            c.count("ways through a target")

            def get(n):
                w = parts.get(n)
                if not w or len(w) != 1:
                    return None
                x = e.ret
                for vi, i in list(w)[0]:
                    x = eng.sel(x, ("f", vi, i))
                return x
            if url:
                have = {}
                for n in ("query", "fragment"):
                    for t, d in e.facts.items():
                        if t.op == "discr" and source(T("fld", bare(t.args[0]), 1, 0)) == n and d in (0, 1):
                            have[n] = d == 1
                path = (False, "path", 0, "len")
                qp = (False, "query", 0, "len") if have.get("query") else None
                fp = (False, "fragment", 0, "len") if have.get("fragment") else None
                noq, nof = have.get("query") is False, have.get("fragment") is False
            else:
                s = (False, "target", 0, "len")
                y = k.before(35, s)
                path = k.before(63, y)
                qp, fp = k.after(63, y), k.after(35, s)
                noq, nof = k.found(63, y) is False, k.found(35, s) is False
            if contents:
                for n in ("path", "fragment"):
                    x = get(n)
                    if x is None or n == "fragment" and eng.known(v, eng.discr(x)) == 0 or n == "path" and x.op == "agg" and x.args[1] != self.path:
                        continue
                    b = eng.sel(x, ("f", self.path if n == "path" else 1, 0))
                    self.decoded(k, b, n, where, det)
                continue
            # the path
            x = get("path")
            if x is not None:
                b = eng.sel(x, ("f", self.path, 0)) if x.op == "agg" and x.args[1] == self.path else None
                if c.require(b is not None, "path-kind", where, "a request target does not become a path: %s" % short(x), det):
                    b = inner(eng, self.mu, b)
                    paths = [path]
                    if not url:
                        paths.append(k.before(35, k.before(63, s)))
                    slash = any(kk == "lit" and bb == b"/" for kk, bb in k.content(b)) and any(k.no_bytes(q) for q in paths)
                    dec = any(k.is_(b, q, False) for q in paths)
                    full_ = any(k.some_bytes(q) for q in paths)
                    c.require(slash or dec, "path", where, "the path is not the decoded part before '?' and '#': %s" % short(b, 400), det)
                    c.require(not dec or slash or full_, "empty-path", where, "an empty path may stay empty", det)
            # the query
            x = get("query")
            if x is not None:
                o = [y for y in e.trace if y[0] == "taken apart" and y[2] is x]
                if len(o) == 1:
                    a = o[0][1][0]
                    q = k.piece(a)
                    c.require(qp is not None and k.same(q, qp) and not q[0], "query", where, "the query is not made from the part after '?': %s" % short(a, 300), det)
                else:
                    c.require(no_parameters(x) and (noq or qp is not None and k.no_bytes(qp)), "no-query", where, "there are no parameters although there may be a query, or they are made in an unknown way: %s" % short(x), det)
            # the fragment
            x = get("fragment")
            if x is not None:
                d = eng.known(v, eng.discr(x))
                if d == 1:
                    b = inner(eng, self.mu, eng.sel(x, ("f", 1, 0)))
                    c.require(fp is not None and k.is_(b, fp, False), "fragment", where, "the fragment is not the decoded part after '#': %s" % short(b, 400), det)
                else:
                    c.require(d == 0 and nof, "no-fragment", where, "there is no fragment although the target may have one: %s" % short(x), det)

    def decoded(self, k, x, what, where, det):
        """is this a text with just the decoded bytes of something?"""
        b = inner(k.eng, self.mu, x)
        c = self.c
        if not c.require(b is not x, "kept:" + what, where, "a %s is not kept as bytes that may be UTF-8: %s" % (what, short(x, 300)), det):
            return
        u = k.content(b)
        c.require(any(y[0] in ("dec", "lit") for y in u), "bytes:" + what, where, "a %s is not made of just the decoded bytes: %s" % (what, short(b, 400)), det)

    # how query strings are taken apart
    def query(self, f, contents=False):
        c, p = self.c, self.c.p
        where = c.where(f)
        eng = engine(c, f)

        def source(x):
            return "query" if x.op == "param" else None
        ex = [e for e in c.run(eng, f, mon=UNIT) or () if e.kind == "return"]
        c.require(ex, "returns", where, "a query string is never taken apart")
        S = (True, "query", 0, "len")
        for ev, v, e, before in all_sequences(eng, ex):
            det = trace_text(ev) + facts_text(v.facts)
            # what was gone through before this loop and turned out to be empty
            for x in before + ev if before is not ev else ev:
                if x[0] == "done" and x[2] is INT(0):
                    v.facts.setdefault(T("len", x[1]), 0)
            k = Cut(c, eng, v.facts, source)
            inside = set()
            over = False
            for j, x in enumerate(ev):
                if x[0] not in ("each", "done"):
                    continue
                sp = bare(x[1])
                if sp.op != "app" or last(sp) != "split" or k.chars(sp.args[1][-1]) != 38:
                    continue
                b = k.piece(sp.args[1][0])
                if not c.require(k.same(b, S), "source", where, "something else than the query string is split: %s" % short(sp), det):
                    continue
                if x[0] == "done":
                    over = True
                    continue
                turn, closed = turn_of(ev, j)
                k.events = turn
                if e is not None and not closed:
                    c.violation("left-early", where, "not all parts of a query string are looked at", det)
                    continue
                c.count("turns over a query string")
                part = k.piece(T("item", x[1], x[2]))
                stores = [y for y in turn if y[0] == "store"]
                inside.update(id(y) for y in stores)
                # splitting always gives a piece, and nothing can be cut off from nothing
                never = any(y[0] == "done" and y[2] is INT(0) and bare(y[1]).op == "app" and last(bare(y[1])) in ("split", "splitn") for y in turn)
                if k.no_bytes(S) and (x[2] is not INT(0) or any(y[0] == "each" and y[2] is not INT(0) for y in turn)):
                    continue
                if not stores:
                    c.require(never or k.no_bytes(part), "dropped", where, "a part of a query string is left out", det)
                    continue
                if not c.require(len(stores) == 1, "stores", where, "a part of a query string gives more than one parameter", det):
                    continue
                if contents:
                    self.decoded(k, stores[0][2], "name", stores[0][1], det)
                    self.decoded(k, stores[0][3], "value", stores[0][1], det)
                    continue
                name, value = inner(eng, self.mu, stores[0][2]), inner(eng, self.mu, stores[0][3])
                c.require(k.is_(name, k.before(61, part), True), "name", stores[0][1], "the name of a parameter is not the decoded part before '=', with spaces for plus: %s" % short(name, 400), det)
                fnd = k.found(61, part)
                if fnd:
                    c.require(k.is_(value, k.before(61, k.after(61, part)), True), "value", stores[0][1], "the value of a parameter is not the decoded part after '=', with spaces for plus: %s" % short(value, 400), det)
                else:
                    c.require(fnd is False and ("lit", b"") in k.content(value), "no-value", stores[0][1], "the value of a parameter without one is not empty: %s" % short(value, 400), det)
            for y in ev:
                if y[0] == "store" and id(y) not in inside:
                    c.violation("made-up", y[1], "a parameter is added that is not a part of the query string", det)
            if e is not None:
                c.require(over, "ends", where, "not all parts of a query string may have been looked at", det)
                x = eng.sel(e.ret, ("f", 0, 0))
                while x.op == "set":
                    x = x.args[0]
                c.require(x.op in ("mnew", "phi"), "kept", where, "the parameters do not start out empty: %s" % short(x), det)


def all_sequences(eng, exits):
    """what happens on one turn of each loop, and after the last of them: [(events, view, exit or None, events before)]"""
    r = []
    for (hid, prefix), d in eng.patterns.items():
        for (suffix, pf), fr in d.items():
            r.append((suffix, View2(dict(pf)), None, prefix))
    for e in exits:
        k = [i for i, x in enumerate(e.trace) if x[0] == "loop"]
        n = k[-1] + 1 if k else 0
        r.append((e.trace[n:], View2(dict(e.facts)), e, e.trace))
    return r


def no_parameters(x):
    while x.op == "agg" and len(x.args[2]) == 1:
        x = x.args[2][0]
    return x.op == "mnew"


def route_bytes(x):
    """the bytes that a position in a route is made from"""
    x = bare(x)
    if x.op == "app" and len(x.args[1]) == 1:
        x = bare(x.args[1][0])
        while x.op == "app" and len(x.args[1]) == 1 and keeps_bytes(x.args[0]):
            x = bare(x.args[1][0])
        return x
    return None


@prop("C02")
def c02(c):
    c.rule("what handlers and filters get as path, query and fragment is what the request's own target was taken apart into; '*' becomes an asterisk without query and fragment")
    c.rule("on every way through a target: the path is the part before the first '#' and '?', the query the part between, the fragment the part after '#', cut while still encoded, decoded once, and an empty path is a slash")
    c.rule("on every turn over a query string: the parts between '&' are cut at '=', and names and values are decoded once, with plus replaced before decoding and never after")
    t = Targets(c)
    if not t.handled():
        return
    kinds = set()
    for (body, kind), parts in sorted(t.parsers.items()):
        kinds.add(kind)
        t.parse(body, kind, parts)
    c.require(kinds == {"AbsolutePath", "AbsoluteUri"}, "kinds", "src/server/instance.rs", "not every kind of target is taken apart: %s" % sorted(kinds))
    c.require(t.queries, "anchor:query", "src/utils.rs", "no function takes query strings apart")
    for f in t.queries:
        t.query(f)


# ---------------------------------------------------------------- lossless bytes

LOSSY = ("from_utf8_lossy", "to_string_lossy", "from_utf16_lossy", "decode_utf8_lossy", "query_pairs", "escape_ascii", "to_ascii_lowercase", "to_ascii_uppercase", "to_lowercase", "to_uppercase")


def makes_lossy(cc, own):
    n = cc["name"]
    if n == "from_utf8_lossy" or n in LOSSY and cc["crate"] not in (own,):
        return True
    return "form_urlencoded" in cc["path"]


def data_type(p, ti, seen=None):
    """may a value of this type be where bytes of a request are kept?"""
    seen = seen if seen is not None else set()
    if ti is None or ti in seen:
        return False
    seen.add(ti)
    t = p.types[ti]
    k = t["k"]
    if k == "adt":
        if t["path"].startswith("context::") or t["path"].rsplit("::", 1)[-1] in ("RouteState", "ParsedUri", "Environment"):
            return True
        if t["path"] in ("std::vec::Vec", "std::collections::HashMap"):
            return True
        if t["path"] in ("std::option::Option", "std::result::Result", "std::boxed::Box"):
            return any(data_type(p, a, seen) for a in t.get("args", ()) if isinstance(a, int))
        return False
    if k in ("slice", "array"):
        return True
    if k == "ref":
        return data_type(p, t["e"], seen)
    if k == "tuple":
        return any(data_type(p, a, seen) for a in t["fs"])
    return False


@prop("C03")
def c03(c):
    p = c.p
    c.rule("every path, fragment, parameter name and value is made of the decoded bytes of a part of the target or of a constant, and nothing was done to them in between")
    c.rule("the router is given the bytes of the path itself, and the views of a path are views of all of its bytes")
    c.rule("nothing that requests pass through makes a lossy conversion, and what does make one returns text and never something that request data is kept in")
    t = Targets(c)
    if not t.handled():
        return
    for (body, kind), parts in sorted(t.parsers.items()):
        t.parse(body, kind, parts, contents=True)
    c.require(t.queries, "anchor:query", "src/utils.rs", "no function takes query strings apart")
    for f in t.queries:
        t.query(f, contents=True)
    views(c, t)
    conversions(c)


def views(c, t):
    """what UriPath shows of its path"""
    p = c.p
    n = 0
    for f in p.fns:
        if f["body"] is None or not f["ins"]:
            continue
        ty = p.types[f["ins"][0]]
        if ty["k"] != "ref" or p.types[ty["e"]].get("path") != t.up or len(f["ins"]) != 1:
            continue
        o = p.types[f["out"]]
        if o["k"] != "adt" or o["path"] not in (t.up, "std::option::Option"):
            continue
        n += 1
        where = c.where(f)
        strict = p.types[o["args"][0]]["k"] == "ref" if o["path"] != t.up else False
        cow = o["path"] != t.up and p.tname(o["args"][0]) == "Cow"
        eng = c.engine()
        for e in c.run(eng, f, mon=UNIT) or ():
            if e.kind != "return":
                continue
            v = View(e)
            c.count("views of a path")
            me = T("deref", T("param", 1))
            d = eng.known(v, T("discr", me))
            det = facts_text(e.facts)
            if not c.require(d in (t.path, t.star), "view-kind", where, "a path is shown without looking at what it is", det):
                continue
            x = e.ret
            if d == t.star:
                c.require(x.op == "agg" and (x.args[1] == t.star if o["path"] == t.up else x.args[1] == 0), "view-star", where, "an asterisk is shown as a path: %s" % short(x), det)
                continue
            utf8 = eng.known(v, T("discr", eng.sel(me, ("f", t.path, 0))))
            if o["path"] == t.up:
                c.require(x.op == "agg" and x.args[1] == t.path and text(inner(eng, t.mu, x.args[2][0]))[0] is T("param", 1), "view-copy", where, "a copy of a path is not that path: %s" % short(x), det)
                continue
            if x.op == "agg" and x.args[1] == 0:
                c.require(strict and utf8 == 1, "view-none", where, "a path is not shown although it could be", det)
                continue
            y = x.args[2][0] if x.op == "agg" and x.args[1] == 1 else None
            lossy = False
            while y is not None and y.op == "agg" and len(y.args[2]) == 1:
                y = y.args[2][0]
            if y is not None and y.op == "app" and last(y) == "from_utf8_lossy" and len(y.args[1]) == 1:
                lossy = True
                y = y.args[1][0]
            z, way = text(y) if y is not None else (None, ())
            c.require(z is T("param", 1), "view", where, "what is shown of a path is not that path: %s" % short(x), det)
            c.require(not lossy or cow and utf8 == 1, "view-lossy", where, "a path is shown with replacement characters", det)
    c.require(n >= 3, "anchor:views", "src/context/mod.rs", "the views of a path cannot be found")


def conversions(c):
    """what requests pass through makes no lossy conversion"""
    p = c.p
    makers = {}
    for bi, b in enumerate(p.bodies):
        if b is None or not b.get("local"):
            continue
        for ci, sp in c.cg.edges(bi)[0]:
            if makes_lossy(p.callees[ci], p.crate):
                makers[bi] = p.callees[ci]["short"]
    c.count("functions with lossy conversions", len(makers))
    c.require(makers, "anchor:lossy", "src/context/maybe_utf8.rs", "no lossy conversions are found at all")
    for f in p.fns:
        if f["body"] is None:
            continue
        keeps = data_type(p, f["out"])
        for ti in f["ins"]:
            ty = p.types[ti]
            keeps = keeps or ty["k"] == "ref" and ty["mut"] and data_type(p, ty["e"])
        if not keeps and not any(p.types[ti].get("path") in ("hyper::server::Request",) for ti in f["ins"]):
            continue
        c.count("functions that request data passes through")
        seen, work = set(), [(f["body"], ())]
        while work:
            b, way = work.pop()
            if b in seen:
                continue
            seen.add(b)
            if b in makers:
                c.violation("lossy", c.where(f), "request data may pass through %s (%s)" % (makers[b], " -> ".join(way + (p.bodies[b]["path"],))), [])
                break
            for x in c.cg.succ_bodies(b):
                if p.bodies[x] is not None and p.bodies[x].get("local"):
                    work.append((x, way + (p.bodies[b]["path"],)))
