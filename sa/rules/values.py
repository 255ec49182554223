"""What simple values are: the order of hyperlinks, response data and the answers of filters (C46 to C52)."""
import itertools
from terms import *
import terms
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import *
from rules.routers import *
from rules.links import same, bare
from rules.shown import shown, shows, pieces, broken
from rules.text import Texts, Exits, text, bytes_of, const_order, ORDER, TEXT

ONE, TWO = T("param", 1), T("param", 2)
SIGN = {255: -1, 0: 0, 1: 1}


def variant(v, x):
    """the variant that something is known to be, however it is reached"""
    x = bare(x)
    for t, d in v.facts.items():
        if t.op == "discr" and isinstance(d, int) and bare(t.args[0]) is x:
            return d
    return None


class Part:
    """one of the things that decide a comparison: how the first relates to the second"""

    def __init__(self, eng, name, path):
        self.eng, self.name, self.path = eng, name, path

    def of(self, side):
        x = T("deref", (ONE, TWO)[side])
        for vi, i in self.path:
            x = T("fld", x, vi, i)
        return x

    def side(self, v, x):
        """0 or 1 if x is what is compared, on that side"""
        y = bare(x)
        for s in (0, 1):
            if y is bare(self.of(s)):
                return s
        return None

    def ways(self):
        return [(r,) for r in (-1, 0, 1)]

    def rel(self, w):
        return w[-1]

    def discr(self, w, x):
        return None

    def sized(self, v, x):
        """the side that this is the length of"""
        return self.side(v, x.args[0]) if x.op == "len" else None


class Bytes(Part):
    """text: its bytes"""

    def side(self, v, x):
        want = tuple(bare(self.of(s)) for s in (0, 1))
        y, seen = text(bare(x))
        for z, vi in seen:
            # reached through the variant that it is
            if bare(z) in want:
                return want.index(bare(z)) if variant(v, z) == vi else None
        y = bare(x)
        return want.index(y) if y in want else None


class Kind(Part):
    """an enum without content: its discriminant"""

    def __init__(self, eng, name, path, n):
        Part.__init__(self, eng, name, path)
        self.n = n

    def ways(self):
        return [(a, b, (a > b) - (a < b)) for a in range(self.n) for b in range(self.n)]

    def discr(self, w, x):
        y = bare(x)
        for s in (0, 1):
            if y is bare(self.of(s)):
                return w[s]
        return None


class Optional(Part):
    """something that may be missing, and is less than anything then"""

    def ways(self):
        return [(0, 0, 0), (1, 0, 1), (0, 1, -1)] + [(1, 1, r) for r in (-1, 0, 1)]

    def discr(self, w, x):
        y = bare(x)
        for s in (0, 1):
            if y is bare(self.of(s)):
                return w[s]
        return None

    def side(self, v, x):
        s = Part.side(self, v, x)
        if s is not None:
            return s
        y = named(x)
        for s in (0, 1):
            if y is bare(T("fld", self.of(s), 1, 0)):
                return s
        return None


def named(x):
    """the method whose name this is (or the method)"""
    while True:
        x = bare(x)
        if x.op == "app" and len(x.args[1]) == 1 and last2(x.args[0].split("<")[0]) in ("AsRef::as_ref", "ToString::to_string", "Method::as_ref"):
            x = x.args[1][0]
        else:
            return x


class Compare:
    """evaluates what a comparison found out, for each way its parts may be related"""

    def __init__(self, eng, parts, v):
        self.eng, self.parts, self.v = eng, parts, v

    def pair(self, a, b):
        """(part, reversed) if these are the two sides of a part"""
        for k in self.parts:
            s, t = k.side(self.v, a), k.side(self.v, b)
            if s is not None and t is not None and s != t:
                return k, s == 1
        return None

    def order(self, w, x):
        """-1, 0 or 1 for an Ordering, or None if it is not known"""
        k = const_order(x)
        if k is not None:
            return SIGN[k]
        if x.op == "app" and last2(x.args[0]) == "Ord::cmp" and len(x.args[1]) == 2:
            return self.related(w, *x.args[1])
        if x.op == "bin" and x.args[0] == "Cmp":
            return self.numbers(w, x.args[1], x.args[2])
        if x.op == "fld" and x.args[1:] == (1, 0):
            return self.partial(w, x.args[0])
        if x.op == "app" and last2(x.args[0]) == "Ordering::reverse":
            k = self.order(w, x.args[1][0])
            return None if k is None else -k
        return None

    def partial(self, w, x):
        if x.op == "agg" and x.args[0] == OPTION and x.args[1] == 1:
            return self.order(w, x.args[2][0])
        if x.op == "app" and last2(x.args[0]) == "PartialOrd::partial_cmp" and len(x.args[1]) == 2:
            return self.related(w, *x.args[1])
        return None

    def related(self, w, a, b):
        p = self.pair(a, b)
        if p is None:
            return self.numbers(w, a, b)
        r = p[0].rel(w[p[0].name])
        return -r if p[1] else r

    def numbers(self, w, a, b):
        a, b = self.number(w, a), self.number(w, b)
        return None if a is None or b is None else (a > b) - (a < b)

    def number(self, w, x):
        x = bare(x)
        if x.op == "int":
            return x.args[0]
        if x.op == "discr":
            k = self.order(w, x.args[0])
            if k is not None:
                return {-1: 255, 0: 0, 1: 1}[k]
            y = x.args[0]
            if y.op == "app" and last2(y.args[0]) == "PartialOrd::partial_cmp" and self.partial(w, y) is not None:
                return 1
            for q in self.parts:
                d = q.discr(w[q.name], y)
                if d is not None:
                    return d
        if x.op in ("cast", "zext") and isinstance(x.args[0], Term):
            return self.number(w, x.args[0])
        return self.truth(w, x)

    def truth(self, w, x):
        """0 or 1 for a condition, or None"""
        if x.op == "int":
            return x.args[0]
        if x.op in ("not", "!"):
            k = self.truth(w, x.args[0])
            return None if k is None else 1 - k
        if x.op in ("and", "or") or x.op == "bin" and x.args[0] in ("BitAnd", "BitOr"):
            l = [self.truth(w, y) for y in (x.args[1:] if x.op == "bin" else x.args[0])]
            z = int(x.op == "or" or x.args[0] == "BitOr")
            return z if z in l else None if None in l else 1 - z
        if x.op in ("eq", "ne", "lt"):
            a, b = x.args
            p = self.pair(a, b)
            r = None
            if p is not None:
                r = p[0].rel(w[p[0].name])
                r = -r if p[1] else r
            else:
                for k in self.parts:
                    s, t = k.sized(self.v, a), k.sized(self.v, b)
                    if s is not None and t is not None and s != t:
                        return {"eq": 1, "ne": 0, "lt": 0}[x.op] if k.rel(w[k.name]) == 0 else None
                r = self.numbers(w, a, b)
            if r is None:
                return None
            return int({"eq": r == 0, "ne": r != 0, "lt": r < 0}[x.op])
        return None

    def possible(self, w):
        """can the facts hold with the parts related like this?"""
        for t, d in self.v.facts.items():
            k = self.number(w, T("discr", t.args[0]) if t.op == "discr" else t)
            if k is None:
                continue
            if isinstance(d, int) and k != d or isinstance(d, frozenset) and k in d:
                return False
        return True

    def all(self):
        for ws in itertools.product(*[k.ways() for k in self.parts]):
            w = {k.name: x for k, x in zip(self.parts, ws)}
            if self.possible(w):
                yield w, next((k.rel(w[k.name]) for k in self.parts if k.rel(w[k.name])), 0)


COMPARED = ("Link", "LinkSegment", "SegmentType")


@prop("C46")
def c46(c):
    c.rule("for every way the methods and paths of two links may be related: eq is true exactly if both are equal; cmp is that of the methods (none first, then by name), and that of the paths if the methods are the same; partial_cmp is Some of it. The same for the label and kind of segments")
    c.rule("a clone has the same parts as its original")
    p = c.p
    X = Texts(c)
    st = {n: c.struct(n) for n in COMPARED}
    m = c.field("Link", lambda n, t: n == "method")
    path = c.field("Link", lambda n, t: p.tname(t) == "Vec")
    label = c.field("LinkSegment", lambda n, t: p.tname(t) == TEXT)
    ty = c.field("LinkSegment", lambda n, t: p.tname(t) == "SegmentType")
    if not c.require(X.good and None not in st.values() and None not in (m, path, label, ty), "anchor:Link", "-", "the parts of a hyperlink cannot be found"):
        return
    kinds = len(st["SegmentType"]["vs"])
    for f in p.fns:
        if f["body"] is None or not f["ins"]:
            continue
        tr = f.get("trait", "").split("<")[0].split("::")[-1]
        t = f["ins"][0]
        while p.types[t]["k"] == "ref":
            t = p.types[t]["e"]
        kind = p.tname(t)
        if kind not in COMPARED:
            continue
        n = f["name"]
        where = c.where(f)
        if tr == "Clone" and n == "clone":
            c.count("clones")
            r = X.run(f)
            for e in r.exits:
                v = View(e)
                c.require(same(r.eng, v, e.ret, T("deref", ONE)), "clone:" + kind, where, "the clone of a %s is not the same: %s" % (kind, short(e.ret)), trace_text(e.trace) + facts_text(e.facts))
            continue
        if tr not in ("PartialEq", "PartialOrd", "Ord"):
            continue
        if n not in ("eq", "ne", "partial_cmp", "cmp", "lt", "le", "gt", "ge"):
            c.violation("overridden:%s:%s" % (kind, n), where, "%s of a %s is not what follows from its order" % (n, kind))
            continue
        c.count("comparisons")
        r = X.run(f)
        if kind == "Link":
            parts = [Optional(r.eng, "method", ((0, m),)), Part(r.eng, "path", ((0, path),))]
        elif kind == "LinkSegment":
            parts = [Bytes(r.eng, "label", ((0, label),)), Kind(r.eng, "kind", ((0, ty),), kinds)]
        else:
            parts = [Kind(r.eng, "kind", (), kinds)]
        for e in r.exits:
            v = View(e)
            det = trace_text(e.trace) + facts_text(e.facts)
            cmp = Compare(r.eng, parts, v)
            for w, want in cmp.all():
                c.count("relations")
                x = e.ret
                if n == "cmp":
                    got = cmp.order(w, x)
                elif n == "partial_cmp":
                    got = cmp.partial(w, x)
                else:
                    got = cmp.truth(w, x)
                    want = int({"eq": want == 0, "ne": want != 0, "lt": want < 0, "le": want <= 0, "gt": want > 0, "ge": want >= 0}[n])
                if got != want:
                    c.violation("%s:%s" % (kind, n), where, "%s of two %ss is %s where %s should decide: %s" % (n, kind, "not known" if got is None else got, ", ".join("%s %s" % (k, x) for k, x in sorted(w.items())), short(x)), det)
                    break
    c.floor("comparisons", 9)
    c.floor("clones", 3)


@prop("C47")
def c47(c):
    c.rule("data made from strings and bytes has exactly their bytes, and is a string exactly if it was made from one")
    c.rule("as_bytes and into_bytes give the complete bytes of either variant; as_string and into_string give the same bytes for a string, and for bytes exactly if from_utf8 accepts all of them, and an error otherwise")
    c.rule("a clone of data has the same variant and bytes")
    p = c.p
    X = Texts(c)
    st = c.struct("Data")
    sv, bv = c.variant("Data", "String"), c.variant("Data", "Bytes")
    if not c.require(X.good and st is not None and None not in (sv, bv), "anchor:Data", "-", "the kinds of response data cannot be found"):
        return

    def kindof(t):
        while p.types[t]["k"] == "ref":
            t = p.types[t]["e"]
        return p.tname(t)

    def held(v, x, src):
        """is x the bytes of data src, in the variant that it is known to be? (at any level of borrowing)"""
        y, seen = text(bare(x))
        while y.op == "fld":
            seen.append((y.args[0], y.args[1]))
            y = text(y.args[0])[0]
        if y.op == "agg":
            return False
        if y is not src:
            return False
        for z, vi in seen:
            if variant(v, z) != vi:
                return False
        return len(seen) > 0

    for f in p.fns:
        if f["body"] is None or not f["ins"]:
            continue
        tr = f.get("trait", "").split("<")[0].split("::")[-1]
        n = f["name"]
        where = c.where(f)
        out = p.tname(f["out"])
        mine = kindof(f["ins"][0]) == "Data"
        if not mine and not (out == "Data" and tr in ("Into", "From")):
            continue
        if not mine:
            c.count("made")
            r = X.run(f)
            k = kindof(f["ins"][0])
            want = sv if k in ("str", "String", "char") else bv
            for e in r.exits:
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                d = r.eng.known(v, r.eng.discr(e.ret))
                c.require(d == want, "made:" + p.types[f["ins"][0]]["s"], where, "data made from %s is not that kind of data: %s" % (k, short(e.ret)), det)
                if d is None:
                    continue
                x = r.eng.sel(e.ret, ("f", d, 0))
                y, seen = text(bare(x))
                if y.op == "agg" and y.args[2]:
                    y = text(bare(y.args[2][0]))[0]
                c.require(y is ONE, "made:" + p.types[f["ins"][0]]["s"], where, "data made from %s is not all of it: %s" % (k, short(e.ret)), det)
            continue
        by_ref = p.types[f["ins"][0]]["k"] == "ref"
        if tr == "Clone" and n == "clone":
            c.count("clones")
            r = X.run(f)
            for e in r.exits:
                v = View(e)
                c.require(alike(r.eng, v, e.ret, T("deref", ONE)), "clone", where, "the clone of data is not the same: %s" % short(e.ret), trace_text(e.trace) + facts_text(e.facts))
            continue
        o = p.types[f["out"]]
        if not (out in ("Vec", "String", "Result") or o["k"] == "ref"):
            continue
        if tr and tr not in ("AsRef", "Borrow", "Deref", "Into"):
            continue
        c.count("taken")
        r = X.run(f)
        for e in r.exits:
            v = View(e)
            det = trace_text(e.trace) + facts_text(e.facts)
            x = e.ret
            if out == "Result":
                src = T("deref", ONE) if by_ref else ONE
                d = r.eng.known(v, r.eng.discr(src))
                s = r.eng.known(v, r.eng.discr(x))
                u = [k for t, k in v.facts.items() if t.op == "utf8" and held(v, t.args[0], ONE)]
                if not c.require(d is not None and s is not None, "taken:" + n, where, "%s does not look at what kind of data it is: %s" % (n, short(x)), det):
                    continue
                if d == bv:
                    c.require(len(u) == 1, "checked:" + n, where, "%s does not check whether all of the bytes are UTF-8: %s" % (n, short(x)), det)
                want = 0 if d == sv or u == [1] else 1
                c.require(s == want, "taken:" + n, where, "%s gives %s for %s" % (n, "an error" if s else "a string", "a string" if d == sv else "bytes that are%s UTF-8" % ("" if u == [1] else " not")), det)
                if s == 0:
                    c.require(held(v, r.eng.sel(x, ("f", 0, 0)), ONE), "taken:" + n, where, "%s does not give the complete content: %s" % (n, short(x)), det)
            else:
                c.require(held(v, x, ONE), "taken:" + n, where, "%s does not give the complete content: %s" % (n, short(x)), det)
    c.floor("made", 4)
    c.floor("taken", 4)
    c.floor("clones", 1)


def alike(eng, v, a, b):
    """the same value, where a borrowed string or slice may have become an owned one"""
    if same(eng, v, a, b):
        return True
    if text(bare(a))[0] is text(bare(b))[0] and a.op != "agg":
        return text(bare(a))[0] is not None and same(eng, v, bare(a), bare(b))
    return False


@prop("C48")
def c48(c):
    c.rule("each constructor of a filter's answer gives the variant that it is named after, with exactly the status, message or converted data that it was given")
    c.rule("a clone of an answer is the same answer")
    p = c.p
    X = Texts(c)
    en = {n: c.struct(n) for n in ("ContextAction", "ResponseAction")}
    if not c.require(None not in en.values(), "anchor:answers", "-", "the answers of filters cannot be found"):
        return
    for f in p.fns:
        if f["body"] is None:
            continue
        out = p.tname(f["out"])
        if out not in en:
            continue
        tr = f.get("trait", "").split("<")[0].split("::")[-1]
        n = f["name"]
        where = c.where(f)
        t = f["ins"][0] if f["ins"] else None
        while t is not None and p.types[t]["k"] == "ref":
            t = p.types[t]["e"]
        if tr == "Clone" and n == "clone":
            c.count("clones")
            r = X.run(f)
            for e in r.exits:
                v = View(e)
                c.require(alike(r.eng, v, e.ret, T("deref", ONE)), "clone:" + out, where, "the clone of a %s is not the same: %s" % (out, short(e.ret)), trace_text(e.trace) + facts_text(e.facts))
            continue
        if tr or t is not None and p.tname(t) == out:
            continue
        vs = {x["n"].lower(): i for i, x in enumerate(en[out]["vs"])}
        want = vs.get(n.replace("_", ""))
        if want is None or ("<impl" in f["path"] or out not in f["path"]):
            continue
        c.count("constructors")
        r = X.run(f)
        for e in r.exits:
            v = View(e)
            det = trace_text(e.trace) + facts_text(e.facts)
            d = r.eng.known(v, r.eng.discr(e.ret))
            key = "%s::%s" % (out, n)
            if not c.require(d == want, "variant:" + key, where, "%s does not give %s: %s" % (key, en[out]["vs"][want]["n"], short(e.ret)), det):
                continue
            if not f["ins"]:
                continue
            x = r.eng.sel(e.ret, ("f", d, 0))
            if p.types[f["ins"][0]]["k"] == "adt" and p.tname(f["ins"][0]) == "Option":
                s = r.eng.known(v, r.eng.discr(ONE))
                g = r.eng.known(v, r.eng.discr(x))
                good = s is not None and g == s
                if good and s == 1:
                    y = r.eng.sel(x, ("f", 1, 0))
                    if y.op == "app" and last2(y.args[0].split("<")[0]) in ("Into::into", "From::from"):
                        y = y.args[1][0]
                    good = y is T("fld", ONE, 1, 0)
            else:
                good = text(bare(x))[0] is ONE
            c.require(good, "content:" + key, where, "%s does not give what it was given: %s" % (key, short(x)), det)
    c.floor("constructors", 5)
    c.floor("clones", 2)


class Target(Bytes):
    """a path, or an asterisk"""

    def __init__(self, eng, name, path, pv, av):
        Bytes.__init__(self, eng, name, path + ((pv, 0),))
        self.me, self.pv, self.av = path, pv, av

    def ways(self):
        return [(self.pv, self.pv, r) for r in (-1, 0, 1)] + [(self.av, self.av, 0), (self.pv, self.av, -1), (self.av, self.pv, 1)]

    def discr(self, w, x):
        y = bare(x)
        for s in (0, 1):
            if y is (ONE, TWO)[s]:
                return w[s]
        return None


@prop("C49")
def c49(c):
    c.rule("is_path and is_asterisk decide by the kind of the target alone; two targets are equal exactly if both are asterisks or both are paths with the same bytes")
    c.rule("as_path gives the bytes and the tag of exactly the paths, as_utf8_path those of the paths that are UTF-8, as_utf8_path_lossy those of all paths or what from_utf8_lossy makes of them; none of them gives anything for an asterisk")
    c.rule("what is displayed is the lossy path, or an asterisk")
    p = c.p
    X = Texts(c)
    st = c.struct("UriPath")
    pv, av = c.variant("UriPath", "Path"), c.variant("UriPath", "Asterisk")
    if not c.require(X.good and st is not None and None not in (pv, av), "anchor:UriPath", "-", "the kinds of targets cannot be found"):
        return
    me = T("deref", ONE)
    inside = T("fld", me, pv, 0)

    def kindof(t):
        while p.types[t]["k"] == "ref":
            t = p.types[t]["e"]
        return p.tname(t)

    for f in p.fns:
        if f["body"] is None or not f["ins"] or kindof(f["ins"][0]) != "UriPath":
            continue
        tr = f.get("trait", "").split("<")[0].split("::")[-1]
        n = f["name"]
        where = c.where(f)
        if tr == "PartialEq" and n in ("eq", "ne") or not tr and n in ("is_path", "is_asterisk"):
            c.count("questions")
            r = X.run(f)
            part = Target(r.eng, "target", (), pv, av)
            for e in r.exits:
                cmp = Compare(r.eng, [part], View(e))
                for w, rel in cmp.all():
                    x = w["target"]
                    want = int({"eq": rel == 0, "ne": rel != 0, "is_path": x[0] == pv, "is_asterisk": x[0] == av}[n])
                    got = cmp.truth(w, e.ret)
                    if got != want:
                        c.violation("asked:" + n, where, "%s of %s is %s: %s" % (n, " and ".join("an asterisk" if k == av else "a path" for k in (x[:2] if tr else x[:1])), "not known" if got is None else got, short(e.ret)), trace_text(e.trace) + facts_text(e.facts))
                        break
        elif not tr and n in ("as_path", "as_utf8_path", "as_utf8_path_lossy"):
            c.count("views")
            r = X.run(f)
            for e in r.exits:
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                d, s = variant(v, me), r.eng.known(v, r.eng.discr(e.ret))
                if not c.require(d is not None and s is not None, "view:" + n, where, "%s does not look at what kind of target it is: %s" % (n, short(e.ret)), det):
                    continue
                if d == av:
                    c.require(s == 0, "asterisk:" + n, where, "%s gives a path for an asterisk: %s" % (n, short(e.ret)), det)
                    continue
                tag = variant(v, inside)
                if n == "as_utf8_path":
                    if not c.require(tag is not None, "view:" + n, where, "%s does not look at whether the path is UTF-8" % n, det):
                        continue
                    s0 = 1 - tag
                else:
                    s0 = 1
                if not c.require(s == s0, "view:" + n, where, "%s gives %s for a path%s" % (n, ("nothing", "something")[s], "" if tag is None else " that is%s UTF-8" % ("" if tag == 0 else " not")), det):
                    continue
                if s == 0:
                    continue
                x = r.eng.sel(e.ret, ("f", 1, 0))
                if n == "as_path":
                    k = r.eng.known(v, r.eng.discr(x)) if x.op == "agg" else variant(v, x)
                    good = held(v, x if x.op != "agg" else r.eng.sel(x, ("f", x.args[1], 0)), ONE) and (k is None and x.op != "agg" or k == tag)
                elif n == "as_utf8_path":
                    good = held(v, x, ONE)
                else:
                    good = lossy_of(v, x, tag)
                c.require(good, "view:" + n, where, "%s does not give the path: %s" % (n, short(x)), det)
        elif tr == "Display" and n == "fmt":
            c.count("shown")
            eng = c.engine(rel=shown, opaque=shows)
            for e in c.run(eng, f, mon=UNIT) or ():
                if e.kind != "return" or broken(e):
                    continue
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                ev = pieces(e)
                d, tag = variant(v, me), variant(v, inside)
                good = ev is not None and len(ev) == 1 and d is not None
                if good:
                    x = ev[0][1]
                    if ev[0][0] == "val":
                        while x.op in ("&", "vref", "deref"):
                            x = x.args[0]
                    if d == pv:
                        good = ev[0][0] == "val" and ev[0][2] == "display" and lossy_of(v, x, tag)
                    elif ev[0][0] == "str":
                        good = x == b"*"
                    else:
                        while x.op == "agg" and len(x.args[2]) == 1:
                            x = x.args[2][0]
                        y = text(bare(x))[0]
                        good = y.op == "str" and y.args[0] == "*" or y.op == "const" and "*" in str(y.args[-1])
                c.require(good, "shown", where, "not the path or the asterisk is shown: %s" % ("not known" if ev is None else short([x[1] for x in ev])), det)
    c.floor("questions", 3)
    c.floor("views", 3)


def held(v, x, src):
    """is x the bytes of src, all the way through the variants that it is known to be?"""
    y, seen = text(bare(x))
    while y.op == "fld":
        seen.append((y.args[0], y.args[1]))
        y = text(y.args[0])[0]
    return y is src and len(seen) > 0 and all(variant(v, z) == vi for z, vi in seen)


def lossy_of(v, x, tag):
    """the bytes of a path that is UTF-8, or what from_utf8_lossy makes of any"""
    if x.op == "agg" and len(x.args[2]) == 1:
        x = x.args[2][0]
    if tag == 0 and held(v, x, ONE):
        return True
    while x.op in ("deref", "&", "vref") or x.op == "fld" and x.args[0].op == "app" and "lossy" in x.args[0].args[0]:
        x = x.args[0]
    return x.op == "app" and "from_utf8_lossy" in x.args[0] and held(v, x.args[1][0], ONE)


@prop("C50")
def c50(c):
    c.rule("a path is split at every '/' and nowhere else, after one '/' at its start and one at its end were left out; it has no segments exactly if nothing is left")
    c.rule("strings are split as their bytes; a sequence of routes has the segments of each of its elements, in order")
    c.rule("the iterator gives what the split gives, one at a time, and announces as many as the split does, or fewer as least and more as most")
    p = c.p
    X = Texts(c)
    root, path = c.variant("RouteIter", "Root"), c.variant("RouteIter", "Path")
    if not c.require(X.good and None not in (root, path), "anchor:RouteIter", "-", "the iterator over segments cannot be found"):
        return
    me = T("deref", ONE)

    def splitting(eng, x):
        """the split that an iterator does: (name, what is split, by what)"""
        while x.op == "it" or x.op == "agg" and len(x.args[2]) >= 1:
            l = [y for y in (x.args[2] if x.op == "agg" else x.args) if isinstance(y, Term) and y.op == "app"]
            if not l:
                return None
            x = l[0]
        if x.op != "app" or last2(x.args[0]) not in ("[T]::split", "str::split") or len(x.args[1]) != 2:
            return None
        return x.args

    def by_slash(x):
        """does this function or constant decide that a byte is a '/'?"""
        while x.op in ("&", "vref", "deref"):
            x = x.args[0]
        if x.op in ("int", "char") and x.args[0] == 47:
            return True
        b = None
        if x.op == "fn":
            b = p.callees[x.args[0]].get("body")
        elif x.op == "agg" and str(x.args[0]).startswith("closure:"):
            b = next((i for i, y in enumerate(p.bodies) if y and "closure:" + y["path"] == x.args[0] or y and y.get("full") and "closure:" + y["full"] == x.args[0]), None)
        if b is None:
            return False
        eng = c.engine()
        ex = c.run(eng, b, mon=UNIT)
        if not ex:
            return False
        arg = bare(T("param", p.bodies[b]["argc"]))
        for e in ex:
            if e.kind != "return":
                return False
            x = e.ret
            k = x.args[0] if x.op == "int" else None
            if k is None:
                if not (x.op == "eq" and {bare(y) for y in x.args} == {arg, INT(47)}):
                    return False
            else:
                got = [d for t, d in e.facts.items() if bare(t) is arg]
                if len(got) != 1 or k != int(got[0] == 47) or k == 0 and not (isinstance(got[0], frozenset) and got[0] == frozenset((47,))):
                    return False
        return True

    for f in p.fns:
        if f["body"] is None or not f["ins"]:
            continue
        tr = f.get("trait", "").split("<")[0].split("::")[-1]
        n = f["name"]
        where = c.where(f)
        t = f["ins"][0]
        while p.types[t]["k"] == "ref":
            t = p.types[t]["e"]
        if tr == "Route" and n == "segments":
            c.count("routes")
            r = X.run(f, far=False)
            out = p.tname(f["out"])
            for e in r.exits:
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                x = e.ret
                if out != "RouteIter":
                    l = list(parts_of(x))
                    good = any(y.op == "app" and last2(y.args[0].split("<")[0]) == "IntoIterator::into_iter" and bare(y.args[1][0]) is ONE for y in l)
                    fs = [y for y in l if y.op == "fn" or y.op == "agg" and str(y.args[0]).startswith("closure:")]
                    good = good and len(fs) == 1 and fs[0].op == "fn" and not any(y.op in ("app",) and last2(y.args[0].split("<")[0]) != "IntoIterator::into_iter" for y in l)
                    if good:
                        good = passes(c, p.callees[fs[0].args[0]])
                    kinds = {str(y.args[0]).split("::")[-1] for y in l if y.op == "agg"}
                    good = good and kinds <= {"FlatMap", "FlattenCompat", "Fuse", "Option", "Map", "tuple"}
                    c.require(good, "joined", where, "a sequence of routes is not the segments of each of its elements: %s" % short(x), det)
                    continue
                d = r.eng.known(v, r.eng.discr(x))
                if not c.require(d is not None, "segments", where, "it is not known how the path is split: %s" % short(x), det):
                    continue
                kind = p.types[t]["s"]
                ln = T("len", me)
                if d == path:
                    s = splitting(r.eng, r.eng.sel(x, ("f", path, 0)))
                    if not c.require(s is not None, "split:" + kind, where, "it is not known how the path is split: %s" % short(x), det):
                        continue
                    whole, by = s[1]
                    got = (INT(0), ln) if bare(whole) is ONE else whole.args[1:3] if whole.op == "vslice" and bare(whole.args[0]) is ONE else (None, None)
                    c.require(by_slash(by), "by:" + kind, where, "the path is not split at each '/': %s" % short(by), det)
                for w in paths(e, me):
                    c.count("forms of paths")
                    a, b = w.wanted()
                    what = "a path of %d bytes that %s with '/' and %s with '/'" % (w.n, "starts" if w.first else "does not start", "ends" if w.last else "does not end")
                    if d == root:
                        if not c.require(a == b, "root:" + kind, where, "%s is taken for the root" % what, det):
                            break
                    elif not (c.require(a < b, "empty:" + kind, where, "%s is split into segments" % what, det) and
                              c.require(None not in got and (w.value(got[0]), w.value(got[1])) == (a, b), "ends:" + kind, where, "of %s, another part than between these is split: %s" % (what, short(whole)), det)):
                        break
        elif p.tname(t) == "RouteIter" and tr == "Iterator" and n == "next":
            c.count("iterators")
            r = X.run(f)
            for e in r.exits:
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                d, s = variant(v, me), r.eng.known(v, r.eng.discr(e.ret))
                inner = T("fld", me, path, 0)
                if not c.require(d is not None and s is not None, "next", where, "the kind of path is not looked at", det):
                    continue
                if d == root:
                    c.require(s == 0, "next-root", where, "there is a segment in the root path: %s" % short(e.ret), det)
                    continue
                k = [x for t, x in v.facts.items() if t.op == "len" and bare(t.args[0]) is bare(inner)]
                if s == 0:
                    c.require(k == [0], "next-end", where, "the segments end before the last one", det)
                else:
                    y = r.eng.sel(e.ret, ("f", 1, 0))
                    c.require(k == [frozenset((0,))] and y.op == "item" and bare(y.args[0]) is bare(inner) and y.args[1] in (0, INT(0)), "next-item", where, "something else than the next segment is given: %s" % short(e.ret), det)
        elif p.tname(t) == "RouteIter" and n == "size_hint" and tr == "Iterator":
            r = X.run(f)
            for e in r.exits:
                c.count("announced sizes")
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                low, high = r.eng.sel(e.ret, ("f", 0, 0)), r.eng.sel(e.ret, ("f", 0, 1))
                d = variant(v, me)

                def inner_hint(x, i):
                    if x.op != "fld" or x.args[-1] != i:
                        return False
                    y = x.args[0]
                    if y.op == "app":
                        return last2(y.args[0].split("<")[0]) == "Iterator::size_hint" and bare(y.args[1][0]) is bare(T("fld", me, path, 0))
                    k = r.eng.origin.get(y)
                    return k is not None and last2(k.name) == "Iterator::size_hint" and bare(r.eng.deepval(e.st, k.args[0])) is bare(T("fld", me, path, 0))
                h = r.eng.known(v, r.eng.discr(high))
                c.require(low is INT(0) or d == path and inner_hint(low, 0), "least", where, "more segments are announced than there may be: %s" % short(low), det)
                c.require(h == 0 or d == path and inner_hint(high, 1) or d == root and h == 1 and r.eng.sel(high, ("f", 1, 0)).op == "int", "most", where, "fewer segments are announced than there may be: %s" % short(high), det)
        elif p.tname(t) == "RouteIter" and tr == "Iterator":
            c.violation("overridden:" + n, where, "%s is not derived from next" % n)
    c.floor("routes", 3)
    c.floor("iterators", 1)


def parts_of(x):
    """all terms that a value is made of"""
    yield x
    if x.op in ("agg", "app"):
        for y in x.args[-1] if x.op == "app" else x.args[2]:
            yield from parts_of(y)
    elif x.op in ("it", "&", "vref"):
        for y in x.args:
            if isinstance(y, Term):
                yield from parts_of(y)


def passes(c, cc):
    """does this function give the segments of what it gets, and nothing else?"""
    p = c.p
    if last2(cc["short"]) == "Route::segments":
        return True
    b = cc.get("body")
    if b is None:
        return False
    eng = c.engine(rel=lambda eng, st, call, res: ("call", last2(call.name), res) if res is not None else None, opaque=lambda cc: last2(cc["short"]) == "Route::segments")
    ex = [e for e in c.run(eng, b, mon=UNIT) or () if e.kind == "return"]
    good = bool(ex)
    for e in ex:
        k = eng.origin.get(e.ret)
        good = good and k is not None and last2(k.name) == "Route::segments" and bare(eng.deepval(e.st, k.args[0])) in (T("param", 1), bare(T("app", "Deref::deref", (T("param", 1),)))) or \
            k is not None and last2(k.name) == "Route::segments" and text(bare(k.args[0]))[0] is T("param", 1)
    return good


class Path:
    """evaluates conditions and numbers for a path with a number of bytes, whose first and last one are '/' or not"""

    def __init__(self, s, n, first, last):
        self.s, self.n, self.first, self.last = bare(s), n, first, last

    def value(self, t):
        if t.op == "int":
            return t.args[0]
        if t.op == "len":
            return self.n if bare(t.args[0]) is self.s else None
        if t.op == "elem":
            if bare(t.args[0]) is not self.s or t.args[1] != "idx":
                return None
            i = self.value(t.args[2])
            if i is None or self.n == 0:
                return None
            k = self.first if i == 0 else self.last if i == self.n - 1 else None
            return None if k is None else 47 if k else "other"
        if t.op in ("eq", "lt"):
            a, b = [self.value(x) for x in t.args]
            if a is None or b is None or "other" in (a, b) and (t.op == "lt" or a == b):
                return None
            return int(a == b if t.op == "eq" else a < b)
        if t.op in ("not",):
            k = self.value(t.args[0])
            return None if k is None else 1 - k
        k, m = terms.linear(t)
        for x, q in m.items() if isinstance(m, dict) else m:
            if x is t:
                return None
            y = self.value(x)
            if not isinstance(y, int):
                return None
            k += q * y
        return k

    def possible(self, facts):
        for t, d in facts.items():
            k = self.value(t)
            if k is None:
                continue
            if isinstance(d, int) and (k != d if k != "other" else d == 47) or isinstance(d, frozenset) and k in d:
                return False
        return True

    def wanted(self):
        """where the part that is split starts and ends"""
        a = int(self.first)
        return a, self.n - int(self.last and self.n > a)


def paths(e, s):
    for n in range(6):
        for first in (False, True)[:1 + (n > 0)]:
            for last in (False, True)[:1 + (n > 0)]:
                if n == 1 and first != last:
                    continue
                w = Path(s, n, first, last)
                if w.possible(e.facts):
                    yield w


@prop("C51")
def c51(c):
    c.rule("each clone function of the crate gives a value whose parts are those of the original, or clones of them, in the same places")
    p = c.p
    X = Texts(c)
    for f in p.fns:
        tr = f.get("trait", "").split("<")[0].split("::")[-1]
        if f["body"] is None or tr != "Clone" or f["name"] not in ("clone", "clone_from"):
            continue
        where = c.where(f)
        t = f["ins"][0]
        while p.types[t]["k"] == "ref":
            t = p.types[t]["e"]
        kind = p.tname(t)
        c.count("clones")
        r = X.run(f)
        src = T("deref", TWO if f["name"] == "clone_from" else ONE)
        for e in r.exits:
            v = View(e)
            got = r.eng.deepval(e.st, e.ret) if f["name"] == "clone" else r.eng.load(e.st, *r.eng.target(ONE))
            c.require(cloned(r.eng, v, got, src), "clone:" + kind, where, "the clone of a %s is not the same: %s" % (kind, short(got)), trace_text(e.trace) + facts_text(e.facts))
    c.floor("clones", 12)


def cloned(eng, v, x, src):
    """is x what src is, at each place that it has?"""
    if x is src or alike(eng, v, x, src):
        return True
    a, b = stripped(x), stripped(src)
    if a is b:
        return True
    if a.op == "agg" and isinstance(a.args[0], str):
        d = variant(v, src)
        if d is not None and d != eng.p.discr_of(a.args[0], a.args[1]):
            return False
        if d is None and not a.args[2]:
            return False
        return all(cloned(eng, v, y, T("fld", b, a.args[1], i)) for i, y in enumerate(a.args[2]))
    return False


def stripped(x):
    while x.op in ("&", "vref", "deref"):
        x = x.args[0]
    if x.op == "fld":
        y = stripped(x.args[0])
        return T("fld", y, *x.args[1:])
    return x


@prop("C52")
def c52(c):
    c.rule("a mock context has the method, path, headers and global data that it was given, a mock body for these headers, and is empty otherwise, with HTTP 1.1 and the address 0.0.0.0:80")
    c.rule("replacing the hyperlinks changes these, gives back the old ones, and leaves each other part where it was")
    p = c.p
    X = Texts(c)
    st = c.struct("Context")
    pv = c.variant("UriPath", "Path")
    if not c.require(X.good and st is not None and pv is not None, "anchor:Context", "-", "the parts of a context cannot be found"):
        return
    fields = [x[0] for x in st["vs"][0]["fs"]]

    def empty(x):
        while x.op == "agg" and len(x.args[2]) == 1:
            x = x.args[2][0]
        return x.op in ("vnew", "mnew") or x.op == "app" and not x.args[1] and x.args[0].split("::")[-1] in ("new", "default")

    f = c.fn("Context", "mock")
    if c.require(f is not None, "anchor:mock", "-", "Context::mock cannot be found"):
        where = c.where(f)
        r = Run(c, f, also=lambda cc: last2(cc["short"]) == "BodyReader::mock")
        P = {}
        for i, t in enumerate(f["ins"]):
            k = p.types[t]
            while k["k"] == "ref":
                k = p.types[k["e"]]
            P["path" if k["k"] == "param" else k["path"].split("::")[-1]] = T("param", i + 1)
        for e in r.exits:
            c.count("mocks")
            v = View(e)
            det = trace_text(e.trace) + facts_text(e.facts)
            x = r.eng.deepval(e.st, e.ret)
            if not c.require(x.op == "agg" and len(x.args[2]) == len(fields), "mock", where, "it is not known what a mock context is: %s" % short(x), det):
                continue
            for n, ty, y in zip(fields, [z[1] for z in st["vs"][0]["fs"]], x.args[2]):
                k = p.tname(ty)
                if n in ("headers", "method", "global"):
                    want = {"headers": "Headers", "method": "Method", "global": "Global"}[n]
                    good = bare(y) is P.get(want)
                elif n == "uri_path":
                    good = r.eng.known(v, r.eng.discr(y)) == pv and y.op == "agg"
                    if good:
                        z = y.args[2][0]
                        while z.op == "agg" and len(z.args[2]) == 1 or z.op == "app" and last2(z.args[0].split("<")[0]) in ("Into::into", "From::from"):
                            z = z.args[2][0] if z.op == "agg" else z.args[1][0]
                        good = text(bare(z))[0] is P.get("path")
                elif n == "fragment":
                    good = r.eng.known(v, r.eng.discr(y)) == 0 and y.op == "agg"
                elif k in ("Vec", "Parameters"):
                    good = empty(y)
                elif k == "HttpVersion":
                    good = y.op == "agg" and p.types[ty]["vs"][y.args[1]]["n"] == "Http11" if "vs" in p.types[ty] else y.op == "agg"
                elif k == "SocketAddr":
                    good = "80" in show(y) and any(z.op == "app" and "Ipv4Addr::new" in z.args[0] and all(q is INT(0) for q in z.args[1]) for z in parts_of(y)) and any(z is INT(80) for z in parts_of(y))
                elif k == "BodyReader":
                    bodies = [q for q in r.events(e) if q[0] == "BodyReader::mock"]
                    good = len(bodies) == 1 and bodies[0][3] is y and bare(bodies[0][2][0]) is P.get("Headers")
                else:
                    good = empty(y)
                c.require(good, "mock:" + n, where, "the %s of a mock context is something else: %s" % (n, short(y)), det)
    f = c.fn("Context", "replace_hyperlinks")
    if c.require(f is not None, "anchor:replace_hyperlinks", "-", "Context::replace_hyperlinks cannot be found"):
        where = c.where(f)
        r = X.run(f)
        li = fields.index("hyperlinks")
        for e in r.exits:
            c.count("replaced")
            v = View(e)
            det = trace_text(e.trace) + facts_text(e.facts)
            new, old = r.eng.sel(e.ret, ("f", 0, 0)), r.eng.sel(e.ret, ("f", 0, 1))
            c.require(bare(old) is T("fld", ONE, 0, li), "old-links", where, "not the old hyperlinks are given back: %s" % short(old), det)
            for i, n in enumerate(fields):
                y = r.eng.sel(new, ("f", 0, i))
                c.require(bare(y) is (TWO if i == li else T("fld", ONE, 0, i)), "replaced:" + n, where, "the %s of the context is something else: %s" % (n, short(y)), det)
    c.floor("mocks", 1)
    c.floor("replaced", 1)
