"""Text of unknown encoding, and sets of parameters (C24, C25, C38)."""
from terms import *
import terms
import models as base_models
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import *
from rules.routers import *
from rules.links import SAME, keeps_bytes, bare, going, sequences, turn_of

TEXT = "MaybeUtf8"
ORDER = "std::cmp::Ordering"

def text(x):
    """the value whose bytes these are, and the variants that were taken apart on the way: (value, [(value, variant)])"""
    seen = []
    while True:
        if x.op in ("deref", "&", "vref") and isinstance(x.args[0], Term):
            x = x.args[0]
        elif x.op == "ref":
            y = bare(x)
            if y is x:
                return x, seen
            x = y
        elif x.op == "app" and keeps_bytes(x.args[0]) and x.args[1]:
            x = x.args[1][0]
        elif x.op == "fld" and x.args[2] == 0:
            seen.append((x.args[0], x.args[1]))
            x = x.args[0]
        elif x.op == "utf8cast":
            x = x.args[0]
        else:
            return x, seen


def bytes_of(eng, v, x):
    """the parameter whose bytes these are, or None"""
    y, seen = text(x)
    if y.op != "param":
        return None
    for z, vi in seen:
        d = eng.known(v, eng.discr(z))
        if d is not None and d != vi or d is None and vi != 0:
            return None
    return y


class Exits(list):
    """ways out of a function; on each of them, what the arguments of its calls were at the time"""

    def __init__(self, r, l):
        list.__init__(self, l)
        self.r = r

    def __iter__(self):
        for e in list.__iter__(self):
            self.r.eng.deep = {x[3]: x[2] for x in self.r.events(e)}
            yield e


class Texts:
    def __init__(self, c):
        self.c = c
        p = c.p
        self.good = c.require(c.struct(TEXT) is not None, "anchor:text", "-", "the text of unknown encoding cannot be found")

    def run(self, f, **kw):
        r = Run(self.c, f, also=lambda cc: last2(cc["short"]) in ("Hash::hash", "Hash::hash_slice", "Write::write_all"), **kw)
        r.exits = Exits(r, r.exits)
        self.c.require(r.exits, "returns:" + f["path"], self.c.where(f), "%s never returns" % f["path"])
        return r

    def is_text(self, ti):
        p = self.c.p
        while p.types[ti]["k"] == "ref":
            ti = p.types[ti]["e"]
        return p.tname(ti) == TEXT


def flipped(k):
    return {1: 255, 255: 1, 0: 0}.get(k)


def const_order(x):
    """255, 0 or 1 for a fixed Ordering"""
    if x.op == "constbits" and x.args[0] == ORDER:
        return x.args[1]
    if x.op == "agg" and x.args[0] == ORDER:
        return {0: 255, 1: 0, 2: 1}.get(x.args[1])
    return None


def orders(eng, v, x, total):
    """[(a, b, reversed)]: which comparisons this could be the result of, as an Ordering (total) or an Option of one"""
    r = []
    if x.op == "app" and last2(x.args[0]) in ("PartialOrd::partial_cmp", "Ord::cmp") and len(x.args[1]) == 2:
        if (last2(x.args[0]) == "Ord::cmp") == total:
            return [x.args[1] + (False,)]
        return []
    if total and x.op == "fld" and x.args[1:] == (1, 0):
        return orders(eng, v, x.args[0], False)
    if not total and x.op == "agg" and x.args[0] == OPTION and x.args[1] == 1:
        return orders(eng, v, x.args[2][0], True)
    k = const_order(x) if total else None
    none = not total and x.op == "agg" and x.args[0] == OPTION and x.args[1] == 0
    if k is None and not none:
        return []
    for t, d in v.facts.items():
        if t.op != "discr" or not isinstance(d, int):
            continue
        y = t.args[0]
        if none:
            if d == 0:
                r += [(a, b, s) for a, b, q in orders(eng, v, y, False) for s in (False, True)]
        else:
            if d == k:
                r += [(a, b, q) for a, b, q in orders(eng, v, y, True)]
            if d == flipped(k):
                r += [(a, b, not q) for a, b, q in orders(eng, v, y, True)]
    return r


@prop("C24")
def c24(c):
    c.rule("eq of a text and anything compares the complete bytes of both, with byte slice equality, for both variants and argument orders")
    c.rule("partial_cmp and cmp give the byte slice order of the first argument relative to the second")
    c.rule("hash gives the bytes to the hasher as a byte slice, once, and nothing else")
    c.rule("as_ref, borrow, deref, as_bytes give the bytes of whichever variant it is; nothing else than the bytes can be borrowed")
    p = c.p
    X = Texts(c)
    if not X.good:
        return
    one, two = T("param", 1), T("param", 2)
    for f in p.fns:
        if f["body"] is None or not any(X.is_text(t) for t in f["ins"][:2]):
            continue
        tr = f.get("trait", "").split("<")[0].split("::")[-1]
        n = f["name"]
        where = c.where(f)
        sides = "%s-%s" % tuple(p.types[t]["s"].replace("context::maybe_utf8::", "").replace("std::string::", "").replace("std::vec::", "").replace("std::borrow::", "") for t in (f["ins"] * 2)[:2])
        if tr in ("PartialEq", "PartialOrd", "Ord") and n not in ("eq", "ne", "partial_cmp", "cmp"):
            c.violation("overridden:" + n, where, "%s is not derived from the comparison of the bytes" % n)
        elif tr == "PartialEq":
            c.count("equalities")
            r = X.run(f)
            for e in r.exits:
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                x, flip = e.ret, n == "ne"
                if x.op in ("not", "!"):
                    x, flip = x.args[0], not flip
                good = False
                if x.op == "eq":
                    good = not flip and {bytes_of(r.eng, v, a) for a in x.args} == {one, two}
                elif x.op == "ne":
                    good = flip and {bytes_of(r.eng, v, a) for a in x.args} == {one, two}
                else:
                    k = x.args[0] if x.op == "int" else None
                    if k is not None and flip:
                        k = 1 - k
                    for t, d in v.facts.items():
                        if t.op == "eq" and {bytes_of(r.eng, v, a) for a in t.args} == {one, two} and d == k:
                            good = True
                        if t.op == "eq" and all(a.op == "len" for a in t.args) and {bytes_of(r.eng, v, a.args[0]) for a in t.args} == {one, two} and d == 0 and k == 0:
                            good = True
                c.require(good, "eq:" + sides, where, "equality of %s is not that of the bytes: %s" % (sides.replace("-", " and "), short(e.ret)), det)
        elif tr in ("PartialOrd", "Ord"):
            c.count("orders")
            r = X.run(f)
            for e in r.exits:
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                os = [(bytes_of(r.eng, v, a), bytes_of(r.eng, v, b), q) for a, b, q in orders(r.eng, v, e.ret, n == "cmp")]
                c.require((one, two, False) in os or (two, one, True) in os, "order:" + n + ":" + sides, where, "the order of %s is not that of the bytes: %s" % (sides.replace("-", " and "), short(e.ret)), det)
        elif tr == "Hash" and X.is_text(f["ins"][0]):
            c.count("hashes")
            r = X.run(f)
            for e in r.exits:
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                ev = r.events(e)
                good = len(ev) == 1 and ev[0][0] == "Hash::hash"
                if good:
                    a = r.eng.origin[ev[0][3]].c["args"]
                    ty = a[0]
                    while p.types[ty]["k"] == "ref":
                        ty = p.types[ty]["e"]
                    t = p.types[ty]
                    kind = p.tname(ty)
                    good = kind in ("[T]", "Vec") and p.types[t["e"] if "e" in t else t["args"][0]]["s"] == "u8" and bytes_of(r.eng, v, ev[0][2][0]) is one
                    good = good and text(ev[0][2][1])[0] is two
                c.require(good, "hash", where, "the hash is not that of a slice of the bytes: %s" % short([x[2] for x in ev]), det)
        elif tr in ("AsRef", "Borrow", "Deref") and X.is_text(f["ins"][0]) or not tr and n in ("as_bytes",) and X.is_text(f["ins"][0]):
            c.count("views")
            out = p.types[f["out"]]
            if tr == "Borrow":
                c.require(out["k"] == "ref" and p.types[out["e"]]["s"] == "[u8]", "borrow-type", where, "something else than the bytes can be borrowed: %s" % out["s"])
            r = X.run(f)
            for e in r.exits:
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                c.require(bytes_of(r.eng, v, e.ret) is one, "view:" + (tr or n), where, "not the bytes of the text are given: %s" % short(e.ret), det)
    c.floor("equalities", 8)
    c.floor("orders", 9)
    c.floor("hashes", 1)
    c.floor("views", 4)


def piece(eng, x):
    """what a value adds to a sequence of bytes"""
    y = text(x)[0] if not (x.op == "fld") else x
    if y.op == "fld" or y.op == "deref":
        z = text(y)[0]
        y = z if z.op == "param" else y
    if y.op == "agg" and y.args[0] == "array" and len(y.args[2]) == 1:
        return T("byte", y.args[2][0])
    if y.op in ("call", "app") and "encode_utf8" in (y.args[0] if y.op == "app" else eng.origin[y].name):
        return piece(eng, y.args[1][0] if y.op == "app" else eng.origin[y].args[0])
    return y


def content(eng, x):
    """the pieces that a sequence of bytes was put together from"""
    if x.op in ("&", "vref"):
        return content(eng, x.args[0])
    if x.op == "cat":
        return content(eng, x.args[0]) + content(eng, x.args[1])
    if x.op in ("vnew",) or x.op == "str" and x.args[0] == "" or x.op == "const" and x.args[-1] == "":
        return ()
    if x.op == "vpush":
        return content(eng, x.args[0]) + (T("byte", x.args[1]),)
    if x.op == "upd" and x.args[1] in eng.origin:
        k = eng.origin[x.args[1]]
        a = getattr(eng, "deep", {}).get(x.args[1], k.args)
        if k.c["short"].split("::")[-1] == "write_all" and len(a) == 2:
            return content(eng, x.args[2]) + content(eng, a[1])
    if x.op == "app" and keeps_bytes(x.args[0]) and x.args[1] and "encode_utf8" not in x.args[0]:
        return content(eng, x.args[1][0])
    if x.op == "app" and x.args[0] == "str" or x.op == "lit":
        return (x,)
    return (piece(eng, x),)


def whole(eng, v, x):
    """(tag, pieces, value of the pieces) of a text value on this way; the tag is None if it is not known"""
    d = eng.known(v, eng.discr(x))
    if d is None:
        return None, (x,), x
    y = eng.sel(x, ("f", d, 0))
    return d, content(eng, y), y


def known_utf8(eng, v, x, pieces):
    """is it known that these bytes are (1) or are not (0) UTF-8?"""
    for t, d in v.facts.items():
        if t.op == "utf8" and (t.args[0] is x or content(eng, t.args[0]) == pieces):
            return d
    return None


@prop("C25")
def c25(c):
    c.rule("after push_*, the content is the old content followed by exactly the given char, byte, string or bytes")
    c.rule("the result is tagged UTF-8 only if it was before and what was added is text or checked bytes, or if the complete content was checked; it is tagged otherwise only if it was before, with text added, or if the complete content was found not to be UTF-8")
    c.rule("a buffer starts with the complete content, and when it is dropped its complete bytes go back, with the tag that they were found to have")
    c.rule("conversions from strings, text and bytes, to strings and bytes, slices and clones keep the bytes and the tag")
    p = c.p
    X = Texts(c)
    if not X.good:
        return
    one, two = T("param", 1), T("param", 2)
    me = T("deref", one)
    TAG = ("UTF-8", "not UTF-8")
    buf = c.struct("Buffer")
    bi = c.field("Buffer", lambda n, t: p.tname(t) == "Vec")
    si = c.field("Buffer", lambda n, t: p.types[t]["k"] == "ref")
    if not c.require(buf is not None and bi is not None and si is not None, "anchor:buffer", "-", "the buffer cannot be found"):
        return

    def kindof(ti):
        while p.types[ti]["k"] == "ref":
            ti = p.types[ti]["e"]
        return p.tname(ti)

    def utf8_type(ti):
        return kindof(ti) in ("char", "str", "String")

    def old(v, eng, x):
        """pieces of the text that was there before"""
        d = eng.known(v, eng.discr(x))
        return d, content(eng, fld(x, d, 0)) if d is not None else None

    def judge(eng, v, where, key, det, new, want, added_ti, before, total_known=None):
        d, got, val = whole(eng, v, new)
        if not c.require(d is not None, "tag:" + key, where, "it is not decided whether the content is UTF-8: %s" % short(new), det):
            return
        c.require(got == want, "content:" + key, where, "the content is not what was there and what was added: %s instead of %s" % (short(got), short(want)), det)
        k = known_utf8(eng, v, val, got)
        if k is not None:
            c.require(d == 1 - k, "tag:" + key, where, "the content is tagged %s although it was found to be the opposite" % TAG[d], det)
            return
        good = before in (None, d)
        if added_ti is not None:
            a = utf8_type(added_ti)
            if not a:
                a = any(t.op == "utf8" and x == 1 and (content(eng, t.args[0]) == want[-1:] or piece(eng, t.args[0]) is want[-1]) for t, x in v.facts.items())
            good = good and a and (before is not None or d == 0)
        c.require(good, "tag:" + key, where, "the content is tagged %s without being checked" % TAG[d], det)

    for f in p.fns:
        if f["body"] is None or not f["ins"] and f.get("out") is None:
            continue
        tr = f.get("trait", "").split("<")[0].split("::")[-1]
        n = f["name"]
        where = c.where(f)
        out = f["out"]
        mine = bool(f["ins"]) and X.is_text(f["ins"][0])
        gives = p.tname(out) == TEXT
        if n.startswith("push_") and not tr and mine and len(f["ins"]) == 2:
            c.count("additions")
            r = X.run(f)
            for e in r.exits:
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                b, was = old(v, r.eng, me)
                if not c.require(was is not None, "tag:" + n, where, "it is not looked at whether the content is UTF-8", det):
                    continue
                new = r.eng.load(e.st, *r.eng.target(one))
                judge(r.eng, v, where, n, det, new, was + (T("byte", two) if kindof(f["ins"][1]) == "u8" else two,), f["ins"][1], b)
        elif n.startswith("push_") and len(f["ins"]) == 2 and p.types[f["ins"][1]]["k"] != "adt" and (kindof(f["ins"][0]) == "Buffer" or kindof(f["ins"][0]) == "Vec" and p.types[f["ins"][0]]["k"] == "ref" and p.types[f["ins"][0]]["mut"]):
            c.count("additions")
            r = X.run(f)
            for e in r.exits:
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                new = r.eng.load(e.st, *r.eng.target(one))
                was = me
                if kindof(f["ins"][0]) == "Buffer":
                    c.require(r.eng.sel(new, ("f", 0, si)) is fld(me, 0, si), "buffer-source:" + n, where, "the buffer no longer belongs to its text", det)
                    new, was = r.eng.sel(new, ("f", 0, bi)), fld(me, 0, bi)
                got = content(r.eng, new)
                c.require(got == content(r.eng, was) + (two,), "content:" + kindof(f["ins"][0]) + "::" + n, where, "the content is not what was there and what was added: %s" % short(got), det)
        elif mine and kindof(out) == "Buffer":
            c.count("buffers")
            r = X.run(f)
            for e in r.exits:
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                b, was = old(v, r.eng, me)
                if not c.require(was is not None, "tag:" + n, where, "it is not looked at whether the content is UTF-8", det):
                    continue
                c.require(content(r.eng, r.eng.sel(e.ret, ("f", 0, bi))) == was, "content:" + n, where, "the buffer does not start with the content of the text: %s" % short(e.ret), det)
                s = r.eng.sel(e.ret, ("f", 0, si))
                c.require(text(s)[0] is one, "buffer-source:" + n, where, "the buffer does not belong to the text: %s" % short(s), det)
        elif tr == "Drop" and kindof(f["ins"][0]) == "Buffer":
            c.count("buffers")
            r = X.run(f)
            for e in r.exits:
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                new = r.eng.load(e.st, *r.eng.target(fld(me, 0, si)))
                judge(r.eng, v, where, "drop", det, new, content(r.eng, fld(me, 0, bi)), None, 2)
        elif tr in ("Deref", "DerefMut") and kindof(f["ins"][0]) == "Buffer":
            c.count("views")
            r = X.run(f)
            for e in r.exits:
                c.require(bare(e.ret) is bare(T("&", fld(me, 0, bi))) or bare(e.ret) is fld(me, 0, bi), "view:" + tr, where, "the buffer gives something else than its bytes: %s" % short(e.ret), trace_text(e.trace))
        elif tr == "From" and gives and f["ins"] and not mine:
            ti = f["ins"][0]
            c.count("conversions")
            r = X.run(f)
            for e in r.exits:
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                judge(r.eng, v, where, "from:" + p.types[ti]["s"], det, e.ret, (one,), None, 0 if utf8_type(ti) else 2)
        elif gives and not f["ins"] and not tr:
            c.count("conversions")
            r = X.run(f)
            for e in r.exits:
                v = View(e)
                d, got, val = whole(r.eng, v, e.ret)
                lit = all(x.op == "str" and x.args[0] == "" or x.op == "const" for x in got) or short(got) in ("('')", "()")
                c.require(d == 0 and lit, "new:" + n, where, "a new text is not empty: %s" % short(e.ret), trace_text(e.trace))
        elif mine and gives and len(f["ins"]) == 1:
            c.count("conversions")
            by_ref = p.types[f["ins"][0]]["k"] == "ref"
            src = me if by_ref else one
            r = X.run(f)
            for e in r.exits:
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                if text(e.ret)[0] is one and e.ret.op != "agg":
                    continue
                b, was = old(v, r.eng, src)
                d, got, val = whole(r.eng, v, e.ret)
                c.require(d is not None and d == b and text(val)[0] is one, "kept:" + (tr or n), where, "the %s of a text is not the same: %s" % (n, short(e.ret)), det)
        elif mine and tr == "Into" or mine and not tr and n in ("as_utf8", "as_utf8_lossy", "is_utf8"):
            c.count("conversions")
            by_ref = p.types[f["ins"][0]]["k"] == "ref"
            src = me if by_ref else one
            r = X.run(f)
            for e in r.exits:
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                d = r.eng.known(v, r.eng.discr(src))
                x = e.ret
                if n == "is_utf8":
                    good = d is not None and r.eng.known(v, x) == 1 - d or x is terms.eq(r.eng.discr(src), INT(0))
                elif n == "as_utf8":
                    s = r.eng.known(v, r.eng.discr(x))
                    good = d is not None and s == 1 - d and (s == 0 or bytes_of(r.eng, v, r.eng.sel(x, ("f", 1, 0))) is one)
                elif kindof(out) == "Vec":
                    good = bytes_of(r.eng, v, x) is one
                else:
                    # a string: the bytes if they are UTF-8, what from_utf8_lossy makes of them if not
                    good = d is not None and lossy(r.eng, v, x, one, d)
                c.require(good, "taken:%s:%s" % (n, kindof(out)), where, "%s does not give the content: %s" % (n, short(x)), det)
    c.floor("additions", 6)
    c.floor("buffers", 2)
    c.floor("conversions", 9)
    c.floor("views", 2)


def lossy(eng, v, x, one, d):
    if x.op == "agg" and x.args[0] == "std::borrow::Cow":
        x = x.args[2][0]
    if bytes_of(eng, v, x) is one and not any(y.op == "app" and "lossy" in y.args[0] for y in subs(x)):
        if d == 0:
            return True
        # the bytes of a text that is not tagged: they have to be known to be UTF-8
        for t, k in v.facts.items():
            if t.op == "utf8" and k == 1 and bytes_of(eng, v, t.args[0]) is one:
                return True
            if t.op == "discr" and k == 0 and t.args[0].op == "app" and "from_utf8_lossy" in t.args[0].args[0] and bytes_of(eng, v, t.args[0].args[1][0]) is one:
                return True
        return False
    while x.op in ("deref", "&", "vref", "fld") or x.op == "app" and keeps_bytes(x.args[0]) and "lossy" not in x.args[0]:
        x = x.args[1][0] if x.op == "app" else x.args[0]
    return x.op == "app" and "from_utf8_lossy" in x.args[0] and bytes_of(eng, v, x.args[1][0]) is one


def subs(x):
    while isinstance(x, Term):
        yield x
        x = x.args[1][0] if x.op == "app" and x.args[1] else x.args[0] if x.args else None


def placed(x):
    """the value that is (or that is referred to) there"""
    while x.op in ("&", "vref"):
        x = x.args[0]
    if x.op == "ref" and x.args[1].op == "O":
        y = T("deref", x.args[1].args[0])
        for pe in x.args[2]:
            y = fld(y, pe[1], pe[2]) if pe[0] == "f" else T("elem", y, *pe)
        return y
    return x


@prop("C38")
def c38(c):
    c.rule("get, get_raw, get_mut, contains_key and remove look up exactly the given key's bytes, and give the entry if there is one and nothing if not; remove removes that entry, nothing else changes anything")
    c.rule("insert stores the given value under the given key and returns the value it replaced; entry opens the entry of the given key")
    c.rule("parse parses the text of that entry: Ok(value), Err(Some(error)) if it does not parse, Err(None) if there is none; parse_or and parse_or_else use the default, or what was made from that very error, exactly when parse would fail")
    c.rule("views, conversions and iteration give the complete set; collecting and extending convert each key and value, in its place")
    p = c.p
    ps = c.struct("Parameters")
    mi = c.field("Parameters", lambda n, t: p.tname(t) == "HashMap")
    if not c.require(ps is not None and mi is not None, "anchor:parameters", "-", "the parameters cannot be found"):
        return
    one, two, three = T("param", 1), T("param", 2), T("param", 3)
    me = T("deref", one)
    m0 = fld(me, 0, mi)

    def kindof(ti):
        while p.types[ti]["k"] == "ref":
            ti = p.types[ti]["e"]
        return p.tname(ti)

    def asked(v):
        """(key, is it there) for the key that was looked up"""
        r = [(t.args[1], k) for t, k in v.facts.items() if t.op == "has" and t.args[0] is m0]
        return r[0] if len(r) == 1 else (None, None)

    def entry(x, key):
        """is this a view of the entry with that key?"""
        return placed(x) is T("elem", m0, "key", key)

    def shown(eng, v, x, el):
        """is x the text of the entry: its own if it is UTF-8, a lossy copy if not?"""
        if x.op == "agg" and x.args[0] == "std::borrow::Cow":
            x = x.args[2][0]
        d = eng.known(v, eng.discr(el))
        if d == 0:
            y = text1(x)
            return placed(y) in (el, fld(el, 0, 0))
        while x.op in ("deref", "&", "vref", "fld") or x.op == "app" and keeps_bytes(x.args[0]) and "lossy" not in x.args[0]:
            x = x.args[1][0] if x.op == "app" else x.args[0]
        return d == 1 and x.op == "app" and "from_utf8_lossy" in x.args[0] and placed(text1(x.args[1][0])) in (el, fld(el, 1, 0))

    want = {"get", "get_raw", "get_mut", "contains_key", "insert", "remove", "entry", "parse", "parse_or", "parse_or_else"}
    for f in p.fns:
        if f["body"] is None or not f["ins"] or kindof(f["ins"][0]) != "Parameters" and kindof(f["out"]) != "Parameters":
            continue
        tr = f.get("trait", "").split("<")[0].split("::")[-1]
        n = f["name"]
        where = c.where(f)
        if kindof(f["ins"][0]) == "Parameters" and not tr and n in want:
            want.discard(n)
            c.count("operations")
            r = Run(c, f, also=lambda cc: cc["short"].split("::")[-1] in ("call_once",) and cc.get("kind") == "param")
            eng = r.eng
            c.require(r.exits, "returns:" + n, where, "%s never returns" % n)
            for e in r.exits:
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                c.count("ways through operations")
                after = eng.sel(eng.load(e.st, *eng.target(one)), ("f", 0, mi))
                key, there = asked(v)
                x = e.ret
                if n == "contains_key":
                    if x.op == "has":
                        key = x.args[1] if x.args[0] is m0 else None
                    else:
                        c.require(key is not None and eng.known(v, x) == there, "result:" + n, where, "it is not told whether there is an entry: %s" % short(x), det)
                elif n == "entry":
                    if key is None and x.op == "agg" and x.args[2]:
                        key = x.args[2][0].args[2][1]
                if not c.require(key is not None and text(key)[0] is two, "key:" + n, where, "not the given key is looked up: %s" % short(key), det):
                    continue
                if n == "insert":
                    good = after.op == "set" and after.args[0] is m0 and after.args[1][0] == "key" and text(after.args[1][1])[0] is two and text(after.args[2])[0] is three
                    c.require(good, "stored:" + n, where, "the value is not stored under the key: %s" % short(after), det)
                elif n == "remove" and there:
                    c.require(after.op == "mdel" and after.args[0] is m0 and text(after.args[1])[0] is two, "removed", where, "the entry is not removed: %s" % short(after), det)
                else:
                    c.require(after is m0, "changed:" + n, where, "the parameters are changed: %s" % short(after), det)
                el = T("elem", m0, "key", key)
                if n in ("get", "get_raw", "get_mut", "insert", "remove"):
                    d = eng.known(v, eng.discr(x))
                    if c.require(there is not None and d == there, "found:" + n, where, "an entry %s, but the result says otherwise: %s" % ("is there" if there else "is missing", short(x)), det) and d:
                        y = eng.sel(x, ("f", 1, 0))
                        good = shown(eng, v, y, el) if n == "get" else entry(y, key)
                        c.require(good, "value:" + n, where, "not the value of the entry is given: %s" % short(y), det)
                elif n == "entry":
                    good = x.op == "agg" and x.args[1] == 1 - there and x.args[2][0].op == "agg" and bare(x.args[2][0].args[2][0]) is bare(T("&", m0))
                    c.require(good or bare(x.args[2][0].args[2][0]) is m0, "entry", where, "not the entry of the key is opened: %s" % short(x), det)
                elif n.startswith("parse"):
                    pr = [(t.args[0], k) for t, k in v.facts.items() if t.op == "discr" and t.args[0].op == "app" and "parse" in t.args[0].args[0]]
                    calls = r.events(e)
                    if not c.require(there is not None and len(pr) == there, "parsed:" + n, where, "an entry that is there is not parsed", det):
                        continue
                    q, bad = pr[0] if pr else (None, None)
                    if there:
                        c.require(shown(eng, v, q.args[1][0], el), "parsed:" + n, where, "something else than the text of the entry is parsed: %s" % short(q), det)
                    if there and not bad:
                        res = x
                        if n == "parse":
                            c.require(eng.known(v, eng.discr(x)) == 0, "value:" + n, where, "a parsed value is reported as an error: %s" % short(x), det)
                            res = eng.sel(x, ("f", 0, 0))
                        c.require(res is fld(q, 0, 0) and not calls, "value:" + n, where, "not the parsed value is returned: %s" % short(x), det)
                        continue
                    reason = T("agg", OPTION, 1, (fld(q, 1, 0),)) if there else T("agg", OPTION, 0, ())
                    if n == "parse":
                        c.require(eng.known(v, eng.discr(x)) == 1 and eng.deepval(e.st, eng.sel(x, ("f", 1, 0))) is reason, "error:" + n, where, "the reason is not reported: %s instead of %s" % (short(x), short(reason)), det)
                    elif n == "parse_or":
                        c.require(x is three, "default:" + n, where, "not the default is used: %s" % short(x), det)
                    else:
                        good = len(calls) == 1 and calls[0][0].startswith("Fn") and bare(calls[0][2][0]) is three and x is calls[0][3]
                        good = good and calls[0][2][1].op == "agg" and calls[0][2][1].args[2] == (reason,)
                        c.require(good, "default:" + n, where, "the default is not made from the reason: %s" % short([y[2] for y in calls]), det)
        elif kindof(f["ins"][0]) == "Parameters" and tr in ("Deref", "DerefMut", "AsRef", "AsMut", "Into", "Clone", "Borrow", "BorrowMut"):
            c.count("views")
            r = Run(c, f)
            src = m0 if p.types[f["ins"][0]]["k"] == "ref" else fld(one, 0, mi)
            for e in r.exits:
                x = e.ret
                if p.tname(f["out"]) == "Parameters":
                    x = r.eng.sel(x, ("f", 0, mi))
                c.require(bare(x) in (src, bare(T("&", src))), "view:" + tr, where, "not the parameters are given: %s" % short(x), trace_text(e.trace))
        elif tr == "From" and kindof(f["out"]) == "Parameters":
            c.count("views")
            r = Run(c, f)
            for e in r.exits:
                c.require(r.eng.sel(e.ret, ("f", 0, mi)) is one, "view:From", where, "not the given map is used: %s" % short(e.ret), trace_text(e.trace))
        elif tr == "PartialEq" and n == "eq":
            c.count("views")
            r = Run(c, f)
            for e in r.exits:
                good = e.ret.op == "eq" and {bare(a) for a in e.ret.args} == {bare(m0), bare(fld(T("deref", two), 0, mi))}
                c.require(good, "eq", where, "equality is not that of the maps: %s" % short(e.ret), trace_text(e.trace))
        elif n in ("from_iter", "extend") and tr in ("FromIterator", "Extend"):
            collects(c, f, mi)
    c.require(not want, "anchor:operations", "-", "these operations cannot be found: %s" % ", ".join(sorted(want)))
    c.floor("operations", 10)
    c.floor("views", 6)
    c.floor("ways through operations", 20)


class Stores:
    """the usual models; putting an entry into a map leaves an event"""

    def __init__(self, c, f):
        self.c, self.f = c, f

    def __getattr__(self, n):
        return getattr(base_models, n)

    def where(self, call):
        return self.c.p.where(call.span) if call.span and call.span[1] else self.c.where(self.f)

    def find(self, eng, cc):
        f = base_models.find(eng, cc)
        s = cc["short"]
        if s == "HashMap::insert":
            def g(eng, st, call, ret):
                st.trace = st.trace + (("store", self.where(call)) + tuple(eng.deepval(st, a) for a in call.args[1:]),)
                return f(eng, st, call, ret)
            return g
        if s == "synth::push" and cc["kind2"] == "map":
            def g(eng, st, call, ret):
                x = call.args[1]
                if call.c["copy"]:
                    x = eng.load(st, *eng.target(x))
                x = eng.deepval(st, x)
                st.trace = st.trace + (("store", self.where(call), eng.sel(x, ("f", 0, 0)), eng.sel(x, ("f", 0, 1))),)
                return f(eng, st, call, ret)
            return g
        return f


def collects(c, f, mi):
    """collecting: each pair is converted, with nothing left out"""
    p = c.p
    where = c.where(f)
    n = f["name"]
    c.count("views")
    eng = c.engine(rel_assume=going(lambda eng, x: True))
    eng.models = Stores(c, f)
    ex = [e for e in c.run(eng, f, mon=UNIT) or () if e.kind == "return"]
    src = T("param", 1 if n == "from_iter" else 2)
    c.require(ex, "returns:" + n, where, "%s never returns" % n)
    seen = False
    for ev, v, e in sequences(eng, ex):
        det = trace_text(ev)
        for k, x in enumerate(ev):
            if x[0] == "done" and e is not None:
                seen = True
            if x[0] != "each":
                continue
            turn, closed = turn_of(ev, k)
            c.require(text(x[1])[0] is src or bare(x[1]) is src, "source:" + n, where, "something else than the given pairs is collected: %s" % short(x[1]), det)
            if e is not None and not closed:
                c.require(False, "left-early:" + n, where, "not every pair is collected", det)
                continue
            ps = [y for y in turn if y[0] == "store"]
            it = T("item", x[1], x[2])
            good = len(ps) == 1 and text1(ps[0][2]) is fld(it, 0, 0) and text1(ps[0][3]) is fld(it, 0, 1)
            c.require(good, "pair:" + n, where, "a pair is not stored as it is: %s" % short([y[2:] for y in ps]), det)
    c.require(seen, "pairs:" + n, where, "it is not visible that every pair is collected")
    for e in ex:
        x = eng.sel(e.ret, ("f", 0, mi)) if n == "from_iter" else eng.sel(eng.load(e.st, *eng.target(T("param", 1))), ("f", 0, mi))
        while x.op == "set":
            x = x.args[0]
        good = x.op in ("mnew", "phi") if n == "from_iter" else x.op == "phi" or x is fld(T("deref", T("param", 1)), 0, mi)
        c.require(good, "kept:" + n, where, "%s" % ("a new set starts with entries of its own" if n == "from_iter" else "the entries that are already there are lost") + ": %s" % short(x), trace_text(e.trace))


def text1(x):
    """text, without taking a pair apart"""
    while x.op in ("deref", "&", "vref") or x.op == "app" and keeps_bytes(x.args[0]) and len(x.args[1]) == 1:
        x = x.args[1][0] if x.op == "app" else x.args[0]
    return x
