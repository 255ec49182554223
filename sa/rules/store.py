"""The typed store of global data, and operations whose preconditions the compiler does not check (C26, C27)."""
import re
import os
from terms import *
import terms
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import *
from rules.routers import last2
from rules.links import bare
from rules.text import text, bytes_of, keeps_bytes


def typeid(x):
    """T if this is TypeId::of::<T>()"""
    if x.op in ("app", "call") and isinstance(x.args[0], str):
        m = re.search(r"TypeId::of::<(.*)>$", x.args[0])
        return m.group(1) if m else None
    return None


class Store:
    """what is in the store, as a list of (type, value), oldest first"""

    def __init__(self, c):
        p = c.p
        self.c = c
        g = c.struct("Global")
        self.good = c.require(g is not None, "anchor:global", "-", "the store of global data cannot be found")
        if not self.good:
            return
        self.path = [t["path"] for t in p.types if t["k"] == "adt" and t.get("local") and p.last(t["path"]) == "Global"][0] + "::"
        fs = g["vs"][0]["fs"]
        self.si = 0
        st = p.types[fs[0][1]]
        self.st = st
        self.good = c.require(len(fs) == 1 and st["k"] == "adt" and len(st.get("vs", ())) == 3, "anchor:state", "-", "the states of the store of global data cannot be found")
        if not self.good:
            return
        self.none = self.one = self.many = None
        for i, v in enumerate(st["vs"]):
            ts = [p.types[t]["s"] for n, t in v["fs"]]
            if not ts:
                self.none = i
            elif len(ts) == 1 and "anymap::Map" in ts[0]:
                self.many = i
            elif len(ts) == 2 and any("TypeId" in t for t in ts):
                self.one = i
                self.idf = [k for k, t in enumerate(ts) if "TypeId" in t][0]
                self.valf = 1 - self.idf
        self.good = c.require(None not in (self.none, self.one, self.many), "anchor:state", "-", "the states of the store of global data cannot be found")

    def fns(self):
        """operations on the store, and what makes one"""
        p = self.c.p
        for f in p.fns:
            if f["body"] is None:
                continue
            ts = list(f["ins"][:1])
            k = [p.types[t]["e"] if p.types[t]["k"] == "ref" else t for t in ts]
            if any(p.tname(t) == "Global" for t in k) and f["path"].startswith(self.path) or p.tname(f["out"]) == "Global" and f.get("trait"):
                yield f


KINDS = {"Map::insert": "insert", "Map::get": "get", "Map::get_mut": "get_mut", "Map::remove": "remove", "RawMap::insert": "raw", "AsMut::as_mut": "as_mut", "Map::as_mut": "as_mut", "Map::clear": "clear"}


def kind_of(cc):
    s = last2(cc["short"])
    if cc["crate"] == "anymap" or "anymap" in cc["path"]:
        if "downcast" in cc["name"]:
            return "downcast"
        return KINDS.get(s, "other:" + s) if cc["name"] not in ("new", "with_capacity", "default") else None
    if s == "AsMut::as_mut" and "anymap" in cc.get("rself", "") + cc["full"]:
        return "as_mut"
    if "downcast" in cc["name"]:
        return "downcast"
    return None


class StoreRun:
    def __init__(self, S, f):
        c = S.c
        p = c.p
        self.S, self.f = S, f

        def rel(eng, st, call, res):
            k = kind_of(call.c)
            if k is None or res is None:
                return None
            where = p.where(call.span) if call.span and call.span[1] else c.where(f)
            gen = [p.types[t]["s"] for t in call.c.get("args", ())]
            return (k, where, tuple(eng.deepval(st, a) for a in call.args), res, gen[-1] if gen else None)

        def opq(cc):
            return kind_of(cc) is not None
        self.eng = c.engine(rel=rel, opaque=opq)
        ex = c.run(self.eng, f, mon=UNIT) or ()
        self.exits = [e for e in ex if e.kind == "return"]
        c.require(self.exits, "returns:" + f["path"], c.where(f), "%s never returns" % f["path"])

    def events(self, e, *ks):
        return [x for x in e.trace if x[0] != "loop" and (not ks or x[0] in ks)]

    def boxed(self, e, x):
        """the value in a box"""
        eng = self.eng
        x = eng.deepval(e.st, x)
        while x.op in ("&", "vref"):
            x = x.args[0]
        if x.op == "app" and x.args[0].startswith(("Box::new", "boxed", "std::boxed")):
            x = x.args[1][0]
        return x

    def content(self, e, v, g):
        """what is in this store, or None if that is not clear: [(type or ("old", n), value)]"""
        S, eng = self.S, self.eng
        s = eng.sel(g, ("f", 0, S.si))
        d = eng.known(v, eng.discr(s))
        if d is None:
            return None
        if d == S.none:
            return []
        if d == S.one:
            i, x = eng.sel(s, ("f", S.one, S.idf)), eng.sel(s, ("f", S.one, S.valf))
            return [(typeid(i) or i, self.boxed(e, x))]
        return self.mapped(e, eng.sel(s, ("f", S.many, 0)))

    def mapped(self, e, m):
        eng = self.eng
        if m.op == "app" and m.args[0].split("<")[0].split("::")[-1] in ("new", "with_capacity", "default") or m.op == "app" and "Map::new" in m.args[0]:
            return []
        if m.op in ("fld",):
            return [("map", m)]
        if m.op == "upd":
            ev = [x for x in self.events(e) if x[3] is m.args[1]]
            b = self.mapped(e, m.args[2])
            if b is None or not ev:
                return None
            k = ev[0]
            if k[0] == "insert":
                return b + [(k[4], self.boxed(e, k[2][1]))]
            if k[0] == "as_mut":
                # a raw view: what was inserted through it
                for x in self.events(e, "raw"):
                    if bare(x[2][0]) is bare(k[3]):
                        b = b + [(typeid(x[2][1]) or x[2][1], self.boxed(e, x[2][2]))]
                return b
            if k[0] in ("get", "get_mut"):
                return b
        return None

    def type_of(self, e, x):
        """the declared type of a value"""
        p = self.S.c.p
        x = strip(x)
        if x.op == "param":
            return p.types[self.f["ins"][x.args[0] - 1]]["s"]
        if x.op == "deref" and x.args[0].op == "param":
            t = p.types[self.f["ins"][x.args[0].args[0] - 1]]
            while t["k"] == "ref":
                t = p.types[t["e"]]
            if p.tname(p.types.index(t)) == "Box":
                return p.types[t["args"][0]]["s"]
            return t["s"]
        if x.op == "fld" and x.args[0].op == "param":
            t = p.types[self.f["ins"][x.args[0].args[0] - 1]]
            if t["k"] == "tuple":
                ts = t["fs"]
                return p.types[ts[x.args[2]]]["s"]
        return None


def strip(x):
    while x.op in ("&", "vref"):
        x = x.args[0]
    return x


def same_value(a, b):
    return strip(a) is strip(b) or bare(a) is bare(b)


def under(t, id_, v):
    """is the type of this entry (1), or not (0), the one with that id term/type name? None if that is not known"""
    if isinstance(id_, str):
        return 1 if id_ == t else None
    for q, d in v.facts.items():
        if q.op == "eq" and d in (0, 1):
            a, b = q.args
            for x, y in ((a, b), (b, a)):
                if x is id_ and typeid(y) == t:
                    return d
    return None


@prop("C27")
def c27(c):
    c.rule("get gives the value of the asked type if the single entry's type id equals that of the asked type, the map's entry if there is a map, and nothing otherwise")
    c.rule("after insert the store holds what it held before, except that the new value is now under its own type, and the value that was there before is returned")
    c.rule("a store made from a box, a tuple or nothing holds exactly these values, each under its own type")
    p = c.p
    S = Store(c)
    if not S.good:
        return
    one, two = T("param", 1), T("param", 2)
    me = T("deref", one)
    for f in S.fns():
        where = c.where(f)
        n = f["name"]
        t0 = p.types[f["ins"][0]] if f["ins"] else None
        is_mine = t0 is not None and t0["k"] == "ref" and p.tname(t0["e"]) == "Global"
        r = StoreRun(S, f)
        eng = r.eng
        if not is_mine:
            if p.tname(f["out"]) != "Global":
                continue
            c.count("ways to make a store")
            for e in r.exits:
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                got = r.content(e, v, e.ret)
                if not c.require(got is not None, "content:from", where, "it is not visible what the store holds: %s" % short(e.ret), det):
                    continue
                want = []
                if t0 is not None:
                    if t0["k"] == "tuple":
                        ts = t0["fs"]
                        want = [(p.types[t]["s"], fld(one, 0, i)) for i, t in enumerate(ts)]
                    elif p.tname(f["ins"][0]) == "Box":
                        want = [(p.types[t0["args"][0]]["s"], one)]
                    else:
                        want = None
                if want is None:
                    c.violation("content:from", where, "a store is made from something unknown: %s" % t0["s"])
                    continue
                good = len(got) == len(want) and all(a[0] == b[0] and same_value(a[1], b[1]) for a, b in zip(got, want))
                c.require(good, "content:from", where, "the store does not hold the given values under their types: %s instead of %s" % (short(got), short(want)), det)
                c.count("stored values", len(want))
        elif t0["mut"] or len(f["ins"]) > 1:
            # changes
            if not c.require(len(f["ins"]) == 2, "operation:" + n, where, "an operation that changes the store is not known"):
                continue
            c.count("changes")
            ty = p.types[f["ins"][1]]["s"]
            for e in r.exits:
                v = View(e)
                c.count("ways through changes")
                det = trace_text(e.trace) + facts_text(e.facts)
                before = r.content(e, v, me)
                after = r.content(e, v, eng.load(e.st, *eng.target(one)))
                if not c.require(before is not None and after is not None, "content:" + n, where, "it is not visible what the store holds", det):
                    continue
                # what was under this type
                keep, old, unclear = [], None, False
                for i, x in before:
                    if i == "map":
                        keep.append((i, x))
                        unclear = True
                        continue
                    k = under(ty, i, v)
                    if k == 1:
                        old = x
                        place = i
                    elif k == 0:
                        keep.append((i, x))
                    else:
                        keep.append((i, x))
                        unclear = True
                ids = {ty} | {i for i, x in before if i != "map" and under(ty, i, v) == 1}
                new = [x for x in after if x[0] in ids]
                rest = [x for x in after if x[0] not in ids]
                good = len(new) == 1 and same_value(new[0][1], two) and after[-1] is new[0]
                c.require(good, "inserted:" + n, where, "the value is not stored under its type: %s" % short(after), det)
                good = len(rest) == len(keep) and all(a[0] is b[0] and same_value(a[1], b[1]) for a, b in zip(rest, keep))
                c.require(good, "kept:" + n, where, "other values are lost or changed: %s instead of %s" % (short(rest), short(keep)), det)
                x = e.ret
                ins = r.events(e, "insert")
                if ins and x is ins[-1][3] and old is None and ins[-1][4] == ty:
                    continue
                d = eng.known(v, eng.discr(x))
                if unclear or d is None:
                    c.require(False, "replaced:" + n, where, "not the value that was replaced is returned: %s" % short(x), det)
                    continue
                c.require(d == (old is not None), "replaced:" + n, where, "not the value that was replaced is returned: %s" % short(x), det)
                if d and old is not None:
                    c.require(view_of(r, e, eng.sel(x, ("f", 1, 0)), old, ty), "replaced:" + n, where, "not the value that was replaced is returned: %s instead of %s" % (short(x), short(old)), det)
        else:
            c.count("lookups")
            for e in r.exits:
                v = View(e)
                c.count("ways through lookups")
                det = trace_text(e.trace) + facts_text(e.facts)
                have = r.content(e, v, me)
                if not c.require(have is not None, "content:" + n, where, "it is not looked at what the store holds", det):
                    continue
                out = p.types[f["out"]]
                o = p.types[out["args"][0]] if out.get("args") else None
                ty = p.types[o["e"]]["s"] if o is not None and o["k"] == "ref" else None
                if not c.require(ty is not None, "operation:" + n, where, "an operation on the store is not known"):
                    continue
                x = e.ret
                if have and have[0][0] == "map":
                    g = r.events(e, "get")
                    good = len(g) == 1 and g[0][4] == ty and bare(g[0][2][0]) is bare(have[0][1]) and same_value(x, g[0][3])
                    good = good or x.op == "app" and "Map::get" in x.args[0] and bare(x.args[1][0]) is bare(have[0][1])
                    c.require(good, "found:" + n, where, "not the entry of the asked type is given: %s" % short(x), det)
                    continue
                k = under(ty, have[0][0], v) if have else 0
                d = eng.known(v, eng.discr(x))
                if c.require(k is not None and d == k, "found:" + n, where, "a value of the asked type %s, but the result says otherwise: %s" % ("is there" if k else "is not there", short(x)), det) and k:
                    c.require(view_of(r, e, eng.sel(x, ("f", 1, 0)), have[0][1], ty), "found:" + n, where, "not the value of the asked type is given: %s" % short(x), det)
    c.floor("ways to make a store", 14)
    c.floor("stored values", 70)
    c.floor("changes", 1)
    c.floor("ways through changes", 4)
    c.floor("lookups", 1)
    c.floor("ways through lookups", 4)


def view_of(r, e, x, old, ty):
    """is x this value, seen as that type?"""
    for ev in r.events(e, "downcast"):
        if strip(x) is ev[3] or unbox(x) is ev[3]:
            return ev[4] == ty and same_box(r, e, ev[2][0], old)
    y = unbox(x)
    if y.op == "app" and "downcast" in y.args[0]:
        return same_box(r, e, y.args[1][0], old)
    return False


def same_box(r, e, a, b):
    return bare(a) is bare(b) or inside(a, b) or inside(b, a)


def unbox(x):
    """without the parts that a box is made of"""
    while x.op in ("fld", "deref", "&", "vref") and isinstance(x.args[0], Term):
        x = x.args[0]
    return x


RULES = {}


def unsafe_rule(*names):
    def g(f):
        for n in names:
            RULES[n] = f
        return f
    return g


@unsafe_rule("from_utf8_unchecked")
def u_utf8(R, eng, st, call, a):
    x = text(a[0])[0]
    for t, d in st.facts.items():
        if t.op == "utf8" and d == 1 and text(t.args[0])[0] is x:
            return True, "the bytes were checked"
        if t.op == "discr" and d == 0 and t.args[0].op == "app" and "from_utf8_lossy" in t.args[0].args[0] and text(t.args[0].args[1][0])[0] is x:
            return True, "the lossy conversion found nothing to replace"
    # text of unknown encoding that is tagged as UTF-8
    return False, "the bytes were not checked to be UTF-8"


@unsafe_rule("downcast_ref_unchecked", "downcast_mut_unchecked", "downcast_unchecked")
def u_downcast(R, eng, st, call, a):
    p = R.c.p
    ty = p.types[call.c["args"][-1]]["s"]
    S = R.S
    b = unbox(a[0])
    for t, d in st.facts.items():
        if t.op == "eq" and d == 1:
            for x, y in (t.args, t.args[::-1]):
                if typeid(y) == ty and x.op == "fld" and x.args[1:] == (S.one, S.idf):
                    if b is unbox(T("fld", x.args[0], S.one, S.valf)) or inside(a[0], T("fld", x.args[0], S.one, S.valf)):
                        return True, "the type id that is stored with this value was compared"
    return False, "the type of this value was not compared with %s" % ty


def inside(x, y):
    """is x y, or a part of it?"""
    while True:
        if x is y:
            return True
        if x.op in ("fld", "deref", "&", "vref") and isinstance(x.args[0], Term):
            x = x.args[0]
        elif x.op == "app" and len(x.args[1]) == 1:
            x = x.args[1][0]
        elif x.op == "ref":
            z = bare(x)
            if z is x:
                return False
            x = z
        else:
            return False


@unsafe_rule("insert")
def u_raw(R, eng, st, call, a):
    S = R.S
    i, v = a[1], a[2]
    if i.op == "fld" and i.args[1:] == (S.one, S.idf) and inside(v, T("fld", i.args[0], S.one, S.valf)):
        return True, "the value goes in with the type id it was stored with"
    return False, "the type id is not the one that belongs to the value"


@unsafe_rule("into_raw")
def u_raw_response(R, eng, st, call, a):
    x = a[1]
    while x.op == "cast":
        x = x.args[1]
    if x.op in ("app", "call") and "Metadata::len" in str(x.args[0]) or x.op == "call" and eng.origin[x].name.endswith("Metadata::len"):
        return True, "the length is that of the file"
    return False, "it is not known that this many bytes will be sent"


class UnsafeRun:
    def __init__(self, c, S):
        self.c, self.S = c, S


@prop("C26")
def c26(c):
    c.rule("every call of an unsafe function, on every path that reaches it from an operation that safe code can call, comes after the check that this very value needs: UTF-8 validity for unchecked text, an equal type id for an unchecked downcast, the id of the same entry for a raw insertion, the file's length for a raw response")
    c.rule("every single entry of the global data is made with the type id of the value it is made from, or keeps the pair together")
    c.rule("no other construct that needs unsafe is used: raw pointers, static mut, transmute, unsafe impls")
    p = c.p
    S = Store(c)
    if not S.good:
        return
    R = UnsafeRun(c, S)
    sites = {}
    bodies = {}
    for bi, b in enumerate(p.bodies):
        if b is None or not b.get("local"):
            continue
        for cc, span in calls_in(c, bi):
            if is_unsafe(cc) and not generated(p, span):
                sites[(b["path"], cc["name"], span)] = cc
                bodies.setdefault(b["path"], set()).add(cc["name"])
    c.count("unsafe call sites", len({(k[0], k[2]) for k in sites}))

    reached = set()
    seen = {}

    def look(f, why):
        def rel(eng, st, call, res):
            if not is_unsafe(call.c):
                return None
            bi = st.frames[-1].bi
            b = p.bodies[bi]
            if b is None or not b.get("local") or generated(p, call.span):
                return None
            if res is None and not call.c.get("opaque"):
                pass
            where = p.where(call.span)
            key = "%s:%s" % (b["path"].split("::")[-1], call.c["name"])
            reached.add((b["path"], call.c["name"]))
            a = tuple(eng.deepval(st, x) for x in call.args)
            u = RULES.get(call.c["name"])
            c.count("ways to an unsafe call")
            if u is None or call.c["name"] == "insert" and "RawMap" not in call.c["short"]:
                c.violation("unknown:" + key, where, "there is no known check that makes this unsafe call valid: %s" % call.c["full"], trace_text(st.trace))
                return None
            good, msg = u(R, eng, st, call, a)
            c.require(good, "unchecked:" + key, where, "%s is called, but %s: %s" % (call.c["name"], msg, short(a)), facts_text(st.facts))
            return None

        def opq(cc):
            if is_unsafe(cc):
                return True
            b = cc.get("body")
            if b is None or p.bodies[b] is None or not p.bodies[b].get("local"):
                return False
            return c.heavy(b) and not c.cg.reaches(b, "unsafe", is_unsafe)
        eng = c.engine(rel=rel, opaque=opq)
        c.run(eng, f, mon=UNIT)
        c.count("operations that reach unsafe calls")

    for f in p.fns:
        if f["body"] is None or f.get("unsafe"):
            continue
        # the nearest operations that safe code can call
        if not (f.get("trait") or f.get("pub")):
            continue
        if direct(c, f["body"], is_unsafe, set()):
            look(f, "")
    missing = {k[:2] for k in sites} - reached
    for b, n in sorted(missing):
        c.violation("unreached:%s:%s" % (b.split("::")[-1], n), b, "an unsafe call was not reached from any operation that safe code can call, so that its check is not visible")
    # entries of the store are pairs of a value and its own type
    for f in S.fns():
        r = StoreRun(S, f)
        t0 = p.types[f["ins"][0]] if f["ins"] else None
        for e in r.exits:
            v = View(e)
            gs = []
            if p.tname(f["out"]) == "Global":
                gs.append(e.ret)
            if t0 is not None and t0["k"] == "ref" and t0["mut"]:
                gs.append(r.eng.load(e.st, *r.eng.target(T("param", 1))))
            for g in gs:
                s = r.eng.sel(g, ("f", 0, S.si))
                if r.eng.known(v, r.eng.discr(s)) != S.one:
                    continue
                c.count("entries that are made")
                i, x = r.eng.sel(s, ("f", S.one, S.idf)), r.eng.sel(s, ("f", S.one, S.valf))
                y = r.boxed(e, x)
                ty = r.type_of(e, y)
                if ty is not None and ty.startswith("std::boxed::Box<"):
                    ty = ty[len("std::boxed::Box<"):-1]
                good = typeid(i) is not None and typeid(i) == ty
                good = good or ty is not None and under(ty, i, v) == 1
                good = good or i.op == "fld" and i.args[1:] == (S.one, S.idf) and inside(x, T("fld", i.args[0], S.one, S.valf))
                c.require(good, "entry:" + f["name"], c.where(f), "an entry is made of a value and the type id of something else: %s, %s" % (short(i), short(x)), facts_text(e.facts))
    other(c)
    c.floor("unsafe call sites", 4)
    c.floor("ways to an unsafe call", 4)
    c.floor("entries that are made", 2)


def is_unsafe(cc):
    """an unsafe function, except for those that the formatting macros use"""
    return bool(cc.get("unsafe")) and not cc["short"].startswith("synth") and "fmt::" not in cc["path"]


def generated(p, span):
    """compiler generated code, such as that of vec![]"""
    return not span or not span[1]


def calls_in(c, bi):
    p = c.p
    b = p.bodies[bi]
    for blk in b["b"] if "b" in b else b["blocks"]:
        t = blk["t"]
        if t[0] == "call" and t[1][0] == "fn":
            cc = t[1][1]
            yield (p.callees[cc] if isinstance(cc, int) else cc), tuple(t[-1]) if isinstance(t[-1], (list, tuple)) else t[-1]


def direct(c, bi, pred, seen):
    """does this body make such a call, itself, or through functions that safe code outside of the crate cannot call?"""
    p = c.p
    if bi in seen:
        return False
    seen.add(bi)
    for cc, span in calls_in(c, bi):
        if pred(cc) and not generated(p, span):
            return True
    private = {f["path"] for f in p.fns if not f.get("pub") and not f.get("trait")}
    for s in c.cg.succ_bodies(bi):
        b = p.bodies[s]
        if b is not None and b.get("local") and (b["path"] in private or "{closure" in b["path"]) and direct(c, s, pred, seen):
            return True
    return False


def other(c):
    """constructs that need unsafe and are not calls"""
    p = c.p
    c.count("bodies", sum(1 for b in p.bodies if b is not None and b.get("local")))
    for d, ds, fs in os.walk(os.path.join(c.repo, "src")):
        for fn in sorted(fs):
            if not fn.endswith(".rs"):
                continue
            path = os.path.join(d, fn)
            src = code_only(open(path).read())
            c.count("source files")
            for m in re.finditer(r"\bunsafe\s+impl\b|\bstatic\s+mut\b|\bextern\s+\"|\btransmute\w*|\*\s*(const|mut)\s+[A-Za-z_]", src):
                line = src.count("\n", 0, m.start()) + 1
                c.violation("construct:" + m.group(0).split()[0], "%s:%d" % (os.path.relpath(path, c.repo), line), "a construct whose validity cannot be decided here: %s" % m.group(0))


def code_only(s):
    """the source with comments and literals blanked out"""
    def blank(m):
        return re.sub(r"[^\n]", " ", m.group(0))
    return re.sub(r'//[^\n]*|/\*.*?\*/|b?r#*"(?s:.*?)"#*|b?"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'', blank, s, flags=re.S)
