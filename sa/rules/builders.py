"""Registering handlers: the builders of the routers and what they are made from (C20)."""
from terms import *
import terms
import models as base_models
from engine import Engine
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import *
from rules.routers import *
from rules.links import bare, going, same
from prog import strip_generics

PARTS = ("Merge::merge", "ApplyContext::apply_context", "ApplyContext::prepend_context")
NAMES = "VariableNames"


def cow(C):
    """what a Cow holds, no matter how"""
    if C.op == "agg" and C.args[0] == "std::borrow::Cow":
        x = C.args[2][0]
        if C.args[1] == 1:
            return names(x)
        return names(x.args[0] if x.op in ("&", "vref") else T("deref", x))
    if C.op == "with" and len(C.args[1]) == 1:
        vi, i, x = C.args[1][0]
        return names(x if vi == 1 else T("deref", x))
    return T("cowval", C)


def names(x):
    """a list of names, written the same way for all kinds of owners"""
    if x.op == "vpush":
        return T("vpush", names(x.args[0]), name(x.args[1]))
    y = x
    while y.op in ("fld", "deref") and y.args[0].op in ("fld", "deref"):
        y = y.args[0]
    if y.op == "deref" and y.args[0].op in ("&", "vref"):
        return names(subst_one(x, y, y.args[0].args[0]))
    if x.op == "fld" and x.args[0].op == "agg":
        return cow(x.args[0])
    if x.op == "fld" and x.args[1:] == (1, 0):
        return T("cowval", x.args[0])
    if x.op == "deref" and x.args[0].op == "fld" and x.args[0].args[1:] == (0, 0):
        return T("cowval", x.args[0].args[0])
    if x.op in ("&", "vref"):
        return names(x.args[0])
    return x


def subst_one(x, y, z):
    if x is y:
        return z
    if x.op == "fld":
        return fld(subst_one(x.args[0], y, z), *x.args[1:])
    return T("deref", subst_one(x.args[0], y, z))


def name(x):
    """a name that is what follows the first character of a segment"""
    if x.op == "app" or x.op == "agg" and len(x.args[2]) == 1:
        y = bare(x if x.op == "app" else x.args[2][0])
        if y.op == "vslice" and y.args[1] is INT(1) and (y.args[2] is T("len", y.args[0])):
            return T("name", y.args[0])
    return x


class Parts:
    """the builders and the routers they build"""

    def __init__(self, c):
        p = c.p
        self.c = c
        self.by = {}
        for f in p.fns:
            if f["body"] is not None and f["ins"] and not f.get("trait"):
                t = p.types[f["ins"][0]]
                if t["k"] == "ref":
                    t = p.types[t["e"]]
                if t["k"] == "adt" and t.get("local") and p.last(t["path"]) == "Builder" and f["path"].split("::")[-2:-1] and f.get("pub"):
                    self.by.setdefault(t["path"].split("::")[-2], {})[f["name"]] = (f, t)
        t = c.struct("TreeRouter")["vs"][0]["fs"]
        self.item = c.field("TreeRouter", lambda n, t: p.types[t]["k"] == "param")
        self.static = c.field("TreeRouter", lambda n, t: p.tname(t) == "HashMap")
        opts = [i for i, x in enumerate(t) if p.tname(x[1]) == "Option"]
        self.var = [i for i in opts if "var" in t[i][0]]
        self.wild = [i for i in opts if i not in self.var]
        self.good = self.item is not None and self.static is not None and len(self.var) == 1 and len(self.wild) == 1 and all(m in self.by for m in ("tree_router", "method_router", "status_router", "or_else"))
        if not self.good:
            c.violation("anchor:builders", "-", "the builders or the parts of a tree router cannot be found")
            return
        self.var, self.wild = self.var[0], self.wild[0]
        self.next = [f["path"] for f in p.fns if f["name"] == "next" and f["body"] is not None and f.get("trait", "").endswith("Iterator") and "RouteIter" in p.types[f["ins"][0]]["s"]]
        self.segments = [f["path"] for f in p.fns if f["body"] is not None and f.get("out") is not None and p.tname(f["out"]) == "RouteIter"]
        self.find = [f["path"] for f in p.fns if f["body"] is not None and not f.get("trait") and f["ins"] and f.get("out") is not None and not f.get("pub")
                     and self.mutref(f["ins"][0], "TreeRouter") and self.mutref(f["out"], "TreeRouter")]

    def mutref(self, ti, n):
        p = self.c.p
        t = p.types[ti]
        return t["k"] == "ref" and t["mut"] and p.tname(t["e"]) == n

    def fields(self, t):
        """router and context (and variables) of a builder"""
        p = self.c.p
        r = {}
        for i, (n, ti) in enumerate(t["vs"][0]["fs"]):
            s = p.types[ti]["s"]
            if p.types[ti]["k"] == "ref":
                r["node"] = i
            elif "anymap::Map" in s:
                r["context"] = i
            elif p.tname(ti) == "Cow":
                r["variables"] = i
        return r


def text_type(s):
    return s.split("<")[0].endswith("MaybeUtf8")


class Texts:
    """the usual models; text of unknown encoding that is made from bytes is not told apart by its encoding (C25)"""

    def __init__(self, c, P=None, segs=None):
        self.c, self.P, self.segs = c, P, segs

    def __getattr__(self, n):
        return getattr(base_models, n)

    def find(self, eng, cc):
        b = cc.get("body")
        b = eng.p.bodies[b]["path"] if self.segs is not None and b is not None and eng.p.bodies[b] is not None else None
        if b is not None and b in self.P.segments:
            def cut(eng, st, call, ret):
                x = eng.deepval(st, call.args[0])
                st.trace = st.trace + (("segments", eng.p.where(call.span), (x,), UNIT),)
                return [(st, T("agg", "it:segments", 0, (UNIT, INT(0), INT(0), INT(self.segs))))]
            return cut
        if b is not None and b in self.P.next:
            def step(eng, st, call, ret):
                it = eng.load(st, *eng.target(call.args[0]))
                if not (it.op == "agg" and it.args[0] == "it:segments"):
                    return None
                i = it.args[2][1].args[0]
                if i >= self.segs:
                    return [(st, T("agg", OPTION, 0, ()))]
                eng.store(st, *eng.target(call.args[0]), T("agg", "it:segments", 0, (UNIT, INT(i + 1), INT(0), INT(self.segs))))
                return [(st, T("agg", OPTION, 1, (T("segment", INT(i)),)))]
            return step
        if cc["short"] == "From::from" and text_type(cc.get("rself", "")):
            def g(eng, st, call, ret):
                return [(st, T("app", "text", (eng.deepval(st, call.args[0]),)))]
            return g
        return base_models.find(eng, cc)


class Reg:
    """what a registering function does on each way through it"""

    def __init__(self, c, P, f, find=True, segs=None, extra=(), args=None, facts=None, each=lambda x: False):
        p = c.p
        self.c, self.P, self.f = c, P, f
        stop = set(P.next) | set(P.segments) | set(extra)
        if find:
            stop |= set(P.find)
        stop.discard(f["path"] if isinstance(f, dict) else p.body(f)["path"])

        def kind(cc):
            b = cc.get("body")
            b = p.bodies[b]["path"] if b is not None and p.bodies[b] is not None else None
            if b in P.next:
                return "next"
            if b in P.segments:
                return "segments"
            if b in P.find and b in stop:
                return "find"
            s = last2(cc["short"])
            if s in PARTS or cc["short"].startswith("anymap") and s in ("Map::insert", "Map::remove") or is_app(cc) or s in ("Default::default", "Clone::clone") and cc.get("kind") == "param":
                return s
            if b is not None and b in stop:
                return "self:" + strip_generics(b).split("::")[-1]
            return None

        def rel(eng, st, call, res):
            k = kind(call.c)
            if res is None or k is None or segs is not None and k in ("next", "segments"):
                return None
            where = p.where(call.span) if call.span and call.span[1] else c.where(f)
            a = tuple(eng.deepval(st, x) for x in call.args)
            if k == "find":
                return (k, where, a, res, bare(call.args[0]))
            return (k, where, a, res)

        def assumed(eng, st, t, v):
            x = counted(t, v)
            if x is not None:
                if each(x[0]):
                    st.trace = st.trace + (("each" if x[2] else "done", x[0], x[1]),)

        self.kind = kind
        opq = lambda cc: kind(cc) in (("find",) if segs is not None else ("next", "segments", "find")) or (kind(cc) or "").startswith("self:") or last2(cc["short"]) in PARTS or cc["short"].startswith("anymap") and kind(cc) is not None
        eng = self.eng = Engine(p, rel=rel, opaque=opq, keep_facts=None, rel_assume=assumed)
        eng.models = Texts(c, P, segs)
        eng.join_limit = 5000
        eng.max_states = 60000
        ex = c.run(eng, f, mon=UNIT, facts=facts, args=args) or ()
        self.all = ex
        self.exits = [e for e in ex if e.kind == "return"]

    def events(self, e, *kinds):
        return [x for x in e.trace if x[0] != "loop" and (x[0] in kinds if kinds else x[0] not in ("each", "done"))]

    def context(self, e, x, cows=False):
        """(what it was made from, [("insert", names) | ("remove",)], innermost first)"""
        r = []
        eng = self.eng
        while x.op == "upd":
            ev = [y for y in e.trace if len(y) > 3 and y[3] is x.args[1]]
            if not ev:
                break
            k = ev[0][0]
            if k == "Map::insert":
                a = ev[0][2][1]
                if not (a.op == "agg" and strip_generics(a.args[0]).split("::")[-1] == NAMES):
                    break
                r.insert(0, ("insert", names(a.args[2][0])))
            elif k == "Map::remove":
                dty = eng.origin[ev[0][3]].dty
                if dty is None or NAMES not in self.c.p.types[dty]["s"]:
                    break
                r.insert(0, ("remove",))
            else:
                break
            x = x.args[2]
        return (names(x) if cows else x), r


def peeled(x, v):
    """is x a view of the box v?"""
    x = bare_ref(x)
    while x is not v and x.op in ("fld",):
        x = x.args[0]
    return x is v


def deref(x):
    return x.args[0] if x.op in ("&", "vref") else T("deref", x)


def val(eng, e, x):
    """what a reference refers to in the end"""
    if x.op in ("&", "vref"):
        return x.args[0]
    return eng.load(e.st, *eng.target(x))


@prop("C20")
def c20(c):
    c.rule("on(place, handler): the map of the router gets from_handler(the builder's context, handler) under exactly that key; on_x uses method x")
    c.rule("method/status/x(): the builder of the entry under that key, which is created from the default and the context only if there was none; an existing one is left alone")
    c.rule("handler, on_path, on_route: from_handler(context with the names on the way, handler) becomes the item of the node at the end of the path; path, get_path: no item is changed")
    c.rule("walking a path: each segment leads to the sequence child if it starts with '*', to the variable child if it starts with ':', and otherwise to the static child with that label; names are what follows these, in order; nodes are only created where there is none, and get_path creates none")
    c.rule("build, get_builder, many, constructors and insert hand over and store exactly what they are given")
    p = c.p
    P = Parts(c)
    if not P.good:
        return
    maps(c, P)
    plain(c, P)
    tree(c, P)
    made(c, P)
    c.floor("registrations by key", 10)
    c.floor("short forms", 16)
    c.floor("builders of entries", 20)
    c.floor("steps along a path", 100)
    c.floor("registrations in a tree", 50)
    c.floor("new nodes", 20)
    for k in range(4):
        c.floor("paths of %d segments" % k, 12)
    c.floor("constructors", 8)
    c.floor("builders opened", 6)
    c.floor("handlers made from handlers", 5)
    c.floor("collected routes", 3)
    c.floor("groups of operations", 4)


def method_variants(c):
    for t in c.p.types:
        if t["k"] == "adt" and t["path"] == "hyper::method::Method" and t.get("vs"):
            return t["path"], {v["n"].lower(): i for i, v in enumerate(t["vs"])}
    return None, {}


def maps(c, P):
    """routers that keep their handlers in a map"""
    p = c.p
    mpath, variants = method_variants(c)
    me = T("deref", T("param", 1))
    for mod, opener in (("method_router", "method"), ("status_router", "status")):
        fns = P.by[mod]
        for n, (f, t) in sorted(fns.items()):
            if n in ("many", "merge"):
                continue
            F = P.fields(t)
            where = c.where(f)
            short_ = n not in ("on", opener)
            store = n == "on" or n.startswith("on_")
            word = n[3:] if n.startswith("on_") else n
            R = Reg(c, P, f)
            eng = R.eng
            if short_:
                if not c.require(word in variants, "word:" + n, where, "there is no method for the short form %s" % n):
                    continue
                key = T("agg", mpath, variants[word], ())
                arg = T("param", 2)
                c.count("short forms")
            else:
                key = T("param", 2)
                arg = T("param", 3)
            router = T("deref", fld(me, 0, F["node"]))
            mi = [i for i, x in enumerate(c.struct({"method_router": "MethodRouter", "status_router": "StatusRouter"}[mod])["vs"][0]["fs"]) if p.tname(x[1]) == "HashMap"][0]
            m0 = fld(router, 0, mi)
            ctx = fld(me, 0, F["context"])
            c.require(R.exits, "returns:" + n, where, "%s never returns" % n)
            for e in R.exits:
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                m1 = eng.sel(eng.load(e.st, *eng.target(fld(me, 0, F["node"]))), ("f", 0, mi))
                made_ = [x for x in R.events(e)]
                if store:
                    c.count("registrations by key")
                    fh = [x for x in made_ if x[0] == "FromHandler::from_handler"]
                    if c.require(len(fh) == 1 and len(made_) == 1, "made:" + n, where, "%s does not make exactly one handler: %s" % (n, [x[0] for x in made_]), det):
                        c.require(fh[0][2] == (ctx, arg), "made-from:" + n, fh[0][1], "the handler is not made from the builder's context and the given handler: %s" % short(fh[0][2]), det)
                        c.require(m1 is T("set", m0, ("key", key), fh[0][3]), "stored:" + n, where, "the handler is not stored under the given %s: %s" % (opener, short(m1)), det)
                else:
                    c.count("builders of entries")
                    has = eng.known(v, T("has", m0, key))
                    gb = [x for x in made_ if x[0] == "Build::get_builder"]
                    rest = [x for x in made_ if x[0] != "Build::get_builder"]
                    if not c.require(has is not None, "looked-up:" + n, where, "it is not looked up whether there already is a handler", det):
                        continue
                    if not c.require(len(gb) == 1 and e.ret is gb[0][3] and gb[0][2][1] is ctx, "builder:" + n, where, "not the builder of the entry with this builder's context is returned: %s" % short(e.ret), det):
                        continue
                    b = val(eng, e, gb[0][2][0])
                    old = T("elem", m0, "key", key)
                    if has:
                        c.require(not rest, "touched:" + n, where, "the handler that is already there is changed: %s" % [x[0] for x in rest], det)
                        b = unupd(b, gb[0][3])
                        c.require(b is old, "entry:" + n, gb[0][1], "not the builder of the entry that is there is returned: %s" % short(b), det)
                        m2 = m1
                        c.require(m1 is m0 or m1.op == "set" and m1.args[0] is m0 and m1.args[1] == ("key", key) and unupd(m1.args[2], gb[0][3]) is old, "map:" + n, where, "the other entries are changed: %s" % short(m1), det)
                    else:
                        ok_ = [x[0] for x in rest] == ["Default::default", "ApplyContext::apply_context"] or [x[0] for x in rest if x[0] != "Default::default"] == ["ApplyContext::apply_context"]
                        if c.require(ok_, "new:" + n, where, "a new entry is not made from the default and the context: %s" % [x[0] for x in rest], det):
                            ac = [x for x in rest if x[0] == "ApplyContext::apply_context"][0]
                            c.require(ac[2][1] is ctx, "new-context:" + n, ac[1], "the new entry does not get the builder's context", det)
                            x = m1.args[2] if m1.op == "set" and m1.args[:2] == (m0, ("key", key)) else None
                            if c.require(x is not None, "new-stored:" + n, where, "the new entry is not stored under the given %s: %s" % (opener, short(m1)), det):
                                x = unupd(x, gb[0][3])
                                x = unupd(x, ac[3])
                                c.require(is_default(eng, x), "default:" + n, where, "the new entry is not the default: %s" % short(x), det)
                                c.require(unupd(unupd(b, gb[0][3]), ac[3]) is x, "entry:" + n, gb[0][1], "not the builder of the new entry is returned: %s" % short(b), det)


def is_default(eng, x):
    return x.op in ("app", "call") and "Default::default" in (x.args[0] if x.op == "app" else eng.origin[x].name)


def unupd(x, res):
    """x before call res changed it"""
    return x.args[2] if x.op == "upd" and x.args[1] is res else x


def plain(c, P):
    """operations that hand over what they are given"""
    p = c.p
    p1 = T("param", 1)
    for mod in sorted(P.by):
        fns = P.by[mod]
        if "many" in fns:
            f, t = fns["many"]
            R = Reg(c, P, f)
            for e in R.exits:
                c.count("groups of operations")
                ev = R.events(e)
                det = trace_text(e.trace)
                c.require(len(ev) == 1 and ev[0][0].startswith("FnOnce::") and bare(ev[0][2][0]) is T("param", 2) and bare(arg0(ev[0][2][1])) in (p1, T("deref", p1), bare(T("deref", p1))) or len(ev) == 1 and unupd(bare(arg0(ev[0][2][1])), ev[0][3]) is T("deref", p1), "many:" + mod, c.where(f), "the given operations are not done once, on this builder: %s" % short([x[2] for x in ev]), det)
                c.require(bare_ref(e.ret) in (p1, T("deref", p1)), "many-result:" + mod, c.where(f), "not this builder is returned: %s" % short(e.ret), det)
    f = P.by["or_else"]
    for n in ("primary", "secondary"):
        if not c.require(n in f, "anchor:" + n, "-", "there is no %s" % n):
            continue
        g, t = f[n]
        F = P.fields(t)
        R = Reg(c, P, g)
        fi = c.field("OrElse", lambda a, b: a == n)
        me = T("deref", p1)
        for e in R.exits:
            c.count("builders of entries")
            ev = R.events(e)
            det = trace_text(e.trace)
            good = len(ev) == 1 and ev[0][0] == "Build::get_builder" and e.ret is ev[0][3]
            want = fld(T("deref", fld(me, 0, F["node"])), 0, fi)
            c.require(good and unupd(val(R.eng, e, ev[0][2][0]), ev[0][3]) is want and ev[0][2][1] is fld(me, 0, F["context"]), n, c.where(g), "not the builder of the %s handler is returned" % n, det)


def arg0(x):
    return x.args[2][0] if x.op == "agg" and x.args[0] == "tuple" and x.args[2] else x


def first(eng, v, s):
    """42 or 58 if the segment starts with one of these, 0 if it does not, None if that is not known"""
    if eng.known(v, T("len", s)) == 0:
        return 0
    b = eng.known(v, T("elem", s, "idx", INT(0)))
    if b is not None:
        return b if b in (42, 58) else 0
    x = v.facts.get(T("elem", s, "idx", INT(0)))
    return 0 if isinstance(x, frozenset) and x >= {42, 58} else None


def chain(x):
    """a value and what it is a part of"""
    while True:
        yield x
        if x.op in ("fld", "deref", "&", "vref") and isinstance(x.args[0], Term):
            x = x.args[0]
        elif x.op == "app" and len(x.args[1]) == 1:
            x = x.args[1][0]
        else:
            return


def tree(c, P):
    fns = P.by["tree_router"]
    need = ("path", "on_path", "on_route", "get_path", "handler", "then", "merge", "many")
    if not c.require(all(n in fns for n in need) and P.next and P.segments, "anchor:tree-builder", "-", "operations of the tree router's builder are missing"):
        return
    me = T("deref", T("param", 1))
    for n in ("path", "on_path", "get_path"):
        walking(c, P, n, fns[n], me)
    tree_here(c, P, fns, me)


class Step:
    """where a walk along the segments of a path is after some of them"""

    def __init__(self, ref, node, nms):
        self.ref, self.node, self.nms = ref, node, nms


def walking(c, P, n, ft, me):
    """a path of any number of segments: the first two are followed one by one, and what is done for the others
    is the same as long as nothing but the node and the names goes from one to the next"""
    f, t = ft
    F = P.fields(t)
    where = c.where(f)
    start = fld(me, 0, F["node"])
    done = set()
    for many, R, e in ((k, R, e) for k in (0, 1, 2, 3) for R, e in both(c, P, f, F, me, segs=k)):
        eng = R.eng
        v = View(e)
        det = ["%d segments" % many] + trace_text(e.trace) + facts_text(e.facts)
        ev = R.events(e)
        if not c.require(not any(x[0] == "loop" for x in e.trace), "lost:" + n, where, "the segments are not followed one by one", det):
            continue
        seg = R.events(e, "segments")
        if not c.require(len(seg) == 1 and bare(seg[0][2][0]) is T("param", 2), "path:" + n, where, "not the segments of the given path are followed", det):
            continue
        here = Step(start, T("deref", start), T("cowval", fld(me, 0, F["variables"])))
        lost = False
        finds = [x for x in ev if x[0] == "find"]
        way = []
        good = True
        for i in range(many):
            if lost:
                break
            s = T("deref", T("segment", INT(i)))
            c.count("steps along a path")
            kind = first(eng, v, s)
            if not c.require(kind is not None, "kind:" + n, where, "it is not told what kind of segment this is", det):
                good = False
                break
            if kind:
                here.nms = T("vpush", here.nms, T("name", s))
            if n != "get_path":
                way.append(here.ref)
                if not c.require(finds, "step-missing:" + n, where, "no step is made for a segment", det):
                    good = False
                    break
                y = finds.pop(0)
                c.require(bare(y[2][1]) in (s, bare(s)), "step-key:" + n, y[1], "a step of the path is not made with the current segment: %s" % short(y[2][1]), det)
                c.require(y[4] is bare(here.ref), "step-from:" + n, y[1], "a step of the path does not start at the node that was reached: %s instead of %s" % (short(y[4]), short(here.ref)), det)
                here.ref = y[3]
                creates(c, P, R, y, here.nms, F, n, v, done, det)
                continue
            if kind:
                slot = eng.sel(here.node, ("f", 0, P.wild if kind == 42 else P.var))
                d = eng.known(v, eng.discr(slot))
                if not c.require(d is not None, "child:" + n, where, "it is not looked up whether there is a child for a segment", det):
                    good = False
                    break
                lost = d == 0
                here.ref = eng.sel(eng.sel(slot, ("f", 1, 0)), ("f", 0, 0))
                here.node = T("deref", here.ref)
            else:
                m = eng.sel(here.node, ("f", 0, P.static))
                ks2 = [x for x in v.facts if x.op == "has" and x.args[0] is m and key_bytes(x.args[1]) is key_bytes(s)]
                if not c.require(ks2, "child:" + n, where, "it is not looked up whether there is a child for a segment", det):
                    good = False
                    break
                lost = v.facts[ks2[0]] == 0
                here.ref = here.node = T("elem", m, "key", ks2[0].args[1])
        if not good:
            continue
        c.count("paths of %d segments" % many)
        if n == "path":
            way.append(here.ref)
        elif n == "get_path":
            way.append(start)
        for i, ref in enumerate(way):
            x = eng.load(e.st, *eng.target(ref))
            while x.op == "upd" and x.args[0].endswith(tuple(strip_generics(y).split("::")[-1] for y in P.find)):
                x = x.args[2]
            c.require(x is T("deref", ref), "changed:" + n, where, "a node on the way is changed: %s" % short(x), det)
        c.require(not finds, "step-extra:" + n, where, "a step is made for no segment", det)
        ret = e.ret
        if n == "get_path":
            d = eng.known(v, eng.discr(ret))
            if not c.require(d == (0 if lost else 1), "found:" + n, where, "a node %s, but the result says otherwise" % ("is missing on the path" if lost else "is there"), det):
                continue
            if lost:
                continue
            ret = eng.sel(ret, ("f", 1, 0))
        got = eng.sel(ret, ("f", 0, F["node"]))
        c.require(bare(got) is bare(here.ref) or eng.load(e.st, *eng.target(got)) is here.node, "node:" + n, where, "the builder that is returned is not at the end of the path: %s instead of %s" % (short(got), short(here.ref)), det)
        nms = cow(eng.sel(ret, ("f", 0, F["variables"])))
        c.require(nms is here.nms, "names:" + n, where, "the builder that is returned has other variable names than those on the way: %s instead of %s" % (short(nms), short(here.nms)), det)
        c.require(cow(eng.sel(ret, ("f", 0, F["context"]))) is T("cowval", fld(me, 0, F["context"])), "context:" + n, where, "the context is not handed on: %s" % short(eng.sel(ret, ("f", 0, F["context"]))), det)
        fh = R.events(e, "FromHandler::from_handler")
        if n == "on_path":
            c.count("registrations in a tree")
            if c.require(len(fh) == 1 and fh[0][2][1] is T("param", 3), "made:" + n, where, "the given handler is not registered", det):
                made_ctx(c, P, R, e, F, fh[0], here.nms, n, det)
                x = eng.load(e.st, *eng.target(got))
                c.require(eng.sel(x, ("f", 0, P.item)) is fh[0][3], "item:" + n, where, "the handler does not become the item of the node at the end of the path: %s" % short(x), det)
                rest = [pa for pa, y in diffs(eng, x, x.args[0])] if x.op == "with" else [(("f", 0, P.item),)] if x.op == "agg" else []
                c.require(rest in ([], [(("f", 0, P.item),)]), "kept:" + n, where, "more than the item of the node is changed: %s" % short(x), det)
        else:
            c.require(not fh, "made:" + n, where, "a handler is made although none is given", det)


def creates(c, P, R, ev, nms, F, n, v, done, det):
    """what a new node on the way is made from"""
    where = ev[1]
    fv = ev[2][2] if len(ev[2]) > 2 else None
    if (fv, nms) in done:
        return
    done.add((fv, nms))
    body = None
    if fv is not None and fv.op == "agg" and str(fv.args[0]).startswith("closure:"):
        body = c.p.types[int(str(fv.args[0]).split(":")[1])].get("body")
    if body is None:
        c.violation("new-node:" + n, where, "it is not visible how new nodes are made: %s" % short(fv), det)
        return
    Q = Reg(c, P, body, args=[fv], facts=dict(v.facts))
    me = T("deref", T("param", 1))
    for e in Q.exits:
        c.count("new nodes")
        evs = [x for x in Q.events(e) if x[0] not in ("Map::insert", "Map::remove", "Default::default", "Clone::clone")]
        d2 = trace_text(e.trace) + det
        if c.require([x[0] for x in evs] == ["ApplyContext::apply_context"], "new-node:" + n, where, "a new node is not made from the default and the context: %s" % [x[0] for x in evs], d2):
            c.require(is_default(Q.eng, unupd(e.ret, evs[0][3])), "new-item:" + n, where, "the item of a new node is not the default: %s" % short(e.ret), d2)
            base, ch = Q.context(e, evs[0][2][1], True)
            c.require(base is T("cowval", fld(me, 0, F["context"])) and ch[-1:] == [("insert", nms)], "new-context:" + n, where, "a new node does not get the context with the names on the way: %s" % short(evs[0][2][1]), d2 + [short(x) for x in ch])


def both(c, P, f, F, me, **kw):
    """the ways through a function, for each combination of borrowed and owned names and contexts"""
    for i in (0, 1):
        for j in (0, 1):
            facts = {T("discr", fld(me, 0, F["variables"])): i, T("discr", fld(me, 0, F["context"])): j}
            R = Reg(c, P, f, facts=facts, **kw)
            c.require(R.exits, "returns:" + f["name"], c.where(f), "%s never returns" % f["name"])
            for e in R.exits:
                yield R, e


def key_bytes(k):
    """the bytes of a key"""
    k = bare(k)
    while k.op == "agg" and len(k.args[2]) == 1:
        k = bare(k.args[2][0])
    return k


def made_ctx(c, P, R, e, F, ev, nms, n, det):
    me = T("deref", T("param", 1))
    base, ch = R.context(e, ev[2][0] if ev[0].startswith("From") else ev[2][1], True)
    c.require(base is T("cowval", fld(me, 0, F["context"])) and ch[-1:] == [("insert", nms)], "made-context:" + n, ev[1], "the handler does not get the context with the names on the way: %s" % short((base,) + tuple(ch)), det)


def tree_here(c, P, fns, me):
    """operations at the current node, or one below"""
    p = c.p
    for n in ("handler", "then", "on_route"):
        f, t = fns[n]
        F = P.fields(t)
        where = c.where(f)
        R = Reg(c, P, f, find=False)
        eng = R.eng
        c.require(R.exits, "returns:" + n, where, "%s never returns" % n)
        node = fld(me, 0, F["node"])
        n0 = T("deref", node)
        for e in R.exits:
            v = View(e)
            det = trace_text(e.trace) + facts_text(e.facts)
            nms = T("cowval", fld(me, 0, F["variables"]))
            after = eng.load(e.st, *eng.target(node))
            if n == "then":
                gb = R.events(e, "Build::get_builder")
                c.count("builders of entries")
                if c.require(len(gb) == 1 and e.ret is gb[0][3] and unupd(val(eng, e, gb[0][2][0]), gb[0][3]) is eng.sel(n0, ("f", 0, P.item)), "then", where, "not the builder of the item at this node is returned", det):
                    made_ctx(c, P, R, e, F, gb[0], nms, n, det)
                d = diffs(eng, after, n0)
                c.require(all(pa == (("f", 0, P.item),) and x.op == "upd" for pa, x in d), "then-changed", where, "the node is changed: %s" % short([x for pa, x in d]), det)
                continue
            nx = R.events(e, "next")
            fh = R.events(e, "FromHandler::from_handler")
            arg = T("param", 2 if n == "handler" else 3)
            c.count("registrations in a tree")
            if not c.require(len(fh) == 1 and fh[0][2][1] is arg, "made:" + n, where, "the given handler is not registered exactly once", det):
                continue
            first = None
            if n == "on_route":
                seg = R.events(e, "segments")
                c.require(len(seg) == 1 and bare(seg[0][2][0]) is T("param", 2), "path:" + n, where, "not the given label is used", det)
                ks = [eng.known(v, eng.discr(x[3])) for x in nx]
                if not c.require(ks and (ks[0] == 0 or ks == [1, 0]), "label:" + n, where, "a label with more than one segment is accepted", det):
                    continue
                if ks[0] == 1:
                    first = T("deref", fld(nx[0][3], 1, 0))
            ret = e.ret
            got = eng.sel(ret, ("f", 0, F["node"]))
            if first is None:
                d = diffs(eng, after, n0)
                c.require(d == [((("f", 0, P.item),), fh[0][3])], "item:" + n, where, "the handler does not become the item of this node, and nothing else: %s" % short([x for pa, x in d]), det)
                c.require(got is node, "node:" + n, where, "the builder that is returned is at another node: %s" % short(got), det)
            else:
                b = eng.known(v, T("elem", first, "idx", INT(0))) if eng.known(v, T("len", first)) != 0 else None
                slot = P.wild if b == 42 else P.var if b == 58 else P.static
                if b in (42, 58):
                    nms = T("vpush", nms, T("name", first))
                d = diffs(eng, after, n0)
                below = val(eng, e, got)
                c.require(eng.sel(below, ("f", 0, P.item)) is fh[0][3], "item:" + n, where, "the handler does not become the item of the node with that label: %s" % short(below), det)
                child(c, P, eng, v, e, n, n0, after, slot, first, got, below, where, det)
            c.require(cow(eng.sel(ret, ("f", 0, F["variables"]))) is nms, "names:" + n, where, "the builder that is returned has other variable names than those on the way: %s" % short(eng.sel(ret, ("f", 0, F["variables"]))), det)
            c.require(cow(eng.sel(ret, ("f", 0, F["context"]))) is T("cowval", fld(me, 0, F["context"])), "context:" + n, where, "the context is not handed on", det)
            made_ctx(c, P, R, e, F, fh[0], nms, n, det)
    for f in p.fns:
        if f["path"] not in P.find:
            continue
        R = Reg(c, P, f, find=False)
        eng = R.eng
        where = c.where(f)
        n0 = T("deref", T("param", 1))
        seg = T("deref", T("param", 2))
        for e in R.exits:
            v = View(e)
            det = trace_text(e.trace) + facts_text(e.facts)
            c.count("steps along a path")
            x = eng.known(v, T("elem", seg, "idx", INT(0))) if eng.known(v, T("len", seg)) != 0 else None
            if x not in (42, 58, None):
                x = None
            slot = P.wild if x == 42 else P.var if x == 58 else P.static
            ev = R.events(e)
            after = eng.load(e.st, *eng.target(T("param", 1)))
            below = val(eng, e, e.ret)
            existed = child(c, P, eng, v, e, "step", n0, after, slot, seg, e.ret, below, where, det)
            calls = [y for y in ev if y[0].startswith(("Fn::", "FnMut::", "FnOnce::"))]
            c.require(len(ev) == len(calls), "step-calls", where, "a step does something else than making a handler", det)
            if existed:
                c.require(not calls, "step-new", where, "a handler is made for a node that is already there", det)
            else:
                c.require(len(calls) == 1 and eng.sel(below, ("f", 0, P.item)) is calls[0][3], "step-item", where, "the new node does not get the handler that was made for it: %s" % short(below), det)


def child(c, P, eng, v, e, n, n0, after, slot, seg, got, below, where, det):
    """got is the child of the node in that slot: the one that was there, if there was one, and a new and otherwise
    empty one if not. Nothing else changes."""
    d = diffs(eng, after, n0)
    s0 = eng.sel(n0, ("f", 0, slot))
    if slot == P.static:
        keys = [t.args[1] for t in v.facts if t.op == "has" and t.args[0] is s0 and key_bytes(t.args[1]) is key_bytes(seg)]
        if not c.require(len(set(map(key_bytes, keys))) == 1, "child-looked-up:" + n, where, "it is not looked up whether there is a child with this label", det):
            return None
        key = keys[0]
        there = eng.known(v, T("has", s0, key))
        b = bare(got)
        old = T("elem", s0, "key", key)
        is_it = b is old or b.op == "elem" and b.args[1:] == ("key", key)
        c.require(is_it, "child:" + n, where, "not the child with this label is returned: %s" % short(got), det)
        good = all(pa == (("f", 0, slot),) and x.op == "set" and x.args[0] is s0 and x.args[1] == ("key", key) for pa, x in d)
        c.require(good, "siblings:" + n, where, "other children are changed: %s" % short([x for pa, x in d]), det)
    else:
        there = eng.known(v, eng.discr(s0))
        if not c.require(there is not None, "child-looked-up:" + n, where, "it is not looked up whether there is a child of this kind", det):
            return None
        if there:
            c.require(peeled(got, eng.sel(s0, ("f", 1, 0))), "child:" + n, where, "not the child of this kind is returned: %s" % short(got), det)
            c.require(not d, "siblings:" + n, where, "other children are changed: %s" % short([x for pa, x in d]), det)
        else:
            x = eng.sel(after, ("f", 0, slot))
            c.require(x.op == "agg" and x.args[1] == 1 and (same_ref(x.args[2][0], got)), "child:" + n, where, "not the new child is returned: %s" % short(got), det)
            c.require(all(pa[:1] == (("f", 0, slot),) for pa, x in d), "siblings:" + n, where, "other children are changed: %s" % short([x for pa, x in d]), det)
    if there == 0:
        c.count("new nodes")
        c.require(eng.sel(below, ("f", 0, P.static)).op == "mnew" and all(eng.sel(below, ("f", 0, i)).op == "agg" and eng.sel(below, ("f", 0, i)).args[1] == 0 for i in (P.var, P.wild)), "new-empty:" + n, where, "a new node is not empty: %s" % short(below), det)
        return 0
    base = T("elem", s0, "key", key) if slot == P.static else T("deref", eng.sel(eng.sel(s0, ("f", 1, 0)), ("f", 0, 0)))
    c.require(all(pa == (("f", 0, P.item),) for pa, x in diffs(eng, below, base)) and (n != "step" or below is base), "child-kept:" + n, where, "a node that is already there is changed: %s" % short(below), det)
    return 1


def same_ref(a, b):
    while a.op == "agg" and len(a.args[2]) >= 1:
        a = a.args[2][0]
    return a is b or bare_ref(a) is bare_ref(b)


ROUTERS = ("TreeRouter", "MethodRouter", "StatusRouter", "OrElse", "Variables")
BLANK = T("agg", OPTION, 0, ())


def blank(eng, x):
    """what a part is that holds nothing that was given"""
    return x.op in ("mnew", "vnew") or x is BLANK or x.op == "int" or is_default(eng, x)


def made(c, P):
    """constructors, and what else stores or hands over exactly what it is given"""
    p = c.p
    last = lambda ti: p.last(p.types[ti]["path"]) if p.types[ti]["k"] == "adt" and p.types[ti].get("local") else None
    for f in p.fns:
        if f["body"] is None or f.get("derived") or f.get("out") is None or "handler::" not in f["path"]:
            continue
        n = f["name"]
        where = c.where(f)
        out = last(f["out"])
        tr = strip_generics(f.get("trait") or "").split("::")[-1]
        selfish = f["ins"] and p.types[f["ins"][0]]["k"] == "ref"
        if tr == "FromHandler":
            from_handler(c, P, f, out)
        elif tr == "FromIterator":
            collected(c, P, f)
        elif tr == "Build" and n == "get_builder" or n == "build" and f.get("pub") and selfish:
            opened(c, P, f, out)
        elif out in ROUTERS and not selfish and tr in ("", "Default", "From"):
            R = Reg(c, P, f)
            c.require(R.exits, "returns:" + f["path"], where, "%s never returns" % n)
            for e in R.exits:
                c.count("constructors")
                det = trace_text(e.trace) + facts_text(e.facts)
                if not c.require(e.ret.op == "agg", "new:" + f["path"], where, "it is not visible what is made: %s" % short(e.ret), det):
                    continue
                given = [T("param", i + 1) for i in range(len(f["ins"]))]
                rest = [x for x in e.ret.args[2] if x not in given]
                c.require(all(x in e.ret.args[2] for x in given) and all(blank(R.eng, x) for x in rest), "new:" + f["path"], where, "what is made does not hold exactly what was given: %s" % short(e.ret), det)
        elif n == "insert" and selfish and last(p.types[f["ins"][0]]["e"]) in ROUTERS:
            R = Reg(c, P, f)
            s = p.types[p.types[f["ins"][0]]["e"]]
            mi = [i for i, x in enumerate(s["vs"][0]["fs"]) if p.tname(x[1]) == "HashMap"][0]
            c.require(R.exits, "returns:" + f["path"], where, "%s never returns" % n)
            for e in R.exits:
                c.count("registrations by key")
                old = T("deref", T("param", 1))
                d = diffs(R.eng, R.eng.load(e.st, *R.eng.target(T("param", 1))), old)
                want = T("set", fld(old, 0, mi), ("key", T("param", 2)), T("param", 3))
                c.require(d == [((("f", 0, mi),), want)], "insert:" + s["path"], where, "not exactly the given handler is stored under the given key: %s" % short([x for _, x in d]), trace_text(e.trace) + facts_text(e.facts))


def given_names(R, e, src):
    """(the context without its names, the names it had) for a context that names were taken from; without facts
    about there being names, None"""
    ev = [x for x in R.events(e, "Map::remove")]
    if len(ev) != 1:
        return None
    base, ch = R.context(e, unwrap(ev[0][2][0]))
    if base is not src or ch != [("remove",)]:
        return None
    d = R.eng.known(View(e), R.eng.discr(ev[0][3]))
    names_ = T("vnew") if d == 0 else fld(fld(ev[0][3], 1, 0), 0, 0) if d == 1 else None
    return unwrap(ev[0][2][0]), names_


def unwrap(x):
    return x.args[0] if x.op in ("&", "vref") else x


def from_handler(c, P, f, out):
    p = c.p
    where = c.where(f)
    R = Reg(c, P, f)
    ctx, h = T("param", 1), T("param", 2)
    c.require(R.exits, "returns:" + f["path"], where, "it never returns")
    for e in R.exits:
        c.count("handlers made from handlers")
        det = trace_text(e.trace) + facts_text(e.facts)
        fh = R.events(e, "FromHandler::from_handler")
        x = e.ret
        key = "from:" + f["path"]
        if out == "ContentFactory":
            c.require(bare(x) is h and not fh or x.op == "agg" and x.args[2] == (h,), key, where, "not the given handler is stored: %s" % short(x), det)
        elif p.types[f["out"]]["k"] == "param":
            c.require(x is h, key, where, "not the given handler is returned: %s" % short(x), det)
        elif c.require(len(fh) == 1 and fh[0][2][1] is h, key, where, "not exactly one handler is made from the given one", det):
            if out == "Variables":
                g = given_names(R, e, ctx)
                vi = c.field("Variables", lambda a, b: p.tname(b) == "Vec")
                c.require(g is not None and x.op == "agg" and x.args[2][vi] is g[1] and x.args[2][1 - vi] is fh[0][3], key, where, "not the names of the context and the handler are stored: %s" % short(x), det)
                c.require(R.context(e, fh[0][2][0])[0] is ctx, "from-context:" + f["path"], where, "the context is not handed on", det)
            else:
                good = x.op == "agg" and fh[0][3] in x.args[2] and all(blank(R.eng, y) for y in x.args[2] if y is not fh[0][3])
                good = good and (p.tname(f["out"]) != "Option" or x.args[1] == 1)
                c.require(good and (out != "TreeRouter" or x.args[2][P.item] is fh[0][3]), key, where, "not the handler, and nothing else, is stored: %s" % short(x), det)
                c.require(fh[0][2][0] is ctx, "from-context:" + f["path"], where, "the context is not handed on: %s" % short(fh[0][2][0]), det)


def opened(c, P, f, out):
    """builders of routers"""
    p = c.p
    where = c.where(f)
    R = Reg(c, P, f)
    me = T("param", 1)
    key = "open:" + f["path"]
    t = p.types[f["ins"][0]]
    kind = p.last(p.types[t["e"]]["path"])
    c.require(R.exits, "returns:" + f["path"], where, "it never returns")
    for e in R.exits:
        c.count("builders opened")
        det = trace_text(e.trace) + facts_text(e.facts)
        x = e.ret
        after = R.eng.load(e.st, *R.eng.target(me))
        gb = R.events(e, "Build::get_builder")
        ctx = T("param", 2)
        if len(f["ins"]) < 2:
            ctx = T("app", "anymap::Map::new", ())
        if kind == "Variables" or gb:
            fi = 1 - c.field("Variables", lambda a, b: p.tname(b) == "Vec") if kind == "Variables" else None
            good = kind == "Variables" and len(gb) == 1 and x is gb[0][3] and unupd(val(R.eng, e, gb[0][2][0]), gb[0][3]) is fld(T("deref", me), 0, fi)
            if c.require(good, key, where, "not the builder of the handler is returned: %s" % short(x), det):
                c.require(R.context(e, gb[0][2][1])[0] is ctx, "open-context:" + f["path"], where, "the context is not handed on", det)
            c.require(all(pa == (("f", 0, fi),) for pa, _ in diffs(R.eng, after, T("deref", me))), "open-changed:" + f["path"], where, "the router is changed: %s" % short(after), det)
            continue
        if not c.require(x.op == "agg" and p.last(x.args[0]) == "Builder", key, where, "not a builder is returned: %s" % short(x), det):
            continue
        F = P.fields([y for y in p.types if y["k"] == "adt" and y["path"] == x.args[0]][0])
        c.require(R.eng.sel(x, ("f", 0, F["node"])) is me, key, where, "not a builder of this router is returned: %s" % short(x), det)
        got = R.eng.sel(x, ("f", 0, F["context"]))
        if "variables" in F:
            g = given_names(R, e, ctx)
            c.require(g is not None and cow(R.eng.sel(x, ("f", 0, F["variables"]))) is g[1], "open-names:" + f["path"], where, "the builder does not start with the names of the context", det)
            c.require(got.op == "agg" and R.context(e, got.args[2][0] if got.args[1] else deref(got.args[2][0]))[0] is ctx, "open-context:" + f["path"], where, "the builder does not get the context: %s" % short(got), det)
        else:
            c.require(got is ctx, "open-context:" + f["path"], where, "the builder does not get the context: %s" % short(got), det)
        c.require(after is T("deref", me), "open-changed:" + f["path"], where, "the router is changed: %s" % short(after), det)


def collected(c, P, f):
    p = c.p
    where = c.where(f)
    stop = [P.by["tree_router"][n][0]["path"] for n in ("path", "then", "on_path", "handler")] + [P.by["method_router"][n][0]["path"] for n in ("on",)]
    R = Reg(c, P, f, extra=stop, each=lambda x: True)
    turns = [x for d in R.eng.patterns.values() for x in d]
    c.require(turns, "collected:" + f["path"], where, "the given routes are not gone over")
    for suffix, pf in turns:
        ev = [x for x in suffix if x[0].startswith("self:")]
        det = trace_text(suffix) + facts_text(dict(pf))
        if not c.require([x[0] for x in ev] == ["self:path", "self:then", "self:on"], "collected:" + f["path"], where, "a given route is not registered once, at its path and under its method: %s" % [x[0] for x in ev], det):
            continue
        c.count("collected routes")
        a, b, o = [x[2] for x in ev]
        it = [x for x in (bare(a[1]), o[1], o[2]) if x.op == "fld" and x.args[0].op == "item"]
        same_ = len(it) == 3 and len(set(x.args[0] for x in it)) == 1 and bare(it[0].args[0].args[0]) is T("param", 1)
        c.require(same_ and [x.args[2] for x in it] == [1, 0, 2], "collected-parts:" + f["path"], ev[2][1], "not the method, path and handler of the same route are used: %s" % short((a[1], o[1], o[2])), det)
        node = unupd(unwrap(a[0]), ev[0][3])
        root = node.args[2][0] if node.op == "agg" and node.args[2] else node
        c.require(root.op == "ref" and root.args[1].op == "L" and unupd(unwrap(b[0]), ev[1][3]) is ev[0][3] and unupd(unwrap(o[0]), ev[2][3]) is ev[1][3], "collected-place:" + f["path"], ev[2][1], "a route is not registered in the router that is made", det)
    for e in R.exits:
        done = [x for x in e.trace if x[0] == "done"]
        c.require(len(done) == 1 and bare(done[0][1]) is T("param", 1), "collected-all:" + f["path"], where, "it is not known that all of the given routes were gone over", trace_text(e.trace) + facts_text(e.facts))
        c.require(e.ret.op in ("phi", "agg"), "collected-result:" + f["path"], where, "not the router that is made is returned: %s" % short(e.ret))
