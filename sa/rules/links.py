"""Hyperlinks: what the routers report and what an endpoint gets (C23)."""
from terms import *
import terms
import models as base_models
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import *
from rules.response import W
from rules.routers import *
from rules import search
from prog import strip_generics


class Pushes:
    """the usual models; adding an element to a vector of the wanted kind leaves an event"""

    def __init__(self, c, wanted, where):
        self.c, self.wanted, self.where = c, wanted, where

    def __getattr__(self, n):
        return getattr(base_models, n)

    def find(self, eng, cc):
        f = base_models.find(eng, cc)
        s = cc["short"]
        if s == "Vec::push" and self.wanted(cc["args"][0]):
            def g(eng, st, call, ret):
                st.trace = st.trace + (("push", self.where(call), eng.deepval(st, call.args[1])),)
                return f(eng, st, call, ret)
            return g
        if s == "synth::push" and cc["kind2"] == "vec" and (cc["elem"] is None or self.wanted(cc["elem"])):
            def g(eng, st, call, ret):
                x = call.args[1]
                if call.c["copy"]:
                    x = eng.load(st, *eng.target(x))
                st.trace = st.trace + (("push", self.where(call), eng.deepval(st, x)),)
                return f(eng, st, call, ret)
            return g
        return f


def going(pred):
    """events for going through the elements of a collection"""
    def assumed(eng, st, t, v):
        x = counted(t, v)
        if x is not None and pred(eng, x[0]):
            st.trace = st.trace + (("each" if x[2] else "done", x[0], x[1]),)
    return assumed


def same(eng, v, a, b):
    """are two values the same, given what is known?"""
    if a is b:
        return True
    while a.op in ("&", "vref") and b.op == a.op:
        a, b = a.args[0], b.args[0]
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if x.op == "agg" and isinstance(x.args[0], str):
            if y.op == "agg":
                if x.args[:2] != y.args[:2] or len(x.args[2]) != len(y.args[2]):
                    return False
                return all(same(eng, v, s, t) for s, t in zip(x.args[2], y.args[2]))
            d = eng.known(v, eng.discr(y))
            want = eng.p.discr_of(x.args[0], x.args[1])
            if d is not None and d != want:
                return False
            parts = [eng.sel(y, ("f", x.args[1], i)) for i in range(len(x.args[2]))]
            if d is None and not single(eng, x):
                # the parts exist only in this variant, so having copied them says which it was
                # (a variant without parts: nothing is known against it)
                return all(same(eng, v, s, t) for s, t in zip(x.args[2], parts))
            return all(same(eng, v, s, t) for s, t in zip(x.args[2], parts))
    return False


def single(eng, x):
    """is this a value of a type with one variant?"""
    return x.args[0] == "tuple" or x.args[1] == 0 and not x.args[0].startswith("std::") and len([1 for t in eng.p.types if t["k"] == "adt" and t["path"] == x.args[0] and len(t.get("vs", ())) == 1]) > 0


def sequences(eng, exits):
    """what happens on one turn of each loop, and after the last of them: [(events, facts, exit or None)]"""
    r = []
    for (hid, prefix), d in eng.patterns.items():
        for (suffix, pf), fr in d.items():
            r.append((suffix, View2(dict(pf)), None))
    for e in exits:
        k = [i for i, x in enumerate(e.trace) if x[0] == "loop"]
        r.append((e.trace[k[-1] + 1:] if k else e.trace, View(e), e))
    return r


class View2:
    def __init__(self, facts):
        self.facts = facts
        self.mem = {}


def turn_of(ev, k):
    """the events of the turn that starts at ev[k], and whether the turn ends there"""
    X = ev[k][1]
    for j in range(k + 1, len(ev)):
        if ev[j][0] in ("each", "done") and ev[j][1] is X:
            return ev[k + 1:j], True
    return ev[k + 1:], False


class Links:
    def __init__(self, c, w, E):
        p = c.p
        self.c, self.E = c, E
        L = c.struct("Link")
        S = c.struct("LinkSegment")
        self.m = c.field("Link", lambda n, t: n == "method")
        self.path = c.field("Link", lambda n, t: p.tname(t) == "Vec")
        self.handler = c.field("Link", lambda n, t: n == "handler")
        self.label = c.field("LinkSegment", lambda n, t: p.tname(t) == "MaybeUtf8")
        self.ty = c.field("LinkSegment", lambda n, t: p.tname(t) == "SegmentType")
        self.good = None not in (L, S, self.m, self.path, self.handler, self.label, self.ty)
        if not self.good:
            c.violation("anchor:Link", "-", "the parts of a hyperlink cannot be found")
            return
        en = c.struct("SegmentType")
        self.roles = {i: x["n"] for i, x in enumerate(en["vs"])}
        self.mu = c.struct("MaybeUtf8")

    def wanted(self, ti):
        return self.c.p.tname(ti) == "Link"

    def empty(self, v, x):
        """is a vector known to be empty?"""
        return x.op == "vnew"

    def label_of(self, eng, v, x, key):
        """is x a view of the label key?"""
        x, key = bare(x), bare(key)
        if x is key:
            return True
        if x.op == "agg" and x.args[0] == self.mu["path"]:
            d = eng.known(v, eng.discr(key))
            if d is not None and d != eng.p.discr_of(x.args[0], x.args[1]):
                return False
            y = bare(x.args[2][0])
            return y is bare(eng.sel(key, ("f", x.args[1], 0)))
        return False

    def no_label(self, x):
        x = bare(x)
        if x.op == "agg" and x.args[0] == self.mu["path"]:
            y = bare(x.args[2][0])
            return y.op in ("str", "bytes", "lit", "vnew", "snew") and not any(y.args) or short(y) in ("''", "b''", "\"\"")
        return False

    def segment(self, eng, v, link, base):
        """the kind and label of the one segment that link adds to base; None if it is something else"""
        p = eng.sel(link, ("f", 0, self.path))
        if p.op != "vpush":
            return None
        if not (base is None and p.args[0].op == "vnew" or base is not None and same(eng, v, p.args[0], eng.sel(base, ("f", 0, self.path)))):
            return None
        s = p.args[1]
        ty = eng.sel(s, ("f", 0, self.ty))
        if ty.op != "agg":
            return None
        return self.roles[ty.args[1]], eng.sel(s, ("f", 0, self.label))

    def rest(self, eng, v, link, base):
        """method and handler as in base (or none)"""
        m, h = eng.sel(link, ("f", 0, self.m)), eng.sel(link, ("f", 0, self.handler))
        if base is None:
            return all(x.op == "agg" and x.args[1] == 0 for x in (m, h))
        return same(eng, v, m, eng.sel(base, ("f", 0, self.m))) and same(eng, v, h, eng.sel(base, ("f", 0, self.handler)))


# operations that give the same bytes as another type
SAME = ("AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut", "Deref::deref", "DerefMut::deref_mut", "From::from", "Into::into", "Clone::clone", "ToOwned::to_owned", "as_bytes", "as_str", "as_slice", "to_vec",
        "into_bytes", "into_string", "into_boxed_slice", "to_owned", "to_string", "into_owned", "str::bytes", "String::from", "Vec::from", "into_vec", "encode_utf8", "as_mut_slice", "from_utf8_unchecked", "ToString::to_string", "borrow", "as_ref", "IntoIterator::into_iter")


def keeps_bytes(n):
    n = n.split("<")[0] if not n.startswith("<") else n
    return last2(n) in SAME or n.split("::")[-1].split("<")[0] in SAME or last2(n.split("::<")[0]) in SAME

PLAIN = ("text",)


def bare(x):
    while True:
        if x.op in ("&", "vref", "O", "deref") and x.args:
            x = x.args[0]
        elif x.op == "ref" and x.args[1].op == "O":
            y = x.args[1]
            for pe in x.args[2]:
                y = T("fld", y, pe[1], pe[2]) if pe[0] == "f" else T("elem", y, *pe)
            x = y
        elif x.op == "app" and len(x.args[1]) == 1 and (x.args[0] in PLAIN or keeps_bytes(x.args[0])):
            x = x.args[1][0]
        elif x.op == "fld":
            y = bare(x.args[0])
            return x if y is x.args[0] else bare(T("fld", y, *x.args[1:]))
        else:
            return x


def static_turns(c, L, eng, seqs, is_static, base, key_of, where):
    """one link for each static child, with its label"""
    for ev, v, e in seqs:
        for k, x in enumerate(ev):
            if x[0] != "each" or not is_static(x[1]):
                continue
            det = trace_text(ev)
            turn, closed = turn_of(ev, k)
            if e is not None and not closed:
                c.require(False, "left-early:static", where, "not every static child gets a link", det)
                continue
            c.count("links of static children")
            ps = [y for y in turn if y[0] == "push"]
            if not c.require(len(ps) == 1, "static-links", where, "a static child gets %d links" % len(ps), det):
                continue
            link = ps[0][2]
            s = L.segment(eng, v, link, base)
            c.require(s is not None and s[0] == "Static" and L.label_of(eng, v, s[1], key_of(x)), "static-link", ps[0][1], "the link of a static child is not that of its segment: %s" % short(link), det)
            c.require(L.rest(eng, v, link, base), "static-link-rest", ps[0][1], "the link of a static child has a method or handler of its own", det)


def optional_links(c, L, eng, v, ev, node, fields, base, where, det):
    """one link for each of the variable and sequence children that are there"""
    for kind, fi in fields:
        d = eng.known(v, eng.discr(eng.sel(node, ("f", 0, fi))))
        c.count("variable and sequence children")
        if not c.require(d is not None, "unknown:" + kind, where, "the links do not depend on whether there is a %s" % kind, det):
            continue
        ps = []
        for y in ev:
            if y[0] == "push":
                s = L.segment(eng, v, y[2], base)
                if s is not None and s[0] == kind:
                    ps.append((y, s))
        if c.require(len(ps) == d, "number:" + kind, where, "there %s a %s, which gets %d links" % ("is" if d else "is not", kind, len(ps)), det) and ps:
            c.require(L.no_label(ps[0][1][1]), "label:" + kind, ps[0][0][1], "the link of a %s has a label: %s" % (kind, short(ps[0][1][1])), det)
            c.require(L.rest(eng, v, ps[0][0][2], base), "rest:" + kind, ps[0][0][1], "the link of a %s has a method or handler of its own" % kind, det)


def endpoint(c, w, E, L):
    """what an endpoint behind a tree router gets"""
    for s in search.searches(c, w, E):
        eng = s.eng
        c.count("searches")
        env = s.env
        where = c.where(s.f)
        if s.mode == 0:
            for tn in s.turns():
                t = search.Turn(s, tn)
                for x in t.called:
                    c.count("requests without hyperlinks")
                    h = E.of(eng, x[2][1], E.ctx, E.links)
                    c.require(h.op == "vnew", "disabled", x[1], "an endpoint gets hyperlinks although they are disabled: %s" % short(h), t.det)
            continue
        links = lambda m: m.op == "call" and m in eng.origin and last2(eng.origin[m].name) == LINKS
        for tn in s.turns():
            t = search.Turn(s, tn)
            pushes = [("push", x[2], x[3]) for x in t.ev if x[0] == "push" and x[1] == "links"]
            asked = [x for x in t.ev if x[0] == LINKS]
            if not (t.end and t.role == "Static"):
                c.require(not pushes and not asked, "elsewhere", pushes[0][1] if pushes else where, "links are added by a turn that is not at an endpoint", t.det)
                continue
            c.count("endpoints")
            if c.require(len(asked) == 1, "asked", where, "the item of an endpoint is asked for its links %d times" % len(asked), t.det):
                x = asked[0]
                c.require(bare_ref(x[2][0]) is search.item_of(s, t.node), "asked-item", x[1], "another handler than the item of the endpoint is asked for links", t.det)
                b = x[2][1]
                c.require(eng.sel(b, ("f", 0, L.path)).op == "vnew" and L.rest(eng, t.v, b, None), "base-link", x[1], "the links of an endpoint's item do not start at the endpoint: %s" % short(b), t.det)
                c.require(any(y[0] == "done" and y[1] is x[3] for y in t.ev), "item-links", where, "the links of the endpoint's item are not gone through", t.det)
            m = eng.sel(t.node, ("f", 0, s.static))
            c.require(any(y[0] == "done" and y[1] is m for y in t.ev), "static-children", where, "the static children are not gone through", t.det)
            optional_links(c, L, eng, t.v, pushes, t.node, (("VariableSegment", s.var), ("VariableSequence", s.wild)), None, where, t.det)
        # one link per static child, one per link of the item
        seqs = []
        for ev, v, e in sequences(eng, ()):
            if any(x[0] == "pop" for x in ev):
                continue
            seqs.append((tuple(("push", x[2], x[3]) if x[0] == "push" and x[1] == "links" else x for x in ev if not (x[0] == "push" and x[1] != "links")), v, None))
        static_turns(c, L, eng, seqs, s.is_static, None, lambda x: T("mkey", x[1], x[2]), where)
        method = E.of(eng, env, E.ctx, E.method)
        for ev, v, e in seqs:
            for k, x in enumerate(ev):
                if x[0] != "each" or not links(x[1]):
                    continue
                turn, closed = turn_of(ev, k)
                det = trace_text(ev) + facts_text(v.facts)
                el = T("elem", x[1], "idx", x[2])
                c.count("links of items")
                o = eng.sel(el, ("f", 0, L.m))
                d = eng.known(v, eng.discr(o))
                mm = 0 if d == 0 else eng.known(v, terms.eq(eng.sel(o, ("f", 1, 0)), method))
                n = eng.known(v, T("len", eng.sel(el, ("f", 0, L.path))))
                if n is None:
                    n = eng.known(v, terms.eq(T("len", eng.sel(el, ("f", 0, L.path))), INT(0)))
                    n = None if n is None else 1 - n
                ps = [y for y in turn if y[0] == "push"]
                leave = mm == 1 and n == 0
                keep = mm == 0 or n is not None and n != 0
                if not c.require(leave or keep, "item-link", where, "the links of an item are not told apart by method and path", det):
                    continue
                if leave:
                    c.require(not ps, "own-link", where, "the endpoint's own link for the current method is included", det)
                else:
                    c.require(len(ps) == 1 and same(eng, v, ps[0][2], el), "item-link-kept", where, "a link of the endpoint's item is left out or changed", det)
        # sorted and without duplicates
        for ev, v, e in sequences(eng, s.exits):
            for x in ev:
                if x[0] != REQ:
                    continue
                h = E.of(eng, x[2][1], E.ctx, E.links)
                src = Origins(c, eng, E, env, [y for q in s.exits for y in q.trace] + pattern_events(eng), lambda y: s.kept if y.args[0] is search.MATCHES else None).of(h)
                c.count("lists of links handed over")
                for h in src:
                    names = []
                    while h.op == "upd":
                        names.append(h.args[0].split("::")[-1])
                        h = h.args[2]
                    good = h.op == "vnew" or h is search.LINKSV and len(names) == 2 and names[0].startswith("dedup") and names[1].startswith("sort")
                    c.require(good, "duplicates", x[1], "an endpoint does not get the list of links that were found, without duplicates: %s" % short(h), trace_text(ev))


@prop("C23")
def c23(c):
    c.rule("with the search for hyperlinks off, a tree router hands over an empty list; with it on, the list that was collected, after sort and dedup")
    c.rule("each endpoint adds one link per static child with its label, one for a variable and one for a sequence if present, and every link of its item except the empty path with the current method")
    c.rule("hyperlinks() of each router: all links of all handlers it has, from the base link it was given; a method router sets the link's method to the handler's")
    p = c.p
    w = W(c)
    E = Env(c)
    L = Links(c, w, E)
    if not (w.good and E.good and L.good):
        return
    endpoint(c, w, E, L)
    routers_links(c, w, E, L)
    c.floor("searches", 2)
    c.floor("requests without hyperlinks", 1)
    c.floor("endpoints", 4)
    c.floor("links of static children", 3)
    c.floor("links of items", 4)
    c.floor("lists of links handed over", 2)
    c.floor("routers", 8)


def routers_links(c, w, E, L):
    p = c.p
    me = T("deref", T("param", 1))
    base = T("param", 2)
    for f in impls(c, "hyperlinks", "HandleRequest"):
        k = kind_of_self(c, f)
        where = c.where(f)
        sty = p.types[f["ins"][0]]["e"]
        maps = maps_of(c, k) if c.struct(k) else []
        static = c.field(k, lambda n, t: p.tname(t) == "HashMap") if k == "TreeRouter" else None
        mapv = None
        if maps:
            mapv = fld(me, 0, maps[0][0])
        origin = {}

        def pred(eng, m):
            return m is mapv or m.op == "call" and m in eng.origin and last2(eng.origin[m].name) == LINKS

        def rel(eng, st, call, res):
            if res is None or last2(call.name) != LINKS:
                return None
            return (LINKS, p.where(call.span) if call.span and call.span[1] else where, tuple(eng.deepval(st, a) for a in call.args), res)
        eng = c.engine(rel=rel, rel_assume=going(pred), opaque=lambda cc: last2(cc["short"]) == LINKS and cc.get("kind") in ("param", "virtual"), keep_facts=lambda t: True)
        eng.models = Pushes(c, L.wanted, lambda call: p.where(call.span) if call.span and call.span[1] else where)
        ex = c.run(eng, f, mon=UNIT)
        exits = [e for e in ex or () if e.kind == "return"]
        seqs = sequences(eng, exits)
        c.count("routers")
        # who is asked, with what
        asked = {}
        for ev, v, e in seqs:
            for j, x in enumerate(ev):
                if x[0] != LINKS:
                    continue
                asked.setdefault(x[3], (x, v, ev))
                h = bare(x[2][0])
                b = x[2][1]
                det = trace_text(ev)
                c.count("handlers asked")
                if maps and k != "TreeRouter":
                    turns = [y for y in ev[:j] if y[0] == "each" and y[1] is mapv]
                    i = turns[-1][2] if turns else INT(0)
                    c.require(h.op == "mval" and h.args[0] is mapv and h.args[1] is i or h is T("elem", mapv, "key", T("mkey", mapv, i)), "handler:" + k, x[1], "another handler than that of this turn is asked: %s" % short(h), det)
                    if maps[0][1] == "Method":
                        m = eng.sel(b, ("f", 0, L.m))
                        c.require(m.op == "agg" and m.args[1] == 1 and bare(m.args[2][0]) is T("mkey", mapv, i), "method:" + k, x[1], "the links of a handler are not labelled with its method: %s" % short(m), det)
                    else:
                        c.require(same(eng, v, eng.sel(b, ("f", 0, L.m)), eng.sel(base, ("f", 0, L.m))), "base:" + k, x[1], "a handler's links do not start from the given base", det)
                    for fi in (L.path, L.handler):
                        c.require(same(eng, v, eng.sel(b, ("f", 0, fi)), eng.sel(base, ("f", 0, fi))), "base:" + k, x[1], "a handler's links do not start from the given base", det)
                else:
                    c.require(same(eng, v, b, base), "base:" + k, x[1], "a handler's links do not start from the given base: %s" % short(b), det)
        # all that was asked is returned
        for ev, v, e in seqs:
            for j, x in enumerate(ev):
                det = trace_text(ev)
                if x[0] == "each" and x[1] in asked:
                    turn, closed = turn_of(ev, j)
                    if e is not None and not closed:
                        c.require(False, "left-early:" + k, where, "links of a handler are left out", det)
                        continue
                    ps = [y for y in turn if y[0] == "push"]
                    c.require(len(ps) == 1 and same(eng, v, ps[0][2], T("elem", x[1], "idx", x[2])), "passed-on:" + k, where, "a link of a handler is left out or changed", det)
                if x[0] == "each" and x[1] is mapv and k != "TreeRouter":
                    turn, closed = turn_of(ev, j)
                    c.require(len([y for y in turn if y[0] == LINKS]) == 1, "asked:" + k, where, "a handler is asked for its links %d times" % len([y for y in turn if y[0] == LINKS]), det)
                    if e is not None and not closed:
                        c.require(False, "left-early:" + k, where, "the handlers are not all asked", det)
                if x[0] == LINKS:
                    whole = e is not None and base_of(eng, e.ret) == x[3]
                    c.require(whole or any(y[0] == "done" and y[1] is x[3] for y in ev[j:]) or k == "TreeRouter" or k == "OrElse" and e is None or cat_has(e, x[3]), "returned:" + k, x[1], "the links of a handler are not returned", det)
        for e in exits:
            v = View(e)
            det = trace_text(e.trace) + facts_text(e.facts)
            calls = [x for x in e.trace if x[0] == LINKS]
            hs = [bare(x[2][0]) for x in calls]
            if maps and k != "TreeRouter":
                c.require(any(x[0] == "done" and x[1] is mapv for x in e.trace), "all:" + k, where, "the handlers are not all gone through", det)
                continue
            if k == "Option":
                d = eng.known(v, eng.discr(me))
                want = [bare(eng.sel(me, ("f", 1, 0)))] if d else []
                c.require(d is not None and hs == want, "asked:" + k, where, "not the handler that is there is asked", det)
                c.require(e.ret is calls[0][3] if calls else e.ret.op == "vnew", "returned:" + k, where, "not its links are returned", det)
            elif k == "Variables":
                fi = c.field(k, lambda n, t: n == "handler")
                c.require(hs == [bare(eng.sel(me, ("f", 0, fi)))] and e.ret is calls[0][3], "asked:" + k, where, "not the links of the wrapped handler are returned", det)
            elif k == "OrElse":
                want = [bare(eng.sel(me, ("f", 0, c.field(k, lambda n, t: n == x)))) for x in ("primary", "secondary")]
                c.require(sorted(map(short, hs)) == sorted(map(short, want)), "asked:" + k, where, "not the primary and the secondary handler are asked, once each", det)
                b = base_of(eng, e.ret)
                gone = e.trace + tuple(y for ev, _, q in seqs if q is None for y in ev)
                for x in calls:
                    c.require(b is x[3] or any(y[0] == "done" and y[1] is x[3] for y in gone) or cat_has(e, x[3]), "returned:" + k, where, "the links of a handler are not returned", det)
            elif k == "TreeRouter":
                item = c.field(k, lambda n, t: p.types[t]["k"] == "param")
                c.require(hs == [bare(eng.sel(me, ("f", 0, item)))], "asked:" + k, where, "not the item is asked for its links", det)
                b = base_of(eng, e.ret)
                c.require(bool(calls) and (b is calls[0][3] or any(y[0] == "done" and y[1] is calls[0][3] for y in e.trace)), "returned:" + k, where, "the links of the item are not returned", det)
                c.require(any(y[0] == "done" and y[1] is mapv for y in e.trace), "all:" + k, where, "the static children are not all gone through", det)
                opts = [i for i, x in enumerate(c.struct(k)["vs"][0]["fs"]) if p.tname(x[1]) == "Option"]
                var = [i for i in opts if "var" in c.struct(k)["vs"][0]["fs"][i][0]]
                optional_links(c, L, eng, v, e.trace, me, [("VariableSegment", i) for i in var] + [("VariableSequence", i) for i in opts if i not in var], base, where, det)
            else:
                own = k not in ("ContentFactory",)
                r = e.ret
                good = r.op == "vpush" and r.args[0].op == "vnew"
                if c.require(good, "own:" + k, where, "a handler does not report one link, its own", det):
                    link = r.args[1]
                    for fi in (L.m, L.path):
                        c.require(same(eng, v, eng.sel(link, ("f", 0, fi)), eng.sel(base, ("f", 0, fi))), "own-base:" + k, where, "the link of a handler is not the one it was given", det)
                    if own:
                        h = eng.sel(link, ("f", 0, L.handler))
                        c.require(h.op == "agg" and h.args[1] == 1 and (bare_ref(h.args[2][0]) in (me, T("param", 1))), "own-handler:" + k, where, "the link of a handler does not lead to it: %s" % short(h), det)
        if k == "TreeRouter":
            static_turns(c, L, eng, seqs, lambda m: m is mapv, base, lambda x: T("mkey", x[1], x[2]), where)


def base_of(eng, v):
    """what a list started as, before anything was added"""
    seen = set()
    work = [v]
    r = set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("vpush", "cat", "old"):
            work.append(x.args[0])
        elif x.op == "stale":
            work.append(T("phi", *x.args))
        elif x.op == "phi" and x in eng.phisrc:
            work.extend(s for s, l in eng.phisrc[x])
        else:
            r.add(x)
    return r.pop() if len(r) == 1 else None


def cat_has(e, x):
    return e is not None and e.ret is not None and any(y.op == "cat" and y.args[1] is x for y in subterms(e.ret))
