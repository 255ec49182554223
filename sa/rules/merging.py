"""Merging routers and handing contexts to what is in them (C21)."""
from terms import *
import terms
from engine import Engine
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import *
from rules.routers import *
from rules.links import bare
from rules import builders
from rules.builders import Parts, Texts, cow, names, unupd, unwrap, deref, PARTS, NAMES
from prog import strip_generics

ME = T("deref", T("param", 1))
OTHER = T("param", 2)


class Mem:
    """what was where when a turn began"""

    def __init__(self, mem):
        self.mem = dict(mem)
        self.h = frozenset(self.mem.items())

    def __eq__(self, o):
        return isinstance(o, Mem) and self.h == o.h

    def __hash__(self):
        return hash(self.h)

    def __repr__(self):
        return "Mem"


class Going(Texts):
    """the usual models, which tell when a collection is gone through"""

    def find(self, eng, cc):
        g = Texts.find(self, eng, cc)
        if g is None or last2(cc["short"]) not in ("Iterator::next", "DoubleEndedIterator::next_back"):
            return g

        def h(eng, st, call, ret):
            it = eng.load(st, *eng.target(call.args[0]))
            r = g(eng, st, call, ret)
            if not r or it.op != "agg" or not str(it.args[0]).startswith("it:"):
                return r
            n = it.args[2][3]
            src, i = n.args[0] if n.op == "len" else n, it.args[2][1]
            for x in r:
                s2 = x[0]
                if x[1].op == "agg" and x[1].args[1] == 1:
                    s2.trace = s2.trace + (("each", src, i, Mem(s2.mem)),)
                else:
                    s2.trace = s2.trace + (("done", src, i, eng.load(s2, *eng.target(T("param", 1)))),)
            return r
        return h


class Turns(Engine):
    """tells what every turn of every loop over a collection does"""

    turn = None

    def at_head(self, st):
        ev = [x for x in st.trace]
        i = len(ev) - 1
        while i >= 0 and ev[i][0] not in ("each", "done", "loop"):
            i -= 1
        if i >= 0 and ev[i][0] == "each" and self.turn is not None:
            self.turn(self, st, ev[i], ev[i + 1:])
        return Engine.at_head(self, st)


class Run:
    def __init__(self, c, f):
        p = c.p
        self.c, self.f = c, f

        def kind(cc):
            s = last2(cc["short"])
            if s in PARTS or cc["short"].startswith("anymap") and s in ("Map::insert", "Map::remove", "Map::get"):
                return s
            return None

        def rel(eng, st, call, res):
            k = kind(call.c)
            if res is None or k is None:
                return None
            where = p.where(call.span) if call.span and call.span[1] else c.where(f)
            return (k, where, tuple(eng.deepval(st, x) for x in call.args), res)

        eng = self.eng = Turns(p, rel=rel, opaque=lambda cc: kind(cc) is not None, keep_facts=None)
        eng.models = Going(c, None)
        eng.join_limit = 5000
        eng.max_states = 60000

    def go(self, turn=None):
        self.eng.turn = turn
        ex = self.c.run(self.eng, self.f, mon=UNIT) or ()
        self.exits = [e for e in ex if e.kind == "return"]

    def me(self, e):
        return self.eng.load(e.st, *self.eng.target(T("param", 1)))

    def events(self, e, *kinds):
        return [x for x in e.trace if (x[0] in kinds if kinds else x[0] not in ("each", "done", "loop"))]

    def context(self, e, x):
        """(what the context was made from: param(2) | "new" | a term, its names: "same" | "none" | a term)"""
        r = "same"
        eng = self.eng
        y = x
        while y.op == "upd":
            ev = [z for z in e.trace if len(z) > 3 and z[3] is y.args[1]]
            if not ev:
                break
            k = ev[0][0]
            if k == "Map::insert":
                a = ev[0][2][1]
                if a.op == "agg" and strip_generics(a.args[0]).split("::")[-1] == NAMES:
                    n = names(a.args[2][0])
                elif NAMES in self.c.p.types[eng.origin[ev[0][3]].atys[1]]["s"]:
                    n = names(fld(a, 0, 0))
                else:
                    return x, None
            elif k == "Map::remove":
                if not self.of_names(ev[0]):
                    return x, None
                n = "none"
            else:
                break
            if r == "same":
                r = n
            y = y.args[2]
        if y.op in ("app", "call"):
            n = y.args[0] if y.op == "app" else eng.origin[y].name
            if last2(n) == "Map::new" or last2(n) == "Default::default":
                return "new", "none" if r == "same" else r
        return names(y), r

    def of_names(self, ev):
        dty = self.eng.origin[ev[3]].dty
        return dty is not None and NAMES in self.c.p.types[dty]["s"]

    def given(self, e):
        """the names in the context: None if that is not known, "none" if there are none"""
        for x in self.events(e, "Map::remove", "Map::get"):
            if not self.of_names(x):
                continue
            if self.context(e, unwrap(x[2][0]))[0] is not OTHER:
                continue
            d = self.eng.known(View(e), self.eng.discr(x[3]))
            if d == 0:
                return "none"
            if d == 1:
                y = fld(x[3], 1, 0)
                return names(fld(T("deref", y) if x[0] == "Map::get" else y, 0, 0))
        return None


def parts_of(c, f):
    """kinds of the fields of the type an operation is for: part | map | option | names | other"""
    p = c.p
    t = p.types[f["ins"][0]]
    t = p.types[t["e"]]
    if t["k"] == "param":
        return "self", t, {}
    if t["k"] != "adt":
        return None, t, {}
    if t["path"] == OPTION:
        return "option", t, {}
    if not t.get("vs") or len(t["vs"]) != 1:
        return None, t, {}
    r = {}
    for i, (n, ti) in enumerate(t["vs"][0]["fs"]):
        x = p.types[ti]
        if x["k"] == "param":
            r[i] = (n, "part")
        elif p.tname(ti) == "HashMap":
            r[i] = (n, "map")
        elif p.tname(ti) == "Option":
            r[i] = (n, "option")
        elif p.tname(ti) == "Vec":
            r[i] = (n, "names")
        else:
            r[i] = (n, "other")
    return "struct", t, r


def box(x):
    """what an optional (boxed) child is"""
    x = bare(x)
    while x.op == "deref" or x.op == "fld" and x.args[1:] == (0, 0):
        x = x.args[0]
    return x


def value(x):
    """the value a call was told to change, before it did"""
    x = unwrap(x)
    return x


@prop("C21")
def c21(c):
    c.rule("merge: every part of a router is merged once with the same part of the other; of the entries of the other's map each one is put where there is none under its key and merged into the one that is there otherwise; a missing child is replaced by the other's, and two are merged")
    c.rule("a handler is replaced by the other; the names of the other are kept")
    c.rule("apply_context, prepend_context: every part, entry and child gets the context exactly once; an item of a tree router gets the names in front of its own")
    c.rule("Builder::merge: the other router gets the builder's context, with the names on the way, and is then merged into the router of the builder")
    p = c.p
    P = Parts(c)
    if not P.good:
        return
    found = 0
    for f in p.fns:
        tr = strip_generics(f.get("trait") or "").split("::")[-1]
        if f["body"] is None or tr not in ("Merge", "ApplyContext"):
            continue
        found += 1
        if tr == "Merge":
            merge(c, P, f)
        else:
            apply(c, P, f)
    builder(c, P)
    c.require(found >= 21, "anchor:impls", "-", "implementations of merging are missing: %d found" % found)
    c.floor("parts merged", 5)
    c.floor("maps merged", 9)
    c.floor("children merged", 18)
    c.floor("turns merging a map", 12)
    c.floor("handlers replaced", 2)
    c.floor("parts with context", 10)
    c.floor("maps with context", 18)
    c.floor("children with context", 20)
    c.floor("names in front", 3)
    c.floor("names set", 1)
    c.floor("mergers in builders", 3)


def merge(c, P, f):
    p = c.p
    k, t, fs = parts_of(c, f)
    where = c.where(f)
    name = p.last(t["path"]) if t["k"] == "adt" else "handler"
    key = lambda s: s + ":" + name
    maps = [i for i in fs if fs[i][1] == "map"]
    bad = set()

    def turn(eng, st, each, ev):
        """one entry of the other's map"""
        src, i = each[1], each[2]
        fi = [j for j in maps if src is fld(OTHER, 0, j)]
        det = trace_text(tuple(x for x in ev)) + facts_text(st.facts)
        if not fi:
            c.violation(key("turn"), where, "something else than the other's entries is gone through: %s" % short(src), det)
            return
        j = fi[0]
        c.count("turns merging a map")
        now = Engine.sel(eng, eng.load(st, *eng.target(T("param", 1))), ("f", 0, j))
        before = eng.sel(self_before(eng, each[3], st), ("f", 0, j))
        kk = T("mkey", src, i)
        new = T("elem", src, "key", kk)
        h = eng.known(View(st), T("has", before, kk))
        if not c.require(h is not None, key("known"), where, "it is not looked up whether there is an entry under the key of the other's", det):
            return
        ms = [x for x in ev if x[0] == "Merge::merge"]
        if h == 0:
            c.require(not ms and now is T("set", before, ("key", kk), new), key("new"), where, "an entry of the other router is not put under its key, where there is none: %s" % short(now), det)
        else:
            good = len(ms) == 1 and bare(ms[0][2][1]) is new
            old = T("elem", before, "key", kk)
            if c.require(good, key("both"), where, "two entries under the same key are not merged once: %s" % short([x[2] for x in ms]), det):
                r = ms[0][3]
                c.require(unupd(value(ms[0][2][0]), r) is old, key("both-where"), ms[0][1], "an entry is merged into another one than that under its key: %s" % short(ms[0][2][0]), det)
                c.require(now.op == "set" and now.args[0] is before and now.args[1] == ("key", kk) and unupd(now.args[2], r) is old and now.args[2] is not old, key("both-kept"), where, "a merged entry does not stay under its key: %s" % short(now), det)

    R = Run(c, f)
    R.go(turn)
    eng = R.eng
    c.require(R.exits, key("returns"), where, "merging never returns")
    for e in R.exits:
        v = View(e)
        det = trace_text(e.trace) + facts_text(e.facts)
        me = R.me(e)
        ev = R.events(e)
        if k == "self" or k == "struct" and not any(x[1] in ("map", "option", "names") for x in fs.values()) and len(fs) == 1:
            c.count("handlers replaced")
            whole = me is OTHER or k == "struct" and all(eng.sel(me, ("f", 0, i)) is fld(OTHER, 0, i) for i in fs)
            c.require(whole and not ev, key("replace"), where, "a handler is not replaced by the other: %s" % short(me), det)
            continue
        if k == "option":
            child(c, R, e, ev, ME, OTHER, me, key, "it", where, det)
            c.require(not ev, key("more"), where, "more is merged: %s" % short([x[2] for x in ev]), det)
            continue
        if not c.require(k == "struct", key("kind"), where, "it is not known how these are merged"):
            return
        for i in sorted(fs):
            n, kind = fs[i]
            old, new, now = fld(ME, 0, i), fld(OTHER, 0, i), eng.sel(me, ("f", 0, i))
            if kind == "part":
                c.count("parts merged")
                m = [x for x in ev if x[0] == "Merge::merge" and bare(x[2][1]) is new]
                if c.require(len(m) == 1, key("part-" + n), where, "%s is not merged once with the other's: %d" % (n, len(m)), det):
                    ev.remove(m[0])
                    c.require(unupd(value(m[0][2][0]), m[0][3]) is old and now is not old and unupd(now, m[0][3]) is old, key("part-into-" + n), m[0][1], "the other's %s is not merged into this one's: %s" % (n, short(m[0][2][0])), det)
            elif kind == "names":
                c.require(now is new, key("names"), where, "the names of the other are not kept: %s" % short(now), det)
            elif kind == "option":
                child(c, R, e, ev, old, new, now, key, n, where, det)
            elif kind == "map":
                c.count("maps merged")
                d = [x for x in e.trace if x[0] == "done" and x[1] is new]
                if not d and now is old and eng.known(v, T("len", new)) == 0:
                    continue
                if c.require(len(d) == 1, key("all-" + n), where, "not all entries of the other's %s are gone through once" % n, det):
                    m = eng.sel(d[0][3], ("f", 0, i))
                    c.require(m is now, key("later-" + n), where, "%s is changed after merging: %s" % (n, short(now)), det)
                    c.require(d[0][2] is not INT(0) or now is old, key("kept-" + n), where, "%s is changed although the other has no entries: %s" % (n, short(now)), det)
        c.require(not ev, key("more"), where, "more is merged: %s" % short([x[2] for x in ev]), det)


def self_before(eng, mem, st):
    """self when a turn began"""
    s2 = st.__class__.__new__(st.__class__)
    s2.__dict__.update(st.__dict__) if hasattr(st, "__dict__") else None
    for a in getattr(st.__class__, "__slots__", ()):
        if hasattr(st, a):
            setattr(s2, a, getattr(st, a))
    s2.mem = dict(mem.mem)
    return eng.load(s2, *eng.target(T("param", 1)))


def child(c, R, e, ev, old, new, now, key, n, where, det):
    """an optional part"""
    eng = R.eng
    v = View(e)
    a, b = eng.known(v, eng.discr(old)), eng.known(v, eng.discr(new))
    c.count("children merged")
    here, there = box(fld(old, 1, 0)), box(fld(new, 1, 0))
    ms = [x for x in ev if x[0] == "Merge::merge" and box(x[2][1]) is there]
    for x in ms:
        ev.remove(x)
    if ms:
        c.require(len(ms) == 1 and box(unupd(value(ms[0][2][0]), ms[0][3])) is here, key("child-" + n), ms[0][1], "%s of the other is not merged once into the same of this one: %s" % (n, short(ms[0][2][0])), det)
        c.require(box(unupd(eng.sel(now, ("f", 1, 0)), ms[0][3])) is here, key("child-kept-" + n), where, "%s does not stay after merging: %s" % (n, short(now)), det)
        c.require(a == 1 and b == 1, key("child-there-" + n), where, "it is not known that both have %s" % n, det)
        return
    if now is new or now.op == "agg" and eng.known(v, eng.discr(now)) == 1 and b == 1 and box(unwrapbox(eng.sel(now, ("f", 1, 0)))) is there:
        c.require(a == 0, key("child-lost-" + n), where, "%s is replaced by the other's although there may be one" % n, det)
        return
    if now is old:
        c.require(b == 0, key("child-missing-" + n), where, "%s of the other is not kept" % n, det)
        return
    c.require(a == 0 and b == 0 and eng.known(v, eng.discr(now)) == 0, key("child-else-" + n), where, "%s is neither this one's nor the other's: %s" % (n, short(now)), det)


def unwrapbox(x):
    while x.op == "agg" and len(x.args[2]) >= 1 or x.op == "app" and len(x.args[1]) == 1:
        x = x.args[2][0] if x.op == "agg" else x.args[1][0]
    return x


def apply(c, P, f):
    p = c.p
    k, t, fs = parts_of(c, f)
    where = c.where(f)
    name = p.last(t["path"]) if t["k"] == "adt" else "handler"
    m = "ApplyContext::" + f["name"]
    front = f["name"].startswith("prepend")
    key = lambda s: s + ":" + name + ":" + ("prepend" if front else "apply")
    maps = [i for i in fs if fs[i][1] == "map"]
    vecs = [i for i in fs if fs[i][1] == "names"]
    pushed = {}

    def turn(eng, st, each, ev):
        src, i = each[1], each[2]
        det = trace_text(tuple(ev)) + facts_text(st.facts)
        before = self_before(eng, each[3], st)
        me = eng.load(st, *eng.target(T("param", 1)))
        j = [j for j in maps if src in (fld(ME, 0, j), eng.sel(before, ("f", 0, j)))]
        if j:
            j = j[0]
            c.count("turns with context")
            now = eng.sel(me, ("f", 0, j))
            ms = [x for x in ev if x[0] in PARTS]
            if not c.require(len(ms) == 1 and ms[0][0] == m, key("entry"), where, "an entry does not get the context once: %s" % [x[0] for x in ms], det):
                return
            x = unupd(value(ms[0][2][0]), ms[0][3])
            good = x.op == "elem" and x.args[1] == "key" and x.args[2].op == "mkey" and x.args[2].args[1] is i and x.args[0] in (src, eng.sel(before, ("f", 0, j)))
            c.require(good, key("entry-which"), ms[0][1], "not the entry at hand gets the context: %s" % short(x), det)
            e = Pseudo(st)
            base, n = R.context(e, ms[0][2][1])
            given = R.given(e)
            full = base is OTHER and (n == "same" or given is not None and n is given or given == "none" and n == "none")
            c.require(full, key("context-entry"), ms[0][1], "an entry gets another context than the given one: %s" % short((base, n)), det)
            b = eng.sel(before, ("f", 0, j))
            c.require(now.op == "set" and now.args[0] is b and now.args[1] == ("key", x.args[2]) and now.args[2] is not x and unupd(now.args[2], ms[0][3]) is x, key("entry-kept"), where, "an entry does not stay under its key: %s" % short(now), det)
            return
        if vecs and src is fld(ME, 0, vecs[0]):
            # the names that were there, one after the other: some list gets each of them
            el = T("elem", src, "idx", i)
            places = set()
            b, n = places_of(eng, each[3].mem, vecs[0]), places_of(eng, st.mem, vecs[0])
            for w in n:
                if n[w].op == "vpush" and n[w].args[1] is el and w in b and n[w].args[0] is b[w]:
                    places.add(w)
            c.count("turns over names")
            pushed.setdefault(src, []).append(places)
            return
        c.violation(key("turn"), where, "something else than the entries of this router is gone through: %s" % short(src), det)

    R = Run(c, f)
    R.go(turn)
    eng = R.eng
    c.require(R.exits, key("returns"), where, "it never returns")
    for e in R.exits:
        v = View(e)
        det = trace_text(e.trace) + facts_text(e.facts)
        me = R.me(e)
        ev = R.events(e, *PARTS)
        if k == "self" or k == "struct" and len(fs) == 1 and not maps:
            c.require(me is ME and not ev, key("same"), where, "a handler is changed: %s" % short(me), det)
            continue
        given = R.given(e)

        def hands(part, x, what):
            """x gets the whole context"""
            base, n = R.context(e, x[2][1])
            full = base is OTHER and (n == "same" or n is given or given == "none" and n == "none")
            c.require(full, key("context-" + what), x[1], "%s gets another context than the given one: %s" % (what, short((base, n))), det)

        if k == "option":
            optional(c, R, e, ev, m, ME, me, key, "it", where, det, hands)
            c.require(not ev, key("more"), where, "more is given a context", det)
            continue
        if not c.require(k == "struct", key("kind"), where, "it is not known how these get a context"):
            return
        # the context of the entries, in loops
        for i in sorted(fs):
            n, kind = fs[i]
            old, now = fld(ME, 0, i), eng.sel(me, ("f", 0, i))
            if kind == "part":
                c.count("parts with context")
                mine = [x for x in ev if root_of(R, x) is old]
                for x in mine:
                    ev.remove(x)
                if not c.require(mine, key("part-" + n), where, "%s does not get the context" % n, det):
                    continue
                if vecs or name == "TreeRouter" and not front:
                    # names stay here, or go in front of those of the item
                    if not c.require(given is not None, key("names-known"), where, "it is not looked up whether there are names", det):
                        continue
                    rest = [x for x in mine if x[0] == m]
                    if c.require(len(rest) == 1, key("part-" + n), where, "%s does not get the context once: %s" % (n, [x[0] for x in mine]), det):
                        base, nn = R.context(e, rest[0][2][1])
                        c.require(base is OTHER and (nn == "none" or given == "none" and nn == "same"), key("rest-" + n), rest[0][1], "%s does not get the context without the names: %s" % (n, short((base, nn))), det)
                    pre = [x for x in mine if x[0] != m]
                    if vecs or given == "none":
                        ok_ = not pre or not vecs and all(R.context(e, x[2][1]) == ("new", "none") for x in pre)
                        c.require(ok_, key("twice-" + n), where, "%s gets more than the context" % n, det)
                    elif not pre and not isinstance(given, str) and eng.known(v, T("len", given)) == 0:
                        c.count("no names in front")
                    elif c.require(len(pre) == 1 and pre[0][0] == PARTS[2], key("front-" + n), where, "the names are not put in front of those of %s once" % n, det):
                        c.count("names in front")
                        base, nn = R.context(e, pre[0][2][1])
                        c.require(base == "new" and nn is given, key("front-names-" + n), pre[0][1], "not exactly the given names are put in front of those of %s: %s" % (n, short((base, nn))), det)
                elif c.require(len(mine) == 1 and mine[0][0] == m, key("part-" + n), where, "%s does not get the context once: %s" % (n, [x[0] for x in mine]), det):
                    hands(n, mine[0], n)
                c.require(back(now, mine) is old and now is not old, key("part-kept-" + n), where, "%s does not stay: %s" % (n, short(now)), det)
            elif kind == "names":
                if given is None:
                    continue
                if given == "none":
                    if front and now is not old:
                        appended(c, R, e, i, T("vnew"), old, now, pushed, key, where, det)
                    else:
                        c.require(now is old, key("names-kept"), where, "the names are changed although none are given: %s" % short(now), det)
                elif front:
                    c.count("names in front")
                    appended(c, R, e, i, given, old, now, pushed, key, where, det)
                else:
                    c.count("names set")
                    c.require(names(now) is given, key("names-set"), where, "the given names are not used: %s" % short(now), det)
            elif kind == "option":
                optional(c, R, e, ev, m, old, now, key, n, where, det, hands)
            elif kind == "map":
                c.count("maps with context")
                d = [x for x in e.trace if x[0] == "done" and (x[1] is old or x[1] is eng.sel(x[3], ("f", 0, i)))]
                if c.require(len(d) == 1, key("all-" + n), where, "not all entries of %s are gone through once" % n, det):
                    mm = eng.sel(d[0][3], ("f", 0, i))
                    c.require(mm is now, key("later-" + n), where, "%s is changed afterwards: %s" % (n, short(now)), det)
                    c.require(d[0][2] is not INT(0) or now is old, key("kept-" + n), where, "%s is changed although it has no entries: %s" % (n, short(now)), det)
                for x in [x for x in ev if x[2] and inside(eng, x, i)]:
                    ev.remove(x)
            else:
                c.require(now is old, key("changed-" + n), where, "%s is changed: %s" % (n, short(now)), det)
        c.require(not ev, key("more"), where, "more is given a context: %s" % short([x[2] for x in ev]), det)


class Pseudo:
    """a turn, as if it were an exit"""

    def __init__(self, st):
        self.trace = st.trace
        self.facts = st.facts
        self.mem = st.mem
        self.st = st


def places_of(eng, mem, fi):
    """lists, by place"""
    r = {}
    for root, x in mem.items():
        if x.op == "with":
            for vi, i, y in x.args[1]:
                r[(root, vi, i)] = y
        r[(root,)] = x
    return r


def appended(c, R, e, fi, given, old, now, pushed, key, where, det):
    """the names that were there follow the given ones"""
    eng = R.eng
    if names(now) is T("cat", names(given), old):
        return
    d = [x for x in e.trace if x[0] == "done" and x[1] is old]
    if not c.require(len(d) == 1, key("names-all"), where, "not all names that were there are kept: %s" % short(now), det):
        return
    if d[0][2] is INT(0):
        c.require(names(now) is names(given), key("names-front"), where, "the given names are not put in front: %s" % short(now), det)
        return
    turns = pushed.get(old, [])
    common_ = set.intersection(*turns) if turns else set()
    if not c.require(common_, key("names-each"), where, "the names that were there are not all put behind the given ones", det):
        return
    # what is at the place of the list in the end is what there is in self
    x = names(now)
    while x.op == "vpush":
        x = x.args[0]
    c.require(x is names(given) or x.op == "phi" and any(place_is(x, w) for w in common_), key("names-front"), where, "something else than the given names and those that were there is kept: %s" % short(now), det)


def place_is(x, w):
    r, path = x.args[1][0], x.args[1][1:]
    if r != w[0]:
        return False
    flat = [y for y in path]
    return len(w) == 1 and not flat or len(w) == 3 and len(flat) == 1 and tuple(flat[0])[-2:] == w[1:]


def inside(eng, x, i):
    y = unupd(value(x[2][0]), x[3])
    return y.op == "elem"


def root_of(R, x):
    """the part a call changes, before any of the calls"""
    y = unwrap(x[2][0])
    while y.op == "upd":
        y = y.args[2]
    return y


def back(x, evs):
    rs = [y[3] for y in evs]
    while x.op == "upd" and any(x.args[1] is r for r in rs):
        x = x.args[2]
    return x


def optional(c, R, e, ev, m, old, now, key, n, where, det, hands):
    eng = R.eng
    v = View(e)
    c.count("children with context")
    a = eng.known(v, eng.discr(old))
    here = box(fld(old, 1, 0))
    ms = [x for x in ev if box(unupd(value(x[2][0]), x[3])) is here]
    for x in ms:
        ev.remove(x)
    if a == 0:
        c.require(not ms, key("child-none-" + n), where, "%s gets a context although there is none" % n, det)
        c.require(now is old or eng.known(v, eng.discr(now)) == 0, key("child-kept-" + n), where, "%s is changed: %s" % (n, short(now)), det)
        return
    if c.require(len(ms) == 1 and ms[0][0] == m, key("child-" + n), where, "%s does not get the context once: %s" % (n, [x[0] for x in ms]), det):
        hands(n, ms[0], n)
        c.require(now is old or box(unupd(eng.sel(now, ("f", 1, 0)), ms[0][3])) is here, key("child-kept-" + n), where, "%s does not stay: %s" % (n, short(now)), det)


def builder(c, P):
    p = c.p
    for mod in ("tree_router", "method_router", "status_router"):
        if not c.require("merge" in P.by[mod], "anchor:merge:" + mod, "-", "there is no merge"):
            continue
        f, t = P.by[mod]["merge"]
        F = P.fields(t)
        where = c.where(f)
        R = Run(c, f)
        R.go()
        c.require(R.exits, "returns:" + mod, where, "merge never returns")
        node = fld(ME, 0, F["node"])
        for e in R.exits:
            c.count("mergers in builders")
            ev = R.events(e, *PARTS)
            det = trace_text(e.trace) + facts_text(e.facts)
            if not c.require([x[0] for x in ev] == [PARTS[1], PARTS[0]], "order:" + mod, where, "the other router does not get a context and is then merged: %s" % [x[0] for x in ev], det):
                continue
            a, m = ev
            other = value(a[2][0])
            c.require(unupd(other, a[3]) is OTHER, "context-to:" + mod, a[1], "not the other router gets the context: %s" % short(other), det)
            base, n = R.context(e, a[2][1])
            want = fld(ME, 0, F["context"])
            if "variables" in F:
                c.require(base is names(want) or builders.cow(want) is base or same_cow(R, e, base, want), "context:" + mod, a[1], "the other router does not get the context of the builder: %s" % short(base), det)
                v = fld(ME, 0, F["variables"])
                none = n in ("same", "none") and any(R.eng.known(View(e), T("len", x)) == 0 for x in (builders.cow(v), T("cowval", v), fld(v, 1, 0), T("deref", fld(v, 0, 0))))
                c.require(none or not isinstance(n, str) and n is not None and (n is builders.cow(v) or same_cow(R, e, n, v)), "names:" + mod, a[1], "the other router does not get the names on the way: %s" % short(n), det)
            else:
                c.require(base is names(want) and n == "same", "context:" + mod, a[1], "the other router does not get the context of the builder: %s" % short((base, n)), det)
            x = m[2][1]
            c.require(x.op == "upd" and x.args[1] is a[3] and unupd(x, a[3]) is OTHER, "other:" + mod, m[1], "not the other router with its context is merged: %s" % short(x), det)
            x = unupd(value(m[2][0]), m[3])
            c.require(x in (node, T("deref", node)), "into:" + mod, m[1], "the other router is not merged into that of the builder: %s" % short(x), det)
            c.require(builders.bare_ref(e.ret) in (T("param", 1), ME), "result:" + mod, where, "not this builder is returned: %s" % short(e.ret), det)


def same_cow(R, e, x, v):
    return x is T("cowval", v)
