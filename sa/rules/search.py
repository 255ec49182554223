"""The search of the tree router (C16, C17, C18, C22, C23)."""
from terms import *
import terms
import models as base_models
from engine import Engine
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import *
from rules.response import W
from rules.server import status, is_status
from rules.sending import statuses
from rules.routers import *
from models import some, NONE

COLL = ("stack", "matches", "links")
STACK, MATCHES, LINKSV = (T("coll", n) for n in COLL)


class Models:
    """the usual models; the stack of the search, the matches and the links that were found are kept as unordered
    collections whose entries are judged when they are added"""

    def __init__(self, rule):
        self.rule = rule

    def __getattr__(self, n):
        return getattr(base_models, n)

    def find(self, eng, cc):
        s = cc["short"]
        f = base_models.find(eng, cc)
        if s == "synth::push":
            ti = cc["elem"] if cc["kind2"] == "vec" else None
        else:
            ti = cc["args"][0] if cc.get("args") else None
        kind = self.rule.kind(ti) if ti is not None else None
        if kind is None:
            return f
        if s in ("Vec::push", "synth::push"):
            def g(eng, st, call, ret):
                root, path = eng.target(call.args[0])
                x = call.args[1]
                if s == "synth::push" and call.c["copy"]:
                    x = eng.load(st, *eng.target(x))
                if kind is MATCHES:
                    self.rule.kept.append(x)
                st.trace = st.trace + (("push", kind.args[0], self.rule.at(eng, call, st), eng.deepval(st, x)),)
                eng.store(st, root, path, kind)
                changed(st, kind)
                return [(st, UNIT)]
            return g
        if s == "Vec::pop":
            def g(eng, st, call, ret):
                if kind is not STACK:
                    return f(eng, st, call, ret)
                n = eng.freshterm(st, call.site[0], call.site[2], "pop")
                self.rule.found(eng, st)
                s2 = st.clone()
                st.trace = st.trace + (("pop", n, self.rule.current_marks(eng, st)),)
                s2.trace = s2.trace + (("empty", self.rule.any_matches(eng, s2)),)
                changed(st, kind)
                return [(st, some(n)), (s2, NONE)]
            return g
        if f is not None and ("into_vec" in s or s == "FromIterator::from_iter" or s.endswith("::collect")):
            def g(eng, st, call, ret):
                out = []
                r = f(eng, st, call, ret)
                for a, b in r or ():
                    if b is not None and b.op == "vpush":
                        xs = []
                        x = b
                        while x.op == "vpush":
                            xs.append(x.args[1])
                            x = x.args[0]
                        for x in reversed(xs):
                            if kind is MATCHES:
                                self.rule.kept.append(x)
                            a.trace = a.trace + (("push", kind.args[0], self.rule.at(eng, call, a), eng.deepval(a, x)),)
                        b = kind
                    out.append((a, b))
                return out if r is not None else None
            return g
        return f


def changed(st, kind):
    """the number of elements is another one now"""
    n = T("len", kind)
    for t in [t for t in st.facts if t is n or n in t.args]:
        del st.facts[t]


class SearchEngine(Engine):
    def at_head(self, st):
        hk = tuple((f.bi, f.bb) for f in st.frames)
        if self.rule.head == hk:
            self.rule.iteration(self, st)
        return Engine.at_head(self, st)

    def merge(self, o, v, pos, m, hid):
        # nothing was added yet, or something may have been
        if o.op == "coll" and v.op == "vnew":
            return o
        if v.op == "coll" and o.op == "vnew":
            return v
        return Engine.merge(self, o, v, pos, m, hid)


class Search:
    def __init__(self, c, f, w, E, mode):
        self.c, self.f, self.w, self.E, self.mode = c, f, w, E, mode
        p = c.p
        self.head = None
        self.start = []
        self.kept = []
        self.done = []
        self.tree = c.struct("TreeRouter")
        self.route = c.struct("RouteState")
        t = self.tree["vs"][0]["fs"]
        self.item = c.field("TreeRouter", lambda n, t: p.types[t]["k"] == "param")
        self.static = c.field("TreeRouter", lambda n, t: p.tname(t) == "HashMap")
        opts = [i for i, x in enumerate(t) if p.tname(x[1]) == "Option"]
        self.var = [i for i in opts if "var" in t[i][0]]
        self.wild = [i for i in opts if i not in self.var]
        self.flag = c.field("TreeRouter", lambda n, t: p.tname(t) == "bool")
        rt = self.route["vs"][0]["fs"]
        vecs = [i for i, x in enumerate(rt) if p.tname(x[1]) == "Vec"]
        self.rvec = [i for i in vecs if p.tname(p.types[rt[i][1]]["args"][0]) != "Option"]
        self.marks = [i for i in vecs if i not in self.rvec]
        self.nums = [i for i, x in enumerate(rt) if p.tname(x[1]) == "usize"]
        self.idx = [i for i in self.nums if "var" not in rt[i][0]]
        self.vidx = [i for i in self.nums if i not in self.idx]
        self.good = None not in (self.item, self.static, self.flag) and all(len(x) == 1 for x in (self.var, self.wild, self.rvec, self.marks, self.idx, self.vidx))
        if not self.good:
            c.violation("anchor:search", "-", "the parts of the tree router or of the route state cannot be told apart")
            return
        self.var, self.wild, self.rvec, self.marks, self.idx, self.vidx = (x[0] for x in (self.var, self.wild, self.rvec, self.marks, self.idx, self.vidx))
        en = c.struct("Branch")
        self.roles = {}
        if en is not None:
            self.roles = {n: i for i, x in enumerate(en["vs"]) for n in ("Static", "Variable", "Wildcard") if x["n"] == n}
        self.branch = en["path"] if en is not None else None
        self.env = T("param", 2)
        self.rs = self.E.of
        self.iters = 0
        self.run()

    # ---- what is what
    def kind(self, ti):
        """which collection a vector of such elements is"""
        p = self.c.p
        t = p.types[ti]
        if t["k"] == "slice" or t["k"] == "array":
            t = p.types[t["e"]]
        s = t["s"]
        if p.tname(ti) == "Link" or t["k"] == "adt" and p.last(t["path"]) == "Link":
            return LINKSV
        if t["k"] == "tuple" or t["k"] == "adt" and t.get("local"):
            fs = t["fs"] if t["k"] == "tuple" else [x[1] for x in t["vs"][0]["fs"]]
            names = [p.types[x]["s"] for x in fs]
            if any("TreeRouter<" in n for n in names):
                return STACK
            if any("RouteState" in n for n in names):
                return MATCHES
        return None

    def at(self, eng, call, st):
        return self.c.p.where(call.span) if call.span and call.span[1] else self.c.where(self.f)

    def found(self, eng, st):
        """the loop that takes entries from the stack"""
        if self.head is not None:
            return
        self.start = [x[3] for x in st.trace if x[0] == "push" and x[1] == "stack"]
        here = [hid for hid in st.snaps if not isinstance(hid, tuple) and tuple((f.bi, f.bb) for f in st.frames[:len(eng._hidrev[hid]) - 1]) == eng._hidrev[hid][:-1]
                and eng._hidrev[hid][-1][0] == st.frames[len(eng._hidrev[hid]) - 1].bi]
        if here:
            self.head = eng._hidrev[here[-1]]

    def run(self):
        c, p = self.c, self.c.p

        def rel(eng, st, call, res):
            if res is None or not is_app(call.c):
                return None
            where = p.where(call.span) if call.span and call.span[1] else c.where(self.f)
            return (last2(call.name), where, tuple(eng.deepval(st, a) for a in call.args), res, st.mon)

        def sp(eng, st, call, res):
            if last2(call.name) == REQ:
                return [(ok(UNIT), T("agg", "accepted", 0, ())), (err(fld(res, 1, 0)), st.mon)]
            return None

        def assumed(eng, st, t, v):
            # going through the children, and through the links of an item
            x = counted(t, v)
            if x is None:
                return
            m, i, more = x
            if m is STACK and not more and i is INT(0):
                st.trace = st.trace + (("empty", self.any_matches(eng, st)),)
            elif self.is_static(m) or m is MATCHES or m.op == "call" and m in eng.origin and last2(eng.origin[m].name) == LINKS:
                st.trace = st.trace + (("each" if more else "done", m, i),)
        eng = self.eng = SearchEngine(p, rel=rel, split=sp, rel_assume=assumed, opaque=lambda cc: last2(cc["short"]) in (REQ, LINKS) or self.sorting(cc),
                                      max_states=200000, keep_facts=lambda t: True)
        eng.rule = self
        eng.models = Models(self)
        facts = self.E.fresh_facts(c, self.w, self.f)
        facts[fld(T("deref", T("param", 1)), 0, self.flag)] = self.mode
        ex = c.run(eng, self.f, facts=facts, mon=UNIT)
        self.failed = ex is None

        self.exits = [e for e in ex or () if e.kind == "return"]

    def sorting(self, cc):
        return cc["short"].split("::")[-1].startswith(("sort", "dedup")) and cc.get("args") and self.kind(cc["args"][0]) is LINKSV

    def is_static(self, m):
        """the map of static children of a node"""
        return m.op == "fld" and m.args[2] == self.static and m.args[0].op in ("deref", "elem") and self.pathlike(m.args[0])

    def pathlike(self, x):
        return x.op == "deref" or x.op == "elem" and self.is_static(x.args[0])

    # ---- one iteration of the search
    def iteration(self, eng, st):
        """called where the search loop starts anew, with what happened since the last entry was taken"""
        ev = self.since(eng, st.trace)
        if ev is not None and not any(x[0] == "empty" for x in ev):
            v = View(st)
            v.facts = dict(st.facts)
            self.done.append((v, ev, self.current_marks(eng, st), None))

    def since(self, eng, tr):
        """what happened since the last entry was taken, or nothing if that was in an earlier turn of the loop"""
        k = None
        for i, x in enumerate(tr):
            if x[0] == "pop":
                k = i
        if k is None:
            return None
        ev = tr[k:]
        if any(x[0] == "loop" and eng._hidrev[x[1]] == self.head for x in ev):
            return None
        return ev

    def any_matches(self, eng, st):
        """is anything known to be among the matches?"""
        for d, fr in enumerate(st.frames):
            b = eng.p.body(fr.bi)
            for root, v in st.mem.items():
                if root.op == "L" and root.args[0] == d and v is MATCHES:
                    return ON
        return OFF

    def turns(self):
        """every turn of the search: (facts, entry, marks before, events, marks after, exit or None)"""
        for v, ev, m, e in self.done:
            yield v, ev[0][1], ev[0][2], ev[1:], m, None
        for e in self.exits:
            ev = self.since(self.eng, e.trace)
            if ev is not None and not any(x[0] == "empty" for x in ev):
                yield View(e), ev[0][1], ev[0][2], ev[1:], (), e

    def current_marks(self, eng, st):
        """the route state of the environment at hand"""
        r = []
        for d, fr in enumerate(st.frames):
            b = eng.p.body(fr.bi)
            for root, v in st.mem.items():
                if root.op == "L" and root.args[0] == d and 0 < root.args[1] < len(b["locals"]) and v.op not in ("uninit", "moved", "init"):
                    n = eng.p.tname(b["locals"][root.args[1]])
                    if n == "Environment":
                        x = self.E.of(eng, v, self.E.route, self.marks)
                    elif n == "RouteState":
                        x = eng.sel(v, ("f", 0, self.marks))
                    else:
                        continue
                    if x not in r:
                        r.append(x)
        return tuple(r)

    def role(self, eng, v, b):
        if b.op == "agg" and b.args[0] == self.branch:
            return {i: n for n, i in self.roles.items()}.get(b.args[1])
        d = eng.known(v, eng.discr(b))
        if d is None:
            return None
        for n, i in self.roles.items():
            if eng.p.discr_of(self.branch, i) == d:
                return n
        return None

    def not_role(self, eng, v, b, n):
        """is the branch known not to be n?"""
        r = self.role(eng, v, b)
        if r is not None:
            return r != n
        return eng.known(v, terms.eq(eng.discr(b), INT(eng.p.discr_of(self.branch, self.roles[n])))) == 0

    def parts(self, eng, entry):
        """node, branch, index and number of variables of an entry of the stack"""
        return tuple(self.follow(eng, entry, pa) for pa in self.layout)

    def follow(self, eng, v, path):
        for pe in path:
            v = eng.sel(v, pe)
        return v

    def find_layout(self, eng):
        """where entries keep their node, branch, index and number of variables, read off the first ones"""
        me = T("param", 1)
        i0 = self.E.of(eng, self.env, self.E.route, self.idx)
        v0 = self.E.of(eng, self.env, self.E.route, self.vidx)

        def paths(v, pred, path=()):
            if pred(v):
                yield path
                return
            if v.op == "&":
                for x in paths(v.args[0], pred, path):
                    yield x
            if v.op == "agg":
                for i, x in enumerate(v.args[2]):
                    for y in paths(x, pred, path + (("f", v.args[1], i),)):
                        yield y
        r = []
        for pred in (lambda v: v is me or v is T("deref", me), lambda v: v.op == "agg" and v.args[0] == self.branch, lambda v: v is i0, lambda v: v is v0):
            x = list(paths(self.start[0], pred)) if self.start else []
            if len(x) != 1:
                return False
            r.append(x[0])
        self.layout = r
        return True

    def place(self, v):
        """the router a reference stands for"""
        if v.op == "&":
            while v.op == "&":
                v = v.args[0]
            return v
        return T("deref", v)

    def under(self, v, base):
        """the fields that lead from one place to another below it"""
        path = []
        while v is not base:
            if v.op == "fld":
                path.append((v.args[1], v.args[2]))
                v = v.args[0]
            elif v.op == "deref":
                v = v.args[0]
            else:
                return None
        return path[::-1]


def searches(c, w, E):
    f = [f for f in impls(c, "handle_request", "HandleRequest") if kind_of_self(c, f) == "TreeRouter"]
    if len(f) != 1:
        c.violation("anchor:search", "-", "the search of the tree router cannot be found")
        return
    for mode in (0, 1):
        s = Search(c, f[0], w, E, mode)
        if not s.good or s.failed:
            continue
        if not s.find_layout(s.eng) or s.head is None:
            c.violation("anchor:stack", c.where(f[0]), "the search does not start with the router itself, a branch and the position of the request on its stack")
            continue
        yield s


class Turn:
    """one turn of the search, with what was known in it"""

    def __init__(self, s, turn):
        eng = self.eng = s.eng
        self.s = s
        self.v, self.entry, self.before, self.ev, self.after, self.exit = turn
        v = self.v
        n, self.b, self.i, self.k = s.parts(eng, self.entry)
        self.node = s.place(n)
        env = s.env
        self.segs = s.E.of(eng, env, s.E.route, s.rvec)
        at = eng.known(v, terms.eq(self.i, T("len", self.segs)))
        into = eng.known(v, terms.lt(self.i, T("len", self.segs)))
        if into == 1:
            at = 0
        self.end = at == 1 or at is None and into == 0
        self.inside = into == 1
        self.void = at == 0 and into == 0
        self.role = s.role(eng, v, self.b)
        self.pushed = [x for x in self.ev if x[0] == "push" and x[1] == "stack"]
        self.matched = [x for x in self.ev if x[0] == "push" and x[1] == "matches"]
        self.called = [x for x in self.ev if x[0] == REQ]
        self.det = trace_text(self.ev) + facts_text(v.facts)

    def where(self, ev=None):
        return ev[2] if ev is not None and ev[0] == "push" else ev[1] if ev is not None else self.s.c.where(self.s.f)

    def one(self):
        return T("int", 1) if False else INT(1)

    def next_index(self):
        return terms.add(self.i, INT(1))

    def next_var(self):
        return terms.add(self.k, INT(1))


def children(c, t):
    """the entries that a turn inside the path has to add, bottom first; None if it cannot be told"""
    s, eng, v, n = t.s, t.eng, t.v, t.node
    if t.role == "Static":
        m = eng.sel(n, ("f", 0, s.static))
        seg = T("elem", t.segs, "idx", t.i)
        for key in (seg, T("deref", seg)):
            h = eng.known(v, T("has", m, key))
            if h is not None:
                break
        if h is None:
            return None
        return [] if h == 0 else [("Wildcard", T("elem", m, "key", key), t.next_index(), t.k), ("Variable", T("elem", m, "key", key), t.next_index(), t.k), ("Static", T("elem", m, "key", key), t.next_index(), t.k)]
    if t.role in ("Variable", "Wildcard"):
        o = eng.sel(n, ("f", 0, s.var if t.role == "Variable" else s.wild))
        d = eng.known(v, eng.discr(o))
        if d is None:
            return None
        if d == 0:
            return []
        r = [] if t.role == "Variable" else [("Wildcard", n, t.next_index(), t.k)]
        return r + [(b, o, t.next_index(), t.next_var()) for b in ("Wildcard", "Variable", "Static")]
    return None


@prop("C16")
def c16(c):
    c.rule("the search starts with the sequence, the variable and the static branch of the router itself, the static one on top of the stack")
    c.rule("a turn for a static branch looks the path segment up, byte for byte, among the static children; a turn for another branch looks at that child only; nothing else of the path is looked at")
    c.rule("a child that is there is added with its sequence, variable and static branch, in this order, behind the segment; a sequence also goes on with itself; nothing is added otherwise")
    c.rule("nothing is taken off the stack except by the turn that works on it")
    w = W(c)
    E = Env(c)
    if not w.good or not E.good:
        return
    for s in searches(c, w, E):
        eng = s.eng
        c.count("searches")
        me = T("param", 1)
        i0, k0 = E.of(eng, s.env, E.route, s.idx), E.of(eng, s.env, E.route, s.vidx)
        first = [s.parts(eng, x) for x in s.start]
        good = len(first) == 3 and all(s.place(n) in (T("deref", me),) and i is i0 and k is k0 for n, b, i, k in first)
        order = [next((n for n, i in s.roles.items() if b.op == "agg" and b.args[1] == i), None) for n, b, i, k in first]
        c.require(good and order == ["Wildcard", "Variable", "Static"], "start", c.where(s.f), "the search does not start with the static, then the variable, then the sequence branch of the router: %s" % order)
        for tn in s.turns():
            t = Turn(s, tn)
            c.count("turns")
            if not t.inside:
                c.require(not t.pushed, "past-end", t.where(t.pushed[0] if t.pushed else None), "the search goes on behind the end of the path", t.det)
                continue
            want = children(c, t)
            if want is None:
                c.require(False, "unknown-branch", t.where(t.pushed[0] if t.pushed else None), "a turn of the search does not look at the child its branch stands for (branch %s)" % t.role, t.det)
                continue
            c.count("steps" if want else "dead ends")
            c.require(t.exit is None, "gives-up", c.where(s.f), "the search ends before all alternatives were tried", t.det)
            got = [s.parts(eng, x[3]) for x in t.pushed]
            if not c.require(len(got) == len(want), "number", t.where(t.pushed[0] if t.pushed else None), "a %s branch with%s child adds %d entries to the search" % (t.role, "" if want else "out", len(got)), t.det):
                continue
            for x, (n, b, i, k), (wb, wn, wi, wk) in zip(t.pushed, got, want):
                r = s.role(eng, t.v, b)
                if b is t.b:
                    r = t.role
                c.require(r == wb, "order", t.where(x), "a %s branch is tried where it is the turn of the %s branch" % (r, wb), t.det)
                pl = s.place(n)
                if wn.op == "elem" or wn is t.node:
                    same = pl is wn
                else:
                    u = s.under(pl, wn)
                    same = u is not None and u[:1] == [(1, 0)] and all(y == (0, 0) for y in u[1:])
                c.require(same, "child", t.where(x), "the %s branch goes on with another child than its own: %s" % (t.role, short(pl)), t.det)
                c.require(i is wi, "position", t.where(x), "the search does not go on with the segment behind this one: %s" % short(i), t.det)
                c.require(k is wk, "variable-count", t.where(x), "the number of variables so far is wrong: %s" % short(k), t.det)
    c.floor("searches", 2)
    c.floor("steps", 6)
    c.floor("dead ends", 6)


def item_of(s, place):
    return s.eng.sel(place, ("f", 0, s.item))


def flat(v):
    """the parts of a value"""
    yield v
    if v.op == "agg":
        for x in v.args[2]:
            for y in flat(x):
                yield y
    elif v.op == "&":
        for y in flat(v.args[0]):
            yield y


def state_ok(s, t, r, marks):
    """is r the route state at this turn?"""
    eng = s.eng
    want = {s.rvec: t.segs, s.idx: t.i, s.vidx: t.k}
    for i, x in want.items():
        if eng.sel(r, ("f", 0, i)) is not x:
            return False
    return marks is None or eng.sel(r, ("f", 0, s.marks)) in marks


@prop("C17")
def c17(c):
    c.rule("a turn hands the request to, or remembers, exactly the item of the node at hand, once, if it is the static branch at the end of the path, with the position and variables of this turn; no other turn does")
    c.rule("every remembered item is called in order, once, with its own route state, until one accepts; none is called after that, and accepting is reported")
    c.rule("if nothing was found no item is called, and the request is given back with status 404")
    w = W(c)
    E = Env(c)
    nf = status(c, "NotFound")
    if not w.good or not E.good:
        return
    for s in searches(c, w, E):
        eng = s.eng
        c.count("searches")
        for tn in s.turns():
            t = Turn(s, tn)
            used = t.matched + t.called
            x = used[0] if used else None
            c.count("turns")
            if not t.end:
                c.require(not used, "early", t.where(x), "an item is used before the whole path has been consumed", t.det)
                continue
            static = t.role == "Static"
            must = static or t.role is None and t.exit is not None
            other = not static and s.not_role(eng, t.v, t.b, "Static")
            if other and t.exit is None:
                c.require(not used, "branch", t.where(x), "an item is used once more for another branch", t.det)
                continue
            if not c.require(len(used) == 1, "number", t.where(x), "an item at the end of the path is used %d times" % len(used), t.det):
                continue
            c.require(must or other, "undecided", t.where(x), "an item is used for every branch", t.det)
            c.count("ends")
            item = item_of(s, t.node)
            if x[0] == REQ:
                c.require(bare_ref(x[2][0]) is item, "item", t.where(x), "another handler than the item of the node is called: %s" % short(x[2][0]), t.det)
                r = E.of(eng, x[2][1], E.route)
                c.require(state_ok(s, t, r, t.before), "route-state", t.where(x), "the item does not get the position and variables of this turn: %s" % short(r), t.det)
                c.require(x[4] is UNIT, "again", t.where(x), "another item is called after one accepted the request", t.det)
                if t.exit is not None:
                    accepts(c, s, t.exit, t.det)
            else:
                fl = list(flat(x[3]))
                c.require(item in fl, "item", t.where(x), "something else than the item of the node is remembered: %s" % short(x[3]), t.det)
                rs = [y for y in fl if y.op in ("agg", "with", "fld", "phi") and state_ok(s, t, y, t.before)] if True else []
                c.require(bool(rs), "route-state", t.where(x), "the item is not remembered with the position and variables of this turn: %s" % short(x[3]), t.det)
        # the matches that were remembered
        where_item, where_state = match_layout(s)
        seqs = []
        for (hid, prefix), d in eng.patterns.items():
            if eng._hidrev[hid] == s.head:
                continue
            for (suffix, pf), fr in d.items():
                if any(y[0] == REQ for y in suffix):
                    seqs.append((suffix, pf, None))
                elif any(y[0] == "each" and y[1] is MATCHES for y in suffix):
                    c.require(False, "left-out", c.where(s.f), "a match is left out", trace_text(suffix))
        for e in s.exits:
            k = [i for i, y in enumerate(e.trace) if y[0] == "empty"]
            if not k:
                continue
            ev = e.trace[k[-1] + 1:]
            det = trace_text(e.trace) + facts_text(e.facts)
            v = View(e)
            found = e.trace[k[-1]][1] is ON
            calls = [y for y in ev if y[0] == REQ]
            none = not found or any(y[0] == "done" and y[1] is MATCHES and y[2] is INT(0) for y in ev)
            if none:
                c.count("no match")
                c.require(not calls, "no-match", c.where(s.f), "a handler is called although nothing matched", det)
                c.require(eng.known(v, eng.discr(e.ret)) == 1, "no-match-result", c.where(s.f), "the request is not rejected although nothing matched", det)
                ss = known_status(c, w, eng, v, eng.sel(e.ret, ("f", 1, 0)), E)
                c.require(all(is_status(c, eng, v, y, nf) for y in ss), "not-found", c.where(s.f), "nothing matched, but the status is %s" % short(tuple(ss)), det)
                continue
            j = [i for i, y in enumerate(ev) if y[0] == "loop"]
            seqs.append((ev[j[-1] + 1:] if j else ev, frozenset(e.facts.items()), e))
            if not calls:
                c.require(any(y[0] == "done" and y[1] is MATCHES for y in ev), "left-out", c.where(s.f), "the search ends before every match was asked", det)
            accepts(c, s, e, det)
        for ev, pf, e in seqs:
            calls = [y for y in ev if y[0] == REQ]
            if not calls:
                continue
            c.count("matches called")
            det = trace_text(ev)
            x = calls[0]
            c.require(len(calls) == 1, "twice", x[1], "a match is called %d times" % len(calls), det)
            c.require(x[4] is UNIT, "again", x[1], "another match is called after one accepted the request", det)
            h = bare_ref(x[2][0])
            el = h
            while el.op in ("fld", "deref"):
                el = el.args[0]
            if s.mode == 0:
                continue
            if not c.require(el.op == "elem" and el.args[0] is MATCHES, "match", x[1], "something else than a match is called: %s" % short(h), det):
                continue
            each = [y for y in ev if y[0] == "each" and y[1] is MATCHES]
            n = each[-1][2] if each else INT(0)
            c.require(el.args[2] is n, "match-order", x[1], "the matches are not called in the order they were found", det)
            c.require(path_of(h, el) == where_item, "match-item", x[1], "not the item of a match is called: %s" % short(h), det)
            r = E.of(eng, x[2][1], E.route)
            c.require(path_of(r, el) == where_state, "match-state", x[1], "the item of a match does not get the route state of this match: %s" % short(r), det)
    c.floor("searches", 2)
    c.floor("ends", 3)
    c.floor("no match", 2)
    c.floor("matches called", 2)


def path_of(v, base):
    p = []
    while v is not base:
        if v.op == "fld":
            p.append((v.args[1], v.args[2]))
        elif v.op not in ("deref", "&"):
            return None
        v = v.args[0]
    return p[::-1]


def match_layout(s):
    """where a match keeps its item and its route state"""
    for x in s.kept:
        if x.op == "agg":
            st = [i for i, y in enumerate(x.args[2]) if y.op in ("agg", "with") and y.op != "&" and s.eng.sel(y, ("f", 0, s.rvec)) is s.E.of(s.eng, s.env, s.E.route, s.rvec)]
            if len(st) == 1 and len(x.args[2]) == 2:
                return [(x.args[1], 1 - st[0])], [(x.args[1], st[0])]
    return None, None


def accepts(c, s, e, det):
    """the result says whether an item accepted the request"""
    eng = s.eng
    d = eng.known(View(e), eng.discr(e.ret))
    c.require(d == (0 if e.mon is not UNIT else 1), "result", c.where(s.f), "an item %s the request, but the result says otherwise" % ("accepted" if e.mon is not UNIT else "did not accept"), det)
