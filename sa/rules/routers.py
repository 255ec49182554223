"""Routers other than the tree router, wrapped handlers, and what comes back from a router (C18, C19, C36)."""
from terms import *
import terms
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import *
from rules.response import W
from rules.server import status, is_status
from rules.sending import statuses
from prog import strip_generics

REQ = "HandleRequest::handle_request"
LINKS = "HandleRequest::hyperlinks"
STATUS = "hyper::status::StatusCode"


def impls(c, name, trait):
    """every implementation of a method of one of this crate's traits"""
    return [f for f in c.p.fns if f["name"] == name and f["body"] is not None and f.get("trait", "").split("<")[0].split("::")[-1] == trait]


def last2(n):
    return "::".join(n.split("::")[-2:])


APP = ("HandleRequest", "Handler", "CreateContent", "SendResponse", "FromHandler", "ApplyContext", "Merge", "Build", "Fn", "FnOnce", "FnMut")


def is_app(cc):
    """code of the application, or of the parts a router was put together from"""
    return cc.get("kind") in ("param", "virtual") and cc["short"].split("::")[-2] in APP


class Run:
    """the calls a function makes into application code, on each way through it"""

    def __init__(self, c, f, facts=None, also=None, opaque=None, split=None, hook=None, far=True):
        p = c.p
        also = also or (lambda cc: False)

        def rel(eng, st, call, res):
            if res is None or not (is_app(call.c) or also(call.c)):
                return None
            where = p.where(call.span) if call.span and call.span[1] else c.where(f)
            return (last2(call.name), where, tuple(eng.deepval(st, a) for a in call.args), res)

        def sp(eng, st, call, res):
            if split is not None:
                r = split(eng, st, call, res)
                if r is not None:
                    return r
            if last2(call.name) == REQ:
                return [(ok(UNIT), st.mon), (err(fld(res, 1, 0)), st.mon)]
            return None

        def opq(cc):
            if also(cc) or last2(cc["short"]) in (REQ, LINKS) or opaque is not None and opaque(cc):
                return True
            b = cc.get("body")
            if not far or b is None or p.bodies[b] is None or not p.bodies[b].get("local"):
                return False
            return c.heavy(b) and not c.cg.reaches(b, "app", is_app)
        self.eng = c.engine(rel=rel, split=sp, opaque=opq, hook=hook)
        ex = c.run(self.eng, f, facts=facts, mon=UNIT) or ()
        self.exits = [e for e in ex if e.kind == "return"]

    def events(self, e):
        return [x for x in e.trace if x[0] != "loop"]


def diffs(eng, v, orig, path=()):
    """where a value differs from what it started as: [(path, new value)]"""
    if v is orig:
        return []
    if v.op == "with":
        r = diffs(eng, v.args[0], orig, path)
        for vi, i, x in v.args[1]:
            pe = ("f", vi, i)
            r = [d for d in r if d[0][:len(path) + 1] != path + (pe,)]
            r += diffs(eng, x, eng.sel(orig, pe), path + (pe,))
        return r
    if v.op == "agg" and v.args[2]:
        o = [eng.sel(orig, ("f", v.args[1], i)) for i in range(len(v.args[2]))]
        if all(x is y for x, y in zip(v.args[2], o)) and (orig.op != "agg" or orig.args[1] == v.args[1]):
            return []
        r = []
        for i, (x, y) in enumerate(zip(v.args[2], o)):
            r += diffs(eng, x, y, path + (("f", v.args[1], i),))
        return r
    return [(path, v)]


class Env:
    """the parts of an environment"""

    def __init__(self, c):
        p = c.p
        self.c = c

        def fi(ty, name):
            return c.field(ty, lambda n, t: n == name)
        self.ctx = c.field("Environment", lambda n, t: p.tname(t) == "Context")
        self.resp = c.field("Environment", lambda n, t: p.tname(t) == "Response")
        self.route = c.field("Environment", lambda n, t: p.tname(t) == "RouteState")
        self.method = c.field("Context", lambda n, t: p.tname(t) == "Method")
        self.variables = fi("Context", "variables")
        self.links = fi("Context", "hyperlinks")
        self.good = None not in (self.ctx, self.resp, self.route, self.method, self.variables, self.links)
        if not self.good:
            c.violation("anchor:Environment", "-", "the parts of a request's environment cannot be found")

    def fresh_facts(self, c, w, f):
        """the response of an environment that application code still has is complete"""
        facts = w.fresh_facts(c, f)
        for i, ti in enumerate(f["ins"]):
            if c.p.tname(ti) == "Environment":
                v = fld(T("param", i + 1), 0, self.resp)
                facts[T("discr", fld(v, 0, w.field["Response"]))] = 1
                facts[T("discr", fld(v, 0, w.storage))] = 1
        return facts

    def of(self, eng, env, *path):
        for i in path:
            env = eng.sel(env, ("f", 0, i))
        return env

    def changed(self, eng, v, env, orig):
        """changes of an environment other than that of the status: [(path, value)], and the statuses before and after"""
        d = diffs(eng, env, orig)
        other = [(pa, x) for pa, x in d if not (pa[:1] == (("f", 0, self.resp),) and x.op == "agg" and x.args[0] == STATUS)]
        return other, len(d) - len(other)


def known_status(c, w, eng, v, env, E):
    return statuses(c, w, eng, v, E.of(eng, env, E.resp))


def routers(c):
    """the handle_request implementations that delegate to other handlers, except the tree router"""
    return [f for f in impls(c, "handle_request", "HandleRequest")]


def kind_of_self(c, f):
    return c.p.tname(c.p.types[f["ins"][0]]["e"]) if c.p.types[f["ins"][0]]["k"] == "ref" else c.p.tname(f["ins"][0])


def maps_of(c, ty):
    """index and key type of the map of handlers in a router"""
    p = c.p
    t = c.struct(ty)
    r = []
    for i, x in enumerate(t["vs"][0]["fs"]):
        if p.tname(x[1]) == "HashMap":
            r.append((i, p.tname(p.types[x[1]]["args"][0])))
    return r


@prop("C19")
def c19(c):
    c.rule("MethodRouter: calls the handler stored under the request's method if there is one, and no other; otherwise calls none and gives the request back with status 405")
    c.rule("StatusRouter: calls the handler stored under the response's current status if there is one, and no other; otherwise calls none and gives the request back as it was")
    c.rule("Option: calls the handler that is there; if there is none the request is given back with status 404")
    c.rule("OrElse: calls the primary with the request; calls the secondary, once, with what the primary gave back, exactly if it rejected")
    c.rule("each returns what the delegate returned, and hands the request over unchanged")
    p = c.p
    w = W(c)
    E = Env(c)
    if not w.good or not E.good:
        return
    S = {n: status(c, n) for n in ("NotFound", "MethodNotAllowed")}
    self_ = T("param", 1)
    me = T("deref", self_)
    env = T("param", 2)
    for f in routers(c):
        k = kind_of_self(c, f)
        maps = maps_of(c, k) if c.struct(k) else []
        if k not in ("Option", "OrElse", "Variables") and not (maps and maps[0][1] in ("Method", "StatusCode")):
            continue
        where = c.where(f)
        run = Run(c, f, facts=E.fresh_facts(c, w, f))
        eng = run.eng
        c.count("routers")
        for e in run.exits:
            v = View(e)
            det = trace_text(e.trace) + facts_text(e.facts)
            ev = run.events(e)
            c.count("ways through routers")
            bad = [x for x in ev if x[0] != REQ]
            c.require(not bad, "calls:" + k, where, "a router calls something else than a handler: %s" % (bad and bad[0][0]), det)
            ev = [x for x in ev if x[0] == REQ]
            for x in ev:
                c.require(target(eng, x) is not me and target(eng, x) is not self_, "target:" + k, x[1], "a router hands the request to itself", det)
            # what the delegates returned so far
            if k == "OrElse":
                c.require(1 <= len(ev) <= 2, "number:" + k, where, "a fallback router calls %d handlers" % len(ev), det)
                if not ev:
                    continue
                pi = c.field(k, lambda n, t: n == "primary")
                si = c.field(k, lambda n, t: n == "secondary")
                c.require(target(eng, ev[0]) is eng.sel(me, ("f", 0, pi)), "primary", ev[0][1], "the first handler that is called is not the primary: %s" % short(ev[0][2][0]), det)
                c.require(ev[0][2][1] is env, "request:" + k, ev[0][1], "the primary does not get the request as it was: %s" % short(ev[0][2][1]), det)
                if len(ev) == 2:
                    c.require(target(eng, ev[1]) is eng.sel(me, ("f", 0, si)), "secondary", ev[1][1], "the second handler that is called is not the secondary: %s" % short(ev[1][2][0]), det)
                    c.require(ev[1][2][1] is fld(ev[0][3], 1, 0), "fallback-request", ev[1][1], "the secondary does not get what the primary gave back: %s" % short(ev[1][2][1]), det)
                    c.count("fallbacks")
                    returned(c, eng, v, e, ev[1], k, where, det)
                else:
                    c.require(eng.known(v, eng.discr(e.ret)) == 0, "accepted:" + k, where, "the primary rejected the request but the secondary is not asked", det)
                continue
            c.require(len(ev) <= 1, "number:" + k, where, "the request is handed to %d handlers" % len(ev), det)
            if k == "Variables":
                fi = c.field(k, lambda n, t: n == "handler")
                if c.require(len(ev) == 1, "number:" + k, where, "the request is handed to %d handlers" % len(ev), det):
                    c.require(target(eng, ev[0]) is eng.sel(me, ("f", 0, fi)), "target:" + k, ev[0][1], "another handler than the wrapped one is called", det)
                    d, s = E.changed(eng, v, ev[0][2][1], env)
                    want = (("f", 0, E.ctx), ("f", 0, E.variables))
                    c.require(s == 0 and all(pa[:2] == want for pa, x in d), "request:" + k, ev[0][1], "the handler gets a request that differs in more than its variables", det + [short(x) for pa, x in d])
                    returned(c, eng, v, e, ev[0], k, where, det)
                continue
            if k == "Option":
                present = eng.known(v, eng.discr(me))
                tgt = eng.sel(me, ("f", 1, 0))
            else:
                fi, kty = maps[0]
                m = eng.sel(me, ("f", 0, fi))
                if kty == "Method":
                    key = E.of(eng, env, E.ctx, E.method)
                    keys = [key]
                else:
                    keys = known_status(c, w, eng, v, env, E)
                present = None
                tgt = None
                if len(keys) == 1:
                    present = lookup(eng, v, m, keys[0])
                    tgt = T("elem", m, "key", keys[0])
            if present is None and len(ev) == 1 and k != "Option":
                # found by going through the entries
                x = target(eng, ev[0])
                if x is not None and x.op == "mval" and x.args[0] is m and len(keys) == 1 and eng.known(v, terms.eq(T("mkey", m, x.args[1]), keys[0])) == 1:
                    present, tgt = 1, x
            if not c.require(present is not None, "undistinguished:" + k, where, "it is not looked up whether there is a handler for this request", det):
                continue
            c.count("delegations" if present else "rejections")
            if present:
                if c.require(len(ev) == 1, "delegate:" + k, where, "there is a handler for the request but it is not called", det):
                    c.require(target(eng, ev[0]) is tgt, "target:" + k, ev[0][1], "another handler than the selected one is called: %s" % short(target(eng, ev[0])), det)
                    c.require(ev[0][2][1] is env, "request:" + k, ev[0][1], "the handler does not get the request as it was: %s" % short(ev[0][2][1]), det)
                    returned(c, eng, v, e, ev[0], k, where, det)
            else:
                c.require(not ev, "no-delegate:" + k, where, "a handler is called although there is none for the request", det)
                c.require(eng.known(v, eng.discr(e.ret)) == 1, "rejected:" + k, where, "the request is not rejected", det)
                back = eng.sel(e.ret, ("f", 1, 0))
                ss = known_status(c, w, eng, v, back, E)
                if k == "StatusRouter" or maps and maps[0][1] == "StatusCode":
                    c.require(back is env or not diffs(eng, back, env), "reject-status:" + k, where, "the rejected request is changed", det)
                else:
                    want = S["NotFound"] if k == "Option" else S["MethodNotAllowed"]
                    c.require(all(is_status(c, eng, v, s, want) for s in ss), "reject-status:" + k, where, "the request is rejected with status %s" % short(tuple(ss)), det)
    c.floor("routers", 5)
    c.floor("delegations", 6)
    c.floor("rejections", 5)
    c.floor("fallbacks", 2)


def lookup(eng, v, m, key):
    """is there an entry for key in map m? 1, 0 or None"""
    r = eng.known(v, T("has", m, key))
    return r


def target(eng, ev):
    """the handler of a delegation"""
    return bare_ref(ev[2][0])


def bare_ref(a):
    while a.op == "&":
        a = a.args[0]
    return a


def returned(c, eng, v, e, ev, k, where, det):
    """the result is what the delegate returned"""
    d = eng.known(v, eng.discr(e.ret))
    res = ev[3]
    if e.ret is res:
        return
    c.require(d is not None, "result:" + k, where, "the result does not follow the delegate's", det)
    if d == 1:
        c.require(eng.sel(e.ret, ("f", 1, 0)) is fld(res, 1, 0), "result:" + k, where, "not what the delegate gave back is returned: %s" % short(e.ret), det)


class Origins:
    """where a part of a request that comes back came from: what a delegate gives back is what it was given, as this
    property promises for the delegate"""

    def __init__(self, c, eng, E, orig, events, kept=None):
        self.c, self.eng, self.E, self.orig, self.kept = c, eng, E, orig, kept
        self.handed = {}
        for x in events:
            if x[0] == REQ:
                self.handed.setdefault(fld(x[3], 1, 0), []).append(x[2][1])

    def of(self, t, seen=None):
        seen = seen if seen is not None else set()
        if t in seen:
            return set()
        seen.add(t)
        path = []
        x = t
        while True:
            src = None
            if x in self.handed:
                src = self.handed[x]
            elif x.op == "phi" and x in self.eng.phisrc:
                src = [s for s, l in self.eng.phisrc[x]]
            elif x.op == "elem" and self.kept is not None:
                src = self.kept(x)
            if src is not None:
                r = set()
                for s in src:
                    for pe in reversed(path):
                        s = self.eng.sel(s, pe)
                    r |= self.of(s, seen)
                return r
            if x.op != "fld":
                break
            path.append(("f", x.args[1], x.args[2]))
            x = x.args[0]
        return {t}

    def response(self, v, seen=None):
        """the responses that v may be, up to their status"""
        seen = seen if seen is not None else set()
        if v in seen:
            return set()
        seen.add(v)
        E, eng = self.E, self.eng
        orig = eng.sel(self.orig, ("f", 0, E.resp))
        if only_status(diffs(eng, v, orig)):
            return {orig}
        r = set()
        for x in subterms(v):
            if x in self.handed or x.op == "phi" and x in eng.phisrc:
                for base in (x, eng.sel(x, ("f", 0, E.resp))):
                    if only_status(diffs(eng, v, base)):
                        if base is x:
                            src = [s for s, l in eng.phisrc.get(x, {})]
                        elif x in self.handed:
                            src = [eng.sel(s, ("f", 0, E.resp)) for s in self.handed[x]]
                        else:
                            src = [eng.sel(s, ("f", 0, E.resp)) for s, l in eng.phisrc[x]]
                        if not src:
                            continue
                        for s in src:
                            r |= self.response(s, seen)
                        return r
        return {v}


def only_status(d):
    return all(x.op == "agg" and x.args[0] == STATUS or x.op == "fld" and pa[-1:] and False for pa, x in d)


def subterms(v):
    seen = set()
    work = [v]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            if hasattr(a, "op"):
                work.append(a)
            elif isinstance(a, tuple):
                st = [a]
                while st:
                    for y in st.pop():
                        if hasattr(y, "op"):
                            work.append(y)
                        elif isinstance(y, tuple):
                            st.append(y)


def comes_back(c, eng, E, f, exits, events, count="rejections", kept=None):
    """every request that is given back is the one that came in, up to status, variables and marks"""
    p = c.p
    orig = T("param", 2)
    o = Origins(c, eng, E, orig, events, kept)
    ctx = c.struct("Context")["vs"][0]["fs"]
    rt = c.struct("RouteState")["vs"][0]["fs"]
    marks = [i for i, x in enumerate(rt) if p.tname(x[1]) == "Vec" and p.tname(p.types[x[1]]["args"][0]) == "Option"]
    k = kind_of_self(c, f)
    for e in exits:
        v = View(e)
        if eng.known(v, eng.discr(e.ret)) == 0:
            continue
        det = trace_text(e.trace) + facts_text(e.facts)
        env = eng.sel(e.ret, ("f", 1, 0))
        c.count(count)
        for i, x in enumerate(ctx):
            if i == E.variables:
                continue
            got = o.of(E.of(eng, env, E.ctx, i))
            c.require(got == {E.of(eng, orig, E.ctx, i)}, "context:%s:%s" % (k, x[0]), c.where(f), "the %s of a rejected request is not what it was: %s" % (x[0], short(tuple(got))), det)
        for i, x in enumerate(rt):
            if i in marks:
                continue
            got = o.of(E.of(eng, env, E.route, i))
            c.require(got == {E.of(eng, orig, E.route, i)}, "route:%s:%s" % (k, x[0]), c.where(f), "the %s of the path of a rejected request is not what it was: %s" % (x[0], short(tuple(got))), det)
        got = o.response(E.of(eng, env, E.resp))
        c.require(got == {E.of(eng, orig, E.resp)}, "response:" + k, c.where(f), "the response of a rejected request is changed in more than its status: %s" % short(tuple(got)), det)


@prop("C18")
def c18(c):
    c.rule("every way to reject a request gives back the context, the position in the path and the response that came in; only status, path variables and capture marks may differ")
    c.rule("a delegate is taken to give back what it was handed, which is this property for the delegate")
    from rules import search
    w = W(c)
    E = Env(c)
    if not w.good or not E.good:
        return
    for f in routers(c):
        if kind_of_self(c, f) == "TreeRouter":
            continue
        run = Run(c, f, facts=E.fresh_facts(c, w, f))
        ev = [x for e in run.exits for x in run.events(e)] + pattern_events(run.eng)
        c.count("routers")
        comes_back(c, run.eng, E, f, run.exits, ev)
    for s in search.searches(c, w, E):
        c.count("routers")
        ev = [x for e in s.exits for x in e.trace] + pattern_events(s.eng)
        comes_back(c, s.eng, E, s.f, s.exits, ev, kept=lambda x: s.kept if x.args[0] is search.MATCHES else None)
    c.floor("routers", 8)
    c.floor("rejections", 10)


def pattern_events(eng):
    return [x for d in eng.patterns.values() for suffix, pf in d for x in suffix]
