"""Handlers behind pointers, functions as handlers, content creating functions (C36)."""
from terms import *
import terms
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import *
from rules.response import W
from rules.routers import *
from rules.links import bare

CALLS = ("Fn::call", "FnMut::call_mut", "FnOnce::call_once")


def inner(x):
    """what a pointer to a handler leads to, no matter through how many of the wrapper's own pointers"""
    x = bare(x)
    while x.op in ("app", "fld") and x.args and isinstance(x.args[0], Term):
        x = bare(x.args[0])
    return x


def handlers(c, name):
    return [f for f in impls(c, name, "Handler") if not f.get("trait", "").startswith("hyper")]


@prop("C36")
def c36(c):
    c.rule("every implementation of handle calls exactly one handler or function, the one it wraps, with the context and response it was given")
    c.rule("every implementation of create_content calls the function it wraps with the given context and returns what that returns; a content factory sends what was created, once, to the response of the request")
    c.rule("description() of a wrapper is that of the wrapped handler, unchanged")
    c.rule("a handler used as a router handles every request itself, once, with its context and response, and reports no rejection")
    c.rule("making a wrapper from a handler keeps that handler")
    p = c.p
    w = W(c)
    E = Env(c)
    if not (w.good and E.good):
        return
    me = T("param", 1)

    def runs(f, facts=None):
        r = Run(c, f, facts=facts, also=lambda cc: cc["short"] in CALLS and cc.get("kind") in ("param", "virtual"))
        return r, [(e, View(e), r.events(e), trace_text(e.trace) + facts_text(e.facts)) for e in r.exits]

    def plain(eng, v):
        """arguments of a function call come as one tuple"""
        if len(v) == 2 and v[1].op == "agg" and v[1].args[0] == "tuple":
            return (v[0],) + tuple(v[1].args[2])
        return v

    def same(eng, v, x, y):
        return x is y or not diffs(eng, x, y)

    for f in handlers(c, "handle"):
        k = kind_of_self(c, f) or "F"
        where = c.where(f)
        r, ex = runs(f)
        c.count("implementations of handle")
        for e, v, ev, det in ex:
            c.count("ways through handle")
            if not c.require(len(ev) == 1 and (ev[0][0] in CALLS or ev[0][0] == "Handler::handle"), "once:" + k, where, "the wrapped handler is called %d times" % len(ev), det):
                continue
            x = ev[0]
            a = plain(r.eng, x[2])
            c.require(inner(a[0]) is me, "target:" + k, x[1], "something else than the wrapped handler is called: %s" % short(a[0]), det)
            c.require(len(a) == 3 and same(r.eng, v, a[1], T("param", 2)) and same(r.eng, v, a[2], T("param", 3)), "arguments:" + k, x[1], "the wrapped handler does not get the context and response as they were", det)
    done = set()
    for f in handlers(c, "description"):
        k = kind_of_self(c, f) or "F"
        done.add(k)
        where = c.where(f)
        r, ex = runs(f)
        c.count("implementations of description")
        for e, v, ev, det in ex:
            ok_ = len(ev) == 1 and ev[0][0] == "Handler::description" and inner(ev[0][2][0]) is me
            if c.require(ok_, "description:" + k, where, "not the wrapped handler is asked for its description", det):
                c.require(e.ret is ev[0][3] or not diffs(r.eng, e.ret, ev[0][3]), "description-kept:" + k, where, "the wrapped handler's description is changed: %s" % short(e.ret), det)
    for f in handlers(c, "handle"):
        k = kind_of_self(c, f) or "F"
        if p.types[p.types[f["ins"][0]]["e"]]["k"] != "param":
            c.require(k in done, "no-description:" + k, c.where(f), "a wrapper does not pass the wrapped handler's description on", [])
    for f in impls(c, "create_content", "CreateContent"):
        where = c.where(f)
        r, ex = runs(f)
        c.count("implementations of create_content")
        for e, v, ev, det in ex:
            if not c.require(len(ev) == 1 and ev[0][0] in CALLS, "create-once", where, "the content creating function is called %d times" % len(ev), det):
                continue
            a = plain(r.eng, ev[0][2])
            c.require(inner(a[0]) is me and len(a) == 2 and same(r.eng, v, a[1], T("param", 2)), "create-context", ev[0][1], "the content creating function does not get the context as it was", det)
            c.require(e.ret is ev[0][3], "created", where, "not what the function created is returned: %s" % short(e.ret), det)
    for f in impls(c, "handle_request", "HandleRequest"):
        k = kind_of_self(c, f)
        t = p.types[p.types[f["ins"][0]]["e"]]
        if t["k"] == "param":
            k = "H"
        elif k != "ContentFactory":
            continue
        where = c.where(f)
        facts = E.fresh_facts(c, w, f)
        r, ex = runs(f, facts)
        eng = r.eng
        env = T("param", 2)
        ctx = E.of(eng, env, E.ctx)
        rsp = E.of(eng, env, E.resp)
        c.count("handlers used as routers")
        for e, v, ev, det in ex:
            names = [x[0] for x in ev]
            c.require(eng.known(v, eng.discr(e.ret)) == 0, "rejected:" + k, where, "a handler rejects a request", det)
            if k == "H":
                if c.require(names == ["Handler::handle"], "once:H", where, "the handler is called %d times" % len(ev), det):
                    a = ev[0][2]
                    c.require(inner(a[0]) is me, "target:H", ev[0][1], "something else than the handler is called", det)
                    c.require(same(eng, v, a[1], ctx) and same(eng, v, a[2], rsp), "arguments:H", ev[0][1], "the handler does not get the context and response of the request", det)
                continue
            if not c.require(names == ["CreateContent::create_content", "SendResponse::send_response"], "once:" + k, where, "the content is not created once and then sent once: %s" % names, det):
                continue
            a, b = ev[0][2], ev[1][2]
            c.require(bare(a[0]) is bare(eng.sel(T("deref", me), ("f", 0, 0))), "target:" + k, ev[0][1], "not the wrapped function creates the content: %s" % short(a[0]), det)
            c.require(same(eng, v, a[1], ctx), "context:" + k, ev[0][1], "the content is not created from the context of the request", det)
            c.require(b[0] is ev[0][3], "sent:" + k, ev[1][1], "something else than the created content is sent: %s" % short(b[0]), det)
            c.require(same(eng, v, b[1], rsp), "response:" + k, ev[1][1], "the content is not sent to the response of the request: %s" % short(b[1]), det)
    for f in impls(c, "hyperlinks", "HandleRequest"):
        k = kind_of_self(c, f)
        t = p.types[p.types[f["ins"][0]]["e"]]
        if t["k"] != "param" and k != "ContentFactory":
            continue
        where = c.where(f)
        r, ex = runs(f)
        m, path, handler = (c.field("Link", lambda n, t, q=q: n == q) for q in ("method", "path", "handler"))
        c.count("links of wrapped handlers")
        for e, v, ev, det in ex:
            x = e.ret
            if not c.require(not ev and x.op == "vpush" and x.args[0].op == "vnew", "link:" + (k or "H"), where, "a handler does not report exactly one link, its own", det):
                continue
            for fi in (m, path):
                a, b = r.eng.sel(x.args[1], ("f", 0, fi)), r.eng.sel(T("param", 2), ("f", 0, fi))
                c.require(a is b or not diffs(r.eng, a, b), "link-base:" + (k or "H"), where, "the link of a handler is not the one it was given", det)
            if t["k"] == "param":
                h = r.eng.sel(x.args[1], ("f", 0, handler))
                c.require(h.op == "agg" and h.args[1] == 1 and inner(h.args[2][0]) is me, "link-handler:H", where, "the link of a handler does not lead to it", det)
    # making wrappers
    for f in p.fns:
        if f["body"] is None:
            continue
        tr = f.get("trait", "").split("<")[0].split("::")[-1]
        out = p.types[f["out"]]
        if not (f["name"] == "from" and tr == "From" and p.tname(f["out"]) == "ContentFactory" or f["name"] == "from_handler" and tr == "FromHandler" and (p.tname(f["out"]) in ("ContentFactory",) or out["k"] == "param")):
            continue
        where = c.where(f)
        r, ex = runs(f)
        arg = T("param", 1 if f["name"] == "from" else 2)
        c.count("ways to make wrappers")
        for e, v, ev, det in ex:
            x = e.ret
            if p.tname(f["out"]) == "ContentFactory" and f["name"] == "from":
                x = r.eng.sel(x, ("f", 0, 0))
            if x.op == "app":
                x = x.args[1][0]
            c.require(x is arg or x.op == "call" and x in r.eng.origin and any(a is arg for a in r.eng.origin[x].args), "kept:" + f["name"], where, "the handler that was given is not the one that is kept: %s" % short(e.ret), det)
    c.floor("implementations of handle", 3)
    c.floor("implementations of description", 2)
    c.floor("implementations of create_content", 1)
    c.floor("handlers used as routers", 2)
    c.floor("links of wrapped handlers", 2)
    c.floor("ways to make wrappers", 3)
