"""The head that is sent is the one that was set (C44)."""
from terms import *
import terms
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import *
from rules.response import W, Ops, SETTERS, hyper_response, header_name, FILTER, t_holds
from rules.framing import completing, base
from rules.sending import Seen, statuses, bare, is_send, send_impls
from rules.context import joined
from rules.server import run_handle, status, is_status

FRAMING = ("connection", "content-length")
DEFAULTS = ("date", "content-type", "server")
KNOWN = {"Date", "ContentType", "Server", "Connection", "ContentLength", "Host"}
HEADERS = "hyper::header::Headers::"


def is_setter(n):
    return n.startswith(HEADERS) and n[len(HEADERS):] in SETTERS


@prop("C44")
def c44(c):
    c.rule("wherever the head of a response is written (hyper's send and start), its status is the one of the response or the result of the begin step of the filters")
    c.rule("the operations that write a head change no header but Connection and Content-Length; the request loop sets none but Date, Content-Type and Server in a response; sending a file sets none but Content-Type and no status")
    c.rule("set_status stores exactly the given status, for a connection and for a mock; status, headers and headers_mut refer to the status and headers of this response; a new response has those of its connection, and a mock 200 and no headers")
    c.rule("no other call in the library changes headers: every call of a mutating operation of Headers is for a header that has been named here")
    p = c.p
    w = W(c)
    if not w.good:
        return
    visited = set()
    for f, isdrop in completing(c):
        if f is not None:
            visited |= written(c, w, f, isdrop)
    access(c, w)
    visited |= files(c, w)
    visited |= loop(c)
    everywhere(c, visited)
    c.floor("heads written", 5)
    c.floor("changes of headers", 4)
    c.floor("files", 2)
    c.floor("headers set by the request loop", 3)
    c.floor("calls that change headers", 6)


def written(c, w, f, isdrop):
    p = c.p
    self_, facts = base(w, isdrop)

    def on(kind, eng, st, where, m, call, v):
        det = trace_text(st.trace) + facts_text(st.facts)
        if kind == "header":
            last, h, val = call
            c.count("changes of headers")
            c.require(h in FRAMING, "header:%s:%s" % (f["path"], h), where, "sending a response changes the header %s" % (h or "(unknown)"), det)
        if kind == "filters":
            s0 = current(eng, self_)
            c.require(any(any(x is y for y in walk(eng.deepval(st, a))) for a in call.args for x in s0) or kinds(c, call), "given:" + f["path"], where, "the filters do not start with the status of the response", det)
        if kind in ("send", "start"):
            c.count("heads written")
            s = eng.sel(v, ("f", 0, 101))
            if v.op == "ref":
                s = eng.sel(eng.load(st, *eng.target(v)), ("f", 0, 101))
            good = s in current(eng, self_)
            if m.get(st, "fbegin") is ON:
                # which status the filters leave is looked at with C07
                made = []
                for x in joined(eng, s):
                    y = x
                    while y.op in ("fld", "old"):
                        y = y.args[0]
                    o = eng.origin.get(y)
                    made.append(True if o is not None and ops.filtering(o.c) else None if x in current(eng, self_) else False)
                good = False not in made and True in made
                c.count("after filters")
            c.require(good, "status:%s:%s" % (f["path"], kind), where, "the head of a response is written with another status than the one that was set: %s" % short(s), det)

    def kinds(c, call):
        b = call.c.get("body")
        has = (lambda k: call.name == k) if b is None or p.bodies[b] is None else (lambda k: c.cg.reaches(b, k, lambda x: x["short"] == k))
        return not has(FILTER[0])

    def current(eng, resp):
        return statuses(c, w, eng, Nothing, resp)
    ops = Ops(c, w)
    ops.on = on
    eng, ex = ops.run(f, facts=facts, drops=not isdrop)
    return eng.visited_bodies


class Nothing:
    facts = {}


def parts(c, w, eng, view, resp, field):
    """what a response keeps its status or its headers in, for an actual and a mock response as far as both are possible"""
    from rules.sending import maybe_mock
    x = eng.sel(resp, ("f", 0, w.field["Response"]))
    x = eng.sel(x, ("f", 1, 0))
    d = eng.known(view, eng.discr(x))
    t = maybe_mock(c)
    r = []
    for vi, v in enumerate(t["vs"]):
        if d is not None and v["d"] != d:
            continue
        act = [i for i, y in enumerate(v["fs"]) if hyper_response(c.p.types[y[1]])]
        if act:
            r.append(eng.sel(eng.sel(x, ("f", vi, act[0])), ("f", 0, 101 if field == "StatusCode" else 100)))
        else:
            k = [i for i, y in enumerate(v["fs"]) if c.p.tname(y[1]) == field]
            r.append(eng.sel(x, ("f", vi, k[0])))
    return r


def access(c, w):
    p = c.p
    for name, field in (("set_status", "StatusCode"), ("status", "StatusCode"), ("headers", "Headers"), ("headers_mut", "Headers")):
        f = c.fn("Response", name)
        if f is None:
            continue
        self_, facts = base(w, True)
        facts[T("discr", fld(self_, 0, w.field["Response"]))] = 1
        eng = c.engine()
        n = 0
        for e in c.run(eng, f, facts=facts) or ():
            if e.kind != "return":
                continue
            n += 1
            v = View(e)
            det = facts_text(e.facts)
            where = c.where(f)
            c.count("ways of access")
            now = eng.load(e.st, T("O", T("param", 1)), ())
            if name == "set_status":
                ss = parts(c, w, eng, v, now, field)
                c.require(len(ss) == 1 and ss[0] is T("param", 2), "set", where, "set_status leaves the status %s" % short(tuple(ss)), det)
                c.require(parts(c, w, eng, v, now, "Headers") == parts(c, w, eng, v, self_, "Headers"), "set-headers", where, "set_status changes headers", det)
                continue
            c.require(bare(now) is self_ and parts(c, w, eng, v, now, "StatusCode") == parts(c, w, eng, v, self_, "StatusCode") and parts(c, w, eng, v, now, "Headers") == parts(c, w, eng, v, self_, "Headers"),
                      "changes:" + name, where, "looking at a response changes it", det)
            r = e.ret
            if r.op == "ref":
                r = eng.load(e.st, *eng.target(r))
            elif r.op in ("vref", "&"):
                r = r.args[0]
            want = parts(c, w, eng, v, self_, field)
            c.require(len(want) == 1 and (r is want[0] or e.ret is want[0]), "get:" + name, where, "%s gives something else than the %s of this response: %s" % (name, "status" if field == "StatusCode" else "headers", short(r)), det)
        c.require(n >= 2, "ways:" + name, c.where(f), "%s is not seen to work for both an actual and a mock response" % name)
    f = c.fn("Response", "new")
    if f is not None:
        eng = c.engine()
        i = [k for k, ti in enumerate(f["ins"]) if hyper_response(p.types[ti])]
        for e in c.run(eng, f) or ():
            if e.kind == "return" and i:
                c.count("new responses")
                me = T("param", i[0] + 1)
                for field, k in (("StatusCode", 101), ("Headers", 100)):
                    c.require(eng.sel(me, ("f", 0, k)) in parts(c, w, eng, View(e), e.ret, field), "new:" + field, c.where(f), "a new response does not have the %s of its connection" % field)
    f = c.fn("Response", "mock")
    ok_ = status(c, "Ok")
    if f is not None and ok_ is not None:
        eng = c.engine()
        for e in c.run(eng, f) or ():
            if e.kind == "return":
                c.count("new responses")
                v = View(e)
                ss = parts(c, w, eng, v, e.ret, "StatusCode")
                c.require(len(ss) == 1 and is_status(c, eng, v, ss[0], ok_), "mock-status", c.where(f), "a mock response starts with status %s" % short(tuple(ss)))
                hs = parts(c, w, eng, v, e.ret, "Headers")
                c.require(len(hs) == 1 and hs[0].op in ("call", "app", "agg") and "new" in (hs[0].args[0] if hs[0].op == "app" else eng.origin[hs[0]].name if hs[0] in eng.origin else show(hs[0])),
                          "mock-headers", c.where(f), "a mock response does not start without headers: %s" % short(tuple(hs)))


def files(c, w):
    """ways to send that do not choose a status hand the response on with the status it had"""
    p = c.p
    visited = set()
    todo = [(c.fn("Response", n), T("param", 1)) for n in ("send_file_with_mime", "send", "try_send", "send_data")]
    for f in send_impls(c):
        t = p.types[f["ins"][0]]
        if p.tname(f["ins"][0]) == "File" or t["k"] == "ref":
            todo.append((f, T("param", 2)))
    for f, resp in todo:
        if f is None:
            continue
        where = c.where(f)

        def stop(cc):
            n = cc["short"]
            b = cc.get("body")
            own = b is not None and b == f["body"]
            return not own and (is_send(c, cc) or n.endswith(("::into_raw", "::into_chunked")))
        s = Seen(c, w, stop)
        eng, ex = s.run(f)
        visited |= eng.visited_bodies
        for e in ex:
            v = View(e)
            det = trace_text(e.trace) + facts_text(e.facts, 20)
            for x in e.trace:
                if x[0] == "header":
                    c.require(x[2][1] == "content-type", "file-header:" + f["path"], where, "sending changes the header %s" % (x[2][1] or "(unknown)"), det)
                elif x[0].endswith(("into_raw", "into_chunked")) or x[0].split("::")[-1] in ("send_response", "try_send_data", "try_send", "send_data", "send", "drop"):
                    for a in x[2]:
                        if bare(a) is not resp:
                            continue
                        c.count("files" if f["name"] in ("send_response", "send_file_with_mime") else "values passed on")
                        c.require(statuses(c, w, eng, v, a) == statuses(c, w, eng, v, resp), "file-status:" + f["path"], x[1], "sending changes the status from %s to %s" % (short(tuple(statuses(c, w, eng, v, resp))), short(tuple(statuses(c, w, eng, v, a)))), det)
    return visited


def loop(c):
    def tell(kind, eng, st, where, m, a, b):
        if kind != "header":
            return
        root, path = eng.target(a.args[0])
        if path and path[-1] == ("f", 0, 100):
            c.count("headers set by the request loop")
            h = header_name(c, eng, st, a)
            c.require(h in DEFAULTS, "loop-header:%s" % h, where, "the request loop changes the header %s of responses" % (h or "(unknown)"), trace_text(st.trace))
    R = run_handle(c, tell)
    return R["eng"].visited_bodies if R is not None else set()


def everywhere(c, visited):
    """outside of what was followed in detail, only typed changes of the headers above"""
    p = c.p
    paths = {p.bodies[i]["path"] for i in visited}
    for bi, b in enumerate(p.bodies):
        if b is None or not b.get("local"):
            continue
        for ci, sp in c.cg.edges(bi)[0]:
            cc = p.callees[ci]
            if not is_setter(cc["short"]):
                continue
            c.count("calls that change headers")
            ty = p.tname(cc["args"][-1]) if cc["args"] else None
            c.require(b["path"] in paths and ty in KNOWN | {None} or ty in KNOWN and cc["short"].split("::")[-1] in ("set", "remove"), "call:%s:%s" % (b["path"], ty), p.where(sp) if sp and sp[1] else b["path"],
                      "the library changes headers with %s%s" % (cc["short"], " of " + ty if ty else ""))

