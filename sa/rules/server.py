"""The request loop: what happens between a parsed request head and the response being let go."""
from terms import *
import terms
from ctx import short, facts_text, trace_text
from rules import prop

MODIFY = "filter::ContextFilter::modify"
HANDLE = "handler::HandleRequest::handle_request"
HSET = ("hyper::header::Headers::set", "hyper::header::Headers::set_raw", "hyper::header::Headers::remove", "hyper::header::Headers::remove_raw",
        "hyper::header::Headers::clear", "hyper::header::Headers::append_raw", "hyper::header::Headers::get_mut")
STATUS = "hyper::status::StatusCode"


def is_hyper_response(t):
    return t["k"] == "adt" and t["path"] == "hyper::server::Response"


def status(c, name):
    for t in c.p.types:
        if t["k"] == "adt" and t["path"] == STATUS and t.get("vs"):
            for i, v in enumerate(t["vs"]):
                if v["n"] == name:
                    return T("agg", STATUS, i, ())
    c.violation("anchor:StatusCode::" + name, "-", "status code not found")
    return None


def is_status(c, eng, st, v, want):
    """is status value v known to be want (an aggregate)?"""
    if v is want:
        return True
    d = eng.discr(v)
    return eng.known(st, d) == eng.p.discr_of(want.args[0], want.args[1])


def isv(eng, st, v, d):
    """is v of the variant with discriminant d? 1, 0 or None"""
    return eng.known(st, terms.eq(eng.discr(v), INT(d)))


def sel(eng, v, path):
    for pe in path:
        v = eng.sel(v, pe)
    return v


class St:
    """just enough of a state to ask for facts at an exit"""
    def __init__(self, facts):
        self.facts = facts


def run_handle(c, tell, watch=None, enter=None, keep_too=None, before=None):
    """Drive the analysis of Handler::handle. tell(kind, ...) gets the monitored events."""
    p = c.p
    f = c.fn("ServerInstance", "handle", "Handler")
    wpath = c.part("Response", is_hyper_response, "the hyper response")
    spath = c.part("Response", lambda t: t["k"] == "adt" and t["path"].startswith("anymap::Map"), "the filter storage")
    cfield = c.field("ServerInstance", lambda n, ti: "ContextFilter" in p.tstr(ti))
    if None in (f, wpath, spath, cfield):
        return None
    ok, nf = c.variant("ContextAction", "Next"), c.variant("ContextAction", "Abort")
    fcs = c.field("FilterContext", lambda n, ti: "anymap" in p.tstr(ti))
    env_response = c.field("Environment", lambda n, ti: p.tname(ti) == "Response")
    if None in (ok, nf, fcs, env_response):
        c.violation("anchor:ContextAction", "-", "ContextAction, FilterContext or Environment have changed")
        return None
    filters = fld(T("deref", T("param", 1)), 0, cfield)
    R = {"f": f, "wpath": wpath, "spath": spath, "filters": filters, "next": ok, "abort": nf, "env_response": env_response}
    ROOT = {}

    # the answer before the first one: the same as Next
    START = T("agg", p.types[c.type_of("ContextAction")]["path"], ok, ())

    # monitor: filters called so far, last answer, storage after it, handler calls, default headers present, status at the end, ends
    def mon(**k):
        d = {"n": INT(0), "last": START, "store": UNIT, "handled": INT(0), "hdr": T("none"), "status": UNIT, "ends": INT(0), "result": UNIT}
        d.update(k)
        return pack(d)

    def pack(d):
        return T("agg", "mon", 0, tuple(d[k] for k in KEYS))

    def unpack(m):
        return dict(zip(KEYS, m.args[2]))
    KEYS = ("n", "last", "store", "handled", "hdr", "status", "ends", "result")

    def rel(eng, st, call, res):
        n = call.name
        m = unpack(st.mon)
        if watch is not None:
            watch(eng, st, call, res)
        where = p.where(call.span) if call.span and call.span[1] else c.where(f)
        if n == MODIFY and res is not None:
            el = [x for x in walk(call.args[0]) if x.op == "elem" and x.args[0] is filters and x.args[1] == "idx"]
            idx = el[0].args[2] if len(el) == 1 else None
            st_root = eng.target(fld(call.args[1], 0, fcs))
            tell("modify", eng, st, where, m, idx, call)
            m["n"] = add(m["n"], INT(1))
            m["last"] = res
            m["store"] = eng.load(st, *st_root)
            st.mon = pack(m)
            return ("filter", where, idx if idx is not None else call.args[0])
        if n == HANDLE and res is not None:
            resp = fld(call.args[1], 0, env_response)
            tell("handle", eng, st, where, m, resp, call)
            m["handled"] = add(m["handled"], INT(1))
            m["result"] = res
            st.mon = pack(m)
            return ("handler", where)
        if n in HSET and res is not None:
            tell("header", eng, st, where, m, call, None)
            nm = "?"
            if n.endswith("::set") and call.args[1].op == "agg":
                nm = call.args[1].args[0].split("::")[-1]
            return ("header", where, n.split("::")[-1], nm)
        if n == "Drop::drop" and res is not None:
            if p.tname(call.c.get("droppee", call.c["args"][0])) != "Response":
                return None
            root, path = eng.target(call.args[0])
            # the state before the drop
            v = ROOT["pre"]
            s = sel(eng, v, wpath + (("f", 0, 101),))
            tell("drop", eng, st, where, m, v, s)
            m["status"] = s
            m["ends"] = add(m["ends"], INT(1))
            st.mon = pack(m)
            return ("response let go", where, s)
        return None

    def interesting(n):
        return n in (MODIFY, HANDLE) or n in HSET

    def target_of(ti):
        """a request target, or a reference to one"""
        t = p.types[ti]
        while t["k"] == "ref":
            t = p.types[t["e"]]
        return t["k"] == "adt" and t["path"] == "hyper::uri::RequestUri"
    # where the kinds of targets may be told apart
    looks = {bi for bi, b in enumerate(p.bodies) if b is not None and b.get("local") and any(ti is not None and target_of(ti) for ti in b["locals"][1:b["argc"] + 1])}

    def pred(cc):
        return cc.get("body") in looks or interesting(cc["short"]) or cc["short"] in ("hyper::server::Response::headers_mut", "hyper::server::Response::status_mut") or bool(enter and enter(cc))

    eng = c.engine(rel=rel, opaque=c.opaque_unless("handle", pred, also=lambda cc: cc["short"] == "Drop::drop" and p.tname(cc.get("droppee", cc["args"][0])) == "Response"))
    uidx = c.field("Context", lambda n, ti: p.tname(ti) == "UriPath")
    R["uri"] = uidx

    def keep(t):
        """facts about the request target and its path are looked at in the end"""
        if keep_too is not None and keep_too(eng, t):
            return True
        if t.op != "discr" or t.args[0].op != "fld":
            return False
        x = t.args[0]
        if x.args[2] == uidx and x.args[1] == 0:
            return True
        o = eng.origin.get(x.args[0])
        return o is not None and o.name == "hyper::server::Request::deconstruct" or o is not None and o.c.get("body") is not None
    eng.keep_facts = keep
    # remember what is dropped before the call makes it unknown
    orig = eng.havoc

    def havoc(st, cc, args, atys, vals, res):
        if before is not None:
            before(eng, st, cc, args, res)
        if cc["short"] == "Drop::drop":
            ROOT["pre"] = eng.load(st, *eng.target(args[0]))
        orig(st, cc, args, atys, vals, res)
    eng.havoc = havoc

    def settle(st):
        m = unpack(st.mon)
        if m["last"] is not START and eng.known(st, eng.discr(m["last"])) == ok:
            m["last"] = START
            st.mon = pack(m)
    eng.settle = settle
    R["eng"] = eng
    R["unpack"] = unpack
    ex = c.run(eng, f, mon=mon())
    R["exits"] = [e for e in ex if e.kind == "return"] if ex is not None else None
    return R


@prop("C01")
def c01(c):
    c.rule("every ContextFilter::modify call is on element i of the configured list, i = number of filter calls so far, and only after every earlier answer is known to be Next")
    c.rule("HandleRequest::handle_request is called only after all filters of the list were called and the last answer is known to be Next")
    c.rule("on the way out after an answer that may be Abort(s): no handler was called, and the response is let go with status s")
    c.rule("the storage value the filters got is in the response's filter storage when the handler or the end of the response is reached")
    seen = {"modify": set(), "handle": set(), "drop": set()}
    V = {}

    def tell(kind, eng, st, where, m, a, b):
        if kind == "modify":
            seen["modify"].add(where)
            c.require(a is not None and eng.known(st, terms.eq(a, m["n"])) == 1, "filter-order", where,
                      "a context filter is called that is not the next one in the configured order: it calls %s after %s calls" % (short(a if a is not None else b.args[0]), short(m["n"])), trace_text(st.trace))
            if m["n"] is not INT(0):
                c.require(known_next(eng, st, m["last"]), "filter-after-abort", where, "a context filter is called although the previous one may have aborted", trace_text(st.trace))
            c.require(m["handled"] is INT(0), "filter-after-handler", where, "a context filter is called after the handler")
        elif kind == "handle":
            seen["handle"].add(where)
            V["R"] = True
            ln = eng.length(F["filters"])
            c.require(eng.known(st, terms.lt(m["n"], ln)) == 0, "handler-before-filters", where, "the handler runs although not every context filter was called", trace_text(st.trace) + facts_text(st.facts))
            if m["n"] is not INT(0):
                c.require(known_next(eng, st, m["last"]), "handler-after-abort", where, "the handler runs although the last context filter may have aborted", trace_text(st.trace) + facts_text(st.facts))
            c.require(m["handled"] is INT(0), "handler-twice", where, "the handler can be called twice for one request")
            storage(eng, st, where, m, a)
        elif kind == "drop":
            seen["drop"].add(where)
            if m["handled"] is INT(0):
                storage(eng, st, where, m, a)

    def storage(eng, st, where, m, resp):
        if m["store"] is UNIT:
            return
        v = sel(eng, resp, F["spath"])
        c.require(v is m["store"], "filter-storage", where, "the response does not carry the filter storage that the context filters used", ["it has %s" % short(v), "they left %s" % short(m["store"])])

    def known_next(eng, st, r):
        return eng.known(st, eng.discr(r)) == F["next"]
    cf = c.field("ServerInstance", lambda n, ti: "ContextFilter" in c.p.tstr(ti))
    F = {"next": c.variant("ContextAction", "Next"), "filters": fld(T("deref", T("param", 1)), 0, cf) if cf is not None else None}
    F["spath"] = c.part("Response", lambda t: t["k"] == "adt" and t["path"].startswith("anymap::Map"), "the filter storage")
    if F["next"] is None or F["filters"] is None or F["spath"] is None:
        return
    R = run_handle(c, tell)
    if R is None or R["exits"] is None:
        return
    eng = R["eng"]
    aborted = 0
    for e in R["exits"]:
        m = R["unpack"](e.mon)
        s = St(e.facts)
        if m["handled"] is INT(0) and m["n"] is not INT(0) and not known_next(eng, s, m["last"]):
            aborted += 1
            want = fld(m["last"], R["abort"], 0)
            c.require(m["ends"] is INT(1) and (m["status"] is want), "abort-status", c.where(R["f"]),
                      "after a context filter aborted the response ends with status %s instead of the filter's" % short(m["status"]), trace_text(e.trace) + facts_text(e.facts))
    for k in seen:
        c.count("call sites: " + k, len(seen[k]))
        c.floor("call sites: " + k, 1)
    c.count("paths with an aborting filter", aborted)
    c.floor("paths with an aborting filter", 1)


def uri_variants(c):
    for t in c.p.types:
        if t["k"] == "adt" and t["path"] == "hyper::uri::RequestUri" and t.get("vs"):
            return {v["n"]: v["d"] for v in t["vs"]}
    return None


def uri_kind(eng, s):
    """what is known about the request target: the set of variants that it cannot be, or the only one it can be"""
    for t, v in s.facts.items():
        if t.op == "discr" and t.args[0].op == "fld" and t.args[0].args[0].op == "call":
            o = eng.origin.get(t.args[0].args[0])
            if o is not None and o.name == "hyper::server::Request::deconstruct":
                return v
    return None


def statuses(c, eng, st, resp):
    """the places where a response keeps its status (of an actual and of a mock response), as far as the facts allow them"""
    p = c.p
    ti = c.type_of("Response")
    ps = [x + (("f", 0, 101),) for x in c.tpaths(ti, is_hyper_response)]
    ps += list(c.tpaths(ti, lambda t: t["k"] == "adt" and t["path"] == STATUS))
    out = []
    for path in ps:
        v = resp
        ok = True
        t = p.types[ti]
        for pe in path:
            if t is not None and t.get("kind") == "enum":
                k = eng.known(st, eng.discr(v))
                if k is not None and k != t["vs"][pe[1]]["d"]:
                    ok = False
                    break
            v = eng.sel(v, pe)
            t = p.types[t["vs"][pe[1]]["fs"][pe[2]][1]] if t is not None and t["k"] == "adt" and t.get("vs") and pe[2] < 100 else None
        if ok:
            out.append((path, v))
    return out


@prop("C04")
def c04(c):
    c.rule("targets other than path, absolute URI and '*': no filter, no handler, status 400 when the response is let go")
    c.rule("'*': no handler call; a path or absolute URI always reaches the handler unless a filter aborted")
    c.rule("a rejected request's response is let go with 404 if its status is known to be 200, and with the very status it had otherwise")
    c.rule("nothing changes the status after the handler accepted")
    bad, nf, ok = status(c, "BadRequest"), status(c, "NotFound"), status(c, "Ok")
    uv = uri_variants(c)
    if None in (bad, nf, ok, uv):
        return
    F = {}
    okd = c.p.discr_of(STATUS, ok.args[1])

    pv, av = c.variant("UriPath", "Path"), c.variant("UriPath", "Asterisk")

    def tell(kind, eng, st, where, m, a, b):
        if kind == "handle":
            ctx = fld(b.args[1], 0, F["ctx"])
            u = fld(ctx, 0, F["uri"])
            c.count("handler calls")
            c.require(isv(eng, st, u, pv) == 1, "asterisk-handled", where, "the request handler can be called although the request target is not known to be a path: %s" % short(u), trace_text(st.trace) + facts_text(st.facts))
        if kind == "handle" and m["n"] is INT(0):
            k = uri_kind(eng, st)
            if isinstance(k, int) and k == uv["Star"]:
                c.require(False, "star-handled", where, "a '*' target reaches the request handler", trace_text(st.trace))
        if kind == "drop" and m["handled"] is not INT(0):
            env = fld(m["result"], 1, 0)
            r0 = fld(env, 0, F["env"])
            if isv(eng, st, m["result"], 1) != 1:
                c.require(False, "drop-after-accept", where, "a response is let go by the server although the handler accepted the request")
                return
            n = 0
            for path, s0 in statuses(c, eng, st, r0):
                s = sel(eng, a, path)
                k = eng.known(st, terms.eq(eng.discr(s0), INT(okd)))
                n += 1
                w = None
                if k == 1:
                    c.count("rejected with 200")
                    c.require(is_status(c, eng, st, s, nf), "rejected-404", where, "a request that was rejected with status 200 is not answered with 404 but with %s" % short(s), trace_text(st.trace) + facts_text(st.facts))
                elif k == 0:
                    c.count("rejected with another status")
                    c.require(s is s0, "rejected-status-kept", where, "the status that the handler chose for a rejected request is replaced by %s" % short(s), trace_text(st.trace) + facts_text(st.facts))
                else:
                    c.require(False, "rejected-unseen", where, "a rejected request is answered without looking at its status (%s)" % short(s), trace_text(st.trace) + facts_text(st.facts))
    F["env"] = c.field("Environment", lambda n, ti: c.p.tname(ti) == "Response")
    F["ctx"] = c.field("Environment", lambda n, ti: c.p.tname(ti) == "Context")
    F["uri"] = c.field("Context", lambda n, ti: c.p.tname(ti) == "UriPath")
    F["pre"] = None
    if None in F.values() and F["env"] is None or F["ctx"] is None or F["uri"] is None or pv is None or av is None:
        c.violation("anchor:Environment", "-", "Environment, Context or UriPath have changed")
        return
    R = run_handle(c, tell)
    if R is None or R["exits"] is None:
        return
    eng = R["eng"]
    w = c.where(R["f"])
    for e in R["exits"]:
        m = R["unpack"](e.mon)
        s = St(e.facts)
        k = uri_kind(eng, s)
        det = trace_text(e.trace) + facts_text(e.facts)
        if k is None:
            c.require(False, "target-unseen", w, "a request is handled without looking at the kind of its target", det)
            continue
        kinds = {n for n, d in uv.items() if (d == k if isinstance(k, int) else d not in k)}
        if not kinds & {"AbsolutePath", "AbsoluteUri", "Star"}:
            c.count("paths with an unroutable target")
            c.require(m["handled"] is INT(0) and m["n"] is INT(0), "unroutable-reaches-application", w, "a request without a routable target reaches filters or handlers", det)
            c.require(m["ends"] is INT(1) and is_status(c, eng, s, m["status"], bad), "unroutable-400", w, "a request without a routable target is answered with status %s" % short(m["status"]), det)
        elif not kinds <= {"AbsolutePath", "AbsoluteUri", "Star"}:
            c.require(False, "target-mixed", w, "requests with routable and unroutable targets are treated the same (%s)" % sorted(kinds), det)
        if kinds == {"Star"}:
            c.count("paths with '*'")
        if kinds <= {"AbsolutePath", "AbsoluteUri"} and kinds:
            aborted = m["n"] is not INT(0) and isv(eng, s, m["last"], R["next"]) != 1
            if m["handled"] is INT(0) and not aborted:
                # only possible if the context filters have made it something else
                c.count("paths without a handler call")
                c.require(any(t.op == "discr" and t.args[0].op == "fld" and not_path(v, pv) and uri_part(eng, t.args[0], F["uri"]) for t, v in e.facts.items()),
                          "path-unhandled", w, "a request with a path never reaches the request handler", det)
        if m["handled"] is not INT(0):
            c.require(isv(eng, s, m["result"], 1) == 0 or m["ends"] is INT(1) or no_writer(eng, s, m, R), "rejected-lost", w, "the outcome of the handler is ignored", det)
    # the parts of a parsed target
    for f in c.p.fns:
        if f["body"] is None or "trait" in f:
            continue
        if not any(b == f["body"] for b in c.cg.succ_bodies(R["f"]["body"])):
            continue
        t = c.p.types[f["out"]]
        if t["k"] != "adt" or not t.get("local") or not t.get("vs"):
            continue
        ps = [i for i, x in enumerate(t["vs"][0]["fs"]) if c.p.tname(x[1]) == "UriPath"]
        if len(ps) != 1 or f["name"] in ("mock",):
            continue
        c.count("parsers of request targets")
        e2 = c.engine(opaque=lambda cc: c.p.tname(cc["out"]) == "Parameters" if cc.get("out") is not None and cc.get("body") is not None else False)
        ex = c.run(e2, f)
        pv = c.variant("UriPath", "Path")
        for e in ex or ():
            if e.kind != "return":
                continue
            u = fld(e.ret, 0, ps[0])
            c.require(u.op == "agg" and u.args[1] == pv, "parsed-not-a-path", c.where(f), "a request target that is a path is taken for something else: %s" % short(u))
    c.floor("paths with an unroutable target", 1)
    c.floor("paths with '*'", 1)
    c.floor("rejected with 200", 1)
    c.floor("rejected with another status", 1)


def not_path(v, pv):
    return v != pv and (not isinstance(v, frozenset) or pv in v)


def uri_part(eng, x, uidx):
    """is x the path of the request, as parsed or as the filters left it?"""
    if x.args[2] == uidx:
        return True
    o = eng.origin.get(x.args[0])
    return o is not None and o.c.get("body") is not None


def no_writer(eng, s, m, R):
    """the response came back from the handler without anything left to send"""
    env = fld(m["result"], 1, 0)
    r0 = fld(env, 0, R["env_response"])
    v = r0
    for pe in R["wpath"][:1]:
        v = eng.sel(v, pe)
    return eng.known(s, eng.discr(v)) == 0


DEFAULTS = ("Date", "ContentType", "Server")


@prop("C05")
def c05(c):
    c.rule("when the request handler is called or the response is let go, Date (now), ContentType and Server (of the configuration) have been set in the response's headers on every path")
    c.rule("none of the three is set to something else or removed by the server")
    p = c.p
    fm = c.field("ServerInstance", lambda n, ti: p.tname(ti) == "Mime")
    fs = c.field("ServerInstance", lambda n, ti: p.tname(ti) == "String")
    if fm is None or fs is None:
        c.violation("anchor:ServerInstance", "-", "the fields for content type and server name are not found")
        return
    me = T("deref", T("param", 1))
    c.count("points", 0)

    def tell(kind, eng, st, where, m, a, b):
        if kind == "header":
            root, path = eng.target(a.args[0])
            if not path or path[-1] != ("f", 0, 100):
                return      # not the response's headers
            n = a.name.split("::")[-1]
            ty = p.tname(a.c["args"][-1]) if a.c["args"] else "?"
            if n == "set":
                v = eng.deepval(st, a.args[1])
                if ty not in DEFAULTS:
                    return
                if ty == "Date":
                    ok = any(x.op == "call" and eng.origin.get(x) is not None and eng.origin[x].name == "time::now_utc" for x in walk(v))
                elif ty == "ContentType":
                    ok = v.op == "agg" and v.args[2] and v.args[2][0] is fld(me, 0, fm)
                else:
                    ok = v.op == "agg" and v.args[2] and v.args[2][0] is fld(me, 0, fs)
                c.require(ok, "default-value:" + ty, where, "the %s header is set to something else than the default: %s" % (ty, short(v)))
                have = set(m["hdr"].args[0]) if m["hdr"].op == "hdrs" else set()
                m["hdr"] = T("hdrs", tuple(sorted(have | {ty})))
                st.mon = st.mon.args and T("agg", "mon", 0, tuple(m[k] for k in m))
            elif n in ("remove",) and ty in DEFAULTS:
                c.require(False, "default-removed", where, "the %s header is removed" % ty)
            elif n in ("set_raw", "remove_raw", "append_raw", "clear", "get_mut"):
                nm = a.args[1] if len(a.args) > 1 else None
                c.require(nm is not None and nm.op == "vref" and nm.args[0].op == "str" and nm.args[0].args[0].lower() not in ("date", "content-type", "server"),
                          "default-touched", where, "the response's headers are changed by %s" % n)
        elif kind in ("handle", "drop"):
            if m["handled"] is not INT(0):
                return
            c.count("points")
            have = set(m["hdr"].args[0]) if m["hdr"].op == "hdrs" else set()
            for h in DEFAULTS:
                c.require(h in have, "default-missing:" + h, where, "the response gets here without the default %s header" % h, trace_text(st.trace) + facts_text(st.facts))
    R = run_handle(c, tell)
    c.floor("points", 3)


def server_force_close(c):
    """C09, the part of the request loop: how the mark for forced close is decided"""
    p = c.p
    fc = c.field("Response", lambda n, ti: p.tname(ti) == "bool")
    ka = c.field("ServerInstance", lambda n, ti: "KeepAlive" in p.tstr(ti))
    th = c.field("ServerInstance", lambda n, ti: p.tname(ti) == "usize")
    cnt = c.field("ServerInstance", lambda n, ti: "Atomic" in p.tstr(ti))
    kf = c.field("KeepAlive", lambda n, ti: p.tname(ti) == "usize")
    if None in (fc, ka, th, cnt, kf):
        c.violation("anchor:force_close", "-", "the parts that decide about keep-alive are not found")
        return
    me = T("deref", T("param", 1))
    keep = fld(me, 0, ka)
    free = fld(fld(keep, 1, 0), 0, kf)
    threads = fld(me, 0, th)

    def tell(kind, eng, st, where, m, a, b):
        if kind not in ("handle", "drop") or m["handled"] is not INT(0):
            return
        resp = a
        v = fld(resp, 0, fc) if resp.op == "agg" else eng.sel(resp, ("f", 0, fc))
        k = eng.known(st, eng.discr(keep))
        loads = [x for x, o in eng.origin.items() if o.name in ("Atomic::load", "AtomicUsize::load")]
        ok = False
        want = None
        if k == 0:
            ok = v is FALSE or eng.known(st, v) == 0
            c.count("without keep-alive")
        elif k == 1:
            c.count("with keep-alive")
            for l in loads:
                want = terms.lt(threads, add(l, free))
                if v is want or terms.neg(v) is terms.neg(want):
                    ok = True
                elif v.op == "int":
                    ok = ok or eng.known(st, want) == v.args[0]
                o = eng.origin[l]
                r, pth = eng.target(o.args[0])
                c.require(pth == (("f", 0, cnt),), "busy-threads-source", where, "the number of busy threads is not taken from the connection counter")
        c.require(ok, "force-close-decision", where, "a response is marked for forced close by another condition than keep-alive being configured and busy + free threads > threads: %s" % short(v),
                  trace_text(st.trace) + facts_text(st.facts))
    run_handle(c, tell)
    c.floor("without keep-alive", 1)
    c.floor("with keep-alive", 1)
