"""What filters and handlers see of a request (C45)."""
from terms import *
import terms
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import View, OFF
from rules.server import run_handle, uri_kind, uri_variants, MODIFY, HSET, sel

DECONSTRUCT = "hyper::server::Request::deconstruct"
PARTS = {"SocketAddr": 0, "Method": 1, "Headers": 2, "HttpVersion": 4}


def request_part(eng, v, i):
    """is v this part of the request that was received?"""
    if v.op != "fld" or v.args[1:] != (0, i):
        return False
    o = eng.origin.get(v.args[0])
    return o is not None and o.name == DECONSTRUCT


def joined(eng, v):
    """the values that v may be"""
    seen, todo, out = set(), [v], []
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("old", "stale") and isinstance(x.args[0], Term):
            todo.append(x.args[0])
        elif x.op == "phi" and eng.phisrc.get(x):
            todo += [y for y, l in eng.phisrc[x]]
        else:
            out.append(x)
    return out


class Seen:
    def __init__(self, c):
        self.c, p = c, c.p
        self.f = {}
        for ty in PARTS:
            self.f[ty] = c.field("Context", lambda n, ti: p.tname(ti) == ty)
        self.f["path"] = c.field("Context", lambda n, ti: p.tname(ti) == "UriPath")
        for n in ("variables", "hyperlinks"):
            self.f[n] = c.field("Context", lambda m, ti: m == n)
        self.f["global"] = c.field("Context", lambda n, ti: "Global" in p.tstr(ti) and "Reader" not in p.tstr(ti))
        self.f["body"] = c.field("Context", lambda n, ti: p.tname(ti).endswith("Reader") or "body" in n)
        self.server_global = c.field("ServerInstance", lambda n, ti: p.tname(ti) == "Global")
        self.env_ctx = c.field("Environment", lambda n, ti: p.tname(ti) == "Context")
        self.env_path = c.field("Environment", lambda n, ti: p.tname(ti) == "RouteState")
        self.good = None not in self.f.values() and None not in (self.server_global, self.env_ctx, self.env_path)
        if not self.good:
            c.violation("anchor:Context", "-", "Context, Environment or ServerInstance have changed: %s" % [k for k, v in self.f.items() if v is None])


@prop("C45")
def c45(c):
    c.rule("the context that the first context filter, or the handler if there are none, gets: address, method, HTTP version and headers are the ones of Request::deconstruct of this request, the body reads from its reader, the global data is the server's, hyperlinks and variables are empty")
    c.rule("the headers were changed only by setting Host to the host and port of the target, on exactly the paths where Url::host_str of the target gave a host and never for another kind of target")
    c.rule("between filters, and between the last filter and the handler, the context is left as the filter left it; the path that is routed is made of the path that this context has")
    p = c.p
    s = Seen(c)
    uv = uri_variants(c)
    if not s.good or uv is None:
        return
    me = T("deref", T("param", 1))
    flagged = {}
    later = []
    checked = set()
    bodies = {}
    hosts = set()

    def initial(eng, st, where, v, det):
        """a context that no filter has seen yet"""
        c.count("contexts")
        for ty, i in PARTS.items():
            x = eng.sel(v, ("f", 0, s.f[ty]))
            if ty == "Headers":
                continue
            c.require(all(request_part(eng, y, i) for y in joined(eng, x)), "part:" + ty, where, "the context does not have the %s of the request but %s" % (ty, short(x)), det)
        headers(eng, st, where, eng.sel(v, ("f", 0, s.f["Headers"])), eng.sel(v, ("f", 0, s.f["path"])), det)
        x = eng.sel(v, ("f", 0, s.f["global"]))
        root, path = eng.target(x) if x.op == "ref" else (None, ())
        c.require((root is T("O", T("param", 1)) or root is T("O", me)) and path == (("f", 0, s.server_global),) or x.op == "vref" and x.args[0] is fld(me, 0, s.server_global) or show(x) == "&(deref(param(1)).%d)" % s.server_global,
                  "global", where, "the context does not refer to the global data of the server: %s" % short(x), det)
        for n in ("variables", "hyperlinks"):
            x = eng.sel(v, ("f", 0, s.f[n]))
            c.require(show(x).split("{")[-1].strip("}") in ("vnew()", "mnew()"), "not-empty:" + n, where, "the %s of a new context are not known to be empty: %s" % (n, short(x)), det)
        x = eng.deepval(st, eng.sel(v, ("f", 0, s.f["body"])))
        b = bodies.get(x)
        src = b[0] if b is not None else x
        good = any(request_part(eng, y, 5) for y in walk(src))
        c.require(good, "body", where, "the body of the context does not read from the request: %s" % short(x), det)
        if b is not None and b[1]:
                h = eng.sel(v, ("f", 0, s.f["Headers"]))
                c.require(h in b[1], "body-headers", where, "the body is made with other headers than the context has: %s" % short(h), det)

    def headers(eng, st, where, v, uri, det):
        c.count("header collections")
        k = uri_kind(eng, st)
        sets = []
        x = v
        while x.op == "upd":
            o = eng.origin.get(x.args[1])
            if o is None or not c.require(o.name.endswith("Headers::set") and o in flagged, "headers-changed", where, "the headers of the request are changed by %s" % (o.name if o is not None else short(x)), det):
                return
            sets.append(flagged[o])
            x = x.args[2]
        if not c.require(request_part(eng, x, PARTS["Headers"]), "part:Headers", where, "the context does not have the headers of the request but %s" % short(x), det):
            return
        u = uri
        while u.op == "fld" and not (eng.origin.get(u) is not None):
            u = u.args[0]
        o = eng.origin.get(u)
        body = o.c.get("body") if o is not None else None
        absolute = k == uv["AbsoluteUri"]
        n = 0
        if body is not None and p.bodies[body] is not None and p.bodies[body].get("local"):
            for eng2, e in summary(body):
                # what this way through the parser makes of the facts that are known here
                def proj(x):
                    if x is u:
                        return e.ret
                    return eng2.sel(proj(x.args[0]), ("f", x.args[1], x.args[2])) if x.op == "fld" and over(x, u) else x
                v2 = View(e)
                if any(t.op == "discr" and over(t.args[0], u) and conflict(eng2.known(v2, eng2.discr(proj(t.args[0]))), val) for t, val in st.facts.items()):
                    continue
                n += 1
                outcome(eng2, e.st, e.mon, [(ty, deep(proj, x)) for ty, x in sets], where, det, absolute)
            if not n:
                c.count("ways that no target takes")
        else:
            known = [(t.args[0], eng.known(st, t)) for t, val in st.facts.items() if t.op == "discr" and is_host(eng, t.args[0])]
            outcome(eng, st, UNIT if not known else T("host", fld(known[0][0], 1, 0)) if known[0][1] == 1 else OFF, sets, where, det, absolute)

    def over(x, u):
        while x.op == "fld":
            x = x.args[0]
            if x is u:
                return True
        return x is u

    def conflict(k, val):
        return k is not None and (k != val if isinstance(val, int) else isinstance(val, frozenset) and k in val)

    def deep(proj, x):
        if x.op == "agg":
            return T("agg", x.args[0], x.args[1], tuple(deep(proj, y) for y in x.args[2]))
        return proj(x)
    summaries = {}

    def summary(body):
        if body not in summaries:
            e2 = c.engine(opaque=lambda cc: cc.get("out") is not None and p.tname(cc["out"]) == "Parameters" or c.cg_far(cc))
            e2.split = lambda eng, st, call, res: [(T("agg", p.types[call.dty]["path"], 1, (fld(res, 1, 0),)), T("host", fld(res, 1, 0))), (T("agg", p.types[call.dty]["path"], 0, ()), OFF)] if call.name.endswith("Url::host_str") else None
            summaries[body] = [(e2, e) for e in c.run(e2, body, mon=UNIT) or () if e.kind == "return"]
        return summaries[body]

    def outcome(eng, st, host, sets, where, det, absolute):
        """one way to know about the host of the target"""
        c.count("ways through targets")
        if host.op == "host":
            hosts.add(where)
            c.count("targets with a host")
            if not c.require(len(sets) == 1, "host-missing", where, "the target has a host, but it is not set as the Host header exactly once (%d times)" % len(sets), det):
                return
            ty, val = sets[0]
            if c.require(ty == "Host" and val.op == "agg", "other-header", where, "the request gets the header %s" % ty, det):
                name, port = val.args[2][0], val.args[2][1]
                c.require(made_of(eng, st, name, host.args[0]), "host-name", where, "the Host header is set to something else than the host of the target: %s" % short(name), det)
                o = eng.origin.get(port)
                c.require(port.op == "app" and port.args[0].split("::")[-1] == "port" or o is not None and o.name.endswith("Url::port"), "host-port", where, "the port of the Host header is not the one that the target gives explicitly: %s" % short(port), det)
        else:
            c.count("targets without a host")
            c.require(not sets, "host-invented", where, "a header of the request is set although the target has no host: %s" % [short(x[1]) for x in sets], det)
            c.require(host is OFF or not absolute, "host-unseen", where, "the host of an absolute target is not looked at", det)

    def is_host(eng, x):
        if x.op == "app":
            return x.args[0].split("::")[-1] == "host_str"
        o = eng.origin.get(x)
        return o is not None and o.name.endswith("Url::host_str")

    def made_of(eng, st, x, want):
        for _ in range(8):
            x = eng.deepval(st, x)
            if x is want or x.op == "deref" and x.args[0] is want:
                return True
            if x.op in ("vref", "&") or x.op == "deref":
                x = x.args[0]
            elif x.op == "app" and x.args[0].split("::")[-1] in ("from", "into", "to_owned", "to_string", "clone", "deref", "as_ref") and len(x.args[1]) == 1:
                x = x.args[1][0]
            elif eng.origin.get(x) is not None and eng.origin[x].name.split("::")[-1] in ("from", "into", "to_owned", "to_string", "clone") and len(eng.origin[x].args) == 1:
                x = eng.origin[x].args[0]
            else:
                return False
        return False

    def context(eng, st, where, v, what, det):
        """v is the context as the filters left it, or a new one"""
        if v.op == "phi":
            later.append((v, eng, where, what, det))
            return
        if v.op == "upd" and v.args[0] == MODIFY:
            c.count("contexts left by filters")
            return
        if v.op == "agg":
            fs = [eng.sel(v, ("f", 0, i)) for i in range(len(v.args[2]))]
            # taken apart and put together again
            b = fs[0].args[0] if fs[0].op == "fld" else None
            if b is not None and all(x is fld(b, 0, i) for i, x in enumerate(fs)) and (b.op in ("upd", "phi")):
                return context(eng, st, where, b, what, det)
            checked.add(v)
            initial(eng, st, where, v, det)
            return
        c.require(False, "changed", where, "%s gets a context that is neither new nor as a filter left it: %s" % (what, short(v)), det)

    def tell(kind, eng, st, where, m, a, b):
        det = trace_text(st.trace) + facts_text(st.facts)
        if kind == "modify":
            c.count("filter calls")
            v = next((x for x, ti in zip(got.get(now["modify"], ()), b.atys) if ti is not None and p.types[ti]["k"] == "ref" and p.tname(p.types[ti]["e"]) == "Context"), None)
            if c.require(v is not None, "filter-context", where, "the context that a filter gets cannot be found", det):
                context(eng, st, where, v, "a context filter", det)
        elif kind == "handle":
            c.count("handler calls")
            v = eng.sel(b.args[1], ("f", 0, s.env_ctx))
            context(eng, st, where, v, "the handler", det)
            route = eng.deepval(st, eng.sel(b.args[1], ("f", 0, s.env_path)))
            path = eng.deepval(st, eng.sel(v, ("f", 0, s.f["path"])))
            c.require(routed(eng, st, route, path), "routed", where, "another path is routed than the context has: %s instead of %s" % (short(route), short(path)), det)
        elif kind == "header":
            root, path = eng.target(a.args[0])
            if path and path[-1] == ("f", 0, 100):
                return
            ty = p.tname(a.c["args"][-1]) if a.c["args"] else "?"
            flagged[a] = (ty, eng.deepval(st, a.args[1]) if len(a.args) > 1 else UNIT)

    def routed(eng, st, route, path):
        """is every unknown part of route a part of path?"""
        def leaves(x, out):
            x = eng.deepval(st, x)
            if x is path:
                out.add(True)
                return
            if x.op == "fld":
                y = x
                while y.op == "fld":
                    if y is path:
                        out.add(True)
                        return
                    y = y.args[0]
                if y is path:
                    out.add(True)
                    return
                if any(x is z for z in inside):
                    out.add(True)
                    return
                out.add(x)
                return
            if x in inside and x.op not in ("int", "unit"):
                out.add(True)
                return
            if x.op in ("agg", "app"):
                for y in x.args[2 if x.op == "agg" else 1]:
                    leaves(y, out)
                return
            if x.op in ("vref", "&", "deref"):
                return leaves(x.args[0], out)
            o = eng.origin.get(x)
            if o is not None and len(o.args) == 1:
                return leaves(o.args[0], out)
            if x.op not in ("int", "unit", "str"):
                out.add(x)
        inside = set(walk(path))
        out = set()
        leaves(route, out)
        return out == {True}

    got = {}
    now = {}

    def before(eng, st, cc, args, res):
        got[res] = tuple(eng.load(st, *eng.target(a)) if a.op == "ref" else a for a in args)

    def watch(eng, st, call, res):
        if res is None:
            return
        if call.name == MODIFY:
            now["modify"] = res
        if call.dty is not None and p.types[call.dty].get("local") and call.dty == body_type:
            hs = [v for v, ti in zip(got.get(res, ()), call.atys) if ti is not None and p.types[ti]["k"] == "ref" and p.tname(p.types[ti]["e"]) == "Headers"]
            bodies.setdefault(res, (T("agg", "args", 0, tuple(eng.deepval(st, a) for a in call.args)), set()))[1].update(hs[:1])
    t = [t for t in p.types if t["k"] == "adt" and t.get("local") and t["path"].split("::")[-1] == "Context"][0]
    body_type = t["vs"][0]["fs"][s.f["body"]][1]
    for f in p.fns:
        # making a body keeps the reader
        if f["body"] is None or f["out"] != body_type:
            continue
        i = [k for k, ti in enumerate(f["ins"]) if "HttpReader" in p.tstr(ti) or "Mock" in p.tstr(ti)]
        for e in c.run(c.engine(), f) or () if i else ():
            if e.kind == "return":
                c.count("bodies made")
                c.require(any(x is T("param", i[0] + 1) for x in walk(e.ret)), "reader:" + f["path"], c.where(f), "a body is made that does not read from what it was given: %s" % short(e.ret), facts_text(e.facts))
    R = run_handle(c, tell, watch, keep_too=lambda eng, t: t.op == "discr" and is_host(eng, t.args[0]), before=before)
    if R is None:
        return
    done = set()
    while later:
        v, eng, where, what, det = later.pop()
        if v in done or v in checked or v.op == "upd" and v.args[0] == MODIFY:
            continue
        done.add(v)
        if c.require(v.op == "phi" and v in eng.phisrc, "changed", where, "%s gets a context that is neither new nor as a filter left it: %s" % (what, short(v)), det):
            later += [(x, eng, where, what, det) for x, l in eng.phisrc[v] if x is not v]
    c.floor("contexts", 2)
    c.floor("filter calls", 1)
    c.floor("handler calls", 1)
    c.floor("targets with a host", 1)
    c.floor("targets without a host", 2)
