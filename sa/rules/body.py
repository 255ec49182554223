"""Request bodies: multipart readers and query-string bodies (C32)."""
from terms import *
import terms
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import *
from rules.routers import *
from rules.config import vname
from rules.text import keeps_bytes


def variant(c, path, name):
    for t in c.p.types:
        if t["k"] == "adt" and t["path"] == path and t.get("vs"):
            for i, v in enumerate(t["vs"]):
                if v["n"] == name:
                    return i
    return None


def bare(x):
    """a value without the references around it"""
    while True:
        if x.op in ("&", "vref", "O", "deref") and x.args:
            x = x.args[0]
        elif x.op == "ref" and x.args[1].op == "O":
            y = x.args[1]
            for pe in x.args[2]:
                y = T("fld", y, pe[1], pe[2]) if pe[0] == "f" else T("elem", y, *pe)
            x = y
        elif x.op == "fld":
            y = bare(x.args[0])
            return x if y is x.args[0] else bare(T("fld", y, *x.args[1:]))
        else:
            return x


def same_text(x):
    """what a string was made from"""
    while x.op in ("&", "vref", "O", "deref") or x.op == "app" and len(x.args[1]) == 1 and keeps_bytes(x.args[0]):
        x = x.args[0] if x.op != "app" else x.args[1][0]
    return bare(x)


def items_seen(facts, coll, kind):
    """({index: what kind(fact) says about the element}, index of the end)"""
    there, kinds, end = {}, {}, None
    for t, v in facts:
        k = counted(t, v) if not isinstance(v, frozenset) else ((t.args[0], INT(0), True) if t.op == "len" and 0 in v else None)
        if k is not None and coll(k[0]):
            if k[2]:
                there[k[1]] = None
            else:
                end = k[1]
        k = kind(t, v)
        if k is not None:
            kinds[k[0]] = k[1]
    for i in kinds:
        there[i] = kinds[i]
    return there, end


def is_mp(cc):
    return cc["crate"] == "multipart" and cc["name"] in ("from_request", "with_body")


def reads(cc):
    return last2(cc["short"]) in ("Read::read", "Read::read_to_end", "Read::read_to_string", "Read::read_exact", "Read::bytes", "Read::take", "Read::chain", "io::copy")


@prop("C32")
def c32(c):
    c.rule("a body has a boundary on exactly those ways on which the content type is known to be multipart/form-data and the parameter named boundary to be present, and it is that parameter's text; all parameters are looked at")
    c.rule("a multipart reader is made exactly if there is a boundary and a real body, from that boundary and that body")
    c.rule("reading a query-string body reads the body to its end once, returns the error of that, and otherwise the parameters of all that was read")
    c.rule("the body of a request's context is made from the reader and headers of that request")
    bodies(c, True)


def bodies(c, multipart=False):
    """what holds for request bodies, with or without multipart bodies"""
    p = c.p
    bt = c.type_of("BodyReader")
    rd = c.field("BodyReader", lambda n, t: "HttpReader" in p.tstr(t))
    bd = c.field("BodyReader", lambda n, t: p.types[t]["s"].startswith("std::option::Option<std::string::String"))
    M = "hyper::mime::"
    top, sub, bnd = variant(c, M + "TopLevel", "Multipart"), variant(c, M + "SubLevel", "FormData"), variant(c, M + "Attr", "Boundary")
    rt = p.types[p.types[bt]["vs"][0]["fs"][rd][1]] if None not in (bt, rd) else None
    if not c.require(None not in (bt, rd) and (not multipart or None not in (bd, top, sub, bnd)) and rt["k"] == "adt" and len(rt["vs"]) == 2, "anchor:body", "-", "the parts of request bodies cannot be found"):
        return
    actual = [i for i, v in enumerate(rt["vs"]) if v["fs"]][0]
    one = T("param", 1)

    def is_body(t):
        return p.types[t]["k"] == "adt" and p.types[t]["path"] == p.types[bt]["path"]

    def is_inner(t):
        return p.types[t]["k"] == "adt" and p.types[t]["path"] == rt["path"]

    # making a body
    for f in p.fns:
        if f["body"] is None or not f.get("pub") or not is_body(f["out"]):
            continue
        heads = [i for i, t in enumerate(f["ins"]) if p.types[t]["k"] == "ref" and p.tname(p.types[t]["e"]) == "Headers"]
        reader = [i for i, t in enumerate(f["ins"]) if p.tname(t) == "HttpReader"]
        if len(heads) != 1:
            continue
        where = c.where(f)
        H = T("param", heads[0] + 1)

        def header(x):
            """the value of the content type header"""
            x = bare(x)
            return x.op == "app" and last2(x.args[0].split("<")[0]) == "Headers::get" and bare(x.args[1][0]) is H

        def mime(x):
            """0, 1 or 2 for the parts of the content type"""
            x = bare(x)
            if x.op == "fld" and x.args[1] == 0 and x.args[2] in (0, 1, 2):
                y = bare(x.args[0])
                if y.op == "fld" and y.args[1:] == (0, 0) and header(inner(y.args[0])):
                    return x.args[2]
            return None

        def inner(x):
            x = bare(x)
            return bare(x.args[0]) if x.op == "fld" and x.args[1:] == (1, 0) else x

        def attrs(x):
            return mime(x) == 2

        def attr(t, v):
            """is this parameter the boundary?"""
            if t.op == "discr" or t.op == "eq":
                x = t.args[0]
                x = bare(x.args[0]) if t.op == "eq" and x.op == "discr" else bare(x)
                if x.op == "fld" and x.args[1:] == (0, 0):
                    y = bare(x.args[0])
                    if y.op == "elem" and attrs(y.args[0]):
                        if t.op == "discr":
                            return y.args[-1], (v == bnd if not isinstance(v, frozenset) else False if bnd in v else None)
                        if t.args[1] is INT(bnd):
                            return y.args[-1], bool(v)
            return None

        def near(t):
            return any(x.op == "app" and last2(x.args[0].split("<")[0]) == "Headers::get" for x in walk(t))
        eng = c.engine(keep_facts=near)
        for e in c.run(eng, f) or ():
            if e.kind != "return":
                continue
            v = View(e)
            det = facts_text(e.facts)
            r = eng.sel(e.ret, ("f", 0, rd))
            if reader:
                c.require(r.op == "agg" and r.args[1] == actual and r.args[2][0] is T("param", reader[0] + 1), "reader", where, "the body does not read from the request: %s" % short(r), det)
            else:
                c.require(r.op == "agg" and r.args[1] != actual, "reader-mock", where, "a mock body reads from something: %s" % short(r), det)
            if not multipart:
                c.count("ways to make a body")
                continue
            b = eng.sel(e.ret, ("f", 0, bd))
            d = eng.known(v, eng.discr(b))
            if not c.require(d is not None, "boundary-unclear", where, "it is not clear if there is a boundary: %s" % short(b), det):
                continue
            # what is known about the content type
            have = {}
            for t, x in e.facts.items():
                y, z = (t.args[0], None) if t.op == "discr" else (t.args[0].args[0], t.args[1]) if t.op == "eq" and t.args[0].op == "discr" else (None, None)
                if y is None:
                    continue
                if header(y):
                    have["h"] = x == 1 if z is None else (x == 1) == (z is INT(1))
                k = mime(y)
                want = {0: top, 1: sub}.get(k)
                if want is not None:
                    have[k] = x == want if not isinstance(x, frozenset) and z is None else False if z is None and want in x else (x == 1 if z is INT(want) else None)
            seen, end = items_seen(e.facts.items(), attrs, attr)
            if d == 1:
                c.count("ways with a boundary")
                x = same_text(eng.sel(b, ("f", 1, 0)))
                # the text of a parameter's value
                y = x
                if y.op == "app" and last2(y.args[0].split("<")[0]) in ("Value::as_str",):
                    y = bare(y.args[1][0])
                idx = None
                if y.op == "fld" and y.args[1:] == (0, 1) and bare(y.args[0]).op == "elem" and attrs(bare(y.args[0]).args[0]):
                    idx = bare(y.args[0]).args[-1]
                c.require(idx is not None, "boundary-text", where, "the boundary is not the text of a parameter of the content type: %s" % short(b), det)
                c.require(have.get("h") and have.get(0) and have.get(1), "not-multipart", where, "there is a boundary although the content type may not be multipart/form-data", det)
                c.require(idx is None or seen.get(idx) is True, "not-boundary", where, "the boundary is taken from a parameter that may have another name", det)
            else:
                c.count("ways without a boundary")
                not_mp = have.get("h") is False or have.get(0) is False or have.get(1) is False
                passed = end is not None and all(x is False for x in seen.values())
                if end is not None and end.op == "int":
                    passed = passed and all(INT(n) in seen for n in range(end.args[0]))
                c.require(not_mp or passed, "boundary-missed", where, "there is no boundary although the content type may be multipart/form-data with one", det)
        for (hid, prefix), dd in eng.patterns.items():
            for suffix, pf in dd:
                seen, _ = items_seen(pf, attrs, attr)
                c.count("turns of the search for a boundary")
                c.require(all(x is False for x in seen.values()), "boundary-passed", where, "a parameter is passed over although it may be the boundary", facts_text(dict(pf)))
    # multipart readers
    for f in p.fns:
        if f["body"] is None or f.get("self") is None or not is_body(f["self"]) or "Multipart" not in p.types[f["out"]]["s"]:
            continue
        where = c.where(f)
        r = Run(c, f, also=is_mp, far=False)
        body = T("deref", one)
        R = fld(body, 0, rd)
        if not c.require(bd is not None, "multipart-without", where, "there are multipart readers without a boundary"):
            continue
        B = fld(body, 0, bd)
        for e in r.exits:
            v = View(e)
            eng = r.eng
            det = trace_text(e.trace) + facts_text(e.facts)
            ev = r.events(e)
            real, has = eng.known(v, eng.discr(R)), eng.known(v, eng.discr(B))
            d = eng.known(v, eng.discr(e.ret))
            c.count("ways to get a multipart reader")
            c.require(d is not None and len(ev) <= 1, "multipart-unclear", where, "it is not clear if there is a multipart reader", det)
            if not ev:
                c.require(d == 0 and (real is not None and real != actual or has == 0), "multipart-refused", where, "no multipart reader is made although there is a real body with a boundary", det)
                continue
            c.require(real == actual and has == 1, "multipart-offered", ev[0][1], "a multipart reader is made although there may be no boundary or no real body", det)
            res = ev[0][3]
            if ev[0][0].endswith("from_request"):
                ok_ = eng.known(v, eng.discr(res))
                c.require(d == (1 if ok_ == 0 else 0) and ok_ is not None and (d == 0 or eng.sel(e.ret, ("f", 1, 0)) is fld(res, 0, 0)), "multipart-result", where, "not the reader that was made is returned", det)
                q = ev[0][2][0]
                parts = list(q.args[2]) if q.op == "agg" else []
            else:
                c.require(d == 1 and eng.sel(e.ret, ("f", 1, 0)) is res, "multipart-result", where, "not the reader that was made is returned", det)
                parts = list(ev[0][2])
            t = [same_text(x) for x in parts]
            src = []
            for x in parts:
                x = bare(x)
                while x.op == "upd":
                    x = bare(x.args[2])
                src.append(x)
            c.require(any(x is bare(fld(B, 1, 0)) for x in src + t), "multipart-boundary", ev[0][1], "the multipart reader does not use the declared boundary: %s" % short(q if parts else res), det)
            c.require(any(x is bare(fld(R, actual, 0)) for x in src), "multipart-body", ev[0][1], "the multipart reader does not read the request's body: %s" % short(q if parts else res), det)
    # what multipart readers use
    for f in p.fns:
        tr = f.get("trait", "")
        if f["body"] is None or "HttpRequest" not in tr and not (f["name"] == "read" and f.get("self") is not None and (is_body(f["self"]) or p.tname(f["self"]) == "MultipartRequest" or is_inner(f["self"]))):
            continue
        where = c.where(f)
        r = Run(c, f, also=reads, far=False)
        for e in r.exits:
            v = View(e)
            eng = r.eng
            det = trace_text(e.trace) + facts_text(e.facts)
            ev = r.events(e)
            c.count("ways through what multipart readers use")
            if f["name"] == "body":
                c.require(e.ret is one, "part-body", where, "the body of a multipart request is another one", det)
            elif f["name"] == "multipart_boundary":
                s = c.struct(p.tname(f["self"])) or p.types[f["self"]]
                bi = [i for i, (n, t) in enumerate(s["vs"][0]["fs"]) if p.types[t]["s"].endswith(("str", "String"))]
                x = eng.sel(e.ret, ("f", 1, 0)) if eng.known(v, eng.discr(e.ret)) == 1 else None
                c.require(x is not None and len(bi) == 1 and same_text(x) is bare(fld(T("deref", one), 0, bi[0])) or x is not None and bare(x) is bare(fld(T("deref", one), 0, bi[0])), "part-boundary", where, "not the declared boundary is given: %s" % short(e.ret), det)
            elif f["name"] == "read":
                mine = is_body(f["self"]) or is_inner(f["self"])
                src = fld(T("deref", one), 0, rd) if is_body(f["self"]) else T("deref", one)
                if mine:
                    real = eng.known(v, eng.discr(src))
                    if not ev:
                        c.require(real is not None and real != actual and eng.known(v, eng.discr(e.ret)) == 0 and eng.sel(e.ret, ("f", 0, 0)) is INT(0), "read-nothing", where, "nothing is read from a real body", det)
                        continue
                if c.require(len(ev) == 1 and ev[0][0] == "Read::read", "read-once", where, "the body is read %d times" % len(ev), det):
                    a = ev[0][2]
                    t = bare(a[0])
                    while t.op == "upd":
                        t = bare(t.args[2])
                    root = t
                    while root.op in ("fld", "deref"):
                        root = root.args[0]
                    c.require(root is one and (not mine or t is bare(fld(src, actual, 0)) or is_body(f["self"]) and t is bare(src)), "read-source", ev[0][1], "something else than the request's body is read: %s" % short(a[0]), det)
                    c.require(bare(a[1]) is T("param", 2), "read-buffer", ev[0][1], "the body is read to another buffer", det)
                    c.require(e.ret is ev[0][3] or not diffs(eng, e.ret, ev[0][3]), "read-result", where, "the result of reading is changed: %s" % short(e.ret), det)
    # query-string bodies
    for f in p.fns:
        if f["body"] is None or f.get("self") is None or not is_body(f["self"]) or "Parameters" not in p.types[f["out"]]["s"] or not f.get("pub"):
            continue
        where = c.where(f)

        makers = {g["path"] for g in p.fns if g["body"] is not None and p.tname(g["out"]) == "Parameters" and len(g["ins"]) == 1 and p.types[g["ins"][0]]["s"].endswith("[u8]")}

        def parses(cc):
            b = cc.get("body")
            return b is not None and p.bodies[b] is not None and p.bodies[b]["path"] in makers
        r = Run(c, f, also=lambda cc: reads(cc) or parses(cc), far=False)
        for e in r.exits:
            v = View(e)
            eng = r.eng
            det = trace_text(e.trace) + facts_text(e.facts)
            ev = r.events(e)
            c.count("ways to read a query-string body")
            rs = [x for x in ev if x[0].split("::")[0] in ("Read", "io")]
            ps = [x for x in ev if x not in rs]
            if not c.require(len(rs) == 1 and rs[0][0] == "Read::read_to_end" and ev[0] is rs[0], "query-read", where, "the body is not read to its end, once: %s" % [x[0] for x in ev], det):
                continue
            a = rs[0][2]
            t = bare(a[0])
            while t.op == "upd":
                t = bare(t.args[2])
            c.require(t is one or t is bare(fld(T("deref", one), 0, rd)) or t is bare(fld(fld(T("deref", one), 0, rd), actual, 0)), "query-source", rs[0][1], "something else than the body is read: %s" % short(a[0]), det)
            buf = bare(a[1])
            while buf.op == "upd":
                buf = bare(buf.args[2])
            c.require(buf.op == "vnew", "query-buffer", rs[0][1], "the body is read to a buffer that has something in it: %s" % short(buf), det)
            ok_ = eng.known(v, eng.discr(rs[0][3]))
            d = eng.known(v, eng.discr(e.ret))
            if ok_ == 1:
                c.require(d == 1 and not ps and same_text(eng.sel(e.ret, ("f", 1, 0))) is fld(rs[0][3], 1, 0), "query-error", where, "a read error is not returned", det)
                c.count("read errors")
            elif c.require(ok_ == 0 and d == 0 and len(ps) == 1, "query-parse", where, "the body that was read is not parsed once", det):
                c.require(eng.sel(e.ret, ("f", 0, 0)) is ps[0][3], "query-result", where, "something else than the parameters of the body is returned", det)
                x = ps[0][2][0]
                while x.op in ("deref", "&", "vref") or x.op == "app" and len(x.args[1]) == 1 and keeps_bytes(x.args[0]):
                    x = x.args[0] if x.op != "app" else x.args[1][0]
                c.require(x.op == "upd" and last2(x.args[0]) == "Read::read_to_end" and x.args[1] is rs[0][3], "query-all", ps[0][1], "not all of the body is parsed: %s" % short(ps[0][2][0]), det)
    # in the server
    f = c.fn("ServerInstance", "handle", "Handler")
    if f is not None:
        makes = {g["path"] for g in p.fns if g.get("pub") and g["body"] is not None and is_body(g["out"]) and any(p.tname(t) == "HttpReader" for t in g["ins"])}

        def mk(cc):
            b = cc.get("body")
            return b is not None and p.bodies[b] is not None and p.bodies[b]["path"] in makes or cc["short"].endswith("Request::deconstruct")
        r = Run(c, f, also=mk)
        for e in r.exits:
            ev = r.events(e)
            ms = [x for x in ev if x[0].startswith("BodyReader::")]
            ds = [x for x in ev if x[0] == "Request::deconstruct"]
            for x in ms:
                det = trace_text(e.trace)
                c.count("bodies of requests")
                a = x[2]
                good = len(ds) == 1
                rdr = [y for y in a if y.op == "fld" and good and y.args[0] is ds[0][3]]
                c.require(good and len(rdr) == 1 and rdr[0].args[2] == 5, "request-body", x[1], "the body of a request is not made from its own reader", det)
                h = [y for y in a if any(z.op == "fld" and good and z.args[0] is ds[0][3] and z.args[2] == 2 for z in walk(y))]
                c.require(len(h) == 1, "request-headers", x[1], "the body of a request is not made from its own headers", det)
        c.floor("bodies of requests", 1)
    if not multipart:
        c.floor("ways to make a body", 2)
        return
    for k, n in (("ways with a boundary", 2), ("ways without a boundary", 6), ("ways to get a multipart reader", 3), ("ways to read a query-string body", 2), ("read errors", 1), ("ways through what multipart readers use", 4), ("turns of the search for a boundary", 1)):
        c.floor(k, n)
