"""Responses: completion, framing, errors."""
from terms import *
import terms
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import *

WIRE = ("hyper::server::Response::send", "hyper::server::Response::start", "hyper::server::Response::end")
IGNORING = ("send", "send_data", "handle")


def hyper_response(t):
    return t["k"] == "adt" and t["path"] == "hyper::server::Response"


def streaming(c, ti):
    return "Streaming" in c.p.tstr(ti)


class W:
    """the parts of the response types, found by their types"""
    def __init__(self, c):
        p = c.p

        def holds(ti):
            return any(True for _ in c.tpaths(ti, hyper_response))
        self.field = {}
        for ty in ("Response", "Chunked", "Raw"):
            self.field[ty] = c.field(ty, lambda n, ti: holds(ti))
            if self.field[ty] is None:
                c.violation("anchor:%s.writer" % ty, "-", "the field of %s that keeps the connection cannot be found" % ty)
        self.storage = c.field("Response", lambda n, ti: "anymap" in p.tstr(ti))
        self.filters = {ty: c.field(ty, lambda n, ti: "ResponseFilter" in p.tstr(ti)) for ty in ("Response", "Chunked")}
        self.force = c.field("Response", lambda n, ti: p.tname(ti) == "bool")
        self.good = None not in self.field.values() and self.storage is not None and None not in self.filters.values() and self.force is not None

    def fresh_facts(self, c, f):
        """a response that application code still has is complete"""
        facts = {}
        for i, ti in enumerate(f["ins"]):
            if c.p.tname(ti) == "Response" and c.p.types[ti]["k"] == "adt":
                v = T("param", i + 1)
                facts[T("discr", fld(v, 0, self.field["Response"]))] = 1
                facts[T("discr", fld(v, 0, self.storage))] = 1
        return facts


def contract(c, cc):
    """operations of std that are taken by their contract instead of being looked into"""
    b = cc.get("body")
    if b is not None and c.p.bodies[b] is not None and c.p.bodies[b].get("local"):
        return False
    return cc["short"] in STD_IO and not to_memory(c, cc)


def self_name(c, cc):
    """name of the type an inherent or trait method belongs to"""
    if cc.get("impl_self") is not None:
        return c.p.tname(cc["impl_self"])
    return cc["short"].split("::")[-2] if "::" in cc["short"] else ""


def ignoring(c, cc):
    """a local operation that is documented to ignore errors"""
    b = cc.get("body")
    if b is None or c.p.bodies[b] is None or not c.p.bodies[b].get("local"):
        return False
    if cc["name"] == "handle":
        return cc["short"].endswith("ResponseError::handle")
    return cc["name"] in ("send", "send_data") and cc["short"].split("::")[-2:-1] in (["Response"], ["Chunked"], ["Raw"])


def sources(eng, v):
    """all values that a value may come from"""
    seen = set()
    work = [v]
    while work:
        x = work.pop()
        if isinstance(x, (tuple, frozenset)):
            work.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        yield x
        y = x
        while y.op in ("old", "stale") and isinstance(y.args[0], Term):
            y = y.args[0]
        if y in eng.phisrc:
            work.extend(s for s, l in eng.phisrc[y])
        work.extend(x.args)


def fallible_roots(c):
    """public operations of the library whose error type can carry an I/O error and that can reach the connection or a file"""
    p = c.p
    for f in p.fns:
        if f["body"] is None or p.bodies[f["body"]] is None:
            continue
        et = errtype(c, f["out"])
        if et is None or not (f["pub"] or "trait" in f):
            continue
        t = p.types[et]
        if not (p.tstr(et) in ("std::io::Error", "hyper::Error") or t["k"] in ("alias", "param") or any(True for _ in c.tpaths(et, lambda x: x["s"] in ("std::io::Error", "hyper::Error")))):
            continue
        if f["name"] == "handle_request":
            continue
        if c.cg.reaches(f["body"], "io", lambda cc: is_io(c, cc)):
            yield f


@prop("C12")
def c12(c):
    c.rule("on every path of a fallible operation on which an operation on the connection or a file returned Err(e), it returns Err of a value made from such an e (or stores it in the writer it returns, whose operations return it)")
    c.rule("no fallible operation returns Ok after it left the completion of the response to a drop or to an operation that ignores errors")
    c.rule("an operation on a writer that holds an error returns this error; on one that is closed, an error")
    c.rule("the number of bytes that a Write::write took is returned or looked at before an operation returns Ok")
    p = c.p
    w = W(c)
    if not w.good:
        return
    # part: ON after a write that may have been incomplete without anything having looked at that, or the numbers that were not looked at yet
    M = Mon(err=OFF, dropped=OFF, ignored=OFF, part=OFF)
    events = set()

    def pending(m):
        return m.args[2] if m.op == "agg" and m.args[0] == "pending" else ()

    def settle(st):
        ns = pending(M.get(st, "part"))
        if ns:
            seen = {y for v in list(st.mem.values()) + list(st.facts) for y in walk(v)}
            M.put(st, part=OFF if all(x in seen for x in ns) else ON)

    def split(eng, st, call, res):
        if not is_io(c, call.c, call.dty):
            return None
        events.add(p.where(call.span) + " " + call.name)
        return [(ok(fld(res, 0, 0)), st.mon), (err(fld(res, 1, 0)), M.with_(st.mon, err=ON))]

    def rel(eng, st, call, res):
        n = call.name
        if res is None:
            return None
        where = p.where(call.span) if call.span and call.span[1] else "drop"
        if n == "Drop::drop":
            ty = p.tname(call.c.get("droppee", call.c["args"][0]))
            i = w.field[ty]
            v = fld(pre["v"], 0, i) if pre["v"].op == "agg" else eng.sel(pre["v"], ("f", 0, i))
            if eng.known(st, eng.discr(v)) != 0:
                M.put(st, dropped=ON)
                return ("dropped", ty)
            return None
        if call.c.get("kind") == "drop":
            M.put(st, dropped=ON)
            return ("dropped", p.tstr(call.c["dropty"]))
        if ignoring(c, call.c):
            M.put(st, ignored=ON)
            return ("errors ignored by", n, where)
        if is_io(c, call.c, call.dty):
            if n.split("::")[-1] == "write" and "Write" in n and M.get(st, "part") is not ON:
                M.put(st, part=T("agg", "pending", 0, pending(M.get(st, "part")) + (fld(res, 0, 0),)))
            return (n, where)
        return None
    pre = {}
    n = 0
    for f in fallible_roots(c):
        n += 1
        eng = c.engine(rel=rel, split=split, interesting=hyper_response,
                       opaque=c.opaque_unless("io", lambda cc: is_io(c, cc), also=lambda cc: contract(c, cc) or ignoring(c, cc) or drop_of(c, cc)))
        wrap_drop(eng, pre)
        eng.settle = settle
        facts = w.fresh_facts(c, f)
        ex = c.run(eng, f, facts=facts, mon=M.start())
        for e in ex or ():
            if e.kind != "return":
                continue
            m = M.of(e.mon)
            d = eng.known(View(e), eng.discr(e.ret))
            det = trace_text(e.trace) + facts_text(e.facts)
            where = c.where(f)
            if m["err"] is ON:
                c.count("paths with an error")
                if not c.require(d == 1, "swallowed:" + f["path"], where, "an error of the connection or a file is not returned: the operation can return %s" % short(e.ret), det):
                    continue
                c.require(any(io_error(c, eng, x) for x in sources(eng, eng.deepval(e.st, e.ret))), "replaced:" + f["path"], where, "the returned error does not carry the error that occurred: %s" % short(e.ret), det)
            elif d != 1:
                c.count("paths without an error")
                c.require(m["dropped"] is OFF, "completed-by-drop:" + f["path"], where, "the operation can report success although the response is only completed when it is dropped, where errors are lost", det)
                if m["part"] is not OFF:
                    c.count("writes that may be incomplete")
                    seen = {y for y in sources(eng, eng.deepval(e.st, e.ret))} | {y for t in e.facts for y in walk(t)}
                    c.require(m["part"] is not ON and all(x in seen for x in pending(m["part"])), "incomplete:" + f["path"], where,
                              "the operation can report success although only a part of its data was written: nothing looks at how much it was", det)
                if not (f["name"] == "send_not_found"):
                    c.require(m["ignored"] is OFF, "ignored:" + f["path"], where, "the operation can report success after using an operation that ignores errors", det)
        # stored errors
        s0 = f["ins"][0] if f["ins"] else None
        if s0 is not None:
            t = p.types[s0]
            ty = p.tname(t["e"] if t["k"] == "ref" else s0)
            if ty in ("Chunked", "Raw"):
                stored(c, w, f, ty, t["k"] == "ref", ex, eng)
    # operations that make a writer
    for name, ty in (("into_chunked", "Chunked"), ("into_raw", "Raw")):
        f = c.fn("Response", name)
        if f is None:
            continue
        eng = c.engine(rel=rel, split=split, interesting=hyper_response,
                       opaque=c.opaque_unless("io", lambda cc: is_io(c, cc), also=lambda cc: contract(c, cc) or ignoring(c, cc) or drop_of(c, cc)))
        wrap_drop(eng, pre)
        for e in c.run(eng, f, facts=w.fresh_facts(c, f), mon=M.start()) or ():
            if e.kind != "return":
                continue
            m = M.of(e.mon)
            if m["err"] is ON:
                c.count("stored errors")
                v = fld(e.ret, 0, w.field[ty])
                vw = View(e)
                held = eng.known(vw, eng.discr(v)) == 1 and eng.known(vw, eng.discr(fld(v, 1, 0))) == 1
                c.require(held and any(io_error(c, eng, x) for x in sources(eng, eng.deepval(e.st, v))), "lost:" + name, c.where(f), "an error while starting the response is not kept for the operations that report it: %s" % short(v), trace_text(e.trace))
    c.count("operations", n)
    c.count("call sites that may fail", len(events))
    c.floor("operations", 15)
    c.floor("paths with an error", 15)
    c.floor("stored errors", 2)


def stored(c, w, f, ty, byref, ex, eng):
    p = c.p
    base = T("deref", T("param", 1)) if byref else T("param", 1)
    wr = fld(base, 0, w.field[ty])
    inner = fld(wr, 1, 0)
    for e in ex or ():
        if e.kind != "return":
            continue
        v = View(e)
        a, b = eng.known(v, T("discr", wr)), eng.known(v, T("discr", inner))
        d = eng.known(v, eng.discr(e.ret))
        if a == 1 and b == 1:
            c.count("held errors")
            c.require(d == 1 and any(x is fld(inner, 1, 0) for x in sources(eng, eng.deepval(e.st, e.ret))), "held:" + f["path"], c.where(f),
                      "the error that the writer holds is not returned: %s" % short(e.ret), trace_text(e.trace) + facts_text(e.facts))
        elif a == 0 and ty == "Raw" and f["name"] == "end":
            pass    # documented: it has already ended
        elif a == 0:
            c.require(d == 1, "closed:" + f["path"], c.where(f), "an operation on a closed writer reports success: %s" % short(e.ret), trace_text(e.trace))
        elif d != 1:
            if byref:
                x = eng.load(e.st, T("O", T("param", 1)), (("f", 0, w.field[ty]),))
                c.require(eng.known(v, eng.discr(x)) == 1 and eng.known(v, eng.discr(eng.sel(x, ("f", 1, 0)))) == 0, "kept:" + f["path"], c.where(f),
                          "a successful operation does not leave the writer open: %s" % short(x), trace_text(e.trace))
            c.require(a == 1 and b == 0, "unseen:" + f["path"], c.where(f), "success is reported without looking at the state of the writer", trace_text(e.trace) + facts_text(e.facts))


def io_error(c, eng, x):
    """is x the error of an operation on the connection or a file?"""
    if x.op != "fld" or x.args[1:] != (1, 0):
        return False
    o = eng.origin.get(x.args[0])
    return o is not None and is_io(c, o.c, o.dty)


def drop_of(c, cc):
    return cc["short"] == "Drop::drop" and c.p.tname(cc.get("droppee", cc["args"][0])) in ("Response", "Chunked")


def wrap_drop(eng, pre):
    """remember the value that is dropped before the call makes it unknown"""
    orig = eng.havoc

    def havoc(st, cc, args, atys, vals, res):
        if cc["short"] == "Drop::drop":
            pre["v"] = eng.load(st, *eng.target(args[0]))
            return
        if cc["short"] == "io::copy":
            # it only uses Write::write and Write::flush of the writer, which leave a writer that works as it is (see `kept`)
            args, atys, vals = args[:1], atys[:1], vals[:1]
        orig(st, cc, args, atys, vals, res)
    eng.havoc = havoc


FILTER = ("filter::ResponseFilter::begin", "filter::ResponseFilter::write", "filter::ResponseFilter::end")
SETTERS = ("set", "set_raw", "append_raw", "get_mut", "clear", "remove", "remove_raw", "extend", "from_iter")
UNKNOWN, REMOVED = T("agg", "flag", 2, ()), T("agg", "flag", 3, ())


def header_name(c, eng, st, call):
    """name (lower case) of the header that a call on Headers is about, None if unknown"""
    n = call.name.split("::")[-1]
    a = call.args[1] if len(call.args) > 1 else None
    if n in ("set_raw", "append_raw", "remove_raw"):
        for x in walk(eng.deepval(st, a)):
            if x.op == "str":
                return x.args[0].lower()
            if x.op == "bytes":
                return x.args[0].decode("latin1").lower()
        return None
    if call.c["args"]:
        ty = c.p.tname(call.c["args"][-1])
        import re
        return re.sub(r"(?<!^)([A-Z])", r"-\1", ty).lower()
    return None


class Ops:
    """runs operations of a response and keeps track of what reaches the connection"""
    KEYS = dict(pan=OFF, conn=OFF, cl=UNKNOWN, err=OFF, sends=INT(0), status=UNIT, fend=OFF, fbegin=OFF, ferr=OFF, done=OFF)

    def __init__(self, c, w, also=lambda cc: False, extra=None):
        self.c, self.w, self.also, self.extra = c, w, also, extra
        self.M = Mon(**self.KEYS)
        self.on = lambda kind, eng, st, where, m, call, v: None

    def relevant(self, cc):
        n = cc["short"]
        if is_io(self.c, cc) or n in WIRE or n.startswith("hyper::header::Headers::") and n.split("::")[-1] in SETTERS:
            return True
        if n in ("hyper::server::Response::status_mut", "hyper::server::Response::headers_mut", "thread::panicking"):
            return True
        return bool(self.extra and self.extra(cc))

    def stop(self, cc):
        if contract(self.c, cc) or ignoring(self.c, cc) or self.also(cc):
            return True
        b = cc.get("body")
        if b is not None and self.c.p.bodies[b] is not None and self.c.p.bodies[b].get("local"):
            return not self.relevant(cc) and not self.c.cg.reaches(b, ("ops", self.extra), self.relevant) and self.c.cg.reaches(b, "filters", lambda x: x["short"] in FILTER)
        return False

    def run(self, f, facts=None, drops=False):
        c, p, w, M = self.c, self.c.p, self.w, self.M
        pre = {}

        def split(eng, st, call, res):
            if call.name == "thread::panicking":
                return [(INT(1), M.with_(st.mon, pan=ON)), (INT(0), M.with_(st.mon, pan=OFF))]
            if call.name in STD_IO and to_memory(c, call.c) and errtype(c, call.dty) is not None and call.name.startswith("Write::"):
                return [(ok(UNIT), st.mon)]
            if is_io(c, call.c, call.dty):
                return [(ok(fld(res, 0, 0)), st.mon), (err(fld(res, 1, 0)), M.with_(st.mon, err=ON))]
            if errtype(c, call.dty) is not None and self.filtering(call.c):
                return [(ok(fld(res, 0, 0)), st.mon), (err(fld(res, 1, 0)), M.with_(st.mon, ferr=ON))]
            return None

        def rel(eng, st, call, res):
            n = call.name
            if res is None:
                return None
            where = p.where(call.span) if call.span and call.span[1] else c.where(f)
            last = n.split("::")[-1]
            if n.startswith("hyper::header::Headers::") and last in SETTERS:
                root, path = eng.target(call.args[0])
                if not path or path[-1] != ("f", 0, 100):
                    return None
                h = header_name(c, eng, st, call)
                v = eng.deepval(st, call.args[1]) if len(call.args) > 1 else UNIT
                self.on("header", eng, st, where, M, (last, h, v), None)
                if h == "connection" or h is None:
                    close = last == "set" and any(x.op == "agg" and x.args[0].endswith("ConnectionOption") and x.args[1] == self.closev() for x in walk(v)) and h is not None
                    M.put(st, conn=ON if close else OFF)
                if h == "content-length" or h is None:
                    M.put(st, cl=REMOVED if last in ("remove", "remove_raw") and h else v if last == "set" and h else UNKNOWN)
                return ("header", where, last, h or "?", v)
            if n in ("hyper::server::Response::send", "hyper::server::Response::start", "hyper::server::Response::end"):
                self.on(last, eng, st, where, M, call, call.args[0])
                M.put(st, sends=add(M.get(st, "sends"), INT(1)) if last != "start" else M.get(st, "sends"))
                return (last, where, eng.deepval(st, eng.load(st, *eng.target(call.args[1]))) if len(call.args) > 1 else UNIT)
            if call.c.get("kind") == "drop":
                fresh = not streaming(c, call.c["dropty"])
                self.on("drop-fresh" if fresh else "drop-stream", eng, st, where, M, call, pre["v"])
                M.put(st, sends=add(M.get(st, "sends"), INT(1)))
                return ("drop-fresh" if fresh else "drop-stream", where)
            if n == "Drop::drop":
                self.on("drop-response", eng, st, where, M, call, pre["v"])
                return ("drop", where, p.tname(call.c.get("droppee", call.c["args"][0])))
            if self.filtering(call.c):
                b = call.c.get("body")
                r = (lambda k: call.name == k) if b is None or p.bodies[b] is None else (lambda k: c.cg.reaches(b, k, lambda x: x["short"] == k))
                if any(self.headers_arg(eng, st, a) for a in call.args):
                    M.put(st, conn=OFF, cl=UNKNOWN)
                if r(FILTER[0]):
                    M.put(st, fbegin=ON)
                if r(FILTER[2]):
                    M.put(st, fend=ON)
                self.on("filters", eng, st, where, M, call, None)
                return ("filters", where, short_name(n))
            if is_io(c, call.c, call.dty):
                self.on("io", eng, st, where, M, call, None)
                return (n, where) + tuple(eng.deepval(st, a) for a in call.args[1:2])
            if ignoring(c, call.c):
                self.on("ignoring", eng, st, where, M, call, None)
                return ("errors ignored by", where, n)
            if n == "thread::panicking":
                return (n, where)
            if any(self.headers_arg(eng, st, a) for a in call.args):
                # somebody else changes the headers
                M.put(st, conn=OFF, cl=UNKNOWN)
            if self.extra and self.extra(call.c):
                self.on("extra", eng, st, where, M, call, res)
                return (n, where) + tuple(eng.deepval(st, a) for a in call.args)
            return None
        abort = c.variant("ResponseAction", "Abort")

        def assumed(eng, st, t, v):
            # an answer of a filter turns out to be an abort
            if t.op == "discr" and eng.known(st, t) == abort and any(o is not None and self.filtering(o.c) for o in (eng.origin.get(x) for x in walk(t))):
                M.put(st, ferr=ON)
            return None
        eng = c.engine(rel=rel, split=split, interesting=hyper_response, rel_assume=assumed,
                       opaque=lambda cc: self.stop(cc) or (not drops and drop_of(c, cc)))
        wrap_drop(eng, pre)
        inner = eng.havoc

        def havoc(st, cc, args, atys, vals, res):
            if cc.get("kind") == "drop":
                pre["v"] = eng.load(st, *eng.target(args[0]))
            if contract(c, cc) and cc["short"].startswith("Write::") and cc.get("args") and t_holds(c, cc["args"][0]):
                # writing leaves a writer what it is
                args, atys, vals = args[1:], atys[1:], vals[1:]
            inner(st, cc, args, atys, vals, res)
        eng.havoc = havoc
        if facts is None:
            facts = w.fresh_facts(c, f)
        return eng, c.run(eng, f, facts=facts, mon=M.start())

    def filtering(self, cc):
        if cc["short"] in FILTER:
            return True
        b = cc.get("body")
        return b is not None and self.c.p.bodies[b] is not None and self.c.p.bodies[b].get("local") and self.stop(cc) and self.c.cg.reaches(b, "filters", lambda x: x["short"] in FILTER) and not ignoring(self.c, cc)

    def headers_arg(self, eng, st, a):
        return a.op == "ref" and a.args[0] and a.args[2] and a.args[2][-1] == ("f", 0, 100)

    def closev(self):
        return self.c.variant("ConnectionOption", "Close")


def short_name(n):
    return n.split("::")[-1]


def writer_kind(c, w, eng, view, self_, ty):
    """what is known of the writer of a response at the start: 'none', 'mock', 'actual', 'error' or None"""
    wr = fld(self_, 0, w.field[ty])
    a = eng.known(view, T("discr", wr))
    if a == 0 or 1 in (view.facts.get(T("discr", wr)) if isinstance(view.facts.get(T("discr", wr)), frozenset) else ()):
        return "none"
    x = fld(wr, 1, 0)
    if ty != "Response":
        b = eng.known(view, T("discr", x))
        if b == 1:
            return "error"
        if b is None and a == 1:
            return None
        x = fld(x, 0, 0)
    m = eng.known(view, T("discr", x))
    if m is None:
        return None
    # the variant that has the connection
    t = [t for t in c.p.types if t["k"] == "adt" and t.get("local") and t.get("kind") == "enum" and any(any(hyper_response(c.p.types[y[1]]) for y in v["fs"]) for v in t.get("vs") or ())]
    for v in t[0]["vs"]:
        if v["d"] == m:
            return "actual" if any(hyper_response(c.p.types[y[1]]) for y in v["fs"]) else "mock"
    return None


LEAKS = ("mem::forget", "ManuallyDrop::new", "Box::leak", "Box::into_raw", "Rc::into_raw", "Arc::into_raw", "ptr::read", "ptr::write", "ptr::copy", "ptr::copy_nonoverlapping", "mem::transmute", "mem::transmute_copy", "mem::zeroed")


@prop("C06")
def c06(c):
    c.rule("every way out of Response::try_send_data and of the drop of a response that has a connection has given this connection away exactly once, in hyper's Response::send or, after a filter or the thread failed, in its drop")
    c.rule("a drop while the thread is panicking calls no filter, sends nothing and lets go of the connection, which hyper then completes with status 500")
    c.rule("every way out of Chunked::end, Raw::end and the drop of a chunked response with a connection has ended it exactly once, in hyper's Response::end or, after an error, in its drop")
    c.rule("before a response or chunked response is completed without an error, the end step of the filters has run")
    c.rule("no way through the drop of a response ends in a panic, and no operation that borrows a response takes its connection away")
    c.rule("no local function uses an operation that could leak or duplicate a connection (" + ", ".join(LEAKS[:6]) + ", ...)")
    p = c.p
    w = W(c)
    if not w.good:
        return
    ops = Ops(c, w)
    roots = [("Response", c.fn("Response", "try_send_data"), False), ("Response", c.fn("Response", "drop", "Drop"), True),
             ("Chunked", c.fn("Chunked", "end"), False), ("Chunked", c.fn("Chunked", "drop", "Drop"), True), ("Raw", c.fn("Raw", "end"), False)]
    for ty, f, isdrop in roots:
        if f is None:
            continue
        self_ = T("deref", T("param", 1)) if isdrop else T("param", 1)
        facts = {}
        if ty == "Response":
            facts = {T("discr", fld(self_, 0, w.storage)): 1}
            if not isdrop:
                facts[T("discr", fld(self_, 0, w.field[ty]))] = 1

        def on(kind, eng, st, where, m, call, v):
            if kind == "drop-fresh":
                m.put(st, status=eng.sel(v, ("f", 0, 101)))
        ops.on = on
        eng, ex = ops.run(f, facts=facts, drops=not isdrop)
        where = c.where(f)
        for e in ex or ():
            v = View(e)
            kind = writer_kind(c, w, eng, v, self_, ty)
            det = trace_text(e.trace) + facts_text(e.facts, 40) + [short(e.mon)]
            if e.kind != "return":
                c.require(False, "panic:" + f["path"], where, "this can end in a panic instead of completing the response", det)
                continue
            m = ops.M.of(e.mon)
            pan = isdrop and m["pan"] is ON
            ops_done = [x[0] for x in e.trace if x[0] in ("send", "end", "drop-fresh", "drop-stream", "start")]
            if kind is None:
                c.require(not ops_done, "unseen:" + f["path"], where, "the connection is used without looking at the state of the writer", det)
                c.require(False, "untouched:" + f["path"], where, "this can be left without looking at the writer", det)
                continue
            if kind in ("none", "error", "mock"):
                c.require(m["sends"] is INT(0), "extra:" + f["path"], where, "something is sent although there is no connection", det)
                continue
            c.count("ways to complete a response")
            c.require(m["sends"] is INT(1), "completions:" + f["path"], where, "the connection is completed %s times" % short(m["sends"]), det)
            if pan:
                c.count("ways while panicking")
                c.require(ops_done == ["drop-fresh"] and not any(x[0] == "filters" for x in e.trace), "panicking-send", where, "a response is sent as usual while the thread is panicking", det)
                continue
            failed = m["err"] is ON or m["ferr"] is ON
            how = "send" if ty == "Response" else "end"
            dirty = "drop-fresh" if ty == "Response" else "drop-stream"
            if how not in ops_done:
                # a filter's abort is the only other way, and it is reported as an error
                c.require(dirty in ops_done and failed and (isdrop or eng.known(v, eng.discr(e.ret)) == 1), "silent:" + f["path"], where, "the response is let go without being completed although nothing failed", det)
            elif ty != "Raw":
                fl = fld(self_, 0, w.filters[ty])
                none = eng.known(v, T("eq", T("len", T("deref", fl)), INT(0))) == 1 or eng.known(v, terms.lt(INT(0), eng.length(T("deref", fl)))) == 0
                c.require(none or m["fend"] is ON, "filters-not-ended:" + f["path"], where, "the response is completed without the end step of its filters", det)
                if none:
                    c.count("completions without filters")
                if isdrop and ty == "Response" and none:
                    body = [x[2] for x in e.trace if x[0] == "send"][0]
                    c.require(any(x.op == "agg" and x.args[0] == "array" and not x.args[2] for x in walk(body)) or any(x.op in ("bytes", "str") and not x.args[0] for x in walk(body)), "drop-body", where,
                              "a response that is dropped is not sent with an empty body but with %s" % short(body), det)
    c.floor("ways to complete a response", 10)
    c.floor("ways while panicking", 1)
    # operations that borrow a response
    for f in p.fns:
        if f["body"] is None or not f["ins"] or not (f["pub"] or "trait" in f) or f["name"] == "drop":
            continue
        t = p.types[f["ins"][0]]
        if t["k"] != "ref" or not t["mut"] or p.tname(t["e"]) != "Response" or p.tname(f.get("self", f["ins"][0])) != "Response":
            continue
        c.count("operations that borrow a response")
        self_ = T("deref", T("param", 1))
        wr = fld(self_, 0, w.field["Response"])
        fs = fld(self_, 0, w.storage)
        eng, ex = ops.run(f, facts={T("discr", wr): 1, T("discr", fs): 1}, drops=True)
        for e in ex or ():
            if e.kind != "return":
                c.require(False, "panic:" + f["path"], c.where(f), "this can panic", trace_text(e.trace) + facts_text(e.facts))
                continue
            for what, i in (("connection", w.field["Response"]), ("filter storage", w.storage)):
                x = eng.load(e.st, T("O", T("param", 1)), (("f", 0, i),))
                c.require(eng.known(View(e), eng.discr(x)) == 1, "taken:" + f["path"], c.where(f), "the %s can be taken away from a response that is only borrowed: %s" % (what, short(x)), trace_text(e.trace))
    c.floor("operations that borrow a response", 3)
    leaks(c)


def leaks(c):
    p = c.p
    for bi, b in enumerate(p.bodies):
        if b is None or not b.get("local"):
            continue
        for cc, sp in c.cg.edges(bi)[0]:
            cc = p.callees[cc]
            c.count("calls looked at for leaks")
            if cc["short"] in LEAKS and any(t_holds(c, a) for a in cc.get("args", ())):
                c.require(False, "leak:%s:%s" % (b["path"], cc["short"]), p.where(sp) if sp else b["path"], "%s can leak or duplicate the connection of a response" % cc["short"])


def t_holds(c, ti):
    t = c.p.types[ti]
    if hyper_response(t) or t["k"] in ("param",):
        return True
    return any(True for _ in c.tpaths(ti, hyper_response))


def forwards(c, types):
    """the operations that ignore errors hand their content over to one that does not, once"""
    p = c.p
    w = W(c)
    if not w.good:
        return

    def core(cc):
        if cc["short"].endswith("SendResponse::send_response"):
            return True
        return cc.get("body") in able

    able = {f["body"] for f in p.fns if f["body"] is not None and p.bodies[f["body"]] is not None and len(f["ins"]) >= 2 and errtype(c, f["out"]) is not None and
            c.cg.reaches(f["body"], "io", lambda x: is_io(c, x))}

    def rel(eng, st, call, res):
        if res is None or not core(call.c):
            return None
        vals = tuple(eng.deepval(st, a) for a in call.args)
        return ("hands over", call.name, vals, res)
    for f in p.fns:
        if f["body"] is None or p.bodies[f["body"]] is None or f["name"] not in ("send", "send_data") or "trait" in f or f.get("self") is None or p.tname(f["self"]) not in types or len(f["ins"]) != 2:
            continue
        eng = c.engine(rel=rel, opaque=lambda cc: core(cc) or ignoring(c, cc) and cc["name"] == "handle")
        for e in c.run(eng, f, facts=w.fresh_facts(c, f)) or ():
            if e.kind != "return":
                continue
            c.count("contents handed over")
            hs = [x for x in e.trace if x[0] == "hands over"]
            det = trace_text(e.trace) + facts_text(e.facts)
            if not c.require(len(hs) == 1 and ("loop",) not in [x[:1] for x in e.trace], "hand-over:" + f["path"], c.where(f), "the content is handed over to %d operations that send it" % len(hs), det):
                continue
            me, data = T("param", 1), T("param", 2)
            vals = hs[0][2]
            if p.tname(f["self"]) == "Raw" and hs[0][1].split("::")[-1] == "write":
                c.require(any(y is fld(hs[0][3], 0, 0) for t in e.facts for y in walk(t)), "hand-over-part:" + f["path"], c.where(f), "the content may be sent only in part", det)
            c.require(any(x is me for a in vals for x in walk(a)) and any(x is data for a in vals for x in walk(a)), "hand-over-what:" + f["path"], c.where(f),
                      "what is handed over is not the response and the content that was given: %s" % ", ".join(short(a) for a in vals), det)
