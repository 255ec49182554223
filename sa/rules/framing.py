"""What the head of a response says: Connection and Content-Length (C09, C10)."""
from terms import *
import terms
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import *
from rules.response import W, Ops, REMOVED, hyper_response, drop_of


def completing(c):
    """(function, type of self, self by reference) of every operation that writes the head of a response"""
    for name in ("try_send_data", "into_chunked", "into_raw"):
        yield c.fn("Response", name), False
    yield c.fn("Response", "drop", "Drop"), True


def base(w, isdrop):
    self_ = T("deref", T("param", 1)) if isdrop else T("param", 1)
    facts = {T("discr", fld(self_, 0, w.storage)): 1}
    if not isdrop:
        facts[T("discr", fld(self_, 0, w.field["Response"]))] = 1
    return self_, facts


@prop("C09")
def c09(c):
    from rules.server import server_force_close
    c.rule("at every place where the head of a response can be written (hyper's send, start and drop), the last thing done to the Connection header was setting it to 'close' if the response is marked, and the library did nothing to it if it is not; both cases are told apart on every path")
    c.rule("the mark is false without keep-alive and is (busy threads + threads to keep free > threads) with it, at every place where a response reaches the handler or is dropped; it is never changed afterwards")
    p = c.p
    w = W(c)
    if not w.good:
        return
    seen = set()
    for f, isdrop in completing(c):
        if f is None:
            continue
        self_, facts = base(w, isdrop)
        mark = fld(self_, 0, w.force)

        def on(kind, eng, st, where, m, call, v):
            det = trace_text(st.trace) + facts_text(st.facts)
            k = eng.known(st, mark)
            if kind in ("send", "start", "drop-fresh"):
                seen.add((f["path"], kind))
                c.count("heads written, marked" if k == 1 else "heads written, not marked")
                if k is None:
                    # the head can be written without looking at the mark
                    c.require(False, "unmarked:%s:%s" % (f["path"], kind), where, "the head of the response is written without looking at whether the connection is to be closed", det)
                elif k == 1:
                    c.require(m.get(st, "conn") is ON, "not-closed:%s:%s" % (f["path"], kind), where, "the head of a response that is marked for forced close is written without 'Connection: close'", det)
            if kind == "header":
                last, h, val = call
                if h == "connection" or h is None:
                    c.count("changes of the Connection header")
                    c.require(k == 1, "changed:%s" % f["path"], where, "the library changes the Connection header%s of a response that is not marked for forced close" % ("" if h else " (or a header that is not known)"), det)
        ops = Ops(c, w)
        ops.on = on
        eng, ex = ops.run(f, facts=facts, drops=not isdrop)
        for e in ex or ():
            if e.kind != "return":
                continue
    for f in p.fns:
        # the mark is set once
        if f["body"] is None or not f["ins"]:
            continue
        t = p.types[f["ins"][0]]
        if t["k"] == "ref" and t["mut"] and p.tname(t["e"]) == "Response" and p.types[t["e"]].get("local") and f["name"] != "drop" and (f["pub"] or "trait" in f):
            ops = Ops(c, w)
            self_ = T("deref", T("param", 1))
            eng, ex = ops.run(f, facts={T("discr", fld(self_, 0, w.storage)): 1, T("discr", fld(self_, 0, w.field["Response"])): 1}, drops=True)
            for e in ex or ():
                x = eng.load(e.st, T("O", T("param", 1)), (("f", 0, w.force),))
                c.require(x is fld(self_, 0, w.force), "mark-changed:" + f["path"], c.where(f), "the mark for forced close is changed to %s" % short(x))
    f = c.fn("Response", "new")
    if f is not None:
        eng = c.engine()
        i = [k for k, t in enumerate(f["ins"]) if p.tname(t) == "bool"]
        for e in c.run(eng, f) or ():
            x = eng.sel(e.ret, ("f", 0, w.force))
            c.require(len(i) == 1 and x is T("param", i[0] + 1), "mark-new", c.where(f), "a new response is not marked as it was asked for but with %s" % short(x))
    server_force_close(c)
    c.count("places where a head is written", len(seen))
    c.floor("places where a head is written", 5)
    c.floor("heads written, marked", 5)
    c.floor("heads written, not marked", 5)
    c.floor("changes of the Connection header", 4)


@prop("C10")
def c10(c):
    c.rule("the buffered operations write a head and body only through hyper's send, which declares the length of the bytes it writes, and never through start or single writes")
    c.rule("wherever hyper completes a response that was given up (after a filter failed or while panicking), and where a chunked response is started, the last thing done to Content-Length, also after all filters, was removing it")
    c.rule("where a raw response is started, the last thing done to Content-Length was setting it to the length that the creator gave")
    c.rule("no operation of a chunked or raw response changes headers")
    p = c.p
    w = W(c)
    if not w.good:
        return
    for f, isdrop in completing(c):
        if f is None:
            continue
        self_, facts = base(w, isdrop)
        name = f["name"]

        def on(kind, eng, st, where, m, call, v):
            det = trace_text(st.trace) + facts_text(st.facts)
            cl = m.get(st, "cl")
            if kind == "send":
                c.count("buffered responses")
                c.require(name not in ("into_chunked", "into_raw"), "kind:" + name, where, "a streaming response is sent in one piece", det)
            elif kind == "start":
                if name == "into_chunked":
                    c.count("chunked responses")
                    c.require(cl is REMOVED, "chunked-length", where, "a chunked response is started although it may declare a content length", det)
                elif name == "into_raw":
                    c.count("raw responses")
                    good = cl.op == "agg" and p.last(cl.args[0]) == "ContentLength" and cl.args[2][0] is T("param", 2)
                    c.require(good, "raw-length", where, "a raw response is started with another content length than the given one: %s" % short(cl), det)
                else:
                    c.require(False, "kind:" + name, where, "a buffered response is started as a streaming response", det)
            elif kind in ("drop-fresh",):
                c.count("responses that are given up")
                c.require(cl is REMOVED, "given-up-length:" + f["path"], where, "hyper completes a response without its body although it may declare a content length", det)
            elif kind == "io" and name not in ("into_chunked", "into_raw") and call.name.startswith("Write::"):
                c.require(False, "piecewise:" + f["path"], where, "a buffered response is written piece by piece", det)
        ops = Ops(c, w)
        ops.on = on
        ops.run(f, facts=facts, drops=not isdrop)
    c.floor("buffered responses", 4)
    c.floor("chunked responses", 1)
    c.floor("raw responses", 1)
    c.floor("responses that are given up", 2)
    # streaming responses have no access to headers
    for f in p.fns:
        if f["body"] is None or not f["ins"] or not (f["pub"] or "trait" in f):
            continue
        t = p.types[f["ins"][0]]
        ty = p.tname(t["e"] if t["k"] == "ref" else f["ins"][0])
        if ty not in ("Chunked", "Raw"):
            continue
        c.count("operations of streaming responses")
        for x in c.cg.reachable([f["body"]]):
            for cc, sp in c.cg.edges(x)[0]:
                n = p.callees[cc]["short"]
                c.require(not n.startswith("hyper::header::Headers::") or n.split("::")[-1] not in ("set", "set_raw", "append_raw", "get_mut", "clear", "remove", "remove_raw"), "late-header:%s" % f["path"], p.where(sp) if sp else c.where(f), "an operation of a streaming response changes headers after they were sent")
    c.floor("operations of streaming responses", 10)
