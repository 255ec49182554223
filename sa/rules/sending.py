"""Values sent as responses, files, file errors and the io contracts (C11, C13, C14, C15, C40)."""
from terms import *
import terms
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import *
from rules.response import W, Ops, forwards, hyper_response, drop_of, header_name, contract, ignoring, writer_kind, FILTER, t_holds
from rules.server import status, is_status


class Seen:
    """runs a function and records selected calls, in order, with the values they get"""

    def __init__(self, c, w, pick, stop=None):
        self.c, self.w, self.pick = c, w, pick
        self.stop = stop or pick

    def run(self, f, facts=None, split=None, panics=False):
        c, p, w = self.c, self.c.p, self.w
        pre = {}

        def rel(eng, st, call, res):
            if res is None:
                return None
            where = p.where(call.span) if call.span and call.span[1] else c.where(f)
            if call.name == "Drop::drop" and drop_of(c, call.c):
                return ("drop", where, (pre["v"],), res)
            if self.pick(call.c):
                return (call.name, where, tuple(eng.deepval(st, a) for a in call.args), res)
            if call.name.startswith("hyper::header::Headers::") and call.name.split("::")[-1] in ("set", "set_raw", "append_raw", "remove", "remove_raw", "clear", "get_mut"):
                return ("header", where, (call.name.split("::")[-1], header_name(c, eng, st, call), tuple(eng.deepval(st, a) for a in call.args[1:])), res)
            return None

        def sp(eng, st, call, res):
            if split is not None:
                r = split(eng, st, call, res)
                if r is not None:
                    return r
            if is_io(c, call.c, call.dty) or self.stop(call.c) and errtype(c, call.dty) is not None:
                return [(ok(fld(res, 0, 0)), st.mon), (err(fld(res, 1, 0)), st.mon)]
            return None
        eng = c.engine(rel=rel, split=sp, interesting=hyper_response,
                       opaque=lambda cc: self.stop(cc) or contract(c, cc) or drop_of(c, cc) or c.cg_far(cc))
        orig = eng.havoc

        def havoc(st, cc, args, atys, vals, res):
            if cc["short"] == "Drop::drop":
                pre["v"] = eng.load(st, *eng.target(args[0]))
            orig(st, cc, args, atys, vals, res)
        eng.havoc = havoc
        if facts is None:
            facts = w.fresh_facts(c, f)
        return eng, [e for e in c.run(eng, f, facts=facts, mon=UNIT) or () if e.kind == "return"]


def statuses(c, w, eng, view, resp):
    """the status of a response value, whichever kind of writer it has"""
    x = eng.sel(resp, ("f", 0, w.field["Response"]))
    x = eng.sel(x, ("f", 1, 0))
    d = eng.known(view, eng.discr(x))
    t = maybe_mock(c)
    r = []
    for v in t["vs"]:
        if d is not None and v["d"] != d:
            continue
        act = [i for i, y in enumerate(v["fs"]) if hyper_response(c.p.types[y[1]])]
        vi = t["vs"].index(v)
        if act:
            r.append(eng.sel(eng.sel(x, ("f", vi, act[0])), ("f", 0, 101)))
        else:
            k = [i for i, y in enumerate(v["fs"]) if c.p.tname(y[1]) == "StatusCode"]
            r.append(eng.sel(x, ("f", vi, k[0])))
    return r


def maybe_mock(c):
    return [t for t in c.p.types if t["k"] == "adt" and t.get("local") and t.get("kind") == "enum" and any(any(hyper_response(c.p.types[y[1]]) for y in v["fs"]) for v in t.get("vs") or ())][0]


def bare(v):
    """the value a changed one started as"""
    while v.op == "with":
        v = v.args[0]
    return v


def send_impls(c):
    return [f for f in c.p.fns if f["name"] == "send_response" and f.get("trait", "").split("<")[0].endswith("SendResponse") and f["body"] is not None]


SENDS = ("try_send_data", "try_send", "send_data", "send")


def is_send(c, cc):
    n = cc["short"].split("::")
    return len(n) > 1 and n[-2] == "Response" and n[-1] in SENDS or cc["short"].endswith("SendResponse::send_response")


@prop("C40")
def c40(c):
    c.rule("None: the response gets status 404 and is given up without content; Some(x): x is sent with the response as it was")
    c.rule("Ok(x): x is sent, with status 200 or the one that was set; Err(e): e is sent with status 500")
    c.rule("an I/O error is sent as its text, with status 404 if it is about a missing file and with the status that was set otherwise")
    c.rule("plain data and path buffers are sent as they are, with the response as it was; on every path the response is used exactly once and the result of sending is returned")
    p = c.p
    w = W(c)
    if not w.good:
        return
    S = {n: status(c, n) for n in ("NotFound", "InternalServerError", "Ok")}
    impls = send_impls(c)
    for f in impls:
        t = p.types[f["ins"][0]]
        kind = p.tname(f["ins"][0])
        if kind in ("File",) or t["k"] == "ref":
            continue    # files: C14
        resp = T("param", 2)
        self_ = T("param", 1)
        s = Seen(c, w, lambda cc: is_send(c, cc))
        eng, ex = s.run(f)
        where = c.where(f)
        for e in ex:
            v = View(e)
            det = trace_text(e.trace) + facts_text(e.facts)
            ev = [x for x in e.trace if x[0] != "loop"]
            hd = [x for x in ev if x[0] == "header"]
            c.require(not hd, "headers:" + f["path"], where, "a value that is sent as a response changes headers", det)
            ev = [x for x in ev if x[0] != "header" and not (x[0] == "drop" and eng.known(v, eng.discr(eng.sel(x[2][0], ("f", 0, w.field["Response"])))) == 0)]
            if not c.require(len(ev) == 1, "once:" + f["path"], where, "the response is used %d times" % len(ev), det):
                continue
            n, at, args, res = ev[0]
            d = eng.known(v, T("discr", self_)) if kind in ("Option", "Result") else None
            r = args[-1] if n.endswith("SendResponse::send_response") else args[0]
            data = args[0] if n.endswith("SendResponse::send_response") else args[-1]
            st = statuses(c, w, eng, v, r)
            old = statuses(c, w, eng, v, resp)
            same = bare(r) is resp and all(a is b for a, b in zip(st, old))
            c.count("ways to send")
            c.require(bare(r) is resp, "other:" + f["path"], where, "another response than the given one is used: %s" % short(r), det)
            if kind == "Option" and d == 0:
                c.count("absent values")
                c.require(n == "drop" or "array#0{}" in show(data), "none-content", where, "an absent value is sent with content: %s" % short(data), det)
                c.require(all(is_status(c, eng, v, x, S["NotFound"]) for x in st), "none-status", where, "an absent value is sent with status %s" % short(tuple(st)), det)
                continue
            c.require(n != "drop", "unsent:" + f["path"], where, "the value is not sent", det)
            if n.split("::")[-1] not in ("send", "send_data"):
                c.require(any(x is res or x is fld(res, 0, 0) or x is fld(res, 1, 0) for x in walk(e.ret)) or eng.known(v, eng.discr(e.ret)) == eng.known(v, eng.discr(res)) and eng.known(v, eng.discr(e.ret)) is not None or e.ret is ok(UNIT), "result:" + f["path"], where, "the result of sending is not returned", det)
            if kind == "Option":
                c.count("present values")
                c.require(data is fld(self_, 1, 0), "content:" + f["path"], where, "something else than the value is sent: %s" % short(data), det)
                c.require(same, "status:" + f["path"], where, "the status is changed for a present value", det)
            elif kind == "Result":
                if d is None:
                    c.require(False, "undistinguished", where, "results are sent without looking at whether they are errors", det)
                    continue
                c.count("results")
                c.require(data is fld(self_, d, 0), "content:" + f["path"], where, "something else than the value is sent: %s" % short(data), det)
                want = S["InternalServerError"] if d == 1 else S["Ok"]
                c.require(all(is_status(c, eng, v, x, want) for x in st) or d == 0 and same, "result-status%d" % d, where, "%s is sent with status %s" % ("an error" if d else "a value", short(tuple(st))), det)
            elif kind == "Error" and "io" in t["s"]:
                c.count("I/O errors")
                k = kind_of(c, eng, v, self_)
                c.require(k is not None, "kind", where, "I/O errors are sent without looking at their kind", det)
                if k == 1:
                    c.require(all(is_status(c, eng, v, x, S["NotFound"]) for x in st), "missing-status", where, "an error about a missing file is sent with status %s" % short(tuple(st)), det)
                elif k == 0:
                    c.require(same, "error-status", where, "an I/O error of another kind changes the status to %s" % short(tuple(st)), det)
                c.require(any(x is self_ for x in sources_of(eng, data)) and ("ToString" in show(data) or "to_string" in show(data) or "fmt" in show(data).lower()), "error-text", where, "an I/O error is sent as %s" % short(data), det)
            else:
                c.count("plain values")
                c.require(any(x is self_ for x in sources_of(eng, data)), "content:" + f["path"], where, "something else than the value is sent: %s" % short(data), det)
                c.require(same, "status:" + f["path"], where, "the status is changed", det)
    c.floor("absent values", 1)
    c.floor("present values", 1)
    c.floor("results", 2)
    c.floor("I/O errors", 2)
    c.floor("plain values", 2)


def sources_of(eng, v):
    """a value and what it was computed from, also through calls"""
    seen = set()
    work = [v]
    while work:
        x = work.pop()
        if isinstance(x, (tuple, frozenset)):
            work.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        yield x
        if x in eng.origin:
            work.extend(a for a in eng.origin[x].args)
        work.extend(x.args)


def kind_of(c, eng, v, e):
    """is e's kind known to be NotFound (1) or known to be another (0)?"""
    nf = c.variant("ErrorKind", "NotFound")
    for t, val in v.facts.items():
        if t.op == "discr" and "kind" in show(t) and any(x is e for x in sources_of(eng, t)):
            if val == nf:
                return 1
            if isinstance(val, int) or nf in val:
                return 0
        if t.op == "eq" and "kind" in show(t) and any(x is e for x in sources_of(eng, t)):
            return val if val in (0, 1) else None
    return None


def file_errors(c):
    """(index of the variant that keeps the response, index of the other) of FileError"""
    t = c.struct("FileError")
    if t is None:
        c.violation("anchor:FileError", "-", "FileError is not found")
        return None, None, None, None
    op = [i for i, v in enumerate(t["vs"]) if any(c.p.tname(x[1]) == "Response" for x in v["fs"])]
    se = [i for i, v in enumerate(t["vs"]) if i not in op]
    if len(op) != 1 or len(se) != 1:
        c.violation("anchor:FileError", "-", "FileError has changed")
        return None, None, None, None
    fr = [i for i, x in enumerate(t["vs"][op[0]]["fs"]) if c.p.tname(x[1]) == "Response"][0]
    fe = [i for i, x in enumerate(t["vs"][op[0]]["fs"]) if i != fr][0]
    return op[0], se[0], fe, fr


def agg_of(v, ty):
    return v.op == "agg" and v.args[0].split("::")[-1] == ty


def is_octet(v):
    s = [x.args[0] for x in walk(v) if x.op == "str"]
    return agg_of(v, "Mime") and s == ["octet-stream"]


def is_file_op(c, cc):
    n = cc["short"]
    return n in ("File::open", "File::metadata", "Metadata::len", "io::copy", "Path::extension", "Path::extension") or n.endswith("::into_raw") or n.endswith("Raw::end") \
        or cc["name"] == "ext_to_mime" or n.startswith(("Seek::", "Read::")) or n.startswith("File::set_") or n == "File::try_clone"


def file_sender(c, cc):
    """SendResponse for an open file"""
    return cc["short"].endswith("SendResponse::send_response") and cc.get("args") and c.p.tname(cc["args"][0]) == "File"


@prop("C14")
def c14(c):
    c.rule("sending an open file: the length that is declared is Metadata::len of File::metadata of this file, the file is then copied with io::copy to the response that was made, nothing reads or moves in the file in between, and the response is ended after the copy")
    c.rule("sending a path: the file that is sent is the one opened at this path; the only header that is set, on paths where it could be opened, is Content-Type, to what the mapping gives for the extension of this path, or application/octet-stream if there is no extension or nothing is given for it")
    c.rule("no header is touched on a path where the file could not be opened")
    p = c.p
    w = W(c)
    if not w.good:
        return
    impls = send_impls(c)
    fs = [f for f in impls if p.tname(f["ins"][0]) == "File"]
    c.require(len(fs) == 1, "anchor:file", "-", "sending a file is not found")
    OPEN, SEND, fe, fr = file_errors(c)
    for f in fs:
        where = c.where(f)
        s = Seen(c, w, lambda cc: is_file_op(c, cc))
        eng, ex = s.run(f)
        for e in ex:
            det = trace_text(e.trace) + facts_text(e.facts)
            ev = [x for x in e.trace if x[0] not in ("loop",)]
            raws = [x for x in ev if x[0].endswith("into_raw")]
            copies = [x for x in ev if x[0] == "io::copy"]
            c.require(not [x for x in ev if x[0].startswith(("Seek::", "Read::", "File::set_", "File::try_clone"))], "moved", where, "something reads, moves in or changes the file", det)
            c.require(not [x for x in ev if x[0] == "header"], "file-headers", where, "sending an open file changes headers", det)
            if not raws:
                c.count("files whose length is unknown")
                c.require(not copies and eng.known(View(e), eng.discr(e.ret)) == 1, "unsent", where, "a file is not sent, but success is reported", det)
                continue
            c.count("files sent")
            ln = raws[0][2][1]
            good = False
            for x in [ln]:
                o = eng.origin.get(x)
                a = x.args[1][0] if x.op == "app" and "len" in x.args[0] else (eng.deepval(e.st, o.args[0]) if o is not None and o.name == "Metadata::len" else None)
                if a is None:
                    continue
                metas = [y for y in ev if y[0] == "File::metadata"]
                good = any(z is y[3] or z is fld(y[3], 0, 0) for y in metas for z in walk(a) if y[2] and any(q is T("param", 1) for q in walk(y[2][0])))
            c.require(good, "length", where, "the declared length is not the length of the file: %s" % short(ln), det)
            c.require(bare(raws[0][2][0]) is T("param", 2), "response", where, "another response than the given one is used", det)
            if c.require(len(copies) == 1, "copies", where, "the file is copied %d times" % len(copies), det):
                src, dst = copies[0][2]
                c.require(any(q is T("param", 1) for q in walk(src)), "source", where, "another file than the given one is copied: %s" % short(src), det)
                c.require(any(q is raws[0][3] for q in walk(dst)), "target", where, "the file is copied to something else than the response: %s" % short(dst), det)
                ends = [x for x in ev if x[0].endswith("Raw::end")]
                if eng.known(View(e), eng.discr(e.ret)) == 0:
                    c.require(len(ends) == 1 and ev.index(ends[0]) > ev.index(copies[0]), "ended", where, "a file is reported as sent without ending its response", det)
    paths = [f for f in impls if p.types[f["ins"][0]]["k"] == "ref" and p.tname(p.types[f["ins"][0]]["e"]) == "Path"]
    f = c.fn("Response", "send_file_with_mime")
    todo = [(x, T("param", 1), T("param", 2), None) for x in paths]
    if f is not None:
        todo.append((f, T("param", 2), T("param", 1), T("param", 3)))
    c.require(len(paths) == 1, "anchor:path", "-", "sending a path is not found")
    for f, path, resp, mapping in todo:
        where = c.where(f)
        s = Seen(c, w, lambda cc: is_file_op(c, cc) or file_sender(c, cc) or "FnOnce::call_once" in cc["short"] and cc.get("kind") == "param")
        eng, ex = s.run(f)
        for e in ex:
            v = View(e)
            det = trace_text(e.trace) + facts_text(e.facts, 20)
            ev = [x for x in e.trace if x[0] != "loop"]
            hd = [x for x in ev if x[0] == "header"]
            op = [x for x in ev if x[0] == "File::open"]
            sent = [x for x in ev if x[0].endswith("SendResponse::send_response")]
            if not c.require(len(op) == 1, "opens:" + f["path"], where, "the file is opened %d times" % len(op), det):
                continue
            c.require(any(q is path for q in sources_of(eng, op[0][2])), "path:" + f["path"], where, "another file is opened: %s" % short(op[0][2]), det)
            if not sent:
                c.count("files that could not be opened")
                c.require(not hd, "untouched:" + f["path"], where, "a header is changed although the file could not be opened", det)
                continue
            c.count("files opened")
            c.require(len(sent) == 1 and any(q is op[0][3] for q in walk(sent[0][2][0])) and bare(sent[0][2][1]) is resp, "sent:" + f["path"], where, "another file or response is used", det)
            if not c.require(len(hd) == 1 and hd[0][2][:2] == ("set", "content-type"), "header:" + f["path"], where, "other headers than the content type are set: %s" % (hd,), det):
                continue
            mime = hd[0][2][2][0]
            mime = mime.args[2][0] if agg_of(mime, "ContentType") else mime
            ext = [t for t in e.facts if t.op == "discr" and "Path::extension" in show(t) and show(t.args[0]).startswith(("app(Path::extension", "call")) and t.args[0].op in ("app", "call") and "extension" in opname(eng, t.args[0])]
            known = {eng.known(v, t) for t in ext}
            if known == {0}:
                c.count("without extension")
                c.require(is_octet(mime), "no-extension:" + f["path"], where, "a file without extension gets the content type %s" % short(mime), det)
            elif known == {1}:
                c.count("with extension")
                calls = [x for x in ev if x[0].endswith(("ext_to_mime", "call_once"))]
                res = [x[3] for x in calls]
                arg_ok = all(any(of_path(eng, e.st, q, path) for q in sources_of(eng, x[2][-1])) for x in calls)
                c.require(len(calls) == 1 and arg_ok, "mapping:" + f["path"], where, "the content type is not looked up for the extension of the path", det)
                if mapping is not None and calls:
                    c.require(calls[0][0].endswith("call_once") and any(q is mapping for q in sources_of(eng, calls[0][2][0])), "given-mapping:" + f["path"], where, "the given mapping is not used", det)
                if len(calls) == 1:
                    d = eng.known(v, eng.discr(res[0]))
                    c.require(d == 1 and mime is fld(res[0], 1, 0) or d == 0 and is_octet(mime), "mime:" + f["path"], where, "the content type is not what the mapping gives: %s" % short(mime), det)
            else:
                c.require(False, "extension:" + f["path"], where, "a content type is chosen without looking at whether there is an extension", det)
    c.floor("files sent", 1)
    c.floor("files that could not be opened", 2)
    c.floor("with extension", 3)
    c.floor("without extension", 2)


VIEWS = ("AsRef::as_ref", "Deref::deref", "Borrow::borrow", "Path::new", "PathBuf::as_path", "Into::into", "From::from", "Clone::clone", "ToOwned::to_owned", "Path::to_path_buf", "Path::to_owned")


def viewed(eng, st, v):
    """the value that other views of the same value were taken of"""
    for _ in range(12):
        if v.op == "&":
            v = v.args[0]
        elif v.op in ("ref", "vref"):
            v = eng.load(st, *eng.target(v)) if v.op == "ref" else v.args[0]
        elif v.op in ("deref", "old") and opname(eng, v.args[0]) in VIEWS:
            v = v.args[0]
        elif v.op == "app" and v.args[0] in VIEWS:
            v = v.args[1][0]
        elif v.op == "call" and opname(eng, v) in VIEWS:
            v = eng.origin[v].args[0]
        else:
            return v
    return v


def of_path(eng, st, t, path):
    """is t the extension of exactly this path?"""
    if opname(eng, t) != "Path::extension":
        return False
    a = t.args[1][0] if t.op == "app" else eng.origin[t].args[0]
    x = viewed(eng, st, a)
    return x is path or x.op == "deref" and x.args[0] is path


def opname(eng, t):
    if t.op == "app":
        return t.args[0]
    o = eng.origin.get(t)
    return o.name if o is not None else ""


@prop("C15")
def c15(c):
    c.rule("every operation that opens or looks at a file before using the response returns FileError::Open with the error that occurred and the response it was given, with status and headers unchanged when it could not be opened; once the response is used, only FileError::Send")
    c.rule("recover_response gives back exactly the response that is kept, and the error itself if there is none")
    c.rule("send_not_found: status 404 and the message if the kind of the error is NotFound; otherwise the error with the untouched response")
    c.rule("ignore_send_error: error and response of a file that could not be opened; success otherwise")
    c.rule("handle: 404 for a missing file, 500 if it could not be opened for another reason; the conversion to an I/O error gives the error that is kept")
    p = c.p
    w = W(c)
    if not w.good:
        return
    OPEN, SEND, fe, fr = file_errors(c)
    if OPEN is None:
        return
    FE = next(t["path"] for t in p.types if t["k"] == "adt" and t.get("local") and p.last(t["path"]) == "FileError")
    self_ = T("param", 1)
    E, R = fld(self_, OPEN, fe), fld(self_, OPEN, fr)
    ES = fld(self_, SEND, 0)
    S = {n: status(c, n) for n in ("NotFound", "InternalServerError")}
    facts0 = {T("discr", fld(R, 0, w.field["Response"])): 1, T("discr", fld(R, 0, w.storage)): 1}

    def is_err(v, which, e, r=None):
        """is v the FileError variant with exactly these parts? also when the whole error is passed on unchanged"""
        if v is self_:
            return True
        if not (v.op == "agg" and v.args[0] == FE and v.args[1] == which):
            return False
        if which == OPEN:
            return v.args[2][fe] is e and v.args[2][fr] is r
        return v.args[2][0] is e

    def on(name, pick=lambda cc: False):
        f = c.fn("FileError", name)
        if f is None:
            return
        s = Seen(c, w, lambda cc: is_send(c, cc) or pick(cc))
        eng, ex = s.run(f, facts=dict(facts0))
        for e in ex:
            v = View(e)
            d = eng.known(v, T("discr", self_))
            ev = [x for x in e.trace if x[0] != "loop"]
            live = [x for x in ev if not (x[0] == "drop" and eng.known(v, eng.discr(eng.sel(x[2][0], ("f", 0, w.field["Response"])))) == 0)]
            yield f, eng, e, v, d, live, eng.known(v, eng.discr(e.ret)), trace_text(e.trace) + facts_text(e.facts)

    for f, eng, e, v, d, ev, k, det in on("recover_response"):
        c.count("recoveries")
        x = eng.deepval(e.st, e.ret)
        good = d == OPEN and k == 0 and fld(x, 0, 0) is R or d == SEND and k == 1 and is_err(fld(x, 1, 0), SEND, ES)
        c.require(good and not ev, "recover%s" % d, c.where(f), "recovering gives %s" % short(x), det)
    for f, eng, e, v, d, ev, k, det in on("ignore_send_error"):
        c.count("ignored errors")
        x = eng.deepval(e.st, e.ret)
        if d == OPEN:
            y = fld(x, 1, 0)
            good = k == 1 and fld(y, 0, 0) is E and fld(y, 0, 1) is R
        else:
            good = d == SEND and k == 0
        c.require(good and not ev, "ignore%s" % d, c.where(f), "ignoring errors while sending gives %s" % short(x), det)
    for f, eng, e, v, d, ev, k, det in on("send_not_found"):
        c.count("missing files")
        x = eng.deepval(e.st, e.ret)
        kd = kind_of(c, eng, v, E)
        if d == SEND:
            c.require(k == 1 and is_err(fld(x, 1, 0), SEND, ES) and not ev, "missing-send", c.where(f), "an error while sending becomes %s" % short(x), det)
        elif d == OPEN and kd == 0:
            c.require(k == 1 and is_err(fld(x, 1, 0), OPEN, E, R) and not ev, "missing-other", c.where(f), "an error that is not about a missing file becomes %s" % short(x), det)
        elif d == OPEN and kd == 1:
            good = len(ev) == 1 and is_sent(c, w, eng, v, ev[0], R, T("param", 2), S["NotFound"])
            c.require(good, "missing-404", c.where(f), "a missing file is not answered with 404 and the message", det)
        else:
            c.require(False, "missing-undecided", c.where(f), "the kind of the error is not looked at", det)
    f = c.fn("FileError", "handle", "ResponseError")
    if f is not None:
        s = Seen(c, w, lambda cc: is_send(c, cc))
        eng, ex = s.run(f, facts=dict(facts0))
        for e in ex:
            v = View(e)
            d = eng.known(v, T("discr", self_))
            ev = [x for x in e.trace if x[0] != "loop"]
            ev = [x for x in ev if not (x[0] == "drop" and eng.known(v, eng.discr(eng.sel(x[2][0], ("f", 0, w.field["Response"])))) == 0)]
            det = trace_text(e.trace) + facts_text(e.facts)
            c.count("handled errors")
            kd = kind_of(c, eng, v, E)
            if d == SEND:
                c.require(not ev, "handle-send", c.where(f), "an error while sending uses a response", det)
            elif d == OPEN and kd in (0, 1):
                want = S["NotFound"] if kd == 1 else S["InternalServerError"]
                c.require(len(ev) == 1 and is_sent(c, w, eng, v, ev[0], R, None, want), "handle-%s" % ("missing" if kd else "other"), c.where(f), "the response to a file that %s has another status" % ("is missing" if kd else "cannot be opened"), det)
            else:
                c.require(False, "handle-undecided", c.where(f), "the kind of the error is not looked at", det)
    for f in c.fns("FileError", "into", "Into"):
        eng = c.engine()
        for e in c.run(eng, f) or ():
            if e.kind != "return":
                continue
            d = eng.known(View(e), T("discr", self_))
            c.count("conversions")
            c.require(d == OPEN and e.ret is E or d == SEND and e.ret is ES, "into%s" % d, c.where(f), "the I/O error of a file error is %s" % short(e.ret))
    # where file errors are made
    opens = ("File::open", "File::metadata")
    for f in p.fns:
        if f["body"] is None or p.bodies[f["body"]] is None:
            continue
        et = errtype(c, f["out"])
        if et is None or p.tname(et) != "FileError" or f.get("self") is not None and p.tname(f["self"]) == "FileError":
            continue
        resp = [i for i, t in enumerate(f["ins"]) if p.tname(t) == "Response"]
        if len(resp) != 1:
            continue
        resp = T("param", resp[0] + 1)
        c.count("operations that open files")
        s = Seen(c, w, lambda cc: cc["short"] in opens or cc["short"] == "io::copy" or cc["short"].endswith(("::into_raw", "Raw::end")) or file_sender(c, cc) or is_send(c, cc))
        eng, ex = s.run(f)
        for e in ex:
            v = View(e)
            det = trace_text(e.trace) + facts_text(e.facts)
            if eng.known(v, eng.discr(e.ret)) != 1:
                continue
            x = eng.deepval(e.st, fld(e.ret, 1, 0)) if e.ret.op != "agg" else eng.deepval(e.st, e.ret.args[2][0])
            passed = [y for y in e.trace if y[0].endswith("send_response")]
            used = [y for y in e.trace if y[0].endswith("into_raw")]
            hd = [y for y in e.trace if y[0] == "header"]
            if passed:
                c.require(any(z is fld(y[3], 1, 0) for y in passed for z in (x,)), "passed-on:" + f["path"], c.where(f), "the error of sending the file is not passed on: %s" % short(x), det)
                continue
            if not c.require(x.op == "agg" and x.args[0] == FE, "unknown-error:" + f["path"], c.where(f), "the error that is returned is not known: %s" % short(x), det):
                continue
            if x.args[1] == OPEN:
                c.count("recoverable errors")
                er = x.args[2][fe]
                r = x.args[2][fr]
                o = eng.origin.get(er.args[0]) if er.op == "fld" else None
                c.require(o is not None and o.name in opens, "cause:" + f["path"], c.where(f), "the error of a file that could not be opened is %s" % short(er), det)
                c.require(not used, "used:" + f["path"], c.where(f), "an error after the response was used is presented as recoverable", det)
                c.require(r is resp and not hd, "untouched:" + f["path"], c.where(f), "the response is not handed back untouched: %s" % short(r), det)
            else:
                c.count("errors while sending")
                c.require(bool(used), "early-send:" + f["path"], c.where(f), "an error before the response was used is presented as one while sending", det)
                er = x.args[2][0]
                o = eng.origin.get(er.args[0]) if er.op == "fld" else None
                c.require(o is not None and (o.name == "io::copy" or o.name.endswith("Raw::end")), "send-cause:" + f["path"], c.where(f), "the error that occurred while sending is replaced: %s" % short(er), det)
    c.floor("recoveries", 2)
    c.floor("ignored errors", 2)
    c.floor("missing files", 3)
    c.floor("handled errors", 3)
    c.floor("conversions", 2)
    c.floor("operations that open files", 3)
    c.floor("recoverable errors", 3)
    c.floor("errors while sending", 2)


def is_sent(c, w, eng, v, ev, resp, data, want):
    """is this event the sending (or giving up) of this response with this status?"""
    n, at, args, res = ev
    r = args[-1] if n.endswith("SendResponse::send_response") else args[0]
    x = args[0] if n.endswith("SendResponse::send_response") else args[-1]
    if bare(r) is not resp:
        return False
    if data is not None and (n == "drop" or x is not data and not any(y is data for y in sources_of(eng, x))):
        return False
    return all(is_status(c, eng, v, s, want) for s in statuses(c, w, eng, v, r))


def op_kind(c, eng, v, x):
    """is a MaybeMock value the one with a connection? 'actual', 'mock' or None"""
    d = eng.known(v, eng.discr(x))
    return d


@prop("C13")
def c13(c):
    c.rule("Chunked as Write: Ok is the length of the data that was given, and only after all of what the filters made of it was written; write_all gives Ok only when write did")
    c.rule("Raw as Write: the data that was given is passed to the writer, once, and what it reports is returned")
    c.rule("mock responses report the whole length of the data as written, mock bodies read nothing, and neither reports an error; everything else passes the caller's buffer on and returns what the connection reports")
    p = c.p
    w = W(c)
    if not w.good:
        return
    buf = T("param", 2)

    def pick(cc):
        n = cc["short"]
        b = cc.get("body")
        local = b is not None and p.bodies[b] is not None and p.bodies[b].get("local")
        return n in ("Write::write", "Write::write_all", "Write::flush", "Read::read", "Read::read_to_end", "Read::read_exact") and not local or filt(cc)

    def filt(cc):
        return filter_fn(c, cc)
    for f in p.fns:
        if "trait" not in f or f["body"] is None or p.bodies[f["body"]] is None:
            continue
        tr = f["trait"].split("<")[0]
        if tr not in ("std::io::Write", "std::io::Read") or f["name"] not in ("write", "write_all", "flush", "read"):
            continue
        ty = p.tname(f["self"])
        where = c.where(f)
        s = Seen(c, w, pick)
        me = T("deref", T("param", 1))
        eng, ex = s.run(f, facts={})
        c.count("implementations")
        for e in ex:
            v = View(e)
            det = trace_text(e.trace) + facts_text(e.facts)
            ev = [x for x in e.trace if x[0] not in ("loop", "header", "drop")]
            io = [x for x in ev if x[0].startswith(("Write::", "Read::"))]
            k = eng.known(v, eng.discr(e.ret))
            if k == 1:
                continue    # errors: C12
            c.count("successful ways")
            val = fld(e.ret, 0, 0)
            for x in io:
                if x[0].split("::")[-1] in ("read", "write", "write_all") and ty != "Chunked":
                    a = x[2][-1]
                    c.require(x[2][-1] is buf or bufof(eng, a, buf), "buffer:" + f["path"], where, "another buffer than the given one is passed on: %s" % short(a), det)
            kind = "mock" if not io else "actual"
            if f["name"] == "flush":
                if ty in ("Chunked", "Raw"):
                    c.require(len(io) == 1 and io[0][0] == "Write::flush" or mock_writer(c, w, eng, v, me, ty), "flush:" + f["path"], where, "flushing does not flush the connection", det)
                continue
            if ty == "Chunked":
                fl = [x for x in ev if not x[0].startswith("Write::")]
                c.require(len(fl) == 1 and any(bufof(eng, a, buf) for a in fl[0][2]), "filtered:" + f["path"], where, "the given data is not handed to the filters exactly once", det)
                if f["name"] == "write":
                    c.count("reported lengths")
                    c.require(is_len(eng, val, buf), "length:" + f["path"], where, "a successful write of a chunk reports %s instead of the length of the given data" % short(val), det)
                c.require(all(x[0] == "Write::write_all" for x in io), "partial:" + f["path"], where, "what the filters made of a chunk may be written only in part", det)
                continue
            if kind == "actual":
                c.require(len(io) == 1, "once:" + f["path"], where, "the data is passed on %d times" % len(io), det)
                n = io[0][0]
                if f["name"] in ("write", "read"):
                    c.count("reported lengths")
                    c.require(val is fld(io[0][3], 0, 0) or val is io[0][3] or n == "Write::write_all" and is_len(eng, val, buf) or fld(e.ret, 0, 0) is fld(io[0][3], 0, 0), "length:" + f["path"], where,
                              "%s is reported instead of what the connection reported" % short(val), det)
                elif f["name"] == "write_all":
                    c.require(n == "Write::write_all", "partial:" + f["path"], where, "the data may be written only in part", det)
            else:
                c.require(mock_writer(c, w, eng, v, me, ty), "mock:" + f["path"], where, "success is reported without passing on the data, although this is not a mock", det)
                if f["name"] == "write":
                    c.count("mock writes")
                    c.require(is_len(eng, val, buf), "mock-length:" + f["path"], where, "a mock accepts %s instead of all of the data" % short(val), det)
                elif f["name"] == "read":
                    c.count("mock reads")
                    c.require(val is INT(0), "mock-read:" + f["path"], where, "a mock body reads %s bytes" % short(val), det)
    # nothing of a mock fails
    t = maybe_mock(c)
    for f in p.fns:
        if f["body"] is None or p.bodies[f["body"]] is None or "self" not in f or errtype(c, f["out"]) is None or p.tname(f["self"]) != p.last(t["path"]):
            continue
        st = p.types[f["self"]]
        if not f["ins"]:
            continue
        byref = p.types[f["ins"][0]]["k"] == "ref"
        me = T("deref", T("param", 1)) if byref else T("param", 1)
        vs = st.get("vs") or ()
        mock = [x["d"] for x in vs if not any(hyper_response(p.types[y[1]]) or p.types[y[1]]["k"] == "param" or "HttpReader" in p.tstr(y[1]) for y in x["fs"])]
        if len(mock) != 1:
            continue
        eng = c.engine(interesting=hyper_response)
        for e in c.run(eng, f, facts={T("discr", me): mock[0]}) or ():
            if e.kind == "return":
                c.count("mock operations")
                c.require(eng.known(View(e), eng.discr(e.ret)) == 0, "mock-fails:" + f["path"], c.where(f), "an operation of a mock can fail")
    c.floor("implementations", 9)
    c.floor("successful ways", 12)
    c.floor("mock writes", 2)
    c.floor("mock reads", 1)
    c.floor("mock operations", 5)
    c.floor("reported lengths", 6)


def filter_fn(c, cc):
    """a call of a filter, or of a function that runs filters and has no response itself"""
    if cc["short"] in FILTER:
        return True
    b = cc.get("body")
    if b is None or c.p.bodies[b] is None or not c.p.bodies[b].get("local"):
        return False
    if not c.cg.reaches(b, "filters", lambda x: x["short"] in FILTER):
        return False
    bb = c.p.bodies[b]
    return not any(c.p.tname(strip(c, t)) in ("Response", "Chunked", "Raw") for t in bb["locals"][1:bb["argc"] + 1])


def strip(c, t):
    while c.p.types[t]["k"] == "ref":
        t = c.p.types[t]["e"]
    return t


def bufof(eng, a, buf):
    """is a the caller's buffer, passed on whole (possibly reborrowed or turned into response data)?"""
    for _ in range(6):
        if a is buf or a.op == "deref" and a.args[0] is buf:
            return True
        if a.op == "vref" or a.op == "&":
            a = a.args[0]
        elif a.op == "ref" and a.args[1].op == "O" and a.args[1].args[0] is buf and not a.args[2]:
            return True
        elif a.op == "app" and a.args[0].startswith("Into::into") and len(a.args[1]) == 1:
            a = a.args[1][0]
        elif a.op == "agg" and len(a.args[2]) == 1:
            a = a.args[2][0]
        else:
            return False
    return False


def is_len(eng, v, buf):
    return v is T("len", T("deref", buf)) or v is T("len", buf) or v.op == "len" and bufof(eng, v.args[0], buf)


def mock_writer(c, w, eng, v, me, ty):
    """does the state say that this writer or body is a mock?"""
    if ty in ("Chunked", "Raw"):
        return writer_kind(c, w, eng, v, me, ty) == "mock"
    for t, val in v.facts.items():
        if t.op == "discr" and any(x is me for x in walk(t)):
            return True
    return False


@prop("C11")
def c11(c):
    from rules.witness import witnesses
    c.rule("no operation of a raw response, and none of the operations that make one, can reach ResponseFilter::begin, write or end, through any chain of calls or drops of its own values")
    c.rule("what a raw response passes to the connection is the data it was given, once (Raw::try_send, write, write_all)")
    c.rule("every exported function that returns a raw response without having been given one is unsafe; its fields are private; programs that make one in safe code do not compile")
    p = c.p
    w = W(c)
    if not w.good:
        return
    raw_i = c.type_of("Raw")
    makers = []
    roots = []
    for f in p.fns:
        if f["body"] is None or p.bodies[f["body"]] is None:
            continue
        has_raw_in = any(p.tname(p.types[t]["e"] if p.types[t]["k"] == "ref" else t) == "Raw" for t in f["ins"])
        out_raw = f["out"] is not None and ("Raw<" in p.tstr(f["out"]) or p.tname(f["out"]) == "Raw") and any(True for _ in [1] if p.tname(f["out"]) == "Raw" or any(True for _ in c.tpaths(f["out"], lambda t: t["k"] == "adt" and p.last(t["path"]) == "Raw" and t.get("local"))))
        if has_raw_in and (f.get("self") is not None and p.tname(f["self"]) == "Raw"):
            roots.append(f)
        elif out_raw and not has_raw_in:
            makers.append(f)
            c.count("functions that make a raw response")
            exported = f["pub"] or "trait" in f
            c.require(f.get("unsafe") or not exported, "safe:" + f["path"], c.where(f), "a raw response can be made without unsafe code")
    aggs = 0
    for bi, b in enumerate(p.bodies):
        if b is None or not b.get("local"):
            continue
        for bl in b["blocks"]:
            for s in bl["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and p.tname(s[2][1][1]) == "Raw" and p.types[s[2][1][1]].get("local"):
                    aggs += 1
                    owner = root_fn(c, bi)
                    good = owner is not None and (owner.get("unsafe") or not (owner["pub"] or "trait" in owner))
                    c.require(good, "built:" + b["path"], p.where(s[3]) if len(s) > 3 else b["path"], "a raw response is built in an operation that is not unsafe")
    c.count("places where a raw response is built", aggs)
    for f in roots + makers:
        c.count("operations")
        resp_drop = set()
        stop = set()
        for g in p.fns:
            # what is left of the response it was made from has no connection any more (C06): its drop does nothing
            if f in makers and g["name"] == "drop" and "trait" in g and p.tname(g["self"]) == "Response" and g["body"] is not None:
                stop.add(g["body"])
        reach = c.cg.reachable([f["body"]], stop=lambda b: b in stop)
        for x in reach - stop:
            for cc, sp in c.cg.edges(x)[0]:
                n = p.callees[cc]["short"]
                c.require(n not in FILTER, "filter:%s" % f["path"], p.where(sp) if sp else c.where(f), "%s can call %s" % (f["path"], n))
    # the drop of what is left of a response whose connection was taken
    f = c.fn("Response", "drop", "Drop")
    if f is not None:
        me = T("deref", T("param", 1))
        s = Seen(c, w, lambda cc: filter_fn(c, cc))
        eng, ex = s.run(f, facts={T("discr", fld(me, 0, w.field["Response"])): 0})
        for e in ex:
            c.require(not [x for x in e.trace if x[0] not in ("loop", "drop", "header")], "left-over", c.where(f), "what is left of a response that became a raw one still calls filters", trace_text(e.trace))
    # data
    for name in ("try_send", "write", "write_all"):
        for f in [g for g in roots if g["name"] == name]:
            s = Seen(c, w, lambda cc: cc["short"] in ("Write::write", "Write::write_all") and not (cc.get("body") is not None and p.bodies[cc["body"]] is not None and p.bodies[cc["body"]].get("local")))
            eng, ex = s.run(f, facts={})
            for e in ex:
                io = [x for x in e.trace if x[0].startswith("Write::")]
                v = View(e)
                if eng.known(v, eng.discr(e.ret)) == 1 and not io:
                    continue
                c.count("data passed on")
                if not io:
                    c.require(writer_kind(c, w, eng, v, T("deref", T("param", 1)), "Raw") == "mock", "lost:" + f["path"], c.where(f), "data given to a raw response is not passed on", trace_text(e.trace) + facts_text(e.facts))
                    continue
                if name != "write":
                    n = fld(io[0][3], 0, 0) if len(io[0]) > 3 and isinstance(io[0][3], Term) else None
                    c.require(io[0][0] == "Write::write_all" or n is not None and any(y is n for t in e.facts for y in walk(t)), "partial:" + f["path"], c.where(f),
                              "data given to a raw response may be passed on only in part", trace_text(e.trace))
                c.require(len(io) == 1 and data_of(eng, io[0][2][-1], T("param", 2)), "data:" + f["path"], c.where(f), "a raw response passes on something else than its data: %s" % short(io[0][2][-1]), trace_text(e.trace))
    c.floor("functions that make a raw response", 1)
    c.floor("places where a raw response is built", 1)
    c.floor("operations", 6)
    c.floor("data passed on", 3)
    forwards(c, ("Raw",))
    c.floor("contents handed over", 1)
    witnesses(c, "C11")


def data_of(eng, a, buf):
    """is a all of the bytes of the data in buf?"""
    for _ in range(12):
        if bufof(eng, a, buf):
            return True
        if a.op in ("vref", "&", "deref"):
            a = a.args[0]
        elif a.op == "fld" and a.args[1] in (0, 1):
            a = a.args[0]
        elif a.op == "app" and len(a.args[1]) == 1 and ("as_bytes" in a.args[0] or "deref" in a.args[0] or "Into::into" in a.args[0] or "as_ref" in a.args[0]):
            a = a.args[1][0]
        else:
            return False
    return False


def root_fn(c, bi):
    """the function a body belongs to (also for closures in it)"""
    p = c.p
    for f in p.fns:
        if f["body"] == bi:
            return f
    path = p.bodies[bi]["path"]
    for f in p.fns:
        if path.startswith(f["path"] + "::{closure"):
            return f
    return None
