"""Response filters as a pipeline (C07), and their aborts (C08): stacks of up to three filters, taken apart call by call."""
import multiprocessing
import os
from concurrent.futures import ProcessPoolExecutor
from terms import *
import terms
import models as base_models
from engine import Engine, Incomplete
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import *
from rules.response import W, FILTER, contract, ignoring, forwards

BEGIN, WRITE, END = FILTER
KIND = {BEGIN: "begin", WRITE: "write", END: "end"}
FIRST = 100                     # filter k is the unknown value "param" FIRST+k
CONTENT = T("data", "content")
M = Mon(log=T("log"), odd=INT(0), io=OFF)


class Models:
    """the usual models, with the bytes of a piece kept together with the piece"""

    def __init__(self, pipe):
        self.pipe = pipe

    def __getattr__(self, n):
        return getattr(base_models, n)

    def find(self, eng, cc):
        if cc["short"].endswith("Data::as_bytes"):
            return self.bytes
        if cc["short"] in ("Write::write_all", "Write::write") and cc.get("args") and self.pipe.c.p.tname(cc["args"][0]) == "Vec":
            return self.sink
        return base_models.find(eng, cc)

    def sink(self, eng, st, call, ret):
        """writing to memory"""
        root, path = eng.target(call.args[0])
        x = eng.strip(st, call.args[1], call.atys[1])
        eng.store(st, root, path, T("cat", eng.load(st, root, path), x))
        return [(st, ok(UNIT if call.name.endswith("write_all") else eng.length(x)))]

    def bytes(self, eng, st, call, ret):
        x = eng.strip(st, call.args[0], call.atys[0])
        if self.pipe.piece(x) is None:
            return None
        return [(st, T("piecebytes", x))]


class Unrolled(Engine):
    """no loop is summarised: a stack has a known number of filters, so every loop over it ends"""
    turns = 40

    def at_head(self, st):
        k = ("head", tuple((f.bi, f.bb) for f in st.frames))
        st.snaps = dict(st.snaps)
        st.snaps[k] = n = st.snaps.get(k, 0) + 1
        for x in [x for x in st.snaps if len(x[1]) > len(k[1]) and x[1][:len(k[1]) - 1] == k[1][:-1] and x[1] != k[1]]:
            del st.snaps[x]
        if n > self.turns:
            raise Incomplete("a loop over at most three filters does not end in %s" % self.p.body(st.frames[-1].bi)["path"])
        self.gc(st)
        return st

    def join_head(self, st):
        return st


class Event:
    def __init__(self, i, kind, k, arg, ans):
        self.i, self.kind, self.k, self.arg, self.ans = i, kind, k, arg, ans

    def __str__(self):
        if self.kind == "out":
            return "%s is written to the connection" % short(self.arg, 120)
        if self.kind == "head":
            return "the head is written"
        a = "" if self.arg is None else "(%s)" % short(self.arg, 120)
        return "filter %d: %s%s -> %s" % (self.k, self.kind, a, self.ans[0] + ("(%s)" % short(self.ans[1], 60) if self.ans[1] is not None else ""))


class Pipe:
    def __init__(self, c, w):
        self.c, self.w = c, w
        p = c.p
        self.action = next((t["path"] for t in p.types if t["k"] == "adt" and t.get("local") and p.last(t["path"]) == "ResponseAction"), None)
        self.next, self.silent, self.abort = (c.variant("ResponseAction", n) for n in ("Next", "SilentAbort", "Abort"))
        self.actual = c.variant("MaybeMock", "Actual")
        self.mock = next((t["path"] for t in p.types if t["k"] == "adt" and p.last(t["path"]) == "MaybeMock"), None)
        self.ferr = c.variant("Error", "Filter")
        self.error = next((t["path"] for t in p.types if t["k"] == "adt" and t.get("local") and t["path"].endswith("response::Error")), None)
        self.good = None not in (self.action, self.next, self.silent, self.abort, self.actual, self.mock, self.ferr, self.error)
        if not self.good:
            c.violation("anchor:filters", "-", "ResponseAction, MaybeMock or Error has changed")

    # ---- pieces of data
    def piece(self, x):
        """the piece that a value is all of, None if it is something else"""
        while True:
            if x.op == "data":
                return x
            if x is self.content:
                return CONTENT
            if x.op == "app" and x.args[0].startswith(("Into::into", "From::from")) and len(x.args[1]) == 1:
                x = x.args[1][0]
                continue
            if x.op in ("fld", "deref", "piecebytes"):
                x = x.args[0]
            elif x.op == "agg" and len(x.args[2]) == 1:
                x = x.args[2][0]
            else:
                return None

    def mentions(self, x):
        return {y for y in walk(x) if y.op == "data"}

    def parts(self, eng, st, x):
        """a sequence of bytes as the pieces it was put together from"""
        work, out = [x], []
        while work:
            y = work.pop()
            if y.op == "cat":
                work.extend([y.args[0], y.args[1]])
            elif y.op == "vnew" or (y.op == "bytes" and not y.args[0]) or y.op == "unit":
                pass
            elif y.op in ("deref", "piecebytes") and self.piece(y) is None and isinstance(y.args[0], Term) and y.args[0].op in ("cat", "vnew"):
                work.append(y.args[0])
            else:
                out.append(y)
        out.reverse()
        return out

    # ---- running
    def filters(self, n):
        v = T("vnew")
        for k in range(n):
            v = T("vpush", v, T("param", FIRST + k))
        return v

    def which(self, eng, st, call):
        """the filter that is called"""
        a = call.args[0]
        xs = [a]
        if a.op == "ref":
            xs.append(eng.load(st, a.args[1], a.args[2]))
            xs.append(a.args[1])
        ks = {y.args[0] - FIRST for x in xs for y in walk(x) if y.op == "param" and y.args[0] >= FIRST}
        return next(iter(ks)) if len(ks) == 1 else None

    content = None
    storage = T("param", "storage")

    def run(self, f, ty, byref, n, odd, writer=None, content=None):
        """all paths through an operation with n filters of which at most `odd` answers are not the usual Next(Some(..))"""
        c, p, w = self.c, self.c.p, self.w
        pipe = self
        self.content = content

        def split(eng, st, call, res):
            nm = call.name
            if nm in KIND:
                kind = KIND[nm]
                k = pipe.which(eng, st, call)
                m = M.of(st.mon)
                log = m["log"]
                i = len(log.args)
                arg = UNIT
                if kind == "write":
                    arg = eng.deepval(st, call.args[2])
                state = UNIT
                if kind == "begin":
                    state = eng.deepval(st, call.args[2])
                ctx = pipe.context(eng, st, call)
                answers = [("Next", T("data", i))]
                if m["odd"].args[0] < odd:
                    answers += [("None", UNIT), ("Silent", UNIT), ("Abort", T("msg", i))]
                outs = []
                for a, x in answers:
                    if a == "Next":
                        v = T("agg", pipe.action, pipe.next, (base_models.some(x),))
                    elif a == "None":
                        v = T("agg", pipe.action, pipe.next, (base_models.NONE,))
                    elif a == "Silent":
                        v = T("agg", pipe.action, pipe.silent, ())
                    else:
                        v = T("agg", pipe.action, pipe.abort, (x,))
                    if kind == "begin":
                        v = T("agg", "tuple", 0, (T("status", i), v))
                    ev = T("ev", kind, -1 if k is None else k, arg, a, x, state, ctx)
                    outs.append((v, M.with_(st.mon, log=T("log", *(log.args + (ev,))), odd=INT(m["odd"].args[0] + (a != "Next")))))
                return outs
            if nm == "thread::panicking":
                return [(INT(0), st.mon)]
            if nm in STD_IO and to_memory(c, call.c) and nm.startswith("Write::"):
                return [(ok(UNIT), st.mon)]
            if is_io(c, call.c, call.dty):
                log = M.get(st, "log")
                evs = ()
                last = nm.split("::")[-1]
                for a in call.args[1:]:
                    x = eng.deepval(st, eng.load(st, *eng.target(a)) if a.op in ("ref", "piecebytes", "bytes", "call", "param") else a)
                    for y in pipe.parts(eng, st, x):
                        evs += (T("ev", "out", -1, y, "", UNIT, UNIT, UNIT),)
                if last in ("start", "send"):
                    evs = (T("ev", "head", -1, UNIT, "", UNIT, pipe.status(eng, st, call), UNIT),) + evs
                if evs:
                    log = T("log", *(log.args + evs))
                mon = M.with_(st.mon, log=log)
                return [(ok(fld(res, 0, 0)), mon), (err(fld(res, 1, 0)), M.with_(mon, io=ON))]
            return None

        def rel(eng, st, call, res):
            if res is not None and call.name in KIND:
                return (KIND[call.name], pipe.which(eng, st, call))
            return None
        eng = Unrolled(p, rel=rel, split=split, opaque=lambda cc: contract(c, cc), max_states=2000000, time_limit=600)
        eng.models = Models(self)
        self.eng = eng
        bi = f["body"]
        args = eng.default_args(bi)
        root = self.root = T("H", T("agg", "filters", 0, ()))
        ti = f["ins"][0]
        ti = p.types[ti]["e"] if byref else ti
        fs = p.types[ti]["vs"][0]["fs"]
        vals = []
        for i in range(len(fs)):
            if i == w.filters[ty]:
                vals.append(eng.mkref(False, root, ()))
            elif i == w.field[ty]:
                hw = T("agg", self.mock, self.actual, (T("param", "writer"),))
                if writer is not None:
                    vals.append(writer)
                elif ty == "Response":
                    vals.append(base_models.some(hw))
                else:
                    vals.append(base_models.some(ok(hw)))
            elif ty == "Response" and i == w.force and n > 2:
                vals.append(INT(0))
            elif "anymap" in p.tstr(fs[i][1]):
                vals.append(base_models.some(T("param", "storage")) if p.tname(fs[i][1]) == "Option" else T("param", "storage"))
            elif p.tname(p.types[fs[i][1]].get("e", fs[i][1])) == "Global":
                vals.append(T("param", "global"))
            else:
                vals.append(T("param", fs[i][0]))
        self_ = T("agg", p.types[ti]["path"], 0, tuple(vals))
        mem = {root: self.filters(n)}
        if byref:
            sroot = T("H", T("agg", "self", 0, ()))
            mem[sroot] = self_
            args[0] = eng.mkref(True, sroot, ())
        else:
            args[0] = self_
        try:
            return eng, eng.run(bi, args, mem=mem, mon=M.start())
        except Incomplete as e:
            c.violation("undecided:" + f["path"], c.where(f), "undecided: %s" % e)
            return eng, ()

    def context(self, eng, st, call):
        return eng.deepval(st, call.args[1])

    def status(self, eng, st, call):
        """the status in the head that is written"""
        x = call.args[0]
        if x.op == "ref":
            x = eng.load(st, x.args[1], x.args[2])
        return eng.sel(x, ("f", 0, 101))

    # ---- what has to hold
    def req(self, which, cond, key, f, msg, det):
        if self.c.prop == which:
            return self.c.require(cond, key + ":" + f["path"], self.c.where(f), msg, det)
        return cond

    def events(self, eng, e):
        out = []
        for i, x in enumerate(M.get(e, "log").args):
            kind, k, arg, a, d, state, ctx = x.args
            v = Event(i, kind, k, arg, (a, d))
            v.state, v.ctx = state, ctx
            out.append(v)
        return out

    def pipeline(self, eng, f, e, n, begins, content, ends):
        """one path against the rules of C07; begins, ends: are these stages part of the operation; content: True, False or None (there may be some)"""
        evs = self.events(eng, e)
        det = [str(x) for x in evs] + facts_text(e.facts) + ["%d filters" % n]
        io = M.get(e, "io") is ON
        aborted = any(x.ans[0] == "Abort" for x in evs if x.k >= 0)
        complete = not io and not aborted and e.kind == "return"
        R = lambda cond, key, msg: self.req("C07", cond, key, f, msg, det)
        if not R(all(x.k >= 0 for x in evs if x.kind in ("begin", "write", "end")), "which", "it is not known which filter is called"):
            return
        # stages, in stack order and once
        stage = {}
        for kind, part in (("begin", begins), ("end", ends)):
            s = [x for x in evs if x.kind == kind]
            stage[kind] = s
            R(part or not s, kind + "-stage", "%s is called by an operation that is not the one to do it" % kind)
            R([x.k for x in s] == list(range(len(s))), kind + "-order", "%s is not called once for each filter in stack order, but for %s" % (kind, ", ".join(str(x.k) for x in s)))
            R(all(x.ans[0] not in ("Silent", "Abort") for x in s[:-1]), kind + "-hidden", "%s is called after an earlier filter answered it with an abort" % kind)
            if complete and part:
                R(len(s) == n or (s and s[-1].ans[0] == "Silent"), kind + "-all", "%s is not called for every filter: %d of %d" % (kind, len(s), n))
        lastb = max([x.i for x in stage["begin"]] or [-1])
        firste = min([x.i for x in stage["end"]] or [len(evs)])
        began, ended = {x.k: x.i for x in stage["begin"]}, {x.k: x.i for x in stage["end"]}
        # status
        # a value that is tested to be another one is that one
        told = lambda v: v.args[0] if v.op == "deref" else v
        same = lambda a, b: a is b or eng.known(View(e), terms.eq(told(a), told(b))) == 1
        st = fld(T("param", "writer"), 0, 101)
        for x in stage["begin"]:
            R(same(x.state, st), "status", "begin of filter %d gets another status than the one before it left: %s" % (x.k, short(x.state)))
            st = T("status", x.i)
        for x in evs:
            if x.kind == "head" and begins and not aborted:
                R(same(x.state, st), "status-sent", "the status that is sent is not the one that the filters left: %s" % short(x.state))
        # what the filters share
        for x in evs:
            if x.k >= 0 and x.ctx.op == "agg":
                b = set()
                for y in x.ctx.args[2]:
                    while y.op in ("&", "deref", "upd"):
                        y = y.args[2] if y.op == "upd" else y.args[0]
                    b.add(y)
                R(b == {self.storage, T("param", "global")}, "context", "a filter does not get the filter storage of the response and the global data: %s" % short(x.ctx))
        # pieces
        left = {}                # piece -> (the next filter, key of where it came from)
        nones = {}
        spurious = begins
        seen = {}                # filter (n is the connection) -> key of the last piece

        def made(x, key):
            if x.ans[0] == "Next":
                left[x.ans[1]] = (x.k + 1, key)
            elif x.ans[0] == "None":
                if x.k + 1 < n:
                    nones.setdefault(x.k + 1, []).append(key)

        def passes(k, key, what):
            R(seen.get(k, (-1, -1)) <= key, "order-%s" % ("out" if k == n else "write"), "%s in another order than the pieces were made in" % what)
            seen[k] = max(key, seen.get(k, (-1, -1)))
        fed = False
        for x in evs:
            if x.kind in ("begin", "end"):
                made(x, (0, x.k + 1) if x.kind == "begin" else (2, x.k))
                if x.kind == "begin":
                    R(not fed, "late-begin", "begin is called after content was passed on")
                continue
            if x.kind == "head":
                R(lastb <= x.i, "late-begin", "begin is called after the head was written")
                continue
            arg = x.arg
            if x.kind == "write":
                R(x.i >= began.get(x.k, -1), "write-before-begin", "filter %d gets data before its begin" % x.k)
                R(x.i <= ended.get(x.k, len(evs)), "write-after-end", "filter %d gets data after its end" % x.k)
                if arg.op == "agg" and arg.args[1] == 0:
                    # no data
                    q = nones.get(x.k)
                    if q:
                        # answers without data cannot be told apart
                        key = min([y for y in q if y >= seen.get(x.k, (-1, -1))] or q)
                        q.remove(key)
                    else:
                        # the first filter may get an empty start
                        R(spurious and x.k == 0 and not fed, "made-up", "filter %d gets an answer that the filter before it did not give" % x.k)
                        spurious = False
                        key = (0, 0)
                    passes(x.k, key, "filter %d gets data" % x.k)
                    made(x, key)
                    continue
                arg = arg.args[2][0] if arg.op == "agg" and len(arg.args[2]) == 1 else arg
            d = self.piece(arg)
            to = x.k if x.kind == "write" else n
            where = "filter %d gets" % x.k if x.kind == "write" else "the connection gets"
            if content is None and not self.mentions(arg):
                d = CONTENT
            if d is CONTENT:
                R(content is not False, "content", "%s content that is not there" % where)
                R(to == 0, "content-level", "%s content that has not passed the filters before" % where)
                R(not fed, "content-twice", "content is passed on more than once")
                R(lastb <= x.i <= firste, "content-stage", "content is passed on before all filters have begun or after the first has ended")
                fed = True
                key = (1, 0)
            elif d is None:
                R(False, "unclear", "%s something else than a piece of data: %s" % (where, short(arg)))
                continue
            elif d not in left:
                R(False, "twice", "%s a piece that was passed on before: %s" % (where, short(d)))
                continue
            else:
                lvl, key = left.pop(d)
                R(lvl == to, "level", "%s a piece that is to go to %s" % (where, "filter %d" % lvl if lvl < n else "the connection"))
            passes(to, key, where)
            if x.kind == "write":
                made(x, key)
            else:
                R(lastb <= x.i, "early-out", "data is written before all filters have begun")
        self.c.count("paths")
        self.c.count("filter calls on them", sum(1 for x in evs if x.k >= 0))
        if e.kind != "return":
            R(False, "panic", "the operation can end in a panic (%s)" % e.kind)
            return
        if complete:
            self.c.count("paths on which everything works")
            R(not left, "lost", "data is not passed on: %s" % ", ".join("%s to %s" % (short(d), "filter %d" % k if k < n else "the connection") for d, (k, _) in left.items()))
            R(not any(nones.values()), "lost-answer", "an answer without data is not passed on to the next filter")
            R(content is not True or fed, "lost-content", "the content is not passed on")
            if any(x.ans[0] == "Silent" for x in evs if x.k >= 0):
                self.c.count("paths with a silent abort")
            if f["name"] == "drop":
                return
            r = self.result(f, e)
            R(eng.known(View(e), eng.discr(r)) == 0, "failed", "the operation reports an error although there was none: %s" % short(r))

    def handed_on(self, eng, f, e):
        """the chunked response works with the same filters"""
        t = self.c.struct("Chunked")
        for i, (nm, ti) in enumerate(t["vs"][0]["fs"]):
            x = eng.sel(e.ret, ("f", 0, i))
            if i == self.w.filters["Chunked"]:
                good = x.op == "ref" and x.args[1] is self.root and not x.args[2]
            elif "anymap" in self.c.p.tstr(ti):
                while x.op == "upd":
                    x = x.args[2]
                good = x is self.storage
            elif self.c.p.tname(self.c.p.types[ti].get("e", ti)) == "Global":
                good = x is T("param", "global")
            else:
                continue
            self.req("C07", good, "handed-on-" + nm, f, "the chunked response gets another %s than the response: %s" % (nm, short(x)), [])

    def result(self, f, e):
        """the Result that tells how the operation went"""
        if f["name"] == "into_chunked":
            x = self.eng.sel(e.ret, ("f", 0, self.w.field["Chunked"]))
            return self.eng.sel(x, ("f", 1, 0))
        return e.ret

    def aborts(self, eng, f, e, n):
        """one path against the rules of C08"""
        evs = self.events(eng, e)
        det = [str(x) for x in evs] + facts_text(e.facts) + ["%d filters" % n]
        R = lambda cond, key, msg: self.req("C08", cond, key, f, msg, det)
        lost = set()
        for x in evs:
            if x.ans[0] == "Abort" and x.kind == "write":
                lost |= self.mentions(x.arg)
            if x.kind == "out":
                R(not (self.mentions(x.arg) & lost), "written", "data that a filter answered with an abort is written: %s" % short(x.arg))
        msgs = {x.ans[1] for x in evs if x.ans[0] == "Abort"}
        if not msgs:
            return
        self.c.count("paths with an abort")
        if f["name"] == "drop":
            return
        if not R(e.kind == "return", "panic", "an abort leads to a panic"):
            return
        r = self.result(f, e)
        d = eng.known(View(e), eng.discr(r))
        if not R(d == 1, "success", "a filter aborted, and the operation reports %s" % short(r)):
            return
        if M.get(e, "io") is ON:
            # an error of the connection may be reported instead
            return
        R(self.carries(eng, e, eng.sel(r, ("f", 1, 0)), msgs), "message", "a filter aborted, and the operation reports another error: %s" % short(r))

    def carries(self, eng, e, x, msgs):
        """is x a filter error with one of the messages, or made from one?"""
        x = eng.deepval(e.st, x)
        work, seen = [x], set()
        while work:
            y = work.pop()
            if not isinstance(y, Term) or y in seen:
                continue
            seen.add(y)
            if y.op == "agg" and y.args[0] == self.error:
                return y.args[1] == self.ferr and y.args[2][0] in msgs
            o = eng.origin.get(y)
            if o is not None:
                work.extend(o.args)
            work.extend(z for a in y.args for z in (a if isinstance(a, tuple) else (a,)))
        return False


def ops(c):
    """(function, type, self by reference, begins, content, ends)"""
    yield c.fn("Response", "try_send_data"), "Response", False, True, True, True
    yield c.fn("Response", "drop", "Drop"), "Response", True, True, None, True
    yield c.fn("Response", "into_chunked"), "Response", False, True, False, False
    yield c.fn("Chunked", "try_send"), "Chunked", True, False, True, False
    yield c.fn("Chunked", "write", "Write"), "Chunked", True, False, True, False
    yield c.fn("Chunked", "write_all", "Write"), "Chunked", True, False, True, False
    yield c.fn("Chunked", "end"), "Chunked", False, False, False, True
    yield c.fn("Chunked", "drop", "Drop"), "Chunked", True, False, False, True


def stacks(c):
    """(number of filters, how many of their answers may be something else than data)"""
    return ((0, 0), (1, 9), (2, 4), (3, 3), (4, 2), (5, 1)) if c.tier == "thorough" else ((0, 0), (1, 9), (2, 2), (3, 2), (4, 1))


def workers(c, check):
    """the operations with each stack, several at a time; what was found is brought together in the end"""
    todo = [(i, n, odd) for n, odd in reversed(stacks(c)) for i, o in enumerate(ops(c)) if o[0] is not None]
    mp = multiprocessing.get_context("fork")
    with ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp_context=mp, initializer=prepare, initargs=(c, check)) as pool:
        for part in pool.map(work, todo):
            for k, where, msg, det in part["violations"]:
                c.violation(k, where, msg, det)
            for k, n in part["counts"].items():
                c.count(k, n)
            c.failed.extend(part["failed"])
            c.samples.extend(x for x in part["samples"] if x not in c.samples)
            c.states += part["states"]
            c.exits += part["exits"]
            yield part["paths"]


def prepare(c, check):
    global HERE
    HERE = (c, check)


def work(task):
    c, check = HERE
    i, n, odd = task
    c.violations, c.counts, c.failed, c.samples = [], {}, [], []
    f, ty, byref, begins, content, ends = list(ops(c))[i]
    pipe = Pipe(c, W(c))
    eng, ex = pipe.run(f, ty, byref, n, odd, content=T("param", 2))
    for e in ex:
        check(pipe, eng, f, e, n, begins, content, ends)
        if f["name"] == "into_chunked" and e.kind == "return":
            pipe.handed_on(eng, f, e)
    return {"violations": c.violations, "counts": c.counts, "failed": c.failed, "samples": c.samples, "states": eng.nstates, "exits": len(ex),
            "paths": {c.p.bodies[b]["path"] for b in eng.visited_bodies}}


def explore(c, check):
    w = W(c)
    if not w.good:
        return None
    pipe = Pipe(c, w)
    if not pipe.good:
        return None
    c.count("operations", sum(1 for o in ops(c) if o[0] is not None))
    paths = set()
    for x in workers(c, check):
        paths |= x
    c.units |= paths
    # nothing else calls filters or writes bodies of responses
    for bi, b in enumerate(c.p.bodies):
        if b is None or not b.get("local"):
            continue
        for cc, sp in c.cg.edges(bi)[0]:
            x = c.p.callees[cc]
            if x["short"] in FILTER:
                c.count("call sites of filters")
                pipe.req("C07", b["path"] in paths or wraps(c, b), "elsewhere", {"path": b["path"], "span": b["span"]}, "a filter is called outside of the operations that were looked at", [c.p.where(sp) if sp else "-"])
    c.floor("operations", 8)
    c.floor("call sites of filters", 5)
    c.floor("paths", 1000) if c.prop == "C07" else c.floor("paths with an abort", 300)
    c.explanation = ("every path through each of the listed operations, loops turned as often as the stack needs, for stacks of " +
                     ", ".join("%d filters (at most %d of their answers something else than data)" % x for x in stacks(c)))
    return pipe


def wraps(c, b):
    """an implementation of ResponseFilter that hands on to another filter"""
    return any(f["body"] is not None and c.p.bodies[f["body"]] is b and "trait" in f and f["trait"].split("::")[-1].split("<")[0] == "ResponseFilter" for f in c.p.fns)


@prop("C07")
def c07(c):
    c.rule("begin and end are called once for each filter, in the order of the stack, until one of them answers with an abort; begin gets the status that the filter before left, and the last status is sent; all of them get the filter storage of the response and the global data")
    c.rule("no content is passed on and nothing is written before the last begin; no filter is given data before its begin or after its end")
    c.rule("every answer with data of filter k is given to write of filter k+1, or to the connection if k is the last, exactly once and unchanged, in the order in which the pieces were made; content goes to the first filter")
    c.rule("an answer without data is passed on as well; after a silent abort the piece is gone, and the operation goes on and succeeds")
    c.rule("Response::send, Response::send_data and Chunked::send hand the response and the content over to an operation that sends it, once")
    explore(c, lambda pipe, eng, f, e, n, begins, content, ends: pipe.pipeline(eng, f, e, n, begins, content, ends))
    forwards(c, ("Response", "Chunked"))
    c.floor("contents handed over", 3)
    c.floor("paths on which everything works", 200)
    c.floor("paths with a silent abort", 50)


@prop("C08")
def c08(c):
    c.rule("on every path on which a filter answers with an abort, the operation returns (or keeps in the writer it returns) a filter error with the message of an abort of this path, or an error of the connection if that failed too; completing by drop is the only operation that cannot report it")
    c.rule("data that a filter answered with an abort is never written")
    c.rule("an operation on a chunked response that holds a filter error returns it")
    c.rule("every fallible operation that uses one of these operations returns the filter error it got from them")
    pipe = explore(c, lambda pipe, eng, f, e, n, begins, content, ends: pipe.aborts(eng, f, e, n))
    if pipe is None:
        return
    # errors that are kept
    for f, ty, byref, begins, content, ends in list(ops(c)) + [(c.fn("Chunked", "flush", "Write"), "Chunked", True, False, False, False)]:
        if f is None or ty != "Chunked" or f["name"] == "drop":
            continue
        m = T("msg", "kept")
        held = base_models.some(err(T("agg", pipe.error, pipe.ferr, (m,))))
        eng, ex = pipe.run(f, ty, byref, 1, 9, writer=held, content=T("param", 2))
        for e in ex:
            c.count("kept errors")
            det = [str(x) for x in pipe.events(eng, e)] + facts_text(e.facts)
            if not pipe.req("C08", e.kind == "return" and eng.known(View(e), eng.discr(e.ret)) == 1, "kept", f, "a chunked response holds a filter error, and the operation reports %s" % short(e.ret), det):
                continue
            pipe.req("C08", pipe.carries(eng, e, eng.sel(e.ret, ("f", 1, 0)), {m}), "kept-message", f, "a chunked response holds a filter error, and the operation reports another one: %s" % short(e.ret), det)
    c.floor("kept errors", 5)
    forwarded(c, pipe)


def forwarded(c, pipe):
    """operations that use those of the pipeline"""
    p = c.p
    core = {f["path"] for f, *_ in ops(c) if f is not None and f["name"] not in ("drop", "write", "write_all")}
    M2 = Mon(msg=UNIT)

    def is_core(cc):
        b = cc.get("body")
        if cc["short"].endswith("SendResponse::send_response"):
            return cc.get("kind") in ("param", "virtual")
        return b is not None and p.bodies[b] is not None and p.bodies[b].get("local") and p.bodies[b]["path"] in core

    def split(eng, st, call, res):
        if errtype(c, call.dty) is None:
            return None
        if is_core(call.c):
            m = T("msg", res)
            x = T("agg", pipe.error, pipe.ferr, (m,)) if p.last(p.tstr(errtype(c, call.dty))) == "Error" else T("filtered", m)
            return [(ok(fld(res, 0, 0)), st.mon), (err(x), M2.with_(st.mon, msg=m))]
        if is_io(c, call.c, call.dty):
            return [(ok(fld(res, 0, 0)), st.mon), (err(fld(res, 1, 0)), st.mon)]
        return None
    for f in p.fns:
        if f["body"] is None or p.bodies[f["body"]] is None or errtype(c, f["out"]) is None or not (f["pub"] or "trait" in f) or f["path"] in core or f["name"] == "handle_request":
            continue
        if not c.cg.reaches(f["body"], "pipeline", is_core):
            continue
        eng = c.engine(split=split, opaque=c.opaque_unless("pipeline", is_core, also=lambda cc: is_core(cc) or contract(c, cc) or ignoring(c, cc)))
        facts = pipe.w.fresh_facts(c, f)
        for e in c.run(eng, f, facts=facts, mon=M2.start()) or ():
            if e.kind != "return" or M2.get(e.st, "msg") is UNIT:
                continue
            m = M2.get(e.st, "msg")
            c.count("paths with a forwarded error")
            det = trace_text(e.trace) + facts_text(e.facts)
            if not pipe.req("C08", eng.known(View(e), eng.discr(e.ret)) == 1, "forward", f, "a filter error of an operation that is used here is not returned: %s" % short(e.ret), det):
                continue
            x = eng.deepval(e.st, e.ret)
            pipe.req("C08", pipe.carries(eng, e, x, {m}) or any(y is T("filtered", m) for y in walk(x)), "forward-message", f, "the filter error of an operation that is used here is replaced: %s" % short(e.ret), det)
    c.floor("paths with a forwarded error", 8)
