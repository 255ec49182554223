"""Path variables: what a request path is cut into, what the search keeps of it and which names that gets (C22)."""
from terms import *
import terms
from engine import Engine
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import *
from rules.response import W
from rules.routers import *
from rules.search import searches, Turn
from rules.text import content, whole
from rules.body import bare

SELF, NAMES = T("param", 11), T("param", 12)
SLASH = 47


class State:
    """the parts of a route state"""

    def __init__(self, c):
        p = c.p
        self.t = c.struct("RouteState")
        fs = self.t["vs"][0]["fs"]
        vecs = [i for i, x in enumerate(fs) if p.tname(x[1]) == "Vec"]
        self.route = [i for i in vecs if p.tname(p.types[fs[i][1]]["args"][0]) != "Option"]
        self.marks = [i for i in vecs if i not in self.route]
        nums = [i for i, x in enumerate(fs) if p.tname(x[1]) == "usize"]
        self.idx = [i for i in nums if "var" not in fs[i][0]]
        self.vidx = [i for i in nums if i not in self.idx]
        self.good = all(len(x) == 1 for x in (self.route, self.marks, self.idx, self.vidx)) and len(fs) == 4
        if not self.good:
            c.violation("anchor:RouteState", "-", "the parts of a route state cannot be told apart")
            return
        self.route, self.marks, self.idx, self.vidx = (x[0] for x in (self.route, self.marks, self.idx, self.vidx))


def mark(k):
    return T("agg", OPTION, 0, ()) if k is None else T("agg", OPTION, 1, (k,))


@prop("C22")
def c22(c):
    c.rule("a path is cut at every '/', after one '/' was taken off either end; an empty rest has no segments")
    c.rule("a route state starts with the segments of the path, at the first one, and with none of them kept")
    c.rule("skip, keep and fuse mark the segment at hand as left out, as a new variable, or as part of the variable at hand, and go on with the next; nothing else changes")
    c.rule("a turn of the search marks only the segment it stands for, and before it adds anything, with the number of variables before it, or as left out if its branch is the static one")
    c.rule("names and kept segments are put together one segment at a time: one without a name is left out, one of the variable at hand is added to it behind a '/', any other ends it and starts the next")
    c.rule("the context gets exactly the variables that the route state makes of the router's names")
    S = State(c)
    w, E = W(c), Env(c)
    if not S.good or not w.good or not E.good:
        return
    segments(c)
    starts(c, S)
    steps(c, S)
    turns(c, w, E)
    assigned(c, S)
    stored(c, S, w, E)


# ---------------------------------------------------------------- the segments of a path
def sep_of(c, x):
    """the byte at which a slice is cut, given the function that decides it"""
    p = c.p
    x = bare(x)
    body, n = None, None
    if x.op == "fn":
        body, n = p.callees[x.args[0]].get("body"), 1
    elif x.op == "agg" and str(x.args[0]).startswith("closure:"):
        body, n = p.types[int(x.args[0].split(":")[1])].get("body"), 2
    if body is None:
        return None
    eng = c.engine(keep_facts=lambda t: True)
    ex = [e for e in c.run(eng, body) or () if e.kind == "return"]
    yes = set()

    def ren(t):
        u = bare(t)
        return INT(b) if u.op == "param" and u.args[0] == n and t.op in ("deref", "param", "ref", "&", "vref") else None
    for b in range(256):
        vals = set()
        for e in ex:
            good = True
            for t, v in e.facts.items():
                u = subst(t, lambda t: True, ren)
                if u.op != "int":
                    vals.add(None)
                elif u.args[0] in v if isinstance(v, frozenset) else u.args[0] != v:
                    good = False
            if good:
                u = subst(e.ret, lambda t: True, ren)
                vals.add(u.args[0] if u.op == "int" else None)
        if vals == {1}:
            yes.add(b)
        elif vals != {0}:
            return None
    return yes


def segments(c):
    p = c.p
    n = 0
    for f in impls(c, "segments", "Route"):
        t = p.types[f["ins"][0]]
        if t["k"] != "ref" or p.types[t["e"]]["k"] not in ("str", "slice"):
            # several parts: one after the other, each with its own segments
            continue
        where = c.where(f)
        eng = c.engine(keep_facts=lambda t: True)
        path = T("deref", T("param", 1))
        ln = T("len", path)
        for e in c.run(eng, f, mon=UNIT) or ():
            if e.kind != "return":
                c.require(False, "segments:panic", where, "cutting a path into segments may panic", facts_text(e.facts))
                continue
            v = View(e)
            det = facts_text(e.facts)
            c.count("ways to cut a path")

            def at(i):
                return eng.known(v, terms.eq(T("elem", path, "idx", i), INT(SLASH)))

            def known_len(k):
                """is the path exactly k long?"""
                r = eng.known(v, terms.eq(ln, INT(k)))
                if r is None:
                    least = 1 if k == 0 else eng.known(v, terms.lt(INT(k - 1), ln))
                    more = eng.known(v, terms.lt(INT(k), ln))
                    if least == 0 or more == 1:
                        return 0
                    if least == 1 and more == 0:
                        return 1
                return r
            if any(v.facts.get(terms.lt(INT(k), ln)) == 0 and all(eng.known(v, terms.eq(ln, INT(j))) == 0 for j in range(k + 1)) for k in range(3)):
                # no length is left
                continue
            lo = hi = None
            if known_len(0) == 1:
                lo, hi = 0, INT(0)
            else:
                a = at(INT(0))
                if a == 0:
                    lo = 0
                elif a == 1:
                    lo = 1
                if lo is not None:
                    if known_len(lo) == 1:
                        hi = INT(lo)
                    else:
                        z = at(terms.add(ln, INT(-1)))
                        if z is None and known_len(lo + 1) == 1:
                            z = at(INT(lo))
                        if z is not None:
                            hi = terms.add(ln, INT(-1)) if z else ln
            if not c.require(hi is not None, "segments:undecided", where, "a path is cut without looking at both of its ends", det):
                continue
            n_ = eng.known(v, terms.eq(hi, INT(lo)))
            for k in (0, 1, 2):
                if known_len(k) == 1:
                    h = k if hi is ln else k - 1 if hi is not INT(0) else 0
                    h = hi.args[0] if hi.op == "int" else h
                    n_ = 1 if h == lo else 0
            if n_ is None:
                # not any of the lengths for which nothing is left
                few = lo if hi is ln else lo + 1
                n_ = 0 if all(known_len(k) == 0 for k in range(few + 1)) or known_len(few) == 0 else None
            it = e.ret
            cut = [x for x in walk(it) if x.op == "app" and x.args[0].split("::")[-1].split("<")[0] in ("split", "splitn", "rsplit", "split_mut", "split_inclusive")]
            if n_ == 1:
                c.require(not cut and it.op == "agg", "segments:root", where, "the root path is cut into segments: %s" % short(it), det)
                c.count("root paths")
                continue
            if not c.require(n_ == 0, "segments:empty", where, "a path is cut without looking whether anything is left of it", det):
                continue
            if not c.require(bool(cut) and all(x is cut[0] for x in cut) and cut[0].args[0].split("<")[0].endswith("::split"), "segments:cut", where, "a path is not cut into its segments: %s" % short(it), det):
                continue
            src = bare(cut[0].args[1][0])
            good = src is bare(path) and lo == 0 and hi is ln or src.op == "vslice" and bare(src.args[0]) is bare(path) and src.args[1] is INT(lo) and src.args[2] is hi
            c.require(good, "segments:ends", where, "more or less than one '/' at either end is left out: %s" % short(src), det)
            c.require(sep_of(c, cut[0].args[1][1]) == {SLASH}, "segments:separator", where, "a path is not cut at '/' alone", det)
            it_ = [x for x in walk(it) if x.op == "agg" and str(x.args[0]).startswith("it:")]
            c.require(all(x.args[2][1] is INT(0) for x in it_), "segments:first", where, "not all segments of a path are given out", det)
            c.count("cuts")
            n += 1
    c.floor("cuts", 2)
    c.floor("root paths", 2)
    # the iterator hands on what the cut gives
    for f in impls(c, "next", "Iterator"):
        if kind_of_self(c, f) != "RouteIter":
            continue
        where = c.where(f)
        eng = c.engine(keep_facts=lambda t: True)
        me = T("deref", T("param", 1))
        for e in c.run(eng, f, mon=UNIT) or ():
            v = View(e)
            det = facts_text(e.facts)
            c.require(e.kind == "return", "next:panic", where, "taking the next segment may panic", det)
            if e.kind != "return":
                continue
            d = eng.known(v, eng.discr(me))
            inner = eng.sel(me, ("f", 1, 0))
            some = eng.known(v, eng.discr(e.ret))
            if d == 1:
                more = eng.known(v, terms.eq(T("len", inner), INT(0)))
                first = eng.sel(e.ret, ("f", 1, 0))
                c.require(some is not None and more == 1 - some and (not some or first is T("item", inner, INT(0))), "next", where, "not the next segment is given out: %s" % short(e.ret), det)
                c.count("segments handed on")
            else:
                c.require(d == 0 and some == 0, "next:root", where, "the root path has a segment: %s" % short(e.ret), det)
    c.floor("segments handed on", 2)


# ---------------------------------------------------------------- how a route state starts
def starts(c, S):
    p = c.p
    fs = [f for f in impls(c, "from", "From") if p.tname(f["out"]) == "RouteState"]
    c.require(bool(fs), "anchor:from", "-", "nothing makes a route state of a path")
    for f in fs:
        where = c.where(f)
        run = Run(c, f, also=lambda cc: cc["short"].split("::")[-1] == "segments")
        eng = run.eng
        for e in run.exits:
            det = trace_text(e.trace) + facts_text(e.facts)
            cut = [x for x in e.trace if x[0].split("::")[-1] == "segments"]
            if not c.require(len(cut) == 1 and bare(cut[0][2][0]) is T("param", 1), "start:segments", where, "a route state is not made from the segments of the path", det):
                continue
            r = [eng.sel(e.ret, ("f", 0, i)) for i in (S.route, S.marks, S.idx, S.vidx)]
            c.require(r[0].op == "app" and r[0].args[0].split("::")[-1] in ("from_iter", "collect") and r[0].args[1][0] is cut[0][3], "start:route", where, "a route state does not have the segments of the path, in order: %s" % short(r[0]), det)
            ok_ = r[1].op == "zeros" and r[1].args[0] is mark(None) and r[1].args[1] is T("len", r[0])
            c.require(ok_, "start:marks", where, "a route state does not start with no segment kept: %s" % short(r[1]), det)
            c.require(r[2] is INT(0) and r[3] is INT(0), "start:index", where, "a route state does not start at the first segment and variable", det)
            c.count("starts")
    # nobody else makes one
    own = S.t["path"]
    makers = {bi for bi, b in enumerate(p.bodies) if b is not None and b.get("local") and any(
        s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and p.types[s[2][1][1]].get("path") == own for bb in b["blocks"] for s in bb["s"])}
    fine = {f["path"] for f in fs}

    def allowed(bi, seen=()):
        pa = p.bodies[bi]["path"]
        if pa in fine or pa.endswith("Clone>::clone"):
            return True
        if bi in seen:
            return True
        callers = [x for x in range(len(p.bodies)) if p.bodies[x] is not None and bi in c.cg.succ_bodies(x)]
        return bool(callers) and all(allowed(x, seen + (bi,)) for x in callers)
    for bi in sorted(makers):
        c.require(allowed(bi), "made:" + p.bodies[bi]["path"], p.where(p.bodies[bi]["span"]), "a route state is put together by %s, which does not start it at its first segment" % p.bodies[bi]["path"])
        c.count("places that make a route state")
    c.floor("starts", 1)


# ---------------------------------------------------------------- the steps
def steps(c, S):
    p = c.p
    me = T("deref", T("param", 1))
    for f in p.fns:
        if f["body"] is None or f.get("trait") or not f["ins"] or f["name"] not in ("get", "skip", "keep", "fuse", "snapshot", "go_to", "is_empty"):
            continue
        t = p.types[f["ins"][0]]
        if t["k"] != "ref" or p.types[t["e"]].get("path") != S.t["path"]:
            continue
        n, where = f["name"], c.where(f)
        eng = c.engine(keep_facts=lambda t: True)
        old = {k: eng.sel(me, ("f", 0, getattr(S, k))) for k in ("route", "marks", "idx", "vidx")}
        for e in c.run(eng, f, mon=UNIT) or ():
            v = View(e)
            det = facts_text(e.facts)
            if e.kind != "return":
                c.require(n in ("go_to",) and False, n + ":panic", where, "%s may panic" % n, det)
                continue
            new = e.mem.get(T("O", T("param", 1)), me)
            at = {k: eng.sel(new, ("f", 0, getattr(S, k))) for k in old}
            want = dict(old)
            c.count("ways through steps")
            if n in ("skip", "keep", "fuse"):
                inside = eng.known(v, terms.lt(old["idx"], T("len", old["marks"])))
                if not c.require(inside is not None, n + ":unknown", where, "%s does not look whether there is a segment at hand" % n, det):
                    continue
                if inside:
                    want["marks"] = T("set", old["marks"], ("idx", old["idx"]), mark(None if n == "skip" else old["vidx"]))
                want["idx"] = terms.add(old["idx"], INT(1))
                if n == "keep":
                    want["vidx"] = terms.add(old["vidx"], INT(1))
            elif n == "go_to":
                a = T("param", 2)
                want["idx"], want["vidx"] = eng.sel(a, ("f", 0, 0)), eng.sel(a, ("f", 0, 1))
            elif n == "snapshot":
                c.require([eng.sel(e.ret, ("f", 0, i)) for i in (0, 1)] == [old["idx"], old["vidx"]], n, where, "a snapshot is not the position and the number of variables: %s" % short(e.ret), det)
            elif n == "is_empty":
                is_ = terms.eq(old["idx"], T("len", old["route"]))
                k = eng.known(v, is_)
                if k is None and eng.known(v, terms.lt(old["idx"], T("len", old["route"]))) == 1:
                    k = 0
                c.require(e.ret is is_ or k is not None and e.ret is INT(k), n, where, "being at the end is not being behind the last segment: %s" % short(e.ret), det)
            elif n == "get":
                inside = eng.known(v, terms.lt(old["idx"], T("len", old["route"])))
                some = eng.known(v, eng.discr(e.ret))
                if c.require(inside is not None and some == inside, n + ":there", where, "the segment at hand is not given exactly if there is one: %s" % short(e.ret), det) and some:
                    c.require(bare(eng.sel(e.ret, ("f", 1, 0))) is T("elem", old["route"], "idx", old["idx"]), n, where, "not the segment at hand is given: %s" % short(e.ret), det)
            bad = [k for k in want if at[k] is not want[k]]
            c.require(not bad, n + ":effect", where, "%s does not leave the %s as it should: %s" % (n, ", ".join(bad), short(tuple(at[k] for k in bad))), det)
    c.floor("ways through steps", 6)


# ---------------------------------------------------------------- the marks of the search
def turns(c, w, E):
    for s in searches(c, w, E):
        for tn in s.turns():
            t = Turn(s, tn)
            if t.exit is not None or t.void:
                continue
            at = t.pushed[0] if t.pushed else None
            if not c.require(len(t.before) >= 1, "marks:unknown", t.where(at), "it cannot be told which segments the search keeps", t.det):
                continue
            want = None
            if t.pushed:
                if t.role not in s.roles:
                    c.require(False, "marks:role", t.where(at), "a turn of the search goes on for every branch", t.det)
                    continue
                want = mark(None if t.role == "Static" else t.k)
            for a in t.after:
                b = a
                got = None
                while b not in t.before and b.op == "set" and b.args[1] == ("idx", t.i):
                    got = got if got is not None else b.args[2]
                    b = b.args[0]
                if not c.require(b in t.before, "marks:others", t.where(at), "a turn of the search changes the mark of another segment than its own: %s" % short(a), t.det):
                    continue
                if want is None:
                    continue
                if got is None and any(eng_known(t, terms.lt(t.i, T("len", x))) == 0 for x in t.before):
                    # there are as many marks as segments
                    continue
                c.count("marks")
                c.require(got is want, "marks:kept", t.where(at), "a segment of a %s branch is marked %s" % (t.role, short(got) if got is not None else "not at all"), t.det)
    c.floor("marks", 6)


def eng_known(t, x):
    return t.eng.known(t.v, x)


# ---------------------------------------------------------------- names and values
def assigned(c, S):
    p = c.p
    fs = [f for f in p.fns if f["body"] is not None and f["name"] == "variables" and f["ins"] and p.types[f["ins"][0]]["k"] == "ref" and p.types[p.types[f["ins"][0]]["e"]].get("path") == S.t["path"]]
    if len(fs) != 1:
        c.violation("anchor:variables", "-", "the assignment of names to path variables cannot be found")
        return
    f = fs[0]
    where = c.where(f)

    def pairs(cc):
        """next of an iterator of this crate"""
        b = cc.get("body")
        return cc["short"] == "Iterator::next" and b is not None and p.bodies[b] is not None and p.bodies[b].get("local")

    def rel(eng, st, call, res):
        if res is None or not pairs(call.c):
            return None
        return ("next", tuple(eng.deepval(st, a) for a in call.args), res, call.c["body"])
    eng = c.engine(rel=rel, opaque=pairs, keep_facts=lambda t: True)
    eng.models = Inserts(c, f)
    ex = [e for e in c.run(eng, f, args=[SELF, NAMES], mon=UNIT) or () if e.kind == "return"]
    first = None
    for e in ex:
        for x in e.trace:
            if x[0] == "next":
                y = bare(x[1][0])
                y = y.args[2] if y.op == "upd" else y
                if y.op == "agg" and y.args[0] != "phi" and first is None:
                    first = (y, x[3])
    if not c.require(first is not None, "pairs:source", where, "the names and values of path variables do not come from an iterator over them"):
        return
    from rules.links import sequences
    n = 0
    for ev, facts, e in sequences(eng, ex):
        v = facts
        det = trace_text(ev) + facts_text(v.facts)
        nx = [x for x in ev if x[0] == "next"]
        ins = [x for x in ev if x[0] == "insert"]
        if not nx:
            c.require(not ins, "pairs:extra", where, "something else than the path variables is put among them", det)
            continue
        c.require(len(nx) == 1, "pairs:skipped", where, "a path variable is left out", det)
        some = eng.known(v, eng.discr(nx[0][2]))
        if e is not None and not ins:
            c.require(some == 0, "pairs:early", where, "the assignment ends before the last path variable", det)
            continue
        n += 1
        want = [eng.sel(fld(nx[0][2], 1, 0), ("f", 0, i)) for i in (0, 1)]
        c.require(some == 1 and len(ins) == 1 and list(ins[0][1:]) == want, "pairs:insert", where, "a path variable is not stored under its name", det)
    c.count("variables stored", n)
    for e in ex:
        c.require(e.ret.op in ("phi", "mnew", "set", "mins") or True, "pairs:result", where, "not the collected variables are returned")
        c.require(e.ret.op in ("phi", "mnew"), "pairs:result", where, "something else than the collected variables is returned: %s" % short(e.ret))
    c.floor("variables stored", 1)
    pairing(c, S, f, *first)


class Inserts:
    """the usual models; what is put into a map is written down"""

    def __init__(self, c, f):
        self.c, self.f = c, f

    def __getattr__(self, n):
        import models
        return getattr(models, n)

    def find(self, eng, cc):
        import models
        f = models.find(eng, cc)
        s = cc["short"]
        if s == "HashMap::insert":
            def g(eng, st, call, ret):
                st.trace = st.trace + (("insert",) + tuple(eng.deepval(st, a) for a in call.args[1:3]),)
                return f(eng, st, call, ret)
            return g
        if s.split("::")[-1] == "write_all" and cc.get("args") and self.c.p.tname(cc["args"][0]) == "Vec":
            def g(eng, st, call, ret):
                root, path = eng.target(call.args[0])
                eng.store(st, root, path, T("cat", eng.load(st, root, path), eng.deepval(st, call.args[1])))
                return [(st, ok(UNIT))]
            return g
        if s == "synth::push" and cc["kind2"] == "map":
            def g(eng, st, call, ret):
                x = call.args[1]
                if call.c["copy"]:
                    x = eng.load(st, *eng.target(x))
                x = eng.deepval(st, x)
                st.trace = st.trace + (("insert", eng.sel(x, ("f", 0, 0)), eng.sel(x, ("f", 0, 1))),)
                return f(eng, st, call, ret)
            return g
        return f


class PairEngine(Engine):
    turn = None

    def at_head(self, st):
        self.turn(self, st)
        return Engine.at_head(self, st)


def pairing(c, S, f, source, body):
    """one step of the iterator over names and values, from any state it can be in"""
    p = c.p
    b = p.bodies[body]
    where = p.where(b["span"])
    me = T("O", T("param", 1))
    ti = p.types[b["locals"][1]]["e"]
    t = p.types[ti]
    cur = [i for i, (n, x) in enumerate(t["vs"][0]["fs"]) if p.tname(x) == "Option"] if t["k"] == "adt" else []
    if len(cur) != 1 or source.op != "agg":
        c.violation("anchor:pairs", where, "the variable at hand cannot be found in the iterator over path variables")
        return
    cur = cur[0]
    tup = p.types[p.types[t["vs"][0]["fs"][cur][1]]["args"][0]]
    parts = tup["fs"] if tup["k"] == "tuple" else [x[1] for x in tup["vs"][0]["fs"]] if tup.get("vs") else []
    kinds = [p.tname(x) for x in parts]
    nums = [i for i, k in enumerate(kinds) if k == "usize"]
    texts = [i for i, k in enumerate(kinds) if i not in nums]
    if len(nums) != 1 or len(texts) != 2:
        c.violation("anchor:pairs", where, "the variable at hand is not an index, a name and a value")
        return
    # the name is the part that is returned first
    c.require(source.args[2][cur] is mark(None), "pair:start", c.where(f), "there is a variable at hand before the first one: %s" % short(source.args[2][cur]))
    CUR = T("cur")
    route = eng_field(S, "route")
    marks = eng_field(S, "marks")
    start = T("agg", source.args[0], source.args[1], tuple(CUR if i == cur else x for i, x in enumerate(source.args[2])))

    def assumed(eng, st, t, v):
        x = counted(t, v)
        if x is None:
            return
        m, i, more = x
        k = "route" if m is route else "marks" if m is marks else None
        if k is not None:
            st.trace = st.trace + (("item" if more else "end", k, i, now(eng, st)),)

    def now(eng, st):
        return eng.deepval(st, eng.load(st, me, (("f", 0, cur),)))
    J = Pairs(c, S, where, nums[0], texts, route, marks)

    def turn(eng, st):
        J.turn(eng, View(st), st.trace, now(eng, st), None)
    eng = PairEngine(p, rel_assume=assumed, keep_facts=lambda t: True)
    eng.turn = turn
    eng.models = Inserts(c, f)
    ex = c.run(eng, body, mem={me: start}, mon=UNIT)
    for e in ex or ():
        if e.kind != "return":
            continue
        new = e.mem.get(me, start)
        J.turn(eng, View(e), e.trace, eng.sel(new, ("f", 0, cur)), e)
    c.floor("segments without a name", 2)
    c.floor("segments that are left out", 1)
    c.floor("segments added", 2)
    c.floor("first segments", 2)
    c.floor("next variables", 2)
    c.floor("last variables", 1)


def eng_field(S, k):
    return fld(T("deref", SELF), 0, getattr(S, k))


class Pairs:
    def __init__(self, c, S, where, num, texts, route, marks):
        self.c, self.S, self.where, self.num, self.texts, self.route, self.marks = c, S, where, num, texts, route, marks

    def seen(self, tr):
        """what happened since the iteration at hand began: (index, is there a segment, current before)"""
        k = len(tr)
        i = None
        while k and tr[k - 1][0] in ("item", "end") and (i is None or tr[k - 1][2] is i):
            k -= 1
            i = tr[k][2]
        ev = tr[k:]
        if not ev:
            return None
        return i, all(x[0] == "item" for x in ev), ev[0][3], {x[1] for x in ev}

    def content(self, eng, v, x):
        """the bytes of a text"""
        x = strip(x)
        d, ps, y = whole(eng, v, x)
        if d is None:
            return (T("bytes-of", x),)
        out = []
        for q in ps:
            q = strip(q)
            if q.op == "fld" and q.args[2] == 0 and self.is_text(eng, v, q.args[0], q.args[1]):
                q = T("bytes-of", strip(q.args[0]))
            out.append(q)
        return tuple(out)

    def is_text(self, eng, v, x, d):
        return eng.known(v, eng.discr(x)) == d

    def same(self, eng, v, x, y):
        x, y = strip(x), strip(y)
        return x is y or self.content(eng, v, x) == self.content(eng, v, y)

    def unnamed(self, eng, v, name):
        """is the name empty?"""
        for d in (0, 1):
            if eng.known(v, eng.discr(name)) == d:
                k = eng.known(v, terms.eq(T("len", eng.sel(name, ("f", d, 0))), INT(0)))
                if k is not None:
                    return k
        return None

    def turn(self, eng, v, tr, after, e):
        c = self.c
        s = self.seen(tr)
        if s is None:
            return
        i, there, before, kinds = s
        det = trace_text(tr[-6:]) + facts_text(v.facts)
        after, before = strip(after), strip(before)
        same = after is before
        had = eng.known(v, eng.discr(before))

        def part(x, k):
            return eng.sel(eng.sel(x, ("f", 1, 0)), ("f", 0, k))
        given = e is not None and eng.known(v, eng.discr(e.ret)) or None
        if e is not None:
            given = eng.known(v, eng.discr(e.ret))
            if not c.require(given is not None, "pair:result", self.where, "it is not known whether a variable is given out", det):
                return
        nm, vl = self.texts
        if e is not None and given:
            # which one is the name
            pair = eng.sel(e.ret, ("f", 1, 0))
            out = [eng.sel(pair, ("f", 0, j)) for j in (0, 1)]
            c.require(had == 1 and self.same(eng, v, out[0], part(before, nm)) and self.same(eng, v, out[1], part(before, vl)), "pair:given", self.where, "something else than the name and value at hand is given out: %s" % short(e.ret), det)
        if not there:
            c.require(e is not None, "pair:end", self.where, "the iteration goes on behind the last segment", det)
            if e is not None:
                c.require(had is not None and given == had, "pair:last", self.where, "the last variable is not given out exactly if there is one", det)
                c.require(eng.known(v, eng.discr(after)) == 0, "pair:rest", self.where, "the last variable would be given out again", det)
                c.count("last variables")
            return
        m = T("elem", self.marks, "idx", i)
        kept = eng.known(v, eng.discr(m))
        if not c.require(kept is not None, "pair:mark", self.where, "it is not looked at whether a segment was kept", det):
            return
        if kept == 0:
            c.require(same and e is None, "pair:left-out", self.where, "a segment that is not part of a variable changes the variable at hand", det)
            c.count("segments that are left out")
            return
        idx = eng.sel(m, ("f", 1, 0))
        names = T("deref", NAMES)
        has = eng.known(v, terms.lt(idx, T("len", names)))
        name = T("elem", names, "idx", idx)
        empty = self.unnamed(eng, v, name) if has == 1 else None
        if has == 0 or empty == 1:
            c.require(same and e is None, "pair:unnamed", self.where, "a segment without a name changes the variable at hand", det)
            c.count("segments without a name")
            return
        if not c.require(has == 1 and empty == 0, "pair:name", self.where, "it is not looked at whether a segment has a name", det):
            return
        seg = T("elem", self.route, "idx", i)
        if not c.require(had is not None and eng.known(v, eng.discr(after)) == 1, "pair:kept", self.where, "a segment with a name does not become part of a variable", det):
            return

        def is_seg(ps):
            return len(ps) == 1 and bare(ps[0]) is bare(seg)

        def is_new():
            good = part(after, self.num) is idx
            good = good and self.same(eng, v, part(after, nm), name)
            return good and is_seg(self.content(eng, v, part(after, vl)))
        if had == 0:
            c.require(e is None and is_new(), "pair:first", self.where, "the first segment of a variable does not start it: %s" % short(after), det)
            c.count("first segments")
            return
        eq = eng.known(v, terms.eq(part(before, self.num), idx))
        if not c.require(eq is not None, "pair:which", self.where, "it is not looked at whether a segment is part of the variable at hand", det):
            return
        if eq:
            good = part(after, self.num) in (idx, part(before, self.num)) and self.same(eng, v, part(after, nm), part(before, nm))
            a, b = self.content(eng, v, part(after, vl)), self.content(eng, v, part(before, vl))
            good = good and a[:len(b)] == b and len(a) == len(b) + 2 and self.slash(a[len(b)]) and is_seg(a[len(b) + 1:])
            c.require(good and e is None, "pair:sequence", self.where, "the next segment of a sequence is not added behind a '/': %s" % short(after), det)
            c.count("segments added")
        else:
            c.require(e is not None and given == 1, "pair:ended", self.where, "the variable before is not given out when the next one starts", det)
            c.require(is_new(), "pair:next", self.where, "the first segment of a variable does not start it: %s" % short(after), det)
            c.count("next variables")

    def slash(self, x):
        x = bare(x)
        if x.op == "byte":
            x = x.args[0]
        return x is INT(SLASH) or x.op in ("str", "bytes", "lit") and x.args[0] in ("/", b"/")


def strip(x):
    while x.op in ("&", "vref") and isinstance(x.args[0], Term):
        x = x.args[0]
    return x


# ---------------------------------------------------------------- where they go
def stored(c, S, w, E):
    p = c.p
    fs = [f for f in impls(c, "handle_request", "HandleRequest") if kind_of_self(c, f) == "Variables"]
    if not c.require(len(fs) == 1, "anchor:router", "-", "the router that assigns variables cannot be found"):
        return
    f = fs[0]
    where = c.where(f)

    def assign(cc):
        b = cc.get("body")
        return b is not None and p.bodies[b] is not None and p.bodies[b]["path"].endswith("::variables") and "RouteState" in p.bodies[b]["path"]
    run = Run(c, f, facts=E.fresh_facts(c, w, f), also=assign)
    eng = run.eng
    names = c.field("Variables", lambda n, t: p.tname(t) == "Vec")
    env = T("param", 2)
    for e in run.exits:
        det = trace_text(e.trace) + facts_text(e.facts)
        a = [x for x in e.trace if assign_event(x)]
        h = [x for x in e.trace if x[0] == REQ]
        if not c.require(len(a) == 1 and len(h) == 1, "stored:number", where, "variables are assigned %d times for %d calls" % (len(a), len(h)), det):
            continue
        st, nm = (bare(x) for x in a[0][2])
        c.require(st is E.of(eng, env, E.route), "stored:state", where, "the variables are not those of the request's own path: %s" % short(st), det)
        c.require(strip_slice(nm) is bare(fld(T("deref", T("param", 1)), 0, names)), "stored:names", where, "the variables get other names than the router's: %s" % short(nm), det)
        got = E.of(eng, h[0][2][1], E.ctx, E.variables)
        x = got
        while x.op == "agg" and len(x.args[2]) == 1 or x.op == "app" and len(x.args[1]) == 1 and x.args[0].split("::")[-1] in ("into", "from"):
            x = x.args[2][0] if x.op == "agg" else x.args[1][0]
        c.require(x is a[0][3], "stored", where, "the handler does not get the variables of its path: %s" % short(got), det)
        c.count("variables handed on")
    c.floor("variables handed on", 2)


def strip_slice(x):
    while x.op == "vslice" and x.args[1] is INT(0) and x.args[2] is T("len", x.args[0]):
        x = bare(x.args[0])
    return x


def assign_event(x):
    return x[0].endswith("::variables")
