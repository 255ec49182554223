"""No request makes the library panic (C35)."""
import os
import re
from terms import *
import terms
import models as base_models
from ctx import short, facts_text
from engine import Incomplete
from prog import Program, strip_generics
from rules import prop
from rules.common import *
from rules.body import bare

# where the types that exist only while a request is answered are declared
REQUEST_TYPES = re.compile(r"^(context|response|filter|file)::|^handler::(Environment$|routing::)")
REQUEST_TRAITS = re.compile(r"^(context|response|filter|file)::|^handler::(HandleRequest$|routing::)|^hyper::server::Handler$")

# functions of the standard library that panic for some arguments, and what is asked of the arguments:
# a function from (length of the first argument, other arguments) to what must hold, or None if nothing is good enough
DENY = {
    "Vec::remove": lambda n, a: lt(a[0], n),
    "Vec::swap_remove": lambda n, a: lt(a[0], n),
    "Vec::insert": lambda n, a: neg(lt(n, a[0])),
    "Vec::split_off": lambda n, a: neg(lt(n, a[0])),
    "VecDeque::remove": None,
    "VecDeque::insert": None,
    "Vec::splice": None,
    "Vec::extend_from_within": None,
    "Vec::copy_within": None,
    "String::remove": None,
    "String::insert": None,
    "String::insert_str": None,
    "String::truncate": None,
    "String::split_off": None,
    "String::replace_range": None,
    "str::split_at_mut": None,
    "[T]::split_at_mut": None,
    "[T]::swap": None,
    "[T]::copy_from_slice": None,
    "[T]::clone_from_slice": None,
    "[T]::copy_within": None,
    "[T]::chunks": None,
    "[T]::chunks_mut": None,
    "[T]::chunks_exact": None,
    "[T]::windows": None,
    "[T]::rotate_left": None,
    "[T]::rotate_right": None,
    "[T]::select_nth_unstable": None,
    "Iterator::step_by": None,
    "RefCell::borrow": None,
    "RefCell::borrow_mut": None,
    "RefCell::replace": None,
    "RefCell::swap": None,
    "Duration::new": None,
    "Duration::from_secs_f64": None,
    "Duration::from_secs_f32": None,
    "process::exit": None,
    "process::abort": None,
    "panic::resume_unwind": None,
    "panic::panic_any": None,
    "char::from_digit": None,
    "char::to_digit": None,
    "HeaderMap::append": None,
    "thread::spawn": None,
    "JoinHandle::join": None,
}
SIZED = ("Vec::with_capacity", "Vec::reserve", "Vec::reserve_exact", "String::with_capacity", "String::reserve", "vec::from_elem", "Vec::resize", "str::repeat", "[T]::repeat", "HashMap::with_capacity")
ORDERED = ("Vec", "[T]", "[T;N]", "str", "String", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "char", "bool")


def peel(p, ti):
    while ti is not None and p.types[ti]["k"] == "ref":
        ti = p.types[ti]["e"]
    return ti


class Panics:
    """the usual models, and the standard functions that panic on their own"""

    def __init__(self, c):
        self.c = c

    def __getattr__(self, n):
        return getattr(base_models, n)

    def find(self, eng, cc):
        f = base_models.find(eng, cc)
        s = cc["short"]
        p = self.c.p
        local = cc.get("crate") == p.crate
        if local:
            return f
        if s in ("Write::write_all", "Write::write", "Write::flush"):
            def g(eng, st, call, ret):
                if p.tname(peel(p, call.atys[0])) == "Vec":
                    # writing to a vector does not fail
                    root, path = eng.target(call.args[0])
                    if len(call.args) > 1:
                        old = eng.load(st, root, path)
                        eng.store(st, root, path, T("cat", old, call.args[1]))
                        v = UNIT if s.endswith("all") else eng.length(eng.load(st, *eng.target(call.args[1])))
                    else:
                        v = UNIT
                    return [(st, T("agg", "core::result::Result", 0, (v,)))]
                return f(eng, st, call, ret) if f is not None else None
            return g
        if s == "PartialOrd::partial_cmp":
            def g(eng, st, call, ret):
                ti = peel(p, call.atys[0])
                if p.tname(ti) in ORDERED and all(p.tname(peel(p, x)) in ORDERED for x in inner(p, ti)):
                    a, b = (eng.deepval(st, eng.load(st, *eng.target(x))) for x in call.args[:2])
                    return [(st, T("agg", "core::option::Option", 1, (T("app", "cmp", (a, b)),)))]
                return f(eng, st, call, ret) if f is not None else None
            return g
        if s in DENY:
            need = DENY[s]

            def g(eng, st, call, ret):
                cond = None
                if need is not None:
                    n = eng.length(eng.load(st, *eng.target(call.args[0])))
                    cond = need(n, call.args[1:])
                if cond is None or eng.known(st, cond) != 1:
                    eng.note_panic(st, "std:" + s, tuple(call.args), call.span, cond, 1)
                return f(eng, st, call, ret) if f is not None else None
            return g
        if s in SIZED:
            def g(eng, st, call, ret):
                n = call.args[0] if s in ("Vec::with_capacity", "String::with_capacity", "HashMap::with_capacity") else call.args[1]
                if not modest(n):
                    eng.note_panic(st, "std:" + s, (n,), call.span)
                return f(eng, st, call, ret) if f is not None else None
            return g
        if s in ("Index::index", "IndexMut::index_mut"):
            def g(eng, st, call, ret):
                r = f(eng, st, call, ret) if f is not None else None
                if r is None:
                    eng.note_panic(st, "std:" + s, tuple(call.args), call.span)
                return r
            return g
        if cc["name"] in ("add", "sub", "mul", "div", "add_assign", "sub_assign", "duration_since") and re.search(r"\b(Duration|Instant|SystemTime)\b", cc["full"]):
            def g(eng, st, call, ret):
                eng.note_panic(st, "std:" + s, tuple(call.args), call.span)
                return f(eng, st, call, ret) if f is not None else None
            return g
        return f


def inner(p, ti):
    t = p.types[ti]
    if t["k"] == "adt":
        return t.get("args", [])[:1]
    if t["k"] in ("slice", "array"):
        return [t["e"]]
    return []


def atoms(t):
    """the terms a number is put together from"""
    return list(linear(t)[1])


def modest(t, depth=0):
    """a number that is a length, a position or a small constant, or put together from such"""
    k, d = linear(t)
    if abs(k) > 1 << 32 or any(abs(x) > 16 for x in d.values()):
        return False
    return all(length_like(x) for x in d)


def length_like(x):
    if x.op in ("len", "K"):
        return True
    y = x
    while y.op == "fld":
        y = y.args[0]
    y = bare(y)
    while y.op == "fld":
        y = y.args[0]
    if y.op == "app" and y.args[0].split("::")[-1] in ("find", "rfind", "position", "rposition", "len", "count", "len_utf8", "size_hint", "enumerate"):
        return True
    return False


# ---- inequalities
class Sums:
    """what the facts say about sums: a list of (const, {term: coeff}) that are not negative"""

    def __init__(self, facts):
        self.known = []
        for t, v in facts.items():
            if t.op == "lt":
                a, b = t.args
                if v == 1:
                    self.add(sub(sub(b, a), INT(1)))
                elif v == 0:
                    self.add(sub(a, b))
            elif t.op == "eq" and v == 1:
                a, b = t.args
                self.add(sub(a, b))
                self.add(sub(b, a))
            elif t.op in ("len", "sum") and isinstance(v, int):
                self.add(sub(t, INT(v)))
                self.add(sub(INT(v), t))
            elif isinstance(v, frozenset) and t.op in ("len", "sum"):
                k = 0
                while k in v:
                    k += 1
                # a length that is none of the first k numbers is at least k
                if t.op == "len" and k:
                    self.add(sub(t, INT(k)))
                if t.op == "sum" and k:
                    self.cond = getattr(self, "cond", []) + [(t, k)]

    def add(self, t):
        t = as_bytes(t)
        k, d = linear(t)
        if d and (k, d) not in self.known:
            self.known.append((k, d))

    def extra(self, d):
        """what holds of the terms of a sum by themselves"""
        for t in list(d):
            if t.op == "len":
                self.add(t)
            if t.op == "K":
                self.add(t)
            h = found(t)
            if h is not None:
                hay, least = h
                ln = INT(len(hay.args[0].encode() if hay.op == "str" else hay.args[0])) if hay.op in ("str", "bytes") else sub(hay.args[2], hay.args[1]) if hay.op == "vslice" else T("len", hay)
                self.add(t)
                self.add(sub(sub(ln, t), INT(least)))

    def proves(self, t, depth=5, seen=None):
        """is the sum never negative?"""
        k, d = linear(as_bytes(t))
        return self.search(k, d, depth, set())

    def search(self, k, d, depth, seen):
        d = {x: c for x, c in d.items() if c}
        if not d:
            return k >= 0
        self.extra(d)
        key = (k, frozenset(d.items()))
        if key in seen or depth == 0:
            return False
        seen.add(key)
        for kk, dd in list(self.known):
            # something known not to be negative may be taken away
            if not any((c > 0) == (d.get(x, 0) > 0) and d.get(x, 0) for x, c in dd.items()):
                continue
            n = dict(d)
            for x, c in dd.items():
                n[x] = n.get(x, 0) - c
            if self.search(k - kk, n, depth - 1, seen):
                return True
        return False


def found(t):
    """(what was searched, least length of a match) of a position that a search found"""
    y = t
    if y.op != "fld":
        return None
    base = y.args[0]
    if base.op != "app" or base.args[0].split("::")[-1] not in ("find", "rfind", "position", "rposition"):
        return None
    args = base.args[1]
    if len(args) != 2:
        return None
    hay = bare_load(args[0])
    while hay.op == "app" and len(hay.args[1]) == 1 and hay.args[0].split("<")[0].split("::")[-1] in ("bytes", "as_bytes"):
        hay = bare_load(hay.args[1][0])
    n = base.args[0].split("::")[-1]
    if n in ("position", "rposition"):
        return (hay, 1)
    pat = args[1]
    p = bare(pat)
    if p.op == "int":
        return (hay, len(chr(p.args[0]).encode()))
    if p.op == "str":
        return (hay, len(p.args[0].encode()))
    return (hay, 0 if not is_closure(p) else 1)


def is_closure(p):
    return p.op == "agg" and str(p.args[0]).startswith(("closure", "{closure"))


def bare_load(x):
    return bare(x)


def as_bytes(t):
    """the bytes of a string are as many as it is long"""
    k, d = linear(t)
    r = INT(k)
    for x, c in d.items():
        if x.op == "len":
            y = x.args[0]
            while bare(y).op == "app" and bare(y).args[0].split("::")[-1] in ("bytes", "as_bytes") and len(bare(y).args[1]) == 1:
                y = bare(y).args[1][0]
            if y is not x.args[0]:
                x = sub(y.args[2], y.args[1]) if y.op == "vslice" else T("len", y)
        r = add(r, x, c)
    return r


def ascii_at(v, i, facts):
    """is the byte of v at i known to be an ASCII character?"""
    for t, n in facts.items():
        if t.op == "item" and isinstance(n, int) and 0 <= n < 128:
            src, at = t.args
        elif t.op == "elem" and t.args[1] == "idx" and isinstance(n, int) and 0 <= n < 128:
            src, at = t.args[0], t.args[2]
        else:
            continue
        y = bare(src)
        if y.op == "app" and y.args[0].split("::")[-1] in ("bytes", "as_bytes"):
            y = bare(y.args[1][0])
        if y is bare(v) and sub(at, i) is INT(0):
            return True
    return False


def boundary(v, i, ln, facts):
    """does the string v have a character boundary at i?"""
    if ascii_at(v, i, facts) or ascii_at(v, sub(i, INT(1)), facts):
        return True
    if i is INT(0) or i is ln or sub(ln, i) is INT(0):
        return True
    if v.op == "vslice" and boundary(v.args[0], add(v.args[1], i), T("len", v.args[0]), facts):
        return True
    k, d = linear(i)
    if len(d) != 1:
        return False
    (t, c), = d.items()
    if c != 1:
        return False
    h = found(t)
    if h is None or h[0] is not bare(v):
        return False
    base = t.args[0]
    pat = bare(base.args[1][1])
    if base.args[0].split("::")[-1] not in ("find", "rfind") and not (pat.op == "int" and pat.args[0] < 128):
        return False
    width = None
    if pat.op == "int":
        width = len(chr(pat.args[0]).encode())
    elif pat.op == "str":
        width = len(pat.args[0].encode())
    return k == 0 or (width is not None and k == width)


class Prover:
    def __init__(self, c):
        self.c = c

    def ok(self, key, note):
        """why the operation cannot panic here, or None"""
        ops, facts, frames, span, cond, want = note
        kind = key[-1]
        s = Sums(facts)
        if kind == "index":
            ln, i = ops
            return "in bounds" if s.proves(sub(sub(ln, i), INT(1))) else None
        if kind in ("slice", "split_at"):
            if kind == "slice":
                v, lo, hi, ln, tn = ops
            else:
                v, lo, ln, tn = ops
                hi = ln
            if not (s.proves(sub(hi, lo)) and s.proves(sub(ln, hi))):
                return None
            if tn in ("str", "String") and not (boundary(v, lo, ln, facts) and boundary(v, hi, ln, facts)):
                return None
            return "in bounds"
        if kind.startswith("std:"):
            if cond is not None and cond.op == "lt" and s.proves(sub(sub(cond.args[1], cond.args[0]), INT(1))):
                return "in bounds"
            if cond is not None and cond.op == "not" and cond.args[0].op == "lt" and s.proves(sub(cond.args[0].args[0], cond.args[0].args[1])):
                return "in bounds"
            return None
        if kind == "assert:overflow:Sub" and len(ops) == 2:
            return "no underflow" if s.proves(sub(ops[0], ops[1])) else None
        if kind == "assert:overflow:Add" and len(ops) == 2:
            return "counts" if all(self.counted(x) for o in ops for x in atoms(o)) and all(abs(linear(o)[0]) < 1 << 32 for o in ops) else None
        if kind == "assert:overflow:Mul" and len(ops) == 2:
            return "counts" if modest(ops[0]) and modest(ops[1]) and (not atoms(ops[0]) or not atoms(ops[1])) else None
        if kind.startswith("assert:bounds") and len(ops) == 2:
            return "in bounds" if s.proves(sub(sub(ops[0], ops[1]), INT(1))) else None
        return None

    def counted(self, x):
        """a number that goes up in steps, which no request is long enough to exhaust, and not one that was read from the request"""
        if length_like(x):
            return True
        y = bare(x)
        while y.op == "fld":
            y = bare(y.args[0])
        return y.op in ("param", "phi", "last", "item", "elem", "K", "sum", "len") or (y.op in ("call", "upd") and True)


# ---- what is always there
class Kept:
    """Fields that are an Option and hold something as long as the value is in use. What the functions of the
    program assume when they are entered has to be so wherever such a value is made, handed on or given back."""

    def __init__(self, c, fields):
        self.c = c
        self.fields = fields      # {adt path: [field index]}

    def places(self, term, ti, depth=0):
        """(adt path, field index, term of the field) of every such value inside a value of this type;
        values inside an enum are only there for one variant: (.., condition)"""
        p = self.c.p
        if depth > 5 or ti is None:
            return
        t = p.types[ti]
        k = t["k"]
        if k == "ref":
            for x in self.places(T("deref", term), t["e"], depth + 1):
                yield x
        elif k == "tuple":
            for i, x in enumerate(t["fs"]):
                for y in self.places(fld(term, 0, i), x, depth + 1):
                    yield y
        elif k == "adt":
            if t["path"] in self.fields:
                for i in self.fields[t["path"]]:
                    yield t["path"], i, fld(term, 0, i)
            for vi, v in enumerate(t.get("vs", ())):
                for i, f in enumerate(v["fs"]):
                    for y in self.places(fld(term, vi, i), f[1], depth + 1):
                        yield y

    def assumed(self, term, ti):
        return {T("discr", x): 1 for _, _, x in self.places(term, ti)}

    def kept(self, eng, st, v, ti, depth=0, out=None, before=None):
        """the fields inside a value that may be empty: [(adt path, index)]; before: as it was before this call"""
        p = self.c.p
        while before is not None and v.op == "upd" and v.args[1] is before:
            v = v.args[2]
        out = [] if out is None else out
        if depth > 6 or ti is None or not self.inside(ti):
            return out
        t = p.types[ti]
        k = t["k"]
        if k == "ref":
            try:
                root, path = eng.target(v)
                w = eng.load(st, root, path)
            except Exception:
                w = T("deref", v)
            return self.kept(eng, st, w, t["e"], depth + 1, out, before)
        if k == "tuple":
            for i, x in enumerate(t["fs"]):
                self.kept(eng, st, eng.sel(v, ("f", 0, i)), x, depth + 1, out, before)
        elif k == "adt":
            if t["path"] in self.fields:
                for i in self.fields[t["path"]]:
                    x = eng.sel(v, ("f", 0, i))
                    if eng.known(st, eng.discr(x)) != 1:
                        out.append((t["path"], i, x))
            vs = t.get("vs", ())
            if len(vs) > 1:
                d = eng.discr(v)
                d = eng.known(st, d)
            for vi, y in enumerate(vs):
                if len(vs) > 1 and d is not None and y.get("d") != d:
                    continue
                for i, f in enumerate(y["fs"]):
                    self.kept(eng, st, eng.sel(v, ("f", vi, i)), f[1], depth + 1, out, before)
        return out

    def inside(self, ti, depth=0):
        """may a value of this type have such a value inside?"""
        key = ti
        memo = self.__dict__.setdefault("memo", {})
        if key in memo:
            return memo[key]
        memo[key] = False
        p = self.c.p
        t = p.types[ti]
        k = t["k"]
        r = False
        if k == "ref":
            r = self.inside(t["e"])
        elif k == "tuple":
            r = any(self.inside(x) for x in t["fs"])
        elif k == "adt":
            r = t["path"] in self.fields or any(self.inside(f[1]) for v in t.get("vs", ()) for f in v["fs"])
        memo[key] = r
        return r


def scope(c):
    """the functions that run while requests are answered: {path: fn}, by reachability from what takes part in that"""
    p = c.p
    roots = []
    for f in p.fns:
        if f["body"] is None:
            continue
        tys = list(f["ins"]) + ([f["self"]] if f.get("self") is not None else [])
        mine = False
        for ti in tys:
            ti = peel(p, ti)
            t = p.types[ti]
            if t["k"] == "adt" and REQUEST_TYPES.match(strip_generics(t["path"])):
                mine = True
        tr = f.get("trait")
        if tr and REQUEST_TRAITS.match(strip_generics(tr)):
            mine = True
        if mine:
            roots.append(f["body"])
    reach = c.cg.reachable(roots)
    paths = {strip_generics(p.bodies[b]["path"]) for b in reach} | {strip_generics(p.bodies[b]["path"]) for b in roots}
    return [f for f in p.fns if f["body"] is not None and strip_generics(f["path"]) in paths]


def filled(eng, x, sure, seen):
    """is this always Some? sure: what is known of parameters and results; a value that changes from turn to turn of a
    loop is so if it is to begin with and stays so"""
    d = eng.discr(x)
    if d.op == "int":
        return d.args[0] == 1
    if d in sure:
        return True
    path, y = [], x
    while y.op in ("fld", "with"):
        if y.op == "fld":
            path.append(("f",) + y.args[1:])
        y = y.args[0]
    if y.op != "phi" or not path and y is x and x.op != "phi":
        return False
    key = (y, tuple(path))
    if key in seen:
        return True
    seen.add(key)
    srcs = eng.phisrc.get(y)
    if not srcs:
        return False
    for src, _ in srcs:
        v = src
        for pe in reversed(path):
            v = eng.sel(v, pe)
        if not filled(eng, v, sure, seen):
            return False
    return True


class Analysis:
    """One function: which operations in it, or in what it calls, may panic, and which fields it leaves empty"""

    def __init__(self, c, kept, prover, callees, inline):
        self.c, self.kept, self.prover, self.callees, self.inline = c, kept, prover, callees, inline

    def dropping(self, f):
        return (f.get("trait") or "").endswith("ops::Drop") or f["name"] == "drop" and "Drop" in (f.get("trait") or "")

    def run(self, f, whole, extra=()):
        """the places that were not shown to be safe, the fields that are not kept, why the analysis did not get through"""
        c, p = self.c, self.c.p
        kept = self.kept
        broken = {}
        pending = []
        sure = set()

        def opaque(cc):
            b = cc.get("body")
            if b is None or p.bodies[b] is None or whole:
                return False
            path = strip_generics(p.bodies[b]["path"])
            return path in self.callees and path not in self.inline and path not in extra and p.bodies[b].get("kind") != "closure" and path != me

        def hand(eng, st, call, what):
            for a, ti in zip(call.args, call.atys):
                if ti is None:
                    continue
                for k in kept.kept(eng, st, a, ti, before=what):
                    b = call.c.get("body")
                    if b is not None and p.bodies[b] is not None:
                        self.to.setdefault(k[:2], set()).add(strip_generics(p.bodies[b]["path"]))
                    pending.append((k, "%s hands on a value whose field may be empty to %s (%s)" % (f["path"], call.c["path"], p.where(call.span) if call.span and call.span[1] else "-")))

        def rel(eng, st, call, res):
            if call.name.startswith("synth::"):
                return None
            if res is None:
                return None
            if call.c.get("name") in ("drop", "forget", "drop_in_place") and call.c.get("body") is None:
                return None
            hand(eng, st, call, res)
            new = {}
            if call.dty is not None and kept.inside(call.dty):
                new.update(kept.assumed(res, call.dty))
            for a, ti in zip(call.args, call.atys):
                if ti is not None and p.types[ti]["k"] == "ref" and p.types[ti].get("mut") and kept.inside(ti):
                    v = eng.load(st, *eng.target(a))
                    new.update(kept.assumed(v, p.types[ti]["e"]))
            sure.update(new)
            for t, v in new.items():
                if t.op == "discr" and eng.known(st, t) is None:
                    st.facts = dict(st.facts)
                    st.facts[t] = v
            return None

        me = strip_generics(f["path"])
        self.to = {}
        eng = c.engine(panics=True, opaque=opaque, rel=rel)
        eng.models = Panics(c)
        eng.max_states = 40000
        bi = f["body"]
        args = eng.default_args(bi)
        facts = {}
        b = p.body(bi)
        tys = [b["locals"][i + 1] for i in range(b["argc"])]
        # values that are dropped by others were handed on; what is dropped here is dropped as it is then
        for a, ti in zip(args, tys):
            facts.update(kept.assumed(a, ti))
        sure.update(facts)
        try:
            exits = eng.run(bi, args, facts=facts, mon=UNIT)
        except Incomplete as e:
            return [], broken, str(e), eng, 0
        c.states += eng.nstates
        c.exits += len(exits)
        c.units.update(p.bodies[x]["path"] for x in eng.visited_bodies if p.bodies[x].get("local"))
        for ex in exits:
            if ex.kind != "return":
                continue
            st = ex.st
            for k in kept.kept(eng, st, ex.ret, f["out"]):
                pending.append((k, "%s returns a value whose field may be empty" % f["path"]))
            if not self.dropping(f):
                for i, ti in enumerate(tys):
                    if p.types[ti]["k"] == "ref" and p.types[ti].get("mut"):
                        for k in kept.kept(eng, st, args[i], ti):
                            pending.append((k, "%s leaves the field empty" % f["path"]))
        for (path, i, x), w in pending:
            if not filled(eng, x, sure, set()):
                broken.setdefault((path, i), w)
        sites = []
        safe = 0
        for key, notes in sorted(eng.panic_sites.items(), key=lambda kv: str(kv[0])):
            bad = None
            for n in notes:
                if self.prover.ok(key, n) is not None or any(v == 0 and t.op == "discr" and filled(eng, t.args[0], sure, set()) for t, v in n[1].items()):
                    safe += 1
                else:
                    bad = n
                    break
            if bad is not None:
                sites.append((key, bad))
        return sites, broken, None, eng, safe


def called_from(c, note):
    """the local function that an operation stands in: the innermost frame that is not of the standard library"""
    p = c.p
    for fr in reversed(note[2]):
        b = p.bodies[fr.bi]
        if b.get("local"):
            return strip_generics(b["path"]).split("::{closure")[0], fr
    return "-", None


@prop("C35")
def no_panics(c):
    # without debug assertions: what they check must hold without them, and they guard nothing in release builds
    path, _ = c.dump((), "release-", ("-C", "debug-assertions=off", "-C", "overflow-checks=on"))
    c.swap(Program(path))
    p = c.p
    c.rule("Every function that takes part in answering requests (everything reachable from the functions and trait implementations that deal with the types of the context, response, filter and routing modules; registration and startup stand outside) is executed symbolically on every path, and every operation in it that can panic has to be impossible to reach or shown to be safe from the conditions on the way: indexing and slicing are in bounds (linear inequalities over lengths, counters and positions that searches found) and cut text only at character boundaries, unsigned subtractions do not underflow, expect and unwrap only meet values known to be there, panics and unreachable!() lie on no path that can be taken, and the functions of the standard library that panic for some arguments are not given such.")
    prover = Prover(c)
    fs = scope(c)
    for f in fs:
        c.count("functions")
    paths = {strip_generics(f["path"]): f for f in fs}
    # candidates for fields that are always filled: the Option fields of structs that clean up after themselves
    fields = {}
    for t in p.types:
        if t["k"] == "adt" and t.get("local") and t.get("kind") == "struct" and t.get("drop") is not None and REQUEST_TYPES.match(t["path"]):
            d = p.bodies[t["drop"]]
            idx = [i for i, x in enumerate(t["vs"][0]["fs"]) if p.tname(x[1]) == "Option"]
            if idx:
                fields.setdefault(t["path"], idx)
    why = {}
    while True:
        kept = Kept(c, fields)
        res, broken, inline = analyse(c, kept, prover, fs, paths)
        if not broken:
            break
        for (path, i), w in sorted(broken.items()):
            why[(path, i)] = w
            fields = {k: [x for x in v if (k, x) != (path, i)] for k, v in fields.items()}
        fields = {k: v for k, v in fields.items() if v}
    c.kept = fields
    c.count("fields shown to stay filled", sum(len(v) for v in fields.values()))
    for f, (key, note), eng in res:
        path, fr = called_from(c, note)
        span = note[3]
        w = p.where(fr_span(c, note))
        kind = key[-1]
        det = ["operands: " + ", ".join(short(o, 120) if isinstance(o, Term) else str(o) for o in note[0])]
        det += ["known: " + x for x in facts_text(note[1])[:20]]
        det += ["field %s of %s: %s" % (field_name(c, k), k[0], x) for k, x in sorted(why.items())] if "expect" in kind or "unwrap" in kind else []
        c.violation("panic:%s:%s" % (path, kind), w, "%s may panic here (%s), and nothing on the way excludes it" % (path, KINDS.get(kind, kind)), det)
    c.floor("functions", 150)
    c.floor("operations shown to be safe", 15)


KINDS = {"index": "index out of bounds", "slice": "slice out of bounds or inside a character", "call:option::expect_failed": "expect on None", "call:option::unwrap_failed": "unwrap on None",
         "call:result::unwrap_failed": "unwrap or expect on an Err", "call:rt::begin_panic": "panic", "assert:overflow:Sub": "subtraction that underflows"}


def field_name(c, k):
    for t in c.p.types:
        if t["k"] == "adt" and t["path"] == k[0]:
            return t["vs"][0]["fs"][k[1]][0]
    return str(k[1])


def fr_span(c, note):
    """where in the library's own source the operation is"""
    p = c.p
    span = note[3]
    if span and span[1] and not p.where(span).startswith("/"):
        return span
    for fr in reversed(note[2]):
        b = p.bodies[fr.bi]
        if b.get("local"):
            t = b["blocks"][fr.bb]["t"]
            return b["span"]
    return span


def analyse(c, kept, prover, fs, paths):
    """-> (unproven sites, fields that are not kept, functions that are only looked at inside their callers)"""
    p = c.p
    inline = set()
    private = {strip_generics(f["path"]) for f in fs if not f.get("pub") and not f.get("trait")}
    called = callers(c, fs)
    drops = {strip_generics(f["path"]) for f in fs if f["name"] == "drop" and f.get("trait")}
    todo = list(fs)
    results = {}
    while todo:
        again = set()
        for f in todo:
            me = strip_generics(f["path"])
            a = Analysis(c, kept, prover, paths, inline)
            extra = set()
            sites, broken, undecided, eng, safe = a.run(f, False)
            # a function that is given a value with an empty field is looked at for that value
            for _ in range(8):
                more = {x for k in broken for x in a.to.get(k, ()) if x in paths} - extra
                if not more:
                    break
                extra |= more
                sites, broken, undecided, eng, safe = a.run(f, False, extra)
            mine = {me} | extra | inline | drops
            sites = [x for x in sites if called_from(c, x[1])[0] in mine or called_from(c, x[1])[0] not in paths]
            if sites or undecided:
                s2, b2, u2, e2, safe2 = a.run(f, True)
                # operations inside other functions are theirs to answer for
                s2 = [x for x in s2 if called_from(c, x[1])[0] in mine or called_from(c, x[1])[0] not in paths]
                if u2 is None and (undecided or len(s2) < len(sites)):
                    sites, broken, undecided, eng, safe = s2, b2, u2, e2, safe2
            if (sites or broken) and me in private and called.get(me):
                # only what its callers do decides
                if me not in inline:
                    inline.add(me)
                    again |= {x for x in called[me]}
                results[me] = (f, [], {}, None, eng, safe)
                continue
            results[me] = (f, sites, broken, undecided, eng, safe)
        todo = [f for f in fs if strip_generics(f["path"]) in again and strip_generics(f["path"]) not in inline]
    out, broken = [], {}
    for me, (f, sites, br, und, eng, safe) in sorted(results.items()):
        c.count("operations shown to be safe", safe)
        c.count("obligations", safe + len(sites))
        if und:
            c.violation("undecided:" + me, c.where(f), "the analysis of this function does not converge, so that it may panic: %s" % und)
        for s in sites:
            out.append((f, s, eng))
        for k, w in br.items():
            broken.setdefault(k, w)
    return out, broken, inline


def callers(c, fs):
    p = c.p
    out = {}
    for f in fs:
        me = strip_generics(f["path"])
        for b in c.cg.reachable([f["body"]], lambda bi: bi != f["body"] and p.bodies[bi].get("local") and p.bodies[bi].get("kind") != "closure"):
            x = strip_generics(p.bodies[b]["path"])
            if x != me:
                out.setdefault(x, set()).add(me)
    return out
