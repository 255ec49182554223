"""What every rule works with: the program, the analysis, and the verdict being put together."""
import time
from terms import *
import terms
from engine import Engine, Incomplete
from prog import strip_generics


class CallGraph:
    """who may call whom, over resolved callees; closures and functions passed as values count as called by the body
    that mentions them, drops as calls of the drop implementations they reach"""

    def __init__(self, p):
        self.p = p
        self._out = {}
        self._reach = {}

    def types_dropped(self, ti, seen=None):
        p = self.p
        if seen is None:
            seen = set()
        if ti in seen or ti is None:
            return
        seen.add(ti)
        t = p.types[ti]
        if not t.get("nd"):
            return
        yield ti
        k = t["k"]
        subs = []
        if k == "adt":
            subs = [f[1] for v in t.get("vs", ()) for f in v["fs"]]
            subs += t.get("args", [])
        elif k == "tuple":
            subs = t["fs"]
        elif k == "closure":
            subs = t["ups"]
        elif k in ("array", "slice"):
            subs = [t["e"]]
        for s in subs:
            for x in self.types_dropped(s, seen):
                yield x

    def edges(self, bi):
        """(callees, bodies, dropped types) directly used by a body"""
        r = self._out.get(bi)
        if r is not None:
            return r
        p = self.p
        b = p.body(bi)
        cs, bs, ds = [], set(), []

        def const(c):
            t = p.types[c["t"]]
            if t["k"] == "fndef":
                cs.append((t["c"], None))
            if t["k"] == "closure" and t.get("body") is not None:
                bs.add(t["body"])
            if isinstance(c.get("v"), dict) and "fnref" in c["v"]:
                cs.append((c["v"]["fnref"], None))
            if "promoted" in c:
                bs.add(c["promoted"])

        def op(o):
            if o[0] == "k":
                const(o[1])
        for bl in b["blocks"]:
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                r_ = s[2]
                k = r_[0]
                if k in ("use", "rep"):
                    op(r_[1])
                elif k == "cast":
                    op(r_[2])
                elif k == "bin":
                    op(r_[2])
                    op(r_[3])
                elif k == "un":
                    op(r_[2])
                elif k == "agg":
                    if r_[1][0] == "closure":
                        x = p.types[r_[1][1]].get("body")
                        if x is not None:
                            bs.add(x)
                    for o in r_[2]:
                        op(o)
            t = bl["t"]
            if t[0] == "call":
                if t[1][0] == "fn":
                    cs.append((t[1][1], t[7]))
                for o in t[2]:
                    op(o)
            elif t[0] == "drop":
                ds.append((t[3], t[4]))
        r = self._out[bi] = (cs, bs, ds)
        return r

    def succ_bodies(self, bi):
        p = self.p
        cs, bs, ds = self.edges(bi)
        out = set(bs)
        for c, sp in cs:
            cc = p.callees[c]
            for k in ("body", "dflt"):
                if cc.get(k) is not None:
                    out.add(cc[k])
        for ti, sp in ds:
            for x in self.types_dropped(ti):
                d = p.types[x].get("drop")
                if d is not None:
                    out.add(d)
        return {x for x in out if p.bodies[x] is not None}

    def reachable(self, roots, stop=lambda bi: False):
        seen = set()
        work = [r for r in roots if r is not None]
        while work:
            b = work.pop()
            if b in seen or self.p.bodies[b] is None:
                continue
            seen.add(b)
            if stop(b):
                continue
            work.extend(self.succ_bodies(b))
        return seen

    def reaches(self, bi, key, pred):
        """does body bi, or anything it can call, contain a call selected by pred(callee)?"""
        m = self._reach.setdefault(key, {})
        if bi in m:
            return m[bi]
        # any body from which a matching call is reachable
        for x in self.reachable([bi]):
            cs, bs, ds = self.edges(x)
            if any(pred(self.p.callees[c]) for c, sp in cs):
                m[bi] = True
                return True
        m[bi] = False
        return False


class Ctx:
    def __init__(self, prog, prop, tier):
        self.p = prog
        self.prop = prop
        self.tier = tier
        self.cg = CallGraph(prog)
        self.violations = []      # (key, where, message, details)
        self.counts = {}
        self.units = set()
        self.sites = []
        self.rules = []
        self.states = 0
        self.exits = 0
        self.notes = []
        self.failed = []
        self.samples = []
        self.explanation = ""
        self.t0 = time.time()

    # ---- verdict
    def violation(self, key, where, msg, details=()):
        for v in self.violations:
            if v[0] == key and v[1] == where:
                return
        self.violations.append((key, where, msg, list(details)))

    def require(self, cond, key, where, msg, details=()):
        self.count("obligations")
        if not cond:
            self.failed.append(key)
            self.violation(key, where, msg, details)
        elif len(self.samples) < 40:
            x = "%s: %s" % (where, key)
            if x not in self.samples:
                self.samples.append(x)
        return bool(cond)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def floor(self, what, n):
        """at least n instances of something that was counted by hand must have been seen"""
        have = self.counts.get(what, 0)
        if have < n:
            self.violation("floor:" + what, "-", "only %d instances of %s were found, at least %d are known to exist" % (have, what, n))

    def rule(self, text):
        self.rules.append(text)

    # ---- program
    def swap(self, prog):
        """go on with another program: the same sources compiled in another way"""
        self.p = prog
        self.cg = CallGraph(prog)

    def where(self, f):
        if f is None:
            return "-"
        if isinstance(f, dict):
            return self.p.where(f["span"]) + " " + strip_generics(f["path"])
        return self.p.where(f)

    def fns(self, ty=None, name=None, trait=None, pred=None):
        """functions by the type they belong to, the trait they implement and their name"""
        r = []
        for f in self.p.fns:
            if name is not None and f["name"] != name:
                continue
            if trait is not None:
                if "trait" not in f or f["trait"].split("::")[-1].split("<")[0] != trait:
                    continue
            elif trait is None and ty is not None and "trait" in f:
                continue
            if ty is not None:
                s = f.get("self")
                if s is None or self.p.tname(s) != ty:
                    continue
            if pred is not None and not pred(f):
                continue
            if f["body"] is None:
                continue
            r.append(f)
        return r

    def fn(self, ty=None, name=None, trait=None, pred=None, optional=False):
        r = self.fns(ty, name, trait, pred)
        if len(r) != 1:
            if not optional:
                self.violation("anchor:%s%s%s" % (ty or "", "/" + trait if trait else "", "::" + name if name else ""), "-",
                               "the analysed function cannot be found (%d candidates)" % len(r))
            return None
        return r[0]

    def field(self, ty, pred):
        """index of the only field of a struct that satisfies pred(name, type index)"""
        t = self.struct(ty)
        if t is None:
            return None
        r = [i for i, x in enumerate(t["vs"][0]["fs"]) if pred(x[0], x[1])]
        return r[0] if len(r) == 1 else None

    def struct(self, ty):
        for t in self.p.types:
            if t["k"] == "adt" and t.get("local") and self.p.last(t["path"]) == ty and t.get("vs"):
                return t
        return None

    def variant(self, ty, name):
        """index of an enum's variant"""
        t = self.struct(ty)
        if t is None:
            for t in self.p.types:
                if t["k"] == "adt" and self.p.last(t["path"]) == ty and t.get("vs"):
                    break
            else:
                return None
        for i, v in enumerate(t["vs"]):
            if v["n"] == name:
                return i
        return None

    def tpaths(self, ti, pred, depth=0, seen=()):
        """all ways from a type to the parts of it that satisfy pred(type), as paths of field selections"""
        p = self.p
        t = p.types[ti]
        if depth and pred(t):
            yield ()
            return
        if depth > 6 or ti in seen:
            return
        k = t["k"]
        if k == "adt":
            for vi, v in enumerate(t.get("vs") or ()):
                for fi, x in enumerate(v["fs"]):
                    for r in self.tpaths(x[1], pred, depth + 1, seen + (ti,)):
                        yield (("f", vi, fi),) + r
        elif k == "tuple":
            for fi, x in enumerate(t["fs"]):
                for r in self.tpaths(x, pred, depth + 1, seen + (ti,)):
                    yield (("f", 0, fi),) + r

    def type_of(self, name):
        """type index of a local ADT"""
        for i, t in enumerate(self.p.types):
            if t["k"] == "adt" and t.get("local") and self.p.last(t["path"]) == name and t.get("vs"):
                return i
        return None

    def part(self, ty, pred, what):
        """the only path from a local type to a part selected by pred"""
        ti = self.type_of(ty)
        r = list(self.tpaths(ti, pred)) if ti is not None else []
        if len(r) != 1:
            self.violation("anchor:%s.%s" % (ty, what), "-", "%d parts of %s are %s" % (len(r), ty, what))
            return None
        return r[0]

    def heavy(self, bi):
        """may running this body loop?"""
        m = self.cg._reach.setdefault("heavy", {})
        if bi not in m:
            m[bi] = any(self.p.heads(x) or self.iterates(x) for x in self.cg.reachable([bi]))
        return m[bi]

    def iterates(self, bi):
        """does the body call something that is modelled by a loop?"""
        for cc, sp in self.cg.edges(bi)[0]:
            n = self.p.callees[cc]["short"]
            if n.startswith("Iterator::") or n.split("::")[-1] in ("from_iter", "extend", "retain", "for_each"):
                return True
        return False

    def cg_far(self, cc):
        """a loop of this crate that cannot reach a response, a header or a file"""
        b = cc.get("body")
        if b is None or self.p.bodies[b] is None or not self.p.bodies[b].get("local"):
            return False
        return self.heavy(b) and not self.cg.reaches(b, "far", lambda x: x["short"].startswith(("hyper::", "File::", "io::", "SendResponse", "Write::", "Read::", "Seek::")) or x["short"] == "Drop::drop")

    def opaque_unless(self, key, pred, also=lambda c: False):
        """local functions that cannot reach an operation of interest are not looked into"""
        def f(c):
            if also(c):
                return True
            b = c.get("body")
            if b is None or self.p.bodies[b] is None:
                return False
            bb = self.p.bodies[b]
            if not bb.get("local"):
                return False
            if pred(c):
                return False
            return not self.cg.reaches(b, key, pred) and self.heavy(b)
        return f

    def engine(self, **kw):
        eng = Engine(self.p, **kw)
        from rules.target import separator
        eng.separator = lambda ti: separator(self, ti)
        return eng

    def run(self, eng, f, args=None, mem=None, facts=None, mon=None, key=None):
        """all ways out of function f; None (and a violation) if the analysis does not get through"""
        bi = f["body"] if isinstance(f, dict) else f
        path = strip_generics(self.p.body(bi)["path"])
        try:
            ex = eng.run(bi, args if args is not None else eng.default_args(bi), mem=mem, facts=facts, mon=mon)
        except Incomplete as e:
            self.violation("undecided:" + path, self.p.where(self.p.body(bi)["span"]), "the analysis of this function does not converge, so that the property cannot be established: %s" % e)
            return None
        finally:
            self.states += eng.nstates
            for b in eng.visited_bodies:
                bb = self.p.bodies[b]
                if bb.get("local"):
                    self.units.add(bb["path"])
        self.exits += len(ex)
        self.count("functions analysed as roots")
        return ex


def short(t, n=200):
    s = show(t) if t is not None else "()"
    return s if len(s) <= n else s[:n] + "..."


def facts_text(facts, n=40):
    r = []
    for t, v in facts.items():
        r.append("%s = %s" % (short(t, 160), "not in %s" % sorted(v) if isinstance(v, frozenset) else v))
        if len(r) >= n:
            r.append("...")
            break
    return r


def trace_text(trace, n=25):
    r = []
    for e in trace[-n:]:
        r.append(" ".join(short(x, 160) if isinstance(x, (Term, tuple)) else str(x) for x in e))
    return r
