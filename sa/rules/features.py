"""Feature configurations (C37)."""
import copy
import itertools
import json
import os
import re
import subprocess
from terms import *
from prog import Program
from ctx import CallGraph
from rules import prop
from rules.common import *


def features(c):
    """the features that users choose from: those that are not the default set and not marked as internal"""
    text = open(os.path.join(c.repo, "Cargo.toml")).read()
    names, section, internal, dep = [], None, False, None
    optional = {}
    for line in text.splitlines():
        m = re.match(r"\s*\[([^\]]+)\]", line)
        if m:
            section, internal = m.group(1).strip(), False
            continue
        if line.strip().startswith("#internal"):
            internal = True
        m = re.match(r"\s*([A-Za-z0-9_-]+)\s*=\s*(.*)", line)
        if not m:
            continue
        k, v = m.groups()
        if section == "features" and k != "default" and not internal:
            names.append(k)
        if section == "dependencies" and re.search(r"optional\s*=\s*true", v):
            names.append(k)
        if section and section.startswith("dependencies.") and k == "optional" and v.startswith("true"):
            names.append(section.split(".", 1)[1])
    return sorted(set(names))


def types_check(c, fs):
    """one configuration: {target: [errors]}, the targets that were checked"""
    cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--examples", "--keep-going", "--message-format=json", "--target-dir", os.path.join(c.cache, "ftarget"), "--no-default-features"]
    if fs:
        cmd += ["--features", " ".join(fs)]
    env = dict(os.environ)
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(cmd, cwd=c.repo, env=env, capture_output=True, text=True)
    errs, done = {}, {}
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        t = m.get("target")
        if t is None or not t.get("src_path", "").startswith(os.path.realpath(c.repo) + "/"):
            continue
        if m.get("reason") == "compiler-artifact":
            done[t["name"]] = t
        elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            errs.setdefault((t["kind"][0], t["name"], t["src_path"]), []).append(m["message"])
    return errs, done, r


def mentions(p, f, word):
    """does the signature or the body of a function have something to do with this crate?"""
    pat = "%s::" % word

    def ty(ti, seen):
        if ti is None or ti in seen:
            return False
        seen.add(ti)
        t = p.types[ti]
        if pat in t["s"]:
            return True
        if t["k"] == "ref":
            return ty(t["e"], seen)
        if t["k"] == "adt" and t.get("local"):
            return any(ty(x[1], seen) for v in t.get("vs") or () for x in v["fs"])
        return False
    if any(ty(t, set()) for t in list(f["ins"]) + [f["out"]]):
        return True
    if f.get("self") is not None and any(g.get("self") is not None and p.types[g["self"]]["s"] == p.types[f["self"]]["s"] and g.get("trait", "").startswith(pat) for g in p.fns):
        # a type that is made for the crate
        return True
    if pat in f.get("trait", "") or f.get("self") is not None and ty(f["self"], set()):
        return True
    return False


def body_mentions(p, cg, bi, word, seen):
    if bi in seen or p.bodies[bi] is None:
        return False
    seen.add(bi)
    b = p.body(bi)
    cs, bs, ds = cg.edges(bi)
    if any(p.callees[x]["crate"] == word or word + "::" in p.callees[x]["full"] for x, sp in cs):
        return True
    return any(body_mentions(p, cg, x, word, seen) for x in bs)


def shape(p, bi, seen):
    """what a body does, without the numbers that depend on the rest of the crate"""
    if bi in seen:
        return ("again",)
    seen.add(bi)
    b = p.bodies[bi]
    if b is None:
        return ("none",)
    b = p.body(bi)

    def const(k):
        t = p.types[k["t"]]
        if t["k"] == "fndef":
            return ("fn", callee(t["c"]))
        v = k.get("v")
        if isinstance(v, dict):
            v = tuple(sorted((x, callee(y) if x == "fnref" else "-" if isinstance(y, int) and x not in ("i", "int", "b") else str(y)) for x, y in v.items()))
        if "promoted" in k:
            return ("promoted", shape(p, k["promoted"], seen))
        return ("const", re.sub(r"#\d+", "#", p.types[k["t"]]["s"]), str(v))

    def callee(ci):
        return re.sub(r"closure#?\d*", "closure", p.callees[ci]["full"])

    def op(o):
        if isinstance(o, (list, tuple)) and o and o[0] == "k" and isinstance(o[1], dict):
            return const(o[1])
        if isinstance(o, (list, tuple)):
            return tuple(op(x) for x in o)
        return o

    def rv(r):
        k = r[0]
        if k in ("use", "rep"):
            return (k, op(r[1])) + tuple(r[2:3] if k == "rep" else ())
        if k == "cast":
            return (k, r[1], op(r[2]))
        if k == "bin":
            return (k, r[1], op(r[2]), op(r[3]))
        if k == "un":
            return (k, r[1], op(r[2]))
        if k == "agg":
            a = r[1]
            if a[0] == "adt":
                h = ("adt", p.types[a[1]]["s"] if isinstance(a[1], int) and a[1] < len(p.types) else "?", a[2])
            elif a[0] == "closure":
                x = p.types[a[1]].get("body")
                h = ("closure", shape(p, x, seen) if x is not None else None)
            else:
                h = (a[0],)
            return (k, h, tuple(op(o) for o in r[2]))
        if k == "discr":
            return (k, op(r[1]))
        if k in ("ref", "len"):
            return tuple(op(x) for x in r)
        return (k,)
    out = []
    for bl in b["blocks"]:
        ss = []
        for s in bl["s"]:
            if s[0] == "=":
                ss.append((op(s[1]), rv(s[2])))
            elif s[0] not in ("live", "dead", "nop"):
                ss.append((s[0],))
        t = bl["t"]
        if t[0] == "call":
            tt = ("call", callee(t[1][1]) if t[1][0] == "fn" else op(t[1]), op(t[2]), op(t[3]), t[4])
        elif t[0] == "drop":
            tt = ("drop", op(t[1]))
        elif t[0] == "switch":
            tt = ("switch", op(t[1]), op(t[2]), t[3])
        else:
            tt = tuple(x for x in t if not isinstance(x, (list, tuple, dict)))
        out.append((tuple(ss), tt))
    return tuple(out)


@prop("C37")
def c37(c):
    c.rule("the library and all examples that do not use the crate of a missing feature type-check with every combination of the features that users choose from")
    c.rule("without a feature, only functions that have its crate in their signature, type or body are missing, no public ones are added, and all others have the same signature and do the same")
    c.rule("functions that are written differently without a feature still satisfy what holds for reading bodies with it")
    p = c.p
    fs = features(c)
    c.require("multipart" in fs, "anchor:features", "Cargo.toml", "the features cannot be found: %s" % fs)
    for n in range(len(fs) + 1):
        for sub in itertools.combinations(fs, n):
            name = "+".join(sub) or "none"
            errs, done, r = types_check(c, sub)
            c.count("configurations")
            missing = [x for x in fs if x not in sub]
            lib = False
            for (kind, target, src), ms in sorted(errs.items()):
                if kind == "example" and any(re.search(r"\b%s\b" % re.escape(x), open(src).read()) for x in missing):
                    c.count("examples that need a missing feature")
                    continue
                m = ms[0]
                sp = m["spans"][0] if m["spans"] else {"file_name": src, "line_start": 0}
                lib = lib or kind in ("lib", "rlib")
                c.require(False, "types:%s:%s" % (name, target), "%s:%d" % (sp["file_name"], sp["line_start"]), "%s does not type-check with the features %s: %s" % (target, name, m["message"]), (m.get("rendered") or "").splitlines()[:20])
            c.count("targets that type-check", len(done))
            if not errs:
                c.require(r.returncode == 0, "check:" + name, "Cargo.toml", "type checking with the features %s failed: %s" % (name, r.stderr[-300:]), r.stderr.splitlines()[-20:])
                c.require("rustful" in done, "lib:" + name, "Cargo.toml", "the library is not checked with the features %s" % name)
            if lib or errs and "rustful" not in done:
                return
    c.floor("configurations", 2)
    c.floor("targets that type-check", 10)
    path, h = c.dump(("--no-default-features",), "plain-")
    q = Program(path)
    words = fs
    compare(c, p, q, words)
    # what is written differently
    c2 = copy.copy(c)
    c2.p = q
    c2.cg = CallGraph(q)
    from rules.body import bodies
    bodies(c2)
    c.states, c.exits = c2.states, c2.exits


def name(p, f):
    s = re.sub(r"'[a-z_]+\b", "'_", p.types[f["self"]]["s"]) if f.get("self") is not None else ""
    return (f["path"], s, f.get("trait", ""))


def compare(c, p, q, words):
    one, two = {}, {}
    for prog, d in ((p, one), (q, two)):
        for f in prog.fns:
            d.setdefault(name(prog, f), []).append(f)
    cgp, cgq = c.cg, CallGraph(q)
    for k, l in sorted(one.items()):
        for i, f in enumerate(l):
            g = two.get(k, [])
            own = any(mentions(p, f, w) for w in words) or f["body"] is not None and any(body_mentions(p, cgp, f["body"], w, set()) for w in words)
            c.count("functions compared")
            if i >= len(g):
                c.require(own or not f.get("pub") and "trait" not in f, "missing:" + k[0], c.where(f), "this is not available without a feature that it has nothing to do with")
                continue
            g = g[i]
            sig = lambda pr, x: ([pr.types[t]["s"] for t in x["ins"]], pr.types[x["out"]]["s"], x.get("unsafe"), x.get("pub"))
            if not own:
                c.require(sig(p, f) == sig(q, g), "signature:" + k[0], c.where(f), "the signature is different without a feature that it has nothing to do with")
            if f["body"] is None or g["body"] is None:
                continue
            if shape(p, f["body"], set()) != shape(q, g["body"], set()):
                c.count("functions that differ")
                c.notes.append("differs without the feature: %s" % f["path"])
                c.require(gated(p, q, f, g), "different:" + k[0], c.where(f), "this does something else without a feature that it has nothing to do with")
    for k, l in sorted(two.items()):
        for g in l[len(one.get(k, [])):]:
            c.require(not g.get("pub"), "added:" + k[0], q.where(g["span"]), "this is only available without a feature")
    # the types
    def public(prog):
        return {t["path"]: t for t in prog.types if t["k"] == "adt" and t.get("local") and t.get("vs")}
    a, b = public(p), public(q)
    for n in sorted(set(b) - set(a)):
        c.require(False, "type-added:" + n, "-", "the type %s exists only without a feature" % n)


def differing(p, q):
    """types that have other parts without a feature"""
    def parts(prog, t):
        return [(v["n"], [(x[0], prog.types[x[1]]["s"]) for x in v["fs"]]) for v in t["vs"]]
    b = {t["path"]: t for t in q.types if t["k"] == "adt" and t.get("local") and t.get("vs")}
    return {t["path"] for t in p.types if t["k"] == "adt" and t.get("local") and t.get("vs") and t["path"] in b and parts(p, t) != parts(q, b[t["path"]])}


def gated(p, q, f, g):
    """is the difference only about making or dropping a type that has other parts without a feature?"""
    types = differing(p, q)
    if p.types[f["out"]].get("path") in types:
        # what these make is decided for both
        return True

    def has(prog, ti, seen):
        if ti is None or ti in seen:
            return False
        seen.add(ti)
        t = prog.types[ti]
        if t["k"] == "adt":
            if t["path"] in types:
                return True
            return any(has(prog, x[1], seen) for v in t.get("vs") or () for x in v["fs"])
        return False
    if not any(has(p, l, set()) for l in p.bodies[f["body"]]["locals"] if isinstance(l, int)):
        return False

    def steps(x, out):
        """calls, comparisons and constants other than drop flags"""
        for ss, tt in x:
            for s in ss:
                if len(s) == 2 and isinstance(s[1], tuple):
                    k = s[1][0]
                    if k == "use" and isinstance(s[1][1], tuple) and s[1][1] and s[1][1][0] == "const" and s[1][1][1] == "bool":
                        continue
                    if k in ("bin", "un", "cast", "agg", "discr"):
                        out.append(k + consts(s[1]))
            if tt[0] == "call":
                out.append("call %s %s" % (tt[1], consts(tt[2])))
        return sorted(out)

    def consts(x):
        if isinstance(x, tuple):
            if x and x[0] in ("const", "fn", "promoted", "adt"):
                return str(x)
            if x and x[0] == "closure" and isinstance(x[1], tuple):
                return "closure" + str(steps(x[1], []))
            return "".join(consts(y) for y in x)
        return ""
    return steps(shape(p, f["body"], set()), []) == steps(shape(q, g["body"], set()), [])
