"""Configuration: what the server makes of it, host addresses, the check of paths, effects on the process, busy threads (C28, C29, C30, C33, C39)."""
import os
import re
from terms import *
import terms
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import *
from rules.routers import *
from rules.links import bare
from rules.server import run_handle
from rules.store import code_only, calls_in

SOCKET = "std::net::SocketAddr"
PARTS = ("ip", "port", "flowinfo", "scope_id")
ZERO = ("Ipv4Addr::UNSPECIFIED", "Ipv4Addr::from_bits", "Ipv4Addr::from_octets")


class Addr:
    """what a socket address consists of: (version, ip, port, flow information, scope)"""

    def __init__(self, eng, v):
        self.eng, self.v = eng, v

    def strip(self, x):
        while True:
            if x.op in ("&", "vref", "deref") and isinstance(x.args[0], Term):
                x = x.args[0]
            elif x.op == "ref":
                y = bare(x)
                if y is x:
                    return x
                x = y
            elif x.op == "app" and len(x.args[1]) == 1 and last2(x.args[0].split("<")[0]) in ("Clone::clone", "Into::into", "From::from"):
                x = x.args[1][0]
            else:
                return x

    def leaf(self, x):
        """an address or a number"""
        x = self.strip(x)
        if x.op == "app":
            n = last2(x.args[0].split("<")[0])
            if n.split("::")[0] in ("SocketAddrV4", "SocketAddrV6") and n.split("::")[1] in PARTS:
                return self.version(x.args[1][0], int(n.split("::")[0][-1]) == 6)[PARTS.index(n.split("::")[1])]
            if n in ("SocketAddr::port", "SocketAddr::ip"):
                a = self.of(x.args[1][0])
                if a is not None:
                    return a[2] if n.endswith("port") else T("agg", "ip", a[0], (a[1],))
            if n == "Ipv4Addr::new" and all(y is INT(0) for y in x.args[1]):
                return T("zero")
            if n == "Ipv4Addr::new":
                return T("app", n, tuple(self.leaf(y) for y in x.args[1]))
        if x.op in ("const", "static", "named") and "UNSPECIFIED" in show(x):
            return T("zero")
        return x

    def version(self, x, six):
        """the parts of a SocketAddrV4 or SocketAddrV6"""
        x = self.strip(x)
        if x.op == "app":
            n = last2(x.args[0].split("<")[0])
            if n in ("SocketAddrV4::new", "SocketAddrV6::new"):
                r = [self.leaf(y) for y in x.args[1]]
                return r + [INT(0)] * (4 - len(r))
        if x.op == "upd" and x.args[0].split("::")[-1].startswith("set_"):
            r = list(self.version(x.args[2], six))
            k = x.args[0].split("::")[-1][4:]
            o = self.eng.origin.get(x.args[1])
            if k in PARTS and o is not None:
                r[PARTS.index(k)] = self.leaf(o.args[1])
                return r
        return [T("part", k, x) for k in PARTS[:2]] + ([T("part", k, x) for k in PARTS[2:]] if six else [INT(0), INT(0)])

    def of(self, x):
        """the parts of a SocketAddr, or None if its version is not clear"""
        x = self.strip(x)
        if x.op == "agg" and x.args[0] == SOCKET:
            return (x.args[1],) + tuple(self.version(x.args[2][0], x.args[1] == 1))
        if x.op == "app":
            n = last2(x.args[0].split("<")[0])
            if n == "SocketAddr::new":
                ip = self.leaf(x.args[1][0])
                if ip.op == "agg":
                    return (ip.args[1], self.leaf(ip.args[2][0]), self.leaf(x.args[1][1]), INT(0), INT(0))
                return None
        if x.op == "agg" and x.args[0] == "tuple" and len(x.args[2]) == 2:
            return (0, self.leaf(x.args[2][0]), self.leaf(x.args[2][1]), INT(0), INT(0))
        if x.op == "upd" and x.args[0].split("::")[-1].startswith("set_"):
            r = self.of(x.args[2])
            k = x.args[0].split("::")[-1][4:]
            o = self.eng.origin.get(x.args[1])
            if r is not None and k in PARTS and o is not None:
                r = list(r)
                r[1 + PARTS.index(k)] = self.leaf(o.args[1])
                return tuple(r)
            return None
        if x.op == "with":
            for vi, i, y in x.args[1]:
                if i == 0:
                    return (vi,) + tuple(self.version(y, vi == 1))
        d = self.eng.known(self.v, self.eng.discr(x))
        if d is None:
            return (self.eng.discr(x),) + tuple(T("part", k, x) for k in PARTS)
        return (d,) + tuple(self.version(self.eng.sel(x, ("f", d, 0)), d == 1))


@prop("C29")
def c29(c):
    c.rule("a host made from an address, an address of either version, an IPv4 address and port, or a port holds exactly that socket address, 0.0.0.0 for a port alone")
    c.rule("converting a host to an address gives the address it holds; parsing holds what std parses and passes its error on")
    c.rule("changing the port leaves version, address, flow information and scope as they were")
    p = c.p
    ti = c.type_of("Host")
    good = ti is not None and [p.types[t]["path"] for n, t in p.types[ti]["vs"][0]["fs"]] == [SOCKET]
    if not c.require(good, "anchor:host", "-", "the type of host addresses does not hold exactly one socket address"):
        return
    # what makes a host, by what it is made of
    want = {
        (SOCKET,): lambda A, a: None,
        ("std::net::SocketAddrV4",): lambda A, a: (0,) + tuple(A.version(a, False)),
        ("std::net::SocketAddrV6",): lambda A, a: (1,) + tuple(A.version(a, True)),
        ("u16",): lambda A, a: (0, T("zero"), a, INT(0), INT(0)),
        ("(std::net::Ipv4Addr, u16)",): lambda A, a: (0, fld(a, 0, 0), fld(a, 0, 1), INT(0), INT(0)),
    }
    one = T("param", 1)
    for f in p.fns:
        if f["body"] is None:
            continue
        ins = tuple(p.types[t]["s"] for t in f["ins"])
        where = c.where(f)
        mine = "Host" == p.tname(f["out"]) and p.types[f["out"]]["k"] == "adt"
        known = mine and (f.get("pub") or f.get("trait"))
        parses = f["name"] == "from_str" and f.get("self") == ti
        back = p.types[f["out"]]["s"] == SOCKET and f["ins"] == [ti]
        sets = len(ins) == 2 and ins[1] == "u16" and ins[0].startswith("&mut") and p.types[f["ins"][0]].get("e") == ti
        if not (known or parses or back or sets):
            continue
        r = Run(c, f, far=False)
        c.require(r.exits, "returns:" + f["path"], where, "%s never returns" % f["path"])
        for e in r.exits:
            v = View(e)
            A = Addr(r.eng, v)
            det = facts_text(e.facts)
            if known and ins in want:
                c.count("ways to make a host")
                a = r.eng.sel(r.eng.deepval(e.st, e.ret), ("f", 0, 0))
                w = want[ins](A, one)
                got = A.of(a) if w is not None else A.strip(a)
                c.require(got == w if w is not None else got is one or diffs(r.eng, v, one) == [] and got is one, "made:" + ins[0], where,
                          "a host made from %s does not denote exactly that address: %s" % (ins[0], short(a)), det)
            elif known and f["name"] == "clone":
                c.count("ways to make a host")
                a = A.strip(e.ret)
                c.require(a is one or a is T("deref", one) or not diffs(r.eng, a, T("deref", one)), "clone", where, "the clone of a host is another host: %s" % short(a), det)
            elif parses:
                c.count("ways to parse a host")
                d = r.eng.known(v, r.eng.discr(e.ret))
                x = r.eng.sel(e.ret, ("f", 0, 0)) if d == 0 else r.eng.sel(e.ret, ("f", 1, 0))
                if d == 0:
                    x = r.eng.sel(x, ("f", 0, 0))
                src = x.args[0] if x.op == "fld" else x
                okay = d is not None and x.op == "fld" and x.args[1] == d and x.args[2] == 0 and src.op == "app" and SOCKET in src.args[0] and re.search(r"\bparse::<|from_str\b", src.args[0])
                c.require(bool(okay) and len(src.args[1]) == 1 and bare(src.args[1][0]) is one, "parse", where, "parsing a host gives something else than parsing its address: %s" % short(e.ret), det)
            elif back:
                c.count("ways back to an address")
                c.require(A.strip(e.ret) is fld(one, 0, 0), "back", where, "a host is converted to another address: %s" % short(e.ret), det)
            elif sets:
                c.count("ways to change the port")
                new = r.eng.sel(r.eng.load(e.st, *r.eng.target(one)), ("f", 0, 0))
                old = fld(T("deref", one), 0, 0)
                a, b = A.of(new), A.of(old)
                if c.require(a is not None, "port-unclear", where, "the address after changing the port is not clear: %s" % short(new), det):
                    c.require(a[2] is T("param", 2), "port-set", where, "the port is set to something else: %s" % short(a[2]), det)
                    for i, k in ((0, "version"), (1, "ip"), (3, "flowinfo"), (4, "scope_id")):
                        c.require(a[i] == b[i], "port-keeps:" + k, where, "changing the port changes the %s: %s" % (k, short(a[i]) if isinstance(a[i], Term) else a[i]), det)
    c.floor("ways to make a host", 6)
    c.floor("ways back to an address", 1)
    c.floor("ways to change the port", 1)
    c.floor("ways to parse a host", 2)


NORMAL = {2, 4}      # std::path::Component: Prefix, RootDir, CurDir, ParentDir, Normal
BAD = {0, 1, 3}


@prop("C30")
def c30(c):
    c.rule("the path is taken apart into all its components, in order, and success is reported only after the last of them")
    c.rule("in every turn of the loop, the component looked at is known to be a plain name or the current directory if the next one is reached")
    c.rule("failure is reported exactly for the first component that is a root, prefix or parent directory, and it is that component that is reported")
    p = c.p
    fs = [f for f in p.fns if f["body"] is not None and f.get("pub") and not f.get("trait") and len(f["ins"]) == 1 and p.types[f["out"]]["s"].startswith("std::result::Result<(), std::path::Component")]
    if not c.require(len(fs) == 1, "anchor:check_path", "-", "the check of paths cannot be found"):
        return
    f = fs[0]
    where = c.where(f)

    def comps(x):
        return x.op == "app" and last2(x.args[0].split("<")[0]) == "Path::components" and bare(x.args[1][0]) is T("param", 1)

    eng = c.engine(keep_facts=lambda t: any(comps(x) for x in walk(t)))
    ex = c.run(eng, f)
    if ex is None:
        return

    def seen(facts):
        """components that are there, as {index: discriminants it can still have}; and whether there is nothing after them"""
        there, kinds, end = {}, {}, None
        for t, v in facts:
            k = counted(t, v) if not isinstance(v, frozenset) else ((t.args[0], INT(0), True) if t.op == "len" and 0 in v else None)
            if k is not None and comps(k[0]):
                if k[2]:
                    there[k[1]] = 1
                else:
                    end = k[1]
            if t.op == "discr" and t.args[0].op in ("item", "elem") and comps(t.args[0].args[0]):
                kinds[t.args[0].args[-1]] = {v} if not isinstance(v, frozenset) else set(range(5)) - v
        return {i: kinds.get(i, set(range(5))) for i in list(there) + [k for k in kinds if k not in there]}, end

    turns = 0
    for (hid, prefix), d in eng.patterns.items():
        for suffix, pf in d:
            s, end = seen(pf)
            for i, k in s.items():
                turns += 1
                c.require(k <= NORMAL, "turn", where, "the check goes on to the next component although this one may be a root, prefix or parent directory", facts_text(dict(pf)))
    c.count("turns of the loop", turns)
    for e in [e for e in ex if e.kind == "return"]:
        v = View(e)
        det = facts_text(e.facts)
        s, end = seen(e.facts.items())
        d = eng.known(v, eng.discr(e.ret))
        if not c.require(d is not None, "result", where, "it is not clear if the path passes", det):
            continue
        c.count("ways out: " + ("passes" if d == 0 else "fails"))
        if d == 0:
            c.require(end is not None, "all", where, "the path passes although not all of its components were looked at", det)
            for i, k in s.items():
                c.require(k <= NORMAL, "passes", where, "the path passes although a component may be a root, prefix or parent directory", det)
        else:
            x = bare(eng.sel(e.ret, ("f", 1, 0)))
            if x.op == "fld" and x.args[0].op == "item":
                x = x.args[0]
            if not c.require(x.op in ("item", "elem") and comps(x.args[0]), "reported", where, "what is reported is not a component of the path: %s" % short(x), det):
                continue
            i = x.args[-1]
            c.require(s.get(i, set(range(5))) <= BAD, "fails", where, "the path fails because of a component that may be a plain name or the current directory", det)
            for j, k in s.items():
                if j is not i:
                    c.require(k <= NORMAL, "first", where, "the reported component is not the first one that is a root, prefix or parent directory", det)
            if i.op == "int":
                for n in range(i.args[0]):
                    c.require(INT(n) in s, "skips", where, "a component is not looked at", det)
        # nothing between the first and the last may be left out
        for i in [i for i in s if i.op == "int"] + ([end] if end is not None and end.op == "int" else []):
            for n in range(i.args[0]):
                c.require(INT(n) in s, "skips", where, "a component is not looked at", det)
    c.floor("turns of the loop", 1)
    c.floor("ways out: passes", 1)
    c.floor("ways out: fails", 1)


def is_std(cc):
    return cc["crate"] in ("std", "core", "alloc")


# (what it does, test of a callee's path)
EFFECTS = [
    ("prints to the standard streams", lambda s: re.search(r"(^|::)(_print|_eprint|stdout|stderr|stdin|stdout_raw|stderr_raw|set_output_capture|print_to)$", s) or "Stdout" in s or "Stderr" in s),
    ("ends the process", lambda s: re.search(r"(^|::)process::(exit|abort|Command.*|id)$", s) or "::process::Command" in s or s.endswith("intrinsics::abort")),
    ("changes the environment or working directory", lambda s: re.search(r"(^|::)env::(set_var|remove_var|set_current_dir)$", s)),
    ("installs a panic hook", lambda s: re.search(r"(^|::)panic(king)?::(set_hook|take_hook|update_hook)$", s)),
    ("writes to the file system", lambda s: "::fs::" in s and re.search(r"::(create\w*|write|append|truncate|set_len|set_permissions|remove\w*|rename|copy|hard_link|soft_link|symlink|options|set_times|set_modified)$", s)
     or "OpenOptions" in s or re.search(r"File as (std::)?io::Write|File>::write", s)),
    ("configures the log facade", lambda s: re.search(r"^log::(set_\w*logger\w*|set_max_level)", s)),
]
OPENS = re.compile(r"(^|::)fs::(File::open|read|read_to_string|read_dir|metadata|symlink_metadata|canonicalize|read_link|exists)$")


def tests_out(src):
    """the source without the items that are only compiled for tests"""
    out = src
    while True:
        m = re.search(r"#\[\s*(cfg\s*\(\s*(?:all\s*\(\s*)?test\b[^\]]*|test|bench)\s*\]", out)
        if not m:
            return out
        i = m.end()
        # up to the end of the item: a block or a semicolon
        depth = 0
        while i < len(out):
            ch = out[i]
            if ch in "{([":
                depth += 1
            elif ch in "})]":
                depth -= 1
                if depth == 0 and ch == "}":
                    i += 1
                    break
                if depth < 0:
                    break
            elif ch == ";" and depth == 0:
                i += 1
                break
            i += 1
        out = out[:m.start()] + re.sub(r"[^\n]", " ", out[m.start():i]) + out[i:]


@prop("C33")
def c33(c):
    c.rule("no call in any function or closure of the crate reaches std's standard streams, process::exit and the like, the environment, the working directory, or a file operation that writes")
    c.rule("files are opened, for reading, only where content is sent from a path")
    c.rule("no macro that prints, exits or debugs occurs in the source outside of tests, in any feature configuration")
    p = c.p
    n = 0
    opens = {}
    for bi, b in enumerate(p.bodies):
        if b is None or not b.get("local"):
            continue
        c.units.add(b["path"])
        for cc, span in calls_in(c, bi):
            n += 1
            s = strip_generics(cc["path"])
            where = p.where(span) if span and span[1] else p.where(b["span"])
            for what, pred in EFFECTS:
                if pred(s):
                    c.violation("effect:%s:%s" % (s, strip_generics(b["path"])), where + " " + strip_generics(b["path"]), "the library %s: it calls %s" % (what, s))
            if OPENS.search(s):
                opens.setdefault(bi, []).append((s, where))
        # functions that are passed on instead of called
        for cc, span in c.cg.edges(bi)[0]:
            q = p.callees[cc]
            s = strip_generics(q["path"])
            for what, pred in EFFECTS:
                if pred(s):
                    c.violation("effect:%s:%s" % (s, strip_generics(b["path"])), p.where(b["span"]) + " " + strip_generics(b["path"]), "the library %s: it uses %s" % (what, s))
    c.count("call sites", n)
    c.floor("call sites", 500)
    # who opens files: only what is reached from sending operations that were given a path
    sends = set()
    for f in p.fns:
        if f["body"] is None:
            continue
        whole = [p.types[t]["s"] for t in f["ins"]]
        gives = f["name"] == "send_response" and any("Path" in s for s in whole) or f.get("self") is not None and p.tname(f["self"]) == "Response" and "file" in f["name"]
        if gives:
            sends |= set(c.cg.reachable([f["body"]]))
            c.count("operations that send files")
    public = [f for f in p.fns if f["body"] is not None and (f.get("pub") or f.get("trait"))]
    c.floor("operations that send files", 3)
    for bi, l in opens.items():
        for s, where in l:
            c.count("places where files are opened")
            c.require(bi in sends, "opens:" + strip_generics(p.bodies[bi]["path"]), where, "a file is opened outside of the operations that send files: %s in %s" % (s, p.bodies[bi]["path"]))
    allowed = {f["body"] for f in public if f["body"] in sends}
    for f in public:
        if f["body"] in allowed or "Drop" in f.get("trait", ""):
            continue
        for bi in set(c.cg.reachable([f["body"]], stop=lambda b: b in allowed)) & set(opens):
            if bi not in allowed:
                c.violation("opens-from:" + strip_generics(f["path"]), c.where(f), "a file is opened by an operation that does not send files: %s reaches %s" % (f["path"], p.bodies[bi]["path"]))
    for d, _, fs in sorted(os.walk(os.path.join(c.repo, "src"))):
        for name in sorted(fs):
            if not name.endswith(".rs"):
                continue
            path = os.path.join(d, name)
            src = tests_out(code_only(open(path).read()))
            c.count("source files")
            for m in re.finditer(r"\b(e?print(?:ln)?|dbg)\s*!|\bprocess\s*::\s*(exit|abort)\b|\benv\s*::\s*(set_\w+|remove_var)\b|\bio\s*::\s*(stdout|stderr)\b", src):
                line = src.count("\n", 0, m.start()) + 1
                c.violation("text:" + re.sub(r"\s", "", m.group(0)) + ":" + name, "%s:%d" % (os.path.relpath(path, c.repo), line), "the library prints, ends the process or changes its environment: %s" % m.group(0))
    c.floor("source files", 15)


def counter_ops(cc):
    return is_std(cc) and "::atomic::" in cc["path"] and "Atomic" in cc["path"]


def changes(name):
    return name not in ("load", "new", "fmt", "default")


def c39_panics(c, cnt):
    """A panic in a request ends the connection without a notification: the unwinding out of `handle` has to subtract one, and nothing
    else in there may. Returns the drop implementations that do it."""
    p = c.p
    f = c.fn("ServerInstance", "handle", "Handler")
    if not c.require(f is not None, "anchor:handle", "-", "the request handler of the server cannot be found"):
        return set()
    where = c.where(f)
    counts = lambda cc: counter_ops(cc) and changes(cc["name"])
    touches = lambda bi: c.cg.reaches(bi, "counter", counts)
    foreign = lambda cc: cc["crate"] == p.crate and cc.get("body") is None
    runs_app = lambda bi: c.cg.reaches(bi, "application", foreign)
    # the drop implementations that change it: what each way through them does
    kinds = {}
    guards = set()

    def amount(ti):
        """how a drop of this type changes the counter of the server while panicking: numbers of decrements that are possible"""
        n = {0}
        for x in c.cg.types_dropped(ti):
            d = p.types[x].get("drop")
            if d is not None and p.bodies[d] is not None and touches(d):
                guards.add(d)
                n = {i + j for i in n for j in kinds.get(d) or {0}}
        return n
    drops = set()
    for bi in c.cg.reachable([f["body"]]):
        for ti, sp in c.cg.edges(bi)[2]:
            for x in c.cg.types_dropped(ti):
                d = p.types[x].get("drop")
                if d is not None and p.bodies[d] is not None and touches(d):
                    drops.add(d)

    def rel(eng, st, call, res):
        n = call.name
        if n == "thread::panicking":
            return ("panicking", res)
        if res is None or not counts(call.c):
            return None
        t = eng.target(call.args[0])
        # the guard is analysed inside of `handle`: what it refers to is known
        mine = t == (T("O", T("param", 1)), (("f", 0, cnt),))
        one = len(call.args) > 1 and (call.c["name"] == "fetch_sub" and call.args[1] is INT(1) or call.c["name"] == "fetch_add" and call.args[1].op == "int" and call.args[1].args[0] in (-1, 2 ** 64 - 1))
        return ("count", p.where(call.span) if call.span and call.span[1] else where, mine, one, call.c["name"])

    def opaque(cc):
        if counter_ops(cc):
            return True
        b = cc.get("body")
        # what makes a guard is looked into
        return b is not None and not touches(b) and not (p.bodies[b] and any(p.types[x].get("drop") in drops for x in c.cg.types_dropped(p.bodies[b]["locals"][0])))
    eng = c.engine(rel=rel, opaque=opaque)
    for e in c.run(eng, f, mon=UNIT) or ():
        if e.kind != "return":
            continue
        c.count("ways through a request")
        pan = [x[1] for x in e.trace if x[0] == "panicking"]
        known = [eng.known(e.st, x) for x in pan]
        ev = [x for x in e.trace if x[0] == "count"]
        det = trace_text(e.trace) + facts_text(e.facts)
        for x in ev:
            c.require(x[2], "other-counter", x[1], "a request changes a counter that is not known to be the server's count of busy threads (%s)" % x[4], det)
        if any(k == 0 for k in known):
            c.require(not ev, "request:count", where, "a request that does not panic changes the number of busy threads", det)
        else:
            c.require(len(ev) == 1 and ev[0][3], "panic:by-one", ev[0][1] if ev else where, "a request that panics changes the number of busy threads %d times%s" % (len(ev), "" if not ev else ", by " + ev[0][4]), det)
    for d in drops:
        kinds[d] = {1}
    # unwinding

    tables = {}

    def flags(bi):
        """what the drop flags of a body may be at the end of each block: {block: {local: set of values}}"""
        if bi in tables:
            return tables[bi]
        b = p.bodies[bi]
        sets = {}
        for i, blk in enumerate(b["blocks"]):
            for s in blk["s"]:
                if s[0] == "=" and not s[1][1:]:
                    sets.setdefault(s[1][0], []).append(constant(s[2]))
        good = {l for l, vs in sets.items() if None not in vs and p.types[b["locals"][l]]["s"] == "bool"}
        at = {0: {l: frozenset((0,)) for l in good}}
        res, work = {}, [0]
        while work:
            i = work.pop()
            cur = dict(at[i])
            for s in b["blocks"][i]["s"]:
                if s[0] == "=" and not s[1][1:] and s[1][0] in good:
                    cur[s[1][0]] = frozenset((constant(s[2]),))
            res[i] = cur
            for j in succs(b["blocks"][i]):
                new = {l: at.get(j, {}).get(l, frozenset()) | cur[l] for l in good}
                if at.get(j) != new:
                    at[j] = new
                    work.append(j)
        tables[bi] = res
        return res

    def constant(rv):
        v = rv[1][1].get("v") if rv[0] == "use" and rv[1][0] == "k" else None
        return int(v["int"]) if isinstance(v, dict) and "int" in v else None

    def succs(blk):
        t = blk["t"]
        r = {"goto": lambda: [t[1]], "switch": lambda: [x[1] for x in t[2]] + [t[3]], "drop": lambda: [t[2]], "call": lambda: [t[4]], "assert": lambda: [t[5]]}.get(t[0], lambda: [])()
        return [x for x in r + [blk.get("u")] if x is not None]

    def cleanup(bi, start, before):
        """numbers of decrements on the ways from a cleanup block to the end of the unwinding"""
        blocks = p.bodies[bi]["blocks"]
        known = flags(bi).get(before, {})
        out, seen, work = set(), set(), [(start, 0)]
        while work:
            at, n = work.pop()
            if (at, n) in seen or n > 3:
                continue
            seen.add((at, n))
            t = blocks[at]["t"]
            if t[0] == "resume":
                out.add(n)
            elif t[0] == "goto":
                work.append((t[1], n))
            elif t[0] == "switch":
                vs = known.get(t[1][1][0]) if t[1][0] in ("c", "m") and not t[1][1][1:] else None
                tab = dict((int(x[0]), x[1]) for x in t[2])
                work += [(x[1], n) for x in t[2]] + [(t[3], n)] if vs is None else [(tab.get(v, t[3]), n) for v in vs]
            elif t[0] == "drop":
                work += [(t[2], n + k) for k in amount(t[3])]
            elif t[0] == "call" and t[4] is not None:
                work.append((t[4], n))
            elif t[0] == "assert":
                work.append((t[5], n))
        return out
    memo = {}

    def unwinds(bi):
        """[(numbers of decrements, place)] of the panics of application code that leave this body"""
        if bi in memo:
            return memo[bi]
        memo[bi] = []
        b = p.bodies[bi]
        out = []
        for bn, blk in enumerate(b["blocks"]):
            t = blk["t"]
            if blk.get("c") or t[0] not in ("call", "drop"):
                continue
            inner = None
            if t[0] == "call":
                if t[1][0] != "fn":
                    inner, sp = [({0}, None)], t[-1]
                else:
                    cc, sp = p.callees[t[1][1]], t[-1]
                    subs = [x for x in (cc.get("body"),) if x is not None and p.bodies[x] is not None]
                    if foreign(cc):
                        inner = [({0}, None)]
                    elif subs and p.bodies[subs[0]].get("local"):
                        inner = unwinds(subs[0]) if runs_app(subs[0]) else None
                    else:
                        # closures given to the standard library
                        cl = [x for a in t[6] for x in [p.types[a].get("body")] if p.types[a]["k"] == "closure" and x is not None and runs_app(x)]
                        inner = [({0}, None)] if cl else None
            else:
                sp = t[4]
                ds = [p.types[x].get("drop") for x in c.cg.types_dropped(t[3])]
                ds = [d for d in ds if d is not None and p.bodies[d] is not None and d not in drops and runs_app(d)]
                inner = [x for d in ds for x in unwinds(d)] or None
            if inner is None:
                continue
            after = cleanup(bi, blk["u"], bn) if blk.get("u") is not None else {0}
            w = (p.where(tuple(sp)) if sp and sp[1] else p.where(b["span"])) + " " + strip_generics(b["path"])
            for ns, place in inner:
                out.append(({i + j for i in ns for j in after}, place or w))
        memo[bi] = out
        return out
    for ns, place in unwinds(f["body"]):
        c.count("places where application code may panic")
        c.require(ns == {1}, "panic:" + place.split(" ")[-1], place, "a panic that comes from here ends the connection, but the number of busy threads is then lowered %s times" % " or ".join(str(x) for x in sorted(ns)))
    c.floor("places where application code may panic", 3)
    return guards


@prop("C39")
def c39(c):
    c.rule("every panic of application code that unwinds out of a request passes exactly one drop that subtracts one from that server's counter while panicking, and nothing otherwise")
    c.rule("every way through on_connection_start adds exactly one to the counter with a single atomic operation; every way through on_connection_end subtracts exactly one")
    c.rule("no other function of the crate changes the counter, and a server starts with zero busy threads")
    p = c.p
    cnt = c.field("ServerInstance", lambda n, ti: "Atomic" in p.tstr(ti))
    if not c.require(cnt is not None, "anchor:counter", "-", "the counter of busy threads cannot be found"):
        return
    ti = c.type_of("ServerInstance")
    roots = {}
    for name, op in (("on_connection_start", "fetch_add"), ("on_connection_end", "fetch_sub")):
        f = c.fn("ServerInstance", name, "Handler", optional=True)
        if not c.require(f is not None, "counts:" + name, "-", "%s is not implemented, so that busy threads are not counted" % name):
            continue
        where = c.where(f)
        roots[f["body"]] = name

        def rel(eng, st, call, res):
            if res is None or not counter_ops(call.c) or not changes(call.c["name"]):
                return None
            t = eng.target(call.args[0])
            if t[1] != (("f", 0, cnt),):
                return None
            return ("count", p.where(call.span) if call.span and call.span[1] else where, call.c["name"], tuple(call.args[1:]))
        eng = c.engine(rel=rel, opaque=lambda cc: counter_ops(cc))
        for e in c.run(eng, f, mon=UNIT) or ():
            if e.kind != "return":
                continue
            c.count("ways through " + name)
            ev = [x for x in e.trace if x[0] == "count"]
            det = trace_text(e.trace) + facts_text(e.facts)
            loops = [x for x in e.trace if x[0] == "loop"]
            if c.require(len(ev) == 1 and not loops, "once:" + name, where, "%s changes the counter %d times" % (name, len(ev)), det):
                x = ev[0]
                one = len(x[3]) > 0 and (x[2] == op and x[3][0] is INT(1) or x[2] in ("fetch_add", "fetch_sub") and x[2] != op and x[3][0].op == "int" and x[3][0].args[0] in (-1, 2 ** 64 - 1))
                c.require(one, "by-one:" + name, x[1], "%s changes the counter by %s(%s)" % (name, x[2], ", ".join(short(y) for y in x[3])), det)
        c.floor("ways through " + name, 1)
    guards = c39_panics(c, cnt)
    # everybody else
    callers = {}
    for bi, b in enumerate(p.bodies):
        if b is not None and b.get("local"):
            for s in c.cg.succ_bodies(bi):
                callers.setdefault(s, set()).add(bi)
    def only_from(bi, seen=()):
        if bi in roots or bi in guards:
            return True
        f = [f for f in p.fns if f["body"] == bi]
        if not callers.get(bi) or any(x.get("pub") or x.get("trait") for x in f):
            return False
        return all(x in seen or only_from(x, seen + (bi,)) for x in callers[bi])
    for bi, b in enumerate(p.bodies):
        if b is None or not b.get("local"):
            continue
        for cc, span in calls_in(c, bi):
            if not counter_ops(cc):
                continue
            c.count("operations on atomics")
            if not changes(cc["name"]) or only_from(bi):
                continue
            c.violation("changed:" + strip_generics(b["path"]), (p.where(span) if span and span[1] else p.where(b["span"])) + " " + strip_generics(b["path"]),
                        "the counter of busy threads is changed outside of the start and end of a connection: %s" % cc["path"])
    c.floor("operations on atomics", 4)
    for f in p.fns:
        if f["body"] is None or f["out"] != ti or not f.get("pub") or f["ins"] == [ti]:
            continue
        where = c.where(f)
        r = Run(c, f, also=counter_ops, far=False)
        for e in r.exits:
            x = r.eng.sel(e.ret, ("f", 0, cnt))
            o = r.eng.origin.get(x)
            c.count("ways to make a server")
            zero = o is not None and o.c["name"] in ("new", "from") and o.args[0] is INT(0) or o is not None and o.c["name"] == "default"
            c.require(zero, "start", where, "a server does not start with zero busy threads: %s" % short(x), trace_text(e.trace))
    c.floor("ways to make a server", 1)


@prop("C28")
def c28(c):
    c.rule("every field of the running server is the configured value, unchanged; without a configured number of threads it is computed from the number of processors as documented")
    c.rule("running binds once to the configured address, sets the configured keep-alive timeout, or none, and serves with the server itself and the configured number of threads; SSL uses the given implementation")
    c.rule("the defaults are the documented ones")
    c.rule("requests are handled by the configured handlers; contexts, responses and filters get the configured filters and global data")
    p = c.p
    ci, si = c.type_of("Server"), c.type_of("ServerInstance")
    if not c.require(ci is not None and si is not None, "anchor:server", "-", "the types of servers cannot be found"):
        return
    cf = {n: i for i, (n, t) in enumerate(p.types[ci]["vs"][0]["fs"])}
    need = ("handlers", "host", "threads", "keep_alive", "server", "content_type", "global", "context_filters", "response_filters")
    if not c.require(all(n in cf for n in need), "anchor:config", "-", "the configuration has other fields than before: %s" % sorted(cf)):
        return

    def sf(pred):
        return c.field("ServerInstance", pred)
    def is_(t, x):
        return p.types[t]["k"] == "adt" and p.types[t]["path"] == p.types[x]["path"]
    fields = {
        "handlers": sf(lambda n, t: p.types[t]["k"] == "param"),
        "host": sf(lambda n, t: p.types[t]["s"] == SOCKET or p.tname(t) == "Host"),
        "threads": sf(lambda n, t: p.types[t]["s"] == "usize"),
        "keep_alive": sf(lambda n, t: "KeepAlive" in p.tstr(t)),
        "server": sf(lambda n, t: p.tname(t) == "String"),
        "content_type": sf(lambda n, t: p.tname(t) == "Mime"),
        "global": sf(lambda n, t: p.tname(t) == "Global"),
        "context_filters": sf(lambda n, t: "ContextFilter" in p.tstr(t)),
        "response_filters": sf(lambda n, t: "ResponseFilter" in p.tstr(t)),
    }
    if not c.require(None not in fields.values(), "anchor:instance", "-", "parts of the running server cannot be found: %s" % [k for k in fields if fields[k] is None]):
        return
    one = T("param", 1)
    KT = [i for i, (n, t) in enumerate(c.struct("KeepAlive")["vs"][0]["fs"]) if n == "timeout"] if c.struct("KeepAlive") else []
    if not c.require(len(KT) == 1, "anchor:keep-alive", "-", "the keep-alive timeout cannot be found"):
        return

    def cpus(eng, x, v):
        """(n * 5) / 4"""
        if x.op != "bin" or x.args[0] != "Div" or x.args[2] is not INT(4):
            return False
        m = x.args[1]
        if m.op == "bin" and m.args[0] == "Mul":
            a = [y for y in m.args[1:] if y is not INT(5)]
            k = INT(5) in m.args[1:]
        elif m.op == "sum" and m.args[0] == 0 and len(m.args[1]) == 1 and m.args[1][0][1] == 5:
            a, k = [m.args[1][0][0]], True
        else:
            return False
        o = eng.origin.get(a[0]) if len(a) == 1 else None
        return k and o is not None and o.c["crate"] == "num_cpus" and o.c["name"] == "get"

    def value(eng, v, k, x, conf, where, det):
        """is x what the configuration says about k?"""
        want = fld(conf, 0, cf[k])
        if k == "host":
            while x.op == "agg" and p.last(x.args[0]) == "Host":
                x = x.args[2][0]
            okay = x is fld(want, 0, 0) or x is want
        elif k == "threads":
            d = eng.known(v, eng.discr(want))
            if x.op == "app" and x.args[0].split("::")[-1] in ("unwrap_or",):
                okay = x.args[1][0] is want and cpus(eng, x.args[1][1], v)
            else:
                okay = d == 1 and x is fld(want, 1, 0) or d == 0 and cpus(eng, x, v)
        else:
            okay = x is want or not diffs(eng, x, want)
        c.require(okay, "value:" + k, where, "the server does not use the configured %s but %s" % (k, short(x)), det)

    NET = ("http", "https", "keep_alive", "handle_threads", "handle", "set_read_timeout", "set_write_timeout", "new")

    def net(cc):
        return cc["crate"] == "hyper" and "Server" in cc["path"] and cc["name"] in NET
    def num(cc):
        return cc["crate"] == "num_cpus"
    for f in p.fns:
        if f["body"] is None or not (f.get("pub") or f.get("trait")):
            continue
        where = c.where(f)
        ins = f["ins"]
        if is_(f["out"], si) and len(ins) == 1 and is_(ins[0], ci):
            r = Run(c, f, also=num, far=False)
            for e in r.exits:
                c.count("ways to build a server")
                for k, i in fields.items():
                    value(r.eng, View(e), k, r.eng.sel(e.ret, ("f", 0, i)), one, where, facts_text(e.facts))
        elif ins and (is_(ins[0], ci) or is_(ins[0], si)) and "Listening" in p.types[f["out"]]["s"]:
            r = Run(c, f, also=lambda cc: net(cc) or num(cc), far=False)
            conf = is_(ins[0], ci)
            ssl = len(ins) == 2
            for e in r.exits:
                v = View(e)
                eng = r.eng
                ev = [x for x in r.events(e) if not x[0].startswith("num_cpus")]
                names = [x[0].split("::")[-1] for x in ev]
                det = trace_text(e.trace) + facts_text(e.facts)
                c.count("ways to run a server")
                if not c.require(names[:1] == [("https" if ssl else "http")], "bind", where, "running a server does not begin with binding it: %s" % names, det):
                    continue
                a = ev[0][2]
                if conf:
                    value(eng, v, "host", a[0], one, where, det)
                else:
                    c.require(a[0] is fld(one, 0, fields["host"]) or bare(a[0]) is fld(one, 0, fields["host"]), "bind-address", ev[0][1], "the server listens on another address: %s" % short(a[0]), det)
                if ssl:
                    c.require(len(a) == 2 and bare(a[1]) is T("param", 2), "ssl", ev[0][1], "not the given SSL implementation is used", det)
                bound = ev[0][3]
                if len(names) == 1:
                    c.require(eng.known(v, eng.discr(bound)) == 1 and eng.known(v, eng.discr(e.ret)) == 1, "not-started", where, "the server is not started although it is bound", det)
                    c.count("ways to fail to bind")
                    continue
                if not c.require(names[1:] == ["keep_alive", "handle_threads"], "run-steps", where, "after binding, the keep-alive timeout is not set once and the server started once: %s" % names, det):
                    continue
                c.require(e.ret is ev[2][3] or not diffs(eng, e.ret, ev[2][3]), "run-result", where, "the running server is not what is returned", det)
                def from_bound(x):
                    x = bare(x)
                    while x.op == "upd":
                        x = bare(x.args[2])
                    return x is fld(bound, 0, 0)
                c.require(from_bound(ev[1][2][0]) and from_bound(ev[2][2][0]), "run-bound", where, "something else than the bound server is run", det)
                ka = fld(one, 0, cf["keep_alive"] if conf else fields["keep_alive"])
                d = eng.known(v, eng.discr(ka))
                x = ev[1][2][1]
                time = fld(fld(ka, 1, 0), 0, KT[0])
                good = d == 0 and x.op == "agg" and x.args[1] == 0 or d == 1 and x.op == "agg" and x.args[1] == 1 and bare(x.args[2][0]) is time
                c.require(good, "keep-alive", ev[1][1], "the keep-alive timeout is not the configured one: %s" % short(x), det)
                srv, th = ev[2][2][1], ev[2][2][2]
                if conf:
                    value(eng, v, "threads", th, one, where, det)
                    for k, i in fields.items():
                        value(eng, v, k, eng.sel(srv, ("f", 0, i)), one, where, det)
                else:
                    c.require(th is fld(one, 0, fields["threads"]), "threads", ev[2][1], "the server runs with another number of threads: %s" % short(th), det)
                    c.require(srv is one or not diffs(eng, srv, one), "served", ev[2][1], "something else than the configured server is run: %s" % short(srv), det)
        elif is_(f["out"], ci) and (f["name"] == "default" or f["name"] == "new" and len(ins) == 1):
            r = Run(c, f, far=False)
            for e in r.exits:
                c.count("ways to get defaults")
                g = lambda k: r.eng.deepval(e.st, r.eng.sel(e.ret, ("f", 0, cf[k])))
                det = [short(e.ret, 500)]
                if ins:
                    c.require(g("handlers") is one, "default:handlers", where, "a new server has other handlers: %s" % short(g("handlers")), det)
                A = Addr(r.eng, View(e))
                c.require(A.of(r.eng.sel(g("host"), ("f", 0, 0))) == (0, T("zero"), INT(80), INT(0), INT(0)), "default:host", where, "the default host is not 0.0.0.0:80: %s" % short(g("host")), det)
                for k in ("threads", "keep_alive"):
                    c.require(g(k).op == "agg" and g(k).args[1] == 0, "default:" + k, where, "%s are not left to the default: %s" % (k, short(g(k))), det)
                s = g("server")
                c.require(s.op == "str" and s.args[0] == "rustful" or bare(s).op == "str" and bare(s).args[0] == "rustful", "default:server", where, "the default server name is not \"rustful\": %s" % short(s), det)
                m = g("content_type")
                okay = False
                if m.op == "agg" and len(m.args[2]) == 3:
                    t, s, q = m.args[2]
                    okay = vname(c, t) == "Text" and vname(c, s) == "Html" and q.op == "vpush" and q.args[0].op == "vnew" and q.args[1].op == "agg" and [vname(c, x) for x in q.args[1].args[2]] == ["Charset", "Utf8"]
                c.require(okay, "default:content_type", where, "the default content type is not text/html; charset=utf-8: %s" % short(m), det)
                gl = g("global")
                inner = r.eng.sel(gl, ("f", 0, 0))
                c.require(inner.op == "agg" and not inner.args[2], "default:global", where, "the default global data is not empty: %s" % short(gl), det)
                for k in ("context_filters", "response_filters"):
                    c.require(g(k).op == "vnew", "default:" + k, where, "there are %s by default: %s" % (k, short(g(k))), det)
    for k, n in (("ways to build a server", 2), ("ways to run a server", 8), ("ways to fail to bind", 2), ("ways to get defaults", 2)):
        c.floor(k, n)
    # what requests get
    me = T("deref", one)
    gctx = c.field("Context", lambda n, t: p.tname(p.types[t].get("e", t)) == "Global")
    grsp = c.field("Response", lambda n, t: p.tname(p.types[t].get("e", t)) == "Global")
    frsp = c.field("Response", lambda n, t: "ResponseFilter" in p.tstr(t))
    gflt = c.field("FilterContext", lambda n, t: p.tname(p.types[t].get("e", t)) == "Global")
    ectx = c.field("Environment", lambda n, t: p.tname(t) == "Context")
    if not c.require(None not in (gctx, grsp, frsp, gflt, ectx), "anchor:parts", "-", "the parts of contexts and responses that come from the configuration cannot be found"):
        return

    def leads(eng, x, k):
        t = bare(x)
        want = fld(me, 0, fields[k])
        if t is want or bare(want) is t:
            return True
        if x.op in ("ref", "&", "vref"):
            root, path = eng.target(x)
            return root is T("O", one) and path == (("f", 0, fields[k]),)
        return False

    def tell(kind, eng, st, where, m, a, b):
        det = trace_text(st.trace)
        if kind == "modify":
            x = fld(b.args[1], 0, gflt) if b.args[1].op != "agg" else b.args[1].args[2][gflt]
            c.count("calls of context filters")
            c.require(leads(eng, x, "global"), "filter-global", where, "a context filter does not get the configured global data: %s" % short(x), det)
            context(eng, st, eng.load(st, *eng.target(b.args[2])), where, m, det)
        if kind in ("handle", "drop") and m["handled"] is INT(0):
            resp = a
            c.count("responses")
            x = eng.sel(resp, ("f", 0, grsp))
            c.require(leads(eng, x, "global"), "response-global", where, "the response does not get the configured global data: %s" % short(x), det)
            x = eng.sel(resp, ("f", 0, frsp))
            c.require(leads(eng, x, "response_filters"), "response-filters", where, "the response does not get the configured response filters: %s" % short(x), det)
        if kind == "handle":
            c.count("calls of handlers")
            c.require(leads(eng, b.args[0], "handlers"), "handlers", where, "the request is not handled by the configured handlers: %s" % short(b.args[0]), det)
            context(eng, st, fld(b.args[1], 0, ectx), where, m, det)

    def context(eng, st, ctx, where, m, det):
        """before anyone can have changed it"""
        if m["n"] is INT(0):
            while ctx.op == "upd":
                ctx = ctx.args[2]
            x = eng.sel(ctx, ("f", 0, gctx))
            c.count("contexts")
            c.require(leads(eng, x, "global"), "context-global", where, "the context does not get the configured global data: %s" % short(x), det)
    run_handle(c, tell)
    for k in ("calls of context filters", "responses", "calls of handlers", "contexts"):
        c.floor(k, 1)


def vname(c, x):
    """name of the variant of an aggregate"""
    if x.op != "agg" or not isinstance(x.args[1], int):
        return None
    for t in c.p.types:
        if t["k"] == "adt" and t["path"] == x.args[0] and t.get("vs"):
            return t["vs"][x.args[1]]["n"]
    return None
