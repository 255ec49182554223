"""What requests share (C34), the connection counter (C39), effects on the process (C33)."""
import re
from terms import *
from rules import prop
from rules.witness import witnesses
from rules.common import *
from ctx import short, trace_text, facts_text

MUTABLE = re.compile(r"\b(Cell|RefCell|UnsafeCell|Mutex|RwLock|Atomic\w*|Once|OnceCell|OnceLock|LazyCell|LazyLock|LocalKey|Condvar|Barrier|Sender|SyncSender|Receiver|SyncUnsafeCell|lazy_static::\w+)\b")
COUNTER = re.compile(r"\bAtomic\w*(<usize>)?\b")


@prop("C34")
def c34(c):
    c.rule("no static of the library is mutable or has a type with interior mutability; none is thread local")
    c.rule("no type of the library has a field with interior mutability, except one atomic counter in the server instance; no type holds a raw pointer; Send and Sync are implemented by the compiler only")
    c.rule("client programs that share something that is not thread safe, change what is shared, or keep or reuse what belongs to a finished request are rejected by the type checker, while their twins without that step are accepted")
    p = c.p
    for i in p.items:
        k = i["kind"]
        if k.startswith("Static"):
            c.count("statics")
            c.require("mutability: Mut" not in k and i.get("freeze", True) and not MUTABLE.search(i["tys"]), "static:" + i["path"], p.where(i["span"]), "static %s can be changed: %s" % (i["path"], i["tys"]))
        if k.startswith("Const") and "tys" in i:
            c.require("LocalKey" not in i["tys"], "static:" + i["path"], p.where(i["span"]), "%s is thread local state" % i["path"])
        if "fields" in i:
            c.count("types")
            for n, t, pub in i["fields"]:
                c.count("fields")
                # what is borrowed has an owner, which is judged there
                m = MUTABLE.search(t) if not re.match(r"&'(?!static\b)", t) else None
                counter = i["path"].split("::")[-1] == "ServerInstance" and not pub and re.fullmatch(r"(std|core)::sync::atomic::Atomic(\w+|<usize>)", t) is not None
                if m and counter:
                    c.count("atomic counters")
                    continue
                c.require(not m, "field:%s.%s" % (i["path"], n), p.where(i["span"]), "field %s of %s is shared state that can be changed: %s" % (n, i["path"], t))
                c.require("*mut " not in t and "*const " not in t, "pointer:%s.%s" % (i["path"], n), p.where(i["span"]), "field %s of %s is a raw pointer" % (n, i["path"]))
        if k.startswith("Impl") and "trait" in i:
            tr = re.search(r" as ([\w:]+)", i["trait"])
            if tr and tr.group(1).split("::")[-1] in ("Send", "Sync"):
                c.require(False, "thread-safety:" + i["path"], p.where(i["span"]), "thread safety is claimed by hand: %s" % i["trait"])
    c.require(c.counts.get("atomic counters", 0) <= 1, "counters", "-", "the server instance shares %d counters" % c.counts.get("atomic counters", 0))
    for bi, b in enumerate(p.bodies):
        if b is None or not b.get("local"):
            continue
        for cc, sp in c.cg.edges(bi)[0]:
            n = p.callees[cc]["short"]
            c.count("calls")
            c.require(not n.startswith(("LocalKey::", "thread::local")), "thread-local:" + b["path"], p.where(sp) if sp else b["path"], "thread local state is used")
    c.floor("statics", 1)
    c.floor("types", 40)
    witnesses(c, "C34")
    c.floor("compile-fail witnesses", 30)
