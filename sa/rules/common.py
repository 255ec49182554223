"""Things that several rules share: monitors and the operations that reach the connection or a file."""
from terms import *
import terms
from ctx import short, facts_text, trace_text

RESULT = "std::result::Result"
OPTION = "std::option::Option"
ON = T("agg", "flag", 1, ())
OFF = T("agg", "flag", 0, ())


def ok(x):
    return T("agg", RESULT, 0, (x,))


def err(x):
    return T("agg", RESULT, 1, (x,))


class Mon:
    """a record of monitor variables kept in a state's mon"""
    def __init__(self, **init):
        self.keys = tuple(init)
        self.init = init

    def start(self):
        return T("agg", "mon", 0, tuple(self.init[k] for k in self.keys))

    def get(self, st, k):
        return st.mon.args[2][self.keys.index(k)]

    def put(self, st, **kw):
        st.mon = self.with_(st.mon, **kw)

    def with_(self, m, **kw):
        v = list(m.args[2])
        for k, x in kw.items():
            v[self.keys.index(k)] = x
        return T("agg", "mon", 0, tuple(v))

    def of(self, m):
        return dict(zip(self.keys, m.args[2]))


class View:
    """just enough of a state to ask for facts at an exit"""
    def __init__(self, e):
        self.facts = e.facts
        self.mem = e.mem


def errtype(c, ti):
    """the error type of a Result type, or None"""
    if ti is None:
        return None
    t = c.p.types[ti]
    if t["k"] == "adt" and t["path"] == RESULT and len(t.get("args", ())) == 2:
        return t["args"][1]
    return None


def to_memory(c, cc):
    """is this Read or Write operation one on memory, which cannot fail?"""
    a = cc["args"][0] if cc.get("args") else None
    return a is not None and c.p.tname(a) in ("Vec", "String", "[T]")


STD_IO = {"Write::write_all", "Write::write_fmt", "Read::read_to_end", "Read::read_to_string", "Read::read_exact", "io::copy"}


def is_io(c, cc, dty=None):
    """an operation on the connection, a file or a listener that may fail and that is not part of this crate"""
    n = cc["short"]
    if n.endswith("SendResponse::send_response"):
        return cc.get("kind") in ("param", "virtual")
    b = cc.get("body")
    if b is not None and c.p.bodies[b] is not None and c.p.bodies[b].get("local"):
        return False
    if n in STD_IO:
        return not to_memory(c, cc)
    if cc.get("out") is None and dty is None:
        return n.split("::")[0] in ("Read", "Write", "Seek", "File", "hyper") and n.split("::")[-1] in ("read", "write", "flush", "seek", "open", "metadata", "send", "start", "end")
    if n.split("::")[0] in ("Result", "Option", "FromResidual", "Try", "Into", "From", "Error", "FromStr", "str", "ToSocketAddrs"):
        return False
    et = errtype(c, dty if dty is not None else cc.get("out"))
    if et is None:
        return False
    s = c.p.tstr(et)
    return (s in ("std::io::Error", "hyper::Error") or s.endswith("io::Error")) and not to_memory(c, cc)


def counted(t, v):
    """(collection, index, is there one) if assuming v of t tells whether a collection has an index-th element"""
    if t.op == "len":
        return t.args[0], INT(0), v != 0
    if t.op == "eq" and t.args[0].op == "len" and t.args[1] is INT(0):
        return t.args[0].args[0], INT(0), v != 1
    if t.op == "eq" and t.args[1].op == "len" and t.args[0] is INT(0):
        return t.args[1].args[0], INT(0), v != 1
    if t.op != "lt":
        return None
    i, l = t.args
    if l.op == "sum":
        n = [x for x, k in l.args[1] if k == 1 and x.op == "len"]
        if len(n) != 1:
            return None
        i = terms.sub(i, terms.sub(l, n[0]))
        l = n[0]
    if l.op != "len":
        return None
    return l.args[0], i, v == 1
