"""What is shown: the text and the values that a fmt function passes on, and what errors say about themselves (C53)."""
import struct
from terms import *
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import *
from rules.routers import last2
from rules.links import bare, keeps_bytes
from rules.text import Texts, text

ONE = T("param", 1)


def literal(x):
    """the bytes of a literal, or None"""
    y = text(bare(x))[0]
    if y.op == "str":
        return y.args[0].encode() if isinstance(y.args[0], str) else y.args[0]
    if y.op == "bytes":
        return y.args[0]
    return None


def passed(x):
    """pieces of fmt::Arguments, or None if they are not known"""
    x = bare(x)
    if x.op != "app":
        return None
    n = last2(x.args[0])
    a = x.args[1]
    if n in ("Arguments::from_str", "Arguments::from_str_nonconst"):
        s = literal(a[0])
        return None if s is None else [("str", s)]
    if n != "Arguments::new" or len(a) != 2:
        return None
    b = literal(a[0])
    v = bare(a[1])
    if b is None or v.op != "agg":
        return None
    out, i, k = [], 0, 0
    while i < len(b) and b[i]:
        t = b[i]
        i += 1
        if t < 0x80:
            out.append(("str", b[i:i + t]))
            i += t
        elif t == 0x80:
            t, = struct.unpack_from("<H", b, i)
            out.append(("str", b[i + 2:i + 2 + t]))
            i += 2 + t
        else:
            plain = t == 0xC0
            i += (4 if t & 1 else 0) + (2 if t & 2 else 0) + (2 if t & 4 else 0)
            if t & 8:
                k, = struct.unpack_from("<H", b, i)
                i += 2
            if k >= len(v.args[2]):
                return None
            y = bare(v.args[2][k])
            k += 1
            if y.op != "app" or not last2(y.args[0]).startswith("Argument::new_"):
                return None
            out.append(("val", y.args[1][0], last2(y.args[0])[14:], plain))
    return out


def shows(cc):
    """is this a function that shows a value of its own?"""
    return last2(cc["short"]).endswith("::fmt")


def shown(eng, st, call, res):
    """the pieces that this call shows, as an event; None if it shows nothing"""
    if res is None:
        return None
    n = last2(call.name)
    if n.endswith("::fmt") and len(call.args) == 2:
        how = call.c.get("full") or call.name
        return ("fmt", (("val", eng.deepval(st, call.args[0]), "debug" if "Debug" in how else "display" if "Display" in how else "", True),), res)
    if n in ("Formatter::write_str", "Formatter::pad", "Write::write_str"):
        x = eng.deepval(st, call.args[1])
        s = literal(x)
        return ("fmt", (("str", s) if s is not None else ("val", x, "display", True),), res)
    if n in ("Formatter::write_fmt", "Write::write_fmt", "fmt::write"):
        ps = passed(eng.deepval(st, call.args[1]))
        return ("fmt", None if ps is None else tuple(ps), res)
    ty, m = n.split("::")[-2:] if "::" in n else ("", n)
    if ty == "Formatter" and m.startswith("debug_") or ty.startswith("Debug") and m in ("field", "entry", "key", "value"):
        out = []
        for x in call.args[1:]:
            x = eng.deepval(st, x)
            s = literal(x)
            if s is None:
                # the fields of a derived implementation come as an array
                y = bare(x)
                out += [("val", z, "debug", True) for z in (y.args[2] if y.op == "agg" and y.args[0] == "array" else (x,))]
            else:
                out.append(("str", s))
        return ("fmt", tuple(out), res)
    if ty.startswith("Debug") and m in ("finish", "finish_non_exhaustive"):
        return None
    if n.split("::")[0] in ("Formatter", "DebugStruct", "DebugTuple", "DebugMap", "DebugList"):
        return ("fmt", None, res)
    return None


def pieces(e):
    """all that is shown on a way out of a function, neighbouring literals as one; None if some of it is not known"""
    out = []
    for x in e.trace:
        if x[0] != "fmt":
            continue
        if x[1] is None:
            return None
        for y in x[1]:
            s = y[1] if y[0] == "str" else literal(y[1]) if y[2] == "display" and y[3] else None
            if s is None:
                out.append(y)
            elif out and out[-1][0] == "str":
                out[-1] = ("str", out[-1][1] + s)
            elif s:
                out.append(("str", s))
    return out


def broken(e):
    """did the formatter refuse something on this way, so that the rest is not shown?"""
    v = View(e)
    for x in e.trace:
        if x[0] == "fmt":
            for t, d in v.facts.items():
                if t.op == "discr" and t.args[0] is x[2] and d == 1:
                    return True
    return False


def place(x):
    """the place that this is, through references and conversions that keep it"""
    return text1(x)


def text1(x):
    while True:
        y = bare(x)
        if y.op == "app" and len(y.args[1]) == 1 and keeps_bytes(y.args[0]):
            y = y.args[1][0]
        if y is x:
            return x
        x = y


def known_variant(v, x):
    for t, d in v.facts.items():
        if t.op == "discr" and isinstance(d, int) and bare(t.args[0]) is x:
            return d
    return None


@prop("C53")
def c53(c):
    c.rule("what is displayed of an error has one variable part, and that is what the filter said or the I/O error, displayed with no options; the text around it is different for each kind of failure")
    c.rule("the description of an error is what the filter said or the description of the I/O error; its cause is that I/O error, or nothing if a filter failed")
    c.rule("an I/O error that becomes a response error is in it, as such")
    p = c.p
    filt = c.variant("Error", "Filter")
    io = c.variant("Error", "Io")
    kinds = {"Error": 2, "FileError": 2}
    if not c.require(None not in (filt, io), "anchor:Error", "-", "the kinds of response errors cannot be found"):
        return
    me = ONE

    def kind_of(ti):
        while p.types[ti]["k"] == "ref":
            ti = p.types[ti]["e"]
        t = p.types[ti]
        return p.tname(ti) if t["k"] == "adt" and t["path"].startswith("response::") else None

    for f in p.fns:
        if f["body"] is None or not f.get("trait"):
            continue
        tr = f["trait"].split("<")[0].split("::")[-1]
        n = f["name"]
        where = c.where(f)
        if tr == "From" and n == "from" and kind_of(f["out"]) == "Error" and p.tname(f["ins"][0]) == "Error":
            c.count("conversions")
            for e in c.run(c.engine(), f, mon=UNIT) or ():
                if e.kind == "return":
                    x = e.ret
                    c.require(x.op == "agg" and x.args[1] == io and x.args[2] == (ONE,), "from", where, "an I/O error becomes %s" % short(x))
            continue
        ty = kind_of(f["ins"][0]) if f["ins"] else None
        if ty not in kinds:
            continue
        if tr == "Display" and n == "fmt":
            c.count("displays")
            said = {}
            for e in c.run(c.engine(rel=shown, opaque=shows), f, mon=UNIT) or ():
                if e.kind != "return" or broken(e):
                    continue
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                d = known_variant(v, me)
                ps = pieces(e)
                if not c.require(d is not None, "kind:" + ty, where, "what kind of failure it is does not decide what is displayed", det):
                    continue
                if not c.require(ps is not None, "pieces:" + ty, where, "it is not known what is displayed", det):
                    continue
                vals = [x for x in ps if x[0] == "val"]
                good = len(vals) == 1 and vals[0][2] == "display" and vals[0][3] and (place(vals[0][1]) is T("fld", me, d, 0) or described(v, vals[0][1], d))
                c.require(good, "shown:%s%d" % (ty, d), where, "what is displayed of the failure is %s" % ", ".join(short(x[1]) for x in vals), det)
                said[d] = b"".join(x[1] if x[0] == "str" else b"{}" for x in ps)
            c.require(len(said) == kinds[ty], "all:" + ty, where, "not every kind of failure can be displayed: %s" % sorted(said))
            c.require(len(set(said.values())) == len(said), "apart:" + ty, where, "different kinds of failure are displayed with the same text: %s" % said)
        elif tr == "Error" and n in ("description", "cause", "source"):
            c.count("accessors")
            for e in c.run(c.engine(), f, mon=UNIT) or ():
                if e.kind != "return":
                    continue
                v = View(e)
                det = trace_text(e.trace) + facts_text(e.facts)
                d = known_variant(v, me)
                isio = d is not None and not (ty == "Error" and d == filt)
                if not c.require(d is not None, "kind:%s:%s" % (ty, n), where, "what kind of failure it is does not decide the %s" % n, det):
                    continue
                x = e.ret
                if n == "description":
                    good = described(v, x, d) if isio else place(x) is T("fld", me, d, 0)
                elif isio:
                    good = x.op == "agg" and x.args[1] == 1 and place(x.args[2][0]) is T("fld", me, d, 0)
                else:
                    good = x.op == "agg" and x.args[1] == 0
                c.require(good, "%s:%s%d" % (n, ty, d), where, "the %s of the failure is %s" % (n, short(x)), det)
    c.floor("displays", 2)
    c.floor("accessors", 4)
    c.floor("conversions", 1)


def described(v, x, d):
    """is this what the I/O error says about itself?"""
    x = place(x)
    return x.op == "app" and last2(x.args[0]) in ("Error::description", "ToString::to_string") and place(x.args[1][0]) is T("fld", ONE, d, 0)
