"""The table of media types (C31)."""
import os
import re
from terms import *
from ctx import short, facts_text
from rules import prop
from rules.common import *
from rules.routers import *
from rules.body import bare, variant

# the texts of the names that the mime crate has variants for
TOP = {"Star": "*"}
SUB = {"Star": "*", "EventStream": "event-stream", "WwwFormUrlEncoded": "x-www-form-urlencoded", "OctetStream": "octet-stream", "FormData": "form-data"}
KNOWN_TOP = {"Star", "Text", "Image", "Audio", "Video", "Application", "Multipart", "Message", "Model"}
KNOWN_SUB = {"Star", "Plain", "Html", "Xml", "Javascript", "Css", "EventStream", "Json", "WwwFormUrlEncoded", "Msgpack", "OctetStream",
             "FormData", "Png", "Gif", "Bmp", "Jpeg", "Mpeg", "Mp4", "Ogg"}
PART = r'(?:[\w:]*::)?(\w+)\s*\(\s*(?:(?:[\w:]*::)?(\w+)|("(?:[^"\\]|\\.)*"))\s*\)'
ENTRY = re.compile(r'\(\s*("(?:[^"\\]|\\.)*")\s*,\s*\(\s*%s\s*,\s*%s\s*,?\s*\)\s*,?\s*\)' % (PART, PART))


def apache(path):
    """extension -> the types it is listed with"""
    out = {}
    for line in open(path, encoding="utf-8"):
        if line.startswith("#"):
            continue
        words = line.split()
        if len(words) > 1 and "/" in words[0]:
            for ext in words[1:]:
                out.setdefault(ext, []).append(words[0])
    return out


def plain(lit):
    return lit[1:-1].replace('\\"', '"').replace("\\\\", "\\")


def part(kind, name, lit, known, texts):
    if kind == "Known" and name in known:
        return texts.get(name, name.lower())
    if kind == "Unknown" and lit is not None:
        return plain(lit)
    return None


@prop("C31")
def c31(c):
    c.rule("every extension of the Apache list is in the generated table, with a main and a sub type whose texts are those of a line that lists it, and the table has no other extension (translation validation of the generated source)")
    c.rule("a lookup asks the table for exactly the given extension, is successful if and only if the table has it, and gives the two types of the entry and no parameters")
    p = c.p
    gen = sorted({f for f in p.files if f.endswith("/out/mime.rs")})
    lst = os.path.join(c.repo, "build/apache/mime.types")
    table = {}
    if c.require(len(gen) == 1 and os.path.exists(gen[0]) and os.path.exists(lst), "anchor:table", "build/mime.rs", "the generated table or the list is not there: %s" % gen):
        text = open(gen[0], encoding="utf-8").read()
        want = apache(lst)
        found = 0
        for m in ENTRY.finditer(text):
            found += 1
            ext = plain(m.group(1))
            top = part(m.group(2), m.group(3), m.group(4), KNOWN_TOP, TOP)
            sub = part(m.group(5), m.group(6), m.group(7), KNOWN_SUB, SUB)
            c.require(ext not in table, "twice:" + ext, "build/mime.rs", "the extension %s is in the table twice" % ext)
            table[ext] = "%s/%s" % (top, sub)
            c.count("entries of the table")
        keys = len(re.findall(r'\(\s*"(?:[^"\\]|\\.)*"\s*,\s*\(', text))
        c.require(found == keys and found > 0, "unread", "build/mime.rs", "%d of %d entries of the generated table can be read" % (found, keys))
        bad = 0
        for ext in sorted(set(want) | set(table)):
            c.count("extensions compared")
            if ext not in table:
                msg = "the extension %s (%s) is missing" % (ext, want[ext][0])
            elif ext not in want:
                msg = "the extension %s is not in the list, but the table has %s for it" % (ext, table[ext])
            elif table[ext] not in want[ext]:
                msg = "the extension %s has the type %s, the list says %s" % (ext, table[ext], " or ".join(want[ext]))
            else:
                continue
            bad += 1
            if bad <= 20:
                c.violation("entry:" + ext, "build/mime.rs", msg)
    # the lookup
    M = "hyper::mime::"
    ext = {0: variant(c, M + "TopLevel", "Ext"), 1: variant(c, M + "SubLevel", "Ext")}
    statics = set()
    n = 0
    for f in p.fns:
        if f["body"] is None or not f.get("pub") or not (p.types[f["out"]]["k"] == "adt" and p.types[f["out"]]["path"] == "std::option::Option"
                                                        and re.match(r"std::option::Option<(hyper::mime|mime)::Mime\b", p.types[f["out"]]["s"])):
            continue
        if len(f["ins"]) != 1 or p.types[f["ins"][0]]["s"] != "&str":
            continue
        n += 1
        where = c.where(f)
        given = T("param", 1)
        some = none = 0

        def get(x):
            x = bare(x)
            if x.op == "app" and last2(x.args[0].split("<")[0]) in ("Map::get", "Map::get_entry", "Map::get_key", "Map::contains_key"):
                a = [bare(y) for y in x.args[1]]
                if len(a) == 2 and a[0].op == "staticref" and a[1] is given:
                    return x
            return None

        eng = c.engine(keep_facts=lambda t: True)
        for e in c.run(eng, f) or ():
            if e.kind != "return":
                continue
            det = facts_text(e.facts)
            v = View(e)
            asked = [(t, x) for t, x in e.facts.items() if (t.op == "discr" and get(t.args[0]) is not None) or get(t) is not None]
            there = {x == 1 for _, x in asked} if asked else None
            for t, _ in asked:
                statics.add(bare(get(t.args[0] if t.op == "discr" else t).args[1][0]).args[0])
            d = eng.known(v, eng.discr(e.ret))
            if d is None and get(e.ret) is None:
                c.violation("unclear", where, "it is not clear if there is a media type: %s" % short(e.ret), det)
                continue
            if d == 0:
                none += 1
                c.count("ways to no media type")
                # texts that are known not to be in the list
                empty = any((t.op == "len" and bare(t.args[0]) is given and x == 0) or (t.op == "app" and t.args[0].endswith("str::is_empty") and bare(t.args[1][0]) is given and x == 1)
                            for t, x in e.facts.items())
                c.require(there == {False} or there is None and empty and "" not in table, "missed", where, "no media type is given for an extension that may be in the table", det)
                continue
            some += 1
            c.count("ways to a media type")
            c.require(there == {True}, "made-up", where, "a media type is given for an extension that may not be in the table", det)
            m = eng.sel(e.ret, ("f", 1, 0))
            for i, name in ((0, "main"), (1, "sub")):
                x = eng.sel(m, ("f", 0, i))
                if x.op == "agg" and x.args[1] == ext[i] and len(x.args[2]) == 1:
                    y = bare(x.args[2][0])
                    while y.op == "app" and len(y.args[1]) == 1:
                        y = bare(y.args[1][0])
                    want = 1
                else:
                    y, want = bare(x), 0
                src = bare(y.args[0]) if y.op == "fld" and y.args[1:] == (want, 0) else None
                own = bare(src.args[0]) if src is not None and src.op == "fld" and src.args[1:] == (0, i) else None
                ok = own is not None and own.op == "fld" and get(own.args[0]) is not None
                if c.require(ok, "type-of-entry:%s" % name, where, "the %s type is not the one of the entry: %s" % (name, short(x)), det):
                    k = [z for t, z in e.facts.items() if t.op == "discr" and bare(t.args[0]) is src]
                    c.require(k == [want], "type-kind:%s" % name, where, "the %s type of the entry is taken as the wrong kind" % name, det)
            x = eng.sel(m, ("f", 0, 2))
            c.require(x is T("vnew"), "parameters", where, "the media type has parameters that are not in the list: %s" % short(x), det)
        c.require(some and none, "lookup", where, "a lookup never succeeds or never fails")
    c.require(n == 1, "anchor:lookup", "src/file.rs", "there are %d functions to look up a media type" % n)
    c.require(len(statics) == 1, "anchor:static", "src/file.rs", "the lookup does not use one table: %s" % sorted(map(str, statics)))
