"""What the analysis knows about library operations: containers, iterators, pointers, conversions."""
from terms import *
import terms

STRINGY = {"String", "str", "Vec", "[T]", "OsString", "OsStr", "PathBuf", "Path"}
OPT = "std::option::Option"


def some(x):
    return T("agg", OPT, 1, (x,))


NONE = T("agg", OPT, 0, ())


def fork(eng, st, cond):
    """(state where cond holds or None, state where it does not or None)"""
    k = eng.known(st, cond)
    if k == 1:
        return st, None
    if k == 0:
        return None, st
    a = eng.assume(st, cond, 1)
    b = eng.assume(st, cond, 0)
    if a is st and b is st:
        b = st.clone()
    if a is not None:
        a = a if a is not st else a.clone()
        eng.note_assume(a, cond, 1)
    if b is not None:
        b = b if b is not st else b.clone()
        eng.note_assume(b, cond, 0)
    return a, b


def selfty(eng, c):
    """type of Self of a trait method, or of the impl"""
    if "impl_self" in c:
        return c["impl_self"]
    return c["args"][0] if c["args"] else None


def tname(eng, ti):
    return eng.p.tname(ti) if ti is not None else ""


def peeled(eng, ti):
    t = eng.p.types[ti]
    while t["k"] == "ref":
        ti = t["e"]
        t = eng.p.types[ti]
    return ti


# ------------------------------------------------------------------ purity

PURE_NAMES = {
    "AsRef::as_ref", "Into::into", "Clone::clone", "Deref::deref", "Default::default", "PartialEq::eq", "PartialEq::ne",
    "IntoIterator::into_iter", "From::from", "Borrow::borrow", "ToOwned::to_owned", "ToString::to_string", "Ord::cmp",
    "PartialOrd::partial_cmp", "TryInto::try_into", "TryFrom::try_from", "Error::description",
}
IMPURE_STD = ("std::io::", "std::fs::", "std::net::Tcp", "std::thread::", "std::time::", "std::env::", "std::process::", "std::sync::atomic", "std::rt::", "std::sync::Mutex", "std::sync::RwLock")
PURE_EXT = (
    "url::", "hyper::header::Headers::get", "hyper::header::Headers::get_raw", "hyper::header::Headers::has", "hyper::header::Headers::new", "hyper::header::Headers::len",
    "hyper::server::Response::status", "hyper::server::Response::headers", "hyper::header::Headers::iter", "hyper::mime", "hyper::method", "hyper::status", "phf::", "anymap::Map::get", "anymap::Map::new",
    "anymap::Map::contains", "log::max_level", "log::__private_api::loc", "anymap::any::",
)


def is_pure(eng, c, call):
    if c.get("kind") in ("virtual", "fnptr", "drop"):
        return False
    for ti in call.atys:
        if ti is None:
            return False
        t = eng.p.types[ti]
        if t["k"] == "ref" and t["mut"]:
            return False
    p = c["path"]
    if c["short"] in PURE_NAMES:
        return True
    if c["crate"] in ("core", "alloc", "std"):
        if c["short"] in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once"):
            return False
        if c["short"] in ("Error::kind", "Error::new", "Metadata::len", "Error::description", "Error::other", "Error::last_os_error"):
            return True
        if "trait" in c and c["short"].split("::")[0] in ("Read", "Write", "Seek", "BufRead"):
            return False
        return not any(p.startswith(x) or ("<" + x) in p for x in IMPURE_STD)
    q = c["short"]
    return any(q.startswith(x) for x in PURE_EXT)


# ------------------------------------------------------------------ models

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def find(eng, c):
    n = c["short"]
    f = M.get(n)
    if f is not None:
        return f
    return None


def prefer_default(eng, c):
    """overridden consumers of leaf iterators: the default definition in terms of next() means the same"""
    if c["name"] in ("next", "next_back", "size_hint", "len"):
        return False
    b = c.get("body")
    if b is None:
        return True
    return False


def is_it(v):
    return v.op == "agg" and isinstance(v.args[0], str) and v.args[0].startswith("it:")


def mkit(kind, src, length, pos=INT(0), back=INT(0)):
    return T("agg", "it:" + kind, 0, (src, pos, back, length))


def it_elem(eng, st, it, i):
    kind = it.args[0][3:]
    src = it.args[2][0]
    if kind in ("slice", "slicemut"):
        root, path = eng.target(src)
        return eng.mkref(kind == "slicemut", root, path + (("idx", i),))
    if kind == "vec":
        return eng.sel(src, ("idx", i))
    if kind in ("map", "mapmut", "keys", "values", "valuesmut"):
        root, path = eng.target(src)
        m = eng.load(st, root, path)
        k = T("mkey", basemap(m), i)
        kr = T("vref", k)
        vr = eng.mkref(kind.endswith("mut"), root, path + (("key", k),))
        if kind == "keys":
            return kr
        if kind.startswith("values"):
            return vr
        return T("agg", "tuple", 0, (kr, vr))
    if kind == "mapinto":
        k = T("mkey", src, i)
        return T("agg", "tuple", 0, (k, eng.sel(src, ("key", k))))
    if kind == "setinto":
        return T("mkey", src, i)
    if kind == "opqref":
        return T("vref", T("item", src, i))
    return T("item", src, i)


def basemap(m):
    """map value with updates of existing entries peeled off (iteration does not add entries)"""
    while m.op == "set" and m.args[1][0] == "key" and m.args[1][1].op == "mkey":
        m = m.args[0]
    return m


def as_it(eng, st, root, path, ity):
    it = eng.load(st, root, path)
    if is_it(it):
        return it
    t = eng.p.types[ity] if ity is not None else {"k": "?"}
    item = t.get("item")
    it2 = mkit("opq", it, T("len", it))
    eng.store(st, root, path, it2)
    return it2


@model("Iterator::position")
def m_position(eng, st, call, ret):
    """looking for one known ASCII byte in all of a text or sequence of bytes"""
    root, path = eng.target(call.args[0])
    it = eng.load(st, root, path)
    f = call.args[1]
    sep = getattr(eng, "separator", None)
    if sep is None or not is_it(it) or it.args[2][1] is not INT(0) or it.args[2][2] is not INT(0) or not (f.op == "agg" and str(f.args[0]).startswith("closure:")):
        return None
    b = sep(int(f.args[0].split(":")[1]))
    if b is None or b > 127:
        return None
    src = it.args[2][0]
    eng.store(st, root, path, T("app", "after-position", (it,)))
    return [(st, T("app", "Iterator::position", (src, INT(b))))]


@model("Iterator::next")
def m_next(eng, st, call, ret):
    c = call.c
    sty = selfty(eng, c)
    tn = tname(eng, sty)
    t = eng.p.types[sty]
    root, path = eng.target(call.args[0])
    if tn == "Range":
        v = eng.load(st, root, path)
        a, b = fld(v, 0, 0), fld(v, 0, 1)
        y, n = fork(eng, st, lt(a, b))
        out = []
        if y:
            eng.store(y, root, path + (("f", 0, 0),), add(a, INT(1)))
            out.append((y, some(a)))
        if n:
            out.append((n, NONE))
        return out
    if tn == "Zip":
        return zip_next(eng, st, call, ret, sty)
    if "body" in c and not t.get("k") == "param":
        return None
    cur = eng.load(st, root, path)
    if c.get("rcrate") == eng.p.crate and "body" in c:
        return None
    return it_next(eng, st, root, path, sty, False)


def has_first(src):
    """splitting gives at least one piece"""
    if src.op != "app":
        return False
    n = src.args[0].split("<")[0]
    if n.rsplit("::", 1)[0] not in ("str", "[T]"):
        return False
    n = n.rsplit("::", 1)[1]
    if n in ("split", "rsplit") and len(src.args[1]) == 2:
        return True
    return n in ("splitn", "rsplitn") and len(src.args[1]) == 3 and src.args[1][1].op == "int" and src.args[1][1].args[0] > 0


def it_next(eng, st, root, path, sty, back):
    it = as_it(eng, st, root, path, sty)
    src, pos, bk, ln = it.args[2]
    cond = lt(add(pos, bk), ln)
    y, n = fork(eng, st, cond)
    if y and pos is INT(0) and bk is INT(0) and ln.op == "len" and has_first(ln.args[0]):
        n = None
    out = []
    if y:
        if back:
            el = it_elem(eng, y, it, sub(sub(ln, INT(1)), bk))
            nit = T("agg", it.args[0], 0, (src, pos, add(bk, INT(1)), ln))
        else:
            el = it_elem(eng, y, it, pos)
            nit = T("agg", it.args[0], 0, (src, add(pos, INT(1)), bk, ln))
        eng.store(y, root, path, nit)
        out.append((y, some(el)))
    if n:
        out.append((n, NONE))
    return out


@model("ExactSizeIterator::len", "Iterator::size_hint")
def m_left(eng, st, call, ret):
    """how many are left, of an iterator over a collection"""
    if "body" in call.c:
        return None
    root, path = eng.target(call.args[0])
    it = eng.load(st, root, path)
    hint = call.name.endswith("size_hint")
    if hint and (not is_it(it) or it.args[0] == "it:opq"):
        return None
    it = as_it(eng, st, root, path, selfty(eng, call.c))
    n = sub(sub(it.args[2][3], it.args[2][1]), it.args[2][2])
    return [(st, T("agg", "tuple", 0, (n, some(n))) if hint else n)]


@model("DoubleEndedIterator::next_back")
def m_next_back(eng, st, call, ret):
    sty = selfty(eng, call.c)
    tn = tname(eng, sty)
    root, path = eng.target(call.args[0])
    if tn == "Range":
        v = eng.load(st, root, path)
        a, b = fld(v, 0, 0), fld(v, 0, 1)
        y, n = fork(eng, st, lt(a, b))
        out = []
        if y:
            eng.store(y, root, path + (("f", 0, 1),), sub(b, INT(1)))
            out.append((y, some(sub(b, INT(1)))))
        if n:
            out.append((n, NONE))
        return out
    if "body" in call.c:
        return None
    return it_next(eng, st, root, path, sty, True)


SYN_SP = [0, 0]


def synth(eng, key, name, argc, blocks, nlocals=16):
    if key in eng.p.synth:
        return eng.p.synth[key]
    b = {"path": name, "vpath": "synth:" + "/".join(str(x) for x in key), "full": name, "kind": "synth", "local": False, "argc": argc,
         "locals": [None] * nlocals, "names": [], "blocks": blocks, "span": SYN_SP}
    # closures check the type of local 1; synthetic bodies are never closures
    return eng.p.new_body(key, b)


def synth_callee(eng, short, key, **kw):
    k = ("scallee", short, key)
    if k not in eng.p._ni:
        c = {"short": short, "path": short, "kind": "item", "name": short.split("::")[-1], "args": [], "crate": "core", "full": short, "id": len(eng.p.callees)}
        c.update(kw)
        eng.p.callees.append(c)
        eng.p._ni[k] = c["id"]
    return eng.p._ni[k]


def iter_next_of(eng, ti):
    """(callee id of next, type) of the iterator type ti"""
    t = eng.p.types[ti]
    if "next" in t:
        return t["next"]
    return None


def enter_synth(eng, st, bi, args, ret, call, kont=None):
    # the caller's frame has already been moved to the call's target
    f = st.frames[-1]
    eng.visited_bodies.add(bi)
    from engine import Frame
    st.frames = st.frames + (Frame(bi, 0, ret, kont),)
    d = len(st.frames) - 1
    for i, a in enumerate(args):
        st.mem[T("L", d, i + 1)] = a
    eng.push_work(st)
    return []


def zip_next(eng, st, call, ret, sty):
    t = eng.p.types[sty]
    a, b = t["args"][0], t["args"][1]
    na, nb = iter_next_of(eng, a), iter_next_of(eng, b)
    if na is None or nb is None:
        return None
    some_ = lambda x: ("agg", ("adt", OPTTY(eng), 1, None), (("m", x),))
    blocks = [
        {"s": [("=", (2,), ("ref", True, (1, "*", ("f", 0, 0))), SYN_SP)], "t": ("call", ("fn", na), (("m", (2,)),), (3,), 1, None, (eng.mutref(a),), SYN_SP)},
        {"s": [("=", (4,), ("discr", (3,)), SYN_SP)], "t": ("switch", ("m", (4,)), ((0, 5), (1, 2)), 6, 0, SYN_SP)},
        {"s": [("=", (5,), ("ref", True, (1, "*", ("f", 0, 1))), SYN_SP)], "t": ("call", ("fn", nb), (("m", (5,)),), (6,), 3, None, (eng.mutref(b),), SYN_SP)},
        {"s": [("=", (7,), ("discr", (6,)), SYN_SP)], "t": ("switch", ("m", (7,)), ((0, 5), (1, 4)), 6, 0, SYN_SP)},
        {"s": [("=", (8,), ("agg", ("tuple",), (("m", (3, ("f", 1, 0))), ("m", (6, ("f", 1, 0))))), SYN_SP),
               ("=", (0,), ("agg", ("adt", OPTTY(eng), 1, None), (("m", (8,)),)), SYN_SP)], "t": ("ret",)},
        {"s": [("=", (0,), ("use", ("t", NONE)), SYN_SP)], "t": ("ret",)},
        {"s": [], "t": ("unreachable", SYN_SP)},
    ]
    bi = synth(eng, ("zip", na, nb), "Zip::next", 1, blocks)
    return enter_synth(eng, st, bi, (call.args[0],), ret, call)


def OPTTY(eng):
    r = getattr(eng.p, "_optty", None)
    if r is None:
        for i, t in enumerate(eng.p.types):
            if t["k"] == "adt" and t["path"] == OPT:
                r = i
                break
        eng.p._optty = r
    return r


@model("FuseImpl::next")
def m_fuse(eng, st, call, ret):
    sty = call.c["args"][0] if call.c["args"] else None
    return None


CONT = {"Vec": "vec", "VecDeque": "vec", "HashMap": "map", "BTreeMap": "map", "HashSet": "set", "BTreeSet": "set", "String": "str"}


def new_of(kind):
    return {"vec": T("vnew"), "map": T("mnew"), "set": T("mnew"), "str": T("str", "")}[kind]


def inner_iter(eng, ti):
    """(into_iter or None, iterator type, type it is made from, next) for a type that can be gone over"""
    t = eng.p.types[ti]
    pre = None
    it = ti
    if "next" not in t:
        if "into_iter" not in t or "iter_ty" not in t:
            return None
        pre = t["into_iter"]
        it = t["iter_ty"]
    nx = iter_next_of(eng, it)
    return None if nx is None else (pre, it, ti, nx)


def consume_loop(eng, st, call, ret, ity, kind, by_ref, elem_ty):
    """from_iter / extend as a loop over next()"""
    p = eng.p
    t = p.types[ity]
    pre = None
    if "next" not in t:
        if "into_iter" not in t or "iter_ty" not in t:
            return None
        pre = t["into_iter"]
        it = t["iter_ty"]
    else:
        it = ity
    nx = iter_next_of(eng, it)
    if nx is None:
        return None
    item = p.types[it].get("item")
    copy = False
    if item is not None and elem_ty is not None and p.types[item]["k"] == "ref" and p.types[elem_ty]["k"] != "ref":
        copy = True
    push = synth_callee(eng, "synth::push", (kind, copy, elem_ty), kind2=kind, copy=copy, elem=elem_ty)
    # _1: iterable, _2: container or &mut container, _9: iterator
    cont = (2, "*") if by_ref else (2,)
    ir = 9
    b0 = {"s": [], "t": ("goto", 1)} if pre is None else {"s": [], "t": ("call", ("fn", pre), (("m", (1,)),), (9,), 1, it, (ity,), SYN_SP)}
    if pre is None:
        b0["s"] = [("=", (9,), ("use", ("m", (1,))), SYN_SP)]
    # map/filter/filter_map stages run in this loop, so that one element is one iteration
    stages = []
    place = (ir,)
    base = it
    while True:
        bt = p.types[base]
        n = bt["path"] if bt["k"] == "adt" else ""
        if n in ("std::iter::Map", "std::iter::FilterMap", "std::iter::Filter") and iter_next_of(eng, bt["args"][0]) is not None and len(bt.get("args", ())) == 2:
            stages.insert(0, (n.split("::")[-1], place + (("f", 0, 1),), bt["args"][1], None))
            place = place + (("f", 0, 0),)
            base = bt["args"][0]
        elif n == "std::iter::FlatMap" and len(bt.get("args", ())) == 3 and iter_next_of(eng, bt["args"][0]) is not None and inner_iter(eng, bt["args"][1]) is not None:
            m = place + (("f", 0, 0), ("f", 0, 0), ("f", 0, 0), ("f", 1, 0))
            stages.insert(0, ("FlatMap", m + (("f", 0, 1),), bt["args"][2], inner_iter(eng, bt["args"][1])))
            place = m + (("f", 0, 0),)
            base = bt["args"][0]
        else:
            break
    nx = iter_next_of(eng, base)
    mt = eng.mutref(base)
    blocks = [
        b0,
        {"s": [("=", (5,), ("ref", True, place), SYN_SP)], "t": ("call", ("fn", nx), (("m", (5,)),), (3,), 2, None, (mt,), SYN_SP)},
        {"s": [("=", (4,), ("discr", (3,)), SYN_SP)], "t": ("switch", ("m", (4,)), ((0, "END"), (1, 3)), "END", 0, SYN_SP)},
        {"s": [("=", (6,), ("use", ("m", (3, ("f", 1, 0)))), SYN_SP)], "t": ("goto", 4)},
    ]
    back = 1
    lv = 12
    for k, fp, fty, more in stages:
        i = len(blocks)
        if k == "Map":
            blocks.append({"s": [], "t": ("call", ("clos", fp, fty), (("m", (6,)),), (6,), i + 1, None, (None,), SYN_SP)})
        elif k == "FilterMap":
            blocks.append({"s": [], "t": ("call", ("clos", fp, fty), (("m", (6,)),), (10,), i + 1, None, (None,), SYN_SP)})
            blocks.append({"s": [("=", (4,), ("discr", (10,)), SYN_SP)], "t": ("switch", ("m", (4,)), ((0, back), (1, i + 2)), "UN", 0, SYN_SP)})
            blocks.append({"s": [("=", (6,), ("use", ("m", (10, ("f", 1, 0)))), SYN_SP)], "t": ("goto", i + 3)})
        elif k == "FlatMap":
            ipre, iit, ity2, inx = more
            blocks.append({"s": [], "t": ("call", ("clos", fp, fty), (("m", (6,)),), (lv,), i + 1, None, (None,), SYN_SP)})
            if ipre is None:
                blocks.append({"s": [("=", (lv + 1,), ("use", ("m", (lv,))), SYN_SP)], "t": ("goto", i + 2)})
            else:
                blocks.append({"s": [], "t": ("call", ("fn", ipre), (("m", (lv,)),), (lv + 1,), i + 2, iit, (ity2,), SYN_SP)})
            blocks.append({"s": [("=", (lv + 2,), ("ref", True, (lv + 1,)), SYN_SP)], "t": ("call", ("fn", inx), (("m", (lv + 2,)),), (lv + 3,), i + 3, None, (eng.mutref(iit),), SYN_SP)})
            blocks.append({"s": [("=", (4,), ("discr", (lv + 3,)), SYN_SP)], "t": ("switch", ("m", (4,)), ((0, back), (1, i + 4)), "UN", 0, SYN_SP)})
            blocks.append({"s": [("=", (6,), ("use", ("m", (lv + 3, ("f", 1, 0)))), SYN_SP)], "t": ("goto", i + 5)})
            back = i + 2
            lv += 4
        else:
            blocks.append({"s": [("=", (11,), ("ref", False, (6,)), SYN_SP)], "t": ("call", ("clos", fp, fty), (("m", (11,)),), (10,), i + 1, None, (None,), SYN_SP)})
            blocks.append({"s": [], "t": ("switch", ("m", (10,)), ((0, back),), i + 2, 0, SYN_SP)})
    i = len(blocks)
    blocks.append({"s": [("=", (7,), ("ref", True, cont), SYN_SP)],
                   "t": ("call", ("fn", push), (("m", (7,)), ("m", (6,))), (8,), back, None, (None, None), SYN_SP)})
    blocks.append({"s": [("=", (0,), ("use", ("t", UNIT) if by_ref else ("m", (2,))), SYN_SP)], "t": ("ret",)})
    sw = blocks[2]["t"]
    blocks[2]["t"] = ("switch", sw[1], ((0, i + 1), (1, 3)), "UN", 0, SYN_SP)
    # options have two variants
    blocks.append({"s": [], "t": ("unreachable", SYN_SP)})
    for b in blocks:
        if b["t"][0] == "switch" and b["t"][3] == "UN":
            b["t"] = b["t"][:3] + (len(blocks) - 1,) + b["t"][4:]
    bi = synth(eng, ("consume", it, pre, kind, by_ref, copy, elem_ty), "collect/extend loop", 2, blocks, nlocals=max(16, lv))
    return bi


@model("synth::push")
def m_push_synth(eng, st, call, ret):
    kind = call.c["kind2"]
    x = call.args[1]
    if call.c["copy"]:
        x = eng.load(st, *eng.target(x))
    root, path = eng.target(call.args[0])
    v = eng.load(st, root, path)
    if kind == "vec":
        nv = T("vpush", v, x)
    elif kind == "map":
        nv = eng.setelem(v, ("key", fld(x, 0, 0)), fld(x, 0, 1))
    elif kind == "set":
        nv = eng.setelem(v, ("key", x), UNIT)
    else:
        nv = T("cat", v, eng.deepval(st, x))
    eng.store(st, root, path, nv)
    ev = eng.rel(eng, st, call, None)
    if ev is not None:
        st.trace = st.trace + (ev,)
    return [(st, UNIT)]


@model("FromIterator::from_iter")
def m_from_iter(eng, st, call, ret):
    p = eng.p
    cty = call.c["args"][0]
    kind = CONT.get(tname(eng, cty))
    if kind is None:
        return None
    ct = p.types[cty]
    elem = ct["args"][0] if kind == "vec" and ct.get("args") else None
    bi = consume_loop(eng, st, call, ret, call.atys[0], kind, False, elem)
    if bi is None:
        return None
    return enter_synth(eng, st, bi, (call.args[0], new_of(kind)), ret, call)


@model("Extend::extend", "Vec::extend_from_slice")
def m_extend(eng, st, call, ret):
    p = eng.p
    cty = selfty(eng, call.c)
    if cty is None:
        return None
    kind = CONT.get(tname(eng, cty))
    if kind is None:
        return None
    if call.name == "Vec::extend_from_slice":
        root, path = eng.target(call.args[0])
        v = eng.load(st, root, path)
        eng.store(st, root, path, T("cat", v, eng.strip(st, call.args[1], call.atys[1])))
        return [(st, UNIT)]
    ct = p.types[cty]
    elem = ct["args"][0] if kind == "vec" and ct.get("args") else None
    t = p.types[call.atys[1]]
    if elem is not None and t["k"] == "ref" and p.types[elem]["k"] not in ("adt", "param", "ref", "tuple") and tname(eng, t["e"]) in ("Vec", "[T]", "[T;N]"):
        # plain values, all of them
        root, path = eng.target(call.args[0])
        v = eng.load(st, root, path)
        eng.store(st, root, path, T("cat", v, eng.strip(st, call.args[1], call.atys[1])))
        return [(st, UNIT)]
    bi = consume_loop(eng, st, call, ret, call.atys[1], kind, True, elem)
    if bi is None:
        return None
    return enter_synth(eng, st, bi, (call.args[1], call.args[0]), ret, call)


@model("Iterator::collect")
def m_collect(eng, st, call, ret):
    """collect of an iterator whose type is a parameter: the result type's from_iter"""
    p = eng.p
    if call.c.get("body") is not None:
        return None
    if call.dty is None:
        return None
    kind = CONT.get(tname(eng, call.dty))
    if kind is None:
        return None
    ct = p.types[call.dty]
    elem = ct["args"][0] if kind == "vec" and ct.get("args") else None
    bi = consume_loop(eng, st, call, ret, call.atys[0], kind, False, elem)
    if bi is None:
        return None
    return enter_synth(eng, st, bi, (call.args[0], new_of(kind)), ret, call)


@model("IntoIterator::into_iter", "[T]::iter", "[T]::iter_mut", "HashMap::iter", "HashMap::iter_mut", "HashMap::keys", "HashMap::values", "HashMap::values_mut", "HashMap::into_iter", "HashMap::drain", "Vec::drain")
def m_into_iter(eng, st, call, ret):
    p = eng.p
    v = call.args[0]
    ti = call.atys[0]
    t = p.types[ti]
    mut = False
    if t["k"] == "ref":
        mut = t["mut"]
        inner = t["e"]
    else:
        inner = ti
    tn = tname(eng, inner)
    if call.name == "Vec::drain":
        if p.tname(call.atys[1]) != "RangeFull" or t["k"] != "ref":
            return None
        root, path = eng.target(v)
        old = eng.load(st, root, path)
        eng.store(st, root, path, T("vnew"))
        return [(st, mkit("vec", old, eng.length(old)))]
    if tn in ("Vec", "[T]", "[T;N]", "VecDeque"):
        if t["k"] == "ref":
            root, path = eng.target(v)
            ln = eng.length(eng.load(st, root, path))
            return [(st, mkit("slicemut" if mut else "slice", v, ln))]
        return [(st, mkit("vec", v, eng.length(v)))]
    if tn in ("HashMap", "BTreeMap"):
        if t["k"] == "ref":
            root, path = eng.target(v)
            m = eng.load(st, root, path)
            ln = T("len", basemap(m))
            n = call.c["name"]
            kind = {"keys": "keys", "values": "values", "values_mut": "valuesmut"}.get(n, "mapmut" if mut else "map")
            if n == "drain":
                eng.store(st, root, path, T("mnew"))
                return [(st, mkit("mapinto", m, ln))]
            return [(st, mkit(kind, v, ln))]
        return [(st, mkit("mapinto", v, T("len", v)))]
    if tn in ("HashSet", "BTreeSet") and t["k"] != "ref":
        return [(st, mkit("setinto", v, T("len", v)))]
    return None


@model("[T]::split", "[T]::splitn", "str::split", "str::splitn", "[T]::rsplitn", "[T]::rsplit", "[T]::chunks", "[T]::windows")
def m_split(eng, st, call, ret):
    src = T("app", call.name, tuple(eng.strip(st, a, t) for a, t in zip(call.args, call.atys)))
    return [(st, mkit("opqref", src, T("len", src)))]


@model("hyper::server::Response::headers_mut", "hyper::server::Response::status_mut", "hyper::server::Response::headers")
def m_hyper_fields(eng, st, call, ret):
    root, path = eng.target(call.args[0])
    return [(st, eng.mkref(True, root, path + (("f", 0, 101 if "status" in call.name else 100),)))]


@model("hyper::server::Response::status")
def m_hyper_status(eng, st, call, ret):
    root, path = eng.target(call.args[0])
    return [(st, eng.load(st, root, path + (("f", 0, 101),)))]


@model("str::chars", "str::bytes", "Path::components")
def m_chars(eng, st, call, ret):
    src = T("app", call.name, tuple(eng.strip(st, a, t) for a, t in zip(call.args, call.atys)))
    return [(st, mkit("opq", src, T("len", src)))]


# ---- pointers, boxes

@model("Box::new", "Arc::new", "Rc::new")
def m_box(eng, st, call, ret):
    root = T("H", eng.freshterm(st, call.site[0], call.site[2], "box"))
    st.mem[root] = call.args[0]
    return [(st, T("ref", True, root, ()))]


@model("Box::new_uninit")
def m_box_uninit(eng, st, call, ret):
    root = T("H", eng.freshterm(st, call.site[0], call.site[2], "box"))
    return [(st, T("ref", True, root, ()))]


@model("boxed::box_assume_init_into_vec_unsafe", "[T]::into_vec", "slice::into_vec")
def m_into_vec(eng, st, call, ret):
    v = call.args[0]
    root, path = eng.target(v)
    x = eng.load(st, root, path)
    while x.op == "with" and len(x.args[1]) == 1:
        x = x.args[1][0][2]
    if x.op == "agg" and x.args[0] == "array":
        w = T("vnew")
        for e in x.args[2]:
            w = T("vpush", w, e)
        x = w
    return [(st, x)]


TRANSPARENT_REFS = {
    "str::as_bytes", "String::as_str", "String::as_bytes", "Vec::as_slice", "Vec::as_mut_slice", "String::as_mut_str", "OsString::as_os_str",
    "PathBuf::as_path", "Path::new", "Path::as_os_str", "OsStr::new", "Vec::as_ref",
}


@model(*TRANSPARENT_REFS)
def m_same(eng, st, call, ret):
    return [(st, call.args[0])]


@model("String::into_bytes", "Vec::into_boxed_slice", "Box::into_vec", "String::into_boxed_str", "String::from_utf8_unchecked", "hint::must_use", "Arc::into_inner")
def m_ident(eng, st, call, ret):
    return [(st, call.args[0])]


@model("str::from_utf8_unchecked")
def m_identref(eng, st, call, ret):
    return [(st, call.args[0])]


@model("Deref::deref", "DerefMut::deref_mut", "Borrow::borrow", "AsRef::as_ref", "AsMut::as_mut", "BorrowMut::borrow_mut")
def m_deref(eng, st, call, ret):
    sty = selfty(eng, call.c)
    if "body" in call.c:
        return None
    tn = tname(eng, sty)
    if tn in STRINGY:
        return [(st, call.args[0])]
    if tn in ("Arc", "Box", "Rc"):
        return [(st, eng.load(st, *eng.target(call.args[0])))]
    return None


@model("Clone::clone", "Clone::clone_from")
def m_clone(eng, st, call, ret):
    if call.c.get("rcrate") == eng.p.crate and "body" in call.c:
        return None
    sty = selfty(eng, call.c)
    t = eng.p.types[sty]
    if call.name != "Clone::clone":
        return None
    v = eng.load(st, *eng.target(call.args[0]))
    if t["k"] in ("ref", "closure", "tuple"):
        return [(st, v)]
    if "body" in call.c and tname(eng, sty) in ("Option", "Result", "Cow"):
        return None
    if t.get("box"):
        root = T("H", eng.freshterm(st, call.site[0], call.site[2], "box"))
        st.mem[root] = eng.load(st, *eng.target(v))
        return [(st, T("ref", True, root, ()))]
    return [(st, v)]


@model("ToOwned::to_owned", "ToString::to_string", "[T]::to_vec", "str::to_owned", "slice::to_vec", "Cow::into_owned", "Path::to_path_buf", "OsStr::to_os_string", "Vec::to_vec", "str::to_string")
def m_toowned(eng, st, call, ret):
    if "body" in call.c:
        return None
    tn = tname(eng, peeled(eng, call.atys[0]))
    if tn in STRINGY:
        return [(st, eng.strip(st, call.args[0], call.atys[0]))]
    return None


@model("From::from", "Into::into")
def m_from(eng, st, call, ret):
    c = call.c
    if "body" in c:
        return None
    if c.get("kind") == "param" or len(c["args"]) < 2:
        a, b = (c["args"] + [None, None])[:2]
        if a is not None and a == b:
            return [(st, call.args[0])]
        return [(st, T("app", "%s<%s>" % (call.name, eng.p.tstr(call.dty)), tuple(eng.strip(st, x, t) for x, t in zip(call.args, call.atys))))]
    to, fr = (c["args"][0], c["args"][1]) if call.name == "From::from" else (c["args"][1], c["args"][0])
    tt, tf = tname(eng, to), tname(eng, fr)
    pf = tname(eng, peeled(eng, fr))
    pt = tname(eng, peeled(eng, to))
    if to == fr:
        return [(st, call.args[0])]
    if pf in STRINGY and pt in STRINGY:
        isr = eng.p.types[fr]["k"] == "ref"
        tor = eng.p.types[to]["k"] == "ref"
        if isr and not tor:
            return [(st, eng.strip(st, call.args[0], fr))]
        return [(st, call.args[0])]
    if tt == "Cow" and pf in STRINGY:
        isr = eng.p.types[fr]["k"] == "ref"
        return [(st, T("agg", eng.p.types[to]["path"], 0 if isr else 1, (call.args[0],)))]
    if tt in ("Arc", "Box", "Rc") and eng.p.types[to]["args"] and eng.p.types[to]["args"][0] == fr:
        return m_box(eng, st, call, ret)
    return [(st, T("app", "%s<%s>" % (call.name, eng.p.tstr(call.dty)), tuple(eng.strip(st, x, t) for x, t in zip(call.args, call.atys))))]


@model("Default::default")
def m_default(eng, st, call, ret):
    if "body" in call.c:
        return None
    tn = tname(eng, call.dty)
    if tn in ("Vec", "VecDeque"):
        return [(st, T("vnew"))]
    if tn in ("HashMap", "BTreeMap", "HashSet"):
        return [(st, T("mnew"))]
    if tn == "String":
        return [(st, T("str", ""))]
    return [(st, T("app", "Default::default<%s>" % eng.p.tstr(call.dty), ()))]


@model("str::parse", "TypeId::of", "mem::size_of")
def m_typed(eng, st, call, ret):
    return [(st, T("app", call.c["full"], tuple(eng.strip(st, x, t) for x, t in zip(call.args, call.atys))))]


# ---- comparison

def value_eq(eng, a, b):
    for x, y in ((a, b), (b, a)):
        if y.op == "agg" and not y.args[2] and x.op != "agg" and "::" in str(y.args[0]):
            return terms.eq(eng.discr(x), INT(eng.p.discr_of(y.args[0], y.args[1])))
    return terms.eq(a, b)


@model("PartialEq::eq", "PartialEq::ne")
def m_eq(eng, st, call, ret):
    c = call.c
    if "body" in c and (c.get("rcrate") == eng.p.crate or call.name == "PartialEq::eq" and eng.p.types[c["args"][0]]["k"] == "ref"):
        return None
    if "body" in c and tname(eng, c["args"][0]) in ("Option", "Result"):
        return None
    a = eng.strip(st, call.args[0], call.atys[0])
    b = eng.strip(st, call.args[1], call.atys[1])
    while a.op == "&" and b.op == "&":
        a, b = a.args[0], b.args[0]
    if a.op == "&":
        a = a.args[0]
    if b.op == "&":
        b = b.args[0]
    r = value_eq(eng, a, b)
    return [(st, neg(r) if call.name.endswith("ne") else r)]


@model("intrinsics::discriminant_value")
def m_discr(eng, st, call, ret):
    return [(st, eng.discr(eng.load(st, *eng.target(call.args[0]))))]


# ---- mem

@model("mem::swap")
def m_swap(eng, st, call, ret):
    a, b = eng.target(call.args[0]), eng.target(call.args[1])
    x, y = eng.load(st, *a), eng.load(st, *b)
    eng.store(st, a[0], a[1], y)
    eng.store(st, b[0], b[1], x)
    return [(st, UNIT)]


@model("mem::replace", "Option::replace")
def m_replace(eng, st, call, ret):
    a = eng.target(call.args[0])
    x = eng.load(st, *a)
    v = call.args[1]
    if call.name == "Option::replace":
        v = some(v)
    eng.store(st, a[0], a[1], v)
    return [(st, x)]


@model("mem::take")
def m_take(eng, st, call, ret):
    a = eng.target(call.args[0])
    x = eng.load(st, *a)
    tn = tname(eng, call.dty)
    d = {"Vec": T("vnew"), "HashMap": T("mnew"), "Option": NONE, "bool": FALSE, "String": T("str", ""), "usize": INT(0)}.get(tn)
    if d is None:
        d = T("app", "Default::default<%s>" % eng.p.tstr(call.dty), ())
    eng.store(st, a[0], a[1], d)
    return [(st, x)]


@model("mem::drop", "mem::forget")
def m_memdrop(eng, st, call, ret):
    ti = call.atys[0]
    if call.name == "mem::drop" and eng.p.drop_interesting(ti, eng.interesting):
        root = T("H", eng.freshterm(st, call.site[0], call.site[2], "drop"))
        st.mem[root] = call.args[0]
        bi = eng.drop_glue(ti)
        return enter_synth(eng, st, bi, (T("ref", True, root, ()),), ret, call)
    return [(st, UNIT)]


# ---- Vec and slices

@model("Vec::new", "Vec::with_capacity", "VecDeque::new")
def m_vnew(eng, st, call, ret):
    return [(st, T("vnew"))]


@model("String::new", "String::with_capacity")
def m_snew(eng, st, call, ret):
    return [(st, T("str", ""))]


@model("HashMap::new", "HashMap::with_capacity", "HashSet::new", "BTreeMap::new")
def m_mnew(eng, st, call, ret):
    return [(st, T("mnew"))]


@model("Vec::push", "VecDeque::push_back")
def m_push(eng, st, call, ret):
    root, path = eng.target(call.args[0])
    v = eng.load(st, root, path)
    eng.store(st, root, path, T("vpush", v, call.args[1]))
    ev = eng.rel(eng, st, call, None)
    if ev is not None:
        st.trace = st.trace + (ev,)
    return [(st, UNIT)]


@model("Vec::pop", "VecDeque::pop_back")
def m_pop(eng, st, call, ret):
    root, path = eng.target(call.args[0])
    v = eng.load(st, root, path)
    if v.op == "vpush":
        eng.store(st, root, path, v.args[0])
        return [(st, some(v.args[1]))]
    if v.op == "vnew":
        return [(st, NONE)]
    y, n = fork(eng, st, neg(terms.eq(eng.length(v), INT(0))))
    out = []
    if y:
        x = T("last", v)
        if eng.pop_event:
            ev = eng.rel(eng, y, call, x)
            if ev is not None:
                y.trace = y.trace + (ev,)
        eng.store(y, root, path, T("vpop", v))
        out.append((y, some(x)))
    if n:
        out.append((n, NONE))
    return out


@model("Vec::clear", "HashMap::clear", "String::clear")
def m_clear(eng, st, call, ret):
    root, path = eng.target(call.args[0])
    eng.store(st, root, path, {"Vec": T("vnew"), "HashMap": T("mnew"), "String": T("str", "")}[call.name.split("::")[0]])
    return [(st, UNIT)]


@model("Vec::len", "[T]::len", "str::len", "String::len", "HashMap::len", "VecDeque::len")
def m_len(eng, st, call, ret):
    v = eng.load(st, *eng.target(call.args[0]))
    return [(st, eng.length(v))]


@model("Vec::is_empty", "[T]::is_empty", "str::is_empty", "String::is_empty", "HashMap::is_empty", "VecDeque::is_empty")
def m_isempty(eng, st, call, ret):
    v = eng.load(st, *eng.target(call.args[0]))
    return [(st, terms.eq(eng.length(v), INT(0)))]


def range_bounds(eng, idx, ln):
    tag = str(idx.args[0]) if idx.op == "agg" else ""
    n = tag.split("::")[-1]
    if n == "RangeFrom":
        return fld(idx, 0, 0), ln
    if n == "RangeTo":
        return INT(0), fld(idx, 0, 0)
    if n == "Range":
        return fld(idx, 0, 0), fld(idx, 0, 1)
    if n == "RangeFull":
        return INT(0), ln
    if n == "RangeInclusive":
        return fld(idx, 0, 0), add(fld(idx, 0, 1), INT(1))
    if n == "RangeToInclusive":
        return INT(0), add(fld(idx, 0, 0), INT(1))
    return None


def mkslice(base, lo, hi, ln):
    if lo is INT(0) and hi is ln:
        return base
    if base.op == "vslice":
        b, l, h = base.args
        return T("vslice", b, add(l, lo), add(l, hi))
    if base.op in ("str", "bytes") and lo.op == "int" and hi.op == "int":
        return T(base.op, base.args[0][lo.args[0]:hi.args[0]])
    return T("vslice", base, lo, hi)


@model("Index::index", "IndexMut::index_mut")
def m_index(eng, st, call, ret):
    if "body" in call.c:
        return None
    root, path = eng.target(call.args[0])
    v = eng.load(st, root, path)
    tn = tname(eng, peeled(eng, call.atys[0]))
    idx = call.args[1]
    it = eng.p.types[call.atys[1]]
    if tn in ("Vec", "[T]", "[T;N]", "str", "String"):
        ln = eng.length(v)
        if it["k"] == "int":
            if eng.panics:
                eng.note_panic(st, "index", (ln, idx), call.span, lt(idx, ln), 1)
            s2 = eng.assume(st, lt(idx, ln), 1)
            if s2 is None:
                return []
            return [(s2, eng.mkref(call.name.endswith("mut"), root, path + (("idx", idx),)))]
        b = range_bounds(eng, idx, ln)
        if b is not None:
            if eng.panics:
                eng.note_panic(st, "slice", (v, b[0], b[1], ln, tn), call.span)
            return [(st, T("vref", mkslice(v, b[0], b[1], ln)))]
    return None


@model("[T]::get", "[T]::get_mut", "Vec::get", "str::get", "[T]::first", "[T]::last")
def m_get(eng, st, call, ret):
    root, path = eng.target(call.args[0])
    v = eng.load(st, root, path)
    ln = eng.length(v)
    n = call.c["name"]
    if n == "first":
        idx = INT(0)
    elif n == "last":
        idx = sub(ln, INT(1))
        y, no = fork(eng, st, neg(terms.eq(ln, INT(0))))
        out = []
        if y:
            out.append((y, some(eng.mkref(False, root, path + (("idx", idx),)))))
        if no:
            out.append((no, NONE))
        return out
    else:
        idx = call.args[1]
        if eng.p.types[call.atys[1]]["k"] != "int":
            b = range_bounds(eng, idx, ln)
            if b is None:
                return None
            y, no = fork(eng, st, neg(T("and", (neg(terms.lt(b[1], b[0])), neg(terms.lt(ln, b[1]))))))
            out = []
            if no:
                out.append((no, some(T("vref", mkslice(v, b[0], b[1], ln)))))
            if y:
                out.append((y, NONE))
            return out
    y, no = fork(eng, st, lt(idx, ln))
    out = []
    if y:
        out.append((y, some(eng.mkref(n.endswith("mut"), root, path + (("idx", idx),)))))
    if no:
        out.append((no, NONE))
    return out


@model("[T]::starts_with", "[T]::ends_with")
def m_starts_with(eng, st, call, ret):
    """for a fixed short prefix: what it says about the elements"""
    v = eng.load(st, *eng.target(call.args[0]))
    n = eng.load(st, *eng.target(call.args[1]))
    return starts_with(eng, st, v, n, call.name.endswith("starts_with"))


def starts_with(eng, st, v, n, front):
    if n.op != "bytes" or not 1 <= len(n.args[0]) <= 2:
        return None
    k = len(n.args[0])
    ln = eng.length(v)
    y, no = fork(eng, st, neg(terms.eq(ln, INT(0))) if k == 1 else neg(terms.lt(ln, INT(k))))
    out = []
    if no:
        out.append((no, FALSE))
    if y:
        cs = []
        for i, b in enumerate(n.args[0]):
            at = INT(i) if front else add(ln, INT(i - k))
            cs.append(terms.eq(eng.sel(v, ("idx", at)), INT(b)))
        while cs and y:
            e, y = fork(eng, y, cs.pop(0))
            if y:
                out.append((y, FALSE))
            y = e
        if y:
            out.append((y, TRUE))
    return out


@model("[T]::strip_prefix", "[T]::strip_suffix")
def m_strip_prefix(eng, st, call, ret):
    front = call.name.endswith("prefix")
    v = eng.load(st, *eng.target(call.args[0]))
    n = eng.load(st, *eng.target(call.args[1]))
    ways = starts_with(eng, st, v, n, front)
    if ways is None:
        return None
    ln, k = eng.length(v), len(n.args[0])
    rest = mkslice(v, INT(k), ln, ln) if front else mkslice(v, INT(0), sub(ln, INT(k)), ln)
    return [(s, some(T("vref", rest)) if b is TRUE else NONE) for s, b in ways]


@model("[T]::split_first", "[T]::split_last")
def m_split_first(eng, st, call, ret):
    root, path = eng.target(call.args[0])
    v = eng.load(st, root, path)
    ln = eng.length(v)
    y, no = fork(eng, st, neg(terms.eq(ln, INT(0))))
    out = []
    if y:
        if call.name.endswith("first"):
            el, rest = INT(0), mkslice(v, INT(1), ln, ln)
        else:
            el, rest = sub(ln, INT(1)), mkslice(v, INT(0), sub(ln, INT(1)), ln)
        out.append((y, some(T("agg", "tuple", 0, (eng.mkref(False, root, path + (("idx", el),)), T("vref", rest))))))
    if no:
        out.append((no, NONE))
    return out


@model("[T]::split_at", "str::split_at")
def m_split_at(eng, st, call, ret):
    root, path = eng.target(call.args[0])
    v = eng.load(st, root, path)
    ln = eng.length(v)
    i = call.args[1]
    if eng.panics:
        eng.note_panic(st, "split_at", (v, i, ln, tname(eng, peeled(eng, call.atys[0]))), call.span, neg(lt(ln, i)), 1)
    return [(st, T("agg", "tuple", 0, (T("vref", mkslice(v, INT(0), i, ln)), T("vref", mkslice(v, i, ln, ln)))))]


@model("String::push_str", "String::push", "Vec::append")
def m_pushstr(eng, st, call, ret):
    if call.name == "Vec::append":
        ra, pa = eng.target(call.args[0])
        rb, pb = eng.target(call.args[1])
        eng.store(st, ra, pa, T("cat", eng.load(st, ra, pa), eng.load(st, rb, pb)))
        eng.store(st, rb, pb, T("vnew"))
        return [(st, UNIT)]
    root, path = eng.target(call.args[0])
    v = eng.load(st, root, path)
    x = eng.strip(st, call.args[1], call.atys[1])
    if v is T("str", "") and call.name == "String::push_str":
        eng.store(st, root, path, x)
    else:
        eng.store(st, root, path, T("cat", v, x))
    return [(st, UNIT)]


@model("str::from_utf8", "String::from_utf8")
def m_from_utf8(eng, st, call, ret):
    ref = call.name.startswith("str::")
    v = eng.strip(st, call.args[0], call.atys[0])
    y, n = fork(eng, st, T("utf8", v)) if v.op not in ("str", "vnew") else (st, None)
    RES = "std::result::Result"
    out = []
    if y:
        out.append((y, T("agg", RES, 0, (T("vref", v) if ref else v,))))
    if n:
        e = T("agg", "Utf8Error", 0, (v,)) if ref else T("agg", "FromUtf8Error", 0, (v,))
        out.append((n, T("agg", RES, 1, (e,))))
    return out


@model("FromUtf8Error::into_bytes")
def m_into_bytes(eng, st, call, ret):
    return [(st, fld(call.args[0], 0, 0))]


@model("String::from_utf8_lossy")
def m_lossy(eng, st, call, ret):
    v = eng.strip(st, call.args[0], call.atys[0])
    return [(st, T("app", "String::from_utf8_lossy", (v,)))]


# ---- HashMap

def has(eng, m, k):
    while True:
        if m.op == "mnew":
            return FALSE
        if m.op == "set" and m.args[1][0] == "key":
            e = terms.eq(m.args[1][1], k)
            if e is TRUE:
                return TRUE
            if e is FALSE:
                m = m.args[0]
                continue
        if k.op == "mkey" and k.args[0] is basemap(m):
            return TRUE
        return T("has", m, k)


@model("HashMap::insert", "HashSet::insert", "BTreeMap::insert")
def m_minsert(eng, st, call, ret):
    root, path = eng.target(call.args[0])
    m = eng.load(st, root, path)
    k = eng.deepval(st, call.args[1])
    v = call.args[2] if len(call.args) > 2 else UNIT
    ev = eng.rel(eng, st, call, None)
    if ev is not None:
        st.trace = st.trace + (ev,)
    y, n = fork(eng, st, has(eng, m, k))
    out = []
    isset = call.name.startswith("HashSet")
    if y:
        old = eng.sel(m, ("key", k))
        eng.store(y, root, path, eng.setelem(m, ("key", k), v))
        out.append((y, FALSE if isset else some(old)))
    if n:
        eng.store(n, root, path, eng.setelem(m, ("key", k), v))
        out.append((n, TRUE if isset else NONE))
    return out


@model("HashMap::get", "HashMap::get_mut", "BTreeMap::get")
def m_mget(eng, st, call, ret):
    root, path = eng.target(call.args[0])
    m = eng.load(st, root, path)
    k = eng.strip(st, call.args[1], call.atys[1])
    y, n = fork(eng, st, has(eng, m, k))
    out = []
    if y:
        out.append((y, some(eng.mkref(call.name.endswith("mut"), root, path + (("key", k),)))))
    if n:
        out.append((n, NONE))
    return out


@model("HashMap::contains_key", "HashSet::contains")
def m_mcontains(eng, st, call, ret):
    m = eng.load(st, *eng.target(call.args[0]))
    return [(st, has(eng, m, eng.strip(st, call.args[1], call.atys[1])))]


@model("HashMap::remove")
def m_mremove(eng, st, call, ret):
    root, path = eng.target(call.args[0])
    m = eng.load(st, root, path)
    k = eng.strip(st, call.args[1], call.atys[1])
    y, n = fork(eng, st, has(eng, m, k))
    out = []
    if y:
        old = eng.sel(m, ("key", k))
        eng.store(y, root, path, T("mdel", m, k))
        out.append((y, some(old)))
    if n:
        out.append((n, NONE))
    return out


ENTRY = "std::collections::hash_map::Entry"


@model("HashMap::entry")
def m_entry(eng, st, call, ret):
    root, path = eng.target(call.args[0])
    m = eng.load(st, root, path)
    k = eng.deepval(st, call.args[1])
    ent = eng.p.types[call.dty]["path"] if call.dty is not None else ENTRY
    vs = eng.p.types[call.dty]["vs"]
    io = [i for i, v in enumerate(vs) if v["n"] == "Occupied"][0]
    iv = [i for i, v in enumerate(vs) if v["n"] == "Vacant"][0]
    y, n = fork(eng, st, has(eng, m, k))
    out = []
    e = T("agg", "mentry", 0, (call.args[0], k))
    if y:
        out.append((y, T("agg", ent, io, (e,))))
    if n:
        out.append((n, T("agg", ent, iv, (e,))))
    return out


def entry_place(eng, e):
    root, path = eng.target(fld(e, 0, 0))
    return root, path, fld(e, 0, 1)


@model("OccupiedEntry::into_mut", "OccupiedEntry::get_mut", "OccupiedEntry::get", "OccupiedEntry::insert", "OccupiedEntry::remove", "OccupiedEntry::key", "VacantEntry::key")
def m_occ(eng, st, call, ret):
    e = call.args[0]
    n = call.c["name"]
    if eng.p.types[call.atys[0]]["k"] == "ref":
        e = eng.load(st, *eng.target(e))
    if not (e.op == "agg" and e.args[0] == "mentry"):
        return None
    root, path, k = entry_place(eng, e)
    if n == "key":
        return [(st, T("vref", k))]
    if n == "insert":
        m = eng.load(st, root, path)
        old = eng.sel(m, ("key", k))
        eng.store(st, root, path, eng.setelem(m, ("key", k), call.args[1]))
        ev = eng.rel(eng, st, call, None)
        if ev is not None:
            st.trace = st.trace + (ev,)
        return [(st, old)]
    if n == "remove":
        m = eng.load(st, root, path)
        old = eng.sel(m, ("key", k))
        eng.store(st, root, path, T("mdel", m, k))
        return [(st, old)]
    return [(st, eng.mkref(n != "get", root, path + (("key", k),)))]


@model("VacantEntry::insert")
def m_vac(eng, st, call, ret):
    e = call.args[0]
    if not (e.op == "agg" and e.args[0] == "mentry"):
        return None
    root, path, k = entry_place(eng, e)
    m = eng.load(st, root, path)
    eng.store(st, root, path, eng.setelem(m, ("key", k), call.args[1]))
    ev = eng.rel(eng, st, call, None)
    if ev is not None:
        st.trace = st.trace + (ev,)
    return [(st, eng.mkref(True, root, path + (("key", k),)))]


@model("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default")
def m_or_insert(eng, st, call, ret):
    e = call.args[0]
    if not (e.op == "agg" and e.args[2] and e.args[2][0].op == "agg" and e.args[2][0].args[0] == "mentry"):
        return None
    t = eng.p.types[call.atys[0]]
    occ = t["vs"][e.args[1]]["n"] == "Occupied"
    root, path, k = entry_place(eng, e.args[2][0])
    ref = eng.mkref(True, root, path + (("key", k),))
    if occ:
        return [(st, ref)]
    if call.name.endswith("or_insert"):
        m = eng.load(st, root, path)
        eng.store(st, root, path, eng.setelem(m, ("key", k), call.args[1]))
        return [(st, ref)]
    if call.name.endswith("or_default"):
        return None
    # call the closure, then store its result
    from engine import Frame
    fv = call.args[1]
    ok = closure_body(eng, st, fv, call.atys[1], (), call)
    if ok is None:
        return None
    bi, args = ok
    return enter_synth(eng, st, bi, args, ret, call, kont=("or_insert_with", call.args[0]))


def closure_body(eng, st, fv, ti, args, call):
    """(body, args) to enter for calling function value fv"""
    t = eng.p.types[ti]
    if t["k"] == "closure":
        bi = t["body"]
        b = eng.p.body(bi)
        selfv = fv
        if eng.p.types[b["locals"][1]]["k"] == "ref":
            root = T("H", eng.freshterm(st, call.site[0], call.site[2], "clos"))
            st.mem[root] = fv
            selfv = T("ref", True, root, ())
        return bi, (selfv,) + tuple(args)
    if t["k"] == "fndef":
        c = eng.p.callees[t["c"]]
        if "body" in c:
            return c["body"], tuple(args)
    return None


def k_or_insert(eng, st, v, e):
    root, path, k = entry_place(eng, e.args[2][0])
    m = eng.load(st, root, path)
    eng.store(st, root, path, eng.setelem(m, ("key", k), v))
    return [(st, eng.mkref(True, root, path + (("key", k),)))]


konts = {"or_insert_with": k_or_insert}


# ---- memory intrinsics that the optimised library bodies contain

@model("ptr::read", "intrinsics::read_via_copy", "ptr::read_volatile")
def m_ptrread(eng, st, call, ret):
    return [(st, eng.load(st, *eng.target(call.args[0])))]


@model("ptr::write", "intrinsics::write_via_move")
def m_ptrwrite(eng, st, call, ret):
    root, path = eng.target(call.args[0])
    eng.store(st, root, path, call.args[1])
    return [(st, UNIT)]


@model("vec::from_elem")
def m_from_elem(eng, st, call, ret):
    return [(st, T("zeros", call.args[0], call.args[1]))]
