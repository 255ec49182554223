"""Hash-consed terms: the abstract values of the analysis."""


class Term:
    __slots__ = ("op", "args", "h", "loops", "calls", "size")

    def __repr__(self):
        return show(self)


_tab = {}
EMPTY = frozenset()


def T(op, *args):
    key = (op,) + args
    t = _tab.get(key)
    if t is not None:
        return t
    t = Term()
    t.op = op
    t.args = args
    t.h = hash(key)
    loops = EMPTY
    calls = EMPTY
    size = 1
    for a in args:
        if isinstance(a, Term):
            if a.loops:
                loops = loops | a.loops
            if a.calls:
                calls = calls | a.calls
            size += a.size
        elif isinstance(a, tuple):
            l, c, s = _scan(a)
            if l:
                loops = loops | l
            if c:
                calls = calls | c
            size += s
    if op == "K" or op == "phi" or op == "stale":
        loops = loops | frozenset([args[0]])
    if op == "call" or op == "pending":
        calls = calls | frozenset([key])
    t.loops = loops
    t.calls = calls
    t.size = size
    _tab[key] = t
    return t


def _scan(tup):
    loops = EMPTY
    calls = EMPTY
    size = 0
    for a in tup:
        if isinstance(a, Term):
            loops = loops | a.loops
            calls = calls | a.calls
            size += a.size
        elif isinstance(a, tuple):
            l, c, s = _scan(a)
            loops = loops | l
            calls = calls | c
            size += s
    return loops, calls, size


def rebuild(t, f):
    """apply f to every direct sub-term of t and rebuild"""
    def g(a):
        if isinstance(a, Term):
            return f(a)
        if isinstance(a, tuple):
            return tuple(g(x) for x in a)
        return a
    na = tuple(g(a) for a in t.args)
    if na == t.args:
        return t
    return mk(t.op, *na)


def mk(op, *args):
    """smart constructor"""
    if op == "add":
        return add(*args)
    if op == "fld":
        return fld(*args)
    if op == "lt":
        return lt(*args)
    if op == "eq":
        return eq(*args)
    if op == "sum":
        r = INT(args[0])
        for k, v in args[1]:
            for _ in range(abs(v)):
                r = add(r, k, 1 if v > 0 else -1)
        return r
    if op == "not":
        return neg(*args)
    return T(op, *args)


def subst(x, pred, f, memo=None):
    """replace every sub-term selected by pred(t) (a cheap filter: 'may contain') via f"""
    if memo is None:
        memo = {}

    def go(t):
        if isinstance(t, tuple):
            return tuple(go(y) for y in t)
        if isinstance(t, frozenset):
            return frozenset(go(y) for y in t)
        if not isinstance(t, Term):
            return t
        if not pred(t):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        r = f(t)
        if r is None:
            r = rebuild(t, go)
        memo[t] = r
        return r
    return go(x)


def walk(x):
    """all sub-terms, outermost first"""
    st = [x]
    seen = set()
    while st:
        t = st.pop()
        if isinstance(t, Term):
            if t in seen:
                continue
            seen.add(t)
            yield t
            st.extend(t.args)
        elif isinstance(t, (tuple, frozenset, list)):
            st.extend(t)


def contains(x, y):
    for t in walk(x):
        if t is y:
            return True
    return False


def INT(n):
    return T("int", n)


TRUE = INT(1)
FALSE = INT(0)
UNIT = T("agg", "tuple", 0, ())


def isint(t):
    return t.op == "int"


def agg(tag, variant, fields):
    return T("agg", tag, variant, tuple(fields))


def fld(v, vi, i):
    if v.op == "agg":
        if i < len(v.args[2]):
            if v.args[1] == vi or vi is None or True:
                return v.args[2][i]
    return T("fld", v, vi or 0, i)


def linear(t):
    """(const, {term: coeff})"""
    if t.op == "int":
        return t.args[0], {}
    if t.op == "sum":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def from_linear(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return INT(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    items = tuple(sorted(d.items(), key=lambda kv: skey(kv[0])))
    return T("sum", c, items)


_sk = {}


def skey(t):
    r = _sk.get(t)
    if r is None:
        r = show(t)
        _sk[t] = r
    return r


UNSIGNED = ("len", "K", "find")


def add(a, b, sign=1):
    c1, d1 = linear(a)
    c2, d2 = linear(b)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + sign * v
    return from_linear(c1 + sign * c2, d)


def sub(a, b):
    return add(a, b, -1)


def lt(a, b):
    if a is b:
        return FALSE
    c, d = linear(sub(b, a))
    if not d:
        return TRUE if c > 0 else FALSE
    # normalise: a < b  as  pos-part(a) < pos-part(b)
    l, r = {}, {}
    for k, v in d.items():
        if v > 0:
            r[k] = v
        else:
            l[k] = -v
    lc, rc = (0, c) if c >= 0 else (-c, 0)
    la, ra = from_linear(lc, l), from_linear(rc, r)
    # unsigned quantities are not below zero
    if la.op == "int" and la.args[0] == 0 and ra.op == "sum" and ra.args[0] > 0 and all(k.op in UNSIGNED and v > 0 for k, v in ra.args[1]):
        return TRUE
    if ra.op == "int" and ra.args[0] == 0 and la.op == "sum" and la.args[0] >= 0 and all(k.op in UNSIGNED and v > 0 for k, v in la.args[1]):
        return FALSE
    if la.op == "int" and la.args[0] == 0 and ra.op in UNSIGNED:
        return neg(eq(ra, la))
    if ra.op == "int" and ra.args[0] == 1 and la.op in UNSIGNED:
        return eq(la, INT(0))
    if ra.op == "int" and ra.args[0] <= 0 and la.op in UNSIGNED:
        return FALSE
    return T("lt", la, ra)


def eq(a, b):
    if a is b:
        return TRUE if a.op != "stale" else T("eq", a, b)
    lits = ("int", "str", "bytes")
    if a.op in lits and b.op in lits:
        if a.op == b.op:
            return TRUE if a.args == b.args else FALSE
        if "int" in (a.op, b.op):
            return FALSE
        x = a.args[0].encode() if a.op == "str" else a.args[0]
        y = b.args[0].encode() if b.op == "str" else b.args[0]
        return TRUE if x == y else FALSE
    if a.op == "agg" and b.op == "agg":
        if a.args[0] == b.args[0] and a.args[1] != b.args[1]:
            return FALSE
        if a.args[0] == b.args[0] and len(a.args[2]) == len(b.args[2]):
            rs = [eq(x, y) for x, y in zip(a.args[2], b.args[2])]
            if any(r is FALSE for r in rs):
                return FALSE
            if all(r is TRUE for r in rs):
                return TRUE
            rs = [r for r in rs if r is not TRUE]
            if len(rs) == 1:
                return rs[0]
            return T("and", tuple(rs))
    ca, da = linear(a)
    cb, db = linear(b)
    if (a.op in ("sum", "int") or b.op in ("sum", "int")):
        c, d = linear(sub(a, b))
        if not d:
            return TRUE if c == 0 else FALSE
        if len(d) == 1:
            (k, v), = d.items()
            if v in (1, -1):
                return T("eq", k, INT(-c * v))
        pos = {k: v for k, v in d.items() if v > 0}
        neg = {k: -v for k, v in d.items() if v < 0}
        x = from_linear(c if c > 0 else 0, pos)
        y = from_linear(-c if c < 0 else 0, neg)
        a, b = x, y
        if b.op == "int":
            return T("eq", a, b)
        if a.op == "int":
            return T("eq", b, a)
    if a.op in lits or a.op == "agg":
        return T("eq", b, a)
    if b.op in lits or b.op == "agg":
        return T("eq", a, b)
    if skey(a) > skey(b):
        a, b = b, a
    return T("eq", a, b)


def neg(t):
    if t.op == "int":
        return FALSE if t.args[0] else TRUE
    if t.op == "not":
        return t.args[0]
    return T("not", t)


def show(t, depth=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
    if isinstance(t, frozenset):
        return "{" + ", ".join(sorted(show(x, depth + 1) for x in t)) + "}"
    if not isinstance(t, Term):
        return str(t)
    o, a = t.op, t.args
    if o == "int":
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "agg":
        fs = ", ".join(show(x, depth + 1) for x in a[2])
        return "%s#%s{%s}" % (a[0], a[1], fs)
    if o == "fld":
        return "%s.%s%s" % (show(a[0], depth + 1), "" if not a[1] else "v%s." % a[1], a[2])
    if o == "ref":
        return "&%s%s" % (show(a[1], depth + 1), "".join(show_pe(p) for p in a[2]))
    if o == "sum":
        return "(" + "+".join(([str(a[0])] if a[0] else []) + [(("%d*" % v) if v != 1 else "") + show(k, depth + 1) for k, v in a[1]]) + ")"
    return "%s(%s)" % (o, ", ".join(show(x, depth + 1) for x in a))


def show_pe(p):
    if p[0] == "f":
        return ".%s%s" % ("v%s." % p[1] if p[1] else "", p[2])
    return "[%s]" % ", ".join(show(x) for x in p)
