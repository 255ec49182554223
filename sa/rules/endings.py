"""Answering a request always ends (C41)."""
import re
from terms import *
import terms
from prog import strip_generics
from ctx import short, facts_text, trace_text
from rules import prop
from rules.common import *
from rules.response import W
from rules.routers import *
from rules.search import searches, Turn
from rules.panics import scope

# takes one element away from what it is called on, or says that there is none
TAKES = re.compile(r"^(Iterator::(next|nth|find|find_map|position|rposition|try_fold)|DoubleEndedIterator::(next_back|nth_back|rfind)|Peekable::next_if|"
                   r"(Vec|VecDeque|BinaryHeap|LinkedList|HashMap|BTreeMap)::(pop|pop_front|pop_back|pop_first|pop_last)|Option::take)$")
POPS = re.compile(r"^(Vec|VecDeque|BinaryHeap|LinkedList|BTreeMap)::|^Option::take$")
GROWS = re.compile(r"::(push|push_front|push_back|extend|insert|append|resize|push_str|replace|extend_from_slice|get_or_insert|get_or_insert_with)$|^synth::push$|^mem::(swap|replace)$")
READS = re.compile(r"^(Read::read|BufRead::(read_until|read_line|fill_buf)|Read::read_vectored)$")
ENDLESS = ("Repeat", "RepeatWith", "RangeFrom", "Cycle", "Successors", "FromFn", "Incoming", "IntoIncoming")
EITHER = ("Zip",)
THROUGH = re.compile(r"^(Deref::deref|DerefMut::deref_mut|Iterator::by_ref|IntoIterator::into_iter|Option::(as_mut|as_ref|unwrap|expect|as_deref_mut|as_deref)|AsMut::as_mut|AsRef::as_ref|BorrowMut::borrow_mut)$")
SAME = re.compile(r"^Option::(map|cloned|copied|as_ref|as_mut|filter|and_then|as_deref)$")


def succs(blk):
    t = blk["t"]
    r = {"goto": lambda: [t[1]], "switch": lambda: [x[1] for x in t[2]] + [t[3]], "drop": lambda: [t[2]], "call": lambda: [t[4]], "assert": lambda: [t[5]]}.get(t[0], lambda: [])()
    return [x for x in r if x is not None]


def components(nodes, edges):
    """the strongly connected parts with a cycle in them"""
    index, low, stack, on, out = {}, {}, [], set(), []
    n = [0]
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(edges.get(root, ())))]
        index[root] = low[root] = n[0]
        n[0] += 1
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            w = next((w for w in it if w in nodes), None)
            if w is None:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    s = set()
                    while True:
                        x = stack.pop()
                        on.discard(x)
                        s.add(x)
                        if x == v:
                            break
                    if len(s) > 1 or v in edges.get(v, ()):
                        out.append(s)
            elif w not in index:
                index[w] = low[w] = n[0]
                n[0] += 1
                stack.append(w)
                on.add(w)
                work.append((w, iter(edges.get(w, ()))))
            elif w in on:
                low[v] = min(low[v], index[w])
    return out


def span_of(t):
    return t[-1] if isinstance(t[-1], list) else None


class Body:
    """the loops of one function"""

    def __init__(self, c, bi, extra=()):
        self.c, self.p, self.bi = c, c.p, bi
        self.b = c.p.bodies[bi]
        self.blocks = self.b["blocks"]
        self.nodes = {i for i, x in enumerate(self.blocks) if not x.get("c")}
        self.edges = {i: [j for j in succs(self.blocks[i]) if j in self.nodes] for i in self.nodes}
        self.extra = set(extra)
        self.defs = {}
        for i in self.nodes:
            for s in self.blocks[i]["s"]:
                if s[0] == "=":
                    self.defs.setdefault(s[1][0], []).append((s[1][1:], s[2], i))
            t = self.blocks[i]["t"]
            if t[0] == "call":
                self.defs.setdefault(t[3][0], []).append((t[3][1:], ("call", t), i))
        self.reasons = []

    def callee(self, i):
        t = self.blocks[i]["t"]
        return self.p.callees[t[1][1]] if t[0] == "call" and t[1][0] == "fn" else None

    def resolve(self, pl, depth=0):
        """the place behind references and copies"""
        r, proj = pl[0], [tuple(x) if isinstance(x, list) else x for x in pl[1:]]
        ds = self.defs.get(r, ())
        if depth < 30 and len(ds) == 1 and not ds[0][0] and r > self.b["argc"]:
            d = ds[0][1]
            if d[0] == "ref" and (proj[:1] == ["*"] or not proj):
                x = self.resolve(d[2], depth + 1)
                return x + tuple(proj[1:])
            if d[0] == "use" and d[1][0] in ("c", "m"):
                return self.resolve(list(d[1][1]) + proj, depth + 1)
            if d[0] == "cast" and d[2][0] in ("c", "m"):
                return self.resolve(list(d[2][1]) + proj, depth + 1)
            if d[0] == "call" and d[1][1][0] == "fn" and d[1][2] and d[1][2][0][0] in ("c", "m") and THROUGH.match(self.p.callees[d[1][1][1]]["short"]):
                x = self.resolve(d[1][2][0][1], depth + 1)
                return x
        return (r,) + tuple(x for x in proj if x != "*")

    def operand(self, o):
        return self.resolve(o[1]) if o[0] in ("c", "m") else None

    def number(self, o, depth=0):
        """a constant operand"""
        if o[0] == "k":
            v = o[1].get("v")
            return int(v["int"]) if isinstance(v, dict) and "int" in v else None
        if o[0] in ("c", "m") and depth < 10:
            ds = self.defs.get(o[1][0], ())
            if len(ds) == 1 and not ds[0][0] and ds[0][1][0] == "use" and len(o[1]) == 1:
                return self.number(ds[0][1][1], depth + 1)
        return None

    # ---- loops
    def judge(self):
        """the loops for which nothing shows that they end: [(blocks, reasons)]"""
        bad, self.n = [], 0
        work = [(self.nodes, self.edges)]
        while work:
            nodes, edges = work.pop()
            for s in components(nodes, edges):
                self.n += 1
                self.reasons = []
                cut = {i for i in s if self.progress(i, s)}
                if not cut:
                    bad.append((s, list(self.reasons)))
                    continue
                rest = s - cut
                work.append((rest, {i: [j for j in edges.get(i, ()) if j in rest] for i in rest}))
        return bad

    def assigned(self, root, s):
        """is this place, or one around it, replaced inside of the loop?"""
        for pj, d, i in self.defs.get(root[0], ()):
            if i not in s:
                continue
            pj = tuple(tuple(x) if isinstance(x, list) else x for x in pj if x != "*")
            if pj == tuple(root[1:1 + len(pj)]):
                return True
        # something that holds another reference to it
        for i in s:
            cc = self.callee(i)
            if cc and cc["short"] in ("mem::swap", "mem::replace"):
                for o in self.blocks[i]["t"][2][:1 if cc["short"] == "mem::replace" else 2]:
                    x = self.operand(o)
                    if x and x == root[:len(x)]:
                        return True
        return False

    def leaves(self, j, s):
        return j not in s

    def none_leaves(self, dest, s, none=0):
        """does the loop end when the result in this place says that there was nothing?"""
        # (place) -> discriminant that means nothing
        want = {tuple(dest): none}
        work = [tuple(dest)]
        while work:
            pl = work.pop()
            val = want[pl]

            def under(o):
                return o[0] in ("c", "m") and tuple(tuple(x) if isinstance(x, list) else x for x in o[1]) == pl
            for i in s:
                for st in self.blocks[i]["s"]:
                    if st[0] != "=":
                        continue
                    tgt = tuple(tuple(x) if isinstance(x, list) else x for x in st[1])
                    rv = st[2]
                    new = None
                    if rv[0] == "use" and under(rv[1]):
                        new = (tgt, val)
                    elif rv[0] == "ref" and tuple(tuple(x) if isinstance(x, list) else x for x in rv[2]) == pl:
                        new = (tgt + ("*",), val)
                        if tgt not in want:
                            want[tgt] = val
                            work.append(tgt)
                    elif rv[0] == "agg" and rv[1][0] in ("tuple", "adt"):
                        for k, o in enumerate(rv[2]):
                            if under(o):
                                v = rv[1][2] if rv[1][0] == "adt" else 0
                                new = (tgt + (("f", v, k),), val)
                    elif rv[0] == "discr" and tuple(tuple(x) if isinstance(x, list) else x for x in rv[1]) == pl:
                        new = (tgt + ("discr",), val)
                    elif rv[0] == "un" and rv[1] == "Not" and under(rv[2]):
                        new = (tgt, 1 - val)
                    if new and new[0] not in want:
                        want[new[0]] = new[1]
                        work.append(new[0])
                t = self.blocks[i]["t"]
                if t[0] == "call" and t[1][0] == "fn" and t[2] and under(t[2][0]):
                    n = self.p.callees[t[1][1]]["short"]
                    tgt = tuple(tuple(x) if isinstance(x, list) else x for x in t[3])
                    if n in ("Option::unwrap", "Option::expect"):
                        return True
                    v = val if SAME.match(n) or n == "Option::is_some" else 1 if n in ("Option::ok_or", "Option::ok_or_else", "Try::branch", "Option::is_none", "Result::is_err") else 0 if n in ("Result::ok", "Result::is_ok") else None
                    if v is not None and tgt not in want:
                        want[tgt] = v
                        work.append(tgt)
        for i in s:
            t = self.blocks[i]["t"]
            if t[0] == "switch" and t[1][0] in ("c", "m"):
                q = tuple(tuple(x) if isinstance(x, list) else x for x in t[1][1])
                v = want.get(q + ("discr",), want.get(q) if self.p.types[self.b["locals"][q[0]]]["s"] == "bool" else None)
                if v is None:
                    continue
                tab = {int(x[0]): x[1] for x in t[2]}
                if self.leaves(tab.get(v, t[3]), s):
                    return True
        return False

    def finite(self, ti, depth=0):
        t = self.p.types[ti]
        if t["k"] == "ref":
            return self.finite(t["e"] if "e" in t else t["t"], depth + 1)
        if t["k"] != "adt" or depth > 12:
            return True
        n = self.p.last(t["path"])
        if n in ENDLESS:
            return False
        args = [a for a in t.get("args", ()) if a is not None]
        if n in EITHER:
            return any(self.finite(a, depth + 1) for a in args)
        if n in ("Take", "TakeWhile", "MapWhile", "Scan"):
            return True
        return not args or self.finite(args[0], depth + 1)

    def progress(self, i, s):
        """can this block not be passed again and again?"""
        if i in self.extra:
            return True
        t = self.blocks[i]["t"]
        cc = self.callee(i)
        if cc is not None and t[2]:
            n = cc["short"]
            where = self.p.where(tuple(t[-1])) if t[-1] and t[-1][1] else ""
            if TAKES.match(n):
                root = self.operand(t[2][0])
                if root is None:
                    return False
                if not POPS.match(n) and cc.get("args") and not self.finite(cc["args"][0]):
                    self.reasons.append("%s: the loop goes through something that does not end" % where)
                    return False
                if self.assigned(root, s):
                    self.reasons.append("%s: what the loop goes through is made anew inside of it" % where)
                    return False
                if POPS.match(n) and self.grown(root, s, i):
                    self.reasons.append("%s: elements are added again inside of the loop" % where)
                    return False
                if not self.none_leaves(t[3], s):
                    self.reasons.append("%s: the loop does not end when there are no more elements" % where)
                    return False
                return True
            if READS.match(n) and self.zero_leaves(t[3], s):
                return True
        for st in self.blocks[i]["s"]:
            if st[0] == "=" and (self.counts(st, s) or self.shrinks(st[1], st[2], s)):
                return True
        if t[0] == "call" and self.shrinks(t[3], ("call", t), s):
            return True
        return False

    def grown(self, root, s, at):
        for i in s:
            cc = self.callee(i)
            if cc is None or i == at:
                continue
            t = self.blocks[i]["t"]
            if t[2] and GROWS.search(cc["short"]):
                x = self.operand(t[2][0])
                n = min(len(x), len(root)) if x else 0
                if n and x[:n] == root[:n]:
                    return True
        # assigned as a field, as in `self.current = Some(..)`
        return self.assigned(root, s)

    # ---- numbers that grow
    def counts(self, st, s):
        pl = st[1]
        if len(pl) != 1 and not all(x == "*" or isinstance(x, list) for x in pl[1:]):
            return False
        root = (pl[0],) + tuple(tuple(x) if isinstance(x, list) else x for x in pl[1:] if x != "*")
        if self.step(st[2], root) is None:
            return False
        for pj, d, i in self.defs.get(root[0], ()):
            if i in s and (root[0],) + tuple(tuple(x) if isinstance(x, list) else x for x in pj if x != "*") == root and self.step(d, root) is None:
                return False
        return self.compared(root, s)

    def step(self, d, root, depth=0):
        """by how much this value is more than what is in the place"""
        if d[0] == "use" and d[1][0] in ("c", "m") and depth < 6:
            q = d[1][1]
            ds = [x for x in self.defs.get(q[0], ())]
            if len(ds) == 1 and not ds[0][0]:
                return self.step(ds[0][1], root, depth + 1)
            return None
        if d[0] == "bin" and (d[1].startswith("Add") or d[1].startswith("Sub")):
            a, k = self.operand(d[2]), self.number(d[3])
            if a == root and k is not None and k > 0:
                return k if d[1].startswith("Add") else -k
            b, k = self.operand(d[3]), self.number(d[2])
            if d[1].startswith("Add") and b == root and k is not None and k > 0:
                return k
        return None

    def compared(self, root, s):
        """the loop ends when the number gets to a limit"""
        for i in s:
            t = self.blocks[i]["t"]
            if t[0] == "switch" and t[1][0] in ("c", "m"):
                ds = self.defs.get(t[1][1][0], ())
                outs = [j for j in [x[1] for x in t[2]] + [t[3]] if self.leaves(j, s)]
                if not outs:
                    continue
                if self.resolve(t[1][1]) == root:
                    return True
                for pj, d, k in ds:
                    if d[0] == "bin" and d[1] in ("Lt", "Le", "Gt", "Ge", "Ne", "Eq") and root in (self.operand(d[2]), self.operand(d[3])):
                        other = d[3] if self.operand(d[2]) == root else d[2]
                        if not self.growing(other, s):
                            return True
            cc = self.callee(i)
            if cc is not None and cc["short"] in ("[T]::get", "Vec::get", "slice::get", "[T]::get_mut") and len(t[2]) == 2 and self.operand(t[2][1]) == root and self.none_leaves(t[3], s):
                return True
        return False

    def growing(self, o, s):
        """the length of something that grows inside of the loop"""
        if o[0] not in ("c", "m"):
            return False
        for pj, d, k in self.defs.get(o[1][0], ()):
            if d[0] == "call" and d[1][1][0] == "fn" and self.p.callees[d[1][1][1]]["short"].endswith("::len") and d[1][2]:
                root = self.operand(d[1][2][0])
                if root and self.grown(root, s - {k}, -1) and k in s:
                    return True
        return False

    # ---- pieces that get shorter
    def shrinks(self, pl, d, s):
        """is a rest of itself stored in this place, and does something end the loop?"""
        root = (pl[0],) + tuple(tuple(x) if isinstance(x, list) else x for x in pl[1:] if x != "*")
        if not self.rest(d, root, s, 0):
            return False
        for pj, d2, i in self.defs.get(root[0], ()):
            if i in s and (root[0],) + tuple(tuple(x) if isinstance(x, list) else x for x in pj if x != "*") == root and d2 is not d and not (d2[0] == d[0] == "call" and d2[1] is d[1]) and not self.rest(d2, root, s, 0):
                return False
        return any(j not in s for i in s for j in succs(self.blocks[i]) if j in self.nodes)

    def positive(self, o, s, depth=0):
        k = self.number(o)
        if k is not None:
            return k > 0
        if o[0] not in ("c", "m") or depth > 8:
            return False
        ds = self.defs.get(o[1][0], ())
        for pj, d, i in ds:
            if d[0] == "use":
                if self.positive(d[1], s, depth + 1):
                    return True
            if d[0] == "call":
                # what a vector does not take is not written, and it takes everything
                x = d[1]
                n = self.p.callees[x[1][1]] if x[1][0] == "fn" else {"short": ""}
                if n["short"] == "Write::write" and n.get("args") and self.p.tname(n["args"][0]) == "Vec":
                    return True
                if n["short"] in ("Result::unwrap", "Result::expect", "Option::unwrap", "Option::expect", "Try::branch") and x[2] and self.positive(x[2][0], s, depth + 1):
                    return True
            if d[0] == "bin" and d[1].startswith("Add") and any((self.number(x) or 0) > 0 for x in d[2:4]):
                return True
        # a result of which 0 was ruled out
        root = self.operand(o)
        for i in s:
            for st in self.blocks[i]["s"]:
                if st[0] == "=" and st[2][0] == "bin" and st[2][1] in ("Eq", "Ne", "Gt", "Lt") and root in (self.operand(st[2][2]), self.operand(st[2][3])) and 0 in (self.number(st[2][2]), self.number(st[2][3])):
                    return True
            t = self.blocks[i]["t"]
            if t[0] == "switch" and t[1][0] in ("c", "m") and self.operand(t[1]) == root and any(int(x[0]) == 0 for x in t[2]):
                return True
        return False

    def rest(self, d, root, s, depth):
        """is this value a shorter piece of the place?"""
        if depth > 8:
            return False
        if d[0] == "use" and d[1][0] in ("c", "m"):
            ds = self.defs.get(d[1][1][0], ())
            proj = d[1][1][1:]
            return any(self.piece(x, proj, root, s, depth) for pj, x, i in ds if not pj)
        if d[0] == "ref":
            ds = self.defs.get(d[2][0], ())
            return any(self.piece(x, d[2][1:], root, s, depth) for pj, x, i in ds if not pj)
        if d[0] == "call":
            return self.piece(d, [], root, s, depth)
        return False

    def piece(self, x, proj, root, s, depth):
        if x[0] in ("use", "ref"):
            return self.rest(x, root, s, depth + 1)
        if x[0] != "call" or x[1][1][0] != "fn":
            return False
        t = x[1]
        n = self.p.callees[t[1][1]]["short"]
        if not t[2] or self.operand(t[2][0]) != root:
            return THROUGH.match(n) is not None and bool(t[2]) and t[2][0][0] in ("c", "m") and self.rest(("use", t[2][0]), root, s, depth + 1)
        m = n.split("::")[-1]
        if m in ("split_first", "split_last", "strip_prefix", "split_once"):
            return True
        if m in ("split_at", "split_at_mut", "split_at_checked"):
            return self.positive(t[2][1], s)
        if m in ("index", "get", "get_unchecked", "index_mut") and len(t[2]) > 1 and t[2][1][0] in ("c", "m"):
            for pj, d, i in self.defs.get(t[2][1][1][0], ()):
                if d[0] == "agg" and d[1][0] == "adt" and self.p.last(self.p.types[d[1][1]]["path"]) in ("RangeFrom", "Range"):
                    return self.positive(d[2][0], s)
                if d[0] == "agg" and d[1][0] == "adt" and self.p.last(self.p.types[d[1][1]]["path"]) == "RangeTo":
                    return True
        return False

    def zero_leaves(self, dest, s):
        """does the loop end when the result says that there were no bytes?"""
        seen = {dest[0]}
        grew = True
        while grew:
            grew = False
            for i in s:
                for st in self.blocks[i]["s"]:
                    if st[0] == "=" and st[1][0] not in seen and st[2][0] != "bin" and any(x in seen for x in locals_of(st[2])):
                        seen.add(st[1][0])
                        grew = True
                t = self.blocks[i]["t"]
                if t[0] == "call" and t[3][0] not in seen and any(o[0] in ("c", "m") and o[1][0] in seen for o in t[2]):
                    seen.add(t[3][0])
                    grew = True
        # an error must end it too, unless what kind of error it is was looked at
        if not self.none_leaves(dest, s, 1) and not any((self.callee(i) or {}).get("short", "").endswith("Error::kind") for i in s):
            self.reasons.append("the loop goes on after every error")
            return False
        for i in s:
            t = self.blocks[i]["t"]
            if t[0] != "switch" or t[1][0] not in ("c", "m"):
                continue
            tested = [d for pj, d, k in self.defs.get(t[1][1][0], ()) if d[0] == "bin" and any(x in seen for x in locals_of(d))]
            if t[1][1][0] not in seen and not tested:
                continue
            ty = self.p.types[self.b["locals"][t[1][1][0]]]["s"] if len(t[1][1]) == 1 else "usize"
            if ty == "bool":
                for d in tested + [x[1] for x in self.defs.get(t[1][1][0], ()) if x[1][0] == "call"]:
                    zero = d[0] == "bin" and 0 in (self.number(d[2]), self.number(d[3])) or d[0] == "call" and d[1][1][0] == "fn" and self.p.callees[d[1][1][1]]["short"].endswith("is_empty")
                    if zero and any(self.leaves(j, s) for j in succs(self.blocks[i])):
                        return True
            elif any(int(x[0]) == 0 and self.leaves(x[1], s) for x in t[2]) and not any(d[0] == "discr" for pj, d, k in self.defs.get(t[1][1][0], ())):
                return True
        return False


def locals_of(rv):
    k = rv[0]
    if k in ("use", "rep"):
        ops = [rv[1]]
    elif k in ("cast", "un"):
        ops = [rv[2]]
    elif k == "bin":
        ops = rv[2:4]
    elif k == "agg":
        ops = rv[2]
    elif k == "ref":
        return [rv[2][0]]
    elif k == "discr":
        return [rv[1][0]]
    else:
        ops = []
    return [o[1][0] for o in ops if o[0] in ("c", "m")]


def search_ends(c):
    """every turn of the router's search only goes on with later parts of the path: {(body, block)} of the loops shown to end"""
    w = W(c)
    E = Env(c)
    heads = set()
    if not w.good or not E.good:
        return heads
    n = 0
    for s in searches(c, w, E):
        eng = s.eng
        n += 1
        heads.add(s.head[-1])
        for tn in s.turns():
            t = Turn(s, tn)
            c.count("turns of the search")
            seen = {}
            for x in t.pushed:
                pl, b, i, k = s.parts(eng, x[3])
                c.count("steps of the search")
                if not c.require(t.inside, "search:past-end", t.where(x), "the search goes on although the path is not known to have another segment", t.det):
                    continue
                d, more = terms.linear(terms.sub(i, t.i))
                c.require(not more and d >= 1, "search:progress", t.where(x), "the search goes on without moving on in the path: from %s to %s" % (short(t.i), short(i)), t.det)
                if t.role == "Wildcard" or t.role is None:
                    continue
                place = s.place(pl)
                below = place is not t.node and under(place, t.node)
                c.require(below, "search:node", t.where(x), "a branch that is no sequence does not go on below its node: %s" % short(place), t.det)
                r = s.role(eng, t.v, b) or (t.role if b is t.b else None)
                seen.setdefault(r, []).append(x)
            for r, xs in seen.items():
                c.require(len(xs) == 1 and r is not None, "search:once", t.where(xs[-1]), "a branch that is no sequence adds the same branch of a child %d times" % len(xs), t.det)
    c.floor("steps of the search", 6)
    return heads if n == 2 else set()


def under(place, node):
    v = place
    while v is not node:
        if v.op in ("fld", "deref", "elem"):
            v = v.args[0]
        else:
            return False
    return True


@prop("C41")
def c41(c):
    c.rule("every turn of the tree router's search goes on with strictly later positions of the path only, and never beyond its end; a static or variable branch adds each branch of a child once, so that a tree without sequences is walked at most once")
    c.rule("every other loop that runs while a request is answered takes, in each turn, an element from something finite that is not refilled, or moves a number towards a limit, or cuts a piece off, and is left when nothing remains")
    c.rule("an iterator of the crate only returns an element if it took one from what it goes through, or gave up one that it kept")
    c.rule("no function that runs while a request is answered calls itself through resolved calls")
    p = c.p
    heads = search_ends(c)
    fs = scope(c)
    paths = {strip_generics(f["path"]) for f in fs}
    bodies = [bi for bi, b in enumerate(p.bodies) if b is not None and b.get("local") and b.get("kind") != "promoted" and strip_generics(b["path"]) in paths]
    for bi in bodies:
        b = p.bodies[bi]
        c.count("functions")
        extra = {bb for x, bb in heads if x == bi}
        bd = Body(c, bi, extra)
        for s, why in bd.judge():
            spans = [span_of(bd.blocks[i]["t"]) for i in sorted(s)]
            line = list(dict.fromkeys(p.where(tuple(x)) for x in spans if x and x[1]))
            where = "%s %s" % (line[0] if line else p.where(b["span"]), strip_generics(b["path"]))
            c.violation("loop:" + strip_generics(b["path"]), where, "nothing shows that this loop ends" + ("; " + "; ".join(why[:3]) if why else ""), ["loop of %d blocks" % len(s)] + [x for x in line[:8]])
        c.count("loops", bd.n)
    iterators(c, fs)
    recursion(c, bodies)
    c.floor("functions", 100)
    c.floor("loops", 10)


def iterators(c, fs):
    p = c.p
    for f in fs:
        if f["name"] != "next" or not f.get("trait") or p.last(strip_generics(f["trait"])) != "Iterator":
            continue
        c.count("iterators")
        where = c.where(f)
        me = T("O", T("param", 1))

        def rel(eng, st, call, res):
            if res is not None and TAKES.match(call.name) and not POPS.match(call.name):
                return ("take", res)
            return None
        eng = c.engine(rel=rel, opaque=lambda cc: TAKES.match(cc["short"]) is not None and not POPS.match(cc["short"]))
        opts = []
        t = p.types[f["self"]] if f.get("self") is not None else None
        if t is not None and t["k"] == "adt" and len(t.get("vs", ())) == 1:
            opts = [i for i, x in enumerate(t["vs"][0]["fs"]) if p.tname(x[1]) == "Option"]
        for e in c.run(eng, f) or ():
            if e.kind != "return":
                continue
            d = eng.known(e.st, eng.discr(e.ret))
            if d == 0:
                continue
            c.count("elements returned")
            takes = [x[1] for x in e.trace if x[0] == "take"]
            good = any(e.ret is x or eng.known(e.st, eng.discr(x)) == 1 for x in takes)
            for i in opts:
                before = eng.discr(T("fld", T("deref", T("param", 1)), 0, i))
                after = eng.discr(eng.load(e.st, me, (("f", 0, i),)))
                good = good or eng.known(e.st, before) == 1 and eng.known(e.st, after) == 0
            # an option that something else took its content from
            good = good or any(x[0] == "loop" for x in e.trace) and any(eng.known(e.st, eng.discr(eng.load(e.st, me, (("f", 0, i),)))) == 0 for i in opts)
            c.require(good, "iterator:" + strip_generics(f["path"]), where, "an element is returned although nothing was taken for it, again and again perhaps", trace_text(e.trace) + facts_text(e.facts))


def recursion(c, bodies):
    p = c.p
    edges = {}
    for bi in bodies:
        cs, bs, ds = c.cg.edges(bi)
        out = set(bs)
        for ci, _ in cs:
            x = p.callees[ci].get("body")
            if x is not None and p.bodies[x] is not None and p.bodies[x].get("local"):
                out.add(x)
        edges[bi] = out
    for s in components(set(edges), edges):
        b = p.bodies[min(s)]
        c.violation("recursion:" + strip_generics(b["path"]), "%s %s" % (p.where(b["span"]), strip_generics(b["path"])), "a function that runs while a request is answered calls itself; nothing shows that this ends", [p.bodies[x]["path"] for x in sorted(s)])
    c.count("functions looked at for recursion", len(edges))
