"""Abstract interpretation of MIR.

The domain is a finite set of abstract states per program point (trace
partitioning): a state maps every live local to a provenance term and records what
the branches taken imply about opaque terms.  Calls whose body is known are
analysed in place, calls that leave the crate (or recurse) are events with an
opaque result named after the call site; executing a site again renames its older
result (recency abstraction), integers that keep growing are widened.  The result
is a finite graph whose edges are events, branches, returns and panics.
"""
import json
import sys
from terms import *

sys.setrecursionlimit(20000)


def frozen(c):
    """a constant made of plain data only, which nothing can change"""
    if not c:
        return False
    if c["k"] == "agg":
        return c["a"] in ("tuple", "array") and all(frozen(x) for x in c["v"])
    if c["k"] == "ref":
        return frozen(c["v"])
    return c["k"] in ("str", "int", "bool", "char", "scalar")


class Prog:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.bodies = d["bodies"]
        self.types = d["types"]
        self.roots = d["roots"]
        self.statics = d["statics"]
        self.impls = d["impls"]
        self.adts = {a["path"]: a for a in d["adts"]}
        self._live = {}
        self._heads = {}
        self._const = {}
        self.by_canon = {}
        for b in self.bodies:
            if b:
                self.by_canon.setdefault(b["canon"], []).append(b)

    def ty(self, i):
        return self.types[i]

    def root(self, pred):
        return [r for r in self.roots if pred(r)]

    # ---- liveness of locals, per block entry
    def live(self, bid):
        r = self._live.get(bid)
        if r is not None:
            return r
        b = self.bodies[bid]
        n = len(b["blocks"])
        use = [set() for _ in range(n)]
        kill = [set() for _ in range(n)]
        succ = [[] for _ in range(n)]

        def place_use(p, u, k):
            if p[0] not in k:
                u.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "i" and e[1] not in k:
                    u.add(e[1])

        def op_use(o, u, k):
            if "c" in o:
                place_use(o["c"], u, k)
            elif "m" in o:
                place_use(o["m"], u, k)

        for i, bb in enumerate(b["blocks"]):
            if bb is None:
                continue
            u, k = use[i], kill[i]
            for s in bb["s"]:
                if s[0] == "=":
                    for o in rv_operands(s[2]):
                        if isinstance(o, dict):
                            op_use(o, u, k)
                        else:
                            place_use(o, u, k)
                    if len(s[1]) == 1:
                        k.add(s[1][0])
                    else:
                        place_use(s[1], u, k)
                elif s[0] == "setd":
                    place_use(s[1], u, k)
            t = bb["t"]
            if t[0] == "goto":
                succ[i] = [t[1]]
            elif t[0] == "switch":
                op_use(t[1], u, k)
                succ[i] = [x[1] for x in t[2] if x[1] is not None] + ([t[3]] if t[3] is not None else [])
            elif t[0] == "ret":
                if 0 not in k:
                    u.add(0)
            elif t[0] == "drop":
                succ[i] = [t[2]]
            elif t[0] == "call":
                op_use(t[1], u, k)
                for o in t[2]:
                    op_use(o, u, k)
                if len(t[3]) > 1:
                    place_use(t[3], u, k)
                if t[4] is not None:
                    succ[i] = [t[4]]
            elif t[0] == "assert":
                op_use(t[1], u, k)
                for o in t[3][1:]:
                    if isinstance(o, dict):
                        op_use(o, u, k)
                succ[i] = [t[4]]
        livein = [set(use[i]) for i in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                if b["blocks"][i] is None:
                    continue
                out = set()
                for s in succ[i]:
                    out |= livein[s]
                t = b["blocks"][i]["t"]
                if t[0] == "call" and len(t[3]) == 1:
                    out.discard(t[3][0])
                new = use[i] | (out - kill[i])
                # the destination of a call is assigned on the edge to its target
                if new != livein[i]:
                    livein[i] = new
                    ch = True
        r = [frozenset(x) for x in livein]
        self._live[bid] = r
        return r

    def headers(self, bid):
        """blocks that are targets of back edges"""
        r = self._heads.get(bid)
        if r is not None:
            return r
        b = self.bodies[bid]
        heads = set()
        color = {}
        stack = [(0, iter(self.succs(b, 0)))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                c = color.get(m, 0)
                if c == 1:
                    heads.add(m)
                elif c == 0:
                    color[m] = 1
                    stack.append((m, iter(self.succs(b, m))))
                    break
            else:
                color[n] = 2
                stack.pop()
        self._heads[bid] = heads
        return heads

    def succs(self, b, i):
        bb = b["blocks"][i]
        if bb is None:
            return []
        t = bb["t"]
        if t[0] == "goto":
            return [t[1]]
        if t[0] == "switch":
            return [x[1] for x in t[2] if x[1] is not None] + ([t[3]] if t[3] is not None else [])
        if t[0] == "drop":
            return [t[2]]
        if t[0] in ("call", "assert"):
            return [t[4]] if t[4] is not None else []
        return []

    def const(self, c):
        """constant JSON -> term"""
        k = c["k"]
        if k == "int":
            return INT(int(c["v"]), c["t"])
        if k == "str":
            return STR(c["v"])
        if k == "bytes":
            return mk("bytes", tuple(c["v"]))
        if k == "fn":
            v = c.get("v", c)
            i = id(v)
            t = self._const.get(i)
            if t is None:
                t = mk("fn", len(self._const), v.get("rpath") or v["path"])
                self._const[i] = t
                self._const[("rec", t)] = v
            return t
        if k == "agg":
            vs = [self.const(x) for x in c["v"]]
            if c["a"] == "tuple":
                return mk("tup", *vs)
            if c["a"] == "array":
                return mk("arr", *vs)
            if c["a"] == "closure":
                return mk("clo", c["inst"], self.bodies[c["inst"]]["canon"] if self.bodies[c["inst"]] else "?")
            return ADT(c["a"], c["var"], c["names"], *vs)
        if k == "zst":
            return mk("zst", c.get("t", ""))
        if k == "ref":
            return self.const(c["v"])
        if k == "closure":
            return mk("clo", c["inst"], c["canon"])
        if k == "static":
            if not c.get("mut") and frozen(c.get("val")):
                return self.const(c["val"])
            return mk("static", c.get("path") or c.get("v") or "?")
        return mk("const", c.get("u") or c.get("t") or json.dumps(c)[:80])

    def fnrec(self, t):
        return self._const.get(("rec", t))


def rv_operands(r):
    k = r[0]
    if k in ("use", "repeat"):
        return [r[1]]
    if k in ("ref", "rawptr", "reborrow"):
        return [r[2]]
    if k == "cast":
        return [r[2]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "un":
        return [r[2]]
    if k == "discr":
        return [r[1]]
    if k == "agg":
        return list(r[2])
    return []


class St:
    """mutable working state"""

    __slots__ = ("frames", "loc", "mem", "facts", "steps")

    def __init__(self, frames, loc, mem, facts):
        self.frames = frames  # list of (bid, bb, ctx, destplace, target)
        self.loc = loc
        self.mem = mem
        self.facts = facts

    def copy(self):
        return St(list(self.frames), dict(self.loc), dict(self.mem), dict(self.facts))


class Node:
    __slots__ = ("id", "st", "succ", "point", "term")

    def __init__(self, i, st, point):
        self.id = i
        self.st = st
        self.succ = None  # list of (label, node id)
        self.point = point
        self.term = None


class Ev:
    """an event: a call the analysis does not look into"""

    __slots__ = ("site", "name", "path", "self", "args", "res", "span", "rec", "argtys", "fn", "canon", "retty")
    kind = "ev"

    def __init__(self, site, name, path, selfh, args, res, span, rec, argtys, fn, retty):
        self.site, self.name, self.path, self.self, self.args, self.res, self.span = site, name, path, selfh, args, res, span
        self.rec, self.argtys, self.fn, self.retty = rec, argtys, fn, retty

    def __repr__(self):
        return "EV %s(%s) -> %s" % (self.name, ", ".join(map(show, self.args)), show(self.res))


class Br:
    __slots__ = ("term", "out", "span", "fn")
    kind = "br"

    def __init__(self, term, out, span, fn):
        self.term, self.out, self.span, self.fn = term, out, span, fn

    def __repr__(self):
        return "BR %s = %s" % (show(self.term), self.out)


class Step:
    kind = "step"

    def __repr__(self):
        return "."


STEP = Step()


class Term_:
    """end of a path"""

    __slots__ = ("kind", "val", "mem", "what", "span", "fn", "facts")

    def __init__(self, kind, val=None, mem=None, what=None, span=None, fn=None, facts=None):
        self.kind, self.val, self.mem, self.what, self.span, self.fn, self.facts = kind, val, mem, what, span, fn, facts

    def __repr__(self):
        return "END %s %s %s" % (self.kind, show(self.val) if self.val is not None else "", self.what or "")


# library functions that panic if their arguments do not fit
RISKY = {
    "core::ops::index::Index::index",
    "core::ops::index::IndexMut::index_mut",
    "alloc::vec::Vec::remove",
    "alloc::vec::Vec::swap_remove",
    "alloc::vec::Vec::insert",
    "alloc::vec::Vec::split_off",
    "alloc::vec::Vec::drain",
    "alloc::string::String::remove",
    "alloc::string::String::insert",
    "alloc::string::String::insert_str",
    "alloc::string::String::split_off",
    "alloc::string::String::drain",
    "core::slice::split_at",
    "core::str::split_at",
    "core::slice::copy_from_slice",
    "core::slice::clone_from_slice",
    "core::slice::swap",
}


class Graph:
    def __init__(self):
        self.risks = []
        self.nodes = []
        self.incomplete = None
        self.fns = set()
        self.unknown_calls = {}
        self.inits = []


BIG = 1 << 62


class TooBig(Exception):
    pass


DEFAULT_OPTS = dict(
    opaque=lambda canon, rec: False,
    max_nodes=300000,
    max_depth=70,
    sticky=False,  # keep facts about arguments
    widen_after=1,
    models=None,
    frame=None,  # canon -> fields of a mutable argument the function changes
    keep_mem=True,
    pushed=(),  # element types whose containers tell what was pushed
)


class Interp:
    def __init__(self, prog, handlers, **opts):
        self.p = prog
        self.h = handlers
        self.o = dict(DEFAULT_OPTS)
        self.o.update(opts)
        self.sites = {}
        self.site_info = []
        self.ctxs = {(): 0}
        self.ctx_info = [()]
        self.tsh = {}
        self.tshi = {}
        self.notes = set()
        self.arrlen = {}

    # ------------------------------------------------------------ naming
    def ctx(self, parent, bid, bb):
        k = (parent, bid, bb)
        i = self.ctxs.get(k)
        if i is None:
            i = len(self.ctx_info)
            self.ctxs[k] = i
            self.ctx_info.append(k)
        return i

    def site(self, st, sub=""):
        f = st.frames[-1]
        k = (f[2], f[0], f[1], sub)
        i = self.sites.get(k)
        if i is None:
            i = len(self.site_info)
            self.sites[k] = i
            self.site_info.append(k)
        return i

    # ------------------------------------------------------------ memory
    def load(self, st, loc, proj):
        if loc.op == "lloc":
            v = st.loc.get(loc.a, None)
            if v is None:
                v = mk("uninit")
        else:
            v = st.mem.get(loc)
            if v is None:
                v = loc.a[0]
        for p in proj:
            v = self.getp(st, v, p)
        return v

    def getp(self, st, v, p):
        while v.op == "ref":
            v = self.load(st, v.a[0], v.a[1])
        if v.op == "upd":
            for k, x in zip(v.a[1], v.a[2:]):
                if k == p:
                    return x
            return self.getp(st, v.a[0], p)
        if p[0] == "f":
            _, var, name = p
            if v.op == "adt":
                if var and v.a[1] != var and var != v.a[1]:
                    return UNK("field of other variant")
                try:
                    return v.a[3 + v.a[2].index(name)]
                except ValueError:
                    return UNK("no field %s" % name)
            if v.op == "tup":
                i = int(name) if name.isdigit() else 99
                return v.a[i] if i < len(v.a) else UNK("tuple field")
            if v.op == "clo":
                i = int(name) if name.isdigit() else 99
                return v.a[2 + i] if 2 + i < len(v.a) else UNK("capture")
            if v.op == "uninit":
                return v
            if v.op == "unk":
                return v
            if v.op == "bin" and name in ("0", "1"):
                pass
            return mk("fld", v, var or "", name)
        if p[0] == "i":
            ix = p[1]
            if v.op == "arr" and ix.op == "int" and 0 <= ix.a[0] < len(v.a):
                return v.a[ix.a[0]]
            if v.op == "rep":
                return v.a[0]
            if v.op == "bytes" and ix.op == "int" and 0 <= ix.a[0] < len(v.a[0]):
                return INT(v.a[0][ix.a[0]], "u8")
            return mk("idx", v, ix)
        if p[0] == "c":
            _, off, minlen, fe = p
            n = len(v.a) if v.op == "arr" else None
            if n is not None:
                i = n - off if fe else off
                if 0 <= i < n:
                    return v.a[i]
            return mk("idx", v, INT(-off if fe else off, "usize"))
        if p[0] == "s":
            return mk("sub", v, INT(p[1], "usize"), INT(p[2], "usize"), BOOL(p[3]))
        if p[0] == "d":
            return v
        return UNK("proj")

    def setp(self, st, v, proj, val):
        if not proj:
            return val
        p, rest = proj[0], proj[1:]
        if v.op == "upd":
            base, ks = v.a[0], tuple(zip(v.a[1], v.a[2:]))
        else:
            base, ks = v, ()
        if not ks:
            if base.op == "adt" and p[0] == "f" and p[2] in base.a[2] and (not p[1] or p[1] == base.a[1]):
                i = 3 + base.a[2].index(p[2])
                na = list(base.a)
                na[i] = self.setp(st, na[i], rest, val)
                return mk("adt", *na)
            if base.op == "tup" and p[0] == "f" and int(p[2]) < len(base.a):
                na = list(base.a)
                na[int(p[2])] = self.setp(st, na[int(p[2])], rest, val)
                return mk("tup", *na)
            if base.op == "clo" and p[0] == "f" and int(p[2]) + 2 < len(base.a):
                na = list(base.a)
                na[2 + int(p[2])] = self.setp(st, na[2 + int(p[2])], rest, val)
                return mk("clo", *na)
            if base.op == "arr" and p[0] == "i" and p[1].op == "int" and p[1].a[0] < len(base.a):
                na = list(base.a)
                na[p[1].a[0]] = self.setp(st, na[p[1].a[0]], rest, val)
                return mk("arr", *na)
        cur = self.getp(st, v, p)
        nv = self.setp(st, cur, rest, val)
        d = [(k, x) for k, x in ks if k != p]
        if p[0] in ("i", "c"):
            d = [(k, x) for k, x in d if k[0] not in ("i", "c")]
        d.append((p, nv))
        d.sort(key=lambda kx: repr([y.id if isinstance(y, Term) else y for y in kx[0]]))
        return mkupd(base, tuple(d))

    def store(self, st, loc, proj, val):
        if not proj:
            new = val
        else:
            root = self.load(st, loc, ())
            new = self.setp(st, root, tuple(proj), val)
        if loc.op == "lloc":
            st.loc[loc.a] = new
        else:
            if new is loc.a[0]:
                st.mem.pop(loc, None)
            else:
                st.mem[loc] = new

    def resolve(self, st, place):
        d = len(st.frames) - 1
        loc = mk("lloc", d, place[0])
        proj = ()
        var = None
        for e in place[1:]:
            if e == "*":
                p = self.load(st, loc, proj)
                loc, proj = self.deref(p)
                var = None
            elif e == "?":
                proj = proj + (("?",),)
            elif e[0] == "f":
                proj = proj + (("f", var or "", e[1]),)
                var = None
            elif e[0] == "d":
                var = e[1]
            elif e[0] == "i":
                ix = st.loc.get((d, e[1]), mk("uninit"))
                proj = proj + (("i", ix),)
            elif e[0] == "c":
                proj = proj + (("c", e[1], e[2], e[3]),)
            elif e[0] == "s":
                proj = proj + (("s", e[1], e[2], e[3]),)
        return loc, proj

    def deref(self, p):
        if p.op == "ref":
            return p.a[0], p.a[1]
        return mk("ploc", p), ()

    def read(self, st, place):
        loc, proj = self.resolve(st, place)
        return self.load(st, loc, proj)

    def operand(self, st, o):
        if "k" in o:
            return self.p.const(o["k"])
        if "rt" in o:
            return FALSE
        return self.read(st, o["c"] if "c" in o else o["m"])

    # replace mutable references by what they point at
    def snap(self, st, t, depth=0):
        if not t.refs or depth > 8:
            return t
        if t.op == "ref":
            return self.snap(st, self.load(st, t.a[0], t.a[1]), depth + 1)
        ch = False
        na = []
        for x in t.a:
            if x.__class__ is Term and x.refs:
                y = self.snap(st, x, depth + 1)
                ch = ch or y is not x
                na.append(y)
            else:
                na.append(x)
        return mk(t.op, *na) if ch else t

    # ------------------------------------------------------------ facts
    def interval(self, st, t, ty=None):
        if t.op == "int":
            return (t.a[0], t.a[0])
        f = st.facts.get(t)
        r = None
        if t.op == "len":
            r = (0, (1 << 63) - 1)
        elif t.op == "cast" and t.a[0] in INTW:
            r = int_range(t.a[1])
            s = self.interval(st, t.a[2], t.a[0])
            if s and r and s[0] >= r[0] and s[1] <= r[1]:
                r = s
        elif t.op == "bin" and t.a[0] in ("Add", "Sub", "Mul", "Rem", "BitAnd", "Div", "Shr"):
            ty = ty or t.a[3]
            r = int_range(ty) if ty in INTW else None
            a = self.interval(st, t.a[1], t.a[3])
            b = self.interval(st, t.a[2], t.a[3])
            if r and a and b:
                v = None
                if t.a[0] == "Add":
                    v = (a[0] + b[0], a[1] + b[1])
                elif t.a[0] == "Sub":
                    v = (a[0] - b[1], a[1] - b[0])
                elif t.a[0] == "Mul" and a[0] >= 0 and b[0] >= 0:
                    v = (a[0] * b[0], a[1] * b[1])
                elif t.a[0] == "Rem" and b[0] > 0 and a[0] >= 0:
                    v = (0, min(a[1], b[1] - 1))
                elif t.a[0] == "BitAnd" and a[0] >= 0 and b[0] >= 0:
                    v = (0, min(a[1], b[1]))
                elif t.a[0] == "Div" and a[0] >= 0 and b[0] > 0:
                    v = (a[0] // b[1], a[1] // b[0])
                elif t.a[0] == "Shr" and a[0] >= 0 and b[0] >= 0:
                    v = (0, a[1] >> min(b[0], 127))
                if v:
                    if v[0] >= r[0] and v[1] <= r[1]:
                        r = v
        elif ty in INTW:
            r = int_range(ty)
        h = self.h.interval(self, st, t) if self.h else None
        if h:
            r = h if r is None else (max(r[0], h[0]), min(r[1], h[1]))
        if f is not None and f[0] == "int":
            lo, hi = f[1], f[2]
            if r is not None:
                lo = r[0] if lo is None else max(lo, r[0])
                hi = r[1] if hi is None else min(hi, r[1])
            return (lo if lo is not None else -(1 << 200), hi if hi is not None else 1 << 200)
        return r

    def canon_bool(self, t):
        pol = True
        while True:
            if t.op == "un" and t.a[0] == "Not":
                t = t.a[1]
                pol = not pol
                continue
            if t.op == "bin":
                o, a, b, ty = t.a
                if o == "Ne":
                    t, pol = mk("bin", "Eq", a, b, ty), not pol
                    continue
                if o == "Gt":
                    t = mk("bin", "Lt", b, a, ty)
                    continue
                if o == "Ge":
                    t, pol = mk("bin", "Lt", a, b, ty), not pol
                    continue
                if o == "Le":
                    t, pol = mk("bin", "Lt", b, a, ty), not pol
                    continue
                if o == "Eq":
                    if ty == "bool" and b.op == "int":
                        t, pol = a, (pol if b.a[0] else not pol)
                        continue
                    if ty == "bool" and a.op == "int":
                        t, pol = b, (pol if a.a[0] else not pol)
                        continue
                    if a.op == "int" and b.op != "int" or (a.op == "int") == (b.op == "int") and a.id > b.id:
                        t = mk("bin", "Eq", b, a, ty)
                if o == "Lt" and ty[:1] != "i" and ty in INTW:
                    # unsigned: 0 < x is x != 0 ; x < 1 is x == 0
                    if a.op == "int" and a.a[0] == 0:
                        t, pol = mk("bin", "Eq", b, a, ty), not pol
                        continue
                    if b.op == "int" and b.a[0] == 1:
                        t = mk("bin", "Eq", a, INT(0, ty), ty)
                        continue
            return t, pol

    def truth(self, st, t):
        """None, True or False"""
        if t.op == "int":
            return bool(t.a[0])
        t, pol = self.canon_bool(t)
        r = self._truth(st, t)
        return None if r is None else (r if pol else not r)

    def _truth(self, st, t):
        if t.op == "int":
            return bool(t.a[0])
        f = st.facts.get(t)
        if f is not None and f[0] == "b":
            return bool(f[1])
        if t.op == "bin":
            o, a, b, ty = t.a
            if o in ("Eq", "Lt"):
                if a is b:
                    return o == "Eq"
                ia, ib = self.interval(st, a, ty), self.interval(st, b, ty)
                if ia and ib:
                    if o == "Eq":
                        if ia[1] < ib[0] or ib[1] < ia[0]:
                            return False
                        if ia[0] == ia[1] == ib[0] == ib[1]:
                            return True
                        fa = st.facts.get(a)
                        if fa and fa[0] == "int" and ib[0] == ib[1] and ib[0] in fa[3]:
                            return False
                    else:
                        if ia[1] < ib[0]:
                            return True
                        if ia[0] >= ib[1]:
                            return False
                if o == "Eq":
                    for x, y in ((a, b), (b, a)):
                        l = st.facts.get(mk("bin", "Lt", x, y, ty))
                        if l and l[0] == "b" and l[1]:
                            return False
                    da, db = self.known_str(st, a), self.known_str(st, b)
                    if da is not None and db is not None:
                        return da == db
                else:
                    l = st.facts.get(mk("bin", "Lt", b, a, ty))
                    if l and l[0] == "b" and l[1]:
                        return False
                    e = mk("bin", "Eq", a, b, ty) if a.id < b.id or b.op == "int" else mk("bin", "Eq", b, a, ty)
                    l = st.facts.get(e)
                    if l and l[0] == "b" and l[1]:
                        return False
            if o == "BitAnd" and ty == "bool":
                x, y = self.truth(st, a), self.truth(st, b)
                if x is False or y is False:
                    return False
                if x and y:
                    return True
            if o == "BitOr" and ty == "bool":
                x, y = self.truth(st, a), self.truth(st, b)
                if x or y:
                    return True
                if x is False and y is False:
                    return False
            if o == "BitXor" and ty == "bool":
                x, y = self.truth(st, a), self.truth(st, b)
                if x is not None and y is not None:
                    return x != y
        if t.op == "isvar":
            known, exc = self.variant_of(st, t.a[0])
            if known is not None:
                return known == t.a[1]
            if t.a[1] in exc:
                return False
            if len(exc) == len(t.a[2]) - 1:
                return True
        if t.op == "ovf":
            o, a, b, ty = t.a
            r = int_range(ty)
            ia, ib = self.interval(st, a, ty), self.interval(st, b, ty)
            if r and ia and ib:
                if o == "Add":
                    v = (ia[0] + ib[0], ia[1] + ib[1])
                elif o == "Sub":
                    v = (ia[0] - ib[1], ia[1] - ib[0])
                else:
                    c = [x * y for x in ia for y in ib]
                    v = (min(c), max(c))
                if v[0] >= r[0] and v[1] <= r[1]:
                    return False
                if v[0] > r[1] or v[1] < r[0]:
                    return True
            if o == "Add" and b.op == "int" and b.a[0] == 1:
                # x + 1 cannot overflow when x < something is known
                for k, f in st.facts.items():
                    if k.op == "bin" and k.a[0] == "Lt" and k.a[1] is a and f == ("b", 1):
                        return False
            if o == "Sub":
                if r and r[0] == 0:
                    if self.truth(st, mk("bin", "Lt", a, b, ty)) is False:
                        return False
                    if b.op == "int" and b.a[0] == 1 and self.truth(st, mk("bin", "Eq", a, INT(0, ty), ty)) is False:
                        return False
        h = self.h.truth(self, st, t) if self.h else None
        return h

    def known_str(self, st, t):
        return t.a[0] if t.op == "str" else None

    def assume(self, st, t, val):
        """add the fact `t == val` (bool); False if impossible"""
        r = self.truth(st, t)
        if r is not None:
            return r == val
        t, pol = self.canon_bool(t)
        val = val if pol else not val
        if t.op == "isvar":
            x, name, m = t.a
            if val:
                st.facts[x] = ("is", name)
            else:
                allv = {n for _, n in m}
                _, exc = self.variant_of(st, x)
                exc = set(exc) | {name}
                rest = allv - exc
                if not rest:
                    return False
                st.facts[x] = ("is", rest.pop()) if len(rest) == 1 else ("not", frozenset(exc))
            return True
        if t.op == "bin":
            o, a, b, ty = t.a
            if o == "Eq" and b.op == "int":
                c = b.a[0]
                f = st.facts.get(a)
                lo, hi, ne = (f[1], f[2], f[3]) if f and f[0] == "int" else (None, None, frozenset())
                if val:
                    st.facts[a] = ("int", c, c, frozenset())
                else:
                    st.facts[a] = self.tight(("int", lo, hi, ne | {c}), ty)
                return True
            if o == "Lt" and b.op == "int":
                f = st.facts.get(a)
                lo, hi, ne = (f[1], f[2], f[3]) if f and f[0] == "int" else (None, None, frozenset())
                c = b.a[0]
                if val:
                    hi = c - 1 if hi is None else min(hi, c - 1)
                else:
                    lo = c if lo is None else max(lo, c)
                st.facts[a] = self.tight(("int", lo, hi, ne), ty)
                return True
            if o == "Lt" and a.op == "int":
                f = st.facts.get(b)
                lo, hi, ne = (f[1], f[2], f[3]) if f and f[0] == "int" else (None, None, frozenset())
                c = a.a[0]
                if val:
                    lo = c + 1 if lo is None else max(lo, c + 1)
                else:
                    hi = c if hi is None else min(hi, c)
                st.facts[b] = self.tight(("int", lo, hi, ne), ty)
                return True
            if o == "BitAnd" and ty == "bool" and val:
                st.facts[t] = ("b", 1)
                return self.assume(st, a, True) and self.assume(st, b, True)
            if o == "BitOr" and ty == "bool" and not val:
                st.facts[t] = ("b", 0)
                return self.assume(st, a, False) and self.assume(st, b, False)
        st.facts[t] = ("b", 1 if val else 0)
        return True

    def tight(self, f, ty):
        _, lo, hi, ne = f
        r = int_range(ty) if ty in INTW else None
        if r:
            if lo is not None and lo <= r[0]:
                lo = None
            if hi is not None and hi >= r[1]:
                hi = None
        l = lo if lo is not None else (r[0] if r else None)
        h = hi if hi is not None else (r[1] if r else None)
        while l is not None and l in ne:
            l += 1
        while h is not None and h in ne:
            h -= 1
        if r and l == r[0]:
            l = None
        if r and h == r[1]:
            h = None
        ne = frozenset(x for x in ne if (l is None or x > l) and (h is None or x < h))
        return ("int", l, h, ne)

    def variant_of(self, st, v):
        """(known variant name or None, excluded set)"""
        if v.op == "adt":
            return v.a[1], frozenset()
        if v.op == "upd":
            return self.variant_of(st, v.a[0])
        f = st.facts.get(v)
        if f is None:
            return None, frozenset()
        if f[0] == "is":
            return f[1], frozenset()
        if f[0] == "not":
            return None, f[1]
        return None, frozenset()

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, r, dplace=None):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1])
        if k in ("ref", "reborrow", "rawptr"):
            mut = r[1] is True or (k == "rawptr" and "Mut" in r[1])
            loc, proj = self.resolve(st, r[2])
            if not mut:
                return self.load(st, loc, proj)
            if loc.op == "ploc" and not proj:
                return loc.a[0]
            return mkref(loc, proj)
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, r[2]), r[3], r[4])
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, r[2]), self.operand(st, r[3]), self.p.ty(r[4])["s"])
        if k == "un":
            x = self.operand(st, r[2])
            if r[1] == "PtrMetadata":
                return self.length(st, x)
            if r[1] == "Not":
                if x.op == "int":
                    return INT(wrap(~x.a[0], x.a[1]) if x.a[1] != "bool" else 1 - x.a[0], x.a[1])
                if x.op == "un" and x.a[0] == "Not":
                    return x.a[1]
            if r[1] == "Neg" and x.op == "int":
                return INT(wrap(-x.a[0], x.a[1]), x.a[1])
            return mk("un", r[1], x)
        if k == "discr":
            v = self.snap(st, self.read(st, r[1]))
            m = r[2]
            if m is None:
                return mk("discr", v, None)
            key = tuple(sorted(m.items()))
            return mk("discr", v, key)
        if k == "agg":
            kind = r[1]
            ops = [self.operand(st, o) for o in r[2]]
            if kind[0] == "array":
                return mk("arr", *ops)
            if kind[0] == "tuple":
                return mk("tup", *ops)
            if kind[0] == "adt":
                return mk("adt", kind[1], kind[2], tuple(kind[3]), *ops)
            if kind[0] == "closure":
                return mk("clo", kind[1], kind[2], *ops)
            return mk("agg", *ops)
        if k == "repeat":
            x = self.operand(st, r[1])
            if r[2] is not None and r[2] <= 64:
                return mk("arr", *([x] * r[2]))
            return mk("rep", x, r[2])
        if k == "tls":
            return mk("tls", r[1])
        return UNK("rvalue " + k)

    def length(self, st, x):
        x = self.snap(st, x)
        if x.op == "arr":
            return INT(len(x.a), "usize")
        if x.op == "str":
            return INT(len(x.a[0].encode()), "usize")
        if x.op == "bytes":
            return INT(len(x.a[0]), "usize")
        if x.op == "rep" and x.a[1] is not None:
            return INT(x.a[1], "usize")
        y = x
        while y.op in ("mut", "stale", "upd"):
            y = y.a[0]
        if y in self.arrlen:
            return INT(self.arrlen[y], "usize")
        return mk("len", x)

    def note_array(self, st, x, t):
        """a reference to an array becomes one to a slice: how long it is stays known"""
        while t["k"] in ("ref", "refmut", "ptr"):
            t = self.p.ty(t["a"][0])
        if t["k"] == "array" and t.get("len") is not None:
            y = self.snap(st, x)
            while y.op in ("mut", "stale", "upd"):
                y = y.a[0]
            if y.op in ("arg", "fld", "res"):
                self.arrlen[y] = t["len"]

    def cast(self, st, kind, x, fr, to):
        tf, tt = self.p.ty(fr), self.p.ty(to)
        if kind.startswith("PointerCoercion"):
            self.note_array(st, x, tf)
            return x
        if kind in ("IntToInt",):
            if x.op == "int":
                return INT(wrap(x.a[0], tt["s"]), tt["s"])
            if x.op == "discr":
                return mk("cast", tf["s"], tt["s"], x)
            if tf["s"] == tt["s"]:
                return x
            return mk("cast", tf["s"], tt["s"], x)
        if kind.startswith("PtrToPtr") or kind == "Transmute" and tt["k"] in ("ptr", "ref", "refmut") and tf["k"] in ("ptr", "ref", "refmut", "adt"):
            return x
        if kind == "Transmute" and tf["s"] == tt["s"]:
            return x
        if kind == "Transmute" or kind == "Subtype":
            if kind == "Subtype":
                return x
            return mk("cast", tf["h"], tt["h"], x)
        return mk("cast", kind + ":" + tf["h"], tt["h"], x)

    def binop(self, st, op, a, b, ty):
        a, b = self.snap(st, a), self.snap(st, b)
        if op.endswith("WithOverflow"):
            o = op[: -len("WithOverflow")]
            v = self.binop(st, o, a, b, ty)
            if a.op == "int" and b.op == "int":
                e = {"Add": a.a[0] + b.a[0], "Sub": a.a[0] - b.a[0], "Mul": a.a[0] * b.a[0]}[o]
                lo, hi = int_range(ty)
                return mk("tup", INT(wrap(e, ty), ty), BOOL(not (lo <= e <= hi)))
            return mk("tup", v, mk("ovf", o, a, b, ty))
        if op.endswith("Unchecked"):
            op = op[: -len("Unchecked")]
        if op in ("Eq", "Ne"):
            x, y = (a, b) if a.op == "discr" else (b, a)
            if x.op == "cast" and x.a[2].op == "discr":
                x = x.a[2]
            if x.op == "discr" and x.a[1] is not None and y.op == "int":
                name = dict(x.a[1]).get(str(y.a[0]))
                t = FALSE if name is None else mk("isvar", x.a[0], name, x.a[1])
                r = self.truth(st, t)
                if r is not None:
                    t = BOOL(r)
                return t if op == "Eq" else (BOOL(not t.a[0]) if t.op == "int" else mk("un", "Not", t))
        if a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            t = a.a[1]
            try:
                if op == "Eq":
                    return BOOL(x == y)
                if op == "Ne":
                    return BOOL(x != y)
                if op == "Lt":
                    return BOOL(x < y)
                if op == "Le":
                    return BOOL(x <= y)
                if op == "Gt":
                    return BOOL(x > y)
                if op == "Ge":
                    return BOOL(x >= y)
                v = None
                if op == "Add":
                    v = x + y
                elif op == "Sub":
                    v = x - y
                elif op == "Mul":
                    v = x * y
                elif op == "BitAnd":
                    v = x & y
                elif op == "BitOr":
                    v = x | y
                elif op == "BitXor":
                    v = x ^ y
                elif op == "Shl":
                    v = x << (y % INTW[t])
                elif op == "Shr":
                    v = x >> (y % INTW[t])
                elif op == "Div" and y:
                    v = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                elif op == "Rem" and y:
                    v = abs(x) % abs(y) * (-1 if x < 0 else 1)
                if v is not None:
                    return INT(wrap(v, t), t)
            except KeyError:
                pass
        if ty == "bool" and op in ("BitAnd", "BitOr"):
            for p, q in ((a, b), (b, a)):
                if p.op == "int":
                    if op == "BitAnd":
                        return q if p.a[0] else FALSE
                    return TRUE if p.a[0] else q
        if op in ("Add", "Sub") and b.op == "int" and b.a[0] == 0:
            return a
        if op == "Add" and a.op == "int" and b.op != "int":
            a, b = b, a
        # (x + c1) + c2
        if op == "Add" and b.op == "int" and a.op == "bin" and a.a[0] == "Add" and a.a[2].op == "int":
            return mk("bin", "Add", a.a[1], INT(wrap(a.a[2].a[0] + b.a[0], b.a[1]), b.a[1]), ty)
        if op == "Sub" and a.op == "bin" and a.a[0] == "Add" and a.a[2] is b:
            return a.a[1]
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            t = mk("bin", op, a, b, ty)
            r = self.truth(st, t)
            return t if r is None else BOOL(r)
        return mk("bin", op, a, b, ty)

    # ------------------------------------------------------------ state housekeeping
    def age(self, st, site):
        """the results of `site` become old"""

        def has(t):
            for x in t.atoms:
                if (x.op == "res" or x.op == "obj") and x.a[0] == site and x.a[1] == 0:
                    return True
            return False

        def f(x):
            if x.op in ("res", "obj") and x.a[0] == site and x.a[1] == 0:
                return mk(x.op, site, 1, *x.a[2:])
            return None

        memo = {}
        for d in (st.loc, st.mem):
            ks = [k for k, v in d.items() if has(v) or (k.__class__ is Term and has(k))]
            for k in ks:
                v = d.pop(k)
                nk = subst(k, f, memo) if k.__class__ is Term else k
                d[nk] = subst(v, f, memo)
        for k in [k for k in st.facts if has(k)]:
            # facts about the newest result do not carry over to the summary of old ones
            del st.facts[k]
        for k in [k for k in st.facts if any(x.op in ("res", "obj") and x.a[0] == site and x.a[1] == 1 for x in k.atoms)]:
            del st.facts[k]

    def gc(self, st):
        live = set()
        work = []
        n = len(st.frames)
        for d, fr in enumerate(st.frames):
            bid, bb = fr[0], fr[1]
            lv = self.p.live(bid)
            if d == n - 1:
                s = lv[bb]
            else:
                # after the call returns
                nf = st.frames[d + 1]
                tgt = nf[4]
                s = set(lv[tgt]) if tgt is not None else set()
                dp = nf[3]
                if dp.__class__ is tuple:
                    dp = dp[1]
                if dp is not None and len(dp) == 1:
                    s.discard(dp[0])
                elif dp is not None:
                    s.add(dp[0])
            for l in s:
                if (d, l) in st.loc:
                    work.append(("l", (d, l)))
        keep_l, keep_m = set(), set()
        atoms = set()
        memq = list(st.mem)
        args_alive = self.arg_locs
        for m in memq:
            if m in args_alive:
                work.append(("m", m))
        while work:
            k, x = work.pop()
            if k == "l":
                if x in keep_l or x not in st.loc:
                    continue
                keep_l.add(x)
                t = st.loc[x]
            else:
                if x in keep_m:
                    continue
                keep_m.add(x)
                t = st.mem[x]
                atoms |= x.atoms
            atoms |= t.atoms
            for r in t.refs:
                if r.op == "ref":
                    loc = r.a[0]
                    if loc.op == "lloc":
                        work.append(("l", loc.a))
                    elif loc in st.mem:
                        work.append(("m", loc))
                elif r.op == "lloc":
                    work.append(("l", r.a))
            if not work:
                # memory reachable through opaque pointers that are still around
                for m in memq:
                    if m not in keep_m and m.a[0].atoms and m.a[0].atoms <= atoms:
                        work.append(("m", m))
        st.loc = {k: v for k, v in st.loc.items() if k in keep_l}
        st.mem = {k: v for k, v in st.mem.items() if k in keep_m}
        sticky = self.o["sticky"]
        nf = {}
        for k, v in st.facts.items():
            ok = True
            for x in k.atoms:
                if x not in atoms and not (sticky and x.op == "arg"):
                    if sticky and x.op != "arg" and sticky != "all":
                        ok = False
                        break
                    if not sticky:
                        ok = False
                        break
            if ok:
                nf[k] = v
        st.facts = nf

    def freeze(self, st):
        return (
            tuple((f[0], f[1], f[2]) for f in st.frames),
            tuple(sorted((k[0], k[1], v.id) for k, v in st.loc.items())),
            tuple(sorted((k.id, v.id) for k, v in st.mem.items())),
            tuple(sorted((k.id, fkey(v)) for k, v in st.facts.items())),
        )

    def havoc(self, st, t, site, ty=None, only=None):
        """`t` is handed to code we do not look into: forget what it can change"""
        seen = set()
        work = [t]
        if only is not None and ty is not None and ty["k"] == "refmut":
            # a function whose effect on its argument is confined to some fields
            # (checked separately, at the returns of that function)
            loc, proj = (t.a[0], t.a[1]) if t.op == "ref" else (mk("ploc", t), ())
            for f in only:
                self.havoc_loc(st, loc, proj + (("f", "", f),), site)
            return
        if ty is not None and ty["k"] == "refmut" and t.op != "ref":
            self.havoc_loc(st, mk("ploc", t), (), site)
            seen.add(t)
        while work:
            x = work.pop()
            if x in seen or x.__class__ is not Term:
                continue
            seen.add(x)
            if x.op == "ref":
                v = self.load(st, x.a[0], x.a[1])
                work.append(v)
                self.havoc_loc(st, x.a[0], x.a[1], site)
            elif x.refs:
                for y in x.a:
                    if y.__class__ is Term:
                        work.append(y)

    def havoc_loc(self, st, loc, proj, site):
        v = self.load(st, loc, proj)
        n, olds = self.bump(v, site)
        if olds:
            self.stale(st, olds)
        self.store(st, loc, proj, n)

    def stale(self, st, olds):
        """what was computed from an earlier version of these objects is no longer current"""
        olds = frozenset(olds)

        def f(x):
            if x in olds:
                return mk("stale", x.a[0])
            if not (x.atoms or x.refs):
                return x
            return None

        memo = {}
        for d in (st.loc, st.mem):
            for k, v in list(d.items()):
                n = subst(v, f, memo)
                if n is not v:
                    d[k] = n
        for k in list(st.facts):
            if subst(k, f, memo) is not k:
                del st.facts[k]

    def bump(self, v, site):
        """(value after an unknown mutation, versions that stop being current)"""
        if v.op == "mut":
            return v, [v]
        if v.op == "stale":
            return mk("mut", v.a[0]), [mk("mut", v.a[0])]
        if v.op in ("int", "str", "uninit"):
            return mk("mut", mk("res", site, 0, "cell")), []
        if v.op in ("tup", "adt", "clo") and v.refs:
            # keep the references (what they point at is forgotten separately)
            na, olds = [], []
            for x in v.a:
                if x.__class__ is Term and not x.refs:
                    x, o = self.bump(x, site)
                    olds += o
                na.append(x)
            return mk(v.op, *na), olds
        if v.op == "ref":
            return v, []
        if v.op == "upd":
            b, olds = self.bump(v.a[0], site)
            for x in v.a[2:]:
                if x.op == "mut":
                    olds = olds + [x]
            return b, olds
        return mk("mut", v), []

    # ------------------------------------------------------------ running
    def run(self, inst, args=None, argnames=None, init_facts=None, max_nodes=None):
        self.g = g = Graph()
        g.arrlen = self.arrlen
        b = self.p.bodies[inst]
        loc = {}
        self.arg_locs = set()
        for i in range(b["argc"]):
            t = args[i] if args and args[i] is not None else mk("arg", i, b["names"].get(str(i + 1), ""))
            loc[(0, i + 1)] = t
            ty = self.p.ty(b["locals"][i + 1])
            if ty["k"] == "refmut":
                self.arg_locs.add(mk("ploc", t))
        st = St([(inst, 0, 0, None, None)], loc, {}, dict(init_facts or {}))
        g.fns.add(b["canon"])
        self.index = {}
        self.points = {}
        self.work = []
        self.limit = max_nodes or self.o["max_nodes"]
        try:
            n0 = self.node(st)
            g.inits = [n0.id]
            while self.work:
                n = self.work.pop()
                self.expand(n)
        except TooBig as e:
            g.incomplete = str(e)
        for n in g.nodes:
            n.st = None
            if n.succ is None:
                n.succ = []
        return g

    def node(self, st):
        f = st.frames[-1]
        head = f[1] in self.p.headers(f[0])
        self.gc(st)
        key = self.freeze(st)
        i = self.index.get(key)
        if i is not None:
            return self.g.nodes[i]
        point = key[0]
        shape = (point, self.shape(st))
        lst = self.points.setdefault(shape, [])
        if head and len(lst) >= self.o["widen_after"] and not any(o[0] == st.loc and o[1] == st.mem for o in lst):
            w = self.widen(lst[-1], st, point)
            if w is not None:
                st = w
                self.gc(st)
                key = self.freeze(st)
                i = self.index.get(key)
                if i is not None:
                    return self.g.nodes[i]
        if len(self.g.nodes) >= self.limit:
            raise TooBig("more than %d states" % self.limit)
        n = Node(len(self.g.nodes), st, point)
        self.g.nodes.append(n)
        self.index[key] = n.id
        lst.append((st.loc, st.mem, st.facts))
        self.work.append(n)
        return n

    def shape(self, st):
        return (
            tuple(sorted((k[0], k[1], self.tshape(v)) for k, v in st.loc.items())),
            tuple(sorted((k.id, self.tshape(v)) for k, v in st.mem.items())),
        )

    def tshape(self, t):
        """the term with its numbers left out"""
        r = self.tsh.get(t)
        if r is not None:
            return r
        if t.op in ("int", "bin", "wid", "cast") and not (t.op == "int" and t.a[1] in ("bool", "char")) and not (t.op == "bin" and t.a[0] in ("Eq", "Lt")):
            r = -1
        elif t.op == "arrit" and t.a[1].op == "int" and len(t.a[0].a) <= 32:
            r = t.id  # short constant arrays are walked item by item
        elif t.op in ("adt", "tup", "clo", "arr", "upd", "arrit", "bin"):
            k = (t.op,) + tuple(self.tshape(x) if x.__class__ is Term else (x,) for x in t.a)
            r = self.tshi.setdefault(k, len(self.tshi)) + 10**9
        else:
            r = t.id
        self.tsh[t] = r
        return r

    def widen(self, old, st, point):
        ol, om, of = old
        bounds = {}
        try:
            nl = {k: self.antiu(ol[k], v, ("L",) + k, point, bounds, of, st) for k, v in st.loc.items()}
            nm = {k: self.antiu(om[k], v, ("M", k.id), point, bounds, of, st) for k, v in st.mem.items()}
        except KeyError:
            return None
        if not bounds:
            return None
        facts = dict(st.facts)
        for w in bounds:
            facts = {k: v for k, v in facts.items() if w not in k.atoms}
        for w, (lo, hi) in bounds.items():
            if lo is not None or hi is not None:
                facts[w] = ("int", lo, hi, frozenset())
        return St(list(st.frames), nl, nm, facts)

    def antiu(self, a, b, path, point, bounds, of, st):
        if a is b:
            return b
        num = ("int", "bin", "wid", "cast")
        if a.op in num and b.op in num:
            if (b.op == "int" and b.a[1] in ("bool", "char")) or (a.op == "int" and a.a[1] in ("bool", "char")):
                raise KeyError
            w = mk("wid", str(point[-1][:2]) + "/" + str(len(point)), str(path))
            # only the new state has to be covered; its lower bound is kept as >=1 or >=0
            ib = self.interval(st, b)
            lo = None if ib is None or ib[0] < 0 else min(ib[0], 1)
            # a counter that goes up in small steps does not reach 2^62 in any run
            x = b.a[1] if b.op == "bin" and b.a[0] == "Add" and b.a[2].op == "int" and 0 <= b.a[2].a[0] <= 64 else b
            ix = self.interval(st, x)
            hi = BIG if ix is not None and ix[1] <= BIG else None
            bounds[w] = (lo or None, hi)
            return w
        if a.op == b.op and len(a.a) == len(b.a):
            na = []
            for i, (x, y) in enumerate(zip(a.a, b.a)):
                if x.__class__ is Term and y.__class__ is Term:
                    na.append(self.antiu(x, y, path + (i,), point, bounds, of, st))
                elif x == y:
                    na.append(y)
                else:
                    raise KeyError
            return mk(b.op, *na)
        raise KeyError

    def expand(self, n):
        n.succ = []
        st = n.st.copy()
        self.emit_outs(n, self.exec(st))

    def emit_outs(self, n, outs):
        for label, s in outs:
            if s.__class__ is tuple:
                # an event after which the analysis goes on in several ways
                m = Node(len(self.g.nodes), None, None)
                m.succ = []
                self.g.nodes.append(m)
                n.succ.append((label, m.id))
                self.emit_outs(m, s[1])
            elif s is None:
                t = Node(len(self.g.nodes), None, None)
                t.term = label
                t.succ = []
                self.g.nodes.append(t)
                n.succ.append((label, t.id))
            else:
                m = self.node(s)
                n.succ.append((label, m.id))

    def fnname(self, st):
        return self.p.bodies[st.frames[-1][0]]["canon"]

    def goto(self, st, bb):
        f = st.frames[-1]
        st.frames[-1] = (f[0], bb, f[2], f[3], f[4])

    def exec(self, st):
        """run until something happens; list of (label, state or None)"""
        steps = 0
        while True:
            steps += 1
            if steps > 20000:
                raise TooBig("a loop without events does not end")
            bid, bb = st.frames[-1][0], st.frames[-1][1]
            if steps > 1 and bb in self.p.headers(bid):
                return [(STEP, st)]
            blk = self.p.bodies[bid]["blocks"][bb]
            for s in blk["s"]:
                if s[0] == "=":
                    v = self.rvalue(st, s[2])
                    loc, proj = self.resolve(st, s[1])
                    self.store(st, loc, proj, v)
                elif s[0] == "setd":
                    pass
            t = blk["t"]
            k = t[0]
            if k == "goto":
                self.goto(st, t[1])
            elif k == "drop":
                self.goto(st, t[2])
            elif k == "switch":
                r = self.switch(st, t)
                if r is not None:
                    return r
            elif k == "assert" and t[3][0].startswith(("MisalignedPointer", "NullPointer")):
                # added by the compiler to debug builds for raw pointers (and so for vec![..])
                self.goto(st, t[4])
            elif k == "assert":
                c = self.operand(st, t[1])
                want = t[2]
                r = self.truth(st, c)
                if r is not None and r == want:
                    self.goto(st, t[4])
                    continue
                pan = Term_("panic", what=("assert", t[3][0]) + tuple([t[3][1]] if t[3][0] == "overflow" else []), span=t[5], fn=self.fnname(st))
                pan.val = self.snap(st, c)
                pan.facts = dict(st.facts)
                if r is not None:
                    return [(pan, None)]
                s2 = st.copy()
                if not self.assume(s2, c, want):
                    return [(pan, None)]
                self.goto(s2, t[4])
                return [(mkbr(self, self.snap(st, c), want, t[5], self.fnname(st)), s2), (pan, None)]
            elif k == "ret":
                v = st.loc.get((len(st.frames) - 1, 0), UNIT)
                if len(st.frames) == 1:
                    e = Term_("ret", val=self.snap(st, v), fn=self.fnname(st))
                    e.mem = {m.a[0]: self.snap(st, x) for m, x in st.mem.items() if m.op == "ploc"}
                    e.facts = dict(st.facts)
                    return [(e, None)]
                d = len(st.frames) - 1
                f = st.frames.pop()
                for kk in [x for x in st.loc if x[0] == d]:
                    del st.loc[kk]
                if f[4] is None:
                    return [(Term_("diverge", what="call does not return"), None)]
                dest = f[3]
                if dest.__class__ is tuple:
                    dest = dest[1]
                    v = ADT("core::result::Result", "Ok", ("0",), v)
                loc, proj = self.resolve(st, dest)
                self.store(st, loc, proj, v)
                self.goto(st, f[4])
            elif k == "call":
                r = self.call(st, t)
                if r is not None:
                    return r
            elif k == "unreachable":
                return [(Term_("unreachable", fn=self.fnname(st)), None)]
            else:
                return [(Term_("other", what=str(t)), None)]

    def switch(self, st, t):
        v = self.snap(st, self.operand(st, t[1]))
        ty = self.p.ty(t[4])["s"]
        if v.op == "cast" and v.a[2].op == "discr":
            v = v.a[2]
        if v.op == "discr" and v.a[1] is not None:
            m = dict(v.a[1])
            x = v.a[0]
            known, exc = self.variant_of(st, x)
            outs = []
            covered = set()
            for val, tgt in t[2]:
                name = m.get(val)
                covered.add(name)
                if tgt is None or name in exc:
                    continue
                if known is not None and known != name:
                    continue
                outs.append((name, tgt))
            rest = [n for n in m.values() if n not in covered and n not in exc]
            if known is not None and known not in covered:
                outs.append((known, t[3]))
            elif known is None and t[3] is not None:
                for nme in rest:
                    outs.append((nme, t[3]))
            outs = [(n, g) for n, g in outs if g is not None]
            if len(outs) == 1:
                if known is None and x.op not in ("adt",):
                    st.facts[x] = ("is", outs[0][0])
                self.goto(st, outs[0][1])
                return None
            # merge variants that go to the same place
            bytgt = {}
            for nme, g in outs:
                bytgt.setdefault(g, []).append(nme)
            res = []
            for g, names in bytgt.items():
                s2 = st.copy()
                if len(names) == 1:
                    s2.facts[x] = ("is", names[0])
                    lab = names[0]
                else:
                    allv = set(m.values())
                    s2.facts[x] = ("not", frozenset(allv - set(names)))
                    lab = tuple(sorted(names))
                self.goto(s2, g)
                res.append((Br(x, lab, t[5], self.fnname(st)), s2))
            return res
        if v.op == "int":
            for val, tgt in t[2]:
                if int(val) == (v.a[0] if v.a[0] >= 0 else v.a[0] + (1 << INTW.get(ty, 64))):
                    self.goto(st, tgt)
                    return None
            self.goto(st, t[3])
            return None
        if ty == "bool":
            r = self.truth(st, v)
            tf, tt = None, t[3]
            for val, tgt in t[2]:
                if val == "0":
                    tf = tgt
                else:
                    tt = tgt
            if tf is None:
                tf = t[3]
            if r is not None:
                self.goto(st, tt if r else tf)
                return None
            if tt is None or tf is None:
                self.goto(st, tt if tf is None else tf)
                return None
            res = []
            for val, tgt in ((True, tt), (False, tf)):
                s2 = st.copy()
                if self.assume(s2, v, val):
                    self.goto(s2, tgt)
                    res.append((mkbr(self, v, val, t[5], self.fnname(st)), s2))
            return res
        # an integer or char
        res = []
        s3 = st.copy()
        bytgt = {}
        for val, tgt in t[2]:
            if tgt is None:
                continue
            c = int(val)
            if ty[:1] == "i" and ty in INTW and c >= 1 << (INTW[ty] - 1):
                c -= 1 << INTW[ty]
            s2 = st.copy()
            eq = mk("bin", "Eq", v, INT(c, ty), ty)
            if self.assume(s2, eq, True):
                self.goto(s2, tgt)
                res.append((Br(v, INT(c, ty), t[5], self.fnname(st)), s2))
            if s3 is not None and not self.assume(s3, eq, False):
                s3 = None
        if s3 is not None and t[3] is not None:
            self.goto(s3, t[3])
            res.append((Br(v, ("not",) + tuple(int(x[0]) for x in t[2]), t[5], self.fnname(st)), s3))
        if len(res) == 1:
            st2 = res[0][1]
            st.frames, st.loc, st.mem, st.facts = st2.frames, st2.loc, st2.mem, st2.facts
            return None
        return res

    # ------------------------------------------------------------ calls
    def call(self, st, t):
        f = self.operand(st, t[1])
        args = [self.operand(st, o) for o in t[2]]
        dest, target, span = t[3], t[4], t[5]
        argtys, retty = t[6], t[7]
        rec = self.p.fnrec(f) if f.op == "fn" else None
        if rec is None and ("c" in t[1] or "m" in t[1]):
            pl = t[1].get("c") or t[1].get("m")
        if rec is None:
            return self.event(st, {"path": "<indirect call>", "kind": "indirect", "args": []}, [f] + args, dest, target, span, [None] + argtys, retty)
        return self.do_call(st, rec, args, dest, target, span, argtys, retty)

    def ret(self, st, dest, target, v):
        loc, proj = self.resolve(st, dest)
        self.store(st, loc, proj, v)
        self.goto(st, target)

    def do_call(self, st, rec, args, dest, target, span, argtys, retty):
        if "ctor" in rec:
            path, var = rec["ctor"]
            a = self.p.adts.get(path)
            names = None
            for v in a["variants"]:
                if v["n"] == var:
                    names = v["f"]
            self.ret(st, dest, target, ADT(path, var, names, *args))
            return None
        h = self.h.lookup(rec) if self.h else None
        if h is not None:
            c = Call(self, st, rec, args, dest, target, span, argtys, retty)
            r = h(c)
            if r is not NotImplemented:
                if r.__class__ is Term:
                    if target is None:
                        return [(Term_("panic", what=("call", rec["path"]), span=span, fn=self.fnname(st)), None)]
                    self.ret(st, dest, target, r)
                    return None
                return r
        inst = rec.get("inst")
        if inst is not None and self.p.bodies[inst] is not None and target is not None:
            b = self.p.bodies[inst]
            if not self.cut(st, b, rec, inst):
                return self.inline(st, b, inst, rec, args, dest, target)
        if target is None:
            e = Term_("panic", what=("call", rec.get("rpath") or rec["path"]), span=span, fn=self.fnname(st))
            e.val = mk("tup", *[self.snap(st, a) for a in args])
            e.facts = dict(st.facts)
            if inst is not None and self.p.bodies[inst] is not None:
                pass
            return [(e, None)]
        return self.event(st, rec, args, dest, target, span, argtys, retty)

    def cut(self, st, b, rec, inst):
        if len(st.frames) >= self.o["max_depth"]:
            self.notes.add("depth limit at " + b["canon"])
            return True
        if self.o["opaque"](b["canon"], rec) or (self.h is not None and self.h.leaf(b["canon"], rec)):
            return True
        local = b["local"] and b["kind"] == "fn"
        for f in st.frames:
            if f[0] == inst:
                return True
            if local and self.p.bodies[f[0]]["canon"] == b["canon"]:
                return True
        return False

    def inline(self, st, b, inst, rec, args, dest, target):
        d = len(st.frames)
        f = st.frames[-1]
        argc = b["argc"]
        path = rec["path"]
        if path.startswith("core::ops::function::Fn") and len(args) == 2:
            if b["kind"] == "closure" or (argc != 2):
                tup = args[1]
                n = argc - 1
                args = [args[0]] + [self.getp(st, tup, ("f", "", str(i))) for i in range(n)]
        if b["kind"] == "shim" and argc == 2 and len(args) == 2 and "spread" in b:
            pass
        for i in range(argc):
            st.loc[(d, i + 1)] = args[i] if i < len(args) else UNK("missing arg")
        ctx = self.ctx(f[2], f[0], f[1])
        st.frames.append((inst, 0, ctx, dest, target))
        self.g.fns.add(b["canon"])
        return None

    def enter(self, st, inst, args, dest, target, wrap=None):
        """analyse the body of a closure in place; `args` starts with the closure itself"""
        d = len(st.frames)
        f = st.frames[-1]
        b = self.p.bodies[inst]
        for i in range(b["argc"]):
            st.loc[(d, i + 1)] = args[i] if i < len(args) else UNK("missing arg")
        ctx = self.ctx(f[2], f[0], f[1])
        st.frames.append((inst, 0, ctx, ("wrap", dest) if wrap else dest, target))
        self.g.fns.add(b["canon"])

    def event(self, st, rec, args, dest, target, span, argtys, retty, name=None, res=None, nohavoc=False, tainted=True):
        site = self.site(st)
        name = name or rec.get("rpath") or rec["path"]
        if tainted and self.h is not None and not self.h.known(rec):
            self.g.unknown_calls[name] = span
        sargs = tuple(self.snap(st, a) for a in args)
        self.age_keep = None
        # the arguments may mention older results of this very site
        old = st.copy()
        self.age(st, site)
        if st.loc != old.loc or st.mem != old.mem:
            # re-evaluate references: aging renames tokens only, so map the arguments too
            memo = {}

            def f(x):
                if x.op in ("res", "obj") and x.a[0] == site and x.a[1] == 0:
                    return mk(x.op, site, 1, *x.a[2:])
                return None

            args = [subst(a, f, memo) for a in args]
            sargs = tuple(subst(a, f, memo) for a in sargs)
        if res is None:
            rt = self.p.ty(retty)
            if rt["s"] == "()":
                res = UNIT
            else:
                res = mk("res", site, 0, name)
        elif callable(res):
            res = res(site)
        ev = Ev(site, name, rec["path"], self.p.ty(rec["self"])["h"] if "self" in rec else None, sargs, res, span, rec, argtys, self.fnname(st), retty)
        if rec["path"] in RISKY:
            self.g.risks.append((ev, old.facts))
        if not nohavoc:
            only = None
            if self.o["frame"] and rec.get("inst") is not None and self.p.bodies[rec["inst"]] is not None:
                only = self.o["frame"].get(self.p.bodies[rec["inst"]]["canon"])
            for a, ty in zip(args, argtys):
                self.havoc(st, a, site, self.p.ty(ty) if ty is not None else None, only)
        self.ret(st, dest, target, res)
        return [(ev, st)]


def mkref(loc, proj):
    return mk("ref", loc, proj)


def mkupd(base, ks):
    return mk("upd", base, tuple(k for k, _ in ks), *[v for _, v in ks])


def fkey(f):
    if f[0] == "not":
        return ("not", tuple(sorted(f[1])))
    if f[0] == "int":
        return ("int", f[1] if f[1] is not None else "", f[2] if f[2] is not None else "", tuple(sorted(f[3])))
    return f


def mkbr(i, v, val, span, fn):
    ct, pol = i.canon_bool(v)
    val = val if pol else not val
    if ct.op == "isvar":
        x, name, m = ct.a
        if val:
            return Br(x, name, span, fn)
        rest = tuple(sorted(n for _, n in m if n != name))
        return Br(x, rest[0] if len(rest) == 1 else rest, span, fn)
    return Br(ct, val, span, fn)


class Call:
    """what a handler of an external call sees"""

    __slots__ = ("i", "st", "rec", "args", "dest", "target", "span", "argtys", "retty")

    def __init__(self, i, st, rec, args, dest, target, span, argtys, retty):
        self.i, self.st, self.rec, self.args, self.dest, self.target, self.span, self.argtys, self.retty = i, st, rec, args, dest, target, span, argtys, retty

    def snap(self, n):
        return self.i.snap(self.st, self.args[n])

    def content(self, n):
        a = self.args[n]
        if a.op == "ref":
            return self.i.load(self.st, a.a[0], a.a[1])
        return self.i.load(self.st, mk("ploc", a), ())

    def set(self, n, v):
        a = self.args[n]
        if a.op == "ref":
            self.i.store(self.st, a.a[0], a.a[1], v)
        else:
            self.i.store(self.st, mk("ploc", a), (), v)

    def ty(self, n):
        return self.i.p.ty(self.argtys[n])

    def event(self, **kw):
        return self.i.event(self.st, self.rec, self.args, self.dest, self.target, self.span, self.argtys, self.retty, **kw)

    def pure(self, name=None, *args):
        if not args:
            args = [self.snap(i) for i in range(len(self.args))]
        return mk("call", name or self.rec.get("path"), *args)
