"""no input makes the library panic

A path that ends in a panic (or calls a library function whose arguments need not fit) is
reported only if everything that the path has asked about the things involved is understood
and leaves it possible; where that cannot be told the path is counted as undecided."""
import itertools

from rules import *

FREE_LIBS = ("scale_decode::", "scale_bits::", "scale_type_resolver::", "base58::", "<scale_decode::", "<scale_bits::")
PUBLIC_TYPES = ("value_type::",)
MAX = {t: int_range(t) for t in INTW}
CALC = {
    "Add": lambda x, y: x + y,
    "Sub": lambda x, y: x - y,
    "Mul": lambda x, y: x * y,
    "BitAnd": lambda x, y: x & y,
    "BitOr": lambda x, y: x | y,
    "BitXor": lambda x, y: x ^ y,
    "Shr": lambda x, y: x >> y if 0 <= y < 256 else None,
    "Shl": lambda x, y: None,
    "Div": lambda x, y: x // y if y > 0 <= x else None,
    "Rem": lambda x, y: x % y if y > 0 <= x else None,
}
CLASSES = {
    "is_ascii": lambda v: v < 128,
    "is_ascii_alphanumeric": lambda v: v < 128 and chr(v).isalnum(),
    "is_ascii_alphabetic": lambda v: v < 128 and chr(v).isalpha(),
    "is_ascii_digit": lambda v: 48 <= v <= 57,
    "is_ascii_hexdigit": lambda v: v < 128 and chr(v) in "0123456789abcdefABCDEF",
    "is_ascii_lowercase": lambda v: 97 <= v <= 122,
    "is_ascii_uppercase": lambda v: 65 <= v <= 90,
}


UNKNOWN = "what is unwrapped is not known"


def strip(t):
    """the thing itself, whatever was read from it before"""
    memo = {}

    def f(x):
        if x.op in ("mut", "stale", "upd"):
            return strip(x.a[0])
        if x.op == "call" and x.a[0] in ("core::str::as_bytes", "iter") and len(x.a) == 2:
            return strip(x.a[1])
        return None

    return subst(t, f, memo)


class Walks:
    """a shortest path to every place of the graph"""

    def __init__(self, a):
        self.g = a.g
        self.par = {n: None for n in a.g.inits}
        work = collections.deque(a.g.inits)
        self.edge = {}  # id of an event -> where it happens
        while work:
            n = work.popleft()
            for l, m in self.g.nodes[n].succ or ():
                if l.kind == "ev":
                    self.edge.setdefault(id(l), n)
                if m not in self.par:
                    self.par[m] = (n, l)
                    work.append(m)

    def to(self, n):
        out = []
        while self.par.get(n):
            n, l = self.par[n]
            out.append(l)
        out.reverse()
        return out


    def more(self, n):
        """paths to n that go round the loops over what the caller has passed differently, up to twice"""
        if not hasattr(self, "conts"):
            self.conts = {}
            for m in self.g.nodes:
                for l, _ in m.succ or ():
                    if l.kind == "ev" and l.args and l.res is not None and l.res.op == "res" and last(l.rec["path"]) == "next":
                        x = strip(l.args[0])
                        if plain(x):
                            self.conts.setdefault(l.res.a[0], set()).add(x)
            self.conts = {k: next(iter(v)) for k, v in self.conts.items() if len(v) == 1}
            self.at = {}
            self.wide = {}
            work = collections.deque((i, ()) for i in self.g.inits)
            for w in work:
                self.wide[w] = None
            while work and len(self.wide) < 60000:
                w = work.popleft()
                self.at.setdefault(w[0], []).append(w)
                cs = dict(w[1])
                for l, m in self.g.nodes[w[0]].succ or ():
                    c2 = w[1]
                    if l.kind == "br" and l.term.op == "res" and l.term.a[0] in self.conts and l.out in ("Some", "None"):
                        x = self.conts[l.term.a[0]]
                        total, cur = cs.get(x, (None, 0))
                        if l.out == "Some":
                            cur += 1
                            if cur > (2 if total is None else total):
                                continue
                        else:
                            if total is not None and cur < total:
                                continue
                            total, cur = cur, 0
                        d = dict(cs)
                        d[x] = (total, cur)
                        c2 = tuple(sorted(d.items(), key=lambda kv: repr(kv[0])))
                    k = (m, c2)
                    if k not in self.wide:
                        self.wide[k] = (w, l)
                        work.append(k)
        for w in self.at.get(n, ()):
            out = []
            while self.wide[w]:
                w, l = self.wide[w]
                out.append(l)
            out.reverse()
            yield out


def part(t):
    """something that can be read off without asking anything"""
    if t.op == "len":
        t = t.a[0]
    while t.op in ("fld", "mut"):
        t = t.a[0]
    return t.op in ("arg", "res")


def plain(x):
    return any(z.op == "arg" for z in walk(x)) and not any(z.op in ("obj", "res", "stale") for z in walk(x))


def verdict(a, ws, n, facts, span, how):
    """what is to be said of the end of the paths to a place: None if it is fine or cannot be reached"""
    q = Path_(a, facts, span, ws.to(n))
    if not q.impossible:
        return how(q)
    out = None
    for path in ws.more(n):
        q = Path_(a, facts, span, path)
        v = None if q.impossible else how(q)
        if v.__class__ is tuple:
            return v
        out = out or v
    return out


def asked(path):
    """what a path asks: [(term, fact)] as the terms are called at its end, and its events"""
    fs = []
    evs = []
    for l in path:
        if l.kind == "ev":
            fs = [(age_state(t, l), f) for t, f in fs]
            evs = [(age_state(tuple(x), l), e) for x, e in evs]
            evs.append(((strip(l.args[0]) if l.args else UNIT, l.res if l.res is not None else UNIT), l))
        elif l.kind == "br":
            t, o = l.term, l.out
            if o is True or o is False:
                rf = [r for r in relfacts(l) if r[0].op == "int" or r[1].op == "int"]
                if len(rf) == 1:
                    x, y, rel = rf[0]
                    if x.op == "int":
                        x, y, rel = y, x, "".join(FLIP[c] for c in rel)
                    c = y.a[0]
                    lo = c if rel in ("=", "=>", ">=") else c + 1 if rel == ">" else None
                    hi = c if rel in ("=", "<=", "=<") else c - 1 if rel == "<" else None
                    fs.append((x, ("int", lo, hi, frozenset())))
                else:
                    fs.append((t, ("b", int(o))))
            elif o.__class__ is Term and o.op == "int":
                fs.append((t, ("int", o.a[0], o.a[0], frozenset())))
            elif o.__class__ is str:
                fs.append((t, ("is", o)))
            else:
                fs.append((t, ("not", o)))
    return fs, evs


class Path_:
    def __init__(self, a, facts, span, path):
        self.a, self.p, self.span = a, a.p, span
        self.asked, self.evs = asked(path)
        self.facts = {}
        for t, f in self.asked:
            self.facts.pop(t, None)
            self.facts[t] = f
        for t, f in facts.items():
            self.facts[t] = f
        self.impossible = False
        self.src = a.__dict__.setdefault("_sources", None)
        if self.src is None:
            self.src = a._sources = {}
            for e in a.events():
                if e.res is not None and e.res.op == "res":
                    self.src.setdefault(e.res.a[0], []).append(e)
        self.same_items()

    def same_items(self):
        """walking a container again meets the same items again"""
        pos, name, alias = {}, {}, {}
        for k, l in self.evs:
            if l.res is None or not l.args:
                continue
            x, res = k
            n = last(l.rec["path"])
            if n == "next" and l.res.op == "res" and plain(x):
                i = pos.get(x, 0)
                f = self.facts.get(res)
                pos[x] = 0 if f == ("is", "None") else i + 1
                if res.op != "res":
                    continue
                if (x, i) in name:
                    alias[res] = name[(x, i)]
                else:
                    name[(x, i)] = res
                if f is not None and f[0] == "is":
                    n = self.length(x)
                    if n and f[1] == "None" and i < n[0] or n and n[1] is not None and f[1] == "Some" and i >= n[1]:
                        self.impossible = True
        if not alias:
            return
        self.alias = alias
        facts = self.facts
        self.facts = {}
        for t, f in facts.items():
            self.add(self.called(t), f)
        self.asked = [(self.called(t), f) for t, f in self.asked]

    alias = {}

    def called(self, t):
        return subst(t, lambda x: self.alias.get(x) if x.op == "res" else None, {}) if self.alias else t

    def add(self, t, f):
        o = self.facts.get(t)
        if o is None or o == f:
            self.facts[t] = f
        elif o[0] == "int" == f[0]:
            lo = max((x for x in (o[1], f[1]) if x is not None), default=None)
            hi = min((x for x in (o[2], f[2]) if x is not None), default=None)
            if lo is not None and hi is not None and lo > hi:
                self.impossible = True
            self.facts[t] = ("int", lo, hi, frozenset(o[3] or ()) | frozenset(f[3] or ()))
        elif o[0] == f[0] and o[0] in ("is", "b"):
            self.impossible = True
        elif f[0] == "is":
            self.facts[t] = f

    # ---------------------------------------------------------- small numbers
    def leaves(self, t, out):
        """the unknown bytes that t is computed from; False if something else is involved"""
        if t.op == "int":
            return True
        if t in out:
            return True
        d = self.domain(t)
        if d is not None:
            out[t] = d
            return len(out) <= 2
        if t.op == "bin" and t.a[0] in CALC:
            return self.leaves(t.a[1], out) and self.leaves(t.a[2], out)
        if t.op == "cast" and t.a[0] in MAX and t.a[1] in MAX:
            return self.leaves(t.a[2], out)
        return False

    def domain(self, t):
        """the values of an unknown byte"""
        if t.op == "fld" and t.a[0].op == "call" and last(t.a[0].a[0]) in ("get", "first", "last") and len(t.a[0].a) in (2, 3):
            c = t.a[0]
            if last(c.a[0]) == "get" and c.a[2].op != "int":
                return None
            x = strip(c.a[1])
            if self.free(x) is not None:
                return None
            return range(128) if "as_bytes" in show(c) else range(256)
        if t.op == "cast" and t.a[1] == "u8" and t.a[0] in MAX:
            b = self.bounds(t.a[2], t.a[0])
            if b is None or not b[2]:
                return None
            return range(256) if b[0] <= 0 and b[1] >= 255 else range(b[0], b[1] + 1) if 0 <= b[0] and b[1] <= 255 else None
        return None

    def calc(self, t, env):
        if t in env:
            return env[t]
        if t.op == "int":
            return t.a[0]
        if t.op == "cast":
            v = self.calc(t.a[2], env)
            lo, hi = MAX[t.a[1]]
            if v is None or lo <= v <= hi:
                return v
            return (v - lo) % (hi - lo + 1) + lo
        x, y = self.calc(t.a[1], env), self.calc(t.a[2], env)
        if x is None or y is None:
            return None
        v = CALC[t.a[0]](x, y)
        if v is None:
            return None
        lo, hi = MAX.get(t.a[3], (None, None))
        if lo is None:
            return None
        return v if lo <= v <= hi else None  # the check for overflow comes first

    def allowed(self, x, v):
        """can the byte x be v: True, False, None"""
        for t, f in self.facts.items():
            if t is x:
                if f[0] != "int":
                    return None
                if f[1] is not None and v < f[1] or f[2] is not None and v > f[2] or v in (f[3] or ()):
                    return False
            elif t.op == "call" and len(t.a) == 2 and strip(t.a[1]) is strip(x) and last(t.a[0]) in CLASSES and f[0] == "b":
                if bool(CLASSES[last(t.a[0])](v)) != bool(f[1]):
                    return False
            elif t.op == "eq" and f[0] == "b" and x in t.a[:2]:
                o = t.a[0] if t.a[1] is x else t.a[1]
                if o.op != "int":
                    return None
                if (o.a[0] == v) != bool(f[1]):
                    return False
            elif t.op in ("fld", "call", "res", "len"):
                continue
            elif any(z is x for z in walk(t)):
                if t.op == "ovf" and not f[1]:
                    continue
                return None
        return True

    def small(self, terms, test):
        """the first values of the bytes behind the terms that pass the test; False if none do; None if not known"""
        out = {}
        for t in terms:
            if not self.leaves(t, out):
                return None
        ds = []
        for x, d in out.items():
            vs = []
            for v in d:
                a = self.allowed(x, v)
                if a is None:
                    return None
                if a:
                    vs.append(v)
            ds.append(vs)
        for vs in itertools.product(*ds):
            env = dict(zip(out, vs))
            r = [self.calc(t, env) for t in terms]
            if None in r:
                continue
            if test(*r):
                return env
        return False

    # ---------------------------------------------------------- where things come from
    def event(self, t):
        es = self.src.get(t.a[0], [])
        return es[0] if es else None

    def free(self, t):
        """None if the caller or a library decides what t is, without restriction; otherwise the reason"""
        while t.op in ("fld", "mut") or t.op == "idx" and t.a[1].op == "int":
            if t.op == "fld" and t.a[2].__class__ is str and t.a[0].op == "arg":
                break
            t = t.a[0]
        x = t
        while x.op in ("fld", "mut"):
            x = x.a[0]
        if x.op == "arg":
            b = self.p.bodies[self.a.root["inst"]]
            ty = self.p.ty(b["locals"][x.a[0] + 1])
            for _ in range(4):
                if ty["k"] in ("ref", "refmut") and ty.get("a"):
                    ty = self.p.ty(ty["a"][0])
            h = ty.get("h", "")
            ad = self.p.adts.get(h)
            if ad is not None and ad.get("local") and not h.startswith(PUBLIC_TYPES):
                return "fields of " + h
            return None
        if x.op == "res":
            e = self.event(x)
            if e is None:
                return "result"
            n = last(e.rec["path"])
            if e.rec["path"].startswith("yap::"):
                return None if n == "next" else "position"
            if e.name.startswith(FREE_LIBS) or e.rec["path"].startswith(FREE_LIBS):
                return None
            if n in ("next", "next_back", "pop", "next_element", "next_key", "next_value", "next_entry") and e.args:
                return self.free(strip(e.args[0])) if base(e.args[0]).op != "obj" else "own container"
            if e.rec.get("kind") == "unresolved" and e.rec.get("inst") is None:
                return None
            return "result of " + e.name
        if x.op == "call":
            if x.a[0].startswith(FREE_LIBS):
                return None
            if last(x.a[0]) in ("parse",) and x.a[0].startswith("core::str"):
                return None
            if last(x.a[0]) in ("first", "last", "get") and x.a[0].startswith("core::slice") and "as_bytes" not in show(x) and (len(x.a) == 2 or x.a[2].op == "int"):
                return self.free(strip(x.a[1]))
            if x.a[0] in ("core::str::chars", "core::str::bytes", "core::str::char_indices"):
                return self.free(strip(x.a[1]))
            return "result of " + x.a[0]
        if x.op == "stale":
            return self.free(x.a[0]) if base(x.a[0]).op in ("res", "arg") else "changed"
        return x.op

    def roots(self, t):
        out = set()
        for x in walk(t):
            if x.op in ("arg", "res", "obj"):
                out.add(x)
            if x.op == "res":
                e = self.event(x)
                if e is not None and e.args and last(e.rec["path"]) in ("next", "next_back"):
                    out |= {y for y in walk(e.args[0]) if y.op in ("arg", "res", "obj")}
        return out

    def place(self, i):
        """the text of which i is the place of a character, as char_indices gives it"""
        i = strip(i)
        if i.op == "fld" and i.a[2] == "0" and i.a[0].op == "fld" and i.a[0].a[1:] == ("Some", "0") and i.a[0].a[0].op == "res":
            e = self.event(i.a[0].a[0])
            if e is not None and e.args and last(e.rec["path"]) in ("next", "next_back"):
                y = strip(e.args[0])
                if y.op == "call" and y.a[0] == "core::str::char_indices":
                    return strip(y.a[1])
        return None

    # ---------------------------------------------------------- numbers
    def length(self, x):
        """the lengths that remain possible"""
        x = strip(x)
        if x.op == "arr":
            return len(x.a), len(x.a)
        if x.op == "str":
            n = len(x.a[0].encode())
            return n, n
        if x in self.a.g.arrlen:
            n = self.a.g.arrlen[x]
            return n, n
        lo, hi = 0, None
        some = 0
        for t, f in self.facts.items():
            if t.op == "len" and strip(t.a[0]) is x and f[0] == "int":
                lo = max(lo, f[1] or 0)
                while lo in (f[3] or ()):
                    lo += 1
                if f[2] is not None:
                    hi = f[2] if hi is None else min(hi, f[2])
            c = t
            if t.op == "res" and f == ("is", "Some"):
                e = self.event(t)
                if e is not None and e.args and last(e.rec["path"]) in ("next", "next_back"):
                    y = strip(e.args[0])
                    if y.op == "call" and y.a[0] in ("core::str::chars", "core::str::bytes", "core::str::char_indices") and strip(y.a[1]) is x:
                        some += 1
            if c.op == "call" and last(c.a[0]) in ("starts_with", "ends_with", "contains", "find", "strip_prefix", "strip_suffix", "split_once") and strip(c.a[1]) is x and f in (("b", 1), ("is", "Some")):
                some = max(some, 1)
            if c.op == "call" and strip(c.a[1]) is x:
                n = last(c.a[0])
                if n in ("first", "last") and f == ("is", "Some"):
                    lo = max(lo, 1)
                if n in ("first", "last") and f == ("is", "None"):
                    hi = 0
                if n == "get" and c.a[2].op == "int":
                    if f == ("is", "Some"):
                        lo = max(lo, c.a[2].a[0] + 1)
                    elif f == ("is", "None"):
                        hi = min(c.a[2].a[0], hi if hi is not None else 1 << 62)
                if n == "starts_with" and f == ("b", 1) and c.a[2].op == "str":
                    lo = max(lo, len(c.a[2].a[0].encode()))
        if x.op == "call" and last(x.a[0]) == "finalize" or x.op == "res" and x.a[2].endswith("finalize"):
            return None
        return max(lo, some), hi

    def bounds(self, t, ty=None):
        """(lo, hi, every value between them can occur) or None"""
        if t.op == "int":
            return t.a[0], t.a[0], True
        f = self.facts.get(t)
        if t.op == "len":
            l = self.length(t.a[0])
            if l is None:
                return None
            x = strip(t.a[0])
            return l[0], l[1] if l[1] is not None else (1 << 63) - 1, x.op in ("arr", "str") or self.free(x) is None
        if t.op == "cast" and t.a[0] in MAX and t.a[1] in MAX:
            b = self.bounds(t.a[2], t.a[0])
            if b is None:
                b = (*MAX[t.a[0]], False)
            lo, hi = MAX[t.a[1]]
            if lo <= b[0] and b[1] <= hi:
                r = b
            else:
                r = (lo, hi, b[2] and b[1] - b[0] >= hi - lo)
        elif t.op == "bin" and t.a[0] in ("BitAnd", "Shr", "Sub", "Add", "Mul") and t.a[2].op == "int":
            ty = t.a[3]
            b = self.bounds(t.a[1], ty)
            if b is None:
                return None
            c = t.a[2].a[0]
            if t.a[0] == "BitAnd":
                full = c & (c + 1) == 0
                r = (0, c, b[2] and full and b[0] <= 0 and b[1] >= c) if b[0] >= 0 else None
                if full and 0 <= b[0] and b[1] <= c:
                    r = b
            elif t.a[0] == "Shr":
                r = (b[0] >> c, b[1] >> c, b[2])
            elif t.a[0] == "Mul":
                r = (b[0] * c, b[1] * c, False) if c >= 0 else None
            else:
                k = c if t.a[0] == "Add" else -c
                r = (b[0] + k, b[1] + k, b[2])
            if r is None:
                return None
        else:
            if ty is None:
                ty = self.type_of(t)
            fr = self.free(t)
            if f is None and ty not in MAX:
                return None
            r = (*MAX[ty], fr is None) if ty in MAX else None
            if r is None:
                if f[0] != "int" or f[1] is None or f[2] is None:
                    return None
                r = (f[1], f[2], fr is None)
        if f is not None and f[0] == "int":
            lo, hi = r[0], r[1]
            if f[1] is not None:
                lo = max(lo, f[1])
            if f[2] is not None:
                hi = min(hi, f[2])
            r = (lo, hi, r[2])
        return r

    def type_of(self, t):
        if t.op == "bin":
            return t.a[3]
        return None

    def related(self, x, y):
        """is x < y: True, False, or None if nothing is known"""
        lt = self.facts.get(mk("bin", "Lt", x, y, "usize"))
        for ty in ("usize", "u8", "u16", "u32", "u64", "u128"):
            f = self.facts.get(mk("bin", "Lt", x, y, ty))
            if f is not None:
                return bool(f[1])
        xs, ys = strip(x), strip(y)
        for t, f in self.facts.items():
            if t.op == "bin" and t.a[0] in ("Lt", "Eq") and f[0] == "b":
                a, b = strip(t.a[1]), strip(t.a[2])
                if a is xs and b is ys and t.a[0] == "Lt":
                    return bool(f[1])
                if {a, b} == {xs, ys}:
                    return "?"
            elif t.op == "call" and last(t.a[0]) == "get" and len(t.a) > 2 and f[0] == "is" and strip(t.a[2]) is xs and strip(mk("len", t.a[1])) is ys:
                return f[1] == "Some"
        return None

    def fits(self, i, n):
        """can i be n or more: "bad", "ok" or the reason for not knowing"""
        r = self.related(i, n)
        if r is True:
            return "ok"
        if r == "?":
            return "compared"
        bi, bn = self.bounds(i, "usize"), self.bounds(n, "usize")
        if bi and bn and bi[1] < bn[0]:
            return "ok"
        if n.op == "int" and i.op != "int":
            s = self.small((i,), lambda v: v >= n.a[0])
            if s is False:
                return "ok"
            if s:
                return "bad"
        if i.op == "bin" and i.a[0] == "Sub" and strip(i.a[1]) is strip(n) and i.a[2].op == "int" and i.a[2].a[0] >= 1:
            return "ok"
        if i.op == "int" or n.op == "int":
            if bi is None or bn is None:
                return "bounds"
            if bi[2] and bn[2] and bi[1] >= bn[0]:
                return self.others((i, n))
            return "bounds"
        # two things that have nothing to do with each other
        for t in (i, n):
            x = t.a[0] if t.op == "len" else t
            y = self.free(strip(x))
            if y is not None:
                return y
        if self.roots(i) & self.roots(n):
            return "related"
        return self.others((i, n))

    # ---------------------------------------------------------- the rest of the path
    def understood(self, t, f):
        """a condition that can be met whatever is known besides, or the reason"""
        if f[0] in ("is", "not"):
            if t.op == "call" and last(t.a[0]) in ("first", "last", "get", "find", "parse"):
                return self.free(strip(t.a[1])) if last(t.a[0]) != "parse" else None
            return self.free(t)
        if f[0] == "int":
            if t.op == "len":
                x = strip(t.a[0])
                return self.free(x)
            return self.free(t)
        if f[0] == "b":
            neg = t
            while neg.op == "un":
                neg = neg.a[1]
            if neg.op == "eq" or neg.op == "call" and last(neg.a[0]) in ("eq", "starts_with", "ends_with", "eq_ignore_ascii_case"):
                xs = [y for y in neg.a if y.__class__ is Term]
                rs = [self.free(strip(y)) for y in xs if y.op not in ("str", "int", "arr")]
                return next((r for r in rs if r), None) if len(rs) == 1 else "compared with each other"
            if neg.op == "call" and last(neg.a[0]).startswith("is_"):
                return self.free(strip(neg.a[-1])) if len(neg.a) == 2 else "condition"
            if neg.op in ("fld", "res", "arg"):
                return self.free(neg)
            if neg.op == "call":
                return self.free(neg)
            return "condition"
        return "condition"

    def others(self, focus, skip=()):
        """"bad" unless the path has asked something else about these things that is not understood"""
        rs = set()
        conts = set()
        for t in focus:
            rs |= self.roots(t)
        for r in list(rs):
            if r.op == "res":
                e = self.event(r)
                if e is not None and last(e.rec["path"]) in ("next", "next_back", "pop") and e.args:
                    conts.add(strip(e.args[0]))
        for t, f in self.facts.items():
            if t in focus or t in skip:
                continue
            if t.op == "res":
                e = self.event(t)
                if e is not None and e.args and strip(e.args[0]) in conts and t not in rs:
                    if f == ("is", "Some") and any(self.facts.get(z) == ("is", "Some") for z in rs):
                        continue  # another item
                    return "the same items were looked at before"
            if any(x in conts for x in walk(strip(t))) and t.op == "len":
                if f[0] == "int" and (not f[1] or f[2] is None and not any(z in self.facts and self.facts[z] == ("is", "None") for z in focus)):
                    continue
                return "the number of items is known"
            if not (self.roots(t) & rs):
                continue
            u = self.understood(t, f)
            if u is not None:
                return "%s of %s" % (f[0], u)
        return "bad"

    # ---------------------------------------------------------- panics
    def enum_panic(self, kinds):
        """unwrap and expect"""
        if not self.asked or self.asked[-1][1][0] != "is" or self.asked[-1][1][1] not in kinds:
            return UNKNOWN
        c = self.asked[-1][0]
        if c.op == "call" and c.a[0].endswith("Composite::peek_name"):
            x = strip(c.a[1])
            for t, f in self.facts.items():
                if t.op == "call" and t.a[0].endswith("Composite::has_unnamed_fields") and strip(t.a[1]) is x:
                    return None if f == ("b", 0) else "names"
        if c.op == "res" and last(c.a[2]).startswith("decode_item") and self.facts[c] == ("is", "None"):
            return None  # the number of items is a matter of the library
        if c.op == "call" and last(c.a[0]) in ("get", "first", "last") and self.facts[c] == ("is", "None"):
            i = c.a[2] if last(c.a[0]) == "get" else INT(0, "usize")
            fs = dict(self.facts)
            del self.facts[c]
            n = mk("len", c.a[1])
            l = self.length(c.a[1])
            if l is not None and l[0] == l[1]:
                n = INT(l[0], "usize")
            r = self.fits(i, n)
            self.facts = fs
            if r == "ok":
                return None
            return ("bad", "%s may be missing" % show(norm(c))[:120]) if r == "bad" else r
        r = self.free(c)
        if r is not None:
            return r
        if c.op == "res" and last(c.a[2]) in ("next", "pop", "next_back"):
            e = self.event(c)
            x = strip(e.args[0])
            n = sum(1 for k, l in self.evs if k[0] is x and last(l.rec["path"]) != "len")
            l = self.length(x)
            if n == 1 and l[0] >= 1:
                return None
        o = self.others((c,))
        return ("bad", "%s may be %s" % (show(norm(c))[:120], self.facts[c][1])) if o == "bad" else o

    def arithmetic(self, t):
        """ovf(op, x, y, type)"""
        op, x, y, ty = t.a[:4]
        if op in ("Add", "Mul") and ty in ("usize", "isize", "u64", "i64", "u128", "i128") and not (ty.endswith("128") and (x.op == "int" or y.op == "int")):
            return None  # cannot be reached by counting
        if ty not in MAX:
            return "type"
        if op in CALC:
            r = self.small((x, y), lambda a, b: not MAX[ty][0] <= CALC[op](a, b) <= MAX[ty][1])
            if r is False:
                return None
            if r:
                return ("bad", "%s of %s and %s can overflow (%s)" % (op, show(norm(x))[:80], show(norm(y))[:80], ", ".join("%s = %d" % (show(norm(z))[:60], v) for z, v in r.items())))
        bx, by = self.bounds(x, ty), self.bounds(y, ty)
        if bx is None or by is None:
            return "bounds"
        if op == "Sub":
            if bx[0] - by[1] >= MAX[ty][0] and bx[1] - by[0] <= MAX[ty][1]:
                return None
            if self.related(x, y) is False and MAX[ty][0] == 0:
                return None
            if self.related(x, y) == "?":
                return "compared"
            if x.op != "int" and y.op != "int":
                for z in (x, y):
                    z = z.a[0] if z.op == "len" else z
                    r = self.free(strip(z))
                    if r is not None:
                        return r
                if self.roots(x) & self.roots(y):
                    return "related"
        else:
            v = [g(bx[i], by[j]) for g in ((lambda a, b: a + b) if op == "Add" else (lambda a, b: a * b),) for i in (0, 1) for j in (0, 1)]
            if op not in ("Add", "Mul") or min(v) >= MAX[ty][0] and max(v) <= MAX[ty][1]:
                return None if op in ("Add", "Mul") else "operation"
            if self.roots(x) & self.roots(y):
                return "related"
        if not bx[2] or not by[2]:
            return "bounds"
        o = self.others((x, y))
        return ("bad", "%s of %s and %s can overflow" % (op, show(norm(x))[:80], show(norm(y))[:80])) if o == "bad" else o

    def index(self, x, i, incl=False, what="index"):
        n = mk("len", x)
        if self.place(i) is strip(x):
            return None
        l = self.length(x)
        if l is None:
            return "length"
        if l[0] == l[1]:
            n = INT(l[0], "usize")
        if incl:
            # i may be n as well
            if strip(i) is strip(n) or i.op == "len" and strip(i.a[0]) is strip(x):
                return None
            if self.related(n, i) is False:
                return None
            if i.op == "int":
                if i.a[0] == 0:
                    return None
                i = INT(i.a[0] - 1, "usize")
            elif i.op == "bin" and i.a[0] == "Sub" and strip(i.a[1]) is strip(mk("len", x)):
                return None
            elif self.related(i, mk("len", x)) is True:
                return None
            elif self.facts.get(i) is None and i.op in ("arg", "fld"):
                pass
            else:
                return "position"
        r = self.fits(i, n)
        if r == "ok":
            return None
        return ("bad", "%s %s may lie beyond the end of %s" % (what, show(norm(i))[:60], show(norm(strip(x)))[:80])) if r == "bad" else r

    def boundary(self, s, i):
        """does i lie between two characters of s?"""
        if i.op == "int" and i.a[0] == 0:
            return None
        s = strip(s)
        if self.place(i) is s:
            return None
        if i.op == "int" and s.op in ("arg", "fld"):
            for t, f in self.facts.items():
                if t.op == "len" and strip(t.a[0]) is s:
                    continue
                if any(strip(z) is s for z in walk(t)) and not (f[0] == "is" and t is not s and t.op == "fld"):
                    return "contents known"
            r = self.free(s)
            return ("bad", "position %d of %s need not be the start of a character" % (i.a[0], show(norm(s))[:80])) if r is None else r
        return "position"

    def range(self, x, r, ty, text):
        if not is_adt(r):
            return "range"
        n = r.a[0].split("::")[-1]
        f = fields(r)
        lo, hi = f.get("start"), f.get("end")
        if n not in ("Range", "RangeFrom", "RangeTo", "RangeFull"):
            return "range"
        out = []
        for b in (lo, hi):
            if b is None:
                continue
            q = self.index(x, b, True, "position")
            out.append(q)
            if text and q.__class__ is not tuple:
                out.append(self.boundary(x, b))
        if lo is not None and hi is not None and not (lo.op == "int" and lo.a[0] == 0):
            if lo.op == "int":
                b = self.bounds(hi, "usize")
                if b is None or b[0] < lo.a[0]:
                    out.append("order")
            else:
                out.append("order")
        bad = [q for q in out if q.__class__ is tuple]
        if bad:
            return bad[0]
        und = [q for q in out if q]
        return und[0] if und else None

    def risk(self, path, args, tys):
        if self.impossible:
            return None
        args = [self.called(t) for t in args]
        n = last(path)
        ty = self.p.ty(tys[0])["s"].replace("&", "").replace("mut ", "").strip()
        text = ty == "str" or ty.endswith("String")
        x = args[0]
        if n in ("index", "index_mut"):
            if not (text or ty.startswith(("[", "alloc::vec::Vec"))):
                return "another container"
            it = self.p.ty(tys[1])["s"]
            if it == "usize":
                return self.index(x, args[1])
            return self.range(x, args[1], it, text)
        if n in ("remove", "swap_remove"):
            return self.index(x, args[1]) if not text else "text"
        if n in ("insert", "split_off", "split_at"):
            r = self.index(x, args[1], True)
            return r if not text or r.__class__ is tuple else self.boundary(x, args[1])
        if n in ("copy_from_slice", "clone_from_slice"):
            l, m = self.length(args[0]), self.length(args[1])
            if l is None or m is None:
                return "length"
            if l[0] == l[1] == m[0] == m[1]:
                return None
            a, b = strip(args[0]), strip(args[1])
            ra, rb = self.free(a) if a.op != "arr" else None, self.free(b) if b.op != "arr" else None
            if ra or rb or self.roots(a) & self.roots(b):
                return ra or rb or "related"
            o = self.others(tuple(z for z in (a, b) if z.op != "arr"))
            return ("bad", "%s and %s need not have the same length" % (show(norm(a))[:60], show(norm(b))[:60])) if o == "bad" else o
        return "arguments"

    def end(self, e):
        if self.impossible:
            return None
        w = e.what
        if w[0] == "assert":
            if w[1] == "overflow":
                t = self.called(e.val)
                while t.op == "un":
                    t = t.a[1]
                if t.op != "ovf":
                    return "operation"
                return self.arithmetic(t)
            t = self.called(e.val)
            if t.op == "bin" and t.a[0] == "Lt":
                fs = dict(self.facts)
                self.facts.pop(t, None)
                r = self.fits(t.a[1], t.a[2])
                self.facts = fs
                return ("bad", "index %s may be %s or more" % (show(norm(t.a[1]))[:80], show(norm(t.a[2]))[:60])) if r == "bad" else (None if r == "ok" else r)
            if t.op == "bin" and t.a[0] in ("Eq", "Ne"):
                return "division"
            return "condition"
        n = last(str(w[1]))
        if n in ("expect_failed", "unwrap_failed"):
            r = self.enum_panic(("None", "Err", "Ok", "Some") if "result" in w[1] else ("None",))
            if r != UNKNOWN:
                return r
        # panic!, unreachable!, assert!: every condition on the path counts
        if any(t.op == "len" and f[0] == "int" and (f[1] or 0) >= 1 << 31 for t, f in self.facts.items()):
            return None  # more items than fit into memory
        for t, f in self.facts.items():
            u = self.understood(t, f)
            if u is not None:
                return "%s of %s" % (f[0], u)
        fs = list(self.facts)
        for i, t in enumerate(fs):
            for s in fs[:i]:
                if self.roots(t) & self.roots(s) and not (self.facts[s][0] == "is" and self.facts[t][0] == "is") and not (part(t) and part(s)):
                    return "conditions that depend on each other"
                if t.op == s.op == "res":
                    a, b = self.event(t), self.event(s)
                    if a and b and a.args and b.args and strip(a.args[0]) is strip(b.args[0]) and last(a.rec["path"]).startswith("next") and not plain(strip(a.args[0])):
                        return "the same items were looked at before"
        if not fs:
            return ("bad", "panics")
        return ("bad", "panics if %s" % ", ".join("%s is %s" % (show(norm(t))[:60], f[1]) for t, f in self.facts.items()))[:2]


def documented(a, e):
    """serde rules out a map value without a key"""
    n = a.root["name"]
    return (a.root.get("traitref") or "").endswith("SerializeMap") and n == "serialize_value"


def panics(rep, rule, files):
    p = prog("all")
    rs = [r for r in all_roots(p) if r["span"].split(":")[0].startswith(files) and (r.get("reach") or r.get("traitref")) and not (r.get("traitref") or "").startswith("private")]
    need(rep, rs, "public functions in " + files[0])
    for r in rs:
        a = An(p, r)
        rep.saw(a)
        name = rname(r)
        if not a.complete:
            rep.undecided(rule, name, a.g.incomplete)
        # one verdict for each place
        done = {}
        ws = None
        if any(n.term is not None and n.term.kind == "panic" for n in a.g.nodes) or a.g.risks:
            ws = Walks(a)
        for node in a.g.nodes:
            e = node.term
            if e is None or e.kind != "panic":
                continue
            if documented(a, e):
                continue
            k = (str(e.what), e.span, e.fn)
            if done.get(k, (None,))[0].__class__ is tuple:
                continue
            v = verdict(a, ws, node.id, e.facts, e.span, lambda q: q.end(e))
            if k not in done or v is not None and (done[k][0] is None or v.__class__ is tuple):
                done[k] = (v, e.span, e.fn)
        for ev, facts in a.g.risks:
            path, args, span, fn, site = ev.rec["path"], ev.args, ev.span, ev.fn, ev.site
            k = (path, span, fn)
            if done.get(k, (None,))[0].__class__ is tuple:
                continue
            if any(x.op in ("res", "obj") and x.a[0] == site for t in args for x in walk(t)):
                v = "own result"
            else:
                if id(ev) not in ws.edge:
                    continue
                v = verdict(a, ws, ws.edge[id(ev)], facts, span, lambda q: q.risk(path, args, ev.argtys))
            if k not in done or v is not None and (done[k][0] is None or v.__class__ is tuple):
                done[k] = (v, span, fn)
        n = 1
        for k, (v, span, fn) in done.items():
            if v is None:
                n += 1
            elif v.__class__ is tuple:
                rep.bad(rule, name, "can panic: %s" % v[1], span if span.startswith("src/") else "%s (in %s)" % (r["span"], fn))
            else:
                rep.undecided(rule, name, "%s at %s: %s" % (k[0][:60], span[-40:], v))
        rep.ok(rule, name, n)


RULE = "no path to a panic, and no call of a library function with arguments it panics on, is left possible by what the path has checked"


def define(pid, files):
    @prop(pid)
    def f(rep):
        rep.rule("panic", RULE)
        panics(rep, "panic", files)


define("C07", ("src/scale_impls/decode.rs", "src/scale_impls/tracing_decoder/"))
define("C08", ("src/scale_impls/encode.rs",))
define("C09", ("src/string_impls/from_string.rs", "src/string_impls/string_helpers.rs", "src/string_impls/custom_parsers/"))
define("C15", ("src/string_impls/to_string.rs", "src/string_impls/custom_formatters/", "src/value_type.rs", "src/at.rs", "src/lib.rs", "src/macros.rs"))
define("C34", ("src/serde_impls/",))
