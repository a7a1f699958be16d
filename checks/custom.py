"""The formatters and parsers that the crate offers for special notations."""
from rules import *
from evalt import ev, text, allows, Unknown
from serdes import adaptors, CHANGERS

SAMPLES = frozenset(list(range(256)) + [256, 257, 300, 384, 511, 512, 4095, 65535, 65536, 1 << 32, (1 << 32) + 7, (1 << 64) - 1, 1 << 64, (1 << 64) + 255, 1 << 127, (1 << 128) - 1])
WRITES = ("write_str", "write_char", "push_str", "push")


def proj(t, path):
    """like pr, but looks into values that are known"""
    ps = path.split(".")
    while ps:
        v = ps.pop(0)
        v, n = (v, ps.pop(0)) if v[0].isupper() else ("", v)
        if t.op == "adt" and (not v or t.a[1] == v) and n in t.a[2]:
            t = t.a[3 + list(t.a[2]).index(n)]
        else:
            t = mk("fld", t, v, n)
    return t


class FormatHex:
    """state: (R or UNIT, values of the item that are possible, it is a plain number, kind known,
    what was written since, "0x" written, all items before are bytes, verified)"""

    def __init__(self, a):
        self.a = a
        self.arg = a.arg(0)
        self.vd = pr(self.arg, "value")
        self.items = norm(pr(self.vd, "Composite.0.Unnamed.0"))
        self.out = base(a.arg(1))
        self.und = set()
        self.n = {"which": 0, "text": 0}

    def nxt(self, l):
        if last(l.rec["path"]) not in ("next", "next_back", "nth") or not l.args:
            return False
        return norm(base(adaptors(l.args[0])[0])) is self.items

    def init(self):
        return (UNIT, frozenset(), None, (), 0, True, False, None, False)

    def step(self, s, l):
        R, vals, kind, out, started, allok, checked, why, seen = s
        if l.kind == "ev":
            if self.nxt(l):
                if last(l.rec["path"]) != "next" or any(x.a[1] in CHANGERS for x in adaptors(l.args[0])[1]):
                    return Bad("order", "not all items are taken in order", l.span)
                if R is not UNIT and kind not in ("asked", "end"):
                    w = self.item_done(s)
                    if w:
                        return w
                    if not self.isbyte(s):
                        allok = False
                if R is UNIT or kind == "end":
                    allok = True
                return (l.res, SAMPLES, "asked", (), started, allok, checked, why, seen)
            if last(l.rec["path"]) in WRITES and len(l.args) == 2:
                if base(l.args[0]) is not self.out:
                    return s  # a container of the function's own
                if R is UNIT or kind in ("asked", "end"):
                    try:
                        x = text(l.args[1], {})
                    except Unknown:
                        self.und.add("something is written that is not understood")
                        return None
                    if started == 0 and "0x".startswith(x) or x == "":
                        started = 2 if x == "0x" else 1 if x else 0
                    elif started == 1 and x == "x":
                        started = 2
                    else:
                        return Bad("prefix", "writes %r outside the items" % x, l.span)
                    return (R, vals, kind, out, started, allok, checked, why, seen)
                return (R, vals, kind, out + (l.args[1],), started, allok, checked, why, seen)
            return s
        if l.kind == "br":
            t = l.term
            if t is self.vd:
                if l.out.__class__ is str and l.out != "Composite" or l.out.__class__ is tuple and "Composite" not in l.out:
                    why = "other"
                return (R, vals, kind, out, started, allok, checked, why, seen)
            if t is pr(self.vd, "Composite.0"):
                if l.out == "Named":
                    why = "other"
                return (R, vals, kind, out, started, allok, checked, why, seen)
            for x, y, r in relfacts(l):
                for p_, q, sw in ((x, y, r), (y, x, r.translate(str.maketrans("<>", "><")))):
                    if p_.op == "len" and norm(base(p_.a[0])) is self.items and q.op == "int":
                        if (q.a[0], sw) in ((0, "="), (0, "=<"), (1, "<")):
                            why = "empty"
                        elif q.a[0] == 0 and "=" not in sw or q.a[0] >= 1 and "<" not in sw:
                            seen = True
            if t is not R and contains(t, self.items) and l.out == "Some":
                seen = True
            if R is not UNIT:
                if t is R:
                    if l.out == "None":
                        if allok and kind == "asked":
                            checked = True
                        return (R, vals, "end", (), started, allok, checked or allok, why, seen)
                    return (R, frozenset(range(256)) if checked else SAMPLES, "item", (), started, allok, checked, why, True)
                if kind in ("end", "asked"):
                    return (R, vals, kind, out, started, allok, checked, why, seen)
                ivd = pr(R, "Some.0.value")
                prim = pr(ivd, "Primitive.0")
                for y, want in ((ivd, "Primitive"), (prim, "U128")):
                    if t is y:
                        o = (l.out,) if l.out.__class__ is str else l.out
                        if want not in o:
                            if checked:
                                return None  # found to be a number before
                            return (R, vals, "no number", out, started, False, checked, "item", seen)
                        return (R, vals, kind, out, started, allok, checked, why, seen)
                n = pr(prim, "U128.0")
                if contains(t, n):
                    keep = set()
                    for v in vals:
                        try:
                            if allows(l, {n: v}):
                                keep.add(v)
                        except Unknown:
                            self.und.add("a condition on an item's number is not understood")
                            return None
                    if not keep:
                        return None
                    return (R, frozenset(keep), kind, out, started, allok, checked, "item" if min(keep) >= 256 else why, seen)
            return (R, vals, kind, out, started, allok, checked, why, seen)
        if l.kind == "ret":
            k = retkind(l.val)
            if k == "None":
                if started or out:
                    return Bad("text left", "something is written although the value is left to others", self.a.span)
                if why is None:
                    if kind == "item" and R is not UNIT or R is UNIT or kind == "end":
                        return Bad("left out", "a value made of numbers from 0 to 255 alone is not shown as hex", self.a.span)
                self.n["which"] += 1
                return None
            if k == "Some":
                r = okval(l.val)
                if retkind(r) == "Err":
                    return None
                if retkind(r) != "Ok" and r.op != "res":
                    self.und.add("cannot tell what is returned")
                    return None
                if R is UNIT:
                    return Bad("items", "the items are not looked at", self.a.span)
                if why in ("other", "item", "empty"):
                    return Bad("too much", {"other": "a value that is no list of unnamed items is shown as hex", "item": "an item that is no number from 0 to 255 is shown as hex", "empty": "an empty list is shown as hex"}[why], self.a.span)
                if not seen:
                    return Bad("too much", "an empty list is shown as hex", self.a.span)
                if kind != "end":
                    return Bad("stops", "stops before all items are shown", self.a.span)
                if not checked:
                    return Bad("unchecked", "items are shown as hex without having been found to be numbers from 0 to 255", self.a.span)
                if started != 2:
                    return Bad("0x", "the text does not begin with 0x", self.a.span)
                self.n["which"] += 1
                return None
            self.und.add("cannot tell what is returned")
            return None
        return s

    def isbyte(self, s):
        return s[2] == "item" and all(v < 256 for v in s[1])

    def item_done(self, s):
        R, vals, kind, out, started, allok, checked, why, seen = s
        if not out:
            if started:
                # items that are known to be numbers have to be written
                if kind == "item" or checked:
                    if kind == "no number":
                        return None
                    return Bad("dropped", "an item is not written", self.a.span)
            return None
        if started != 2:
            return Bad("0x", "an item is written before 0x", self.a.span)
        n = pr(R, "Some.0.value.Primitive.0.U128.0")
        for v in sorted(vals):
            if v > 255:
                if checked:
                    continue
                return Bad("large", "a number above 255 is written", self.a.span)
            try:
                x = "".join(text(o, {n: v}) for o in out)
            except Unknown as e:
                self.und.add("what is written for an item is not understood (%s)" % e)
                return None
            if x.upper() != "%02X" % v:
                return Bad("digits", "the number %d is written as %r" % (v, x), self.a.span)
        self.n["text"] += 1
        return None


@prop("C40")
def c40(rep):
    rep.rule("which", "a value is written as hex exactly if it is a list of unnamed items, not empty, and all of them are numbers from 0 to 255; for others nothing is written")
    rep.rule("text", "the text is 0x and, for every item in order, its two hexadecimal digits")
    p = prog("all")
    r = fn_root(p, rep, "string_impls::custom_formatters::hex::format_hex", required=False) or fn_root(p, rep, "stringify::custom_formatters::format_hex")
    if not r:
        return
    a = An(p, r)
    rep.saw(a)
    if not a.complete:
        rep.undecided("which", "format_hex", a.g.incomplete)
        return
    t = FormatHex(a)
    if not a.events(t.nxt):
        rep.undecided("text", "format_hex", "no loop over the items found")
        return
    bads = a.automaton(t.init(), t.step)
    for b in bads:
        rep.bad("text" if b.key in ("digits", "dropped", "0x", "order", "prefix", "stops") else "which", "format_hex", b.msg, b.where, b.path)
    for u in t.und:
        rep.undecided("text", "format_hex", u)
    if not bads:
        for k, n in t.n.items():
            if n:
                rep.ok(k, "format_hex", n)
            elif not t.und:
                rep.undecided(k, "format_hex", "nothing to check was found")


HEXV = {c: int(chr(c), 16) for c in b"0123456789abcdefABCDEF"}
ALNUM = frozenset(v for v in range(256) if 48 <= v <= 57 or 65 <= v <= 90 or 97 <= v <= 122)
END = -1
ANY = frozenset(range(-1, 256))


class ParseHex:
    """state: (what is known of the bytes read, a sorted tuple of (place, possible values),
    is there a 0x, values pushed so far)"""

    def __init__(self, a):
        self.a = a
        self.s = a.arg(0)
        self.und = set()
        self.n = {"which": 0, "value": 0, "rest": 0}
        self.deep = 0
        self.cache = {}
        self.strip = {}
        for e in a.events(lambda l: last(l.rec["path"]) == "strip_prefix" and len(l.args) == 2):
            v = (e.args[0], e.args[1])
            self.strip[e.res] = v if self.strip.get(e.res, v) == v else None

    def base0(self, t):
        """the place in the text at which t begins"""
        t = norm(base(t))
        if t is norm(self.s):
            return 0
        if t.op == "call" and last(t.a[0]) in ("as_bytes", "from_utf8_unchecked", "iter"):
            return self.base0(t.a[1])
        if t.op == "fld" and t.a[1] == "Some":
            w = self.begins(t.a[0])
            return w and w[0] + len(w[1])
        if t.op == "call" and last(t.a[0]) == "index" and len(t.a) == 3:
            b, x = self.base0(t.a[1]), t.a[2]
            if b is not None and x.op == "adt" and x.a[0].endswith("RangeFrom") and x.a[-1].op == "int":
                return b + x.a[-1].a[0]
        return None

    def begins(self, t):
        """(place, text) if the term says whether that text is there"""
        if t.op == "res":
            e = self.strip.get(t)
            if e is None:
                return None
            x, q = e
        elif t.op == "call" and last(t.a[0]) in ("starts_with", "strip_prefix") and len(t.a) == 3:
            x, q = t.a[1:]
        else:
            return None
        b = self.base0(x)
        if b is None:
            return None
        try:
            return b, text(q, {})
        except Unknown:
            return None

    def reads(self, t):
        """the places read in the term: {term: place}, or None when one is not known"""
        r = self.cache.get(t)
        if r is None:
            r = {}
            for x in walk(t):
                if x.op == "call" and last(x.a[0]) == "get" and len(x.a) == 3:
                    b = self.base0(x.a[1])
                    if b is None:
                        continue
                    if x.a[2].op != "int":
                        r = "deep"
                        break
                    r[x] = b + x.a[2].a[0]
                elif x.op == "idx":
                    b = self.base0(x.a[0])
                    if b is None:
                        continue
                    if x.a[1].op != "int":
                        r = "deep"
                        break
                    r[x] = b + x.a[1].a[0]
                elif x.op == "wid":
                    r = "deep"
                    break
            self.cache[t] = r
        return r

    def envs(self, d, r):
        import itertools

        ks = sorted(set(r.values()))
        sets = [sorted(dict(d).get(k, ANY)) for k in ks]
        n = 1
        for x in sets:
            n *= len(x)
        if n > 70000:
            raise Unknown("too many cases")
        for vs in itertools.product(*sets):
            m = dict(zip(ks, vs))
            if any(m[k] == END for x, k in r.items() if x.op == "idx"):
                continue
            yield m, {x: m[k] if x.op == "idx" else ("None",) if m[k] == END else ("Some", m[k]) for x, k in r.items()}

    def narrow(self, d, l):
        r = self.reads(l.term)
        if r == "deep":
            return "deep"
        if not r:
            return d
        keep = {k: set() for k in r.values()}
        try:
            for m, env in self.envs(d, r):
                if allows(l, env):
                    for k, v in m.items():
                        keep[k].add(v)
        except Unknown as e:
            return str(e)
        if not all(keep.values()):
            return None
        n = dict(d)
        n.update((k, frozenset(v)) for k, v in keep.items())
        return tuple(sorted(n.items()))

    def prefix(self, b, pre):
        if pre is None:
            if b.get(0, ANY) == frozenset((48,)) and b.get(1, ANY) == frozenset((120,)):
                return True
            if 48 not in b.get(0, ANY) or 120 not in b.get(1, ANY):
                return False
        return pre

    def init(self):
        return ((), None, 0, ())

    def step(self, s, l):
        d, pre, pushed, cut = s
        if l.kind == "br":
            t = l.term
            w = self.begins(t)
            if w:
                D = dict(d)
                here = {w[0] + i: frozenset((ord(c),)) for i, c in enumerate(w[1]) if ord(c) < 128}
                fit = [D.get(k, ANY) & v for k, v in here.items()]
                if l.out in (True, "Some"):
                    if not all(fit):
                        return None
                    D.update(here)
                    d = tuple(sorted(D.items()))
                elif len(here) == 1:
                    ((k, v),) = here.items()
                    if not D.get(k, ANY) - v:
                        return None
                    D[k] = D.get(k, ANY) - v
                    d = tuple(sorted(D.items()))
                if w == (0, "0x"):
                    pre = l.out in (True, "Some")
                else:
                    pre = self.prefix(D, pre)
                return (d, pre, pushed, cut)
            for x, y, q in relfacts(l):
                for p_, z, sw in ((x, y, q), (y, x, q.translate(str.maketrans("<>", "><")))):
                    if p_.op == "len" and z.op == "int" and self.base0(p_.a[0]) is not None:
                        k = z.a[0] + self.base0(p_.a[0])
                        D = dict(d)
                        sw = {"=>": ">=", "=<": "<="}.get(sw, sw)
                        if sw in (">", "<="):  # more than k: there is a byte at k
                            pass
                        elif sw in ("<", ">="):
                            k -= 1
                        else:
                            continue
                        for i in range(k + 1) if sw in (">", ">=") else (k,) if k >= 0 else ():
                            v = D.get(i, ANY)
                            v = v - {END} if sw in (">", ">=") else v & {END}
                            if not v:
                                return None
                            D[i] = v
                        d = tuple(sorted(D.items()))
                        return (d, self.prefix(D, pre), pushed, cut)
            n = self.narrow(d, l)
            if n is None:
                return None
            if n == "deep":
                self.deep += 1
                return None
            if n.__class__ is str:
                self.und.add("a condition on the text is not understood (%s)" % n)
                return None
            return (n, self.prefix(dict(n), pre), pushed, cut)
        if l.kind == "ev":
            if last(l.rec["path"]) == "push" and len(l.args) == 2:
                v = norm(l.args[1])
                x = norm(proj(v, "value.Primitive.0.U128.0"))
                r = self.reads(x)
                if r == "deep":
                    self.deep += 1
                    return None
                if v.op != "adt" or x.op == "fld":
                    return s  # moved into another container
                k = 2 + 2 * pushed
                try:
                    for m, env in self.envs(d, {**r}):
                        got = ev(x, env)
                        if set(m) != {k, k + 1} or m[k] not in HEXV or m[k + 1] not in HEXV or HEXV[m[k]] * 16 + HEXV[m[k + 1]] != got:
                            if not set(m) <= {k, k + 1}:
                                return Bad("value", "the value number %d is made of the digits at %s" % (pushed, sorted(m)), l.span)
                            return Bad("value", "the digits %s give %d" % ("".join(chr(c) for c in m.values()), got), l.span)
                except Unknown as e:
                    self.und.add("what is pushed is not understood (%s)" % e)
                    return None
                self.n["value"] += 1
                return (d, pre, pushed + 1, cut)
            if last(l.rec["path"]) in ("index", "get_unchecked") and len(l.args) == 2:
                x = norm(l.args[1])
                st = None
                if x.op == "adt" and x.a[0].endswith("RangeFrom"):
                    try:
                        st = ev(x.a[-1], {y: pushed for y in walk(x) if y.op == "len" and base(y.a[0]).op == "obj"})
                    except Unknown:
                        pass
                return (d, pre, pushed, (l.res, l.args[0], st))
            return s
        if l.kind == "panic":
            return None
        if l.kind == "ret":
            D = dict(d)
            k = retkind(l.val)
            if k == "None":
                if pre:
                    return Bad("which", "text that begins with 0x is left to others", self.a.span)
                if pre is None:
                    self.und.add("nothing is returned although it is not known that there is no 0x")
                    return None
                if self.changed(l, cut) is not None:
                    return Bad("rest", "text is taken although nothing is returned", self.a.span)
                self.n["which"] += 1
                return None
            if k != "Some":
                self.und.add("cannot tell what is returned")
                return None
            if not pre:
                if pre is False:
                    return Bad("which", "text that does not begin with 0x is taken for hex", self.a.span)
                self.und.add("something is returned although it is not known that there is a 0x")
                return None
            # the digits: places 2.. that are surely alphanumeric
            n = 2
            while D.get(n, ANY) <= ALNUM:
                n += 1
            ended = not (D.get(n, ANY) & ALNUM)
            digits = [D[i] for i in range(2, n)]
            valid = all(x <= HEXV.keys() for x in digits)
            invalid = [i + 2 for i, x in enumerate(digits) if not x & HEXV.keys()]
            r = okval(l.val)
            if retkind(r) == "Ok":
                if not ended:
                    if pushed * 2 + 2 < n or not D.get(n, ANY) - ALNUM:
                        return Bad("which", "stops before the letters and digits end", self.a.span)
                    return Bad("which", "succeeds without looking whether a letter or digit follows", self.a.span)
                if not valid:
                    return Bad("which", "text with a letter that is no hex digit is accepted", self.a.span)
                if (n - 2) % 2:
                    return Bad("which", "an odd number of digits is accepted", self.a.span)
                if pushed * 2 + 2 != n:
                    return Bad("value", "%d digits give %d values" % (n - 2, pushed), self.a.span)
                self.n["which"] += 1
                c = self.changed(l, cut)
                if c is None:
                    return Bad("rest", "the text is not wound forwards", self.a.span)
                if c == "?":
                    self.und.add("cannot tell where the text is wound forwards to")
                elif c != n:
                    return Bad("rest", "the text is wound forwards to %d instead of %d" % (c, n), self.a.span)
                else:
                    self.n["rest"] += 1
                return None
            if retkind(r) == "Err":
                if not invalid and ended and valid and (n - 2) % 2 == 0:
                    return Bad("which", "correct hex text of %d digits is refused" % (n - 2), self.a.span)
                if not invalid and not ended and valid:
                    return Bad("which", "refuses before all digits have been looked at", self.a.span)
                st, en = norm(proj(r, "Err.0.start_loc")), norm(proj(r, "Err.0.end_loc"))
                if invalid:
                    want = (invalid[0], None)
                else:
                    want = (0, n)
                try:
                    got = (ev(st, {}), None if retkind(en) == "None" else ev(en, {})[1])
                    if got[1] is not None and invalid and got == (want[0], want[0] + 1):
                        got = want
                    if got != want:
                        return Bad("which", "the error is reported at %s instead of %s" % (got, want), self.a.span)
                except Unknown:
                    self.und.add("cannot tell where an error is reported")
                self.n["which"] += 1
                return None
            self.und.add("cannot tell what is returned")
        return s

    def changed(self, l, cut):
        """the place the text was wound forwards to, None if it was left alone"""
        m = (l.mem or {}).get(self.s)
        if m is None or m is self.s:
            return None
        m = norm(m)
        x = m
        while x.op == "call" and len(x.a) == 2:
            x = x.a[1]
        if x.op == "res" and cut and cut[0] is x:
            o, st = self.base0(cut[1]), cut[2]
            if o is not None and st is not None:
                return o + st
        o = self.base0(m)
        return "?" if o is None else o


@prop("C41")
def c41(rep):
    rep.rule("which", "text is taken for hex exactly if it begins with 0x; it is accepted exactly if the letters and digits that follow are hexadecimal digits, an even number of them; otherwise the error names the place")
    rep.rule("value", "every two digits, in order, give one item: the number they denote")
    rep.rule("rest", "the text is wound forwards behind the last digit, and not at all if it is left to others")
    p = prog("all")
    r = fn_root(p, rep, "string_impls::custom_parsers::hex::parse_hex")
    if not r:
        return
    for w in (4, 2):
        a = An(p, r, widen_after=w, opaque=lambda c, rec: "unnamed_composite" in c or "::from_bytes" in c)
        if a.complete:
            break
    rep.saw(a)
    if not a.complete:
        rep.undecided("which", "parse_hex", a.g.incomplete)
        return
    t = ParseHex(a)
    bads = a.automaton(t.init(), t.step)
    for b in bads:
        rep.bad(b.key, "parse_hex", b.msg, b.where, b.path)
    for u in t.und:
        rep.undecided("value", "parse_hex", u)
    if not bads:
        for k, n in t.n.items():
            if n:
                rep.ok(k, "parse_hex", n)
            elif not t.und:
                rep.undecided(k, "parse_hex", "nothing to check was found")


CHARS = list(range(256)) + [0x100, 0x130, 0x131, 0x17F, 0x212A, 0x2028, 0x3007, 0x660, 0xFF11, 0x10000, 0x10FFFF]
LENS = tuple(range(12)) + (32, 33, 34, 35, 36, 37, 38, 67, 130)
START = tuple((f, n) for n in LENS for f in ((END,) if n == 0 else (0, 1, 42, 62, 63, 64, 65, 100, 126, 127, 128, 129, 191, 192, 254, 255)))


def decides(p, clo):
    """for which characters a closure is true: {char: bool}, or None"""
    if clo.op == "arr" and all(x.op == "int" for x in clo.a):
        s = {x.a[0] for x in clo.a}
        return {v: v in s for v in CHARS}
    if clo.op == "int":
        return {v: v == clo.a[0] for v in CHARS}
    if clo.op != "clo":
        return None
    c = mk("arg", 1, "item")
    a = An(p, None, inst=clo.a[0], args=[clo, c])
    if not a.complete:
        return None
    got, fail = {}, []

    def step(s, l):
        try:
            if l.kind == "br":
                keep = frozenset(v for v in s if allows(l, {c: v}))
                return keep or None
            if l.kind == "ret":
                for v in s:
                    got[v] = bool(ev(l.val, {c: v}))
                return None
        except Unknown as e:
            fail.append(str(e))
            return None
        return None if l.kind == "panic" else s

    a.automaton(frozenset(CHARS), step)
    return None if fail or len(got) != len(CHARS) else got


class Ss58(ParseHex):
    """state: parts (what each cut-out result is), pairs of first byte and length that are possible,
    what the hash was fed, what is known ("eq", "true", "digit"...), why the text may be refused,
    the character looked at"""

    def __init__(self, p, a):
        self.p, self.a = p, a
        self.s = a.arg(0)
        self.und = set()
        self.n = {"which": 0, "payload": 0, "rest": 0}
        self.finds = {}

    def init(self):
        return ((), START, (), frozenset(), (UNIT, frozenset(), True))

    # pieces: ("text", start, end): start/end "0", "run" (end of the run), "end"
    #         ("bytes", term of the start, term of the end), ("hash", fed, lo, hi)
    def runend(self, t):
        t = norm(t)
        if t.op == "fld" and t.a[1] == "Some":
            t = t.a[0]
            return "run" if t.op == "call" and last(t.a[0]) == "find" and self.isfind(t) else None
        if t.op == "int" and t.a[0] == 0:
            return "0"
        if t.op == "len" and norm(base(t.a[0])) is norm(self.s):
            return "end"
        return None

    def isfind(self, t):
        if norm(base(t.a[1])) is not norm(self.s):
            return False
        if t not in self.finds:
            d = decides(self.p, norm(t.a[2]))
            if d is None:
                self.finds[t] = None
            else:
                w = [v for v in CHARS if d[v] == (v in ALNUM)]
                self.finds[t] = w[0] if w else True
        return self.finds[t] is True

    def piece(self, t, parts):
        t = norm(base(t))
        while t.op == "call" and last(t.a[0]) in ("as_str", "to_vec", "as_slice", "deref", "as_ref", "iter", "as_bytes"):
            t = norm(base(t.a[1]))
        if t is norm(self.s):
            return ("text", "0", "end")
        d = dict(parts)
        if t in d:
            return d[t]
        if t.op == "fld" and t.a[1] == "Ok" and t.a[0] in d and d[t.a[0]][0] == "decoded":
            return ("bytes", 0, None)
        return None

    def L(self, parts):
        return {mk("len", t) for t in self.bts(parts)}

    def bts(self, parts):
        return [mk("fld", t, "Ok", "0") for t, v in parts if v[0] == "decoded"]

    def envs58(self, t, parts, pairs):
        """environments for the terms about the decoded bytes that occur in t"""
        B = self.bts(parts)
        use = []
        for x in walk(t):
            if x.op == "len" and self.piece(x.a[0], parts) == ("bytes", 0, None):
                use.append((x, "len"))
            elif x.op == "len" and (self.piece(x.a[0], parts) or ("",))[0] == "hash":
                h = self.piece(x.a[0], parts)
                use.append((x, (64 if h[3] is None else h[3]) - h[2]))
            elif x.op == "call" and last(x.a[0]) in ("first", "get") and self.piece(x.a[1], parts) == ("bytes", 0, None) and (len(x.a) == 2 or x.a[2].op == "int" and x.a[2].a[0] == 0):
                use.append((x, "first"))
            elif x.op == "idx" and self.piece(x.a[0], parts) == ("bytes", 0, None) and x.a[1].op == "int" and x.a[1].a[0] == 0:
                use.append((x, "at"))
        if not use:
            return None
        out = []
        for f, n in pairs:
            e = {}
            for x, k in use:
                e[x] = k if k.__class__ is int else n if k == "len" else f if k == "at" else ("None",) if f == END else ("Some", f)
            out.append(((f, n), e))
        return out

    def about(self, t, parts):
        """which parts of the text the term depends on"""
        f = set()
        for x in walk(t):
            pc = self.piece(x, parts) if x.op in ("res", "fld", "arg") else None
            if not pc:
                continue
            if pc[0] == "unknown":
                f |= pc[1]
            elif pc[0] in ("text", "part", "trimmed"):
                f |= {"?rest"} if pc[1] != "0" else {"?run"} if pc[2] == "run" else {"?run", "?rest"}
            elif pc[0] in ("bytes", "hash", "decoded"):
                f.add("?sum")
        return f

    def step(self, s, l):
        if l.kind == "ev":
            r = self.event(s, l)
            if r is s and l.res.op == "res":
                f = set()
                for x in l.args:
                    f |= self.about(x, s[0])
                if f and dict(s[0]).get(l.res) != ("decoded",):
                    return (self.put(s[0], l.res, ("unknown", frozenset(f))),) + s[1:]
            return r
        return self.other(s, l)

    def event(self, s, l):
        parts, pairs, fed, facts, ch = s
        if l.kind == "ev":
            n = last(l.rec["path"])
            if n == "index" and len(l.args) == 2:
                src = self.piece(l.args[0], parts)
                x = norm(l.args[1])
                if src is None or x.op != "adt":
                    return s
                lo = norm(field(x, "start")) if field(x, "start") is not None else None
                hi = norm(field(x, "end")) if field(x, "end") is not None else None
                new = None
                if src[0] == "text":
                    a_, b_ = self.runend(lo) if lo is not None else "0", self.runend(hi) if hi is not None else "end"
                    if a_ and b_ and src == ("text", "0", "end"):
                        new = ("text", a_, b_)
                elif src == ("bytes", 0, None):
                    new = ("bytes", lo if lo is not None else 0, hi)
                elif src[0] == "hash" and src[2:] == (0, None):
                    if (lo is None or lo.op == "int") and (hi is None or hi.op == "int"):
                        new = ("hash", src[1], lo.a[0] if lo is not None else 0, hi.a[0] if hi is not None else None)
                if new:
                    return (self.put(parts, l.res, new), pairs, fed, facts, ch)
                return s
            if n == "split_at" and len(l.args) == 2 and self.piece(l.args[0], parts) == ("text", "0", "end"):
                k = self.runend(l.args[1])
                if k:
                    q = self.put(parts, mk("fld", l.res, "", "0"), ("text", "0", k))
                    return (self.put(q, mk("fld", l.res, "", "1"), ("text", k, "end")), pairs, fed, facts, ch)
                return s
            if n == "trim_start_matches" and len(l.args) == 2:
                src = self.piece(l.args[0], parts)
                d = decides(self.p, norm(l.args[1])) if src and src[0] == "text" else None
                if d is not None:
                    full = all(d[v] for v in CHARS if chr(v).isspace() and not 28 <= v <= 31)
                    return (self.put(parts, l.res, ("trimmed" if full else "part",) + src[1:]), pairs, fed, facts, ch)
                return s
            if n == "from_base58" and l.args:
                src = self.piece(l.args[0], parts)
                if src is None or src[0] == "unknown":
                    self.und.add("cannot tell what is decoded")
                    return None
                if src[0] != "text" or src[1] != "0" or not self.isrun(src[2], facts):
                    return Bad("which", "something else than the leading letters and digits is decoded", l.span)
                return (self.put(parts, l.res, ("decoded",)), pairs, fed, facts, ch)
            if l.rec.get("trait") == "digest::digest::Digest":
                if n in ("new", "digest"):
                    ty = self.p.types[l.rec["rargs"][0]]["s"] if l.rec.get("rargs") else ""
                    import re

                    m = re.search(r"Blake2bVarCore, (.*?)>*>", ty) and "".join(re.findall(r"bit::B([01])", ty))
                    if "Blake2bVarCore" not in ty or not m or int(m, 2) != 64:
                        return Bad("which", "the checksum is made with another hash: %s" % ty[:80], l.span)
                    fed = ()
                if n in ("update", "digest", "chain_update"):
                    x = norm(l.args[-1])
                    pc = self.piece(x, parts)
                    if x.op == "bytes":
                        pc = ("lit", x.a[0])
                    elif x.op == "arr" and all(y.op == "int" for y in x.a):
                        pc = ("lit", tuple(y.a[0] for y in x.a))
                    fed = fed + (pc,)
                if n in ("finalize", "digest"):
                    return (self.put(parts, l.res, ("hash", fed, 0, None)), pairs, fed, facts, ch)
                return (parts, pairs, fed, facts, ch)
            if n == "from_bytes" and l.args:
                pc = self.piece(l.args[0], parts)
                return (self.put(parts, l.res, ("value", pc)), pairs, fed, facts, ch)
            if n in ("next", "next_back") and l.args:
                src = norm(base(adaptors(l.args[0])[0]))
                if src.op == "call" and last(src.a[0]) in ("chars", "bytes"):
                    src = src.a[1]
                pc = self.piece(src, parts)
                if pc and pc[0] == "text" and pc[1] == "0" and self.isrun(pc[2], facts):
                    alld = ch[2] and (ch[0] is UNIT or all(48 <= v <= 57 for v in ch[1]))
                    return (parts, pairs, fed, facts, (l.res, ALNUM, alld))
            return s

    def other(self, s, l):
        parts, pairs, fed, facts, ch = s
        if l.kind == "panic":
            return None
        if l.kind == "br":
            t = norm(l.term)
            pol = l.out
            while t.op == "un" and t.a[0] == "Not" and pol in (True, False):
                t, pol = t.a[1], not pol
            if t.op == "call" and last(t.a[0]) == "find" and norm(base(t.a[1])) is norm(self.s):
                if not self.isfind(t):
                    w = self.finds.get(t)
                    if w is None:
                        self.und.add("how the text is split is not understood")
                        return None
                    return Bad("which", "the text is cut at the wrong places: character %d" % w, self.a.span)
                return (parts, pairs, fed, facts | {"found" if l.out == "Some" else "all"}, ch)
            if t is ch[0]:
                if l.out == "None":
                    if ch[2]:
                        facts = facts | {"digits", "refuse"}
                    return (parts, pairs, fed, facts, (UNIT, frozenset(), True))
                return s
            if ch[0] is not UNIT and contains(t, ch[0]):
                keep = set()
                x = pr(ch[0], "Some.0")
                try:
                    for v in ch[1]:
                        if allows(l, {x: v, ch[0]: ("Some", v)}):
                            keep.add(v)
                except Unknown:
                    return (parts, pairs, fed, facts | {"?run"}, ch)
                if not keep:
                    return None
                if not keep & set(range(48, 58)):
                    facts = facts | {"no number"}
                return (parts, pairs, fed, facts, (ch[0], frozenset(keep), ch[2]))
            if t.op == "fld" and t.a[1] == "Ok" or t.op == "res":
                d = dict(parts).get(t)
                if d == ("decoded",):
                    return (parts, pairs, fed, facts | ({"refuse"} if l.out == "Err" else set()), ch)
            c = self.eq(t)
            if c and pol in (True, False):
                x, y = self.piece(c[0], parts), self.piece(c[1], parts)
                lit = [z.a[0] for z in c if norm(z).op == "str"]
                for u in (x, y):
                    if u and u[0] == "text" and u[1] == "0" and self.isrun(u[2], facts) and lit:
                        return (parts, pairs, fed, facts | ({"refuse"} if pol and lit[0] in ("true", "false", "") else {"is " + lit[0]} if pol else {"not " + lit[0]}), ch)
                k = self.onebyte(c, parts, pairs)
                if k == "?":
                    return (parts, pairs, fed, facts | {"?sum"}, ch)
                if k is not None:
                    if not pol:
                        return (parts, pairs, fed, facts | {"refuse"}, ch)
                    facts = facts | {"sum%d" % k}
                    if {"sum0", "sum1"} <= facts:
                        facts = facts | {"sum"}
                    return (parts, pairs, fed, facts, ch)
                if x and y and {x[0], y[0]} == {"hash", "bytes"}:
                    h, b = (x, y) if x[0] == "hash" else (y, x)
                    w = self.checksum(h, b, parts, pairs)
                    if w == "?":
                        self.und.add("the comparison of the checksum is not understood")
                        return None
                    if w:
                        return Bad("which", w, self.a.span)
                    return (parts, pairs, fed, facts | ({"sum"} if pol else {"refuse"}), ch)
                if x and x[0] == "hash" or y and y[0] == "hash":
                    return (parts, pairs, fed, facts | {"?sum"}, ch)
            if t.op == "call" and last(t.a[0]) == "starts_with" and pol in (True, False):
                z = norm(t.a[1])
                trimmed = z.op == "call" and last(z.a[0]) in ("trim_start", "trim")
                inner = z.a[1] if trimmed else z
                pc = self.piece(inner, parts)
                if pc and pc[0] in ("part", "trimmed"):
                    trimmed = pc[0] == "trimmed"
                    pc = ("text",) + pc[1:]
                if pc and pc[0] == "text" and self.isrun(pc[1], facts) and pc[2] == "end":
                    d = decides(self.p, norm(t.a[2]))
                    if d is None:
                        return (parts, pairs, fed, facts | {"?rest"}, ch)
                    on = {v for v in CHARS if d[v]}
                    if pol:
                        if trimmed and on <= {40, 123}:
                            return (parts, pairs, fed, facts | {"refuse"}, ch)
                        if on <= {40, 123}:
                            return (parts, pairs, fed, facts | {"refuse"}, ch)
                        return (parts, pairs, fed, facts | {"wrongly:%d" % min(on - {40, 123})}, ch)
                    if trimmed:
                        facts = facts | {"no %d" % v for v in on}
                    return (parts, pairs, fed, facts, ch)
            es = self.envs58(t, parts, pairs)
            if es:
                keep = []
                lt = l if t is l.term else None
                try:
                    for pair, e in es:
                        e2 = dict(e)
                        if self.holds(t, pol if lt is None else l.out, e2):
                            keep.append(pair)
                except Unknown as e:
                    return (parts, pairs, fed, facts | self.about(t, parts), ch)
                return (parts, tuple(keep), fed, facts, ch) if keep else None
            # the text itself: empty?
            for x, y, q in relfacts(l):
                for u, z in ((x, y), (y, x)):
                    if u.op == "len" and z.op == "int" and z.a[0] in (0, 1):
                        pc = self.piece(u.a[0], parts)
                        if pc and pc[0] == "text" and pc[1] == "0" and self.isrun(pc[2], facts):
                            if z.a[0] == 0 and q == "=" or z.a[0] == 1 and q == (("<") if u is x else ">"):
                                return (parts, pairs, fed, facts | {"refuse"}, ch)
                            return s
            facts = facts | self.about(t, parts)
            return (parts, pairs, fed, facts, ch)
        if l.kind == "ret":
            k = retkind(l.val)
            bad = [(f, n) for f, n in pairs if f == END or f > 127 or n < (3 if f < 64 else 4)]
            good = [x for x in pairs if x not in bad]
            m = (l.mem or {}).get(self.s)
            moved = m is not None and m is not self.s
            if k == "None":
                if moved:
                    return Bad("rest", "text is taken although nothing is returned", self.a.span)
                if "refuse" in facts or not good:
                    self.n["which"] += 1
                    return None
                w = [f for f in facts if f.startswith("wrongly:")]
                if w:
                    return Bad("which", "an address followed by %r is refused" % chr(int(w[0][8:])), self.a.span)
                if any(f[0] == "?" for f in facts):
                    self.und.add("cannot tell why text is refused")
                    return None
                if any(f.startswith("is ") for f in facts):
                    return Bad("which", "refuses %s" % [f for f in facts if f.startswith("is ")], self.a.span)
                return Bad("which", "a correct address is refused (first byte %d, %d bytes)" % good[0], self.a.span)
            if k != "Some" or retkind(okval(l.val)) not in ("Ok",):
                if k == "Some" and retkind(okval(l.val)) == "Err":
                    return Bad("which", "an error is returned instead of leaving the text to others", self.a.span)
                self.und.add("cannot tell what is returned")
                return None
            if "sum" not in facts:
                if "?sum" in facts:
                    self.und.add("cannot tell whether the checksum was compared")
                    return None
                return Bad("which", "an address is accepted whose checksum was not compared with the hash", self.a.span)
            if bad and "?sum" in facts:
                self.und.add("cannot tell which lengths are accepted")
                return None
            if bad:
                return Bad("which", "accepts decoded bytes with first byte %d and length %d" % bad[0], self.a.span)
            for want, q, msg in (("no number", "?run", "text made of digits alone is taken for an address"), ("not true", "?run", "true is taken for an address"), ("no 40", "?rest", "text followed by ( is taken for an address"), ("no 123", "?rest", "text followed by { is taken for an address")):
                if want not in facts:
                    if "all" in facts and q == "?rest":
                        continue  # nothing follows
                    if q in facts:
                        self.und.add("cannot tell whether " + msg)
                    else:
                        return Bad("which", msg, self.a.span)
            self.n["which"] += 1
            v = okval(okval(l.val))
            pc = dict(parts).get(v)
            if not pc or pc[0] != "value" or not pc[1]:
                self.und.add("cannot tell what the value is made of")
                return None
            pc = pc[1]
            if pc[0] != "bytes":
                return Bad("payload", "the value is not made of the decoded bytes", self.a.span)
            w = self.range(pc, parts, pairs, lambda f, n: (1 if f < 64 else 2, n - 2))
            if w == "?":
                self.und.add("cannot tell which bytes make up the value")
                return None
            if w:
                return Bad("payload", "the value is made of the bytes %d to %d of %d (first byte %d)" % (w[0], w[1], w[2][1], w[2][0]), self.a.span)
            self.n["payload"] += 1
            if not moved:
                return Bad("rest", "the text is not wound forwards", self.a.span)
            pc = self.piece(m, parts)
            if pc is None and m.op == "call" and "str::trim" in m.a[0]:
                return Bad("rest", "more than the address is taken from the text", self.a.span)
            if pc is None or pc[0] != "text":
                self.und.add("cannot tell where the text is wound forwards to")
                return None
            if not (self.isrun(pc[1], facts) and pc[2] == "end"):
                return Bad("rest", "the text is wound forwards to something else than the end of the address", self.a.span)
            self.n["rest"] += 1
            return None
        return s

    def holds(self, t, out, env):
        class B:
            pass

        b = B()
        b.term, b.out = t, out
        return allows(b, env)

    def isrun(self, x, facts):
        return x == "run" or x == "end" and "all" in facts

    def put(self, parts, t, v):
        d = dict(parts)
        d[t] = v
        return tuple(sorted(d.items(), key=lambda kv: id(kv[0])))

    def eq(self, t):
        if t.op == "call" and last(t.a[0]) == "eq" and len(t.a) == 3:
            return t.a[1], t.a[2]
        if t.op == "bin" and t.a[0] == "Eq":
            return t.a[1], t.a[2]
        return None

    def onebyte(self, c, parts, pairs):
        """which byte of the checksum is compared with the hash; None: none, "?": not understood"""
        h = b = None
        for x in c:
            x = norm(x)
            if x.op == "fld" and x.a[1] == "Some" and x.a[0].op == "call" and last(x.a[0].a[0]) == "get" and len(x.a[0].a) == 3:
                y, i = x.a[0].a[1:]
            elif x.op == "idx":
                y, i = x.a[:2]
            else:
                return None
            pc = self.piece(y, parts)
            if pc and pc[0] == "hash":
                h = (pc, i)
            elif pc and pc[0] == "bytes":
                b = (pc, i)
        if not h or not b:
            return None
        if h[1].op != "int":
            return "?"
        k = h[1].a[0] + h[0][2]
        if k > 1 or self.checksum(h[0][:2] + (0, 2), ("bytes", None, None), parts, ()) or b[0] != ("bytes", 0, None):
            return "?"
        w = self.range(("bytes", b[1], b[1]), parts, [x for x in pairs if x[1] >= 2], lambda f, n: (n - 2 + k,) * 2)
        return "?" if w else k

    def range(self, pc, parts, pairs, want):
        """does the piece cover these bytes? None, "?" or a witness"""
        for f, n in pairs:
            got = []
            for x, dflt in ((pc[1], 0), (pc[2], n)):
                if x.__class__ is int:
                    got.append(x)
                    continue
                if x is None:
                    got.append(dflt)
                    continue
                es = self.envs58(x, parts, [(f, n)])
                try:
                    got.append(ev(x, es[0][1] if es else {}))
                except Unknown:
                    return "?"
            if tuple(got) != want(f, n):
                return (got[0], got[1], (f, n))
        return None

    def checksum(self, h, b, parts, pairs):
        pairs = [(f, n) for f, n in pairs if n >= 2]
        if h[2:] != (0, 2):
            return "%s bytes of the hash are compared" % ("all" if h[3] is None else h[3] - h[2])
        w = self.range(b, parts, pairs, lambda f, n: (n - 2, n))
        if w == "?":
            return "?"
        if w:
            return "the hash is compared with the bytes %d to %d of %d" % (w[0], w[1], w[2][1])
        f = h[1]
        if None in f:
            return "?"
        lits = tuple(c for x in f if x[0] == "lit" for c in x[1])
        if bytes(lits) != b"SS58PRE" or len(f) < 2 or any(x[0] != "lit" for x in f[:-1]):
            return "the hash does not begin with SS58PRE"
        if f[-1][0] != "bytes":
            return "the hash is not made of the decoded bytes"
        w = self.range(f[-1], parts, pairs, lambda f, n: (0, n - 2))
        if w == "?":
            return "?"
        if w:
            return "the hash is made of the bytes %d to %d of %d" % (w[0], w[1], w[2][1])
        return None


@prop("C42")
def c42(rep):
    rep.rule("which", "text is taken for an address exactly if the leading letters and digits are base58, decode to a prefix of one or two bytes, a payload and the first two bytes of the Blake2b hash of SS58PRE and the rest, are not true or a number, and no ( or { follows")
    rep.rule("payload", "the value is made of the bytes between the prefix and the checksum")
    rep.rule("rest", "the text is wound forwards behind the address, and not at all if it is left to others")
    p = prog("all")
    r = fn_root(p, rep, "string_impls::custom_parsers::ss58::parse_ss58")
    if not r:
        return
    a = An(p, r, opaque=lambda c, rec: "::from_bytes" in c)
    rep.saw(a)
    if not a.complete:
        rep.undecided("which", "parse_ss58", a.g.incomplete)
        return
    t = Ss58(p, a)
    bads = a.automaton(t.init(), t.step)
    for b in bads:
        rep.bad(b.key, "parse_ss58", b.msg, b.where, b.path)
    for u in t.und:
        rep.undecided("which", "parse_ss58", u)
    if not bads:
        for k, n in t.n.items():
            if n:
                rep.ok(k, "parse_ss58", n)
            elif not t.und:
                rep.undecided(k, "parse_ss58", "nothing to check was found")
