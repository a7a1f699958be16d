"""Writing values as strings: the text every path writes, token by token, against the
grammar that the parser reads."""
import string
import unicodedata

from rules import *

TW = "string_impls::to_string::ToWriterBuilder::write"
SPECIAL = {10: "n", 9: "t", 34: '"', 39: "'", 13: "r", 92: "\\", 0: "0"}
OUTP = ("write_str", "write_char", "write_fmt", "pad", "pad_integral", "debug_list", "debug_struct", "debug_tuple")

NEUTRAL = ("is_ascii", "is_empty", "len", "is_char_boundary")

S = collections.namedtuple("S", "k c pk bv sty pos R ph vec sm kn idn sw unkn ws pend err cust ne z")
S0 = S(None, None, None, None, None, "start", UNIT, "idle", UNIT, UNIT, UNIT, UNIT, frozenset(), frozenset(), ("",), UNIT, UNIT, "none", frozenset(), frozenset())


# characters that stand for all others: every ASCII one, and others of every class
SAMPLE = tuple(range(128)) + tuple(map(ord, "\x85\xa0\xaa\xb2\xbd\xe9\xc9\xf7\u01c5\u0301\u0345\u0663\u2026\u2028\u203f\u2167\u3000\u4e2d\ufeff\U0001f600"))
ALPHA = frozenset(c for c in SAMPLE if chr(c).isalpha()) | {0x345, 0x2167}
NUMERIC = frozenset(c for c in SAMPLE if unicodedata.category(chr(c)).startswith("N"))
ALNUM = ALPHA | NUMERIC
_ascii = lambda cs: frozenset(ord(c) for c in cs)
CLASS = {
    "is_alphabetic": ALPHA,
    "is_numeric": NUMERIC,
    "is_alphanumeric": ALNUM,
    "is_lowercase": frozenset(c for c in SAMPLE if chr(c).islower()) | {0x345},
    "is_uppercase": frozenset(c for c in SAMPLE if chr(c).isupper()),
    "is_whitespace": frozenset(c for c in SAMPLE if chr(c).isspace() and not 0x1C <= c <= 0x1F),
    "is_control": frozenset(c for c in SAMPLE if unicodedata.category(chr(c)) == "Cc"),
    "is_ascii": frozenset(range(128)),
    "is_ascii_control": frozenset(range(32)) | {127},
    "is_ascii_whitespace": _ascii(" \t\n\r\x0c"),
    "is_ascii_alphabetic": _ascii(string.ascii_letters),
    "is_ascii_lowercase": _ascii(string.ascii_lowercase),
    "is_ascii_uppercase": _ascii(string.ascii_uppercase),
    "is_ascii_digit": _ascii(string.digits),
    "is_ascii_hexdigit": _ascii(string.hexdigits),
    "is_ascii_alphanumeric": _ascii(string.ascii_letters + string.digits),
    "is_ascii_punctuation": _ascii(string.punctuation),
    "is_ascii_graphic": frozenset(range(33, 127)),
}


def may_be(kn):
    """the characters of the sample that agree with all that is known"""
    if kn is UNIT:
        return SAMPLE
    known, excl, flags = kn
    out = [known] if known is not None else [c for c in SAMPLE if c not in excl]
    for f in flags:
        if f.__class__ is not tuple:
            continue
        if f[0] in CLASS:
            out = [c for c in out if (c in CLASS[f[0]]) == f[1] or c not in SAMPLE]
        else:
            out = [c for c in out if ("<" if c < f[1] else ">" if c > f[1] else "=") in f[0]]
    return out


def writers_fields(l, w):
    """fields of a structure handed on that carry the writer"""
    for x in l.args:
        if x.op == "adt":
            fs = [n for n, v in zip(x.a[2], x.a[3:]) if base(v) is w]
            if fs:
                return fs
    return None


def recursion(a, w):
    """functions of the crate that print nested values: {canon: fields they may change}"""
    out = {}
    for l in a.events(lambda l: l.rec.get("inst") is not None and a.p.bodies[l.rec["inst"]] is not None and a.p.bodies[l.rec["inst"]]["local"]):
        fs = writers_fields(l, w)
        if fs or any(base(x) is w for x in l.args):
            out[a.p.bodies[l.rec["inst"]]["canon"]] = fs or []
    return out


class Printer:
    def __init__(self, a, rep, inst, w, rec, V=None, vd=None, comp=None, var=None, prim=None, fixed=None, style=None, cfg=None):
        self.a, self.rep, self.inst, self.w, self.rec = a, rep, inst, w, rec
        self.V = V
        self.vd = pr(V, "value") if V is not None else vd
        d = self.vd
        self.var = var if var is not None else (pr(d, "Variant.0") if d is not None else None)
        self.comps = set()
        if comp is not None:
            self.comps.add(comp)
        if d is not None:
            self.comps.add(pr(d, "Composite.0"))
        if self.var is not None:
            self.comps.add(pr(self.var, "values"))
        self.name = pr(self.var, "name") if self.var is not None else None
        self.prim = prim if prim is not None else (pr(d, "Primitive.0") if d is not None else None)
        self.bits = pr(d, "BitSequence.0") if d is not None else None
        self.fixed = fixed
        self.style = style
        self.cfg = cfg
        self.vecs = {}
        for c in self.comps:
            for v, k in values_of(c).items():
                self.vecs[v] = k
        self.und = set()
        self.indexed = set()
        self.toks = set()

    # ------------------------------------------------------------ tokens
    def tokens(self, l):
        """what an event writes, or None if it writes nothing; "?" if it cannot be told"""
        n = last(l.rec["path"])
        if not l.args:
            return None
        if n in OUTP and (base(l.args[0]) is self.w or self.owns(l.args[0])):
            if n == "write_char":
                x = l.args[1]
                return [("c", chr(x.a[0]))] if x.op == "int" else [("raw", x)]
            if n != "write_str":
                return "?"
            return self.text(l.args[1])
        return None

    def owns(self, t):
        return t.op == "adt" and any(base(v) is self.w for v in t.a[3:])

    def text(self, t):
        t = norm(t)
        if t.op == "str":
            return [("c", ch) for ch in t.a[0]]
        if t.op in ("call", "char_str") and "char_str" in (t.op, t.a[0]):
            x = t.a[1]
            return [("c", chr(x.a[0]))] if x.op == "int" else [("raw", x)]
        if t.op == "fmtarg" or t.op == "call" and t.a[0] == "fmtarg":
            return [("num", t)]
        return [("text", t)]

    def is_rec(self, l):
        i = l.rec.get("inst")
        return i is not None and self.a.p.bodies[i] is not None and self.a.p.bodies[i]["canon"] in self.rec

    def next_of(self, l):
        """the source of which an event takes the next item"""
        if last(l.rec["path"]) == "next" and l.args and ("Iterator" in l.rec["path"] or "Iterator" in l.name):
            return norm(base(l.args[0]))
        if last(l.rec["path"]) == "next_back" and l.args:
            return "back", norm(base(l.args[0]))
        return None

    def chars_of(self, t):
        if t.op == "call" and last(t.a[0]) in ("chars", "char_indices"):
            return norm(t.a[1])
        return None

    def char(self, R):
        return norm(pr(R, "Some.0.1" if R.a[0] in self.indexed else "Some.0"))

    # ------------------------------------------------------------ run
    def run(self, rules):
        a, rep = self.a, self.rep
        rep.saw(a)
        if not self.cfg:
            rules = [q for q in rules if q not in ("custom", "context")]
        if not rules:
            return
        main = rules[0]
        if not a.complete:
            rep.undecided(main, self.inst, a.g.incomplete)
            return
        init = S0._replace(k=self.fixed, cust="none" if self.cfg else "exh")
        bads = a.automaton(tuple(init), self.step, limit=1500000)
        for b in bads:
            r, key = b.key.split(":", 1)
            if r in rules:
                rep.bad(r, self.inst, b.msg, b.where, b.path)
        for u in self.und:
            if u[0] in rules:
                rep.undecided(u[0], self.inst, u[1])
        for r in rules:
            if not any(b.key.startswith(r + ":") for b in bads) and not any(u[0] == r for u in self.und):
                rep.ok(r, self.inst, max(1, len(self.toks)))

    def step(self, s, l):
        r = self.step1(S(*s), l)
        if r.__class__ is S:
            return tuple(r)
        return r

    def unknown(self, rule, why):
        self.und.add((rule, why))
        return None

    def step1(self, s, l):
        if l.kind == "br":
            return self.branch(s, l)
        if l.kind == "ev":
            return self.event(s, l)
        if l.kind == "ret":
            return self.ret(s, l)
        return s

    # ------------------------------------------------------------ branches
    def branch(self, s, l):
        t, out = l.term, l.out
        if s.pend is not UNIT and t is s.pend:
            if out in ("Err", "Break"):
                return s._replace(pend=UNIT, err=t)
            return s._replace(pend=UNIT)
        n = norm(t)
        if self.vd is not None and n is self.vd:
            return s._replace(k=out)
        if n in self.comps and (s.k in ("Composite", "Variant") or self.vd is None):
            return s._replace(c=out)
        if self.prim is not None and n is self.prim:
            return s._replace(pk=out)
        if self.prim is not None and n is pr(self.prim, "Bool.0"):
            return s._replace(bv=bool(out) if out in (True, False) else bool(out.a[0]) if out.__class__ is Term else None)
        if self.style is not None and n is self.style:
            return s._replace(sty=out)
        if n.op == "call" and last(n.a[0]) == "alternate" and self.cfg is None:
            return s._replace(sty="Pretty" if out is True else "Normal")
        if self.cfg and n is self.cfg["ctx"]:
            return s._replace(cust=("ctx", s.cust) if out == "Some" else s.cust)
        if s.cust.__class__ is tuple and s.cust[0] == "asked" and t is s.cust[1]:
            return s._replace(cust="exh" if out == "None" else ("have", s.cust[1]))
        if s.cust.__class__ is tuple and s.cust[0] == "res" and t is s.cust[1]:
            return s._replace(cust="none" if out == "None" else ("some", s.cust[1]))
        if s.cust.__class__ is tuple and s.cust[0] == "some" and t is pr(s.cust[1], "Some.0"):
            return s._replace(err=t if out in ("Err", "Break") else UNIT, cust=("some", s.cust[1], out))
        # items
        if s.R is not UNIT and t is s.R:
            if out == "None" and s.pos == "open" and s.vec in s.ne:
                return None  # known not to be empty, and nothing has been taken out
            return s._replace(ph="end" if out == "None" else "item")
        if s.R is not UNIT and s.vec is self.bits and t is pr(s.R, "Some.0"):
            return s._replace(bv=bool(out) if out in (True, False) else bool(out.a[0]) if out.__class__ is Term else None)
        if s.sm is not UNIT and s.sm[2] is not UNIT and t is s.sm[2]:
            return s._replace(sm=s.sm[:1] + ("end" if out == "None" else "item",) + s.sm[2:])
        if s.sm is UNIT and s.idn is not UNIT and t is s.idn[2]:
            if out == "None" and s.idn[1] == "asked" and not s.idn[3] and s.idn[0] in s.ne:
                return None  # known not to be empty
            if out == "None":
                return s._replace(idn=s.idn[:1] + ("end",) + s.idn[2:])
            return s._replace(idn=s.idn[:1] + ("item",) + s.idn[2:])
        # numbers: lengths, indents, characters
        rel = relfacts(l)
        used = False
        for x, y, r in rel:
            for p, q, rr in ((x, y, r), (y, x, "".join(FLIP[c] for c in r))):
                if p.op == "len" and norm(p.a[0]) in self.vecs and q.op == "int":
                    used = True
                    lo, hi, _ = interval([(p, q, rr)], p)
                    if hi == 0:
                        return s._replace(ph="end", vec=norm(p.a[0]), R=UNIT)
                    if interval([(p, q, rr)], p)[0]:
                        s = s._replace(ne=s.ne | {norm(p.a[0])})
                    if s.c is None:
                        s = s._replace(c=self.vecs[norm(p.a[0])])
                if p.op == "len" and self.cfg and norm(p.a[0]) is self.cfg["custom"] and q.op == "int":
                    used = True
                    if interval([(p, q, rr)], p)[1] == 0 and s.cust == "none":
                        return s._replace(cust="exh")
                if p.op == "len" and q.op == "int" and norm(p.a[0]) in self.names(s) and interval([(p, q, rr)], p)[0]:
                    s = s._replace(ne=s.ne | {norm(p.a[0])})
                c = self.charterm(s)
                if c is not None and norm(p) is c:
                    if q.op == "int":
                        used = True
                        s = s._replace(kn=self.learn(s.kn, q.a[0], rr))
        if s.ws[0] == "nl" and s.ws[1] in (1, 2) and len(rel) == 1 and not used:
            w = self.count(s.ws, rel[0])
            if w:
                if w[1] == 3 and s.ws[1] == 1:
                    s = s._replace(z=s.z | {norm(w[3])})
                return s._replace(ws=w)
        if used:
            return s
        if s.idn is not UNIT and s.idn[4] != "unk" and (t.op == "wid" and out in (True, False) or any(x.op == "res" and x.a[0] == s.idn[2].a[0] and x is not s.idn[2] for x in walk(n))):
            # something is asked about an earlier character only now
            s = s._replace(idn=s.idn[:4] + ("unk",))
        c = self.charterm(s)
        if c is not None and contains(n, c):
            if n.op == "call" and len(n.a) == 2 and n.a[1] is c and out in (True, False):
                f = last(n.a[0])
                if f in CLASS:
                    return s._replace(kn=self.learn(s.kn, (f, out), "="))
            return s._replace(kn=self.learn(s.kn, "unk", "="))
        if n.op == "call" and last(n.a[0]) == "starts_with" and len(n.a) == 3 and n.a[2].op == "str":
            if out is False:
                return s._replace(sw=s.sw | {(n.a[1], n.a[2].a[0])})
            return s
        if n.op == "call" and len(n.a) > 1 and (last(n.a[0]) in NEUTRAL and len(n.a) == 2 or last(n.a[0]) in ("eq", "starts_with", "ends_with", "contains") and len(n.a) == 3 and any(x.op in ("str", "int") for x in n.a[1:])):
            # understood, and says too little about what the name starts with or is made of
            if not (last(n.a[0]) == "eq" and out is True):
                return s
        for nm in self.names(s):
            if contains(n, nm) and not (s.R is not UNIT and n is s.R):
                if n.op == "len" or (n.op == "bin" and "len" in [z.op for z in n.a[1:3] if z.__class__ is Term]):
                    continue
                return s._replace(unkn=s.unkn | {nm})
        return s

    def names(self, s):
        out = []
        if self.name is not None:
            out.append(self.name)
        if s.R is not UNIT:
            out.append(norm(pr(s.R, "Some.0.0")))
        return out

    def charterm(self, s):
        """the character that is being looked at"""
        if s.sm is not UNIT:
            if s.sm[0] is not UNIT and s.sm[2] is not UNIT and s.sm[1] == "item":
                return self.char(s.sm[2])
        elif s.idn is not UNIT and s.idn[1] == "item":
            return self.char(s.idn[2])
        if self.prim is not None and s.pk == "Char":
            return norm(pr(self.prim, "Char.0"))
        return None

    def learn(self, kn, k, rel):
        known, excl, flags = kn if kn is not UNIT else (None, frozenset(), frozenset())
        if k.__class__ is not int:
            return (known, excl, flags | {k})
        if rel == "=":
            return (k, excl, flags)
        if set(rel) == {"<", ">"}:
            return (known, excl | {k}, flags)
        return (known, excl, flags | {("".join(sorted(rel)), k)})

    def count(self, ws, rel):
        """('nl', stage, first, n): stage 1 = before counting, 2 = counting, 3 = counted"""
        x, y, r = rel
        z = INT(0, "usize")
        if x.op == "int" and y.op != "int":
            x, y, r = y, x, "".join(FLIP[c] for c in r)
        if y.op == "int":
            # n against the first value of the counter
            if ws[1] == 1:
                k = y.a[0]
                if ">" not in r:
                    return ("nl", 3, k, x)
                if "<" not in r and "=" not in r or set(r) == {"<", ">"}:
                    return ("nl", 2, k, x)
            return None
        if ws[1] == 2:
            n = ws[3]
            if n is UNIT and (x.op == "wid") != (y.op == "wid"):
                n = y if x.op == "wid" else x
            if n is not UNIT and (y is n or x is n):
                if x is n:
                    r = "".join(FLIP[c] for c in r)
                if "<" not in r:
                    return ("nl", 3, ws[2], n)
                return ws[:3] + (n,)
        return None

    # ------------------------------------------------------------ events
    def event(self, s, l):
        src = self.next_of(l)
        if src is not None:
            back = src.__class__ is tuple
            if back:
                src = src[1]
            if src in self.vecs:
                if back:
                    return Bad("grammar:reversed", "items are printed from the end", l.span)
                if s.ph == "item":
                    return Bad("grammar:dropped", "an item is left out", l.span)
                return s._replace(R=l.res, ph="asked", vec=src, c=s.c or self.vecs[src])
            if self.bits is not None and src.op == "call" and len(src.a) > 1 and src.a[1] is self.bits:
                if s.ph == "item":
                    return Bad("grammar:bit dropped", "a bit is left out", l.span)
                return s._replace(R=l.res, ph="asked", vec=self.bits, bv=None)
            if self.cfg and src is self.cfg["custom"]:
                if back:
                    return Bad("custom:order", "custom formatters are tried from the last one", l.span)
                if s.cust.__class__ is tuple and s.cust[0] == "have":
                    return Bad("custom:skipped", "a custom formatter is not tried", l.span)
                if s.cust.__class__ is tuple and s.cust[0] == "res":
                    return Bad("custom:ignored", "the answer of a custom formatter is not looked at", l.span)
                if s.cust == "none":
                    return s._replace(cust=("asked", l.res))
                return s
            T = self.chars_of(src)
            if T is not None:
                if last(src.a[0]) == "char_indices":
                    self.indexed.add(l.res.a[0])
                return self.nextchar(s, l, T, back)
            for nm in self.names(s):
                if contains(src, nm):
                    return s._replace(unkn=s.unkn | {nm})
            return s
        if last(l.rec["path"]) in ("call", "call_mut", "call_once") and "ops::function" in l.rec["path"]:
            r = self.closure(s, l)
            if r is not None:
                return r[0]
        if self.is_rec(l):
            return self.nested(s, l)
        toks = self.tokens(l)
        if toks is None:
            for x in l.args:
                if base(x) is self.w or self.owns(x):
                    if last(l.rec["path"]) in ("alternate", "deref", "deref_mut", "borrow_mut", "as_mut"):
                        continue
                    return self.unknown("grammar", "the writer is handed to %s" % l.name)
            n = [norm(x) for x in l.args]
            for nm in self.names(s):
                if nm in n:
                    return s._replace(unkn=s.unkn | {nm})
            return s
        return self.wrote(s, l, toks)

    def nextchar(self, s, l, T, back):
        if s.sm is not UNIT and s.sm[0] is not UNIT:
            r = same(T, s.sm[0])
            if r == "bad":
                return Bad("escape:text", "prints the characters of %s inside quotes" % show(T)[:100], l.span)
            if r != "ok":
                return self.unknown("escape", r)
            if back:
                return Bad("escape:reversed", "characters are printed from the end", l.span)
            if s.sm[1] == "item" and s.sm[2] is not UNIT and s.sm[2].a[0] in self.indexed:
                return self.unknown("escape", "characters are printed in runs")
            if s.sm[1] == "item":
                return Bad("escape:dropped", "a character is left out", l.span)
            return s._replace(sm=(s.sm[0], "asked", l.res, 0), kn=UNIT)
        if back:
            return s._replace(unkn=s.unkn | {T})
        if s.idn is UNIT or s.idn[0] is not T:
            return s._replace(idn=(T, "asked", l.res, 0, "ok"), kn=UNIT)
        st = s.idn[4]
        cnt = s.idn[3]
        if s.idn[1] == "end":
            cnt, st = 0, "ok"  # another walk over the same text
        if s.idn[1] == "item":
            st = self.identchar(s, cnt == 0, st)
            cnt = 1
        return s._replace(idn=(T, "asked", l.res, cnt, st), kn=UNIT)

    def identchar(self, s, first, st):
        if all(ch in ALPHA or (not first and (ch in ALNUM or ch == 95)) for ch in may_be(s.kn)):
            return st
        if "unk" in (s.kn[2] if s.kn is not UNIT else ()):
            return "unk" if st != "bad" else st
        return "bad"

    def closure(self, s, l):
        """calls of custom formatters and of the context printer"""
        if not self.cfg or len(l.args) < 2 or l.args[1].op != "tup" or len(l.args[1].a) != 2:
            return None
        x, w = l.args[1].a
        f = norm(l.args[0])
        if base(w) is not self.w and not self.owns(w):
            return None
        cu = s.cust
        if cu.__class__ is tuple and cu[0] == "ctx":
            if contains(f, self.cfg["ctx"]):
                if s.pos != "ctx1":
                    return (Bad("context:bracket", "the context is not printed between '<' and '>'", l.span),)
                if same(x, pr(self.V, "context")) == "bad":
                    return (Bad("context:other", "prints another context: %s" % show(norm(x))[:100], l.span),)
                if s.pend is not UNIT:
                    return (Bad("errors:ignored", "the result of writing is ignored", l.span),)
                return (s._replace(pos="ctx2", pend=l.res),)
        if cu.__class__ is tuple and cu[0] == "have" and f is norm(pr(cu[1], "Some.0")):
            r = same(x, self.V)
            if r == "bad":
                return (Bad("custom:value", "a custom formatter is asked about %s" % show(norm(x))[:100], l.span),)
            if r != "ok":
                return (self.unknown("custom", r),)
            if s.pos != "start":
                return (Bad("custom:late", "custom formatters are asked after something was printed", l.span),)
            if s.pend is not UNIT:
                return (Bad("errors:ignored", "the result of writing is ignored", l.span),)
            return (s._replace(cust=("res", l.res)),)
        if same(x, self.V) == "ok" or contains(f, self.cfg["custom"]):
            return (self.unknown("custom", "a formatter is called in a way that is not understood"),)
        return None

    def nested(self, s, l):
        if s.pend is not UNIT:
            return Bad("errors:ignored", "the result of writing is ignored", l.span)
        if s.err is not UNIT:
            return Bad("errors:goes on", "goes on printing after an error", l.span)
        want = None
        if s.vec in self.vecs and s.R is not UNIT:
            want = pr(s.R, "Some.0.1") if self.vecs[s.vec] == "Named" else pr(s.R, "Some.0")
        if want is None:
            return self.unknown("grammar", "a nested value is printed whose origin is not known: %s" % show(norm(l.args[0]))[:120])
        x = [y for y in l.args if not (base(y) is self.w or self.owns(y))]
        rs = [same(y, want) for y in x]
        if "ok" not in rs:
            if x and any(norm(y) is norm(pr(want, "value")) for y in x):
                if self.cfg:
                    return Bad("custom:nested", "a nested value is printed without asking the custom formatters about it", l.span)
            else:
                if rs and all(r == "bad" for r in rs):
                    return Bad("grammar:other item", "prints %s instead of the item" % show(norm(x[0]))[:160], l.span)
                return self.unknown("grammar", "the nested value cannot be told")
        if s.ph != "item":
            return Bad("grammar:twice", "prints an item again", l.span)
        b = self.settings(s, l)
        if b is not None:
            return b
        named = self.vecs[s.vec] == "Named"
        b = self.white(s, "value", l)
        if b.__class__ is Bad or b is None:
            return b
        s = b
        if s.pos != ("colon" if named else None) and not (not named and s.pos in ("open", "comma")):
            return Bad("grammar:before value", "a nested value is printed right after %s" % self.says(s), l.span)
        self.toks.add(l.span)
        return s._replace(pos="val", ph="used", pend=l.res)

    def settings(self, s, l):
        """nested values are printed with the settings of the outer one, one step deeper"""
        if not self.cfg:
            return None
        have = [norm(v) for y in l.args if self.owns(y) for v in y.a[3:] if base(v) is not self.w]
        if not have:
            self.unknown("context", "the settings of a nested value are not seen")
            return None
        for name, rule, what in (
            ("ctx", "context", "the context printer"),
            ("custom", "custom", "the custom formatters"),
            ("leading", "layout", "the leading indent"),
            ("indent", "layout", "the indentation"),
        ):
            want = self.cfg[name]
            if any(contains(h, want) or contains(want, h) for h in have):
                continue
            if all(vague(h) is None for h in have):
                return Bad("%s:nested settings" % rule, "a nested value is printed without %s of the outer one" % what, l.span)
            self.unknown(rule, "the settings of a nested value are not understood")
        st = [h for h in have if h.op == "adt" and h.a[1] in ("Compact", "Normal", "Pretty")]
        if len(st) == 1 and s.sty.__class__ is not tuple and s.sty:
            st = st[0]
            if st.a[1] != s.sty:
                return Bad("layout:nested style", "a nested value is printed in the %s style inside one in the %s style" % (st.a[1], s.sty), l.span)
            if st.a[1] == "Pretty":
                d = pr(self.style, "Pretty.0")
                exp = mk("bin", "Add", d, INT(1, "usize"), "usize")
                got = st.a[3]
                if got is not exp:
                    if vague(got) is None:
                        return Bad("layout:nested depth", "a nested value is printed at depth %s inside one at depth %s" % (show(got)[:100], show(d)), l.span)
                    self.unknown("layout", "the depth of a nested value is not known")
        else:
            self.unknown("layout", "the style of a nested value is not known")
        return None

    POS = {"start": "the beginning", "open": "the opening bracket", "comma": "a comma", "key": "a key", "colon": "a colon", "val": "a value", "named": "the name", "done": "the end of the value", "v": "a 'v'"}

    def says(self, s):
        return self.POS.get(s.pos, str(s.pos))

    def wrote(self, s, l, toks):
        if s.pend is not UNIT:
            return Bad("errors:ignored", "the result of an earlier write is ignored", l.span)
        if s.err is not UNIT:
            return Bad("errors:goes on", "goes on writing after an error", l.span)
        if s.cust.__class__ is tuple and s.cust[0] == "some":
            return Bad("custom:more", "writes something although a custom formatter has printed the value", l.span)
        if toks == "?":
            return self.unknown("grammar", "%s is used to write" % l.name)
        s = s._replace(pend=l.res if l.res is not None and l.res.op == "res" else UNIT)
        for t in toks:
            s = self.token(s, t, l)
            if s is None or s.__class__ is Bad:
                return s
        self.toks.add(l.span)
        return s

    # ------------------------------------------------------------ the grammar
    def token(self, s, t, l):
        if s.sm is not UNIT:
            return self.instring(s, t, l)
        kind, x = t[0], t[1]
        if self.cfg and s.cust.__class__ is tuple and s.cust[0] == "ctx":
            if s.pos == "start" and t == ("c", "<"):
                return s._replace(pos="ctx1")
            if s.pos == "ctx2" and t == ("c", ">"):
                return s._replace(pos="ctx3")
            if s.pos == "ctx3" and t == ("c", " "):
                return s._replace(pos="start", cust=s.cust[1])
            return Bad("context:shape", "the context is not printed as '<context> '", l.span)
        if s.cust != "exh":
            if s.cust.__class__ is tuple and s.cust[0] not in ("asked", "have", "res"):
                return Bad("custom:first", "prints the value although a custom formatter did", l.span)
            return Bad("custom:first", "prints before all custom formatters were asked", l.span)
        # whitespace
        if kind == "c" and x == "\n":
            if s.ws != ("",):
                return self.badws(s, l, "a line break after whitespace")
            return s._replace(ws=("nl", 0))
        if s.ws[0] == "nl":
            if s.ws[1] == 0 and kind == "text" and (self.cfg is None or x is self.cfg["leading"]):
                return s._replace(ws=("nl", 1))
            if kind == "text" and self.cfg and x is self.cfg["indent"]:
                if s.ws[1] == 2:
                    return s
                if s.ws[1] == 1:
                    return s._replace(ws=("nl", 2, 0, UNIT))
                return self.unknown("layout", "indentation is not counted in a way that is understood")
            if kind == "c" and x == " " and self.cfg is None:
                return s
            if kind == "text" and s.ws[1] < 3 and self.cfg and x.op == "call":
                return self.unknown("layout", "indentation is written in one piece")
        if kind == "c" and x == " ":
            if s.ws == ("",):
                return s._replace(ws=(" ",))
            return self.badws(s, l, "whitespace after whitespace")
        return self.solid(s, kind, x, l)

    def badws(self, s, l, what):
        return Bad("layout:" + what, what, l.span)

    def white(self, s, nxt, l):
        """check the whitespace between the last token and the next one"""
        ws, pos = s.ws, s.pos
        s = s._replace(ws=("",))
        sty = s.sty
        named = s.c == "Named"
        nl = None
        if pos in ("open", "comma") and nxt in ("key", "value"):
            want = {"Compact": "", "Normal": " " if named or pos == "comma" else "", "Pretty": "nl"}
            nl = 1
        elif pos == "val" and nxt == "close":
            want = {"Compact": "", "Normal": " " if named else "", "Pretty": "nl"}
            nl = 0
        elif (pos == "colon" and nxt == "value") or (pos == "named" and nxt == "open"):
            want = {"Compact": "", "Normal": " ", "Pretty": " "}
        else:
            want = {"Compact": "", "Normal": "", "Pretty": ""}
        stys = sty if sty.__class__ is tuple else (sty,) if sty else ("Compact", "Normal", "Pretty")
        res = [want[y] == ws[0] if y in want else None for y in stys]
        if not any(r or r is None for r in res):
            return Bad(
                "layout:%s %s %s" % (stys, pos, nxt),
                "in the %s style %s is printed between %s and the next %s" % ("/".join(stys), {"": "nothing", " ": "a space", "nl": "a line break"}[ws[0]], self.says(s._replace(pos=pos)), nxt),
                l.span,
            )
        if not all(res):
            self.unknown("layout", "the style is not known where %s is printed" % nxt)
            return s
        if ws[0] == "nl" and self.cfg:
            if ws[1] == 0:
                return Bad("layout:leading", "a new line does not start with the leading indent", l.span)
            d = pr(self.style, "Pretty.0")
            exp = d if nl == 0 else mk("bin", "Add", d, INT(1, "usize"), "usize")
            if ws[1] == 1 and exp in s.z:
                return s
            if ws[1] != 3:
                self.unknown("layout", "the indentation cannot be counted")
                return s
            got = norm(ws[3])
            if ws[2]:
                return Bad("layout:depth", "indentation starts counting at %s" % ws[2], l.span)
            if got is not exp:
                v = vague(got)
                if v is None:
                    return Bad("layout:depth", "a line is indented by %s where the depth is %s" % (show(got)[:120], show(exp)), l.span)
                self.unknown("layout", "the depth of indentation cannot be told (%s)" % v)
        return s

    def solid(self, s, kind, x, l):
        k = s.k
        und = lambda why: self.unknown("grammar", why)
        if kind == "text" and base(x).op == "obj":
            return und("a text is printed that was put together before")
        if k is None or k.__class__ is tuple:
            if k is None or not (set(k) <= {"U256", "I256"}):
                return und("prints before looking at what kind of value it is")
        # ---- primitives
        if k == "Primitive":
            if s.pos == "start":
                b = self.white(s, "value", l)
                if b is None or b.__class__ is Bad:
                    return b
                s = b
            pk = s.pk
            if pk in ("U128", "I128"):
                if kind == "num" and s.pos == "start":
                    n = x
                    pay = pr(self.prim, pk + ".0")
                    if n.a[0] not in ("Display", "Debug"):
                        if n.a[0] == "?":
                            return und("the formatting of a number is not known")
                        return Bad("grammar:radix", "prints numbers with %s formatting" % n.a[0], l.span)
                    if n.a[3] is not None:
                        return und("a number is printed with options: %s" % (n.a[3],))
                    r = same(n.a[2], pay)
                    if r == "bad":
                        return Bad("grammar:number", "prints %s for a number" % show(norm(n.a[2]))[:100], l.span)
                    if r != "ok":
                        return und(r)
                    return s._replace(pos="done")
                if kind == "c":
                    return Bad("grammar:number", "prints %r in a number" % x, l.span)
                return und("a number is printed in a way that is not understood")
            if pk == "Bool":
                acc = s.pos[1] if s.pos.__class__ is tuple else ""
                if kind != "c":
                    return und("a bool is printed in a way that is not understood")
                return s._replace(pos=("bool", acc + x))
            if pk == "Char":
                if s.pos == "start" and (kind, x) == ("c", "'"):
                    return s._replace(pos="done", sm=(UNIT, "item", UNIT, 0))
                return Bad("escape:char", "a char does not start with a quote", l.span) if kind == "c" else und("a char is printed in a way that is not understood")
            if pk == "String":
                if s.pos == "start" and (kind, x) == ("c", '"'):
                    return s._replace(pos="done", sm=(pr(self.prim, "String.0"), "idle", UNIT, 0))
                return Bad("escape:string", "a string does not start with a quote", l.span) if kind == "c" else und("a string is printed in a way that is not understood")
            if pk is not None and (pk.__class__ is tuple and set(pk) <= {"U256", "I256"} or pk in ("U256", "I256")):
                return und("256 bit numbers are printed")
            return und("prints before looking at what kind of primitive it is")
        # ---- bits
        if k == "BitSequence":
            if s.pos == "start" and (kind, x) == ("c", "<"):
                return s._replace(pos="bits")
            if s.pos == "bits" and kind == "c" and x in "01":
                if s.ph != "item":
                    return Bad("grammar:bit extra", "prints a bit that is not there", l.span) if s.vec is self.bits else und("bits come from somewhere else")
                if s.bv is None:
                    return und("the bit that is printed is not known")
                if s.bv != (x == "1"):
                    return Bad("grammar:bit value", "prints %s for a bit that is %s" % (x, s.bv), l.span)
                return s._replace(ph="used")
            if s.pos == "bits" and (kind, x) == ("c", ">"):
                if s.ph == "item":
                    return Bad("grammar:bit dropped", "the last bit is left out", l.span)
                if s.ph != "end":
                    return Bad("grammar:bits early", "closes the bit sequence before the end", l.span) if s.vec is self.bits else und("the end of the bits is not seen")
                return s._replace(pos="done")
            if kind == "c":
                return Bad("grammar:bits", "prints %r in a bit sequence after %s" % (x, self.says(s)), l.span)
            return und("bits are printed in a way that is not understood")
        # ---- composites and variants
        if k == "Variant" and s.pos in ("start", "v"):
            if kind == "text" and s.pos == "start":
                r = same(x, self.name)
                if r == "bad":
                    return Bad("grammar:name", "prints %s as the name of the variant" % show(x)[:100], l.span)
                if r != "ok":
                    return und(r)
                return self.bare(s, self.name, True, l, "named")
            if (kind, x) == ("c", "v") and s.pos == "start":
                return s._replace(pos="v")
            if (kind, x) == ("c", '"') and s.pos == "v":
                return s._replace(pos="named", sm=(self.name, "idle", UNIT, 0))
            if kind == "c":
                return Bad("names:prefix", "prints %r at the start of a variant" % x, l.span)
            return und("the name of a variant is printed in a way that is not understood")
        if s.pos == ("named" if k == "Variant" else "start") and kind == "c" and x in "{(":
            if s.c is None or s.c.__class__ is tuple:
                return und("prints a bracket before looking at the kind of composite")
            if s.c != ("Named" if x == "{" else "Unnamed"):
                return Bad("grammar:bracket", "opens %s fields with %s" % (s.c, x), l.span)
            b = self.white(s, "open" if k == "Variant" else "value", l)
            if b is None or b.__class__ is Bad:
                return b
            return b._replace(pos="open")
        if kind == "c" and x in "})" and s.pos in ("open", "val", "comma"):
            if s.c != ("Named" if x == "}" else "Unnamed"):
                return Bad("grammar:bracket", "closes %s fields with %s" % (s.c, x), l.span)
            if s.pos == "comma":
                return Bad("grammar:trailing comma", "prints a comma before the closing bracket", l.span)
            if s.ph == "item":
                return Bad("grammar:dropped", "the last item is left out", l.span)
            if s.ph != "end":
                if s.vec is UNIT:
                    return und("the items are taken in a way that is not understood")
                return Bad("grammar:early", "closes the bracket before all items are printed", l.span)
            b = self.white(s, "close", l)
            if b is None or b.__class__ is Bad:
                return b
            return b._replace(pos="done")
        if (kind, x) == ("c", ","):
            if s.pos != "val":
                return Bad("grammar:comma", "prints a comma after %s" % self.says(s), l.span)
            b = self.white(s, "comma", l)
            if b is None or b.__class__ is Bad:
                return b
            return b._replace(pos="comma")
        if (kind, x) == ("c", ":"):
            if s.pos != "key":
                return Bad("grammar:colon", "prints a colon after %s" % self.says(s), l.span)
            b = self.white(s, "colon", l)
            if b is None or b.__class__ is Bad:
                return b
            return b._replace(pos="colon")
        if s.pos in ("open", "comma", "val", "key", "colon") and (kind == "text" or (kind, x) == ("c", '"')):
            if s.c != "Named":
                return Bad("grammar:key", "prints a key among unnamed fields", l.span) if s.c == "Unnamed" else und("the kind of composite is not known")
            if s.pos not in ("open", "comma"):
                return Bad("grammar:before key", "a key is printed right after %s" % self.says(s), l.span)
            if s.vec not in self.vecs or s.R is UNIT:
                return und("keys come from somewhere else")
            if s.ph != "item":
                return Bad("grammar:key without item", "a key is printed although there is no item", l.span)
            key = norm(pr(s.R, "Some.0.0"))
            b = self.white(s, "key", l)
            if b is None or b.__class__ is Bad:
                return b
            s = b
            if kind == "c":
                return s._replace(pos="key", sm=(key, "idle", UNIT, 0))
            r = same(x, key)
            if r == "bad":
                return Bad("grammar:other key", "prints %s as the key" % show(x)[:120], l.span)
            if r != "ok":
                return und(r)
            return self.bare(s, key, False, l, "key")
        if kind == "c":
            return Bad("grammar:stray", "prints %r after %s" % (x, self.says(s)), l.span)
        return und("prints something that cannot be told: %s" % show(x)[:120])

    def bare(self, s, name, variant, l, pos):
        """a name printed without quotes must be one the parser reads as a name"""
        nxt = s._replace(pos=pos)
        what = "variant name" if variant else "key"
        if name in s.unkn:
            self.unknown("names", "the test of the %s is not understood" % what)
            return nxt
        i = s.idn
        if i is UNIT or i[0] is not name:
            return Bad("names:" + what, "a %s is printed without quotes although nothing was checked about it" % what, l.span)
        st = i[4]
        if i[1] == "item":
            st = self.identchar(s, i[3] == 0, st)
            return Bad("names:" + what, "a %s is printed without quotes although not all of its characters were checked" % what, l.span)
        if i[1] != "end":
            return Bad("names:" + what, "a %s is printed without quotes although not all of its characters were checked" % what, l.span)
        if i[3] == 0:
            return Bad("names:" + what, "an empty %s is printed without quotes" % what, l.span)
        if st == "bad":
            return Bad("names:" + what, "a %s is printed without quotes although it has characters that the parser does not read in a name" % what, l.span)
        if st == "unk":
            self.unknown("names", "the test of the characters of a %s is not understood" % what)
            return nxt
        if variant:
            for b in ("true", "false"):
                # a prefix of the word that is excluded excludes the word
                if not any(n is name and b.startswith(w) for n, w in s.sw):
                    return Bad("names:" + b, "a variant whose name starts with %s is printed without quotes (it would be read back as a bool)" % b, l.span)
        return nxt

    def instring(self, s, t, l):
        T, ph, R, esc = s.sm
        kind, x = t
        q = "'" if T is UNIT else '"'
        known, excl, flags = s.kn if s.kn is not UNIT else (None, frozenset(), frozenset())
        what = "char" if T is UNIT else "string"
        ch = norm(pr(self.prim, "Char.0")) if T is UNIT else self.char(R) if R is not UNIT else None
        if esc:
            if kind == "raw":
                if x is ch and known is None:
                    return self.unknown("escape", "an escaped character is printed as itself")
                return self.unknown("escape", "an escape code is not known")
            if kind != "c":
                return self.unknown("escape", "an escape code is not known")
            if known is None:
                if "unk" in flags:
                    return self.unknown("escape", "the character that is escaped is not known")
                return Bad("escape:code", "prints \\%s for a character that can be any" % x, l.span)
            if SPECIAL.get(known) != x:
                return Bad("escape:code", "prints \\%s for %r" % (x, chr(known)), l.span)
            return s._replace(sm=(T, "used", R, 0))
        if kind == "c" and x == "\\":
            if ph != "item":
                return Bad("escape:stray", "prints a backslash where there is no character", l.span)
            return s._replace(sm=(T, ph, R, 1))
        if kind == "c" and x == q and (ph in ("used", "end") or ph != "item"):
            if T is not UNIT and ph != "end":
                if R is UNIT and ph == "idle":
                    return self.unknown("escape", "the end of the string is not seen")
                return Bad("escape:early", "the string is closed before all characters are printed", l.span)
            return s._replace(sm=UNIT, kn=UNIT)
        if kind == "c":
            if ph == "item" and known == ord(x):
                if known in SPECIAL:
                    return Bad("escape:raw %d" % known, "prints %r without escaping it" % x, l.span)
                return s._replace(sm=(T, "used", R, 0))
            if ph == "item" and known is None and x == q:
                return Bad("escape:dropped", "the %s is closed before its character is printed" % what, l.span)
            return Bad("escape:other", "prints %r inside a %s%s" % (x, what, " for %r" % chr(known) if known is not None else ""), l.span)
        if kind == "raw":
            if ch is None or x is not ch:
                v = vague(x)
                if v is None and not contains(x, ch if ch is not None else UNIT):
                    return Bad("escape:other", "prints %s inside a %s" % (show(x)[:100], what), l.span)
                if v is None:
                    return Bad("escape:changed", "prints %s instead of the character itself" % show(x)[:100], l.span)
                return self.unknown("escape", "the character that is printed is not known")
            if ph != "item":
                return Bad("escape:twice", "prints a character again", l.span)
            if known is not None:
                if known in SPECIAL:
                    return Bad("escape:raw %d" % known, "prints %r without escaping it" % chr(known), l.span)
            else:
                miss = set(SPECIAL) & set(may_be(s.kn))
                if miss:
                    if "unk" in flags:
                        return self.unknown("escape", "which characters are not escaped is not understood")
                    return Bad("escape:raw", "prints %s without escaping" % ", ".join(repr(chr(c)) for c in sorted(miss)), l.span)
            return s._replace(sm=(T, "used", R, 0))
        if kind == "text":
            if T is not UNIT and same(x, T) == "ok":
                if T in s.unkn:
                    return self.unknown("escape", "the text is printed in one piece after a test that is not understood")
                return Bad("escape:unescaped", "prints the text between quotes without escaping it", l.span)
            return self.unknown("escape", "a piece of text is printed inside a string: %s" % show(x)[:100])
        return self.unknown("escape", "prints %s inside a string" % show(x)[:100])

    # ------------------------------------------------------------ the end
    def ret(self, s, l):
        val = l.val
        k = retkind(val)
        cu = s.cust
        if cu.__class__ is tuple and cu[0] == "some":
            res = pr(cu[1], "Some.0")
            if val is res or norm(val) is norm(res):
                return None
            if len(cu) > 2:
                if k == ("Err" if cu[2] in ("Err", "Break") else "Ok"):
                    return None
                return Bad("custom:result", "the result of a custom formatter is not passed on", self.a.span)
            if k is not None:
                return Bad("custom:result", "the result of a custom formatter is not passed on", self.a.span)
            return self.unknown("custom", "cannot tell what is returned")
        if k == "Err":
            if s.err is UNIT and s.pend is UNIT:
                pk = s.pk if s.pk.__class__ is tuple else (s.pk,)
                if not (s.k == "Primitive" and set(pk) <= {"U256", "I256"}):
                    return Bad("errors:made up", "fails although nothing failed", self.a.span)
            return None
        if k == "Ok":
            if s.err is not UNIT:
                return Bad("errors:swallowed", "succeeds although writing failed", self.a.span)
            if s.pend is not UNIT:
                return Bad("errors:ignored", "succeeds without looking at the result of writing", self.a.span)
        elif s.pend is not UNIT and (val is s.pend or norm(val) is norm(s.pend)):
            pass
        else:
            return self.unknown("errors", "cannot tell what is returned: %s" % show(norm(val))[:120])
        if s.sm is not UNIT:
            return Bad("escape:open", "a string is not closed", self.a.span)
        if s.pos.__class__ is tuple and s.pos[0] == "bool":
            if s.bv is None:
                return self.unknown("grammar", "the bool that is printed is not known")
            if s.pos[1] != ("true" if s.bv else "false"):
                return Bad("grammar:bool", "prints %s for %s" % (s.pos[1], s.bv), self.a.span)
            return None
        if s.pos != "done":
            return Bad("grammar:unfinished", "returns after %s" % self.says(s), self.a.span)
        if s.ws != ("",):
            return Bad("layout:trailing", "prints whitespace at the end", self.a.span)
        return None


def values_of(comp):
    return {pr(comp, "Named.0"): "Named", pr(comp, "Unnamed.0"): "Unnamed"}


_cache = {}


def printers(rep, rules):
    """run the printer automaton over every way to print"""
    p = prog("all")
    r = fn_root(p, rep, TW)
    if not r:
        return
    if "w" not in _cache:
        a = An(p, r)
        w = a.arg(2)
        rec = recursion(a, w) if a.complete else {}
        if any(rec.values()):
            a = An(p, r, frame={c: f for c, f in rec.items() if f})
        _cache["w"] = (a, rec)
    a, rec = _cache["w"]
    b = a.arg(0)
    cfg = dict(ctx=pr(b, "print_context"), custom=pr(b, "custom_formatters"), leading=pr(b, "leading_indent"), indent=pr(b, "indent_by"))
    Printer(a, rep, "ToWriterBuilder::write", a.arg(2), rec, V=a.arg(1), style=pr(b, "style"), cfg=cfg).run(rules)
    fixed = {"Composite": "Composite", "Variant": "Variant", "Primitive": "Primitive", "Value": None, "ValueDef": None}
    for ty in ("Value<T>", "ValueDef<T>", "Composite<T>", "Variant<T>", "Primitive"):
        r = impl_root(p, rep, "<value_type::%s as core::fmt::Display>" % ty, "fmt")
        if not r:
            continue
        if ty not in _cache:
            _cache[ty] = An(p, r, opaque=lambda c, rc: c in rec, frame={c: f for c, f in rec.items() if f})
        x = _cache[ty]
        n = ty.split("<")[0]
        s = x.arg(0)
        kw = {"Value": dict(V=s), "ValueDef": dict(vd=s), "Composite": dict(comp=s), "Variant": dict(var=s), "Primitive": dict(prim=s)}[n]
        Printer(x, rep, "Display for " + n, x.arg(1), rec, fixed=fixed[n], **kw).run(rules)
    return a, rec


def restored(rep, rec):
    """printing a nested value leaves the settings as they were"""
    p = prog("all")
    for c, fs in rec.items():
        r = fn_root(p, rep, c.replace("scale_value::", "", 1), False)
        if not r or not fs:
            rep.undecided("layout", c, "how nested values are printed is not understood")
            continue
        a = An(p, r, frame={x: f for x, f in rec.items() if f})
        rep.saw(a)
        if not a.complete:
            rep.undecided("layout", c, a.g.incomplete)
            continue
        n = 0
        for e in a.ends("ret"):
            if retkind(e.val) == "Err":
                continue
            for t, v in e.mem.items():
                if v.op == "upd":
                    for k, y in zip(v.a[1], v.a[2:]):
                        fld = k[-1] if k.__class__ is tuple else k
                        if fld in fs:
                            continue
                        orig = pr(t, fld)
                        n += 1
                        if y is orig:
                            continue
                        if y.op == "adt":
                            f = e.facts.get(orig)
                            if all(z is pr(orig, "%s.%s" % (y.a[1], nm)) for nm, z in zip(y.a[2], y.a[3:])) and (f is None or y.a[1] in str(f)):
                                continue
                        if vague(y) is None:
                            rep.bad("layout", c, "after printing a nested value %s is %s" % (fld, show(norm(y))[:200]), a.span)
                        else:
                            rep.undecided("layout", c, "cannot tell whether %s is restored" % fld)
        rep.ok("layout", c, max(1, n))


@prop("C16")
def c16(rep):
    rep.rule("errors", "the result of every write and of every nested print is looked at; a failure ends the printing with a failure; printing fails only if writing failed or the value holds a 256 bit number")
    printers(rep, ["errors"])


@prop("C17")
def c17(rep):
    rep.rule("grammar", "every path prints one value of the grammar: brackets that match the kind of composite, all items once and in order with their own keys, separated by single commas; all bits; the number, bool, name of the value itself")
    printers(rep, ["grammar"])


@prop("C18")
def c18(rep):
    rep.rule("escape", "inside quotes every character of the text is printed once, in order: the ones with an escape code as backslash and that code, all others as they are")
    printers(rep, ["escape"])


@prop("C19")
def c19(rep):
    rep.rule("names", "a name is printed without quotes only if its first character is alphabetic and all others are alphanumeric or '_' (for variants also: it does not start with true or false); otherwise it is a string (with a 'v' in front for variants)")
    printers(rep, ["names"])


@prop("C23")
def c23(rep):
    rep.rule("layout", "compact: no whitespace; normal: single spaces; pretty: every item on its own line, indented by the leading indent and one more step than its parent; closing brackets at the depth of the parent")
    x = printers(rep, ["layout"])
    if x:
        restored(rep, x[1])


@prop("C24")
def c24(rep):
    rep.rule("custom", "every custom formatter is asked about the value itself, in order, before anything is printed, at every level; the first answer is the result and nothing else is printed")
    rep.rule("context", "with a context printer every value is preceded by '<', its own context and '> '; without one nothing is")
    printers(rep, ["custom", "context"])
