"""Reading values from strings: what every path of the parser consumes, character by
character, against the grammar of values, and what it makes of it."""
from rules import *

STREAM = "yap::tokens::Tokens::"
OTHER = 128  # atoms: every ASCII character, and four classes of others
ALPHA, NUMERIC, SPACE, REST = OTHER, OTHER + 1, OTHER + 2, OTHER + 3
EOF = 1 << (OTHER + 4)
CHARS = (1 << (OTHER + 4)) - 1
ALL = CHARS | EOF
REPR = [chr(i) for i in range(128)] + ["\u00e9", "\u00bd", "\u2003", "\u20ac"]


def m(chars):
    r = 0
    for c in chars:
        r |= 1 << ord(c)
    return r


def mask(pred):
    r = 0
    for i, c in enumerate(REPR):
        if pred(c):
            r |= 1 << i
    return r


DIGIT = m("0123456789")
WS = mask(lambda c: c in " \t\n\r\x0b\x0c\u2003")
AL = mask(lambda c: c.isascii() and c.isalpha() or c == "\u00e9")
ALNUM = AL | DIGIT | 1 << NUMERIC
ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", '"': '"', "'": "'", "\\": "\\"}
PREDS = {
    "is_alphabetic": AL,
    "is_alphanumeric": ALNUM,
    "is_numeric": DIGIT | 1 << NUMERIC,
    "is_whitespace": WS,
    "is_ascii": (1 << OTHER) - 1,
    "is_ascii_digit": DIGIT,
    "is_ascii_alphabetic": AL & ((1 << OTHER) - 1),
    "is_ascii_alphanumeric": ALNUM & ((1 << OTHER) - 1),
    "is_ascii_hexdigit": m("0123456789abcdefABCDEF"),
    "is_ascii_whitespace": m(" \t\n\r\x0c"),
    "is_ascii_punctuation": mask(lambda c: c in "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"),
    "is_ascii_uppercase": m("ABCDEFGHIJKLMNOPQRSTUVWXYZ"),
    "is_ascii_lowercase": m("abcdefghijklmnopqrstuvwxyz"),
    "is_control": mask(lambda c: ord(c) < 32 or ord(c) == 127),
    "is_ascii_control": mask(lambda c: ord(c) < 32 or ord(c) == 127),
    "is_ascii_graphic": mask(lambda c: 32 < ord(c) < 127),
}
# predicates that say different things about characters of one class
SPLIT = {"is_control": 1 << REST | 1 << SPACE}


# ---------------------------------------------------------------- the grammar
# items: what has been read so far; a set of them, since 'true' may also start a name
def step_item(it, a):
    """[(item, content)] after the character class a; content: None, "self" or a character"""
    k = it[0]
    c = REPR[a] if a < OTHER else None
    b = 1 << a
    if k == "S":
        out = []
        if c is not None:
            for w in ("true", "false"):
                if w[0] == c:
                    out.append((("B", w, 1), None))
            if c == "v":
                out.append((("V",), None))
            if c == "'":
                out.append((("C0",), None))
            if c == '"':
                out.append((("Q", "value"), None))
            if c in "+-":
                out.append((("N", c), None))
            if c.isdigit():
                out.append((("ND", "+"), "self"))
            if c == "<":
                out.append((("X",), None))
            if c == "{":
                out.append((("NO",), None))
            if c == "(":
                out.append((("UO",), None))
        if b & AL:
            out.append((("I",), "self"))
        return out
    if k == "B":
        w, i = it[1:]
        if i < len(w) and c == w[i]:
            return [(("B", w, i + 1), None)]
        return []
    if k == "V":
        return [(("Q", "variant"), None)] if c == '"' else []
    if k == "C0":
        return [(("CE",), None)] if c == "\\" else [(("C1",), "char")]
    if k == "CE":
        return [(("C1",), ESC[c])] if c in ESC else []
    if k == "C1":
        return [(("CD",), None)] if c == "'" else []
    if k == "Q":
        if c == "\\":
            return [(("QE", it[1]), None)]
        if c == '"':
            return [({"value": ("QD",), "variant": ("W",), "field": ("FW",)}[it[1]], "end")]
        return [(it, "self")]
    if k == "QE":
        return [(("Q", it[1]), ESC[c])] if c in ESC else []
    if k == "N":
        return [(("ND", it[1]), "self")] if b & DIGIT else []
    if k == "ND":
        if b & DIGIT:
            return [(it, "self")]
        return [(it, None)] if c == "_" else []
    if k == "X":
        if c in ("0", "1"):
            return [(it, c == "1")]
        return [(("XD",), "endbits")] if c == ">" else []
    if k == "I" or k == "FI":
        if b & ALNUM or c == "_":
            return [(it, "self")]
        if k == "I":
            return [(x, "end") for x, _ in step_item(("W",), a)]
        return [(x, "end") for x, _ in step_item(("FW",), a)]
    if k == "W":
        if b & WS:
            return [(it, None)]
        return [(("NO",), None)] if c == "{" else [(("UO",), None)] if c == "(" else []
    if k in ("NO", "NC"):
        if b & WS:
            return [(it, None)]
        if c == "}" and k == "NO":
            return [(("D", "}"), None)]
        if c == '"':
            return [(("Q", "field"), None)]
        return [(("FI",), "self")] if b & AL else []
    if k == "FW":
        if b & WS:
            return [(it, None)]
        return [(("FV",), None)] if c == ":" else []
    if k == "FV":
        return [(it, None)] if b & WS else []
    if k == "NE":
        if b & WS:
            return [(it, None)]
        return [(("D", "}"), None)] if c == "}" else [(("NC",), None)] if c == "," else []
    if k in ("UO", "UC"):
        if b & WS:
            return [(it, None)]
        return [(("D", ")"), None)] if c == ")" and k == "UO" else []
    if k == "UE":
        if b & WS:
            return [(it, None)]
        return [(("D", ")"), None)] if c == ")" else [(("UC",), None)] if c == "," else []
    return []


def accepts(it):
    k = it[0]
    return k in ("CD", "QD", "ND", "XD", "D") or k == "B" and it[2] == len(it[1])


VALUE = {"FV": "NE", "UO": "UE", "UC": "UE"}
LEXSTART = {"I", "FI", "Q", "ND", "X"}
TEXTY = {"C0", "CE", "C1", "Q", "QE", "V", "I", "FI"}
_moves = {}


def moves(q):
    """[(mask, new set of items, contents)] grouped"""
    r = _moves.get(q)
    if r is None:
        g = {}
        for a in range(OTHER + 4):
            out = [x for it in q for x in step_item(it, a)]
            ns = frozenset(x for x, _ in out)
            cs = frozenset((x[0], c) for x, c in out if c is not None)
            g.setdefault((ns, cs), 0)
            g[ns, cs] |= 1 << a
        r = _moves[q] = [(mk_, ns, cs) for (ns, cs), mk_ in g.items()]
    return r


def stays(q):
    r = 0
    for mk_, ns, _ in moves(q):
        if ns == q:
            r |= mk_
    return r


def alive(q):
    r = 0
    for mk_, ns, _ in moves(q):
        if ns:
            r |= mk_
    return r


# lex: what has been made of the piece of text being read
Lex = collections.namedtuple("Lex", "o due any lost sign")
NOLEX = Lex(UNIT, UNIT, False, False, UNIT)
# pos: everything that depends on the place in the text
Pos = collections.namedtuple("Pos", "q acc lex name key text ch item vec fore via")
P0 = Pos(frozenset([("S",)]), False, NOLEX, UNIT, UNIT, UNIT, UNIT, UNIT, NOLEX, (), frozenset())
# the whole state
M = collections.namedtuple("M", "p cur last proof objs snaps rp cust rec num und fail")
CONSUMED = {0: 1, 1: "+", "+": "+", "*": "+", "A": "A"}
# a place that has been remembered: its term, how far behind it is, what held there, the places
# that were remembered before it, and the text between it and here (closed: or only its beginning)
Snap = collections.namedtuple("Snap", "t d P dd fw closed")
FAR = 8


# what is known of the text ahead: (mask, "1" | "+" | "*"), ...; after them anything
def options(fore):
    """[(what the next character is, what is known after it)]"""
    if not fore:
        return [(ALL, ())]
    (k, n), rest = fore[0], fore[1:]
    if n == "1":
        return [(k, rest)]
    if n == "+":
        return [(k, ((k, "*"),) + rest)]
    return [(k, fore)] + options(rest)


def look(fore):
    r = 0
    for k, _ in options(fore):
        r |= k
    return r


ATEND = ((EOF, "1"),)


def tidy(fore):
    out = []
    for x in fore:
        x = x[:2]
        if x[1] == "*" and out and out[-1][1] == "*":
            a, b = out[-1][0], x[0]
            if a | b in (a, b):
                out[-1] = (a | b, "*")
                continue
        out.append(x)
        if x == (CHARS, "*"):
            break
    return tuple(out[:FAR])


NUMTYPES = {a + b for a in "iu" for b in ("8", "16", "32", "64", "128", "size")}
NOTSKIPPED = "what a custom parser has read is not skipped"


class Parser:
    winds = False

    def __init__(self, a, rep, inst, t, customs, callee, top=False):
        self.a, self.rep, self.inst, self.t, self.customs, self.callee, self.top = a, rep, inst, t, customs, callee, top
        self.und = set()
        self.derived = set()
        self.rets = set()
        self.liveness()

    def kind(self, l):
        """which step of the token stream an event is"""
        if not l.args or base(l.args[0]) is not self.t:
            if last(l.rec["path"]) == "offset" and l.args and "TokenLocation" in l.rec["path"]:
                return "offset"
            return None
        p = l.rec["path"]
        if p.startswith(STREAM) or "StrTokens" in l.name:
            return last(p)
        return None

    # ------------------------------------------------------------ liveness of places
    def liveness(self):
        g = self.a.g
        bit = {}
        sites = {}

        def bits(t):
            r = 0
            for x in t.atoms:
                if x.op == "obj" or x.op == "res" and last(x.a[2]) in ("location", "offset", "remaining", "next"):
                    if x not in bit:
                        for gen in (0, 1):
                            y = mk(x.op, x.a[0], gen, *x.a[2:])
                            bit[y] = 1 << len(bit)
                        a, b = sites.get(x.a[0], (0, 0))
                        sites[x.a[0]] = (a | bit[mk(x.op, x.a[0], 0, *x.a[2:])], b | bit[mk(x.op, x.a[0], 1, *x.a[2:])])
                    r |= bit[x]
            return r

        edges = []
        for n in g.nodes:
            for l, mm in n.succ or ():
                use = loc = 0
                if l.kind == "ev":
                    k = self.kind(l)
                    for x in l.args:
                        use |= bits(x)
                    if k in ("set_location", "is_at_location"):
                        loc = bits(l.args[1])
                    if l.res is not None:
                        bits(l.res)
                elif l.kind == "br":
                    use = bits(l.term)
                elif l.kind == "ret":
                    use = bits(l.val)
                edges.append((n.id, mm, use, loc, l.site if l.kind == "ev" and l.res is not None and any(x.op in ("res", "obj") and x.a[0] == l.site for x in l.res.atoms) else None))
        pred = collections.defaultdict(list)
        for e in edges:
            pred[e[1]].append(e)
        out = []
        for w in (2, 3):
            live = [0] * len(g.nodes)
            work = collections.deque(range(len(g.nodes)))
            inq = [True] * len(g.nodes)
            while work:
                n = work.popleft()
                inq[n] = False
                for e in pred[n]:
                    v = live[n]
                    s = sites.get(e[4]) if e[4] is not None else None
                    if s:
                        g1 = v & s[1]
                        v &= ~(s[0] | s[1])
                        if g1:
                            v |= s[0] | s[1]
                    v |= e[w]
                    x = e[0]
                    if v | live[x] != live[x]:
                        live[x] |= v
                        if not inq[x]:
                            inq[x] = True
                            work.append(x)
            out.append(live)
        self.live, self.loclive = out
        self.bit = bit

    # ------------------------------------------------------------ run
    def run(self, rules):
        a, rep = self.a, self.rep
        rep.saw(a)
        if not a.complete:
            rep.undecided("*", self.inst, a.g.incomplete)
            return
        init = M(P0, UNIT, UNIT, None, frozenset(), (), UNIT, "none" if self.customs is not None else "exh", UNIT, UNIT, frozenset(), frozenset())
        bads = a.automaton(tuple(tuple(x) if x.__class__ is Pos else x for x in init), self.step, limit=700000, node=True)
        for r in rules if getattr(a, "limited", None) else ():
            self.und.add((r, a.limited))
        if self.winds:
            # some of it is skipped, by steps that are not followed
            if [b for b in bads if b.msg == NOTSKIPPED]:
                self.und.add(("custom", "cannot tell whether what a custom parser has read is skipped"))
            bads = [b for b in bads if b.msg != NOTSKIPPED]
        for b in bads:
            r, key = b.key.split(":", 1)
            if r in rules:
                rep.bad(r, self.inst, b.msg, b.where, b.path)
        for u in sorted(self.und):
            if u[0] in rules:
                rep.undecided(u[0], self.inst, u[1])
        for r in rules:
            if not any(b.key.startswith(r + ":") for b in bads) and not any(u[0] == r for u in self.und):
                rep.ok(r, self.inst, max(1, len(self.rets)))

    def unknown(self, rule, why):
        for r in rule.split():
            self.und.add((r, why))
        return None

    def bad(self, rules, msg, l):
        out = []
        for r in rules.split():
            out.append(Bad(r + ":" + msg, msg, getattr(l, "span", None) or self.a.span))
        return out

    def step(self, s, l, node):
        s = M(*s)
        p = Pos(*s.p)
        s = s._replace(p=p._replace(lex=Lex(*p.lex), vec=Lex(*p.vec)))
        if l.kind == "br":
            r = self.branch(s, l)
        elif l.kind == "ev":
            r = self.event(s, l)
        elif l.kind == "ret":
            r = self.ret(s, l)
        else:
            r = s
        if r is None:
            return None
        out = []
        for x in r if r.__class__ is list else [r]:
            if x.__class__ is M:
                x = self.prune(x, node)
                x = tuple(x._replace(p=tuple(x.p._replace(lex=tuple(x.p.lex), vec=tuple(x.p.vec)))))
            if x is not None:
                out.append(x)
        return out

    def prune(self, s, node):
        lv, ll = self.live[node], self.loclive[node]
        sn = []
        for e in s.snaps:
            b = self.bit.get(e[0], 0)
            if lv & b:
                sn.append(e if ll & b else Snap(e.t, e.d, UNIT, e.dd, (), True))
        gone = lambda t: not any(lv & self.bit.get(y, 0) for y in t.atoms)
        if s.last is not UNIT and len(s.last) == 4 and s.last[2] == "was" and not gone(s.last[3]):
            # read again after it was looked at: what was looked at stands for it
            d = s.p.lex.due
            if d is not UNIT and d is pr(s.last[0], "Some.0") and gone(d):
                s = s._replace(p=s.p._replace(lex=s.p.lex._replace(due=s.last[3])))
        elif s.last is not UNIT and gone(s.last[0]) and not (len(s.last) == 4 and s.last[2] == "put"):
            s = s._replace(last=UNIT)
        s = s._replace(objs=frozenset(y for y in s.objs if lv & self.bit.get(y[0], 0)), p=self.forget(s.p, s.proof, gone))
        sn = [e if e.P is UNIT else e._replace(P=self.forget(e.P, s.proof, gone)) for e in sn]
        if s.proof:
            s = s._replace(fail=frozenset())
            # nothing more can be accepted: less needs to be known
            s = s._replace(p=s.p._replace(fore=s.p.fore[:1]))
            sn = [e._replace(fw=e.fw[:1], closed=e.closed or len(e.fw) > 1, dd=tuple((t, d, fw[:1], c or len(fw) > 1) for t, d, fw, c in e.dd)) for e in sn]
        loc = {e[0]: e.P is not UNIT for e in sn}
        sn = tuple(e._replace(dd=tuple(x if loc[x[0]] else (x[0], x[1], (), True) for x in e.dd if x[0] in loc)) for e in sn)
        sn = tuple(sorted(sn, key=lambda e: e[0].id))
        return s._replace(snaps=sn)

    def forget(self, P, proof, gone):
        """without what can make no difference any more"""
        raw = P.__class__ is tuple
        p = Pos(*P)
        if proof:
            p = p._replace(lex=NOLEX, name=UNIT, key=UNIT, text=UNIT, ch=UNIT, item=UNIT, vec=NOLEX)
        else:
            x = Lex(*p.lex)
            if x.due is not UNIT and x.due.op != "int" and gone(x.due):
                p = p._replace(lex=x._replace(due=UNIT, lost=x.lost or True))
            for f in ("name", "key", "text"):
                x = getattr(p, f)
                if x is not UNIT:
                    x = Lex(*x)
                    if x.due is not UNIT and x.lost is not False:
                        p = p._replace(**{f: tuple(x._replace(due=UNIT))})
        if raw:
            return tuple(p._replace(lex=tuple(p.lex), vec=tuple(p.vec)))
        return p

    # ------------------------------------------------------------ the tape
    def feed(self, s):
        """the states after the pending character has been read"""
        if s.cur is UNIT:
            return [s]
        R, mk_, rest = s.cur
        s = s._replace(cur=UNIT)
        out = []
        end = False
        for mk_, rest in options(s.p.fore) if mk_ is None else [(mk_, rest)]:
            if mk_ & EOF and not end and not (s.rp is not UNIT and s.rp[0] == "at"):
                end = True
                out.append(self.atend(s._replace(last=(R, EOF))))
            mk_ &= CHARS
            if not mk_:
                continue
            if s.rp is not UNIT:
                out.append(self.advance(s, mk_, None, None, rest))
                continue
            for g, ns, cs in moves(s.p.q):
                g &= mk_
                if g:
                    out.append(self.shift(s, R, g, ns, cs, rest))
        return out

    def advance(self, s, g, frm, to, rest):
        """one character, one of g, has been passed"""
        sn = []
        for e in s.snaps:
            if e.d != "A" and not e.closed:
                fw = e.fw
                i = max([-1] + [i for i, x in enumerate(fw) if x[2] == to])
                if to is None:
                    e = e._replace(closed=True)
                elif i == len(fw) - 1 >= 0 and fw[i][1] == "*":
                    pass
                elif i >= 0:
                    # round a loop
                    fw = fw[: i + (fw[i][1] != "*")] + ((CHARS, "*", to),)
                elif len(fw) < FAR:
                    if to != frm or not fw:
                        fw = fw + ((g, "1", to),)
                    if stays(to):
                        fw = fw + ((stays(to), "*", to),)
                else:
                    e = e._replace(closed=True)
                    fw = tuple((x[0], x[1], None) for x in fw)
                e = e._replace(fw=fw)
            sn.append(e._replace(d=CONSUMED[e.d]))
        return s._replace(snaps=tuple(sn), p=s.p._replace(fore=rest))

    def atend(self, s):
        s = s._replace(p=s.p._replace(fore=ATEND))
        if s.rp is UNIT:
            s = self.dead(s)
        return s

    def dead(self, s):
        q = s.p.q
        s = s._replace(fail=s.fail | {x[0] for x in q} if q else s.fail)
        if q and not s.p.acc and not any(accepts(x) for x in q) and not any(x[0] in VALUE for x in q):
            return s._replace(proof=True)
        return s

    def shift(self, s, R, g, ns, cs, ahead):
        p = s.p
        was = None
        if not ns:
            via = p.via if not p.q else frozenset(x[0] for x in p.q)
            s = self.dead(s)
            s = s._replace(p=p._replace(q=ns, via=via))
        else:
            lex, name, key, text, ch = p.lex, p.name, p.key, p.text, p.ch
            acc = p.acc or any(accepts(x) and x[0] != "ND" for x in p.q)
            old = {x[0] for x in p.q}
            new = {x[0] for x in ns}
            term = pr(R, "Some.0")
            conts = [c for k, c in cs if c not in ("end", "endbits")]
            ends = [(k, c) for k, c in cs if c in ("end", "endbits")]
            if ends:
                done = lex
                if lex.due is not UNIT:
                    done = lex._replace(lost=True)
                for k, c in ends:
                    if k in ("FW", "FV"):
                        key = tuple(done)
                    elif k in ("W", "NO", "UO"):
                        name = tuple(done)
                    else:
                        text = tuple(done)
                lex = NOLEX
            if (new & LEXSTART) - old - {"QE", "CE"} and not (old & {"QE"}):
                if not (new & {"ND"} and old & {"N"}):
                    lex = NOLEX
            for c in conts:
                x = term
                if c == "char":
                    ch = term
                    continue
                if c.__class__ is bool:
                    x = BOOL(c)
                elif c != "self":
                    x = INT(ord(c), "char")
                    if "C1" in new:
                        ch = x
                        continue
                if lex.due is not UNIT:
                    lex = lex._replace(lost=True)
                lex = lex._replace(due=x, any=True)
            if s.last is not UNIT and len(s.last) == 4 and s.last[2] == "put" and lex.due is term:
                # it was put in when it was looked at
                o = s.last[3]
                lex = lex._replace(o=o, due=UNIT)
                s = s._replace(objs=frozenset(y for y in s.objs if y[0] is not o) | {(o, "text", False)})
            elif s.last is not UNIT and len(s.last) == 3 and lex.due is term:
                was = pr(s.last[0], "Some.0")
            s = s._replace(p=p._replace(q=ns, acc=acc, lex=lex, name=name, key=key, text=text, ch=ch, via=frozenset()))
        return self.advance(s, g, p.q, ns, ahead)._replace(last=(R, g) if was is None else (R, g, "was", was))

    def refine(self, s, t, keep):
        """the character t is one of keep"""
        if s.cur is not UNIT and s.cur[1] is not None and t is pr(s.cur[0], "Some.0"):
            k = s.cur[1] & keep
            return s._replace(cur=(s.cur[0], k, s.cur[2])) if k else None
        if s.last is not UNIT and t is pr(s.last[0], "Some.0"):
            k = s.last[1] & keep
            if len(s.last) > 2 and s.last[2] != "was" and s.p.fore and s.p.fore[0][1] == "1":
                # it is still ahead
                f = s.p.fore[0][0] & keep
                if not f:
                    return None
                s = s._replace(p=s.p._replace(fore=((f, "1"),) + s.p.fore[1:]))
            return s._replace(last=(s.last[0], k) + s.last[2:]) if k else None
        return s

    def where(self, s, t):
        for e in s.snaps:
            if e[0] is t:
                return e[1]
        return None

    # ------------------------------------------------------------ branches
    def branch(self, s, l):
        r = self.branch1(s, l)
        if r is s and s.num != ("?", UNIT) and not self.followed(s, l):
            # decided by something that is not followed
            return s._replace(num=("?", UNIT))
        return r

    def followed(self, s, l):
        """a branch that tells nothing about the text, both sides of which can be taken"""
        t = norm(l.term)
        if t.op == "ovf" or s.cust.__class__ is tuple and s.cust[0] in ("won", "lost", "some"):
            return True
        if t.op == "res":
            return last(t.a[2]) == "is_at_location"
        while t.op == "un" and t.a[0] == "Not":
            t = t.a[1]
        rs = relfacts(l)
        if not rs:
            return t.op in ("int", "arg")
        for x, y, r in rs:
            if self.custside(x) or self.custside(y):
                continue
            a, b = self.linear(s, x, True), self.linear(s, y, True)
            if a is None or b is None:
                return False
            if not (a.keys() | b.keys()) - {""} or set(a) <= {""} and abs(a.get("", 0)) < 8 and b or set(b) <= {""} and abs(b.get("", 0)) < 8 and a:
                if x.op != "len" and y.op != "len":
                    return False
        return True

    def custside(self, x):
        return self.customs is not None and x.op == "len" and norm(base(x.a[0])) is norm(self.customs)

    def branch1(self, s, l):
        t, out = l.term, l.out
        n = norm(t)
        if s.cur is not UNIT and s.cur[1] is None and t is s.cur[0]:
            if out == "Some":
                return [s._replace(cur=(t, k & CHARS, rest)) for k, rest in options(s.p.fore) if k & CHARS]
            if out == "None":
                if not look(s.p.fore) & EOF or s.rp is not UNIT and s.rp[0] == "at":
                    return None
                return self.atend(s._replace(cur=UNIT, last=(t, EOF)))
        if s.cur is UNIT and s.last is not UNIT and t is s.last[0] and out in ("Some", "None"):
            # looked at again, after it has been read or put back
            return s._replace() if (out == "None") == (s.last[1] == EOF) else None
        if s.rec is not UNIT and t is s.rec:
            return self.recursed(s, l)
        c = s.cust
        if c.__class__ is tuple:
            if c[0] == "asked" and t is c[1]:
                return s._replace(cust="exh" if out == "None" else ("have", t))
            if c[0] == "res" and t is c[1]:
                return s._replace(cust="none" if out == "None" else ("some", t) + c[2:])
            if c[0] == "some" and t is pr(c[1], "Some.0"):
                return s._replace(cust=("won" if out == "Ok" else "lost", c[1], 0) + c[2:])
        if s.rp is not UNIT and s.rp[0] == "at" and t is s.rp[5]:
            return self.atloc(s, out)
        if s.rp is UNIT and n.op == "res" and last(n.a[2]) == "is_at_location":
            for x in s.und:
                if x[0] is t:
                    d = self.where(s, x[1])
                    if d == 0 and out is False or d in (1, "+") and out is True:
                        return None
            return s
        # numbers read from the text
        if n.op == "call" and last(n.a[0]) in ("parse", "from_str", "from_str_radix") and len(n.a) > 1 and base(n.a[1]).op == "obj":
            return s._replace(num=(base(n.a[1]), out))
        # the digits of a character
        if n.op == "call" and last(n.a[0]) == "to_digit" and len(n.a) == 3 and n.a[2].op == "int" and out in ("Some", "None"):
            k = mask(lambda c: c.isascii() and c.isalnum() and int(c, 36) < n.a[2].a[0])
            return self.refine(s, n.a[1], k if out == "Some" else ALL & ~k)
        pol = True
        while n.op == "un" and n.a[0] == "Not":
            n, pol = n.a[1], not pol
        if n.op == "call" and len(n.a) == 2 and last(n.a[0]) in PREDS and out in (True, False):
            f = last(n.a[0])
            k, sp = PREDS[f], SPLIT.get(f, 0)
            return self.refine(s, n.a[1], k | sp if bool(out) == pol else CHARS & ~k | sp)
        if n.op == "call" and last(n.a[0]) == "contains" and len(n.a) == 3 and out in (True, False) and n.a[1].op in ("arr", "str"):
            k = self.members(n.a[1])
            if k is not None:
                return self.refine(s, n.a[2], k if bool(out) == pol else CHARS & ~k)
        for x, y, r in relfacts(l):
            if s.cust == "none" and r == "=" and y.op == "int" and y.a[0] == 0 and x.op == "len" and norm(base(x.a[0])) is norm(self.customs):
                s = s._replace(cust="exh")
            for p, q, rr in ((x, y, r), (y, x, "".join(FLIP[c] for c in r))):
                if p.op == "len" and base(p.a[0]).op == "obj" and q.op == "int" and q.a[0].__class__ is int:
                    w = self.length(s, base(p.a[0]))
                    v = q.a[0]
                    if w == 0 and ("<" if 0 < v else "=" if v == 0 else ">") not in rr:
                        return None
                    if w == 1 and not (">" in rr or "=" in rr and v >= 1 or "<" in rr and v > 1):
                        return None
                    if w is None:
                        s = s._replace(num=("?", UNIT))
                if q.op == "int" and q.a[0].__class__ is int:
                    k = 0
                    v = q.a[0]
                    for i in range(OTHER):
                        if ("=" if i == v else "<" if i < v else ">") in rr:
                            k |= 1 << i
                    if v < 128:
                        if ">" in rr:
                            k |= CHARS & ~((1 << OTHER) - 1)
                    else:
                        k |= CHARS & ~((1 << OTHER) - 1)
                    s2 = self.refine(s, norm(p), k)
                    if s2 is None:
                        return None
                    s = s2
                d = self.places(s, p, q)
                if d is not None:
                    if not set(d) & set(rr):
                        return None
                if s.cust.__class__ is tuple and s.cust[0] == "won" and p is x:
                    w = self.wound(s, p, q, rr)
                    if w is not None:
                        s = s._replace(cust=s.cust[:2] + (w,) + s.cust[3:])
        return s

    def length(self, s, o):
        """0: empty, 1: at least one"""
        st = [y for y in s.objs if y[0] is o]
        for x in (s.p.lex, s.p.vec):
            if x.o is o and x.any and not (st and st[0][1] not in ("text", "items", "copy")):
                return 1
        return None if st else 0

    def opaque(self, t, o):
        """the term depends on characters of the text, not only on how many there are"""
        if t.__class__ is not Term or t.op == "len" and (base(t.a[0]) is o or norm(t.a[0]).op in ("res", "mut")):
            return False
        if t is o and o is not UNIT:
            return True
        if t.op == "res":
            return t.a[0] in self.derived
        return any(self.opaque(x, o) for x in t.a)

    def members(self, t):
        k = 0
        for x in t.a if t.op == "arr" else [INT(ord(c), "char") for c in t.a[0]]:
            if x.op != "int" or x.a[0] > 127:
                return None
            k |= 1 << x.a[0]
        return k

    def places(self, s, x, y):
        """how two offsets compare, if that is known"""
        if not (x.op == "res" and y.op == "res" and last(x.a[2]) == "offset" and last(y.a[2]) == "offset"):
            return None
        if x is y:
            return "="
        ex = [e for e in s.snaps if e[0] is x]
        ey = [e for e in s.snaps if e[0] is y]
        if not ex or not ey:
            return None
        dx, dy = ex[0][1], ey[0][1]
        if dx == dy and dx in (0, 1):
            return "="
        rank = {0: 0, 1: 1}
        if dx in rank and dy in rank:
            return "<" if dx > dy else ">"
        if dx == "+" and dy == 0:
            return "<"
        if dy == "+" and dx == 0:
            return ">"
        return None

    def linear(self, s, t, free=False):
        """a place in the text as {symbol: factor}: o = offset now, 0 = offset where custom parsers
        were asked, N = length of the text, c = what the custom parser left"""
        if t.op not in ("int", "bin", "call", "res", "len"):
            t = norm(t)
        if t.op == "int":
            return {"": t.a[0]} if t.a[0] else {}
        if t.op == "bin" and t.a[0] in ("Add", "Sub"):
            a, b, g = t.a[1], t.a[2], 1 if t.a[0] == "Add" else -1
        elif t.op == "call" and last(t.a[0]) in ("saturating_sub", "wrapping_sub", "saturating_add", "wrapping_add"):
            a, b, g = t.a[1], t.a[2], 1 if t.a[0].endswith("add") else -1
        elif t.op == "res" and last(t.a[2]) == "offset":
            d = self.where(s, t)
            if self.custplace(s, t):
                return {"0": 1}
            if free:
                return {str(t.id): 1}
            return {"o": 1} if d == 0 else None
        elif t.op == "len":
            x = t.a[0]
            if free and base(x).op == "obj":
                return {str(t.id): 1}
            if x.op == "mut" or x.op == "upd":
                return {"c": 1}
            if x.op == "res" and last(x.a[2]) == "remaining":
                if self.custplace(s, x):
                    return {"N": 1, "0": -1}
                return {"N": 1, "o": -1} if self.where(s, x) == 0 else None
            return None
        else:
            return None
        a, b = self.linear(s, a, free), self.linear(s, b, free)
        if a is None or b is None:
            return None
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + g * v
        return {k: v for k, v in r.items() if v}

    def custplace(self, s, t):
        """taken where the custom parsers were asked"""
        return s.cust.__class__ is tuple and len(s.cust) > 3 and t in s.cust[3]

    def wound(self, s, x, y, rel):
        x, y = self.linear(s, x), self.linear(s, y)
        if x is None or y is None:
            # a counter compared with the number of bytes that have been read
            return "bytes" if {"N": 1, "0": -1, "c": -1} in (x, y) else None
        d = dict(x)
        for k, v in y.items():
            d[k] = d.get(k, 0) - v
        d = {k: v for k, v in d.items() if v}
        if d == {"o": 1, "N": -1, "c": 1}:
            pass
        elif d == {"o": -1, "N": 1, "c": -1}:
            rel = "".join(FLIP[c] for c in rel)
        else:
            return None
        return {"<": "no", "<>": "no", "=": "yes", ">": "far", "<=": "le", "=>": "yes", ">=": "yes"}.get("".join(sorted(rel, key="<=>".index)))

    # ------------------------------------------------------------ events
    def event(self, s, l):
        k = self.kind(l)
        if l.res is not None and (k is None and (s.rec is UNIT or l.res is not s.rec) and any(self.opaque(norm(x), s.p.lex.o) for x in l.args) or k in ("next", "remaining")):
            for x in l.res.atoms:
                if x.op == "res" and x.a[0] == l.site:
                    self.derived.add(l.site)
        if k == "location" or k == "offset" or k == "remaining":
            if k == "offset" and base(l.args[0]) is not self.t:
                for e in s.snaps:
                    if e[0] is l.args[0]:
                        rest = tuple(x for x in s.snaps if x[0] is not l.res)
                        # a name for the same place
                        return s._replace(snaps=rest + (Snap(l.res, e.d, UNIT, e.dd + ((e.t, 0, (), True),), (), True),))
                return s
            out = []
            for x in self.feed(s):
                dd = tuple((e.t, e.d, e.fw, e.closed) for e in x.snaps)
                P = UNIT
                if k == "location" and x.rp is UNIT:
                    P = tuple(x.p._replace(lex=tuple(x.p.lex), vec=tuple(x.p.vec), fore=()))
                rest = tuple(e for e in x.snaps if e[0] is not l.res)
                out.append(x._replace(snaps=rest + (Snap(l.res, 0, P, dd, (), False),)))
            return out
        if k == "next":
            out = []
            for x in self.feed(s):
                out += self.take(x, l)
            return out
        if k == "set_location":
            out = []
            for x in self.feed(s):
                out += self.rewind(x, l)
            return out
        if k == "is_at_location":
            out = []
            for x in self.feed(s):
                if x.rp is not UNIT and x.rp[0] == "at":
                    x = x._replace(rp=x.rp[:5] + (l.res, l.args[1]))
                else:
                    x = x._replace(und=frozenset([y for y in x.und if y[0] is not l.res] + [(l.res, l.args[1])]))
                out.append(x)
            return out
        if k is not None:
            if k in ("clone", "deref", "as_ref"):
                return s
            return self.unknown("accept reject text number", "the text is read in a way that is not followed: %s" % l.name)
        n = last(l.rec["path"])
        c = l.rec.get("inst")
        if c is not None and self.a.p.bodies[c] is not None and self.a.p.bodies[c]["canon"] == self.callee:
            out = []
            for x in self.feed(s):
                out += self.recurse(x, l)
            return out
        if any(base(x) is self.t for x in l.args):
            return self.unknown("accept reject text number", "the text is handed to %s" % l.name)
        r = self.custom(s, l, n)
        if r is not None:
            return r
        if n in ("push", "push_to", "push_back") and len(l.args) == 2:
            o, x = (l.args[1], l.args[0]) if n == "push_to" else (l.args[0], l.args[1])
            out = []
            for y in self.feed(s):
                out.append(self.push(y, l, base(o), x))
            return out
        if l.args and base(l.args[0]).op == "obj" and n in ("push_str", "extend_from_slice", "insert", "pop", "truncate", "clear", "remove", "extend", "append", "insert_str", "retain", "drain", "write_str", "reverse", "dedup", "swap", "sort"):
            o = base(l.args[0])
            was = [x for x in s.objs if x[0] is o]
            sure = n not in ("retain", "drain", "dedup", "extend", "append") and (not was or was[0][1] in ("text", "copy", "items"))
            return s._replace(objs=frozenset(x for x in s.objs if x[0] is not o) | {(o, "changed by " + n, sure)})
        return s

    def take(self, s, l):
        if s.cust.__class__ is tuple and s.cust[0] == "won":
            # winding forward over what the custom parser has read
            w = s.cust[2]
            if w in ("le", "yes", "far"):
                return self.bad("custom", "more is skipped than the custom parser has read", l)
            if w == "bytes":
                return self.bad("custom", "the characters to skip are counted in bytes", l)
            self.winds = True
            return [s._replace(cust=s.cust[:2] + ("no" if w == "no" else "?",) + s.cust[3:])]
        if s.cust != "exh":
            if s.cust.__class__ is tuple and s.cust[0] == "lost":
                return self.bad("custom", "goes on reading after a custom parser has failed", l)
            return self.bad("custom", "reads the text before all custom parsers have been asked", l)
        if s.rp is not UNIT:
            a = s.rp
            if a[0] == "at":
                if a[3] is not UNIT:
                    a = a[:4] + (True,) + a[5:]
                a = a[:3] + (pr(l.res, "Some.0"),) + a[4:]
                return [s._replace(rp=a, cur=(l.res, None, None))]
        return [s._replace(cur=(l.res, None, None))]

    def rewind(self, s, l):
        L = l.args[1]
        e = [x for x in s.snaps if x[0] is L]
        if not e:
            self.unknown("accept reject text number", "goes back to a place that is not known")
            return []
        e = e[0]
        if e[2] is UNIT:
            if e[1] == 0:
                return [s]
            self.unknown("accept reject text number", "goes back to a place about which nothing is known")
            return []
        P = Pos(*e[2])
        P = P._replace(lex=Lex(*P.lex), vec=Lex(*P.vec))
        if s.rp is not UNIT and s.rp[0] == "done" and L in s.rp[1]:
            P = P._replace(lex=s.rp[2])
        P = P._replace(fore=tidy(e.fw if e.closed or e.d == "A" else e.fw + s.p.fore))
        known = {x[0]: x for x in e.dd}
        sn = []
        for x in s.snaps:
            if x.t is L:
                x = x._replace(d=0, fw=(), closed=False)
            elif x.t in known:
                _, d, fw, cl = known[x.t]
                x = x._replace(d=d, fw=fw, closed=cl)
            elif any(y[0] is L and y[1] == 0 for y in x.dd):
                x = x._replace(d=0, fw=(), closed=False)
            elif x.d != "A":
                x = x._replace(d="A", fw=() if x.P is UNIT else tidy(x.fw if x.closed else x.fw + s.p.fore), closed=True)
            sn.append(x)
        s = s._replace(snaps=tuple(sn), p=P, rp=UNIT, cur=UNIT)
        if s.last is not UNIT:
            # one character was looked at, and is ahead again
            s = s._replace(last=s.last[:2] + ("ahead",) if e.d == (0 if s.last[1] == EOF else 1) and (len(s.last) == 2 or s.last[2] == "was") else UNIT)
        # a place ahead that is still used: the text up to there is read a second time
        ahead = [x[0] for x in sn if x[1] == "A" and x[2] is not UNIT]
        if ahead:
            s = s._replace(rp=("at", frozenset(ahead), UNIT, UNIT, False, UNIT, UNIT))
        return [s]

    def atloc(self, s, out):
        a = s.rp
        if out is True:
            if a[6] in a[1]:
                lost = a[4] or a[3] is not UNIT
                e = [x for x in s.snaps if x[0] is a[6]]
                if a[2:5] == (UNIT, UNIT, False) and e and any(x[1] == "1" for x in e[0].fw):
                    return None  # it is further on
                lex = NOLEX
                if e:
                    P = Pos(*e[0][2])
                    pl = Lex(*P.lex)
                    start = not s.p.lex.any and {x[0] for x in s.p.q} & {"S", "NO", "NC", "Q"}
                    if start and {x[0] for x in P.q} & {"I", "FI", "Q"}:
                        lex = Lex(a[2], UNIT, pl.any, lost, UNIT)
                    else:
                        lex = pl._replace(lost="?")
                at = frozenset(x.t for x in s.snaps if x.t is a[6] or any(y[0] is a[6] and y[1] == 0 for y in x.dd) or e and any(y[0] is x.t and y[1] == 0 for y in e[0].dd))
                return s._replace(rp=("done", at | {a[6]}, lex))
            return s
        return s

    def recurse(self, s, l):
        if s.cust != "exh":
            return self.bad("custom", "reads a nested value before all custom parsers have been asked", l)
        if base(l.args[0]) is not self.t or len(l.args) > 2 or len(l.args) == 2 and not (self.customs is not None and norm(l.args[1]) is norm(self.customs)):
            if len(l.args) == 2 and base(l.args[0]) is self.t and vague(l.args[1]) is None:
                return self.bad("custom", "nested values are read with other custom parsers", l)
            self.unknown("accept reject text number custom", "a nested value is read in a way that is not followed")
            return []
        if self.customs is not None and len(l.args) < 2:
            self.unknown("custom", "nested values are read with custom parsers that are not known")
        if s.rp is not UNIT:
            self.unknown("accept reject text number", "a nested value is read a second time")
            return []
        return [s._replace(rec=l.res)]

    def recursed(self, s, l):
        p = s.p
        s = s._replace(rec=UNIT)
        q = frozenset((VALUE[x[0]],) for x in p.q if x[0] in VALUE)
        if l.out == "Ok":
            out = []
            item = UNIT
            lost = False
            if p.item is not UNIT:
                lost = True
            keys = [p.key] if any(x[0] == "FV" for x in p.q) else [UNIT]
            item = (pr(l.term, "Ok.0"), keys[0])
            vec = p.vec._replace(any=True)
            if lost:
                vec = vec._replace(lost=True)
            snaps = tuple(e._replace(d="*" if e.d == 0 else CONSUMED[e.d], closed=True) for e in s.snaps)
            via = p.via if not p.q else frozenset(x[0] for x in p.q)
            return s._replace(p=p._replace(q=q, item=item, key=UNIT, vec=vec, fore=ATEND if p.fore == ATEND else (), via=frozenset() if q else via), snaps=snaps, last=UNIT)
        if l.out == "Err":
            s = s._replace(fail=s.fail | {x[0] for x in p.q})
            dead = q and not p.acc and not alive(p.q) & look(p.fore)
            snaps = tuple(e._replace(d="*" if e.d == 0 else CONSUMED[e.d], closed=True) for e in s.snaps)
            num = s.num if s.num == ("?", UNIT) else ("nested", pr(l.term, "Err.0"))
            return s._replace(proof=True if dead else s.proof, snaps=snaps, p=p._replace(fore=()), num=num)
        return s

    def push(self, s, l, o, x):
        if o.op != "obj":
            return s
        x = norm(x)
        st = [y for y in s.objs if y[0] is o]
        p = s.p
        if s.rp is not UNIT and s.rp[0] == "at":
            a = s.rp
            if x is norm(a[3]) and a[3] is not UNIT and (o is a[2] or a[2] is UNIT and not st):
                return s._replace(rp=a[:2] + (o, UNIT) + a[4:], objs=s.objs | {(o, "copy", False)})
            return s._replace(objs=frozenset(y for y in s.objs if y[0] is not o) | {(o, "something else is put in", vague(x) is None)})
        stale = lambda q: tuple(e._replace(P=self.stale(e.P, o)) for e in s.snaps)
        if s.last is not UNIT and len(s.last) > 2:
            y = s.last
            if y[2] == "ahead" and x is norm(pr(y[0], "Some.0")) and (p.lex.o is o or p.lex.o is UNIT and not st) and (not st or st[0][1] in ("text", "copy")):
                return s._replace(last=y[:2] + ("put", o), objs=frozenset(z for z in s.objs if z[0] is not o) | {(o, "a character that is still ahead is put in", False)}, snaps=stale(0))
            if y[2] == "was" and x is norm(y[3]) and p.lex.due is pr(y[0], "Some.0"):
                x = norm(p.lex.due)
        if p.lex.due is not UNIT and x is norm(p.lex.due) and (p.lex.o is o or p.lex.o is UNIT and not st):
            return s._replace(p=p._replace(lex=p.lex._replace(o=o, due=UNIT)), objs=s.objs | {(o, "text", False)}, snaps=stale(0))
        if x.op == "int" and x.a[0] in (43, 45) and not st and p.lex == NOLEX and any(y[0] in ("N", "S") for y in p.q):
            return s._replace(p=p._replace(lex=p.lex._replace(o=o, sign=x)), objs=s.objs | {(o, "text", False)}, snaps=stale(0))
        if p.item is not UNIT:
            r = self.isitem(s, p.item, x)
            if r is True and (p.vec.o is o or p.vec.o is UNIT and not st):
                return s._replace(p=p._replace(vec=p.vec._replace(o=o), item=UNIT), objs=s.objs | {(o, "items", False)}, snaps=stale(0))
            if r.__class__ is str:
                return s._replace(objs=frozenset(y for y in s.objs if y[0] is not o) | {(o, r, True)}, p=p._replace(item=UNIT))
        sure = vague(x) is None or any(y is not UNIT and x is norm(pr(y[0], "Some.0")) and len(y) != 4 and "ahead" not in y for y in (s.last, s.cur))
        return s._replace(objs=frozenset(y for y in s.objs if y[0] is not o) | {(o, "something else is put in: %s" % show(x)[:60], sure)})

    def stale(self, P, o):
        if P is UNIT:
            return P
        P = Pos(*P)
        for f in ("lex", "vec"):
            x = Lex(*getattr(P, f))
            if x.o is o and not x.lost:
                P = P._replace(**{f: tuple(x._replace(lost="?"))})
        return tuple(P)

    def isitem(self, s, item, x):
        v, key = item
        if key is UNIT:
            return True if norm(x) is norm(v) else False
        if x.op == "tup" and len(x.a) == 2 and norm(x.a[1]) is norm(v):
            r = self.istext(s, key, x.a[0])
            if r is None:
                return True
            return r
        return False

    def istext(self, s, lex, o):
        """None if the object holds what lex stands for, else why not (a tuple if that is not certain)"""
        lex = Lex(*lex)
        o = base(norm(o))
        if lex.lost == "?":
            return ("cannot tell which text is kept",)
        if lex.o is not UNIT and o is lex.o:
            if [y for y in s.objs if y[0] is o and y[1] not in ("text", "copy")]:
                y = [y for y in s.objs if y[0] is o and y[1] not in ("text", "copy")][0]
                return y[1] if y[2] else (y[1],)
            return "a character is left out" if lex.lost else None
        if not lex.any and (o.op == "str" and o.a[0] == "" or o.op == "obj" and not [y for y in s.objs if y[0] is o]):
            return None
        y = [y for y in s.objs if y[0] is o]
        if y and y[0][2]:
            return y[0][1]
        if o.op == "str":
            return "the text is %r" % o.a[0]
        if o.op == "obj" and (lex.lost or not y) and lex.any:
            if lex.lost is True and y and y[0][1] == "text":
                return "a character is left out"
            if not y:
                return "nothing of the text is kept"
        return ("cannot tell which text is kept",)

    # ------------------------------------------------------------ custom parsers
    def custom(self, s, l, n):
        if self.customs is None:
            return None
        if n == "next" and "Iterator" in l.rec["path"] and l.args and norm(base(l.args[0])) is norm(self.customs):
            c = s.cust
            if c.__class__ is tuple and c[0] == "have":
                return self.bad("custom", "a custom parser is not asked", l)
            if c.__class__ is tuple and c[0] == "res":
                return self.bad("custom", "the answer of a custom parser is not looked at", l)
            if c.__class__ is tuple and c[0] in ("some", "won", "lost"):
                return self.bad("custom", "another custom parser is asked although one has answered", l)
            if c == "none":
                return s._replace(cust=("asked", l.res))
            return s
        if n == "next_back" and l.args and norm(base(l.args[0])) is norm(self.customs):
            return self.bad("custom", "custom parsers are asked from the last one", l)
        if s.cust.__class__ is tuple and s.cust[0] == "have" and n in ("call", "call_mut", "call_once") and l.args and norm(l.args[0]) is pr(s.cust[1], "Some.0"):
            x = norm(l.args[1])
            x = base(x.a[0]) if x.op == "tup" and len(x.a) == 1 else base(x)
            if x.op == "ref":
                x = base(x.a[0])
            if s.p != P0 or s.cur is not UNIT:
                return self.bad("custom", "custom parsers are asked after some of the text has been read", l)
            while x.op == "mut":
                x = base(norm(x.a[0]))  # an earlier one may have read some of it
            if x.op == "res" and last(x.a[2]) == "remaining" and self.where(s, x) == 0:
                pass
            elif vague(x) is None:
                return self.bad("custom", "custom parsers are not given the text: %s" % show(x)[:100], l)
            else:
                self.unknown("custom", "cannot tell what custom parsers are given: %s" % show(x)[:80])
            return s._replace(cust=("res", l.res, tuple(e[0] for e in s.snaps if e[1] == 0)))
        return None

    # ------------------------------------------------------------ returns
    def ret(self, s, l):
        out = []
        for x in self.feed(s):
            x = x._replace(p=x.p._replace(lex=Lex(*x.p.lex), vec=Lex(*x.p.vec)))
            r = self.ret1(x, l)
            if r:
                out += r
        return out

    def ret1(self, s, l):
        val = l.val
        out = []
        if self.top:
            if val.op != "tup" or len(val.a) != 2:
                return self.unknown("position", "cannot tell what is returned")
            rem = norm(val.a[1])
            d = self.where(s, rem)
            if d == 0:
                pass
            elif d is None and vague(rem) is not None and not (rem.op == "res" and last(rem.a[2]) == "remaining"):
                self.unknown("position", "cannot tell whether the rest of the text is returned: %s" % show(rem)[:80])
            else:
                out += self.bad("position", "what is returned as the rest of the text is not what has not been read", l)
            val = val.a[0]
        k = retkind(val)
        self.rets.add(val)
        cust = s.cust
        if k is None and val.op == "res":
            return out
        if k not in ("Ok", "Err"):
            self.unknown("accept reject", "cannot tell what is returned: %s" % show(norm(val))[:100])
            return out
        x = val.a[3]
        if cust.__class__ is tuple and cust[0] in ("won", "lost"):
            return out + self.customret(s, l, k, x)
        if cust != "exh":
            return out + self.bad("custom", "returns before all custom parsers have been asked", l)
        if k == "Ok":
            r = self.okret(s, l, x)
            if r and s.num == ("?", UNIT):
                for r in {b.key.split(":")[0] for b in r}:
                    self.unknown(r, "the text is looked at in a way that is not followed")
                r = []
            return out + r
        return out + self.errret(s, l, x)

    def customret(self, s, l, k, x):
        c = s.cust
        if c[0] == "won":
            if k != "Ok":
                return self.bad("custom", "the value of a custom parser is not returned", l)
            r = same(x, pr(c[1], "Some.0.Ok.0"))
            if r == "bad":
                return self.bad("custom", "something else than the value of the custom parser is returned: %s" % show(norm(x))[:100], l)
            if r != "ok":
                self.unknown("custom", r)
            if c[2] in (0, "bytes", "far"):
                return self.bad("custom", NOTSKIPPED, l)
            if c[2] != "yes":
                self.unknown("custom", "cannot tell whether what a custom parser has read is skipped")
            return []
        if k != "Err":
            return self.bad("custom", "the error of a custom parser is not returned", l)
        e = pr(c[1], "Some.0.Err.0")
        r = self.customerr(s, x, e)
        if r is None:
            return []
        if r.__class__ is tuple:
            self.unknown("custom", r[0])
            return []
        return self.bad("custom", r, l)

    def customerr(self, s, x, e):
        if not (x.op == "adt" and "start_loc" in x.a[2]):
            if same(x, e) == "ok":
                return "the places in the error of a custom parser are not adjusted"
            return ("cannot tell which error is returned",)
        f = dict(zip(x.a[2], x.a[3:]))
        st, en = norm(f["start_loc"]), norm(f["end_loc"])
        if same(f["err"], pr(e, "err")) not in ("ok",):
            return "the error of a custom parser is replaced" if same(f["err"], pr(e, "err")) == "bad" else ("cannot tell which error is returned",)
        if not self.moved(s, st, pr(e, "start_loc")):
            if st is norm(pr(e, "start_loc")):
                return "the start of a custom parser's error is not adjusted"
            if vague(st) and st.op != "bin":
                return ("cannot tell where the error starts",)
            return "the start of a custom parser's error is %s" % show(st)[:80]
        if en.op == "adt" and en.a[1] == "None":
            return None
        if en.op == "adt" and en.a[1] == "Some":
            if not self.moved(s, en.a[3], pr(e, "end_loc.Some.0")):
                return "the end of a custom parser's error is %s" % show(norm(en))[:80]
            return None
        if en is norm(pr(e, "end_loc")):
            return "the end of a custom parser's error is not adjusted"
        return ("cannot tell where the error ends",)

    def moved(self, s, t, x):
        t = norm(t)
        parts = None
        if t.op == "bin" and t.a[0] == "Add":
            parts = [norm(t.a[1]), norm(t.a[2])]
        elif t.op == "call" and last(t.a[0]) in ("saturating_add", "wrapping_add"):
            parts = [norm(t.a[1]), norm(t.a[2])]
        if not parts:
            return False
        x = norm(x)
        if x not in parts:
            return False
        parts.remove(x)
        o = parts[0]
        return o.op == "res" and last(o.a[2]) == "offset" and self.custplace(s, o)

    def okret(self, s, l, x):
        p = s.p
        if not p.q:
            cat = "accept"
            if p.via & TEXTY:
                cat += " text"
            if p.via & {"N", "ND"}:
                cat += " number"
            return self.bad(cat, "accepts text that is not a value (%s)" % (self.describe(p.via)), l)
        acc = [i for i in p.q if accepts(i)]
        if acc and s.proof:
            return []  # cannot happen
        if not acc:
            cat = "accept"
            if {i[0] for i in p.q} & TEXTY:
                cat += " text"
            if {i[0] for i in p.q} & {"N"}:
                cat += " number"
            return self.bad(cat, "accepts text that breaks off (%s)" % self.describe({i[0] for i in p.q}), l)
        v = x
        if not (v.op == "adt" and "value" in v.a[2]):
            if vague(v) is None:
                return self.bad("accept", "returns %s" % show(norm(v))[:100], l)
            return self.unknown("accept text number", "cannot tell which value is returned: %s" % show(norm(v))[:100]) or []
        v = dict(zip(v.a[2], v.a[3:]))["value"]
        i = acc[0]
        if v.op != "adt":
            return self.unknown("accept text number", "cannot tell which value is returned: %s" % show(norm(v))[:100]) or []
        kind, pay = v.a[1], v.a[3]
        want = {"B": "Primitive", "CD": "Primitive", "QD": "Primitive", "ND": "Primitive", "XD": "BitSequence", "D": None}[i[0]]
        if i[0] == "D":
            want = "Variant" if p.name is not UNIT else "Composite"
        if kind != want:
            return self.bad("accept", "reads a %s but returns a %s" % (self.what(i), kind), l)
        if i[0] == "XD":
            return self.judge("accept", "the bits", self.istext(s, p.text, pay) if p.text is not UNIT else self.bits(s, p, pay), l)
        if kind == "Primitive":
            if pay.op != "adt":
                return self.unknown("accept text number", "cannot tell which value is returned") or []
            pk, pv = pay.a[1], norm(pay.a[3])
            want = {"B": ("Bool",), "CD": ("Char",), "QD": ("String",), "ND": ("U128",) if i[-1] == "+" else ("I128",)}[i[0]]
            if pk not in want:
                return self.bad("number" if i[0] == "ND" else "accept", "reads a %s but returns a %s" % (self.what(i), pk), l)
            if i[0] == "B":
                if pv.op != "int":
                    return self.unknown("accept", "cannot tell which bool is returned") or []
                return [] if bool(pv.a[0]) == (i[1] == "true") else self.bad("accept", "reads %s as %s" % (i[1], bool(pv.a[0])), l)
            if i[0] == "CD":
                r = "ok" if norm(p.ch) is pv else same(pv, p.ch)
                if r == "ok":
                    return []
                if r != "bad":
                    return self.unknown("text", "cannot tell which character is returned") or []
                return self.bad("text", "a character is read as %s" % show(pv)[:60], l)
            if i[0] == "QD":
                return self.judge("text", "the string", self.istext(s, p.text, pv), l)
            return self.number(s, l, i, pv)
        if kind == "Variant":
            f = dict(zip(pay.a[2], pay.a[3:])) if pay.op == "adt" else {}
            if "name" not in f:
                return self.unknown("accept text", "cannot tell which variant is returned") or []
            r = self.judge("text", "the name of the variant", self.istext(s, p.name, f["name"]), l)
            return (r or []) + self.comp(s, l, i, f["values"])
        return self.comp(s, l, i, pay)

    def bits(self, s, p, pay):
        return self.istext(s, p.lex, pay)

    def judge(self, rule, what, r, l):
        if r is None:
            return []
        if r.__class__ is tuple:
            self.unknown(rule, "%s: %s" % (what, r[0]))
            return []
        return self.bad(rule, "%s: %s" % (what, r), l)

    def comp(self, s, l, i, v):
        if v.op != "adt":
            return self.unknown("accept", "cannot tell which composite is returned") or []
        want = "Named" if i[1] == "}" else "Unnamed"
        if v.a[1] != want:
            return self.bad("accept", "reads items between %s but returns a composite that is %s" % (i[1], v.a[1]), l)
        o = base(norm(v.a[3]))
        vec = s.p.vec
        if s.p.item is not UNIT or vec.lost is True:
            if vec.lost == "?":
                return self.unknown("accept", "cannot tell which items are returned") or []
            return self.bad("accept", "an item is left out", l)
        y = [y for y in s.objs if y[0] is o]
        if vec.any and vec.o is o and not vec.lost and (not y or y[0][1] == "items"):
            return []
        if not vec.any and (o.op == "obj" and not y or o.op == "arr" and not o.a):
            return []
        if y and y[0][2]:
            return self.bad("accept", y[0][1], l)
        if o.op == "obj" and vec.any and not y:
            return self.bad("accept", "the items are not returned", l)
        return self.unknown("accept", "cannot tell which items are returned") or []

    def number(self, s, l, i, pv):
        out = []
        p = s.p
        if look(p.fore) & (DIGIT | m("_")):
            out += self.bad("number accept", "a number ends although more digits may follow", l)
        if not (pv.op == "fld" and pv.a[1] == "Ok" and pv.a[0].op == "call" and last(pv.a[0].a[0]) in ("parse", "from_str", "from_str_radix")):
            if pv.op == "cast" and pv.a[-1].op == "fld":
                return out + self.bad("number", "the number goes through another type", l)
            if vague(pv) is None and pv.op != "call":
                return out + self.bad("number", "the number is %s" % show(pv)[:80], l)
            self.unknown("number", "cannot tell which number is returned: %s" % show(pv)[:80])
            return out
        c = pv.a[0]
        if last(c.a[0]) == "from_str_radix" and not (len(c.a) > 2 and c.a[2].op == "int" and c.a[2].a[0] == 10):
            return out + self.bad("number", "the digits are not read as decimal digits", l)
        if last(c.a[0]) == "parse" and len(c.a) > 2 and c.a[2].op == "str":
            w = "u128" if i[1] == "+" else "i128"
            if c.a[2].a[0] != w and c.a[2].a[0] in NUMTYPES:
                return out + self.bad("number", "a number is read as %s where it may be any %s" % (c.a[2].a[0], w), l)
        o = base(norm(c.a[1]))
        lex = p.lex
        r = self.istext(s, tuple(lex), o)
        if r is None and lex.due is not UNIT:
            r = "the last digit is left out"
        if r is None:
            sg = lex.sign.a[0] if lex.sign is not UNIT else 43
            if (sg == 45) != (i[1] == "-"):
                r = "the sign is not that of the text"
        elif o.op == "obj" and lex.sign is UNIT and i[1] == "-" and False:
            pass
        return out + self.judge("number", "the digits", r, l)

    def describe(self, ks):
        names = {"S": "at its start", "B": "a bool", "V": "a quoted name", "C0": "a character", "CE": "an escape code", "C1": "a character", "CD": "after a character", "Q": "a string", "QE": "an escape code", "QD": "after a string", "N": "a sign", "ND": "a number", "X": "bits", "XD": "after bits", "I": "a name", "W": "after a name", "NO": "after '{'", "NC": "after a comma", "FI": "a field name", "FW": "after a field name", "FV": "after a colon", "NE": "after a field", "UO": "after '('", "UC": "after a comma", "UE": "after an item", "D": "after a closing bracket"}
        return ", ".join(sorted({names.get(k, k) for k in ks})) or "?"

    def what(self, i):
        return {"B": "bool", "CD": "character", "QD": "string", "ND": "number", "XD": "bit sequence", "D": "composite or variant"}[i[0]]

    def errret(self, s, l, x):
        out = self.errpos(s, l, x)
        if s.num is not UNIT and s.num[0] == "nested":
            r = same(x, s.num[1])
            if r == "bad":
                out += self.bad("position", "the error of a nested value is replaced", l)
            elif r != "ok":
                self.unknown("position", "cannot tell whether the error of a nested value is returned")
        if s.proof:
            return out
        if s.num is not UNIT and s.num[1] == "Err":
            o = s.num[0]
            r = self.istext(s, tuple(s.p.lex), o)
            if r is None or r.__class__ is tuple:
                return out
        if s.num is not UNIT and s.num[0] == "?":
            self.unknown("reject", "cannot tell whether the text is a value")
            return out
        cat = "reject"
        if s.fail & TEXTY:
            cat += " text"
        if s.fail & {"N", "ND"}:
            cat += " number"
        self.errs = getattr(self, "errs", 0) + 1
        return out + self.bad(cat, "rejects text that may be a value (%s)" % self.describe(s.fail), l)

    def errpos(self, s, l, x):
        """where the error is said to be"""
        if x.op != "adt" or "start_loc" not in x.a[2]:
            return []
        f = dict(zip(x.a[2], x.a[3:]))
        st, en = norm(f["start_loc"]), norm(f["end_loc"])
        if not (st.op == "res" and last(st.a[2]) == "offset"):
            if vague(st) is None or st.op in ("bin", "int", "len"):
                return self.bad("position", "an error is said to start at %s" % show(st)[:80], l)
            self.unknown("position", "cannot tell where an error starts")
            return []
        if en.op == "adt" and en.a[1] == "Some":
            e = norm(en.a[3])
            if e.op == "bin" and e.a[0] == "Add" and e.a[2].op == "int":
                e = norm(e.a[1])
            if e.op == "res" and last(e.a[2]) == "offset":
                d = self.places(s, st, e)
                if d == ">":
                    return self.bad("position", "an error ends before it starts", l)
            elif vague(e) is None or e.op in ("int", "len", "bin"):
                return self.bad("position", "an error is said to end at %s" % show(e)[:80], l)
            else:
                self.unknown("position", "cannot tell where an error ends")
        return []


def find_callee(a, t):
    """the function that reads nested values"""
    out = {}
    for l in a.events(lambda l: l.rec.get("inst") is not None and a.p.bodies[l.rec["inst"]] is not None and a.p.bodies[l.rec["inst"]]["local"]):
        if l.args and base(l.args[0]) is t:
            out[a.p.bodies[l.rec["inst"]]["canon"]] = len(l.args)
    return out


RULES = ["accept", "reject", "number", "text", "custom", "position"]
_done = []


class Recorder:
    """the rules are decided together, and reported one by one"""

    def __init__(self):
        self.calls = []
        self.notes = []
        self.spec = None

    def __getattr__(self, k):
        def f(*a, **kw):
            self.calls.append((k, a, kw))

        return f


def parsers(rep, rules):
    if not _done:
        r = Recorder()
        parse_all(r, RULES)
        _done.append(r)
    for k, a, kw in _done[0].calls:
        if k == "saw":
            rep.saw(a[0])
        elif a and (a[0] in rules or a[0] == "anchor"):
            getattr(rep, k)(*a, **kw)
        elif a and a[0] == "*":
            getattr(rep, k)(rules[0], *a[1:], **kw)


def parse_all(rep, rules):
    p = prog("all")
    r = fn_root(p, rep, "string_impls::from_string::FromStrBuilder::parse", True)
    if not r:
        return None
    a = An(p, r)
    ts = {base(l.args[0]) for l in a.events(lambda l: l.rec["path"].startswith(STREAM) and l.args)}
    if len(ts) != 1:
        rep.saw(a)
        rep.undecided("*", a.name, "cannot tell how the text is read")
        return None
    t = ts.pop()
    cal = find_callee(a, t)
    if len(cal) > 1:
        rep.saw(a)
        rep.undecided("*", a.name, "several functions read nested values: " + ", ".join(sorted(cal)))
        return None
    callee = list(cal)[0] if cal else None
    x = Parser(a, rep, "FromStrBuilder::parse", t, pr(a.arg(0), "custom_parsers"), callee, top=True)
    x.run(rules)
    if callee:
        r2 = fn_root(p, rep, callee.replace("scale_value::", "", 1), False)
        if not r2:
            rep.undecided("*", callee, "the function that reads nested values is not found")
            return None
        b = An(p, r2)
        y = Parser(b, rep, "nested values", b.arg(0), b.arg(1) if b.nargs() > 1 else None, callee)
        y.run(rules)
    return a


@prop("C20")
def c20(rep):
    rep.rule("accept", "a value is returned only after text that is a value has been read, all of it and nothing more; it has the kind the text says and all its items, in order")
    parsers(rep, ["accept"])


@prop("C21")
def c21(rep):
    rep.rule("reject", "an error is returned only if the characters seen so far cannot start a value, a nested value or a custom parser has failed, or a number is out of range")
    parsers(rep, ["reject"])


@prop("C22")
def c22(rep):
    rep.rule("number", "a number is made of all its digits, in order, without the underscores, with its own sign")
    parsers(rep, ["number"])


@prop("C25")
def c25(rep):
    rep.rule("text", "strings, characters and names hold every character of the text once, in order, escape codes replaced")
    parsers(rep, ["text"])


@prop("C26")
def c26(rep):
    rep.rule("custom", "custom parsers are asked first, in order, at every level; the first answer is returned, with what it read skipped or its places adjusted")
    parsers(rep, ["custom"])


@prop("C27")
def c27(rep):
    rep.rule("position", "errors start at an offset of the text; the rest returned is what has not been read")
    parsers(rep, ["position"])
