"""Hash-consed terms: the abstract values of the analysis.

A term says where a value comes from (an argument, the result of a call site, a
field of such a value, a constant ...).  Shared references are transparent: `&x`
and `x` are the same term, since what a shared reference points at does not
change while the reference lives.
"""


class Term:
    __slots__ = ("op", "a", "id", "atoms", "refs", "tokens", "_s")

    def __init__(self, op, a, i):
        self.op = op
        self.a = a
        self.id = i
        self._s = None

    def __repr__(self):
        return show(self)


_tab = {}
EMPTY = frozenset()
# ops that introduce a token (something with an identity in the analysed run)
TOKEN_OPS = {"res", "obj", "arg", "wid"}


def mk(op, *a):
    k = (op,) + tuple((x.id, "t") if x.__class__ is Term else x for x in a)
    t = _tab.get(k)
    if t is not None:
        return t
    t = Term(op, a, len(_tab))
    atoms = EMPTY
    refs = EMPTY
    for x in a:
        if x.__class__ is Term:
            if x.atoms:
                atoms = atoms | x.atoms
            if x.refs:
                refs = refs | x.refs
    if op in TOKEN_OPS:
        atoms = atoms | {t}
    if op in ("ref", "ploc", "lloc"):
        refs = refs | {t}
    t.atoms = atoms
    t.refs = refs
    _tab[k] = t
    return t


def INT(v, ty):
    return mk("int", v, ty)


TRUE = INT(1, "bool")
FALSE = INT(0, "bool")
UNIT = mk("tup")


def BOOL(b):
    return TRUE if b else FALSE


def STR(s):
    return mk("str", s)


def UNK(why):
    return mk("unk", why)


def is_int(t):
    return t.op == "int"


def ADT(path, variant, names, *vals):
    return mk("adt", path, variant, tuple(names), *vals)


def adt_fields(t):
    return dict(zip(t.a[2], t.a[3:]))


def subst(t, f, memo):
    """rebuild t, replacing every sub-term x for which f(x) is not None"""
    if t in memo:
        return memo[t]
    r = f(t)
    if r is None:
        ch = False
        na = []
        for x in t.a:
            if x.__class__ is Term:
                y = subst(x, f, memo)
                ch = ch or (y is not x)
                na.append(y)
            else:
                na.append(x)
        r = mk(t.op, *na) if ch else t
    memo[t] = r
    return r


def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if y.__class__ is Term:
                st.append(y)


def contains(t, u):
    for x in walk(t):
        if x is u:
            return True
    return False


def show(t, d=0):
    if t._s is not None:
        return t._s
    if d > 14:
        return "..."
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1) if x.__class__ is Term else str(x)
    if o == "int":
        r = repr(chr(a[0])) if a[1] == "char" and 0 <= a[0] < 0x110000 else ("true" if a[0] else "false") if a[1] == "bool" else "%d" % a[0]
    elif o == "str":
        r = '"%s"' % a[0].replace("\n", "\\n")
    elif o == "adt":
        n = a[0].rsplit("::", 1)[-1]
        v = "" if a[1] == n else "::" + a[1]
        f = a[3:]
        if not f:
            r = n + v
        elif a[2] and not a[2][0].isdigit():
            r = "%s%s{%s}" % (n, v, ", ".join("%s: %s" % (k, s(x)) for k, x in zip(a[2], f)))
        else:
            r = "%s%s(%s)" % (n, v, ", ".join(s(x) for x in f))
    elif o == "tup":
        r = "(" + ", ".join(map(s, a)) + ")"
    elif o == "arr":
        r = "[" + ", ".join(map(s, a)) + "]"
    elif o == "arg":
        r = "arg%d%s" % (a[0], ":" + a[1] if len(a) > 1 and a[1] else "")
    elif o == "res":
        r = "res%s#%d%s" % ("'" * a[1], a[0], ":" + a[2].rsplit("::", 1)[-1])
    elif o == "obj":
        r = "obj%s#%d:%s" % ("'" * a[1], a[0], a[2].rsplit("::", 2)[-2] if "::" in a[2] else a[2])
    elif o == "mut":
        r = "mut(%s)" % s(a[0])
    elif o == "fld":
        r = "%s.%s%s" % (s(a[0]), a[1] + "." if a[1] else "", a[2])
    elif o == "call":
        r = "%s(%s)" % ("::".join(a[0].split("::")[-2:]), ", ".join(map(s, a[1:])))
    elif o == "clo":
        r = "closure<%s>(%s)" % ("::".join(a[1].split("::")[-2:]), ", ".join(map(s, a[2:])))
    elif o == "ref":
        r = "&mut %s%s" % (s(a[0]), "".join("." + str(p[-1]) for p in a[1]))
    elif o == "fn":
        r = "fn<%s>" % a[1]
    elif o == "cast":
        r = "(%s as %s)" % (s(a[2]), a[1])
    elif o == "bin":
        r = "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    else:
        r = "%s(%s)" % (o, ", ".join(map(s, a)))
    if d == 0 or len(r) < 200:
        t._s = r
    return r


INTW = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "char": 32, "bool": 1}


def int_range(ty):
    if ty == "char":
        return (0, 0x10FFFF)
    w = INTW.get(ty)
    if w is None:
        return None
    if ty[0] == "i":
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    return (0, (1 << w) - 1)


def wrap(v, ty):
    w = INTW[ty]
    if ty == "bool":
        return v & 1
    v &= (1 << w) - 1
    if ty[0] == "i" and v >> (w - 1):
        v -= 1 << w
    return v
