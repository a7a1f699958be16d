"""The value of a term once the few unknown numbers it is computed from are chosen."""
from terms import *


class Unknown(Exception):
    pass


def _alnum(v):
    return 48 <= v <= 57 or 65 <= v <= 90 or 97 <= v <= 122


CLASS = {
    "is_ascii": lambda v: v < 128,
    "is_ascii_alphanumeric": _alnum,
    "is_ascii_alphabetic": lambda v: 65 <= v <= 90 or 97 <= v <= 122,
    "is_ascii_digit": lambda v: 48 <= v <= 57,
    "is_ascii_hexdigit": lambda v: 48 <= v <= 57 or 65 <= v <= 70 or 97 <= v <= 102,
    "is_ascii_lowercase": lambda v: 97 <= v <= 122,
    "is_ascii_uppercase": lambda v: 65 <= v <= 90,
    "is_ascii_punctuation": lambda v: v < 128 and 33 <= v <= 126 and not _alnum(v),
    "is_ascii_whitespace": lambda v: v in (32, 9, 10, 12, 13),
    "is_ascii_graphic": lambda v: 33 <= v <= 126,
    "is_ascii_control": lambda v: v < 32 or v == 127,
    "is_alphanumeric": lambda v: chr(v).isalnum(),
    "is_alphabetic": lambda v: chr(v).isalpha(),
    "is_numeric": lambda v: chr(v).isnumeric(),
    "is_whitespace": lambda v: chr(v).isspace() and not 28 <= v <= 31,
}
DIG = "0123456789abcdefghijklmnopqrstuvwxyz"


def rng(v, ty):
    r = int_range(ty)
    if r is None:
        raise Unknown(ty)
    return r[0] <= v <= r[1]


def num(v):
    if v.__class__ is bool:
        return int(v)
    if v.__class__ is int:
        return v
    raise Unknown("not a number")


def ev(t, env):
    if t in env:
        return env[t]
    o, a = t.op, t.a
    if o == "int":
        return bool(a[0]) if a[1] == "bool" else a[0]
    if o == "str":
        return a[0]
    if o in ("mut", "stale"):
        raise Unknown(o)
    if o == "arr":
        return [ev(x, env) for x in a]
    if o == "bytes":
        return list(a[0])
    if o == "tup":
        return tuple(ev(x, env) for x in a)
    if o == "un" and a[0] == "Not":
        v = ev(a[1], env)
        if v.__class__ is bool:
            return not v
        raise Unknown("not")
    if o == "cast":
        v = num(ev(a[2], env))
        if int_range(a[1]) is None:
            raise Unknown(a[1])
        return v if a[1] == "char" else wrap(v, a[1])
    if o == "bin":
        x, y = ev(a[1], env), ev(a[2], env)
        op = a[0]
        if op == "Eq":
            return x == y
        x, y = num(x), num(y)
        if op in ("Lt", "Le", "Gt", "Ge", "Ne"):
            return {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y, "Ne": x != y}[op]
        if op in ("Div", "Rem"):
            if y == 0 or x < 0 or y < 0:
                raise Unknown(op)
            v = x // y if op == "Div" else x % y
        elif op in ("Shl", "Shr"):
            if not 0 <= y < 256:
                raise Unknown(op)
            v = wrap(x << y, a[3]) if op == "Shl" else x >> y
        elif op in ("Add", "Sub", "Mul"):
            v = x + y if op == "Add" else x - y if op == "Sub" else x * y
        elif op in ("BitAnd", "BitOr", "BitXor"):
            v = x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y
            if a[3] == "bool":
                return bool(v)
        else:
            raise Unknown(op)
        if a[3] == "bool" or not rng(v, a[3]):
            raise Unknown("out of range")
        return v
    if o == "ovf":
        x, y = num(ev(a[1], env)), num(ev(a[2], env))
        v = {"Add": x + y, "Sub": x - y, "Mul": x * y}.get(a[0])
        if v is None:
            raise Unknown(o)
        return not rng(v, a[3])
    if o == "adt":
        if a[1] in ("Some", "Ok", "Err") and len(a) == 4:
            return (a[1], ev(a[3], env))
        if a[1] == "None":
            return ("None",)
        raise Unknown("adt")
    if o == "fld":
        x = ev(a[0], env)
        if x.__class__ is tuple and a[1] in ("Some", "Ok", "Err"):
            if x[0] == a[1]:
                return x[1]
            raise Unknown("no such variant")
        if x.__class__ is tuple and not a[1] and a[2].isdigit() and int(a[2]) < len(x):
            return x[int(a[2])]
        raise Unknown("field")
    if o == "idx":
        x, i = ev(a[0], env), num(ev(a[1], env))
        if x.__class__ is list and 0 <= i < len(x):
            return x[i]
        raise Unknown("index")
    if o == "len":
        x = ev(a[0], env)
        if x.__class__ is list:
            return len(x)
        raise Unknown("len")
    if o == "call":
        return call(a[0], [ev(x, env) for x in a[1:]])
    raise Unknown(o)


def call(path, xs):
    n = path.rsplit("::", 1)[-1]
    if n in CLASS and len(xs) == 1:
        return CLASS[n](num(xs[0]))
    if n == "get" and len(xs) == 2 and xs[0].__class__ is list:
        return ("Some", xs[0][xs[1]]) if 0 <= num(xs[1]) < len(xs[0]) else ("None",)
    if n == "eq" and len(xs) == 2:
        return xs[0] == xs[1]
    if n == "ne" and len(xs) == 2:
        return xs[0] != xs[1]
    if n == "from_digit" and len(xs) == 2:
        return ("Some", ord(DIG[xs[0]])) if 0 <= num(xs[0]) < num(xs[1]) <= 36 else ("None",)
    if n == "to_digit" and len(xs) == 2:
        i = DIG.find(chr(num(xs[0])).lower()) if _alnum(num(xs[0])) else -1
        return ("Some", i) if 0 <= i < num(xs[1]) else ("None",)
    if n == "is_digit" and len(xs) == 2:
        return call("to_digit", xs)[0] == "Some"
    if n == "to_ascii_uppercase":
        v = num(xs[0])
        return v - 32 if 97 <= v <= 122 else v
    if n == "to_ascii_lowercase":
        v = num(xs[0])
        return v + 32 if 65 <= v <= 90 else v
    if n == "char_str":
        return chr(num(xs[0]))
    if n in ("min", "max") and len(xs) == 2:
        return (min if n == "min" else max)(num(xs[0]), num(xs[1]))
    raise Unknown(path)


def text(t, env):
    """what writing the term shows"""
    if t.op == "fmtarg":
        kind, ty, x, opts = t.a
        v = ev(x, env)
        if ty == "char" and kind == "Display":
            s = chr(num(v))
        elif v.__class__ is str and kind == "Display":
            s = v
        elif v.__class__ is int and kind == "Display":
            s = "%d" % v
        elif v.__class__ is int and kind in ("UpperHex", "LowerHex") and v >= 0:
            s = ("%X" if kind == "UpperHex" else "%x") % v
        else:
            raise Unknown("how it is shown")
        if opts is None:
            return s
        flags, width, prec, aw, ap = opts
        if prec is not None or aw or ap:
            raise Unknown("precision")
        if width and len(s) < width:
            if flags is None or not flags & (1 << 24):
                raise Unknown("padding")
            s = s.rjust(width, "0")
        return s
    if t.op == "int" and t.a[1] == "char":
        return chr(t.a[0])
    v = ev(t, env)
    if v.__class__ is str:
        return v
    raise Unknown("not text")


def allows(l, env):
    """does the branch go this way for these numbers? (Unknown if it depends on more)"""
    v, out = ev(l.term, env), l.out
    if out in (True, False) and out.__class__ is bool:
        if v.__class__ is bool:
            return v == out
        return bool(num(v)) == out
    if v.__class__ is tuple:
        if out.__class__ is str:
            return v[0] == out
        if out.__class__ is tuple:
            return v[0] in out
        raise Unknown("variant")
    if out.__class__ is Term:
        if out.op == "int":
            return num(v) == out.a[0]
        raise Unknown("case")
    if out.__class__ is int:
        return num(v) == out
    if out.__class__ is tuple and out and out[0] == "not":
        return all(num(v) != (o.a[0] if o.__class__ is Term else o) for o in out[1:])
    raise Unknown("case")
