"""Values themselves: constructors, conversions, accessors, lookups, contexts."""
from rules import *
from serdes import *
from serdes2 import shape, Val, Prim, Comp, Vari, give, origin, the_result  # noqa: F401

VT = "value_type::"


# ------------------------------------------------------------ containers
def filled(a, src, item, bind=()):
    """spec: a container that holds item(i) for every item i of src, in order (item: Term -> spec)"""
    src = norm(src)

    def f(c):
        c0 = norm(base(c))
        if c0 is src:
            # moved as it is
            i = mk("arg", 91, "item")
            r = shape(i, item(i), bind)
            return None if r is None else ("bad", "the items as they are")
        if c0.op != "obj":
            return vague(c0) or ("bad", "%s instead of the items" % show(c0)[:80])
        t, rep = runs(a, src, item, bind, c0)
        if rep.bads:
            return ("bad", "not the items given: " + rep.bads[0])
        if c0 in {norm(x) for x in t.containers}:
            return rep.unds[0] if rep.unds else None
        o = origin(a, base(c))
        if o is not None and norm(o) is not c0:
            return f(o)
        if rep.unds:
            return rep.unds[0]
        if any(is_push(e) is not None and norm(base(e.args[0])) is c0 or "extend" in last(e.rec["path"]) or "append" in last(e.rec["path"]) for e in a.events(lambda l: True) if e.args):
            return "how the items are moved is not understood"
        return ("bad", "nothing instead of the items")

    return f


def runs(a, src, item, bind, target):
    from serdes2 import _Collect

    rep = _Collect()

    def source(l):
        return last(l.rec["path"]) in ("next", "next_back", "nth", "nth_back") and l.args and norm(base(adaptors(l.args[0])[0])) is src

    for e in a.events(source):
        if last(e.rec["path"]) != "next":
            rep.bads.append("they are taken by %s" % last(e.rec["path"]))
        for x in adaptors(e.args[0])[1]:
            if x.a[1] in CHANGERS:
                rep.bads.append("they go through %s" % x.a[1])

    def expect(v, R, l, extra):
        r = shape(v, item(pr(R, "Some.0")), [R] + list(bind))
        return "ok" if r is None else r if r.__class__ is str else ("bad", "an item is stored %s" % r[1])

    t = Transfer(a, source, is_push, expect)
    t.allow_stop = lambda l, s: s[2] == 0 and not any(contains(norm(l.val), norm(c)) for c in t.containers)
    t.run(rep, "", "")
    return t, rep


def pair(x, y):
    def f(t):
        if t.op != "tup" or len(t.a) != 2:
            n = norm(t)
            i = [z for z in (x, y) if z.__class__ is Term]
            if len(i) == 2 and n.op != "tup" and pr(n, "0") is norm(i[0]) and pr(n, "1") is norm(i[1]):
                return None
            return vague(n) or ("bad", "%s" % show(n)[:80])
        return shape(t.a[0], x, ()) or shape(t.a[1], y, ())

    return f


def Value_(vd, ctx=UNIT):
    return ("Value", {"value": vd, "context": ctx})


def into(x):
    """x.into() of a type parameter, or x itself"""

    def f(t):
        n = norm(t)
        if n is norm(x):
            return None
        if n.op == "call" and last(n.a[0]) in ("into", "from") and norm(n.a[-1]) is norm(x):
            return None
        if n.op == "call" and last(n.a[0]) in ("to_string", "to_owned", "to_vec", "clone") and norm(n.a[-1]) is norm(x):
            return None
        return vague(n, [x]) or ("bad", "%s" % show(n)[:80])

    return f


# ------------------------------------------------------------ C36
UNSIGNED = ("u8", "u16", "u32", "u64", "u128", "usize")
SIGNED = ("i8", "i16", "i32", "i64", "i128", "isize")


def conversions(rep):
    p = prog("all")
    pk = {"bool": "Bool", "char": "Char", "alloc::string::String": "String", "&str": "String"}
    for x in UNSIGNED:
        pk[x] = "U128"
    for x in SIGNED:
        pk[x] = "I128"
    F = "core::convert::From"
    for ty, k in pk.items():
        for target in ("Primitive", "ValueDef<T>", "Value"):
            r = impl_root(p, rep, "<%s%s as %s<%s>>" % (VT, target, F, ty), "from")
            if not r:
                continue
            a = An(p, r)
            x = into(a.arg(0)) if k == "String" else a.arg(0)
            spec = (k, {"0": x})
            if target != "Primitive":
                spec = ("Primitive", {"0": spec})
            if target == "Value":
                spec = Value_(spec)
            give(rep, "conversions", "%s from %s" % (target, ty), a, spec)
    for ty, k in (("scale_bits::bits::bits::Bits", "BitSequence"), (VT + "Composite", "Composite"), (VT + "Variant", "Variant"), (VT + "Primitive", "Primitive")):
        for target in ("ValueDef<T>", "Value"):
            if ty.endswith("Primitive") and target == "Value":
                continue
            g = "" if k in ("BitSequence", "Primitive") else "<T>" if target != "Value" else "<()>"
            r = impl_root(p, rep, "<%s%s as %s<%s%s>>" % (VT, target, F, ty, g), "from")
            if not r:
                continue
            a = An(p, r)
            spec = (k, {"0": a.arg(0)})
            give(rep, "conversions", "%s from %s" % (target, last(ty)), a, Value_(spec) if target == "Value" else spec)
    for ty, named in (("V", False), ("(K, V)", True)):
        for target in ("Composite<()>", "ValueDef<()>", "Value"):
            r = impl_root(p, rep, "<%s%s as %s<alloc::vec::Vec<%s>>>" % (VT, target, F, ty), "from")
            if not r:
                continue
            a = An(p, r)
            if named:
                spec = ("Named", {"0": filled(a, a.arg(0), lambda i: pair(into(pr(i, "0")), into(pr(i, "1"))))})
            else:
                spec = ("Unnamed", {"0": filled(a, a.arg(0), lambda i: into(i))})
            if not target.startswith("Composite"):
                spec = ("Composite", {"0": spec})
            if target == "Value":
                spec = Value_(spec)
            give(rep, "conversions", "%s from Vec<%s>" % (target, ty), a, spec)


def constructors(rep):
    p = prog("all")

    def fill(a, n, named):
        if named:
            return ("Named", {"0": filled(a, a.arg(n), lambda i: pair(into(pr(i, "0")), pr(i, "1")))})
        return ("Unnamed", {"0": filled(a, a.arg(n), lambda i: i)})

    def prim(k):
        return lambda a: Value_(("Primitive", {"0": (k, {"0": into(a.arg(0)) if k == "String" else a.arg(0)})}))

    specs = {
        "Value::bool": prim("Bool"),
        "Value::char": prim("Char"),
        "Value::string": prim("String"),
        "Value::u128": prim("U128"),
        "Value::i128": prim("I128"),
        "Value::primitive": lambda a: Value_(("Primitive", {"0": a.arg(0)})),
        "Value::bit_sequence": lambda a: Value_(("BitSequence", {"0": a.arg(0)})),
        "Value::variant": lambda a: Value_(("Variant", {"0": ("Variant", {"name": into(a.arg(0)), "values": a.arg(1)})})),
        "Value::named_variant": lambda a: Value_(("Variant", {"0": ("Variant", {"name": into(a.arg(0)), "values": fill(a, 1, True)})})),
        "Value::unnamed_variant": lambda a: Value_(("Variant", {"0": ("Variant", {"name": into(a.arg(0)), "values": fill(a, 1, False)})})),
        "Value::named_composite": lambda a: Value_(("Composite", {"0": fill(a, 0, True)})),
        "Value::unnamed_composite": lambda a: Value_(("Composite", {"0": fill(a, 0, False)})),
        "Value::from_bytes": lambda a: Value_(("Composite", {"0": ("Unnamed", {"0": filled(a, a.arg(0), lambda i: Value_(("Primitive", {"0": ("U128", {"0": i})})))})})),
        "Value::without_context": lambda a: Value_(a.arg(0)),
        "Value::with_context": lambda a: Value_(a.arg(0), a.arg(1)),
        "Composite::named": lambda a: fill(a, 0, True),
        "Composite::unnamed": lambda a: fill(a, 0, False),
        "Variant::named_fields": lambda a: ("Variant", {"name": into(a.arg(0)), "values": fill(a, 1, True)}),
        "Variant::unnamed_fields": lambda a: ("Variant", {"name": into(a.arg(0)), "values": fill(a, 1, False)}),
        "Primitive::u128": lambda a: ("U128", {"0": a.arg(0)}),
        "Primitive::i128": lambda a: ("I128", {"0": a.arg(0)}),
    }
    for name, spec in specs.items():
        r = fn_root(p, rep, VT + name)
        if r:
            a = An(p, r)
            give(rep, "constructors", name, a, spec(a))


@prop("C36")
def c36(rep):
    rep.rule("constructors", "every constructor gives the kind of value it is named after, with exactly what it was given: the same name, every item once and in order, under its own name, and the context given")
    rep.rule("conversions", "From gives the primitive (number, text, ..), bit sequence, composite or variant for what it was given, numbers unchanged, without context; lists become composites with every item in order")
    constructors(rep)
    conversions(rep)


# ------------------------------------------------------------ C37
def accessors(rep):
    p = prog("all")
    for m, k in (("as_bool", "Bool"), ("as_char", "Char"), ("as_u128", "U128"), ("as_i128", "I128"), ("as_str", "String")):
        for ty in ("Primitive", "Value"):
            r = fn_root(p, rep, VT + ty + "::" + m)
            if r:
                accessor(rep, An(p, r), ty + "::" + m, ty, k)
    for m in ("len", "is_empty", "values", "into_values"):
        r = fn_root(p, rep, VT + "Composite::" + m)
        if r:
            view(rep, p, An(p, r), m)


def accessor(rep, a, name, ty, want):
    rep.saw(a)
    if not a.complete:
        rep.undecided("accessors", name, a.g.incomplete)
        return
    und = set()
    n = [0]
    s = a.arg(0)
    vd = pr(s, "value") if ty == "Value" else None
    prim = s if vd is None else pr(vd, "Primitive.0")

    def judge(P):
        for k, d, x in shapes(P, vd=vd, prim=None if vd is not None else prim):
            kd = retkind(P.val)
            if k == "Primitive" and d == want:
                if kd == "None":
                    if odd(P, s):
                        und.add("the value is refused after a test that is not understood")
                        continue
                    return Bad("refused", "None for a %s" % d, a.span)
                r = shape(P.val, ("Some", {"0": into(pr(prim, want + ".0"))}), ())
                if r.__class__ is tuple:
                    return Bad("content", "gives " + r[1], a.span)
                if r is not None:
                    und.add(r)
                    continue
            elif kd == "Some":
                return Bad("accepted", "something for a %s" % (d if k == "Primitive" else k), a.span)
            elif kd != "None":
                und.add("what is returned is not understood")
                continue
            n[0] += 1

    bads = every_path(a, lambda l: None, judge)
    finish(rep, "accessors", name, bads, und, n[0])


def odd(P, s, known=()):
    """does the path depend on something the analysis does not follow"""
    return any(vague(t, known) for t in P.facts) or any(vague(x, known) or vague(y, known) for x, y, _ in P.rels)


def view(rep, p, a, m):
    name = "Composite::" + m
    rep.saw(a)
    if not a.complete:
        rep.undecided("views", name, a.g.incomplete)
        return
    s = a.arg(0)
    und = set()
    n = [0]

    def judge(P):
        for k in sorted(kinds(P, s, COMPS)):
            vec = pr(s, k + ".0")
            ln = mk("len", norm(vec))
            v = P.val
            if m == "len":
                x = norm(v)
                if x.op == "len" and x is not ln:
                    src, ads = adaptors(x.a[0])
                    if all(y.a[1] in ("Map", "Cloned", "Copied", "IntoIter", "Iter") for y in ads):
                        x = mk("len", norm(base(src)))
                r = same(x, ln)
                r = None if r == "ok" else ("bad", show(norm(v))[:80]) if r == "bad" else r
            elif m == "is_empty":
                r = None
                x = norm(v)
                if x.op == "int":
                    lo, hi, exc = interval(P.rels, ln)
                    lo = lo or 0
                    asked = bool(P.rels)
                    firsts = [e for e in P.evs if norm(base(adaptors(e[2][0])[0])) is norm(vec)][:1]
                    for t, o in P.facts.items():
                        if firsts and t is firsts[0][3] or t.op == "call" and last(t.a[0]) in ("first", "last") and norm(t.a[1]) is norm(vec) or t.op == "call" and last(t.a[0]) == "get" and norm(t.a[1]) is norm(vec) and t.a[2].op == "int" and t.a[2].a[0] == 0:
                            asked = True
                            if o == "Some":
                                lo = max(lo, 1)
                            elif o == "None":
                                hi = 0
                    if (lo >= 1) if x.a[0] else (hi == 0):
                        r = ("bad", "%s for %s values" % (bool(x.a[0]), "any" if hi is None else hi))
                    elif not ((hi == 0) if x.a[0] else (lo >= 1)):
                        r = "the number of values is tested in a way that is not understood" if asked or any(contains(t, norm(vec)) for t in P.facts) else ("bad", "%s for any number of values" % bool(x.a[0]))
                else:
                    r = emptiness(x, ln, True)
            else:
                r = elements(p, v, vec, k == "Named", "values")
                r = None if r == "ok" else r
            if r is None:
                n[0] += 1
            elif r.__class__ is tuple:
                return Bad("content", "for a composite that is %s: %s" % (k.lower(), r[1]), a.span)
            else:
                und.add(r)

    bads = every_path(a, lambda l: "next" if last(l.rec["path"]) in ("next", "next_back") and l.args else None, judge)
    finish(rep, "views", name, bads, und, n[0])


def emptiness(x, ln, pol):
    """is a truth value the same as `ln == 0`"""
    while x.op == "un" and x.a[0] == "Not":
        x, pol = x.a[1], not pol
    if x.op == "bin" and x.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        l, r = unwiden_all(x.a[1]), unwiden_all(x.a[2])
        for q in (0, 1, 2, 3):
            v = {}
            for i, t in enumerate((l, r)):
                if t is ln:
                    v[i] = q
                elif t.op == "int":
                    v[i] = t.a[0]
                else:
                    return vague(x) or ("bad", "says %s" % show(x)[:80])
            o = {"Eq": v[0] == v[1], "Ne": v[0] != v[1], "Lt": v[0] < v[1], "Le": v[0] <= v[1], "Gt": v[0] > v[1], "Ge": v[0] >= v[1]}[x.a[0]]
            if (o == pol) != (q == 0):
                return ("bad", "wrong for %d values" % q)
        return None
    return vague(x) or "the test is not understood: %s" % show(x)[:60]


@prop("C37")
def c37(rep):
    rep.rule("accessors", "as_bool, as_char, as_u128, as_i128 and as_str give the content exactly for values of that kind and None for every other")
    rep.rule("views", "len, is_empty, values and into_values tell the number of values and all values in order, named or not")
    accessors(rep)


# ------------------------------------------------------------ C38 lookups
def lookups(rep):
    p = prog("all")
    for ty in ("Composite<Ctx>", "Variant<Ctx>", "Value<Ctx>"):
        r = impl_root(p, rep, "<%s%s as at::At<Ctx>>" % (VT, ty), "at")
        if r:
            lookup(rep, p, An(p, r), ty.split("<")[0])
    r = impl_root(p, rep, "<core::option::Option<&T> as at::At<Ctx>>", "at")
    if r:
        optional(rep, An(p, r))
    for ty, k in (("usize", "Usize"), ("&str", "Str"), ("alloc::string::String", "Str")):
        r = impl_root(p, rep, "<%s as at::AsLocation>" % ty, "as_location")
        if r:
            a = An(p, r)
            give(rep, "locations", ty, a, ("Location", {"inner": (k, {"0": into(a.arg(0))})}))
    r = impl_root(p, rep, "<&T as at::AsLocation>", "as_location")
    if r:
        a = An(p, r)
        evs = a.events(is_loc)
        give(rep, "locations", "&T", a, lambda t: None if t in {e.res for e in evs if norm(e.args[0]) is norm(a.arg(0))} else vague(t) or ("bad", show(norm(t))[:80]))


def is_loc(l):
    return l.kind == "ev" and last(l.rec["path"]) == "as_location"


def is_at(l):
    return l.kind == "ev" and last(l.rec["path"]) == "at" and "At" in l.rec["path"]


def optional(rep, a):
    name = "Option"
    rep.saw(a)
    if not a.complete:
        rep.undecided("lookup", name, a.g.incomplete)
        return
    und = set()
    n = [0]
    s = a.arg(0)

    def judge(P):
        for k in sorted(kinds(P, s, ("Some", "None"))):
            v = norm(P.val)
            if k == "None":
                if v.op == "adt" and v.a[1] == "None":
                    n[0] += 1
                elif v.op == "adt":
                    return Bad("made up", "something in nothing", a.span)
                else:
                    und.add("what is returned is not understood")
                continue
            evs = [e for e in P.evs if e[3] is v]
            if evs:
                e = evs[0]
                if norm(e[2][0]) is norm(pr(s, "Some.0")) and norm(e[2][1]) is norm(a.arg(1)):
                    n[0] += 1
                    continue
                return Bad("elsewhere", "looks at %s" % show(norm(e[2][0]))[:60], a.span)
            if v.op == "adt" and v.a[1] == "None":
                if odd(P, s) or P.evs:
                    und.add("None after a test that is not understood")
                    continue
                return Bad("not found", "None without looking", a.span)
            und.add("what is returned is not understood")

    bads = every_path(a, lambda l: "at" if is_at(l) else None, judge, limit=50000)
    finish(rep, "lookup", name, bads, und, n[0])


def lookup(rep, p, a, ty):
    rep.saw(a)
    if not a.complete:
        rep.undecided("lookup", ty, a.g.incomplete)
        return
    s = a.arg(0)
    locs = {e.res: norm(e.args[0]) for e in a.events(is_loc)}
    for L, x in locs.items():
        if x is not norm(a.arg(1)):
            rep.bad("lookup", ty, "looks for %s" % show(x)[:60], a.span)
            return
    if not locs:
        rep.undecided("lookup", ty, "the location is not looked at")
        return
    und = set()
    n = [0]

    def comps(P):
        if ty == "Composite":
            return [s]
        if ty == "Variant":
            return [pr(s, "values")]
        r = []
        for k in sorted(kinds(P, pr(s, "value"), DEFS)):
            if k == "Composite":
                r.append(pr(s, "value.Composite.0"))
            elif k == "Variant":
                r.append(pr(s, "value.Variant.0.values"))
            else:
                r.append(None)
        return r

    # which items were seen on the path, and how they compared
    def step(st, l):
        facts, seen = st
        if l.kind == "ev":
            if last(l.rec["path"]) in ("next", "next_back", "nth") and l.args:
                src, ads = adaptors(l.args[0])
                src = norm(base(src))
                if not (contains(src, s)):
                    return st
                if any(f[1] == "Usize" and any(f[0] is pr(L, "inner") for L in locs) for f in facts if f[0] != "rels"):
                    # by position
                    if last(l.rec["path"]) == "nth" and not ads:
                        return (facts, ((l.res, norm(l.args[1]), src),))
                    return (facts, ((l.res, "?", src),))
                cur = [x for x in seen if x[1] is None]
                if cur and facts_get(facts, cur[0][0]) == "Some":
                    return Bad("skipped", "an entry is passed over without comparing its name", l.span)
                if last(l.rec["path"]) == "nth" and not ads and l.args[1].op == "int" and l.args[1].a[0] > 0:
                    return Bad("skipped", "entries are passed over without comparing their names", l.span)
                if last(l.rec["path"]) != "next":
                    return Bad("order", "entries are taken by %s: not the first with the name is found" % last(l.rec["path"]), l.span) if last(l.rec["path"]) == "next_back" else und.add("nth") or None
                for x in ads:
                    if x.a[1] in CHANGERS:
                        return Bad("order", "entries go through %s" % x.a[1], l.span)
                return (facts, ((l.res, None, src),))
            return st
        if l.kind == "br":
            t = l.term
            c = compared(l)
            if c is not None and seen:
                R = seen[0][0]
                name = norm(pr(R, "Some.0.0"))
                x, y, eq = c
                strs = [norm(pr(L, "inner.Str.0")) for L in locs]
                if {x, y} & {name} and {x, y} & set(strs):
                    return (facts, ((R, "equal" if eq else "other", seen[0][2]),))
                if contains(x, name) or contains(y, name):
                    if vague(x) or vague(y):
                        und.add("names are compared in a way that is not understood")
                        return None
                    return Bad("compare", "names are compared as %s with %s" % (show(x)[:60], show(y)[:60]), l.span)
            r = relfacts(l)
            if r:
                und_len = ("rels",) + tuple(r)
                return (facts | {und_len}, seen)
            return (frozenset(f for f in facts if f[0] is not t) | {(t, l.out)}, seen)
        if l.kind == "ret":
            return judge(facts, seen, l)
        return st

    def facts_get(facts, t):
        for f in facts:
            if f[0] is t:
                return f[1]
        return None

    class P_:
        def __init__(self, facts):
            self.facts = {f[0]: f[1] for f in facts if f[0] != "rels"}
            self.rels = [r for f in facts if f[0] == "rels" for r in f[1:]]

    def judge(facts, seen, l):
        P = P_(facts)
        v = norm(l.val)
        lks = set()
        for L in locs:
            lks |= kinds(P, pr(L, "inner"), ("Str", "Usize")) if pr(L, "inner") in P.facts else set()
        lks = lks or {"Str", "Usize"}
        for C in comps(P):
            if C is None:
                if not none(v):
                    return Bad("made up", "something in a value without values", a.span)
                n[0] += 1
                continue
            for ck in sorted(kinds(P, C, COMPS)):
                for lk in sorted(lks):
                    r = one(P, v, C, ck, lk, seen)
                    if r is None:
                        n[0] += 1
                    elif r.__class__ is Bad:
                        return r
                    else:
                        und.add(r)

    def none(v):
        return v.op == "adt" and v.a[1] == "None"

    def one(P, v, C, ck, lk, seen):
        vec = norm(pr(C, ck + ".0"))
        if lk == "Str":
            if ck == "Unnamed":
                return None if none(v) else Bad("made up", "a name finds something among values without names", a.span)
            if not seen or seen[0][2] is not vec:
                if none(v):
                    return Bad("not looked", "a name is not looked for among the entries", a.span) if not odd(P, s, list(locs)) else "None after a test that is not understood"
                return vague(v) or Bad("found", "gives %s" % show(v)[:80], a.span)
            R, cmp, _ = seen[0]
            fin = P.facts.get(R)
            if none(v):
                if fin == "None":
                    return None
                if cmp == "equal":
                    return Bad("not found", "None although an entry has the name", a.span)
                return Bad("stops", "gives up before the last entry", a.span)
            if v.op == "adt" and v.a[1] == "Some":
                if norm(v.a[3]) is norm(pr(R, "Some.0.1")):
                    if cmp == "equal":
                        return None
                    return Bad("other", "an entry with another name is found", a.span) if cmp == "other" else Bad("uncompared", "an entry is found without comparing its name", a.span)
                if any(x.op == "call" and last(x.a[0]) == "get" for x in walk(v)):
                    return "what is found is taken by its position"
                return vague(v, [R]) or Bad("found", "finds %s" % show(norm(v.a[3]))[:80], a.span)
            return vague(v, [R]) or "what is returned is not understood"
        # a position
        gets = [x for x in walk_all(v, P) if x.op == "call" and last(x.a[0]) == "get" and norm(x.a[1]) is vec]
        idx = [norm(pr(L, "inner.Usize.0")) for L in locs]
        known = list(locs) + gets
        if seen and seen[0][1] is not None and seen[0][1].__class__ is Term and seen[0][2] is vec:
            R, i, _ = seen[0]
            if i not in idx:
                return vague(i, known) or Bad("index", "looks at position %s" % show(i)[:60], a.span)
            if none(v):
                return None if P.facts.get(R) == "None" else "None after a test that is not understood" if P.facts.get(R) is None else Bad("not found", "None although there is such a position", a.span)
            if v is R and ck == "Unnamed":
                return None
            if v.op == "adt" and v.a[1] == "Some":
                if norm(v.a[3]) is norm(pr(R, "Some.0.1" if ck == "Named" else "Some.0")):
                    return None
                return vague(v, [R] + known) or Bad("found", "finds %s" % show(norm(v.a[3]))[:80], a.span)
            return "what is returned is not understood"
        for g in gets:
            if norm(g.a[2]) not in idx:
                i = norm(g.a[2])
                return vague(i, known) or Bad("index", "looks at position %s" % show(i)[:60], a.span)
            q = P.facts.get(g)
            if none(v):
                if q == "None":
                    return None
                if q == "Some":
                    return Bad("not found", "None although there is such a position", a.span)
                continue
            item = pr(g, "Some.0.1" if ck == "Named" else "Some.0")
            if v is g and ck == "Unnamed":
                return None
            if v.op == "adt" and v.a[1] == "Some":
                if norm(v.a[3]) is norm(item):
                    return None
                return vague(v, known) or Bad("found", "finds %s" % show(norm(v.a[3]))[:80], a.span)
        if none(v):
            # positions beyond the end
            ln = mk("len", vec)
            for i in idx:
                q = possible(P.rels, i, ln)
                if q and "<" not in q:
                    return None
            if not odd(P, s, known) and not seen:
                return Bad("not looked", "None without looking at the position", a.span) if not P.rels else "None after comparing numbers"
        return vague(v, known) or "how the position is looked up is not understood"

    def walk_all(v, P):
        st = [v] + list(P.facts)
        out = []
        seen = set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            out.append(x)
            st += [y for y in x.a if y.__class__ is Term]
        return out

    bads = a.automaton((frozenset(), ()), step, 200000)
    finish(rep, "lookup", ty, bads, und, n[0])


def compared(l):
    """x == y on a branch: (x, y, outcome)"""
    t, pol = l.term, True
    while t.op == "un" and t.a[0] == "Not":
        t, pol = t.a[1], not pol
    if l.out not in (True, False, 0, 1):
        return None
    if t.op == "call" and last(t.a[0]) in ("eq", "ne") and len(t.a) >= 3:
        eq = bool(l.out) == pol
        if last(t.a[0]) == "ne":
            eq = not eq
        return norm(t.a[-2]), norm(t.a[-1]), eq
    return None


@prop("C38")
def c38(rep):
    rep.rule("lookup", "a name finds the first entry whose name is equal, a position the value at that position, in composites and in the fields of variants; everything else finds nothing")
    rep.rule("locations", "numbers stand for positions, texts for names, unchanged")
    lookups(rep)


# ------------------------------------------------------------ C39 contexts
def contexts(rep):
    p = prog("all")
    for ty, spec in (("Value", "value"), ("ValueDef", "def"), ("Composite", "comp"), ("Variant", "var")):
        r = fn_root(p, rep, VT + ty + "::map_context")
        if r:
            a = An(p, r)
            m = Mapped(a, a.arg(1))
            give(rep, "mapped", ty, a, getattr(m, spec)(a.arg(0)))
    r = fn_root(p, rep, VT + "Value::remove_context")
    if r:
        a = An(p, r)
        m = Mapped(a, None)
        give(rep, "mapped", "Value::remove_context", a, m.value(a.arg(0)))


class Mapped:
    """what a value looks like after map_context"""

    def __init__(self, a, f):
        self.a, self.f = a, f
        self.calls = {e.res: e for e in a.events(lambda l: l.kind == "ev")}

    def rec(self, t, x, ty=None):
        """is it map_context(x, f)?"""
        e = self.calls.get(t)
        if e is None or last(e.rec["path"]) not in ("map_context", "remove_context"):
            return None
        if norm(e.args[0]) is not norm(x):
            return vague(norm(e.args[0]), list(self.calls)) or ("bad", "%s mapped instead of %s" % (show(norm(e.args[0]))[:60], show(norm(x))[:60]))
        if self.f is not None and len(e.args) > 1:
            g = norm(e.args[1])
            while g.op == "call" and last(g.a[0]) == "clone":
                g = norm(g.a[-1])
            if g is not norm(self.f):
                return "mapped with another function"
        return "ok"

    def either(self, x, spec):
        def f(t):
            r = self.rec(t, x)
            if r == "ok":
                return None
            if r is not None:
                return r
            return shape(t, spec, [])

        return f

    def value(self, v):
        return self.either(v, ("Value", {"value": self.vdef(pr(v, "value")), "context": self.ctx(pr(v, "context"))}))

    def ctx(self, c):
        def f(t):
            if self.f is None:
                return None if norm(t) is UNIT else vague(t)
            e = self.calls.get(t)
            if e is None:
                return vague(t) or ("bad", "the context %s" % show(norm(t))[:60])
            if last(e.rec["path"]) not in ("call_mut", "call", "call_once"):
                return "the context comes from %s" % e.name
            g = norm(e.args[0])
            while g.op == "call" and last(g.a[0]) == "clone":
                g = norm(g.a[-1])
            if g is not norm(self.f):
                return "the context comes from another function"
            x = e.args[1]
            if x.op == "tup" and len(x.a) == 1:
                x = x.a[0]
            if norm(x) is norm(c):
                return None
            return vague(norm(x), list(self.calls)) or ("bad", "the context made from %s" % show(norm(x))[:60])

        return f

    def vdef(self, d):
        def f(t):
            if t.op != "adt":
                r = self.rec(t, d)
                return None if r == "ok" else r or vague(t) or ("bad", show(norm(t))[:80])
            k = t.a[1]
            x = pr(d, k + ".0")
            if k in ("Primitive", "BitSequence"):
                return shape(t, (k, {"0": x}), [])
            return shape(t, (k, {"0": self.comp(x) if k == "Composite" else self.var(x)}), [])

        return f

    # as ValueDef::map_context
    def __getattr__(self, n):
        if n == "def":
            return self.vdef
        raise AttributeError(n)

    def var(self, x):
        return self.either(x, ("Variant", {"name": pr(x, "name"), "values": self.comp(pr(x, "values"))}))

    def comp(self, c):
        def f(t):
            if t.op != "adt":
                r = self.rec(t, c)
                return None if r == "ok" else r or vague(t) or ("bad", show(norm(t))[:80])
            k = t.a[1]
            vec = pr(c, k + ".0")
            if k == "Named":
                return shape(t, (k, {"0": filled(self.a, vec, lambda i: pair(pr(i, "0"), self.value(pr(i, "1"))))}), [])
            return shape(t, (k, {"0": filled(self.a, vec, lambda i: self.value(i))}), [])

        return f


@prop("C39")
def c39(rep):
    rep.rule("mapped", "map_context gives the same value with every context replaced by what the function makes of that very context: kinds, contents, names and the order and number of items stay; remove_context does so with ()")
    contexts(rep)
