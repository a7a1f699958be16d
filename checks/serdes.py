"""serde: what visitors are given, what serializers are told, what is built from both."""
from rules import *

DE = "serde_core::de::"
CHANGERS = ("Rev", "Skip", "Take", "StepBy", "SkipWhile", "TakeWhile", "Filter", "FilterMap", "Chain", "Cycle", "Zip", "Flatten", "FlatMap")


# ------------------------------------------------------------ paths
class Path:
    """what one path through a function knows, calls and returns"""

    __slots__ = ("facts", "rels", "evs", "opaque", "l", "val")

    def __init__(self, facts, rels, evs, opaque, l):
        self.facts, self.rels, self.evs, self.opaque, self.l = dict(facts), list(rels), evs, opaque, l
        self.val = l.val if l is not None else None


def every_path(a, keep, judge, known=lambda t: False, limit=200000):
    """judge(Path) at every return; keep(event) -> key of an event to remember, or None.
    Branches on terms that are neither `known` nor about the kind of something are opaque."""

    def step(s, l):
        facts, rels, evs, opaque = s
        if l.kind == "br":
            r = relfacts(l)
            if r:
                return (facts, rels | frozenset(r), evs, opaque)
            t = l.term
            f = frozenset(x for x in facts if x[0] is not t) | {(t, l.out)}
            if not (known(t) or l.out.__class__ is str or l.out.__class__ is tuple or any(x is t or contains(t, x) for _, _, _, x in evs)):
                opaque = True
            return (f, rels, evs, opaque)
        if l.kind == "ev":
            k = keep(l)
            if k is not None:
                if len(evs) < 8:
                    return (facts, rels, evs + ((k, l.span, l.args, l.res),), opaque)
            return s
        if l.kind == "ret":
            return judge(Path(facts, rels, evs, opaque, l))
        return s

    return a.automaton((frozenset(), frozenset(), (), False), step, limit)


def kinds(path, t, every):
    """which variants a term may be on the path"""
    o = path.facts.get(t)
    if o is None:
        return set(every)
    if o.__class__ is tuple:
        if o and o[0] == "not":
            return set(every)
        return set(o) & set(every) or set(every)
    return {o} if o in every else set(every)


DEFS = ("Composite", "Variant", "BitSequence", "Primitive")
PRIMS = ("Bool", "Char", "String", "U128", "U256", "I128", "I256")
COMPS = ("Named", "Unnamed")


def shapes(path, vd=None, comp=None, var=None, prim=None):
    """all (kind, detail) a value may have on a path"""
    if vd is not None:
        for k in sorted(kinds(path, vd, DEFS)):
            if k == "Composite":
                yield from shapes(path, comp=pr(vd, "Composite.0"))
            elif k == "Variant":
                yield from shapes(path, var=pr(vd, "Variant.0"))
            elif k == "Primitive":
                yield from shapes(path, prim=pr(vd, "Primitive.0"))
            else:
                yield ("BitSequence", "", pr(vd, "BitSequence.0"))
    if comp is not None:
        for k in sorted(kinds(path, comp, COMPS)):
            yield ("Composite", k, comp)
    if var is not None:
        for k in sorted(kinds(path, pr(var, "values"), COMPS)):
            yield ("Variant", k, var)
    if prim is not None:
        for k in sorted(kinds(path, prim, PRIMS)):
            yield ("Primitive", k, prim)


def inner(x):
    """the content of wrappers that only pass on what they hold"""
    while True:
        if x.op == "adt" and x.a[1] in ("SeqDeserializer", "MapDeserializer", "Fuse", "Some", "IntoIter", "Item", "PolymorphicIter", "ManuallyDrop", "StringDeserializer", "StrDeserializer"):
            c = [v for n, v in zip(x.a[2], x.a[3:]) if n in ("iter", "0", "inner", "opt", "value", "data")]
            if not c:
                return x
            x = c[0]
        elif x.op == "adt" and len(x.a) == 4 and x.a[2][0] == "0" and (x.a[0].startswith("scale_value") or x.a[1] in ("Left", "Right")):
            x = x.a[3]
        elif x.op == "mut":
            x = x.a[0]
        else:
            return x


def adaptors(x):
    """iterator adaptors around a source: (source, [adaptor terms])"""
    ads = []
    while True:
        x = inner(x)
        if x.op == "adt" and x.a[2] and x.a[2][0] in ("iter", "a") and x.a[0].startswith(("core::iter", "core::option", "alloc::", "core::array")):
            ads.append(x)
            x = x.a[3]
            continue
        if x.op == "call" and x.a[0] == "iter":
            x = x.a[1]
            continue
        return x, ads


def applied(p, clo, *args):
    """the values a closure gives for arguments"""
    if clo.op != "clo":
        return None
    a = An(p, None, inst=clo.a[0], args=[clo] + list(args))
    if not a.complete:
        return None
    return [e.val for e in a.ends("ret")]


def elements(p, arg, vec, named, want):
    """does an access walk the values ("values") or the entries ("entries") of vec in order?
    "ok", "bad..." or a reason"""
    src, ads = adaptors(arg)
    maps = []
    for x in ads:
        n = x.a[1]
        if n in CHANGERS or n == "Enumerate":
            return ("bad", "the items go through %s" % n)
        if n == "Map":
            maps.append(x.a[4])
        elif n not in ("IntoIter", "Iter", "Cloned", "Copied"):
            return "items go through %s" % n
    src = norm(base(src))
    if src is not norm(vec) and src.op == "call" and last(src.a[0]) == "values" and want == "values":
        return "the values are taken by %s" % src.a[0]
    if src is not norm(vec):
        v = vague(src)
        if src.op in ("obj", "adt") and not any(contains(src, y) for y in (vec,)):
            return "the items are collected first" if src.op == "obj" else v or "the items come from something else"
        return v or ("bad", "the items come from %s" % show(src)[:120])
    item = mk("arg", 1, "item")
    x = item
    for f in reversed(maps):
        o = applied(p, f, x)
        if o is None or len(o) != 1:
            return "a closure that is applied to the items is not understood"
        x = o[0]
    exp = pr(item, "1") if named and want == "values" else item
    if x is exp:
        return "ok"
    if named and want == "entries" and x.op == "tup" and list(x.a) == [pr(item, "0"), pr(item, "1")]:
        return "ok"
    return vague(x) or ("bad", "each item becomes %s" % show(norm(x)).replace(show(item), "item")[:120])


# ------------------------------------------------------------ Deserializer
RANGE = {}
for _n in (8, 16, 32, 64, 128):
    RANGE["u%d" % _n] = (0, 2**_n - 1)
    RANGE["i%d" % _n] = (-(2 ** (_n - 1)), 2 ** (_n - 1) - 1)
ANY = ["any", "bool", "f32", "f64", "char", "str", "string", "identifier", "ignored_any"]
NUMS = list(RANGE)
ALL = ANY + NUMS + ["bytes", "byte_buf", "option", "unit", "unit_struct", "newtype_struct", "seq", "tuple", "tuple_struct", "map", "struct", "enum"]
TYPES = ("Value<T>", "ValueDef<T>", "Composite<T>", "Variant<T>", "Primitive")
VISIT = {"Bool": ("visit_bool",), "Char": ("visit_char",), "String": ("visit_string", "visit_str"), "U128": ("visit_u128",), "I128": ("visit_i128",), "U256": ("visit_bytes", "visit_byte_buf"), "I256": ("visit_bytes", "visit_byte_buf")}


def expected(ty, m, k, d):
    """(what the visitor sees, when it may fail instead) for a value of kind k, detail d"""
    top = ty in ("Value<T>", "ValueDef<T>")
    if k == "BitSequence":
        if m in ("newtype_struct", "tuple", "tuple_struct", "unit", "unit_struct", "enum", "bytes", "byte_buf", "seq", "map"):
            return None, "always"
        return ("bits",), None
    anyway = {"Primitive": ("own",), "Variant": ("enum",), "Composite": ("entries",) if d == "Named" else ("values",)}[k]
    if m == "newtype_struct":
        return ("single",), None
    if k == "Primitive":
        if m in NUMS and d in ("U128", "I128"):
            return ("number",), None
        return anyway, None
    if m in ("tuple", "tuple_struct"):
        return ("values",), "length"
    if m in ("unit", "unit_struct"):
        return ("unit",), "not empty"
    if m == "seq":
        return ("values",), None
    if m in ("bytes", "byte_buf") and k == "Composite":
        return ("bytes",), "not bytes"
    if k == "Variant":
        if m == "option" and top and d == "Unnamed":
            return ("option",), None
        if m == "map" or (m == "struct" and ty == "Variant<T>"):
            return (("entries",) if d == "Named" else ("values",)), None
        return anyway, None
    return anyway, None


class De:
    def __init__(self, rep, ty, m):
        self.rep, self.ty, self.m = rep, ty, m
        self.p = prog("all")
        self.name = "Deserializer for %s: deserialize_%s" % (ty.split("<")[0], m)
        r = impl_root(self.p, rep, "<value_type::%s as %sDeserializer<'de>>" % (ty, DE), "deserialize_" + m)
        self.a = An(self.p, r) if r else None
        if self.a:
            rep.saw(self.a)
        self.out = collections.defaultdict(list)
        self.n = collections.Counter()

    def run(self):
        a = self.a
        if not a:
            return self
        if not a.complete:
            self.und("content", a.g.incomplete)
            return self
        s = a.arg(0)
        self.kw = {"Value<T>": lambda: dict(vd=pr(s, "value")), "ValueDef<T>": lambda: dict(vd=s), "Composite<T>": lambda: dict(comp=s), "Variant<T>": lambda: dict(var=s), "Primitive": lambda: dict(prim=s)}[self.ty]()

        def keep(l):
            n = last(l.rec["path"])
            if n.startswith("visit_") and "Visitor" in l.rec["path"]:
                return n
            if l.rec["path"] in REORDER or l.name in REORDER:
                return "reorder"
            return None

        self.bads = every_path(a, keep, self.judge, known=lambda t: False)
        return self

    def und(self, rule, why):
        self.out[rule].append(why)

    def judge(self, P):
        """look at one path for every kind of value it may be about"""
        vis = [e for e in P.evs if e[0] != "reorder"]
        reo = [e for e in P.evs if e[0] == "reorder"]
        for k, d, x in shapes(P, **self.kw):
            self.reo = reo
            r = self.one(P, vis, reo, k, d, x)
            if r.__class__ is Bad:
                return r
        return None

    def one(self, P, vis, reo, k, d, x):
        exp, fail = expected(self.ty, self.m, k, d)
        what = "a %s" % {"BitSequence": "bit sequence", "Composite": "%s composite" % d.lower(), "Variant": "variant", "Primitive": d}[k]
        ret = P.val
        if len(vis) > 1:
            return Bad("content:twice", "the visitor is used twice", vis[1][1])
        if not vis:
            if retkind(ret) != "Err":
                if vague(ret) is None or retkind(ret) == "Ok":
                    return Bad("content:skipped", "%s: gives %s without asking the visitor" % (what, show(norm(ret))[:120]), self.a.span)
                self.und("content", "%s: what is returned cannot be told: %s" % (what, show(norm(ret))[:100]))
                return
            if exp is None:
                self.n["refuse"] += 1
                return
            if fail is None:
                if P.opaque:
                    self.und("refuse", "%s is refused after a test that is not understood" % what)
                    return
                return Bad("refuse:%s" % k, "%s is refused" % what, self.a.span)
            return self.refusal(P, fail, k, d, x, what)
        v = vis[0]
        name, span, args, res = v
        if exp is None:
            return Bad("refuse:accepted %s" % k, "%s is handed to the visitor (%s) although it has no such form" % (what, name), span)
        # the result
        ok = ret is res or norm(ret) is norm(res)
        if not ok and retkind(ret) in ("Ok", "Err"):
            i = okval(ret) if retkind(ret) == "Ok" else errval(ret)
            ok = norm(i) is norm(pr(res, "%s.0" % retkind(ret)))
        if not ok:
            if not contains(ret, res) and retkind(ret) == "Ok" or (retkind(ret) == "Err" and P.facts.get(res) != "Err"):
                return Bad("content:result", "the result of the visitor is replaced by %s" % show(norm(ret))[:120], span)
            if vague(ret, known=[res]) is None and not contains(ret, res):
                return Bad("content:result", "the result of the visitor is replaced by %s" % show(norm(ret))[:120], span)
            self.und("content", "what becomes of the result of the visitor is not understood")
            return
        arg = args[1] if len(args) > 1 else None
        return self.call(P, exp, fail, k, d, x, what, name, arg, span, reo)

    def vec(self, k, d, x):
        c = x if k == "Composite" else pr(x, "values")
        return pr(c, d + ".0")

    def length(self, P, v):
        """possible lengths: (lo, hi, excluded)"""
        return interval([f for f in P.rels if f[0].op == "len" or f[1].op == "len"], mk("len", v), 0)

    def refusal(self, P, fail, k, d, x, what):
        v = self.vec(k, d, x)
        if fail == "not bytes":
            self.n["refuse"] += 1
            return  # looked at on its own
        if fail == "not empty":
            lo, hi, exc = self.length(P, v)
            if lo is not None and lo > 0:
                self.n["refuse"] += 1
                return
        else:
            n = self.a.arg([i for i in range(self.a.nargs()) if self.a.arg(i).a[1] == "len"][0]) if any(self.a.arg(i).a[1] == "len" for i in range(self.a.nargs())) else self.a.arg(1 if self.m == "tuple" else 2)
            r = possible(P.rels, mk("len", v), n)
            if "=" not in r:
                self.n["refuse"] += 1
                return
        if P.opaque:
            self.und("refuse", "%s is refused after a test that is not understood" % what)
            return
        return Bad("refuse:%s" % fail, "%s is refused although its %s" % (what, "length may be right" if fail == "length" else "values may be none"), self.a.span)

    def call(self, P, exp, fail, k, d, x, what, name, arg, span, reo):
        kind = exp[0]
        if kind != "option" and k in ("Composite", "Variant"):
            for e in reo:
                if norm(base(e[2][0])) is norm(self.vec(k, d, x)):
                    return Bad("content:rearranged", "the items of %s are changed before they are handed on" % what, e[1])
        if kind == "own":
            own = pr(x, d + ".0")
            if name not in VISIT[d]:
                return Bad("content:%s as %s" % (d, name), "%s is handed on by %s" % (what, name), span)
            return self.arg_is(arg, own, what, span)
        if kind == "number":
            return self.number(P, d, x, what, name, arg, span)
        if kind == "enum":
            if name != "visit_enum":
                return Bad("content:variant as %s" % name, "a variant is handed on by %s" % name, span)
            if is_adt(arg, "Variant"):
                r = self.arg_is(field(arg, "name"), pr(x, "name"), "the variant's name", span)
                if r:
                    return r
                vs = field(arg, "values")
                if vs.op == "adt" and vs.a[1] in COMPS and len(vs.a) > 3:
                    if vs.a[1] != d:
                        return Bad("content:variant fields", "%s fields of a variant become %s" % (d, vs.a[1]), span)
                    return self.arg_is(base(vs.a[3]), self.vec(k, d, x), "the variant's fields", span)
                return self.arg_is(vs, pr(x, "values"), "the variant's fields", span)
            return self.arg_is(arg, x, "the variant", span)
        if kind == "single":
            if name == "visit_newtype_struct":
                return Bad("content:newtype", "%s becomes a newtype by visit_newtype_struct" % what, span)
            if name != "visit_seq":
                return Bad("content:newtype", "%s is handed on by %s where a newtype is read" % (what, name), span)
            i = inner(arg)
            if i.op == "arr" and len(i.a) == 1:
                i = i.a[0]
            return self.arg_is(i, x, "the only element of the newtype", span)
        if kind == "unit":
            if name != "visit_unit":
                return Bad("content:unit as %s" % name, "%s is handed on by %s where a unit is read" % (what, name), span)
            lo, hi, exc = self.length(P, self.vec(k, d, x))
            if hi != 0:
                if P.opaque:
                    self.und("refuse", "%s becomes a unit after a test that is not understood" % what)
                    return
                return Bad("refuse:unit", "%s becomes a unit although it may hold values" % what, span)
            self.n["refuse"] += 1
            self.n["content"] += 1
            return
        if kind == "bits":
            if name != "visit_map":
                return Bad("content:bits as %s" % name, "a bit sequence is handed on by %s" % name, span)
            self.n["content"] += 1
            return
        if kind == "bytes":
            if name not in ("visit_byte_buf", "visit_bytes"):
                return Bad("content:bytes as %s" % name, "%s is handed on by %s where bytes are read" % (what, name), span)
            self.n["content"] += 1
            return
        if kind == "option":
            return self.option(P, k, d, x, what, name, arg, span, reo)
        # values or entries of a composite
        want = {"values": "visit_seq", "entries": "visit_map"}[kind]
        if name != want:
            return Bad("content:%s as %s" % (k + d, name), "the %s of %s are handed on by %s" % (kind, what, name), span)
        v = self.vec(k, d, x)
        r = elements(self.p, arg, v, d == "Named", kind)
        if r.__class__ is tuple:
            return Bad("content:items", "%s: %s" % (what, r[1]), span)
        if r != "ok":
            self.und("content", r)
            return
        self.n["content"] += 1
        if fail == "length":
            n = [self.a.arg(i) for i in range(self.a.nargs()) if self.a.arg(i).a[1] == "len"] or [self.a.arg(1 if self.m == "tuple" else 2)]
            r = possible(P.rels, mk("len", v), n[0])
            if r != {"="}:
                if P.opaque:
                    self.und("refuse", "a length is tested in a way that is not understood")
                    return
                return Bad("refuse:length", "%s becomes a tuple although its length may be another" % what, span)
            self.n["refuse"] += 1

    def arg_is(self, arg, want, what, span):
        if arg is None:
            self.und("content", "nothing is handed on")
            return None
        for e in self.reo:
            if norm(base(e[2][0])) is norm(want):
                return Bad("content:rearranged", "%s is changed before it is handed on" % what, e[1])
        r = same(arg, want)
        if r == "ok" or norm(base(arg)) is norm(want):
            self.n["content"] += 1
            return None
        x = norm(arg)
        if x.op == "call" and last(x.a[0]) in ("as_str", "as_ref", "deref", "as_slice", "to_vec", "to_owned", "to_string", "clone", "as_bytes") and norm(x.a[1]) is norm(want):
            self.n["content"] += 1
            return None
        if r == "bad":
            return Bad("content:other", "%s becomes %s" % (what, show(norm(arg))[:120]), span)
        self.und("content", r)
        return None

    def number(self, P, d, x, what, name, arg, span):
        own = pr(x, d + ".0")
        lo, hi = RANGE[self.m]
        a, b, exc = interval(P.rels, own, 0 if d == "U128" else RANGE["i128"][0], RANGE[d.lower()][1])
        if name == "visit_" + self.m:
            r = arg
            while r.op == "cast":
                r = r.a[2]
            if norm(r) is not norm(own):
                v = vague(r)
                if v is None:
                    return Bad("number:other", "%s becomes %s" % (what, show(norm(arg))[:120]), span)
                self.und("number", v)
                return
            if a < lo or b > hi:
                if P.opaque:
                    self.und("number", "whether the number fits is tested in a way that is not understood")
                    return
                return Bad("number:cut", "%s becomes %s although it may not fit" % (what, self.m), span)
            t = arg
            while t.op == "cast":
                if RANGE.get(t.a[1]) and not (RANGE[t.a[1]][0] <= a and b <= RANGE[t.a[1]][1]) and (a, b) == (max(a, lo), min(b, hi)):
                    return Bad("number:through", "%s goes through %s" % (what, t.a[1]), span)
                t = t.a[2]
            self.n["number"] += 1
            return
        if name == "visit_" + d.lower():
            if a <= hi and b >= lo:
                if P.opaque:
                    self.und("number", "whether the number fits is tested in a way that is not understood")
                    return
                return Bad("number:not taken", "%s is not handed on as %s although it may fit" % (what, self.m), span)
            self.n["number"] += 1
            return self.arg_is(arg, own, what, span)
        return Bad("number:%s" % name, "%s is handed on by %s where %s is read" % (what, name, self.m), span)

    def option(self, P, k, d, x, what, name, arg, span, reo):
        v = self.vec(k, d, x)
        nm = pr(x, "name")
        lo, hi, exc = self.length(P, v)

        def named(w):
            for t, o in P.facts.items():
                if t.op == "call" and last(t.a[0]) in ("eq", "ne") and any(norm(z) is norm(nm) for z in t.a[1:]) and any(z.op == "str" and z.a[0] == w for z in t.a[1:]):
                    return bool(o) == (last(t.a[0]) == "eq")
            # the other name was found
            for t, o in P.facts.items():
                if t.op == "call" and last(t.a[0]) == "eq" and o is True and any(norm(z) is norm(nm) for z in t.a[1:]) and any(z.op == "str" and z.a[0] != w for z in t.a[1:]):
                    return False
            return None

        eqs = [t for t in P.facts if t.op == "call" and last(t.a[0]) in ("eq", "ne") and any(norm(z) is norm(nm) for z in t.a[1:])]
        strange = any(contains(t, nm) and t not in eqs for t in P.facts) or any(contains(z, nm) for f in P.rels for z in f[:2])
        if name == "visit_some":
            if named("Some") is False or (named("Some") is None and not strange):
                return Bad("option:some", "a variant that may not be called Some is taken as Some", span)
            if not (lo == hi == 1):
                return Bad("option:some length", "a variant that may not hold exactly one value is taken as Some", span)
            src = norm(arg)
            if src.op == "fld" and src.a[1] == "Some" and src.a[0].op == "res":
                ev = [e for e in reo if e[3] is src.a[0] or norm(e[3]) is src.a[0]]
                if ev and norm(base(ev[0][2][0])) is norm(v):
                    self.n["content"] += 1
                    return
                self.und("content", "where the value of Some comes from is not understood")
                return
            return self.arg_is(arg, mk("idx", v, INT(0, "usize")), "the value of Some", span)
        if name == "visit_none":
            if named("None") is False or (named("None") is None and not strange):
                return Bad("option:none", "a variant that may not be called None is taken as None", span)
            if hi != 0:
                return Bad("option:none length", "a variant that holds values may be taken as None", span)
            self.n["content"] += 1
            return
        # neither
        for w, n in (("Some", 1), ("None", 0)):
            fits = (lo is None or lo <= n) and (hi is None or hi >= n) and n not in exc
            if fits and named(w) is not False and not strange:
                return Bad("option:missed", "the variant %s is not taken as an option" % w, span)
        if strange:
            self.und("content", "names of variants are compared in a way that is not understood")
            return
        if name != "visit_enum":
            return Bad("content:variant as %s" % name, "a variant is handed on by %s" % name, span)
        return self.call(P, ("enum",), None, k, d, x, what, name, arg, span, reo)


def deserializers(rep, rules):
    for ty in TYPES:
        for m in ALL:
            key = (ty, m)
            if key not in _de:
                _de[key] = De(rep, ty, m).run()
            x = _de[key]
            if not x.a:
                continue
            rep.saw(x.a)
            if not x.a.complete:
                rep.undecided(rules[0], x.name, x.a.g.incomplete)
                continue
            for b in x.bads:
                r = b.key.split(":")[0]
                r = {"option": "content"}.get(r, r)
                if r in rules:
                    rep.bad(r, x.name, b.msg, b.where, b.path)
            for r in rules:
                for u in sorted(set(x.out[r])):
                    rep.undecided(r, x.name, u)
                if x.n[r]:
                    rep.ok(r, x.name, x.n[r])


_de = {}


def bits_source(rep, rule):
    """every bit goes into the map that stands for a bit sequence"""
    p = prog("all")
    for ty in ("Value<T>", "ValueDef<T>"):
        r = impl_root(p, rep, "<value_type::%s as %sDeserializer<'de>>" % (ty, DE), "deserialize_any")
        if not r:
            continue
        a = An(p, r)
        s = a.arg(0)
        b = norm(pr(pr(s, "value") if ty.startswith("Value<") else s, "BitSequence.0"))
        name = "Deserializer for %s: bits" % ty.split("<")[0]

        def source(l):
            if last(l.rec["path"]) != "next" or not l.args:
                return False
            return contains(norm(base(l.args[0])), b) or norm(base(l.args[0])) is b

        def strange(l):
            return l.kind == "ev" and last(l.rec["path"]) == "next" and l.args and contains(norm(base(l.args[0])), b) and norm(base(l.args[0])).op == "adt"

        def expect(v, R, l, extra):
            return same(v, pr(R, "Some.0"), known=[R])

        t = Transfer(a, source, is_push, expect, allow_stop=lambda l, s: s[2] == 0)
        t.run(rep, rule, name)
        if not t.moves:
            rep.undecided(rule, name, "the bits are not seen to be collected one by one")
        for e in a.events(strange):
            x, ads = adaptors(e.args[0])
            for y in ads:
                if y.a[1] in CHANGERS:
                    rep.bad(rule, name, "the bits go through %s" % y.a[1], e.span)
        # all of them are handed on
        n = [0]

        def step(s, l):
            ph = s
            if l.kind == "ev":
                if source(l):
                    return l.res
                if last(l.rec["path"]) == "visit_map" and ph is not UNIT:
                    if ph.op != "str":
                        return Bad("bits early", "the bits are handed on before all are collected", l.span)
                    n[0] += 1
            if l.kind == "br" and l.term is ph and l.out == "None":
                return mk("str", "end")
            return s

        for x in a.automaton(UNIT, step):
            rep.bad(rule, name, x.msg, x.where, x.path)


def bytes_source(rep, rule, refuse=False):
    """reading a composite as bytes gives one byte for each value, or fails (refuse: only for a value that does not fit)"""
    p = prog("all")
    for ty in ("Value<T>", "ValueDef<T>", "Composite<T>"):
        for m in ("bytes", "byte_buf"):
            r = impl_root(p, rep, "<value_type::%s as %sDeserializer<'de>>" % (ty, DE), "deserialize_" + m)
            if not r:
                continue
            a = An(p, r)
            rep.saw(a)
            s = a.arg(0)
            name = "Deserializer for %s: deserialize_%s" % (ty.split("<")[0], m)
            c = {"Value<T>": lambda: pr(s, "value.Composite.0"), "ValueDef<T>": lambda: pr(s, "Composite.0"), "Composite<T>": lambda: s}[ty]()
            vecs = {pr(c, k + ".0"): k for k in COMPS}
            if not a.complete:
                rep.undecided(rule, name, a.g.incomplete)
                continue
            und = set()
            n = [0]

            def vec_of(t):
                t = norm(base(t))
                src, ads = adaptors(t)
                src = norm(base(src))
                return (src, ads) if src in vecs else None

            # state: (vec, R, phase, facts)
            def step(st, l):
                vec, R, ph, facts = st
                if l.kind == "ev":
                    pth = l.rec["path"]
                    if last(pth) in ("next", "next_back") and l.args:
                        vo = vec_of(l.args[0])
                        if vo:
                            for x in vo[1]:
                                if x.a[1] in CHANGERS:
                                    return Bad("bytes", "the values go through %s" % x.a[1], l.span)
                            if last(pth) == "next_back":
                                return Bad("bytes", "the values are taken from the end", l.span)
                            if ph == "item" and not refuse:
                                return Bad("bytes", "a value is left out of the bytes", l.span)
                            return (vo[0], l.res, "asked", frozenset())
                    if refuse:
                        return st
                    v = is_push(l)
                    if v is not None and R is not UNIT:
                        if ph != "item":
                            return Bad("bytes", "a byte is added that no value stands for", l.span)
                        x = pr(R, "Some.0.1" if vecs[vec] == "Named" else "Some.0")
                        num = pr(x, "value.Primitive.0.U128.0")
                        q = v
                        while q.op == "cast":
                            q = q.a[2]
                        if norm(q) is not norm(num):
                            w = vague(q)
                            if w is None:
                                return Bad("bytes", "a byte is %s instead of the value" % show(norm(v))[:120], l.span)
                            und.add("where a byte comes from cannot be told: %s" % w)
                            return None
                        lo, hi, exc = interval(facts, num, 0)
                        if hi is None or hi > 255:
                            if any(f[0] is norm(num) or f[1] is norm(num) or f[0] is num for f in facts) and hi is None:
                                und.add("whether a value fits into a byte is tested in a way that is not understood")
                                return None
                            return Bad("bytes", "a value that may not fit becomes a byte", l.span)
                        n[0] += 1
                        return (vec, R, "idle", facts)
                    if last(pth) in ("visit_byte_buf", "visit_bytes") and R is not UNIT:
                        if ph != "end":
                            return Bad("bytes", "the bytes are handed on before all values were looked at", l.span)
                    if last(pth) in ("visit_byte_buf", "visit_bytes") and R is UNIT and contains_any(l.args[1], vecs):
                        und.add("the bytes are collected in a way that is not followed")
                    return st
                if l.kind == "br":
                    if R is not UNIT and l.term is R:
                        return (vec, R, "end" if l.out == "None" else "item", facts)
                    if ph == "item":
                        fs = relfacts(l)
                        if fs:
                            return (vec, R, ph, facts | frozenset(fs))
                        if refuse:
                            return (vec, R, ph, facts | {("is", l.term, l.out)})
                    return st
                if l.kind == "ret" and refuse and R is not UNIT and retkind(l.val) == "Err":
                    if ph == "end":
                        return st
                    if ph != "item":
                        und.add("bytes are refused where no value was looked at")
                        return st
                    x = pr(R, "Some.0.1" if vecs[vec] == "Named" else "Some.0")
                    num = pr(x, "value.Primitive.0.U128.0")
                    kinds_ok = True
                    strange = False
                    for f in facts:
                        if f[0] == "is":
                            t = norm(f[1])
                            want = {norm(pr(x, "value")): "Primitive", norm(pr(x, "value.Primitive.0")): "U128"}.get(t)
                            if want is None:
                                strange = strange or contains(t, norm(x))
                            elif f[2].__class__ is tuple:
                                if f[2][0] == "not" and want in f[2][1:] or f[2][0] != "not" and want not in f[2]:
                                    kinds_ok = False
                            elif f[2] != want:
                                kinds_ok = False
                    lo, hi, exc = interval([f for f in facts if f[0] != "is"], num, 0)
                    n[0] += 1
                    if not kinds_ok or (lo is not None and lo > 255):
                        return st
                    if strange or any(contains(norm(z), norm(num)) and norm(z) is not norm(num) for f in facts if f[0] != "is" for z in f[:2] if hasattr(z, "op")):
                        und.add("bytes are refused after a test that is not understood")
                        return st
                    return Bad("refused", "a value that may fit into a byte is refused", a.span)
                return st

            bads = a.automaton((UNIT, UNIT, "start", frozenset()), step)
            for b in bads:
                rep.bad(rule, name, b.msg, b.where, b.path)
            for u in und:
                rep.undecided(rule, name, u)
            if n[0]:
                rep.ok(rule, name, n[0])
            elif not bads and not und:
                rep.undecided(rule, name, "no bytes are collected")


def contains_any(t, vs):
    return any(contains(norm(t), v) for v in vs)


def access(rep, rule):
    """reading the name of a variant and what it holds"""
    p = prog("all")
    r = impl_root(p, rep, "<value_type::Variant<T> as %sEnumAccess<'de>>" % DE, "variant_seed")
    if r:
        a = An(p, r)
        rep.saw(a)
        name = "EnumAccess for Variant: variant_seed"
        s = a.arg(0)
        n = [0]
        und = set()

        def judge(P):
            if len(P.evs) != 1:
                if retkind(P.val) == "Err" and not P.evs:
                    return Bad("seed", "fails without looking at the name", a.span)
                und.add("the name is read %d times" % len(P.evs))
                return
            k, span, args, res = P.evs[0]
            nm = norm(inner(args[1]))
            w = same(nm, pr(s, "name"))
            if w != "ok" and nm is not norm(pr(s, "name")):
                if w == "bad" or (nm.op == "call" and any(contains(x, norm(pr(s, "name"))) for x in nm.a[1:]) and last(nm.a[0]) not in ("as_str", "deref", "clone", "into")):
                    return Bad("seed name", "the name of the variant is read from %s" % show(nm)[:100], span)
                und.add(w)
                return
            if retkind(P.val) == "Ok":
                v = okval(P.val)
                if P.facts.get(res) == "Err":
                    return Bad("seed result", "succeeds although the name could not be read", span)
                if v.op != "tup" or len(v.a) != 2:
                    und.add("what is returned is not understood")
                    return
                for x, w, what in ((v.a[0], pr(res, "Ok.0"), "name"), (v.a[1], pr(s, "values"), "fields")):
                    q = same(x, w)
                    if q == "bad":
                        return Bad("seed " + what, "gives %s as the %s of the variant" % (show(norm(x))[:100], what), span)
                    if q != "ok":
                        und.add(q)
                        return
                n[0] += 1

        bads = every_path(a, lambda l: "seed" if last(l.rec["path"]) == "deserialize" and "DeserializeSeed" in l.rec["path"] else None, judge)
        finish(rep, rule, name, bads, und, n[0])
    tr = "<value_type::Composite<T> as %sVariantAccess<'de>>" % DE
    r = impl_root(p, rep, tr, "newtype_variant_seed")
    if r:
        a = An(p, r)
        name = "VariantAccess for Composite: newtype_variant_seed"
        und, n = set(), [0]

        def judge(P):
            if len(P.evs) != 1:
                return Bad("newtype", "what a variant holds is not read" if not P.evs else "what a variant holds is read twice", a.span)
            k, span, args, res = P.evs[0]
            q = same(args[1], a.arg(0))
            if q == "bad":
                return Bad("newtype", "what a variant holds is read from %s" % show(norm(args[1]))[:100], span)
            if q != "ok" or norm(P.val) is not norm(res):
                und.add(q)
                return
            n[0] += 1

        bads = every_path(a, lambda l: "seed" if last(l.rec["path"]) == "deserialize" and "DeserializeSeed" in l.rec["path"] else None, judge)
        finish(rep, rule, name, bads, und, n[0])
    for m, as_ in (("unit_variant", "unit"), ("tuple_variant", "tuple"), ("struct_variant", "any")):
        r = impl_root(p, rep, tr, m)
        if not r:
            continue
        a = An(p, r)
        rep.saw(a)
        name = "VariantAccess for Composite: " + m
        d = De.__new__(De)
        d.rep, d.ty, d.m, d.p, d.name, d.a = rep, "Composite<T>", as_, p, name, a
        d.out, d.n = collections.defaultdict(list), collections.Counter()
        d.kw = dict(comp=a.arg(0))
        if m == "unit_variant":
            n, und = [0], set()

            def judge(P):
                for k, dd, x in shapes(P, comp=a.arg(0)):
                    lo, hi, exc = d.length(P, d.vec(k, dd, x))
                    if retkind(P.val) == "Ok" and hi != 0:
                        if P.opaque:
                            und.add("a length is tested in a way that is not understood")
                            continue
                        return Bad("unit", "a variant that may hold values is read as a unit variant", a.span)
                    if retkind(P.val) == "Err" and not lo:
                        if P.opaque:
                            und.add("a length is tested in a way that is not understood")
                            continue
                        return Bad("unit", "a variant that may be empty is refused as a unit variant", a.span)
                    if retkind(P.val) is None:
                        und.add("what is returned is not understood")
                    else:
                        n[0] += 1

            bads = every_path(a, lambda l: None, judge)
            finish(rep, rule, name, bads, und, n[0])
            continue

        def keep(l):
            q = last(l.rec["path"])
            return q if q.startswith("visit_") and "Visitor" in l.rec["path"] else "reorder" if l.rec["path"] in REORDER or l.name in REORDER else None

        bads = every_path(a, keep, d.judge)
        finish(rep, rule, name, bads, {u for us in d.out.values() for u in us}, d.n["content"])
    # conversion into deserializers
    for ty in ("Value<T>", "Composite<T>", "Variant<T>", "Primitive"):
        r = impl_root(p, rep, "<value_type::%s as %sIntoDeserializer<'de, serde_impls::deserializer::DeserializerError>>" % (ty, DE), "into_deserializer")
        if r:
            a = An(p, r)
            rep.saw(a)
            returned(a, rep, rule, "IntoDeserializer for " + ty.split("<")[0], lambda v: same(v, a.arg(0)))


def finish(rep, rule, name, bads, und, n):
    for b in bads:
        rep.bad(rule, name, b.msg, b.where, b.path)
    for u in und:
        rep.undecided(rule, name, str(u))
    if not bads and not und:
        if n:
            rep.ok(rule, name, n)
        else:
            rep.undecided(rule, name, "nothing was looked at")


@prop("C28")
def c28(rep):
    rep.rule("content", "for every kind of value and every deserialize method: the visitor is called once, by the method for that kind, with the value's own content, all items in order; its result is the result")
    rep.rule("bits", "the map that stands for a bit sequence holds every bit, in order")
    rep.rule("bytes", "bytes are read from composites of numbers below 256: one byte for each value, in order")
    rep.rule("access", "a variant is read as its own name and its own fields, in the form that is asked for")
    deserializers(rep, ["content"])
    bits_source(rep, "bits")
    bytes_source(rep, "bytes")
    access(rep, "access")


@prop("C29")
def c29(rep):
    rep.rule("number", "an integer is handed to the visitor in the type that is read exactly if it is in the range of that type, unchanged; otherwise in its own type")
    deserializers(rep, ["number"])


@prop("C30")
def c30(rep):
    rep.rule("refuse", "tuples need the right length, units no values, bit sequences are only maps; nothing else is refused")
    rep.rule("bytes", "a composite is refused as bytes only because of a value that is no number below 256")
    deserializers(rep, ["refuse"])
    bytes_source(rep, "bytes", refuse=True)
