"""serde, the other way round: what serializers are told about values, what values are made of serde data."""
from rules import *
from serdes import *

SER = "serde_core::ser::"
VIS = "serde_core::de::Visitor<'de>"


def value_of(vd):
    return ("Value", vd)


def shape(t, spec, bind):
    """does a term have the form `spec`? spec: (Variant name, {field: spec}) | Term | callable(term) -> None / "bad" / reason
    None if so, ("bad", why) or a reason for not knowing"""
    if spec.__class__ is Term:
        r = same(t, spec, known=bind)
        if r == "ok" or norm(base(t)) is norm(spec) and t.op != "mut":
            return None
        x = norm(t)
        if x.op == "call" and last(x.a[0]) in ("into", "to_string", "to_owned", "from", "clone", "to_vec") and norm(x.a[-1]) is norm(spec) and all(z.__class__ is not Term or z.op == "str" for z in x.a[1:-1]):
            return None
        return ("bad", "%s instead of %s" % (show(x)[:100], show(norm(spec))[:60])) if r == "bad" else r
    if callable(spec):
        return spec(t)
    if spec[0] == "str":
        x = norm(t)
        while x.op == "call" and last(x.a[0]) in ("into", "to_string", "to_owned", "from") and len(x.a) == 2:
            x = x.a[1]
        if x.op == "str":
            return None if x.a[0] == spec[1] else ("bad", "the text %r instead of %r" % (x.a[0], spec[1]))
        return vague(x) or ("bad", "%s instead of the text %r" % (show(x)[:80], spec[1]))
    name, fs = spec
    if t.op != "adt":
        if t.op == "tup" and name == "()":
            return None if not t.a else ("bad", "not ()")
        return vague(t, bind) or ("bad", "%s is no %s" % (show(norm(t))[:80], name))
    if t.a[1] != name:
        return ("bad", "%s instead of %s" % (t.a[1], name))
    for f, s in fs.items():
        x = field(t, f)
        if x is None:
            return "%s has no field %s" % (name, f)
        r = shape(x, s, bind)
        if r is not None:
            return r
    return None


def Val(vd):
    return ("Value", {"value": vd})


def Prim(k, x):
    return ("Primitive", {"0": (k, {"0": x})})


def Comp(k, x):
    return ("Composite", {"0": (k, {"0": x})})


def Vari(name, k, x):
    return ("Variant", {"0": ("Variant", {"name": name, "values": (k, {"0": x})})})


def Ok(x):
    return ("Ok", {"0": x})


def empty(a):
    """a new, empty container nothing was added to"""
    pushed = {base(e.args[0]) for e in a.events(lambda l: last(l.rec["path"]).startswith(("push", "extend", "insert", "append")) or l.rec["path"] == "verif_models::emit") if e.args}

    def f(t):
        b = base(t)
        if b.op == "arr":
            return None if not b.a else ("bad", "values that nobody gave")
        if b.op != "obj" or not b.a[2].endswith("::new"):
            return vague(b) or ("bad", "%s instead of nothing" % show(norm(b))[:80])
        if b in pushed:
            o = origin(a, b)
            return f(o) if o is not None else ("bad", "values that nobody gave")
        return None

    return f


def origin(a, c):
    """the container whose items were all moved into c"""
    srcs = set()
    for e in a.events(lambda l: is_push(l) is not None and base(l.args[0]) is c):
        v = e.args[1]
        while v.op == "fld":
            v = v.a[0]
        if v.op != "res":
            return None
        for n in a.events(lambda l: last(l.rec["path"]) == "next" and l.args and norm(l.res) is norm(v)):
            srcs.add(base(adaptors(n.args[0])[0]))
    if len(srcs) != 1:
        return None
    s = list(srcs)[0]
    return s if moved(a, norm(s), norm(c), False) is None else None


def from_any(a, c, conts):
    """c holds what one of the containers held"""
    for _ in range(3):
        if c.op != "obj":
            return False
        c = origin(a, c)
        if c is None:
            return False
        if c in conts:
            return True
    return False


def loops(a, c):
    """is something added to c more than once (or perhaps not at all) on a path"""

    def step(s, l):
        if l.kind == "ev" and is_push(l) is not None and base(l.args[0]) is c:
            if s:
                return Bad("again", "", "")
            return 1
        if l.kind == "ret" and not s and contains(l.val, c):
            return Bad("none", "", "")
        return s

    return bool(a.automaton(0, step))


def one(x, a=None):
    def f(t):
        b = base(t)
        if b.op == "obj" and a is not None:
            vs = [e.args[1] for e in a.events(lambda l: is_push(l) is not None and base(l.args[0]) is b)]
            if len({e.span for e in a.events(lambda l: is_push(l) is not None and base(l.args[0]) is b)}) == 1 and not loops(a, b):
                b = mk("arr", vs[0])
            else:
                b = origin(a, b) or b
        if b.op == "arr":
            if len(b.a) != 1:
                return ("bad", "%d values instead of one" % len(b.a))
            r = same(b.a[0], x, known=[x])
            return None if r == "ok" else ("bad", "%s instead of the value" % show(norm(b.a[0]))[:80]) if r == "bad" else r
        return "how the values are collected is not followed"

    return f


def either(*specs):
    def f(t):
        rs = [shape(t, s, ()) for s in specs]
        return None if None in rs else rs[0]

    return f


def give(rep, rule, name, a, spec, err=None, bind=()):
    """every return has the form; err(e) judges refusals"""
    if not a.complete:
        rep.undecided(rule, name, a.g.incomplete)
        return
    rep.saw(a)
    ok = 0
    seen = set()
    for e in a.ends("ret"):
        if e.val in seen:
            continue
        seen.add(e.val)
        if retkind(e.val) == "Err" and err is not None:
            r = err(e)
        else:
            r = shape(e.val, spec, bind)
        if r is None:
            ok += 1
        elif r.__class__ is tuple:
            rep.bad(rule, name, "gives " + r[1], a.span)
        else:
            rep.undecided(rule, name, str(r))
    if ok:
        rep.ok(rule, name, ok)
    elif not seen:
        rep.bad(rule, name, "never returns", a.span)


def never_err(e):
    return ("bad", "an error although nothing can go wrong")


# ------------------------------------------------------------ ValueSerializer
VS = "<serde_impls::serializer::ValueSerializer as %sSerializer>" % SER
INTS = {m: ("I128" if m[0] == "i" else "U128") for m in NUMS}


def is_serialize(l):
    return l.kind == "ev" and l.rec["path"] == SER + "Serialize::serialize"


def err_of(R):
    def f(e):
        x = errval(e.val)
        r = same(x, pr(R, "Err.0"), known=[R])
        return None if r == "ok" else ("bad", "%s instead of the error of the value inside" % show(norm(x))[:80]) if r == "bad" else r

    return f


def the_result(a, arg):
    """the result of serializing an argument with a new serializer: (term, problem)"""
    evs = a.events(is_serialize)
    rs = {e.res for e in evs}
    if len(rs) != 1:
        return None, "the value inside is serialized in %d places" % len(rs)
    e = evs[0]
    if norm(e.args[0]) is not norm(arg):
        return None, ("bad", "what is serialized is %s" % show(norm(e.args[0]))[:80])
    return e.res, None


def nested(rep, rule, name, p, r, argn, spec):
    a = An(p, r)
    R, why = the_result(a, a.arg(argn))
    if R is None:
        if why.__class__ is tuple:
            rep.bad(rule, name, why[1], a.span)
        else:
            rep.undecided(rule, name, why)
        return
    give(rep, rule, name, a, spec(a, pr(R, "Ok.0")), err_of(R), [R])
    err_propagation(a, rep, rule, name + " (errors)")


def serializer(rep):
    p = prog("all")

    def root(m):
        return impl_root(p, rep, VS, m)

    for m, k in list(INTS.items()) + [("bool", "Bool"), ("char", "Char"), ("str", "String")]:
        r = root("serialize_" + m)
        if r:
            a = An(p, r)
            give(rep, "kinds", "serialize_" + m, a, Ok(Val(Prim(k, a.arg(1)))), never_err)
    for m in ("f32", "f64"):
        r = root("serialize_" + m)
        if r:
            a = An(p, r)
            give(rep, "kinds", "serialize_" + m, a, lambda t: ("bad", "a value for a float") if retkind(t) == "Ok" else None, lambda e: None)
    for m, spec in (
        ("none", lambda a: Vari(("str", "None"), "Unnamed", empty(a))),
        ("unit", lambda a: Comp("Unnamed", empty(a))),
        ("unit_struct", lambda a: Comp("Unnamed", empty(a))),
        ("unit_variant", lambda a: Vari(a.arg(3), "Unnamed", empty(a))),
    ):
        r = root("serialize_" + m)
        if r:
            a = An(p, r)
            give(rep, "kinds", "serialize_" + m, a, Ok(Val(spec(a))), never_err)
    for m, n, spec in (
        ("some", 1, lambda a, x: Vari(("str", "Some"), "Unnamed", one(x, a))),
        ("newtype_struct", 2, lambda a, x: Comp("Unnamed", one(x, a))),
        ("newtype_variant", 4, lambda a, x: Vari(a.arg(3), "Unnamed", one(x, a))),
    ):
        r = root("serialize_" + m)
        if r:
            nested(rep, "kinds", "serialize_" + m, p, r, n, lambda a, x: Ok(Val(spec(a, x))))
    r = root("serialize_bytes")
    if r:
        a = An(p, r)
        bytes_to_values(rep, "kinds", "serialize_bytes", a, lambda c: Ok(Val(Comp("Unnamed", c))))
    # everything that is collected
    for m, tr, el, k, name in (
        ("seq", "SerializeSeq", "serialize_element", "Unnamed", None),
        ("tuple", "SerializeTuple", "serialize_element", "Unnamed", None),
        ("tuple_struct", "SerializeTupleStruct", "serialize_field", "Unnamed", None),
        ("tuple_variant", "SerializeTupleVariant", "serialize_field", "Unnamed", 3),
        ("map", "SerializeMap", None, "Named", None),
        ("struct", "SerializeStruct", "serialize_field", "Named", None),
        ("struct_variant", "SerializeStructVariant", "serialize_field", "Named", 3),
    ):
        r = root("serialize_" + m)
        if r:
            collected(rep, p, r, m, tr, el, k, name)


def bytes_to_values(rep, rule, name, a, spec):
    src = a.arg(1)
    rep.saw(a)

    def source(l):
        if last(l.rec["path"]) not in ("next", "next_back") or not l.args:
            return False
        s, ads = adaptors(l.args[0])
        return norm(base(s)) is norm(src)

    for e in a.events(source):
        s, ads = adaptors(e.args[0])
        if last(e.rec["path"]) == "next_back":
            rep.bad(rule, name, "the bytes are taken from the end", e.span)
        for x in ads:
            if x.a[1] in CHANGERS:
                rep.bad(rule, name, "the bytes go through %s" % x.a[1], e.span)

    def expect(v, R, l, extra):
        r = shape(v, Val(Prim("U128", pr(R, "Some.0"))), [R])
        return "ok" if r is None else r

    t = Transfer(a, source, is_push, expect)
    t.run(rep, rule, name)
    if not t.moves:
        rep.undecided(rule, name, "the bytes are not seen to be collected one by one")
        return
    conts = t.containers
    give(rep, rule, name + " (result)", a, spec(lambda c: None if base(c) in conts or from_any(a, base(c), conts) else vague(base(c)) or ("bad", "something else than the bytes: %s" % show(norm(c))[:80])), never_err)


def replace_in(t, old, new):
    return subst(t, lambda x: new if x is old else None, {})


def collected(rep, p, r, m, tr, el, k, namearg):
    """serialize_seq & co: nothing at first, one more for every element, everything at the end"""
    label = "serialize_" + m
    a = An(p, r)
    rep.saw(a)
    if not a.complete:
        rep.undecided("collect", label, a.g.incomplete)
        return
    states = {e.val for e in a.ends("ret")}
    if any(retkind(s) == "Err" for s in states):
        rep.bad("collect", label, "refuses although nothing can go wrong", a.span)
        return
    if len(states) != 1 or retkind(list(states)[0]) != "Ok":
        rep.undecided("collect", label, "what it starts with is not understood")
        return
    S = okval(list(states)[0])
    if S.op != "adt":
        rep.undecided("collect", label, "what it starts with is not understood")
        return
    ty = S.a[0]
    # where the elements go
    item = impl_root(p, rep, "<%s as %s%s>" % (ty, SER, tr), el or "serialize_value")
    end = impl_root(p, rep, "<%s as %s%s>" % (ty, SER, tr), "end")
    if not item or not end:
        return
    vecf = [f for f, v in zip(S.a[2], S.a[3:]) if base(v).op == "obj" and base(v).a[2].startswith("alloc::vec::Vec")]
    if len(vecf) != 1:
        rep.undecided("collect", label, "where the values are collected is not understood")
        return
    vf = vecf[0]
    v0 = field(S, vf)
    if empty(a)(v0) is not None:
        rep.bad("collect", label, "starts with values that nobody gave", a.span)
        return
    # the end: whatever was collected, under the right name
    items = mk("arg", 90, "collected")
    S1 = replace_in(S, v0, items)
    b = An(p, end, args=[S1])
    rep.saw(b)
    name = a.arg(namearg) if namearg is not None else None

    for e in b.events(lambda l: (l.rec["path"] in REORDER or l.name in REORDER) and l.args and contains(norm(l.args[0]), items)):
        rep.bad("collect", label + ": end", "%s on the values collected" % e.name, e.span)

    def content(c):
        c0 = norm(base(c))
        if c0 is norm(items):
            return None
        # one by one into another container
        if c0.op == "obj":
            return moved(b, items, c0, k == "Named")
        return vague(c0) or ("bad", "%s instead of the values" % show(c0)[:80])

    want = Vari(name, k, content) if name is not None else Comp(k, content)
    give(rep, "collect", label + ": end", b, Ok(Val(want)), never_err)
    # one element
    c = An(p, item)
    rep.saw(c)
    pair = k == "Named"
    R, why = the_result(c, c.arg(c.nargs() - 1))
    if R is None:
        if why.__class__ is tuple:
            rep.bad("collect", label + ": element", why[1], c.span)
        else:
            rep.undecided("collect", label + ": element", why)
        return
    val = pr(R, "Ok.0")
    n = [0]
    und = set()
    keyterm = None
    if pair and el:
        keyterm = c.arg(1)
    s = c.arg(0)

    def step(st, l):
        ph = st
        if l.kind == "ev":
            v = is_push(l)
            if v is not None and contains(norm(base(l.args[0])), s):
                if ph == 1:
                    return Bad("twice", "an element is stored twice", l.span)
                if norm(base(l.args[0])) is not norm(pr(s, vf)):
                    und.add("an element is stored in %s" % show(norm(base(l.args[0])))[:60])
                    return None
                if pair:
                    if v.op != "tup" or len(v.a) != 2:
                        und.add("what is stored is not understood")
                        return None
                    r = shape(v.a[1], val, [R])
                    if r is None and keyterm is not None:
                        r = shape(v.a[0], keyterm, [R])
                        if r.__class__ is tuple:
                            r = ("bad", "under the name " + r[1])
                    if r is None and keyterm is None:
                        q = norm(v.a[0])
                        while q.op == "fld" and q.a[1] == "Some":
                            q = q.a[0]
                        pend = [f for f, z in zip(S.a[2], S.a[3:]) if z.op == "adt" and z.a[1] == "None" and f != vf]
                        if q.op == "fld" and q.a[0] is s and q.a[2] in pend:
                            keyfields.add(q.a[2])
                        else:
                            r = vague(q) or ("bad", "under the name %s" % show(q)[:80])
                else:
                    r = shape(v, val, [R])
                if r.__class__ is tuple:
                    return Bad("element", "an element is stored %s" % r[1], l.span)
                if r is not None:
                    und.add(r)
                    return None
                n[0] += 1
                return 1
            if (l.rec["path"] in REORDER or l.name in REORDER) and l.args and norm(base(l.args[0])) is norm(pr(s, vf)):
                return Bad("rearranged", "%s on the values collected" % l.name, l.span)
        if l.kind == "ret":
            kd = retkind(l.val)
            if kd == "Ok" and ph == 0:
                return Bad("lost", "an element is not stored", c.span)
            if kd == "Err" and ph == 1:
                return Bad("refused", "an element is stored and refused", c.span)
            if kd is None:
                und.add("what is returned is not understood")
        return st

    keyfields = set()
    bads = c.automaton(0, step)
    finish(rep, "collect", label + ": element", bads, und, n[0])
    give_err(rep, "collect", label + ": element (errors)", c, R)
    if pair and not el:
        key_rule(rep, p, ty, S, keyfields, label)
    # an own version of the combined method
    comb = p.byref.get(("<%s as %s%s>" % (ty, SER, tr), "serialize_entry"))
    if comb:
        rep.undecided("collect", label + ": serialize_entry", "own version of serialize_entry")


def moved(b, src, cont, pair):
    """every item of src is pushed to the container, in order"""
    rep = _Collect()

    def source(l):
        return last(l.rec["path"]) in ("next", "next_back") and l.args and norm(base(adaptors(l.args[0])[0])) is norm(src)

    for e in b.events(source):
        if last(e.rec["path"]) == "next_back" or any(x.a[1] in CHANGERS for x in adaptors(e.args[0])[1]):
            return ("bad", "the values in another order or number")

    def expect(v, R, l, extra):
        i = pr(R, "Some.0")
        if pair and v.op == "tup" and len(v.a) == 2 and norm(v.a[0]) is norm(pr(i, "0")) and norm(v.a[1]) is norm(pr(i, "1")):
            return "ok"
        return same(v, i, known=[R])

    t = Transfer(b, source, is_push, expect, allow_stop=lambda l, s: s[2] == 0)
    t.run(rep, "", "")
    if rep.bads:
        return ("bad", "other values than those collected: " + rep.bads[0])
    if rep.unds:
        return rep.unds[0]
    if not t.moves or cont not in {norm(x) for x in t.containers}:
        return "how the values are moved is not understood"
    return None


class _Collect:
    def __init__(self):
        self.bads, self.unds = [], []

    def bad(self, rule, inst, msg, where="", path=None):
        self.bads.append(msg)

    def undecided(self, rule, inst, why):
        self.unds.append(str(why))

    def ok(self, *a, **k):
        pass


def give_err(rep, rule, name, a, R):
    e = err_of(R)
    n = 0
    for x in a.ends("ret"):
        if retkind(x.val) == "Err":
            r = e(x)
            if r.__class__ is tuple:
                rep.bad(rule, name, "gives " + r[1], a.span)
            elif r is not None:
                rep.undecided(rule, name, r)
            else:
                n += 1
    err_propagation(a, rep, rule, name)


def key_rule(rep, p, ty, S, keyfields, label):
    """the key of a map entry: the text or the character it serializes to"""
    r = impl_root(p, rep, "<%s as %sSerializeMap>" % (ty, SER), "serialize_key")
    if not r:
        return
    a = An(p, r)
    rep.saw(a)
    name = label + ": key"
    R, why = the_result(a, a.arg(1))
    if R is None:
        if why.__class__ is tuple:
            rep.bad("collect", name, why[1], a.span)
        else:
            rep.undecided("collect", name, why)
        return
    if len(keyfields) != 1:
        rep.undecided("collect", name, "where the key is kept is not understood")
        return
    kf = list(keyfields)[0]
    d = pr(R, "Ok.0.value")
    s = a.arg(0)
    und = set()
    n = [0]

    def judge(P):
        if P.facts.get(R) == "Err":
            if retkind(P.val) == "Ok":
                return Bad("key error", "goes on with a key that failed", a.span)
            n[0] += 1
            return
        prim = pr(d, "Primitive.0")
        for k, dd, x in shapes(P, vd=d):
            texts = k == "Primitive" and dd in ("String", "Char")
            kd = retkind(P.val)
            if kd == "Err":
                if texts:
                    if any(vague(t, [R]) for t in P.facts):
                        und.add("a key is refused after a test that is not understood")
                        continue
                    return Bad("key refused", "a %s is refused as a key" % dd, a.span)
                n[0] += 1
                continue
            if kd != "Ok":
                und.add("what is returned is not understood")
                continue
            if not texts:
                return Bad("key accepted", "a %s is accepted as a key" % (dd if k == "Primitive" else k), a.span)
            st = P.l.mem.get(s)
            q = field(st, kf) if st is not None and st.op == "adt" else upd_field(st, kf)
            if q is None:
                if st is None:
                    return Bad("key lost", "the key is not kept", a.span)
                und.add("what is kept is not understood")
                continue
            rr = shape(q, ("Some", {"0": pr(prim, dd + ".0")}), [R])
            if rr.__class__ is tuple:
                return Bad("key changed", "the key is kept as " + rr[1], a.span)
            if rr is not None:
                und.add(rr)
                continue
            n[0] += 1

    bads = every_path(a, lambda l: None, judge, known=lambda t: t is R)
    finish(rep, "collect", name, bads, und, n[0])


def upd_field(t, f):
    if t is None:
        return None
    if t.op == "upd":
        for kk, x in zip(t.a[1], t.a[2:]):
            if kk[0] == "f" and kk[2] == f:
                return x
    return None


@prop("C31")
def c31(rep):
    rep.rule("kinds", "every serialize method gives the value of its kind with its own content; floats are refused")
    rep.rule("collect", "sequences, tuples, structs and maps start empty, every element adds exactly itself under its own name, and the end gives all of them in order, as a composite or as the variant named")
    serializer(rep)


# ------------------------------------------------------------ Serialize
FIXED = {"serialize_entry", "serialize_element", "serialize_field", "serialize_key", "serialize_value", "end"}


class Ser:
    """the protocol between a value and a Serializer"""

    def __init__(self, rep, ty, kw):
        self.rep, self.ty, self.kw = rep, ty, kw
        self.p = prog("all")
        self.name = "Serialize for " + ty.split("<")[0]
        r = impl_root(self.p, rep, "<value_type::%s as %sSerialize>" % (ty, SER), "serialize")
        self.a = An(self.p, r) if r else None
        self.und = set()
        self.n = 0
        self.idents = set()

    def run(self, rule):
        a, rep = self.a, self.rep
        if not a:
            return
        rep.saw(a)
        if not a.complete:
            rep.undecided(rule, self.name, a.g.incomplete)
            return
        self.s = a.arg(0)
        self.kw = self.kw(self.s)
        bads = a.automaton((frozenset(), frozenset(), ("start",)), self.step)
        finish(rep, rule, self.name, bads, self.und, self.n)

    def giveup(self, why):
        self.und.add(str(why))
        return None

    def step(self, S, l):
        facts, rels, st = S
        if l.kind == "br":
            r = relfacts(l)
            if r:
                rels = rels | frozenset(r)
            else:
                facts = frozenset(x for x in facts if x[0] is not l.term) | {(l.term, l.out)}
            st = self.branch(st, l)
            if st is None or st.__class__ is Bad:
                return st
            return (facts, rels, st)
        if l.kind == "ev":
            st2 = self.event(Path(facts, rels, (), False, None), st, l)
            if st2 is None or st2.__class__ is Bad:
                return st2
            return (facts, rels, st2)
        if l.kind == "ret":
            return self.ret(st, l)
        return S

    # start | ("done", res) | ("open", want, kind, src, res) | ("list", H, kind, src, ph, R) | ("fix", H, plan, i) | ("last", res) | ("err", term)
    def branch(self, st, l):
        t = l.term
        if st[0] == "open" and t is st[3]:
            if l.out == "Ok":
                if st[1] == "fix":
                    return ("fix", pr(t, "Ok.0"), st[2], 0, UNIT)
                return ("list", pr(t, "Ok.0"), st[1], st[2], "idle", UNIT)
            return ("err", t)
        if st[0] == "list" and t is st[5]:
            H, kind, src, ph, R = st[1:]
            if ph == "asked":
                return ("list", H, kind, src, "item" if l.out == "Some" else "end", R)
            if ph in ("sent", "keysent"):
                if l.out == "Ok":
                    return ("list", H, kind, src, "idle" if ph == "sent" else "key", UNIT if ph == "sent" else st[5])
                return ("err", t)
        if st[0] == "fix" and t is st[4]:
            return ("fix", st[1], st[2], st[3], UNIT) if l.out == "Ok" else ("err", t)
        return st

    def event(self, P, st, l):
        path = l.rec["path"]
        n = last(path)
        if path.startswith(SER + "Serializer::"):
            if st[0] != "start":
                return Bad("again", "the serializer is used twice", l.span)
            return self.lead(P, n, l)
        if n in ("next", "next_back") and l.args and st[0] == "list":
            H, kind, src, ph, R = st[1:]
            s, ads = adaptors(l.args[0])
            if norm(base(s)) is norm(src) or bytes_of(s, src):
                if n == "next_back":
                    return Bad("order", "the items are taken from the end", l.span)
                for x in ads:
                    if x.a[1] in CHANGERS:
                        return Bad("order", "the items go through %s" % x.a[1], l.span)
                if ph == "item":
                    return Bad("dropped", "an item is left out", l.span)
                if ph in ("sent", "keysent"):
                    return Bad("unseen", "the answer of the serializer is not looked at", l.span)
                if ph == "key":
                    return Bad("dropped", "a key is sent without its value", l.span)
                return ("list", H, kind, src, "asked", l.res)
            return st
        if n in FIXED and path.startswith(SER) and st[0] in ("list", "fix"):
            if norm(base(l.args[0])) is not norm(st[1]):
                return self.giveup("something is sent to another serializer")
            if st[0] == "list":
                return self.item(st, n, l)
            return self.fixed(st, n, l)
        if n in FIXED and path.startswith(SER):
            return Bad("late", "something is sent after the end", l.span)
        return st

    def lead(self, P, n, l):
        out = []
        for k, d, x in shapes(P, **self.kw):
            r = self.lead1(P, n, l, k, d, x)
            if r.__class__ is Bad or r is None:
                return r
            out.append(r)
        if len({tuple(o[:3]) for o in out}) != 1:
            return self.giveup("one call for several kinds of values")
        return out[0]

    def lead1(self, P, n, l, k, d, x):
        what = "a %s" % {"BitSequence": "bit sequence", "Composite": "%s composite" % d.lower(), "Variant": "variant", "Primitive": d}[k]
        arg = l.args[1] if len(l.args) > 1 else None
        own = pr(x, d + ".0") if k == "Primitive" else x

        def wrong():
            return Bad("kind:%s" % (d if k == "Primitive" else k), "%s is serialized by %s" % (what, n), l.span)

        if k == "Primitive" and d in ("Bool", "Char", "String"):
            if n != {"Bool": "serialize_bool", "Char": "serialize_char", "String": "serialize_str"}[d]:
                return wrong()
            r = shape(arg, own, ())
            if r.__class__ is tuple:
                return Bad("content:" + d, "%s is serialized as %s" % (what, r[1]), l.span)
            if r is not None:
                return self.giveup(r)
            self.n += 1
            return ("done", l.res)
        if k == "Primitive" and d in ("U128", "I128"):
            t = n[len("serialize_"):]
            if t not in RANGE:
                return wrong()
            lo, hi = RANGE[t]
            a, b, exc = interval(P.rels, own, *RANGE[d.lower()])
            q = arg
            while q.op == "cast":
                w = RANGE.get(q.a[1])
                if w and (a < w[0] or b > w[1]):
                    return Bad("number", "%s goes through %s although it may not fit" % (what, q.a[1]), l.span)
                q = q.a[2]
            if norm(q) is not norm(own):
                v = vague(q)
                if v is None:
                    return Bad("number", "%s becomes %s" % (what, show(norm(arg))[:100]), l.span)
                return self.giveup(v)
            if a < lo or b > hi:
                return Bad("number", "%s is serialized as %s although it may not fit" % (what, t), l.span)
            if d == "U128" and t[0] != "u" or d == "I128" and t[0] != "i":
                return Bad("number", "%s is serialized as %s" % (what, t), l.span)
            smaller = [z for z in RANGE if z[0] == t[0] and RANGE[z][1] < hi]
            if smaller:
                z = max(smaller, key=lambda z: RANGE[z][1])
                if a <= RANGE[z][1] and b >= RANGE[z][0]:
                    cuts = exc
                    return Bad("number size", "%s is serialized as %s although it may fit into a smaller type" % (what, t), l.span)
            self.n += 1
            return ("done", l.res)
        if k == "Primitive":
            if n in ("serialize_tuple", "serialize_seq"):
                if n == "serialize_tuple" and not (arg.op == "int" and arg.a[0] == 32) and not (arg.op == "len"):
                    return Bad("length", "256 bit numbers are announced with %s bytes" % show(norm(arg))[:40], l.span)
                return ("open", "bytes", own, l.res)
            if n == "serialize_bytes":
                r = shape(arg, own, ())
                if r is not None:
                    return self.giveup(r) if r.__class__ is str else Bad("content", "%s is serialized as %s" % (what, r[1]), l.span)
                self.n += 1
                return ("done", l.res)
            return wrong()

        def hint(want):
            if arg.op == "adt" and arg.a[1] == "None":
                return None
            o = okval(arg)
            if o is None:
                self.und.add("the announced length cannot be told")
                return None
            if o.op == "int" and want.op == "int":
                return None if o.a[0] == want.a[0] else Bad("length", "%s announces %s items" % (what, o.a[0]), l.span)
            if norm(o) is norm(want):
                return None
            v = vague(o)
            if v is None:
                return Bad("length", "%s announces %s items" % (what, show(norm(o))[:60]), l.span)
            self.und.add(v)

        if k == "BitSequence":
            if n != "serialize_map":
                return wrong()
            h = hint(INT(1, "usize"))
            return h or ("open", "fix", ((("ident",), x),), l.res)
        if k == "Variant":
            if n != "serialize_map":
                return wrong()
            h = hint(INT(2, "usize"))
            return h or ("open", "fix", ((("str", "name"), pr(x, "name")), (("str", "values"), pr(x, "values"))), l.res)
        v = pr(x, d + ".0")
        if n in ("collect_map", "collect_seq"):
            if (n == "collect_map") != (d == "Named"):
                return wrong()
            r = elements(self.p, arg, v, d == "Named", "entries" if d == "Named" else "values")
            if r.__class__ is tuple:
                return Bad("items", "%s: %s" % (what, r[1]), l.span)
            if r != "ok":
                return self.giveup(r)
            self.n += 1
            return ("done", l.res)
        if n != ("serialize_map" if d == "Named" else "serialize_seq"):
            return wrong()
        h = hint(mk("len", v))
        return h or ("open", d, v, l.res)

    def item(self, st, n, l):
        H, kind, src, ph, R = st[1:]
        if n == "end":
            if ph in ("idle", "asked", "item", "key"):
                if ph == "asked":
                    return self.giveup("an answer is not looked at")
                return Bad("early end", "the end is sent before all items", l.span)
            if ph in ("sent", "keysent"):
                return Bad("unseen", "the answer of the serializer is not looked at", l.span)
            self.n += 1
            return ("last", l.res)
        item = pr(R, "Some.0") if R is not UNIT else None
        if ph not in ("item", "key") or item is None:
            return Bad("extra", "something is sent that is no item", l.span)
        if kind == "Named":
            ks = {"serialize_entry": (pr(item, "0"), pr(item, "1")), "serialize_key": (pr(item, "0"),), "serialize_value": (pr(item, "1"),)}.get(n)
        else:
            ks = {"serialize_element": (item,)}.get(n)
        if ks is None:
            return Bad("protocol", "an item is sent by %s" % n, l.span)
        if n in ("serialize_key", "serialize_value"):
            return self.giveup("keys and values are sent one by one")
        for x, w in zip(l.args[1:], ks):
            r = shape(x, w, [R])
            if r.__class__ is tuple:
                return Bad("items", "an item is sent as %s" % r[1], l.span)
            if r is not None:
                return self.giveup(r)
        self.n += 1
        return ("list", H, kind, src, "sent", l.res)

    def fixed(self, st, n, l):
        H, plan, i, R = st[1:]
        if R is not UNIT:
            return Bad("unseen", "the answer of the serializer is not looked at", l.span)
        if n == "end":
            if i < len(plan):
                return Bad("early end", "the end is sent before %s" % (plan[i][0][-1],), l.span)
            self.n += 1
            return ("last", l.res)
        if n != "serialize_entry":
            return self.giveup("entries are sent by %s" % n)
        k, v = l.args[1], l.args[2]
        todo = list(plan[i:])
        for j, (key, val) in enumerate(todo):
            r = shape(k, key, ()) if key[0] == "str" else None
            if r is None:
                if key[0] == "ident":
                    self.idents.add(norm(k))
                r2 = shape(v, val, ())
                if r2.__class__ is tuple:
                    return Bad("entries", "%s is %s" % (key[-1], r2[1]), l.span)
                if r2 is not None:
                    return self.giveup(r2)
                self.n += 1
                rest = plan[:i] + ((key, val),) + tuple(t for t in todo if t[0] != key)
                return ("fix", H, rest, i + 1, l.res)
        v = vague(k)
        if v:
            return self.giveup(v)
        return Bad("entries", "an entry %s is sent" % show(norm(k))[:60], l.span)

    def ret(self, st, l):
        v = l.val
        k = retkind(v)
        if st[0] in ("done", "last"):
            if v is st[1] or norm(v) is norm(st[1]):
                return
            if k in ("Ok", "Err") and contains(v, st[1]):
                return
            if k is None and vague(v, known=[st[1]]):
                return self.giveup("what is returned is not understood")
            return Bad("result", "returns %s instead of the answer of the serializer" % show(norm(v))[:100], self.a.span)
        if st[0] == "err":
            if k == "Ok":
                return Bad("swallowed", "an error of the serializer is swallowed", self.a.span)
            e = errval(v)
            if e is not None and not contains(e, st[1]) and vague(e) is None:
                return Bad("error", "an error of the serializer is replaced by %s" % show(norm(e))[:80], self.a.span)
            if v is not st[1] and e is None:
                return self.giveup("what is returned is not understood")
            return
        if st[0] == "open" and contains(v, st[3]):
            return self.giveup("what is returned is not understood")
        if k == "Err":
            return Bad("refused", "fails although the serializer did not", self.a.span)
        if k is None and st[0] == "start":
            return self.giveup("what is returned is not understood")
        return Bad("unfinished", "returns before everything was serialized", self.a.span)


def bytes_of(s, src):
    """iterating over a fixed array"""
    x = norm(base(s))
    return contains(x, norm(src)) if x.op in ("adt", "cast") else False


def serialize_all(rep, rule):
    idents = {}
    for ty, kw in (
        ("Value<T>", lambda s: dict(vd=pr(s, "value"))),
        ("ValueDef<T>", lambda s: dict(vd=s)),
        ("Composite<T>", lambda s: dict(comp=s)),
        ("Variant<T>", lambda s: dict(var=s)),
        ("Primitive", lambda s: dict(prim=s)),
    ):
        x = Ser(rep, ty, kw)
        x.run(rule)
        for i in x.idents:
            idents.setdefault(i, x.name)
    return idents


@prop("C32")
def c32(rep):
    rep.rule("protocol", "every value is serialized by the calls that belong to its kind, with its own content, all items in order, and the answer of the serializer is passed on")
    serialize_all(rep, "protocol")


# ------------------------------------------------------------ Deserialize
def visitor_of(rep, rule, ty, p):
    """the type whose visit methods build values of ty"""
    r = impl_root(p, rep, "<value_type::%s as %sDeserialize<'de>>" % (ty, DE), "deserialize")
    if not r:
        return None
    a = An(p, r)
    rep.saw(a)
    name = "Deserialize for " + ty.split("<")[0]
    evs = a.events(lambda l: l.rec["path"].startswith(DE + "Deserializer::deserialize_"))
    if len({(e.span, e.name) for e in evs}) != 1:
        rep.undecided(rule, name, "the deserializer is used %d times" % len(evs))
        return None
    e = evs[0]
    if last(e.rec["path"]) != "deserialize_any":
        rep.bad(rule, name, "asks for %s instead of any kind of data" % last(e.rec["path"]), e.span)
    R = e.res
    wrap = ("Ok", {"0": ("Value", {"value": pr(R, "Ok.0")})}) if ty == "Value" else None
    n = 0
    for x in a.ends("ret"):
        v = x.val
        if v is R and wrap is None:
            n += 1
            continue
        k = retkind(v)
        if k == "Err":
            r = err_of(R)(x)
        elif k == "Ok":
            r = shape(v, wrap or ("Ok", {"0": pr(R, "Ok.0")}), [R])
        else:
            r = "what is returned is not understood"
        if r is None:
            n += 1
        elif r.__class__ is tuple:
            rep.bad(rule, name, "gives " + r[1], a.span)
        else:
            rep.undecided(rule, name, r)
    if n:
        rep.ok(rule, name, n)
    err_propagation(a, rep, rule, name + " (errors)")
    v = e.args[1]
    if v.op != "adt":
        rep.undecided(rule, name, "the visitor is not understood")
        return None
    return v.a[0]


DEFAULTS = {"i8": "i64", "i16": "i64", "i32": "i64", "u8": "u64", "u16": "u64", "u32": "u64", "string": "str", "borrowed_str": "str", "char": "str", "byte_buf": "bytes", "borrowed_bytes": "bytes"}
WANT = {
    "Primitive": ["bool", "char", "str", "string", "bytes", "seq"] + NUMS,
    "Composite<()>": ["bytes", "unit", "newtype_struct", "seq", "map"],
    "Variant<()>": ["enum", "some", "none", "map"],
    "ValueDef<()>": ["bool", "char", "str", "string", "bytes", "unit", "newtype_struct", "seq", "map", "enum", "some", "none"] + NUMS,
}
WANT["Value"] = WANT["ValueDef<()>"]


def visitors(rep, rule):
    p = prog("all")
    idents = {}
    seen = set()
    for ty in ("Value", "ValueDef<()>", "Composite<()>", "Variant<()>", "Primitive"):
        v = visitor_of(rep, rule, ty, p)
        if not v:
            continue
        out = {"Value": "ValueDef<()>"}.get(ty, ty)
        if (v, out) in seen:
            continue
        seen.add((v, out))
        for m in WANT[ty]:
            label = "%s from %s" % (out.split("<")[0], m)
            mm = m
            r = p.byref.get(("<%s as %s>" % (v, VIS), "visit_" + mm))
            while not r and mm in DEFAULTS:
                mm = DEFAULTS[mm]
                r = p.byref.get(("<%s as %s>" % (v, VIS), "visit_" + mm))
            if not r:
                rep.bad(rule, label, "is refused: there is no visit_%s" % m, "")
                continue
            if m == "char" and mm != "char":
                rep.bad(rule, label, "characters are taken for strings", "")
                continue
            if mm != m and m not in ("string",):
                continue
            visit(rep, rule, p, r[0], out, m, mm, label, idents)
        for m in ("f32", "f64"):
            r = p.byref.get(("<%s as %s>" % (v, VIS), "visit_" + m))
            if r:
                a = An(p, r[0])
                give(rep, rule, "%s from %s" % (out, m), a, lambda t: ("bad", "a value for a float") if retkind(t) == "Ok" else None, lambda e: None)
        for m in ("borrowed_str", "borrowed_bytes", "byte_buf", "string"):
            r = p.byref.get(("<%s as %s>" % (v, VIS), "visit_" + m))
            if r and m not in WANT[ty]:
                visit(rep, rule, p, r[0], out, m, {"borrowed_str": "str", "borrowed_bytes": "bytes", "byte_buf": "bytes"}.get(m, m), "%s from %s" % (out.split("<")[0], m), idents)
    return idents


def wrapped(out, kind, spec):
    """the spec of a primitive / composite / variant as ValueDef or as itself"""
    if out == "ValueDef<()>":
        return (kind, {"0": spec})
    return spec


def visit(rep, rule, p, r, out, m, mm, label, idents):
    a = An(p, r)
    rep.saw(a)
    if not a.complete:
        rep.undecided(rule, label, a.g.incomplete)
        return
    x = a.arg(1) if a.nargs() > 1 else None
    prim = lambda k, t: Ok(wrapped(out, "Primitive", (k, {"0": t})))
    comp = lambda k, t: Ok(wrapped(out, "Composite", (k, {"0": t})))
    vari = lambda n, vs: Ok(wrapped(out, "Variant", ("Variant", {"name": n, "values": vs})))
    if m in INTS or m in ("bool", "char", "str", "string", "borrowed_str"):
        k = INTS.get(m) or {"bool": "Bool", "char": "Char"}.get(m, "String")
        return give(rep, rule, label, a, prim(k, x), never_err)
    if mm == "bytes":
        if out == "Primitive":
            return fixed_bytes(rep, rule, label, a, prim, x)
        return bytes_to_values(rep, rule, label, a, lambda c: comp("Unnamed", c))
    if m == "unit":
        return give(rep, rule, label, a, comp("Unnamed", empty(a)), never_err)
    if m == "none":
        return give(rep, rule, label, a, vari(("str", "None"), ("Unnamed", {"0": empty(a)})), never_err)
    if m in ("some", "newtype_struct"):
        evs = a.events(lambda l: l.rec["path"].startswith(DE + "Deserialize"))
        if len({e.res for e in evs}) != 1:
            rep.undecided(rule, label, "what is inside is not read by one call")
            return
        e = evs[0]
        R = e.res
        if not any(norm(z) is norm(x) for z in e.args):
            rep.bad(rule, label, "what is inside is not read", e.span)
            return
        err_propagation(a, rep, rule, label + " (errors)")
        got = pr(R, "Ok.0")
        if m == "some":
            inner_v = lambda t: one_value(t, got, R)
            return give(rep, rule, label, a, vari(("str", "Some"), ("Unnamed", {"0": inner_v})), err_of(R), [R])
        ok = lambda t: None if t is R or norm(t) is norm(R) else shape(t, Ok(got), [R])
        return give(rep, rule, label, a, ok, err_of(R), [R])
    if m == "seq":
        return seq(rep, rule, label, a, x, prim if out == "Primitive" else None, comp)
    if m == "enum":
        return enum(rep, rule, label, a, x, vari)
    if m == "map":
        return Mapping(rep, rule, label, a, x, out, idents).run()


def one_value(t, got, R):
    """[Value{value: got}] or [got]"""
    b = base(t)
    if b.op != "arr":
        return "how the values are collected is not followed"
    if len(b.a) != 1:
        return ("bad", "%d values instead of one" % len(b.a))
    if shape(b.a[0], Val(got), [R]) is None or shape(b.a[0], got, [R]) is None:
        return None
    return shape(b.a[0], got, [R])


def fixed_bytes(rep, rule, label, a, prim, x):
    def num(t):
        q = norm(t)
        if q is norm(x):
            return None
        while q.op == "fld":
            q = q.a[0]
        if q.op in ("res", "call"):
            n = last(q.a[2] if q.op == "res" else q.a[0])
            if n in ("try_from", "try_into"):
                if q.op == "call":
                    return None if norm(q.a[1]) is norm(x) else ("bad", "other bytes")
                for e in a.events(lambda l: l.res is not None and norm(l.res) is q):
                    return None if any(norm(z) is norm(x) for z in e.args) else ("bad", "other bytes")
        return vague(q) or ("bad", "%s instead of the bytes" % show(q)[:80])

    n = 0
    for e in a.ends("ret"):
        if retkind(e.val) == "Ok":
            r = shape(e.val, prim("U256", num), ())
            if r.__class__ is tuple:
                rep.bad(rule, label, "gives " + r[1], a.span)
            elif r is not None:
                rep.undecided(rule, label, r)
            else:
                n += 1
    if n:
        rep.ok(rule, label, n)
    err_propagation(a, rep, rule, label + " (errors)")


def seq(rep, rule, label, a, x, prim, comp):
    def source(l):
        return last(l.rec["path"]) in ("next_element", "next_element_seed") and norm(base(l.args[0])) is norm(x)

    def expect(v, R, l, extra):
        return same(v, pr(R, "Ok.0.Some.0"), known=[R])

    t = Transfer(a, source, is_push, expect)
    t.run(rep, rule, label)
    if not t.moves:
        rep.undecided(rule, label, "the elements are not seen to be collected one by one")
        return
    conts = t.containers

    def content(c):
        if base(c) in conts:
            return None
        return vague(base(c)) or ("bad", "something else than the elements: %s" % show(norm(c))[:80])

    def number(c):
        q = norm(c)
        while q.op == "fld":
            q = q.a[0]
        if q.op == "res" and last(q.a[2]) in ("try_from", "try_into"):
            for e in a.events(lambda l: l.res is not None and norm(l.res) is q):
                return None if any(base(z) in conts for z in e.args) else ("bad", "other bytes")
        if q.op == "call" and last(q.a[0]) in ("try_from", "try_into"):
            return None if base(q.a[1]) in conts else ("bad", "other bytes")
        return vague(q) or ("bad", "%s instead of the bytes" % show(q)[:80])

    n = 0
    for e in a.ends("ret"):
        if retkind(e.val) == "Ok":
            r = shape(e.val, prim("U256", number) if prim else comp("Unnamed", content), ())
            if r.__class__ is tuple:
                rep.bad(rule, label, "gives " + r[1], a.span)
            elif r is not None:
                rep.undecided(rule, label, r)
            else:
                n += 1
    if n:
        rep.ok(rule, label + " (result)", n)
    # nothing but the source refuses a sequence
    if not prim:
        refusals(rep, rule, label, a)
    err_propagation(a, rep, rule, label + " (errors)")


def refusals(rep, rule, label, a):
    """an error is returned only if something that was asked reported one"""
    und = set()

    def step(s, l):
        if l.kind == "br":
            if l.out == "Err":
                return 1
            if l.out in (True, False) or l.out.__class__ is tuple:
                if vague(l.term):
                    return s if s else 2 if s == 0 and not _size(l.term) else s
        if l.kind == "ret" and retkind(l.val) == "Err" and s == 0:
            return Bad("refused", "refuses although nothing failed", a.span)
        return s

    bads = a.automaton(0, step)
    finish(rep, rule, label + " (refusals)", bads, und, 1)


def _size(t):
    return any(last(x.a[2]) == "size_hint" for x in subterms(t) if x.op == "res")


def subterms(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(y for y in x.a if y.__class__ is Term)


def enum(rep, rule, label, a, x, vari):
    """the name and the fields the enum access gives"""
    v = a.events(lambda l: l.rec["path"] in (DE + "EnumAccess::variant", DE + "EnumAccess::variant_seed"))
    w = a.events(lambda l: l.rec["path"].startswith(DE + "VariantAccess::"))
    if len({e.res for e in v}) != 1 or len({e.res for e in w}) != 1:
        rep.undecided(rule, label, "name and fields are not read by one call each")
        return
    R, Q = v[0].res, w[0].res
    if last(w[0].rec["path"]) not in ("newtype_variant", "newtype_variant_seed"):
        rep.bad(rule, label, "the fields are asked for as %s, which only fits some variants" % last(w[0].rec["path"]), w[0].span)
        return
    n = 0
    for e in a.ends("ret"):
        k = retkind(e.val)
        if k == "Ok":
            r = shape(e.val, vari(pr(R, "Ok.0.0"), pr(Q, "Ok.0")), [R, Q])
        elif k == "Err":
            y = errval(e.val)
            r = None if same(y, [pr(R, "Err.0"), pr(Q, "Err.0")], known=[R, Q]) == "ok" else vague(y, [R, Q]) or ("bad", "%s instead of the error" % show(norm(y))[:80])
        else:
            r = "what is returned is not understood"
        if r is None:
            n += 1
        elif r.__class__ is tuple:
            rep.bad(rule, label, "gives " + r[1], a.span)
        else:
            rep.undecided(rule, label, r)
    if n:
        rep.ok(rule, label, n)
    err_propagation(a, rep, rule, label + " (errors)")


class Mapping:
    """maps: composites, variants written as maps, bit sequences"""

    def __init__(self, rep, rule, label, a, x, out, idents):
        self.rep, self.rule, self.label, self.a, self.x, self.out, self.idents = rep, rule, label, a, x, out, idents
        self.und = set()
        self.n = 0
        self.conts = set()
        self.final = False

    def run(self):
        init = ("idle", UNIT, UNIT, frozenset(), 0, (), UNIT)
        self.a.automaton(init, self.step)
        self.final = True
        self.und, self.n = set(), 0
        bads = self.a.automaton(init, self.step)
        finish(self.rep, self.rule, self.label, bads, self.und, self.n)
        err_propagation(self.a, self.rep, self.rule, self.label + " (errors)")

    def no(self, why):
        self.und.add(str(why))
        return None

    # (stage, K, V, facts about K: {(word/ident, bool)}, number of entries (0, 1, 2), seen: ((what, term)...), R)
    def step(self, S, l):
        ph, K, V, facts, cnt, got, R = S
        if l.kind == "ev":
            n = last(l.rec["path"])
            if n in ("next_key", "next_key_seed", "next_entry", "next_entry_seed") and norm(base(l.args[0])) is norm(self.x):
                if ph == "entry":
                    return Bad("dropped", "an entry is left out", l.span)
                if ph == "key":
                    return Bad("dropped", "a key is read without its value", l.span)
                if ph not in ("idle",):
                    return self.no("an entry is asked for in a way that is not understood")
                return ("asked" if "key" in n else "easked", UNIT, UNIT, frozenset(), min(cnt + 1, 2), got, l.res)
            if n in ("next_value", "next_value_seed") and norm(base(l.args[0])) is norm(self.x):
                if ph != "key":
                    return self.no("a value is asked for in a way that is not understood") if ph != "idle" else Bad("protocol", "a value is read without a key", l.span)
                return ("vasked", K, UNIT, facts, cnt, got, l.res)
            v = is_push(l)
            if v is not None:
                c = base(l.args[0])
                if ph == "entry":
                    if v.op == "tup" and len(v.a) == 2:
                        bad = None
                        for q, w, what in ((v.a[0], K, "key"), (v.a[1], V, "value")):
                            r = same(q, w, known=[K, V] + [z for z in (R,) if z is not UNIT])
                            if r == "bad":
                                return Bad("entry", "an entry is stored with %s as its %s" % (show(norm(q))[:80], what), l.span)
                            if r != "ok":
                                bad = r
                        if bad:
                            return self.no(bad)
                    elif K.op == "fld" and V.op == "fld" and K.a[0] is V.a[0] and norm(v) is norm(K.a[0]):
                        pass
                    else:
                        return self.no("what is stored is not understood")
                    if self.out == "ValueDef<()>" and cnt == 1 and not any(f == ("ident", False) for f in facts):
                        return Bad("bits missed", "the first entry is stored without having looked whether the map stands for a bit sequence", l.span)
                    self.conts.add(c)
                    self.n += 1
                    return ("idle", UNIT, UNIT, frozenset(), cnt, got, UNIT)
                if ph == "bit":
                    r = same(v, pr(R, "Some.0"), known=[R])
                    if r == "bad":
                        return Bad("bits", "a bit becomes %s" % show(norm(v))[:80], l.span)
                    if r != "ok":
                        return self.no(r)
                    self.conts.add(c)
                    self.n += 1
                    return ("bits", K, V, facts, cnt, got, UNIT)
                if self.final and c in self.conts:
                    return Bad("extra", "something is stored that the map does not hold", l.span)
                return S
            if n in ("next", "next_back") and ph in ("bits", "bit") and l.args:
                s, ads = adaptors(l.args[0])
                if norm(base(s)) is norm(V):
                    if n == "next_back" or any(z.a[1] in CHANGERS for z in ads):
                        return Bad("bits", "the bits are read in another order or number", l.span)
                    if ph == "bit":
                        return Bad("bits", "a bit is left out", l.span)
                    return ("basked", K, V, facts, cnt, got, l.res)
            if (l.rec["path"] in REORDER or l.name in REORDER) and self.final and l.args and base(l.args[0]) in self.conts:
                return Bad("rearranged", "%s on what was collected" % l.name, l.span)
            return S
        if l.kind == "br":
            t = l.term
            if ph in ("asked", "easked", "vasked", "basked") and (t is R or t is pr(R, "Ok.0")):
                if t is R and ph == "basked":
                    return ("bit" if l.out == "Some" else "bend", K, V, facts, cnt, got, R)
                if t is R and l.out == "Err":
                    return ("err", K, V, facts, cnt, got, R)
                if t is R and ph == "vasked":
                    V = pr(R, "Ok.0")
                    if ("ident", True) in facts:
                        return ("bits", K, V, facts, cnt, got, UNIT)
                    if self.out.startswith("Variant"):
                        w = [f[0] for f in facts if f[1] is True]
                        if not w and {f[0] for f in facts} >= {"name", "values"}:
                            return Bad("dropped", "an entry that is neither the name nor the values is left out", l.span)
                        if len(w) != 1:
                            return self.no("a value is read for a key that cannot be told")
                        return ("idle", UNIT, UNIT, frozenset(), cnt, tuple(g for g in got if g[0] != w[0]) + ((w[0], V),), UNIT)
                    return ("entry", K, V, facts, cnt, got, R)
                if t is not R:
                    if l.out == "None":
                        return ("end", K, V, facts, cnt, got, UNIT)
                    if ph == "asked":
                        return ("key", pr(R, "Ok.0.Some.0"), UNIT, frozenset(), cnt, got, UNIT)
                    i = pr(R, "Ok.0.Some.0")
                    return ("entry", pr(i, "0"), pr(i, "1"), facts, cnt, got, R)
                return S
            if ph in ("key", "entry", "vasked") and t.op == "call" and last(t.a[0]) in ("eq", "ne") and any(norm(z) is norm(K) for z in t.a[1:]):
                o = [z for z in t.a[1:] if norm(z) is not norm(K)]
                if len(o) == 1:
                    w = norm(o[0])
                    yes = bool(l.out) == (last(t.a[0]) == "eq")
                    if w.op == "str" and self.out.startswith("Variant"):
                        return (ph, K, V, facts | {(w.a[0], yes)}, cnt, got, R)
                    if not self.out.startswith("Variant"):
                        self.idents.setdefault(w, self.label)
                        return (ph, K, V, facts | {("ident", yes)}, cnt, got, R)
            return S
        if l.kind == "ret":
            return self.ret(S, l)
        return S

    def ret(self, S, l):
        ph, K, V, facts, cnt, got, R = S
        k = retkind(l.val)
        v = okval(l.val)
        if k == "Err":
            if ph == "err":
                self.n += 1
                return
            if self.out.startswith("Variant"):
                if ph == "end" and len({g[0] for g in got}) == 2:
                    return Bad("refused", "a map with a name and values is refused", self.a.span)
                if ph == "key" and any(f[1] for f in facts):
                    return Bad("refused", "the entry %s is refused" % [f[0] for f in facts if f[1]][0], self.a.span)
                if ph == "key" and not facts:
                    return self.no("a key is refused after a test that is not understood")
                self.n += 1
                return
            if ph in ("end", "bend", "idle", "entry"):
                return Bad("refused", "a map is refused although nothing failed", self.a.span)
            return self.no("refuses after a test that is not understood")
        if k != "Ok":
            return self.no("what is returned is not understood")
        if ph == "err":
            return
        if ph in ("asked", "easked", "vasked", "basked"):
            return self.no("an answer is not looked at")
        if self.out.startswith("Variant"):
            if ph != "end":
                return Bad("early", "returns before the map is at its end", self.a.span)
            r = None
            d = dict(got)
            for f, w in (("name", "name"), ("values", "values")):
                q = field(v, f) if v.op == "adt" else None
                if q is None:
                    return self.no("what is returned is not understood")
                if w not in d:
                    if vague(q) is None:
                        return Bad("made up", "the %s of the variant is %s, which the map does not hold" % (f, show(norm(q))[:60]), self.a.span)
                    return self.no("where the %s comes from" % f)
                r = same(q, d[w], known=[d[w], *d.values()])
                if r == "bad" or any(norm(q) is norm(z) for g, z in d.items() if g != w):
                    return Bad("other", "the %s of the variant is %s" % (f, show(norm(q))[:80]), self.a.span)
                if r != "ok":
                    return self.no(r)
            self.n += 1
            return
        bits = ph == "bend"
        if ph not in ("end", "bend"):
            if ph == "bits" and self.n == 0:
                return self.no("how bits are collected is not followed")
            return Bad("early", "returns before the map is at its end", self.a.span)

        def content(c):
            if base(c) in self.conts:
                return None
            if cnt <= 1 and not bits:
                return empty(self.a)(c)
            return vague(base(c)) or ("bad", "something else than what was collected: %s" % show(norm(c))[:80])

        if bits:
            spec = ("BitSequence", {"0": content})
        else:
            spec = wrapped(self.out, "Composite", ("Named", {"0": content}))
        r = shape(v, spec, ())
        if r.__class__ is tuple:
            return Bad("kind", "gives " + r[1], self.a.span)
        if r is not None:
            return self.no(r)
        self.n += 1


def identifier(rep, rule, read):
    """bit sequences are written and looked for under the same name"""
    und = _Collect()
    und.rule = lambda *a: None
    und.saw = lambda *a: None
    written = {}
    for ty, kw in (("ValueDef<T>", lambda s: dict(vd=s)),):
        x = Ser(und, ty, kw)
        x.run("")
        for i in x.idents:
            written[i] = "Serialize"
    p = prog("all")
    r = impl_root(p, rep, "<value_type::ValueDef<T> as %sDeserializer<'de>>" % DE, "deserialize_any")
    if r:
        a = An(p, r)
        for e in a.events(lambda l: last(l.rec["path"]) == "visit_map"):
            s, ads = adaptors(e.args[1])
            for t in subterms(s):
                if t.op == "tup" and len(t.a) == 2 and norm(t.a[0]).op in ("static", "str"):
                    written[norm(t.a[0])] = "Deserializer"
    name = "the name of bit sequences"
    al = set(written) | set(read)
    if not written or not read:
        rep.undecided(rule, name, "the name is not found")
    elif len(al) == 1:
        rep.ok(rule, name, len(written) + len(read))
    elif len({t.op for t in al}) == 1:
        rep.bad(rule, name, "bit sequences are written as %s and looked for as %s" % (sorted(show(t) for t in written), sorted(show(t) for t in read)), "")
    else:
        rep.undecided(rule, name, "different constants")


@prop("C33")
def c33(rep):
    rep.rule("visit", "every kind of serde data becomes the value of its kind with its own content, all items in order, under their own keys; nothing is refused that has a value")
    rep.rule("bit name", "bit sequences are looked for under the name under which they are written")
    ids = visitors(rep, "visit")
    identifier(rep, "bit name", ids)
