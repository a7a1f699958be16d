"""Decoding SCALE bytes into values."""
from rules import *

VIS = "<scale_impls::decode::DecodeValueVisitor<R, F> as scale_decode::visitor::Visitor>"
VD = "value_type::ValueDef"
CTX = "context_from_type_id"


def visitor_roots(p, rep):
    """every visitor of the crate that decodes SCALE values, method by method"""
    out = {}
    for (tr, name), rs in p.byref.items():
        if tr.endswith("as scale_decode::visitor::Visitor>") and name.startswith("visit_"):
            out.setdefault(tr, {})[name] = rs[0]
    if not out:
        rep.bad("anchor", "scale_decode visitor", "no visitor that decodes values was found")
    return out


def short(tr):
    return tr.split(" as ")[0].lstrip("<").split("<")[0].rsplit("::", 1)[-1]


INTS = {"u8": "U128", "u16": "U128", "u32": "U128", "u64": "U128", "u128": "U128", "i8": "I128", "i16": "I128", "i32": "I128", "i64": "I128", "i128": "I128"}
SCALARS = dict(INTS, bool="Bool", char="Char", u256="U256", i256="I256")


def value_of(t):
    """Ok(Value{value, context}) -> (value, context)"""
    v = okval(t)
    if v is None or not is_adt(v, "value_type::Value"):
        return None
    return field(v, "value"), field(v, "context")


@prop("C01")
def c01(rep):
    rep.rule("kind", "each visit function of a decoding visitor returns, on every successful path, a value of the kind that belongs to the SCALE type it was called for")
    rep.rule("payload", "the number, character, string or bits inside it are those it was given: only value-preserving widening in between")
    p = prog("all")
    for tr, ms in visitor_roots(p, rep).items():
        for name, root in sorted(ms.items()):
            kind = name[6:]
            inst = short(tr) + "::" + name
            a = An(p, root)
            rep.saw(a)
            x = a.arg(1)

            def judge(t, kind=kind, x=x, a=a):
                if retkind(t) == "Err":
                    if kind in SCALARS:
                        return ("bad", "fails on some %s" % kind)
                    return "ok"
                vc = value_of(t)
                if vc is None:
                    return vague(t) or ("bad", "gives %s" % show(norm(t))[:200])
                v = vc[0]
                if v.op != "adt" or not v.a[0].endswith(VD):
                    return vague(v) or "value of unknown form"
                if kind in SCALARS or kind == "str":
                    if v.a[1] != "Primitive":
                        return ("bad", "a %s becomes a %s" % (kind, v.a[1]))
                    pv = v.a[3]
                    if pv.op != "adt":
                        return vague(pv) or "primitive of unknown form"
                    want = SCALARS.get(kind, "String")
                    if pv.a[1] != want:
                        return ("bad", "a %s becomes a %s" % (kind, pv.a[1]))
                    pay = pv.a[3]
                    if kind == "str":
                        ok = str_payload(pay, x)
                        return ok
                    r = same(pay, x)
                    return r if r != "bad" else ("bad", "the %s becomes %s" % (kind, show(pay)[:160]))
                want = {"bitsequence": "BitSequence", "variant": "Variant"}.get(kind, "Composite")
                if v.a[1] != want:
                    return ("bad", "a %s becomes a %s" % (kind, v.a[1]))
                if kind == "variant":
                    return variant_name(v, x)
                if want == "Composite" and kind in ("sequence", "array", "tuple"):
                    c = v.a[3]
                    if c.op == "adt" and c.a[1] != "Unnamed":
                        return ("bad", "the items of a %s get names" % kind)
                return "ok"

            returned(a, rep, "payload" if kind in SCALARS else "kind", inst, judge)
    # bits: what the decoder yields, unchanged and all of it
    for tr, ms in visitor_roots(p, rep).items():
        root = ms.get("visit_bitsequence")
        if root is None:
            continue
        a = An(p, root)
        inst = short(tr) + "::visit_bitsequence"

        def src(l):
            return l.rec["path"].endswith("Iterator::next") and any(y.op == "res" and y.a[2].endswith("BitSequence::decode") for y in walk(l.args[0]))

        def exp(v, R, l, n):
            return same(v, [pr(R, "Some.0.Ok.0"), pr(R, "Some.0")])

        evs = a.events(src)
        if evs:
            Transfer(a, src, is_push, exp).run(rep, "payload", inst)
        else:
            rep.undecided("payload", inst, "the bits are collected in a way that is not understood")


def str_payload(pay, x):
    for y in walk(pay):
        pass
    if pay.op == "fld" and pay.a[1] == "Ok" and pay.a[0].op == "call" and pay.a[0].a[0].endswith("Str::as_str") and base(pay.a[0].a[1]) is x:
        return "ok"
    if pay.op == "fld" and pay.a[1] == "Ok" and pay.a[0].op == "res" and pay.a[0].a[2].endswith("Str::as_str"):
        return "ok"
    r = vague(pay)
    return r if r else ("bad", "the text becomes %s" % show(norm(pay))[:160])


def variant_name(v, x):
    w = v.a[3]
    if not is_adt(w, "Variant"):
        return vague(w) or "variant of unknown form"
    n = field(w, "name")
    if n.op == "call" and n.a[0].endswith("variant::Variant::name"):
        if base(n.a[1]) is x:
            return "ok"
        return vague(n.a[1]) or ("bad", "the name is that of another variant")
    return vague(n) or ("bad", "the variant's name becomes %s" % show(norm(n))[:160])


@prop("C02")
def c02(rep):
    rep.rule("context", "every value a decoding visitor builds carries the type id the visit function was called with (or what the context mapping makes of exactly that id)")
    rep.rule("mapping", "the context mapping of typed decoding is the identity on type ids")
    p = prog("all")
    for tr, ms in visitor_roots(p, rep).items():
        for name, root in sorted(ms.items()):
            inst = short(tr) + "::" + name
            a = An(p, root)
            rep.saw(a)
            tid = a.arg(2)
            for e in a.events(lambda l: last(l.rec["path"]) == CTX):
                r = same(e.args[-1], tid)
                report1(rep, "context", inst, r if r != "bad" else ("bad", "the context is made from %s" % show(norm(e.args[-1]))[:120]), e.args[-1], a, e.span)

            def judge(t):
                if retkind(t) == "Err":
                    return "ok"
                vc = value_of(t)
                if vc is None:
                    return vague(t) or "value of unknown form"
                c = vc[1]
                if c is tid or c.op == "res" and last(c.a[2]) == CTX:
                    return "ok"
                v = vague(c)
                return v if v else ("bad", "the context is %s" % show(norm(c))[:120])

            returned(a, rep, "context", inst, judge)
    n = 0
    for (tr, name), rs in p.byref.items():
        if name == CTX and "as scale_impls::decode::ContextFromTypeId" in tr:
            n += 1
            a = An(p, rs[0])
            rep.saw(a)
            unit = p.ty(p.bodies[rs[0]["inst"]]["locals"][0])["s"] == "()"
            x = a.arg(0)
            returned(a, rep, "mapping", short(tr), lambda t: "ok" if unit or t is x else same(t, x))
    fr = fn_root(p, rep, "scale_impls::decode::decode_value_as_type", required=False) or fn_root(p, rep, "scale::decode_as_type")
    if fr:
        a = An(p, fr)
        rep.saw(a)
        evs = a.events(lambda l: l.rec["path"].endswith("decode_with_visitor"))
        for e in evs:
            vt = p.ty(e.argtys[3])["s"]
            if "TypeIdContext" in vt:
                rep.ok("mapping", "typed decoding uses the mapping that keeps ids")
            elif "EmptyContext" in vt:
                rep.bad("mapping", "typed decoding", "the type ids are thrown away", e.span)
            else:
                rep.undecided("mapping", "typed decoding", vt)


def item_sources(recv):
    def src(l):
        return last(l.rec["path"]) == "decode_item" and "scale_decode::visitor::types::" in l.rec["path"] and base(l.args[0]) in recv

    return src


def composite_transfer(a, rep, rule, inst, recv):
    """all items (with their names) end up in the value, in order"""
    src = item_sources(recv)

    def exp(v, R, l, n):
        item = pr(R, "Some.0.Ok.0")
        if v is item:
            return "ok"
        if v.op == "tup" and len(v.a) == 2:
            if v.a[1] is not item:
                return same(v.a[1], item)
            nm = v.a[0]
            if nm.op == "fld" and nm.a[1] == "Some" and nm.a[0].op == "call" and nm.a[0].a[0].endswith("::peek_name"):
                q = nm.a[0].a[1]
                if base(q) not in recv:
                    return ("bad", "the field's name comes from another value")
                if q is (base(q) if n == 1 else mk("stale", base(q))):
                    return "ok"
                if q.op == "mut":
                    return ("bad", "an item is stored under the name of the field after it")
                if q.op == "stale" or q in recv:
                    return ("bad", "an item is stored under the name of another field")
            r = vague(nm)
            return r if r else ("bad", "the field's name becomes %s" % show(norm(nm))[:120])
        return same(v, item)

    t = Transfer(a, src, is_push_vec, exp)
    ok = t.run(rep, rule, inst)
    return t


def peek_contract(s, l):
    """a composite without unnamed fields has a name for every item it still yields"""
    unn, noname, some = s
    if l.kind == "br":
        t = l.term
        if t.op == "call" and t.a[0].endswith("composite::Composite::has_unnamed_fields"):
            unn = l.out
        elif t.op == "call" and t.a[0].endswith("composite::Composite::peek_name"):
            noname = l.out == "None"
        elif t.op == "res" and t.a[2].endswith("composite::Composite::decode_item"):
            some = l.out == "Some"
        if unn is False and noname and some:
            return None
    elif l.kind == "ev":
        if l.rec["path"].endswith("composite::Composite::decode_item"):
            some = False
        elif l.name == "alloc::vec::Vec::push" and some:
            noname = False
    return (unn, noname, some)


An.prune = ((None, False, False), peek_contract)


def is_push_vec(l):
    if l.name == "alloc::vec::Vec::push" and base(l.args[0]).op == "obj":
        return l.args[1]
    return None


@prop("C03")
def c03(rep):
    rep.rule("items", "between two requests for an item the one before was appended, unchanged and once; success only after the last one")
    rep.rule("names", "an item is stored under the name its field had before it was decoded; fields get names exactly if there are some and all have one")
    rep.rule("result", "the value that is returned is made of the container the items went to")
    p = prog("all")
    todo = []
    for tr, ms in visitor_roots(p, rep).items():
        if "Tracing" in tr:
            continue
        for name in ("visit_sequence", "visit_array", "visit_tuple", "visit_composite", "visit_variant"):
            if name in ms:
                todo.append((ms[name], short(tr) + "::" + name))
            else:
                rep.bad("anchor", short(tr) + "::" + name, "not found in the current tree")
    for r in p.byref.get(("<value_type::Composite<()> as scale_decode::DecodeAsFields>", "decode_as_fields"), []):
        todo.append((r, "Composite::decode_as_fields"))
    for path in ("scale_impls::decode::decode_composite_as_fields", "scale::decode_as_fields"):
        r = fn_root(p, rep, path, required=path.startswith("scale::"))
        if r:
            todo.append((r, path))
    for root, inst in todo:
        a = An(p, root)
        rep.saw(a)
        recv = {base(e.args[0]) for e in a.events(lambda l: last(l.rec["path"]) == "decode_item" and "scale_decode::visitor::types::" in l.rec["path"])}
        if not recv:
            rep.undecided("items", inst, "no loop over items found")
            continue
        want = receivers(a, inst)
        if want is not None and not recv <= want:
            rep.bad("items", inst, "items are taken from %s" % ", ".join(map(show, recv - want)), a.span)
            continue
        t = composite_transfer(a, rep, "items", inst, recv)
        named_rule(a, rep, inst, recv)
        if "fields" in inst and "decode_as" in inst:
            continue
        for e in a.ends("ret"):
            if retkind(e.val) != "Ok":
                continue
            objs = {x for x in e.val.atoms if x.op == "obj"}
            if objs & t.containers:
                rep.ok("result", inst)
            elif vague(e.val) is None and t.containers:
                rep.bad("result", inst, "returns %s, not what was collected" % show(norm(e.val))[:200], a.span)
            else:
                rep.undecided("result", inst, "cannot tell what is returned")


def receivers(a, inst):
    out = {a.arg(1)}
    for e in a.events(lambda l: l.rec["path"].endswith("variant::Variant::fields") or l.rec["path"].endswith("types::composite::Composite::new")):
        out.add(e.res)
    return out


def named_rule(a, rep, inst, recv):
    if not any(is_adt(x, "value_type::Composite", "Named") for e in a.ends("ret") for x in walk(e.val)):
        return

    def left(t):
        return t.op == "call" and t.a[0].endswith("composite::Composite::remaining") and t.a[1].op != "mut"

    def step(s, l):
        rem, unn, got, odd, facts = s
        if l.kind == "br":
            t, o = l.term, l.out
            if t.op == "bin" and t.a[0] == "Eq" and t.a[1].op == "call" and t.a[1].a[0].endswith("composite::Composite::remaining") and t.a[2].op == "int" and t.a[2].a[0] == 0 and t.a[1].a[1].op != "mut":
                rem = o
            facts = facts | {x for x in relfacts(l) if any(left(y) for y in x[:2])}
            if t.op == "res" and last(t.a[2]) == "decode_item" and o == "Some":
                got = True
            if t.op == "call" and t.a[0].endswith("composite::Composite::has_unnamed_fields"):
                unn = o
            return (rem, unn, got, odd, facts)
        if l.kind == "ret" and retkind(l.val) == "Ok":
            # the outermost composite built here
            for x in first_composites(l.val):
                if x.a[1] == "Named":
                    if unn is True:
                        return Bad("named", "fields without names are stored as named ones", a.span)
                    if rem is True:
                        return Bad("empty named", "a value without fields counts as having named fields", a.span)
                    if rem is None and unn is None:
                        return Bad("unconditional", "stores named fields without having asked whether there are names", a.span)
                elif x.a[1] == "Unnamed":
                    none = any(interval(facts, y, 0)[1] == 0 for x in facts for y in x[:2] if left(y))
                    if unn is False and (rem is False or (got and not none)) or unn is None and got and not none and not odd:
                        return Bad("unnamed", "the names of the fields are dropped", a.span)
            return None
        return s

    bads = a.automaton((None, None, False, False, frozenset()), step)
    for b in bads:
        rep.bad("names", inst, b.msg, b.where, b.path)
    if not bads:
        rep.ok("names", inst)


def first_composites(t):
    out = []
    st = [t]
    while st:
        x = st.pop()
        if is_adt(x, "value_type::Composite"):
            out.append(x)
            continue
        st += [y for y in x.a if y.__class__ is Term]
    return out


@prop("C04")
def c04(rep):
    rep.rule("propagate", "no path on which a callee reported a decoding error returns success")
    p = prog("all")
    n = 0
    for r in all_roots(p):
        out = p.ty(p.bodies[r["inst"]]["locals"][0])["s"]
        if "DecodeError" in out or "scale_decode::Error" in out or "scale_decode::error::Error" in out or "TraceDecodingError" in out:
            if "Result" not in out:
                continue
            a = An(p, r)
            rep.saw(a)
            err_propagation(a, rep, "propagate", rname(r))
            n += 1
    if n < 10:
        rep.bad("anchor", "decoding functions", "only %d functions that report decoding errors were found" % n)


# ---------------------------------------------------------------- allocation
CAP = {
    "alloc::vec::Vec::with_capacity": 0,
    "alloc::vec::Vec::reserve": 1,
    "alloc::vec::Vec::reserve_exact": 1,
    "alloc::string::String::with_capacity": 0,
    "alloc::string::String::reserve": 1,
    "scale_bits::bits::bits::Bits::with_capacity": 0,
    "alloc::vec::from_elem": 1,
    "alloc::vec::Vec::resize": 1,
}
LIMIT = 1 << 20
CAP_SOURCES = ("sequence::Sequence::remaining", "array::Array::remaining", "tuple::Tuple::remaining", "size_hint", "composite::Composite::remaining")
# sizes that come from the type information, not from the input
TYPE_SIZES = ("composite::Composite::remaining", "tuple::Tuple::remaining")


def cap_bound(t, facts):
    """upper bound of a size, None if the input decides, "type"/"mem" if it is bounded otherwise"""
    f = facts.get(t)
    if t.op == "int":
        return t.a[0]
    if f is not None:
        return f
    if t.op == "len":
        return 0
    if t.op == "cast":
        return cap_bound(t.a[2], facts)
    if t.op == "call":
        if t.a[0] == "min":
            bs = [b for b in (cap_bound(x, facts) for x in t.a[1:]) if b is not None]
            return min(bs) if bs else None
        if t.a[0] == "max":
            bs = [cap_bound(x, facts) for x in t.a[1:]]
            return None if any(b is None for b in bs) else max(bs)
        if t.a[0].endswith(TYPE_SIZES) or t.a[0].endswith("::len"):
            return 0
    if t.op == "bin":
        x, y = cap_bound(t.a[1], facts), cap_bound(t.a[2], facts)
        if t.a[0] in ("Add",):
            return None if x is None or y is None else x + y
        if t.a[0] == "Mul":
            return None if x is None or y is None else max(x, 1) * max(y, 1)
        if t.a[0] in ("Sub", "Div", "Shr"):
            return x
        if t.a[0] in ("BitAnd", "Rem"):
            bs = [b for b in (x, y) if b is not None]
            return min(bs) if bs else None
    return None


def tainted(t):
    for x in walk(t):
        if x.op == "call" and x.a[0].endswith(("sequence::Sequence::remaining", "array::Array::remaining")):
            return "the number of items the input announces"
        if x.op == "res" and last(x.a[2]) == "size_hint":
            return "the number of items the serde format announces"
        if x.op == "arg" and len(x.a) > 1:
            continue
    return None


@prop("C05")
def c05(rep):
    rep.rule("capacity", "no allocation made before the items are there has a size that the input decides without a constant bound (at most %d entries)" % LIMIT)
    p = prog("all")
    n = 0
    for r in all_roots(p, lambda r: "encode::" not in r["canon"] and "to_string" not in r["canon"]):
        if not reaches(p, r["inst"], lambda rec: rec["path"] in CAP):
            continue
        a = An(p, r)
        if not a.complete:
            rep.undecided("capacity", rname(r), a.g.incomplete)
            continue
        rep.saw(a)
        inst = rname(r)
        cnt = [0]

        def step(s, l):
            if l.kind == "br" and l.term.op == "bin" and l.term.a[0] == "Lt":
                x, y = l.term.a[1], l.term.a[2]
                if x.op == "int" and l.out is False and tainted(y):
                    return s | {(y, x.a[0])}
                if y.op == "int" and l.out is True and tainted(x):
                    return s | {(x, y.a[0])}
                if l.out is True and tainted(x) and y.op == "len":
                    return s | {(x, 0)}
            if l.kind == "ev" and l.rec["path"] in CAP:
                t = l.args[CAP[l.rec["path"]]]
                cnt[0] += 1
                why = tainted(t)
                if why:
                    b = cap_bound(t, dict(s))
                    if b is None or b > LIMIT:
                        return Bad("cap " + l.rec["path"], "%s decides how much is allocated up front (%s)" % (why, show(norm(t))[:160]), l.span)
            return s

        bads = a.automaton(frozenset(), step)
        for b in bads:
            rep.bad("capacity", inst, b.msg, b.where, b.path)
        if not bads:
            rep.ok("capacity", inst, cnt[0])
            n += 1
    if n < 3:
        rep.bad("anchor", "allocations", "only %d functions allocate" % n)


@prop("C06")
def c06(rep):
    rep.rule("input", "decoding fields starts at the beginning of the given input, with the given fields and types")
    rep.rule("cursor", "on success the input is moved to what is left undecoded after all fields, having skipped what was not decoded")
    rep.rule("entry", "typed decoding hands the input, the type id and the types on as they are and returns the result unchanged")
    p = prog("all")
    todo = []
    for (tr, name), rs in p.byref.items():
        if name == "decode_as_fields":
            todo.append((rs[0], tr))
    for path in ("scale_impls::decode::decode_composite_as_fields", "scale::decode_as_fields"):
        r = fn_root(p, rep, path, required=path.startswith("scale::"))
        if r:
            todo.append((r, path))
    for r, inst in todo:
        a = An(p, r)
        rep.saw(a)
        inp, fl, ty = a.arg(0), a.arg(1), a.arg(2)
        news = a.events(lambda l: l.rec["path"].endswith("types::composite::Composite::new"))
        if not news:
            rep.undecided("input", inst, "does not go through a composite of scale-decode")
            continue
        for e in news:
            bad = None
            for i, x, w in ((1, inp, "input"), (2, fl, "fields"), (3, ty, "types")):
                rr = same(e.args[i], x)
                if rr == "bad":
                    bad = "decodes with %s as its %s" % (show(norm(e.args[i]))[:100], w)
                elif rr != "ok":
                    rep.undecided("input", inst, rr)
            if e.args[4].op == "int" and e.args[4].a[0] != 0:
                bad = "decodes the fields as if they were compact encoded"
            if bad:
                rep.bad("input", inst, bad, e.span)
            else:
                rep.ok("input", inst)

        def step(s, l):
            if l.kind == "ev":
                n = last(l.rec["path"])
                if n == "skip_decoding":
                    return ("skip", l.res)
                if n == "decode_item" and "scale_decode::visitor::types::composite" in l.rec["path"]:
                    return ("none", UNIT)
            if l.kind == "br" and s[0] == "skip" and l.term is s[1]:
                return ("skipped" if l.out == "Ok" else "none", s[1])
            if l.kind == "ret" and retkind(l.val) == "Ok":
                cur = l.mem.get(inp)
                if cur is None:
                    return Bad("not moved", "succeeds without moving the input forward", a.span)
                if s[0] != "skipped" :
                    return Bad("not skipped", "succeeds without having skipped what was not decoded", a.span)
                if cur.op == "call" and cur.a[0].endswith("bytes_from_undecoded"):
                    if base(cur.a[1]) in {base(e.res) for e in news}:
                        if cur.a[1].op == "stale":
                            return Bad("old cursor", "the input is moved to a position from before everything was skipped", a.span)
                        return None
                if vague(cur) is None:
                    return Bad("wrong cursor", "the input is moved to %s" % show(norm(cur))[:160], a.span)
                und.append("cannot tell where the input is moved to")
            return s

        und = []
        bads = a.automaton(("none", UNIT), step)
        for b in bads:
            rep.bad("cursor", inst, b.msg, b.where, b.path)
        for u in set(und):
            rep.undecided("cursor", inst, u)
        if not bads and not und:
            rep.ok("cursor", inst)
    for path in ("scale_impls::decode::decode_value_as_type", "scale::decode_as_type"):
        r = fn_root(p, rep, path, required=path.startswith("scale::"))
        if not r:
            continue
        a = An(p, r)
        rep.saw(a)
        evs = a.events(lambda l: l.rec["path"].endswith("decode::decode_with_visitor"))
        for e in evs:
            for i in range(3):
                rr = same(e.args[i], a.arg(i))
                report1(rep, "entry", path, rr, e.args[i], a, e.span)
            returned(a, rep, "entry", path, lambda t: "ok" if t is e.res else (vague(t, [e.res]) or "bad"))
        if evs and a.complete:
            for e in a.ends("ret"):
                if retkind(e.val) != "Err":
                    rr = advanced(e, a.arg(0))
                    if rr.__class__ is tuple:
                        rr = ("bad", "the input " + rr[1])
                    report1(rep, "entry", path + " (input)", rr, e.val, a)
