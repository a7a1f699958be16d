"""Encoding values into SCALE bytes."""
from rules import *

ENC = "<value_type::Value<T> as scale_encode::EncodeAsType>"
FLD_V = "<value_type::Value<T> as scale_encode::EncodeAsFields>"
FLD_C = "<value_type::Composite<T> as scale_encode::EncodeAsFields>"
APPEND = ("alloc::vec::Vec::extend_from_slice", "alloc::vec::Vec::append", "core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::extend", "parity_scale_codec::codec::Output::write")
CLEAR = ("alloc::vec::Vec::clear", "alloc::vec::Vec::truncate")


def appends(l):
    return l.rec["path"] in APPEND or l.name in APPEND or last(l.rec["path"]) in ("extend_from_slice", "append")


def clears(l):
    return l.rec["path"] in CLEAR or l.name in CLEAR


def is_vec(t):
    return t.op == "obj" and len(t.a) > 2 and "Vec" in str(t.a[2])


def encoders(l):
    n = last(l.rec["path"])
    return n.startswith("encode") and (n.endswith("_to") or n.endswith("_as_type_to") or "encode_using_format" in n) or l.name == "verif_models::emitted_bits"


def buffer_of(a, l):
    """the byte buffer an event writes to"""
    out = a.arg(a.nargs() - 1)
    if appends(l) or clears(l):
        b = base(l.args[0])
        return b if b is out or b.op == "obj" else None
    if encoders(l):
        for x in reversed(l.args):
            b = base(x)
            if b is out or is_vec(b):
                return b
    return None


def enc_root(p, rep):
    return impl_root(p, rep, ENC, "encode_as_type_to")


def sub(p, rep, rule):
    r = enc_root(p, rep)
    if not r:
        return None
    a = An(p, r)
    rep.saw(a)
    if not a.complete:
        rep.undecided(rule, "encode_as_type_to", a.g.incomplete)
        return None
    return a


@prop("C10")
def c10(rep):
    rep.rule("atomic", "bytes of an attempt that failed never reach the output; what a composite writes there is exactly one attempt that succeeded")
    rep.rule("untouched", "when a composite cannot be encoded the output is as it was")
    p = prog("all")
    a = sub(p, rep, "atomic")
    if not a:
        return
    out = a.arg(3)
    slf = a.arg(0)
    und = set()

    def appended(s, l, src):
        kind, failed, open_, done, full, tried, it, back = s
        if src in failed:
            return Bad("failed bytes", "appends what a failed attempt wrote to the output", l.span)
        if done and kind == "Composite":
            return Bad("twice", "appends to the output more than once", l.span)
        return (kind, failed, open_, 1, full - {src}, 1, None, back)

    def step(s, l):
        # full: local buffers with bytes that are not in the output yet; tried: something was attempted;
        # it: (item, buffer, moved?) while the bytes of a buffer are moved one by one
        kind, failed, open_, done, full, tried, it, back = s
        if l.kind == "br":
            if l.term.op == "fld" and base(l.term.a[0]) is slf and l.term.a[2] == "value" and kind is None:
                return (l.out, failed, open_, done, full, tried, it, back)
            if it and l.term is it[0]:
                if l.out == "None":
                    return appended(s, l, it[1])
                return (kind, failed, open_, done, full, tried, (it[0], it[1], 0), back)
            if l.out == "Err":
                tried = 0
                s = s[:5] + (0,) + s[6:]
                for ev_res, b in open_:
                    if l.term is ev_res:
                        return (kind, failed | {b}, open_ - {(ev_res, b)}, done, full - {b}, tried, it, back)
            return s
        if l.kind == "ev":
            if last(l.rec["path"]) == "resolve_type":
                return (kind, failed, open_, done, full, 1, it, back)
            if last(l.rec["path"]) == "next" and l.args and (base(l.args[0]) in full or base(l.args[0]) in failed):
                b = base(l.args[0])
                if it and it[1] is b and not it[2]:
                    return Bad("lost bytes", "drops bytes of an attempt", l.span)
                return (kind, failed, open_, done, full, tried, (l.res, b, 1), back)
            if is_push(l) is not None and base(l.args[0]) is out:
                v = is_push(l)
                if it and norm(base(v)) is norm(pr(it[0], "Some.0")):
                    return (kind, failed, open_, done, full, tried, (it[0], it[1], 1), back)
                und.add("bytes are written one by one")
                return None
            b = buffer_of(a, l)
            if b is None:
                p = l.rec["path"]
                if p == "scale_encode::error::Error::new" or p.endswith("error::Error::custom_str"):
                    return s[:5] + (0,) + s[6:]
                return s
            if clears(l):
                if l.name.endswith("truncate"):
                    n = l.args[1]
                    if b is out:
                        # back to the length it had at the start, or after it was last put right
                        if n.op == "int":
                            return Bad("dropped", "drops what was in the output before", l.span)
                        if n.op == "len" and n.a[0] is not out and base(n.a[0]) is out and not back:
                            return Bad("late length", "cuts the output back to a length taken after something was written to it", l.span)
                        if not (n.op == "len" and base(n.a[0]) is out):
                            und.add("cuts a buffer back to a length that cannot be told")
                            return None
                    elif not (n.op == "int" and n.a[0] == 0):
                        und.add("cuts a buffer back to a length that cannot be told")
                        return None
                elif b is out:
                    return Bad("dropped", "drops what was in the output before", l.span)
                return (kind, failed - {b}, open_, 0 if b is out else done, full - {b}, tried, it, back or b is out)
            if appends(l) and b is out:
                return appended(s, l, base(l.args[1]))
            if b in failed:
                return Bad("reused", "tries again in a buffer that still holds what a failed attempt wrote", l.span)
            if b is out:
                done = 1
            else:
                full = full | {b}
            if l.res is not None and l.res.op == "res":
                open_ = open_ | {(l.res, b)}
            return (kind, failed, open_, done, full, 1, it, back)
        if l.kind == "ret":
            k = retkind(l.val)
            if kind == "Composite":
                if k == "Err" and done:
                    return Bad("touched", "fails after having written to the output", a.span)
                if k == "Ok" and not done and (full or not tried):
                    return Bad("nothing", "succeeds without writing anything to the output", a.span)
            return None
        return s

    bads = a.automaton((None, frozenset(), frozenset(), 0, frozenset(), 0, None, False), step)
    for b in bads:
        rep.bad("untouched" if b.key == "touched" else "atomic", "encode_as_type_to", b.msg, b.where, b.path)
    for u in und:
        rep.undecided("atomic", "encode_as_type_to", u)
    if not bads and not und:
        n = len([e for e in a.events(lambda l: buffer_of(a, l) is not None)])
        rep.ok("atomic", "encode_as_type_to", n)
        rep.ok("untouched", "encode_as_type_to", len(a.ends("ret")))


PRIMS = ("Bool", "Char", "String", "U128", "I128", "U256", "I256")


def values_of(comp):
    """the vectors of a composite and what one of their items is"""
    n = pr(comp, "Named.0")
    u = pr(comp, "Unnamed.0")
    return {n: "Named", u: "Unnamed"}


def over(l, vecs):
    """which of the vectors an event takes the next item of"""
    if last(l.rec["path"]) in ("next", "next_back") and "Iterator" in l.rec["path"] or l.name.endswith("Iterator>::next"):
        b = base(l.args[0])
        return vecs.get(b)
    return None


@prop("C11")
def c11(rep):
    rep.rule("dispatch", "a primitive, bit sequence or variant is handed to the encoder unchanged: its own payload (no conversion), the type id and types that were asked for, the output; the encoder's answer is the answer")
    rep.rule("fields", "fields are handed on with their own names (none if unnamed), all of them, in order; the variant keeps its name")
    rep.rule("shape", "only composites encode as fields")
    p = prog("all")
    a = sub(p, rep, "dispatch")
    if not a:
        return
    slf, tid, types, out = [a.arg(i) for i in range(4)]
    v = pr(slf, "value")
    want = {}
    for k in PRIMS:
        want[("Primitive", k)] = pr(v, "Primitive.0.%s.0" % k)
    want[("BitSequence", None)] = pr(v, "BitSequence.0")
    seen = set()
    und = set()

    def step(s, l):
        kind, prim, evr = s
        if l.kind == "br":
            if l.term is v and kind is None:
                return (l.out, prim, evr)
            if l.term.op == "fld" and l.term.a[0] is v and l.term.a[1] == "Primitive":
                return (kind, l.out, evr)
            return s
        if l.kind == "ev" and kind in ("Primitive", "BitSequence") and encoders(l):
            pay = want.get((kind, prim))
            if pay is None:
                und.add("the kind of primitive is not known where it is encoded")
                return None
            r = same(l.args[0], pay)
            if r == "bad":
                return Bad("payload %s" % prim, "a %s is encoded as %s" % (prim or kind, show(norm(l.args[0]))[:160]), l.span)
            if r != "ok":
                und.add(r)
                return None
            if l.args[0] is not pay and "cast" in show(l.args[0]):
                pass
            if len(l.args) > 2:
                for x, w, nm in ((l.args[1], tid, "type"), (l.args[2], types, "registry")):
                    if same(x, w) == "bad":
                        return Bad("ids", "encodes for another %s: %s" % (nm, show(norm(x))[:100]), l.span)
            if evr is not UNIT:
                return Bad("again", "encodes the value twice", l.span)
            seen.add((kind, prim))
            return (kind, prim, l.res)
        if l.kind == "ret" and kind in ("Primitive", "BitSequence"):
            if evr is UNIT:
                if retkind(l.val) == "Err":
                    return Bad("refused %s" % prim, "a %s is never encoded: fails at once" % (prim or kind), a.span)
                return Bad("skipped %s" % prim, "succeeds without encoding the %s" % (prim or kind), a.span)
            if l.val is not evr and retkind(l.val) != "Err" and not (retkind(l.val) == "Ok"):
                und.add("cannot tell what is returned")
            return None
        return s

    bads = a.automaton((None, None, UNIT), step)
    for b in bads:
        rep.bad("dispatch", b.key, b.msg, b.where, b.path)
    for u in und:
        rep.undecided("dispatch", "encode_as_type_to", u)
    if not bads and not und:
        miss = set(want) - seen
        if miss:
            rep.undecided("dispatch", "encode_as_type_to", "no encoder seen for %s" % sorted(map(str, miss)))
        else:
            rep.ok("dispatch", "encode_as_type_to", len(seen))
    handed_on(a, rep, "encode_as_type_to", {pr(v, "Composite.0"): None, pr(v, "Variant.0.values"): pr(v, "Variant.0.name")}, {1: tid, 2: types})
    for tr, comp in ((FLD_V, "value.Composite.0"), (FLD_C, "")):
        r = impl_root(p, rep, tr, "encode_as_fields_to")
        if not r:
            continue
        b = An(p, r)
        rep.saw(b)
        c = pr(pr(b.arg(0), "value"), "Composite.0") if comp else b.arg(0)
        inst = short(tr) + "::encode_as_fields_to"
        handed_on(b, rep, inst, {c: None}, {1: b.arg(1), 2: b.arg(2), 3: b.arg(3)})
        if comp:
            vv = pr(b.arg(0), "value")

            def sh(s, l, vv=vv):
                if l.kind == "br" and l.term is vv:
                    return l.out
                if l.kind == "ret" and s is not None and s != "Composite" and retkind(l.val) != "Err":
                    if not (s.__class__ is tuple and "Composite" in s):
                        return Bad("shape", "a value that is not a composite (%s) is encoded as fields" % (s,), b.span)
                return s

            bb = b.automaton(None, sh)
            for x in bb:
                rep.bad("shape", inst, x.msg, x.where, x.path)
            if not bb:
                rep.ok("shape", inst)


def short(tr):
    return tr.split(" as ")[0].lstrip("<").split("<")[0].rsplit("::", 1)[-1]


DELEG = ("encode_composite_as_type_to", "encode_composite_fields_to", "encode_variant_as_type_to", "encode_variant_fields_to", "encode_as_fields_to")


def handed_on(a, rep, inst, comps, pass_args):
    """fields given to scale-encode are those of the composite"""
    if not a.complete:
        rep.undecided("fields", inst, a.g.incomplete)
        return
    vecs = {}
    names = {}
    for c, nm in comps.items():
        for vv, k in values_of(c).items():
            vecs[vv] = (k, vv)
            names[vv] = nm
    und = set()
    cnt = [0]

    def step(s, l):
        sink, vec, ph, R, fl = s
        if l.kind == "ev":
            if l.name == "verif_models::emitted_bits":
                return (UNIT, UNIT, "idle", UNIT, UNIT)
            if l.name == "verif_models::new_sink":
                return (l.res, UNIT, "idle", UNIT, UNIT)
            if sink is UNIT:
                d = last(l.rec["path"]) in DELEG and l.rec["path"].startswith("scale_encode::")
                if d and last(l.rec["path"]) != "encode_as_fields_to":
                    und.add("fields are handed to %s in a way that is not understood" % l.name)
                return s
            o = over(l, vecs)
            if o:
                if last(l.rec["path"]) == "next_back":
                    return Bad("reversed", "fields are taken from the end", l.span)
                if ph == "item":
                    return Bad("dropped", "a field is left out", l.span)
                return (sink, o[1], "asked", l.res, UNIT)
            if l.rec["path"].endswith("CompositeField::new"):
                return (sink, vec, ph, R, mk("tup", l.res, l.args[0]))
            if l.name == "verif_models::emit" and base(l.args[0]) is sink:
                if l.args[1].op != "tup":
                    return (UNIT, UNIT, "idle", UNIT, UNIT)
                if vec is UNIT:
                    und.add("fields come from somewhere else: %s" % show(l.args[0]))
                    return None
                it = l.args[1]
                named = vecs[vec][0] == "Named"
                key = pr(R, "Some.0.0") if named else None
                val = pr(R, "Some.0.1") if named else pr(R, "Some.0")
                if it.op != "tup":
                    und.add("what is handed on cannot be told")
                    return None
                if named:
                    k = it.a[0]
                    if retkind(k) == "None":
                        return Bad("unnamed", "named fields lose their names", l.span)
                    kv = okval(k)
                    r = same(kv, key) if kv is not None else vague(k) or "bad"
                else:
                    r = "ok" if retkind(it.a[0]) == "None" else vague(it.a[0]) or "bad"
                if r == "bad":
                    return Bad("name", "a field is handed on under the name %s" % show(norm(it.a[0]))[:120], l.span)
                if r != "ok":
                    und.add(r)
                    return None
                fv = it.a[1]
                if fl is not UNIT and fv is fl.a[0]:
                    fv = fl.a[1]
                r = same(fv, val)
                if r == "bad":
                    return Bad("value", "a field is handed on as %s" % show(norm(fv))[:120], l.span)
                if r != "ok":
                    und.add(r)
                    return None
                cnt[0] += 1
                return (sink, vec, "idle", UNIT, UNIT)
            if last(l.rec["path"]) in DELEG:
                f = l.args[0]
                if is_adt(f, "Variant"):
                    nm = field(f, "name")
                    fs = field(f, "fields")
                    if vec is not UNIT and names.get(vec) is not None:
                        r = same(nm, names[vec])
                        if r == "bad":
                            return Bad("variant name", "the variant is encoded under the name %s" % show(norm(nm))[:120], l.span)
                        if r != "ok":
                            und.add(r)
                    f = fs
                if base(f) is sink:
                    if ph in ("item", "asked", "idle") and vec is not UNIT and ph != "end":
                        return Bad("partial", "only some of the fields are handed on", l.span)
                else:
                    und.add("fields come from somewhere else: %s" % show(l.args[0]))
                    return None
                for i, w in pass_args.items():
                    x = l.args[i]
                    if base(x) is w or is_vec(base(x)):
                        continue
                    if same(x, w) == "bad" and not (i == 1 and "resolve_type" in show(x)):
                        return Bad("arg%d" % i, "is encoded with %s in place of %s" % (show(norm(x))[:100], show(w)), l.span)
                return (UNIT, UNIT, "idle", UNIT, UNIT)
            return s
        if l.kind == "br" and l.term is R and R is not UNIT:
            return (sink, vec, "end" if l.out == "None" else "item", R, fl)
        return s

    bads = a.automaton((UNIT, UNIT, "idle", UNIT, UNIT), step)
    for b in bads:
        rep.bad("fields", inst, b.msg, b.where, b.path)
    for u in und:
        rep.undecided("fields", inst, u)
    if not bads and not und:
        if cnt[0]:
            rep.ok("fields", inst, cnt[0])
        else:
            rep.undecided("fields", inst, "no fields are handed on")


# ------------------------------------------------------------ items of sequences and arrays
class Items:
    """follows one attempt at encoding the items of a composite as a sequence, an array
    or bits"""

    def __init__(self, a, rep, comp):
        self.a, self.rep = a, rep
        self.vecs = {v: (k, v) for v, k in values_of(comp).items()}
        self.types = a.arg(2)
        self.out = a.arg(3)
        self.und = collections.defaultdict(set)
        self.n = collections.Counter()

    # state: (mode, R, phase, item, vec, prefixed, lenok, second)
    INIT = (None, UNIT, "start", UNIT, UNIT, False, None)

    def step(self, s, l):
        mode, R, ph, item, vec, pre, lok = s
        a = self.a
        if l.kind == "br":
            t = l.term
            if t.op == "res" and last(t.a[2]) == "resolve_type":
                if (t in self.writing) and l.out in ("visit_sequence", "visit_array", "visit_bit_sequence"):
                    return (l.out, t, "start", UNIT, UNIT, False, None)
                return ("other", t, "start", UNIT, UNIT, False, None)
            if item is not UNIT and t is item and ph in ("asked", "item", "end"):
                return (mode, R, "end" if l.out == "None" else "item", item, vec, pre, lok)
            if mode == "visit_array":
                n = pr(R, "visit_array.1")
                for x, y, rel in relfacts(l):
                    if n in (x, y):
                        o = y if x is n else x
                        if o.op == "len" and base(o.a[0]) in self.vecs:
                            rel = rel if x is n else "".join(FLIP[c] for c in rel)
                            rel = set(rel) & set(lok or "<=>")
                            return (mode, R, ph, item, vec, pre, "".join(sorted(rel)))
            if l.out == "Err" and t.op == "res" and encodes(t):
                return self.off(s)
            return s
        if l.kind == "ev":
            p = l.rec["path"]
            if p == "scale_encode::error::Error::new" or p.endswith("error::Error::custom_str") or last(p) in ("at_idx", "at_field", "at_variant"):
                return self.off(s)
            o = over(l, self.vecs)
            if o:
                if mode in ("visit_sequence", "visit_array", "visit_bit_sequence"):
                    if last(p) == "next_back":
                        return Bad(mode + " reversed", "the items are taken from the end", l.span)
                    if ph == "item":
                        return Bad(mode + " dropped", "an item is left out of the %s" % mode[6:], l.span)
                    if ph == "asked":
                        self.und[mode].add("whether there was an item is not looked at")
                        return None
                    return (mode, R, "asked", l.res, o[1], pre, lok)
                # elsewhere: the first and only item
                if ph in ("second", "only", "many") and o[1] is vec:
                    return s
                if ph in ("item", "asked"):
                    return (mode, R, "second", item, vec, pre, l.res)
                return (mode, R, "asked", l.res, o[1], pre, lok)
            if mode == "visit_sequence" and last(p) == "encode_to" and l.rec["path"].startswith("parity_scale_codec") or (mode == "visit_sequence" and p.endswith("Compact::encode_to")):
                c = l.args[0]
                if pre:
                    return Bad("prefix twice", "the length is written twice", l.span)
                if ph != "start":
                    return Bad("prefix late", "the length is written after the first item", l.span)
                n = c.a[3] if is_adt(c, "Compact") else None
                if n is None:
                    if c.op in ("len", "cast") and vague(c) is None:
                        return Bad("not compact", "the length is not compact encoded", l.span)
                    self.und[mode].add("what is written before the items cannot be told")
                    return None
                m = n
                while m.op == "cast":
                    if m.a[1] in ("u8", "u16", "i8", "i16"):
                        return Bad("prefix cut", "the length is cut to %s" % m.a[1], l.span)
                    m = m.a[2]
                if m.op == "len" and base(strip_iter(m.a[0])) in self.vecs:
                    return (mode, R, ph, item, vec, True, lok)
                if vague(m) is None:
                    return Bad("prefix", "the length that is written is %s" % show(norm(m))[:120], l.span)
                self.und[mode].add("the length that is written cannot be told")
                return None
            if encodes_ev(l) and mode is not None:
                return self.encoded(s, l)
            if mode == "visit_bit_sequence":
                return self.bits(s, l)
            if appends(l) and base(l.args[0]) is self.out:
                r = self.check_end(s, l)
                return r if r else self.off(s)
            return s
        if l.kind == "ret" and retkind(l.val) == "Ok":
            r = self.check_end(s, l)
            return r
        return s

    def off(self, s):
        return ("off",) + self.INIT[1:]

    def check_end(self, s, l):
        mode, R, ph, item, vec, pre, lok = s
        if mode in ("visit_sequence", "visit_array"):
            if mode == "visit_sequence" and not pre:
                return Bad("no prefix", "a sequence is encoded without its length", self.a.span)
            if mode == "visit_array" and lok != "=":
                return Bad("array length", "an array is encoded without a check that the number of items is right", self.a.span)
            if ph != "end":
                return Bad(mode + " early", "stops before all items of the %s are encoded" % mode[6:], self.a.span)
            self.n[mode] += 1
        return None

    def encoded(self, s, l):
        mode, R, ph, item, vec, pre, lok = s
        v, t = l.args[0], l.args[1]
        if not mode.startswith("visit"):
            # taken out by its place
            x, named = norm(base(v)), None
            if x.op == "fld" and x.a[1:] == ("Some", "0"):
                x, named = base(x.a[0]), "Unnamed"
            elif x.op == "fld" and x.a[2] == "1" and base(x.a[0]).op == "fld" and base(x.a[0]).a[1:] == ("Some", "0"):
                x, named = base(base(x.a[0]).a[0]), "Named"
            if x.op == "call" and x.a[0] in ("core::slice::first", "core::slice::last", "core::slice::get") and named:
                w = base(strip_iter(x.a[1]))
                if w in self.vecs and self.vecs[w][0] == named:
                    if (interval(self.lens, mk("len", w))[1] or 2) > 1:
                        return Bad("single", "one value is encoded in place of the composite although there may be more", l.span)
                    self.n["single"] += 1
                    return s
        if vec is UNIT:
            return s
        named = self.vecs[vec][0] == "Named"
        it = pr(item, "Some.0.1" if named else "Some.0")
        r = same(v, it)
        tag = mode if mode.startswith("visit") else "single"
        if r == "bad":
            return Bad(tag + " item", "encodes %s in place of the item" % show(norm(v))[:140], l.span)
        if r != "ok":
            self.und[tag].add(r)
            return None
        if mode in ("visit_sequence", "visit_array"):
            want = pr(R, "visit_sequence.1" if mode == "visit_sequence" else "visit_array.0")
            r = same(t, want)
            if r == "bad":
                return Bad(mode + " type", "an item is encoded as %s, not as the item type of the %s" % (show(norm(t))[:120], mode[6:]), l.span)
            if r != "ok":
                self.und[mode].add(r)
                return None
            if mode == "visit_sequence" and not pre:
                return Bad("no prefix", "items are encoded before the length", l.span)
            if mode == "visit_array" and lok != "=":
                return Bad("array length", "items of an array are encoded before its length is checked", l.span)
            if ph != "item":
                return Bad(mode + " again", "an item is encoded twice", l.span)
            self.n[mode] += 1
            return (mode, R, "idle", item, vec, pre, lok)
        # one value in place of the composite
        if ph != "only" and (interval(self.lens, mk("len", vec))[1] or 2) > 1:
            if self.odd:
                self.und["single"].add("how many values the composite has is asked in a way that is not understood")
                return None
            return Bad("single", "one value is encoded in place of the composite although there may be more", l.span)
        self.n["single"] += 1
        return s

    def bits(self, s, l):
        return s


def strip_iter(t):
    while True:
        t = base(t)
        if is_adt(t, "Either") or is_adt(t, "Map"):
            t = t.a[3]
        else:
            return t


def encodes(t):
    return last(t.a[2]) in ("encode_as_type_to",) + DELEG


def encodes_ev(l):
    return last(l.rec["path"]) == "encode_as_type_to"


def writing_resolves(a):
    """lookups of a type that are given something to write to: the attempts"""
    out = a.arg(3)
    w = {e.res for e in a.events(lambda l: last(l.rec["path"]) == "resolve_type") if any(x is out or is_vec(x) for y in e.args for x in walk(y))}
    return w | {mk(x.op, x.a[0], 1 - x.a[1], *x.a[2:]) for x in w}


def item_rules(rep, want):
    p = prog("all")
    a = sub(p, rep, want[0])
    if not a:
        return None, None, None
    comp = pr(pr(a.arg(0), "value"), "Composite.0")
    it = Items(a, rep, comp)
    it.writing = writing_resolves(a)

    def step(S, l):
        lens, odd, s = S
        it.lens, it.odd = lens, odd
        # the second item of a composite: was there one?
        if l.kind == "br" and s[2] == "second" and s[6] is l.term:
            return (lens, odd, s[:2] + ("only" if l.out == "None" else "many",) + s[3:6] + (None,))
        if l.kind == "br":
            # what is known about the number of values
            r = frozenset(x for x in relfacts(l) if any(t.op == "len" and t.a[0] in it.vecs for t in x[:2]))
            if r:
                lens = lens | r
            elif l.term is not s[3] and any(contains(l.term, v) for v in it.vecs):
                odd = True
        r = it.step(s, l)
        return (lens, odd, r) if r.__class__ is tuple else r

    bads = a.automaton((frozenset(), False, Items.INIT), step)
    return a, it, bads


@prop("C12")
def c12(rep):
    rep.rule("sequence", "a composite encoded as a sequence starts with the compact number of its values; then each value, once, in order, as the item type")
    rep.rule("array", "a composite encoded as an array has exactly as many values as the array; each is encoded, once, in order, as the item type")
    a, it, bads = item_rules(rep, ("sequence",))
    if not a:
        return
    for b in bads:
        if "bit_sequence" in b.key or "single" in b.key:
            continue
        rep.bad("array" if "array" in b.key else "sequence", "encode_as_type_to", b.msg, b.where, b.path)
    for m, r in (("visit_sequence", "sequence"), ("visit_array", "array")):
        for u in it.und[m]:
            rep.undecided(r, "encode_as_type_to", u)
        if it.n[m]:
            rep.ok(r, "encode_as_type_to", it.n[m])
        elif not bads:
            rep.undecided(r, "encode_as_type_to", "no item is encoded")


@prop("C13")
def c13(rep):
    rep.rule("bit", "a bit comes from a boolean (the same) or from a number that was found to be 0 (false) or 1 (true); anything else is refused")
    rep.rule("all", "every value of the composite becomes one bit, in order, and the bits are written in the format of the type")
    p = prog("all")
    a = sub(p, rep, "bit")
    if not a:
        return
    comp = pr(pr(a.arg(0), "value"), "Composite.0")
    vecs = {v: (k, v) for v, k in values_of(comp).items()}
    und = set()
    n = [0]
    writing = writing_resolves(a)

    def val(vec, R):
        return pr(R, "Some.0.1" if vecs[vec][0] == "Named" else "Some.0")

    # (on, type result, phase, next result, vec, facts about the item, container)
    INIT = (False, UNIT, "start", UNIT, UNIT, frozenset(), UNIT)

    def step(S, l):
        # drain: how far the collected bits have been handed over
        drain, s = S
        if s[0] and s[2] == "end" and s[6] is not UNIT:
            if l.kind == "br" and drain is not None and l.term is drain:
                drain = "done" if l.out == "None" else "bit"
            if l.kind == "ev":
                n = last(l.rec["path"])
                if n in ("next", "next_back") and l.args and base(l.args[0]) is s[6]:
                    if n == "next_back":
                        return Bad("reversed", "the bits are written from the end", l.span)
                    if drain == "bit":
                        return Bad("dropped", "a bit is not written", l.span)
                    drain = l.res
                elif l.name == "verif_models::emit" and drain == "bit":
                    drain = None
                elif l.name == "verif_models::emitted_bits" and drain != "done":
                    return Bad("cut", "stops before all bits are written", l.span)
        else:
            drain = None
        r = step1(s, l)
        return (drain, r) if r.__class__ is tuple else r

    def step1(s, l):
        on, R, ph, item, vec, facts, cont = s
        if l.kind == "br":
            t = l.term
            if t.op == "res" and last(t.a[2]) == "resolve_type":
                return (l.out == "visit_bit_sequence" and t in writing, t, "start", UNIT, UNIT, frozenset(), UNIT)
            if not on:
                return s
            if t is item:
                return (on, R, "end" if l.out == "None" else "item", item, vec, frozenset(), cont)
            if ph == "item":
                x = t
                fs = relfacts(l)
                if fs:
                    return (on, R, ph, item, vec, facts | set(fs), cont)
            return s
        if l.kind == "ev" and on:
            o = over(l, vecs)
            if o:
                if ph == "item":
                    return Bad("dropped", "a value does not become a bit", l.span)
                if last(l.rec["path"]) == "next_back":
                    return Bad("reversed", "the bits are taken from the end", l.span)
                return (on, R, "asked", l.res, o[1], frozenset(), cont)
            if l.rec["path"].endswith("error::Error::custom_str") or l.rec["path"].endswith("error::Error::new"):
                return INIT
            v = is_push(l)
            if v is not None and ph in ("item", "idle", "start") and l.name != "verif_models::emit":
                if ph != "item":
                    return Bad("extra", "a bit is added that no value stands for", l.span)
                x = val(vec, item)
                q = pr(x, "value")
                q = pr(q, "Primitive.0")
                r = None
                nums = {pr(q, "U128.0"): 0, pr(q, "I128.0"): None}
                if v is pr(q, "Bool.0"):
                    r = "ok"
                elif v is TRUE or v is FALSE:
                    b = int(v is TRUE)
                    about = [f for f in facts if f[0] in nums or f[1] in nums]
                    for m, lo in nums.items():
                        i = interval(facts, m, lo)
                        if i[0] == i[1] == b:
                            r = "ok"
                    if r is None and about:
                        r = "a bit is %s for a number that was not found to be %d" % ("set" if b else "clear", b)
                elif v.op == "bin" and v.a[0] == "Eq" and v.a[1] in nums and v.a[2].op == "int":
                    lo, hi, exc = interval(facts, v.a[1], nums[v.a[1]])
                    if lo is None or hi is None or lo < 0 or hi > 1:
                        r = "a number that is neither 0 nor 1 becomes a bit"
                    elif v.a[2].a[0] == 1:
                        r = "ok"
                if r is None:
                    und.add(vague(v) or "cannot tell what the bit is: %s" % show(norm(v))[:100])
                    return None
                if r != "ok":
                    return Bad("bit", r, l.span)
                n[0] += 1
                return (on, R, "idle", item, vec, frozenset(), base(l.args[0]))
            if l.name == "verif_models::emitted_bits" or "encode_using_format" in l.rec["path"]:
                if ph != "end":
                    return Bad("early", "the bits are written before all values were looked at", l.span)
                f = l.args[1]
                st, od = pr(R, "visit_bit_sequence.0"), pr(R, "visit_bit_sequence.1")
                if is_adt(f, "Format"):
                    for x, w in ((field(f, "store"), st), (field(f, "order"), od)):
                        r = same(x, w)
                        if r == "bad":
                            return Bad("format", "the bits are written in the format %s" % show(norm(f))[:140], l.span)
                        if r != "ok":
                            und.add(r)
                return INIT
            if l.name in REORDER and base(l.args[0]) is cont and cont is not UNIT:
                return Bad("rearranged", "%s on the bits" % l.name, l.span)
        if l.kind == "ret" and on and retkind(l.val) == "Ok":
            return Bad("none", "succeeds without writing the bits", a.span)
        return s

    bads = a.automaton((None, INIT), step)
    for b in bads:
        rep.bad("bit" if b.key == "bit" else "all", "encode_as_type_to", b.msg, b.where, b.path)
    for u in und:
        rep.undecided("bit", "encode_as_type_to", u)
    if not bads and not und:
        if n[0]:
            rep.ok("bit", "encode_as_type_to", n[0])
            rep.ok("all", "encode_as_type_to")
        else:
            rep.undecided("bit", "encode_as_type_to", "no bits are collected")


@prop("C14")
def c14(rep):
    rep.rule("single", "one value is encoded in place of the composite holding it only if the composite has no other")
    rep.rule("type", "a type is looked through only if it has exactly one field (or is an array of length one), and then the type of that field is used")
    a, it, bads = item_rules(rep, ("single",))
    if not a:
        return
    for b in bads:
        if "single" in b.key:
            rep.bad("single", "encode_as_type_to", b.msg, b.where, b.path)
    for u in it.und["single"]:
        rep.undecided("single", "encode_as_type_to", u)
    if it.n["single"]:
        rep.ok("single", "encode_as_type_to", it.n["single"])
    elif not bads:
        rep.undecided("single", "encode_as_type_to", "no composite is ever replaced by its only value")

    # looking through types
    cnt = [0]

    def flds(R):
        return {pr(R, "visit_tuple.0"), pr(R, "visit_composite.1")}

    def step(s, l):
        R, one, nx = s
        if l.kind == "br":
            t = l.term
            if t.op == "res" and last(t.a[2]) == "resolve_type":
                return (t, None, UNIT)
            if R is not UNIT and t.op == "bin" and t.a[0] == "Eq":
                x, y = t.a[1], t.a[2]
                if y.op == "int" and x.op == "len" and base(x.a[0]) in flds(R) or y.op == "int" and x is pr(R, "visit_array.1"):
                    if y.a[0] == 1 and l.out:
                        return (R, "one", nx)
            if R is not UNIT and nx is not UNIT and t is nx and l.out == "None" and one == "first":
                return (R, "one", nx)
            return s
        if l.kind == "ev":
            p = l.rec["path"]
            if R is not UNIT and last(p) == "next" and base(l.args[0]) in flds(R):
                cnt[0] += 1
                if one == "one":
                    return (R, "one", l.res)
                return (R, "first" if one is None else "second", l.res)
            if R is not UNIT and last(p) != "resolve_type" or True:
                # is the type of the field used?
                for x in l.args:
                    for y in x.atoms if x.op == "res" else ():
                        pass
                used = [x for x in l.args if x.op == "fld" and uses(x, R, nx)]
                if used and looks(l) and one != "one":
                    return Bad("type", "looks through a type that may have more than one field", l.span)
                if used and looks(l):
                    cnt[0] += 1
        return s

    def uses(x, R, nx):
        if R is UNIT:
            return False
        if x is pr(R, "visit_array.0"):
            return True
        y = x
        while y.op == "fld":
            y = y.a[0]
        return nx is not UNIT and y is nx

    def looks(l):
        n = last(l.rec["path"])
        if n == "resolve_type":
            return True
        return l.rec["path"].endswith(a_rec)

    a_rec = tuple({e.rec["path"] for e in a.events(lambda l: l.rec["path"].startswith("scale_value") or "scale_impls::encode" in l.rec["path"]) if last(e.rec["path"]) not in ("encode_as_type_to",)}) or ("\0",)
    bads = a.automaton((UNIT, None, UNIT), step)
    for b in bads:
        rep.bad("type", "encode_as_type_to", b.msg, b.where, b.path)
    if not bads:
        if cnt[0]:
            rep.ok("type", "encode_as_type_to", cnt[0])
        else:
            rep.undecided("type", "encode_as_type_to", "no type is looked through")
