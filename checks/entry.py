"""What users call first: the entry points and the settings of printer and parser."""
from rules import *
from serdes import *
from serdes2 import shape, empty  # noqa: F401

B = "string_impls::to_string::ToWriterBuilder"
FS = "string_impls::from_string::FromStrBuilder"
SETTINGS = ("style", "custom_formatters", "indent_by", "leading_indent", "print_context")


def get(t, f):
    """field f of a struct that was built or updated"""
    while t.op == "upd":
        ks, vs = t.a[1], t.a[2:]
        for k, v in zip(ks, vs):
            n = k[-1] if k.__class__ is tuple else k
            if n == f:
                return v
        t = t.a[0]
    if t.op == "adt":
        x = field(t, f)
        if x is not None:
            return x
    return pr(t, f)


def text_of(t):
    """the text a new String holds, or None"""
    x = norm(t)
    while x.op == "call" and last(x.a[0]) in ("into", "to_string", "to_owned", "from", "clone") and x.a[-1].__class__ is Term:
        x = x.a[-1]
    if x.op == "str":
        return x.a[0]
    return None


def defaulted(a, t):
    """the result of Default::default() that nothing was done to"""
    b = norm(base(t))
    if t.op == "mut":
        return False
    if b.op == "call" and last(b.a[0]) == "default":
        return True
    return any(norm(e.res) is b and last(e.rec["path"]) == "default" and not e.args for e in a.events(lambda l: True))


def blank(a):
    """an empty text"""

    def f(t):
        s = text_of(t)
        if s is not None:
            return None if s == "" else ("bad", "the text %r instead of nothing" % s)
        b = norm(base(t))
        if defaulted(a, t):
            return None
        return empty(a)(t)

    return f


def const_text(w):
    def f(t):
        s = text_of(t)
        if s is not None:
            return None if s == w else ("bad", "the text %r instead of %r" % (s, w))
        return vague(norm(t)) or ("bad", "%s instead of the text %r" % (show(norm(t))[:80], w))

    return f


def none(t):
    if t.op == "adt":
        return None if t.a[1] == "None" else ("bad", "%s instead of nothing" % show(norm(t))[:80])
    return vague(t) or ("bad", "%s instead of nothing" % show(norm(t))[:80])


def no_list(a):
    def f(t):
        b = norm(base(t))
        if defaulted(a, t):
            return None
        return empty(a)(t)

    return f


def fields_are(rep, rule, name, a, spec, rest=()):
    """every return is a struct whose fields are as given; those in `rest` are as they were in the first argument"""
    rep.saw(a)
    if not a.complete:
        rep.undecided(rule, name, a.g.incomplete)
        return
    n = 0
    seen = set()
    for e in a.ends("ret"):
        if e.val in seen:
            continue
        seen.add(e.val)
        for f in tuple(spec) + tuple(x for x in rest if x not in spec):
            t = get(e.val, f)
            if f in spec and spec[f].__class__ is Term and t.op == "mut":
                r = ("bad", "what was given, changed afterwards")
            elif f in spec:
                r = shape(t, spec[f], ())
            else:
                o = pr(a.arg(0), f)
                if t.op == "mut" and base(t) is base(o):
                    r = ("bad", "something done to it")
                elif norm(t) is norm(o):
                    r = None
                elif norm(base(t)) is norm(o):
                    r = ("bad", "something done to it")
                else:
                    r = vague(t) or ("bad", "%s although it is another setting" % show(norm(t))[:80])
            if r is None:
                n += 1
            elif r.__class__ is tuple:
                rep.bad(rule, name, "the setting %s becomes %s" % (f, r[1]), a.span)
            else:
                rep.undecided(rule, name, "%s: %s" % (f, r))
    if n:
        rep.ok(rule, name, n)
    elif not seen:
        rep.bad(rule, name, "never returns", a.span)


def appended(rep, rule, name, a, fld, rest):
    """the function given is put at the end of the list, and nothing else changes"""
    rep.saw(a)
    if not a.complete:
        rep.undecided(rule, name, a.g.incomplete)
        return
    lst = norm(pr(a.arg(0), fld))
    f = norm(a.arg(1))
    und = set()

    def ours(t):
        return norm(base(t)) is lst

    def step(s, l):
        if l.kind == "ev":
            touched = [x for x in l.args if x.__class__ is Term and ours(x)]
            if not touched:
                return s
            m = last(l.rec["path"])
            if m in ("len", "is_empty", "capacity", "reserve", "reserve_exact", "iter"):
                return s
            v = is_push(l)
            if v is None:
                if m == "insert" and len(l.args) == 3 and norm(l.args[1]).op == "len" and norm(base(norm(l.args[1]).a[0])) is lst:
                    v = l.args[2]
                elif m in ("insert", "clear", "pop", "remove", "truncate", "swap_remove", "drain", "reverse", "sort", "dedup", "retain", "take", "replace", "rotate_left", "rotate_right", "swap"):
                    return Bad("list", "%s on the list instead of adding at its end" % m, l.span)
                else:
                    und.add("%s on the list" % m)
                    return None
            if norm(v) is not f and norm(base(v)) is not f:
                w = vague(v)
                if w:
                    und.add(w)
                    return None
                return Bad("list", "adds %s instead of the function given" % show(norm(v))[:80], l.span)
            if s == 1:
                return Bad("list", "adds the function twice", l.span)
            return 1
        if l.kind == "ret":
            t = get(l.val, fld)
            if s == 0:
                if norm(t) is lst or ours(t):
                    return Bad("list", "does not add the function", a.span)
                if base(t).op == "obj" and base(t).a[2].endswith("::new") and not any(any(x.__class__ is Term and ours(x) for x in e.args) for e in a.events(lambda x: True)):
                    return Bad("list", "the functions added before are gone", a.span)
                und.add("how the function is added is not understood")
            elif not ours(t):
                w = vague(t)
                if w is None:
                    return Bad("list", "the list becomes %s" % show(norm(t))[:80], a.span)
                und.add(w)
        return s

    bads = a.automaton(0, step)
    for b in bads:
        rep.bad(rule, name, b.msg, b.where or a.span, b.path)
    for u in und:
        rep.undecided(rule, name, u)
    if not bads and not und:
        rep.ok(rule, name)
    if rest:
        fields_are(rep, rule, name, a, {}, [x for x in rest if x != fld])


def number(n):
    def f(t):
        x = norm(t)
        if x.op == "int":
            return None if x.a[0] == n else ("bad", "the number %d instead of %d" % (x.a[0], n))
        return vague(x) or ("bad", "%s instead of %d" % (show(x)[:60], n))

    return f


def style(v, n=None):
    return (v, {} if n is None else {"0": number(n)})


@prop("C44")
def c44(rep):
    rep.rule("defaults", "a new printer prints in normal style, indents by two spaces, without leading text, contexts or formatters of others; a new parser knows no notations of others")
    rep.rule("settings", "each method of the two builders changes the one setting it is named after, to what it is given, and leaves the others as they are")
    rep.rule("order", "formatters and parsers are added at the end, each once, so that they are asked in the order they were added")
    p = prog("all")
    for path in (B + "::new", "stringify::to_writer_custom"):
        r = fn_root(p, rep, path, path.startswith("stringify"))
        if r:
            a = An(p, r)
            fields_are(rep, "defaults", path.split("::", 1)[1], a, {
                "style": style("Normal"), "custom_formatters": no_list(a), "indent_by": const_text("  "), "leading_indent": blank(a), "print_context": none})
    for path in (FS + "::new", "stringify::from_str_custom"):
        r = fn_root(p, rep, path, path.startswith("stringify"))
        if r:
            a = An(p, r)
            fields_are(rep, "defaults", path.split("::", 1)[1], a, {"custom_parsers": no_list(a)})
    for m, spec in (
        ("compact", lambda a: {"style": style("Compact")}),
        ("pretty", lambda a: {"style": ("Pretty", {"0": number(0)})}),
        ("leading_indent", lambda a: {"leading_indent": a.arg(1)}),
        ("indent_by", lambda a: {"indent_by": a.arg(1)}),
        ("format_context", lambda a: {"print_context": ("Some", {"0": a.arg(1)})}),
    ):
        r = fn_root(p, rep, B + "::" + m)
        if r:
            a = An(p, r)
            fields_are(rep, "settings", m, a, spec(a), SETTINGS)
    r = fn_root(p, rep, B + "::add_custom_formatter")
    if r:
        appended(rep, "order", "add_custom_formatter", An(p, r), "custom_formatters", SETTINGS)
    r = fn_root(p, rep, FS + "::add_custom_parser")
    if r:
        appended(rep, "order", "add_custom_parser", An(p, r), "custom_parsers", ())


# ------------------------------------------------------------ C45
HARMLESS = ("len", "is_empty", "capacity", "reserve", "reserve_exact", "iter", "clone", "as_ref", "as_slice", "as_mut", "borrow", "borrow_mut", "deref", "deref_mut", "by_ref", "to_owned")
EDITS = ("clear", "push", "truncate", "insert", "drain", "split_off", "resize", "pop", "remove", "swap_remove", "reverse", "append", "write_str", "write_char", "push_str", "rotate_left", "rotate_right", "splice")


def handed(rep, rule, name, a, callee, args, what, out=()):
    """on every path: one call of `callee` with exactly these arguments, and its result is returned"""
    rep.saw(a)
    if not a.complete:
        rep.undecided(rule, name, a.g.incomplete)
        return
    und = set()
    n = [0]
    outs = {norm(a.arg(i)) for i in out}

    def is_it(l):
        return l.rec["path"] in callee or l.name in callee or l.rec.get("rpath") in callee

    def step(s, l):
        if l.kind == "ev":
            if is_it(l):
                if s is not UNIT:
                    return Bad("twice", "%s twice" % what, l.span)
                for i, sp in enumerate(args):
                    if sp is None:
                        continue
                    t = l.args[i] if i < len(l.args) else None
                    if t is None:
                        und.add("%s has fewer arguments" % what)
                        return None
                    r = shape(t, sp, ())
                    if r.__class__ is tuple:
                        return Bad("argument", "%s is given %s" % (what, r[1]), l.span)
                    if r is not None:
                        und.add(r)
                        return None
                return (l.res, None)
            m = last(l.rec["path"])
            for x in l.args:
                if x.__class__ is Term and norm(base(x)) in outs and m not in HARMLESS:
                    if m in EDITS or m.startswith("extend"):
                        return Bad("other", "%s on %s, which is for %s" % (m, show(norm(base(x))), what), l.span)
                    und.add("%s on %s" % (m, show(norm(base(x)))))
                    return None
            return s
        if l.kind == "br":
            if s is not UNIT and l.term is s[0]:
                return (s[0], l.out)
            return s
        if l.kind == "ret":
            if s is not UNIT:
                s, o = s
                if retkind(l.val) != "Err":
                    for x in outs:
                        r = advanced(l, x)
                        if r.__class__ is tuple:
                            return Bad("cursor", "%s %s" % (show(x), r[1]), a.span)
                        if r != "ok":
                            und.add(r)
                            return None
            if s is UNIT:
                w = vague(l.val)
                if l.val.op == "adt" and w is None and not any(is_it(e) for e in a.events(lambda x: True)):
                    w = "%s is not called" % what
                if w:
                    und.add(w)
                    return None
                return Bad("early", "returns %s without %s" % (show(norm(l.val))[:80], what), a.span)
            if l.val is not s and norm(l.val) is not norm(s) and norm(base(l.val)) is not norm(base(s)):
                # the same outcome taken apart and put together again
                v = l.val
                k = retkind(v)
                if k in ("Ok", "Err", "Some") and len(v.a) > 3:
                    if norm(v.a[3]) is norm(pr(s, k + ".0")) or k == o and v.a[3].op == "tup" and not v.a[3].a:
                        n[0] += 1
                        return None
                if v.op == "tup":
                    w = None
                    for i, x in enumerate(v.a):
                        if norm(x) is norm(pr(s, str(i))):
                            continue
                        k = retkind(x)
                        if k in ("Ok", "Err") and norm(x.a[3]) is norm(pr(s, "%d.%s.0" % (i, k))):
                            continue
                        w = vague(x, [s]) or ("bad", show(norm(x))[:80])
                        if w.__class__ is tuple:
                            return Bad("result", "returns %s instead of what %s gives" % (w[1], what), a.span)
                    if w is None:
                        n[0] += 1
                        return None
                w = vague(v)
                if w:
                    und.add(w)
                    return None
                return Bad("result", "returns %s instead of the outcome of %s" % (show(norm(v))[:100], what), a.span)
            n[0] += 1
        return s

    bads = a.automaton(UNIT, step)
    for b in bads:
        rep.bad(rule, name, b.msg, b.where or a.span, b.path)
    for u in und:
        rep.undecided(rule, name, u)
    if not bads and not und:
        rep.ok(rule, name, max(1, n[0]))


def anew(a, spec):
    """a struct whose fields are like that"""

    def f(t):
        t = base(t)
        for k, s in spec(a).items():
            r = shape(get(t, k), s, ())
            if r is not None:
                return r if r.__class__ is not tuple else ("bad", "the setting %s: %s" % (k, r[1]))
        return None

    return f


def default_writer(a):
    return {"style": style("Normal"), "custom_formatters": no_list(a), "indent_by": const_text("  "), "leading_indent": blank(a), "print_context": none}


@prop("C45")
def c45(rep):
    rep.rule("hand-over", "an entry point calls the function that does the work once, with exactly what it was given in the right places and default settings, and returns what that gives")
    p = prog("all")

    def opq(w):
        c = p.bodies[w["inst"]]["canon"]
        return {c, w["path"], "scale_value::" + w["path"], rname(w)}, (lambda x, rc: x == c)

    # parsing and printing
    r = fn_root(p, rep, "stringify::from_str")
    w = fn_root(p, rep, FS + "::parse")
    if r and w:
        ps, o = opq(w)
        a = An(p, r, opaque=o)
        handed(rep, "hand-over", "from_str", a, ps, [anew(a, lambda a: {"custom_parsers": no_list(a)}), a.arg(0)], "parsing")
    r = fn_root(p, rep, "stringify::to_writer")
    w = fn_root(p, rep, B + "::write")
    if r and w:
        ps, o = opq(w)
        a = An(p, r, opaque=o)
        handed(rep, "hand-over", "to_writer", a, ps, [anew(a, default_writer), a.arg(0), a.arg(1)], "writing")
    r = fn_root(p, rep, "stringify::to_string")
    if r:
        a = An(p, r)
        rep.saw(a)
        for e in a.ends("ret"):
            x = norm(e.val)
            if x.op == "call" and last(x.a[0]) == "to_string" and norm(x.a[-1]) is norm(a.arg(0)):
                rep.ok("hand-over", "to_string")
            elif x.op == "call" and x.a[0] == "format" and len(x.a) == 2 and x.a[1].op == "fmtarg" and x.a[1].a[0] == "Display" and norm(x.a[1].a[2]) is norm(a.arg(0)):
                if x.a[1].a[3] is None:
                    rep.ok("hand-over", "to_string")
                elif x.a[1].a[3].__class__ is tuple and x.a[1].a[3][0] & (1 << 23):
                    rep.bad("hand-over", "to_string", "gives the alternate form of the text", a.span)
                else:
                    rep.undecided("hand-over", "to_string", "how the text is formatted is not understood")
            elif x.op in ("fmt", "fmtarg", "concat") or vague(x) or x.op == "obj":
                rep.undecided("hand-over", "to_string", "how the text is made is not understood")
            else:
                rep.bad("hand-over", "to_string", "gives %s instead of the text of the value" % show(x)[:100], a.span)
    # encoding
    ref = "<value_type::Value<T> as scale_encode::EncodeAsType>"
    r = fn_root(p, rep, "scale::encode_as_type")
    if r:
        w = impl_root(p, rep, ref, "encode_as_type_to")
        if w:
            ps, o = opq(w)
            a = An(p, r, opaque=o)
            handed(rep, "hand-over", "encode_as_type", a, ps, [a.arg(0), a.arg(1), a.arg(2), a.arg(3)], "encoding", [3])
    # decoding
    V = "scale_decode::visitor::decode::decode_with_visitor"
    r = fn_root(p, rep, "scale::decode_as_type")
    if r:
        a = An(p, r)
        handed(rep, "hand-over", "decode_as_type", a, {V, "scale_decode::visitor::decode_with_visitor"}, [a.arg(0), a.arg(1), a.arg(2), plain("DecodeValueVisitor")], "decoding", [0])
    r = fn_root(p, rep, "scale::tracing::decode_as_type")
    if r:
        a = An(p, r)
        handed(rep, "hand-over", "tracing::decode_as_type", a, {V, "scale_decode::visitor::decode_with_visitor"}, [a.arg(0), a.arg(1), a.arg(2), root_visitor(a)], "decoding", [0])
    # serde
    r = fn_root(p, rep, "serde::from_value")
    if r:
        a = An(p, r)
        handed(rep, "hand-over", "from_value", a, {"serde_core::de::Deserialize::deserialize"}, [a.arg(0)], "deserializing")
    r = fn_root(p, rep, "serde::to_value")
    if r:
        a = An(p, r)
        handed(rep, "hand-over", "to_value", a, {"serde_core::ser::Serialize::serialize"}, [a.arg(0), plain("ValueSerializer")], "serializing")


def plain(name):
    def f(t):
        t = base(t)
        if t.op == "adt":
            return None if last(t.a[0]) == name or t.a[1] == name else ("bad", "%s instead of a %s" % (show(t)[:60], name))
        return vague(t) or "what kind of %s it is is not understood" % name

    return f


def root_visitor(a):
    """a tracing visitor whose path is empty"""

    def f(t):
        t = base(t)
        if t.op != "adt":
            return vague(t) or "the visitor is not understood"
        x = get(t, "path")
        x = base(x)
        if x.op == "adt":
            x = x.a[3]
        return no_list(a)(x)

    return f
