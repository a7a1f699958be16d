"""The position and the partial value that tracing errors report."""
from rules import *
from serdes import adaptors, CHANGERS
from decode import visitor_roots, short, item_sources, receivers, is_push_vec

TE = "tracing_decoder::"
PUSHED = dict(pushed=("PathSegment",), widen_after=3)


def segments(t, prefix):
    """Path term -> the segments added to prefix, or None"""
    if t.op == "upd" and t.a[1] == (("f", "", "0"),):
        t = t.a[2]
    elif is_adt(t, TE + "path::Path"):
        t = field(t, "0")
    else:
        t = pr(t, "0")
    out = []
    while t is not prefix:
        if t.op != "call" or t.a[0] != "pushed":
            return None
        out.append(t.a[2])
        t = t.a[1]
    return out[::-1]


def seg_name(s, kind):
    return field(s, "0") if is_adt(s, TE + "path::PathSegment", kind) else None


class Trace:
    def __init__(self, a, inst):
        self.a, self.inst = a, inst
        self.recv = {base(e.args[0]) for e in a.events(lambda l: last(l.rec["path"]) == "decode_item" and "scale_decode::visitor::types::" in l.rec["path"])}
        self.src = item_sources(self.recv)
        self.prefix = pr(pr(a.arg(0), "path"), "0")
        self.variant = inst.endswith("visit_variant")
        self.und = {"position": set(), "partial": set(), "shape": set()}
        self.n = {"position": 0, "partial": 0, "shape": 0}
        self.conts = set()

    def built_up(self):
        """are the paths made of containers that are filled in some other way than by adding one segment?"""
        objs = {x for e in self.a.events(self.src) for x in walk(e.args[1]) if x.op == "obj"}
        evs = self.a.events(lambda l: l.args)
        return any(base(e.args[0]) in objs and last(e.rec["path"]) != "push" for e in evs) or any(sum(y.op == "call" and y.a[0] == "pushed" for y in walk(e.args[1])) > 3 for e in self.a.events(self.src))

    def unsure(self, rule, t, what):
        """None if it is undecided, else the text of the violation"""
        r = vague(t)
        if r:
            self.und[rule].add(r)
            return None
        return what

    def path(self, t, n, err, R=None):
        """the path names the item number n (None: the value itself)"""
        segs = segments(t, self.prefix)
        if segs is None:
            if any(x.op == "obj" and e for x in walk(t) for e in [any(base(e.args[0]) is x for e in self.a.events(lambda l: l.args and last(l.rec["path"]) not in ("push",)))]):
                self.und["position"].add("the path is put together in a way that is not understood")
                return None
            return self.unsure("position", norm(t), "the path %s does not continue the one of the value" % show(norm(t))[:160])
        self.n["position"] += 1
        if self.variant:
            if not segs or seg(segs[0])[0] != "Variant":
                return "the path %s does not start with the variant's name" % show(norm(t))[:160]
            v = self.name_is(seg(segs[0])[1])
            if v:
                return v
            segs = segs[1:]
        if n is None:
            return "the path goes on to %s" % show(segs[0])[:80] if segs else None
        if len(segs) != 1:
            return "the path of an item has %d parts more than that of the value it is in" % len(segs)
        k, x = seg(segs[0])
        if k is None:
            return self.unsure("position", segs[0], "the path goes on with %s" % show(segs[0])[:80])
        if k == "Index":
            if x.op == "int":
                if n <= 3 and x.a[0] != n:
                    return "item %d is said to be at [%d]" % (n, x.a[0])
                if x.a[0] < n:
                    return "items after [%d] are said to be there as well" % x.a[0]
                return None
            if x.op == "len" and base(x.a[0]) in self.conts and x.a[0].op != "stale":
                return None
            if n > 3 and x.op == "wid":
                return None
            return self.unsure("position", norm(x), "item %d is said to be at [%s]" % (n, show(norm(x))[:80]))
        if k == "Field":
            if x.op == "str":
                return None
            if x.op == "fld" and x.a[1] == "Some" and x.a[0].op == "call" and x.a[0].a[0].endswith("::peek_name"):
                q = x.a[0].a[1]
                if base(q) not in self.recv:
                    return "the field's name comes from another value"
                if not err:
                    if q is base(q) and n == 0 or q.op == "mut" and n > 0:
                        return None
                    return "an item is given the name of the field before it"
                if q is base(q) and n == 0 or q.op == "stale":
                    return None
                return "a failure is said to be in another field than the one it is in"
            return self.unsure("position", norm(x), "the field is said to be %s" % show(norm(x))[:80])
        return "an item is said to be at the variant %s" % show(norm(x))[:80]

    def name_is(self, x):
        if x.op == "call" and x.a[0].endswith("variant::Variant::name") and base(x.a[1]) is self.a.arg(1):
            return None
        return self.unsure("position", norm(x), "the variant is called %s" % show(norm(x))[:80])

    # state: (phase, R, path given, items done, kind of error, partial pushed, name pushed with)
    def step(self, s, l):
        ph, R, T, n, kind, part, lastname = s
        if l.kind == "ev":
            if self.src(l):
                if ph == "err":
                    return None
                v = l.args[1]
                if is_adt(v, TE + "visitor::TraceDecodingVisitor"):
                    T = field(v, "path")
                    w = self.path(T, n, False)
                    if w:
                        return Bad("position:" + w[:60], "the item is decoded under a wrong path: " + w, l.span)
                else:
                    self.und["position"].add(vague(v) or "items are decoded by %s" % show(v)[:80])
                    T = UNIT
                return ("pending", l.res, T, n, None, 0, UNIT)
            v = is_push_vec(l)
            if v is not None and R is not UNIT:
                item = v.a[1] if v.op == "tup" and len(v.a) == 2 else v
                if ph == "item" and contains(item, pr(R, "Some.0.Ok.0")):
                    self.conts.add(base(l.args[0]))
                    return ("idle", R, T, min(n + 1, 4), None, 0, UNIT)
                inn = self.err(R)
                if ph == "err" and contains(item, inn):
                    if norm(item) is not norm(pr(inn, "FromVisitor.0.decoded_so_far")):
                        w = self.unsure("partial", norm(item), "stores %s instead of what was decoded so far" % show(norm(item))[:120])
                        if w:
                            return Bad("partial changed", w, l.span)
                        return None
                    if part:
                        return Bad("partial twice", "what was decoded of the failing item appears twice", l.span)
                    if v.op == "tup":
                        w = self.path_name(v.a[0], T)
                        if w:
                            return Bad("partial name", w, l.span)
                    return (ph, R, T, n, kind, 1, UNIT)
            return s
        if l.kind == "br":
            if R is UNIT:
                return s
            t = l.term
            if t is R:
                if l.out == "None":
                    return ("done", R, T, n, None, 0, UNIT)
                return s
            if t is pr(R, "Some.0"):
                return ("item" if l.out in ("Ok", "Continue") else "err", R, T, n, None, 0, UNIT)
            if ph == "err" and t is self.err(R):
                return (ph, R, T, n, l.out, part, lastname)
            return s
        if l.kind == "ret":
            k = retkind(l.val)
            if ph == "err":
                if k == "Ok":
                    return None  # C04
                w = self.failed(s, errval(l.val))
            elif k == "Err":
                w = self.other(errval(l.val))
            else:
                w = None
            if w:
                return Bad(w[0] + w[1][:60], w[1], self.a.span)
            return None
        return s

    def err(self, R):
        return pr(R, "Some.0.Err.0.inner")

    def path_name(self, x, T):
        """the field an unfinished value is stored under is the one named by the path"""
        segs = segments(T, self.prefix) if T.op == "adt" else None
        if not segs:
            return None
        k, y = seg(segs[-1])
        if k != "Field" or norm(x) is norm(y):
            if x.op == "fld" and x.a[0].op == "call" and x.a[0].a[0].endswith("::peek_name") and x.a[0].a[1].op == "mut":
                return "what was decoded of a field is stored under the name of the field after it"
            return None
        return self.unsure("partial", norm(x), "what was decoded of a field is stored as %s" % show(norm(x))[:80])

    def split(self, e):
        """TraceDecodingError -> (kind, payload)"""
        if not is_adt(e, TE + "error::TraceDecodingError"):
            return None, None
        x = field(e, "inner")
        if x.op == "adt":
            return x.a[1], field(x, "0")
        return None, None

    def failed(self, s, e):
        ph, R, T, n, kind, part, _ = s
        inn = self.err(R)
        if e is None:
            return None
        k, v = self.split(e)
        if k is None:
            w = self.unsure("partial", norm(e), "a failing item is reported as %s" % show(norm(e))[:160])
            return ("reported:", w) if w else None
        if k != "FromVisitor":
            return ("no position:", "the failure of an item is reported without saying where it is")
        at, val, de = field(v, "at"), field(v, "decoded_so_far"), field(v, "decode_error")
        if kind is None:
            self.und["partial"].add("cannot tell which kind of error the item failed with")
            return None
        want = pr(inn, kind + ".0")
        if kind == "FromVisitor":
            want_de = pr(want, "decode_error")
            if norm(at) is not norm(pr(want, "at")):
                w = self.unsure("position", norm(at), "the position of a failure further in becomes %s" % show(norm(at))[:160])
                return ("position lost:", w) if w else None
            self.n["position"] += 1
        else:
            want_de = want
            w = self.path(at, n, True)
            if w:
                return ("position:", w)
        if norm(de) is not norm(want_de):
            w = self.unsure("partial", norm(de), "the reason becomes %s" % show(norm(de))[:120])
            return ("reason:", w) if w else None
        if kind == "FromVisitor" and not part:
            return ("partial lost:", "what was decoded of the failing item is not part of what was decoded so far")
        if kind == "FromDecodeError" and part:
            return ("partial invented:", "something is reported as decoded of an item of which nothing was decoded")
        self.n["partial"] += 1
        w = self.value(val, n, part, R, T)
        return ("shape:", w) if w else None

    def value(self, v, n, part, R, T):
        """the value reported as decoded so far is of the kind of what is decoded and holds the items"""
        if not is_adt(v, "value_type::Value"):
            return self.unsure("shape", norm(v), "what was decoded so far becomes %s" % show(norm(v))[:120])
        d, c = field(v, "value"), field(v, "context")
        if norm(c) is not norm(self.a.arg(2)):
            w = self.unsure("shape", norm(c), "the type given for what was decoded so far is %s" % show(norm(c))[:80])
            return w
        if self.variant:
            if not is_adt(d, "value_type::ValueDef", "Variant"):
                return self.unsure("shape", norm(d), "part of a variant is reported as %s" % show(norm(d))[:100])
            var = field(d, "0")
            if not is_adt(var, "value_type::Variant"):
                return self.unsure("shape", norm(var), "part of a variant is reported as %s" % show(norm(var))[:100])
            w = self.name_is(field(var, "name"))
            if w:
                return w
            comp = field(var, "values")
        else:
            if not is_adt(d, "value_type::ValueDef", "Composite"):
                return self.unsure("shape", norm(d), "part of a composite is reported as %s" % show(norm(d))[:100])
            comp = field(d, "0")
        if not is_adt(comp, "value_type::Composite"):
            return self.unsure("shape", norm(comp), "the items decoded so far are reported as %s" % show(norm(comp))[:100])
        segs = segments(T, self.prefix) if T is not UNIT else None
        want = {"Field": "Named", "Index": "Unnamed"}.get(seg(segs[-1])[0]) if segs else None
        if want and comp.a[1] != want:
            return "items decoded %s names are reported %s" % (("with", "without") if want == "Named" else ("without", "with"))
        c = base(field(comp, "0"))
        if (n or part) and self.conts and c not in self.conts:
            o = norm(c)
            if o.op == "obj" and any(base(e.args[0]) is c for e in self.a.events(lambda l: l.args and (is_push(l) is not None and not contains(l.args[1], self.err(R)) or last(l.rec["path"]) in ("extend", "append", "extend_from_slice", "clone_from", "insert", "splice", "resize")))):
                self.und["shape"].add("the items decoded so far are put into another container")
                return None
            if o.op == "obj" or o.op == "const" or is_empty(self.a, c):
                return "the items decoded so far are not reported"
            return self.unsure("shape", o, "the items decoded so far are reported as %s" % show(o)[:80])
        self.n["shape"] += 1
        return None

    def other(self, e):
        """failures that do not come from an item"""
        k, v = self.split(e) if e is not None else (None, None)
        if k == "FromVisitor":
            w = self.path(field(v, "at"), None, True)
            return ("position:", w) if w else None
        return None


def seg(s):
    if is_adt(s, TE + "path::PathSegment"):
        return s.a[1], field(s, "0")
    return None, None


def is_empty(a, c):
    return c.op == "obj" and not any(base(e.args[0]) is c for e in a.events(lambda l: is_push(l) is not None))


# ------------------------------------------------------------ showing it
def is_write(l):
    return last(l.rec["path"]) in ("write_str", "write_char") and len(l.args) == 2


def text(x):
    """what is written, without the way it is asked for"""
    if x.op == "fmtarg":
        return norm(x.a[2])
    if x.op == "call" and x.a[0] == "char_str":
        return norm(x.a[1])
    return norm(x)


def path_shown(rep, p):
    inst = "Path as Display"
    rs = p.byref.get(("<scale_impls::tracing_decoder::path::Path as core::fmt::Display>", "fmt"), [])
    if not rs:
        rep.undecided("shown", inst, "not found")
        return
    r = rs[0]
    a = An(p, r)
    rep.saw(a)
    if not a.complete:
        rep.undecided("shown", inst, a.g.incomplete)
        return
    src = norm(pr(a.arg(0), "0"))
    und = []

    def nxt(l):
        if last(l.rec["path"]) != "next" or not l.args:
            return False
        t, ads = adaptors(l.args[0])
        return norm(base(t)) is src

    if not a.events(nxt):
        rep.undecided("shown", inst, "no loop over the segments found")
        return
    if any(x.a[1] in CHANGERS for e in a.events(nxt) for x in adaptors(e.args[0])[1]):
        rep.bad("shown", inst, "not all segments are shown in order", a.span)
        return
    n = [0]

    def full(R, kind, parts):
        if kind is None:
            und.append("the kind of a segment is not looked at")
            return None
        k = pr(R, "Some.0.%s.0" % kind)
        s = "".join(x.a[0] if x.op == "str" else "\0" if x is norm(k) else "\1" + show(x) for x in parts)
        want = ".[\0]" if kind == "Index" else ".\0"
        if s == want:
            n[0] += 1
            return None
        for x in parts:
            if x.op != "str" and x is not norm(k) and vague(x, [norm(k)]):
                und.append(vague(x, [norm(k)]))
                return None
        return "a segment of the kind %s is shown as %r" % (kind, s.replace("\0", "{}"))

    def step(s, l):
        ph, R, kind, parts = s
        if l.kind == "ev":
            if nxt(l):
                if ph == "item":
                    w = full(R, kind, parts)
                    if w:
                        return Bad(w, w, a.span)
                return ("asked", l.res, None, ())
            if is_write(l):
                if ph in ("done", "start"):
                    und.append("something else is written as well")
                    return s
                return (ph, R, kind, parts + (text(l.args[1]),))
            return s
        if l.kind == "br":
            if R is UNIT:
                return s
            if l.term is R:
                return ("item" if l.out == "Some" else "done", R, None, ())
            if l.term is pr(R, "Some.0") and l.out.__class__ is str:
                return (ph, R, l.out, parts)
            return s
        if l.kind == "ret":
            if retkind(l.val) != "Ok":
                return None
            if ph == "item":
                return Bad("stops", "stops before all segments are shown", a.span)
            if ph != "done":
                und.append("how it ends is not understood")
            return None
        return s

    bads = a.automaton(("start", UNIT, None, ()), step)
    for b in bads:
        rep.bad("shown", inst, b.msg, b.where, b.path)
    for u in set(und):
        rep.undecided("shown", inst, u)
    if not bads and not und:
        rep.ok("shown", inst, n[0])


def error_shown(rep, p):
    inst = "TraceDecodingError as Display"
    rs = [r for (tr, name), x in p.byref.items() for r in x if name == "fmt" and "TraceDecodingError<" in tr.split(" as ")[0] and tr.endswith("core::fmt::Display>")]
    if not rs:
        rep.bad("anchor", inst, "not found in the current tree")
        return
    a = An(p, rs[0])
    rep.saw(a)
    if not a.complete:
        rep.undecided("shown", inst, a.g.incomplete)
        return
    inn = pr(a.arg(0), "inner")
    kinds = {"FromDecodeError": [("the reason", pr(inn, "FromDecodeError.0"))], "FromVisitor": [("the position", pr(inn, "FromVisitor.0.at")), ("the reason", pr(inn, "FromVisitor.0.decode_error"))]}
    val = pr(inn, "FromVisitor.0.decoded_so_far")
    parts = {norm(t) for ts in kinds.values() for _, t in ts}
    seen = set()

    def step(s, l):
        k, got, touched = s
        if l.kind == "br":
            if l.term is inn and l.out.__class__ is str:
                k = l.out
            if contains(l.term, val):
                touched = True
            return (k, got, touched)
        if l.kind == "ev":
            if is_write(l) and text(l.args[1]) in parts:
                x = text(l.args[1])
                if x in got:
                    return s
                got = got + (x,)
            touched = touched or any(contains(x, val) for x in l.args)
            return (k, got, touched)
        if l.kind == "ret":
            if retkind(l.val) == "Err":
                return None
            if k is None:
                und.append("the kind of error is not looked at")
                return None
            for what, t in kinds.get(k, ()):
                seen.add(k)
                if norm(t) not in got:
                    return Bad("missing " + what, "%s of the failure is not shown" % what, a.span)
            if k == "FromVisitor" and not touched:
                return Bad("missing value", "what was decoded so far is not shown", a.span)
            return None
        return s

    und = []
    bads = a.automaton((None, (), False), step)
    for b in bads:
        rep.bad("shown", inst, b.msg, b.where, b.path)
    for u in set(und):
        rep.undecided("shown", inst, u)
    if not bads and not und:
        rep.ok("shown", inst, len(seen))
    numbers_shown(rep, p, a, inst, norm(val))


def numbers_shown(rep, p, a, inst, val):
    """a 256-bit number has no default text: one of the formatters given has to show it"""
    fs = {base(e.args[1]) for e in a.events(lambda l: is_push(l) is not None) if base(e.args[1]).op == "clo"}
    if not fs:
        rep.undecided("shown", inst, "no formatters found")
        return
    for kind in ("U256", "I256"):
        any_ok, any_unknown = False, False
        for f in fs:
            v = mk("arg", 95, "value")
            try:
                b = An(p, None, inst=f.a[0], args=[f, v, mk("arg", 96, "writer")])
            except Exception as e:  # not a formatter
                any_unknown = True
                continue
            if not b.complete:
                any_unknown = True
                continue
            vd = pr(v, "value")

            def step(s, l):
                if l.kind == "br":
                    t = l.term
                    want = "Primitive" if t is vd else kind if t is pr(vd, "Primitive.0") else None
                    if want and (l.out != want if l.out.__class__ is str else want not in l.out):
                        return None
                    return s
                if l.kind == "ret":
                    if retkind(l.val) == "None":
                        return Bad("none", "none")
                    if retkind(l.val) != "Some":
                        return Bad("?", "?")
                return s

            bs = {x.key for x in b.automaton((), step)}
            if not bs:
                any_ok = True
            elif "?" in bs:
                any_unknown = True
        if any_ok:
            rep.ok("shown", inst + ": " + kind)
        elif any_unknown:
            rep.undecided("shown", inst, "cannot tell whether %s numbers are shown" % kind)
        else:
            rep.bad("shown", inst, "showing the error fails if what was decoded so far has a %s number in it" % kind, a.span)


@prop("C35")
def c35(rep):
    rep.rule("position", "the path of item i is that of the value it is in, then the variant's name in a variant, then [i] or the name of the field; an error keeps the path of the innermost failing item")
    rep.rule("partial", "the error of a failing item carries the item's own reason, and what was decoded of that item, once, after the items before it")
    rep.rule("shown", "an error is shown with the position, segment by segment, the reason and what was decoded so far, whatever numbers are in it")
    rep.rule("shape", "what was decoded so far is reported as the kind of value that was being decoded, under its variant's name and type, holding the items")
    p = prog("all")
    found = 0
    for tr, ms in visitor_roots(p, rep).items():
        if "TraceDecodingVisitor" not in tr:
            continue
        for name in ("visit_sequence", "visit_array", "visit_tuple", "visit_composite", "visit_variant"):
            inst = "TraceDecodingVisitor::" + name
            if name not in ms:
                rep.bad("anchor", inst, "not found in the current tree")
                continue
            found += 1
            a = An(p, ms[name], **PUSHED)
            rep.saw(a)
            t = Trace(a, inst)
            if not a.complete:
                rep.undecided("position", inst, a.g.incomplete)
                continue
            if not t.recv:
                rep.undecided("position", inst, "no loop over items found")
                continue
            if t.built_up():
                rep.undecided("position", inst, "the path is put together in a way that is not understood")
                continue
            init = ("idle", UNIT, UNIT, 0, None, 0, UNIT)
            a.automaton(init, t.step)
            t.und = {k: set() for k in t.und}
            t.n = {k: 0 for k in t.n}
            bads = a.automaton(init, t.step)
            for b in bads:
                rule = "position" if b.key.startswith("position") else "shape" if b.key.startswith("shape") else "partial"
                rep.bad(rule, inst, b.msg, b.where, b.path)
            for rule, us in t.und.items():
                for u in us:
                    rep.undecided(rule, inst, u)
            for rule, n in t.n.items():
                if n and not bads:
                    rep.ok(rule, inst, n)
                elif not n and not bads:
                    rep.undecided(rule, inst, "nothing to check was found")
    if not found:
        rep.bad("anchor", "TraceDecodingVisitor", "not found in the current tree")
    path_shown(rep, p)
    error_shown(rep, p)
