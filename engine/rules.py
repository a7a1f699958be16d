"""Rules shared by the checks: comparing values, moving every item, matching results."""
from lib import *

VAGUE_CALLS = {"into", "to_string", "fmtargs?", "args_iter", "format"}
# functions of the standard library that certainly change the value they are given
CHANGING = ("core::num::", "core::slice::reverse", "core::slice::rotate", "core::slice::sort", "core::slice::swap", "core::slice::fill", "alloc::vec::Vec::dedup", "core::slice::copy_within", "core::str::trim", "core::str::to_ascii", "alloc::str::to_lowercase", "alloc::str::to_uppercase", "alloc::str::to_ascii", "alloc::str::replace", "alloc::str::repeat", "alloc::vec::Vec::capacity", "alloc::string::String::capacity")
REORDER = {
    "core::slice::reverse",
    "core::slice::rotate_left",
    "core::slice::rotate_right",
    "core::slice::sort",
    "core::slice::sort_by",
    "core::slice::sort_by_key",
    "core::slice::sort_unstable",
    "core::slice::sort_unstable_by",
    "core::slice::sort_unstable_by_key",
    "core::slice::swap",
    "core::slice::fill",
    "alloc::slice::sort",
    "alloc::slice::sort_by",
    "alloc::slice::sort_by_key",
    "alloc::vec::Vec::dedup",
    "alloc::vec::Vec::dedup_by_key",
    "alloc::vec::Vec::dedup_by",
    "alloc::vec::Vec::retain",
    "alloc::vec::Vec::truncate",
    "alloc::vec::Vec::pop",
    "alloc::vec::Vec::clear",
    "alloc::vec::Vec::remove",
    "alloc::vec::Vec::swap_remove",
    "alloc::vec::Vec::insert",
    "alloc::vec::Vec::drain",
    "alloc::vec::Vec::split_off",
    "alloc::string::String::truncate",
    "alloc::string::String::pop",
    "alloc::string::String::clear",
    "alloc::string::String::insert",
    "alloc::string::String::insert_str",
    "alloc::string::String::remove",
    "alloc::string::String::retain",
}


def evname(ev):
    return ev.name


def pr(t, path):
    """projection: pr(R, "Some.0.Ok.0") with the variant before each field name"""
    ps = path.split(".")
    while ps:
        v = ps.pop(0)
        if v and (v[0].isupper() or v.startswith("visit_")):
            f = ps.pop(0)
        else:
            v, f = "", v
        t = mk("fld", t, v, f)
    return t


def vague(t, known=()):
    """why the analysis cannot tell what the value is, or None"""
    seen = set()
    st = [t]
    known = set(known)
    while st:
        x = st.pop()
        if x in seen or x in known:
            continue
        seen.add(x)
        if x.op in ("unk", "const", "agg", "uninit", "wid", "indirect", "static", "upd", "stale", "idx", "sub"):
            return x.op
        if x.op == "mut":
            return "mut"
        if x.op == "res" and not x.a[2].startswith(CHANGING):
            return "result of " + x.a[2]
        if x.op == "call" and x.a[0] in VAGUE_CALLS:
            return x.a[0]
        for y in x.a:
            if y.__class__ is Term:
                st.append(y)
    return None


def same(t, exp, known=()):
    """"ok", "bad" (certainly something else) or the reason why it cannot be told"""
    exps = exp if exp.__class__ in (list, tuple, set) else [exp]
    for e in exps:
        if t is e:
            return "ok"
    n = strip_alias(t)
    for e in exps:
        if n is strip_alias(e):
            return "ok"
    v = vague(t, known)
    return "bad" if v is None else v


def strip_alias(t):
    """containers that merely own a copy are the value itself; widening casts are too"""
    t = unwiden_all(t)
    return t


_uw = {}


def unwiden_all(t):
    def f(x):
        if x.op == "cast":
            y = unwiden(x)
            if y is not x:
                return unwiden_all(y)
        return None

    return subst(t, f, _uw)


def retkind(t):
    """Ok / Err / Some / None / None-if-unknown of a returned term"""
    if t.op == "adt":
        return t.a[1]
    return None


def okval(t):
    return t.a[3] if t.op == "adt" and t.a[1] in ("Ok", "Some") and len(t.a) > 3 else None


def errval(t):
    return t.a[3] if t.op == "adt" and t.a[1] == "Err" and len(t.a) > 3 else None


def base(t):
    while True:
        if t.op in ("mut", "stale", "upd"):
            t = t.a[0]
        elif t.op == "call" and t.a[0] == "iter":
            t = t.a[1]
        else:
            return t


def ends_of(an):
    """distinct return terms"""
    return an.ends("ret")


def returned(an, rep, rule, name, judge):
    """judge every value the function returns"""
    if not an.complete:
        rep.undecided(rule, name, an.g.incomplete)
        return
    seen = set()
    for e in an.ends("ret"):
        if e.val in seen:
            continue
        seen.add(e.val)
        r = judge(e.val)
        report1(rep, rule, name, r, e.val, an)
    if not seen:
        rep.bad(rule, name, "never returns", an.span)


def advanced(e, arg):
    """does what happened to the place that `arg` refers to reach the caller"""
    for k, v in e.mem.items():
        if norm(k) is norm(arg):
            if base(v) is base(arg) and v.op in ("mut", "stale"):
                return "ok"
            return vague(v) or ("bad", "is left as %s" % show(norm(v))[:80])
    return ("bad", "is left as it was: only a copy is used up")


def report1(rep, rule, name, r, val, an, where=None, path=None):
    if r == "ok":
        rep.ok(rule, name)
    elif r.__class__ is tuple or r == "bad":
        msg = r[1] if r.__class__ is tuple else "gives %s" % show(norm(val))[:300]
        rep.bad(rule, name, msg, where or an.span, path)
    else:
        rep.undecided(rule, name, r)


class Transfer:
    """Every item the source yields goes into the sink exactly once, in order, unchanged,
    before the next one is asked for; an error of the source ends the function with that
    error; the function succeeds only after the source is exhausted."""

    def __init__(self, an, source, sink, expect, allow_stop=None, fail_ok=True, local_sinks=False):
        self.an, self.source, self.sink, self.expect = an, source, sink, expect
        self.allow_stop = allow_stop
        self.moves = 0
        self.reason = set()
        self.containers = set()

    def run(self, rep, rule, name):
        an = self.an
        if not an.complete:
            rep.undecided(rule, name, an.g.incomplete)
            return False
        self.final = False
        an.automaton(("idle", UNIT, 0), self.step)
        self.final = True
        self.moves = 0
        self.reason = set()
        bads = an.automaton(("idle", UNIT, 0), self.step)
        for b in bads:
            rep.bad(rule, name, b.msg, b.where or an.span, b.path)
        for r in self.reason:
            rep.undecided(rule, name, r)
        if not bads and not self.reason:
            rep.ok(rule, name, max(1, self.moves))
        return not bads

    def step(self, s, l):
        ph, R, extra = s
        if l.kind == "ev":
            if self.source(l):
                if ph in ("item", "taken?"):
                    return Bad("dropped", "an item is dropped: the next one is asked for before it was stored", l.span)
                if ph == "pending":
                    self.reason.add("the outcome of %s is not looked at" % l.name)
                    return None
                if ph == "err":
                    return Bad("goes on after error", "goes on after the source failed", l.span)
                return ("pending", l.res, min(extra + 1, 2))
            v = self.sink(l)
            if v is not None:
                cont = base(l.args[0])
                if ph in ("item", "pending"):
                    r = self.expect(v, R, l, extra)
                    if r == "ok":
                        self.moves += 1
                        self.containers.add(cont)
                        return ("idle", UNIT, extra)
                    if r is None:
                        return s
                    if r == "bad":
                        return Bad("changed", "stores %s instead of the item" % show(norm(v))[:240], l.span)
                    if r.__class__ is tuple:
                        return Bad("changed:" + r[1][:80], r[1], l.span)
                    self.reason.add("cannot tell what is stored: " + r)
                    return None
                if ph in ("idle", "done"):
                    if not self.final or cont not in self.containers:
                        return s
                    if vague(v) is None:
                        return Bad("extra", "stores something the source did not yield: %s" % show(norm(v))[:200], l.span)
                    self.reason.add("stores something that cannot be told")
                    return None
                return s
            if l.rec["path"] in REORDER or l.name in REORDER:
                if self.containers and base(l.args[0]) in self.containers:
                    return Bad("rearranged", "%s on the collected items" % l.name, l.span)
            return s
        if l.kind == "br":
            if ph in ("pending", "item"):
                t = l.term
                x = t
                while x is not R and x.op == "fld":
                    x = x.a[0]
                if x is R:
                    if l.out == "None":
                        return ("done", R, extra)
                    if l.out in ("Err", "Break"):
                        return ("err", t, extra)
                    if l.out in ("Some", "Ok", "Continue"):
                        return ("item", R, extra)
            return s
        if l.kind == "ret":
            k = retkind(l.val)
            if ph == "err":
                if k in ("Ok",):
                    return Bad("swallowed", "an error of the source is swallowed", an_span(self.an))
                e = errval(l.val)
                if e is not None and not contains(e, R) and vague(e) is None:
                    return Bad("error lost", "the error of the source is replaced by %s" % show(e)[:200], an_span(self.an))
                return None
            if k == "Err":
                return None
            if ph == "item":
                if self.allow_stop and self.allow_stop(l, s):
                    return None
                return Bad("dropped at end", "the last item is dropped", an_span(self.an))
            if ph == "idle" and not (self.allow_stop and self.allow_stop(l, s)):
                return Bad("stops early", "returns before the source is exhausted", an_span(self.an))
            return None
        return s


def an_span(an):
    return an.span


def is_push(l):
    """the value an event appends to a container, or None"""
    if l.name in ("alloc::vec::Vec::push", "verif_models::emit", "scale_bits::bits::bits::Bits::push", "alloc::string::String::push", "alloc::string::String::push_str") or l.rec["path"] in ("alloc::vec::Vec::push", "verif_models::emit"):
        return l.args[1]
    return None


def last(path):
    return path.rsplit("::", 1)[-1]


def err_propagation(an, rep, rule, name, relevant=lambda term: True):
    """a failure reported by a callee never turns into success"""
    if not an.complete:
        rep.undecided(rule, name, an.g.incomplete)
        return
    n = [0]

    def step(s, l):
        if l.kind == "br" and l.out == "Err" and relevant(l.term):
            return l.term
        if l.kind == "ret":
            if s is not UNIT:
                n[0] += 1
                if retkind(l.val) == "Ok":
                    return Bad("swallowed", "succeeds although %s failed" % show(norm(s))[:160], an.span)
        return s

    bads = an.automaton(UNIT, step)
    for b in bads:
        rep.bad(rule, name, b.msg, b.where, b.path)
    if not bads:
        rep.ok(rule, name, max(1, n[0]))


def all_roots(p, pred=lambda r: True, derived=False):
    return [r for r in p.roots if (derived or not r.get("derived")) and pred(r)]


def rname(r):
    return "%s::%s" % (r["traitref"], r["name"]) if r.get("traitref") else r["path"]


# ------------------------------------------------------------ what a path knows about numbers
REL = {True: {"Eq": "=", "Lt": "<"}, False: {"Eq": "<>", "Lt": "=>"}}


def relfacts(l):
    """what a branch tells about numbers: (x, y, relations that remain possible)"""
    t, out = l.term, l.out
    pol = True
    while t.op == "un" and t.a[0] == "Not":
        t, pol = t.a[1], not pol
    if t.op == "bin" and t.a[0] in ("Eq", "Lt") and out in (True, False):
        return [(unwiden_all(t.a[1]), unwiden_all(t.a[2]), REL[bool(out) == pol][t.a[0]])]
    if t.op == "bin" and t.a[0] == "BitAnd" and (bool(out) == pol) and out in (True, False) and pol:
        r = []
        for x in t.a[1:3]:
            r += relfacts(_B(x, True))
        return r
    if t.op == "bin" and t.a[0] == "BitOr" and out is False and pol:
        r = []
        for x in t.a[1:3]:
            r += relfacts(_B(x, False))
        return r
    c = t
    if c.op == "fld" and c.a[1] == "Some" and c.a[0].op == "call":
        c = c.a[0]
    if c.op == "call" and last(c.a[0]) in ("cmp", "partial_cmp"):
        outs = out if out.__class__ is tuple else (out,)
        m = {"Less": "<", "Equal": "=", "Greater": ">"}
        if all(o in m for o in outs):
            return [(unwiden_all(c.a[1]), unwiden_all(c.a[2]), "".join(m[o] for o in outs))]
        return []
    if out.__class__ is Term and out.op == "int":
        return [(unwiden_all(t), out, "=")]
    if out.__class__ is tuple and out and out[0] == "not" and all(o.__class__ is int for o in out[1:]):
        return [(unwiden_all(t), INT(o, "?"), "<>") for o in out[1:]]
    return []


class _B:
    def __init__(self, term, out):
        self.term, self.out = term, out


FLIP = {"<": ">", ">": "<", "=": "="}


def possible(facts, x, y):
    """which of < = > remain possible between x and y"""
    r = set("<=>")
    x, y = unwiden_all(x), unwiden_all(y)
    for a, b, rel in facts:
        if a is x and b is y:
            r &= set(rel)
        elif a is y and b is x:
            r &= {FLIP[c] for c in rel}
    return r


def interval(facts, t, lo=None, hi=None):
    """(lo, hi, excluded values) of a number"""
    t = unwiden_all(t)
    exc = set()
    if t.op == "int":
        return t.a[0], t.a[0], exc
    if t.op == "len":
        lo = 0 if lo is None else max(lo, 0)
    for _ in range(3):
        for a, b, rel in facts:
            if b is t and a is not t:
                a, b, rel = b, a, "".join(FLIP[c] for c in rel)
            if a is not t or b.op != "int":
                continue
            k = b.a[0]
            if ">" not in rel:
                m = k if "=" in rel else k - 1
                hi = m if hi is None else min(hi, m)
            if "<" not in rel:
                m = k if "=" in rel else k + 1
                lo = m if lo is None else max(lo, m)
            if "=" not in rel:
                exc.add(k)
        while lo is not None and lo in exc:
            lo += 1
        while hi is not None and hi in exc:
            hi -= 1
    return lo, hi, exc
