"""What the analysis knows about code outside the crate.

Every function listed here is described by its documented contract; anything else
that leaves the crate is an opaque event."""
from terms import *
from interp import Call, Ev, Br, Term_

H = {}
PURE = set()
KNOWN_EVENTS = set()


def on(*paths):
    def d(f):
        for p in paths:
            H[p] = f
        return f

    return d


# ---- values that only repackage their argument
IDENT = [
    "core::ops::deref::Deref::deref",
    "alloc::borrow::ToOwned::to_owned",
    "core::convert::AsRef::as_ref",
    "core::borrow::Borrow::borrow",
    "alloc::string::String::as_str",
    "alloc::vec::Vec::as_slice",
    "core::hint::must_use",
    "alloc::boxed::Box::new",
    "scale_decode::visitor::types::str::Str::as_str_unchecked",
    "alloc::slice::to_vec",
    "alloc::slice::into_vec",
    "alloc::vec::Vec::into_boxed_slice",
    "alloc::string::String::into_boxed_str",
    "alloc::borrow::Cow::into_owned",
    "core::slice::as_slice",
    "core::convert::identity",
    "core::array::as_slice",
    "core::iter::traits::iterator::Iterator::by_ref",
]


def ident(c):
    c.i.note_array(c.st, c.args[0], c.ty(0))
    return c.snap(0) if not (c.args[0].op == "ref") else c.content_or_ref(0)


for p in IDENT:
    H[p] = ident


def content_or_ref(self, n):
    a = self.args[n]
    ty = self.i.p.ty(self.retty)
    if ty["k"] == "refmut":
        return a
    return self.snap(n)


Call.content_or_ref = content_or_ref


@on("core::clone::Clone::clone")
def clone(c):
    if c.rec.get("local") or (c.rec.get("inst") is not None and c.i.p.bodies[c.rec["inst"]] is not None):
        b = c.i.p.bodies[c.rec["inst"]] if c.rec.get("inst") is not None else None
        if b is not None and b["local"] and not is_derived_clone(c.i.p, b):
            return NotImplemented
    v = c.snap(0)
    return v


def is_derived_clone(p, b):
    s = getattr(p, "_derived", None)
    if s is None:
        s = {r["canon"] for r in p.roots if r.get("derived")}
        p._derived = s
    return b["canon"] in s


@on("core::ops::deref::DerefMut::deref_mut", "alloc::vec::Vec::as_mut_slice", "core::convert::AsMut::as_mut", "core::borrow::BorrowMut::borrow_mut")
def deref_mut(c):
    return c.args[0]


@on("alloc::string::ToString::to_string")
def to_string(c):
    h = c.ty(0)
    t = h
    while t["k"] in ("ref", "refmut"):
        t = c.i.p.ty(t["a"][0])
    if t["s"] in ("str", "alloc::string::String") or t["h"] == "alloc::borrow::Cow":
        return c.snap(0)
    return mk("call", "to_string", STR(t["h"]), c.snap(0))


@on("core::convert::From::from", "core::convert::Into::into")
def conv(c):
    a = c.ty(0)
    r = c.i.p.ty(c.retty)
    strs = {"str", "alloc::string::String", "alloc::borrow::Cow", "&str", "alloc::boxed::Box"}
    def head(t):
        while t["k"] in ("ref",):
            t = c.i.p.ty(t["a"][0])
        if t["h"] in ("alloc::borrow::Cow", "alloc::boxed::Box") and t["a"]:
            t = c.i.p.ty(t["a"][0])
            while t["k"] == "ref":
                t = c.i.p.ty(t["a"][0])
        return t["s"]
    ha, hr = head(a), head(r)
    if ha in ("str", "alloc::string::String") and hr in ("str", "alloc::string::String"):
        return c.snap(0)
    if a["s"] == r["s"]:
        return c.args[0]
    # a char or a narrow integer widens
    if a["s"] in INTW and r["s"] in INTW:
        x = c.args[0]
        return INT(x.a[0], r["s"]) if x.op == "int" else mk("cast", a["s"], r["s"], x)
    if a["k"] in ("slice", "array", "ref") and r["h"] == "alloc::vec::Vec":
        return c.snap(0)
    if c.rec.get("inst") is not None and c.i.p.bodies[c.rec["inst"]] is not None:
        return NotImplemented
    if c.rec.get("kind") == "unresolved" or not c.rec.get("local"):
        return mk("call", "into", STR(r["s"]), c.snap(0))
    return NotImplemented


# ---- sizes
@on("alloc::vec::Vec::len", "core::str::len", "core::slice::len", "alloc::string::String::len", "core::iter::traits::exact_size::ExactSizeIterator::len", "smallvec::SmallVec::len")
def length(c):
    x = c.snap(0)
    r = c.i.length(c.st, x)
    return r


@on("alloc::vec::Vec::is_empty", "core::str::is_empty", "core::slice::is_empty", "alloc::string::String::is_empty")
def is_empty(c):
    n = c.i.length(c.st, c.snap(0))
    return c.i.binop(c.st, "Eq", n, INT(0, "usize"), "usize")


# ---- containers: new objects and mutations are events
def newobj(label):
    def f(c):
        return c.event(res=lambda site: mk("obj", site, 0, label), tainted=False)

    return f


for p in ["alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "alloc::string::String::new", "alloc::string::String::with_capacity", "scale_bits::bits::bits::Bits::new", "scale_bits::bits::bits::Bits::with_capacity"]:
    H[p] = newobj(p)

MUTATORS = [
    "alloc::vec::Vec::push",
    "alloc::vec::Vec::pop",
    "alloc::vec::Vec::extend_from_slice",
    "alloc::vec::Vec::truncate",
    "alloc::vec::Vec::clear",
    "alloc::vec::Vec::insert",
    "alloc::vec::Vec::remove",
    "alloc::vec::Vec::append",
    "alloc::vec::Vec::drain",
    "alloc::vec::Vec::reserve",
    "alloc::string::String::push",
    "alloc::string::String::push_str",
    "scale_bits::bits::bits::Bits::push",
]
for p in MUTATORS:
    KNOWN_EVENTS.add(p)


@on("alloc::vec::Vec::push")
def vec_push(c):
    """for the element types asked for, a pushed-to container is a term that tells what was pushed"""
    want = c.i.o["pushed"]
    if not want:
        return NotImplemented
    t = c.ty(0)
    while t["k"] in ("ref", "refmut", "ptr"):
        t = c.i.p.ty(t["a"][0])
    if not t["a"] or not any(w in c.i.p.ty(t["a"][0])["s"] for w in want):
        return NotImplemented
    t, n = c.snap(0), 0
    while t.op in ("mut", "stale", "wid") or t.op == "call" and t.a[0] == "pushed":
        if t.op != "call":
            return NotImplemented
        t, n = t.a[1], n + 1
    if n > 4:
        return NotImplemented
    (ev, st), = r = c.event(nohavoc=True)
    c.set(0, mk("call", "pushed", ev.args[0], ev.args[1]))
    return r


# ---- iterators
@on("core::slice::iter", "alloc::vec::Vec::iter")
def slice_iter(c):
    return mkiter(c, c.snap(0))


def mkiter(c, x):
    if x.op == "arr":
        return mk("arrit", x, INT(0, "usize"))
    if x.op == "mut" and x.a[0].op == "call" and x.a[0].a[0] in ITERATORS:
        return x
    # iterators count as advanced from the start: fewer states, nothing lost
    return mk("mut", mk("call", "iter", x))


@on("core::iter::traits::collect::IntoIterator::into_iter")
def into_iter(c):
    t = c.ty(0)
    if c.rec.get("inst") is not None and c.i.p.bodies[c.rec["inst"]] is not None:
        return NotImplemented
    if t["k"] == "refmut":
        return NotImplemented
    return mkiter(c, c.snap(0))


@on("core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def it_next(c):
    it = c.content(0)
    if it.op == "arrit" and c.rec["path"].endswith("::next"):
        arr, pos = it.a
        if pos.op == "int":
            n = pos.a[0]
            if n >= len(arr.a):
                return none()
            c.set(0, mk("arrit", arr, INT(n + 1, "usize")))
            return some(arr.a[n])
    if c.rec.get("inst") is not None and c.i.p.bodies[c.rec["inst"]] is not None:
        return NotImplemented
    return c.event(tainted=False)


def none():
    return ADT("core::option::Option", "None", ())


def some(x):
    return ADT("core::option::Option", "Some", ("0",), x)


ITER_FNS = [
    "core::str::chars",
    "core::str::char_indices",
    "core::str::bytes",
    "core::slice::chunks",
    "core::slice::chunks_exact",
    "core::slice::windows",
    "core::str::split",
    "core::str::lines",
    "scale_bits::bits::bits::Bits::iter",
]
ITERATORS = set(ITER_FNS) | {"iter"}
for p in ITER_FNS:
    H[p] = lambda c: mk("mut", c.pure())


@on("core::str::chars")
def str_chars(c):
    x = c.snap(0)
    if x.op == "str" and len(x.a[0]) <= 16:
        return mk("arrit", mk("arr", *[INT(ord(ch), "char") for ch in x.a[0]]), INT(0, "usize"))
    return mk("mut", c.pure())


PURE |= {
    "core::str::starts_with",
    "core::str::is_ascii",
    "core::str::eq_ignore_ascii_case",
    "core::str::ends_with",
    "core::str::contains",
    "core::str::find",
    "core::str::trim_start",
    "core::str::trim",
    "core::str::as_bytes",
    "core::str::is_char_boundary",
    "core::str::get",
    "core::slice::get",
    "core::slice::first",
    "core::slice::last",
    "core::slice::contains",
    "core::slice::starts_with",
    "core::char::methods::is_alphabetic",
    "core::char::methods::is_alphanumeric",
    "core::char::methods::is_numeric",
    "core::char::methods::is_whitespace",
    "core::char::methods::is_ascii_digit",
    "core::char::methods::is_ascii_alphanumeric",
    "core::char::methods::is_ascii_alphabetic",
    "core::char::methods::is_ascii_hexdigit",
    "core::char::methods::is_ascii_whitespace",
    "core::char::methods::is_ascii",
    "core::char::methods::is_digit",
    "core::char::methods::to_digit",
    "core::char::methods::len_utf8",
    "core::num::is_ascii_alphanumeric",
    "core::num::is_ascii_hexdigit",
    "core::num::is_ascii_digit",
    "core::num::is_ascii_alphabetic",
    "core::num::saturating_sub",
    "core::num::saturating_add",
    "core::num::saturating_mul",
    "core::num::wrapping_add",
    "core::num::wrapping_sub",
    "core::num::wrapping_mul",
    "core::num::checked_add",
    "core::num::checked_sub",
    "core::num::checked_mul",
    "core::num::from_str_radix",
    "core::num::to_le_bytes",
    "core::num::to_be_bytes",
    "core::num::unsigned_abs",
    "core::num::count_ones",
    "core::intrinsics::size_of",
    "core::mem::size_of",
    "core::fmt::Formatter::alternate",
    "core::str::converts::from_utf8",
    "core::str::converts::from_utf8_unchecked",
    "alloc::string::String::from_utf8",
    "core::cmp::Ord::cmp",
    "core::cmp::PartialOrd::partial_cmp",
    "scale_bits::bits::bits::Bits::len",
    "primitive_types::U256::to_little_endian",
}


@on("core::str::parse", "core::str::traits::FromStr::from_str")
def parse_str(c):
    r = c.i.p.ty(c.retty)
    if not c.rec["path"].endswith("::parse") and (not r["a"] or c.i.p.ty(r["a"][0])["s"] not in INTW):
        return NotImplemented
    return mk("call", "core::str::parse", c.snap(0), STR(c.i.p.ty(r["a"][0])["s"] if r["a"] else "?"))


@on("core::ops::index::Index::index")
def index(c):
    """one item of a Vec: the content of `get`; that there is one is another question (panics)"""
    t = c.ty(0)
    while t["k"] == "ref" or t["k"] == "ptr":
        t = c.i.p.ty(t["a"][0])
    if t.get("h") != "alloc::vec::Vec" or c.ty(1)["s"] != "usize":
        return NotImplemented
    return c.event(res=mk("fld", mk("call", "core::slice::get", c.snap(0), c.snap(1)), "Some", "0"))


@on("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def eq(c):
    if c.rec.get("inst") is not None and c.i.p.bodies[c.rec["inst"]] is not None:
        b = c.i.p.bodies[c.rec["inst"]]
        if b["crate"] != "scale_value":
            return NotImplemented
        if not is_derived_clone(c.i.p, b):
            return NotImplemented
    a, b = c.snap(0), c.snap(1)
    r = mkeq(c, a, b)
    if c.rec["path"].endswith("::ne"):
        r = BOOL(not r.a[0]) if r.op == "int" else mk("un", "Not", r)
    return r


def mkeq(c, a, b):
    if a is b and a.op in ("str", "int", "arg", "fld"):
        return TRUE
    if a.op == "str" and b.op == "str":
        return BOOL(a.a[0] == b.a[0])
    if a.op == "int" and b.op == "int":
        return BOOL(a.a[0] == b.a[0])
    t = c.ty(0)
    while t["k"] in ("ref", "refmut"):
        t = c.i.p.ty(t["a"][0])
    if t["s"] in INTW:
        return c.i.binop(c.st, "Eq", a, b, t["s"])
    if a.op in ("str", "int") or (b.op not in ("str", "int") and a.id > b.id):
        a, b = b, a
    return mk("call", "eq", a, b)


# ---- formatting
def parse_template(bs, args):
    out = []
    i = 0
    nxt = 0
    while True:
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(STR(bytes(bs[i : i + n]).decode()))
            i += n
        elif n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(STR(bytes(bs[i : i + ln]).decode()))
            i += ln
        else:
            flags = width = prec = None
            if n & 1:
                flags = int.from_bytes(bytes(bs[i : i + 4]), "little")
                i += 4
            if n & 2:
                width = int.from_bytes(bytes(bs[i : i + 2]), "little")
                i += 2
            if n & 4:
                prec = int.from_bytes(bytes(bs[i : i + 2]), "little")
                i += 2
            ix = nxt
            if n & 8:
                ix = int.from_bytes(bytes(bs[i : i + 2]), "little")
                i += 2
            nxt = ix + 1
            a = args[ix]
            opts = (flags, width, prec, bool(n & 16), bool(n & 32))
            if a.op == "fmtarg":
                if opts == (None, None, None, False, False):
                    out.append(a)
                else:
                    out.append(mk("fmtarg", a.a[0], a.a[1], a.a[2], opts))
            else:
                out.append(mk("fmtarg", "?", "", a, opts))
    return out


@on("core::fmt::Arguments::new")
def args_new(c):
    t, a = c.snap(0), c.snap(1)
    if t.op == "bytes" and a.op == "arr":
        return mk("fmtargs", *parse_template(list(t.a[0]), list(a.a)))
    if t.op == "arr" and a.op == "arr" and all(x.op == "int" for x in t.a):
        return mk("fmtargs", *parse_template([x.a[0] for x in t.a], list(a.a)))
    return mk("call", "fmtargs?", t, a)


@on("core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst")
def args_str(c):
    return mk("fmtargs", c.snap(0))


def fmtarg(kind):
    def f(c):
        t = c.ty(0)
        while t["k"] in ("ref", "refmut"):
            t = c.i.p.ty(t["a"][0])
        x = c.snap(0)
        if kind in ("Display",) and x.op == "str":
            return mk("fmtarg", kind, t["h"], x, None)
        return mk("fmtarg", kind, t["h"], x, None)

    return f


for k, n in [("Display", "new_display"), ("Debug", "new_debug"), ("LowerHex", "new_lower_hex"), ("UpperHex", "new_upper_hex"), ("Binary", "new_binary")]:
    H["core::fmt::rt::Argument::" + n] = fmtarg(k)


@on("alloc::fmt::format")
def fmt_format(c):
    a = c.snap(0)
    if a.op == "fmtargs":
        if len(a.a) == 1 and a.a[0].op == "str":
            return a.a[0]
        return mk("call", "format", *a.a)
    return mk("call", "format", a)


@on("verif_models::args_iter")
def args_iter(c):
    a = c.snap(0)
    if a.op == "fmtargs":
        ps = []
        for x in a.a:
            if x.op == "fmtarg" and x.a[0] == "Display" and x.a[2].op == "str" and x.a[3] is None:
                x = x.a[2]
            elif x.op == "fmtarg" and x.a[0] == "Display" and x.a[1] == "char" and x.a[3] is None:
                x = char_str_t(x.a[2])
            elif x.op == "fmtarg" and x.a[0] == "Display" and x.a[1] in ("str", "alloc::string::String", "alloc::borrow::Cow") and x.a[3] is None:
                x = x.a[2]
            ps.append(x)
        # adjacent literals are one piece
        out = []
        for x in ps:
            if x.op == "str" and out and out[-1].op == "str":
                out[-1] = STR(out[-1].a[0] + x.a[0])
            else:
                out.append(x)
        return mk("arrit", mk("arr", *out), INT(0, "usize"))
    return mk("call", "args_iter", a)


def char_str_t(x):
    if x.op == "int":
        return STR(chr(x.a[0]))
    return mk("call", "char_str", x)


@on("verif_models::char_str")
def char_str(c):
    return char_str_t(c.snap(0))


@on("alloc::boxed::box_assume_init_into_vec_unsafe")
def boxed_vec(c):
    """vec![...]: what was written into the box"""
    b = c.snap(0)
    for m in list(c.st.mem):
        if m.op == "ploc" and contains_term(m.a[0], b):
            v = c.i.load(c.st, m, (("f", "", "value"), ("f", "", "value")))
            if v.op == "arr":
                return v
    return NotImplemented


def contains_term(t, x):
    return t is x or any(contains_term(y, x) for y in t.a if y.__class__ is Term)


@on("core::intrinsics::integer_min")
def imin(c):
    a, b = c.snap(0), c.snap(1)
    if a.op == "int" and b.op == "int":
        return INT(min(a.a[0], b.a[0]), a.a[1])
    return mk("call", "min", *sorted((a, b), key=lambda x: (x.op == "int", x.id)))


@on("core::intrinsics::integer_max")
def imax(c):
    a, b = c.snap(0), c.snap(1)
    if a.op == "int" and b.op == "int":
        return INT(max(a.a[0], b.a[0]), a.a[1])
    return mk("call", "max", *sorted((a, b), key=lambda x: (x.op == "int", x.id)))


@on("core::num::saturating_sub", "core::num::saturating_add", "core::num::saturating_mul")
def sat(c):
    a, b = c.snap(0), c.snap(1)
    if a.op == "int" and b.op == "int":
        lo, hi = int_range(a.a[1])
        n = c.rec["path"].rsplit("_", 1)[-1]
        v = {"sub": a.a[0] - b.a[0], "add": a.a[0] + b.a[0], "mul": a.a[0] * b.a[0]}[n]
        return INT(max(lo, min(hi, v)), a.a[1])
    if c.rec["path"].endswith("saturating_sub") and a.op == "bin" and a.a[0] == "Add" and a.a[2] is b:
        return a.a[1]  # an overflowing addition has panicked or is another value
    return c.pure()


# ---- mem
@on("core::mem::take", "core::mem::replace")
def take(c):
    old = c.content(0)
    if c.rec["path"].endswith("replace"):
        c.set(0, c.args[1])
        return old
    t = c.i.p.ty(c.retty)
    if t["h"] in ("alloc::vec::Vec", "alloc::string::String"):
        site = c.i.site(c.st)
        c.set(0, mk("obj", site, 0, t["h"] + "::new"))
        return old
    if t["s"] == "bool":
        c.set(0, FALSE)
        return old
    if t["h"] == "core::option::Option":
        c.set(0, none())
        return old
    return NotImplemented


LEAF = (
    "verif_models::emit",
    "yap::types::",
    "scale_decode::",
    "scale_encode::",
    "scale_bits::",
    "scale_type_resolver::",
    "scale_info::",
    "parity_scale_codec::",
    "primitive_types::",
)
PURE |= {
    "scale_decode::visitor::types::composite::Composite::remaining",
    "scale_decode::visitor::types::composite::Composite::has_unnamed_fields",
    "scale_decode::visitor::types::composite::Composite::peek_name",
    "scale_decode::visitor::types::composite::Composite::bytes_from_undecoded",
    "scale_decode::visitor::types::composite::Composite::is_done",
    "scale_decode::visitor::types::composite::Composite::path",
    "scale_decode::visitor::types::variant::Variant::name",
    "scale_decode::visitor::types::variant::Variant::index",
    "scale_decode::visitor::types::variant::Variant::path",
    "scale_decode::visitor::types::sequence::Sequence::remaining",
    "scale_decode::visitor::types::array::Array::remaining",
    "scale_decode::visitor::types::tuple::Tuple::remaining",
    "scale_decode::visitor::types::str::Str::as_str",
    "scale_decode::visitor::types::str::Str::len",
}

H["verif_models::new_sink"] = newobj("verif_models::new_sink")
KNOWN_EVENTS |= {"verif_models::emit", "verif_models::emitted_bits"}


# ---- looking up a type: any of the visitor's functions may run, or the lookup fails
RESOLVE_ARGS = {
    "visit_not_found": 0,
    "visit_composite": 2,
    "visit_variant": 2,
    "visit_sequence": 2,
    "visit_array": 2,
    "visit_tuple": 1,
    "visit_primitive": 1,
    "visit_compact": 1,
    "visit_bit_sequence": 2,
}


@on("scale_type_resolver::TypeResolver::resolve_type")
def resolve_type(c):
    v = c.args[2]
    if v.op != "adt" or "visit_composite" not in v.a[2]:
        return NotImplemented
    f = dict(zip(v.a[2], v.a[3:]))
    i, st = c.i, c.st
    if any(f[k].op != "clo" or i.p.bodies[f[k].a[0]] is None for k in RESOLVE_ARGS):
        return NotImplemented
    r = c.event(nohavoc=True, tainted=False)
    ev, st = r[0]
    res = ev.res
    outs = []
    # the lookup itself fails
    st2 = st.copy()
    loc, proj = i.resolve(st2, c.dest)
    i.store(st2, loc, proj, ADT("core::result::Result", "Err", ("0",), mk("fld", res, "Err", "0")))
    outs.append((Br(res, "Err", c.span, i.fnname(st2)), st2))
    fr = st.frames[-1]
    for k, n in RESOLVE_ARGS.items():
        s = st.copy()
        clo = f[k]
        inst = clo.a[0]
        extra = [mk("fld", res, k, str(j)) for j in range(n)]
        i.enter(s, inst, [clo, f["context"]] + extra, c.dest, c.target, wrap="Ok")
        outs.append((Br(res, k, c.span, i.fnname(st)), s))
    return [(ev, ("split", outs))]


PUREF = {}


def pure(c):
    return c.pure()


class Handlers:
    def __init__(self, extra=None, pure_extra=(), events=()):
        self.extra = extra or {}
        self.pure = set(PURE) | set(pure_extra)
        self.events = set(KNOWN_EVENTS) | set(events)
        self.cache = {}
        self.iv = None
        self.tr = None

    def lookup(self, rec):
        k = id(rec)
        if k in self.cache:
            return self.cache[k]
        r = self._lookup(rec)
        self.cache[k] = r
        return r

    def _lookup(self, rec):
        names = [rec["path"]]
        if rec.get("rpath") and rec["rpath"] != rec["path"]:
            names.insert(0, rec["rpath"])
        for n in names:
            if n in self.extra:
                return self.extra[n]
        if "model" in rec:
            return None
        for n in names:
            if n in H:
                return H[n]
        for n in names:
            if n in self.pure:
                return pure
        return None

    def known(self, rec):
        return rec["path"] in self.events or rec.get("rpath") in self.events or rec.get("local")

    def leaf(self, canon, rec):
        """library code that is described by its contract instead of its body"""
        return canon.startswith(LEAF) and not canon.startswith("scale_type_resolver::visitor::")

    def interval(self, i, st, t):
        if t.op == "call":
            if t.a[0] == "min":
                a, b = i.interval(st, t.a[1]), i.interval(st, t.a[2])
                if a and b:
                    return (min(a[0], b[0]), min(a[1], b[1]))
                if b:
                    return (-(1 << 200), b[1])
            if t.a[0] == "max":
                a, b = i.interval(st, t.a[1]), i.interval(st, t.a[2])
                if a and b:
                    return (max(a[0], b[0]), max(a[1], b[1]))
        if self.iv:
            return self.iv(i, st, t)
        return None

    def truth(self, i, st, t):
        if self.tr:
            return self.tr(i, st, t)
        return None
