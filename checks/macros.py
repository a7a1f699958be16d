"""The value! macro: expanded on a family of inputs by the compiler, the MIR of the expansions compared with the input."""
import fcntl
import re
import subprocess
import os
import shutil
import lib
from rules import *

ARGS = "a0: Value, a1: u8, a2: &str, a3: bool, a4: (u16, i64)"
# expressions that stand for "any expression", by the kinds of tokens they are made of
EXPRS = ["a0.clone()", "a1", "a2", '"some text"', "true", "'c'", "a1 as u16", "a4.0", "-a4.1", "!a3", "a1.wrapping_add(2)", "u64::from(a1)", "core::cmp::min::<u8>(a1, 3)", "a1 ^ 1", "&a2[..]"]
ALTER = ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "replace", "repeat")
HEADS = {"t": "unnamed_composite", "n": "named_composite", "vt": "unnamed_variant", "vn": "named_variant"}


def leaf(i):
    return ("e", EXPRS[i % len(EXPRS)])


def kinds(i):
    """one value of every kind, to be put at place i"""
    k = "k%d" % i
    return [
        leaf(i),
        leaf(i + 2),
        leaf(6 + i * 2),
        ("t", (), False),
        ("t", (leaf(i + 3), leaf(i + 1)), i % 2 == 0),
        ("t", (("t", (leaf(i),), True),), False),
        ("n", (), False),
        ("n", ((k, leaf(i + 1)), ("x", ("vt", "Y", (leaf(i),), False))), i % 2 == 1),
        ("vt", "Foo", (), False),
        ("vt", "Bar", (leaf(i), ("n", (("q", leaf(i)),), False)), i % 2 == 0),
        ("vn", "Baz", (), False),
        ("vn", "Qux", (("name", leaf(i + 4)), (k, ("t", (leaf(i),), False))), i % 2 == 1),
    ]


def cases():
    out = []
    for v in kinds(0) + [("e", x) for x in EXPRS]:
        out.append(v)
    out += [("e", "a0"), ("t", (("e", "a0"),), False), ("n", (("x", ("e", "a0")),), True), ("vt", "V", (("e", "a1"), ("e", "a0")), False)]
    KEYS = [("name",), ("_x9",), ("Upper",), ("key with blanks", '"key with blanks"'), ("", '""'), ('quo"te', '"quo\\"te"'), ("a", '"a"')]
    for ctx in ("t", "vt", "n", "vn"):

        def make(vals, trail, keys=None):
            if ctx in ("n", "vn"):
                vals = tuple((k, v) for k, v in zip(keys or [("f%d" % i,) for i in range(len(vals))], vals))
            return (ctx, tuple(vals), trail) if ctx in ("t", "n") else (ctx, "Variant", tuple(vals), trail)

        for t in (False, True):
            for a in kinds(1):
                out.append(make([a], t))
        for i, a in enumerate(kinds(1)):
            for j, b in enumerate(kinds(2)):
                out.append(make([a, b], (i + j) % 2 == 0))
                out.append(make([leaf(i), b, a, leaf(j)], (i + j) % 2 == 1))
        if ctx in ("n", "vn"):
            for k in KEYS:
                for v in kinds(3):
                    out.append(make([v, leaf(1)], False, [k, ("z",)]))
                    out.append(make([leaf(1), v], True, [("z",), k]))
        out.append(make([("e", x) for x in EXPRS], False))
        out.append(make([("e", x) for x in reversed(EXPRS)], True))
    return out


def key(k):
    return (k, k) if k.__class__ is str else (k[0], k[-1])


def src(v):
    if v[0] == "e":
        return v[1]
    comma = "," if v[-1] and v[-2] else ""
    if v[0] in ("t", "vt"):
        s = "(%s%s)" % (", ".join(src(x) for x in v[-2]), comma)
    else:
        s = "{ %s%s }" % (", ".join("%s: %s" % (key(k)[1], src(x)) for k, x in v[-2]), comma)
    return s if len(v) == 3 else v[1] + " " * (len(v[-2]) % 2) + s


def source(cs):
    o = ["#![allow(warnings)]", "use scale_value::{value, Value};"]
    for i, e in enumerate(EXPRS + ["a0"]):
        o.append("pub fn expr_%d(%s) -> Value { Value::from(%s) }" % (i, ARGS, e))
    for i, c in enumerate(cs):
        o.append("pub fn case_%d(%s) -> Value { %s }" % (i, ARGS, "value!(%s)" % src(c)))
    o.append("pub fn case_%d(%s) -> Value { value!() }" % (len(cs), ARGS))
    return o


def facts(lines):
    """MIR facts of the witness crate; returns (program, {line: compiler error})"""
    W = os.path.join(lib.BUILD, "witness")
    os.makedirs(os.path.join(W, "src"), exist_ok=True)
    repo = lib.REPO
    with open(os.path.join(lib.BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with open(os.path.join(W, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\nscale-value = { path = "%s", features = ["from-string"] }\n[workspace]\n' % repo)
        lock = os.path.join(repo, "Cargo.lock")
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(W, "Cargo.lock"))
        drv = lib.build_driver()
        sysroot = lib.sh(["rustc", "+nightly", "--print", "sysroot"], what="rustc").strip().splitlines()[-1]
        out = os.path.join(lib.BUILD, "facts-witness.json")
        env = dict(os.environ)
        env.update(
            {
                "RUSTC_WORKSPACE_WRAPPER": drv,
                "LD_LIBRARY_PATH": os.path.join(sysroot, "lib"),
                "CARGO_TARGET_DIR": os.path.join(lib.BUILD, "target-witness"),
                "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0",
                "VERIF_CRATE": "witness",
                "VERIF_MODELS_SRC": os.path.join(lib.ROOT, "models", "lib.rs"),
                "VERIF_MODELS_OUT": os.path.join(lib.BUILD, "libwitness_models.rmeta"),
                "VERIF_OUT": out,
            }
        )
        errors = {}
        for _ in range(4):
            if os.path.exists(out):
                os.unlink(out)
            fp = os.path.join(lib.BUILD, "target-witness", "debug", ".fingerprint")
            for n in os.listdir(fp) if os.path.isdir(fp) else []:
                if n.startswith(("witness-", "scale-value-")):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
            with open(os.path.join(W, "src", "lib.rs"), "w") as f:
                f.write("\n".join("" if i in errors else l for i, l in enumerate(lines)) + "\n")
            r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "--message-format", "short"], env=env, cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0 and os.path.exists(out):
                return lib.Prog(out), errors
            new = {int(m.group(1)) - 1: m.group(2) for m in re.finditer(r"(?m)^src/lib\.rs:(\d+):\d+: error[^:]*: (.*)$", r.stdout)}
            new = {i: e for i, e in new.items() if i not in errors and i >= 2}
            if not new:
                raise lib.ExtractError("the uses of the macro do not compile:\n" + r.stdout[-3000:])
            errors.update(new)
        raise lib.ExtractError("the uses of the macro do not compile:\n" + r.stdout[-3000:])


class Judge:
    def __init__(self, a, refs):
        self.ev = {}
        for e in a.events():
            self.ev[e.res] = e if e.res not in self.ev or self.ev[e.res] is e else None
        self.refs = refs
        self.changed = None

    def items(self, t):
        """the items of a list, or None"""
        out = []
        while t.op == "call" and t.a[0] == "pushed":
            out.insert(0, t.a[2])
            t = t.a[1]
        if t.op == "mut":
            for e in self.ev.values():
                if e is not None and (e.rec["path"] in REORDER or e.rec.get("canon") in REORDER) and e.args and base(e.args[0]) is base(t):
                    self.changed = "items go through %s" % e.rec["path"]
            return None
        if t.op == "arr":
            return list(t.a) + out
        if t.op == "obj" or t.op == "bytes" and not t.a[0]:
            return out
        return None

    def shape(self, t):
        """(kind, [name,] items) of a value the code makes, ("e", term), or None"""
        if t.op == "adt" and t.a[0].endswith("Value") and "value" in t.a[2]:
            d = field(t, "value")
            if d.op == "adt" and d.a[1] in ("Composite", "Variant"):
                c = d.a[3]
                if d.a[1] == "Composite":
                    return self.comp(c, None)
                n, v = field(c, "name"), field(c, "values")
                return self.comp(v, n) if v is not None else None
            return ("e", t)
        e = self.ev.get(t) if t.op == "res" else None
        if e is not None and "scale_value::value_type::" in e.rec["path"] + e.rec.get("canon", ""):
            n = last(e.rec["path"])
            for k, h in HEADS.items():
                if n == h:
                    x = self.items(e.args[-1])
                    if x is None:
                        return None
                    return (k, x) if len(e.args) == 1 else (k, e.args[0], x)
            if n == "variant":
                return self.comp(e.args[1], e.args[0])
            if n in ("from", "into", "without_context") and len(e.args) == 1:
                return self.shape(e.args[0]) if n == "without_context" else ("e", t)
            return None
        return ("e", t)

    def comp(self, c, name):
        if c.op != "adt" or c.a[1] not in ("Named", "Unnamed"):
            return None
        x = self.items(c.a[3])
        if x is None:
            return None
        k = ("v" if name is not None else "") + ("n" if c.a[1] == "Named" else "t")
        return (k, x) if name is None else (k, name, x)

    def judge(self, v, t):
        r = self.judge1(v, t, "the value")
        return self.changed or r

    def name(self, t):
        n = text_of(t)
        if n is None:
            e = self.ev.get(t) if t.op == "res" else None
            c = (t.a[0], t.a[1:]) if t.op == "call" else (e.rec["path"], e.args) if e is not None else None
            if c and last(c[0]) in ALTER and c[1] and c[1][0].__class__ is Term and text_of(c[1][0]) is not None:
                self.changed = "a name goes through %s" % c[0]
        return n

    def judge1(self, v, t, where):
        """None, a message or "?..." """
        if v[0] == "e":
            want = self.refs.get(v[1])
            if want is None:
                return "?the expression is not understood"
            if t is want or self.same(t, want):
                return None
            s = self.shape(t)
            if s is None or vague(t):
                return "?what %s is" % where
            return "%s is %s instead of the expression's value" % (where, show(t)[:120])
        s = self.shape(t)
        if s is None:
            return "?what %s is" % where
        if s[0] == "e" and vague(t):
            return "?what %s is" % where
        if s[0] != v[0]:
            return "%s is %s instead of %s" % (where, HEADS.get(s[0], show(t)[:80]), HEADS[v[0]])
        if len(v) == 4:
            n = self.name(s[1])
            if n is None:
                return "?the name of %s" % where
            if n != v[1]:
                return "the name of %s is %r instead of %r" % (where, n, v[1])
        got, want = s[-1], v[-2]
        if len(got) != len(want):
            return "%s has %d items instead of %d" % (where, len(got), len(want))
        und = None
        for i, (g, w) in enumerate(zip(got, want)):
            at = "item %d of %s" % (i, where)
            if v[0] in ("n", "vn"):
                if g.op != "tup" or len(g.a) != 2:
                    und = "?" + at
                    continue
                n = self.name(g.a[0])
                if n is None:
                    und = "?the name of " + at
                elif n != key(w[0])[0]:
                    return "the name of %s is %r instead of %r" % (at, n, key(w[0])[0])
                g, w = g.a[1], w[1]
            r = self.judge1(w, g, at)
            if r and r[0] != "?":
                return r
            und = und or r
        return und

    def same(self, t, want):
        """the same but for the numbering of results"""
        if t.op != want.op:
            return False
        if t.op == "res":
            a, b = self.ev.get(t), self.refev.get(want)
            return a is not None and b is not None and a.rec["path"] == b.rec["path"] and len(a.args) == len(b.args) and all(self.same(x, y) for x, y in zip(a.args, b.args))
        if len(t.a) != len(want.a):
            return False
        return all(self.same(x, y) if x.__class__ is Term and y.__class__ is Term else x == y for x, y in zip(t.a, want.a))


def text_of(t):
    while t.op == "call" and last(t.a[0]) in ("into", "to_string", "from", "format") and t.a[-1].__class__ is Term:
        t = t.a[-1]
    return t.a[0] if t.op == "str" else None


@prop("C43")
def c43(rep):
    rep.rule("expands", "every documented form of the macro compiles")
    rep.rule("value", "the value that the expansion makes has the kind, names, items and order written in the macro's input")
    cs = cases()
    lines = source(cs)
    p, errors = facts(lines)
    p.config, p.byref, p.bypath = "witness", {}, {}
    roots = {r["path"]: r for r in p.roots}
    refs, refev = {}, {}
    for i, e in enumerate(EXPRS + ["a0"]):
        r = roots.get("expr_%d" % i)
        if r is None:
            continue
        a = An(p, r, pushed=("Value",))
        vals = {x.val for x in a.ends("ret")}
        if a.complete and len(vals) == 1:
            refs[e] = vals.pop()
            for x in a.events():
                refev[x.res] = x
    first = 3 + len(EXPRS)
    for i, c in enumerate(cs + [("t", (), False)]):
        s = "value!(%s)" % src(c) if i < len(cs) else "value!()"
        if first + i in errors:
            rep.bad("expands", s, "does not compile: %s" % errors[first + i][:200], "src/macros.rs")
            continue
        rep.ok("expands", s)
        r = roots.get("case_%d" % i)
        if r is None:
            rep.undecided("value", s, "not found")
            continue
        a = An(p, r, pushed=("Value",))
        rep.saw(a)
        vals = {x.val for x in a.ends("ret")}
        if not a.complete or not vals:
            rep.undecided("value", s, a.g.incomplete or "never returns")
            continue
        j = Judge(a, refs)
        j.refev = refev
        rs = [j.judge(c, t) for t in vals]
        bad = [x for x in rs if x and x[0] != "?"]
        if bad:
            rep.bad("value", s, bad[0], "src/macros.rs")
        elif any(rs):
            rep.undecided("value", s, [x for x in rs if x][0][1:])
        else:
            rep.ok("value", s)
