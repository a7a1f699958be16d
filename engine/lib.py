"""Shared machinery of the checks: extraction, queries over graphs, evidence."""
import collections
import fcntl
import gc
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from terms import *
from interp import Prog, Interp, Ev, Br, Term_, DEFAULT_OPTS
from handlers import Handlers, H, PURE
import handlers

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, ".build"))
CONFIGS = {
    "all": ["--all-features"],
    "none": ["--no-default-features"],
    "default": [],
}


class CheckError(Exception):
    """the analysis gives up"""


class ExtractError(Exception):
    """the tree cannot be analysed at all"""


# ------------------------------------------------------------------ extraction
def sh(cmd, env=None, cwd=None, what=""):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ExtractError("%s failed:\n%s" % (what or cmd, r.stdout[-4000:]))
    return r.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        if os.path.isfile(base):
            files = [base]
        else:
            files = []
            for d, ds, fs in os.walk(base):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "__pycache__"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def build_driver():
    env = {"CARGO_TARGET_DIR": os.path.join(BUILD, "driver")}
    env["RUSTFLAGS"] = ""
    sh(["cargo", "+nightly", "build", "--offline", "-q"], env=env, cwd=os.path.join(ROOT, "driver"), what="building the MIR driver")
    return os.path.join(BUILD, "driver", "debug", "vdriver")


def extract(config="all"):
    """MIR facts of the current working tree of the repository, as JSON; returns the path"""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock") if os.path.exists(os.path.join(REPO, "Cargo.lock")) else os.path.join(REPO, "Cargo.toml"), os.path.join(ROOT, "driver", "src"), os.path.join(ROOT, "models")])
    out = os.path.join(BUILD, "facts-%s-%s.json" % (config, key))
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        drv = build_driver()
        sysroot = sh(["rustc", "+nightly", "--print", "sysroot"], what="rustc").strip().splitlines()[-1]
        target = os.path.join(BUILD, "target")
        for d in (os.path.join(target, "debug", "build", "scale-value"),):
            shutil.rmtree(d, ignore_errors=True)
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith("scale-value-"):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        tmp = out + ".tmp"
        if os.path.exists(tmp):
            os.unlink(tmp)
        env = {
            "RUSTC_WORKSPACE_WRAPPER": drv,
            "LD_LIBRARY_PATH": os.path.join(sysroot, "lib"),
            "CARGO_TARGET_DIR": target,
            "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0",
            "VERIF_MODELS_SRC": os.path.join(ROOT, "models", "lib.rs"),
            "VERIF_MODELS_OUT": os.path.join(BUILD, "libverif_models.rmeta"),
            "VERIF_OUT": tmp,
        }
        sh(["cargo", "+nightly", "check", "--offline", "--lib"] + CONFIGS[config], env=env, cwd=REPO, what="extracting MIR (cargo check)")
        if not os.path.exists(tmp):
            raise ExtractError("the driver wrote no facts (cargo skipped the crate?)")
        for n in os.listdir(BUILD):
            if n.startswith("facts-%s-" % config) and n.endswith(".json"):
                os.unlink(os.path.join(BUILD, n))
        os.rename(tmp, out)
    return out


_progs = {}


def prog(config="all"):
    p = _progs.get(config)
    if p is None:
        p = Prog(extract(config))
        p.config = config
        gc.collect()
        gc.freeze()
        gc.disable()
        p.byref = {}
        p.bypath = {}
        for r in p.roots:
            if r.get("traitref"):
                p.byref.setdefault((r["traitref"], r["name"]), []).append(r)
            p.bypath.setdefault(r["path"], []).append(r)
            p.bypath.setdefault(r["canon"].replace("scale_value::", "", 1), []).append(r)
        _progs[config] = p
    return p


# ------------------------------------------------------------------ analysis of a root
LIMITED = []


class An:
    """the event graph of one function"""

    def __init__(self, p, root, args=None, handlers=None, inst=None, **opts):
        self.p = p
        self.root = root
        self.name = root["path"] if root else p.bodies[inst]["canon"]
        if root and root.get("traitref"):
            self.name = "%s::%s" % (root["traitref"], root["name"])
        self.i = Interp(p, handlers or Handlers(), **opts)
        t = time.time()
        self.g = self.i.run(root["inst"] if root else inst, args=args)
        self.wall = time.time() - t
        self.span = root["span"] if root else "?"

    prune = None  # (state, step): paths that the contracts of the libraries rule out

    @property
    def complete(self):
        return self.g.incomplete is None

    def arg(self, n):
        b = self.p.bodies[self.root["inst"]]
        return mk("arg", n, b["names"].get(str(n + 1), ""))

    def nargs(self):
        return self.p.bodies[self.root["inst"]]["argc"]

    def ends(self, kind=None):
        return [n.term for n in self.g.nodes if n.term is not None and (kind is None or n.term.kind == kind)]

    def events(self, pred=None):
        out = []
        seen = set()
        for n in self.g.nodes:
            for l, _ in n.succ or ():
                if l.kind == "ev" and id(l) not in seen and (pred is None or pred(l)):
                    seen.add(id(l))
                    out.append(l)
        return out

    def automaton(self, init, step, limit=400000, node=False):
        """explore (node, state); step(state, label) -> state, list of states, None to
        stop, or Bad(...).  Terms in the state are renamed along with the graph."""
        bads = {}
        pinit, pstep = self.prune or (None, None)
        start = [(n, init, pinit) for n in self.g.inits]
        par = {s: None for s in start}
        work = collections.deque(start)
        while work:
            cur = work.popleft()
            n, stt, pst = cur
            for l, m in self.g.nodes[n].succ:
                s = stt
                ps = pst
                if l.kind == "ev":
                    s = age_state(s, l)
                if pstep:
                    if l.kind == "ev":
                        ps = age_state(ps, l)
                    ps = pstep(ps, l)
                    if ps is None:
                        continue  # cannot happen
                r = step(s, l, m) if node else step(s, l)
                if self.g.nodes[m].term is not None and r.__class__ not in (Bad, list):
                    continue
                for x in r if r.__class__ is list else [r]:
                    if x is None:
                        continue
                    if x.__class__ is Bad:
                        k = x.key
                        if k not in bads:
                            x.path = self.trace(par, cur) + [l]
                            x.states = self.states
                            bads[k] = x
                        continue
                    nx = (m, x, ps)
                    if nx not in par:
                        par[nx] = (cur, l)
                        work.append(nx)
                        if len(par) > limit:
                            self.limited = "automaton limit on " + self.name
                            if not bads:
                                raise CheckError(self.limited)
                            LIMITED.append(self.limited)
                            return list(bads.values())
        self.explored = len(par)
        return list(bads.values())

    def trace(self, par, cur):
        out = []
        self.states = [cur[1]]
        while par.get(cur):
            cur, l = par[cur]
            out.append(l)
            self.states.append(cur[1])
        out.reverse()
        self.states.reverse()
        return out


def age_state(s, ev):
    site = None
    r = ev.res
    if r is not None:
        for x in r.atoms:
            if x.op in ("res", "obj") and x.a[0] == ev.site:
                site = ev.site
    if site is None:
        return s

    def f(x):
        if x.op in ("res", "obj") and x.a[0] == site and x.a[1] == 0:
            return mk(x.op, site, 1, *x.a[2:])
        return None

    def go(v):
        if v.__class__ is Term:
            return subst(v, f, {})
        if v.__class__ is tuple:
            return tuple(go(x) for x in v)
        if v.__class__ is frozenset:
            return frozenset(go(x) for x in v)
        return v

    return go(s)


class Bad:
    def __init__(self, key, msg, where=None):
        self.key, self.msg, self.where = key, msg, where
        self.path = []


def render_path(path, n=14):
    out = []
    for l in path:
        if l.kind == "step":
            continue
        sp = getattr(l, "span", None) or ""
        s = repr(l)
        out.append("%s   [%s]" % (s if len(s) < 300 else s[:300] + "...", sp))
    if len(out) > n:
        out = out[:2] + ["... (%d steps)" % (len(out) - n)] + out[-(n - 2) :]
    return out


# ------------------------------------------------------------------ terms
def norm(t, memo=None):
    """leave out the bookkeeping of mutation"""
    if memo is None:
        memo = {}

    def f(x):
        if x.op in ("mut", "stale"):
            return norm(x.a[0], memo)
        if x.op == "upd":
            return norm(x.a[0], memo)
        return None

    return subst(t, f, memo)


def unwiden(t):
    """strip value-preserving integer conversions; (inner term, ok)"""
    while t.op == "cast" and t.a[0] in INTW and t.a[1] in INTW:
        a, b = int_range(t.a[0]), int_range(t.a[1])
        if a[0] >= b[0] and a[1] <= b[1]:
            t = t.a[2]
        else:
            break
    return t


def is_adt(t, path=None, var=None):
    return t.op == "adt" and (path is None or t.a[0].endswith(path)) and (var is None or t.a[1] == var)


def fields(t):
    return dict(zip(t.a[2], t.a[3:]))


def field(t, name):
    return fields(t).get(name) if t.op == "adt" else None


OPAQUE_OK = ("res", "unk", "const", "static", "wid", "zst")


def unknowns(t):
    """parts of a term the analysis cannot interpret"""
    out = []
    for x in walk(t):
        if x.op in ("unk", "const", "indirect", "agg", "uninit", "wid"):
            out.append(x)
    return out


# ------------------------------------------------------------------ reporting
class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.okc = collections.Counter()
        self.samples = {}
        self.viol = []  # (key, msg, where, path)
        self.und = []
        self.fns = set()
        self.nodes = 0
        self.rules = {}
        self.assume = []

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, inst, n=1):
        self.okc[rule] += n
        self.samples.setdefault(rule, set()).add(inst)

    def bad(self, rule, inst, msg, where="", path=None):
        key = "%s|%s|%s" % (rule, inst, msg if len(msg) < 160 else msg[:160])
        if all(v[0] != key for v in self.viol):
            self.viol.append((key, "%s: %s: %s" % (rule, inst, msg), where, path or []))

    def undecided(self, rule, inst, why):
        self.und.append("%s: %s: %s" % (rule, inst, why))

    def saw(self, an):
        self.fns |= an.g.fns
        self.nodes += len(an.g.nodes)

    def finish(self):
        for x in LIMITED:
            self.undecided("analysis", "states", x)
        del LIMITED[:]
        known = []
        kf = os.path.join(ROOT, "known_findings.txt")
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if line.startswith("KNOWN property=%s " % self.prop):
                    known.append(line.split(" key=", 1)[1])
        new = [v for v in self.viol if v[0] not in known]
        old = [v for v in self.viol if v[0] in known]
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "Abstract interpretation of the MIR of the current tree: %d functions analysed in place, %d abstract states; every path through them was compared with the rules below. %d obligations hold, %d violated, %d undecided."
                % (len(self.fns), self.nodes, sum(self.okc.values()), len(self.viol), len(self.und)),
                "functions": len(self.fns),
                "abstract_states": self.nodes,
                "obligations_discharged": sum(self.okc.values()),
                "obligations": dict(self.okc),
                "instances": {k: sorted(v)[:40] for k, v in self.samples.items()},
                "rules": self.rules,
                "undecided": self.und[:60],
            },
            "assumptions": self.assume + ["library functions outside the crate behave as documented (engine/handlers.py, models/lib.rs)"],
            "wall_s": round(time.time() - self.t0, 2),
            "violations": [v[1] for v in new],
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d functions, %d states, %d obligations hold, %d undecided, %.1fs" % (self.prop, len(self.fns), self.nodes, sum(self.okc.values()), len(self.und), time.time() - self.t0))
        for u in self.und[:20]:
            print("  undecided: " + u[:300])
        for v in old:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, v[1]))
        if new:
            rp = os.path.join(ROOT, "evidence", self.prop + ".violations.txt")
            with open(rp, "w") as f:
                for key, msg, where, path in new:
                    f.write("%s\n  at %s\n  key=%s\n" % (msg, where, key))
                    for l in render_path(path):
                        f.write("    %s\n" % l)
            for key, msg, where, path in new[:10]:
                print("  %s   at %s" % (msg[:600], where))
                for l in render_path(path, 8):
                    print("      " + l[:260])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if sum(self.okc.values()) == 0 and not self.und:
            print("  no obligation was checked")
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.join(ROOT, "evidence", self.prop + ".json")))
            return 1
        return 0


PROPS = {}


def prop(pid):
    def d(f):
        PROPS[pid] = f
        return f

    return d


def callgraph(p):
    g = getattr(p, "_cg", None)
    if g is None:
        g = {}
        p._cgl = {}

        def recs(x, out):
            if x.__class__ is dict:
                if x.get("k") == "fn":
                    out.append(x.get("v", x))
                for k, y in x.items():
                    if k in ("inst",) and y is not None and isinstance(y, int):
                        out.append({"inst": y, "path": ""})
                    if y.__class__ in (dict, list):
                        recs(y, out)
            elif x.__class__ is list:
                for y in x:
                    if y.__class__ in (dict, list):
                        recs(y, out)

        for i, b in enumerate(p.bodies):
            if not b:
                continue
            out = []
            recs(b["blocks"], out)
            for bb in b["blocks"]:
                for st in (bb or {"s": ()})["s"]:
                    if st[0] == "=" and st[2][0] == "agg" and st[2][1][0] == "closure":
                        out.append({"inst": st[2][1][1], "path": ""})
            g[i] = {r["inst"] for r in out if r.get("inst") is not None}
            p._cgl[i] = [r for r in out if r["path"]]
        p._cg = g
    return g


def reaches(p, inst, pred):
    """a function that may be called from `inst` (in bodies we have) calls something with pred(rec)"""
    g = callgraph(p)
    seen = {inst}
    work = [inst]
    while work:
        i = work.pop()
        if any(pred(r) for r in p._cgl.get(i, ())):
            return True
        for j in g.get(i, ()):
            if j not in seen:
                seen.add(j)
                work.append(j)
    return False


def need(rep, roots, what):
    """anchors that must exist"""
    if not roots:
        rep.bad("anchor", what, "not found in the current tree")
    return roots


def impl_root(p, rep, traitref, name):
    r = p.byref.get((traitref, name))
    if not r:
        # generic parameters may have been renamed: match up to them
        def strip(s):
            import re

            return re.sub(r"\b[A-Z][A-Za-z]*\b(?=[,>])", "_", s)

        for (tr, n), l in p.byref.items():
            if n == name and strip(tr) == strip(traitref):
                r = l
    if not r:
        rep.bad("anchor", "%s::%s" % (traitref, name), "not found in the current tree")
        return None
    return r[0]


def fn_root(p, rep, path, required=True):
    r = p.bypath.get(path)
    if not r:
        if required:
            rep.bad("anchor", path, "not found in the current tree")
        return None
    return r[0]
