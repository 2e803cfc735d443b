"""Shared machinery of the checks: loading, obligations, witnesses, evidence and verdicts."""
from __future__ import annotations
import contextlib
import hashlib
import functools
import itertools
import json
import os
import re
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa import lang as L, models as M, strings as S  # noqa: E402
from sa.interp import ABN, AnalysisError, Budget, Interp  # noqa: E402
from sa.values import *  # noqa: E402,F401,F403
from sa.values import Bits, Blocked, Cls, Const, Coro, DictC, Exc, Inst, ListC, Py, Ref, SetC, Str, Term, Top, Tup, V, atom, atoms_of, cat  # noqa: E402

ROOT = os.environ.get("PYOWN_ROOT", "/repo")
NONE = Const(None)
TRUE, FALSE = Const(True), Const(False)


def discover(root, package):
    out = []
    for d, dirs, fs in os.walk(os.path.join(root, package)):
        dirs[:] = [x for x in dirs if x != "__pycache__"]
        for f in fs:
            if f.endswith(".py"):
                n = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, ".")
                out.append(n.removesuffix(".__init__"))
    return sorted(out)


def rel(f):
    return os.path.relpath(f, ROOT) if os.path.isabs(f) else f


class Timeout(BaseException):
    pass


@functools.lru_cache(maxsize=5000)
def corner_words(lg):
    """Shortest words of the language with a '#' or a '0' at an end or inside, where it has any."""
    anyw = L.ANY
    out = []
    for c in ("#", "0"):
        k = L.const(c)
        for x in (anyw + k, k + anyw, L.DIGIT.plus() + k + L.DIGIT.plus()):
            y = lg & x
            if not y.is_empty():
                for w in y.words(1, len(y.shortest())):
                    if w not in out:
                        out.append(w)
    return tuple(out)


def combos(cands, limit):
    """All combinations when there are few; otherwise the diagonals, every single variation and a spread of the rest."""
    size = 1
    for c in cands:
        size *= max(1, len(c))
    if size <= limit:
        yield from itertools.product(*cands)
        return
    longest = max(len(c) for c in cands)
    for i in range(longest):
        yield tuple(c[i % len(c)] for c in cands)
    for i in range(longest):
        yield tuple(c[(i + j) % len(c)] for j, c in enumerate(cands))
    base = [c[0] for c in cands]
    alt = [c[-1] for c in cands]
    for j, c in enumerate(cands):
        for x in c[1:]:
            yield tuple(base[:j] + [x] + base[j + 1:])
            yield tuple(alt[:j] + [x] + alt[j + 1:])
    left = max(0, limit - 2 * longest - 2 * sum(len(c) for c in cands))
    tail = itertools.product(*cands)
    yield from itertools.islice(tail, left // 2)
    x = 12345
    for _ in range(left // 2):
        out = []
        for c in cands:
            x = (1103515245 * x + 12345) & 0x7FFFFFFF
            out.append(c[(x >> 8) % len(c)])
        yield tuple(out)


class Check:
    def __init__(self, pid, tier, seed, technique=""):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.violations = []      # dict(key, where, text, path)
        self.undecided_ = []
        self.obligations = 0
        self.discharged = 0
        self.paths = 0
        self.rules = []
        self.samples = []
        self.assumptions = []
        self.counts = {}
        self.ip = Interp(ROOT, "pyown")
        self.modules = discover(ROOT, "pyown")
        self.st = self.ip.load(self.modules)
        for w in sorted(set(self.ip.unknown)):
            self.undecided("module bodies", w)
        self.cur = None
        self.thorough = tier == "thorough"
        self._sub_limit = 240 if tier == "quick" else 1500

    # ---------------------------------------------------------------- obligations
    @contextlib.contextmanager
    def obligation(self, name, limit=None):
        """One proof obligation: discharged when nothing inside reported a violation or was undecided.

        Engine limits (budget, unsupported shapes) make it undecided, never a verdict."""
        self.obligations += 1
        v0, u0 = len(self.violations), len(self.undecided_)
        prev, self.cur = self.cur, name
        self.ip.steps = 0
        try:
            yield
        except AnalysisError:
            raise
        except Budget as e:
            self.undecided(name, f"budget: {e}")
        except Timeout:
            raise
        except RecursionError:
            self.undecided(name, "recursion limit of the analyser")
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            self.undecided(name, f"analyser error {type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}")
        finally:
            self.cur = prev
        if len(self.violations) == v0 and len(self.undecided_) == u0:
            self.discharged += 1

    def undecided(self, name, why):
        self.undecided_.append({"obligation": str(name), "why": str(why)})

    def violation(self, key, where, text, path=None):
        if any(v["key"] == key for v in self.violations):
            return
        self.violations.append({"key": key, "where": where, "text": text, "path": path or "", "obligation": self.cur})
        # the verdict is settled: the rest of the exploration only adds further reports
        left = signal.getitimer(signal.ITIMER_REAL)[0]
        if left > 90 and not self.thorough and not os.environ.get("VERIF_ALL"):
            signal.setitimer(signal.ITIMER_REAL, 90, 5)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    # ---------------------------------------------------------------- program objects
    def r(self, dotted):
        return self.ip.resolve(dotted)

    def where(self, f):
        """file:line function of a program object."""
        g = f
        while True:
            if isinstance(g, Bound):
                g = g.func
            elif isinstance(g, Wrap):
                g = g.f
            else:
                break
        if isinstance(g, Func):
            return f"{rel(g.module.file)}:{g.node.lineno} {g.qual}"
        if isinstance(g, Cls) and g.info.node is not None:
            m = g.info.module
            f = getattr(m, "file", None) or self.ip.modules[m].file if m is not None else "?"
            return f"{rel(f)}:{g.info.node.lineno} {g.info.name}"
        return repr(g)

    def method(self, cls, name):
        for st, v in self.ip.getattr_(self.st, cls, name):
            if isinstance(v, ABN):
                raise AnalysisError(f"anchor vanished: {cls!r}.{name}")
            return v

    # ---------------------------------------------------------------- running
    def call(self, st, f, *args, **kw):
        """All (state, outcome) of calling f and, for coroutines, awaiting the result."""
        for s, v in self.ip.call(st, f, tuple(args), kw):
            if isinstance(v, Coro) and v.kind == "coro":
                for s2, v2 in self.ip.await_(s, v):
                    self.paths += 1
                    yield s2, v2
            else:
                self.paths += 1
                yield s, v

    def get(self, st, o, name):
        yield from self.ip.getattr_(st, o, name)

    def get1(self, st, o, name):
        r = list(self.ip.getattr_(st, o, name))
        if len(r) != 1:
            raise Exception(f"attribute {name} has {len(r)} outcomes")
        return r[0]

    def call1(self, st, f, *args, **kw):
        r = list(self.call(st, f, *args, **kw))
        if len(r) != 1:
            raise Exception(f"call of {f!r} has {len(r)} outcomes")
        return r[0]

    def mcall(self, st, o, name, *args, **kw):
        for s, m in self.ip.getattr_(st, o, name):
            if isinstance(m, ABN):
                yield s, m
            else:
                yield from self.call(s, m, *args, **kw)

    def drain(self, st, it):
        """Consumes a (async) generator: yields (state, [values], end) with end None or an abnormal outcome."""
        key = ("drain", id(object()))
        st = st.with_aux(key, ())

        def body(s, v):
            yield s.with_aux(key, s.aux[key] + (v,)), "next", None
        for s, k, p in self.ip.iterate(st, it, body, None):
            self.paths += 1
            yield s, list(s.aux[key]), (None if k == "next" else p)

    def exc(self, st, e):
        return self.ip.exc_name(st, e)

    def exc_is(self, st, e, dotted):
        """isinstance(e, class)"""
        c = self.ip.exc_class(st, e)
        want = self.r(dotted) if ":" in dotted else None
        if want is not None:
            return c.is_sub(want.info)
        return any(k.name == dotted or k.qual == dotted or k.qual.endswith("." + dotted) for k in c.mro)

    def clean(self, st, what):
        """False (and records it) when the path depends on something the engine does not model."""
        if st.taint:
            self.undecided(self.cur or what, f"{what}: {st.taint}")
            return False
        return True

    # ---------------------------------------------------------------- abstract inputs
    def satom(self, st, name, dfa=None):
        a = atom(name, "str")
        if dfa is not None:
            st = st.with_fact(("lang", a), dfa)
        return st, a

    def iatom(self, st, name, lo=None, hi=None):
        a = atom(name, "int")
        st = st.with_fact(("int", a), (lo, hi, frozenset()))
        return st, a

    # ---------------------------------------------------------------- witnesses
    def confirm(self, st, asg):
        """Do all the facts of the path hold under the assignment?  True / False / None (cannot tell)."""
        res = True
        for k, v in st.facts.items():
            kind, t = k
            try:
                if kind == "none":
                    if t in asg and (asg[t] is None) != v:
                        return False
                    continue
                x = S.ev(t, asg)
                if kind == "lang":
                    if isinstance(x, bytes):
                        x = x.decode("latin-1")
                    ok = isinstance(x, str) and v.accepts(x)
                elif kind == "int":
                    lo, hi, ne = v
                    ok = x is not None and (lo is None or x >= lo) and (hi is None or x <= hi) and x not in ne
                elif kind == "truth":
                    ok = bool(x) == v
                else:
                    ok = True
            except S.NoValue:
                res = None
                continue
            except Exception:
                res = None
                continue
            if not ok:
                return False
        return res

    def candidates(self, st, a, n=8):
        none = st.fact(("none", a))
        if none is True:
            return [None]
        if a.typ == "str":
            lg = S.lang_of(st, a)
            sh = lg.shortest()
            if sh is None:
                return []
            out = lg.words(max(2, n // 2), len(sh) + 2)
            out += [w for w in corner_words(lg) if w not in out]
            return out + [w for w in lg.samples(n - len(out) + 1, self.seed) if w not in out]
        if a.typ == "int":
            lo, hi, ne = S.int_range(st, a)
            base = [0, 1, 2, 5, 9, 10, 11, 12, 15, 23, 24, 31, 59, 60, 99, 100, 101, 127, 128, 200, 254, 255, 256, 300, 359, 360,
                    1000, 65534, 65535, -1, -2, -60]
            if lo is not None:
                base = [lo, lo + 1, lo + 2, lo + 7] + base
            if hi is not None:
                base = [hi, hi - 1] + base
            out = []
            for b in base:
                if (lo is None or b >= lo) and (hi is None or b <= hi) and b not in ne and b not in out:
                    out.append(b)
            return out[:max(n, 8)]
        if a.typ == "bool":
            return [True, False]
        return []

    def witness(self, st, atoms, want=None, n=8, limit=4000, seeds=None):
        """An assignment of the atoms on which the path is feasible and want(asg) is true."""
        atoms = list(atoms)
        for k in st.facts:
            for a in atoms_of(k[1]):
                if a not in atoms:
                    atoms.append(a)
        cands = []
        for a in atoms:
            c = list((seeds or {}).get(a, [])) + self.candidates(st, a, n)
            if not c:
                return None
            cands.append(c)
        for combo in combos(cands, limit):
            asg = dict(zip(atoms, combo))
            if self.confirm(st, asg) is not True:
                continue
            try:
                if want is None or want(asg):
                    return asg
            except S.NoValue:
                continue
        return None

    def differ(self, st, a, b, n=8, seeds=None):
        """A feasible assignment on which the two abstract values have different concrete values, or None.

        Second result: True when the two are the same normal form (equal for every input)."""
        if a == b:
            return None, True
        la = S.lin_form(a) if isinstance(a, Term) else None
        if la is not None and la == S.lin_form(b):
            return None, True
        ats = list(atoms_of(a) | atoms_of(b))

        def want(asg):
            return S.ev(a, asg) != S.ev(b, asg)
        return self.witness(st, ats, want, n=n, seeds=seeds), False

    def show(self, st, v):
        return self.ip.show(st, v)

    @staticmethod
    def asg_text(asg):
        return ", ".join(f"{a.args[0]}={v!r}" for a, v in asg.items())

    def trace_text(self, st, n=14):
        out = []
        for kind, payload, loc in st.events():
            if kind in ("log",):
                continue
            out.append(f"{kind}({', '.join(self.ip.show(st, x) if isinstance(x, V) else str(x) for x in payload)})")
        return " ; ".join(out[-n:])

    # ---------------------------------------------------------------- verdict
    def finish(self, explanation):
        known = load_known(self.pid)
        new = []
        for v in self.violations:
            k = [x for x in known if x["key"] == v["key"]]
            if k:
                print(f"KNOWN-FINDING: property={self.pid} {k[0]['what']}")
            else:
                new.append(v)
        ev = os.path.join(HERE, "evidence")
        os.makedirs(ev, exist_ok=True)
        funcs = sorted(self.ip.covered)
        digest = hashlib.sha256()
        for m in self.modules:
            f = self.ip.find(m)
            if f:
                f = f[0] if isinstance(f, tuple) else f
                with open(f, "rb") as fh:
                    digest.update(fh.read())
        doc = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": explanation,
                "rules": self.rules,
                "obligations": self.obligations, "discharged": self.discharged,
                "undecided": self.undecided_[:40], "undecided_count": len(self.undecided_),
                "paths_analysed": self.paths,
                "functions_analysed": len(funcs), "functions": funcs,
                "modules_analysed": len(self.modules), "source_digest": digest.hexdigest()[:16],
                "loops_converged": getattr(self.ip, "loops_converged", 0),
                "bounds_hit": sorted(set(map(str, self.ip.bounds))) if self.ip.bounds else [],
                "counts": self.counts, "samples": self.samples,
                "known_findings_seen": len(self.violations) - len(new),
            },
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3), "violations": len(new),
        }
        with open(os.path.join(ev, f"{self.pid}.json"), "w") as fh:
            json.dump(doc, fh, indent=1, default=str)
        rep = os.path.join(ev, f"{self.pid}.violations.txt")
        with open(rep, "w") as fh:
            for v in new:
                fh.write(f"{self.pid} [{v['key']}]\n  at: {v['where']}\n  rule instance: {v['obligation']}\n  {v['text']}\n  path: {v['path']}\n\n")
        for v in new:
            print(f"{self.pid} [{v['key']}] at {v['where']}: {v['text']}")
        for u in self.undecided_[:10]:
            print(f"undecided: {self.pid} {u['obligation']}: {u['why'][:200]}")
        print(f"{self.pid}: {self.obligations} obligations, {self.discharged} discharged, {len(new)} violations, "
              f"{len(self.undecided_)} undecided, {self.paths} paths, {len(funcs)} functions, {time.time() - self.t0:.1f}s")
        if new:
            print(f"VIOLATION property={self.pid} replay={rep}")
            return 1
        return 0


def load_known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append({"key": m.group(2), "what": m.group(3)})
    return out


REGISTRY = {}


def prop(pid, explanation, technique=None):
    def deco(f):
        REGISTRY[pid] = (f, explanation)
        return f
    return deco


def main(pid, tier, seed):
    f, explanation = REGISTRY[pid]
    limit = int(os.environ.get("VERIF_LIMIT", "600" if tier == "quick" else "3000"))

    def alarm(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    try:
        ck = Check(pid, tier, seed)
    except AnalysisError as e:
        print(f"ANALYSIS-ERROR {pid}: {e}")
        return 2
    signal.setitimer(signal.ITIMER_REAL, limit, 5)
    try:
        f(ck)
    except Timeout:
        ck.undecided("whole check", f"time limit of {limit}s reached")
    except AnalysisError as e:
        print(f"ANALYSIS-ERROR {pid}: {e}")
        return 2
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        ck.undecided("whole check", f"analyser error {type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ck.finish(explanation)
