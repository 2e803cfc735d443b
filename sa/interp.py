"""Path-sensitive interprocedural abstract interpreter for the Python subset used by the repository.

Nothing of the analysed program is executed: its syntax trees are interpreted over the abstract
domain of values.py (constants, opaque terms, string concatenations constrained by regular
languages, bit vectors of provenance, abstract heap).  Every evaluation step returns the list
of abstract successor states, so exceptional and non-local control flow is explicit.  Constructs outside
the supported subset evaluate to Top and *taint* the path: a tainted path is never the
basis of a report.
"""
from __future__ import annotations
import ast
import builtins as _b
import os
import sys

from . import lang as L
from . import strings as S
from .values import *

ABN = (Exc, Blocked, Unwind)
sys.setrecursionlimit(60000)


class Budget(Exception):
    pass


class AnalysisError(Exception):
    """The analysis cannot be set up (vanished anchor, syntax error...)."""


class Frame:
    __slots__ = ("qual", "module", "addr", "closure", "cls", "hook", "info", "file", "first", "depth", "isclass")

    def __init__(self, qual, module, addr, closure, cls=None, hook=None, info=None, first=None, depth=0, isclass=False):
        self.qual, self.module, self.addr, self.closure = qual, module, addr, closure
        self.cls, self.hook, self.info, self.first, self.depth, self.isclass = cls, hook, info, first, depth, isclass
        self.file = module.file if module else "?"


class Module:
    def __init__(self, name, file, tree, is_pkg):
        self.name, self.file, self.tree, self.is_pkg = name, file, tree, is_pkg
        self.addr = ("mod", name)
        self.done = False


class FInfo:
    """Static facts about a function / lambda / comprehension scope."""
    cache: dict = {}

    def __init__(self, node):
        self.globals, self.nonlocals, names = set(), set(), set()
        self.has_yield = False
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                names.add(x.arg)
            if a.vararg:
                names.add(a.vararg.arg)
            if a.kwarg:
                names.add(a.kwarg.arg)
            body = node.body if isinstance(node.body, list) else [node.body]
        elif isinstance(node, (ast.Module, ast.ClassDef)):
            body = node.body
        else:
            body = []
            for g in node.generators:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        names.add(n.id)

        def visit(n, comp=False):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(n.name)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for m in ast.walk(n):
                    if isinstance(m, ast.NamedExpr):
                        names.add(m.target.id)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, ast.Global):
                self.globals |= set(n.names)
            elif isinstance(n, ast.Nonlocal):
                self.nonlocals |= set(n.names)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    names.add((al.asname or al.name).split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                names.add(n.name)
            elif isinstance(n, ast.MatchMapping) and n.rest:
                names.add(n.rest)
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.has_yield = True
            for c in ast.iter_child_nodes(n):
                visit(c)
        for s in body:
            visit(s)
        self.locals = names - self.globals - self.nonlocals

    @classmethod
    def of(cls, node):
        r = cls.cache.get(id(node))
        if r is None:
            r = cls.cache[id(node)] = cls(node)
            cls.cache[("keep", id(node))] = node
        return r


class Interp:
    def __init__(self, root, package):
        self.root, self.package = root, package
        self.modules: dict[str, Module] = {}
        self.stubs: dict = {}
        self.int_values = {}      # string value -> the integer its digits denote (set by a check)
        self.overrides: dict = {}
        self.classes: dict[str, ClassInfo] = {}
        self.steps = 0
        self.max_steps = 4_000_000
        self.max_paths = 60000
        self.covered: set = set()       # (qual) functions analysed
        self.unknown: dict = {}         # notes on unsupported constructs
        self.env_hooks: dict = {}
        self.read_limit = 3
        self.loops_converged = 0
        self.fresh_n = 0
        State.base = {}
        from . import models
        self.models = models
        models.install(self)
        self.st0 = State()
        self.paths = 0

    # ------------------------------------------------------------------ utilities
    def note(self, why):
        self.unknown[why] = self.unknown.get(why, 0) + 1

    def fresh(self, name, typ):
        self.fresh_n += 1
        return atom(f"{name}.{self.fresh_n}", typ)

    def top(self, st, why):
        self.note(why)
        return st.tainted(why), Top(why)

    def raise_(self, st, clsname, *msg):
        """Outcome for a builtin exception."""
        info = self.classes[clsname]
        st, r = st.new(Inst(info, {"args": Tup(tuple(Const(m) if not isinstance(m, V) else m for m in msg))}))
        return st, Exc(r)

    def exc_class(self, st, e: Exc):
        if isinstance(e.value, Ref):
            return st.get(e.value.addr).cls
        return None

    def exc_name(self, st, e):
        c = self.exc_class(st, e)
        return c.name if c else "?"

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget")

    def loc(self, fr, node):
        return (fr.file, getattr(node, "lineno", 0), fr.qual)

    # ------------------------------------------------------------------ modules
    def find(self, name):
        parts = name.split(".")
        p = os.path.join(self.root, *parts)
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isdir(p) and parts[0] == self.package:
            return None, True
        return None

    def internal(self, name):
        return name == self.package or name.startswith(self.package + ".")

    def import_module(self, st, name):
        if name in self.modules:
            return st
        if "." in name:
            st = self.import_module(st, name.rsplit(".", 1)[0])
            if name in self.modules:
                return st
        f = self.find(name)
        if f is None:
            raise AnalysisError(f"module {name} not found")
        path, is_pkg = f
        src = "" if path is None else open(path, encoding="utf-8").read()
        rel = os.path.relpath(path, self.root) if path else name
        tree = ast.parse(src, filename=rel)
        m = Module(name, rel, tree, is_pkg)
        self.modules[name] = m
        st = st.put(m.addr, Env({"__name__": Const(name)}))
        fr = Frame("<module>", m, m.addr, (), info=FInfo.of(tree))
        outs = []
        for s2, k, p in self.block(tree.body, st, fr):
            outs.append((s2, k, p))
        good = [o for o in outs if o[1] == "next"]
        if len(good) != 1:
            bad = [self.describe_abn(o[0], o[2]) for o in outs if o[1] != "next"]
            if not good:
                raise AnalysisError(f"module {name} cannot be interpreted: {bad[:2]}")
        st = good[0][0]
        m.done = True
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            pm = self.modules[par]
            env = st.get(pm.addr)
            if leaf not in env.vars:
                st = self.setvar(st, pm.addr, leaf, Mod(name))
        return st

    def describe_abn(self, st, p):
        if isinstance(p, Exc):
            c = st.get(p.value.addr)
            return f"{c.cls.name}{self.show(st, c.attrs.get('args', Tup(())))}"
        return repr(p)

    def load(self, names):
        st = self.st0
        for n in names:
            st = self.import_module(st, n)
        State.base = dict(State.base)
        State.base.update(st.heap)
        st = st.copy()
        st.heap = Heap()
        st.trace = None
        self.st0 = st
        return st

    def resolve(self, dotted):
        """Program object by dotted path 'pkg.mod:Name.attr'."""
        mod, _, path = dotted.partition(":")
        if mod not in self.modules:
            f = self.find(mod)
            if f is None:
                raise AnalysisError(f"anchor vanished: module {mod}")
            raise AnalysisError(f"module {mod} not loaded")
        v = None
        env = self.st0.get(self.modules[mod].addr).vars
        parts = path.split(".")
        if parts[0] not in env:
            raise AnalysisError(f"anchor vanished: {dotted}")
        v = env[parts[0]]
        for p in parts[1:]:
            outs = list(self.getattr_(self.st0, v, p))
            if len(outs) != 1 or isinstance(outs[0][1], ABN):
                raise AnalysisError(f"anchor vanished: {dotted}")
            v = outs[0][1]
        return v

    # ------------------------------------------------------------------ environments
    def setvar(self, st, addr, name, v):
        env = st.get(addr)
        d = dict(env.vars)
        d[name] = v
        return st.put(addr, Env(d))

    def lookup(self, st, fr, name):
        if fr.isclass:
            env = st.get(fr.addr).vars
            if name in env:
                return env[name]
        elif name in fr.info.locals:
            env = st.get(fr.addr).vars
            if name in env:
                return env[name]
            if fr.qual != "<module>":
                return None
        if name not in fr.info.globals:
            for a in fr.closure:
                env = st.get(a).vars
                if name in env:
                    return env[name]
        env = st.get(fr.module.addr).vars
        if name in env:
            return env[name]
        return self.builtins.get(name)

    def store_name(self, st, fr, name, v):
        if name in fr.info.globals:
            return self.setvar(st, fr.module.addr, name, v)
        if name in fr.info.nonlocals:
            for a in fr.closure:
                if name in st.get(a).vars:
                    return self.setvar(st, a, name, v)
        if name not in fr.info.locals and not fr.isclass and fr.closure:
            # walrus inside a comprehension binds in the enclosing scope
            for a in fr.closure:
                return self.setvar(st, a, name, v)
        return self.setvar(st, fr.addr, name, v)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        """Yields (state, kind, payload)."""
        if not stmts:
            yield st, "next", None
            return
        frontier = [st]
        for s in stmts:
            nxt = []
            for st1 in frontier:
                self.tick()
                m = getattr(self, "s_" + type(s).__name__, None)
                if m is None:
                    st2, _ = self.top(st1, f"statement {type(s).__name__} at {fr.file}:{s.lineno}")
                    nxt.append(st2)
                    continue
                for st2, k, p in m(s, st1, fr):
                    if k == "next":
                        nxt.append(st2)
                    else:
                        yield st2, k, p
            frontier = nxt
            if len(frontier) > self.max_paths:
                raise Budget("path budget")
            if not frontier:
                return
        for st1 in frontier:
            yield st1, "next", None

    def s_Pass(self, s, st, fr):
        yield st, "next", None

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            yield st, "next", None
            return
        for st1, v in self.ev(s.value, st, fr):
            if isinstance(v, ABN):
                yield st1, "abn", v
            else:
                yield st1, "next", None

    def s_Return(self, s, st, fr):
        if s.value is None:
            yield st, "ret", NONE
            return
        for st1, v in self.ev(s.value, st, fr):
            if isinstance(v, ABN):
                yield st1, "abn", v
            else:
                yield st1, "ret", v

    def s_Break(self, s, st, fr):
        yield st, "brk", None

    def s_Continue(self, s, st, fr):
        yield st, "cont", None

    def s_Global(self, s, st, fr):
        yield st, "next", None

    s_Nonlocal = s_Global

    def s_Assert(self, s, st, fr):
        for st1, v in self.ev(s.test, st, fr):
            if isinstance(v, ABN):
                yield st1, "abn", v
                continue
            for st2, t in self.truth(st1, v):
                if isinstance(t, ABN):
                    yield st2, "abn", t
                elif t:
                    yield st2, "next", None
                else:
                    st3, e = self.raise_(st2, "AssertionError")
                    yield st3, "abn", e

    def s_Import(self, s, st, fr):
        for al in s.names:
            if self.internal(al.name):
                st = self.import_module(st, al.name)
                name = al.asname or al.name.split(".")[0]
                v = Mod(al.name if al.asname else al.name.split(".")[0])
            else:
                name = al.asname or al.name.split(".")[0]
                v = self.ext_module(al.name if al.asname else al.name.split(".")[0])
            st = self.store_name(st, fr, name, v)
        yield st, "next", None

    def ext_module(self, name):
        return Mod(name)

    def s_ImportFrom(self, s, st, fr):
        mod = s.module or ""
        if s.level:
            base = fr.module.name if fr.module.is_pkg else fr.module.name.rsplit(".", 1)[0]
            for _ in range(s.level - 1):
                base = base.rsplit(".", 1)[0]
            mod = base + ("." + mod if mod else "")
        if mod == "__future__":
            yield st, "next", None
            return
        if self.internal(mod):
            st = self.import_module(st, mod)
            m = self.modules[mod]
            for al in s.names:
                env = st.get(m.addr).vars
                if al.name == "*":
                    if "__all__" in env:
                        names = [x.v for x in self.items_of(st, env["__all__"])]
                    else:
                        names = [n for n in env if not n.startswith("_")]
                    for n in names:
                        if n in env:
                            st = self.store_name(st, fr, n, env[n])
                    continue
                if al.name in env:
                    v = env[al.name]
                elif self.find(mod + "." + al.name):
                    st = self.import_module(st, mod + "." + al.name)
                    v = Mod(mod + "." + al.name)
                else:
                    st2, e = self.raise_(st, "ImportError", al.name)
                    yield st2, "abn", e
                    return
                st = self.store_name(st, fr, al.asname or al.name, v)
        else:
            for al in s.names:
                if al.name == "*":
                    st = st.tainted("external star import")
                    continue
                st = self.store_name(st, fr, al.asname or al.name, self.ext_attr(mod, al.name))
        yield st, "next", None

    def ext_attr(self, mod, name):
        full = mod + "." + name
        v = self.ext.get(full)
        return v if v is not None else Ext(full)

    def s_If(self, s, st, fr):
        for st1, v in self.ev(s.test, st, fr):
            if isinstance(v, ABN):
                yield st1, "abn", v
                continue
            for st2, t in self.truth(st1, v):
                if isinstance(t, ABN):
                    yield st2, "abn", t
                    continue
                yield from self.block(s.body if t else s.orelse, st2, fr)

    def s_Assign(self, s, st, fr):
        for st1, v in self.ev(s.value, st, fr):
            if isinstance(v, ABN):
                yield st1, "abn", v
                continue
            outs = [(st1, None)]
            for t in s.targets:
                nxt = []
                for st2, a in outs:
                    if isinstance(a, ABN):
                        nxt.append((st2, a))
                        continue
                    nxt.extend(self.assign(t, v, st2, fr))
                outs = nxt
            for st2, a in outs:
                if isinstance(a, ABN):
                    yield st2, "abn", a
                else:
                    yield st2, "next", None

    def s_AnnAssign(self, s, st, fr):
        if fr.isclass and isinstance(s.target, ast.Name):
            ann = st.aux.get("ann", ())
            st = st.with_aux("ann", ann + ((fr.addr, s.target.id, ast.unparse(s.annotation)),))
        if s.value is None:
            yield st, "next", None
            return
        for st1, v in self.ev(s.value, st, fr):
            if isinstance(v, ABN):
                yield st1, "abn", v
                continue
            for st2, a in self.assign(s.target, v, st1, fr):
                if isinstance(a, ABN):
                    yield st2, "abn", a
                else:
                    yield st2, "next", None

    def s_AugAssign(self, s, st, fr):
        t = s.target
        load = ast.copy_location({ast.Name: lambda: ast.Name(t.id, ast.Load()),
                                  ast.Attribute: lambda: ast.Attribute(t.value, t.attr, ast.Load()),
                                  ast.Subscript: lambda: ast.Subscript(t.value, t.slice, ast.Load())}[type(t)](), t)
        for st1, vals in self.seq([load, s.value], st, fr):
            if isinstance(vals, ABN):
                yield st1, "abn", vals
                continue
            a, b = vals
            for st2, r in self.inplace(st1, type(s.op).__name__, a, b):
                if isinstance(r, ABN):
                    yield st2, "abn", r
                    continue
                for st3, x in self.assign(t, r, st2, fr):
                    if isinstance(x, ABN):
                        yield st3, "abn", x
                    else:
                        yield st3, "next", None

    def inplace(self, st, op, a, b):
        if isinstance(a, Ref):
            c = st.get(a.addr)
            if isinstance(c, ListC) and op == "Add":
                for st2, items in self.to_items(st, b):
                    if isinstance(items, ABN):
                        yield st2, items
                    elif items is None:
                        yield self.top(st2, "list += unknown")
                    else:
                        yield st2.put(a.addr, ListC(st2.get(a.addr).items + tuple(items))), a
                return
            if isinstance(c, Inst) and c.cls.qual == "bytearray" and op == "Add":
                for st2, r in self.models.bytearray_add(self, st, a, b):
                    yield st2, r if isinstance(r, ABN) else a
                return
            if isinstance(c, Inst) and c.cls.qual == "collections.deque" and op == "Add":
                for st2, r in self.call(st, self.models.deque_method(self, a, "extend"), (b,), {}):
                    yield st2, r if isinstance(r, ABN) else a
                return
            if isinstance(c, SetC) and op == "BitOr":
                for st2, items in self.to_items(st, b):
                    if isinstance(items, ABN):
                        yield st2, items
                    elif items is None:
                        yield self.top(st2, "set |= unknown")
                    else:
                        yield st2.put(a.addr, SetC(tuple(dict.fromkeys(st2.get(a.addr).items + tuple(items))))), a
                return
            if isinstance(c, DictC) and op == "BitOr" and isinstance(b, Ref) and isinstance(st.get(b.addr), DictC):
                for k, v in st.get(b.addr).items:
                    for st, r in self.dict_set(st, a, k, v):
                        pass
                yield st, a
                return
        yield from self.binop(st, op, a, b)

    def assign(self, t, v, st, fr):
        """Yields (state, None | ABN)."""
        if isinstance(t, ast.Name):
            yield self.store_name(st, fr, t.id, v), None
        elif isinstance(t, ast.Attribute):
            for st1, o in self.ev(t.value, st, fr):
                if isinstance(o, ABN):
                    yield st1, o
                    continue
                yield from self.setattr_(st1, o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            for st1, vals in self.seq([t.value, t.slice], st, fr):
                if isinstance(vals, ABN):
                    yield st1, vals
                    continue
                yield from self.setitem(st1, vals[0], vals[1], v)
        elif isinstance(t, ast.Starred):
            yield from self.assign(t.value, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for st1, items in self.to_items(st, v):
                if isinstance(items, ABN):
                    yield st1, items
                    continue
                if items is None:
                    st1, x = self.top(st1, "unpacking unknown")
                    n = len(t.elts)
                    items = [x] * n
                star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
                n = len(t.elts)
                if star:
                    i = star[0]
                    if len(items) < n - 1:
                        yield self.raise_(st1, "ValueError", "not enough values to unpack")
                        continue
                    after = n - 1 - i
                    mid = items[i: len(items) - after]
                    st1, r = st1.new(ListC(mid))
                    items = list(items[:i]) + [r] + list(items[len(items) - after:])
                elif len(items) != n:
                    yield self.raise_(st1, "ValueError", "wrong number of values to unpack")
                    continue
                outs = [(st1, None)]
                for e, x in zip(t.elts, items):
                    nxt = []
                    for st2, a in outs:
                        if isinstance(a, ABN):
                            nxt.append((st2, a))
                        else:
                            nxt.extend(self.assign(e, x, st2, fr))
                    outs = nxt
                yield from outs
        else:
            st1, _ = self.top(st, "assignment target")
            yield st1, None

    def s_Delete(self, s, st, fr):
        outs = [(st, None)]
        for t in s.targets:
            nxt = []
            for st1, a in outs:
                if isinstance(a, ABN):
                    nxt.append((st1, a))
                    continue
                if isinstance(t, ast.Name):
                    env = st1.get(fr.addr)
                    d = dict(env.vars)
                    d.pop(t.id, None)
                    nxt.append((st1.put(fr.addr, Env(d)), None))
                elif isinstance(t, ast.Subscript):
                    for st2, vals in self.seq([t.value, t.slice], st1, fr):
                        if isinstance(vals, ABN):
                            nxt.append((st2, vals))
                            continue
                        o, k = vals
                        if isinstance(o, Ref) and isinstance(st2.get(o.addr), DictC):
                            for st3, r in self.models.dict_pop(self, st2, o, (k,), {}):
                                nxt.append((st3, r if isinstance(r, ABN) else None))
                        elif isinstance(o, Ref) and isinstance(st2.get(o.addr), Inst) and st2.get(o.addr).cls.qual == "bytearray":
                            nxt.extend(self.models.bytearray_del(self, st2, o, k))
                        elif isinstance(o, Ref) and isinstance(st2.get(o.addr), ListC) and self.const_slice(k):
                            it = list(st2.get(o.addr).items)
                            del it[self.const_slice(k)]
                            nxt.append((st2.put(o.addr, ListC(it)), None))
                        elif isinstance(o, Ref) and isinstance(st2.get(o.addr), ListC) and isinstance(k, Const):
                            it = list(st2.get(o.addr).items)
                            try:
                                del it[k.v]
                                nxt.append((st2.put(o.addr, ListC(it)), None))
                            except IndexError:
                                nxt.append(self.raise_(st2, "IndexError"))
                        else:
                            st3, _ = self.top(st2, "del item")
                            nxt.append((st3, None))
                elif isinstance(t, ast.Attribute):
                    for st2, o in self.ev(t.value, st1, fr):
                        if isinstance(o, ABN):
                            nxt.append((st2, o))
                        elif isinstance(o, Ref) and isinstance(st2.get(o.addr), Inst):
                            nxt.append((st2.put(o.addr, st2.get(o.addr).delete(t.attr)), None))
                        else:
                            nxt.append((self.top(st2, "del attr")[0], None))
            outs = nxt
        for st1, a in outs:
            yield (st1, "abn", a) if isinstance(a, ABN) else (st1, "next", None)

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            cur = st.aux.get("exc", ())
            if cur:
                yield st, "abn", Exc(cur[0])
            else:
                st1, e = self.raise_(st, "RuntimeError", "No active exception to reraise")
                yield st1, "abn", e
            return
        def raised(st1, r):
            if s.cause is None:
                yield st1.event("raise", r, loc=self.loc(fr, s)), "abn", Exc(r)
                return
            for st2, c in self.ev(s.cause, st1, fr):
                if isinstance(c, ABN):
                    yield st2, "abn", c
                    continue
                if isinstance(c, Cls):
                    c = NONE
                x = st2.get(r.addr)
                if isinstance(x, Inst):
                    st2 = st2.put(r.addr, x.set("__suppress__", TRUE) if c == NONE else x.set("__suppress__", TRUE).set("__cause__", c))
                yield st2.event("raise", r, loc=self.loc(fr, s)), "abn", Exc(r)
        for st1, v in self.ev(s.exc, st, fr):
            if isinstance(v, ABN):
                yield st1, "abn", v
                continue
            if isinstance(v, Cls):
                for st2, r in self.call(st1, v, (), {}, fr, s):
                    if isinstance(r, ABN):
                        yield st2, "abn", r
                    else:
                        yield from raised(st2, r)
                continue
            if isinstance(v, Ref) and isinstance(st1.get(v.addr), Inst) and \
                    st1.get(v.addr).cls.is_sub(self.classes["BaseException"]):
                yield from raised(st1, v)
            else:
                st2, t = self.top(st1, "raise of unknown value")
                st3, e = self.raise_(st2, "Exception")
                yield st3, "abn", e

    def s_FunctionDef(self, s, st, fr):
        for st1, f in self.make_func(s, st, fr):
            if isinstance(f, ABN):
                yield st1, "abn", f
            else:
                yield self.store_name(st1, fr, s.name, f), "next", None

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, s, st, fr):
        a = s.args
        dn = list(a.defaults)
        kn = [d for d in a.kw_defaults if d is not None]
        closure = fr.closure if fr.isclass else ((fr.addr,) + fr.closure if fr.qual != "<module>" else ())
        name = getattr(s, "name", "<lambda>")
        qual = name if fr.qual == "<module>" else f"{fr.qual}.{name}"
        if fr.isclass:
            qual = f"{fr.qual}.{name}"
        for st1, vals in self.seq(dn + kn, st, fr):
            if isinstance(vals, ABN):
                yield st1, vals
                continue
            defaults = tuple(vals[:len(dn)])
            kd, i = {}, len(dn)
            for arg, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    kd[arg.arg] = vals[i]
                    i += 1
            f = Func(s, fr.module, closure, defaults, tuple(kd.items()), qual, None)
            outs = [(st1, f)]
            for d in reversed(getattr(s, "decorator_list", [])):
                nxt = []
                for st2, cur in outs:
                    if isinstance(cur, ABN):
                        nxt.append((st2, cur))
                        continue
                    for st3, dec in self.ev(d, st2, fr):
                        if isinstance(dec, ABN):
                            nxt.append((st3, dec))
                        else:
                            nxt.extend(self.decorate(st3, dec, cur, fr, d))
                outs = nxt
            yield from outs

    def decorate(self, st, dec, f, fr, node):
        if isinstance(dec, Ext):
            n = dec.name.split(".")[-1]
            if n in ("override", "overload", "final", "wraps", "no_type_check", "unique",
                     "runtime_checkable", "verify"):
                yield st, f
                return
        yield from self.call(st, dec, (f,), {}, fr, node)

    def s_ClassDef(self, s, st, fr):
        qual = s.name if fr.qual == "<module>" else f"{fr.qual}.{s.name}"
        for st1, bases in self.seq(s.bases, st, fr):
            if isinstance(bases, ABN):
                yield st1, "abn", bases
                continue
            infos, opaque = [], False
            for b in bases:
                if isinstance(b, Cls):
                    infos.append(b.info)
                elif isinstance(b, Ext):
                    infos.append(self.ext_class(b.name))
                    if not b.name.startswith("typing"):
                        opaque = True
                else:
                    opaque = True
            infos = [i for k, i in enumerate(infos) if i not in infos[:k]]
            if not infos:
                infos = [self.classes["object"]]
            info = ClassInfo(s.name, f"{fr.module.name}:{qual}", infos, module=fr.module, node=s)
            info.opaque = opaque or any(i.opaque for i in infos)
            info.compute_mro()
            info.is_enum = any(c.is_enum for c in info.mro)
            addr = ("clsbody", info.qual, id(info))
            st2 = st1.put(addr, Env({"__qualname__": Const(qual)}))
            cfr = Frame(qual, fr.module, addr, fr.closure if fr.isclass or fr.qual == "<module>" else (fr.addr,) + fr.closure,
                        cls=info, info=FInfo.of(s), isclass=True)
            n_ok = 0
            for st3, k, p in self.block(s.body, st2, cfr):
                if k != "next":
                    yield st3, k, p
                    continue
                n_ok += 1
                if n_ok > 1:
                    self.note("class body forks")
                    break
                env = st3.get(addr).vars
                for name, v in env.items():
                    if name == "__qualname__":
                        continue
                    info.order.append(name)
                    info.attrs[name] = self.own(v, info, qual)
                info.ann = [(n, a) for ad, n, a in st3.aux.get("ann", ()) if ad == addr]
                for b in infos:
                    b.subclasses.append(info)
                ab = set()
                for c in reversed(info.mro):
                    for name, v in c.attrs.items():
                        if self.is_abstract(v):
                            ab.add(name)
                        else:
                            ab.discard(name)
                info.abstract = frozenset(ab)
                outs = [(st3, Cls(info))]
                if info.is_enum:
                    outs = list(self.make_enum(st3, info, env))
                for st4, c in outs:
                    cur = [(st4, c)]
                    for kwd in s.keywords:
                        pass
                    for d in reversed(s.decorator_list):
                        nxt = []
                        for st5, cc in cur:
                            for st6, dec in self.ev(d, st5, fr):
                                if isinstance(dec, ABN):
                                    nxt.append((st6, dec))
                                else:
                                    nxt.extend(self.decorate_class(st6, dec, cc, fr, d))
                        cur = nxt
                    for st5, cc in cur:
                        if isinstance(cc, ABN):
                            yield st5, "abn", cc
                        else:
                            # custom descriptors: __set_name__
                            yield self.store_name(st5, fr, s.name, cc), "next", None

    def decorate_class(self, st, dec, c, fr, node):
        if isinstance(dec, Ext) or not isinstance(c, Cls):
            yield st, c
            return
        yield from self.call(st, dec, (c,), {}, fr, node)

    def own(self, v, info, qual):
        if isinstance(v, Func) and v.cls is None:
            return v.with_cls(info, v.qual)
        if isinstance(v, Wrap):
            return Wrap(v.kind, self.own(v.f, info, qual) if isinstance(v.f, V) else v.f,
                        self.own(v.g, info, qual) if isinstance(v.g, V) else v.g)
        return v

    def is_abstract(self, v):
        if isinstance(v, Func):
            return "abstract" in v.flags
        if isinstance(v, Wrap):
            return isinstance(v.f, V) and self.is_abstract(v.f)
        return False

    def ext_class(self, name):
        if name in self.classes:
            return self.classes[name]
        c = ClassInfo(name.split(".")[-1], name, [self.classes["object"]], ext=True)
        c.compute_mro()
        self.classes[name] = c
        return c

    def make_enum(self, st, info, env):
        auto_n = 0
        names = list(info.order)
        for name in names:
            v = info.attrs[name]
            if name.startswith("_") or isinstance(v, (Func, Wrap, Bound, Py)) or isinstance(v, Cls):
                continue
            if isinstance(v, Ref) and isinstance(st.get(v.addr), Inst) and st.get(v.addr).cls.lookup("__get__"):
                continue
            val = v
            if isinstance(v, Ext) and v.name == "enum.auto()":
                auto_n += 1
                if info.is_sub(self.classes["enum.StrEnum"]):
                    val = Const(name.lower())
                else:
                    val = Const(auto_n)
            elif isinstance(v, Const) and isinstance(v.v, int) and not isinstance(v.v, bool):
                auto_n = v.v
            payload = val if info.is_sub(self.classes["str"]) or info.is_sub(self.classes["int"]) else None
            existing = None
            for m in info.members.values():
                if st.get(m.addr).attrs["_value_"] == val:
                    existing = m
            if existing is not None:
                info.members[name] = existing
                info.attrs[name] = existing
                continue
            st, r = st.new(Inst(info, {"_value_": val, "_name_": Const(name)}, payload))
            ini = info.lookup("__init__")
            if ini and isinstance(ini[1], Func):
                args = val.items if isinstance(val, Tup) else (val,)
                outs = list(self.call(st, Bound(r, ini[1]), args, {}, None, None))
                ok = [o for o in outs if not isinstance(o[1], ABN)]
                if not ok:
                    yield outs[0]
                    return
                st = ok[0][0]
            info.members[name] = r
            info.attrs[name] = r
        yield st, Cls(info)

    # ------------------------------------------------------------------ loops
    loop_limit = 400

    def s_While(self, s, st, fr):
        work = [(st, frozenset())]
        while work:
            nxt = []
            for st1, seen in work:
                self.tick()
                sig = self.signature(st1)
                if sig in seen:
                    # the state repeats: this path can go round for ever
                    self.loops_converged += 1
                    yield st1.event("diverges", Const(fr.qual), loc=self.loc(fr, s)), "abn", Blocked("loop never ends")
                    continue
                if len(seen) > self.loop_limit:
                    raise Budget("loop budget")
                seen2 = seen | {sig}
                for st2, v in self.ev(s.test, st1, fr):
                    if isinstance(v, ABN):
                        yield st2, "abn", v
                        continue
                    for st3, t in self.truth(st2, v):
                        if isinstance(t, ABN):
                            yield st3, "abn", t
                        elif not t:
                            yield from self.block(s.orelse, st3, fr)
                        else:
                            for st4, k, p in self.block(s.body, st3, fr):
                                if k in ("next", "cont"):
                                    nxt.append((st4, seen2))
                                elif k == "brk":
                                    yield st4, "next", None
                                else:
                                    yield st4, k, p
            work = nxt
            if len(work) > self.max_paths:
                raise Budget("path budget")

    def signature(self, st):
        """Canonical form of everything the rest of the analysis can observe, except the trace."""
        ren, out = {}, []
        aren, todo, sub = {}, list(st.stack), []

        def term(v):
            if isinstance(v, Term):
                if v.op == "atom":
                    if v not in ren:
                        ren[v] = len(ren)
                    return ("a", ren[v], v.typ)
                return (v.op, tuple(term(x) for x in v.args), v.typ)
            if isinstance(v, Str):
                return ("S", tuple(term(p) for p in v.parts), v.kind)
            if isinstance(v, (Tup,)):
                return ("T", tuple(term(p) for p in v.items))
            if isinstance(v, Ref):
                return addr(v.addr)
            if isinstance(v, Bound):
                return ("B", term(v.self_), term(v.func))
            if isinstance(v, Coro):
                return ("C", term(v.fn), tuple(term(x) for x in v.args), tuple((k, term(x)) for k, x in v.kw))
            if isinstance(v, tuple):
                return tuple(term(x) for x in v)
            return v

        def addr(a):
            if a not in st.heap:
                return ("base", a)
            if a not in aren:
                aren[a] = len(aren)
                todo.append(a)
            return ("h", aren[a])
        for a in list(st.stack):
            addr(a)
        todo = list(st.stack)
        mod = [a for a in st.heap if a in State.base]
        todo.extend(sorted(mod, key=repr))
        done = set()
        while todo:
            a = todo.pop(0)
            if a in done:
                continue
            done.add(a)
            if a not in st.heap:
                continue
            c = st.heap[a]
            ak = ("base", a) if a in State.base else ("h", aren.setdefault(a, len(aren)))
            if isinstance(c, Env):
                out.append((ak, "E", tuple((k, term(v)) for k, v in c.vars.items())))
            elif isinstance(c, Inst):
                out.append((ak, "I", c.cls.qual, tuple((k, term(v)) for k, v in sorted(c.attrs.items())),
                            term(c.payload) if isinstance(c.payload, V) else c.payload))
            elif isinstance(c, ListC):
                out.append((ak, "L", tuple(term(v) for v in c.items)))
            elif isinstance(c, DictC):
                out.append((ak, "D", tuple((term(k), term(v)) for k, v in c.items)))
            elif isinstance(c, SetC):
                out.append((ak, "Z", tuple(term(v) for v in c.items)))
        facts = []
        for (k, t), val in st.facts.items():
            if isinstance(t, V) and all(x in ren for x in atoms_of(t)):
                facts.append((k, term(t), val))
        return hash((tuple(map(repr, out)), tuple(sorted(map(repr, facts))), repr(st.timeouts), bool(st.taint),
                     repr(sorted((k, v) for k, v in st.aux.items() if isinstance(k, str) and k != "memo"))))

    def s_For(self, s, st, fr):
        for st1, it in self.ev(s.iter, st, fr):
            if isinstance(it, ABN):
                yield st1, "abn", it
                continue

            def body(st2, x):
                for st3, a in self.assign(s.target, x, st2, fr):
                    if isinstance(a, ABN):
                        yield st3, "abn", a
                    else:
                        yield from self.block(s.body, st3, fr)
            for st2, k, p in self.iterate(st1, it, body, fr, s):
                if k == "next":
                    yield from self.block(s.orelse, st2, fr)
                elif k == "brk":
                    yield st2, "next", None
                else:
                    yield st2, k, p

    s_AsyncFor = s_For

    def iterate(self, st, it, body, fr, node=None):
        """CPS iteration.  body(st, elem) yields (st, kind, payload).

        Yields (st, 'next'|'brk'|'ret'|'abn', payload); 'next' = exhausted."""
        if isinstance(it, GenExp):
            yield from self.iter_values(st, it, body, fr)
            return
        if isinstance(it, Coro) and it.kind in ("gen", "agen"):
            tag = object()

            def hook(st2, v):
                for st3, k, p in body(st2, v):
                    if k in ("next", "cont"):
                        yield st3, NONE
                    else:
                        yield st3, Unwind(tag, k, p)
            for st2, r in self.run_coro(st, it, hook=hook):
                if isinstance(r, Unwind) and r.tag is tag:
                    yield st2, r.kind, r.payload
                elif isinstance(r, ABN):
                    yield st2, "abn", r
                else:
                    yield st2, "next", None
            return
        if isinstance(it, (Term, Str)) and is_strlike(it):
            yield from self.iter_chars(st, it, body)
            return
        for st1, items in self.to_items(st, it):
            if isinstance(items, ABN):
                yield st1, "abn", items
                continue
            if items is None:
                # unknown iterable: one pass with an unknown element, everything tainted
                st2, x = self.top(st1, f"iteration over {it!r}")
                yield st2, "next", None
                for st3, k, p in body(st2, x):
                    yield (st3, "next", None) if k in ("next", "cont") else (st3, k, p)
                continue
            frontier = [st1]
            for x in items:
                nxt = []
                for st2 in frontier:
                    for st3, k, p in body(st2, x):
                        if k in ("next", "cont"):
                            nxt.append(st3)
                        else:
                            yield st3, k, p
                frontier = nxt
                if len(frontier) > self.max_paths:
                    raise Budget("path budget")
            for st2 in frontier:
                yield st2, "next", None

    def iter_chars(self, st, v, body):
        """Iteration over the characters of an opaque string.

        The body is analysed once per character class.  When the pass leaves the state unchanged
        for the classes C_ok, exhausting the string means it lies in C_ok*, and leaving at class x
        means it lies in C_ok* x Sigma*."""
        ok, exits = set(), []
        changed = set()
        hopeless = False
        for i in range(L.NSYM):
            outs = list(body(st, Const(L.text_of((i,)))))
            norm = [o for o in outs if o[1] in ("next", "cont")]
            rest = [o for o in outs if o[1] not in ("next", "cont")]
            if norm and not rest and len(norm) == 1 and self.char_same(st, norm[0][0], changed):
                ok.add(i)
            elif not norm:
                exits.append(i)
            else:
                hopeless = True
                break
        if hopeless:
            st2, x = self.top(st, f"stateful iteration over {v!r}")
            yield st2, "next", None
            for st3, k, p in body(st2, x):
                yield (st3, "next", None) if k in ("next", "cont") else (st3, k, p)
            return
        good = L.syms(frozenset(ok)).star() if ok else L.EPS
        for st2, b in S.pred(st, v, good):
            if b:
                # the loop variable holds some character of the string afterwards
                for addr, name in changed:
                    if st2.has(addr):
                        st2 = self.setvar(st2, addr, name, Top("loop variable"))
                yield st2, "next", None
        for i in exits:
            lg = good + L.syms(frozenset({i})) + L.ANY
            for st2, b in S.pred(st, v, lg):
                if b:
                    for st3, k, p in body(st2, Const(L.text_of((i,)))):
                        if k not in ("next", "cont"):
                            yield st3, k, p

    def char_same(self, st, st2, changed):
        """The pass changed nothing but variables that hold a single character."""
        if st2.taint != st.taint or st2.trace is not st.trace or st2.facts != st.facts:
            return False
        for a, c in st.heap.items():
            d = st2.heap.get(a)
            if d is c:
                continue
            if isinstance(c, Env) and isinstance(d, Env):
                for k in set(c.vars) | set(d.vars):
                    x, y = c.vars.get(k), d.vars.get(k)
                    if x == y:
                        continue
                    if isinstance(y, Const) and isinstance(y.v, str) and len(y.v) == 1:
                        changed.add((a, k))
                    else:
                        return False
            else:
                return False
        for a in st2.heap:
            if a not in st.heap and a in State.base:
                return False
        return True

    def iter_genexp(self, st, g, body):
        node = g.node
        st, env = st.new(Env({}))
        fr0 = g.fr
        fr = Frame(fr0.qual, fr0.module, env.addr,
                   ((fr0.addr,) if not fr0.isclass and fr0.qual != "<module>" else ()) + fr0.closure,
                   cls=fr0.cls, hook=fr0.hook, info=FInfo.of(node), first=fr0.first, depth=fr0.depth)
        yield from self.comp_loop(node, 0, g.src, st, fr, body)

    def comp_loop(self, node, i, src, st, fr, body):
        gens = node.generators

        def step(st2, x):
            for st3, a in self.assign(gens[i].target, x, st2, fr):
                if isinstance(a, ABN):
                    yield st3, "abn", a
                    continue
                conds = [(st3, True)]
                for c in gens[i].ifs:
                    nxt = []
                    for st4, okk in conds:
                        if okk is not True:
                            nxt.append((st4, okk))
                            continue
                        for st5, v in self.ev(c, st4, fr):
                            if isinstance(v, ABN):
                                nxt.append((st5, v))
                                continue
                            nxt.extend(self.truth(st5, v))
                    conds = nxt
                for st4, okk in conds:
                    if isinstance(okk, ABN):
                        yield st4, "abn", okk
                    elif not okk:
                        yield st4, "next", None
                    elif i + 1 < len(gens):
                        for st5, it in self.ev(gens[i + 1].iter, st4, fr):
                            if isinstance(it, ABN):
                                yield st5, "abn", it
                                continue
                            for st6, k, p in self.comp_loop(node, i + 1, it, st5, fr, body):
                                yield st6, k, p
                    else:
                        yield from body(st4, fr)
        yield from self.iterate(st, src, step, fr, node)

    def s_Try(self, s, st, fr):
        def after(st1, k, p):
            if not s.finalbody:
                yield st1, k, p
                return
            if k == "abn" and isinstance(p, Blocked):
                yield st1, k, p
                return
            for st2, k2, p2 in self.block(s.finalbody, st1, fr):
                if k2 == "next":
                    yield st2, k, p
                else:
                    yield st2, k2, p2
        for st1, k, p in self.block(s.body, st, fr):
            if k == "abn" and isinstance(p, Exc):
                for o in self.handle(s, st1, p, fr):
                    yield from after(*o)
            elif k == "next" and s.orelse:
                for o in self.block(s.orelse, st1, fr):
                    yield from after(*o)
            else:
                yield from after(st1, k, p)

    def handle(self, s, st, e, fr):
        pend = [st]
        for h in s.handlers:
            nxt = []
            for st1 in pend:
                if h.type is None:
                    matches = [(st1, True)]
                else:
                    matches = []
                    for st2, tv in self.ev(h.type, st1, fr):
                        if isinstance(tv, ABN):
                            yield st2, "abn", tv
                            continue
                        matches.extend(self.exc_match(st2, e, tv))
                for st2, m in matches:
                    if not m:
                        nxt.append(st2)
                        continue
                    old = st2.aux.get("exc", ())
                    st3 = st2.with_aux("exc", (e.value,) + old)
                    if h.name:
                        st3 = self.store_name(st3, fr, h.name, e.value)
                    for st4, k, p in self.block(h.body, st3, fr):
                        if k == "abn" and isinstance(p, Exc):
                            st4 = self.chain(st4, p.value, e.value)
                        yield st4.with_aux("exc", old), k, p
            pend = nxt
        for st1 in pend:
            yield st1, "abn", e

    def chain(self, st, new, old):
        """The exception raised while another one is handled keeps it as its context."""
        if new != old and isinstance(new, Ref) and isinstance(old, Ref):
            c = st.get(new.addr)
            if isinstance(c, Inst) and "__context__" not in c.attrs and "__suppress__" not in c.attrs:
                # never a cycle: the chain of the old exception must not contain the new one
                x, n = old, 0
                while isinstance(x, Ref) and n < 20:
                    if x == new:
                        return st
                    cc = st.get(x.addr)
                    x, n = (cc.attrs.get("__context__") if isinstance(cc, Inst) else None), n + 1
                return st.put(new.addr, c.set("__context__", old))
        return st

    def exc_match(self, st, e, tv):
        cls = self.exc_class(st, e)
        targets = []
        if isinstance(tv, Tup):
            for x in tv.items:
                targets.extend(x.items if isinstance(x, Tup) else [x])
        else:
            targets = [tv]
        unknown = False
        for t in targets:
            if isinstance(t, Cls):
                if cls is not None and cls.is_sub(t.info):
                    return [(st, True)]
            elif isinstance(t, Ext):
                if cls is not None and cls.qual == t.name:
                    return [(st, True)]
            else:
                unknown = True
        if unknown or cls is None:
            st = st.tainted("unknown exception type")
            return [(st, True), (st, False)]
        return [(st, False)]

    s_TryStar = s_Try

    def s_With(self, s, st, fr, idx=0):
        if idx >= len(s.items):
            yield from self.block(s.body, st, fr)
            return
        item = s.items[idx]
        is_async = isinstance(s, ast.AsyncWith)
        for st1, cm in self.ev(item.context_expr, st, fr):
            if isinstance(cm, ABN):
                yield st1, "abn", cm
                continue

            def inner(st2, val):
                """Runs the rest of the with statement; yields (st, kind, payload)."""
                if item.optional_vars is not None:
                    for st3, a in self.assign(item.optional_vars, val, st2, fr):
                        if isinstance(a, ABN):
                            yield st3, "abn", a
                        else:
                            yield from self.s_With(s, st3, fr, idx + 1)
                else:
                    yield from self.s_With(s, st2, fr, idx + 1)
            yield from self.with_cm(st1, cm, inner, fr, s, is_async)

    s_AsyncWith = s_With

    def with_cm(self, st, cm, inner, fr, node, is_async):
        if isinstance(cm, Coro) and cm.kind in ("ctx", "actx"):
            tag = object()

            def hook(st2, v):
                for st3, k, p in inner(st2, v):
                    if k == "next":
                        yield st3, NONE
                    elif k == "abn" and isinstance(p, Exc):
                        yield st3, p
                    else:
                        yield st3, Unwind(tag, k, p)
            for st2, r in self.run_coro(st, cm, hook=hook):
                if isinstance(r, Unwind) and r.tag is tag:
                    yield st2, r.kind, r.payload
                elif isinstance(r, ABN):
                    yield st2, "abn", r
                else:
                    yield st2, "next", None
            return
        if isinstance(cm, Ref) and isinstance(st.get(cm.addr), Inst):
            c = st.get(cm.addr)
            special = self.models.WITH.get(c.cls.qual)
            if special:
                yield from special(self, st, cm, inner, self.loc(fr, node))
                return
            en, ex = ("__aenter__", "__aexit__") if is_async else ("__enter__", "__exit__")
            if c.cls.lookup(en) and c.cls.lookup(ex):
                for st1, m in self.getattr_(st, cm, en):
                    for st2, v in self.call(st1, m, (), {}, fr, node):
                        if is_async and not isinstance(v, ABN):
                            outs = list(self.await_(st2, v, fr, node))
                        else:
                            outs = [(st2, v)]
                        for st3, v3 in outs:
                            if isinstance(v3, ABN):
                                yield st3, "abn", v3
                                continue
                            for st4, k, p in inner(st3, v3):
                                if k == "abn" and isinstance(p, Blocked):
                                    yield st4, k, p
                                    continue
                                if k == "abn" and isinstance(p, Exc):
                                    cls = self.exc_class(st4, p)
                                    a = (Cls(cls) if cls else Top(), p.value, NONE)
                                else:
                                    a = (NONE, NONE, NONE)
                                for st5, m2 in self.getattr_(st4, cm, ex):
                                    for st6, r in self.call(st5, m2, a, {}, fr, node):
                                        if is_async and not isinstance(r, ABN):
                                            outs2 = list(self.await_(st6, r, fr, node))
                                        else:
                                            outs2 = [(st6, r)]
                                        for st7, r7 in outs2:
                                            if isinstance(r7, ABN):
                                                yield st7, "abn", r7
                                            elif k == "abn" and isinstance(p, Exc):
                                                for st8, t in self.truth(st7, r7):
                                                    yield (st8, "next", None) if t is True else (st8, k, p)
                                            else:
                                                yield st7, k, p
                return
        st2, x = self.top(st, f"context manager {cm!r} at {fr.file}:{node.lineno}")
        yield from inner(st2, x)

    # ------------------------------------------------------------------ match
    def s_Match(self, s, st, fr):
        for st1, subj in self.ev(s.subject, st, fr):
            if isinstance(subj, ABN):
                yield st1, "abn", subj
                continue
            pend = [st1]
            for case in s.cases:
                nxt = []
                for st2 in pend:
                    for st3, m in self.match(case.pattern, subj, st2, fr):
                        if isinstance(m, ABN):
                            yield st3, "abn", m
                            continue
                        if not m:
                            nxt.append(st3)
                            continue
                        if case.guard is not None:
                            for st4, g in self.ev(case.guard, st3, fr):
                                if isinstance(g, ABN):
                                    yield st4, "abn", g
                                    continue
                                for st5, t in self.truth(st4, g):
                                    if isinstance(t, ABN):
                                        yield st5, "abn", t
                                    elif t:
                                        yield from self.block(case.body, st5, fr)
                                    else:
                                        nxt.append(st5)
                        else:
                            yield from self.block(case.body, st3, fr)
                pend = nxt
            for st2 in pend:
                yield st2, "next", None

    def match(self, p, v, st, fr):
        """Yields (st, bool | ABN)."""
        if isinstance(p, ast.MatchValue):
            for st1, c in self.ev(p.value, st, fr):
                if isinstance(c, ABN):
                    yield st1, c
                    continue
                for st2, r in self.eq(st1, v, c):
                    if isinstance(r, ABN):
                        yield st2, r
                    else:
                        yield from self.truth(st2, r)
        elif isinstance(p, ast.MatchSingleton):
            yield st, v == Const(p.value)
        elif isinstance(p, ast.MatchAs):
            if p.pattern is None:
                outs = [(st, True)]
            else:
                outs = list(self.match(p.pattern, v, st, fr))
            for st1, m in outs:
                if m is True and p.name:
                    st1 = self.store_name(st1, fr, p.name, v)
                yield st1, m
        elif isinstance(p, ast.MatchOr):
            pend = [st]
            for q in p.patterns:
                nxt = []
                for st1 in pend:
                    for st2, m in self.match(q, v, st1, fr):
                        if m is False:
                            nxt.append(st2)
                        else:
                            yield st2, m
                pend = nxt
            for st1 in pend:
                yield st1, False
        elif isinstance(p, ast.MatchSequence):
            if is_strlike(v):
                yield st, False
                return
            items = self.items_of(st, v)
            if items is None:
                st1, _ = self.top(st, "match sequence")
                yield st1, True
                yield st1, False
                return
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if (star and len(items) < n - 1) or (not star and len(items) != n):
                yield st, False
                return
            if star:
                i = star[0]
                after = n - 1 - i
                st, r = st.new(ListC(items[i:len(items) - after]))
                items = list(items[:i]) + [r] + list(items[len(items) - after:])
            outs = [(st, True)]
            for q, x in zip(p.patterns, items):
                nxt = []
                for st1, m in outs:
                    if m is not True:
                        nxt.append((st1, m))
                    elif isinstance(q, ast.MatchStar):
                        nxt.append((self.store_name(st1, fr, q.name, x) if q.name else st1, True))
                    else:
                        nxt.extend(self.match(q, x, st1, fr))
                outs = nxt
            yield from outs
        elif isinstance(p, ast.MatchClass):
            for st1, c in self.ev(p.cls, st, fr):
                if isinstance(c, ABN):
                    yield st1, c
                    continue
                for st2, b in self.isinstance_(st1, v, c):
                    if b is not True:
                        yield st2, b
                        continue
                    outs = [(st2, True)]
                    if p.patterns and len(p.patterns) == 1 and isinstance(c, Cls) and c.info.ext:
                        outs = list(self.match(p.patterns[0], v, st2, fr))
                    elif p.patterns:
                        st3, _ = self.top(st2, "positional class pattern")
                        outs = [(st3, True), (st3, False)]
                    for name, q in zip(p.kwd_attrs, p.kwd_patterns):
                        nxt = []
                        for st3, m in outs:
                            if m is not True:
                                nxt.append((st3, m))
                                continue
                            for st4, x in self.getattr_(st3, v, name):
                                if isinstance(x, Exc):
                                    nxt.append((st4, False))
                                elif isinstance(x, ABN):
                                    nxt.append((st4, x))
                                else:
                                    nxt.extend(self.match(q, x, st4, fr))
                        outs = nxt
                    yield from outs
        else:
            st1, _ = self.top(st, "match pattern")
            yield st1, True
            yield st1, False

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st, fr):
        self.tick()
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            yield self.top(st, f"expression {type(n).__name__} at {fr.file}:{n.lineno}")
            return
        yield from m(n, st, fr)

    def seq(self, nodes, st, fr):
        """Evaluates expressions left to right: yields (st, [values]) or (st, ABN)."""
        outs = [(st, [])]
        for n in nodes:
            nxt = []
            for st1, acc in outs:
                if isinstance(acc, ABN):
                    nxt.append((st1, acc))
                    continue
                if isinstance(n, ast.Starred):
                    for st2, v in self.ev(n.value, st1, fr):
                        if isinstance(v, ABN):
                            nxt.append((st2, v))
                            continue
                        for st3, items in self.to_items(st2, v):
                            if isinstance(items, ABN):
                                nxt.append((st3, items))
                            elif items is None:
                                st4, x = self.top(st3, "star-argument")
                                nxt.append((st4, acc + [x]))
                            else:
                                nxt.append((st3, acc + list(items)))
                else:
                    for st2, v in self.ev(n, st1, fr):
                        nxt.append((st2, v if isinstance(v, ABN) else acc + [v]))
            outs = nxt
        return outs

    def e_Constant(self, n, st, fr):
        yield st, Const(n.value)

    def e_Name(self, n, st, fr):
        v = self.lookup(st, fr, n.id)
        if v is None:
            yield self.raise_(st, "NameError", n.id)
        else:
            yield st, v

    def e_NamedExpr(self, n, st, fr):
        for st1, v in self.ev(n.value, st, fr):
            if isinstance(v, ABN):
                yield st1, v
            else:
                yield self.store_name(st1, fr, n.target.id, v), v

    def e_Attribute(self, n, st, fr):
        for st1, o in self.ev(n.value, st, fr):
            if isinstance(o, ABN):
                yield st1, o
            else:
                yield from self.getattr_(st1, o, n.attr, fr, n)

    def e_Tuple(self, n, st, fr):
        for st1, vals in self.seq(n.elts, st, fr):
            yield st1, vals if isinstance(vals, ABN) else Tup(vals)

    def e_List(self, n, st, fr):
        for st1, vals in self.seq(n.elts, st, fr):
            if isinstance(vals, ABN):
                yield st1, vals
            else:
                yield st1.new(ListC(vals))

    def e_Set(self, n, st, fr):
        for st1, vals in self.seq(n.elts, st, fr):
            if isinstance(vals, ABN):
                yield st1, vals
            else:
                yield st1.new(SetC(set_order(vals)))

    def e_Dict(self, n, st, fr):
        keys = [k for k in n.keys if k is not None]
        nodes = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        for st1, vals in self.seq(nodes, st, fr):
            if isinstance(vals, ABN):
                yield st1, vals
                continue
            st2, r = st1.new(DictC(()))
            i = 0
            ok = True
            fast = []
            pairs = []
            for k in n.keys:
                if k is not None:
                    pairs.append((vals[i], vals[i + 1]))
                    i += 2
                else:
                    x = vals[i]
                    i += 1
                    if isinstance(x, Ref) and isinstance(st2.get(x.addr), DictC):
                        pairs.extend(st2.get(x.addr).items)
                    else:
                        st2, _ = self.top(st2, "dict display **")
            outs = [(st2, None)]
            for k, v in pairs:
                nxt = []
                for st3, e in outs:
                    if isinstance(e, ABN):
                        nxt.append((st3, e))
                    else:
                        nxt.extend(self.dict_set(st3, r, k, v))
                outs = nxt
            for st3, e in outs:
                yield st3, e if isinstance(e, ABN) else r

    def e_JoinedStr(self, n, st, fr):
        outs = [(st, [])]
        for part in n.values:
            nxt = []
            for st1, acc in outs:
                if isinstance(acc, ABN):
                    nxt.append((st1, acc))
                    continue
                if isinstance(part, ast.Constant):
                    nxt.append((st1, acc + [Const(part.value)]))
                    continue
                for st2, v in self.ev(part.value, st1, fr):
                    if isinstance(v, ABN):
                        nxt.append((st2, v))
                        continue
                    spec = None
                    if part.format_spec is not None:
                        sp = list(self.ev(part.format_spec, st2, fr))
                        if len(sp) == 1 and isinstance(sp[0][1], Const):
                            st2, spec = sp[0][0], sp[0][1].v
                        else:
                            st2, _ = self.top(st2, "dynamic format spec")
                    if part.conversion == 114:
                        gen = self.to_repr(st2, v)
                    elif spec:
                        gen = self.format_(st2, v, spec)
                    else:
                        gen = self.to_str(st2, v)
                    for st3, s in gen:
                        nxt.append((st3, s if isinstance(s, ABN) else acc + [s]))
            outs = nxt
        for st1, acc in outs:
            yield st1, acc if isinstance(acc, ABN) else cat(acc)

    def e_BoolOp(self, n, st, fr):
        is_and = isinstance(n.op, ast.And)
        pend = [(st, None)]
        for i, x in enumerate(n.values):
            nxt = []
            for st1, _ in pend:
                for st2, v in self.ev(x, st1, fr):
                    if isinstance(v, ABN):
                        yield st2, v
                        continue
                    if i == len(n.values) - 1:
                        yield st2, v
                        continue
                    for st3, t in self.truth(st2, v):
                        if isinstance(t, ABN):
                            yield st3, t
                        elif t == is_and:
                            nxt.append((st3, None))
                        else:
                            yield st3, v
            pend = nxt

    def e_UnaryOp(self, n, st, fr):
        for st1, v in self.ev(n.operand, st, fr):
            if isinstance(v, ABN):
                yield st1, v
                continue
            if isinstance(n.op, ast.Not):
                if isinstance(v, Term) and v.typ == "bool":
                    if v.op == "not":
                        yield st1, Term("bool", (v.args[0],), "bool") if not (isinstance(v.args[0], Term) and v.args[0].typ == "bool") else v.args[0]
                    else:
                        yield st1, Term("not", (v,), "bool")
                    continue
                for st2, t in self.truth(st1, v):
                    yield st2, t if isinstance(t, ABN) else Const(not t)
                continue
            if isinstance(v, Const) and (isinstance(v.v, (int, float)) or type(v.v).__name__ == "timedelta"):
                yield st1, Const({ast.USub: lambda a: -a, ast.UAdd: lambda a: +a,
                                  ast.Invert: lambda a: ~a}[type(n.op)](v.v))
            elif isinstance(v, Bits) and isinstance(n.op, ast.Invert):
                yield st1, Bits([self.bnot(b) for b in v.bits], self.bnot(v.ext))
            elif isinstance(v, Term) and v.typ in ("int", "float", "timedelta") and isinstance(n.op, (ast.USub, ast.Invert)):
                if isinstance(n.op, ast.USub):
                    yield st1, Term("neg", (v,), v.typ)
                else:
                    yield st1, Term("invert", (v,), v.typ)
            elif isinstance(n.op, ast.UAdd) and isinstance(v, Term):
                yield st1, v
            else:
                yield self.top(st1, f"unary operator on {v!r}")

    @staticmethod
    def bnot(b):
        if b == 0:
            return 1
        if b == 1:
            return 0
        if b == "?":
            return b
        return ("~" if b[0] == "b" else "b",) + b[1:]

    def e_BinOp(self, n, st, fr):
        for st1, vals in self.seq([n.left, n.right], st, fr):
            if isinstance(vals, ABN):
                yield st1, vals
            else:
                yield from self.binop(st1, type(n.op).__name__, vals[0], vals[1])

    def binop(self, st, op, a, b):
        yield from self.models.binop(self, st, op, a, b)

    def e_IfExp(self, n, st, fr):
        for st1, v in self.ev(n.test, st, fr):
            if isinstance(v, ABN):
                yield st1, v
                continue
            for st2, t in self.truth(st1, v):
                if isinstance(t, ABN):
                    yield st2, t
                else:
                    yield from self.ev(n.body if t else n.orelse, st2, fr)

    def e_Lambda(self, n, st, fr):
        yield from self.make_func(n, st, fr)

    def e_Compare(self, n, st, fr):
        def go(st1, left, i):
            for st2, right in self.ev(n.comparators[i], st1, fr):
                if isinstance(right, ABN):
                    yield st2, right
                    continue
                for st3, r in self.compare(st2, n.ops[i], left, right):
                    if isinstance(r, ABN) or i == len(n.ops) - 1:
                        yield st3, r
                        continue
                    for st4, t in self.truth(st3, r):
                        if isinstance(t, ABN):
                            yield st4, t
                        elif t:
                            yield from go(st4, right, i + 1)
                        else:
                            yield st4, FALSE
        for st1, v in self.ev(n.left, st, fr):
            if isinstance(v, ABN):
                yield st1, v
            else:
                yield from go(st1, v, 0)

    def compare(self, st, op, a, b):
        k = type(op).__name__
        if k in ("Is", "IsNot"):
            r = self.identical(st, a, b)
            if r is None:
                st = st.tainted("identity of unknown values")
                yield st, TRUE
                yield st, FALSE
            else:
                yield st, Const(r == (k == "Is"))
        elif k == "Eq":
            yield from self.eq(st, a, b)
        elif k == "NotEq":
            yield from self.ne(st, a, b)
        elif k in ("In", "NotIn"):
            for st1, r in self.contains(st, b, a):
                if isinstance(r, ABN):
                    yield st1, r
                else:
                    yield st1, Const(bool(r) == (k == "In"))
        else:
            sym = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[k]
            yield from self.models.order(self, st, sym, a, b)

    def identical(self, st, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            if a is b:
                return True
            return None
        if isinstance(a, Const) and isinstance(b, Const):
            return a == b
        if isinstance(a, Term) and isinstance(b, Const) or isinstance(b, Term) and isinstance(a, Const):
            c = a if isinstance(a, Const) else b
            t = b if isinstance(a, Const) else a
            if c.v is None or t.typ != "bool":
                return False if c.v is None or isinstance(c.v, bool) else None
            return None
        return a == b

    def e_Await(self, n, st, fr):
        for st1, v in self.ev(n.value, st, fr):
            if isinstance(v, ABN):
                yield st1, v
            else:
                yield from self.await_(st1, v, fr, n)

    def await_(self, st, v, fr=None, node=None):
        if isinstance(v, Coro) and v.kind == "coro":
            yield from self.run_coro(st, v)
            return
        if isinstance(v, Ref) and isinstance(st.get(v.addr), Inst):
            f = self.models.AWAIT.get(st.get(v.addr).cls.qual)
            if f:
                yield from f(self, st, v)
                return
        if isinstance(v, Top):
            yield self.top(st, "await of unknown value")
            return
        yield self.raise_(st, "TypeError", "object can't be used in 'await' expression")

    def run_coro(self, st, c, hook=None):
        kw = dict(c.kw)
        if isinstance(c.fn, Py):
            yield from c.fn.fn(self, st, c.args, kw)
            return
        yield from self.run(st, c.fn, c.args, kw, hook)

    def e_Yield(self, n, st, fr):
        if n.value is None:
            outs = [(st, NONE)]
        else:
            outs = self.ev(n.value, st, fr)
        for st1, v in outs:
            if isinstance(v, ABN):
                yield st1, v
                continue
            if fr.hook is None:
                yield self.top(st1, "yield without consumer")
                continue
            yield from fr.hook(st1, v)

    def e_YieldFrom(self, n, st, fr):
        for st1, v in self.ev(n.value, st, fr):
            if isinstance(v, ABN):
                yield st1, v
                continue

            def body(st2, x):
                for st3, r in fr.hook(st2, x):
                    if isinstance(r, ABN):
                        yield st3, "abn", r
                    else:
                        yield st3, "next", None
            for st2, k, p in self.iterate(st1, v, body, fr, n):
                yield (st2, p) if k == "abn" else (st2, NONE)

    def e_ListComp(self, n, st, fr):
        for st1, src in self.ev(n.generators[0].iter, st, fr):
            if isinstance(src, ABN):
                yield st1, src
                continue
            st2, r = st1.new(ListC(()))

            def body(st3, cfr):
                for st4, v in self.ev(n.elt, st3, cfr):
                    if isinstance(v, ABN):
                        yield st4, "abn", v
                    else:
                        yield st4.put(r.addr, ListC(st4.get(r.addr).items + (v,))), "next", None
            for st3, k, p in self.iter_genexp(st2, GenExp(n, fr, src), body):
                if k == "abn":
                    yield st3, p
                else:
                    yield st3, r

    def e_SetComp(self, n, st, fr):
        for st1, r in self.e_ListComp(n, st, fr):
            if isinstance(r, ABN):
                yield st1, r
            else:
                yield st1.put(r.addr, SetC(set_order(st1.get(r.addr).items))), r

    def e_DictComp(self, n, st, fr):
        for st1, src in self.ev(n.generators[0].iter, st, fr):
            if isinstance(src, ABN):
                yield st1, src
                continue
            st2, r = st1.new(DictC(()))

            def body(st3, cfr):
                for st4, kv in self.seq([n.key, n.value], st3, cfr):
                    if isinstance(kv, ABN):
                        yield st4, "abn", kv
                        continue
                    for st5, e in self.dict_set(st4, r, kv[0], kv[1]):
                        yield (st5, "abn", e) if isinstance(e, ABN) else (st5, "next", None)
            for st3, k, p in self.iter_genexp(st2, GenExp(n, fr, src), body):
                yield (st3, p) if k == "abn" else (st3, r)

    def e_GeneratorExp(self, n, st, fr):
        for st1, src in self.ev(n.generators[0].iter, st, fr):
            yield st1, src if isinstance(src, ABN) else GenExp(n, fr, src)

    def iter_values(self, st, it, body, fr=None):
        """Like iterate but also for generator expressions: body(st, value)."""
        if isinstance(it, GenExp):
            n = it.node

            def b(st2, cfr):
                for st3, v in self.ev(n.elt, st2, cfr):
                    if isinstance(v, ABN):
                        yield st3, "abn", v
                    else:
                        yield from body(st3, v)
            yield from self.iter_genexp(st, it, b)
        else:
            yield from self.iterate(st, it, body, fr)

    def e_Slice(self, n, st, fr):
        nodes = [x if x is not None else ast.Constant(None) for x in (n.lower, n.upper, n.step)]
        for st1, vals in self.seq(nodes, st, fr):
            yield st1, vals if isinstance(vals, ABN) else Tup((Const("slice"),) + tuple(vals))

    def e_Subscript(self, n, st, fr):
        for st1, o in self.ev(n.value, st, fr):
            if isinstance(o, ABN):
                yield st1, o
                continue
            if isinstance(o, (Ext, Union)) or (isinstance(o, Cls) and not o.info.is_enum):
                yield st1, o      # generic alias
                continue
            if isinstance(n.slice, ast.Slice):
                for st2, sl in self.e_Slice(n.slice, st1, fr):
                    if isinstance(sl, ABN):
                        yield st2, sl
                    else:
                        yield from self.models.getslice(self, st2, o, *sl.items[1:])
                continue
            for st2, k in self.ev(n.slice, st1, fr):
                if isinstance(k, ABN):
                    yield st2, k
                else:
                    yield from self.getitem(st2, o, k)

    def e_Starred(self, n, st, fr):
        yield self.top(st, "starred expression")

    def e_Call(self, n, st, fr):
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args and fr.cls is not None:
            selfv = self.lookup(st, fr, fr.first) if fr.first else None
            if selfv is None:
                for a in fr.closure:
                    pass
            st1, r = st.new(Inst(self.classes["super"], {"cls": Cls(fr.cls), "obj": selfv if selfv is not None else Top()}))
            yield st1, r
            return
        for st1, f in self.ev(n.func, st, fr):
            if isinstance(f, ABN):
                yield st1, f
                continue
            for st2, args in self.seq(n.args, st1, fr):
                if isinstance(args, ABN):
                    yield st2, args
                    continue
                kwn = [k.value for k in n.keywords]
                for st3, kvals in self.seq(kwn, st2, fr):
                    if isinstance(kvals, ABN):
                        yield st3, kvals
                        continue
                    kw = {}
                    st4 = st3
                    for k, v in zip(n.keywords, kvals):
                        if k.arg is not None:
                            kw[k.arg] = v
                        elif isinstance(v, Ref) and isinstance(st4.get(v.addr), DictC) and \
                                all(isinstance(x, Const) for x, _ in st4.get(v.addr).items):
                            for x, y in st4.get(v.addr).items:
                                kw[x.v] = y
                        else:
                            st4, _ = self.top(st4, "** argument")
                    yield from self.call(st4, f, tuple(args), kw, fr, n)

    # ------------------------------------------------------------------ calls
    def call(self, st, f, args, kw, fr=None, node=None):
        self.tick()
        if isinstance(f, Func):
            if "memo" in f.flags or "memo-self" in f.flags:
                yield from self.call_memo(st, f, tuple(args), kw)
            else:
                yield from self.call_func(st, f, args, kw)
        elif isinstance(f, Bound):
            if isinstance(f.func, Py):
                yield from f.func.fn(self, st, (f.self_,) + tuple(args), kw)
            else:
                yield from self.call(st, f.func, (f.self_,) + tuple(args), kw, fr, node)
        elif isinstance(f, Py):
            self.cur_loc = self.loc(fr, node) if fr is not None and node is not None else None
            yield from f.fn(self, st, tuple(args), kw)
        elif isinstance(f, Cls):
            yield from self.instantiate(st, f.info, tuple(args), kw, fr, node)
        elif isinstance(f, Wrap) and f.kind == "staticmethod":
            yield from self.call(st, f.f, args, kw, fr, node)
        elif isinstance(f, Ext):
            yield from self.models.call_ext(self, st, f, args, kw, self.loc(fr, node) if fr and node else None)
        elif isinstance(f, Ref) and isinstance(st.get(f.addr), Inst):
            c = st.get(f.addr)
            if c.cls.lookup("__call__"):
                for st1, m in self.getattr_(st, f, "__call__"):
                    yield from self.call(st1, m, args, kw, fr, node)
            elif c.cls.qual in self.models.CALLABLE:
                yield from self.models.CALLABLE[c.cls.qual](self, st, f, args, kw, self.loc(fr, node) if fr and node else None)
            else:
                yield self.raise_(st, "TypeError", "not callable")
        elif isinstance(f, Top):
            yield self.top(st, "call of unknown value")
        elif isinstance(f, Const):
            yield self.raise_(st, "TypeError", "not callable")
        else:
            yield self.top(st, f"call of {f!r}")

    def call_memo(self, st, f, args, kw):
        """A function under functools.cache: the result of an earlier call with equal arguments, if there was one."""
        key = Tup(args + tuple(Tup((Const(k), v)) for k, v in sorted(kw.items())))
        table = st.aux.get("memo", {}).get(id(f.node), ())

        def compute(s):
            for s1, r in self.call_func(s, f, args, kw):
                if not isinstance(r, ABN):
                    t = dict(s1.aux.get("memo", {}))
                    t[id(f.node)] = tuple(t.get(id(f.node), ())) + ((key, r),)
                    s1 = s1.with_aux("memo", t)
                yield s1, r
        if "memo-self" in f.flags:
            for k, r in table:
                if k == key:
                    yield st, r
                    return
            yield from compute(st)
            return
        for s, h in self.hash_key(st, key):
            if isinstance(h, ABN):
                yield s, h
                continue
            if not table:
                yield from compute(s)
                continue
            outs = list(self.dict_find(s, list(table), key))
            for s1, i in outs:
                if isinstance(i, ABN):
                    yield s1, i
                elif i is None:
                    yield from compute(s1)
                else:
                    # where equality is an assumption of the path, the result belongs to the other, equal, arguments: a rule stated on the present ones cannot judge it
                    yield s1 if len(outs) == 1 or not isinstance(table[i][1], Ref) else s1.tainted("remembered result"), table[i][1]

    def call_func(self, st, f, args, kw):
        info = FInfo.of(f.node)
        is_async = isinstance(f.node, ast.AsyncFunctionDef)
        if "ctxmgr" in f.flags:
            yield st, Coro(f, args, kw, "actx" if is_async else "ctx")
        elif is_async:
            yield st, Coro(f, args, kw, "agen" if info.has_yield else "coro")
        elif info.has_yield:
            yield st, Coro(f, args, kw, "gen")
        else:
            yield from self.run(st, f, args, kw)

    def run(self, st, f, args, kw, hook=None):
        """Runs the body of a function: yields (st, V | ABN)."""
        key = self.stub_key(f)
        stub = self.stubs.get(key)
        if stub is not None:
            yield from stub(self, st, tuple(args), dict(kw))
            return
        self.covered.add(key)
        st1, env, err = self.bind(st, f, args, kw)
        if err is not None:
            yield st1, err
            return
        st1, r = st1.new(Env(env))
        node = f.node
        a = node.args
        first = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else (a.vararg.arg if a.vararg else None)
        if len(st.stack) > 70:
            yield self.top(st, "call depth")
            return
        fr = Frame(f.qual, f.module, r.addr, f.closure, cls=f.cls, hook=hook, info=FInfo.of(node), first=first,
                   depth=len(st.stack))
        old = st1.stack
        st1 = st1.copy()
        st1.stack = old + (r.addr,)

        def leave(s):
            s = s.copy()
            s.stack = old
            return s
        if hook is not None:
            h0 = hook

            def hook2(s, v, old_stack=st1.stack):
                for s2, r2 in h0(s, v):
                    yield s2, r2
            fr.hook = hook2
        if isinstance(node, ast.Lambda):
            for st2, v in self.ev(node.body, st1, fr):
                yield leave(st2), v
            return
        for st2, k, p in self.block(node.body, st1, fr):
            st2 = leave(st2)
            if k == "next":
                yield st2, NONE
            elif k in ("ret", "abn"):
                yield st2, p
            else:
                yield self.top(st2, "break outside loop")

    def stub_key(self, f):
        return f"{f.module.name}:{f.qual}"

    def bind(self, st, f, args, kw):
        a = f.node.args
        pos = a.posonlyargs + a.args
        env = {}
        args = list(args)
        kw = dict(kw)

        def err(msg):
            s, e = self.raise_(st, "TypeError", f"{f.qual}() {msg}")
            return s, None, e
        for i, p in enumerate(pos):
            if i < len(args):
                if p.arg in kw and p not in a.posonlyargs:
                    return err(f"got multiple values for argument '{p.arg}'")
                env[p.arg] = args[i]
            elif p.arg in kw and p not in a.posonlyargs:
                env[p.arg] = kw.pop(p.arg)
            else:
                j = i - (len(pos) - len(f.defaults))
                if j >= 0:
                    env[p.arg] = f.defaults[j]
                else:
                    return err(f"missing argument '{p.arg}'")
        extra = args[len(pos):]
        if a.vararg:
            env[a.vararg.arg] = Tup(extra)
        elif extra:
            return err("takes too many positional arguments")
        kd = dict(f.kwdefaults)
        for p in a.kwonlyargs:
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            elif p.arg in kd:
                env[p.arg] = kd[p.arg]
            else:
                return err(f"missing keyword argument '{p.arg}'")
        if a.kwarg:
            st, r = st.new(DictC(tuple((Const(k), v) for k, v in kw.items())))
            env[a.kwarg.arg] = r
        elif kw:
            return err(f"got an unexpected keyword argument '{next(iter(kw))}'")
        return st, env, None

    # ------------------------------------------------------------------ classes and instances
    def class_lookup(self, st, info, name):
        for c in info.mro:
            ov = st.heap.get(("cattr", c.qual))
            if ov is not None and name in ov.vars:
                return c, ov.vars[name]
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def instantiate(self, st, info, args, kw, fr=None, node=None):
        if info.is_enum and not info.ext:
            yield from self.enum_lookup(st, info, args)
            return
        m = self.models.CONSTRUCT.get(info.qual)
        if m is not None:
            yield from m(self, st, args, kw, self.loc(fr, node) if fr and node else None)
            return
        if info.abstract:
            yield self.raise_(st, "TypeError", f"Can't instantiate abstract class {info.name}")
            return
        new = info.lookup("__new__")
        if new and isinstance(new[1], (Func, Wrap)) and not new[0].ext:
            f = new[1].f if isinstance(new[1], Wrap) else new[1]
            outs = list(self.call(st, f, (Cls(info),) + tuple(args), kw, fr, node))
        else:
            payload = None
            attrs = {}
            if info.is_sub(self.classes["BaseException"]):
                attrs = {"args": Tup(args)}
            for b in ("str", "int", "float", "bytes"):
                if info.is_sub(self.classes[b]):
                    payload = args[0] if args else Const({"str": "", "int": 0, "float": 0.0, "bytes": b""}[b])
            base_cell = Inst(info, attrs, payload)
            if info.is_sub(self.classes["dict"]):
                base_cell = DictC(())
            outs = [st.new(base_cell)]
        for st1, r in outs:
            if isinstance(r, ABN):
                yield st1, r
                continue
            if not (isinstance(r, Ref) and isinstance(st1.get(r.addr), Inst) and st1.get(r.addr).cls.is_sub(info)):
                yield st1, r
                continue
            ini = self.class_lookup(st1, info, "__init__")
            if ini and isinstance(ini[1], (Func, Py)):
                for st2, x in self.call(st1, Bound(r, ini[1]), args, kw, fr, node):
                    yield st2, x if isinstance(x, ABN) else r
            elif info.dataclass:
                for st2, x in self.dataclass_init(st1, r, info, args, kw, fr, node):
                    yield st2, x if isinstance(x, ABN) else r
            else:
                if info.opaque:
                    st1 = st1.tainted("constructor of an external class")
                yield st1, r

    def dataclass_init(self, st, r, info, args, kw, fr, node):
        fields = []
        for c in reversed(info.mro):
            if c.dataclass:
                for n, a in c.ann:
                    if "ClassVar" in a:
                        continue
                    if n in [x for x, _ in fields]:
                        fields = [(x, (c if x == n else o)) for x, o in fields]
                    else:
                        fields.append((n, c))
        kw = dict(kw)
        cell = st.get(r.addr)
        vals = {}
        if len(args) > len(fields):
            yield self.raise_(st, "TypeError", "too many arguments")
            return
        pend = []
        for i, (n, c) in enumerate(fields):
            if i < len(args):
                vals[n] = args[i]
            elif n in kw:
                vals[n] = kw.pop(n)
            elif n in c.attrs:
                d = c.attrs[n]
                if isinstance(d, Tup) and d.items and d.items[0] == Const("field"):
                    if d.items[1] == Const("factory"):
                        pend.append((n, d.items[2]))
                        vals[n] = NONE
                    elif d.items[1] == Const("default"):
                        vals[n] = d.items[2]
                    else:
                        yield self.raise_(st, "TypeError", f"missing argument {n}")
                        return
                else:
                    vals[n] = d
            else:
                yield self.raise_(st, "TypeError", f"missing argument {n}")
                return
        if kw:
            yield self.raise_(st, "TypeError", f"unexpected argument {next(iter(kw))}")
            return
        outs = [st]
        for n, fac in pend:
            nxt = []
            for s in outs:
                for s2, v in self.call(s, fac, (), {}, fr, node):
                    if not isinstance(v, ABN):
                        vals[n] = v
                        nxt.append(s2)
            outs = nxt
        for s in outs:
            s = s.put(r.addr, Inst(cell.cls, {**cell.attrs, **vals}, cell.payload))
            post = info.lookup("__post_init__")
            if post:
                for s2, v in self.call(s, Bound(r, post[1]), (), {}, fr, node):
                    yield s2, v
            else:
                yield s, NONE

    def enum_lookup(self, st, info, args):
        if not args:
            yield self.raise_(st, "TypeError", "missing enum value")
            return
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.get(v.addr), Inst) and st.get(v.addr).cls is info:
            yield st, v
            return
        pend = [st]
        seen = set()
        for name, m in info.members.items():
            if m.addr in seen:
                continue
            seen.add(m.addr)
            nxt = []
            val = State.base.get(m.addr, st.heap.get(m.addr)).attrs["_value_"]
            for st1 in pend:
                for st2, r in self.eq(st1, v, val):
                    if isinstance(r, ABN):
                        yield st2, r
                        continue
                    for st3, t in self.truth(st2, r):
                        if t is True:
                            yield st3, m
                        else:
                            nxt.append(st3)
            pend = nxt
        miss = info.lookup("_missing_")
        for st1 in pend:
            if miss and not miss[0].ext:
                f = miss[1].f if isinstance(miss[1], Wrap) else miss[1]
                for st2, r in self.call(st1, f, (Cls(info), v), {}, None, None):
                    if isinstance(r, Const) and r.v is None:
                        yield self.raise_(st2, "ValueError", "not a valid enum value")
                    else:
                        yield st2, r
            else:
                yield self.raise_(st1, "ValueError", cat([Const("not a valid "), Const(info.name)]))

    def type_of(self, st, v):
        """ClassInfo of a value or None."""
        C = self.classes
        if isinstance(v, Const):
            t = type(v.v).__name__
            return C.get(t) or C.get(self.models.TYPES.get(t, "?"))
        if isinstance(v, Str):
            return C[v.kind]
        if isinstance(v, Bits):
            return C["int"]
        if isinstance(v, Tup):
            return C["tuple"]
        if isinstance(v, Term):
            return C.get(v.typ) or C.get(self.models.TYPES.get(v.typ, "?"))
        if isinstance(v, Ref):
            c = st.get(v.addr)
            if isinstance(c, Inst):
                return c.cls
            return {ListC: C["list"], DictC: C["dict"], SetC: C["set"]}.get(type(c))
        if isinstance(v, Cls):
            return C["type"]
        if isinstance(v, (Func, Py, Bound)):
            return C["function"]
        if isinstance(v, Coro):
            return C["coroutine"]
        if isinstance(v, Mod):
            return C["module"]
        return None

    ABC_BUILTINS = {"Sequence": "str bytes bytearray list tuple range deque", "MutableSequence": "bytearray list deque", "Mapping": "dict", "MutableMapping": "dict",
                    "Set": "set frozenset", "MutableSet": "set", "ByteString": "bytes bytearray"}
    ABC_METHOD = {"Iterable": "__iter__", "Sized": "__len__", "Container": "__contains__"}
    CONTAINERS = "str bytes bytearray list tuple range deque dict set frozenset"
    SCALARS = "int float bool NoneType function coroutine module type"

    def abc_member(self, t, name):
        """Is the class an instance of the abstract base class?  True / False / None (not known)."""
        names = {b.name for b in t.mro}
        if name in self.ABC_BUILTINS:
            if names & set(self.ABC_BUILTINS[name].split()):
                return True
            if names & set((self.CONTAINERS + " " + self.SCALARS).split()) or not t.ext:
                return None if t.opaque else False
            return False if any(b.qual.startswith(("datetime.", "ipaddress.")) for b in t.mro) else None
        if name in self.ABC_METHOD or name == "Collection":
            if names & set(self.CONTAINERS.split()):
                return True
            if names & set(self.SCALARS.split()):
                return False
            if not t.ext and not t.opaque:
                need = ("__iter__", "__len__", "__contains__") if name == "Collection" else (self.ABC_METHOD[name],)
                return all(t.lookup(m) for m in need)
        return None

    def isinstance_(self, st, v, c):
        """Yields (st, bool | ABN)."""
        targets = []

        def flat(x):
            if isinstance(x, (Tup, Union)):
                for y in x.items:
                    flat(y)
            else:
                targets.append(x)
        flat(c)
        t = self.type_of(st, v)
        if t is None:
            st = st.tainted(f"isinstance of {v!r}")
            yield st, True
            yield st, False
            return
        unknown = False
        for x in targets:
            if isinstance(x, Cls):
                if t.is_sub(x.info):
                    yield st, True
                    return
                if x.info.name == "Callable":
                    unknown = True
            elif isinstance(x, Const) and x.v is None:
                if isinstance(v, Const) and v.v is None:
                    yield st, True
                    return
            elif isinstance(x, Ext):
                if any(b.qual == x.name for b in t.mro):
                    yield st, True
                    return
                if x.name.startswith(("collections.abc", "typing")):
                    r = self.abc_member(t, x.name.rpartition(".")[2])
                    if r:
                        yield st, True
                        return
                    unknown = unknown or r is None
                elif not t.ext:
                    unknown = unknown or t.opaque
            elif isinstance(x, (Const, Str)) or isinstance(x, Ref) and isinstance(st.get(x.addr), Inst) and not st.get(x.addr).cls.ext and not st.get(x.addr).cls.opaque:
                if not unknown:
                    yield self.raise_(st, "TypeError", "isinstance() arg 2 must be a type")
                    return
            else:
                unknown = True
        if unknown:
            st = st.tainted("isinstance with unknown class")
            yield st, True
        yield st, False

    # ------------------------------------------------------------------ attributes
    def getattr_(self, st, o, name, fr=None, node=None):
        if isinstance(o, Ref):
            c = st.get(o.addr)
            if isinstance(c, Inst):
                yield from self.inst_attr(st, o, c, name, fr, node)
                return
            m = self.models.method(self, st, o, c, name)
            if m is not None:
                yield st, m
            else:
                yield self.raise_(st, "AttributeError", name)
            return
        if isinstance(o, Cls):
            yield from self.class_attr(st, o.info, name, fr, node)
            return
        if isinstance(o, Mod):
            if self.internal(o.name):
                env = st.get(self.modules[o.name].addr).vars
                if name in env:
                    yield st, env[name]
                elif o.name + "." + name in self.modules:
                    yield st, Mod(o.name + "." + name)
                else:
                    yield self.raise_(st, "AttributeError", name)
                return
            yield st, self.ext_attr(o.name, name)
            return
        if isinstance(o, Ext):
            full = o.name + "." + name
            v = self.ext.get(full)
            yield st, v if v is not None else Ext(full)
            return
        if isinstance(o, Top):
            yield st, Top("attribute " + name)
            return
        if isinstance(o, (Func, Bound, Py)):
            f = o.func if isinstance(o, Bound) else o
            q = f.qual if isinstance(f, Func) else getattr(f, "name", "?")
            if name in ("__name__", "__qualname__"):
                yield st, Const(q.split(".")[-1] if name == "__name__" else q)
            elif name == "__doc__":
                yield st, NONE
            elif name == "__self__" and isinstance(o, Bound):
                yield st, o.self_
            elif name == "__func__" and isinstance(o, Bound):
                yield st, f
            else:
                yield self.top(st, f"function attribute {name}")
            return
        if isinstance(o, Wrap):
            if o.kind == "property" and name in ("setter", "getter", "deleter"):
                def setter(ip, s, args, kw, o=o, which=name):
                    if which == "setter":
                        yield s, Wrap("property", o.f, args[0])
                    elif which == "getter":
                        yield s, Wrap("property", args[0], o.g)
                    else:
                        yield s, o
                yield st, Py("property." + name, setter, key=(o, name))
                return
            if name == "__func__":
                yield st, o.f
                return
        if isinstance(o, Coro):
            if name in ("__anext__", "__next__", "asend", "send", "aclose", "close", "__aiter__", "__iter__", "throw", "athrow"):
                if name in ("aclose", "close"):
                    yield st, Py("close", lambda ip, s, a, k: iter([(s, Coro(Py("noop", lambda ip, s, a, k: iter([(s, NONE)])), (), {}, "coro") if name == "aclose" else NONE)]), key=name)
                    return
                yield self.top(st, f"manual generator protocol {name}")
                return
        m = self.models.value_attr(self, st, o, name)
        if m is not None:
            if isinstance(m, list):
                yield from m
            else:
                yield st, m
            return
        t = self.type_of(st, o)
        m = self.models.plain_attr(self, o, name)
        if m is not None:
            yield st, m
            return
        if t is not None and isinstance(o, (Const, Str, Tup)):
            yield self.raise_(st, "AttributeError", f"{t.name} has no attribute {name}")
            return
        yield self.top(st, f"attribute {name} of {o!r}")

    def desc_get(self, st, a, inst, info):
        """Binds a class attribute; returns iterator of outcomes or None when it is a plain value."""
        if isinstance(a, Func):
            return iter([(st, Bound(inst, a) if inst is not None else a)])
        if isinstance(a, Py):
            return iter([(st, Bound(inst, a) if inst is not None else a)])
        if isinstance(a, Wrap):
            if a.kind == "property":
                if inst is None:
                    return iter([(st, a)])
                return self.call(st, a.f, (inst,), {})
            if a.kind == "classmethod":
                if isinstance(a.f, Wrap) and a.f.kind == "property":
                    return self.call(st, a.f.f, (Cls(info),), {})
                return iter([(st, Bound(Cls(info), a.f))])
            if a.kind == "staticmethod":
                return iter([(st, a.f)])
        if isinstance(a, Ref) and st.has(a.addr) and isinstance(st.get(a.addr), Inst):
            c = st.get(a.addr).cls
            if not c.is_enum:
                g = c.lookup("__get__")
                if g:
                    return self.call(st, Bound(a, g[1]), (inst if inst is not None else NONE, Cls(info)), {})
        return None

    def inst_attr(self, st, o, c, name, fr, node):
        ov = self.overrides.get((o.addr, name))
        if ov is not None:
            yield st, ov
            return
        info = c.cls
        if info.qual == "super":
            yield from self.super_attr(st, c, name)
            return
        if name == "__class__":
            yield st, Cls(info)
            return
        found = self.class_lookup(st, info, name)
        if found and isinstance(found[1], Wrap) and found[1].kind == "property":
            yield from self.desc_get(st, found[1], o, info)
            return
        if found and isinstance(found[1], Ref) and isinstance(st.get(found[1].addr), Inst) and \
                st.get(found[1].addr).cls.lookup("__set__"):
            yield from self.desc_get(st, found[1], o, info)
            return
        if info.is_enum and name in ("value", "name", "_value_", "_name_") and not (found and not found[0].ext):
            yield st, c.attrs["_value_" if "value" in name else "_name_"]
            return
        if name == "_queue" and info.qual in ("asyncio.Queue", "asyncio.LifoQueue"):
            # to be looked at only: a change through it is not modelled
            yield self.models.ext_inst(self, st, "dict_view", items=c.attrs["items"])
            return
        if info.ext and not info.is_enum:
            m = self.models.inst_method(self, st, o, c, name)
            if m is not None:
                yield st, m
                return
        if name in c.attrs:
            yield st, c.attrs[name]
            return
        if found:
            r = self.desc_get(st, found[1], o, info)
            if r is not None:
                yield from r
            else:
                yield st, found[1]
            return
        m = self.models.inst_method(self, st, o, c, name)
        if m is not None:
            yield st, m
            return
        if c.payload is not None:
            m = self.models.value_attr(self, st, c.payload, name)
            if m is not None:
                if isinstance(m, list):
                    yield from m
                else:
                    yield st, m
                return
        if name == "__dict__":
            yield st.new(DictC(tuple((Const(k), v) for k, v in c.attrs.items())))
            return
        ga = self.class_lookup(st, info, "__getattr__")
        if ga:
            yield from self.call(st, Bound(o, ga[1]), (Const(name),), {})
            return
        if info.ext or info.opaque or any(b.ext and b.qual not in self.models.CLOSED for b in info.mro):
            yield self.top(st, f"attribute {name} of external {info.qual}")
            return
        yield self.raise_(st, "AttributeError", f"'{info.name}' object has no attribute '{name}'")

    def super_attr(self, st, c, name):
        start, obj = c.attrs["cls"].info, c.attrs["obj"]
        if isinstance(obj, Cls):
            info, inst = obj.info, None
        elif isinstance(obj, Ref) and isinstance(st.get(obj.addr), Inst):
            info, inst = st.get(obj.addr).cls, obj
        else:
            yield self.top(st, "super of unknown")
            return
        mro = info.mro
        i = mro.index(start) if start in mro else -1
        for k in mro[i + 1:]:
            ovl = st.heap.get(("cattr", k.qual))
            a = None
            if ovl is not None and name in ovl.vars:
                a = ovl.vars[name]
            elif name in k.attrs:
                a = k.attrs[name]
            if a is not None:
                r = self.desc_get(st, a, inst, info)
                if r is not None:
                    yield from r
                else:
                    yield st, a
                return
        if name == "__init__":
            if info.is_sub(self.classes["BaseException"]):
                def einit(ip, s, args, kw, obj=inst):
                    cell = s.get(obj.addr)
                    yield s.put(obj.addr, cell.set("args", Tup(args))), NONE
                yield st, Py("Exception.__init__", einit, key=obj)
                return
            yield st, Py("object.__init__", lambda ip, s, a, k: iter([(s, NONE)]))
            return
        if name in ("__init_subclass__", "__set_name__"):
            yield st, Py(name, lambda ip, s, a, k: iter([(s, NONE)]))
            return
        if name == "__str__" and inst is not None:
            yield st, Py("__str__", lambda ip, s, a, k: ip.to_str(s, inst, builtin=True))
            return
        if name == "__repr__" and inst is not None:
            yield st, Py("__repr__", lambda ip, s, a, k: iter([(s, Const("<repr>"))]))
            return
        if name == "__eq__" and inst is not None:
            def beq(ip, s, a, k):
                yield from ip.builtin_eq(s, inst, a[0])
            yield st, Py("__eq__", beq, key=inst)
            return
        if name == "__hash__" and inst is not None:
            cell = st.get(inst.addr)
            yield st, Py("__hash__", lambda ip, s, a, k: iter([(s, Term("hash", (cell.payload if cell.payload is not None else inst,), "int"))]), key=inst)
            return
        if name == "__new__":
            def onew(ip, s, args, kw):
                yield s.new(Inst(args[0].info, {}, args[1] if len(args) > 1 else None))
            yield st, Py("object.__new__", onew)
            return
        if inst is not None:
            m = self.models.inst_method(self, st, inst, st.get(inst.addr), name)
            if m is not None:
                yield st, m
                return
        if any(b.ext and b.qual not in self.models.CLOSED for b in info.mro):
            yield st, Py("super." + name, lambda ip, s, a, k: iter([ip.top(s, "external super method " + name)]))
            return
        yield self.raise_(st, "AttributeError", f"super has no attribute {name}")

    def class_attr(self, st, info, name, fr=None, node=None):
        found = self.class_lookup(st, info, name)
        if found:
            r = self.desc_get(st, found[1], None, info)
            if r is not None:
                yield from r
            else:
                yield st, found[1]
            return
        if name in ("__name__", "__qualname__"):
            yield st, Const(info.name)
            return
        if name == "__subclasses__":
            def subs(ip, s, args, kw):
                yield s.new(ListC([Cls(c) for c in info.subclasses]))
            yield st, Py("__subclasses__", subs, key=info.qual)
            return
        if name == "__mro__":
            yield st, Tup([Cls(c) for c in info.mro])
            return
        if name == "__members__" and info.is_enum:
            yield st.new(DictC([(Const(k), v) for k, v in info.members.items()]))
            return
        if name == "_value2member_map_" and info.is_enum:
            yield st.new(DictC([(st.get(v.addr).attrs["_value_"], v) for k, v in info.members.items()]))
            return
        if name == "__doc__":
            yield st, NONE
            return
        if name == "__module__":
            yield st, Const(info.module.name if info.module else "")
            return
        m = self.models.class_method(self, st, info, name)
        if m is not None:
            yield st, m
            return
        if name == "__init__" and info.is_sub(self.classes["BaseException"]):
            def einit(ip, s, args, kw):
                cell = s.get(args[0].addr)
                yield s.put(args[0].addr, cell.set("args", Tup(args[1:]))), NONE
            yield st, Py("Exception.__init__", einit, key="excinit")
            return
        if name == "__init__":
            yield st, Py("object.__init__", lambda ip, s, a, k: iter([(s, NONE)]))
            return
        if info.ext or info.opaque:
            full = info.qual + "." + name
            v = self.ext.get(full)
            yield st, v if v is not None else Ext(full)
            return
        if any(b.ext and b.qual not in self.models.CLOSED for b in info.mro):
            yield self.top(st, f"class attribute {name}")
            return
        yield self.raise_(st, "AttributeError", f"type object '{info.name}' has no attribute '{name}'")

    def setattr_(self, st, o, name, v):
        if isinstance(o, Ref) and isinstance(st.get(o.addr), Inst):
            c = st.get(o.addr)
            found = self.class_lookup(st, c.cls, name)
            if found and isinstance(found[1], Wrap) and found[1].kind == "property":
                if found[1].g is None:
                    yield self.raise_(st, "AttributeError", f"property '{name}' has no setter")
                    return
                for st1, r in self.call(st, found[1].g, (o, v), {}):
                    yield st1, r if isinstance(r, ABN) else None
                return
            if found and isinstance(found[1], Ref) and isinstance(st.get(found[1].addr), Inst):
                s = st.get(found[1].addr).cls.lookup("__set__")
                if s:
                    for st1, r in self.call(st, Bound(found[1], s[1]), (o, v), {}):
                        yield st1, r if isinstance(r, ABN) else None
                    return
            sa = c.cls.lookup("__setattr__")
            if sa:
                yield self.top(st, "__setattr__")[0], None
                return
            if c.cls.dataclass == "frozen":
                yield self.raise_(st, "AttributeError", "frozen")
                return
            yield st.put(o.addr, c.set(name, v)), None
            return
        if isinstance(o, Cls):
            a = ("cattr", o.info.qual)
            cur = st.heap.get(a)
            d = dict(cur.vars) if cur else {}
            d[name] = v
            yield st.put(a, Env(d)), None
            return
        if isinstance(o, Top):
            yield st.tainted("attribute assignment on unknown"), None
            return
        if isinstance(o, Const):
            yield self.raise_(st, "AttributeError", name)
            return
        st1, _ = self.top(st, f"setattr on {o!r}")
        yield st1, None

    # ------------------------------------------------------------------ truth, equality, hashing
    def truth(self, st, v):
        """Yields (st, bool | ABN)."""
        if isinstance(v, Const):
            yield st, bool(v.v) if v.v is not NotImplemented else True
        elif isinstance(v, Str) or (isinstance(v, Term) and v.typ == "str"):
            for s, b in S.pred(st, v, L.EPS):
                yield s, not b
        elif isinstance(v, Tup):
            yield st, bool(v.items)
        elif isinstance(v, Bits):
            k = v.const()
            if k is not None:
                yield st, bool(k)
            else:
                yield st.tainted("truth of bits"), True
                yield st.tainted("truth of bits"), False
        elif isinstance(v, Term):
            if v.typ == "bool":
                yield from self.truth_bool(st, v)
            elif v.typ == "int":
                for s, b in S.cmp_const(st, v, "!=", 0):
                    yield s, b
            elif v.typ in ("datetime", "date", "time", "tz", "ip", "obj"):
                yield st, True
            elif v.typ == "charset":
                yield from self.truth_charset(st, v)
            else:
                yield from self.truth_fact(st, v, True)
        elif isinstance(v, Ref):
            c = st.get(v.addr)
            if isinstance(c, (ListC, DictC, SetC)):
                yield st, bool(c.items)
            elif isinstance(c, Inst):
                for nm in ("__bool__", "__len__"):
                    f = self.class_lookup(st, c.cls, nm)
                    if f and not f[0].ext:
                        for st1, r in self.call(st, Bound(v, f[1]), (), {}):
                            if isinstance(r, ABN):
                                yield st1, r
                            else:
                                yield from self.truth(st1, r)
                        return
                if c.payload is not None:
                    yield from self.truth(st, c.payload)
                elif c.cls.qual in ("collections.deque", "dict_view"):
                    yield st, bool(c.attrs["items"].items)
                else:
                    yield st, True
            else:
                yield st, True
        elif isinstance(v, Top):
            st = st.tainted("truth of unknown value: " + v.why)
            yield st, True
            yield st, False
        else:
            yield st, True

    def truth_charset(self, st, v):
        """Is the set of characters of a string (less, or restricted to, some characters) non-empty?"""
        if v.op == "charset":
            for s, b in S.pred(st, v.args[0], L.EPS):
                yield s, not b
            return
        idx = frozenset(L.sym_of(c) for c in v.args[1])
        amb = bool(idx & frozenset(L.MULTI))
        inner = v.args[0]
        if isinstance(inner, Term) and inner.typ == "charset":
            yield from self.truth_fact(st, v, True)
            return
        if v.op == "chardiff":
            lg, flip = L.syms(idx).star(), True
        else:
            lg, flip = L.ANY + L.syms(idx) + L.ANY, False
        for s, b in S.pred(st, inner, lg):
            yield (s.tainted("ambiguous class") if amb else s), (not b if flip else b)

    def truth_fact(self, st, v, taint):
        f = st.fact(("truth", v))
        if f is not None:
            yield st, f
            return
        for b in (True, False):
            s = st.with_fact(("truth", v), b)
            if taint:
                s = s.tainted(f"truth of {v!r}")
            yield s, b

    def truth_bool(self, st, v):
        if v.op == "bool":
            yield from self.truth(st, v.args[0])
        elif v.op == "not":
            for s, b in self.truth(st, v.args[0]):
                yield s, (not b if not isinstance(b, ABN) else b)
        elif v.op == "cmp" and is_intlike(v.args[0]) and isinstance(v.args[2], Const):
            for s, b in S.cmp_const(st, v.args[0], v.args[1], v.args[2].v):
                yield s, b
        else:
            yield from self.truth_fact(st, v, False)

    def payload(self, st, v):
        """Scalar behind an instance of a str/int subclass."""
        if isinstance(v, Ref) and isinstance(st.get(v.addr), Inst):
            p = st.get(v.addr).payload
            if p is not None:
                return p
        return v

    def eq_provider(self, st, info):
        """('func', f) | ('builtin',) | ('identity',) deciding == for instances of info."""
        for c in info.mro:
            ov = st.heap.get(("cattr", c.qual))
            if ov is not None and "__eq__" in ov.vars:
                return "func", ov.vars["__eq__"], c
            if "__eq__" in c.attrs:
                return "func", c.attrs["__eq__"], c
            if c.dataclass:
                return "dataclass", None, c
            if c.qual in ("str", "int", "float", "bytes", "bytearray", "list", "dict", "tuple"):
                return "builtin", None, c
        return "identity", None, None

    def eq(self, st, a, b):
        """Yields (st, V bool | ABN)."""
        if isinstance(a, Top) or isinstance(b, Top):
            if a is b:
                yield st, TRUE
                return
            st = st.tainted("equality with unknown value")
            yield st, TRUE
            yield st, FALSE
            return
        ta, tb = self.type_of(st, a), self.type_of(st, b)
        pa = self.eq_provider(st, ta) if isinstance(a, Ref) and isinstance(st.get(a.addr), Inst) else ("builtin", None, None)
        pb = self.eq_provider(st, tb) if isinstance(b, Ref) and isinstance(st.get(b.addr), Inst) else ("builtin", None, None)
        order = [(a, b, pa), (b, a, pb)]
        if ta is not None and tb is not None and ta is not tb and tb.is_sub(ta) and pb[0] == "func":
            order.reverse()
        if pa[0] == "func" or pb[0] == "func":
            pend = [st]
            for x, y, p in order:
                nxt = []
                for st1 in pend:
                    if p[0] == "func":
                        for st2, r in self.call(st1, p[1], (x, y), {}):
                            if isinstance(r, Const) and r.v is NotImplemented:
                                nxt.append(st2)
                            else:
                                yield st2, r
                    elif p[0] == "builtin" and isinstance(x, Ref):
                        if self.comparable(st1, x, y):
                            yield from self.builtin_eq(st1, x, y)
                        else:
                            nxt.append(st1)
                    else:
                        nxt.append(st1)
                pend = nxt
            for st1 in pend:
                yield st1, Const(a == b)
            return
        yield from self.builtin_eq(st, a, b)

    def comparable(self, st, x, y):
        px, py = self.payload(st, x), self.payload(st, y)
        return type(px) is type(py) or (is_strlike(px) and is_strlike(py)) or (is_intlike(px) and is_intlike(py))

    def ne(self, st, a, b):
        # user defined __ne__
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(st.get(x.addr), Inst):
                info = st.get(x.addr).cls
                for c in info.mro:
                    if "__ne__" in c.attrs and not c.ext:
                        done = False
                        for st1, r in self.call(st, c.attrs["__ne__"], (x, y), {}):
                            if isinstance(r, Const) and r.v is NotImplemented:
                                continue
                            done = True
                            if isinstance(r, Term) or isinstance(r, Const) or isinstance(r, ABN):
                                yield st1, r
                            else:
                                yield st1, r
                        if done:
                            return
                    if c.qual in ("str", "int"):
                        # str.__ne__ precedes any inherited __eq__ further in the MRO
                        if self.comparable(st, x, y):
                            for st1, r in self.builtin_eq(st, x, y):
                                yield from self.negate(st1, r)
                            return
                    if "__eq__" in c.attrs and not c.ext and "__ne__" not in c.attrs:
                        # object.__ne__ inverts __eq__ unless str.__ne__ comes first in the MRO
                        break
        for st1, r in self.eq(st, a, b):
            yield from self.negate(st1, r)

    def negate(self, st, r):
        if isinstance(r, ABN):
            yield st, r
            return
        for st2, t in self.truth(st, r):
            yield st2, t if isinstance(t, ABN) else Const(not t)

    def builtin_eq(self, st, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            yield st, TRUE
            return
        ca = st.get(a.addr) if isinstance(a, Ref) else None
        cb = st.get(b.addr) if isinstance(b, Ref) else None
        if isinstance(ca, Inst) and isinstance(cb, Inst) and ca.cls.dataclass and ca.cls is cb.cls:
            keys = [n for n, _ in ca.cls.ann]
            yield from self.eq_seq(st, [ca.attrs.get(k, NONE) for k in keys], [cb.attrs.get(k, NONE) for k in keys])
            return
        a2, b2 = self.payload(st, a), self.payload(st, b)
        if isinstance(ca, ListC) or isinstance(cb, ListC):
            if isinstance(ca, ListC) and isinstance(cb, ListC):
                yield from self.eq_seq(st, ca.items, cb.items)
            else:
                yield st, FALSE
            return
        if isinstance(a2, Tup) and isinstance(b2, Tup):
            yield from self.eq_seq(st, a2.items, b2.items)
            return
        if isinstance(ca, SetC) or isinstance(cb, SetC):
            if isinstance(ca, SetC) and isinstance(cb, SetC) and all(isinstance(x, Const) for x in ca.items + cb.items):
                yield st, Const(set(ca.items) == set(cb.items))
                return
            if isinstance(ca, SetC) and isinstance(cb, SetC):
                st = st.tainted("set equality")
                yield st, TRUE
            yield st, FALSE
            return
        if isinstance(ca, DictC) or isinstance(cb, DictC):
            if isinstance(ca, DictC) and isinstance(cb, DictC):
                if len(ca.items) != len(cb.items):
                    yield st, FALSE
                    return
                if ca.items == cb.items:
                    yield st, TRUE
                    return
                st = st.tainted("dict equality")
                yield st, TRUE
            yield st, FALSE
            return
        if is_strlike(a2) and is_strlike(b2):
            yield from self.eq_str(st, a2, b2)
            return
        if isinstance(a2, Str) and isinstance(b2, (Str, Const)) or isinstance(b2, Str) and isinstance(a2, Const):
            # bytes
            ka = a2.kind if isinstance(a2, Str) else type(a2.v).__name__
            kb = b2.kind if isinstance(b2, Str) else type(b2.v).__name__
            if ka == kb == "bytes":
                def s_(x):
                    return cat(x.parts) if isinstance(x, Str) else Const(x.v.decode("latin-1"))
                yield from self.eq_str(st, s_(a2), s_(b2))
            else:
                yield st, FALSE
            return
        if isinstance(a2, Const) and isinstance(b2, Const):
            try:
                yield st, Const(bool(a2.v == b2.v))
            except Exception:
                yield st, FALSE
            return
        if is_intlike(a2) and is_intlike(b2):
            if a2 == b2:
                yield st, TRUE
            elif isinstance(b2, Const) and isinstance(a2, Term):
                for s, r in S.cmp_const(st, a2, "==", b2.v):
                    yield s, Const(r)
            elif isinstance(a2, Const) and isinstance(b2, Term):
                for s, r in S.cmp_const(st, b2, "==", a2.v):
                    yield s, Const(r)
            else:
                yield from self.eq_terms(st, a2, b2)
            return
        if isinstance(a2, Term) and isinstance(b2, Term):
            if a2 == b2:
                yield st, TRUE
            elif a2.typ != b2.typ and not {a2.typ, b2.typ} <= {"int", "float", "bool"} and not {a2.typ, b2.typ} <= {"date", "datetime"}:
                yield st, FALSE
            else:
                yield from self.eq_terms(st, a2, b2)
            return
        if isinstance(a2, Term) and isinstance(b2, Const) or isinstance(b2, Term) and isinstance(a2, Const):
            t, c = (a2, b2) if isinstance(a2, Term) else (b2, a2)
            if c.v is None or (isinstance(c.v, str) != (t.typ == "str")):
                if t.typ in ("float", "bool") and isinstance(c.v, (int, float)):
                    yield from self.eq_terms(st, t, c)
                    return
                yield st, FALSE
                return
            yield from self.eq_terms(st, t, c)
            return
        yield st, Const(a2 == b2)

    def eq_terms(self, st, a, b):
        key = Term("cmp", (a, "==", b) if repr(a) <= repr(b) else (b, "==", a), "bool")
        for s, t in self.truth_fact(st, key, False):
            yield s, Const(t)

    def eq_seq(self, st, xs, ys):
        if len(xs) != len(ys):
            yield st, FALSE
            return
        pend = [st]
        for x, y in zip(xs, ys):
            nxt = []
            for st1 in pend:
                if x == y and not isinstance(x, Top):
                    nxt.append(st1)
                    continue
                for st2, r in self.eq(st1, x, y):
                    if isinstance(r, ABN):
                        yield st2, r
                        continue
                    for st3, t in self.truth(st2, r):
                        if t is True:
                            nxt.append(st3)
                        else:
                            yield st3, FALSE
            pend = nxt
        for st1 in pend:
            yield st1, TRUE

    def eq_str(self, st, a, b):
        if a == b:
            yield st, TRUE
            return
        if isinstance(b, Const):
            if isinstance(a, Const):
                yield st, FALSE
                return
            for s, r in S.eq_const_str(st, a, b.v):
                yield s, Const(r)
            return
        if isinstance(a, Const):
            for s, r in S.eq_const_str(st, b, a.v):
                yield s, Const(r)
            return
        la, lb = S.lang_of(st, a), S.lang_of(st, b)
        if (la & lb).is_empty():
            yield st, FALSE
            return
        # strip common constant/equal prefix and suffix parts
        pa = list(a.parts) if isinstance(a, Str) else [a]
        pb = list(b.parts) if isinstance(b, Str) else [b]
        while pa and pb and pa[0] == pb[0]:
            pa.pop(0)
            pb.pop(0)
        while pa and pb and pa[-1] == pb[-1]:
            pa.pop()
            pb.pop()
        x, y = cat(pa), cat(pb)
        if (x, y) != (a, b):
            yield from self.eq_str(st, x, y)
            return
        simple = all(isinstance(t, Term) and t.op in ("atom",) for t in (a, b))
        key = Term("cmp", (a, "==", b) if repr(a) <= repr(b) else (b, "==", a), "bool")
        for s, t in self.truth_fact(st, key, not simple):
            yield s, Const(t)

    def hash_key(self, st, v):
        """Yields (st, hashable key V | ABN)."""
        if isinstance(v, (Const, Term, Str, Cls, Func, Py, Bound, Bits, Mod, Coro)):
            yield st, v
        elif isinstance(v, Tup):
            outs = [(st, [])]
            for x in v.items:
                nxt = []
                for st1, acc in outs:
                    if isinstance(acc, ABN):
                        nxt.append((st1, acc))
                        continue
                    for st2, k in self.hash_key(st1, x):
                        nxt.append((st2, k if isinstance(k, ABN) else acc + [k]))
                outs = nxt
            for st1, acc in outs:
                yield st1, acc if isinstance(acc, ABN) else Tup(acc)
        elif isinstance(v, Ref):
            c = st.get(v.addr)
            if isinstance(c, Inst):
                for k in c.cls.mro:
                    h = k.attrs.get("__hash__")
                    if h is not None:
                        if h == NONE:
                            yield self.raise_(st, "TypeError", "unhashable type")
                            return
                        for st1, r in self.call(st, h, (v,), {}):
                            if isinstance(r, ABN):
                                yield st1, r
                            elif isinstance(r, Term) and r.op == "hash":
                                yield st1, r.args[0] if isinstance(r.args[0], V) else r
                            else:
                                yield st1, r
                        return
                    if "__eq__" in k.attrs:
                        yield self.raise_(st, "TypeError", f"unhashable type: '{c.cls.name}'")
                        return
                    if k.dataclass and k.dataclass != "frozen":
                        yield self.raise_(st, "TypeError", f"unhashable type: '{c.cls.name}'")
                        return
                    if k.qual in ("str", "int"):
                        break
                yield st, c.payload if c.payload is not None else v
            elif isinstance(c, SetC) and c.frozen:
                yield st, v
            else:
                yield self.raise_(st, "TypeError", "unhashable type")
        else:
            yield st.tainted("hash of unknown"), v

    def dict_find(self, st, d, key):
        """Yields (st, index | None | ABN)."""
        items = st.get(d.addr).items if isinstance(d, Ref) else d
        for st1, hk in self.hash_key(st, key):
            if isinstance(hk, ABN):
                yield st1, hk
                continue
            pend = [st1]
            for i, (k, _) in enumerate(items):
                nxt = []
                for st2 in pend:
                    if k == key and not isinstance(k, Top):
                        yield st2, i
                        continue
                    hs = list(self.hash_key(st2, k))
                    if len(hs) == 1 and not isinstance(hs[0][1], ABN) and not self.may_hash_equal(hs[0][0], hs[0][1], hk):
                        nxt.append(st2)
                        continue
                    for st3, r in self.eq(st2, k, key):
                        if isinstance(r, ABN):
                            yield st3, r
                            continue
                        for st4, t in self.truth(st3, r):
                            if t is True:
                                yield st4, i
                            else:
                                nxt.append(st4)
                pend = nxt
            for st2 in pend:
                yield st2, None

    def may_hash_equal(self, st, a, b):
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) == len(b.items) and all(self.may_hash_equal(st, x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return hash(a.v) == hash(b.v)
            except TypeError:
                return False
        if isinstance(a, Ref) or isinstance(b, Ref) or isinstance(a, (Cls, Func, Bound, Py)) or isinstance(b, (Cls, Func, Bound, Py)):
            return a == b
        if is_strlike(a) != is_strlike(b) and not isinstance(a, Top) and not isinstance(b, Top):
            return False
        return True

    def dict_set(self, st, d, k, v):
        """Yields (st, None | ABN)."""
        for st1, i in self.dict_find(st, d, k):
            if isinstance(i, ABN):
                yield st1, i
                continue
            c = st1.get(d.addr)
            items = list(c.items)
            if i is None:
                items.append((k, v))
            else:
                items[i] = (items[i][0], v)
            yield st1.put(d.addr, DictC(items, c.default)), None

    # ------------------------------------------------------------------ sequences
    def items_of(self, st, v):
        """Concrete element list or None."""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Const) and isinstance(v.v, str):
            return [Const(c) for c in v.v]
        if isinstance(v, Const) and isinstance(v.v, bytes):
            return [Const(c) for c in v.v]
        if isinstance(v, Const) and isinstance(v.v, range):
            return [Const(c) for c in v.v] if len(v.v) <= 5000 else None
        if isinstance(v, Cls) and v.info.is_enum:
            seen = {}
            for m in v.info.members.values():
                seen[m.addr] = m
            return list(seen.values())
        if isinstance(v, Ref):
            c = st.get(v.addr)
            if isinstance(c, (ListC, SetC)):
                return list(c.items)
            if isinstance(c, DictC):
                return [k for k, _ in c.items]
            if isinstance(c, Inst) and c.cls.qual in ("dict_view", "collections.deque"):
                return list(c.attrs["items"].items)
        return None

    def to_items(self, st, v):
        """Yields (st, list | None | ABN): the elements, None when unknown."""
        it = self.items_of(st, v)
        if it is not None:
            yield st, it
            return
        if isinstance(v, GenExp) or (isinstance(v, Coro) and v.kind in ("gen", "agen")):
            st1, r = st.new(ListC(()))

            def body(st2, x):
                yield st2.put(r.addr, ListC(st2.get(r.addr).items + (x,))), "next", None
            for st2, k, p in self.iter_values(st1, v, body):
                if k == "abn":
                    yield st2, p
                else:
                    yield st2, list(st2.get(r.addr).items)
            return
        if isinstance(v, Const):
            if v.v is None or isinstance(v.v, (int, float)):
                yield self.raise_(st, "TypeError", "object is not iterable")
                return
        if isinstance(v, Ref) and isinstance(st.get(v.addr), Inst):
            c = st.get(v.addr)
            f = self.class_lookup(st, c.cls, "__iter__")
            if f and not f[0].ext:
                for st1, g in self.call(st, Bound(v, f[1]), (), {}):
                    if isinstance(g, ABN):
                        yield st1, g
                    elif g == v:
                        yield st1, None
                    else:
                        yield from self.to_items(st1, g)
                return
            if c.payload is not None:
                yield from self.to_items(st, c.payload)
                return
            if not c.cls.ext and not c.cls.opaque:
                yield self.raise_(st, "TypeError", "object is not iterable")
                return
        if is_strlike(v):
            # fixed length strings can be unpacked
            lg = S.lang_of(st, v)
            for n in range(0, 40):
                if lg <= S.length_exact(n):
                    yield st, [self.models.s_char(v, i) for i in range(n)]
                    return
        yield st, None

    def getitem(self, st, o, k):
        yield from self.models.getitem(self, st, o, k)

    @staticmethod
    def const_slice(k):
        if isinstance(k, Tup) and len(k.items) == 4 and k.items[0] == Const("slice") and all(isinstance(x, Const) for x in k.items):
            return slice(*[x.v for x in k.items[1:]])
        return None

    def setitem(self, st, o, k, v):
        if isinstance(o, Ref):
            c = st.get(o.addr)
            if isinstance(c, DictC):
                yield from self.dict_set(st, o, k, v)
                return
            if isinstance(c, ListC):
                if isinstance(k, Const) and isinstance(k.v, int):
                    items = list(c.items)
                    try:
                        items[k.v] = v
                    except IndexError:
                        yield self.raise_(st, "IndexError")
                        return
                    yield st.put(o.addr, ListC(items)), None
                    return
                if self.const_slice(k):
                    for st1, new in self.to_items(st, v):
                        if isinstance(new, ABN):
                            yield st1, new
                            continue
                        if new is not None:
                            items = list(c.items)
                            try:
                                items[self.const_slice(k)] = new
                            except ValueError as e:
                                yield self.raise_(st1, "ValueError", str(e))
                                continue
                            yield st1.put(o.addr, ListC(items)), None
                        else:
                            yield st1.put(o.addr, ListC([Top("item")] * len(c.items))).tainted("list item assignment"), None
                    return
                yield st.put(o.addr, ListC([Top("item")] * len(c.items))).tainted("list item assignment"), None
                return
            if isinstance(c, Inst) and c.cls.qual == "bytearray":
                yield from self.models.bytearray_del(self, st, o, k, self.payload(st, v))
                return
            if isinstance(c, Inst):
                f = self.class_lookup(st, c.cls, "__setitem__")
                if f:
                    for st1, r in self.call(st, Bound(o, f[1]), (k, v), {}):
                        yield st1, r if isinstance(r, ABN) else None
                    return
        st1, _ = self.top(st, f"item assignment on {o!r}")
        yield st1, None

    def contains(self, st, c, x):
        """Yields (st, bool | ABN) for `x in c`."""
        yield from self.models.contains(self, st, c, x)

    # ------------------------------------------------------------------ conversions to text
    def to_str(self, st, v, builtin=False):
        if is_strlike(v):
            yield st, v
            return
        if isinstance(v, Const):
            yield st, Const(str(v.v))
            return
        if isinstance(v, Bits):
            k = v.const()
            yield st, Const(str(k)) if k is not None else Term("str", (v,), "str")
            return
        if isinstance(v, Term):
            if v.typ == "int":
                lo, hi, _ = S.int_range(st, v)
                if lo is not None and lo == hi:
                    yield st, Const(str(lo))
                    return
            yield st, Term("str", (v,), "str")
            return
        if isinstance(v, Ref):
            c = st.get(v.addr)
            if isinstance(c, Inst):
                if not builtin:
                    for nm in ("__str__", "__repr__"):
                        for k in c.cls.mro:
                            if nm in k.attrs and isinstance(k.attrs[nm], (Func, Py)):
                                if nm == "__repr__" and (c.payload is not None or c.cls.is_sub(self.classes["BaseException"])):
                                    break
                                for st1, r in self.call(st, Bound(v, k.attrs[nm]), (), {}):
                                    yield st1, self.payload(st1, r) if isinstance(r, Ref) else r
                                return
                            if k.qual in ("str",) and nm == "__str__":
                                break
                if c.cls.is_sub(self.classes["BaseException"]):
                    a = c.attrs.get("args", Tup(()))
                    if isinstance(a, Tup) and len(a.items) == 1:
                        yield from self.to_str(st, a.items[0])
                    elif isinstance(a, Tup) and not a.items:
                        yield st, Const("")
                    else:
                        yield from self.to_repr(st, a)
                    return
                if c.payload is not None:
                    if c.cls.is_enum and not c.cls.is_sub(self.classes["enum.ReprEnum"]):
                        yield st, Const(f"{c.cls.name}.{c.attrs['_name_'].v}")
                        return
                    yield from self.to_str(st, c.payload)
                    return
                if c.cls.is_enum:
                    yield st, Const(f"{c.cls.name}.{c.attrs['_name_'].v}")
                    return
            yield from self.to_repr(st, v)
            return
        if isinstance(v, Top):
            yield st, Top("str of unknown")
            return
        yield from self.to_repr(st, v)

    def _reprs(self, st, items, depth):
        outs = [(st, [])]
        for x in items:
            nxt = []
            for st1, acc in outs:
                if isinstance(acc, ABN):
                    nxt.append((st1, acc))
                    continue
                for st2, s in self.to_repr(st1, x, depth + 1):
                    nxt.append((st2, s if isinstance(s, ABN) else acc + [s if isinstance(s, V) and not isinstance(s, Top) else Const("?")]))
            outs = nxt
        yield from outs

    def to_repr(self, st, v, depth=0):
        """Textual representation that keeps the data it depends on."""
        if isinstance(v, Const):
            yield st, Const(repr(v.v))
            return
        if is_strlike(v):
            yield st, cat([Const("'"), v, Const("'")])
            return
        if isinstance(v, Ref) and isinstance(st.get(v.addr), Inst):
            c = st.get(v.addr)
            f = self.class_lookup(st, c.cls, "__repr__")
            if f and not f[0].ext:
                yield from self.call(st, Bound(v, f[1]), (), {})
                return
            if c.payload is not None:
                yield from self.to_repr(st, c.payload)
                return
            if c.cls.is_sub(self.classes["BaseException"]):
                parts = [Const(c.cls.name + "(")]
                for st2, s in self.to_repr(st, c.attrs.get("args", Tup(()))):
                    yield st2, cat(parts + [s, Const(")")]) if not isinstance(s, ABN) else s
                return
            yield st, Const(f"<{c.cls.name} object>")
            return
        cell = st.get(v.addr) if isinstance(v, Ref) else None
        if depth > 6:
            yield st, Const("...")
            return
        if isinstance(cell, DictC):
            flat = [x for kv in cell.items for x in kv]
            for st1, acc in self._reprs(st, flat, depth):
                if isinstance(acc, ABN):
                    yield st1, acc
                    continue
                parts = [Const("{")]
                for i, s in enumerate(acc):
                    parts += [Const("" if i == 0 else ": " if i % 2 else ", "), s]
                yield st1, cat(parts + [Const("}")])
            return
        items = self.items_of(st, v)
        if items is not None:
            a, b = ("(", ",)" if len(items) == 1 else ")") if isinstance(v, Tup) else ("{", "}") if isinstance(cell, SetC) and items else ("set(", ")") if isinstance(cell, SetC) else ("[", "]")
            for st1, acc in self._reprs(st, items, depth):
                if isinstance(acc, ABN):
                    yield st1, acc
                    continue
                parts = [Const(a)]
                for i, s in enumerate(acc):
                    parts += [Const(", " if i else ""), s]
                yield st1, cat(parts + [Const(b)])
            return
        if isinstance(v, Term):
            yield st, Term("str", (v,), "str")
            return
        yield st, Const(f"<{type(v).__name__}>")

    def format_(self, st, v, spec):
        v2 = self.payload(st, v)
        if isinstance(v2, Const):
            try:
                yield st, Const(format(v2.v, spec))
            except (ValueError, TypeError) as e:
                yield self.raise_(st, type(e).__name__, str(e))
            return
        if isinstance(v2, Term) and v2.typ in ("int", "float", "datetime", "date", "time", "str", "bool"):
            d = self.models.dt_format(self, st, v2, spec) if v2.typ in ("datetime", "date", "time") and spec else None
            yield st, d if d is not None else Term("format", (v2, spec), "str")
            return
        yield self.top(st, f"format {spec}")

    # ------------------------------------------------------------------ reporting helpers
    def show(self, st, v, depth=0):
        if isinstance(v, Exc):
            return "raises " + self.describe_abn(st, v)
        if isinstance(v, ABN):
            return repr(v)
        if isinstance(v, Ref):
            if depth > 3:
                return "..."
            c = st.get(v.addr)
            if isinstance(c, Inst):
                if c.cls.is_enum:
                    return f"{c.cls.name}.{c.attrs['_name_'].v}"
                if "_tags" in c.attrs or "_string" in c.attrs:
                    x = c.attrs.get("_tags", c.attrs.get("_string"))
                    return f"{c.cls.name}({self.show(st, x, depth + 1)})"
                return f"<{c.cls.name}>"
            if isinstance(c, DictC):
                return "{" + ", ".join(f"{self.show(st, k, depth + 1)}: {self.show(st, x, depth + 1)}" for k, x in c.items[:6]) + "}"
            if isinstance(c, (ListC, SetC)):
                return "[" + ", ".join(self.show(st, x, depth + 1) for x in c.items[:12]) + "]"
        if isinstance(v, Tup):
            return "(" + ", ".join(self.show(st, x, depth + 1) for x in v.items) + ")"
        return repr(v)
