"""Abstract values and abstract states.

Every value is immutable and hashable; mutable Python objects live in the abstract heap
of a state and are named by Ref(addr).  States are persistent: every update returns a new
state, so that the branches of a path-sensitive analysis never interfere.
"""
from __future__ import annotations
from dataclasses import dataclass, field
from typing import Any, Optional
import itertools

from . import lang


class V:
    __slots__ = ()


class Const(V):
    __slots__ = ("v", "_h")

    def __init__(self, v):
        self.v = v
        self._h = hash((type(v).__name__, v if v == v else "nan"))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Const) and type(self.v) is type(o.v) and self.v == o.v and \
            (getattr(self.v, "tzinfo", None) is None or repr(self.v) == repr(o.v))

    def __repr__(self):
        return repr(self.v)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)
NOTIMPL = Const(NotImplemented)


class Term(V):
    """Uninterpreted / opaque scalar: op applied to args (V or python scalars)."""
    __slots__ = ("op", "args", "typ", "_h")

    def __init__(self, op, args, typ):
        self.op = op
        self.args = tuple(args)
        self.typ = typ
        self._h = hash((op, self.args, typ))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Term) and self._h == o._h and self.op == o.op
                             and self.typ == o.typ and self.args == o.args)

    def __repr__(self):
        if self.op == "atom":
            return f"<{self.args[0]}>"
        return f"{self.op}({', '.join(map(repr, self.args))})"


class Str(V):
    """Concatenation of at least two parts (Const str / Term of type str), kind str|bytes."""
    __slots__ = ("parts", "kind", "_h")

    def __init__(self, parts, kind):
        self.parts = tuple(parts)
        self.kind = kind
        self._h = hash((self.parts, kind))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Str) and self.kind == o.kind and self.parts == o.parts)

    def __repr__(self):
        return ("b" if self.kind == "bytes" else "") + "f\"" + "".join(
            p.v if isinstance(p, Const) else "{%r}" % (p,) for p in self.parts) + '"'


class Bits(V):
    """Integer known bit by bit: bits[0] least significant; ext = value of all higher bits.

    A bit is 0, 1, ('b', name, i), ('~', name, i) or '?'."""
    __slots__ = ("bits", "ext", "_h")

    def __init__(self, bits, ext):
        bits = list(bits)
        while bits and bits[-1] == ext:
            bits.pop()
        self.bits = tuple(bits)
        self.ext = ext
        self._h = hash((self.bits, ext))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Bits) and self.bits == o.bits and self.ext == o.ext

    def bit(self, i):
        return self.bits[i] if i < len(self.bits) else self.ext

    def const(self):
        if all(b in (0, 1) for b in self.bits) and self.ext in (0, 1):
            v = sum(b << i for i, b in enumerate(self.bits))
            return v - (1 << len(self.bits)) if self.ext else v
        return None

    def __repr__(self):
        return f"Bits({self.bits},{self.ext})"


class Tup(V):
    __slots__ = ("items", "_h")

    def __init__(self, items):
        self.items = tuple(items)
        self._h = hash(self.items)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.items)) + ")"


class Ref(V):
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __hash__(self):
        return hash(("ref", self.addr))

    def __eq__(self, o):
        return isinstance(o, Ref) and self.addr == o.addr

    def __repr__(self):
        return f"@{self.addr}"


class Top(V):
    """Unknown value."""
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __hash__(self):
        return hash("top")

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f"Top({self.why})"


class ClassInfo:
    def __init__(self, name, qual, bases=(), ext=False, module=None, node=None):
        self.name = name
        self.qual = qual
        self.bases = list(bases)
        self.ext = ext            # not defined in the analysed program
        self.module = module
        self.node = node
        self.attrs = {}           # class dict: name -> V (mutable values are Refs)
        self.order = []           # definition order
        self.ann = []             # annotated names in order (dataclass)
        self.members = {}         # enum members name -> Ref
        self.is_enum = False
        self.dataclass = None
        self.subclasses = []
        self.abstract = frozenset()
        self.mro = None
        self.opaque = False       # an unresolved base: attribute lookups may be unknown

    def compute_mro(self):
        def merge(seqs):
            res = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise TypeError("MRO")
                res.append(c)
                seqs = [[x for x in t if x is not c] for t in seqs]
                seqs = [t for t in seqs if t]
            return res
        self.mro = [self] + merge([list(b.mro) for b in self.bases] + [list(self.bases)])

    def is_sub(self, other):
        return other in self.mro

    def lookup(self, name):
        for c in self.mro:
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def __repr__(self):
        return f"<class {self.qual}>"


class Cls(V):
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info

    def __hash__(self):
        return hash(("cls", id(self.info)))

    def __eq__(self, o):
        return isinstance(o, Cls) and self.info is o.info

    def __repr__(self):
        return f"<class {self.info.qual}>"


class Func(V):
    """Function defined in the analysed program."""
    __slots__ = ("node", "module", "closure", "defaults", "kwdefaults", "qual", "cls", "flags", "_h")

    def __init__(self, node, module, closure, defaults, kwdefaults, qual, cls=None, flags=frozenset()):
        self.node, self.module, self.closure = node, module, closure
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.qual, self.cls, self.flags = qual, cls, flags
        self._h = hash(("func", id(node), closure))

    def with_cls(self, cls, qual):
        return Func(self.node, self.module, self.closure, self.defaults, self.kwdefaults, qual, cls, self.flags)

    def with_flag(self, f):
        return Func(self.node, self.module, self.closure, self.defaults, self.kwdefaults, self.qual,
                    self.cls, self.flags | {f})

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Func) and self.node is o.node and self.closure == o.closure

    def __repr__(self):
        return f"<function {self.qual}>"


class Bound(V):
    __slots__ = ("self_", "func")

    def __init__(self, self_, func):
        self.self_, self.func = self_, func

    def __hash__(self):
        return hash(("bound", self.self_, self.func))

    def __eq__(self, o):
        return isinstance(o, Bound) and self.self_ == o.self_ and self.func == o.func

    def __repr__(self):
        return f"<bound {self.func!r} of {self.self_!r}>"


class Py(V):
    """Modelled external callable: fn(interp, st, args, kw) yields (st, V | Exc)."""
    __slots__ = ("name", "fn", "key")

    def __init__(self, name, fn, key=None):
        self.name, self.fn, self.key = name, fn, key

    def __hash__(self):
        return hash(("py", self.name, self.key))

    def __eq__(self, o):
        return isinstance(o, Py) and self.name == o.name and (
            self.fn is o.fn or (self.key is not None and self.key == o.key))

    def __repr__(self):
        return f"<{self.name}>"


class Ext(V):
    """External name without a model of its own (module attribute, typing construct...)."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(("ext", self.name))

    def __eq__(self, o):
        return isinstance(o, Ext) and self.name == o.name

    def __repr__(self):
        return f"<ext {self.name}>"


class Mod(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(("mod", self.name))

    def __eq__(self, o):
        return isinstance(o, Mod) and self.name == o.name

    def __repr__(self):
        return f"<module {self.name}>"


class Wrap(V):
    """property / staticmethod / classmethod objects in class dictionaries."""
    __slots__ = ("kind", "f", "g")

    def __init__(self, kind, f, g=None):
        self.kind, self.f, self.g = kind, f, g

    def __hash__(self):
        return hash((self.kind, self.f, self.g))

    def __eq__(self, o):
        return isinstance(o, Wrap) and (self.kind, self.f, self.g) == (o.kind, o.f, o.g)

    def __repr__(self):
        return f"<{self.kind} {self.f!r}>"


class Union(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __hash__(self):
        return hash(("union", self.items))

    def __eq__(self, o):
        return isinstance(o, Union) and self.items == o.items


class Coro(V):
    """Coroutine / async generator / generator object not started yet."""
    __slots__ = ("fn", "args", "kw", "kind")

    def __init__(self, fn, args, kw, kind):
        self.fn, self.args, self.kw, self.kind = fn, tuple(args), tuple(sorted(kw.items())) if isinstance(kw, dict) else tuple(kw), kind

    def __hash__(self):
        return hash((self.fn, self.args, self.kw, self.kind))

    def __eq__(self, o):
        return isinstance(o, Coro) and (self.fn, self.args, self.kw, self.kind) == (o.fn, o.args, o.kw, o.kind)

    def __repr__(self):
        return f"<{self.kind} {self.fn!r}{self.args!r}>"


class GenExp(V):
    """Generator expression with its defining frame (lazy)."""
    __slots__ = ("node", "fr", "src")

    def __init__(self, node, fr, src):
        self.node, self.fr, self.src = node, fr, src

    def __hash__(self):
        return hash(("genexp", id(self.node), self.src))

    def __eq__(self, o):
        return isinstance(o, GenExp) and self.node is o.node and self.src == o.src and self.fr is o.fr


class Exc:
    """Evaluation outcome: an exception is raised (value: Ref to an exception instance)."""
    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return f"Exc({self.value!r})"


class Blocked:
    """Evaluation outcome: the task waits for something that never happens on this path."""
    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"Blocked({self.what})"


class Unwind:
    """Outcome of a consumer that leaves a running generator (break/return/raise in the loop body)."""
    __slots__ = ("tag", "kind", "payload")

    def __init__(self, tag, kind, payload):
        self.tag, self.kind, self.payload = tag, kind, payload


# ---------------------------------------------------------------- heap cells (immutable)

class Inst:
    """Instance: class, attributes, builtin payload (str/int/... subclasses, exception args)."""
    __slots__ = ("cls", "attrs", "payload")

    def __init__(self, cls, attrs=None, payload=None):
        self.cls = cls
        self.attrs = attrs or {}
        self.payload = payload

    def set(self, name, v):
        a = dict(self.attrs)
        a[name] = v
        return Inst(self.cls, a, self.payload)

    def delete(self, name):
        a = dict(self.attrs)
        a.pop(name, None)
        return Inst(self.cls, a, self.payload)


class ListC:
    __slots__ = ("items",)

    def __init__(self, items=()):
        self.items = tuple(items)


class DictC:
    __slots__ = ("items", "default")

    def __init__(self, items=(), default=None):
        self.items = tuple(items)
        self.default = default


def set_order(items):
    """Elements of a set in an order the program must not rely on: the reverse of insertion, unless they are numbers."""
    items = tuple(dict.fromkeys(items))
    return items if all(isinstance(x, Const) and isinstance(x.v, int) for x in items) else items[::-1]


class SetC:
    __slots__ = ("items", "frozen")

    def __init__(self, items=(), frozen=False):
        self.items = tuple(items)
        self.frozen = frozen


class Env:
    __slots__ = ("vars",)

    def __init__(self, vars=None):
        self.vars = vars or {}


_counter = itertools.count(1)


class Heap:
    """Immutable map in two layers, so that an update copies only the recent part."""
    __slots__ = ("old", "new")

    def __init__(self, old=None, new=None):
        self.old = old if old is not None else {}
        self.new = new if new is not None else {}

    def set(self, k, v):
        if len(self.new) > 48:
            old = dict(self.old)
            old.update(self.new)
            return Heap(old, {k: v})
        n = dict(self.new)
        n[k] = v
        return Heap(self.old, n)

    def get(self, k, d=None):
        c = self.new.get(k)
        return c if c is not None else self.old.get(k, d)

    def __getitem__(self, k):
        c = self.new.get(k)
        return c if c is not None else self.old[k]

    def __contains__(self, k):
        return k in self.new or k in self.old

    def __iter__(self):
        yield from self.old
        for k in self.new:
            if k not in self.old:
                yield k

    keys = __iter__

    def items(self):
        return [(k, self[k]) for k in self]

    def values(self):
        return [self[k] for k in self]


class State:
    __slots__ = ("heap", "facts", "trace", "taint", "stack", "timeouts", "aux")
    base: dict = {}

    def __init__(self):
        self.heap = Heap()
        self.facts = {}
        self.trace = None
        self.taint = None
        self.stack = ()
        self.timeouts = ()
        self.aux = {}

    def copy(self):
        s = State.__new__(State)
        s.heap, s.facts, s.trace, s.taint = self.heap, self.facts, self.trace, self.taint
        s.stack, s.timeouts, s.aux = self.stack, self.timeouts, self.aux
        return s

    # heap
    def get(self, addr):
        h = self.heap
        c = h.new.get(addr)
        if c is None:
            c = h.old.get(addr)
        return c if c is not None else State.base[addr]

    def has(self, addr):
        return addr in self.heap or addr in State.base

    def put(self, addr, cell):
        s = self.copy()
        s.heap = self.heap.set(addr, cell)
        return s

    def new(self, cell):
        addr = next(_counter)
        return self.put(addr, cell), Ref(addr)

    # facts
    def fact(self, key, default=None):
        return self.facts.get(key, default)

    def with_fact(self, key, val):
        s = self.copy()
        f = dict(self.facts)
        f[key] = val
        s.facts = f
        return s

    def with_aux(self, key, val):
        s = self.copy()
        a = dict(self.aux)
        a[key] = val
        s.aux = a
        return s

    def event(self, kind, *payload, loc=None):
        s = self.copy()
        s.trace = (self.trace, (kind, payload, loc))
        return s

    def tainted(self, why):
        if self.taint:
            return self
        s = self.copy()
        s.taint = why
        return s

    def events(self, *kinds):
        out = []
        t = self.trace
        while t is not None:
            t, e = t
            if not kinds or e[0] in kinds:
                out.append(e)
        out.reverse()
        return out


def cat(parts, kind="str"):
    """Normalised concatenation."""
    out = []
    for p in parts:
        if isinstance(p, Str):
            sub = p.parts
        else:
            sub = (p,)
        for q in sub:
            if isinstance(q, Const):
                if q.v == "" or q.v == b"":
                    continue
                t = q.v if isinstance(q.v, str) else q.v.decode("latin-1")
                if out and isinstance(out[-1], Const):
                    out[-1] = Const(out[-1].v + t)
                else:
                    out.append(Const(t))
            else:
                out.append(q)
    if not out:
        return Const("" if kind == "str" else b"")
    if len(out) == 1:
        p = out[0]
        if isinstance(p, Const):
            return p if kind == "str" else Const(p.v.encode("latin-1"))
        if kind == "str":
            return p
    return Str(out, kind)


def atom(name, typ):
    return Term("atom", (name,), typ)


def is_strlike(v):
    return (isinstance(v, Const) and isinstance(v.v, str)) or (isinstance(v, Str) and v.kind == "str") \
        or (isinstance(v, Term) and v.typ == "str")


def is_intlike(v):
    return (isinstance(v, Const) and isinstance(v.v, int)) or (isinstance(v, Term) and v.typ in ("int", "bool")) \
        or isinstance(v, Bits)


def atoms_of(v, acc=None):
    acc = set() if acc is None else acc
    if isinstance(v, Term):
        if v.op == "atom":
            acc.add(v)
        else:
            for a in v.args:
                if isinstance(a, V):
                    atoms_of(a, acc)
    elif isinstance(v, Str):
        for p in v.parts:
            atoms_of(p, acc)
    elif isinstance(v, Tup):
        for p in v.items:
            atoms_of(p, acc)
    return acc
