"""Abstract interpreter over the Python syntax tree (direct semantics over sets of abstract states)."""
import ast
import builtins as _bi
import os
import time

from . import state as S
from .state import (BA, DictO, Env, GenO, Inst, IterO, ListO, OpaqueO, State, StreamO, bslen, bs_slice, concat, mkbs, mkv,
                    opaque_bytes)
from .refute import COMPS
from .terms import INF, Aff, Bs, EnumVal, Ref, Slice, StructV, Sym, VTuple, add, atom, fresh, mul, show, sub

N, RET, BRK, CNT, EXC = "normal", "return", "break", "continue", "raise"


class AnalysisBroken(Exception):
    """an anchor vanished or the source cannot be read"""


class Loc:
    __slots__ = ("file", "line", "func")

    def __init__(self, file, line, func):
        self.file, self.line, self.func = file, line, func

    def __repr__(self):
        return f"{self.file}:{self.line} ({self.func})"


class ExtV:
    """external (library) entity by dotted name"""
    _t = {}

    def __new__(cls, name):
        o = cls._t.get(name)
        if o is None:
            o = object.__new__(cls)
            o.name = name
            cls._t[name] = o
        return o

    def __repr__(self):
        return self.name


class FuncV:
    def __init__(self, name, qual, node, mod, env, defaults, kwdefaults, owner=None):
        self.name, self.qual, self.node, self.mod, self.env = name, qual, node, mod, env
        self.defaults, self.kwdefaults, self.owner = defaults, kwdefaults, owner
        self.is_gen = _is_gen(node)
        self.cm = False  # decorated with contextlib.contextmanager
        self.cached = False

    def __repr__(self):
        return f"<function {self.qual}>"


def _is_gen(node):
    if isinstance(node, ast.Lambda):
        return False

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if walk(c):
                return True
        return False
    return walk(node)


class BoundV:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __eq__(self, o):
        return isinstance(o, BoundV) and o.func is self.func and o.self == self.self

    def __hash__(self):
        return hash((id(self.func), self.self))


class BM:
    """method of a builtin value"""
    __slots__ = ("self", "name")

    def __init__(self, self_, name):
        self.self, self.name = self_, name


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class PropV:
    def __init__(self, f, fset=None, cached=False):
        self.f, self.fset, self.cached = f, fset, cached


class PartialV:
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


class CachedV(PartialV):
    """a callable behind functools.lru_cache or functools.cache"""


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class FieldSpec:
    def __init__(self, name, ann, default, cls, node, opts=None, classvar=False):
        self.name, self.ann, self.default, self.cls, self.node = name, ann, default, cls, node
        self.opts = opts or {}
        self.classvar = classvar


class FieldCall:
    """result of dataclasses.field(...)"""

    def __init__(self, opts):
        self.opts = opts


NODEFAULT = object()


class ClassV:
    def __init__(self, name, qual, bases, ns, node, mod, typeargs=None):
        self.name, self.qual, self.bases, self.ns, self.node, self.mod = name, qual, bases, ns, node, mod
        self.dc = None          # dataclass options
        self.enum = None        # 'int' | 'flag' | 'enum' | 'pflag'
        self.members = {}       # enum members
        self.fields_own = {}    # annotated names of this class
        self.kw = {}
        self.typeargs = {}

    def mro(self):
        return _mro(self)

    def __repr__(self):
        return f"<class {self.qual}>"


def _mro(c):
    out = []

    def lin(c):
        if not isinstance(c, ClassV):
            return [c]
        seqs = [lin(b) for b in c.bases] + [list(c.bases)]
        res = [c]
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in q[1:] for q in seqs):
                    break
            else:
                h = seqs[0][0]
            res.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return res
    out = lin(c)
    return out


class ExcV:
    __slots__ = ("cls", "args", "inst", "node")

    def __init__(self, cls, args=(), inst=None, node=None):
        self.cls, self.args, self.inst, self.node = cls, args, inst, node

    def __repr__(self):
        n = self.cls.name if hasattr(self.cls, "name") else str(self.cls)
        return f"{n.split('.')[-1]}({', '.join(map(show, self.args))})"


class Raised:
    __slots__ = ("exc", "loc")

    def __init__(self, exc, loc):
        self.exc, self.loc = exc, loc


class ConsumerExit:
    """unwinds a generator whose consumer left the loop"""
    __slots__ = ("outcome", "token", "cls")

    def __init__(self, outcome, token):
        self.outcome, self.token = outcome, token
        self.cls = ExtV("builtins.GeneratorExit")


def stored_names(node, _cache={}):
    if node not in _cache:
        _cache[node] = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)} \
            | {n.name for n in ast.walk(node) if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.ExceptHandler, ast.MatchAs, ast.MatchStar)) and n.name} \
            | {(n.asname or n.name).split(".")[0] for n in ast.walk(node) if isinstance(n, ast.alias)}
    return _cache[node]


def straight_locals(node, _cache={}):
    """local names of a function that are bound, but nowhere inside a loop"""
    if not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return ()
    got = _cache.get(node)
    if got is not None:
        return got
    out, no = set(), set()

    def walk(n, loop):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            (no if loop else out).add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            no.update(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            no.update((a.asname or a.name).split(".")[0] for a in n.names)
        if isinstance(n, ast.ExceptHandler) and n.name:
            no.add(n.name)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            no.add(n.name)
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            (no if loop or isinstance(n.ctx, ast.Del) else out).add(n.id)
        inner = loop or isinstance(n, (ast.For, ast.While, ast.AsyncFor, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp))
        for c in ast.iter_child_nodes(n):
            walk(c, inner)
    for c in node.body:
        walk(c, False)
    got = _cache[node] = out - no
    return got


class OutOfTime(BaseException):
    """the analysis of one part takes too long: it stays undecided"""


class Clock:
    """limits in seconds of processor time"""
    part, whole = 100, 500
    until = None

    @classmethod
    def check(cls):
        if cls.until is not None and time.process_time() > cls.until:
            raise OutOfTime("time limit of the analysis")


class Ctx:
    __slots__ = ("env", "func", "mod", "cls", "exc", "file", "qual")

    def __init__(self, env, func, mod, file, qual, cls=None):
        self.env, self.func, self.mod, self.cls, self.file, self.qual = env, func, mod, cls, file, qual
        self.exc = None


class LoopRec:
    def __init__(self, node, loc, start, iters, mod, groups, pre, rel=None):
        self.node, self.loc, self.start, self.iters, self.mod, self.groups, self.pre = node, loc, start, iters, mod, groups, pre
        self.rel = rel or {}
        self.exits = []


FAULT = ExtV("fault.Fault")


def exc_matches(exc, handler):
    """True / False / None (either)"""
    if isinstance(handler, VTuple):
        rs = [exc_matches(exc, h) for h in handler.items]
        return True if True in rs else None if None in rs else False
    if isinstance(exc, ConsumerExit):
        return False
    c = exc.cls
    if c is FAULT:
        if isinstance(handler, ExtV) and handler.name in ("builtins.Exception", "builtins.BaseException"):
            return True
        return None
    mros = _exc_mro(c)
    if handler in mros:
        return True
    if isinstance(handler, (ExtV, ClassV)):
        return False
    return None


def _exc_mro(c):
    if isinstance(c, ClassV):
        out = []
        for x in c.mro():
            out.append(x)
            if isinstance(x, ExtV):
                out.extend(_exc_mro(x))
        return out
    n = c.name.split(".")[-1]
    if c.name.startswith("builtins.") and isinstance(getattr(_bi, n, None), type):
        return [ExtV("builtins." + k.__name__) for k in getattr(_bi, n).__mro__]
    return [c, ExtV("builtins.Exception"), ExtV("builtins.BaseException")]


class Interp:
    MAX_DEPTH = 60

    def __init__(self, program, faults=False):
        self.program = program
        self.faults = faults
        self.split_slices = False
        self.yield_handler = None
        self.depth = 0
        self.kept = {}          # table -> what was seen under its keys
        self.grew = False       # was a table changed in a loop?
        self.forgets = False    # analyse as if nothing were found in such a table
        self.internals = {}     # id of a container that is part of an enumeration -> (name, contents)
        self.rec_mod = {}
        self.gen_active = []
        self.steps = 0
        self.step_limit = 3_000_000
        self.struct_uses = {}   # StructV -> set of locations
        self.calls_seen = set()
        self.call_stack = []
        self.trace_calls = True

    # ------------------------------------------------------------------ small helpers
    def loc(self, node, ctx):
        return Loc(ctx.file, getattr(node, "lineno", 0), ctx.qual)

    def raise_(self, st, cls, node, ctx, *args):
        return [(st, Raised(ExcV(ExtV(cls), args, node=node), self.loc(node, ctx)))]

    def unk(self, st, reason, node, ctx, ty="any"):
        r = f"{reason} at {self.loc(node, ctx)}"
        if r not in st.unk:
            st.unk.append(r)
        s = fresh("unk", ty)
        return Sym("unk", (s,), ty)

    def bind(self, results, f):
        Clock.check()
        out = []
        for st, v in results:
            if isinstance(v, Raised):
                out.append((st, v))
            else:
                out.extend(f(st, v))
        return out

    def evals(self, nodes, st, ctx):
        """evaluate nodes left to right -> [(st, [values]) | (st, Raised)]"""
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in res:
                if isinstance(vs, Raised):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.eval(n, s, ctx):
                    nxt.append((s2, v) if isinstance(v, Raised) else (s2, vs + [v]))
            res = nxt
        return res

    def fault(self, st, what, node, ctx):
        """extra outcome: the operation fails"""
        if not self.faults:
            return []
        s = st.clone()
        s.events.append(("fault", what, self.loc(node, ctx)))
        return [(s, Raised(ExcV(FAULT, (what,), node=node), self.loc(node, ctx)))]

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st, ctx):
        live = [st]
        done = []
        Clock.check()
        for stmt in stmts:
            nxt = []
            for s in live:
                for s2, oc in self.exec_stmt(stmt, s, ctx):
                    if oc[0] == N:
                        nxt.append(s2)
                    else:
                        done.append((s2, oc))
            live = self.join(nxt)
            if not live:
                break
        return [(s, (N,)) for s in live] + done

    def join(self, states):
        if len(states) < 2:
            return states
        groups = {}
        order = []
        for s in states:
            k = (tuple(sorted((i, id(o)) for i, o in s.heap.items())), tuple(id(e) for e in s.events),
                 tuple(sorted((k.id, repr(v)) for k, v in s.subst.items())), tuple(s.unk), s.pending)
            if k in groups:
                g = groups[k]
                g.bounds = {q: (min(v[0], s.bounds[q][0]), max(v[1], s.bounds[q][1])) for q, v in g.bounds.items()
                            if q in s.bounds}
                g.ne = {q: v & s.ne[q] for q, v in g.ne.items() if q in s.ne and v & s.ne[q]}
                g.bools = {q: v for q, v in g.bools.items() if s.bools.get(q) == v}
                for a in s.assumptions:
                    g.assume_note(a)
            else:
                groups[k] = s
                order.append(s)
        return order

    def exec_stmt(self, node, st, ctx):
        self.steps += 1
        if self.steps > self.step_limit:
            raise AnalysisBroken("step limit exceeded")
        m = getattr(self, "st_" + type(node).__name__, None)
        if m is None:
            self.unk(st, f"statement {type(node).__name__} not modelled", node, ctx)
            return [(st, (N,))]
        return m(node, st, ctx)

    def lift(self, results, f=None):
        """expression results -> statement results"""
        out = []
        for s, v in results:
            if isinstance(v, Raised):
                out.append((s, (EXC, v)))
            elif f is None:
                out.append((s, (N,)))
            else:
                out.extend(f(s, v))
        return out

    def st_Expr(self, node, st, ctx):
        return self.lift(self.eval(node.value, st, ctx))

    def st_Pass(self, node, st, ctx):
        return [(st, (N,))]

    def st_Break(self, node, st, ctx):
        return [(st, (BRK,))]

    def st_Continue(self, node, st, ctx):
        return [(st, (CNT,))]

    def st_Return(self, node, st, ctx):
        if node.value is None:
            return [(st, (RET, None))]
        return self.lift(self.eval(node.value, st, ctx), lambda s, v: [(s, (RET, v))])

    def st_Raise(self, node, st, ctx):
        if node.exc is None:
            if ctx.exc is not None:
                return [(st, (EXC, ctx.exc))]
            return [(st, (EXC, Raised(ExcV(ExtV("builtins.RuntimeError")), self.loc(node, ctx))))]

        def f(s, v):
            loc = self.loc(node, ctx)
            if isinstance(v, ExcV):
                return [(s, (EXC, Raised(v, loc)))]
            if isinstance(v, ExtV):
                return [(s, (EXC, Raised(ExcV(v, node=node), loc)))]
            if isinstance(v, ClassV):
                return self.lift(self.call(s, v, [], {}, node, ctx), f)
            if isinstance(v, Ref) and isinstance(s.get(v), Inst):
                return [(s, (EXC, Raised(ExcV(s.get(v).cls, (), v, node), loc)))]
            return [(s, (EXC, Raised(ExcV(ExtV("builtins.Exception"), (v,), node=node), loc)))]
        res = self.eval(node.exc, st, ctx)
        return self.lift(res, f)

    def st_Assert(self, node, st, ctx):
        out = []
        for s, v in self.eval(node.test, st, ctx):
            if isinstance(v, Raised):
                out.append((s, (EXC, v)))
                continue
            for s2, t in self.truth(s, v, node, ctx):
                if t:
                    out.append((s2, (N,)))
                else:
                    out.append((s2, (EXC, Raised(ExcV(ExtV("builtins.AssertionError"), node=node), self.loc(node, ctx)))))
        return out

    def st_Import(self, node, st, ctx):
        for a in node.names:
            v = self.program.import_module(self, st, a.name)
            if a.asname:
                self.setname(st, ctx, a.asname, v)
            else:
                top = a.name.split(".")[0]
                self.setname(st, ctx, top, self.program.import_module(self, st, top))
        return [(st, (N,))]

    def st_ImportFrom(self, node, st, ctx):
        base = node.module or ""
        if node.level:
            pk = ctx.mod if self.program.is_package(ctx.mod) else ctx.mod.rpartition(".")[0]
            for _ in range(node.level - 1):
                pk = pk.rpartition(".")[0]
            base = pk + ("." + base if base else "")
        mod = self.program.import_module(self, st, base)
        for a in node.names:
            if a.name == "*":
                if isinstance(mod, ModV):
                    for k, v in st.get(mod.env).vars.items():
                        if not k.startswith("_"):
                            self.setname(st, ctx, k, v)
                continue
            v = self.program.module_attr(self, st, mod, a.name)
            self.setname(st, ctx, a.asname or a.name, v)
        return [(st, (N,))]

    def st_Global(self, node, st, ctx):
        e = st.get(ctx.env)
        st.put(ctx.env, Env(e.vars, e.parent, e.globals | set(node.names), e.nonlocals))
        return [(st, (N,))]

    def st_Nonlocal(self, node, st, ctx):
        e = st.get(ctx.env)
        st.put(ctx.env, Env(e.vars, e.parent, e.globals, e.nonlocals | set(node.names)))
        return [(st, (N,))]

    def st_FunctionDef(self, node, st, ctx):
        a = node.args

        def build(s, vals):
            nd = len(a.defaults)
            defaults = vals[:nd]
            kwd = {}
            i = nd
            for arg, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    kwd[arg.arg] = vals[i]
                    i += 1
            decs = vals[i:]
            env = ctx.env
            e = s.get(env)
            if ctx.cls is not None and ctx.func is None and ctx.qual.endswith("<class>"):
                env = e.parent   # class scope is invisible to its functions
            q = (ctx.qual[:-8] + "." if ctx.qual.endswith(" <class>") else (ctx.qual + "." if ctx.func else "")) + node.name
            f = FuncV(node.name, f"{ctx.mod}.{q}" if not q.startswith(ctx.mod) else q, node, ctx.mod, env, defaults, kwd, ctx.cls)
            v = f
            for d in reversed(decs):
                v = self.decorate(s, d, v, node, ctx)
            self.setname(s, ctx, node.name, v)
            return [(s, (N,))]
        nodes = list(a.defaults) + [d for d in a.kw_defaults if d is not None] + list(node.decorator_list)
        return self.lift(self.evals(nodes, st, ctx), build)

    def decorate(self, st, d, v, node, ctx):
        n = d.name if isinstance(d, ExtV) else None
        if n == "builtins.staticmethod":
            return StaticM(v)
        if n == "builtins.classmethod":
            return ClassM(v)
        if n == "builtins.property":
            return PropV(v)
        if n == "functools.cached_property":
            return PropV(v, cached=True)
        if n in ("typing.overload", "typing.final", "typing_extensions.override", "typing.override", "abc.abstractmethod",
                 "typing_extensions.final", "typing.no_type_check", "typing_extensions.deprecated", "functools.wraps"):
            return v
        if n in ("functools.lru_cache", "functools.cache"):
            if isinstance(v, FuncV):
                v.cached = True
            return v
        if n == "contextlib.contextmanager":
            if isinstance(v, FuncV):
                v.cm = True
            return v
        if n in ("dataclasses.dataclass",) and isinstance(v, ClassV):
            v.dc = {}
            return v
        if isinstance(d, BM) and isinstance(d.self, PropV) and d.name == "setter":
            return PropV(d.self.f, v, d.self.cached)
        if isinstance(d, PartialV) and isinstance(d.f, ExtV):
            if d.f.name == "dataclasses.dataclass" and isinstance(v, ClassV):
                v.dc = dict(d.kwargs)
                return v
            if d.f.name in ("functools.lru_cache", "functools.wraps", "typing_extensions.deprecated", "functools.cache"):
                if isinstance(v, FuncV) and "cache" in d.f.name:
                    v.cached = True
                return v
        if isinstance(d, (FuncV, BoundV)):
            rs = [(s, r) for s, r in self.call(st, d, [v], {}, node, ctx) if not isinstance(r, Raised)]
            if len(rs) == 1 and rs[0][0] is st:
                return rs[0][1]
        if isinstance(d, ExtV) and d.name.startswith("enum."):
            return v
        return Sym("unk", (fresh("decorated"),), "any")

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, node, st, ctx):
        def build(s, vals):
            nb = len(node.bases)
            bases, kws, decs = vals[:nb], vals[nb:nb + len(node.keywords)], vals[nb + len(node.keywords):]
            bases = [b for b in bases if isinstance(b, (ClassV, ExtV))]
            targs = {}
            ns = s.alloc(Env({}, ctx.env))
            q = f"{ctx.mod}.{node.name}"
            c = ClassV(node.name, q, bases, ns, node, ctx.mod)
            c.kw = {k.arg: v for k, v in zip(node.keywords, kws)}
            c.typeargs = targs
            for b in c.mro()[1:]:
                if isinstance(b, ClassV) and b.enum:
                    c.enum = b.enum
                elif isinstance(b, ExtV) and b.name in ("enum.IntEnum", "enum.IntFlag", "enum.Enum", "enum.Flag", "enum.ReprEnum"):
                    c.enum = c.enum or {"enum.IntEnum": "int", "enum.IntFlag": "flag", "enum.Enum": "enum", "enum.Flag": "pflag",
                                        "enum.ReprEnum": "enum"}[b.name]
            if c.enum == "enum" and any(isinstance(b, ExtV) and b.name == "builtins.int" for b in c.mro()):
                c.enum = "int"
            cctx = Ctx(ns, None, ctx.mod, ctx.file, f"{node.name} <class>", c)
            for stmt in node.body:
                if isinstance(stmt, ast.AnnAssign) and isinstance(stmt.target, ast.Name):
                    ann = ast.unparse(stmt.annotation)
                    cv = ann.startswith(("ClassVar", "typing.ClassVar", "'ClassVar", '"ClassVar'))
                    c.fields_own[stmt.target.id] = FieldSpec(stmt.target.id, stmt.annotation, stmt.value, c, stmt, classvar=cv)
            out = []
            for s2, oc in self.exec_block(node.body, s, cctx):
                if oc[0] != N:
                    out.append((s2, oc))
                    continue
                if c.enum:
                    self.make_enum(s2, c)
                v = c
                for d in reversed(decs):
                    v = self.decorate(s2, d, v, node, ctx)
                self.setname(s2, ctx, node.name, v)
                out.append((s2, (N,)))
            return out
        nodes = list(node.bases) + [k.value for k in node.keywords] + list(node.decorator_list)
        return self.lift(self.evals(nodes, st, ctx), build)

    def make_enum(self, st, c):
        e = st.get(c.ns)
        vars = dict(e.vars)
        last = 0
        for k, v in list(vars.items()):
            if k.startswith("__") or isinstance(v, (FuncV, StaticM, ClassM, PropV, ClassV)) or (k.startswith("_") and k.endswith("_")):
                continue
            if isinstance(v, EnumVal):
                v = v.v
            if isinstance(v, Sym) and v.tag == "enumauto":
                if c.enum in ("flag", "pflag"):
                    v = 1 if last < 1 else 1 << last.bit_length()
                else:
                    v = last + 1
            if isinstance(v, (int, str, float, bytes)) or v is None:
                if isinstance(v, int):
                    last = max(last, v) if c.enum in ("flag", "pflag") else v
                c.members[k] = v
                vars[k] = EnumVal(c, v)
        st.put(c.ns, Env(vars, e.parent))

    def st_Assign(self, node, st, ctx):
        def f(s, v):
            live = [(s, (N,))]
            for t in node.targets:
                nxt = []
                for s2, oc in live:
                    if oc[0] != N:
                        nxt.append((s2, oc))
                    else:
                        nxt.extend(self.assign(t, v, s2, ctx))
                live = nxt
            return live
        return self.lift(self.eval(node.value, st, ctx), f)

    def st_AnnAssign(self, node, st, ctx):
        if node.value is None:
            return [(st, (N,))]
        return self.lift(self.eval(node.value, st, ctx), lambda s, v: self.assign(node.target, v, s, ctx))

    def st_AugAssign(self, node, st, ctx):
        t = node.target
        load = ast.copy_location(_as_load(t), t)

        def f(s, vals):
            cur, rhs = vals
            if isinstance(node.op, ast.Add) and isinstance(cur, Ref):
                o = s.get(cur)
                if isinstance(o, (BA, ListO)):
                    return self.lift(self.call(s, BM(cur, "extend"), [rhs], {}, node, ctx),
                                     lambda s2, _: self.assign(t, cur, s2, ctx))
            return self.lift(self.binop(s, node.op, cur, rhs, node, ctx), lambda s2, v: self.assign(t, v, s2, ctx))
        return self.lift(self.evals([load, node.value], st, ctx), f)

    def st_Delete(self, node, st, ctx):
        out = [(st, (N,))]
        for t in node.targets:
            nxt = []
            for s, oc in out:
                if oc[0] != N:
                    nxt.append((s, oc))
                elif isinstance(t, ast.Name):
                    e = s.get(ctx.env)
                    vars = dict(e.vars)
                    vars.pop(t.id, None)
                    s.put(ctx.env, Env(vars, e.parent, e.globals, e.nonlocals))
                    nxt.append((s, (N,)))
                elif isinstance(t, ast.Subscript):
                    def f(s2, vals):
                        return self.lift(self.del_item(s2, vals[0], vals[1], t, ctx))
                    nxt.extend(self.lift(self.evals([t.value, t.slice], s, ctx), f))
                elif isinstance(t, ast.Attribute):
                    def f(s2, v):
                        if isinstance(v, Ref) and isinstance(s2.get(v), Inst):
                            o = s2.get(v)
                            at = dict(o.attrs)
                            at.pop(t.attr, None)
                            s2.put(v, Inst(o.cls, at))
                        return [(s2, (N,))]
                    nxt.extend(self.lift(self.eval(t.value, s, ctx), f))
                else:
                    self.unk(s, "del target", t, ctx)
                    nxt.append((s, (N,)))
            out = nxt
        return out

    def st_If(self, node, st, ctx):
        out = []
        for s, v in self.eval(node.test, st, ctx):
            if isinstance(v, Raised):
                out.append((s, (EXC, v)))
                continue
            for s2, t in self.truth(s, v, node.test, ctx):
                out.extend(self.exec_block(node.body if t else node.orelse, s2, ctx))
        live = self.join([s for s, oc in out if oc[0] == N])
        return [(s, (N,)) for s in live] + [(s, oc) for s, oc in out if oc[0] != N]

    def st_With(self, node, st, ctx):
        return self.with_items(node, 0, st, ctx)

    def with_items(self, node, i, st, ctx):
        if i == len(node.items):
            return self.exec_block(node.body, st, ctx)
        item = node.items[i]

        def body(s, entered):
            if item.optional_vars is not None:
                out = []
                for s2, oc in self.assign(item.optional_vars, entered, s, ctx):
                    out.extend(self.with_items(node, i + 1, s2, ctx) if oc[0] == N else [(s2, oc)])
                return out
            return self.with_items(node, i + 1, s, ctx)

        def f(s, cm):
            return self.run_cm(s, cm, body, item.context_expr, ctx)
        return self.lift(self.eval(item.context_expr, st, ctx), f)

    def run_cm(self, s, cm, body, node, ctx):
        o = s.get(cm) if isinstance(cm, Ref) else None
        if isinstance(o, StreamO) or (isinstance(o, OpaqueO) and o.name == "closing"):
            tgt = cm if isinstance(o, StreamO) else o.data[0]
            out = []
            for s2, oc in body(s, tgt):
                out.extend(self.lift(self.call_attr(s2, tgt, "close", [], {}, node, ctx), lambda s3, _, oc=oc: [(s3, oc)]))
            return out
        if isinstance(o, OpaqueO) and o.name == "suppress":
            out = []
            for s2, oc in body(s, None):
                if oc[0] == EXC:
                    m = exc_matches(oc[1].exc, VTuple(o.data))
                    if m is True:
                        out.append((s2, (N,)))
                        continue
                    if m is None:
                        out.append((s2.clone(), (N,)))
                out.append((s2, oc))
            return out
        if isinstance(o, OpaqueO) and o.name == "nullcontext":
            return body(s, o.data[0] if o.data else None)
        if isinstance(o, OpaqueO) and o.name == "exitstack":
            out = []
            for s2, oc in body(s, cm):
                out.extend(self.unwind_stack(s2, cm, oc, node, ctx))
            return out
        if isinstance(o, BA) or isinstance(cm, (bytes, Bs)):
            return body(s, cm)
        if isinstance(o, GenO) and o.func.cm:
            def handler(s2, v, node2, ctx2):
                out = []
                saved = self.yield_handler
                self.yield_handler = outer
                try:
                    for s3, oc in body(s2, v):
                        if oc[0] == EXC:
                            out.append((s3, oc[1]))
                        else:
                            if oc[0] != N:
                                s3.pending = oc
                            out.append((s3, None))
                finally:
                    self.yield_handler = saved
                return out
            outer = self.yield_handler
            out = []
            for s2, r in self.run_gen(s, o, handler, node, ctx):
                if isinstance(r, Raised):
                    out.append((s2, (EXC, r)))
                elif s2.pending is not None:
                    oc, s2.pending = s2.pending, None
                    out.append((s2, oc))
                else:
                    out.append((s2, (N,)))
            return out
        if isinstance(o, Inst):
            def entered(s2, v):
                out = []
                for s3, oc in body(s2, v):
                    if oc[0] == EXC and not isinstance(oc[1].exc, ConsumerExit):
                        args = [oc[1].exc.cls, oc[1].exc, Sym("traceback", ())]

                        def after(s4, r, oc=oc):
                            res = []
                            for s5, t in self.truth(s4, r, node, ctx):
                                res.append((s5, (N,) if t else oc))
                            return res
                    else:
                        args = [None, None, None]

                        def after(s4, r, oc=oc):
                            return [(s4, oc)]
                    out.extend(self.lift(self.call_attr(s3, cm, "__exit__", args, {}, node, ctx), after))
                return out
            return self.lift(self.call_attr(s, cm, "__enter__", [], {}, node, ctx), entered)
        v = self.unk(s, "context manager not modelled", node, ctx)
        return body(s, v)

    def unwind_stack(self, st, cm, oc, node, ctx):
        o = st.get(cm)
        res = [(st, oc)]
        for cb in reversed(o.data):
            nxt = []
            for s, c in res:
                nxt.extend(self.lift(self.call(s, cb[0], list(cb[1]), dict(cb[2]), node, ctx), lambda s2, _, c=c: [(s2, c)]))
            res = nxt
        return res

    def st_Try(self, node, st, ctx):
        out = []
        for s, oc in self.exec_block(node.body, st, ctx):
            if oc[0] == EXC:
                out.extend(self.handle(node, s, oc, ctx))
            elif oc[0] == N and node.orelse:
                out.extend(self.exec_block(node.orelse, s, ctx))
            else:
                out.append((s, oc))
        if node.finalbody:
            fin = []
            for s, oc in out:
                for s2, oc2 in self.exec_block(node.finalbody, s, ctx):
                    fin.append((s2, oc if oc2[0] == N else oc2))
            out = fin
        return out

    st_TryStar = st_Try

    def handle(self, node, s, oc, ctx):
        exc = oc[1].exc
        if isinstance(exc, ConsumerExit):
            return [(s, oc)]
        out = []
        for h in node.handlers:
            if h.type is None:
                m = True
            else:
                ev = self.eval(h.type, s, ctx)
                s, hv = ev[0]
                m = exc_matches(exc, hv) if not isinstance(hv, Raised) else False
            if m is False:
                continue
            s2 = s if m is True else s.clone()
            saved = ctx.exc
            ctx.exc = oc[1]
            if h.name:
                self.setname(s2, ctx, h.name, exc)
            try:
                out.extend(self.exec_block(h.body, s2, ctx))
            finally:
                ctx.exc = saved
            if m is True:
                return out
        out.append((s, oc))
        return out

    def st_Match(self, node, st, ctx):
        out = []

        def go(s, v):
            live = [s]
            res = []
            for case in node.cases:
                nxt = []
                for s1 in live:
                    for s2, ok in self.match(case.pattern, v, s1, ctx):
                        if ok and case.guard is not None:
                            for s3, g in self.eval(case.guard, s2, ctx):
                                if isinstance(g, Raised):
                                    res.append((s3, (EXC, g)))
                                    continue
                                for s4, t in self.truth(s3, g, case.guard, ctx):
                                    if t:
                                        res.extend(self.exec_block(case.body, s4, ctx))
                                    else:
                                        nxt.append(s4)
                        elif ok:
                            res.extend(self.exec_block(case.body, s2, ctx))
                        else:
                            nxt.append(s2)
                live = nxt
            return res + [(s1, (N,)) for s1 in live]
        out = self.lift(self.eval(node.subject, st, ctx), go)
        return out

    def match(self, p, v, st, ctx):
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.setname(st, ctx, p.name, v)
                return [(st, True)]
            out = []
            for s, ok in self.match(p.pattern, v, st, ctx):
                if ok and p.name:
                    self.setname(s, ctx, p.name, v)
                out.append((s, ok))
            return out
        if isinstance(p, ast.MatchValue):
            out = []
            for s, w in self.eval(p.value, st, ctx):
                if isinstance(w, Raised):
                    continue
                out.extend(self.compare_fork(s, "==", v, w, p, ctx))
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.compare_fork(st, "is", v, p.value, p, ctx)
        if isinstance(p, ast.MatchOr):
            live = [st]
            out = []
            for q in p.patterns:
                nxt = []
                for s in live:
                    for s2, ok in self.match(q, v, s, ctx):
                        (out.append((s2, True)) if ok else nxt.append(s2))
                live = nxt
            return out + [(s, False) for s in live]
        if isinstance(p, ast.MatchSequence):
            items = self.concrete_items(st, v)
            if items is not None and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
                if len(items) != len(p.patterns):
                    return [(st, False)]
                live = [st]
                out = []
                for q, x in zip(p.patterns, items):
                    nxt = []
                    for s in live:
                        for s2, ok in self.match(q, x, s, ctx):
                            (nxt.append(s2) if ok else out.append((s2, False)))
                    live = nxt
                return out + [(s, True) for s in live]
        if isinstance(p, ast.MatchClass) and not p.patterns:
            out = []
            for s, c in self.eval(p.cls, st, ctx):
                if isinstance(c, Raised):
                    continue
                for s2, r in self.call(s, ExtV("builtins.isinstance"), [v, c], {}, p, ctx):
                    for s3, t in self.truth(s2, r, p, ctx):
                        if not t:
                            out.append((s3, False))
                            continue
                        live = [s3]
                        for name, q in zip(p.kwd_attrs, p.kwd_patterns):
                            nxt = []
                            for s4 in live:
                                for s5, x in self.getattr(s4, v, name, p, ctx):
                                    for s6, ok in self.match(q, x, s5, ctx):
                                        (nxt.append(s6) if ok else out.append((s6, False)))
                            live = nxt
                        out.extend((s4, True) for s4 in live)
            return out
        self.unk(st, "match pattern not modelled", p, ctx)
        return [(st.clone(), True), (st, False)]

    # ------------------------------------------------------------------ loops
    def st_While(self, node, st, ctx):
        # concrete unrolling while the condition is decided without forking
        const_true = isinstance(node.test, ast.Constant) and bool(node.test.value)
        if not const_true:
            r = self.try_concrete_while(node, st, ctx)
            if r is not None:
                return r

        def head(s):
            out = []
            for s2, v in self.eval(node.test, s, ctx):
                if isinstance(v, Raised):
                    out.append((s2, v))
                else:
                    out.extend(self.truth(s2, v, node.test, ctx))
            return out
        return self.generic_loop(st, node, head, node.body, node.orelse, ctx)

    def try_concrete_while(self, node, st, ctx):
        """unroll a loop over constants only; None if not applicable"""
        s = st.clone()
        out = []
        live = [s]
        for i in range(300):
            nxt = []
            for s in live:
                rs = self.eval(node.test, s, ctx)
                if len(rs) != 1 or isinstance(rs[0][1], Raised):
                    return None
                s1, v = rs[0]
                if not isinstance(v, (bool, int, bytes, str)) and v is not None:
                    return None
                if not v:
                    out.append((s1, (N,)))
                    continue
                for s2, oc in self.exec_block(node.body, s1, ctx):
                    if oc[0] in (N, CNT):
                        nxt.append(s2)
                    elif oc[0] == BRK:
                        out.append((s2, (N,)))
                    else:
                        out.append((s2, oc))
            live = nxt
            if not live:
                fin = []
                for s1, oc in out:
                    if oc[0] == N and node.orelse:
                        fin.extend(self.exec_block(node.orelse, s1, ctx))
                    else:
                        fin.append((s1, oc))
                return fin
            if len(live) > 4:
                return None
        return None

    def generic_loop(self, st, node, head, body, orelse, ctx):
        """fixpoint over one pass from an arbitrary loop head. Byte strings that in every pass end at a stream's position keep that
        relation at the head; where their length differs from pass to pass, there is one head for every length (a shape)."""
        mod = {}      # loc -> list of observed values
        groups = None
        pre = st
        rel = {}      # loc -> stream id, or False once the relation was refuted
        shapes = [()]
        for rnd in range(12):
            runs = []
            for shape in shapes:
                sth, names = self.havoc(pre.clone(), mod, groups, pre)
                self.impose(sth, shape)
                start = sth.clone()
                nev = len(sth.events)
                iters, exits, outs = [], [], []
                self.loop_pass(sth, head, body, ctx, iters, exits, outs)
                iters = self.finish_at_end(iters, start, head, body, ctx, exits, outs)
                runs.append((shape, start, nev, iters, exits, outs))
            new = {}
            for _, start, _, iters, _, _ in runs:
                for s2 in iters:
                    for l, v in self.changes(start, s2):
                        if l[1] in pre.heap or l[1] in pre.base:
                            new.setdefault(l, []).append(v)
            every = [s for r in runs for s in r[3]]
            grew = False
            for l, vs in new.items():
                if l not in mod:
                    mod[l] = []
                    grew = True
                for v in vs:
                    if not any(type(v) is type(w) and v == w for w in mod[l]):
                        mod[l].append(v)
            # refine equality groups
            g2 = self.refine_groups(pre, every, mod, groups)
            sh2 = self.refine_shapes(pre, every, mod, rel, shapes)
            if not grew and g2 == groups and sh2 == shapes:
                break
            groups, shapes = g2, sh2
        else:
            self.unk(st, "loop analysis did not converge", node, ctx)
        res = []
        loc = self.loc(node, ctx)
        for shape, start, nev, iters, exits, outs in runs:
            rec = LoopRec(node, loc, start, [(s, s.events[nev:]) for s in iters], set(mod), groups, pre,
                          {l: sid for l, sid, _ in shape})
            for s, brk in exits:
                tail = s.events[nev:]
                s.events[nev:] = [("loop", rec)] + tail
                rec.exits.append((s, tail, brk))
                if orelse and not brk:
                    res.extend(self.exec_block(orelse, s, ctx))
                else:
                    res.append((s, (N,)))
            for s, oc in outs:
                tail = s.events[nev:]
                s.events[nev:] = [("loop", rec)] + tail
                rec.exits.append((s, tail, oc))
                res.append((s, oc))
        return res

    def loop_pass(self, sth, head, body, ctx, iters, exits, outs):
        for s1, c in head(sth):
            if isinstance(c, Raised):
                outs.append((s1, (EXC, c)))
            elif not c:
                exits.append((s1, False))
            else:
                for s2, oc in self.exec_block(body, s1, ctx):
                    if oc[0] in (N, CNT):
                        iters.append(s2)
                    elif oc[0] == BRK:
                        exits.append((s2, True))
                    else:
                        outs.append((s2, oc))

    def finish_at_end(self, iters, start, head, body, ctx, exits, outs):
        """passes after which a stream is known to be exhausted are followed to the end of the loop where that takes few passes"""
        keep = []
        for s in iters:
            if not any(isinstance(o, StreamO) and o.eof is not None and isinstance(start.heap.get(i, start.base.get(i)), StreamO)
                       and start.get(Ref(i)).eof is None for i, o in s.heap.items()):
                keep.append(s)
                continue
            live, ex, ou = [s], [], []
            for _ in range(3):
                nxt = []
                for s1 in live:
                    self.loop_pass(s1.clone(), head, body, ctx, nxt, ex, ou)
                live = nxt
                if not live or len(live) > 8:
                    break
            if live:
                keep.append(s)
            else:
                exits.extend(ex)
                outs.extend(ou)
        return keep

    def ends_at(self, st, v):
        """[(stream id, length)] when the bytes are the last ones before a stream's position; b"" fits every stream"""
        if isinstance(v, bytes) and not v:
            return [(None, 0)]
        if not isinstance(v, Bs):
            return []
        gs = list(S.segs_of(st.norm_bs(v)))
        if len(gs) != 1 or gs[0][0] != "s":
            return []
        n = st.norm(S.seglen(gs[0]))
        if not isinstance(n, int) or n > 16:
            return []
        return [(i, n) for i, o in {**st.base, **st.heap}.items()
                if isinstance(o, StreamO) and o.src == gs[0][1] and st.eq(gs[0][3], o.pos) is True]

    def refine_shapes(self, pre, iters, mod, rel, shapes):
        obs = {}
        for l in sorted(mod, key=repr):
            if l[0] not in ("var", "attr") or rel.get(l) is False:
                continue
            seen = []
            for s in [pre] + iters:
                try:
                    v = self.read_loc(s, l)
                except KeyError:
                    v = None
                seen.append(self.ends_at(s, v))
            sids = {i for e in seen for i, n in e if i is not None}
            if not all(seen) or len(sids) != 1 or not (rel.get(l, next(iter(sids))) == next(iter(sids))):
                rel[l] = False
                continue
            rel[l] = next(iter(sids))
            obs[l] = [e[0][1] for e in seen]
        locs = [l for l in sorted(obs, key=repr)]
        res = []
        if not locs:
            return [()]
        for k in range(len(iters) + 1):
            sh = tuple((l, rel[l], obs[l][k]) for l in locs)
            if sh not in res:
                res.append(sh)
        if len(res) > 4:
            for l in locs:
                rel[l] = False
            return [()]
        # shapes that were reached before stay (their passes are still part of the loop)
        for sh in shapes:
            if sh and tuple(x[0] for x in sh) == tuple(locs) and sh not in res:
                res.append(sh)
        return sorted(res, key=repr)

    def impose(self, st, shape):
        for l, sid, n in shape:
            o = st.get(Ref(sid))
            if n:
                st.assume_le(n, o.pos)
            self.write_loc(st, l, b"" if not n else st.norm_bs(S.stream_slice(st, o, st.norm(S.sub(o.pos, n)), o.pos)))

    # locations: ("var", env, name) ("attr", obj, name) ("ba", obj) ("pos", obj) ("obj", obj)
    def changes(self, a, b):
        """differences of pre-existing locations between states a -> b"""
        out = []
        for i in list(b.heap):
            o = b.heap[i]
            p = a.heap.get(i)
            if p is None:
                p = a.base.get(i)
            if p is None or p is o:
                continue
            if isinstance(o, Env):
                for k, v in o.vars.items():
                    if k in p.vars and not same(b, p.vars[k], v):
                        out.append((("var", i, k), v))
            elif isinstance(o, Inst):
                for k in set(o.attrs) | set(p.attrs):
                    v = o.attrs.get(k)
                    if k not in p.attrs or not same(b, p.attrs[k], v):
                        out.append((("attr", i, k), v))
            elif isinstance(o, BA):
                if not same(b, p.content, o.content):
                    out.append((("ba", i), o.content))
            elif isinstance(o, StreamO):
                if not same(b, p.pos, o.pos):
                    out.append((("pos", i), o.pos))
                if o.src is not p.src and isinstance(o.src, (bytes, Bs)) and isinstance(p.src, (bytes, Bs)):
                    if not same(b, p.src, o.src):
                        out.append((("src", i), o.src))
                elif o.size is not p.size and not same(b, p.size, o.size):
                    out.append((("size", i), o.size))
                if o.closed is not p.closed:
                    out.append((("closed", i), o.closed))
            elif type(o) is not type(p):
                out.append((("obj", i), o))
            elif isinstance(o, (ListO, DictO)):
                if o.items != p.items:
                    out.append((("obj", i), o))
            elif isinstance(o, OpaqueO):
                if o.data != p.data:
                    out.append((("obj", i), o))
        return out

    def read_loc(self, st, l):
        o = st.get(l[1])
        if l[0] == "var":
            return o.vars.get(l[2])
        if l[0] == "attr":
            return o.attrs.get(l[2])
        if l[0] == "ba":
            return o.content
        if l[0] == "pos":
            return o.pos
        if l[0] == "size":
            return o.size
        if l[0] == "src":
            return o.src
        if l[0] == "closed":
            return o.closed
        return o

    def write_loc(self, st, l, v):
        o = st.get(l[1])
        if l[0] == "var":
            d = dict(o.vars)
            d[l[2]] = v
            st.put(l[1], Env(d, o.parent, o.globals, o.nonlocals))
        elif l[0] == "attr":
            d = dict(o.attrs)
            d[l[2]] = v
            st.put(l[1], Inst(o.cls, d))
        elif l[0] == "ba":
            st.put(l[1], BA(v))
        elif l[0] == "pos":
            st.put(l[1], o.but(pos=v))
        elif l[0] == "src":
            st.put(l[1], o.but(src=v, size=st.norm(bslen(v))))
        elif l[0] == "size":
            st.put(l[1], o.but(size=v))
        elif l[0] == "closed":
            st.put(l[1], o.but(closed=v))
        elif l[0] == "obj" and isinstance(o, (ListO, DictO, OpaqueO)):
            self.grew |= isinstance(o, DictO)
            if not (self.forgets and isinstance(o, DictO)):
                st.put(l[1], OpaqueO("grown"))       # changed from pass to pass: its contents are not followed

    def int_loc(self, st, l):
        """the integer at a location; ("len", l) is the length of the byte string there"""
        if l[0] != "len":
            v = self.read_loc(st, l)
            return v if isinstance(v, (int, Aff)) and not isinstance(v, bool) else None
        try:
            v = self.read_loc(st, l[1])
            if isinstance(v, Ref):
                v = st.get(v)
                v = v.content if isinstance(v, BA) else None
        except KeyError:
            return None
        return st.norm(S.bslen(v)) if isinstance(v, (bytes, Bs)) else None

    def refine_groups(self, pre, iters, mod, groups):
        """integer locations that stay equal to one another in pre-state and all iteration ends"""
        ints = []
        for l in list(mod) + [("len", l) for l in mod if l[0] in ("attr", "var", "ba")]:
            try:
                if self.int_loc(pre, l) is not None:
                    ints.append(l)
            except KeyError:
                continue
        out = {}
        for l in ints:
            key = [repr(pre.norm(self.int_loc(pre, l)))]
            for s in iters:
                v = self.int_loc(s, l)
                key.append(repr(s.norm(v)) if v is not None else f"?{l}")
            old = groups.get(l) if groups else None
            out[l] = (old[0] if old else 0, tuple(key))
        names = {}
        res = {}
        written = any(l[0] == "pos" and any(e[0] == "write" and isinstance(e[1], Ref) and e[1].id == l[1] for s in iters for e in s.events) for l in ints)
        for l in sorted(out, key=repr):
            gid = names.setdefault(out[l], len(names) + 1)
            # the lowest value before the loop, then 0, then nothing: whichever no pass goes below
            low = pre.range(self.int_loc(pre, l))[0]
            low = int(low) if low >= 0 and low < INF else None
            if groups and l in groups:
                low = groups[l][1]
            vals = [self.int_loc(s, l) for s in iters]
            lows = [s.range(v)[0] if v is not None else -INF for s, v in zip(iters, vals)]
            if low is not None and any(x < low for x in lows):
                low = 0 if low and all(x >= 0 for x in lows) else None
            aligned = written and l[0] != "len" and not (groups and l in groups and not groups[l][2]) and \
                all(s.residue(v, 8) == 0 if v is not None else False for s, v in zip([pre] + iters, [self.int_loc(pre, l)] + vals))
            res[l] = (gid, low, aligned)
        # canonicalise ids by membership
        canon = {}
        fin = {}
        for l in sorted(res, key=repr):
            m = tuple(sorted(repr(x) for x in res if res[x][0] == res[l][0]))
            fin[l] = (canon.setdefault(m, len(canon) + 1), res[l][1], res[l][2])
        return fin

    def havoc(self, st, mod, groups, pre):
        gsym = {}
        groups = groups or {}
        for l in sorted(mod, key=repr):
            try:
                cur = self.read_loc(st, l)
            except KeyError:
                continue
            if l not in groups:
                self.write_loc(st, l, self.havoc_value(st, l, [cur] + list(mod[l])))
        for l in sorted(groups, key=repr):
            if l[0] == "len":
                n = self.int_loc(st, l)
                gid, low, _ = groups[l]
                if n is None:
                    continue
                if gid in gsym:
                    st.assume_eq(n, gsym[gid])
                gsym[gid] = n
                if low is not None:
                    st.assume_le(low, n)
        for l in sorted(mod, key=repr):
            if l in groups:
                gid, low, aligned = groups[l]
                if gid not in gsym:
                    x = atom(fresh(l[2] if len(l) > 2 else l[0], "int"))
                    gsym[gid] = mul(x, 8) if aligned else x
                v = gsym[gid]
                if low is not None:
                    st.assume_le(low, v)
                try:
                    self.write_loc(st, l, v)
                except KeyError:
                    continue
        return st, gsym

    def havoc_value(self, st, l, vals):
        name = str(l[2]) if len(l) > 2 else l[0]
        if l[0] == "closed":
            return Sym("isclosed", (l[1], fresh("c")), "bool")
        if l[0] == "obj":
            return None
        if all(isinstance(v, bool) for v in vals):
            return fresh(name, "bool")
        if all(isinstance(v, (int, Aff)) for v in vals):
            return atom(fresh(name, "int"))
        if all(isinstance(v, EnumVal) for v in vals) and len({v.cls for v in vals}) == 1:
            return EnumVal(vals[0].cls, atom(fresh(name, "int")))
        if all(isinstance(v, (int, Aff, EnumVal)) for v in vals):
            return atom(fresh(name, "int"))
        if all(isinstance(v, (bytes, Bs)) for v in vals):
            return opaque_bytes(fresh(name, "bytes"))
        if all(isinstance(v, str) or (isinstance(v, Sym) and v.ty == "str") for v in vals):
            return fresh(name, "str")
        if all(isinstance(v, (float, int)) or (isinstance(v, (Sym,)) and v.ty == "float") or isinstance(v, Aff) for v in vals):
            return fresh(name, "float")
        if all(isinstance(v, Ref) for v in vals):
            objs = []
            for v in vals:
                try:
                    objs.append(st.get(v))
                except KeyError:
                    objs.append(None)
            kn = [o for o in objs if o is not None]
            if kn and all(isinstance(o, BA) for o in kn):
                return st.alloc(BA(opaque_bytes(fresh(name, "bytes"))))
            if kn and all(isinstance(o, Inst) and o.cls is kn[0].cls for o in kn):
                return self.fresh_like(st, Ref(vals[0].id) if objs[0] is not None else vals[objs.index(kn[0])], name)
            if kn and all(isinstance(o, StreamO) for o in kn):
                return st.alloc(StreamO(atom(fresh(name + ".pos", "int")), fresh(name + ".src", "bytes"), kn[0].kind))
        if len({v.ty for v in vals if isinstance(v, Sym)}) == 1 and all(isinstance(v, Sym) for v in vals):
            return fresh(name, vals[0].ty)
        return fresh(name, "any")

    def fresh_like(self, st, ref, name):
        o = st.get(ref)
        attrs = {}
        for k, v in o.attrs.items():
            if isinstance(v, Ref) and isinstance(st.get(v), Inst):
                attrs[k] = self.fresh_like(st, v, f"{name}.{k}")
            else:
                attrs[k] = self.havoc_value(st, ("attr", 0, f"{name}.{k}"), [v])
        return st.alloc(Inst(o.cls, attrs))

    def st_For(self, node, st, ctx):
        def go(s, it):
            items = self.concrete_items(s, it)
            if items is not None:
                live = [s]
                out = []
                for x in items:
                    nxt = []
                    for s1 in live:
                        for s2, oc in self.assign(node.target, x, s1, ctx):
                            if oc[0] != N:
                                out.append((s2, oc))
                                continue
                            for s3, oc3 in self.exec_block(node.body, s2, ctx):
                                if oc3[0] in (N, CNT):
                                    nxt.append(s3)
                                elif oc3[0] == BRK:
                                    out.append((s3, (N,)))
                                else:
                                    out.append((s3, oc3))
                    live = self.join(nxt)
                for s1 in live:
                    out.extend(self.exec_block(node.orelse, s1, ctx) if node.orelse else [(s1, (N,))])
                return out
            o = s.get(it) if isinstance(it, Ref) else None
            if isinstance(o, GenO) and not self.is_recursive(o):
                token = object()
                outer = self.yield_handler

                def handler(s2, v, node2, ctx2):
                    out = []
                    saved = self.yield_handler
                    self.yield_handler = outer
                    try:
                        for s3, oc in self.assign(node.target, v, s2, ctx):
                            if oc[0] != N:
                                out.append((s3, oc[1]))
                                continue
                            for s4, oc4 in self.exec_block(node.body, s3, ctx):
                                if oc4[0] in (N, CNT):
                                    out.append((s4, None))
                                elif oc4[0] == EXC:
                                    out.append((s4, Raised(ConsumerExit(oc4, token), oc4[1].loc)))
                                else:
                                    out.append((s4, Raised(ConsumerExit(oc4, token), self.loc(node, ctx))))
                    finally:
                        self.yield_handler = saved
                    return out
                out = []
                for s2, r in self.run_gen(s, o, handler, node, ctx):
                    if isinstance(r, Raised):
                        if isinstance(r.exc, ConsumerExit) and r.exc.token is token:
                            oc = r.exc.outcome
                            out.append((s2, (N,) if oc[0] == BRK else oc))
                        else:
                            out.append((s2, (EXC, r)))
                    else:
                        out.extend(self.exec_block(node.orelse, s2, ctx) if node.orelse else [(s2, (N,))])
                return out
            name = "elem"
            if isinstance(o, GenO):
                s.events.append(("recgen", o.func, tuple(o.args), s.clone(), self.loc(node, ctx)))
                name = "recelem"
                self.rec_havoc(s, o)
                s.events.append(("recyield", s.clone()))

            def head(s1):
                x = Sym(name, (it if not isinstance(it, Ref) else ("obj", it.id), fresh("i")), "any")
                s_end = s1.clone()
                out = [(s_end, False)]
                for s2, oc in self.assign(node.target, x, s1, ctx):
                    out.append((s2, True) if oc[0] == N else (s2, oc[1]))
                return out
            if name == "elem" and not (isinstance(it, Sym) and it.tag != "unk"):
                self.unk(s, "iteration over a value that is not modelled", node, ctx)
            return self.generic_loop(s, node, head, node.body, node.orelse, ctx)
        return self.lift(self.eval(node.iter, st, ctx), go)

    st_AsyncFor = st_For

    def is_recursive(self, g):
        return any(f is g.func for f in self.gen_active)

    def ways(self, st, func, args):
        """object id -> way to it from a function and its arguments"""
        out = {}
        todo = [(a, (i,)) for i, a in enumerate(args)]
        e, k = func.env, 0
        while e is not None and e != self.program.modenv(func.mod):
            todo.append((e, ("env", k)))
            e, k = st.get(e).parent, k + 1
        while todo:
            v, way = todo.pop(0)
            if isinstance(v, VTuple):
                todo.extend((x, way + (i,)) for i, x in enumerate(v.items))
            elif isinstance(v, BoundV):
                todo.append((v.self, way + ("self",)))
            if not isinstance(v, Ref) or v.id in out or len(way) > 6:
                continue
            out[v.id] = way
            try:
                o = st.get(v)
            except KeyError:
                continue
            if isinstance(o, Inst):
                todo.extend((o.attrs[n], way + (n,)) for n in sorted(o.attrs))
            elif isinstance(o, Env):
                todo.extend((o.vars[n], way + (n,)) for n in sorted(o.vars))
            elif isinstance(o, ListO):
                todo.extend((x, way + (i,)) for i, x in enumerate(o.items))
        return out

    def rec_havoc(self, st, g):
        """effects of a recursive generator run on objects that outlive it"""
        back = None
        for l, vals in self.rec_mod.get(g.func.qual, {}).items():
            if l[0] == "via":
                if back is None:
                    back = {w: i for i, w in self.ways(st, g.func, g.args).items()}
                if l[1] not in back:
                    st.unk.append("an object that a nested object source uses")
                    continue
                l = (l[2], back[l[1]]) + l[3:]
            try:
                cur = self.read_loc(st, l)
            except KeyError:
                continue
            self.write_loc(st, l, self.havoc_value(st, l, [cur] + vals))

    def run_gen(self, st, g, handler, node, ctx):
        """run generator body; each yield calls handler(st, v, node, ctx) -> [(st, sent | Raised)]"""
        saved = self.yield_handler
        self.yield_handler = handler
        self.gen_active.append(g.func)
        try:
            return self.invoke(st, g.func, list(g.args), dict(g.kwargs), node, ctx, as_gen=True)
        finally:
            self.gen_active.pop()
            self.yield_handler = saved

    def concrete_items(self, st, it):
        if isinstance(it, VTuple):
            return list(it.items)
        if isinstance(it, (bytes, str)):
            return list(it)
        if isinstance(it, ClassV) and it.enum:
            seen, out = set(), []
            for k, v in it.members.items():
                if v not in seen:
                    seen.add(v)
                    out.append(EnumVal(it, v))
            return out
        if isinstance(it, Ref):
            o = st.get(it)
            if isinstance(o, ListO):
                return list(o.items)
            if isinstance(o, DictO):
                return [k for k, _ in o.items]
            if isinstance(o, IterO):
                items = list(o.items[o.i:])
                if items and isinstance(items[-1], self.models.ThenRaise):
                    return None
                st.put(it, IterO(o.items, len(o.items)))
                return items
            if isinstance(o, BA):
                return list(o.content) if isinstance(o.content, bytes) else self.byte_items(st, o.content)
            if isinstance(o, Inst):
                return None
        return self.byte_items(st, it) if isinstance(it, Bs) else None

    def byte_items(self, st, b):
        """the numbers in a byte string of known length"""
        n = st.norm(bslen(b))
        return [S.read_item(st, b, i, "u1", 1) for i in range(n)] if isinstance(n, int) and n <= 64 else None

    # ------------------------------------------------------------------ names and assignment
    def getname(self, st, ctx, name, node):
        e = ctx.env
        first = True
        while e is not None:
            o = st.get(e)
            if first and name in o.globals:
                break
            first = False
            if name in o.vars:
                return [(st, o.vars[name])]
            e = o.parent
        if e is not None:
            g = self.program.modenv(ctx.mod)
            o = st.get(g)
            if name in o.vars:
                return [(st, o.vars[name])]
        if name == "__name__":
            return [(st, ctx.mod)]
        if not st.unk and name in straight_locals(getattr(ctx.func, "node", None)):
            return self.raise_(st, "builtins.UnboundLocalError", node, ctx, name)
        if hasattr(_bi, name):
            return [(st, ExtV("builtins." + name))]
        if not st.unk and getattr(ctx.func, "env", None) == self.program.modenv(ctx.mod) and name not in stored_names(ctx.func.node) \
                and not self.program.bound_somewhere(ctx.mod, name):
            return self.raise_(st, "builtins.NameError", node, ctx, name)
        return [(st, self.unk(st, f"name {name!r} not bound here", node, ctx))]

    def setname(self, st, ctx, name, v):
        e = ctx.env
        o = st.get(e)
        if name in o.globals:
            e = self.program.modenv(ctx.mod)
            o = st.get(e)
            st.events.append(("globalstore", ctx.mod, name, v, ctx.qual))
        elif name in o.nonlocals:
            e = o.parent
            while e is not None and name not in st.get(e).vars:
                e = st.get(e).parent
            if e is None:
                e = ctx.env
            o = st.get(e)
        d = dict(o.vars)
        d[name] = v
        st.put(e, Env(d, o.parent, o.globals, o.nonlocals))

    def assign(self, t, v, st, ctx):
        if isinstance(t, ast.Name):
            self.setname(st, ctx, t.id, v)
            return [(st, (N,))]
        if isinstance(t, ast.Attribute):
            return self.lift(self.eval(t.value, st, ctx), lambda s, o: self.lift(self.setattr(s, o, t.attr, v, t, ctx)))
        if isinstance(t, ast.Subscript):
            return self.lift(self.evals([t.value, t.slice], st, ctx),
                             lambda s, vs: self.lift(self.set_item(s, vs[0], vs[1], v, t, ctx)))
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Ref) and self.models.finite_helper(self, st, v):
                out = []
                for s, r in self.models.settle(self, st, v, t, ctx):
                    out.extend([(s, (EXC, r))] if isinstance(r, Raised) else self.assign(t, v, s, ctx))
                return out
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            items = self.concrete_items(st, v)
            if items is None:
                if isinstance(v, Sym):
                    items = [Sym("item", (v, i), "any") for i in range(n - len(star))]
                    if star:
                        items.insert(star[0], Sym("rest", (v, star[0]), "any"))
                        return self._assign_all(t, items, st, ctx, star_done=True)
                else:
                    u = self.unk(st, "unpacking of a value that is not modelled", t, ctx)
                    items = [Sym("item", (u, i), "any") for i in range(n)]
            if star:
                i = star[0]
                k = len(items) - (n - 1)
                items = items[:i] + [st.alloc(ListO(items[i:i + k]))] + items[i + k:]
            if len(items) != n:
                return [(st, (EXC, Raised(ExcV(ExtV("builtins.ValueError"), ("unpack",), node=t), self.loc(t, ctx))))]
            return self._assign_all(t, items, st, ctx)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, ctx)
        self.unk(st, "assignment target", t, ctx)
        return [(st, (N,))]

    def _assign_all(self, t, items, st, ctx, star_done=False):
        live = [(st, (N,))]
        for e, x in zip(t.elts, items):
            if isinstance(e, ast.Starred):
                e = e.value
            nxt = []
            for s, oc in live:
                nxt.extend(self.assign(e, x, s, ctx) if oc[0] == N else [(s, oc)])
            live = nxt
        return live

    # ------------------------------------------------------------------ expressions
    def eval(self, node, st, ctx):
        m = getattr(self, "ex_" + type(node).__name__, None)
        if m is None:
            return [(st, self.unk(st, f"expression {type(node).__name__} not modelled", node, ctx))]
        return m(node, st, ctx)

    def ex_Constant(self, node, st, ctx):
        return [(st, node.value)]

    def ex_Name(self, node, st, ctx):
        return self.getname(st, ctx, node.id, node)

    def ex_Attribute(self, node, st, ctx):
        return self.bind(self.eval(node.value, st, ctx), lambda s, v: self.getattr(s, v, node.attr, node, ctx))

    def ex_Tuple(self, node, st, ctx):
        return self.seq_display(node, st, ctx, lambda s, items: VTuple(items))

    def ex_List(self, node, st, ctx):
        return self.seq_display(node, st, ctx, lambda s, items: s.alloc(ListO(items)))

    def ex_Set(self, node, st, ctx):
        return self.seq_display(node, st, ctx, lambda s, items: s.alloc(ListO(_dedup(items), "set")))

    def seq_display(self, node, st, ctx, make):
        def f(s, vals):
            stars = [v for e, v in zip(node.elts, vals) if isinstance(e, ast.Starred)]
            if any(isinstance(v, Ref) and self.models.finite_helper(self, s, v) for v in stars):
                out = []
                for s2, r in self.models.settle_all(self, s, stars, node, ctx):
                    out.extend([(s2, r)] if isinstance(r, Raised) else f(s2, vals))
                return out
            items = []
            for e, v in zip(node.elts, vals):
                if isinstance(e, ast.Starred):
                    c = self.concrete_items(s, v)
                    if c is None:
                        items.append(Sym("star", (v,), "any") if not isinstance(v, Ref) else
                                     self.unk(s, "star expression", e, ctx))
                    else:
                        items.extend(c)
                else:
                    items.append(v)
            return [(s, make(s, items))]
        return self.bind(self.evals([e.value if isinstance(e, ast.Starred) else e for e in node.elts], st, ctx), f)

    def ex_Dict(self, node, st, ctx):
        nodes = []
        for k, v in zip(node.keys, node.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)

        def f(s, vals):
            items = []
            i = 0
            for k in node.keys:
                if k is None:
                    o = s.get(vals[i]) if isinstance(vals[i], Ref) else None
                    i += 1
                    if isinstance(o, DictO):
                        for kk, vv in o.items:
                            items = _dset(items, kk, vv)
                    else:
                        self.unk(s, "dict unpacking", node, ctx)
                else:
                    items = _dset(items, vals[i], vals[i + 1])
                    i += 2
            return [(s, s.alloc(DictO(items)))]
        return self.bind(self.evals(nodes, st, ctx), f)

    def ex_Starred(self, node, st, ctx):
        return self.eval(node.value, st, ctx)

    def ex_Slice(self, node, st, ctx):
        nodes = [x for x in (node.lower, node.upper, node.step) if x is not None]

        def f(s, vals):
            vals = list(vals)
            r = [vals.pop(0) if x is not None else None for x in (node.lower, node.upper, node.step)]
            return [(s, Slice(*r))]
        return self.bind(self.evals(nodes, st, ctx), f)

    def ex_NamedExpr(self, node, st, ctx):
        def f(s, v):
            self.setname(s, ctx, node.target.id, v)
            return [(s, v)]
        return self.bind(self.eval(node.value, st, ctx), f)

    def ex_Lambda(self, node, st, ctx):
        def f(s, vals):
            return [(s, FuncV("<lambda>", ctx.qual + ".<lambda>", node, ctx.mod, ctx.env, vals, {}, ctx.cls))]
        return self.bind(self.evals(node.args.defaults, st, ctx), f)

    def ex_IfExp(self, node, st, ctx):
        out = []
        for s, v in self.eval(node.test, st, ctx):
            if isinstance(v, Raised):
                out.append((s, v))
                continue
            for s2, t in self.truth(s, v, node.test, ctx):
                out.extend(self.eval(node.body if t else node.orelse, s2, ctx))
        return out

    def ex_BoolOp(self, node, st, ctx):
        is_and = isinstance(node.op, ast.And)

        def go(i, s):
            res = self.eval(node.values[i], s, ctx)
            if i == len(node.values) - 1:
                return res
            out = []
            for s2, v in res:
                if isinstance(v, Raised):
                    out.append((s2, v))
                    continue
                for s3, t in self.truth(s2, v, node.values[i], ctx):
                    if t == is_and:
                        out.extend(go(i + 1, s3))
                    else:
                        out.append((s3, self.refine_truth(s3, v, t)))
            return out
        return go(0, st)

    def refine_truth(self, st, v, t):
        if isinstance(v, Sym) and v.ty == "bool":
            return t
        if isinstance(v, Aff) and not t:
            return 0
        if isinstance(v, Bs) and not t:
            return b""
        return v

    def ex_UnaryOp(self, node, st, ctx):
        def f(s, v):
            if isinstance(node.op, ast.Not):
                return [(s2, not t) for s2, t in self.truth(s, v, node, ctx)]
            if isinstance(v, EnumVal):
                if isinstance(node.op, ast.Invert) and v.cls.enum in ("flag", "pflag") and isinstance(v.v, int):
                    allb = 0
                    for m in v.cls.members.values():
                        allb |= m
                    return [(s, EnumVal(v.cls, allb & ~v.v))]
                v = v.v
            if isinstance(v, (int, float)):
                return [(s, -v if isinstance(node.op, ast.USub) else ~v if isinstance(node.op, ast.Invert) else +v)]
            if isinstance(v, Aff):
                if isinstance(node.op, ast.USub):
                    return [(s, mul(v, -1))]
                if isinstance(node.op, ast.Invert):
                    return [(s, sub(mul(v, -1), 1))]
                return [(s, v)]
            if isinstance(v, Sym) and v.ty == "float" and isinstance(node.op, ast.USub):
                return [(s, Sym("fop", ("-", 0, v), "float"))]
            return [(s, Sym("unary", (type(node.op).__name__, v), v.ty if isinstance(v, Sym) else "any"))]
        return self.bind(self.eval(node.operand, st, ctx), f)

    def ex_BinOp(self, node, st, ctx):
        return self.bind(self.evals([node.left, node.right], st, ctx),
                         lambda s, v: self.binop(s, node.op, v[0], v[1], node, ctx))

    def ex_Compare(self, node, st, ctx):
        def go(i, s, left):
            out = []
            for s2, right in self.eval(node.comparators[i], s, ctx):
                if isinstance(right, Raised):
                    out.append((s2, right))
                    continue
                rs = self.compare(s2, _CMP[type(node.ops[i])], left, right, node, ctx)
                if i == len(node.ops) - 1:
                    out.extend(rs)
                    continue
                for s3, c in rs:
                    if isinstance(c, Raised):
                        out.append((s3, c))
                        continue
                    for s4, t in self.truth(s3, c, node, ctx):
                        out.extend(go(i + 1, s4, right) if t else [(s4, False)])
            return out
        return self.bind(self.eval(node.left, st, ctx), lambda s, v: go(0, s, v))

    def ex_Subscript(self, node, st, ctx):
        return self.bind(self.evals([node.value, node.slice], st, ctx),
                         lambda s, v: self.get_item(s, v[0], v[1], node, ctx))

    def ex_JoinedStr(self, node, st, ctx):
        nodes = [v.value for v in node.values if isinstance(v, ast.FormattedValue)]

        def f(s, vals):
            vals = list(vals)
            parts_ = []
            conc = True
            for v in node.values:
                if isinstance(v, ast.Constant):
                    parts_.append(v.value)
                else:
                    x = vals.pop(0)
                    if isinstance(x, (int, str)) and not isinstance(x, bool) and v.format_spec is None and v.conversion == -1:
                        parts_.append(str(x))
                    else:
                        conc = False
                        plain = v.format_spec is None and v.conversion == -1
                        parts_.append(x if isinstance(x, (Sym, str)) and plain else Sym("fmt", (_h(x),), "str") if plain else
                                      Sym("fmt", (_h(x), v.conversion, ast.dump(v.format_spec) if v.format_spec else ""), "str"))
            if conc:
                return [(s, "".join(parts_))]
            if len(parts_) == 1 and isinstance(parts_[0], Sym) and parts_[0].ty == "str" and parts_[0].tag != "fmt":
                return [(s, parts_[0])]
            return [(s, Sym("fstr", tuple(parts_), "str"))]
        return self.bind(self.evals(nodes, st, ctx), f)

    def ex_Yield(self, node, st, ctx):
        def f(s, v):
            if self.yield_handler is None:
                self.unk(s, "yield outside analysed generator", node, ctx)
                return [(s, None)]
            return self.yield_handler(s, v, node, ctx)
        if node.value is None:
            return f(st, None)
        return self.bind(self.eval(node.value, st, ctx), f)

    def ex_YieldFrom(self, node, st, ctx):
        def f(s, it):
            items = self.concrete_items(s, it)
            if items is not None:
                res = [(s, None)]
                for x in items:
                    res = self.bind(res, lambda s2, _: self.yield_handler(s2, x, node, ctx))
                return self.bind(res, lambda s2, _: [(s2, None)])
            o = s.get(it) if isinstance(it, Ref) else None
            if isinstance(o, GenO):
                if self.is_recursive(o):
                    s.events.append(("recgen", o.func, tuple(o.args), s.clone(), self.loc(node, ctx)))
                    self.rec_havoc(s, o)
                    s.events.append(("recyield", s.clone()))
                    return [(s, Sym("genret", (fresh("ret"),), "any"))]
                if o.started:
                    s.events.append(("yieldfrom", it, self.loc(node, ctx)))
                    return [(s, Sym("genret", (fresh("ret"),), "any"))]
                return self.run_gen(s, o, self.yield_handler, node, ctx)
            s.events.append(("yieldfrom", it, self.loc(node, ctx)))
            return [(s, Sym("genret", (fresh("ret"),), "any"))]
        return self.bind(self.eval(node.value, st, ctx), f)

    def comp(self, node, st, ctx, elts, finish):
        """comprehension; elts: expressions to evaluate per item"""
        env = st.alloc(Env({}, ctx.env))
        c2 = Ctx(env, ctx.func, ctx.mod, ctx.file, ctx.qual, ctx.cls)
        c2.exc = ctx.exc

        def gen(i, s, acc):
            """-> [(st, acc | Raised)]"""
            if i == len(node.generators):
                return [(s2, v if isinstance(v, Raised) else acc + [tuple(v)]) for s2, v in self.evals(elts, s, c2)]
            g = node.generators[i]
            out = []
            for s1, it in self.eval(g.iter, s, c2 if i else ctx):
                if isinstance(it, Raised):
                    out.append((s1, it))
                    continue
                items = self.concrete_items(s1, it)
                if items is None:
                    if isinstance(it, Sym) and it.tag != "unk" or isinstance(it, Bs):
                        out.append((s1, [("symcomp", it)]))
                    else:
                        u = self.unk(s1, "comprehension over a value that is not modelled", node, ctx)
                        out.append((s1, [("symcomp", u)]))
                    continue
                live = [(s1, acc)]
                for x in items:
                    nxt = []
                    for s2, a in live:
                        if isinstance(a, Raised):
                            nxt.append((s2, a))
                            continue
                        for s3, oc in self.assign(g.target, x, s2, c2):
                            if oc[0] != N:
                                nxt.append((s3, oc[1]))
                                continue
                            conds = [(s3, True)]
                            for cnd in g.ifs:
                                c3 = []
                                for s4, ok in conds:
                                    if ok is not True:
                                        c3.append((s4, ok))
                                        continue
                                    for s5, cv in self.eval(cnd, s4, c2):
                                        if isinstance(cv, Raised):
                                            c3.append((s5, cv))
                                        else:
                                            c3.extend(self.truth(s5, cv, cnd, ctx))
                                conds = c3
                            for s4, ok in conds:
                                if isinstance(ok, Raised):
                                    nxt.append((s4, ok))
                                elif ok:
                                    nxt.extend(gen(i + 1, s4, a))
                                else:
                                    nxt.append((s4, a))
                    live = nxt
                out.extend(live)
            return out
        return [(s, a if isinstance(a, Raised) else finish(s, a)) for s, a in gen(0, st, [])]

    def _symcomp(self, s, acc, node):
        for a in acc:
            if a and a[0] == "symcomp":
                key = ast.dump(node)
                COMPS.setdefault(key, node)
                return Sym("comp", (_h(a[1]), key), "any")
        return None

    def ex_ListComp(self, node, st, ctx):
        return self.comp(node, st, ctx, [node.elt],
                         lambda s, a: self._symcomp(s, a, node) or s.alloc(ListO([x[0] for x in a])))

    def ex_GeneratorExp(self, node, st, ctx):
        return self.comp(node, st, ctx, [node.elt],
                         lambda s, a: self._symcomp(s, a, node) or s.alloc(IterO(tuple(x[0] for x in a))))

    def ex_SetComp(self, node, st, ctx):
        return self.comp(node, st, ctx, [node.elt],
                         lambda s, a: self._symcomp(s, a, node) or s.alloc(ListO(_dedup([x[0] for x in a]), "set")))

    def ex_DictComp(self, node, st, ctx):
        def fin(s, a):
            y = self._symcomp(s, a, node)
            if y is not None:
                return y
            items = []
            for k, v in a:
                items = _dset(items, k, v)
            return s.alloc(DictO(items))
        return self.comp(node, st, ctx, [node.key, node.value], fin)

    def ex_Call(self, node, st, ctx):
        starred = [i for i, a in enumerate(node.args) if isinstance(a, ast.Starred)]

        def f(s, vals):
            if starred:
                stars = [vals[i + 1] for i in starred]
                if any(isinstance(v, Ref) and self.models.finite_helper(self, s, v) for v in stars):
                    out = []
                    for s2, r in self.models.settle_all(self, s, stars, node, ctx):
                        out.extend([(s2, r)] if isinstance(r, Raised) else f(s2, vals))
                    return out
            fv = vals[0]
            i = 1
            args, kwargs = [], {}
            for a in node.args:
                v = vals[i]
                i += 1
                if isinstance(a, ast.Starred):
                    items = self.concrete_items(s, v)
                    if items is None:
                        if isinstance(v, Sym):
                            args.append(Sym("star", (v,), "any"))
                        else:
                            args.append(Sym("star", (self.unk(s, "star argument not modelled", a, ctx),), "any"))
                    else:
                        args.extend(items)
                else:
                    args.append(v)
            for k in node.keywords:
                v = vals[i]
                i += 1
                if k.arg is None:
                    o = s.get(v) if isinstance(v, Ref) else None
                    if isinstance(o, DictO) and all(isinstance(x, str) for x, _ in o.items):
                        kwargs.update(o.items)
                    else:
                        self.unk(s, "** argument not modelled", node, ctx)
                else:
                    kwargs[k.arg] = v
            return self.call(s, fv, args, kwargs, node, ctx)
        if isinstance(node.func, ast.Name) and node.func.id == "super" and not node.args:
            return self.zero_super(st, node, ctx)
        nodes = [node.func] + [a.value if isinstance(a, ast.Starred) else a for a in node.args] + [k.value for k in node.keywords]
        return self.bind(self.evals(nodes, st, ctx), f)

    def zero_super(self, st, node, ctx):
        e = st.get(ctx.env)
        if ctx.func is not None and ctx.func.node.args.args and ctx.func.owner is not None:
            n = ctx.func.node.args.args[0].arg
            if n in e.vars:
                return [(st, SuperV(ctx.func.owner, e.vars[n]))]
        return [(st, self.unk(st, "super()", node, ctx))]

    # ------------------------------------------------------------------ truth
    def truth(self, st, v, node, ctx):
        """-> [(st, bool)]"""
        if v is None:
            return [(st, False)]
        if isinstance(v, (bool, int, float, str, bytes)):
            return [(st, bool(v))]
        if isinstance(v, EnumVal):
            if v.cls.enum == "enum":
                return [(st, True)]
            return self.truth(st, v.v, node, ctx)
        if isinstance(v, Aff):
            return [(s, not t) for s, t in self.fork_eq(st, v, 0)]
        if isinstance(v, Bs):
            n = st.norm(bslen(v))
            return [(s, not t) for s, t in self.fork_eq(st, n, 0)]
        if isinstance(v, VTuple):
            return [(st, bool(v.items))]
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, BA):
                return self.truth(st, o.content, node, ctx)
            if isinstance(o, (ListO, DictO)):
                return [(st, bool(o.items))]
            if isinstance(o, OpaqueO) and o.name == "grown":
                return self.fork_bool(st, self.unk(st, "a collection that changes in a loop", node, ctx, "bool"))
            if isinstance(o, Inst):
                for m in ("__bool__", "__len__"):
                    f = self.class_attr(st, o.cls, m)
                    if f is not None:
                        out = []
                        for s, r in self.call_attr(st, v, m, [], {}, node, ctx):
                            if not isinstance(r, Raised):
                                out.extend(self.truth(s, r, node, ctx))
                        return out
            return [(st, True)]
        if S.from_generator(v) and not self.program.has_truth_methods():
            return [(st, True)]
        if isinstance(v, Sym):
            return self.fork_bool(st, v)
        return [(st, True)]

    def fork_eq(self, st, a, b):
        d = st.eq(a, b)
        if d is not None:
            return [(st, d)]
        s2 = st.clone()
        out = []
        if st.assume_eq(a, b, True):
            out.append((st, True))
        if s2.assume_eq(a, b, False):
            out.append((s2, False))
        return out

    def fork_le(self, st, a, b):
        d = st.le(a, b)
        if d is not None:
            return [(st, d)]
        s2 = st.clone()
        out = []
        if st.assume_le(a, b, True):
            out.append((st, True))
        if s2.assume_le(a, b, False):
            out.append((s2, False))
        return out

    def fork_bool(self, st, v):
        v = st.norm(v) if isinstance(v, Sym) else v
        if isinstance(v, bool):
            return [(st, v)]
        if not isinstance(v, Sym):
            return self.truth(st, v, None, None)
        if v.ty == "datetime":
            return [(st, True)]
        if v.tag == "not":
            return [(s, not t) for s, t in self.fork_bool(st, v.args[0])]
        if v.tag == "le":
            return self.fork_le(st, v.args[0], v.args[1])
        if v.tag == "eq":
            return self.fork_eq(st, v.args[0], v.args[1])
        if v.tag == "beq":
            n = self.beq_decide(st, v.args[0], v.args[1])
            if n is not None:
                return [(st, n)]
        if v.tag == "isinst":
            for k, val in st.bools.items():
                if k.tag == "isinst" and k.args[0] is v.args[0]:
                    if val and set(k.args[1]) <= set(v.args[1]):
                        return [(st, True)]
                    if not val and set(v.args[1]) <= set(k.args[1]):
                        return [(st, False)]
        if v in st.bools:
            return [(st, st.bools[v])]
        if v.ty == "str":
            n = text_len(st, v)
            if n is not None:
                return [(s, not z) for s, z in self.fork_eq(st, n, 0)]
        s2 = st.clone()
        st.bools[v] = True
        s2.bools[v] = False
        out = []
        if v.tag == "beq":
            # equal byte strings have equal lengths
            if st.assume_eq(bslen(v.args[0]), bslen(v.args[1]), True):
                out.append((st, True))
        else:
            out.append((st, True))
        out.append((s2, False))
        return out

    def beq_decide(self, st, a, b):
        a, b = st.norm_bs(a), st.norm_bs(b)
        if isinstance(a, bytes) and isinstance(b, bytes):
            return a == b
        if a == b:
            return True
        if st.eq(bslen(a), bslen(b)) is False:
            return False
        for k, val in st.bools.items():
            if k.tag == "beq":
                x, y = st.norm_bs(k.args[0]), st.norm_bs(k.args[1])
                if {x, y} == {a, b}:
                    return val
        # some aligned part differs
        ga, gb = list(S.segs_of(a)), list(S.segs_of(b))
        while ga and gb:
            x, y = ga.pop(0), gb.pop(0)
            if x[0] in "cz" and y[0] in "cz":
                bx, by = (g[1] if g[0] == "c" else g[1] for g in (x, y))
                bx, by = (v if isinstance(v, bytes) else bytes(v) if isinstance(v, int) and v < 4096 else None for v in (bx, by))
                if bx is None or by is None:
                    break
                n = min(len(bx), len(by))
                if bx[:n] != by[:n]:
                    return False
                if bx[n:]:
                    ga.insert(0, ("c", bx[n:]))
                if by[n:]:
                    gb.insert(0, ("c", by[n:]))
                continue
            if st.eq(S.seglen(x), S.seglen(y)) is not True:
                break
            n = st.norm(S.seglen(x))
            if n in (1, 2, 4, 8):
                vx, vy = (S.read_item(st, S.mkbs([g]), 0, f"u{n}", n) for g in (x, y))
                if isinstance(vx, (int, Aff)) and isinstance(vy, (int, Aff)) and st.eq(vx, vy) is False:
                    return False
        return None

    # ------------------------------------------------------------------ calls
    def call_attr(self, st, obj, name, args, kwargs, node, ctx):
        return self.bind(self.getattr(st, obj, name, node, ctx), lambda s, f: self.call(s, f, args, kwargs, node, ctx))

    def call(self, st, fv, args, kwargs, node, ctx):
        if args and self.models.consumes(fv):
            outs = self.models.settle_all(self, st, args, node, ctx)
            if len(outs) != 1 or outs[0][0] is not st or outs[0][1] is not None:
                out = []
                for s, r in outs:
                    out.extend([(s, r)] if isinstance(r, Raised) else self._call(s, fv, args, kwargs, node, ctx))
                return out
        return self._call(st, fv, args, kwargs, node, ctx)

    def _call(self, st, fv, args, kwargs, node, ctx):
        if isinstance(fv, BoundV):
            return self.call(st, fv.func, [fv.self] + args, kwargs, node, ctx)
        if isinstance(fv, (StaticM, ClassM)):
            return self.call(st, fv.f, args, kwargs, node, ctx)
        if isinstance(fv, CachedV):
            rs = self.call(st, fv.f, list(fv.args) + args, {**fv.kwargs, **kwargs}, node, ctx)
            for s, r in rs:
                if not isinstance(r, Raised):
                    s.events.append(("cached", fv.f, tuple(fv.args) + tuple(args) + tuple(kwargs.values()), r, self.loc(node, ctx) if node is not None else ""))
            return rs
        if isinstance(fv, PartialV):
            return self.call(st, fv.f, list(fv.args) + args, {**fv.kwargs, **kwargs}, node, ctx)
        if isinstance(fv, FuncV):
            if fv.is_gen:
                return [(st, st.alloc(GenO(fv, tuple(args), dict(kwargs))))]
            return self.invoke(st, fv, args, kwargs, node, ctx)
        if isinstance(fv, ClassV):
            return self.instantiate(st, fv, args, kwargs, node, ctx)
        if isinstance(fv, BM):
            return self.models.method(self, st, fv.self, fv.name, args, kwargs, node, ctx)
        if isinstance(fv, ExtV):
            return self.models.ext_call(self, st, fv, args, kwargs, node, ctx)
        if isinstance(fv, Ref):
            o = st.get(fv)
            if isinstance(o, Inst):
                return self.call_attr(st, fv, "__call__", args, kwargs, node, ctx)
        if isinstance(fv, Sym) and fv.tag == "attr":
            return self.models.sym_method(self, st, fv.args[0], fv.args[1], args, kwargs, node, ctx)
        return [(st, self.unk(st, f"call of {show(fv)}", node, ctx))]

    def bind_args(self, st, fv, args, kwargs, node, ctx):
        a = fv.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        for i, n in enumerate(pos):
            if i < len(args):
                vals[n] = args[i]
        extra = args[len(pos):]
        if a.vararg:
            vals[a.vararg.arg] = VTuple(extra)
        elif extra:
            return None
        kw = dict(kwargs)
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in vals:
                    return None
                vals[n] = kw.pop(n)
        if a.kwarg:
            vals[a.kwarg.arg] = st.alloc(DictO(tuple(kw.items())))
        elif kw:
            return None
        nd = len(fv.defaults)
        for n, d in zip(pos[len(pos) - nd:], fv.defaults):
            vals.setdefault(n, d)
        for n, d in fv.kwdefaults.items():
            vals.setdefault(n, d)
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                return None
        return vals

    def invoke(self, st, fv, args, kwargs, node, ctx, as_gen=False):
        vals = self.bind_args(st, fv, args, kwargs, node, ctx)
        if vals is None:
            return self.raise_(st, "builtins.TypeError", node, ctx, f"bad arguments for {fv.qual}")
        if self.depth > self.MAX_DEPTH or sum(1 for f in self.call_stack if f is fv) > 6:
            return [(st, self.unk(st, f"recursion through {fv.qual}", node, ctx))]
        self.calls_seen.add(fv.qual)
        env = st.alloc(Env(vals, fv.env))
        file = self.program.files.get(fv.mod, "?")
        short = fv.qual[len(fv.mod) + 1:] if fv.qual.startswith(fv.mod + ".") else fv.qual
        c2 = Ctx(env, fv, fv.mod, file, short, fv.owner)
        self.depth += 1
        self.call_stack.append(fv)
        saved = self.yield_handler
        if not as_gen:
            self.yield_handler = None if not isinstance(fv.node, ast.Lambda) else saved
        try:
            if isinstance(fv.node, ast.Lambda):
                res = self.eval(fv.node.body, st, c2)
                out = res
            else:
                out = []
                for s, oc in self.exec_block(fv.node.body, st, c2):
                    if oc[0] == RET:
                        out.append((s, oc[1]))
                    elif oc[0] == EXC:
                        out.append((s, oc[1]))
                    else:
                        out.append((s, None))
        finally:
            self.yield_handler = saved
            self.depth -= 1
            self.call_stack.pop()
        for s, v in out:
            if not isinstance(v, Raised) and self.trace_calls:
                s.events.append(("call", fv, tuple(args), v))
            if getattr(fv, "cached", False):
                s.events.append(("cached", fv, tuple(args) + tuple(kwargs.values()), v, self.loc(fv.node, c2)))
        return out

    def instantiate(self, st, c, args, kwargs, node, ctx):
        if c.enum:
            return self.models.enum_call(self, st, c, args, kwargs, node, ctx)
        new = self.class_attr(st, c, "__new__")
        if isinstance(new, (FuncV, StaticM)):
            return [(st, self.unk(st, f"__new__ of {c.qual}", node, ctx))]
        if any(isinstance(b, ExtV) and isinstance(getattr(_bi, b.name.split(".")[-1], None), type)
               and issubclass(getattr(_bi, b.name.split(".")[-1]), BaseException) for b in c.mro()):
            return [(st, ExcV(c, tuple(args), node=node))]
        init = self.class_attr(st, c, "__init__")
        if init is not None and not isinstance(init, ExtV):
            ref = st.alloc(Inst(c, {}))
            return self.bind(self.call(st, BoundV(init, ref), args, kwargs, node, ctx), lambda s, _: [(s, ref)])
        flds = self.dc_fields(st, c)
        if flds is None:
            if any(isinstance(b, ExtV) and b.name in ("typing.NamedTuple",) for b in c.mro()):
                names = [n for n, f in c.fields_own.items()]
                vals = dict(zip(names, args))
                vals.update(kwargs)
                return [(st, VTuple([vals.get(n) for n in names], c))]
            return [(st, st.alloc(Inst(c, {})))]
        names = [f.name for f in flds if f.opts.get("init", True) is not False and not f.opts.get("kw_only")]
        names_kw = [f.name for f in flds if f.opts.get("init", True) is not False and f.opts.get("kw_only")]
        vals = {}
        if len(args) > len(names) or any(k not in names + names_kw for k in kwargs):
            return self.raise_(st, "builtins.TypeError", node, ctx, f"bad arguments for {c.qual}")
        for n, v in zip(names, args):
            vals[n] = v
        for k, v in kwargs.items():
            if k in vals:
                return self.raise_(st, "builtins.TypeError", node, ctx, f"bad arguments for {c.qual}")
            vals[k] = v
        res = [(st, vals)]
        for f in flds:
            if f.name in vals:
                continue
            if f.default is None and "default" not in f.opts and "default_factory" not in f.opts:
                if f.opts.get("init", True) is False:
                    continue
                return self.raise_(st, "builtins.TypeError", node, ctx, f"missing field {f.name} of {c.qual}")
            nxt = []
            for s, vs in res:
                if isinstance(vs, Raised):
                    nxt.append((s, vs))
                elif "default_factory" in f.opts:
                    for s2, dv in self.call(s, f.opts["default_factory"], [], {}, node, ctx):
                        nxt.append((s2, dv if isinstance(dv, Raised) else {**vs, f.name: dv}))
                elif "default" in f.opts:
                    nxt.append((s, {**vs, f.name: f.opts["default"]}))
                else:
                    nsv = s.get(f.cls.ns).vars
                    nxt.append((s, {**vs, f.name: nsv.get(f.name)}))
            res = nxt
        out = []
        for s, vs in res:
            if isinstance(vs, Raised):
                out.append((s, vs))
                continue
            attrs = {f.name: vs[f.name] for f in flds if f.name in vs}
            ref = s.alloc(Inst(c, attrs))
            post = self.class_attr(s, c, "__post_init__")
            if post is not None:
                out.extend(self.bind(self.call(s, BoundV(post, ref), [], {}, node, ctx), lambda s2, _, ref=ref: [(s2, ref)]))
            else:
                out.append((s, ref))
        return out

    def dc_fields(self, st, c):
        """ordered dataclass fields or None"""
        if not any(isinstance(b, ClassV) and b.dc is not None for b in c.mro()):
            return None
        order = {}
        for b in reversed(c.mro()):
            if not isinstance(b, ClassV) or b.dc is None:
                continue
            kwonly = b.dc.get("kw_only") is True
            for n, f in b.fields_own.items():
                if f.classvar:
                    continue
                g = FieldSpec(f.name, f.ann, f.default, f.cls, f.node, dict(f.opts))
                v = st.get(b.ns).vars.get(n)
                if isinstance(v, FieldCall):
                    g.opts.update(v.opts)
                    if "default" not in v.opts:
                        g.default = None
                if kwonly:
                    g.opts.setdefault("kw_only", True)
                order[n] = g
        return list(order.values())

    def class_attr(self, st, c, name, default=None):
        for b in c.mro():
            if isinstance(b, ClassV):
                v = st.get(b.ns).vars
                if name in v:
                    return v[name]
        return default

    def class_attr_owner(self, st, c, name):
        for b in c.mro():
            if isinstance(b, ClassV) and name in st.get(b.ns).vars:
                return b
        return None

    # ------------------------------------------------------------------ delegated to models
    def getattr(self, st, v, name, node, ctx):
        return self.models.getattr(self, st, v, name, node, ctx)

    def setattr(self, st, o, name, v, node, ctx):
        return self.models.setattr(self, st, o, name, v, node, ctx)

    def binop(self, st, op, a, b, node, ctx):
        return self.models.binop(self, st, op, a, b, node, ctx)

    def compare(self, st, op, a, b, node, ctx):
        return self.models.compare(self, st, op, a, b, node, ctx)

    def compare_fork(self, st, op, a, b, node, ctx):
        out = []
        for s, v in self.compare(st, op, a, b, node, ctx):
            if not isinstance(v, Raised):
                out.extend(self.truth(s, v, node, ctx))
        return out

    def get_item(self, st, o, i, node, ctx):
        return self.models.get_item(self, st, o, i, node, ctx)

    def set_item(self, st, o, i, v, node, ctx):
        return self.models.set_item(self, st, o, i, v, node, ctx)

    def del_item(self, st, o, i, node, ctx):
        return self.models.del_item(self, st, o, i, node, ctx)


class ModV:
    def __init__(self, name, env):
        self.name, self.env = name, env


_CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
        ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


def _as_load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


def _h(x):
    if isinstance(x, (list, dict)):
        return repr(x)
    try:
        hash(x)
        return x
    except TypeError:
        return repr(x)


ONE_BYTE = ("cp1252", "latin-1", "ascii")


def text_len(st, v, exact=False):
    """a number that is the length of the text (or, unless exact, at least is zero for the empty text only), or None"""
    codecs = ONE_BYTE if exact else ONE_BYTE + ("utf-8",)
    if v.tag == "dec" and v.args[0][1] == "strict" and v.args[0][0] in codecs:
        return st.norm(bslen(v.args[1]))
    if v.tag == "field":
        for k in [s for k in st.bounds for s, _ in k] + list(st.subst):
            if k.tag == "enclen" and k.args[1] is v and k.args[0][0] in codecs:
                return st.norm(atom(k))
    return None


def _dedup(items):
    out = []
    for x in items:
        if not any(type(x) is type(y) and x == y for y in out):
            out.append(x)
    return out


def keyeq(a, b):
    a = a.v if isinstance(a, EnumVal) and a.cls.enum in ("int", "flag") else a
    b = b.v if isinstance(b, EnumVal) and b.cls.enum in ("int", "flag") else b
    if isinstance(a, (int, str, bytes, float)) and isinstance(b, (int, str, bytes, float)):
        return a == b
    return type(a) is type(b) and a == b


def _dset(items, k, v):
    items = list(items)
    for i, (kk, _) in enumerate(items):
        if keyeq(kk, k):
            items[i] = (kk, v)
            return items
    items.append((k, v))
    return items


def same(st, a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        if isinstance(a, (int, Aff)) and isinstance(b, (int, Aff)) and not isinstance(a, bool) and not isinstance(b, bool):
            return st.eq(a, b) is True
        if isinstance(a, (Aff, Bs, EnumVal, Sym)) or isinstance(b, (Aff, Bs, EnumVal, Sym)):
            x, y = st.norm(a), st.norm(b)
            return type(x) is type(y) and x == y
        return False
    if a == b:
        return True
    if isinstance(a, Aff):
        return st.eq(a, b) is True
    if isinstance(a, (Bs, EnumVal, Sym, VTuple)):
        return st.norm(a) == st.norm(b)
    return False
