"""Loading of the analysed package: every module of /repo/src/vblf is interpreted abstractly, nothing is imported or run."""
import ast
import hashlib
import os

from .interp import N, AnalysisBroken, ClassV, Ctx, ExtV, FuncV, Interp, ModV
from .models import CONSTS, Models, ext_attr
from .state import Env, State
from .terms import Ref

Interp.models = Models


class Program:
    def __init__(self, root="/repo/src", package="vblf", overrides=None):
        self.root, self.package = root, package
        self.files = {}
        self.sources = {}
        self.trees = {}
        self.mods = {}
        self.overrides = overrides or {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"package directory {base} not found")
        for dp, dn, fn in sorted(os.walk(base)):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                self.files[name] = "src/" + rel
                src = self.overrides.get("src/" + rel)
                if src is None:
                    with open(p, encoding="utf-8") as fh:
                        src = fh.read()
                self.sources[name] = src
                try:
                    self.trees[name] = ast.parse(src, p)
                except SyntaxError as e:
                    raise AnalysisBroken(f"{p} does not parse: {e}") from e

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.sources):
            h.update(n.encode() + b"\0" + self.sources[n].encode() + b"\0")
        return h.hexdigest()[:16]

    def is_package(self, mod):
        return self.files.get(mod, "").endswith("__init__.py")

    def bound_somewhere(self, mod, name):
        """may the name be bound in this module at all? (over-approximated)"""
        c = self.__dict__.setdefault("_bound", {})
        if mod not in c:
            out = set()
            todo = [(n, True) for n in self.trees[mod].body] if mod in self.trees else []
            while todo:
                n, top = todo.pop()
                if isinstance(n, ast.Global):
                    out |= set(n.names)
                if isinstance(n, ast.Name) and n.id in ("globals", "exec", "eval", "locals", "vars", "setattr", "__dict__") \
                        or isinstance(n, ast.Attribute) and n.attr == "__dict__" and isinstance(n.value, ast.Attribute):
                    out.add("*")
                if isinstance(n, ast.alias) and n.name == "*":
                    out.add("*")
                if top:
                    if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                        out.add(n.id)
                    elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        out.add(n.name)
                    elif isinstance(n, ast.alias):
                        out.add((n.asname or n.name).split(".")[0])
                    elif isinstance(n, (ast.ExceptHandler, ast.MatchAs, ast.MatchStar)) and n.name:
                        out.add(n.name)
                inner = top and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda))
                todo += [(x, inner) for x in ast.iter_child_nodes(n)]
            c[mod] = out if mod in self.trees else {"*"}
        return name in c[mod] or "*" in c[mod] or name.startswith("__")

    def modenv(self, mod):
        return self.mods[mod].env

    def import_module(self, I, st, name):
        if name in self.mods:
            return self.mods[name]
        if name not in self.trees:
            return ExtV(name)
        parent, _, leaf = name.rpartition(".")
        if parent and parent in self.trees:
            self.import_module(I, st, parent)
            if name in self.mods:
                return self.mods[name]
        env = st.alloc(Env({}))
        m = ModV(name, env)
        self.mods[name] = m
        ctx = Ctx(env, None, name, self.files[name], name)
        depth, stack, yh = I.depth, I.call_stack, I.yield_handler
        I.call_stack = []
        I.depth = 0
        res = I.exec_block(self.trees[name].body, st, ctx)
        I.depth, I.call_stack, I.yield_handler = depth, stack, yh
        ok = [s for s, oc in res if oc[0] == N]
        if not ok:
            raise AnalysisBroken(f"import of {name} fails: {[str(oc[1].exc) + ' at ' + repr(oc[1].loc) for _, oc in res if len(oc) > 1]}")
        if ok[0] is not st:
            st.__dict__.update(ok[0].__dict__)
        if parent in self.mods:
            pe = st.get(self.mods[parent].env)
            if leaf not in pe.vars:
                st.put(self.mods[parent].env, Env({**pe.vars, leaf: m}, pe.parent))
        return m

    def module_attr(self, I, st, mod, name):
        if isinstance(mod, ModV):
            e = st.get(mod.env)
            if name in e.vars:
                return e.vars[name]
            sub = f"{mod.name}.{name}"
            if sub in self.trees:
                return self.import_module(I, st, sub)
            return ExtV(f"{mod.name}.{name}")
        return ext_attr(I, st, mod, name)

    def load(self):
        """-> base state after importing every module"""
        I = Interp(self)
        st = State()
        for n in sorted(self.trees):
            self.import_module(I, st, n)
        self.load_unk = list(st.unk)
        st.events = []
        st.unk = []
        st.freeze_base()
        self.base = st
        return st

    def fresh_state(self):
        return self.base.clone()

    # ---- anchors
    def find(self, name):
        """public class, function or constant by bare name, wherever the package defines it"""
        hits = []
        for m in sorted(self.mods):
            v = self.base.get(self.mods[m].env).vars.get(name)
            if v is not None and not any(v is h for h in hits):
                hits.append(v)
        if not hits:
            raise AnalysisBroken(f"anchor {name} not found in {self.package}")
        return hits[0]

    def get(self, mod, name):
        full = f"{self.package}.{mod}" if mod else self.package
        if full in self.mods:
            v = self.base.get(self.mods[full].env).vars.get(name)
            if v is not None:
                return v
        return self.find(name)

    def classes(self):
        out = []
        for m in sorted(self.mods):
            for v in self.base.get(self.mods[m].env).vars.values():
                if isinstance(v, ClassV) and v not in out:
                    out.append(v)
        return out

    def has_methods(self, *names):
        """does any class of the program define one of these?"""
        if not hasattr(self, "_methods"):
            self._methods = {n.name for t in self.trees.values() for n in ast.walk(t) if isinstance(n, ast.FunctionDef)}
        return any(n in self._methods for n in names)

    def has_truth_methods(self):
        return self.has_methods("__bool__", "__len__")
