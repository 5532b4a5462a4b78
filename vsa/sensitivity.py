"""Thorough tier: does the rule notice changes of the code it is about?

Single-construct changes of the current source are analysed in memory (nothing is executed or written); how many of them the check reports,
and some that it does not, go into the evidence. This measures the machinery; it never decides a property.
"""
import ast
import os
import random
import time
from concurrent.futures import ProcessPoolExecutor, TimeoutError as PoolTimeout

READER, WRITER = ["reader.py"], ["writer.py"]
FILES = {"C06": READER, "C07": READER, "C18": READER, "C19": READER, "C13": READER + WRITER, "C16": ["general.py"], "C17": ["constants.py", "general.py"],
         "C04": READER + ["constants.py", "general.py"], "C12": WRITER, **{p: WRITER for p in ("C08", "C09", "C10", "C11", "C20")}}
WANTED, SECONDS = 64, 240

COMPARE = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
           ast.In: ast.NotIn, ast.NotIn: ast.In}
ARITH = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def sites(tree):
    """(node, parent, field, index, enclosing function) outside of annotations"""
    def walk(p, fn):
        for f, v in ast.iter_fields(p):
            if f in ("annotation", "returns", "decorator_list"):
                continue
            for i, c in enumerate(v) if isinstance(v, list) else [(None, v)]:
                if isinstance(c, ast.AST):
                    yield c, p, f, i, fn
                    yield from walk(c, c.name if isinstance(c, ast.FunctionDef) else fn)
    yield from walk(tree, None)


def mutants(path):
    """[(description, new source)] one changed construct each"""
    tree = ast.parse(open(path).read())
    out = []

    def emit(what, n, fn):
        out.append((f"{os.path.basename(path)}:{n.lineno} {fn or 'module'}: {what}", ast.unparse(ast.fix_missing_locations(tree))))
    for n, p, f, i, fn in list(sites(tree)):
        def put(x):
            if i is None:
                setattr(p, f, x)
            else:
                getattr(p, f)[i] = x
        if isinstance(n, ast.Constant) and type(n.value) is int:
            put(ast.copy_location(ast.Constant(n.value + 1), n))
            emit(f"{n.value} -> {n.value + 1}", n, fn)
            put(n)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in COMPARE:
            o = n.ops[0]
            n.ops[0] = COMPARE[type(o)]()
            emit(f"{type(o).__name__} -> {type(n.ops[0]).__name__}", n, fn)
            n.ops[0] = o
        elif isinstance(n, ast.BinOp) and type(n.op) in ARITH:
            o = n.op
            n.op = ARITH[type(o)]()
            emit(f"{type(o).__name__} -> {type(n.op).__name__}", n, fn)
            n.op = o
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and fn and i is not None and not isinstance(getattr(n, "value", None), ast.Constant):
            put(ast.copy_location(ast.Pass(), n))
            emit(f"without {ast.unparse(n)[:50]}", n, fn)
            put(n)
        elif isinstance(n, ast.Call) and len(n.args) > 1 and not any(isinstance(a, ast.Starred) for a in n.args) and ast.dump(n.args[0]) != ast.dump(n.args[1]):
            n.args[0], n.args[1] = n.args[1], n.args[0]
            emit("arguments swapped", n, fn)
            n.args[0], n.args[1] = n.args[1], n.args[0]
        elif isinstance(n, ast.If) and fn:
            t = n.test
            n.test = ast.Constant(True)
            emit(f"always: {ast.unparse(t)[:50]}", n, fn)
            n.test = t
    return out


def judge(job):
    pid, name, what, src = job
    from . import registry, report
    from .interp import Clock
    from .program import Program
    try:
        P = Program("/repo/src", overrides={"src/vblf/" + name: src})
        P.load()
        chk = report.Check(pid, "quick", 1, P)
        Clock.until = chk.end
        registry.CHECKS[pid][0](P, chk)
    except BaseException as e:                                        # noqa: BLE001
        return what, "undecided", type(e).__name__
    for word in ("bad", "undecided"):
        k = next((k for k, v in chk.obl.items() if v[0] == word), None)
        if k is not None:
            return what, "reported" if word == "bad" else word, k
    return what, "not reported", ""


def run(pid, seed):
    base = "/repo/src/vblf"
    names = FILES.get(pid) or sorted(f for f in os.listdir(base) if f.endswith(".py") and f not in ("reader.py", "writer.py", "__init__.py"))
    jobs = [(pid, n, what, src) for n in names if os.path.exists(os.path.join(base, n)) for what, src in mutants(os.path.join(base, n))]
    total = len(jobs)
    random.Random(seed).shuffle(jobs)
    res, until = [], time.time() + SECONDS
    ex = ProcessPoolExecutor(8)
    try:
        for r in ex.map(judge, jobs[:WANTED], timeout=SECONDS):
            res.append(r)
            if time.time() > until:
                break
    except PoolTimeout:
        pass
    finally:
        for p in list((ex._processes or {}).values()):
            p.terminate()
        ex.shutdown(wait=False, cancel_futures=True)
    n = {w: sum(r[1] == w for r in res) for w in ("reported", "undecided", "not reported")}
    return {"single_changes_of_the_files": total, "analysed": len(res), **{k.replace(" ", "_"): v for k, v in n.items()},
            "examples_not_reported": [r[0] for r in res if r[1] == "not reported"][:12]}
