"""Are two integer terms different for some value of their atoms? Terms are compared by normal form first; this looks for a
distinguishing valuation of the arithmetic normal form (no analysed code is run)."""
import math
import random

from .state import INF
from .terms import Aff, EnumVal, Sym

OPS = {
    "mod": lambda a, b: a % b, "fdiv": lambda a, b: a // b, "band": lambda a, b: a & b, "bor": lambda a, b: a | b,
    "bxor": lambda a, b: a ^ b, "shl": lambda a, b: a << b if 0 <= b < 4096 else None, "shr": lambda a, b: a >> b if b >= 0 else None,
    "min": min, "max": max, "mulx": lambda a, b: a * b, "abs": abs,
}
FOPS = {
    "fop": lambda op, a, b: {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "//": lambda: a // b,
                             "%": lambda: a % b}[op](),
    "round": round, "toint": int, "floor": math.floor, "ceil": math.ceil, "tofloat": float,
}
LEAF = {"dtattr", "u", "field", "len", "enclen", "fresh", "callm", "src", "ub", "rlen", "arg"}


class Unknown(Exception):
    pass


def leaves(v, out):
    if isinstance(v, EnumVal):
        leaves(v.v, out)
    elif isinstance(v, Aff):
        for s, _ in v.t:
            leaves(s, out)
    elif isinstance(v, Sym):
        if v.tag in OPS or v.tag in FOPS:
            for a in v.args[1:] if v.tag == "fop" else v.args:
                leaves(a, out)
        elif v.tag in LEAF:
            out.add(v)
        else:
            raise Unknown(v.tag)
    elif not isinstance(v, (int, float)):
        raise Unknown(type(v).__name__)


def ev(v, env):
    if isinstance(v, EnumVal):
        return ev(v.v, env)
    if isinstance(v, Aff):
        return v.c + sum(k * ev(s, env) for s, k in v.t)
    if isinstance(v, Sym):
        if v in env:
            return env[v]
        try:
            if v.tag == "fop":
                r = FOPS["fop"](v.args[0], ev(v.args[1], env), ev(v.args[2], env))
            else:
                r = (OPS.get(v.tag) or FOPS[v.tag])(*[ev(a, env) for a in v.args])
        except (ZeroDivisionError, TypeError, KeyError, OverflowError):
            raise Unknown(v.tag) from None
        if r is None:
            raise Unknown(v.tag)
        return r
    return v if isinstance(v, float) else int(v)


def differ(st, a, b, tries=60):
    """True: some admissible valuation distinguishes them; None: none found or a term outside the arithmetic vocabulary"""
    rnd = random.Random(7)
    try:
        atoms = set()
        leaves(a, atoms)
        leaves(b, atoms)
    except Unknown:
        return None
    if any(s.tag == "fresh" for s in atoms) and st.unk:
        return None
    atoms = sorted(atoms, key=lambda s: s.id)
    rngs = []
    for s in atoms:
        lo, hi = st.range_atom(s)
        lo = -2 ** 70 if lo == -INF else int(lo)
        hi = 2 ** 70 if hi == INF else int(hi)
        rngs.append((lo, hi))
    for i in range(tries):
        env = {}
        for s, (lo, hi) in zip(atoms, rngs):
            c = [lo, hi, min(hi, lo + 1), max(lo, hi - 1), rnd.randint(lo, hi), min(hi, lo + rnd.randint(0, 300))]
            env[s] = c[i] if i < 2 else rnd.choice(c)
        if not consistent(st, env):
            continue
        try:
            if ev(a, env) != ev(b, env):
                return True
        except Unknown:
            return None
    return None


def consistent(st, env):
    """do the facts of the path that can be evaluated hold for this valuation?"""
    for k, (lo, hi) in st.bounds.items():
        try:
            x = sum(q * ev(s, env) for s, q in k)
        except (Unknown, KeyError):
            continue
        if not lo <= x <= hi:
            return False
    for k, vs in st.ne.items():
        try:
            x = sum(q * ev(s, env) for s, q in k)
        except (Unknown, KeyError):
            continue
        if x in vs:
            return False
    for k, v in st.subst.items():
        if k.tag not in OPS and k.tag not in FOPS or not isinstance(v, (int, Aff, EnumVal)):
            continue
        try:
            if ev(k, env) != ev(v, env):
                return False
        except (Unknown, KeyError):
            continue
    for k, t in st.bools.items():
        try:
            if k.tag in ("inset", "member"):
                x = ev(k.args[0], env) in k.args[1]
            elif k.tag in ("fcmp", "cmp") and k.args[0] in CMP:
                x = CMP[k.args[0]](ev(k.args[1], env), ev(k.args[2], env))
            elif k.tag in ("le", "eq"):
                x = CMP["<=" if k.tag == "le" else "=="](ev(k.args[0], env), ev(k.args[1], env))
            else:
                continue
        except (Unknown, KeyError, TypeError):
            continue
        if x != t:
            return False
    return True


CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b,
       ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def table(st, atom, values, f):
    """[(value, f's term value)] for the values of the atom that the path admits; None if the term cannot be evaluated"""
    out = []
    for x in values:
        env = {atom: x}
        if consistent(st, env):
            try:
                out.append((x, ev(f, env)))
            except (Unknown, KeyError):
                return None
    return out


def facts_on(st, atoms):
    """the numeric facts that are connected with the atoms, as (term, predicate), and all atoms they mention"""
    todo = []
    for k, (lo, hi) in st.bounds.items():
        todo.append((Aff(0, k), lambda x, lo=lo, hi=hi: lo <= x <= hi))
    for k, vs in st.ne.items():
        todo.append((Aff(0, k), lambda x, vs=vs: x not in vs))
    for k, v in st.subst.items():
        if k.tag in OPS and isinstance(v, (int, Aff)):
            todo.append((Aff(0, ((k, 1),)) if not isinstance(v, Aff) else Aff(-v.c, ((k, 1),) + tuple((s, -q) for s, q in v.t)),
                         (lambda x, v=v: x == v) if not isinstance(v, Aff) else (lambda x: x == 0)))
    for k, t in st.bools.items():
        if k.tag in ("le", "eq"):
            a, b = k.args
            todo.append(((a, b), lambda x, y, tag=k.tag, t=t: CMP["<=" if tag == "le" else "=="](x, y) == t))
    items = []
    for term, pred in todo:
        terms = term if isinstance(term, tuple) else (term,)
        ls = set()
        try:
            for x in terms:
                leaves(x, ls)
        except Unknown:
            continue
        items.append((terms, pred, ls))
    atoms = set(atoms)
    used = []
    while True:
        more = [it for it in items if it not in used and it[2] & atoms]
        if not more:
            return used, atoms
        for it in more:
            used.append(it)
            atoms |= it[2]


LARGE = [x + d for x in (0x80, 0x100, 0x1000, 0x8000, 0x10000, 0x100000, 0x1000000) for d in (-1, 0, 1)]


def witness(st, terms, pred, tries=3000, seed=11):
    """a small valuation that the facts admit and for which pred(*values of terms) holds, or None"""
    rnd = random.Random(seed)
    terms = [st.norm(t) for t in terms]
    atoms = set()
    try:
        for t in terms:
            leaves(t, atoms)
        facts, atoms = facts_on(st, atoms)
        atoms = sorted(atoms, key=lambda s: s.id)
        rngs = []
        for s in atoms:
            lo, hi = st.range_atom(s)
            lo = -9 if lo == -INF else int(lo)
            rngs.append((lo, lo + 400 if hi == INF else int(hi), hi))
        for i in range(tries):
            env = {}
            for s, (lo, hi, top) in zip(atoms, rngs):
                if i % 4 == 3 and rnd.random() < 0.3:
                    x = rnd.choice(LARGE)
                    if lo <= x <= top:
                        env[s] = x
                        continue
                env[s] = rnd.randint(lo, min(hi, lo + rnd.choice((0, 1, 12, 30, 60, 300)))) if rnd.random() < 0.97 else rnd.choice((lo, hi, rnd.randint(lo, hi)))
            if all(p(*[ev(x, env) for x in ts]) for ts, p, _ in facts) and pred(*[ev(t, env) for t in terms]):
                return env
    except Unknown:
        return None
    return None
