"""Tables that keep results from one object to the next. A table is right when what is kept is a function of the key it is kept
under. Here is shown that it is not: bytes of the input that the kept value is made of lie outside the key, and nothing on the path
fixes them; or two paths keep different constants under one key. Everything else stays undecided."""
from .diff import Unknown as Cannot
from .diff import consistent, ev, leaves
from .interp import ClassV
from .state import BA, DictO, Inst, segs_of, syms_of
from .terms import KINDS, Aff, Bs, EnumVal, Ref, Sym, VTuple, concrete_pack, concrete_unpack, show, sub

WEAK = {"crc", "id", "len", "hash"}                                              # digests: they determine nothing they are made of
PARTLY = {"band", "mod", "shr", "fdiv", "bor", "bxor", "shl", "min", "max", "mulx"}       # how much is left to clash()
THROUGH = {"zcompress": 1, "zdecompress": 1}


class Unknown(Exception):
    pass


def parts(st, v, out, seen, key=False, loose=False):
    """input bytes that a value shows one by one: (source, from, to); for keys what is only known through a digest counts as nothing"""
    if v is None or isinstance(v, (bool, int, float, str, bytes, ClassV)):
        return
    if isinstance(v, Ref):
        if v.id in seen:
            return
        seen.add(v.id)
        o = st.get(v)
        if isinstance(o, Inst):
            for x in o.attrs.values():
                parts(st, x, out, seen, key)
        elif isinstance(o, BA):
            parts(st, o.content, out, seen, key)
        else:
            raise Unknown(type(o).__name__)
    elif isinstance(v, EnumVal):
        parts(st, v.v, out, seen, key)
    elif isinstance(v, Aff):
        if key or len(v.t) == 1 and abs(v.t[0][1]) == 1:
            for s, _ in v.t:
                parts(st, s, out, seen, key)
        else:
            raise Unknown("sum")
    elif isinstance(v, VTuple) and (key or loose):
        for x in v.items:
            parts(st, x, out, seen, key)
    elif isinstance(v, Bs):
        for g in segs_of(st.norm_bs(v)):
            if g[0] in ("c", "z"):
                continue
            if g[0] == "s":
                source(st, g[1], g[2], g[3], out, seen, key)
            elif g[0] == "p":
                parts(st, g[2], out, seen, key)
            else:
                raise Unknown(g[0])
    elif isinstance(v, Sym):
        if v in st.subst:
            return parts(st, st.norm(v), out, seen, key) if st.norm(v) is not v else None
        if v.tag == "u" and isinstance(v.args[1], Sym):
            k = v.args[0]
            w = KINDS[k][0] if k in KINDS else 1
            source(st, v.args[1], v.args[2], st.norm(plus(v.args[2], w)), out, seen, key, v)
        elif key and v.tag in WEAK or v.tag == "arg":
            return
        elif key and v.tag in PARTLY:
            for x in v.args:
                parts(st, x, out, seen, key)
        elif v.tag == "fresh" or v.tag == "field":
            out.append((v, None, None, v))
        else:
            raise Unknown(v.tag)
    else:
        raise Unknown(type(v).__name__)


def plus(a, b):
    from .state import add
    return add(a, b)


def source(st, src, lo, hi, out, seen, key, atom=None):
    if not isinstance(src, Sym):
        raise Unknown("source")
    if src.tag in THROUGH and not key and atom is None:
        parts(st, src.args[0], out, seen, key)
    elif src.tag in ("src", "fresh", "payload", "field"):
        out.append((src, st.norm(lo), st.norm(hi), atom))
    else:
        raise Unknown(src.tag)


def outside(st, d, have):
    """do the bytes d reach outside all ranges of the key? True if they can, False if they never do, None if not known"""
    src, lo, hi, atom = d
    if lo is None:
        return None if any(h[0] is src for h in have) else True
    mine = [h for h in have if h[0] is src and h[1] is not None]
    if any(h[0] is not src for h in have):
        return None
    for h in mine:
        if st.le(h[1], lo) is True and st.le(hi, h[2]) is True:
            return False
    if atom is not None:
        return True if all(st.le(h[2], lo) is True or st.le(hi, h[1]) is True for h in mine) else None
    if not mine:
        return True if st.le(hi, lo) is not True else False
    if len(mine) == 1 and st.le(plus(mine[0][2], 1), hi) is not False and st.eq(lo, mine[0][1]) is True:
        return True          # a longer piece that starts where the key starts
    return None


def free(st, d):
    """can the bytes d be anything (at least two different contents) on this path?"""
    atom = d[3]
    if atom is None:
        return True
    for k in [q for q in list(st.ne) + list(st.bounds)] + [((q, 1),) for q in st.bools] + [((q, 1), (v, 1)) for q, v in st.subst.items()]:
        ss = set()
        for s, _ in k:
            ss |= base(s)
        if atom in ss and len(ss) > 1:
            return None          # related to something else
    if atom.ty != "int":
        return True
    lo, hi = st.range_atom(atom)
    n = 0
    for x in VALUES:
        if lo <= x <= hi and admits(st, {atom: x}):
            n += 1
            if n > 1:
                return True
    return None


def admits(st, env):
    for k, v in st.subst.items():
        if k in env:
            try:
                if ev(v, env) != env[k]:
                    return False
            except (Cannot, KeyError):
                return False
    return consistent(st, env)


def base(v):
    """the numbers and byte strings a term is about (where a number is read from does not count)"""
    if isinstance(v, Sym) and v.tag in ("u", "fresh", "field"):
        return {v}
    if isinstance(v, Sym):
        return set().union(*(base(x) for x in v.args)) if v.args else set()
    if isinstance(v, Aff):
        return set().union(*(base(s) for s, _ in v.t)) if v.t else set()
    if isinstance(v, EnumVal):
        return base(v.v)
    return syms_of(v) if isinstance(v, Bs) else set()


def conflict(st, k, v):
    """why the value is not a function of the key, or None"""
    try:
        have, need = [], []
        parts(st, norm(st, k), have, set(), True)
        # what is kept next to a result may be there to tell on a hit whether it fits, but not when all that is known is which object it was
        ids = [s.args[0] for s, _ in k.t if isinstance(s, Sym) and s.tag == "id"] if isinstance(k, Aff) else []
        parts(st, v, need, {x.id if isinstance(x, Ref) else x[1] for x in ids if isinstance(x, Ref) or isinstance(x, tuple) and len(x) == 2},
              loose=bool(ids) and len(ids) == len(k.t))
    except (Unknown, KeyError):
        return None
    for d in need:
        if outside(st, d, have) is True and free(st, d):
            what = show(d[3]) if d[3] is not None else f"{show(d[0])}[{show(d[1])}:{show(d[2])}]"
            return f"a result made of {what} is kept under {show(k)}, which does not determine it"
    return None


def norm(st, k):
    if isinstance(k, VTuple):
        return VTuple([norm(st, x) for x in k.items])
    if isinstance(k, EnumVal):
        return norm(st, k.v)
    return st.norm(k) if isinstance(k, (Sym, Aff)) else st.norm_bs(k) if isinstance(k, Bs) else k


def const(v):
    if isinstance(v, EnumVal):
        v = v.v
    if isinstance(v, VTuple):
        xs = [const(x) for x in v.items]
        return None if None in xs else ("t",) + tuple(xs)
    if isinstance(v, (int, str, bytes)) and not isinstance(v, bool):
        return type(v).__name__, v
    return None


def added(before, after):
    """pairs that a pass adds to a table, None if it does anything else to it"""
    if not isinstance(before, DictO) or not isinstance(after, DictO):
        return None
    old, new = list(before.items), list(after.items)
    if len(new) < len(old) or any(a[0] is not b[0] or a[1] is not b[1] for a, b in zip(old, new)):
        return None
    return new[len(old):]


def judge(passes):
    """passes: [(state, pairs added, where)] -> (text, where) of a table whose kept results depend on more than their key, or None"""
    by = {}
    for st, pairs, where in passes:
        for k, v in pairs:
            why = conflict(st, k, v) or clash(st, k, v, by)
            if why:
                return why, where
    return None


VALUES = [d + x for d in (0, 1 << 8, 1 << 16, 1 << 31, -300, 1000) for x in range(0, 300, 1 if d == 0 else 7)]


def clash(st, k, v, by):
    """collects in `by` what is kept under the values of a key; a text when two different results come under the same"""
    for c, w in samples(st, k, v):
        if by.setdefault(c, w) != w:
            return f"{w[1]} is kept under {c[1]}, where another object may have left {by[c][1]}"
    return None


def wider(st, a):
    """the number that the facts of the path are about and that the number a is read from: (it, offset of a in it); None if that is
    not clear"""
    if a.tag != "u":
        return a, 0
    about = set()
    for k in list(st.ne) + list(st.bounds):
        for s, _ in k:
            about |= base(s)
    for q in list(st.bools):
        about |= base(q)
    for q, x in st.subst.items():
        about |= base(q) | base(x)
    best = a, 0
    for b in about:
        if not isinstance(b, Sym) or b.tag != "u" or b is a or b.args[1] is not a.args[1]:
            continue
        if a.args[0] not in KINDS or b.args[0] not in KINDS:
            return None
        n, m = KINDS[a.args[0]][0], KINDS[b.args[0]][0]
        d = st.norm(sub(a.args[2], b.args[2]))
        if not isinstance(d, int):
            if st.le(m, d) is True or st.le(d, -n) is True:
                continue
            return None
        if d >= m or d + n <= 0:
            continue
        if not 0 <= d <= m - n or best[0] is not a:
            return None
        best = b, d
    return best


def samples(st, k, v):
    k = norm(st, k)
    v = norm(st, v)
    c, w = const(k), ("class", v.qual) if isinstance(v, ClassV) else const(v)
    if c is not None and w is not None:
        return [(c, w)]
    if not isinstance(k, (int, Aff, Sym)) or w is None and not isinstance(v, (int, Aff, Sym)):
        return []
    ls = set()
    try:
        leaves(k, ls)
        if w is None:
            leaves(v, ls)
        if len(ls) != 1:
            return []
        a = next(iter(ls))
        w0 = wider(st, a)
        if w0 is None:
            return []
        top, shift = w0
        lo, hi = st.range_atom(top)
        out = []
        for x in VALUES:
            env = {top: x}
            if lo <= x <= hi and top is not a:
                n = KINDS[a.args[0]][0]
                env[a] = concrete_unpack(a.args[0], concrete_pack(top.args[0], x)[shift:shift + n])
            if lo <= x <= hi and admits(st, env):
                out.append((("int", ev(k, env)), w or ("int", ev(v, env))))
        return out
    except (Cannot, KeyError):
        return []
