"""Abstract states: heap, facts (intervals, congruences, equalities), event log; byte-string operations under facts."""
import math

from .terms import (INF, KINDS, Aff, Bs, EnumVal, Ref, Sym, VTuple, add, atom, concrete_pack, concrete_unpack, mk,
                    mul, parts, sub)


class Infeasible(Exception):
    pass


# ---------------------------------------------------------------- heap objects (treated as immutable values)
class HObj:
    __slots__ = ()


class Inst(HObj):
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class Env(HObj):
    __slots__ = ("vars", "parent", "globals", "nonlocals")

    def __init__(self, vars, parent=None, globals=frozenset(), nonlocals=frozenset()):
        self.vars, self.parent, self.globals, self.nonlocals = vars, parent, globals, nonlocals


class ListO(HObj):
    __slots__ = ("items", "kind")

    def __init__(self, items, kind="list"):
        self.items, self.kind = tuple(items), kind  # kind: list | set | frozenset | deque


class DictO(HObj):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)  # ((k, v), ...)


class BA(HObj):
    """bytearray"""
    __slots__ = ("content",)

    def __init__(self, content):
        self.content = content


class StreamO(HObj):
    __slots__ = ("pos", "src", "kind", "closed", "owned", "mode", "size", "eof")

    def __init__(self, pos, src, kind, closed=False, owned=False, mode="rb", size=None, eof=None):
        self.pos, self.src, self.kind, self.closed, self.owned, self.mode, self.size = pos, src, kind, closed, owned, mode, size
        self.eof = eof

    def but(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return StreamO(**d)


class GenO(HObj):
    __slots__ = ("func", "args", "kwargs", "started")

    def __init__(self, func, args, kwargs, started=False):
        self.func, self.args, self.kwargs, self.started = func, args, kwargs, started


class IterO(HObj):
    """iterator over a known sequence"""
    __slots__ = ("items", "i")

    def __init__(self, items, i=0):
        self.items, self.i = items, i


class OpaqueO(HObj):
    """opaque mutable external object"""
    __slots__ = ("name", "data")

    def __init__(self, name, data=()):
        self.name, self.data = name, data


_next_id = [1]


def new_id():
    _next_id[0] += 1
    return _next_id[0]


def linkey(aff):
    """aff == sign * K + c with canonical K"""
    c, t = parts(aff)
    if t[0][1] < 0:
        return tuple((a, -k) for a, k in t), -1, c
    return t, 1, c


_PIV = {"rlen": 0, "fresh": 1, "enclen": 2, "len": 3, "mod": 4, "field": 5, "u": 6, "ub": 7}


class State:
    def __init__(self):
        self.base = {}
        self.heap = {}
        self.bounds = {}
        self.ne = {}
        self.bools = {}
        self.subst = {}
        self.events = []
        self.assumptions = []
        self.unk = []
        self.pending = None

    def clone(self):
        s = State.__new__(State)
        s.base = self.base
        s.heap = dict(self.heap)
        s.bounds = dict(self.bounds)
        s.ne = dict(self.ne)
        s.bools = dict(self.bools)
        s.subst = dict(self.subst)
        s.events = list(self.events)
        s.assumptions = list(self.assumptions)
        s.unk = list(self.unk)
        s.pending = self.pending
        return s

    def freeze_base(self):
        b = dict(self.base)
        b.update(self.heap)
        self.base = b
        self.heap = {}

    # -------------------------------------------------- heap
    def get(self, ref):
        i = ref.id if isinstance(ref, Ref) else ref
        o = self.heap.get(i)
        return o if o is not None else self.base[i]

    def put(self, ref, obj):
        self.heap[ref.id if isinstance(ref, Ref) else ref] = obj

    def alloc(self, obj):
        i = new_id()
        self.heap[i] = obj
        return Ref(i)

    def changed(self, before):
        """ids of heap objects (existing in before) whose value differs"""
        out = []
        for i, o in self.heap.items():
            b = before.heap.get(i) or before.base.get(i)
            if b is not None and b is not o:
                out.append(i)
        return out

    # -------------------------------------------------- normalisation
    def norm(self, v):
        if not self.subst:
            return canon(v)
        if isinstance(v, Aff):
            for _ in range(12):
                c, d = v.c, {}
                hit = False
                for s, k in v.t:
                    r = self.subst.get(s)
                    if r is None:
                        s2 = self._norm_sym(s)
                        if s2 is not s:
                            hit = True
                            r = s2 if not isinstance(s2, Sym) else atom(s2)
                    else:
                        hit = True
                    if r is None:
                        d[s] = d.get(s, 0) + k
                    else:
                        rc, rt = parts(r)
                        c += k * rc
                        for s3, k3 in rt:
                            d[s3] = d.get(s3, 0) + k * k3
                v = mk(c, d)
                if not hit or not isinstance(v, Aff):
                    break
            return canon(v)
        if isinstance(v, Bs):
            return self.norm_bs(v)
        if isinstance(v, EnumVal):
            return EnumVal(v.cls, self.norm(v.v))
        if isinstance(v, Sym):
            r = self.subst.get(v)
            if r is not None:
                return self.norm(r)
            return self._norm_sym(v)
        if isinstance(v, VTuple):
            return VTuple([self.norm(x) for x in v.items], v.cls)
        return v

    def _norm_sym(self, s):
        if not any(isinstance(a, (Aff, Bs, Sym, EnumVal, VTuple, tuple)) for a in s.args):
            return s
        na = tuple(self.norm(a) if isinstance(a, (Aff, Bs, EnumVal, VTuple)) else
                   (self._norm_sym(a) if a not in self.subst else self.norm(a)) if isinstance(a, Sym) else a for a in s.args)
        if all(x is y or (type(x) is type(y) and x == y) for x, y in zip(na, s.args)):
            return s
        r = rebuild(self, s, na)
        return r

    def norm_bs(self, b):
        if isinstance(b, bytes):
            return b
        out = []
        for g in b.segs:
            if g[0] == "s":
                base = self._norm_sym(g[1]) if isinstance(g[1], Sym) else g[1]
                out.append(("s", base, self.norm(g[2]), self.norm(g[3])))
            elif g[0] == "p":
                out.extend(pack_segs(g[1], self.norm(g[2])))
            elif g[0] == "z":
                out.append(("z", self.norm(g[1])))
            elif g[0] == "e":
                x = self.norm(g[2])
                out.extend(encode_segs(g[1], x))
            elif g[0] == "f":
                x = self.norm(g[2])
                out.extend(fit_segs(self, g[1], x))
            else:
                out.append(g)
        return mkbs(out, self)

    # -------------------------------------------------- ranges
    def range(self, v, depth=0):
        if isinstance(v, bool):
            return (int(v), int(v))
        if isinstance(v, (int, float)):
            return (v, v)
        if isinstance(v, EnumVal):
            return self.range(v.v, depth)
        if isinstance(v, Aff):
            v = self.norm(v)
            if not isinstance(v, Aff):
                return (v, v)
            lo, hi = self._isum(v, depth)
            k, sg, c = linkey(v)
            b = self.bounds.get(k)
            if b:
                l2, h2 = (b[0] + c, b[1] + c) if sg > 0 else (c - b[1], c - b[0])
                lo, hi = max(lo, l2), min(hi, h2)
            if depth < 2 and len(self.bounds) < 60:
                for k2, (bl, bh) in self.bounds.items():
                    if k2 == k or not any(a in k2d for k2d in (dict(k2),) for a, _ in v.t):
                        continue
                    kk = Aff(0, k2)
                    if bh < INF or bl > -INF:
                        r = sub(v, kk)
                        rl, rh = self._isum(r, 2) if isinstance(r, Aff) else (r, r)
                        hi = min(hi, bh + rh) if bh < INF else hi
                        lo = max(lo, bl + rl) if bl > -INF else lo
                        r = add(v, kk)
                        rl, rh = self._isum(r, 2) if isinstance(r, Aff) else (r, r)
                        hi = min(hi, rh - bl) if bl > -INF else hi
                        lo = max(lo, rl - bh) if bh < INF else lo
            return (lo, hi)
        if isinstance(v, Sym):
            return self.range_atom(v, depth)
        return (-INF, INF)

    def _isum(self, v, depth):
        lo, hi = v.c, v.c
        for s, k in v.t:
            l, h = self.range_atom(s, depth + 1)
            if k < 0:
                l, h = h, l
            lo += k * l
            hi += k * h
        return (lo, hi)

    def range_atom(self, s, depth=0):
        lo, hi = self.intrinsic(s, depth)
        b = self.bounds.get(((s, 1),))
        if b:
            lo, hi = max(lo, b[0]), min(hi, b[1])
        return lo, hi

    def intrinsic(self, s, depth):
        t = s.tag
        if t in ("u", "ub"):
            k = KINDS.get(s.args[0])
            return (k[1], k[2]) if k else (-INF, INF)
        if t == "field":
            if len(s.args) > 1 and s.args[1] in KINDS:
                k = KINDS[s.args[1]]
                return (k[1], k[2])
            if len(s.args) > 1 and isinstance(s.args[1], tuple):
                return s.args[1]
            return (-INF, INF)
        if t in ("len", "enclen", "count"):
            return (0, INF)
        if depth > 8:
            return (-INF, INF)
        if t == "rlen":
            return (0, max(0, self.range(s.args[0], depth + 1)[1]))
        if t == "mod":
            m = s.args[1]
            if isinstance(m, int) and m > 0:
                x = self.range(s.args[0], depth + 1)
                if x[0] >= 0 and x[1] < m:
                    return x
                return (0, m - 1)
            ml, mh = self.range(m, depth + 1)
            return (0, mh - 1) if ml > 0 else (-INF, INF)
        if t == "fdiv":
            x, m = self.range(s.args[0], depth + 1), s.args[1]
            if isinstance(m, int) and m > 0:
                return (x[0] if x[0] in (INF, -INF) else x[0] // m, x[1] if x[1] in (INF, -INF) else x[1] // m)
            return (-INF, INF)
        if t in ("min", "max"):
            rs = [self.range(a, depth + 1) for a in s.args]
            f = min if t == "min" else max
            return (f(r[0] for r in rs), f(r[1] for r in rs))
        if t == "abs":
            l, h = self.range(s.args[0], depth + 1)
            return (0 if l <= 0 <= h else min(abs(l), abs(h)), max(abs(l), abs(h)))
        if t in ("round", "toint", "floor", "ceil"):
            l, h = self.range(s.args[0], depth + 1)
            f = {"round": round, "toint": int, "floor": math.floor, "ceil": math.ceil}[t]
            return (l if abs(l) == INF else f(l), h if abs(h) == INF else f(h))
        if t == "fop":
            op, a, b = s.args
            a, b = self.range(a, depth + 1), self.range(b, depth + 1)
            return _iv(op, a, b)
        if t == "dtattr":
            return {"year": (1, 9999), "month": (1, 12), "day": (1, 31), "hour": (0, 23), "minute": (0, 59), "second": (0, 59),
                    "microsecond": (0, 999999), "weekday": (0, 6), "fold": (0, 1)}.get(s.args[1], (-INF, INF))
        if t == "band":
            a, b = (self.range(x, depth + 1) for x in s.args)
            cand = [r[1] for r in (a, b) if r[0] >= 0]
            return (0, min(cand)) if cand else (-INF, INF)
        if s.ty == "bool":
            return (0, 1)
        return (-INF, INF)

    # -------------------------------------------------- decisions
    def le(self, a, b):
        """a <= b ? True/False/None"""
        d = self.norm(sub(a, b))
        if not isinstance(d, Aff):
            return d <= 0
        lo, hi = self.range(d)
        if hi <= 0:
            return True
        if lo > 0:
            return False
        if self._chain(d, 0) <= 0:
            return True
        if self._chain(mul(d, -1), 0) < 0:
            return False
        return None

    def _chain(self, d, used):
        """upper bound of d from a chain of recorded facts, each cancelling the largest remaining atom"""
        if not isinstance(d, Aff):
            return d
        best = self._isum(d, 2)[1]
        if used >= 4 or best <= 0:
            return best
        have = dict(d.t)
        for k2, (bl, bh) in self.bounds.items():
            if len(k2) < 2:
                continue
            for sgn, lim in ((1, bh), (-1, -bl)):
                # sgn * K <= lim; useful when it removes an atom of d
                if lim == INF or not any(have.get(a) == sgn * q for a, q in k2):
                    continue
                r = sub(d, mul(Aff(0, k2), sgn))
                if isinstance(r, Aff) and len(r.t) > len(d.t):
                    continue
                best = min(best, lim + self._chain(r, used + 1))
                if best <= 0:
                    return best
        return best

    def eq(self, a, b):
        d = self.norm(sub(a, b))
        if not isinstance(d, Aff):
            return d == 0
        lo, hi = self.range(d)
        if lo > 0 or hi < 0:
            return False
        if lo == hi == 0:
            return True
        k, sg, c = linkey(d)
        if -c * sg in self.ne.get(k, ()):
            return False
        g = 0
        for _, q in d.t:
            g = math.gcd(g, q)
        if g > 1 and d.c % g:
            return False
        return None

    def _bound(self, aff, hi):
        """record aff <= hi"""
        aff = self.norm(aff)
        if not isinstance(aff, Aff):
            if aff > hi:
                raise Infeasible
            return
        k, sg, c = linkey(aff)
        lo0, hi0 = self.bounds.get(k, (-INF, INF))
        if sg > 0:
            hi0 = min(hi0, hi - c)
        else:
            lo0 = max(lo0, c - hi)
        ex = self.ne.get(k, ())
        if len(k) == 1 and k[0][1] == 1:
            il, ih = self.intrinsic(k[0][0], 0)
            lo0, hi0 = max(lo0, il), min(hi0, ih)
        while lo0 in ex:
            lo0 += 1
        while hi0 in ex:
            hi0 -= 1
        if lo0 > hi0:
            raise Infeasible
        self.bounds[k] = (lo0, hi0)
        if lo0 == hi0:
            self._solve(mk(-lo0, dict(k)))

    def assume_le(self, a, b, truth=True):
        """assume a <= b (or its negation); False if impossible"""
        try:
            d = self.norm(sub(a, b))
            if not isinstance(d, Aff):
                return (d <= 0) == truth
            dec = self.le(a, b)
            if dec is not None:
                return dec == truth
            if truth:
                self._bound(d, 0)
            else:
                self._bound(mul(d, -1), -1)
            return True
        except Infeasible:
            return False

    def assume_eq(self, a, b, truth=True):
        try:
            d = self.norm(sub(a, b))
            if not isinstance(d, Aff):
                return (d == 0) == truth
            dec = self.eq(a, b)
            if dec is not None:
                return dec == truth
            if truth:
                self._solve(d)
            else:
                k, sg, c = linkey(d)
                v = -c * sg
                self.ne[k] = self.ne.get(k, frozenset()) | {v}
                b = self.bounds.get(k)
                if len(k) == 1 and k[0][1] == 1:
                    il, ih = self.range_atom(k[0][0])
                    b = (max(il, b[0]), min(ih, b[1])) if b else (il, ih)
                if b and v in b:
                    self._bound(mk(0, dict(k)), b[1])
                if not self._member_left(k):
                    return False
            return True
        except Infeasible:
            return False

    def _member_left(self, k):
        """False if a term with this linear key is known to be one of some
        values and all of those are excluded by now"""
        for f, t in self.bools.items():
            if t and f.tag in ("inset", "member") and len(f.args) == 2:
                y = self.norm(f.args[0])
                if isinstance(y, Aff) and linkey(y)[0] == k and \
                        all(isinstance(v, int) and self.eq(y, v) is False for v in f.args[1]):
                    return False
        return True

    def _solve(self, d):
        """d == 0"""
        cands = []
        allargs = set()
        for s, k in d.t:
            _collect(s, allargs, skip=True)
        for s, k in d.t:
            if k in (1, -1) and s not in allargs:
                cands.append((_PIV.get(s.tag, 9), -s.id, s, k))
        if not cands:
            k, sg, c = linkey(d)
            self.bounds[k] = (-c * sg, -c * sg)
            return
        cands.sort(key=lambda x: x[:2])
        _, _, s, k = cands[0]
        e = mul(sub(d, mul(atom(s), k)), -k)  # s = e
        lo, hi = self.range_atom(s)
        self.subst[s] = e
        old = self.bounds
        self.bounds = {}
        oldne = self.ne
        self.ne = {}
        for kk, (l, h) in old.items():
            a = Aff(0, kk)
            if h < INF:
                self._bound(a, h)
            if l > -INF:
                self._bound(mul(a, -1), -l)
        if isinstance(e, Aff):
            if hi < INF:
                self._bound(e, hi)
            if lo > -INF:
                self._bound(mul(e, -1), -lo)
        elif not lo <= e <= hi:
            raise Infeasible
        for kk, vs in oldne.items():
            a = self.norm(Aff(0, kk))
            if not isinstance(a, Aff):
                if a in vs:
                    raise Infeasible
                continue
            k2, sg, c = linkey(a)
            self.ne[k2] = self.ne.get(k2, frozenset()) | {(v - c) * sg for v in vs}
            b = self.range(mk(0, dict(k2)))
            if b[0] == b[1] and b[0] in self.ne[k2]:
                raise Infeasible

    # -------------------------------------------------- congruence
    def residue(self, v, m):
        """v mod m as int if known, else None"""
        v = self.norm(v)
        for _ in range(6):
            if not isinstance(v, Aff):
                return int(v) % m
            c, d, hit = v.c, {}, False
            for s, k in v.t:
                if k % m == 0:
                    continue
                if s.tag == "mod" and isinstance(s.args[1], int) and s.args[1] % m == 0:
                    hit = True
                    rc, rt = parts(s.args[0])
                    c += k * rc
                    for s2, k2 in rt:
                        d[s2] = d.get(s2, 0) + k * k2
                else:
                    d[s] = d.get(s, 0) + k
            d = {s: k % m for s, k in d.items() if k % m}
            v2 = mk(c % m, d)
            if not hit:
                v = v2
                break
            v = v2
        if not isinstance(v, Aff):
            return int(v) % m
        # look for facts  mod(x, m) == r
        for cand in (v, Aff(v.c, tuple((s, k - m if k > m // 2 else k) for s, k in v.t))):
            for c0 in (cand, sub(cand, cand.c)):
                s = Sym("mod", (c0, m), "int")
                r = self.norm(atom(s))
                if not isinstance(r, Aff):
                    return (r + (v.c if c0 is not cand else 0)) % m
        # facts about a term that differs from this one, or from its negative, by a known amount
        if self.subst:
            for k, r in self.subst.items():
                if k.tag == "mod" and isinstance(r, int) and isinstance(k.args[1], int) and k.args[1] % m == 0:
                    for sg in (1, -1):
                        d = mk_mod(sub(v, mul(k.args[0], sg)), m)
                        if d is not None:
                            return (d + sg * r) % m
        return None

    def assume_note(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)


def mk_mod(v, m):
    """v mod m when all its coefficients are multiples of m"""
    if not isinstance(v, Aff):
        return int(v) % m
    return v.c % m if all(k % m == 0 for _, k in v.t) else None


def _iv(op, a, b):
    def f(x, y):
        try:
            if op == "*":
                if (x == 0 or y == 0):
                    return 0
                return x * y
            if op == "+":
                return x + y
            if op == "-":
                return x - y
            if op == "/":
                if abs(x) == INF and abs(y) == INF:
                    return None
                return x / y
        except (ZeroDivisionError, ValueError):
            return None
        return None
    if op == "/" and b[0] <= 0 <= b[1]:
        return (-INF, INF)
    vals = [f(x, y) for x in a for y in b]
    if any(v is None or v != v for v in vals):
        return (-INF, INF)
    return (min(vals), max(vals))


def _collect(s, out, skip=False):
    if isinstance(s, Sym):
        if not skip:
            if s in out:
                return
            out.add(s)
        for a in s.args:
            _collect(a, out)
    elif isinstance(s, Aff):
        for x, _ in s.t:
            _collect(x, out)
    elif isinstance(s, EnumVal):
        _collect(s.v, out)
    elif isinstance(s, VTuple):
        for x in s.items:
            _collect(x, out)
    elif isinstance(s, tuple):
        for x in s:
            _collect(x, out)
    elif isinstance(s, Bs):
        for g in s.segs:
            for x in g[1:]:
                _collect(x, out)


def syms_of(v):
    out = set()
    _collect(v, out)
    return out


def canon(v):
    """k*m*fdiv(x,m) -> k*(x - mod(x,m))"""
    if not isinstance(v, Aff):
        return v
    for s, k in v.t:
        if s.tag == "fdiv" and isinstance(s.args[1], int) and s.args[1] > 1 and k % s.args[1] == 0:
            q = k // s.args[1]
            r = sub(v, mul(atom(s), k))
            r = add(r, mul(s.args[0], q))
            r = sub(r, mul(atom(Sym("mod", s.args, "int")), q))
            return canon(r)
    return v


def rebuild(st, s, na):
    """re-create term with normalised args, applying the simplifications of the constructors"""
    if s.tag == "mod" and isinstance(na[1], int) and na[1] > 0:
        if isinstance(na[0], int):
            return na[0] % na[1]
        lo, hi = st.range(na[0])
        if lo >= 0 and hi < na[1]:
            return na[0]
    if s.tag == "fdiv" and isinstance(na[0], int) and isinstance(na[1], int) and na[1]:
        return na[0] // na[1]
    if s.tag in ("min", "max"):
        return minmax(st, s.tag, list(na))
    if s.tag == "len" and isinstance(na[0], bytes):
        return len(na[0])
    if s.tag == "dec":
        return decode_val(s.args[0], na[1])
    if s.tag == "enclen":
        return bslen(mkbs(encode_segs(na[0], na[1])))
    return Sym(s.tag, na, s.ty)


def minmax(st, tag, vals):
    out = []
    for v in vals:
        keep = True
        for w in list(out):
            d = st.le(v, w) if isint(v) and isint(w) else None
            if d is None and isint(v) and isint(w) and st.le(w, v) is True:
                d = False
            if d is None:
                continue
            if (tag == "min") == bool(d):
                out.remove(w)
            else:
                keep = False
        if keep:
            out.append(v)
    if len(out) == 1:
        v = out[0]
        return v
    ty = "int" if all(isint(v) or isinstance(v, EnumVal) for v in out) else "float"
    s = Sym(tag, tuple(sorted(out, key=repr)), ty)
    return atom(s) if ty == "int" else s


def isint(v):
    return isinstance(v, (int, Aff))


# ---------------------------------------------------------------- byte strings
def mkbs(segs, st=None):
    out = []
    for g in segs:
        if g[0] == "c":
            if not g[1]:
                continue
            if out and out[-1][0] == "c":
                out[-1] = ("c", out[-1][1] + g[1])
                continue
        elif g[0] == "s":
            if g[2] == g[3]:
                continue
            if isinstance(g[1], Sym) and g[1].tag == "bsbox" and g[2] == 0:
                if g[3] == bslen(g[1].args[0]):
                    out2 = mkbs(out + list(segs_of(g[1].args[0])), st)
                    out = list(segs_of(out2))
                    continue
            if out and out[-1][0] == "s" and out[-1][1] is g[1] and out[-1][3] == g[2]:
                out[-1] = ("s", g[1], out[-1][2], g[3])
                continue
        elif g[0] == "z":
            if isinstance(g[1], int):
                if g[1] <= 0:
                    continue
                if out and out[-1][0] == "z" and isinstance(out[-1][1], int):
                    out[-1] = ("z", out[-1][1] + g[1])
                    continue
        out.append(g)
    if not out:
        return b""
    if len(out) == 1 and out[0][0] == "c":
        return out[0][1]
    return Bs(tuple(out))


def segs_of(b):
    if isinstance(b, (bytes, bytearray)):
        return (("c", bytes(b)),) if b else ()
    return b.segs


def seglen(g):
    if g[0] == "c":
        return len(g[1])
    if g[0] == "s":
        return sub(g[3], g[2])
    if g[0] == "p":
        return KINDS[g[1]][0]
    if g[0] == "z":
        return g[1]
    if g[0] == "e":
        return atom(Sym("enclen", (g[1], g[2]), "int"))
    if g[0] == "f":
        return g[1]
    raise AssertionError(g)


def bslen(b):
    if isinstance(b, (bytes, bytearray)):
        return len(b)
    n = 0
    for g in b.segs:
        n = add(n, seglen(g))
    return n


def concat(a, b, st=None):
    return mkbs(tuple(segs_of(a)) + tuple(segs_of(b)), st)


def opaque_bytes(sym, length=None):
    """the whole value of a bytes-typed term"""
    n = length if length is not None else atom(Sym("len", (sym,), "int"))
    if n == 0:
        return b""
    return Bs((("s", sym, 0, n),))


def pack_segs(kind, v):
    while isinstance(v, EnumVal):
        v = v.v
    if isinstance(v, (int, float, bool)):
        try:
            return [("c", concrete_pack(kind, v))]
        except (OverflowError, ValueError, TypeError):
            return [("p", kind, v)]
    a = v.atom if isinstance(v, Aff) else v if isinstance(v, Sym) else None
    n = KINDS[kind][0]
    if a is not None and a.tag == "u" and a.args[0] == kind:
        return [("s", a.args[1], a.args[2], add(a.args[2], n))]
    if a is not None and a.tag == "ub" and a.args[0] == kind:
        return list(segs_of(a.args[1]))
    return [("p", kind, v)]


def norm_codec(name):
    n = name.lower().replace("_", "-")
    table = {"utf8": "utf-8", "utf-8": "utf-8", "u8": "utf-8", "cp1252": "cp1252", "windows-1252": "cp1252", "1252": "cp1252",
             "latin-1": "latin-1", "latin1": "latin-1", "iso-8859-1": "latin-1", "iso8859-1": "latin-1", "l1": "latin-1",
             "ascii": "ascii", "us-ascii": "ascii", "cp-1252": "cp1252"}
    return table.get(n, n)


def decode_val(codec, b):
    """codec: (name, errors)"""
    if isinstance(b, bytes):
        try:
            return b.decode(*codec)
        except (UnicodeError, LookupError):
            return Sym("dec", (codec, b), "str")
    if len(b.segs) == 1 and b.segs[0][0] == "e" and codec[1] == "strict" and b.segs[0][1] == codec:
        return b.segs[0][2]
    return Sym("dec", (codec, b), "str")


def encode_segs(codec, s):
    if isinstance(s, str):
        try:
            return [("c", s.encode(*codec))]
        except (UnicodeError, LookupError):
            return [("e", codec, s)]
    if isinstance(s, Sym) and s.tag == "dec" and s.args[0] == codec and codec[1] == "strict":
        return list(segs_of(s.args[1]))
    if isinstance(s, Sym) and s.tag == "concat":
        out = []
        for x in s.args:
            out.extend(encode_segs(codec, x))
        return out
    return [("e", codec, s)]


def fit_segs(st, n, b):
    ln = st.norm(bslen(b))
    if st.eq(ln, n) is True:
        return list(segs_of(b))
    if isinstance(ln, int):
        if ln > n:
            return list(segs_of(bs_slice(st, b, 0, n)))
        return list(segs_of(b)) + [("c", b"\0" * (n - ln))]
    return [("f", n, b)]


def _part(g, a, b):
    """bytes [a,b) of segment g (relative), not the whole"""
    if g[0] == "s":
        return ("s", g[1], add(g[2], a), add(g[2], b))
    if g[0] == "c" and isinstance(a, int) and isinstance(b, int):
        return ("c", g[1][a:b])
    if g[0] == "z":
        return ("z", sub(b, a))
    return ("s", Sym("bsbox", (mkbs([g]),), "bytes"), a, b)


def bs_slice(st, b, lo, hi):
    """b[lo:hi] for 0 <= lo <= hi <= len(b); undecidable layout comparisons become recorded assumptions."""
    lo, hi = st.norm(lo), st.norm(hi)
    b = st.norm_bs(b)
    segs = segs_of(b)
    pos = 0
    out = []
    started = False
    for i, g in enumerate(segs):
        n = st.norm(seglen(g))
        end = st.norm(add(pos, n))
        last = i == len(segs) - 1
        if not started:
            past = st.le(end, lo)
            if past is None and (st.le(lo, pos) is True or st.le(lo, end) is True):
                past = False  # lo == end is fine: this segment then contributes nothing
            if past is None:
                # lo inside this segment, or beyond?
                inside = last or g[0] == "z"
                st.assume_note(f"{show_(lo)} {'<=' if inside else '>='} {show_(end)} (parts lie inside the record and do not overlap)")
                past = not inside
            if past:
                pos = end
                continue
            started = True
            a = lo
            if st.le(lo, pos) is True:
                a = pos
        else:
            a = pos
        if st.le(hi, pos) is True:
            break
        full_hi = st.le(end, hi)
        if full_hi is None and st.le(hi, end) is True:
            full_hi = False
        if full_hi is None:
            if st.le(hi, end) is True or last:
                full_hi = False
            else:
                st.assume_note(f"{show_(hi)} <= {show_(end)} (parts lie inside the record)")
                full_hi = False
        e = end if full_hi else hi
        if st.eq(a, pos) is True and st.eq(e, end) is True:
            out.append(g)
        else:
            ra, rb = st.norm(sub(a, pos)), st.norm(sub(e, pos))
            out.append(_part(g, ra, rb))
        if not full_hi:
            break
        pos = end
    return mkbs(out, st)


def show_(v):
    from .terms import show
    return show(v)


def read_item(st, b, off, kind, size):
    """struct item of given kind from b at off -> value"""
    sl = st.norm_bs(bs_slice(st, b, off, add(off, size)))
    if kind == "pascal":
        return opaque_bytes(Sym("pascal", (sl,), "bytes"))
    if kind == "s":
        return sl
    if kind == "c":
        return sl
    if isinstance(sl, bytes):
        if len(sl) == size:
            return concrete_unpack(kind, sl)
        return mkv(Sym("ub", (kind, sl), "float" if "f" in kind else "int"))
    g = sl.segs
    if len(g) == 1:
        g = g[0]
        if g[0] == "s":
            return mkv(Sym("u", (kind, g[1], g[2]), _kty(kind)))
        if g[0] == "p" and g[1] == kind:
            return g[2]
        if g[0] == "z":
            return 0.0 if kind[-2] == "f" else 0
    elif all(x[0] == "z" or (x[0] == "c" and not any(x[1])) for x in g):
        return 0.0 if kind[-2] == "f" else 0
    return mkv(Sym("ub", (kind, sl), _kty(kind)))


def _kty(kind):
    return "float" if kind.split(":")[-1][0] == "f" else "bool" if kind == "?" else "int"


def mkv(sym):
    return atom(sym) if sym.ty == "int" else sym


def stream_slice(st, o, lo, hi):
    if lo == hi:
        return b""
    if isinstance(o.src, (bytes, Bs)):
        return bs_slice(st, o.src, lo, hi)
    return mkbs([("s", o.src, lo, hi)])


def from_generator(v):
    """an element that a generator of the program delivered (never None: the delivery rule checks what is yielded)"""
    return isinstance(v, Sym) and v.tag in ("next", "recelem") and isinstance(v.args[0], tuple) and v.args[0][:1] == ("obj",)
