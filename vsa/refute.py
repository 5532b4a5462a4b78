"""Do two terms differ? The analyser has no algebra for every library operation (rstrip, replace, a comprehension over bytes, ...);
before a difference between such terms counts, a valuation of the input bytes and fields must show it. The valuations satisfy
every fact of the path; what is evaluated are the analyser's own terms, never the analysed code."""
import ast
import math
import random

from .diff import CMP, FOPS, OPS, witness
from .state import INF
from .terms import Aff, Bs, EnumVal, Sym, VTuple, concrete_pack, concrete_unpack

COMPS = {}          # ast.dump -> comprehension node
LIMIT = 1 << 13     # longest byte string of a valuation


class Unknown(Exception):
    """a term without a meaning here"""


class Skip(Exception):
    """the valuation does not belong to the path"""


def leaves(v, out, seen):
    """source bytes and fields a term is made of"""
    if isinstance(v, (Sym, Aff, Bs, EnumVal, VTuple)):
        if id(v) in seen:
            return
        seen.add(id(v))
    if isinstance(v, Sym):
        if v.tag in ("src", "field"):
            out.add(v)
        for a in v.args:
            leaves(a, out, seen)
    elif isinstance(v, Aff):
        for s, _ in v.t:
            leaves(s, out, seen)
    elif isinstance(v, EnumVal):
        leaves(v.v, out, seen)
    elif isinstance(v, VTuple):
        for x in v.items:
            leaves(x, out, seen)
    elif isinstance(v, Bs):
        for g in v.segs:
            for x in g[1:]:
                leaves(x, out, seen)
    elif isinstance(v, tuple):
        for x in v:
            leaves(x, out, seen)


class Ev:
    def __init__(self, env):
        self.env, self.memo = env, {}

    def __call__(self, v):
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return v
        if isinstance(v, EnumVal):
            return self(v.v)
        if isinstance(v, Aff):
            return v.c + sum(k * self.int(s) for s, k in v.t)
        if isinstance(v, VTuple):
            return tuple(self(x) for x in v.items)
        if isinstance(v, Bs):
            return b"".join(self.seg(g) for g in v.segs)
        if isinstance(v, Sym):
            if v not in self.memo:
                try:
                    self.memo[v] = self.sym(v)
                except (UnicodeError, OverflowError, ZeroDivisionError, IndexError, KeyError, ValueError):
                    self.memo[v] = Skip
                except (TypeError, AttributeError, MemoryError, LookupError):
                    self.memo[v] = Unknown
                except Unknown:
                    self.memo[v] = Unknown
            r = self.memo[v]
            if r is Skip or r is Unknown:
                raise r(v.tag)
            return r
        raise Unknown(type(v).__name__)

    def int(self, v):
        r = self(v)
        if not isinstance(r, int):
            raise Unknown("number")
        return int(r)

    def bytes(self, v):
        r = self(v)
        if isinstance(r, (list, tuple)):
            if not all(isinstance(x, int) for x in r):
                raise Unknown("items")
            return bytes(r)
        if not isinstance(r, bytes):
            raise Unknown("bytes")
        return r

    def seg(self, g):
        try:
            if g[0] == "c":
                return g[1]
            if g[0] == "z":
                n = self.int(g[1])
                if not 0 <= n <= LIMIT:
                    raise Skip("length")
                return bytes(n)
            if g[0] == "s":
                b, lo, hi = self.bytes(g[1]), self.int(g[2]), self.int(g[3])
                if not 0 <= lo <= hi <= len(b):
                    raise Skip("bounds")
                return b[lo:hi]
            if g[0] == "p":
                return concrete_pack(g[1], self(g[2]))
            if g[0] == "e":
                return self(g[2]).encode(*g[1])
            if g[0] == "f":
                return self.bytes(g[2])[:g[1]].ljust(g[1], b"\0")
        except (UnicodeError, OverflowError, ValueError):
            raise Skip(g[0]) from None
        except (TypeError, AttributeError):
            raise Unknown(g[0]) from None
        raise Unknown(g[0])

    def sym(self, s):
        t, a = s.tag, s.args
        if s in self.env:
            return self.env[s]
        if t in ("u", "ub"):
            b, k = self.bytes(a[1]), a[0]
            o = self.int(a[2]) if t == "u" else 0
            n = int(k[-1]) if k != "?" else 1
            if not 0 <= o <= len(b) - n:
                raise Skip("bounds")
            return concrete_unpack(k, b[o:o + n])
        if t in OPS:
            r = OPS[t](*[self.int(x) if t not in ("min", "max") else self(x) for x in a])
            if r is None:
                raise Unknown(t)
            return r
        if t in FOPS:
            return FOPS[t](*[x if i == 0 and t == "fop" else self(x) for i, x in enumerate(a)])
        f = getattr(self, "t_" + t, None)
        if f is None:
            raise Unknown(t)
        return f(*a)

    # ---- terms
    def t_len(self, x):
        return len(self(x))

    def t_enclen(self, c, x):
        return len(self(x).encode(*c))

    def t_dec(self, c, x):
        return self.bytes(x).decode(*c)

    def t_bsbox(self, x):
        return self.bytes(x)

    def t_bmeth(self, name, x, *args):
        r = getattr(self.bytes(x), name)(*[self(y) for y in args])
        return r

    t_bfind = t_bmeth

    def t_bpart(self, name, x, *args):
        return getattr(self.bytes(x), name)(*[self(y) for y in args[:-1]])[args[-1]]

    def t_smeth(self, name, x, *args):
        x = self(x)
        if not isinstance(x, str) or name == "format":
            raise Unknown("text")
        return getattr(x, name)(*[dict(y[1]) if isinstance(y, tuple) and y[:1] == ("dict",) else self(y) for y in args])

    def t_sorted(self, x, reverse):
        return sorted(self(x), reverse=bool(reverse))

    def t_stepslice(self, x, *bounds):
        b = [None if v == "None" else int(v) for v in bounds]
        return self.bytes(x)[slice(*b)]

    def t_slice(self, x, *bounds):
        try:
            b = [None if v == "None" else int(v) for v in bounds]
        except ValueError:
            raise Unknown("slice") from None
        return self(x)[slice(*b)]

    def t_item(self, x, i):
        return self(x)[self.int(i)]

    def t_seqof(self, kind, x):
        return list(self(x)) if kind == "list" else tuple(self(x))

    def t_iter(self, x):
        return list(self(x))

    def t_join(self, sep, x):
        return self.bytes(sep).join(self(x))

    def t_strjoin(self, sep, x):
        return self(sep).join(self(x))

    def t_concat(self, *xs):
        xs = [self(x) for x in xs]
        if not all(isinstance(x, str) for x in xs):
            raise Unknown("text")
        return "".join(xs)

    def t_hex(self, x):
        return self.bytes(x).hex()

    def t_fromhex(self, x):
        return bytes.fromhex(self(x))

    def t_repeat(self, x, n):
        x, n = self(x), self.int(n)
        if len(x) * n > LIMIT:
            raise Skip("length")
        return x * n

    def t_fstr(self, *xs):
        out = []
        for x in xs:
            x = self(x)
            if isinstance(x, bool) or not isinstance(x, (str, int, float)):
                raise Unknown("text")
            out.append(str(x))
        return "".join(out)

    def t_chr(self, x):
        return chr(self.int(x))

    def t_ord(self, x):
        return ord(self(x))

    def t_from_bytes(self, b, order, signed):
        return int.from_bytes(self.bytes(b), order, signed=bool(signed))

    def t_not(self, x):
        return not self(x)

    def t_beq(self, x, y):
        return self.bytes(x) == self.bytes(y)

    def t_inset(self, x, vals):
        return self.int(x) in vals

    t_member = t_inset

    def t_le(self, x, y):
        return self(x) <= self(y)

    def t_eq(self, x, y):
        return self(x) == self(y)

    def t_cmp(self, op, x, y):
        x, y = self(x), self(y)
        if type(x) is not type(y):
            raise Unknown("comparison")
        return CMP[op](x, y)

    def t_fcmp(self, op, x, y):
        return CMP[op](self(x), self(y))

    def t_eqv(self, x, y):
        x, y = self(x), self(y)
        if type(x) is not type(y):
            raise Unknown("comparison")
        return x == y

    def t_in(self, x, y):
        x, y = self(x), self(y)
        if not isinstance(y, (str, bytes)):
            raise Unknown("membership")
        return x in y

    def t_comp(self, it, dump):
        node = COMPS.get(dump)
        if node is None or len(node.generators) != 1 or isinstance(node, (ast.DictComp, ast.SetComp)):
            raise Unknown("comprehension")
        g = node.generators[0]
        if not isinstance(g.target, ast.Name) or g.is_async:
            raise Unknown("comprehension")
        out = []
        for x in self(it):
            env = {g.target.id: x}
            if all(expr(c, env) for c in g.ifs):
                out.append(expr(node.elt, env))
        return out


BIN = {ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b, ast.BitXor: lambda a, b: a ^ b, ast.Add: lambda a, b: a + b,
       ast.Sub: lambda a, b: a - b, ast.Mod: lambda a, b: a % b if not isinstance(a, (str, bytes)) else _unknown(), ast.LShift: lambda a, b: a << min(b, 64),
       ast.RShift: lambda a, b: a >> b, ast.FloorDiv: lambda a, b: a // b}
COMPARE = {ast.Lt: CMP["<"], ast.LtE: CMP["<="], ast.Eq: CMP["=="], ast.NotEq: CMP["!="], ast.Gt: CMP[">"], ast.GtE: CMP[">="],
           ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b, ast.Is: lambda a, b: a is b, ast.IsNot: lambda a, b: a is not b}
FUN = {"bytes": bytes, "chr": chr, "ord": ord, "int": int, "str": str, "len": len}
METHODS = {"upper", "lower", "isprintable", "isascii", "isalnum", "isdigit", "isspace", "strip", "rstrip", "lstrip", "replace", "isalpha"}


def _unknown(*a):
    raise Unknown("expression")


def expr(e, env):
    """an element expression without outside names"""
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name):
        return env[e.id] if e.id in env else _unknown()
    if isinstance(e, ast.BinOp) and type(e.op) in BIN:
        return BIN[type(e.op)](expr(e.left, env), expr(e.right, env))
    if isinstance(e, ast.UnaryOp):
        x = expr(e.operand, env)
        return not x if isinstance(e.op, ast.Not) else -x if isinstance(e.op, ast.USub) else ~x if isinstance(e.op, ast.Invert) else +x
    if isinstance(e, ast.BoolOp):
        v = None
        for x in e.values:
            v = expr(x, env)
            if bool(v) == isinstance(e.op, ast.Or):
                break
        return v
    if isinstance(e, ast.Compare):
        x = expr(e.left, env)
        for op, c in zip(e.ops, e.comparators):
            y = expr(c, env)
            if not COMPARE[type(op)](x, y):
                return False
            x = y
        return True
    if isinstance(e, ast.IfExp):
        return expr(e.body if expr(e.test, env) else e.orelse, env)
    if isinstance(e, (ast.Tuple, ast.List)):
        return [expr(x, env) for x in e.elts]
    if isinstance(e, ast.Call) and not e.keywords:
        args = [expr(x, env) for x in e.args]
        if isinstance(e.func, ast.Name) and e.func.id in FUN and e.func.id not in env and len(args) == 1:
            return FUN[e.func.id](args[0])
        if isinstance(e.func, ast.Attribute) and e.func.attr in METHODS:
            return getattr(expr(e.func.value, env), e.func.attr)(*args)
    return _unknown()


FILL = [lambda n, r: bytes(i * 7 + 1 & 255 for i in range(n)),
        lambda n, r: bytes(n),
        lambda n, r: bytes(r.randrange(256) for _ in range(n)),
        lambda n, r: bytes(r.choice((0, 0, 65, 97, 255)) for _ in range(n)),
        lambda n, r: bytes(r.choice(b"aB \0\xe4z/0\n") for _ in range(n)),
        lambda n, r: (b"\0 aB" + b"c\0D" * n)[:n],
        lambda n, r: (b" aB" + b"c" * n)[:max(n - 2, 0)].ljust(n, b"\0"),
        lambda n, r: (b"Ab" + b"cD" * n)[:max(n - 1, 0)].ljust(n, b" "),
        lambda n, r: b"\xff" * n,
        lambda n, r: bytes(r.choice(b" \0\r\n\t.") for _ in range(n)),
        lambda n, r: bytes(r.choice(b"ab\r\n&;\t{}%s/\\'\"") for _ in range(n)),
        lambda n, r: (b"\r\n&amp; %s\t\n" * n)[:n],
        lambda n, r: b"".join(r.choice((b"\r\n", b"  ", b"\\n", b"ab", b"\0", b"&lt;", b"\n")) for _ in range(n))[:n]]
TEXT = ["aB\xe4", "Ab ", " xY", "a\0b", "zz\0", "\0q", "/ok\n", "ABC", "1.0", "\xdf\xe9 ", "a,b;c", "\t\xa0", "a\r\nb", "x\r\n", "&amp;", "{}%s", "\\n", "a\tb", "a  b", "-1", "\n\n"]
FLOATS = [0.0, 1.5, -2.25, 1e9, 3.0e-5]


def text_of(codec, n, rnd):
    out, left = "", n
    pat = rnd.choice(TEXT)
    i = 0
    while left > 0:
        c = pat[i % len(pat)]
        i += 1
        try:
            k = len(c.encode(*codec))
        except UnicodeError:
            k = 99
        if k > left:
            c, k = "a", 1
        out += c
        left -= k
    # what the pattern ends with belongs at the end
    e = pat[-1]
    if n >= 2 and ord(e) < 128 and out:
        k = len(out[-1].encode(*codec))
        if k == 1:
            out = out[:-1] + e
    return out


def pick(lo, hi, rnd):
    lo = -(1 << 64) if lo == -INF else int(lo)
    hi = 1 << 64 if hi == INF else int(hi)
    return rnd.choice((lo, hi, min(hi, lo + rnd.randint(0, 40)), rnd.randint(lo, hi)))


def syms_in(st, terms):
    from .state import syms_of
    out = set()
    for x in terms:
        out |= syms_of(x)
    for k in list(st.bounds) + list(st.ne):
        for s, _ in k:
            out |= syms_of(s)
    for k, v in st.subst.items():
        out |= syms_of(k) | syms_of(v)
    for k in st.bools:
        out |= syms_of(k)
    return out


def valuation(st, syms, rnd, sizes):
    """bytes and fields that agree with the facts of the path, as far as they can be solved here"""
    ints = {s for s in syms if s.tag in ("u", "len", "enclen") or s.tag == "field" and s.ty == "int"}
    base = {s for s in ints if not (s.tag == "u" and not (isinstance(s.args[1], Sym) and s.args[1].tag == "src"))
            and not (s.tag == "len" and not (isinstance(s.args[0], Sym) and s.args[0].tag in ("src", "field")))}
    free = [Aff(0, ((s, 1),)) for s in sorted(base, key=lambda s: s.id) if s not in st.subst]
    small = {s for s in base if s.tag in ("len", "enclen")}
    sized = [n for n in (st.norm(Aff(0, ((s, 1),))) for s in sorted(small, key=lambda s: s.id)) if not isinstance(n, int)]
    seed = rnd.randrange(1 << 30)
    big = rnd.choice(sizes)
    keys = [k for k in st.bounds if len(k) > 1 and st.bounds[k][0] != -INF]
    tight = rnd.choice(keys) if keys and rnd.random() < 0.3 else None         # what just fits
    terms, room = (sized + [Aff(0, tight)], st.bounds[tight][0] + 3) if tight else (sized + [0], 0)
    w = witness(st, terms, lambda *v: all(0 <= n <= LIMIT for n in v[:-1]) and max(v[:-1]) >= big and v[-1] <= room, 800, seed) if sized else {}
    if w is None and big:
        sizes.remove(big)
    if w is None:
        return None
    vals = dict(w)
    for k in st.bools:
        if k.tag == "inset" and st.bools[k] and isinstance(k.args[0], Aff) and k.args[0].atom is not None:
            a = k.args[0].atom
            if vals.get(a) not in k.args[1]:
                vals[a] = rnd.choice(k.args[1])
    env = {}
    for t in free:
        s = t.atom
        if s not in vals:
            lo, hi = st.range_atom(s)
            if s in small:
                hi = min(hi, lo + 40)
            vals[s] = pick(lo, hi, rnd)
    # values that the path fixes
    def solve(v, depth=0):
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, EnumVal):
            return solve(v.v)
        if isinstance(v, Aff):
            r = v.c
            for s, k in v.t:
                q = solve(s, depth)
                if q is None:
                    return None
                r += k * q
            return r
        if isinstance(v, Sym):
            if v in vals:
                return vals[v]
            if v in st.subst and depth < 8:
                return solve(st.subst[v], depth + 1)
            if v.tag in OPS:
                xs = [solve(q, depth) for q in v.args]
                return None if None in xs else OPS[v.tag](*xs)
        return None
    for s in base:
        if s in st.subst:
            q = solve(st.subst[s])
            if q is not None:
                vals[s] = q
    for s in syms:
        if s.tag == "src":
            n = solve(Sym("len", (s,), "int"))
            if n is None:
                n = 64
            if not 0 <= n <= LIMIT:
                return None
            buf = bytearray(rnd.choice(FILL)(n, rnd))
            for q in base:
                if q.tag == "u" and q.args[1] is s and q in vals:
                    facts = q in st.subst or q in w
                    if not facts and rnd.random() < 0.7 and not constrained(st, q):
                        continue
                    o = solve(q.args[2])
                    k = q.args[0]
                    m = int(k[-1]) if k != "?" else 1
                    if o is None or not 0 <= o <= n - m:
                        continue
                    try:
                        buf[o:o + m] = concrete_pack(k, vals[q])
                    except (OverflowError, ValueError, TypeError):
                        return None
            env[s] = bytes(buf)
        elif s.tag == "field":
            k = s.args[1]
            if s.ty == "bytes":
                n = int(k[1:]) if isinstance(k, str) and k[:1] == "s" and k[1:].isdigit() else solve(Sym("len", (s,), "int"))
                n = rnd.randint(0, 20) if n is None else n
                if not 0 <= n <= LIMIT:
                    return None
                env[s] = rnd.choice(FILL)(n, rnd)
            elif s.ty == "str":
                es = [q for q in syms if q.tag == "enclen" and q.args[1] is s]
                n, c = None, ("utf-8", "strict")
                for q in es:
                    n, c = solve(q), q.args[0]
                n = rnd.randint(0, 9) if n is None else n
                if not 0 <= n <= LIMIT:
                    return None
                env[s] = text_of(c, n, rnd)
            elif s.ty == "float":
                env[s] = rnd.choice(FLOATS)
            elif s.ty == "int" and s in vals:
                env[s] = vals[s]
            elif s.ty == "int":
                q = solve(s)
                if q is None:
                    return None
                env[s] = q
            else:
                return None
    return env


def constrained(st, q):
    return any(q is s for k in list(st.bounds) + list(st.ne) for s, _ in k) or any(
        k.tag == "inset" and isinstance(k.args[0], Aff) and k.args[0].atom is q for k in st.bools)


def holds(st, E):
    """do the facts of the path hold? Unknown if one of them cannot be evaluated"""
    for k, (lo, hi) in st.bounds.items():
        if not lo <= E(Aff(0, k)) <= hi:
            return False
    for k, vs in st.ne.items():
        if E(Aff(0, k)) in vs:
            return False
    for k, v in st.subst.items():
        if not eqv(E(k), E(v)):
            return False
    for k, t in st.bools.items():
        if bool(E(k)) != t:
            return False
    return True


def eqv(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or math.isnan(a) and math.isnan(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    return a == b


def shown(st, terms, pred, tries=1500, enough=250):
    """True: the terms satisfy pred for an input that takes this path; None: not shown"""
    if st.unk:
        return None
    terms = [st.norm(x) if isinstance(x, (Sym, Aff, Bs)) else x for x in terms]
    syms = syms_in(st, terms)
    rnd = random.Random(5)
    sizes = [0] * 9 + [130, 260, 1100, 4096]
    for _ in range(tries):
        try:
            env = valuation(st, syms, rnd, sizes)
            if env is None:
                continue
            E = Ev(env)
            if not holds(st, E):
                continue
            if pred(*[E(x) for x in terms]):
                return True
            enough -= 1
            if not enough:
                return None
        except Skip:
            continue
        except Unknown:
            return None
    return None


def other(a, b):
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        raise Unknown("type")
    return not eqv(a, b)


def refute(st, x, y):
    """True: they differ for an input that takes this path; None: not shown"""
    return shown(st, (x, y), other)
