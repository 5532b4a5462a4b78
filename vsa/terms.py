"""Abstract values: affine integers, provenance byte strings, uninterpreted terms.

Concrete scalars (None, bool, int, float, str, bytes) represent themselves.
"""
import struct as _struct

INF = float("inf")


class Sym:
    """Uninterpreted, hash-consed term."""
    __slots__ = ("tag", "args", "ty", "id", "__weakref__")
    _table = {}
    _n = 0

    def __new__(cls, tag, args=(), ty="any"):
        key = (tag, args, ty, tuple(type(a) for a in args))
        s = cls._table.get(key)
        if s is None:
            s = object.__new__(cls)
            s.tag, s.args, s.ty = tag, args, ty
            Sym._n += 1
            s.id = Sym._n
            cls._table[key] = s
        return s

    def __repr__(self):
        if self.tag == "u":
            return f"{self.args[0]}@{show(self.args[1])}[{show(self.args[2])}]"
        if self.tag in ("src", "field", "fresh"):
            return str(self.args[0])
        return f"{self.tag}({', '.join(show(a) for a in self.args)})"

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_fresh = [0]


def fresh(name, ty="any"):
    _fresh[0] += 1
    return Sym("fresh", (f"{name}#{_fresh[0]}",), ty)


def show(v):
    if isinstance(v, Bs):
        return "+".join(_showseg(s) for s in v.segs) or "b''"
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x) for x in v) + ")"
    return repr(v)


def _showseg(s):
    if s[0] == "s":
        return f"{show(s[1])}[{show(s[2])}:{show(s[3])}]"
    if s[0] == "p":
        return f"pack<{s[1]}>({show(s[2])})"
    if s[0] == "z":
        return f"zeros({show(s[1])})"
    if s[0] == "e":
        return f"encode<{s[1]}>({show(s[2])})"
    if s[0] == "f":
        return f"fit<{s[1]}>({show(s[2])})"
    return repr(s[1])


class Aff:
    """const + sum(coef*atom), at least one atom. Atoms are Syms."""
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t):
        self.c, self.t = c, t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Aff) and self.c == o.c and self.t == o.t

    def __repr__(self):
        out = []
        for a, k in self.t:
            out.append(("" if k == 1 else "-" if k == -1 else f"{k}*") + show(a))
        s = "+".join(out)
        if self.c:
            s += f"{self.c:+d}"
        return s.replace("+-", "-")

    @property
    def atom(self):
        """the atom, if this is just 1*atom+0"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None


def mk(c, d):
    t = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id))
    return Aff(c, t) if t else c


def atom(sym):
    return Aff(0, ((sym, 1),))


def isint(v):
    return isinstance(v, Aff) or (isinstance(v, int))


def parts(v):
    if isinstance(v, Aff):
        return v.c, v.t
    return int(v), ()


def add(a, b, kb=1):
    ca, ta = parts(a)
    cb, tb = parts(b)
    if not ta and not tb:
        return ca + kb * cb
    d = dict(ta)
    for s, k in tb:
        d[s] = d.get(s, 0) + kb * k
    return mk(ca + kb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, k):
    c, t = parts(a)
    if k == 0:
        return 0
    return mk(c * k, {s: q * k for s, q in t})


class Bs:
    """Byte string as a sequence of provenance segments."""
    __slots__ = ("segs", "_h")

    def __init__(self, segs):
        self.segs = segs
        self._h = hash(segs)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Bs) and self.segs == o.segs

    def __repr__(self):
        return "Bs<" + show(self) + ">"


KINDS = {}  # kind -> (size, lo, hi)
for _n in (1, 2, 4, 8):
    KINDS[f"u{_n}"] = (_n, 0, (1 << 8 * _n) - 1)
    KINDS[f"i{_n}"] = (_n, -(1 << 8 * _n - 1), (1 << 8 * _n - 1) - 1)
    KINDS[f"be:u{_n}"] = KINDS[f"u{_n}"]
    KINDS[f"be:i{_n}"] = KINDS[f"i{_n}"]
for _n in (2, 4, 8):
    KINDS[f"f{_n}"] = (_n, -INF, INF)
    KINDS[f"be:f{_n}"] = KINDS[f"f{_n}"]
KINDS["?"] = (1, 0, 1)


def concrete_unpack(kind, b):
    be = kind.startswith("be:")
    k = kind[3:] if be else kind
    o = ">" if be else "<"
    if k == "?":
        return b[0] != 0
    if k[0] == "f":
        return _struct.unpack(o + {2: "e", 4: "f", 8: "d"}[int(k[1])], b)[0]
    return int.from_bytes(b, "big" if be else "little", signed=k[0] == "i")


def concrete_pack(kind, v):
    be = kind.startswith("be:")
    k = kind[3:] if be else kind
    if k == "?":
        return b"\x01" if v else b"\x00"
    if k[0] == "f":
        return _struct.pack((">" if be else "<") + {2: "e", 4: "f", 8: "d"}[int(k[1])], v)
    return int(v).to_bytes(int(k[1]), "big" if be else "little", signed=k[0] == "i")


_CH = {"b": "i", "B": "u", "h": "i", "H": "u", "i": "i", "I": "u", "l": "i", "L": "u", "q": "i", "Q": "u",
       "n": "i", "N": "u", "P": "u"}


class StructV:
    """struct.Struct with a constant format."""
    __slots__ = ("fmt", "order", "items", "size", "native_differs")

    def __init__(self, fmt):
        if isinstance(fmt, bytes):
            fmt = fmt.decode()
        self.fmt = fmt
        f = fmt.strip()
        order = "@"
        if f[:1] in "@=<>!":
            if f[:1]:
                order, f = f[0], f[1:]
        self.order = order
        self.size = _struct.calcsize(fmt)
        items = []
        pos_fmt = order
        num = ""
        for ch in f:
            if ch.isspace():
                continue
            if ch.isdigit():
                num += ch
                continue
            n = int(num) if num else 1
            if ch in "sp":
                pos_fmt += f"{n}{ch}"
                items.append((_struct.calcsize(pos_fmt) - n, "s" if ch == "s" else "pascal", n))
            elif ch == "x":
                pos_fmt += f"{n}x"
            else:
                for _ in range(n):
                    pos_fmt += ch
                    size = _struct.calcsize(order + ch)
                    if ch in "fde":
                        kind = f"f{size}"
                    elif ch == "?":
                        kind = "?"
                    elif ch == "c":
                        kind = "c"
                    else:
                        kind = f"{_CH[ch]}{size}"
                    if order in ">!" and size > 1 and kind != "c":
                        kind = "be:" + kind
                    items.append((_struct.calcsize(pos_fmt) - size, kind, size))
            num = ""
        self.items = items
        std = _struct.calcsize("<" + f) if not set(f) & set("nNP") else -1
        self.native_differs = order == "@" and std != self.size

    @property
    def host_dependent(self):
        """byte order (or padding/width) taken from the host"""
        if self.order in "<>!":
            return False
        return any(sz > 1 and k not in ("s", "pascal") for _, k, sz in self.items) or self.native_differs

    def __repr__(self):
        return f"Struct({self.fmt!r})"

    def __hash__(self):
        return hash(self.fmt)

    def __eq__(self, o):
        return isinstance(o, StructV) and self.fmt == o.fmt


class VTuple:
    __slots__ = ("items", "_h", "cls")

    def __init__(self, items, cls=None):
        self.items = tuple(items)
        self.cls = cls
        self._h = None

    def __hash__(self):
        return hash(self.items)

    def __eq__(self, o):
        return isinstance(o, VTuple) and len(self.items) == len(o.items) and all(
            type(a) is type(b) and a == b for a, b in zip(self.items, o.items))

    def __repr__(self):
        return "(" + ", ".join(map(show, self.items)) + ")"


class Ref:
    """Reference to a mutable heap object."""
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __hash__(self):
        return hash(("ref", self.id))

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __repr__(self):
        return f"<obj {self.id}>"


class EnumVal:
    """Value of an enumeration class with a symbolic or constant number."""
    __slots__ = ("cls", "v")

    def __init__(self, cls, v):
        self.cls, self.v = cls, v

    def __hash__(self):
        return hash((self.cls, self.v))

    def __eq__(self, o):
        return isinstance(o, EnumVal) and o.cls is self.cls and o.v == self.v and type(o.v) is type(self.v)

    def __repr__(self):
        return f"{self.cls.name}({show(self.v)})"


class Slice:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
