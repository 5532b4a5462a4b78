"""Models of Python's builtin values and of the library calls the code base uses."""
import ast
import builtins as _bi

from . import state as S
from .interp import (NODEFAULT, BM, BoundV, ClassM, ClassV, Ctx, ExcV, ExtV, FieldCall, FuncV, ModV, PartialV, PropV, Raised,
                     CachedV, StaticM, SuperV, _dset, _h, keyeq, same, text_len)
from .state import (BA, DictO, Env, GenO, Inst, IterO, ListO, OpaqueO, StreamO, bs_slice, bslen, concat, decode_val, syms_of,
                    encode_segs, fit_segs, mkbs, mkv, norm_codec, opaque_bytes, pack_segs, read_item, stream_slice)
from .terms import INF, KINDS, Aff, Bs, EnumVal, Ref, Slice, StructV, Sym, VTuple, add, atom, fresh, mul, show, sub

ABSENT = object()

CONSTS = {"os.SEEK_SET": 0, "os.SEEK_CUR": 1, "os.SEEK_END": 2, "io.SEEK_SET": 0, "io.SEEK_CUR": 1, "io.SEEK_END": 2,
          "zlib.Z_DEFAULT_COMPRESSION": -1, "zlib.Z_BEST_COMPRESSION": 9, "zlib.Z_BEST_SPEED": 1, "zlib.Z_NO_COMPRESSION": 0,
          "zlib.MAX_WBITS": 15, "zlib.Z_FINISH": 4, "zlib.Z_SYNC_FLUSH": 2, "zlib.DEFLATED": 8,
          "typing.TYPE_CHECKING": False, "sys.maxsize": (1 << 63) - 1, "io.DEFAULT_BUFFER_SIZE": 8192,
          "builtins.True": True}
STREAM_ATTRS = {"read", "write", "seek", "tell", "close", "closed", "truncate", "flush", "seekable", "readable", "writable",
                "getvalue", "getbuffer", "readinto", "fileno", "name", "mode", "__enter__", "__exit__", "peek", "isatty", "raw"}
INTBIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}
PY = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
      "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b, "<<": lambda a, b: a << b,
      ">>": lambda a, b: a >> b, "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b}


# ------------------------------------------------------------------------------------------------ coercions
def num(v):
    """int-valued view (int / Aff) or None"""
    while isinstance(v, EnumVal):
        v = v.v
    if isinstance(v, (int, Aff)):
        return v
    if isinstance(v, Sym) and v.ty in ("int", "any", "bool"):
        return atom(v)
    return None


def is_intlike(v):
    while isinstance(v, EnumVal):
        v = v.v
    return isinstance(v, (int, Aff)) or (isinstance(v, Sym) and v.ty == "int")


def is_float(v):
    return isinstance(v, float) or (isinstance(v, Sym) and v.ty == "float")


def tobs(st, v):
    """bytes-valued view or None"""
    if isinstance(v, (bytes, Bs)):
        return v
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, BA):
            return o.content
        if isinstance(o, OpaqueO) and o.name == "mv":
            base = tobs(st, o.data[0])
            return bs_slice(st, base, o.data[1], o.data[2])
        if isinstance(o, ListO) and all(isinstance(x, int) and 0 <= x < 256 for x in o.items):
            return bytes(o.items)
    if isinstance(v, Sym) and v.ty in ("any", "bytes"):
        return opaque_bytes(v)
    return None


def is_byteslike(st, v):
    if isinstance(v, (bytes, Bs)) or (isinstance(v, Sym) and v.ty == "bytes"):
        return True
    if isinstance(v, Ref):
        o = st.get(v)
        return isinstance(o, BA) or (isinstance(o, OpaqueO) and o.name == "mv")
    return False


def is_str(v):
    return isinstance(v, str) or (isinstance(v, Sym) and v.ty == "str")


def arg(args, kwargs, i, name, default=None):
    if i is not None and i < len(args):
        return args[i]
    return kwargs.get(name, default)


def mod_(st, x, m):
    if isinstance(x, int) and isinstance(m, int) and m:
        return x % m
    if isinstance(m, int) and m > 0:
        r = st.residue(x, m)
        if r is not None:
            return r
        x = st.norm(x)
        lo, hi = st.range(x)
        if lo >= 0 and hi < m:
            return x
        # drop multiples of m and flatten nested remainders
        for _ in range(4):
            c, d, hit = x.c % m, {}, False
            for s, k in x.t:
                k %= m
                if not k:
                    continue
                if s.tag == "mod" and isinstance(s.args[1], int) and s.args[1] % m == 0:
                    hit = True
                    y = mul(s.args[0], k)
                    c += y.c if isinstance(y, Aff) else y
                    for s2, k2 in (y.t if isinstance(y, Aff) else ()):
                        d[s2] = d.get(s2, 0) + k2
                else:
                    d[s] = d.get(s, 0) + (k if k <= m // 2 else k - m)
            x2 = S.mk(c % m, d)
            if isinstance(x2, int):
                return x2 % m
            if x2 == x or not hit:
                x = x2
                break
            x = x2
        lo, hi = st.range(x)
        if lo >= 0 and hi < m:
            return x
        return atom(Sym("mod", (x, m), "int"))
    return atom(Sym("mod", (_h(x), _h(m)), "int"))


def fdiv_(st, x, m):
    if isinstance(x, int) and isinstance(m, int) and m:
        return x // m
    if isinstance(m, int) and m > 0:
        if m == 1:
            return x
        x = st.norm(x)
        if isinstance(x, int):
            return x // m
        c, whole, rest = x.c, {}, {}
        for s, k in x.t:
            if k % m == 0:
                whole[s] = k // m
            else:
                rest[s] = k
        w = S.mk(c // m, whole)
        r = S.mk(c % m, rest)
        if isinstance(r, int):
            return w
        lo, hi = st.range(r)
        if lo >= 0 and hi < m:
            return w
        return add(w, atom(Sym("fdiv", (r, m), "int")))
    return atom(Sym("fdiv", (_h(x), _h(m)), "int"))


# ------------------------------------------------------------------------------------------------ binary operators
def binop(I, st, op, a, b, node, ctx):
    o = INTBIN.get(type(op))
    if o is None:
        return [(st, I.unk(st, f"operator {type(op).__name__}", node, ctx))]
    if isinstance(a, EnumVal) and isinstance(b, (EnumVal, int, Aff)) and o in "&|^" and a.cls.enum in ("flag", "pflag"):
        r = _intop(I, st, o, num(a), num(b))
        return [(st, EnumVal(a.cls, r))]
    if isinstance(b, EnumVal) and isinstance(a, (int, Aff)) and o in "&|^" and b.cls.enum == "flag":
        return [(st, EnumVal(b.cls, _intop(I, st, o, a, num(b))))]
    # type unions such as  str | None
    if o == "|" and (isinstance(a, (ClassV, ExtV)) or isinstance(b, (ClassV, ExtV)) or (isinstance(a, VTuple) and a.cls == "union")):
        items = list(a.items) if isinstance(a, VTuple) else [a]
        return [(st, VTuple(items + [b], "union"))]
    ba, bb = is_byteslike(st, a), is_byteslike(st, b)
    if o == "+" and (ba or bb):
        x, y = tobs(st, a), tobs(st, b)
        if x is None or y is None:
            return I.raise_(st, "builtins.TypeError", node, ctx, "bytes + non-bytes")
        r = concat(x, y, st)
        if isinstance(a, Ref) and isinstance(st.get(a), BA):
            return [(st, st.alloc(BA(r)))]
        return [(st, r)]
    if o == "*" and (ba or bb):
        x, n = (a, b) if ba else (b, a)
        isba = isinstance(x, Ref)
        x, n = tobs(st, x), num(n)
        out = []
        for s, r in _repeat(I, st, x, n, node, ctx):
            out.append((s, s.alloc(BA(r)) if isba and not isinstance(r, Raised) else r))
        return out
    if is_str(a) or is_str(b):
        if isinstance(a, str) and isinstance(b, (str, int)) and not isinstance(b, bool) and o in "+*":
            try:
                return [(st, PY[o](a, b))]
            except TypeError:
                return I.raise_(st, "builtins.TypeError", node, ctx)
        if o == "+" and (is_str(a) or isinstance(a, Sym)) and (is_str(b) or isinstance(b, Sym)):
            pa = a.args if isinstance(a, Sym) and a.tag == "concat" else (a,)
            pb = b.args if isinstance(b, Sym) and b.tag == "concat" else (b,)
            return [(st, text_concat(pa + pb))]
        if o == "%" and a == "%s" and isinstance(b, Sym) and b.ty == "str":
            return [(st, b)]
        return [(st, Sym("strop", (o, _h(a), _h(b)), "str"))]
    if isinstance(a, VTuple) and isinstance(b, VTuple) and o == "+":
        return [(st, VTuple(a.items + b.items))]
    if isinstance(a, VTuple) and isinstance(b, int) and o == "*":
        return [(st, VTuple(a.items * b))]
    if isinstance(a, Ref) or isinstance(b, Ref):
        oa = st.get(a) if isinstance(a, Ref) else None
        ob = st.get(b) if isinstance(b, Ref) else None
        if isinstance(oa, ListO) and isinstance(ob, ListO) and o == "+":
            return [(st, st.alloc(ListO(oa.items + ob.items)))]
        if isinstance(oa, ListO) and isinstance(b, int) and o == "*":
            return [(st, st.alloc(ListO(oa.items * b)))]
        if isinstance(oa, DictO) and isinstance(ob, DictO) and o == "|":
            items = list(oa.items)
            for k, v in ob.items:
                items = _dset(items, k, v)
            return [(st, st.alloc(DictO(items)))]
        if isinstance(oa, ListO) and isinstance(ob, ListO) and oa.kind != "list":
            ins = [x for x in oa.items if any(keyeq(x, y) for y in ob.items)]
            if o == "|":
                return [(st, st.alloc(ListO(list(oa.items) + [y for y in ob.items if not any(keyeq(x, y) for x in oa.items)], oa.kind)))]
            if o == "&":
                return [(st, st.alloc(ListO(ins, oa.kind)))]
            if o == "-":
                return [(st, st.alloc(ListO([x for x in oa.items if not any(x is i for i in ins)], oa.kind)))]
        if isinstance(oa, Inst):
            m = {"+": "__add__", "-": "__sub__", "|": "__or__", "&": "__and__", "*": "__mul__", "%": "__mod__"}.get(o)
            if m and I.class_attr(st, oa.cls, m) is not None:
                return I.call_attr(st, a, m, [b], {}, node, ctx)
        return [(st, I.unk(st, f"operator {o} on objects", node, ctx))]
    if is_float(a) or is_float(b) or o == "/":
        x = a.v if isinstance(a, EnumVal) else a
        y = b.v if isinstance(b, EnumVal) else b
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            try:
                return [(st, PY[o](x, y))]
            except ZeroDivisionError:
                return I.raise_(st, "builtins.ZeroDivisionError", node, ctx)
            except (OverflowError, TypeError):
                return I.raise_(st, "builtins.OverflowError", node, ctx)
        return [(st, Sym("fop", (o, st.norm(_h(x)), st.norm(_h(y))), "float"))]
    x, y = num(a), num(b)
    if x is not None and y is not None and (is_intlike(a) or is_intlike(b)):
        if o in ("//", "%") and y == 0 and isinstance(y, int):
            return I.raise_(st, "builtins.ZeroDivisionError", node, ctx)
        return [(st, _intop(I, st, o, x, y))]
    if o == "+" and isinstance(a, Sym) and isinstance(b, Sym) and "timedelta" in (a.tag, b.tag):
        r = later(st, *((a, b) if b.tag == "timedelta" else (b, a)))
        if r is not None:
            return [(st, r)]
    if isinstance(a, Sym) or isinstance(b, Sym):
        return [(st, Sym("op", (o, _h(a), _h(b)), "any"))]
    if a is None or b is None:
        return I.raise_(st, "builtins.TypeError", node, ctx)
    return [(st, I.unk(st, f"operator {o} on {show(a)}, {show(b)}", node, ctx))]


def _repeat(I, st, x, n, node, ctx):
    if n is None:
        return [(st, I.unk(st, "bytes repetition", node, ctx, "bytes"))]
    if isinstance(n, int):
        if isinstance(x, bytes) and n * len(x) < 65536:
            return [(st, x * n)]
        if n <= 0:
            return [(st, b"")]
        if isinstance(x, Bs) and n <= 16:
            return [(st, mkbs(S.segs_of(x) * n, st))]
        if x and isinstance(x, bytes) and not any(x):
            return [(st, mkbs([("z", n * len(x))]))]
    if isinstance(x, bytes) and x and not any(x):
        out = []
        for s, neg in I.fork_le(st, n, 0):
            out.append((s, b"" if neg else mkbs([("z", mul(n, len(x)))])))
        return out
    if isinstance(x, bytes) and not x:
        return [(st, b"")]
    return [(st, opaque_bytes(Sym("repeat", (x, n), "bytes")))]


def _intop(I, st, o, x, y):
    if isinstance(x, int) and isinstance(y, int):
        try:
            return PY[o](int(x), int(y))
        except (ValueError, ZeroDivisionError, OverflowError):
            return atom(Sym("badop", (o, x, y), "int"))
    if o == "+":
        return st.norm(add(x, y))
    if o == "-":
        return st.norm(sub(x, y))
    if o == "*":
        if isinstance(y, int):
            return mul(x, y)
        if isinstance(x, int):
            return mul(y, x)
        return atom(Sym("mulx", tuple(sorted((x, y), key=repr)), "int"))
    if o == "%":
        return mod_(st, x, y)
    if o == "//":
        return fdiv_(st, x, y)
    if o == "<<" and isinstance(y, int) and 0 <= y < 128:
        return mul(x, 1 << y)
    if o == ">>" and isinstance(y, int) and y >= 0:
        return fdiv_(st, x, 1 << y)
    if o == "&":
        if isinstance(x, int):
            x, y = y, x
        if isinstance(y, int):
            if y == 0:
                return 0
            if y > 0 and (y & (y + 1)) == 0:
                return mod_(st, x, y + 1)
            if y < 0 and ((-y) & (-y - 1)) == 0:
                return sub(x, mod_(st, x, -y))
            lo, hi = st.range(x)
            # mask of contiguous high bits covering the value, e.g. & 0xFFFFFFF8
            if lo >= 0 and hi < INF:
                low = (y & -y)
                if y + low == 1 << y.bit_length() and hi < (1 << y.bit_length()):
                    return sub(x, mod_(st, x, low))
        return atom(Sym("band", tuple(sorted((x, y), key=repr)), "int"))
    if o == "|":
        for p, q in ((x, y), (y, x)):
            if isinstance(q, int) and q == 0:
                return p
            # disjoint bits: p is a multiple of 2^k and 0 <= q < 2^k
            lo, hi = st.range(q)
            if lo >= 0 and hi < INF:
                k = int(hi).bit_length()
                if st.residue(p, 1 << k) == 0:
                    return st.norm(add(p, q))
    if o == "^":
        for p, q in ((x, y), (y, x)):
            if isinstance(q, int) and q == 0:
                return p
    return atom(Sym({"|": "bor", "^": "bxor", "<<": "shl", ">>": "shr", "**": "pow"}.get(o, "iop"), (x, y), "int"))


# ------------------------------------------------------------------------------------------------ comparisons
def compare(I, st, op, a, b, node, ctx):
    if op in ("is not", "!=", "not in"):
        pos = {"is not": "is", "!=": "==", "not in": "in"}[op]
        if op == "!=" and isinstance(a, Ref) and isinstance(st.get(a), Inst) and I.class_attr(st, st.get(a).cls, "__ne__"):
            return I.call_attr(st, a, "__ne__", [b], {}, node, ctx)
        return [(s, v if isinstance(v, Raised) else neg(v)) for s, v in compare(I, st, pos, a, b, node, ctx)]
    if op == "in":
        return contains(I, st, a, b, node, ctx)
    if op == "is":
        return [(st, identical(st, a, b))]
    if op in (">", ">="):
        a, b = b, a
        op = {">": "<", ">=": "<="}[op]
    if op == "==":
        return equal(I, st, a, b, node, ctx)
    # < and <=
    if isinstance(a, VTuple) and isinstance(b, VTuple):
        try:
            ta, tb = [x for x in a.items], [x for x in b.items]
            if all(isinstance(x, (int, str)) for x in ta + tb):
                return [(st, (ta < tb) if op == "<" else (ta <= tb))]
        except TypeError:
            pass
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return [(st, a < b if op == "<" else a <= b)]
    if is_float(a) or is_float(b):
        return [(st, Sym("fcmp", (op, _h(a), _h(b)), "bool"))]
    if isinstance(a, (bytes, str)) and isinstance(b, (bytes, str)) and type(a) is type(b):
        return [(st, a < b if op == "<" else a <= b)]
    x, y = num(a), num(b)
    if x is not None and y is not None and (is_intlike(a) or is_intlike(b) or (isinstance(a, Sym) and isinstance(b, Sym))):
        if op == "<":
            x = add(x, 1)
        d = st.le(x, y)
        return [(st, d if d is not None else Sym("le", (st.norm(x), st.norm(y)), "bool"))]
    if a is None or b is None:
        return I.raise_(st, "builtins.TypeError", node, ctx)
    return [(st, Sym("cmp", (op, _h(a), _h(b)), "bool"))]


def neg(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, Sym) and v.tag == "not":
        return v.args[0]
    if isinstance(v, Sym):
        return Sym("not", (v,), "bool")
    return not v


def identical(st, a, b):
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if y is None or isinstance(y, bool):
            if y is None and S.from_generator(x):
                return False
            if isinstance(x, Sym) and x.ty in ("any",):
                x2 = st.norm(x)
                if x2 is y:
                    return True
                return Sym("is", (x, y), "bool")
            if isinstance(y, bool) and isinstance(x, Sym) and x.ty == "bool":
                return x if y else Sym("not", (x,), "bool")
            return x is y
    if isinstance(a, EnumVal) and isinstance(b, EnumVal):
        if a.cls is not b.cls:
            return False
        d = st.eq(num(a), num(b)) if num(a) is not None and num(b) is not None else a == b
        return d if d is not None else Sym("eq", (num(a), num(b)), "bool")
    if isinstance(a, (ClassV, ExtV, FuncV, ModV, StructV)) or isinstance(b, (ClassV, ExtV, FuncV, ModV, StructV)):
        if isinstance(a, Sym) or isinstance(b, Sym):
            return Sym("is", (_h(a), _h(b)), "bool")
        return a == b
    if isinstance(a, Ref) or isinstance(b, Ref):
        if any(isinstance(x, Sym) and x.ty in ("str", "bytes", "int", "float", "bool", "datetime") for x in (a, b)):
            return False
        if isinstance(a, Sym) or isinstance(b, Sym):
            return Sym("is", (_h(a), _h(b)), "bool")
        return a == b
    if type(a) is type(b) and a == b:
        return True
    return Sym("is", (_h(a), _h(b)), "bool")


def eq_items(I, st, pairs, node, ctx):
    live, out = [(st, ())], []
    for x, y in pairs:
        nxt = []
        for s, open_ in live:
            if isinstance(x, (Sym, Aff, Ref, Bs, EnumVal)) and type(x) is type(y) and x == y:
                nxt.append((s, open_))
                continue
            for s2, r in equal(I, s, x, y, node, ctx):
                if r is False or isinstance(r, Raised):
                    out.append((s2, r))
                elif r is True:
                    nxt.append((s2, open_))
                else:
                    nxt.append((s2, open_ + (r,)))
        live = nxt
    for s, open_ in live:
        out.append((s, True if not open_ else open_[0] if len(open_) == 1 else Sym("eqt", open_, "bool")))
    return out


def eq_impl(I, st, c):
    """what __eq__ of the class is: ('def', function) | ('dc', fields) | None (identity)"""
    for k in c.mro():
        if not isinstance(k, ClassV):
            continue
        own = st.get(k.ns).vars.get("__eq__")
        if own is not None:
            return ("def", own)
        if k.dc is not None and k.dc.get("eq", True) is not False:
            return ("dc", [f.name for f in I.dc_fields(st, k) if f.opts.get("compare", True) is not False])
    return None


NOTIMPL = "builtins.NotImplemented"


def inst_equal(I, st, a, b, node, ctx):
    def half(s, x, y):
        """x.__eq__(y); None stands for NotImplemented"""
        if not (isinstance(x, Ref) and isinstance(s.get(x), Inst)):
            return [(s, None)]
        impl = eq_impl(I, s, s.get(x).cls)
        if impl is None:
            return [(s, True if isinstance(y, Ref) and x == y else None)]
        if impl[0] == "def":
            return [(s2, None if isinstance(r, ExtV) and r.name == NOTIMPL else r)
                    for s2, r in I.call_attr(s, x, "__eq__", [y], {}, node, ctx)]
        if isinstance(y, Ref) and isinstance(s.get(y), Inst) and s.get(y).cls is s.get(x).cls:
            xa, ya = s.get(x).attrs, s.get(y).attrs
            return eq_items(I, s, [(xa.get(f), ya.get(f)) for f in impl[1]], node, ctx)
        if isinstance(y, Sym):
            return [(s, Sym("eqobj", (x, y), "bool"))]
        return [(s, None)]
    out = []
    for s, r in half(st, a, b):
        if r is not None:
            out.append((s, r))
            continue
        for s2, r2 in half(s, b, a):
            out.append((s2, r2 if r2 is not None else (isinstance(a, Ref) and isinstance(b, Ref) and a == b)))
    return out


def equal(I, st, a, b, node, ctx):
    if isinstance(a, (int, float, str, bytes)) and isinstance(b, (int, float, str, bytes)):
        return [(st, a == b)]
    if any(isinstance(x, Ref) and isinstance(st.get(x), Inst) for x in (a, b)):
        return inst_equal(I, st, a, b, node, ctx)
    if (a is None and S.from_generator(b) or b is None and S.from_generator(a)) and not I.program.has_methods("__eq__"):
        return [(st, False)]
    if is_byteslike(st, a) or is_byteslike(st, b):
        x, y = tobs(st, a), tobs(st, b)
        if x is None or y is None:
            return [(st, False)]
        d = I.beq_decide(st, x, y)
        if d is not None:
            return [(st, d)]
        x, y = st.norm_bs(x), st.norm_bs(y)
        if isinstance(x, bytes):
            x, y = y, x
        return [(st, Sym("beq", (x, y), "bool"))]
    if isinstance(a, EnumVal) and isinstance(b, EnumVal) and a.cls is not b.cls and "enum" in (a.cls.enum, b.cls.enum):
        return [(st, False)]
    if isinstance(a, VTuple) and isinstance(b, VTuple):
        if len(a.items) != len(b.items):
            return [(st, False)]
        return eq_items(I, st, list(zip(a.items, b.items)), node, ctx)
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b:
            return [(st, True)]
        oa, ob = st.get(a), st.get(b)
        if isinstance(oa, ListO) and isinstance(ob, ListO):
            if oa.kind != ob.kind and {oa.kind, ob.kind} != {"set", "frozenset"}:
                return [(st, False)]
            if oa.kind in ("list", "deque"):
                return equal(I, st, VTuple(oa.items), VTuple(ob.items), node, ctx)
        if isinstance(oa, DictO) and isinstance(ob, DictO) and all(isinstance(k, str) for k, _ in oa.items + ob.items):
            da, db = dict(oa.items), dict(ob.items)
            if set(da) != set(db):
                return [(st, False)]
            return eq_items(I, st, [(da[k], db[k]) for k in da], node, ctx)
        return [(st, Sym("eqobj", (a, b), "bool"))]
    if is_float(a) or is_float(b):
        return [(st, Sym("fcmp", ("==", _h(a), _h(b)), "bool"))]
    x, y = num(a), num(b)
    if x is not None and y is not None and (is_intlike(a) or is_intlike(b) or (isinstance(a, Sym) and isinstance(b, Sym))):
        d = st.eq(x, y)
        return [(st, d if d is not None else Sym("eq", (st.norm(x), st.norm(y)), "bool"))]
    if isinstance(a, Sym) or isinstance(b, Sym):
        if a is None or b is None:
            o = b if a is None else a
            if o.ty != "any":
                return [(st, False)]
            return [(st, Sym("is", (o, None), "bool"))]
        for t, e in ((a, b), (b, a)):
            if isinstance(t, Sym) and t.ty == "str" and isinstance(e, str) and e == "":
                n = text_len(st, t)
                if n is not None:
                    d = st.eq(n, 0)
                    return [(st, d if d is not None else Sym("eq", (n, 0), "bool"))]
        return [(st, Sym("eqv", tuple(sorted((_h(a), _h(b)), key=repr)), "bool"))]
    if a is None or b is None:
        return [(st, a is b)]
    try:
        return [(st, bool(a == b))]
    except Exception:
        return [(st, False)]


def contains(I, st, x, c, node, ctx):
    if isinstance(c, str) and isinstance(x, str):
        return [(st, x in c)]
    if is_byteslike(st, c):
        b = tobs(st, c)
        if isinstance(b, bytes) and isinstance(x, (bytes, int)):
            return [(st, x in b)]
        return [(st, Sym("in", (_h(x), b), "bool"))]
    items = None
    if isinstance(c, ClassV) and c.enum:
        vals = [v for v in c.members.values()]
        if isinstance(x, EnumVal):
            if x.cls is c:
                return [(st, True)]
        n = num(x)
        if isinstance(n, int):
            return [(st, n in vals)]
        if n is not None:
            return [(s, t) for s, t in member_fork(I, st, c, n)]
    items = I.concrete_items(st, c)
    if items is None and isinstance(c, Ref):
        o = st.get(c)
        if isinstance(o, OpaqueO) and o.name == "range":
            lo, hi = o.data
            n = num(x)
            if n is not None:
                out = []
                for s, t in I.fork_le(st, lo, n):
                    if not t:
                        out.append((s, False))
                    else:
                        out.extend(I.fork_le(s, add(n, 1), hi))
                return out
        if isinstance(o, Inst) and I.class_attr(st, o.cls, "__contains__"):
            return I.call_attr(st, c, "__contains__", [x], {}, node, ctx)
    if items is None:
        return [(st, Sym("in", (_h(x), _h(c)), "bool"))]
    n = num(x)
    if n is not None and not isinstance(n, int) and len(items) > 3 and all(isinstance(num(i), int) for i in items):
        return key_groups_bool(I, st, n, [num(i) for i in items])
    live = [st]
    out = []
    for it in items:
        nxt = []
        for s in live:
            for s1, r in equal(I, s, x, it, node, ctx):
                if isinstance(r, Raised):
                    out.append((s1, r))
                    continue
                for s2, t in I.truth(s1, r, node, ctx):
                    (out.append((s2, True)) if t else nxt.append(s2))
        live = nxt
    return out + [(s, False) for s in live]


# ------------------------------------------------------------------------------------------------ finite keys
def possible(I, st, n):
    """finite set of values the term can take, or None"""
    n = st.norm(n)
    if isinstance(n, int):
        return {n}
    res = None
    for k, t in st.bools.items():
        if k.tag in ("inset", "member") and t:
            y = st.norm(k.args[0])
            if same(st, y, n):
                vs = set(k.args[1])
                res = vs if res is None else res & vs
    lo, hi = st.range(n)
    if res is None:
        if hi - lo < 300:
            res = set(range(int(lo), int(hi) + 1))
        else:
            return None
    for k, t in st.bools.items():
        if k.tag in ("inset", "member") and not t and same(st, st.norm(k.args[0]), n):
            res = res - set(k.args[1])
    res = {v for v in res if lo <= v <= hi and st.eq(n, v) is not False}
    return res


def excluded(st, n):
    out = set()
    for k, t in st.bools.items():
        if k.tag in ("inset", "member") and not t and same(st, st.norm(k.args[0]), n):
            out |= set(k.args[1])
    return out


def restrict(I, st, n, vals):
    """assume n in vals; False if impossible"""
    n = st.norm(n)
    vals = set(vals)
    p = possible(I, st, n)
    if p is not None:
        vals &= p
    vals = {v for v in vals if st.eq(n, v) is not False} - excluded(st, n)
    if not vals:
        return False
    if isinstance(n, int):
        return n in vals
    if len(vals) == 1:
        return st.assume_eq(n, next(iter(vals)), True)
    st.bools[Sym("inset", (n, tuple(sorted(vals))), "bool")] = True
    if not st.assume_le(min(vals), n) or not st.assume_le(n, max(vals)):
        return False
    return True


def exclude(I, st, n, vals):
    n = st.norm(n)
    if isinstance(n, int):
        return n not in vals
    p = possible(I, st, n)
    if p is not None:
        rest = p - set(vals)
        if not rest:
            return False
        if len(rest) < len(p):
            return restrict(I, st, n, rest)
        return True
    st.bools[Sym("inset", (n, tuple(sorted(vals))), "bool")] = False
    if len(vals) == 1:
        return st.assume_eq(n, next(iter(vals)), False)
    return True


def key_groups_bool(I, st, n, vals):
    s2 = st.clone()
    out = []
    if restrict(I, st, n, vals):
        out.append((st, True))
    if exclude(I, s2, n, vals):
        out.append((s2, False))
    return out


def member_fork(I, st, c, n):
    vals = [v for v in c.members.values() if isinstance(v, int)]
    return key_groups_bool(I, st, n, vals)


def lookup(I, st, items, key):
    """-> [(st, (found, value))] forks over groups of equal value"""
    for k, v in items:
        if keyeq(k, key):
            return [(st, (True, v))]
    n = num(key)
    if isinstance(key, (str, bytes, int, float)) or key is None or isinstance(n, int):
        return [(st, (False, None))]
    if n is not None:
        groups = []
        keys = []
        for k, v in items:
            kn = num(k)
            if not isinstance(kn, int):
                continue
            keys.append(kn)
            for g in groups:
                if type(g[0]) is type(v) and (g[0] is v or g[0] == v):
                    g[1].append(kn)
                    break
            else:
                groups.append((v, [kn]))
        out = []
        for v, ks in groups:
            s = st.clone()
            if restrict(I, s, n, ks):
                out.append((s, (True, v)))
        if exclude(I, st, n, keys):
            out.append((st, (False, None)))
        return out
    if isinstance(key, (ClassV, ExtV, FuncV, VTuple, EnumVal)):
        return [(st, (False, None))]
    return None


# ------------------------------------------------------------------------------------------------ subscripts
def clip(I, st, i, n, default):
    """slice bound -> [(st, value in [0, n])]"""
    if i is None:
        return [(st, default)]
    i = num(i)
    if i is None:
        return [(st, None)]
    out = []
    for s, nonneg in I.fork_le(st, 0, i):
        if nonneg:
            for s2, inside in I.fork_le(s, i, n):
                out.append((s2, i if inside else n))
        else:
            j = s.norm(add(i, n))
            for s2, ok in I.fork_le(s, 0, j):
                out.append((s2, j if ok else 0))
    return out


def slice_bounds(I, st, sl, n):
    """-> [(st, lo, hi)] with 0 <= lo <= hi <= n"""
    out = []
    for s, lo in clip(I, st, sl.lo, n, 0):
        for s2, hi in clip(I, s, sl.hi, n, n):
            if lo is None or hi is None:
                out.append((s2, None, None))
                continue
            for s3, ok in I.fork_le(s2, lo, hi):
                out.append((s3, lo, hi if ok else lo))
    return out


def get_item(I, st, o, i, node, ctx):
    if isinstance(o, VTuple) or isinstance(o, (str,)):
        seq = o.items if isinstance(o, VTuple) else o
        if isinstance(i, Slice):
            if all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                r = seq[i.lo:i.hi:i.step]
                return [(st, VTuple(r) if isinstance(o, VTuple) else r)]
            return [(st, Sym("slice", (_h(o), show(i.lo), show(i.hi)), "any"))]
        n = num(i)
        if isinstance(n, int):
            if -len(seq) <= n < len(seq):
                return [(st, seq[n])]
            return I.raise_(st, "builtins.IndexError", node, ctx)
        return [(st, Sym("item", (_h(o), _h(i)), "any"))]
    if isinstance(o, (ClassV, ExtV)):
        if isinstance(o, ClassV) and o.enum:
            if isinstance(i, str):
                if i in o.members:
                    return [(st, EnumVal(o, o.members[i]))]
                return I.raise_(st, "builtins.KeyError", node, ctx, i)
            return [(st, Sym("enumbyname", (o.qual, _h(i)), "any"))]
        return [(st, o)]          # generic subscription
    if is_byteslike(st, o):
        b = tobs(st, o)
        isba = isinstance(o, Ref) and isinstance(st.get(o), BA)
        mv = isinstance(o, Ref) and isinstance(st.get(o), OpaqueO)
        n = st.norm(bslen(b))
        if isinstance(i, Slice):
            if i.step not in (None, 1):
                if isinstance(b, bytes) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                    r = b[i.lo:i.hi:i.step]
                else:
                    r = opaque_bytes(Sym("stepslice", (b, show(i.lo), show(i.hi), show(i.step)), "bytes"))
                return [(st, st.alloc(BA(r)) if isba else r)]
            out = []
            if lost(i):
                r = opaque_bytes(fresh("piece", "bytes"))
                return [(st, st.alloc(BA(r)) if isba else r)]
            for s, lo, hi in ordered(I, slice_bounds(I, st, i, n), b):
                if lo is None:
                    out.append((s, I.unk(s, "slice bound", node, ctx, "bytes")))
                    continue
                if mv:
                    d = s.get(o).data
                    out.append((s, s.alloc(OpaqueO("mv", (d[0], add(d[1], lo), add(d[1], hi))))))
                    continue
                if s.eq(lo, 0) is True and s.eq(hi, n) is True:
                    r = b
                else:
                    r = bs_slice(s, b, lo, hi)
                out.append((s, s.alloc(BA(r)) if isba else r))
            return out
        k = num(i)
        if k is None:
            return [(st, I.unk(st, "index", node, ctx, "int"))]
        out = []
        for s, nonneg in I.fork_le(st, 0, k):
            kk = k if nonneg else s.norm(add(k, n))
            for s2, ok in I.fork_le(s, add(kk, 1), n):
                if ok:
                    out.append((s2, read_item(s2, b, kk, "u1", 1)))
                else:
                    out.extend(I.raise_(s2, "builtins.IndexError", node, ctx))
        return out
    if isinstance(o, Ref):
        h = st.get(o)
        if isinstance(h, ListO):
            rs = get_item(I, st, VTuple(h.items), i, node, ctx)
            return [(s, s.alloc(ListO(v.items)) if isinstance(v, VTuple) and isinstance(i, Slice) else v) for s, v in rs]
        if isinstance(h, DictO):
            rs = lookup(I, st, h.items, i)
            if rs is None:
                return [(st, Sym("dictitem", (("obj", o.id), _h(i)), "any"))]
            out = []
            for s, (found, v) in rs:
                if found:
                    out.append((s, v))
                elif h.items and False:
                    pass
                else:
                    out.extend(I.raise_(s, "builtins.KeyError", node, ctx, i))
            return out
        if isinstance(h, Inst):
            if I.class_attr(st, h.cls, "__getitem__") is not None:
                return I.call_attr(st, o, "__getitem__", [i], {}, node, ctx)
    if isinstance(o, Sym):
        if isinstance(i, Slice):
            if o.ty == "str" and i.lo in (None, 0) and i.hi is None and i.step in (None, 1):
                return [(st, o)]
            return get_item(I, st, opaque_bytes(o), i, node, ctx) if o.ty in ("any", "bytes") else \
                [(st, Sym("slice", (o, show(i.lo), show(i.hi)), o.ty))]
        return [(st, Sym("item", (o, _h(i)), "any"))]
    return [(st, I.unk(st, f"subscript of {show(o)}", node, ctx))]


def ordered(I, cases, b):
    """cases of slice bounds, split further until their order against the parts of b is decided (only where asked for: the record
    classes work on parts whose order the format fixes)"""
    if not I.split_slices:
        return cases
    out = []
    for s, lo, hi in cases:
        live = [s]
        if lo is not None:
            at = 0
            for g in list(S.segs_of(b))[:-1]:
                at = add(at, S.seglen(g))
                for p in (lo, hi):
                    if not isinstance(p, (int, Aff)):
                        continue
                    nxt = []
                    for s1 in live:
                        if s1.le(p, at) is None and s1.le(at, p) is not True:
                            nxt += [s2 for s2, _ in I.fork_le(s1, p, at)]
                        else:
                            nxt.append(s1)
                    live = nxt
        out += [(s1, lo, hi) for s1 in live]
    return out


def splice(st, b, lo, hi, v):
    n = st.norm(bslen(b))
    head = bs_slice(st, b, 0, lo) if lo != 0 else b""
    tail = bs_slice(st, b, hi, n) if st.eq(hi, n) is not True else b""
    return st.norm_bs(concat(concat(head, v, st), tail, st))


def ba_set(st, ref, content):
    st.put(ref, BA(st.norm_bs(content)))


def lost(i):
    """does a slice bound come from something that was not followed (the path then carries a note of it)?"""
    return any(s.tag == "unk" for x in (i.lo, i.hi) if x is not None for s in syms_of(x))


def plain_value(st, v):
    """certainly no buffer: a number, a string, None, a tuple or an object"""
    while isinstance(v, EnumVal):
        v = v.v
    return v is None or isinstance(v, (bool, int, float, str, Aff, VTuple)) or isinstance(v, Sym) and v.ty in ("int", "float", "str", "bool") \
        or isinstance(v, Ref) and isinstance(st.get(v), (Inst, ListO, DictO))


def set_item(I, st, o, i, v, node, ctx):
    if isinstance(o, Ref):
        h = st.get(o)
        if isinstance(h, BA) or (isinstance(h, OpaqueO) and h.name == "mv"):
            base, off = (o, 0) if isinstance(h, BA) else (h.data[0], h.data[1])
            b = tobs(st, o)
            n = st.norm(bslen(b))
            if isinstance(i, Slice):
                if i.step not in (None, 1):
                    ba_set(st, o, opaque_bytes(Sym("stepstore", (b, fresh("x")), "bytes")))
                    I.unk(st, "extended slice store", node, ctx)
                    return [(st, None)]
                val = tobs(st, v)
                if val is None:
                    items = I.concrete_items(st, v)
                    if items is None or not all(isinstance(x, int) for x in items):
                        I.unk(st, "slice store of a value that is not modelled", node, ctx)
                        val = opaque_bytes(fresh("store", "bytes"))
                    else:
                        val = bytes(items)
                out = []
                if lost(i):
                    ba_set(st, o, opaque_bytes(fresh("store", "bytes")))
                    return [(st, None)]
                for s, lo, hi in ordered(I, slice_bounds(I, st, i, n), b):
                    if lo is None:
                        I.unk(s, "slice bound", node, ctx)
                        out.append((s, None))
                        continue
                    if isinstance(h, BA):
                        ba_set(s, o, splice(s, b, lo, hi, val))
                    else:
                        if s.eq(sub(hi, lo), bslen(val)) is False:
                            out.extend(I.raise_(s, "builtins.ValueError", node, ctx))
                            continue
                        s.assume_eq(sub(hi, lo), bslen(val))
                        ba_set(s, base, splice(s, tobs(s, base), add(off, lo), add(off, hi), val))
                    out.append((s, None))
                return out
            k = num(i)
            x = num(v)
            if k is None or x is None:
                I.unk(st, "index store", node, ctx)
                return [(st, None)]
            out = []
            for s, nonneg in I.fork_le(st, 0, k):
                kk = k if nonneg else s.norm(add(k, n))
                for s2, ok in I.fork_le(s, add(kk, 1), n):
                    if ok:
                        ba_set(s2, base, splice(s2, tobs(s2, base), add(off, kk), add(add(off, kk), 1), mkbs(pack_segs("u1", x))))
                        out.append((s2, None))
                    else:
                        out.extend(I.raise_(s2, "builtins.IndexError", node, ctx))
            return out
        if isinstance(h, ListO):
            k = num(i)
            if isinstance(k, int) and -len(h.items) <= k < len(h.items):
                items = list(h.items)
                items[k] = v
                st.put(o, ListO(items, h.kind))
                return [(st, None)]
            if isinstance(i, Slice) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                new = I.concrete_items(st, v)
                if new is not None:
                    items = list(h.items)
                    items[i.lo:i.hi:i.step] = new
                    st.put(o, ListO(items, h.kind))
                    return [(st, None)]
        if isinstance(h, DictO):
            st.put(o, DictO(_dset(h.items, i, v)))
            return [(st, None)]
        if isinstance(h, OpaqueO) and h.name == "grown":
            return [(st, None)]
        if isinstance(h, Inst) and I.class_attr(st, h.cls, "__setitem__") is not None:
            return I.call_attr(st, o, "__setitem__", [i, v], {}, node, ctx)
    if isinstance(o, (bytes, Bs, VTuple, str)):
        return I.raise_(st, "builtins.TypeError", node, ctx, "item assignment")
    if isinstance(o, Sym):
        st.events.append(("symstore", o, _h(i), _h(v), I.loc(node, ctx)))
        return [(st, None)]
    I.unk(st, f"item store on {show(o)}", node, ctx)
    return [(st, None)]


def del_item(I, st, o, i, node, ctx):
    if isinstance(o, Ref):
        h = st.get(o)
        if isinstance(h, BA) and isinstance(i, Slice) and i.step in (None, 1):
            n = st.norm(bslen(h.content))
            out = []
            for s, lo, hi in ordered(I, slice_bounds(I, st, i, n), h.content):
                if lo is None:
                    I.unk(s, "slice bound", node, ctx)
                else:
                    ba_set(s, o, splice(s, h.content, lo, hi, b""))
                out.append((s, None))
            return out
        if isinstance(h, DictO):
            st.put(o, DictO([(k, v) for k, v in h.items if not keyeq(k, i)]))
            return [(st, None)]
        if isinstance(h, ListO) and isinstance(i, int) and -len(h.items) <= i < len(h.items):
            items = list(h.items)
            del items[i]
            st.put(o, ListO(items, h.kind))
            return [(st, None)]
        if isinstance(h, ListO) and isinstance(i, Slice) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
            items = list(h.items)
            del items[i.lo:i.hi:i.step]
            st.put(o, ListO(items, h.kind))
            return [(st, None)]
    I.unk(st, f"item deletion on {show(o)}", node, ctx)
    return [(st, None)]


# ------------------------------------------------------------------------------------------------ attributes
def bind_class_attr(I, st, v, cls, self_, node, ctx):
    if isinstance(v, (FuncV, CachedV)):
        return [(st, BoundV(v, self_))]
    if isinstance(v, ClassM):
        f = v.f
        if isinstance(f, PropV):
            return I.call(st, f.f, [cls], {}, node, ctx)
        return [(st, BoundV(f, cls))]
    if isinstance(v, StaticM):
        return [(st, v.f)]
    if isinstance(v, PropV):
        if not isinstance(v.f, (FuncV, BoundV)):
            return [(st, I.unk(st, "property", node, ctx))]
        rs = I.call(st, v.f, [self_], {}, node, ctx)
        return rs
    return [(st, v)]


def has_method(I, st, v, name):
    """True/False/None"""
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, StreamO):
            return name in STREAM_ATTRS
        if isinstance(o, Inst):
            return name in o.attrs or I.class_attr(st, o.cls, name, ABSENT) is not ABSENT
        if isinstance(o, BA):
            return hasattr(bytearray, name)
        if isinstance(o, ListO):
            return hasattr(list if o.kind == "list" else set, name)
        if isinstance(o, DictO):
            return hasattr(dict, name)
        if isinstance(o, (GenO, IterO)):
            return name in ("send", "throw", "close", "__next__", "__iter__")
        return None
    if isinstance(v, (bytes, Bs)):
        return hasattr(bytes, name)
    if is_str(v):
        return hasattr(str, name)
    if isinstance(v, VTuple):
        return hasattr(tuple, name)
    if is_intlike(v):
        return hasattr(int, name)
    if is_float(v):
        return hasattr(float, name)
    if v is None:
        return hasattr(None, name)
    if isinstance(v, ClassV):
        return I.class_attr(st, v, name, ABSENT) is not ABSENT or (v.enum is not None and name in v.members) or name.startswith("__")
    return None


def getattr_(I, st, v, name, node, ctx):
    if isinstance(v, ModV):
        return [(st, I.program.module_attr(I, st, v, name))]
    if isinstance(v, ExtV):
        return [(st, ext_attr(I, st, v, name))]
    if isinstance(v, ClassV):
        return class_getattr(I, st, v, name, node, ctx)
    if isinstance(v, SuperV):
        return super_getattr(I, st, v, name, node, ctx)
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, Inst):
            return inst_getattr(I, st, v, o, name, node, ctx)
        if isinstance(o, StreamO):
            if name == "closed":
                return [(st, o.closed)]
            if name in ("name", "mode"):
                return [(st, Sym("streamattr", (v.id, name), "any"))]
            if name in ("raw", "buffer"):
                return [(st, v)]
            if name not in STREAM_ATTRS:
                return I.raise_(st, "builtins.AttributeError", node, ctx, name)
            return [(st, BM(v, name))]
        if isinstance(o, OpaqueO):
            if o.name == "dcfield":
                d = dict(o.data)
                return [(st, d.get(name))]
            if o.name == "mv" and name in ("nbytes",):
                return [(st, st.norm(sub(o.data[2], o.data[1])))]
            if o.name == "mv" and name in ("obj",):
                return [(st, o.data[0])]
            if o.name == "ns":
                d = dict(o.data)
                if name in d:
                    return [(st, d[name])]
        if isinstance(o, GenO) and name in ("gi_frame", "gi_running"):
            return [(st, Sym("gen", (v.id, name), "any"))]
        return [(st, BM(v, name))]
    if isinstance(v, EnumVal):
        if name in ("value", "_value_"):
            return [(st, v.v)]
        if name in ("name", "_name_"):
            if isinstance(v.v, (int, str)):
                for k, x in v.cls.members.items():
                    if x == v.v:
                        return [(st, k)]
            return [(st, Sym("enumname", (v,), "str"))]
        if name == "__class__":
            return [(st, v.cls)]
        a = I.class_attr(st, v.cls, name, ABSENT)
        if a is not ABSENT:
            return bind_class_attr(I, st, a, v.cls, v, node, ctx)
        return [(st, BM(v.v, name))]
    if isinstance(v, StructV):
        if name == "size":
            return [(st, v.size)]
        if name == "format":
            return [(st, v.fmt)]
        return [(st, BM(v, name))]
    if isinstance(v, ExcV):
        if name == "args":
            return [(st, VTuple(v.args))]
        if name == "__class__":
            return [(st, v.cls)]
        return [(st, Sym("excattr", (show(v.args), name), "any"))]
    if isinstance(v, VTuple) and name in ("year", "week", "weekday") and len(v.items) == 3:
        return [(st, v.items[("year", "week", "weekday").index(name)])]
    if isinstance(v, VTuple) and name in TMPARTS and len(v.items) == 9:
        return [(st, v.items[TMPARTS[name]])]
    if isinstance(v, VTuple):
        if v.cls is not None and isinstance(v.cls, ClassV):
            names = list(v.cls.fields_own)
            if name in names:
                return [(st, v.items[names.index(name)])]
            a = I.class_attr(st, v.cls, name, ABSENT)
            if a is not ABSENT:
                return bind_class_attr(I, st, a, v.cls, v, node, ctx)
        return [(st, BM(v, name))]
    if isinstance(v, (FuncV, BoundV)):
        f = v if isinstance(v, FuncV) else v.func
        if name in ("__name__", "__qualname__"):
            return [(st, getattr(f, "name", "?"))]
        if name == "__doc__":
            return [(st, Sym("doc", (), "any"))]
        if name == "__wrapped__":
            return [(st, f)]
        return [(st, I.unk(st, f"attribute {name} of a function", node, ctx))]
    if isinstance(v, BoundV) and name == "__self__":
        return [(st, v.self)]
    if isinstance(v, PropV):
        return [(st, BM(v, name))]
    if isinstance(v, Sym):
        v = st.norm(v)
        if not isinstance(v, Sym):
            return getattr_(I, st, v, name, node, ctx)
        if v.ty == "datetime":
            if name in ("year", "month", "day", "hour", "minute", "second", "microsecond"):
                v = same_parts(v)
                if v.tag == "dtnew":
                    return [(st, v.args[DTPARTS.index(name)])]
                return [(st, atom(Sym("dtattr", (v, name), "int")))]
            return [(st, BM(v, name))]
        if v.ty in ("str", "bytes", "int", "float"):
            if name == "__class__":
                return [(st, ExtV("builtins." + v.ty))]
            return [(st, BM(v if v.ty != "bytes" else opaque_bytes(v), name))]
        if name == "__class__":
            return [(st, Sym("typeof", (v,), "any"))]
        return [(st, Sym("attr", (v, name), "any"))]
    if isinstance(v, Aff):
        if name in ("real", "numerator"):
            return [(st, v)]
        a = v.atom
        if a is not None and a.ty == "any":
            return getattr_(I, st, a, name, node, ctx)
        return [(st, BM(v, name))]
    if v is None:
        return I.raise_(st, "builtins.AttributeError", node, ctx, name)
    if isinstance(v, BM) and name == "__self__":
        return [(st, v.self)]
    if name == "__class__":
        return [(st, ExtV("builtins." + type(v).__name__))]
    if isinstance(v, (bool, int, float, str, bytes, Bs)):
        return [(st, BM(v, name))]
    return [(st, I.unk(st, f"attribute {name} of {show(v)}", node, ctx))]


def inst_getattr(I, st, v, o, name, node, ctx):
    a = I.class_attr(st, o.cls, name, ABSENT)
    if isinstance(a, PropV) and not (a.cached and name in o.attrs):
        rs = bind_class_attr(I, st, a, o.cls, v, node, ctx)
        if a.cached:
            for s, r in rs:
                if not isinstance(r, Raised):
                    oo = s.get(v)
                    s.put(v, Inst(oo.cls, {**oo.attrs, name: r}))
        return rs
    if name in o.attrs:
        return [(st, o.attrs[name])]
    if name == "__dict__":
        return [(st, st.alloc(DictO(tuple(o.attrs.items()))))]
    if name == "__class__":
        return [(st, o.cls)]
    if a is not ABSENT and not isinstance(a, FieldCall):
        return bind_class_attr(I, st, a, o.cls, v, node, ctx)
    if name in ("__enter__",) and any(isinstance(b, ExtV) for b in o.cls.mro()):
        return [(st, PartialV(ExtV("vsa.identity"), (v,), {}))]
    if name in ("__init__", "__post_init__", "__exit__", "__del__") and any(isinstance(b, ExtV) for b in o.cls.mro()):
        return [(st, ExtV("vsa.none"))]
    g = I.class_attr(st, o.cls, "__getattr__")
    if g is not None:
        return I.call(st, BoundV(g, v), [name], {}, node, ctx)
    if name in ("__repr__", "__str__", "__hash__", "__eq__", "__sizeof__", "__reduce__"):
        return [(st, BM(v, name))]
    return I.raise_(st, "builtins.AttributeError", node, ctx, f"{o.cls.name}.{name}")


def class_getattr(I, st, c, name, node, ctx):
    if name in ("__name__", "__qualname__"):
        return [(st, c.name)]
    if name == "__module__":
        return [(st, c.mod)]
    if name == "__members__":
        return [(st, st.alloc(DictO([(k, EnumVal(c, x)) for k, x in c.members.items()])))]
    if name in ("_value2member_map_", "_member_map_", "_member_names_") and c.enum:
        o = (ListO([k for k in c.members], "list") if name == "_member_names_" else
             DictO([(k if name == "_member_map_" else x, EnumVal(c, x)) for k, x in c.members.items()]))
        r = st.alloc(o)
        I.internals[r.id] = (f"{c.name}.{name}", tuple(o.items))
        return [(st, r)]
    if name == "__mro__":
        return [(st, VTuple(c.mro()))]
    if name == "__dataclass_fields__":
        fl = I.dc_fields(st, c) or []
        return [(st, st.alloc(DictO([(f.name, dcfield(st, f)) for f in fl])))]
    if name == "__annotations__":
        return [(st, st.alloc(DictO([(n, Sym("ann", (n,), "any")) for n in c.fields_own])))]
    if name == "__dict__":
        return [(st, st.alloc(DictO(tuple(st.get(c.ns).vars.items()))))]
    a = I.class_attr(st, c, name, ABSENT)
    if a is not ABSENT:
        if isinstance(a, (FuncV, PropV, CachedV)):
            return [(st, a)]
        return bind_class_attr(I, st, a, c, c, node, ctx)
    if name in ("__init__", "__new__", "__subclasses__", "__repr__", "__eq__", "__hash__", "__doc__"):
        return [(st, BM(c, name))]
    return I.raise_(st, "builtins.AttributeError", node, ctx, f"{c.name}.{name}")


def super_getattr(I, st, v, name, node, ctx):
    obj = v.obj
    if isinstance(obj, Ref):
        cls = st.get(obj).cls
    elif isinstance(obj, ClassV):
        cls = obj
    else:
        return [(st, I.unk(st, "super()", node, ctx))]
    mro = cls.mro()
    i = mro.index(v.cls) + 1 if v.cls in mro else 1
    for b in mro[i:]:
        if isinstance(b, ClassV):
            vs = st.get(b.ns).vars
            if name in vs:
                a = vs[name]
                if isinstance(obj, ClassV):
                    if isinstance(a, FuncV):
                        return [(st, a)]
                    return bind_class_attr(I, st, a, obj, obj, node, ctx)
                return bind_class_attr(I, st, a, cls, obj, node, ctx)
    if name == "__enter__":
        return [(st, PartialV(ExtV("vsa.identity"), (obj,), {}))]
    if name in ("__init__", "__exit__", "__init_subclass__", "__post_init__", "__del__"):
        return [(st, ExtV("vsa.none"))]
    if name == "__setattr__":
        return [(st, PartialV(ExtV("vsa.setattr"), (obj,), {}))]
    if name == "_missing_" and cls.enum:
        return [(st, PartialV(ExtV("vsa.enum_missing"), (cls,), {}))]
    return [(st, I.unk(st, f"super().{name}", node, ctx))]


def ext_attr(I, st, v, name):
    full = f"{v.name}.{name}"
    if full in CONSTS:
        return CONSTS[full]
    if full == "sys.version_info":
        return VTuple((3, 12, 3, "final", 0))
    if full == "sys.byteorder":
        return Sym("host", ("byteorder",), "str")
    return ExtV(full)


def setattr_(I, st, o, name, v, node, ctx, raw=False):
    if isinstance(o, Ref):
        h = st.get(o)
        if isinstance(h, Inst):
            a = I.class_attr(st, h.cls, name)
            if isinstance(a, PropV) and not a.cached:
                if a.fset is None:
                    return I.raise_(st, "builtins.AttributeError", node, ctx, name)
                return I.call(st, a.fset, [o, v], {}, node, ctx)
            sa = I.class_attr(st, h.cls, "__setattr__")
            if sa is not None and not raw:
                return I.call(st, BoundV(sa, o), [name, v], {}, node, ctx)
            if not raw and any(isinstance(b, ClassV) and b.dc and b.dc.get("frozen") for b in h.cls.mro()):
                return I.raise_(st, "dataclasses.FrozenInstanceError", node, ctx, name)
            st.put(o, Inst(h.cls, {**h.attrs, name: v}))
            return [(st, None)]
        if isinstance(h, OpaqueO):
            st.put(o, OpaqueO(h.name, tuple(dict(list(h.data) + [(name, v)]).items()) if h.name == "ns" else h.data))
            return [(st, None)]
        I.unk(st, f"attribute store on {type(h).__name__}", node, ctx)
        return [(st, None)]
    if isinstance(o, ClassV):
        e = st.get(o.ns)
        st.events.append(("classstore", o.qual, name, v if not isinstance(v, (list, dict)) else repr(v), I.loc(node, ctx)))
        st.put(o.ns, Env({**e.vars, name: v}, e.parent, e.globals, e.nonlocals))
        return [(st, None)]
    if isinstance(o, ModV):
        e = st.get(o.env)
        st.events.append(("globalstore", o.name, name, v, ctx.qual))
        st.put(o.env, Env({**e.vars, name: v}, e.parent, e.globals, e.nonlocals))
        return [(st, None)]
    if isinstance(o, Sym):
        st.events.append(("symattrstore", o, name, _h(v), I.loc(node, ctx)))
        return [(st, None)]
    if isinstance(o, (ExtV, FuncV)):
        st.events.append(("extstore", show(o), name, I.loc(node, ctx)))
        return [(st, None)]
    return I.raise_(st, "builtins.AttributeError", node, ctx, name)


def dcfield(st, f):
    return st.alloc(OpaqueO("dcfield", (("name", f.name), ("default", f.default if f.default is not None else ExtV("dataclasses.MISSING")),
                                        ("type", ast.unparse(f.ann)), ("init", f.opts.get("init", True)),
                                        ("compare", f.opts.get("compare", True)), ("metadata", None))))


# ------------------------------------------------------------------------------------------------ methods of values
def method(I, st, v, name, args, kwargs, node, ctx):
    if isinstance(v, StructV):
        return struct_method(I, st, v, name, args, kwargs, node, ctx)
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, StreamO):
            return stream_method(I, st, v, name, args, kwargs, node, ctx)
        if isinstance(o, BA):
            return bytes_method(I, st, v, name, args, kwargs, node, ctx)
        if isinstance(o, ListO):
            return list_method(I, st, v, o, name, args, kwargs, node, ctx)
        if isinstance(o, DictO):
            return dict_method(I, st, v, o, name, args, kwargs, node, ctx)
        if isinstance(o, (GenO, IterO)):
            return gen_method(I, st, v, o, name, args, kwargs, node, ctx)
        if isinstance(o, OpaqueO):
            return opaque_method(I, st, v, o, name, args, kwargs, node, ctx)
        if isinstance(o, Inst):
            if name == "__eq__":
                return equal(I, st, v, args[0], node, ctx)
            if name in ("__repr__", "__str__"):
                return [(st, Sym("repr", (v,), "str"))]
            if name == "__hash__":
                return [(st, atom(Sym("hash", (v,), "int")))]
    if isinstance(v, (bytes, Bs)):
        return bytes_method(I, st, v, name, args, kwargs, node, ctx)
    if is_str(v):
        return str_method(I, st, v, name, args, kwargs, node, ctx)
    if isinstance(v, (VTuple,)):
        return tuple_method(I, st, v, name, args, kwargs, node, ctx)
    if isinstance(v, EnumVal):
        return method(I, st, v.v, name, args, kwargs, node, ctx)
    if isinstance(v, Sym) and v.ty == "datetime":
        return dt_method(I, st, v, name, args, kwargs, node, ctx)
    if isinstance(v, (bool, int, Aff)) or (isinstance(v, Sym) and v.ty == "int"):
        return int_method(I, st, num(v), name, args, kwargs, node, ctx)
    if is_float(v):
        if isinstance(v, float):
            try:
                return [(st, getattr(v, name)(*args, **kwargs))]
            except Exception:
                pass
        return [(st, Sym("fmeth", (name, _h(v)) + tuple(_h(a) for a in args), "any"))]
    if isinstance(v, ClassV):
        if name == "__new__":
            return [(st, st.alloc(Inst(args[0] if args else v, {})))]
        if name == "__init__":
            return [(st, None)]
    if isinstance(v, Sym):
        return sym_method(I, st, v, name, args, kwargs, node, ctx)
    return [(st, I.unk(st, f"method {name} of {show(v)}", node, ctx))]


def escape_args(I, st, args, node, ctx, what):
    """mutable objects handed to code that is not modelled"""
    for a in args:
        if isinstance(a, Ref):
            o = st.get(a)
            if isinstance(o, BA):
                ba_set(st, a, opaque_bytes(fresh("escaped", "bytes")))
                I.unk(st, f"buffer passed to {what}", node, ctx)
            elif isinstance(o, StreamO):
                I.unk(st, f"stream passed to {what}", node, ctx)


def sym_method(I, st, v, name, args, kwargs, node, ctx):
    if v.tag == "ext":
        return [(st, None)]
    if v.ty in ("str",):
        return str_method(I, st, v, name, args, kwargs, node, ctx)
    if v.ty == "bytes":
        return bytes_method(I, st, opaque_bytes(v), name, args, kwargs, node, ctx)
    if v.ty == "datetime":
        return dt_method(I, st, v, name, args, kwargs, node, ctx)
    res = I.fault(st, f"{name}()", node, ctx)
    if v.ty == "any" and name == "decode" and len(args) <= 2:
        return res + bytes_method(I, st, opaque_bytes(v), name, args, kwargs, node, ctx)
    if v.ty == "any" and name == "encode" and len(args) <= 2:
        return res + str_method(I, st, v, name, args, kwargs, node, ctx)
    escape_args(I, st, list(args) + list(kwargs.values()), node, ctx, f"{show(v)}.{name}")
    r = Sym("callm", (v, name) + tuple(_h(a) for a in args), "any")
    st.events.append(("symcall", v, name, tuple(args), r, I.loc(node, ctx)))
    return res + [(st, r)]


# ---- struct
def struct_items(I, st, fmt, node, ctx):
    I.struct_uses.setdefault(fmt, set()).add(repr(I.loc(node, ctx)))


def struct_pack_value(I, st, sv, args, node, ctx):
    """-> (content, None) or (None, raised list)"""
    vals = []
    for a in args:
        if isinstance(a, Sym) and a.tag == "star":
            k = len(sv.items) - (len(args) - 1)
            vals.extend(Sym("item", (a.args[0], i), "any") for i in range(max(k, 0)))
        else:
            vals.append(a)
    if len(vals) != len(sv.items):
        return None, I.raise_(st, "struct.error", node, ctx, f"{sv.fmt!r} takes {len(sv.items)} items, got {len(vals)}")
    segs = []
    pos = 0
    for (off, kind, size), v in zip(sv.items, vals):
        if off > pos:
            segs.append(("c", b"\0" * (off - pos)))
        pos = off + size
        if kind == "pascal":
            I.unk(st, "struct format 'p'", node, ctx)
        if kind in ("s", "pascal"):
            b = tobs(st, v)
            if b is None:
                return None, I.raise_(st, "struct.error", node, ctx, "bytes required")
            segs.extend(fit_segs(st, size, st.norm_bs(b)))
            continue
        if kind == "c":
            b = tobs(st, v)
            segs.extend(fit_segs(st, 1, b if b is not None else opaque_bytes(fresh("c", "bytes"))))
            continue
        if is_byteslike(st, v) or is_str(v) or v is None or isinstance(v, (VTuple, ClassV)) or \
                (isinstance(v, Ref) and not isinstance(st.get(v), Inst)):
            return None, I.raise_(st, "struct.error", node, ctx, "required argument is not a number")
        w = v
        while isinstance(w, EnumVal):
            w = w.v
        isf = kind.split(":")[-1][0] == "f"
        if not isf and is_float(w):
            return None, I.raise_(st, "struct.error", node, ctx, "required argument is not an integer")
        if not isf and kind != "?" and isinstance(w, (int, Aff)):
            lo, hi = KINDS[kind][1:]
            rl, rh = st.range(w)
            if rl > hi or rh < lo:
                return None, I.raise_(st, "struct.error", node, ctx, f"{show(w)} out of range for {kind}")
            if isinstance(w, Aff) and (rl < lo or rh > hi):
                # struct raises for values out of range, so what goes on is in range
                if not st.assume_le(lo, w) or not st.assume_le(w, hi):
                    return None, I.raise_(st, "struct.error", node, ctx, "out of range")
        if isinstance(w, Sym) and w.ty == "int":
            w = atom(w)
        if isinstance(w, Sym) and w.ty == "any" and not isf:
            w = atom(w)
        segs.extend(pack_segs(kind, st.norm(w) if not isinstance(w, Ref) else w))
    if sv.size > pos:
        segs.append(("c", b"\0" * (sv.size - pos)))
    return mkbs(segs, st), None


def struct_read(st, sv, b, off):
    return VTuple([read_item(st, b, add(off, o), kind, size) for o, kind, size in sv.items])


def struct_method(I, st, sv, name, args, kwargs, node, ctx):
    struct_items(I, st, sv, node, ctx)
    res = I.fault(st, f"struct.{name}", node, ctx)
    args = list(args)
    if name == "pack":
        c, err = struct_pack_value(I, st, sv, args, node, ctx)
        return res + (err if err is not None else [(st, c)])
    if name == "pack_into":
        if "buffer" in kwargs:
            args.insert(0, kwargs["buffer"])
        if "offset" in kwargs:
            args.insert(1, kwargs["offset"])
        buf, off = args[0], num(args[1])
        c, err = struct_pack_value(I, st, sv, args[2:], node, ctx)
        if err is not None:
            return res + err
        b = tobs(st, buf)
        if not isinstance(buf, Ref) or b is None or off is None:
            if isinstance(buf, (bytes, Bs)) or plain_value(st, buf):
                return res + I.raise_(st, "builtins.TypeError", node, ctx, "a writable buffer is required")
            I.unk(st, "pack_into buffer", node, ctx)
            return res + [(st, None)]
        out = []
        for s, nonneg in I.fork_le(st, 0, off):
            o2 = off if nonneg else s.norm(add(off, bslen(b)))
            for s2, ok in I.fork_le(s, add(o2, sv.size), s.norm(bslen(b))):
                if not ok or s2.le(0, o2) is False:
                    out.extend(I.raise_(s2, "struct.error", node, ctx, "pack_into requires a larger buffer"))
                    continue
                h = s2.get(buf)
                if isinstance(h, BA):
                    ba_set(s2, buf, splice(s2, b, o2, add(o2, sv.size), c))
                else:
                    base, lo = h.data[0], h.data[1]
                    p = add(lo, o2)
                    ba_set(s2, base, splice(s2, tobs(s2, base), p, add(p, sv.size), c))
                out.append((s2, None))
        return res + out
    if name == "unpack":
        b = tobs(st, arg(args, kwargs, 0, "buffer"))
        if b is None:
            return res + I.raise_(st, "builtins.TypeError", node, ctx, "bytes required")
        out = []
        for s, ok in I.fork_eq(st, bslen(b), sv.size):
            if ok:
                out.append((s, struct_read(s, sv, b, 0)))
            else:
                out.extend(I.raise_(s, "struct.error", node, ctx, "unpack requires an exact buffer"))
        return res + out
    if name == "unpack_from":
        b = tobs(st, arg(args, kwargs, 0, "buffer"))
        off = num(arg(args, kwargs, 1, "offset", 0))
        if b is None or off is None:
            return res + I.raise_(st, "builtins.TypeError", node, ctx, "bytes required")
        out = []
        n = st.norm(bslen(b))
        for s, nonneg in I.fork_le(st, 0, off):
            o2 = off if nonneg else s.norm(add(off, n))
            for s2, ok in I.fork_le(s, add(o2, sv.size), n):
                if not ok or s2.le(0, o2) is False:
                    out.extend(I.raise_(s2, "struct.error", node, ctx, "unpack_from requires a larger buffer"))
                else:
                    out.append((s2, struct_read(s2, sv, b, o2)))
        return res + out
    if name == "iter_unpack":
        b = tobs(st, args[0])
        n = st.norm(bslen(b)) if b is not None else None
        if isinstance(n, int) and n % sv.size == 0:
            return res + [(st, st.alloc(IterO(tuple(struct_read(st, sv, b, i) for i in range(0, n, sv.size)))))]
    return res + [(st, I.unk(st, f"struct.{name}", node, ctx))]


def dyn_format(st, f):
    """a format whose one variable count belongs to a byte string: (struct before it, count, struct after it), else None"""
    if not isinstance(f, Sym) or f.tag != "fstr":
        return None
    text, n = "", None
    for x in f.args:
        if isinstance(x, str):
            text += x
        elif isinstance(x, Sym) and x.tag == "fmt" and len(x.args) == 1 and n is None and num(x.args[0]) is not None:
            n, text = num(x.args[0]), text + "{}"
        else:
            return None
    a, _, b = text.partition("{}")
    order = a[:1] if a[:1] in ("<", ">", "=", "!", "@") else ""
    if n is None or not b.startswith("s") or a[-1:].isdigit() or (order in ("", "@") and (a != order or b != "s")):
        return None
    try:
        return StructV((order or "=") + a[len(order):]), n, StructV((order or "=") + b[1:])
    except Exception:
        return None


def dyn_struct(I, st, d, fn, args, kwargs, node, ctx):
    pre, n, post = d
    out = []
    for s, ok in I.fork_le(st, 0, n):
        if not ok:
            out.extend(I.raise_(s, "struct.error", node, ctx, "bad char in struct format"))
            continue
        total = s.norm(add(n, pre.size + post.size))
        if fn == "calcsize":
            out.append((s, total))
        elif fn in ("unpack_from", "unpack"):
            b = tobs(s, arg(args, kwargs, 0, "buffer"))
            off = num(arg(args, kwargs, 1, "offset", 0)) if fn == "unpack_from" else 0
            if b is None or off is None:
                out.extend(I.raise_(s, "builtins.TypeError", node, ctx, "bytes required"))
                continue
            size = s.norm(bslen(b))
            fits = [(s, True, off)]
            if fn == "unpack":
                fits = [(s2, t, 0) for s2, t in I.fork_eq(s, size, total)]
            else:
                fits = [(s3, t, o2) for s2, nonneg in I.fork_le(s, 0, off) for o2 in [off if nonneg else s2.norm(add(off, size))]
                        for s3, t in I.fork_le(s2, add(o2, total), size)]
            for s3, t, o2 in fits:
                if not t or s3.le(0, o2) is False:
                    out.extend(I.raise_(s3, "struct.error", node, ctx, "unpack_from requires a larger buffer"))
                    continue
                lo = s3.norm(add(o2, pre.size))
                hi = s3.norm(add(lo, n))
                items = list(struct_read(s3, pre, b, o2).items) + [s3.norm_bs(bs_slice(s3, b, lo, hi))] + list(struct_read(s3, post, b, hi).items)
                out.append((s3, VTuple(items)))
        elif fn == "pack":
            i, j = len(pre.items), len(post.items)
            if len(args) != i + 1 + j or tobs(s, args[i]) is None:
                out.extend(I.raise_(s, "struct.error", node, ctx, "arguments of pack"))
                continue
            res = I.bind(struct_method(I, s, pre, "pack", args[:i], {}, node, ctx), lambda s2, a: I.bind(
                bytes_method(I, s2, mkbs(segs_of(tobs(s2, args[i]))), "ljust", [n, b"\0"], {}, node, ctx), lambda s3, m: I.bind(
                    struct_method(I, s3, post, "pack", args[i + 1:], {}, node, ctx), lambda s4, z: [
                        (s4, concat(concat(a, bs_slice(s4, tobs(s4, m), 0, n), s4), z, s4))])))
            out.extend(res)
        else:
            out.append((s, I.unk(s, f"struct.{fn} with a format that is not a constant", node, ctx)))
    return out


# ---- bytes and bytearray
def codec_of(args, kwargs):
    e = arg(args, kwargs, 0, "encoding", "utf-8")
    r = arg(args, kwargs, 1, "errors", "strict")
    if not isinstance(e, str) or not isinstance(r, str):
        return None
    return (norm_codec(e), r)


def bytes_method(I, st, v, name, args, kwargs, node, ctx):
    b = tobs(st, v)
    isba = isinstance(v, Ref) and isinstance(st.get(v), BA)

    def ret(s, x):
        return (s, s.alloc(BA(x)) if isba and isinstance(x, (bytes, Bs)) else x)
    if isba:
        if name in ("extend", "__iadd__"):
            x = tobs(st, args[0])
            if x is None:
                items = I.concrete_items(st, args[0])
                if items is not None and all(isinstance(i, int) for i in items):
                    x = bytes(items)
                else:
                    I.unk(st, "extend with a value that is not modelled", node, ctx)
                    x = opaque_bytes(fresh("ext", "bytes"))
            ba_set(st, v, concat(b, x, st))
            return [(st, v if name == "__iadd__" else None)]
        if name == "append":
            n = num(args[0])
            ba_set(st, v, concat(b, mkbs(pack_segs("u1", n)), st))
            return [(st, None)]
        if name == "clear":
            ba_set(st, v, b"")
            return [(st, None)]
        if name == "copy":
            return [(st, st.alloc(BA(b)))]
        if name == "insert" and num(args[0]) is not None:
            x = mkbs(pack_segs("u1", num(args[1])))
            out = []
            for s, p in clip(I, st, args[0], st.norm(bslen(b)), 0):
                ba_set(s, v, splice(s, b, p, p, x))
                out.append((s, None))
            return out
        if name in ("pop", "remove", "reverse"):
            if isinstance(b, bytes):
                y = bytearray(b)
                try:
                    r = getattr(y, name)(*args)
                    ba_set(st, v, bytes(y))
                    return [(st, r)]
                except Exception:
                    return I.raise_(st, "builtins.IndexError", node, ctx)
            I.unk(st, f"bytearray.{name}", node, ctx)
            ba_set(st, v, opaque_bytes(fresh("ba", "bytes")))
            return [(st, atom(fresh("pop", "int")))]
    if name == "decode":
        c = codec_of(args, kwargs)
        if c is None:
            return [(st, Sym("dec", (("?", "?"), b), "str"))]
        res = I.fault(st, "decode", node, ctx)
        return res + [(st, decode_val(c, st.norm_bs(b)))]
    if name in ("startswith", "endswith"):
        p = args[0]
        if isinstance(p, VTuple):
            alts = list(p.items)
        else:
            alts = [p]
        if len(args) == 1 and len(alts) == 1:
            y = tobs(st, alts[0])
            if y is not None:
                n, k = st.norm(bslen(b)), st.norm(bslen(y))
                out = []
                for s, ok in I.fork_le(st, k, n):
                    if not ok:
                        out.append((s, False))
                        continue
                    part = bs_slice(s, b, 0, k) if name == "startswith" else bs_slice(s, b, sub(n, k), n)
                    out.extend(equal(I, s, part, y, node, ctx))
                return out
        return [(st, Sym("bmeth", (name, b) + tuple(_h(a) for a in args), "bool"))]
    if name == "join":
        items = I.concrete_items(st, args[0])
        if items is not None:
            acc = b""
            for i, x in enumerate(items):
                y = tobs(st, x)
                if y is None:
                    return I.raise_(st, "builtins.TypeError", node, ctx, "join")
                if i:
                    acc = concat(acc, b, st)
                acc = concat(acc, y, st)
            return [ret(st, st.norm_bs(acc))]
        return [ret(st, opaque_bytes(Sym("join", (b, _h(args[0])), "bytes")))]
    if name in ("ljust", "rjust"):
        n = num(args[0])
        fill = args[1] if len(args) > 1 else b" "
        out = []
        ln = st.norm(bslen(b))
        for s, fits in I.fork_le(st, n, ln):
            if fits:
                out.append(ret(s, b))
                continue
            k = s.norm(sub(n, ln))
            if fill == b"\0":
                pad = mkbs([("z", k)])
            elif isinstance(k, int) and isinstance(fill, bytes):
                pad = fill * k
            else:
                pad = opaque_bytes(Sym("repeat", (_h(fill), k), "bytes"), k)
            out.append(ret(s, concat(b, pad, s) if name == "ljust" else concat(pad, b, s)))
        return out
    if name in ("tobytes",):
        return [(st, b)]
    if name in ("release", "__exit__"):
        return [(st, None)]
    if name == "hex":
        return [(st, b.hex() if isinstance(b, bytes) else Sym("hex", (b,), "str"))]
    if name == "__len__":
        return [(st, st.norm(bslen(b)))]
    if name == "__getitem__":
        return get_item(I, st, v, args[0], node, ctx)
    if name == "__setitem__":
        return set_item(I, st, v, args[0], args[1], node, ctx)
    if name in ("__eq__",):
        return equal(I, st, v, args[0], node, ctx)
    if name in ("find", "index", "rfind", "count", "rindex"):
        y = args[0]
        if isinstance(b, bytes) and isinstance(y, (bytes, int)) and all(isinstance(a, int) for a in args[1:]):
            try:
                return [(st, getattr(b, name)(*args))]
            except ValueError:
                return I.raise_(st, "builtins.ValueError", node, ctx)
        r = Sym("bfind", (name, b) + tuple(_h(a) for a in args), "int")
        if name == "count":
            st.assume_le(0, atom(r))
        else:
            st.assume_le(-1 if name.endswith("find") else 0, atom(r))
            st.assume_le(atom(r), st.norm(bslen(b)))
        return [(st, atom(r))]
    if name in ("rstrip", "lstrip", "strip", "replace", "split", "partition", "rpartition", "upper", "lower", "translate",
                "removeprefix", "removesuffix", "zfill", "center", "expandtabs", "swapcase", "title", "splitlines", "rsplit"):
        if isinstance(b, bytes) and all(isinstance(a, (bytes, int)) for a in args):
            r = getattr(b, name)(*args)
            if isinstance(r, (list, tuple)):
                return [(st, st.alloc(ListO(r)) if isinstance(r, list) else VTuple(r))]
            return [ret(st, r)]
        sy = Sym("bmeth", (name, b) + tuple(_h(a) for a in args), "bytes")
        if name in ("split", "rsplit", "splitlines"):
            return [(st, Sym("bmeth", sy.args, "any"))]
        if name in ("partition", "rpartition"):
            return [(st, VTuple([opaque_bytes(Sym("bpart", sy.args + (i,), "bytes")) for i in range(3)]))]
        return [ret(st, opaque_bytes(sy))]
    return [(st, I.unk(st, f"bytes.{name}", node, ctx))]


# ---- str, int, tuple
def text_concat(xs):
    xs = tuple(x for x in xs if x != "")
    return Sym("concat", xs, "str") if len(xs) > 1 else xs[0] if xs else ""


def str_method(I, st, v, name, args, kwargs, node, ctx):
    if name == "encode":
        c = codec_of(args, kwargs)
        res = I.fault(st, "encode", node, ctx)
        if c is None:
            return res + [(st, opaque_bytes(Sym("encodeq", (_h(v),), "bytes")))]
        return res + [(st, mkbs(encode_segs(c, v), st))]
    if isinstance(v, str) and all(isinstance(a, (str, int)) or a is None for a in args) and not kwargs:
        try:
            r = getattr(v, name)(*args)
            if isinstance(r, list):
                return [(st, st.alloc(ListO(r)))]
            if isinstance(r, tuple):
                return [(st, VTuple(r))]
            return [(st, r)]
        except Exception as e:
            return I.raise_(st, "builtins." + type(e).__name__, node, ctx)
    if name == "join":
        items = I.concrete_items(st, args[0])
        if items is not None and all(isinstance(x, str) for x in items) and isinstance(v, str):
            return [(st, v.join(items))]
        if items is not None and all(is_str(x) for x in items):
            return [(st, text_concat([y for i, x in enumerate(items) for y in ((v, x) if i else (x,))]))]
        return [(st, Sym("strjoin", (_h(v), _h(args[0])), "str"))]
    if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
        return [(st, Sym("smeth", (name, v) + tuple(_h(a) for a in args), "any"))]
    if name in ("startswith", "endswith", "isdigit", "isascii", "isspace", "isalpha"):
        return [(st, Sym("smeth", (name, v) + tuple(_h(a) for a in args), "bool"))]
    if name == "format" and v == "{}" and len(args) == 1 and is_str(args[0]):
        return [(st, args[0])]
    return [(st, Sym("smeth", (name, _h(v)) + tuple(const_dict(st, a) for a in args), "str"))]


def const_dict(st, a):
    o = st.get(a) if isinstance(a, Ref) else None
    if isinstance(o, DictO) and all(isinstance(x, (int, str)) or x is None for kv in o.items for x in kv):
        return ("dict", tuple(tuple(kv) for kv in o.items))
    return _h(a)


def int_method(I, st, v, name, args, kwargs, node, ctx):
    if name == "to_bytes":
        n = arg(args, kwargs, 0, "length", 1)
        order = arg(args, kwargs, 1, "byteorder", "big")
        signed = kwargs.get("signed", False)
        kind = ("be:" if order == "big" and n != 1 else "") + ("i" if signed else "u") + str(n)
        if isinstance(v, int) and isinstance(n, int) and order in ("little", "big"):
            try:
                return [(st, int(v).to_bytes(n, order, signed=bool(signed)))]
            except OverflowError:
                return I.raise_(st, "builtins.OverflowError", node, ctx)
        if n in (1, 2, 4, 8) and order in ("little", "big"):
            return [(st, mkbs(pack_segs(kind, v)))]
        return [(st, opaque_bytes(Sym("to_bytes", (v, _h(n), _h(order)), "bytes"), n if isinstance(n, int) else None))]
    if name in ("__int__", "__index__", "conjugate", "__trunc__"):
        return [(st, v)]
    if name == "__eq__":
        return equal(I, st, v, args[0], node, ctx)
    if isinstance(v, int) and all(isinstance(a, int) for a in args):
        try:
            return [(st, getattr(int(v), name)(*args))]
        except Exception:
            pass
    if name in ("bit_length", "bit_count"):
        r = Sym("imeth", (name, v), "int")
        st.assume_le(0, atom(r))
        return [(st, atom(r))]
    a = v.atom if isinstance(v, Aff) else None
    if a is not None and a.ty == "any":
        return sym_method(I, st, a, name, args, kwargs, node, ctx)
    return [(st, Sym("imeth", (name, v) + tuple(_h(x) for x in args), "any"))]


def tuple_method(I, st, v, name, args, kwargs, node, ctx):
    if name in ("count", "index") and all(isinstance(x, (int, str, bytes)) for x in v.items):
        try:
            return [(st, getattr(v.items, name)(*args))]
        except ValueError:
            return I.raise_(st, "builtins.ValueError", node, ctx)
    if name == "_asdict" and v.cls is not None:
        return [(st, st.alloc(DictO(list(zip(v.cls.fields_own, v.items)))))]
    if name == "_replace" and v.cls is not None:
        n = list(v.cls.fields_own)
        return [(st, VTuple([kwargs.get(k, x) for k, x in zip(n, v.items)], v.cls))]
    if name == "__iter__":
        return [(st, st.alloc(IterO(v.items)))]
    if name == "__len__":
        return [(st, len(v.items))]
    return [(st, I.unk(st, f"tuple.{name}", node, ctx))]


# ---- containers
def list_method(I, st, ref, o, name, args, kwargs, node, ctx):
    items = list(o.items)

    def put(x):
        st.put(ref, ListO(x, o.kind))
    if name in ("append", "add"):
        if name == "add" and any(keyeq(x, args[0]) for x in items):
            return [(st, None)]
        put(items + [args[0]])
        return [(st, None)]
    if name == "appendleft":
        put([args[0]] + items)
        return [(st, None)]
    if name in ("extend", "update"):
        x = I.concrete_items(st, args[0])
        if x is None:
            x = [Sym("star", (_h(args[0]),), "any")]
            I.unk(st, "extend with a value that is not modelled", node, ctx)
        put(items + list(x))
        return [(st, None)]
    if name in ("pop", "popleft"):
        if not items:
            return I.raise_(st, "builtins.IndexError", node, ctx)
        i = 0 if name == "popleft" else arg(args, kwargs, 0, "index", -1)
        if isinstance(i, int) and -len(items) <= i < len(items):
            r = items.pop(i)
            put(items)
            return [(st, r)]
    if name == "insert" and isinstance(args[0], int):
        items.insert(args[0], args[1])
        put(items)
        return [(st, None)]
    if name == "clear":
        put([])
        return [(st, None)]
    if name == "copy":
        return [(st, st.alloc(ListO(items, o.kind)))]
    if name == "reverse":
        put(items[::-1])
        return [(st, None)]
    if name == "sort":
        if all(isinstance(x, (int, float)) for x in items) or all(isinstance(x, str) for x in items):
            put(sorted(items))
            return [(st, None)]
    if name in ("remove", "discard"):
        put([x for x in items if not keyeq(x, args[0])])
        return [(st, None)]
    if name in ("index", "count") and all(isinstance(x, (int, str, bytes)) for x in items + list(args)):
        try:
            return [(st, getattr(items, name)(*args))]
        except ValueError:
            return I.raise_(st, "builtins.ValueError", node, ctx)
    if name == "__iter__":
        return [(st, st.alloc(IterO(tuple(items))))]
    if name == "__len__":
        return [(st, len(items))]
    if name == "__contains__":
        return contains(I, st, args[0], ref, node, ctx)
    return [(st, I.unk(st, f"list.{name}", node, ctx))]


def dict_method(I, st, ref, o, name, args, kwargs, node, ctx):
    if name in ("get", "setdefault", "pop"):
        d = arg(args, kwargs, 1, "default", None if name != "pop" else NODEFAULT)
        rs = lookup(I, st, o.items, args[0])
        if rs is None:
            return [(st, Sym("dictget", (("obj", ref.id), _h(args[0]), _h(d)), "any"))]
        out = []
        for s, (found, v) in rs:
            if found:
                if name == "pop":
                    s.put(ref, DictO([(k, x) for k, x in o.items if not keyeq(k, args[0])]))
                out.append((s, v))
            elif d is NODEFAULT:
                out.extend(I.raise_(s, "builtins.KeyError", node, ctx))
            else:
                if name == "setdefault":
                    s.put(ref, DictO(list(o.items) + [(args[0], d)]))
                out.append((s, d))
        return out
    if name == "items":
        return [(st, VTuple([VTuple([k, v]) for k, v in o.items]))]
    if name == "keys":
        return [(st, VTuple([k for k, _ in o.items]))]
    if name == "values":
        return [(st, VTuple([v for _, v in o.items]))]
    if name == "update":
        items = list(o.items)
        for a in args:
            x = st.get(a) if isinstance(a, Ref) else None
            if isinstance(x, DictO):
                for k, v in x.items:
                    items = _dset(items, k, v)
            else:
                I.unk(st, "dict.update", node, ctx)
        for k, v in kwargs.items():
            items = _dset(items, k, v)
        st.put(ref, DictO(items))
        return [(st, None)]
    if name == "copy":
        return [(st, st.alloc(DictO(o.items)))]
    if name == "clear":
        st.put(ref, DictO(()))
        return [(st, None)]
    if name == "__getitem__":
        return get_item(I, st, ref, args[0], node, ctx)
    if name == "__setitem__":
        return set_item(I, st, ref, args[0], args[1], node, ctx)
    if name == "__contains__":
        return contains(I, st, args[0], ref, node, ctx)
    if name == "__len__":
        return [(st, len(o.items))]
    return [(st, I.unk(st, f"dict.{name}", node, ctx))]


def gen_method(I, st, ref, o, name, args, kwargs, node, ctx):
    if name == "__iter__":
        return [(st, ref)]
    if name == "__next__":
        return next_(I, st, ref, NODEFAULT, node, ctx)
    if name == "close":
        st.events.append(("genclose", ref.id, I.loc(node, ctx)))
        return [(st, None)]
    return [(st, I.unk(st, f"generator.{name}", node, ctx))]


def driver(st, text, names):
    """function of a small piece of Python text over the given values"""
    tree = ast.parse(text).body[0]
    return FuncV(tree.name, "driver." + tree.name, tree, "driver", st.alloc(Env(dict(names))), [], {})


class ThenRaise:
    """last item of an iterator over a generator that ends with an exception"""
    def __init__(self, raised):
        self.raised = raised


def _touches_stream(I, st, v, seen):
    """the value reaches a stream object (through attributes, items or closures)"""
    if isinstance(v, VTuple):
        return any(_touches_stream(I, st, x, seen) for x in v.items)
    if isinstance(v, (BM, BoundV)):
        return _touches_stream(I, st, v.self, seen)
    if isinstance(v, PartialV):
        return any(_touches_stream(I, st, x, seen) for x in (v.f, *v.args, *v.kwargs.values()))
    if isinstance(v, FuncV):
        e = v.env
        while isinstance(e, Ref) and e.id not in seen:
            seen.add(e.id)
            env = st.get(e)
            if e == I.program.modenv(v.mod):
                break
            if any(_touches_stream(I, st, x, seen) for x in env.vars.values()):
                return True
            e = env.parent
        return False
    if not isinstance(v, Ref) or v.id in seen:
        return False
    seen.add(v.id)
    try:
        o = st.get(v)
    except KeyError:
        return False
    if isinstance(o, StreamO):
        return True
    if isinstance(o, Inst):
        return any(_touches_stream(I, st, x, seen) for x in o.attrs.values())
    if isinstance(o, (ListO, IterO)):
        return any(_touches_stream(I, st, x, seen) for x in o.items)
    if isinstance(o, DictO):
        return any(_touches_stream(I, st, x, seen) for _, x in o.items)
    if isinstance(o, GenO):
        return any(_touches_stream(I, st, x, seen) for x in (*o.args, *o.kwargs.values()))
    return False


def finite_helper(I, st, it):
    """a generator that was not started yet, has no while loop and reaches no
    file: its values can be determined ahead of their use"""
    o = st.get(it) if isinstance(it, Ref) else None
    if not isinstance(o, GenO) or o.started or I.is_recursive(o):
        return False
    if any(isinstance(n, (ast.While, ast.Try, ast.With)) for n in ast.walk(o.func.node)):
        return False
    return not any(_touches_stream(I, st, x, set()) for x in (o.func, *o.args, *o.kwargs.values()))


def settle(I, st, it, node, ctx):
    """run such a generator and leave an iterator over its values: [(st, Raised | None)]"""
    o = st.get(it)
    acc = st.alloc(ListO([], "list"))

    def handler(s, v, n2, c2):
        l = s.get(acc)
        if isinstance(l, ListO):
            s.put(acc, ListO(tuple(l.items) + (v,), "list"))
        return [(s, None)]
    out = []
    for s, r in I.run_gen(st, o, handler, node, ctx):
        l = s.get(acc)
        if not isinstance(l, ListO):
            I.unk(s, "values of a generator", node, ctx)
            l = ListO((), "list")
        s.put(it, IterO(tuple(l.items) + ((ThenRaise(r),) if isinstance(r, Raised) else ()), 0))
        out.append((s, r if isinstance(r, Raised) else None))
    return out


_CONSUMERS = frozenset("builtins." + x for x in (
    "zip enumerate map filter sum any all min max sorted reversed dict bytes bytearray".split())) | {
    "functools.reduce", "collections.deque", "struct.pack"}
_CONSUMING = frozenset("join extend update writelines".split())


def consumes(fv):
    if isinstance(fv, ExtV):
        return fv.name in _CONSUMERS or fv.name.startswith("itertools.")
    return isinstance(fv, BM) and fv.name in _CONSUMING


def settle_all(I, st, vals, node, ctx):
    """[(st, Raised | None)] with all finite helper generators among the values settled"""
    todo = [v for v in vals if isinstance(v, Ref) and finite_helper(I, st, v)]
    live, out = [st], []
    for v in todo:
        nxt = []
        for s in live:
            for s2, r in settle(I, s, v, node, ctx):
                (out if isinstance(r, Raised) else nxt).append((s2, r) if isinstance(r, Raised) else s2)
        live = nxt
    return out + [(s, None) for s in live]


def next_(I, st, it, default, node, ctx):
    if finite_helper(I, st, it):
        out = []
        for s, _ in settle(I, st, it, node, ctx):
            out.extend(next_(I, s, it, default, node, ctx))
        return out
    o = st.get(it) if isinstance(it, Ref) else None
    if isinstance(o, IterO):
        if o.i < len(o.items):
            st.put(it, IterO(o.items, o.i + 1))
            if isinstance(o.items[o.i], ThenRaise):
                return [(st, o.items[o.i].raised)]
            return [(st, o.items[o.i])]
        if default is NODEFAULT:
            return I.raise_(st, "builtins.StopIteration", node, ctx)
        return [(st, default)]
    if isinstance(o, GenO) or isinstance(it, Sym):
        loc = I.loc(node, ctx)
        k = fresh("nx")
        key = ("obj", it.id) if isinstance(it, Ref) else it
        res = I.fault(st, "next()", node, ctx)
        s2 = st.clone()
        more = Sym("next", (key, k), "any")
        st.events.append(("next", it, more, loc))
        if isinstance(o, GenO):
            st.put(it, GenO(o.func, o.args, o.kwargs, True))
            s2.put(it, GenO(o.func, o.args, o.kwargs, True))
        s2.events.append(("next", it, None, loc))
        out = res + [(st, more)]
        if default is NODEFAULT:
            out.extend(I.raise_(s2, "builtins.StopIteration", node, ctx))
        else:
            out.append((s2, default))
        return out
    if isinstance(o, Inst) and I.class_attr(st, o.cls, "__next__") is not None:
        out = []
        for s, r in I.call_attr(st, it, "__next__", [], {}, node, ctx):
            if isinstance(r, Raised) and default is not NODEFAULT and \
                    getattr(r.exc.cls, "name", "") == "builtins.StopIteration":
                out.append((s, default))
            else:
                out.append((s, r))
        return out
    return [(st, I.unk(st, "next()", node, ctx))]


def opaque_method(I, st, ref, o, name, args, kwargs, node, ctx):
    if o.name == "grown":
        if name in ("append", "add", "appendleft", "extend", "extendleft", "insert", "update", "clear", "discard", "sort", "reverse"):
            return [(st, None)]
        return [(st, I.unk(st, "a collection that changes in a loop", node, ctx))]
    if o.name == "mv":
        if name in ("release", "__exit__"):
            return [(st, None)]
        if name == "__enter__":
            return [(st, ref)]
        if name == "cast":
            return [(st, ref)]
        return bytes_method(I, st, tobs(st, ref), name, args, kwargs, node, ctx)
    if o.name == "exitstack":
        if name in ("callback", "push"):
            st.put(ref, OpaqueO("exitstack", o.data + ((args[0], tuple(args[1:]), tuple(kwargs.items())),)))
            return [(st, args[0])]
        if name == "enter_context":
            cm = args[0]
            co = st.get(cm) if isinstance(cm, Ref) else None
            if isinstance(co, StreamO):
                st.put(ref, OpaqueO("exitstack", o.data + ((BM(cm, "close"), (), ()),)))
                return [(st, cm)]
            if isinstance(co, OpaqueO) and co.name == "closing":
                st.put(ref, OpaqueO("exitstack", o.data + ((PartialV(ExtV("vsa.close"), (co.data[0],), {}), (), ()),)))
                return [(st, co.data[0])]
            I.unk(st, "enter_context", node, ctx)
            return [(st, cm)]
        if name == "pop_all":
            n = st.alloc(OpaqueO("exitstack", o.data))
            st.put(ref, OpaqueO("exitstack", ()))
            return [(st, n)]
        if name == "close":
            res = [(st, None)]
            for cb in reversed(o.data):
                res = I.bind(res, lambda s, _, cb=cb: I.call(s, cb[0], list(cb[1]), dict(cb[2]), node, ctx))
            return I.bind(res, lambda s, _: [(s, None)])
    if o.name in ("zcomp", "zdecomp"):
        return zobj_method(I, st, ref, o, name, args, kwargs, node, ctx)
    if o.name == "lock":
        if name in ("acquire", "release", "__enter__", "__exit__", "locked"):
            return [(st, True)]
    return [(st, I.unk(st, f"{o.name}.{name}", node, ctx))]


# ---- datetime
DTPARTS = ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo")
TMPARTS = {"tm_year": 0, "tm_mon": 1, "tm_mday": 2, "tm_hour": 3, "tm_min": 4, "tm_sec": 5, "tm_wday": 6, "tm_yday": 7, "tm_isdst": 8}


STRF = {"%Y": "year", "%m": "month", "%d": "day", "%H": "hour", "%M": "minute", "%S": "second", "%f": "microsecond",
        "%w": "weekday", "%u": "weekday", "%j": "yday"}


def later(st, d, delta):
    """a date-time built from its parts plus less than a second, as long as the second does not roll over"""
    if d.tag != "dtnew":
        return None
    us = d.args[6]
    for x in delta.args:
        if not isinstance(x, tuple) or x[0] not in ("milliseconds", "microseconds") or not isinstance(x[1], (int, Aff)):
            return None
        us = add(us, mul(x[1], 1000 if x[0] == "milliseconds" else 1))
    lo, hi = st.range(us)
    return Sym("dtnew", d.args[:6] + (st.norm(us),) + d.args[7:], "datetime") if 0 <= lo and hi <= 999999 else None


def same_parts(v):
    """the date-time that v takes its parts from"""
    while isinstance(v, Sym) and v.tag == "dtm" and v.args[0] in ("date", "time", "timetz") and len(v.args) == 2:
        v = v.args[1]
    return v


def dt_method(I, st, v, name, args, kwargs, node, ctx):
    if name in ("weekday", "isoweekday", "timetuple", "timestamp"):
        v = same_parts(v)
    if name == "timetuple":
        return [(st, VTuple([atom(Sym("dtattr", (v, p), "int")) for p in DTPARTS[:6] + ("weekday", "yday", "isdst")]))]
    if name == "replace" and v.tag == "dtnew" and len(args) <= 7 and set(kwargs) <= set(DTPARTS):
        vals = dict(zip(DTPARTS, v.args))
        vals.update(zip(DTPARTS, [_h(a) for a in args]))
        vals.update((k, _h(x)) for k, x in kwargs.items())
        return I.fault(st, name, node, ctx) + [(st, Sym("dtnew", tuple(vals[p] for p in DTPARTS), "datetime"))]
    if name in ("date", "time", "timetz") and not args:
        return [(st, Sym("dtm", (name, v), "datetime"))]
    if name == "weekday":
        return [(st, atom(Sym("dtattr", (v, "weekday"), "int")))]
    if name == "isoweekday":
        return [(st, add(atom(Sym("dtattr", (v, "weekday"), "int")), 1))]
    if name in ("timestamp",):
        return [(st, Sym("dtts", (v,), "float"))]
    if name in ("replace", "astimezone", "utctimetuple"):
        return [(st, Sym("dtm", (name, v) + tuple(_h(a) for a in args) + tuple(sorted((k, _h(x)) for k, x in kwargs.items())), "datetime"))]
    if name == "isocalendar":
        v = same_parts(v)
        return [(st, VTuple([atom(Sym("dtattr", (v, "isoyear"), "int")), atom(Sym("dtattr", (v, "isoweek"), "int")),
                             add(atom(Sym("dtattr", (v, "weekday"), "int")), 1)]))]
    if name in ("date", "time", "utcoffset", "tzinfo"):
        return [(st, Sym("dtm", (name, v), "any"))]
    return [(st, Sym("dtm", (name, v) + tuple(_h(a) for a in args), "any"))]


# ---- streams
def stream_len(st, o):
    if o.size is not None:
        return o.size
    if isinstance(o.src, (bytes, Bs)):
        return bslen(o.src)
    return atom(Sym("len", (o.src,), "int"))


def stream_read(I, st, ref, n, node, ctx):
    o = st.get(ref)
    loc = I.loc(node, ctx)
    out = []
    cases = []
    n = None if n is None else num(n)
    if n is None:
        cases.append((st, None))
    else:
        for s, nonneg in I.fork_le(st, 0, n):
            cases.append((s, n if nonneg else None))
    for s, m in cases:
        pos = o.pos
        if m is None:
            end = s.norm(stream_len(s, o))
            for s2, ok in I.fork_le(s, pos, end):
                e = end if ok else pos
                s2.put(ref, o.but(pos=e, eof=e))
                s2.events.append(("read", ref, pos, None, sub(e, pos), loc))
                out.append((s2, stream_slice(s2, o, pos, e)))
            continue
        m = s.norm(m)
        if m == 0:
            s.events.append(("read", ref, pos, 0, 0, loc))
            out.append((s, b""))
            continue
        known_eof = o.eof if o.eof is not None else (s.norm(stream_len(s, o)) if isinstance(o.src, (bytes, Bs)) else None)
        if known_eof is not None:
            # the length of the content is known
            for s2, full in I.fork_le(s, add(pos, m), known_eof):
                if full:
                    e = add(pos, m)
                    s2.put(ref, o.but(pos=e))
                    s2.events.append(("read", ref, pos, m, m, loc))
                    out.append((s2, stream_slice(s2, o, pos, e)))
                    continue
                for s3, inside in I.fork_le(s2, pos, known_eof):
                    e = known_eof if inside else pos
                    s3.put(ref, o.but(pos=e))
                    s3.events.append(("read", ref, pos, m, s3.norm(sub(e, pos)), loc))
                    out.append((s3, stream_slice(s3, o, pos, e)))
            continue
        s2 = s.clone()
        # full read
        e = s.norm(add(pos, m))
        s.put(ref, o.but(pos=e))
        s.events.append(("read", ref, pos, m, m, loc))
        out.append((s, stream_slice(s, o, pos, e)))
        # short read: end of the stream
        L = atom(Sym("rlen", (m, fresh("r")), "int"))
        if s2.assume_le(add(L, 1), m):
            e = s2.norm(add(pos, L))
            s2.put(ref, o.but(pos=e, eof=e))
            s2.events.append(("read", ref, pos, m, L, loc))
            out.append((s2, stream_slice(s2, o, pos, e)))
    return out


def stream_method(I, st, ref, name, args, kwargs, node, ctx):
    o = st.get(ref)
    loc = I.loc(node, ctx)
    if name in ("close",):
        s0 = st
        res = []
        if I.faults:
            sf = st.clone()
            # a failing close still releases the handle, as io objects do
            sf.put(ref, o.but(closed=True))
            sf.events.append(("close", ref, loc))
            sf.events.append(("fault", "close()", loc))
            res = [(sf, Raised(ExcV(ExtV("fault.Fault"), ("close()",), node=node), loc))]
        s0.put(ref, o.but(closed=True))
        s0.events.append(("close", ref, loc))
        return [(s0, None)] + res
    if name == "__exit__":
        return stream_method(I, st, ref, "close", [], {}, node, ctx)
    if name == "__enter__":
        return [(st, ref)]
    if o.closed is True:
        return I.raise_(st, "builtins.ValueError", node, ctx, "I/O operation on closed file")
    if name in ("seekable", "readable", "writable"):
        return [(st, True)]
    if name in ("isatty",):
        return [(st, False)]
    memory = o.kind == "bytesio" and isinstance(o.src, (bytes, Bs))
    res = [] if memory else I.fault(st, f"{name}()", node, ctx)
    if name == "tell":
        st.events.append(("tell", ref, loc))
        return res + [(st, o.pos)]
    if name == "read":
        return res + stream_read(I, st, ref, arg(args, kwargs, 0, "size", None), node, ctx)
    if name == "readinto":
        buf = args[0]
        b = tobs(st, buf)
        n = st.norm(bslen(b))
        out = []
        for s, v in stream_read(I, st, ref, n, node, ctx):
            ln = s.norm(bslen(v))
            h = s.get(buf)
            if isinstance(h, BA):
                ba_set(s, buf, splice(s, tobs(s, buf), 0, ln, v))
            elif isinstance(h, OpaqueO):
                p = h.data[1]
                ba_set(s, h.data[0], splice(s, tobs(s, h.data[0]), p, add(p, ln), v))
            out.append((s, ln))
        return res + out
    if name == "peek":
        b = stream_read(I, st, ref, args[0] if args else None, node, ctx)
        for s, v in b:
            s.put(ref, s.get(ref).but(pos=o.pos))
        return res + b
    if name == "seek":
        off = num(arg(args, kwargs, 0, "offset", 0))
        wh = arg(args, kwargs, 1, "whence", 0)
        wh = wh.v if isinstance(wh, EnumVal) else wh
        if off is None or not isinstance(wh, int):
            st.put(ref, o.but(pos=atom(fresh("seek", "int"))))
            st.events.append(("seek", ref, st.get(ref).pos, loc))
            return res + [(st, I.unk(st, "seek", node, ctx, "int"))]
        if wh == 0:
            p = off
        elif wh == 1:
            p = st.norm(add(o.pos, off))
        else:
            end = o.eof if o.eof is not None else o.size if o.size is not None else stream_len(st, o)
            p = st.norm(add(end, off))
        st.put(ref, o.but(pos=p))
        st.events.append(("seek", ref, p, loc))
        return res + [(st, p)]
    if name == "write":
        b = tobs(st, args[0])
        if b is None:
            return res + I.raise_(st, "builtins.TypeError", node, ctx, "write() of a non-bytes value")
        b = st.norm_bs(b)
        st.events.append(("write", ref, o.pos, b, loc))
        n = st.norm(bslen(b))
        size = o.size
        end = st.norm(add(o.pos, n))
        if memory:
            have = st.norm(bslen(o.src))
            out = []
            for s2, gap in I.fork_le(st, add(have, 1), o.pos) if n != 0 else [(st, None)]:
                if gap is None:
                    src = o.src
                elif gap:
                    src = s2.norm_bs(concat(concat(o.src, zeros(s2.norm(sub(o.pos, have))), s2), b, s2))
                else:
                    for s3, over in I.fork_le(s2, have, end):
                        src = s3.norm_bs(concat(bs_slice(s3, o.src, 0, o.pos), b, s3)) if over else splice(s3, o.src, o.pos, end, b)
                        s3.put(ref, o.but(pos=end, src=src, size=s3.norm(bslen(src)), eof=None))
                        out.append((s3, n))
                    continue
                s2.put(ref, o.but(pos=end, src=src, size=s2.norm(bslen(src)), eof=None))
                out.append((s2, n))
            return out
        if size is not None:
            d = st.le(size, end)
            size = end if d is True else size if d is False else minmax_max(st, size, end)
        st.put(ref, o.but(pos=end, size=size))
        return res + [(st, n)]
    if name == "writelines":
        items = I.concrete_items(st, args[0])
        if items is not None:
            r = [(st, None)]
            for x in items:
                r = I.bind(r, lambda s, _, x=x: stream_method(I, s, ref, "write", [x], {}, node, ctx))
            return res + r
    if name == "truncate":
        p = num(args[0]) if args and args[0] is not None else o.pos
        if memory:
            out = []
            for s2, less in I.fork_le(st, p, bslen(o.src)):
                src = bs_slice(s2, o.src, 0, p) if less else o.src
                s2.put(ref, o.but(src=src, size=s2.norm(bslen(src)), eof=None))
                s2.events.append(("truncate", ref, p, loc))
                out.append((s2, p))
            return out
        st.events.append(("truncate", ref, p, loc))
        st.put(ref, o.but(size=p))
        return res + [(st, p)]
    if name == "flush":
        st.events.append(("flush", ref, loc))
        return res + [(st, None)]
    if name == "fileno":
        return res + [(st, atom(Sym("fileno", (ref.id,), "int")))]
    if name in ("getvalue", "getbuffer"):
        if memory:
            return [(st, o.src)]
        return res + [(st, opaque_bytes(Sym("getvalue", (ref.id, len(st.events)), "bytes")))]
    return res + [(st, I.unk(st, f"stream.{name}", node, ctx))]


def minmax_max(st, a, b):
    return S.minmax(st, "max", [a, b])


# ---- zlib
def zlib_call(I, st, name, args, kwargs, node, ctx):
    res = I.fault(st, f"zlib.{name}", node, ctx)
    if name == "compress":
        b = tobs(st, arg(args, kwargs, 0, "data"))
        lvl = arg(args, kwargs, 1, "level", -1)
        wb = arg(args, kwargs, 2, "wbits", 15)
        if b is None:
            return res + I.raise_(st, "builtins.TypeError", node, ctx)
        b = st.norm_bs(b)
        st.events.append(("compress", b, lvl, wb, I.loc(node, ctx)))
        return res + [(st, opaque_bytes(Sym("zcompress", (b, _h(lvl if not isinstance(lvl, EnumVal) else lvl.v), _h(wb)), "bytes")))]
    if name == "decompress":
        b = tobs(st, arg(args, kwargs, 0, "data"))
        wb = arg(args, kwargs, 1, "wbits", 15)
        if b is None:
            return res + I.raise_(st, "builtins.TypeError", node, ctx)
        b = st.norm_bs(b)
        st.events.append(("decompress", b, wb, I.loc(node, ctx)))
        return res + [(st, opaque_bytes(Sym("zdecompress", (b, _h(wb)), "bytes")))]
    if name in ("compressobj", "decompressobj"):
        lvl = arg(args, kwargs, 0, "level", -1)
        wb = arg(args, kwargs, 2 if name == "compressobj" else 0, "wbits", 15)
        return res + [(st, st.alloc(OpaqueO("zcomp" if name == "compressobj" else "zdecomp",
                                            (_h(lvl.v if isinstance(lvl, EnumVal) else lvl) if name == "compressobj" else None, _h(wb), b"", False))))]
    if name in ("crc32", "adler32"):
        return res + [(st, atom(Sym("crc", (name,) + tuple(_h(a) for a in args), "int")))]
    return res + [(st, I.unk(st, f"zlib.{name}", node, ctx))]


def zobj_method(I, st, ref, o, name, args, kwargs, node, ctx):
    lvl, wb, acc, lim = o.data
    res = I.fault(st, f"zlib.{name}", node, ctx)
    if o.name == "zcomp":
        if name == "compress":
            st.put(ref, OpaqueO("zcomp", (lvl, wb, st.norm_bs(concat(acc, tobs(st, args[0]))), lim)))
            return res + [(st, b"")]
        if name == "flush":
            st.events.append(("compress", acc, lvl, wb, I.loc(node, ctx)))
            return res + [(st, opaque_bytes(Sym("zcompress", (acc, lvl, wb), "bytes")))]
    else:
        if name == "decompress":
            b = st.norm_bs(concat(acc, tobs(st, args[0])))
            mx = arg(args, kwargs, 1, "max_length", 0)
            st.put(ref, OpaqueO("zdecomp", (lvl, wb, b, mx != 0)))
            tag = "zdecompress" if mx == 0 else "zdecompress_part"
            st.events.append(("decompress", b, wb, I.loc(node, ctx)))
            return res + [(st, opaque_bytes(Sym(tag, (b, wb) if mx == 0 else (b, wb, _h(mx)), "bytes")))]
        if name == "flush":
            return res + [(st, b"" if not lim else opaque_bytes(Sym("zrest", (acc, wb, fresh("z")), "bytes")))]
    return res + [(st, I.unk(st, f"zlib object.{name}", node, ctx))]


# ---- enumerations
def _enum_missing(I, st, a, k, node, ctx):
    """what a value that is not a member becomes unless the class says otherwise"""
    c = a[0]
    if c.enum in ("flag", "pflag"):
        return enum_call(I, st, c, a[1:], {}, node, ctx, stock=True)
    return [(st, None)]


def enum_call(I, st, c, args, kwargs, node, ctx, stock=False):
    x = arg(args, kwargs, 0, "value")
    if isinstance(x, EnumVal) and x.cls is c:
        return [(st, x)]
    if isinstance(x, EnumVal):
        x = x.v
    miss = I.class_attr(st, c, "_missing_") if not stock else None

    def missing(s):
        res = []
        if miss is not None:
            f = miss.f if isinstance(miss, (ClassM, StaticM)) else miss
            for s2, r in I.call(s, BoundV(f, c), [x], {}, node, ctx):
                if isinstance(r, Raised) or (isinstance(r, EnumVal) and r.cls is c):
                    res.append((s2, r))
                elif r is None:
                    res.extend(I.raise_(s2, "builtins.ValueError", node, ctx, f"not a valid {c.name}"))
                else:
                    res.append((s2, I.unk(s2, "_missing_ result", node, ctx)))
            return res
        s.events.append(("enumfail", c.qual, _h(x), I.loc(node, ctx)))
        return I.raise_(s, "builtins.ValueError", node, ctx, f"{show(x)} is not a valid {c.name}")
    n = num(x)
    if c.enum in ("flag", "pflag"):
        b = c.kw.get("boundary")
        bn = b.name.split(".")[-1] if isinstance(b, ExtV) else ("KEEP" if c.enum == "flag" else "STRICT")
        if n is not None and miss is not None:
            out = []
            for s, t in member_fork(I, st, c, n):
                out.extend([(s, EnumVal(c, s.norm(n)))] if t else missing(s))
            return out
        if n is not None:
            mask = 0
            for m in c.members.values():
                mask |= m
            if bn in ("KEEP",):
                return [(st, EnumVal(c, n))]
            if bn == "EJECT":
                return [(st, n)]
            if isinstance(n, int):
                if 0 <= n <= mask and not (n & ~mask):
                    return [(st, EnumVal(c, n))]
                if bn == "CONFORM":
                    return [(st, EnumVal(c, n & mask))]
                return missing(st)
            if bn == "CONFORM":
                return [(st, EnumVal(c, _intop(I, st, "&", n, mask)))]
            s2 = st.clone()
            flag = Sym("flagok", (c.qual, n), "bool")
            if flag in st.bools:
                return [(st, EnumVal(c, n))] if st.bools[flag] else missing(st)
            st.bools[flag] = True
            s2.bools[flag] = False
            return [(st, EnumVal(c, n))] + missing(s2)
    if isinstance(x, (str, bytes, float)) or x is None:
        if x in c.members.values():
            return [(st, EnumVal(c, x))]
        return missing(st)
    if n is None:
        return [(st, EnumVal(c, x))] + I.fault(st, f"{c.name}()", node, ctx)
    out = []
    for s, t in member_fork(I, st, c, n):
        if t:
            out.append((s, EnumVal(c, s.norm(n))))
        else:
            out.extend(missing(s))
    return out


# ------------------------------------------------------------------------------------------------ library calls
def type_names(v):
    """flatten a class argument of isinstance to a tuple of names / classes"""
    if isinstance(v, VTuple):
        out = []
        for x in v.items:
            out.extend(type_names(x))
        return out
    return [v]


EXT_TYPES = {"builtins.str": str, "builtins.bytes": bytes, "builtins.int": int, "builtins.float": float, "builtins.bool": bool,
             "builtins.tuple": tuple, "builtins.list": list, "builtins.dict": dict, "builtins.bytearray": bytearray,
             "builtins.memoryview": memoryview, "builtins.set": set, "builtins.frozenset": frozenset, "builtins.object": object,
             "builtins.type": type, "builtins.range": range}


def isinst1(I, st, v, t):
    """True / False / None"""
    tn = t.name if isinstance(t, ExtV) else None
    if tn == "builtins.object":
        return True
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, Inst):
            return t in o.cls.mro() or (True if tn in ("os.PathLike",) and I.class_attr(st, o.cls, "__fspath__") else False)
        if isinstance(o, StreamO):
            if tn in EXT_TYPES or tn in ("os.PathLike", "pathlib.Path", "pathlib.PurePath"):
                return False
            if tn in ("io.BytesIO",):
                return o.kind == "bytesio" if o.kind != "user" else None
            if tn in ("io.TextIOBase", "io.StringIO", "io.TextIOWrapper"):
                return False
            if tn in ("io.IOBase",) and o.kind != "user":
                return True
            return None
        ty = bytearray if isinstance(o, BA) else dict if isinstance(o, DictO) else None
        if isinstance(o, ListO):
            ty = {"list": list, "set": set, "frozenset": frozenset}.get(o.kind)
        if isinstance(o, OpaqueO) and o.name == "mv":
            ty = memoryview
        if ty is not None:
            if tn in EXT_TYPES:
                return issubclass(ty, EXT_TYPES[tn])
            if tn in ("os.PathLike",):
                return False
            return None if not isinstance(t, ClassV) else False
        return None
    py = None
    if isinstance(v, (bytes, Bs)) or (isinstance(v, Sym) and v.ty == "bytes"):
        py = bytes
    elif is_str(v):
        py = str
    elif isinstance(v, bool) or (isinstance(v, Sym) and v.ty == "bool"):
        py = bool
    elif isinstance(v, EnumVal):
        if isinstance(t, ClassV):
            return t in v.cls.mro()
        if tn and tn.startswith("enum."):
            return t in v.cls.mro() or {"enum.Enum": True, "enum.IntEnum": v.cls.enum == "int", "enum.IntFlag": v.cls.enum == "flag",
                                        "enum.Flag": v.cls.enum in ("flag", "pflag")}.get(tn, False)
        if tn == "builtins.int":
            return v.cls.enum in ("int", "flag")
        return False
    elif isinstance(v, Aff) and v.atom is not None and v.atom.ty == "any":
        return isinst1(I, st, v.atom, t)
    elif isinstance(v, (int, Aff)) or (isinstance(v, Sym) and v.ty == "int"):
        py = int
    elif is_float(v):
        py = float
    elif isinstance(v, VTuple):
        if isinstance(t, ClassV):
            return v.cls is t
        py = tuple
    elif v is None:
        return tn in ("types.NoneType", "vsa.NoneType")
    elif isinstance(v, (ClassV,)):
        return tn == "builtins.type"
    elif isinstance(v, StructV):
        return tn == "struct.Struct"
    elif isinstance(v, ExcV):
        from .interp import exc_matches
        return exc_matches(v, t)
    elif isinstance(v, Sym) and v.ty == "datetime":
        return tn in ("datetime.datetime", "datetime.date")
    if py is not None:
        if tn in EXT_TYPES:
            return issubclass(py, EXT_TYPES[tn])
        if isinstance(t, ClassV):
            return False
        return False if tn in ("os.PathLike",) else (None if tn and tn.startswith(("collections.abc", "numbers", "typing")) else False)
    return None


def isinstance_(I, st, v, t, node, ctx):
    names = type_names(t)
    und = []
    for x in names:
        if x is None:
            x = ExtV("vsa.NoneType")
        r = isinst1(I, st, v, x)
        if r is True:
            return [(st, True)]
        if r is None:
            und.append(x.name if isinstance(x, ExtV) else x.qual if isinstance(x, ClassV) else show(x))
    if not und:
        return [(st, False)]
    if isinstance(v, Aff) and v.atom is not None:
        v = v.atom
    return [(st, Sym("isinst", (v if not isinstance(v, Ref) else ("obj", v.id), tuple(sorted(und))), "bool"))]


def to_int(I, st, v, node, ctx):
    while isinstance(v, EnumVal):
        v = v.v
    if isinstance(v, (bool, int, Aff)):
        return [(st, int(v) if isinstance(v, bool) else v)]
    if isinstance(v, float):
        try:
            return [(st, int(v))]
        except (ValueError, OverflowError):
            return I.raise_(st, "builtins.ValueError", node, ctx)
    if isinstance(v, Sym):
        if v.ty == "bool":
            return [(s, 1 if t else 0) for s, t in I.fork_bool(st, v)]
        if v.ty == "int":
            return [(st, atom(v))]
        if v.ty == "float":
            return [(st, atom(Sym("toint", (v,), "int")))]
        if v.tag == "dtm" and v.args[0] == "strftime" and len(v.args) == 3 and v.args[2] in STRF:
            p = STRF[v.args[2]]
            a = atom(Sym("dtattr", (same_parts(v.args[1]), p), "int"))
            return [(st, mod_(st, add(a, 1), 7) if p == "weekday" and v.args[2] == "%w" else add(a, 1) if p == "weekday" else a)]
        return [(st, atom(Sym("intof", (v,), "int")))]
    if isinstance(v, (str, bytes)):
        try:
            return [(st, int(v))]
        except ValueError:
            return I.raise_(st, "builtins.ValueError", node, ctx)
    return [(st, I.unk(st, f"int({show(v)})", node, ctx, "int"))]


def length(I, st, v, node, ctx):
    if isinstance(v, (str, bytes)):
        return [(st, len(v))]
    if is_byteslike(st, v):
        return [(st, st.norm(bslen(tobs(st, v))))]
    if isinstance(v, VTuple):
        return [(st, len(v.items))]
    if isinstance(v, ClassV) and v.enum:
        return [(st, len(set(v.members.values())))]
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, (ListO, DictO)):
            return [(st, len(o.items))]
        if isinstance(o, Inst) and I.class_attr(st, o.cls, "__len__") is not None:
            return I.call_attr(st, v, "__len__", [], {}, node, ctx)
        if isinstance(o, OpaqueO) and o.name == "grown":
            return [(st, atom(I.unk(st, "a collection that changes in a loop", node, ctx, "int")))]
        return I.raise_(st, "builtins.TypeError", node, ctx, "len()")
    if isinstance(v, Sym):
        if v.ty == "str":
            n = text_len(st, v, True)
            if n is not None:
                return [(st, n)]
        return [(st, st.norm(atom(Sym("len", (v,), "int"))))]
    return I.raise_(st, "builtins.TypeError", node, ctx, "len()")


def fold_minmax(I, st, tag, vals, node, ctx):
    if not vals:
        return I.raise_(st, "builtins.ValueError", node, ctx)
    if all(isinstance(v, (int, float)) for v in vals):
        return [(st, min(vals) if tag == "min" else max(vals))]
    if any(is_float(v) for v in vals):
        return [(st, Sym(tag, tuple(_h(v) for v in vals), "float"))]
    ns = [num(v) for v in vals]
    if any(n is None for n in ns):
        return [(st, Sym("minmax", (tag,) + tuple(_h(v) for v in vals), "any"))]
    res = [(st, ns[0])]
    for n in ns[1:]:
        nxt = []
        for s, a in res:
            for s2, le in I.fork_le(s, a, n):
                nxt.append((s2, a if le == (tag == "min") else n))
        res = nxt
    return res


def seq_items(I, st, v):
    """items of an iterable, forcing lazily represented ones; None if unknown"""
    items = I.concrete_items(st, v)
    return items


def ext_call(I, st, f, args, kwargs, node, ctx):
    n = f.name
    mod, _, fn = n.rpartition(".")
    h = _EXT.get(n)
    if h is not None:
        return h(I, st, args, kwargs, node, ctx)
    if mod == "builtins":
        exc = getattr(_bi, fn, None)
        if isinstance(exc, type) and issubclass(exc, BaseException):
            return [(st, ExcV(f, tuple(args), node=node))]
        b = _BUILTIN.get(fn)
        if b is not None:
            return b(I, st, args, kwargs, node, ctx)
    if mod == "struct" and fn in ("pack", "unpack", "pack_into", "unpack_from", "iter_unpack", "calcsize"):
        if isinstance(args[0], (str, bytes)):
            try:
                sv = StructV(args[0])
            except Exception:
                return I.raise_(st, "struct.error", node, ctx)
            if fn == "calcsize":
                return [(st, sv.size)]
            return struct_method(I, st, sv, fn, args[1:], kwargs, node, ctx)
        d = dyn_format(st, args[0])
        if d is not None:
            return dyn_struct(I, st, d, fn, args[1:], kwargs, node, ctx)
        return [(st, I.unk(st, f"struct.{fn} with a format that is not a constant", node, ctx))]
    if n == "struct.Struct":
        if isinstance(args[0], (str, bytes)):
            try:
                return [(st, StructV(args[0]))]
            except Exception:
                return I.raise_(st, "struct.error", node, ctx)
        return [(st, I.unk(st, "struct.Struct with a format that is not a constant", node, ctx))]
    if n == "struct.error" or n in ("zlib.error", "dataclasses.FrozenInstanceError", "io.UnsupportedOperation"):
        return [(st, ExcV(f, tuple(args), node=node))]
    if mod == "zlib":
        return zlib_call(I, st, fn, args, kwargs, node, ctx)
    if mod == "time":
        if fn in ("sleep",):
            st.events.append(("ext", n, (), I.loc(node, ctx)))
            return [(st, None)]
        ty = "int" if fn.endswith("_ns") else "float"
        s = fresh(n, ty)
        st.events.append(("time", n, s, I.loc(node, ctx)))
        return [(st, mkv(s))]
    if mod.startswith("datetime"):
        return dt_call(I, st, n, fn, args, kwargs, node, ctx)
    if mod.startswith("logging") or mod.startswith("warnings"):
        return [(st, Sym("ext", (n,), "any") if fn == "getLogger" else None)]
    if mod in ("typing", "typing_extensions"):
        if fn == "cast":
            return [(st, args[1])]
        if fn == "assert_never":
            return I.raise_(st, "builtins.AssertionError", node, ctx)
        return [(st, args[0] if args and fn in ("final", "override", "no_type_check", "reveal_type") else ExtV(n + "()"))]
    if mod == "os":
        if fn == "fspath":
            if isinstance(args[0], Ref) and isinstance(st.get(args[0]), Inst):
                return I.call_attr(st, args[0], "__fspath__", [], {}, node, ctx)
            return [(st, args[0] if not isinstance(args[0], Sym) or args[0].ty == "str" else Sym("fspath", (args[0],), "str"))]
        st.events.append(("ext", n, tuple(args), I.loc(node, ctx)))
        res = I.fault(st, n, node, ctx)
        return res + [(st, Sym("extret", (n, fresh("r")), "any"))]
    if mod == "os.path":
        return [(st, Sym("extret", (n,) + tuple(_h(a) for a in args), "any"))]
    if mod == "operator":
        return operator_call(I, st, fn, args, kwargs, node, ctx)
    if mod.startswith("importlib"):
        res = I.fault(st, n, node, ctx) if False else []
        return res + [(st, Sym("extret", (n,) + tuple(_h(a) for a in args), "str" if fn == "version" else "any"))]
    if n.startswith("vsa.") or mod in ("abc",):
        return [(st, None)]
    if n == "calendar.weekday" and len(args) == 3:
        d = [num(x) for x in args]
        if all(isinstance(x, Aff) and x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1 and x.t[0][0].tag == "dtattr" for x in d):
            d = [x.t[0][0] for x in d]
            if len({x.args[0] for x in d}) == 1 and [x.args[1] for x in d] == ["year", "month", "day"]:
                return [(st, atom(Sym("dtattr", (d[0].args[0], "weekday"), "int")))]
    res = I.fault(st, n, node, ctx)
    for s, _ in res:
        I.unk(s, f"call of {n}", node, ctx)
    escape_args(I, st, list(args) + list(kwargs.values()), node, ctx, n)
    st.events.append(("ext", n, tuple(args), I.loc(node, ctx)))
    return res + [(st, I.unk(st, f"call of {n}", node, ctx))]


def operator_call(I, st, fn, args, kwargs, node, ctx):
    ops = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "mod": ast.Mod, "floordiv": ast.FloorDiv, "and_": ast.BitAnd,
           "or_": ast.BitOr, "xor": ast.BitXor, "truediv": ast.Div, "lshift": ast.LShift, "rshift": ast.RShift}
    cmps = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">=", "is_": "is", "is_not": "is not"}
    if fn in ops and len(args) == 2:
        return binop(I, st, ops[fn](), args[0], args[1], node, ctx)
    if fn in cmps and len(args) == 2:
        return compare(I, st, cmps[fn], args[0], args[1], node, ctx)
    if fn == "index":
        return to_int(I, st, args[0], node, ctx)
    if fn == "getitem":
        return get_item(I, st, args[0], args[1], node, ctx)
    if fn in ("attrgetter", "itemgetter") and all(isinstance(a, (str, int)) for a in args):
        return [(st, PartialV(ExtV("vsa." + fn), tuple(args), {}))]
    return [(st, I.unk(st, f"operator.{fn}", node, ctx))]


def _getter(kind):
    def h(I, st, args, kwargs, node, ctx):
        keys, obj = args[:-1], args[-1]
        res = [(st, [])]
        for k in keys:
            def step(s, acc, k=k):
                if kind == "item":
                    return [(s2, v if isinstance(v, Raised) else acc + [v]) for s2, v in get_item(I, s, obj, k, node, ctx)]
                r = [(s, obj)]
                for part in k.split("."):
                    r = I.bind(r, lambda s2, o, part=part: I.getattr(s2, o, part, node, ctx))
                return [(s2, v if isinstance(v, Raised) else acc + [v]) for s2, v in r]
            res = I.bind(res, step)
        return I.bind(res, lambda s, acc: [(s, acc[0] if len(acc) == 1 else VTuple(acc))])
    return h


def dt_call(I, st, n, fn, args, kwargs, node, ctx):
    if fn in ("now", "utcnow", "today"):
        s = fresh("now", "datetime")
        v = Sym("dtnow", (fn, s) + tuple(_h(a) for a in list(args) + [kwargs.get("tz")] if a is not None), "datetime")
        st.events.append(("time", n, v, I.loc(node, ctx)))
        return [(st, v)]
    if fn in ("fromtimestamp", "utcfromtimestamp"):
        tz = arg(args, kwargs, 1, "tz")
        if fn == "utcfromtimestamp":
            tz = ExtV("datetime.timezone.utc")
        res = I.fault(st, n, node, ctx)
        return res + [(st, Sym("dtfrom", (_h(arg(args, kwargs, 0, "timestamp")), _h(tz)), "datetime"))]
    if n == "datetime.datetime":
        names = ["year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo"]
        vals = dict(zip(names, args))
        vals.update(kwargs)
        st.events.append(("datetime", tuple((k, _h(vals.get(k, 0 if k != "tzinfo" else None))) for k in names), I.loc(node, ctx)))
        return I.fault(st, n, node, ctx) + [(st, Sym("dtnew", tuple(_h(vals.get(k, 0 if k != "tzinfo" else None)) for k in names), "datetime"))]
    if n in ("datetime.date", "datetime.time"):
        names = ["year", "month", "day"] if fn == "date" else ["hour", "minute", "second", "microsecond", "tzinfo"]
        vals = dict(zip(names, args))
        vals.update(kwargs)
        st.events.append(("datetime", tuple((k, _h(vals.get(k, 0 if k != "tzinfo" else None))) for k in names), I.loc(node, ctx)))
        return I.fault(st, n, node, ctx) + [(st, Sym("dt" + fn + "new", tuple(_h(vals.get(k, 0 if k != "tzinfo" else None)) for k in names), "datetime"))]
    if fn == "combine" and len(args) == 2 and not kwargs and all(isinstance(a, Sym) for a in args) \
            and (args[0].tag, args[1].tag) == ("dtdatenew", "dttimenew"):
        return [(st, Sym("dtnew", args[0].args + args[1].args, "datetime"))]
    if n == "datetime.timedelta":
        return [(st, Sym("timedelta", tuple(_h(a) for a in args) + tuple(sorted((k, _h(x)) for k, x in kwargs.items())), "any"))]
    if n == "datetime.timezone":
        return [(st, Sym("tz", tuple(_h(a) for a in args), "any"))]
    return [(st, Sym("dtext", (n,) + tuple(_h(a) for a in args), "datetime"))]


# ---- builtin functions
_BUILTIN = {}
_EXT = {}


def bf(name):
    def d(f):
        _BUILTIN[name] = f
        return f
    return d


def ef(*names):
    def d(f):
        for n in names:
            _EXT[n] = f
        return f
    return d


bf("len")(lambda I, st, a, k, n, c: length(I, st, a[0], n, c))
bf("isinstance")(lambda I, st, a, k, n, c: isinstance_(I, st, a[0], a[1], n, c))
bf("min")(lambda I, st, a, k, n, c: _minmax(I, st, "min", a, k, n, c))
bf("max")(lambda I, st, a, k, n, c: _minmax(I, st, "max", a, k, n, c))
bf("super")(lambda I, st, a, k, n, c: [(st, SuperV(a[0], a[1]))])
bf("print")(lambda I, st, a, k, n, c: [(st, None)])
bf("id")(lambda I, st, a, k, n, c: [(st, atom(Sym("id", (_h(a[0]),), "int")))])
bf("hash")(lambda I, st, a, k, n, c: [(st, atom(Sym("hash", (_h(a[0]),), "int")))])
bf("repr")(lambda I, st, a, k, n, c: [(st, Sym("repr", (_h(a[0]),), "str"))])
bf("ascii")(lambda I, st, a, k, n, c: [(st, Sym("repr", (_h(a[0]),), "str"))])
bf("format")(lambda I, st, a, k, n, c: [(st, Sym("fmt", tuple(_h(x) for x in a), "str"))])
bf("hex")(lambda I, st, a, k, n, c: [(st, Sym("fmt", ("x", _h(a[0])), "str"))])
bf("callable")(lambda I, st, a, k, n, c: [(st, isinstance(a[0], (FuncV, BoundV, ClassV, ExtV, BM, PartialV)) or
                                           (Sym("callable", (a[0],), "bool") if isinstance(a[0], Sym) else False))])
bf("object")(lambda I, st, a, k, n, c: [(st, st.alloc(OpaqueO("object")))])
bf("classmethod")(lambda I, st, a, k, n, c: [(st, ClassM(a[0]))])
bf("staticmethod")(lambda I, st, a, k, n, c: [(st, StaticM(a[0]))])
bf("property")(lambda I, st, a, k, n, c: [(st, PropV(a[0] if a else None, a[1] if len(a) > 1 else None))])
bf("slice")(lambda I, st, a, k, n, c: [(st, Slice(*( [None, a[0], None] if len(a) == 1 else (list(a) + [None])[:3])))])
bf("ord")(lambda I, st, a, k, n, c: get_item(I, st, a[0], 0, n, c) if is_byteslike(st, a[0]) else
          [(st, ord(a[0]) if isinstance(a[0], str) else atom(Sym("ord", (_h(a[0]),), "int")))])
bf("chr")(lambda I, st, a, k, n, c: [(st, chr(a[0]) if isinstance(a[0], int) else Sym("chr", (_h(a[0]),), "str"))])


def _minmax(I, st, tag, a, k, node, ctx):
    if len(a) == 1:
        items = I.concrete_items(st, a[0])
        if items is None or "key" in k:
            return [(st, Sym("minmax", (tag, _h(a[0])), "any"))]
        if not items and "default" in k:
            return [(st, k["default"])]
        a = items
    if "key" in k:
        return [(st, I.unk(st, f"{tag} with key", node, ctx))]
    return fold_minmax(I, st, tag, a, node, ctx)


@bf("int")
def _int(I, st, a, k, node, ctx):
    if not a:
        return [(st, 0)]
    if len(a) > 1 and isinstance(a[0], str) and isinstance(a[1], int):
        return [(st, int(a[0], a[1]))]
    return to_int(I, st, a[0], node, ctx)


@bf("float")
def _float(I, st, a, k, node, ctx):
    v = a[0] if a else 0.0
    if isinstance(v, (int, float)):
        return [(st, float(v))]
    if is_float(v):
        return [(st, v)]
    return [(st, Sym("tofloat", (_h(v),), "float"))]


@bf("bool")
def _bool(I, st, a, k, node, ctx):
    if not a:
        return [(st, False)]
    return I.truth(st, a[0], node, ctx)


@bf("str")
def _str(I, st, a, k, node, ctx):
    if not a:
        return [(st, "")]
    if len(a) > 1 or k:
        b = tobs(st, a[0])
        if b is not None:
            return bytes_method(I, st, b, "decode", a[1:], k, node, ctx)
    if isinstance(a[0], (str, int, float)):
        return [(st, str(a[0]))]
    if is_str(a[0]):
        return [(st, a[0])]
    return [(st, Sym("tostr", (_h(a[0]),), "str"))]


def _bytes_ctor(I, st, a, k, node, ctx, mk):
    if not a:
        return [(st, mk(st, b""))]
    v = a[0]
    if is_str(v):
        rs = str_method(I, st, v, "encode", a[1:], k, node, ctx)
        return [(s, r if isinstance(r, Raised) else mk(s, r)) for s, r in rs]
    if is_byteslike(st, v):
        return [(st, mk(st, st.norm_bs(tobs(st, v))))]
    if is_intlike(v):
        n = num(v)
        if isinstance(n, int):
            if n < 0:
                return I.raise_(st, "builtins.ValueError", node, ctx, "negative count")
            return [(st, mk(st, mkbs([("z", n)]) if n > 65536 else bytes(n)))]
        out = []
        for s, ok in I.fork_le(st, 0, n):
            if ok:
                out.append((s, mk(s, mkbs([("z", s.norm(n))]))))
            else:
                out.extend(I.raise_(s, "builtins.ValueError", node, ctx, "negative count"))
        return out
    items = I.concrete_items(st, v)
    if items is not None:
        segs = []
        for x in items:
            x = num(x)
            if x is None:
                return I.raise_(st, "builtins.TypeError", node, ctx)
            segs.extend(pack_segs("u1", x))
        return [(st, mk(st, mkbs(segs)))]
    if isinstance(v, Ref) and isinstance(st.get(v), Inst) and I.class_attr(st, st.get(v).cls, "__bytes__") is not None:
        rs = I.call_attr(st, v, "__bytes__", [], {}, node, ctx)
        return [(s, r if isinstance(r, Raised) else mk(s, r)) for s, r in rs]
    if isinstance(v, Sym) and v.ty in ("any", "bytes"):
        return [(st, mk(st, opaque_bytes(v)))]
    return [(st, I.unk(st, "bytes()", node, ctx, "bytes"))]


bf("bytes")(lambda I, st, a, k, n, c: _bytes_ctor(I, st, a, k, n, c, lambda s, b: b))
bf("bytearray")(lambda I, st, a, k, n, c: _bytes_ctor(I, st, a, k, n, c, lambda s, b: s.alloc(BA(b))))


@bf("memoryview")
def _mv(I, st, a, k, node, ctx):
    v = a[0]
    if isinstance(v, Ref) and isinstance(st.get(v), BA):
        return [(st, st.alloc(OpaqueO("mv", (v, 0, st.norm(bslen(tobs(st, v)))))))]
    b = tobs(st, v)
    if b is None:
        return I.raise_(st, "builtins.TypeError", node, ctx)
    return [(st, b if not (isinstance(v, Ref)) else v)]


def _seq(kind):
    def f(I, st, a, k, node, ctx):
        if not a:
            return [(st, VTuple([]) if kind == "tuple" else st.alloc(ListO([], kind)))]
        items = I.concrete_items(st, a[0])
        if items is None:
            o = st.get(a[0]) if isinstance(a[0], Ref) else None
            if isinstance(o, GenO) and not I.is_recursive(o):
                acc = st.alloc(ListO([], "list"))

                def handler(s, v, n2, c2):
                    l = s.get(acc)
                    s.put(acc, ListO(l.items + (v,), "list"))
                    return [(s, None)]
                out = []
                for s, r in I.run_gen(st, o, handler, node, ctx):
                    if isinstance(r, Raised):
                        out.append((s, r))
                    else:
                        its = s.get(acc).items
                        out.append((s, VTuple(its) if kind == "tuple" else s.alloc(ListO(its, kind))))
                return out
            if isinstance(a[0], Sym) or isinstance(a[0], Bs):
                return [(st, Sym("seqof", (kind, _h(a[0])), "any"))]
            return [(st, I.unk(st, f"{kind}()", node, ctx))]
        if kind in ("set", "frozenset"):
            from .interp import _dedup
            items = _dedup(items)
        return [(st, VTuple(items) if kind == "tuple" else st.alloc(ListO(items, kind)))]
    return f


for _k in ("tuple", "list", "set", "frozenset"):
    bf(_k)(_seq(_k))


@bf("dict")
def _dict(I, st, a, k, node, ctx):
    items = []
    if a:
        o = st.get(a[0]) if isinstance(a[0], Ref) else None
        if isinstance(o, DictO):
            items = list(o.items)
        else:
            seq = I.concrete_items(st, a[0])
            if seq is None or not all(I.concrete_items(st, x) is not None for x in seq):
                return [(st, I.unk(st, "dict()", node, ctx))]
            for x in seq:
                kk, vv = I.concrete_items(st, x)
                items = _dset(items, kk, vv)
    for kk, vv in k.items():
        items = _dset(items, kk, vv)
    return [(st, st.alloc(DictO(items)))]


@bf("range")
def _range(I, st, a, k, node, ctx):
    ns = [num(x) for x in a]
    if all(isinstance(x, int) for x in ns) and len(range(*ns)) <= 512:
        return [(st, VTuple(range(*ns)))]
    if len(ns) <= 2 and all(x is not None for x in ns):
        lo, hi = (0, ns[0]) if len(ns) == 1 else ns
        return [(st, st.alloc(OpaqueO("range", (lo, hi))))]
    return [(st, Sym("range", tuple(_h(x) for x in a), "any"))]


def _map_items(name):
    def f(I, st, a, k, node, ctx):
        if name == "enumerate":
            items = I.concrete_items(st, a[0])
            start = a[1] if len(a) > 1 else k.get("start", 0)
            if items is not None and isinstance(start, int):
                return [(st, VTuple([VTuple([i + start, x]) for i, x in enumerate(items)]))]
        elif name == "zip":
            seqs = [I.concrete_items(st, x) for x in a]
            if all(s is not None for s in seqs):
                if k.get("strict") and len({len(s) for s in seqs}) > 1:
                    return I.raise_(st, "builtins.ValueError", node, ctx)
                return [(st, VTuple([VTuple(x) for x in zip(*seqs)]))]
        elif name == "reversed":
            items = I.concrete_items(st, a[0])
            if items is not None:
                return [(st, VTuple(items[::-1]))]
        elif name == "sorted":
            items = I.concrete_items(st, a[0])
            if items is not None and not k and (all(isinstance(x, (int, float)) for x in items) or all(isinstance(x, str) for x in items)):
                return [(st, st.alloc(ListO(sorted(items))))]
            rev = k.get("reverse", False)
            if set(k) <= {"reverse"} and isinstance(rev, bool):
                if items is not None and all(is_intlike(x) for x in items):
                    r = Sym("sorted", (VTuple(items), rev), "any")
                    return [(st, st.alloc(ListO([atom(Sym("item", (r, i), "int")) for i in range(len(items))])))]
                if items is None and (isinstance(a[0], Bs) or isinstance(a[0], Sym) and a[0].tag not in ("unk", "next")):
                    return [(st, Sym("sorted", (_h(a[0]), rev), "any"))]
        elif name in ("map", "filter"):
            seqs = [I.concrete_items(st, x) for x in a[1:]]
            if all(s is not None for s in seqs):
                res = [(st, [])]
                for tup in zip(*seqs):
                    def step(s, acc, tup=tup):
                        out = []
                        rs = I.call(s, a[0], list(tup), {}, node, ctx) if a[0] is not None else [(s, tup[0])]
                        for s2, v in rs:
                            if isinstance(v, Raised):
                                out.append((s2, v))
                            elif name == "map":
                                out.append((s2, acc + [v]))
                            else:
                                for s3, t in I.truth(s2, v, node, ctx):
                                    out.append((s3, acc + [tup[0]] if t else acc))
                        return out
                    res = I.bind(res, step)
                return I.bind(res, lambda s, acc: [(s, s.alloc(IterO(tuple(acc))))])
        if any(isinstance(x, Sym) for x in a):
            return [(st, Sym("mapped", (name,) + tuple(_h(x) for x in a), "any"))]
        return [(st, I.unk(st, f"{name}()", node, ctx))]
    return f


for _k in ("enumerate", "zip", "reversed", "sorted", "map", "filter"):
    bf(_k)(_map_items(_k))


@bf("sum")
def _sum(I, st, a, k, node, ctx):
    items = I.concrete_items(st, a[0])
    start = a[1] if len(a) > 1 else k.get("start", 0)
    if items is None:
        return [(st, Sym("sum", (_h(a[0]), _h(start)), "any"))]
    res = [(st, start)]
    for x in items:
        res = I.bind(res, lambda s, acc, x=x: binop(I, s, ast.Add(), acc, x, node, ctx))
    return res


def _anyall(name):
    def f(I, st, a, k, node, ctx):
        items = I.concrete_items(st, a[0])
        if items is None:
            return [(st, Sym(name, (_h(a[0]),), "bool"))]
        live, out = [st], []
        for x in items:
            nxt = []
            for s in live:
                for s2, t in I.truth(s, x, node, ctx):
                    if t == (name == "any"):
                        out.append((s2, t))
                    else:
                        nxt.append(s2)
            live = nxt
        return out + [(s, name == "all") for s in live]
    return f


bf("any")(_anyall("any"))
bf("all")(_anyall("all"))


@bf("abs")
def _abs(I, st, a, k, node, ctx):
    v = a[0].v if isinstance(a[0], EnumVal) else a[0]
    if isinstance(v, (int, float)):
        return [(st, abs(v))]
    if is_float(v):
        return [(st, Sym("fabs", (v,), "float"))]
    n = num(v)
    return [(s, n if t else mul(n, -1)) for s, t in I.fork_le(st, 0, n)]


@bf("round")
def _round(I, st, a, k, node, ctx):
    v = a[0].v if isinstance(a[0], EnumVal) else a[0]
    if len(a) > 1 and a[1] is not None:
        if isinstance(v, (int, float)) and isinstance(a[1], int):
            return [(st, round(v, a[1]))]
        return [(st, Sym("roundn", (_h(v), _h(a[1])), "float"))]
    if isinstance(v, (int, float)):
        return [(st, round(v))]
    if isinstance(v, Aff):
        return [(st, v)]
    return [(st, atom(Sym("round", (_h(v),), "int")))]


@bf("divmod")
def _divmod(I, st, a, k, node, ctx):
    def q(s, v):
        return I.bind(binop(I, s, ast.Mod(), a[0], a[1], node, ctx), lambda s2, r: [(s2, VTuple([v, r]))])
    return I.bind(binop(I, st, ast.FloorDiv(), a[0], a[1], node, ctx), q)


bf("pow")(lambda I, st, a, k, n, c: binop(I, st, ast.Pow(), a[0], a[1], n, c))


@bf("hasattr")
def _hasattr(I, st, a, k, node, ctx):
    r = has_method(I, st, a[0], a[1])
    if r is None:
        return [(st, Sym("hasattr", (a[0] if not isinstance(a[0], Ref) else ("obj", a[0].id), a[1]), "bool"))]
    return [(st, r)]


@bf("getattr")
def _getattr(I, st, a, k, node, ctx):
    if not isinstance(a[1], str):
        return [(st, I.unk(st, "getattr with a computed name", node, ctx))]
    if len(a) < 3:
        return I.getattr(st, a[0], a[1], node, ctx)
    if isinstance(a[0], Sym):
        s2 = st.clone()
        h = Sym("hasattr", (a[0], a[1]), "bool")
        out = []
        for s, t in I.fork_bool(st, h):
            out.extend(I.getattr(s, a[0], a[1], node, ctx) if t else [(s, a[2])])
        return out
    out = []
    for s, v in I.getattr(st, a[0], a[1], node, ctx):
        if isinstance(v, Raised) and isinstance(v.exc, ExcV) and v.exc.cls is ExtV("builtins.AttributeError"):
            out.append((s, a[2]))
        else:
            out.append((s, v))
    return out


@bf("setattr")
def _setattr(I, st, a, k, node, ctx):
    if not isinstance(a[1], str):
        I.unk(st, "setattr with a computed name", node, ctx)
        return [(st, None)]
    return I.setattr(st, a[0], a[1], a[2], node, ctx)


ef("vsa.enum_missing")(_enum_missing)
ef("vsa.setattr", "builtins.object.__setattr__")(lambda I, st, a, k, n, c: setattr_(I, st, a[0], a[1], a[2], n, c, raw=True))
ef("vsa.identity")(lambda I, st, a, k, n, c: [(st, a[0])])
ef("vsa.close")(lambda I, st, a, k, n, c: I.call_attr(st, a[0], "close", [], {}, n, c))
ef("vsa.attrgetter")(_getter("attr"))
ef("vsa.itemgetter")(_getter("item"))


@bf("type")
def _type(I, st, a, k, node, ctx):
    v = a[0]
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, Inst):
            return [(st, o.cls)]
        return [(st, Sym("typeof", (("obj", v.id),), "any"))]
    if isinstance(v, EnumVal):
        return [(st, v.cls)]
    if isinstance(v, (bytes, Bs)):
        return [(st, ExtV("builtins.bytes"))]
    if is_str(v):
        return [(st, ExtV("builtins.str"))]
    if isinstance(v, bool):
        return [(st, ExtV("builtins.bool"))]
    if isinstance(v, (int,)) or (isinstance(v, Aff) and not (v.atom is not None and v.atom.ty == "any")):
        return [(st, ExtV("builtins.int"))]
    if isinstance(v, ExcV):
        return [(st, v.cls)]
    if v is None:
        return [(st, ExtV("types.NoneType"))]
    return [(st, Sym("typeof", (_h(v),), "any"))]


@bf("issubclass")
def _issub(I, st, a, k, node, ctx):
    names = type_names(a[1])
    if isinstance(a[0], ClassV):
        return [(st, any(t in a[0].mro() for t in names))]
    return [(st, Sym("issub", (_h(a[0]), _h(a[1])), "bool"))]


@bf("vars")
def _vars(I, st, a, k, node, ctx):
    return I.getattr(st, a[0], "__dict__", node, ctx)


@bf("iter")
def _iter(I, st, a, k, node, ctx):
    v = a[0]
    if len(a) == 2:
        f = driver(st, "def calls():\n    while True:\n        value = call()\n        if value == sentinel:\n            return\n        yield value\n",
                   {"call": a[0], "sentinel": a[1]})
        return [(st, st.alloc(GenO(f, [], {})))]
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, (GenO, IterO)):
            return [(st, v)]
        if isinstance(o, Inst):
            return I.call_attr(st, v, "__iter__", [], {}, node, ctx)
    items = I.concrete_items(st, v)
    if items is not None:
        return [(st, st.alloc(IterO(tuple(items))))]
    return [(st, Sym("iter", (_h(v),), "any"))]


@bf("next")
def _next(I, st, a, k, node, ctx):
    return next_(I, st, a[0], a[1] if len(a) > 1 else NODEFAULT, node, ctx)


@bf("open")
def _open(I, st, a, k, node, ctx):
    path = arg(a, k, 0, "file")
    mode = arg(a, k, 1, "mode", "r")
    res = I.fault(st, "open()", node, ctx)
    src = fresh("file", "bytes")
    ref = st.alloc(StreamO(0, src if isinstance(mode, str) and "w" not in mode else b"", "file", False, True,
                           mode if isinstance(mode, str) else "?", 0 if isinstance(mode, str) and "w" in mode else None))
    st.events.append(("open", ref, _h(path), mode, I.loc(node, ctx)))
    return res + [(st, ref)]


ef("io.open", "io.FileIO", "os.fdopen")(_open)


@ef("io.BytesIO")
def _bytesio(I, st, a, k, node, ctx):
    b = tobs(st, a[0]) if a else b""
    if b is None:
        return I.raise_(st, "builtins.TypeError", node, ctx)
    ref = st.alloc(StreamO(0, st.norm_bs(b), "bytesio", False, True, "rb", st.norm(bslen(b))))
    st.events.append(("bytesio", ref, st.norm_bs(b), I.loc(node, ctx)))
    return [(st, ref)]


@ef("io.BufferedReader", "io.BufferedWriter", "io.BufferedRandom")
def _buffered(I, st, a, k, node, ctx):
    return [(st, a[0])]


@ef("builtins.int.from_bytes")
def _from_bytes(I, st, a, k, node, ctx):
    b = tobs(st, arg(a, k, 0, "bytes"))
    order = arg(a, k, 1, "byteorder", "big")
    signed = k.get("signed", False)
    if b is None:
        return I.raise_(st, "builtins.TypeError", node, ctx)
    n = st.norm(bslen(b))
    if isinstance(b, bytes) and order in ("little", "big"):
        return [(st, int.from_bytes(b, order, signed=bool(signed)))]
    if n in (1, 2, 4, 8) and order in ("little", "big"):
        kind = ("be:" if order == "big" and n != 1 else "") + ("i" if signed else "u") + str(n)
        return [(st, read_item(st, b, 0, kind, n))]
    if isinstance(order, Sym) and n in (1, 2, 4, 8):
        st.events.append(("hostorder", I.loc(node, ctx)))
    return [(st, atom(Sym("from_bytes", (b, _h(order), _h(signed)), "int")))]


ef("builtins.bytes.fromhex")(lambda I, st, a, k, n, c: [(st, bytes.fromhex(a[0]) if isinstance(a[0], str) else
                                                         opaque_bytes(Sym("fromhex", (_h(a[0]),), "bytes")))])


@ef("builtins.dict.fromkeys")
def _fromkeys(I, st, a, k, node, ctx):
    items = I.concrete_items(st, a[0])
    if items is None:
        return [(st, I.unk(st, "dict.fromkeys", node, ctx))]
    d = a[1] if len(a) > 1 else None
    out = []
    for x in items:
        out = _dset(out, x, d)
    return [(st, st.alloc(DictO(out)))]


# method objects fetched from the builtin classes, e.g. bytes.join
def _unbound(tn):
    def f(name):
        def h(I, st, a, k, node, ctx):
            return method(I, st, a[0], name, a[1:], k, node, ctx)
        return h
    return f


for _t, _names in (("bytes", ("join", "decode", "startswith", "ljust")), ("bytearray", ("extend", "append", "decode")),
                   ("str", ("encode", "join")), ("int", ("to_bytes",)), ("list", ("append", "extend"))):
    for _n in _names:
        ef(f"builtins.{_t}.{_n}")(_unbound(_t)(_n))


# ---- dataclasses, functools, itertools, contextlib, enum
@ef("dataclasses.dataclass")
def _dataclass(I, st, a, k, node, ctx):
    if a and isinstance(a[0], ClassV):
        a[0].dc = dict(k)
        return [(st, a[0])]
    return [(st, PartialV(ExtV("dataclasses.dataclass"), (), dict(k)))]


ef("dataclasses.field")(lambda I, st, a, k, n, c: [(st, FieldCall(dict(k)))])


@ef("dataclasses.fields")
def _fields(I, st, a, k, node, ctx):
    v = a[0]
    c = v if isinstance(v, ClassV) else st.get(v).cls if isinstance(v, Ref) and isinstance(st.get(v), Inst) else None
    fl = I.dc_fields(st, c) if c is not None else None
    if fl is None:
        return [(st, I.unk(st, "dataclasses.fields", node, ctx))]
    return [(st, VTuple([dcfield(st, f) for f in fl]))]


def _astuple_val(I, st, v, asdict):
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, Inst) and I.dc_fields(st, o.cls) is not None:
            fl = I.dc_fields(st, o.cls)
            vals = [(f.name, _astuple_val(I, st, o.attrs.get(f.name), asdict)) for f in fl]
            return st.alloc(DictO(vals)) if asdict else VTuple([x for _, x in vals])
        if isinstance(o, ListO):
            return st.alloc(ListO([_astuple_val(I, st, x, asdict) for x in o.items], o.kind))
    if isinstance(v, VTuple):
        return VTuple([_astuple_val(I, st, x, asdict) for x in v.items])
    return v


ef("dataclasses.astuple")(lambda I, st, a, k, n, c: [(st, _astuple_val(I, st, a[0], False))])
ef("dataclasses.asdict")(lambda I, st, a, k, n, c: [(st, _astuple_val(I, st, a[0], True))])
ef("dataclasses.is_dataclass")(lambda I, st, a, k, n, c: [(st, isinstance(a[0], Ref) and isinstance(st.get(a[0]), Inst) and
                                                           I.dc_fields(st, st.get(a[0]).cls) is not None)])


@ef("dataclasses.replace", "copy.replace")
def _replace(I, st, a, k, node, ctx):
    o = st.get(a[0]) if isinstance(a[0], Ref) else None
    if not isinstance(o, Inst):
        return [(st, Sym("replaced", (_h(a[0]), fresh("r")), "any"))]
    fl = I.dc_fields(st, o.cls) or []
    vals = {f.name: o.attrs[f.name] for f in fl if f.name in o.attrs and f.opts.get("init", True) is not False}
    vals.update(k)
    return I.instantiate(st, o.cls, [], vals, node, ctx)


@ef("copy.copy")
def _copy(I, st, a, k, node, ctx):
    if isinstance(a[0], Ref):
        return [(st, st.alloc(st.get(a[0])))]
    return [(st, a[0])]


@ef("copy.deepcopy")
def _deepcopy(I, st, a, k, node, ctx):
    def dc(v):
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, Inst):
                return st.alloc(Inst(o.cls, {n: dc(x) for n, x in o.attrs.items()}))
            if isinstance(o, ListO):
                return st.alloc(ListO([dc(x) for x in o.items], o.kind))
            return st.alloc(o)
        if isinstance(v, VTuple):
            return VTuple([dc(x) for x in v.items], v.cls)
        return v
    return [(st, dc(a[0]))]


ef("functools.partial", "functools.partialmethod")(lambda I, st, a, k, n, c: [(st, PartialV(a[0], tuple(a[1:]), dict(k)))])
ef("functools.lru_cache", "functools.cache")(lambda I, st, a, k, n, c: [
    (st, CachedV(a[0], (), {}) if a and isinstance(a[0], (FuncV, BoundV, ClassV, BM, PartialV, ExtV, StaticM, ClassM)) else
     PartialV(ExtV("functools.lru_cache"), (), {}))])
ef("functools.wraps")(lambda I, st, a, k, n, c: [(st, PartialV(ExtV("vsa.identity"), (), {}))])


@ef("functools.reduce")
def _reduce(I, st, a, k, node, ctx):
    items = I.concrete_items(st, a[1])
    if items is None:
        return [(st, I.unk(st, "reduce", node, ctx))]
    if len(a) > 2:
        items = [a[2]] + items
    res = [(st, items[0])]
    for x in items[1:]:
        res = I.bind(res, lambda s, acc, x=x: I.call(s, a[0], [acc, x], {}, node, ctx))
    return res


@ef("itertools.chain")
def _chain(I, st, a, k, node, ctx):
    seqs = [I.concrete_items(st, x) for x in a]
    if all(s is not None for s in seqs):
        return [(st, VTuple([x for s in seqs for x in s]))]
    return [(st, I.unk(st, "itertools.chain", node, ctx))]


@ef("itertools.chain.from_iterable")
def _chainfi(I, st, a, k, node, ctx):
    outer = I.concrete_items(st, a[0])
    if outer is not None:
        return _chain(I, st, outer, {}, node, ctx)
    return [(st, I.unk(st, "itertools.chain", node, ctx))]


@ef("itertools.accumulate")
def _accumulate(I, st, a, k, node, ctx):
    items = I.concrete_items(st, a[0])
    if items is None or len(a) > 1:
        return [(st, I.unk(st, "accumulate", node, ctx))]
    init = k.get("initial")
    res = [(st, [init] if init is not None else [])]
    for x in items:
        def step(s, acc, x=x):
            if not acc:
                return [(s, [x])]
            return [(s2, v if isinstance(v, Raised) else acc + [v]) for s2, v in binop(I, s, ast.Add(), acc[-1], x, node, ctx)]
        res = I.bind(res, step)
    return I.bind(res, lambda s, acc: [(s, VTuple(acc))])


@ef("itertools.islice")
def _islice(I, st, a, k, node, ctx):
    items = I.concrete_items(st, a[0])
    if items is not None and all(x is None or isinstance(x, int) for x in a[1:]):
        import itertools
        return [(st, st.alloc(IterO(tuple(itertools.islice(items, *a[1:])))))]
    return [(st, I.unk(st, "islice", node, ctx))]


ef("contextlib.closing")(lambda I, st, a, k, n, c: [(st, st.alloc(OpaqueO("closing", (a[0],))))])
ef("contextlib.suppress")(lambda I, st, a, k, n, c: [(st, st.alloc(OpaqueO("suppress", tuple(a))))])
ef("contextlib.nullcontext")(lambda I, st, a, k, n, c: [(st, st.alloc(OpaqueO("nullcontext", tuple(a))))])
ef("contextlib.ExitStack")(lambda I, st, a, k, n, c: [(st, st.alloc(OpaqueO("exitstack", ())))])
ef("threading.Lock", "threading.RLock")(lambda I, st, a, k, n, c: [(st, st.alloc(OpaqueO("nullcontext", ())))])
ef("enum.auto")(lambda I, st, a, k, n, c: [(st, Sym("enumauto", (fresh("auto"),), "any"))])
ef("enum.unique")(lambda I, st, a, k, n, c: [(st, a[0])])
ef("types.MappingProxyType")(lambda I, st, a, k, n, c: [(st, a[0])])
ef("types.SimpleNamespace")(lambda I, st, a, k, n, c: [(st, st.alloc(OpaqueO("ns", tuple(k.items()))))])
ef("collections.deque")(lambda I, st, a, k, n, c: _seq("deque")(I, st, a, k, n, c))
ef("collections.OrderedDict")(_dict)


@ef("collections.defaultdict")
def _defaultdict(I, st, a, k, node, ctx):
    return [(st, I.unk(st, "defaultdict", node, ctx))]


@ef("math.ceil", "math.floor", "math.trunc")
def _mathround(I, st, a, k, node, ctx):
    import math
    fn = ast.unparse(node.func).split(".")[-1] if isinstance(node, ast.Call) else "floor"
    v = a[0]
    if isinstance(v, (int, float)):
        return [(st, getattr(math, fn)(v))]
    if isinstance(v, Aff):
        return [(st, v)]
    # ceil(x / m) for an integer x
    if isinstance(v, Sym) and v.tag == "fop" and v.args[0] == "/" and isinstance(v.args[2], int) and v.args[2] > 0 and num(v.args[1]) is not None:
        x = num(v.args[1])
        if fn == "ceil":
            return [(st, mul(fdiv_(st, mul(x, -1), v.args[2]), -1))]
        if fn == "floor":
            return [(st, fdiv_(st, x, v.args[2]))]
    return [(st, atom(Sym({"trunc": "toint"}.get(fn, fn), (_h(v),), "int")))]


@ef("codecs.encode", "codecs.decode")
def _codecs(I, st, a, k, node, ctx):
    names = ("obj", "encoding", "errors")
    vals = dict(zip(names, a))
    vals.update(k)
    obj = vals.pop("obj")
    want = isinstance(obj, str) or (isinstance(obj, Sym) and obj.ty == "str")
    return method(I, st, obj, "encode" if want else "decode", [], vals, node, ctx)


class Models:
    getattr = staticmethod(getattr_)
    setattr = staticmethod(setattr_)
    binop = staticmethod(binop)
    compare = staticmethod(compare)
    get_item = staticmethod(get_item)
    set_item = staticmethod(set_item)
    del_item = staticmethod(del_item)
    method = staticmethod(method)
    sym_method = staticmethod(sym_method)
    ext_call = staticmethod(ext_call)
    enum_call = staticmethod(enum_call)
    ThenRaise = ThenRaise
    finite_helper = staticmethod(finite_helper)
    settle = staticmethod(settle)
    settle_all = staticmethod(settle_all)
    consumes = staticmethod(consumes)
