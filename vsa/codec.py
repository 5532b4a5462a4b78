"""Abstract encode/decode scenarios for every record, nested structure and the file header."""
from . import spec
from .interp import AnalysisBroken, ClassV, Ctx, Interp, Loc, Raised
from .diff import FOPS, LEAF, OPS, differ
from .models import possible, restrict, tobs
from .refute import refute
from .state import BA, Inst, ListO, add, bs_slice, bslen, mkbs, opaque_bytes, read_item, segs_of, seglen, syms_of
from .terms import Aff, Bs, EnumVal, Ref, Sym, VTuple, atom, parts, show, sub

CTX = lambda: Ctx(None, None, "driver", "<driver>", "driver")
PARTS_NOTE = "length and offset fields describe parts inside the declared size"


def src(name="B"):
    return Sym("src", (name,), "bytes")


def slen(s):
    return atom(Sym("len", (s,), "int"))


def whole(s, n=None):
    return Bs((("s", s, 0, slen(s) if n is None else n),))


def u(kind, s, off):
    t = Sym("u", (kind, s, off), "float" if kind[0] == "f" else "int")
    return t if kind[0] == "f" else atom(t)


def enum_members(P, name):
    c = P.find(name)
    if not isinstance(c, ClassV) or not getattr(c, "members", None):
        raise AnalysisBroken(f"{name} is not an enumeration any more")
    return c


class Scenario:
    """decode scenario: bytes B whose declared facts are in st"""

    def __init__(self, name, st, s, buf, covered, values, end, absent=(), base=0):
        self.name, self.st, self.s, self.buf = name, st, s, buf
        self.covered = covered      # list of (lo, hi) byte ranges that fields cover
        self.values = values        # field path -> expected (kind, ...) description
        self.end = end              # end of the contents
        self.absent = absent        # fields of parts that are not present
        self.base = base


def fresh_record_bytes(P, I, rec, slack=False, free=None):
    """initial facts shared by all decode scenarios of a record"""
    st = P.fresh_state()
    s = src()
    L = slen(s)
    st.assume_le(32, L)
    size = u("u4", s, 8)
    if slack:
        st.assume_le(size, L)
    else:
        st.assume_eq(size, L)
    if free != "header.base.object_type":
        restrict(I, st, u("u4", s, 12), rec.types)
    hdr, _ = spec.HEADERS[rec.header]
    for path, off, kind, enum in [("header." + p, o, k, e) for p, o, k, e in hdr] + list(rec.fixed):
        if path != free and enum and spec.ENUMS[enum][0] == "IntEnum" and path != "header.base.object_type":
            restrict(I, st, u(kind, s, off), list(spec.ENUMS[enum][1].values()))
    return st, s, L, size


def fixed_values(s, fields, base=0):
    vals, cov = {}, []
    for path, off, kind, enum in fields:
        vals[path] = ("num" if not kind[0] == "s" and "*" not in kind else "raw" if kind[0] == "s" else "vec", kind, add(base, off), enum)
        cov.append((add(base, off), add(base, off + spec.ksize(kind))))
    return vals, cov


def feasible(st, *cons):
    for c in cons:
        op, a, b = c
        ok = st.assume_le(a, b) if op == "<=" else st.assume_eq(a, b) if op == "==" else st.assume_eq(a, b, False)
        if not ok:
            return False
    return True


def decode_scenarios(P, I, rec, slack=False, free=None):
    """well-formed byte strings of a record, one scenario per presence of its optional parts"""
    out = []
    hdr, hsize = spec.HEADERS[rec.header]
    fields = [(("header." + p), o, k, e) for p, o, k, e in hdr] + list(rec.fixed)
    offs = {p: (o, k) for p, o, k, e in rec.fixed}

    def build(name, cons):
        st, s, L, size = fresh_record_bytes(P, I, rec, slack, free)
        if not feasible(st, ("<=", rec.end, size)):
            return None
        vals, cov = fixed_values(s, fields)
        for c in cons(st, s, size):
            if not feasible(st, c):
                return None
        pos = rec.end
        for fname, codec, rule in rec.parts:
            if rule[0] == "field":
                o, k = offs[rule[1]]
                n = u(k, s, o)
                ln = st.norm(add(n, rule[2]))
                if rule[2] and st.le(0, ln) is not True:
                    ln = 0
                hi = st.norm(add(pos, ln))
                nxt = st.norm(add(pos, n))
                if not feasible(st, ("<=", nxt, size)):
                    return None
            elif rule[0] == "rest":
                hi = nxt = st.norm(size)
            else:
                o, k = offs[rule[1]]
                n = st.norm(u(k, s, o))
                hi = nxt = st.norm(size) if n == 0 else n
            pos, hi, nxt = st.norm(pos), st.norm(hi), st.norm(nxt)
            vals[fname] = ("text", codec, pos, hi) if codec else ("bytes", None, pos, hi)
            cov.append((pos, hi))
            if rule[0] == "field" and rule[2] == -1 and st.eq(n, 0) is not True:
                # terminator of a zero-terminated text
                st.assume_eq(u("u1", s, hi), 0)
            pos = nxt
        return [name, st, s, L, size, vals, cov, pos]

    def finish(b, present=(), absent=()):
        if b is None:
            return
        name, st, s, L, size, vals, cov, pos = b
        for flds, at in present:
            lf, end = spec.lay(flds, 0)
            for p, o, k, e in lf:
                vals[p] = ("num", k, st.norm(add(at, o)), e)
                cov.append((st.norm(add(at, o)), st.norm(add(at, o + spec.ksize(k)))))
            pos = st.norm(add(at, end))
        ab = []
        for flds in absent:
            for p, o, k, e in spec.lay(flds, 0)[0]:
                ab.append(p)
        sc = Scenario(name, st, s, whole(s), cov, vals, pos, ab)
        sc.size = st.norm(size)
        out.append(sc)

    if rec.opt and rec.opt[0] == "ext":
        _, offname, flds = rec.opt
        o, k = offs[offname]
        n = lambda s: u(k, s, o)
        esz = spec.lay(flds, 0)[1]

        def dend(st, s):
            # end of the data part that precedes the extension
            p = rec.end
            for fname, codec, rule in rec.parts:
                if rule[0] == "field":
                    oo, kk = offs[rule[1]]
                    p = add(p, u(kk, s, oo))
            return p
        finish(build("no extension offset", lambda st, s, z: [("==", n(s), 0)]), (), (flds,))
        b = build("extension present", lambda st, s, z: [("<=", rec.end, n(s)), ("<=", dend(st, s), n(s)), ("<=", add(n(s), esz), z)])
        if b:
            finish(b, ((flds, b[1].norm(n(b[2]))),), ())
        finish(build("extension offset beyond declared size", lambda st, s, z: [("<=", rec.end, n(s)), ("<=", dend(st, s), n(s)),
                                                                              ("<=", n(s), z), ("<=", add(z, 1), add(n(s), esz))]), (), (flds,))
    elif rec.opt:
        vers = rec.opt[1]
        for i in range(len(vers) + 1):
            cons = []
            if i:
                cons.append(("ge", vers[i - 1][2]))
            if i < len(vers):
                cons.append(("lt", vers[i][2]))

            def mkc(st, s, z, cons=cons):
                return [("<=", c, z) if t == "ge" else ("<=", add(z, 1), c) for t, c in cons]
            finish(build(f"version {i + 1}", mkc), [(f, a) for f, a, _ in vers[:i]], [f for f, _, _ in vers[i:]])
    elif any(r[2][0] == "field" and r[2][2] == -1 for r in rec.parts):
        o, k = offs[rec.parts[0][2][1]]
        finish(build("empty text", lambda st, s, z: [("==", u(k, s, o), 0)]))
        finish(build("text", lambda st, s, z: [("<=", 1, u(k, s, o))]))
    else:
        finish(build("record", lambda st, s, z: []))
    return out


def getpath(I, st, v, path):
    """attribute path on an abstract object; raises KeyError if it is not there"""
    for p in path.split("."):
        res = I.getattr(st, v, p, None, CTX())
        if len(res) != 1 or isinstance(res[0][1], Raised):
            raise KeyError(path)
        v = res[0][1]
    return v


def strip(v):
    while isinstance(v, EnumVal):
        v = v.v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Sym) and v.ty == "int":
        return atom(v)
    return v


def seqitems(st, v):
    if isinstance(v, VTuple):
        return list(v.items)
    if isinstance(v, Ref) and isinstance(st.get(v), ListO):
        return list(st.get(v).items)
    return None


def same_num(st, a, b):
    a, b = strip(a), strip(b)
    if isinstance(a, (int, Aff)) and isinstance(b, (int, Aff)):
        d = st.eq(a, b)
        if d is None:
            a, b = st.norm(a), st.norm(b)
            return False if (refute if deep(a) or deep(b) else differ)(st, a, b) else None
        return d
    a, b = st.norm(a), st.norm(b)
    if type(a) is type(b) and a == b:
        return True
    return unless_shown(st, a, b)


def unless_shown(st, a, b):
    """the verdict on two values that are not equal by their terms: different, or None while terms without an algebra could be equal"""
    return None if (opaque(a) or opaque(b)) and refute(st, a, b) is not True else False


PLAIN = {"u", "ub", "field", "src", "len", "enclen", "dec", "bsbox", "callm"}


def opaque(v):
    """does the value contain a term the analysis has no meaning for?"""
    return any(s.tag not in PLAIN for s in syms_of(v))


def deep(v):
    """is a leaf of the arithmetic made of such terms?"""
    return any(s.tag not in PLAIN and s.tag not in LEAF and s.tag not in OPS and s.tag not in FOPS or
               s.tag in ("u", "ub", "len", "enclen") and opaque(s.args) for s in syms_of(v))


def no_bytes(st, v):
    """False when the value certainly is not bytes, None when it was not followed"""
    from .models import plain_value
    return False if isinstance(v, Raised) or plain_value(st, v) else None


def same_bytes(st, a, b):
    x, y = tobs(st, a), tobs(st, b)
    if x is None or y is None:
        return None if isinstance(a, Sym) and opaque(a) else False
    a, b = st.norm_bs(x), st.norm_bs(y)
    return bs_equal(st, a, b) or unless_shown(st, a, b)


def bs_equal(st, a, b):
    """same bytes? segment-wise, splitting where boundaries differ"""
    a, b = st.norm_bs(a), st.norm_bs(b)
    if a == b:
        return True
    if st.eq(bslen(a), bslen(b)) is not True:
        return False
    sa, sb = list(segs_of(a)), list(segs_of(b))
    pa = 0
    # cut points
    cuts = []
    for segs in (sa, sb):
        p = 0
        for g in segs:
            p = st.norm(add(p, seglen(g)))
            cuts.append(p)
    order = sort_pts(st, cuts)
    if order is None:
        return False
    lo = 0
    for c in order:
        if st.eq(lo, c) is True:
            continue
        x, y = bs_slice(st, a, lo, c), bs_slice(st, b, lo, c)
        x, y = st.norm_bs(x), st.norm_bs(y)
        if x != y and not (is_zeros(x) and is_zeros(y)) and not num_equal(st, x, y) and not fact_equal(st, x, y):
            return False
        lo = c
    return True


def fact_equal(st, x, y):
    """equal because the path compared them"""
    return any(k.tag == "beq" and val is True and {st.norm_bs(k.args[0]), st.norm_bs(k.args[1])} == {x, y}
               for k, val in st.bools.items())


def num_equal(st, x, y):
    """equal as numbers under the known facts (a byte string may be pinned to a constant by a fact)"""
    n = st.norm(bslen(x))
    if n not in (1, 2, 4, 8):
        return False
    a, b = read_item(st, x, 0, f"u{n}", n), read_item(st, y, 0, f"u{n}", n)
    return isinstance(a, (int, Aff)) and isinstance(b, (int, Aff)) and st.eq(st.norm(a), st.norm(b)) is True


def sort_pts(st, pts):
    out = []
    for p in pts:
        i = 0
        while i < len(out):
            d = st.le(p, out[i])
            if d is None:
                d2 = st.le(out[i], p)
                if d2 is not True:
                    return None
                d = st.eq(p, out[i]) is True
            if d:
                break
            i += 1
        out.insert(i, p)
    return out


def is_zeros(b):
    return all(g[0] == "z" or (g[0] == "c" and not any(g[1])) for g in segs_of(b))


def expect(st, s, d):
    """expected abstract value of a field description"""
    if d[0] == "num":
        return u(d[1], s, d[2])
    if d[0] == "raw":
        return mkbs([("s", s, d[2], add(d[2], spec.ksize(d[1])))])
    if d[0] == "vec":
        n, k = d[1].split("*")
        return [u(k, s, add(d[2], i * spec.SIZES[k])) for i in range(int(n))]
    sl = mkbs([("s", s, d[2], d[3])]) if st.eq(d[2], d[3]) is not True else b""
    return sl


def match(st, s, got, d):
    """does the decoded value equal the bytes the description names? -> (bool, expected text)"""
    e = expect(st, s, d)
    if d[0] == "num":
        e = st.norm(e)
        return same_num(st, got, e), f"{d[1]} at {show(d[2])}"
    if d[0] == "vec":
        it = seqitems(st, got)
        return it is not None and len(it) == len(e) and all(same_num(st, x, y) for x, y in zip(it, e)), f"{d[1]} at {show(d[2])}"
    if d[0] == "raw":
        return same_bytes(st, got, e), f"bytes {show(d[2])}..{show(add(d[2], spec.ksize(d[1])))}"
    if d[0] == "bytes":
        return same_bytes(st, got, e), f"bytes {show(d[2])}..{show(d[3])}"
    # text
    e = st.norm_bs(e) if e else b""
    g = st.norm(got) if isinstance(got, Sym) else got
    txt = f"{d[1]} text in bytes {show(d[2])}..{show(d[3])}"
    if isinstance(g, str):
        return g == "" and e == b"", txt
    if isinstance(g, Sym) and g.tag == "dec" and g.args[0] == (d[1], "strict") and bs_equal(st, g.args[1], e):
        return True, txt
    if isinstance(g, Sym):
        return unless_shown(st, g, Sym("dec", ((d[1], "strict"), e), "str")), txt
    return False, txt


# ------------------------------------------------------------------------------------------------ encode scenarios
def fld(name, kind):
    t = Sym("field", (name, kind), "float" if kind[0] == "f" else "int")
    return t if kind[0] == "f" else atom(t)


class Obj:
    def __init__(self, st, ref, vals, where, end, size, name):
        self.st, self.ref, self.vals, self.where, self.end, self.size, self.name = st, ref, vals, where, end, size, name


def sym_value(P, I, st, path, kind, enum, label):
    if kind[0] == "s":
        n = int(kind[1:])
        return opaque_bytes(Sym("field", (label + path, kind), "bytes"), n)
    if "*" in kind:
        n, k = kind.split("*")
        return [fld(f"{label}{path}[{i}]", k) for i in range(int(n))]
    v = fld(label + path, kind)
    if enum:
        c = enum_members(P, enum)
        if spec.ENUMS[enum][0] == "IntEnum" and enum != "Compression":
            restrict(I, st, v, list(c.members.values()))
            return EnumVal(c, v)
        if enum == "Compression":
            return v
        return EnumVal(c, v)
    return v


def construct(I, st, cls, kw):
    res = I.call(st, cls, [], kw, None, CTX())
    good = [(s, v) for s, v in res if isinstance(v, Ref)]
    if len(good) != 1:
        raise AnalysisBroken(f"{cls.name} cannot be built from its public fields {sorted(kw)}: {[str(v) for _, v in res]}")
    return good[0]


# classes of the nested members
MEMBER = {"header": None, "base": "ObjectHeaderBase", "lin_timestamp_event": "LinDatabyteTimestampEvent",
          "lin_msg_descr_event": "LinMessageDescriptor", "lin_synch_field_event": "LinSynchFieldEvent", "lin_bus_event": "LinBusEvent",
          "measurement_start_time": "SystemTime", "last_object_time": "SystemTime"}


def build_object(P, I, st, cls, fields, values, header=None):
    """instantiate cls with nested members from {path: value}"""
    tree = {}
    for path, v in values.items():
        d = tree
        ps = path.split(".")
        for p in ps[:-1]:
            d = d.setdefault(p, {})
        d[ps[-1]] = v

    def mk(cls, tree, st):
        kw = {}
        for k, v in tree.items():
            if isinstance(v, dict):
                cn = header if k == "header" else MEMBER[k]
                st, v = mk(P.find(cn), v, st)
            elif isinstance(v, list):
                want = [f for f in I.dc_fields(st, cls) if f.name == k]
                v = VTuple(v) if not (want and "ist" in (ann_text(want[0]) or "")) else st.alloc(ListO(tuple(v)))
            kw[k] = v
        return construct(I, st, cls, kw)
    return mk(cls, tree, st)


def ann_text(f):
    import ast
    a = getattr(f, "ann", None)
    try:
        return ast.unparse(a) if isinstance(a, ast.AST) else str(a)
    except Exception:
        return ""


def encode_scenarios(P, I, rec, honest=True):
    """consistent objects of a record; vals: path -> (value, description in the output)"""
    out = []
    cls = P.find(rec.name)
    hdr, _ = spec.HEADERS[rec.header]
    fields = [(("header." + p), o, k, e) for p, o, k, e in hdr] + list(rec.fixed)

    def base(name, pre=None):
        st = P.fresh_state()
        vals, where = {}, {}
        for path, off, kind, enum in fields:
            v = sym_value(P, I, st, path, kind, enum, "")
            vals[path] = v
            where[path] = (kind, off)
        t = fld("header.base.object_type", "u4")
        restrict(I, st, t, rec.types)
        pos = rec.end
        for fname, codec, rule in rec.parts:
            if codec:
                v = Sym("field", (fname, "str"), "str")
                ln = atom(Sym("enclen", ((codec, "strict"), v), "int"))
                seg = ("e", (codec, "strict"), v)
            else:
                v = opaque_bytes(Sym("field", (fname, "bytes"), "bytes"))
                ln = bslen(v)
                seg = None
            if pre and fname in pre:
                v, ln = pre[fname], 0
            vals[fname] = v
            where[fname] = ("part", pos, ln, codec, v)
            if rule[0] == "field":
                n = vals[rule[1]]
                delta = -rule[2] if not (pre and fname in pre) else 0
                if not st.assume_eq(n, add(ln, delta)):
                    return None
                pos = st.norm(add(pos, add(ln, delta)))
            else:
                pos = st.norm(add(pos, ln))
        return st, vals, where, pos, name

    def finish(b, size_cons, ext=None, absent_vals=()):
        if b is None:
            return
        st, vals, where, pos, name = b
        for p, k, off in ext or ():
            vals[p] = fld(p, k)
            where[p] = (k, off)
        for p, v in absent_vals:
            vals[p] = v
        size = fld("header.base.object_size", "u4")
        for c in size_cons(st, size, pos):
            if not feasible(st, c):
                return
        st2, ref = build_object(P, I, st, cls, fields, vals, rec.header)
        out.append(Obj(st2, ref, vals, where, st2.norm(pos), st2.norm(size), name))

    def optvals(flds, zero):
        return [(p, 0 if zero else fld(p, k)) for p, o, k, e in spec.lay(flds, 0)[0]]

    if rec.opt and rec.opt[0] == "ext":
        _, offname, flds = rec.opt
        esz = spec.lay(flds, 0)[1]
        n = fld(offname, "u1")
        gap = rec.parts[0][2][0] == "field"
        b = base("no extension offset")
        if b:
            finish(b, lambda st, z, pos: [("==", n, 0), ("==" if not gap else "<=", pos, z)], None, optvals(flds, honest))
        b = base("extension present")
        if b:
            finish(b, lambda st, z, pos: [("==" if not gap else "<=", pos, n), ("<=", add(n, esz), z)],
                   [(p, k, add(n, o)) for p, o, k, e in spec.lay(flds, 0)[0]])
        b = base("extension offset beyond declared size")
        if b:
            finish(b, lambda st, z, pos: [("==" if not gap else "<=", pos, n), ("<=", n, z), ("<=", add(z, 1), add(n, esz))],
                   None, optvals(flds, honest))
    elif rec.opt:
        vers = rec.opt[1]
        for i in range(len(vers) + 1):
            b = base(f"version {i + 1}")
            ext = [(p, k, a + o) for f, a, _ in vers[:i] for p, o, k, e in spec.lay(f, 0)[0]]
            ab = [x for f, _, _ in vers[i:] for x in optvals(f, honest)]

            def cons(st, z, pos, i=i):
                c = [("<=", vers[i - 1][2] if i else rec.end, z)]
                if i < len(vers):
                    c.append(("<=", add(z, 1), vers[i][2]))
                return c
            finish(b, cons, ext, ab)
    elif any(r[2][0] == "field" and r[2][2] == -1 for r in rec.parts):
        finish(base("empty text", {rec.parts[0][0]: ""}), lambda st, z, pos: [("<=", pos, z)])
        finish(base("text"), lambda st, z, pos: [("<=", pos, z)])
    elif any(r[2][0] == "rest" for r in rec.parts):
        finish(base("record"), lambda st, z, pos: [("==", pos, z)])
    else:
        finish(base("record"), lambda st, z, pos: [("<=", pos, z)])
    return out


def match_value(I, st, got, want):
    """does a decoded value equal the value that was encoded?"""
    if isinstance(want, list):
        it = seqitems(st, got)
        return it is not None and len(it) == len(want) and all(same_num(st, x, y) for x, y in zip(it, want))
    if isinstance(want, (bytes, Bs)):
        return same_bytes(st, got, want)
    if isinstance(want, str):
        return got == want if isinstance(got, str) else False
    if isinstance(want, Sym) and want.ty == "str":
        g = st.norm(got) if isinstance(got, Sym) else got
        if g is st.norm(want):
            return True
        if isinstance(g, str) and len(g) < 2:
            # the same only if the text is that long
            ds = [st.eq(atom(s), len(g)) for s in {x for k in st.bounds for x, _ in k} | set(st.subst) if s.tag == "enclen" and s.args[1] is want]
            if g == "" and True in ds:
                return True
        return unless_shown(st, g, st.norm(want)) if isinstance(g, Sym) else False
    return same_num(st, got, want)


def at(st, content, off, kind):
    """value of kind found in content at off"""
    return read_item(st, content, off, kind, spec.SIZES[kind])
