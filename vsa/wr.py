"""Model of the writer: constructor paths, an arbitrary reachable writer (an inductive head over any sequence of writes), one write from
there, and closing from there. State is found by role: the buffer is where an accepted object's bytes are kept, the file is the stream
that was passed in, the header's fields are what closing writes to the first 144 bytes."""
import ast

from .codec import CTX, PLAIN, bs_equal, build_object, sym_value
from .interp import AnalysisBroken, Ctx, Interp, Raised
from .models import tobs
from .state import BA, DictO, Env, Inst, ListO, StreamO, add, bs_slice, bslen, concat, mkbs, opaque_bytes, read_item, seglen, segs_of, syms_of
from .terms import INF, Aff, Bs, EnumVal, Ref, Sym, atom, show, sub
from . import spec
from .diff import witness

HDR = 144
PROBE = """
class Probe(ObjectWithHeader):
    def pack(self):
        return self.payload
    @classmethod
    def unpack(cls, buffer):
        raise NotImplementedError
"""


def arg(name, ty="int"):
    s = Sym("arg", (name,), ty)
    return atom(s) if ty == "int" else s


class WriterModel:
    def __init__(self, P, level="int", faults=False, forgets=False):
        self.P = P
        self.I = Interp(P, faults=faults)
        self.I.forgets = forgets
        self.I.split_slices = True
        self.level = arg("level")
        self.bsize = arg("buffer_size")
        self.level_kind = level
        st = P.fresh_state()
        st = self.probe(st)
        self.file = st.alloc(StreamO(0, b"", "user", size=0, mode="w+b"))
        st.assume_le(0, self.level)
        st.assume_le(self.level, 9)
        lv = self.level if level == "int" else EnumVal(P.find("Compression"), self.level)
        self.before = st.clone()
        self.ctors = self.I.call(st, P.find("BlfWriter"), [self.file, lv, self.bsize], {}, None, CTX())
        self.good = [(s, v) for s, v in self.ctors if isinstance(v, Ref)]
        self.failed = [(s, v) for s, v in self.ctors if isinstance(v, Raised)]

    # ---- an object of which nothing is known but its header and its encoding
    def probe(self, st):
        P, I = self.P, self.I
        env = st.alloc(Env({"ObjectWithHeader": P.find("ObjectWithHeader")}))
        ctx = Ctx(env, None, "driver", "<driver>", "driver")
        res = I.exec_block(ast.parse(PROBE).body, st, ctx)
        st = res[0][0]
        cls = st.get(env).vars["Probe"]
        hdr, _ = spec.HEADERS["ObjectHeader"]
        vals = {p: sym_value(P, I, st, p, k, e, "obj.") for p, o, k, e in hdr}
        st, h = build_object(P, I, st, P.find("ObjectHeader"), [], vals)
        self.declared = st.norm(vals["base.object_size"])
        self.payload = opaque_bytes(Sym("payload", ("D",), "bytes"))
        self.obj = st.alloc(Inst(cls, {"header": h, "payload": self.payload}))
        st.events = []
        return st

    def reps(self):
        """one constructor outcome for every different set of facts about the arguments"""
        out = {}
        for s, v in self.good:
            facts = sorted(repr(k) + str(val) for k, val in s.bools.items() if "arg(" in repr(k) or "'level'" in repr(k) or "'buffer_size'" in repr(k))
            k = (repr(s.range(self.level)), repr(s.range(self.bsize)), tuple(facts))
            out.setdefault(k, (s, v))
        return list(out.values())

    def call(self, s, v, name, args=()):
        s = s.clone()
        s.events = []
        return self.I.call_attr(s, v, name, list(args), {}, None, CTX())

    # ---- inductive head
    def head(self, s0, v):
        I = self.I
        pre = s0.clone()
        pre.events = []
        mod, groups = {}, None
        for _ in range(12):
            h, _g = I.havoc(pre.clone(), mod, groups, pre)
            h.events = []
            start = h.clone()
            ends = I.call_attr(h, v, "write", [self.obj], {}, None, CTX())
            iters = [s for s, r in ends]
            grew = False
            for s2 in iters:
                for l, val in I.changes(start, s2):
                    if not (l[1] in pre.heap or l[1] in pre.base):
                        continue
                    if l not in mod:
                        mod[l] = []
                        grew = True
                    if not any(type(val) is type(w) and val == w for w in mod[l]):
                        mod[l].append(val)
            g2 = I.refine_groups(pre, iters, mod, groups)
            if not grew and g2 == groups:
                return Head(self, pre, start, v, ends, mod, groups)
            groups = g2
        raise AnalysisBroken("the effects of writing did not settle")


class Head:
    def __init__(self, model, pre, start, w, ends, mod, groups):
        self.m, self.pre, self.start, self.w, self.ends, self.mod, self.groups = model, pre, start, w, ends, mod, groups
        self.closes = model.call(start, w, "close")
        self.empty = model.call(pre, w, "close")
        self.buffer = self.find_buffer()

    def find_buffer(self):
        """where an accepted object's bytes go: (location, None) or (None, why not)"""
        m, I = self.m, self.m.I
        hits, copies = set(), False
        for s, r in list(m.call(self.pre, self.w, "write", [m.obj])) + list(self.ends):
            for l, v in I.changes(self.pre, s) + I.changes(self.start, s):
                try:
                    was = I.read_loc(self.pre, l)
                except KeyError:
                    continue
                if l[0] in ("pos", "size", "closed"):
                    continue
                b = as_bytes(s, v)
                if b is not None and as_bytes(self.pre, was) is not None and holds(s, b, m.payload):
                    hits.add(l)
                elif b is None and mentions(s, v, m.payload) and not self.copy(s, l):
                    return None, f"objects are kept in {type(v).__name__} {l[-1]}"
                elif b is None and mentions(s, v, m.payload):
                    copies = True
        # a bytearray that an attribute of a known object refers to is found through that attribute
        for l in list(hits):
            if l[0] == "ba":
                owners = {("attr", i, k) for i, o in list(self.pre.base.items()) + list(self.pre.heap.items()) if isinstance(o, Inst)
                          for k, v in o.attrs.items() if isinstance(v, Ref) and v.id == l[1]}
                if len(owners) == 1 or owners & hits:
                    hits.discard(l)
                    hits |= owners
        if len(hits) > 1:
            # what closing does not store is a copy
            ends = [s for s, r in m.call(self.pre, self.w, "write", [m.obj]) if not isinstance(r, Raised)]
            hits = {l for l in hits if not all(self.copy(s, l) for s in ends)} or hits
        if copies and not hits:
            return None, "objects are kept in a collection"
        if len(hits) > 1:
            return None, f"objects are kept in several places ({sorted(map(str, hits))})"
        return (next(iter(hits)) if hits else None), None

    def copy(self, s, l):
        """closing stores the object's bytes in the same way when they are taken from this place"""
        I, x = self.m.I, s.clone()
        o = x.get(l[1])
        if l[0] == "obj":
            if not isinstance(o, (ListO, DictO)):
                return False
            x.put(l[1], type(o)(()) if isinstance(o, DictO) else ListO((), o.kind))
        else:
            v = I.read_loc(x, l)
            if isinstance(v, Ref) and isinstance(x.get(v), BA):
                x.put(v, BA(b""))
            else:
                I.write_loc(x, l, b"")
        src = self.m.payload.segs[0][1]

        def outputs(st):
            return sorted(str(sum(e[0] == "write" and src in syms_of(e[3]) for e in t.events)) for t, r in self.m.call(st, self.w, "close"))
        return outputs(x) == outputs(s)

    def buf(self, st):
        l = self.buffer[0]
        if l is None:
            return b""
        b = as_bytes(st, self.m.I.read_loc(st, l))
        return None if b is None else st.norm_bs(b)


def refers(I, st, l, i):
    try:
        v = I.read_loc(st, l)
    except KeyError:
        return False
    return isinstance(v, Ref) and v.id == i


def as_bytes(st, v):
    if isinstance(v, (bytes, Bs)):
        return v
    if isinstance(v, Ref) and isinstance(st.get(v), BA):
        return tobs(st, v)
    return None


def holds(st, b, payload):
    src = payload.segs[0][1]
    return any(g[0] == "s" and g[1] == src for g in segs_of(st.norm_bs(b)))


def mentions(st, v, payload):
    src = payload.segs[0][1]
    seen = set()

    def go(x):
        if isinstance(x, Ref):
            if x.id in seen:
                return False
            seen.add(x.id)
            o = st.get(x)
            if isinstance(o, Inst):
                return any(go(y) for y in o.attrs.values())
            if isinstance(o, StreamO):
                return any(e[0] == "write" and e[1] == x and go(e[3]) for e in st.events)
            return any(go(y) for y in getattr(o, "items", ()) or ()) or (isinstance(o, BA) and go(o.content))
        if isinstance(x, tuple):
            return any(go(y) for y in x)
        if isinstance(x, (ListO, DictO)):
            return any(go(y) for y in x.items)
        return isinstance(x, Bs) and holds(st, x, payload)
    return go(v)


# ------------------------------------------------------------------------------------------------ bytes
def feasible_le(st, a, b):
    """may a <= b hold? True only with an admissible valuation, False when the facts exclude it, otherwise None"""
    d = st.le(a, b)
    if d is not None:
        return d
    if not st.clone().assume_le(a, b):
        return False
    return True if witness(st, [a, b], lambda x, y: x <= y) is not None else None


def take(st, segs, n):
    """(first n bytes, rest) when a boundary or a divisible segment lies there, else None"""
    out, left = [], n
    segs = list(segs)
    while segs:
        if st.eq(left, 0) is True:
            return mkbs(out), segs
        g = segs[0]
        ln = st.norm(seglen(g))
        if st.le(ln, left) is True:
            out.append(g)
            segs.pop(0)
            left = st.norm(sub(left, ln))
            continue
        if st.le(left, ln) is True:
            whole = mkbs([g])
            out.extend(segs_of(bs_slice(st, whole, 0, left)))
            segs[0:1] = list(segs_of(bs_slice(st, whole, left, ln)))
            return mkbs(out), segs
        return None
    return (mkbs(out), segs) if st.eq(left, 0) is True else None


def strip_zeros(st, segs):
    """(number of leading zero bytes, rest)"""
    z = 0
    segs = list(segs)
    while segs:
        g = segs[0]
        if g[0] == "z":
            z = st.norm(add(z, g[1]))
            segs.pop(0)
        elif g[0] == "c":
            b = g[1].lstrip(b"\0")
            z = st.norm(add(z, len(g[1]) - len(b)))
            segs.pop(0)
            if b:
                segs.insert(0, ("c", b))
                break
        elif st.eq(st.norm(seglen(g)), 0) is True:
            segs.pop(0)
        else:
            break
    return z, segs


def drop_empty(st, segs):
    return [g for g in segs if st.eq(st.norm(seglen(g)), 0) is not True]


def conserve(st, got, want, objs):
    """is got == want, where want's items are bytes or the marker "pad" (zero bytes, their number is collected)?
    -> (True | False | None, {index of pad: number of zeros}, what differs)"""
    g = drop_empty(st, segs_of(st.norm_bs(got)))
    pads = {}

    def go(i, w):
        nonlocal g
        while True:
            while not w and i < len(want) and not isinstance(want[i], str):
                w = drop_empty(st, segs_of(st.norm_bs(want[i])))
                i += 1
            if w:
                if not g:
                    n = st.norm(seglen(w[0]))
                    f = feasible_le(st, 1, n)
                    if f is not False:
                        return f and False, f"{show(mkbs(w))} is missing at the end"
                    w = w[1:]
                    continue
                x, y = g[0], w[0]
                nx, ny = st.norm(seglen(x)), st.norm(seglen(y))
                n = nx if st.le(nx, ny) is True else ny if st.le(ny, nx) is True else None
                if n is None:
                    if feasible_le(st, 1, nx) is False:
                        g = g[1:]
                        continue
                    if altered(x, y) and (len(g) < 2 or g[1][0] == "s"):
                        return False, f"{show(mkbs([x]))} is stored where {show(mkbs([y]))} is due"
                    if not odd(mkbs([x, y])) and not (x[0] == y[0] == "s" and x[1] == y[1] and st.eq(x[2], y[2]) is not False) \
                            and shifted(st, mkbs([x]), mkbs([y])) and witness(st, [nx, ny], lambda p, q: p > 0 and q > 0) is not None:
                        return False, f"{show(mkbs([x]))} is stored where {show(mkbs([y]))} is due"
                    return None, f"{show(mkbs([x]))} against {show(mkbs([y]))}: lengths are not related"
                bx, by = mkbs([x]), mkbs([y])
                px, py = st.norm_bs(bs_slice(st, bx, 0, n)), st.norm_bs(bs_slice(st, by, 0, n))
                if not (px == py or bs_equal(st, px, py)):
                    if odd(px) or not shifted(st, px, py):
                        return None, f"{show(px)} against {show(py)}"
                    f = feasible_le(st, 1, n)
                    if f is False:
                        g, w = (g[1:], w) if n is nx else (g, w[1:])
                        continue
                    return f and False, f"{show(px)} is stored where {show(py)} is due"
                g = drop_empty(st, list(segs_of(bs_slice(st, bx, n, nx))) + g[1:])
                w = drop_empty(st, list(segs_of(bs_slice(st, by, n, ny))) + w[1:])
                continue
            if i >= len(want):
                break
            k, g2 = strip_zeros(st, g)
            pads[i] = st.norm(add(pads.get(i, 0), k))
            g = drop_empty(st, g2)
            i += 1
        if g:
            fs = [feasible_le(st, 1, st.norm(seglen(x))) for x in g]
            if all(f is False for f in fs):
                return True, ""
            return (False if True in fs else None), f"{show(mkbs(g))} is stored in addition"
        return True, ""
    v, why = go(0, [])
    return v, pads, why


KNOWN = PLAIN | {"fresh", "payload", "arg", "mod", "fdiv", "min", "max", "zcompress", "extret", "smeth", "item", "intof", "dtattr", "dtfrom"}


def odd(v):
    return any(x.tag not in KNOWN for x in syms_of(v))


def altered(x, y):
    """is x made from y by a method that changes bytes?"""
    t = x[1] if x[0] == "s" else None
    return y[0] == "s" and isinstance(t, Sym) and t.tag == "bmeth" and t.args[0] in ALTER and isinstance(t.args[1], Bs) \
        and any(g[0] == "s" and g[1] == y[1] for g in t.args[1].segs)


ALTER = {"rstrip", "lstrip", "strip", "replace", "translate", "lower", "upper", "swapcase", "title", "capitalize", "removeprefix", "removesuffix"}


def shifted(st, x, y):
    """False when two pieces of the same source may still be the same bytes"""
    a, b = segs_of(x), segs_of(y)
    if len(a) == len(b) == 1 and a[0][0] == b[0][0] == "s" and a[0][1] == b[0][1]:
        return st.eq(a[0][2], b[0][2]) is False or witness(st, [a[0][2], b[0][2]], lambda p, q: p != q) is not None
    return True


class Container:
    __slots__ = ("at", "pad", "head", "declared", "data", "content", "method", "level", "wbits", "loc", "opaque")

    def __init__(self):
        for k in self.__slots__:
            setattr(self, k, None)


def containers(st, p, writes):
    """parse appended bytes into padding and containers -> ([Container], rest segments, problem)"""
    stream = mkbs([g for _, b, _ in writes for g in segs_of(b)])
    loc = writes[-1][2] if writes else ""
    segs = drop_empty(st, segs_of(st.norm_bs(stream)))
    out = []
    at = p
    while segs:
        c = Container()
        c.loc = loc
        c.pad, segs = strip_zeros(st, segs)
        at = st.norm(add(at, c.pad))
        c.at = at
        if not segs:
            return out, [("z", c.pad)], None
        t = take(st, segs, 32)
        if t is None:
            return out, segs, "short"
        c.head, rest = t
        if segs[0][0] != "c" or not segs[0][1].startswith(spec.OBJ_SIGNATURE):
            return out, segs, "no container"
        c.declared = st.norm(read_item(st, c.head, 8, "u4", 4))
        n = sub(c.declared, 32) if isinstance(c.declared, (int, Aff)) else None
        t = take(st, rest, n) if n is not None and st.le(0, n) is not False else None
        nxt = next((i for i, g in enumerate(rest) if i and g[0] == "c" and spec.OBJ_SIGNATURE in g[1][:12]), None)
        if t is None or (t[1] and not (strip_zeros(st, t[1])[1][:1] == [] or starts(strip_zeros(st, t[1])[1]))):
            # the declared size does not lead to the next container: take everything up to it
            cut = len(rest) if nxt is None else nxt
            c.data, segs = mkbs(rest[:cut]), rest[cut:]
        else:
            c.data, segs = t
            segs = drop_empty(st, segs)
        g = segs_of(c.data)
        if len(g) == 1 and g[0][0] == "s" and isinstance(g[0][1], Sym) and g[0][1].tag == "zcompress":
            c.method = 2
            c.content, c.level, c.wbits = g[0][1].args
            if st.eq(g[0][2], 0) is not True or st.eq(sub(g[0][3], atom(Sym("len", (g[0][1],), "int"))), 0) is not True:
                c.opaque = True
        else:
            c.method = 0
            c.content = c.data
            c.opaque = any(x[0] == "s" and isinstance(x[1], Sym) and x[1].tag in ("zcompress", "getvalue", "bsbox") or x[0] == "o" for x in g)
        at = st.norm(add(at, add(32, bslen(c.data))))
        out.append(c)
    return out, [], None


def starts(segs):
    return bool(segs) and segs[0][0] == "c" and segs[0][1].startswith(spec.OBJ_SIGNATURE)
