"""C01 C02 C03 C05: encode/decode obligations over the provenance of every byte."""
from functools import partial

from . import spec
from .codec import (CTX, Scenario, add, at, bs_equal, bs_slice, bslen, build_object, construct, decode_scenarios, encode_scenarios,
                    fixed_values, fld, getpath, is_zeros, match, match_value, no_bytes, mkbs, num_equal, opaque, opaque_bytes, restrict,
                    same_num, seqitems, sort_pts, src, strip, sym_value, syms_of, tobs, u, unless_shown, whole, show, slen)
from .interp import AnalysisBroken, Interp, Raised
from .refute import shown
from .state import BA, Inst
from .terms import Bs, Ref, Sym, atom, sub

ENUM_INT = [n for n, (k, _) in spec.ENUMS.items() if k == "IntEnum"]


def call(I, st, obj, name, args, kw=None):
    return I.call_attr(st, obj, name, list(args), dict(kw or {}), None, CTX())


def sig(e):
    return f"{e.exc} at {e.loc}"


def restrict_enums(I, st, s, fields, base=0):
    for path, off, kind, enum in fields:
        if enum and spec.ENUMS[enum][0] == "IntEnum" and enum != "Compression":
            restrict(I, st, u(kind, s, add(base, off)), list(spec.ENUMS[enum][1].values()))


def symoff(name="offset"):
    return atom(Sym("field", (name, (0, 1 << 40)), "int"))


class NestedCase:
    """decode scenario of a nested structure or of the file header through one of its entry points"""

    def __init__(self, P, I, name, lay, method, free=False):
        fields, size = lay
        self.cls = P.find(name)
        self.size = size
        self.fields = fields
        self.method = method
        st = P.fresh_state()
        s = src()
        if method == "unpack":
            off = 0
            st.assume_eq(slen(s), size)
        else:
            off = symoff()
            st.assume_le(add(off, size), slen(s))
        if not free:
            restrict_enums(I, st, s, fields, off)
        self.values, self.covered = fixed_values(s, fields, off)
        self.st, self.s, self.off = st, s, off
        self.args = [whole(s)] if method == "unpack" else [whole(s), off]


def nested_cases(P, I, free=False):
    for name, (lay, methods) in spec.NESTED.items():
        for m in ("unpack", "unpack_from"):
            if m in methods:
                yield name, methods, partial(NestedCase, P, I, name, lay, m, free)
    yield "FileStatistics", ("unpack", "pack"), partial(NestedCase, P, I, "FileStatistics", spec.FILEHEADER, "unpack", free)


def need(I, st, cls, m):
    if I.class_attr(st, cls, m) is None:
        raise AnalysisBroken(f"{cls.name}.{m} not found")


def label(path, d):
    return path


# ------------------------------------------------------------------------------------------------ C01
def c01(P, chk):
    for rec in spec.RECORDS.values():
        with chk.group(rec.name):
            I = Interp(P)
            cls = P.find(rec.name)
            for sc in decode_scenarios(P, I, rec):
                k0 = f"{rec.name}/{sc.name}"
                for st, v in call(I, sc.st, cls, "unpack", [sc.buf]):
                    if isinstance(v, Raised):
                        chk.decide(k0 + "/decode", False, f"decoding a well-formed record raises {v.exc}", v.loc, st)
                        continue
                    for st2, r in call(I, st, v, "pack", []):
                        chk.use(st2)
                        if isinstance(r, Raised):
                            chk.decide(k0 + "/encode", False, f"encoding the decoded record raises {r.exc}", r.loc, st2)
                            continue
                        b = tobs(st2, r)
                        if b is None:
                            chk.decide(k0 + "/encode", no_bytes(st2, r), f"pack() gives {show(r)}, not bytes that can be followed", "", st2)
                            continue
                        b = st2.norm_bs(b)
                        n = st2.norm(bslen(b))
                        site = f"{cls.mod}.{rec.name}.pack"
                        lo, hi = st2.le(sc.end, n), st2.le(n, sc.size)
                        if opaque(n) and None in (lo, hi) and shown(st2, (n, sc.end, sc.size), lambda a, b, c: not b <= a <= c):
                            lo = False
                        chk.decide(k0 + "/length", lo is not False and hi is not False and (lo and hi or None),
                                   f"encoding is {show(n)} bytes long; the contents end at {show(sc.end)}, the declared size is {show(sc.size)}",
                                   site, st2)
                        if lo is not True:
                            continue
                        for path, d in sc.values.items():
                            a, z = rng(st2, d)
                            if st2.eq(a, z) is True:
                                chk.ok(f"{k0}/{path}")
                                continue
                            x, y = st2.norm_bs(bs_slice(st2, b, a, z)), st2.norm_bs(mkbs([("s", sc.s, a, z)]))
                            chk.decide(f"{k0}/{path}", same(st2, x, y), f"bytes {show(a)}..{show(z)} come back as {show(x)}", site, st2)
                        gaps(chk, k0 + "/gaps", st2, b, n, sc.s, [rng(st2, d) for d in sc.values.values()], site)
    # nested structures and headers: any offset
    I = Interp(P)
    for name, methods, mk in nested_cases(P, I):
        with chk.group(name):
            nc = mk()
            need(I, nc.st, nc.cls, nc.method)
            for st, v in call(I, nc.st, nc.cls, nc.method, nc.args):
                k0 = f"{name}/{nc.method}"
                if isinstance(v, Raised):
                    chk.decide(k0 + "/decode", False, f"decoding {nc.size} available bytes raises {v.exc}", v.loc, st)
                    continue
                for pm in ("pack", "pack_into"):
                    if pm not in methods:
                        continue
                    nested_encode(I, chk, f"{k0}-{pm}", st.clone(), v, pm, nc.size, nc.fields,
                                  lambda s2, b, lo, hi, nc=nc: (mkbs([("s", nc.s, add(nc.off, lo), add(nc.off, hi))])), nc.cls)
    # the default offset is zero
    for name, (lay, methods) in spec.NESTED.items():
        with chk.group(name):
            if "unpack_from" in methods:
                nc = NestedCase(P, I, name, lay, "unpack_from")
                st, s = P.fresh_state(), src()
                st.assume_le(nc.size, slen(s))
                restrict_enums(I, st, s, lay[0])
                vals, _ = fixed_values(s, lay[0])
                for st2, v in call(I, st, nc.cls, "unpack_from", [whole(s)]):
                    chk.use(st2)
                    ok = not isinstance(v, Raised) and fields_ok(I, st2, s, v, vals)
                    chk.decide(f"{name}/unpack_from/default offset", ok, "decoding without an offset does not start at 0", f"{name}.unpack_from",
                               st2)


def fields_ok(I, st, s, v, vals):
    res = True
    for p, d in vals.items():
        try:
            m, _ = match(st, s, getpath(I, st, v, p), d)
        except KeyError:
            return False
        if m is False:
            return False
        if m is None:
            res = None
    return res


def same(st, x, y):
    if bs_equal(st, x, y):
        return True
    if unless_shown(st, x, y) is False:
        return False
    n = st.norm(bslen(x))
    if n in (1, 2, 4, 8) and st.eq(bslen(x), bslen(y)) is True:
        a, b = at(st, x, 0, f"u{n}"), at(st, y, 0, f"u{n}")
        if same_num(st, a, b) is False:
            return False
    return None


def rng(st, d):
    if d[0] in ("num", "raw", "vec"):
        return st.norm(d[2]), st.norm(add(d[2], spec.ksize(d[1])))
    return st.norm(d[2]), st.norm(d[3])


def gaps(chk, key, st, b, n, s, covered, site):
    """bytes outside every field come back as zero or as they were"""
    pts = sorted_ranges(st, covered)
    if pts is None:
        chk.undecided(key, "cannot order the parts of the record", site)
        return
    lo = 0
    for a, z in pts + [(n, None)]:
        if st.le(n, a) is True:
            a = n
        if st.eq(lo, a) is not True and st.le(lo, a) is True:
            x = st.norm_bs(bs_slice(st, b, lo, a))
            y = st.norm_bs(mkbs([("s", s, lo, a)])) if s is not None else b""
            chk.decide(key, is_zeros(x) or (s is not None and bs_equal(st, x, y)), f"bytes {show(lo)}..{show(a)} are {show(x)}, not zero",
                       site, st)
        if z is None:
            break
        lo = z
    chk.note(key, "ok")


def sorted_ranges(st, rs):
    rs = [(a, z) for a, z in rs if st.eq(a, z) is not True]
    pts = sort_pts(st, [a for a, _ in rs])
    if pts is None:
        return None
    out = []
    left = list(rs)
    for p in pts:
        for r in left:
            if st.eq(r[0], p) is True:
                out.append(r)
                left.remove(r)
                break
    return out


def nested_encode(I, chk, key, st, v, pm, size, fields, want, cls):
    site = f"{cls.name}.{pm}"
    need(I, st, cls, pm)
    if pm == "pack":
        res = call(I, st, v, "pack", [])
        base = 0
    else:
        d = src("D")
        base = symoff("target")
        st.assume_le(add(base, size), slen(d))
        buf = st.alloc(BA(whole(d)))
        res = call(I, st, v, "pack_into", [buf, base])
    for st2, r in res:
        chk.use(st2)
        if isinstance(r, Raised):
            chk.decide(key + "/encode", False, f"encoding raises {r.exc}", r.loc, st2)
            continue
        b = tobs(st2, r if pm == "pack" else buf)
        if b is None:
            chk.undecided(key + "/encode", "result not understood", site)
            continue
        b = st2.norm_bs(b)
        n = st2.norm(bslen(b))
        if pm == "pack":
            if chk.decide(key + "/length", st2.eq(n, size), f"encoding is {show(n)} bytes, not {size}", site, st2) is not True:
                continue
        else:
            if chk.decide(key + "/length", st2.eq(n, slen(d)), "pack_into changes the length of the buffer", site, st2) is not True:
                continue
            for a, z, w in ((0, base, "before"), (add(base, size), slen(d), "after")):
                x, y = bs_slice(st2, b, a, z), mkbs([("s", d, a, z)])
                chk.decide(f"{key}/bytes {w}", bs_equal(st2, x, y), f"pack_into changes bytes {w} the structure", site, st2)
        cov = []
        for path, off, kind, enum in fields:
            lo, hi = off, off + spec.ksize(kind)
            cov.append((lo, hi))
            x = st2.norm_bs(bs_slice(st2, b, add(base, lo), add(base, hi)))
            y = st2.norm_bs(want(st2, b, lo, hi))
            chk.decide(f"{key}/{path}", same(st2, x, y), f"bytes {lo}..{hi} come back as {show(x)}", site, st2)


# ------------------------------------------------------------------------------------------------ C02
def c02(P, chk):
    for rec in spec.RECORDS.values():
        with chk.group(rec.name):
            I = Interp(P)
            for ob in encode_scenarios(P, I, rec):
                k0 = f"{rec.name}/{ob.name}"
                cls = ob.st.get(ob.ref).cls
                for st, r in call(I, ob.st, ob.ref, "pack", []):
                    if isinstance(r, Raised):
                        chk.decide(k0 + "/encode", False, f"encoding a consistent object raises {r.exc}", r.loc, st)
                        continue
                    b = tobs(st, r)
                    if b is None:
                        chk.undecided(k0 + "/encode", "result of pack() not understood")
                        continue
                    for st2, v in call(I, st, cls, "unpack", [st.norm_bs(b)]):
                        chk.use(st2)
                        if isinstance(v, Raised):
                            chk.decide(k0 + "/decode", False, f"decoding the encoded object raises {v.exc}", v.loc, st2)
                            continue
                        o = st2.get(v) if isinstance(v, Ref) else None
                        chk.decide(k0 + "/class", isinstance(o, Inst) and o.cls is cls, f"decoding returns {show(v)}", f"{rec.name}.unpack", st2)
                        compare_fields(I, chk, k0, st2, v, ob.vals, f"{rec.name}.unpack")
    I = Interp(P)
    todo = [(n, lay, m) for n, (lay, m) in spec.NESTED.items()] + [("FileStatistics", spec.FILEHEADER, ("unpack", "pack"))]
    for name, (fields, size), methods in todo:
        with chk.group(name):
            for pm, um in (("pack", "unpack"), ("pack_into", "unpack_from")):
                if pm not in methods:
                    continue
                st, vals, ref, cls = nested_object(P, I, name, fields)
                k0 = f"{name}/{pm}-{um}"
                if pm == "pack":
                    res = [(s, r, []) for s, r in call(I, st, ref, pm, [])]
                else:
                    d, off = src("D"), symoff("target")
                    st.assume_le(add(off, size), slen(d))
                    buf = st.alloc(BA(whole(d)))
                    res = [(s, r if isinstance(r, Raised) else buf, [off]) for s, r in call(I, st, ref, pm, [buf, off])]
                for st2, r, extra in res:
                    if isinstance(r, Raised):
                        chk.decide(k0 + "/encode", False, f"encoding raises {r.exc}", r.loc, st2)
                        continue
                    b = tobs(st2, r)
                    if b is None:
                        chk.decide(k0 + "/encode", no_bytes(st2, r), f"encoding gives {show(r)}, not bytes that can be followed", "", st2)
                        continue
                    for st3, v in call(I, st2, cls, um, [st2.norm_bs(b)] + extra):
                        chk.use(st3)
                        if isinstance(v, Raised):
                            chk.decide(k0 + "/decode", False, f"decoding the encoded object raises {v.exc}", v.loc, st3)
                            continue
                        compare_fields(I, chk, k0, st3, v, vals, f"{name}.{um}")


def nested_object(P, I, name, fields):
    st = P.fresh_state()
    cls = P.find(name)
    vals = {p: sym_value(P, I, st, p, k, e, "") for p, o, k, e in fields}
    st, ref = build_object(P, I, st, cls, fields, vals)
    return st, vals, ref, cls


def compare_fields(I, chk, k0, st, v, vals, site):
    for path, want in vals.items():
        try:
            got = getpath(I, st, v, path)
        except KeyError:
            chk.decide(f"{k0}/{path}", False, "field missing on the decoded object", site, st)
            continue
        chk.decide(f"{k0}/{path}", match_value(I, st, got, want), f"decodes as {show(got)}, encoded was {show(want)}", site, st)


# ------------------------------------------------------------------------------------------------ C03
def c03(P, chk):
    hosts = Interp(P)
    for rec in spec.RECORDS.values():
        with chk.group(rec.name):
            I = hosts
            cls = P.find(rec.name)
            for sc in decode_scenarios(P, I, rec):
                k0 = f"{rec.name}/{sc.name}/read"
                for st, v in call(I, sc.st, cls, "unpack", [sc.buf]):
                    chk.use(st)
                    if isinstance(v, Raised):
                        chk.decide(k0, False, f"decoding a well-formed record raises {v.exc}", v.loc, st)
                        continue
                    layout(I, chk, k0, st, sc.s, v, sc.values, f"{rec.name}.unpack")
            for ob in encode_scenarios(P, I, rec):
                k0 = f"{rec.name}/{ob.name}/write"
                for st, r in call(I, ob.st, ob.ref, "pack", []):
                    chk.use(st)
                    b = None if isinstance(r, Raised) else tobs(st, r)
                    if isinstance(r, Raised) or b is None:
                        chk.decide(k0, False if isinstance(r, Raised) else None, f"encoding a consistent object fails: {show(r)}", "", st)
                        continue
                    b = st.norm_bs(b)
                    n = st.norm(bslen(b))
                    if st.le(ob.end, n) is not True:
                        chk.decide(k0 + "/length", st.le(ob.end, n), f"encoding ends at {show(n)} before its contents do ({show(ob.end)})", "", st)
                        continue
                    wlayout(I, chk, k0, st, b, ob.vals, ob.where, f"{rec.name}.pack")
    I = hosts
    for name, methods, mk in nested_cases(P, I):
        with chk.group(name):
            nc = mk()
            for st, v in call(I, nc.st, nc.cls, nc.method, nc.args):
                chk.use(st)
                k0 = f"{name}/{nc.method}"
                if isinstance(v, Raised):
                    chk.decide(k0, False, f"decoding {nc.size} available bytes raises {v.exc}", v.loc, st)
                    continue
                layout(I, chk, k0, st, nc.s, v, nc.values, f"{name}.{nc.method}")
    todo = [(n, lay, m) for n, (lay, m) in spec.NESTED.items()] + [("FileStatistics", spec.FILEHEADER, ("unpack", "pack"))]
    for name, (fields, size), methods in todo:
        with chk.group(name):
            if "pack" in methods:
                st, vals, ref, cls = nested_object(P, I, name, fields)
                for st2, r in call(I, st, ref, "pack", []):
                    chk.use(st2)
                    b = None if isinstance(r, Raised) else tobs(st2, r)
                    if b is None:
                        chk.decide(f"{name}/pack", no_bytes(st2, r), f"encoding fails: {show(r)}", "", st2)
                        continue
                    n = st2.norm(bslen(b))
                    if chk.decide(f"{name}/pack/length", st2.eq(n, size), f"{show(n)} bytes, format has {size}", f"{name}.pack", st2):
                        wlayout(I, chk, f"{name}/pack", st2, st2.norm_bs(b), vals, {p: (k, o) for p, o, k, e in fields}, f"{name}.pack")
            if "pack_into" in methods:
                st, vals, ref, cls = nested_object(P, I, name, fields)
                d, off = src("D"), symoff("target")
                st.assume_le(add(off, size), slen(d))
                buf = st.alloc(BA(whole(d)))
                for st2, r in call(I, st, ref, "pack_into", [buf, off]):
                    chk.use(st2)
                    b = None if isinstance(r, Raised) else tobs(st2, buf)
                    if b is None:
                        chk.decide(f"{name}/pack_into", False if isinstance(r, Raised) else None, f"encoding fails: {show(r)}", "", st2)
                        continue
                    wlayout(I, chk, f"{name}/pack_into", st2, st2.norm_bs(b), vals, {p: (k, add(off, o)) for p, o, k, e in fields},
                            f"{name}.pack_into")
    # host independence of every conversion that took part
    n = 0
    for sv, locs in sorted(hosts.struct_uses.items(), key=lambda x: x[0].fmt):
        for loc in sorted(locs):
            n += 1
            fn = loc.split("(")[-1].rstrip(")")
            chk.decide(f"host/{fn}/{sv.fmt}", not sv.host_dependent,
                       f"struct format {sv.fmt!r} takes byte order, alignment or width from the host", loc)
    chk.scope["struct_conversion_sites"] = n
    sizes = {"ObjectHeaderBase": 16, "ObjectHeader": 32, "VarObjectHeader": 32, "FileStatistics": 144}
    for name, want in sizes.items():
        st = P.fresh_state()
        got = I.class_attr(st, P.find(name), "SIZE")
        if got is not None:
            chk.decide(f"size/{name}", got == want, f"{name}.SIZE is {show(got)}, format has {want}", name)


def layout(I, chk, k0, st, s, v, values, site):
    for ev in st.events:
        if ev[0] == "hostorder":
            chk.decide("host/" + str(ev[1]), False, "byte order of the host used", ev[1], st)
    for path, d in values.items():
        try:
            got = getpath(I, st, v, path)
        except KeyError:
            chk.decide(f"{k0}/{path}", False, "field missing", site, st)
            continue
        ok, want = match(st, s, got, d)
        chk.decide(f"{k0}/{path}", ok, f"read as {show(got)}, format has {want}", site, st)


def wlayout(I, chk, k0, st, b, vals, where, site):
    for path, w in where.items():
        want = vals[path]
        if w[0] == "part":
            _, pos, ln, codec, v = w
            pos, hi = st.norm(pos), st.norm(add(pos, ln))
            if st.eq(pos, hi) is True:
                chk.ok(f"{k0}/{path}")
                continue
            x = st.norm_bs(bs_slice(st, b, pos, hi))
            y = st.norm_bs(Bs((("e", (codec, "strict"), v),)) if codec else v)
            chk.decide(f"{k0}/{path}", same(st, x, y), f"bytes {show(pos)}..{show(hi)} hold {show(x)}, format has {path}", site, st)
            continue
        kind, off = w
        if kind[0] == "s":
            x = st.norm_bs(bs_slice(st, b, off, add(off, spec.ksize(kind))))
            ok, got = same(st, x, st.norm_bs(want)), x
        elif "*" in kind:
            n, k = kind.split("*")
            got = [at(st, b, add(off, i * spec.SIZES[k]), k) for i in range(int(n))]
            r = [match_value(I, st, g, x) for g, x in zip(got, want)]
            ok = True if all(x is True for x in r) else False if any(x is False for x in r) else None
        else:
            got = at(st, b, off, kind)
            ok = match_value(I, st, got, want)
        chk.decide(f"{k0}/{path}", ok, f"{kind} at {show(off)} holds {show(got)}, format has {path}", site, st)


# ------------------------------------------------------------------------------------------------ C05
def c05(P, chk):
    for rec in spec.RECORDS.values():
        if not rec.opt:
            continue
        with chk.group(rec.name):
            I = Interp(P)
            cls = P.find(rec.name)
            for slack in (False, True):
                for sc in decode_scenarios(P, I, rec, slack):
                    k0 = f"{rec.name}/{sc.name}/decode" + ("/longer buffer" if slack else "")
                    for st, v in call(I, sc.st, cls, "unpack", [sc.buf]):
                        chk.use(st)
                        if isinstance(v, Raised):
                            chk.decide(k0, False, f"decoding raises {v.exc}: a part that is not present is read", v.loc, st)
                            continue
                        chk.ok(k0)
                        for p in sc.absent:
                            got = getpath(I, st, v, p)
                            g = strip(got)
                            chk.decide(f"{k0}/{p}", isinstance(g, (int, float)) and g == 0 or (None if syms_unknown(g) else False),
                                       f"absent part decodes as {show(got)} instead of 0", f"{rec.name}.unpack", st)
                        pres = {p: d for p, d in sc.values.items() if p in optfields(rec)}
                        layout(I, chk, k0, st, sc.s, v, pres, f"{rec.name}.unpack")
            for honest in (True, False):
                for ob in encode_scenarios(P, I, rec, honest):
                    k0 = f"{rec.name}/{ob.name}/encode" + ("" if honest else "/fields set")
                    absent = [p for p in optfields(rec) if p not in ob.where]
                    for st, r in call(I, ob.st, ob.ref, "pack", []):
                        chk.use(st)
                        b = None if isinstance(r, Raised) else tobs(st, r)
                        if b is None:
                            chk.decide(k0, False if isinstance(r, Raised) else None, f"encoding fails: {show(r)}", "", st)
                            continue
                        b = st.norm_bs(b)
                        n = st.norm(bslen(b))
                        site = f"{rec.name}.pack"
                        if chk.decide(k0 + "/length", st.eq(n, ob.size), f"encoding is {show(n)} bytes, declared are {show(ob.size)}", site, st) is not True:
                            continue
                        wlayout(I, chk, k0, st, b, ob.vals, ob.where, site)
                        syms = {s.args[0] for s in syms_of(b) if s.tag == "field"}
                        for p in absent:
                            chk.decide(f"{k0}/{p}", p not in syms, f"absent part {p} is written into the record", site, st)
                        cov = []
                        for p, w in ob.where.items():
                            if w[0] == "part":
                                cov.append((st.norm(w[1]), st.norm(add(w[1], w[2]))))
                            else:
                                cov.append((st.norm(w[1]), st.norm(add(w[1], spec.ksize(w[0])))))
                        gaps(chk, k0 + "/gaps", st, b, n, None, cov, site)


def syms_unknown(g):
    return isinstance(g, Sym) and g.tag in ("unk", "fresh")


def optfields(rec):
    if rec.opt[0] == "ext":
        return [p for p, *_ in spec.lay(rec.opt[2], 0)[0]]
    return [p for f, a, z in rec.opt[1] for p, *_ in spec.lay(f, 0)[0]]
