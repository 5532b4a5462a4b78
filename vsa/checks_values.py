"""C14 C15 C16 C17 C21: purity, factories, calendar times, enumerations, equality."""
from functools import partial

from . import memo, spec
from .checks_codec import call, compare_fields, nested_cases, nested_object, symoff
from .codec import (CTX, add, build_object, decode_scenarios, encode_scenarios, enum_members, fixed_values, fld, fresh_record_bytes, getpath, is_zeros, no_bytes,
                    match_value, opaque, same_num, seqitems, slen, src, strip, sym_value, u, whole)
from .diff import consistent, table
from .interp import AnalysisBroken, ClassM, ClassV, ExtV, FuncV, Interp, Raised, StaticM
from .models import possible, tobs
from .state import BA, DictO, Inst, ListO, bslen, opaque_bytes, syms_of
from .terms import Aff, Bs, EnumVal, Ref, Sym, VTuple, atom, show

CAL = ["year", "month", "day", "hour", "minute", "second"]
RANGES = {"year": (1, 9999), "month": (1, 12), "day": (1, 31), "hour": (0, 23), "minute": (0, 59), "second": (0, 59),
          "day_of_week": (0, 6), "milliseconds": (0, 999)}


# ------------------------------------------------------------------------------------------------ C16
def plain_dt(v):
    """the date-time a term is about, seen through conversions that keep every component"""
    while isinstance(v, Sym) and v.tag == "dtm" and v.args[0] == "replace" and all(isinstance(a, tuple) and a[0] == "tzinfo" for a in v.args[2:]):
        v = v.args[1]
    return v


def dtfix(v):
    """drop component-preserving conversions inside a term"""
    if isinstance(v, Aff):
        return Aff(v.c, tuple((dtfix(s), k) for s, k in v.t))
    if isinstance(v, Sym):
        if v.tag == "dtattr":
            return Sym("dtattr", (plain_dt(v.args[0]), v.args[1]), v.ty)
        return Sym(v.tag, tuple(dtfix(a) if isinstance(a, (Sym, Aff)) else a for a in v.args), v.ty)
    return v


def c16(P, chk):
    I = Interp(P)
    cls = P.find("SystemTime")
    dt = Sym("dt", (), "datetime")
    with chk.group("from_datetime"):
        site = "SystemTime.from_datetime"
        wd, us = Sym("dtattr", (dt, "weekday"), "int"), Sym("dtattr", (dt, "microsecond"), "int")
        points = sorted({min(999999, max(0, 1000 * k + d)) for k in range(1000) for d in (0, 1, 499, 500, 501, 999)})
        seen = set()
        for st, v in call(I, P.fresh_state(), cls, "from_datetime", [dt]):
            chk.use(st)
            if isinstance(v, Raised):
                chk.decide("from_datetime/total", False, f"converting a date-time raises {v.exc}", v.loc, st)
                continue
            for f in CAL:
                got = dtfix(strip(getpath(I, st, v, f)))
                chk.decide(f"from_datetime/{f}", same_num(st, got, atom(Sym("dtattr", (dt, f), "int"))), f"{f} becomes {show(got)}", site, st)
            got = dtfix(strip(getpath(I, st, v, "day_of_week")))
            tb = table(st, wd, range(7), got)
            chk.decide("from_datetime/day_of_week", None if tb is None else all(y == (x + 1) % 7 for x, y in tb),
                       f"day_of_week becomes {show(got)}; Sunday must be 0", site, st)
            got = dtfix(strip(getpath(I, st, v, "milliseconds")))
            tb = table(st, us, points, got)
            if tb is None:
                chk.decide("from_datetime/milliseconds", None, f"milliseconds become {show(got)}", site, st)
            else:
                seen |= {x for x, _ in tb}
                bad = [(x, y) for x, y in tb if not 0 <= y <= 999 or (x % 1000 == 0 and y * 1000 != x) or abs(1000 * y - x) > 999]
                chk.decide("from_datetime/milliseconds", not bad, f"milliseconds become {show(got)}" +
                           (f": {bad[0][0]} us give {bad[0][1]} ms" if bad else ""), site, st)
                lo, hi = st.range(got)
                chk.decide("from_datetime/milliseconds/range", (0 <= lo and hi <= 999) or None, f"range {lo}..{hi} not shown to be in 0..999", site, st)
    with chk.group("to_datetime"):
        site = "SystemTime.to_datetime"
        st = P.fresh_state()
        vals = {f: atom(Sym("field", (f, RANGES[f]), "int")) for f in RANGES}
        st, ref = build_object(P, I, st, cls, None, vals)
        ms = Sym("field", ("milliseconds", RANGES["milliseconds"]), "int")
        for st2, v in call(I, st, ref, "to_datetime", []):
            chk.use(st2)
            if isinstance(v, Raised):
                chk.decide("to_datetime/total", False, f"converting a legal calendar time raises {v.exc}", v.loc, st2)
                continue
            v = plain_dt(v)
            if not isinstance(v, Sym) or v.tag != "dtnew":
                chk.decide("to_datetime/value", None, f"result {show(v)} not understood", site, st2)
                continue
            a = dict(zip(["year", "month", "day", "hour", "minute", "second", "microsecond"], v.args))
            for f in CAL:
                chk.decide(f"to_datetime/{f}", same_num(st2, a[f], vals[f]), f"{f} becomes {show(a[f])}", site, st2)
            tb = table(st2, ms, range(1000), strip(a["microsecond"]))
            chk.decide("to_datetime/microsecond", None if tb is None else all(y == 1000 * x for x, y in tb),
                       f"microseconds become {show(a['microsecond'])}, not 1000 * milliseconds", site, st2)


# ------------------------------------------------------------------------------------------------ C17
def c17(P, chk):
    for name, (kind, want) in spec.ENUMS.items():
        with chk.group(name):
            c = enum_members(P, name)
            for m, v in want.items():
                got = c.members.get(m)
                chk.decide(f"{name}/{m}", got == v and not isinstance(got, bool), f"{name}.{m} is {show(got)}, the format has {v}", name)
            chk.decide(f"{name}/kind", (c.enum == "flag") == (kind == "IntFlag"), f"{name} is not an {kind} any more", name)
    for rec in spec.RECORDS.values():
        with chk.group(rec.name):
            I = Interp(P)
            hdr, _ = spec.HEADERS[rec.header]
            efields = [(("header." + p), o, k, e) for p, o, k, e in hdr if e] + [f for f in rec.fixed if f[3]]
            for path, off, kind, enum in efields:
                for sc in decode_scenarios_free(P, I, rec, path):
                    enum_field(I, chk, f"{rec.name}/{path}", sc.st, P.find(rec.name), "unpack", [sc.buf], path, u(kind, sc.s, off), enum)
    I = Interp(P)
    for name, methods, mk in nested_cases(P, I, free=True):
        with chk.group(name):
            nc = mk()
            for path, off, kind, enum in nc.fields:
                if enum:
                    enum_field(I, chk, f"{name}/{nc.method}/{path}", nc.st.clone(), nc.cls, nc.method, nc.args, path,
                               u(kind, nc.s, add(nc.off, off)), enum, others=[(p, u(k, nc.s, add(nc.off, o)), e) for p, o, k, e in nc.fields
                                                                               if e and p != path])


def decode_scenarios_free(P, I, rec, path):
    """decode scenarios in which the enumerated field at path holds any number"""
    scs = decode_scenarios(P, I, rec, free=path)
    return scs[:1]


def enum_field(I, chk, key, st, cls, method, args, path, raw, enum, others=()):
    from .models import restrict
    c = enum_members(I.program, enum)
    kind, want = spec.ENUMS[enum]
    for p, r, e in others:
        if spec.ENUMS[e][0] == "IntEnum":
            restrict(I, st, r, list(spec.ENUMS[e][1].values()))
    site = f"{cls.name}.{method}"
    members = set(c.members.values())
    for st2, v in call(I, st, cls, method, args):
        chk.use(st2)
        ps = possible(I, st2, raw)
        is_member = admitted(I, st2, raw, members)
        if isinstance(v, Raised):
            if kind == "IntFlag":
                chk.decide(key + "/any bits", False, f"flag bits the library does not name raise {v.exc}", v.loc, st2)
            elif enum in spec.UNKNOWN_OK or enum == "Compression":
                chk.decide(key + "/no error", False, f"a number without a name raises {v.exc}", v.loc, st2)
            else:
                chk.decide(key + "/named", not is_member, f"the named value {sorted(is_member)[:1]} raises {v.exc}", v.loc, st2)
            continue
        try:
            got = getpath(I, st2, v, path)
        except KeyError:
            chk.decide(key, False, "field missing", site, st2)
            continue
        num = strip(got)
        eq = same_num(st2, num, raw)
        if eq is not True and enum in spec.UNKNOWN_OK and st2.eq(num, spec.UNKNOWN_OK[enum]) is True if isinstance(num, (int, Aff)) else False:
            chk.decide(key + "/unknown", not [m for m in is_member if m != spec.UNKNOWN_OK[enum]],
                       f"the named value {sorted(is_member)[:1]} becomes unknown", site, st2)
        else:
            chk.decide(key + "/number", eq, f"the number decodes as {show(got)}", site, st2)
        if isinstance(got, EnumVal):
            chk.decide(key + "/type", got.cls is c, f"decodes as {got.cls.name}", site, st2)
            if c.enum != "flag":
                outside = ps is None or not (ps - excluded_set(st2, raw)) <= members
                if eq is True and outside:
                    chk.decide(key + "/member", None, "cannot show that the number has a name", site, st2)
        elif kind == "IntEnum" and enum != "Compression":
            chk.decide(key + "/type", None if opaque(num) else False, f"a value of {enum} comes back as a plain number", site, st2)


def excluded_set(st, raw):
    from .models import excluded
    return set(excluded(st, raw))


def admitted(I, st, raw, members):
    """members the number can still be on this path"""
    ps, ex = possible(I, st, raw), excluded_set(st, raw)
    return [m for m in members if (ps is None or m in ps) and m not in ex and st.eq(raw, m) is not False]


# ------------------------------------------------------------------------------------------------ C15
ALIAS = {"time_stamp": ["header.object_time_stamp"], "timestamp": ["header.object_time_stamp"], "flags": ["header.object_flags"]}


def c15(P, chk):
    found = 0
    for cls in P.classes():
        I = Interp(P)
        if I.class_attr(P.base, cls, "new") is None:
            continue
        if cls.name not in spec.RECORDS and cls.name not in spec.NESTED and cls.name != "FileStatistics" or cls.name not in ANCHORS(P, cls):
            continue
        found += 1
        with chk.group(cls.name):
            if cls.name == "FileStatistics":
                new_file_header(P, I, chk, cls)
            else:
                factory(P, I, chk, cls)
    for n in ("CanMessage", "CanMessage2", "CanFdMessage", "LogContainer", "ObjectHeader", "FileStatistics"):
        with chk.group(n):
            if I.class_attr(P.base, P.find(n), "new") is None:
                raise AnalysisBroken(f"{n}.new not found")
    chk.scope["factories"] = found


def ANCHORS(P, cls):
    return {cls.name} if P.find(cls.name) is cls else set()


def params(I, st, cls):
    f = I.class_attr(st, cls, "new")
    f = f.f if isinstance(f, (ClassM, StaticM)) else f
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    return names[1:] if not isinstance(I.class_attr(st, cls, "new"), StaticM) else names


def field_table(cls):
    """{path: (kind, enum)} of every field of a record or nested structure"""
    out = {}
    if cls.name in spec.RECORDS:
        rec = spec.RECORDS[cls.name]
        hdr, _ = spec.HEADERS[rec.header]
        out.update({"header." + p: (k, e) for p, o, k, e in hdr})
        out.update({p: (k, e) for p, o, k, e in rec.fixed})
        out.update({p: ("text" if c else "bytes", None) for p, c, r in rec.parts})
    else:
        lay = spec.NESTED[cls.name][0] if cls.name in spec.NESTED else spec.FILEHEADER
        out.update({p: (k, e) for p, o, k, e in lay[0]})
    return out


def factory(P, I, chk, cls):
    st = P.fresh_state()
    site = f"{cls.name}.new"
    table_ = field_table(cls)
    kw, where = {}, {}
    for p in params(I, st, cls):
        cands = [q for q in (p, "base." + p, "header." + p, "header.base." + p) if q in table_]
        cands += [q for q in ALIAS.get(p, ()) if q in table_]
        if not cands:
            # a field of the header under another name, or a setting without a field
            kw[p] = atom(Sym("field", ("arg." + p, "u2"), "int"))
            where[p] = None
            continue
        kind, enum = table_[cands[0]]
        if kind[0] == "s":
            n = atom(Sym("len", (Sym("field", ("arg." + p, "bytes"), "bytes"),), "int"))
            v = opaque_bytes(Sym("field", ("arg." + p, "bytes"), "bytes"))
            st.assume_le(bslen(v), int(kind[1:]))
        elif kind == "bytes":
            v = opaque_bytes(Sym("field", ("arg." + p, "bytes"), "bytes"))
        elif kind == "text":
            v = Sym("field", ("arg." + p, "str"), "str")
        else:
            v = sym_value(P, I, st, p, kind, enum, "arg.")
        kw[p], where[p] = v, (cands[0], kind)
    built(P, I, chk, cls, st, table_, kw, where, cls.name)
    opt = optional(I, st, cls)
    if opt:
        keep = {p: v for p, v in kw.items() if p not in opt}
        built(P, I, chk, cls, st, table_, keep, {p: where[p] for p in keep}, f"{cls.name} with defaults")


def optional(I, st, cls):
    """parameters of new() that need not be given"""
    f = I.class_attr(st, cls, "new")
    f = f.f if isinstance(f, (ClassM, StaticM)) else f
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    return set(pos[len(pos) - len(a.defaults):] if a.defaults else ()) | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}


def built(P, I, chk, cls, st, table_, kw, where, k0):
    site = f"{cls.name}.new"
    base = "base." if cls.name not in spec.RECORDS else "header.base."
    for st2, ob in call(I, st, cls, "new", [], kw):
        chk.use(st2)
        if isinstance(ob, Raised):
            chk.decide(k0 + "/total", False, f"{site} raises {ob.exc}", ob.loc, st2)
            continue
        for p, w in where.items():
            path = w[0] if w else None
            if path is None:
                # the header may have a field of this name that the format table calls something else
                for q in (p, "header." + p):
                    try:
                        getpath(I, st2, ob, q)
                        path = q
                    except KeyError:
                        pass
                if path is None:
                    chk.decide(f"{k0}/{p}", None, "no field of this name", site, st2)
                    continue
            got = getpath(I, st2, ob, path)
            want = kw[p]
            ok = match_value(I, st2, got, want)
            if ok is not True and w and w[1][0] == "s":
                ok = padded(st2, got, want)
            chk.decide(f"{k0}/{p}", ok, f"argument {p} ends up as {show(got)} in {path}", site, st2)
        fixed = {"signature": spec.OBJ_SIGNATURE, "header_size": 32, "header_version": 1}
        for f, want in fixed.items():
            got = getpath(I, st2, ob, base + f)
            chk.decide(f"{k0}/{f}", match_value(I, st2, got, want), f"{f} is {show(got)}, the format has {want}", site, st2)
        for q, (kind, enum) in table_.items():
            leaf = q.rpartition(".")[2]
            if leaf in kw or any(w and w[0] == q for w in where.values()):
                continue
            if leaf.startswith("reserved") or leaf in ("client_index", "object_version"):
                try:
                    got = getpath(I, st2, ob, q)
                except KeyError:
                    continue
                if kind[0] == "s" or kind == "bytes":
                    b = tobs(st2, got)
                    z = None if b is None else is_zeros(st2.norm_bs(b))
                else:
                    z = match_value(I, st2, got, 0)
                chk.decide(f"{k0}/{q} is zero", z, f"{q}, which no argument fills, is {show(got)}", site, st2)
        own_object(I, chk, f"{k0}/own object", cls, st2, ob, kw, site)
        if cls.name not in spec.RECORDS:
            continue
        rec = spec.RECORDS[cls.name]
        t = strip(getpath(I, st2, ob, base + "object_type"))
        chk.decide(f"{k0}/object_type", (t in rec.types) if isinstance(t, int) else None,
                   f"type code {show(t)} does not dispatch to {cls.name}", site, st2)
        size = getpath(I, st2, ob, base + "object_size")
        for path, _, rule in [(p, c, r) for p, c, r in rec.parts if r[0] == "field"]:
            try:
                n, d = getpath(I, st2, ob, rule[1]), getpath(I, st2, ob, path)
            except KeyError:
                continue
            b = tobs(st2, d)
            if b is not None:
                chk.decide(f"{k0}/{rule[1]}", st2.eq(strip(n), add(bslen(b), -rule[2])), f"{rule[1]} is {show(n)}, {path} has another length", site, st2)
        for lenf, part in (("valid_data_bytes", "data"),):
            if lenf in table_ and lenf not in kw and part in kw:
                n = getpath(I, st2, ob, lenf)
                chk.decide(f"{k0}/{lenf}", same_num(st2, n, bslen(tobs(st2, kw[part]))), f"{lenf} is {show(n)}, not the length of {part}", site, st2)
        for st3, r in call(I, st2, ob, "pack", []):
            b = None if isinstance(r, Raised) else tobs(st3, r)
            if b is None:
                chk.decide(f"{k0}/object_size", no_bytes(st3, r), f"the new object cannot be encoded: {show(r) if not isinstance(r, Raised) else r.exc}", site, st3)
                continue
            n = st3.norm(bslen(b))
            chk.decide(f"{k0}/object_size", same_num(st3, size, n), f"declared size {show(size)}, encoding has {show(n)} bytes", site, st3)


def own_object(I, chk, key, cls, st, ob, kw, site):
    """the next call returns another object and leaves this one alone"""
    given, mine = set(), set()
    for v in kw.values():
        reach(st, v, given)
    reach(st, ob, mine)
    before = st.clone()
    for st2, ob2 in call(I, st.clone(), cls, "new", [], kw):
        if isinstance(ob2, Raised):
            continue
        chk.use(st2)
        other = set()
        reach(st2, ob2, other)
        both = [st2.heap.get(i) or st2.base.get(i) for i in (mine & other) - given]
        both = [o for o in both if isinstance(o, (Inst, ListO, DictO, BA))]
        sure = [o for o in both if not isinstance(o, Inst) or o.cls.name in STRUCTURES and not frozen(o.cls)]
        bad = [f"two calls return objects that share a mutable {o.cls.name if isinstance(o, Inst) else type(o).__name__}" for o in (sure or both)[:1]]
        for e in st.events:
            o = st.get(e[3]) if e[0] == "cached" and isinstance(e[3], Ref) and e[3].id in mine - given else None
            if isinstance(o, (ListO, DictO, BA)) or isinstance(o, Inst) and o.cls.name in STRUCTURES and not frozen(o.cls):
                bad, sure = [f"a cache at {e[4]} gives the same {o.cls.name if isinstance(o, Inst) else type(o).__name__} to every such call"], True
        hit = [i for i in st2.changed(before) if i in mine - given]
        if hit and not sure:
            bad, sure = [f"the next call changes {describe(st2.heap[hit[0]], before.heap.get(hit[0]) or before.base.get(hit[0]))}"], True
        chk.decide(key, not bad or (False if sure else None), "; ".join(bad), site, st2)


STRUCTURES = set(spec.RECORDS) | set(spec.NESTED) | {"FileStatistics"}


def frozen(cls):
    return any(isinstance(b, ClassV) and b.dc and b.dc.get("frozen") for b in cls.mro())


def padded(st, got, want):
    """data filled up with zero bytes to the size of its slot still is the argument"""
    from .state import bs_slice
    g, w = tobs(st, got), tobs(st, want)
    if g is None or w is None:
        return None
    g = st.norm_bs(g)
    n = bslen(w)
    if st.le(n, bslen(g)) is not True:
        return False
    return bs_equal(st, bs_slice(st, g, 0, n), w) and is_zeros(st.norm_bs(bs_slice(st, g, n, bslen(g))))


def new_file_header(P, I, chk, cls):
    site = "FileStatistics.new"
    want = {"signature": spec.FILE_SIGNATURE, "statistics_size": 144, "file_size": 144, "uncompressed_file_size": 144, "object_count": 0,
            "restore_points_offset": 0}
    for st, ob in call(I, P.fresh_state(), cls, "new", []):
        chk.use(st)
        if isinstance(ob, Raised):
            chk.decide("FileStatistics/total", False, f"{site} raises {ob.exc}", ob.loc, st)
            continue
        own_object(I, chk, "FileStatistics/own object", cls, st, ob, {}, site)
        for f, w in want.items():
            got = getpath(I, st, ob, f)
            chk.decide(f"FileStatistics/{f}", match_value(I, st, got, w), f"{f} is {show(got)}, expected {w}", site, st)
        b = tobs(st, getpath(I, st, ob, "reserved"))
        chk.decide("FileStatistics/reserved", None if b is None else is_zeros(st.norm_bs(b)), "the reserved bytes are not zero", site, st)
        for st2, r in call(I, st, ob, "pack", []):
            b = None if isinstance(r, Raised) else tobs(st2, r)
            if b is None:
                chk.decide("FileStatistics/encoding", no_bytes(st2, r), "the new header cannot be encoded", site, st2)
                continue
            chk.decide("FileStatistics/encoding", st2.eq(bslen(b), 144), f"the new header has {show(bslen(b))} bytes", site, st2)


# ------------------------------------------------------------------------------------------------ C21
def all_objects(P, I):
    """(name, class, state, fields+parts values, builder) for every dataclass of the format"""
    for rec in spec.RECORDS.values():
        yield rec.name, partial(record_values, P, I, rec)
    for n, (lay, _) in list(spec.NESTED.items()) + [("FileStatistics", (spec.FILEHEADER, ()))]:
        yield n, partial(nested_values, P, I, n, lay[0])


def record_values(P, I, rec):
    st = P.fresh_state()
    hdr, _ = spec.HEADERS[rec.header]
    fields = [(("header." + p), k, e) for p, o, k, e in hdr] + [(p, k, e) for p, o, k, e in rec.fixed]
    if rec.opt and rec.opt[0] == "ext":
        fields += [(p, k, None) for p, o, k, e in spec.lay(rec.opt[2], 0)[0]]
    elif rec.opt:
        fields += [(p, k, None) for f, a, z in rec.opt[1] for p, o, k, e in spec.lay(f, 0)[0]]
    fields += [(p, "text" if c else "bytes", None) for p, c, r in rec.parts]
    return P.find(rec.name), st, fields, rec.header


def nested_values(P, I, name, lay):
    return P.find(name), P.fresh_state(), [(p, k, e) for p, o, k, e in lay], None


def value_of(P, I, st, p, k, e, label):
    if k == "text":
        return Sym("field", (label + p, "str"), "str")
    if k == "bytes":
        return opaque_bytes(Sym("field", (label + p, "bytes"), "bytes"))
    return sym_value(P, I, st, p, k, e, label)


def truths(I, st, a, b):
    out = []
    for s, r in I.compare(st, "==", a, b, None, CTX()):
        if isinstance(r, Raised):
            out.append((s, r))
        else:
            out.extend(I.truth(s, r, None, CTX()))
    return out


def c21(P, chk):
    I = Interp(P)
    objs = []
    for name, mk in all_objects(P, I):
        with chk.group(name):
            cls, st, fields, header = mk()
            vals = {p: value_of(P, I, st, p, k, e, "") for p, k, e in fields}
            st, a = build_object(P, I, st, cls, None, vals, header)
            st, b = build_object(P, I, st, cls, None, vals, header)
            site = f"{name}.__eq__"
            for s, t in truths(I, st.clone(), a, b):
                chk.use(s)
                chk.decide(f"{name}/same fields", t is True or (None if s.unk else False), "objects with the same field values are not equal", site, s)
            for s, t in negations(I, st.clone(), a, b):
                chk.use(s)
                chk.decide(f"{name}/same fields !=", t is False, "objects with the same field values are unequal by !=", site, s)
            for p, k, e in fields:
                one_field(P, I, chk, f"{name}/{p}", st.clone(), cls, a, vals, p, k, e, header, site)
            objs.append((name, cls, fields, header))
    with chk.group("classes"):
        by_names = {}
        for name, cls, fields, header in objs:
            by_names.setdefault(tuple(sorted(f[0] for f in fields)), []).append((name, cls, fields, header))
        pairs = [(x, y) for g in by_names.values() for x, y in zip(g, g[1:])] + list(zip(objs, objs[1:]))
        # a class and the classes derived from it
        for x in objs:
            pairs += [(y, x) for y in objs if y is not x and y[1] in x[1].mro()]
        pairs += [(y, x) for x, y in pairs]
        for x, y in pairs:
            st = P.fresh_state()
            va = {p: value_of(P, I, st, p, k, e, "") for p, k, e in x[2]}
            vb = {p: value_of(P, I, st, p, k, e, "") for p, k, e in y[2]}
            st, a = build_object(P, I, st, x[1], None, va, x[3])
            st, b = build_object(P, I, st, y[1], None, vb, y[3])
            for s, t in truths(I, st, a, b):
                chk.use(s)
                chk.decide(f"{x[0]} and {y[0]}", t is False, f"a {x[0]} and a {y[0]} can be equal", f"{x[0]}.__eq__", s)


def negations(I, st, a, b):
    out = []
    for s, r in I.compare(st, "!=", a, b, None, CTX()):
        out.extend([(s, r)] if isinstance(r, Raised) else I.truth(s, r, None, CTX()))
    return out


def one_field(P, I, chk, key, st, cls, a, vals, p, k, e, header, site):
    """objects that may differ in one field only: equal exactly if that field is"""
    if "*" in k:
        # vectors: differ in the last element
        other = list(vals[p])
        x, y = other[-1], fld("other." + p, k.split("*")[1])
        other[-1] = y
    else:
        other = value_of(P, I, st, p, k, e, "other.")
        x, y = vals[p], other
    st, b = build_object(P, I, st, cls, None, {**vals, p: other}, header)
    verdict = True
    why = ""
    for s, t in truths(I, st.clone(), a, b):
        chk.use(s)
        same = known_equal(I, s, x, y)
        if isinstance(t, Raised) or s.unk or same is None and t is False:
            verdict = None if verdict is True else verdict
        elif t and same is None and mentions(s, y):
            verdict = None if verdict is True else verdict
        elif t and same is not True:
            verdict, why = False, "objects that differ in this field are equal"
        elif not t and same is not False:
            verdict, why = False, "objects with equal values in this field are unequal"
    if verdict is not True and k not in ("text", "bytes") and k[0] not in "sf":
        # decide with constants instead
        verdict2 = constants(P, I, st, cls, a, vals, p, k, e, header)
        if verdict2 is not None:
            verdict, why = verdict2
    chk.decide(key, verdict, why, site, st)


def mentions(s, y):
    """is any fact of the path about y?"""
    ys = set(syms_of(y))
    leaf = {q for q in ys if q.tag == "field"}
    facts = [k for k in s.bools] + [q for k in s.bounds for q, _ in k] + [q for k in s.ne for q, _ in k]
    return any(leaf & set(syms_of(f)) for f in facts)


def known_equal(I, s, x, y):
    x, y = strip(x), strip(y)
    if isinstance(x, (int, Aff)) and isinstance(y, (int, Aff)):
        return s.eq(x, y)
    bx, by = tobs(s, x) if not isinstance(x, str) else None, tobs(s, y) if not isinstance(y, str) else None
    if bx is not None and by is not None and (not isinstance(x, Sym) or x.ty == "bytes"):
        return I.beq_decide(s, bx, by)
    for kk, t in s.bools.items():
        if set(a for a in kk.args if isinstance(a, Sym)) == {x, y} and kk.tag in ("fcmp", "cmp", "seq", "eqv", "streq", "eqany", "eqt"):
            return t
    return None


def constants(P, I, st, cls, a, vals, p, k, e, header):
    from .terms import KINDS
    kk = k.split("*")[1] if "*" in k else k
    lo, hi = KINDS[kk][1], KINDS[kk][2]
    if e and spec.ENUMS[e][0] == "IntEnum" and e != "Compression":
        c = enum_members(P, e)
        ms = sorted(c.members.values())
        pairs = [(EnumVal(c, x), EnumVal(c, y)) for x, y in zip(ms, ms[1:] + ms[:1]) if x != y]
    else:
        bits = [b for b in range(64) if 1 << b <= hi]
        pairs = [(0, 1 << b) for b in bits] + [(hi, hi ^ (1 << b)) for b in bits] + ([(-1, 1), (lo, 0)] if lo < 0 else [])
        if e:
            c = enum_members(P, e)
            pairs = [(EnumVal(c, x), EnumVal(c, y)) for x, y in pairs]
    for x, y in pairs:
        wrap = (lambda v: vals[p][:-1] + [v]) if "*" in k else (lambda v: v)
        s1, o1 = build_object(P, I, st.clone(), cls, None, {**vals, p: wrap(x)}, header)
        s1, o2 = build_object(P, I, s1, cls, None, {**vals, p: wrap(y)}, header)
        for s, t in truths(I, s1, o1, o2):
            if s.unk or isinstance(t, Raised):
                return None
            if t:
                return False, f"objects that differ in this field ({show(x)} and {show(y)}) are equal"
    return True, ""


# ------------------------------------------------------------------------------------------------ C14
NEUTRAL = ("logging.", "warnings.")
IMPURE = ("time.", "random.", "os.", "secrets.", "uuid.", "datetime.", "threading.", "builtins.input", "builtins.open", "sys.", "socket.")


def effects(I, chk, key, before, st, ret, allowed, own, site, fields=()):
    """no effect beyond allowed heap objects; the result depends on own symbols only"""
    bad, und = [], []
    for ev in st.events[len(before.events):]:
        k = ev[0]
        if k in ("classstore", "globalstore"):
            if not isinstance(ev[3], Ref) and not has_record(ev[3]) and is_struct(ev[3]):
                continue
            bad.append(f"{'class' if k == 'classstore' else 'module'} state {ev[1]}.{ev[2]} is changed at {ev[4]}")
        elif k in ("extstore", "symattrstore", "symstore"):
            bad.append(f"state outside the record is changed at {ev[-1]}")
        elif k == "ext":
            if ev[1].startswith(IMPURE):
                bad.append(f"{ev[1]} is called at {ev[3]}")
            elif not ev[1].startswith(NEUTRAL):
                und.append(f"{ev[1]} is called at {ev[3]}")
        elif k == "time":
            bad.append(f"the clock is read at {ev[3]}")
        elif k in ("open", "read", "write", "seek", "truncate"):
            if k != "open" and private_buffer(before, st, ev[1]):
                continue
            bad.append(f"a file is used at {ev[-1]}")
        elif k == "cached":
            if isinstance(ev[3], Ref) and isinstance(st.get(ev[3]), (Inst, ListO, DictO, BA)):
                bad.append(f"a cache hands out the same mutable object again at {ev[4]}")
            elif any(isinstance(a, Ref) and isinstance(st.get(a), (Inst, ListO, DictO, BA)) for a in ev[2]):
                bad.append(f"a cache is keyed by a mutable object at {ev[4]}")
    for i in st.changed(before):
        if i in allowed:
            continue
        o, b = st.heap.get(i), before.heap.get(i) or before.base.get(i)
        if isinstance(o, DictO) and isinstance(b, DictO) and only_structs(o, b):
            continue
        pairs = memo.added(b, o)
        if pairs is not None:
            by = I.kept.setdefault(i, {})
            why = [x for k, v in pairs for x in (memo.conflict(st, k, v) or memo.clash(st, k, v, by),) if x]
            if why:
                bad.append(f"a table that keeps results is filled: {why[0]}")
                continue
        keeps = remembered(o, b) if isinstance(o, DictO) and isinstance(b, DictO) else False
        if keeps is not False:
            if keeps is None:
                und.append("a table that keeps results is filled")
            continue
        bad.append(f"an object that existed before the call is changed: {describe(o, b)}")
    for i, (name, items) in I.internals.items():
        if i in st.heap and tuple(st.heap[i].items) != items:
            bad.append(f"{name} is changed")
    foreign = [s for s in syms_of(ret) if not own(s)] if ret is not None else []
    for s in foreign:
        (und if s.tag in ("unk", "fresh") or st.unk else bad).append(f"the result depends on {show(s)}")
    chk.decide(key, False if bad else None if und else True, "; ".join((bad or und)[:3]), site, st)


def private_buffer(before, st, ref):
    """an in-memory stream that the call itself made"""
    o = st.get(ref) if isinstance(ref, Ref) else None
    return o is not None and getattr(o, "kind", "") == "bytesio" and ref.id not in before.heap and ref.id not in before.base


def has_record(v):
    return any(s.tag in ("field", "src", "u", "ub") for s in syms_of(v)) if v is not None else False


def is_struct(v):
    return type(v).__name__ in ("StructV",)


def only_structs(o, b):
    old = dict(b.items) if not isinstance(b.items, dict) else b.items
    new = dict(o.items) if not isinstance(o.items, dict) else o.items
    return all(k in new and new[k] is v for k, v in old.items()) and all(is_struct(v) for k, v in new.items() if k not in old)


def remembered(o, b):
    """a table that keeps results under what they were made from: True, None if that is not known, False if it keeps anything else"""
    old, new = (dict(x.items) for x in (b, o))
    if not all(k in new and new[k] is v for k, v in old.items()):
        return False
    out = True
    for k, v in new.items():
        if k in old:
            continue
        if isinstance(v, Ref) or isinstance(v, VTuple) and any(isinstance(x, Ref) for x in v.items):
            return False
        have, by = set(syms_of(v)), set(syms_of(k))
        if not have <= by:
            return False
        if not have:
            out = None
    return out


def describe(o, b):
    if isinstance(o, Inst) and isinstance(b, Inst):
        d = [k for k in set(o.attrs) | set(b.attrs) if o.attrs.get(k) is not b.attrs.get(k)]
        return f"{o.cls.name}.{', '.join(sorted(d))}"
    return type(o).__name__


def reach(st, v, seen):
    """ids of heap objects reachable from v"""
    if isinstance(v, Ref):
        if v.id in seen:
            return
        o = st.get(v)
        seen.add(v.id)
        if isinstance(o, Inst):
            for x in o.attrs.values():
                reach(st, x, seen)
        elif isinstance(o, ListO):
            for x in o.items:
                reach(st, x, seen)
        elif isinstance(o, DictO):
            for x in (o.items.values() if isinstance(o.items, dict) else [y for _, y in o.items]):
                reach(st, x, seen)
    elif isinstance(v, VTuple):
        for x in v.items:
            reach(st, x, seen)
    elif isinstance(v, EnumVal):
        reach(st, v.v, seen)


def mutable_shared(st, before, v):
    """a mutable object in the result that existed before the call"""
    ids = set()
    reach(st, v, ids)
    for i in ids:
        if (i in before.heap or i in before.base) and isinstance(st.get(i), (Inst, ListO, DictO, BA)):
            return i
    return None


def c14(P, chk):
    for rec in spec.RECORDS.values():
        with chk.group(rec.name):
            I = Interp(P)
            cls = P.find(rec.name)
            for sc in decode_scenarios(P, I, rec):
                pure_decode(I, chk, f"{rec.name}/{sc.name}/decode", sc.st, cls, "unpack", [sc.buf], f"{rec.name}.unpack")
            for ob in encode_scenarios(P, I, rec):
                pure_encode(P, I, chk, f"{rec.name}/{ob.name}/encode", ob.st, ob.ref, f"{rec.name}.pack", rec, ob)
    with chk.group("NotImplementedObject"):
        I = Interp(P)
        st, s = P.fresh_state(), src()
        st.assume_le(16, slen(s))
        cls = P.find("NotImplementedObject")
        for st2, v in pure_decode(I, chk, "NotImplementedObject/decode", st, cls, "unpack", [whole(s)], "NotImplementedObject.unpack"):
            pure_encode(P, I, chk, "NotImplementedObject/encode", st2, v, "NotImplementedObject.pack", None, None)
    I = Interp(P)
    for name, methods, mk in nested_cases(P, I):
        with chk.group(name):
            nc = mk()
            pure_decode(I, chk, f"{name}/{nc.method}", nc.st, nc.cls, nc.method, nc.args, f"{name}.{nc.method}")
    todo = [(n, lay, m) for n, (lay, m) in spec.NESTED.items()] + [("FileStatistics", spec.FILEHEADER, ("unpack", "pack"))]
    for name, (fields, size), methods in todo:
        with chk.group(name):
            if "pack" in methods:
                st, vals, ref, cls = nested_object(P, I, name, fields)
                pure_encode(P, I, chk, f"{name}/pack", st, ref, f"{name}.pack", None, None)
            if "pack_into" in methods:
                st, vals, ref, cls = nested_object(P, I, name, fields)
                d, off = src("D"), symoff("target")
                st.assume_le(add(off, size), slen(d))
                buf = st.alloc(BA(whole(d)))
                before = st.clone()
                for st2, r in call(I, st, ref, "pack_into", [buf, off]):
                    chk.use(st2)
                    if isinstance(r, Raised):
                        chk.decide(f"{name}/pack_into", None, f"raises {r.exc}", r.loc, st2)
                        continue
                    effects(I, chk, f"{name}/pack_into", before, st2, tobs(st2, buf), {buf.id}, own_syms(("field", "src")), f"{name}.pack_into")


def own_syms(tags):
    plain = {"u", "ub", "len", "enclen", "dec", "bsbox", "rlen"}

    def own(s):
        if s.tag in tags or s.tag in plain:
            return True
        # operations over own symbols are fine, the analysis lists their leaves separately
        return bool(s.args) and s.tag not in ("unk", "fresh", "ext", "now", "time", "dtnow", "callm", "attr", "id", "hash", "env")
    return own


def pure_decode(I, chk, key, st, cls, method, args, site):
    before = st.clone()
    good = []
    for st2, v in call(I, st, cls, method, args):
        chk.use(st2)
        if isinstance(v, Raised):
            chk.decide(key, None, f"raises {v.exc}", v.loc, st2)
            continue
        ids = set()
        reach(st2, v, ids)
        vals = VTuple(tuple(x for i in ids if isinstance(st2.get(i), Inst) for x in st2.get(i).attrs.values() if not isinstance(x, Ref)))
        effects(I, chk, key, before, st2, vals, set(), own_syms(("src", "field")), site)
        sh = mutable_shared(st2, before, v)
        chk.decide(key + "/own objects", sh is None, f"the decoded object contains a mutable {type(st2.get(sh)).__name__} that other objects share"
                   if sh is not None else "", site, st2)
        good.append((st2, v))
    return good


def pure_encode(P, I, chk, key, st, ref, site, rec, ob):
    before = st.clone()
    ids = set()
    reach(st, ref, ids)
    fields0 = {i: dict(st.get(i).attrs) for i in ids if isinstance(st.get(i), Inst)}
    for st2, r in call(I, st, ref, "pack", []):
        chk.use(st2)
        b = None if isinstance(r, Raised) else tobs(st2, r)
        if b is None:
            chk.decide(key, no_bytes(st2, r), "cannot be encoded", site, st2)
            continue
        b = st2.norm_bs(b)
        # private attributes of the record itself may be added if the encoding never depends on them
        allowed, extra = set(), []
        for i, old in fields0.items():
            new = st2.get(i).attrs
            if new is old or all(k in new and (new[k] is old[k] or new[k] == old[k]) for k in old):
                if len(new) != len(old):
                    extra.append(i)
                allowed.add(i)
        effects(I, chk, key, before, st2, b, allowed, own_syms(("field", "src")), site)
        if isinstance(r, Ref):
            sh = mutable_shared(st2, before, r)
            chk.decide(key + "/own bytes", sh is None, "the encoding is a mutable object that is shared", site, st2)
        # encoding again gives the same bytes
        mid = st2.clone()
        for st3, r2 in call(I, st2, ref, "pack", []):
            b2 = None if isinstance(r2, Raised) else tobs(st3, r2)
            chk.decide(key + "/again", None if b2 is None else st3.norm_bs(b2) == st3.norm_bs(b), "encoding again gives other bytes", site, st3)
        if rec is not None:
            stale(P, I, chk, key + "/stale", mid, ref, rec, ob, site)


def stale(P, I, chk, key, st, ref, rec, ob, site):
    """after every scalar field is given a new value, nothing of the old values is left in the encoding"""
    held = {r[1] for _, _, r in rec.parts if r[0] in ("field", "toext")} | {"header.base.object_size", "header.base.object_type"}
    if rec.opt and rec.opt[0] == "ext":
        held.add(rec.opt[1])
    hdr, _ = spec.HEADERS[rec.header]
    fields = [("header." + p, k, e) for p, o, k, e in hdr] + [(p, k, e) for p, o, k, e in rec.fixed]
    old = set()
    for p, k, e in fields:
        if p in held or "*" in k or k[0] == "s":
            continue
        v = sym_value(P, I, st, p, k, e, "new.")
        o = ref
        for q in p.split(".")[:-1]:
            o = getpath(I, st, o, q)
        res = I.setattr(st, o, p.split(".")[-1], v, None, CTX())
        if len(res) != 1 or isinstance(res[0][1], Raised):
            return                      # immutable record: nothing can become stale
        st = res[0][0]
        old.add(p)
    for st2, r in call(I, st, ref, "pack", []):
        b = None if isinstance(r, Raised) else tobs(st2, r)
        if b is None:
            chk.decide(key, no_bytes(st2, r), "cannot be encoded", site, st2)
            continue
        left = sorted({s.args[0] for s in syms_of(st2.norm_bs(b)) if s.tag == "field" and s.args[0] in old})
        chk.decide(key, not left, f"the encoding still holds earlier values of {left[:4]}", site, st2)
