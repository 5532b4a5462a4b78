"""Checks of the reader: C04, C06, C07, C11 (reading side), C13 (reading side), C18, C19."""
import ast

from . import spec
from .codec import CTX, bs_equal, getpath, match, no_bytes, opaque, same_num, strip, u
from .interp import ClassV, FuncV, Interp, Raised
from .models import tobs
from .rd import F0, HDR, analyse, bytes_of
from .state import Env, GenO, Inst, StreamO, add, read_item
from .terms import Bs, EnumVal, Ref, Sym, VTuple, atom, show, sub


def excname(r):
    e = r.exc
    c = getattr(e, "cls", None)
    return getattr(c, "qual", None) or getattr(c, "name", None) or str(e)


def emit(chk, R, problems, prop):
    for p in problems:
        chk.undecided("reader/structure", p)
    for p, key, v, text, site, st in R.found:
        if p != prop:
            continue
        chk.decide(key, v, text, site, st if v is False and st is not None and relevant(st) else None)


def relevant(st):
    """unknowns on a path weaken a negative verdict only if there are any"""
    return bool(st.unk)


def reader_part(chk, P, prop):
    with chk.group("reader"):
        m, R, problems = analyse(P)
        chk.paths += R.paths
        chk.scope["loops_checked_by_induction"] = R.loops
        for s, v in m.good:
            chk.use(s)
        if not m.good:
            chk.undecided("reader/open", "no path through the reader's constructor succeeds")
        emit(chk, R, problems, prop)
        return m, R
    return None, None


def c06(P, chk):
    m, R = reader_part(chk, P, "C06")
    with chk.group("single reads"):
        for s0, v in (m.good[:1] if m else ()):
            access(P, Interp(P), Part(chk, "single reads/", ("/takes one object", "/returns it", "/never fails")), m, s0, v)


class Part:
    """the part of a check whose obligations have certain endings"""

    def __init__(self, chk, prefix, ends):
        self.chk, self.prefix, self.ends = chk, prefix, ends

    def decide(self, key, ok, *a):
        if key.endswith(self.ends):
            self.chk.decide(self.prefix + key, ok, *a)

    def ok(self, key, *a):
        self.decide(key, True, *a)

    def bad(self, key, text, *a):
        self.decide(key, False, text, *a)

    def undecided(self, key, text, *a):
        self.decide(key, None, text, *a)

    def use(self, st):
        self.chk.use(st)


def c07(P, chk):
    reader_part(chk, P, "C07")


def c11_reader(P, chk):
    reader_part(chk, P, "C11")


# ------------------------------------------------------------------------------------------------ C04
def c04(P, chk):
    with chk.group("codes"):
        kind, names = spec.ENUMS["ObjType"]
        c = P.find("ObjType")
        members = getattr(c, "members", None)
        got = {n: strip(v) for n, v in dict(members).items()} if members else None
        if got is None:
            chk.undecided("codes", "ObjType is not an enumeration the analysis follows")
        else:
            for n, v in names.items():
                chk.decide(f"codes/{n}", got.get(n) == v if n in got else None, f"ObjType.{n} is {got.get(n)}, the format has {v}")
    m, R = reader_part(chk, P, "C04")
    if R is None:
        return
    I = R.I
    with chk.group("dispatch"):
        seen = any(not w.startswith("raise:") and w != "container" for w in R.codes)
        sure = R.loops > 0 and not R.lost and all(v is not None for _, _, v, _, _, _ in R.found)
        for t in list(range(spec.CODE_MAX + 1)) + [None]:
            want = spec.DISPATCH.get(t)
            if t == spec.LOG_CONTAINER:
                want = "container"
            name = f"type {t}" if t is not None else "types above 128"
            outs = {}
            for what, cases in R.codes.items():
                for st, code, size, val, full, run in cases:
                    s2 = st.clone()
                    try:
                        ok = s2.assume_eq(code, t) if t is not None else s2.assume_le(spec.CODE_MAX + 1, code)
                    except Exception:                          # noqa: BLE001
                        ok = True
                    if ok is False or not consistent(I, s2, code, t):
                        continue
                    outs.setdefault(what, []).append((s2, size, val, full, run))
            unk = [c[0] for cs in outs.values() for c in cs if c[0].unk]
            st = unk[0] if unk else None
            plain = [w for w in outs if not w.startswith("raise:")]
            raises = [w for w in outs if w.startswith("raise:")]
            if want is None:
                if not plain:
                    chk.decide(f"{name}/delivered", False if raises or (seen and sure) else None,
                               f"objects of this type raise {raises}" if raises else "objects of this type are passed over", "", st)
                    continue
                chk.ok(f"{name}/delivered")
                for w in raises:
                    chk.decide(f"{name}/never fails", False, f"{w[6:]} is raised for a complete object of this type", "", st)
                for w in plain:
                    if w == "container":
                        chk.decide(f"{name}/placeholder", False, "the object is treated as a container", "", st)
                        continue
                    for s2, size, val, full, run in outs[w]:
                        placeholder(P, I, chk, name, w, s2, val, full)
            else:
                wrong = [w for w in plain if w != want]
                if wrong:
                    chk.decide(f"{name}/class", False, f"decoded as {', '.join(wrong)} instead of {want}", "", st)
                elif want in plain:
                    chk.ok(f"{name}/class")
                else:
                    chk.decide(f"{name}/class", False if raises and not R.lost or (sure and (seen or not R.codes)) else None, f"no path delivers {want}; paths end in {raises or 'nothing'}", "", st)
    if R.conflict and any(k.startswith("type") and v[0] == "undecided" for k, v in chk.obl.items()):
        chk.decide("objects do not depend on earlier ones", False, *R.conflict)


def consistent(I, st, code, t):
    """are the recorded membership facts of the code compatible with the value t?"""
    a = getattr(code, "atom", None)
    for k, truth in st.bools.items():
        if k.tag == "inset" and len(k.args) == 2:
            x = st.norm(k.args[0])
            x = strip(x)
            if a is not None and (x == code or getattr(x, "atom", x) == a) and t is not None:
                if (t in k.args[1]) is not truth:
                    return False
            if isinstance(x, int) and (x in k.args[1]) is not truth:
                return False
    return True


def placeholder(P, I, chk, name, w, st, val, full):
    key = f"{name}/placeholder"
    if val is None:
        chk.undecided(key, "the delivered object was not followed")
        return
    if w in spec.RECORDS:
        chk.decide(key, False, f"decoded as {w}, which the format does not assign to this type", "", st)
        return
    held = False
    o = st.get(val)
    if isinstance(o, Inst):
        for v in o.attrs.values():
            b = tobs(st, v) if isinstance(v, (bytes, Bs)) else None
            held = held or (b is not None and bool(bs_equal(st, b, full)))
    for s2, r in I.call_attr(st.clone(), val, "pack", [], {}, None, CTX()):
        if isinstance(r, Raised):
            chk.decide(key, False, f"re-encoding the placeholder raises {excname(r)}", r.loc, s2)
            continue
        b = tobs(s2, r) if isinstance(r, (bytes, Bs, Ref)) else None
        chk.decide(key, no_bytes(s2, r) if b is None else bool(bs_equal(s2, b, full)) or (None if opaque(b) else False),
                   f"the placeholder re-encodes to {show(b)} instead of the object's bytes {show(full)}", "", s2)
    chk.decide(f"{name}/placeholder holds the bytes", held or (None if opaque_obj(st, o) else False),
               "the placeholder does not hold the object's complete raw bytes", "", st)


def opaque_obj(st, o):
    return not isinstance(o, Inst)


# ------------------------------------------------------------------------------------------------ C18
def path_args(P, I, st):
    out = [("str path", Sym("arg", ("path",), "str")), ("bytes path", Bs((("s", Sym("arg", ("bpath",), "bytes"), 0, atom(Sym("len", (Sym("arg", ("bpath",), "bytes"),), "int"))),)))]
    ns = st.alloc(Env({}))
    c = ClassV("PathArg", "driver.PathArg", (), ns, None, "driver")
    f = ast.parse("def __fspath__(self):\n    return self.p\n").body[0]
    env = st.alloc(Env({}))
    st.get(ns).vars["__fspath__"] = FuncV("__fspath__", "driver.PathArg.__fspath__", f, "driver", env, [], {})
    out.append(("PathLike", st.alloc(Inst(c, {"p": Sym("arg", ("plpath",), "str")}))))
    return out


def named(st, name, arg, got):
    """is it the given path that is opened?"""
    own = st.get(arg).attrs["p"] if isinstance(arg, Ref) else arg
    if got == arg or got == own:
        return True, ""
    why = f"opened is {show(got)}"
    if isinstance(got, (int, str, bytes)):
        return False, why
    while isinstance(got, Sym) and got.tag in ("fspath", "tostr", "repr", "fmt", "strcat") and name != "str path":
        if got.tag == "fspath":
            got = got.args[0]
            continue
        return False, why + ": the text of the object is not its path"
    return (True, "") if got == arg or got == own else (None, why)


def opened(st):
    return [e for e in st.events if e[0] == "open"]


def closed_refs(st):
    return [e[1] for e in st.events if e[0] == "close"]


def open_facts(chk, I, key, s, v, ref, src):
    """rules for one constructor path that reads from stream ref"""
    o = s.get(ref)
    L = bytes_of(s, o, 0, 4)
    sig = I.beq_decide(s, L, spec.FILE_SIGNATURE)
    short = o.eof is not None and s.le(add(o.eof, 1), HDR) is True
    complete = complete_header(s, ref, o)
    if isinstance(v, Ref):
        chk.decide(f"{key}/signature", sig is True or (None if sig is None and s.unk else False), "opening succeeds without the BLF file signature", "", s)
        chk.decide(f"{key}/complete header", complete, "opening succeeds without a complete file header", "", s)
        return
    n = excname(v)
    if sig is False or short:
        chk.decide(f"{key}/refused with ValueError", n in ("builtins.ValueError", "ValueError") or (None if s.unk else False),
                   f"{n} instead of ValueError for input that is {'too short' if short else 'not a BLF file'}", v.loc, s)
    else:
        chk.decide(f"{key}/valid files open", False, f"{n} is raised for a complete file header with the right signature", v.loc, s)


def complete_header(s, ref, o):
    reads = [e for e in s.events if e[0] == "read" and e[1] == ref]
    end = 0
    for e in reads:
        end = s.norm(add(e[2], e[4]))
        if s.le(HDR, end) is True:
            return True
    if o.eof is not None and s.le(HDR, o.eof) is True:
        return True
    return False


def c18(P, chk):
    I = Interp(P)
    R = P.find("BlfReader")
    W = P.find("BlfWriter")
    shapes = {}
    with chk.group("file-like argument"):
        st = P.fresh_state()
        src = F0()
        ref = st.alloc(StreamO(0, src, "user"))
        for s, v in I.call(st, R, [ref], {}, None, CTX()):
            chk.use(s)
            open_facts(chk, I, "file-like", s, v, ref, src)
            if isinstance(v, Ref):
                header_fields(chk, I, "file-like", s, v, ref)
                shapes.setdefault("file-like", []).append((s, v, ref))
    for name in ("str path", "bytes path", "PathLike"):
        with chk.group(name):
            st = P.fresh_state()
            arg = dict(path_args(P, I, st))[name]
            rs = I.call(st, R, [arg], {}, None, CTX())
            for s, v in rs:
                chk.use(s)
                ops = opened(s)
                if len(ops) != 1:
                    bad = isinstance(v, Raised)
                    chk.decide(f"{name}/opened", None if s.unk else False,
                               f"{excname(v)} is raised for a path" if bad else f"a path leads to {len(ops)} opened files", v.loc if bad else "", s)
                    continue
                e = ops[0]
                chk.decide(f"{name}/the named file", *named(s, name, arg, e[2]), e[4], s)
                chk.decide(f"{name}/opened for reading", e[3] in ("rb", "br") or (None if not isinstance(e[3], str) else False),
                           f"opened with mode {e[3]!r}", e[4], s)
                open_facts(chk, I, name, s, v, e[1], None)
                if isinstance(v, Ref):
                    header_fields(chk, I, name, s, v, e[1])
                    shapes.setdefault(name, []).append((s, v, e[1]))
    with chk.group("same source"):
        base = shapes.get("file-like", [])
        ref_shape = {shape(I, s, v, r) for s, v, r in base}
        for name, lst in shapes.items():
            if name == "file-like":
                continue
            for s, v, r in lst:
                sh = shape(I, s, v, r)
                chk.decide(f"{name}/read like a file-like argument", sh in ref_shape or None,
                           f"iteration starts as {sh}, with a file-like argument as {sorted(map(str, ref_shape))[:2]}", "", s)
    for cls, nm in ((R, "reader"), (W, "writer")):
        with chk.group(f"{nm}: other arguments"):
            for label, a in (("an integer", 7), ("None", None), ("a tuple", VTuple([1, 2])), ("a float", 1.5)):
                st = P.fresh_state()
                for s, v in I.call(st, cls, [a], {}, None, CTX()):
                    chk.use(s)
                    ok = isinstance(v, Raised) and excname(v) in ("builtins.TypeError", "TypeError")
                    what = excname(v) if isinstance(v, Raised) else "success"
                    chk.decide(f"{nm}/{label}", ok or (None if s.unk else False), f"{nm} with {label}: {what} instead of TypeError",
                               v.loc if isinstance(v, Raised) else "", s)
    with chk.group("writer: paths and file-like arguments"):
        for name in ("file-like", "str path", "bytes path", "PathLike"):
            st = P.fresh_state()
            arg = st.alloc(StreamO(0, b"", "user", mode="wb", size=0)) if name == "file-like" else dict(path_args(P, I, st))[name]
            okp = 0
            for s, v in I.call(st, W, [arg], {}, None, CTX()):
                chk.use(s)
                if isinstance(v, Raised):
                    chk.decide(f"writer/{name}/accepted", None if s.unk else False, f"{excname(v)} is raised for a valid argument", v.loc, s)
                    continue
                okp += 1
                tgt = arg if name == "file-like" else (opened(s)[0][1] if len(opened(s)) == 1 else None)
                wr = [e for e in s.events if e[0] == "write"]
                chk.decide(f"writer/{name}/written to", tgt is not None and bool(wr) and all(e[1] == tgt for e in wr) or (None if s.unk else False),
                           "the writer does not write to the file that was named", "", s)
                if name != "file-like" and tgt is not None:
                    chk.decide(f"writer/{name}/the named file", *named(s, name, arg, opened(s)[0][2]), opened(s)[0][4], s)
                    chk.decide(f"writer/{name}/mode", opened(s)[0][3] in ("wb", "bw", "wb+", "w+b") or (None if not isinstance(opened(s)[0][3], str) else False),
                               f"opened with mode {opened(s)[0][3]!r}", opened(s)[0][4], s)
            chk.decide(f"writer/{name}/opens", okp > 0 or None, "no path through the writer's constructor succeeds")


def header_fields(chk, I, key, s, v, ref):
    """the reader's file_statistics are those of the file"""
    fields, end = spec.FILEHEADER
    o = s.get(ref)
    for s2, fs in I.getattr(s, v, "file_statistics", None, CTX()):
        if isinstance(fs, Raised):
            chk.undecided(f"{key}/file statistics", "the reader has no file_statistics")
            continue
        for path, off, kind, enum in fields:
            try:
                got = getpath(I, s2, fs, path)
            except Exception:                                       # noqa: BLE001
                chk.undecided(f"{key}/file statistics/{path}", "not followed")
                continue
            if kind[0] == "s":
                b = tobs(s2, got) if isinstance(got, (bytes, Bs, Ref)) else None
                w = bytes_of(s2, o, off, off + spec.ksize(kind))
                ok = None if b is None else (bool(bs_equal(s2, b, w)) or (None if opaque(b) else False))
            else:
                w = read_item(s2, bytes_of(s2, o, off, off + spec.ksize(kind)), 0, kind, spec.ksize(kind))
                if enum == "AppId":
                    g = strip(got)
                    if g == 0 and s2.le(1, s2.norm(w)) is True:
                        continue
                ok = same_num(s2, got, s2.norm(w))
            chk.decide(f"{key}/file statistics/{path}", ok, f"file_statistics.{path} is {show(got)} instead of {show(w)}", "", s2)


def shape(I, s, v, ref):
    """what iteration starts from, with the file's stream abstracted"""
    out = []
    for s2, it in I.call_attr(s.clone(), v, "__iter__", [], {}, None, CTX()):
        o = s2.get(it) if isinstance(it, Ref) else None
        if isinstance(o, GenO):
            out.append((o.func.qual, tuple("FILE" if a == ref else "SELF" if a == v else show(a) for a in o.args),
                        show(s2.get(ref).pos)))
        else:
            out.append((type(o).__name__, "SELF" if it == v else "", show(s2.get(ref).pos)))
    return tuple(out)


# ------------------------------------------------------------------------------------------------ C19
def pulls(st, start):
    return [e for e in st.events[start:] if e[0] in ("next", "yieldfrom", "read", "seek", "recgen")]


def c19(P, chk):
    m, R, problems = analyse(P)
    I = Interp(P)
    with chk.group("access"):
        for s0, v in m.good[:1]:
            access(P, I, chk, m, s0, v)


def access(P, I, chk, m, s0, v):
    sources = set()
    fresh_sources = []
    base = s0.clone()
    base.events = []
    nbefore = set(base.heap) | set(base.base)
    # iteration
    for s, it in I.call_attr(base.clone(), v, "__iter__", [], {}, None, CTX()):
        chk.use(s)
        if isinstance(it, Raised):
            chk.decide("iteration/starts", None if s.unk else False, f"{excname(it)} is raised", it.loc, s)
            continue
        moved = [e for e in s.events if e[0] in ("read", "seek", "next", "recgen")]
        changed = [l for l, _ in I.changes(base, s)]
        chk.decide("iteration/starting it changes nothing", not moved and not changed or (None if s.unk else False),
                   "asking for an iterator moves the position or changes the reader", moved[0][-1] if moved else "", s)
        o = s.get(it) if isinstance(it, Ref) else None
        if it == v or (isinstance(o, Inst)):
            for s2, r in I.call_attr(s.clone(), it, "__next__", [], {}, None, CTX()):
                one_pull(chk, I, "iteration", s2, r, len(s.events), sources, None, m)
        elif isinstance(o, GenO):
            if it.id in nbefore:
                sources.add(("stored", it.id))
            else:
                fresh_gen(P, I, chk, m, s, it, o, sources, fresh_sources, nbefore)
        else:
            chk.undecided("iteration/source", "the iterator is not followed")
    # entering the context, anywhere in the file
    for s, r in I.call_attr(base.clone(), v, "__enter__", [], {}, None, CTX()):
        chk.use(s)
        if isinstance(r, Raised):
            continue
        moved = [e for e in s.events if e[0] in ("read", "seek", "next", "recgen", "loop")]
        changed = list(I.changes(base, s))
        was, now = position(I, base, v), position(I, s, v)
        ok = was == now and not moved
        if was is None or now is None:
            ok = None if changed or moved else True
        chk.decide("entering/keeps the position", ok or (None if s.unk or not (changed or moved) else ok),
                   "entering the context moves the position or replaces the source of the objects", moved[0][-1] if moved else "", s)
    # read_object, before and after an iterator was taken, and twice in a row
    cases = [("first", base.clone())]
    for s, it in I.call_attr(base.clone(), v, "__iter__", [], {}, None, CTX()):
        cases.append(("after iteration began", s))
    for label, s in cases:
        n = len(s.events)
        for s2, r in I.call_attr(s.clone(), v, "read_object", [], {}, None, CTX()):
            chk.use(s2)
            one_pull(chk, I, f"read_object ({label})", s2, r, n, sources, "none", m)
            if label == "first" and not isinstance(r, Raised):
                n2 = len(s2.events)
                for s3, r2 in I.call_attr(s2.clone(), v, "read_object", [], {}, None, CTX()):
                    one_pull(chk, I, "read_object (again)", s3, r2, n2, sources, "none", m)
                    ended = any(e[0] == "next" and e[2] is None for e in s2.events[n:n2])
                    if ended and not isinstance(r2, Raised):
                        more = [e for e in s3.events[n2:] if e[0] == "next"]
                        chk.decide("end/stays at the end", r2 is None or bool(more) or (None if s3.unk else False),
                                   f"after the end read_object returns {show(r2)}", "", s3)
    if fresh_sources and any(k[0] == "stored" for k in sources):
        chk.bad("one position", f"iteration makes a new source ({fresh_sources[0]}) beside the stored one that read_object uses")
    elif fresh_sources:
        chk.undecided("one position", f"every access makes a new source ({fresh_sources[0]})")
    elif len({k for k in sources}) > 1:
        chk.bad("one position", "iteration and read_object draw from different sources")
    elif len(sources) == 1:
        chk.ok("one position")
    else:
        chk.undecided("one position", "the source that iteration and read_object use was not found")


def position(I, st, v):
    """the sources iteration and read_object would draw from, if they are stored ones"""
    out = []
    for s, it in I.call_attr(st.clone(), v, "__iter__", [], {}, None, CTX()):
        out.append(it.id if isinstance(it, Ref) and isinstance(s.get(it), GenO) and known(st, it) else None)
    for s, r in I.call_attr(st.clone(), v, "read_object", [], {}, None, CTX()):
        out.extend(e[1].id if isinstance(e[1], Ref) and known(st, e[1]) else None for e in s.events[len(st.events):] if e[0] == "next")
    return out if out and None not in out else None


def known(st, ref):
    return ref.id in st.heap or ref.id in st.base


def one_pull(chk, I, key, st, r, n, sources, at_end, m):
    """a call that should take exactly one object from the common source"""
    ev = st.events[n:]
    nx = [e for e in ev if e[0] == "next"]
    for e in nx:
        if isinstance(e[1], Ref):
            sources.add(("stored", e[1].id))
    for lp in (e[1] for e in ev if e[0] == "loop"):
        for s2, ev2 in lp.iters:
            lost = [e for e in ev2 if e[0] == "next" and e[2] is not None and not kept(s2, e[2])]
            if lost:
                chk.decide(f"{key}/takes one object", None if s2.unk else False, "an object is taken and dropped before the one that is returned",
                           lost[0][-1], s2)
    direct = [e for e in ev if e[0] in ("read", "recgen", "loop")]
    if direct:
        chk.undecided(f"{key}/takes one object", "the call reads the stream itself", direct[0][-1] if direct[0][0] == "read" else "")
        return
    got = [e for e in nx if e[2] is not None]
    end = [e for e in nx if e[2] is None]
    if isinstance(r, Raised):
        if at_end is None and end and excname(r).endswith("StopIteration"):
            chk.ok(f"{key}/end")
            return
        chk.decide(f"{key}/never fails", None if st.unk else False, f"{excname(r)} is raised {'at the end' if end else ''}", r.loc, st)
        return
    if end:
        if at_end is None:
            chk.decide(f"{key}/end", None if st.unk else False, f"at the end {show(r)} is returned", "", st)
        else:
            chk.decide(f"{key}/end", r is None or (None if st.unk else False), f"at the end {show(r)} is returned instead of None", end[0][-1], st)
        if got:
            chk.decide(f"{key}/takes one object", None if st.unk else False, "objects are taken and dropped before the end", got[0][-1], st)
        return
    if not got:
        truth_facts = r is None
        chk.decide(f"{key}/takes one object", None if st.unk else False,
                   f"{show(r)} is returned without asking the source" if truth_facts else "no object is taken from the source", "", st)
        return
    chk.decide(f"{key}/takes one object", len(got) == 1 or (None if st.unk else False), f"{len(got)} objects are taken by one call", got[-1][-1], st)
    chk.decide(f"{key}/returns it", r == got[-1][2] or (None if isinstance(r, Sym) and st.unk else False),
               f"{show(r)} is returned instead of the object", got[-1][-1], st)


def kept(st, v):
    """is the value stored in an object or a container?"""
    for o in st.heap.values():
        if isinstance(o, Env):
            continue
        vals = list(getattr(o, "attrs", {}).values()) + [x for x in getattr(o, "items", ()) or ()]
        if any(x == v or (isinstance(x, tuple) and v in x) for x in vals):
            return True
    return False


def fresh_gen(P, I, chk, m, s, it, o, sources, fresh_sources, nbefore):
    """__iter__ is itself a generator: what does it draw from?"""
    def handler(s2, val, node, ctx):
        s2.events.append(("yield", val, s2.clone(), I.loc(node, ctx)))
        return [(s2, None)]
    s = s.clone()
    s.events = []
    reads = False

    def visit(ev, st):
        nonlocal reads
        for k, e in enumerate(ev):
            if e[0] == "loop":
                for s2, ev2 in e[1].iters:
                    visit(ev2, s2)
                for s2, ev2, _ in e[1].exits:
                    visit(ev2, s2)
            elif e[0] == "read":
                reads = True
            elif e[0] in ("next", "yieldfrom") and isinstance(e[1], Ref):
                sources.add(("stored", e[1].id))
        got = [e for e in ev if e[0] == "next" and e[2] is not None]
        ys = [e for e in ev if e[0] == "yield"]
        if got or ys:
            ok = [e[2] for e in got] == [e[1] for e in ys]
            if not ok and any(e[0] == "read" for e in ev):
                return
            chk.decide("iteration/delivers what it takes", ok or (None if st.unk else False), "objects are taken from the source but not delivered, or the reverse",
                       (got or ys)[0][-1], st)
    for s2, r in I.run_gen(s, o, handler, None, CTX()):
        visit(s2.events, s2)
    if reads:
        fresh_sources.append(o.func.qual)


# ------------------------------------------------------------------------------------------------ C13 (reading side)
def exit_args(I, st):
    exc = Sym("arg", ("exc_type",), "any"), Sym("arg", ("exc",), "any"), Sym("arg", ("tb",), "any")
    return [("no exception", [None, None, None]), ("an exception", list(exc))]


def c13_reader(P, chk):
    R = P.find("BlfReader")
    I = Interp(P)
    with chk.group("reader/context"):
        for kind in ("file-like", "str path"):
            st = P.fresh_state()
            arg = st.alloc(StreamO(0, F0(), "user")) if kind == "file-like" else Sym("arg", ("path",), "str")
            for s, v in I.call(st, R, [arg], {}, None, CTX()):
                if not isinstance(v, Ref):
                    continue
                tgt = arg if kind == "file-like" else opened(s)[0][1] if opened(s) else None
                for s1, w in I.call_attr(s.clone(), v, "__enter__", [], {}, None, CTX()):
                    chk.decide(f"reader/{kind}/enter gives the reader", w == v or (None if s1.unk else False), f"__enter__ gives {show(w) if not isinstance(w, Raised) else excname(w)}", "", s1)
                    chk.decide(f"reader/{kind}/enter keeps the file open", tgt not in closed_refs(s1), "__enter__ closes the file", "", s1)
                    for label, a in exit_args(I, s1):
                        for s2, r in I.call_attr(s1.clone(), v, "__exit__", a, {}, None, CTX()):
                            chk.use(s2)
                            leave(chk, I, f"reader/{kind}/{label}", s2, r, tgt)
    with chk.group("reader/constructor failures"):
        IF = Interp(P, faults=True)
        st = P.fresh_state()
        n = 0
        for s, v in IF.call(st, R, [Sym("arg", ("path",), "str")], {}, None, CTX()):
            chk.use(s)
            if not isinstance(v, Raised):
                continue
            for e in opened(s):
                n += 1
                chk.decide("reader/a constructor that fails closes the file it opened", e[1] in closed_refs(s) or (None if s.unk else False),
                           f"the file stays open when {excname(v)} is raised", v.loc, s)
        if not n:
            chk.undecided("reader/a constructor that fails closes the file it opened", "no failing path was found")
        st = P.fresh_state()
        arg = st.alloc(StreamO(0, F0(), "user"))
        given_stays_open(chk, "reader", IF.call(st, R, [arg], {}, None, CTX()), arg)


def given_stays_open(chk, who, outs, ref):
    """a failed constructor leaves the caller's own file object as usable as it was"""
    key = f"{who}/a constructor that fails leaves a given file object open"
    n = 0
    for s, v in outs:
        chk.use(s)
        if isinstance(v, Raised):
            n += 1
            chk.decide(key, ref not in closed_refs(s) or (None if s.unk else False), f"the caller's file object is closed when {excname(v)} is raised", v.loc, s)
    if not n:
        chk.undecided(key, "no failing path was found")


def leave(chk, I, key, s, r, tgt):
    if isinstance(r, Raised):
        chk.decide(f"{key}/leaving", None if s.unk else False, f"{excname(r)} is raised on leaving", r.loc, s)
        chk.decide(f"{key}/file closed", tgt in closed_refs(s) or (None if s.unk else False), "the file is not closed", r.loc, s)
        return
    chk.decide(f"{key}/file closed", tgt in closed_refs(s) or (None if s.unk else False), "the file is not closed on leaving", "", s)
    truth = truthy(I, s, r)
    chk.decide(f"{key}/exceptions pass", truth is False if truth is not None else (None if s.unk else False),
               f"__exit__ returns {show(r)}, which swallows the exception", "", s)


def truthy(I, s, r):
    if r is None or r is False or (isinstance(r, (int, bytes, str)) and not r):
        return False
    if isinstance(r, (bool, int, bytes, str)):
        return True
    if isinstance(r, Ref):
        return True
    return None
