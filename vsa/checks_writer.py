"""Rules of the writer: C08 (conservation), C09 (rejection), C10 (header), C11 (compression), C12 (containers), C13 (closing), C20 (append only)."""
import ast

from . import memo, spec
from .checks_reader import c11_reader, c13_reader, closed_refs, excname, exit_args, given_stays_open, leave, opened, path_args
from .codec import CTX, same_num
from .diff import consistent, witness
from .interp import Raised
from .models import mod_, tobs
from .state import BA, Inst, StreamO, add, bslen, concat, mkbs, read_item, seglen, segs_of, syms_of
from .terms import INF, Aff, Bs, EnumVal, Ref, Sym, atom, show, sub
from .wr import HDR, WriterModel, as_bytes, conserve, containers, drop_empty, feasible_le, holds, odd

FIELDS = {f[0]: f for f in spec.FILEHEADER[0]}


class Part:
    """what happens between two loop heads: from state a (buffer content there, end of the file there) to state b"""
    def __init__(self, kind, a, b, events, loc=""):
        self.kind, self.a, self.b, self.events, self.loc = kind, a, b, events, loc


class Rules:
    def __init__(self, P, level="int", forgets=False):
        self.P = P
        self.m = WriterModel(P, level, forgets=forgets)
        self.found = []
        self.paths = 0
        self.problems = []
        self.places = []
        self.taint, self.base, self.counters, self.loops = set(), set(), set(), {}
        self.first_header = None
        self.left = {}
        self.scope = {"writes": 0, "closes": 0, "containers": 0, "loops": 0}

    # ---- book-keeping
    def say(self, prop, key, v, text, site="", st=None, terms=()):
        if v is False and st is not None:
            if st.unk:
                v = None
                text += f" [not followed: {st.unk[0][0] if isinstance(st.unk[0], tuple) else st.unk[0]}]"
            elif self.tainted(st, terms):
                v = None
                text += " [on a path that depends on a value the induction does not relate to the buffer]"
        self.found.append((prop, key, v, text, str(site)))
        return v

    def tainted(self, st, terms=()):
        T = self.taint
        if not T:
            return False
        for t in terms:
            if T & syms_of(st.norm(t) if not isinstance(t, tuple) else t):
                return True
        new = [f for f in self.facts(st) if f not in self.base]
        return bool(new) and not (all(self.counting(f) for f in new) and self.count_exists(st, new))

    def counting(self, f):
        """a fact about nothing but the number of objects"""
        k = f[1]
        ss = set()
        for x in k if isinstance(k, tuple) else (k,):
            x = x[0] if isinstance(x, tuple) else x
            if x.tag not in ("fresh", "mod", "fdiv", "le", "eq", "fcmp", "cmp"):
                return False
            ss |= {x} if x.tag == "fresh" else {y for y in syms_of(x) if y.tag == "fresh"}
        return bool(ss) and ss <= self.counters

    def count_exists(self, st, facts):
        """any number of objects may have been stored: one that the facts admit?"""
        for c in self.counters:
            try:
                if not any(consistent(st, {c: n}) for n in range(3, 5000)):
                    return False
            except Exception:
                return False
        return True

    def find_counters(self, h):
        """havocked integers that grow by one with every accepted object, whatever it is"""
        out = set()
        for l in h.mod:
            if l[0] in ("pos", "size", "len"):
                continue
            try:
                v = self.m.I.read_loc(h.start, l)
                a = v.t[0][0] if isinstance(v, Aff) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 else v if isinstance(v, Sym) else None
                if a in self.taint and all(isinstance(r, Raised) or s.eq(self.m.I.read_loc(s, l), add(v, 1)) is True for s, r in h.ends):
                    out.add(a)
            except (KeyError, TypeError):
                continue
        return out
    def facts(self, st):
        """what is known about the values that the induction leaves open"""
        T = self.taint
        for n, d in (("bounds", st.bounds), ("ne", st.ne)):
            for k, v in d.items():
                if any(T & ({s} | syms_of(s)) for s, _ in k):
                    # that a counter fits into its field of the header is taken for granted
                    if n == "bounds" and v[1] < 2 ** 31 or n != "bounds":
                        yield n, k, v
                    elif n == "bounds":
                        yield n, k, (v[0], INF)
        for k, v in st.bools.items():
            if T & ({k} | syms_of(k)):
                yield "bool", k, v
        for k, v in st.subst.items():
            if T & ({k} | syms_of(k)):
                yield "subst", k, repr(v)

    def num(self, prop, key, st, got, want, what, site):
        v = numbers(st, got, want)
        if v is False and odd(got):
            v = None
        self.say(prop, key, v, f"{what} is {show(got)} instead of {show(want)}", site, st, (got, want))

    # ---- structure
    def mattering(self, rec):
        for s, ev in rec.iters:
            if any(e[0] in ("write", "truncate") and e[1] == self.m.file for e in ev):
                return True
            if any(e[0] == "loop" and self.mattering(e[1]) for e in ev):
                return True
            b0, b1 = self.h.buf(rec.start), self.h.buf(s)
            if b0 is None or b1 is None or not (b0 == b1 or s.norm_bs(b0) == b1):
                return True
        return False

    def parts(self, a, b, events, out, kind="straight"):
        cur, ev = a, []
        for e in events:
            if e[0] == "loop" and self.mattering(e[1]):
                rec = e[1]
                out.append(Part("before a loop", cur, rec.pre, ev, rec.loc))
                self.loops.setdefault(id(rec), rec)
                for l in rec.mod:
                    self.taint_loc(rec.start, l, rec.groups)
                self.base |= set(self.facts(rec.start))
                cur, ev = rec.start, []
            else:
                ev.append(e)
        out.append(Part(kind if cur is a else "after a loop", cur, b, ev))
        return out

    def taint_loc(self, st, l, groups):
        m, I = self.m, self.m.I
        if l[0] in ("pos", "size") or l == self.h.buffer[0]:
            return
        try:
            v = I.read_loc(st, l)
        except KeyError:
            return
        if l[0] == "ba":
            b0 = self.h.buf(st)
            if b0 is not None and as_bytes(st, v) is not None and (not b0 or syms_of(b0) & syms_of(v)):
                return
            return
        if isinstance(v, Ref) or v is None or l[0] == "obj":
            return
        ok = set()
        o = st.get(m.file)
        for x in (o.pos, o.size):
            ok |= syms_of(x)
        b = self.h.buf(st)
        if b is not None:
            ok |= syms_of(b)
        self.taint |= {s for s in syms_of(v) if s.tag == "fresh" and s.ty != "float"} - ok

    # ---- appended bytes of one part
    def appended(self, key, p, allow_header):
        """(writes at the end, writes of the header, end position) of a part"""
        o = p.a.get(self.m.file)
        end = o.size if o.size is not None else o.pos
        ws, hdr = [], []
        st = p.b
        for e in p.events:
            if e[1:2] != (self.m.file,):
                if e[0] == "write":
                    self.say("C20", f"{key}/writes to its file", None, "something is written to another file", e[-1], st)
                continue
            if e[0] == "truncate":
                self.say("C20", f"{key}/appends only", st.eq(e[2], end) is True or False, f"the file is truncated at {show(e[2])}", e[-1], st)
            if e[0] != "write":
                continue
            n = st.norm(bslen(e[3]))
            if hdr and st.eq(e[2], hdr[-1][3]) is True:
                hdr.append((e[2], e[3], e[4], st.norm(add(e[2], n))))
            elif st.eq(e[2], end) is True:
                if hdr:
                    self.say("C10", f"{key}/the header is written last", False, "object data is written after the final header", e[-1], st)
                ws.append((e[2], e[3], e[4]))
                end = st.norm(add(end, n))
                self.say("C20", f"{key}/appends only", True, "")
            elif e[2] == 0 and allow_header:
                hdr.append((e[2], e[3], e[4], n))
            else:
                v = st.eq(e[2], end)
                if v is None:
                    v = False if witness(st, [e[2], end], lambda x, y: x != y) is not None else None
                self.say("C20", f"{key}/appends only", v, f"bytes are written at {show(e[2])}, the file ends at {show(end)}", e[-1], st, (e[2], end))
                end = None
                return None, hdr, None
        return ws, hdr, end

    def part(self, key, p, d, shrink=False):
        """conservation and container format on one part; d: may the object's bytes be added (None: not allowed, 'once': either way here)
        -> (object was added?, header writes, end of file) """
        st, m = p.b, self.m
        ws, hdr, end = self.appended(key, p, d == "close")
        if ws is None:
            return None, hdr, end
        b0, b1 = self.h.buf(p.a), self.h.buf(st)
        if b0 is None or b1 is None:
            self.say("C08", f"{key}/conserved", None, "the buffer is not followed")
            return None, hdr, end
        b0 = st.norm_bs(b0)
        cs, rest, problem = containers(st, p.a.get(m.file).size, ws)
        self.scope["containers"] += len(cs)
        loc = ws[-1][2] if ws else p.loc
        if problem == "no container":
            foreign = [g for g in rest if g[0] == "s" and not odd(mkbs([g]))]
            self.say("C12", f"{key}/everything is in containers", False if foreign or rest[0][0] == "c" else None,
                     f"{show(mkbs(rest))[:160]} is written outside of a container", loc, st)
            return None, hdr, end
        if problem == "short" and rest and rest[0][0] == "s" and rest[0][1] in plain_sources(m, b0) and feasible_le(st, 1, st.norm(seglen(rest[0]))) is True:
            self.say("C12", f"{key}/everything is in containers", False, f"{show(mkbs(rest[:1]))[:160]} is written outside of a container", loc, st)
            return None, hdr, end
        if problem:
            self.say("C12", f"{key}/everything is in containers", None, "the written bytes are not followed", loc)
            return None, hdr, end
        content = b""
        for c in cs:
            self.container(key, st, c)
            cb = c.content if isinstance(c.content, (bytes, Bs)) else None
            if cb is None or c.opaque:
                self.say("C08", f"{key}/conserved", None, "the stored contents are not followed", c.loc)
                return None, hdr, end
            content = concat(content, cb, st)
        got = st.norm_bs(concat(content, b1, st))
        has = holds(st, got, m.payload)
        want = [b0, "pad", m.payload, "pad"] if has else [b0, "pad"]
        if has and d is None:
            want = [b0, "pad"]
        v, pads, why = conserve(st, got, want, None)
        self.say("C08", f"{key}/conserved", v, f"after {p.kind}, of stored + kept bytes {why}", loc, st, (got, b0))
        if v:
            self.padding(key, st, b0, pads, has, loc)
            if has and d == "once":
                n0 = st.norm(bslen(b0))
                self.places.append((st, n0, st.norm(add(n0, pads.get(1, 0))), st.norm(bslen(got)), st.norm(bslen(st.norm_bs(content))), loc))
        for c in cs:
            n = st.norm(bslen(st.norm_bs(c.content)))
            v = st.le(n, m.bsize)
            if v is not True:
                v = False if witness(st, [n, m.bsize], lambda x, y: x > y > 0) is not None else None
            self.say("C12", f"{key}/container/no larger than the buffer size", v, f"{show(n)} bytes are put into one container, the buffer size is {show(m.bsize)}", c.loc, st, (n,))
        if shrink:
            self.shrinks(key, p, b0, b1, loc)
        return has, hdr, end

    def padding(self, key, st, b0, pads, has, loc):
        total = 0
        for i, k in sorted(pads.items()):
            total = add(total, k)
        n = st.norm(bslen(b0))
        lead = pads.get(1, 0)
        few = st.le(total, 7)
        if few is not True:
            if has and st.le(lead, 7) is True and st.le(pads.get(3, 0), 7) is True:
                few = None
            else:
                few = False if feasible_le(st, 8, total) else None
        self.say("C08", f"{key}/fewer than eight bytes of padding", few, f"{show(total)} zero bytes are added", loc, st, (total,))
        if not has and st.eq(lead, 0) is not True and not self.fills_up(st, n, lead):
            a = st.residue(add(n, lead), 8)
            v = True if a == 0 else None if witness(st, [n, lead], lambda x, y: (x + y) % 8) is None else False
            self.say("C08", f"{key}/padding does not pile up", v,
                     f"{show(lead)} zero bytes are added to a buffer of {show(n)} bytes without an object, as often as this happens", loc, st, (n, lead))

    def fills_up(self, st, n, lead):
        """one zero byte, and only while the length is no multiple of eight: at most seven of them, however often it is done"""
        if lead != 1:
            return False
        s2 = st.clone()
        r = mod_(s2, n, 8)
        if isinstance(r, int):
            return r != 0
        return st.eq(r, 0) is False or s2.assume_eq(r, 0) is False

    def shrinks(self, key, p, b0, b1, loc):
        st = p.b
        n0, n1 = st.norm(bslen(b0)), st.norm(bslen(b1))
        if n1 == add(n0, 1) and self.fills_up(st, n0, 1):
            self.say("C08", f"{key}/the loop ends", True, "")
            return
        v = st.le(add(n1, 1), n0)
        if v is None:
            v = False if witness(st, [n0, n1], lambda x, y: y >= x) is not None else None
        self.say("C08", f"{key}/the loop ends", v, f"a pass may leave {show(n1)} of {show(n0)} buffered bytes, so that it repeats for ever", p.loc or loc, st,
                 (n0, n1))

    # ---- C11, C12: one container
    def container(self, key, st, c):
        m = self.m
        site = c.loc
        k = f"{key}/container"
        z = st.norm(c.pad)
        v = st.le(z, 7)
        a = st.residue(c.at, 8)
        al = True if a == 0 else False if a else None
        if al is None:
            al = False if witness(st, [c.at], lambda x: x % 8 != 0) is not None else None
        self.say("C12", f"{k}/starts at a multiple of eight", al, f"a container starts at file position {show(c.at)}", site, st, (c.at,))
        h = c.head
        self.num("C12", f"{k}/type", st, read_item(st, h, 12, "u4", 4), spec.LOG_CONTAINER, "the type code of a container", site)
        hs = read_item(st, h, 4, "u2", 2)
        self.say("C12", f"{k}/header size", True if hs in (16, 32) else (False if isinstance(hs, int) else None), f"the header size of a container is {show(hs)}", site, st)
        self.num("C12", f"{k}/header version", st, read_item(st, h, 6, "u2", 2), 1, "the header version of a container", site)
        self.num("C12", f"{k}/declared size", st, c.declared, st.norm(add(32, bslen(c.data))), "the declared size of a container", site)
        self.num("C12", f"{k}/compression method", st, read_item(st, h, 16, "u2", 2), c.method, "the compression method of a container", site)
        for lo, hi in ((18, 24), (28, 32)):
            z = st.norm_bs(as_slice(st, h, lo, hi))
            v = z == bytes(hi - lo)
            if not v:
                nums = [st.norm(read_item(st, h, i, "u1", 1)) for i in range(lo, hi)]
                if all(isinstance(x, int) for x in nums):
                    v = not any(nums)
                elif all(isinstance(x, (int, Aff)) and not odd(x) for x in nums):
                    v = True if all(st.eq(x, 0) is True for x in nums) else False if any(witness(st, [x], lambda y: y != 0) for x in nums) else None
                else:
                    v = None
            if not v and lo == 28:
                w = read_item(st, h, 24, "u8", 8)
                size = bslen(c.content) if isinstance(c.content, (bytes, Bs)) else None
                v = True if size is not None and same_num(st, w, st.norm(size)) is True else v
            self.say("C12", f"{k}/reserved bytes {lo} to {hi - 1} are zero", v, f"the reserved bytes of a container are {show(z)}", site, st)
        size = bslen(c.content) if isinstance(c.content, (bytes, Bs)) else None
        if size is None:
            self.say("C12", f"{k}/uncompressed size", None, "the compressed data is not followed", site)
        else:
            wide, low = read_item(st, h, 24, "u8", 8), read_item(st, h, 24, "u4", 4)
            if same_num(st, low, st.norm(size)) is True:
                self.say("C12", f"{k}/uncompressed size", True, "")
            else:
                self.num("C12", f"{k}/uncompressed size", st, wide, st.norm(size), "the uncompressed size of a container", site)
        L = m.level
        if c.method == 2:
            lv = st.le(1, L)
            if lv is not True:
                lv = False if feasible_le(st, L, 0) else None
            self.say("C11", f"{k}/compressed only above level 0", lv, "contents are compressed at level 0", site, st)
            g = c.level.v if isinstance(c.level, EnumVal) else c.level
            ok = same_num(st, g, L) if isinstance(g, (int, Aff, Sym)) else None
            if ok is False and not isinstance(g, int) and odd(g):
                ok = None
            self.say("C11", f"{k}/compressed with the given level", ok, f"contents are compressed with level {show(g)} instead of the given one", site, st,
                     (g,) if isinstance(g, (int, Aff)) else ())
            w = c.wbits
            okw = True if w in (9, 10, 11, 12, 13, 14, 15) else (False if isinstance(w, int) else None)
            self.say("C12", f"{k}/zlib format", okw, f"contents are compressed with wbits={show(w)}, not in zlib format", site, st)
        else:
            lv = st.le(L, 0)
            if lv is not True:
                lv = False if feasible_le(st, 1, L) else None
            self.say("C11", f"{k}/compressed above level 0", lv, "contents are stored uncompressed at a level above 0", site, st)

    # ---- the whole
    def run(self):
        m = self.m
        self.construct()
        self.heads = []
        for s, v in m.reps():
            h = m.head(s, v)
            self.h, self.taint, self.base, self.loops = h, set(), set(), {}
            loc, why = h.buffer
            if why:
                self.problems.append(why)
                continue
            if loc is not None:
                v = m.I.read_loc(h.pre, loc)
                i = v.id if isinstance(v, Ref) else loc[1]
                self.say("C08", "constructor/the buffer is the writer's own", i not in m.before.heap and i not in m.before.base,
                         "what is buffered is kept in an object that all writers share", "", h.pre)
            for l in h.mod:
                self.taint_loc(h.start, l, h.groups)
            self.base |= set(self.facts(h.start))
            self.counters = self.find_counters(h)
            self.heads.append(h)
            self.first_header = None
            ws = [e for e in s.events if e[0] == "write" and e[1] == m.file]
            if ws:
                fb = s.norm_bs(mkbs([g for e in ws for g in segs_of(e[3])]))
                self.first_header = fb if s.eq(s.norm(bslen(fb)), HDR) is True else None
            o = h.start.get(m.file)
            if o.size is None:
                self.problems.append("the length of the file is not followed")
                continue
            b = h.buf(h.pre)
            if b is None:
                self.problems.append("the buffer is not followed")
                continue
            self.say("C08", "constructor/empty buffer", h.pre.norm_bs(b) == b"" or (None if odd(b) else False), f"the buffer starts with {show(b)}", "", h.pre)
            self.writes(h)
            self.closes(h)
            self.loop_bodies()
        if not self.heads and not self.problems:
            self.problems.append("no path through the writer's constructor succeeds")
        return self

    def construct(self):
        m = self.m
        for s, v in m.ctors:
            self.paths += 1
            if isinstance(v, Raised):
                if s.le(1, m.bsize) is True:
                    self.say("C08", "constructor/accepts every positive buffer size", False, f"{excname(v)} is raised for a positive buffer size", v.loc, _plain(s))
                elif s.le(m.bsize, 0) is True:
                    self.say("C08", "constructor/refuses with ValueError", excname(v).endswith("ValueError"), f"{excname(v)} is raised for a buffer size that is not positive",
                             v.loc, _plain(s))
                else:
                    self.say("C08", "constructor/succeeds", None, f"{excname(v)} is raised", v.loc)
                continue
            ws = [e for e in s.events if e[0] == "write" and e[1] == m.file]
            pos, acc = 0, b""
            ok = True
            for e in ws:
                if s.eq(e[2], pos) is not True:
                    ok = False
                acc = concat(acc, e[3], s)
                pos = s.norm(bslen(acc))
            site = ws[-1][4] if ws else ""
            self.say("C20", "constructor/starts with a complete header", ok and s.eq(pos, HDR) is True or False,
                     f"the constructor writes {show(pos)} bytes, the header has {HDR}", site, _plain(s))
            if ok and s.eq(pos, HDR) is True:
                self.header("constructor", s, acc, site, "C20")
                mine = {stamp(e) for e in s.events if e[0] in ("time", "now")}
                v, why = self.last_time(s, acc, mine, "measurement_start_time", "the start time", "the time of the construction")
                self.say("C10", "constructor/start time", v, why, site, _plain(s))
                o = s.get(m.file)
                self.say("C20", "constructor/is at the end of the header", s.eq(o.pos, HDR) is True or False, f"the position is {show(o.pos)}", site, _plain(s))

    def header(self, key, st, b, site, prop):
        self.num(prop, f"{key}/header: compression level", st, field(st, b, "compression_level"), self.m.level, "the recorded compression level", site)
        self.num("C11", f"{key}/header: compression level", st, field(st, b, "compression_level"), self.m.level, "the recorded compression level", site)
        sig = st.norm_bs(as_slice(st, b, 0, 4))
        self.say(prop, f"{key}/header: signature", sig == spec.FILE_SIGNATURE or (None if odd(sig) else False), f"the signature is {show(sig)}", site, _plain(st))
        self.num(prop, f"{key}/header: header size", st, field(st, b, "statistics_size"), HDR, "the recorded header size", site)

    # ---- C08, C09 on a single write
    def writes(self, h):
        m = self.m
        base = [self.final_header(s, r, "closing") for s, r in h.closes]
        base = [b for b in base if b]
        for s, r in h.ends:
            self.paths += 1
            self.scope["writes"] += 1
            n = s.norm(bslen(m.payload))
            same = s.eq(n, m.declared)
            if isinstance(r, Raised):
                self.rejected(h, s, r, same, base)
                continue
            v = same
            if v is not True:
                v = False if v is False or witness(s, [n, m.declared], lambda x, y: x != y) is not None else None
            self.say("C09", "a misdeclared size is refused", v, "write() accepts an object whose encoding has another length than declared", "", s)
            if v is False:
                continue
            self.say("C14", "write/the object stays as it was", self.object_unchanged(h.start, s), "write() changes the object it stores", "", s)
            self.conserved(h, s, "write", r)
            self.prompt(h, s)
            self.after_write(h, s, base)
        for s, r in m.call(h.pre, h.w, "write", [m.obj]):
            self.say("C14", "first write/the object stays as it was", self.object_unchanged(h.pre, s) or (None if s.unk else False), "write() changes the object it is given")
            n = s.norm(bslen(m.payload))
            if isinstance(r, Raised):
                ok = False if witness(s, [n, m.declared], lambda x, y: x == y) is not None else True
                self.say("C08", "first write/accepts every well-formed object", ok, f"{excname(r)} is raised for an object of the declared length", r.loc, s)
            else:
                ok = True if s.eq(n, m.declared) is True else False if witness(s, [n, m.declared], lambda x, y: x != y) is not None else None
                self.say("C09", "first write/a misdeclared size is refused", ok, "write() accepts an object whose encoding has another length than declared", "", s)
        self.aligned()

    def prompt(self, h, s):
        """C20: a full buffer is stored before the call returns"""
        m = self.m
        b = h.buf(s)
        loop = any(e[0] == "loop" and self.mattering(e[1]) for e in s.events)
        if any(e[0] == "write" and e[1] == m.file for e in s.events) or loop and b is None:
            self.say("C20", "write/a full buffer is stored", True, "")
            return
        if b is None:
            self.say("C20", "write/a full buffer is stored", None, "the buffer is not followed")
            return
        n = s.norm(bslen(s.norm_bs(b)))
        v = s.le(add(n, 1), m.bsize)
        if loop and s.le(n, m.bsize) is not True:
            v = True                # what the loop leaves is not bounded here; closing is held to store it
        if v is not True:
            v = False if witness(s, [n, m.bsize], lambda x, y: x >= y > 0) is not None else None
        self.say("C20", "write/a full buffer is stored", v, f"nothing is stored although {show(n)} bytes wait in a buffer of {show(m.bsize)}", "", s, (n,))

    def aligned(self):
        """C08: objects start at multiples of eight of the contents. Either each is put there wherever the buffer ends, or the buffer always ends there"""
        T, self.places = self.places, []
        if not T:
            return
        first, inductive, off, odd_end = [], [], None, None
        for st, n0, at, n1, stored, loc in T:
            first.append(st.residue(at, 8) == 0)
            s8 = st.clone()
            known = s8.assume_eq(atom(Sym("mod", (n0, 8), "int")), 0) if not isinstance(n0, int) else n0 % 8 == 0
            inductive.append(known is False or s8.residue(at, 8) == 0 and s8.residue(n1, 8) == 0)
            if st.unk or self.tainted(st, (at, n1)):
                continue
            if off is None and not first[-1]:
                if witness(st, [n0, at], lambda x, y: x % 8 == 0 and y % 8 != 0) is not None:
                    off = (st, at, loc)
                    odd_end = off
                elif witness(st, [n0, at], lambda x, y: x % 8 and y % 8) is not None:
                    off = (st, at, loc)
            if odd_end is None and stored == 0 and witness(st, [n0, n1], lambda x, y: x % 8 == 0 and y % 8 != 0) is not None:
                odd_end = (st, at, loc)
        v = True if all(first) or all(inductive) else False if off and odd_end else None
        st, at, loc = off or (T[0][0], T[0][2], T[0][5])
        self.say("C08", "write/objects start at multiples of eight", v, f"an object is put at byte {show(at)} of the buffered data", loc, st, (at,))
        for st, n0, at, n1, stored, loc in T:
            if stored == 0:
                continue
            s8 = st.clone()
            if s8.assume_eq(atom(Sym("mod", (self.m.bsize, 8), "int")), 0) is False:
                continue
            v = True if s8.residue(stored, 8) == 0 else None
            if v is None and witness(st, [self.m.bsize, stored], lambda x, y: x % 8 == 0 and y % 8 != 0) is not None:
                v = False
            self.say("C08", "write/containers end at multiples of eight", v,
                     f"{show(stored)} bytes are stored, so that the next object does not start at a multiple of eight of the contents", loc, st, (stored,))

    def conserved(self, h, s, key, r):
        m = self.m
        ps = self.parts(h.start, s, s.events, [], "an accepted object")
        added = []
        for p in ps:
            has, hdr, end = self.part(key, p, "once")
            added.append(has)
        if None in added:
            return
        self.say("C08", f"{key}/the object is stored once", True if added.count(True) == 1 else False,
                 "the object is not stored" if not any(added) else "the object is stored more than once", "", s)

    def object_unchanged(self, start, s):
        m = self.m
        ids = reach(start, m.obj)
        ch = [l for l, v in m.I.changes(start, s) if l[1] in ids]
        return not ch

    def rejected(self, h, s, r, same, base):
        m = self.m
        site = r.loc
        if same is True:
            self.say("C08", "write/accepts every well-formed object", False, f"{excname(r)} is raised for an object of the declared length", site, s)
            return
        if same is None:
            n = s.norm(bslen(m.payload))
            if witness(s, [n, m.declared], lambda x, y: x == y) is not None:
                self.say("C08", "write/accepts every well-formed object", False, f"{excname(r)} is raised for an object of the declared length", site, s)
        self.say("C09", "refused with ValueError", excname(r).endswith("ValueError"), f"{excname(r)} is raised instead of ValueError", site, s)
        ps = self.parts(h.start, s, s.events, [], "a refused object")
        for p in ps:
            has, hdr, end = self.part("refused write", p, None)
            ws = [e for e in p.events if e[0] == "write" and e[1] == m.file]
            if has:
                self.say("C09", "nothing of a refused object is kept", False, "bytes of the refused object are kept", site, s)
            elif has is False:
                self.say("C09", "nothing of a refused object is kept", True, "")
            if ws:
                self.say("C09", "a refused object writes nothing", None, "refusing an object writes to the file", ws[0][4])
        after = self.same_header(h, s, base, "refused write", 0, site)
        mine = {stamp(e) for e in s.events if e[0] in ("time", "now")}
        got = [(self.last_time(s2, b2, mine)[0], s2) for s2, b2, _ in after or ()]
        if got:
            every = all(v is True and not s2.unk for v, s2 in got)
            for prop in ("C09", "C10"):
                self.say(prop, "refused write/last object time", False if every else None if any(v is True for v, _ in got) else True,
                         "a refused object changes the recorded time of the last object", site)

    # ---- C10
    def final_header(self, s, r, key):
        """bytes of the header that closing wrote, with the state"""
        if isinstance(r, Raised):
            return None
        ev = list(s.events)
        hdr = []
        pos = None
        for e in ev:
            if e[0] == "write" and e[1] == self.m.file:
                if e[2] == 0 or (hdr and pos is not None and s.eq(e[2], pos) is True):
                    hdr.append(e)
                    pos = s.norm(add(e[2], bslen(e[3])))
        if not hdr:
            return None
        b = mkbs([g for e in hdr for g in segs_of(e[3])])
        if s.eq(s.norm(bslen(b)), HDR) is not True:
            return None
        return s, s.norm_bs(b), hdr[-1][4]

    def same_header(self, h, s, base, key, more, site):
        """counters in the header after this write (and close), against closing before it"""
        m = self.m
        after = [self.final_header(s2, r2, key) for s2, r2 in m.call(s, h.w, "close")]
        after = [a for a in after if a]
        if not after or not base:
            return after
        n = bslen(m.payload) if more else 0
        for f, inc in (("object_count", more), ("uncompressed_file_size", n)):
            was = {repr(strip_(field(s0, b0, f))): field(s0, b0, f) for s0, b0, _ in base}
            if len(was) != 1:
                self.say("C10", f"{key}/{f}", None, f"{f} depends on the path")
                continue
            w = next(iter(was.values()))
            for s2, b2, site2 in after:
                g = field(s2, b2, f)
                if not isinstance(w, (int, Aff)) or not isinstance(g, (int, Aff)):
                    self.say("C10", f"{key}/{f}", None, f"{f} is not followed")
                    continue
                want = s2.norm(add(w, inc))
                v = numbers(s2, g, want)
                for prop in ("C10",) if more else ("C09", "C10"):
                    self.found.append((prop, f"{key}/{f}", None if v is False and (s2.unk or odd(g)) else v,
                                       f"{f} becomes {show(g)} instead of {show(want)}" + ("" if more else " though the object was refused"), str(site or site2)))
        return after

    def after_write(self, h, s, base):
        """time and counters after an accepted object"""
        after = self.same_header(h, s, base, "accepted write", 1, "")
        mine = {stamp(e) for e in s.events if e[0] in ("time", "now")}
        got = [(self.last_time(s2, b2, mine), s2, site) for s2, b2, site in after or ()]
        # whatever happens after this write, it ends on one of these paths
        every = bool(got) and all(v is False and not s2.unk for (v, _), s2, _ in got)
        for (v, why), s2, site in got:
            self.say("C10", "accepted write/last object time", v, why, site, None if every else s2)

    def last_time(self, st, b, mine, name="last_object_time", who="the last object's time", when="the time of this write"):
        bases = set()
        for part in ("year", "month", "day", "hour", "minute", "second"):
            g = strip_(field(st, b, name + "." + part))
            a = getattr(g, "atom", g)
            if isinstance(g, int):
                return False, f"the {part} of {who} is the constant {g}"
            if not isinstance(a, Sym) or a.tag != "dtattr":
                return None, f"the {part} of {who} is {show(g)}"
            bases.add(a.args[0])
        if len(bases) != 1:
            return None, f"the parts of {who} come from different values"
        t = next(iter(bases))
        while isinstance(t, Sym) and t.tag in ("dtconv", "dtreplace") and t.args:
            t = t.args[0]
        if not isinstance(t, Sym):
            return None, f"{who} is {show(t)}"
        if t.tag == "dtfrom":
            src = t.args[0]
            src = getattr(src, "atom", src)
            if not utc(t.args[1]):
                return (False if t.args[1] is None else None), f"{who} is taken in {show(t.args[1]) if t.args[1] is not None else 'local time'}, not UTC"
            if src in mine:
                return True, ""
            if isinstance(src, Sym) and src.tag in ("fresh",):
                return False, f"{who} is {show(src)}, not {when}"
            return None, f"{who} is {show(src)}"
        if t.tag == "dtnow":
            if t.args[0] != "utcnow" and not any(utc(a) for a in t.args[2:]):
                return False, f"{who} is local time, not UTC"
            return (True if t in mine else False), f"{who} is not {when}"
        return None, f"{who} is {show(t)}"

    # ---- closing
    def closes(self, h):
        m = self.m
        for label, outs in (("close", h.closes), ("close without objects", h.empty)):
            for s, r in outs:
                self.scope["closes"] += 1
                self.paths += 1
                self.close_path(h, label, s, r, h.start if label == "close" else h.pre)
        # leaving the context closes the writer as well
        for label, a in exit_args(m.I, h.start):
            for s, r in m.call(h.start, h.w, "__exit__", a):
                n = len(self.found)
                self.close_path(h, f"leaving the context, {label}", s, r, h.start)
                self.left.setdefault(label, []).extend(self.found[n:])
        # an object that comes too late
        for s, r in h.closes + h.empty:
            if isinstance(r, Raised):
                continue
            for s2, r2 in m.call(s, h.w, "write", [m.obj]):
                if m.file not in closed_refs(s):
                    continue
                self.say("C08", "write after close/refused", isinstance(r2, Raised) or (None if s2.unk else False),
                         "an object written after closing is accepted and lost", "BlfWriter.write", s2)
        for s, r in h.empty:
            f = self.final_header(s, r, "close")
            if f:
                s, b, site = f
                self.num("C10", "close without objects/object_count", s, field(s, b, "object_count"), 0, "the recorded object count", site)
                self.num("C10", "close without objects/uncompressed_file_size", s, field(s, b, "uncompressed_file_size"), HDR, "the recorded uncompressed size", site)

    def close_path(self, h, label, s, r, start, prop="C08"):
        m = self.m
        if isinstance(r, Raised):
            self.say("C08", f"{label}/succeeds", False, f"{excname(r)} is raised", r.loc, s)
            return
        ps = self.parts(start, s, s.events, [], "closing")
        hdrs = []
        end = None
        for p in ps:
            has, hdr, end = self.part(label, p, "close")
            hdrs += [(x, p) for x in hdr]
        b = h.buf(s)
        if b is not None:
            b = s.norm_bs(b)
            n = s.norm(bslen(b))
            v = s.eq(n, 0)
            if v is None:
                v = False if witness(s, [n], lambda x: x > 0) is not None else None
            self.say("C08", f"{label}/everything is stored", v, f"{show(n)} buffered bytes are left behind", ps[-1].loc, s, (n,))
        if not hdrs:
            self.say("C10", f"{label}/writes the final header", False, "closing does not write the header", "", s)
            return
        hb = mkbs([g for x, p in hdrs for g in segs_of(x[1])])
        site = hdrs[-1][0][2]
        n = s.norm(bslen(hb))
        ok = s.eq(n, HDR) is True
        self.say("C10", f"{label}/the header has its size", ok or (False if isinstance(n, int) else None), f"{show(n)} bytes are written over the header of {HDR}", site, s)
        if not ok:
            return
        hb = s.norm_bs(hb)
        self.header(label, s, hb, site, "C10")
        b0 = self.first_header
        if b0 is not None:
            lo, n = FIELDS["measurement_start_time.year"][1], 16
            x, y = s.norm_bs(as_slice(s, b0, lo, lo + n)), s.norm_bs(as_slice(s, hb, lo, lo + n))
            v = x == y or (None if odd(y) or any(g[0] == "s" for g in segs_of(y)) and len(segs_of(y)) == 1 else False)
            self.say("C10", f"{label}/header: start time", v, f"the recorded start time is {show(y)}, at the construction it was {show(x)}", site, s, (y,))
        o = s.get(m.file)
        got = field(s, hb, "file_size")
        self.num("C10", f"{label}/header: file size", s, got, o.size, "the recorded file size", site)
        if self.found[-1][2] is None:
            self.stale_size(h, label, s, got)

    def stale_size(self, h, label, s, got):
        """the recorded size is what a loop left in some place: does the last pass make it the length of the file?"""
        m = self.m
        for e in s.events:
            if e[0] != "loop":
                continue
            rec = e[1]
            for l in rec.mod:
                if l[0] in ("pos", "size", "len"):
                    continue
                try:
                    v0 = strip_(m.I.read_loc(rec.start, l))
                    if not isinstance(v0, (Aff, Sym)) or rec.start.eq(v0, got) is not True:
                        continue
                except (KeyError, TypeError):
                    continue
                p0 = rec.start.get(m.file).size
                for s2, ev in rec.iters:
                    v1, p1, b1 = strip_(m.I.read_loc(s2, l)), s2.get(m.file).size, h.buf(s2)
                    if p0 is None or p1 is None or b1 is None or s2.unk or not isinstance(v1, (int, Aff)):
                        continue
                    w = witness(s2, [v0, p0, v1, p1, s2.norm(bslen(s2.norm_bs(b1)))], lambda a, b, c, d, n: a == b and c != d and n == 0)
                    if w is not None:
                        self.found.append(("C10", f"{label}/header: file size", False,
                                           f"after a pass that empties the buffer the recorded size is {show(v1)}, the file ends at {show(p1)}", str(rec.loc)))
                        return

    def loop_bodies(self):
        done = set()
        while True:
            todo = [r for k, r in self.loops.items() if k not in done]
            if not todo:
                return
            for rec in todo:
                done.add(id(rec))
                self.scope["loops"] += 1
                for s, ev in rec.iters:
                    ps = self.parts(rec.start, s, ev, [], "a pass of the loop")
                    key = f"loop in {rec.loc.func}" if hasattr(rec.loc, "func") else f"loop at {rec.loc}"
                    for p in ps:
                        p.loc = rec.loc
                        has, hdr, end = self.part(key, p, None, shrink=len(ps) == 1)
                        if has:
                            self.say("C08", f"{key}/stores no object by itself", False, "the object is stored in a loop", rec.loc, s)


def numbers(st, got, want):
    """equal for all values? False with an admissible valuation that distinguishes them"""
    if isinstance(got, (int, Aff)) and isinstance(want, (int, Aff)):
        d = st.eq(got, want)
        if d is None:
            d = False if witness(st, [got, want], lambda x, y: x != y) is not None else None
        return d
    return same_num(st, got, want) if got is not None else None


def stamp(e):
    return e[2] if isinstance(e[2], Sym) else getattr(e[2], "atom", e[2])


def _plain(st):
    return st


def plain_sources(m, b0):
    return {m.payload.segs[0][1]} | {g[1] for g in segs_of(b0) if g[0] == "s"}


def strip_(v):
    while isinstance(v, EnumVal):
        v = v.v
    return v


def field(st, b, name):
    _, off, kind, enum = FIELDS[name]
    return strip_(st.norm(read_item(st, b, off, kind, spec.ksize(kind))))


def as_slice(st, b, lo, hi):
    from .state import bs_slice
    return bs_slice(st, b, lo, hi)


def utc(x):
    return x is not None and getattr(x, "name", "") in ("datetime.timezone.utc", "datetime.UTC") or str(x) in ("datetime.timezone.utc", "datetime.UTC")


def reach(st, ref):
    seen, todo = set(), [ref]
    while todo:
        x = todo.pop()
        if isinstance(x, Ref):
            if x.id in seen:
                continue
            seen.add(x.id)
            o = st.get(x)
            if isinstance(o, Inst):
                todo += list(o.attrs.values())
            else:
                todo += list(getattr(o, "items", ()) or ())
        elif isinstance(x, tuple):
            todo += list(x)
    return seen


# ------------------------------------------------------------------------------------------------ the checks
def writer_part(P, chk, prop, level="int", name="writer"):
    with chk.group(name):
        R = Rules(P, level).run()
        chk.paths += R.paths
        for k, v in R.scope.items():
            chk.scope[f"{name}_{k}"] = v
        for h in R.heads:
            for s, _ in h.ends + h.closes:
                chk.use(s)
        for p in R.problems:
            chk.undecided(f"{name}/structure", p)
        for p, key, v, text, site in R.found:
            if p == prop:
                chk.decide(f"{name}/{key}", v, text, site)
        if prop == "C08" and R.m.I.grew:
            try:
                kept(P, chk, R, level, name)
            except (KeyError, TypeError, AttributeError):
                pass
        return R
    return None


def kept(P, chk, R, level, name):
    """tables that are filled while objects are written: when what they give matters, it must depend on the key alone"""
    R2 = Rules(P, level, True).run()
    open_ = [{(p, k) for p, k, v, _, _ in r.found if v is None} for r in (R, R2)]
    if R.problems or R2.problems or len(open_[0]) <= len(open_[1]):
        return
    for h in R2.heads:
        passes = {}
        for s, r in h.ends:
            if not isinstance(r, Raised):
                for l, now in R2.m.I.changes(h.start, s):
                    if l[0] == "obj":
                        passes.setdefault(l[1], []).append((s, memo.added(R2.m.I.read_loc(h.start, l), now), ""))
        for ps in passes.values():
            if all(pairs is not None for _, pairs, _ in ps):
                why = memo.judge(ps)
                if why:
                    chk.decide(f"{name}/what is stored does not depend on earlier objects", False, why[0], why[1])


def c08(P, chk):
    writer_part(P, chk, "C08")


def c09(P, chk):
    writer_part(P, chk, "C09")


def c10(P, chk):
    writer_part(P, chk, "C10")


def c11(P, chk):
    writer_part(P, chk, "C11")
    writer_part(P, chk, "C11", "enum", "writer with a named level")
    c11_reader(P, chk)


def c12(P, chk):
    writer_part(P, chk, "C12")


def c13(P, chk):
    c13_reader(P, chk)
    with chk.group("writer/leaving"):
        m = WriterModel(P)
        R = Rules(P).run()
        for s0, v in m.reps():
            leaving(P, chk, m, m.head(s0, v))
        for label, found in R.left.items():
            for p, k, v, text, site in found:
                if p == "C08" and k.endswith("/conserved"):
                    chk.decide(f"writer/{label}/everything is stored", v, text, site)
    with chk.group("writer/failing"):
        m = WriterModel(P, faults=True)
        for s0, v in m.reps():
            failing(chk, m, m.head(s0, v))
    with chk.group("writer/constructor failures"):
        given_stays_open(chk, "writer", m.ctors, m.file)
        n = 0
        for name in ("str path", "bytes path", "PathLike"):
            st = P.fresh_state()
            a = dict(path_args(P, m.I, st))[name]
            for s, v in m.I.call(st, P.find("BlfWriter"), [a], {}, None, CTX()):
                chk.use(s)
                if isinstance(v, Raised):
                    for e in opened(s):
                        n += 1
                        chk.decide("writer/a constructor that fails closes the file it opened", e[1] in closed_refs(s) or (None if s.unk else False),
                                   f"the file stays open when {excname(v)} is raised", v.loc, s)
        if not n:
            chk.undecided("writer/a constructor that fails closes the file it opened", "no failing path was found")


def stored(h, m, s):
    """is everything stored and the header written? True / False / None"""
    b = h.buf(s)
    if b is None:
        return None, "the buffer is not followed"
    n = s.norm(bslen(s.norm_bs(b)))
    v = s.eq(n, 0)
    if v is not True:
        return (False if v is False or witness(s, [n], lambda x: x > 0) is not None else None), f"{show(n)} buffered bytes are left behind"
    hdr = [e for e in s.events if e[0] == "write" and e[1] == m.file and e[2] == 0]
    return (True if hdr else None if s.unk else False), "the header is not written"


def leaving(P, chk, m, h):
    I = m.I
    if h.buffer[1]:
        chk.undecided("writer/structure", h.buffer[1])
        return
    for s1, w in m.call(h.start, h.w, "__enter__"):
        chk.decide("writer/enter gives the writer", w == h.w or (None if s1.unk else False), f"__enter__ gives {excname(w) if isinstance(w, Raised) else show(w)}", "", s1)
        chk.decide("writer/enter keeps the file open", m.file not in closed_refs(s1), "__enter__ closes the file", "", s1)
    for label, a in exit_args(I, h.start):
        for s, r in m.call(h.start, h.w, "__exit__", a):
            chk.use(s)
            key = f"writer/{label}"
            leave(chk, I, key, s, r, m.file)
            if not isinstance(r, Raised):
                v, why = stored(h, m, s)
                chk.decide(f"{key}/everything is stored", v, why, "", s)
    for s, r in h.closes + h.empty:
        if isinstance(r, Raised):
            continue
        chk.use(s)
        chk.decide("writer/close closes the file", m.file in closed_refs(s) or (None if s.unk else False), "close() leaves the file open", "", s)
        for s2, r2 in m.call(s, h.w, "close"):
            key = "writer/closing again"
            if isinstance(r2, Raised):
                chk.decide(f"{key}/does nothing", None if s2.unk else False, f"{excname(r2)} is raised", r2.loc, s2)
                continue
            ev = [e for e in s2.events if e[0] in ("write", "seek", "truncate") and e[1] == m.file]
            chk.decide(f"{key}/does nothing", not ev or (None if s2.unk else False), "closing again writes or seeks", ev[0][-1] if ev else "", s2)


def failing(chk, m, h):
    """every operation on the file may fail"""
    n = 0
    for name, a in (("close", []), ("__exit__", [None, None, None])):
        for s, r in m.call(h.start, h.w, name, a):
            chk.use(s)
            f = [e for e in s.events if e[0] == "fault"]
            if not f:
                continue
            n += 1
            chk.decide(f"writer/{name} with a failing operation/file closed", m.file in closed_refs(s) or (None if s.unk else False),
                       f"the file stays open when {f[0][1]} fails", f[0][-1], s)
            if not isinstance(r, Raised):
                chk.decide(f"writer/{name} with a failing operation/reported", None if s.unk else False,
                           f"the failure of {f[0][1]} is swallowed", f[0][-1], s)
    if not n:
        chk.undecided("writer/close with a failing operation/file closed", "no failing path was found")


def c20(P, chk):
    R = writer_part(P, chk, "C20")
    if R is None:
        return
    with chk.group("writer/open mode"):
        for name in ("str path", "bytes path", "PathLike"):
            st = P.fresh_state()
            a = dict(path_args(P, R.m.I, st))[name]
            for s, v in R.m.I.call(st, P.find("BlfWriter"), [a], {}, None, CTX()):
                chk.use(s)
                for e in opened(s):
                    md = e[3]
                    ok = None if not isinstance(md, str) else md[:1] in ("w", "x") and "b" in md or md in ("bw", "bx", "bw+", "bx+")
                    chk.decide(f"writer/{name}/a new file", ok, f"opened with mode {md!r}: what the file held before stays in it", e[4], s)


def c14_writer(P, chk):
    writer_part(P, chk, "C14")
