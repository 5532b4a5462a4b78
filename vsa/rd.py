"""Model of the reader: its constructor paths and the transitions of every loop that consumes a stream.

Everything is found by role: the stream is what the loop reads, the carry is what is put in front of a container's contents, the
source of an iteration is what __iter__ returns. Loops are checked by induction over one pass from an arbitrary loop head.
"""
import ast

from . import memo, spec
from .codec import CTX, bs_equal, opaque, u
from .interp import BoundV, ClassV, FuncV, Interp, LoopRec, Raised
from .models import driver, stream_slice, tobs
from .state import GenO, Inst, State, StreamO, add, bslen, mkbs, read_item, segs_of, syms_of
from .terms import Aff, Bs, Ref, Sym, atom, parts, show, sub

HDR = 144


def F0(name="F"):
    return Sym("src", (name,), "bytes")


def bytes_of(st, stream, lo, hi):
    if st.eq(lo, hi) is True:
        return b""
    return st.norm_bs(stream_slice(st, stream, st.norm(lo), st.norm(hi)))


def rests_on(st, T):
    """the symbols of T that the facts of a state are about"""
    out = set()
    for d in (st.bounds, st.ne):
        for k in d:
            for x, _ in k:
                out |= T & ({x} | syms_of(x))
    for k in st.bools:
        out |= T & ({k} | syms_of(k))
    for k, v in st.subst.items():
        out |= T & ({k} | syms_of(k) | syms_of(v))
    return out


def odd(b):
    """is any of the bytes something else than input?"""
    return any(g[0] != "s" or not isinstance(g[1], Sym) or g[1].tag not in ("src", "fresh") for g in segs_of(b))


def is_var(v):
    """does the number contain a term that the rules cannot interpret?"""
    return any(s.tag not in ("u", "ub", "src", "rlen", "fresh", "len") for s in syms_of(v))


class Seg:
    """events between two consistent points of one stream: (start state of the loop head, events, end state)"""

    def __init__(self, head, events, end):
        self.head, self.events, self.end = head, events, end


class Path:
    def __init__(self, run, rec, end, events, kind, outcome=None):
        self.run, self.rec, self.end, self.events, self.kind, self.outcome = run, rec, end, events, kind, outcome


class Run:
    """one abstract execution of an object source (the generator over the file, or the same over a container's contents)"""

    def __init__(self, name, I, pre, ref, stream, outs):
        self.name, self.I, self.pre, self.ref, self.stream, self.outs = name, I, pre, ref, stream, outs
        self.loops = []
        seen = set()

        def visit(events):
            for e in events:
                if e[0] == "loop" and id(e[1]) not in seen:
                    seen.add(id(e[1]))
                    self.loops.append(e[1])
                    for _, ev in e[1].iters:
                        visit(ev)
                    for _, ev, _k in e[1].exits:
                        visit(ev)
        for s, _ in outs:
            visit(s.events)

    def reads(self):
        return any(e[0] == "read" for evs in [s.events for s, _ in self.outs] + [ev for lp in self.loops for _, ev in lp.iters]
                   + [ev for lp in self.loops for _, ev, _k in lp.exits] for e in evs)


class ReaderModel:
    def __init__(self, P, file_kind="user", forgets=False):
        self.P = P
        self.I = I = Interp(P)
        I.forgets = forgets
        self.cls = P.find("BlfReader")
        st = P.fresh_state()
        self.src = F0()
        self.fileref = st.alloc(StreamO(0, self.src, file_kind))
        self.before = st.clone()
        self.ctors = I.call(st, self.cls, [self.fileref], {}, None, CTX())
        self.good = [(s, v) for s, v in self.ctors if isinstance(v, Ref)]
        self.failed = [(s, v) for s, v in self.ctors if isinstance(v, Raised)]

    # ------------------------------------------------------------------ sources of objects
    def sources(self, s, v):
        """-> [(name, state, GenO, self ref)] for iteration"""
        out = []
        for s2, it in self.I.call_attr(s.clone(), v, "__iter__", [], {}, None, CTX()):
            if isinstance(it, Raised):
                out.append((s2, it))
                continue
            out.append((s2, it))
        return out

    def gen_for(self, s, it):
        o = s.get(it) if isinstance(it, Ref) else None
        if isinstance(o, GenO):
            return o
        if isinstance(o, Inst):
            f = driver(s, "def drive():\n    while True:\n        try:\n            obj = it.__next__()\n        except StopIteration:\n"
                            "            return\n        yield obj\n", {"it": it})
            return GenO(f, [], {})
        return None

    def run(self, name, s, ref, gen, stream):
        I = self.I
        s = s.clone()
        s.events = []
        pre = s.clone()

        def handler(s2, val, node, ctx):
            s2.events.append(("yield", val, s2.clone(), I.loc(node, ctx)))
            return [(s2, None)]
        outs = I.run_gen(s, gen, handler, None, CTX())
        return Run(name, I, pre, ref, stream, outs)

    def runs(self, s, v):
        """fixpoint over the effects of nested runs -> [Run for the file, Run for container contents ...] and problems"""
        I = self.I
        I.rec_mod.clear()
        problems = []
        srcs = self.sources(s, v)
        if len(srcs) != 1 or isinstance(srcs[0][1], Raised):
            return [], ["iterating does not give one object source"]
        s1, it = srcs[0]
        gen = self.gen_for(s1, it)
        if gen is None:
            return [], ["the object that iteration uses is not a generator or iterator the analysis follows"]
        stored = [o for o in (s1.get(x) for x in s1.get(v).attrs.values() if isinstance(x, Ref)) if isinstance(o, GenO)]
        for rnd in range(5):
            top = self.run("file", s1, v, gen, self.fileref)
            if rnd == 0 and len(stored) == 1 and gen is not stored[0] and not top.reads():
                # iteration draws from the stored source (what it does with the elements is checked with the access rules)
                gen = stored[0]
                top = self.run("file", s1, v, gen, self.fileref)
            rec = None
            for lp in top.loops:
                for st_, ev in lp.iters:
                    rec = rec or next((e for e in ev if e[0] == "recgen"), None)
            if rec is None:
                for st_, _ in top.outs:
                    rec = rec or next((e for e in st_.events if e[0] == "recgen"), None)
            if rec is None:
                return [top], problems
            st2 = rec[3].clone()
            args = list(rec[2])
            stream = None
            for i, a in enumerate(args):
                o = st2.get(a) if isinstance(a, Ref) else None
                if isinstance(o, StreamO):
                    stream = st2.alloc(StreamO(0, F0("N"), "bytesio"))
                    args[i] = stream
                elif isinstance(a, (bytes, Bs)):
                    args[i] = Bs((("s", F0("Na"), 0, atom(Sym("len", (F0("Na"),), "int"))),))
            nested = self.run("container", st2, v, GenO(rec[1], args, {}), stream)
            mods = {}
            skip = {("pos", stream.id) if stream else None}
            ends = [x for x, r in nested.outs] + [x for lp in nested.loops for x, _ in lp.iters]
            for x in ends:
                for l, val in I.changes(nested.pre, x):
                    if l in skip or l[0] == "closed":
                        continue
                    mods.setdefault(l, [])
                    if not any(type(w) is type(val) and w == val for w in mods[l]):
                        mods[l].append(val)
            # objects made by the source itself are named by the way to them from the arguments of the nested source
            known = set(s1.heap) | set(s1.base)
            ways = I.ways(rec[3], rec[1], rec[2])
            mods = {(("via", ways[l[1]]) + l[:1] + l[2:] if l[1] not in known and l[1] in ways else l): vals for l, vals in mods.items()}
            cur = I.rec_mod.get(rec[1].qual)
            if cur is not None and set(cur) == set(mods):
                return [top, nested], problems
            I.rec_mod[rec[1].qual] = mods
        problems.append("the effects of nested containers did not settle")
        return [top, nested], problems


# ------------------------------------------------------------------------------------------------ rules
class Rules:
    """collects (property, key, verdict True/False/None, text, site, state)"""

    def __init__(self, model):
        self.m = model
        self.I = model.I
        self.P = model.P
        self.found = []
        self.recs = []
        self.conflict = None     # a table that keeps more than its keys determine
        self.paths = 0
        self.loops = 0
        self.codes = {}          # type code -> set of outcomes
        self.uncaught = []
        self.lost = False        # was something on the way not followed?

    def put(self, prop, key, verdict, text="", site="", st=None):
        self.found.append((prop, key, verdict, text, str(site), st))

    # ---- helpers
    def size_at(self, st, stream, H):
        return st.norm(read_item(st, bytes_of(st, stream, H, add(H, 16)), 8, "u4", 4))

    def code_at(self, st, stream, H):
        return st.norm(read_item(st, bytes_of(st, stream, H, add(H, 16)), 12, "u4", 4))

    def same(self, st, a, b):
        a, b = st.norm(a), st.norm(b)
        d = st.eq(a, b)
        if d is None:
            return None if is_var(a) or is_var(b) else False
        return d

    def sig(self, st, stream, H):
        return self.I.beq_decide(st, bytes_of(st, stream, H, add(H, 4)), spec.OBJ_SIGNATURE)

    def site(self, events, default=""):
        for e in reversed(events):
            if e and str(type(e[-1]).__name__) == "Loc":
                return e[-1]
        return default

    # ---- one run
    def run(self, run):
        self.cur = run
        self.carry = None
        streams = {}
        for rec in run.loops:
            s = self.stream_of(rec)
            if s is not None:
                streams[id(rec)] = s
        self.streams = streams
        own = {s.id for s in streams.values()}
        if not streams:
            self.put("C06", f"{run.name}/loop", None, "no loop that reads a stream was found")
            return
        self.loops += len(streams)
        self.find_carry(run)
        for rec in run.loops:
            self.unrelated(rec)
        self.start(run)
        # steps of every loop
        for rec in run.loops:
            if id(rec) not in streams:
                if any(e[0] == "yield" for _, ev in rec.iters for e in ev) and not self.forwards(rec):
                    self.put("C06", f"{run.name}/loop", None, "objects are yielded by a loop that does not read the stream", rec.loc)
                continue
            for st, ev in rec.iters:
                self.paths += 1
                segs = self.segments(rec, ev, st)
                self.path(run, rec, segs, st, "step")
        # ends of the whole run
        for st, r in run.outs:
            self.paths += 1
            segs = self.segments(None, st.events, st)
            self.path(run, None, segs, st, "end" if not isinstance(r, Raised) else "raise", r)

    def unrelated(self, rec):
        """the induction takes every combination of the values that variables of the loop can have: paths that rest on two
        variables that change together may not exist, nothing is concluded from them"""
        vals = {}
        for l in rec.mod:
            if l[0] in ("pos", "size", "closed", "obj") or l == self.carry or l in rec.rel:
                continue
            try:
                v = self.I.read_loc(rec.start, l)
            except KeyError:
                continue
            if isinstance(v, Ref) or v is None:
                continue
            ss = {x for x in syms_of(v) if x.tag == "fresh"}
            if ss:
                vals[l] = ss
        if not vals:
            return
        every = set().union(*vals.values())
        states = [(st, ev) for st, ev in rec.iters] + [(st, ev) for st, ev, _ in rec.exits]
        used = set()
        for st, ev in states:
            used |= rests_on(st, every)
            for e in ev:
                if e[0] == "yield":
                    used |= every & syms_of(e[1])
        live = {l for l, ss in vals.items() if ss & used}
        bad = {l for l in live if any(x.ty == "any" for x in vals[l]) and not all(self.any_contents(st, vals[l]) for st, _ in states)}
        for st, _ in rec.iters:
            now = set()
            for l in live:
                try:
                    w = self.I.read_loc(st, l)
                except KeyError:
                    continue
                v = self.I.read_loc(rec.start, l)
                if not (type(w) is type(v) and w == v):
                    now.add(l)
            if len(now) > 1:
                bad |= now
        if not bad:
            return
        T = set().union(*(vals[l] for l in bad))
        why = (f"a path that depends on how {', '.join(sorted(str(l[-1]) for l in bad))} relate to each other", rec.loc)
        seen = set()

        def mark(st):
            if id(st) not in seen:
                seen.add(id(st))
                if rests_on(st, T):
                    st.unk.append(why)
        for st, ev in states:
            mark(st)
            for e in ev:
                for x in e:
                    if isinstance(x, State):
                        mark(x)

    def any_contents(self, st, T):
        """is all that is asked about these values whether they equal bytes of the input? (those can be anything)"""
        for k in st.bools:
            if T & ({k} | syms_of(k)):
                if k.tag != "beq" or not any(isinstance(b, Bs) and not T & syms_of(b) and not odd(b) for b in k.args):
                    return False
        about = [x for d in (st.bounds, st.ne) for k in d for x, _ in k] + [x for k, v in st.subst.items() for x in (k, v)]
        about = [x for x in about if not (isinstance(x, Sym) and x.tag == "len" and x.args[0] in T)]
        return not any(T & ({x} | syms_of(x)) for x in about)

    def forwards(self, rec):
        """a loop over a nested source that hands every element on, and nothing else"""
        for st, ev in rec.iters:
            if len(ev) != 1 or ev[0][0] != "yield" or not (isinstance(ev[0][1], Sym) and ev[0][1].tag == "recelem"):
                return False
            if any(l[0] != "var" for l, _ in self.I.changes(rec.start, st)):
                return False
        return all(brk is False and not ev for _, ev, brk in rec.exits)

    def start(self, run):
        """where the object source begins"""
        if run.name != "file":
            return
        o = run.pre.get(run.stream)
        self.put("C06", "file/starts behind the file header", self.same(run.pre, o.pos, HDR), f"objects are looked for from offset {show(o.pos)}",
                 "", run.pre)
        if self.carry is not None and self.carry[0] in ("attr", "ba"):
            st = run.pre
            if self.carry[1] not in st.heap and self.carry[1] not in st.base:
                st = next(rec for rec in run.loops if id(rec) in self.streams).pre
            v = self.I.read_loc(st, self.carry)
            b = tobs(run.pre, v) if isinstance(v, (bytes, Bs, Ref)) else None
            self.put("C06", "file/nothing precedes the first container", b == b"" or (False if isinstance(b, bytes) else None),
                     f"the first container is preceded by {show(v)}", "", st)

    def stream_of(self, rec):
        refs = []
        for st, ev in list(rec.iters) + [(s, e) for s, e, _ in rec.exits]:
            for e in ev:
                if e[0] in ("read", "seek") and isinstance(e[1], Ref) and e[1] not in refs:
                    refs.append(e[1])
        out = []
        for r in refs:
            try:
                o = rec.start.get(r)
            except KeyError:
                continue
            if isinstance(o, StreamO):
                out.append(r)
        if len(out) == 1:
            return out[0]
        return None

    def segments(self, rec, events, end):
        """split at inner loops that read a stream -> [(head loop or None, events, state at the end, next loop or None)]"""
        out = []
        head, cur = rec, []
        for e in events:
            if e[0] == "loop" and id(e[1]) in self.streams:
                out.append((head, cur, e[1].pre, e[1]))
                head, cur = e[1], []
            else:
                cur.append(e)
        out.append((head, cur, end, None))
        return out

    def head_pos(self, rec, ref):
        """logical position at a loop head: the stream's position less the bytes that are held in a variable"""
        o = rec.start.get(ref)
        return rec.start.norm(sub(o.pos, self.held(rec, ref)))

    def held(self, rec, ref):
        return self.held_at(rec, ref, rec.start)

    def held_at(self, rec, ref, st):
        """bytes before the stream's position that a variable holds for the next pass"""
        o = st.get(ref)
        best = 0
        for l, sid in rec.rel.items():
            if sid != ref.id:
                continue
            try:
                v = self.I.read_loc(st, l)
            except KeyError:
                continue
            for i, n in self.I.ends_at(st, v):
                if i == ref.id:
                    best = max(best, n)
        return best

    # ---- carry
    def find_carry(self, run):
        for rec in run.loops:
            if id(rec) not in self.streams:
                continue
            for st, ev in list(rec.iters) + [(s, e) for s, e, _ in rec.exits]:
                for content in self.contents(ev):
                    for g in segs_of(content):
                        if g[0] != "s":
                            continue
                        for l in sorted(rec.mod, key=repr):
                            if l[0] in ("attr", "var", "ba") and l not in rec.rel:
                                try:
                                    v = self.I.read_loc(rec.start, l)
                                except KeyError:
                                    continue
                                b = tobs(rec.start, v) if isinstance(v, (bytes, Bs, Ref)) else None
                                if isinstance(b, Bs) and len(b.segs) == 1 and b.segs[0][0] == "s" and b.segs[0][1] == g[1]:
                                    self.carry = l
                                    return

    def contents(self, events):
        """byte strings that are read as container contents on a path"""
        out = []
        for e in events:
            if e[0] == "recgen":
                for a in e[2]:
                    o = e[3].get(a) if isinstance(a, Ref) else None
                    if isinstance(o, StreamO) and isinstance(o.src, (bytes, Bs)):
                        out.append(e[3].norm_bs(o.src))
                    elif isinstance(a, (bytes, Bs)):
                        out.append(a)
        return out

    # ---- one path
    def path(self, run, rec, segs, st, kind, outcome=None):
        total_known = True
        progressed = False
        for i, (head, ev, end, nxt) in enumerate(segs):
            last = i == len(segs) - 1
            if head is None:
                ref = self.streams[id(nxt)] if nxt is not None else None
                if ref is None and isinstance(run.stream, Ref) and isinstance(st.get(run.stream), StreamO):
                    ref = run.stream        # the data end before the loop begins
                if ref is None:
                    if kind != "raise":
                        self.put("C06", f"{run.name}/start", None, "a path through the object source reaches no loop", "", st)
                    continue
                try:
                    o = run.pre.get(ref)
                except KeyError:
                    o = None
                Ha = o.pos if isinstance(o, StreamO) else 0
                if o is None:
                    self.put("C06", f"{run.name}/start", None, "the stream is created inside the object source", "", st)
                    continue
            else:
                ref = self.streams[id(head)]
                Ha = self.head_pos(head, ref)
            if nxt is not None:
                if self.streams[id(nxt)] != ref:
                    self.put("C06", f"{run.name}/nested loop", None, "a loop over another stream runs inside the loop", nxt.loc, st)
                    return
                o = nxt.pre.get(ref)
                Hb = nxt.pre.norm(sub(o.pos, self.held_at(nxt, ref, nxt.pre)))
                fst = nxt.pre
                what = "step"
            elif kind == "step":
                o = st.get(ref)
                Hb = st.norm(sub(o.pos, self.held_at(rec, ref, st)))
                fst, what = st, "step"
            else:
                Hb, fst, what = None, st, kind
            self.curhead = head
            adv = self.segment(run, ref, Ha, Hb, ev, fst, what, outcome if last else None)
            if adv is None:
                total_known = False
            elif adv:
                progressed = True
        if kind == "step":
            key = f"{run.name}/progress"
            if progressed:
                self.put("C07", key, True)
            elif total_known:
                self.put("C07", key, False, "a pass through the reading loop consumes nothing, so reading need not end", self.site(segs[-1][1], rec.loc), st)
            else:
                self.put("C07", key, None, "it is not clear that a pass through the reading loop consumes something", self.site(segs[-1][1], rec.loc), st)

    def segment(self, run, ref, Ha, Hb, ev, st, what, outcome):
        """-> True: consumed at least one byte, False: consumed nothing, None: unknown"""
        stream = st.get(ref)
        nm = run.name
        yields = [e for e in ev if e[0] == "yield"]
        conts = [e for e in ev if e[0] == "recgen"]
        where = self.site(ev)
        for e in ev:
            if e[0] == "read" and e[1] == ref:
                if e[3] is None:
                    self.put("C07", f"{nm}/bounded reads", False, "a read without a limit, or with a limit that can be negative", e[5], st)
                else:
                    ok = st.le(0, e[3])
                    self.put("C07", f"{nm}/bounded reads", ok, f"a read of {show(e[3])} bytes, which may be negative", e[5], st)
        if not yields and not conts:
            return self.plain(run, ref, Ha, Hb, ev, st, what, outcome)
        # ---- an object was consumed
        H = self.skipped(st, stream, Ha)
        whole_sig = self.sig(st, stream, H)
        fst = yields[0][2] if yields else conts[0][3]
        size = self.size_at(fst, fst.get(ref), H)
        if whole_sig is not True:
            self.put("C06", f"{nm}/objects start at a signature", None if is_var(Ha) and st.unk else False,
                     "an object is delivered that was not recognised by the object signature", where, st)
        else:
            self.put("C06", f"{nm}/objects start at a signature", True)
        ok = fst.le(16, size)
        self.put("C07", f"{nm}/small sizes refused", ok,
                 f"an object is delivered although its declared size {show(size)} may be smaller than its header", where, fst)
        if len(yields) + len(conts) > 1:
            self.put("C06", f"{nm}/once", False, "one object is delivered more than once", where, st)
        else:
            self.put("C06", f"{nm}/once", True)
        full = bytes_of(fst, fst.get(ref), H, add(H, size))
        for e in yields:
            cls = self.clsname(e[2], e[1])
            self.record_code(e[2], ref, H, cls, e[1], full)
            self.deliver(nm, e, full, cls)
        for e in conts:
            self.record_code(e[3], ref, H, "container")
            self.container(nm, e, ev, ref, H, size, st, what)
        if what == "step":
            d = self.same(st, Hb, add(H, size))
            self.put("C06", f"{nm}/continues behind the object", d,
                     f"after an object of {show(size)} bytes the reader continues {show(st.norm(sub(Hb, H)))} bytes further on", where, st)
            return True
        if what == "end":
            eof = stream.eof
            at_end = eof is not None and st.eq(eof, add(H, size)) is True
            if eof is not None and not at_end and st.le(add(H, size), eof) is not False:
                # the same pass, or passes that were followed to the end of the loop, met the end of the data
                last = max(i for i, e in enumerate(ev) if e in yields or e in conts)
                self.plain(run, ref, st.norm(add(H, size)), None, ev[last + 1:], st, what, outcome)
                return True
            self.put("C06", f"{nm}/stops only at the end", at_end or (None if st.unk else False),
                     "reading stops after an object although more data may follow", where, st)
        return True

    def skipped(self, st, stream, H):
        """behind bytes that cannot start an object"""
        for _ in range(16):
            if self.sig(st, stream, H) is not False:
                break
            H = st.norm(add(H, 1))
        return H

    def plain(self, run, ref, Ha, Hb, ev, st, what, outcome):
        nm, stream, where = run.name, st.get(ref), self.site(ev)
        if what == "step":
            d = st.norm(sub(Hb, Ha))
            r = st.range(d)
            if d == 0:
                return False
            if isinstance(d, int):
                if d < 0:
                    self.put("C07", f"{nm}/skipping", False, f"the reader steps back by {-d} bytes", where, st)
                    return None
                for k in range(d):
                    v = self.sig(st, stream, add(Ha, k))
                    if v is False:
                        self.put("C07", f"{nm}/skipping", True)
                        continue
                    # a step over bytes that may start an object
                    self.put("C07", f"{nm}/skipping", False,
                             f"{d} byte{'s are' if d > 1 else ' is'} skipped where byte {k} may start an object signature"
                             + (" (a complete object is dropped)" if v is True else ""), where, st)
                return True
            size = self.size_at(st, stream, Ha)
            if st.eq(d, size) is True:
                self.put("C06", f"{nm}/every object is delivered", False, "a complete object is consumed but not delivered", where, st)
                return True
            if is_var(d):
                self.put("C07", f"{nm}/skipping", None, f"the reader advances by {show(d)}", where, st)
                return True if r[0] >= 1 else None
            self.put("C07", f"{nm}/skipping", False, f"the reader advances by {show(d)} without delivering an object", where, st)
            return True if r[0] >= 1 else None
        eof = stream.eof
        if what == "raise":
            exc = outcome.exc
            name = getattr(getattr(exc, "cls", None), "qual", getattr(getattr(exc, "cls", None), "name", str(exc)))
            if eof is not None:
                self.put("C06", f"{nm}/incomplete data at the end", False,
                         f"{name} is raised when the data end inside an object", where, st)
                return True
            if self.sig(st, stream, Ha) is not True:
                self.put("C07", f"{nm}/skipping", None if st.unk else False,
                         f"{name} is raised for bytes that do not start an object", where, st)
                return True
            self.raised(nm, name, ref, Ha, ev, st, where)
            return True
        # normal end
        if eof is None:
            self.put("C06", f"{nm}/stops only at the end", None if st.unk else False,
                     "reading stops although the data are not exhausted", where, st)
            return True
        self.put("C06", f"{nm}/stops only at the end", True)
        if run.name == "file":
            return True
        want = bytes_of(st, stream, Ha, eof)
        less = bytes_of(st, stream, self.skipped(st, stream, Ha), eof)
        if self.carry is None:
            self.put("C06", f"{nm}/rest is kept", None, "no place was found where the rest of a container is kept", where, st)
            return True
        if self.carry[0] in ("attr", "ba"):
            try:
                got = self.I.read_loc(st, self.carry)
            except KeyError:
                got = None
        else:
            got = outcome
        gb = tobs(st, got) if isinstance(got, (bytes, Bs, Ref)) else None
        if gb is None:
            self.put("C06", f"{nm}/rest is kept", None if isinstance(got, Sym) else False,
                     f"the rest of the container is kept as {show(got)}", where, st)
            return True
        ok = bs_equal(st, gb, want) or bs_equal(st, gb, less)
        if not ok and opaque_rest(st, gb):
            ok = None
        if not ok and less == b"" and self.untouched(st, gb):
            ok = None
        self.put("C06", f"{nm}/rest is kept", ok,
                 f"of the unread rest {show(want)} of the container, {show(st.norm_bs(gb))} is kept for the next one", where, st)
        return True

    def untouched(self, st, got):
        """the rest is what it was at the loop head, and was empty when the container was begun (only containers inside it changed it)"""
        try:
            first = tobs(self.cur.pre, self.I.read_loc(self.cur.pre, self.carry))
            head = self.curhead.start if self.curhead is not None else self.cur.pre
            return first == b"" and st.norm_bs(tobs(head, self.I.read_loc(head, self.carry))) == st.norm_bs(got)
        except KeyError:
            return False

    def raised(self, nm, name, ref, H, ev, st, where):
        stream = st.get(ref)
        size = self.size_at(st, stream, H)
        if st.le(size, 15) is True:
            self.put("C07", f"{nm}/small sizes refused", name.endswith("ValueError"),
                     f"{name} instead of ValueError for a size smaller than the header", where, st)
            return
        if st.le(16, size) is not True:
            # refused before the size was looked at, or with a bound that is not 16
            if name.endswith("ValueError") and not any(e[0] == "call" for e in ev[-1:]):
                self.put("C07", f"{nm}/valid sizes accepted", None if st.unk else False,
                         f"{name} is raised although the declared size {show(size)} may be valid", where, st)
                return
        self.record_code(st, ref, H, "raise:" + name)

    # ---- delivery
    def clsname(self, st, v):
        o = st.get(v) if isinstance(v, Ref) else None
        return o.cls.name if isinstance(o, Inst) else show(v)[:40]

    def deliver(self, nm, e, full, cls):
        st, val, where = e[2], e[1], e[3]
        key = f"{nm}/{cls}/bytes"
        o = st.get(val) if isinstance(val, Ref) else None
        if not isinstance(o, Inst):
            self.put("C06", key, None if isinstance(val, Sym) else False, f"what is delivered is {show(val)}", where, st)
            return
        got = None
        for c in reversed(st.events):
            if c[0] == "call" and c[3] == val:
                bs = [tobs(st, a) for a in c[2] if isinstance(a, (bytes, Bs))]
                bs = [b for b in bs if b is not None]
                if bs:
                    got = st.norm_bs(bs[0])
                    break
        if got is None:
            self.put("C06", key, self.rebuilt(st, o, val, full), "the delivered object is not made from the object's bytes", where, st)
            return
        ok = bs_equal(st, got, full)
        if not ok and opaque_rest(st, got):
            ok = None
        self.put("C06", key, ok, f"the object is decoded from {show(got)} instead of {show(full)}", where, st)

    def rebuilt(self, st, o, val, full):
        for s2, v2 in self.I.call_attr(st.clone(), o.cls, "unpack", [full], {}, None, CTX()):
            if isinstance(v2, Ref) and self.equal_objs(s2, v2, val):
                return True
        return None

    def equal_objs(self, st, a, b, depth=0):
        x, y = st.get(a), st.get(b)
        if not isinstance(x, Inst) or not isinstance(y, Inst) or x.cls is not y.cls or set(x.attrs) != set(y.attrs) or depth > 6:
            return False
        for k in x.attrs:
            v, w = x.attrs[k], y.attrs[k]
            if isinstance(v, Ref) and isinstance(w, Ref):
                if isinstance(st.get(v), Inst):
                    if not self.equal_objs(st, v, w, depth + 1):
                        return False
                elif getattr(st.get(v), "items", v) != getattr(st.get(w), "items", w):
                    return False
            elif not (type(v) is type(w) and v == w):
                return False
        return True

    def record_code(self, st, ref, H, what, val=None, full=None):
        self.codes.setdefault(what, []).append((st, self.code_at(st, st.get(ref), H), self.size_at(st, st.get(ref), H), val, full, self.cur.name))

    def container(self, nm, e, ev, ref, H, size, end, what):
        st, where = e[3], e[4]
        stream = st.get(ref)
        cs = self.contents([e])
        if len(cs) != 1:
            self.put("C06", f"{nm}/container contents", None, "the contents of a container could not be found", where, st)
            return
        raw = bytes_of(st, stream, add(H, 32), add(H, size))
        content = st.norm_bs(cs[0])
        for a in e[2]:
            o = st.get(a) if isinstance(a, Ref) else None
            if isinstance(o, StreamO):
                self.put("C06", f"{nm}/container contents start", self.same(st, o.pos, 0),
                         f"the contents of a container are read from offset {show(o.pos)}", where, st)
        gs = list(segs_of(content))
        # split carry | payload
        carry_sym = None
        if self.carry is not None:
            try:
                hs = self.curhead.start if self.curhead is not None else self.cur.pre
                b = tobs(hs, self.I.read_loc(hs, self.carry))
                carry_sym = b.segs[0][1] if isinstance(b, Bs) else None
            except KeyError:
                pass
        key = f"{nm}/container contents"
        pay = gs
        if carry_sym is not None and gs and gs[0][0] == "s" and gs[0][1] == carry_sym:
            pay = gs[1:]
            first = gs[0]
            ok = first[2] == 0 and st.eq(first[3], st.norm(atom(Sym("len", (carry_sym,), "int")))) is True
            self.put("C06", key + "/rest first", ok, f"of the rest of the previous container only {show(mkbs([first]))} is continued", where, st)
        elif carry_sym is None:
            self.put("C06", key + "/rest first", None if self.carry is None and any(g[0] == "s" and g[1].tag not in ("src", "zdecompress") for g in gs) else False,
                     "the rest of the previous container is not put in front of the contents", where, st)
        else:
            self.put("C06", key + "/rest first", False, "the contents do not begin with the rest of the previous container", where, st)
        payload = st.norm_bs(mkbs(pay)) if pay else b""
        self.payload(nm, st, payload, raw, where)
        # the rest that the nested contents leave must survive until the next container
        if self.carry is not None and not (what == "end" and end.get(ref).eof is not None):
            after = next((x[1] for x in ev[ev.index(e):] if x[0] == "recyield" and len(x) > 1), None)
            if after is not None and self.carry[0] in ("attr", "ba"):
                a, b = self.I.read_loc(after, self.carry), self.I.read_loc(end, self.carry)
                same_ = a == b
                self.put("C06", f"{nm}/rest survives", same_, f"the rest of a container is replaced by {show(b)} before the next one is read", where, end)
            elif self.carry[0] == "var":
                b = self.I.read_loc(end, self.carry)
                self.put("C06", f"{nm}/rest survives", isinstance(b, Sym) and b.tag == "genret" or None,
                         f"the rest of a container is replaced by {show(b)}", where, end)

    def payload(self, nm, st, payload, raw, where):
        lvl = st.norm(u("u1", self.m.src, 13))
        r = st.range(lvl)
        gs = list(segs_of(payload))
        if bs_equal(st, payload, raw):
            self.put("C11", f"{nm}/stored contents are read as they are", st.le(lvl, 0) is True,
                     f"contents are not decompressed although the recorded level may be {max(1, r[0])}..{r[1]}", where, st)
            return
        if len(gs) == 1 and gs[0][0] == "s" and gs[0][1].tag == "zdecompress":
            z = gs[0][1]
            whole = gs[0][2] == 0 and st.eq(gs[0][3], st.norm(atom(Sym("len", (z,), "int")))) is True
            self.put("C11", f"{nm}/the whole decompressed contents are used", whole, f"only {show(payload)} of the decompressed contents is used", where, st)
            self.put("C11", f"{nm}/the whole contents are decompressed", bool(bs_equal(st, z.args[0], raw)),
                     f"{show(st.norm_bs(z.args[0]))} is decompressed instead of {show(raw)}", where, st)
            self.put("C11", f"{nm}/zlib format", z.args[1] in (15, 0, 47), f"wbits {show(z.args[1])}", where, st)
            self.put("C11", f"{nm}/compressed contents are decompressed", st.le(1, lvl) is True,
                     "contents are decompressed although the recorded level may be 0", where, st)
            return
        if not payload:
            self.put("C06", f"{nm}/container payload", False, "the contents of the container are not read at all", where, st)
            return
        bad = all(g[0] != "s" or g[1].tag in ("src", "zdecompress") for g in gs)
        self.put("C06", f"{nm}/container payload", False if bad else None, f"{show(payload)} is read as contents of a container that stores {show(raw)}", where, st)


def opaque_rest(st, b):
    return any(s.tag not in ("src", "u", "ub", "len", "rlen", "fresh", "zdecompress") for s in syms_of(b))


def analyse(P):
    """all reader findings, computed once per program"""
    got = getattr(P, "_rd", None)
    if got is not None:
        return got
    m, R, problems = study(P)
    if m.I.grew:
        try:
            kept(P, R)
        except (KeyError, TypeError, AttributeError):
            pass
    P._rd = (m, R, problems)
    return P._rd


def kept(P, R):
    """tables that are filled while objects are delivered: when what they give matters, it must depend on the key alone"""
    m2, R2, problems = study(P, True)
    open_ = [{(p, k) for p, k, v, _, _, _ in r.found if v is None} for r in (R, R2)]
    if problems:
        return
    matters = len(open_[0]) > len(open_[1])
    passes, given = {}, set()
    for rec in R2.recs:
        for st, ev in rec.iters:
            given |= {e[1] for e in ev if e[0] == "yield" and isinstance(e[1], Ref)}
            for l, now in m2.I.changes(rec.start, st):
                if l[0] == "obj":
                    passes.setdefault(l[1], []).append((st, memo.added(m2.I.read_loc(rec.start, l), now), rec.loc))
    for i, ps in passes.items():
        if any(pairs is None for _, pairs, _ in ps):
            continue
        why = memo.judge(ps)
        if why:
            cls = any(isinstance(v, ClassV) for _, pairs, _ in ps for _, v in pairs)
            R.conflict = why
            if matters:
                R.put("C04" if cls else "C06", "objects do not depend on earlier ones", False, why[0], why[1])
        elif matters and any(isinstance(v, Ref) and v in given and isinstance(st.get(v), Inst) for st, pairs, _ in ps for _, v in pairs):
            R.put("C06", "objects do not depend on earlier ones", False, "an object that was handed out is kept to be handed out again", ps[0][2])


def study(P, forgets=False):
    m = ReaderModel(P, forgets=forgets)
    R = Rules(m)
    problems = []
    seen = set()
    for s, v in m.good:
        lv = s.norm(u("u1", m.src, 13))
        k = repr(s.range(lv)), repr(s.range(s.norm(u("u1", m.src, 12)))[0] > 0)
        k = repr(s.range(lv))
        if k in seen:
            continue
        seen.add(k)
        runs, pr = m.runs(s, v)
        problems += pr
        for r in runs:
            R.run(r)
            R.recs += r.loops
            R.lost |= any(st.unk for rec in r.loops for st, _ in rec.iters) or any(st.unk for st, _ in r.outs)
        if len(runs) == 1:
            R.put("C06", "container/found", None, "no place was found where the contents of a container are read")
    R.lost |= bool(problems)
    shared(R, m)
    return m, R, problems


def shared(R, m):
    """what a reader keeps from one container to the next must be its own"""
    l = R.carry
    key = "what is left over is the reader's own"
    if l and l[0] in ("attr", "ba", "obj") and (l[1] in m.before.heap or l[1] in m.before.base):
        R.put("C06", key, False, "what is left over from a container is kept in an object that all readers share")
    elif any(v is None for p, _, v, _, _, _ in R.found if p == "C06"):
        for rec in R.recs:
            for evs in [ev for _, ev in rec.iters] + [ev for _, ev, _ in rec.exits]:
                for e in evs:
                    if e[0] in ("classstore", "globalstore") and isinstance(e[3], Bs) and any(s.tag == "src" for s in syms_of(e[3])):
                        R.put("C06", key, False, f"bytes of the file are kept in {e[1]}.{e[2]}, which all readers share", e[-1])
                        return
