"""Obligation book-keeping, evidence files and verdicts."""
import contextlib
import json
import os
import time
import traceback

from .interp import Clock, OutOfTime

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    def __init__(self, pid, tier, seed, program):
        self.pid, self.tier, self.seed, self.program = pid, tier, seed, program
        self.t0 = time.time()
        self.end = time.process_time() + Clock.whole
        self.obl = {}       # key -> [status, text, site]
        self.paths = 0
        self.assumptions = set()
        self.scope = {}
        self.groups = 0
        self.broken = []

    # one obligation may be examined on several paths; the worst verdict wins
    _rank = {"ok": 0, "undecided": 1, "bad": 2}

    def note(self, key, status, text="", site=""):
        cur = self.obl.get(key)
        if cur is None or self._rank[status] > self._rank[cur[0]]:
            self.obl[key] = [status, text, site]

    def ok(self, key):
        self.note(key, "ok")

    def bad(self, key, text, site=""):
        self.note(key, "bad", text, str(site))

    def undecided(self, key, text, site=""):
        self.note(key, "undecided", text, str(site))

    def decide(self, key, truth, text, site="", st=None):
        """truth: True / False / None. A failing obligation on a path the analyser could not follow is undecided, not a violation."""
        if truth is True:
            self.ok(key)
        elif truth is None or (st is not None and st.unk):
            why = "; ".join(f"{u[0]} at {u[1]}" if isinstance(u, tuple) and len(u) > 1 else str(u) for u in (st.unk if st else [])[:3])
            self.undecided(key, text + (f" [not followed: {why}]" if why else ""), site)
        else:
            self.bad(key, text, site)
        return truth

    def use(self, st):
        self.paths += 1
        for a in st.assumptions:
            self.assumptions.add(a)

    @contextlib.contextmanager
    def group(self, name):
        """one independent part of the check: if its analysis stops, the others are still decided"""
        self.groups += 1
        outer, now = Clock.until, time.process_time()
        Clock.until = min([now + Clock.part, self.end] + ([outer] if outer is not None else []))
        try:
            yield
        except (Exception, OutOfTime) as e:                                      # noqa: BLE001
            if os.environ.get("VSA_TRACE"):
                traceback.print_exc()
            self.broken.append(name)
            self.undecided(f"{name}/analysis", f"the analysis stopped: {type(e).__name__}: {e}")
        finally:
            Clock.until = outer

    # ---- verdict
    def finish(self, rule, known=(), extra=None, floor=0.0):
        ok = sorted(k for k, v in self.obl.items() if v[0] == "ok")
        und = {k: v for k, v in self.obl.items() if v[0] == "undecided"}
        bad = {k: v for k, v in self.obl.items() if v[0] == "bad"}
        kn = {k: v for k, v in bad.items() if k in known}
        new = {k: v for k, v in bad.items() if k not in known}
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "other",
            "coverage": {
                "explanation": rule,
                "obligations_examined": len(self.obl),
                "obligations_holding": len(ok),
                "obligations_violated": len(new),
                "obligations_undecided": len(und),
                "known_findings": sorted(kn),
                "abstract_paths": self.paths,
                "source_digest": self.program.digest(),
                "files_analysed": sorted(self.program.files.values()),
                "samples": ok[:6] + ok[-4:] if len(ok) > 10 else ok,
                "undecided": [{"obligation": k, "why": v[1], "site": v[2]} for k, v in sorted(und.items())][:40],
                "violations": [{"obligation": k, "what": v[1], "site": v[2]} for k, v in sorted(new.items())][:40],
                **self.scope, **(extra or {}),
            },
            "assumptions": sorted(self.assumptions)[:60],
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(new),
        }
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        print(f"{self.pid}: {len(self.obl)} obligations, {len(ok)} hold, {len(und)} undecided, {len(bad)} violated; "
              f"{self.paths} abstract paths; {ev['wall_s']} s")
        for k, v in sorted(und.items()):
            print(f"UNDECIDED property={self.pid} {k}: {v[1]} {v[2]}")
        for k in sorted(kn):
            print(f"KNOWN-FINDING: property={self.pid} {k}: {known[k]}")
        if new:
            os.makedirs(os.path.join(d, "replay"), exist_ok=True)
            rp = os.path.join("evidence", "replay", f"{self.pid}.txt")
            with open(os.path.join(ROOT, rp), "w") as f:
                for k, v in sorted(new.items()):
                    f.write(f"{self.pid} {k}\n    {v[1]}\n    at {v[2]}\n")
            for k, v in sorted(new.items()):
                print(f"  {k}: {v[1]}  ({v[2]})")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if len(ok) < floor * len(self.obl) or not ok:
            print(f"{self.pid}: analysis could not decide enough of its obligations")
            return 2
        return 0
