"""Obligation bookkeeping shared by every rule module."""
import os
import pickle
import struct
import sys
import time
import traceback
from .prog import Program, AnchorMissing
from .engine import Unsupported
from . import world as W


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.obs = []  # (status, rule, construct, where, detail)
        self.assumptions = []
        self.analysed = set()
        self.steps = 0
        self.scen = 0
        self.notes = []
        self.paths = 0
        self.queue = []

    @property
    def prog(self):
        return W.program()

    def world(self, src="", cls=None):
        w = (cls or W.World)(src)
        if self.thorough:
            w.e.MAXSTEPS *= 6
        return w

    def loc(self, node):
        try:
            return f"{self.prog.loc(node)} ({self.prog.qualname(node)})"
        except Exception:
            return "?"

    def at(self, dotted):
        """source location of a definition, for reports only (a definition that moved is not an error)"""
        try:
            return self.loc(self.prog.find(dotted))
        except AnchorMissing:
            return dotted

    def ob(self, status, rule, construct, where="", detail=""):
        """status: True / False / None"""
        self.obs.append(({True: "ok", False: "violation", None: "undecided"}[status], rule, construct, where, detail))

    def scenario(self, rule, construct, where, f):
        """queue one scenario (run by flush, in parallel)"""
        self.scen += 1
        self.queue.append((rule, construct, where, f))

    def _run1(self, rule, construct, where, f):
        """run one scenario; an analysis limit is an undecided obligation, never an alarm"""
        t0 = time.time()
        try:
            f()
        except AnchorMissing as x:
            self.ob(None, rule, construct, where, f"anchor missing: {x}")
        except Unsupported as x:
            self.ob(None, rule, construct, where, f"analysis limit: {type(x).__name__}: {x}")
        except Exception as x:  # an internal limit of the analyser, not a verdict on the code
            tb = traceback.extract_tb(x.__traceback__)[-1]
            self.ob(None, rule, construct, where, f"analyser error {type(x).__name__}: {x} at {os.path.basename(tb.filename)}:{tb.lineno}")
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc(limit=-8)
        if os.environ.get("VERIF_TIMES"):
            sys.stderr.write(f"{time.time()-t0:6.1f}s {rule} {construct}\n")

    def flush(self):
        q, self.queue = self.queue, []
        n = min(int(os.environ.get("VERIF_JOBS", os.cpu_count() or 1)), len(q))
        if n <= 1:
            for t in q:
                self._run1(*t)
            return
        self.prog  # parsed once, before the workers fork
        r, w = os.pipe()
        os.write(w, b"".join(struct.pack("<I", i) for i in range(len(q))))
        os.close(w)
        kids = []
        sys.stdout.flush()
        for _ in range(n):
            pr, pw = os.pipe()
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    os.close(pr)
                    self.obs, self.analysed, self.steps, self.paths = [], set(), 0, 0
                    out = []
                    while True:
                        b = os.read(r, 4)
                        if len(b) < 4:
                            break
                        i = struct.unpack("<I", b)[0]
                        self.obs = []
                        self._run1(*q[i])
                        if self.queue:
                            for t in self.queue:
                                self._run1(*t)
                            self.queue = []
                        out.append((i, self.obs))
                    with os.fdopen(pw, "wb") as f:
                        pickle.dump((out, self.analysed, self.steps, self.paths), f)
                    rc = 0
                finally:
                    os._exit(rc)
            os.close(pw)
            kids.append((pid, pr))
        os.close(r)
        res = {}
        for pid, pr in kids:
            with os.fdopen(pr, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                self.notes.append("a worker died")
                continue
            out, an, st, pa = pickle.loads(data)
            res.update(out)
            self.analysed |= an
            self.steps += st
            self.paths += pa
        for i, t in enumerate(q):
            if i in res:
                self.obs += res[i]
            else:
                self.ob(None, t[0], t[1], t[2], "analyser worker died")

    def absorb(self, w):
        self.steps += w.e.steps
        for n in w.e.visited:
            m = self.prog.node_mod.get(n)
            if m and not m.name.startswith("vxh"):
                self.analysed.add(self.prog.qualname(n))

    # ------------------------------------------------------------------ results
    def summary(self):
        agg = {}
        for st, rule, cons, where, det in self.obs:
            k = (rule, cons)
            a = agg.setdefault(k, {"rule": rule, "construct": cons, "where": where, "status": "ok", "paths": 0, "detail": ""})
            a["paths"] += 1
            order = {"ok": 0, "undecided": 1, "violation": 2}
            if order[st] > order[a["status"]]:
                a["status"], a["where"], a["detail"] = st, where or a["where"], det
        return list(agg.values())
