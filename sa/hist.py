"""Abstract histories of an endpoint: constructor, then any sequence of public calls, then destruction."""
import re, time
from . import models
from .driver import *
from .interp import *

EXPLICIT = ("dataSemAcquire", "dataSemRelease")     # pair with calls the user makes; checked, but not followed further
READONLY = ("isRunning", "isAttached", "getNRows", "getNCols", "getScalarType", "getMemLayout", "getNamespace", "getBasename")

class Hist:
    """runs every public member of cls from every reachable abstract state of the object.
    listen(ev) is called with ev = dict(entry, ident, params, pre, outs, args, phase) after each call."""
    def __init__(self, prog, cls, rules, pin=None, budget=1, fault_ctor=True, skip=(), cap=400, opts=None):
        self.prog = prog; self.cls = cls; self.rules = rules; self.pin = pin or {}
        self.eng = Engine(prog, models, rules, budget=budget, repo=REPO)
        for k, v in (opts or {}).items(): setattr(self.eng, k, v)
        self.this = ("obj", "this"); self.eng.tracked.add(self.this)
        self.eng.this = self.this; self.eng.cls = cls
        self.ctors, self.dtor, self.methods = class_entries(prog, cls)
        self.skip = set(skip); self.cap = cap; self.ncalls = 0; self.outs = 0; self.clos = None
    def start(self, ctor, given=None):
        st = St(); st.mem[self.this] = {}; st.own.add(self.this)
        av = make_args(self.eng, st, ctor, ("p", self.this, 0), given=given, pfx="c:")
        for c in self.pin.get("facts", ()): st.assume(c)
        return st, av
    def call(self, e, st, av, phase):
        eng = self.eng
        eng.entry = e.short.replace("EigenIPC::", "") + "(" + ", ".join(p.split("::")[-1][:24] for p in e.params) + ")"
        pre = st.fork()
        for r in self.rules:
            h = getattr(r, "begin", None)
            if h: h(eng, st, e, av, phase)
        outs = eng.run(e.f, av, st, 0)
        self.ncalls += 1; self.outs += len(outs)
        for r in self.rules:
            h = getattr(r, "end", None)
            if h:
                for kind, s, v in outs: h(eng, pre, e, av, phase, kind, s, v)
        return outs
    def run(self):
        eng = self.eng
        self.clos = cl = Closure(eng, [self.this], self.cap)
        self.postctor = []; self.dead = []
        base = self.cls.split("::")[-1].split("<")[0] if "<" not in self.cls else self.cls.split("<")[0].split("::")[-1]
        for c in self.ctors:
            if any("EigenIPC::" + base + "<" in p or p.startswith("EigenIPC::" + base) for p in c.params): continue
            for given in self.pin.get("given", ({},)):
                st, av = self.start(c, given)
                for kind, s, v in self.call(c, st, av, "ctor"):
                    if kind == "ret": cl.add(s)
        entries = [m for m in self.methods if m.ident not in self.skip]
        def step(k, s0):
            for m in entries:
                st = s0.fork()
                av = make_args(eng, st, m, ("p", self.this, 0))
                for kind, s, v in self.call(m, st, av, "call"):
                    if m.ident not in EXPLICIT and not any(r.drop(s) for r in self.rules if hasattr(r, 'drop')): cl.add(s)
            if self.dtor is not None:
                st = s0.fork()
                self.call(self.dtor, st, [("p", self.this, 0)], "dtor")
        cl.run(step)
        return self
    def coverage(self):
        s = self.eng.stats
        fns = sorted({self.prog.short(f)[0] for f in s["functions"]})
        return {"class": self.cls.replace("EigenIPC::", ""), "public_entries": sorted({m.ident for m in self.methods}), "object_states": len(self.clos.states), "entry_runs": self.ncalls, "outcomes": self.outs,
                "instructions": s["instructions"], "calls": s["calls"], "branches": s["branches"], "primitives": s["primitives"], "functions": fns, "opaque": sorted(s["opaque"])}
