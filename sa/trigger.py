"""Trigger/acknowledge: Producer, Consumer and ConditionVariable (C17, C18 and their part of C12, C13, C14, C19).

The two counters are modelled by the contract of Server/Client (decided separately by C04-C09): a successful read of a
running 1x1 counter yields its current value, a successful write stores the given value."""
import re
from .core import *
from . import models

def contract(eng, name):
    """calls into the library's own endpoints, which these units only declare"""
    if name in eng.prog.fn: return None
    d = eng.prog.dem.get(name, name)
    m = re.match(r"EigenIPC::(Server|Client)<", d)
    if not m: return None
    cls = m.group(1); short, ps = eng.prog.short(name); ps = ps or []; meth = short.split("::")[-1]
    def who(st, p):
        s = models.sget(eng, st, p)
        x = s[1][0] if s[1] else None
        return x[2] if type(x) is tuple and x[0] == "ctr" else ("S", (("ctrof", p),))
    if meth == cls:
        def f(eng, st, a, site):
            strs = [models.sget(eng, st, a[i + 1]) for i, p in enumerate(ps) if "basic_string" in p]
            if len(strs) < 2: return eng.opaque(site.f, st, site.ins, site.ctx, name, a)
            path = scat(strs[1], strs[0])
            eng.put(st, a[0][1], a[0][2], 32, ("S", (("ctr", cls, path),)))
            eng.emit(st, "prim", "ctr_create", path, "ok", (cls, targs_of(d)), site)
            return [("ret", st, None)]
        return f
    if meth in ("read", "write"):
        def f(eng, st, a, site):
            path = who(st, a[0]); x = models.dense(eng, st, site, ps[0], a[1])
            if x is None or not isp(x["data"]): return eng.opaque(site.f, st, site.ins, site.ctx, name, a)
            es = x["es"]; p = x["data"]; out = []
            at00 = all(i == 0 for i in a[2:4]); fits = x["rows"] == 1 and x["cols"] == 1
            if at00 and fits:
                t = st.fork()
                if meth == "read":
                    v = atom(("ctr", path) + site.key(eng)); t.kill(aid(("ctr", path) + site.key(eng)))
                    eng.put(t, p[1], p[2], es, v)
                else: v = models.ld(eng, t, site, p, 0, ("i", 8 * es))
                eng.emit(t, "prim", "ctr_" + meth, path, "ok", (cls, v), site)
                out.append(("ret", t, 1))
                if not models.can_fault(eng, st): return out
                st = models.fault(eng, st, "ctr_" + meth, path)
            eng.emit(st, "prim", "ctr_" + meth, path, "fail", (cls, None), site)
            out.append(("ret", st, 0)); return out
        return f
    def f(eng, st, a, site):
        path = who(st, a[0])
        eng.emit(st, "prim", "ctr_" + meth, path, "ok", (cls, None), site)
        return [("ret", st, eng.result(st, site.rt, ("ret", "ctr") + site.key(eng)))]
    return f
def targs_of(d):
    m = re.match(r"EigenIPC::\w+<([^>]*)>", d); return m.group(1) if m else ""

def held(st): return frozenset(k[1] for k in st.ts if k[0] == "held")
NOTED = ("lock", "try_lock", "timed_lock", "unlock", "wait", "timed_wait", "notify_one", "notify_all")
class Trig(Rule):
    budget = 1
    def __init__(self, prop, kind):
        Rule.__init__(self, None, kind, ("int", 1)); self.prop = prop
        self.rec = []           # what happened, judged once both sides are known
    def note(self, eng, st, kind, **d):
        loc = eng.here()
        if loc == "?":
            fl, ln = next(iter(fn_locs(self.e.f)), ("?", 0)); loc = "%s:%d" % (fl[len(REPO):].lstrip("/"), ln) if fl.startswith(REPO) else "?"
        d.update(kind=kind, cls=self.kind, entry=self.e.ident, phase=self.phase, where=loc, path=eng.where(), trace=None)
        k = tuple(sorted((a, str(b)) for a, b in d.items()))
        if k in self.seen: return
        self.seen.add(k); d["trace"] = st.trace_list(); d["label"] = eng.entry
        self.rec.append(d)
    seen = None
    def drop(self, s): return failed(s, "ctr_read") or failed(s, "ctr_write")      # (excluded by the contract; explored for what is reported, not continued)
    def begin(self, eng, st, e, av, phase):
        Rule.begin(self, eng, st, e, av, phase)
        if self.seen is None: self.seen = set()
        self.pre = st.fork(); self.args = av; eng.wrap32 = False        # (the counters count modulo 2^32)
    # ---- discipline
    def on_prim(self, eng, st, name, path, outcome, extra, site):
        ts = st.ts; hd = held(st)
        if name in ("lock", "timed_lock", "try_lock"):
            if outcome == "try":
                for m in hd: self.note(eng, st, "order", first=m, second=path)
            elif outcome == "ok":
                ts[("g:log",)] = ts.get(("g:log",), frozenset()); self.stale(ts); self.unseen(ts)
        elif name == "unlock":
            self.note(eng, st, "unlock", mutex=path, log=ts.get(("g:log",), frozenset()), held=hd)
            self.stale(ts)
            if len(hd) <= 1 and ts.get(("held", path), 0) <= 1: ts.pop(("g:log",), None)
        elif name in ("notify_one", "notify_all"):
            self.note(eng, st, "notify", how=name, cond=path, held=hd)
            ts[("g:log",)] = ts.get(("g:log",), frozenset()) | {(name, path)}
        elif name in ("wait", "timed_wait"):
            if outcome == "try":
                dl, haspred, a = extra; mx = None
                if isp(a[1]):
                    q = models.ld(eng, st, site, a[1], 0, ("ptr",)); s = models.sget(eng, st, q)
                    x = s[1][0] if s[1] else None
                    if type(x) is tuple and x[0] == "bip": mx = x[2]
                fresh = frozenset(k[1] for k in ts if k[0] == "g:fresh")
                if ("timedout", path) in ts: self.note(eng, st, "again")
                self.note(eng, st, "wait", how=name, cond=path, mutex=mx, held=hd, fresh=fresh, pred=haspred)
                self.stale(ts); self.unseen(ts)
                self.timing(eng, st, name, dl, site)
            elif not haspred_of(extra): self.stale(ts); self.unseen(ts)
        elif name == "ctr_create":
            self.note(eng, st, "ctr", ctr=path, cls2=extra[0], inst=extra[1])
        elif name in ("ctr_read", "ctr_write"):
            self.note(eng, st, "access", ctr=path, how=name[4:], held=hd)
            if outcome != "ok":
                if name == "ctr_read": ts[("g:fresh", path)] = 1      # it was looked at; the failure itself is excluded by the contract
                return
            v = extra[1]
            if name == "ctr_read":
                ts[("g:seen", path)] = 1
                ts[("g:fresh", path)] = 1; ts[("g:last", path)] = v; ts[("g:sec", path)] = v
            else:
                self.raised(eng, st, path, v)
                ts[("g:log",)] = ts.get(("g:log",), frozenset()) | {("w", path)}
        elif name in ("named_mutex", "named_condition") and outcome == "ok":
            self.note(eng, st, "bip", what=name, name=path, mode=extra)
        elif name.endswith("::remove"):
            self.note(eng, st, "remove", what=name.split("::")[0], name=path)
    def unseen(self, ts):
        for k in [k for k in ts if k[0] == "g:seen"]: del ts[k]
    def stale(self, ts):
        for k in [k for k in ts if k[0] in ("g:fresh", "g:sec")]: del ts[k]
    def timing(self, eng, st, name, dl, site):
        ms = None
        if "int" in " ".join(self.e.params):
            i = next((i for i, p in enumerate(self.e.params) if re.fullmatch(r"(unsigned )?int", p) and not (self.e.ident == "wait_ack_from" and i == 0)), None)
            off = len(self.args) - len(self.e.params)
            if i is not None and 0 <= i + off < len(self.args): ms = self.args[i + off]
        if ms is None: return
        if name == "wait":
            if self.kind != "ConditionVariable" and st.decide(c_ge(pneg(ms))) != 1: self.note(eng, st, "unbounded")
            return
        self.note(eng, st, "deadline", ok=self.deadline(st, dl, ms))
    def deadline(self, st, dl, ms):
        if not num(dl): return "unknown"
        now = [atom(AT[i]) for i in atoms_of(dl) if AT[i][0] == "sym" and str(AT[i][1]).startswith("utcnow")] if isP(dl) else []
        if not now: return "noclock"
        d = psub(dl, now[0]); want = pmul(ms, 1000)
        if st.decide(c_eq(psub(d, want))) == 1: return "ok"
        return "off"
    # ---- counters
    def raised(self, eng, st, path, v):
        ts = st.ts; w = None
        base = [("last", ts.get(("ghost", path))), ("read", ts.get(("g:sec", path)))]
        for n, b in base:
            if b is not None and num(b) and num(v) and st.decide(c_eq(psub(psub(v, b), 1))) == 1: w = n
        self.note(eng, st, "write", ctr=path, by=w, zero=(v == 0))
        ts[("g:nw", path)] = min(ts.get(("g:nw", path), 0) + 1, 2)
        ts[("g:wpred", path)] = ts.get(("g:pred",), "none")
        if self.kind == "Producer": ts[("ghost", path)] = v
        if num(v): ts[("g:last", path)] = v; ts[("g:sec", path)] = v
    def indirect(self, eng, st, cv, av, site):
        if len(av) != 1 or site.rt != ("i", 1): return None
        out = []
        for r in (1, 0):
            t = st.fork(); t.ts[("g:pred",)] = r
            eng.emit(t, "effect", "predicate", "callback", av, site)
            out.append(("ret", t, r))
        return out
    def cells(self, eng, st):
        """integers the object keeps between calls: this and what it owns"""
        out = {}; seen = {eng.this}; work = [eng.this]
        while work:
            b = work.pop(); d = st.mem.get(b) or {}
            for o, c in d.items():
                if type(o) is not int: continue
                if isp(c[1]):
                    if c[1][1] not in seen: seen.add(c[1][1]); work.append(c[1][1])
                elif c[0] in (4, 8) and num(c[1]): out[(b, o)] = c
        return out
    def end(self, eng, pre, e, av, phase, kind, s, v):
        hd = held(s)
        if hd and self.kind != "ConditionVariable": self.note(eng, s, "exitheld", mutex=hd)
        if phase == "dtor": self.note(eng, s, "open", left=frozenset(k for k in s.ts if k[0] == "bip"))
        if phase == "call":
            res = [None]
            if kind == "ret" and v is not None and (isC(v) or type(v) is int or num(v)):
                c = v if isC(v) or type(v) is int else c_ne(v)
                res = [1, 0] if s.decide(c) is None else [s.decide(c)]
            for r in res:
                t = s
                if len(res) > 1:
                    t = s.fork()
                    if not t.assume(c if r else c_not(c)): continue
                self.outcome(eng, e, kind, t, r)
        if self.kind == "ConditionVariable":
            for k in [k for k in s.ts if k[0] == "held"]: del s.ts[k]
        elif phase != "dtor": self.normalise(eng, s)
    def outcome(self, eng, e, kind, s, r):
        a, b = self.cells(eng, self.pre), self.cells(eng, s); ts = s.ts
        last = {k[1]: x for k, x in ts.items() if k[0] == "g:last"}
        n = None
        if e.ident == "wait_ack_from":
            i = next((i for i, p in enumerate(e.params) if p == "int"), None)
            if i is not None: n = self.args[i + len(self.args) - len(e.params)]
        d = {}; st = {}; un = set(); ini = {}
        for c, (sz, x) in b.items():
            y = a.get(c, (0, None))[1]
            if y is not None and s.decide(c_eq(psub(x, y))) == 1: un.add(c)
            for k in (0, 1):
                if type(x) is int and x == k: ini[(c, k)] = 1
            for q, w in last.items():
                if not num(w): continue
                for k in (0, 1):
                    one = 1 if n is None else n
                    if y is not None and s.decide(c_eq(psub(psub(psub(w, y), one), -k))) == 1: d.setdefault(q, set()).add((c, k))
                    if s.decide(c_eq(psub(psub(x, w), k))) == 1: st.setdefault(q, set()).add((c, k)); 
        fz = lambda m: tuple(sorted((str(q), q, frozenset(z)) for q, z in m.items()))
        self.note(eng, s, "outcome", out=kind, res=r, delta=fz(d), store=fz(st), same=frozenset(un), init=frozenset(ini), all=frozenset(b),
                  timedout=frozenset(k[1] for k in ts if k[0] == "timedout"), failed=frozenset(k[1] for k in ts if k[0] == "failed"),
                  fresh=frozenset(k[1] for k in ts if k[0] == "g:seen"), pred=ts.get(("g:pred",)), nw=tuple(sorted(((str(k[1]), k[1], x) for k, x in ts.items() if k[0] == "g:nw"))),
                  wpred=tuple(sorted(((str(k[1]), k[1], x) for k, x in ts.items() if k[0] == "g:wpred"))), cond=frozenset(k[1] for k in ts if k[0] in ("woken", "pred")), log=ts.get(("g:log",), frozenset()), held=held(s), predok=any(k[0] == "pred" for k in ts), nparams=tuple(e.params))
    def normalise(self, eng, s):
        """between calls only the relation to the counter this side owns matters"""
        gh = {k[1]: x for k, x in s.ts.items() if k[0] == "ghost"}
        G = {}
        for p in gh:
            q = next((q for q in G if num(gh[q]) and num(gh[p]) and s.decide(c_eq(psub(gh[q], gh[p]))) == 1), None)
            G[p] = G[q] if q is not None else atom(("sym", "ghost " + s_show(p), *I32))
        for (b, o), (sz, x) in self.cells(eng, s).items():
            deep = set(); deep_atoms(x, deep)
            dyn = any(AT[i][0] in ("ctr", "phi", "ghostv", "prev") or (AT[i][0] == "sym" and str(AT[i][1]).startswith(("ghost ", "prev "))) for i in deep)
            if not dyn and not (sz == 4 and type(x) is int): continue
            if not dyn and type(x) is int and x > 1 << 20: continue
            q = next((p for p, g in gh.items() if num(g) and s.decide(c_eq(psub(x, g))) == 1), None)
            y = G[q] if q is not None else atom(("sym", "prev %s+%s" % (b[:2], o), *I32))
            s.obj(b)[o] = (sz, y)
        for p in gh: s.ts[("ghost", p)] = G[p]
        keep = lambda L: all(AT[i][0] == "sym" and str(AT[i][1]).startswith("c:") for i in deep_atoms(L))
        s.iv = {L: r for L, r in s.iv.items() if keep(L)}; s.facts = {L: 1 for L in s.facts if keep(L)}
def single_aid(p): return p[2][0][0][0]
def haspred_of(x): return bool(x and x[1])

# ---------------------------------------------------------------- judgement
class Judge:
    def __init__(self, prop): self.prop = prop; self.reports = []; self.n = {}
    def cnt(self, k, m=1): self.n[k] = self.n.get(k, 0) + m
    def bad(self, prop, r, msg):
        if prop != self.prop: return
        self.reports.append({"rule": prop, "message": msg, "where": r["where"], "path": r.get("path", ""), "entry": r.get("label", ""), "trace": r.get("trace") or [], "instance": r["cls"]})
    def none(self, prop, cls, msg):
        if prop == self.prop: self.reports.append({"rule": prop, "message": msg, "where": "EigenIPC/src/%s.cpp" % cls, "path": "", "entry": "", "trace": [], "instance": cls})

def judge(prop, recs):
    J = Judge(prop); P = [r for r in recs if r["cls"] == "Producer"]; C = [r for r in recs if r["cls"] == "Consumer"]; B = P + C
    def pick(rs, kind, **w): return [r for r in rs if r["kind"] == kind and all(r.get(k) == v for k, v in w.items())]
    ts = {r["ctr"] for r in pick(P, "write", entry="trigger")}
    as_ = {r["ctr"] for r in pick(P, "access", entry="wait_ack_from", how="read")}
    T = min(ts, key=str) if ts else None; A = min(as_, key=str) if as_ else None
    if T is None: J.none("C18", "Producer", "Producer::trigger does not raise any counter"); J.none("C17", "Producer", "Producer::trigger does not raise any counter")
    if A is None: J.none("C18", "Producer", "Producer::wait_ack_from does not read any counter"); J.none("C17", "Producer", "Producer::wait_ack_from does not read any counter")
    word = {T: "trigger counter", A: "acknowledge counter"}
    discipline(J, P, C, B, T, A, word, pick)
    results(J, P, C, T, A, word, pick)
    names(J, P, C, T, A, pick)
    for r in pick(B, "unbounded"): J.bad("C19", r, "%s::%s waits without a time limit although a positive timeout may have been given" % (r["cls"], r["entry"]))
    for r in pick(B, "again"): J.bad("C19", r, "%s::%s keeps waiting after its timeout expired" % (r["cls"], r["entry"]))
    for r in pick(recs, "deadline"):
        J.cnt("deadlines")
        if r["ok"] == "noclock": J.bad("C19", r, "%s::%s waits until a time which is not computed from the current UTC time" % (r["cls"], r["entry"]))
        elif r["ok"] != "ok": J.bad("C19", r, "%s::%s waits until a time which is not now plus the requested milliseconds" % (r["cls"], r["entry"]))
    for r in pick(recs, "open"):
        J.cnt("destructions")
        for k in r["left"]: J.bad("C12", r, "a destroyed %s leaves its handle on %s %s open" % (r["cls"], k[1], s_show(k[2])))
    return J

def discipline(J, P, C, B, T, A, word, pick):
    conds = {T: {r["cond"] for r in pick(C, "wait", entry="wait")}, A: {r["cond"] for r in pick(P, "wait", entry="wait_ack_from")}}
    M = {}; CV = {}
    for X, cls, ent in ((T, "Consumer", "wait"), (A, "Producer", "wait_ack_from")):
        if X is None: continue
        acc = pick(B, "access", ctr=X); J.cnt("counter accesses", len(acc))
        com = frozenset.intersection(*[r["held"] for r in acc]) if acc else frozenset()
        if not com:
            cand = sorted({m for r in acc for m in r["held"]}, key=lambda m: (-sum(1 for r in acc if m in r["held"]), str(m)))
            m = cand[0] if cand else None
            for r in acc:
                if m not in r["held"]: J.bad("C17", r, "%s::%s accesses the %s without holding the mutex%s which protects it elsewhere" % (r["cls"], r["entry"], word[X], " " + s_show(m) if m else ""))
            com = frozenset((m,)) if m else frozenset()
        M[X] = com
        cs = conds[X]
        if not cs: J.none("C17", cls, "%s::%s never waits on a condition variable" % (cls, ent))
        elif len(cs) > 1: J.none("C17", cls, "%s::%s waits on more than one condition variable" % (cls, ent))
        CV[X] = cs
    if T is not None and A is not None:
        if CV[T] & CV[A]: J.none("C17", "Consumer", "triggers and acknowledgements are waited for on the same condition variable %s" % s_show(min(CV[T] & CV[A], key=str)))
        if M[T] and M[A] and M[T] == M[A] and len(M[T]) == 1: J.none("C17", "Producer", "both counters are protected by the same mutex %s" % s_show(min(M[T], key=str)))
    for X in CV:
        for r in pick(B, "wait"):
            if r["cond"] not in CV[X]: continue
            J.cnt("waits")
            w = "%s::%s waits on the condition variable of the %s" % (r["cls"], r["entry"], word[X])
            if not (M[X] & r["held"]): J.bad("C17", r, w + " without holding its mutex")
            elif r["mutex"] not in M[X]: J.bad("C17", r, w + " with a lock on another mutex")
            elif r["held"] - M[X]: J.bad("C17", r, w + " while holding another mutex")
            if X not in r["fresh"] and not r["pred"]: J.bad("C17", r, w + " without having evaluated the counter since it took the mutex or woke up")
        for r in pick(B, "notify"):
            if r["cond"] not in CV[X]: continue
            J.cnt("notifications")
            if not (M[X] & r["held"]): J.bad("C17", r, "%s::%s notifies the waiters for the %s without holding its mutex" % (r["cls"], r["entry"], word[X]))
        for r in pick(B, "unlock"):
            if r["mutex"] not in M[X] or ("w", X) not in r["log"]: continue
            if r["cls"] == "Producer" and r["entry"] == "run": continue
            J.cnt("updates followed to their release")
            al = any(("notify_all", c) in r["log"] for c in CV[X]); one = any(("notify_one", c) in r["log"] for c in CV[X])
            if not al and not one: J.bad("C17", r, "%s::%s releases the mutex after an update of the %s without having notified its waiters" % (r["cls"], r["entry"], word[X]))
            elif X == T and not al: J.bad("C17", r, "%s::%s wakes only one waiter after an update of the trigger counter" % (r["cls"], r["entry"]))
    for r in pick(B, "notify"):
        if not any(r["cond"] in c for c in CV.values()): J.bad("C17", r, "%s::%s notifies a condition variable nobody waits on" % (r["cls"], r["entry"]))
    for r in pick(B, "exitheld"): J.bad("C17", r, "%s::%s ends with the mutex %s held" % (r["cls"], r["entry"], ", ".join(map(s_show, r["mutex"]))))
    order = {}
    for r in pick(B, "order"):
        if r["first"] == r["second"]: J.bad("C17", r, "%s::%s locks a mutex it already holds" % (r["cls"], r["entry"]))
        order.setdefault((r["first"], r["second"]), r)
    for (a, b), r in order.items():
        if a != b and (b, a) in order: J.bad("C17", r, "%s::%s takes two mutexes in the opposite order to %s::%s" % (r["cls"], r["entry"], order[(b, a)]["cls"], order[(b, a)]["entry"]))
    J.cnt("lock order edges", len(order))
    for cls, ent, X in (("Consumer", "wait", T), ("Producer", "wait_ack_from", A), ("Consumer", "wait_and_ack", T)):
        for r in pick(P if cls == "Producer" else C, "outcome", entry=ent, res=1):
            # (the freshness of the trigger counter ends when wait_and_ack releases its mutex)
            if ent != "wait_and_ack" and X not in r["fresh"] and not r["failed"]:
                J.bad("C17", r, "%s::%s returns true without evaluating the %s after it took the mutex or woke up" % (cls, ent, word.get(X, "counter")))

def results(J, P, C, T, A, word, pick):
    def field(cls, recs, ent, X):
        outs = pick(recs, "outcome", entry=ent); runs = [r for r in pick(recs, "outcome", entry="run") if r["out"] == "ret"]
        cells = set()
        for r in outs: cells |= r["all"]
        def get(r, what): return next((z for _, q, z in r[what] if q == X), frozenset())
        def fails(r, c, k):
            if r["entry"] == "run": return None if (c, k) in r["init"] or c in r["same"] or (c, k) in get(r, "store") else "init"
            if r["out"] == "ret" and r["res"] == 1:
                if r["failed"]: return None
                if (c, k) not in get(r, "delta"): return "delta"
                if (c, k) not in get(r, "store"): return "store"
                return None
            return None if c in r["same"] else "same"
        best = None
        for c in sorted(cells, key=str):
            for k in (0, 1):
                bad = [(r, f) for r in outs + runs for f in [fails(r, c, k)] if f]
                key = (len(bad), str(c), k)
                if best is None or key < best[0]: best = (key, (c, k), bad)
        trues = [r for r in outs if r["out"] == "ret" and r["res"] == 1]
        J.cnt("outcomes of waits", len(outs))
        if not trues: J.none("C18", cls, "%s::%s can never return true" % (cls, ent)); return None
        what = "trigger" if X == T else "acknowledgements"
        if best is None: J.none("C18", cls, "%s keeps no record of the %s it has consumed" % (cls, what)); return None
        msg = {"delta": "%s::%s may return true although the %s did not advance by exactly %s since the last completed wait" % (cls, ent, word.get(X), "one" if X == T else "the requested number"),
               "store": "%s::%s returns true without recording the %s as consumed" % (cls, ent, what),
               "same": "%s::%s changes its record of the consumed %s although it does not return true" % (cls, ent, what),
               "init": "%s::run does not reset the record of the consumed %s" % (cls, what)}
        for r, f in best[2]: J.bad("C18", r, msg[f])
        for r in outs:
            if r["out"] == "ret" and r["res"] == 0 and not r["timedout"] and not r["failed"]: J.bad("C18", r, "%s::%s may return false although no timeout expired" % (cls, ent))
        return best[1]
    F = field("Consumer", C, "wait", T) if T is not None else None
    if A is not None: field("Producer", P, "wait_ack_from", A)
    def nw(r, X, w="nw"): return next((n for _, q, n in r[w] if q == X), 0)
    for r in pick(P, "outcome", entry="trigger", out="ret"):
        J.cnt("outcomes of updates")
        if nw(r, T) != 1: J.bad("C18", r, "Producer::trigger returns after raising the trigger counter %s" % ("more than once" if nw(r, T) else "not at all"))
    for r in pick(C, "outcome", entry="ack"):
        if r["out"] != "ret": continue
        J.cnt("outcomes of updates")
        if r["res"] == 1 and nw(r, A) != 1: J.bad("C18", r, "Consumer::ack returns true after raising the acknowledge counter %s" % ("more than once" if nw(r, A) else "not at all"))
        if r["res"] == 0 and not r["failed"]: J.bad("C18", r, "Consumer::ack returns false although the counter could be read and written")
    for r in pick(C, "outcome", entry="wait_and_ack"):
        if r["out"] != "ret": continue
        J.cnt("outcomes of wait_and_ack")
        if r["res"] == 1:
            z = next((z for _, q, z in r["delta"] if q == T), frozenset()); y = next((z for _, q, z in r["store"] if q == T), frozenset())
            if F is not None and (F not in z or F not in y) and not r["failed"]: J.bad("C18", r, "Consumer::wait_and_ack may return true although no new trigger was received")
            if r["pred"] != 1: J.bad("C18", r, "Consumer::wait_and_ack may return true although the callback did not return true")
            if nw(r, A) != 1: J.bad("C18", r, "Consumer::wait_and_ack may return true although the acknowledgement was not recorded exactly once")
        elif r["res"] == 0 and r["pred"] == 1 and not r["failed"] and not r["timedout"]: J.bad("C18", r, "Consumer::wait_and_ack returns false although the trigger was received, accepted and acknowledged")
        if nw(r, A):
            if F is not None and F[0] in r["same"] and not r["failed"]: J.bad("C18", r, "Consumer::wait_and_ack acknowledges a trigger which was not received")
            if nw(r, A, "wpred") == "none": J.bad("C18", r, "Consumer::wait_and_ack acknowledges before the callback has run")
    for r in pick(P + C, "write"):
        J.cnt("counter updates"); X = r["ctr"]; w = "%s::%s" % (r["cls"], r["entry"])
        if r["entry"] == "run" and r["cls"] == "Producer":
            if not r["zero"]: J.bad("C18", r, "%s does not start the %s from zero" % (w, word.get(X, "counter")))
        elif X == T:
            if r["cls"] != "Producer" or r["entry"] != "trigger": J.bad("C18", r, "%s changes the trigger counter" % w)
            elif r["by"] is None: J.bad("C18", r, "%s does not raise the trigger counter by one" % w)
        elif X == A:
            if r["cls"] != "Consumer": J.bad("C18", r, "%s changes the acknowledge counter" % w)
            elif r["by"] != "read": J.bad("C18", r, "%s does not raise the acknowledge counter by one from the value it read under the same lock" % w)
    if A is not None:
        for r in pick(C, "write"):
            if r["ctr"] not in (T, A): J.bad("C18", r, "Consumer::%s changes another counter" % r["entry"])

def names(J, P, C, T, A, pick):
    bp = {(r["what"], r["name"]): r for r in pick(P, "bip")}; bc = {(r["what"], r["name"]): r for r in pick(C, "bip")}
    kind = {"named_mutex": "mutex", "named_condition": "condition variable"}
    for k, r in bc.items():
        J.cnt("names compared")
        if k not in bp: J.bad("C14", r, "the consumer opens the %s %s, which the producer never creates" % (kind[k[0]], s_show(k[1])))
    for k, r in bp.items():
        J.cnt("names compared")
        if k not in bc: J.bad("C14", r, "the producer creates the %s %s, which the consumer never opens" % (kind[k[0]], s_show(k[1])))
    for cls, b in (("Producer", bp), ("Consumer", bc)):
        ks = [k for k in b if k[0] == "named_condition"]
        if len(ks) < 2: J.none("C14", cls, "the trigger and acknowledge channels of a %s share one condition variable name" % cls.lower())
        ms = [k for k in b if k[0] == "named_mutex"]
        if len(ms) < 2: J.none("C14", cls, "the trigger and acknowledge channels of a %s share one mutex name" % cls.lower())
        for k in ks:
            if ("named_mutex", k[1]) in b: J.bad("C14", b[k], "a condition variable and a mutex share the name %s" % s_show(k[1]))
    cp = {(r["ctr"], r["inst"]): r for r in pick(P, "ctr")}; cc = {(r["ctr"], r["inst"]): r for r in pick(C, "ctr")}
    for k, r in cc.items():
        J.cnt("names compared")
        if k not in cp: J.bad("C14", r, "the consumer attaches to a counter %s of type <%s>, which the producer does not create" % (s_show(k[0]), k[1]))
    for k, r in cp.items():
        if k not in cc: J.bad("C14", r, "the producer creates a counter %s of type <%s>, to which the consumer does not attach" % (s_show(k[0]), k[1]))
    for cls, c in (("Producer", cp), ("Consumer", cc)):
        if len({k[0] for k in c}) < 2: J.none("C14", cls, "the trigger and acknowledge counters of a %s share one name" % cls.lower())
    for c, i in ((bp, 1), (bc, 1), (cp, 0), (cc, 0)):
        for k, r in c.items():
            if isS(k[i]) and not {("arg", "ns"), ("arg", "name")} <= set(k[i][1]): J.bad("C14", r, "the shared name %s does not depend on both namespace and name" % s_show(k[i]))
    if T is not None and T == A: J.none("C14", "Producer", "triggers and acknowledgements use the same counter")
    for r in pick(C, "access"):
        if r["entry"] == "wait" and r["ctr"] != T: J.bad("C14", r, "Consumer::wait looks at the counter %s, which triggers do not raise" % s_show(r["ctr"]))
        if r["entry"] == "ack" and r["ctr"] != A: J.bad("C14", r, "Consumer::ack uses the counter %s, which the producer does not look at" % s_show(r["ctr"]))
    for r in pick(C, "remove"): J.bad("C13", r, "a consumer removes the %s %s" % (kind[r["what"]], s_show(r["name"])))
    for r in pick(C, "bip"):
        if r["mode"] != "open_only": J.bad("C13", r, "a consumer may create the %s %s" % (kind[r["what"]], s_show(r["name"])))
    for r in pick(P, "remove"):
        J.cnt("names removed")
        if (r["what"], r["name"]) not in bp: J.bad("C13", r, "a producer removes the %s %s, which it does not create" % (kind[r["what"]], s_show(r["name"])))
    for k, r in bp.items():
        if not pick(P, "remove", what=k[0], name=k[1], phase="dtor"): J.bad("C13", r, "a destroyed producer leaves the %s %s behind" % (kind[k[0]], s_show(k[1])))

# ---------------------------------------------------------------- ConditionVariable on its own
def judge_cv(J, recs, server):
    def pick(kind, **w): return [r for r in recs if r["kind"] == kind and all(r.get(k) == v for k, v in w.items())]
    own = {w: {r["name"] for r in pick("bip", what=w)} for w in ("named_mutex", "named_condition")}
    if len(own["named_mutex"]) != 1 or len(own["named_condition"]) != 1:
        J.none("C14", "CondVar", "a condition variable does not always use the same pair of names"); return
    m, c = min(own["named_mutex"]), min(own["named_condition"])
    for r in pick("bip"):
        J.cnt("condition variable names")
        if server and r["mode"] != "create_only" or not server and r["mode"] != "open_only": J.bad("C13", r, "a condition variable %s opens its %s with %s" % ("server" if server else "client", r["what"], r["mode"]))
    for r in pick("remove"):
        if not server: J.bad("C13", r, "a condition variable client removes the shared name %s" % s_show(r["name"]))
        elif r["name"] not in own[r["what"]]: J.bad("C13", r, "a condition variable removes %s as a %s, which is not its own" % (s_show(r["name"]), r["what"]))
    if server:
        for w, p in (("named_mutex", m), ("named_condition", c)):
            if not pick("remove", what=w, name=p): J.none("C13", "CondVar", "a closed condition variable server leaves its %s behind" % w)
    for r in pick("wait"):
        J.cnt("waits")
        if r["cond"] != c: J.bad("C17", r, "ConditionVariable::%s waits on another condition variable" % r["entry"])
    for r in pick("notify"):
        if r["cond"] != c: J.bad("C17", r, "ConditionVariable::%s notifies another condition variable" % r["entry"])
    for r in pick("outcome", out="ret"):
        e = r["entry"]; J.cnt("outcomes of condition variable operations")
        say = lambda prop, x: J.bad(prop, r, "ConditionVariable::%s %s" % (e, x))
        if e == "notify_one" and not any(x in r["log"] for x in (("notify_one", c), ("notify_all", c))): say("C17", "returns without having notified")
        if e == "notify_all" and ("notify_all", c) not in r["log"]: say("C17", "returns without having notified all waiters")
        if e in ("wait", "wait_for") and c not in r["cond"] and r["pred"] != 1: say("C17", "returns without having waited")
        if e in ("wait_for",) and not (r["predok"] or r["pred"] == 1): say("C17", "returns although the predicate does not hold")
        if e == "lock" and not r["held"]: say("C17", "returns without the mutex")
        elif e == "lock" and len(r["nparams"]) == 0 and m not in r["held"]: say("C17", "locks another mutex")
        if e in ("timedwait", "timedwait_for"):
            if r["res"] == 1 and e == "timedwait" and (r["timedout"] or c not in r["cond"]): say("C19", "reports success although the timeout expired")
            if r["res"] == 0 and not r["timedout"]: say("C19", "reports a timeout which did not happen")
            if r["res"] == 1 and e == "timedwait_for" and not (r["predok"] or r["pred"] == 1): say("C19", "reports success although the predicate does not hold")
            if r["res"] is None: say("C19", "does not report whether the timeout expired")

def job_t(a):
    prog, cls, prop, pin, tier = a
    def go():
        rule = Trig(prop, cls)
        h = Hist(prog, "EigenIPC::" + cls, [rule], budget=1, skip=("create_named_mutex",), opts={"extra": contract, "recency": True})
        ct = max((c for c in h.ctors if not any(p.startswith("EigenIPC::" + cls) for p in c.params)), key=lambda c: len(c.params), default=None)
        if ct is None or not h.methods: raise Broken("class %s not found" % cls)
        g = ctor_given(ct, **pin)
        if cls == "ConditionVariable":
            g = {i: v for i, v in g.items() if not type(v) is int}; g[0] = pin["server"]
        h.pin = {"given": (g,)}; err = ""
        if cls != "ConditionVariable": h.eng.canon = lambda st: rule.normalise(h.eng, st)
        try: h.run()
        except Budget as x: err = str(x)
        return {"cls": cls, "pin": pin, "recs": rule.rec, "cov": h.coverage(), "error": err}
    return big(go)

def check(prop, tier, work):
    mods = parallel([(unit, u, work) for u in ("Producer", "Consumer", "CondVar")])
    jobs = [(Program([mods[0], mods[2]]), "Producer", prop, {}, tier), (Program([mods[1], mods[2]]), "Consumer", prop, {}, tier),
            (Program([mods[2]]), "ConditionVariable", prop, {"server": 0}, tier), (Program([mods[2]]), "ConditionVariable", prop, {"server": 1}, tier)]
    res = fork_map(job_t, jobs)
    recs = [r for x in res for r in x["recs"]]
    J = judge(prop, [r for r in recs if r["cls"] != "ConditionVariable"] + [r for r in recs if r["cls"] == "ConditionVariable" and r["kind"] in ("deadline", "open")])
    for x in res[2:]: judge_cv(J, x["recs"], x["pin"]["server"])
    err = next((x["error"] for x in res if x["error"]), "")
    if err and not J.reports: raise Broken("budget: " + err)
    cov = [x["cov"] for x in res]
    return {"reports": J.reports, "counts": J.n, "functions": sorted({f for c in cov for f in c["functions"]}), "opaque": sorted({o for c in cov for o in c["opaque"]}),
            "numbers": {k: sum(c[k] for c in cov) for k in ("object_states", "entry_runs", "outcomes", "instructions", "calls", "branches", "primitives")},
            "entries": sorted({c["class"] + "::" + e for c in cov for e in c["public_entries"]})}
