"""Rules over the abstract histories of Server and Client (C01-C14, C19).  A rule sees every primitive, every access to shared memory,
every dense transfer and every outcome of every public call, in every reachable abstract state of the object."""
import itertools, re
from .hist import *
from .models import path_of_fd, dense

NS = S(("arg", "ns")); NAME = S(("arg", "name"))
INST = [("double", 0), ("double", 1), ("float", 0), ("float", 1), ("int", 0), ("int", 1), ("bool", 0), ("bool", 1)]
ESIZE = {"double": 8, "float": 4, "int": 4, "bool": 1}
def cname(kind, inst): return "EigenIPC::%s<%s, %d>" % (kind, inst[0], inst[1])
def is_user(b):
    """b addresses an argument of the caller, or memory an argument points to"""
    if type(b) is not tuple or not b: return False
    if b[0] == "psym":
        a = single_atom(b[1]); return a is not None and a[0] == "init" and is_user(a)
    if b[0] == "obj": return str(b[1]).startswith("arg")
    return b[0] == "init" and type(b[1]) is tuple and b[1][0] == "obj" and str(b[1][1]).startswith("arg")
def base_of(d):
    p = d.get("data") if d else None
    return p[1] if isp(p) else None

def ctor_given(ctor, **bools):
    """pin the constructor: names are shared symbols; bools: first/last boolean parameter (verbosity / safety) or the middle one"""
    g = {}; strs = [i for i, p in enumerate(ctor.params) if "basic_string" in p]; bl = [i for i, p in enumerate(ctor.params) if p == "bool"]
    if len(strs) >= 1: g[strs[0]] = NAME
    if len(strs) >= 2: g[strs[1]] = NS
    if "verbose" in bools and bl: g[bl[0]] = int(bools["verbose"])
    if "safe" in bools and bl: g[bl[-1]] = int(bools["safe"])
    if "force" in bools and len(bl) == 3: g[bl[1]] = int(bools["force"])
    return g

class Quick:
    """records what happens along the failure-free run of a few calls"""
    def __init__(self): self.ev = []; self.writes = []; self.reads = []; self.entry = None
    def on_prim(self, eng, st, name, path, outcome, extra, site):
        if outcome in ("ok", "try"): self.ev.append((self.entry, name, path, outcome, extra))
    def on_access(self, eng, st, mode, base, off, size, v):
        (self.writes if mode == "W" else self.reads).append((self.entry, base, off, size, v))

class Roles:
    """what each shared name is used for, derived from what server and client do with it (not from how it is called)"""
    def __init__(self):
        self.problems = []; self.flag = self.rows = self.cols = self.count = self.dtype = self.layout = self.data = self.lock = self.slock = None
    def problem(self, prop, msg, where=""): self.problems.append((prop, msg, where))

def follow(h, names, st):
    """states after calling the named entries in order, keeping normal outcomes only"""
    sts = [st]
    for n in names:
        m = [m for m in h.methods if m.ident == n]
        if not m: raise Broken("no public member %s in %s" % (n, h.cls))
        nx = []
        for s in sts[:6]:
            s = rest(h.eng, s, [h.this])
            for r in h.rules: r.entry = n
            av = make_args(h.eng, s, m[0], ("p", h.this, 0))
            nx += [(t, v) for k, t, v in h.call(m[0], s, av, "call") if k == "ret"]
        if not nx: return [], []
        sts = [t for t, v in nx]; vals = [v for t, v in nx]
    return sts, vals if names else []

def construct(h, **b):
    base = h.cls.split("<")[0].split("::")[-1]
    ct = [c for c in h.ctors if not any("EigenIPC::" + base in p for p in c.params)]
    if not ct: raise Broken("no constructor of %s" % h.cls)
    ct = max(ct, key=lambda c: len(c.params))
    for r in h.rules: r.entry = "ctor"
    st, av = h.start(ct, ctor_given(ct, **b))
    return [s for k, s, v in h.call(ct, st, av, "ctor") if k == "ret"]

def discover(ps, pc):
    """roles of the shared names, from one server and one client instantiation (and the constants of two more)"""
    R = Roles(); h0 = None
    q = Quick(); h = Hist(ps, cname("Server", INST[0]), [q], budget=0)
    outs = construct(h, verbose=0, force=0)
    if not outs: R.problem("C11", "the server constructor never returns normally"); return R
    S_ = outs[0]; nctor = len(q.writes)
    sts, _ = follow(h, ["run"], S_)
    qc = Quick(); hc = Hist(pc, cname("Client", INST[0]), [qc], budget=0)
    co = construct(hc, verbose=0)
    cst, _ = follow(hc, ["attach"], co[0]) if co else ([], [])
    nattach = len(qc.writes)
    dst, _ = follow(hc, ["detach"], cst[0]) if cst else ([], [])
    R.srv_paths = {}; R.cli_paths = {}
    for q1, tab in ((q, R.srv_paths), (qc, R.cli_paths)):
        for e, n, p, o, x in q1.ev:
            if n in ("mmap",): tab.setdefault(p, {})["size"] = x[0]
            if n in ("shm_open", "sem_open"): tab.setdefault(p, {})["kind"] = "shm" if n == "shm_open" else "sem"
    ssem = [p for p, d in R.srv_paths.items() if d.get("kind") == "sem"]; csem = [p for p, d in R.cli_paths.items() if d.get("kind") == "sem"]
    common = [p for p in csem if p in ssem]
    R.ssem, R.csem = ssem, csem
    R.lock = (csem or [None])[0]; R.slocks = [p for p in ssem if p not in csem] ; R.slock = (R.slocks or [None])[0]
    R.locks = set(csem) | set(common)
    smap = {p: d["size"] for p, d in R.srv_paths.items() if "size" in d}; cmap = {p: d["size"] for p, d in R.cli_paths.items() if "size" in d}
    R.smap, R.cmap = smap, cmap
    R.datas = [p for p, s in smap.items() if type(s) is not int]; R.cdatas = [p for p, s in cmap.items() if type(s) is not int]
    R.data = (R.datas or [None])[0]
    R.metas = [p for p, s in smap.items() if type(s) is int]
    a0, a1 = [("sym", "c:arg%d" % i) for i in (0, 1)]
    W = {}
    for e, b, off, sz, v in q.writes: W.setdefault(b[1], []).append((e, v, off, sz))
    R.swrites = W
    for p, l in W.items():
        for e, v, off, sz in l:
            a = single_atom(v)
            if a and a[:2] == a0 and R.rows is None: R.rows = p
            if a and a[:2] == a1 and R.cols is None: R.cols = p
    R.flags = [p for p in R.metas if smap[p] == 1]
    R.flag = (R.flags or [None])[0]
    if R.flag is None:     # or what run() writes
        R.flag = next((b[1] for e, b, off, sz, v in q.writes if e == "run"), None)
    cw = [b[1] for e, b, off, sz, v in qc.writes]
    R.count = next((p for p in cw if p in R.metas and p not in (R.flag,)), None)
    # element type and layout: constants which differ between instantiations
    consts = {}; cap = {}
    for i in (("double", 0), ("float", 1), ("int", 0)):
        q2 = Quick(); h2 = Hist(ps, cname("Server", i), [q2], budget=0)
        o2 = construct(h2, verbose=0, force=0)
        for e, b, off, sz, v in q2.writes:
            if type(v) is int and sz == 4: consts.setdefault(b[1], {})[i] = v
    for p, d in consts.items():
        if p in (R.rows, R.cols, R.flag, R.count) or len(d) < 3: continue
        x, y, z = d[("double", 0)], d[("float", 1)], d[("int", 0)]
        if len({x, y, z}) == 3: R.dtype = R.dtype or p
        elif x == z != y: R.layout = R.layout or p
    R.events = {"server": len(q.ev) + len(q.writes), "client": len(qc.ev) + len(qc.reads)}
    R.names = {p: n for n in ("rows", "cols", "count", "dtype", "layout", "flag", "data", "lock", "slock") for p in [getattr(R, n)] if p is not None}
    return R

# ================================================================= rules
class Rule:
    prop = "C00"; budget = 0
    def drop(self, s): return False      # states from which the history is not continued
    def __init__(self, R, kind, inst): self.R = R; self.kind = kind; self.inst = inst; self.n = {}; self.e = None; self.phase = None
    def cnt(self, k): self.n[k] = self.n.get(k, 0) + 1
    def begin(self, eng, st, e, av, phase): self.e = e; self.phase = phase; self.av = av; self.pre0 = st
    def bad(self, eng, st, msg, loc=None):
        loc = loc or eng.here()
        if loc == "?":
            fl, ln = next(iter(fn_locs(self.e.f)), ("?", 0))
            loc = "%s:%d" % (fl[len(REPO):].lstrip("/"), ln) if fl.startswith(REPO) else "?"
        eng.report(st, self.prop, msg, loc)
    @property
    def rw(self): return self.e is not None and self.e.ident in ("read", "write")
    def isdata(self, b): return b is not None and b[0] == "map" and type(b[1]) is tuple and (b[1] in self.R.datas or b[1] in self.R.cdatas)
    def what(self): return "%s::%s" % (self.kind, self.e.ident)
def failed(st, prim=None, path=None):
    return any(k[0] == "failed" and (prim is None or k[1] == prim) and (path is None or k[2] == path) for k in st.ts)
def busy(st, path=None): return any(k[0] == "busy" and (path is None or k[1] == path) for k in st.ts)
def holds(st, path): return st.ts.get(("hold", path), 0)
EXPLICIT = ("dataSemAcquire", "dataSemRelease")
def recover(st, name, path, outcome):
    if outcome == "ok": st.ts.pop(("failed", name, path), None)

class C01(Rule):
    prop = "C01"; pins = {"safe": 1}
    def on_prim(self, eng, st, name, path, outcome, extra, site):
        if path not in self.R.locks: return
        if outcome == "ok" and name in ("sem_wait", "sem_timedwait", "sem_trywait"): st.ts[("g:acq", path)] = 1
        elif name in ("sem_post", "sem_close"): st.ts.pop(("g:acq", path), None)
    def check(self, eng, st, what):
        self.cnt("accesses to the shared tensor")
        if not any(k[0] == "g:acq" for k in st.ts):
            self.bad(eng, st, "%s %s the shared tensor outside the interval between acquiring and releasing its lock" % (self.what(), what))
    def on_access(self, eng, st, mode, base, off, size, v):
        if self.rw and self.isdata(base): self.check(eng, st, "reads" if mode == "R" else "writes")
    def on_transfer(self, eng, st, dst, src, fn, types, site):
        if not self.rw: return
        for d, w in ((dst, "writes"), (src, "reads")):
            b = base_of(d)
            if self.isdata(b): self.check(eng, st, w)
        if busy(st) and is_user(base_of(dst)): self.bad(eng, st, "%s modifies the caller's buffer although the lock was not obtained" % self.what())
    def on_userstore(self, eng, st, base, off, size, v):
        if self.rw and busy(st) and is_user(base): self.bad(eng, st, "%s modifies the caller's buffer although the lock was not obtained" % self.what())
    def end(self, eng, pre, e, av, phase, kind, s, v):
        if e.ident not in ("read", "write"): return
        self.cnt("outcomes of read and write")
        if any(k[0] == "busy" and k[1] in self.R.locks for k in s.ts):
            if kind != "ret": self.bad(eng, s, "%s does not return false when the lock cannot be obtained immediately" % self.what())
            elif s.decide(v if isC(v) or type(v) is int else c_ne(v)) != 0: self.bad(eng, s, "%s may return true although the lock was not obtained" % self.what())

class C02(Rule):
    prop = "C02"; budget = 1
    def drop(self, s): return failed(s, "sem_post")      # an unreleasable lock: nothing can be expected any more
    def on_prim(self, eng, st, name, path, outcome, extra, site):
        if path not in self.R.locks: return
        if self.e is None: return
        recover(st, name, path, outcome)
        if failed(st, "sem_post", path): return
        if name in ("sem_wait", "sem_timedwait") and outcome == "try":
            self.cnt("lock acquisitions")
            if holds(st, path) and self.e.ident not in EXPLICIT and not st.ts.get(("G:ext", path)):
                self.bad(eng, st, "%s waits for the tensor's lock while this endpoint still holds it" % self.what())
        # the model decreases the counter after emitting 'ok'
        if name == "sem_post" and outcome == "ok":
            self.cnt("lock releases")
            if not holds(st, path) and self.e.ident not in EXPLICIT:
                self.bad(eng, st, "%s releases the tensor's lock without holding it" % self.what())
    def end(self, eng, pre, e, av, phase, kind, s, v):
        for path in self.R.locks:
            if failed(s, "sem_post", path): continue
            a, b = holds(pre, path), holds(s, path)
            self.cnt("outcomes compared")
            if e.ident in EXPLICIT:
                if e.ident == EXPLICIT[0]:
                    if kind == "ret" and b != a + 1 and not failed(s) and self.usable(s, path): self.bad(eng, s, "%s returns without holding the lock" % self.what())
                    if kind == "exc" and b != a: self.bad(eng, s, "%s throws and leaves the lock acquired" % self.what())
                continue
            if b == a: continue
            if phase == "ctor" and kind == "ret" and self.kind == "Server" and b == 1: continue
            if b == a - 1 and self.kind == "Server" and a == 1 and e.ident in ("run", "stop", "close") or phase == "dtor" and b < a: continue
            self.bad(eng, s, "%s %s with the tensor's lock %s" % (self.what() if phase != "ctor" else self.kind + " constructor", "returns" if kind == "ret" else "throws", "still acquired" if b > a else "released too often"))
        if kind == "ret" and self.kind == "Server" and e.ident == "run" and phase == "call":
            for path in self.R.locks:
                if holds(s, path) and not failed(s): self.bad(eng, s, "Server::run returns with the tensor's lock still held: no client can ever transfer")
    def usable(self, s, path): return any(k[0] == "sem" and k[1] == path for k in s.ts)

class C03(Rule):
    prop = "C03"; pins = {"verbose": 0}
    def begin(self, eng, st, e, av, phase):
        Rule.begin(self, eng, st, e, av, phase)
        st.ts.pop(("g:try",), None)
    def live(self, st): return self.rw and st.ts.get(("G:life",)) == "on"
    def on_prim(self, eng, st, name, path, outcome, extra, site):
        if not self.live(st): return
        if name in ("sem_wait", "sem_timedwait"):
            if outcome == "try": self.bad(eng, st, "%s on a running, quiet endpoint waits for a lock (%s)" % (self.what(), name))
        elif name == "sem_trywait":
            if outcome == "try": st.ts[("g:try",)] = min(3, st.ts.get(("g:try",), 0) + 1)
        elif name in ("lock", "timed_lock", "wait", "timed_wait") and outcome == "try": self.bad(eng, st, "%s on a running, quiet endpoint may block (%s)" % (self.what(), name))
        elif name in ("shm_open", "mmap", "ftruncate", "sem_open"): self.bad(eng, st, "%s on a running, quiet endpoint calls %s" % (self.what(), name))
    def on_effect(self, eng, st, kind, name, args, site):
        if not self.live(st): return
        self.cnt("effects in read and write")
        if kind in ("alloc", "log", "sleep", "block") and not failed(st):
            self.bad(eng, st, "%s on a running, quiet endpoint %s (%s)" % (self.what(), {"alloc": "allocates heap memory", "log": "prints", "sleep": "sleeps", "block": "may block"}[kind], eng.prog.dem.get(name, name).split("(")[0][:60]))
    def on_throw(self, eng, st, ti, msg, site):
        if self.live(st) and not failed(st): self.bad(eng, st, "%s on a running, quiet endpoint throws" % self.what())
    def end(self, eng, pre, e, av, phase, kind, s, v):
        life(self, eng, pre, e, phase, kind, s, v)
        if e.ident not in ("read", "write") or pre.ts.get(("G:life",)) != "on": return
        self.cnt("outcomes on running endpoints")
        n = s.ts.get(("g:try",), 0)
        safe = self.pinned.get("safe")
        # a request refused for its indices or shape need not try the lock at all
        done = kind == "ret" and s.decide(v if isC(v) or type(v) is int else c_ne(v)) != 0
        if n > 1: self.bad(eng, s, "%s tries the lock more than once" % self.what())
        if safe == 0 and n: self.bad(eng, s, "%s of an endpoint in unsafe mode tries the lock" % self.what())
        if safe == 1 and n == 0 and done: self.bad(eng, s, "%s of an endpoint in safe mode does not try the lock" % self.what())

START = ("run", "attach"); END = ("stop", "detach", "close")
def life(rule, eng, pre, e, phase, kind, s, v):
    """ghost: what a user knows about the endpoint's life from the calls made"""
    k = ("G:life",)
    if phase == "ctor": s.ts[k] = "off"
    elif e.ident in START and phase == "call":
        if kind == "ret": s.ts[k] = "on"
        elif pre.ts.get(k) != "off": s.ts[k] = "?"
    elif e.ident in END:
        if kind == "ret": s.ts[k] = "off"
        elif pre.ts.get(k) != "off": s.ts[k] = "?"

def truth(s, v): return s.decide(v if isC(v) or type(v) is int else c_ne(v))

class C05(Rule):
    prop = "C05"
    def gated(self, st): return self.rw and st.ts.get(("G:life",)) == "off"
    def on_prim(self, eng, st, name, path, outcome, extra, site):
        if self.gated(st) and outcome in ("try", "ok") and name.startswith("sem_"): self.bad(eng, st, "%s touches the lock although the endpoint is not %s" % (self.what(), self.word()))
    def word(self): return "running" if self.kind == "Server" else "attached"
    def on_access(self, eng, st, mode, base, off, size, v):
        if self.gated(st) and self.isdata(base): self.bad(eng, st, "%s touches the shared tensor although the endpoint is not %s" % (self.what(), self.word()))
    def on_transfer(self, eng, st, dst, src, fn, types, site):
        if not self.gated(st): return
        self.cnt("transfers examined")
        for d in (dst, src):
            b = base_of(d)
            if self.isdata(b) or (b is not None and b[0] in ("psym", "phi") or b == 0): self.bad(eng, st, "%s touches the shared tensor although the endpoint is not %s" % (self.what(), self.word()))
        if is_user(base_of(dst)): self.bad(eng, st, "%s modifies the caller's buffer although the endpoint is not %s" % (self.what(), self.word()))
    def on_badptr(self, eng, st, p):
        if self.gated(st): self.bad(eng, st, "%s follows a null pointer although the endpoint is not %s" % (self.what(), self.word()))
    def end(self, eng, pre, e, av, phase, kind, s, v):
        life(self, eng, pre, e, phase, kind, s, v)
        l = pre.ts.get(("G:life",))
        if e.ident in ("read", "write") and l == "off":
            self.cnt("outcomes on endpoints which are not running")
            if kind != "ret": self.bad(eng, s, "%s throws instead of returning false on an endpoint which is not %s" % (self.what(), self.word()))
            elif truth(s, v) != 0: self.bad(eng, s, "%s may return true on an endpoint which is not %s" % (self.what(), self.word()))
        if e.ident in ("isRunning", "isAttached") and l in ("on", "off"):
            if self.kind == "Client" and e.ident == "isRunning": return     # whether the server runs
            self.cnt("state queries")
            if kind != "ret" or truth(s, v) != (1 if l == "on" else 0):
                self.bad(eng, s, "%s does not report %s after the calls made so far" % (self.what(), "true" if l == "on" else "false"))

class Geometry:
    """helpers on dense descriptors"""
    def tensor(self, st, base, es):
        """(rows, cols) of the mapped segment, from the size it was mapped with"""
        return st.ts.get(base)

def num(v): return type(v) is int or isP(v)
def block_of(d):
    """(root rows, root cols, start row, start col, rows, cols) of a descriptor over the tensor"""
    if d is None: return None
    st = d.get("start")
    if d.get("kind") == "Block" and st is not None:
        x = d.get("xpr") or {}
        # nested blocks: offsets add up
        r0, c0 = st; 
        while x.get("kind") == "Block" and x.get("start") is not None:
            r0 = padd(r0, x["start"][0]); c0 = padd(c0, x["start"][1]); x = x.get("xpr") or {}
        if num(x.get("rows")) and num(x.get("cols")) and num(r0) and num(c0): return x["rows"], x["cols"], r0, c0, d["rows"], d["cols"], x
        return None
    if num(d.get("rows")) and num(d.get("cols")): return d["rows"], d["cols"], 0, 0, d["rows"], d["cols"], d
    return None

class C04(Rule):
    prop = "C04"
    def on_transfer(self, eng, st, dst, src, fn, types, site):
        for d, w in ((dst, "writes"), (src, "reads")):
            b = base_of(d)
            if not self.isdata(b): continue
            self.cnt("dense transfers on the shared tensor")
            size = st.ts.get(b)
            k = block_of(d)
            if size is None:
                self.bad(eng, st, "%s %s the shared tensor after it was unmapped" % (self.what(), w)); continue
            if k is None: self.cnt("transfers not decomposed"); continue
            R, C, r, c, nr, nc, root = k
            if root.get("data") is None or not isp(root["data"]) or root["data"][2] != 0: self.cnt("transfers not decomposed"); continue
            if psub(pmul(pmul(R, C), d["es"]), size) != 0 and self.e.ident in ("read", "write"):
                self.bad(eng, st, "%s addresses the shared tensor with dimensions that do not match its mapped size (%s x %s, %s bytes)" % (self.what(), show(R), show(C), show(size))); continue
            for cond, msg in ((r, "first row may be negative"), (c, "first column may be negative"), (psub(R, padd(r, nr)), "last row may lie beyond the tensor"), (psub(C, padd(c, nc)), "last column may lie beyond the tensor")):
                self.cnt("bound obligations")
                if not st.prove(cond): self.bad(eng, st, "%s %s outside the shared tensor: %s" % (self.what(), w, msg))
    def on_access(self, eng, st, mode, base, off, size, v):
        if not self.isdata(base): return
        self.cnt("element accesses to the shared tensor")
        total = st.ts.get(base)
        if total is None: self.bad(eng, st, "%s accesses the shared tensor after it was unmapped" % self.what()); return
        if st.decide(c_ge(off)) == 0: self.bad(eng, st, "%s accesses the shared tensor before its start" % self.what()); return
        ok = inside(st, off, size, total)
        if ok is None: self.cnt("element accesses not decomposed")
        elif not ok: self.bad(eng, st, "%s may access an element outside the shared tensor" % self.what())
def inside(st, off, size, total):
    """whether [off, off+size) lies inside total = es*R*C bytes, for off = es*(i + j*R); None if not decomposable"""
    if not num(size) or not num(off) or not num(total): return None
    if st.decide(c_ge(off)) == 1 and st.decide(c_ge(psub(total, padd(off, size)))) == 1: return True
    if type(total) is int or total[1] or len(total[2]) != 1 or len(total[2][0][0]) != 2 or type(size) is not int: return None
    (m, es), = total[2]
    if size != es: return None
    res = None
    for D, O in ((m[0], m[1]), (m[1], m[0])):     # inner and outer dimension
        rem, quo = {}, {}; c0 = off if type(off) is int else off[1]
        for mm, k in (() if type(off) is int else off[2]):
            if D in mm:
                l = list(mm); l.remove(D); quo[tuple(l)] = quo.get(tuple(l), 0) + k
            else: rem[mm] = rem.get(mm, 0) + k
        if any(k % es for k in list(rem.values()) + list(quo.values())) or c0 % es: continue
        qc = quo.pop((), 0)
        i = mk(c0 // es, {a: k // es for a, k in rem.items()}); j = mk(qc // es, {a: k // es for a, k in quo.items()})
        dD = ("P", 0, (((D,), 1),)); dO = ("P", 0, (((O,), 1),))
        obl = [i, j, psub(psub(dD, i), 1), psub(psub(dO, j), 1)]
        if all(st.prove(o) for o in obl): return True
        res = False
    return res

class C06(Rule):
    prop = "C06"
    def on_transfer(self, eng, st, dst, src, fn, types, site):
        if not self.rw: return
        db, sb = base_of(dst), base_of(src)
        w = self.e.ident == "write"
        if w and is_user(db): self.bad(eng, st, "write modifies the caller's data"); return
        if not w and self.isdata(db): self.bad(eng, st, "read modifies the shared tensor"); return
        t, u = (dst, src) if w else (src, dst)
        tb, ub = (db, sb) if w else (sb, db)
        if not self.isdata(tb) and not (self.isdata(db) or self.isdata(sb)): return
        self.cnt("transfers between shared tensor and caller")
        if not self.isdata(tb): self.bad(eng, st, "%s copies in the wrong direction" % self.what()); return
        k = block_of(t); uk = block_of(u)
        if k is None or uk is None or not is_user(ub): self.cnt("transfers not decomposed"); st.ts[("g:xfer",)] = "?"; return
        self.cnt("transfers decomposed")
        # expected: the caller's whole buffer at the requested row and column
        ua = next((a for a, p in zip(self.av[1:], self.e.params) if "Eigen::" in p), None)
        idx = [a for a, p in zip(self.av[1:], self.e.params) if p == "int"]
        R, C, r, c, nr, nc, root = k
        uR, uC, ur, uc, unr, unc, uroot = uk
        wr, wc = caller_dims(eng, st, ua)
        msg = None
        if fn != "assign_op": msg = "combines instead of copying"
        elif len(idx) >= 2 and (psub(r, idx[0]) != 0 or psub(c, idx[1]) != 0):
            msg = "transfers a block at row %s, column %s instead of the requested row and column" % (nm(r), nm(c))
        elif wr is not None and (same(st, nr, wr) is False or same(st, nc, wc) is False): msg = "transfers a block of %s x %s elements instead of the caller's whole block" % (nm(nr), nm(nc))
        elif wr is not None and (same(st, unr, wr) is False or same(st, unc, wc) is False or ur != 0 or uc != 0): msg = "transfers only part of the caller's buffer"
        elif not strides_ok(eng, st, u, ua, next((p for p in self.e.params if 'Eigen::' in p), '')): msg = "addresses the caller's buffer with other strides than the caller's"
        elif not root_ok(self, st, t, root): msg = "addresses the shared tensor with strides that do not match its layout"
        elif self.inst[0] and t["es"] != u["es"]: msg = "mixes element types"
        if msg: self.bad(eng, st, "%s %s" % (self.what(), msg))
        st.ts[("g:xfer",)] = "yes"
    def on_access(self, eng, st, mode, base, off, size, v):
        if not self.rw or not self.isdata(base): return
        if mode == "W" and self.e.ident == "read": self.bad(eng, st, "read modifies the shared tensor")
        if mode == "W": st.ts.setdefault(("g:xfer",), "?")
    def on_userstore(self, eng, st, base, off, size, v):
        if self.rw and self.e.ident == "write" and is_user(base): self.bad(eng, st, "write modifies the caller's data")
        if self.rw and self.e.ident == "read" and is_user(base): st.ts.setdefault(("g:xfer",), "?")
    def begin(self, eng, st, e, av, phase):
        Rule.begin(self, eng, st, e, av, phase)
        eng.path_sens = e.ident in ("read", "write")
        if e.ident in ("read", "write"): self.shape0 = caller_dims(eng, st, next((a for a, p in zip(av[1:], e.params) if "Eigen::" in p), None))
    def end(self, eng, pre, e, av, phase, kind, s, v):
        eng.path_sens = False
        life(self, eng, pre, e, phase, kind, s, v)
        if e.ident not in ("read", "write"): return
        l = pre.ts.get(("G:life",)); x = s.ts.get(("g:xfer",))
        self.cnt("outcomes")
        if kind != "ret": return
        t = truth(s, v)
        if t is None: self.bad(eng, s, "the result of %s is not determined by what it did" % self.what()); return
        if t == 1 and x is None:
            # an empty block may legitimately be 'transferred' without touching anything
            if not empty(s, self.shape0): self.bad(eng, s, "%s may return true without having transferred the block" % self.what())
        if t == 0 and x == "yes": self.bad(eng, s, "%s may return false although it transferred the block" % self.what())
        if t == 0 and l == "on" and not busy(s) and not failed(s):
            # a request that fits must not be refused
            d = dims_of(self, s)
            if d is None or self.shape0[0] is None: self.cnt("refusals not decided"); return
            idx = [a for a, p in zip(av[1:], e.params) if p == "int"]
            if len(idx) < 2: return
            u = s.fork(); self.cnt("refusals examined")
            for c in (idx[0], idx[1], psub(d[0], padd(idx[0], self.shape0[0])), psub(d[1], padd(idx[1], self.shape0[1])), psub(self.shape0[0], 1), psub(self.shape0[1], 1)):
                if not u.assume(c_ge(c)): return
            if contradictory(u) or not u.feasible(): return
            self.bad(eng, s, "%s may return false for a block which lies inside the tensor, on a running endpoint with the lock available" % self.what())
def nm(v): return re.sub(r"init\(obj\((\w+)\),(\d+),8\)", r"caller[\2]", show(v))
def contradictory(u):
    """what was assumed later may contradict earlier facts"""
    for f in list(u.facts):
        if u.decide(c_not(f)) == 1: return True
    for L, (lo, hi) in list(u.iv.items()):
        if lo is not None and hi is not None and lo > hi: return True
        a, b = u.rng(L)
        if a is not None and b is not None and a > b: return True
        # combinations of two other known linear forms
    return False
def caller_dims(eng, st, ua):
    if not isp(ua): return None, None
    c = lambda o: eng.load(st, DUMMY(eng), ("p", ua[1], padd(ua[2], o)), ("i", 64), record=False)
    return c(8), c(16)
class DUMMY:
    def __init__(self, eng): self.mod = eng.prog.mods[0]; self.f = self; self.name = ''
def same(st, a, b):
    """True / False / None: equal on every run reaching st"""
    if not num(a) or not num(b): return None
    d = psub(a, b)
    if d == 0: return True
    return st.decide(c_eq(d)) == 1 or False
def pid(p):
    b = p[1]
    if type(b) is tuple and b and b[0] == "psym" and single_atom(b[1]) is not None: b = single_atom(b[1])
    return b, p[2]
def strides_ok(eng, st, u, ua, ty):
    """the caller's buffer is addressed through its own data pointer with its own strides"""
    if not isp(ua) or not isp(u.get("data")): return True
    own = dense(eng, st, DUMMY(eng), ty, ua)
    if own is None: return True
    while u.get("kind") == "Block" and u.get("xpr"): u = u["xpr"]
    return pid(u["data"]) == pid(own["data"]) and u.get("inner") == own["inner"] and (u.get("outer") == own["outer"] or u.get("outer") is None)
def root_ok(rule, st, t, root):
    """the mapped tensor is addressed from its start, with the published dimensions, in its own layout"""
    d = root.get("data")
    if not isp(d) or d[2] != 0 or root.get("inner") != 1: return False
    dm = dims_of(rule, st)
    if dm is None: return True
    if same(st, root["rows"], dm[0]) is not True or same(st, root["cols"], dm[1]) is not True: return False
    want = dm[1] if rule.inst[1] else dm[0]
    return root.get("outer") is None or same(st, root["outer"], want) is True
def empty(s, shape):
    if shape is None or shape[0] is None: return False
    return any(num(x) and s.decide(c_eq(x)) == 1 for x in shape)
def dims_of(rule, s):
    """the tensor's published dimensions as this endpoint knows them: factors of the mapped size"""
    for k, v in s.ts.items():
        if k[0] == "map" and len(k) == 3 and rule.isdata(k) and isP(v) and len(v[2]) == 1 and len(v[2][0][0]) == 2:
            m = v[2][0][0]
            at = [("P", 0, (((i,), 1),)) for i in m]
            # which factor is the number of rows: the one read from / written to the rows segment
            if rule.kind == "Client":
                for i, a in ((0, at[0]), (1, at[1])):
                    x = AT[m[i]]
                    if x[0] == "shm" and x[1] == rule.R.rows: return a, at[1 - i]
                return None
            for i in (0, 1):
                x = AT[m[i]]
                if x[:2] == ("sym", "c:arg0"): return at[i], at[1 - i]
            return None
    return None

class C07(Rule):
    prop = "C07"; budget = 1
    def drop(self, s): return failed(s, "sem_post")
    def on_prim(self, eng, st, name, path, outcome, extra, site):
        recover(st, name, path, outcome)
        if path not in self.R.slocks: return
        if outcome == "ok" and name in ("sem_wait", "sem_timedwait", "sem_trywait"): st.ts.pop(("busy", path), None)
        if name == "sem_post" and outcome == "ok":
            self.cnt("releases of the server lock")
            if not holds(st, path): self.bad(eng, st, "%s releases the server lock without holding it" % self.what())
            if st.ts.get(("G:flag",)): self.bad(eng, st, "%s releases the server lock before lowering the running flag" % self.what())
        if name in ("sem_wait", "sem_timedwait") and outcome == "try" and holds(st, path):
            self.bad(eng, st, "%s waits for the server lock it already holds" % self.what())
    def on_access(self, eng, st, mode, base, off, size, v):
        if mode != "W" or base[1] not in self.R.flags: return
        self.cnt("updates of the running flag")
        up = v if type(v) is int else (st.decide(c_ne(v)) if num(v) else None)
        if up == 0: st.ts.pop(("G:flag",), None); return
        st.ts[("G:flag",)] = 1
        if not any(holds(st, p) for p in self.R.slocks): self.bad(eng, st, "%s publishes the server as running without holding the server lock" % self.what())
    def on_transfer(self, eng, st, dst, src, fn, types, site):
        b = base_of(dst)
        if b and b[0] == "map" and b[1] in self.R.flags and src and src.get("kind") == "const":
            self.on_access(eng, st, "W", b, 0, 1, 0 if "Zero" in str(types) else atom(("?", "flag")))
    def end(self, eng, pre, e, av, phase, kind, s, v):
        life(self, eng, pre, e, phase, kind, s, v)
        if failed(s, "sem_post"):
            for p in self.R.slocks: s.ts.pop(("hold", p), None)
            return
        if phase == "dtor": 
            return
        l = s.ts.get(("G:life",)); h = max([holds(s, p) for p in self.R.slocks] or [0]); f = s.ts.get(("G:flag",), 0)
        self.cnt("outcomes")
        if e.ident in START and kind == "ret" and phase == "call" and not h:
            self.bad(eng, s, "Server::%s returns normally without holding the server lock" % e.ident)
        if e.ident == "run" and kind == "ret" and not f: self.bad(eng, s, "Server::run returns normally without having raised the running flag")
        if l == "off" and h and not (kind == "exc" and failed(s)): self.bad(eng, s, "%s leaves the server lock held although the server is not running" % self.what() if phase != "ctor" else "Server constructor leaves the server lock held")
        if l == "off" and f: self.bad(eng, s, "%s leaves the running flag raised although the server is not running" % self.what())
        if l == "on" and not h: self.bad(eng, s, "after %s the server runs without holding the server lock" % self.what())
        if e.ident == "isRunning" and kind == "ret" and not h and truth(s, v) != 0: self.bad(eng, s, "Server::isRunning may report true although the server lock is not held")
        if e.ident == "run" and busy(s) and kind != "exc" and pre.ts.get(("G:life",)) == "off": self.bad(eng, s, "Server::run does not throw although the server lock was not obtained")

class C08(Rule):
    prop = "C08"; budget = 1
    def needed(self): return [p for p in self.R.metas if p not in self.R.flags]
    def on_prim(self, eng, st, name, path, outcome, extra, site):
        if self.kind == "Server" and name == "shm_unlink" and outcome == "ok" and path in self.R.flags: st.ts[("G:low", path)] = 1
        if outcome == "ok" and name in ("shm_unlink", "munmap") or name == "ftruncate": st.ts.pop(("G:w", path), None); st.ts.pop(("g:flagseen",), None) if path in self.R.flags else None
        if name == "mmap" and outcome == "ok" and self.kind == "Client" and path in self.R.flags: st.ts.pop(("g:flagseen",), None)
        if name == "mmap" and outcome == "ok" and self.kind == "Client" and (path in self.R.cdatas):
            self.cnt("client mappings of the data segment")
            size = extra[0]; want = (self.R.rows, self.R.cols)
            ok = isP(size) and size[1] == 0 and len(size[2]) == 1 and size[2][0][1] == ESIZE[self.inst[0]] and len(size[2][0][0]) == 2
            if ok:
                at = [AT[i] for i in size[2][0][0]]
                ok = all(a[0] == "shm" for a in at) and {a[1] for a in at} == set(want)
            if not ok and None not in want: self.bad(eng, st, "Client maps the data segment with a size that is not rows x columns published by the server")
    def on_access(self, eng, st, mode, base, off, size, v):
        p = base[1]
        if self.kind == "Server":
            if mode == "W" and p in self.R.metas and p not in self.R.flags:
                st.ts[("G:w", p)] = 1
                self.cnt("metadata writes")
                want = {self.R.rows: "c:arg0", self.R.cols: "c:arg1"}.get(p)
                a = single_atom(v)
                if want and not (a and a[:2] == ("sym", want)) and not (self.phase != "ctor"): self.bad(eng, st, "Server publishes %s instead of its own %s" % (show(v), "rows" if p == self.R.rows else "columns"))
            if mode == "W" and p in self.R.flags:
                up = v if type(v) is int else (st.decide(c_ne(v)) if num(v) else None)
                if up == 0: st.ts[("G:low", p)] = 1; return
                st.ts.pop(("G:low", p), None)
                self.cnt("raises of the running flag")
                for q in self.needed():
                    if not st.ts.get(("G:w", q)): self.bad(eng, st, "Server raises the running flag before writing the metadata segment %s" % s_show(q))
                for q in self.R.datas or [None]:
                    if not any(k[0] == "map" and k[1] == q for k in st.ts): self.bad(eng, st, "Server raises the running flag before its data segment is mapped")
            return
        if p in self.R.flags and mode == "R":
            st.ts[("g:flagseen",)] = v; return
        if p in self.R.metas and mode == "R" and self.e.ident in START:
            self.cnt("client metadata reads")
            f = st.ts.get(("g:flagseen",))
            if f is None or not num(f) or st.decide(c_ne(f)) != 1:
                self.bad(eng, st, "Client reads the server's metadata (%s) before it has seen the running flag raised" % s_show(p))
    def end(self, eng, pre, e, av, phase, kind, s, v):
        life(self, eng, pre, e, phase, kind, s, v)
        if self.kind == "Server" and phase == "ctor" and kind == "ret":
            self.cnt("server constructions")
            for p in self.R.flags:
                if not s.ts.get(("G:low", p)): self.bad(eng, s, "a new server may leave the running flag up which a previous server left behind (it is not lowered before the server is run)")
        if self.kind == "Client" and e.ident == "attach" and kind == "ret" and phase == "call":
            self.cnt("successful attaches")
            if not any(k[0] == "map" and len(k) == 3 and (k[1] in self.R.cdatas or type(v2) is not int) for k, v2 in s.ts.items()):
                self.bad(eng, s, "Client::attach reports success although the data segment is not mapped")
        if e.ident == "isAttached" and kind == "ret" and truth(s, v) != 0 and not any(k[0] == "map" and len(k) == 3 and type(v2) is not int for k, v2 in s.ts.items()):
            self.bad(eng, s, "Client::isAttached may report true although the data segment is not mapped")

class C09(Rule):
    prop = "C09"; budget = 0
    def on_access(self, eng, st, mode, base, off, size, v):
        if self.kind == "Client" and mode == "R" and base[1] in (self.R.dtype, self.R.layout):
            k = ("g:code", base[1]); st.ts[k] = (st.ts.get(k, ()) + (v,))[-4:]
        if self.kind == "Client" and mode == "W" and base[1] == self.R.count: st.ts[("g:cnt",)] = "changed"
    def on_prim(self, eng, st, name, path, outcome, extra, site):
        if name == "shm_open" and outcome == "absent": st.ts[("g:absent",)] = 1
    def end(self, eng, pre, e, av, phase, kind, s, v):
        life(self, eng, pre, e, phase, kind, s, v)
        if self.kind != "Client" or e.ident != "attach" or pre.ts.get(("G:life",)) == "on": return
        codes = {self.R.dtype: self.R.code[self.inst][0], self.R.layout: self.R.code[self.inst][1]}
        self.cnt("attach outcomes")
        if kind == "ret":
            for p, c in codes.items():
                al = s.ts.get(("g:code", p), ())
                what = "element type" if p == self.R.dtype else "memory layout"
                if not any(num(a) and s.decide(c_eq(psub(a, c))) == 1 for a in al):
                    self.bad(eng, s, "Client::attach may succeed although the server's %s differs from the client's" % what)
            return
        if s.ts.get(("g:absent",)) or busy(s): return
        u = s.fork(); ok = True; seen = 0
        for p, c in codes.items():
            for a in u.ts.get(("g:code", p), ()):
                seen += 1
                if not u.assume(c_eq(psub(a, c))): ok = False; break
        if not seen: return
        if ok and not contradictory(u): self.bad(eng, s, "Client::attach may reject a server whose element type and memory layout agree with the client's")
        elif True:
            if s.ts.get(("g:cnt",)): self.bad(eng, s, "a rejected Client::attach changes the client count")
            if any(k[0] == "map" and len(k) == 3 and type(x) is not int for k, x in s.ts.items()): self.bad(eng, s, "a rejected Client::attach leaves the data segment mapped")
            if any(holds(s, p) for p in self.R.locks): self.bad(eng, s, "a rejected Client::attach leaves the tensor's lock held")

class C10(Rule):
    prop = "C10"; budget = 1
    def on_prim(self, eng, st, name, path, outcome, extra, site): recover(st, name, path, outcome)
    def locked(self, st): return any(holds(st, p) for p in self.R.locks)
    def on_access(self, eng, st, mode, base, off, size, v):
        if self.R.count is None or base[1] != self.R.count: return
        if mode == "R":
            st.ts[("g:cr",)] = (v, self.locked(st)); return
        self.cnt("updates of the client count")
        if self.kind == "Server":
            if self.phase == "ctor" and v == 0: st.ts[("g:zero",)] = 1; return
            self.bad(eng, st, "%s writes %s into the client count" % (self.what(), show(v))); return
        r = st.ts.get(("g:cr",))
        d = psub(v, r[0]) if r and num(v) and num(r[0]) else None
        if d not in (1, -1): self.bad(eng, st, "%s does not change the client count by exactly one from the value just read" % self.what()); return
        if not self.locked(st): self.bad(eng, st, "%s updates the client count without holding the tensor's lock" % self.what())
        elif not r[1]: self.bad(eng, st, "%s reads the client count it updates before holding the tensor's lock" % self.what())
        k = ("g:delta",); n = st.ts.get(k, 0) + d
        if n: st.ts[k] = max(-2, min(2, n))
        else: st.ts.pop(k, None)
        st.ts.pop(("g:cr",), None)
    def end(self, eng, pre, e, av, phase, kind, s, v):
        l0 = pre.ts.get(("G:life",))
        life(self, eng, pre, e, phase, kind, s, v)
        self.cnt("outcomes")
        if self.kind == "Server":
            if phase == "ctor" and kind == "ret" and not s.ts.get(("g:zero",)): self.bad(eng, s, "Server constructor does not set the client count to zero")
            if e.ident == "getNClients" and kind == "ret" and l0 == "on":
                r = s.ts.get(("g:cr",))
                if not r or not num(v) or psub(v, r[0]) != 0: self.bad(eng, s, "Server::getNClients does not return the shared client count")
            return
        if failed(s, "sem_post") or l0 == "?": return
        d = s.ts.get(("g:delta",), 0); l1 = s.ts.get(("G:life",))
        on0 = 1 if l0 == "on" else 0; on1 = 1 if l1 == "on" else 0 if l1 == "off" else None
        if phase == "dtor": on1 = 0
        if phase == "dtor" and failed(s): return
        if on1 is None:
            if d not in (0, -1): self.bad(eng, s, "%s fails and changes the client count by %d" % (self.what(), d))
            return
        if d != on1 - on0:
            self.bad(eng, s, "%s changes the client count by %d instead of %d" % (self.what() if phase != "ctor" else "Client constructor", d, on1 - on0) + ("" if kind == "ret" else " when it throws"))

class C11(Rule):
    prop = "C11"; budget = 1
    def on_prim(self, eng, st, name, path, outcome, extra, site):
        recover(st, name, path, outcome)
        if outcome == "fail": self.cnt("injected failures")
    def on_use(self, eng, st, what, v, key, site):
        self.cnt("uses of descriptors, locks and mappings")
        bad = None
        if what == "fd" and v == -1 and "close" not in (site.name or ""): bad = "uses a shared segment whose creation failed"
        if what == "sem" and v == 0: bad = "uses a lock which could not be opened"
        if bad and failed(st): self.bad(eng, st, "%s %s" % (self.what() if self.phase != "ctor" else self.kind + " constructor", bad))
    def on_badptr(self, eng, st, p):
        if failed(st) and type(p) is int: self.bad(eng, st, "%s accesses memory through the result of a failed mapping" % (self.what() if self.phase != "ctor" else self.kind + " constructor"))
    def end(self, eng, pre, e, av, phase, kind, s, v):
        f = [k for k in s.ts if k[0] == "failed"]
        if not f: return
        self.cnt("outcomes after a failure")
        if kind != "ret" or phase == "dtor": return
        if e.ident in ("read", "write") and truth(s, v) == 0: return
        w = self.what() if phase != "ctor" else self.kind + " constructor"
        for k in f: self.bad(eng, s, "%s reports success although %s failed" % (w, k[1]) + (" on the %s" % self.R.names.get(k[2], s_show(k[2])) if isS(k[2]) else ""))

RES = {"fd": "file descriptor", "map": "mapping", "sem": "lock handle"}
class C12(Rule):
    prop = "C12"; budget = 1
    def on_use(self, eng, st, what, v, key, site):
        self.cnt("uses of descriptors, locks and mappings")
        n = site.name
        rel = n in ("close", "sem_close", "munmap")
        w = self.what() if self.phase not in ("ctor", "dtor") else self.kind + " " + ("constructor" if self.phase == "ctor" else "destructor")
        if key is None or (what == "map" and key not in st.ts) or (what != "map" and not st.ts.get(key)):
            if rel: self.bad(eng, st, "%s releases a %s which is not open" % (w, RES[what]))
            elif not failed(st): self.bad(eng, st, "%s uses a %s which is not open" % (w, RES[what]))
    def open(self, s): return [k for k in s.ts if k[0] in RES and (k[0] != "map" or len(k) == 3)]
    def end(self, eng, pre, e, av, phase, kind, s, v):
        for k in s.ts:
            if k[0] == "map" and len(k) == 4: self.bad(eng, s, "%s maps %s again without releasing the previous mapping" % (self.what(), self.name(k[1])))
            elif k[0] in ("fd", "sem") and s.ts[k] > 1 and pre.ts.get(k, 0) < s.ts[k] and s.ts[k] > (1 if k[0] == "fd" else 1): self.bad(eng, s, "%s opens %s again without releasing the previous %s" % (self.what(), self.name(k[1]), RES[k[0]]))
        fin = e.ident == "close" and phase == "call" or phase == "dtor"
        if not fin or (kind != "ret"): return
        self.cnt("outcomes of close and destruction")
        if failed(s): return
        for k in self.open(s):
            self.bad(eng, s, "%s leaves the %s of %s open" % (self.what() if phase != "dtor" else self.kind + " destructor", RES[k[0]], self.name(k[1])))
    def name(self, p): return "the " + self.R.names.get(p, s_show(p) if isS(p) else "?") + (" segment" if p not in self.R.locks and p not in self.R.slocks else "")

class C13(Rule):
    prop = "C13"; budget = 0
    def same_size(self, path, n):
        """whether n is the size the server gives the segment"""
        if path in self.R.datas:
            return isP(n) and n[1] == 0 and len(n[2]) == 1 and n[2][0][1] == ESIZE[self.inst[0]] and len(n[2][0][0]) == 2 and {AT[i][1] for i in n[2][0][0] if AT[i][0] == "shm"} == {self.R.rows, self.R.cols}
        return path in self.R.smap and self.R.smap[path] == n
    def on_prim(self, eng, st, name, path, outcome, extra, site):
        if name in ("shm_unlink", "sem_unlink", "shm_open", "sem_open", "ftruncate") and outcome in ("ok", "fail"):
            self.cnt("creations, removals and resizings")
            w = self.what() if self.phase != "ctor" else self.kind + " constructor"
            parts_ = path[1] if isS(path) else ()
            if name != "ftruncate" and (("arg", "ns") not in parts_ or ("arg", "name") not in parts_):
                self.bad(eng, st, "%s %s a name which does not belong to its own namespace and name (%s)" % (w, "removes" if "unlink" in name else "opens", s_show(path) if isS(path) else "?"))
            if self.kind == "Client":
                if name in ("shm_unlink", "sem_unlink"): self.bad(eng, st, "%s removes a shared object (%s)" % (w, s_show(path)))
                if name == "ftruncate" and not self.same_size(path, extra): self.bad(eng, st, "%s resizes a shared segment (%s)" % (w, s_show(path) if isS(path) else "?"))
                if name == "shm_open" and type(extra) is int and extra & 0o1000: self.bad(eng, st, "%s truncates a shared segment (%s)" % (w, s_show(path)))
            elif name in ("shm_unlink", "sem_unlink"): st.ts[("g:rm", path)] = 1
    def on_access(self, eng, st, mode, base, off, size, v):
        if mode == "W" and self.kind == "Client" and base[1] in self.R.metas:
            self.cnt("metadata writes of a client")
            if base[1] != self.R.count: self.bad(eng, st, "%s writes the server's metadata (%s)" % (self.what(), s_show(base[1])))
    def end(self, eng, pre, e, av, phase, kind, s, v):
        life(self, eng, pre, e, phase, kind, s, v)
        if self.kind != "Server" or kind != "ret": return
        if phase == "ctor": s.ts[("G:own",)] = 1
        if not (e.ident == "close" and phase == "call" or phase == "dtor") or not pre.ts.get(("G:own",)): return
        self.cnt("outcomes of close and destruction")
        for p in self.R.srv_paths:
            if p in self.R.flags: continue      # clients may still poll the flag
            if not s.ts.get(("g:rm", p)): self.bad(eng, s, "%s does not remove the %s" % (self.what() if phase != "dtor" else "Server destructor", self.R.names.get(p, s_show(p))))
        if kind == "ret": s.ts.pop(("G:own",), None)

class C14(Rule):
    prop = "C14"; budget = 0
    def on_transfer(self, eng, st, dst, src, fn, types, site):
        if not self.rw: return
        for d in (dst, src):
            if not self.isdata(base_of(d)): continue
            k = block_of(d)
            if k is None: continue
            self.cnt("views of the shared tensor")
            R, C, root = k[0], k[1], k[6]
            a, b = single_atom(R), single_atom(C)
            if a is None or b is None: continue
            if self.kind == "Server": ok = a[:2] == ("sym", "c:arg0") and b[:2] == ("sym", "c:arg1")
            else: ok = a[0] == "shm" and b[0] == "shm" and (a[1], b[1]) == (self.R.rows, self.R.cols)
            if not ok: self.bad(eng, st, "%s views the shared tensor as %s x %s instead of its rows x columns" % (self.what(), show(R), show(C)))
            rm = self.inst[1]
            if root.get("rm") is not None and int(root["rm"]) != rm: self.bad(eng, st, "%s views the shared tensor in the other memory layout" % self.what())
    def on_prim(self, eng, st, name, path, outcome, extra, site):
        if name == "mmap" and outcome == "ok":
            tab = self.R.smap if self.kind == "Server" else self.R.cmap
            other = self.R.cmap if self.kind == "Server" else self.R.smap
            self.cnt("mappings")
            if path not in other: self.bad(eng, st, "%s maps %s, which the %s does not use" % (self.kind, s_show(path), "client" if self.kind == "Server" else "server"))
            elif type(extra[0]) is int and type(other[path]) is int and extra[0] != other[path]: self.bad(eng, st, "%s maps %s with %d bytes, its peer with %d" % (self.kind, s_show(path), extra[0], other[path]))
    def end(self, eng, pre, e, av, phase, kind, s, v): life(self, eng, pre, e, phase, kind, s, v)

BILL = 1000000000
class C19(Rule):
    prop = "C19"; budget = 0; opts = {"keep_clock": 1}
    def on_prim(self, eng, st, name, path, outcome, extra, site):
        if outcome == "ok" and name in ("sem_wait", "sem_timedwait", "sem_trywait"): st.ts.pop(("busy", path), None)
        if outcome != "try": return
        boot = self.phase == "ctor" or self.e.ident == "run"
        if name == "sem_wait" and self.kind == "Server" and boot:
            self.bad(eng, st, "%s waits for a lock without a time limit" % ("Server constructor" if self.phase == "ctor" else self.what()))
        if name == "sem_timedwait":
            self.cnt("timed waits"); check_deadline(self, eng, st, extra, site, self.what() if self.phase != "ctor" else self.kind + " constructor")
    def end(self, eng, pre, e, av, phase, kind, s, v):
        life(self, eng, pre, e, phase, kind, s, v)
        if kind == "ret" and busy(s) and e.ident not in ("read", "write", "close", "stop", "detach"):
            self.cnt("expired waits")
            self.bad(eng, s, "%s reports success although its wait for a lock timed out" % (self.what() if phase != "ctor" else self.kind + " constructor"))
        elif busy(s): self.cnt("expired waits")
def check_deadline(rule, eng, st, extra, site, who):
    s, n = extra
    if not num(s) or not num(n): return
    at = [AT[i] for i in atoms_of(s)]; clk = [a for a in at if a[0] == "clock"]
    if not clk:
        rule.bad(eng, st, "%s uses a deadline which is not computed from the current time" % who); return
    c = clk[0]
    if c[1] != 0: rule.bad(eng, st, "%s computes a semaphore deadline from a clock other than the real-time clock" % who)
    ns = [a for a in (AT[i] for i in atoms_of(n)) if a[0] == "sym" and str(a[1]).startswith("clock_ns")]
    now = pmul(atom(c), BILL)
    if ns: now = padd(now, atom(ns[0]))
    total = padd(pmul(s, BILL), n); d = psub(total, now)
    if not ns: return
    if type(d) is int:
        if d < 0: rule.bad(eng, st, "%s uses a deadline in the past" % who)
        elif getattr(rule, "want", None) is not None and d != rule.want: rule.bad(eng, st, "%s waits until now plus %d ns instead of the configured %d ns" % (who, d, rule.want))
    else:
        lo, hi = st.rng(d)
        if lo is None: rule.bad(eng, st, "%s uses a deadline which is not the current time plus the timeout" % who)
    if st.decide(c_ge(n)) != 1 or st.decide(c_ge(psub(BILL - 1, n))) != 1: rule.bad(eng, st, "%s uses a deadline whose nanoseconds are not normalised" % who)

RULES = {c.prop: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C19)}
KINDS = {"C07": ("Server",), "C09": ("Client",)}
PINS = {"C01": [{"safe": 1}], "C03": [{"verbose": 0, "safe": 0}, {"verbose": 0, "safe": 1}]}

def codes(ps, R):
    """the element type and layout codes each server instantiation publishes"""
    out = {}
    for i in INST:
        q = Quick(); h = Hist(ps, cname("Server", i), [q], budget=0)
        construct(h, verbose=0, force=0)
        c = {b[1]: v for e, b, off, sz, v in q.writes if type(v) is int}
        out[i] = (c.get(R.dtype), c.get(R.layout))
    return out

def run_rule(prog, R, prop, kind, inst, pin, budget=None, insts=None):
    rule = RULES[prop](R, kind, inst); rule.pinned = pin
    h = Hist(prog, cname(kind, inst), [rule], budget=rule.budget if budget is None else budget, skip=() , opts=dict(getattr(rule, "opts", {})))
    ct = max(h.ctors, key=lambda c: len(c.params)) if h.ctors else None
    if ct is None or h.dtor is None or not h.methods: raise Broken("class %s not found" % h.cls)
    h.pin = {"given": (ctor_given(ct, **pin),)}
    h.error = ""
    try: h.run()
    except Budget as e: h.error = "budget: %s" % e
    return h, rule

# ================================================================= driver of the family
def job(a):
    prog, R, prop, kind, inst, pin, budget = a
    def go():
        h, rule = run_rule(prog, R, prop, kind, inst, pin, budget)
        d = {"kind": kind, "inst": inst, "pin": pin, "reports": h.eng.reports, "counts": rule.n, "coverage": h.coverage()}
        if h.error: d["error"] = h.error
        return d
    return big(go)

def check(prop, tier, work):
    from multiprocessing import get_context
    mods = parallel([(unit, "Server", work), (unit, "Client", work)])
    P = {"Server": Program([mods[0]]), "Client": Program([mods[1]])}
    R = big(discover, P["Server"], P["Client"])
    extra = []
    if prop in ("C08", "C09", "C10", "C14"): extra = static_roles(R, prop)
    if prop == "C09": R.code = big(codes, P["Server"], R)
    kinds = KINDS.get(prop, ("Server", "Client"))
    jobs = []
    for i in INST:
        for k in kinds:
            for pin in PINS.get(prop, [{}]):
                b = None if tier != "thorough" else RULES[prop].budget + 1
                jobs.append((P[k], R, prop, k, i, pin, b))
    if prop == "C09" and (R.dtype is None or R.layout is None): jobs = []
    res = fork_map(job, jobs)
    reports = list(extra); cov = []; counts = {}; unfinished = ""
    for r in res:
        if "error" in r:
            # a deeper exploration that does not fit the budget falls back to the regular one
            b = next(j for j in jobs if (j[3], j[4], j[5]) == (r["kind"], r["inst"], r["pin"]))
            if tier == "thorough" and not r["reports"]: r = job(b[:6] + (None,))
            # what an unfinished exploration has reported still counts; without a report there is no verdict
            if "error" in r and not r["reports"]: unfinished = unfinished or "%s<%s,%s>: %s" % (r["kind"], *r["inst"], r["error"])
        for x in r["reports"]:
            x = dict(x); x["instance"] = "%s<%s,%s>%s" % (r["kind"], r["inst"][0], "RowMajor" if r["inst"][1] else "ColMajor", "" if not r["pin"] else " " + ",".join("%s=%d" % y for y in r["pin"].items()))
            reports.append(x)
        cov.append(r["coverage"])
        for k, v in r["counts"].items(): counts[k] = counts.get(k, 0) + v
    fns = sorted({f for c in cov for f in c["functions"]})
    if unfinished and not reports: raise Broken(unfinished)
    return {"reports": reports, "counts": counts, "functions": fns, "opaque": sorted({o for c in cov for o in c["opaque"]}),
            "numbers": {k: sum(c[k] for c in cov) for k in ("object_states", "entry_runs", "outcomes", "instructions", "calls", "branches", "primitives")},
            "entries": sorted({c["class"].split("<")[0] + "::" + e for c in cov for e in c["public_entries"]}), "instances": len(jobs),
            "roles": {n: s_show(p) for p, n in R.names.items()}}

def static_roles(R, prop):
    """agreement of the two sides on every shared name (C14), and presence of what the other rules rest on"""
    out = []
    def rep(msg, where="EigenIPC/src/Server.cpp"): out.append({"rule": prop, "message": msg, "where": where, "path": "", "entry": "", "trace": [], "instance": "Server/Client"})
    if prop == "C14":
        for r in ("rows", "cols", "dtype", "layout", "flag", "data", "lock"):
            if getattr(R, r) is None: rep("no shared name carries the %s from server to client" % r)
        if R.count is None: rep("no shared name carries the client count from client to server", "EigenIPC/src/Client.cpp")
        for p in R.cli_paths:
            if p not in R.srv_paths: rep("the client opens %s, which the server never creates" % s_show(p), "EigenIPC/src/Client.cpp")
            elif R.cli_paths[p].get("kind") != R.srv_paths[p].get("kind"): rep("%s is a segment on one side and a lock on the other" % s_show(p))
        for p in sorted(set(R.srv_paths) | set(R.cli_paths)):
            if isS(p) and not {("arg", "ns"), ("arg", "name")} <= set(p[1]):
                rep("the shared name %s does not depend on both namespace and name: endpoints of different tensors meet there" % s_show(p))
        for p in R.srv_paths:
            if p not in R.cli_paths and p not in R.slocks: rep("the server creates %s, which the client never opens" % s_show(p))
        if R.data and R.cdatas and R.data not in R.cdatas: rep("server and client map different data segments (%s, %s)" % (s_show(R.data), s_show(R.cdatas[0])))
        if len(set(R.metas)) < 6: rep("two metadata roles share one segment (%d distinct names)" % len(set(R.metas)))
        if len(R.ssem) < 2: rep("server lock and data lock share one name")
        if len(R.datas) != 1: rep("the server maps %d data segments" % len(R.datas))
    if prop == "C08":
        for r in ("rows", "cols", "dtype", "layout"):
            if getattr(R, r) is None: rep("the server never publishes its %s" % r)
        if R.flag is None: rep("the server never publishes that it is running")
    if prop == "C09":
        for r in ("dtype", "layout"):
            if getattr(R, r) is None: rep("the server does not publish a distinct %s code per instantiation" % r)
    if prop == "C10" and R.count is None: rep("attach does not update any shared client count", "EigenIPC/src/Client.cpp")
    return out
