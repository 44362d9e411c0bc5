"""C22-C24: the Python layer over the native bindings (data views, tensor dictionary, ROS bridge), decided on its syntax trees by path-sensitive evaluation"""
import ast, os, re
from .terms import *


from .driver import *
from .bind import Table, Checker, registrations, compile_units, line_of, split_sig, cls_norm
from .pyreg import pmf
from . import pysym as Y
from .pysym import Py, State, num, unnum, show, full

WRAP = "EigenIPC/bindings/PyEigenIPC/"
LISTS = {"names": 3, "dimensions": 3, "dims": 3}

class Layer(Py):
    """the evaluator with an entry driver: constructs every class of the layer and calls its methods from every state reached"""
    def sym_args(self, fk, given=(), method=True, pre=""):
        m, fn, cls = self.fns[fk]; a = fn.args; out = {}
        names = [x.arg for x in a.posonlyargs + a.args][1 if method and not self.static(fn) else 0:]
        for x in names + [y.arg for y in a.kwonlyargs]:
            if x in given: continue
            k = LISTS.get(x)
            out[x] = ("list", tuple(("sym", "%s%s[%d]" % (pre, x, i)) for i in range(k))) if k else ("sym", pre + x)
        return out
    @staticmethod
    def static(fn): return any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.decorator_list)
    def enter(self, st, fk, args, kw, owner=None):
        """([(state, value)], [(state, reason)]) of one call; the events start afresh"""
        st = st.fork(); st.ev = (); st.tr = None; self.raised = []; self.stack = []
        m, fn, cls = self.fns[fk]; self.line = (m.rel, fn.lineno); st.env = {}
        try: outs = self.invoke(st, fk, args, kw, owner)
        except (KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError):
            if os.environ.get("SA_DEBUG"): raise
            self.stats["not evaluated"] = self.stats.get("not evaluated", 0) + 1; return [], []
        self.stats["paths"] += len(outs) + len(self.raised)
        return outs, self.raised
    def make(self, ck, kw=None, st=None):
        """objects of a class for symbolic constructor arguments: [(state, object)]"""
        st = st or State(); o = ("obj", ck[1], st.new()); st.heap[o] = {"__cls__": ck}; r = self.find(ck, "__init__")
        if not r or r[0] != "m": return [(st, o)], []
        outs, exc = self.enter(st, r[1], (o,), {**self.sym_args(r[1], kw or (), pre="new "), **(kw or {})}, r[2])
        return [(s, o) for s, v in outs], exc
    def do(self, st, o, name, kw=None, free=True):
        """call a method by name: symbolic for the arguments not given"""
        r = self.find(st.heap[o]["__cls__"], name)
        if not r or r[0] != "m": return None, None
        args = self.sym_args(r[1], kw or ()) if free else {}
        return self.enter(st, r[1], (o,), {**args, **(kw or {})}, r[2])
    def methods(self, ck):
        out = []
        for k in self.mro(ck):
            for n in self.classes[k].meth:
                if n not in out and n != "__init__": out.append(n)
        return out

def keyof(st):
    return repr((sorted(((k, v) for k, v in st.heap.items() if k != ("chain",)), key=repr), sorted((x for x in st.facts.items() if "('res'" not in repr(x) and "('sym', 'new " in repr(x)), key=repr), sorted(st.kinds.items(), key=repr)))
def distinct(states, cap, seen=None):
    seen = {} if seen is None else seen; new = {}
    for s in states:
        k = keyof(s)
        if k not in seen: seen[k] = 1; new[k] = s
    l = list(new.values()); return l if len(l) <= cap else l[::len(l) // cap + 1]

def everything(py, ck, cap=24, rounds=3):
    """every method of a class and every callback registered, from the states reached by up to `rounds` calls"""
    objs, exc = py.make(ck); seen = {}; front = distinct([s for s, o in objs], cap, seen)
    if not objs: return
    o = objs[0][1]; ms = [py.find(ck, n) for n in py.methods(ck)]
    # all callbacks registered so far, once each
    for s in list(front):
        l = [s]
        for i, b in enumerate([b for b in s.heap.get(("callbacks",), ()) if b != "__cls__"]): l = distinct([x for y in l for x, v in py.enter(y, b[2], (b[1], ("sym", "msg %d" % i)), {}, b[3])[0]], 4)
        front += distinct(l, 4, seen)
    for k in range(rounds):
        nxt = []
        for s in front:
            for r in ms: nxt += [x for x, v in py.enter(s, r[1], (o,), py.sym_args(r[1], pre="%d " % k), r[2])[0]]
            for b in s.heap.get(("callbacks",), ()):
                if b != "__cls__": nxt += [x for x, v in py.enter(s, b[2], (b[1], ("sym", "%d msg" % k)), {}, b[3])[0]]
        front = distinct(nxt, cap, seen)

def c22(py, ck):
    for k in py.classes:
        if k[0].startswith(Y.PKG): everything(py, k)
    for fk, (m, fn, cls) in list(py.fns.items()):
        if cls is None and "<local>" not in fk[1]: py.enter(State(), fk, (), py.sym_args(fk, method=False))
    # names imported or written at module level
    for d, m in py.mods.items():
        for n, v in m.names.items():
            if v[0] == "import": py.resolve(m, v, State(), n)
    for msg, at, fn in py.bad: ck.rep(msg, at, fn)
    # call sites not reached by the evaluation: names and arguments as far as they are fixed by the module itself
    reached = set(py.lines); k = len(py.bad)
    for d, m in py.mods.items():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and (m.rel, x.lineno) not in reached:
                py.raised = []; py.stack = []
                try: py.eval(State(), x, m, None)
                except (KeyError, IndexError, TypeError, AttributeError): pass
    for msg, at, fn in py.bad[k:]:
        if (msg, at) not in {x[:2] for x in py.bad[:k]}: ck.rep(msg, at, fn)
    for d, m in py.mods.items():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call):
                ck.cnt("call sites")
                if (m.rel, x.lineno) in reached: ck.cnt("call sites evaluated")
    own(ck)

def own(ck):
    """every method bound for a class takes an instance of that class"""
    T = ck.T
    for c, ms in T.meth.items():
        for n, es in ms.items():
            for e in es:
                if e[0] != "def": continue
                m = T.fn(e); x = pmf(e[3])
                if x: own_t = cls_norm(x[0])
                elif m is not None and split_sig(ck.prog, m)[1]: own_t = cls_norm(re.sub(r"[ ]*(const)?[ ]*[&*]+$", "", split_sig(ck.prog, m)[1][0]).removeprefix("const "))
                else: ck.cnt("bound methods without a known target"); continue
                ck.cnt("bound methods")
                if own_t.startswith("pybind11::") or own_t == c: continue
                if own_t not in T.cls and not own_t.startswith(("EigenIPC::", "PyEigenIPC::")): continue
                ck.rep("the method %s of the bindings' %s takes a %s" % (n, T.cls.get(c, c), T.cls.get(own_t, own_t)), line_of(ck.prog, m) if m in ck.prog.fn else "EigenIPC/bindings/PyEigenIPC/PyEigenIPC.cpp")

# ---------------------------------------------------------------- C23
NONE = object()
def isslice(x): return type(x) is tuple and len(x) == 4 and x[0] == "slice"
def axes(i):
    return list(i[1:]) if type(i) is tuple and i and i[0] == "idx" else [i]
def locate(py, st, v):
    """an element or block of an array: (array, [(start, count or None for a single element)] per axis)"""
    chain = []
    while type(v) is tuple and v and (v[0] == "sub" or v[0] == "np" and v[1] in ("asarray", "ascontiguousarray", "atleast_2d")):
        if v[0] == "sub": chain.append(v[2]); v = v[1]
        else: v = v[2]
    if v in st.heap and "shape" in st.heap[v]: dims = [py.dim(st, v, 0), py.dim(st, v, 1)]
    else: dims = [py.dim(st, v, 0), py.dim(st, v, 1)]
    spec = [[0, num(dims[0])], [0, num(dims[1])]]
    for i in chain[::-1]:
        open_ = [k for k in (0, 1) if spec[k][1] is not None]
        for a in axes(i):
            if not open_: return None
            k = open_.pop(0)
            if isslice(a):
                if a[3] not in (None, 1): return None
                lo = num(0 if a[1] is None else a[1]); n = spec[k][1]
                spec[k] = [padd(spec[k][0], lo), psub(n if a[2] is None else num(a[2]), lo)]
            elif type(a) is tuple and a and a[0] in ("tuple", "list"):
                xs = a[1]
                if len(xs) > len(open_) + 1: return None
                for j, x in enumerate(xs): kk = k if j == 0 else open_.pop(0); spec[kk] = [padd(spec[kk][0], num(x)), None]
            else: spec[k] = [padd(spec[k][0], num(a)), None]
    return v, [tuple(x) for x in spec]
def block(loc): return loc[0], [(a, 1 if n is None else n) for a, n in loc[1]]
def same(st, a, b):
    d = psub(a, b); return d == 0 or st.num.prove(d) and st.num.prove(pneg(d))
def sameblock(st, x, y):
    return x[0] == y[0] and all(same(st, a[0], b[0]) and same(st, a[1], b[1]) for a, b in zip(x[1], y[1]))
ROLES = ("data", "row", "col")

class View:
    """rules of one wrapper object: its mirror array and its native endpoint"""
    def __init__(self, py, ck, cls): self.py = py; self.ck = ck; self.cls = cls
    def rep(self, msg, at=None, s=None): self.ck.rep(msg, at or self.where, "%s.%s" % (self.cls[1], self.what), s.trace() if s else ())
    def parts(self, st, o):
        h = st.heap[o]; nat = [v for v in h.values() if type(v) is tuple and v and v[0] == "nat" and "Journal" not in v[1]]
        arr = [v for v in h.values() if type(v) is tuple and v and v[0] == "arr"]
        return (nat[0] if len(set(nat)) == 1 else None), (arr[0] if len(set(arr)) == 1 else None)
    def args(self, e):
        """(view, row, col) of a native transfer"""
        _, nat, name, args, kw, res, at = e; es = self.py.T.meth.get(nat[1], {}).get(name) or []
        kws = self.py.T.kws(es[0])[0] if es else []
        if len(kws) != 3: kws = ["data", "row", "col"]
        d = dict(zip(kws, args)); d.update(dict(kw)); return [d.get(k, 0 if i else None) for i, k in enumerate(kws)]
    def transfers(self, st, nat): return [e for e in st.ev if e[0] == "native" and e[1] == nat and e[2] in ("read", "write")]
    def stores(self, st): return [e for e in st.ev if e[0] == "store"]
    def truthof(self, st, v):
        """True, False, the transfer result it equals, or None"""
        if v is True or v is False: return v
        if type(v) is tuple and v and v[0] == "not":
            w = self.truthof(st, v[1]); return (not w) if type(w) is bool else None
        if v in st.facts: return st.facts[v]
        if type(v) is tuple and v and v[0] == "res": return v
        return None
    def transfer(self, st, e, mirror, want, dirn, store=NONE, k=0):
        """obligations of one native transfer: `want` the block of the mirror, dirn its direction"""
        ck = self.ck; ck.cnt("transfers"); at = e[-1]; v, r, c = self.args(e)
        if e[2] != dirn: self.rep("%s %ss shared memory where it has to %s it" % (self.what, e[2], dirn), at, st); return False
        loc = locate(self.py, st, v)
        if loc is None or loc[0] != mirror: self.rep("%s does not transfer a block of the mirror" % self.what, at, st); return False
        b = block(loc); ok = True
        for (lo, n), g, word in zip(b[1], (r, c), ("row", "column")):
            ck.cnt("offsets compared")
            if g is None or not same(st, lo, num(g)): self.rep("%s transfers the mirror block at %s %s to another %s (%s) of shared memory" % (self.what, word, show(lo), word, show(g)), at, st); ok = False
        if not sameblock(st, b, want):
            self.rep("%s transfers the block %s instead of %s" % (self.what, bshow(b), bshow(want)), at, st); ok = False
        return ok
def bshow(b): return "[%s]" % ", ".join("%s:%s" % (show(lo), show(padd(lo, n))) for lo, n in b[1])


def strip(v):
    """the value an array expression copies from"""
    while type(v) is tuple and v:
        if v[0] == "np" and len(v) > 2: v = v[2]
        elif v[0] in ("copy", "item", "view", "numpy") and len(v) == 2: v = v[1]
        elif v[0] == "conv": v = v[2]
        elif v[0] == "sub" and full(v[2]): v = v[1]
        else: break
    return v
def possible(st, conds):
    u = st.fork()
    return all(u.num.assume(x) for x in conds) and u.num.feasible()
def is_array(st, x):
    for k, b in st.facts.items():
        if type(k) is tuple and k[0] == "isinst" and k[1] == x and b: return any("ndarray" in t for t in k[2])
    return None
def eqs(a, b): return c_eq(psub(num(a), num(b)))
def fits(py, st, mirror, want):
    """conditions under which the block lies inside the mirror"""
    o = []
    for i, (lo, n) in enumerate(want): o += [c_ge(lo), c_ge(n), c_ge(psub(num(py.dim(st, mirror, i)), padd(lo, n)))]
    return o

def w_params(py, ck, name):
    r = py.find(ck, name)
    if not r or r[0] != "m": return None
    a = py.fns[r[1]][1].args; return [x.arg for x in a.args][1:]

class Wrapper(View):
    def go(self, st, o, name, kw=None):
        self.what = name; r = self.py.find(self.cls, name); m, fn, c = self.py.fns[r[1]]; self.where = "%s:%d" % (m.rel, fn.lineno); self.ck.fns.add(r[1][1])
        outs, exc = self.py.do(st, o, name, kw); self.ck.cnt("paths", len(outs) + len(exc)); return outs, exc
    def inside(self, s, mirror, want):
        for i, (lo, n) in enumerate(want):
            u = s.fork()
            for x in want: u.num.assume(c_ge(x[0])); u.num.assume(c_ge(x[1]))
            if not u.num.prove(psub(num(self.py.dim(u, mirror, i)), padd(lo, n))): return False
        return True
    def result(self, s, v, e):
        """is v the outcome of transfer e?"""
        self.ck.cnt("results compared"); r = e[5]
        if v == r: return True
        t = self.truthof(s, v)
        if type(t) is bool and r in s.facts: return t == s.facts[r]
        return False
    def retried(self, s, nat):
        """the path ends after a successful transfer, or because the endpoint stopped"""
        T = self.transfers(s, nat); runs = [e for e in s.ev if e[0] == "native" and e[1] == nat and e[2] == "isRunning"]
        if T and s.facts.get(T[-1][5]) is True: return True
        return bool(runs) and s.facts.get(runs[-1][5]) is False

    def run(self, s0, o):
        """states after run()"""
        outs, exc = self.go(s0, o, "run"); good = []
        for s, v in outs:
            nat, mirror = self.parts(s, o)
            if nat is None: self.rep("no single native endpoint behind the wrapper", s=s); continue
            if mirror is None: self.rep("run creates no single mirror", s=s); continue
            server = "Server" in nat[1]; start = "run" if server else "attach"; ev = [e for e in s.ev if e[0] == "native" and e[1] == nat]
            if not ev or ev[0][2] != start: self.rep("run uses the %s before %s()" % ("server" if server else "client", start), s=s)
            h = s.heap[mirror]
            self.ck.cnt("mirrors")
            if h["shape"] != ("tuple", (("nres", nat, "getNRows"), ("nres", nat, "getNCols"))): self.rep("the mirror does not have the rows and columns of the shared tensor", s=s)
            if h["dtype"] != ("f", "toNumpyDType", ("nres", nat, "getScalarType")): self.rep("the mirror does not have the element type of the shared tensor", s=s)
            T = self.transfers(s, nat); want = [(0, num(("nres", nat, "getNRows"))), (0, num(("nres", nat, "getNCols")))]
            fill = [(k[1], b) for k, b in s.facts.items() if type(k) is tuple and k[0] == "isnone" and k[1] in (s.heap[o].get("fill_value"), ("sym", "new fill_value"))]
            for e in T: self.transfer(s, e, mirror, (mirror, want), "write" if server else "read")
            if server and fill and not fill[0][1]:
                self.ck.cnt("initial values")
                st0 = [e for e in self.stores(s) if strip(e[1]) == mirror]
                val = st0[-1][2] if st0 else h["fill"]
                if val != fill[0][0]: self.rep("the mirror is not filled with the initial value", s=s)
                if not self.retried(s, nat): self.rep("run does not write the initial value to shared memory until that succeeds", s=s)
            r, _ = self.py.do(s, o, "is_running")
            if r is not None and any(x[1] is not True for x in r): self.rep("is_running does not report True after run", s=s)
            good.append(s)
        if not good and not self.py.stats.get("not evaluated"): self.rep("run never completes")
        return good
    def write(self, s0, o, name="write", retry=False):
        ps = w_params(self.py, self.cls, name); outs, exc = self.go(s0, o, name); d, r, c = [("sym", x) for x in ps[:3]]; kinds = set()
        for s, v in outs:
            nat, mirror = self.parts(s, o); T = self.transfers(s, nat); arr = is_array(s, d)
            want = [(num(r), num(self.py.dim(s, d, 0)) if arr else 1), (num(c), num(self.py.dim(s, d, 1)) if arr else 1)]
            if retry and not self.retried(s, nat): self.rep("%s may return before the write succeeded" % name, s=s)
            if not T:
                if retry: continue
                if self.truthof(s, v) not in (False, None) or v is not None and self.truthof(s, v) is None: self.rep("write reports a result without writing", s=s)
                if arr and possible(s, [eqs(("attr", d, "ndim"), 2), eqs(("len", ("shape", d)), 2)] + fits(self.py, s, mirror, want)): self.rep("write refuses data that fits", s=s)
                continue
            kinds.add(bool(arr)); ok = self.transfer(s, T[-1], mirror, (mirror, want), "write")
            if not retry and not self.result(s, v, T[-1]): self.rep("write does not return the result of the transfer", s=s)
            if not ok: continue
            if arr and not self.inside(s, mirror, want): self.rep("write may transfer data which does not fit the mirror", s=s)
            i = s.ev.index(T[-1]); got = False
            for e in s.ev[:i]:
                if e[0] != "store": continue
                loc = locate(self.py, s, e[1])
                if loc is None or loc[0] != mirror: continue
                if sameblock(s, block(loc), (mirror, want)): got = strip(e[2]) == d
                else: self.rep("write stores into another part of the mirror", e[-1], s)
            if not got: self.rep("write transfers the mirror block without the data stored in it", T[-1][-1], s)
            self.ck.cnt("data stores compared")
        if retry: return
        for s, why in exc:
            nat, mirror = self.parts(s, o); arr = is_array(s, d)
            if arr is False or arr and possible(s, [eqs(("attr", d, "ndim"), 2), eqs(("len", ("shape", d)), 2)] + fits(self.py, s, mirror, [(num(r), num(self.py.dim(s, d, 0))), (num(c), num(self.py.dim(s, d, 1)))])): self.rep("write refuses data that fits", s=s)
        if outs and kinds != {True, False}: self.rep("write never transfers %s" % ("arrays" if True not in kinds else "single values"))
    def read(self, s0, o, name="read", retry=False):
        ps = w_params(self.py, self.cls, name); outs, exc = self.go(s0, o, name, {"data": ("sym", "data")} if "data" in ps else None); r, c = [("sym", x) for x in ps[:2]]; d = ("sym", "data"); kinds = set()
        for s, v in outs:
            nat, mirror = self.parts(s, o); T = self.transfers(s, nat); arr = is_array(s, d); none = s.facts.get(("isnone", d))
            if none: arr = False
            want = [(num(r), num(self.py.dim(s, d, 0)) if arr else 1), (num(c), num(self.py.dim(s, d, 1)) if arr else 1)]
            t = v[1] if type(v) is tuple and v and v[0] == "tuple" and len(v[1]) == 2 else None
            if retry and not self.retried(s, nat): self.rep("%s may return before the read succeeded" % name, s=s)
            if not T:
                if retry: continue
                if t and self.truthof(s, t[1]) is not False: self.rep("read reports a result without reading", s=s)
                if arr and possible(s, [eqs(("attr", d, "ndim"), 2), eqs(("len", ("shape", d)), 2)] + fits(self.py, s, mirror, want)): self.rep("read refuses an array that fits", s=s)
                continue
            if arr is None and none is not True: continue
            kinds.add(bool(arr)); e = T[-1]; ok = self.transfer(s, e, mirror, (mirror, want), "read"); i = s.ev.index(e)
            if retry and s.facts.get(e[5]) is not True: continue
            if t is None or not self.result(s, t[1], e): self.rep("%s does not return the result of the transfer" % name, s=s); continue
            if not ok: continue
            for x in self.stores(s):
                loc = locate(self.py, s, x[1])
                if loc and loc[0] == mirror: self.rep("read stores into the mirror itself", x[-1], s)
            if arr:
                if not self.inside(s, mirror, want): self.rep("read may transfer a block which does not fit the mirror", s=s)
                if s.facts.get(e[5]) is False: continue
                got = False
                for x in s.ev[i:]:
                    if x[0] == "store" and strip(x[1]) == d:
                        loc = locate(self.py, s, strip(x[2])); got = loc is not None and loc[0] == mirror and sameblock(s, block(loc), (mirror, want))
                if not got: self.rep("read does not copy the block just read to the caller", e[-1], s)
            else:
                loc = locate(self.py, s, strip(t[0])) if t[0] is not None else None
                if s.facts.get(e[5]) is False and t[0] is None: continue
                if loc is None or loc[0] != mirror or not sameblock(s, block(loc), (mirror, want)): self.rep("read does not return the element just read", e[-1], s)
            self.ck.cnt("values returned")
        if retry: return
        for s, why in exc:
            nat, mirror = self.parts(s, o); arr = is_array(s, d); none = s.facts.get(("isnone", d))
            if none or arr and possible(s, [eqs(("attr", d, "ndim"), 2), eqs(("len", ("shape", d)), 2)] + fits(self.py, s, mirror, [(num(r), num(self.py.dim(s, d, 0))), (num(c), num(self.py.dim(s, d, 1)))])): self.rep("read refuses an array that fits", s=s)
        if outs and kinds != {True, False}: self.rep("read never transfers %s" % ("arrays" if True not in kinds else "single values"))
    def synch(self, s0, o, name="synch", retry=False, whole=False):
        ps = w_params(self.py, self.cls, name); outs, exc = self.go(s0, o, name); dirs = set()
        for s, v in outs:
            nat, mirror = self.parts(s, o); T = self.transfers(s, nat); R, C = [num(self.py.dim(s, mirror, i)) for i in (0, 1)]
            want = [(0, R), (0, C)] if whole else [(num(("sym", ps[0])), num(("sym", ps[2]))), (num(("sym", ps[1])), num(("sym", ps[3])))]
            rd = s.facts.get(("sym", "read")); again = retry or s.facts.get(("sym", "retry")) is True
            for x in self.stores(s):
                loc = locate(self.py, s, x[1])
                if loc and loc[0] == mirror: self.rep("%s changes the mirror itself" % name, x[-1], s)
            if again and not self.retried(s, nat): self.rep("%s may return before the transfer succeeded" % name, s=s)
            if not T:
                if not again and v is not False: self.rep("%s reports a result without a transfer" % name, s=s)
                if not again and possible(s, fits(self.py, s, mirror, want)): self.rep("%s refuses a block that fits" % name, s=s)
                continue
            if rd is None: self.rep("%s transfers without regard to the direction" % name, T[-1][-1], s); continue
            dirs.add(rd)
            for e in T: ok = self.transfer(s, e, mirror, (mirror, want), "read" if rd else "write")
            if not whole and not self.inside(s, mirror, want): self.rep("%s may transfer a block which does not fit the mirror" % name, s=s)
            if not again and not self.result(s, v, T[-1]): self.rep("%s does not return the result of the transfer" % name, s=s)
            if again and v is False: self.rep("%s reports failure after a success" % name, s=s)
        for s, why in exc:
            nat, mirror = self.parts(s, o); R, C = [num(self.py.dim(s, mirror, i)) for i in (0, 1)]
            want = [(0, R), (0, C)] if whole else [(num(("sym", ps[0])), num(("sym", ps[2]))), (num(("sym", ps[1])), num(("sym", ps[3])))]
            if possible(s, fits(self.py, s, mirror, want)): self.rep("%s refuses a block that fits" % name, s=s)
        if outs and dirs != {True, False}: self.rep("%s never %s shared memory" % (name, "reads" if True not in dirs else "writes"))
    def to_zero(self, s0, o):
        outs, exc = self.go(s0, o, "to_zero")
        for s, v in outs:
            nat, mirror = self.parts(s, o); T = self.transfers(s, nat); want = [(0, num(self.py.dim(s, mirror, 0))), (0, num(self.py.dim(s, mirror, 1)))]
            if not T or not self.retried(s, nat): self.rep("to_zero may return before the zeros are written", s=s); continue
            for e in T: self.transfer(s, e, mirror, (mirror, want), "write")
            got = False
            for e in s.ev[:s.ev.index(T[0])]:
                if e[0] == "store":
                    loc = locate(self.py, s, e[1])
                    if loc and loc[0] == mirror: got = sameblock(s, block(loc), (mirror, want)) and e[2] in (0, 0.0, False)
                if e[0] == "call" and e[1] == mirror and e[2] == "fill": got = e[3] in ((0,), (0.0,))
            if not got: self.rep("to_zero writes the mirror without setting it to zero", s=s)
    def getters(self, s0, o):
        nat, mirror = self.parts(s0, o)
        for n in ("get_numpy_mirror",):
            if not self.py.find(self.cls, n): continue
            for s, v in self.go(s0, o, n)[0]:
                if strip(v) != mirror or v != mirror: self.rep("%s does not return the mirror" % n, s=s)
        # device views: which persistent object of the wrapper is on the device
        for n in ("synch_mirror",):
            if not self.py.find(self.cls, n): continue
            ps = w_params(self.py, self.cls, n); outs, exc = self.go(s0, o, n); own = {v: k for k, v in s0.heap[o].items() if type(v) is tuple and v and v[0] == "res"}
            dev = {v: self.device(s0, v) for v in own}
            if set(dev.values()) != {"cpu", "gpu"}: continue
            for s, v in outs:
                d = s.facts.get(("sym", ps[0])); st_ = [e for e in s.ev if e[0] == "store"] + [("store", e[1], e[3][0] if e[3] else None, e[-1]) for e in s.ev if e[0] == "call" and e[2] == "copy_"]
                self.ck.cnt("device synchronisations")
                if d is None or not st_: self.rep("synch_mirror copies nothing", s=s); continue
                for e in st_:
                    t = strip(e[1]); src = self.origin(s, e[2], dev)
                    if dev.get(t) != ("cpu" if d else "gpu"): self.rep("synch_mirror updates the %s view when it has to update the %s one" % (dev.get(t), "cpu" if d else "gpu"), e[-1], s)
                    if dev.get(src) != ("gpu" if d else "cpu"): self.rep("synch_mirror copies from the %s view when it has to copy from the %s one" % (dev.get(src), "gpu" if d else "cpu"), e[-1], s)
        n = "get_torch_mirror"
        if self.py.find(self.cls, n):
            own = [v for v in s0.heap[o].values() if type(v) is tuple and v and v[0] == "res"]; dev = {v: self.device(s0, v) for v in own}
            ps = w_params(self.py, self.cls, n)
            for s, v in self.go(s0, o, n)[0]:
                g = s.facts.get(("sym", ps[0]))
                if g is None or v is None: continue
                if v in dev and dev[v] != ("gpu" if g else "cpu"): self.rep("get_torch_mirror returns the %s view" % dev[v], s=s)
    def chain(self, s, v): return s.heap.get(("chain",), {}).get(v)
    def device(self, s, v):
        """cpu or gpu, by the calls the value went through"""
        d = "cpu"; names = []
        while v is not None:
            c = self.chain(s, v)
            if c is None: break
            names.append(c[1:]); v = c[0]
        for n, args in names[::-1]:
            if n == "to" and args: d = "gpu" if "cuda" in str(args[0]) else "cpu" if "cpu" in str(args[0]) else d
            if n == "cuda": d = "gpu"
            if n == "cpu": d = "cpu"
        return d
    def origin(self, s, v, dev):
        v = strip(v)
        while v not in dev:
            c = self.chain(s, v)
            if c is None: return v
            v = strip(c[0])
        return v

def c23(py, ck):
    k = py.by_name("SharedTWrapper")
    if k is None: raise Broken("class SharedTWrapper not found")
    w = Wrapper(py, ck, k); w.what = "constructor"; w.where = py.classes[k].mod.rel + ":%d" % py.classes[k].node.lineno
    objs, exc = py.make(k); s0 = distinct([s for s, o in objs], 32); o = objs[0][1] if objs else None; ready = []
    for s in s0: created(w, s, o); ready += w.run(s, o)
    for s in distinct(ready, 16):
        ck.cnt("start states")
        for n, f in (("write", w.write), ("read", w.read), ("synch", w.synch), ("to_zero", w.to_zero)):
            if py.find(k, n): f(s, o)
        if py.find(k, "write_retry"): w.write(s, o, "write_retry", True)
        if py.find(k, "read_retry"): w.read(s, o, "read_retry", True)
        if py.find(k, "synch_retry"): w.synch(s, o, "synch_retry", True)
        if py.find(k, "synch_all"): w.synch(s, o, "synch_all", False, True)
        w.getters(s, o)
    tensor_dict(py, ck)
def created(w, s, o):
    """the endpoint is created for the name, namespace, type and shape asked for"""
    new = [e for e in s.ev if e[0] == "new" and "Journal" not in e[1][1]]
    if len(new) != 1: w.rep("the constructor creates %d native endpoints" % len(new), s=s); return
    d = dict(new[0][2]); server = "Server" in new[0][1][1]; w.ck.cnt("endpoints created")
    srv = s.facts.get(("sym", "new is_server"))
    if srv is not None and srv != server: w.rep("the constructor creates a %s where a %s is asked for" % ("server" if server else "client", "server" if srv else "client"), new[0][-1], s)
    for k, names in {"basename": ("basename",), "namespace": ("namespace",), "dtype": ("dtype",), "n_rows": ("n_rows",), "n_cols": ("n_cols",), "safe": ("safe",), "force_reconnection": ("force_reconnection",)}.items():
        if k not in d: 
            if k in ("basename", "namespace", "dtype") or server and k in ("n_rows", "n_cols"): w.rep("the native endpoint is created without %s" % k, new[0][-1], s)
            continue
        w.ck.cnt("creation arguments")
        if d[k] != ("sym", "new " + k): w.rep("the native endpoint is created with another %s than the one given" % k, new[0][-1], s)

def tensor_dict(py, ck):
    k = py.by_name("SharedTensorDict")
    if k is None: raise Broken("class SharedTensorDict not found")
    w = Wrapper(py, ck, k); w.what = "constructor"; w.where = py.classes[k].mod.rel + ":%d" % py.classes[k].node.lineno
    objs, exc = py.make(k); basenames = {}; ready = []
    for s, o in objs:
        srv = s.facts.get(("sym", "new is_server")); news = {}; h = s.heap[o]; role = {}
        for e in s.ev:
            if e[0] == "new" and "Journal" not in e[1][1]: news[e[1]] = dict(e[2]), e[-1]
        for r in ("data", "shared_names", "shared_dims"):
            x = h.get(r)
            if x not in s.heap: continue
            n = [v for v in s.heap[x].values() if type(v) is tuple and v and v[0] == "nat"]
            if len(set(n)) == 1: role[r] = n[0]
        if len(role) != 3: ck.cnt("dictionary parts not identified"); continue
        for r, n in role.items():
            d, at = news[n]; ck.cnt("dictionary endpoints"); basenames.setdefault((r,), set()).add(d.get("basename"))
            ns = d.get("namespace", d.get("name_space"))
            if ns != ("sym", "new namespace"): w.rep("%s is created under another namespace than the one given" % r, at, s)
            if srv is not None and ("Server" in n[1]) != srv: w.rep("%s is created as a %s" % (r, "server" if not srv else "client"), at, s)
            if srv:
                S3 = [num(("sym", "new dimensions[%d]" % i)) for i in range(3)]
                if r == "data" and (psub(num(d.get("n_rows")), padd(padd(S3[0], S3[1]), S3[2])) != 0 or d.get("n_cols") != ("sym", "new n_nodes")): w.rep("the data tensor is not created with the sum of the dimensions as rows and the nodes as columns", at, s)
                if r == "shared_dims" and (d.get("n_rows") != 3 or d.get("n_cols") != 1): w.rep("the dimensions tensor does not have one row per block", at, s)
                if r == "shared_names" and d.get("length") != 3: w.rep("the names tensor does not have one entry per block", at, s)
        outs, exc = w.go(s, o, "run")
        for s2, v in outs: ready.append((s2, srv, role)); dict_run(w, s2, o, srv, role)
    l = list(basenames.items())
    for (r,), bs in l:
        if len(bs) != 1: w.rep("server and client of %s use different names: %s" % (r, ", ".join(sorted(map(show, bs)))))
        for (r2,), b2 in l:
            if r < r2 and bs & b2: w.rep("%s and %s share a name" % (r, r2))
    if objs and not ready and not py.stats.get("not evaluated"): w.rep("run never completes")
    seen = {}
    for s, srv, role in ready:
        kk = (srv, repr(s.heap[o].get("dimensions")))
        if seen.setdefault(kk, 0) >= 3: continue
        seen[kk] += 1; dict_use(w, s, o, srv, role)
def dict_run(w, s, o, srv, role):
    ck = w.ck; h = s.heap[o]
    for r, n in role.items():
        ev = [e for e in s.ev if e[0] == "native" and e[1] == n]
        if not ev or ev[0][2] not in ("run", "attach"): w.rep("run does not start %s before using it" % r, s=s); continue
        names = [e for e in ev if e[2] in ("write_vec", "read_vec")]
        if r == "shared_names":
            ck.cnt("name transfers")
            if not names or names[-1][2] != ("write_vec" if srv else "read_vec") or s.facts.get(names[-1][5]) is not True: w.rep("run may complete without the names %s" % ("written" if srv else "read"), s=s); continue
            e = names[-1]; a = list(e[3]) + [v for k, v in e[4]]
            if len(a) > 1 and a[1] != 0: w.rep("the names are not transferred from the first entry on", e[-1], s)
            if srv and a[0] != ("list", tuple(("sym", "new names[%d]" % i) for i in range(3))): w.rep("other names are written than the ones given", e[-1], s)
            if not srv:
                if h.get("names") != a[0]: w.rep("the client does not use the names it has read", e[-1], s)
                if not (type(a[0]) is tuple and a[0] and a[0][0] == "list*" and a[0][2] == num(("nres", n, "length"))): ck.cnt("name buffers of unknown length")
        if r == "shared_dims":
            x = h[r]; nat, mirror = w.parts(s, x); T = w.transfers(s, n)
            want = [(0, num(("nres", nat, "getNRows"))), (0, num(("nres", nat, "getNCols")))]
            ck.cnt("dimension transfers")
            if srv:
                ok = False
                for e in T:
                    if e[2] != "write": w.rep("run reads the dimensions the server has to provide", e[-1], s)
                last = [e for e in w.stores(s) if locate(w.py, s, e[1]) and locate(w.py, s, e[1])[0] == mirror]
                if not T or not (s.facts.get(T[-1][5]) is True or w.retried(s, nat)): w.rep("run may complete without the dimensions written", s=s)
                if last and (not T or s.ev.index(last[-1]) > s.ev.index(T[-1])) and w.retried(s, nat) and s.facts.get(T[-1][5]) is True: w.rep("the dimensions stored last are not written", s=s)
                if last:
                    loc = block(locate(w.py, s, last[-1][1])); ok = loc[1][0][0] == 0 and loc[1][1][0] == 0 and mentions(last[-1][2], [("sym", "new dimensions[%d]" % i) for i in range(3)])
                if not ok and not any(e[2] == "isRunning" and s.facts.get(e[5]) is False for e in ev): w.rep("the dimensions given are not written to the dimensions tensor", s=s)
            else:
                for e in T: w.transfer(s, e, mirror, (mirror, want), "read")
                if not T or s.facts.get(T[-1][5]) is not True: w.rep("run may complete without the dimensions read", s=s)
                d = h.get("dimensions")
                if not mentions(d, [mirror]): w.rep("the client does not use the dimensions it has read", s=s)
def mentions(v, xs):
    """the leaves xs occur in v in this order"""
    flat = []
    def go(x):
        if x in xs: flat.append(x); return
        if isP(x):
            a = unnum(x)
            if a is not x: go(a)
            return
        if type(x) is tuple:
            for y in x: go(y)
    go(v); return flat == xs
def dict_use(w, s0, o, srv, role):
    py = w.py; ck = w.ck; h = s0.heap[o]; dims = h.get("dimensions"); wx = h["data"]; nat, mirror = w.parts(s0, wx); names = h.get("names")
    def which(s):
        i = s.facts.get(("index of", ("sym", "name")))
        if i is not None: return i
        a = num(("index", names, ("sym", "name")))
        for k in range(4):
            if same(s, a, k): return k
        return None
    def at(s, k):
        v = 0
        for i in range(k): v = padd(v, num(py.item(s, dims, i)[0][1]))
        return v
    outs, exc = w.go(s0, o, "write"); ks = set()
    for s, v in outs:
        k = which(s); T = w.transfers(s, nat)
        if k is None: ck.cnt("dictionary accesses without a known position"); continue
        if not T:
            if v is True and not w.retried(s, nat): w.rep("write reports success without writing", s=s)
            continue
        retry = s.facts.get(("sym", "retry"))
        e = T[-1]; ck.cnt("dictionary blocks"); ks.add(k); r, c = w.args(e)[1:]; loc = locate(py, s, w.args(e)[0]); want = at(s, k)
        if e[2] != "write" or loc is None or loc[0] != mirror: w.rep("write does not write a block of the data tensor", e[-1], s); continue
        if not same(s, num(r), want) or not same(s, num(c), 0): w.rep("write places the block of name %d at row %s, column %s instead of row %s, column 0" % (k, show(r), show(c), show(want)), e[-1], s)
        if not same(s, loc[1][0][0], num(r)) or not same(s, loc[1][1][0], num(c)): w.rep("write transfers the mirror block to another position", e[-1], s)
        st_ = [x for x in w.stores(s) if locate(py, s, x[1]) and locate(py, s, x[1])[0] == mirror]
        if not st_ or strip(st_[-1][2]) != ("sym", "data"): w.rep("write does not store the data given", e[-1], s)
        if retry is False and not w.result(s, v, e): w.rep("write does not return the result of the transfer", s=s)
        if retry and not w.retried(s, nat): w.rep("write may return before the transfer succeeded", s=s)
    outs, exc = w.go(s0, o, "get")
    for s, v in outs:
        k = which(s)
        if k is None: ck.cnt("dictionary accesses without a known position"); continue
        ck.cnt("dictionary blocks"); loc = locate(py, s, strip(v)); want = at(s, k); C = num(py.dim(s, mirror, 1))
        if loc is None or loc[0] != mirror: w.rep("get does not return a block of the data mirror", s=s); continue
        ns = [num(py.item(s, dims, k)[0][1]), num(py.item(s, dims, ("index", names, ("sym", "name")))[0][1])]
        if not any(sameblock(s, block(loc), (mirror, [(want, n), (0, C)])) for n in ns): w.rep("get returns the block %s for name %d instead of rows %s to %s" % (bshow(block(loc)), k, show(want), show(padd(want, ns[0]))), s=s)
    outs, exc = w.go(s0, o, "synch")
    for s, v in outs:
        T = w.transfers(s, nat); want = [(0, num(py.dim(s, mirror, 0))), (0, num(py.dim(s, mirror, 1)))]
        for e in T: w.transfer(s, e, mirror, (mirror, want), "read")
        if not T and v is not False and not w.retried(s, nat): w.rep("synch reports a result without a transfer", s=s)
        if T and not w.retried(s, nat) and not w.result(s, v, T[-1]): w.rep("synch does not return the result of the transfer", s=s)

# ---------------------------------------------------------------- C24
DT = ["bool_", "int32", "float32", "float64"]
ENUM = {"bool_": "Bool", "int32": "Int", "float32": "Float", "float64": "Double"}
NP = lambda n: ("ext", "numpy." + n)
FIELDS = ("data", "rows", "columns", "type")

class Bridge(Wrapper):
    def table(self, ck, o, s, name, arg, kw=None):
        """{outcome of a one-argument method}: set of values, whether it may raise"""
        r = self.py.find(ck, name); outs, exc = self.py.enter(s, r[1], (o, arg), kw or {}, r[2])
        return {v for _, v in outs}, bool(exc)

def subclasses(py, base, backend):
    return [k for k in py.classes if k != base and base in py.mro(k) and backend in k[0]]

def msgtype(v):
    return v[1].split(".")[-1] if type(v) is tuple and v and v[0] == "ext" else None
def endpoints(s, kinds):
    """publishers or subscribers created on a path: {object: (topic, message class, callback)}"""
    out = {}
    for e in s.ev:
        if e[0] in ("ext", "call"):
            args, kw = (e[2], dict(e[3])) if e[0] == "ext" else (e[3], dict(e[4])); nm = e[1].split(".")[-1] if e[0] == "ext" else e[2]
            if nm not in kinds: continue
            vals = list(args) + list(kw.values()); cls = [v for v in vals if msgtype(v) in MSG]; cb = [v for v in vals if type(v) is tuple and v and v[0] in ("bound", "lambda", "fn")]
            topic = kw.get("name", kw.get("topic"))
            if topic is None: topic = next((v for v in args if Y.is_str(v) or type(v) is tuple and v and v[0] in ("sym", "str")), None)
            out[len(out)] = (topic, msgtype(cls[0]) if cls else None, cb[0] if cb else None, e)
    return out
MSG = {"Bool", "Int32", "Float32", "Float64", "Int32MultiArray", "Float32MultiArray", "Float64MultiArray", "Int8MultiArray", "UInt8MultiArray", "Int64", "Int64MultiArray"}

def rename(v, m):
    if v in m: return m[v]
    if type(v) is tuple: return tuple(rename(x, m) for x in v)
    return v

def c24(py, ck):
    pub, sub = py.by_name("RosPublisher"), py.by_name("RosSubscriber"); fr, to = py.by_name("FromRos"), py.by_name("ToRos")
    for k, n in ((pub, "RosPublisher"), (sub, "RosSubscriber"), (fr, "FromRos"), (to, "ToRos")):
        if k is None: raise Broken("class %s not found" % n)
    b = Bridge(py, ck, pub); b.where = py.classes[pub].mod.rel + ":%d" % py.classes[pub].node.lineno; b.what = "constructor"
    message_types(b); codes(b, pub, sub)
    for backend in ("ros1", "ros2"):
        P, Q = subclasses(py, pub, backend), subclasses(py, sub, backend)
        if len(P) != 1 or len(Q) != 1: raise Broken("publisher and subscriber of %s not found" % backend)
        topics = publisher(b, P[0], backend); subscriber(b, Q[0], backend, topics)
    from_ros(b, fr, sub); to_ros(b, to, pub)

def message_types(b):
    py, ck = b.py, b.ck; fk = next((k for k in py.fns if k[1] == "toRosDType"), None)
    if fk is None: ck.cnt("message types not identified"); return
    m, fn, _ = py.fns[fk]; b.where = "%s:%d" % (m.rel, fn.lineno); b.what = "toRosDType"; seen = {}
    for d in DT + ["int64", "uint8", "str_"]:
        for arr in (True, False):
            outs, exc = py.enter(State(), fk, (NP(d), arr), {}); vals = {msgtype(v) for _, v in outs}; ck.cnt("message types")
            if d not in DT:
                if outs: b.rep("toRosDType accepts the unsupported element type %s" % d)
                continue
            if exc or len(vals) != 1 or None in vals: b.rep("toRosDType has no message type for %s" % d); continue
            t = vals.pop()
            if arr != t.endswith("Array"): b.rep("toRosDType uses %s for %s of %s" % (t, "an array" if arr else "a single value", d))
            want = {"bool_": ("Bool", "Int32", "Int8", "UInt8"), "int32": ("Int32",), "float32": ("Float32",), "float64": ("Float64",)}[d]
            if t.replace("MultiArray", "") not in want: b.rep("toRosDType carries %s in %s" % (d, t))

def instances(b, k, kw=None):
    objs, exc = b.py.make(k, kw); return [(s, o) for s, o in objs]
def codes(b, pub, sub):
    """encoder and decoder of the element type are inverse on the supported types and raise for anything else"""
    py, ck = b.py, b.ck; enc = {}
    e, d = py.find(pub, "_encode_dtype"), py.find(sub, "_decode_dtype")
    if not e or not d: ck.cnt("type codes not identified"); return
    def at(r): m, fn, c = py.fns[r[1]]; return "%s:%d" % (m.rel, fn.lineno)
    def call(r, arg):
        s = State(); o = ("obj", r[2][1], s.new()); s.heap[o] = {"__cls__": r[2]}
        m, fn, c = py.fns[r[1]]; static = py.static(fn); return py.enter(s, r[1], (() if static else (o,)) + (arg,), {}, r[2])
    b.what = "type codes"
    for t in DT:
        outs, exc = call(e, NP(t)); vs = {v for _, v in outs}; ck.cnt("type codes")
        if exc or len(vs) != 1 or type(next(iter(vs))) is not int: b.rep("the element type %s has no single code" % t, at(e)); continue
        c = vs.pop()
        if c in enc: b.rep("the element types %s and %s have the same code" % (enc[c], t), at(e))
        enc[c] = t
        outs, exc = call(d, c); vs = {v for _, v in outs}; ck.cnt("type codes")
        if exc or vs != {NP(t)}: b.rep("the code of %s is decoded as %s" % (t, ", ".join(sorted(map(show, vs))) or "nothing"), at(d))
    for t in ("int64", "uint8", "str_"):
        outs, exc = call(e, NP(t)); ck.cnt("type codes")
        if outs: b.rep("the unsupported element type %s is encoded" % t, at(e))
    for c in [x for x in (-1, 0, 1, 2, 3, 4, 5, 255) if x not in enc]:
        outs, exc = call(d, c); ck.cnt("type codes")
        if outs: b.rep("the unknown type code %d is decoded" % c, at(d))

def publisher(b, k, backend):
    """{field: (topic, message class)}, checked on every path"""
    py, ck = b.py, b.ck; b.cls = k; topics = {}
    for t in DT:
        for s0, o in instances(b, k, {"dtype": NP(t)}):
            a = [v for v in s0.heap[o].values() if type(v) is tuple and v and v[0] == "arr"]
            b.what = "constructor"; ck.cnt("publisher arrays")
            if len(set(a)) != 1: b.rep("the publisher of %s has no single array" % t, s=s0); continue
            h = s0.heap[a[0]]
            if h["shape"] != ("tuple", (("sym", "new n_rows"), ("sym", "new n_cols"))): b.rep("the publisher's array does not have the rows and columns given", s=s0)
            if h["dtype"] != NP(t): b.rep("the publisher's array does not have the element type given", s=s0)
            code = None; r = py.find(k, "_encode_dtype")
            if r:
                vs = {v for _, v in py.enter(s0, r[1], (o, NP(t)), {}, r[2])[0]}; code = next(iter(vs)) if len(vs) == 1 else None
            for s, v in b.go(s0, o, "run")[0]:
                got = {}; eps = endpoints(s, ("Publisher", "create_publisher"))
                idx = {}; n = 0
                objs = {}
                for e in s.ev:
                    if e[0] == "ext" and e[1].split(".")[-1] == "Publisher" or e[0] == "call" and e[2] == "create_publisher":
                        objs[e[5] if e[0] == "call" else ("ext", n)] = n; n += 1
                pubs = [e for e in s.ev if e[0] == "call" and e[2] == "publish"]
                made = [v for v in s.heap if type(v) is tuple and len(v) == 3 and v[0] == "msg" and v[1].split(".")[-1] == "Publisher"]
                made.sort(key=lambda x: x[2])
                for e in pubs:
                    i = objs.get(e[1], made.index(e[1]) if e[1] in made else None)
                    if i is None or i not in eps: ck.cnt("publications not identified"); continue
                    msg = e[3][0] if e[3] else dict(e[4]).get("msg"); dat = s.heap[msg].get("data") if msg in s.heap else None
                    mt = msg[1].split(".")[-1] if msg in s.heap else None
                    if dat is None and msg in s.heap and s.heap[msg].get("args"): dat = s.heap[msg]["args"][0]
                    f = "rows" if dat == ("sym", "new n_rows") else "columns" if dat == ("sym", "new n_cols") else "data" if holds(dat, a[0]) else "type" if type(dat) is int and dat == code else None
                    ck.cnt("publications")
                    if f is None: b.rep("run publishes %s, which is none of data, rows, columns and type" % show(dat), e[-1], s); continue
                    if f in got and got[f] != i: b.rep("the %s are published under two topics" % f, e[-1], s)
                    got[f] = i
                    if mt != eps[i][1]: b.rep("a %s message is published on a topic of %s" % (mt, eps[i][1]), e[-1], s)
                for f in FIELDS:
                    if f not in got: b.rep("run does not publish the %s" % f, s=s); continue
                    tp = eps[got[f]][:2]; key = (f, t if f == "data" else None)
                    tp = (rename(tp[0], {("sym", "new namespace"): ("sym", "namespace"), ("sym", "new basename"): ("sym", "basename")}), tp[1])
                    if topics.setdefault(key, tp) != tp: b.rep("the topic of the %s depends on other things than namespace and name" % f, s=s)
                    if not mentions(tp[0], [("sym", "namespace"), ("sym", "basename")]) and not mentions(tp[0], [("sym", "basename"), ("sym", "namespace")]): b.rep("the topic of the %s does not depend on both namespace and name" % f, s=s)
            # later publications
            if py.find(k, "pub_data"):
                ran = b.go(s0, o, "run")[0]
                for s, v in ran[:1]:
                    for s2, v2 in b.go(s, o, "pub_data")[0]:
                        ps = [e for e in s2.ev if e[0] == "call" and e[2] == "publish"]; ck.cnt("data publications")
                        if not ps: b.rep("pub_data publishes nothing", s=s2)
                        for e in ps:
                            msg = e[3][0] if e[3] else dict(e[4]).get("msg"); dat = s2.heap[msg].get("data") if msg in s2.heap else None
                            if dat is None and msg in s2.heap and s2.heap[msg].get("args"): dat = s2.heap[msg]["args"][0]
                            if not holds(dat, a[0]): b.rep("pub_data does not publish the publisher's array", e[-1], s2)
                            if holds(dat, a[0]) and copied(dat) and not made_now(s2, msg): b.rep("pub_data publishes an old copy of the array", e[-1], s2)
                            first = [x for x in s.ev if x[0] == "call" and x[2] == "publish" and x[1] == e[1]]
                            m0 = (first[0][3][0] if first[0][3] else dict(first[0][4]).get("msg")) if first else None
                            if not first or m0 not in s.heap or not (holds(s.heap[m0].get("data"), a[0]) or s.heap[m0].get("args") and holds(s.heap[m0]["args"][0], a[0])): b.rep("pub_data publishes the data on another topic than run", e[-1], s2)
    seen = {}
    for (f, t), tp in topics.items():
        if f != "data" or t == DT[0]:
            if tp[0] in seen: b.rep("%s and %s share a topic" % (seen[tp[0]], f))
            seen[tp[0]] = f
    return topics
def made_now(s, msg): return any(e[0] == "ext" and e[1] == msg[1] for e in s.ev)
def holds(v, arr):
    v = v
    while type(v) is tuple and v:
        if v == arr: return True
        if v[0] in ("reshape", "ravel", "flatten", "copy", "tolist", "view", "astype"): v = v[1]
        elif v[0] == "np": v = v[2]
        elif v[0] == "sub" and full(v[2]): v = v[1]
        else: return False
    return False
def copied(v):
    while type(v) is tuple and v:
        if v[0] in ("flatten", "copy", "tolist", "astype"): return True
        if v[0] in ("reshape", "ravel", "view"): v = v[1]
        elif v[0] == "np": v = v[2]
        elif v[0] == "sub": v = v[1]
        else: return False
    return False

def fire(py, s, b, msg):
    if b[0] != "bound": return [], []
    s = s.fork(); s.heap[msg] = {"__cls__": None, "data": ("sym", "data of " + msg[1])}
    return py.enter(s, b[2], (b[1], msg), {}, b[3])

def metadata(b, s, o):
    """{field: callback} of the metadata subscriptions on a path that has just constructed the subscriber"""
    py = b.py; out = {}
    for i, (topic, mt, cb, e) in endpoints(s, ("Subscriber", "create_subscription")).items():
        if cb is None or cb[0] != "bound": continue
        for u, v in fire(py, s, cb, ("msg", "probe", 0))[0]:
            for n, f in (("n_rows", "rows"), ("n_cols", "columns"), ("dtype", "type")):
                x = {w for _, w in py.do(u, o, n)[0] or ()}; y = {w for _, w in py.do(s, o, n)[0] or ()}
                if x != y: out.setdefault(f, set()).add(i)
    return out
def subscriber(b, k, backend, topics):
    py, ck = b.py, b.ck; b.cls = k
    for s0, o in instances(b, k):
        b.what = "constructor"; eps = endpoints(s0, ("Subscriber", "create_subscription")); meta = metadata(b, s0, o); ck.cnt("subscribers"); ok = True
        b.where = py.classes[k].mod.rel + ":%d" % py.classes[k].node.lineno
        ren = lambda x: rename(x, {("sym", "new namespace"): ("sym", "namespace"), ("sym", "new basename"): ("sym", "basename")})
        for f in FIELDS[1:]:
            ck.cnt("topics compared"); m = meta.get(f)
            if not m or len(m) != 1: b.rep("the %s of the data are not received by exactly one subscription" % f, s=s0); ok = False; continue
            i = next(iter(m)); tp = topics.get((f, None))
            if tp is None: continue
            if ren(eps[i][0]) != tp[0]: b.rep("the %s are published as %s and received from %s" % (f, show(tp[0]), show(ren(eps[i][0]))), eps[i][3][-1], s0)
            if eps[i][1] != tp[1]: b.rep("the %s are published as %s and received as %s" % (f, tp[1], eps[i][1]), eps[i][3][-1], s0)
        if not ok: continue
        cbs = {f: eps[next(iter(meta[f]))][2] for f in FIELDS[1:]}
        # every order of arrival and every subset
        import itertools
        states = {(): [s0]}
        for n in range(1, 4):
            for seq in itertools.permutations(FIELDS[1:], n):
                l = []
                for s in states[seq[:-1]]: l += [u for u, v in fire(py, s, cbs[seq[-1]], ("msg", seq[-1], 0))[0]]
                states[seq] = l
        for seq, ss in states.items():
            if len(seq) == 3 and not ss: b.rep("the metadata cannot arrive in the order %s" % ", ".join(seq)); continue
            for s in ss:
                outs, exc = b.go(s, o, "run"); ck.cnt("arrival orders")
                for u, v in outs:
                    arr = [x for x in u.heap[o].values() if type(x) is tuple and x and x[0] == "arr"]
                    data = endpoints(u, ("Subscriber", "create_subscription"))
                    if len(seq) < 3:
                        miss = ", ".join(f for f in FIELDS[1:] if f not in seq)
                        if b.truthof(u, v) is not False and v is not None: b.rep("run reports success although the %s did not arrive" % miss, s=u)
                        if arr or data: b.rep("run creates the array or subscribes to the data although the %s did not arrive" % miss, s=u)
                        continue
                    if v is not True: b.rep("run does not report success although all metadata arrived", s=u)
                    types = [w for _, w in py.do(u, o, "dtype")[0] or ()]; rows = [w for _, w in py.do(u, o, "n_rows")[0] or ()]; cols = [w for _, w in py.do(u, o, "n_cols")[0] or ()]
                    if strip(rows[0]) != ("sym", "data of rows") or strip(cols[0]) != ("sym", "data of columns"): b.rep("n_rows and n_cols do not return the numbers received", s=u)
                    if types[0] not in [NP(t) for t in DT]: b.rep("dtype does not return the type received", s=u); continue
                    t = types[0][1].split(".")[-1]
                    if len(set(arr)) != 1: b.rep("run creates no single array for the data", s=u); continue
                    h = u.heap[arr[0]]; ck.cnt("subscriber arrays")
                    sh = h["shape"][1] if type(h["shape"]) is tuple and h["shape"][0] in ("tuple", "list") else ()
                    if [strip(x) for x in sh] != [("sym", "data of rows"), ("sym", "data of columns")]: b.rep("the subscriber's array does not have the rows and columns received", s=u)
                    if h["dtype"] != types[0]: b.rep("the subscriber's array does not have the element type received", s=u)
                    if len(data) != 1: b.rep("run makes %d subscriptions to the data" % len(data), s=u); continue
                    topic, mt, cb, e = data[0]; tp = topics.get(("data", t)); ck.cnt("topics compared")
                    if tp:
                        if ren(topic) != tp[0]: b.rep("the data are published as %s and received from %s" % (show(tp[0]), show(ren(topic))), e[-1], u)
                        if mt != tp[1]: b.rep("data of type %s are published as %s and received as %s" % (t, tp[1], mt), e[-1], u)
                    if cb is None or cb[0] != "bound": continue
                    for w, _ in fire(py, u, cb, ("msg", "values", 0))[0]:
                        st = [x for x in w.ev if x[0] == "store" and strip(x[1]) == arr[0]] + [("store", x[1], None, x[-1]) for x in w.ev if x[0] == "call" and x[1] == arr[0]]; ck.cnt("data callbacks")
                        if not st: b.rep("the data received are not stored", s=w); continue
                        v2 = st[-1][2]
                        if strip_shape(v2) != ("sym", "data of values"): b.rep("other values are stored than the ones received", st[-1][-1], w)
                        shp = shape_of(v2)
                        if shp is not None and [strip(x) for x in shp] != [("sym", "data of rows"), ("sym", "data of columns")]: b.rep("the data received are arranged with other rows and columns than received", st[-1][-1], w)
                        for n in arrays_of(w, o):
                            if n != arr[0]: b.rep("the data callback replaces the array", s=w)
                    # metadata arriving again must not change what the array was built from
                    for f in FIELDS[1:]:
                        for w, _ in fire(py, u, cbs[f], ("msg", "second " + f, 0))[0]:
                            for nme, old in (("n_rows", rows[0]), ("n_cols", cols[0]), ("dtype", types[0])):
                                new = [x for _, x in py.do(w, o, nme)[0] or ()]; ck.cnt("repeated metadata")
                                if new and new[0] != old and not same_num(w, new[0], old): b.rep("%s changes after the array was created" % nme, s=w)
def same_num(s, a, b):
    try: return same(s, num(strip(a)), num(strip(b))) or same(s, num(a), num(b))
    except TypeError: return False
def arrays_of(s, o): return {x for x in s.heap[o].values() if type(x) is tuple and x and x[0] == "arr"}
def strip_shape(v):
    while type(v) is tuple and v:
        if v[0] in ("reshape", "copy", "astype", "view", "ravel", "flatten"): v = v[1]
        elif v[0] == "np": v = v[2]
        elif v[0] == "f" and v[1].endswith("reshape"): v = v[2]
        elif v[0] == "sub" and full(v[2]): v = v[1]
        else: break
    return v
def shape_of(v):
    if type(v) is tuple and v and v[0] == "reshape":
        a = v[2:]; return a[0][1] if len(a) == 1 and type(a[0]) is tuple and a[0] and a[0][0] in ("tuple", "list") else a
    if type(v) is tuple and v and v[0] == "np": return shape_of(v[2])
    return None

def inner(py, s, o, base):
    l = [x for x in s.heap[o].values() if type(x) is tuple and x and x[0] == "obj" and base in py.mro(s.heap[x]["__cls__"])]
    return l[0] if len(set(l)) == 1 else None
def from_ros(b, k, sub):
    py, ck = b.py, b.ck; b.cls = k; import itertools
    for backend in ("ros1", "ros2"):
        b.what = "constructor"; b.where = py.classes[k].mod.rel + ":%d" % py.classes[k].node.lineno; insts = instances(b, k, {"ros_backend": backend})
        if not insts and not py.stats.get("not evaluated"): b.rep("FromRos cannot be created for %s" % backend)
        for s0, o in insts:
            q = inner(py, s0, o, sub)
            if q is None: b.rep("FromRos has no single subscriber", s=s0); continue
            if backend not in s0.heap[q]["__cls__"][0]: b.rep("FromRos for %s creates a subscriber of another backend" % backend, s=s0)
            eps = endpoints(s0, ("Subscriber", "create_subscription")); meta = metadata(b, s0, q); ren = {("sym", "new namespace"), ("sym", "new basename")}
            for i, x in eps.items():
                ck.cnt("bridge topics")
                if not all(mentions(x[0], [y]) for y in ren): b.rep("FromRos subscribes to a topic which does not depend on the namespace and name given", x[3][-1], s0)
            if any(f not in meta or len(meta[f]) != 1 for f in FIELDS[1:]): continue
            cbs = {f: eps[next(iter(meta[f]))][2] for f in FIELDS[1:]}
            for n in range(4):
                for seq in itertools.combinations(FIELDS[1:], n):
                    ss = [s0]
                    for f in seq: ss = [u for s in ss for u, v in fire(py, s, cbs[f], ("msg", f, 0))[0]]
                    for s in ss:
                        outs, exc = b.go(s, o, "run")
                        for u, v in outs:
                            ck.cnt("bridge starts"); new = [e for e in u.ev if e[0] == "new"]
                            if n < 3:
                                if v not in (False, None) or new: b.rep("FromRos %s although the %s did not arrive" % ("creates a server" if new else "reports running", ", ".join(f for f in FIELDS[1:] if f not in seq)), s=u)
                                continue
                            if v is not True: b.rep("FromRos does not report running although all metadata arrived and its server runs", s=u)
                            if len(new) != 1 or "Server" not in new[0][1][1]: b.rep("FromRos creates %d servers" % len(new), s=u); continue
                            d = dict(new[0][2]); nat = new[0][1]; at = new[0][-1]
                            for key, want, word in (("n_rows", ("sym", "data of rows"), "rows received"), ("n_cols", ("sym", "data of columns"), "columns received"), ("basename", ("sym", "new basename"), "name given"), ("namespace", ("sym", "new namespace"), "namespace given")):
                                ck.cnt("server arguments")
                                if strip(d.get(key)) != want: b.rep("FromRos creates its server with another %s than the %s" % (key, word), at, u)
                            ty = [w for _, w in py.do(u, q, "dtype")[0] or ()]; t = ty[0][1].split(".")[-1] if ty and type(ty[0]) is tuple and ty[0][0] == "ext" else None
                            dt = d.get("dtype")
                            if t in ENUM and (type(dt) is not tuple or dt[0] != "enum" or dt[2] != ENUM[t]): b.rep("FromRos creates a server of element type %s for data of type %s" % (show(dt), t), at, u)
                            if not any(e[0] == "native" and e[1] == nat and e[2] == "run" for e in u.ev): b.rep("FromRos reports running without having started its server", at, u)
                            for w, v2 in b.go(u, o, "run")[0]:
                                if any(e[0] == "new" for e in w.ev): b.rep("FromRos creates another server when run again", s=w)
                                if v2 is not True: b.rep("FromRos does not report running when run again", s=w)
                            update(b, u, o, q, nat)
                        if n < 3: continue
                    if n < 3:
                        for s in ss:
                            for w, v in b.go(s, o, "update")[0]:
                                if v not in (False, None) : b.rep("update reports success before the bridge runs", s=w)
def update(b, u, o, q, nat):
    py, ck = b.py, b.ck; arr = arrays_of(u, q)
    for w, v in b.go(u, o, "update")[0]:
        T = b.transfers(w, nat); ck.cnt("bridge updates")
        if not T:
            if v is not False: b.rep("update reports a result without writing", s=w)
            continue
        e = T[-1]; view, r, c = b.args(e)
        if e[2] != "write": b.rep("update reads shared memory where it has to write it", e[-1], w)
        if strip(view) not in arr: b.rep("update does not write the data received", e[-1], w)
        if r != 0 or c != 0: b.rep("update does not write the whole tensor", e[-1], w)
        if not b.result(w, v, e): b.rep("update does not return the result of the transfer", s=w)
        for x in w.ev:
            if x[0] == "store" and strip(x[1]) in arr: b.rep("update changes the data received", x[-1], w)

def to_ros(b, k, pub):
    py, ck = b.py, b.ck; b.cls = k; C = ("sym", "new client")
    for backend in ("ros1", "ros2"):
        b.what = "constructor"; b.where = py.classes[k].mod.rel + ":%d" % py.classes[k].node.lineno; insts = instances(b, k, {"client": C, "ros_backend": backend}); kinds = set()
        if not insts and not py.stats.get("not evaluated"): b.rep("ToRos cannot be created for %s" % backend)
        for s0, o in insts:
            kind = s0.kinds.get(C)
            if type(kind) is not str: continue
            st = "StringTensor" in kind; kinds.add(st)
            for s, v in b.go(s0, o, "run")[0]:
                p = inner(py, s, o, pub); ck.cnt("bridge starts")
                if p is None: b.rep("ToRos has no single publisher after run", s=s); continue
                if backend not in s.heap[p]["__cls__"][0]: b.rep("ToRos for %s creates a publisher of another backend" % backend, s=s)
                run = [e for e in s.ev if e[0] == "native" and e[1] == C]
                up = [e for e in run if e[2] == "isRunning" and s.facts.get(e[5])]
                if not up and not any(e[2] == ("run" if st else "attach") for e in run): b.rep("ToRos does not start a client that is not running", s=s)
                val = lambda n: next(iter({w for _, w in py.do(s, p, n)[0] or ()}), None)
                if st: want = {"n_rows": lambda x: isdim(x, C, 0), "n_cols": lambda x: isdim(x, C, 1), "dtype": lambda x: x == NP("int32") or type(x) is tuple and x[0] == "f" and x[1] == "toNumpyDType" and type(x[2]) is tuple and x[2][0] == "enum" and x[2][2] == "Int"}
                else: want = {"n_rows": lambda x: x == ("nres", C, "getNRows"), "n_cols": lambda x: x == ("nres", C, "getNCols"), "dtype": lambda x: x == ("f", "toNumpyDType", ("nres", C, "getScalarType"))}
                for n, f in want.items():
                    ck.cnt("publisher arguments")
                    if not f(val(n)): b.rep("ToRos creates its publisher with other %s than those of the %s" % (n, "string tensor" if st else "tensor"), s=s)
                for i, x in endpoints(s, ("Publisher", "create_publisher")).items():
                    ck.cnt("bridge topics")
                    if not all(mentions(x[0], [("nres", C, g)]) for g in ("getNamespace", "getBasename")): b.rep("ToRos publishes on a topic which does not depend on the namespace and name of its client", x[3][-1], s)
                arr = arrays_of(s, p); first = first_pubs(s, arr)
                for u, r in b.go(s, o, "update")[0]:
                    ck.cnt("bridge updates"); ev = list(u.ev); good = [e for e in ev if e[0] == "native" and e[1] == C and e[2] in ("read", "read_vec", "write", "write_vec")]
                    if not good:
                        if b.truthof(u, r) is True: b.rep("update reports success without reading", s=u)
                        continue
                    e = good[-1]; ok = u.facts.get(e[5])
                    if e[2].startswith("write"): b.rep("update writes shared memory where it has to read it", e[-1], u); continue
                    if r is True and ok is not True: b.rep("update reports success although the read failed", s=u)
                    pubs = [(j, x) for j, x in enumerate(ev) if x[0] == "call" and x[2] == "publish"]; j = ev.index(e)
                    if not st:
                        a = list(e[3]) + [v for _, v in e[4]]
                        if not a or strip(a[0]) not in arr: b.rep("update does not read into the publisher's array", e[-1], u)
                        if [x for x in a[1:] if x != 0]: b.rep("update does not read the whole tensor", e[-1], u)
                    else:
                        sts = [(i, x) for i, x in enumerate(ev) if x[0] == "store" and strip(x[1]) in arr and type(strip(x[2])) is tuple and strip(x[2])[0] == "rawbuf"]
                        if ok is True and (not sts or sts[-1][0] < j): b.rep("update does not publish the strings just read", e[-1], u)
                        a = list(e[3]) + [v for _, v in e[4]]
                        if a[1:] != [0]: b.rep("update does not read all strings", e[-1], u)
                        if sts: j = max(j, sts[-1][0])
                    if ok is True:
                        late = [x for i, x in pubs if i > j]
                        if not late: b.rep("update does not publish what it has read", e[-1], u)
                        for x in late:
                            msg = x[3][0] if x[3] else None
                            d = None if msg not in u.heap else u.heap[msg].get("data") if u.heap[msg].get("data") is not None else (u.heap[msg].get("args") or (None,))[0]
                            if msg in u.heap and not any(holds(d, y) for y in arr): b.rep("update publishes other data than the publisher's array", x[-1], u)
                            if first and x[1] not in first: b.rep("update publishes the data on another topic than run", x[-1], u)
                            if any(holds(d, y) for y in arr) and copied(d) and not made_now(u, msg): b.rep("update publishes an old copy", x[-1], u)
        if insts and kinds != {True, False} and kinds: b.rep("ToRos does not accept %s" % ("string tensors" if True not in kinds else "tensors"))
def isdim(x, c, i): return type(x) is tuple and x[0] == "dim" and x[2] == i and type(x[1]) is tuple and x[1][0] == "rawbuf" and x[1][1] == c
def first_pubs(s, arr):
    out = set()
    for e in s.ev:
        if e[0] == "call" and e[2] == "publish" and e[3] and e[3][0] in s.heap:
            h = s.heap[e[3][0]]; d = h.get("data") if h.get("data") is not None else (h.get("args") or (None,))[0]
            if any(holds(d, y) for y in arr): out.add(e[1])
    return out

def check(prop, tier, work):
    os.makedirs(work + "/b", exist_ok=True)
    mods = compile_units(work + "/b"); prog = Program(mods)
    def go():
        evs, eng, R = registrations(prog)
        if len(evs) != 1: raise Broken("module initialiser has %d outcomes" % len(evs))
        T = Table(prog, evs[0].ts.get(("g:ev",), ())); ck = Checker(prop, prog, T); py = Layer(T, REPO)
        if tier == "thorough": Y.MAXLOOP = 4
        {"C22": c22, "C23": c23, "C24": c24}[prop](py, ck)
        ck.fns |= py.stats.pop("functions"); ck.numbers = {"python " + k: v for k, v in py.stats.items()}; ck.numbers["expressions evaluated"] = 6_000_000 - py.budget
        return ck
    ck = big(go)
    return {"reports": ck.reports, "counts": ck.n, "functions": sorted(f for f in ck.fns if ".py:" in f), "opaque": [], "numbers": ck.numbers}
