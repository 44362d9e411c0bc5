"""C20, C21 and the native part of C22: what the registered Python functions do, by abstract interpretation of each of them"""
from .pyreg import *
from .pyreg import Ev
from .terms import *
NT = {"bool": ("Bool", 1), "int": ("Int", 4), "float": ("Float", 4), "double": ("Double", 8)}
CLS = re.compile(r"EigenIPC::(Server|Client)<(\w+), (\d)>$")
VOCAB = (("length", "n_elements", "nelements"), ("nrows", "rows"), ("ncols", "cols"), ("basename",), ("namespace",), ("verbose",), ("vlevel", "verbositylevel"), ("safe",), ("forcereconnection",), ("dtype", "scalartype"), ("layout", "memlayout"))
def role(kw):
    k = str(kw).replace("_", "").lower()
    for i in VOCAB:
        if k in [x.replace("_", "") for x in i]: return i[0]
    return k
# order of the parameters of the native constructors
CTOR = {"Server": ("nrows", "ncols", "basename", "namespace", "verbose", "vlevel", "forcereconnection", "safe"),
        "Client": ("basename", "namespace", "verbose", "vlevel", "safe")}
INIT = {"EigenIPC::StringTensor<EigenIPC::Server<int, 1>>": ("length", "basename", "namespace", "verbose", "vlevel", "forcereconnection", "safe"),
        "EigenIPC::StringTensor<EigenIPC::Client<int, 1>>": ("basename", "namespace", "verbose", "vlevel", "safe"),
        "EigenIPC::Producer": ("basename", "namespace", "verbose", "vlevel", "forcereconnection"),
        "EigenIPC::Consumer": ("basename", "namespace", "verbose", "vlevel")}
# python names which differ from the native ones
NAMES = {"length": "getLength", "write_vec": "write", "read_vec": "read", "write_str": "write", "read_str": "read", "get_shared_mem": "getSharedMem"}
ALIAS = {("EigenIPC::Client", "isRunning"): ("isRunning", "isAttached")}

def cls_norm(c): return c.replace("> >", ">>").replace("(int)", "")
def dict_t(d): return tuple(sorted(d.items(), key=lambda x: x[0])) if d else ()
class Bound(Reg):
    def __init__(self, prog, codes, dtcode=None, arrdt=None, es=None, k=None):
        Reg.__init__(self, prog); self.codes = codes; self.dtcode = dtcode; self.arrdt = arrdt; self.es = es; self.k = k; self.ncall = 0
    def numbers(self, t, T, bits):
        if T.endswith("DType") and t[0] == "call" and t[1][0] == "attr" and t[1][2] == "getScalarType" and self.dtcode is not None: return self.dtcode
        return sym("val:%r" % (t,), *I32)
    def same(self, st, x, y):
        if self.arrdt is not None:
            f = lambda t: ("dt", self.arrdt) if t == ("dtypeof", ("np",)) else t
            x, y = f(x), f(y)
        return Reg.same(self, st, x, y)
    def native(self, eng, name, short, ps, d):
        if short == "EigenIPC::Journal::log":
            k = next((i for i, p in enumerate(ps) if "LogType" in p), None); off = 0 if len(ps) == 5 else 1
            t = next((i for i, p in enumerate(ps) if p == "bool"), None)
            def f(eng, st, a, site):
                lv = a[k + off] if k is not None else None; th = a[t + off] if t is not None else 0
                if lv == self.codes["EXCEP"] and th != 0:
                    b = ("h", "exc") + site.key(eng); st.mem[b] = {}; st.own.add(b); st.exc = ("_ZTISt13runtime_error", ""); eng.emit(st, "throw", "journal", models.UNK, site); st.ts[("g:at",)] = eng.here()
                    u = [("exc", st, None)]
                    return u
                return ret(st, None)
            return f
        m = re.match(r"EigenIPC::(Server|Client|StringTensor|Producer|Consumer)::([~\w]+)$", short)
        if not m: return None
        base, meth = m.groups()
        c = class_args(d, "EigenIPC::" + base) if base in ("Server", "Client", "StringTensor") else None
        cls = cls_norm("EigenIPC::" + base + ("<%s>" % ", ".join(c) if c is not None else ""))
        if meth.startswith("~"): return lambda eng, st, a, site: ret(st, None)
        me = self
        def f(eng, st, a, site):
            sr = site_sret(me.prog, name); o = 1 if sr else 0
            av = []
            for t, p in zip(ps, a[1 + o:]):
                if "Map<" in t or "Matrix<" in t: av.append(("view",) + dict_t(models.dense(eng, st, site, t, p)))
                elif "basic_string" in t and "vector" not in t: av.append(("s", sget(eng, st, p)[1]))
                elif t.strip() in ("bool", "int", "double", "EigenIPC::DType") or "VLevel" in t: av.append(p)
                else: av.append(("at", p))
            n = len(st.ts.get(("g:nat",), ())); key = ("nat", meth, n)
            v = None if meth == base else eng.result(st, site.rt, key)
            st.ts[("g:nat",)] = st.ts.get(("g:nat",), ()) + ((cls, meth if meth != base else "ctor", tuple(av), v, a[o], tuple(ps), eng.here()),)
            if sr and "basic_string" in me.prog.dem.get(name, "")[:120] or sr: sput(eng, st, a[0], ("S", (key,)))
            if meth == "read" and ps and "basic_string" in ps[0] and "vector" not in ps[0] and isp(a[1 + o]): sput(eng, st, a[1 + o], ("S", (("out", n),)))
            if meth == "read" and ps and "vector<" in ps[0] and isp(a[1 + o]):
                q, z = ld(eng, st, site, a[1 + o], 0, ("ptr",)), ld(eng, st, site, a[1 + o], 8, ("ptr",))
                if isp(q) and isp(z) and q[1] == z[1] and type(q[2]) is int and type(z[2]) is int:
                    ins = []
                    for i in range((z[2] - q[2]) // 32):
                        w = ("p", q[1], q[2] + 32 * i); ins.append(sget(eng, st, w)[1]); sput(eng, st, w, ("S", (("out", i),)))
                    st.ts[("g:vec",)] = tuple(ins)
            return ret(st, v)
        return f
    def arrays(self, eng, name, s, last, ps, d, sr):
        me = self; es = self.es
        A = lambda eng, st, p, site: term_of(eng, st, p, site)
        def wr(st, w):
            if w: st.ts[("g:writable",)] = 1
        if s == "buffer::request":
            def f(eng, st, a, site):
                w = a[2] if len(a) > 2 else 0; wr(st, w == 1)
                b, o = a[0][1], a[0][2]; L = layout_bi(me.prog)
                pt = lambda k, n, v: eng.put(st, b, padd(o, L[k]), n, v)
                pt(0, 8, ("p", ("arr",), 0)); pt(1, 8, es if es else sym("itemsize", 1, 16)); pt(2, 8, pmul(sym("shape0", 0, 2 ** 31), sym("shape1", 0, 2 ** 31)))
                sput(eng, st, ("p", b, padd(o, L[3])), ("S", (("arg", "format"),)))
                pt(4, 8, sym("ndim", 0, 32))
                for k, q in ((5, "shape"), (6, "strides")):
                    v = ("obj", q); st.own.add(v); st.mem[v] = {0: (8, me.dim(q, 0)), 8: (8, me.dim(q, 1))}
                    for j, z in ((0, 0), (8, 16), (16, 16)): eng.put(st, b, padd(o, L[k] + j), 8, ("p", v, z))
                pt(7, 1, sym("readonly", 0, 1))
                return ret(st, None)
            return f
        if s in ("array::mutable_data", "array_t::mutable_data", "array_t::mutable_unchecked"): return lambda eng, st, a, site: (wr(st, 1), ret(st, ("p", ("arr",), 0)))[1]
        if s in ("array::data", "array_t::data"): return lambda eng, st, a, site: ret(st, ("p", ("arr",), 0))
        if s in ("array::shape", "array_t::shape") and len(ps) == 1: return lambda eng, st, a, site: ret(st, me.dim("shape", a[1])) if type(a[1]) is int else ret(st, sym("dim", 0, 2 ** 31))
        if s in ("array::strides", "array_t::strides") and len(ps) == 1: return lambda eng, st, a, site: ret(st, me.dim("strides", a[1])) if type(a[1]) is int else ret(st, sym("str", 0, 2 ** 31))
        if s in ("array::shape", "array::strides") and not ps:
            q = s.split("::")[1]
            def f(eng, st, a, site):
                v = ("obj", q); st.own.add(v); st.mem[v] = {0: (8, me.dim(q, 0)), 8: (8, me.dim(q, 1))}; return ret(st, ("p", v, 0))
            return f
        if s == "array::ndim": return lambda eng, st, a, site: ret(st, sym("ndim", 0, 32))
        if s in ("array::itemsize", "array_t::itemsize"): return lambda eng, st, a, site: ret(st, es if es else sym("itemsize", 1, 16))
        if s == "array::writeable": return lambda eng, st, a, site: ret(st, c_eq(sym("readonly", 0, 1)))
        if s == "dtype::itemsize": return lambda eng, st, a, site: ret(st, es if es else sym("itemsize", 1, 16))
        return None
    def dim(self, q, i):
        if i not in (0, 1): return sym("%s%s" % (q, i), 0, 2 ** 31)
        if q == "shape": return sym("shape%d" % i, 0, 2 ** 31 - 1)
        return padd(pmul(sym("k%d" % i, 0, 2 ** 40), self.es or 1), self.k[i] if self.k else 0)

_bi = {}
def layout_bi(prog):
    """offsets of ptr, itemsize, size, format, ndim, shape, strides, readonly"""
    if 0 not in _bi:
        for m in prog.mods:
            t = m.types.get("%\"struct.pybind11::buffer_info\"")
            if t:
                o = m.layout(m.parse_type(t)) if hasattr(m, "parse_type") else None
                break
        _bi[0] = (0, 8, 16, 24, 56, 64, 88, 112)
    return _bi[0]

# ---------------------------------------------------------------- running one bound function
def lambda_of(prog, F, idx):
    """mangled names of F's call operators"""
    return idx.get(F, [])
def lambda_index(prog):
    r = {}
    for m, d in prog.dem.items():
        d = d.replace("[abi:cxx11]", "")
        if m in prog.fn and "::operator()(" in d:
            i = d.rfind("::operator()("); r.setdefault(d[:i], []).append(m)
    return r
def target(prog, e, idx):
    """(mangled name, class-qualified?) of the function an event binds"""
    if e[0] in ("def", "static"): F, t = e[3], e[4]
    else: F, t = e[2], e[3]
    if t is not None: return t
    l = lambda_of(prog, F, idx)
    return l[0] if len(l) == 1 else None
def split_sig(prog, m):
    short, ps = prog.short(m)
    return short, [norm_t(x) for x in ps or []]
def args_for(prog, m, lam, names=None, st=None, eng=None, given=None):
    """argument values: closure object for lambdas, then symbolic parameters named p0, p1, ..."""
    f = prog.fn[m]; f.parse(); ps = split_sig(prog, m)[1]; av = []; np_ = len(f.params); sr = site_sret(prog, m)
    given = given or {}
    if sr:
        b = ("obj", "sret"); st.mem[b] = {}; st.own.add(b); av.append(("p", b, 0))
    if lam:
        b = ("obj", "closure"); st.mem[b] = {}; st.own.add(b); av.append(("p", b, 0))
    for i, t in enumerate(ps):
        if i in given: av.append(given[i]); continue
        nm = names[i] if names and i < len(names) else "p%d" % i
        if "pybind11::array" in t:
            b = ("obj", "np%d" % i); st.mem[b] = {0: (8, OBJ(("np",)))}; st.own.add(b); av.append(("p", b, 0))
        elif "pybind11::" in t:
            b = ("obj", "py%d" % i); st.mem[b] = {0: (8, OBJ(("parg", nm)))}; st.own.add(b); av.append(("p", b, 0))
        elif t.endswith("&") or t.endswith("*") or "string" in t or "vector<" in t:
            b = ("obj", nm if "string" not in t else "s:" + nm)
            if "string" in t and "vector" not in t: st.mem[b] = {0: (32, ("S", (("arg", nm),)))}; st.own.add(b)
            av.append(("p", b, 0))
        elif t == "bool": av.append(sym(nm, 0, 1))
        else: av.append(sym(nm, *I32))
    return f, av, ps
def run(prog, m, R, lam, names=None, given=None, entry=""):
    st = St(); eng = Engine(prog, models, [Ev()], budget=0, repo=REPO); eng.extra = R.extra; eng.path_sens = True; eng.entry = entry
    f, av, ps = args_for(prog, m, lam, names, st, eng, given)
    outs = eng.run(f, av, st, 0)
    return outs, eng, av, ps

def line_of(prog, m):
    for x in fn_locs(prog.fn[m]):
        if x[0].startswith(REPO): return "%s:%d" % (os.path.relpath(x[0], REPO), x[1])
    return "?"
class Table:
    """classes -> methods as registered"""
    def __init__(self, prog, evs):
        self.prog = prog; self.evs = evs; self.cls = {}; self.meth = {}; self.init = {}; self.mdef = {}; self.enum = {}; self.attr = {}; self.idx = lambda_index(prog)
        for e in evs:
            if e[0] == "class": self.cls[cls_norm(e[1])] = e[2]; (self.enum.setdefault(cls_norm(e[1]), {}) if e[3] else None)
            elif e[0] in ("def", "static"): self.meth.setdefault(cls_norm(e[1]), {}).setdefault(e[2], []).append(e)
            elif e[0] in ("init", "factory"): self.init.setdefault(cls_norm(e[1]), []).append(e)
            elif e[0] == "mdef": self.mdef.setdefault(e[1], []).append(e)
            elif e[0] == "value": self.enum.setdefault(cls_norm(e[1]), {})[e[2]] = e[3]
            elif e[0] == "set" and e[1][0] == "attr": self.attr[e[1][2]] = e[2]
        self.codes = {}
        for c, v in self.enum.items(): self.codes.update(v)
    def fn(self, e): return target(self.prog, e, self.idx)
    def is_lambda(self, e): return (e[4] if e[0] in ("def", "static") else e[3]) is None
    def arity(self, e):
        """number of Python arguments, self included for methods"""
        if e[0] == "init": return len(e[2])
        if e[0] == "factory": return None
        m = self.fn(e)
        if m is None: return None
        F = e[3] if e[0] in ("def", "static") else e[2]
        x = pmf(F)
        if x: return 1 + len([y for y in x[1] if y.strip() and y != "void"])
        return len(split_sig(self.prog, m)[1])
    def kws(self, e):
        x = e[6 - 1] if e[0] in ("def", "static") else e[3] if e[0] == "init" else e[4]
        return [y[1] for y in x if y[0] == "arg"], [y for y in x if y[0] == "arg"]

def load(work):
    prog = Program(compile_units(work)); evs, eng, R = registrations(prog)
    if len(evs) != 1: raise Broken("module initialiser has %d outcomes" % len(evs))
    ev = evs[0].ts.get(("g:ev",), ())
    return prog, Table(prog, ev), eng

# ---------------------------------------------------------------- C21
class Checker:
    def __init__(self, prop, prog, T): self.prop = prop; self.prog = prog; self.T = T; self.reports = []; self.n = {}; self.fns = set(); self.ins = 0; self._r = set()
    def cnt(self, k, n=1): self.n[k] = self.n.get(k, 0) + n
    def rep(self, msg, where, entry="", tr=()):
        if (msg, where) in self._r: return
        self._r.add((msg, where)); self.reports.append({"rule": self.prop, "message": msg, "where": where, "path": "", "entry": entry, "trace": list(tr)})
    def go(self, m, R, lam, **kw):
        r = run(self.prog, m, R, lam, **kw); self.ins += r[1].stats["instructions"]; self.fns.update(self.prog.short(g)[0] for g in r[1].stats["functions"]); return r
    def nat(self, s): return s.ts.get(("g:nat",), ())
    def ev(self, s): return s.ts.get(("g:ev",), ())
    def calls(self, s): return [x[1] for x in self.ev(s) if x[0] == "call"]

def method_names(prog, cls):
    """names of the native member functions of a class (as far as the units mention them)"""
    b = cls.split("<")[0]
    out = {"getNRows", "getNCols", "getNClients", "close", "dataSemAcquire", "dataSemRelease", "getScalarType", "getNamespace", "getBasename", "read", "write"} if b in ("EigenIPC::Server", "EigenIPC::Client") else set()
    out |= {"EigenIPC::Server": {"run", "stop", "isRunning"}, "EigenIPC::Client": {"attach", "detach"}}.get(b, set())
    if b == "EigenIPC::Client": out.discard("getNClients")
    for m, d in prog.dem.items():
        sh = prog.short(m)[0]
        if sh.startswith(b + "::"): out.add(sh.rsplit("::", 1)[1])
    return out

def transfers(ck, cls, py, e, sc, lay):
    """read / write of a typed class with a NumPy array"""
    T = ck.T; m = T.fn(e); w = "PyEigenIPC %s.%s" % (T.cls.get(cls, cls), py); where = line_of(ck.prog, m) if m in ck.prog.fn else e[6]
    if m not in ck.prog.fn or not T.is_lambda(e): ck.rep("%s is not bound to a function taking a NumPy array" % w, e[6]); return
    es = NT[sc][1]; rl = "RowMajor" if lay else "ColMajor"
    kinds = [None] + ([(r, 0) for r in sorted({1, es // 2, es - 1})] + [(0, r) for r in sorted({1, es // 2, es - 1})] if es > 1 else [])
    if py == "read":
        ps = split_sig(ck.prog, m)[1]; kw, ex = T.kws(e); ai = next((i for i, p in enumerate(ps) if "array" in p), None)
        nc = ai is not None and 0 <= ai - 1 < len(ex) and ex[ai - 1][2] == 1
        plain = ai is not None and "array_t<" not in ps[ai]          # an untyped array argument is never converted by pybind11
        ck.cnt("array arguments of read")
        if not (nc or plain): ck.rep("%s may fill a converted copy of the array instead of the caller's array" % w, e[6])
    for k in kinds:
        R = Bound(ck.prog, T.codes, es=es, k=k); outs, eng, av, ps = ck.go(m, R, True, entry=w)
        ints = [a for a, t in zip(av[len(av) - len(ps):], ps) if t == "int"]
        s0, s1 = R.dim("strides", 0), R.dim("strides", 1)
        good = [c_eq(psub(sym("ndim", 0, 32), 2)), c_ge(psub(s0, s1) if lay else psub(s1, s0)), c_ge(s0), c_ge(s1)] + ([c_eq(sym("readonly", 0, 1))] if py == "read" else [])
        def valid(s):
            if k is not None: return False
            u = s.fork(); return all(u.assume(c) for c in good) and u.feasible()
        if not outs: ck.rep("%s never returns" % w, where)
        for kind, s, v in outs:
            ck.cnt("transfer outcomes"); nat = [x for x in ck.nat(s) if x[1] in ("read", "write")]; tr = s.trace_list()
            if len(ck.nat(s)) != len(nat): ck.rep("%s calls other native functions than %s" % (w, py), where, "", tr)
            if kind == "exc":
                if nat: ck.rep("%s may throw after the transfer" % w, where, "", tr)
                elif valid(s): ck.rep("%s may throw for a two-dimensional %s array" % (w, rl), s.ts.get(("g:at",), where), "", tr)
                continue
            if not nat:
                if v != 0 : ck.rep("%s may report success without a transfer" % w, where, "", tr)
                if valid(s): ck.rep("%s may refuse a two-dimensional %s array" % (w, rl), where, "", tr)
                continue
            if len(nat) > 1: ck.rep("%s transfers more than once" % w, where, "", tr); continue
            c, meth, args, res, self_, nps, at = nat[0]
            if meth != py: ck.rep("%s calls %s" % (w, meth), at, "", tr); continue
            if k is not None: ck.rep("%s transfers an array whose strides are not multiples of the element size" % w, at, "", tr); continue
            if not isp(self_) or self_[1] != ("obj", "p0"): ck.rep("%s works on another object" % w, at, "", tr)
            ck.cnt("transfers compared")
            if s.decide(c_eq(psub(sym("ndim", 0, 32), 2))) != 1: ck.rep("%s may transfer an array which is not two-dimensional" % w, at, "", tr)
            if not s.prove(psub(s0, s1) if lay else psub(s1, s0)): ck.rep("%s may transfer an array of the other layout" % w, at, "", tr)
            d = dict(args[0][1:]) if args and args[0][0] == "view" else None
            if not d or not isp(d.get("data")): ck.rep("%s hands over something else than a view of the array" % w, at, "", tr); continue
            if d["data"][1] != ("arr",): ck.rep("%s works on other memory than the array's" % w, at, "", tr)
            elif d["data"][2] != 0: ck.rep("%s does not start at the array's first element" % w, at, "", tr)
            if d["es"] != es: ck.rep("%s uses elements of another size" % w, at, "", tr)
            if d["rows"] != R.dim("shape", 0) or d["cols"] != R.dim("shape", 1): ck.rep("%s transfers another shape than the array's" % w, at, "", tr)
            ri, ci = (d["outer"], d["inner"]) if d["rm"] else (d["inner"], d["outer"])
            for x, y, word in ((ri, s0, "rows"), (ci, s1, "columns")):
                if pmul(x, es) != y: ck.rep("%s steps between %s by another distance than the array's stride" % (w, word), at, "", tr)
            if len(args) < 3 or len(ints) < 2 or args[1] != ints[0] or args[2] != ints[1]: ck.rep("%s does not pass row and column on in order" % w, at, "", tr)
            if v != res: ck.rep("%s does not return the result of the transfer" % w, where, "", tr)
            if py == "read" and not s.ts.get(("g:writable",)) and s.decide(c_eq(sym("readonly", 0, 1))) != 1: ck.rep("%s may store into an array which is not writable" % w, at, "", tr)

def forwards(ck, cls, py, e):
    """any other method of a native class: one call of the operation of that name, arguments in order, result returned"""
    T = ck.T; m = T.fn(e); w = "PyEigenIPC %s.%s" % (T.cls.get(cls, cls), py); want = NAMES.get(py, py)
    b = cls.split("<")[0]
    if not T.is_lambda(e):
        sh = ck.prog.short(m)[0]; ck.cnt("methods bound directly")
        mine = sh.split("::")[-1]; own = sh.rsplit("::", 1)[0]
        if (b, py) in ALIAS: ck.cnt("aliases"); bad = mine not in ALIAS[b, py]
        else: bad = mine != want and (want in method_names(ck.prog, cls) or py in NAMES)
        if own == b and bad: ck.rep("%s is bound to %s" % (w, mine), e[6])
        return
    if py == "get_raw_buffer" or m not in ck.prog.fn: return
    lists = (0, 1, 3) if py == "read_vec" else (None,)
    for n in lists:
        R = Bound(ck.prog, T.codes); R.nlist = n; outs, eng, av, ps = ck.go(m, R, True, entry=w); where = line_of(ck.prog, m)
        par = av[len(av) - len(ps):][1:]; pt = ps[1:]
        for kind, s, v in outs:
            ck.cnt("outcomes of bound functions"); nat = ck.nat(s); tr = s.trace_list()
            if kind == "exc":
                if not nat: ck.rep("%s may throw without calling %s" % (w, want), where, "", tr)
                continue
            if py == "read_vec" and n == 0: continue                 # an empty list: nothing to read
            if len(nat) != 1 or nat[0][1] not in ALIAS.get((b, py), (want,)):
                ck.rep("%s calls %s instead of %s once" % (w, ", ".join(x[1] for x in nat) or "nothing", want), where, "", tr); continue
            c, meth, args, res, self_, nps, at = nat[0]
            if not isp(self_) or self_[1] != ("obj", "p0"): ck.rep("%s works on another object" % w, at, "", tr)
            a = [x for x in args if not (type(x) is tuple and x and x[0] in ("s", "at", "view"))]
            p = [x for x, t in zip(par, pt) if t in ("int", "bool", "double")]
            if a != p: ck.rep("%s does not pass its arguments on in order" % w, at, "", tr)
            if py == "read_vec":
                ins = s.ts.get(("g:vec",))
                if ins is None or len(ins) != n: ck.rep("%s reads another number of strings than the list holds" % w, at, "", tr)
                e2 = [x for x in ck.ev(s)]; lt = ("parg", "p1")
                seq = [("clear" if x[0] == "call" else x[2]) for x in e2 if x[0] == "append" and x[1] == lt or x[0] == "call" and x[1][1] == ("attr", lt, "clear")]
                ok = seq == ["clear"] + [("s", (("out", i),)) for i in range(n)] or item_sets(ck, s, lt, n)
                if not ok: ck.rep("%s does not leave the strings read, in order, in the list" % w, where, "", tr)
                if v != res: ck.rep("%s does not return the result of the read" % w, where, "", tr)
            elif py == "read_str":
                cells = dict(s.mem.get(("obj", "sret"), {})); vals = [x[1] for k, x in cells.items() if type(k) is int]
                strs = [x[1] for x in vals if isS(x)]; oth = [x for x in vals if not isS(x)]
                if ("out", 0) not in [y for x in strs for y in x]: ck.rep("%s does not return the string read" % w, where, "", tr)
                if not any(x == res or x == b2i(res) for x in oth): ck.rep("%s does not return the result of the read" % w, where, "", tr)
            elif v is not None and res is not None and v != res: ck.rep("%s does not return the result of %s" % (w, want), where, "", tr)
def item_sets(ck, s, lt, n): return False

def wrappers(ck, cls):
    """methods of the run-time typed wrappers: forwarded to the wrapped object"""
    T = ck.T
    for py, es_ in sorted(T.meth.get(cls, {}).items()):
        for e in es_:
            m = T.fn(e); w = "PyEigenIPC %s.%s" % (T.cls[cls], py)
            if m not in ck.prog.fn: continue
            where = line_of(ck.prog, m); D = {v: k for k, v in T.enum["EigenIPC::DType"].items()}
            arr = any("pybind11::array" in p for p in split_sig(ck.prog, m)[1])
            combos = [(c, a) for c in list(D) for a in ("bool", "int", "float", "double", "long")] if arr else [(None, None)]
            for code, a in combos:
                R = Bound(ck.prog, T.codes, dtcode=code, arrdt=a); outs, eng, av, ps = ck.go(m, R, T.is_lambda(e), entry=w)
                par = av[len(av) - len(ps):]
                same = not arr or NT.get(a, ("?",))[0] == D[code]
                what = "%s with a %s array on a %s tensor" % (w, a, D[code]) if arr else w
                if not outs: ck.rep("%s never returns" % what, where)
                for kind, s, v in outs:
                    ck.cnt("wrapper outcomes"); cs = [t for t in ck.calls(s) if t[1][0] == "attr"]; tr = s.trace_list()
                    main = [t for t in cs if not (arr and t[1][2] in ("getScalarType", "getNRows", "getNCols", "isRunning"))]
                    if arr and not same:
                        if [t for t in main if t[1][2] in ("read", "write")]: ck.rep("%s transfers although the element types differ" % what, where, "", tr)
                        elif kind != "exc": ck.rep("%s returns instead of raising" % what, where, "", tr)
                        continue
                    if kind == "exc": ck.rep("%s may raise" % what, s.ts.get(("g:at",), where), "", tr); continue
                    if [t[1][2] for t in main] != [py]:
                        ck.rep("%s calls %s of the wrapped object instead of %s once" % (w, ", ".join(str(t[1][2]) for t in main) or "nothing", py), where, "", tr); continue
                    t = main[0]; ck.cnt("forwarded calls")
                    if not (t[1][1][0] == "in" and isp(t[1][1][1]) and "p0" in str(t[1][1][1])): ck.rep("%s calls another object than the wrapped one" % w, where, "", tr)
                    want = tuple(("np",) if "array" in y else ("parg", "p%d" % i) if "pybind11" in y else x for i, (x, y) in enumerate(zip(par, ps)))[1:]
                    if t[2] != want: ck.rep("%s does not pass its arguments on in order" % w, where, "", tr)
                    if not returns(ck, s, v, t, m): ck.rep("%s does not return the result of the wrapped object" % w, where, "", tr)
def returns(ck, s, v, t, m):
    if v == ("C", "op", "val", t) or v == sym("val:%r" % (t,), *I32): return True
    c = s.mem.get(("obj", "sret"))
    if c is not None:
        for k, x in dict(c).items():
            if type(k) is not int: continue
            if isS(x[1]) and x[1][1] == (("arg", t),): return True
            if isp(x[1]) and x[1][1] == ("py", t): return True
        return False
    if isp(v) and v[1] == ("py", t): return True
    return v is None
def c21(ck):
    T = ck.T
    for cls, ms in sorted(T.meth.items()):
        x = CLS.match(cls)
        if x:
            for py, es_ in sorted(ms.items()):
                for e in es_:
                    if py in ("read", "write"): transfers(ck, cls, py, e, x.group(2), int(x.group(3)))
                    else: forwards(ck, cls, py, e)
        elif cls.endswith("Wrapper"): wrappers(ck, cls)
        elif cls.startswith(("EigenIPC::StringTensor", "EigenIPC::Producer", "EigenIPC::Consumer")):
            for py, es_ in sorted(ms.items()):
                for e in es_: forwards(ck, cls, py, e)

# ---------------------------------------------------------------- C20
FACT = {"ServerFactory": ("nrows", "ncols", "basename", "namespace", "verbose", "vlevel", "safe", "forcereconnection", "dtype", "layout"),
        "ClientFactory": ("basename", "namespace", "verbose", "vlevel", "safe", "dtype", "layout")}
def txt_is(v, nm):
    """string argument built from the parameter nm and constants only"""
    if not (type(v) is tuple and v and v[0] == "s"): return False
    a = [x for x in v[1] if type(x) is tuple and x[0] == "arg"]
    return a == [("arg", nm)] and all(type(x) is str or x == ("arg", nm) for x in v[1])
def txt_same(v, nm): return type(v) is tuple and v and v[0] == "s" and tuple(v[1]) == (("arg", nm),)
def ctor_args(ck, nat, given, w, exact=True, skip=()):
    """every parameter of the constructed endpoint receives the value of the same meaning; given: role -> (name, value)"""
    c, meth, args, res, self_, nps, at = nat
    k = "Server" if c.startswith("EigenIPC::Server") else "Client"
    roles = CTOR[k]
    if len(args) != len(roles): ck.cnt("constructors with an unknown parameter list"); return
    for r, a in zip(roles, args):
        if r in skip: continue
        if r not in given: continue
        nm, v = given[r]; ck.cnt("constructor arguments compared")
        if r in ("basename", "namespace"):
            ok = txt_same(a, nm) if exact else txt_is(a, nm)
            if not ok: ck.rep("%s: the %s of the endpoint is not the one given" % (w, r), at)
        elif a != v: ck.rep("%s: the endpoint's %s is not the value given for it" % (w, r), at)
def factories(ck):
    T = ck.T; prog = ck.prog
    DT = T.enum.get("EigenIPC::DType", {}); LAY = {k: v for k, v in T.attr.items() if k in ("RowMajor", "ColMajor") and type(v) is int}
    for k, v in (("RowMajor", 1), ("ColMajor", 0)):
        if k in LAY and LAY[k] != v: ck.rep("the module attribute %s denotes the other storage order" % k, "EigenIPC/bindings/PyEigenIPC/PyEigenIPC.cpp")
    for fn, order in FACT.items():
        for e in T.mdef.get(fn, []):
            m = T.fn(e)
            if m not in prog.fn: ck.cnt("factories not resolved"); continue
            kws, ex = T.kws(e); ps = split_sig(prog, m)[1]; where = line_of(prog, m); end = fn[:6]
            if len(kws) == len(ps): roles = [role(k) for k in kws]
            elif len(ps) == len(order): roles = list(order)
            else: ck.cnt("factories with an unknown parameter list"); continue
            if sorted(roles) != sorted(order) : ck.cnt("factories with unknown keywords"); continue
            di, li = roles.index("dtype"), roles.index("layout")
            combos = [(d, l) for d in list(DT) + [None] for l in list(LAY) + [None]]
            for d, l in combos:
                R = Bound(prog, T.codes); dv = DT.get(d, 99); lv = LAY.get(l, 7)
                outs, eng, av, ps = ck.go(m, R, T.is_lambda(e), names=roles, given={di: dv, li: lv}, entry=fn)
                w = "%s(dtype %s, layout %s)" % (fn, d or "unknown", l or "unknown")
                par = av[len(av) - len(ps):]; given = {r: (r, v) for r, v in zip(roles, par)}
                if not outs: ck.rep("%s never returns" % w, where)
                for kind, s, v in outs:
                    ck.cnt("factory outcomes"); nat = [x for x in ck.nat(s) if x[1] == "ctor"]
                    if d is None or l is None:
                        if kind != "exc": ck.rep("%s does not raise" % w, where)
                        if nat: ck.rep("%s constructs an endpoint" % w, nat[0][6])
                        continue
                    if kind == "exc": ck.rep("%s may raise" % w, s.ts.get(("g:at",), where)); continue
                    if len(nat) != 1: ck.rep("%s constructs %d endpoints" % (w, len(nat)), where); continue
                    cpp = next((c for c, (nm, z) in NT.items() if nm == d), None); want = "EigenIPC::%s<%s, %d>" % (end, cpp, lv)
                    ck.cnt("endpoints compared")
                    if nat[0][0] != want: ck.rep("%s constructs a %s" % (w, nat[0][0].replace("EigenIPC::", "")), nat[0][6]); continue
                    ctor_args(ck, nat[0], given, "%s" % fn)
def inits(ck):
    T = ck.T
    for cls, order in INIT.items():
        for e in T.init.get(cls, []):
            kws, ex = T.kws(e); ck.cnt("constructor bindings")
            if kws and len(kws) == len(e[2]) == len(order):
                for i, k in enumerate(kws):
                    ck.cnt("constructor keywords compared")
                    if role(k) in order and role(k) != order[i]: ck.rep("the keyword %s of %s binds the constructor's parameter for %s" % (k, T.cls.get(cls, cls), order[i]), "EigenIPC/bindings/PyEigenIPC/src")
def conversions(ck):
    T = ck.T; prog = ck.prog; DT = T.enum.get("EigenIPC::DType", {})
    for e in T.mdef.get("toNumpyDType", []):
        m = T.fn(e)
        if m not in prog.fn: continue
        where = line_of(prog, m)
        for d in list(DT) + [None]:
            R = Bound(prog, T.codes); outs, eng, av, ps = ck.go(m, R, T.is_lambda(e), given={0: DT.get(d, 99)}, entry="toNumpyDType")
            for kind, s, v in outs:
                ck.cnt("conversions")
                if d is None:
                    if kind != "exc": ck.rep("toNumpyDType does not raise for an unknown type", where)
                    continue
                if kind == "exc": ck.rep("toNumpyDType may raise for %s" % d, where); continue
                cpp = next((c for c, (nm, z) in NT.items() if nm == d), None); want = ("py", ("dt", cpp))
                x = s.mem.get(("obj", "sret")); got = v[1] if isp(v) else dict(x).get(0, (0, None))[1] if x is not None else None
                got = got[1] if isp(got) else got
                if got != want: ck.rep("toNumpyDType maps %s to another type than %s" % (d, cpp), where)
PROBE = """#include <EigenIPC/DTypes.hpp>
#include <EigenIPC/Journal.hpp>
using namespace EigenIPC;
"""
def probes(ck, work):
    """the enumerators and the codes of the element types, as the compiler sees them"""
    T = ck.T; o = [PROBE]
    for t in NT: o.append("__attribute__((used)) int t_%s() { return (int)CppTypeToDType<%s>::value; }" % (t, t))
    for c, vs in T.enum.items():
        for k in vs: o.append("__attribute__((used)) long e_%s_%s() { return (long)%s::%s; }" % (c.split("::")[-1], k, c, k))
    src = work + "/probe.cpp"; open(src, "w").write("\n".join(o) + "\n")
    try: p = Program([compile_ir(src, work + "/probe.ll")])
    except Broken: ck.cnt("probes not compiled"); return
    val = {}
    for m, d in p.dem.items():
        x = re.match(r"([te])_(\w+)\(\)$", d)
        if not x or m not in p.fn: continue
        st = St(); R = Bound(p, T.codes); eng = Engine(p, models, [Ev()], budget=0, repo=REPO); eng.extra = R.extra; eng.path_sens = True
        outs = eng.run(p.fn[m].parse(), [], st, 0)
        for kind, s, v in outs: val[x.group(1), x.group(2)] = v
    for t, (nm, z) in NT.items():
        a, b = val.get(("t", t)), val.get(("e", "DType_" + nm))
        if type(a) is int and type(b) is int:
            ck.cnt("type codes compared")
            if a != b: ck.rep("the type code of %s is not DType::%s" % (t, nm), "EigenIPC/include/EigenIPC/DTypes.hpp")
    for c, vs in T.enum.items():
        for k, v in vs.items():
            b = val.get(("e", "%s_%s" % (c.split("::")[-1], k)))
            if type(b) is int and type(v) is int:
                ck.cnt("enumerators compared")
                if b != v: ck.rep("the Python enumerator %s.%s denotes another value than %s::%s" % (T.cls[c], k, c, k), "EigenIPC/bindings/PyEigenIPC/PyEigenIPC.cpp")
class Native(Bound):
    def native(self, eng, name, short, ps, d):
        if re.match(r"EigenIPC::(StringTensor|Producer|Consumer)::", short): return None
        return Bound.native(self, eng, name, short, ps, d)
def forwarding(a):
    """constructors of string tensors, producers and consumers hand their arguments on to the endpoints they contain"""
    ll, cls, T = a
    def go():
        p = Program([ll]); ck = Checker("C20", p, T); order = INIT[cls]; b = cls.split("<")[0]; done = set()
        for m, d in p.dem.items():
            if m not in p.fn or ck.prog.short(m)[0] != b + "::" + b.split("::")[-1]: continue
            if "<" in cls and "EigenIPC::StringTensor<%s>::" % cls[cls.index("<") + 1:-1] not in d.replace("> >", ">>"): continue
            ps = split_sig(p, m)[1]
            if len(ps) != len(order) or d in done: continue
            done.add(d); st = St(); R = Native(p, T.codes); eng = Engine(p, models, [Ev()], budget=0, repo=REPO); eng.extra = R.extra; eng.path_sens = True
            f = p.fn[m]; f.parse(); me = ("obj", "self"); av = args_for(p, m, False, list(order), st, eng)[1]
            outs = eng.run(f, [("p", me, 0)] + av, st, 0); ck.ins += eng.stats["instructions"]; ck.fns.update(p.short(g)[0] for g in eng.stats["functions"])
            given = {r: (r, v) for r, v in zip(order, av)}; where = line_of(p, m); w = "constructor of %s" % T.cls.get(cls, b)
            if "length" in given: given["ncols"] = given["length"]
            for kind, s, v in outs:
                ck.cnt("constructor outcomes"); nat = [x for x in ck.nat(s) if x[1] == "ctor"]
                if kind == "exc": continue
                if not nat: ck.rep("%s creates no endpoint" % w, where)
                for x in nat: ctor_args(ck, x, given, w, exact=False, skip=("safe",) if "safe" not in order else ())
        return ck.reports, ck.n, ck.fns, ck.ins
    return big(go)
def c20(ck, work=None, units=None):
    factories(ck); inits(ck); conversions(ck)
    if work: probes(ck, work)

def check(prop, tier, work):
    os.makedirs(work + "/b", exist_ok=True)
    mods = compile_units(work + "/b"); prog = Program(mods)
    extra = {}
    if prop == "C20": extra = dict(zip(("StringTensor", "Producer", "Consumer"), parallel([(unit, u, work) for u in ("StringTensor", "Producer", "Consumer")])))
    def go():
        evs, eng, R = registrations(prog)
        if len(evs) != 1: raise Broken("module initialiser has %d outcomes" % len(evs))
        T = Table(prog, evs[0].ts.get(("g:ev",), ())); ck = Checker(prop, prog, T)
        ck.cnt("registrations", len(T.evs))
        if prop == "C20": c20(ck, work)
        else: c21(ck)
        return ck
    ck = big(go)
    if prop == "C20":
        jobs = [(extra[c.split("::")[1].split("<")[0]], c, ck.T) for c in INIT if c in ck.T.init]
        for r, n, f, i in fork_map(forwarding, jobs):
            ck.reports += r; ck.fns |= f; ck.ins += i
            for k, v in n.items(): ck.cnt(k, v)
    return {"reports": ck.reports, "counts": ck.n, "functions": sorted(f for f in ck.fns if "EigenIPC" in f), "opaque": [], "numbers": {"instructions": ck.ins}}
