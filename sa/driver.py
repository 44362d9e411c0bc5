"""Compilation of the analysed units and history closures over public entry points."""
import os, re, subprocess, sys, threading
from . import ir, interp, models
from .interp import *
from .terms import *

REPO = os.environ.get("SA_REPO", "/repo")
CORE = ["-DIS_RELEASE=1", "-DLIBRARY_NAME=EigenIPC", "-DWITH_PYTHON", "-DEIGEN_DONT_VECTORIZE", "-DNDEBUG", "-std=gnu++17", "-fPIC"]
def inc(*extra):
    b = REPO + "/EigenIPC"
    r = ["-I" + b + "/src", "-I" + b + "/include", "-isystem", "/usr/include/eigen3"]
    return r + list(extra)
def pyinc():
    b = REPO + "/EigenIPC/bindings/PyEigenIPC"
    return ["-I" + b, "-I" + b + "/include", "-I" + b + "/src", "-isystem", "/usr/include/python3.12", "-DWITH_ROS_BRIDGE"]
class Broken(Exception): pass
KEEP = re.compile(r"^(boost::date_time::(microsec_clock|second_clock)|boost::interprocess::ipcdetail::microsec_clock|std::chrono::_V2|std::__cxx11::basic_string::|std::operator|std::to_string|std::__cxx11::to_string|std::runtime_error|std::logic_error|std::this_thread|std::mutex|std::condition_variable|std::unordered_|std::vector|std::_Hashtable|std::map|std::function|Eigen::internal::call_dense_assignment_loop|Eigen::internal::throw_std_bad_alloc|Eigen::internal::(aligned|conditional_aligned|handmade)|Eigen::PlainObjectBase|Eigen::DenseStorage)")
DEF = re.compile(r'^define [^@]*@("[^"]+"|[\w$.-]+)\(', re.M)
def compile_ir(src, out, extra=(), g="-g"):
    """clang's unoptimised IR, with the header-only helpers of Eigen/std inlined and locals promoted to registers"""
    raw = out + ".raw"
    cmd = ["clang++", *CORE, *inc(*extra), "-O1", g, "-fno-discard-value-names", "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm", "-w", src, "-o", raw]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise Broken("cannot compile %s:\n%s" % (src, r.stderr[-3000:]))
    txt = open(raw, encoding="utf-8", errors="surrogateescape").read()
    names = [m.group(1).strip('"') for m in DEF.finditer(txt)]
    dem = ir.demangle(names)
    ai = set()
    for n in names:
        sh = split_name(dem.get(n, n))[0]
        if sh.startswith(("Eigen::", "std::", "__gnu_cxx::", "boost::posix_time::", "boost::date_time::", "boost::gregorian::")) and not KEEP.match(sh) and "main" != n: ai.add(n)
    lines = txt.split("\n")
    noin = {m.group(1) for m in re.finditer(r"^attributes (#\d+) = \{[^}]*\bnoinline\b", txt, re.M)}
    for i, l in enumerate(lines):
        if l.startswith("define "):
            m = DEF.match(l)
            if m and m.group(1).strip('"') in ai:
                k = l.rfind("#")
                j = l.find(" ", k) if k > 0 else -1
                if j > 0 and l[k:j] not in noin: lines[i] = l[:j] + " alwaysinline" + l[j:]
    open(raw, "w", encoding="utf-8", errors="surrogateescape").write("\n".join(lines))
    r = subprocess.run(["opt", "-S", "-passes=always-inline,function(sroa,instsimplify)", raw, "-o", out], capture_output=True, text=True)
    if r.returncode: raise Broken("opt: " + r.stderr[-2000:])
    os.unlink(raw)
    return out
def unit(name, work):
    return compile_ir("%s/EigenIPC/src/%s.cpp" % (REPO, name), "%s/%s.ll" % (work, name))

def big(fn, *a):
    """run fn with a deep stack"""
    threading.stack_size(512 << 20); sys.setrecursionlimit(200000)
    box = {}
    def go():
        try: box["r"] = fn(*a)
        except BaseException as e:
            import traceback; box["e"] = e; box["t"] = traceback.format_exc()
    t = threading.Thread(target=go); t.start(); t.join()
    if "e" in box:
        sys.stderr.write(box["t"]); raise box["e"]
    return box["r"]

class Entry:
    """a public member function"""
    __slots__ = ("name", "short", "params", "f", "ident")
    def __init__(self, name, short, params, f): self.name = name; self.short = short; self.params = params; self.f = f; self.ident = short.split("::")[-1]

def class_entries(prog, cls):
    """public constructors, destructor and methods of a class given as in demangled names, e.g. EigenIPC::Server<double, 0>"""
    acc = {}
    for m in prog.mods: acc.update(m.access_flags())
    ctors, dtor, methods = [], None, []
    for n, d in prog.dem.items():
        if n not in prog.fn: continue
        i = d.find(cls + "::")
        if i < 0 or (i > 0 and d[i-1] not in " *&"): continue
        if "::" in re.sub(r"\(.*", "", strip_templates(d[i + len(cls) + 2:])): continue
        if "{lambda" in d or "'lambda" in d or "::$_" in d: continue
        short, ps = prog.short(n)
        if ps is None or not short.startswith(strip_templates(cls) + "::"): continue
        meth = short.split("::")[-1]; base = short.split("::")[-2]
        e = Entry(n, short, ps, prog.fn[n])
        if meth == base:
            if re.search(r"C2E", n) : ctors.append(e)
            continue
        if meth == "~" + base:
            if "D2E" in n: dtor = e
            continue
        a = acc.get(n)
        if a and a[0] in ("private", "protected"): continue
        if a is None and meth.startswith("_"): continue
        methods.append(e)
    ctors = [c for c in ctors if not any(cls.split("<")[0] + "<" in p and "&" in p for p in c.params) or True]
    methods.sort(key=lambda e: e.name)
    return ctors, dtor, methods

def sym(name, lo=None, hi=None):
    return atom(("sym", name) if lo is None else ("sym", name, lo, hi))
I32 = (-(1 << 31), (1 << 31) - 1)
def bool_arg(name): return ("C", "op", "arg", name)

def make_args(eng, st, e, this=None, given=None, pfx=""):
    """symbolic arguments for an entry; given: {position: value}"""
    f = e.f; f.parse()
    av = []; k = 0
    ps = list(e.params); fp = list(f.params)
    if fp and "sret" in fp[0][2]:
        b = ("obj", pfx + "sret"); st.mem[b] = {}; st.own.add(b); av.append(("p", b, 0)); fp = fp[1:]
    if this is not None:
        av.append(this); fp = fp[1:]
    names = {}
    fpi = 0
    for i, t in enumerate(ps):
        if fpi >= len(fp): break
        ty, n, info = fp[fpi]; fpi += 1
        k = names[t] = names.get(t, -1) + 1
        nm = "%sarg%d" % (pfx, i)
        if given and i in given:
            g = given[i]
            if isS(g):
                b = ("obj", nm); st.mem[b] = {0: (32, g)}; st.own.add(b); g = ("p", b, 0)
            av.append(g); continue
        if "VLevel" in t and ty[0] == "i": av.append(sym(nm + ":vlevel", 0, 3)); continue
        if ty == ("i", 1) or t == "bool": av.append(bool_arg(nm)); continue
        if ty[0] == "i":
            lo, hi = (0, 255) if ty[1] == 8 else I32 if ty[1] == 32 else (None, None)
            if t.startswith("unsigned") and ty[1] == 32: lo, hi = 0, (1 << 32) - 1
            elif t.startswith("unsigned") and ty[1] == 64: av.append(atom(("zx", 64, sym(nm)))); continue
            av.append(sym(nm) if lo is None else sym(nm, lo, hi)); continue
        if ty[0] == "f": av.append(atom(("farg", nm))); continue
        b = ("obj", nm)
        if "basic_string" in t and "vector" not in t:
            st.mem[b] = {0: (32, ("S", (("arg", nm),)))}; st.own.add(b)
        elif "Eigen::" in t and ("Ref<" in t or "Map<" in t or "Matrix<" in t):
            for o in (8, 16):
                x = atom(("init", b, o, 8)); st.assume(c_ge(x)); st.assume(c_ge(psub(EXT, x)))
        av.append(("p", b, 0))
    return av

TRANSIENT = ("fault", "failed", "busy", "woken", "pred", "timedout")
def rest(eng, st, keep):
    """normalise a state between two calls: keep only long-lived objects and the facts about what they contain"""
    s = st.fork()
    s.regs = {}; s.exc = None; s.caught = (); s.trace = None
    for k in [k for k in s.ts if k[0] == "failed" and k[1] == "sem_post"]: s.ts.pop(("hold", k[2]), None)
    for k in [k for k in s.ts if k[0] in TRANSIENT or k[0].startswith("g:")]: del s.ts[k]
    # reachable objects
    seen = set(keep); work = list(keep)
    while work:
        d = s.mem.get(work.pop())
        if not d: continue
        for o, c in d.items():
            if type(o) is int and isp(c[1]) and c[1][1] not in seen:
                seen.add(c[1][1]); work.append(c[1][1])
    for b in [b for b in s.mem if b not in seen and b[0] != "g"]: del s.mem[b]
    live = set()
    for b, d in s.mem.items():
        if b[0] == "g": continue
        for o, c in d.items():
            if type(o) is int: deep_atoms(c[1], live)
    for k, v in s.ts.items():
        deep_atoms(k, live); deep_atoms(v, live)
    s.facts = {f: 1 for f in s.facts if arg_only(f) or deep_atoms(f) and deep_atoms(f) <= live}
    s.iv = {L: r for L, r in s.iv.items() if deep_atoms(L) <= live}
    return s
def arg_only(f):
    """opaque conditions over constructor arguments"""
    return f[1] in ("op", "nop") and f[2] == "arg" and str(f[3]).startswith("c:")

class Closure:
    """abstract object states reachable by any sequence of entries"""
    def __init__(self, eng, keep, cap=400):
        self.eng = eng; self.keep = keep; self.states = {}; self.work = []; self.cap = cap; self.visits = {}
    def add(self, st, extra=()):
        s = rest(self.eng, st, self.keep)
        k = (self.eng.sig(s, None, None, self.keep, (1, 4), None, None), extra)
        if k in self.states:
            self.visits[k] = n = self.visits.get(k, 0) + 1
            old = self.states[k]
            j, ch = self.eng.join(old, s, 0, "rest", widen=n > 3)
            canon = getattr(self.eng, "canon", None)
            if canon:
                canon(j); ch = j.mem != old.mem or j.ts != old.ts or j.facts != old.facts or j.iv != old.iv
            if not ch: return
            self.states[k] = j
        else: self.states[k] = s
        if k not in self.work: self.work.append(k)
        if len(self.states) > self.cap: raise Budget("too many abstract object states")
    def run(self, step):
        while self.work:
            k = self.work.pop(0)
            step(k, self.states[k].fork())

def fn_locs(f):
    """location of a function's first instructions"""
    f.parse()
    for b in f.blocks.values():
        for i in b:
            if i.dbg is not None:
                for l in f.mod.locs(i.dbg):
                    if l[0].startswith(REPO): yield l; return

def parallel(calls):
    """run (fn, *args) in threads (they wait for subprocesses)"""
    out = [None] * len(calls); err = []
    threading.stack_size(8 << 20)
    def go(i, c):
        try: out[i] = c[0](*c[1:])
        except BaseException as e: err.append(e)
    ts = [threading.Thread(target=go, args=(i, c)) for i, c in enumerate(calls)]
    for t in ts: t.start()
    for t in ts: t.join()
    if err: raise err[0]
    return out

def fork_map(fn, jobs, workers=None):
    """fn over jobs in forked children (which share what is already parsed); results by pickle through pipes"""
    import pickle, select
    workers = workers or min(8, os.cpu_count() or 8)
    res = [None] * len(jobs); run = {}; todo = list(range(len(jobs)))
    sys.stdout.flush(); sys.stderr.flush()
    while todo or run:
        while todo and len(run) < workers:
            i = todo.pop(0); r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(r); code = 0
                try: data = pickle.dumps(("ok", fn(jobs[i])))
                except BaseException as e:
                    import traceback; data = pickle.dumps(("err", traceback.format_exc(), type(e).__name__))
                with os.fdopen(w, "wb") as f: f.write(data)
                os._exit(0)
            os.close(w); run[r] = (i, pid, [])
        rd, _, _ = select.select(list(run), [], [])
        for r in rd:
            i, pid, buf = run[r]; b = os.read(r, 1 << 20)
            if b: buf.append(b); continue
            os.close(r); os.waitpid(pid, 0); del run[r]
            if not buf: raise Broken("an analysis worker died")
            x = pickle.loads(b"".join(buf))
            if x[0] == "err": raise Broken("analysis failed: " + x[1][-3000:])
            res[i] = x[1]
    return res
