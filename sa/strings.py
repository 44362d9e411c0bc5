"""C15, C16: string tensors (see cells.py for the abstract domain)."""
import re
from .driver import *
from . import ir
from .cells import *
from . import cells
SRC = "EigenIPC/src/StringTensor.cpp"
SH = re.compile(r"^EigenIPC::(Server|Client)<int(?:, (\d))?>::(~?\w+)\(")
HUGE = 8

def wrapper():
    o = ['#include "%s/%s"' % (REPO, SRC), "#include <new>", "using namespace EigenIPC;", "typedef StringTensor<StrServer> TS; typedef StringTensor<StrClient> TC;", 'extern "C" {']
    for k in "SC":
        o.append("__attribute__((used)) void w_%s_new(T%s* p, int n, const std::string& a, const std::string& b) { new (p) T%s(%sa, b); }" % (k, k, k, "n, " if k == "S" else ""))
        o.append("__attribute__((used)) void w_%s_run(T%s* p) { p->run(); }" % (k, k))
        o.append("__attribute__((used)) bool w_%s_ws(T%s* p, const std::string& s, int i) { return p->write(s, i); }" % (k, k))
        o.append("__attribute__((used)) bool w_%s_rs(T%s* p, std::string& s, int i) { return p->read(s, i); }" % (k, k))
        o.append("__attribute__((used)) bool w_%s_wv(T%s* p, const std::vector<std::string>& s, int i) { return p->write(s, i); }" % (k, k))
        o.append("__attribute__((used)) bool w_%s_rv(T%s* p, std::vector<std::string>& s, int i) { return p->read(s, i); }" % (k, k))
        o.append("__attribute__((used)) unsigned long w_%s_size() { return sizeof(T%s); }" % (k, k))
    return "\n".join(o) + "\n}\n"

def compile_cells(src, out):
    """everything below StringTensor inlined where the headers have it, cleaned up by passes which keep the loops as they are"""
    raw = out + ".raw"
    cmd = ["clang++", *CORE, *inc(), "-O1", "-g", "-fno-discard-value-names", "-fno-vectorize", "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm", "-w", src, "-o", raw]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise Broken("cannot compile %s:\n%s" % (src, r.stderr[-3000:]))
    r = subprocess.run(["opt", "-S", "-passes=always-inline,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,early-cse,instcombine<no-verify-fixpoint>)", raw, "-o", out], capture_output=True, text=True)
    if r.returncode: raise Broken("opt: " + r.stderr[-2000:])
    os.unlink(raw)
    return out

N, I = at("n"), at("i")
def externs(m, st, name, d, av, args):
    x = SH.match(d)
    if not x: return None
    cls, lay, meth = x.groups(); g = st.ghost
    if meth == cls:
        if cls == "Server": g["rows"] = av[1]; g["cols"] = av[2]
        return (None,)
    if meth in ("run", "attach", "close", "stop", "detach") or meth[0] == "~": return (None,)
    if meth == "getNCols": return (N,)
    if meth == "getNRows": return (g["rows"],)
    if meth in ("isRunning", "isAttached"): return (1,)
    if meth == "getNClients": return (at("clients"),)
    if meth not in ("read", "write"): raise Unsup("call of %s" % d.split("(")[0])
    ref = av[1]; ld = lambda o: m.load(st, ("p", ref[1], ladd(ref[2], o)), 8)
    data, rows, cols = ld(0), ld(8), ld(16); outer = ld(24); inner = 1
    if "Map<" in d.split("(", 1)[1]: inner = ld(32)
    row, col = (sg(v, 32) for v in av[2:4])
    R = g["rows"]
    for c in (row, col, ladd(lmul(row, -1), R - 1), ladd(ladd(N, col, -1), -1), ladd(ladd(R, row, -1), rows, -1), ladd(ladd(N, col, -1), cols, -1)):
        if st.ge0(c): continue
        n = ladd(lmul(c, -1), -1)
        if st.ge0(n):
            m.cnt("transfers refused by the shared memory"); st.ev.append(("refused", meth)); return (0,)
        raise Fork([[c], [n]])
    ok = m.decide(st, ("shm", len(st.ev), meth))
    st.ev.append((meth if ok else "failed", col, cols, row, rows))
    if not ok: return (0,)
    if type(rows) is not int or type(cols) is not int or rows * cols > 8192: raise Unsup("transfer of unknown size")
    if not isp(data): raise Unsup("transfer through %r" % (data,))
    m.cnt("blocks transferred")
    for r in range(rows):
        for c in range(cols):
            b = ("p", data[1], ladd(data[2], lmul(ladd(lmul(outer, r), lmul(inner, c)), 4))); s = ("p", ("shm",), lmul(ladd(lmul(N, row + r), ladd(col, c)), 4))
            if meth == "write": m.rawstore(st, ("shm",), s[2], 4, m.load(st, b, 4))
            else: m.store(st, b, 4, m.load(st, s, 4))
    return (1,)

def text(st, k, L, where=None):
    """a std::string of L bytes, none of them zero"""
    b = ("src", k); st.size[b] = L + 1
    def d(s, o, n, L=L, k=k):
        if type(o) is not int: return fromb((Q,) * n)
        return fromb([("c", k, o + j) if 0 <= o + j < L else 0 if o + j == L else ("u",) for j in range(n)])
    st.dyn[b] = d
    w = where or ("obj", "str%s" % k); st.size.setdefault(w if type(w[-1]) is not int or where is None else w, 32)
    return put_str(st, w, 0, b, L)
def put_str(st, base, off, chars, L):
    d = st.obj(base); st.size.setdefault(base, 32)
    d[off] = (8, ("p", chars, 0)); d[off + 8] = (8, L); d[off + 16] = (8, max(L, 15))
    return ("p", base, off)
def target(st, k, base=None, off=0):
    """a std::string with earlier contents, to be read into"""
    st.fresh += 1; h = ("heap", st.fresh); st.size[h] = 31
    st.dyn[h] = lambda s, o, n, k=k: fromb([("o", "target", k, o + j) if type(o) is int and o + j < 5 else 0 for j in range(n)])
    base = base or ("obj", "out%s" % k); d = st.obj(base); st.size.setdefault(base, 32)
    d[off] = (8, ("p", h, 0)); d[off + 8] = (8, 5); d[off + 16] = (8, 30)
    return ("p", base, off)
def vec(st, k, strs, n=None):
    """a std::vector<std::string> of n elements; strs: how to put element j"""
    b = ("els", k); n = len(strs) if n is None else n; st.size[b] = 32 * n
    st.obj(b)
    for j, f in enumerate(strs): f(st, b, 32 * j)
    o = ("obj", "vec%s" % k); st.size[o] = 24; d = st.obj(o)
    e = ("p", b, 32 * n)
    d[0] = (8, ("p", b, 0)); d[8] = (8, e); d[16] = (8, e)
    return ("p", o, 0)
def content(m, st, p):
    """the bytes of a std::string, or None"""
    ptr = m.load(st, p, 8); n = m.load(st, ("p", p[1], p[2] + 8), 8)
    if not isp(ptr) or type(n) is not int: return None
    if n > 100000: return None
    return [tob(m.load(st, ("p", ptr[1], ladd(ptr[2], j)), 1), 1)[0] for j in range(n)]

def shm_default(kind):
    if kind == "zero": return lambda s, o, n: 0
    return lambda s, o, n: fromb([("c" if kind == "full" else "o", "shm", o, j) for j in range(n)])

def prepare(m, kinds="SC"):
    """states in which a server and a client of the same tensor are running"""
    st = State(); st.facts = [N, ladd(lmul(N, -1), (1 << 31) - 1), ladd(I, 1 << 31), ladd(lmul(I, -1), (1 << 31) - 1)]
    st.dyn[("shm",)] = shm_default("old")
    a, b = text(st, "name", 4), text(st, "space", 2)
    sts = [st]
    for k in kinds:
        for step in ("size", "new", "run"):
            nxt = []
            for s in sts:
                o = ("obj", k)
                f = "w_%s_%s" % (k, step)
                m.start(s, f, {"size": [], "new": [("p", o, 0), N, a, b], "run": [("p", o, 0)]}[step])
                for kind, t, v in m.run(s):
                    if kind != "ret": continue
                    if step == "size": t.size[o] = v
                    nxt.append(t)
            sts = nxt
    if not sts: raise Unsup("no running string tensor")
    return sts

def call(m, st, k, fn, arg, idx=I):
    s = st.fork(); s.ev = []; s.dec = {x: v for x, v in s.dec.items() if x[0] != "shm"}
    m.start(s, "w_%s_%s" % (k, fn), [("p", ("obj", k), 0), arg, idx])
    m.cnt("calls analysed")
    return m.run(s)
WHO = {"S": "server", "C": "client"}
OP = {"ws": "write(string)", "wv": "write(list)", "rs": "read(string)", "rv": "read(list)"}
def judge(m, k, fn, cols, sizes, kind, s, v, cap, rep, idx=I):
    """one outcome of a call against the request (columns idx .. idx+cols)"""
    who = "%s of a string tensor %s" % (OP[fn], WHO[k])
    m.cnt("outcomes")
    if kind == "exc":
        if not any(e[0] == "failed" for e in s.ev): rep("C15", "%s may throw for some index, list or string" % who)
        return
    if type(v) is not int: raise Unsup("result %r" % (v,))
    need = [idx, ladd(ladd(N, idx, -1), -cols)]
    fits = all(s.ge0(c) for c in need) and all(x <= cap for x in sizes)
    maybe = all(x <= cap for x in sizes) and not infeasible(s.facts + need)
    wrote = [e for e in s.ev if e[0] == "write"]
    m.cnt("bound obligations", 2 + len(wrote))
    if wrote and not fits: rep("C15", "%s changes the shared tensor although the request may not fit%s" % (who, "" if all(x <= cap for x in sizes) else " (a string is longer than a slot)"))
    for e in wrote:
        if not s.ge0(ladd(e[1], idx, -1)) or not s.ge0(ladd(ladd(idx, cols), ladd(e[1], e[2]), -1)): rep("C15", "%s changes slots which were not addressed" % who)
    if v == 1 and not fits and cols: rep("C15", "%s may report success for a request which does not fit%s" % (who, "" if all(x <= cap for x in sizes) else " (a string is longer than a slot)"))
    if v == 0 and wrote: rep("C15", "%s reports failure although the shared tensor was changed" % who)
    if v == 1 and any(e[0] in ("failed", "refused") for e in s.ev): rep("C16", "%s reports success although the transfer failed" % who)
    if v == 0 and maybe and cols and not any(e[0] == "failed" for e in s.ev): rep("C16", "%s refuses a request which fits" % who)

def roundtrip(m, base, w, r, sizes, cap, rep, single, off=0):
    """write strings through w, read them back through r"""
    for s0 in base:
        s0 = s0.fork()
        if single: arg = text(s0, "0", sizes[0])
        else: arg = vec(s0, "in", [(lambda st, b, o, j=j, L=L: (text(st, str(j), L, ("obj", "tmp%d" % j)), put_str(st, b, o, ("src", str(j)), L))) for j, L in enumerate(sizes)])
        n = len(sizes)
        for kind, s, v in call(m, s0, w, "ws" if single else "wv", arg):
            judge(m, w, "ws" if single else "wv", n, sizes, kind, s, v, cap, rep)
            if kind != "ret" or v != 1: continue
            # as a list, and each string on its own
            for fn in (("rs", "rv") if single else ("rv", "rs")):
                if single and fn == "rv" and sizes[0] % 97: continue
                s1 = s.fork()
                js = range(n) if fn == "rs" else (None,)
                for j in js:
                    s2 = s1.fork()
                    if fn == "rs": out = target(s2, "r"); idx = ladd(I, j)
                    else: out = vec(s2, "out", [(lambda st, b, o, q=q: target(st, "v%d" % q, b, o)) for q in range(n)]); idx = I
                    for kind2, t, v2 in call(m, s2, r, fn, out, idx):
                        judge(m, r, fn, 1 if fn == "rs" else n, (), kind2, t, v2, cap, rep, idx)
                        if kind2 != "ret" or v2 != 1: continue
                        for q in ([j] if fn == "rs" else range(n)):
                            p = out if fn == "rs" else ("p", ("els", "out"), 32 * q)
                            c = content(m, t, p); L = sizes[q]
                            if c is None: m.cnt("results not followed"); continue
                            m.cnt("strings compared"); m.cnt("bytes compared", L)
                            want = [("c", str(q), x) for x in range(L)]
                            if c == want: continue
                            if any(b == Q for b in c): m.cnt("results not followed"); continue
                            how = "it comes back with %d bytes instead of %d" % (len(c), L) if len(c) != L else "byte %d comes back changed" % next(x for x in range(L) if c[x] != want[x])
                            rep("C16", "a string%s written with %s by the %s and read with %s by the %s is not the same: for a length of %d bytes %s" % ("" if single else " of a list", OP["ws" if single else "wv"], WHO[w], OP[fn], WHO[r], L, how))

def work_unit(a):
    mod, job = a
    def go():
        m = Machine(mod, REPO, externs); m.maxforks = 400
        seen = {}
        def rep(prop, msg):
            key = re.sub(r"for a length of \d+ bytes.*", "", msg)
            seen.setdefault((prop, key), msg)
        uns = {}
        try: base = prepare(m)
        except Unsup as e: return {"reports": {}, "seen": {}, "uns": {"setup: %s" % e: 1}, "counts": m.counts, "fns": [], "steps": m.steps}
        cap = 4 * base[0].ghost["rows"] if type(base[0].ghost.get("rows")) is int else 1024
        for j in job:
            try:
                if j[0] == "single":
                    for q, L in enumerate(j[3]):
                        for s0 in base: s0.dyn[("shm",)] = shm_default("zero" if q % 8 == 1 else "old")
                        roundtrip(m, base, j[1], j[2], (L,), cap, rep, True)
                    for s0 in base: s0.dyn[("shm",)] = shm_default("old")
                elif j[0] == "list":
                    for sz in j[3]:
                        for what in ("old", "zero"):
                            for s0 in base: s0.dyn[("shm",)] = shm_default(what)
                            roundtrip(m, base, j[1], j[2], sz, cap, rep, False)
                    for s0 in base: s0.dyn[("shm",)] = shm_default("old")
                elif j[0] == "huge":
                    for n in j[2]:
                        for s0 in base:
                            for fn in ("wv", "rv"):
                                # a list which no tensor of up to 3 strings can hold; its elements from HUGE on are not looked at one by one
                                s1 = s0.fork()
                                if not s1.add(ladd(lmul(N, -1), 3)): continue
                                m.jumps = {("els", "h"): (32 * HUGE, 32 * n)}
                                put = (lambda st, b, o, q: target(st, "v%d" % q, b, o)) if fn == "rv" else (lambda st, b, o, q: (text(st, str(q), 2, ("obj", "tmp%d" % q)), put_str(st, b, o, ("src", str(q)), 2)))
                                v = vec(s1, "h", [(lambda st, b, o, q=q: put(st, b, o, q)) for q in range(HUGE)], n)
                                for kind, s, r in call(m, s1, j[1], fn, v): judge(m, j[1], fn, n, (), kind, s, r, cap, rep)
                elif j[0] == "long":
                    for L in j[2]:
                        for s0 in base:
                            s1 = s0.fork(); v = text(s1, "l", L)
                            for kind, s, r in call(m, s1, j[1], "ws", v): judge(m, j[1], "ws", 1, (L,), kind, s, r, cap, rep)
                elif j[0] == "read":
                    for what in ("zero", "full"):
                        for s0 in base:
                            s1 = s0.fork(); s1.dyn[("shm",)] = shm_default(what); o = target(s1, "r")
                            for kind, s, r in call(m, s1, j[1], "rs", o): judge(m, j[1], "rs", 1, (), kind, s, r, cap, rep)
                            for n in (0, 1, 2, 3):
                                s2 = s1.fork(); o = vec(s2, "out", [(lambda st, b, x, q=q: target(st, "v%d" % q, b, x)) for q in range(n)])
                                for kind, s, r in call(m, s2, j[1], "rv", o): judge(m, j[1], "rv", n, (), kind, s, r, cap, rep)
                m.jumps = {}
            except Unsup as e: uns["%s: %s" % (j[0], e)] = uns.get("%s: %s" % (j[0], e), 0) + 1
        for k, v in m.lost.items(): uns[k] = uns.get(k, 0) + v
        return {"reports": m.reports, "seen": seen, "uns": uns, "counts": m.counts, "fns": sorted(m.used), "steps": m.steps}
    return big(go)

def jobs(tier):
    R = 1024
    if tier == "thorough": Ls = list(range(0, R + 1))
    else: Ls = sorted(set(list(range(0, 41)) + list(range(97, R, 97)) + list(range(R - 9, R + 1)) + [255, 256, 257, 511, 512, 513]))
    out = []
    for w, r in (("S", "C"), ("C", "S")):
        k = 8 if tier == "thorough" else 3
        for x in range(k * (4 if tier == "thorough" else 1)):
            n = k * (4 if tier == "thorough" else 1)
            out.append([("single", w, r, Ls[x::n])])
        out.append([("list", w, r, [(), (5,), (4, 0), (3, 1024), (1, 8, 2)]), ("list", w, r, [(R + 1,), (2, R + 1), (R + 1, 2), (7, R + 4, 1)])])
        out.append([("huge", w, [1 << 31, (1 << 32) + 1, 1 << 40]), ("long", w, [R + 1, R + 2, R + 4, 1 << 31, (1 << 31) + 8, 1 << 32, (1 << 32) + 5]), ("read", w)])
    out.append([("single", "S", "S", Ls[::7]), ("single", "C", "C", Ls[3::7])])
    return out

def check(prop, tier, work):
    src = work + "/s.cpp"; open(src, "w").write(wrapper())
    mod = ir.Module(compile_cells(src, work + "/s.ll"))
    js = jobs(tier)
    reports = {}; n = {}; fns = set(); steps = 0; uns = {}
    dem = ir.demangle(list(mod.funcs))
    where = SRC
    for r in fork_map(work_unit, [(mod, j) for j in js]):
        for (p, msg), (f, l, path) in r["reports"].items():
            if p == prop: reports.setdefault(msg, {"rule": prop, "message": "%s %s" % (path[-1] if path else "the string tensor", msg), "where": "%s:%d" % (os.path.relpath(f, REPO) if f.startswith("/") else f, l), "path": " > ".join(path), "entry": "", "trace": [], "instance": ""})
        for (p, key), msg in r["seen"].items():
            if p == prop: reports.setdefault(key, {"rule": prop, "message": msg, "where": SRC, "path": "", "entry": "", "trace": [], "instance": ""})
        for k, v in r["counts"].items(): n[k] = n.get(k, 0) + v
        for k, v in r["uns"].items(): uns[k] = uns.get(k, 0) + v
        fns.update(r["fns"]); steps += r["steps"]
    own = sorted({dem[f].split("(")[0] for f in fns if "EigenIPC::StringTensor" in dem.get(f, "")})
    return {"reports": list(reports.values()), "counts": n, "functions": own, "opaque": sorted(uns), "numbers": {"instructions": steps, "functions interpreted": len(fns)}, "instances": len(js)}
