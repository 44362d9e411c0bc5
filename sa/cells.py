"""Abstract interpretation of LLVM IR with byte provenance.

Where the engine in interp.py abstracts strings and containers, this one follows every byte: a byte is a constant, the i-th
byte of a source string (any value but zero), a byte which was there before, or something else.  Integers are constants or
linear expressions over the unknown inputs (indices, lengths) under linear facts collected from the branches; a branch which
the facts do not decide is followed both ways.  The standard library and Eigen are interpreted from their headers' code; only
memory primitives and the shared memory classes are modelled.

values  int (unsigned, modulo its width) | ("E", c, ((atom, k), ...)) linear, signed | ("p", base, offset) pointer |
        ("B", (byte, ...)) bytes, least significant first | None undefined
bytes   int | ("c", string, i) | ("o", ...) unknown | ("x",) computed from a source byte but different from it | ("?",) not known to the analysis"""
import re
from .ir import demangle

class Unsup(Exception): pass
class Dead(Exception): pass
KNOWN = {"n", "i", "clients"}
class Fork(Exception):
    def __init__(self, alts): self.alts = alts

# ---------------------------------------------------------------- linear expressions
def E(c, d):
    t = tuple(sorted((a, k) for a, k in d.items() if k))
    return ("E", c, t) if t else c
def isE(v): return type(v) is tuple and v[0] == "E"
def isp(v): return type(v) is tuple and v[0] == "p"
def isB(v): return type(v) is tuple and v[0] == "B"
def sg(v, w): return v - (1 << w) if type(v) is int and v >> (w - 1) & 1 else v
def lin(v): return (v, {}) if type(v) is int else (v[1], dict(v[2]))
def ladd(a, b, k=1):
    ca, da = lin(a); cb, db = lin(b)
    for x, y in db.items(): da[x] = da.get(x, 0) + k * y
    return E(ca + k * cb, da)
def lmul(a, k):
    c, d = lin(a)
    return E(c * k, {x: y * k for x, y in d.items()})
def at(name): return ("E", 0, ((name, 1),))

_fm = {}
def infeasible(cons):
    """no rational point satisfies all c >= 0 (Fourier-Motzkin)"""
    key = frozenset(cons)
    r = _fm.get(key)
    if r is None:
        r = _fm[key] = _solve(key)
        if len(_fm) > 200000: _fm.clear()
    return r
def _solve(cons):
    cs = {(c[1], c[2]) if isE(c) else (c, ()) for c in cons}
    while True:
        if any(not t and c < 0 for c, t in cs): return True
        vs = {}
        for c, t in cs:
            for a, k in t: x = vs.setdefault(a, [0, 0]); x[k > 0] += 1
        if not vs: return False
        v = min(vs, key=lambda a: vs[a][0] * vs[a][1])
        lo, hi, rest = [], [], set()
        for c, t in cs:
            d = dict(t); k = d.pop(v, 0)
            if not k: rest.add((c, t))
            else: (lo if k > 0 else hi).append((c, d, k))
        for c, d, k in lo:
            for c2, d2, k2 in hi:
                e = {a: -k2 * x for a, x in d.items()}
                for a, x in d2.items(): e[a] = e.get(a, 0) + k * x
                t = tuple(sorted((a, x) for a, x in e.items() if x)); cc = -k2 * c + k * c2
                if t or cc < 0: rest.add((cc, t))
        if len(rest) > 600: return False
        cs = rest

class State:
    __slots__ = ("mem", "own", "frames", "facts", "dec", "ev", "freed", "size", "fresh", "ghost", "dyn")
    def __init__(self):
        self.mem = {}; self.own = set(); self.frames = []; self.facts = []; self.dec = {}; self.ev = []; self.freed = set(); self.size = {}; self.fresh = 0; self.ghost = {}; self.dyn = {}
    def fork(self):
        s = State(); s.mem = dict(self.mem); self.own = set()
        s.frames = [f.copy() for f in self.frames]; s.facts = list(self.facts); s.dec = dict(self.dec); s.ev = list(self.ev); s.freed = set(self.freed); s.size = dict(self.size); s.fresh = self.fresh; s.ghost = dict(self.ghost); s.dyn = dict(self.dyn)
        return s
    def obj(self, b):
        d = self.mem.get(b)
        if d is None: d = self.mem[b] = {}; self.own.add(b)
        elif b not in self.own: d = self.mem[b] = dict(d); self.own.add(b)
        return d
    def add(self, *facts):
        """assume facts (each >= 0); false when they contradict"""
        for f in facts:
            if type(f) is int:
                if f < 0: return False
            else: self.facts.append(f)
        return not infeasible(self.facts)
    def ge0(self, e):
        if type(e) is int: return e >= 0
        return infeasible(self.facts + [ladd(lmul(e, -1), -1)])
    def atom(self, pfx):
        self.fresh += 1
        return "%s%d" % (pfx, self.fresh)

class Frame:
    __slots__ = ("f", "regs", "blk", "ip", "prev", "ins")
    def __init__(self, f): self.f = f; self.regs = {}; self.blk = f.entry; self.ip = 0; self.prev = None; self.ins = None
    def copy(self):
        g = Frame.__new__(Frame); g.f = self.f; g.regs = dict(self.regs); g.blk = self.blk; g.ip = self.ip; g.prev = self.prev; g.ins = self.ins
        return g

STR = re.compile(r"(?:.* )?std::(?:__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>::(\w+(?:=)?)\(")
# ---------------------------------------------------------------- bytes
X = ("x",); Q = ("?",)
def tob(v, n):
    """bytes of a value of n bytes"""
    if type(v) is int: return tuple(v >> 8 * i & 255 for i in range(n))
    if isB(v): return v[1]
    if v is None: return (("u",),) * n
    return (Q,) * n
def fromb(bs):
    if all(type(b) is int for b in bs): return sum(b << 8 * i for i, b in enumerate(bs))
    if all(b == ("u",) for b in bs): return None
    return ("B", tuple(bs))

class Machine:
    def __init__(self, mod, repo, externs, limit=6000000):
        self.mod = mod; self.repo = repo; self.externs = externs; self.limit = limit; self.steps = 0
        names = list(mod.funcs) + list(mod.decls)
        self.dem = demangle(names); self.reports = {}; self.used = set(); self.uns = {}; self.forks = 0; self.maxforks = 4000
        self.counts = {}; self.lost = {}; self.jumps = {}; self._gl = {}
    def cnt(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def where(self, st):
        for fr in reversed(st.frames):
            ins = fr.ins
            if ins is not None and ins.dbg is not None:
                for l in self.mod.locs(ins.dbg):
                    if l[0].startswith(self.repo): return l
        return ("?", 0)
    def report(self, st, prop, msg):
        f, l = self.where(st)
        path = []
        for fr in st.frames:
            n = re.search(r"EigenIPC::(StringTensor<EigenIPC::\w+)<int, 1>.*?(>::~?\w+)\(", self.dem.get(fr.f.name, ""))
            if n: path.append(n.group(1) + n.group(2))
        self.reports.setdefault((prop, msg), (f, l, path))
    # ---- memory
    def default(self, st, base, off, n):
        d = st.dyn.get(base)
        if d is None: return None
        return d(st, off, n)
    def check(self, st, p, n, what):
        if not isp(p):
            # no object there: a null pointer plus an offset
            if type(p) is int or isE(p) and all(a in KNOWN for a, k in p[2]): self.report(st, "C15", "%s through an invalid pointer" % what); raise Dead
            raise Unsup("%s through %r" % (what, p))
        b, o = p[1], p[2]
        if b in st.freed: self.report(st, "C15", "%s memory which was released" % what); raise Dead
        s = st.size.get(b)
        self.cnt("memory accesses checked")
        if s is None: return
        if type(o) is int and type(s) is int:
            if o < 0 or o + n > s: self.report(st, "C15", "%s outside %s" % (what, self.name(st, b))); raise Dead
            return
        hi = ladd(ladd(s, o, -1), -n)
        if not st.ge0(o) or not st.ge0(hi):
            for e in (o, hi):
                if isE(e) and any(a not in KNOWN for a, k in e[2]): raise Unsup("%s at an unknown offset" % what)
            self.report(st, "C15", "%s outside %s" % (what, self.name(st, b))); raise Fork([[o, hi]])
    def name(self, st, b):
        if b[0] == "heap" and isE(st.size.get(b)): return "the staging buffer"
        return {"src": "the characters of a string", "els": "the list of strings", "obj": "the object"}.get(b[0], "an allocated object")
    def load(self, st, p, n):
        self.check(st, p, n, "reads")
        b, o = p[1], p[2]
        d = st.mem.get(b)
        if d is not None:
            c = d.get(o)
            if c is not None and c[0] == n: return c[1]
            return self.gather(st, d, b, o, n)
        return self.default(st, b, o, n)
    def around(self, d, o, n):
        r = []
        for k in range(-15, n):
            c = d.get(o + k if type(o) is int else ladd(o, k))
            if c is not None and k + c[0] > 0: r.append((k, c[0], c[1]))
        return r
    def gather(self, st, d, b, o, n):
        cs = self.around(d, o, n)
        if not cs: return self.default(st, b, o, n)
        bs = [None] * n
        for k, s, v in cs:
            x = tob(v, s)
            for j in range(s):
                if 0 <= k + j < n: bs[k + j] = x[j]
        for j in range(n):
            if bs[j] is None:
                v = self.default(st, b, o + j if type(o) is int else ladd(o, j), 1)
                bs[j] = tob(v, 1)[0]
        return fromb(bs)
    def store(self, st, p, n, v):
        self.check(st, p, n, "writes")
        b, o = p[1], p[2]
        if b[0] == "const": raise Unsup("store to a constant")
        d = st.obj(b)
        c = d.get(o)
        if not (c is not None and c[0] == n):
            for k, s, w in self.around(d, o, n):
                ko = o + k if type(o) is int else ladd(o, k)
                if 0 <= k and k + s <= n: del d[ko]; continue
                x = tob(w, s); del d[ko]
                for j in range(s):
                    if not 0 <= k + j < n: d[ladd(ko, j)] = (1, fromb((x[j],)))
        d[o] = (n, v)
    def copy(self, st, dst, src, n):
        if n == 0: return
        if type(n) is not int: raise Unsup("copy of unknown length")
        if n > 1 << 20: raise Unsup("copy of %d bytes" % n)
        self.check(st, src, n, "reads"); self.check(st, dst, n, "writes")
        i = 0; out = []
        d = st.mem.get(src[1]) or {}
        while i < n:
            o = ladd(src[2], i); c = d.get(o)
            if c is not None and i + c[0] <= n: out.append((i, c[0], c[1])); i += c[0]; continue
            z = 8 if i + 8 <= n and st.dyn.get(src[1]) is None else 1
            out.append((i, z, self.gather(st, d, src[1], o, z))); i += z
        for i, z, v in out: self.rawstore(st, dst[1], ladd(dst[2], i), z, v)
    def rawstore(self, st, b, o, n, v):
        d = st.obj(b); c = d.get(o)
        if c is not None and c[0] == n: d[o] = (n, v); return
        self.store(st, ("p", b, o), n, v)
    # ---- constants
    def const(self, st, t, v):
        k = v[0]
        if k == "k":
            x = v[1]
            if t[0] == "i": return x & (1 << t[1]) - 1
            return x if type(x) is int else Q_VAL
        if k == "undef": return None
        if k == "g":
            n = v[1]
            n = self.mod.aliases.get(n, n)
            if n in self.mod.funcs or n in self.mod.decls: return ("p", ("fn", n), 0)
            b = ("const", n)
            if b not in st.mem and b not in st.dyn: self.globl(st, b, n)
            return ("p", b, 0)
        if k == "cgep":
            q = self.const(st, ("ptr",), v[2][0][1]); off = self.gepoff(st, None, v[1], v[2][1:])
            return ("p", q[1], ladd(q[2], off))
        if k == "agg": return ("A", {i: self.const(st, et, e) for i, (et, e) in enumerate(v[1])})
        raise Unsup("constant %s" % k)
    def globl(self, st, b, n):
        import re
        t = self.mod.globals.get(n, "")
        m = re.search(r'c"((?:[^"\\]|\\[0-9A-Fa-f]{2})*)"', t)
        if m:
            bs = re.sub(r'\\([0-9A-Fa-f]{2})', lambda x: chr(int(x.group(1), 16)), m.group(1))
            st.dyn[b] = lambda s, o, k, bs=bs: fromb([ord(bs[o + j]) if type(o) is int and 0 <= o + j < len(bs) else Q for j in range(k)])
        else:
            m = re.search(r"constant i(\d+) (-?\d+|true|false)\b", t)
            m2 = re.search(r"constant (?:%\"?[^ ]+|\[[^=]*\]|\{.*\}|i\d+) zeroinitializer", t)
            if m:
                v = {"true": 1, "false": 0}.get(m.group(2)); v = int(m.group(2)) if v is None else v
                w = (int(m.group(1)) + 7) // 8; bs = list((v % (1 << 8 * w)).to_bytes(w, "little"))
                st.dyn[b] = lambda s, o, k, bs=bs: fromb([bs[o + j] if type(o) is int and 0 <= o + j < len(bs) else Q for j in range(k)])
            elif m2: st.dyn[b] = lambda s, o, k: fromb([0] * k)
            else: st.dyn[b] = lambda s, o, k: fromb([Q] * k)
    def val(self, st, regs, t, v):
        if v[0] == "l": return regs[v[1]]
        return self.const(st, t, v)
    def gepoff(self, st, regs, bt, ops):
        off = 0; t = bt; first = True
        for ot, ov in ops:
            x = self.const(st, ot, ov) if regs is None else self.val(st, regs, ot, ov)
            if type(x) is int: x = sg(x, ot[1])
            if first: size = self.mod.layout(t)[0]; first = False
            else:
                t = self.mod.resolve(t)
                if t[0] == "st":
                    off = ladd(off, self.mod.layout(t)[2][x]); t = t[2][x]; continue
                t = t[2]; size = self.mod.layout(t)[0]
            if not (type(x) is int or isE(x)): raise Unsup("address from %r" % (x,))
            off = ladd(off, lmul(x, size))
        return off
    # ---- integers
    def fit(self, st, e, w):
        """a linear value brought into the signed range of its width"""
        if type(e) is int: return e & (1 << w) - 1
        if w >= 64: return e
        lo, hi = -(1 << w - 1), (1 << w - 1) - 1
        if st.ge0(ladd(e, -lo)) and st.ge0(ladd(lmul(e, -1), hi)): return e
        above = ladd(e, -hi - 1); below = ladd(lmul(e, -1), lo - 1)
        if st.ge0(above): return self.fit(st, ladd(e, -(1 << w)), w)
        if st.ge0(below): return self.fit(st, ladd(e, 1 << w), w)
        raise Fork([[above], [below], [ladd(e, -lo), ladd(lmul(e, -1), hi)]])
    def unsigned(self, st, e, w):
        if type(e) is int: return e
        if st.ge0(e): return e
        neg = ladd(lmul(e, -1), -1)
        if st.ge0(neg): return ladd(e, 1 << w)
        raise Fork([[e], [neg]])
    def bin(self, st, op, w, a, b):
        if op[0] == "f": return Q_VAL
        if type(a) is int and type(b) is int: return self.iconst(op, w, a, b)
        if a is None or b is None: return None
        if isp(a) or isp(b):
            if op == "sub" and isp(a) and isp(b) and a[1] == b[1]: return self.fit(st, ladd(a[2], b[2], -1), w)
            if op == "add" and isp(a): return ("p", a[1], ladd(a[2], sg(b, w)))
            if op == "add": return ("p", b[1], ladd(b[2], sg(a, w)))
            if op == "sub" and isp(a): return ("p", a[1], ladd(a[2], sg(b, w), -1))
            if op == "and" and isp(a) and type(b) is int: return a[2] & b if type(a[2]) is int and b < 4096 else a
            raise Unsup("%s of pointers" % op)
        if isB(a) or isB(b): return self.bbin(op, w, a, b)
        x, y = (sg(v, w) for v in (a, b))
        if op == "add": return self.fit(st, ladd(x, y), w)
        if op == "sub": return self.fit(st, ladd(x, y, -1), w)
        if op == "mul" and (type(x) is int or type(y) is int): return self.fit(st, lmul(x, y) if type(y) is int else lmul(y, x), w)
        if op == "shl" and type(y) is int: return self.fit(st, lmul(x, 1 << y), w)
        if op in ("lshr", "udiv", "urem"): x = self.unsigned(st, x, w); y = self.unsigned(st, y, w)
        if op in ("lshr", "ashr") and type(y) is int: return self.div(st, x, 1 << y)
        if op in ("udiv", "sdiv") and type(y) is int and y > 0: return self.div(st, x, y, op == "sdiv")
        if op in ("urem", "srem") and type(y) is int and y > 0:
            if op == "srem" and not st.ge0(x): x = self.unsigned(st, x, w)
            return ladd(x, lmul(self.div(st, x, y), y), -1)
        if op == "and" and type(y) is int and y & (y + 1) == 0 and y > 0:
            x = self.unsigned(st, x, w); return ladd(x, lmul(self.div(st, x, y + 1), y + 1), -1)
        if op == "and" and type(y) is int and y < 0 and -y & (-y - 1) == 0: return lmul(self.div(st, x, -y), -y)
        if op in ("udiv", "sdiv") and type(x) is int and x >= 0 and isE(y):      # constant / unknown
            if not st.ge0(ladd(y, -1)): raise Fork([[ladd(y, -1)], [lmul(y, -1)]])
            q = at(st.atom("q")); st.facts += [ladd(q, -(x >> 32)), ladd(lmul(q, -1), x)]
            return q
        if op == "xor" and y == -1: return ladd(lmul(x, -1), -1)
        raise Unsup("%s of %r and %r" % (op, a, b))
    def div(self, st, x, k, trunc=False):
        if type(x) is int: return x // k if not trunc or x >= 0 else -(-x // k)
        if x[1] % k == 0 and all(c % k == 0 for _, c in x[2]): return E(x[1] // k, {a: c // k for a, c in x[2]})
        if trunc and not st.ge0(x): raise Fork([[x], [ladd(lmul(x, -1), -1)]]) if not st.ge0(ladd(lmul(x, -1), -1)) else Unsup("division of a negative number")
        q = at("div(%r,%d)" % (x, k))
        st.facts += [ladd(x, lmul(q, k), -1), ladd(ladd(lmul(q, k), x, -1), k - 1)]
        return q
    def iconst(self, op, w, a, b):
        m = (1 << w) - 1; s, t = sg(a, w), sg(b, w)
        if op == "add": return a + b & m
        if op == "sub": return a - b & m
        if op == "mul": return a * b & m
        if op == "and": return a & b
        if op == "or": return a | b
        if op == "xor": return a ^ b
        if op == "shl": return a << b & m if b < w else None
        if op == "lshr": return a >> b if b < w else None
        if op == "ashr": return s >> b & m if b < w else None
        if b == 0: return None
        if op == "udiv": return a // b
        if op == "urem": return a % b
        q = abs(s) // abs(t); q = -q if (s < 0) != (t < 0) else q
        return (q if op == "sdiv" else s - q * t) & m
    def bbin(self, op, w, a, b):
        n = w // 8
        if isE(a) or isE(b) or n * 8 != w: return fromb((Q,) * max(n, 1))
        if type(a) is int and op in ("and", "or", "xor", "add", "mul"): a, b = b, a
        x, y = tob(a, n), tob(b, n)
        if op in ("shl", "lshr", "ashr", "mul", "udiv"):
            k = b
            if op in ("mul", "udiv"):
                if type(k) is not int or k <= 0 or k & (k - 1): return fromb([Q if True else 0] * n)
                k = k.bit_length() - 1; op = "shl" if op == "mul" else "lshr"
            if type(k) is not int: return fromb((Q,) * n)
            if k >= w: return None
            if k % 8:
                if op == "lshr" and all(type(c) is int for c in x): return fromb((Q,) * n)
                return fromb([X if any(type(c) is not int for c in x) else Q] * n)
            k //= 8
            if op == "shl": return fromb((0,) * k + x[:n - k])
            top = 0 if op == "lshr" or type(x[-1]) is int and x[-1] < 128 else 255 if type(x[-1]) is int else X
            return fromb(x[k:] + (top,) * k)
        if op in ("add", "sub") and not (op == "add" and all(p == 0 or q == 0 for p, q in zip(x, y))):
            return fromb([X] * n)
        out = []
        for p, q in zip(x, y):
            if type(p) is int and type(q) is int: r = {"and": p & q, "or": p | q, "xor": p ^ q, "add": p | q}[op]
            elif op in ("or", "add", "xor"): r = p if q == 0 else q if p == 0 else (p if op == "or" else 0) if p == q else 255 if op == "or" and 255 in (p, q) else Q if Q in (p, q) else X
            else: r = 0 if 0 in (p, q) else p if q == 255 else q if p == 255 else p if p == q else Q if Q in (p, q) else X
            out.append(r)
        return fromb(out)
    def cast(self, st, op, w, v, w2):
        if v is None: return None
        if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"): return v
        if op in ("trunc", "zext", "sext"):
            if type(v) is int: return v & (1 << w2) - 1 if op != "sext" else sg(v, w) & (1 << w2) - 1
            if isE(v):
                if op == "sext": return v
                if op == "zext": return self.unsigned(st, v, w)
                if w2 < 8: raise Unsup("trunc to %d bits" % w2)
                return self.fit(st, v, w2)
            if isB(v):
                x = v[1]; n, m = w // 8, w2 // 8
                if w2 < 8 or n * 8 != w: return ("b1", v) if w2 == 1 else fromb((Q,))
                if op == "trunc": return fromb(x[:m])
                t = x[-1]; fill = 0 if op == "zext" or type(t) is int and t < 128 else 255 if type(t) is int else X
                return fromb(x + (fill,) * (m - n))
            if isp(v) : return v if w2 >= 64 else fromb((Q,) * (w2 // 8))
        raise Unsup("%s of %r" % (op, v))
    def icmp(self, st, pred, t, a, b):
        if a is None or b is None: return self.decide(st, ("undef", st.frames[-1].f.name, st.frames[-1].blk, st.frames[-1].ip))
        w = t[1] if t[0] == "i" else 64
        if type(a) is int and type(b) is int:
            if pred[0] == "s": a, b = sg(a, w), sg(b, w)
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pred[-2:]])
        if isp(a) and isp(b):
            if a[1] == b[1]: a, b = a[2], b[2]; w = 64
            else:
                if pred == "eq": return 0
                if pred == "ne": return 1
                return self.decide(st, ("ptr", pred, a, b))
            if type(a) is int and type(b) is int: return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pred[-2:]])
            pred = pred if pred in ("eq", "ne") else "s" + pred[-2:]
        elif isp(a) or isp(b):
            p, q = (a, b) if isp(a) else (b, a)
            if q == 0 and pred in ("eq", "ne"): return int(pred == "ne")
            return self.decide(st, ("ptr", pred, a, b))
        elif isB(a) or isB(b) or (type(a) is tuple and a[0] == "b1"): return self.bcmp(st, pred, w, a, b)
        a, b = (sg(v, w) if type(v) is int else v for v in (a, b))
        if pred[0] == "u": a = self.unsigned(st, a, w); b = self.unsigned(st, b, w)
        k = pred[-2:]
        if pred[0] == "u":
            a, b = (v + (1 << w) if type(v) is int and v < 0 else v for v in (a, b))
        d = ladd(a, b, -1)
        if type(d) is int: return int({"eq": d == 0, "ne": d != 0, "lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[k])
        m = lmul(d, -1)
        if k in ("eq", "ne"):
            if st.ge0(ladd(d, -1)) or st.ge0(ladd(m, -1)): return int(k == "ne")
            if st.ge0(d) and st.ge0(m): return int(k == "eq")
            raise Fork([[ladd(d, -1)], [ladd(m, -1)], [d, m]])
        g = {"ge": d, "lt": d, "le": m, "gt": m}[k]       # decided by g >= 0
        yes = k in ("ge", "le"); n = ladd(lmul(g, -1), -1)
        if st.ge0(g): return int(yes)
        if st.ge0(n): return int(not yes)
        raise Fork([[g], [n]])
    def bcmp(self, st, pred, w, a, b):
        n = max(w // 8, 1)
        if pred in ("eq", "ne"):
            x, y = tob(a, n) if not (type(a) is tuple and a[0] == "b1") else (Q,), tob(b, n)
            same = True
            for p, q in zip(x, y):
                if p == q and p != Q and p != X: continue
                if type(p) is int and type(q) is int: return int(pred == "ne")
                for r, s in ((p, q), (q, p)):
                    if type(r) is tuple and r[0] == "c" and s == 0: return int(pred == "ne")
                same = False
            if same: return int(pred == "eq")
            r = self.decide(st, ("beq", x, y))
            return r if pred == "eq" else 1 - r
        return self.decide(st, ("bcmp", pred, a, b))
    def decide(self, st, key):
        """a comparison which the abstraction does not decide: both ways, the same way each time it is repeated"""
        r = st.dec.get(key)
        if r is None: raise Fork([("dec", key, 0), ("dec", key, 1)])
        return r
    # ---- execution
    def start(self, st, name, args):
        f = self.mod.funcs[name].parse(); fr = Frame(f)
        for i, ((t, n, info), a) in enumerate(zip(f.params, args)): fr.regs[n if n else "%" + str(i)] = a
        st.frames.append(fr); self.used.add(name)
    def run(self, st):
        """-> [(kind, state, value)]"""
        outs = []; work = [st]; n0 = len(st.frames) - 1; self.forks = 0; self.cut = False; self.stop = self.steps + self.limit
        while work:
            s = work.pop()
            try:
                r = self.go(s, n0)
                if r is not None: outs.append((r[0], s, r[1]))
            except Dead: pass
            except Unsup as e:
                if "budget" in str(e): raise
                self.lost[str(e)] = self.lost.get(str(e), 0) + 1
            except Fork as f:
                self.forks += 1
                if self.forks > self.maxforks:
                    self.cut = True; self.cnt("calls with more cases than followed")
                    if not outs: self.lost["too many cases"] = self.lost.get("too many cases", 0) + 1
                    break
                s.frames[-1].ip -= 1
                for a in f.alts:
                    t = s.fork()
                    if type(a) is tuple: t.dec[a[1]] = a[2]; work.append(t)
                    elif t.add(*a): work.append(t)
        return outs
    def go(self, st, n0):
        val = self.val
        while True:
            fr = st.frames[-1]; code = fr.f.blocks[fr.blk]; regs = fr.regs
            self.steps += 1
            if self.steps > self.stop: raise Unsup("budget")
            ins = code[fr.ip]; fr.ip += 1; op = ins.op; a = ins.a; fr.ins = ins
            if op == "load":
                t = a[0]
                n = self.mod.layout(t)[0]
                v = self.load(st, val(st, regs, ("ptr",), a[1]), n)
                regs[ins.dst] = self.bool(v, t)
            elif op == "bin":
                t = a[1]
                if t[0] == "vec": raise Unsup("vector")
                regs[ins.dst] = self.bin(st, a[0], t[1] if t[0] == "i" else 64, val(st, regs, t, a[2]), val(st, regs, t, a[3]))
            elif op == "br":
                if a[0] is None: self.jump(st, fr, a[1])
                else:
                    c = self.truth(st, val(st, regs, ("i", 1), a[0]))
                    self.jump(st, fr, a[1] if c else a[2])
            elif op == "gep":
                p = val(st, regs, ("ptr",), a[1][0][1])
                off = self.gepoff(st, regs, a[0], a[1][1:])
                if isp(p):
                    o = ladd(p[2], off); j = self.jumps.get(p[1])
                    regs[ins.dst] = ("p", p[1], j[1] if j and o == j[0] else o)
                elif type(p) is int and type(off) is int: regs[ins.dst] = p + off & (1 << 64) - 1
                elif type(p) is int or isE(p): regs[ins.dst] = ladd(p, off)
                else: raise Unsup("address arithmetic on %r" % (p,))
            elif op == "icmp": regs[ins.dst] = self.icmp(st, a[0], a[1], val(st, regs, a[1], a[2]), val(st, regs, a[1], a[3]))
            elif op == "store":
                t = a[0]; v = val(st, regs, t, a[1])
                self.store(st, val(st, regs, ("ptr",), a[2]), self.mod.layout(t)[0], v)
            elif op == "cast":
                t, t2 = a[1], a[3]
                if t[0] == "f" or t2[0] == "f": regs[ins.dst] = fromb((Q,) * 8)
                else: regs[ins.dst] = self.cast(st, a[0], t[1] if t[0] == "i" else 64, val(st, regs, t, a[2]), t2[1] if t2[0] == "i" else 64)
            elif op == "select":
                c = self.truth(st, val(st, regs, ("i", 1), a[0]))
                regs[ins.dst] = val(st, regs, a[1], a[2] if c else a[3])
            elif op == "copy": regs[ins.dst] = val(st, regs, a[0], a[1])
            elif op == "alloca":
                st.fresh += 1; b = ("stk", st.fresh); st.size[b] = self.mod.layout(a[0])[0] * a[1][1] if a[1][0] == "k" else None
                regs[ins.dst] = ("p", b, 0)
            elif op == "ret":
                v = val(st, regs, a[0], a[1]) if a[1] is not None else None
                st.frames.pop()
                if len(st.frames) == n0: return ("ret", v)
                g = st.frames[-1]; c = g.ins
                if c.dst: g.regs[c.dst] = v
                if c.op == "invoke": self.jump(st, g, c.a[3])
            elif op in ("call", "invoke"):
                if self.call(st, fr, ins): return ("exc", None)
            elif op == "extractvalue":
                v = val(st, regs, a[0], a[1])
                for i in a[2]: v = v[1][i] if type(v) is tuple and v[0] == "A" else None
                regs[ins.dst] = v
            elif op == "insertvalue":
                v = val(st, regs, a[0], a[1]); d = dict(v[1]) if type(v) is tuple and v[0] == "A" else {}
                d[a[3]] = val(st, regs, ("i", 64), a[2]) if a[2][0] == "l" else None
                regs[ins.dst] = ("A", d)
            elif op == "switch":
                v = val(st, regs, a[0], a[1])
                if type(v) is not int:
                    for k, lab in a[3]:
                        if self.icmp(st, "eq", a[0], v, k & (1 << a[0][1]) - 1): self.jump(st, fr, lab); break
                    else: self.jump(st, fr, a[2])
                else: self.jump(st, fr, next((lab for k, lab in a[3] if k & (1 << a[0][1]) - 1 == v), a[2]))
            elif op == "unreachable": return ("exc", None)
            elif op == "nop": pass
            else: raise Unsup(op)
    def bool(self, v, t):
        if t == ("i", 1) and type(v) is int: return v & 1
        return v
    def truth(self, st, v):
        if type(v) is int: return v & 1
        if v is None: return self.decide(st, ("undef", st.frames[-1].f.name, st.frames[-1].blk, st.frames[-1].ip))
        if type(v) is tuple and v[0] in ("b1", "B"): return self.decide(st, ("bit", v))
        raise Unsup("condition %r" % (v,))
    def jump(self, st, fr, lab):
        prev = fr.blk; fr.prev = prev; fr.blk = lab; fr.ip = 0
        code = fr.f.blocks[lab]; new = []
        for ins in code:
            if ins.op != "phi": break
            for v, pb in ins.a[1]:
                if pb == prev: new.append((ins.dst, self.val(st, fr.regs, ins.a[0], v))); break
            fr.ip += 1
        for d, v in new: fr.regs[d] = v
    def call(self, st, fr, ins):
        rt, callee, args = ins.a[:3]
        if callee[0] == "l":
            p = fr.regs[callee[1]]
            if not (isp(p) and p[1][0] == "fn"): raise Unsup("indirect call")
            name = p[1][1]
        elif callee[0] == "g": name = self.mod.aliases.get(callee[1], callee[1])
        else: raise Unsup("call %r" % (callee,))
        av = [self.val(st, fr.regs, t, v) if t[0] != "meta" else None for t, v, i in args]
        if name.startswith("llvm."): r = self.intrinsic(st, name, av, args)
        else:
            d = self.dem.get(name, name)
            h = self.externs(self, st, name, d, av, args)
            if h is None:
                f = self.mod.funcs.get(name)
                if f is None: h = self.lib(st, name, d, av)
                else:
                    if len(st.frames) > 60: raise Unsup("recursion")
                    self.start(st, name, av); return False
            if h == "exc": return True
            r = h[0]
        if ins.dst: fr.regs[ins.dst] = r
        if ins.op == "invoke": self.jump(st, fr, ins.a[3])
        return False
    def alloc(self, st, n, kind="heap"):
        st.fresh += 1; b = (kind, st.fresh)
        st.size[b] = sg(n, 64) if type(n) is int else n
        return ("p", b, 0)
    def lib(self, st, name, d, av):
        if name in ("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"): return (self.alloc(st, av[0]),)
        if name in ("aligned_alloc",): return (self.alloc(st, av[1]),)
        if name in ("_ZdlPv", "_ZdaPv", "free", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"):
            if isp(av[0]):
                if av[0][1] in st.freed: self.report(st, "C15", "releases memory twice")
                st.freed.add(av[0][1])
            return (None,)
        if name in ("memcpy", "memmove"): self.copy(st, av[0], av[1], av[2]); return (av[0],)
        if name == "memset": self.fill(st, av[0], av[1], av[2]); return (av[0],)
        if name in ("strlen", "strnlen"):
            i = 0
            while True:
                if name == "strnlen" and i == av[1]: return (i,)
                c = self.load(st, ("p", av[0][1], ladd(av[0][2], i)), 1)
                if self.icmp(st, "eq", ("i", 8), c, 0): return (i,)
                i += 1
                if i > 100000: raise Unsup("strlen")
        if name == "memchr" and type(av[2]) is int:
            for i in range(av[2]):
                q = ("p", av[0][1], ladd(av[0][2], i))
                if self.icmp(st, "eq", ("i", 8), self.load(st, q, 1), av[1] & 255): return (q,)
            return (0,)
        if name == "memcmp" and type(av[2]) is int:
            for i in range(av[2]):
                x, y = (self.load(st, ("p", q[1], ladd(q[2], i)), 1) for q in av[:2])
                if not self.icmp(st, "eq", ("i", 8), x, y): return (1,)
            return (0,)
        x = STR.match(d)
        if x: return self.strlib(st, x.group(1), d, av)
        if "__throw_" in d or name in ("__cxa_throw", "__cxa_allocate_exception", "__cxa_bad_cast", "_ZSt9terminatev", "__clang_call_terminate", "abort", "__assert_fail") or "throw_std_bad_alloc" in d: return "exc"
        raise Unsup("call of %s" % d.split("(")[0])
    def strlib(self, st, meth, d, av):
        """the out-of-line members of std::string: pointer, length, capacity or local buffer"""
        a = av[0]; at_ = lambda o: ("p", a[1], ladd(a[2], o))
        if meth == "_M_create": return (self.alloc(st, ladd(self.load(st, av[1], 8), 1)),)
        ptr, n = self.load(st, a, 8), self.load(st, at_(8), 8); sso = at_(16)
        def ints(*v):
            if any(type(x) is not int or x > 1 << 20 for x in v): raise Unsup("std::string::%s of unknown length" % meth)
        cap = 15 if ptr == sso else self.load(st, sso, 8)
        def release():
            if ptr != sso: self.lib(st, "_ZdlPv", "", [ptr])
        def setlen(k): self.store(st, at_(8), 8, k); q = self.load(st, a, 8); self.fill(st, ("p", q[1], ladd(q[2], k)), 0, 1)
        def grow(k):
            q = self.alloc(st, k + 1); self.store(st, sso, 8, k); return q
        def splice(pos, l1, src, l2, c=None):
            ints(n, pos, l1, l2, cap)
            k = n + l2 - l1; bs = [self.load(st, ("p", ptr[1], ladd(ptr[2], i)), 1) for i in range(n)]
            add = [c] * l2 if c is not None else [self.load(st, ("p", src[1], ladd(src[2], i)), 1) for i in range(l2)] if isp(src) else [None] * l2
            bs[pos:pos + l1] = add
            q = ptr
            if k > cap or meth == "_M_mutate":
                q = self.alloc(st, max(k, 2 * cap) + 1); release(); self.store(st, a, 8, q); self.store(st, sso, 8, max(k, 2 * cap))
            for i, b in enumerate(bs): self.rawstore(st, q[1], ladd(q[2], i), 1, b)
            if meth != "_M_mutate": setlen(k)
            return (a,)
        if meth == "_M_mutate": splice(*av[1:5]); return (None,)
        if meth == "_M_append": return splice(n, 0, av[1], av[2])
        if meth == "append" and len(av) == 3 and "const*" in d: return splice(n, 0, av[1], av[2])
        if meth == "append" and len(av) == 3: return splice(n, 0, None, av[1], av[2])
        if meth == "push_back": return splice(n, 0, None, 1, av[1])
        if meth == "_M_replace": return splice(av[1], av[2], av[3], av[4])
        if meth == "_M_replace_aux": return splice(av[1], av[2], None, av[3], av[4])
        if meth in ("_M_erase", "erase") and len(av) == 3:
            ints(n, av[1])
            return splice(av[1], min(av[2], n - av[1]) if type(av[2]) is int else av[2], None, 0)
        if meth in ("_M_assign", "operator=", "assign") and len(av) == 2:
            if av[1] == a: return (a,)
            o = av[1]; return splice(0, n, self.load(st, o, 8), self.load(st, ("p", o[1], ladd(o[2], 8)), 8))
        if meth == "resize":
            k = av[1]; ints(n, k); c = av[2] if len(av) > 2 else 0
            if k < n: setlen(k)
            else: splice(n, 0, None, k - n, c)
            return (None,)
        if meth == "reserve":
            k = av[1] if len(av) > 1 else 0; ints(n, k, cap)
            if k <= cap: return (None,)
            bs = [self.load(st, ("p", ptr[1], ladd(ptr[2], i)), 1) for i in range(n + 1)]
            q = self.alloc(st, k + 1); release(); self.store(st, a, 8, q); self.store(st, sso, 8, k)
            for i, b in enumerate(bs): self.rawstore(st, q[1], ladd(q[2], i), 1, b)
            return (None,)
        raise Unsup("call of std::string::%s" % meth)
    def fill(self, st, p, c, n):
        if n == 0: return
        if type(n) is not int:
            raise Unsup("fill of unknown length")
        if n > 1 << 20: raise Unsup("fill of %d bytes" % n)
        if type(c) is int: c &= 255
        elif isB(c): c = fromb(c[1][:1])
        self.check(st, p, n, "writes")
        i = 0
        while i < n:
            z = 4 if i + 4 <= n and type(c) is int else 1
            self.rawstore(st, p[1], ladd(p[2], i), z, c * 0x01010101 if z == 4 else c); i += z
    def intrinsic(self, st, name, av, args):
        n = name[5:]
        if n.startswith(("memcpy", "memmove")): self.copy(st, av[0], av[1], av[2]); return None
        if n.startswith("memset"): self.fill(st, av[0], av[1], av[2]); return None
        if n.startswith(("lifetime", "dbg", "assume", "experimental", "donothing", "invariant", "prefetch")): return None
        if n.startswith("expect"): return av[0]
        if n.startswith(("stacksave",)): return 0
        if n.startswith("stackrestore"): return None
        if n.startswith("is.constant"): return 0
        if n.startswith("objectsize"): return (1 << 64) - 1
        if n.startswith(("umax", "umin", "smax", "smin")):
            t = args[0][0]; lt = self.icmp(st, n[0] + "lt", t, av[0], av[1])
            return (av[1] if lt else av[0]) if n[1:4] == "max" else (av[0] if lt else av[1])
        if n.startswith("abs"):
            t = args[0][0]
            return self.bin(st, "sub", t[1], 0, av[0]) if self.icmp(st, "slt", t, av[0], 0) else av[0]
        if ".with.overflow" in n:
            t = args[0][0]; w = t[1]; o = n[1:4]
            if type(av[0]) is int and type(av[1]) is int:
                x, y = (sg(v, w) for v in av[:2]) if n[0] == "s" else av[:2]
                r = {"add": x + y, "sub": x - y, "mul": x * y}[o]
                ov = not (-(1 << w - 1) <= r < 1 << w - 1) if n[0] == "s" else not 0 <= r < 1 << w
                return ("A", {0: r & (1 << w) - 1, 1: int(ov)})
            return ("A", {0: self.bin(st, o, w, av[0], av[1]), 1: 0})
        if n.startswith(("bswap",)) and isB(av[0]): return fromb(av[0][1][::-1])
        if n.startswith("fshl") and type(av[2]) is int and av[2] % 8 == 0:
            w = args[0][0][1] // 8; k = av[2] // 8 % w; x = tob(av[1], w) + tob(av[0], w)
            return fromb(x[w - k:2 * w - k])
        if n == "trap": return None
        raise Unsup(name)
Q_VAL = ("B", (Q,) * 8)
