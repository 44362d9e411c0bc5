"""Interprocedural abstract interpreter over LLVM IR (dataflow, merged at joins; see DESIGN.md)."""
import heapq, os, re, sys
from . import ir
from .terms import *

M64 = (1 << 64) - 1
class Budget(Exception): pass

def canon(p):
    """poly -> (L, c, s): p == s*L + c with L primitive, first coefficient positive"""
    c, d = parts(p)
    if not d: return None, c, 1
    m = min(d); from math import gcd
    g = 0
    for k in d.values(): g = gcd(g, abs(k))
    s = g if d[m] > 0 else -g
    return mk(0, {a: k // s for a, k in d.items()}), c, s

class St:
    __slots__ = ("mem", "own", "facts", "iv", "ts", "regs", "exc", "caught", "trace")
    def __init__(self):
        self.mem = {}; self.own = set(); self.facts = {}; self.iv = {}; self.ts = {}; self.regs = {}; self.exc = None; self.caught = (); self.trace = None
    def fork(self):
        n = St.__new__(St)
        n.mem = dict(self.mem); self.own = set(); n.own = set()
        n.facts = dict(self.facts); n.iv = dict(self.iv); n.ts = dict(self.ts); n.regs = dict(self.regs)
        n.exc = self.exc; n.caught = self.caught; n.trace = self.trace
        return n
    def obj(self, base):
        """writable cell dict of base"""
        d = self.mem.get(base)
        if d is None:
            d = self.mem[base] = {}; self.own.add(base)
        elif base not in self.own:
            d = self.mem[base] = dict(d); self.own.add(base)
        return d
    def tr(self, txt):
        self.trace = (self.trace, txt)
    def trace_list(self, n=14):
        out = []; t = self.trace
        while t is not None and len(out) < n:
            out.append(t[1]); t = t[0]
        return out[::-1]
    # ---- numeric facts
    def arng(self, i):
        a = AT[i]
        lo = hi = None
        k = a[0]
        if k == "b2i":
            d = self.decide(a[1])
            if d is not None: return d, d
            lo, hi = 0, 1
        elif k in ("len", "size", "zx"): lo = 0
        elif k == "kb":
            if a[2] < 1 << 63: lo, hi = a[1], a[2]
        elif k == "sym" and len(a) == 4: lo, hi = a[2], a[3]
        elif k == "fd": lo = 0
        elif k == "init" and len(a) > 3 and a[3] == 1: lo, hi = 0, 1
        elif k == "urem" and type(a[2]) is int: lo, hi = 0, a[2] - 1
        r = self.iv.get(("P", 0, (((i,), 1),)))
        if r:
            if r[0] is not None and (lo is None or r[0] > lo): lo = r[0]
            if r[1] is not None and (hi is None or r[1] < hi): hi = r[1]
        return lo, hi
    def rng(self, p):
        if type(p) is int: return p, p
        if not isP(p): return None, None
        lo = hi = p[1]
        for m, k in p[2]:
            if len(m) == 1: a, b = self.arng(m[0])
            else:
                a, b = 1, 1; ok = True
                for i in m:
                    x, y = self.arng(i)
                    if x is None or x < 0: ok = False; break
                    a = a * x
                    b = None if (y is None or b is None) else b * y
                if not ok: a = b = None
            if k < 0: a, b = b, a
            lo = None if (lo is None or a is None) else lo + a * k
            hi = None if (hi is None or b is None) else hi + b * k
        if len(p[2]) > 1 or len(p[2][0][0]) > 1 or abs(p[2][0][1]) != 1:
            L, c, s = canon(p)
            r = self.iv.get(L)
            if r:
                a, b = r
                if s < 0: a, b = b, a
                a = None if a is None else a * s + c
                b = None if b is None else b * s + c
                if a is not None and (lo is None or a > lo): lo = a
                if b is not None and (hi is None or b < hi): hi = b
        return lo, hi
    def decide(self, c):
        if type(c) is int: return c
        k = c[1]
        if k == "ge":
            lo, hi = self.rng(c[2])
            if lo is not None and lo >= 0: return 1
            if hi is not None and hi < 0: return 0
            return None
        if k in ("eq", "ne"):
            p = c[2]; y = 1 if k == "eq" else 0
            if type(p) is int: return y if p == 0 else 1 - y
            lo, hi = self.rng(p)
            if lo == 0 and hi == 0: return y
            if (lo is not None and lo > 0) or (hi is not None and hi < 0): return 1 - y
            if len(p[2]) == 1 and len(p[2][0][0]) == 1:
                a = AT[p[2][0][0][0]]; co = p[2][0][1]
                if a[0] == "kb":
                    v = (-p[1] * co) & M64
                    if v & ~a[2] or a[1] & ~v: return 1 - y
            if ("C", "ne", p) in self.facts: return 1 - y
            return None
        if k == "ult" or k == "uge":
            y = 1 if k == "ult" else 0
            a, b = c[2], c[3]
            la, ha = self.rng(a); lb, hb = self.rng(b)
            if la is not None and la >= 0 and lb is not None and lb >= 0:
                d = self.decide(c_ge(psub(psub(b, a), 1)))
                return None if d is None else (d if y else 1 - d)
            if ha is not None and ha < 0 and lb is not None and lb >= 0: return 1 - y
            if hb is not None and hb < 0 and la is not None and la >= 0: return y
            if c in self.facts: return 1
            if c_not(c) in self.facts: return 0
            return None
        if k == "and":
            a = self.decide(c[2])
            if a == 0: return 0
            b = self.decide(c[3])
            if b == 0: return 0
            return 1 if a == 1 and b == 1 else None
        if k == "or":
            a = self.decide(c[2])
            if a == 1: return 1
            b = self.decide(c[3])
            if b == 1: return 1
            return 0 if a == 0 and b == 0 else None
        if c in self.facts: return 1
        if c_not(c) in self.facts: return 0
        return None
    def assume(self, c):
        """refine by condition c; False if it contradicts what is known"""
        d = self.decide(c)
        if d is not None: return d == 1
        k = c[1]
        if k == "ge": self._le(c[2])
        elif k == "eq":
            self._le(c[2]); self._le(pneg(c[2]))
        elif k == "ne":
            p = c[2]; lo, hi = self.rng(p)
            if lo == 0: self._le(psub(p, 1))
            elif hi == 0: self._le(psub(pneg(p), 1))
            else: self.facts[c] = 1
        elif k in ("ult", "uge"):
            a, b = c[2], c[3]
            la, _ = self.rng(a); lb, _ = self.rng(b)
            if k == "ult" and lb is not None and lb >= 0:
                return self.assume(c_ge(a)) and self.assume(c_ge(psub(psub(b, a), 1)))
            if k == "uge" and la is not None and la >= 0 and lb is not None and lb >= 0:
                return self.assume(c_ge(psub(a, b)))
            self.facts[c] = 1
        elif k == "and": return self.assume(c[2]) and self.assume(c[3])
        elif k == "or":
            if self.decide(c[2]) == 0: return self.assume(c[3])
            if self.decide(c[3]) == 0: return self.assume(c[2])
            self.facts[c] = 1
        else: self.facts[c] = 1
        # disjunctive facts that became unit
        for f in [f for f in self.facts if f[1] == "or"]:
            if self.decide(f[2]) == 0 or self.decide(f[3]) == 0:
                del self.facts[f]
                if not self.assume(f): return False
        return True
    def linear(self):
        """the known linear constraints, as polys >= 0"""
        out = []; seen = set()
        def add(p):
            if isP(p): out.append(p)
        for L, (lo, hi) in self.iv.items():
            if lo is not None: add(psub(L, lo))
            if hi is not None: add(psub(hi, L))
            for i in atoms_of(L): seen.add(i)
        for f in self.facts:
            if f[1] == "ge": add(f[2])
            elif f[1] == "eq" and isP(f[2]): add(f[2]); add(pneg(f[2]))
        for i in list(seen):
            lo, hi = self.arng(i); a = ("P", 0, (((i,), 1),))
            if lo is not None: add(psub(a, lo))
            if hi is not None: add(psub(hi, a))
        return out
    def feasible(self, extra=()):
        """False if the known linear constraints (and those in extra, polys >= 0) contradict each other (Fourier-Motzkin elimination)"""
        cons = set(self.linear())
        for p in extra:
            if type(p) is int:
                if p < 0: return False
            else:
                cons.add(p)
                for i in atoms_of(p):
                    lo, hi = self.arng(i); a = ("P", 0, (((i,), 1),))
                    if lo is not None: cons.add(psub(a, lo))
                    if hi is not None: cons.add(psub(hi, a))
        n = 0
        while cons:
            var = {}
            for p in cons:
                for m, k in p[2]:
                    v = var.setdefault(m, [0, 0]); v[0 if k > 0 else 1] += 1
            if not var: break
            m = min(var, key=lambda m: (var[m][0] * var[m][1], m))
            pos = []; neg = []; new = set()
            for p in cons:
                k = dict(p[2]).get(m)
                if k is None: new.add(p)
                elif k > 0: pos.append((p, k))
                else: neg.append((p, -k))
            for p, a in pos:
                for q, b in neg:
                    r = padd(pmul(p, b), pmul(q, a))
                    if type(r) is int:
                        if r < 0: return False
                    else: new.add(r)
            cons = new; n += 1
            if len(cons) > 400 or n > 40: return True
        return True
    def prove(self, p):
        """p >= 0 follows from the linear constraints"""
        if self.decide(c_ge(p)) == 1: return True
        return not self.feasible((psub(pneg(p), 1),))
    def _le(self, p):     # p >= 0
        L, c, s = canon(p)
        # s*L + c >= 0
        lo, hi = self.iv.get(L, (None, None))
        if s > 0:
            b = -(c // s)
            if lo is None or b > lo: lo = b
        else:
            b = c // -s
            if hi is None or b < hi: hi = b
        self.iv[L] = (lo, hi)
        # excluded end points
        if ("C", "ne", _neq(L, lo)) in self.facts: self.iv[L] = (lo + 1, hi)
    def kill(self, i):
        """forget facts about atom i (it is being redefined)"""
        for f in [f for f in self.facts if i in deep_atoms(f)]: del self.facts[f]
        for f in [f for f in self.iv if i in deep_atoms(f)]: del self.iv[f]

EXT = (1 << 30) - 1
def _neq(L, k):
    if k is None: return None
    p = psub(L, k)
    from .terms import _norm_eq
    return _norm_eq(p) if not isinstance(p, int) else p

PAREN = {"<": ">", "(": ")", "[": "]", "{": "}"}
def strip_templates(d):
    out = []; i = 0; depth = 0; n = len(d)
    while i < n:
        c = d[i]
        if d.startswith("operator", i) and (i == 0 or not (d[i-1].isalnum() or d[i-1] == "_")):
            j = i + 8
            m = re.match(r"(<=>|<<=|>>=|->\*|<<|>>|<=|>=|->|\(\)|\[\]|<|>|[-+*/%^&|~!=]+)", d[j:])
            if m and depth == 0:
                out.append("operator" + m.group(1)); i = j + m.end(); continue
            if m and depth:
                i = j + m.end(); continue
        if c == "<": depth += 1
        elif c == ">" and d[i-1] != "-": depth -= 1
        elif depth == 0: out.append(c)
        i += 1
    return "".join(out)

def split_name(dem):
    """demangled -> (qualified name without template args and return type, [param types])"""
    d = dem
    m = re.search(r"\s*(\[abi:[\w]+\])", d)
    d = re.sub(r"\[abi:\w+\]", "", d)
    s = d.rstrip()
    for suf in (" const", " &", " &&", " volatile"):
        if s.endswith(suf): s = s[:-len(suf)]
    if not s.endswith(")"):
        return strip_templates(s), None
    depth = 0; i = len(s) - 1
    while i >= 0:
        if s[i] == ")": depth += 1
        elif s[i] == "(":
            depth -= 1
            if depth == 0: break
        i -= 1
    name = s[:i]; ps = s[i+1:-1]
    args = []; depth = 0; cur = ""
    for ch in ps:
        if ch in "<([{": depth += 1
        elif ch in ">)]}": depth -= 1
        if ch == "," and depth == 0: args.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): args.append(cur.strip())
    n = strip_templates(name)
    # drop return type: last space outside parens
    depth = 0; cut = 0
    for k, ch in enumerate(n):
        if ch in "({": depth += 1
        elif ch in ")}": depth -= 1
        elif ch == " " and depth == 0 and not n[:k].endswith("operator") : cut = k + 1
    return n[cut:].lstrip("*&"), args

class Program:
    """linked set of modules"""
    def __init__(self, paths):
        self.mods = [p if isinstance(p, ir.Module) else ir.Module(p) for p in paths]
        self.fn = {}
        for m in self.mods:
            for n, f in m.funcs.items():
                if n not in self.fn: self.fn[n] = f
            for n, t in m.aliases.items():
                if t in m.funcs and n not in self.fn: self.fn[n] = m.funcs[t]
        names = set(self.fn)
        for m in self.mods: names |= m.decls
        self.dem = ir.demangle(names)
        self._sn = {}
    def short(self, name):
        r = self._sn.get(name)
        if r is None:
            r = self._sn[name] = split_name(self.dem.get(name, name))
        return r

class Engine:
    def __init__(self, prog, models, rules=(), budget=1, repo="/repo"):
        self.prog = prog; self.models = models; self.rules = list(rules); self.budget = budget; self.repo = repo
        self.ctxs = {}; self.stk = []; self.tracked = set(); self.kind_cache = {}
        self.stats = {"calls": 0, "instructions": 0, "blocks": 0, "joins": 0, "functions": set(), "opaque": {}, "primitives": 0, "states": 0, "branches": 0}
        self.reports = []; self._rep = set()
        self.ginit = {}; self.max_ins = 20_000_000; self.rec_limit = 2
        self.quiet = 0; self.prof = None; self.keep_clock = 0; self.path_sens = False; self.wrap32 = True; self.gcache = {}
    # ------------------------------------------------------------ reporting
    def here(self):
        for f, ins in reversed(self.stk):
            if ins is None or ins.dbg is None: continue
            for fl, ln in f.mod.locs(ins.dbg):
                if fl.startswith(self.repo + "/"): return "%s:%d" % (os.path.normpath(fl)[len(self.repo):].lstrip("/"), ln)
        return "?"
    def where(self):
        """call path (user functions)"""
        out = []
        for f, ins in self.stk:
            n = self.prog.short(f.name)[0]
            if n.startswith(("EigenIPC", "PyEigenIPC")) or not n.startswith(("std::", "Eigen::", "boost::", "__gnu")):
                if not out or out[-1] != n: out.append(n)
        return " > ".join(x.replace("EigenIPC::", "") for x in out)
    def report(self, st, rule, msg, loc=None):
        k = (rule, msg, loc or self.here())
        if k in self._rep or self.quiet: return
        self._rep.add(k)
        self.reports.append({"rule": rule, "message": msg, "where": k[2], "path": self.where(), "entry": getattr(self, "entry", ""), "trace": st.trace_list() if st is not None else []})
    def emit(self, st, kind, *data):
        self.stats["primitives"] += 1
        for r in self.rules:
            h = getattr(r, "on_" + kind, None)
            if h: h(self, st, *data)
            elif hasattr(r, "on_any"): r.on_any(self, st, kind, data)
    # ------------------------------------------------------------ contexts
    def ctx(self, parent, key):
        k = (parent, key); r = self.ctxs.get(k)
        if r is None: r = self.ctxs[k] = len(self.ctxs) + 1
        return r
    # ------------------------------------------------------------ operands
    def gbase(self, mod, name):
        d = mod.globals.get(name)
        if d is None:
            for m in self.prog.mods:
                if name in m.globals and not re.match(r"(?:dso_local )?(?:internal|private)", m.globals[name]): 
                    return ("g", name, None, m)
            return ("g", name, None, mod)
        if re.match(r"(?:dso_local )?(?:internal|private)", d): return ("g", name, mod.path, mod)
        return ("g", name, None, mod)
    def val(self, f, st, ty, op):
        k = op[0]
        if k == "l":
            try: return st.regs[op[1]]
            except KeyError: return atom(("undef", op[1]))
        if k == "k": return op[1]
        if k == "g":
            n = op[1]
            if n in self.prog.fn or n in f.mod.decls: return ("p", ("fn", n), 0)
            return ("p", self.gbase(f.mod, n)[:3], 0)
        if k == "undef": return atom(("undef",)) if ty[0] not in ("st", "arr", "vec") else ("agg", {})
        if k == "cgep":
            (pt, pv), idx = op[2][0], op[2][1:]
            return self.gep(f, st, op[1], self.val(f, st, pt, pv), [(t, self.val(f, st, t, v)) for t, v in idx])
        if k == "ccast":
            return self.cast(f, st, op[1], op[2], self.val(f, st, op[2], op[3]), ty)
        if k == "agg":
            return ("agg", {i: self.val(f, st, t, v) for i, (t, v) in enumerate(op[1])})
        return atom(("undef",))
    def gep(self, f, st, bt, p, idx):
        if not isp(p):
            p = ("p", ("psym", p), 0) if p != 0 else ("p", ("psym", 0), 0)
        off = p[2]; t = bt; first = True
        for it, iv in idx:
            if isC(iv): iv = b2i(iv)
            if first:
                off = padd(off, pmul(iv, f.mod.layout(t)[0])); first = False; continue
            r = f.mod.resolve(t)
            if r[0] == "st":
                off = padd(off, f.mod.layout(r)[2][iv]); t = r[2][iv]
            elif r[0] in ("arr", "vec"):
                off = padd(off, pmul(iv, f.mod.layout(r[2])[0])); t = r[2]
            else: return ("p", ("psym", ("badgep",)), 0)
        return ("p", p[1], off)
    def aint(self, v):
        """value as integer poly"""
        if type(v) is int or isP(v): return v
        if isC(v): return b2i(v)
        if isp(v): return padd(atom(("addr", v[1])), v[2])
        if type(v) is float: return atom(("float", v))
        return atom(("val", v if type(v) is tuple and v[0] != "agg" else None))
    def wrap(self, v, bits):
        if type(v) is int and bits:
            m = 1 << bits; v &= m - 1
            if v >= m >> 1 and bits > 1: v -= m
        return v
    def may_wrap(self, st, v):
        """a 32-bit result built from a caller's integers may leave the range for some request (extents of matrices are taken to be at most EXT)"""
        if not any(AT[i][0] == "sym" and len(AT[i]) == 4 and AT[i][3] == (1 << 31) - 1 for m, k in v[2] for i in m): return False
        lo, hi = st.rng(v)
        if lo is not None and hi is not None and lo >= -(1 << 31) and hi < 1 << 31: return False
        lo = hi = v[1]
        for m, k in v[2]:
            if len(m) > 1: return False
            a = AT[m[0]]; pa = ("P", 0, ((m, 1),)); l, h = st.rng(pa)
            if not (a[0] == "sym" and len(a) == 4):
                if a[0] == "phi": return False
                l = -EXT if l is None else max(l, -EXT); h = EXT if h is None else min(h, EXT)
            else:
                for L, (x, y) in st.iv.items():
                    c = dict(L[2]).get(m)
                    if c is None or len(L[2]) != 2 or abs(c) != 1 or sum(q for _, q in L[2]) != 0: continue
                    if (y if c > 0 else x) is not None: h = min(h, EXT) if h is not None else EXT      # below another extent
                    if (x if c > 0 else y) is not None: l = max(l, -EXT) if l is not None else -EXT
            if k < 0: l, h = -h, -l
            lo += l * abs(k); hi += h * abs(k)
        return lo < -(1 << 31) or hi >= 1 << 31
    def cast(self, f, st, op, t, v, t2):
        if op == "trunc":
            if isC(v): return v if t2[1] == 1 else b2i(v)
            if t2[0] != "i": return atom(("undef",))
            n = t2[1]
            if isp(v): v = self.aint(v)
            if type(v) is int: return self.wrap(v, n)
            if n == 1: return c_ne(v)
            lo, hi = st.rng(v)
            if lo is not None and hi is not None and lo >= -(1 << (n-1)) and hi < (1 << (n-1)): return v
            a = single_atom(v)
            if a and a[0] in ("zx",) and t[1] > n and a[1] == n: return a[2]
            return atom(("tr", n, v))
        if op == "zext":
            if isC(v): return b2i(v)
            if type(v) is int:
                return v & ((1 << t[1]) - 1) if t[0] == "i" else v
            if t == ("i", 1): return b2i(c_ne(v))
            lo, hi = st.rng(v)
            if lo is not None and lo >= 0: return v
            return atom(("zx", t[1], v))
        if op == "sext":
            if isC(v): return pneg(b2i(v))
            if type(v) is int and t[1] == 1: return -(v & 1)
            return v
        if op == "ptrtoint": return self.aint(v)
        if op == "inttoptr":
            if type(v) is int: return v
            if isP(v):
                for m, k in v[2]:
                    if k == 1 and len(m) == 1 and AT[m[0]][0] == "addr":
                        return ("p", AT[m[0]][1], psub(v, atom(AT[m[0]])))
            return ("p", ("psym", v), 0)
        if op in ("sitofp", "uitofp"):
            v = self.aint(v)
            return float(v) if type(v) is int else atom(("i2f", v))
        if op in ("fptosi", "fptoui"):
            if type(v) is float: return int(v)
            a = single_atom(v) if isP(v) else None
            return a[1] if a and a[0] == "i2f" else atom(("f2i", v))
        return v      # fpext, fptrunc, bitcast
    def icmp(self, st, pred, a, b, ty):
        if isS(a) or isS(b): return ("C", "op", "cmp", pred, a, b)
        if isp(a) or isp(b):
            if isp(a) and isp(b) and a[1] == b[1]: d = psub(a[2], b[2])
            elif isp(a) and isp(b) and pred in ("eq", "ne") and self.known_obj(a[1]) and self.known_obj(b[1]): return int(pred == "ne")
            elif isp(a) and type(b) is int and pred in ("eq", "ne") and self.known_obj(a[1]): return int(pred == "ne")
            elif isp(b) and type(a) is int and pred in ("eq", "ne") and self.known_obj(b[1]): return int(pred == "ne")
            else:
                return self.icmp(st, pred, self.aint(a), self.aint(b), ("i", 64))
            if pred in ("eq",): return c_eq(d)
            if pred == "ne": return c_ne(d)
            if pred[0] == "u": pred = "s" + pred[1:]
            return self.icmp(st, pred, d, 0, ("i", 64))
        if isC(a) or isC(b):
            if type(b) is int and pred in ("eq", "ne"):
                b &= 1
                return a if (pred == "eq") == (b == 1) else c_not(a)
            if type(a) is int and pred in ("eq", "ne"):
                a &= 1
                return b if (pred == "eq") == (a == 1) else c_not(b)
            a, b = self.aint(a), self.aint(b)
        if type(a) is float or type(b) is float or not (type(a) is int or isP(a)) or not (type(b) is int or isP(b)):
            return ("C", "op", "cmp", pred, a, b)
        if pred == "eq": return c_eq(psub(a, b))
        if pred == "ne": return c_ne(psub(a, b))
        if pred == "sge": return c_ge(psub(a, b))
        if pred == "sgt": return c_ge(psub(psub(a, b), 1))
        if pred == "sle": return c_ge(psub(b, a))
        if pred == "slt": return c_ge(psub(psub(b, a), 1))
        bits = ty[1] if ty[0] == "i" else 64
        if type(a) is int: a &= (1 << bits) - 1
        if type(b) is int: b &= (1 << bits) - 1
        if type(a) is int and type(b) is int:
            return int({"ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[pred])
        if pred == "ult": c = ("C", "ult", a, b)
        elif pred == "uge": c = ("C", "uge", a, b)
        elif pred == "ugt": c = ("C", "ult", b, a)
        else: c = ("C", "uge", b, a)
        la, _ = st.rng(c[2]); lb, _ = st.rng(c[3])
        if la is not None and la >= 0 and lb is not None and lb >= 0:
            g = psub(c[2], c[3])
            return c_ge(g) if c[1] == "uge" else c_ge(psub(pneg(g), 1))
        return c
    def known_obj(self, b):
        return b[0] in ("a", "h", "map", "sem", "fn", "g", "obj", "cstr", "exc", "heap")
    def kbof(self, v):
        if type(v) is int: return (v & M64, v & M64)
        a = single_atom(v)
        return (a[1], a[2]) if a and a[0] == "kb" else None
    def mkkb(self, must, may):
        return (must - (1 << 64) if must >> 63 else must) if must == may else atom(("kb", must, may))
    def binop(self, st, op, ty, a, b):
        if ty[0] == "f": 
            if op == "fmul" and type(a) is float and type(b) is float: return a * b
            if op == "fadd" and type(a) is float and type(b) is float: return a + b
            if op == "fdiv" and type(a) is float and type(b) is float and b: return a / b
            return atom(("fop", op, a, b))
        bits = ty[1] if ty[0] == "i" else 64
        if bits == 1:
            if op == "xor":
                if type(b) is int: return a if b & 1 == 0 else c_not(a)
                if type(a) is int: return b if a & 1 == 0 else c_not(b)
                return ("C", "op", "xor", a, b)
            if op == "and": return c_and(a & 1 if type(a) is int else a, b & 1 if type(b) is int else b)
            if op == "or": return c_or(a & 1 if type(a) is int else a, b & 1 if type(b) is int else b)
            return ("C", "op", op, a, b)
        a, b = self.aint(a), self.aint(b)
        if op == "add": return self.wrap(padd(a, b), bits)
        if op == "sub": return self.wrap(psub(a, b), bits)
        if op == "mul": return self.wrap(pmul(a, b), bits)
        ca, cb = type(a) is int, type(b) is int
        if ca and cb:
            ua, ub = a & ((1 << bits) - 1), b & ((1 << bits) - 1)
            try:
                if op == "sdiv": r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                elif op == "udiv": r = ua // ub
                elif op == "srem": r = abs(a) % abs(b) * (-1 if a < 0 else 1)
                elif op == "urem": r = ua % ub
                elif op == "and": r = a & b
                elif op == "or": r = a | b
                elif op == "xor": r = a ^ b
                elif op == "shl": r = a << ub
                elif op == "lshr": r = ua >> ub
                elif op == "ashr": r = a >> ub
                return self.wrap(r, bits)
            except (ZeroDivisionError, ValueError): return atom(("undef",))
        if op == "shl" and cb: return pmul(a, 1 << b)
        if op in ("and", "or"):
            ka, kb = self.kbof(a), self.kbof(b)
            if ka and kb and bits == 64:
                return self.mkkb(ka[0] & kb[0], ka[1] & kb[1]) if op == "and" else self.mkkb(ka[0] | kb[0], ka[1] | kb[1])
            if op == "and":
                for x, m in ((a, b), (b, a)):
                    if type(m) is int:
                        if m == 0: return 0
                        if m == -1: return x
                        if m > 0 and m & (m + 1) == 0:
                            lo, hi = st.rng(x)
                            if lo is not None and hi is not None and lo >= 0 and hi <= m: return x
            if op == "or":
                if a == 0: return b
                if b == 0: return a
        if op == "xor" and cb and b == -1: return psub(pneg(a), 1)
        if op in ("sdiv", "udiv", "ashr", "lshr") and cb and b > 0:
            dv = b if op in ("sdiv", "udiv") else 1 << b
            if dv == 1 or (op in ("ashr", "lshr") and b == 0): return a
            if isP(a) and a[1] % dv == 0 and all(k % dv == 0 for _, k in a[2]) and op in ("sdiv", "ashr"):
                return mk(a[1] // dv, {m: k // dv for m, k in a[2]})
            if isP(a) and a[1] % dv == 0 and all(k % dv == 0 for _, k in a[2]):
                lo, hi = st.rng(a)
                if lo is not None and lo >= 0: return mk(a[1] // dv, {m: k // dv for m, k in a[2]})
        if op in ("srem", "urem") and cb and b > 0 and isP(a) and all(k % b == 0 for _, k in a[2]):
            if a[1] % b == 0: return 0
            lo, hi = st.rng(a)
            if lo is not None and lo >= 0: return a[1] % b
        return atom((op, a, b))
    # ------------------------------------------------------------ memory
    def is_shared(self, base): return base[0] == "map"
    def init_global(self, st, base):
        n, mod = base[1], None
        for m in self.prog.mods:
            if n in m.globals and (base[2] is None or m.path == base[2]):
                mod = m
                if "external global" not in m.globals[n][:60]: break
        cells = {}
        if mod is not None:
            d = mod.globals[n]
            try:
                toks = ir.TOK.findall(d); p = ir.P(toks)
                while p.peek() not in ("global", "constant"): p.next()
                const = p.next() == "constant"
                ty = ir.parse_type(p)
                if "external" not in toks[:4]:
                    v = ir.parse_value(p, ty)
                    if const or n.startswith((".str", "__const", "switch.")) or v[0] != "k":
                        self.lay_init(mod, cells, 0, ty, v)
            except (ir.IRError, IndexError, KeyError, TypeError): pass
        pre = self.ginit.get(base)
        if pre: cells.update(pre)
        return cells
    def lay_init(self, mod, cells, off, ty, v):
        r = mod.resolve(ty)
        if v[0] == "cstr":
            s = bytes(ir_cstr(v[1])); cells["text"] = cells.get("text", ()) + ((off, s),); 
            for i, ch in enumerate(s):
                if len(s) < 4096: cells[off + i] = (1, ch if ch < 128 else ch - 256)
        elif v[0] == "agg":
            if r[0] == "st":
                for (et, ev), o in zip(v[1], mod.layout(r)[2]): self.lay_init(mod, cells, off + o, et, ev)
            elif r[0] in ("arr", "vec"):
                sz = mod.layout(r[2])[0]
                for i, (et, ev) in enumerate(v[1]): self.lay_init(mod, cells, off + i * sz, et, ev)
        elif v[0] == "k" and r[0] in ("st", "arr", "vec"):
            cells["z"] = cells.get("z", ()) + ((off, off + mod.layout(r)[0]),)
        elif v[0] in ("k", "g", "cgep", "ccast"):
            class F: pass
            F.mod = mod
            cells[off] = (mod.layout(r)[0], self.val(F, St(), r, v))
    def cells(self, st, base):
        d = st.mem.get(base)
        if d is None and base[0] == "g":
            d = self.gcache.get(base)
            if d is None: d = self.gcache[base] = self.init_global(st, base)
        return d
    def default(self, st, d, base, off, size, isptr):
        if d is not None and type(off) is int:
            for lo, hi in d.get("z", ()):
                if lo <= off and off + size <= hi: return 0
        v = d.get("v", 0) if d else 0
        a = ("init", base, off, size) if not v else ("init", base, off, size, v)
        if isptr: return ("p", a, 0)
        return atom(a)
    def load(self, st, f, p, ty, record=True):
        r = f.mod.resolve(ty)
        if r[0] in ("st", "arr"):
            if not isp(p): return ("agg", {})
            offs = f.mod.layout(r)[2] if r[0] == "st" else [i * f.mod.layout(r[2])[0] for i in range(min(r[1], 64))]
            return ("agg", {i: self.load(st, f, ("p", p[1], padd(p[2], o)), r[2][i] if r[0] == "st" else r[2], record) for i, o in enumerate(offs)})
        size = f.mod.layout(r)[0]
        isptr = r[0] == "ptr"
        if not isp(p):
            if record: self.emit(st, "badptr", p)
            return ("p", ("psym", ("deref", p)), 0) if isptr else atom(("deref", p))
        base, off = p[1], p[2]
        if base[0] == "cstr":
            s = base[1]
            if type(off) is int and s[1] and type(s[1][0]) is str and len(s[1]) == 1:
                t = s[1][0].encode("utf-8", "surrogateescape")
                return t[off] if off < len(t) else 0
            return atom(("ch", s, off))
        if self.is_shared(base):
            a = ("shm", base[1], off, self.ctx(self.curctx, ("ld", id(self.curins))))
            if record: 
                st.kill(aid(a)); self.emit(st, "access", "R", base, off, size, atom(a))
            return atom(a)
        d = self.cells(st, base)
        if base[0] == "g" and off == 0 and getattr(self, "tables", False) and str(base[1]).startswith("_ZGV"):
            # guard of a function-local static: its initialiser runs first
            return d[0][1] if d and 0 in d else 0
        if type(off) is int:
            if d is not None:
                c = d.get(off)
                if c is not None:
                    if c[0] == size:
                        v = c[1]
                        if isptr and isP(v): return ("p", ("psym", v), 0)
                        if not isptr and isp(v) and r[0] == "i": return self.aint(v)
                        return v
                    if type(c[1]) is int and size < c[0]: return self.wrap(c[1], size * 8)
                    return atom(("part", base, off, size, c[1] if not isS(c[1]) else 0))
                if not isptr and size in (2, 4, 8) and r[0] == "i":
                    bs = [d.get(off + i) for i in range(size)]
                    if all(b is not None and b[0] == 1 and type(b[1]) is int for b in bs):
                        return int.from_bytes(bytes(b[1] & 255 for b in bs), "little", signed=True)
                    if size == 8:
                        b = [d.get(off), d.get(off + 4)]
            return self.default(st, d, base, off, size, isptr)
        if record: self.emit(st, "symload", base, off, size)
        v = d.get("v", 0) if d else 0
        a = ("ld", base, off, size, v)
        return ("p", a, 0) if isptr else atom(a)
    def put(self, st, base, off, size, v):
        d = st.obj(base)
        if base[0] == "g" and not d: d.update(self.init_global(st, base))
        if type(off) is int:
            if off not in d or d[off][0] != size:
                for o in range(max(0, off - 31), off + size):
                    c = d.get(o)
                    if c is not None and o != off and o + c[0] > off: del d[o]
            d[off] = (size, v)
        else:
            ver = d.get("v", 0)
            # unknown position inside the object: everything at unknown place is lost
            d.clear(); d["v"] = ver + 1 if ver < 3 else 3
    def store(self, st, f, p, ty, v, record=True):
        r = f.mod.resolve(ty)
        if r[0] in ("st", "arr"):
            if isp(p) and type(v) is tuple and v[0] == "agg" and r[0] == "st":
                for i, o in enumerate(f.mod.layout(r)[2]):
                    if i in v[1]: self.store(st, f, ("p", p[1], padd(p[2], o)), r[2][i], v[1][i], record)
            elif isp(p) and v == 0 and type(p[2]) is int:
                self.zero(st, p[1], p[2], f.mod.layout(r)[0])
            return
        size = f.mod.layout(r)[0]
        if not isp(p):
            if record: self.emit(st, "badptr", p)
            return
        base, off = p[1], p[2]
        if r == ("i", 1) and isC(v): v = b2i(v)
        if self.is_shared(base):
            if record: self.emit(st, "access", "W", base, off, size, v)
            return
        if base[0] in ("a", "h", "obj", "g"):
            if type(off) is not int and record: self.emit(st, "symstore", base, off, size, v)
            self.put(st, base, off, size, v)
        else:
            if record: self.emit(st, "userstore", base, off, size, v)
            self.put(st, base, off, size, v)
    def zero(self, st, base, off, n):
        d = st.obj(base)
        for o in [o for o in d if type(o) is int and off <= o < off + n]: del d[o]
        d["z"] = d.get("z", ()) + ((off, off + n),)
    def havoc(self, st, base, off=None):
        if base[0] in ("a", "h"):
            d = st.obj(base); ver = d.get("v", 0); d.clear(); d["v"] = min(ver + 1, 3)
    # ------------------------------------------------------------ joins
    def jval(self, a, b, key, size):
        if a == b: return a
        if size == 8 and not isS(a) and not isS(b):
            ka, kb = self.kbof(a) if not isp(a) else None, self.kbof(b) if not isp(b) else None
            if ka and kb: return self.mkkb(ka[0] & kb[0], ka[1] | kb[1])
        if isS(a) or isS(b): return ("S", (("sphi",) + key,))
        if isp(a) or isp(b):
            return ("p", ("phi",) + key, 0)
        if isC(a) or isC(b): return ("C", "op", "phi") + key
        return atom(("phi",) + key)
    def phis(self, v):
        if isP(v):
            a = single_atom(v)
            if a and a[0] == "phi": return aid(a)
        return None
    def join(self, a, b, ctx, blk, widen=False):
        """join b into a copy of a; returns (state, changed)"""
        self.stats["joins"] += 1
        n = a.fork(); changed = False
        newphi = []; redone = {}; kept = set()
        for base in set(a.mem) | set(b.mem):
            x, y = a.mem.get(base), b.mem.get(base)
            if x is y: continue
            if x is None:
                n.mem[base] = y; changed = True; continue
            if y is None: continue
            if x == y: continue
            d = None
            for off in set(x) | set(y):
                cx, cy = x.get(off), y.get(off)
                if cx == cy: continue
                if off == "z":
                    z = tuple(r for r in x.get("z", ()) if r in y.get("z", ()))
                    if d is None: d = n.obj(base)
                    if z != x.get("z", ()): d["z"] = z; changed = True
                    continue
                if off == "v":
                    m = max(cx or 0, cy or 0)
                    if m != cx:
                        if d is None: d = n.obj(base)
                        d["v"] = m; changed = True
                    continue
                if off == "text": continue
                if cx is None:
                    sz = cy[0]; vy = cy[1]; vx = self.default(a, x, base, off, sz, isp(vy))
                    if isS(vy): vx = ("S", (("strinit", base, off),))
                elif cy is None:
                    sz = cx[0]; vx = cx[1]; vy = self.default(b, y, base, off, sz, isp(vx))
                    if isS(vx): vy = ("S", (("strinit", base, off),))
                elif cx[0] != cy[0]:
                    if d is None: d = n.obj(base)
                    if off in d: del d[off]; changed = True
                    continue
                else: sz, vx, vy = cx[0], cx[1], cy[1]
                j = self.jval(vx, vy, (ctx, blk, base, off), sz)
                if j != vx or cx is None:
                    if d is None: d = n.obj(base)
                    d[off] = (sz, j); changed = True
                i = self.phis(j)
                if i is not None: newphi.append((i, vx, vy))
        for r in list(n.regs):
            if r not in b.regs: del n.regs[r]; continue
            vx, vy = n.regs[r], b.regs[r]
            if vx == vy: continue
            if (type(vx) is tuple and vx and vx[0] == "agg") or (type(vy) is tuple and vy and vy[0] == "agg"): n.regs[r] = ("agg", {}); continue
            j = self.jval(vx, vy, (ctx, blk, "r", r), 4)
            if j != vx: n.regs[r] = j; changed = True
            i = self.phis(j)
            if i is not None: newphi.append((i, vx, vy))
        # facts; for the next value of an existing phi, b's facts about the atom speak of its previous value
        nxt = {}
        for i, vx, vy in newphi:
            pa = ("P", 0, (((i,), 1),))
            if vx != pa: n.kill(i); nxt.pop(i, None)
            elif vy != pa: nxt[i] = vy
        if nxt:
            ks = set(nxt)
            for f in [f for f in n.facts if ks & deep_atoms(f)]:
                g = substitute(f, nxt)
                if g is None or b.decide(g) != 1: del n.facts[f]; changed = True
            for L in [L for L in n.iv if ks & deep_atoms(L)]:
                l0, h0 = n.iv.pop(L); g = substitute(L, nxt)
                l2, h2 = (None, None) if g is None else b.rng(g)
                nl = None if l0 is None or l2 is None else min(l0, l2)
                nh = None if h0 is None or h2 is None else max(h0, h2)
                if widen:
                    if nl != l0: nl = None
                    if nh != h0: nh = None
                if (nl, nh) != (l0, h0): changed = True
                redone[L] = (nl, nh)
            for f in n.facts:
                if ks & deep_atoms(f): kept.add(f)
        for f in list(n.facts):
            if f not in kept and b.decide(f) != 1: del n.facts[f]; changed = True
        iv = {}
        for L, (lo, hi) in n.iv.items():
            l2, h2 = b.rng(L)
            nl = None if lo is None or l2 is None else min(lo, l2)
            nh = None if hi is None or h2 is None else max(hi, h2)
            if widen:
                if nl != lo: nl = None
                if nh != hi: nh = None
            if (nl, nh) != (lo, hi): changed = True
            if nl is not None or nh is not None: iv[L] = (nl, nh)
        for L, (nl, nh) in redone.items():
            if nl is not None or nh is not None: iv[L] = (nl, nh)
        for i, vx, vy in newphi:
            pa = ("P", 0, (((i,), 1),))
            if pa in iv or pa in redone or vx == pa and i in nxt: continue
            if vx == pa: continue
            l1, h1 = a.rng(vx) if (type(vx) is int or isP(vx)) else (None, None)
            l2, h2 = b.rng(vy) if (type(vy) is int or isP(vy)) else (None, None)
            nl = None if l1 is None or l2 is None else min(l1, l2)
            nh = None if h1 is None or h2 is None else max(h1, h2)
            if widen:
                if nl is not None and nl != l1: nl = None
                if nh is not None and nh != h1: nh = None
            if nl is not None or nh is not None: iv[pa] = (nl, nh)
        n.iv = iv
        if n.exc != b.exc: n.exc = n.exc or b.exc
        return n, changed
    def small(self, c, sizes):
        if type(c) is not tuple: return None
        s, v = c
        if s in sizes and type(v) is int: return v
        return None
    def sig(self, st, f, blk, bases, sizes_frame, ctx, phiregs):
        """partition key; bases: iterable of objects, or {object: offsets that matter}"""
        cells = []
        sel = bases if type(bases) is dict else None
        for base in bases:
            d = st.mem.get(base)
            if d is None: continue
            trk = base in self.tracked
            fr = base[0] == "a" and base[1] == ctx
            heap = base[0] in ("a", "h") and not fr
            for off in (sel[base] if sel is not None else d):
                if type(off) is not int: continue
                c = d.get(off)
                if c is None: continue
                s, v = c
                if type(v) is int:
                    if s == 1 or (trk and s == 4 and 4 in sizes_frame) or (fr and s in sizes_frame) or (heap and s == 4):
                        cells.append((base, off, v))
                    elif trk and s == 8 and v in (0, -1): cells.append((base, off, v))
                elif self.keep_clock and s == 8 and isP(v):
                    if any(AT[i][0] == "clock" or AT[i][0] == "sym" and str(AT[i][1]).startswith("clock") for i in atoms_of(v)): cells.append((base, off, v))
                elif isp(v) and (trk or (fr and 8 in sizes_frame and type(v[2]) is int)): cells.append((base, off, v[1], v[2] if fr else 0))
        out = [frozenset(st.ts.items()), frozenset(cells)]
        if phiregs: out.append(tuple(st.regs.get(r) for r in phiregs))
        if self.path_sens: out.append((frozenset(st.facts), frozenset(st.iv.items())))
        if st.exc is not None: out.append(st.exc[0:2])
        out.append(st.caught)
        return tuple(out)
    def diffs(self, sts):
        """{object: offsets whose cells differ between the states}"""
        m0 = sts[0].mem; out = {}
        for s in sts[1:]:
            for b, d in s.mem.items():
                e = m0.get(b)
                if e is d: continue
                if e is None:
                    out.setdefault(b, set()).update(d); continue
                w = None
                for o, c in d.items():
                    x = e.get(o)
                    if x is not c and x != c:
                        if w is None: w = out.setdefault(b, set())
                        w.add(o)
                if len(e) != len(d) or w:
                    for o in e:
                        if o not in d:
                            if w is None: w = out.setdefault(b, set())
                            w.add(o)
            for b, e in m0.items():
                if b not in s.mem: out.setdefault(b, set()).update(e)
        return out
    def merge(self, f, blk, sts, ctx):
        """merge states arriving at a (non loop head) block"""
        if len(sts) < 2: return sts
        phiregs = [i.dst for i in f.blocks[blk] if i.op == "phi"] if blk in f.blocks else []
        bases = self.diffs(sts)
        for sizes in ((1, 4), (1,), None):
            groups = {}
            for s in sts:
                rg = frozenset((r, v) for r, v in s.regs.items() if type(v) is int and -1 <= v <= 1) if sizes else None
                if sizes is None:
                    k = (frozenset(s.ts.items()), tuple(s.regs.get(r) for r in phiregs), s.exc and s.exc[:2], s.caught)
                else: k = self.sig(s, f, blk, bases, sizes, ctx, None) + (rg,)
                groups.setdefault(k, []).append(s)
            if len(groups) <= 400: break
            self.stats["coarse"] = self.stats.get("coarse", 0) + 1
        out = []
        for k, g in groups.items():
            s = g[0]
            for t in g[1:]: s, _ = self.join(s, t, ctx, blk)
            out.append(s)
        return out
    # ------------------------------------------------------------ functions
    def run(self, f, args, st, ctx):
        f.parse()
        self.stats["functions"].add(f.name); self.stats["calls"] += 1
        i0 = self.stats["instructions"]
        saved = st.regs
        st.regs = {}
        if not hasattr(f, "keepregs"): f.keepregs = set(f.cross) | {n if n else "%" + str(i) for i, (t, n, info) in enumerate(f.params)}
        for (t, n, info), a in zip(f.params, args):
            i = len(st.regs)
            st.regs[n if n else "%" + str(i)] = a
        params = dict(st.regs)
        outs = []
        pend = {f.entry: [st]}; heap = [(0, f.entry)]
        seen = {}; mode = {}; visits = {}
        self.stk.append([f, None])
        try:
            while heap:
                _, b = heapq.heappop(heap)
                sts = pend.pop(b, None)
                if not sts: continue
                if b in f.loops:
                    sts = self.loop_merge(f, b, sts, ctx, seen, mode, visits)
                else:
                    sts = self.merge(f, b, sts, ctx)
                for s in sts:
                    self.stats["blocks"] += 1
                    for kind, x, y in self.block(f, b, s, ctx, mode):
                        if kind == "go":
                            self.edge(f, b, y, x, ctx)
                            if y not in pend:
                                pend[y] = []; heapq.heappush(heap, (f.rpo[y], y))
                            pend[y].append(x)
                        else:
                            x.regs = {}
                            outs.append((kind, x, y))
        finally:
            self.stk.pop()
            if self.prof is not None:
                q = self.prof.setdefault(f.name, [0, 0]); q[0] += 1; q[1] += self.stats["instructions"] - i0
        # drop this frame's objects
        for kind, s, v in outs:
            if f.loops and self.path_sens:
                for h in f.loops: s.ts.pop(("~lp", ctx, h), None)
            for b in [b for b in s.mem if b[0] == "a" and b[1] == ctx]:
                del s.mem[b]
        if len(outs) > 1: outs = self.merge_outs(f, outs, ctx)
        for kind, s, v in outs: s.regs = dict(saved)
        return outs
    def merge_outs(self, f, outs, ctx):
        groups = {}
        def vk(v):
            if type(v) is int and not -4096 <= v <= 4096: return "P"
            if isP(v): return "P"
            if type(v) is tuple and v and v[0] == "agg": return ("agg",)
            return v
        bases = self.diffs([o[1] for o in outs])
        for o in outs:
            kind, s, v = o
            k = (kind, vk(v), self.sig(s, f, "ret", bases, (1, 4), ctx, None))
            groups.setdefault(k, []).append(o)
        if len(groups) > 400:
            self.stats["coarse"] = self.stats.get("coarse", 0) + 1
            g2 = {}
            for o in outs:
                kind, s, v = o
                g2.setdefault((kind, vk(v), frozenset(s.ts.items()), s.exc and s.exc[:2], s.caught), []).append(o)
            groups = g2
        res = []
        for k, g in groups.items():
            kind, s, v = g[0]
            s.regs = {"#ret": v}
            for _, t, w in g[1:]:
                t.regs = {"#ret": w}
                s, _c = self.join(s, t, ctx, "ret")
            res.append((kind, s, s.regs["#ret"]))
        return res
    def loop_merge(self, f, b, sts, ctx, seen, mode, visits):
        out = []
        phiregs = [i.dst for i in f.blocks[b] if i.op == "phi"]
        for s in sts:
            n = visits[b] = visits.get(b, 0) + 1
            if mode.get(b) == "widen" or n > 400:
                mode[b] = "widen"; sizes = (1,)
            else: sizes = (1, 4, 8)
            bases = [x for x in s.mem if x in self.tracked or x[0] == "a"]
            ps = self.path_sens
            if sizes == (1,): self.path_sens = False        # partition by the facts at the loop's entry (in ts), not by those of each iteration
            k = (mode.get(b), self.sig(s, f, b, bases, sizes, ctx, phiregs if sizes != (1,) else None))
            self.path_sens = ps
            acc = seen.setdefault(b, {})
            if k in acc:
                j, ch = self.join(acc[k], s, ctx, b, widen=n > 3)
                if not ch: continue
                acc[k] = j; out.append(j.fork())
            else:
                acc[k] = s.fork(); out.append(s)
        return out
    def edge(self, f, b, y, s, ctx):
        if self.path_sens and f.loops:
            for h in f.inner.get(b, ()):
                if y not in f.loops[h]: s.ts.pop(("~lp", ctx, h), None)
            if y in f.loops and b not in f.loops[y]: s.ts[("~lp", ctx, y)] = hash((frozenset(s.facts), frozenset(s.iv.items())))
        ph = []
        for i in f.blocks[y]:
            if i.op != "phi": break
            for v, pb in i.a[1]:
                if pb == b:
                    ph.append((i.dst, self.val(f, s, i.a[0], v))); break
        if s.regs:
            cr = f.keepregs
            s.regs = {r: v for r, v in s.regs.items() if r in cr}
        for r, v in ph: s.regs[r] = v
    def block(self, f, b, st, ctx, mode):
        """execute one block: list of ('go', state, succ) | ('ret', state, val) | ('exc', state, None)"""
        res = []
        work = [(0, st)]
        code = f.blocks[b]
        top = self.stk[-1]
        while work:
            i, s = work.pop()
            while True:
                ins = code[i]; top[1] = ins
                op = ins.op
                self.stats["instructions"] += 1
                if op == "load":
                    self.curctx = ctx; self.curins = ins
                    s.regs[ins.dst] = self.load(s, f, self.val(f, s, ("ptr",), ins.a[1]), ins.a[0])
                elif op == "store":
                    self.curctx = ctx; self.curins = ins
                    t, v, q = ins.a
                    self.store(s, f, self.val(f, s, ("ptr",), q), t, self.val(f, s, t, v))
                elif op == "alloca":
                    base = ("a", ctx, ins.dst)
                    s.mem[base] = {}; s.own.add(base)
                    s.regs[ins.dst] = ("p", base, 0)
                elif op == "gep":
                    (pt, pv), idx = ins.a[1][0], ins.a[1][1:]
                    s.regs[ins.dst] = self.gep(f, s, ins.a[0], self.val(f, s, pt, pv), [(t, self.val(f, s, t, v)) for t, v in idx])
                elif op == "call" or op == "invoke":
                    outs = self.call(f, s, ins, ctx)
                    if op == "call":
                        first = None
                        for kind, t, v in outs:
                            if kind == "ret":
                                if ins.dst: t.regs[ins.dst] = v
                                if first is None: first = t
                                else: work.append((i + 1, t))
                            else: res.append(("exc", t, None))
                        if first is None: break
                        s = first
                    else:
                        for kind, t, v in outs:
                            if kind == "ret":
                                if ins.dst: t.regs[ins.dst] = v
                                res.append(("go", t, ins.a[3]))
                            else:
                                t = self.unwind(f, t, ins.a[4], res)
                        break
                elif op == "br":
                    if ins.a[0] is None:
                        res.append(("go", s, ins.a[1])); break
                    c = self.val(f, s, ("i", 1), ins.a[0])
                    if isP(c): c = c_ne(c)
                    if type(c) is int: c &= 1
                    elif not isC(c): c = ("C", "op", "br", c)
                    self.stats["branches"] += 1
                    d = s.decide(c)
                    if d is None:
                        for h in f.inner.get(b, ()):
                            body = f.loops[h]
                            if (ins.a[1] in body) != (ins.a[2] in body): mode[h] = "widen"
                        t = s.fork()
                        if t.assume(c): res.append(("go", t, ins.a[1]))
                        if s.assume(c_not(c)): res.append(("go", s, ins.a[2]))
                    else: res.append(("go", s, ins.a[1] if d else ins.a[2]))
                    break
                elif op == "ret":
                    res.append(("ret", s, None if ins.a[1] is None else self.val(f, s, ins.a[0], ins.a[1]))); break
                elif op == "icmp":
                    s.regs[ins.dst] = self.icmp(s, ins.a[0], self.val(f, s, ins.a[1], ins.a[2]), self.val(f, s, ins.a[1], ins.a[3]), ins.a[1])
                elif op == "bin":
                    s.regs[ins.dst] = self.binop(s, ins.a[0], ins.a[1], self.val(f, s, ins.a[1], ins.a[2]), self.val(f, s, ins.a[1], ins.a[3]))
                    if ins.a[1] == ("i", 32) and ins.a[0] in ("add", "sub", "mul"):
                        v = s.regs[ins.dst]
                        if isP(v) and self.wrap32 and self.may_wrap(s, v): s.regs[ins.dst] = atom(("tr", 32, v))
                elif op == "cast":
                    s.regs[ins.dst] = self.cast(f, s, ins.a[0], ins.a[1], self.val(f, s, ins.a[1], ins.a[2]), ins.a[3])
                elif op == "phi" or op == "nop": pass
                elif op == "copy": s.regs[ins.dst] = self.val(f, s, ins.a[0], ins.a[1])
                elif op == "select":
                    c = self.val(f, s, ("i", 1), ins.a[0])
                    x, y = self.val(f, s, ins.a[1], ins.a[2]), self.val(f, s, ins.a[1], ins.a[3])
                    d = s.decide(c) if (isC(c) or type(c) is int) else None
                    if d is not None: s.regs[ins.dst] = x if d else y
                    elif x == y: s.regs[ins.dst] = x
                    else:
                        t = s.fork()
                        if t.assume(c):
                            t.regs[ins.dst] = x; work.append((i + 1, t))
                        if not s.assume(c_not(c)): break
                        s.regs[ins.dst] = y
                elif op == "switch":
                    t, v, dflt, cases = ins.a
                    v = self.val(f, s, t, v)
                    if isC(v): v = b2i(v)
                    if type(v) is int:
                        for k, lab in cases:
                            if k == v: res.append(("go", s, lab)); break
                        else: res.append(("go", s, dflt))
                        break
                    rest = s
                    if isP(v):
                        dead = False
                        for k, lab in cases:
                            c = c_eq(psub(v, k)); d = rest.decide(c)
                            if d == 0: continue
                            t2 = rest.fork()
                            if t2.assume(c): res.append(("go", t2, lab))
                            if d == 1 or not rest.assume(c_not(c)): dead = True; break
                        if not dead: res.append(("go", rest, dflt))
                    else:
                        for k, lab in cases: res.append(("go", s.fork(), lab))
                        res.append(("go", s, dflt))
                    for h in f.inner.get(b, ()): mode[h] = "widen"
                    break
                elif op == "landingpad":
                    s.regs[ins.dst] = ("agg", {0: ("p", ("exc", s.exc[0] if s.exc else "?"), 0), 1: s.regs.pop("#sel", 0)})
                elif op == "resume":
                    res.append(("exc", s, None)); break
                elif op == "unreachable": break
                elif op == "extractvalue":
                    v = self.val(f, s, ins.a[0], ins.a[1])
                    for k in ins.a[2]:
                        v = v[1].get(k, atom(("undef",))) if type(v) is tuple and v and v[0] == "agg" else atom(("undef",))
                    s.regs[ins.dst] = v
                elif op == "insertvalue":
                    v = self.val(f, s, ins.a[0], ins.a[1]); w = self.val(f, s, ("i", 64), ins.a[2])
                    d = dict(v[1]) if type(v) is tuple and v and v[0] == "agg" else {}
                    d[ins.a[3]] = w; s.regs[ins.dst] = ("agg", d)
                elif op == "fcmp":
                    x, y = self.val(f, s, ins.a[1], ins.a[2]), self.val(f, s, ins.a[1], ins.a[3])
                    if type(x) is float and type(y) is float:
                        s.regs[ins.dst] = int({"ogt": x > y, "olt": x < y, "oge": x >= y, "ole": x <= y, "oeq": x == y, "une": x != y, "one": x != y}.get(ins.a[0], 0))
                    else: s.regs[ins.dst] = ("C", "op", "fcmp", ins.a[0], x, y)
                elif op == "atomicrmw":
                    o, t, q, v = ins.a
                    self.curctx = ctx; self.curins = ins
                    p = self.val(f, s, ("ptr",), q); old = self.load(s, f, p, t); v = self.val(f, s, t, v)
                    new = self.binop(s, o, t, old, v) if o in ("add", "sub", "and", "or", "xor") else v
                    self.store(s, f, p, t, new); s.regs[ins.dst] = old
                elif op == "cmpxchg":
                    t, q, v, n = ins.a
                    self.curctx = ctx; self.curins = ins
                    p = self.val(f, s, ("ptr",), q); old = self.load(s, f, p, t)
                    t2 = s.fork()
                    t2.regs[ins.dst] = ("agg", {0: old, 1: 0}); work.append((i + 1, t2))
                    self.store(s, f, p, t, self.val(f, s, t, n)); s.regs[ins.dst] = ("agg", {0: self.val(f, s, t, v), 1: 1})
                else:
                    if ins.dst: s.regs[ins.dst] = atom(("opq", ctx, ins.dst))
                i += 1
            if self.stats["instructions"] > self.max_ins: raise Budget("instruction budget exhausted in " + f.name)
        return res
    def unwind(self, f, t, pad, res):
        lp = f.blocks[pad]
        lp = next((i for i in lp if i.op == "landingpad"), None)
        if lp is None:
            res.append(("exc", t, None)); return
        cleanup, clauses = lp.a
        et = t.exc[0] if t.exc else "?"
        sel = None
        for c in clauses:
            ti = c[1] if c[0] == "g" else None
            if ti is None or self.exc_match(et, ti):
                sel = self.typeid(ti); break
            if et == "?":   # unknown exception type: may match
                t2 = t.fork(); t2.regs["#sel"] = self.typeid(ti); res.append(("go", t2, pad))
        if sel is None and not cleanup:
            res.append(("exc", t, None)); return
        t.regs["#sel"] = sel or 0
        res.append(("go", t, pad))
    EXC_BASES = {"_ZTISt13runtime_error": ("_ZTISt13runtime_error", "_ZTISt9exception"), "_ZTISt11logic_error": ("_ZTISt11logic_error", "_ZTISt9exception"),
                 "_ZTISt12out_of_range": ("_ZTISt12out_of_range", "_ZTISt11logic_error", "_ZTISt9exception"), "_ZTISt16invalid_argument": ("_ZTISt16invalid_argument", "_ZTISt11logic_error", "_ZTISt9exception"),
                 "_ZTISt9bad_alloc": ("_ZTISt9bad_alloc", "_ZTISt9exception"), "_ZTISt12system_error": ("_ZTISt12system_error", "_ZTISt13runtime_error", "_ZTISt9exception")}
    def exc_match(self, et, ti):
        return ti in self.EXC_BASES.get(et, (et,))
    def typeid(self, ti):
        if ti is None: return 1000001
        return 1000 + aid(("typeinfo", ti))
    # ------------------------------------------------------------ calls
    def lookup(self, name):
        r = self.kind_cache.get(name)
        if r is None:
            m = self.models.get(self, name)
            if m is not None: r = ("m", m)
            elif name in self.prog.fn: r = ("f", self.prog.fn[name])
            else: r = ("o", None)
            self.kind_cache[name] = r
        return r
    def call(self, f, st, ins, ctx):
        rt, callee, args = ins.a[0], ins.a[1], ins.a[2]
        cv = self.val(f, st, ("ptr",), callee) if callee[0] != "asm" else None
        av = [self.val(f, st, t, v) for t, v, _ in args]
        if not (isp(cv) and cv[1][0] == "fn"):
            return self.indirect(f, st, ins, ctx, cv, av)
        return self.call_name(f, st, ins, ctx, cv[1][1], av)
    def call_name(self, f, st, ins, ctx, name, av):
        # byval copies
        kind, x = self.lookup(name)
        self.curctx = ctx; self.curins = ins
        if kind == "m":
            return x(self, st, av, Site(f, ins, ctx, name))
        if kind == "f":
            n = 0
            for g, _ in self.stk:
                if g is x: n += 1
            if n > self.rec_limit:
                self.stats["opaque"]["(recursion bound) " + self.prog.dem.get(name, name)[:100]] = 1
                return []
            if len(self.stk) > 220: raise Budget("call depth")
            av2 = []
            for k, ((t, v, info), a) in enumerate(zip(ins.a[2], av)):
                if "byval" in info and isp(a):
                    nb = ("a", self.ctx(ctx, id(ins)), "byval%d" % k)
                    src = st.mem.get(a[1]) or {}
                    st.mem[nb] = {o - a[2]: c for o, c in src.items() if type(o) is int and type(a[2]) is int and o >= a[2]}
                    st.own.add(nb); a = ("p", nb, 0)
                av2.append(a)
            av2 += av[len(av2):]
            c2 = self.ctx(ctx, id(ins)) if True else 0
            return self.run(x, av2, st, c2)
        return self.opaque(f, st, ins, ctx, name, av)
    def indirect(self, f, st, ins, ctx, cv, av):
        for r in self.rules:
            h = getattr(r, "indirect", None)
            if h:
                o = h(self, st, cv, av, Site(f, ins, ctx, None))
                if o is not None: return o
        return self.opaque(f, st, ins, ctx, "(indirect)", av)
    def result(self, st, rt, key):
        if rt[0] == "void": return None
        if rt == ("i", 1): 
            c = ("C", "op") + key
            st.facts.pop(c, None); st.facts.pop(("C", "nop") + key, None)
            return c
        if rt[0] == "ptr": return ("p", key, 0)
        if rt[0] in ("st", "named", "arr"): return ("agg", {})
        st.kill(aid(key))
        return atom(key)
    def opaque(self, f, st, ins, ctx, name, av):
        d = self.prog.dem.get(name, name)
        self.stats["opaque"][d[:120]] = self.stats["opaque"].get(d[:120], 0) + 1
        for (t, v, info), a in zip(ins.a[2], av):
            if isp(a) and a[1][0] in ("a", "h") and "readonly" not in info: self.havoc(st, a[1])
        self.emit(st, "opaque", name, av)
        return [("ret", st, self.result(st, ins.a[0], ("ret", d[:60], self.ctx(ctx, id(ins)))))]

class Site:
    __slots__ = ("f", "ins", "ctx", "name")
    def __init__(self, f, ins, ctx, name): self.f = f; self.ins = ins; self.ctx = ctx; self.name = name
    @property
    def rt(self): return self.ins.a[0]
    def key(self, eng, *x): return x + (eng.ctx(self.ctx, id(self.ins)),)

def ir_cstr(t):
    s = t[2:-1]; out = bytearray(); i = 0
    while i < len(s):
        if s[i] == "\\" and i + 2 < len(s) + 1:
            out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i]) & 255); i += 1
    return out
