"""abstract interpretation of the Python layer: path-sensitive symbolic evaluation of its syntax trees over terms; native objects, NumPy arrays and
everything external are opaque, calls on native objects and stores into arrays are recorded"""
import ast, os
from .terms import *
from .interp import St
from .driver import REPO, Broken

ROOT = "EigenIPC/bindings/PyEigenIPC"
PKG = "EigenIPC.PyEigenIPCExt."
NATIVE = "EigenIPC.PyEigenIPC"
MAXLOOP = 3

class Class:
    def __init__(self, mod, node, qual, outer): self.mod = mod; self.node = node; self.qual = qual; self.outer = outer; self.meth = {}; self.attrs = {}; self.bases = node.bases
class Module:
    def __init__(self, path, rel, tree): self.path = path; self.rel = rel; self.tree = tree; self.names = {}
class State:
    __slots__ = ("env", "heap", "facts", "num", "ev", "kinds", "n", "tr")
    def __init__(self): self.env = {}; self.heap = {}; self.facts = {}; self.num = St(); self.ev = (); self.kinds = {}; self.n = 0; self.tr = None
    def fork(self):
        s = State.__new__(State); s.env = dict(self.env); s.heap = {k: dict(v) for k, v in self.heap.items()}; s.facts = dict(self.facts); s.num = self.num.fork()
        s.ev = self.ev; s.kinds = dict(self.kinds); s.n = self.n; s.tr = self.tr; return s
    def new(self): self.n += 1; return self.n
    def say(self, t): self.tr = (self.tr, t)
    def trace(self, k=10):
        o = []; t = self.tr
        while t is not None and len(o) < k: o.append(t[1]); t = t[0]
        return o[::-1]

def num(v):
    if type(v) is bool: return int(v)
    if type(v) is int or isP(v): return v
    return atom(("py", v))
def unnum(v):
    a = single_atom(v) if isP(v) else None
    return a[1] if a is not None and a[0] == "py" else v
def is_str(v): return type(v) is str or type(v) is tuple and v and v[0] == "str"
def cat(a, b):
    p = lambda v: list(v[1]) if type(v) is tuple and v and v[0] == "str" else [v]
    out = []
    for x in p(a) + p(b):
        if type(x) is str and out and type(out[-1]) is str: out[-1] += x
        elif x != "": out.append(x)
    if not out: return ""
    return out[0] if len(out) == 1 and type(out[0]) is str else ("str", tuple(out))
CONCRETE = ("nat", "obj", "cls", "fn", "bound", "enum", "nfn", "ncls", "list", "tuple", "dict", "arr", "msg", "str", "ext")
CONST = (int, float, str, bool, type(None))

class Py:
    def __init__(self, table, repo=REPO):
        self.T = table; self.mods = {}; self.classes = {}; self.fns = {}; self.bad = []; self._bad = set(); self.stack = []; self.line = ("?", 0); self.stats = {"functions": set(), "paths": 0, "native calls": 0, "names": 0, "cut": 0}
        self.pyname = {v: k for k, v in table.cls.items()}; self.budget = 6_000_000; self.lines = set()
        b = repo + "/" + ROOT
        for d in ("wrappers", "extensions"):
            for r, _, fs in sorted(os.walk(b + "/" + d)):
                for f in sorted(fs):
                    if f.endswith(".py"): self.load(os.path.join(r, f), repo)
    # ------------------------------------------------------------------ program
    def load(self, path, repo):
        rel = os.path.relpath(path, repo)
        try: t = ast.parse(open(path, encoding="utf-8").read(), path)
        except SyntaxError as e: raise Broken("cannot parse %s: %s" % (rel, e))
        dotted = PKG + os.path.relpath(path, repo + "/" + ROOT)[:-3].replace("/", ".")
        m = Module(path, rel, t); self.mods[dotted] = m; m.dotted = dotted
        for n in t.body: self.top(m, n)
    def top(self, m, n):
        if isinstance(n, ast.ClassDef): self.cls(m, n, n.name, None, m.names)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            k = (m.dotted, n.name); self.fns[k] = (m, n, None); m.names[n.name] = ("fn",) + k
        elif isinstance(n, ast.ImportFrom):
            for a in n.names: m.names[a.asname or a.name] = ("import", n.module or "", a.name, n.lineno)
        elif isinstance(n, ast.Import):
            for a in n.names: m.names[a.asname or a.name.split(".")[0]] = ("ext", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name): m.names[n.targets[0].id] = ("lazy", n.value)
        elif isinstance(n, (ast.If, ast.Try)):
            for x in n.body: self.top(m, x)
    def cls(self, m, n, qual, outer, names):
        c = Class(m, n, qual, outer); k = (m.dotted, qual); self.classes[k] = c; names[n.name] = ("cls",) + k
        for x in n.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fk = (m.dotted, qual + "." + x.name); self.fns[fk] = (m, x, c); c.meth[x.name] = fk
            elif isinstance(x, ast.ClassDef): self.cls(m, x, qual + "." + x.name, c, c.attrs)
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name): c.attrs[x.targets[0].id] = ("lazy", x.value)
    def by_name(self, qual):
        l = [k for k in self.classes if k[1] == qual]
        return l[0] if len(l) == 1 else None
    def mro(self, ck):
        out = [ck]
        for b in self.classes[ck].bases:
            s = State(); v = self.lookup_global(self.classes[ck].mod, b.id, s, self.classes[ck]) if isinstance(b, ast.Name) else None
            if type(v) is tuple and v[0] == "cls": out += [x for x in self.mro(v[1:]) if x not in out]
        return out
    def find(self, ck, name, after=None):
        l = self.mro(ck)
        if after is not None and after in l: l = l[l.index(after) + 1:]
        for k in l:
            if name in self.classes[k].meth: return ("m", self.classes[k].meth[name], k)
            if name in self.classes[k].attrs: return ("a", self.classes[k].attrs[name], k)
        return None
    # ------------------------------------------------------------------ reports about the use of the native layer
    def at(self): return "%s:%d" % self.line
    def wrong(self, msg):
        k = (msg, self.at(), self.stack[-1][1] if self.stack else "")
        if k not in self._bad: self._bad.add(k); self.bad.append(k)
    def native_name(self, name):
        T = self.T; self.stats["names"] += 1
        if name in T.mdef: return ("nfn", name)
        if name in self.pyname: return ("ncls", self.pyname[name])
        if name in T.attr: return T.attr[name]
        for c, vs in T.enum.items():
            if name in vs: return ("enum", c, name)
        self.wrong("the bindings provide no %s" % name); return ("ext", NATIVE + "." + name)
    def fits(self, sigs, args, kw, what):
        """does one of the signatures accept the call?  a signature: (names or None, [has default])"""
        why = ""
        for names, dfl, n in sigs:
            if names is None:
                if not kw and len(args) == n: return True
                why = "takes %d positional arguments" % n if not kw else "takes no keyword arguments"
            else:
                if len(args) > len(names): why = "takes at most %d arguments" % len(names); continue
                rest = names[len(args):]
                x = [k for k in kw if k not in rest]; miss = [k for k, d in zip(rest, dfl[len(args):]) if not d and k not in kw]
                if x: why = "has no keyword %s" % ", ".join(x)
                elif miss: why = "needs %s" % ", ".join(miss)
                else: return True
        self.wrong("%s %s" % (what, why)); return False
    def sigs(self, es, own):
        out = []
        for e in es:
            kws, ex = self.T.kws(e); n = self.T.arity(e)
            if n is None: return None
            n -= own
            if kws and len(kws) == n: out.append((kws, [y[3] is not None for y in ex], n))
            else: out.append((None, None, n))
        return out
    # ------------------------------------------------------------------ names
    def lookup_global(self, m, name, st, cls=None):
        c = cls
        v = m.names.get(name)
        if v is None:
            if name in ("True", "False", "None"): return {"True": True, "False": False, "None": None}[name]
            return ("builtin", name)
        return self.resolve(m, v, st, name)
    def resolve(self, m, v, st, name=None):
        if v[0] == "import":
            mod, nm, ln = v[1:]
            if mod == NATIVE:
                old = self.line; self.line = (m.rel, ln); r = self.native_name(nm); self.line = old; return r
            t = self.mods.get(mod) or next((x for d, x in self.mods.items() if d.endswith("." + mod) or mod and mod.endswith(d[len(PKG):])), None)
            if t is not None:
                if nm in t.names: return self.resolve(t, t.names[nm], st, nm)
                return ("ext", mod + "." + nm)
            return ("ext", mod + "." + nm)
        if v[0] == "lazy":
            r = self.eval(State(), v[1], m, None)
            return r[0][1] if len(r) == 1 else ("sym", name)
        return v
    # ------------------------------------------------------------------ truth
    def truth(self, st, v):
        if isinstance(v, CONST): return [(st, bool(v))]
        if isC(v):
            d = st.num.decide(v)
            if d is not None: return [(st, bool(d))]
            out = []
            for b in (True, False):
                u = st.fork()
                if u.num.assume(v if b else c_not(v)) and u.num.feasible(): out.append((u, b))
            return out
        if isP(v): return self.truth(st, c_ne(v))
        k = v[0]
        if k == "not": return [(s, not b) for s, b in self.truth(st, v[1])]
        if k in ("nat", "obj", "cls", "fn", "bound", "ext", "nfn", "ncls", "enum", "msg"): return [(st, True)]
        if k in ("tuple", "list", "dict"): return [(st, len(v[1]) > 0)]
        if v in st.facts: return [(st, st.facts[v])]
        if k == "eq":
            for x, y in ((v[1], v[2]), (v[2], v[1])):
                if isinstance(y, CONST) or type(y) is tuple and y and y[0] in ("ext", "enum"):
                    for f, b in st.facts.items():
                        if b and type(f) is tuple and len(f) == 3 and f[0] == "eq" and x in f[1:]:
                            z = f[2] if f[1] == x else f[1]
                            if z != y and (isinstance(z, CONST) or type(z) is tuple and z and z[0] in ("ext", "enum")): return [(st, False)]
        out = []
        for b in (True, False):
            u = st.fork(); u.facts[v] = b; u.say("%s is %s" % (show(v), b)); out.append((u, b))
        return out
    # ------------------------------------------------------------------ expressions: [(state, value)]
    def seq(self, st, nodes, m, c):
        out = [(st, ())]
        for n in nodes:
            nxt = []
            for s, vs in out:
                for s2, v in self.eval(s, n, m, c): nxt.append((s2, vs + (v,)))
            out = nxt
        return out
    def eval(self, st, n, m, c):
        self.budget -= 1
        if self.budget < 0: raise Broken("analysis budget of the Python layer exceeded")
        f = getattr(self, "e_" + type(n).__name__, None)
        if f is None: return [(st, ("expr", ast.dump(n)[:200]))]
        return f(st, n, m, c)
    def e_Constant(self, st, n, m, c): return [(st, n.value if isinstance(n.value, CONST) else ("const", repr(n.value)))]
    def e_Name(self, st, n, m, c):
        if n.id in st.env: return [(st, st.env[n.id])]
        return [(st, self.lookup_global(m, n.id, st))]
    def e_JoinedStr(self, st, n, m, c):
        out = [(st, "")]
        for p in n.values:
            nxt = []
            for s, v in out:
                if isinstance(p, ast.Constant): nxt.append((s, cat(v, str(p.value))))
                else:
                    for s2, x in self.eval(s, p.value, m, c): nxt.append((s2, cat(v, x if is_str(x) else str(x) if isinstance(x, (int, str)) and type(x) is not bool else ("str", (x,)))))
            out = nxt
        return out
    def e_Tuple(self, st, n, m, c): return [(s, ("tuple", vs)) for s, vs in self.seq(st, n.elts, m, c)]
    def e_List(self, st, n, m, c): return [(s, ("list", vs)) for s, vs in self.seq(st, n.elts, m, c)]
    def e_Starred(self, st, n, m, c): return self.eval(st, n.value, m, c)
    def e_NamedExpr(self, st, n, m, c):
        out = []
        for s, v in self.eval(st, n.value, m, c): s.env[n.target.id] = v; out.append((s, v))
        return out
    def e_IfExp(self, st, n, m, c):
        out = []
        for s, v in self.eval(st, n.test, m, c):
            for s2, b in self.truth(s, v): out += self.eval(s2, n.body if b else n.orelse, m, c)
        return out
    def e_BoolOp(self, st, n, m, c):
        isand = isinstance(n.op, ast.And); out = []; cur = [st]
        for i, x in enumerate(n.values):
            nxt = []
            for s in cur:
                for s2, v in self.eval(s, x, m, c):
                    if i == len(n.values) - 1: out.append((s2, v)); continue
                    for s3, b in self.truth(s2, v):
                        if b == isand: nxt.append(s3)
                        else: out.append((s3, v if not (type(v) is tuple) else b))
            cur = nxt
        return out
    def e_UnaryOp(self, st, n, m, c):
        out = []
        for s, v in self.eval(st, n.operand, m, c):
            if isinstance(n.op, ast.Not): out += [(s2, not b) for s2, b in self.truth(s, v)]
            elif isinstance(n.op, ast.USub): out.append((s, -v if isinstance(v, (int, float)) else pneg(num(v))))
            elif isinstance(n.op, ast.UAdd): out.append((s, v))
            else: out.append((s, ("op", "~", v)))
        return out
    def e_BinOp(self, st, n, m, c):
        out = []
        for s, (a, b) in self.seq(st, [n.left, n.right], m, c):
            out.append((s, self.binop(n.op, a, b)))
        return out
    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            if is_str(a) or is_str(b): return cat(a, b)
            if type(a) is tuple and a and type(b) is tuple and b and a[0] == b[0] and a[0] in ("list", "tuple"): return (a[0], a[1] + b[1])
            if isinstance(a, float) or isinstance(b, float): return ("op", "+", a, b)
            return unnum(padd(num(a), num(b)))
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if type(x) is tuple and x and x[0] == "list":
                    if type(y) is int: return ("list", x[1] * y)
                    return ("list*", x[1], num(y))
        if isinstance(a, float) or isinstance(b, float) or a is None or b is None: return ("op", type(op).__name__, a, b)
        if isinstance(op, ast.Sub): return unnum(psub(num(a), num(b)))
        if isinstance(op, ast.Mult): return unnum(pmul(num(a), num(b)))
        if type(a) is int and type(b) is int:
            try:
                if isinstance(op, ast.FloorDiv): return a // b
                if isinstance(op, ast.Mod): return a % b
                if isinstance(op, ast.Div): return a / b
                if isinstance(op, ast.Pow): return a ** b
            except (ZeroDivisionError, OverflowError): pass
        if isinstance(op, ast.Mod) and is_str(a): return ("str", (a, b))
        return ("op", type(op).__name__, a, b)
    def e_Compare(self, st, n, m, c):
        out = []
        for s, vs in self.seq(st, [n.left] + n.comparators, m, c):
            cur = [(s, True)]
            for op, a, b in zip(n.ops, vs, vs[1:]):
                nxt = []
                for s1, r in cur:
                    if r is False: nxt.append((s1, False)); continue
                    v = self.cmp(op, a, b, s1)
                    if len(n.ops) == 1: nxt.append((s1, v))
                    else: nxt += self.truth(s1, v)
                cur = nxt
            out += cur
        return out
    def cmp(self, op, a, b, st):
        t = type(op).__name__
        if t in ("Is", "IsNot", "Eq", "NotEq"):
            neg = t in ("IsNot", "NotEq")
            r = self.equal(a, b, t in ("Is", "IsNot"))
            if type(r) is bool: return r != neg
            return ("not", r) if neg and not isC(r) else c_not(r) if neg else r
        if t in ("Lt", "LtE", "Gt", "GtE"):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)): return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[t]
            if isinstance(a, float) or isinstance(b, float) or a is None or b is None: return ("cmp", t, a, b)
            x, y = num(a), num(b)
            return {"Lt": lambda: c_ge(psub(psub(y, x), 1)), "LtE": lambda: c_ge(psub(y, x)), "Gt": lambda: c_ge(psub(psub(x, y), 1)), "GtE": lambda: c_ge(psub(x, y))}[t]()
        if t in ("In", "NotIn"):
            r = ("in", a, b)
            if type(b) is tuple and b and b[0] == "dict": b = ("list", tuple(k for k, v in b[1]))
            if type(b) is tuple and b and b[0] in ("list", "tuple"):
                l = [self.equal(a, x, False) for x in b[1]]
                if any(x is True for x in l): r = True
                elif all(x is False for x in l): r = False
            if type(r) is bool: return r != (t == "NotIn")
            return ("not", r) if t == "NotIn" else r
        return ("cmp", t, a, b)
    def equal(self, a, b, ident):
        if a == b and type(a) == type(b): return True
        if isinstance(a, CONST) and isinstance(b, CONST): return a == b
        concrete = ("nat", "obj", "cls", "fn", "bound", "enum", "nfn", "ncls", "list", "tuple", "dict", "arr", "msg")
        for x, y in ((a, b), (b, a)):
            if y is None: return False if isP(x) or isC(x) or x[0] in concrete + ("sub", "str", "ext") else ("isnone", x)
            if type(x) is tuple and x and x[0] in ("enum", "ext") and type(y) is tuple and y and y[0] in ("enum", "ext"): return False
            if type(x) is tuple and x and x[0] in ("enum",) and isinstance(y, CONST): return False
        if is_str(a) or is_str(b): return ("eq",) + tuple(sorted((a, b), key=str))
        if (isP(a) or isinstance(a, int)) and (isP(b) or isinstance(b, int)) or isP(a) or isP(b): return c_eq(psub(num(a), num(b)))
        if type(a) is int or type(b) is int:
            return c_eq(psub(num(a), num(b)))
        return ("eq",) + tuple(sorted((a, b), key=str))
    def e_Subscript(self, st, n, m, c):
        out = []
        for s, b in self.eval(st, n.value, m, c):
            for s2, i in self.index(s, n.slice, m, c): out += self.item(s2, b, i)
        return out
    def index(self, st, n, m, c):
        if isinstance(n, ast.Slice):
            out = [(st, ())]
            for x in (n.lower, n.upper, n.step):
                out = [(s2, vs + (v,)) for s, vs in out for s2, v in (self.eval(s, x, m, c) if x is not None else [(s, None)])]
            return [(s, ("slice",) + vs) for s, vs in out]
        if isinstance(n, ast.Tuple):
            out = [(st, ())]
            for x in n.elts: out = [(s2, vs + (v,)) for s, vs in out for s2, v in self.index(s, x, m, c)]
            return [(s, ("idx",) + vs) for s, vs in out]
        return self.eval(st, n, m, c)
    def item(self, st, b, i):
        if type(b) is tuple and b and b[0] in ("list", "tuple") and type(i) is int and -len(b[1]) <= i < len(b[1]): return [(st, b[1][i])]
        if type(b) is tuple and b and b[0] in ("list", "tuple") and 0 < len(b[1]) <= 8 and type(i) is tuple and (isP(i) or i[0] not in ("slice", "idx") + CONCRETE):
            out = []
            for k in range(-len(b[1]), len(b[1])):
                u = st.fork()
                if u.num.assume(c_eq(psub(num(i), k))) and u.num.feasible(): u.say("%s is %d" % (show(i), k)); out.append((u, b[1][k]))
            for c in (c_ge(psub(num(i), len(b[1]))), c_ge(psub(-len(b[1]) - 1, num(i)))):
                u = st.fork()
                if u.num.assume(c) and u.num.feasible(): self.record(u, "raise", "IndexError"); self.raised.append((u, "IndexError"))
            return out
        if type(b) is tuple and b and b[0] == "dict":
            out = []
            for s, f, v in self.lookup(st, b, i):
                if f: out.append((s, v))
                else: self.record(s, "raise", "KeyError"); self.raised.append((s, "KeyError"))
            return out
        if type(b) is tuple and b and b[0] == "shape" and type(i) is int: return [(st, self.dim(st, b[1], i))]
        if full(i): return [(st, b)]
        return [(st, ("sub", b, i))]
    def dim(self, st, x, i):
        """extent of array x along axis i"""
        if type(x) is tuple and x and x[0] == "arr":
            sh = st.heap[x]["shape"]
            if type(sh) is tuple and sh and sh[0] == "tuple" and i < len(sh[1]): return sh[1][i]
        if type(x) is tuple and x and x[0] == "sub":
            b, j = x[1], x[2]; j = j[1:] if type(j) is tuple and j and j[0] == "idx" else (j,)
            if i < len(j) and type(j[i]) is tuple and j[i] and j[i][0] == "slice":
                lo, hi = j[i][1], j[i][2]
                return unnum(psub(num(self.dim(st, b, i) if hi is None else hi), num(0 if lo is None else lo)))
            if i >= len(j): return self.dim(st, b, i)
        v = atom(("py", ("dim", x, i))); st.num.assume(c_ge(v)); return ("dim", x, i)
    def e_Attribute(self, st, n, m, c):
        out = []
        for s, b in self.eval(st, n.value, m, c):
            v = self.attr(s, b, n.attr, n, m)
            if type(v) is tuple and v and v[0] == "prop": out += self.invoke(s, v[2], (v[1],), {}, v[3])
            else: out.append((s, v))
        return out
    def attr(self, st, b, name, n, m):
        self.line = (m.rel, n.lineno)
        k = b[0] if type(b) is tuple and b else None
        if k == "obj":
            h = st.heap[b]
            if name in h: return h[name]
            if name == "__class__": return ("cls",) + h["__cls__"]
            r = self.find(h["__cls__"], name)
            if r and r[0] == "m":
                fn = self.fns[r[1]][1]
                if any(isinstance(d, ast.Name) and d.id == "property" for d in fn.decorator_list): return ("prop", b, r[1], r[2])
                return ("bound", b, r[1], r[2])
            if r: return self.resolve(self.classes[r[2]].mod, r[1], st, name)
            if ("maybe", name) not in h:
                self.unset(b, name, n, m)
            return ("unset", b, name)
        if k == "msg" and name in st.heap.get(b, {}): return st.heap[b][name]
        if k == "cls":
            r = self.find(b[1:], name)
            if r and r[0] == "m": return ("fn",) + r[1]
            if r: return self.resolve(self.classes[r[2]].mod, r[1], st, name)
            return ("attr", b, name)
        if k == "super":
            r = self.find(st.heap[b[1]]["__cls__"], name, b[2])
            if r and r[0] == "m": return ("bound", b[1], r[1], r[2])
            return ("builtin", "super." + name)
        if k == "ncls":
            if b[1] in self.T.enum:
                if name in self.T.enum[b[1]]: return ("enum", b[1], name)
                self.wrong("the bindings' %s has no %s" % (self.T.cls[b[1]], name)); return ("attr", b, name)
            if name in self.T.meth.get(b[1], {}): return ("nmeth", None, b[1], name)
            if not name.startswith("__"): self.wrong("the bindings' %s has no %s" % (self.T.cls[b[1]], name))
            return ("attr", b, name)
        kind = b[1] if k == "nat" else st.kinds.get(b)
        if kind is not None:
            kinds = kind if type(kind) is frozenset else (kind,)
            for q in kinds:
                if name not in self.T.meth.get(q, {}) and not name.startswith("__"): self.wrong("the bindings' %s has no method %s" % (self.T.cls.get(q, q), name))
            return ("nmeth", b, kind, name)
        if k == "ext": return ("ext", b[1] + "." + name)
        if name == "shape": return ("shape", b)
        return ("attr", b, name)
    def unset(self, b, name, n, m): pass
    def e_Lambda(self, st, n, m, c): return [(st, ("lambda", m.rel, n.lineno))]
    def e_ListComp(self, st, n, m, c):
        save = dict(st.env); cur = [(st, ())]
        def gens(s, gs, acc):
            if not gs:
                return [(s2, acc + (v,)) for s2, v in self.eval(s, n.elt, m, c)]
            out = [(s, acc)]; g = gs[0]; res = []
            for s1, it in self.eval(s, g.iter, m, c):
                for s2, vals in self.iterate(s1, it):
                    part = [(s2, acc)]
                    for v in vals:
                        nxt = []
                        for s3, a in part:
                            for s4 in self.assign(s3, g.target, v, m, c):
                                ok = [(s4, True)]
                                for f in g.ifs: ok = [(y, b1 and b2) for x, b1 in ok for z, w in (self.eval(x, f, m, c) if b1 else [(x, False)]) for y, b2 in self.truth(z, w)]
                                for s5, b in ok: nxt += gens(s5, gs[1:], a) if b else [(s5, a)]
                        part = nxt
                    res += part
            return res
        out = gens(st, n.generators, ())
        for s, v in out: s.env = dict(save)
        return [(s, ("list", v)) for s, v in out]
    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp
    def e_Set(self, st, n, m, c): return [(s, ("list", vs)) for s, vs in self.seq(st, n.elts, m, c)]
    def e_Dict(self, st, n, m, c):
        if any(k is None for k in n.keys): return [(st, ("dict?", ast.dump(n)[:160]))]
        return [(s, ("dict", tuple(zip(vs[:len(n.keys)], vs[len(n.keys):])))) for s, vs in self.seq(st, list(n.keys) + list(n.values), m, c)]
    def lookup(self, st, d, key):
        """[(state, found?, value)]: the entry of a dictionary literal for a key"""
        out = []; cur = [st]
        for k, v in d[1][::-1]:
            e = self.equal(key, k, False); nxt = []
            for s in cur:
                for s2, b in ([(s, e)] if type(e) is bool else self.truth(s, e)):
                    if b: out.append((s2, True, v))
                    else: nxt.append(s2)
            cur = nxt
        return out + [(s, False, None) for s in cur]
    # ------------------------------------------------------------------ calls
    def e_Call(self, st, n, m, c):
        out = []
        for s, f in self.eval(st, n.func, m, c):
            for s2, args in self.seq(s, n.args, m, c):
                for s3, kv in self.seq(s2, [k.value for k in n.keywords], m, c):
                    if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords): out.append((s3, ("res", s3.new(), "*"))); continue
                    kw = {k.arg: v for k, v in zip(n.keywords, kv)}
                    self.line = (m.rel, n.lineno); self.lines.add(self.line)
                    out += self.call(s3, f, args, kw, n, m, c)
        return out
    def call(self, st, f, args, kw, n, m, c):
        k = f[0] if type(f) is tuple and f else None
        if k == "fn": return self.invoke(st, f[1:], args, kw)
        if k == "bound": return self.invoke(st, f[2], (f[1],) + args, kw, f[3])
        if k == "cls": return self.construct(st, f[1:], args, kw)
        if k == "nfn": return self.native_fn(st, f[1], args, kw)
        if k == "ncls": return self.native_new(st, f[1], args, kw)
        if k == "nmeth": return self.native_call(st, f[1], f[2], f[3], args, kw)
        if k == "builtin": return self.builtin(st, f[1], args, kw, n, m, c)
        if k == "ext": return self.external(st, f[1], args, kw)
        if k == "attr": return self.method(st, f[1], f[2], args, kw)
        return [(st, ("res", st.new(), show(f)))]
    def construct(self, st, ck, args, kw):
        o = ("obj", ck[1], st.new()); st.heap[o] = {"__cls__": ck}
        r = self.find(ck, "__init__")
        if not r or r[0] != "m": return [(st, o)]
        return [(s, o) for s, v in self.invoke(st, r[1], (o,) + args, kw, r[2])]
    def invoke(self, st, fk, args, kw, owner=None):
        if fk not in self.fns: return [(st, ("res", st.new(), str(fk)))]
        m, fn, cls = self.fns[fk]
        if len(self.stack) > 24 or self.stack.count(fk) > 2: self.stats["cut"] += 1; return [(st, ("res", st.new(), fk[1]))]
        a = fn.args; names = [x.arg for x in a.posonlyargs + a.args]; env = {}
        dec = [d.id for d in fn.decorator_list if isinstance(d, ast.Name)]
        if "staticmethod" in dec and cls is not None and args and type(args[0]) is tuple and args[0] and args[0][0] == "obj" and len(args) > len(names): args = args[1:]
        for x, v in zip(names, args): env[x] = v
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]: env[k] = v
            elif not a.kwarg: self.line_wrong(fk, k)
        dn = names[len(names) - len(a.defaults):]
        for x, d in list(zip(dn, a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if x not in env:
                r = self.eval(State(), d, m, cls); env[x] = r[0][1] if len(r) == 1 else ("sym", x)
        for x in names:
            if x not in env: env[x] = ("missing", x)
        self.stats["functions"].add("%s:%s" % (m.rel, fk[1]))
        save = st.env; line = self.line; self.stack.append(fk); st.env = env; st.env["__owner__"] = owner or ((m.dotted, cls.qual) if cls else None); out = []
        for kind, s, v in self.block(st, fn.body, m, cls):
            s.env = dict(save)
            if kind == "ret": out.append((s, v))
            elif kind in ("next", "break", "continue"): out.append((s, None))
            else: self.raised.append((s, v))
        self.stack.pop(); self.line = line
        return out
    def line_wrong(self, fk, k): pass
    raised = []
    def record(self, st, *e): st.ev = st.ev + (e + (self.at(),),)
    def native_fn(self, st, name, args, kw):
        es = self.T.mdef[name]; sg = self.sigs(es, 0); self.stats["native calls"] += 1
        if sg: self.fits(sg, args, kw, "the bindings' %s" % name)
        if name.endswith("Factory"):
            w = "PyEigenIPC::%sWrapper" % name[:-7]; kws = sg[0][0] if sg and sg[0][0] else [role_i for role_i in range(len(args))]
            o = ("nat", w, st.new()); d = dict(zip(kws, args)); d.update(kw); self.record(st, "new", o, tuple(sorted(d.items(), key=str))); return [(st, o)]
        return [(st, ("f", name) + args + tuple(sorted(kw.items(), key=str)))]
    def native_new(self, st, cls, args, kw):
        self.stats["native calls"] += 1
        if cls in self.T.enum: return [(st, ("enumcall", cls) + args)]
        es = self.T.init.get(cls)
        if not es: self.wrong("the bindings' %s cannot be constructed" % self.T.cls[cls]); kws = []
        else:
            sg = self.sigs(es, 0); kws = sg[0][0] if sg and sg[0][0] else []
            if sg: self.fits(sg, args, kw, "the constructor of the bindings' %s" % self.T.cls[cls])
        o = ("nat", cls, st.new()); d = dict(zip(kws, args)); d.update(kw); self.record(st, "new", o, tuple(sorted(d.items(), key=str))); return [(st, o)]
    PURE = {"getNRows": 1, "getNCols": 1, "getScalarType": 1, "getNamespace": 1, "getBasename": 1, "length": 1}
    def native_call(self, st, o, kind, name, args, kw):
        self.stats["native calls"] += 1
        for q in (kind if type(kind) is frozenset else (kind,)):
            es = self.T.meth.get(q, {}).get(name)
            if es:
                sg = self.sigs(es, 0 if es[0][0] == "static" else 1)
                if sg: self.fits(sg, args, kw, "the bindings' %s.%s" % (self.T.cls.get(q, q), name))
        if kind == "EigenIPC::Journal":
            if name == "log":
                names = ["classname", "methodname", "message", "log_type", "throw_when_excep"]; d = dict(zip(names, args)); d.update(kw)
                lt, th = d.get("log_type"), d.get("throw_when_excep", False)
                if lt == ("enum", "EigenIPC::Journal::LogType", "EXCEP") and th is True:
                    self.record(st, "raise", "journal"); self.raised.append((st, "journal")); return []
            return [(st, None)]
        if name in self.PURE: return [(st, ("nres", o, name))]
        r = ("res", st.new(), name)
        self.record(st, "native", o, name, args, tuple(sorted(kw.items(), key=str)), r)
        if name in ("run", "attach", "close", "stop", "detach", "dataSemAcquire", "dataSemRelease", "trigger"): return [(st, None)]
        if name == "get_raw_buffer": r = ("rawbuf", o, r[1])
        return [(st, r)]
    def isinst(self, st, x, ty):
        """[(state, bool)]"""
        ts = list(ty[1]) if type(ty) is tuple and ty and ty[0] == "tuple" else [ty]
        nt = [t[1] for t in ts if type(t) is tuple and t and t[0] == "ncls"]
        if type(x) is tuple and x and x[0] == "nat": return [(st, x[1] in nt)]
        if nt and len(nt) == len(ts):
            if x in st.kinds:
                k = st.kinds[x]; ks = k if type(k) is frozenset else frozenset([k]); out = []
                for b, q in ((True, ks & frozenset(nt)), (False, ks - frozenset(nt))):
                    if q: u = st.fork(); u.kinds[x] = next(iter(q)) if len(q) == 1 else q; out.append((u, b))
                return out
            u = st.fork(); u.kinds[x] = nt[0] if len(nt) == 1 else frozenset(nt); v = st.fork()
            return [(u, True), (v, False)]
        if isinstance(x, CONST):
            py = {int: "int", float: "float", bool: "bool", str: "str"}.get(type(x))
            return [(st, py is not None and ("builtin", py) in ts)]
        if type(x) is tuple and x and x[0] == "arr": return [(st, ("ext", "numpy.ndarray") in ts or ("ext", "np.ndarray") in ts)]
        cs = [t for t in ts if type(t) is tuple and t and t[0] == "cls"]
        if type(x) is tuple and x and x[0] == "obj": return [(st, any(t[1:] in self.mro(st.heap[x]["__cls__"]) for t in cs))]
        return self.truth(st, ("isinst", x, tuple(sorted(map(str, ts)))))
    def builtin(self, st, name, args, kw, n, m, c):
        if name == "isinstance" and len(args) == 2: return self.isinst(st, args[0], args[1])
        if name == "super":
            o = st.env.get("self"); own = st.env.get("__owner__")
            if args: own = args[0][1:] if type(args[0]) is tuple and args[0][0] == "cls" else own; o = args[1] if len(args) > 1 else o
            return [(st, ("super", o, own))]
        if name.startswith("super."): return [(st, None)]
        if name in ("any", "all") and len(args) == 1 and type(args[0]) is tuple and args[0] and args[0][0] in ("list", "tuple"):
            out = []; cur = [st]; stop = name == "any"
            for x in args[0][1]:
                nxt = []
                for s in cur:
                    for s2, b in self.truth(s, x): (out.append((s2, stop)) if b == stop else nxt.append(s2))
                cur = nxt
            return out + [(s, not stop) for s in cur]
        if name == "hasattr" and len(args) == 2 and args[0] in st.heap: return [(st, args[1] in st.heap[args[0]] or bool(self.find(st.heap[args[0]]["__cls__"], args[1]) if st.heap[args[0]].get("__cls__") else False))]
        if name == "len" and args:
            x = args[0]
            if type(x) is tuple and x and x[0] == "dict": return [(st, len(x[1]))]
            if type(x) is tuple and x and x[0] in ("list", "tuple"): return [(st, len(x[1]))]
            if type(x) is tuple and x and x[0] == "list*": return [(st, unnum(pmul(len(x[1]), x[2])))]
            if type(x) is str: return [(st, len(x))]
            return [(st, ("len", x))]
        if name in ("int", "float", "bool", "str") and len(args) == 1:
            if name == "bool": return self.truth(st, args[0])
            if name == "int" and type(args[0]) is int: return [(st, args[0])]
            if name == "str" and is_str(args[0]): return [(st, args[0])]
            return [(st, ("conv", name, args[0]))]
        if name == "range": return [(st, ("range",) + args)]
        if name in ("list", "tuple") and len(args) == 1 and type(args[0]) is tuple and args[0] and args[0][0] in ("list", "tuple"): return [(st, (name, args[0][1]))]
        if name == "sum" and len(args) == 1 and type(args[0]) is tuple and args[0]:
            x = args[0]; v = 0
            if x[0] in ("list", "tuple"):
                for y in x[1]: v = padd(v, num(y))
                return [(st, unnum(v))]
            if x[0] == "sub" and type(x[2]) is tuple and x[2][0] == "slice" and x[2][3] is None:
                lo = x[2][1] or 0; hi = x[2][2]; out = []
                for s, k in self.counts(st, psub(num(hi), num(lo))):
                    v = 0
                    for i in range(k): v = padd(v, num(self.item(s, x[1], unnum(padd(num(lo), i)))[0][1]))
                    out.append((s, unnum(v)))
                return out
        if name == "getattr" and len(args) >= 2 and type(args[1]) is str: return [(st, self.attr(st, args[0], args[1], n, m))]
        if name == "setattr" and len(args) == 3 and type(args[1]) is str and args[0] in st.heap: st.heap[args[0]][args[1]] = args[2]; return [(st, None)]
        if name in ("min", "max") and all(type(a) is int for a in args) and args: return [(st, (min if name == "min" else max)(args))]
        if name in ("print",): return [(st, None)]
        return [(st, ("f", name) + args)]
    ARR = {"zeros": 0, "full": 1, "empty": 0, "ones": 0}
    def external(self, st, name, args, kw):
        last = name.split(".")[-1]; mod = name.split(".")[0]
        if mod in ("np", "numpy"):
            if last in self.ARR:
                a = ("arr", st.new()); sh = args[0] if args else kw.get("shape"); fv = (args[1] if len(args) > 1 else kw.get("fill_value")) if last == "full" else 0 if last == "zeros" else 1 if last == "ones" else ("any",)
                st.heap[a] = {"__cls__": None, "shape": sh, "fill": fv, "dtype": kw.get("dtype", args[self.ARR[last] + 1] if len(args) > self.ARR[last] + 1 else None), "order": kw.get("order", "C")}
                return [(st, a)]
            if last in ("atleast_2d", "asarray", "ascontiguousarray", "array", "copy"): return [(st, ("np", last, args[0] if args else None) + (() if last == "atleast_2d" else tuple(sorted(kw.items(), key=str))))]
            if last == "copyto" and len(args) >= 2: self.record(st, "store", args[0], args[1]); return [(st, None)]
            return [(st, ("f", name) + args + tuple(sorted(kw.items(), key=str)))]
        self.record(st, "ext", name, args, tuple(sorted(kw.items(), key=str)))
        for v in args + tuple(kw.values()):
            if type(v) is tuple and v and v[0] == "bound": st.heap.setdefault(("callbacks",), {"__cls__": None})[v] = name
        o = ("msg", name, st.new())
        if args: st.heap.setdefault(("chain",), {"__cls__": None})[o] = (args[0], last, args)
        st.heap[o] = {"__cls__": None, "__name__": name, "args": args, **kw}
        return [(st, o)]
    def method(self, st, b, name, args, kw):
        if type(b) is tuple and b and b[0] == "list" and name == "index" and len(args) == 1 and b[1]:
            return [(s, i) for i, x in enumerate(b[1]) for s in [st.fork()] if self.note(s, ("index of", args[0]), i)]
        if type(b) is tuple and b and b[0] == "dict":
            if name == "get" and args: return [(s, v if f else args[1] if len(args) > 1 else None) for s, f, v in self.lookup(st, b, args[0])]
            if name in ("keys", "values", "items"): return [(st, ("list", tuple(k if name == "keys" else v if name == "values" else ("tuple", (k, v)) for k, v in b[1])))]
        if name == "join" and is_str(b): return [(st, ("str", (b, "join") + args))]
        if name in ("copy", "reshape", "flatten", "tolist", "item", "view", "astype", "ravel", "clone", "index", "numpy", "T"):
            return [(st, (name, b) + args + tuple(sorted(kw.items(), key=str)))]
        r = ("res", st.new(), name); st.heap.setdefault(("chain",), {"__cls__": None})[r] = (b, name, args); self.record(st, "call", b, name, args, tuple(sorted(kw.items(), key=str)), r)
        return [(st, r)]
    def note(self, s, x, i): s.facts[x] = i; s.say("%s is at %d" % (show(x[1]), i)); return True
    # ------------------------------------------------------------------ statements: [(kind, state, value)]
    def block(self, st, body, m, c):
        cur = [st]; out = []
        for n in body:
            nxt = []
            for s in cur:
                for kind, s2, v in self.stmt(s, n, m, c):
                    if kind == "next": nxt.append(s2)
                    else: out.append((kind, s2, v))
            cur = nxt
            if not cur: break
        return out + [("next", s, None) for s in cur]
    def stmt(self, st, n, m, c):
        self.line = (m.rel, getattr(n, "lineno", 0)); t = type(n).__name__
        if t == "Expr": return [("next", s, None) for s, v in self.eval(st, n.value, m, c)]
        if t == "Return": return [("ret", s, v) for s, v in (self.eval(st, n.value, m, c) if n.value is not None else [(st, None)])]
        if t == "Assign":
            out = []
            for s, v in self.eval(st, n.value, m, c):
                ss = [s]
                for x in n.targets: ss = [y for z in ss for y in self.assign(z, x, v, m, c)]
                out += [("next", y, None) for y in ss]
            return out
        if t == "AnnAssign":
            if n.value is None: return [("next", st, None)]
            return [("next", y, None) for s, v in self.eval(st, n.value, m, c) for y in self.assign(s, n.target, v, m, c)]
        if t == "AugAssign":
            out = []; ld = ast.copy_location(ast.BinOp(left=as_load(n.target), op=n.op, right=n.value), n)
            for s, v in self.eval(st, ld, m, c): out += [("next", y, None) for y in self.assign(s, n.target, v, m, c)]
            return out
        if t == "If":
            out = []
            for s, v in self.eval(st, n.test, m, c):
                for s2, b in self.truth(s, v): out += self.block(s2, n.body if b else n.orelse, m, c)
            return out
        if t == "While":
            out = []; cur = [st]
            for i in range(MAXLOOP + 1):
                nxt = []
                for s in cur:
                    for s1, v in self.eval(s, n.test, m, c):
                        for s2, b in self.truth(s1, v):
                            if not b: out += self.block(s2, n.orelse, m, c) if n.orelse else [("next", s2, None)]; continue
                            if i == MAXLOOP: self.stats["cut"] += 1; continue
                            for kind, s3, w in self.block(s2, n.body, m, c):
                                if kind in ("next", "continue"): nxt.append(s3)
                                elif kind == "break": out.append(("next", s3, None))
                                else: out.append((kind, s3, w))
                cur = nxt
            return out
        if t == "For":
            out = []
            for s, it in self.eval(st, n.iter, m, c):
                for s1, vals in self.iterate(s, it):
                    cur = [s1]; done = []
                    for v in vals:
                        nxt = []
                        for s2 in cur:
                            for s3 in self.assign(s2, n.target, v, m, c):
                                for kind, s4, w in self.block(s3, n.body, m, c):
                                    if kind in ("next", "continue"): nxt.append(s4)
                                    elif kind == "break": done.append(s4)
                                    else: out.append((kind, s4, w))
                        cur = nxt
                    for s2 in cur: out += self.block(s2, n.orelse, m, c) if n.orelse else [("next", s2, None)]
                    out += [("next", s2, None) for s2 in done]
            return out
        if t == "Raise":
            self.record(st, "raise", "raise"); return [("raise", st, "raise")]
        if t == "Try":
            save = self.raised; self.raised = []; res = self.block(st, n.body, m, c); exc = self.raised; self.raised = save; out = []
            exc = exc + [(s, v) for k, s, v in res if k == "raise"]
            for k, s, v in res:
                if k == "raise": continue
                if k == "next" and n.orelse: out += self.block(s, n.orelse, m, c)
                else: out.append((k, s, v))
            for s, v in exc:
                if n.handlers:
                    for h in n.handlers: out += self.block(s.fork(), h.body, m, c)
                else: out.append(("raise", s, v))
            if n.finalbody:
                o2 = []
                for k, s, v in out:
                    for k2, s2, v2 in self.block(s, n.finalbody, m, c): o2.append((k, s2, v) if k2 == "next" else (k2, s2, v2))
                out = o2
            return out
        if t == "With":
            cur = [st]
            for i in n.items: cur = [s2 for s in cur for s2, v in self.eval(s, i.context_expr, m, c)]
            return [x for s in cur for x in self.block(s, n.body, m, c)]
        if t == "Break": return [("break", st, None)]
        if t == "Continue": return [("continue", st, None)]
        if t in ("ImportFrom", "Import"):
            if t == "ImportFrom":
                for a in n.names: st.env[a.asname or a.name] = self.resolve(m, ("import", n.module or "", a.name, n.lineno), st)
            else:
                for a in n.names: st.env[a.asname or a.name.split(".")[0]] = ("ext", a.name if a.asname else a.name.split(".")[0])
            return [("next", st, None)]
        if t == "FunctionDef":
            k = (m.dotted, "%s.<local>.%s:%d" % (c.qual if c else "", n.name, n.lineno)); self.fns[k] = (m, n, None); st.env[n.name] = ("fn",) + k
            return [("next", st, None)]
        if t == "Assert":
            out = []
            for s, v in self.eval(st, n.test, m, c):
                for s2, b in self.truth(s, v): out.append(("next", s2, None) if b else ("raise", s2, "assert"))
            return out
        return [("next", st, None)]
    def counts(self, st, k):
        if type(k) is int: return [(st, max(k, 0))]
        out = []
        for i in range(MAXLOOP):
            u = st.fork()
            if u.num.assume(c_eq(psub(k, i))) and u.num.feasible(): out.append((u, i))
        self.stats["cut"] += 1
        return out
    def iterate(self, st, it):
        if type(it) is tuple and it:
            if it[0] in ("list", "tuple"): return [(st, it[1])]
            if it[0] == "dict": return [(st, tuple(k for k, v in it[1]))]
            if it[0] == "range" and 2 <= len(it) <= 3:
                a, b = (0, it[1]) if len(it) == 2 else (it[1], it[2])
                return [(s, tuple(unnum(padd(num(a), i)) for i in range(k))) for s, k in self.counts(st, psub(num(b), num(a)))]
            if it[0] == "f" and it[1] == "enumerate": return [(s, tuple(("tuple", (i, v)) for i, v in enumerate(vs))) for s, vs in self.iterate(st, it[2])]
            if it[0] == "f" and it[1] == "zip": return [(s, tuple(("tuple", p) for p in zip(*l))) for s, l in self.zipped(st, it[2:])]
            if it[0] == "sub" and type(it[2]) is tuple and it[2] and it[2][0] == "slice" and it[2][3] is None:
                lo = it[2][1] or 0; base = it[1]
                hi = it[2][2] if it[2][2] is not None else ("len", base)
                return [(s, tuple(self.item(s, base, unnum(padd(num(lo), i)))[0][1] for i in range(k))) for s, k in self.counts(st, psub(num(hi), num(lo)))]
        return [(s, tuple(self.item(s, it, i)[0][1] for i in range(k))) for s, k in self.counts(st, num(("len", it)))]
    def zipped(self, st, its):
        out = [(st, ())]
        for x in its: out = [(s2, l + (vs,)) for s, l in out for s2, vs in self.iterate(s, x)]
        return out
    def assign(self, st, t, v, m, c):
        k = type(t).__name__
        if k == "Name": st.env[t.id] = v; return [st]
        if k in ("Tuple", "List"):
            n = len(t.elts)
            if type(v) is tuple and v and v[0] in ("tuple", "list") and len(v[1]) == n: vs = v[1]
            elif type(v) is tuple and v and v[0] == "shape": vs = [self.dim(st, v[1], i) for i in range(n)]
            else: vs = [("item", v, i) for i in range(n)]
            ss = [st]
            for x, w in zip(t.elts, vs): ss = [y for s in ss for y in self.assign(s, x, w, m, c)]
            return ss
        if k == "Attribute":
            out = []
            for s, b in self.eval(st, t.value, m, c):
                self.line = (m.rel, t.lineno)
                if b in s.heap: s.heap[b][t.attr] = v
                out.append(s)
            return out
        if k == "Subscript":
            out = []
            for s, b in self.eval(st, t.value, m, c):
                for s2, i in self.index(s, t.slice, m, c):
                    self.line = (m.rel, t.lineno)
                    if isinstance(t.value, ast.Attribute) or isinstance(t.value, ast.Name):
                        # an element of a list held in a variable or attribute
                        if type(b) is tuple and b and b[0] == "list" and type(i) is int and -len(b[1]) <= i < len(b[1]):
                            l = list(b[1]); l[i] = v; out += self.assign(s2, t.value, ("list", tuple(l)), m, c); continue
                        if type(b) is tuple and b and b[0] == "dict": out += self.assign(s2, t.value, ("dict", tuple((k, w) for k, w in b[1] if k != i) + ((i, v),)), m, c); continue
                    self.record(s2, "store", b if full(i) else ("sub", b, i), v); out.append(s2)
            return out
        return [st]
def as_load(t):
    n = ast.parse(ast.unparse(t), mode="eval").body
    return ast.fix_missing_locations(ast.copy_location(n, t))
def full(i):
    return type(i) is tuple and len(i) > 0 and (i == ("slice", None, None, None) or i[0] == "idx" and all(x == ("slice", None, None, None) for x in i[1:]))
def show(v, d=0):
    if isinstance(v, CONST): return repr(v)
    if type(v) is tuple and v:
        if isP(v): return " + ".join(([str(v[1])] if v[1] else []) + ["%s%s" % ("" if k == 1 else "%d*" % k, "*".join(show(AT[i]) for i in mm)) for mm, k in v[2]])
        if v[0] == "sym": return v[1]
        if v[0] == "py": return show(v[1])
        if v[0] == "attr": return "%s.%s" % (show(v[1]), v[2])
        if v[0] == "res": return "%s()" % v[2]
        if v[0] == "nres": return "%s()" % v[2]
        if v[0] == "ext": return v[1]
        if v[0] == "enum": return v[2]
        if v[0] == "arr": return "array"
        if v[0] == "isinst": return "isinstance(%s)" % show(v[1])
        if v[0] == "isnone": return "%s is None" % show(v[1])
        return "%s(%s)" % (v[0], ", ".join(show(x, d + 1) for x in v[1:4])) if d < 4 else "..."
    return str(v)
