"""C25: the algebra of return codes.  Enumerator constants from the syntax tree; the operators as bit-sliced expressions over both
operands; the descriptions by constant propagation through the description functions and by the guard of every appended name."""
import json, os, subprocess
from .driver import *

WRAP = '''#include <string>
#include <EigenIPC/ReturnCodes.hpp>
using namespace EigenIPC; typedef unsigned long long U;
__attribute__((used)) U w_add(U a, U b) { return (U)((ReturnCode)a + (ReturnCode)b); }
__attribute__((used)) U w_sub(U a, U b) { return (U)((ReturnCode)a - (ReturnCode)b); }
__attribute__((used)) bool w_isin(U a, U b) { return isin((ReturnCode)a, (ReturnCode)b); }
__attribute__((used)) std::string w_one(U a) { return getDescription((ReturnCode)a); }
__attribute__((used)) std::string w_all(U a) { return getDescriptions((ReturnCode)a); }
'''
HDR = "EigenIPC/include/EigenIPC/ReturnCodes.hpp"
M64 = (1 << 64) - 1

def enumerators(src):
    r = subprocess.run(["clang++", *CORE, *inc(), "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=ReturnCode", src], capture_output=True, text=True)
    dec = json.JSONDecoder(); i = 0; t = r.stdout; out = []
    while i < len(t):
        j = t.find("{", i)
        if j < 0: break
        d, k = dec.raw_decode(t[j:]); i = j + k
        if d.get("kind") == "EnumDecl" and d.get("name") == "ReturnCode":
            line = 0; nxt = -1
            for e in d.get("inner", []):
                line = e.get("loc", {}).get("line", line)
                if e.get("kind") != "EnumConstantDecl": continue
                v = None; st = [e]
                while st and v is None:
                    x = st.pop()
                    if x.get("kind") == "ConstantExpr" and "value" in x: v = int(x["value"])
                    st += [y for y in x.get("inner", []) if isinstance(y, dict)]
                if v is None: v = nxt + 1
                nxt = v; out.append((e["name"], v & M64, line))
            if out: return out
    raise Broken("enumeration EigenIPC::ReturnCode not found")

class Bits:
    """bitwise expressions over two 64-bit operands"""
    def __init__(self): self.bad = False
    def bit(self, v, i, a, b):
        """bit i of v when bit i of the operands is a, b; None if not a bitwise expression"""
        if type(v) is int: return (v >> i) & 1
        if isC(v): return None
        x = single_atom(v)
        if x is not None:
            if x == ("sym", "a"): return a
            if x == ("sym", "b"): return b
            if x[0] in ("and", "or", "xor") and len(x) == 3:
                p, q = self.bit(x[1], i, a, b), self.bit(x[2], i, a, b)
                if p is None or q is None: return None
                return p & q if x[0] == "and" else p | q if x[0] == "or" else p ^ q
            return None
        if isP(v):
            w = psub(pneg(v), 1)               # ~v = -v - 1
            if type(w) is int: return 1 - ((w >> i) & 1)
            if single_atom(w) is not None:
                p = self.bit(w, i, a, b); return None if p is None else 1 - p
            # x - and(x, y) = x & ~y ; x + y - and(x, y) = x | y
            pos = [AT[m[0]] for m, k in v[2] if k == 1 and len(m) == 1]; neg = [AT[m[0]] for m, k in v[2] if k == -1 and len(m) == 1]
            if v[1] == 0 and len(pos) + len(neg) == len(v[2]) and len(neg) == 1 and neg[0][0] == "and":
                A = [atom(y) for y in pos]
                if len(A) == 1 and A[0] in neg[0][1:]:
                    p, q = (self.bit(z, i, a, b) for z in neg[0][1:])
                    me = self.bit(A[0], i, a, b)
                    return None if None in (p, q, me) else me & (1 - (p & q))
                if len(A) == 2 and set(A) == set(neg[0][1:]):
                    p, q = (self.bit(z, i, a, b) for z in A)
                    return None if None in (p, q) else p | q
        return None
    def sides(self, v):
        """v == 0 as an equation between two bitwise expressions"""
        if not isP(v): return None
        for parts_ in ([([x for x in v[2] if x[1] > 0], [x for x in v[2] if x[1] < 0])]):
            P, N = parts_
            cp = v[1] if v[1] > 0 else 0; cn = -v[1] if v[1] < 0 else 0
            if any(abs(k) != 1 for m, k in v[2]): continue
            L = mk(cp, {m: 1 for m, k in P}); R = mk(cn, {m: 1 for m, k in N})
            if (type(L) is int or single_atom(L) is not None) and (type(R) is int or single_atom(R) is not None): return L, R
        return None

def check(prop, tier, work):
    src = work + "/rc.cpp"; open(src, "w").write(WRAP)
    enum = enumerators(src)
    prog = Program([compile_ir(src, work + "/rc.ll")])
    reports = []; n = {}
    def cnt(k, c=1): n[k] = n.get(k, 0) + c
    def rep(msg, where=HDR): reports.append({"rule": prop, "message": msg, "where": where, "path": "", "entry": "", "trace": []})
    val = {k: v for k, v, l in enum}; line = {k: "%s:%d" % (HDR, l) for k, v, l in enum}
    zero = [k for k, v in val.items() if v == 0]; basic = [k for k in val if val[k]]
    for k in basic:
        cnt("return codes")
        if val[k] & (val[k] - 1): rep("return code %s is not a single bit (0x%x)" % (k, val[k]), line[k])
    seen = {}
    for k in val:
        if val[k] in seen: rep("return codes %s and %s have the same value" % (seen[val[k]], k), line[k])
        seen.setdefault(val[k], k)
    fn = {}
    for m, d in prog.dem.items():
        if re.match(r"(std::.* )?w_(add|sub|isin|one|all)\b", d) or re.match(r"w_(add|sub|isin|one|all)\W", d): fn[re.search(r"w_(\w+?)(\[|\(|$)", d).group(1)] = prog.fn[m]
    for k in ("add", "sub", "isin", "one", "all"):
        if k not in fn: raise Broken("wrapper w_%s not found" % k)
    stats = {"instructions": 0}; fns = set()
    def engine(rules=(), **o):
        e = Engine(prog, models, list(rules), budget=0, repo=REPO); e.entry = "return codes"; e.deep_strings = True; e.tables = True
        for k, v in o.items(): setattr(e, k, v)
        return e
    def done(e):
        stats["instructions"] += e.stats["instructions"]; fns.update(prog.short(f)[0] for f in e.stats["functions"])
    RESET = val.get("RESET"); B = Bits()
    def where(f):
        # the called library function rather than the wrapper
        for x, names in (("add", "operator+"), ("sub", "operator-"), ("isin", "isin"), ("one", "getDescription"), ("all", "getDescriptions")):
            if f == x:
                for m, d in prog.dem.items():
                    if re.match(r"EigenIPC::%s(\[abi:cxx11\])?\(EigenIPC::ReturnCode" % re.escape(names), d):
                        l = [y for y in fn_locs(prog.fn[m]) if y[0].startswith(REPO)]
                        if l: return "%s:%d" % (HDR, l[0][1])
        return HDR
    def operator(name, want, opname):
        e = engine(path_sens=True); f = fn[name]; f.parse(); st = St()
        outs = big(e.run, f, [sym("a"), sym("b")], st, 0); done(e)
        for kind, s, v in outs:
            if kind != "ret": rep("%s may throw" % opname, where(name)); continue
            hasreset = RESET is not None and any(s.decide(c_eq(psub(sym(x), RESET))) == 1 for x in "ab")
            if RESET is not None and name == "add":
                for x in "ab":
                    t = s.fork()
                    if s.decide(c_eq(psub(sym(x), RESET))) != 0 and t.assume(c_eq(psub(sym(x), RESET))):
                        cnt("operator results")
                        if v != 0: rep("adding RESET does not clear the code", where(name))
                        hasreset = hasreset or v == 0
            if hasreset: continue
            fixed = {}
            for x in "ab":
                c = s.const(sym(x)) if hasattr(s, "const") else None
                lo, hi = s.rng(sym(x))
                if lo is not None and lo == hi: fixed[x] = lo
            ok = True; und = False
            for i in range(64):
                for a in (0, 1):
                    for b in (0, 1):
                        if "a" in fixed and (fixed["a"] >> i) & 1 != a or "b" in fixed and (fixed["b"] >> i) & 1 != b: continue
                        r = B.bit(v, i, a, b); cnt("operator result bits")
                        if r is None: und = True
                        elif r != want(a, b): ok = False
            if und: cnt("operator results not decomposed")
            elif not ok: rep("%s does not compute %s for some codes" % (opname, "the union of both codes" if name == "add" else "the first code without the second"), where(name))
    operator("add", lambda a, b: a | b, "operator+")
    operator("sub", lambda a, b: a & (1 - b), "operator-")
    # membership
    e = engine(path_sens=True); f = fn["isin"]; f.parse()
    for kind, s, v in big(e.run, f, [sym("a"), sym("b")], St(), 0):
        if kind != "ret": rep("isin may throw", where("isin")); continue
        c = v if isC(v) or type(v) is int else c_ne(v)
        cnt("membership results")
        if isC(c) and c[1] in ("eq", "ne"):
            sd = B.sides(c[2]); und = sd is None; ok = c[1] == "eq"
            if not und:
                for i in range(64):
                    for a in (0, 1):
                        for b in (0, 1):
                            p, q = B.bit(sd[0], i, a, b), B.bit(sd[1], i, a, b); cnt("membership bits")
                            if p is None or q is None: und = True
                            elif (p == q) != (a <= b): ok = False
            # 'nothing is missing' may also be written as an inequality with zero; only equality of all bits is accepted
            if und: cnt("membership results not decomposed")
            elif not ok: rep("isin is not 'all bits of the queried code are present'", where("isin"))
        elif type(c) is int:
            if not s.facts: rep("isin does not depend on the codes", where("isin"))
            else:
                t = s.fork(); u = s.fork()
                if c == 1:
                    # may only hold where nothing queried is missing
                    bad = False
                    for i in range(64):
                        w = s.fork()
                        if w.assume(c_eq(psub(sym("a"), 1 << i))) and w.assume(c_eq(sym("b"))) : bad = True
                    if bad: rep("isin is true for a code which is not present", where("isin"))
                else:
                    for i in range(64):
                        w = s.fork()
                        if w.assume(c_eq(psub(sym("a"), 1 << i))) and w.assume(c_eq(psub(sym("b"), 1 << i))): rep("isin is false for a code which is present", where("isin")); break
        else: cnt("membership results not decomposed")
    done(e)
    # descriptions
    def text(name, v):
        e = engine(); f = fn[name]; f.parse(); st = St(); b = ("obj", "sret"); st.mem[b] = {}; st.own.add(b)
        outs = big(e.run, f, [("p", b, 0), v], st, 0); done(e)
        r = set()
        for kind, s, _ in outs:
            x = models.sget(e, s, ("p", b, 0)) if kind == "ret" else None
            r.add("".join(x[1]) if x is not None and all(type(y) is str for y in x[1]) else None)
        return r.pop() if len(r) == 1 else None
    sgn = lambda v: v - (1 << 64) if v >> 63 else v
    for k in val:
        t = text("one", sgn(val[k])); cnt("descriptions of single codes")
        if t is None: cnt("descriptions not decomposed")
        elif t != k: rep("the description of %s is '%s'" % (k, t), line[k])
    combos = [()] + [(k,) for k in basic] + [tuple(basic)] + [(x, y) for i, x in enumerate(basic) for y in basic[i + 1:]]
    if tier == "thorough": combos += [tuple(basic[:i] + basic[i + 1:]) for i in range(len(basic))] + [tuple(basic[i:i + 3]) for i in range(len(basic) - 2)]
    chunks = [combos[i::8] for i in range(8)]
    def many(ch):
        out = []
        for c in ch:
            v = 0
            for k in c: v |= val[k]
            out.append((c, text("all", sgn(v))))
        return out, stats["instructions"], sorted(fns)
    shown = 0
    for r, ins, fs in fork_map(many, chunks):
        stats["instructions"] += ins; fns.update(fs)
        for c, t in r:
            cnt("descriptions of combined codes")
            if t is None: cnt("descriptions not decomposed"); continue
            names = sorted(x.strip() for x in re.sub(r"^\W+|\W+$", "", t.strip()).split(",") if x.strip())
            # codes sharing a value were reported above
            if names != sorted(c) and shown < 3:
                shown += 1; rep("the description of %s is '%s'" % ("+".join(c) if len(c) < 6 else "all codes together", t[:200]), where("all"))
    return {"reports": reports, "counts": n, "functions": sorted(fns), "opaque": [], "numbers": stats, "enumerators": len(val)}
