"""Textual LLVM IR reader (lazy): modules, types, functions, instructions, debug locations."""
import re, os, subprocess, functools

TOK = re.compile(r'''%"[^"]*"|%[\w.$-]+|@"[^"]*"|@[\w.$-]+|c"[^"]*"|"[^"]*"|!"[^"]*"|![\w.]*|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d*(?:[eE][+-]?\d+)?|-?\d+|[A-Za-z_][\w.]*|\.\.\.|[()\[\]{}<>,=*#:|]''')

class IRError(Exception):
    pass

# ---- types: ('i',n) ('f',bits) ('ptr',) ('arr',n,t) ('vec',n,t) ('st',packed,(t..)) ('named',n) ('void',) ('meta',) ('label',) ('fn',)
class P:
    """token cursor"""
    __slots__ = ("t", "i")
    def __init__(self, toks): self.t = toks; self.i = 0
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None
    def next(self):
        v = self.t[self.i]; self.i += 1; return v
    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1; return True
        return False
    def expect(self, x):
        v = self.next()
        if v != x: raise IRError("expected %r got %r in %s" % (x, v, " ".join(self.t[:60])))

ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly", "returned", "signext", "zeroext", "inreg", "immarg", "swiftself", "nest", "dead_on_unwind", "writable", "nofree", "allocptr", "allocalign", "inalloca", "byref", "sret", "byval", "elementtype", "dereferenceable", "dereferenceable_or_null", "align", "range", "captures", "initializes", "preallocated", "nofpclass", "swifterror"}

def skip_attrs(p):
    info = {}
    while p.peek() in ATTRS:
        a = p.next()
        if a == "align":
            p.next()
        elif p.peek() == "(" :
            p.next(); d = 1; start = p.i
            while d:
                t = p.next()
                if t == "(": d += 1
                elif t == ")": d -= 1
            if a in ("sret", "byval"):
                info[a] = p.t[start:p.i - 1]
        if a in ("zeroext", "signext"): info[a] = True
        if a in ("readonly",): info[a] = True
        info.setdefault(a, True)
    return info

def parse_type(p):
    t = p.next()
    if t[0] == "i" and t[1:].isdigit(): r = ("i", int(t[1:]))
    elif t == "ptr":
        r = ("ptr",)
        if p.peek() == "addrspace": p.next(); p.next(); p.next(); p.next()
    elif t == "void": r = ("void",)
    elif t == "float": r = ("f", 32)
    elif t == "double": r = ("f", 64)
    elif t == "x86_fp80": r = ("f", 80)
    elif t in ("half", "bfloat"): r = ("f", 16)
    elif t == "metadata": r = ("meta",)
    elif t == "label": r = ("label",)
    elif t == "token": r = ("token",)
    elif t == "opaque": r = ("st", False, ())
    elif t == "[":
        n = int(p.next()); p.expect("x"); e = parse_type(p); p.expect("]"); r = ("arr", n, e)
    elif t == "<":
        if p.peek() == "{":
            p.next(); fs = []
            while not p.eat("}"):
                fs.append(parse_type(p)); p.eat(",")
            p.expect(">"); r = ("st", True, tuple(fs))
        else:
            n = int(p.next()); p.expect("x"); e = parse_type(p); p.expect(">"); r = ("vec", n, e)
    elif t == "{":
        fs = []
        while not p.eat("}"):
            fs.append(parse_type(p)); p.eat(",")
        r = ("st", False, tuple(fs))
    elif t[0] == "%": r = ("named", t)
    else: raise IRError("type? %r in %s" % (t, " ".join(p.t[:40])))
    while p.peek() == "(":      # function type
        d = 0
        while True:
            x = p.next()
            if x == "(": d += 1
            elif x == ")":
                d -= 1
                if d == 0: break
        r = ("fn", r)
    while p.peek() == "*": p.next(); r = ("ptr",)
    return r

def parse_value(p, ty):
    t = p.next()
    c = t[0]
    if c == "%": return ("l", t)
    if c == "@": return ("g", t[1:].strip('"'))
    if c == "-" or c.isdigit():
        if ty[0] == "f":
            if t.startswith("0x"):
                import struct
                h = t[2:]
                if h[0] in "KLMHR": return ("k", 0.0)
                return ("k", struct.unpack(">d", bytes.fromhex(h.rjust(16, "0")))[0])
            return ("k", float(t))
        return ("k", int(t))
    if t == "true": return ("k", 1)
    if t == "false": return ("k", 0)
    if t in ("null", "zeroinitializer", "none"): return ("k", 0) if ty[0] != "f" else ("k", 0.0)
    if t in ("undef", "poison"): return ("undef",)
    if t.startswith('c"'): return ("cstr", t)
    if c == "!": return ("meta",)
    if t in ("getelementptr",):
        while p.peek() in ("inbounds", "inrange", "nuw", "nusw"): p.next()
        p.expect("("); bt = parse_type(p); p.expect(",")
        ops = []
        while True:
            p.eat("inrange")
            if p.peek() == "(":     # inrange(a,b)
                while p.next() != ")": pass
            ot = parse_type(p); ops.append((ot, parse_value(p, ot)))
            if not p.eat(","): break
        p.expect(")")
        return ("cgep", bt, ops)
    if t in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
        p.expect("("); ot = parse_type(p); v = parse_value(p, ot); p.expect("to"); parse_type(p); p.expect(")")
        return ("ccast", t, ot, v)
    if t in ("add", "sub", "mul", "xor", "icmp", "select", "and", "or", "shl"):
        d = 0
        while True:
            x = p.next()
            if x == "(": d += 1
            elif x == ")":
                d -= 1
                if d == 0: break
        return ("undef",)
    if t in ("{", "[", "<"):
        close = {"{": "}", "[": "]", "<": ">"}[t]
        els = []
        if t == "<" and p.peek() == "{":
            p.next(); close = "}"; packed = True
        else: packed = False
        while not p.eat(close):
            et = parse_type(p); els.append((et, parse_value(p, et))); p.eat(",")
        if packed: p.expect(">")
        return ("agg", els)
    raise IRError("value? %r in %s" % (t, " ".join(p.t[:60])))

class Ins:
    __slots__ = ("op", "dst", "a", "dbg", "line")
    def __init__(self, op, dst, a, dbg, line): self.op = op; self.dst = dst; self.a = a; self.dbg = dbg; self.line = line
    def __repr__(self): return self.line

BINOPS = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr", "addrspacecast"}
FLAGS = {"nsw", "nuw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inbounds", "volatile", "disjoint", "nneg", "samesign", "nusw", "atomic"}
DBG = re.compile(r'!dbg !(\d+)')

def parse_call(p, invoke):
    # after 'call'/'invoke'
    while p.peek() in ("fastcc", "ccc", "coldcc", "tail", "musttail", "notail", "nnan", "ninf", "nsz", "fast", "arcp", "contract", "afn", "reassoc"): p.next()
    skip_attrs(p)
    rt = parse_type(p)
    if rt[0] == "fn": rt = rt[1]
    if p.peek() == "asm":
        while p.peek() != "(": p.next()
        callee = ("asm",)
    else:
        callee = parse_value(p, ("ptr",))
    p.expect("(")
    args = []
    while not p.eat(")"):
        at = parse_type(p); info = skip_attrs(p)
        if at[0] == "meta":
            # metadata operand: skip until , or )
            d = 0
            while True:
                t = p.peek()
                if d == 0 and t in (",", ")"): break
                if t == "(": d += 1
                if t == ")": d -= 1
                p.next()
            args.append((at, ("meta",), info))
        else:
            args.append((at, parse_value(p, at), info))
        p.eat(",")
    return rt, callee, args

def parse_ins(line):
    s = line.strip()
    m = DBG.search(s)
    dbg = int(m.group(1)) if m else None
    toks = TOK.findall(s)
    p = P(toks)
    dst = None
    if toks[0][0] == "%" and p.peek(1) == "=":
        dst = p.next(); p.next()
    op = p.next()
    if op in ("tail", "musttail", "notail"): op = p.next()
    if op == "call":
        rt, c, args = parse_call(p, False)
        return Ins("call", dst, (rt, c, args), dbg, s)
    if op == "invoke":
        rt, c, args = parse_call(p, True)
        while p.next() != "to": pass
        p.expect("label"); n = p.next()
        p.expect("unwind"); p.expect("label"); u = p.next()
        return Ins("invoke", dst, (rt, c, args, n, u), dbg, s)
    if op == "alloca":
        p.eat("inalloca")
        t = parse_type(p); n = ("k", 1)
        if p.eat(",") and p.peek() not in ("align", "addrspace", None) and not p.peek().startswith("!"):
            ct = parse_type(p); n = parse_value(p, ct)
        return Ins("alloca", dst, (t, n), dbg, s)
    if op == "load":
        while p.peek() in FLAGS: p.next()
        t = parse_type(p); p.expect(","); pt = parse_type(p); v = parse_value(p, pt)
        return Ins("load", dst, (t, v), dbg, s)
    if op == "store":
        while p.peek() in FLAGS: p.next()
        t = parse_type(p); v = parse_value(p, t); p.expect(","); pt = parse_type(p); q = parse_value(p, pt)
        return Ins("store", None, (t, v, q), dbg, s)
    if op == "getelementptr":
        while p.peek() in FLAGS: p.next()
        bt = parse_type(p); p.expect(","); ops = []
        while True:
            if p.peek() is None or p.peek().startswith("!"): break
            p.eat("inrange")
            ot = parse_type(p); ops.append((ot, parse_value(p, ot)))
            if not p.eat(","): break
            if p.peek() and p.peek().startswith("!"): break
        return Ins("gep", dst, (bt, ops), dbg, s)
    if op == "br":
        if p.peek() == "label":
            p.next(); return Ins("br", None, (None, p.next()), dbg, s)
        t = parse_type(p); v = parse_value(p, t); p.expect(","); p.expect("label"); a = p.next(); p.expect(","); p.expect("label"); b = p.next()
        return Ins("br", None, (v, a, b), dbg, s)
    if op == "switch":
        t = parse_type(p); v = parse_value(p, t); p.expect(","); p.expect("label"); d = p.next(); p.expect("[")
        cases = []
        while not p.eat("]"):
            ct = parse_type(p); k = parse_value(p, ct); p.expect(","); p.expect("label"); cases.append((k[1], p.next()))
        return Ins("switch", None, (t, v, d, cases), dbg, s)
    if op == "ret":
        t = parse_type(p)
        return Ins("ret", None, (t, parse_value(p, t) if t[0] != "void" else None), dbg, s)
    if op in ("icmp", "fcmp"):
        while p.peek() in FLAGS: p.next()
        pred = p.next(); t = parse_type(p); a = parse_value(p, t); p.expect(","); b = parse_value(p, t)
        return Ins(op, dst, (pred, t, a, b), dbg, s)
    if op in BINOPS:
        while p.peek() in FLAGS: p.next()
        t = parse_type(p); a = parse_value(p, t); p.expect(","); b = parse_value(p, t)
        return Ins("bin", dst, (op, t, a, b), dbg, s)
    if op in CASTS:
        while p.peek() in FLAGS: p.next()
        t = parse_type(p); a = parse_value(p, t); p.expect("to"); t2 = parse_type(p)
        return Ins("cast", dst, (op, t, a, t2), dbg, s)
    if op == "phi":
        while p.peek() in FLAGS: p.next()
        t = parse_type(p); inc = []
        while p.eat("["):
            v = parse_value(p, t); p.expect(","); b = p.next(); p.expect("]"); inc.append((v, b)); p.eat(",")
        return Ins("phi", dst, (t, inc), dbg, s)
    if op == "select":
        while p.peek() in FLAGS: p.next()
        ct = parse_type(p); c = parse_value(p, ct); p.expect(","); t = parse_type(p); a = parse_value(p, t); p.expect(","); parse_type(p); b = parse_value(p, t)
        return Ins("select", dst, (c, t, a, b), dbg, s)
    if op == "landingpad":
        parse_type(p); clauses = []; cleanup = False
        while p.peek() is not None:
            t = p.next()
            if t == "cleanup": cleanup = True
            elif t == "catch":
                ct = parse_type(p); clauses.append(parse_value(p, ct))
            elif t == "filter":
                ct = parse_type(p); parse_value(p, ct)
            elif t in (",",): pass
            else: break
        return Ins("landingpad", dst, (cleanup, clauses), dbg, s)
    if op == "resume": return Ins("resume", None, (), dbg, s)
    if op == "unreachable": return Ins("unreachable", None, (), dbg, s)
    if op == "extractvalue":
        t = parse_type(p); v = parse_value(p, t); p.expect(","); idx = []
        while p.peek() is not None and p.peek().lstrip("-").isdigit():
            idx.append(int(p.next())); 
            if not (p.peek() == "," and p.peek(1) and p.peek(1).isdigit()): break
            p.next()
        return Ins("extractvalue", dst, (t, v, idx), dbg, s)
    if op == "insertvalue":
        t = parse_type(p); v = parse_value(p, t); p.expect(","); t2 = parse_type(p); v2 = parse_value(p, t2); p.expect(",")
        return Ins("insertvalue", dst, (t, v, v2, int(p.next())), dbg, s)
    if op == "fneg":
        while p.peek() in FLAGS: p.next()
        t = parse_type(p); return Ins("opaque", dst, (t,), dbg, s)
    if op == "freeze":
        t = parse_type(p); return Ins("copy", dst, (t, parse_value(p, t)), dbg, s)
    if op == "atomicrmw":
        while p.peek() in FLAGS: p.next()
        o = p.next(); pt = parse_type(p); q = parse_value(p, pt); p.expect(","); t = parse_type(p); v = parse_value(p, t)
        return Ins("atomicrmw", dst, (o, t, q, v), dbg, s)
    if op == "cmpxchg":
        while p.peek() in FLAGS or p.peek() == "weak": p.next()
        pt = parse_type(p); q = parse_value(p, pt); p.expect(","); t = parse_type(p); v = parse_value(p, t); p.expect(","); t = parse_type(p); n = parse_value(p, t)
        return Ins("cmpxchg", dst, (t, q, v, n), dbg, s)
    if op == "fence": return Ins("nop", None, (), dbg, s)
    if op in ("extractelement", "insertelement", "shufflevector", "va_arg"):
        return Ins("opaque", dst, (("i", 64),), dbg, s)
    raise IRError("instruction? " + s)

class Func:
    def __init__(self, mod, name, header, lines):
        self.mod = mod; self.name = name; self.header = header; self.lines = lines; self.parsed = False
        m = DBG.search(header); self.sp = int(m.group(1)) if m else None
    def parse(self):
        if self.parsed: return self
        h = self.header
        toks = TOK.findall(h[h.index("define") + 6:])
        p = P(toks)
        # find '@name ('
        while not (p.peek()[0] == "@" and p.peek(1) == "("): p.next()
        # return type: reparse
        q = P(toks)
        while True:
            try:
                save = q.i
                if q.peek() in ATTRS: skip_attrs(q); continue
                if q.peek() in ("linkonce_odr", "weak_odr", "internal", "private", "weak", "linkonce", "external", "dso_local", "hidden", "protected", "available_externally", "unnamed_addr", "local_unnamed_addr", "fastcc", "ccc", "common", "default"):
                    q.next(); continue
                self.rtype = parse_type(q); break
            except IRError:
                raise
        p.next(); p.next()
        self.params = []
        self.vararg = False
        while not p.eat(")"):
            if p.eat("..."): self.vararg = True; continue
            t = parse_type(p); info = skip_attrs(p); n = None
            if p.peek() and p.peek()[0] == "%": n = p.next()
            self.params.append((t, n, info)); p.eat(",")
        # blocks
        nump = len(self.params)
        self.blocks = {}; self.order = []
        cur = None
        # entry label is the number after params (unnamed)
        entry = "%" + str(nump)
        for i, (t, n, info) in enumerate(self.params):
            if n and not n[1:].isdigit(): pass
        acc = None
        first = True
        for l in self.lines:
            if not l or l.startswith(";"): continue
            if l[0] != " ":
                m = re.match(r'("[^"]+"|[\w.$-]+):', l)
                lab = "%" + m.group(1)
                cur = []; self.blocks[lab] = cur; self.order.append(lab); first = False
                continue
            if first:
                cur = []; self.blocks[entry] = cur; self.order.append(entry); first = False
            st = l.strip()
            if not st or st[0] == ";" or st.startswith("#dbg"): continue
            if st.startswith(("to label", "catch ", "cleanup", "filter ", "]")) or re.match(r'i\d+ -?\d+, label', st):
                cur[-1] += " " + st
            else:
                cur.append(st)
        for b, ls in self.blocks.items():
            self.blocks[b] = [parse_ins(x) for x in ls if "@llvm.dbg." not in x and "@llvm.lifetime" not in x]
        self.entry = self.order[0]
        self._cfg()
        self.parsed = True
        self.lines = None
        return self
    def _cfg(self):
        succ = {}
        for b, ins in self.blocks.items():
            t = ins[-1]
            if t.op == "br": succ[b] = [x for x in t.a[1:]]
            elif t.op == "switch": succ[b] = [t.a[2]] + [x for _, x in t.a[3]]
            elif t.op == "invoke": succ[b] = [t.a[3], t.a[4]]
            else: succ[b] = []
        self.succ = succ
        # iterative DFS post-order, back edges
        seen = set(); post = []; onstack = set(); back = []
        st = [(self.entry, iter(succ[self.entry]))]; seen.add(self.entry); onstack.add(self.entry)
        while st:
            b, it = st[-1]
            for n in it:
                if n in onstack: back.append((b, n))
                if n not in seen:
                    seen.add(n); onstack.add(n); st.append((n, iter(succ[n]))); break
            else:
                post.append(b); onstack.discard(b); st.pop()
        rpo = post[::-1]
        pred = {b: [] for b in rpo}
        for b in rpo:
            for n in succ[b]:
                pred[n].append(b)
        self.pred = pred
        self.loops = {}
        for t, h in back:
            body = self.loops.setdefault(h, {h})
            work = [t]
            while work:
                x = work.pop()
                if x in body: continue
                body.add(x); work.extend(pred[x])
        self.inner = {}       # block -> list of heads of enclosing loops
        for h, body in self.loops.items():
            for b in body: self.inner.setdefault(b, []).append(h)
        # reverse post order in which loop exits and unwind blocks come after the loop body / the normal path
        def order(b):
            t = self.blocks[b][-1]
            un = t.a[4] if t.op == "invoke" else None
            lb = set(self.inner.get(b, ()))
            return sorted(range(len(succ[b])), key=lambda k: (0 if succ[b][k] == un else 1, 0 if lb - set(self.inner.get(succ[b][k], ())) else 1, -k))
        seen = {self.entry}; post = []
        st = [(self.entry, iter([succ[self.entry][k] for k in order(self.entry)]))]
        while st:
            b, it = st[-1]
            for n in it:
                if n not in seen:
                    seen.add(n); st.append((n, iter([succ[n][k] for k in order(n)]))); break
            else:
                post.append(b); st.pop()
        self.rpo = {b: i for i, b in enumerate(post[::-1])}
        # registers used across blocks
        defs = {}
        cross = set()
        rx = re.compile(r'%"[^"]*"|%[\w.$-]+')
        for b, ins in self.blocks.items():
            for i in ins:
                if i.dst: defs[i.dst] = b
        for b, ins in self.blocks.items():
            for i in ins:
                if i.op == "phi":
                    for v, pb in i.a[1]:
                        if v[0] == "l": cross.add(v[1])
                    continue
                for r in rx.findall(i.line):
                    if r in defs and defs[r] != b and r != i.dst: cross.add(r)
                if i.op == "invoke" and i.dst: cross.add(i.dst)
        for t, n, info in self.params:
            pass
        self.cross = cross

class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}; self.globals = {}; self.funcs = {}; self.meta = {}; self.decls = set(); self.decl_text = {}; self.aliases = {}
        cur = None
        with open(path) as f: text = f.read()
        for l in text.split("\n"):
            if cur is not None:
                if l == "}": cur = None
                else: cur.append(l)
                continue
            if not l: continue
            c = l[0]
            if c == "!":
                i = l.find(" = ")
                if i > 0: self.meta[l[1:i]] = l[i + 3:]
            elif c == "d" and l.startswith("define "):
                m = re.search(r'@("[^"]+"|[\w.$-]+)\(', l)
                n = m.group(1).strip('"'); cur = []
                self.funcs[n] = Func(self, n, l, cur)
            elif c == "d" and l.startswith("declare "):
                m = re.search(r'@("[^"]+"|[\w.$-]+)\(', l)
                if m: self.decls.add(m.group(1).strip('"')); self.decl_text[m.group(1).strip('"')] = l
            elif c == "%":
                i = l.find(" = type ")
                if i > 0: self.types[l[:i]] = l[i + 8:]
            elif c == "@":
                m = re.match(r'@("[^"]+"|[\w.$-]+) = (.*)', l)
                if m:
                    n = m.group(1).strip('"')
                    if re.search(r'\balias\b', m.group(2)[:80]):
                        t = re.findall(r'@("[^"]+"|[\w.$-]+)', m.group(2))
                        if t: self.aliases[n] = t[-1].strip('"')
                    else: self.globals[n] = m.group(2)
        self._tc = {}; self._lay = {}; self._gc = {}; self._loc = {}
    def resolve(self, t):
        while t[0] == "named":
            r = self._tc.get(t[1])
            if r is None:
                d = self.types.get(t[1])
                r = parse_type(P(TOK.findall(d))) if d and not d.startswith("opaque") else ("st", False, ())
                self._tc[t[1]] = r
            t = r
        return t
    def layout(self, t):
        """-> (size, align, field offsets or None)"""
        r = self._lay.get(t)
        if r: return r
        k = t[0]
        if k == "named": r = self.layout(self.resolve(t))
        elif k == "i":
            n = t[1]; b = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
            r = (b, b, None)
        elif k == "f": r = {16: (2, 2, None), 32: (4, 4, None), 64: (8, 8, None), 80: (16, 16, None)}[t[1]]
        elif k == "ptr" or k == "fn": r = (8, 8, None)
        elif k in ("arr", "vec"):
            s, a, _ = self.layout(t[2]); r = (s * t[1], a if k == "arr" else min(16, s * t[1] or 1), None)
        elif k == "st":
            off = 0; al = 1; offs = []
            for f in t[2]:
                s, a, _ = self.layout(f)
                if t[1]: a = 1
                off = (off + a - 1) // a * a; offs.append(off); off += s; al = max(al, a)
            r = ((off + al - 1) // al * al, al, offs)
        else: r = (0, 1, None)
        self._lay[t] = r
        return r
    # ---- metadata
    def md(self, i): return self.meta.get(str(i), "")
    def loc(self, dbg):
        """-> (file, line)"""
        if dbg is None: return ("?", 0)
        r = self._loc.get(dbg)
        if r: return r
        s = self.md(dbg)
        m = re.search(r'line: (\d+)', s); line = int(m.group(1)) if m else 0
        sc = re.search(r'scope: !(\d+)', s)
        f = "?"
        n = 0
        x = sc.group(1) if sc else None
        while x and n < 30:
            y = self.md(x); n += 1
            fm = re.search(r'file: !(\d+)', y)
            if fm:
                g = re.search(r'filename: "([^"]*)"', self.md(fm.group(1)))
                if g: f = g.group(1)
                break
            sm = re.search(r'scope: !(\d+)', y); x = sm.group(1) if sm else None
        d = re.search(r'filename: "[^"]*", directory: "([^"]*)"', self.md(fm.group(1))) if x and fm else None
        if d and not f.startswith("/"): f = d.group(1) + "/" + f
        r = (f, line); self._loc[dbg] = r
        return r
    def locs(self, dbg):
        """locations from the innermost inlined one outwards"""
        n = 0
        while dbg is not None and n < 40:
            yield self.loc(dbg); n += 1
            m = re.search(r'inlinedAt: !(\d+)', self.md(dbg))
            dbg = m.group(1) if m else None
    def access_flags(self):
        """linkageName -> 'public'/'protected'/'private'/None (class members), from debug info"""
        out = {}
        for k, v in self.meta.items():
            if "DISubprogram(" in v and "DISPFlagDefinition" not in v:
                m = re.search(r'linkageName: "([^"]+)"', v)
                n = re.search(r'name: "([^"]*)"', v)
                if m:
                    fl = re.search(r'flags: ([\w| ]+)', v); fl = fl.group(1) if fl else ""
                    out[m.group(1)] = ("public" if "DIFlagPublic" in fl else "protected" if "DIFlagProtected" in fl else "private", n.group(1) if n else "")
        return out

def demangle(names):
    names = list(names)
    r = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(names) + "\n", capture_output=True, text=True).stdout.split("\n")
    return dict(zip(names, r))
