"""Abstract values: polynomials over interned atoms, conditions, pointers, symbolic strings."""

AT = []; AID = {}
def aid(a):
    i = AID.get(a)
    if i is None:
        i = len(AT); AID[a] = i; AT.append(a)
    return i

def atom(a): return ("P", 0, (((aid(a),), 1),))
def isP(v): return type(v) is tuple and len(v) == 3 and v[0] == "P"
def isC(v): return type(v) is tuple and len(v) > 0 and v[0] == "C"
def isp(v): return type(v) is tuple and len(v) == 3 and v[0] == "p"
def isS(v): return type(v) is tuple and len(v) == 2 and v[0] == "S"

def parts(v):
    if type(v) is int: return v, {}
    return v[1], dict(v[2])
def mk(c, d):
    t = tuple(sorted((m, k) for m, k in d.items() if k))
    return ("P", c, t) if t else c
def padd(a, b):
    if type(a) is int and type(b) is int: return a + b
    c, d = parts(a); e, f = parts(b)
    for m, k in f.items(): d[m] = d.get(m, 0) + k
    return mk(c + e, d)
def pneg(a):
    if type(a) is int: return -a
    return ("P", -a[1], tuple((m, -k) for m, k in a[2]))
def psub(a, b): return padd(a, pneg(b))
def pmul(a, b):
    if type(a) is int and type(b) is int: return a * b
    c, d = parts(a); e, f = parts(b)
    r = {}
    for m, k in list(d.items()) + ([((), c)] if c else []):
        for n, l in list(f.items()) + ([((), e)] if e else []):
            q = tuple(sorted(m + n)); r[q] = r.get(q, 0) + k * l
    c0 = r.pop((), 0)
    return mk(c0, r)
def single_atom(v):
    """the atom if v is exactly 1*atom"""
    if isP(v) and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1 and len(v[2][0][0]) == 1: return AT[v[2][0][0][0]]
    return None
def atoms_of(v, out=None):
    if out is None: out = set()
    if isP(v):
        for m, k in v[2]:
            for i in m: out.add(i)
    return out
def deep_atoms(v, out=None):
    """all atoms, looking inside atoms, conditions, strings and pointers as well"""
    if out is None: out = set()
    if type(v) is tuple:
        if isP(v):
            for m, k in v[2]:
                for i in m:
                    if i not in out:
                        out.add(i); deep_atoms(AT[i], out)
        else:
            for x in v: deep_atoms(x, out)
    return out

# ---- conditions
def substitute(v, m):
    """v with the atoms m maps replaced by their values (ints or polynomials); None when an atom occurs inside another term"""
    if isP(v):
        r = v[1]
        for mono, k in v[2]:
            x = k
            for i in mono:
                if i in m:
                    y = m[i]
                    if not (type(y) is int or isP(y)): return None
                else:
                    y = ("P", 0, (((i,), 1),))
                    if deep_atoms(y) & m.keys(): return None
                x = pmul(x, y)
            r = padd(r, x)
        return r
    if isC(v):
        if v[1] == "op": return None
        r = [v[0], v[1]]
        for x in v[2:]:
            if isP(x) or isC(x):
                x = substitute(x, m)
                if x is None: return None
            elif type(x) is not int: return None
            r.append(x)
        return tuple(r)
    return v if type(v) is int else None

def _norm_eq(p):
    c, d = parts(p)
    if not d: return None
    m = min(d)
    if d[m] < 0: return pneg(p)
    return p
def c_ge(p):
    if type(p) is int: return int(p >= 0)
    return ("C", "ge", p)
def c_eq(p):
    if type(p) is int: return int(p == 0)
    # a boolean atom compared with a constant
    a = _b2i(p)
    if a is not None:
        at, k, c = a       # k*b + c == 0
        if c == 0: return c_not(at)
        if -c == k: return at
        return 0
    return ("C", "eq", _norm_eq(p))
def c_ne(p):
    if type(p) is int: return int(p != 0)
    a = _b2i(p)
    if a is not None: return c_not(c_eq(p))
    return ("C", "ne", _norm_eq(p))
def _b2i(p):
    if isP(p) and len(p[2]) == 1:
        (m, k), = p[2]
        if len(m) == 1 and type(AT[m[0]]) is tuple and AT[m[0]][0] == "b2i": return AT[m[0]][1], k, p[1]
    return None
def c_not(c):
    if type(c) is int: return 1 - c
    k = c[1]
    if k == "ge": return c_ge(psub(pneg(c[2]), 1))
    if k == "eq": return ("C", "ne", c[2])
    if k == "ne": return ("C", "eq", c[2])
    if k == "ult": return ("C", "uge", c[2], c[3])
    if k == "uge": return ("C", "ult", c[2], c[3])
    if k == "and": return c_or(c_not(c[2]), c_not(c[3]))
    if k == "or": return c_and(c_not(c[2]), c_not(c[3]))
    if k == "op": return ("C", "nop") + c[2:]
    if k == "nop": return ("C", "op") + c[2:]
    raise ValueError(c)
def c_and(a, b):
    if a == 0 or b == 0: return 0
    if a == 1: return b
    if b == 1: return a
    return a if a == b else ("C", "and", a, b)
def c_or(a, b):
    if a == 1 or b == 1: return 1
    if a == 0: return b
    if b == 0: return a
    return a if a == b else ("C", "or", a, b)
def b2i(c):
    return c if type(c) is int else atom(("b2i", c))

# ---- strings
def S(*ps):
    out = []
    for p in ps:
        if type(p) is str:
            if not p: continue
            if out and type(out[-1]) is str: out[-1] += p
            else: out.append(p)
        else: out.append(p)
    return ("S", tuple(out))
def scat(a, b): return S(*(a[1] + b[1]))
def s_show(s):
    return "".join(x if type(x) is str else "<%s>" % (x[1] if type(x) is tuple and len(x) > 1 and type(x[1]) is str else "?") for x in s[1])

def show(v, d=0):
    if type(v) in (int, float) or v is None: return str(v)
    if d > 6: return ".."
    if isS(v): return '"%s"' % s_show(v)
    if isP(v):
        r = []
        for m, k in v[2]:
            r.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + "*".join(show_atom(AT[i], d + 1) for i in m))
        if v[1]: r.append(str(v[1]))
        return "+".join(r).replace("+-", "-")
    if isp(v): return "&%s+%s" % (show_atom(v[1], d + 1), show(v[2], d + 1))
    if isC(v): return "%s(%s)" % (v[1], ",".join(show(x, d + 1) for x in v[2:]))
    if type(v) is tuple: return show_atom(v, d)
    return str(v)
def show_atom(a, d=0):
    if type(a) is not tuple: return str(a)
    if a and a[0] == "sym": return str(a[1])
    if d > 6: return ".."
    return str(a[0]) + "(" + ",".join(show(x, d + 1) for x in a[1:]) + ")"
