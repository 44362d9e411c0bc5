"""Models of the primitives the analysed code rests on (POSIX, C/C++ runtime, std::string, Eigen's dense assignment,
Boost.Interprocess).  A model maps (engine, state, args, call site) to outcomes [(kind, state, value)].

Typestate keys kept in St.ts:
  ('sem', path)        number of open handles              ('hold', path)  units taken and not given back
  ('fd', path, site)   open descriptors                    ('map', path, site) -> mapped byte count (expression)
  ('fault',)           injected failures in this entry     ('failed', prim, path) failures seen in this entry
"""
import re
from .terms import *
from . import ir

O_CREAT, O_EXCL, O_TRUNC = 0o100, 0o200, 0o1000
UNK = ("S", (("unknown",),))

def ret(st, v=None): return [("ret", st, v)]

def m_guard_release(eng, st, a, site):
    if getattr(eng, "tables", False) and isp(a[0]): eng.put(st, a[0][1], 0, 1, 1)
    return ret(st, None)
# ---------------------------------------------------------------- strings
def sget(eng, st, p):
    """abstract value of the std::string object at p"""
    if not isp(p): return UNK
    base, off = p[1], p[2]
    if type(off) is not int: return ("S", (("strat", base, off),))
    d = eng.cells(st, base)
    if d is not None:
        c = d.get(off)
        if c is not None and isS(c[1]): return c[1]
        v = d.get("v", 0)
        return ("S", (("strinit", base, off) + ((v,) if v else ()),))
    return ("S", (("strinit", base, off),))
def sput(eng, st, p, s):
    if isp(p): eng.put(st, p[1], p[2], 32, s)
    if s[1] and not (len(s[1]) == 1 and type(s[1][0]) is str and len(s[1][0]) < 16) and not (len(s[1]) == 1 and type(s[1][0]) is tuple and s[1][0][0] in ("bip", "num")):
        eng.emit(st, "effect", "alloc", "std::string", (s,), None)     # does not fit the small-string buffer
def cstr(eng, st, p):
    """string a char* argument points to"""
    if not isp(p): return ("S", (("cptr", p),))
    base, off = p[1], p[2]
    if base[0] == "cstr":
        s = base[1]
        if off == 0: return s
        if type(off) is int and len(s[1]) == 1 and type(s[1][0]) is str: return S(s[1][0][off:])
        return ("S", (("suffix", s, off),))
    d = eng.cells(st, base)
    if d is not None and base[0] == "g" and type(off) is int:
        for o, t in d.get("text", ()):
            if o <= off < o + len(t):
                return S(t[off - o:].split(b"\0")[0].decode("utf-8", "surrogateescape"))
    return ("S", (("cptr", base, off),))
def slen(s):
    n = 0
    for x in s[1]:
        n = padd(n, len(x.encode("utf-8", "surrogateescape")) if type(x) is str else atom(("len", x)))
    return n
def int_str(v):
    if type(v) is int: return S(str(v))
    return ("S", (("num", v),))

# ---------------------------------------------------------------- faults
def can_fault(eng, st):
    return st.ts.get(("fault",), 0) < eng.budget
def fault(eng, st, prim, path):
    """forked state in which prim fails"""
    t = st.fork()
    t.ts[("fault",)] = t.ts.get(("fault",), 0) + 1
    k = ("failed", prim, path)
    t.ts[k] = t.ts.get(k, 0) + 1
    t.tr("%s fails%s [%s]" % (prim, " on " + s_show(path) if isS(path) else "", eng.here()))
    return t
def set_errno(eng, st, site):
    a = atom(("errno",) + site.key(eng)); st.kill(single_aid(a))
    eng.put(st, ("errno",), 0, 4, a)
def single_aid(p): return p[2][0][0][0]
def bump(st, k, d, lo=0, hi=3):
    v = st.ts.get(k, 0) + d
    if v <= lo and lo == 0: st.ts.pop(k, None)
    else: st.ts[k] = min(v, hi)
    if st.ts.get(k) == 0: del st.ts[k]

# ---------------------------------------------------------------- POSIX
def path_of_fd(v):
    a = single_atom(v)
    if a and a[0] == "fd": return a[1], a
    return UNK, None
def path_of_sem(p):
    if isp(p) and p[1][0] == "sem": return p[1][1]
    return UNK if not isp(p) else ("S", (("semptr", p[1], p[2]),))

def m_shm_open(eng, st, a, site):
    path = cstr(eng, st, a[0]); fl = a[1] if type(a[1]) is int else None
    creat = fl is None or bool(fl & O_CREAT)
    out = []
    if creat:
        if can_fault(eng, st):
            t = fault(eng, st, "shm_open", path); set_errno(eng, t, site)
            eng.emit(t, "prim", "shm_open", path, "fail", fl, site)
            out.append(("ret", t, -1))
    else:
        t = st.fork(); set_errno(eng, t, site)
        t.tr("shm_open(%s): does not exist [%s]" % (s_show(path), eng.here()))
        eng.emit(t, "prim", "shm_open", path, "absent", fl, site)
        out.append(("ret", t, -1))
    at = ("fd", path) + site.key(eng)
    eng.emit(st, "prim", "shm_open", path, "ok", fl, site)
    bump(st, at, 1)
    out.append(("ret", st, atom(at)))
    return out
def m_ftruncate(eng, st, a, site):
    path, at = path_of_fd(a[0]); out = []
    eng.emit(st, "use", "fd", a[0], at, site)
    if can_fault(eng, st):
        t = fault(eng, st, "ftruncate", path); set_errno(eng, t, site)
        eng.emit(t, "prim", "ftruncate", path, "fail", a[1], site)
        out.append(("ret", t, -1))
    eng.emit(st, "prim", "ftruncate", path, "ok", a[1], site)
    out.append(("ret", st, 0))
    return out
def m_mmap(eng, st, a, site):
    path, at = path_of_fd(a[4]); out = []
    eng.emit(st, "use", "fd", a[4], at, site)
    if can_fault(eng, st):
        t = fault(eng, st, "mmap", path); set_errno(eng, t, site)
        eng.emit(t, "prim", "mmap", path, "fail", a[1:6], site)
        out.append(("ret", t, -1))
    b = ("map", path) + site.key(eng)
    eng.emit(st, "prim", "mmap", path, "ok", a[1:6], site)
    if b in st.ts: st.ts[b + ("again",)] = 1
    st.ts[b] = a[1]
    out.append(("ret", st, ("p", b, 0)))
    return out
def m_munmap(eng, st, a, site):
    p = a[0]
    b = p[1] if isp(p) else None
    path = b[1] if b and b[0] == "map" else UNK
    if b and b[0] == "map":
        eng.emit(st, "use", "map", p, b, site)
        if p[2] == 0: st.ts.pop(b, None); st.ts.pop(b + ("again",), None)
    else: eng.emit(st, "use", "map", p, None, site)
    eng.emit(st, "prim", "munmap", path, "ok", a[1:], site)
    return ret(st, 0)
def m_close(eng, st, a, site):
    path, at = path_of_fd(a[0])
    eng.emit(st, "use", "fd", a[0], at, site)
    if at: bump(st, at, -1)
    eng.emit(st, "prim", "close", path, "ok", None, site)
    return ret(st, 0)
def m_shm_unlink(eng, st, a, site):
    path = cstr(eng, st, a[0])
    eng.emit(st, "prim", "shm_unlink", path, "ok", None, site)
    return ret(st, 0)
def m_sem_open(eng, st, a, site):
    path = cstr(eng, st, a[0]); fl = a[1] if type(a[1]) is int else None
    creat = fl is None or bool(fl & O_CREAT); out = []
    if can_fault(eng, st):
        t = fault(eng, st, "sem_open", path); set_errno(eng, t, site)
        eng.emit(t, "prim", "sem_open", path, "fail", a[1:], site)
        out.append(("ret", t, 0))
    bump(st, ("sem", path), 1)
    eng.emit(st, "prim", "sem_open", path, "ok", a[1:], site)
    out.append(("ret", st, ("p", ("sem", path), 0)))
    return out
def sem_use(eng, st, p, site):
    path = path_of_sem(p)
    eng.emit(st, "use", "sem", p, ("sem", path) if isp(p) and p[1][0] == "sem" else None, site)
    return path
def m_sem_close(eng, st, a, site):
    path = sem_use(eng, st, a[0], site)
    if a[0] == 0: return []
    eng.emit(st, "prim", "sem_close", path, "ok", None, site)
    bump(st, ("sem", path), -1)
    return ret(st, 0)
def m_sem_unlink(eng, st, a, site):
    path = cstr(eng, st, a[0])
    eng.emit(st, "prim", "sem_unlink", path, "ok", None, site)
    st.ts.pop(("hold", path), None)
    return ret(st, 0)
def acq(kind):
    def m(eng, st, a, site):
        path = sem_use(eng, st, a[0], site); out = []
        if a[0] == 0: return []
        extra = None
        if kind == "sem_timedwait":
            p = a[1]; extra = tuple(ld(eng, st, site, p, o, ("i", 64)) for o in (0, 8))
        eng.emit(st, "prim", kind, path, "try", extra, site)
        if kind == "sem_wait":
            t = fault(eng, st, kind, path) if can_fault(eng, st) else None
        else:
            t = st.fork(); t.ts[("busy", path)] = 1
            t.tr("%s(%s) does not get the semaphore [%s]" % (kind, s_show(path), eng.here()))
        if t is not None:
            set_errno(eng, t, site)
            eng.emit(t, "prim", kind, path, "fail", extra, site)
            out.append(("ret", t, -1))
        bump(st, ("hold", path), 1)
        eng.emit(st, "prim", kind, path, "ok", extra, site)
        st.tr("%s(%s) ok [%s]" % (kind, s_show(path), eng.here()))
        out.append(("ret", st, 0))
        return out
    return m
def m_sem_post(eng, st, a, site):
    path = sem_use(eng, st, a[0], site); out = []
    if a[0] == 0: return []
    if can_fault(eng, st):
        t = fault(eng, st, "sem_post", path); set_errno(eng, t, site)
        eng.emit(t, "prim", "sem_post", path, "fail", None, site)
        out.append(("ret", t, -1))
    eng.emit(st, "prim", "sem_post", path, "ok", None, site)
    k = ("hold", path)
    if st.ts.get(k, 0) > 0: bump(st, k, -1)
    st.tr("sem_post(%s) [%s]" % (s_show(path), eng.here()))
    out.append(("ret", st, 0))
    return out
def ld(eng, st, site, p, off, ty):
    if not isp(p): return atom(("undef",))
    return eng.load(st, site.f, ("p", p[1], padd(p[2], off)), ty, record=False)
def m_errno(eng, st, a, site): return ret(st, ("p", ("errno",), 0))
def m_clock(eng, st, a, site):
    cid = a[0]; p = a[1]
    s = atom(("clock", cid, "s") + site.key(eng)); n = atom(("sym", "clock_ns%d" % eng.ctx(site.ctx, id(site.ins)), 0, 999999999))
    for x in (s, n): st.kill(single_aid(x))
    if isp(p):
        eng.put(st, p[1], p[2], 8, s); eng.put(st, p[1], padd(p[2], 8), 8, n)
    eng.emit(st, "prim", "clock_gettime", UNK, "ok", (cid, s, n), site)
    return ret(st, 0)

# ---------------------------------------------------------------- runtime
def eff(kind, val=0):
    def m(eng, st, a, site):
        eng.emit(st, "effect", kind, site.name, a, site)
        return ret(st, None if site.rt[0] == "void" else (("p", ("ret",) + site.key(eng), 0) if site.rt[0] == "ptr" else atom(("ret",) + site.key(eng))))
    return m
def m_alloc(eng, st, a, site):
    b = ("h",) + site.key(eng)
    if getattr(eng, "recency", False) and st.mem.get(b): b = b + ("second",)     # the block this site made before is still alive
    st.mem[b] = {}; st.own.add(b)
    eng.emit(st, "effect", "alloc", site.name, a, site)
    if st.ts.get(("heap",) + b): st.ts[("heap",) + b] = 2
    elif getattr(eng, "track_heap", False): st.ts[("heap",) + b] = 1
    return ret(st, ("p", b, 0))
def m_free(eng, st, a, site):
    eng.emit(st, "effect", "free", site.name, a, site)
    if isp(a[0]):
        st.ts.pop(("heap",) + a[0][1], None)
        if a[0][1][0] == "h": st.mem.pop(a[0][1], None)
    return ret(st, None)
def nop(eng, st, a, site): return ret(st, None if site.rt[0] == "void" else eng.result(st, site.rt, ("ret", "nop") + site.key(eng)))
def kill_(eng, st, a, site): return []
def m_terminate(eng, st, a, site):
    eng.emit(st, "effect", "terminate", site.name, a, site)
    return []
def shared_access(eng, st, mode, p, n, v=None):
    eng.emit(st, "access", mode, p[1], p[2], n, v)
def m_memcpy(eng, st, a, site):
    d, s, n = a[0], a[1], a[2]
    if isp(s) and eng.is_shared(s[1]): shared_access(eng, st, "R", s, n)
    if isp(d) and eng.is_shared(d[1]):
        shared_access(eng, st, "W", d, n); return ret(st, d)
    eng.emit(st, "memcpy", d, s, n)
    if isp(d):
        src = eng.cells(st, s[1]) if isp(s) and not eng.is_shared(s[1]) else None
        if type(n) is int and type(d[2]) is int:
            dd = st.obj(d[1])
            if d[1][0] == "g" and not dd: dd.update(eng.init_global(st, d[1]))
            src = dict(src) if src else src
            for o in [o for o in dd if type(o) is int and o < d[2] + n and o + dd[o][0] > d[2]]: del dd[o]
            if src is not None and isp(s) and type(s[2]) is int:
                for o, c in src.items():
                    if type(o) is int and s[2] <= o < s[2] + n: dd[o - s[2] + d[2]] = c
                z = tuple((max(lo, s[2]) - s[2] + d[2], min(hi, s[2] + n) - s[2] + d[2]) for lo, hi in src.get("z", ()) if lo < s[2] + n and hi > s[2])
                if z: dd["z"] = dd.get("z", ()) + z
                t = src.get("text")
                if t: dd["text"] = t
            if src is None or not isp(s):
                # contents of an unknown source object: symbolic copies of its words
                if isp(s) and type(s[2]) is int and n <= 512 and s[1][0] not in ("psym", "phi"):
                    o = 0
                    while o < n:
                        w = 8 if n - o >= 8 else 4 if n - o >= 4 else 1
                        dd[d[2] + o] = (w, atom(("init", s[1], s[2] + o, w))); o += w
                else: dd["v"] = min(dd.get("v", 0) + 1, 3)
        else:
            dd = st.obj(d[1]); ver = dd.get("v", 0); dd.clear(); dd["v"] = min(ver + 1, 3)
    return ret(st, d)
def m_memset(eng, st, a, site):
    d, v, n = a[0], a[1], a[2]
    if isp(d):
        if eng.is_shared(d[1]): shared_access(eng, st, "W", d, n, v)
        elif v == 0 and type(n) is int and type(d[2]) is int: eng.zero(st, d[1], d[2], n)
        else:
            dd = st.obj(d[1]); ver = dd.get("v", 0); dd.clear(); dd["v"] = min(ver + 1, 3)
            eng.emit(st, "memset", d, v, n)
    return ret(st, d)
def m_strlen(eng, st, a, site): return ret(st, slen(cstr(eng, st, a[0])))
def minmax(op):
    def m(eng, st, a, site):
        x, y = eng.aint(a[0]), eng.aint(a[1])
        if type(x) is int and type(y) is int:
            return ret(st, {"smax": max, "umax": max, "smin": min, "umin": min}[op](x, y))
        c = c_ge(psub(x, y))
        d = st.decide(c)
        big = op in ("smax", "umax")
        if d is not None: return ret(st, (x if d else y) if big else (y if d else x))
        t = st.fork(); out = []
        if t.assume(c): out.append(("ret", t, x if big else y))
        if st.assume(c_not(c)): out.append(("ret", st, y if big else x))
        return out
    return m
def m_ovf(op):
    def m(eng, st, a, site):
        r = eng.binop(st, op, ("i", 64), a[0], a[1])
        return ret(st, ("agg", {0: r, 1: 0 if type(r) is int else ("C", "op", "ovf", op, a[0], a[1])}))
    return m
def m_abs(eng, st, a, site):
    x = eng.aint(a[0])
    if type(x) is int: return ret(st, abs(x))
    d = st.decide(c_ge(x))
    if d is not None: return ret(st, x if d else pneg(x))
    return ret(st, atom(("abs", x)))
# exceptions
def m_exc_alloc(eng, st, a, site):
    b = ("h", "exc") + site.key(eng); st.mem[b] = {}; st.own.add(b)
    return ret(st, ("p", b, 0))
def m_throw(eng, st, a, site):
    ti = a[1][1][1] if isp(a[1]) and a[1][1][0] == "g" else "?"
    msg = sget(eng, st, a[0]) if isp(a[0]) else UNK
    st.exc = (ti, "site%d" % eng.ctx(site.ctx, id(site.ins)) if getattr(eng, "split_throws", False) else "", )
    eng.emit(st, "throw", ti, msg, site)
    st.tr("throws %s [%s]" % (eng.prog.dem.get(ti, ti), eng.here()))
    return [("exc", st, None)]
def throw_model(ti):
    def m(eng, st, a, site):
        st.exc = (ti, "")
        eng.emit(st, "throw", ti, UNK, site)
        return [("exc", st, None)]
    return m
def m_begin_catch(eng, st, a, site):
    st.caught = st.caught + (st.exc,); st.exc = None
    eng.emit(st, "catch", st.caught[-1], site)
    return ret(st, a[0])
def m_end_catch(eng, st, a, site):
    st.caught = st.caught[:-1]
    return ret(st, None)
def m_rethrow(eng, st, a, site):
    st.exc = st.caught[-1] if st.caught else ("?", "")
    return [("exc", st, None)]
def m_typeid(eng, st, a, site):
    return ret(st, eng.typeid(a[0][1][1] if isp(a[0]) and a[0][1][0] == "g" else None))
def m_exc_ctor(eng, st, a, site):
    d = eng.prog.short(site.name)[1] or []
    s = sget(eng, st, a[1]) if d and "basic_string" in d[0] else cstr(eng, st, a[1]) if len(a) > 1 else UNK
    sput(eng, st, a[0], s)
    return ret(st, None)
def m_one(eng, st, a, site): return ret(st, 1)

# ---------------------------------------------------------------- std::string
def m_string(eng, st, a, site, meth, ps):
    P = a[0]
    if meth == "basic_string":
        if not ps or ps[0].startswith("std::allocator"): sput(eng, st, P, S())
        elif ps[0].startswith(("char const*",)):
            if len(ps) > 1 and ps[1].startswith("unsigned long"):
                s = cstr(eng, st, a[1])
                if type(a[2]) is int and len(s[1]) <= 1 and (not s[1] or type(s[1][0]) is str): s = S((s[1][0] if s[1] else "")[:a[2]])
                else: s = ("S", (("bytes", a[1], a[2]),))
                sput(eng, st, P, s)
            else: sput(eng, st, P, cstr(eng, st, a[1]))
        elif "basic_string" in ps[0]:
            s = sget(eng, st, a[1])
            if len(ps) > 1 and ps[1].startswith("unsigned long"): s = ("S", (("substr", s) + tuple(a[2:4]),))
            sput(eng, st, P, s)
        elif ps[0].startswith("unsigned long"): sput(eng, st, P, ("S", (("fill", a[1], a[2]),)))
        else: sput(eng, st, P, ("S", (("strof",) + site.key(eng),)))
        return ret(st, None)
    if meth == "~basic_string":
        if isp(P) and P[1] in st.mem and type(P[2]) is int and P[2] in st.mem[P[1]]:
            d = st.obj(P[1]); c = d.get(P[2])
            if c is not None and isS(c[1]): del d[P[2]]
        return ret(st, None)
    if meth in ("operator=", "assign"):
        if ps and ps[0].startswith("char const*") and len(ps) == 1: s = cstr(eng, st, a[1])
        elif ps and "basic_string" in ps[0] and len(ps) == 1: s = sget(eng, st, a[1])
        elif ps and ps[0] == "char": s = S(chr(a[1])) if type(a[1]) is int else ("S", (("char", a[1]),))
        else: s = ("S", (("strof",) + site.key(eng),))
        sput(eng, st, P, s); return ret(st, P)
    if meth in ("operator+=", "append"):
        s0 = sget(eng, st, P)
        if ps and ps[0].startswith("char const*") and len(ps) == 1: s = cstr(eng, st, a[1])
        elif ps and "basic_string" in ps[0] and len(ps) == 1: s = sget(eng, st, a[1])
        elif ps and ps[0] == "char": s = S(chr(a[1])) if type(a[1]) is int and a[1] > 0 else ("S", (("char", a[1]),))
        else: s = ("S", (("strof",) + site.key(eng),))
        eng.emit(st, "append", s, site)
        r = scat(s0, s)
        if len(r[1]) > 24: r = ("S", (("longstr",) + site.key(eng),))
        sput(eng, st, P, r); return ret(st, P)
    if meth == "push_back":
        sput(eng, st, P, scat(sget(eng, st, P), ("S", (("char", a[1]),)))); return ret(st, None)
    if meth in ("c_str", "data", "_M_data"): return ret(st, ("p", ("cstr", sget(eng, st, P)), 0))
    if meth in ("size", "length"): return ret(st, slen(sget(eng, st, P)))
    if meth == "empty":
        return ret(st, c_eq(slen(sget(eng, st, P))))
    if meth in ("operator[]", "at"):
        return ret(st, ("p", ("cstr", sget(eng, st, P)), a[1]))
    if meth in ("begin", "end", "cbegin", "cend"):
        s = sget(eng, st, P)
        return ret(st, ("p", ("cstr", s), 0 if "begin" in meth else slen(s)))
    if meth == "compare" and ps:
        s = sget(eng, st, P); t = cstr(eng, st, a[1]) if ps[0].startswith("char const*") else sget(eng, st, a[1])
        if s == t: return ret(st, 0)
        return ret(st, atom(("strcmp", s, t)))
    if meth in ("reserve", "clear", "resize"):
        if meth == "clear": sput(eng, st, P, S())
        elif meth == "resize": sput(eng, st, P, ("S", (("resized", sget(eng, st, P), a[1]),)))
        return ret(st, None)
    if meth in ("find", "rfind", "find_first_of", "find_last_of"):
        return ret(st, atom(("strfind", sget(eng, st, P), meth) + site.key(eng)))
    if meth == "substr":
        s = sget(eng, st, a[1]); sput(eng, st, a[0], ("S", (("substr", s) + tuple(a[2:4]),))); return ret(st, None)
    if meth == "swap":
        x, y = sget(eng, st, a[0]), sget(eng, st, a[1]); sput(eng, st, a[0], y); sput(eng, st, a[1], x); return ret(st, None)
    return None
def m_splus(eng, st, a, site, ps):
    r = []
    for p, t in zip(a[1:], ps):
        if "basic_string" in t: r.append(sget(eng, st, p))
        elif t.startswith("char const*"): r.append(cstr(eng, st, p))
        else: r.append(S(chr(p)) if type(p) is int and p > 0 else ("S", (("char", p),)))
    s = scat(r[0], r[1])
    if len(s[1]) > 24: s = ("S", (("longstr",) + site.key(eng),))
    sput(eng, st, a[0], s)
    return ret(st, None)
def m_scmp(eng, st, a, site, ps, neg):
    r = []
    for p, t in zip(a, ps):
        r.append(sget(eng, st, p) if "basic_string" in t else cstr(eng, st, p))
    x, y = r
    if x == y: c = 1
    elif all(len(v[1]) <= 1 and all(type(q) is str for q in v[1]) for v in (x, y)): c = 0
    else: c = ("C", "op", "streq", x, y)
    return ret(st, c_not(c) if neg else c)
def m_to_string(eng, st, a, site):
    sput(eng, st, a[0], int_str(eng.aint(a[1]) if not type(a[1]) is float else 0)); return ret(st, None)

# ---------------------------------------------------------------- Eigen dense assignment
def targs(t):
    """template arguments of 'Name<a, b<c>, d>' -> (name, [args])"""
    t = t.strip()
    i = t.find("<")
    if i < 0: return t, []
    depth = 0; cur = ""; out = []
    for j in range(i, len(t)):
        ch = t[j]
        if ch in "<(": 
            depth += 1
            if depth == 1: continue
        elif ch in ">)":
            depth -= 1
            if depth == 0: break
        if ch == "," and depth == 1: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return t[:i].strip(), out
SCALAR = {"double": 8, "float": 4, "int": 4, "bool": 1, "long": 8, "unsigned char": 1, "char": 1, "unsigned int": 4, "short": 2}
def clean_t(t):
    t = t.strip()
    if t.startswith("const "): t = t[6:]
    while t.endswith(("const", "&")): t = t[:-5].strip() if t.endswith("const") else t[:-1].strip()
    return t
def dense(eng, st, site, t, p):
    """descriptor of the Eigen expression of type t stored at p, or None"""
    t = clean_t(t); n, ar = targs(t)
    n = n.replace("Eigen::", "")
    L = lambda o, ty=("i", 64): ld(eng, st, site, p, o, ty)
    if n == "Matrix":
        sc = ar[0]; rm = int(ar[3]) & 1 if len(ar) > 3 else 0
        r, c = int(ar[1]), int(ar[2])
        if r >= 0 and c >= 0:
            return {"kind": "Matrix", "data": p, "rows": r, "cols": c, "inner": 1, "outer": c if rm else r, "es": SCALAR.get(sc, 0), "rm": rm, "xpr": None}
        d = L(0, ("ptr",)); ro, co = L(8), L(16)
        return {"kind": "Matrix", "data": d, "rows": ro, "cols": co, "inner": 1, "outer": co if rm else ro, "es": SCALAR.get(sc, 0), "rm": rm, "xpr": None}
    if n in ("Map", "Ref", "Block", "VectorBlock"):
        x = dense_t(ar[0])
        if x is None: return None
        sc, rm = x
        d = L(0, ("ptr",)); ro, co = L(8), L(16)
        D = {"kind": n, "data": d, "rows": ro, "cols": co, "inner": 1, "outer": co if rm else ro, "es": SCALAR.get(sc, 0), "rm": rm, "xpr": None}
        if n == "Map" and len(ar) > 2:
            sn, sa = targs(ar[2])
            if sn.endswith("OuterStride"): sa = [sa[0], "0"]
            elif sn.endswith("InnerStride"): sa = ["0", sa[0]]
            o = 24
            if sa[0] == "-1": D["outer"] = L(o); o += 8
            elif sa[0] != "0": D["outer"] = int(sa[0])
            if sa[1] == "-1": D["inner"] = L(o)
            elif sa[1] != "0": D["inner"] = int(sa[1])
            if sa == ["0", "0"]: pass
        elif n == "Ref":
            sn, sa = targs(ar[2]) if len(ar) > 2 else ("Eigen::OuterStride", ["-1"])
            if sn.endswith("OuterStride"): D["outer"] = L(24)
            elif sn.endswith("Stride"):
                o = 24
                if sa[0] == "-1": D["outer"] = L(o); o += 8
                if len(sa) > 1 and sa[1] == "-1": D["inner"] = L(o)
        elif n == "Block":
            sz = None
            if len(ar) > 2 and (ar[1] != "-1" or ar[2] != "-1"):
                D["rows"] = int(ar[1]) if ar[1] != "-1" else ro
                D["cols"] = int(ar[2]) if ar[2] != "-1" else co
                D["outer"] = None
            else:
                ix = dense(eng, st, site, ar[0], ("p", p[1], padd(p[2], 24))) if "Map" in targs(clean_t(ar[0]))[0] else None
                nx, na = targs(clean_t(ar[0]))
                if nx.endswith("Map") and ix:
                    D["xpr"] = ix; D["inner"] = ix["inner"]
                    sn, sa = targs(na[2]) if len(na) > 2 else ("", ["0", "0"])
                    off = 24 + (24 + 8 * (1 + 0) if sa == ["0", "0"] else 24 + 8 * sum(1 for q in sa if q == "-1"))
                    D["start"] = (L(off), L(off + 8)); D["outer"] = L(off + 16)
                elif nx.endswith("Matrix") or nx.endswith("Ref"):
                    # reference to the expression, then the start and the outer stride
                    D["start"] = (L(32), L(40)); D["outer"] = L(48)
                    D["xpr"] = dense(eng, st, site, ar[0], ld(eng, st, site, p, 24, ("ptr",)))
                else: D["outer"] = None
        return D
    if n == "CwiseNullaryOp":
        return {"kind": "const", "rows": L(0), "cols": L(8), "data": None, "op": ar[0]}
    if n == "ArrayWrapper":
        q = ld(eng, st, site, p, 0, ("ptr",))
        return dense(eng, st, site, ar[0], q)
    return None
def dense_t(t):
    t = clean_t(t); n, ar = targs(t); n = n.replace("Eigen::", "")
    if n == "Matrix": return ar[0], int(ar[3]) & 1 if len(ar) > 3 else 0
    if n in ("Map", "Ref", "Block", "ArrayWrapper", "VectorBlock"): return dense_t(ar[0])
    return None
def m_assign(eng, st, a, site):
    ar = [clean_t(x) for x in eng.prog.short(site.name)[1]]
    dst = dense(eng, st, site, ar[0], a[0]); src = dense(eng, st, site, ar[1], a[1])
    fn = targs(ar[2])[0].replace("Eigen::internal::", "") if len(ar) > 2 else "assign_op"
    # a Matrix destination takes the shape of the source
    if targs(clean_t(ar[0]))[0] == "Eigen::Matrix" and dst and src is not None:
        rz = st.decide(c_ne(psub(dst["rows"], src["rows"]))) if num(dst["rows"]) and num(src["rows"]) else None
        cz = st.decide(c_ne(psub(dst["cols"], src["cols"]))) if num(dst["cols"]) and num(src["cols"]) else None
        if fn == "assign_op" and not (rz == 0 and cz == 0):
            b = ("h",) + site.key(eng, "resize"); st.mem[b] = {}; st.own.add(b)
            eng.emit(st, "effect", "alloc", site.name, a, site)
            if isp(a[0]):
                eng.put(st, a[0][1], a[0][2], 8, ("p", b, 0))
                eng.put(st, a[0][1], padd(a[0][2], 8), 8, src["rows"]); eng.put(st, a[0][1], padd(a[0][2], 16), 8, src["cols"])
            dst = dense(eng, st, site, ar[0], a[0])
    eng.emit(st, "transfer", dst, src, fn, (ar[0], ar[1]), site)
    # the destination's contents are now unknown
    if dst and dst.get("data") is not None and isp(dst["data"]):
        b = dst["data"][1]
        if not eng.is_shared(b):
            dd = st.obj(b); ver = dd.get("v", 0)
            one = fn == "assign_op" and dst["rows"] == 1 and dst["cols"] == 1 and src and src.get("kind") != "const"
            if one and type(dst["data"][2]) is int:
                es = dst["es"]
                v = ld(eng, st, site, src["data"], 0, ("i", 8 * es)) if isp(src["data"]) and not eng.is_shared(src["data"][1]) else None
                if isp(src["data"]) and eng.is_shared(src["data"][1]):
                    sd = src["data"]; at = ("shm", sd[1][1], sd[2]) + site.key(eng)
                    st.kill(aid(at)); v = atom(at)
                if v is not None: eng.put(st, b, dst["data"][2], es, v); return ret(st, None)
            if fn in ("add_assign_op", "sub_assign_op") and type(dst["rows"]) is int and type(dst["cols"]) is int and src and src.get("kind") == "const" and "scalar_constant_op" in src.get("op", "") and type(dst["data"][2]) is int and dst["rows"] * dst["cols"] <= 64:
                v = const_of(eng, st, site, a[1], dst["es"]); es = dst["es"]
                for k in range(dst["rows"] * dst["cols"]):
                    o = dst["data"][2] + k * es; x = ld(eng, st, site, dst["data"], k * es, ("i", 8 * es))
                    eng.put(st, b, o, es, (padd(x, v) if fn.startswith("add") else psub(x, v)) if num(x) and num(v) else atom(("undef",)))
                return ret(st, None)
            if fn == "assign_op" and type(dst["rows"]) is int and type(dst["cols"]) is int and src and src.get("kind") == "const" and "scalar_constant_op" in src.get("op", "") and type(dst["data"][2]) is int and dst["rows"] * dst["cols"] <= 64:
                v = const_of(eng, st, site, a[1], dst["es"])
                for k in range(dst["rows"] * dst["cols"]): eng.put(st, b, dst["data"][2] + k * dst["es"], dst["es"], v)
                return ret(st, None)
            dd.clear(); dd["v"] = min(ver + 1, 3)
    return ret(st, None)
def const_of(eng, st, site, p, es):
    for o in (16,):
        return ld(eng, st, site, p, o, ("i", 8 * es))
def num(v): return type(v) is int or isP(v)

# ---------------------------------------------------------------- Boost.Interprocess
def boost(eng, short, ps):
    n = short.replace("boost::interprocess::", "")
    m = re.match(r"(named_mutex|named_condition)::(.*)$", n)
    if not m: return None
    cls, meth = m.groups()
    def res(p): return p[1] if isp(p) else ("?",)
    if meth == cls:
        mode = "open_or_create" if "open_or_create" in ps[0] else "create_only" if "create_only" in ps[0] else "open_only" if "open_only" in ps[0] else "?"
        def f(eng, st, a, site):
            k = next((i for i, x in enumerate(ps) if "char const*" in x), 1)
            path = cstr(eng, st, a[k + 1] if len(a) > k + 1 else a[-1])
            # empty tag structs may or may not be passed; find the string argument
            for x in a[1:]:
                if isp(x) and x[1][0] == "cstr": path = x[1][1]
            out = []
            if can_fault(eng, st):
                t = fault(eng, st, cls, path); t.exc = ("_ZTIN5boost12interprocess22interprocess_exceptionE", "")
                eng.emit(t, "prim", cls, path, "fail", mode, site)
                out.append(("exc", t, None))
            bump(st, ("bip", cls, path), 1)
            if isp(a[0]): eng.put(st, a[0][1], a[0][2], 32, ("S", (("bip", cls, path, mode),)))
            eng.emit(st, "prim", cls, path, "ok", mode, site)
            out.append(("ret", st, None))
            return out
        return f
    def who(eng, st, p):
        s = sget(eng, st, p)
        x = s[1][0] if s[1] else None
        if type(x) is tuple and x[0] == "bip": return x[2]
        return ("S", (("bipof", p),))
    if meth == "~" + cls:
        def f(eng, st, a, site):
            path = who(eng, st, a[0]); bump(st, ("bip", cls, path), -1)
            eng.emit(st, "prim", "~" + cls, path, "ok", None, site); return ret(st, None)
        return f
    if meth == "remove":
        def f(eng, st, a, site):
            path = cstr(eng, st, a[0]); eng.emit(st, "prim", cls + "::remove", path, "ok", None, site)
            return ret(st, ("C", "op", "removed") + site.key(eng))
        return f
    if cls == "named_mutex":
        if meth in ("lock", "timed_lock", "try_lock", "unlock"):
            def f(eng, st, a, site):
                path = who(eng, st, a[0]); out = []
                if meth == "unlock":
                    eng.emit(st, "prim", "unlock", path, "ok", None, site); bump(st, ("held", path), -1)
                    return ret(st, None)
                eng.emit(st, "prim", meth, path, "try", None, site)
                if meth != "lock":
                    t = st.fork(); out.append(("ret", t, 0))
                bump(st, ("held", path), 1)
                eng.emit(st, "prim", meth, path, "ok", None, site)
                out.append(("ret", st, None if meth == "lock" else 1))
                return out
            return f
    if cls == "named_condition":
        if meth in ("notify_one", "notify_all"):
            def f(eng, st, a, site):
                eng.emit(st, "prim", meth, who(eng, st, a[0]), "ok", None, site); return ret(st, None)
            return f
        if meth in ("wait", "timed_wait"):
            def f(eng, st, a, site):
                path = who(eng, st, a[0])
                timed = meth == "timed_wait"; haspred = len(ps) > (2 if timed else 1)
                dl = None
                if timed:
                    dl = ld(eng, st, site, a[2], 0, ("i", 64)) if isp(a[2]) else a[2]
                eng.emit(st, "prim", meth, path, "try", (dl, haspred, a), site)
                out = []
                if haspred:
                    out = wait_pred(eng, st, a, site, path, meth, timed, dl)
                else:
                    st.ts[("woken", path)] = 1
                    if timed:
                        t = st.fork(); t.ts.pop(("woken", path), None); t.ts[("timedout", path)] = 1
                        eng.emit(t, "prim", meth, path, "timeout", (dl, haspred, a), site)
                        out.append(("ret", t, 0))
                    eng.emit(st, "prim", meth, path, "ok", (dl, haspred, a), site)
                    out.append(("ret", st, 1 if timed else None))
                return out
            return f
    return None
def wait_pred(eng, st, a, site, path, meth, timed, dl):
    """wait(lock, pred): while (!pred()) wait; returns with pred true, or (timed) with its value at the timeout"""
    fp = a[-1]; out = []
    for kind, s, v in call_function_object(eng, st, fp, site):
        if kind != "ret": out.append((kind, s, v)); continue
        c = v if isC(v) or type(v) is int else c_ne(eng.aint(v))
        t = s.fork()
        if t.assume(c):
            eng.emit(t, "prim", meth, path, "ok", (dl, True, a), site)
            t.ts[("pred", path)] = 1
            out.append(("ret", t, 1 if timed else None))
        if timed:
            t = s.fork()
            if t.assume(c_not(c)):
                eng.emit(t, "prim", meth, path, "timeout", (dl, True, a), site)
                t.ts[("timedout", path)] = 1
                out.append(("ret", t, 0))
    return out
def call_function_object(eng, st, fp, site):
    """call a std::function<bool()> passed by value (its _M_invoker is at offset 24)"""
    inv = ld(eng, st, site, fp, 24, ("ptr",))
    if isp(inv) and inv[1][0] == "fn" and inv[1][1] in eng.prog.fn:
        f = eng.prog.fn[inv[1][1]]
        return eng.run(f, [("p", fp[1], fp[2])], st, eng.ctx(site.ctx, ("pred", id(site.ins))))
    c = ("C", "op", "pred") + site.key(eng)
    st.facts.pop(c, None); st.facts.pop(c_not(c), None)
    eng.emit(st, "effect", "predicate", site.name, [fp], site)
    return ret(st, c)

EXACT = {
    "shm_open": m_shm_open, "ftruncate": m_ftruncate, "ftruncate64": m_ftruncate, "mmap": m_mmap, "mmap64": m_mmap, "munmap": m_munmap, "close": m_close, "shm_unlink": m_shm_unlink,
    "sem_open": m_sem_open, "sem_close": m_sem_close, "sem_unlink": m_sem_unlink, "sem_post": m_sem_post,
    "sem_wait": acq("sem_wait"), "sem_timedwait": acq("sem_timedwait"), "sem_clockwait": acq("sem_timedwait"), "sem_trywait": acq("sem_trywait"),
    "__errno_location": m_errno, "clock_gettime": m_clock,
    "malloc": m_alloc, "calloc": m_alloc, "aligned_alloc": m_alloc, "_Znwm": m_alloc, "_Znam": m_alloc, "_ZnwmSt11align_val_t": m_alloc, "realloc": m_alloc,
    "free": m_free, "_ZdlPv": m_free, "_ZdlPvm": m_free, "_ZdaPv": m_free, "_ZdaPvm": m_free, "_ZdlPvSt11align_val_t": m_free,
    "memcpy": m_memcpy, "memmove": m_memcpy, "memset": m_memset, "strlen": m_strlen,
    "__cxa_allocate_exception": m_exc_alloc, "__cxa_free_exception": nop, "__cxa_throw": m_throw, "__cxa_begin_catch": m_begin_catch, "__cxa_end_catch": m_end_catch,
    "__cxa_rethrow": m_rethrow, "__cxa_guard_acquire": m_one, "__cxa_guard_release": m_guard_release, "__cxa_guard_abort": nop, "__cxa_atexit": nop, "__clang_call_terminate": m_terminate,
    "_ZSt9terminatev": m_terminate, "abort": m_terminate, "exit": m_terminate, "_exit": m_terminate, "__cxa_get_exception_ptr": nop,
    "_ZSt17__throw_bad_allocv": kill_, "_ZSt20__throw_length_errorPKc": throw_model("_ZTISt12length_error"), "_ZSt28__throw_bad_array_new_lengthv": kill_,
    "_ZSt19__throw_logic_errorPKc": throw_model("_ZTISt11logic_error"), "_ZSt20__throw_out_of_rangePKc": throw_model("_ZTISt12out_of_range"),
    "_ZSt24__throw_out_of_range_fmtPKcz": throw_model("_ZTISt12out_of_range"), "_ZSt25__throw_bad_function_callv": throw_model("_ZTISt17bad_function_call"),
}
LOGS = ("printf", "puts", "putchar", "fprintf", "vprintf", "vfprintf", "fputs", "fputc", "fwrite", "write", "perror", "syslog", "dprintf", "fflush", "putc")
SLEEPS = ("nanosleep", "usleep", "sleep", "clock_nanosleep", "select", "poll", "ppoll", "epoll_wait", "sched_yield", "pause", "sigwait", "thrd_sleep")
BLOCKS = ("pthread_mutex_lock", "pthread_cond_wait", "pthread_cond_timedwait", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "flock", "lockf", "fcntl", "semop", "semtimedop", "msgrcv", "read", "pthread_mutex_timedlock", "pthread_join", "fsync", "msync")
for n in LOGS: EXACT[n] = eff("log")
for n in SLEEPS: EXACT[n] = eff("sleep")
for n in BLOCKS: EXACT[n] = eff("block")

def sret_string(f):
    """function returning std::string that takes only integers"""
    ps = getattr(f, "params", None) or []
    if not ps: return False
    t, n, info = ps[0]
    if "sret" not in info or "basic_string" not in str(info): return False
    return len(ps) > 1 and all(t[0] == "i" for t, n, i in ps[1:])

# ---------------------------------------------------------------- constant tables (maps filled from an initializer list)
def table_key_size(t):
    return 32 if "basic_string" in t.split(",")[0] else 8
def m_table(eng, st, a, site, meth, short, ps):
    """std::map / std::unordered_map with a constant initializer list: construction and lookup"""
    nm = eng.prog.dem.get(site.name, site.name)
    i = nm.find("map<"); cont = nm[i:] if i >= 0 else ""
    ar = targs("x" + cont[3:])[1] if cont else []
    if not ar: ar = [p for p in ps]
    if meth in ("unordered_map", "map"):
        if not (len(a) >= 3 and isp(a[0]) and isp(a[1]) and type(a[2]) is int and any("initializer_list" in p for p in ps)): return None
        src, n = a[1], a[2]
        ks = 32 if ar and "basic_string" in ar[0] else 8
        vstr = len(ar) > 1 and "basic_string" in ar[1]
        stride = ks + (32 if vstr else 8); ent = []
        for j in range(n):
            q = ("p", src[1], padd(src[2], j * stride))
            k = sget(eng, st, q) if ks == 32 else eng.aint(eng.load(st, site.f, q, ("i", 64), record=False))
            qv = ("p", src[1], padd(src[2], j * stride + ks))
            v = sget(eng, st, qv) if vstr else eng.load(st, site.f, qv, ("i", 64), record=False)
            ent.append((k, v))
        eng.put(st, a[0][1], a[0][2], 8, ("table", tuple(ent), ks, vstr)); return ret(st, None)
    if not a or not isp(a[0]): return None
    d = eng.cells(st, a[0][1]) or {}
    c = d.get(a[0][2]) if type(a[0][2]) is int else None
    if c is None or type(c[1]) is not tuple or c[1][0] != "table": return None
    _, ent, ks, vstr = c[1]
    if meth in ("end", "cend"): return ret(st, 0)
    if meth in ("size",): return ret(st, len({k for k, v in ent}))
    if meth in ("find", "at", "count", "contains"):
        k = sget(eng, st, a[1]) if ks == 32 else eng.aint(eng.load(st, site.f, a[1], ("i", 64), record=False)) if isp(a[1]) else None
        if k is None: return None
        out = []; seen = set()
        def hit(t, j):
            if meth in ("count", "contains"): return ("ret", t, 1)
            b = ("h", "table", j); t.mem[b] = {}; t.own.add(b)
            eng.put(t, b, 8, ks, ent[j][0]); eng.put(t, b, 8 + ks, 32 if vstr else 8, ent[j][1])
            return ("ret", t, ("p", b, 0 if meth == "find" else 8 + ks))
        rest = st
        for j, (ek, ev) in enumerate(ent):
            if str(ek) in seen: continue
            seen.add(str(ek))
            if ks == 32:
                if ek == k: return [hit(st, j)]
                continue
            if type(k) is int and type(ek) is int:
                if k == ek: return [hit(st, j)]
                continue
            t = rest.fork()
            if t.assume(c_eq(psub(k, ek))): out.append(hit(t, j))
            if not rest.assume(c_ne(psub(k, ek))): return out
        if meth == "at": return out + [("exc", rest, None)]
        return out + [("ret", rest, 0)]
    if meth.startswith("~"): return ret(st, None)
    return None

def m_utc(eng, st, a, site):
    """boost::posix_time::microsec_clock::universal_time(): microseconds, neither infinite nor special"""
    n = atom(("sym", "utcnow%d" % eng.ctx(site.ctx, id(site.ins)), 0, 1 << 60)); st.kill(single_aid(n))
    if a and isp(a[0]) and site.rt[0] == "void":
        eng.put(st, a[0][1], a[0][2], 8, n); return ret(st, None)
    return ret(st, n)
def get(eng, name):
    x = getattr(eng, "extra", None)
    if x:
        m = x(eng, name)
        if m: return m
    m = EXACT.get(name)
    if m: return m
    if name.startswith("llvm."):
        if name.startswith(("llvm.memcpy", "llvm.memmove")): return m_memcpy
        if name.startswith("llvm.memset"): return m_memset
        x = re.match(r"llvm\.(smax|smin|umax|umin)\.", name)
        if x: return minmax(x.group(1))
        if name.startswith("llvm.eh.typeid.for"): return m_typeid
        x = re.match(r"llvm\.[su](mul|add|sub)\.with\.overflow", name)
        if x: return m_ovf(x.group(1))
        if name.startswith("llvm.abs"): return m_abs
        if name.startswith("llvm.trap"): return m_terminate
        if name.startswith(("llvm.expect",)): return lambda eng, st, a, site: ret(st, a[0])
        if name.startswith(("llvm.ctpop", "llvm.cttz", "llvm.ctlz", "llvm.fabs", "llvm.floor", "llvm.ceil", "llvm.round")):
            return lambda eng, st, a, site: ret(st, atom(("llvm", name) + tuple(a)))
        return nop
    short, ps = eng.prog.short(name)
    ps = ps or []
    if short == "boost::date_time::microsec_clock::universal_time": return m_utc
    if short.startswith("std::__cxx11::basic_string::"):
        meth = short[len("std::__cxx11::basic_string::"):]
        if "::" in meth: return nop if meth.startswith(("_Alloc_hider",)) else None
        def f(eng, st, a, site):
            r = m_string(eng, st, a, site, meth, ps)
            if r is None: return eng.opaque(site.f, st, site.ins, site.ctx, name, a)
            return r
        return f
    x = re.match(r"std::(unordered_map|map)::(~?\w+)$", short)
    if x and getattr(eng, "tables", False):
        def f(eng, st, a, site):
            r = m_table(eng, st, a, site, x.group(2), short, ps)
            return r if r is not None else eng.opaque(site.f, st, site.ins, site.ctx, name, a)
        return f
    if short == "std::operator+" and any("basic_string" in p for p in ps): return lambda eng, st, a, site: m_splus(eng, st, a, site, ps)
    if short in ("std::operator==", "std::operator!=") and any("basic_string" in p for p in ps) and all("basic_string" in p or "char const*" in p for p in ps):
        return lambda eng, st, a, site: m_scmp(eng, st, a, site, ps, short.endswith("!="))
    if short in ("std::to_string", "std::__cxx11::to_string"): return m_to_string
    if short.startswith(("std::__new_allocator", "std::allocator::", "std::allocator_traits")) and not short.endswith(("allocate", "construct", "destroy")): return nop
    if short in ("std::runtime_error::runtime_error", "std::logic_error::logic_error", "std::invalid_argument::invalid_argument", "std::out_of_range::out_of_range"): return m_exc_ctor
    if short in ("std::runtime_error::~runtime_error", "std::logic_error::~logic_error", "std::exception::~exception"): return nop
    if short == "Eigen::internal::call_dense_assignment_loop": return m_assign
    if short == "Eigen::internal::throw_std_bad_alloc": return kill_
    if short.startswith("Eigen::internal::check_that_malloc_is_allowed"): return nop
    if short in ("std::this_thread::sleep_for", "std::this_thread::sleep_until", "std::this_thread::yield", "std::this_thread::__sleep_for"): return eff("sleep")
    if short.startswith(("std::mutex::lock", "std::condition_variable", "std::unique_lock::lock", "std::thread::join")): return eff("block")
    if short.startswith(("std::basic_ostream", "std::ostream")) or (short == "std::operator<<" and "ostream" in " ".join(ps)) or short in ("std::endl", "std::flush"):
        return eff("log")
    if short.startswith("boost::interprocess::named_"):
        b = boost(eng, short, ps)
        if b: return b
        return None
    if short.startswith("boost::interprocess::permissions"): return nop
    f = eng.prog.fn.get(name)
    if f is not None:
        f.parse()
        if sret_string(f) and not getattr(eng, "deep_strings", False):
            def g(eng, st, a, site):
                sput(eng, st, a[0], ("S", (("fnS", short) + tuple(eng.aint(x) for x in a[1:]),))); return ret(st, None)
            return g
    return None
