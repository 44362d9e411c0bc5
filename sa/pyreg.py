"""what the module initialiser registers: abstract interpretation of the pybind11 bindings (pybind11 itself modelled by its interface)"""
from .driver import *
from . import models
from .models import ret, cstr, sget, sput, ld, isS, isp, targs, S

BIND = "EigenIPC/bindings/PyEigenIPC"
UNITS = ("PyEigenIPC", "src/PyServer", "src/PyClient", "src/PyStringTensor", "src/PyProducer", "src/PyConsumer")
def compile_units(work, extra=()):
    calls = []
    b = "%s/%s" % (REPO, BIND)
    srcs = [b + "/PyEigenIPC.cpp"] + sorted(b + "/src/" + f for f in os.listdir(b + "/src") if f.endswith(".cpp"))
    for s in srcs: calls.append((one_unit, s, "%s/%s.ll" % (work, os.path.basename(s)[:-4])))
    return [ir.Module(p) for p in parallel(calls)]
def one_unit(s, o): return compile_ir(s, o, pyinc())

def tail_args(d, name):
    """template arguments of the last component '::name<...>' of a demangled function name"""
    depth = 0; hit = None; i = 0
    while i < len(d):
        c = d[i]
        if depth == 0 and d.startswith("::" + name, i):
            j = i + 2 + len(name)
            if j < len(d) and d[j] == "<": hit = j
            elif j < len(d) and d[j] == "(": hit = -1
        if c in "<([{" and not d.startswith("operator", max(0, i - 8)): depth += 1
        elif c in ">)]}" and d[i - 1:i + 1] != "->": depth -= 1
        i += 1
    if hit is None: return None
    if hit == -1: return []
    return targs("x" + d[hit:])[1]
def class_args(d, cls):
    """template arguments of the class 'cls<...>::' a member function belongs to"""
    k = d.rfind
    depth = 0; hit = None; i = 0
    while i < len(d):
        if depth == 0 and d.startswith(cls + "<", i): hit = i + len(cls)
        c = d[i]
        if c in "<([{" and not d.startswith("operator", max(0, i - 8)): depth += 1
        elif c in ">)]}" and d[i - 1:i + 1] != "->": depth -= 1
        i += 1
    return targs("x" + d[hit:])[1] if hit is not None else None
def norm_t(t):
    t = t.replace("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string").replace("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "std::string")
    return t
def pmf(t):
    """'R (C::*)(A...) const' -> (class, [args])"""
    m = re.match(r"(.*?) ?\((.*)::\*\)\((.*)\)( const)?$", t)
    if not m: return None
    return m.group(2), split_params(m.group(3)), m.group(1)
def split_params(s): return targs("x<%s>" % s)[1]

OBJ = lambda term: ("p", ("py", term), 0)
def term_of(eng, st, p, site):
    """term of the python object a handle at p refers to"""
    if isp(p) and p[1][0] == "py": return p[1][1]
    if not isp(p): return ("?",)
    v = ld(eng, st, site, p, 0, ("ptr",))
    if isp(v) and v[1][0] == "py": return v[1][1]
    return ("in", v if isp(v) else p)
class Reg:
    """models of pybind11 while a registration function or a bound function is interpreted; events go to the state"""
    nlist = None
    def __init__(self, prog): self.prog = prog; self.unknown = {}
    def ev(self, st, *e): st.ts[("g:ev",)] = st.ts.get(("g:ev",), ()) + (e,)
    def sret(self, eng, st, a, term, n=0):
        if isp(a[n]): eng.put(st, a[n][1], a[n][2], 8, OBJ(term))
        return ret(st, None)
    def extra(self, eng, name):
        short, ps = self.prog.short(name); d = self.prog.dem.get(name, name)
        h = self.native(eng, name, short, ps or [], d)
        if h: return h
        if not short.startswith("pybind11::") or "lambda" in short or "$_" in short: return None
        s = short[10:]; last = s.split("::")[-1]
        if "::operator" in s: last = s[s.index("::operator") + 2:]
        me = self
        def chk(fn): return lambda eng, st, a, site: fn(eng, st, a, site)
        L = lambda p, o, ty: (lambda eng, st, site: ld(eng, st, site, p, o, ty))
        # ---- registration
        if s in ("class_::class_", "enum_::enum_"):
            t = class_args(d, "pybind11::" + s.split("::")[0])
            def f(eng, st, a, site):
                st.ts[("g:cls", a[0])] = t[0]
                me.ev(st, "class", norm_t(t[0]), me.text(eng, st, a[2]), s.startswith("enum")); return ret(st, None)
            return f
        if s in ("class_::def", "class_::def_static", "enum_::def"):
            k = class_args(d, "pybind11::" + s.split("::")[0])[0]; ta = tail_args(d, last) or []
            def f(eng, st, a, site):
                cls = norm_t(k)
                if ps and "initimpl::constructor<" in ps[0]:
                    t = targs(ps[0][ps[0].index("initimpl::constructor"):])[1]
                    me.ev(st, "init", cls, tuple(norm_t(x) for x in t), me.extras(eng, st, ps[1:], a[2:], site))
                elif ps and "initimpl::factory<" in ps[0]:
                    t = targs(ps[0][ps[0].index("initimpl::factory"):])[1]
                    me.ev(st, "factory", cls, t[0], me.extras(eng, st, ps[1:], a[2:], site))
                else:
                    nm = me.text(eng, st, a[1]); F = ta[0] if ta else "?"; tgt = None
                    if ("::*)" in F or "(*)" in F) and isp(a[2]):
                        tgt = fn_at(eng, st, site, a[2])
                    me.ev(st, "static" if "static" in last else "def", cls, nm, F, tgt, me.extras(eng, st, ps[2:], a[3:], site), eng.here())
                return ret(st, a[0])
            return f
        if s == "module_::def":
            ta = tail_args(d, "def")
            def f(eng, st, a, site):
                tgt = fn_at(eng, st, site, a[2]) if "(*)" in ta[0] else None
                me.ev(st, "mdef", me.text(eng, st, a[1]), ta[0], tgt, me.extras(eng, st, ps[2:], a[3:], site), eng.here())
                return ret(st, a[0])
            return f
        if s == "enum_::value":
            k = class_args(d, "pybind11::enum_")[0]
            def f(eng, st, a, site): me.ev(st, "value", norm_t(k), me.text(eng, st, a[1]), a[2]); return ret(st, a[0])
            return f
        if s == "enum_::export_values": return lambda eng, st, a, site: ret(st, a[0])
        if re.match(r"class_::def_(readwrite|readonly|property|property_readonly|property_static|readonly_static|buffer)$", s):
            k = class_args(d, "pybind11::class_")[0]
            def f(eng, st, a, site): me.ev(st, "prop", norm_t(k), me.text(eng, st, a[1])); return ret(st, a[0])
            return f
        if s == "arg::arg":
            def f(eng, st, a, site): st.ts[("g:arg", a[0])] = (me.text(eng, st, a[1]), 0, None); eng.put(st, a[0][1], a[0][2], 8, a[1]); return ret(st, None)
            return f
        if s == "arg::noconvert":
            def f(eng, st, a, site):
                x = st.ts.get(("g:arg", a[0])); fl = a[1] if len(a) > 1 else 1
                if x: st.ts[("g:arg", a[0])] = (x[0], fl if type(fl) is int else 0, x[2])
                return ret(st, a[0])
            return f
        if s == "arg::none": return lambda eng, st, a, site: ret(st, a[0])
        if s in ("arg::operator=", "arg_v::arg_v"):
            ty = (ps[0] if s == "arg::operator=" else ps[1] if len(ps) > 1 else "").strip() if ps else ""
            def f(eng, st, a, site):
                x = st.ts.get(("g:arg", a[1]), ("?", 0, None))
                v = a[2] if len(a) > 2 else None
                b = re.sub(r"( const)?[ &]*$", "", ty); n = {"bool": 8, "int": 32, "double": 64, "long": 64}.get(b, 32 if b.startswith("EigenIPC::") else None)
                if isp(v) and n: v = ld(eng, st, site, v, 0, ("i", n))
                elif isp(v): v = cstr(eng, st, v)
                st.ts[("g:arg", a[0])] = (x[0], x[1], ("default", v)); return ret(st, None)
            return f
        # ---- python objects
        sr = site_sret(self.prog, name)
        if last == "attr":
            def f(eng, st, a, site):
                o, n = a[1], a[2]
                t = ("attr", term_of(eng, st, o, site), me.text(eng, st, n))
                return me.sret(eng, st, a, t)
            return f
        if "overload_cast_impl" in s:
            return lambda eng, st, a, site: ret(st, a[1] if site.rt[0] == "ptr" else ("agg", {i: x for i, x in enumerate(a[1:])}))
        if last == "operator()":
            def f(eng, st, a, site):
                if not sr: return ret(st, OBJ(("call?",)))
                t = ("call", term_of(eng, st, a[1], site), tuple(me.argval(eng, st, p, x, site) for p, x in zip(ps, a[2:])))
                me.ev(st, "call", t); return me.sret(eng, st, a, t)
            return f
        if last == "operator=" and "accessor" in s:
            def f(eng, st, a, site):
                t = term_of(eng, st, a[0], site); v = a[1] if len(a) > 1 else None
                if isp(v) and v[1][0] != "py": v = me.argval(eng, st, ps[0] if ps else "", v, site)
                me.ev(st, "set", t, v); return ret(st, None)
            return f
        if re.match(r"operator pybind11::", last) or last in ("get_cache", "release") and "accessor" not in last:
            def f(eng, st, a, site):
                t = term_of(eng, st, a[1 if sr else 0], site)
                return me.sret(eng, st, a, t) if sr else ret(st, OBJ(t))
            return f
        if last == "cast" and not s.startswith("detail::"):
            ta = tail_args(d, "cast") or ["?"]
            free = s == "cast"
            def f(eng, st, a, site):
                T = norm_t(ta[0])
                if free:
                    src = a[1] if sr else a[0]
                    if "pybind11::" in T or not ps: t = term_of(eng, st, src, site)
                    if site.rt[0] != "void" and not sr and ("handle" in " ".join(ps) or "object" in " ".join(ps)): return me.value(eng, st, a, T, term_of(eng, st, src, site), site)
                    # C++ value to python object
                    t = ("py", norm_t(ps[0]) if ps else T, me.cvalue(eng, st, src, site, ps[0] if ps else T))
                    return me.sret(eng, st, a, t) if sr else ret(st, OBJ(t))
                src = a[1] if sr else a[0]
                return me.value(eng, st, a, T, term_of(eng, st, src, site), site, sr)
            return f
        if last in ("is", "equal", "operator==") and len(ps) == 1:
            def f(eng, st, a, site):
                x, y = term_of(eng, st, a[0], site), term_of(eng, st, a[1], site)
                return ret(st, me.same(st, x, y))
            return f
        if last == "not_equal" or last == "operator!=" and len(ps) == 1:
            def f(eng, st, a, site): return ret(st, models.c_not(me.same(st, term_of(eng, st, a[0], site), term_of(eng, st, a[1], site))))
            return f
        if s == "dtype::of":
            ta = tail_args(d, "of")
            return (lambda eng, st, a, site: me.sret(eng, st, a, ("dt", ta[0]))) if sr else (lambda eng, st, a, site: ret(st, OBJ(("dt", ta[0]))))
        if s == "array::dtype":
            return (lambda eng, st, a, site: me.sret(eng, st, a, ("dtypeof", term_of(eng, st, a[1], site)))) if sr else (lambda eng, st, a, site: ret(st, OBJ(("dtypeof", term_of(eng, st, a[0], site)))))
        if self.nlist is not None and (s.startswith("list::") or "generic_iterator" in " ".join([s] + ps)):
            n = self.nlist
            give = lambda eng, st, a, t: me.sret(eng, st, a, t) if sr else ret(st, OBJ(t))
            if s in ("list::empty", "list::size"): return lambda eng, st, a, site: ret(st, n if s.endswith("size") else int(n == 0))
            if s in ("list::begin", "list::end"): return lambda eng, st, a, site: give(eng, st, a, ("it", term_of(eng, st, a[1 if sr else 0], site), 0 if s.endswith("begin") else n))
            if last in ("operator!=", "operator=="):
                def f(eng, st, a, site):
                    x, y = term_of(eng, st, a[0], site), term_of(eng, st, a[1], site); q = int(x == y)
                    return ret(st, q if last == "operator==" else 1 - q)
                return f
            if last == "operator++":
                def f(eng, st, a, site):
                    t = term_of(eng, st, a[0], site)
                    if t[0] == "it" and isp(a[0]): eng.put(st, a[0][1], a[0][2], 8, OBJ((t[0], t[1], t[2] + 1)))
                    return ret(st, a[0])
                return f
            if last == "operator*":
                def f(eng, st, a, site):
                    t = term_of(eng, st, a[1 if sr else 0], site); return give(eng, st, a, ("item",) + t[1:])
                return f
            if s == "list::append":
                def f(eng, st, a, site): me.ev(st, "append", term_of(eng, st, a[0], site), me.argval(eng, st, ps[0], a[1], site)); return ret(st, None)
                return f
        h = self.arrays(eng, name, s, last, ps, d, sr)
        if h: return h
        if last.startswith("~") or s in ("handle::dec_ref", "handle::inc_ref", "buffer_info::operator="): return lambda eng, st, a, site: ret(st, a[0] if site.rt[0] == "ptr" and a else None)
        if re.match(r"(object|handle|array|array_t|str|list|dtype|buffer|bytes|tuple|dict|int_|bool_|module_|detail::accessor)::(object|handle|array|array_t|str|list|dtype|buffer|bytes|tuple|dict|int_|bool_|module_|accessor)$", s) and len(ps) >= 1 and ("&" in ps[0] or "handle" in ps[0] or "object" in ps[0]):
            # copies, moves and conversions of a handle
            def f(eng, st, a, site):
                t = term_of(eng, st, a[1], site) if len(a) > 1 else ("?",)
                if s.split("::")[0] == "str" and ps[0].startswith(("pybind11::handle", "pybind11::object")): t = ("str", t)
                return me.sret(eng, st, a, t)
            return f
        if last == "operator=" and len(ps) == 1 and ("object" in ps[0] or "handle" in ps[0]):
            def f(eng, st, a, site):
                t = term_of(eng, st, a[1], site); eng.put(st, a[0][1], a[0][2], 8, OBJ(t)); return ret(st, a[0])
            return f
        if last in ("ptr", "derived"):
            def f(eng, st, a, site):
                if last == "derived": return ret(st, a[0])
                return ret(st, OBJ(term_of(eng, st, a[0], site)))
            return f
        if s.startswith("buffer_info::") or s.startswith("gil_scoped") : return None if s.startswith("buffer_info::buffer_info") else (lambda eng, st, a, site: ret(st, None))
        def f(eng, st, a, site):
            me.unknown[s] = me.unknown.get(s, 0) + 1
            if sr: return me.sret(eng, st, a, ("?", s) + tuple(site.key(eng)))
            return ret(st, OBJ(("?", s) + tuple(site.key(eng))) if site.rt[0] == "ptr" else eng.result(st, site.rt, ("py", s) + site.key(eng)))
        return f
    def native(self, eng, name, short, ps, d): return None
    def arrays(self, eng, name, s, last, ps, d, sr): return None
    def same(self, st, x, y):
        if x == y: return 1
        a, b = sorted((x, y), key=str)
        if a[0] == b[0] == "dt": return 0
        return ("C", "op", "is", a, b)
    def text(self, eng, st, p):
        s = cstr(eng, st, p)
        if len(s[1]) == 0: return ""
        if len(s[1]) == 1 and type(s[1][0]) is str: return s[1][0]
        return ("text", s[1])
    def cvalue(self, eng, st, p, site, t):
        if not isp(p): return p
        b = re.sub(r"^(const )|( const)?[ &]*$", "", t.strip())
        n = {"bool": 8, "int": 32, "long": 64}.get(b, 32 if b in ("EigenIPC::DType", "EigenIPC::Journal::VLevel") else None)
        if n: return ld(eng, st, site, p, 0, ("i", n))
        return ("at", p)
    def argval(self, eng, st, t, p, site):
        if isp(p) and p[1][0] == "py": return p[1][1]
        if "pybind11::" in t: return term_of(eng, st, p, site)
        if "basic_string" in t: return ("s", sget(eng, st, p)[1])
        return self.cvalue(eng, st, p, site, t)
    def value(self, eng, st, a, T, t, site, sr=False):
        """C++ value of a python object"""
        if T == "bool": return ret(st, ("C", "op", "val", t))
        if T == "std::string":
            sput(eng, st, a[0], ("S", (("arg", t),))); return ret(st, None)
        if site.rt[0] == "i":
            v = self.numbers(t, T, site.rt[1])
            return ret(st, v)
        if site.rt[0] == "void" and isp(a[0]): return self.sret(eng, st, a, t)
        if site.rt[0] == "ptr": return ret(st, OBJ(("ref", t)))
        return ret(st, eng.result(st, site.rt, ("val", t)))
    def numbers(self, t, T, bits): return sym("val:%r" % (t,), *I32)
    def extras(self, eng, st, ps, a, site):
        out = []
        for t, p in zip(ps, a):
            if "pybind11::arg" in t:
                x = st.ts.get(("g:arg", p))
                out.append(("arg",) + (x if x else ("?", 0, None)))
            elif t.startswith("char const"): out.append(("doc",))
            else: out.append(("other", re.sub(r"[ &]*$", "", t)))
        return tuple(out)

def fn_at(eng, st, site, p):
    """mangled name of the function a function pointer or pointer to member function denotes"""
    if not isp(p): return None
    if p[1][0] == "fn": return p[1][1]
    v = ld(eng, st, site, p, 0, ("ptr",))
    if isp(v) and v[1][0] == "fn": return v[1][1]
    v = ld(eng, st, site, p, 0, ("i", 64))
    x = single_atom(v) if isP(v) else None
    if x is not None and x[0] == "addr" and x[1][0] == "fn": return x[1][1]
    return None
def site_sret(prog, name):
    for m in prog.mods:
        f = m.funcs.get(name)
        if f is not None:
            f.parse(); return bool(f.params) and "sret" in str(f.params[0][2])
    for m in prog.mods:
        t = m.decl_text.get(name) if hasattr(m, "decl_text") else None
        if t is not None: return "sret(" in t
    return False

class Ev:
    prop = "C20"
    def on_throw(self, eng, st, ti, msg, site): st.ts[("g:thrown",)] = str(ti); st.ts[("g:at",)] = eng.here()

def registrations(prog):
    """[event] of the module initialiser, in order, and the engine used"""
    start = [m for m, d in prog.dem.items() if m in prog.fn and re.match(r"pybind11_init_\w+\(pybind11::module_ ?&\)$", d)]
    if len(start) != 1: raise Broken("module initialiser not found")
    R = Reg(prog); eng = Engine(prog, models, [Ev()], budget=0, repo=REPO); eng.extra = R.extra; eng.path_sens = True; eng.entry = "module initialiser"
    st = St(); st.mem[("obj", "module")] = {0: (8, OBJ(("module",)))}; st.own.add(("obj", "module"))
    outs = eng.run(prog.fn[start[0]].parse(), [("p", ("obj", "module"), 0)], st, 0)
    rs = [s for k, s, v in outs if k == "ret"]
    return rs, eng, R
