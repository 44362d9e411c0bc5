"""C26: the journal throws exactly for exception-level messages with the throw request, and fatal reports of endpoints do not depend on verbosity."""
from .driver import *
from . import core
from .core import ctor_given, cname, Hist, Rule

LV = ("WARN", "EXCEP", "INFO", "STAT")
HDR = "EigenIPC/include/EigenIPC/Journal.hpp"
def wrapper():
    o = ["#include <string>", "#include <stdexcept>", "#include <EigenIPC/Journal.hpp>", "using namespace EigenIPC; typedef const std::string& S;"]
    for l in LV:
        for t in ("0", "1", ""):
            arg = ", Journal::LogType::%s%s" % (l, "" if t == "" else ", true" if t == "1" else ", false")
            o.append("__attribute__((used)) void w_m_%s_%s(S c, S m, S x) { Journal j(c); j.log(m, x%s); }" % (l, t or "d", arg))
            o.append("__attribute__((used)) void w_s_%s_%s(S c, S m, S x) { Journal::log(c, m, x%s); }" % (l, t or "d", arg))
    return "\n".join(o) + "\n"

FMT = {"printf": 0, "fprintf": 1, "dprintf": 1, "syslog": 1, "vprintf": 0, "vfprintf": 1}; VFMT = ("vprintf", "vfprintf")
CONV = re.compile(r"([^%]+)|(%[-+ #0-9.*hlLqjzt]*[a-zA-Z%])")
class Out:
    prop = "C26"
    def __init__(self): self.seen = {}
    def piece(self, eng, st, v):
        if not isp(v): return []
        if v[1][0] == "cstr": return list(v[1][1][1])
        d = eng.cells(st, v[1])
        if d is not None and type(v[2]) is int and v[2] in d and isS(d[v[2]][1]): return list(d[v[2]][1][1])
        s = models.cstr(eng, st, v)
        return [x for x in s[1] if not (type(x) is tuple and x[0] == "cptr")]
    def on_effect(self, eng, st, kind, name, a, site):
        if kind != "log": return
        l = []; a = list(a or ()); fi = FMT.get(name)
        if fi is not None and len(a) > fi:
            fmt = self.piece(eng, st, a[fi]); rest = a[fi + 1:]
            if name in VFMT: l += ["".join(x for x in fmt if type(x) is str)]; rest = a[fi + 1:]
            elif all(type(x) is str for x in fmt) and fmt:
                for lit, conv in CONV.findall("".join(fmt)):
                    if lit: l.append(lit); continue
                    if conv.endswith("%"): l.append("%"); continue
                    if "*" in conv or not rest: st.ts[("g:fmt",)] = "an unsupported conversion (%s)" % conv; break
                    v = rest.pop(0); pc = self.piece(eng, st, v)
                    if conv.endswith("s") and "." in conv and any(type(x) is tuple for x in pc): st.ts[("g:fmt",)] = "only a part of the text (%s)" % conv
                    l += pc
            else:
                if any(type(x) is tuple for x in fmt): st.ts[("g:fmt",)] = "the text as a format: a percent sign in it does not come out as given"
                l += fmt
                for v in rest: l += self.piece(eng, st, v)
        else:
            for v in a: l += self.piece(eng, st, v)
        if l: st.ts[("g:out",)] = st.ts.get(("g:out",), ()) + tuple(l)
    def on_throw(self, eng, st, ti, msg, site):
        st.ts[("g:thrown",)] = (ti, tuple(msg[1])); st.ts[("g:at",)] = eng.here()

def forms(work, reports, n, fns, stats):
    def cnt(k): n[k] = n.get(k, 0) + 1
    src = work + "/j.cpp"; open(src, "w").write(wrapper())
    prog = Program([compile_ir(src, work + "/j.ll")])
    def rep(msg, where): reports.append({"rule": "C26", "message": msg, "where": where, "path": "", "entry": "", "trace": []})
    for m, d in sorted(prog.dem.items()):
        x = re.match(r"w_(m|s)_([A-Z]+)_(0|1|d)\(", d)
        if not x: continue
        form, lv, th = x.groups(); f = prog.fn[m]; f.parse(); r = Out()
        e = Engine(prog, models, [r], budget=0, repo=REPO); e.entry = d; st = St(); av = []
        for nm in ("cls", "meth", "msg"):
            b = ("obj", nm); st.mem[b] = {0: (32, ("S", (("arg", nm),)))}; st.own.add(b); av.append(("p", b, 0))
        outs = big(e.run, f, av, st, 0); stats["instructions"] += e.stats["instructions"]; fns.update(prog.short(g)[0] for g in e.stats["functions"])
        what = "%s Journal::log(%s%s)" % ("member" if form == "m" else "static", lv, {"0": ", false", "1": ", true", "d": ""}[th])
        w = HDR
        for g in e.stats["functions"]:
            if "Journal::log(" in prog.dem.get(g, "") :
                l = [y for y in fn_locs(prog.fn[g]) if y[0].startswith(REPO)]
                if l: w = "%s:%d" % (HDR, l[0][1])
        if not outs: rep("%s never returns" % what, w)
        for kind, s, v in outs:
            cnt("journal outcomes"); o = s.ts.get(("g:out",), ()); t = s.ts.get(("g:thrown",))
            must = lv == "EXCEP" and th == "1"
            if s.ts.get(("g:fmt",)): rep("%s prints %s" % (what, s.ts[("g:fmt",)]), w)
            if must and kind != "exc": rep("%s may return without throwing" % what, w); continue
            if not must and kind == "exc": rep("%s may throw" % what, w); continue
            if must:
                if t is None or "runtime_error" not in str(t[0]): rep("%s does not throw a runtime error" % what, w); continue
                o = t[1]
            msg = sum(1 for y in o if y == ("arg", "msg"))
            if must and msg < 1: rep("%s throws without the message" % what, w)
            elif not must and msg != 1: rep("%s prints the message %d times" % (what, msg), w)
            for y, word in (("cls", "class"), ("meth", "method")):
                if ("arg", y) not in o: rep("%s does not mention the %s" % (what, word), w)

class Kinds(Rule):
    """outcome kinds of every public call, keyed by which primitive failed"""
    prop = "C26"; budget = 1
    def __init__(self, *a): Rule.__init__(self, *a); self.out = {}; self.at = {}
    def on_throw(self, eng, st, ti, msg, site): st.ts[("g:at",)] = eng.here(); st.ts[("g:via",)] = eng.where()
    def end(self, eng, pre, e, av, phase, kind, s, v):
        fs = frozenset((k[1], s_show(k[2]) if len(k) > 2 and isS(k[2]) else "") for k in s.ts if k[0] in ("failed", "busy", "timedout"))
        key = (phase, e.ident, len(e.params), fs)
        if kind == "exc" and not fs:
            # also distinguish the function which reports
            via = (phase, e.ident, len(e.params), " ".join(sorted(x for x in set(s.ts.get(("g:via",), "").split(" > ")) if x.startswith(self.kind + "::"))))
            self.out.setdefault(via, set()).add("exc"); self.at.setdefault(via, (s.ts.get(("g:at",), eng.here()), s.trace_list(), s.ts.get(("g:via",), "")))
        self.out.setdefault(key, set()).add(kind)
        if kind == "exc": self.at.setdefault(key, (s.ts.get(("g:at",), eng.here()), s.trace_list(), s.ts.get(("g:via",), "")))

def kinds(a):
    prog, cls, pin, ctor_pin = a
    def go():
        rule = Kinds(None, cls.split("::")[1].split("<")[0], ("double", 0))
        h = Hist(prog, cls, [rule], budget=1)
        ct = max((c for c in h.ctors if not any("EigenIPC::" + cls.split("::")[1].split("<")[0] in p for p in c.params)), key=lambda c: len(c.params))
        h.pin = {"given": (given(ct, pin),)}
        err = ""
        try: h.run()
        except Budget as x: err = str(x)
        return {"error": err, "cls": cls, "pin": pin, "out": rule.out, "at": rule.at, "calls": h.ncalls, "states": len(h.clos.states), "fns": h.coverage()["functions"], "ins": h.eng.stats["instructions"]}
    return big(go)
def given(ct, pin):
    g = ctor_given(ct, verbose=pin[0])
    if pin[1] is not None:
        for i, p in enumerate(ct.params):
            if "VLevel" in p: g[i] = pin[1]
    return g

def check(prop, tier, work):
    reports = []; n = {}; fns = set(); stats = {"instructions": 0, "entry_runs": 0}
    units = [("Server", "EigenIPC::Server<double, 0>"), ("Client", "EigenIPC::Client<double, 0>"), ("Producer", "EigenIPC::Producer"), ("Consumer", "EigenIPC::Consumer")]
    mods = parallel([(unit, u, work) for u, c in units])
    forms(work, reports, n, fns, stats)
    jobs = []
    for m, (u, c) in zip(mods, units):
        p = Program([m])
        for pin in ((0, 0), (1, 0), (1, 3)): jobs.append((p, c, pin, None))
    res = fork_map(kinds, jobs)
    if any(r["error"] for r in res):
        if not reports: raise Broken("analysis budget exceeded: " + next(r["error"] for r in res if r["error"]))
        res = []
    by = {}
    for r in res:
        by.setdefault(r["cls"], {})[r["pin"]] = r; fns.update(r["fns"]); stats["instructions"] += r["ins"]; stats["entry_runs"] += r["calls"]
    for c, rs in by.items():
        base = rs[(1, 3)]
        for pin, r in rs.items():
            if r is base: continue
            for k in sorted(set(base["out"]) | set(r["out"]), key=str):
                x, y = base["out"].get(k, set()), r["out"].get(k, set())
                n["outcomes compared across verbosity"] = n.get("outcomes compared across verbosity", 0) + 1
                for a, b, ra, wa, wb in ((x, y, base, "verbose", "quiet" if not pin[0] else "less verbose"), (y, x, r, "quiet" if not pin[0] else "less verbose", "verbose")):
                    if "exc" in a and "exc" not in b and (b or type(k[3]) is str):
                        w, tr, via = ra["at"].get(k, ("?", [], ""))
                        reports.append({"rule": "C26", "message": "%s::%s reports a fatal failure by an exception when %s but not when %s" % (c.split("::")[1].split("<")[0], k[1], wa, wb), "where": w, "path": via, "entry": "%s %s" % (k[1], k[3]), "trace": tr})
    return {"reports": reports, "counts": n, "functions": sorted(fns), "opaque": [], "numbers": stats, "classes": sorted(by)}
