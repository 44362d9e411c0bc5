"""C27: views over a block of a tensor address exactly that block."""
from .driver import *
from .core import INST, nm, DUMMY
from .models import dense
HDR = "EigenIPC/include/EigenIPC/Helpers.hpp"
ESZ = {"double": 8, "float": 4, "int": 4, "bool": 1}

def wrapper():
    o = ["#include <string>", "#include <stdexcept>", "#include <EigenIPC/Helpers.hpp>", "using namespace EigenIPC;"]
    for t, l in INST:
        o.append("__attribute__((used)) TensorView<%s, %d> w_view_%s_%d(Tensor<%s, %d>& a, int r, int c, int h, int w) { return helpers::createViewFrom<%s, %d>(a, r, c, h, w); }" % (t, l, t, l, t, l, t, l))
    return "\n".join(o) + "\n"

def one(a):
    prog, m, t, l = a
    def go():
        reports = []; n = {}
        def cnt(k): n[k] = n.get(k, 0) + 1
        f = prog.fn[m]; f.parse()
        eng = Engine(prog, models, [], budget=0, repo=REPO); eng.entry = "createViewFrom"; eng.path_sens = True
        st = St(); b = ("obj", "sret"); st.mem[b] = {}; st.own.add(b); src = ("obj", "from")
        R, C = atom(("init", src, 8, 8)), atom(("init", src, 16, 8))
        for x in (R, C): st.assume(c_ge(x)); st.assume(c_ge(psub(EXT, x)))
        r, c, h, w = (sym(x, *I32) for x in ("row", "col", "rows", "cols"))
        outs = eng.run(f, [("p", b, 0), ("p", src, 0), r, c, h, w], st, 0)
        where = HDR
        for g in eng.stats["functions"]:
            if "createViewFrom" in prog.short(g)[0]:
                for x in fn_locs(prog.fn[g]): where = "%s:%d" % (HDR, x[1]); break
        def rep(msg): reports.append({"rule": "C27", "message": msg, "where": where, "path": "", "entry": "", "trace": [], "instance": "%s,%s" % (t, "RowMajor" if l else "ColMajor")})
        ret = [x for x in prog.short(m)]
        ty = "Eigen::Map<Eigen::Matrix<%s, -1, -1, %d, -1, -1>, 0, Eigen::Stride<-1, -1>>" % (t, l)
        seen = set()
        inside = (r, c, psub(R, padd(r, h)), psub(C, padd(c, w)), h, w)
        for kind, s, v in outs:
            cnt("outcomes of createViewFrom"); seen.add(kind)
            if kind == "exc":
                u = s.fork()
                if all(u.assume(c_ge(x)) for x in inside + (psub(h, 1), psub(w, 1))) and u.feasible():
                    rep("createViewFrom may throw for a block inside the tensor")
                continue
            for x, word in zip(inside, ("start before the first row", "start before the first column", "reach beyond the last row", "reach beyond the last column", "have a negative number of rows", "have a negative number of columns")):
                cnt("bound obligations")
                if not s.prove(x): rep("createViewFrom may return a view which would %s" % word)
            d = dense(eng, s, DUMMY(eng), ty, ("p", b, 0))
            if d is None or not isp(d.get("data")): cnt("views not decomposed"); continue
            cnt("view shapes")
            if d["rows"] != h or d["cols"] != w: rep("createViewFrom returns a view of %s x %s instead of the requested block" % (nm(d["rows"]), nm(d["cols"])))
            base = eng.load(s, DUMMY(eng), ("p", src, 0), ("ptr",), record=False)
            if d["data"][1] != base[1]: rep("createViewFrom returns a view of other memory than the tensor"); continue
            es = ESZ[t]; si, so = (C, 1) if l else (1, R)         # address of (i, j) = base + es*(i*si + j*so)
            start = pmul(padd(pmul(r, si), pmul(c, so)), es)
            if psub(d["data"][2], start) != 0: rep("createViewFrom starts the view at another element than (row, col)")
            vi, vo = (d["outer"], d["inner"]) if d["rm"] else (d["inner"], d["outer"])
            # strides matter only where there is more than one element along them
            for x, y, k, word in ((vi, si, h, "rows"), (vo, so, w, "columns")):
                cnt("strides compared")
                if psub(x, y) != 0 and not s.prove(psub(1, k)): rep("createViewFrom steps between %s by %s elements instead of %s" % (word, nm(x), nm(y)))
        if "ret" not in seen: rep("createViewFrom never returns a view")
        return {"reports": reports, "counts": n, "functions": sorted({prog.short(g)[0] for g in eng.stats["functions"]}), "ins": eng.stats["instructions"]}
    return big(go)

def check(prop, tier, work):
    src = work + "/v.cpp"; open(src, "w").write(wrapper())
    prog = Program([compile_ir(src, work + "/v.ll")])
    jobs = []
    for m, d in prog.dem.items():
        x = re.search(r"\bw_view_(\w+?)_(\d)\(", d)
        if x and m in prog.fn: jobs.append((prog, m, x.group(1), int(x.group(2))))
    if len(jobs) != len(INST): raise Broken("view wrappers not found")
    reports = []; n = {}; fns = set(); ins = 0
    for r in fork_map(one, jobs):
        reports += r["reports"]; fns.update(r["functions"]); ins += r["ins"]
        for k, v in r["counts"].items(): n[k] = n.get(k, 0) + v
    return {"reports": reports, "counts": n, "functions": sorted(fns), "opaque": [], "numbers": {"instructions": ins}, "instances": len(jobs)}
