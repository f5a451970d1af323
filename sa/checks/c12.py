"""C12 results are complete, sorted and agree with each other."""
from .common import *
from .slices import GDOM, circle

FOS = ["fos"]
def fos_hook(w, planes, none=True):
    """unknown factor of safety per circle; other end points than the plane's own make it another value"""
    need(w, "Slope", "_analyse_circular_failure_bishop")
    def h(eng, st, fn, recv, args, kw, node):
        d = call_args(fn, args, kw)
        key = [d[k] for k in ("c_x", "c_y", "radius")]
        own = [(p["lx"], p["ly"], p["rx"], p["ry"]) for p in planes if p["cx"] is key[0] and p["cy"] is key[1] and p["r"] is key[2]]
        l, r = d.get("left", NONE), d.get("right", NONE)
        extra = []
        if isinstance(l, VTuple) and isinstance(r, VTuple):
            ends = tuple(l.items) + tuple(r.items)
            if not any(all(x is y for x, y in zip(ends, o)) for o in own): extra = list(ends)
        if not all(isinstance(x, Node) for x in key + extra): raise Unsupported("circle of an analysed plane is not scalar")
        v = T.app(FOS[0], "real", *key, *extra)
        return ite(T.app("nofos", "bool", *key), NONE, v) if none else v
    w.eng.hooks["Slope._analyse_circular_failure_bishop"] = h
def fos_of(p, none=True):
    key = [p["cx"], p["cy"], p["r"]]
    v = T.app(FOS[0], "real", *key)
    return ite(T.app("nofos", "bool", *key), NONE, v) if none else v
def plane_value(p):
    return {"l_c": (p["lx"], p["ly"]), "r_c": (p["rx"], p["ry"]), "c_x": p["cx"], "c_y": p["cy"], "radius": p["r"]}
def num(e, x):
    x = e(x)
    return x if x is None or x in (T.ERR, T.AMB) else float(x)
def conc(e, v):
    return tuple(num(e, x) for x in v) if isinstance(v, tuple) else num(e, v)
def unpic(p):
    """plain value of a picture"""
    if p[0] == "v": return p[1] if p[1] is None or isinstance(p[1], (str, bool)) else float(p[1])
    if p[0] in "tl": return tuple(unpic(x) for x in p[1:])
    if p[0] == "d": return {k[1]: unpic(v) for k, v in p[1]}
    return p
def close(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float): return abs(a - b) <= 1e-6 * (1 + abs(a))
    return a == b

def expected(e, planes, mx, none=True):
    """planes that must be reported, ascending"""
    out = []
    for p in planes:
        if e.truth(p.get("when", TRUE)) is not True: continue
        f = e(fos_of(p, none))
        if f is None: continue
        if f in (T.ERR, T.AMB): return None
        if mx is not None:
            m = e(mx)
            if f > m: continue
        out.append({**{k: conc(e, v) for k, v in plane_value(p).items()}, "FOS": float(f)})
    out.sort(key=lambda d: d["FOS"])
    return out

def check(chk, w, planes, mx, smp, tag, none=True):
    wh = where_m(w, "Slope", "analyse_slope")
    lst = field(w, w.o, "_search")
    calls = {}
    for g in ("get_min_FOS", "get_min_FOS_circle", "get_min_FOS_end_points"):
        w2 = w.clone(); v = w2.m(w2.o, g); calls[g] = (w2, v, [and_(*[c for c, soft in x[0].pc[len(w.st.pc):]]) for x in w2.last])
    n = skipped = 0
    stat = {}
    for e in smp.evs:
        if not all(e.truth(c) is True for c in w.pc()): continue
        want = expected(e, planes, mx, none)
        got = concrete(w.st, lst, e)
        if want is None or got[0] == "?" or got[0] not in "lt" or any(x[0] == "?" for x in got[1:]): skipped += 1; continue
        got = [unpic(x) for x in got[1:]]
        n += 1
        def bad(rule, msg):
            if (rule, tag) not in stat: stat[(rule, tag)] = 1; chk.violate(rule, tag, wh, msg, e.env, {"found": repr(got)[:800], "required": repr(want)[:800]})
        gf = [g.get("FOS") for g in got]
        if any(not isinstance(x, float) for x in gf): bad("complete", f"a reported plane has no factor of safety: {gf}"); continue
        if gf != sorted(gf): bad("sorted", f"results are not in ascending order: {gf}")
        a = sorted((repr([round(x, 6) if isinstance(x, float) else tuple(round(y, 6) for y in x) for x in (d["c_x"], d["c_y"], d["radius"])]) for d in got if all(k in d for k in ("c_x", "c_y", "radius"))))
        b = sorted((repr([round(x, 6) for x in (d["c_x"], d["c_y"], d["radius"])]) for d in want))
        if a != b: bad("complete", f"{len(got)} planes reported, {len(want)} required" if len(a) != len(b) else "the reported planes are not the analysed ones"); continue
        for d in want:
            m = [g for g in got if close(g["c_x"], d["c_x"]) and close(g["c_y"], d["c_y"]) and close(g["radius"], d["radius"])]
            if not any(all(close(g.get(k), d[k]) for k in d) for g in m): bad("own-value", f"a plane is reported with another circle's value or end points: {m[0]} instead of {d}"); break
        first = got[0] if got else None
        for g, key in (("get_min_FOS", ("FOS",)), ("get_min_FOS_circle", ("c_x", "c_y", "radius")), ("get_min_FOS_end_points", ("l_c", "r_c"))):
            w2, v, fails = calls[g]
            ok = not w2.dead() and all(e.truth(c) is False for c in fails)
            if not want:
                if ok and unpic(concrete(w2.st, v, e)) is not None: bad("minimum", f"{g} reports a value without results")
                continue
            if not ok: bad("minimum", f"{g} fails although there are results"); continue
            r = unpic(concrete(w2.st, v, e))
            exp = want[0]["FOS"] if g == "get_min_FOS" else tuple(next(x for x in want if x["FOS"] == want[0]["FOS"])[k] for k in key)
            ties = [x for x in want if close(x["FOS"], want[0]["FOS"])]
            opts = [x["FOS"] if g == "get_min_FOS" else tuple(x[k] for k in key) for x in ties]
            if not any(close(r, o) for o in opts): bad("minimum", f"{g} gives {r}, required {exp}")
    for r in ("complete", "sorted", "own-value", "minimum"):
        if (r, tag) in stat: continue
        if n: chk.agreed(r, tag, f"{n} admissible assignments")
        else: chk.undecided(r, tag, f"no comparable assignment ({skipped} skipped)")
    chk.count("analyses", 1); chk.count("result lists compared", n)

def run(chk):
    chk.rule("complete", "the results are exactly the analysed planes with a factor of safety, not above the requested maximum if there is one")
    chk.rule("sorted", "the results are in ascending order of factor of safety")
    chk.rule("own-value", "every plane is reported with the factor of safety of its own circle and its own end points")
    chk.rule("minimum", "the minimum, its circle, its end points and the critical plot describe the first result")
    n_ = 60 if chk.tier == "quick" else 300
    dom = {"mx": [Fraction(x) for x in ("0.001", "1", "3", "5", "7", "9", "11")]}
    def model(loads_=True):
        w = World(); w.build("length", mats=1, udls=("f",) if loads_ else (), lls=0); chk.use(w.eng); return w
    def analyse(w, mx, ps=None):
        if mx is None: w.m(w.o, "analyse_slope")
        elif mx == "equal":
            w.st.assume(lt(ZERO, fos_of(ps[0], False))); w.m(w.o, "analyse_slope", max_fos=fos_of(ps[0], False))
        else: w.st.assume(lt(ZERO, w.s("mx"))); w.m(w.o, "analyse_slope", max_fos=sym("mx"))
        if w.dead():
            x = [x[1] for x in w.last]
            if x and any(getattr(e, "implicit", False) for e in x): chk.violate("complete", "analyse_slope", where_m(w, "Slope", "analyse_slope"), f"analysing accepted planes always fails: {x[-1]}")
            raise Unsupported("analysis always raises")
        chk.use(w.eng)
    def search(k, mx, twice=False, first=None):
        w = model(); ps = hook_planes(w, k); fos_hook(w, ps)
        tag = f"search of {k} planes" + (", maximum given" if mx else "") + (", analysed before" + (" with a maximum" if first else "") if twice else "")
        if twice: analyse(w, first)
        if twice and first and not mx: w.m(w.o, "analyse_slope")
        elif not (twice and first): analyse(w, mx, ps)
        if mx == "equal": tag = tag.replace("maximum given", "maximum equal to the first plane's value")
        if FOS[0] != "fos": tag += ", values close together" if FOS[0][0] == "n" else ", values from none to very large"
        smp = w.samples(chk.seed, n_, dom=dom, tag=tag)
        check(chk, w, ps, None if not mx else fos_of(ps[0], False) if mx == "equal" else sym("mx"), smp, tag)
    ks = (0, 1, 2, 3) if chk.tier == "quick" else (0, 1, 2, 3, 4)
    for k in ks:
        for mx in (None, True): attempt(chk, "complete", f"search {k} {mx}", lambda k=k, mx=mx: search(k, mx))
    for k in ks[1:]: attempt(chk, "complete", f"search {k} equal", lambda k=k: search(k, "equal"))
    FOS[0] = "narrow:fos"
    try:
        for k in ks[2:]:
            for mx in (None, "equal"): attempt(chk, "complete", f"search {k} narrow", lambda k=k, mx=mx: search(k, mx))
        FOS[0] = "wide:fos"
        for k in ks[1:]:
            for mx in (None, "equal"): attempt(chk, "complete", f"search {k} wide", lambda k=k, mx=mx: search(k, mx))
    finally: FOS[0] = "fos"
    attempt(chk, "complete", "twice", lambda: search(2, None, True))
    attempt(chk, "complete", "twice, maximum first", lambda: search(2, None, True, True))
    def individual(k, mx, then=None):
        """planes added one by one as circles"""
        w = model(); hp = hook_planes(w, 1, tag="s")
        need(w, "Slope", "_get_circle_external_intersection")
        ps = []
        for i in range(1, k + 1):
            t = f"{i}"
            ps.append({a: w.s(b + t) for a, b in (("lx", "lx"), ("ly", "ly"), ("rx", "rx"), ("ry", "ry"), ("cx", "cx"), ("cy", "cy"), ("r", "rad"))})
            for a in ("cx", "cy", "r"): w.st.assume(lt(ZERO, ps[-1][a]))
            w.st.assume(lt(ps[-1]["lx"], ps[-1]["rx"]))
        def h(eng, st, fn, recv, args, kw, node):
            d = call_args(fn, args, kw)
            for p in ps:
                if p["cx"] is d["c_x"]: return eng.list_of(st, [VTuple([p["lx"], p["ly"]]), VTuple([p["rx"], p["ry"]])])
            raise Unsupported("unknown circle")
        w.eng.hooks["Slope._get_circle_external_intersection"] = h
        fos_hook(w, ps + hp)
        for p in ps: w.m(w.o, "add_single_circular_plane", p["cx"], p["cy"], p["r"])
        tag = f"{k} individual planes" + (", maximum given" if mx else "") + (f", then {then}" if then else "")
        exp = ps
        if then == "analysed, one more added":
            analyse(w, None)
            p = {a: w.s(b + "9") for a, b in (("lx", "lx"), ("ly", "ly"), ("rx", "rx"), ("ry", "ry"), ("cx", "cx"), ("cy", "cy"), ("r", "rad"))}
            for a in ("cx", "cy", "r"): w.st.assume(lt(ZERO, p[a]))
            w.st.assume(lt(p["lx"], p["rx"])); ps.append(p)
            w.m(w.o, "add_single_circular_plane", p["cx"], p["cy"], p["r"])
        if then == "removed": w.m(w.o, "remove_individual_planes"); exp = hp
        if then == "analysed with a maximum":
            w.st.assume(lt(ZERO, w.s("mx0"))); w.m(w.o, "analyse_slope", max_fos=sym("mx0"))
        analyse(w, mx)
        smp = w.samples(chk.seed, n_, dom={**dom, "mx0": dom["mx"]}, tag=tag)
        check(chk, w, exp, sym("mx") if mx else None, smp, tag)
    for a in [(1, None), (2, None), (2, True), (2, None, "removed"), (1, None, "analysed, one more added"), (2, None, "analysed with a maximum")] + ([(3, None), (3, True), (3, None, "removed")] if chk.tier == "thorough" else []):
        attempt(chk, "complete", str(a), lambda a=a: individual(*a))
    def pair(k, circles):
        """planes added by entry and exit point"""
        w = model(); hp = hook_planes(w, 1, tag="s")
        need(w, "Slope", "_generate_planes")
        ps = []; calls = []
        def h(eng, st, fn, recv, args, kw, node):
            d = call_args(fn, args, kw); i = len(calls); calls.append(d)
            out = []
            for j in range(circles):
                t = f"{i}{j}"
                p = {a: w.s(b + t) for a, b in (("lx", "lx"), ("ly", "ly"), ("rx", "rx"), ("ry", "ry"), ("cx", "cx"), ("cy", "cy"), ("r", "rad"))}
                ps.append(p); out.append(plane_dict(eng, st, p)); eng.open_refs.add(out[-1].id)
            return eng.list_of(st, out)
        w.eng.hooks["Slope._generate_planes"] = h
        fos_hook(w, ps)
        if circles > 100:      # only the last of them has a factor of safety
            inner = w.eng.hooks["Slope._analyse_circular_failure_bishop"]
            def last(eng, st, fn, recv, args, kw, node):
                d = call_args(fn, args, kw)
                return inner(eng, st, fn, recv, args, kw, node) if d["c_x"] is ps[-1]["cx"] else NONE
            w.eng.hooks["Slope._analyse_circular_failure_bishop"] = last
        if circles > 100: w.m(w.o, "update_analysis_options", iterations=500)
        for i in range(k): w.m(w.o, "add_single_entry_exit_plane", const(1 + i), const(9 + i), circles)
        analyse(w, None)
        if len(calls) != k: raise Unsupported("plane generation was called another number of times")
        smp = w.samples(chk.seed, n_ if circles < 100 else 3, dom=dom, tag=f"pair{k}")
        check(chk, w, ps if circles < 100 else ps[-1:], None, smp, f"{k} entry and exit pairs, {circles} circles each")
    for a in ((1, 2), (2, 1), (1, 520)): attempt(chk, "complete", f"pairs {a}", lambda a=a: pair(*a))
    def plot(k, method):
        """the critical plot draws the first result"""
        w = model(False); ps = hook_planes(w, k); fos_hook(w, ps, none=False)
        need(w, "Slope", "_plot_failure_plane", "plot_boundary")
        for p in ps: pass
        analyse(w, None)
        got = []
        def h(eng, st, fn, recv, args, kw, node):
            got.append((st.clone(), call_args(fn, args, kw))); return args[1] if len(args) > 1 else kw.get("fig")
        w.eng.hooks["Slope._plot_failure_plane"] = h
        w.eng.hooks["Slope.plot_boundary"] = lambda eng, st, fn, recv, args, kw, node: NONE
        w.m(w.o, method)
        if not got: raise Missing("no failure plane plotted")
        smp = w.samples(chk.seed, n_, dom=dom, tag="plot"); wh = where_m(w, "Slope", method)
        tag = f"{method} with {k} results"; n = 0
        for e in smp.evs:
            want = expected(e, ps, None, False)
            for st, d in got:
                if not all(e.truth(c) is True for c, soft in st.pc): continue
                n += 1
                for a, b in (("c_x", "c_x"), ("c_y", "c_y"), ("radius", "radius"), ("FOS", "FOS"), ("l_c", "l_c"), ("r_c", "r_c")):
                    if a not in d: continue
                    r = unpic(concrete(st, d[a], e))
                    if not close(r, want[0][b]): chk.violate("minimum", tag, wh, f"the critical plot shows {b} = {r}, the first result has {want[0][b]}", e.env); return
        if n: chk.agreed("minimum", tag, f"{n} assignments")
        else: chk.undecided("minimum", tag, "no assignment")
    for k in (1, 2): attempt(chk, "minimum", f"plot {k}", lambda k=k: plot(k, "plot_critical"))
