"""C24 engineering quantities combine in consistent units (dimension inference over the value numbers of the engine)."""
from .common import *
from .slices import circle, BISHOP, ORDINARY
from .figure import Recorder
from . import edits
from .. import dims
from ..dims import LEN, DEG, ONE as NUM, PRESSURE, LINE, WEIGHT

TABLE = {}
for k in ("height", "length", "depth", "off", "len", "wd", "cx", "cy", "rad", "r", "lx", "ly", "rx", "ry", "md", "ml", "mh", "x", "y"):
    for i in ("",) + tuple(range(0, 10)):
        for q in ("", "'", "i"): TABLE[f"{k}{i}{q}"] = LEN
for i in ("",) + tuple(range(0, 10)):
    TABLE.update({f"angle{i}": DEG, f"phi{i}": DEG, f"uw{i}": WEIGHT, f"coh{i}": PRESSURE, f"q{i}": PRESSURE, f"p{i}": LINE, f"H{i}": NUM, f"n{i}": NUM, f"it{i}": NUM, f"tol{i}": NUM, f"mx{i}": NUM, f"crit{i}": NUM})
APPS = {"fos": NUM}

def roots(st, v, seen, out):
    """numeric value numbers reachable from a value"""
    if isinstance(v, Node): out.append(v)
    elif isinstance(v, VIte): out.append(v.c); roots(st, v.a, seen, out); roots(st, v.b, seen, out)
    elif isinstance(v, VTuple):
        for x in v.items: roots(st, x, seen, out)
    elif isinstance(v, Ref):
        if v.id in seen or v.id not in st.heap: return
        seen.add(v.id); r = st.heap[v.id]
        if isinstance(r, ObjRec):
            for x in r.fields.values(): roots(st, x, seen, out)
        elif isinstance(r, ListRec):
            for g, x in r.items: out.append(g); roots(st, x, seen, out)
        elif isinstance(r, DictRec):
            for k, g, x in r.items: out.append(g); roots(st, k, seen, out); roots(st, x, seen, out)
        elif isinstance(r, ArrRec):
            for x in (r.items if r.items is not None else (r.n, r.elem)): roots(st, x, seen, out)

def run(chk):
    chk.rule("consistent", "no sum, comparison, choice or trigonometric argument in what the code computes mixes quantities of different dimension")
    chk.rule("result", "values handed out have the dimension of what they describe: coordinates are lengths, a factor of safety is a number")
    T.ORIGIN = {}; T.WHERE = lambda: None
    seen_conf = set()
    def judge(tag, w, values=(), expect=None):
        """dimension check of everything the call computed, decided on and stored"""
        chk.use(w.eng); d = dims.Dims(TABLE, T.ORIGIN, APPS)
        out = []
        for v in values: roots(w.st, v, set(), out)
        roots(w.st, w.o, set(), out)
        out += [c for c, _ in w.st.pc]
        for s, x, _ in w.raises: out += [c for c, _ in s.pc]
        for n in out: d.of(n)
        for n, what, a, b, loc in d.conflicts:
            where = f"{loc[0]}:{loc[1]} in {loc[2]}" if loc else "?"
            if (where, what, a, b) in seen_conf: continue
            seen_conf.add((where, what, a, b))
            chk.violate("consistent", f"{tag}: {dims.name(a)} {what} {dims.name(b)}", where, f"{dims.name(a)} {what} {dims.name(b)}: {T.show(n)[:160]}", {})
        if not d.conflicts: chk.ok("consistent", tag, f"{d.checked} operations")
        chk.count("operations with a dimension rule", d.checked); chk.count("value numbers", len(d.memo))
        unk = sum(1 for k in d.memo.values() if k is None)
        chk.count("value numbers without a known dimension (conditions, text, unknown)", unk)
        for what, v, e, wh in expect or ():
            got = set()
            rs = []; roots(w.st, v, set(), rs)
            for n in rs:
                if truthy_kind(n) in ("num", "mixed"): got.add(d.of(n))
            bad = [g for g in got if g not in (None, dims.ANY) and g != e]
            if bad: chk.violate("result", f"{tag}: {what}", wh, f"{what} is a {dims.name(bad[0])}, not a {dims.name(e)}", {})
            elif e in got: chk.ok("result", f"{tag}: {what}", dims.name(e))
            elif got <= {dims.ANY}: pass
            else: chk.undecided("result", f"{tag}: {what}", "dimension not inferred")
    def start(by="length", mats=0, udls=(), lls=0, water=False, factor=False):
        w = World(); T.WHERE = w.eng.here; w.slope(by); chk.use(w.eng)
        w.m(w.o, "update_boundary_options", MIN_EXT_L=w.s("ml"), MIN_EXT_H=w.s("mh"))
        if mats: w.materials(mats)
        if udls or lls: w.loads(udls, lls)
        if water: w.water()
        if factor: w.m(w.o, "update_water_analysis_options", auto=False, H=w.s("H"))
        return w
    SH = {"bare": ("length",), "angle": ("angle",), "loads": ("length", 1, ("c", "f"), 2), "full": ("angle", 2, ("f", "c"), 1, True), "factor": ("length", 2, ("f",), 1, True, True)}
    # ---- geometry and loads
    def geometry(sh):
        w = start(*SH[sh])
        ex = []
        for m, a in (("get_top_coordinates", ()), ("get_bottom_coordinates", ()), ("get_external_y_intersection", ("x",)), ("get_external_x_intersection", ("y",))):
            if w.has(w.o, m): ex.append((m, w.m(w.o, m, *[w.s(x) for x in a]), LEN, where_m(w, "Slope", m)))
        judge(f"{sh} model", w, [e[1] for e in ex], ex)
    for sh in SH: attempt(chk, "consistent", sh, lambda sh=sh: geometry(sh))
    def edit(sh, e):
        w = start(*SH[sh]); edits.apply(w, edits.BY[e]); judge(f"{sh} model, {e}", w)
    for e in edits.EDITS:
        for sh in ("bare", "full"): attempt(chk, "consistent", f"{sh} {e[0]}", lambda sh=sh, e=e[0]: edit(sh, e))
    # ---- circles
    def circles(sh):
        w = start(*SH[sh]); need(w, "Slope", "_get_circle_external_intersection", "_generate_planes")
        v = w.clone()
        for x in ("cx", "cy", "rad"): v.st.assume(lt(ZERO, v.s(x)))
        r = v.m(v.o, "_get_circle_external_intersection", v.s("cx"), v.s("cy"), v.s("rad"))
        judge(f"{sh} model, crossings of a circle", v, [r], [("crossings", r, LEN, where_m(v, "Slope", "_get_circle_external_intersection"))])
        v = w.clone()
        l, r = [VTuple([v.s(a), v.s(b)]) for a, b in (("lx", "ly"), ("rx", "ry"))]
        v.st.assume(lt(sym("lx"), sym("rx")))
        r = v.m(v.o, "_generate_planes", l, r, 2)
        judge(f"{sh} model, trial circles", v, [r], [("trial circles", r, LEN, where_m(v, "Slope", "_generate_planes"))])
    for sh in ("bare", "angle"): attempt(chk, "consistent", f"circles {sh}", lambda sh=sh: circles(sh))
    # ---- search
    def search(sh, limits):
        w = start(*SH[sh]); need(w, "Slope", "_set_entry_exit_planes", "_get_circle_external_intersection")
        if limits: w.m(w.o, "set_analysis_limits", left_x=w.s("x1"), left_x_right=w.s("x2"), right_x_left=w.s("x3"), right_x=w.s("x4"))
        w.m(w.o, "update_analysis_options", iterations=500, min_failure_dist=w.s("md"))
        if w.dead(): raise Unsupported("always raises")
        cnt = [0]
        def h(eng, st, fn, recv, args, kw, node):
            cnt[0] += 1; i = cnt[0] % 7
            return eng.list_of(st, [VTuple([w.s(f"lx{i}"), w.s(f"ly{i}")]), VTuple([w.s(f"rx{i}"), w.s(f"ry{i}")])])
        w.eng.hooks["Slope._get_circle_external_intersection"] = h
        w.m(w.o, "_set_entry_exit_planes")
        judge(f"{sh} model, search{' within limits' if limits else ''}", w)
    for a in (("bare", False), ("loads", False), ("bare", True)): attempt(chk, "consistent", f"search {a}", lambda a=a: search(*a))
    # ---- both methods
    def method(meth, sh, N, its):
        w = start(*SH[sh]); need(w, "Slope", meth)
        n = const(N) if N else w.s("n", "int")
        if not N: w.st.assume(le(const(10), n)); w.st.assume(le(n, const(500)))
        w.m(w.o, "update_analysis_options", slices=n, max_iterations=its, tolerance=w.s("tol"))
        c = circle(w)
        v = w.m(w.o, meth, c_x=c[4], c_y=c[5], radius=c[6], left=VTuple([c[0], c[1]]), right=VTuple([c[2], c[3]]))
        judge(f"{meth.split('_')[-1]} method, {sh} model, {N or 'any number of'} slices", w, [v], [("the factor of safety", v, NUM, where_m(w, "Slope", meth))] if len(SH[sh]) > 1 and SH[sh][1] else ())
    M = [(m, sh, None, 2) for m in (ORDINARY, BISHOP) for sh in ("angle", "loads", "full", "factor")] + [(m, "factor", 10, 1) for m in (ORDINARY, BISHOP)]
    for a in M: attempt(chk, "consistent", f"method {a}", lambda a=a: method(*a))
    # ---- analysis, planes and dynamic analysis
    def analysis(sh, ind):
        w = start(*SH[sh]); hook_planes(w, 2); hook_fos(w, False)
        if ind: hook_intersections(w); w.m(w.o, "add_single_circular_plane", w.s("cx"), w.s("cy"), w.s("rad"))
        w.m(w.o, "analyse_slope", *([w.s("mx")] if not ind else []))
        ex = []
        if ind:
            for m, e in (("get_min_FOS", NUM), ("get_min_FOS_circle", LEN), ("get_min_FOS_end_points", LEN)):
                if w.has(w.o, m): ex.append((m, w.m(w.o, m), e, where_m(w, "Slope", m)))
        judge(f"{sh} model, analysis{' of an added circle' if ind else ' with a maximum'}", w, [e[1] for e in ex], ex)
    for a in (("bare", False), ("full", True)): attempt(chk, "consistent", f"analysis {a}", lambda a=a: analysis(*a))
    def dynamic(u, l):
        w = World(); T.WHERE = w.eng.here; w.slope("length"); chk.use(w.eng)
        U = [w.udl(i + 1, cont=x == "C", extra={"dynamic_offset": TRUE}) for i, x in enumerate(u)]
        L = [w.ll(i + 1, extra={"dynamic_offset": TRUE}) for i in range(l)]
        if U: w.m(w.o, "set_udls", *U)
        if L: w.m(w.o, "set_lls", *L)
        hook_planes(w, 1); need(w, "Slope", "_analyse_circular_failure_bishop")
        from .c17 import load_key
        def h(eng, st, fn, recv, args, kw, node):
            key, n = load_key(w, eng, st, recv)
            return T.app("fos", "real", key)
        w.eng.hooks["Slope._analyse_circular_failure_bishop"] = h
        w.m(w.o, "analyse_dynamic", critical_fos=w.s("crit"))
        judge(f"dynamic analysis, uniform loads {u or '-'}, {l} line loads", w)
    for a in (("F", 0), ("", 1), ("C", 1)): attempt(chk, "consistent", f"dynamic {a}", lambda a=a: dynamic(*a))
    # ---- plots
    def plots(sh, k):
        w = start(*SH[sh]); R = Recorder(w)
        if k: hook_planes(w, 1); hook_fos(w, False); w.m(w.o, "analyse_slope")
        for m, kw in (("plot_boundary", {}),) + ((("plot_critical", {}), ("plot_all_planes", {"max_fos": "mx"})) if k else ()):
            v = w.clone(); v.raises = []
            n = len(v.st.events)
            v.m(v.o, m, **{a: v.s(b) for a, b in kw.items()})
            vals = []
            for e in v.st.events[n:]: vals += list(e.args) + list(e.kw.values())
            ex = []
            for e in v.st.events[n:]:
                kws = [e.kw] + [{cval(k_): x for k_, g, x in v.st.heap[a.id].items if isc(k_)} for a in e.args if isinstance(a, Ref) and isinstance(v.st.heap.get(a.id), DictRec)]
                for kw_ in kws:
                    if any(kw_.get(r) is const("paper") for r in ("xref", "yref")): continue
                    px = {"x0", "x1"} if kw_.get("xsizemode") is const("pixel") else set()
                    px |= {"y0", "y1"} if kw_.get("ysizemode") is const("pixel") else set()
                    ex += [(f"{k_} of {e.path.split('.')[-1]}", x, LEN, f"{e.mod}:{e.line} in {e.fn}") for k_, x in kw_.items() if k_ in ("x", "y", "x0", "x1", "y0", "y1", "xanchor", "yanchor") and k_ not in px]
            judge(f"{sh} model, {m}", v, vals, ex)
    for a in (("bare", 0), ("full", 0), ("loads", 1), ("full", 1)): attempt(chk, "consistent", f"plots {a}", lambda a=a: plots(*a))
    T.ORIGIN = None
