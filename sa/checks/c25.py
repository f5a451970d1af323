"""C25 accepted models never use an absent value, divide by zero or meet a value of the wrong kind."""
from .common import *
from .slices import GDOM, Geo, circle, BISHOP, ORDINARY
from .figure import Recorder
from .c11 import WIDE
from . import edits

KINDS = ("TypeError", "ZeroDivisionError", "AttributeError", "IndexError", "KeyError", "UnboundLocalError", "NameError", "ValueError", "OverflowError", "StopIteration", "RecursionError", "AssertionError")
def crash(x): return x.implicit and x.cls in KINDS

def run(chk):
    chk.rule("building", "no accepted constructor or setter call, on any model, ends in arithmetic on an absent value, a division by zero or a value of the wrong kind")
    chk.rule("profile", "reading the ground profile, the results and the options never does")
    chk.rule("analysis", "neither do both factor-of-safety methods, the search and the analysis, whether planes and values exist or not")
    chk.rule("dynamic", "neither does the dynamic analysis")
    chk.rule("plotting", "neither do the plots of a model, analysed or not, with results where the plot needs them")
    n_ = 30 if chk.tier == "quick" else 120
    D = dict(GDOM); D.update(WIDE)
    ZD = {"length": [Fraction(x) for x in ("0", "0.0005", "2", "5")], "height": [Fraction(x) for x in ("1", "3", "8")], "q1": [Fraction(x) for x in ("1", "50")]}
    def quiet(rule, tag, w, since, dom=None):
        """no implicit raise outcome of the listed kinds is reachable; outcomes of one place are judged by a spread of them"""
        groups = {}
        for o in since:
            if crash(o[1]): groups.setdefault((o[1].cls, o[1].where()), []).append(o)
        pick = []
        for os in groups.values():
            k = 4 if chk.tier == "quick" else 12
            os.sort(key=lambda o: len(o[0].pc))
            pick += os if len(os) <= k else [os[i * (len(os) - 1) // (k - 1)] for i in range(k)]
        no_raise(chk, rule, tag, w, pick, what="for an accepted model", dom={**ZD, **(dom or {})})
    def state(sh):
        w = World(); chk.use(w.eng)
        if sh == "bare": w.slope("length")
        elif sh == "angle": w.build("angle", mats=1, udls=("c",), lls=0, water=False)
        elif sh == "full": w.build("length", mats=2, udls=("f", "c"), lls=2, water=True)
        elif sh == "water": w.build("length", water=True)
        elif sh == "loads": w.build("length", mats=1, udls=("c", "f"), lls=1)
        elif sh == "vertical": w.slope("length", ) ; w.st.assume(eq(sym("length"), ZERO)); w.materials(1); w.loads(("c",), 1); w.water()
        w.raises = []
        return w
    # ---- building and editing
    def built(sh):
        w = World(); chk.use(w.eng); w.raises = []
        st = {"bare": ("length", 0, (), 0, False), "angle": ("angle", 1, ("c",), 0, False), "full": ("length", 2, ("f", "c"), 2, True), "water": ("length", 0, (), 0, True), "both": ("both", 1, ("f",), 1, True)}[sh]
        w.build(st[0], mats=st[1], udls=st[2], lls=st[3], water=st[4])
        quiet("building", f"{sh} model", w, w.raises)
    for sh in ("bare", "angle", "full", "water", "both"): attempt(chk, "building", sh, lambda sh=sh: built(sh))
    def loose():
        """magnitudes, offsets and lengths of any sign, zero included"""
        w = World(); chk.use(w.eng); w.slope("length"); w.raises = []
        us = [w.udl(1, positive=False), w.udl(2, cont=True, positive=False)]; ls = [w.ll(1, positive=False)]
        w.m(w.o, "set_udls", *us); w.m(w.o, "set_lls", *ls)
        w.m(w.o, "remove_udls", us[0]); w.m(w.o, "set_udls", us[1])
        w.m(w.o, "set_external_boundary", height=w.s("height9"), length=w.s("length9"))
        quiet("building", "loads of any sign", w, w.raises)
    attempt(chk, "building", "loads of any sign", loose)
    def edit(sh, seq):
        w = state(sh)
        for e in seq: edits.apply(w, edits.BY[e])
        quiet("building", f"{sh}: " + ", ".join(seq), w, w.raises)
    names = [e[0] for e in edits.EDITS]
    todo = [(sh, (e,)) for sh in ("bare", "full") for e in names] + [("vertical", (e,)) for e in ("geometry by length", "geometry by angle", "boundary minimums", "limits", "automatic water factor", "udl", "material")]
    todo += [("full", (a, b)) for a in ("remove udls", "remove line loads", "remove materials", "no water table") for b in ("udl", "line load", "material", "geometry by angle", "boundary minimums")]
    if chk.tier == "thorough": todo += [(sh, (a, b)) for sh in ("loads", "water") for a in names for b in names]
    for sh, sq in todo: attempt(chk, "building", f"{sh} {sq}", lambda sh=sh, sq=sq: edit(sh, sq))
    # ---- reading
    READ = [("get_external_y_intersection", ("x",)), ("get_external_x_intersection", ("x",)), ("get_top_coordinates", ()), ("get_bottom_coordinates", ()),
            ("get_dynamic_results", ()), ("print_dynamic_results", ())]
    RESULT = [("get_min_FOS", ()), ("get_min_FOS_circle", ()), ("get_min_FOS_end_points", ())]
    def read(sh):
        w = state(sh)
        for m, a in READ:
            if not w.has(w.o, m): continue
            v = w.clone(); v.raises = []
            v.m(v.o, m, *[v.s(x) for x in a])
            quiet("profile", f"{sh}: {m}", v, v.raises)
    for sh in ("bare", "full", "vertical"): attempt(chk, "profile", sh, lambda sh=sh: read(sh))
    def shown():
        """the text of every object"""
        w = state("full")
        for nm, o in [("fixed uniform load", w.udl(5)), ("continuous uniform load", w.udl(6, cont=True)), ("line load", w.ll(5)), ("material", w.material(5)), ("slope", w.o)]:
            for m in ("__repr__", "__str__"):
                v = w.clone(); v.raises = []
                if not isinstance(o, Ref) or not v.has(o, m): continue
                v.m(o, m); quiet("profile", f"{m} of a {nm}", v, v.raises)
    attempt(chk, "profile", "text", shown)
    # ---- the two methods
    def method(meth, sh, exact, ends):
        w = state(sh)
        need(w, "Slope", meth)
        if exact: w.m(w.o, "update_analysis_options", slices=10, max_iterations=2, tolerance=w.s("tol"))
        else:
            n = w.s("n", "int"); w.st.assume(le(const(10), n)); w.st.assume(le(n, const(500)))
            w.m(w.o, "update_analysis_options", slices=n, max_iterations=2, tolerance=w.s("tol"))
        c = circle(w); w.raises = []
        if ends: w.m(w.o, meth, c_x=c[4], c_y=c[5], radius=c[6], left=VTuple([c[0], c[1]]), right=VTuple([c[2], c[3]]))
        else: w.m(w.o, meth, c[4], c[5], c[6])
        quiet("analysis", f"{meth.split('_')[-1]} method, {sh} model, {'ends given' if ends else 'ends of the circle'}, {'10 slices' if exact else 'any number of slices'}", w, w.raises, D)
    for a in [(m, sh, False, True) for m in (ORDINARY, BISHOP) for sh in ("bare", "full", "angle", "water", "vertical", "loads")] + [(BISHOP, "angle", False, False), (ORDINARY, "angle", False, False)]:
        attempt(chk, "analysis", str(a), lambda a=a: method(*a))
    # ---- the search
    def search(sh, pts, limits):
        w = state(sh)
        need(w, "Slope", "_set_entry_exit_planes")
        if limits: w.m(w.o, "set_analysis_limits", left_x=w.s("x1"), left_x_right=w.s("x2"), right_x_left=w.s("x3"), right_x=w.s("x4"))
        w.m(w.o, "update_analysis_options", iterations=500, min_failure_dist=w.s("md"))
        if w.dead(): raise Unsupported("always raises")
        need(w, "Slope", "_get_circle_external_intersection")
        cnt = [0]
        def h(eng, st, fn, recv, args, kw, node):
            cnt[0] += 1; i = cnt[0]
            return eng.list_of(st, [VTuple([w.s(f"ix{i}"), w.s(f"iy{i}")]), VTuple([w.s(f"jx{i}"), w.s(f"jy{i}")])][:pts])
        w.eng.hooks["Slope._get_circle_external_intersection"] = h
        w.raises = []
        w.m(w.o, "_set_entry_exit_planes")
        quiet("analysis", f"search, {sh} model, {pts} crossings{', limits' if limits else ''}", w, w.raises, {"length": [Fraction(x) for x in ("0", "2", "5")]})
    S = [("bare", 2, False), ("vertical", 0, True)]
    if chk.tier == "thorough": S += [(sh, k, l) for sh in ("bare", "loads", "vertical", "angle") for k in (0, 1, 2) for l in (False, True)]
    for a in S: attempt(chk, "analysis", f"search {a}", lambda a=a: search(*a))
    def crowded(k, its):
        """more loads than points at the crest"""
        w = World(); chk.use(w.eng); w.slope("length")
        w.m(w.o, "set_lls", *[w.new("LineLoad", magnitude=const(5 + i), offset=const(Fraction(i, 4))) for i in range(k)])
        need(w, "Slope", "_set_entry_exit_planes", "_generate_planes")
        w.m(w.o, "update_analysis_options", iterations=its)
        w.eng.hooks["Slope._generate_planes"] = lambda eng, st, fn, recv, args, kw, node: eng.list_of(st, [])
        w.raises = []; w.m(w.o, "_set_entry_exit_planes")
        quiet("analysis", f"search with {k} loads, {its} iterations", w, w.raises)
    for k in ((8, 9, 10, 11, 15) if chk.tier == "quick" else range(1, 16)): attempt(chk, "analysis", f"search {k} loads", lambda k=k: crowded(k, 500))
    # ---- circles against the ground
    def crossings(sh):
        w = state(sh); need(w, "Slope", "_get_circle_external_intersection")
        c = [w.s(x) for x in ("cx", "cy", "rad")]
        for x in c: w.st.assume(lt(ZERO, x))
        w.raises = []; w.m(w.o, "_get_circle_external_intersection", *c)
        quiet("analysis", f"crossings of a circle, {sh} model", w, w.raises, D)
        need(w, "Slope", "_generate_planes")
        w = state(sh)
        l, r = [VTuple([w.s(a), w.s(b)]) for a, b in (("lx", "ly"), ("rx", "ry"))]
        w.st.assume(lt(sym("lx"), sym("rx")))
        w.raises = []; w.m(w.o, "_generate_planes", l, r, 2)
        quiet("analysis", f"trial circles of two points, {sh} model", w, w.raises, D)
    for sh in ("bare", "vertical"): attempt(chk, "analysis", f"crossings {sh}", lambda sh=sh: crossings(sh))
    # ---- the analysis
    def analysed(w, k, none=True):
        if k: hook_planes(w, k)
        else:
            need(w, "Slope", "_set_entry_exit_planes")
            w.eng.hooks["Slope._set_entry_exit_planes"] = lambda eng, st, f, recv, a, kw, node: NONE
        hook_fos(w, none)
    def whole(sh, k, mx, ind=False, none=True):
        w = state(sh); analysed(w, k, none)
        if ind: w.m(w.o, "add_single_circular_plane", w.s("cx"), w.s("cy"), w.s("rad")); hook_intersections(w)
        w.raises = []
        w.m(w.o, "analyse_slope", *([w.s("mx")] if mx else []))
        tag = f"analyse_slope, {sh} model, {'an individual plane' if ind else f'{k} planes'}{', maximum' if mx else ''}"
        quiet("analysis", tag, w, w.raises)
        # the results are there when a value is
        for m, a in READ + (RESULT if not none and not mx else []):
            if not w.has(w.o, m): continue
            v = w.clone(); v.raises = []
            v.m(v.o, m, *[v.s(x) for x in a])
            quiet("profile", f"{tag}, then {m}", v, v.raises)
    for a in [("full", 0, False), ("full", 1, False), ("bare", 2, False), ("full", 2, True), ("bare", 0, True), ("full", 0, False, True), ("full", 0, True, True), ("full", 2, False, False, False)]: attempt(chk, "analysis", f"analyse {a}", lambda a=a: whole(*a))
    # ---- dynamic analysis
    def dynamic(udls, lls, k, none):
        w = World(); w.slope("length"); chk.use(w.eng)
        U = [w.udl(i + 1, cont=x in "cC", extra={"dynamic_offset": const(x.isupper())}) for i, x in enumerate(udls)]
        L = [w.ll(i + 1, extra={"dynamic_offset": const(x.isupper())}) for i, x in enumerate(lls)]
        if U: w.m(w.o, "set_udls", *U)
        if L: w.m(w.o, "set_lls", *L)
        if k: hook_planes(w, k)
        else:
            need(w, "Slope", "_set_entry_exit_planes")
            w.eng.hooks["Slope._set_entry_exit_planes"] = lambda eng, st, f, recv, a, kw, node: NONE
        need(w, "Slope", "_analyse_circular_failure_bishop")
        from .c17 import load_key
        # values that rise, fall or stay with the position of the loads
        sl = w.s("tau")
        def h(eng, st, fn, recv, args, kw, node):
            key, n = load_key(w, eng, st, recv)
            v = add(w.s("fos1"), mul(sl, T.app("inc:F", "real", key)))
            return ite(w.s("absent", "bool"), NONE, v) if none else v
        w.eng.hooks["Slope._analyse_circular_failure_bishop"] = h
        c = w.s("crit"); w.st.assume(lt(ZERO, c)); w.st.assume(le(ZERO, sym("fos1"))); w.syms
        w.raises = []
        w.m(w.o, "analyse_dynamic", critical_fos=c)
        tag = f"udls {udls or '-'}, line loads {lls or '-'}, {k} planes{', values may be absent' if none else ''}"
        f = [Fraction(x) for x in ("0", "0.5", "1", "1.3", "1.5", "2")]
        d = {"tau": [Fraction(x) for x in ("0", "0", "1", "-1", "0.5")], "fos1": f, "crit": f[1:], "length": [Fraction(2), Fraction(5)]}
        quiet("dynamic", tag, w, w.raises, d)
        for m in ("get_dynamic_results", "print_dynamic_results"):
            v = w.clone(); v.raises = []; v.m(v.o, m); quiet("dynamic", f"{tag}, then {m}", v, v.raises, d)
    Dy = [("F", "", 1, False), ("C", "", 1, False), ("", "L", 1, False), ("f", "", 1, False), ("", "", 1, False), ("Cf", "L", 1, False)]
    for a in Dy: attempt(chk, "dynamic", str(a), lambda a=a: dynamic(*a))
    # ---- plots
    def plots(sh, k):
        w = state(sh); Recorder(w)
        if k: analysed(w, k, False); w.m(w.o, "analyse_slope")
        calls = [("plot_boundary", {}), ("plot_boundary", {"material_table": FALSE, "legend": TRUE})]
        if k:
            # the ends of a plane are on the ground, left to right, inside its circle
            calls += [("plot_critical", {}), ("plot_all_planes", {"max_fos": "mx"}), ("plot_all_planes", {"max_fos": None})]
        for m, kw in calls:
            v = w.clone(); v.raises = []
            v.m(v.o, m, **{a: (v.s(b) if isinstance(b, str) else NONE if b is None else b) for a, b in kw.items()})
            quiet("plotting", f"{sh} model, {k} planes: {m}({', '.join(kw)})", v, v.raises)
    for a in [("bare", 0), ("water", 0), ("angle", 0), ("full", 0), ("vertical", 0), ("loads", 0)]: attempt(chk, "plotting", str(a), lambda a=a: plots(*a))
    def planes(sh, k):
        from .c19 import plot_model, PDOM
        w = plot_model(sh, k); Recorder(w); w.m(w.o, "analyse_slope")
        for p in w.planes: w.st.assume(lt(p["ry"], p["ly"])); w.st.assume(lt(ZERO, p["lx"])); w.st.assume(lt(p["lx"], p["rx"]))
        for m, kw in (("plot_critical", {}), ("plot_all_planes", {"max_fos": "mx"}), ("plot_all_planes", {"max_fos": None}), ("plot_boundary", {})):
            v = w.clone(); v.planes = w.planes; v.raises = []
            v.m(v.o, m, **{a: (v.s(b) if isinstance(b, str) else NONE) for a, b in kw.items()})
            quiet("plotting", f"{sh['mats']} layers, udls {''.join(sh['udls']) or '-'}, {sh['lls']} line loads{', water' if sh['water'] else ''}, {k} planes: {m}({', '.join(f'{a}={b}' for a, b in kw.items())})", v, v.raises, PDOM)
    for sh in (dict(mats=1, udls=(), lls=0, water=False), dict(mats=2, udls=("c",), lls=1, water=True)): attempt(chk, "plotting", f"planes {sh}", lambda sh=sh: planes(sh, 1))
    # ---- many of everything
    def many():
        w = World(); w.slope("length"); chk.use(w.eng); w.raises = []
        ms = [w.new("Material", w.s(f"uw{i}"), w.s(f"phi{i}"), w.s(f"coh{i}"), const(Fraction(i, 2)), const(f"m{i}")) for i in range(1, 13)]
        w.m(w.o, "set_materials", *ms)
        us = [w.new("Udl", magnitude=const(10 * i), offset=const(i), length=NONE if i % 3 == 0 else const(2)) for i in range(1, 8)]
        ls = [w.new("LineLoad", magnitude=const(5 * i), offset=const(i)) for i in range(1, 8)]
        w.m(w.o, "set_udls", *us); w.m(w.o, "set_lls", *ls); w.water()
        quiet("building", "12 layers, 7 uniform and 7 line loads", w, w.raises)
        v = w.clone(); Recorder(v); v.raises = []; v.m(v.o, "plot_boundary"); quiet("plotting", "12 layers, 7 uniform and 7 line loads: plot_boundary", v, v.raises)
        for m in ms[:11]: w.raises = []; w.m(w.o, "remove_material", m)
        quiet("building", "layers removed one by one", w, w.raises)
    attempt(chk, "building", "many", many)
