"""C14 models are independent of each other."""
from .common import *
from . import edits, heap
from .c13 import queries

def run(chk):
    chk.rule("isolated", "nothing that existed before (other models and their parts, module and class variables, default arguments) is different after a call on another model")
    chk.rule("caller-objects", "the load and material objects passed in have the same attributes afterwards")
    chk.rule("later-models", "a model made afterwards is the same as one made before")
    n = 25 if chk.tier == "quick" else 100
    def full(w, tag, dyn=False):
        """another complete model in the same program; returns its slope object"""
        o = w.new("Slope", height=w.s("height" + tag), angle=NONE, length=w.s("length" + tag))
        for i in (1, 2):
            w.st.assume(lt(ZERO, sym(f"depth{i}{tag}")))
        w.st.assume(lt(sym(f"depth1{tag}"), sym(f"depth2{tag}")))
        ms = [w.material(f"{i}{tag}") for i in (1, 2)]
        us = [w.udl(f"1{tag}", extra={"dynamic_offset": const(dyn)}), w.udl(f"2{tag}", True)]; ls = [w.ll(f"1{tag}", extra={"dynamic_offset": const(dyn)})]
        return o, ms, us, ls
    def fill(w, o, ms, us, ls, tag):
        w.m(o, "set_materials", *ms); w.m(o, "set_udls", *us); w.m(o, "set_lls", *ls); w.m(o, "set_water_table", w.s("wd" + tag))
        w.m(o, "update_analysis_options", slices=w.s("n" + tag, "int"), max_iterations=const(2))
    def two():
        w = World(); chk.use(w.eng)
        w.build("length", mats=2, udls=("f", "c"), lls=1, water=True)
        w.m(w.o, "update_analysis_options", max_iterations=const(2))
        hook_intersections(w); hook_planes(w, 2); hook_fos(w, none=False)
        w.m(w.o, "analyse_slope")
        w.raises = []
        return w
    PRE = {"isolated": lambda nm, part: False}
    def states(w): return ([(w.st, "")] if not w.dead() else []) + [(s, f" when {e.cls} is raised") for s, e, b in w.last]
    def on_new():
        """make and fill a model while another exists, then use it in every way"""
        w0 = two(); w = w0.clone(); w.last = []
        o = w.new("Slope"); chk.use(w.eng)
        heap.unchanged(chk, "isolated", "Slope()", w0, states(w), where_m(w, "Slope", "__init__"), seed=chk.seed, n=n)
        w.o = o
        for k in ("length", "angle", "both"):
            v = w0.clone(); v.last = []; v.o = None
            kw = {"length": dict(angle=NONE, length=v.s("length8")), "angle": dict(angle=v.s("angle8")), "both": dict(angle=v.s("angle8"), length=v.s("length8"))}[k]
            v.new("Slope", height=v.s("height8"), **kw)
            heap.unchanged(chk, "isolated", f"Slope by {k}", w0, states(v), where_m(w, "Slope", "__init__"), seed=chk.seed, n=n)
        for c, kw in (("Material", dict(unit_weight=w.s("uw8"), friction_angle=w.s("phi8"), cohesion=w.s("coh8"), depth_to_bottom=w.s("depth8"))), ("Udl", dict(magnitude=w.s("q8"), offset=w.s("off8"), length=w.s("len8"))), ("LineLoad", dict(magnitude=w.s("p8"), offset=w.s("off8'")))):
            v = w0.clone(); v.last = []
            v.new(c, **kw)
            heap.unchanged(chk, "isolated", c, w0, states(v), where_m(w, c, "__post_init__"), seed=chk.seed, n=n)
    attempt(chk, "isolated", "construction", on_new)
    def edits_():
        w0 = two()
        w1 = w0.clone()
        o, ms, us, ls = full(w1, "8"); w1.a = w0.o
        # every edit on the fresh model B (w1.o = B) with its own loads
        for e in edits.EDITS + [("entry and exit plane", "add_single_entry_exit_plane", lambda w: ((w.s("lx9"), w.s("rx9")), {}))]:
            for filled in (False, True):
                if filled and chk.tier == "quick" and e[0] in ("geometry by angle", "entry and exit plane", "no limits"): continue
                def one(e=e, filled=filled):
                    w = w1.clone(); w.o = o; w.mats, w.udls, w.lls = list(ms), list(us), list(ls)
                    if filled: fill(w, o, ms, us, ls, "8")
                    else: w.mats, w.udls, w.lls = [], [], []
                    w.last = []
                    base = w1
                    mine = {o.id} | reach(w1.st, [o] + ms + us + ls)
                    edits.apply(w, e); chk.use(w.eng)
                    heap.unchanged(chk, "isolated", ("filled: " if filled else "new: ") + e[0], base, states(w), where_m(w, "Slope", e[1]), seed=chk.seed, n=n, ignore_ids=mine)
                    chk.count("calls on another model")
                attempt(chk, "isolated", f"{e[0]} {filled}", one)
        def use(what, f):
            w = w1.clone(); fill(w, o, ms, us, ls, "8"); w.o = o; w.last = []
            if what != "analysis": w.m(o, "analyse_slope")
            mine = {o.id} | reach(w1.st, [o] + ms + us + ls)
            f(w); chk.use(w.eng)
            heap.unchanged(chk, "isolated", what, w1, states(w), where_m(w, "Slope", "analyse_slope"), seed=chk.seed, n=n, ignore_ids=mine)
            chk.count("calls on another model")
        attempt(chk, "isolated", "analysis", lambda: use("analysis", lambda w: w.m(o, "analyse_slope")))
        def ask(w, q, req, fl):
            w.last = []
            if req is None: return w.eng.getattr(w.st, o, q, None)
            return w.m(o, q, **{p: w.s("x" if p != "y" else "y9") for p in req}, **(fl or {}))
        for q, req, flags in queries(w1, o):
            for fl in ([dict.fromkeys(flags, TRUE), dict.fromkeys(flags, FALSE)] if flags else [None]):
                attempt(chk, "isolated", q, lambda q=q, req=req, fl=fl: use(q + ("" if not fl else f" {', '.join(f'{k}={v!r}' for k, v in fl.items())}"), lambda w: ask(w, q, req, fl)))
    attempt(chk, "isolated", "edits", edits_)
    def many(k):
        """models with many layers and loads"""
        w0 = two(); w = w0.clone(); w.last = []
        o = w.new("Slope", height=w.s("height8"), angle=NONE, length=w.s("length8"))
        w.st.assume(lt(const(4), sym("height8"))); w.st.assume(lt(sym("height8"), const(6))); w.st.assume(lt(const(2), sym("length8"))); w.st.assume(lt(sym("length8"), const(30)))
        w.m(o, "set_materials", *[w.new("Material", unit_weight=const(18), friction_angle=const(30), cohesion=const(2), depth_to_bottom=const(i + 1), name=const(f"m{i}")) for i in range(k)])
        w.m(o, "set_udls", *[w.new("Udl", magnitude=const(5 + i), offset=const(i), length=const(1)) for i in range(3)])
        w.m(o, "set_lls", *[w.new("LineLoad", magnitude=const(5 + i), offset=const(i)) for i in range(3)])
        w.m(o, "set_water_table", const(1)); w.m(o, "analyse_slope"); w.m(o, "plot_all_planes"); w.m(o, "remove_material", depth=const(2)); chk.use(w.eng)
        w.last = []
        heap.unchanged(chk, "isolated", f"{k} layers, three loads of each kind", w0, states(w), where_m(w, "Slope", "set_materials"), seed=chk.seed, n=n)
    for k in (3, 4, 5, 7, 11, 12): attempt(chk, "isolated", f"{k} layers", lambda k=k: many(k))
    def bishop():
        """analysis with every slice"""
        w0 = World(); w0.build("length", mats=2, udls=("f", "c"), lls=1, water=True); hook_intersections(w0); hook_planes(w0, 1)
        w0.m(w0.o, "update_analysis_options", max_iterations=const(2))
        w1 = w0.clone(); o, ms, us, ls = full(w1, "8")
        w = w1.clone(); fill(w, o, ms, us, ls, "8")
        mine = {o.id} | reach(w1.st, [o] + ms + us + ls)
        w.last = []
        w.m(o, "analyse_slope"); chk.use(w.eng)
        heap.unchanged(chk, "isolated", "analysis, every slice", w1, states(w), where_m(w, "Slope", "analyse_slope"), seed=chk.seed, n=n, ignore_ids=mine)
    attempt(chk, "isolated", "bishop", bishop)
    def dynamic():
        w0 = two(); w1 = w0.clone()
        o = w1.new("Slope", height=w1.s("height8"), angle=NONE, length=w1.s("length8"))
        u, l = w1.udl("18", extra={"dynamic_offset": TRUE}), w1.ll("18", extra={"dynamic_offset": FALSE})
        w = w1.clone(); w.m(o, "set_udls", u); w.m(o, "set_lls", l); w.last = []
        mine = {o.id} | reach(w1.st, [o, u, l])
        need(w, "Slope", "_set_dynamic_offset")
        w.m(o, "_set_dynamic_offset", w.s("off9")); chk.use(w.eng)
        heap.unchanged(chk, "isolated", "moving dynamic loads", w1, states(w), where_m(w, "Slope", "_set_dynamic_offset"), seed=chk.seed, n=n, ignore_ids=mine)
    attempt(chk, "isolated", "dynamic", dynamic)
    # ---- two models of the same objects
    def shared():
        """editing a model that uses the same materials and loads must leave the other model's analysis inputs alone"""
        w = World(); w.build("length", mats=2, udls=("f", "c"), lls=1, water=False); chk.use(w.eng)
        inputs = {c: set(param_names(w, c)) for c in ("Material", "Udl", "LineLoad")}
        w0 = w.clone()
        o = w.new("Slope", height=w.s("height8"), angle=NONE, length=w.s("length8"))
        w.last = []
        w.m(o, "set_materials", *w.mats); w.m(o, "set_udls", *w.udls); w.m(o, "set_lls", *w.lls)
        heap.unchanged(chk, "caller-objects", "used in a second model", w0, states(w), where_m(w, "Slope", "set_materials"), seed=chk.seed, n=n, allow=lambda nm, part: nm in inputs and (part not in inputs[nm] or (nm, part) == ("Material", "color")))
    attempt(chk, "caller-objects", "shared", shared)
    def callers(udyn=True):
        """what a call writes to the objects of the caller"""
        w0 = World(); w0.slope("length"); chk.use(w0.eng)
        for i in (1, 2): w0.st.assume(lt(ZERO, sym(f"depth{i}")))
        w0.st.assume(lt(sym("depth1"), sym("depth2")))
        ms = [w0.material(1), w0.material(2)]
        us = [w0.udl(1, extra={"dynamic_offset": const(udyn)}), w0.udl(2, True)]; ls = [w0.ll(1, extra={"dynamic_offset": TRUE})]
        ids = [x.id for x in ms + us + ls]
        inputs = {c: set(param_names(w0, c)) for c in ("Material", "Udl", "LineLoad")}
        keyf = lambda nm, part: f"{nm}.{part}" if part in inputs.get(nm, ()) else "derived attributes"
        def step(tag, meth, f, base):
            w = base.clone(); w.last = []
            f(w); chk.use(w.eng)
            heap.unchanged(chk, "caller-objects", "building and editing", w0, states(w), where_m(w, "Slope", meth), seed=chk.seed, n=n, ids=ids, what=f"changed by {meth}", keyf=keyf, dom={"off9": [Fraction(x) for x in ("0", "0.5", "3", "8", "30", "100")]})
            chk.count("calls with caller objects")
            return w
        wm = step("materials", "set_materials", lambda w: w.m(w.o, "set_materials", *ms), w0)
        wu = step("uniform loads", "set_udls", lambda w: w.m(w.o, "set_udls", *us), w0)
        wl = step("line loads", "set_lls", lambda w: w.m(w.o, "set_lls", *ls), w0)
        # later calls, relative to the objects as the setters left them
        wa = wm.clone(); wa.m(wa.o, "set_udls", *us); wa.m(wa.o, "set_lls", *ls); wa.m(wa.o, "set_water_table", wa.s("wd"))
        wa.mats, wa.udls, wa.lls = ms, us, ls
        hook_intersections(wa); hook_planes(wa, 1); wa.m(wa.o, "update_analysis_options", slices=wa.s("n0", "int"), max_iterations=const(2))
        def later(tag, meth, f):
            w = wa.clone(); w.last = []; w.mats, w.udls, w.lls = list(ms), list(us), list(ls)
            f(w); chk.use(w.eng)
            heap.unchanged(chk, "caller-objects", tag if meth in ("analyse_slope", "_set_dynamic_offset") else "building and editing", wa, states(w), where_m(w, "Slope", meth), seed=chk.seed, n=n, ids=ids, what=f"changed by {meth}", keyf=keyf, dom={"off9": [Fraction(x) for x in ("0", "0.5", "3", "8", "30", "100")]})
            chk.count("calls with caller objects")
        # a dynamic line load alone: nothing else widens the model as it moves
        attempt(chk, "caller-objects", "moving dynamic loads", lambda: later("moving dynamic loads", "_set_dynamic_offset", lambda w: w.m(w.o, "_set_dynamic_offset", w.s("off9"))))
        if not udyn: return
        for e in edits.EDITS: attempt(chk, "caller-objects", e[0], lambda e=e: later(e[0], e[1], lambda w: edits.apply(w, e)))
        attempt(chk, "caller-objects", "analysis", lambda: later("analysis", "analyse_slope", lambda w: w.m(w.o, "analyse_slope")))
    attempt(chk, "caller-objects", "callers", callers)
    attempt(chk, "caller-objects", "dynamic line load", lambda: callers(False))
    # ---- a model made later
    def fresh():
        w0 = World(); chk.use(w0.eng)
        def make(w):
            o = w.new("Slope", height=w.s("height"), angle=NONE, length=w.s("length"))
            m = w.new("Material"); u = w.new("Udl", magnitude=w.s("q7")); l = w.new("LineLoad", magnitude=w.s("p7"))
            w.pos(sym("q7")); w.pos(sym("p7"))
            w.m(o, "set_materials", m); w.m(o, "set_udls", u); w.m(o, "set_lls", l)
            w.o = o
            return o
        a = w0.clone(); oa = make(a)
        b = w0.clone(); b.build("angle", mats=2, udls=("f", "c"), lls=1, water=True)
        hook_planes(b, 2); hook_fos(b, none=False)
        b.m(b.o, "update_boundary_options", MIN_EXT_L=b.s("ml"), MIN_EXT_H=b.s("mh")); b.m(b.o, "update_analysis_options", slices=b.s("n", "int"), iterations=b.s("it", "int"), min_failure_dist=b.s("md"), tolerance=b.s("tol"))
        b.m(b.o, "analyse_slope"); b.m(b.o, "plot_critical")
        ob = make(b)
        s = b.samples(chk.seed, n, tag="fresh"); m = 0
        for e in s.evs:
            x, y = concrete(a.st, oa, e), concrete(b.st, ob, e); m += 1
            d = pic_diff(x, y, "Slope")
            if d: chk.violate("later-models", "model after another was built, analysed and plotted", where_m(b, "Slope", "__init__"), f"{d[0]} is {heap._p(d[1])} in the first model of a program, {heap._p(d[2])} in a later one", e.env); return
        chk.agreed("later-models", "model after another", f"{m} assignments") if m else chk.undecided("later-models", "model after another", "no assignment")
    attempt(chk, "later-models", "fresh", fresh)

def param_names(w, cname):
    """constructor parameters of a class"""
    c = w.cls(cname)
    if c.dataclass: return [f[0] if isinstance(f, tuple) else f for f in c.fields]
    f = w.eng.class_attr(w.st, c, "__init__")
    if not isinstance(f, Func): raise Missing(f"{cname}.__init__")
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]
def reach(st, roots):
    """ids reachable from the roots through objects and containers"""
    out = set(); todo = list(roots)
    while todo:
        v = todo.pop()
        if isinstance(v, VIte): todo += [v.a, v.b]
        elif isinstance(v, VTuple): todo += v.items
        elif isinstance(v, Ref) and v.id not in out:
            out.add(v.id); r = st.heap.get(v.id)
            if isinstance(r, ObjRec): todo += r.fields.values()
            elif isinstance(r, ListRec): todo += [x for g, x in r.items]
            elif isinstance(r, DictRec): todo += [x for k, g, x in r.items] + [k for k, g, x in r.items]
    return out
