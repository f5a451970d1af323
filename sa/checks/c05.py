"""C05 options clamped."""
from .common import *

def run(chk):
    chk.rule("clamp", "after the call the option lies in its range; a value inside the range is stored as given, one outside becomes the nearest bound")
    chk.rule("keep", "an option not given (or given as None / 0 where that means 'not given') keeps its value")
    chk.rule("range", "the option lies in its range after the constructor and after every other public editing call")
    wh = lambda w, m: where_m(w, "Slope", m)
    n = 80 if chk.tier == "quick" else 400
    dom = {"sl": [-5, 0, 1, 9, 10, 11, 25, 499, 500, 501, 2000], "it": [-5, 0, 1, 499, 500, 501, 1000, 99999, 100000, 100001, 500000],
           "md": [Fraction(x) for x in ("-1", "0", "1", "5", "8.9", "9", "9.1", "12", "20", "50", "100")], "H": [Fraction(x) for x in ("-5", "-0.1", "0", "0.001", "0.3", "1", "1.0001", "7", "100")],
           "H'": [Fraction(x) for x in ("-5", "-0.1", "0", "0.001", "0.3", "1", "1.0001", "7", "100")]}
    cl = lambda x, lo, hi: max_(min_(x, const(hi)), const(lo))
    def opts(first):
        w = World(); w.slope("length"); chk.use(w.eng)
        if first:
            w.m(w.o, "update_analysis_options", slices=w.s("sl0", "int"), iterations=w.s("it0", "int"), min_failure_dist=w.s("md0"))
        before = {k: field(w, w.o, k) for k in ("_slices", "_iterations", "_min_failure_distance", "_tolerance", "_max_iterations")}
        sl, it, md, tol, mi = w.s("sl", "int"), w.s("it", "int"), w.s("md"), w.s("tol"), w.s("mi", "int")
        base = w.clone()
        w.m(w.o, "update_analysis_options", slices=sl, iterations=it, min_failure_dist=md, tolerance=tol, max_iterations=mi)
        d2 = dict(dom); d2.update({"sl0": dom["sl"], "it0": dom["it"], "md0": dom["md"]})
        s = w.samples(chk.seed, n, dom=d2, tag=f"opts{first}")
        t = "after an edit" if first else "new model"
        W = wh(w, "update_analysis_options")
        f = lambda k: field(w, w.o, k)
        lim = mul(field(w, w.o, "_external_length"), Q("0.9"))
        chk.eq("clamp", f"{t}/slices", f("_slices"), ite(eq(sl, ZERO), before["_slices"], cl(sl, 10, 500)), s, where=W)
        chk.eq("clamp", f"{t}/iterations", f("_iterations"), ite(eq(it, ZERO), before["_iterations"], cl(it, 500, 100000)), s, where=W)
        chk.eq("clamp", f"{t}/min_failure_dist", f("_min_failure_distance"), min_(md, lim), s, where=W)
        chk.eq("clamp", f"{t}/tolerance", f("_tolerance"), tol, s, where=W)
        chk.eq("clamp", f"{t}/max_iterations", f("_max_iterations"), mi, s, where=W)
        chk.count("setter states")
        # each option alone: the others keep their values
        for kw, fld in (("slices", "_slices"), ("iterations", "_iterations"), ("min_failure_dist", "_min_failure_distance"), ("tolerance", "_tolerance"), ("max_iterations", "_max_iterations")):
            w2 = base.clone()
            v = {"slices": sl, "iterations": it, "min_failure_dist": md, "tolerance": tol, "max_iterations": mi}[kw]
            w2.m(w2.o, "update_analysis_options", **{kw: v})
            s2 = w2.samples(chk.seed, n // 2, dom=d2, tag=f"only{kw}")
            for k, b in before.items():
                if k != fld: chk.eq("keep", f"{t}/{k} when only {kw} is given", field(w2, w2.o, k), b, s2, where=W)
            chk.count("setter states")
        w3 = base.clone(); w3.m(w3.o, "update_analysis_options")
        s3 = w3.samples(chk.seed, n // 2, dom=d2, tag="none")
        for k, b in before.items(): chk.eq("keep", f"{t}/{k} when nothing is given", field(w3, w3.o, k), b, s3, where=W)
    for first in (False, True): attempt(chk, "clamp", "update_analysis_options", lambda first=first: opts(first))
    def water():
        w = World(); w.slope("length"); chk.use(w.eng)
        H = w.s("H"); W = wh(w, "update_water_analysis_options")
        w.m(w.o, "update_water_analysis_options", auto=False, H=H)
        s = w.samples(chk.seed, n, dom=dom, tag="H")
        chk.eq("clamp", "water factor", field(w, w.o, "_water_analysis_H"), max_(min_(H, ONE), ZERO), s, where=W)
        w.m(w.o, "update_water_analysis_options", auto=True)
        v = field(w, w.o, "_water_analysis_H")
        s = w.samples(chk.seed, n, dom=dom, tag="Ha")
        chk.holds("range", "automatic water factor", and_(le(ZERO, v), le(v, ONE)), s, where=W)
        # geometry edits keep a factor given by the user and keep an automatic one in range
        for auto in (True, False):
            w = World(); w.slope("length"); chk.use(w.eng)
            if not auto: w.m(w.o, "update_water_analysis_options", auto=False, H=w.s("H"))
            b = field(w, w.o, "_water_analysis_H")
            w.m(w.o, "set_external_boundary", height=w.s("height'"), length=w.s("length'"), angle=None)
            s = w.samples(chk.seed, n, dom=dom, tag="Hg")
            v = field(w, w.o, "_water_analysis_H")
            chk.holds("range", f"water factor after new geometry (auto={auto})", and_(le(ZERO, v), le(v, ONE)), s, where=wh(w, "set_external_boundary"))
            if not auto: chk.eq("keep", "water factor given by the user after new geometry", v, b, s, where=wh(w, "set_external_boundary"))
            chk.count("setter states")
    attempt(chk, "clamp", "water", water)
    # range after constructor and after every other edit: options untouched
    def others():
        W0 = World(); W0.slope("length"); chk.use(W0.eng)
        W0.m(W0.o, "update_analysis_options", slices=W0.s("sl", "int"), iterations=W0.s("it", "int"), min_failure_dist=W0.s("md"), tolerance=W0.s("tol"), max_iterations=W0.s("mi", "int"))
        def inr(w, tag, who):
            s = w.samples(chk.seed, n // 2, dom=dom, tag=tag)
            f = lambda k: field(w, w.o, k)
            chk.holds("range", f"{tag}/slices", and_(le(const(10), f("_slices")), le(f("_slices"), const(500))), s, where=wh(w, who))
            chk.holds("range", f"{tag}/iterations", and_(le(const(500), f("_iterations")), le(f("_iterations"), const(100000))), s, where=wh(w, who))
            chk.holds("range", f"{tag}/water factor", and_(le(ZERO, f("_water_analysis_H")), le(f("_water_analysis_H"), ONE)), s, where=wh(w, who))
        for by in ("length", "angle", "both"):
            w = World(); w.slope(by); chk.use(w.eng); inr(w, f"constructor({by})", "__init__")
            v = field(w, w.o, "_min_failure_distance")
            s = w.samples(chk.seed, n // 2, tag="c" + by)
            chk.holds("range", f"constructor({by})/min_failure_dist", le(v, mul(Q("0.9"), field(w, w.o, "_external_length"))), s, where=wh(w, "__init__"))
        edits = {"set_external_boundary": lambda w: w.m(w.o, "set_external_boundary", height=w.s("height'"), length=w.s("length'"), angle=None),
                 "set_water_table": lambda w: w.m(w.o, "set_water_table", w.s("wd")),
                 "remove_water_table": lambda w: w.m(w.o, "remove_water_table"),
                 "set_materials": lambda w: w.materials(2), "set_udls": lambda w: w.loads(("f",), 0), "set_lls": lambda w: w.loads((), 1),
                 "remove_udls": lambda w: w.m(w.o, "remove_udls", remove_all=True), "remove_lls": lambda w: w.m(w.o, "remove_lls", remove_all=True),
                 "remove_material": lambda w: w.m(w.o, "remove_material", remove_all=True),
                 "update_boundary_options": lambda w: w.m(w.o, "update_boundary_options", MIN_EXT_L=w.s("ml"), MIN_EXT_H=w.s("mh")),
                 "set_analysis_limits": lambda w: w.m(w.o, "set_analysis_limits", left_x=w.s("x1"), right_x=w.s("x2")),
                 "remove_analysis_limits": lambda w: w.m(w.o, "remove_analysis_limits"),
                 "add_single_circular_plane": lambda w: w.m(w.o, "add_single_circular_plane", w.s("x1"), w.s("x2"), w.s("r")),
                 "remove_individual_planes": lambda w: w.m(w.o, "remove_individual_planes")}
        for name, f in edits.items():
            def one(name=name, f=f):
                w = W0.clone(); f(w); chk.count("editing calls"); chk.use(w.eng)
                inr(w, name, name)
                if name != "set_external_boundary" and name != "update_boundary_options":
                    for k in ("_slices", "_iterations", "_min_failure_distance", "_tolerance", "_max_iterations"):
                        s = w.samples(chk.seed, 20, dom=dom, tag="k" + name)
                        chk.eq("keep", f"{k} after {name}", field(w, w.o, k), field(W0, W0.o, k), s, where=wh(w, name))
            attempt(chk, "range", name, one)
        # minimum failure distance against the current model length
        for name in ("set_external_boundary", "update_boundary_options", "set_udls"):
            def one(name=name):
                w = W0.clone(); edits[name](w)
                s = w.samples(chk.seed, n, dom=dom, tag="md" + name)
                chk.holds("range", f"{name}/min_failure_dist", le(field(w, w.o, "_min_failure_distance"), mul(Q("0.9"), field(w, w.o, "_external_length"))), s, where=wh(w, name))
            attempt(chk, "range", name, one)
    attempt(chk, "range", "editing calls", others)
