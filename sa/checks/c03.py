"""C03 a rejected edit leaves the model unchanged."""
from .common import *

def rich(w, thorough=False):
    w.build("length", mats=2, udls=("f", "c") if thorough else ("f",), lls=1, water=True)
    return w

def run(chk):
    chk.rule("atomic", "at every point where the editing call raises, every object reachable from the model and from the arguments equals what it was on entry (results excepted)")
    n = 60 if chk.tier == "quick" else 300
    new = lambda w, c, **k: w.new(c, **k)
    S = lambda nm, kind="real": (lambda w: w.s(nm, kind))
    ops = []
    def op(meth, tag, mk): ops.append((meth, tag, mk))
    kw = lambda **k: (lambda w: ((), {a: (b(w) if callable(b) else b) for a, b in k.items()}))
    op("set_external_boundary", "height,angle", kw(height=S("x1"), angle=S("x2")))
    op("set_external_boundary", "height,length", kw(height=S("x1"), angle=None, length=S("x2")))
    op("set_external_boundary", "all", kw(height=S("x1"), angle=S("x2"), length=S("x3")))
    op("set_external_boundary", "height only", kw(height=S("x1"), angle=None))
    op("set_external_boundary", "text height", kw(height="a", angle=30))
    op("set_external_boundary", "None height", kw(height=None, angle=S("x1")))
    op("set_external_boundary", "text length", kw(height=S("x1"), angle=None, length="a"))
    op("set_water_table", "depth", kw(depth=S("x1")))
    op("set_water_table", "text", kw(depth="2"))
    op("update_boundary_options", "both", kw(MIN_EXT_L=S("x1"), MIN_EXT_H=S("x2")))
    op("update_boundary_options", "good length, text height", kw(MIN_EXT_L=S("x1"), MIN_EXT_H="a"))
    op("update_boundary_options", "text length, good height", kw(MIN_EXT_L="a", MIN_EXT_H=S("x1")))
    op("update_water_analysis_options", "text", kw(auto=False, H="a"))
    op("update_water_analysis_options", "None", kw(auto=False, H=None))
    op("set_analysis_limits", "all", kw(left_x=S("x1"), left_x_right=S("x2"), right_x_left=S("x3"), right_x=S("x4")))
    op("set_analysis_limits", "outer", kw(left_x=S("x1"), right_x=S("x2")))
    op("set_analysis_limits", "good then text", kw(left_x=S("x1"), right_x="a"))
    op("set_analysis_limits", "inner", kw(left_x_right=S("x1"), right_x_left=S("x2")))
    def mats(*spec):
        def f(w):
            out = []
            for s in spec:
                if isinstance(s, int): out.append(w.material(s, depth=w.s(f"depth{s}")))
                elif s == "udl": out.append(w.new("Udl", magnitude=const(2)))
                else: out.append(const(s))
            return tuple(out), {}
        return f
    for g in (("left_x",), ("left_x_right",), ("right_x_left",), ("right_x",), ("left_x", "left_x_right"), ("right_x_left", "right_x"), ("left_x_right", "right_x")):
        op("set_analysis_limits", "+".join(g), kw(**{nm: S(f"x{i + 1}") for i, nm in enumerate(g)}))
    op("set_analysis_limits", "text inner", kw(left_x=S("x1"), left_x_right="a"))
    op("set_materials", "two new, any depth", mats(3, 4))
    op("set_materials", "new then text", mats(3, "clay"))
    op("set_materials", "text then new", mats("clay", 3))
    op("set_materials", "new then load", mats(3, "udl"))
    op("set_materials", "one new", mats(3))
    op("set_materials", "number", lambda w: ((const(4),), {}))
    op("update_analysis_options", "good slices, text iterations", kw(slices=S("n", "int"), iterations="a"))
    op("update_analysis_options", "text slices", kw(slices="a", iterations=S("n", "int")))
    op("update_analysis_options", "good, text distance", kw(slices=S("n", "int"), iterations=S("n", "int"), min_failure_dist="a"))
    op("remove_material", "no depth attribute", kw(material="clay"))
    op("remove_udls", "not a load", lambda w: ((const("x"),), {}))
    op("remove_lls", "not a load", lambda w: ((const("x"),), {}))
    op("add_single_circular_plane", "circle", lambda w: ((w.s("x1"), w.s("x2"), w.s("r")), {}))
    op("add_single_circular_plane", "text", lambda w: ((const("a"), w.s("x2"), w.s("r")), {}))
    op("add_single_entry_exit_plane", "text", lambda w: ((const("a"), w.s("x2")), {}))
    total = 0
    known = _findings(chk)
    def configured(w):
        """limits, options, an individual plane and results as a user may have left them"""
        rich(w, chk.tier == "thorough")
        w.m(w.o, "update_analysis_options", slices=const(30), min_failure_dist=w.s("md"))
        w.m(w.o, "update_water_analysis_options", auto=const(False), H=w.s("H"))
        w.m(w.o, "set_analysis_limits", **{nm: w.s("y%d" % i) for i, nm in enumerate(("left_x", "left_x_right", "right_x_left", "right_x"), 1)})
        hook_intersections(w)
        w.m(w.o, "add_single_circular_plane", *[w.s(x) for x in ("cxa", "cya", "ra")])
    for meth, tag0, mk, conf in [x + (c,) for x in ops for c in (False, True)]:
        tag = tag0 + (", configured model" if conf else "")
        def one(meth=meth, tag=tag, mk=mk, conf=conf):
            nonlocal total
            w = World()
            if conf: configured(w)
            else: rich(w, chk.tier == "thorough")
            a, k = mk(w)
            a = [w.w(x) for x in a]; k = {x: w.w(y) for x, y in k.items()}
            pre = w.st.clone()
            roots = [("slope", w.o)] + [(f"argument {i}", x) for i, x in enumerate(a) if isinstance(x, Ref)]
            w.raises.clear()
            w.m(w.o, meth, *a, **k)
            chk.use(w.eng); chk.count("editing calls")
            for s, exc, _ in w.last:
                total += 1; chk.count("raise points")
                smp = Samples(set(w.syms), [c for c, soft in s.pc if not soft], chk.seed, n // 3, None, 150 if chk.tier == "quick" else 1500, meth + tag)
                c = f"{meth}({tag}) raising {exc.cls} in {exc.fn}"
                same_states(chk, "atomic", c, w.eng, pre, s, roots, smp, where=f"{exc.where()}", what="changed although the edit was rejected", skip=RESULTS)
        attempt(chk, "atomic", f"{meth}({tag})", one)
def _findings(chk): return None
