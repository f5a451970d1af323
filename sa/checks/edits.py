"""The public editing calls, with symbolic arguments."""
from .common import *

def K(**k): return lambda w: ((), {a: (b(w) if callable(b) else w.w(b)) for a, b in k.items()})
def S(nm, kind="real", pos=None):
    def f(w):
        v = w.s(nm, kind)
        if pos: w.st.assume(lt(ZERO, v) if pos == ">" else le(ZERO, v))
        return v
    return f
def newmat(i):
    def f(w):
        w.st.assume(lt(ZERO, sym(f"depth{i}"))); m = w.material(i); w.mats = getattr(w, "mats", []) + [m]
        w.extra_mats = getattr(w, "extra_mats", []) + [m]
        return (m,), {}
    return f
def newudl(i, cont=False):
    def f(w):
        u = w.udl(i, cont); w.udls = getattr(w, "udls", []) + [u]; return (u,), {}
    return f
def newll(i):
    def f(w):
        u = w.ll(i); w.lls = getattr(w, "lls", []) + [u]; return (u,), {}
    return f
def arg(attr, i):
    def f(w):
        l = getattr(w, attr, [])
        if not l: return (), {}
        return (l[i],), {}
    return f
def dropall(attr):
    def f(w): setattr(w, attr, []); return (), {"remove_all": TRUE}
    return f
# (label, method, argument maker)
EDITS = [
    ("geometry by length", "set_external_boundary", K(height=S("height9", pos=">"), angle=None, length=S("length9", pos=">="))),
    ("geometry by angle", "set_external_boundary", K(height=S("height9", pos=">"), angle=S("angle9"))),
    ("boundary minimums", "update_boundary_options", K(MIN_EXT_L=S("ml", pos=">"), MIN_EXT_H=S("mh", pos=">"))),
    ("material", "set_materials", newmat(7)),
    ("udl", "set_udls", newudl(7)),
    ("continuous udl", "set_udls", newudl(8, True)),
    ("line load", "set_lls", newll(7)),
    ("water table", "set_water_table", K(depth=S("wd9", pos=">="))),
    ("no water table", "remove_water_table", lambda w: ((), {})),
    ("automatic water factor", "update_water_analysis_options", K(auto=True)),
    ("given water factor", "update_water_analysis_options", K(auto=False, H=S("H9"))),
    ("analysis options", "update_analysis_options", K(slices=S("n", "int"), iterations=S("it", "int"), min_failure_dist=S("md"), tolerance=S("tol"))),
    ("remove udls", "remove_udls", dropall("udls")),
    ("remove line loads", "remove_lls", dropall("lls")),
    ("remove materials", "remove_material", dropall("mats")),
    ("remove one udl", "remove_udls", arg("udls", 0)),
    ("remove one line load", "remove_lls", arg("lls", 0)),
    ("remove one material", "remove_material", arg("mats", 0)),
    ("limits", "set_analysis_limits", K(left_x=S("x1"), left_x_right=S("x2"), right_x_left=S("x3"), right_x=S("x4"))),
    ("left limit", "set_analysis_limits", K(left_x=S("x1"))),
    ("inner left limit", "set_analysis_limits", K(left_x_right=S("x2"))),
    ("inner right limit", "set_analysis_limits", K(right_x_left=S("x3"))),
    ("right limit", "set_analysis_limits", K(right_x=S("x4"))),
    ("slices", "update_analysis_options", K(slices=S("n", "int"))),
    ("iterations", "update_analysis_options", K(iterations=S("it", "int"))),
    ("minimum failure distance", "update_analysis_options", K(min_failure_dist=S("md"))),
    ("tolerance", "update_analysis_options", K(tolerance=S("tol"))),
    ("iteration limit", "update_analysis_options", K(max_iterations=const(3))),
    ("no limits", "remove_analysis_limits", lambda w: ((), {})),
    ("circle", "add_single_circular_plane", lambda w: ((w.s("cx"), w.s("cy"), w.s("r")), {})),
    ("no individual planes", "remove_individual_planes", lambda w: ((), {})),
]
BY = {e[0]: e for e in EDITS}
def apply(w, e):
    a, k = e[2](w)
    return w.m(w.o, e[1], *a, **k)
