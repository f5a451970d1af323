"""C10 Bishop's method of slices."""
from .common import *
from .slices import *

def run(chk):
    chk.rule("ordinary", "the starting value equals sum(c l + max(0, W cos a - U) tan phi) / sum(W sin a), absent when a slice lies outside the circle or the driving sum is not positive")
    chk.rule("bishop", "after each iteration the value is sum((c b + (W - U) tan phi) / (cos a + sin a tan phi / F)) / sum(W sin a); it is returned when it changes by less than the tolerance or the iterations are used up")
    chk.rule("intersections", "without given end points the slices run between the circle's two ground intersections")
    def one(meth, mats, udls, lls, water, N, iters, H=None, ends=True, by="length", dom=None, prep=None):
        w, v, spec, s, tag, R, c = fos_pair(chk, meth, mats, udls, lls, water, N, iters, H, ends, by, dom={**(dom or {}), **(lim if prep else {})}, prep=prep)
        if dom: tag += ", soil without strength"
        if prep: tag += ", " + prep.__doc__
        rule = "intersections" if not ends else "ordinary" if meth == ORDINARY else "bishop"
        chk.eq(rule, f"{meth}: {tag} ({by})", v, spec, s, where=where_m(w, "Slope", meth), what="factor of safety", tol=1e-5, prove_it=N is None)
        got = sum(1 for e in s.evs if isinstance(e(v), (int, float, Fraction)) and not isinstance(e(v), bool))
        chk.count("assignments with a factor of safety", got); chk.count("methods compared")
    Q_ = [(ORDINARY, 1, (), 0, False, None, 0), (ORDINARY, 2, (), 0, True, None, 0), (ORDINARY, 0, (), 0, False, None, 0), (ORDINARY, 2, ("f",), 1, True, None, 0), (ORDINARY, 1, (), 0, True, None, 0, True),
          (ORDINARY, 1, (), 0, True, 10, 0), (BISHOP, 1, (), 0, False, None, 1), (BISHOP, 1, (), 0, False, None, 0), (BISHOP, 2, (), 0, True, None, 1), (BISHOP, 2, (), 0, True, None, 2), (BISHOP, 1, (), 0, True, None, 1, True), (BISHOP, 0, (), 0, False, None, 2),
          (BISHOP, 2, ("f",), 1, True, None, 3), (BISHOP, 1, (), 0, True, 10, 1), (BISHOP, 1, (), 0, True, None, 2, True, False), (ORDINARY, 1, (), 0, True, None, 0, True, False), (BISHOP, 1, (), 0, True, None, 1, None, True, "angle")]
    if chk.tier == "thorough":
        for m in (ORDINARY, BISHOP):
            for k in (1, 2, 3):
                for u, l in (((), 0), (("f", "c"), 0), (("f",), 2)):
                    for wt in (False, True): Q_.append((m, k, u, l, wt, None, 0 if m == ORDINARY else 4, wt))
    for a in Q_: attempt(chk, "bishop", str(a), lambda a=a: one(*a))
    # settings of the search do not enter the value of a circle; soil without any strength has a factor of 0
    def searched(w):
        "limits and other planes set"
        w.m(w.o, "set_analysis_limits", **{nm: w.s("y%d" % i) for i, nm in enumerate(("left_x", "left_x_right", "right_x_left", "right_x"), 1)})
        w.m(w.o, "update_analysis_options", min_failure_dist=w.s("md"), iterations=w.s("it", "int"))
    none = {"phi1": [Fraction(0)], "coh1": [Fraction(0)], "rx": GDOM["rx"]}
    lim = {f"y{i}": [Fraction(x) for x in v] for i, v in ((1, ("0", "3", "4.5", "5")), (2, ("6", "7.5", "8")), (3, ("9", "11", "12")), (4, ("13", "15", "25")))}
    for m, it in ((ORDINARY, 0), (BISHOP, 1), (BISHOP, 2)):
        attempt(chk, "bishop", f"{m} no strength", lambda m=m, it=it: one(m, 1, (), 0, False, None, it, dom=none))
        if it < 2: attempt(chk, "bishop", f"{m} limits", lambda m=m, it=it: one(m, 2, ("f",), 1, True, None, it, prep=searched))
