"""C09 every surface load acts exactly once."""
from .common import *
from .slices import *

def run(chk):
    chk.rule("loads", "the value with loads equals the formula in which every slice carries pressure x overlap of each uniform load and each line load whose position lies in [left edge, right edge)")
    def one(meth, udls, lls, N, iters, by="length", dom=None, moved=None):
        if agrees(chk, meth, iters) is not True:
            chk.undecided("loads", f"{meth} {udls} {lls}", "the method differs from the formula without loads already (reported by C10)"); return
        w, v, spec, s, tag, R, c = fos_pair(chk, meth, 1, udls, lls, False, N, iters, by=by, dom=dom, prep=moved)
        if moved: tag += ", " + moved.__doc__
        tag += f" ({by})"
        chk.eq("loads", f"{meth}: {tag}", v, spec, s, where=where_m(w, "Slope", meth), what="factor of safety with loads", tol=1e-6, prove_it=False)
        chk.count("load configurations")
        k = 0
        for e in s.evs:
            x = e(v)
            if isinstance(x, (int, float, Fraction)) and not isinstance(x, bool): k += 1
        chk.count("assignments with a factor of safety", k)
    # loads reach into the slices: keep offsets small, slices crossing the crest
    near_ = {"off1": [Fraction(x, 4) for x in range(0, 12)], "off2": [Fraction(x, 4) for x in range(0, 16)], "len1": [Fraction(x, 4) for x in range(1, 12)], "len2": [Fraction(1), Fraction(5, 2), Fraction(4)],
             "off1'": [Fraction(x, 4) for x in range(0, 12)], "off2'": [Fraction(x, 4) for x in range(0, 12)]}
    def geom(w):
        "geometry changed afterwards"
        w.m(w.o, "set_external_boundary", height=w.s("height9"), length=w.s("length9"), angle=None)
    near_["height9"] = GDOM["height"]; near_["length9"] = GDOM["length"]
    def limits(w):
        "analysis limits set"
        w.m(w.o, "set_analysis_limits", **{nm: w.s("y%d" % i) for i, nm in enumerate(("left_x", "left_x_right", "right_x_left", "right_x"), 1)})
    near_.update({f"y{i}": [Fraction(x) for x in v] for i, v in ((1, ("0", "3", "4.5", "5")), (2, ("6", "7.5", "8")), (3, ("9", "11", "12")), (4, ("13", "15", "25")))})
    Q_ = []
    for m, it in ((ORDINARY, 0), (BISHOP, 1)):
        Q_ += [(m, ("f",), 0, None, it), (m, ("c",), 0, None, it), (m, (), 1, None, it), (m, ("f", "f"), 0, None, it), (m, ("f", "c"), 1, None, it), (m, (), 2, None, it), (m, (), 1, 10, it), (m, ("f",), 0, 10, it), (m, ("f",), 1, None, it, "angle"), (m, ("f",), 1, None, it, "length", geom), (m, ("f",), 1, None, it, "length", limits), (m, ("f", "f", "c", "f"), 3, None, it)]
    if chk.tier == "thorough":
        for m, it in ((ORDINARY, 0), (BISHOP, 2)):
            Q_ += [(m, ("f", "f", "c"), 2, None, it), (m, ("c", "c"), 1, None, it), (m, ("f", "f"), 2, 10, it), (m, (), 3, None, it)]
    for a in Q_: attempt(chk, "loads", str(a[:5]), lambda a=a: one(*a[:6], dom=near_, moved=a[6] if len(a) > 6 else None))
    # line loads exactly on slice edges: crest - offset on the boundary between two slices
    def edge(meth, it, j):
        if agrees(chk, meth, it) is not True: raise Unsupported("the method differs from the formula without loads already (reported by C10)")
        N = 10
        w, v, spec, s, tag, R, c = fos_pair(chk, meth, 1, (), 1, False, N, it, dom={"off1'": [Fraction(x, 2) for x in range(0, 8)]}, n_=5)
        G = Geo(w)
        # choose the right end so that edge j of the slices is at the load
        w.st.assume(eq(add(sym("lx"), mul(const(j), div(sub(sym("rx"), sym("lx")), const(N)))), sub(G.tx, sym("off1'"))))
        dom = dict(GDOM); dom["off1'"] = [Fraction(x, 2) for x in range(0, 8)]
        base = Samples(set(w.syms), w.pc()[:-1], chk.seed, 60, dom, 4000, f"edge{j}")
        evs = []
        p = s.pc[-1] if False else w.pc()[-1]
        for e in base.evs:
            # exact solution for rx
            tx = e(sub(G.tx, sym("off1'"))); lx = e(sym("lx"))
            if not isinstance(tx, (int, Fraction)) or j == 0 or tx <= lx: continue
            rx = lx + (tx - lx) * N / j
            x = base.admit({**e.env, "rx": Fraction(rx)})
            if x is not None: evs.append(x)
        base.evs = evs[:20]; base.pc = w.pc()
        chk.count("line loads on a slice edge", len(base.evs))
        chk.eq("loads", f"{meth}: line load exactly on edge {j} of {N} slices", v, spec, base, where=where_m(w, "Slope", meth), what="factor of safety with the load on a slice edge", tol=1e-6, prove_it=False)
    for m, it in ((ORDINARY, 0), (BISHOP, 1)):
        for j in ((2, 5) if chk.tier == "quick" else (1, 2, 3, 5, 7, 9)):
            attempt(chk, "loads", f"{m} edge {j}", lambda m=m, it=it, j=j: edge(m, it, j))
