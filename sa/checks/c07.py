"""C07 one ground profile everywhere."""
from .common import *
from .slices import *

def elems(w, st, v, n):
    """entries of an array of known or symbolic length"""
    r = w.eng.arr(st, v)
    if r is None: raise Unsupported("not an array")
    if r.items is not None: return list(r.items)
    return [T.at(r.elem, const(i)) for i in range(n)]

def run(chk):
    chk.rule("y-lookup", "height at x: crest height up to the crest, linear to the toe, toe height beyond, nothing outside the model")
    chk.rule("x-lookup", "x at a height: on the face between toe and crest, nothing above the crest")
    chk.rule("inverse", "the two lookups are inverse on the slope face")
    chk.rule("slice-tops", "the slice tops both methods use are the ground profile at the slice middles, not below the slice base")
    n_ = 80 if chk.tier == "quick" else 400
    shapes = [("length", {}), ("angle", {}), ("both", {})]
    for by, kw in shapes:
        def one(by=by):
            w = World(); w.build(by); chk.use(w.eng)
            G = Geo(w); x = w.s("x"); y = w.s("y")
            wy, wx = where_m(w, "Slope", "get_external_y_intersection"), where_m(w, "Slope", "get_external_x_intersection")
            v = w.m(w.o, "get_external_y_intersection", x)
            s = w.samples(chk.seed, n_, tag=by, dom={"y": lambda r: Fraction(r.randint(-4, 120), 4)})
            chk.eq("y-lookup", f"Slope({by})", scalar(v), ite(or_(lt(x, ZERO), lt(G.M, x)), NONE, G.y(x)), s, where=wy, what="ground height")
            u = w.m(w.o, "get_external_x_intersection", y)
            face = add(G.tx, div(sub(G.ty, y), G.grad))
            chk.eq("x-lookup", f"Slope({by}) on the face", scalar(u), face, s, guard=[le(G.by, y), le(y, G.ty)], where=wx, what="x of the ground")
            chk.eq("x-lookup", f"Slope({by}) above the crest", scalar(u), NONE, s, guard=[lt(G.ty, y)], where=wx, what="x of the ground")
            t = w.s("t"); w.st.assume(lt(ZERO, t)); w.st.assume(lt(t, ONE))
            xx = add(G.tx, mul(t, sub(G.bx, G.tx)))
            s = w.samples(chk.seed, n_, tag=by + "t", dom={"t": [Fraction(k, 16) for k in range(1, 16)]})
            w2 = w.clone()
            back = w2.m(w2.o, "get_external_x_intersection", scalar(w2.m(w2.o, "get_external_y_intersection", xx)))
            chk.eq("inverse", f"Slope({by}) x of height of x", scalar(back), xx, s, where=wx)
            yy = add(G.by, mul(t, sub(G.ty, G.by)))
            w2 = w.clone()
            back = w2.m(w2.o, "get_external_y_intersection", scalar(w2.m(w2.o, "get_external_x_intersection", yy)))
            chk.eq("inverse", f"Slope({by}) height of x of height", scalar(back), yy, s, where=wy)
            for nm, p, q in (("crest", G.tx, G.ty), ("toe", G.bx, G.by)):
                chk.eq("inverse", f"Slope({by}) height at the {nm}", scalar(w.m(w.o, "get_external_y_intersection", p)), q, s, where=wy)
                chk.eq("inverse", f"Slope({by}) x at the {nm} height", scalar(w.m(w.o, "get_external_x_intersection", q)), p, s, where=wx)
            chk.count("ground profiles")
        attempt(chk, "y-lookup", f"Slope({by})", one)
    def tops(meth, by, loads_, N):
        tag = f"{meth} Slope({by})" + (" loads and water" if loads_ else "") + ("" if N else ", n slices")
        w = World(); w.build(by, mats=1, udls=("f",) if loads_ else (), lls=1 if loads_ else 0, water=loads_); chk.use(w.eng)
        n = const(N) if N else w.s("n", "int")
        if not N: w.st.assume(le(const(10), n)); w.st.assume(le(n, const(500)))
        w.m(w.o, "update_analysis_options", slices=n, max_iterations=1)
        c = circle(w)
        got = []
        need(w, "Slope", "_calculate_strip_weights")
        def h(eng, st, fn, recv, args, kw, node):
            d = call_args(fn, args, kw)
            got.append((st.clone(), d, eng.here(node)))
            r = eng.arr(st, d.get("s_yt"))
            if r is None: raise Unsupported("slice tops are not an array")
            return eng.new(st, ArrRec([ONE] * len(r.items))) if r.items is not None else eng.new(st, ArrRec(None, r.n, ONE))
        w.eng.hooks["Slope._calculate_strip_weights"] = h
        run_method(w, meth, c); chk.use(w.eng)
        if not got: raise Missing(f"{meth} computes no slice weights")
        for k, (st, d, loc) in enumerate(got):
            if "s_yt" not in d or "s_yb" not in d: raise Missing("s_yt/s_yb")
            dom = dict(GDOM); dom["n"] = [10, 11, 13]
            smp = Samples(set(w.syms), [p for p, soft in st.pc], chk.seed, n_, dom, 4000, tag)
            cnt = N or 10
            tops_, bases = elems(w, st, d["s_yt"], cnt), elems(w, st, d["s_yb"], cnt)
            if len(tops_) != cnt: chk.violate("slice-tops", tag, where_m(w, "Slope", meth), f"{len(tops_)} slices instead of {cnt}"); continue
            for i in (range(cnt) if N else (0, 1, 4, 9)):
                S = slices(w, c[0], c[2], c[4], c[5], c[6], n, const(i))
                chk.eq("slice-tops", f"{tag}: top of slice {i} (call {k})", tops_[i], S["yt"], smp, where=where_m(w, "Slope", meth), what="slice top", tol=1e-6, prove_it=False)
                chk.eq("slice-tops", f"{tag}: base of slice {i} (call {k})", bases[i], S["yb"], smp, where=where_m(w, "Slope", meth), what="slice base", tol=1e-6, prove_it=False)
        chk.count("slice constructions", len(got))
    for meth in (ORDINARY, BISHOP):
        for by, l, N in (("length", False, None), ("angle", False, 10), ("length", True, None)):
            attempt(chk, "slice-tops", f"{meth} {by} {l}", lambda meth=meth, by=by, l=l, N=N: tops(meth, by, l, N))
