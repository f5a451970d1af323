"""C16 trial planes are circles through their end points."""
from .common import *
from .slices import GDOM, Geo

def pts_of(w, v):
    """[(guard, x, y)] of a list of points"""
    out = []
    for g, p in w.items(v):
        for g2, q in alts(p, g):
            it = w.items(q)
            out.append((g2, scalar(it[0][1]), scalar(it[1][1])))
    return out
sq = lambda x: mul(x, x)

def run(chk):
    chk.rule("on-circle", "every intersection point lies on the circle")
    chk.rule("on-line", "every intersection point lies on the segment's line / on the ground surface inside the model")
    chk.rule("how-many", "a line farther away than the radius is met in no point, a nearer one in two different points")
    chk.rule("through-ends", "every circle tried for an entry and an exit point passes through both")
    chk.rule("above-chord", "the centre of every trial circle is above the chord")
    chk.rule("distinct", "as many circles as requested are tried, no two alike, and each stored plane carries its own circle and that circle's first two ground intersections")
    n_ = 60 if chk.tier == "quick" else 300
    gen = {k: (lambda r: Fraction(r.randint(-40, 80), 4)) for k in ("ax", "ay", "bx", "by", "cx", "cy")}
    gen["rad"] = lambda r: Fraction(r.randint(1, 80), 4)
    def line(kind):
        w = World(); chk.use(w.eng)
        u = w.eng.load("pyslope.utilities"); ns = w.eng.base.heap[u.env.id].vars
        f = ns.get("cirle_line_intersection")
        if f is None: raise Missing("utilities.cirle_line_intersection")
        w.st = w.eng.base.clone()
        ax, ay, bx, by, cx, cy, r = [w.s(x) for x in ("ax", "ay", "bx", "by", "cx", "cy", "rad")]
        if kind == "level": by = ay
        if kind == "falling": w.st.assume(lt(by, ay))
        if kind == "rising": w.st.assume(lt(ay, by))
        w.st.assume(lt(ax, bx)); w.st.assume(lt(ZERO, r))
        v = w.call(f, VTuple([ax, ay]), VTuple([bx, by]), cx, cy, r)
        chk.use(w.eng)
        s = w.samples(chk.seed, n_, dom=gen, tag=kind)
        wh = "pyslope/utilities.py:%d cirle_line_intersection" % f.node.lineno
        ps = [(g2, q) for g, q in alts(v)] if False else None
        tot = ZERO; lists = list(alts(v))
        d2 = div(sq(sub(mul(sub(bx, ax), sub(ay, cy)), mul(sub(ax, cx), sub(by, ay)))), add(sq(sub(bx, ax)), sq(sub(by, ay))))
        for g0, l in lists:
            P = [(and_(g0, g), x, y) for g, x, y in pts_of(w, l)]
            for i, (g, x, y) in enumerate(P):
                chk.eq("on-circle", f"{kind} line, point {i} of {len(P)}", add(sq(sub(x, cx)), sq(sub(y, cy))), sq(r), s, guard=[g], where=wh, what="squared distance from the centre", prove_it=False)
                chk.eq("on-line", f"{kind} line, point {i} of {len(P)}", mul(sub(x, ax), sub(by, ay)), mul(sub(y, ay), sub(bx, ax)), s, guard=[g], where=wh, what="offset from the line", tol=1e-6, prove_it=False)
                tot = add(tot, ite(g, ONE, ZERO))
            if len(P) == 2: chk.holds("how-many", f"{kind} line, different points", lt(Q("0.0000001"), add(sq(sub(P[0][1], P[1][1])), sq(sub(P[0][2], P[1][2])))), s, guard=[P[0][0], P[1][0], lt(add(d2, Q("0.01")), sq(r))], where=wh, what="the two intersections coincide", prove_it=False)
        chk.eq("how-many", f"{kind} line, too far away", tot, ZERO, s, guard=[lt(add(sq(r), Q("0.000001")), d2)], where=wh, what="number of intersections", prove_it=False)
        chk.eq("how-many", f"{kind} line, cut", tot, const(2), s, guard=[lt(add(d2, Q("0.000001")), sq(r))], where=wh, what="number of intersections", prove_it=False)
        chk.count("line kinds")
    for k in ("level", "falling", "rising"): attempt(chk, "on-circle", k, lambda k=k: line(k))

    def planes(num, via, miss=()):
        w = World(); w.slope("length"); chk.use(w.eng)
        need(w, "Slope", "_generate_planes", "_get_circle_external_intersection")
        lx, rx = w.s("lx"), w.s("rx")
        w.st.assume(lt(lx, rx))
        circ = []
        def h(eng, st, fn, recv, args, kw, node):
            d = call_args(fn, args, kw); i = len(circ)
            circ.append((st.clone(), d))
            if i in miss: return eng.list_of(st, [VTuple([w.s(f"ix{i}"), w.s(f"iy{i}")])] if i % 2 else [])
            return eng.list_of(st, [VTuple([w.s(f"ix{i}"), w.s(f"iy{i}")]), VTuple([w.s(f"jx{i}"), w.s(f"jy{i}")]), VTuple([w.s(f"kx{i}"), w.s(f"ky{i}")])])
        w.eng.hooks["Slope._get_circle_external_intersection"] = h
        tag = f"{num} circles, {via}" + (f", not crossing: {sorted(miss)}" if miss else "")
        if via == "direct":
            ly, ry = w.s("ly"), w.s("ry"); w.st.assume(le(ry, ly))
            v = w.m(w.o, "_generate_planes", VTuple([lx, ly]), VTuple([rx, ry]), num)
        else:
            G = Geo(w)
            w.st.assume(le(ZERO, lx)); w.st.assume(le(rx, G.M)); w.st.assume(lt(lx, G.bx)); w.st.assume(lt(G.tx, rx))
            ly, ry = G.y(lx), G.y(rx)
            w.m(w.o, "add_single_entry_exit_plane", lx, rx, num)
            v = field(w, w.o, "_individual_planes")
        chk.use(w.eng)
        wh = where_m(w, "Slope", "_generate_planes")
        dom = dict(GDOM); dom.update({"ly": [Fraction(x) for x in (8, 10, "12.5")], "ry": [Fraction(x) for x in (1, 3, 8)], "lx": [Fraction(x, 4) for x in range(0, 40)], "rx": [Fraction(x, 4) for x in range(8, 80)]})
        s = w.samples(chk.seed, n_, dom=dom, tag=tag)
        if len(circ) != num: chk.violate("distinct", f"{tag}: number", wh, f"{len(circ)} circles tried instead of {num}")
        else: chk.ok("distinct", f"{tag}: number", "calls counted on the only path")
        cs = []
        for i, (st, d) in enumerate(circ):
            cx, cy, r = d["c_x"], d["c_y"], d["radius"]; cs.append((cx, cy, r))
            for nm, px, py in (("entry", lx, ly), ("exit", rx, ry)):
                chk.eq("through-ends", f"{tag}: circle {i}, {nm}", add(sq(sub(px, cx)), sq(sub(py, cy))), sq(r), s, where=wh, what=f"squared distance of the {nm} point from the centre", prove_it=False)
            mx, my = div(add(lx, rx), const(2)), div(add(ly, ry), const(2))
            chk.holds("above-chord", f"{tag}: circle {i}", lt(ZERO, sub(mul(sub(rx, lx), sub(cy, ly)), mul(sub(ry, ly), sub(cx, lx)))), s, where=wh, what="the centre is not above the chord", prove_it=False)
            for j in range(i) if num < 50 else range(max(0, i - 1), i):
                chk.holds("distinct", f"{tag}: circles {j},{i}", lt(Q("0.0000001"), T.abs_(sub(r, cs[j][2]))), s, where=wh, what="two of the circles are the same", prove_it=False)
        # the stored planes
        its = w.items(v)
        if miss:
            tot = ZERO
            for g, p in its: tot = add(tot, ite(g, ONE, ZERO))
            chk.eq("distinct", f"{tag}: stored planes", tot, const(num - len(miss)), s, where=wh, what="number of stored planes", prove_it=False)
        chk.count("circles", len(circ)); chk.count("stored planes", len(its))
        for i, (g, p) in enumerate(its):
            for g2, q in alts(p, g):
                rec = w.st.heap[q.id]
                d = {cval(k): vv for k, gg, vv in rec.items if isinstance(k, Node) and isc(k)}
                cond = []
                for j, c in enumerate(cs):
                    if j in miss: continue
                    e_ = [eq(scalar(d["c_x"]), c[0]), eq(scalar(d["c_y"]), c[1]), eq(scalar(d["radius"]), c[2])]
                    pl, pr = xy(w, d["l_c"]), xy(w, d["r_c"])
                    if len(w.items(d["l_c"])) != 2: raise Unsupported("end point")
                    e_ += [eq(pl[0], sym(f"ix{j}")), eq(pl[1], sym(f"iy{j}")), eq(pr[0], sym(f"jx{j}")), eq(pr[1], sym(f"jy{j}"))]
                    cond.append(and_(*e_))
                chk.holds("distinct", f"{tag}: stored plane {i}", or_(*cond), s, guard=[g2], where=wh, what="a stored plane mixes a circle with another circle's end points", prove_it=False)
    for num in ((1, 2, 5) if chk.tier == "quick" else (1, 2, 3, 5, 8, 12)): attempt(chk, "through-ends", f"{num} direct", lambda num=num: planes(num, "direct"))
    for num, miss in ((3, (0,)), (5, (1, 2)), (4, (3,)), (2, (0, 1))): attempt(chk, "distinct", f"{num} without {miss}", lambda num=num, miss=miss: planes(num, "direct", miss))
    attempt(chk, "through-ends", "64 direct", lambda: planes(64, "direct"))
    attempt(chk, "through-ends", "3 via", lambda: planes(3, "entry and exit x"))

    def near_circle(s, e, G, k):
        """a circle through a point of the crest and one of the slope face, or of the face and the ground below, close to each other"""
        tx, ty, bx, by_ = [float(e(q)) for q in (G.tx, G.ty, G.bx, G.by)]
        d1, d2 = [(.06, .06), (.12, .05), (.3, .2), (.05, .4)][k % 4]
        if k % 2: a, b = (tx - d1, ty), (tx + d2 * (bx - tx), ty - d2 * (ty - by_))
        else: a, b = (bx - d1 * (bx - tx), by_ + d1 * (ty - by_)), (bx + d2, by_)
        L = ((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** .5
        ux, uy = (a[1] - b[1]) / L, (b[0] - a[0]) / L      # upwards from the chord
        hgt = L * (.2, .6, 2)[k % 3]
        c = ((a[0] + b[0]) / 2 + ux * hgt, (a[1] + b[1]) / 2 + uy * hgt)
        if c[0] <= 0 or c[1] <= 0 or not a[0] < c[0] < b[0]: return None
        e2 = s.admit({**e.env, "cx": Fraction(c[0]), "cy": Fraction(c[1]), "rad": Fraction((hgt ** 2 + L ** 2 / 4) ** .5)})
        if e2 is not None: e2.close = (a, b)
        return e2
    def ground(by):
        w = World(); w.slope(by); chk.use(w.eng)
        G = Geo(w)
        need(w, "Slope", "_get_circle_external_intersection")
        cx, cy, r = w.s("cx"), w.s("cy"), w.s("rad")
        for q in (cx, cy, r): w.st.assume(lt(ZERO, q))
        v = w.m(w.o, "_get_circle_external_intersection", cx, cy, r)
        chk.use(w.eng)
        dom = dict(GDOM); dom.update({"cx": [Fraction(x, 2) for x in range(2, 50)], "cy": [Fraction(x, 2) for x in range(2, 40)], "rad": [Fraction(x, 2) for x in range(1, 30)]})
        s = w.samples(chk.seed, n_ * 3, dom=dom, tag=by)
        # circles through two points of the ground a short way apart
        G2 = [e for e in (near_circle(s, e, G, k) for k, e in enumerate(list(s.evs)[:n_])) if e is not None]
        chk.count("circles with close crossings", len(G2)); s.evs += G2
        wh = where_m(w, "Slope", "_get_circle_external_intersection")
        n = two = 0
        for e in s.evs:
            for g0, l in alts(v):
                if e.truth(g0) is not True: continue
                pic = concrete(w.st, l, e)
                if pic[0] not in "lt" or any(x[0] == "?" for x in pic[1:]): continue
                P = []
                for x in pic[1:]:
                    if x[0] in "tl" and all(y[0] == "v" for y in x[1:]): P.append(tuple(float(y[1]) for y in x[1:]))
                if len(P) != len(pic) - 1: continue
                n += 1; two += len(P) >= 2
                c = [float(e(q)) for q in (cx, cy, r)]
                M = float(e(G.M))
                from ..terms import Evaluator
                for p in P:
                    if abs((p[0] - c[0]) ** 2 + (p[1] - c[1]) ** 2 - c[2] ** 2) > 1e-5 * (1 + c[2] ** 2): chk.violate("on-circle", f"Slope({by}): ground intersections", wh, f"point {p} is not on the circle", e.env); break
                    yy = e(T.subst(G.y(sym("px")), {sym("px").id: const(Fraction(repr(p[0])))}))
                    if isinstance(yy, (int, float, Fraction)) and abs(float(yy) - p[1]) > 1e-5 * (1 + abs(p[1])): chk.violate("on-line", f"Slope({by}): ground intersections", wh, f"point {p} is not on the ground surface (height {float(yy)} there)", e.env); break
                    if p[0] < -1e-9 or p[0] > M + 1e-9: chk.violate("on-line", f"Slope({by}): ground intersections", wh, f"point {p} is outside the model", e.env); break
                if [p[0] for p in P] != sorted(p[0] for p in P): chk.violate("on-line", f"Slope({by}): order", wh, f"intersections are not in order from left to right: {P}", e.env)
                for q in getattr(e, "close", ()):
                    if not any(abs(p[0] - q[0]) < 0.005 and abs(p[1] - q[1]) < 0.005 for p in P): chk.violate("how-many", f"Slope({by}): ground intersections", wh, f"the crossing at ({q[0]:.4f}, {q[1]:.4f}) is missing: {P}", e.env); break
                # a circle that enters through the crest surface and leaves beyond the toe is found with both points
                H_, ty, by_, tx, bx = c[1] - c[2], float(e(G.ty)), float(e(G.by)), float(e(G.tx)), float(e(G.bx))
                if c[2] > abs(c[1] - ty) and c[2] > abs(c[1] - by_):
                    a = c[0] - (c[2] ** 2 - (c[1] - ty) ** 2) ** .5; b = c[0] + (c[2] ** 2 - (c[1] - by_) ** 2) ** .5
                    if 0.02 < a < tx - 0.02 and bx + 0.02 < b < M - 0.02:
                        chk.count("circles through crest and ground beyond the toe")
                        for q in (a, b):
                            if not any(abs(p[0] - q) < 0.02 for p in P): chk.violate("how-many", f"Slope({by}): ground intersections", wh, f"the crossing at x = {q:.4f} is missing: {P}", e.env)
        if n:
            for rl in ("on-circle", "on-line", "how-many"): chk.agreed(rl, f"Slope({by}): ground intersections", f"{n} assignments, {two} with two or more points")
        chk.count("circle and ground assignments", n)
    for by in ("length", "angle"): attempt(chk, "on-line", f"ground {by}", lambda by=by: ground(by))
