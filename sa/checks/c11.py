"""C11 a factor of safety is a finite non-negative number or absent."""
import time
from .common import *
from .slices import *

WIDE = {"cx": [Fraction(x) for x in ("0.5", "2", "4", "6", "7.5", "9", "11", "14", "20", "40")], "cy": [Fraction(x) for x in ("0.5", "3", "6", "8", "10", "12.5", "17", "30")],
        "rad": [Fraction(x) for x in ("0.25", "1", "2", "4", "6", "7.5", "9", "12", "20", "45")], "lx": [Fraction(x, 2) for x in range(0, 30, 2)], "rx": [Fraction(x, 2) for x in range(3, 60, 3)],
        "coh1": [Fraction(0), Fraction(0), Fraction(5)], "phi1": [Fraction(0), Fraction(20), Fraction(35), Fraction(89)], "wd": [Fraction(x) for x in ("0", "0.25", "1", "3", "6")],
        "H": [Fraction(0), Fraction(1), Fraction(1, 2)], "q1": [Fraction(1), Fraction(100), Fraction(1000)]}
# soil that hardly weighs more than water, all of it under water: the resisting forces are small, so the trial factor of safety is
WET = {"uw1": [Fraction(x) for x in ("10", "10.5", "11", "12.5")], "wd": [Fraction(0), Fraction(1, 4)], "phi1": [Fraction(x) for x in (20, 35, 60)], "lx": GDOM["lx"], "rx": GDOM["rx"], "cx": GDOM["cx"], "cy": GDOM["cy"], "rad": GDOM["rad"], "H": [Fraction(1, 2), Fraction(1)]}
GRID = [Fraction(0)] + [Fraction(round(0.02 * 1.8 ** i * 1000), 1000) for i in range(20)] + [Fraction(4000)]

def zero_denominators(chk, v, s, R, iters, n, tag, wh):
    """assignments at which the denominator of one slice vanishes: the cohesion is moved until the trial factor of safety is the one that makes it zero"""
    tr = R.trials(iters); start = and_(R.possible(), lt(ZERO, R.driving()))
    reached = [and_(start, *[le(sym("tol"), T.abs_(sub(tr[j + 1][0], tr[j][0]))) for j in range(it)]) for it in range(iters)]
    found = [0] * iters; bad = None; t0 = time.time()
    for base in list(s.evs)[:150]:
        if bad or min(found) >= 5 or time.time() - t0 > 12: break
        for it, (F, ms) in enumerate(tr):
            if found[it] >= 5: continue
            m = ms[0]
            def val(e, i):
                x = e.at_index(i, lambda: e(m))
                return float(x) if isinstance(x, (int, float, Fraction)) and not isinstance(x, bool) else None
            def at(c, i): return c, val(T.Evaluator({**base.env, "coh1": c}), i)
            if base.truth(start) is not True: continue
            n0 = int(base(n)); pairs = []; prev = None
            for c in GRID if it else GRID[:1] + GRID[-1:]:
                e0 = T.Evaluator({**base.env, "coh1": c})
                cur = [val(e0, i) for i in range(n0)]
                if prev: pairs += [(abs(y), i, prev[0], c) if x < 0 else (abs(x), i, c, prev[0]) for i, (x, y) in enumerate(zip(prev[1], cur)) if x is not None and y is not None and (x < 0) != (y < 0)]
                prev = (c, cur)
            pairs.sort()
            for _, i, lo, hi in pairs[:3] if it else pairs[:1]:
                for _ in range(70):
                    mid = (lo + hi) / 2; d = at(mid, i)[1]
                    if d is None: break
                    if d == 0: lo = hi = mid; break
                    if d < 0: lo = mid
                    else: hi = mid
                    if abs(float(hi) - float(lo)) < 1e-18: break
                c = Fraction(float(hi)); e = s.admit({**base.env, "coh1": c})
                if e is None: continue
                d = e.at_index(i, lambda: e(m))
                if not isinstance(d, (int, float, Fraction)) or abs(d) > 1e-12: continue
                if e.truth(reached[it]) is not True: continue       # something else decides before
                x = e(v); found[it] += 1
                if x is None or x is T.AMB: continue
                bad = (e, it, i, x); break
            if bad: break
    if bad: chk.violate("finite", f"{tag}: a slice's denominator vanishes", wh, f"slice {bad[2]} has a zero denominator in iteration {bad[1] + 1} and its quotient reaches the factor of safety" + ("" if bad[3] is T.ERR else f" ({float(bad[3]):.4g})"), bad[0].env)
    elif sum(found): chk.agreed("finite", f"{tag}: a slice's denominator vanishes", f"{found} assignments per iteration")
    else: chk.undecided("finite", f"{tag}: a slice's denominator vanishes", "no such assignment found")
    chk.count("assignments with a vanishing denominator", sum(found))

def run(chk):
    chk.rule("non-negative", "the value of a circle is absent or a number that is not negative")
    chk.rule("finite", "no division by zero, root of a negative number or other undefined operation reaches the value")
    chk.rule("no-value", "no value when a slice lies outside the circle, the driving force is zero or negative, the slices have no width, there is no soil, or the circle does not cross the ground twice")
    chk.rule("no-raise", "analysing an accepted circle of an accepted model does not divide by zero or use an absent value")
    n_ = 150 if chk.tier == "quick" else 600
    def one(meth, mats, udls, lls, water, N, iters, H=None, ends=True, by="length"):
        w, v, spec, s, tag, R, c = fos_pair(chk, meth, mats, udls, lls, water, N, iters, H, ends, by, n_=n_ // 2)
        wh = where_m(w, "Slope", meth); tag = f"{meth}: {tag} ({by})"
        d = dict(GDOM); d.update(WIDE); d["n"] = [10, 11]
        s2 = w.samples(chk.seed + 1, n_, dom=d, tag=tag)
        s.evs += s2.evs
        chk.holds("non-negative", tag, or_(eq(v, NONE), le(ZERO, v)), s, where=wh, what="a factor of safety is negative", prove_it=False)
        # ends of the slip surface lie on the circle, so no slice is centred exactly where the circle is vertical
        upright = R.every(lambda q: not_(eq(mul(q["dx"], q["dx"]), mul(c[6], c[6])))) if mats else TRUE
        bad = None; k = 0; numbers = 0
        for e in s.evs:
            x = e(v); k += 1
            if isinstance(x, (int, float, Fraction)) and not isinstance(x, bool):
                numbers += 1
                if isinstance(x, float) and (x != x or abs(x) == float("inf")): bad = (e, "infinite or not a number")
            elif x is T.ERR and e.truth(upright) is not True: continue
            elif x is T.ERR: bad = (e, "undefined (division by zero or root of a negative number)")
            elif x is not None and x is not T.AMB: bad = (e, f"neither a number nor None: {x!r}")
            if bad: break
        if meth == BISHOP and iters and mats == 1 and water: zero_denominators(chk, v, w.samples(chk.seed + 2, 100, dom={**d, **WET}, tag="wet"), R, iters, sym("n"), tag, wh)
        if bad: chk.violate("finite", tag, wh, "the factor of safety is " + bad[1], bad[0].env)
        elif k: chk.agreed("finite", tag, f"{k} admissible assignments")
        else: chk.undecided("finite", tag, "no admissible assignment")
        chk.count("assignments", k); chk.count("assignments with a factor of safety", numbers)
        if mats:
            chk.eq("no-value", f"{tag}: driving force not positive", v, NONE, s, guard=[R.possible(), le(R.driving(), ZERO)], where=wh, what="value without driving force", prove_it=False)
            chk.eq("no-value", f"{tag}: slice outside the circle", v, NONE, s, guard=[not_(R.every(lambda q: q["inside"]))], where=wh, what="value with a slice outside the circle", prove_it=False)
        else: chk.eq("no-value", f"{tag}: no soil", v, NONE, s, where=wh, what="value without soil", prove_it=False)
        no_raise(chk, "no-raise", tag, w, w.raises, only=lambda x: x.implicit, dom=d)
    Q_ = [(ORDINARY, 1, (), 0, False, None, 0), (ORDINARY, 1, ("f",), 1, True, None, 0), (ORDINARY, 0, (), 0, True, None, 0), (BISHOP, 1, (), 0, False, None, 1), (BISHOP, 1, (), 0, True, None, 1),
          (BISHOP, 2, ("f",), 1, True, None, 2), (BISHOP, 1, (), 0, True, None, 2, True), (BISHOP, 0, (), 0, False, None, 1), (BISHOP, 1, (), 0, False, None, 0), (BISHOP, 1, ("c",), 0, True, None, 1, None, False), (ORDINARY, 1, (), 0, True, None, 0, None, False)]
    if chk.tier == "thorough": Q_ += [(BISHOP, k, u, l, wt, None, 3, True) for k in (1, 2, 3) for u, l in (((), 0), (("f", "c"), 2)) for wt in (False, True)]
    for a in Q_: attempt(chk, "finite", str(a), lambda a=a: one(*a))
    # circles that do not cross the ground twice
    def crossing(meth, pts):
        w = World(); w.build("length", mats=1, water=True); chk.use(w.eng)
        need(w, "Slope", "_get_circle_external_intersection", meth)
        cx, cy, r = w.s("cx"), w.s("cy"), w.s("rad")
        for q in (cx, cy, r): w.st.assume(lt(ZERO, q))
        p1 = VTuple([w.s("lx"), w.s("ly")])
        def h(eng, st, f, recv, args, kw, node):
            return eng.list_of(st, {0: [], 1: [p1], 2: [p1, VTuple([sym("lx"), sym("ly")])]}[pts])
        w.eng.hooks["Slope._get_circle_external_intersection"] = h
        w.raises = []
        v = scalar(w.m(w.o, meth, cx, cy, r))
        s = w.samples(chk.seed, 30, dom=GDOM, tag=str(pts))
        tag = f"{meth}: " + {0: "no intersection", 1: "one intersection", 2: "the same intersection twice"}[pts]
        chk.eq("no-value", tag, v, NONE, s, where=where_m(w, "Slope", meth), what="value of a circle that does not cross the ground twice")
        no_raise(chk, "no-raise", tag, w, w.raises, only=lambda x: x.implicit, dom=GDOM)
        chk.count("degenerate circles")
    for meth in (ORDINARY, BISHOP):
        for pts in (0, 1, 2): attempt(chk, "no-value", f"{meth} {pts}", lambda meth=meth, pts=pts: crossing(meth, pts))
    # with the intersections computed by the model itself
    def whole(meth, it):
        w = World(); w.build("length", mats=1, water=True); chk.use(w.eng)
        w.m(w.o, "update_analysis_options", slices=10, max_iterations=it)
        cx, cy, r = w.s("cx"), w.s("cy"), w.s("rad")
        for q in (cx, cy, r): w.st.assume(lt(ZERO, q))
        w.raises = []
        v = scalar(w.m(w.o, meth, cx, cy, r))
        d = dict(GDOM); d.update({k: WIDE[k] for k in ("cx", "cy", "rad", "wd", "coh1", "phi1")})
        s = w.samples(chk.seed, n_, dom=d, tag="whole")
        s.evs += w.samples(chk.seed, n_, dom=GDOM, tag="whole2").evs
        wh = where_m(w, "Slope", meth); tag = f"{meth}: intersections of the circle itself"
        chk.holds("non-negative", tag, or_(eq(v, NONE), le(ZERO, v)), s, where=wh, what="a factor of safety is negative", prove_it=False)
        bad = next((e for e in s.evs if e(v) is T.ERR), None)
        if bad: chk.violate("finite", tag, wh, "the factor of safety is undefined (division by zero or root of a negative number)", bad.env)
        else: chk.agreed("finite", tag, f"{len(s.evs)} admissible assignments")
        chk.count("assignments with a factor of safety", sum(1 for e in s.evs if isinstance(e(v), (float, Fraction, int)) and not isinstance(e(v), bool)))
        no_raise(chk, "no-raise", tag, w, w.raises, only=lambda x: x.implicit, dom=d)
    attempt(chk, "finite", "whole bishop", lambda: whole(BISHOP, 1))
