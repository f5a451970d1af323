"""C15 the search stays inside the analysis limits."""
from .common import *
from .slices import GDOM, Geo
from . import edits

def limits_of(w):
    v = merged_vals(w, field(w, w.o, "_limits"))
    if len(v) != 4: raise Unsupported("limits")
    return v

def run(chk):
    chk.rule("limits-order", "0 <= left < inner left <= crest <= inner right < right <= model length after every accepted call")
    chk.rule("limits-given", "limits inside their range are used as given; omitted ones keep their value; without limits the whole model is searched")
    chk.rule("inside-limits", "every plane of the default search enters between the left limits and leaves between the right limits, to within 0.01 m")
    chk.rule("min-distance", "no plane of the default search has ends within the minimum failure distance of each other")
    n_ = 40 if chk.tier == "quick" else 150
    lim = {"x1": [Fraction(x, 4) for x in range(0, 16)], "x2": [Fraction(x, 2) for x in range(1, 14)], "x3": [Fraction(x, 2) for x in range(6, 30)], "x4": [Fraction(x, 2) for x in range(10, 60)],
           "md": [Fraction(x) for x in ("0", "3", "6", "9", "12", "20")], "off1": [Fraction(x, 4) for x in range(0, 20)], "off1'": [Fraction(x, 4) for x in range(0, 20)], "len1": [Fraction(x, 2) for x in range(1, 10)]}
    def order(w, tag, wh, s=None):
        a, b, c, d = limits_of(w)
        G = Geo(w)
        s = s or w.samples(chk.seed, n_, dom=lim, tag=tag)
        for nm, cond in (("0 <= left", le(ZERO, a)), ("left < inner left", lt(a, b)), ("inner left <= crest", le(b, G.tx)), ("crest <= inner right", le(G.tx, c)), ("inner right < right", lt(c, d)), ("right <= model length", le(d, G.M))):
            chk.holds("limits-order", f"{tag}: {nm}", cond, s, where=wh, what=f"{nm} fails")
        chk.count("model states")
        return s
    def state(kind):
        w = World()
        if kind == "plain": w.slope("length")
        else: w.build("angle", mats=1, udls=("f",), lls=1, water=True)
        w.auto = True; chk.use(w.eng)
        return w
    def one(kind, seq):
        w = state(kind); tag = f"{kind}: " + ", ".join(seq or ("as built",))
        for e in seq: edits.apply(w, edits.BY[e])
        if w.dead(): raise Unsupported("always raises")
        chk.use(w.eng)
        order(w, tag, where_m(w, "Slope", edits.BY[seq[-1]][1] if seq else "__init__"))
    names = [e[0] for e in edits.EDITS]
    seqs = [("plain", ()), ("loaded", ())] + [(k, (e,)) for k in ("plain", "loaded") for e in names]
    seqs += [("plain", ("limits", e)) for e in ("geometry by length", "geometry by angle", "boundary minimums", "udl", "line load", "material", "no limits", "analysis options")]
    if chk.tier == "thorough": seqs += [("plain", (a, b)) for a in ("geometry by length", "boundary minimums", "udl", "line load", "material") for b in names]
    for k, sq_ in seqs: attempt(chk, "limits-order", f"{k} {sq_}", lambda k=k, sq_=sq_: one(k, sq_))
    def given():
        w = state("plain"); G = Geo(w)
        wh = where_m(w, "Slope", "set_analysis_limits")
        a, b, c, d = limits_of(w)
        s = w.samples(chk.seed, n_, dom=lim)
        for nm, x, y in (("left", a, ZERO), ("inner left", b, G.tx), ("inner right", c, G.tx), ("right", d, G.M)): chk.eq("limits-given", f"as built: {nm}", x, y, s, where=where_m(w, "Slope", "remove_analysis_limits"))
        x1, x2, x3, x4 = [w.s(x) for x in ("x1", "x2", "x3", "x4")]
        w2 = w.clone()
        w2.m(w2.o, "set_analysis_limits", left_x=x1, left_x_right=x2, right_x_left=x3, right_x=x4)
        s = w2.samples(chk.seed, n_ * 2, dom=lim, tag="given")
        for nm, got, x, lo, hi in zip(("left", "inner left", "inner right", "right"), limits_of(w2), (x1, x2, x3, x4), (ZERO, ZERO, G.tx, ZERO), (G.M, G.tx, G.M, G.M)):
            chk.eq("limits-given", f"given: {nm}", got, x, s, guard=[le(lo, x), le(x, hi)], where=wh, what="limit in use")
        before = limits_of(w2)
        for nm, arg, k in (("left", "left_x", 0), ("inner left", "left_x_right", 1), ("inner right", "right_x_left", 2), ("right", "right_x", 3)):
            w3 = w2.clone(); x = w3.s("x9")
            w3.m(w3.o, "set_analysis_limits", **{arg: x})
            s = w3.samples(chk.seed, n_, dom={**lim, "x9": lim["x2"] + lim["x4"]}, tag=arg)
            for j, (p, q) in enumerate(zip(limits_of(w3), before)):
                if j != k: chk.eq("limits-given", f"only {nm} given: limit {j}", p, q, s, where=wh, what="a limit that was not given changed")
        chk.count("model states", 6)
    attempt(chk, "limits-given", "given", given)

    def search(it, udls, lls, limits, ideal):
        tag = f"{it} iterations, loads {''.join(udls)}/{lls}" + (", limits given" if limits else "") + (", ends as requested" if ideal else ", any ends")
        w = World(); w.build("length", udls=udls, lls=lls); chk.use(w.eng)
        need(w, "Slope", "_set_entry_exit_planes", "_get_circle_external_intersection")
        if limits: w.m(w.o, "set_analysis_limits", *[], left_x=w.s("x1"), left_x_right=w.s("x2"), right_x_left=w.s("x3"), right_x=w.s("x4"))
        w.m(w.o, "update_analysis_options", iterations=it, min_failure_dist=w.s("md"))
        if w.dead(): raise Unsupported("always raises")
        md = field(w, w.o, "_min_failure_distance")
        cur = []; cnt = [0]
        if ideal:
            need(w, "Slope", "_generate_planes")
            def g(eng, st, fn, recv, args, kw, node):
                d = call_args(fn, args, kw)
                cur[:] = [d["l_c"], d["r_c"]]
                return NotImplemented
            w.eng.hooks["Slope._generate_planes"] = g
        def h(eng, st, fn, recv, args, kw, node):
            cnt[0] += 1
            if ideal: return eng.list_of(st, list(cur))
            i = cnt[0]
            return eng.list_of(st, [VTuple([w.s(f"ix{i}"), w.s(f"iy{i}")]), VTuple([w.s(f"jx{i}"), w.s(f"jy{i}")])])
        w.eng.hooks["Slope._get_circle_external_intersection"] = h
        w.m(w.o, "_set_entry_exit_planes"); chk.use(w.eng)
        wh = where_m(w, "Slope", "_set_entry_exit_planes")
        a, b, c, d = limits_of(w)
        dom = dict(lim)
        rng = lambda r: Fraction(r.randint(-8, 160), 8)
        for i in range(1, cnt[0] + 1):
            for p in ("ix", "jx"): dom[f"{p}{i}"] = rng
        s = w.samples(chk.seed, n_, dom=dom, tag=tag)
        if ideal and limits:      # the minimum distance is exactly the distance of the outermost ends
            k = 0
            for e in list(s.evs):
                if k >= 6: break
                x = {**e.env, "height": Fraction(5), "md": Fraction(13), "x4": e.env["x1"] + 12}
                x = s.admit(x)
                if x is not None and [x(y) for y in limits_of(w)][::3] == [x.env["x1"], x.env["x4"]] and x(c) >= 0: s.evs.append(x); k += 1
            chk.count("minimum distance equal to the distance of the ends", k)
        items = w.items(field(w, w.o, "_search"))
        chk.count("trial circles", cnt[0]); chk.count("planes in the search", len(items))
        eps = Q("0.0100001"); bad = {}
        planes = 0
        G = []
        for gd, p in items:
            for g2, q in alts(p, gd):
                rec = w.st.heap[q.id]; dd = {cval(k): vv for k, gg, vv in rec.items if isinstance(k, Node) and isc(k)}
                G.append((g2, scalar(xy(w, dd["l_c"])[0]), scalar(xy(w, dd["l_c"])[1]), scalar(xy(w, dd["r_c"])[0]), scalar(xy(w, dd["r_c"])[1])))
        for e in s.evs:
            A, B, C, D, m = [e(x) for x in (a, b, c, d, md)]
            for k, (g, lx, ly, rx, ry) in enumerate(G):
                if e.truth(g) is not True: continue
                planes += 1
                l, r = e(lx), e(rx)
                if not (float(A) - 0.0100001 <= l <= float(B) + 0.0100001): bad.setdefault("inside-limits", (f"plane {k} enters at x = {float(l):.4f}, limits {float(A):.4f} to {float(B):.4f}", e))
                if not (float(C) - 0.0100001 <= r <= float(D) + 0.0100001): bad.setdefault("inside-limits", (f"plane {k} leaves at x = {float(r):.4f}, limits {float(C):.4f} to {float(D):.4f}", e))
                if ideal and isinstance(m, (int, float, Fraction)):
                    dist = ((float(l) - float(r)) ** 2 + (float(e(ly)) - float(e(ry))) ** 2) ** .5
                    ex = [l, r, e(ly), e(ry), m]
                    if dist < float(m) - 1e-6 or (all(isinstance(x, (int, Fraction)) for x in ex) and (l - r) ** 2 + (ex[2] - ex[3]) ** 2 <= m * m): bad.setdefault("min-distance", (f"plane {k} has ends {dist:.4f} m apart, minimum {float(m):.4f}", e))
        for rule in ("inside-limits",) + (("min-distance",) if ideal else ()):
            if rule in bad: chk.violate(rule, tag, wh, bad[rule][0], bad[rule][1].env)
            elif planes: chk.agreed(rule, tag, f"{planes} planes at {len(s.evs)} assignments")
            else: chk.undecided(rule, tag, "no plane at any admissible assignment")
        chk.count("planes compared with the limits", planes)
    S = [(500, (), 0, False, True), (500, (), 0, True, True), (500, (), 0, True, False), (500, ("f",), 0, True, True), (500, ("f",), 0, True, False), (500, (), 1, True, True), (600, ("f",), 1, False, False), (1000, ("c",), 1, True, False)]
    if chk.tier == "thorough": S += [(it, u, l, lm, i) for it in (500, 1000, 2000) for u, l in (((), 0), (("f", "c"), 2), (("f",), 1)) for lm in (False, True) for i in (False, True)]
    for a in S: attempt(chk, "inside-limits", str(a), lambda a=a: search(*a))
