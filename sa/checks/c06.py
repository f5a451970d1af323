"""C06 cross-section geometry."""
from .common import *

# any size of slope and of minimum model size
SIZES = ["0.001", "0.05", "0.4", "1", "2", "3.5", "7.25", "10", "35", "120", "450", "2500"]
DOM = {k: [Fraction(x) for x in SIZES] for k in ("height", "length", "height'", "length'", "ml", "mh")}
DOM.update({f"depth{i}": [Fraction(x) for x in SIZES + ["0", "5.5", "18", "75", "-40"]] for i in range(1, 5)})
DOM.update({f"off{i}{q}": [Fraction(x) for x in ("0", "0.5", "2", "-1", "9", "25", "80", "700")] for i in range(1, 4) for q in ("", "'")})
DOM.update({f"len{i}": [Fraction(x) for x in ("0", "1", "-2", "0.25", "6", "40", "300")] for i in range(1, 4)})

def geom(chk, w, tag, L):
    o = w.o; h = sym("height")
    wh = where_m(w, "Slope", "set_external_boundary")
    s = w.samples(chk.seed, 80 if chk.tier == "quick" else 400, DOM, tag=tag)
    tx, ty = xy(w, w.m(o, "get_top_coordinates"))
    bx, by = xy(w, w.m(o, "get_bottom_coordinates"))
    M = field(w, o, "_external_length"); H = field(w, o, "_external_height")
    poly = vals(w, field(w, o, "_external_boundary"))
    chk.eq("crest-toe", f"{tag}/rise", sub(ty, by), h, s, where=wh)
    chk.eq("crest-toe", f"{tag}/run", sub(bx, tx), L, s, where=wh, tol=1e-9)
    chk.eq("margins", f"{tag}/equal", tx, sub(M, bx), s, where=wh)
    chk.holds("inside", f"{tag}/left", lt(ZERO, tx), s, where=wh)
    chk.holds("inside", f"{tag}/right", lt(bx, M), s, where=wh)
    chk.holds("inside", f"{tag}/toe above base", lt(ZERO, by), s, where=wh)
    chk.eq("inside", f"{tag}/top of model", ty, H, s, where=wh)
    mh = field(w, o, "_MIN_EXT_H"); ml = field(w, o, "_MIN_EXT_L")
    chk.holds("minimum-size", f"{tag}/height", le(mh, H), s, where=wh)
    chk.holds("minimum-size", f"{tag}/length", le(ml, M), s, where=wh)
    want = [(ZERO, ZERO), (ZERO, H), (tx, ty), (bx, by), (M, by), (M, ZERO), (ZERO, ZERO)]
    pts = [xy(w, p) for p in poly]
    chk.count("outline points", len(pts))
    if len(pts) != len(want): chk.violate("outline", f"{tag}/points", wh, f"outline has {len(pts)} points, required {len(want)}")
    else:
        # either orientation, any starting corner
        for i, (p, q) in enumerate(zip(pts, want)):
            chk.eq("outline", f"{tag}/point {i} x", p[0], q[0], s, where=wh)
            chk.eq("outline", f"{tag}/point {i} y", p[1], q[1], s, where=wh)
    return s, tx, M

def run(chk):
    chk.rule("crest-toe", "crest is `height` above and max(length or height/tan(angle), 0.001) before the toe, for every accepted height, length and angle")
    chk.rule("margins", "the model extends equally far left of the crest and right of the toe")
    chk.rule("inside", "crest and toe lie strictly inside the model and the crest is at its top")
    chk.rule("minimum-size", "the model is at least its configured minimum size")
    chk.rule("outline", "the outline is the closed polygon through the corners, crest and toe")
    chk.rule("loads-fit", "every accepted load lies between the left edge and the crest: setting it does not cut it off")
    h, a, l = sym("height"), sym("angle"), sym("length")
    Lang = max_(div(h, fn1("tan", mul(a, div(PI, const(180))))), Q("0.001"))
    Llen = max_(l, Q("0.001"))
    for by, L in (("length", Llen), ("angle", Lang), ("both", Llen)):
        def one(by=by, L=L):
            w = World(); w.slope(by); chk.use(w.eng)
            geom(chk, w, f"Slope({by})", L)
            chk.count("model states")
        attempt(chk, "crest-toe", f"Slope({by})", one)
    def edit():
        w = World(); w.slope("angle"); chk.use(w.eng)
        w.m(w.o, "update_boundary_options", MIN_EXT_L=w.s("ml"), MIN_EXT_H=w.s("mh"))
        chk.count("model states")
        s, tx, M = geom(chk, w, "update_boundary_options", Lang)
        wh = where_m(w, "Slope", "update_boundary_options")
        chk.holds("minimum-size", "requested/height", le(sym("mh"), field(w, w.o, "_external_height")), s, where=wh)
        chk.holds("minimum-size", "requested/length", le(sym("ml"), field(w, w.o, "_external_length")), s, where=wh)
    attempt(chk, "crest-toe", "update_boundary_options", edit)
    def edit2():
        w = World(); w.slope("length"); chk.use(w.eng)
        w.m(w.o, "update_boundary_options", MIN_EXT_L=w.s("ml"), MIN_EXT_H=w.s("mh"))
        h2, a2 = w.s("height'"), w.s("angle'")
        w.m(w.o, "set_external_boundary", height=h2, angle=a2)
        s = w.samples(chk.seed, 80, DOM, tag="rebuilt")
        tx, ty = xy(w, w.m(w.o, "get_top_coordinates")); bx, by = xy(w, w.m(w.o, "get_bottom_coordinates"))
        wh = where_m(w, "Slope", "set_external_boundary")
        chk.eq("crest-toe", "rebuilt/rise", sub(ty, by), h2, s, where=wh)
        chk.eq("crest-toe", "rebuilt/run", sub(bx, tx), max_(div(h2, fn1("tan", mul(a2, div(PI, const(180))))), Q("0.001")), s, where=wh, tol=1e-9)
        chk.holds("minimum-size", "rebuilt/height", le(sym("mh"), field(w, w.o, "_external_height")), s, where=wh)
        chk.holds("minimum-size", "rebuilt/length", le(sym("ml"), field(w, w.o, "_external_length")), s, where=wh)
        chk.eq("margins", "rebuilt", tx, sub(field(w, w.o, "_external_length"), bx), s, where=wh)
    attempt(chk, "crest-toe", "set_external_boundary after other edits", edit2)
    shapes = [(("f",), 0), (("c",), 0), ((), 1), (("f", "f"), 0), (("f",), 1)]
    if chk.tier == "thorough": shapes += [(("f", "c"), 1), (("f", "f"), 2), ((), 2)]
    def rebuild(w, by):
        """the slope gets another height and length or angle"""
        w.m(w.o, "set_external_boundary", height=w.s("height'"), **({"angle": NONE, "length": w.s("length'")} if by == "length" else {"angle": w.s("angle'")}))
    for udls, lls in shapes:
        for then in ("", "length", "angle"):
            def loads(udls=udls, lls=lls, then=then):
                w = World(); w.slope("length"); chk.use(w.eng)
                w.loads(udls, lls)
                if then: rebuild(w, then)
                tag = f"loads {''.join(udls)}/{lls}" + (f", then another {then}" if then else "")
                chk.count("model states")
                s = w.samples(chk.seed, 80, DOM, tag=tag)
                tx, ty = xy(w, w.m(w.o, "get_top_coordinates"))
                for i, u in enumerate(w.udls, 1):
                    wh = where_m(w, "Slope", "set_udls")
                    left, right = field(w, u, "left"), field(w, u, "right")
                    q = lt(ZERO, sym(f"q{i}"))
                    if udls[i-1] == "f":
                        chk.eq("loads-fit", f"{tag}/udl {i} width", sub(right, left), sym(f"len{i}"), s, guard=[q], where=wh, what="width of the load on the ground")
                    chk.holds("loads-fit", f"{tag}/udl {i} left", le(ZERO, left), s, guard=[q], where=wh)
                    chk.holds("loads-fit", f"{tag}/udl {i} right", and_(le(ZERO, right), le(right, tx)), s, guard=[q], where=wh)
                for i, u in enumerate(w.lls, 1):
                    wh = where_m(w, "Slope", "set_lls")
                    c = field(w, u, "coord")
                    chk.eq("loads-fit", f"{tag}/ll {i}", c, sub(tx, sym(f"off{i}'")), s, guard=[lt(ZERO, sym(f"p{i}"))], where=wh)
                    chk.holds("loads-fit", f"{tag}/ll {i} inside", and_(le(ZERO, c), le(c, tx)), s, where=wh)
            attempt(chk, "loads-fit", f"loads {udls}/{lls} {then}", loads)

    for k, how in ((1, "at once"), (2, "at once"), (2, "one by one"), (3, "at once")):
        for then in ("", "length", "angle"):
            def layers(k=k, how=how, then=then):
                w = World(); w.slope("length"); chk.use(w.eng)
                ms = [w.material(i) for i in range(1, k + 1)]
                if how == "at once": w.m(w.o, "set_materials", *ms)
                else:
                    for m in ms: w.m(w.o, "set_materials", m)
                if then: rebuild(w, then)
                if w.dead(): raise Unsupported("adding layers always raises")
                tag = f"{k} layers {how}" + (f", then another {then}" if then else ""); chk.count("model states")
                s = w.samples(chk.seed, 80, DOM, tag=tag)
                H = field(w, w.o, "_external_height")
                for i, m in enumerate(ms): chk.holds("loads-fit", f"{tag}/layer {i + 1}", le(field(w, m, "depth_to_bottom"), H), s, where=where_m(w, "Slope", "set_materials"), what="the model is not deep enough for a layer")
            attempt(chk, "loads-fit", f"{k} layers {how} {then}", layers)
