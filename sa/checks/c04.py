"""C04 accepted exactly within the documented ranges."""
from .common import *

KINDS = {"text": "5", "empty text": "", "None": None, "tuple": (1,)}
DOMS = {"v": [Fraction(x) for x in ("-100", "-1", "-0.5", "-0.001", "0", "0.001", "0.5", "0.999", "1", "1.5", "17", "30", "45", "49.99", "50", "50.01", "89.9", "90", "90.1", "100", "1000")]}
def between(x, lo, hi): return and_(le(const(lo), x), le(x, const(hi)))

def run(chk):
    chk.rule("range", "a numeric argument is refused exactly when it lies outside its documented range")
    chk.rule("kind", "text, None and containers are refused where a number is required")
    chk.rule("absolute", "negative cohesion, layer depth, load magnitude, offset and length are taken by absolute value; load length 0 or None is continuous; other accepted values are stored unchanged")
    chk.rule("refuse", "a slope with neither angle nor length, non-material objects, duplicate layer depths and limits out of order are refused, and only those")
    n = 120 if chk.tier == "quick" else 600
    # (id, how to call with value, acceptance condition, kinds refused, where)
    def slope(w): w.slope("length"); return w.o
    def M(w, **k): return w.new("Material", **{**dict(unit_weight=const(20), friction_angle=const(30), cohesion=const(2), depth_to_bottom=const(5)), **k})
    always = lambda v: TRUE
    T_ = [
        ("Material.unit_weight", lambda w, v: M(w, unit_weight=v), lambda v: between(v, 1, 50), ("text", "None"), "Material", "__post_init__"),
        ("Material.friction_angle", lambda w, v: M(w, friction_angle=v), lambda v: le(ZERO, v), ("text", "None"), "Material", "__post_init__"),
        ("Material.cohesion", lambda w, v: M(w, cohesion=v), always, ("text", "empty text", "None", "tuple"), "Material", "__post_init__"),
        ("Material.depth_to_bottom", lambda w, v: M(w, depth_to_bottom=v), always, ("text", "empty text", "None", "tuple"), "Material", "__post_init__"),
        ("Udl.magnitude", lambda w, v: w.new("Udl", magnitude=v, offset=const(1), length=const(1)), always, ("text", "empty text", "None", "tuple"), "Udl", "__post_init__"),
        ("Udl.offset", lambda w, v: w.new("Udl", magnitude=const(1), offset=v, length=const(1)), always, ("text", "empty text", "None", "tuple"), "Udl", "__post_init__"),
        ("Udl.length", lambda w, v: w.new("Udl", magnitude=const(1), offset=const(1), length=v), always, ("text", "tuple"), "Udl", "__post_init__"),
        ("LineLoad.magnitude", lambda w, v: w.new("LineLoad", magnitude=v, offset=const(1)), always, ("text", "empty text", "None", "tuple"), "LineLoad", "__post_init__"),
        ("LineLoad.offset", lambda w, v: w.new("LineLoad", magnitude=const(1), offset=v), always, ("text", "empty text", "None", "tuple"), "LineLoad", "__post_init__"),
        ("Slope.height (length given)", lambda w, v: w.new("Slope", height=v, angle=None, length=const(2)), lambda v: lt(ZERO, v), ("text", "None", "tuple"), "Slope", "set_external_boundary"),
        ("Slope.height (angle given)", lambda w, v: w.new("Slope", height=v, angle=const(30)), lambda v: lt(ZERO, v), ("text", "None", "tuple"), "Slope", "set_external_boundary"),
        ("Slope.angle", lambda w, v: w.new("Slope", height=const(2), angle=v), lambda v: and_(lt(ZERO, v), le(v, const(90))), ("text", "None", "tuple"), "Slope", "set_external_boundary"),
        ("Slope.angle (length given)", lambda w, v: w.new("Slope", height=const(2), angle=v, length=const(3)), lambda v: and_(lt(ZERO, v), le(v, const(90))), ("text", "tuple"), "Slope", "set_external_boundary"),
        ("Slope.length", lambda w, v: w.new("Slope", height=const(2), angle=None, length=v), lambda v: le(ZERO, v), ("text", "None", "tuple"), "Slope", "set_external_boundary"),
        ("Slope.length (angle given)", lambda w, v: w.new("Slope", height=const(2), angle=const(30), length=v), lambda v: le(ZERO, v), ("text", "tuple"), "Slope", "set_external_boundary"),
    ]
    T_ += [
        ("Slope.height (fractional length)", lambda w, v: w.new("Slope", height=v, angle=None, length=w.s("length9")), lambda v: lt(ZERO, v), ("text", "None", "tuple"), "Slope", "set_external_boundary"),
        ("Slope.height (fractional angle)", lambda w, v: w.new("Slope", height=v, angle=w.s("angle9")), lambda v: lt(ZERO, v), ("text", "None", "tuple"), "Slope", "set_external_boundary"),
        ("Slope.height (angle and length)", lambda w, v: w.new("Slope", height=v, angle=w.s("angle9"), length=w.s("length9")), lambda v: lt(ZERO, v), ("text", "None", "tuple"), "Slope", "set_external_boundary"),
        ("Slope.angle (fractional height)", lambda w, v: w.new("Slope", height=w.s("height9"), angle=v), lambda v: and_(lt(ZERO, v), le(v, const(90))), ("text", "None", "tuple"), "Slope", "set_external_boundary"),
        ("Slope.length (fractional height)", lambda w, v: w.new("Slope", height=w.s("height9"), angle=None, length=v), lambda v: le(ZERO, v), ("text", "None", "tuple"), "Slope", "set_external_boundary"),
        ("Material.unit_weight (others fractional)", lambda w, v: M(w, unit_weight=v, friction_angle=w.s("phi9"), cohesion=w.s("coh9"), depth_to_bottom=w.s("depth9"), color=const("red"), name=const("n")), lambda v: between(v, 1, 50), ("text", "None"), "Material", "__post_init__"),
        ("Material.friction_angle (others fractional)", lambda w, v: M(w, unit_weight=w.s("uw9"), friction_angle=v, cohesion=w.s("coh9"), depth_to_bottom=w.s("depth9")), lambda v: le(ZERO, v), ("text", "None"), "Material", "__post_init__"),
        ("Udl.magnitude (others fractional)", lambda w, v: w.new("Udl", magnitude=v, offset=w.s("off9"), length=w.s("len9"), dynamic_offset=TRUE), always, ("text", "empty text", "None", "tuple"), "Udl", "__post_init__"),
        ("Udl.offset (others fractional)", lambda w, v: w.new("Udl", magnitude=w.s("q9"), offset=v, length=w.s("len9")), always, ("text", "empty text", "None", "tuple"), "Udl", "__post_init__"),
        ("Udl.offset (continuous)", lambda w, v: w.new("Udl", magnitude=w.s("q9"), offset=v), always, ("text", "empty text", "None", "tuple"), "Udl", "__post_init__"),
        ("LineLoad.offset (others fractional)", lambda w, v: w.new("LineLoad", magnitude=w.s("p9"), offset=v, dynamic_offset=TRUE), always, ("text", "empty text", "None", "tuple"), "LineLoad", "__post_init__"),
    ]
    def onslope(name, meth, acc, kinds, mk=None, nz=False):
        def f(w, v):
            o = slope(w); w.raises.clear()
            a = mk(v) if mk else {}
            w.m(o, meth, **a)
        T_.append((f"{meth}.{name}", f, acc, kinds, "Slope", meth))
    onslope("height", "set_external_boundary", lambda v: lt(ZERO, v), ("text", "None", "tuple"), lambda v: dict(height=v, angle=const(30)))
    onslope("angle", "set_external_boundary", lambda v: and_(lt(ZERO, v), le(v, const(90))), ("text", "None", "tuple"), lambda v: dict(height=const(3), angle=v))
    onslope("length", "set_external_boundary", lambda v: le(ZERO, v), ("text", "None", "tuple"), lambda v: dict(height=const(3), angle=None, length=v))
    onslope("depth", "set_water_table", lambda v: le(ZERO, v), ("text", "tuple"), lambda v: dict(depth=v))
    # 0 counts as 'not given' for the boundary minimums
    onslope("MIN_EXT_L", "update_boundary_options", lambda v: le(ZERO, v), ("text", "tuple"), lambda v: dict(MIN_EXT_L=v))
    onslope("MIN_EXT_H", "update_boundary_options", lambda v: le(ZERO, v), ("text", "tuple"), lambda v: dict(MIN_EXT_H=v))
    onslope("H", "update_water_analysis_options", always, ("text", "empty text", "None", "tuple"), lambda v: dict(auto=const(False), H=v))
    for name, call, acc, kinds, cls, meth in T_:
        def numeric(kind, name=name, call=call, acc=acc, cls=cls, meth=meth):
            w = World(); chk.use(w.eng)
            v = w.s("v", kind); w.raises.clear()
            d = {"v": [int(x) for x in DOMS["v"] if x.denominator == 1]} if kind == "int" else DOMS
            call(w, v); chk.use(w.eng); chk.count("acceptance conditions")
            bad = or_(*[c for c, _, _, _ in w.raised()]) if w.raises else FALSE
            # conditions of the rest of the model (slope built before) hold on entry
            pre = [lt(ZERO, sym("height")), le(ZERO, sym("length")), lt(ZERO, sym("height9")), le(ZERO, sym("length9")), lt(ZERO, sym("angle9")), le(sym("angle9"), const(90)),
                   between(sym("uw9"), 1, 50), le(ZERO, sym("phi9"))]
            s = Samples(set(w.syms) | T.syms(bad), pre, chk.seed, n, d, None, name)
            chk.eq("range", f"{name} ({kind})", bad, not_(acc(v)), s, where=where_m(w, cls, meth), what="refusal condition differs from the documented range")
        for kind in ("real", "int"): attempt(chk, "range", name, lambda kind=kind: numeric(kind))
        for k in kinds:
            def bad(k=k, name=name, call=call, cls=cls, meth=meth):
                w = World(); val = KINDS[k]
                v = VTuple([const(x) for x in val]) if isinstance(val, tuple) else const(val)
                call(w, v); chk.use(w.eng); chk.count("kinds of value")
                if w.dead(): chk.ok("kind", f"{name} {k}", "every path raises")
                else: chk.violate("kind", f"{name} {k}", where_m(w, cls, meth), f"{k} value is accepted")
            attempt(chk, "kind", name, bad)
    # optional arguments
    def optional():
        w = World(); chk.use(w.eng); wh = where_m(w, "Udl", "__post_init__")
        for lv, tag in ((NONE, "None"), (ZERO, "0")):
            u = w.new("Udl", magnitude=const(5), offset=const(1), length=lv)
            if w.dead(): chk.violate("absolute", f"Udl.length={tag}", wh, "a continuous load is refused"); return
            chk.eq("absolute", f"Udl.length={tag}", field(w, u, "length"), NONE, w.samples(chk.seed, 2), where=wh)
        w.slope("length"); w.m(w.o, "set_water_table", const(2)); w.m(w.o, "set_water_table", None)
        if w.dead(): chk.violate("refuse", "set_water_table(None)", wh, "removing the water table is refused")
        else:
            s = w.samples(chk.seed, 5)
            chk.eq("refuse", "set_water_table(None)", field(w, w.o, "_water_RL"), NONE, s, where=where_m(w, "Slope", "set_water_table"))
    attempt(chk, "absolute", "optional arguments", optional)
    # stored values
    def stored():
        w = World(); chk.use(w.eng)
        vs = {k: w.s(k) for k in ("coh", "depth", "q", "off", "len", "p", "off'", "uw", "phi")}
        for k in ("uw",): w.st.assume(between(vs[k], 1, 50))
        w.st.assume(le(ZERO, vs["phi"]))
        m = w.new("Material", unit_weight=vs["uw"], friction_angle=vs["phi"], cohesion=vs["coh"], depth_to_bottom=vs["depth"], name=const("m"))
        u = w.new("Udl", magnitude=vs["q"], offset=vs["off"], length=vs["len"])
        l = w.new("LineLoad", magnitude=vs["p"], offset=vs["off'"])
        d = {k: [Fraction(x) for x in ("-7.5", "-3", "-0.25", "0", "0.25", "2", "11")] for k in ("coh", "depth", "q", "off", "len", "p", "off'")}
        s = w.samples(chk.seed, n, dom=d, tag="stored")
        A = T.abs_
        for o, f, e in ((m, "unit_weight", vs["uw"]), (m, "friction_angle", vs["phi"]), (m, "cohesion", A(vs["coh"])), (m, "depth_to_bottom", A(vs["depth"])),
                        (u, "magnitude", A(vs["q"])), (u, "offset", A(vs["off"])), (u, "length", ite(eq(vs["len"], ZERO), NONE, A(vs["len"]))),
                        (l, "magnitude", A(vs["p"])), (l, "offset", A(vs["off'"]))):
            c = w.st.heap[o.id].cls.name
            chk.eq("absolute", f"{c}.{f}", field(w, o, f), e, s, where=where_m(w, c, "__post_init__"))
    attempt(chk, "absolute", "stored values", stored)
    # refusals of whole calls
    def neither():
        for h in ("height",):
            w = World(); chk.use(w.eng); w.new("Slope", height=w.s("height"), angle=None, length=None)
            if w.dead(): chk.ok("refuse", "Slope without angle and length")
            else: chk.violate("refuse", "Slope without angle and length", where_m(w, "Slope", "set_external_boundary"), "accepted")
        for what, v in (("text", const("clay")), ("number", const(3)), ("None", NONE), ("Udl", None)):
            w = World(); w.slope("length")
            if v is None: v = w.new("Udl", magnitude=const(3))
            w.m(w.o, "set_materials", v)
            if w.dead(): chk.ok("refuse", f"set_materials({what})")
            else: chk.violate("refuse", f"set_materials({what})", where_m(w, "Slope", "set_materials"), f"a {what} object is accepted as a material")
        # one good and one bad
        for pos in (0, 1):
            w = World(); w.slope("length"); m = M(w)
            a = [m, const("clay")]
            w.m(w.o, "set_materials", *(a if pos else a[::-1]))
            if w.dead(): chk.ok("refuse", f"set_materials(material and text, {pos})")
            else: chk.violate("refuse", f"set_materials(material and text, {pos})", where_m(w, "Slope", "set_materials"), "a non-material object is accepted")
    attempt(chk, "refuse", "whole calls", neither)
    def dup(split):
        w = World(); w.slope("length"); chk.use(w.eng)
        ms = [w.material(i) for i in (1, 2, 3)]
        w.raises.clear()
        base = w.pc()
        if split == "one call": w.m(w.o, "set_materials", *ms)
        elif split == "three calls":
            for m in ms: w.m(w.o, "set_materials", m)
        else: w.m(w.o, "set_materials", *ms[:2]); w.m(w.o, "set_materials", ms[2])
        bad = or_(*[c for c, _, _, _ in w.raised()])
        A = T.abs_; d = [A(sym(f"depth{i}")) for i in (1, 2, 3)]
        want = or_(eq(d[0], d[1]), eq(d[1], d[2]), eq(d[0], d[2]))
        dm = {f"depth{i}": [Fraction(x) for x in ("0", "1", "-1", "2", "-2", "3.5", "40")] for i in (1, 2, 3)}
        s = Samples(set(w.syms) | T.syms(bad), base, chk.seed, n * 2, dm, None, "dup")
        chk.eq("refuse", f"duplicate depths, {split}", bad, want, s, where=where_m(w, "Slope", "set_materials"), what="materials are refused differently from 'two at the same depth'", prove_it=False)
        chk.count("acceptance conditions")
    for sp in ("one call", "three calls", "two then one"): attempt(chk, "refuse", "duplicate depths", lambda sp=sp: dup(sp))
    names = ("left_x", "left_x_right", "right_x_left", "right_x")
    def limits(given, again):
        w = World(); w.slope("length"); chk.use(w.eng)
        o = w.o
        if again: w.m(o, "set_analysis_limits", **{nm: w.s("y%d" % i) for i, nm in enumerate(names)})
        tx, _ = xy(w, w.m(o, "get_top_coordinates")); Mx = field(w, o, "_external_length")
        cur = vals(w, field(w, o, "_limits")); pc0 = w.pc(); w.raises.clear()
        v = {nm: w.s("x%d" % i) for i, nm in enumerate(names)}
        w.m(o, "set_analysis_limits", **{k: v[k] for k in given})
        bad = or_(*[c for c, _, _, _ in w.raised()]) if w.raises else FALSE
        g = [v[nm] if nm in given else cur[i] for i, nm in enumerate(names)]
        conds = [le(ZERO, v[nm]) if nm == "left_x" else lt(ZERO, v[nm]) for nm in given]
        L = [max_(g[0], ZERO), min_(g[1], tx), max_(g[2], tx), min_(g[3], Mx)]
        ok = and_(*conds, lt(L[0], L[1]), lt(L[2], L[3]))
        s = Samples(set(w.syms) | T.syms(bad), pc0, chk.seed, n * 2, {"x%d" % i: [Fraction(x) for x in ("-1", "0", "0.5", "1", "3", "4", "6", "8", "12", "25", "60")] for i in range(4)}, None, "lim")
        tag = "+".join(given) + (" after limits were set" if again else "")
        wh = where_m(w, "Slope", "set_analysis_limits")
        chk.eq("refuse", f"limits {tag}", bad, not_(ok), s, where=wh, what="limits are refused differently from 'negative, not positive or out of order'", prove_it=not again)
        if not w.dead():
            for i, (a, e) in enumerate(zip(vals(w, field(w, o, "_limits")), L)): chk.eq("absolute", f"limits {tag}/{names[i]} stored", a, e, s, guard=[ok], where=wh)
        chk.count("acceptance conditions")
    sets = [names] + [(x,) for x in names] + [("left_x", "right_x"), ("left_x_right", "right_x_left")]
    for g in sets: attempt(chk, "refuse", "limits", lambda g=g: limits(g, False))
    for g in ([names] if chk.tier == "quick" else sets): attempt(chk, "refuse", "limits again", lambda g=g: limits(g, True))
    for g in ([("left_x",), ("right_x",), ("right_x_left",), ("left_x_right",)] if chk.tier == "quick" else []): attempt(chk, "refuse", "limits again", lambda g=g: limits(g, True))
