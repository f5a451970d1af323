"""C28 what is given to a slope, and not removed, is exactly what it holds."""
from .common import *

def Dm(*xs): return [Fraction(x) for x in xs]
DOM = {}
for i in range(1, 6):
    for q in ("", "'"):
        DOM[f"off{i}{q}"] = Dm("0", "1", "-1", "2", "2.5")
    DOM[f"q{i}"] = DOM[f"p{i}"] = Dm("0", "5", "-5", "0.4", "20", "0.001")
    DOM[f"len{i}"] = Dm("0", "1", "-1", "3")
    DOM[f"depth{i}"] = Dm("0", "1", "-1", "2", "3.5", "40")
A = T.abs_

def run(chk):
    chk.rule("added", "a load of magnitude other than 0 and a material are held once per time given, until removed; a load of magnitude 0 and objects of another kind are not held")
    chk.rule("removed", "removing takes away the loads equal in magnitude, offset and length to the one given, and the material at the depth given, whether or not it is the same object, and nothing else")
    chk.rule("all", "remove_all leaves none of the kind, and removes nothing of another kind")
    chk.rule("unaltered", "holding an object does not change the properties it was made with")
    chk.rule("planes", "an individual circle that meets the ground is held with the centre and radius given, after those given before; clearing leaves none")
    n = 120 if chk.tier == "quick" else 500
    def held(w, attr, rule, tag, objs, wh):
        """objs: (object, number of times it has to be held)"""
        if w.dead(): chk.violate(rule, tag, wh, "the call is always refused", {}); return
        chk.use(w.eng); chk.count("histories")
        lst = field(w, w.o, attr); s = w.samples(chk.seed, n, DOM, tag=tag)
        tot = ZERO
        for i, (o, want) in enumerate(objs):
            chk.eq(rule, f"{tag}: object {i + 1}", counted(w, lst, o), want, s, where=wh, what="times the object is held")
            tot = add(tot, want)
        chk.eq(rule, f"{tag}: number held", total(w, lst), tot, s, where=wh, what="number of objects held")
        return s
    def one_if(c): return ite(c, ONE, ZERO)
    # ---- loads
    class K: pass
    udl = K(); udl.cls = "Udl"; udl.attr = "_udls"; udl.set = "set_udls"; udl.rm = "remove_udls"; udl.mk = lambda w, i: w.udl(i, positive=False)
    udl.on = lambda i: not_(eq(sym(f"q{i}"), ZERO))
    udl.key = lambda i: (A(sym(f"q{i}")), A(sym(f"off{i}")), A(sym(f"len{i}")))
    ll = K(); ll.cls = "LineLoad"; ll.attr = "_lls"; ll.set = "set_lls"; ll.rm = "remove_lls"; ll.mk = lambda w, i: w.ll(i, positive=False)
    ll.on = lambda i: not_(eq(sym(f"p{i}"), ZERO))
    ll.key = lambda i: (A(sym(f"p{i}")), A(sym(f"off{i}'")))
    same = lambda k, i, j: and_(*[eq(a, b) for a, b in zip(k.key(i), k.key(j))])
    for k in (udl, ll):
        def W(w, m): return where_m(w, "Slope", m)
        def given(k=k):
            for how in ("together", "one by one", "same object twice"):
                w = World(); w.slope("length")
                us = [k.mk(w, i) for i in (1, 2, 3)]
                if how == "together": w.m(w.o, k.set, *us)
                elif how == "one by one":
                    for u in us: w.m(w.o, k.set, u)
                else: w.m(w.o, k.set, us[0], us[1], us[0])
                want = [(us[0], one_if(k.on(1))), (us[1], one_if(k.on(2))), (us[2], one_if(k.on(3)))]
                if how == "same object twice": want = [(us[0], mul(const(2), one_if(k.on(1)))), want[1]]
                s = held(w, k.attr, "added", f"{k.set} {how}", want, W(w, k.set))
                if s:
                    names = ("magnitude", "offset", "length")
                    for i in (1, 2):
                        for f, v in zip(names, k.key(i)):
                            want = ite(eq(v, ZERO), NONE, v) if f == "length" else v
                            chk.eq("unaltered", f"{k.set} {how}: {f} of object {i}", field(w, us[i - 1], f), want, s, where=W(w, k.set))
        attempt(chk, "added", k.set, given)
        def other(k=k):
            w = World(); w.slope("length"); u = k.mk(w, 1); o = (ll if k is udl else udl).mk(w, 2)
            w.m(w.o, k.set, o, u, const("load"), const(3))
            held(w, k.attr, "added", f"{k.set} with objects of another kind", [(u, one_if(k.on(1))), (o, ZERO)], W(w, k.set))
        w0 = World(); w0.slope("length"); w0.raises.clear()
        attempt(chk, "added", f"{k.set} other kinds", other)
        def removed(k=k):
            for how in ("the object", "another object", "two objects", "nothing", "twice given", "the only one"):
                w = World(); w.slope("length")
                us = [k.mk(w, i) for i in (1, 2, 3)]
                if how == "the only one":
                    w.m(w.o, k.set, us[0]); w.m(w.o, k.rm, us[0]); held(w, k.attr, "removed", f"{k.rm}: {how}", [(us[0], ZERO)], W(w, k.rm)); continue
                w.m(w.o, k.set, *us)
                if how == "twice given": w.m(w.o, k.set, us[0])
                on = [k.on(i) for i in (1, 2, 3)]
                gone = {"the object": (2,), "another object": (4,), "two objects": (1, 3), "nothing": (), "twice given": (1,)}[how]
                args = [k.mk(w, g) if g > 3 else us[g - 1] for g in gone]
                w.m(w.o, k.rm, *args)
                want = []
                for i in (1, 2, 3):
                    stay = and_(on[i - 1], *[not_(same(k, i, g)) for g in gone])
                    want.append((us[i - 1], one_if(stay)))
                held(w, k.attr, "removed", f"{k.rm}: {how}", want, W(w, k.rm))
        attempt(chk, "removed", k.rm, removed)
        def again(k=k):
            w = World(); w.slope("length"); us = [k.mk(w, i) for i in (1, 2)]
            w.m(w.o, k.set, *us); w.m(w.o, k.rm, us[0]); w.m(w.o, k.set, us[0])
            held(w, k.attr, "removed", f"{k.rm}: removed and given again", [(us[0], one_if(k.on(1))), (us[1], one_if(and_(k.on(2), not_(same(k, 1, 2)))))], W(w, k.rm))
        attempt(chk, "removed", f"{k.rm} again", again)
    # ---- materials
    def mats(how):
        w = World(); w.slope("length")
        ms = [w.material(i) for i in (1, 2, 3)]
        W = where_m(w, "Slope", "set_materials" if how.startswith("added") else "remove_material")
        if how == "added one by one":
            for m in ms: w.m(w.o, "set_materials", m)
        elif how == "added two then one": w.m(w.o, "set_materials", *ms[:2]); w.m(w.o, "set_materials", ms[2])
        else: w.m(w.o, "set_materials", *ms)
        d = [A(sym(f"depth{i}")) for i in (1, 2, 3)]
        stay = [TRUE] * 3
        if how == "the object": w.m(w.o, "remove_material", ms[1]); stay[1] = FALSE
        if how == "another object":
            m = w.material(4); w.m(w.o, "remove_material", m); stay = [not_(eq(x, A(sym("depth4")))) for x in d]
        if how == "at a depth":
            x = w.s("depth5"); w.pos(x, False); w.m(w.o, "remove_material", depth=x); stay = [not_(eq(y, x)) for y in d]
        if how == "nothing": w.m(w.o, "remove_material")
        if how == "the last one":
            w.m(w.o, "remove_material", ms[0]); w.m(w.o, "remove_material", ms[1]); w.m(w.o, "remove_material", ms[2]); stay = [FALSE] * 3
        if how == "two in turn": w.m(w.o, "remove_material", ms[2]); w.m(w.o, "remove_material", depth=d[0]); stay = [FALSE, TRUE, FALSE]
        if how == "removed and given again": w.m(w.o, "remove_material", ms[0]); w.m(w.o, "set_materials", ms[0])
        if how == "all, then one": w.m(w.o, "remove_material", remove_all=TRUE); w.m(w.o, "set_materials", ms[1]); stay = [FALSE, TRUE, FALSE]
        s = held(w, "_materials", "added" if how.startswith("added") else "removed", f"materials: {how}", [(m, one_if(c)) for m, c in zip(ms, stay)], W)
        if s:
            for i, m in enumerate(ms, 1):
                for f, v in (("unit_weight", sym(f"uw{i}")), ("friction_angle", sym(f"phi{i}")), ("cohesion", A(sym(f"coh{i}"))), ("depth_to_bottom", d[i - 1])):
                    chk.eq("unaltered", f"materials: {how}: {f} of material {i}", field(w, m, f), v, s, where=W)
    for how in ("added at once", "added one by one", "added two then one", "the object", "another object", "at a depth", "nothing", "two in turn", "removed and given again", "all, then one", "the last one"):
        attempt(chk, "added", f"materials {how}", lambda how=how: mats(how))
    # ---- all of a kind, nothing of the others
    def everything(what):
        w = World(); w.build("length", mats=2, udls=("f", "c"), lls=2, water=True); hook_intersections(w)
        c = [w.s(x) for x in ("cxa", "cya", "ra")]
        for x in c: w.st.assume(lt(ZERO, x))
        w.m(w.o, "add_single_circular_plane", *c)
        attrs = {"_udls": w.udls, "_lls": w.lls, "_materials": w.mats}
        ca = {"remove_udls": "_udls", "remove_lls": "_lls", "remove_material": "_materials", "remove_water_table": None, "remove_individual_planes": None, "remove_analysis_limits": None}
        w.m(w.o, what, **({"remove_all": TRUE} if ca[what] else {}))
        W = where_m(w, "Slope", what)
        if w.dead(): chk.violate("all", what, W, "the call is always refused", {}); return
        for a, objs in attrs.items():
            held(w, a, "all", f"{what}: {a[1:]}", [(o, ZERO if a == ca[what] else ONE) for o in objs], W)
        s = w.samples(chk.seed, 10, DOM, tag=what)
        chk.eq("all", f"{what}: water depth", field(w, w.o, "_water_depth"), NONE if what == "remove_water_table" else sym("wd"), s, where=W)
        chk.eq("all", f"{what}: individual planes", total(w, field(w, w.o, "_individual_planes")), ZERO if what == "remove_individual_planes" else ONE, s, where=W)
    for what in ("remove_udls", "remove_lls", "remove_material", "remove_water_table", "remove_individual_planes", "remove_analysis_limits"):
        attempt(chk, "all", what, lambda what=what: everything(what))
    # ---- individual circles
    def planes():
        w = World(); w.build("length", mats=1); hook_intersections(w); chk.use(w.eng)
        W = where_m(w, "Slope", "add_single_circular_plane")
        cs = []
        for i in "ab":
            c = [w.s(x + i) for x in ("cx", "cy", "r")]
            for x in c: w.st.assume(lt(ZERO, x))
            w.m(w.o, "add_single_circular_plane", *c); cs.append(c)
        if w.dead(): chk.violate("planes", "two circles", W, "the call is always refused", {}); return
        its = w.items(field(w, w.o, "_individual_planes")); s = w.samples(chk.seed, n // 2, tag="planes")
        chk.eq("planes", "number held", total(w, field(w, w.o, "_individual_planes")), const(2), s, where=W)
        if len(its) == 2:
            for i, (g, d) in enumerate(its):
                for key, v in zip(("c_x", "c_y", "radius"), cs[i]):
                    x = [vv for kk, gg, vv in w.st.heap[d.id].items if isinstance(kk, Node) and kk is const(key)]
                    if not x: chk.undecided("planes", f"circle {i + 1} {key}", "not found"); continue
                    chk.eq("planes", f"circle {i + 1} {key}", scalar(x[-1]), v, s, where=W)
        w.m(w.o, "remove_individual_planes")
        chk.eq("planes", "cleared", total(w, field(w, w.o, "_individual_planes")), ZERO, s, where=where_m(w, "Slope", "remove_individual_planes"))
    attempt(chk, "planes", "circles", planes)
    def missed():
        w = World(); w.build("length", mats=1); chk.use(w.eng)
        need(w, "Slope", "_get_circle_external_intersection")
        px, py = w.s("px"), w.s("py")
        for tag, pts in (("no", []), ("one", [(px, py)]), ("the same two", [(px, py), (px, py)])):
            w2 = w.clone()
            w2.eng.hooks["Slope._get_circle_external_intersection"] = lambda eng, st, f, recv, args, kw, node, pts=pts: eng.list_of(st, [VTuple(list(p)) for p in pts])
            W = where_m(w2, "Slope", "add_single_circular_plane")
            w2.m(w2.o, "add_single_circular_plane", w2.s("cx"), w2.s("cy"), w2.s("r"))
            if w2.dead(): chk.violate("planes", f"circle with {tag} intersections", W, "the call is always refused", {}); continue
            chk.eq("planes", f"circle with {tag} intersections", total(w2, field(w2, w2.o, "_individual_planes")), ZERO, w2.samples(chk.seed, 10, tag=tag), where=W)
        w.eng.hooks.pop("Slope._get_circle_external_intersection", None)
    attempt(chk, "planes", "circles that miss", missed)
    def entry():
        w = World(); w.build("length", mats=1); hook_intersections(w); chk.use(w.eng)
        W = where_m(w, "Slope", "add_single_entry_exit_plane")
        need(w, "Slope", "_generate_planes", "get_external_y_intersection")
        seen = []
        def gen(eng, st, f, recv, args, kw, node):
            seen.append(call_args(f, args, kw))
            return eng.list_of(st, [plane_dict(eng, st, {k: w.s(k + str(i)) for k in ("lx", "ly", "rx", "ry", "cx", "cy", "r")}) for i in (1, 2)])
        w.eng.hooks["Slope._generate_planes"] = gen
        w.m(w.o, "add_single_circular_plane", w.s("cxa"), w.s("cya"), w.s("ra"))
        w.m(w.o, "add_single_entry_exit_plane", w.s("xl"), w.s("xr"), const(2))
        if w.dead() or not seen: raise Unsupported("planes are not generated as expected")
        s = w.samples(chk.seed, 20, tag="entry")
        chk.eq("planes", "entry and exit: planes held", total(w, field(w, w.o, "_individual_planes")), const(3), s, where=W)
    attempt(chk, "planes", "entry and exit", entry)
