"""C08 layers ordered by depth, filling the ground."""
from .common import *
from .slices import *
from itertools import permutations

def run(chk):
    chk.rule("order", "after any sequence of additions and removals the layers are in strictly increasing depth order")
    chk.rule("kept", "every added layer that was not removed is there once, every removed one is gone")
    chk.rule("weights", "a slice weighs, per layer, unit weight x thickness of the layer inside the slice x width; each layer reaches from the bottom of the one above to its own, the last without limit")
    chk.rule("strength", "both methods take cohesion and friction of the layer containing the slice base")
    n_ = 40 if chk.tier == "quick" else 150
    def check_order(w, tag, s, present):
        wh = where_m(w, "Slope", "set_materials")
        ls = field(w, w.o, "_materials")
        items = [(g, gfield(w, m, "depth_to_bottom")) for g, m in w.items(ls)]
        for i in range(len(items)):
            for j in range(i + 1, len(items)):
                chk.holds("order", f"{tag}: entries {i},{j}", lt(items[i][1], items[j][1]), s, guard=[items[i][0], items[j][0]], where=wh, what="layers out of order or at the same depth", prove_it=False)
        for m, there in present:
            chk.eq("kept", f"{tag}: layer {m.id}", counted(w, ls, m), ite(there, ONE, ZERO), s, where=wh, what="how often the layer is in the model", prove_it=False)
        chk.count("material sequences")
    def seq(label, steps):
        """steps: lists of layer numbers to add at once, or ('-', i) removal"""
        w = World(); w.slope("length"); chk.use(w.eng)
        ms = {}; present = {}
        for s_ in steps:
            if isinstance(s_, tuple):
                w.m(w.o, "remove_material", **({"material": ms[s_[1]]} if s_[0] == "-" else {"depth": sym(f"depth{s_[1]}")}))
                # abs() of depths: equal depths cannot both be present
                present[s_[1]] = FALSE
            elif s_ == "geometry": w.m(w.o, "set_external_boundary", height=w.s("height9"), length=w.s("length9"), angle=None)
            else:
                for i in s_:
                    if i not in ms: w.st.assume(lt(ZERO, w.s(f"depth{i}"))); ms[i] = w.material(i)
                    present[i] = TRUE
                w.m(w.o, "set_materials", *[ms[i] for i in s_])
        dom = {f"depth{i}": [Fraction(k, 2) for k in range(1, 20)] for i in ms}
        s = w.samples(chk.seed, n_, dom=dom, tag=label)
        check_order(w, label, s, [(ms[i], present[i]) for i in ms])
    SEQ = [("together", [[1, 2, 3]]), ("one by one", [[1], [2], [3]]), ("two then one", [[1, 2], [3]]), ("one then two", [[1], [2, 3]]), ("removal between", [[1, 2], ("-", 1), [3]]),
           ("removal by depth", [[1, 2, 3], ("d", 2)]), ("geometry between", [[1], "geometry", [2]]), ("removed and added again", [[1, 2], ("-", 2), [2]])]
    if chk.tier == "thorough": SEQ += [("four one by one", [[1], [2], [3], [4]]), ("four together", [[1, 2, 3, 4]]), ("all removed", [[1, 2], ("-", 1), ("-", 2), [3]])]
    for l, st in SEQ: attempt(chk, "order", l, lambda l=l, st=st: seq(l, st))

    # weights of single slices from the weight calculation itself
    def weight(k, order, edit=None):
        tag = f"{k} layers added {order}" + (f", then {edit}" if edit else "")
        w = World(); w.slope("length"); chk.use(w.eng)
        need(w, "Slope", "_calculate_strip_weights")
        ms = {}
        for i in range(1, k + 1):
            w.st.assume(lt(ZERO, w.s(f"depth{i}")))
            for j in range(1, i): w.st.assume(lt(sym(f"depth{j}"), sym(f"depth{i}")))
            ms[i] = w.material(i)
        for grp in order: w.m(w.o, "set_materials", *[ms[i] for i in grp])
        if edit == "geometry": w.m(w.o, "set_external_boundary", height=w.s("height9"), length=w.s("length9"), angle=None)
        if edit == "larger model": w.m(w.o, "update_boundary_options", MIN_EXT_H=w.s("mh"))
        if edit == "removal": w.m(w.o, "remove_material", material=ms[1]); ms.pop(1)
        b, yt, yb = w.s("b"), w.s("yt"), w.s("yb")
        H = field(w, w.o, "_external_height")
        w.st.assume(lt(ZERO, b)); w.st.assume(le(yb, yt)); w.st.assume(le(yt, H))
        dom = {"b": [Fraction(1, 2), Fraction(1), Fraction(3)], "yt": lambda r: Fraction(r.randint(0, 80), 4), "yb": lambda r: Fraction(r.randint(-24, 60), 4)}
        for i in ms: dom[f"depth{i}"] = [Fraction(x, 2) for x in range(1, 26)]
        v = w.m(w.o, "_calculate_strip_weights", b, w.eng.new(w.st, ArrRec([yt, yt])), w.eng.new(w.st, ArrRec([yb, yt])))
        r = w.eng.arr(w.st, v)
        if r is None or r.items is None: raise Unsupported("weights are not an array")
        def spec(yb):
            t = ZERO; top = H; last = max(ms)
            for i in sorted(ms):
                bot = sub(H, sym(f"depth{i}"))
                th = sub(min_(yt, top), yb if i == last else max_(yb, bot))
                t = add(t, mul(sym(f"uw{i}"), max_(ZERO, th))); top = bot
            return mul(t, b)
        s = w.samples(chk.seed, n_ * 2, dom=dom, tag=tag)
        wh = where_m(w, "Slope", "_calculate_strip_weights")
        chk.eq("weights", f"{tag}: slice", r.items[0], spec(yb), s, where=wh, what="weight of a slice", prove_it=False)
        chk.eq("weights", f"{tag}: empty slice", r.items[1], spec(yt), s, where=wh, what="weight of a slice without height", prove_it=False)
        chk.count("weight configurations")
        if w.eng.class_attr(w.st, w.cls("Slope"), "_get_material_at_depth") is not None:
            m = w.m(w.o, "_get_material_at_depth", yb)
            want = gfield(w, ms[max(ms)], "cohesion")
            for i in sorted(ms, reverse=True): want = ite(lt(sub(H, sym(f"depth{i}")), yb), gfield(w, ms[i], "cohesion"), want)
            chk.eq("strength", f"{tag}: layer at a height", gfield(w, m, "cohesion"), want, s, where=where_m(w, "Slope", "_get_material_at_depth"), what="cohesion at the base", prove_it=False)
    WQ = [(1, [[1]]), (2, [[1, 2]]), (2, [[2], [1]]), (3, [[3, 1], [2]]), (2, [[1, 2]], "geometry"), (2, [[1, 2]], "larger model"), (3, [[1, 2, 3]], "removal")]
    if chk.tier == "thorough": WQ += [(3, [[a], [b], [c]]) for a, b, c in permutations((1, 2, 3))] + [(4, [[4, 2], [3, 1]]), (4, [[1, 2, 3, 4]], "geometry")]
    for a in WQ: attempt(chk, "weights", str(a), lambda a=a: weight(*a))

    def method(meth, k, it, order=None):
        if agrees(chk, meth, it, deep=True) is not True:
            chk.undecided("strength", f"{meth} {k}", "the method differs from the formula with a single deep layer already (reported by C10)"); return
        w, v, spec, s, tag, R, c = fos_pair(chk, meth, k, iters=it)
        chk.eq("strength", f"{meth}: {tag}", v, spec, s, where=where_m(w, "Slope", meth), what="factor of safety of layered ground", tol=1e-6, prove_it=False)
        chk.count("layered methods compared")
    for m, it in ((ORDINARY, 0), (BISHOP, 1)):
        for k in ((1, 2, 3) if chk.tier == "quick" else (1, 2, 3, 4)): attempt(chk, "strength", f"{m} {k}", lambda m=m, k=k, it=it: method(m, k, it))
