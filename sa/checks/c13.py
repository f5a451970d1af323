"""C13 querying and plotting never change the model or results."""
import ast
from .common import *
from . import edits, heap
from .slices import GDOM

EDITING = {e[1] for e in edits.EDITS} | {"add_single_entry_exit_plane", "analyse_slope", "analyse_dynamic"}

def queries(w, o):
    """public methods of an object that are not editing calls: (name, required parameters, flags)"""
    cls = w.st.heap[o.id].cls; out = []
    seen = set()
    for c in w.eng.class_mro(cls):
        if not isinstance(c, ClassVal): continue
        for k, v in w.st.heap[c.env.id].vars.items():
            if not isinstance(k, str) or k in seen: continue
            seen.add(k)
            if k.startswith("_") and k not in ("__repr__", "__str__", "__eq__", "__len__", "__iter__"): continue
            if k in EDITING or not isinstance(v, Func): continue
            if v.deco & {"property", "cached_property"}: out.append((k, None, [])); continue
            a = v.node.args; pos = [x.arg for x in a.posonlyargs + a.args][1:]
            nd = len(v.defaults); req = pos[:len(pos) - nd] if nd else pos
            flags = [p for p, d in zip(pos[len(pos) - nd:], v.defaults) if isinstance(d, Node) and T.isc(d) and isinstance(T.cval(d), bool)]
            out.append((k, req, flags))
    return out

def run(chk):
    chk.rule("query-pure", "no record that existed before a query, print or plot call is different after it, whether the call ends normally or with an error")
    chk.rule("analysis-pure", "an analysis changes nothing that an edit does not discard: geometry, materials, loads, water, limits, options and added planes are as before")
    chk.rule("repeat", "asking twice gives the same answer")
    n = 25 if chk.tier == "quick" else 100
    def model(shape, k=2, fos=True):
        w = World(); chk.use(w.eng)
        if shape.get("layers"):
            # many layers and loads of given size
            w.slope("length"); k_ = shape["layers"]
            w.mats = [w.new("Material", unit_weight=const(18), friction_angle=const(30), cohesion=const(2), depth_to_bottom=const(i + 1), name=const(f"m{i}")) for i in range(k_)]
            w.udls = [w.new("Udl", magnitude=const(5 + i), offset=const(i), length=const(1)) for i in range(3)]; w.lls = [w.new("LineLoad", magnitude=const(5 + i), offset=const(i)) for i in range(3)]
            w.st.assume(lt(const(4), sym("height"))); w.st.assume(lt(sym("height"), const(6))); w.st.assume(lt(const(2), sym("length"))); w.st.assume(lt(sym("length"), const(30)))
            w.m(w.o, "set_materials", *w.mats); w.m(w.o, "set_udls", *w.udls); w.m(w.o, "set_lls", *w.lls); w.m(w.o, "set_water_table", const(1))
        else: w.build(shape.get("by", "length"), mats=shape["mats"], udls=shape["udls"], lls=shape["lls"], water=shape["water"])
        w.m(w.o, "update_analysis_options", slices=w.s("n0", "int"), max_iterations=const(2))
        if shape.get("limits"): w.m(w.o, "set_analysis_limits", left_x=w.s("x1"), left_x_right=w.s("x2"), right_x_left=w.s("x3"), right_x=w.s("x4"))
        hook_intersections(w); hook_planes(w, k)
        if fos: hook_fos(w, none=fos == "none")
        if shape.get("individual"):
            for i in range(2):
                for x in ("cxa", "cya", "ra"): w.st.assume(lt(ZERO, w.s(f"{x}{i}")))
                w.m(w.o, "add_single_circular_plane", *[sym(f"{x}{i}") for x in ("cxa", "cya", "ra")])
        w.raises = []
        return w
    full = dict(mats=2, udls=("f", "c"), lls=1, water=True, limits=True)
    shapes = [("full", full), ("one layer", dict(mats=1, udls=("f",), lls=0, water=False)), ("bare", dict(mats=0, udls=(), lls=0, water=False)), ("individual planes", dict(full, individual=True, limits=False, udls=("f",)))]
    shapes += [(f"{k} layers, three loads of each kind", dict(layers=k, many=True)) for k in (4, 6, 12)]
    def ask(w, q, req, fl, tag):
        args = {}
        for p in req: args[p] = w.s("x" if p not in ("y",) else "y9")
        if fl is not None: args.update(fl)
        if req is None: return w.eng.getattr(w.st, w.target, q, None)
        return w.m(w.target, q, **args)
    def states(w, w2, base):
        out = [(w2.st, "")] if not w2.dead() else []
        for st, exc, b in w2.last: out.append((st, f" when {exc.cls} is raised"))
        return out
    for snm, shape in shapes:
        def group(snm=snm, shape=shape):
            w0 = model(shape)
            w1 = w0.clone(); w1.m(w1.o, "analyse_slope"); chk.use(w1.eng)
            only = ("plot_all_planes", "plot_boundary", "print_dynamic_results", "get_external_y_intersection") if shape.get("many") else None
            for stage, base in (("analysed", w1), ("not analysed", w0)):
                if stage == "not analysed" and snm != "full": continue
                targets = [("Slope", base.o)] + ([("Material", base.mats[0]), ("Udl", base.udls[0]), ("LineLoad", base.lls[0])] if snm == "full" and stage == "analysed" else [])
                for tn, t in targets:
                    for q, req, flags in queries(base, t):
                        if only and q not in only: continue
                        variants = [None]
                        if flags and stage == "analysed": variants = [dict.fromkeys(flags, TRUE), dict.fromkeys(flags, FALSE)]
                        for fl in variants:
                            tag = f"{snm}, {stage}: {tn}.{q}" + ("" if fl is None else f" {', '.join(f'{k}={v!r}' for k, v in fl.items())}")
                            def one(base=base, t=t, tn=tn, q=q, req=req, fl=fl, tag=tag):
                                w = base.clone(); w.target = t; w.last = []
                                v = ask(w, q, req, fl, tag); chk.use(w.eng)
                                heap.unchanged(chk, "query-pure", tag, base, states(base, w, base), where_m(base, tn, q), allow=lambda nm, part: not heap.is_state(nm, part), seed=chk.seed, n=n)
                                chk.count("query calls")
                            attempt(chk, "query-pure", tag, one)
        attempt(chk, "query-pure", snm, group)
    # ---- analysis
    def analysis(snm, shape, fos, kw):
        tag = f"{snm}: analyse_slope({', '.join(kw)})" + ("" if fos is True else ", some circles without a value" if fos else ", every slice")
        w0 = model(shape, 1 if not fos else 2, fos)
        w = w0.clone(); w.last = []
        w.m(w.o, "analyse_slope", **{k: w.s(x) for k, x in kw.items()}); chk.use(w.eng)
        wh = where_m(w, "Slope", "analyse_slope")
        # what an edit throws away: parts that are the same after (analysis, edit) as after (edit)
        ids = heap.snapshot_ids(w0.st)
        def edit(base, e):
            b = base.clone()
            for l in ("mats", "udls", "lls"): setattr(b, l, list(getattr(base, l, [])))
            edits.apply(b, edits.BY[e]); return b
        free = None
        rid = w0.o.id
        for e in ("no water table", "tolerance", "udl"):
            a, b = edit(w, e), edit(w0, e)
            if a.dead() or b.dead(): continue
            b.syms = sorted(b.eng.allsyms, key=lambda x: x.id); smp = b.samples(chk.seed, 6, tag=e)
            ok = set()
            fa, fb = a.st.heap[rid].fields, b.st.heap[rid].fields
            pre = w0.st.heap[rid].fields
            for k, x, y in [(c[1], c[2], c[3]) for c in heap.changes(w0.st, w.st, [rid])]:
                u, v = fa.get(k, UNBOUND), fb.get(k, UNBOUND)
                smp.probe([q for q in (u, v, x, y) if isinstance(q, Node)], 6, 2)
                if heap.same_val(u, v) and v is not x: ok.add(k); continue
                pa = [(concrete(a.st, u, ev) if u is not UNBOUND else None, concrete(b.st, v, ev) if v is not UNBOUND else None) for ev in smp.evs]
                if pa and all(p is None and q is None or p is not None and q is not None and pic_diff(p, q) is None for p, q in pa): ok.add(k)
            free = ok if free is None else free & ok
        free = (free or set()) | RESULTS
        planes = set()
        for g, d in [(g2, x) for g, v in (w0.items(field(w0, w0.o, "_individual_planes"))) for g2, x in alts(v)]:
            if isinstance(d, Ref): planes.add(d.id)
        st = w.st
        # a stored plane may get a value for the key FOS
        for i in planes:
            r = st.heap[i]
            if isinstance(r, DictRec):
                st = st if st is not w.st else st.clone()
                st.heap[i] = DictRec([x for x in r.items if x[0] is not const("FOS")], r.kind, r.loc)
        allow = lambda nm, part: nm == "Slope" and part in free or not heap.is_state(nm, part)
        sts = ([(st, "")] if not w.dead() else [])
        heap.unchanged(chk, "analysis-pure", tag, w0, sts, wh, allow=allow, seed=chk.seed, n=n)
        chk.notes.append(f"{tag}: parts an edit discards: {sorted(free)}")
        chk.count("analyses")
    for snm, shape in shapes:
        for fos in (True, False) + (("none",) if shape.get("individual") else ()):
            for kw in ({}, {"max_fos": "mx"}):
                if not fos and (kw or snm == "bare" or shape.get("many")): continue
                attempt(chk, "analysis-pure", f"{snm} {fos} {list(kw)}", lambda a=(snm, shape, fos, kw): analysis(*a))
    def search(it, limits):
        """the default search itself"""
        w0 = World(); w0.build("length", mats=1, udls=("f",), lls=1, water=True); chk.use(w0.eng)
        w0.m(w0.o, "update_analysis_options", iterations=it, min_failure_dist=w0.s("md"))
        if limits: w0.m(w0.o, "set_analysis_limits", left_x=w0.s("x1"), left_x_right=w0.s("x2"), right_x_left=w0.s("x3"), right_x=w0.s("x4"))
        w = w0.clone(); w.last = []
        need(w, "Slope", "_set_entry_exit_planes")
        w.eng.hooks["Slope._get_circle_external_intersection"] = lambda eng, st, fn, recv, args, kw, node: eng.list_of(st, [])
        w.m(w.o, "_set_entry_exit_planes"); chk.use(w.eng)
        heap.unchanged(chk, "analysis-pure", f"search, {it} iterations" + (", limits given" if limits else ""), w0, [(w.st, "")] if not w.dead() else [], where_m(w, "Slope", "_set_entry_exit_planes"), allow=lambda nm, part: nm == "Slope" and part in RESULTS or not heap.is_state(nm, part), seed=chk.seed, n=n)
    for a in ((500, False), (1003, True)): attempt(chk, "analysis-pure", "search", lambda a=a: search(*a))
    # ---- asking twice
    def repeat(q, kw):
        w0 = model(full); w0.m(w0.o, "analyse_slope")
        a = w0.clone(); v1 = a.m(a.o, q, **kw); 
        if a.dead(): chk.ok("repeat", q, "always raises"); return
        b = a.clone()
        for p in ("plot_boundary", "plot_critical", "plot_all_planes", "get_min_FOS_circle"):
            b.m(b.o, p)
        v2 = b.m(b.o, q, **kw)
        s = b.samples(chk.seed, n, tag=q)
        m = 0
        for e in s.evs:
            x, y = concrete(a.st, v1, e), concrete(b.st, v2, e); m += 1
            d = pic_diff(x, y)
            if d: chk.violate("repeat", q, where_m(a, "Slope", q), f"{q} gives {_s(d[1])}, and {_s(d[2])} after plotting", e.env); return
        chk.agreed("repeat", q, f"{m} assignments") if m else chk.undecided("repeat", q, "no assignment")
    for q, kw in (("get_min_FOS", {}), ("get_min_FOS_circle", {}), ("get_min_FOS_end_points", {}), ("get_external_y_intersection", {"x": sym("x")}), ("get_external_x_intersection", {"y": sym("y9")}), ("get_top_coordinates", {}), ("get_bottom_coordinates", {})):
        attempt(chk, "repeat", q, lambda a=(q, kw): repeat(*a))
def _s(x):
    from ..world import _p
    return _p(x)
