"""C18 removal takes out exactly what was asked for."""
from .common import *

D = [Fraction(x) for x in ("0", "1", "2", "3")]
NEAR = [Fraction(2), Fraction("2.004"), 2 + Fraction(1, 10 ** 9)]   # nearly the same is not the same
def run(chk):
    chk.rule("exact", "after the removal an entry is left exactly when it does not match the request (same offset, magnitude and, for uniform loads, length; same depth for layers)")
    chk.rule("order", "what is left keeps its order and nothing is duplicated")
    chk.rule("untouched", "removal leaves geometry, the other lists and the entries themselves as they were")
    chk.rule("usable", "whatever is left still draws and still analyses: no arithmetic error is reachable afterwards")
    n = 120 if chk.tier == "quick" else 500
    def check(tag, w, pre, name, objs, left, wh, dom, others):
        s = w.samples(chk.seed, n, dom=dom, tag=tag)
        s.evs = s.evs + w.samples(chk.seed, n // 3, dom={k: NEAR for k in dom}, tag=tag + "near").evs
        lst = field(w, w.o, name)
        for i, (o, keep) in enumerate(zip(objs, left)):
            chk.eq("exact", f"{tag}/{name[1:]} {i}", counted(w, lst, o), ite(keep, ONE, ZERO), s, where=wh, what="number of occurrences of the entry left")
        # order
        bad = FALSE
        k = 0
        for e in s.evs:
            got = [p for p in order_of(w, lst, objs, e)]
            if got is None: continue
            k += 1
            if None in got: chk.violate("exact", f"{tag}/foreign entry", wh, "an entry that was never added is left", e.env); return
            if got != sorted(got): chk.violate("order", tag, wh, f"remaining entries are in order {got}", e.env); return
        if k: chk.agreed("order", tag, f"{k} assignments")
        for nm in others:
            r1, r2 = pre.heap[w.o.id].fields.get(nm), w.st.heap[w.o.id].fields.get(nm)
            if r1 is r2: chk.ok("untouched", f"{tag}/{nm}"); continue
            for e in s.evs:
                d = pic_diff(concrete(pre, r1, e), concrete(w.st, r2, e), nm)
                if d: chk.violate("untouched", f"{tag}/{nm}", wh, f"{d[0]} changed: {d[1]} -> {d[2]}", e.env); break
            else: chk.ok("untouched", f"{tag}/{nm}", "equal pictures")
        chk.count("removals")
    GEO = ["_height", "_length", "_top_coord", "_bot_coord", "_external_length", "_external_height", "_limits", "_water_RL", "_water_analysis_H", "_slices", "_iterations", "_tolerance", "_individual_planes"]
    def usable(tag, w, plot=True):
        w = w.clone(); w.raises = []
        if plot: w.m(w.o, "plot_boundary"); no_raise(chk, "usable", f"{tag}/plot", w, w.last, what="is reachable when drawing what is left", dom={k: D for k in ()})
    def loads(kind, shapes, args, same):
        tag = f"remove_{kind}({','.join(args)}) from {','.join(shapes)}" + (" same object" if same else "")
        w = World(); w.build("length", mats=1); chk.use(w.eng)
        meth = "set_udls" if kind == "udls" else "set_lls"
        mk = (lambda i, t: w.udl(i, t == "c")) if kind == "udls" else (lambda i, t: w.ll(i))
        objs = [mk(i + 1, t) for i, t in enumerate(shapes)]
        for o in objs: w.m(w.o, meth, o)
        rem = [objs[0]] if same else [mk(i + 5, t) for i, t in enumerate(args)]
        dom = {}
        for s_ in w.syms:
            nm = s_.args[0]
            if nm.rstrip("0123456789'") in ("q", "off", "len", "p"): dom[nm] = [d for d in D if d > 0] if nm[0] in "qpl" else D
        pre = w.st.clone(); w.raises = []
        def matches(o, r):
            c = [eq(gfield(w, o, "offset"), gfield(w, r, "offset")), eq(gfield(w, o, "magnitude"), gfield(w, r, "magnitude"))]
            if kind == "udls": c.append(eq(gfield(w, o, "length"), gfield(w, r, "length")))
            return and_(*c)
        w.m(w.o, f"remove_{kind}", *rem)
        wh = where_m(w, "Slope", f"remove_{kind}")
        no_raise(chk, "usable", f"{tag}/call", w, w.last, dom=dom)
        left = [not_(or_(*[matches(o, r) for r in rem])) for o in objs]
        check(tag, w, pre, "_udls" if kind == "udls" else "_lls", objs, left, wh, dom, GEO + ["_materials"] + (["_lls"] if kind == "udls" else ["_udls"]))
        usable(tag, w)
        # everything
        w.m(w.o, f"remove_{kind}", remove_all=True)
        s = w.samples(chk.seed, 20, dom=dom, tag=tag)
        chk.eq("exact", f"{tag}/then all", total(w, field(w, w.o, "_udls" if kind == "udls" else "_lls")), ZERO, s, where=wh, what="entries left after removing all")
        o = mk(9, "f"); w.m(w.o, meth, o)
        usable(f"{tag}/then all, then one added", w)
    shp = {"udls": [(("f", "f"), ("f",), False), (("f", "c"), ("c",), False), (("f", "f", "f"), ("f",), False), (("f", "f"), ("f", "f"), False), (("c",), ("f",), False), (("f", "f", "c"), ("f",), True), ((), ("f",), False)],
           "lls": [(("l", "l"), ("l",), False), (("l", "l", "l"), ("l",), False), (("l", "l"), ("l", "l"), False), (("l", "l"), ("l",), True), ((), ("l",), False)]}
    if chk.tier == "thorough":
        shp["udls"] += [(("c", "f", "c", "f"), ("c", "f"), False), (("f",) * 4, ("f", "f"), False)]
        shp["lls"] += [(("l",) * 4, ("l", "l"), False)]
    for kind, l in shp.items():
        for a in l: attempt(chk, "exact", f"remove_{kind} {a}", lambda kind=kind, a=a: loads(kind, *a))
    def mats(k, by):
        tag = f"remove_material({by}) from {k}"
        w = World(); w.slope("length"); chk.use(w.eng)
        dom = {}
        ms = []
        for i in range(1, k + 1):
            d = w.s(f"depth{i}"); dom[f"depth{i}"] = D + [Fraction(4)]
            w.st.assume(le(ZERO, d))
            for j in range(1, i): w.st.assume(not_(eq(sym(f"depth{j}"), d)))
            if i > 1: w.st.assume(lt(sym(f"depth{i-1}"), d))
            ms.append(w.material(i))
        order = list(reversed(ms)) if by == "depth" else ms
        for m in order: w.m(w.o, "set_materials", m)
        pre = w.st.clone(); w.raises = []
        d = w.s("dx"); dom["dx"] = D + [Fraction(5), Fraction(-1)]
        if by == "depth": w.m(w.o, "remove_material", depth=d); hit = [eq(sym(f"depth{i}"), d) for i in range(1, k + 1)]
        elif by == "depth 0": w.m(w.o, "remove_material", depth=0); hit = [eq(sym(f"depth{i}"), ZERO) for i in range(1, k + 1)]
        elif by == "material":
            w.st.assume(le(ZERO, d))
            m = w.material(9, depth=d); w.m(w.o, "remove_material", m); hit = [eq(sym(f"depth{i}"), d) for i in range(1, k + 1)]
        elif by == "same object": w.m(w.o, "remove_material", ms[-1]); hit = [FALSE] * (k - 1) + [TRUE]
        elif by == "nothing": w.m(w.o, "remove_material"); hit = [FALSE] * k
        wh = where_m(w, "Slope", "remove_material")
        no_raise(chk, "usable", f"{tag}/call", w, w.last, dom=dom)
        check(tag, w, pre, "_materials", ms, [not_(h) for h in hit], wh, dom, GEO + ["_udls", "_lls"])
        w.m(w.o, "remove_material", remove_all=True)
        s = w.samples(chk.seed, 20, dom=dom, tag=tag)
        chk.eq("exact", f"{tag}/then all", total(w, field(w, w.o, "_materials")), ZERO, s, where=wh, what="layers left after removing all")
        usable(f"{tag}/then all", w)
    def draw(k, i):
        tag = f"layer {i} of {k} removed"
        w = World(); w.slope("length"); w.materials(k); w.loads(("f",), 1); chk.use(w.eng)
        w.m(w.o, "remove_material", depth=gfield(w, w.mats[i - 1], "depth_to_bottom"))
        if w.dead(): raise Unsupported("removal raises")
        usable(tag, w)
    for k in (1, 2, 3):
        for i in range(1, k + 1): attempt(chk, "usable", f"layer {i} of {k}", lambda k=k, i=i: draw(k, i))
    for by in ("depth", "depth 0", "material", "same object", "nothing"):
        for k in ((1, 2, 3) if by in ("depth", "material") else (2,)): attempt(chk, "exact", f"remove_material {by}", lambda by=by, k=k: mats(k, by))

    # everything of a kind, nothing of the others
    ATTR = {"remove_udls": "_udls", "remove_lls": "_lls", "remove_material": "_materials", "remove_individual_planes": "_individual_planes", "remove_water_table": "_water_depth", "remove_analysis_limits": "_limits"}
    def everything(what, arg):
        w = World(); w.build("length", mats=2, udls=("f", "c"), lls=2, water=True); hook_intersections(w); chk.use(w.eng)
        for i in "ab":
            c = [w.s(x + i) for x in ("cx", "cy", "r")]
            for x in c: w.st.assume(lt(ZERO, x))
            w.m(w.o, "add_single_circular_plane", *c)
        w.m(w.o, "set_analysis_limits", left_x=w.s("lx"))
        pre = w.st.clone(); w.raises = []
        mk = {"remove_udls": lambda: w.udl(7), "remove_lls": lambda: w.ll(7), "remove_material": lambda: w.material(7)}
        ca = arg != "none given" and {"remove_udls": w.udls, "remove_lls": w.lls, "remove_material": w.mats}.get(what)
        args = [] if not ca else [ca[0] if arg == "one of them" else mk[what]()]
        w.m(w.o, what, *args, **({"remove_all": TRUE} if what in mk else {}))
        W = where_m(w, "Slope", what); tag = f"{what}, all, {arg}"
        if w.dead(): chk.violate("usable", tag, W, "the call is always refused", {}); return
        s = w.samples(chk.seed, 20, tag=tag)
        for wh, a in ATTR.items():
            r1, r2 = pre.heap[w.o.id].fields.get(a), w.st.heap[w.o.id].fields.get(a)
            if wh == what:
                if a == "_water_depth": chk.eq("exact", f"{tag}: water table", r2, NONE, s, where=W)
                elif a != "_limits": chk.eq("exact", f"{tag}: {a[1:]} left", total(w, r2), ZERO, s, where=W, what="entries left after removing all")
                continue
            for e in s.evs:
                d = pic_diff(concrete(pre, r1, e), concrete(w.st, r2, e), a)
                if d: chk.violate("untouched", f"{tag}/{a}", W, f"{d[0]} changed: {d[1]} -> {d[2]}", e.env); break
            else: chk.ok("untouched", f"{tag}/{a}", "equal pictures")
        chk.count("removals")
    for what in ATTR:
        for arg in ("none given", "one of them", "another") if what in ("remove_udls", "remove_lls", "remove_material") else ("none given",):
            attempt(chk, "exact", f"{what}, all, {arg}", lambda what=what, arg=arg: everything(what, arg))

def order_of(w, lst, objs, e):
    ids = {o.id: i for i, o in enumerate(objs)}
    for g, v in w.items(lst):
        t = e.truth(g)
        if t is not True: continue
        while isinstance(v, VIte): v = v.a if e.truth(v.c) is True else v.b
        yield ids.get(v.id) if isinstance(v, Ref) else None

