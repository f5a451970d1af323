"""C02 loads, layers, water and the automatic water factor follow the current geometry."""
from .common import *
from . import edits

def seq_items(w, name):
    return w.items(field(w, w.o, name))

def invariant(chk, w, tag, wh, n, auto):
    s = w.samples(chk.seed, n, tag=tag)
    tx, ty = xy(w, w.m(w.o, "get_top_coordinates"))
    bx, by = xy(w, w.m(w.o, "get_bottom_coordinates"))
    H = field(w, w.o, "_external_height")
    def fld(o, f, g):
        return gfield(w, o, f)
    for i, (g, u) in enumerate(seq_items(w, "_udls")):
        G = [g]
        r = fld(u, "right", G); l = fld(u, "left", G); o = fld(u, "offset", G); ln = fld(u, "length", G)
        chk.eq("udl-position", f"{tag}/udl {i} right", r, sub(tx, o), s, guard=G, where=wh)
        cont = eq(ln, NONE)
        if cont is TRUE: want = ZERO
        elif cont is FALSE: want = max_(ZERO, sub(sub(tx, o), ln))
        else: want = ite(cont, ZERO, max_(ZERO, sub(sub(tx, o), narrow_num(ln))))
        chk.eq("udl-position", f"{tag}/udl {i} left", l, want, s, guard=G, where=wh)
    for i, (g, u) in enumerate(seq_items(w, "_lls")):
        chk.eq("line-load-position", f"{tag}/line load {i}", fld(u, "coord", [g]), max_(ZERO, sub(tx, fld(u, "offset", [g]))), s, guard=[g], where=wh)
    for i, (g, m) in enumerate(seq_items(w, "_materials")):
        chk.eq("layer-level", f"{tag}/layer {i}", gfield(w, m, "RL"), sub(H, gfield(w, m, "depth_to_bottom")), s, guard=[g], where=wh)
    wd = field(w, w.o, "_water_depth"); wr = field(w, w.o, "_water_RL")
    if w.wd is None: chk.eq("water-level", f"{tag}/water", wr, NONE, s, where=wh)
    else: chk.eq("water-level", f"{tag}/water", wr, max_(ZERO, sub(ty, w.wd)), s, where=wh)
    v = field(w, w.o, "_water_analysis_H")
    run_ = sub(bx, tx); rise = sub(ty, by)
    if auto: chk.eq("water-factor", f"{tag}/factor", v, div(mul(run_, run_), add(mul(run_, run_), mul(rise, rise))), s, where=wh, tol=1e-5)
    chk.count("model states")

def narrow_num(n):
    if n.op == "ite":
        if n.args[1] is NONE: return narrow_num(n.args[2])
        if n.args[2] is NONE: return narrow_num(n.args[1])
    return n
def track(w, lab):
    """what the water depth / automatic factor should be after the edit"""
    if lab == "water table": w.wd = sym("wd9")
    if lab == "no water table": w.wd = None
    if lab == "automatic water factor": w.auto = True
    if lab == "given water factor": w.auto = False

def run(chk):
    chk.rule("udl-position", "every uniform load ends at crest.x - offset and starts at its length left of that (0 when continuous or cut by the model edge)")
    chk.rule("line-load-position", "every line load stands at crest.x - offset, not left of the model edge")
    chk.rule("layer-level", "every layer ends at the model top minus its depth")
    chk.rule("water-level", "the water table is at crest level minus its depth, not below 0, and absent when removed")
    chk.rule("water-factor", "the automatic factor is cos^2 of the current slope angle (run^2 / (run^2 + rise^2))")
    n = 40 if chk.tier == "quick" else 150
    def base(kind):
        w = World()
        if kind == "empty": w.slope("length"); w.wd = None
        elif kind == "angle": w.build("angle", mats=1, udls=("f",), lls=1, water=True); w.wd = sym("wd")
        else: w.build("length", mats=2, udls=("f", "c"), lls=2, water=True); w.wd = sym("wd")
        w.auto = True
        return w
    bases = {}
    for kind in ("empty", "angle", "full"):
        def mk(kind=kind):
            bases[kind] = w = base(kind); chk.use(w.eng)
            invariant(chk, w, kind, where_m(w, "Slope", "set_external_boundary"), n, True)
        attempt(chk, "layer-level", kind, mk)
    skip = {"circle", "no individual planes", "analysis options", "limits", "no limits"}
    es = [e for e in edits.EDITS if e[0] not in skip]
    def step(w, e, tag):
        w = w.clone(); w.mats = list(getattr(w, "mats", [])); w.udls = list(getattr(w, "udls", [])); w.lls = list(getattr(w, "lls", []))
        edits.apply(w, e); track(w, e[0])
        if w.dead(): raise Unsupported("edit always raises")
        chk.use(w.eng)
        invariant(chk, w, tag, where_m(w, "Slope", e[1]), n, w.auto)
        return w
    for kind in bases:
        for e in edits.EDITS:
            if kind != "full" and e[0] in skip: continue
            if e[0] in ("circle",) : continue
            tag = f"{kind} + {e[0]}"
            def one(kind=kind, e=e, tag=tag):
                w = step(bases[kind], e, tag)
                geo = {"geometry by length", "boundary minimums", "material", "udl"}
                for e2 in es:
                    if e2[0] == e[0]: continue
                    deep = chk.tier == "thorough" or (kind == "angle" and (e2[0] in geo or e[0] in geo) and e[0] not in skip) or (kind == "empty" and e2[0] in geo)
                    if not deep: continue
                    t2 = f"{tag} + {e2[0]}"
                    attempt(chk, "layer-level", t2, lambda: step(w, e2, t2))
            attempt(chk, "layer-level", tag, one)
    # ---- an object taken out, and put back after the slope changed
    back = [("material", "remove_material", "set_materials", "mats"), ("udl", "remove_udls", "set_udls", "udls"), ("line load", "remove_lls", "set_lls", "lls")]
    for what, rm, put, lst in back:
        for how in ("one", "all"):
            for g in ("geometry by length", "boundary minimums"):
                tag = f"full - {what} ({how}) + {g} + the same {what}"
                def again(rm=rm, put=put, lst=lst, how=how, g=g, tag=tag):
                    w = bases["full"].clone(); w.mats = list(w.mats); w.udls = list(w.udls); w.lls = list(w.lls)
                    x = getattr(w, lst)[0]
                    if how == "one": w.m(w.o, rm, x)
                    else: w.m(w.o, rm, remove_all=TRUE)
                    edits.apply(w, edits.BY[g])
                    w.m(w.o, put, x)
                    if w.dead(): raise Unsupported("edit always raises")
                    chk.use(w.eng)
                    invariant(chk, w, tag, where_m(w, "Slope", put), n, w.auto)
                attempt(chk, "layer-level", tag, again)
