"""C01 editing the model discards earlier analysis results."""
from .common import *
from . import edits

GETTERS = [("get_min_FOS", {}), ("get_min_FOS_circle", {}), ("get_min_FOS_end_points", {}), ("plot_critical", {}), ("plot_all_planes", {})]

def run(chk):
    chk.rule("discard", "after the edit every reader of analysis results fails or has nothing to report: no execution of it completes with a value")
    chk.rule("fresh", "analysing after the edit gives the same factor of safety expression whether or not the model was analysed before the edit")
    chk.rule("no-memory", "apart from results, the model after analyse-then-edit equals the model after the edit alone")
    n = 30 if chk.tier == "quick" else 120
    def base(planes="search", fos="fos"):
        w = World(); w.build("length", mats=2, udls=("f",), lls=1, water=True); w.auto = True
        w.m(w.o, "update_analysis_options", slices=w.s("n0", "int"), max_iterations=const(2))
        chk.use(w.eng)
        hook_intersections(w)
        if planes == "search": hook_planes(w, 1)
        else: w.m(w.o, "add_single_circular_plane", w.s("cxa"), w.s("cya"), w.s("ra")); [w.st.assume(lt(ZERO, sym(x))) for x in ("cxa", "cya", "ra")]
        if fos == "fos": hook_fos(w, none=False)
        return w
    lists = ("mats", "udls", "lls")
    def cl(w):
        w2 = w.clone()
        for l in lists: setattr(w2, l, list(getattr(w, l, [])))
        w2.eng = w.eng
        return w2
    more = edits.EDITS + [("entry and exit plane", "add_single_entry_exit_plane", lambda w: ((w.s("lx9"), w.s("rx9")), {}))]
    if chk.tier == "quick": more_v = [e for e in more if e[0] not in ("entry and exit plane",)]
    else: more_v = more
    for planes in ("search", "individual"):
        def setup(planes=planes):
            w0 = base(planes)
            if planes == "search": 
                # individual planes override the search: leave the list as built
                pass
            w0.m(w0.o, "analyse_slope")
            v = w0.m(w0.o, "get_min_FOS")
            if w0.dead(): raise Missing("analysis gives no result")
            for e in more_v:
                def one(e=e):
                    w = cl(w0); edits.apply(w, e); chk.use(w.eng); chk.count("editing calls")
                    if w.dead(): chk.undecided("discard", f"{planes}: {e[0]}", "edit always raises"); return
                    wh = where_m(w, "Slope", e[1])
                    smp = w.samples(chk.seed, n, tag=e[0])
                    for g, kw in GETTERS:
                        w2 = cl(w); v = w2.m(w2.o, g, **{k: const(x) for k, x in kw.items()})
                        c = f"{planes}: {e[0]} then {g}"
                        if w2.dead(): chk.ok("discard", c, "every path raises"); continue
                        fails = [and_(*[c_ for c_, soft in x[0].pc[len(w.st.pc):]]) for x in w2.last]
                        if isinstance(v, Node) and v is NONE: chk.ok("discard", c, "returns nothing"); continue
                        hit = [ev for ev in smp.evs if all(ev.truth(x) is False for x in fails)]
                        if hit: chk.violate("discard", c, wh, f"{g} still reports a result of the earlier model", hit[0].env)
                        elif chk._prove(lambda: prove.valid(FALSE, w2.pc())): chk.ok("discard", c, "unreachable")
                        else: chk.undecided("discard", c, f"{len(smp.evs)} admissible assignments, none completes")
                    # a circle that misses the ground adds no plane: nothing else to say
                attempt(chk, "discard", f"{planes}: {e[0]}", one)
        attempt(chk, "discard", planes, setup)
    # ---- [analyse; edit; analyse] = [edit; analyse], with the real slice calculation
    for planes in ("search", "individual"):
        def fresh(planes=planes):
            w0 = base(planes, fos="real")
            wA = cl(w0); wA.m(wA.o, "analyse_slope")
            for e in more_v:
                if e[0] in ("circle", "no individual planes") and planes == "individual": continue
                def one(e=e):
                    a, b = cl(wA), cl(w0)
                    edits.apply(a, e); edits.apply(b, e)
                    if a.dead() or b.dead(): raise Unsupported("edit always raises")
                    wh = where_m(a, "Slope", e[1])
                    smp = b.samples(chk.seed, n, tag=e[0], extra_pc=[])
                    # model state
                    pa, pb = a.st.heap[a.o.id], b.st.heap[b.o.id]
                    bad = None
                    for ev in smp.evs:
                        x, y = (dict(concrete(s, Ref(b.o.id), ev, RESULTS)[2]) for s in (a.st, b.st))
                        for k in y:
                            if k not in x: bad = (k, "absent", "present", ev); break
                            d = pic_diff(strip_fos(x[k]), strip_fos(y[k]), k)
                            if d: bad = d + (ev,); break
                        if bad: break
                    c = f"{planes}: {e[0]}"
                    if bad: chk.violate("no-memory", c, wh, f"{bad[0]} depends on whether the model was analysed before: {bad[1]} / {bad[2]}", bad[3].env)
                    elif smp.evs: chk.agreed("no-memory", c, f"{len(smp.evs)} assignments")
                    else: chk.undecided("no-memory", c, "no admissible assignment")
                    n0 = len(a.st.pc)
                    a.m(a.o, "analyse_slope"); b.m(b.o, "analyse_slope")
                    va, vb = first_fos(a), first_fos(b)
                    chk.count("histories compared")
                    if va is None or vb is None: chk.undecided("fresh", c, "no result in one history"); return
                    chk.eq("fresh", c, va, vb, smp, where=where_m(a, "Slope", "analyse_slope"), what="factor of safety after the edit depends on an earlier analysis", prove_it=False)
                attempt(chk, "fresh", f"{planes}: {e[0]}", one)
            # and analysing twice gives the same
            a, b = cl(wA), cl(w0)
            a.m(a.o, "analyse_slope"); b.m(b.o, "analyse_slope")
            chk.eq("fresh", f"{planes}: nothing", first_fos(a), first_fos(b), b.samples(chk.seed, n), where=where_m(a, "Slope", "analyse_slope"), what="factor of safety depends on an earlier analysis", prove_it=False)
        attempt(chk, "fresh", planes, fresh)
    # ---- the results of an analysis do not depend on the limit, or on the number, of earlier ones
    def two(planes):
        w = World(); w.build("length", mats=1); w.auto = True
        chk.use(w.eng)
        if planes == "search": hook_planes(w, 2)
        else:
            hook_intersections(w)
            for i in "12":
                c = [w.s(x + i) for x in ("cxa", "cya", "ra")]
                for x in c: w.st.assume(lt(ZERO, x))
                w.m(w.o, "add_single_circular_plane", *c)
        hook_fos(w)
        return w
    for planes in ("search", "individual"):
        for before in (("max",), (None,), ("max", "max2")):
            for last in (None, "max"):
                if before == ("max",) == (last,): continue
                c = f"{planes}: {' then '.join('limit ' + x if x else 'no limit' for x in before)}, then {'limit ' + last if last else 'no limit'}"
                def hist(planes=planes, before=before, last=last, c=c):
                    b = two(planes); lim = lambda w, x: [w.s(x)] if x else []
                    for x in ("max", "max2"): b.st.assume(lt(ZERO, b.s(x)))
                    a = cl(b)
                    for x in before:
                        a.m(a.o, "analyse_slope", *lim(a, x))
                    a.m(a.o, "analyse_slope", *lim(a, last)); b.m(b.o, "analyse_slope", *lim(b, last))
                    if a.dead() or b.dead(): raise Unsupported("analysis always raises")
                    smp = a.samples(chk.seed, n, tag=c); chk.count("histories compared")
                    for ev in smp.evs:
                        x, y = (concrete(w.st, field(w, w.o, "_search"), ev) for w in (a, b))
                        d = pic_diff(x, y, "_search")
                        if d: chk.violate("fresh", c, where_m(a, "Slope", "analyse_slope"), f"results depend on an earlier analysis: {d[0]}: {d[1]} / {d[2]}", ev.env); return
                    if smp.evs: chk.agreed("fresh", c, f"{len(smp.evs)} assignments")
                    else: chk.undecided("fresh", c, "no admissible assignment")
                attempt(chk, "fresh", c, hist)

def strip_fos(p):
    if p[0] == "d": return ("d", tuple((k, strip_fos(v)) for k, v in p[1] if k != ("v", "FOS")))
    if p[0] in "lt": return p[:1] + tuple(strip_fos(x) for x in p[1:])
    return p
def first_fos(w):
    """factor of safety of the first result; NONE when there is none"""
    v = NONE
    lst = field(w, w.o, "_search")
    its = w.items(lst)
    for g, d in reversed(its):
        for g2, x in alts(d, g):
            r = w.st.heap[x.id]
            fos = [vv for k, gg, vv in r.items if isinstance(k, Node) and k is const("FOS")]
            if not fos: return None
            v = ite(g2, scalar(fos[-1]), v)
    return v
