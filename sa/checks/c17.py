"""C17 dynamic analysis."""
from .common import *
from .slices import GDOM, Geo

def load_key(w, eng, st, recv):
    """one scalar that depends on every load in the model: magnitude, offset, length and position"""
    r = st.heap[recv.id]; tot = ZERO; n = ZERO
    tx = scalar(eng.getitem(st, r.fields["_top_coord"], const(0), None))
    def get(o, f): return T.ite(o.c, get(o.a, f), get(o.b, f)) if isinstance(o, VIte) else scalar(st.heap[o.id].fields[f])
    for lst, fs, nm in (("_udls", ("magnitude", "offset", "length", "left", "right"), "udl"), ("_lls", ("magnitude", "offset", "coord"), "ll")):
        if lst not in r.fields: raise Missing("Slope." + lst)
        for g, o in eng.iter_items(st, r.fields[lst], None, consume=False):
            a = [get(o, f) for f in fs]
            # where the load acts, measured from the crest (the model may have grown to hold it)
            if nm == "udl": a = a[:3] + [sub(tx, a[4]), ite(eq(a[2], NONE), NONE, sub(a[4], a[3]))]
            else: a = a[:2] + [sub(tx, a[2])]
            tot = add(tot, ite(g, T.app("lin:load:" + nm, "real", *a), ZERO)); n = add(n, ite(g, ONE, ZERO))
    return tot, n

def run(chk):
    chk.rule("paired", "every recorded offset has the factor of safety of the model with all dynamic loads at exactly that offset and the other loads where they were")
    chk.rule("loads-kept", "no load is lost, duplicated or altered; loads not marked dynamic keep their offset")
    chk.rule("early-stop", "safe with the loads at the crest: only that position is recorded and 0 returned; unsafe with them furthest away: both recorded and 1 returned")
    chk.rule("bracket", "otherwise both extreme positions are recorded, and further ones lie between them when the value rises with the offset")
    chk.rule("no-raise", "no division by zero or absent value on the way")
    n_ = 40 if chk.tier == "quick" else 150
    def one(udls, lls, shape="inc", earlier=False):
        """udls: 'f' finite, 'c' continuous; uppercase = dynamic"""
        tag = f"udls {udls or '-'}, line loads {lls or '-'}" + (", values rise and fall" if shape != "inc" else "") + (", analysed before with another load" if earlier else "")
        fos = "inc:F" if shape == "inc" else "F"
        w = World(); w.slope("length"); chk.use(w.eng)
        U = [w.udl(i + 1, cont=k in "cC", extra={"dynamic_offset": const(k.isupper())}) for i, k in enumerate(udls)]
        L = [w.ll(i + 1, extra={"dynamic_offset": const(k.isupper())}) for i, k in enumerate(lls)]
        if U: w.m(w.o, "set_udls", *U)
        if L: w.m(w.o, "set_lls", *L)
        hook_planes(w, 1)
        need(w, "Slope", "_analyse_circular_failure_bishop")
        calls = []
        def h(eng, st, fn, recv, args, kw, node):
            k, n = load_key(w, eng, st, recv)
            return T.app(fos, "real", k)
        if earlier:      # unsafe with the loads anywhere: two positions are recorded
            w.eng.hooks["Slope._analyse_circular_failure_bishop"] = lambda eng, st, fn, recv, args, kw, node: const(2)
            x = w.udl(9)
            w.m(w.o, "set_udls", x); w.m(w.o, "analyse_dynamic", critical_fos=const(3)); w.m(w.o, "remove_udls", remove_all=True)
            if U: w.m(w.o, "set_udls", *U)
            if w.dead(): raise Unsupported("always raises")
        w.eng.hooks["Slope._analyse_circular_failure_bishop"] = h if not earlier else lambda eng, st, fn, recv, args, kw, node: const(5)
        G = Geo(w)
        before = w.clone()
        w.raises = []
        def F(k):
            """the factor of safety with the dynamic loads at offset k"""
            tot = ZERO
            for i, (u, kd) in enumerate(zip(U, udls)):
                o = k if kd.isupper() else field(before, u, "offset")
                q, l = field(before, u, "magnitude"), field(before, u, "length")
                tot = add(tot, T.app("lin:load:udl", "real", q, o, l, o, NONE if l is NONE else l))
            for u, kd in zip(L, lls):
                o = k if kd.isupper() else field(before, u, "offset")
                tot = add(tot, T.app("lin:load:ll", "real", field(before, u, "magnitude"), o, o))
            return T.app(fos, "real", tot) if not earlier else const(5)
        # a target placed relative to the values at two positions
        c = const(3) if earlier else add(F(ZERO), mul(w.s("tau"), sub(F(const(4)), F(ZERO)))); w.st.assume(lt(ZERO, c)) if not earlier else None
        ret = w.m(w.o, "analyse_dynamic", critical_fos=c)
        chk.use(w.eng)
        wh = where_m(w, "Slope", "analyse_dynamic")
        dom = {"tau": [Fraction(x) for x in ("-0.5", "0.05", "0.1", "0.2", "0.3", "0.4", "0.5", "0.6", "0.7", "0.8", "0.9", "1", "1.2", "2.5")]}
        s = w.samples(chk.seed, n_, dom=dom, tag=tag)
        res = w.m(w.o, "get_dynamic_results")
        k_ = sym("k_"); Fk = F(k_)
        bad = {}; n = 0; rec = 0
        far = []
        for g0, d in alts(res):
            items = w.st.heap[d.id].items
            for e in s.evs:
                if e.truth(g0) is not True: continue
                got = []
                for kk, g, v in items:
                    t = e.truth(g)
                    if t is True: got.append((e(scalar(kk)), e(scalar(v))))
                    elif t is not False: got = None; break
                if got is None or any(x in (T.ERR, T.AMB) for p in got for x in p): continue
                n += 1; rec += len(got)
                def spec(off):
                    from ..terms import Evaluator
                    return Evaluator({**e.env, "k_": off})(Fk)
                f0 = spec(Fraction(0)); crit = e(c); r = e(ret) if isinstance(ret, Node) else None
                if not got: bad.setdefault("paired", ("nothing recorded", e)); continue
                for off, f in got:
                    x = spec(off)
                    if isinstance(x, (int, float, Fraction)) and not (isinstance(f, (int, float, Fraction)) and abs(float(x) - float(f)) < 1e-6 * (1 + abs(float(x)))): bad.setdefault("paired", (f"offset {float(off):.5f} is recorded with {None if f is None else float(f):.5f}; the model with the dynamic loads there has {float(x):.5f}", e))
                offs = sorted(float(o) for o, f in got)
                if not any(abs(o) < 1e-9 for o in offs): bad.setdefault("bracket", ("the position at the crest is not recorded", e))
                if f0 > crit:
                    if len(got) != 1 or r != 0: bad.setdefault("early-stop", (f"safe at the crest, but {len(got)} positions are recorded and {r} returned", e))
                elif f0 < crit:
                    if len(got) < 2 and offs[-1] == offs[0] and abs(offs[0]) < 1e-9 and len(udls) + len(lls): bad.setdefault("early-stop", ("unsafe at the crest, but no further position is recorded", e))
                    others = [(o, f) for o, f in got if abs(float(o)) > 1e-9]
                    if len(got) == 2 and others and others[0][1] < crit and r != 1: bad.setdefault("early-stop", (f"unsafe with the loads furthest away, but {r} returned", e))
                    if len(got) > 2 and r in (0, 1) and r is not None and not isinstance(r, bool): bad.setdefault("early-stop", (f"{r} returned after {len(got)} positions", e))
                chk.count("positions recorded by number " + str(min(len(got), 4)))
        for rule in ("paired", "early-stop", "bracket"):
            if rule in bad: chk.violate(rule, tag, wh, bad[rule][0], bad[rule][1].env)
            elif n: chk.agreed(rule, tag, f"{rec} recorded positions at {n} assignments")
            else: chk.undecided(rule, tag, "no admissible assignment")
        # loads afterwards
        chk.eq("loads-kept", f"{tag}: number of uniform loads", total(w, field(w, w.o, "_udls")), const(len(U)), s, where=wh, what="number of uniform loads afterwards", prove_it=False)
        chk.eq("loads-kept", f"{tag}: number of line loads", total(w, field(w, w.o, "_lls")), const(len(L)), s, where=wh, what="number of line loads afterwards", prove_it=False)
        for lst, objs, kinds, fs in (("_udls", U, udls, ("magnitude", "length", "color", "dynamic_offset")), ("_lls", L, lls, ("magnitude", "color", "dynamic_offset"))):
            its = w.items(field(w, w.o, lst))
            for i, (o, kd) in enumerate(zip(objs, kinds)):
                same = counted(w, field(w, w.o, lst), o)
                # by value: exactly one load with this description (copies are fine)
                cnt = ZERO
                for g, x in its:
                    eqs = [eq(gfield(w, x, f), scalar(field(before, o, f))) for f in fs] + ([] if kd.isupper() else [eq(gfield(w, x, "offset"), field(before, o, "offset"))])
                    cnt = add(cnt, ite(and_(g, *eqs), ONE, ZERO))
                chk.holds("loads-kept", f"{tag}: {lst} {i}", le(ONE, cnt), s, where=wh, what="a load is missing or altered afterwards", prove_it=False)
        if shape == "inc" and not earlier: no_raise(chk, "no-raise", tag, w, w.raises, only=lambda x: x.implicit, dom=dom)
        chk.count("dynamic analyses")
    shapes = [("F", ""), ("", "L"), ("f", "L"), ("C", ""), ("Fc", "l"), ("", "")]
    if chk.tier == "thorough": shapes += [("FF", "Ll"), ("Cf", "L"), ("f", "l"), ("FC", "")]
    for a in shapes: attempt(chk, "paired", str(a), lambda a=a: one(*a))
    attempt(chk, "paired", "rise and fall", lambda: one("F", "", shape="any"))
    attempt(chk, "paired", "analysed before", lambda: one("F", "L", earlier=True))
    def offset(udls, lls):
        """placing the dynamic loads"""
        w = World(); w.slope("length"); chk.use(w.eng)
        need(w, "Slope", "_set_dynamic_offset")
        U = [w.udl(i + 1, cont=k in "cC", extra={"dynamic_offset": const(k.isupper())}) for i, k in enumerate(udls)]
        L = [w.ll(i + 1, extra={"dynamic_offset": const(k.isupper())}) for i, k in enumerate(lls)]
        if U: w.m(w.o, "set_udls", *U)
        if L: w.m(w.o, "set_lls", *L)
        before = w.clone()
        k = w.s("off9"); w.st.assume(le(ZERO, k))
        w.m(w.o, "_set_dynamic_offset", k); chk.use(w.eng)
        wh = where_m(w, "Slope", "_set_dynamic_offset"); tag = f"placed: udls {udls or '-'}, line loads {lls or '-'}"
        s = w.samples(chk.seed, n_, tag=tag)
        for lst, objs, kinds, fs in (("_udls", U, udls, ("magnitude", "length")), ("_lls", L, lls, ("magnitude",))):
            chk.eq("loads-kept", f"{tag}: number of {lst}", total(w, field(w, w.o, lst)), const(len(objs)), s, where=wh, what="number of loads afterwards", prove_it=False)
            its = w.items(field(w, w.o, lst))
            for i, (o, kd) in enumerate(zip(objs, kinds)):
                cnt = ZERO
                for g, x in its:
                    cnt = add(cnt, ite(and_(g, *[eq(gfield(w, x, f), scalar(field(before, o, f))) for f in fs], eq(gfield(w, x, "offset"), k if kd.isupper() else field(before, o, "offset"))), ONE, ZERO))
                chk.holds("loads-kept", f"{tag}: {lst} {i}", le(ONE, cnt), s, where=wh, what="a load is not where it should be", prove_it=False)
    for a in [(u, l) for u in ["", "F", "f", "C", "c", "Ff", "fF", "Cf", "cF"] for l in ["", "L", "l", "Ll", "lL"] if u or l]: attempt(chk, "loads-kept", str(a), lambda a=a: offset(*a))
