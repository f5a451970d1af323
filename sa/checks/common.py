"""Shared helpers of the checks."""
import os, sys, time
from ..terms import *
from .. import terms as T
from ..values import *
from ..world import World, Missing, diff_state, same_states, concrete, pic_diff, RESULTS
from ..oblig import Samples, REPO
from ..interp import Engine
from .. import prove, interp

def attempt(chk, rule, construct, fn=None):
    if fn is None: return lambda f: attempt(chk, rule, construct, f)
    """run one group of obligations; anything the analysis cannot follow is undecided"""
    t0 = time.time()
    old = interp.BUDGET[0]
    interp.BUDGET[0] = t0 + (chk.group_s or (60 if chk.tier == "quick" else 400))
    try:
        try: return fn()
        finally:
            interp.BUDGET[0] = old + (time.time() - t0)
            if os.environ.get("VERIF_TIMES") and time.time() - t0 > 0.5: print(f"   {time.time()-t0:6.1f}s {rule} {construct}", file=sys.stderr, flush=True)
    except Unsupported as x: chk.undecided(rule, construct, f"unsupported: {x.msg}")
    except Missing as x: chk.undecided(rule, construct, f"anchor not found: {x}")
    except RecursionError: chk.undecided(rule, construct, "recursion limit")
    except Exception as x:
        import traceback
        tb = traceback.extract_tb(x.__traceback__)[-1]
        chk.undecided(rule, construct, f"analysis error: {type(x).__name__}: {x} at {os.path.basename(tb.filename)}:{tb.lineno}")
        print(f"analysis error in {rule} {construct}: {type(x).__name__}: {x} at {tb.filename}:{tb.lineno}", file=sys.stderr)

def field(w, obj, name):
    r = w.st.heap[obj.id]
    if name not in r.fields: raise Missing(f"{r.cls.name}.{name}")
    return r.fields[name]

def where_m(w, cls, meth):
    """source position of a method, for reports"""
    try:
        f = w.eng.class_attr(w.st, w.cls(cls), meth)
        fn = getattr(f, "node", None)
        if fn is not None: return f"{f.mod.path if hasattr(f.mod,'path') else f.mod}:{fn.lineno} {cls}.{meth}"
    except Exception: pass
    return f"pyslope/pyslope.py {cls}.{meth}"

def xy(w, v):
    it = w.items(v)
    if len(it) != 2: raise Unsupported(f"point with {len(it)} coordinates")
    return it[0][1], it[1][1]

def vals(w, v):
    """values of a sequence of exact shape"""
    out = []
    for g, x in w.items(v):
        if g is not TRUE: raise Unsupported("guarded sequence")
        out.append(x)
    return out
def merged_vals(w, v):
    """scalars of a sequence that may be one of several sequences of the same length"""
    if isinstance(v, VIte):
        a, b = merged_vals(w, v.a), merged_vals(w, v.b)
        if len(a) != len(b): raise Unsupported("sequences of different length")
        return [T.ite(v.c, x, y) for x, y in zip(a, b)]
    return [scalar(x) for x in vals(w, v)]
Q = lambda s: const(Fraction(s)) if not isinstance(s, Node) else s
from fractions import Fraction

def narrow(w, v, g=()):
    """value under extra guards (drops alternatives excluded by them)"""
    st = w.st.clone()
    for c in g: st.assume(c)
    while isinstance(v, VIte):
        d = w.eng.decide(st, v.c)
        if d is None: raise Unsupported("guarded value")
        v = v.a if d else v.b
    return v

def scalar(v):
    """scalar of a guarded value; alternatives that do not exist are dropped"""
    if isinstance(v, VIte): return T.ite(v.c, scalar(v.a), scalar(v.b))
    if v is UNBOUND: return UNDEF
    if isinstance(v, Node): return v
    raise Unsupported(f"not scalar: {type(v).__name__}")
def alts(v, g=TRUE):
    if isinstance(v, VIte):
        yield from alts(v.a, and_(g, v.c)); yield from alts(v.b, and_(g, not_(v.c)))
    else: yield g, v
def gfield(w, o, name):
    """field of a possibly guarded object"""
    if isinstance(o, VIte): return T.ite(o.c, gfield(w, o.a, name), gfield(w, o.b, name))
    return scalar(field(w, o, name))

def presence(w, lst, ref):
    """condition under which ref occurs in the list (and how often at most)"""
    out = []
    for g, v in w.items(lst):
        for g2, x in alts(v, g):
            if isinstance(x, Ref) and x.id == ref.id: out.append(g2)
    return or_(*out) if out else FALSE
def counted(w, lst, ref):
    n = ZERO
    for g, v in w.items(lst):
        for g2, x in alts(v, g):
            if isinstance(x, Ref) and x.id == ref.id: n = add(n, ite(g2, ONE, ZERO))
    return n
def total(w, lst):
    n = ZERO
    for g, v in w.items(lst): n = add(n, ite(g, ONE, ZERO))
    return n
def no_raise(chk, rule, construct, w, outcomes, n=40, what="raises", only=None, dom=None, allow=()):
    """none of the raise outcomes is reachable"""
    done = 0
    for s, exc, _ in outcomes:
        if only and not only(exc): continue
        if exc.cls in allow: continue
        done += 1
        pc = [c for c, soft in s.pc if not soft]
        smp = Samples(set(w.syms), pc, chk.seed, 3, dom, 40 if chk.tier == "quick" else 300, construct)
        c = f"{construct}: {exc.cls} in {exc.fn}"
        if smp.evs: chk.violate(rule, c, exc.where(), f"{exc.cls} {what}", smp.evs[0].env)
        elif chk._prove(lambda: prove.valid(FALSE, pc)): chk.ok(rule, c, "unreachable (linear bounds)")
        else: chk.undecided(rule, c, "no admissible assignment reaches it")
    if not done: chk.ok(rule, construct, "no raise outcome")
    return done

# ---- analysis with the search or the intersections abstracted
def need(w, cls, *meths):
    for m in meths:
        if w.eng.class_attr(w.st, w.cls(cls), m) is None: raise Missing(f"{cls}.{m}")
def call_args(fn, args, kw):
    """arguments of a hooked call by parameter name"""
    d = dict(zip([a.arg for a in fn.node.args.posonlyargs + fn.node.args.args], args)); d.update(kw)
    return d
def hook_planes(w, k, tag=""):
    """the default search yields k planes with symbolic circles and end points"""
    need(w, "Slope", "_set_entry_exit_planes")
    ps = []
    for i in range(1, k + 1):
        t = f"{tag}{i}"
        ps.append(dict(lx=w.s("lx" + t), ly=w.s("ly" + t), rx=w.s("rx" + t), ry=w.s("ry" + t), cx=w.s("cx" + t), cy=w.s("cy" + t), r=w.s("rad" + t)))
        w.st.assume(lt(ZERO, ps[-1]["cx"])); w.st.assume(lt(ZERO, ps[-1]["cy"])); w.st.assume(lt(ZERO, ps[-1]["r"]))
    def h(eng, st, f, recv, args, kw, node):
        ds = [plane_dict(eng, st, p) for p in ps]
        eng.open_refs.update(d.id for d in ds)
        eng.setattr(st, recv, "_search", eng.list_of(st, ds), node)
        return NONE
    w.eng.hooks["Slope._set_entry_exit_planes"] = h
    return ps
def plane_dict(eng, st, p):
    d = DictRec([(const("l_c"), TRUE, VTuple([p["lx"], p["ly"]])), (const("r_c"), TRUE, VTuple([p["rx"], p["ry"]])),
                 (const("c_x"), TRUE, p["cx"]), (const("c_y"), TRUE, p["cy"]), (const("radius"), TRUE, p["r"])])
    return eng.new(st, d)
def hook_fos(w, none=True):
    """the factor of safety of a circle is an unknown function of the circle"""
    need(w, "Slope", "_analyse_circular_failure_bishop")
    names = ["c_x", "c_y", "radius"]
    def h(eng, st, f, recv, args, kw, node):
        a = dict(zip(names, args)); a.update({k: v for k, v in kw.items() if k in names})
        key = [a[k] for k in names]
        v = T.app("fos", "real", *key)
        return ite(T.app("nofos", "bool", *key), NONE, v) if none else v
    w.eng.hooks["Slope._analyse_circular_failure_bishop"] = h
def hook_intersections(w, pts=None, tag="i"):
    """a circle meets the ground in two symbolic points"""
    need(w, "Slope", "_get_circle_external_intersection")
    lx, ly, rx, ry = [w.s(x + tag) for x in ("lx", "ly", "rx", "ry")]
    w.st.assume(lt(lx, rx))
    def h(eng, st, f, recv, args, kw, node):
        return eng.list_of(st, [VTuple([lx, ly]), VTuple([rx, ry])])
    w.eng.hooks["Slope._get_circle_external_intersection"] = h
    return lx, ly, rx, ry
