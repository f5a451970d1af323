"""Reference for the two methods of slices, written directly as expressions."""
from .common import *

class Geo:
    """ground profile and loads as specified, from the model's public inputs"""
    def __init__(self, w):
        o = w.o
        self.tx, self.ty = xy(w, w.m(o, "get_top_coordinates"))
        self.bx, self.by = xy(w, w.m(o, "get_bottom_coordinates"))
        self.H = field(w, o, "_external_height"); self.M = field(w, o, "_external_length")
        self.grad = div(sub(self.ty, self.by), sub(self.bx, self.tx))
    def y(self, x):
        return ite(le(x, self.tx), self.ty, ite(le(self.bx, x), self.by, sub(self.ty, mul(sub(x, self.tx), self.grad))))

def layers(w):
    out = []
    for g, m in w.items(field(w, w.o, "_materials")):
        if g is not TRUE: raise Unsupported("guarded layer")
        out.append({k: gfield(w, m, k) for k in ("unit_weight", "friction_angle", "cohesion", "depth_to_bottom")})
    return out

def slices(w, lx, rx, cx, cy, r, n, i, water=None, loads=True):
    """quantities of slice number i of n"""
    G = Geo(w)
    b = div(sub(rx, lx), n)
    xl = add(lx, mul(i, b)); xr = add(xl, b); x = add(xl, div(b, const(2)))
    dx = sub(x, cx)
    inside = le(mul(dx, dx), mul(r, r))
    dy = sqrt(sub(mul(r, r), mul(dx, dx)))
    yb = sub(cy, dy); yt = max_(G.y(x), yb)
    cosa = div(dy, r); sina = div(neg(dx), r)
    W = ZERO; top = G.H; c = tp = None
    ms = layers(w)
    for k, m in enumerate(ms):
        bottom = sub(G.H, m["depth_to_bottom"])
        th = sub(min_(yt, top), yb if k == len(ms) - 1 else max_(yb, bottom))
        W = add(W, mul(mul(m["unit_weight"], max_(ZERO, th)), b))
        top = bottom
    for k in range(len(ms) - 1, -1, -1):
        m = ms[k]; t = fn1("tan", div(mul(m["friction_angle"], PI), const(180)))
        inl = lt(sub(G.H, m["depth_to_bottom"]), yb)
        c = m["cohesion"] if c is None else ite(inl, m["cohesion"], c)
        tp = t if tp is None else ite(inl, t, tp)
    if c is None: c = tp = ZERO
    W0 = W
    if loads:
        for g, u in w.items(field(w, w.o, "_udls")):
            o, l, q = (gfield(w, u, f) for f in ("offset", "length", "magnitude"))
            right = sub(G.tx, o)
            left = ZERO if l is NONE else max_(ZERO, sub(right, l))
            W = add(W, ite(g, mul(max_(ZERO, sub(min_(xr, right), max_(xl, left))), q), ZERO))
        for g, u in w.items(field(w, w.o, "_lls")):
            o, q = gfield(w, u, "offset"), gfield(w, u, "magnitude")
            cc = max_(ZERO, sub(G.tx, o))
            W = add(W, ite(and_(g, le(xl, cc), lt(cc, xr)), q, ZERO))
    head = ZERO; fac = ONE
    if water is not None:
        wr, Hf = water
        xw = ite(lt(wr, G.by), G.M, ite(lt(wr, G.ty), add(G.tx, div(sub(G.ty, wr), G.grad)), G.tx))
        head = max_(sub(min_(wr, yt), yb), ZERO)
        fac = ite(and_(lt(xw, x), lt(x, G.bx)), Hf, ONE)
    return dict(b=b, x=x, xl=xl, xr=xr, yb=yb, yt=yt, cos=cosa, sin=sina, W=W, W0=W0, c=c, tan=tp, pore=mul(mul(head, Q("9.81")), fac), inside=inside, dx=dx, dy=dy)

class Ref_:
    """both factors of safety; total(f) sums a slice quantity over all slices"""
    def __init__(self, w, lx, rx, cx, cy, r, n, water=None, exact=None):
        self.w, self.n, self.exact = w, n, exact
        if exact: self.S = [slices(w, lx, rx, cx, cy, r, n, const(i), water) for i in range(exact)]
        else: self.S = [slices(w, lx, rx, cx, cy, r, n, IDX, water)]
        self.width = sub(rx, lx)
        self.has_layers = bool(layers(w))
    def total(self, f):
        if self.exact:
            t = ZERO
            for s in self.S: t = add(t, f(s))
            return t
        return sum_(self.n, f(self.S[0]))
    def every(self, f):
        if self.exact: return and_(*[f(s) for s in self.S])
        return T.all_(self.n, f(self.S[0]))
    def driving(self): return self.total(lambda s: mul(s["W"], s["sin"]))
    def possible(self):
        """slices inside the circle, not vertical, some width, some soil"""
        return and_(lt(Q("0.000001"), self.width), self.every(lambda s: s["inside"]), self.every(lambda s: lt(ZERO, s["dy"])), TRUE if self.has_layers else FALSE)
    def ordinary(self):
        res = self.total(lambda s: add(mul(s["c"], div(s["b"], s["cos"])), mul(max_(ZERO, sub(mul(s["W"], s["cos"]), mul(s["pore"], div(s["b"], s["cos"])))), s["tan"])))
        drv = self.driving()
        return ite(and_(self.possible(), lt(ZERO, drv)), div(res, drv), NONE)
    def trials(self, iters):
        """(trial factor of safety, the slices' denominators with it) of each iteration"""
        out = []; drv = self.driving()
        F = div(self.total(lambda s: add(mul(s["c"], div(s["b"], s["cos"])), mul(max_(ZERO, sub(mul(s["W"], s["cos"]), mul(s["pore"], div(s["b"], s["cos"])))), s["tan"]))), drv)
        for _ in range(iters):
            m = lambda s, F=F: add(s["cos"], div(mul(s["sin"], s["tan"]), F))
            out.append((F, [m(s) for s in self.S]))
            F = div(self.total(lambda s: div(add(mul(s["c"], s["b"]), mul(sub(s["W"], mul(s["pore"], s["b"])), s["tan"])), m(s))), drv)
        return out
    def bishop(self, iters, tol):
        drv = self.driving()
        res0 = self.total(lambda s: add(mul(s["c"], div(s["b"], s["cos"])), mul(max_(ZERO, sub(mul(s["W"], s["cos"]), mul(s["pore"], div(s["b"], s["cos"])))), s["tan"])))
        F0 = div(res0, drv)
        def step(F, k):
            if k == 0: return F
            num = self.total(lambda s: div(add(mul(s["c"], s["b"]), mul(sub(s["W"], mul(s["pore"], s["b"])), s["tan"])), add(s["cos"], div(mul(s["sin"], s["tan"]), F))))
            zden = not_(self.every(lambda s: not_(eq(add(s["cos"], div(mul(s["sin"], s["tan"]), F)), ZERO))))
            F1 = div(num, drv)
            nxt = ite(lt(T.abs_(sub(F1, F)), tol), F1, step(F1, k - 1))
            return ite(eq(F, ZERO), ZERO, ite(or_(zden, lt(num, ZERO)), NONE, nxt))
        return ite(and_(self.possible(), lt(ZERO, drv)), step(F0, iters), NONE)

# assignments under which circles actually cut the slope
GDOM = {"height": ["2", "3", "4", "5"], "length": ["0.5", "2", "3", "5", "8"], "lx": ["0.5", "1.5", "2.5", "3.25", "4", "5"], "rx": ["7", "8", "9.5", "11", "12.75", "14", "16"],
        "cx": ["6", "7.5", "9", "10", "11", "12.5"], "cy": ["10", "11", "12.5", "14", "17", "20"], "rad": ["5", "6", "7.5", "9", "10", "12", "15"],
        "depth1": ["0.5", "1", "2", "2.5", "3"], "depth2": ["3.25", "4", "5", "6"], "depth3": ["6.5", "8", "11"], "wd": ["0.25", "1", "2", "3", "4", "5", "6.5"],
        "phi1": ["0", "20", "30"], "phi2": ["25", "38"], "phi3": ["15", "33"], "coh1": ["0", "5", "10"], "coh2": ["3", "12"], "coh3": ["0", "7"],
        "H": ["0", "0.4", "1"], "tol": ["0.0001", "0.005", "0.05", "0.5"]}
GDOM = {k: [Fraction(x) for x in v] for k, v in GDOM.items()}

def circle(w):
    lx, ly, rx, ry, cx, cy, r = [w.s(x) for x in ("lx", "ly", "rx", "ry", "cx", "cy", "rad")]
    for s in (cx, cy, r): w.st.assume(lt(ZERO, s))
    w.st.assume(lt(lx, rx))
    return lx, ly, rx, ry, cx, cy, r

def run_method(w, meth, c):
    lx, ly, rx, ry, cx, cy, r = c
    need(w, "Slope", meth)
    return w.m(w.o, meth, c_x=cx, c_y=cy, radius=r, left=VTuple([lx, ly]), right=VTuple([rx, ry]))
BISHOP, ORDINARY = "_analyse_circular_failure_bishop", "_analyse_circular_failure_ordinary"

def fos_pair(chk, meth, mats=1, udls=(), lls=0, water=False, N=None, iters=1, H=None, ends=True, by="length", n_=None, deep=False, prep=None, dom=None, share=1):
    """factor of safety of one circle as written in the code, and as specified"""
    tag = f"{meth.replace('_analyse_circular_failure_', '')}, {mats} layers, loads {''.join(udls)}/{lls}, {'water' if water else 'dry'}{' factor' if H else ''}, " + (f"n={N}" if N else "n slices") + ("" if meth == ORDINARY else f", {iters} iterations") + ("" if ends else ", own intersections")
    w = World(); w.slope(by)
    if deep: w.st.assume(le(field(w, w.o, "_external_height"), w.s("depth1")))
    if mats: w.materials(mats)
    if udls or lls: w.loads(udls, lls)
    if water: w.water()
    chk.use(w.eng)
    if H: w.m(w.o, "update_water_analysis_options", auto=False, H=w.s("H"))
    n = const(N) if N else w.s("n", "int")
    if not N: w.st.assume(le(const(10), n)); w.st.assume(le(n, const(500)))
    w.m(w.o, "update_analysis_options", slices=n, tolerance=w.s("tol"), max_iterations=iters)
    w.st.assume(lt(ZERO, sym("tol")))
    if prep: prep(w)
    c = circle(w)
    wt = None
    if water:
        G = Geo(w); wr = max_(ZERO, sub(G.ty, sym("wd"))); w.st.assume(lt(ZERO, wr))
        wt = (wr, field(w, w.o, "_water_analysis_H"))
    if ends: v = run_method(w, meth, c)
    else:
        need(w, "Slope", meth)
        hook_intersections(w, tag="")
        v = w.m(w.o, meth, c[4], c[5], c[6])
    chk.use(w.eng)
    R = Ref_(w, c[0], c[2], c[4], c[5], c[6], n, wt, N)
    spec = R.ordinary() if meth == ORDINARY else R.bishop(iters, sym("tol"))
    d = dict(GDOM); d["n"] = [10, 11, 13, 17]
    if deep: d["depth1"] = [Fraction(x) for x in (40, 60, 100)]
    d.update(dom or {})
    s = w.samples(chk.seed, n_ or (60 if chk.tier == "quick" else 250), dom=d, tag=tag)
    return w, scalar(v), spec, s, tag, R, c
_agree = {}
def agrees(chk, meth, iters=1, **kw):
    """does the code agree with the formulas in a plain configuration (so that a difference elsewhere is due to what was added)"""
    k = (meth, iters, tuple(sorted((a, str(b)) for a, b in kw.items())))
    if k not in _agree:
        from ..oblig import differs
        w, v, spec, s, tag, R, c = fos_pair(chk, meth, iters=iters, n_=25, **kw)
        ok = True
        for e in s.evs:
            try:
                if differs(e(v), e(spec), 1e-5): ok = False; break
            except NotImplementedError: ok = None; break
        _agree[k] = ok
    return _agree[k]
