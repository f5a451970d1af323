"""Abstract models of a slope, built by interpreting the public constructors and setters."""
from . import terms as T
from .terms import Node, const, sym, TRUE, FALSE, NONE, ZERO, and_, not_, implies, lt, le, eq
from .values import *
from .interp import Engine
from .oblig import REPO, Samples
from . import prove

class Missing(Exception): pass

class World:
    def __init__(self, eng=None):
        self.eng = eng or Engine(REPO)
        self.mod = self.eng.load("pyslope.pyslope")
        self.ns = self.eng.base.heap[self.mod.env.id].vars
        self.st = self.eng.base.clone()
        self.syms = []
        self.raises = []
        self.log = []
    def clone(self):
        w = World.__new__(type(self))
        w.__dict__.update(self.__dict__); w.st = self.st.clone(); w.syms = list(self.syms); w.raises = list(self.raises); w.log = list(self.log)
        return w
    def s(self, name, kind="real"):
        n = sym(name, kind)
        if n not in self.syms: self.syms.append(n)
        self.eng.allsyms.add(n)
        return n
    def cls(self, name):
        v = self.ns.get(name)
        if v is None: raise Missing(f"pyslope.{name}")
        return v
    def call(self, f, *args, **kw):
        """call and collect the raise outcomes of just this call"""
        sink = []
        self.eng.sinks.append(sink)
        try: v = self.eng.call(self.st, f, [self.w(x) for x in args], {k: self.w(x) for k, x in kw.items()}, None)
        finally: self.eng.sinks.pop()
        self.last = sink
        self.raises += sink
        return v
    def w(self, x):
        if isinstance(x, (int, float, str, bool, type(None))): return const(x)
        return x
    def new(self, cname, *args, **kw): return self.call(self.cls(cname), *args, **kw)
    def has(self, obj, name):
        r = self.st.heap[obj.id]
        return name in r.fields or self.eng.class_attr(self.st, r.cls, name) is not None
    def m(self, obj, name, *args, **kw):
        if self.st.dead: raise Unsupported(f"every path raises before the call of {name}")
        if not self.has(obj, name): raise Missing(f"method {name}")
        return self.call(self.eng.getattr(self.st, obj, name, None), *args, **kw)
    def get(self, obj, name):
        r = self.st.heap[obj.id]
        if name in r.fields: return r.fields[name]
        return self.eng.getattr(self.st, obj, name, None)
    def items(self, v): return list(self.eng.iter_items(self.st, v, None, consume=False))
    def pc(self): return [c for c, soft in self.st.pc]
    def dead(self): return self.st.dead

    # ---- model construction with symbolic values
    def slope(self, by="length", **kw):
        h = kw.get("height", None) or self.s("height")
        if by == "length": L = self.s("length"); self.o = self.new("Slope", height=h, angle=None, length=L)
        elif by == "angle": a = self.s("angle"); self.o = self.new("Slope", height=h, angle=a)
        else: self.o = self.new("Slope", height=h, angle=self.s("angle"), length=self.s("length"))
        self.log.append(f"Slope({by})")
        return self.o
    def material(self, i, **kw):
        return self.new("Material", unit_weight=kw.get("uw", self.s(f"uw{i}")), friction_angle=kw.get("phi", self.s(f"phi{i}")),
                        cohesion=kw.get("coh", self.s(f"coh{i}")), depth_to_bottom=kw.get("depth", self.s(f"depth{i}")), name=const(f"m{i}"))
    def materials(self, n, ordered=True):
        ms = []
        for i in range(1, n + 1):
            if ordered: self.st.assume(lt(ZERO, sym(f"depth{i}")))
            for j in range(1, i if ordered else 0): self.st.assume(lt(sym(f"depth{j}"), sym(f"depth{i}")))
            ms.append(self.material(i))
        if ms: self.m(self.o, "set_materials", *ms)
        self.mats = ms
        self.log.append(f"{n} materials")
        return ms
    def pos(self, n, strict=True): self.st.assume(lt(ZERO, n) if strict else le(ZERO, n))
    def udl(self, i, cont=False, **kw):
        q, o = self.s(f"q{i}"), self.s(f"off{i}")
        if kw.get("positive", True): self.pos(q); self.pos(o, False)
        if cont: return self.new("Udl", magnitude=q, offset=o, length=NONE, **kw.get("extra", {}))
        l = self.s(f"len{i}")
        if kw.get("positive", True): self.pos(l)
        return self.new("Udl", magnitude=q, offset=o, length=l, **kw.get("extra", {}))
    def ll(self, i, **kw):
        p, o = self.s(f"p{i}"), self.s(f"off{i}'")
        if kw.get("positive", True): self.pos(p); self.pos(o, False)
        return self.new("LineLoad", magnitude=p, offset=o, **kw.get("extra", {}))
    def loads(self, udls=(), lls=0, extra=None):
        """udls: tuple of 'c' (continuous) / 'f' (finite)"""
        self.udls = [self.udl(i + 1, cont=(k == "c"), extra=extra or {}) for i, k in enumerate(udls)]
        self.lls = [self.ll(i + 1, extra=extra or {}) for i in range(lls)]
        if self.udls: self.m(self.o, "set_udls", *self.udls)
        if self.lls: self.m(self.o, "set_lls", *self.lls)
        self.log.append(f"udls {''.join(udls)} lls {lls}")
    def water(self):
        self.m(self.o, "set_water_table", self.s("wd"))
        self.log.append("water")
    def build(self, by="length", mats=0, udls=(), lls=0, water=False, extra=None):
        self.slope(by)
        if mats: self.materials(mats)
        if udls or lls: self.loads(udls, lls, extra)
        if water: self.water()
        return self
    def samples(self, seed=1, n=60, dom=None, tag="", extra_pc=(), tries=None):
        pc = self.pc() + list(extra_pc)
        ss = set(self.syms)
        for c in pc: ss |= T.syms(c)
        return Samples(ss, pc, seed, n, dom, tries, tag)
    def raised(self, since=None):
        """condition under which the collected calls raise, per (state, exc)"""
        return [(and_(*[c for c, soft in s.pc if not soft]), s, e, b) for s, e, b in (self.raises if since is None else since)]

def diff_state(eng, st1, st2, roots, skip=()):
    """differences between two states over objects reachable from roots:
    yields (path, v1, v2, class, field)"""
    seen = set()
    out = []
    def val(path, a, b, cls, fld):
        if a is b and not isinstance(a, (Ref, VTuple, VIte)): return
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            rec(path, a.id, cls, fld); return
        if isinstance(a, VTuple) and isinstance(b, VTuple) and len(a.items) == len(b.items):
            for i, (x, y) in enumerate(zip(a.items, b.items)): val(f"{path}[{i}]", x, y, cls, fld)
            return
        if isinstance(a, Ref) and isinstance(b, Ref):
            structural(path, a, b, cls, fld); return
        if isinstance(a, VIte) and isinstance(b, VIte) and a.c is b.c:
            val(path, a.a, b.a, cls, fld); val(path, a.b, b.b, cls, fld); return
        if a is b: return
        out.append((path, a, b, cls, fld))
    def structural(path, a, b, cls, fld):
        if (a.id, b.id) in seen: return
        seen.add((a.id, b.id))
        ra, rb = st1.heap.get(a.id), st2.heap.get(b.id)
        if type(ra) is not type(rb): out.append((path, a, b, cls, fld)); return
        if isinstance(ra, ListRec):
            if len(ra.items) != len(rb.items) or any(x[0] is not y[0] for x, y in zip(ra.items, rb.items)): out.append((path, a, b, cls, fld)); return
            for i, (x, y) in enumerate(zip(ra.items, rb.items)): val(f"{path}[{i}]", x[1], y[1], cls, fld)
        elif isinstance(ra, DictRec):
            if len(ra.items) != len(rb.items) or any(x[1] is not y[1] for x, y in zip(ra.items, rb.items)): out.append((path, a, b, cls, fld)); return
            for x, y in zip(ra.items, rb.items):
                val(path + ".key", x[0], y[0], cls, fld); val(f"{path}[{x[0]!r}]", x[2], y[2], cls, fld)
        elif isinstance(ra, ObjRec):
            if ra.cls is not rb.cls: out.append((path, a, b, cls, fld)); return
            for k in list(ra.fields) + [k for k in rb.fields if k not in ra.fields]:
                val(f"{path}.{k}", ra.fields.get(k, UNBOUND), rb.fields.get(k, UNBOUND), ra.cls.name, k)
        elif isinstance(ra, ArrRec):
            if ra.items != rb.items or ra.elem is not rb.elem: out.append((path, a, b, cls, fld))
        else: out.append((path, a, b, cls, fld))
    def rec(path, rid, cls, fld):
        structural(path, Ref(rid), Ref(rid), cls, fld)
    for nm, r, *o in roots:
        if o: val(nm, r, o[0], "", nm)
        else: rec(nm, r.id, "", nm)
    return out


# ---- what a state looks like at one assignment of the inputs
RESULTS = {"_search", "_min_FOS", "_min_FOS_location", "_min_FOS_dict", "_dynamic_results"}
def concrete(st, v, e, skip=(), seen=None, depth=0):
    """nested comparable picture of value v at evaluator e; raises AmbiguousValue when undefined"""
    seen = seen or {}
    while isinstance(v, VIte):
        t = e.truth(v.c)
        if t is T.AMB or t is T.ERR: return ("?",)
        v = v.a if t else v.b
    if isinstance(v, Node):
        try: x = e(v)
        except (NotImplementedError, KeyError): return ("?",)
        return ("?",) if x is T.AMB or x is T.ERR else ("v", x)
    if isinstance(v, VTuple): return ("t",) + tuple(concrete(st, x, e, skip, seen, depth + 1) for x in v.items)
    if isinstance(v, Ref):
        if v.id in seen: return ("cycle", seen[v.id])
        seen = {**seen, v.id: len(seen)}
        r = st.heap[v.id]
        if isinstance(r, ListRec):
            out = []
            for g, x in r.items:
                t = e.truth(g)
                if t is T.AMB or t is T.ERR: return ("?",)
                if t: out.append(concrete(st, x, e, skip, seen, depth + 1))
            return ("l",) + tuple(out)
        if isinstance(r, DictRec):
            out = {}
            for k, g, x in r.items:
                t = e.truth(g)
                if t is T.AMB or t is T.ERR: return ("?",)
                if t: out[concrete(st, k, e, skip, seen, depth + 1)] = concrete(st, x, e, skip, seen, depth + 1)
            return ("d", tuple(out.items()))
        if isinstance(r, ObjRec):
            return ("o", r.cls.name, tuple((k, concrete(st, x, e, skip, seen, depth + 1)) for k, x in sorted(r.fields.items()) if k not in skip and x is not UNBOUND))
        if isinstance(r, ArrRec):
            if r.items is not None: return ("l",) + tuple(concrete(st, x, e, skip, seen, depth + 1) for x in r.items)
            return ("?",)
        return ("?",)
    return ("x", repr(v))

def pic_diff(a, b, path=""):
    """first clear difference of two pictures: (path, a, b) or None"""
    from .oblig import differs
    if a == b: return None
    if a[0] == "?" or b[0] == "?": return None
    if a[0] in "lt" and b[0] in "lt":
        if len(a) != len(b):
            if any(x[0] == "?" for x in a[1:] + b[1:]) and False: return None
            return (path, f"{len(a)-1} entries", f"{len(b)-1} entries")
        for i, (x, y) in enumerate(zip(a[1:], b[1:])):
            d = pic_diff(x, y, f"{path}[{i}]")
            if d: return d
        return None
    if a[0] != b[0]: return (path, a, b)
    if a[0] == "v":
        return (path, a[1], b[1]) if differs(a[1], b[1]) else None
    if a[0] == "o":
        if a[1] != b[1]: return (path, a[1], b[1])
        fa, fb = dict(a[2]), dict(b[2])
        for k in fa:
            if k in fb:
                d = pic_diff(fa[k], fb[k], f"{path}.{k}")
                if d: return d
        return None
    if a[0] == "d":
        if len(a[1]) != len(b[1]): return (path, f"{len(a[1])} keys", f"{len(b[1])} keys")
        for (k1, x), (k2, y) in zip(a[1], b[1]):
            d = pic_diff(k1, k2, path + ".key") or pic_diff(x, y, f"{path}[{k1[1] if len(k1) > 1 else k1}]")
            if d: return d
        return None
    return None if a[0] == "cycle" else (path, a, b)

def same_states(chk, rule, construct, eng, st1, st2, roots, samples, guard=(), where="", what="changed", skip=()):
    """every object reachable from roots is unchanged from st1 to st2"""
    ds = [d for d in diff_state(eng, st1, st2, roots) if d[4] not in skip]
    if not ds:
        chk.ok(rule, construct, "identical value numbers"); return True
    n = 0
    for e in samples.evs:
        if any(e.truth(g) is not True for g in guard): continue
        n += 1
        for nm, r in roots:
            d = pic_diff(concrete(st1, r, e, skip), concrete(st2, r, e, skip), nm)
            if d:
                chk.violate(rule, construct, where, f"{d[0]} {what}: {_p(d[1])} before, {_p(d[2])} after", e.env)
                return False
    if n: chk.agreed(rule, construct, f"{n} admissible assignments; value numbers differ at {ds[0][0]}")
    elif samples.pc and chk._prove(lambda: prove.valid(T.FALSE, samples.pc)): chk.ok(rule, construct, "unreachable (linear bounds)")
    else: chk.undecided(rule, construct, "no admissible assignment")
    return None
def _p(x):
    from .oblig import pv
    if isinstance(x, tuple) and len(x) == 2: x = x[1]
    return str(pv(x))[:120]
