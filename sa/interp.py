"""Interprocedural abstract interpreter over the repository's syntax trees.

Abstract domain: gated value numbers (terms.py) for scalars, exact small
containers whose entries carry presence gates, element-wise value numbers for
numpy arrays, records for objects.  Branches are interpreted separately and
joined into gates; nothing is enumerated path by path and no solver is called.
Loops over containers of known shape are expanded; a construct outside the
supported subset raises Unsupported, which makes the obligation undecided.
"""
import time, ast, os, builtins as _pyb
from . import terms as T
from .terms import (Node, const, sym, TRUE, FALSE, NONE, ZERO, ONE, UNDEF, IDX, INF,
                    and_, or_, not_, implies, ite, lt, le, eq, isc, cval, truthy_kind)
from .values import *

EXC_NAMES = {n for n in dir(_pyb) if isinstance(getattr(_pyb, n), type) and issubclass(getattr(_pyb, n), BaseException)}
BUILTINS = {"len", "isinstance", "type", "abs", "round", "int", "float", "str", "bool", "max", "min", "sum", "any",
            "all", "list", "tuple", "set", "frozenset", "dict", "range", "zip", "enumerate", "sorted", "reversed",
            "map", "filter", "print", "repr", "getattr", "setattr", "hasattr", "super", "object", "iter", "next",
            "callable", "hash", "id", "issubclass", "pow", "divmod", "eval", "exec", "open", "input", "vars", "dir",
            "format", "ord", "chr", "globals", "locals", "__import__", "compile", "delattr", "slice", "bytes",
            "complex", "memoryview", "property", "staticmethod", "classmethod"} | EXC_NAMES

BUDGET = [float("inf")]
def unbound_when(v):
    if v is UNBOUND: return TRUE
    if isinstance(v, VIte): return ite(v.c, unbound_when(v.a), unbound_when(v.b))
    return FALSE
def bound_part(v):
    if isinstance(v, VIte):
        a, b = bound_part(v.a), bound_part(v.b)
        if a is UNBOUND: return b
        if b is UNBOUND or a is b: return a
        if isinstance(a, Node) and isinstance(b, Node): return ite(v.c, a, b)
        return VIte(v.c, a, b) if a is not v.a or b is not v.b else v
    return v
class Out:
    __slots__ = ("normal", "rets", "brks", "conts")
    def __init__(s, normal=None): s.normal = normal; s.rets = []; s.brks = []; s.conts = []
    def absorb(s, o): s.rets += o.rets; s.brks += o.brks; s.conts += o.conts

def exc_matches(name, handler, bases=()):
    if handler in ("BaseException",): return True
    if name == handler: return True
    h = getattr(_pyb, handler, None)
    for n in (name,) + tuple(bases):
        if n == handler: return True
        e = getattr(_pyb, n, None)
        if isinstance(e, type) and isinstance(h, type) and issubclass(e, h): return True
    if handler == "Exception" and name not in ("KeyboardInterrupt", "SystemExit", "GeneratorExit"): return True
    return False

class Engine:
    MAXDEPTH = 45
    def __init__(self, root="/repo", main="pyslope/pyslope.py", preload=()):
        self.root = root
        self.uid = 0
        self.mods = {}
        self.allsyms = set()
        self.open_refs = set()
        self.hooks = {}
        self.opaque_calls = 0
        self.sinks = [[]]
        self.stack = []
        self.set_order = "fwd"
        self.functions_seen = set()
        self.lines_seen = set()
        self.calls = 0
        self.skip_modules = {"pyslope._version"}
        self.track_div = True
        self.collect = []
        from . import models
        self.models = models
        self.base = State()

    # ------------------------------------------------------------------ utils
    def new(self, st, rec):
        self.uid += 1
        st.heap[self.uid] = rec
        return Ref(self.uid)
    def fresh(self, pfx="u"):
        self.uid += 1
        return f"{pfx}{self.uid}"
    def here(self, node=None):
        if self.stack:
            f = self.stack[-1]
            return (f[0], getattr(node, "lineno", f[2]), f[1])
        return ("<entry>", getattr(node, "lineno", 0), "<entry>")
    def unsup(self, msg, node=None):
        m, l, f = self.here(node)
        raise Unsupported(f"{m}:{l} in {f}: {msg}", node)
    def list_of(self, st, vals, kind="list", node=None):
        return self.new(st, ListRec([(TRUE, v) for v in vals], kind, self.here(node)))

    # ------------------------------------------------------------------ modules
    def mod_file(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(p + ".py"): return p + ".py"
        if os.path.isfile(os.path.join(p, "__init__.py")): return os.path.join(p, "__init__.py")
        return None
    def load(self, name, st=None):
        """parse and abstractly run a repository module; returns ModuleVal"""
        st = st or self.base
        if name in self.mods and self.mods[name].env.id in st.heap: return self.mods[name]
        f = self.mod_file(name)
        if f is None or name in self.skip_modules: return Ext(name)
        with open(f, encoding="utf-8") as fh: src = fh.read()
        tree = ast.parse(src, f)
        m = ModuleVal(); m.name = name; m.path = os.path.relpath(f, self.root)
        pk = name if f.endswith("__init__.py") else name.rpartition(".")[0]
        m.env = self.new(st, EnvRec({"__name__": const(name), "__package__": const(pk), "__file__": const(f)}, None))
        self.mods[name] = m
        self.stack.append([m.path, "<module>", 0])
        try:
            o = self.block(tree.body, st, m.env, m)
            if o.normal is None: self.unsup("module body does not complete")
            if o.normal is not st: st.become(o.normal)
        finally: self.stack.pop()
        return m
    def import_from(self, st, modname, m):
        """value of import of dotted name"""
        top = modname.split(".")[0]
        if self.mod_file(modname): return self.load(modname, st)
        return Ext(modname)

    # ------------------------------------------------------------------ facts
    def decide(self, st, c):
        if c is TRUE: return True
        if c is FALSE: return False
        f = st.facts
        if c.id in f: return True
        n = not_(c)
        if n.id in f: return False
        o, a = c.op, c.args
        if o == "not":
            r = self.decide(st, a[0])
            return None if r is None else not r
        if o == "and":
            r = [self.decide(st, x) for x in a]
            if all(x is True for x in r): return True
            if any(x is False for x in r): return False
        elif o == "or":
            r = [self.decide(st, x) for x in a]
            if any(x is True for x in r): return True
            if all(x is False for x in r): return False
        elif o == "==":
            if truthy_kind(a[0]) == "num" or truthy_kind(a[1]) == "num":
                if lt(a[0], a[1]).id in f or lt(a[1], a[0]).id in f: return False
                if T.isexact(a[1]) and cval(a[1]) == 0 and self.positive(st, a[0]): return False
                if T.isexact(a[0]) and cval(a[0]) == 0 and self.positive(st, a[1]): return False
        elif o == "<=":
            if lt(a[0], a[1]).id in f or eq(a[0], a[1]).id in f: return True
            if T.isexact(a[0]) and cval(a[0]) <= 0 and self.nonneg(st, a[1]): return True
            if T.isexact(a[1]) and cval(a[1]) <= 0 and self.positive(st, a[0]): return False
        elif o == "<":
            if eq(a[0], a[1]).id in f or lt(a[1], a[0]).id in f: return False
            if T.isexact(a[0]) and cval(a[0]) <= 0 and self.positive(st, a[1]): return True
            if T.isexact(a[1]) and cval(a[1]) <= 0 and self.nonneg(st, a[0]): return False
        return None
    def positive(self, st, n, d=0):
        if d > 12: return False
        o, a = n.op, n.args
        if T.isnumc(n): return cval(n) > 0
        if lt(ZERO, n).id in st.facts: return True
        if o == "max": return self.positive(st, a[0], d + 1) or self.positive(st, a[1], d + 1)
        if o == "min": return self.positive(st, a[0], d + 1) and self.positive(st, a[1], d + 1)
        if o in ("*", "/"): return self.positive(st, a[0], d + 1) and self.positive(st, a[1], d + 1)
        if o == "+":
            return (self.positive(st, a[0], d + 1) and self.nonneg(st, a[1], d + 1)) or \
                   (self.positive(st, a[1], d + 1) and self.nonneg(st, a[0], d + 1))
        if o == "sqrt": return self.positive(st, a[0], d + 1)
        if o == "abs": return self.positive(st, a[0], d + 1)
        if o == "ite": return self.positive(st, a[1], d + 1) and self.positive(st, a[2], d + 1)
        if o == "cos" and a[0].op == "atan": return True
        return False
    def nonneg(self, st, n, d=0):
        if d > 12: return False
        o, a = n.op, n.args
        if T.isnumc(n): return cval(n) >= 0
        if o in ("sqrt", "abs"): return True
        if le(ZERO, n).id in st.facts or lt(ZERO, n).id in st.facts: return True
        if o == "max": return self.nonneg(st, a[0], d + 1) or self.nonneg(st, a[1], d + 1)
        if o == "min": return self.nonneg(st, a[0], d + 1) and self.nonneg(st, a[1], d + 1)
        if o == "*" and a[0] is a[1]: return True
        if o in ("*", "/"): return self.nonneg(st, a[0], d + 1) and self.nonneg(st, a[1], d + 1)
        if o == "+": return self.nonneg(st, a[0], d + 1) and self.nonneg(st, a[1], d + 1)
        if o == "**" and T.isexact(a[1]) and cval(a[1]) == 2: return True
        if o == "ite": return self.nonneg(st, a[1], d + 1) and self.nonneg(st, a[2], d + 1)
        if o == "cos" and a[0].op == "atan": return True
        if o == "sum" : return self.nonneg(st, a[1], d + 1)
        if o == "idx": return True
        return False

    # ------------------------------------------------------------------ raise
    def do_raise(self, st, cls, node, args=(), implicit=False, val=None, bases=()):
        """definite raise in state st: st becomes dead"""
        if st.dead: return UNDEF
        m, l, f = self.here(node)
        e = Exc(cls, args, node, f, implicit, m, val)
        e_bases = tuple(bases)
        self.sinks[-1].append((st.clone(), e, e_bases))
        st.dead = True
        return UNDEF
    def may_raise(self, st, guard, cls, node, args=()):
        if st.dead: return
        d = self.decide(st, guard)
        if d is False: return
        if d is True:
            self.do_raise(st, cls, node, args, True); return
        s = st.clone(); s.assume(guard)
        m, l, f = self.here(node)
        self.sinks[-1].append((s, Exc(cls, args, node, f, True, m), ()))
        st.assume(not_(guard), soft=True)
    def event(self, st, kind, path, args=(), kw=None, recv=None, res=None, node=None):
        m, l, f = self.here(node)
        st.events = st.events + (Event(st.pc, kind, path, tuple(args), dict(kw or {}), recv, res, m, l, f),)

    # ------------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b: return a
        if isinstance(a, Node) and isinstance(b, Node): return ite(c, a, b)
        if isinstance(a, VTuple) and isinstance(b, VTuple) and len(a.items) == len(b.items):
            return VTuple([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)])
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isinstance(a, (Ref, Ext, Builtin)) and a == b: return a
        if isinstance(a, (Ref,)) and isinstance(b, Ref) and a.id == b.id: return a
        if isinstance(a, BoundMethod) and isinstance(b, BoundMethod) and a.func is b.func and a.recv == b.recv: return a
        if isinstance(a, VIte) and a.c is c: a = a.a
        if isinstance(b, VIte) and b.c is c: b = b.b
        if isinstance(b, VIte) and b.a is a: return VIte(or_(c, b.c), a, b.b)
        if a is b: return a
        return VIte(c, a, b)
    def merge_rec(self, c, r1, r2):
        if type(r1) is not type(r2): return None
        if isinstance(r1, ObjRec):
            f = {}
            for k in list(r1.fields) + [k for k in r2.fields if k not in r1.fields]:
                x, y = r1.fields.get(k, UNBOUND), r2.fields.get(k, UNBOUND)
                f[k] = x if x is y else self.merge_val(c, x, y)
            locs = dict(r1.locs)
            for k, v in r2.locs.items():
                if r1.locs.get(k) != v: locs[k] = v if k not in r1.locs or r1.fields.get(k) is not f.get(k) else locs[k]
            return ObjRec(r1.cls, f, locs)
        if isinstance(r1, EnvRec):
            f = {}
            v1, v2 = r1.vars, r2.vars
            for k in list(v1) + [k for k in v2 if k not in v1]:
                x, y = v1.get(k, UNBOUND), v2.get(k, UNBOUND)
                if x is UNBOUND or y is UNBOUND:
                    f[k] = VIte(c, x, y) if x is not y else x
                else: f[k] = x if x is y else self.merge_val(c, x, y)
            return EnvRec(f, r1.parent)
        if isinstance(r1, ListRec):
            a, b = r1.items, r2.items
            if len(a) == len(b) and all(x[0] is y[0] for x, y in zip(a, b)):
                return ListRec([(x[0], x[1] if x[1] is y[1] else self.merge_val(c, x[1], y[1])) for x, y in zip(a, b)], r1.kind, r1.loc)
            k = 0
            while k < min(len(a), len(b)) and a[k][0] is b[k][0] and self.same(a[k][1], b[k][1]): k += 1
            # same values but different guards (removal) merge pairwise
            out = list(a[:k]); ra, rb = a[k:], b[k:]
            if len(ra) == len(rb) and all(self.same(x[1], y[1]) for x, y in zip(ra, rb)):
                out += [(ite(c, x[0], y[0]), x[1]) for x, y in zip(ra, rb)]
            elif not rb or not ra or not self._subseq(ra, rb, c, out):
                out += [(and_(c, g), v) for g, v in ra] + [(and_(not_(c), g), v) for g, v in rb]
            return ListRec(out, r1.kind, r1.loc)
        if isinstance(r1, DictRec):
            out = []; used = set()
            b = list(r2.items)
            for k, g, v in r1.items:
                j = next((j for j, (k2, g2, v2) in enumerate(b) if j not in used and self.same(k, k2)), None)
                if j is None: out.append((k, and_(c, g), v))
                else:
                    used.add(j); g2, v2 = b[j][1], b[j][2]
                    out.append((k, ite(c, g, g2), v if v is v2 else self.merge_val(c, v, v2)))
            for j, (k, g, v) in enumerate(b):
                if j not in used: out.append((k, and_(not_(c), g), v))
            return DictRec(out, r1.kind, r1.loc)
        if isinstance(r1, ArrRec):
            if r1.items is not None and r2.items is not None and len(r1.items) == len(r2.items):
                return ArrRec([ite(c, x, y) for x, y in zip(r1.items, r2.items)], dtype=r1.dtype)
            if r1.n is not None and r1.n is r2.n:
                return ArrRec(None, r1.n, ite(c, r1.elem, r2.elem), r1.dtype)
            return None
        return None
    def _subseq(self, ra, rb, c, out):
        """merge when one remainder is the other with entries missing (keeps order)"""
        big, small, flip = (ra, rb, False) if len(ra) > len(rb) else (rb, ra, True)
        j = 0; res = []
        for g, v in big:
            if j < len(small) and self.same(small[j][1], v):
                g2 = small[j][0]; j += 1
                res.append((ite(c, g, g2) if not flip else ite(c, g2, g), v))
            else: res.append((and_(not_(c) if flip else c, g), v))
        if j != len(small): return False
        out += res
        return True
    def same(self, a, b):
        if a is b: return True
        if isinstance(a, (Ref, Ext, Builtin)): return a == b
        if isinstance(a, VTuple) and isinstance(b, VTuple):
            return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, VIte) and isinstance(b, VIte): return a.c is b.c and self.same(a.a, b.a) and self.same(a.b, b.b)
        if isinstance(a, ExtVal) and isinstance(b, ExtVal): return a.uid == b.uid
        if isinstance(a, BoundMethod) and isinstance(b, BoundMethod): return a.func is b.func and self.same(a.recv, b.recv)
        return False
    def merge2(self, prefix, c, s1, s2, v1=None, v2=None):
        """join of two states that differ by gate c after the pc prefix"""
        k = len(prefix)
        nc = not_(c)
        r1 = and_(*[x for x, soft in s1.pc[k:] if not soft and x is not c])
        r2 = and_(*[x for x, soft in s2.pc[k:] if not soft and x is not nc])
        n = State(); n.pc = tuple(prefix); n.facts = s1.facts & s2.facts
        for x in (implies(c, r1), implies(nc, r2)):
            if x is not TRUE and not (x.id in n.facts):
                n.assume(x)
        # the result keeps the meaning of gates only on its own pc
        ev1, ev2 = s1.events, s2.events
        i = 0; m = min(len(ev1), len(ev2))
        while i < m and ev1[i] is ev2[i]: i += 1
        n.events = ev1 + ev2[i:]
        h1, h2 = s1.heap, s2.heap
        h = {}
        for id_, a in h1.items():
            b = h2.get(id_)
            if b is None or b is a: h[id_] = a
            else:
                r = self.merge_rec(c, a, b)
                if r is None: r = a if not isinstance(a, ArrRec) else self.unsup("join of arrays of different shape")
                h[id_] = r
        for id_, b in h2.items():
            if id_ not in h1: h[id_] = b
        n.heap = h
        return n, (self.merge_val(c, v1, v2) if v1 is not None or v2 is not None else None)
    def merge(self, items):
        """items: [(state, value)] of mutually exclusive states; returns (state, value)"""
        items = [x for x in items if not x[0].dead]
        if not items: return None, None
        if len(items) == 1: return items[0]
        pcs = [s.pc for s, v in items]
        k = 0
        m = min(len(p) for p in pcs)
        p0 = pcs[0]
        while k < m and all(p[k][0] is p0[k][0] for p in pcs): k += 1
        prefix = p0[:k]
        rest = [[x for x, soft in p[k:] if not soft] for p in pcs]
        c = None
        if rest[0]:
            c = rest[0][0]; nc = not_(c)
            A = [i for i in range(len(items)) if rest[i] and rest[i][0] is c]
            B = [i for i in range(len(items)) if rest[i] and rest[i][0] is nc]
            if len(A) + len(B) != len(items) or not B:
                # look for complementary entry anywhere
                c = None
                for cand in rest[0]:
                    nc = not_(cand)
                    A = [i for i in range(len(items)) if any(x is cand for x in rest[i])]
                    B = [i for i in range(len(items)) if any(x is nc for x in rest[i])]
                    if len(A) + len(B) == len(items) and B and not set(A) & set(B): c = cand; break
        if c is None:
            c = and_(*rest[0]); A = [0]; B = list(range(1, len(items)))
            if c is TRUE:
                c = not_(or_(*[and_(*rest[i]) for i in B]))
        s1, v1 = self.merge([items[i] for i in A])
        s2, v2 = self.merge([items[i] for i in B])
        kk = min(k, len(s1.pc), len(s2.pc))
        return self.merge2(prefix[:kk], c, s1, s2, v1, v2)
    def fork(self, st, c, fa, fb):
        """run fa under c and fb under not c, join into st; returns joined value"""
        d = self.decide(st, c)
        if d is True: return fa(st)
        if d is False: return fb(st)
        if time.time() > BUDGET[0]: raise Unsupported("analysis budget of this obligation group is used up")
        s1 = st.clone(); s1.assume(c); v1 = fa(s1)
        s2 = st.clone(); s2.assume(not_(c)); v2 = fb(s2)
        if s1.dead and s2.dead: st.become(s2); st.dead = True; return UNDEF
        if s1.dead: st.become(s2); return v2
        if s2.dead: st.become(s1); return v1
        if s1.heap == s2.heap and len(s1.pc) == len(st.pc) + 1 == len(s2.pc) and s1.events is st.events and s2.events is st.events:
            return self.merge_val(c, v1, v2)
        n, v = self.merge2(st.pc, c, s1, s2, v1 if v1 is not None else NONE, v2 if v2 is not None else NONE)
        st.become(n)
        return v
    def lift(self, st, v, f):
        """apply f(state, plain value) to every alternative of a gated value"""
        if st.dead: return UNDEF
        if isinstance(v, VIte): return self.fork(st, v.c, lambda s: self.lift(s, v.a, f), lambda s: self.lift(s, v.b, f))
        if isinstance(v, Node) and v.op == "ite" and truthy_kind(v) == "mixed":
            return self.fork(st, v.args[0], lambda s: self.lift(s, v.args[1], f), lambda s: self.lift(s, v.args[2], f))
        if v is UNBOUND: return self.do_raise(st, "UnboundLocalError", None, implicit=True)
        return f(st, v)

    # ------------------------------------------------------------------ truth / comparison
    def truth(self, st, v, node=None):
        if isinstance(v, Node):
            k = truthy_kind(v)
            if k == "bool": return v
            if k == "num": return not_(eq(v, ZERO))
            if k == "none": return FALSE
            if k == "str": return const(bool(cval(v))) if isc(v) else not_(eq(v, const("")))
            if v.op == "ite": return ite(v.args[0], self.truth(st, v.args[1]), self.truth(st, v.args[2]))
            if v is UNDEF: return FALSE
            return T.app("truth", "bool", v)
        if isinstance(v, VIte): return ite(v.c, self.truth(st, v.a), self.truth(st, v.b))
        if isinstance(v, VTuple): return const(bool(v.items))
        if isinstance(v, Ref):
            r = st.heap[v.id]
            if isinstance(r, ListRec): return or_(*[g for g, _ in r.items])
            if isinstance(r, DictRec): return or_(*[g for _, g, _ in r.items])
            if isinstance(r, ArrRec):
                if r.items is not None and len(r.items) == 1: return self.truth(st, r.items[0])
                self.unsup("truth of array", node)
            if isinstance(r, ObjRec):
                for nm in ("__bool__", "__len__"):
                    f = self.class_attr(st, r.cls, nm)
                    if f is not None: return self.truth(st, self.call(st, BoundMethod(f, v), [], {}, node))
                return TRUE
        if isinstance(v, ExtVal) and "ext_truth" in self.hooks:
            r = self.hooks["ext_truth"](self, st, v)
            if r is not NotImplemented: return r
        if isinstance(v, ExtVal): return T.app("truth:" + v.path, "bool", const(str(v.uid)))
        if isinstance(v, RangeVal):
            return lt(v.start, v.stop)
        if v is UNBOUND: return FALSE
        return TRUE
    def valeq(self, st, a, b, node=None):
        """node for a == b"""
        if isinstance(a, Node) and isinstance(b, Node):
            c = eq(a, b); d = self.decide(st, c)
            return c if d is None else const(d)
        if isinstance(a, VIte): return ite(a.c, self.valeq(st, a.a, b, node), self.valeq(st, a.b, b, node))
        if isinstance(b, VIte): return ite(b.c, self.valeq(st, a, b.a, node), self.valeq(st, a, b.b, node))
        if isinstance(a, VTuple) and isinstance(b, VTuple):
            if len(a.items) != len(b.items): return FALSE
            return and_(*[self.valeq(st, x, y, node) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id: return TRUE
            ra, rb = st.heap[a.id], st.heap[b.id]
            if isinstance(ra, ListRec) and isinstance(rb, ListRec):
                if ra.kind == "set" or rb.kind == "set":
                    if ra.kind != rb.kind: return FALSE
                    f = lambda p, q: and_(*[implies(g, or_(*[and_(h, self.valeq(st, x, y, node)) for h, y in q.items])) for g, x in p.items])
                    return and_(f(ra, rb), f(rb, ra))
                for p, q in ((ra, rb), (rb, ra)):
                    if not p.items: return not_(or_(*[g for g, _ in q.items]))
                if all(g is TRUE for g, _ in ra.items + rb.items):
                    if len(ra.items) != len(rb.items): return FALSE
                    return and_(*[self.valeq(st, x, y, node) for (_, x), (_, y) in zip(ra.items, rb.items)])
                if len(ra.items) == len(rb.items) and all(x[0] is y[0] for x, y in zip(ra.items, rb.items)):
                    return and_(*[implies(g, self.valeq(st, x, y, node)) for (g, x), (_, y) in zip(ra.items, rb.items)])
                self.unsup("equality of gated lists", node)
            if isinstance(ra, DictRec) and isinstance(rb, DictRec):
                cs = []
                for p, q in ((ra, rb), (rb, ra)):
                    for k, g, v in p.items:
                        m = [(h, w) for k2, h, w in q.items if self.valeq(st, k, k2) is TRUE]
                        if not m: cs.append(not_(g))
                        else: cs.append(implies(g, and_(m[0][0], self.valeq(st, v, m[0][1], node))))
                return and_(*cs)
            if isinstance(ra, ObjRec) and isinstance(rb, ObjRec):
                f = self.class_attr(st, ra.cls, "__eq__")
                if f is not None and isinstance(f, Func):
                    return self.truth(st, self.call(st, BoundMethod(f, a), [b], {}, node))
                if ra.cls is rb.cls and ra.cls.dataclass:
                    names = [n for n, *_ in ra.cls.fields]
                    return and_(*[self.valeq(st, ra.fields.get(n), rb.fields.get(n), node) for n in names])
                return FALSE
            if isinstance(ra, ArrRec) or isinstance(rb, ArrRec): self.unsup("array equality as scalar", node)
            return FALSE
        if isinstance(a, ExtVal) or isinstance(b, ExtVal):
            if isinstance(a, ExtVal) and isinstance(b, ExtVal) and a.uid == b.uid: return TRUE
            if isinstance(b, ExtVal) and not isinstance(a, ExtVal): a, b = b, a
            return T.app("eq:" + a.path, "bool", const(str(a.uid)), self.to_node(b))
        if isinstance(a, (Builtin, Ext)) or isinstance(b, (Builtin, Ext)): return const(a == b)
        if isinstance(a, (ClassVal, Func)) or isinstance(b, (ClassVal, Func)): return const(a is b)
        return FALSE
    def to_node(self, v):
        """a Node standing for any value (opaque if it is not a scalar)"""
        if isinstance(v, Node): return v
        if isinstance(v, ExtVal): return T.app("ext:" + v.path, "any", const(str(v.uid)))
        if isinstance(v, VTuple): return T.mk("tuple", *[self.to_node(x) for x in v.items])
        if isinstance(v, VIte): return ite(v.c, self.to_node(v.a), self.to_node(v.b))
        if isinstance(v, Ref): return T.app("ref", "any", const(str(v.id)))
        return T.app("val", "any", const(repr(v)))
    def compare(self, st, op, a, b, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.valis(st, a, b, node)
            return r if isinstance(op, ast.Is) else not_(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.lift(st, b, lambda s, q: self.contains(s, a, q, node))
            if not isinstance(r, Node): r = self.truth(st, r)
            return r if isinstance(op, ast.In) else not_(r)
        def f2(s, x, y):
            ax, ay = self.arr(s, x), self.arr(s, y)
            if ax is not None or ay is not None:
                o = {ast.Eq: eq, ast.NotEq: lambda p, q: not_(eq(p, q)), ast.Lt: lt, ast.LtE: le,
                     ast.Gt: lambda p, q: lt(q, p), ast.GtE: lambda p, q: le(q, p)}[type(op)]
                return self.ew(s, o, [x, y], node, "bool")
            if isinstance(op, ast.Eq): return self.valeq(s, x, y, node)
            if isinstance(op, ast.NotEq): return not_(self.valeq(s, x, y, node))
            if isinstance(x, ExtVal): x = self.to_node(x)
            if isinstance(y, ExtVal): y = self.to_node(y)
            if isinstance(x, Node) and isinstance(y, Node):
                kx, ky = truthy_kind(x), truthy_kind(y)
                bad = {"none"} & {kx, ky} or ({kx, ky} >= {"num", "str"}) or ({kx, ky} >= {"bool", "str"})
                if bad: return self.do_raise(s, "TypeError", node, implicit=True)
                if kx == "str" and ky == "str":
                    if isc(x) and isc(y):
                        p, q = cval(x), cval(y)
                        return const({ast.Lt: p < q, ast.LtE: p <= q, ast.Gt: p > q, ast.GtE: p >= q}[type(op)])
                    return T.app("strcmp" + type(op).__name__, "bool", x, y)
                x, y = T.b2i(x), T.b2i(y)
                if isinstance(op, ast.Lt): return lt(x, y)
                if isinstance(op, ast.LtE): return le(x, y)
                if isinstance(op, ast.Gt): return lt(y, x)
                if isinstance(op, ast.GtE): return le(y, x)
            if isinstance(x, VTuple) and isinstance(y, VTuple): return self.tuplecmp(s, op, x, y, node)
            if isinstance(x, Ref) or isinstance(y, Ref) or isinstance(x, VTuple) or isinstance(y, VTuple):
                rx = s.heap.get(x.id) if isinstance(x, Ref) else None
                if isinstance(rx, ObjRec):
                    nm = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}[type(op)]
                    f = self.class_attr(s, rx.cls, nm)
                    if f is not None: return self.truth(s, self.call(s, BoundMethod(f, x), [y], {}, node))
                if isinstance(rx, ListRec) and rx.kind == "set": self.unsup("set ordering", node)
                return self.do_raise(s, "TypeError", node, implicit=True)
            self.unsup("comparison", node)
        return self.lift(st, a, lambda s, x: self.lift(s, b, lambda s2, y: f2(s2, x, y)))
    def tuplecmp(self, st, op, x, y, node):
        strict = isinstance(op, (ast.Lt, ast.Gt)); 
        if isinstance(op, (ast.Gt, ast.GtE)): x, y = y, x
        def rec(i):
            if i == min(len(x.items), len(y.items)):
                return const(len(x.items) < len(y.items) if strict else len(x.items) <= len(y.items))
            p, q = x.items[i], y.items[i]
            l = self.compare(st, ast.Lt(), p, q, node)
            return or_(l, and_(self.valeq(st, p, q, node), rec(i + 1)))
        return rec(0)
    def valis(self, st, a, b, node):
        if isinstance(a, VIte): return ite(a.c, self.valis(st, a.a, b, node), self.valis(st, a.b, b, node))
        if isinstance(b, VIte): return ite(b.c, self.valis(st, a, b.a, node), self.valis(st, a, b.b, node))
        if isinstance(a, Node) and isinstance(b, Node):
            if a is NONE or b is NONE or truthy_kind(a) == "bool" or truthy_kind(b) == "bool":
                if truthy_kind(a) in ("num", "str") and truthy_kind(b) == "bool" or \
                   truthy_kind(b) in ("num", "str") and truthy_kind(a) == "bool": return FALSE
                return eq(a, b)
            return eq(a, b)
        if isinstance(a, Ref) and isinstance(b, Ref): return const(a.id == b.id)
        if isinstance(a, ExtVal) and isinstance(b, ExtVal): return const(a.uid == b.uid)
        if isinstance(a, ExtVal) and b is NONE or isinstance(b, ExtVal) and a is NONE:
            x = a if isinstance(a, ExtVal) else b
            return T.app("isnone:" + x.path, "bool", const(str(x.uid)))
        if isinstance(a, (Builtin, Ext)): return const(a == b)
        return const(a is b)
    def contains(self, st, x, c, node):
        if isinstance(c, VTuple): return or_(*[self.valeq(st, x, y, node) for y in c.items])
        if isinstance(c, Ref):
            r = st.heap[c.id]
            if isinstance(r, ListRec): return or_(*[and_(g, self.valeq(st, x, y, node)) for g, y in r.items])
            if isinstance(r, DictRec): return or_(*[and_(g, self.valeq(st, x, k, node)) for k, g, _ in r.items])
            if isinstance(r, ArrRec) and r.items is not None: return or_(*[self.valeq(st, x, y, node) for y in r.items])
            if isinstance(r, ObjRec):
                f = self.class_attr(st, r.cls, "__contains__")
                if f is not None: return self.truth(st, self.call(st, BoundMethod(f, c), [x], {}, node))
        if isinstance(c, Node) and truthy_kind(c) == "str":
            if isc(c) and isinstance(x, Node) and isc(x): return const(cval(x) in cval(c))
            return T.app("instr", "bool", self.to_node(x), c)
        if isinstance(c, RangeVal):
            items = self.iter_items(st, c, node)
            return or_(*[self.valeq(st, x, y, node) for _, y in items])
        if isinstance(c, Ext) and c.path == "os.environ": return self.to_node(self.models.call_ext(self, st, "os.environ.__contains__", [x], {}, node))
        if isinstance(c, ExtVal): return T.app("in:" + c.path, "bool", self.to_node(x), const(str(c.uid)))
        if c is NONE or isinstance(c, Node) and truthy_kind(c) in ("num", "bool"):
            return self.do_raise(st, "TypeError", node, implicit=True)
        self.unsup("membership", node)

    # ------------------------------------------------------------------ arrays
    def arr(self, st, v):
        if isinstance(v, Ref):
            r = st.heap.get(v.id)
            if isinstance(r, ArrRec): return r
        if isinstance(v, Masked): return v
        return None
    def ew(self, st, f, vals, node, dtype="float"):
        """element-wise application with broadcasting; returns Ref/Node/Masked"""
        recs = []
        for v in vals:
            r = self.arr(st, v)
            if r is None and isinstance(v, Ref) and isinstance(st.heap.get(v.id), ListRec):
                r = self.arr(st, self.to_array(st, v, node))
            if r is None and isinstance(v, VTuple):
                r = self.arr(st, self.to_array(st, v, node))
            recs.append(r)
        if all(r is None for r in recs):
            return f(*[self.num(st, v, node) for v in vals])
        if any(isinstance(r, Masked) for r in recs):
            m = next(r for r in recs if isinstance(r, Masked))
            xs = []
            for v, r in zip(vals, recs):
                if r is None: xs.append(("s", self.num(st, v, node)))
                elif isinstance(r, Masked) and r.mask == m.mask: xs.append(("m", r))
                else: self.unsup("mixed masked arrays", node)
            if m.n is not None:
                return Masked(f(*[x if k == "s" else x.elem for k, x in xs]), m.mask, m.n)
            el = tuple(f(*[x if k == "s" else x.elem[i] for k, x in xs]) for i in range(len(m.elem)))
            return Masked(el, m.mask, None)
        ex = [r for r in recs if r is not None and r.items is not None]
        ge = [r for r in recs if r is not None and r.items is None]
        if ex and ge:
            if all(len(r.items) == 1 for r in ex):
                recs = [r if r is None or r.items is None else None for r in recs]
                vals = [v if self.arr(st, v) is None or self.arr(st, v).items is None else self.arr(st, v).items[0] for v in vals]
                ex = []
            else: self.unsup("mixed array shapes", node)
        if ge:
            n = ge[0].n
            if any(r.n is not n for r in ge): self.unsup("arrays of different symbolic length", node)
            return self.new(st, ArrRec(None, n, f(*[r.elem if r is not None else self.num(st, v, node) for v, r in zip(vals, recs)]), dtype))
        n = max(len(r.items) for r in ex)
        if any(len(r.items) not in (1, n) for r in ex):
            return self.do_raise(st, "ValueError", node, implicit=True)
        out = []
        for i in range(n):
            out.append(f(*[(r.items[i if len(r.items) > 1 else 0] if r is not None else self.num(st, v, node)) for v, r in zip(vals, recs)]))
        return self.new(st, ArrRec(out, dtype=dtype))
    def num(self, st, v, node=None):
        """scalar node of a value used as a number"""
        if isinstance(v, Node): return v
        if isinstance(v, ExtVal): return self.to_node(v)
        if isinstance(v, VIte): return ite(v.c, self.num(st, v.a, node), self.num(st, v.b, node))
        self.unsup(f"not a number: {v!r}", node)
    def to_array(self, st, v, node, dtype=None):
        if self.arr(st, v) is not None:
            r = self.arr(st, v)
            if isinstance(r, Masked): return v
            return self.new(st, ArrRec(r.items, r.n, r.elem, dtype or r.dtype))
        if isinstance(v, Node): return v
        items = self.iter_items(st, v, node)
        if any(g is not TRUE for g, _ in items): self.unsup("array of gated list", node)
        xs = []
        for _, x in items:
            if isinstance(x, VIte): x = self.num(st, x, node)
            if not isinstance(x, Node): self.unsup("array of non-scalars", node)
            xs.append(x)
        return self.new(st, ArrRec(xs, dtype=dtype or "float"))

    # ------------------------------------------------------------------ arithmetic
    def binop(self, st, op, a, b, node, inplace=None):
        def f2(s, x, y):
            return self.binop1(s, op, x, y, node, inplace)
        return self.lift(st, a, lambda s, x: self.lift(s, b, lambda s2, y: f2(s2, x, y)))
    def binop1(self, st, op, x, y, node, inplace=None):
        ax, ay = self.arr(st, x), self.arr(st, y)
        if ax is not None or ay is not None:
            def npdiv(p, q):
                d = self.decide(st, eq(q, ZERO)) if not q.idx else None
                if d is not False and not (isc(q)):
                    n = (ax or ay)
                    self.event(st, "npdiv", "numpy./", (q,), {}, None, None, node)
                return T.div(p, q)
            F = {ast.Add: T.add, ast.Sub: T.sub, ast.Mult: T.mul, ast.Div: npdiv, ast.Pow: T.pow_,
                 ast.BitAnd: and_, ast.BitOr: or_, ast.Mod: T.mod, ast.FloorDiv: T.fdiv,
                 ast.BitXor: lambda p, q: not_(eq(p, q))}.get(type(op))
            if F is None: self.unsup("array operator", node)
            r = self.ew(st, F, [x, y], node, "bool" if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) else "float")
            if inplace and ax is not None and isinstance(x, Ref) and isinstance(r, Ref):
                st.heap[x.id] = st.heap[r.id]; return x
            return r
        if isinstance(x, ExtVal): 
            if not isinstance(y, (Node, ExtVal)): return self.ext_result(st, x.path + ".op", [x, y], {}, None, node)
            x = self.to_node(x)
        if isinstance(y, ExtVal):
            if not isinstance(x, Node): return self.ext_result(st, y.path + ".op", [x, y], {}, None, node)
            y = self.to_node(y)
        if isinstance(x, Node) and isinstance(y, Node):
            kx, ky = truthy_kind(x), truthy_kind(y)
            if kx == "none" or ky == "none": return self.do_raise(st, "TypeError", node, implicit=True)
            if kx == "str" or ky == "str":
                if isinstance(op, ast.Add) and kx == ky == "str":
                    if isc(x) and isc(y): return const(cval(x) + cval(y))
                    return T.mk("strcat", x, y)
                if isinstance(op, ast.Mult):
                    if isc(x) and isc(y): return const(cval(x) * cval(y))
                    return T.app("strmul", "str", x, y)
                if isinstance(op, ast.Mod) and kx == "str": return T.mk("fmt", x, y)
                if "any" in (kx, ky): return T.app("strop" + type(op).__name__, "any", x, y)
                return self.do_raise(st, "TypeError", node, implicit=True)
            if isinstance(op, ast.BitAnd):
                if kx == ky == "bool": return and_(x, y)
                return T.app("bitand", "int", x, y)
            if isinstance(op, ast.BitOr):
                if kx == ky == "bool": return or_(x, y)
                return T.app("bitor", "int", x, y)
            if isinstance(op, ast.Add): return T.add(x, y)
            if isinstance(op, ast.Sub): return T.sub(x, y)
            if isinstance(op, ast.Mult): return T.mul(x, y)
            if isinstance(op, ast.Div):
                self.may_raise(st, eq(T.b2i(y), ZERO), "ZeroDivisionError", node)
                return UNDEF if st.dead else T.div(x, y)
            if isinstance(op, ast.FloorDiv):
                self.may_raise(st, eq(T.b2i(y), ZERO), "ZeroDivisionError", node)
                return UNDEF if st.dead else T.fdiv(x, y)
            if isinstance(op, ast.Mod):
                self.may_raise(st, eq(T.b2i(y), ZERO), "ZeroDivisionError", node)
                return UNDEF if st.dead else T.mod(x, y)
            if isinstance(op, ast.Pow):
                if T.isexact(y) and cval(y) < 0: self.may_raise(st, eq(T.b2i(x), ZERO), "ZeroDivisionError", node)
                return T.pow_(x, y)
            self.unsup("operator", node)
        lx = st.heap.get(x.id) if isinstance(x, Ref) else None
        ly = st.heap.get(y.id) if isinstance(y, Ref) else None
        if isinstance(op, ast.Add):
            if isinstance(lx, ListRec) and lx.kind == "list":
                if inplace:
                    items = self.iter_items(st, y, node)
                    st.heap[x.id] = ListRec(lx.items + tuple(items), lx.kind, lx.loc)
                    return x
                if isinstance(ly, ListRec) and ly.kind == "list":
                    return self.new(st, ListRec(lx.items + ly.items, "list", self.here(node)))
                return self.do_raise(st, "TypeError", node, implicit=True)
            if isinstance(x, VTuple) and isinstance(y, VTuple): return VTuple(x.items + y.items)
        if isinstance(op, ast.Mult):
            for p, q in ((x, y), (y, x)):
                if isinstance(p, VTuple) and T.isexact(q): return VTuple(p.items * int(cval(q)))
                rp = st.heap.get(p.id) if isinstance(p, Ref) else None
                if isinstance(rp, ListRec) and isinstance(q, Node):
                    if T.isexact(q): return self.new(st, ListRec(rp.items * int(cval(q)), "list", self.here(node)))
                    if len(rp.items) == 1: return self.new(st, ArrRec(None, q, self.num(st, rp.items[0][1]), "list"))
        if isinstance(lx, ListRec) and isinstance(ly, ListRec) and lx.kind == ly.kind == "set":
            if isinstance(op, ast.BitOr): return self.make_set(st, list(lx.items) + list(ly.items), node)
            if isinstance(op, ast.Sub):
                return self.new(st, ListRec([(and_(g, not_(or_(*[and_(h, self.valeq(st, v, w)) for h, w in ly.items]))), v) for g, v in lx.items], "set"))
            if isinstance(op, ast.BitAnd):
                return self.new(st, ListRec([(and_(g, or_(*[and_(h, self.valeq(st, v, w)) for h, w in ly.items])), v) for g, v in lx.items], "set"))
        if isinstance(lx, DictRec) and isinstance(ly, DictRec) and isinstance(op, ast.BitOr):
            d = self.new(st, DictRec(lx.items, "dict", self.here(node)))
            for k, g, v in ly.items: self.dict_set(st, d, k, v, node)
            return d
        for p, nm in ((lx, {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__"}.get(type(op))),):
            if isinstance(p, ObjRec) and nm:
                f = self.class_attr(st, p.cls, nm)
                if f is not None: return self.call(st, BoundMethod(f, x), [y], {}, node)
        if isinstance(x, Node) and truthy_kind(x) == "str" and isinstance(op, ast.Mod):
            return T.mk("fmt", x, self.to_node(y))
        if isinstance(x, Node) and truthy_kind(x) == "any" or isinstance(y, Node) and truthy_kind(y) == "any":
            self.unsup("operator on unknown value", node)
        return self.do_raise(st, "TypeError", node, implicit=True)

    # ------------------------------------------------------------------ containers
    def iter_items(self, st, v, node=None, consume=True):
        """((guard, value), ...) of an iterable of known shape"""
        if isinstance(v, VIte):
            d = self.decide(st, v.c)
            if d is not None: return self.iter_items(st, v.a if d else v.b, node)
            a = [(and_(v.c, g), x) for g, x in self.iter_items(st, v.a, node)]
            b = [(and_(not_(v.c), g), x) for g, x in self.iter_items(st, v.b, node)]
            return a + b
        if isinstance(v, VTuple): return [(TRUE, x) for x in v.items]
        if isinstance(v, Ref):
            r = st.heap[v.id]
            if isinstance(r, ListRec):
                items = list(r.items)
                if r.kind == "set" and self.set_order == "rev": items.reverse()
                if r.kind == "iter" and consume: st.heap[v.id] = ListRec((), "iter", r.loc)
                return items
            if isinstance(r, DictRec): return [(g, k) for k, g, _ in r.items]
            if isinstance(r, ArrRec):
                if r.items is not None: return [(TRUE, x) for x in r.items]
                raise Unsupported(f"iteration over array of symbolic length at {self.here(node)}", node)
            if isinstance(r, ObjRec):
                f = self.class_attr(st, r.cls, "__iter__")
                if f is not None: return self.iter_items(st, self.call(st, BoundMethod(f, v), [], {}, node), node)
                self.do_raise(st, "TypeError", node, implicit=True); return []
        if isinstance(v, RangeVal):
            if T.isexact(v.start) and T.isexact(v.stop) and T.isexact(v.step):
                n = len(range(int(cval(v.start)), int(cval(v.stop)), int(cval(v.step))))
                if n > 4000: self.unsup("long range", node)
                return [(TRUE, const(i)) for i in range(int(cval(v.start)), int(cval(v.stop)), int(cval(v.step)))]
            # gated length: stop is a small gated constant
            leaves = self.int_leaves(v.stop) if T.isexact(v.start) and T.isexact(v.step) and cval(v.step) == 1 else None
            if leaves is not None and max(leaves) <= 64:
                return [(lt(const(i), v.stop), const(i)) for i in range(int(cval(v.start)), max(leaves))]
            raise Unsupported(f"range of symbolic length at {self.here(node)}", node)
        if isinstance(v, Node):
            if isc(v) and isinstance(cval(v), str): return [(TRUE, const(ch)) for ch in cval(v)]
            k = truthy_kind(v)
            if k in ("none", "num", "bool"):
                self.do_raise(st, "TypeError", node, implicit=True); return []
        if isinstance(v, Masked) and v.n is None:
            return [(m, e) for m, e in zip(v.mask, v.elem)]
        if isinstance(v, ExtVal) and v.path.startswith("plotly.") and v.path.endswith(".data"): return [(TRUE, ExtVal("*", (), {}, v.recv, f"{v.uid}*"))]
        if isinstance(v, ExtVal) and v.path.startswith("list:"): return [(TRUE, x) for x in v.args]
        self.unsup(f"iteration over {v!r}", node)
    def int_leaves(self, n, d=0):
        if T.isexact(n) and cval(n) == int(cval(n)): return {int(cval(n))}
        if d > 40: return None
        if n.op == "ite":
            a, b = self.int_leaves(n.args[1], d + 1), self.int_leaves(n.args[2], d + 1)
            return None if a is None or b is None else a | b
        if n.op in ("+", "*"):
            a, b = self.int_leaves(n.args[0], d + 1), self.int_leaves(n.args[1], d + 1)
            if a is None or b is None or len(a) * len(b) > 200: return None
            return {(x + y if n.op == "+" else x * y) for x in a for y in b}
        return None
    def count(self, items):
        n = ZERO
        for g, _ in items: n = T.add(n, ite(g, ONE, ZERO) if g not in (TRUE, FALSE) else (ONE if g is TRUE else ZERO))
        return n
    def nth(self, st, items, k, node):
        """value of the k-th present entry, k >= 0 const; raises IndexError where absent"""
        if all(g is TRUE for g, _ in items[:k + 1]):
            if k < len(items): return items[k][1]
            return self.do_raise(st, "IndexError", node, implicit=True)
        cnt = [TRUE] + [FALSE] * k   # cnt[j]: exactly j present so far
        sel = []
        for g, v in items:
            c = and_(cnt[k], g)
            if c is not FALSE: sel.append((c, v))
            cnt = [or_(and_(cnt[j], not_(g)), and_(cnt[j - 1], g) if j else FALSE) for j in range(k + 1)]
        have = or_(*[c for c, _ in sel])
        self.may_raise(st, not_(have), "IndexError", node)
        if st.dead or not sel: return UNDEF
        r = sel[-1][1]
        for c, v in reversed(sel[:-1]): r = self.merge_val(c, v, r)
        return r
    def positions(self, st, items, k):
        """condition under which the number k designates each entry of a list whose entries are conditional; None: not decided here"""
        n = self.count(items); p = ZERO; out = []
        for g, v in items:
            gd = self.decide(st, g) if g not in (TRUE, FALSE) else (g is TRUE)
            if gd is not False and k is p and gd: return [TRUE if j == len(out) else FALSE for j in range(len(items))]
            out.append(and_(g, or_(eq(k, p), eq(k, T.sub(p, n)))))
            p = T.add(p, ONE if g is TRUE else ite(g, ONE, ZERO))
        return out
    def getitem(self, st, o, k, node):
        return self.lift(st, o, lambda s, ob: self.getitem1(s, ob, k, node))
    def getitem1(self, st, o, k, node):
        if isinstance(o, VTuple) or (isinstance(o, Ref) and isinstance(st.heap[o.id], ListRec)):
            items = [(TRUE, x) for x in o.items] if isinstance(o, VTuple) else list(st.heap[o.id].items)
            if isinstance(o, Ref) and st.heap[o.id].kind == "set": return self.do_raise(st, "TypeError", node, implicit=True)
            if isinstance(k, SliceVal): return self.slice_items(st, o, items, k, node)
            if isinstance(k, VIte): return self.lift(st, k, lambda s, kk: self.getitem1(s, o, kk, node))
            if isinstance(k, Node):
                kd = truthy_kind(k)
                if kd == "mixed": return self.lift(st, k, lambda s, kk: self.getitem1(s, o, kk, node))
                if kd in ("none", "str"): return self.do_raise(st, "TypeError", node, implicit=True)
                k = T.b2i(k)
                if T.isexact(k):
                    i = int(cval(k))
                    if i >= 0: return self.nth(st, items, i, node)
                    return self.nth(st, items[::-1], -i - 1, node)
                # symbolic index into an exact list
                if all(g is TRUE for g, _ in items) and items:
                    n = len(items)
                    self.may_raise(st, or_(le(const(n), k), lt(k, const(-n))), "IndexError", node)
                    r = items[-1][1]
                    for i in range(n - 2, -1, -1): r = self.merge_val(or_(eq(k, const(i)), eq(k, const(i - n))), items[i][1], r)
                    return r
                if items:
                    ats = self.positions(st, items, k)
                    if ats is not None:
                        for j, c in enumerate(ats):
                            if c is TRUE: return items[j][1]
                        self.may_raise(st, not_(or_(*ats)), "IndexError", node)
                        if st.dead: return UNDEF
                        sel = [(c, v) for c, (g, v) in zip(ats, items) if c is not FALSE]
                        if not sel: return UNDEF
                        r = sel[-1][1]
                        for c, v in reversed(sel[:-1]): r = self.merge_val(c, v, r)
                        return r
            self.unsup("index", node)
        if isinstance(o, Ref):
            r = st.heap[o.id]
            if isinstance(r, DictRec): return self.dict_get(st, o, k, node)
            if isinstance(r, ArrRec): return self.arr_get(st, o, r, k, node)
            if isinstance(r, ObjRec):
                f = self.class_attr(st, r.cls, "__getitem__")
                if f is not None: return self.call(st, BoundMethod(f, o), [k], {}, node)
                return self.do_raise(st, "TypeError", node, implicit=True)
        if isinstance(o, Node):
            kd = truthy_kind(o)
            if kd in ("none", "num", "bool"): return self.do_raise(st, "TypeError", node, implicit=True)
            if isc(o) and kd == "str":
                s = cval(o)
                if isinstance(k, SliceVal):
                    g = lambda x: None if x is NONE else int(cval(x))
                    try: return const(s[g(k.a):g(k.b):g(k.c)])
                    except Exception: self.unsup("string slice", node)
                if isinstance(k, Node) and T.isexact(k):
                    i = int(cval(k))
                    if -len(s) <= i < len(s): return const(s[i])
                    return self.do_raise(st, "IndexError", node, implicit=True)
            return T.app("getitem", "any", o, self.to_node(k) if not isinstance(k, SliceVal) else const("slice"))
        if isinstance(o, RangeVal): return self.getitem1(st, self.new(st, ListRec(self.iter_items(st, o, node))), k, node)
        if isinstance(o, Masked):
            if o.n is None: return self.nth(st, [(m, e) for m, e in zip(o.mask, o.elem)], int(cval(k)), node)
        if isinstance(o, ExtVal): return self.ext_getitem(st, o, k, node)
        if isinstance(o, Ext) and o.path == "os.environ": return self.models.call_ext(self, st, "os.environ.__getitem__", [k], {}, node)
        if isinstance(o, (Ext, ClassVal, Builtin)): return o    # typing subscripts
        self.unsup(f"subscript of {o!r}", node)
    def ext_getitem(self, st, o, k, node):
        h = self.hooks.get("ext_getitem")
        if h:
            r = h(self, st, o, k, node)
            if r is not NotImplemented: return r
        kk = repr(k)
        return ExtVal(o.path + "[]", (k,), {}, o, f"{o.uid}[{kk}]")
    def slice_items(self, st, o, items, k, node):
        g = lambda x: None if x is NONE else (int(cval(x)) if isinstance(x, Node) and T.isexact(x) else self.unsup("slice bound", node))
        tup = isinstance(o, VTuple)
        bounds = [k.a, k.b, k.c]
        # symbolic bound equal to a gated length is not supported
        a, b, c = g(k.a), g(k.b), g(k.c)
        cut = self.beyond(items, a, b) if c in (None, 1) else None
        if cut is not None:
            res = [(x, v) for x, v in cut if x is not FALSE]
        elif all(x is TRUE for x, _ in items) or (a is None and b is None):
            res = items[a:b:c]
        else:
            if c not in (None, 1): self.unsup("slice of gated list", node)
            def fewer(its, n):
                """for every entry: fewer than n present entries come before it"""
                out = []; cnt = [TRUE] + [FALSE] * (n - 1) if n else []
                for gd, v in its:
                    out.append(or_(*cnt) if cnt else FALSE)
                    cnt = [or_(and_(cnt[j], not_(gd)), and_(cnt[j - 1], gd) if j else FALSE) for j in range(n)]
                return out
            keep = [gd for gd, v in items]
            if a is not None: keep = [and_(x, not_(y)) for x, y in zip(keep, fewer(items, a))] if a >= 0 else [and_(x, y) for x, y in zip(keep, fewer(items[::-1], -a)[::-1])]
            if b is not None: keep = [and_(x, y) for x, y in zip(keep, fewer(items, b))] if b >= 0 else [and_(x, not_(y)) for x, y in zip(keep, fewer(items[::-1], -b)[::-1])]
            res = [(x, v) for x, (gd, v) in zip(keep, items)]
            res = [(gd, v) for gd, v in res if gd is not FALSE]
        if tup: return VTuple([v for _, v in res])
        return self.new(st, ListRec(res, "list", self.here(node)))
    # a list of a few planes that stands for one of any length: whether it has more than n of them,
    # and whether one of those looked at is beyond the n-th, is open
    def isopen(self, items):
        return bool(self.open_refs) and len(items) > 0 and all(isinstance(v, Ref) and v.id in self.open_refs for _, v in items)
    def more_than(self, n):
        s = T.sym(f"more than {n}", "bool"); self.allsyms.add(s); return s
    def beyond(self, items, a, b):
        if not self.isopen(items): return None
        n = len(items)
        def past(k):
            m = self.more_than(k); out = []; inside = TRUE
            for i in range(n):
                s = T.sym(f"plane {i} beyond {k}", "bool"); self.allsyms.add(s)
                inside = and_(inside, not_(and_(m, s))); out.append(inside)
            return out
        if a in (None, 0) and b is not None and b >= n and b > 2: return [(and_(g, k), v) for (g, v), k in zip(items, past(b))]
        if b is None and a is not None and a >= n and a > 2: return [(and_(g, not_(k)), v) for (g, v), k in zip(items, past(a))]
        if b is None and a is not None and a <= -n and a < -2: return [(and_(g, k), v) for (g, v), k in zip(items, past(-a)[::-1])]
        return None
    def open_count(self, e, st, env, mod):
        """len(planes) compared with a number larger than the planes looked at"""
        if not self.open_refs or len(e.ops) != 1: return None
        l, r = e.left, e.comparators[0]
        islen = lambda x: isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" and len(x.args) == 1 and isinstance(x.args[0], (ast.Name, ast.Attribute))
        op = type(e.ops[0])
        if islen(r) and not islen(l): l, r = r, l; op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(op)
        if not islen(l) or islen(r) or op not in (ast.Lt, ast.Gt, ast.LtE, ast.GtE): return None
        v = self.ev(l.args[0], st, env, mod)
        if st.dead or not isinstance(v, Ref) or not isinstance(st.heap.get(v.id), ListRec) or not self.isopen(st.heap[v.id].items): return None
        k = self.ev(r, st, env, mod)
        if st.dead or not T.isexact(k): return None
        n = int(cval(k)) - (op in (ast.Lt, ast.GtE))
        if n < len(st.heap[v.id].items) or n < 3: return None
        return self.more_than(n) if op in (ast.Gt, ast.GtE) else not_(self.more_than(n))
    def dict_get(self, st, o, k, node, default=None, has_default=False):
        r = st.heap[o.id]
        if isinstance(k, Node) and T.isnumc(k) and not has_default:
            pass
        sel = []
        for kk, g, v in r.items:
            c = and_(g, self.valeq(st, k, kk, node))
            if c is FALSE: continue
            sel.append((c, v))
            if c is TRUE: break
        have = or_(*[c for c, _ in sel])
        if r.kind == "default" and not has_default:
            if have is TRUE: pass
            else: self.unsup("defaultdict", node)
        if not has_default:
            self.may_raise(st, not_(have), "KeyError", node)
            if st.dead or not sel: return UNDEF
            res = sel[-1][1]; rest = sel[:-1]
        else:
            res = default; rest = sel
        for c, v in reversed(rest): res = self.merge_val(c, v, res)
        return res
    def dict_set(self, st, o, k, v, node):
        r = st.heap[o.id]
        out = []; covered = FALSE
        for kk, g, vv in r.items:
            e = self.valeq(st, k, kk, node)
            if e is TRUE:
                out.append((kk, TRUE, v)); covered = TRUE
            elif e is FALSE: out.append((kk, g, vv))
            else:
                out.append((kk, g, self.merge_val(e, v, vv))); covered = or_(covered, and_(g, e))
        if covered is not TRUE: out.append((k, not_(covered), v))
        st.heap[o.id] = DictRec(out, r.kind, r.loc)
    def make_set(self, st, items, node):
        out = []
        for g, v in items:
            dup = or_(*[and_(h, self.valeq(st, v, w, node)) for h, w in out])
            g2 = and_(g, not_(dup))
            if g2 is not FALSE: out.append((g2, v))
        return self.new(st, ListRec(out, "set", self.here(node)))
    def arr_get(self, st, o, r, k, node):
        if isinstance(k, SliceVal):
            if k.a is NONE and k.b is NONE and k.c is NONE: return self.new(st, ArrRec(r.items, r.n, r.elem, r.dtype))
            if r.items is not None:
                g = lambda x: None if x is NONE else (int(cval(x)) if isinstance(x, Node) and T.isexact(x) else self.unsup("slice", node))
                return self.new(st, ArrRec(r.items[g(k.a):g(k.b):g(k.c)], dtype=r.dtype))
            self.unsup("slice of symbolic array", node)
        m = self.arr(st, k)
        if m is not None and not isinstance(m, Masked) and m.dtype == "bool":
            if r.items is not None and m.items is not None: return Masked(r.items, m.items, None)
            if r.items is None and m.items is None: return Masked(r.elem, m.elem, r.n)
            self.unsup("mask shape", node)
        if isinstance(k, Node):
            if r.items is not None and T.isexact(k):
                i = int(cval(k))
                if -len(r.items) <= i < len(r.items): return r.items[i]
                return self.do_raise(st, "IndexError", node, implicit=True)
            if r.items is not None:
                res = r.items[-1]
                for i in range(len(r.items) - 2, -1, -1): res = ite(eq(k, const(i)), r.items[i], res)
                return res
            if k is IDX: return r.elem
            if T.isexact(k) and not r.elem.idx: return r.elem
            if T.isexact(k) or not k.idx:
                i = k
                if T.isexact(k) and cval(k) < 0: i = T.add(r.n, k)
                return T.at(r.elem, i)
        if m is not None and m.items is not None and r.items is not None:
            return self.new(st, ArrRec([self.arr_get(st, o, r, x, node) for x in m.items], dtype=r.dtype))
        self.unsup("array index", node)
    def setitem(self, st, o, k, v, node):
        return self.lift(st, o, lambda s, ob: self.setitem1(s, ob, k, v, node))
    def setitem1(self, st, o, k, v, node):
        if isinstance(o, Ref):
            r = st.heap[o.id]
            if isinstance(r, DictRec): self.dict_set(st, o, k, v, node); return NONE
            if isinstance(r, ListRec):
                if isinstance(k, SliceVal):
                    items = self.iter_items(st, v, node)
                    g = lambda x: None if x is NONE else (int(cval(x)) if isinstance(x, Node) and T.isexact(x) else self.unsup("slice store", node))
                    if k.a is NONE and k.b is NONE: st.heap[o.id] = ListRec(items, r.kind, r.loc); return NONE
                    if all(gd is TRUE for gd, _ in r.items):
                        l = list(r.items); l[g(k.a):g(k.b)] = items
                        st.heap[o.id] = ListRec(l, r.kind, r.loc); return NONE
                    self.unsup("slice store", node)
                if isinstance(k, Node) and T.isexact(k):
                    i = int(cval(k)); items = list(r.items)
                    if i < 0:
                        items = items[::-1]; i = -i - 1; rev = True
                    else: rev = False
                    if all(g is TRUE for g, _ in items[:i + 1]):
                        if i >= len(items): return self.do_raise(st, "IndexError", node, implicit=True)
                        items[i] = (TRUE, v)
                    else:
                        cnt = [TRUE] + [FALSE] * i; anyc = FALSE
                        for j, (g, w) in enumerate(items):
                            c = and_(cnt[i], g)
                            if c is not FALSE: items[j] = (g, self.merge_val(c, v, w)); anyc = or_(anyc, c)
                            cnt = [or_(and_(cnt[q], not_(g)), and_(cnt[q - 1], g) if q else FALSE) for q in range(i + 1)]
                        self.may_raise(st, not_(anyc), "IndexError", node)
                        if st.dead: return UNDEF
                    if rev: items = items[::-1]
                    st.heap[o.id] = ListRec(items, r.kind, r.loc); return NONE
                if isinstance(k, Node) and all(g is TRUE for g, _ in r.items):
                    st.heap[o.id] = ListRec([(g, self.merge_val(eq(k, const(i)), v, w)) for i, (g, w) in enumerate(r.items)], r.kind, r.loc)
                    return NONE
                if isinstance(k, Node) and truthy_kind(k) == "num" and r.items:
                    ats = self.positions(st, r.items, k)
                    self.may_raise(st, not_(or_(*ats)), "IndexError", node)
                    if st.dead: return UNDEF
                    st.heap[o.id] = ListRec([(g, v if c is TRUE else w if c is FALSE else self.merge_val(c, v, w)) for c, (g, w) in zip(ats, r.items)], r.kind, r.loc)
                    return NONE
                self.unsup("list store", node)
            if isinstance(r, ArrRec): return self.arr_set(st, o, r, k, v, node)
            if isinstance(r, ObjRec):
                f = self.class_attr(st, r.cls, "__setitem__")
                if f is not None: return self.call(st, BoundMethod(f, o), [k, v], {}, node)
        if isinstance(o, ExtVal):
            h = self.hooks.get("ext_setitem")
            if h:
                r = h(self, st, o, k, v, node)
                if r is not NotImplemented: return r
            self.event(st, "setitem", o.path, (k, v), {}, o, None, node); return NONE
        if isinstance(o, (VTuple, Node)): return self.do_raise(st, "TypeError", node, implicit=True)
        self.unsup("item store", node)
    def arr_set(self, st, o, r, k, v, node):
        vr = self.arr(st, v)
        if isinstance(v, Ref) and vr is None and isinstance(st.heap[v.id], ListRec):
            v = self.to_array(st, v, node); vr = self.arr(st, v)
        m = self.arr(st, k)
        if m is not None and m.dtype == "bool":
            if r.items is None:
                if m.items is not None: self.unsup("mask shape", node)
                if vr is None: x = self.num(st, v, node)
                elif isinstance(vr, Masked) and vr.mask is m.elem: x = vr.elem
                else: self.unsup("masked store", node)
                st.heap[o.id] = ArrRec(None, r.n, ite(m.elem, x, r.elem), r.dtype)
            else:
                if vr is None: xs = [self.num(st, v, node)] * len(r.items)
                elif isinstance(vr, Masked) and vr.mask == m.items: xs = vr.elem
                else: self.unsup("masked store", node)
                st.heap[o.id] = ArrRec([ite(mm, x, w) for mm, x, w in zip(m.items, xs, r.items)], dtype=r.dtype)
            return NONE
        if isinstance(k, SliceVal):
            if k.a is NONE and k.b is NONE and k.c is NONE:
                if vr is None:
                    x = self.num(st, v, node)
                    st.heap[o.id] = ArrRec([x] * len(r.items), dtype=r.dtype) if r.items is not None else ArrRec(None, r.n, x, r.dtype)
                elif r.items is not None and vr.items is not None and len(r.items) == len(vr.items): st.heap[o.id] = ArrRec(vr.items, dtype=r.dtype)
                elif r.items is None and vr.items is None: st.heap[o.id] = ArrRec(None, r.n, vr.elem, r.dtype)
                else: self.unsup("slice store", node)
                return NONE
            if r.items is not None:
                g = lambda x: None if x is NONE else (int(cval(x)) if isinstance(x, Node) and T.isexact(x) else self.unsup("slice", node))
                l = list(r.items); idx = list(range(len(l)))[g(k.a):g(k.b):g(k.c)]
                xs = list(vr.items) if vr is not None and vr.items is not None else [self.num(st, v, node)] * len(idx)
                if len(xs) == 1: xs = xs * len(idx)
                if len(xs) != len(idx): return self.do_raise(st, "ValueError", node, implicit=True)
                for i, x in zip(idx, xs): l[i] = x
                st.heap[o.id] = ArrRec(l, dtype=r.dtype); return NONE
            self.unsup("slice store", node)
        if isinstance(k, Node) and r.items is not None:
            x = self.num(st, v, node)
            if T.isexact(k):
                i = int(cval(k)); l = list(r.items)
                if not -len(l) <= i < len(l): return self.do_raise(st, "IndexError", node, implicit=True)
                l[i] = x
            else: l = [ite(eq(k, const(i)), x, w) for i, w in enumerate(r.items)]
            st.heap[o.id] = ArrRec(l, dtype=r.dtype); return NONE
        self.unsup("array store", node)

    # ------------------------------------------------------------------ attributes
    def class_mro(self, c):
        out = [c]
        for b in c.bases:
            if isinstance(b, ClassVal): out += [x for x in self.class_mro(b) if x not in out]
        return out
    def class_attr(self, st, c, name):
        for k in self.class_mro(c):
            v = st.heap[k.env.id].vars.get(name)
            if v is not None and v is not UNBOUND: return v
        return None
    def getattr(self, st, o, name, node):
        return self.lift(st, o, lambda s, ob: self.getattr1(s, ob, name, node))
    def getattr1(self, st, o, name, node):
        if isinstance(o, Ref):
            r = st.heap[o.id]
            if isinstance(r, ObjRec):
                if name in r.fields:
                    v = r.fields[name]
                    if v is UNBOUND: return self.do_raise(st, "AttributeError", node, implicit=True)
                    if isinstance(v, VIte):
                        bad = unbound_when(v)
                        if bad is not FALSE:
                            self.may_raise(st, bad, "AttributeError", node)
                            return UNDEF if st.dead else bound_part(v)
                    return v
                if name == "__class__": return r.cls
                if name == "__dict__": return self.new(st, DictRec([(const(k), TRUE, v) for k, v in r.fields.items()], "attrs"))
                v = self.class_attr(st, r.cls, name)
                if v is not None: return self.bind(st, v, o, r.cls, node)
                g = self.class_attr(st, r.cls, "__getattr__")
                if g is not None: return self.call(st, BoundMethod(g, o), [const(name)], {}, node)
                h = self.hooks.get("obj_getattr")
                if h:
                    v = h(self, st, o, name, node)
                    if v is not NotImplemented: return v
                if any(isinstance(b, Ext) for k in self.class_mro(r.cls) for b in k.bases):
                    return ExtVal(f"{r.cls.name}.{name}", (), {}, o, f"{o.id}.{name}")
                return self.do_raise(st, "AttributeError", node, args=(const(name),), implicit=True)
            if isinstance(r, ArrRec):
                if name == "size":
                    return const(len(r.items)) if r.items is not None else r.n
                if name == "shape": return VTuple([const(len(r.items)) if r.items is not None else r.n])
                if name == "ndim": return ONE
                if name == "dtype": return Builtin(r.dtype)
                if name == "T": return o
            return Method(name, o)
        if isinstance(o, ModuleVal):
            v = st.heap[o.env.id].vars.get(name)
            if v is None:
                sub = o.name + "." + name
                if self.mod_file(sub): return self.load(sub, st)
                return self.do_raise(st, "AttributeError", node, implicit=True)
            return v
        if isinstance(o, Ext):
            return self.models.ext_attr(self, st, o.path + "." + name)
        if isinstance(o, ClassVal):
            if name == "__name__": return const(o.name)
            v = self.class_attr(st, o, name)
            if v is not None:
                if isinstance(v, Func) and "classmethod" in v.deco: return BoundMethod(v, o)
                return v
            if any(isinstance(b, Ext) for k in self.class_mro(o) for b in k.bases) :
                return self.models.ext_class_attr(self, st, o, name)
            if name == "__doc__": return T.app("doc", "str", const(o.name))
            return self.do_raise(st, "AttributeError", node, implicit=True)
        if isinstance(o, ExtVal):
            h = self.hooks.get("ext_getattr")
            if h:
                r = h(self, st, o, name, node)
                if r is not NotImplemented: return r
            return self.models.extval_attr(self, st, o, name, node)
        if isinstance(o, Super):
            seen = False
            recv = o.recv
            rcls = st.heap[recv.id].cls if isinstance(recv, Ref) else recv
            for k in self.class_mro(rcls):
                if seen:
                    v = st.heap[k.env.id].vars.get(name)
                    if v is not None: return self.bind(st, v, recv, k, node)
                if k is o.cls: seen = True
            return Ext("object." + name)
        if isinstance(o, Node):
            k = truthy_kind(o)
            if k == "none": return self.do_raise(st, "AttributeError", node, implicit=True)
            if k in ("num", "bool"):
                if name in ("real",): return o
                if name in ("is_integer", "item", "conjugate", "any", "all", "sum", "max", "min", "copy", "tolist"): return Method(name, o)
                return self.do_raise(st, "AttributeError", node, implicit=True)
            return Method(name, o)
        if isinstance(o, (VTuple, RangeVal, Masked)): return Method(name, o)
        if isinstance(o, (Func, BoundMethod)):
            f = o if isinstance(o, Func) else o.func
            if name in ("__name__", "__qualname__"): return const(f.name)
            if name == "__doc__": return const(ast.get_docstring(f.node) or "") if isinstance(f.node, ast.FunctionDef) else NONE
            if name == "__func__" and isinstance(o, BoundMethod): return o.func
            if isinstance(f, Func) and name in ("cache_clear",): return Method(name, f)
            if isinstance(f, Func):
                v = st.heap[f.env.id].vars.get(("fattr", f.uid, name)) if f.env else None
                if v is not None: return v
            return self.do_raise(st, "AttributeError", node, implicit=True)
        if isinstance(o, Builtin):
            if name == "__name__": return const(o.name)
            return Method(name, o)
        self.unsup(f"attribute {name} of {o!r}", node)
    def bind(self, st, v, recv, cls, node):
        if isinstance(v, Func):
            if "staticmethod" in v.deco: return v
            if "classmethod" in v.deco: return BoundMethod(v, st.heap[recv.id].cls if isinstance(recv, Ref) else recv)
            if "property" in v.deco or "cached_property" in v.deco:
                if "cached_property" in v.deco:
                    val = self.call(st, BoundMethod(v, recv), [], {}, node)
                    if not st.dead: self.setfield(st, recv, v.name, val, node)
                    return val
                return self.call(st, BoundMethod(v, recv), [], {}, node)
            return BoundMethod(v, recv)
        if isinstance(v, VIte): return self.lift(st, v, lambda s, x: self.bind(s, x, recv, cls, node))
        return v
    def setfield(self, st, o, name, v, node):
        r = st.heap[o.id]
        f = dict(r.fields); f[name] = v
        l = dict(r.locs); l[name] = self.here(node)
        st.heap[o.id] = ObjRec(r.cls, f, l)
    def setattr(self, st, o, name, v, node):
        return self.lift(st, o, lambda s, ob: self.setattr1(s, ob, name, v, node))
    def setattr1(self, st, o, name, v, node):
        if isinstance(o, Ref) and isinstance(st.heap[o.id], ObjRec):
            r = st.heap[o.id]
            cv = self.class_attr(st, r.cls, name)
            if isinstance(cv, Func) and "property" in cv.deco:
                s = self.class_attr(st, r.cls, name + "@setter")
                if s is None: return self.do_raise(st, "AttributeError", node, implicit=True)
                return self.call(st, BoundMethod(s, o), [v], {}, node)
            sa = self.class_attr(st, r.cls, "__setattr__")
            if isinstance(sa, Func): return self.call(st, BoundMethod(sa, o), [const(name), v], {}, node)
            if r.cls.dataclass and "frozen" in r.cls.dataclass: return self.do_raise(st, "FrozenInstanceError", node, implicit=True)
            self.setfield(st, o, name, v, node); return NONE
        if isinstance(o, ClassVal):
            e = st.heap[o.env.id]; vs = dict(e.vars); vs[name] = v
            st.heap[o.env.id] = EnvRec(vs, e.parent); return NONE
        if isinstance(o, ModuleVal):
            e = st.heap[o.env.id]; vs = dict(e.vars); vs[name] = v
            st.heap[o.env.id] = EnvRec(vs, e.parent); return NONE
        if isinstance(o, ExtVal):
            self.event(st, "setattr", o.path + "." + name, (v,), {}, o, None, node); return NONE
        if isinstance(o, Ext):
            self.event(st, "setattr", o.path + "." + name, (v,), {}, None, None, node); return NONE
        if isinstance(o, Func):
            e = st.heap[o.env.id]; vs = dict(e.vars); vs[("fattr", o.uid, name)] = v
            st.heap[o.env.id] = EnvRec(vs, e.parent); return NONE
        if isinstance(o, (Node, VTuple)): return self.do_raise(st, "AttributeError", node, implicit=True)
        self.unsup(f"attribute store on {o!r}", node)

    # ------------------------------------------------------------------ names
    def lookup(self, st, env, name, node, mod):
        e = env
        while e is not None:
            r = st.heap[e.id]
            if name in r.vars:
                v = r.vars[name]
                if v is UNBOUND: return self.do_raise(st, "UnboundLocalError", node, implicit=True)
                bad = unbound_when(v) if isinstance(v, VIte) else FALSE
                if bad is not FALSE:
                    self.may_raise(st, bad, "UnboundLocalError", node, (const(name),))
                    return UNDEF if st.dead else bound_part(v)
                return v
            e = r.parent
        if name in BUILTINS: return Builtin(name)
        if name == "NotImplemented": return Builtin(name)
        if name in ("__builtins__",): self.unsup("builtins", node)
        return self.do_raise(st, "NameError", node, args=(const(name),), implicit=True)
    def bindname(self, st, env, name, v):
        r = st.heap[env.id]
        if ("global", name) in r.vars:
            tgt = r.vars[("global", name)]
            rr = st.heap[tgt.id]; vs = dict(rr.vars); vs[name] = v
            st.heap[tgt.id] = EnvRec(vs, rr.parent); return
        vs = dict(r.vars); vs[name] = v
        st.heap[env.id] = EnvRec(vs, r.parent)
    def assign(self, st, env, tgt, v, node, mod):
        if st.dead: return
        if isinstance(tgt, ast.Name): self.bindname(st, env, tgt.id, v); return
        if isinstance(tgt, ast.Attribute):
            o = self.ev(tgt.value, st, env, mod)
            if st.dead: return
            self.setattr(st, o, tgt.attr, v, tgt); return
        if isinstance(tgt, ast.Subscript):
            o = self.ev(tgt.value, st, env, mod); k = self.ev(tgt.slice, st, env, mod)
            if st.dead: return
            self.setitem(st, o, k, v, tgt); return
        if isinstance(tgt, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)]
            def unpack(s, val):
                items = self.iter_items(s, val, node)
                if s.dead: return NONE
                n = len(tgt.elts)
                if star:
                    if any(g is not TRUE for g, _ in items): self.unsup("starred unpack of gated list", node)
                    i = star[0]; k = len(items) - (n - 1)
                    if k < 0: self.do_raise(s, "ValueError", node, implicit=True); return NONE
                    vals = [x for _, x in items]
                    vals = vals[:i] + [self.list_of(s, vals[i:i + k])] + vals[i + k:]
                elif any(g is not TRUE for g, _ in items):
                    cnt = self.count(items)
                    self.may_raise(s, not_(eq(cnt, const(n))), "ValueError", node)
                    if s.dead: return NONE
                    vals = [self.nth(s, items, i, node) for i in range(n)]
                else:
                    if len(items) != n: self.do_raise(s, "ValueError", node, implicit=True); return NONE
                    vals = [x for _, x in items]
                for e, x in zip(tgt.elts, vals):
                    if isinstance(e, ast.Starred): e = e.value
                    self.assign(s, env, e, x, node, mod)
                return NONE
            self.lift(st, v, unpack); return
        if isinstance(tgt, ast.Starred): self.assign(st, env, tgt.value, v, node, mod); return
        self.unsup("assignment target", tgt)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, env, mod):
        out = Out(); cur = st
        for s in stmts:
            if cur is None or cur.dead: cur = None; break
            o = self.stmt(s, cur, env, mod)
            out.absorb(o)
            cur = o.normal
        out.normal = cur if cur is not None and not cur.dead else None
        return out
    def stmt(self, s, st, env, mod):
        if self.stack: self.stack[-1][2] = getattr(s, "lineno", 0)
        if time.time() > BUDGET[0]: raise Unsupported("analysis budget of this obligation group is used up")
        self.lines_seen.add((mod.path if mod else "?", getattr(s, "lineno", 0)))
        f = getattr(self, "s_" + type(s).__name__, None)
        if f is None: self.unsup(f"statement {type(s).__name__}", s)
        return f(s, st, env, mod)
    def done(self, st): return Out(None if st.dead else st)
    def s_Expr(self, s, st, env, mod):
        if not isinstance(s.value, ast.Constant): self.ev(s.value, st, env, mod)
        return self.done(st)
    def s_Pass(self, s, st, env, mod): return Out(st)
    def s_Assign(self, s, st, env, mod):
        v = self.ev(s.value, st, env, mod)
        for t in s.targets: self.assign(st, env, t, v, s, mod)
        return self.done(st)
    def s_AnnAssign(self, s, st, env, mod):
        if s.value is not None:
            v = self.ev(s.value, st, env, mod)
            self.assign(st, env, s.target, v, s, mod)
        return self.done(st)
    def s_AugAssign(self, s, st, env, mod):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(st, env, t.id, s, mod)
            v = self.ev(s.value, st, env, mod)
            if st.dead: return self.done(st)
            self.assign(st, env, t, self.binop(st, s.op, cur, v, s, inplace=True), s, mod)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, env, mod)
            cur = self.getattr(st, o, t.attr, t)
            v = self.ev(s.value, st, env, mod)
            if st.dead: return self.done(st)
            r = self.binop(st, s.op, cur, v, s, inplace=True)
            if not st.dead: self.setattr(st, o, t.attr, r, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, env, mod); k = self.ev(t.slice, st, env, mod)
            if st.dead: return self.done(st)
            cur = self.getitem(st, o, k, t)
            v = self.ev(s.value, st, env, mod)
            if st.dead: return self.done(st)
            r = self.binop(st, s.op, cur, v, s, inplace=True)
            if not st.dead: self.setitem(st, o, k, r, t)
        return self.done(st)
    def s_Delete(self, s, st, env, mod):
        for t in s.targets:
            if isinstance(t, ast.Name): self.bindname(st, env, t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, env, mod); k = self.ev(t.slice, st, env, mod)
                if st.dead: break
                self.lift(st, o, lambda ss, ob: self.delitem(ss, ob, k, s))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st, env, mod)
                if st.dead: break
                def dl(ss, ob):
                    if not (isinstance(ob, Ref) and isinstance(ss.heap[ob.id], ObjRec)): self.unsup("del attribute", s)
                    if t.attr not in ss.heap[ob.id].fields: return self.do_raise(ss, "AttributeError", s, implicit=True)
                    self.setfield(ss, ob, t.attr, UNBOUND, s); return NONE
                self.lift(st, o, dl)
            else: self.unsup("del", s)
        return self.done(st)
    def delitem(self, st, o, k, node):
        r = st.heap.get(o.id) if isinstance(o, Ref) else None
        if isinstance(r, ListRec):
            if isinstance(k, SliceVal) and k.a is NONE and k.b is NONE:
                st.heap[o.id] = ListRec((), r.kind, r.loc); return NONE
            if isinstance(k, Node) and T.isexact(k) and all(g is TRUE for g, _ in r.items):
                i = int(cval(k)); l = list(r.items)
                if not -len(l) <= i < len(l): return self.do_raise(st, "IndexError", node, implicit=True)
                del l[i]; st.heap[o.id] = ListRec(l, r.kind, r.loc); return NONE
            if isinstance(k, SliceVal) and all(g is TRUE for g, _ in r.items):
                g = lambda x: None if x is NONE else int(cval(x))
                cut = self.beyond(r.items, g(k.a), None) if k.b is NONE and k.c is NONE else None
                if cut is not None:
                    st.heap[o.id] = ListRec([(and_(g0, not_(gc)), v) for (g0, v), (gc, _) in zip(r.items, cut)], r.kind, r.loc); return NONE
                l = list(r.items); del l[g(k.a):g(k.b):g(k.c)]
                st.heap[o.id] = ListRec(l, r.kind, r.loc); return NONE
            if isinstance(k, Node) and all(g is TRUE for g, _ in r.items):
                st.heap[o.id] = ListRec([(not_(eq(k, const(i))), v) for i, (g, v) in enumerate(r.items)], r.kind, r.loc); return NONE
        if isinstance(r, DictRec):
            have = or_(*[and_(g, self.valeq(st, k, kk)) for kk, g, _ in r.items])
            self.may_raise(st, not_(have), "KeyError", node)
            if st.dead: return NONE
            st.heap[o.id] = DictRec([(kk, and_(g, not_(self.valeq(st, k, kk))), v) for kk, g, v in r.items
                                     if self.valeq(st, k, kk) is not TRUE], r.kind, r.loc); return NONE
        if isinstance(o, ExtVal):
            h = self.hooks.get("ext_delitem")
            if h: return h(self, st, o, k, node)
        self.unsup("del item", node)
    def s_If(self, s, st, env, mod):
        c = self.truth(st, self.ev(s.test, st, env, mod), s)
        if st.dead: return Out(None)
        d = self.decide(st, c)
        if d is True: return self.block(s.body, st, env, mod)
        if d is False: return self.block(s.orelse, st, env, mod)
        s1 = st.clone(); s1.assume(c); o1 = self.block(s.body, s1, env, mod)
        s2 = st.clone(); s2.assume(not_(c)); o2 = self.block(s.orelse, s2, env, mod)
        out = Out(); out.absorb(o1); out.absorb(o2)
        if o1.normal is None: out.normal = o2.normal
        elif o2.normal is None: out.normal = o1.normal
        else: out.normal, _ = self.merge2(st.pc, c, o1.normal, o2.normal)
        return out
    def s_Return(self, s, st, env, mod):
        v = self.ev(s.value, st, env, mod) if s.value is not None else NONE
        o = Out(None)
        if not st.dead: o.rets.append((st, v))
        return o
    def s_Break(self, s, st, env, mod): o = Out(None); o.brks.append(st); return o
    def s_Continue(self, s, st, env, mod): o = Out(None); o.conts.append(st); return o
    def s_Raise(self, s, st, env, mod):
        if s.exc is None:
            cur = self.stack[-1][3] if len(self.stack[-1]) > 3 else None
            self.do_raise(st, cur.cls if cur else "RuntimeError", s); return Out(None)
        v = self.ev(s.exc, st, env, mod)
        if st.dead: return Out(None)
        def r(ss, x):
            bases = ()
            if isinstance(x, Builtin): nm = x.name
            elif isinstance(x, ExtVal): nm = x.path.split(".")[-1]
            elif isinstance(x, Ext): nm = x.path.split(".")[-1]
            elif isinstance(x, ClassVal): nm = x.name; bases = self.exc_bases(x)
            elif isinstance(x, Ref) and isinstance(ss.heap[x.id], ObjRec): nm = ss.heap[x.id].cls.name; bases = self.exc_bases(ss.heap[x.id].cls)
            else: nm = "TypeError"
            return self.do_raise(ss, nm, s, val=x, bases=bases)
        self.lift(st, v, r)
        return Out(None)
    def exc_bases(self, c):
        out = []
        for k in self.class_mro(c):
            out.append(k.name)
            for b in k.bases:
                if isinstance(b, Builtin): out.append(b.name)
                if isinstance(b, Ext): out.append(b.path.split(".")[-1])
        return tuple(out)
    def s_Assert(self, s, st, env, mod):
        c = self.truth(st, self.ev(s.test, st, env, mod), s)
        if st.dead: return Out(None)
        d = self.decide(st, c)
        if d is True: return Out(st)
        if d is False: self.do_raise(st, "AssertionError", s); return Out(None)
        s2 = st.clone(); s2.assume(not_(c)); self.do_raise(s2, "AssertionError", s)
        st.assume(c)
        return Out(st)
    def s_Global(self, s, st, env, mod):
        for n in s.names: self.bindname(st, env, ("global", n), mod.env)
        return Out(st)
    def s_Nonlocal(self, s, st, env, mod):
        for n in s.names:
            e = st.heap[env.id].parent
            while e is not None and n not in st.heap[e.id].vars: e = st.heap[e.id].parent
            if e is None: self.unsup("nonlocal", s)
            self.bindname(st, env, ("global", n), e)
        return Out(st)
    def s_Import(self, s, st, env, mod):
        for a in s.names:
            if a.asname: self.bindname(st, env, a.asname, self.import_from(st, a.name, mod))
            else:
                top = a.name.split(".")[0]
                v = self.import_from(st, top, mod)
                self.bindname(st, env, top, v)
        return Out(st)
    def s_ImportFrom(self, s, st, env, mod):
        base = s.module or ""
        if s.level:
            pk = st.heap[mod.env.id].vars["__package__"]
            pk = cval(pk)
            parts = pk.split(".")
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            if a.name == "*":
                m = self.import_from(st, base, mod)
                if isinstance(m, ModuleVal):
                    for k, v in st.heap[m.env.id].vars.items():
                        if isinstance(k, str) and not k.startswith("_"): self.bindname(st, env, k, v)
                    continue
                continue
            nm = a.asname or a.name
            full = base + "." + a.name
            if self.mod_file(base) and base not in self.skip_modules:
                if self.mod_file(full):
                    # prefer attribute of package if it exists, else submodule
                    self.bindname(st, env, nm, self.load(full, st)); continue
                m = self.load(base, st)
                v = self.getattr1(st, m, a.name, s) if not isinstance(m, Ext) else self.models.ext_attr(self, st, full)
                if st.dead: return Out(None)
                self.bindname(st, env, nm, v)
            else:
                self.bindname(st, env, nm, self.models.ext_attr(self, st, full))
        return Out(st)
    def s_FunctionDef(self, s, st, env, mod, cls=None):
        f = Func(); f.node = s; f.env = env; f.mod = mod; f.cls = cls; f.name = s.name; f.deco = set(); f.uid = self.fresh("f")
        f.defaults = [self.ev(d, st, env, mod) for d in s.args.defaults]
        f.kwdefaults = [None if d is None else self.ev(d, st, env, mod) for d in s.args.kw_defaults]
        v = f; bind = s.name
        for d in reversed(s.decorator_list):
            txt = ast.unparse(d)
            base = txt.split("(")[0].split(".")[-1]
            if base in ("staticmethod", "classmethod", "property", "cached_property"): f.deco.add(base); continue
            if txt.endswith(".setter"): bind = s.name + "@setter"; continue
            if base in ("lru_cache", "cache"): f.deco.add("cache"); continue
            if base in ("wraps", "abstractmethod", "override", "overload", "jit", "njit"): continue
            dv = self.ev(d, st, env, mod)
            if isinstance(dv, (Ext, ExtVal)): f.deco.add("ext:" + dv.path); continue
            v = self.call(st, dv, [v], {}, s)
        self.bindname(st, env, bind, v)
        return self.done(st)
    s_AsyncFunctionDef = s_FunctionDef
    def s_ClassDef(self, s, st, env, mod):
        c = ClassVal(); c.name = s.name; c.node = s; c.mod = mod; c.fields = []; c.dataclass = None; c.uid = self.fresh("c")
        c.bases = [self.ev(b, st, env, mod) for b in s.bases]
        c.env = self.new(st, EnvRec({}, env))
        for d in s.decorator_list:
            txt = ast.unparse(d)
            if txt.split("(")[0].split(".")[-1] == "dataclass":
                c.dataclass = {"dataclass"} | ({"frozen"} if "frozen=True" in txt else set()) | ({"noeq"} if "eq=False" in txt else set())
        ann = []
        for b in s.body:
            if isinstance(b, ast.FunctionDef): self.s_FunctionDef(b, st, c.env, mod, c)
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                has = b.value is not None
                if has: self.s_AnnAssign(b, st, c.env, mod)
                if "ClassVar" not in ast.unparse(b.annotation): ann.append((b.target.id, has))
            else:
                o = self.stmt(b, st, c.env, mod)
                if o.normal is None: return Out(None)
                if o.normal is not st: st.become(o.normal)
        # methods must not see class scope as enclosing scope
        r = st.heap[c.env.id]
        for k, v in list(r.vars.items()):
            if isinstance(v, Func) and v.cls is c: v.env = env
        if c.dataclass:
            fl = []
            for k in reversed(self.class_mro(c)[1:]):
                for t in k.fields:
                    if t[0] not in [x[0] for x in fl]: fl.append(t)
            for n, has in ann:
                d = st.heap[c.env.id].vars.get(n) if has else None
                t = (n, d)
                fl = [x for x in fl if x[0] != n] + [t] if n not in [x[0] for x in fl] else [t if x[0] == n else x for x in fl]
            c.fields = fl
        self.bindname(st, env, s.name, c)
        return self.done(st)
    def s_Try(self, s, st, env, mod):
        sink = []
        self.sinks.append(sink)
        try: o = self.block(s.body, st, env, mod)
        finally: self.sinks.pop()
        out = Out(); out.absorb(o)
        normals = []
        if o.normal is not None:
            if s.orelse:
                o2 = self.block(s.orelse, o.normal, env, mod); out.absorb(o2)
                if o2.normal is not None: normals.append((o2.normal, NONE))
            else: normals.append((o.normal, NONE))
        fin_raises = []
        for rs, e, bases in sink:
            handled = False
            for h in s.handlers:
                names = self.handler_names(h, rs, env, mod)
                if names is None or any(exc_matches(e.cls, n, bases) for n in names):
                    hs = rs.clone(); hs.dead = False
                    if h.name: self.bindname(hs, env, h.name, e.val if e.val is not None else ExtVal(e.cls, e.args, {}, None, self.fresh("e")))
                    fr = self.stack[-1]
                    old = fr[3:] ; fr[3:] = [e]
                    hsink = []
                    self.sinks.append(hsink)
                    try: o3 = self.block(h.body, hs, env, mod)
                    finally:
                        fr[3:] = old; self.sinks.pop()
                    fin_raises += hsink
                    out.absorb(o3)
                    if o3.normal is not None: normals.append((o3.normal, NONE))
                    handled = True
                    break
            if not handled: fin_raises.append((rs, e, bases))
        if s.finalbody:
            def fin(state):
                o4 = self.block(s.finalbody, state, env, mod)
                if o4.rets or o4.brks or o4.conts: self.unsup("control flow in finally", s)
                return o4.normal
            normals = [(x, v) for x, v in ((fin(n), v) for n, v in normals) if x is not None]
            out.rets = [(x, v) for x, v in ((fin(n), v) for n, v in out.rets) if x is not None]
            out.brks = [x for x in map(fin, out.brks) if x is not None]
            out.conts = [x for x in map(fin, out.conts) if x is not None]
            fin_raises = [(x, e, b) for x, e, b in ((fin(n), e, b) for n, e, b in fin_raises) if x is not None]
        self.sinks[-1].extend(fin_raises)
        out.normal, _ = self.merge(normals)
        return out
    def handler_names(self, h, st, env, mod):
        if h.type is None: return None
        s2 = st.clone(); s2.dead = False
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            v = self.ev(t, s2, env, mod)
            if isinstance(v, Builtin): out.append(v.name)
            elif isinstance(v, Ext): out.append(v.path.split(".")[-1])
            elif isinstance(v, ClassVal): out.append(v.name)
            elif isinstance(v, VTuple): out += [x.name if isinstance(x, Builtin) else x.path.split(".")[-1] for x in v.items]
            elif isinstance(v, ExtVal): out.append(v.path.split(".")[-1])
            else: self.unsup("handler type", h)
        return out
    def s_With(self, s, st, env, mod):
        for it in s.items:
            v = self.ev(it.context_expr, st, env, mod)
            if st.dead: return Out(None)
            if isinstance(v, (ExtVal, Ext)):
                self.event(st, "with", getattr(v, "path", "?"), (), {}, v, None, s)
                if it.optional_vars is not None: self.assign(st, env, it.optional_vars, v, s, mod)
            elif isinstance(v, Ref) and isinstance(st.heap[v.id], ObjRec):
                f = self.class_attr(st, st.heap[v.id].cls, "__enter__")
                if f is None: self.unsup("with", s)
                r = self.call(st, BoundMethod(f, v), [], {}, s)
                if it.optional_vars is not None: self.assign(st, env, it.optional_vars, r, s, mod)
                self.unsup("with on repository object", s)
            else: self.unsup("with", s)
        return self.block(s.body, st, env, mod)
    def s_For(self, s, st, env, mod):
        itv = self.ev(s.iter, st, env, mod)
        if st.dead: return Out(None)
        live = isinstance(itv, Ref) and isinstance(st.heap.get(itv.id), ListRec) and st.heap[itv.id].kind == "list"
        items = self.iter_items(st, itv, s)
        if st.dead: return Out(None)
        out = Out(); cur = st; brks = []
        i = 0
        while True:
            if cur is None or cur.dead: cur = None; break
            if live:
                # iterating a list object that the body may change: follow the live list by position
                r = cur.heap[itv.id]
                same = len(r.items) >= len(items) and all(a[0] is b[0] and self.same(a[1], b[1]) for a, b in zip(items, r.items))
                if same and len(r.items) > len(items): items = list(r.items)
                if not same:
                    o = self.live_for(s, cur, env, mod, itv, i)
                    out.rets += o.rets; brks += o.brks; cur = o.normal
                    break
            if i >= len(items): break
            if i > 3000: self.unsup("long loop", s)
            g, v = items[i]; i += 1
            d = self.decide(cur, g)
            if d is False: continue
            if d is True:
                self.assign(cur, env, s.target, v, s, mod)
                o = self.block(s.body, cur, env, mod)
                out.rets += o.rets; brks += o.brks
                ns = ([(o.normal, NONE)] if o.normal is not None else []) + [(c, NONE) for c in o.conts]
                cur, _ = self.merge(ns)
            else:
                s1 = cur.clone(); s1.assume(g); s2 = cur.clone(); s2.assume(not_(g))
                self.assign(s1, env, s.target, v, s, mod)
                o = self.block(s.body, s1, env, mod)
                out.rets += o.rets; brks += o.brks
                ns = ([(o.normal, NONE)] if o.normal is not None else []) + [(c, NONE) for c in o.conts]
                n1, _ = self.merge(ns)
                if n1 is None: cur = s2
                else: cur, _ = self.merge2(cur.pc, g, n1, s2)
        ns = []
        if cur is not None:
            if s.orelse:
                o = self.block(s.orelse, cur, env, mod); out.absorb(o); cur = o.normal
            if cur is not None: ns.append((cur, NONE))
        ns += [(b, NONE) for b in brks]
        out.normal, _ = self.merge(ns)
        return out
    def live_for(self, s, st, env, mod, itv, i):
        """continue a for loop at position i over a list changed by its own body:
        the position counts present entries, as Python's list iterator does"""
        out = Out(); out.brks = []
        cur = st; n = 0
        pos = i
        while True:
            n += 1
            if cur is None or cur.dead: cur = None; break
            if n > 40: self.unsup("loop over a list changed by its body", s)
            r = cur.heap[itv.id]
            items = list(r.items)
            cnt = self.count(items)
            c = lt(const(pos), cnt)
            d = self.decide(cur, c)
            if d is False: break
            if pos > len(items): break
            s1 = cur.clone(); s2 = None
            if d is None: s1.assume(c); s2 = cur.clone(); s2.assume(not_(c))
            v = self.nth(s1, items, pos, s)
            pos += 1
            if s1.dead: cur = s2; break
            self.assign(s1, env, s.target, v, s, mod)
            o = self.block(s.body, s1, env, mod)
            out.rets += o.rets; out.brks += o.brks
            n1, _ = self.merge(([(o.normal, NONE)] if o.normal is not None else []) + [(x, NONE) for x in o.conts])
            if s2 is None: cur = n1
            elif n1 is None: cur = s2
            else: cur, _ = self.merge2(cur.pc, c, n1, s2)
        out.normal = cur
        return out
    def s_While(self, s, st, env, mod):
        out = Out(); cur = st; exits = []; brks = []; und = 0; n = 0
        while True:
            n += 1
            if n > 3000: self.unsup("long while loop", s)
            c = self.truth(cur, self.ev(s.test, cur, env, mod), s)
            if cur.dead: cur = None; break
            d = self.decide(cur, c)
            if d is False: exits.append((cur, NONE)); break
            if d is None:
                und += 1
                if und > 14: self.unsup("while loop with undecided condition", s)
                s2 = cur.clone(); s2.assume(not_(c)); exits.append((s2, NONE))
                cur.assume(c)
            o = self.block(s.body, cur, env, mod)
            out.rets += o.rets; brks += o.brks
            cur, _ = self.merge(([(o.normal, NONE)] if o.normal is not None else []) + [(x, NONE) for x in o.conts])
            if cur is None: break
        nrm, _ = self.merge(exits)
        if nrm is not None and s.orelse:
            o = self.block(s.orelse, nrm, env, mod); out.absorb(o); nrm = o.normal
        out.normal, _ = self.merge(([(nrm, NONE)] if nrm is not None else []) + [(b, NONE) for b in brks])
        return out

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, env, mod):
        if st.dead: return UNDEF
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None: self.unsup(f"expression {type(e).__name__}", e)
        return f(e, st, env, mod)
    def e_Constant(self, e, st, env, mod):
        if isinstance(e.value, float):
            txt = repr(e.value)
            return const(e.value)
        if isinstance(e.value, complex): self.unsup("complex", e)
        return const(e.value)
    def e_Name(self, e, st, env, mod): return self.lookup(st, env, e.id, e, mod)
    def e_Attribute(self, e, st, env, mod):
        o = self.ev(e.value, st, env, mod)
        return UNDEF if st.dead else self.getattr(st, o, e.attr, e)
    def e_Subscript(self, e, st, env, mod):
        o = self.ev(e.value, st, env, mod); k = self.ev(e.slice, st, env, mod)
        return UNDEF if st.dead else self.getitem(st, o, k, e)
    def e_Slice(self, e, st, env, mod):
        g = lambda x: NONE if x is None else self.ev(x, st, env, mod)
        return SliceVal(g(e.lower), g(e.upper), g(e.step))
    def seq(self, elts, st, env, mod):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.iter_items(st, self.ev(x.value, st, env, mod), x)
            else: out.append((TRUE, self.ev(x, st, env, mod)))
        return out
    def e_Tuple(self, e, st, env, mod):
        items = self.seq(e.elts, st, env, mod)
        if any(g is not TRUE for g, _ in items): return self.new(st, ListRec(items, "list"))
        return VTuple([v for _, v in items])
    def e_List(self, e, st, env, mod): return self.new(st, ListRec(self.seq(e.elts, st, env, mod), "list", self.here(e)))
    def e_Set(self, e, st, env, mod): return self.make_set(st, self.seq(e.elts, st, env, mod), e)
    def e_Dict(self, e, st, env, mod):
        d = self.new(st, DictRec((), "dict", self.here(e)))
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, st, env, mod)
                def upd(s, x):
                    r = s.heap[x.id] if isinstance(x, Ref) else None
                    if not isinstance(r, DictRec): self.unsup("dict unpack", e)
                    for kk, g, vv in r.items:
                        if g is not TRUE: self.unsup("dict unpack", e)
                        self.dict_set(s, d, kk, vv, e)
                    return NONE
                self.lift(st, o, upd)
            else:
                kk = self.ev(k, st, env, mod); vv = self.ev(v, st, env, mod)
                if st.dead: return UNDEF
                self.dict_set(st, d, kk, vv, e)
        return d
    def e_BinOp(self, e, st, env, mod):
        a = self.ev(e.left, st, env, mod); b = self.ev(e.right, st, env, mod)
        return UNDEF if st.dead else self.binop(st, e.op, a, b, e)
    def e_UnaryOp(self, e, st, env, mod):
        v = self.ev(e.operand, st, env, mod)
        if st.dead: return UNDEF
        if isinstance(e.op, ast.Not): return not_(self.truth(st, v, e))
        def f(s, x):
            if self.arr(s, x) is not None:
                if isinstance(e.op, ast.USub): return self.ew(s, T.neg, [x], e)
                if isinstance(e.op, ast.Invert): return self.ew(s, not_, [x], e, "bool")
                return x
            if isinstance(x, ExtVal): x = self.to_node(x)
            if not isinstance(x, Node) or truthy_kind(x) in ("none", "str"): return self.do_raise(s, "TypeError", e, implicit=True)
            if isinstance(e.op, ast.USub): return T.neg(x)
            if isinstance(e.op, ast.UAdd): return T.b2i(x)
            if isinstance(e.op, ast.Invert) and truthy_kind(x) == "bool": return not_(x)
            self.unsup("unary operator", e)
        return self.lift(st, v, f)
    def e_BoolOp(self, e, st, env, mod):
        isand = isinstance(e.op, ast.And)
        def rec(s, i):
            v = self.ev(e.values[i], s, env, mod)
            if s.dead or i == len(e.values) - 1: return v
            c = self.truth(s, v, e)
            if isand: return self.fork(s, c, lambda q: rec(q, i + 1), lambda q: self.refine(v, False))
            return self.fork(s, c, lambda q: self.refine(v, True), lambda q: rec(q, i + 1))
        return rec(st, 0)
    def refine(self, v, t):
        """value known to be truthy / falsy"""
        if isinstance(v, Node):
            if truthy_kind(v) == "bool": return const(t)
            if v.op == "ite" and truthy_kind(v) == "mixed" and t:
                a, b = v.args[1], v.args[2]
                if a is NONE: return b
                if b is NONE: return a
        return v
    def e_IfExp(self, e, st, env, mod):
        c = self.truth(st, self.ev(e.test, st, env, mod), e)
        if st.dead: return UNDEF
        return self.fork(st, c, lambda s: self.ev(e.body, s, env, mod), lambda s: self.ev(e.orelse, s, env, mod))
    def e_Compare(self, e, st, env, mod):
        def rec(s, left, i):
            right = self.ev(e.comparators[i], s, env, mod)
            if s.dead: return UNDEF
            r = self.compare(s, e.ops[i], left, right, e)
            if s.dead or i == len(e.ops) - 1: return r
            if not isinstance(r, Node): self.unsup("chained array comparison", e)
            return self.fork(s, r, lambda q: rec(q, right, i + 1), lambda q: FALSE)
        r = self.open_count(e, st, env, mod)
        if r is not None: return r
        left = self.ev(e.left, st, env, mod)
        return UNDEF if st.dead else rec(st, left, 0)
    def e_NamedExpr(self, e, st, env, mod):
        v = self.ev(e.value, st, env, mod)
        self.assign(st, env, e.target, v, e, mod)
        return v
    def e_Lambda(self, e, st, env, mod):
        f = Func(); f.node = e; f.env = env; f.mod = mod; f.cls = None; f.name = "<lambda>"; f.deco = set(); f.uid = self.fresh("f")
        f.defaults = [self.ev(d, st, env, mod) for d in e.args.defaults]
        f.kwdefaults = [None if d is None else self.ev(d, st, env, mod) for d in e.args.kw_defaults]
        return f
    def e_JoinedStr(self, e, st, env, mod):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(const(v.value))
            else:
                x = self.ev(v.value, st, env, mod)
                if st.dead: return UNDEF
                spec = ""
                sp = None
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec, st, env, mod)
                    if st.dead: return UNDEF
                if sp is not None and isinstance(x, Node) and truthy_kind(x) in ("none",) and not (isc(sp) and cval(sp) == ""):
                    return self.do_raise(st, "TypeError", e, implicit=True)
                x = self.to_node(x)
                if isc(x) and isinstance(cval(x), str) and sp is None: parts.append(x)
                elif sp is not None: parts.append(T.app("format", "str", x, sp))
                else: parts.append(T.app("str", "str", x))
        if all(isc(p) for p in parts): return const("".join(cval(p) for p in parts))
        return T.mk("fmt", *parts)
    def e_FormattedValue(self, e, st, env, mod): return self.to_node(self.ev(e.value, st, env, mod))
    def e_Starred(self, e, st, env, mod): self.unsup("starred", e)
    def e_Await(self, e, st, env, mod): self.unsup("await", e)
    def e_Yield(self, e, st, env, mod):
        v = self.ev(e.value, st, env, mod) if e.value is not None else NONE
        if st.dead: return UNDEF
        l = self.lookup(st, env, "@yield", e, mod)
        r = st.heap[l.id]
        st.heap[l.id] = ListRec(r.items + ((TRUE, v),), r.kind, r.loc)
        return NONE
    def e_YieldFrom(self, e, st, env, mod):
        v = self.ev(e.value, st, env, mod)
        if st.dead: return UNDEF
        l = self.lookup(st, env, "@yield", e, mod)
        items = self.iter_items(st, v, e)
        r = st.heap[l.id]
        st.heap[l.id] = ListRec(r.items + tuple(items), r.kind, r.loc)
        return NONE
    # comprehensions
    def comp(self, gens, st, env, mod, emit):
        cenv = self.new(st, EnvRec({}, env))
        def rec(s, i):
            if s.dead: return
            if i == len(gens): emit(s, cenv); return
            g = gens[i]
            itv = self.ev(g.iter, s, cenv if i else env, mod)
            if s.dead: return
            items = self.iter_items(s, itv, g.iter)
            for gd, v in items:
                if s.dead: return
                def body(q):
                    self.assign(q, cenv, g.target, v, g.iter, mod)
                    def conds(q2, j):
                        if q2.dead: return NONE
                        if j == len(g.ifs): rec(q2, i + 1); return NONE
                        c = self.truth(q2, self.ev(g.ifs[j], q2, cenv, mod))
                        if q2.dead: return NONE
                        return self.fork(q2, c, lambda z: conds(z, j + 1), lambda z: NONE)
                    return conds(q, 0)
                self.fork(s, gd, body, lambda q: NONE)
        rec(st, 0)
    def generic_iter(self, gens, st, env, mod):
        """single generator over an array / range / zip of symbolic length -> (n, bound value) or None"""
        if len(gens) != 1 or gens[0].ifs: return None
        v = self.ev(gens[0].iter, st, env, mod)
        if st.dead: return None
        return v, self.gen_elem(st, v)
    def gen_elem(self, st, v):
        if isinstance(v, RangeVal) and T.isexact(v.start) and T.isexact(v.step) and cval(v.step) == 1 and not T.isexact(v.stop) and self.int_leaves(v.stop) is None:
            return T.sub(v.stop, v.start), T.add(v.start, IDX)
        r = self.arr(st, v)
        if r is not None and not isinstance(r, Masked) and r.items is None: return r.n, r.elem
        if isinstance(v, ExtVal) and v.path == "@genzip":
            return v.args[0], VTuple(v.args[1:])
        return None
    def listcomp(self, e, st, env, mod, elt):
        # generic (symbolic length) map
        g0 = e.generators[0]
        try:
            probe = self.ev(g0.iter, st, env, mod)
        except Unsupported: raise
        if st.dead: return UNDEF
        ge = self.gen_elem(st, probe) if not isinstance(probe, VIte) else None
        if ge is not None:
            if len(e.generators) != 1 or g0.ifs: self.unsup("comprehension over symbolic length", e)
            n, el = ge
            before = dict(st.heap)
            cenv = self.new(st, EnvRec({}, env))
            self.assign(st, cenv, g0.target, el, e, mod)
            v = self.ev(elt, st, cenv, mod)
            if st.dead: return UNDEF
            for k, r in before.items():
                if st.heap.get(k) is not r: self.unsup("side effect in comprehension over symbolic length", e)
            if isinstance(v, VTuple) or not isinstance(v, Node): self.unsup("comprehension element", e)
            return self.new(st, ArrRec(None, n, v, "list"))
        acc = self.new(st, ListRec((), "list", self.here(e)))
        # evaluate first iterable only once
        class _V(ast.expr): pass
        first = ast.copy_location(_Pre(probe), g0.iter)
        gens = [ast.comprehension(target=g0.target, iter=first, ifs=g0.ifs, is_async=0)] + e.generators[1:]
        def emit(s, cenv):
            v = self.ev(elt, s, cenv, mod)
            if s.dead: return
            r = s.heap[acc.id]
            s.heap[acc.id] = ListRec(r.items + ((TRUE, v),), r.kind, r.loc)
        self.comp(gens, st, env, mod, emit)
        return acc if not st.dead else UNDEF
    def e__Pre(self, e, st, env, mod): return e.val
    def e_ListComp(self, e, st, env, mod): return self.listcomp(e, st, env, mod, e.elt)
    def e_GeneratorExp(self, e, st, env, mod):
        v = self.listcomp(e, st, env, mod, e.elt)
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ListRec):
            r = st.heap[v.id]; st.heap[v.id] = ListRec(r.items, "iter", r.loc)
        return v
    def e_SetComp(self, e, st, env, mod):
        v = self.listcomp(e, st, env, mod, e.elt)
        return UNDEF if st.dead else self.make_set(st, list(st.heap[v.id].items), e)
    def e_DictComp(self, e, st, env, mod):
        pair = ast.copy_location(ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), e)
        v = self.listcomp(e, st, env, mod, pair)
        if st.dead: return UNDEF
        d = self.new(st, DictRec((), "dict", self.here(e)))
        for g, t in st.heap[v.id].items:
            if g is TRUE: self.dict_set(st, d, t.items[0], t.items[1], e)
            else: self.fork(st, g, lambda s: self.dict_set(s, d, t.items[0], t.items[1], e) or NONE, lambda s: NONE)
        return d

    # ------------------------------------------------------------------ calls
    def transpose(self, st, f, items, e):
        """zip(*rows) where some rows are only sometimes there, at least one always"""
        if not (isinstance(f, Builtin) and f.name == "zip" and len(e.args) == 1 and not e.keywords): return None
        if self.decide(st, or_(*[g for g, _ in items])) is not True: return None
        def parts(v):
            if isinstance(v, VTuple): return v.items
            if isinstance(v, VIte):
                a, b = parts(v.a), parts(v.b)
                if a and b and len(a) == len(b): return [VIte(v.c, x, y) if not (isinstance(x, Node) and isinstance(y, Node)) else ite(v.c, x, y) for x, y in zip(a, b)]
            return None
        cols = [parts(v) for _, v in items]
        if not all(cols) or len({len(c) for c in cols}) != 1: return None
        return self.list_of(st, [self.new(st, ListRec([(g, c[i]) for (g, _), c in zip(items, cols)], "list", self.here(e))) for i in range(len(cols[0]))])
    def e_Call(self, e, st, env, mod):
        f = self.ev(e.func, st, env, mod)
        if st.dead: return UNDEF
        if isinstance(f, Builtin) and f.name == "super" and not e.args:
            fr = self.stack[-1]
            slf = st.heap[env.id].vars
            # find enclosing method env
            en = env
            while en is not None and "@self" not in st.heap[en.id].vars: en = st.heap[en.id].parent
            vs = st.heap[en.id].vars
            return Super(vs["@cls"], vs["@self"])
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                items = self.iter_items(st, self.ev(a.value, st, env, mod), a)
                if any(g is not TRUE for g, _ in items):
                    v = self.transpose(st, f, items, e)
                    if v is not None: return v
                    self.unsup("starred call with gated list", e)
                args += [v for _, v in items]
            else: args.append(self.ev(a, st, env, mod))
            if st.dead: return UNDEF
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st, env, mod)
            if st.dead: return UNDEF
            if k.arg is None:
                r = st.heap.get(v.id) if isinstance(v, Ref) else None
                if not isinstance(r, DictRec) or any(g is not TRUE or not isc(kk) for kk, g, _ in r.items):
                    self.unsup("keyword unpacking", e)
                for kk, _, vv in r.items: kw[cval(kk)] = vv
            else: kw[k.arg] = v
        if isinstance(f, Builtin) and f.name in ("locals", "globals", "vars") and not args: self.unsup(f.name, e)
        return self.call(st, f, args, kw, e)
    def call(self, st, f, args, kw, node):
        if st.dead: return UNDEF
        return self.lift(st, f, lambda s, g: self.call1(s, g, args, kw, node))
    def call1(self, st, f, args, kw, node):
        self.calls += 1
        if isinstance(f, BoundMethod):
            if isinstance(f.func, Func): return self.call_func(st, f.func, f.recv, [f.recv] + list(args), kw, node)
            return self.call1(st, f.func, [f.recv] + list(args), kw, node)
        if isinstance(f, Func): return self.call_func(st, f, None, list(args), kw, node)
        if isinstance(f, ClassVal): return self.instantiate(st, f, args, kw, node)
        if isinstance(f, Partial): return self.call(st, f.f, list(f.args) + list(args), {**f.kw, **kw}, node)
        if isinstance(f, Builtin): return self.models.call_builtin(self, st, f.name, list(args), kw, node)
        if isinstance(f, Ext): return self.models.call_ext(self, st, f.path, list(args), kw, node)
        if isinstance(f, Method): return self.models.call_method(self, st, f.recv, f.name, list(args), kw, node)
        if isinstance(f, ExtVal): return self.models.call_extval(self, st, f, list(args), kw, node)
        if isinstance(f, Ref) and isinstance(st.heap[f.id], ObjRec):
            m = self.class_attr(st, st.heap[f.id].cls, "__call__")
            if m is not None: return self.call_func(st, m, f, [f] + list(args), kw, node)
        if isinstance(f, Node):
            if truthy_kind(f) == "any": self.unsup("call of unknown value", node)
            return self.do_raise(st, "TypeError", node, implicit=True)
        self.unsup(f"call of {f!r}", node)
    def ext_result(self, st, path, args, kw, recv, node, event=True):
        h = self.hooks.get("ext_call")
        if h:
            r = h(self, st, path, args, kw, recv, node)
            if r is not NotImplemented: return r
        v = ExtVal(path, args, kw, recv, self.fresh("x"))
        if event: self.event(st, "call", path, args, kw, recv, v, node)
        return v
    def instantiate(self, st, c, args, kw, node):
        h = self.hooks.get("new:" + c.name)
        if h:
            r = h(self, st, c, args, kw, node)
            if r is not NotImplemented: return r
        o = self.new(st, ObjRec(c, {}, {}))
        init = self.class_attr(st, c, "__init__")
        if isinstance(init, Func):
            self.call_func(st, init, o, [o] + list(args), kw, node)
            return UNDEF if st.dead else o
        if c.dataclass:
            names = [n for n, _ in c.fields]
            if len(args) > len(names): return self.do_raise(st, "TypeError", node, implicit=True)
            vals = dict(zip(names, args))
            for k, v in kw.items():
                if k not in names or k in vals: return self.do_raise(st, "TypeError", node, implicit=True)
                vals[k] = v
            fields = {}
            for n, d in c.fields:
                if n in vals: fields[n] = vals[n]
                elif d is None: return self.do_raise(st, "TypeError", node, implicit=True)
                elif isinstance(d, ExtVal) and d.path == "dataclasses.field":
                    if "default_factory" in d.kw: fields[n] = self.call(st, d.kw["default_factory"], [], {}, node)
                    elif "default" in d.kw: fields[n] = d.kw["default"]
                    else: return self.do_raise(st, "TypeError", node, implicit=True)
                else: fields[n] = d
            loc = self.here(node)
            st.heap[o.id] = ObjRec(c, fields, {k: loc for k in fields})
            pi = self.class_attr(st, c, "__post_init__")
            if pi is not None: self.call_func(st, pi, o, [o], {}, node)
            return UNDEF if st.dead else o
        exts = [b for k in self.class_mro(c) for b in k.bases if isinstance(b, (Ext, Builtin)) and getattr(b, "name", "") != "object"]
        if exts:
            self.event(st, "new", c.name, args, kw, None, o, node)
            st.heap[o.id] = ObjRec(c, {"@args": VTuple(args), **{"@kw:" + k: v for k, v in kw.items()}}, {})
            return o
        if args or kw: return self.do_raise(st, "TypeError", node, implicit=True)
        return o
    def bind_args(self, st, f, args, kw, node):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(pos) and a.vararg is None: return None
        for n, v in zip(pos, args): vals[n] = v
        if a.vararg is not None: vals[a.vararg.arg] = VTuple(args[len(pos):])
        kwo = [x.arg for x in a.kwonlyargs]
        extra = []
        posonly = {x.arg for x in a.posonlyargs}
        for k, v in kw.items():
            if k in pos and k not in posonly or k in kwo:
                if k in vals: return None
                vals[k] = v
            elif a.kwarg is not None: extra.append((const(k), TRUE, v))
            else: return None
        d = f.defaults
        for n, v in zip(pos[len(pos) - len(d):], d): vals.setdefault(n, v)
        for n, v in zip(kwo, f.kwdefaults):
            if n not in vals:
                if v is None: return None
                vals[n] = v
        if a.kwarg is not None: vals[a.kwarg.arg] = self.new(st, DictRec(extra, "dict"))
        if any(n not in vals for n in pos + kwo): return None
        return vals
    def qual(self, f): return (f.cls.name + "." if f.cls is not None else "") + f.name
    def call_func(self, st, f, recv, args, kw, node):
        q = self.qual(f)
        h = self.hooks.get(q)
        if h:
            r = h(self, st, f, recv, args, kw, node)
            if r is not NotImplemented: return r
        if len(self.stack) > self.MAXDEPTH: self.unsup("call depth", node)
        self.functions_seen.add((f.mod.path, q))
        vals = self.bind_args(st, f, args, kw, node)
        if vals is None: return self.do_raise(st, "TypeError", node, args=(const("call of " + q),), implicit=True)
        if "cache" in f.deco: return self.call_cached(st, f, recv, args, kw, vals, node)
        return self.run_func(st, f, recv, vals, node, args, kw)
    def call_cached(self, st, f, recv, args, kw, vals, node):
        key = ("@cache", f.uid)
        r = st.heap[f.mod.env.id]
        tab = r.vars.get(key)
        if tab is None:
            tab = self.new(st, ListRec((), "list"))
            vs = dict(st.heap[f.mod.env.id].vars); vs[key] = tab
            st.heap[f.mod.env.id] = EnvRec(vs, r.parent)
        k = VTuple([vals[n] for n in sorted(vals)])
        items = st.heap[tab.id].items
        def rec(s, i):
            if i == len(items):
                v = self.run_func(s, f, recv, vals, node, args, kw)
                if not s.dead:
                    rr = s.heap[tab.id]
                    s.heap[tab.id] = ListRec(rr.items + ((TRUE, VTuple([k, v])),), "list")
                return v
            g, kv = items[i]
            c = and_(g, self.valeq(s, k, kv.items[0]))
            return self.fork(s, c, lambda q: kv.items[1], lambda q: rec(q, i + 1))
        return rec(st, 0)
    def run_func(self, st, f, recv, vals, node, args=(), kw=None):
        vals = dict(vals)
        if f.cls is not None: vals["@cls"] = f.cls; vals["@self"] = recv if recv is not None else (args[0] if args else NONE)
        isgen = not isinstance(f.node, ast.Lambda) and _has_yield(f.node)
        snapshot = None
        purearg = all(isinstance(v, Node) for v in args) and all(isinstance(v, Node) for v in (kw or {}).values()) and f.cls is None
        if purearg: snapshot = (st.clone(), len(self.sinks[-1]))
        env = self.new(st, EnvRec(vals, f.env))
        if isgen: self.bindname(st, env, "@yield", self.new(st, ListRec((), "iter")))
        self.stack.append([f.mod.path, self.qual(f), getattr(f.node, "lineno", 0)])
        depth = len(self.stack)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st, env, f.mod)
                st.heap.pop(env.id, None) if not _captures(f.node) else None
                return v
            o = self.block(f.node.body, st, env, f.mod)
        except Unsupported as u:
            if snapshot is None or _touches_global(f.node): raise
            # a function of scalars only: an opaque function of those scalars
            s0, ns = snapshot
            st.become(s0); del self.sinks[-1][ns:]
            self.opaque_calls += 1
            return T.app("fn:" + f.mod.name + "." + f.name, "any", *[a for a in args], *[x for p in sorted((kw or {}).items()) for x in (const(p[0]), p[1])])
        finally:
            del self.stack[depth - 1:]
        outs = list(o.rets)
        if o.normal is not None: outs.append((o.normal, NONE))
        s, v = self.merge(outs)
        if s is None: st.dead = True; return UNDEF
        if isgen: v = s.heap[env.id].vars["@yield"]
        if not _captures(f.node): s.heap.pop(env.id, None)
        if s is not st: st.become(s)
        return v

class _Pre(ast.expr):
    _fields = ()
    def __init__(self, val): super().__init__(); self.val = val

_yc = {}; _cc = {}; _gc = {}
def _has_yield(n):
    if id(n) not in _yc:
        r = False; st = list(n.body)
        while st:
            x = st.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)): r = True; break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)): continue
            st.extend(ast.iter_child_nodes(x))
        _yc[id(n)] = (r, n)
    return _yc[id(n)][0]
def _captures(n):
    if id(n) not in _cc:
        _cc[id(n)] = (any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for x in ast.walk(n) if x is not n), n)
    return _cc[id(n)][0]
def _touches_global(n):
    if id(n) not in _gc:
        _gc[id(n)] = (any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(n)), n)
    return _gc[id(n)][0]
