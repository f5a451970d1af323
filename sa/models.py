"""Transfer functions of the built-ins and library calls the repository uses.

Anything not modelled becomes an opaque external value plus an event, so a new
library call never turns into a wrong fact."""
import ast, math
from . import terms as T
from .terms import (Node, const, TRUE, FALSE, NONE, ZERO, ONE, UNDEF, IDX, INF, NINF, PI,
                    and_, or_, not_, implies, ite, lt, le, eq, isc, cval, truthy_kind)
from .values import *

NUMTYPES = {"int", "float", "bool"}

def ext_attr(eng, st, path):
    h = eng.hooks.get("ext_attr")
    if h:
        r = h(eng, st, path)
        if r is not NotImplemented: return r
    p = _norm(path)
    if p in ("math.pi", "numpy.pi"): return PI
    if p in ("math.inf", "numpy.inf", "numpy.Inf", "numpy.infty"): return INF
    if p in ("math.nan", "numpy.nan"): return T.const(float("nan"))
    if p == "math.tau": return T.mul(const(2), PI)
    if p == "math.e": return T.inexact(math.e)
    if p in ("numpy.float64", "numpy.float32", "numpy.double", "numpy.float_"): return Builtin("float")
    if p in ("numpy.int64", "numpy.int32", "numpy.int_", "numpy.intp"): return Builtin("int")
    if p in ("numpy.bool_", "numpy.bool"): return Builtin("bool")
    if p in ("typing.TYPE_CHECKING",): return FALSE
    if p.startswith("builtins."):
        return Builtin(p.split(".", 1)[1])
    return Ext(path)
def ext_class_attr(eng, st, cls, name):
    return ExtVal(f"{cls.name}.{name}", (), {}, cls, f"cls:{cls.name}.{name}")
def extval_attr(eng, st, o, name, node):
    v = ExtVal(o.path + "." + name, (), {}, o, f"{o.uid}.{name}")
    return v
def _norm(p):
    if p.startswith("np."): p = "numpy." + p[3:]
    return p

# ---------------------------------------------------------------- helpers
def num1(eng, st, v, node):
    """numeric scalar or raise TypeError"""
    if isinstance(v, ExtVal): return eng.to_node(v)
    if isinstance(v, Node):
        k = truthy_kind(v)
        if k in ("none", "str"): return eng.do_raise(st, "TypeError", node, implicit=True)
        return T.b2i(v)
    if isinstance(v, (VTuple,)) or (isinstance(v, Ref) and not isinstance(st.heap[v.id], (ArrRec,))):
        return eng.do_raise(st, "TypeError", node, implicit=True)
    if isinstance(v, Ref):
        r = st.heap[v.id]
        if r.items is not None and len(r.items) == 1: return r.items[0]
    eng.unsup(f"scalar expected, got {v!r}", node)
def guards_true(items): return all(g is TRUE for g, _ in items)
def fn_float(eng, st, x, node):
    def f(s, v):
        if isinstance(v, ExtVal): v = eng.to_node(v)
        if isinstance(v, Node):
            k = truthy_kind(v)
            if k == "none": return eng.do_raise(s, "TypeError", node, implicit=True)
            if k == "str":
                if isc(v):
                    try: return const(float(cval(v)))
                    except ValueError: return eng.do_raise(s, "ValueError", node, implicit=True)
                eng.may_raise(s, not_(T.app("is_float_text", "bool", v)), "ValueError", node)
                return UNDEF if s.dead else T.app("float_text", "real", v)
            if k == "any":
                eng.may_raise(s, not_(T.app("is_float_text", "bool", v)), "ValueError", node)
                return UNDEF if s.dead else T.app("float_text", "real", v)
            v = T.b2i(v)
            if isc(v) and v.args[0] == "i":
                from fractions import Fraction
                return T.mk("c", "q", Fraction(cval(v)))
            return v
        if isinstance(v, Ref) and isinstance(s.heap[v.id], ArrRec): return num1(eng, s, v, node)
        if isinstance(v, (Ref, VTuple)): return eng.do_raise(s, "TypeError", node, implicit=True)
        eng.unsup("float()", node)
    return eng.lift(st, x, f)
def fn_int(eng, st, x, node):
    def f(s, v):
        if isinstance(v, ExtVal): v = eng.to_node(v)
        if isinstance(v, Node):
            k = truthy_kind(v)
            if k == "none": return eng.do_raise(s, "TypeError", node, implicit=True)
            if k in ("str", "any"):
                if isc(v):
                    try: return const(int(cval(v)))
                    except ValueError: return eng.do_raise(s, "ValueError", node, implicit=True)
                eng.may_raise(s, not_(T.app("is_int_text", "bool", v)), "ValueError", node)
                return UNDEF if s.dead else T.app("int_text", "int", v)
            return T.rnd("trunc", v)
        if isinstance(v, (Ref, VTuple)): return eng.do_raise(s, "TypeError", node, implicit=True)
        eng.unsup("int()", node)
    return eng.lift(st, x, f)
def fn_str(eng, st, v, node):
    if isinstance(v, VIte): return eng.lift(st, v, lambda s, x: fn_str(eng, s, x, node))
    if isinstance(v, Node):
        if isc(v):
            x = cval(v)
            if isinstance(x, str): return v
            if v.args[0] == "i" or x is None or isinstance(x, bool): return const(str(x))
            try: return const(repr(float(x)))
            except Exception: pass
        if truthy_kind(v) == "str": return v
        return T.app("str", "str", v)
    if isinstance(v, Ref) and isinstance(st.heap[v.id], ObjRec):
        for nm in ("__str__", "__repr__"):
            f = eng.class_attr(st, st.heap[v.id].cls, nm)
            if isinstance(f, Func): return eng.call(st, BoundMethod(f, v), [], {}, node)
    if isinstance(v, Ref):
        r = st.heap[v.id]
        if isinstance(r, ListRec) and guards_true(r.items):
            return T.mk("fmt", const("list"), *[eng.to_node(fn_str(eng, st, x, node)) for _, x in r.items])
        if isinstance(r, DictRec) and all(g is TRUE for _, g, _ in r.items):
            return T.mk("fmt", const("dict"), *[eng.to_node(y) for k, _, x in r.items for y in (k, x)])
    return T.app("str", "str", eng.to_node(v))

def type_of(eng, st, v):
    if isinstance(v, Node):
        if isc(v):
            return {"n": Builtin("NoneType"), "b": Builtin("bool"), "i": Builtin("int"), "s": Builtin("str")}.get(v.args[0], Builtin("float"))
        if v.op == "s": return Builtin({"real": "float", "int": "int", "bool": "bool", "str": "str"}.get(v.args[1], "object"))
        k = truthy_kind(v)
        if k == "num":
            if v.op in ("floor", "ceil", "trunc", "len"): return Builtin("int")
            if v.op == "app" and v.args[1] == "int": return Builtin("int")
            if v.op in ("/", "sqrt", "sin", "cos", "tan", "atan", "acos", "asin"): return Builtin("float")
            if v.op == "abs": return type_of(eng, st, v.args[0])
            if v.op in ("+", "*", "min", "max") :
                ts = [type_of(eng, st, a) for a in v.args]
                if all(t == ts[0] for t in ts): return ts[0]
                if v.op in "+*" and any(t == Builtin("float") for t in ts): return Builtin("float")
            return VIte(T.app("isint", "bool", v), Builtin("int"), Builtin("float"))
        if k == "bool": return Builtin("bool")
        if k == "str": return Builtin("str")
        if v.op == "ite": return VIte(v.args[0], type_of(eng, st, v.args[1]), type_of(eng, st, v.args[2]))
        return Builtin("object")
    if isinstance(v, VTuple): return Builtin("tuple")
    if isinstance(v, Ref):
        r = st.heap[v.id]
        if isinstance(r, ListRec): return Builtin({"iter": "generator"}.get(r.kind, r.kind))
        if isinstance(r, DictRec): return Builtin("dict")
        if isinstance(r, ArrRec): return Ext("numpy.ndarray")
        return r.cls
    if isinstance(v, VIte): return VIte(v.c, type_of(eng, st, v.a), type_of(eng, st, v.b))
    if isinstance(v, (Func, BoundMethod)): return Builtin("function")
    if isinstance(v, ClassVal): return Builtin("type")
    return Builtin("object")
def isinst(eng, st, v, t, node):
    if isinstance(t, VTuple): return or_(*[isinst(eng, st, v, x, node) for x in t.items])
    if isinstance(v, VIte): return ite(v.c, isinst(eng, st, v.a, t, node), isinst(eng, st, v.b, t, node))
    if isinstance(v, Node) and v.op == "ite" and truthy_kind(v) == "mixed":
        return ite(v.args[0], isinst(eng, st, v.args[1], t, node), isinst(eng, st, v.args[2], t, node))
    if isinstance(t, Ext):
        p = t.path
        if p in ("numbers.Number", "numbers.Real"): return const(isinstance(v, Node) and truthy_kind(v) in ("num", "bool"))
        if p in ("numbers.Integral",): return isinst(eng, st, v, Builtin("int"), node)
        if p == "numpy.ndarray": return const(eng.arr(st, v) is not None)
        if isinstance(v, ExtVal): return T.app("isinstance:" + p, "bool", const(str(v.uid)))
        if p.startswith("collections.abc"):
            nm = p.split(".")[-1]
            r = st.heap.get(v.id) if isinstance(v, Ref) else None
            if nm in ("Sequence", "Iterable", "Collection"): return const(isinstance(v, VTuple) or isinstance(r, (ListRec, DictRec)))
            if nm == "Mapping": return const(isinstance(r, DictRec))
        return FALSE
    if isinstance(t, ExtVal): return T.app("isinstance:" + t.path, "bool", eng.to_node(v))
    if isinstance(t, ClassVal):
        if isinstance(v, Ref) and isinstance(st.heap[v.id], ObjRec): return const(t in eng.class_mro(st.heap[v.id].cls))
        return FALSE
    if isinstance(t, Builtin):
        n = t.name
        if n == "object": return TRUE
        if isinstance(v, ExtVal): return T.app("isinstance:" + n, "bool", const(str(v.uid)))
        ty = type_of(eng, st, v)
        def chk(ty):
            if isinstance(ty, VIte): return ite(ty.c, chk(ty.a), chk(ty.b))
            if not isinstance(ty, Builtin): return FALSE
            if ty.name == "object" and isinstance(v, Node): return T.app("isinstance:" + n, "bool", v)
            return const(ty.name == n or (ty.name == "bool" and n == "int"))
        return chk(ty)
    eng.unsup("isinstance", node)

def when(eng, st, g, fn):
    """fn under a guard: what it raises happens only when the guard holds"""
    if g is TRUE: return fn(st)
    n = len(eng.sinks[-1]); s = st.clone()
    r = fn(s)
    if not s.dead and len(eng.sinks[-1]) == n: return fn(st)
    del eng.sinks[-1][n:]
    return eng.fork(st, g, fn, lambda s: UNDEF)
def fold_minmax(eng, st, which, items, key, node, default=None):
    """items guarded"""
    if not items:
        if default is not None: return default
        return eng.do_raise(st, "ValueError", node, implicit=True)
    anyp = or_(*[g for g, _ in items])
    if default is None:
        eng.may_raise(st, not_(anyp), "ValueError", node)
        if st.dead: return UNDEF
    best = None; bk = None; have = FALSE
    for g, v in items:
        k = eng.call(st, key, [v], {}, node) if key is not None else v
        if st.dead: return UNDEF
        if best is None:
            best, bk, have = v, k, g; continue
        if key is None and isinstance(v, Node) and isinstance(best, Node) and truthy_kind(v) == "num" == truthy_kind(best):
            f = T.min_ if which == "min" else T.max_
            if g is TRUE and have is TRUE: best = bk = f(best, v)
            else: best = bk = ite(and_(g, have), f(best, v), ite(g, v, best))
            have = or_(have, g); continue
        c = when(eng, st, and_(g, have), lambda s: eng.compare(s, ast.Lt() if which == "min" else ast.Gt(), k, bk, node))
        if st.dead: return UNDEF
        better = and_(g, or_(not_(have), c))
        best = eng.merge_val(better, v, best); bk = eng.merge_val(better, k, bk); have = or_(have, g)
    if default is not None: best = eng.merge_val(anyp, best, default)
    return best
def sort_items(eng, st, items, key, reverse, node):
    """stable compare-exchange network over guarded entries; absent entries sink"""
    es = []
    for g, v in items:
        if key is None or key is NONE: k = v
        elif g is TRUE: k = eng.call(st, key, [v], {}, node)
        else:
            k = eng.fork(st, g, lambda s: eng.call(s, key, [v], {}, node), lambda s: UNDEF)
        if st.dead: return []
        es.append([g, k, v])
    n = len(es)
    if n > 12 and not (n <= 400 and all(g is TRUE and isinstance(k, Node) and T.isc(k) for g, k, v in es)): eng.unsup("sort of many entries", node)
    op = ast.Gt() if reverse else ast.Lt()
    for i in range(1, n):
        for j in range(i, 0, -1):
            a, b = es[j - 1], es[j]
            c = when(eng, st, and_(a[0], b[0]), lambda s: eng.compare(s, op, b[1], a[1], node))
            if st.dead: return []
            if not isinstance(c, Node): eng.unsup("sort key", node)
            c = and_(b[0], or_(not_(a[0]), c))
            d = eng.decide(st, c)
            if d is False or c is FALSE: break
            if d is True: es[j - 1], es[j] = b, a; continue
            es[j - 1] = [ite(c, b[0], a[0]), eng.merge_val(c, b[1], a[1]), eng.merge_val(c, b[2], a[2])]
            es[j] = [ite(c, a[0], b[0]), eng.merge_val(c, a[1], b[1]), eng.merge_val(c, a[2], b[2])]
    return [(g, v) for g, k, v in es if g is not FALSE]
def sum_items(eng, st, items, start, node):
    acc = start
    for g, v in items:
        if isinstance(v, VIte): v = eng.num(st, v, node)
        if g is TRUE: acc = eng.binop(st, ast.Add(), acc, v, node)
        else:
            nv = when(eng, st, g, lambda s: eng.binop(s, ast.Add(), acc, v, node))
            acc = eng.merge_val(g, nv, acc)
        if st.dead: return UNDEF
    return acc

# ---------------------------------------------------------------- builtins
def call_builtin(eng, st, name, a, kw, node):
    lift = eng.lift
    h = eng.hooks.get("builtin:" + name)
    if h:
        r = h(eng, st, a, kw, node)
        if r is not NotImplemented: return r
    from .interp import EXC_NAMES
    if name in EXC_NAMES: return ExtVal(name, a, kw, None, eng.fresh("exc"))
    if name in ("NotImplemented",): eng.unsup(name, node)
    if name == "len":
        def f(s, v):
            if isinstance(v, VTuple): return const(len(v.items))
            if isinstance(v, Ref):
                r = s.heap[v.id]
                if isinstance(r, ListRec): return eng.count(r.items)
                if isinstance(r, DictRec): return eng.count([(g, None) for _, g, _ in r.items])
                if isinstance(r, ArrRec): return const(len(r.items)) if r.items is not None else r.n
                if isinstance(r, ObjRec):
                    m = eng.class_attr(s, r.cls, "__len__")
                    if m is not None: return eng.call(s, BoundMethod(m, v), [], {}, node)
                return eng.do_raise(s, "TypeError", node, implicit=True)
            if isinstance(v, RangeVal): return eng.count(eng.iter_items(s, v, node))
            if isinstance(v, Node):
                if isc(v) and isinstance(cval(v), str): return const(len(cval(v)))
                k = truthy_kind(v)
                if k in ("none", "num", "bool"): return eng.do_raise(s, "TypeError", node, implicit=True)
                return T.app("len", "int", v)
            if isinstance(v, Masked):
                if v.n is None: return eng.count([(m, 0) for m in v.mask])
                return T.sum_(v.n, ite(v.mask, ONE, ZERO))
            if isinstance(v, ExtVal): return T.app("len:" + v.path, "int", const(str(v.uid)))
            eng.unsup("len", node)
        return lift(st, a[0], f)
    if name == "isinstance": return isinst(eng, st, a[0], a[1], node)
    if name == "issubclass":
        x, y = a
        ys = y.items if isinstance(y, VTuple) else [y]
        if isinstance(x, ClassVal): return const(any(t in eng.class_mro(x) for t in ys))
        if isinstance(x, Builtin): return const(any(t == x or (x.name == "bool" and t == Builtin("int")) for t in ys))
        eng.unsup("issubclass", node)
    if name == "type":
        if len(a) == 1: return type_of(eng, st, a[0])
        eng.unsup("type()", node)
    if name == "abs":
        def f(s, v):
            if eng.arr(s, v) is not None: return eng.ew(s, T.abs_, [v], node)
            x = num1(eng, s, v, node)
            return UNDEF if s.dead else (x if eng.nonneg(s, x) else T.abs_(x))
        return lift(st, a[0], f)
    if name == "round":
        nd = a[1] if len(a) > 1 else kw.get("ndigits", NONE)
        if not isc(nd): eng.unsup("round digits", node)
        def f(s, v):
            if eng.arr(s, v) is not None: return eng.ew(s, lambda x: T.round_(x, cval(nd) or 0), [v], node)
            x = num1(eng, s, v, node)
            return UNDEF if s.dead else T.round_(x, None if nd is NONE else int(cval(nd)))
        return lift(st, a[0], f)
    if name == "float": return fn_float(eng, st, a[0], node) if a else const(0.0)
    if name == "int": return fn_int(eng, st, a[0], node) if a else ZERO
    if name == "bool": return eng.truth(st, a[0], node) if a else FALSE
    if name in ("str", "repr"): return fn_str(eng, st, a[0], node) if a else const("")
    if name == "format":
        x = eng.to_node(a[0]); return T.app("format", "str", x, a[1] if len(a) > 1 else const(""))
    if name in ("max", "min"):
        key = kw.get("key"); key = None if key is NONE else key
        default = kw.get("default")
        if len(a) == 1:
            v = a[0]
            ge = eng.gen_elem(st, v) if not isinstance(v, VIte) else None
            if ge is not None: return np_reduce(eng, st, name, v, node)
            items = eng.iter_items(st, v, node)
            if st.dead: return UNDEF
        else: items = [(TRUE, x) for x in a]
        def rec(i, acc):
            if i == len(items): return fold_minmax(eng, st, name, acc, key, node, default)
            return rec(i + 1, acc + [items[i]])
        its = []
        for g, x in items:
            if key is None and isinstance(x, (VIte,)): x = eng.num(st, x, node) if _numv(x) else x
            if key is None and isinstance(x, Node) and truthy_kind(x) == "bool": x = T.b2i(x)
            if key is None and isinstance(x, Node) and truthy_kind(x) == "none": 
                if len(items) > 1: return eng.do_raise(st, "TypeError", node, implicit=True)
            if key is None and isinstance(x, Node) and truthy_kind(x) == "mixed":
                # split on the alternative that is not a number
                bad = _notnum(x)
                eng.may_raise(st, bad, "TypeError", node)
                if st.dead: return UNDEF
                x = _numpart(x)
            its.append((g, x))
        return fold_minmax(eng, st, name, its, key, node, default)
    if name == "sum":
        start = a[1] if len(a) > 1 else kw.get("start", ZERO)
        def f(s, v):
            ge = eng.gen_elem(s, v)
            if ge is not None and isinstance(ge[1], Node):
                return T.add(start, T.sum_(ge[0], T.b2i(ge[1])))
            return sum_items(eng, s, eng.iter_items(s, v, node), start, node)
        return lift(st, a[0], f)
    if name in ("any", "all"):
        def f(s, v):
            ge = eng.gen_elem(s, v)
            if ge is not None and isinstance(ge[1], Node):
                return (T.any_ if name == "any" else T.all_)(ge[0], eng.truth(s, ge[1]))
            items = eng.iter_items(s, v, node)
            if name == "any": return or_(*[and_(g, eng.truth(s, x, node)) for g, x in items])
            return and_(*[implies(g, eng.truth(s, x, node)) for g, x in items])
        return lift(st, a[0], f)
    if name in ("list", "tuple", "set", "frozenset"):
        if not a: items = []
        else:
            def chk(s, v):
                r = eng.arr(s, v)
                if r is not None and not isinstance(r, Masked) and r.items is None and name in ("list", "tuple"):
                    return eng.new(s, ArrRec(None, r.n, r.elem, "list"))
                ge = eng.gen_elem(s, v)
                if ge is not None and name in ("list", "tuple") and isinstance(ge[1], Node): return eng.new(s, ArrRec(None, ge[0], ge[1], "list"))
                items = eng.iter_items(s, v, node)
                if s.dead: return UNDEF
                return mkseq(s, items)
            def mkseq(s, items):
                if name == "tuple" and guards_true(items): return VTuple([v for _, v in items])
                if name in ("set", "frozenset"): return eng.make_set(s, items, node)
                return eng.new(s, ListRec(items, "list", eng.here(node)))
            return lift(st, a[0], chk)
        if name == "tuple": return VTuple([])
        return eng.new(st, ListRec((), "set" if "set" in name else "list", eng.here(node)))
    if name == "dict":
        d = eng.new(st, DictRec((), "dict", eng.here(node)))
        if a:
            r = st.heap.get(a[0].id) if isinstance(a[0], Ref) else None
            if isinstance(r, DictRec): st.heap[d.id] = DictRec(r.items, "dict", eng.here(node))
            else:
                for g, v in eng.iter_items(st, a[0], node):
                    its = eng.iter_items(st, v, node)
                    if st.dead: return UNDEF
                    if g is TRUE: eng.dict_set(st, d, its[0][1], its[1][1], node)
                    else: eng.fork(st, g, lambda s: eng.dict_set(s, d, its[0][1], its[1][1], node) or NONE, lambda s: NONE)
        for k, v in kw.items(): eng.dict_set(st, d, const(k), v, node)
        return d
    if name == "range":
        xs = []
        for x in a:
            if isinstance(x, VIte): x = eng.num(st, x, node)
            if isinstance(x, Node) and (truthy_kind(x) in ("none", "str") or (isc(x) and x.args[0] != "i" and x.args[0] != "b")):
                return eng.do_raise(st, "TypeError", node, implicit=True)
            if not isinstance(x, Node): eng.unsup("range", node)
            xs.append(x)
        if len(xs) == 1: return RangeVal(ZERO, xs[0], ONE)
        if len(xs) == 2: return RangeVal(xs[0], xs[1], ONE)
        return RangeVal(*xs)
    if name == "slice":
        return SliceVal(*( (NONE, a[0], NONE) if len(a) == 1 else tuple(a) + (NONE,) * (3 - len(a))))
    if name == "zip":
        ges = [eng.gen_elem(st, v) for v in a]
        if a and any(g is not None for g in ges):
            if all(g is not None and g[0] is ges[0][0] for g in ges):
                return ExtVal("@genzip", (ges[0][0],) + tuple(g[1] for g in ges), {}, None, eng.fresh("z"))
            eng.unsup("zip of symbolic lengths", node)
        cols = [eng.iter_items(st, v, node) for v in a]
        if st.dead: return UNDEF
        if not all(guards_true(c) for c in cols):
            k = min(len(c) for c in cols) if cols else 0
            if all(len(c) == k for c in cols) and all(all(c[i][0] is cols[0][i][0] for c in cols) for i in range(k)):
                return eng.new(st, ListRec([(cols[0][i][0], VTuple([c[i][1] for c in cols])) for i in range(k)], "iter"))
            mg = max((len(c) for c in cols), default=0)
            out = []
            for i in range(mg):
                g = and_(*[lt(const(i), eng.count(c)) for c in cols])
                if g is FALSE: break
                s2 = st.clone(); s2.assume(g)
                sink = []; eng.sinks.append(sink)
                try: vals = [eng.nth(s2, c, i, node) for c in cols]
                finally: eng.sinks.pop()
                out.append((g, VTuple(vals)))
            return eng.new(st, ListRec(out, "iter"))
        return eng.new(st, ListRec([(TRUE, VTuple([v for _, v in t])) for t in zip(*cols)], "iter"))
    if name == "enumerate":
        start = a[1] if len(a) > 1 else kw.get("start", ZERO)
        ge = eng.gen_elem(st, a[0]) if not isinstance(a[0], VIte) else None
        if ge is not None: return ExtVal("@genzip", (ge[0], T.add(start, IDX), ge[1]), {}, None, eng.fresh("z"))
        items = eng.iter_items(st, a[0], node)
        out = []; n = start
        for g, v in items:
            out.append((g, VTuple([n, v])))
            n = T.add(n, ONE if g is TRUE else ite(g, ONE, ZERO))
        return eng.new(st, ListRec(out, "iter"))
    if name == "sorted":
        items = eng.iter_items(st, a[0], node)
        if st.dead: return UNDEF
        rev = eng.truth(st, kw.get("reverse", FALSE))
        if not isc(rev): eng.unsup("sorted reverse", node)
        items = sort_items(eng, st, items, kw.get("key"), rev is TRUE, node)
        return UNDEF if st.dead else eng.new(st, ListRec(items, "list", eng.here(node)))
    if name == "reversed":
        items = eng.iter_items(st, a[0], node)
        return eng.new(st, ListRec(items[::-1], "iter"))
    if name in ("map", "filter"):
        if len(a) > 2: eng.unsup("map", node)
        ge = eng.gen_elem(st, a[1]) if not isinstance(a[1], VIte) else None
        if ge is not None and name == "map":
            v = eng.call(st, a[0], [ge[1]], {}, node)
            return UNDEF if st.dead else eng.new(st, ArrRec(None, ge[0], eng.num(st, v, node), "list"))
        items = eng.iter_items(st, a[1], node)
        acc = eng.new(st, ListRec((), "iter"))
        def app_(s, v):
            r = s.heap[acc.id]; s.heap[acc.id] = ListRec(r.items + ((TRUE, v),), "iter"); return NONE
        for g, v in items:
            if st.dead: return UNDEF
            def body(s):
                if name == "map":
                    x = eng.call(s, a[0], [v], {}, node)
                    return UNDEF if s.dead else app_(s, x)
                c = eng.truth(s, v if a[0] is NONE else eng.call(s, a[0], [v], {}, node), node)
                if s.dead: return UNDEF
                return eng.fork(s, c, lambda q: app_(q, v), lambda q: NONE)
            eng.fork(st, g, body, lambda s: NONE)
        return acc
    if name == "iter":
        items = eng.iter_items(st, a[0], node); return eng.new(st, ListRec(items, "iter"))
    if name == "next":
        r = st.heap.get(a[0].id) if isinstance(a[0], Ref) else None
        if not isinstance(r, ListRec): eng.unsup("next", node)
        items = list(r.items)
        if guards_true(items):
            if items:
                st.heap[a[0].id] = ListRec(items[1:], r.kind); return items[0][1]
            return a[1] if len(a) > 1 else eng.do_raise(st, "StopIteration", node, implicit=True)
        have = or_(*[g for g, _ in items])
        if len(a) < 2: eng.may_raise(st, not_(have), "StopIteration", node)
        if st.dead: return UNDEF
        res = a[1] if len(a) > 1 else items[-1][1]
        for g, v in reversed(items if len(a) > 1 else items[:-1]): res = eng.merge_val(g, v, res)
        seen = FALSE; out = []
        for g, v in items: out.append((and_(g, seen), v)); seen = or_(seen, g)
        st.heap[a[0].id] = ListRec([x for x in out if x[0] is not FALSE], r.kind)
        return res
    if name == "print":
        eng.event(st, "call", "print", a, kw, None, NONE, node); return NONE
    if name == "getattr":
        if not (isinstance(a[1], Node) and isc(a[1])): eng.unsup("getattr", node)
        nm = cval(a[1])
        if len(a) == 3:
            sink = []; eng.sinks.append(sink)
            s2 = st.clone()
            try: v = eng.getattr(s2, a[0], nm, node)
            finally: eng.sinks.pop()
            bad = [x for x in sink if x[1].cls == "AttributeError"]
            if not bad: st.become(s2); return v
            if s2.dead: return a[2]
            c = or_(*[and_(*[p for p, _ in x[0].pc[len(st.pc):]]) for x in bad])
            return eng.merge_val(c, a[2], v)
        return eng.getattr(st, a[0], nm, node)
    if name == "setattr":
        if not (isinstance(a[1], Node) and isc(a[1])): eng.unsup("setattr", node)
        eng.setattr(st, a[0], cval(a[1]), a[2], node); return NONE
    if name == "delattr": eng.unsup("delattr", node)
    if name == "hasattr":
        sink = []; eng.sinks.append(sink); s2 = st.clone()
        try: eng.getattr(s2, a[0], cval(a[1]), node)
        finally: eng.sinks.pop()
        if not sink: return TRUE
        if s2.dead: return FALSE
        return not_(or_(*[and_(*[p for p, _ in x[0].pc[len(st.pc):]]) for x in sink]))
    if name == "callable": return const(isinstance(a[0], (Func, BoundMethod, ClassVal, Builtin, Partial, Method, Ext)))
    if name == "pow" and len(a) == 2: return eng.binop(st, ast.Pow(), a[0], a[1], node)
    if name == "divmod":
        return VTuple([eng.binop(st, ast.FloorDiv(), a[0], a[1], node), eng.binop(st, ast.Mod(), a[0], a[1], node)])
    if name == "id": return T.app("id", "int", eng.to_node(a[0]))
    if name == "hash": return T.app("hash", "int", eng.to_node(a[0]))
    if name == "object": return eng.new(st, ObjRec(_object_cls(eng), {}, {}))
    if name in ("eval", "exec", "compile", "open", "input", "__import__"):
        return eng.ext_result(st, "builtins." + name, a, kw, None, node)
    if name == "vars":
        return eng.getattr(st, a[0], "__dict__", node)
    if name == "property": return a[0]
    if name in ("ord", "chr") and isc(a[0]): return const(ord(cval(a[0])) if name == "ord" else chr(cval(a[0])))
    if name == "dir": eng.unsup("dir", node)
    if name in ("bytes", "complex"): return eng.ext_result(st, "builtins." + name, a, kw, None, node)
    eng.unsup(f"builtin {name}", node)
def _object_cls(eng):
    c = getattr(eng, "_objcls", None)
    if c is None:
        c = ClassVal(); c.name = "object"; c.node = None; c.mod = None; c.bases = []; c.fields = []; c.dataclass = None
        c.uid = "cobj"; c.env = Ref(-1); eng._objcls = c
        eng.base.heap[-1] = EnvRec({}, None)
    return c
def _numv(v):
    if isinstance(v, VIte): return _numv(v.a) and _numv(v.b)
    return isinstance(v, Node)
def _notnum(x):
    if x.op == "ite" and truthy_kind(x) == "mixed": return ite(x.args[0], _notnum(x.args[1]), _notnum(x.args[2]))
    return const(truthy_kind(x) in ("none", "str"))
def _numpart(x):
    if x.op == "ite" and truthy_kind(x) == "mixed":
        a, b = x.args[1], x.args[2]
        if truthy_kind(a) in ("none", "str"): return _numpart(b)
        if truthy_kind(b) in ("none", "str"): return _numpart(a)
        return ite(x.args[0], _numpart(a), _numpart(b))
    return x

# ---------------------------------------------------------------- numpy / math
def np_reduce(eng, st, op, v, node):
    r = eng.arr(st, v)
    if r is None:
        if isinstance(v, Node): return T.b2i(v) if op in ("sum", "max", "min", "prod", "mean") else v
        v = eng.to_array(st, v, node); r = eng.arr(st, v)
        if st.dead: return UNDEF
        if isinstance(r, Node): return r
    if isinstance(r, Masked):
        if r.n is not None:
            if op == "sum": return T.sum_(r.n, ite(r.mask, r.elem, ZERO))
            if op == "any": return T.any_(r.n, and_(r.mask, eng.truth(st, r.elem)))
            if op == "all": return T.all_(r.n, implies(r.mask, eng.truth(st, r.elem)))
        elif op == "sum":
            acc = ZERO
            for m, e in zip(r.mask, r.elem): acc = T.add(acc, ite(m, e, ZERO))
            return acc
        eng.unsup("reduction of masked array", node)
    if r.items is None:
        e = r.elem
        if op == "sum": return T.sum_(r.n, T.b2i(e))
        if op == "any": return T.any_(r.n, eng.truth(st, e))
        if op == "all": return T.all_(r.n, eng.truth(st, e))
        if op == "mean": return T.div(T.sum_(r.n, e), r.n)
        if op == "max": return T.mk("amax", r.n, e)
        if op == "min": return T.mk("amin", r.n, e)
        eng.unsup("array reduction " + op, node)
    xs = list(r.items)
    if op == "any": return or_(*[eng.truth(st, x) for x in xs])
    if op == "all": return and_(*[eng.truth(st, x) for x in xs])
    if op in ("sum", "mean"):
        acc = ZERO
        for x in xs: acc = T.add(acc, T.b2i(x))
        return acc if op == "sum" else T.div(acc, const(len(xs)))
    if op == "prod":
        acc = ONE
        for x in xs: acc = T.mul(acc, x)
        return acc
    if not xs: return eng.do_raise(st, "ValueError", node, implicit=True)
    acc = xs[0]
    for x in xs[1:]: acc = (T.max_ if op == "max" else T.min_)(acc, x)
    return acc

def shape_n(eng, st, v, node):
    if isinstance(v, VTuple) and len(v.items) == 1: v = v.items[0]
    if isinstance(v, VIte): v = eng.num(st, v, node)
    if not isinstance(v, Node): eng.unsup("array shape", node)
    return v
def filled(eng, st, n, x, dtype="float"):
    if T.isexact(n): return eng.new(st, ArrRec([x] * int(cval(n)), dtype=dtype))
    return eng.new(st, ArrRec(None, n, x, dtype))
def like(eng, st, v, x, node, dtype=None):
    r = eng.arr(st, v)
    if r is None:
        v = eng.to_array(st, v, node); r = eng.arr(st, v)
        if r is None: return x
    if isinstance(r, Masked): eng.unsup("like masked", node)
    dtype = dtype or r.dtype
    if r.items is not None: return eng.new(st, ArrRec([x] * len(r.items), dtype=dtype))
    return eng.new(st, ArrRec(None, r.n, x, dtype))
def dt(v, default="float"):
    if isinstance(v, Builtin): return v.name
    if isinstance(v, Node) and isc(v) and isinstance(cval(v), str): return cval(v)
    return default

UFUN = {"sqrt": T.sqrt, "sin": lambda x: T.fn1("sin", x), "cos": lambda x: T.fn1("cos", x), "tan": lambda x: T.fn1("tan", x),
        "arctan": lambda x: T.fn1("atan", x), "arcsin": lambda x: T.fn1("asin", x), "arccos": lambda x: T.fn1("acos", x),
        "atan": lambda x: T.fn1("atan", x), "asin": lambda x: T.fn1("asin", x), "acos": lambda x: T.fn1("acos", x),
        "abs": T.abs_, "absolute": T.abs_, "fabs": T.abs_, "exp": lambda x: T.fn1("exp", x), "log": lambda x: T.fn1("log", x),
        "square": lambda x: T.mul(x, x), "negative": T.neg, "floor": lambda x: T.rnd("floor", x), "ceil": lambda x: T.rnd("ceil", x),
        "trunc": lambda x: T.rnd("trunc", x), "radians": lambda x: T.mul(x, T.inexact(math.pi / 180)), "deg2rad": lambda x: T.mul(x, T.inexact(math.pi / 180)),
        "degrees": lambda x: T.mul(x, T.inexact(180 / math.pi)), "rad2deg": lambda x: T.mul(x, T.inexact(180 / math.pi)),
        "reciprocal": lambda x: T.div(ONE, x), "sign": lambda x: ite(lt(x, ZERO), const(-1), ite(eq(x, ZERO), ZERO, ONE))}
BFUN = {"maximum": T.max_, "minimum": T.min_, "fmax": T.max_, "fmin": T.min_, "add": T.add, "subtract": T.sub, "multiply": T.mul,
        "divide": T.div, "true_divide": T.div, "power": T.pow_, "arctan2": T.atan2, "hypot": lambda x, y: T.sqrt(T.add(T.mul(x, x), T.mul(y, y)))}
BBOOL = {"logical_and": and_, "logical_or": or_, "less": lt, "less_equal": le, "greater": lambda x, y: lt(y, x),
         "greater_equal": lambda x, y: le(y, x), "equal": eq, "not_equal": lambda x, y: not_(eq(x, y)), "logical_xor": lambda x, y: not_(eq(x, y))}

def call_ext(eng, st, path, a, kw, node):
    h = eng.hooks.get("ext_fn")
    if h:
        r = h(eng, st, path, a, kw, node)
        if r is not NotImplemented: return r
    p = _norm(path)
    mod, _, fn = p.rpartition(".")
    if mod == "math": 
        r = math_call(eng, st, fn, a, kw, node)
        if r is not None: return r
    if mod == "numpy":
        r = np_call(eng, st, fn, a, kw, node)
        if r is not None: return r
    if p in ("tqdm.tqdm", "tqdm.auto.tqdm", "tqdm.std.tqdm", "tqdm.trange"): return a[0] if a else NONE
    if p in ("copy.copy",): return shallow(eng, st, a[0])
    if p in ("copy.deepcopy",): return deep(eng, st, a[0], {})
    if p == "dataclasses.replace":
        o = a[0]; r = st.heap[o.id]
        vals = {n: r.fields[n] for n, _ in r.cls.fields}; vals.update(kw)
        return eng.instantiate(st, r.cls, [], vals, node)
    if p in ("dataclasses.asdict", "dataclasses.astuple"):
        r = st.heap[a[0].id]
        items = [(const(n), TRUE, r.fields[n]) for n, _ in r.cls.fields]
        if p.endswith("asdict"): return eng.new(st, DictRec(items, "dict"))
        return VTuple([v for _, _, v in items])
    if p == "dataclasses.field": return ExtVal("dataclasses.field", a, kw, None, eng.fresh("x"))
    if p == "functools.partial": return Partial(a[0], a[1:], kw)
    if p == "functools.reduce":
        items = eng.iter_items(st, a[1], node)
        if not guards_true(items): eng.unsup("reduce", node)
        xs = [v for _, v in items]
        acc = a[2] if len(a) > 2 else xs.pop(0)
        for x in xs: acc = eng.call(st, a[0], [acc, x], {}, node)
        return acc
    if p in ("operator.itemgetter", "operator.attrgetter") and len(a) == 1:
        return ExtFn(p, a)
    if p == "itertools.product":
        cols = [eng.iter_items(st, v, node) for v in a]
        out = [(TRUE, ())]
        for c in cols: out = [(and_(g, h), t + (v,)) for g, t in out for h, v in c]
        return eng.new(st, ListRec([(g, VTuple(t)) for g, t in out], "iter"))
    if p in ("itertools.chain",):
        return eng.new(st, ListRec([x for v in a for x in eng.iter_items(st, v, node)], "iter"))
    if p == "itertools.chain.from_iterable":
        return eng.new(st, ListRec([(and_(g, gg), x) for g, v in eng.iter_items(st, a[0], node) for gg, x in eng.iter_items(st, v, node)], "iter"))
    if p == "itertools.islice" and len(a) == 2: return eng.slice_items(st, a[0], eng.iter_items(st, a[0], node), SliceVal(NONE, a[1], NONE), node)
    if p in ("itertools.pairwise",):
        it = eng.iter_items(st, a[0], node)
        if guards_true(it): return eng.new(st, ListRec([(TRUE, VTuple([x[1], y[1]])) for x, y in zip(it, it[1:])], "iter"))
    if p in ("collections.defaultdict",): return eng.new(st, DictRec((), "default", eng.here(node)))
    if p in ("collections.OrderedDict",): return call_builtin(eng, st, "dict", a, kw, node)
    if p in ("typing.cast",): return a[1]
    if p == "object.__init__" or p.startswith("object.__"): return NONE
    if p == "colour.Color":
        # a colour text is either known or rejected; nothing else is assumed
        def f(s, v):
            if isinstance(v, Node) and truthy_kind(v) == "str" or isinstance(v, ExtVal) or (isinstance(v, Node) and truthy_kind(v) == "any"):
                n = eng.to_node(v)
                if isc(n):
                    if cval(n) in KNOWN_COLOURS or (cval(n).startswith("#") and len(cval(n)) in (4, 7) and all(ch in "0123456789abcdefABCDEF" for ch in cval(n)[1:])):
                        return ExtVal("colour.Color", [v], {}, None, "colour:" + str(n.id))
                    if cval(n) == "": return ExtVal("colour.Color", [v], {}, None, "colour:" + str(n.id))
                ok = T.app("known_colour", "bool", n)
                eng.may_raise(s, not_(ok), "ValueError", node)
                return UNDEF if s.dead else ExtVal("colour.Color", [v], {}, None, "colour:" + str(n.id))
            return ExtVal("colour.Color", [v], {}, None, "colour:none")
        return eng.lift(st, a[0] if a else NONE, f)
    return eng.ext_result(st, path, a, kw, None, node)
KNOWN_COLOURS = {"red", "orange", "green", "blue", "purple", "black", "white", "yellow", "grey", "gray", "lightgrey", "brown", "pink", "cyan", "magenta"}
def call_extval(eng, st, f, a, kw, node):
    h = eng.hooks.get("call_extval")
    if h:
        r = h(eng, st, f, a, kw, node)
        if r is not NotImplemented: return r
    if f.path == "colour.Color.range_to" and len(a) == 2 and T.isexact(a[1]) and f.recv is not None:
        k = int(cval(a[1]))
        if isinstance(a[0], ExtVal):
            return eng.new(st, ListRec([(TRUE, ExtVal("colour.Color", (f.recv, a[0], const(i)), {}, None, f"{f.recv.uid}>{a[0].uid}:{i}/{k}")) for i in range(k)], "iter"))
    if f.recv is not None and f.path.startswith("plotly.") and f.path.endswith((".to_dict", ".to_plotly_json")) and not a and not kw:
        # the figure as plain data: all its traces, and the layout
        o = f.recv
        return eng.new(st, DictRec([(const("data"), TRUE, VTuple([ExtVal("*", (), {}, o, f"{o.uid}.data*")])), (const("layout"), TRUE, ExtVal(o.path + ".layout", (), {}, o, f"{o.uid}.layout"))]))
    return eng.ext_result(st, f.path + "()", a, kw, f.recv, node)
class ExtFn(Ext):
    __slots__ = ("bound",)
    def __init__(s, p, b): Ext.__init__(s, "@" + p); s.bound = b

def shallow(eng, st, v):
    if isinstance(v, Ref):
        r = st.heap[v.id]
        if isinstance(r, ObjRec): return eng.new(st, ObjRec(r.cls, dict(r.fields), dict(r.locs)))
        return eng.new(st, r)
    if isinstance(v, VIte): return VIte(v.c, shallow(eng, st, v.a), shallow(eng, st, v.b))
    return v
def deep(eng, st, v, memo):
    if isinstance(v, Ref):
        if v.id in memo: return memo[v.id]
        r = st.heap[v.id]
        n = eng.new(st, r); memo[v.id] = n
        d = lambda x: deep(eng, st, x, memo)
        if isinstance(r, ObjRec): st.heap[n.id] = ObjRec(r.cls, {k: d(x) for k, x in r.fields.items()}, dict(r.locs))
        elif isinstance(r, ListRec): st.heap[n.id] = ListRec([(g, d(x)) for g, x in r.items], r.kind, r.loc)
        elif isinstance(r, DictRec): st.heap[n.id] = DictRec([(d(k), g, d(x)) for k, g, x in r.items], r.kind, r.loc)
        return n
    if isinstance(v, VTuple): return VTuple([deep(eng, st, x, memo) for x in v.items])
    if isinstance(v, VIte): return VIte(v.c, deep(eng, st, v.a, memo), deep(eng, st, v.b, memo))
    return v

def math_call(eng, st, fn, a, kw, node):
    def nums(s, vs): return [num1(eng, s, v, node) for v in vs]
    def lifted(f):
        def rec(s, i, acc):
            if i == len(a): return f(s, acc)
            return eng.lift(s, a[i], lambda q, v: rec(q, i + 1, acc + [v]))
        return rec(st, 0, [])
    if fn in ("sqrt", "sin", "cos", "tan", "atan", "asin", "acos", "exp", "log", "radians", "degrees", "fabs", "floor", "ceil", "trunc") and len(a) == 1:
        def f(s, vs):
            x = num1(eng, s, vs[0], node)
            if s.dead: return UNDEF
            if fn == "sqrt":
                if not eng.nonneg(s, x): eng.may_raise(s, lt(x, ZERO), "ValueError", node)
            if fn == "log": eng.may_raise(s, le(x, ZERO), "ValueError", node)
            if fn in ("asin", "acos"): eng.may_raise(s, lt(ONE, T.abs_(x)), "ValueError", node)
            return UNDEF if s.dead else UFUN[fn](x)
        return lifted(f)
    if fn == "atan2": return lifted(lambda s, vs: T.atan2(*nums(s, vs)))
    if fn == "hypot": return lifted(lambda s, vs: BFUN["hypot"](*nums(s, vs)) if len(vs) == 2 else eng.unsup("hypot", node))
    if fn == "pow": return lifted(lambda s, vs: T.pow_(*nums(s, vs)))
    if fn == "isclose":
        def f(s, vs):
            x, y = nums(s, vs[:2])
            rel = kw.get("rel_tol", const(1e-9)); ab = kw.get("abs_tol", ZERO)
            d = T.abs_(T.sub(x, y))
            return le(d, T.max_(T.mul(rel, T.max_(T.abs_(x), T.abs_(y))), ab))
        return lifted(f)
    if fn == "dist":
        p, q = [eng.iter_items(st, v, node) for v in a]
        acc = ZERO
        for (_, x), (_, y) in zip(p, q): d = T.sub(x, y); acc = T.add(acc, T.mul(d, d))
        return T.sqrt(acc)
    if fn in ("isnan", "isinf", "isfinite"):
        x = a[0]
        if isinstance(x, Node) and isc(x):
            return const(getattr(math, fn)(float(cval(x))))
        return const(fn == "isfinite") if isinstance(x, Node) else None
    if fn == "fsum": return call_builtin(eng, st, "sum", a, kw, node)
    if fn == "prod": return np_reduce(eng, st, "prod", a[0], node)
    if fn == "copysign":
        x, y = nums(st, a)
        return T.mul(T.abs_(x), ite(lt(y, ZERO), const(-1), ONE))
    return None

def np_call(eng, st, fn, a, kw, node):
    ew = eng.ew
    def liftall(f):
        def rec(s, i, acc):
            if i == len(a): return f(s, acc)
            return eng.lift(s, a[i], lambda q, v: rec(q, i + 1, acc + [v]))
        return rec(st, 0, [])
    if fn in UFUN and len(a) == 1:
        return liftall(lambda s, vs: ew(s, UFUN[fn], vs, node) if not isinstance(vs[0], Node) or truthy_kind(vs[0]) not in ("none", "str") else eng.do_raise(s, "TypeError", node, implicit=True))
    if fn in BFUN and len(a) >= 2:
        r = liftall(lambda s, vs: ew(s, BFUN[fn], vs[:2], node))
        out = kw.get("out") or (a[2] if len(a) > 2 else None)
        if isinstance(out, Ref) and isinstance(r, Ref): st.heap[out.id] = st.heap[r.id]; return out
        return r
    if fn in BBOOL and len(a) == 2:
        t = (lambda x: eng.truth(st, x)) if fn.startswith("logical") else (lambda x: x)
        return liftall(lambda s, vs: ew(s, lambda x, y: BBOOL[fn](t(x), t(y)), vs, node, "bool"))
    if fn in ("logical_not", "invert"): return liftall(lambda s, vs: ew(s, lambda x: not_(eng.truth(st, x)), vs, node, "bool"))
    if fn in ("isnan", "isinf"): return ew(st, lambda x: FALSE, [a[0]], node, "bool")
    if fn == "isfinite": return ew(st, lambda x: TRUE, [a[0]], node, "bool")
    if fn == "isclose":
        rt = kw.get("rtol", const(1e-5)); at_ = kw.get("atol", const(1e-8))
        return ew(st, lambda x, y: le(T.abs_(T.sub(x, y)), T.add(at_, T.mul(rt, T.abs_(y)))), a[:2], node, "bool")
    if fn == "linspace":
        lo, hi = a[0], a[1]; n = a[2] if len(a) > 2 else kw.get("num", const(50))
        ep = kw.get("endpoint", TRUE)
        lo, hi, n = [eng.num(st, x, node) for x in (lo, hi, n)]
        den = T.sub(n, ONE) if ep is TRUE else n
        if T.isexact(n):
            k = int(cval(n))
            if k == 1: return eng.new(st, ArrRec([lo]))
            step = T.div(T.sub(hi, lo), den)
            return eng.new(st, ArrRec([T.add(lo, T.mul(const(i), step)) for i in range(k)]))
        return eng.new(st, ArrRec(None, n, T.add(lo, T.mul(IDX, T.div(T.sub(hi, lo), den)))))
    if fn == "arange":
        xs = [eng.num(st, x, node) for x in a]
        if len(xs) == 1: xs = [ZERO, xs[0], ONE]
        elif len(xs) == 2: xs = xs + [ONE]
        lo, hi, step = xs
        if all(T.isexact(x) for x in xs):
            k = max(0, math.ceil((cval(hi) - cval(lo)) / cval(step)))
            return eng.new(st, ArrRec([T.add(lo, T.mul(const(i), step)) for i in range(k)]))
        if step is ONE: return eng.new(st, ArrRec(None, T.sub(hi, lo), T.add(lo, IDX)))
        eng.unsup("arange", node)
    if fn in ("zeros", "ones", "empty", "full"):
        n = shape_n(eng, st, a[0], node)
        x = {"zeros": ZERO, "ones": ONE, "empty": UNDEF}.get(fn)
        d = kw.get("dtype", a[1] if len(a) > 1 and fn != "full" else None)
        if fn == "full": x = eng.num(st, a[1] if len(a) > 1 else kw["fill_value"], node)
        d = dt(d)
        if d == "bool": x = {ZERO: FALSE, ONE: TRUE}.get(x, x)
        return filled(eng, st, n, x, "bool" if d == "bool" or (fn == "full" and truthy_kind(x) == "bool") else "float")
    if fn in ("zeros_like", "ones_like", "empty_like", "full_like"):
        x = {"zeros_like": ZERO, "ones_like": ONE, "empty_like": UNDEF}.get(fn)
        if fn == "full_like": x = eng.num(st, a[1], node)
        d = kw.get("dtype"); d = dt(d, None) if d is not None else None
        if d == "bool": x = {ZERO: FALSE, ONE: TRUE}.get(x, x)
        return like(eng, st, a[0], x, node, d)
    if fn in ("array", "asarray", "asfarray", "atleast_1d", "ascontiguousarray", "copy", "fromiter"):
        v = a[0]
        def f(s, v):
            r = eng.arr(s, v)
            if r is not None:
                if fn in ("asarray", "atleast_1d", "asfarray", "ascontiguousarray"): return v
                if isinstance(r, Masked): return v
                return eng.new(s, ArrRec(r.items, r.n, r.elem, r.dtype if r.dtype != "list" else "float"))
            if isinstance(v, Node): return v
            items = eng.iter_items(s, v, node)
            xs = []
            for g, x in items:
                if g is not TRUE: eng.unsup("array of gated list", node)
                if isinstance(x, VIte): x = eng.num(s, x, node)
                if not isinstance(x, Node): eng.unsup("nested array", node)
                xs.append(x)
            d = dt(kw.get("dtype", a[1] if len(a) > 1 else None), None)
            if d is None: d = "bool" if xs and all(truthy_kind(x) == "bool" for x in xs) else "float"
            return eng.new(s, ArrRec(xs, dtype=d))
        return eng.lift(st, v, f)
    if fn == "where":
        if len(a) != 3: eng.unsup("np.where(mask)", node)
        return liftall(lambda s, vs: ew(s, lambda c, x, y: ite(eng.truth(s, c), x, y), vs, node))
    if fn == "select":
        conds = [x for _, x in eng.iter_items(st, a[0], node)]; vals = [x for _, x in eng.iter_items(st, a[1], node)]
        r = a[2] if len(a) > 2 else kw.get("default", ZERO)
        for c, v in list(zip(conds, vals))[::-1]: r = ew(st, lambda c, x, y: ite(eng.truth(st, c), x, y), [c, v, r], node)
        return r
    if fn == "clip":
        lo = a[1] if len(a) > 1 else kw.get("a_min", NONE); hi = a[2] if len(a) > 2 else kw.get("a_max", NONE)
        r = a[0]
        if lo is not NONE: r = ew(st, T.max_, [r, lo], node)
        if hi is not NONE: r = ew(st, T.min_, [r, hi], node)
        return r
    if fn in ("sum", "any", "all", "mean", "prod", "nansum", "count_nonzero"):
        op = {"nansum": "sum"}.get(fn, fn)
        if fn == "count_nonzero":
            return eng.lift(st, a[0], lambda s, v: np_reduce(eng, s, "sum", ew(s, lambda x: ite(eng.truth(s, x), ONE, ZERO), [v], node), node))
        return eng.lift(st, a[0], lambda s, v: np_reduce(eng, s, op, v, node))
    if fn in ("max", "min", "amax", "amin", "nanmax", "nanmin"):
        return eng.lift(st, a[0], lambda s, v: np_reduce(eng, s, fn[-3:], v, node))
    if fn == "dot":
        return np_reduce(eng, st, "sum", ew(st, T.mul, a[:2], node), node)
    if fn in ("float64", "float32"): return fn_float(eng, st, a[0], node)
    if fn in ("around", "round", "round_"):
        nd = int(cval(a[1])) if len(a) > 1 else int(cval(kw.get("decimals", ZERO)))
        return ew(st, lambda x: T.round_(x, nd), [a[0]], node)
    if fn in ("concatenate", "append", "hstack"):
        vs = [x for _, x in eng.iter_items(st, a[0], node)] if fn != "append" else a[:2]
        out = []
        for v in vs:
            r = eng.arr(st, eng.to_array(st, v, node)) if not isinstance(v, Node) else None
            if isinstance(v, Node): out.append(v)
            elif r.items is None: eng.unsup("concatenate", node)
            else: out += list(r.items)
        return eng.new(st, ArrRec(out))
    if fn == "cumsum":
        r = eng.arr(st, eng.to_array(st, a[0], node))
        if r.items is None: eng.unsup("cumsum", node)
        acc = ZERO; out = []
        for x in r.items: acc = T.add(acc, x); out.append(acc)
        return eng.new(st, ArrRec(out))
    if fn == "diff":
        r = eng.arr(st, eng.to_array(st, a[0], node))
        if r.items is None: eng.unsup("diff", node)
        return eng.new(st, ArrRec([T.sub(y, x) for x, y in zip(r.items, r.items[1:])]))
    if fn == "interp": eng.unsup("np.interp", node)
    if fn == "errstate": return ExtVal("numpy.errstate", a, kw, None, eng.fresh("x"))
    return None

# ---------------------------------------------------------------- methods
def call_method(eng, st, o, name, a, kw, node):
    if isinstance(o, Func):
        if name == "cache_clear":
            key = ("@cache", o.uid)
            r = st.heap[o.mod.env.id]
            if key in r.vars: st.heap[r.vars[key].id] = ListRec((), "list")
            return NONE
    if isinstance(o, VTuple):
        if name == "index" or name == "count":
            es = [eng.valeq(st, x, a[0]) for x in o.items]
            if name == "count": return eng.count([(e, 0) for e in es])
            return _index(eng, st, [(TRUE, x) for x in o.items], a[0], node)
        return eng.do_raise(st, "AttributeError", node, implicit=True)
    if isinstance(o, RangeVal): eng.unsup("range method", node)
    if isinstance(o, Masked):
        if name in ("sum", "any", "all"): return np_reduce(eng, st, name, o, node)
        if name == "copy": return o
        eng.unsup("masked method", node)
    if isinstance(o, Ref):
        r = st.heap[o.id]
        if isinstance(r, ListRec):
            if r.kind == "set": return set_method(eng, st, o, r, name, a, kw, node)
            if r.kind in ("list", "deque"): return list_method(eng, st, o, r, name, a, kw, node)
            if name == "close": return NONE
            return eng.do_raise(st, "AttributeError", node, implicit=True)
        if isinstance(r, DictRec): return dict_method(eng, st, o, r, name, a, kw, node)
        if isinstance(r, ArrRec):
            if r.dtype == "list":
                if name in ("copy",): return eng.new(st, r)
                eng.unsup("method of list of symbolic length", node)
            return arr_method(eng, st, o, r, name, a, kw, node)
    if isinstance(o, Node):
        k = truthy_kind(o)
        if k in ("num", "bool"):
            if name == "is_integer": return eq(T.rnd("floor", o), o)
            if name in ("sum", "max", "min"): return T.b2i(o)
            return o
        return str_method(eng, st, o, name, a, kw, node)
    if isinstance(o, Builtin):
        if o.name == "dict" and name == "fromkeys":
            d = eng.new(st, DictRec((), "dict", eng.here(node)))
            for g, k in eng.iter_items(st, a[0], node):
                if g is not TRUE: eng.unsup("fromkeys", node)
                eng.dict_set(st, d, k, a[1] if len(a) > 1 else NONE, node)
            return d
        if o.name == "str" and a: return call_method(eng, st, a[0], name, a[1:], kw, node)
        if o.name in ("list", "dict", "set") and a: return call_method(eng, st, a[0], name, a[1:], kw, node)
        if o.name == "float" and name == "fromhex": eng.unsup("fromhex", node)
    eng.unsup(f"method {name} of {o!r}", node)
def _index(eng, st, items, x, node):
    have = FALSE; res = None; n = ZERO; pos = []
    for g, v in items:
        c = and_(g, eng.valeq(st, v, x, node))
        pos.append((c, n)); n = T.add(n, ONE if g is TRUE else ite(g, ONE, ZERO))
    have = or_(*[c for c, _ in pos])
    eng.may_raise(st, not_(have), "ValueError", node)
    if st.dead or not pos: return UNDEF
    res = pos[-1][1]
    for c, p in reversed(pos[:-1]): res = ite(c, p, res)
    return res
def list_method(eng, st, o, r, name, a, kw, node):
    def put(items): st.heap[o.id] = ListRec([x for x in items if x[0] is not FALSE], r.kind, r.loc)
    if name == "append": put(r.items + ((TRUE, a[0]),)); return NONE
    if name == "appendleft": put(((TRUE, a[0]),) + r.items); return NONE
    if name == "extend": put(r.items + tuple(eng.iter_items(st, a[0], node))); return NONE
    if name == "insert":
        if T.isexact(a[0]) and (cval(a[0]) == 0): put(((TRUE, a[1]),) + r.items); return NONE
        if T.isexact(a[0]) and guards_true(r.items):
            l = list(r.items); l.insert(int(cval(a[0])), (TRUE, a[1])); put(l); return NONE
        if guards_true(r.items):
            n = len(r.items); out = []
            # gated position
            k = a[0]
            for i in range(n):
                out.append((eq(T.min_(T.max_(k, ZERO), const(n)), const(i)), a[1])); out.append(r.items[i])
            out.append((le(const(n), k), a[1]))
            put(out); return NONE
        eng.unsup("insert", node)
    if name == "remove":
        done = FALSE; out = []
        for g, v in r.items:
            c = and_(g, eng.valeq(st, v, a[0], node), not_(done))
            out.append((and_(g, not_(c)), v)); done = or_(done, c)
        eng.may_raise(st, not_(done), "ValueError", node)
        if st.dead: return UNDEF
        put(out); return NONE
    if name == "pop":
        k = int(cval(a[0])) if a and T.isexact(a[0]) else (-1 if not a else eng.unsup("pop", node))
        items = list(r.items)
        if k < 0:
            v = eng.nth(st, items[::-1], -k - 1, node)
        else: v = eng.nth(st, items, k, node)
        if st.dead: return UNDEF
        if guards_true(items): del items[k]; put(items); return v
        if k == -1:
            after = FALSE; out = []
            for g, x in reversed(items): out.append((and_(g, after), x)); after = or_(after, g)
            put(out[::-1]); return v
        if k == 0:
            seen = FALSE; out = []
            for g, x in items: out.append((and_(g, seen), x)); seen = or_(seen, g)
            put(out); return v
        eng.unsup("pop", node)
    if name == "popleft": return list_method(eng, st, o, r, "pop", [ZERO], {}, node)
    if name == "clear": put(()); return NONE
    if name == "copy": return eng.new(st, ListRec(r.items, r.kind, eng.here(node)))
    if name == "reverse": put(r.items[::-1]); return NONE
    if name == "sort":
        rev = eng.truth(st, kw.get("reverse", FALSE))
        if not isc(rev): eng.unsup("sort reverse", node)
        items = sort_items(eng, st, list(r.items), kw.get("key"), rev is TRUE, node)
        if st.dead: return UNDEF
        put(items); return NONE
    if name == "index": return _index(eng, st, r.items, a[0], node)
    if name == "count": return eng.count([(and_(g, eng.valeq(st, v, a[0], node)), 0) for g, v in r.items])
    if name in ("__len__",): return eng.count(r.items)
    if name == "__contains__": return eng.contains(st, a[0], o, node)
    return eng.do_raise(st, "AttributeError", node, implicit=True)
def set_method(eng, st, o, r, name, a, kw, node):
    def put(items): st.heap[o.id] = ListRec([x for x in items if x[0] is not FALSE], "set", r.loc)
    if name == "add":
        dup = or_(*[and_(g, eng.valeq(st, v, a[0], node)) for g, v in r.items])
        put(r.items + ((not_(dup), a[0]),)); return NONE
    if name in ("discard", "remove"):
        hit = or_(*[and_(g, eng.valeq(st, v, a[0], node)) for g, v in r.items])
        if name == "remove": eng.may_raise(st, not_(hit), "KeyError", node)
        if st.dead: return UNDEF
        put([(and_(g, not_(eng.valeq(st, v, a[0], node))), v) for g, v in r.items]); return NONE
    if name == "update":
        n = eng.make_set(st, list(r.items) + [x for y in a for x in eng.iter_items(st, y, node)], node)
        st.heap[o.id] = st.heap[n.id]; return NONE
    if name in ("union", "difference", "intersection"):
        cur = o
        for y in a:
            s = eng.make_set(st, eng.iter_items(st, y, node), node)
            cur = eng.binop1(st, {"union": ast.BitOr(), "difference": ast.Sub(), "intersection": ast.BitAnd()}[name], cur, s, node)
        return cur if a else eng.new(st, r)
    if name == "copy": return eng.new(st, r)
    if name == "clear": put(()); return NONE
    eng.unsup("set method " + name, node)
def dict_method(eng, st, o, r, name, a, kw, node):
    if name == "get": return eng.dict_get(st, o, a[0], node, a[1] if len(a) > 1 else kw.get("default", NONE), True)
    if name == "items": return eng.new(st, ListRec([(g, VTuple([k, v])) for k, g, v in r.items], "iter"))
    if name == "keys": return eng.new(st, ListRec([(g, k) for k, g, v in r.items], "iter"))
    if name == "values": return eng.new(st, ListRec([(g, v) for k, g, v in r.items], "iter"))
    if name == "update":
        for x in a:
            rr = st.heap.get(x.id) if isinstance(x, Ref) else None
            if not isinstance(rr, DictRec): eng.unsup("dict.update", node)
            for k, g, v in rr.items:
                if g is TRUE: eng.dict_set(st, o, k, v, node)
                else: eng.fork(st, g, lambda s: eng.dict_set(s, o, k, v, node) or NONE, lambda s: NONE)
        for k, v in kw.items(): eng.dict_set(st, o, const(k), v, node)
        return NONE
    if name == "setdefault":
        d = a[1] if len(a) > 1 else NONE
        have = eng.contains(st, a[0], o, node)
        return eng.fork(st, have, lambda s: eng.dict_get(s, o, a[0], node, NONE, True),
                        lambda s: (eng.dict_set(s, o, a[0], d, node), d)[1])
    if name == "pop":
        if len(a) > 1:
            v = eng.dict_get(st, o, a[0], node, a[1], True)
        else: v = eng.dict_get(st, o, a[0], node)
        if st.dead: return UNDEF
        out = []
        for k, g, x in st.heap[o.id].items:
            e = eng.valeq(st, k, a[0])
            if e is not TRUE: out.append((k, and_(g, not_(e)), x))
        st.heap[o.id] = DictRec(out, r.kind, r.loc)
        return v
    if name == "clear": st.heap[o.id] = DictRec((), r.kind, r.loc); return NONE
    if name == "copy": return eng.new(st, DictRec(r.items, r.kind, eng.here(node)))
    if name == "__contains__": return eng.contains(st, a[0], o, node)
    if name == "flush": st.heap[o.id] = DictRec((), r.kind, r.loc); return NONE
    eng.unsup("dict method " + name, node)
def arr_method(eng, st, o, r, name, a, kw, node):
    if name in ("sum", "any", "all", "mean", "max", "min", "prod"): return np_reduce(eng, st, name, o, node)
    if name in ("copy", "flatten", "ravel"): return eng.new(st, r)
    if name == "astype":
        d = dt(a[0])
        if d == r.dtype: return eng.new(st, r)
        f = {"bool": lambda x: eng.truth(st, x), "float": T.b2i}.get(d)
        if f is None: eng.unsup("astype", node)
        return eng.ew(st, f, [o], node, d)
    if name == "tolist":
        if r.items is not None: return eng.list_of(st, r.items, "list", node)
        return eng.new(st, ArrRec(None, r.n, r.elem, "list"))
    if name == "fill":
        x = eng.num(st, a[0], node)
        st.heap[o.id] = ArrRec([x] * len(r.items), dtype=r.dtype) if r.items is not None else ArrRec(None, r.n, x, r.dtype)
        return NONE
    if name == "clip":
        return np_call(eng, st, "clip", [o] + list(a), {{"min": "a_min", "max": "a_max"}.get(k, k): v for k, v in kw.items()}, node)
    if name == "item" and r.items is not None and len(r.items) == 1: return r.items[0]
    if name in ("dot",): return np_call(eng, st, "dot", [o] + list(a), kw, node)
    if name == "round": return np_call(eng, st, "round", [o] + list(a), kw, node)
    if name in ("reshape",): return o
    eng.unsup("array method " + name, node)
def str_method(eng, st, o, name, a, kw, node):
    ca = [x for x in a]
    if isc(o) and isinstance(cval(o), str):
        s = cval(o)
        if name == "join":
            items = eng.iter_items(st, a[0], node)
            if guards_true(items):
                xs = [v for _, v in items]
                if all(isinstance(x, Node) and isc(x) and isinstance(cval(x), str) for x in xs): return const(s.join(cval(x) for x in xs))
                return T.mk("fmt", o, *[eng.to_node(x) for x in xs])
            eng.unsup("join of gated list", node)
        if all(isinstance(x, Node) and isc(x) for x in ca) and not kw:
            args = [cval(x) for x in ca]
            if name in ("lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "replace", "title", "capitalize", "find", "count", "isdigit", "zfill", "index", "isnumeric", "isalpha", "casefold"):
                try: return const(getattr(s, name)(*args))
                except (ValueError,): return eng.do_raise(st, "ValueError", node, implicit=True)
            if name in ("split", "rsplit", "splitlines"):
                return eng.list_of(st, [const(x) for x in getattr(s, name)(*args)], "list", node)
            if name in ("partition", "rpartition"): return VTuple([const(x) for x in getattr(s, name)(*args)])
            if name == "format" and all(not isinstance(x, float) for x in args):
                try: return const(s.format(*args))
                except Exception: pass
        if name == "format": return T.mk("fmt", o, *[eng.to_node(x) for x in a], *[eng.to_node(x) for _, x in sorted(kw.items())])
    if name in ("startswith", "endswith", "isdigit", "isnumeric", "isalpha", "isdecimal", "isalnum", "isspace", "isupper", "islower", "isidentifier", "isascii"): return T.app("str." + name, "bool", o, *[eng.to_node(x) for x in a])
    if name in ("lower", "upper", "strip", "replace", "title", "format", "lstrip", "rstrip", "removeprefix", "removesuffix", "capitalize", "casefold", "zfill"): return T.app("str." + name, "str", o, *[eng.to_node(x) for x in a])
    if truthy_kind(o) == "any": return T.app("meth." + name, "any", o, *[eng.to_node(x) for x in a])
    if name in ("split", "rsplit", "splitlines") : return ExtVal("str." + name, (o, *a), kw, None, "s" + str(eng.to_node(o).id))
    eng.unsup("string method " + name, node)

_old_call_ext = call_ext
def call_ext(eng, st, path, a, kw, node):
    if path.startswith("@operator."):
        eng.unsup("operator getter", node)
    return _old_call_ext(eng, st, path, a, kw, node)
