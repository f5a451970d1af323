"""Hash-consed value numbers: expression DAGs over named inputs.

A Node is never evaluated by running repository code; `Evaluator` evaluates the
extracted expression at an assignment of its input names, which is how a claimed
difference between two value numbers is certified (see oblig.py).
"""
import math, hashlib
from fractions import Fraction

class Node:
    __slots__ = ("op", "args", "id", "idx", "__weakref__")
    def __repr__(self): return show(self)

_tab = {}
def mk(op, *args):
    k = (op,) + tuple(a.id if isinstance(a, Node) else ("#", a) for a in args)
    n = _tab.get(k)
    if n is None:
        n = Node(); n.op = op; n.args = args; n.id = len(_tab)
        n.idx = op == "idx" or (op not in BINDERS and any(isinstance(a, Node) and a.idx for a in args)) \
            or (op in BINDERS and isinstance(args[0], Node) and args[0].idx)
        _tab[k] = n
        if ORIGIN is not None: ORIGIN[n.id] = WHERE()
    return n
# where in the source a value number was first formed (only while a check asks for it)
ORIGIN = None
WHERE = None
BINDERS = {"sum", "any", "all", "amax", "amin", "at"}

def const(v):
    if v is None: return mk("c", "n", None)
    if isinstance(v, bool): return mk("c", "b", v)
    if isinstance(v, int): return mk("c", "i", v)
    if isinstance(v, Fraction): return mk("c", "q", v)
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v): return mk("c", "f", repr(v))
        return mk("c", "q", Fraction(repr(v)))
    if isinstance(v, str): return mk("c", "s", v)
    if isinstance(v, bytes): return mk("c", "y", v)
    if v is Ellipsis: return mk("c", "e", "...")
    raise TypeError(v)
def inexact(v):
    if math.isinf(v) or math.isnan(v): return mk("c", "f", repr(v))
    return mk("c", "x", repr(v))
TRUE = const(True); FALSE = const(False); NONE = const(None)
ZERO = const(0); ONE = const(1); INF = const(float("inf")); NINF = const(float("-inf"))
PI = mk("c", "x", repr(math.pi))
UNDEF = mk("undef")
IDX = mk("idx")

def isc(n): return isinstance(n, Node) and n.op == "c"
def cval(n):
    t, v = n.args
    if t in ("f", "x"): return float(v)
    return v
def isnumc(n): return isc(n) and n.args[0] in "iqfx"
def isexact(n): return isc(n) and n.args[0] in "iq"
def sym(name, kind="real"): return mk("s", name, kind)

def _cn(v):
    """const from a computed number"""
    if isinstance(v, bool): return const(v)
    if isinstance(v, (int, Fraction)): return const(v)
    return inexact(v)

NUMOPS = {"+", "*", "/", "**", "sqrt", "sin", "cos", "tan", "atan", "asin", "acos", "atan2",
          "abs", "min", "max", "floor", "ceil", "trunc", "round", "mod", "fdiv", "sum", "amax",
          "amin", "exp", "log", "float", "int", "hypot", "len", "tofloat"}
BOOLOPS = {"<", "<=", "==", "not", "and", "or", "any", "all"}

_tk = {}
def truthy_kind(n):
    k = _tk.get(n.id)
    if k is None: k = _tk[n.id] = _truthy_kind(n)
    return k
def _truthy_kind(n):
    """coarse type of a node: 'num','bool','none','str','mixed','any'"""
    o = n.op
    if o == "c":
        t = n.args[0]
        return {"n": "none", "b": "bool", "s": "str", "e": "any", "y": "any"}.get(t, "num")
    if o == "s":
        return {"real": "num", "int": "num", "bool": "bool", "str": "str"}.get(n.args[1], "any")
    if o in NUMOPS or o == "idx": return "num"
    if o in BOOLOPS: return "bool"
    if o == "ite":
        a, b = truthy_kind(n.args[1]), truthy_kind(n.args[2])
        if n.args[1] is UNDEF: return b
        if n.args[2] is UNDEF: return a
        return a if a == b else ("num" if {a, b} == {"num", "bool"} else "mixed")
    if o == "app":
        k = n.args[1]
        return {"real": "num", "int": "num", "bool": "bool", "str": "str"}.get(k, "any")
    if o == "strcat" or o == "fmt": return "str"
    return "any"

# ---------- boolean constructors
_nt = {}
def not_(a):
    r = _nt.get(a.id)
    if r is None: r = _nt[a.id] = _not(a)
    return r
def _not(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    if a.op == "<": return mk("<=", a.args[1], a.args[0])
    if a.op == "<=": return mk("<", a.args[1], a.args[0])
    if a.op == "and": return or_(*[not_(x) for x in a.args])
    if a.op == "or": return and_(*[not_(x) for x in a.args])
    if a.op == "any": return mk("all", a.args[0], not_(a.args[1]))
    if a.op == "all": return mk("any", a.args[0], not_(a.args[1]))
    if a.op == "ite" and truthy_kind(a) == "bool":
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return mk("not", a)
def _nary(op, unit, zero, xs):
    out = []; seen = set()
    for x in xs:
        for y in (x.args if x.op == op else (x,)):
            if y is unit or y.id in seen: continue
            if y is zero: return zero
            seen.add(y.id); out.append(y)
    for y in out:
        if not_(y).id in seen: return zero
    if not out: return unit
    if len(out) == 1: return out[0]
    return mk(op, *out)
def and_(*xs): return _nary("and", TRUE, FALSE, xs)
_ot = {}
def or_(*xs):
    k = tuple(x.id for x in xs)
    r = _ot.get(k)
    if r is None: r = _ot[k] = _or(*xs)
    return r
def _or(*xs):
    r = _nary("or", FALSE, TRUE, xs)
    # (a and b) or a -> a ; (c and x) or (not c) -> x or not c
    if r.op == "or":
        ids = {x.id for x in r.args}
        new = []; ch = False
        for x in r.args:
            if x.op == "and":
                if any(y.id in ids for y in x.args): ch = True; continue
                rest = [y for y in x.args if not_(y).id not in ids]
                if len(rest) != len(x.args): ch = True; x = and_(*rest)
            new.append(x)
        if ch: return or_(*new)
    return r
def implies(a, b): return or_(not_(a), b)

def _cmpc(op, a, b):
    x, y = cval(a), cval(b)
    if op == "<": return x < y
    if op == "<=": return x <= y
def lt(a, b):
    if isnumc(a) and isnumc(b): return const(bool(_cmpc("<", a, b)))
    if a is b: return FALSE
    if b is NINF or a is INF: return FALSE
    if a is NINF and isc(b) is False and b.op != "ite": return TRUE
    if b is INF and isc(a) is False and a.op != "ite": return TRUE
    r = _pushc(lt, a, b)
    return r if r is not None else mk("<", a, b)
def le(a, b):
    if isnumc(a) and isnumc(b): return const(bool(_cmpc("<=", a, b)))
    if a is b: return TRUE
    if a is NINF or b is INF: return TRUE
    r = _pushc(le, a, b)
    return r if r is not None else mk("<=", a, b)
def cleaves(n, d=0):
    return isnumc(n) or (d < 12 and n.op == "ite" and cleaves(n.args[1], d + 1) and cleaves(n.args[2], d + 1))
def _pushc(f, a, b):
    if isnumc(a) and b.op == "ite" and cleaves(b): return ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
    if isnumc(b) and a.op == "ite" and cleaves(a): return ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
_eqm = {}
def eq(a, b):
    if a is b: return TRUE
    k = (a.id, b.id)
    r = _eqm.get(k)
    if r is None: r = _eqm[k] = _eq(a, b)
    return r
def _eq(a, b):
    ka, kb = truthy_kind(a), truthy_kind(b)
    if isc(a) and isc(b):
        if isnumc(a) and isnumc(b): return const(cval(a) == cval(b))
        if {ka, kb} <= {"num", "bool"}: return const(cval(a) == cval(b))
        return const(ka == kb and cval(a) == cval(b))
    if "none" in (ka, kb):
        o = b if ka == "none" else a
        ko = kb if ka == "none" else ka
        if ko in ("num", "bool", "str"): return FALSE
        if o.op == "ite": return ite(o.args[0], eq(o.args[1], NONE), eq(o.args[2], NONE))
    if {ka, kb} in ({"num", "str"}, {"bool", "str"}): return FALSE
    if ka == "bool" and b is TRUE: return a
    if kb == "bool" and a is TRUE: return b
    if ka == "bool" and b is FALSE: return not_(a)
    if kb == "bool" and a is FALSE: return not_(b)
    if a.op == "ite" and isc(b) and (isc(a.args[1]) or isc(a.args[2])):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and isc(a) and (isc(b.args[1]) or isc(b.args[2])):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.id > b.id: a, b = b, a
    return mk("==", a, b)

_it = {}
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    k = (c.id, a.id, b.id)
    r = _it.get(k)
    if r is None: r = _it[k] = _ite(c, a, b)
    return r
def _ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a is UNDEF and not isc(b): return b
    if b is UNDEF and not isc(a): return a
    if c.op == "not": return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE: return c
    if a is FALSE and b is TRUE: return not_(c)
    if truthy_kind(a) == "bool" and truthy_kind(b) == "bool":
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
    if a.op == "ite" and a.args[0] is c: a = a.args[1]
    if b.op == "ite" and b.args[0] is c: b = b.args[2]
    nc = not_(c)
    if a is c: return ite(c, TRUE, b)
    if a is nc: return ite(c, FALSE, b)
    if b is c: return ite(c, a, FALSE)
    if b is nc: return ite(c, a, TRUE)
    if a.op == "ite" and a.args[0] is nc: a = a.args[2]
    if b.op == "ite" and b.args[0] is nc: b = b.args[1]
    if a is b: return a
    # if any(mask): x = where(mask, v, x)
    if c.op == "any" and a.op == "ite" and a.args[0] is c.args[1] and a.args[2] is b: return a
    if a.op == "ite" and a.args[2] is b: return ite(and_(c, a.args[0]), a.args[1], b)
    if a.op == "ite" and a.args[1] is b: return ite(and_(c, not_(a.args[0])), a.args[2], b)
    if b.op == "ite" and b.args[1] is a: return ite(or_(c, b.args[0]), a, b.args[2])
    return mk("ite", c, a, b)

# ---------- numeric constructors
def _bin(f, a, b):
    x, y = cval(a), cval(b)
    if isinstance(x, float) or isinstance(y, float): x, y = float(x), float(y)
    try: return _cn(f(x, y))
    except OverflowError: return INF
def b2i(a):
    k = truthy_kind(a)
    if k == "bool":
        if isc(a): return const(int(cval(a)))
        return mk("ite", a, ONE, ZERO)
    return a
def add(a, b):
    a, b = b2i(a), b2i(b)
    if isnumc(a) and isnumc(b): return _bin(lambda x, y: x + y, a, b)
    if isexact(a) and cval(a) == 0: return b
    if isexact(b) and cval(b) == 0: return a
    if a.id > b.id: a, b = b, a
    # constants: (x + c1) + c2
    if isc(b) and a.op == "+" and isc(a.args[1]): return add(a.args[0], add(a.args[1], b))
    if isc(a): a, b = b, a
    if isexact(b) and a.op == "ite" and isexact(a.args[1]) and isexact(a.args[2]): return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
    return mk("+", a, b)
def mul(a, b):
    a, b = b2i(a), b2i(b)
    if isnumc(a) and isnumc(b): return _bin(lambda x, y: x * y, a, b)
    for x, y in ((a, b), (b, a)):
        if isexact(x):
            if cval(x) == 0: return ZERO
            if cval(x) == 1: return y
    if a.id > b.id: a, b = b, a
    if isc(a): a, b = b, a
    if isc(b) and a.op == "*" and isc(a.args[1]): return mul(a.args[0], mul(a.args[1], b))
    return mk("*", a, b)
MONE = const(-1)
def neg(a): return mul(MONE, a)
def sub(a, b):
    if a is b and truthy_kind(a) == "num": return ZERO
    return add(a, neg(b))
def div(a, b):
    a, b = b2i(a), b2i(b)
    if isnumc(a) and isnumc(b) and cval(b) != 0:
        x, y = cval(a), cval(b)
        if isinstance(x, float) or isinstance(y, float): return _cn(float(x) / float(y))
        return const(Fraction(x) / Fraction(y))
    if isexact(b) and cval(b) == 1: return a
    if isexact(a) and cval(a) == 0 and not isc(b): return mk("/", a, b)
    return mk("/", a, b)
def pow_(a, b):
    a, b = b2i(a), b2i(b)
    if isexact(b):
        e = cval(b)
        if e == 1: return a
        if e == 0: return ONE
        if e == Fraction(1, 2): return sqrt(a)
        if isexact(a) and e == int(e) and (cval(a) != 0 or e > 0):
            return const(Fraction(cval(a)) ** int(e)) if not (isinstance(cval(a), int) and e > 0) else const(cval(a) ** int(e))
    if isnumc(a) and isnumc(b):
        try: return _cn(float(cval(a)) ** float(cval(b)))
        except Exception: return UNDEF
    return mk("**", a, b)
def _exsqrt(v):
    v = Fraction(v)
    if v < 0: return None
    n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
    if n * n == v.numerator and d * d == v.denominator: return Fraction(n, d)
    return None
def sqrt(a):
    a = b2i(a)
    if isexact(a):
        r = _exsqrt(cval(a))
        if r is not None: return const(r)
    if isnumc(a) and cval(a) >= 0: return _cn(math.sqrt(float(cval(a))))
    return mk("sqrt", a)
_F1 = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "atan": math.atan, "asin": math.asin,
       "acos": math.acos, "exp": math.exp, "log": math.log}
def fn1(op, a):
    a = b2i(a)
    if isnumc(a):
        v = cval(a)
        if v == 0 and op in ("sin", "tan", "atan", "asin"): return ZERO
        if v == 0 and op in ("cos", "exp"): return ONE
        try: return _cn(_F1[op](float(v)))
        except (ValueError, OverflowError): return UNDEF
    return mk(op, a)
def abs_(a):
    a = b2i(a)
    if isnumc(a): return _cn(abs(cval(a)))
    if a.op in ("abs", "sqrt"): return a
    if a.op == "*" and isnumc(a.args[1]) and cval(a.args[1]) < 0: return abs_(neg(a))
    return mk("abs", a)
def min_(a, b):
    if isnumc(a) and isnumc(b): return a if cval(a) <= cval(b) else b
    if a is b: return a
    if a is INF: return b
    if b is INF: return a
    if a is NINF or b is NINF: return NINF
    if a.id > b.id: a, b = b, a
    return mk("min", a, b)
def max_(a, b):
    if isnumc(a) and isnumc(b): return a if cval(a) >= cval(b) else b
    if a is b: return a
    if a is NINF: return b
    if b is NINF: return a
    if a is INF or b is INF: return INF
    if a.id > b.id: a, b = b, a
    return mk("max", a, b)
def rnd(op, a):
    a = b2i(a)
    if isnumc(a):
        f = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[op]
        try: return const(f(cval(a)))
        except (OverflowError, ValueError): return UNDEF
    if op == "trunc" and a.op in ("floor", "trunc", "ceil", "len"): return a
    if a.op == "s" and a.args[1] == "int": return a
    return mk(op, a)
def round_(a, nd):
    a = b2i(a)
    if isnumc(a):
        v = cval(a)
        if nd is None: return const(round(v))
        r = round(v, nd)
        return const(r) if not isinstance(r, float) else const(r)
    return mk("round", a, NONE if nd is None else const(nd))
def atan2(y, x):
    if isnumc(x) and isnumc(y): return _cn(math.atan2(float(cval(y)), float(cval(x))))
    return mk("atan2", y, x)
def mod(a, b):
    if isexact(a) and isexact(b) and cval(b) != 0: return const(cval(a) % cval(b))
    return mk("mod", a, b)
def fdiv(a, b):
    if isexact(a) and isexact(b) and cval(b) != 0: return const(cval(a) // cval(b))
    return mk("fdiv", a, b)
def sum_(n, body): return mk("sum", n, body) if not (isexact(body) and cval(body) == 0) else ZERO
def any_(n, body):
    if isc(body): return body
    return mk("any", n, body)
def all_(n, body):
    if isc(body): return body
    return mk("all", n, body)
def app(name, kind, *args): return mk("app", name, kind, *args)

def subst(n, m, memo=None):
    """replace nodes by id->node map (rebuilds with constructors)"""
    if memo is None: memo = {}
    def go(x):
        if not isinstance(x, Node): return x
        if x.id in m: return m[x.id]
        r = memo.get(x.id)
        if r is None:
            a = [go(y) for y in x.args]
            r = x if all(p is q for p, q in zip(a, x.args)) else rebuild(x.op, a)
            memo[x.id] = r
        return r
    return go(n)
def rebuild(op, a):
    R = {"+": add, "*": mul, "/": div, "**": pow_, "sqrt": sqrt, "abs": abs_, "min": min_, "max": max_,
         "<": lt, "<=": le, "==": eq, "not": not_, "and": and_, "or": or_, "ite": ite, "sum": sum_,
         "any": any_, "all": all_, "mod": mod, "fdiv": fdiv, "atan2": atan2}
    if op in R: return R[op](*a)
    if op in _F1: return fn1(op, a[0])
    if op in ("floor", "ceil", "trunc"): return rnd(op, a[0])
    if op == "round": return round_(a[0], None if a[1] is NONE else cval(a[1]))
    return mk(op, *a)
def at(n, i):
    """element i (a node) of the index-dependent node n"""
    return n if not n.idx else subst(n, {IDX.id: i})

def syms(n, out=None, seen=None):
    out = set() if out is None else out; seen = set() if seen is None else seen
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, Node) or x.id in seen: continue
        seen.add(x.id)
        if x.op == "s": out.add(x)
        st.extend(x.args)
    return out
def apps(n):
    out = set(); seen = set(); st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, Node) or x.id in seen: continue
        seen.add(x.id)
        if x.op in ("app", "undef", "opaque"): out.add(x)
        st.extend(x.args)
    return out
def consts(n):
    out = set(); seen = set(); st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, Node) or x.id in seen: continue
        seen.add(x.id)
        if isexact(x): out.add(Fraction(cval(x)))
        st.extend(x.args)
    return out
def size(*ns):
    seen = set(); st = list(ns)
    while st:
        x = st.pop()
        if not isinstance(x, Node) or x.id in seen: continue
        seen.add(x.id); st.extend(x.args)
    return len(seen)

def show(n, d=6):
    if not isinstance(n, Node): return str(n)
    o, a = n.op, n.args
    if o == "c":
        v = cval(n)
        if isinstance(v, Fraction):
            f = float(v); return repr(int(v)) + ".0" if v.denominator == 1 else repr(f)
        return repr(v)
    if o == "s": return a[0]
    if o == "idx": return "i"
    if d <= 0: return "…"
    s = lambda x: show(x, d - 1)
    if o in ("+", "*", "/", "**", "<", "<=", "=="): return "(" + f" {o} ".join(s(x) for x in a) + ")"
    if o in ("and", "or"): return "(" + f" {o} ".join(s(x) for x in a) + ")"
    if o == "not": return "not " + s(a[0])
    if o == "ite": return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if o in BINDERS: return f"{o}_i<{s(a[0])}({s(a[1])})"
    if o == "app": return f"{a[0]}(" + ", ".join(s(x) for x in a[2:]) + ")"
    return f"{o}(" + ", ".join(s(x) for x in a) + ")"

# ---------- evaluation at a point
class _Sp:
    def __init__(s, n): s.n = n
    def __repr__(s): return s.n
ERR = _Sp("ERR"); AMB = _Sp("AMB")
_LIM = 1 << 160
def _simp(v):
    if isinstance(v, Fraction) and (v.denominator > _LIM or abs(v.numerator) > (_LIM << 200)): return float(v)
    return v
def near(a, b, rel=1e-9):
    fa, fb = float(a), float(b)
    if math.isinf(fa) or math.isinf(fb): return fa == fb
    return abs(fa - fb) <= rel * (1 + max(abs(fa), abs(fb)))

_cf = {}
def _coef(name, i, seed):
    k = (name, i, seed); r = _cf.get(k)
    if r is None: r = _cf[k] = 0.3 + 1.4 * (int(hashlib.sha256(repr(k).encode()).hexdigest()[:12], 16) % 99991) / 99991
    return r
_TEXT = {"is_float_text", "float_text", "is_int_text", "int_text"}
class Evaluator:
    def __init__(self, env, seed=0):
        self.env = env; self.memo = {}; self.im = {}; self.i = None; self.seed = seed; self.opaque = False
    def __call__(self, n):
        if not isinstance(n, Node): return n
        m = self.memo
        if n.idx:
            m = self.im
        r = m.get(n.id, m)
        if r is not m: return r
        r = self.ev(n)
        if isinstance(r, Fraction): r = _simp(r)
        m[n.id] = r
        return r
    def num(self, n):
        v = self(n)
        if v is ERR or v is AMB: return v
        if isinstance(v, bool): return int(v)
        if isinstance(v, (int, Fraction, float)): return v
        return ERR
    def truth(self, n):
        v = self(n)
        if v is ERR or v is AMB: return v
        if isinstance(v, float): return v != 0
        return bool(v)
    def at_index(self, i, f):
        oi, om = self.i, self.im
        self.i, self.im = i, {}
        try: return f()
        finally: self.i, self.im = oi, om
    def ev(self, n):
        o, a = n.op, n.args
        if o == "c": return cval(n)
        if o == "s":
            v = self.env.get(a[0], self)
            if v is self:
                # whether a list goes on beyond what is looked at: either
                if a[0].startswith("more than ") or " beyond " in a[0]:
                    v = int(hashlib.sha256(repr((a[0], self.seed, sorted((k, str(x)) for k, x in self.env.items() if not (k.startswith("more than ") or " beyond " in k)))).encode()).hexdigest()[:4], 16) % 3 > 0
                    self.env[a[0]] = v
                else: raise KeyError(a[0])
            return v
        if o == "idx": return self.i if self.i is not None else ERR
        if o == "undef": return ERR
        if o == "ite":
            c = self.truth(a[0])
            if c is ERR: return ERR
            if c is AMB:
                x, y = self(a[1]), self(a[2])
                if x is y or (isinstance(x, (int, Fraction, float)) and isinstance(y, (int, Fraction, float)) and near(x, y, 1e-12)): return x
                return AMB
            return self(a[1] if c else a[2])
        if o == "and" or o == "or":
            stop = o == "or"; amb = err = False
            for x in a:
                v = self.truth(x)
                if v is AMB: amb = True
                elif v is ERR: err = True
                elif v == stop: return stop
            return AMB if amb else ERR if err else (not stop)
        if o == "not":
            v = self.truth(a[0])
            return v if v in (ERR, AMB) else not v
        if o in ("+", "*", "/", "min", "max", "<", "<=", "**", "mod", "fdiv", "atan2"):
            x, y = self.num(a[0]), self.num(a[1])
            if o == "*":
                # 0 * error stays an error
                pass
            if x is ERR or y is ERR: return ERR
            if x is AMB or y is AMB: return AMB
            return self.bin(o, x, y)
        if o == "==":
            x, y = self(a[0]), self(a[1])
            if x is ERR or y is ERR: return ERR
            if x is AMB or y is AMB: return AMB
            nx, ny = isinstance(x, (int, Fraction, float)), isinstance(y, (int, Fraction, float))
            if nx and ny:
                if isinstance(x, float) or isinstance(y, float):
                    return AMB if near(x, y) else False
                return x == y
            return nx == ny and x == y
        if o in ("sqrt", "sin", "cos", "tan", "atan", "asin", "acos", "abs", "floor", "ceil", "trunc", "exp", "log", "len"):
            x = self.num(a[0])
            if x is ERR or x is AMB: return x
            return self.un(o, x)
        if o == "round":
            x = self.num(a[0])
            if x is ERR or x is AMB: return x
            nd = cval(a[1])
            if isinstance(x, float):
                s = 10 ** (nd or 0); f = x * s
                if abs(f - math.floor(f) - 0.5) < 1e-6: return AMB
                r = round(x, nd) if nd is not None else round(x)
                return Fraction(repr(r)) if isinstance(r, float) else r
            return round(x, nd) if nd is not None else round(x)
        if o in ("sum", "any", "all", "amax", "amin"):
            k = self.num(a[0])
            if k is ERR or k is AMB: return k
            if k != int(k) or k < 0 or k > 2000: return ERR
            vals = []
            for i in range(int(k)):
                v = self.at_index(i, lambda: self(a[1]))
                vals.append(v)
            if o in ("any", "all"):
                stop = o == "any"; amb = err = False
                for v in vals:
                    if v is ERR: err = True
                    elif v is AMB: amb = True
                    elif bool(v) == stop: return stop
                return AMB if amb else ERR if err else (not stop)
            if any(v is ERR for v in vals): return ERR
            if any(v is AMB for v in vals): return AMB
            if o == "sum":
                t = 0
                for v in vals: t = self.bin("+", t, v)
                return t
            if not vals: return ERR
            t = vals[0]
            for v in vals[1:]: t = self.bin("max" if o == "amax" else "min", t, v)
            return t
        if o == "at":
            i = self.num(a[1]) if len(a) > 1 else ERR
            return ERR if i in (ERR, AMB) else self.at_index(int(i), lambda: self(a[0]))
        if o == "app":
            vs = []
            if (a[0].startswith("str.") or a[0] == "instr") and len(a) > 2:
                ws = [self(x) for x in a[2:]]
                if all(isinstance(x, str) for x in ws):
                    try: return ws[0] in ws[1] if a[0] == "instr" else getattr(ws[0], a[0][4:])(*ws[1:])
                    except (TypeError, ValueError, AttributeError): pass
            if a[0] in _TEXT and len(a) == 3:
                x = self(a[2])
                if isinstance(x, str):
                    try: v = (float if a[0].endswith("float_text") else int)(x)
                    except ValueError: v = None
                    if a[0].startswith("is_"): return v is not None
                    if v is None or v != v or v in (math.inf, -math.inf): return ERR
                    return Fraction(v)
            for x in a[2:]:
                v = self(x)
                if v is ERR: return ERR
                if v is AMB: return AMB
                vs.append(float("%.9g" % v) + 0.0 if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool) else v)
            if a[1] in ("real", "bool", "int"):
                # an unknown but continuous function: rounding in its arguments stays rounding in its value
                t = 0.0
                for i, (x, r) in enumerate(zip([self(x) for x in a[2:]], vs)):
                    if isinstance(x, (int, float, Fraction)) and not isinstance(x, bool): t += _coef(a[0], i, self.seed) * (float(x) if abs(x) < 1e6 else 1e6)
                    else: t += 6.0 * _coef(a[0], i, (self.seed, repr(r)))
                if a[1] == "real" and a[0].startswith("inc:"): return 5 + 3 * math.atan((t - 20) / 15)      # unknown but increasing
                if a[1] == "real" and a[0].startswith("lin:"): return t / 4
                v = math.sin(t + 3 * _coef(a[0], -1, self.seed))
                if a[1] == "bool": return AMB if abs(v) < 1e-7 else v > 0
                if a[1] == "real" and a[0].startswith("narrow:"): return 1.3 + 0.012 * v + 0.001 * math.sin(3.7 * t)      # values close together
                if a[1] == "real" and a[0].startswith("wide:"):      # nothing, hardly anything, a lot
                    return (0, 1e-7 * (1 + v * v), 0.4 + 0.3 * v, 1.5 + 0.4 * v, 40 + 30 * v, 3e3 + 2e3 * v, 1e8 * (2 + v))[int(hashlib.sha256(repr((a[0], self.seed, vs)).encode()).hexdigest()[:6], 16) % 7]
                v = 5.0 + 4.6 * v + 0.35 * math.sin(3.7 * t)
                if a[1] == "int": return AMB if near(v, round(v)) else math.floor(v) % 7
                return v
            h = int(hashlib.sha256(repr((a[0], self.seed, vs)).encode()).hexdigest()[:12], 16)
            if a[1] == "str": return "s%d" % (h % 1000)
            return "v%d" % (h % 100000)
        if o in ("tofloat",):
            return self(a[0])
        if o in ("tuple", "strcat", "fmt", "list"):
            vs = [self(x) for x in a]
            if any(v is ERR for v in vs): return ERR
            if any(v is AMB for v in vs): return AMB
            return (o,) + tuple(vs)
        raise NotImplementedError(o)
    def bin(self, o, x, y):
        fl = isinstance(x, float) or isinstance(y, float)
        try:
            if fl:
                # an exact 0 stays exact
                if (x == 0 and not isinstance(x, float) and o in ("*", "/") and math.isfinite(y) and (o == "*" or y != 0)) or (y == 0 and not isinstance(y, float) and o == "*" and math.isfinite(x)): return 0
                if o in ("min", "max") and (x == 0 or y == 0) and not near(x, y): return min(x, y) if o == "min" else max(x, y)
                x, y = float(x), float(y)
            if o == "+": return x + y
            if o == "*": return x * y
            if o == "/":
                if y == 0: return ERR
                if fl:
                    return x / y
                return Fraction(x) / Fraction(y)
            if o == "min": return min(x, y)
            if o == "max": return max(x, y)
            if o == "<" or o == "<=":
                if fl and near(x, y): return AMB
                return x < y if o == "<" else x <= y
            if o == "**":
                if not fl and y == int(y): return Fraction(x) ** int(y) if (x != 0 or y > 0) else ERR
                if not fl and y == Fraction(1, 2):
                    r = _exsqrt(x)
                    if r is not None: return r
                r = float(x) ** float(y)
                return ERR if isinstance(r, complex) else r
            if o == "mod":
                if y == 0: return ERR
                if fl:
                    r = x % y
                    return AMB if near(r, 0, 1e-9) or near(r, y, 1e-9) else r
                return x % y
            if o == "fdiv":
                if y == 0: return ERR
                if fl:
                    q = x / y
                    return AMB if abs(q - round(q)) < 1e-9 else math.floor(q)
                return x // y
            if o == "atan2": return math.atan2(float(x), float(y))
        except (OverflowError, ZeroDivisionError): return ERR
    def un(self, o, x):
        try:
            if o == "abs": return abs(x)
            if o == "len": return x
            if o in ("floor", "ceil", "trunc"):
                if isinstance(x, float) and (math.isinf(x) or math.isnan(x)): return ERR
                if isinstance(x, float) and abs(x - round(x)) < 1e-9: return AMB
                return {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[o](x)
            if o == "sqrt":
                if not isinstance(x, float):
                    if x < 0: return ERR
                    r = _exsqrt(x)
                    if r is not None: return r
                x = float(x)
                if x < 0: return AMB if x > -1e-9 else ERR
                return math.sqrt(x)
            if x == 0 and o in ("sin", "tan", "atan", "asin"): return 0
            if x == 0 and o in ("cos", "exp"): return 1
            return _F1[o](float(x))
        except (ValueError, OverflowError): return ERR
