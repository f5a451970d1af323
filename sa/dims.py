"""Dimension inference over value numbers.

A dimension is (length, force, degree) exponents.  Plain numbers take any dimension in
sums and comparisons (they are tolerances, clamps and defaults) and none in products,
except the unit weight of water (force/length^3) and pi/180 (1/degree).
Unknown dimensions (None) never conflict.
"""
import math
from fractions import Fraction
from . import terms as T
F = Fraction
ANY = "*"
ONE = (F(0), F(0), F(0))
def D(l=0, f=0, d=0): return (F(l), F(f), F(d))
LEN, DEG = D(1), D(0, 0, 1)
PRESSURE, LINE, WEIGHT = D(-2, 1), D(-1, 1), D(-3, 1)
NAMES = {ONE: "number", LEN: "length", D(2): "length^2", DEG: "angle in degrees", PRESSURE: "pressure", LINE: "force per length", WEIGHT: "unit weight", D(0, 1): "force"}
def name(d):
    if d in (None, ANY): return "any"
    if d in NAMES: return NAMES[d]
    return " ".join(f"{n}^{e}" for n, e in zip(("length", "force", "degree"), d) if e) or "number"
RAD = math.pi / 180
def _const(v, factor):
    """dimension of a literal factor of a product"""
    if isinstance(v, bool) or not isinstance(v, (int, float, Fraction)): return None
    x = float(v)
    if x == 0: return ANY
    for c, d in ((9.81, WEIGHT), (9.80665, WEIGHT), (9.807, WEIGHT), (RAD, D(0, 0, -1)), (1 / RAD, DEG)):
        for k in (1, 2, 0.5, 4, 0.25):
            if abs(abs(x) - c * k) < 1e-9 * c: return d
    return ONE

class Dims:
    def __init__(self, table, origin=None, apps=None):
        self.table = table; self.memo = {}; self.conflicts = []; self.origin = origin or {}; self.checked = 0; self.apps = apps or {}
    def conflict(self, n, what, a, b):
        # a part that conflicts already has an unknown dimension; it is reported once
        self.conflicts.append((n, what, a, b, self.origin.get(n.id)))
        return None
    def unify(self, n, what, ds):
        self.checked += 1
        known = [d for d in ds if d not in (None, ANY)]
        for d in known[1:]:
            if d != known[0]: return self.conflict(n, what, known[0], d)
        if known: return known[0] if None not in ds or True else None
        return None if None in ds else ANY
    def of(self, n):
        """dimension of a value number; every operation below it is checked once"""
        stack = [n]
        while stack:
            x = stack[-1]
            if x.id in self.memo: stack.pop(); continue
            todo = [a for a in x.args if isinstance(a, T.Node) and a.id not in self.memo]
            if todo: stack.extend(todo); continue
            self.memo[x.id] = self.rule(x); stack.pop()
        return self.memo[n.id]
    def rule(self, n):
        op = n.op; d = [self.memo[a.id] if isinstance(a, T.Node) else None for a in n.args]
        if op == "c": return ANY if n.args[0] in "iqfx" else None if n.args[0] in "bsye" else ANY
        if op == "s": return self.table.get(n.args[0])
        if op == "idx": return ONE
        if op == "+": return self.unify(n, "added to", d)
        if op in ("min", "max"): return self.unify(n, "compared with", d)
        if op in ("<", "<=", "=="): self.unify(n, "compared with", d); return None
        if op == "ite": return self.unify(n, "an alternative of", d[1:3])
        if op in ("not", "and", "or", "any", "all"): return None
        if op in ("*", "/"):
            self.checked += 1
            e = []
            for a, x in zip(n.args, d):
                if T.isnumc(a): x = _const(T.cval(a), n)
                elif x is ANY: x = ONE
                e.append(x)
            # pi in a product with degrees (divided by 180 in another step)
            if op == "*" and T.isnumc(n.args[1]) and e[0] not in (None, ANY) and e[0][2] == 1 and e[1] == ONE and any(abs(float(T.cval(n.args[1])) / math.pi * k - 1) < 1e-12 for k in (1, -1, 360, 90, 0.5, 2)): e[1] = D(0, 0, -1)
            if None in e: return None
            if ANY in e: return ANY
            s = 1 if op == "*" else -1
            return tuple(p + s * q for p, q in zip(*e))
        if op == "**":
            self.checked += 1
            if d[0] in (None, ANY): return d[0]
            if T.isnumc(n.args[1]): return tuple(p * F(T.cval(n.args[1])).limit_denominator(100) for p in d[0])
            if d[1] not in (None, ANY, ONE): return self.conflict(n, "the exponent of", d[1], d[0])
            return ONE if d[0] == ONE else None
        if op == "sqrt":
            return d[0] if d[0] in (None, ANY) else tuple(p / 2 for p in d[0])
        if op in ("sin", "cos", "tan", "asin", "acos", "atan", "exp", "log"):
            self.checked += 1
            if d[0] not in (None, ANY, ONE): return self.conflict(n, f"the argument of {op}, not", d[0], ONE)
            return ONE
        if op == "atan2":
            if self.unify(n, "divided by", d) is None: return None
            return ONE
        if op in ("abs", "floor", "ceil", "trunc", "round"): return d[0]
        if op == "fdiv":
            if None in d or ANY in d: return None
            return tuple(p - q for p, q in zip(d[0], d[1]))
        if op == "mod": return self.unify(n, "divided by", d)
        if op in ("sum", "amax", "amin"): return d[1]
        if op == "at": return d[0]
        if op == "app": return self.apps.get(n.args[0])
        return None
