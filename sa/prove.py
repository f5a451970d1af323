"""Canonical forms of value numbers.

A value is put into a decision diagram over canonical comparison atoms whose
leaves are Laurent polynomials; two values are equal when the diagram of their
difference has only zero leaves on branches that linear bounds (Fourier-Motzkin
elimination over the atoms of the branch) leave possible."""
import math
from fractions import Fraction
from . import terms as T
from .terms import Node, mk, const, TRUE, FALSE, isc, cval, truthy_kind

class GiveUp(Exception): pass

def q12(x):
    if isinstance(x, Fraction):
        if x.denominator < 10**15 and abs(x.numerator) < 10**18: return x
    if x == 0: return Fraction(0)
    f = float(x)
    if math.isinf(f) or math.isnan(f): raise GiveUp("non-finite constant")
    return Fraction(f"{f:.13e}")

class Prover:
    def __init__(self, budget=60000, expand=False):
        self.memo = {}; self.budget = budget; self.ops = 0; self.expand = expand
        self.am = {}; self.atoms = {}
    def tick(self):
        self.ops += 1
        if self.ops > self.budget: raise GiveUp("budget")
    # ---- polynomials: frozenset-like sorted tuple of (mono, coef); mono: sorted tuple of (atom_id, exp)
    def P(self, d):
        items = tuple(sorted((m, c) for m, c in d.items() if c != 0))
        return mk("poly", items)
    def cst(self, c): return self.P({(): q12(Fraction(c) if not isinstance(c, float) else Fraction(repr(c)))}) if c != 0 else self.P({})
    def d(self, p): return dict(p.args[0])
    def atom(self, n):
        self.atoms[n.id] = n
        return self.P({((n.id, 1),): Fraction(1)})
    def padd(self, p, q, s=1):
        d = self.d(p)
        for m, c in q.args[0]:
            v = d.get(m, 0) + s * c
            if v != 0 and m in d and abs(v) < Fraction(1, 10**11) * max(abs(c), abs(d[m])): v = 0
            d[m] = v
        return self.P(d)
    def mmul(self, a, b):
        d = dict(a)
        for k, e in b: d[k] = d.get(k, 0) + e
        return tuple(sorted((k, e) for k, e in d.items() if e))
    def pmul(self, p, q):
        if len(p.args[0]) * len(q.args[0]) > 400: raise GiveUp("product")
        d = {}
        for m1, c1 in p.args[0]:
            for m2, c2 in q.args[0]:
                m = self.mmul(m1, m2); d[m] = d.get(m, 0) + q12(c1 * c2)
        return self.reduce(d)
    def reduce(self, d):
        """sqrt(p)^2 -> p"""
        again = True
        while again:
            again = False
            for m in list(d):
                for k, e in m:
                    a = self.atoms.get(k)
                    if a is not None and a.op == "sqrtp" and (e >= 2 or e <= -1 and False):
                        c = d.pop(m)
                        rest = tuple((kk, ee if kk != k else e - 2) for kk, ee in m if not (kk == k and e == 2))
                        for m2, c2 in a.args[0].args[0]:
                            mm = self.mmul(rest, m2); d[mm] = d.get(mm, 0) + q12(c * c2)
                        again = True; break
                if again: break
        return self.P(d)
    def pinv(self, p):
        if not p.args[0]: raise GiveUp("1/0")
        if len(p.args[0]) == 1:
            m, c = p.args[0][0]
            # 1/sqrt(p) = sqrt(p)/p kept as exponent -1
            return self.P({tuple((k, -e) for k, e in m): q12(1 / c)})
        lead = p.args[0][0][1]
        mon = self.P({m: q12(c / lead) for m, c in p.args[0]})
        n = mk("pden", mon); self.atoms[n.id] = n
        return self.P({((n.id, -1),): q12(1 / lead)})
    # ---- decision diagrams
    def leafbool(self, b): return TRUE if b else FALSE
    def node(self, v, hi, lo):
        if hi is lo: return hi
        self.tick()
        return mk("dd", v, hi, lo)
    def order(self, v): return (v.args[0].id, 0 if v.op == "nn" else 1) if v.op in ("nn", "ps") else (v.id, 2)
    def top(self, *fs):
        best = None
        for f in fs:
            if f.op == "dd" and (best is None or self.order(f.args[0]) < self.order(best)): best = f.args[0]
        return best
    def cof(self, f, v, val):
        if f.op != "dd": return f
        w = f.args[0]
        if w is v: return f.args[1] if val else f.args[2]
        # pos implies nonneg
        if v.op == "nn" and not val and w.op == "ps" and w.args[0] is v.args[0]: return f.args[2]
        return f
    def apply(self, op, key, *fs):
        k = (key,) + tuple(f.id for f in fs)
        r = self.am.get(k)
        if r is not None: return r
        v = self.top(*fs)
        if v is None: r = op(*fs)
        else:
            self.tick()
            r = self.node(v, self.apply(op, key, *[self.cof(f, v, True) for f in fs]),
                          self.apply(op, key, *[self.cof(f, v, False) for f in fs]))
        self.am[k] = r
        return r
    def ite(self, c, a, b):
        if c is TRUE: return a
        if c is FALSE: return b
        if a is b: return a
        return self.apply(self._ite3, "ite", c, a, b)
    def _ite3(self, c, a, b): return a if c is TRUE else b
    def cmp0(self, p, strict):
        """diagram of p > 0 (strict) or p >= 0 for a polynomial leaf"""
        if not p.args[0]: return FALSE if strict else TRUE
        if len(p.args[0]) == 1 and p.args[0][0][0] == ():
            c = p.args[0][0][1]
            return TRUE if c > 0 else FALSE
        lead = [c for m, c in p.args[0] if m != ()][0]
        s = abs(lead)
        pn = self.P({m: q12(c / s) for m, c in p.args[0]})
        if lead > 0:
            return self.mkatom(mk("ps" if strict else "nn", pn))
        pm = self.P({m: q12(c / lead) for m, c in p.args[0]})
        # p > 0  <=> -pm > 0 <=> not (pm >= 0)
        return self.neg(self.mkatom(mk("nn" if strict else "ps", pm)))
    def mkatom(self, v):
        if v.op == "ps":
            nn = mk("nn", v.args[0])
            return self.node(nn, self.node(v, TRUE, FALSE), FALSE)
        return self.node(v, TRUE, FALSE)
    def neg(self, f): return self.apply(lambda x: TRUE if x is FALSE else FALSE, "not", f)
    # ---- canonical form
    def canon(self, n):
        r = self.memo.get(n.id)
        if r is None:
            self.tick()
            r = self.go(n); self.memo[n.id] = r
        return r
    def num(self, n):
        r = self.canon(n)
        return self.asnum(r)
    def asnum(self, r):
        def f(x):
            if x.op == "poly": return x
            if x is TRUE: return self.cst(1)
            if x is FALSE: return self.cst(0)
            raise GiveUp("non-numeric " + x.op)
        return self.apply(f, "num", r)
    def asbool(self, r):
        def f(x):
            if x is TRUE or x is FALSE: return x
            if x.op == "poly":
                if not x.args[0]: return FALSE
                return self.neg(self.zero(x))
            return self.node(mk("tr", x), TRUE, FALSE)
        return self.apply(f, "bool", r)
    def zero(self, p):
        a = self.cmp0(p, False); b = self.cmp0(p, True)
        return self.ite(b, FALSE, a)
    def un(self, op, f):
        def g(p):
            x = f(p)
            return x
        return g
    def fatom(self, op, *leaves):
        return self.atom(mk(op, *leaves))
    def go(self, n):
        o, a = n.op, n.args
        if o == "c":
            if a[0] in "iq": return self.P({(): q12(Fraction(cval(n)))}) if cval(n) != 0 else self.P({})
            if a[0] == "x": return self.cst(float(cval(n)))
            if a[0] == "b": return n
            if a[0] == "f":
                return self.atom(n)
            return n
        if o == "s":
            if a[1] in ("real", "int"): return self.atom(n)
            if a[1] == "bool": return self.node(mk("bv", n), TRUE, FALSE)
            return n
        if o == "idx": return self.atom(n)
        if o == "undef": return n
        ap = self.apply
        if o == "+": return ap(self.padd, "+", self.num(a[0]), self.num(a[1]))
        if o == "*": return ap(self.pmul, "*", self.num(a[0]), self.num(a[1]))
        if o == "/": return ap(lambda p, q: self.pmul(p, self.pinv(q)), "/", self.num(a[0]), self.num(a[1]))
        if o == "**":
            if T.isexact(a[1]) and cval(a[1]) == int(cval(a[1])) and abs(cval(a[1])) <= 4:
                k = int(cval(a[1]))
                def pw(p):
                    r = self.cst(1)
                    for _ in range(abs(k)): r = self.pmul(r, p)
                    return r if k >= 0 else self.pinv(r)
                return ap(pw, "**%d" % k, self.num(a[0]))
            return ap(lambda p, q: self.fatom("powp", p, q), "powp", self.num(a[0]), self.num(a[1]))
        if o == "sqrt": return ap(self.psqrt, "sqrt", self.num(a[0]))
        if o in ("sin", "cos", "tan"): return ap(lambda p: self.ptrig(o, p), o, self.num(a[0]))
        if o in ("atan", "asin", "acos", "exp", "log", "floor", "ceil", "trunc"):
            return ap(lambda p: self.fatom(o + "p", p), o, self.num(a[0]))
        if o == "abs":
            x = self.num(a[0])
            if self.expand: return ap(lambda p: self.ite(self.cmp0(p, False), p, self.pscale(p, -1)), "absx", x)
            def ab(p):
                if not p.args[0]: return p
                if p.args[0][0][1] < 0: p = self.pscale(p, -1)
                if len(p.args[0]) == 1 and p.args[0][0][0] == (): return p
                return self.fatom("absp", p)
            return ap(ab, "abs", x)
        if o in ("min", "max"):
            x, y = self.num(a[0]), self.num(a[1])
            if self.expand:
                return ap(lambda p, q: self.ite(self.cmp0(self.padd(q, p, -1), False), p if o == "min" else q, q if o == "min" else p), o + "x", x, y)
            def mm(p, q):
                if p is q: return p
                c = self.cmp0(self.padd(q, p, -1), False)
                if c is TRUE: return p if o == "min" else q
                if c is FALSE: return q if o == "min" else p
                xs = []
                for z in (p, q):
                    t = self.single_atom(z)
                    if t is not None and t.op == o + "p": xs += list(t.args)
                    else: xs.append(z)
                xs = sorted(set(xs), key=lambda z: z.id)
                return self.fatom(o + "p", *xs)
            return ap(mm, o, x, y)
        if o in ("<", "<="):
            return ap(lambda p, q: self.cmp0(self.padd(q, p, -1), o == "<"), o, self.num(a[0]), self.num(a[1]))
        if o == "==":
            x, y = self.canon(a[0]), self.canon(a[1])
            def e(p, q):
                if p.op == "poly" or q.op == "poly":
                    if p.op != "poly" or q.op != "poly":
                        if {p, q} & {TRUE, FALSE}:
                            return self.zero(self.padd(self.asnum(p), self.asnum(q), -1))
                        return FALSE if (isc(p) or isc(q)) else self.node(mk("eqv", *sorted((p, q), key=lambda z: z.id)), TRUE, FALSE)
                    return self.zero(self.padd(p, q, -1))
                if p is q: return TRUE
                if isc(p) and isc(q): return FALSE
                return self.node(mk("eqv", *sorted((p, q), key=lambda z: z.id)), TRUE, FALSE)
            return ap(e, "==", x, y)
        if o == "not": return self.neg(self.asbool(self.canon(a[0])))
        if o == "and":
            r = TRUE
            for x in a: r = self.ite(self.asbool(self.canon(x)), r, FALSE)
            return r
        if o == "or":
            r = FALSE
            for x in a: r = self.ite(self.asbool(self.canon(x)), TRUE, r)
            return r
        if o == "ite": return self.ite(self.asbool(self.canon(a[0])), self.canon(a[1]), self.canon(a[2]))
        if o == "sum":
            k = self.num(a[0]); b = self.num(a[1])
            if b.op == "poly" and k.op == "poly": return self.psum(k, b)
            return self.atom(mk("sumd", k, b))
        if o in ("any", "all"):
            k = self.num(a[0]); b = self.asbool(self.canon(a[1]))
            if o == "all": return self.neg(self.node(mk("anyd", k, self.neg(b)), TRUE, FALSE)) if not (b in (TRUE, FALSE)) else b
            return b if b in (TRUE, FALSE) else self.node(mk("anyd", k, b), TRUE, FALSE)
        if o in ("amax", "amin", "at"):
            return self.atom(mk(o + "d", *[self.canon(x) for x in a]))
        if o == "round": return ap(lambda p: self.fatom("roundp", p, a[1]), "round" + repr(a[1]), self.num(a[0]))
        if o in ("mod", "fdiv", "atan2"): return ap(lambda p, q: self.fatom(o + "p", p, q), o, self.num(a[0]), self.num(a[1]))
        if o == "app":
            xs = [self.canon(x) if isinstance(x, Node) else x for x in a[2:]]
            n2 = mk("app", a[0], a[1], *xs)
            if a[1] in ("real", "int"): return self.atom(n2)
            if a[1] == "bool": return self.node(mk("bv", n2), TRUE, FALSE)
            return n2
        if o in ("fmt", "strcat", "tuple", "list"): return mk(o, *[self.canon(x) if isinstance(x, Node) else x for x in a])
        raise GiveUp("op " + o)
    def pscale(self, p, s): return self.P({m: c * s for m, c in p.args[0]})
    def single_atom(self, p):
        if len(p.args[0]) == 1:
            m, c = p.args[0][0]
            if c == 1 and len(m) == 1 and m[0][1] == 1: return self.atoms.get(m[0][0])
        return None
    def psqrt(self, p):
        if not p.args[0]: return p
        if len(p.args[0]) == 1:
            m, c = p.args[0][0]
            r = T._exsqrt(c) if c > 0 else None
            if r is not None and m == (): return self.cst(r)
        # pull out content scaling: sqrt(c*p1) = sqrt(c) sqrt(p1)
        c = abs(p.args[0][0][1])
        r = T._exsqrt(c)
        if r is not None and r != 1:
            return self.pscale(self.fatom("sqrtp", self.P({m: q12(x / c) for m, x in p.args[0]})), r)
        return self.fatom("sqrtp", p)
    def ptrig(self, o, p):
        t = self.single_atom(p)
        sgn = 1
        if t is None and len(p.args[0]) == 1 and p.args[0][0][1] == -1:
            t = self.single_atom(self.pscale(p, -1)); sgn = -1
        if t is not None and t.op == "atanp":
            x = t.args[0]
            h = self.psqrt(self.padd(self.cst(1), self.pmul(x, x)))
            if o == "tan": return self.pscale(x, sgn)
            inv = self.pinv(h)
            return inv if o == "cos" else self.pscale(self.pmul(x, inv), sgn)
        if p.args[0] and p.args[0][0][1] < 0:
            q = self.pscale(p, -1)
            return self.fatom("cosp", q) if o == "cos" else self.pscale(self.fatom(o + "p", q), -1)
        return self.fatom(o + "p", p)
    def psum(self, k, b):
        out = self.P({})
        for m, c in b.args[0]:
            inn = tuple((i, e) for i, e in m if self.has_idx(i)); outm = tuple((i, e) for i, e in m if not self.has_idx(i))
            if not inn: t = self.pmul(k, self.P({outm: c}))
            else:
                t = self.pmul(self.fatom("sump", k, self.P({inn: Fraction(1)})), self.P({outm: c}))
            out = self.padd(out, t)
        return out
    def has_idx(self, i):
        r = self.memo.get(("idx", i))
        if r is None:
            r = self._hi(self.atoms[i]); self.memo[("idx", i)] = r
        return r
    def _hi(self, n):
        if n.op == "idx": return True
        if n.op in ("sump", "sumd", "anyd"): return self._hi(n.args[0])
        if n.op == "poly": return any(self.has_idx(k) for m, _ in n.args[0] for k, e in m)
        return any(self._hi(x) for x in n.args if isinstance(x, Node))
    # ---- linear bounds over the atoms of a branch
    def feasible(self, cons):
        """cons: list of (poly, strict) meaning poly > 0 / poly >= 0; False only when contradictory"""
        rows = []
        for p, s in cons:
            d = {m: c for m, c in p.args[0] if m != ()}
            k = dict(p.args[0]).get((), Fraction(0))
            rows.append((d, k, s))
            # facts about atoms in these polynomials
        seen = set()
        for d, k, s in list(rows):
            for m in d:
                if m in seen: continue
                seen.add(m)
                if len(m) == 1 and m[0][1] == 1:
                    a = self.atoms.get(m[0][0])
                    if a is not None:
                        if a.op in ("sqrtp", "absp"): rows.append(({m: Fraction(1)}, Fraction(0), False))
                        if a.op in ("maxp", "minp"):
                            sg = 1 if a.op == "maxp" else -1
                            for q in a.args:
                                dd = {m: Fraction(sg)}; kk = Fraction(0)
                                for m2, c2 in q.args[0]:
                                    if m2 == (): kk -= sg * c2
                                    else: dd[m2] = dd.get(m2, 0) - sg * c2
                                rows.append((dd, kk, False))
                elif len(m) == 1 and m[0][1] % 2 == 0: rows.append(({m: Fraction(1)}, Fraction(0), False))
        return self.fm(rows)
    def fm(self, rows):
        n = 0
        while True:
            live = []
            for d, k, s in rows:
                d = {m: c for m, c in d.items() if c != 0}
                if not d:
                    if k < 0 or (s and k <= 0): return False
                    continue
                live.append((d, k, s))
            if not live: return True
            vs = {}
            for d, k, s in live:
                for m, c in d.items():
                    p, q = vs.get(m, (0, 0)); vs[m] = (p + (c > 0), q + (c < 0))
            v = min(vs, key=lambda m: vs[m][0] * vs[m][1] - vs[m][0] - vs[m][1])
            pos = [r for r in live if r[0].get(v, 0) > 0]; neg = [r for r in live if r[0].get(v, 0) < 0]
            rest = [r for r in live if not r[0].get(v, 0)]
            if len(pos) * len(neg) + len(rest) > 400: return True
            for d1, k1, s1 in pos:
                for d2, k2, s2 in neg:
                    a, b = d1[v], -d2[v]
                    d = {}
                    for m, c in d1.items():
                        if m != v: d[m] = d.get(m, 0) + c * b
                    for m, c in d2.items():
                        if m != v: d[m] = d.get(m, 0) + c * a
                    rest.append((d, k1 * b + k2 * a, s1 or s2))
            rows = rest; n += 1
            if n > 60: return True
    # ---- queries
    def paths(self, f, cons, out, limit):
        if len(out) > limit: raise GiveUp("paths")
        if f.op != "dd": out.append((f, list(cons))); return
        v = f.args[0]
        for val, sub in ((True, f.args[1]), (False, f.args[2])):
            if v.op in ("nn", "ps"):
                p = v.args[0]
                if val: c = (p, v.op == "ps")
                else: c = (self.pscale(p, -1), v.op == "nn")
                self.paths(sub, cons + [c], out, limit)
            else: self.paths(sub, cons + [(v, val)], out, limit)
    def possible(self, cons):
        lin = [c for c in cons if c[0].op == "poly"]
        oth = {}
        for v, val in cons:
            if v.op != "poly":
                if oth.setdefault(v.id, val) != val: return False
        return self.feasible(lin)
    def is_zero(self, p):
        """zero after clearing composite denominators"""
        if not p.args[0]: return True
        dens = {}
        for m, c in p.args[0]:
            for k, e in m:
                a = self.atoms.get(k)
                if a is not None and a.op in ("pden",) and e < 0: dens[k] = max(dens.get(k, 0), -e)
                if a is not None and a.op == "sqrtp" and e < 0: dens[k] = max(dens.get(k, 0), -e + (-e) % 2)
        if not dens: return False
        tot = self.P({})
        for m, c in p.args[0]:
            t = self.P({(): c})
            left = dict(dens)
            for k, e in m:
                if k in left: left[k] += e
                else: t = self.pmul(t, self.P({((k, e),): Fraction(1)}))
            for k, e in left.items():
                a = self.atoms[k]
                if a.op == "pden":
                    for _ in range(e): t = self.pmul(t, a.args[0])
                else:
                    if e: t = self.pmul(t, self.P({((k, e),): Fraction(1)}))
            tot = self.padd(tot, t)
        if not tot.args[0]: return True
        return False
    def equal(self, a, b, pc=()):
        x, y = self.canon(a), self.canon(b)
        if x is y: return True
        def dif(p, q):
            if p is q: return self.cst(0)
            if p.op == "poly" and q.op == "poly":
                r = self.padd(p, q, -1)
                return self.cst(0) if self.is_zero(r) else r
            if {p, q} <= {TRUE, FALSE}: return self.cst(1)
            if p.op == "undef" or q.op == "undef": return self.cst(1)
            if (p.op == "poly") != (q.op == "poly") and {p, q} & {TRUE, FALSE}:
                r = self.padd(self.asnum(p), self.asnum(q), -1); return r
            return self.cst(1)
        d = self.apply(dif, "dif", x, y)
        if d.op == "poly" and not d.args[0]: return True
        pcd = TRUE
        for c in pc: pcd = self.ite(pcd, self.asbool(self.canon(c)), FALSE)
        d = self.ite(pcd, d, self.cst(0))
        out = []
        self.paths(d, [], out, 600)
        for leaf, cons in out:
            if leaf.op == "poly":
                if not leaf.args[0]: continue
                if self.possible(cons + [(leaf, True)]) or self.possible(cons + [(self.pscale(leaf, -1), True)]): return False
            elif self.possible(cons): return False
        return True
    def valid(self, c, pc=()):
        """c holds wherever pc does"""
        x = self.asbool(self.canon(c))
        if x is TRUE: return True
        pcd = TRUE
        for p in pc: pcd = self.ite(pcd, self.asbool(self.canon(p)), FALSE)
        d = self.ite(pcd, self.neg(x), FALSE)
        if d is FALSE: return True
        out = []
        self.paths(d, [], out, 600)
        return not any(leaf is TRUE and self.possible(cons) for leaf, cons in out)

def slices(seed, pc):
    """smaller sets of premises sharing the inputs of the goal (sound: fewer premises)"""
    pc = list(pc)
    out = []
    if not seed and pc: seed = T.syms(pc[-1])
    one = [c for c in pc if T.syms(c) <= seed]
    if len(one) < len(pc): out.append(one)
    s2 = set(seed)
    for c in pc:
        if T.syms(c) & seed: s2 |= T.syms(c)
    two = [c for c in pc if T.syms(c) <= s2]
    if len(one) < len(two) < len(pc): out.append(two)
    out.append(pc)
    return out
def equal(a, b, pc=(), budget=40000):
    if a is b: return "value-number"
    for ex in (False, True):
        for use in (() , pc):
            if use == () and not pc: pass
            try:
                if Prover(budget, ex).equal(a, b, use): return "normal-form" if not ex else "case-form"
            except (GiveUp, RecursionError, OverflowError): pass
            if not pc: break
    return None
def valid(c, pc=(), budget=40000):
    if c is TRUE: return "value-number"
    for ps in slices(T.syms(c), pc):
        for ex in (False, True):
            try:
                if Prover(budget, ex).valid(c, ps): return "linear-bounds"
            except (GiveUp, RecursionError, OverflowError): pass
    return None
