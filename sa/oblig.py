"""Obligations: decide, certify, report, write evidence.

PROVED   value numbers, canonical forms or linear bounds coincide.
REFUTED  they differ and an assignment of the inputs, admissible under the facts of
         the point, certifies that the extracted expressions really differ.
UNKNOWN  neither; never reported as a violation, counted in the evidence."""
import json, os, sys, time, random, hashlib, math
from fractions import Fraction
from . import terms as T, prove
from .terms import Node, TRUE, FALSE, NONE, and_, not_, isc, cval
from .values import Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

DOM = {
    "height": ["1", "2", "3", "3.5", "5", "7.25", "10", "0.5", "20"],
    "length": ["0", "1", "2", "3", "4.5", "5", "8", "12", "20", "0.0005"],
    "angle": ["10", "20", "30", "45", "60", "75", "90", "33.7"],
    "uw": ["1", "17", "18.5", "20", "22", "50"],
    "phi": ["0", "20", "30", "35", "42.5"],
    "coh": ["0", "2", "5", "10", "-3", "25"],
    "depth": ["0", "0.5", "1", "2", "3", "4", "5.5", "6", "8", "12", "-2", "40"],
    "q": ["0", "5", "10", "20", "-15", "100", "0.4"],
    "off": ["0", "0.5", "1", "2", "3", "-1", "6", "9", "25"],
    "len": ["0", "1", "2", "3", "-2", "5", "0.25"],
    "p": ["0", "10", "25", "-40", "100", "0.4"],
    "wd": ["0", "0.5", "1", "2", "3", "5", "7", "9", "30"],
    "H": ["0", "0.3", "0.5", "1", "1.5", "-0.2", "0.999"],
    "x": ["0", "1", "2.5", "4", "5", "6", "7.75", "9", "11", "15", "-1", "30", "0.005"],
    "n": ["10", "11", "12", "25"],
    "r": ["1", "2", "5", "6.5", "9", "10", "12"],
    "fos": ["0", "0.5", "0.97", "1", "1.3", "1.55", "2", "2.45", "3.14", "4.96", "5", "5.04", "7"],
    "tol": ["0.005", "0.0001", "0.1", "0", "1"],
    "any": ["0", "1", "2", "3", "5", "0.5", "-1", "10", "100", "-2.5", "90", "500", "50", "1000"],
}
DOM = {k: [Fraction(x) for x in v] for k, v in DOM.items()}

def dom_of(s):
    name, kind = s.args
    if kind == "bool": return [True, False]
    if kind == "str": return ["", "a", "b"]
    b = name.split("#")[0].rstrip("0123456789'")
    c = DOM.get(b, DOM["any"])
    if kind == "int": c = [int(x) for x in c if x.denominator == 1] or [1, 2, 10]
    return c

class Samples:
    def __init__(self, syms, pc, seed=1, n=60, dom=None, tries=None, seedtag=""):
        self.rng = random.Random(f"{seed}/{seedtag}")
        self.pc = [c for c in pc if c is not TRUE]
        syms = set(syms)
        for c in self.pc: syms |= T.syms(c)
        self.syms = sorted(syms, key=lambda s: s.id)
        self.dom = dom or {}
        self.n = n
        self.evs = []
        self.tries = tries or n * 40
        self.probed = set()
        self._fill()
    def value(self, s):
        d = self.dom.get(s.args[0])
        if d is None: d = dom_of(s)
        if callable(d): return d(self.rng)
        v = self.rng.choice(d)
        if s.args[1] == "real" and self.rng.random() < 0.25 and isinstance(v, Fraction):
            v = v + Fraction(self.rng.randint(-40, 40), 100)
            if self.rng.random() < 0.4: v = v + Fraction(self.rng.randint(1, 99), 10007)
        return v
    def env(self): return {s.args[0]: self.value(s) for s in self.syms}
    def admit(self, env):
        e = T.Evaluator(env)
        for c in self.pc:
            if e.truth(c) is not True: return None
        return e
    def _fill(self):
        """admissible assignments: independent draws, every other one repaired step by step
        (an input of the first failing condition is drawn again)"""
        k = cost = 0
        t0 = time.time()
        cs = []
        st = list(reversed(self.pc))
        while st:
            c = st.pop()
            if c.op == "and": st.extend(reversed(c.args))
            elif c.op == "not" and c.args[0].op == "or": st.extend(not_(a) for a in reversed(c.args[0].args))
            else: cs.append(c)
        self.fails = {}
        vs = {}
        byname = {s.args[0]: s for s in self.syms}
        while len(self.evs) < self.n and k < self.tries and time.time() - t0 < 20:
            k = int(k) + 1
            env = self.env(); steps = 0 if k % 2 == 0 else 60
            if k % 4 == 1 and self.evs:
                base = self.rng.choice(self.evs).env
                env = {x: (v if self.rng.random() < 0.4 else base[x]) for x, v in env.items()}
            while True:
                e = T.Evaluator(env); bad = None
                for c in cs:
                    if e.truth(c) is not True: bad = c; break
                if bad is None: self.evs.append(e); break
                self.fails[bad.id] = (bad, self.fails.get(bad.id, (0, 0))[1] + 1)
                if not steps or time.time() - t0 > 20: break
                steps -= 1; cost += 1
                if cost % 8 == 0: k += 1
                v = vs.get(bad.id)
                if v is None: v = vs[bad.id] = sorted((x.args[0] for x in T.syms(bad) if x.args[0] in byname))
                if not v: break
                env = dict(env)
                for nm in self.rng.sample(v, min(len(v), 1 + (self.rng.random() < 0.3))): env[nm] = self.value(byname[nm])
    def extend_syms(self, more):
        new = [s for s in more if s not in self.syms]
        if not new: return
        self.syms = sorted(set(self.syms) | set(new), key=lambda s: s.id)
        for e in self.evs:
            for s in new: e.env[s.args[0]] = self.value(s)
            e.memo.clear()
        # values of new inputs were free: re-check admissibility
        self.evs = [e for e in self.evs if all(e.truth(c) is True for c in self.pc)]
    def probe(self, nodes, limit=40, bases=4):
        """add assignments on the boundary of comparison atoms occurring in nodes"""
        ats = {}
        seen = set(); st = [n for n in nodes if isinstance(n, Node)]
        while st:
            x = st.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x.op in ("<", "<=", "==", "min", "max") and not x.idx and x.id not in self.probed:
                if len(x.args) == 2 and all(isinstance(a, Node) and T.truthy_kind(a) in ("num", "mixed") for a in x.args): ats[x.id] = x
            st.extend(a for a in x.args if isinstance(a, Node))
        new = []
        for a in sorted(ats.values(), key=lambda z: z.id)[:limit]:
            self.probed.add(a.id)
            l, r = a.args
            vs = [s for s in (T.syms(l) | T.syms(r)) if s.args[1] in ("real", "int")]
            if not vs: continue
            vs.sort(key=lambda s: s.id)
            got = 0
            for e in self.evs[:bases * 3]:
                if got >= bases: break
                s = self.rng.choice(vs)
                x = self.solve(e, l, r, s)
                if x is not None:
                    new.append(x); got += 1
                    if got == 1: new += self.around(x, s)
        self.evs = self.evs + new
        return len(new)
    def around(self, e, s):
        """assignments just beside, and well beyond, a boundary"""
        v = e.env[s.args[0]]
        if isinstance(v, bool) or not isinstance(v, (int, Fraction)): return []
        d = 1 if s.args[1] == "int" else max(abs(Fraction(v)) / 50, Fraction(1, 100))
        ws = [v - d, v + d, v * 6] + ([v / 2] if s.args[1] == "real" else [])
        return [x for x in (self.admit({**e.env, s.args[0]: w}) for w in ws if w != v) if x is not None]
    def solve(self, e, l, r, s):
        nm = s.args[0]; x0 = e.env[nm]
        def f(x):
            ee = T.Evaluator({**e.env, nm: x})
            a, b = ee.num(l), ee.num(r)
            if a in (T.ERR, T.AMB) or b in (T.ERR, T.AMB): return None
            return a - b
        f0 = f(x0)
        if f0 is None: return None
        if isinstance(x0, bool): return None
        x1 = x0 + 1; f1 = f(x1)
        for _ in range(4):
            if f1 is None or f1 == f0: return None
            if isinstance(f0, float) or isinstance(f1, float): return None
            x2 = Fraction(x0) - Fraction(f0) * (Fraction(x1) - Fraction(x0)) / (Fraction(f1) - Fraction(f0))
            if s.args[1] == "int":
                if x2.denominator != 1: return None
                x2 = int(x2)
            f2 = f(x2)
            if f2 is None: return None
            if f2 == 0: return self.admit({**e.env, nm: x2})
            x0, f0, x1, f1 = x1, f1, x2, f2
            if isinstance(f1, float): return None
        return None

def differs(a, b, tol=1e-6):
    """True / False / None(not comparable)"""
    if a is T.AMB or b is T.AMB: return None
    if a is T.ERR or b is T.ERR: return None if a is not b else False
    na, nb = isinstance(a, (int, float, Fraction)), isinstance(b, (int, float, Fraction))
    if na and nb:
        fa, fb = float(a), float(b)
        if math.isnan(fa) or math.isnan(fb): return None
        if math.isinf(fa) or math.isinf(fb): return fa != fb
        return abs(fa - fb) > tol * (1 + max(abs(fa), abs(fb)))
    return a != b

def pv(v):
    if isinstance(v, Fraction): return float(v) if v.denominator != 1 else int(v)
    return v if isinstance(v, (int, float, str, bool, type(None))) else repr(v)

class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid = pid; self.tier = tier; self.seed = seed
        self.t0 = time.time()
        self.obl = []          # (rule, construct, status, detail)
        self.viol = {}         # key -> record
        self.engines = []
        self.notes = []; self.configs = []
        self.fnset = set(); self.files = set(); self.lineset = set()
        self.rules = {}; self.group_s = None
        self.proof_time = 0.0; self.proof_cap = 60 if tier == "quick" else 300
        self.counts = {}
    def rule(self, name, text): self.rules[name] = text
    def use(self, eng):
        self.fnset |= eng.functions_seen; self.lineset |= eng.lines_seen
        self.files |= {f for f, _ in eng.lines_seen}
    def count(self, what, n=1): self.counts[what] = self.counts.get(what, 0) + n
    def ok(self, rule, construct, how="value-number"): self.obl.append((rule, construct, "proved", how))
    def agreed(self, rule, construct, how): self.obl.append((rule, construct, "agrees", how))
    def undecided(self, rule, construct, why): self.obl.append((rule, construct, "undecided", str(why)))
    def violate(self, rule, construct, where, msg, witness=None, extra=None):
        key = f"{rule}|{construct}"
        self.obl.append((rule, construct, "violated", msg))
        if key in self.viol: return
        self.viol[key] = {"property": self.pid, "rule": rule, "rule_text": self.rules.get(rule, ""), "construct": construct, "where": where,
                          "message": msg, "inputs": {k: pv(v) for k, v in sorted((witness or {}).items())}, "detail": extra or {}}
    def _prove(self, f):
        if self.proof_time > self.proof_cap: return None
        t = time.time()
        try: return f()
        finally: self.proof_time += time.time() - t
    def eq(self, rule, construct, actual, spec, samples, guard=(), where="", tol=1e-6, what=None, errdiff=False, prove_it=True):
        if actual is spec: self.ok(rule, construct); return True
        if not isinstance(actual, Node) or not isinstance(spec, Node):
            self.undecided(rule, construct, f"not scalar: {actual!r} / {spec!r}"); return None
        guard = [g for g in guard if g is not TRUE]
        n = 0; sk = 0
        need = T.syms(actual) | T.syms(spec)
        for g in guard: need |= T.syms(g)
        samples.extend_syms(need)
        for rnd in (0, 1):
            for e in list(samples.evs):
                if any(e.truth(g) is not True for g in guard): continue
                try: a, b = e(actual), e(spec)
                except NotImplementedError as x:
                    self.undecided(rule, construct, f"cannot evaluate {x}"); return None
                d = differs(a, b, tol)
                if d is None and errdiff and (a is T.ERR) != (b is T.ERR) and T.AMB not in (a, b): d = True
                if d is None: sk += 1; continue
                n += 1
                if d:
                    self.violate(rule, construct, where, (what or "value differs from the specified one") + f": found {pv(a)}, required {pv(b)}",
                                 e.env, {"found": T.show(actual, 8)[:600], "required": T.show(spec, 8)[:600]})
                    return False
            if rnd == 0: samples.probe([actual, spec] + guard)
        how = self._prove(lambda: prove.equal(actual, spec, guard)) if prove_it else None
        if how: self.ok(rule, construct, how); return True
        if n: self.agreed(rule, construct, f"{n} admissible assignments of the extracted expressions"); return None
        self.undecided(rule, construct, "no admissible assignment"); return None
    def holds(self, rule, construct, cond, samples, guard=(), where="", what=None, prove_it=True):
        """cond is true wherever guard is"""
        if cond is TRUE: self.ok(rule, construct); return True
        guard = [g for g in guard if g is not TRUE]
        need = T.syms(cond)
        for g in guard: need |= T.syms(g)
        samples.extend_syms(need)
        n = 0
        for rnd in (0, 1):
            for e in list(samples.evs):
                if any(e.truth(g) is not True for g in guard): continue
                v = e.truth(cond)
                if v is T.AMB or v is T.ERR: continue
                n += 1
                if not v:
                    self.violate(rule, construct, where, what or "condition fails", e.env, {"condition": T.show(cond, 8)[:800]})
                    return False
            if rnd == 0: samples.probe([cond] + guard)
        how = self._prove(lambda: prove.valid(cond, guard)) if prove_it else None
        if how: self.ok(rule, construct, how); return True
        if n: self.agreed(rule, construct, f"{n} admissible assignments of the extracted expressions"); return None
        self.undecided(rule, construct, "no admissible assignment"); return None
    def never(self, rule, construct, cond, samples, guard=(), where="", what=None, prove_it=True):
        return self.holds(rule, construct, not_(cond), samples, guard, where, what, prove_it)
    # ---- known findings
    def known(self):
        out = {}
        p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
        if os.path.exists(p):
            for l in open(p, encoding="utf-8"):
                l = l.strip()
                if l.startswith("known:"):
                    f = dict(x.split("=", 1) for x in l[6:].split(" :: ")[0].split() if "=" in x)
                    if f.get("property") == self.pid: out[f["key"]] = l.split(" :: ", 1)[1] if " :: " in l else ""
        return out
    def finish(self):
        known = self.known()
        code = 0
        new = {k: v for k, v in self.viol.items() if k.replace(" ", "_") not in known}
        for k, v in self.viol.items():
            kk = k.replace(" ", "_")
            if kk in known: print(f"KNOWN-FINDING: property={self.pid} {known[kk]} [{kk}]")
        rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
        for k, v in sorted(new.items()):
            h = hashlib.sha1(k.encode()).hexdigest()[:10]
            path = os.path.join(rdir, f"{self.pid}-{h}.json")
            v["recheck"] = f"cd /verif && python3 -m sa.run {self.pid} --tier {self.tier}"
            with open(path, "w") as f: json.dump(v, f, indent=1, default=str)
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"  rule {v['rule']}: {v['rule_text']}")
            print(f"  at {v['where']} ({v['construct']}): {v['message']}")
            if v["inputs"]: print("  inputs: " + ", ".join(f"{a}={b}" for a, b in v["inputs"].items()))
            code = 1
        st = {}
        for r, c, s, d in self.obl: st.setdefault(r, {}).setdefault(s, 0); st[r][s] += 1
        tot = {}
        for r in st.values():
            for s, n in r.items(): tot[s] = tot.get(s, 0) + n
        und = sorted({f"{r} {c}: {d}"[:300] for r, c, s, d in self.obl if s == "undecided"})
        agr = sorted({f"{r} {c}" for r, c, s, d in self.obl if s == "agrees"})
        expl = (f"Static analysis of {len(self.fnset)} functions ({len(self.lineset)} statements) in {', '.join(sorted(x for x in self.files if x))}; "
                f"{len(self.obl)} obligations: " + ", ".join(f"{n} {s}" for s, n in sorted(tot.items())) + ". Rules: " +
                "; ".join(f"{k}: {v}" for k, v in self.rules.items()))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other", "wall_s": round(time.time() - self.t0, 2),
              "coverage": {"explanation": expl, "functions": sorted(f"{a}:{b}" for a, b in self.fnset), "statements": len(self.lineset),
                           "configurations": self.configs, "rules": self.rules, "obligations": st, "counts": self.counts,
                           "not_proved_but_agreeing": agr[:80], "undecided": und[:80], "notes": self.notes,
                           "violations": sorted(new), "known_findings": sorted(k for k in self.viol if k not in new)}}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", self.pid + ".json.tmp")
        with open(tmp, "w") as f: json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        print(f"{self.pid}: {len(self.obl)} obligations: " + ", ".join(f"{n} {s}" for s, n in sorted(tot.items())) + f" ({time.time() - self.t0:.1f}s)")
        return code
