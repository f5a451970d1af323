"""C27 documented calls are accepted and documented defaults are the actual ones."""
import ast, doctest, json, re, builtins
from .common import *
from .figure import Recorder, Unclear

API = ("Slope", "Material", "Udl", "LineLoad")

# ---------------------------------------------------------------- documents
def read(p):
    with open(os.path.join(REPO, p), encoding="utf-8") as f: return f.read()
def fenced(text):
    """python blocks of a markdown file: (first line, source)"""
    out = []; cur = None
    for i, l in enumerate(text.splitlines(), 1):
        s = l.strip()
        if cur is None and re.match(r"```+\s*(python|py)\b", s): cur = (i + 1, [])
        elif cur is not None and s.startswith("```"): out.append((cur[0], "\n".join(cur[1]))); cur = None
        elif cur is not None: cur[1].append(l)
    return out
def rst(text):
    out = []; ls = text.splitlines(); i = 0
    while i < len(ls):
        m = re.match(r"(\s*)\.\.\s+code(-block)?::\s*(python|py)", ls[i]); i += 1
        if not m: continue
        ind = len(m.group(1)); body = []; st = i
        while i < len(ls) and (not ls[i].strip() or len(ls[i]) - len(ls[i].lstrip()) > ind): body.append(ls[i]); i += 1
        while body and (not body[0].strip() or re.match(r"\s*:\w+:", body[0])): body.pop(0); st += 1
        if body:
            k = len(body[0]) - len(body[0].lstrip())
            out.append((st + 1, "\n".join(l[k:] for l in body)))
    return out
def notebook(text):
    out = []
    for n, c in enumerate(json.loads(text).get("cells", []), 1):
        if c.get("cell_type") != "code": continue
        src = "".join(c.get("source", []))
        out.append((1, "\n".join("" if re.match(r"\s*[!%]", l) else l for l in src.splitlines()), f"cell {n}"))
    return out
def documents():
    """(name, [(line, source, part)])"""
    docs = []
    for p, f in (("README.md", fenced), ("pyslope/paper/paper.md", fenced), ("pyslope/docs/examples.rst", rst), ("pyslope/docs/index.rst", rst),
                 ("pyslope/docs/installation.rst", rst), ("pyslope/examples/readme_example.ipynb", notebook), ("pyslope/examples/validation.ipynb", notebook)):
        if not os.path.exists(os.path.join(REPO, p)): continue
        b = f(read(p))
        if b: docs.append((p, [(x[0], x[1], x[2] if len(x) > 2 else "") for x in b]))
    p = "pyslope/speed_benchmark.py"
    if os.path.exists(os.path.join(REPO, p)): docs.append((p, [(1, read(p), "")]))
    return docs
def parse(src, line):
    t = ast.parse(src)
    ast.increment_lineno(t, line - 1)
    return t.body

# ---------------------------------------------------------------- static types of documented names
class Types(ast.NodeVisitor):
    """calls of the public interface in a document: (call, class, method or None)"""
    def __init__(self): self.t = {}; self.calls = []; self.imported = []
    def visit_ImportFrom(self, n):
        if n.module in ("pyslope", "pyslope.pyslope"): self.imported += [(a.name, n) for a in n.names]
    def kind(self, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in API: return e.func.id
        if isinstance(e, ast.Name): return self.t.get(e.id)
    def visit_Assign(self, n):
        self.generic_visit(n)
        for t in n.targets:
            if isinstance(t, ast.Name): self.t[t.id] = self.kind(n.value)
            elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                for a, b in zip(t.elts, n.value.elts):
                    if isinstance(a, ast.Name): self.t[a.id] = self.kind(b)
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Name) and f.id in API: self.calls.append((n, f.id, None))
        elif isinstance(f, ast.Attribute):
            k = self.kind(f.value)
            if k: self.calls.append((n, k, f.attr))

def params(w, cls, meth):
    """the function that receives a call, or None when the class takes the call itself (dataclass)"""
    c = w.cls(cls)
    f = w.eng.class_attr(w.st, c, meth or "__init__")
    return c, f
def accepts(w, cls, meth, npos, kws):
    """None: cannot tell; "" accepted; else the reason of the refusal"""
    c, f = params(w, cls, meth)
    if meth and f is None:
        return f"{cls} has no {meth}"
    if isinstance(f, BoundMethod): f = f.func
    if isinstance(f, Func):
        if any(d not in ("staticmethod", "classmethod", "property") for d in f.deco): return None
        a = f.node.args; pos = [x.arg for x in a.posonlyargs + a.args]
        if "staticmethod" not in f.deco: pos = pos[1:]
        req = pos[:len(pos) - len(f.defaults)] if len(f.defaults) <= len(pos) else []
        kwo = {x.arg: d for x, d in zip(a.kwonlyargs, f.kwdefaults)}
        po = {x.arg for x in a.posonlyargs}
        if npos > len(pos) and a.vararg is None: return f"takes {len(pos)} positional arguments, {npos} documented"
        got = set(pos[:npos])
        for k in kws:
            if k in got: return f"argument {k} given twice"
            if k not in pos and k not in kwo and a.kwarg is None or k in po: return f"no argument {k}"
            got.add(k)
        miss = [p for p in req if p not in got] + [k for k, d in kwo.items() if d is None and k not in got]
        return f"argument {miss[0]} is missing" if miss else ""
    if meth is None and isinstance(c, ClassVal) and c.dataclass:
        names = [n for n, _ in c.fields]
        if npos > len(names): return f"takes {len(names)} positional arguments, {npos} documented"
        got = set(names[:npos])
        for k in kws:
            if k in got: return f"argument {k} given twice"
            if k not in names: return f"no argument {k}"
            got.add(k)
        miss = [n for n, d in c.fields if n not in got and (d is None or isinstance(d, ExtVal) and d.path == "dataclasses.field" and not {"default", "default_factory"} & set(d.kw))]
        return f"argument {miss[0]} is missing" if miss else ""
    return None

# ---------------------------------------------------------------- interpretation of documents
def hooked():
    """a world in which the search yields planes and the factor of safety is a function of the circle"""
    w = World(); w.st.clone()
    hook_planes(w, 1); hook_fos(w, none=False)
    return w
def env_for(w, name):
    m = ModuleVal(); m.name = "@document"; m.path = name
    m.env = w.eng.new(w.st, EnvRec({"__name__": const("__main__")}, None))
    return m
def load_package(w):
    """public names of the package"""
    p = w.eng.load("pyslope", w.st)
    if not isinstance(p, ModuleVal): raise Unsupported("package pyslope")
    return w.st.heap[p.env.id].vars
def bind_free(w, m, body, known):
    """names a document takes for granted are positive numbers"""
    stored = set(known); used = []
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Store): stored.add(n.id)
                else: used.append(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names: stored.add((a.asname or a.name).split(".")[0])
            elif isinstance(n, ast.arg): stored.add(n.arg)
    out = {}
    for u in used:
        if u not in stored and not hasattr(builtins, u) and u not in out:
            out[u] = w.s("mx_" + u); w.st.assume(lt(ZERO, out[u]))
    return out
def setvars(w, m, d):
    r = w.st.heap[m.env.id]; v = dict(r.vars); v.update(d); w.st.heap[m.env.id] = EnvRec(v, r.parent)

def step(w, m, s):
    """one statement; its raise outcomes"""
    sink = []
    w.eng.sinks.append(sink); w.eng.stack.append([m.path, "<document>", getattr(s, "lineno", 0)])
    try: o = w.eng.block([s], w.st, m.env, m)
    finally: w.eng.sinks.pop(); w.eng.stack.pop()
    if o.normal is None: w.st.dead = True
    elif o.normal is not w.st: w.st.become(o.normal)
    return sink

FDOM = {"mx_i": [Fraction(x) for x in ("1", "2", "5")]}
def report(chk, rule, construct, w, sink, where):
    """an undocumented refusal of a documented call"""
    bad = 0
    for s, exc, _ in sink:
        if exc.cls in ("KeyboardInterrupt",): continue
        pc = [c for c, soft in s.pc if not soft]
        smp = Samples(set(w.syms), pc, chk.seed, 3, FDOM, 40, construct)
        if smp.evs:
            bad += 1
            chk.violate(rule, f"{construct}: {exc.cls}", where, f"the documented call ends in {exc.cls} at {exc.where()}", smp.evs[0].env)
    return bad

def run(chk):
    chk.rule("names", "every class documented is exported by the package and every documented method exists")
    chk.rule("bind", "every documented call is accepted by the current signature: keywords exist, no required argument is missing")
    chk.rule("runs", "the documented sequences of calls are followed statement by statement through the source and none ends in an error")
    chk.rule("positional", "positional arguments mean what the documentation says: the object equals the one built with keywords")
    chk.rule("defaults", "documented defaults are the actual ones: leaving the argument out equals giving the documented value")
    chk.rule("shown", "examples in docstrings give the result they show")
    docs = documents()
    w0 = World(); chk.use(w0.eng)

    @attempt(chk, "names", "package exports")
    def exports():
        v = load_package(w0)
        for n in API:
            if n in v: chk.ok("names", f"pyslope.{n}", "exported")
            else: chk.violate("names", f"pyslope.{n}", "pyslope/__init__.py", f"{n} is documented as importable from pyslope but the package does not define it")
    # ---- names and signatures
    def sign(name, where, body, types=None):
        v = types or Types()
        for s in body: v.visit(s)
        for n, node in v.imported:
            if n in API or n == "*": continue
            chk.undecided("names", f"{name}: import of {n}", "not one of the documented classes")
        for n, cls, meth in v.calls:
            c = f"{cls}.{meth}" if meth else cls
            at = f"{name}:{n.lineno}" if not where else f"{where}:{n.lineno}"
            if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                chk.undecided("bind", f"{at} {c}", "starred arguments"); continue
            w0.cls(cls)
            r = accepts(w0, cls, meth, len(n.args), [k.arg for k in n.keywords])
            chk.count("documented calls")
            k = f"{at} {c}({ast.unparse(n)[:60]})"
            if r is None: chk.undecided("bind", k, "receiver of the call is not a plain function")
            elif r == "": chk.ok("bind", k, "signature")
            else:
                f = params(w0, cls, meth)[1]
                src = where_m(w0, cls, meth or "__init__") if f is not None else f"pyslope/pyslope.py {cls}"
                chk.violate("bind" if "has no" not in r else "names", k, src, f"the call documented at {at} is not accepted: {r}")
        return v
    for name, parts in docs:
        def one(name=name, parts=parts):
            t = Types()
            for line, src, part in parts:
                try: body = parse(src, line)
                except SyntaxError: chk.undecided("bind", f"{name} {part or line}", "not parsed"); continue
                t.calls = []; t.imported = []
                sign(name + (" " + part if part else ""), "", body, t)
        attempt(chk, "bind", name, one)
    # ---- docstring examples
    examples = []
    def docstrings():
        import inspect
        tree = ast.parse(read("pyslope/pyslope.py"))
        for c in [x for x in ast.walk(tree) if isinstance(x, (ast.ClassDef, ast.FunctionDef))]:
            d = ast.get_docstring(c, clean=False)
            if not d: continue
            l0 = c.body[0].value.lineno
            try: ex = doctest.DocTestParser().get_examples(d)
            except ValueError: continue
            if ex: examples.append((c.name, [(l0 + e.lineno, e.source, e.want) for e in ex]))
    attempt(chk, "bind", "docstrings", docstrings)
    for nm, ex in examples:
        def one(nm=nm, ex=ex):
            t = Types()
            for line, src, want in ex:
                t.calls = []
                sign(f"pyslope/pyslope.py docstring of {nm}", "pyslope/pyslope.py", parse(src, line), t)
        attempt(chk, "bind", f"docstring {nm}", one)
    # ---- interpretation
    def follow(name, stmts, shown=None):
        """stmts: (statement, expected text or None)"""
        w = hooked()
        Recorder(w)
        pk = load_package(w)
        w.st = w.st.clone()
        m = env_for(w, name)
        setvars(w, m, {n: pk[n] for n in API if n in pk})
        setvars(w, m, bind_free(w, m, [s for s, _ in stmts], API))
        for s, want in stmts:
            at = f"{name}{' ' + s.part if getattr(s, 'part', '') else ''}:{s.lineno}"
            txt = ast.unparse(s).replace("\n", " ")[:70]
            if isinstance(s, ast.ImportFrom) and s.module and s.module.split(".")[0] == "pyslope":
                setvars(w, m, {a.asname or a.name: pk[a.name] for a in s.names if a.name in pk}); continue
            try:
                if want and isinstance(s, ast.Expr):
                    tgt = ast.copy_location(ast.Assign([ast.copy_location(ast.Name("@shown", ast.Store()), s)], s.value), s)
                    sink = step(w, m, tgt)
                else: sink = step(w, m, s)
            except (Unsupported, Missing) as x:
                # what follows may depend on this statement
                chk.undecided("runs", f"{at} {txt} and the rest", getattr(x, "msg", str(x))); chk.use(w.eng); return
            bad = report(chk, "runs", f"{at} {txt}", w, sink, at)
            if not bad: chk.ok("runs", f"{at} {txt}", "followed; no raise outcome" if not sink else "followed; raise outcomes not admissible")
            chk.count("documented statements followed")
            if w.st.dead: return
            if want and isinstance(s, ast.Expr):
                try: show(w, m, at, txt, want)
                except (Unsupported, Missing, KeyError) as x: chk.undecided("shown", f"{at} {txt}", str(x)[:80])
        chk.use(w.eng)
    def show(w, m, at, txt, want):
        """result of an example against the text printed below it"""
        v = w.st.heap[m.env.id].vars.get("@shown")
        want = want.strip()
        smp = w.samples(chk.seed, 2)
        if isinstance(v, Ref) and isinstance(w.st.heap[v.id], ObjRec) and w.has(v, "__repr__"): v = w.m(v, "__repr__")
        elif isinstance(v, Node) and want in ("True", "False"):
            chk.eq("shown", f"{at} {txt}", ite(truthy(v), ONE, ZERO), const(int(want == "True")), smp, where=at, what="the result shown in the example is wrong"); return
        if not isinstance(v, Node): raise Unsupported("result is not a scalar")
        for e in smp.evs:
            from .figure import text
            x = e(v)
            if isinstance(x, Fraction) or isinstance(x, (int, float)) and not isinstance(x, bool):
                try: wv = float(want)
                except ValueError: break
                if abs(float(x) - wv) > 1e-6 * max(1, abs(wv)): chk.violate("shown", f"{at} {txt}", at, f"the example shows {want}, the code gives {float(x):g}", e.env); return
                chk.agreed("shown", f"{at} {txt}", "value"); return
            t = x if isinstance(x, str) else text(v, e)
            if "?" in t: break
            if norm(t) != norm(want):
                chk.violate("shown", f"{at} {txt}", at, f"the example shows {want!r}, the code gives {t!r}", e.env); return
            chk.agreed("shown", f"{at} {txt}", "text"); return
        raise Unsupported("text of the result")
    def truthy(v): return v if truthy_kind(v) == "bool" else not_(or_(eq(v, ZERO), eq(v, NONE)))
    for name, parts in docs:
        def one(name=name, parts=parts):
            st = []
            for line, src, part in parts:
                try: body = parse(src, line)
                except SyntaxError: continue
                for s in body: st.append((s, None)); s.part = part
            follow(name, st)
        attempt(chk, "runs", name, one)
    for nm, ex in examples:
        def one(nm=nm, ex=ex):
            st = []
            for line, src, want in ex:
                body = parse(src, line)
                for s in body: st.append((s, want if len(body) == 1 else None))
            follow("pyslope/pyslope.py", st)
        attempt(chk, "runs", f"docstring {nm}", one)
    # ---- positional meaning
    POS = [("Material", ("unit_weight", "friction_angle", "cohesion", "depth_to_bottom"), ("uw1", "phi1", "coh1", "depth1")),
           ("Udl", ("magnitude",), ("q1",)), ("LineLoad", ("magnitude",), ("p1",))]
    for cls, names, syms in POS:
        def one(cls=cls, names=names, syms=syms):
            for k in range(1, len(names) + 1):
                w = World(); vs = [w.s(x) for x in syms[:k]]
                a = w.new(cls, *vs); b = w.new(cls, **dict(zip(names, vs)))
                s = w.samples(chk.seed, 60, tag=f"{cls}{k}")
                same_values(chk, "positional", f"{cls}({', '.join(names[:k])})", w, [(a, b)], s, where_m(w, cls, "__init__"), "positional arguments mean something else")
                chk.use(w.eng)
        attempt(chk, "positional", cls, one)
    def limits():
        w = World(); w.slope("length"); o1 = w.o; w.slope("length"); o2 = w.o
        a, b = w.s("x1"), w.s("x2")
        w.m(o1, "set_analysis_limits", a, b); w.m(o2, "set_analysis_limits", left_x=a, right_x=b)
        same_values(chk, "positional", "Slope.set_analysis_limits(left_x, right_x)", w, [(o1, o2)], w.samples(chk.seed, 60, tag="lim"), where_m(w, "Slope", "set_analysis_limits"), "positional arguments mean something else")
    attempt(chk, "positional", "limits", limits)
    # ---- defaults
    for line in documented_defaults(): attempt(chk, "defaults", f"{line[0]}({line[1]})", lambda line=line: default(chk, *line))
    chk.configs.append(f"{len(docs)} documents, {len(examples)} docstrings with examples")

def gfield_at(st, o, f): return T.ite(o.c, gfield_at(st, o.a, f), gfield_at(st, o.b, f)) if isinstance(o, VIte) else scalar(st.heap[o.id].fields[f])
def norm(t):
    """words and numbers of a text, numbers by value"""
    return [float(x) if re.fullmatch(r"-?\d+(\.\d+)?", x) else x for x in re.findall(r"-?\d+(?:\.\d+)?|[^\s\d]+", t)]
def same_values(chk, rule, construct, w, pairs, s, where, what):
    """the objects of each pair have the same values"""
    n = 0
    if all(identical(w, a, b) for a, b in pairs): chk.ok(rule, construct, "identical value numbers"); return
    for e in s.evs:
        n += 1
        for a, b in pairs:
            d = pic_diff(concrete(w.st, a, e), concrete(w.st, b, e), "")
            if d: chk.violate(rule, construct, where, f"{what}: {d[0]} is {_p(d[1])}, documented {_p(d[2])}", e.env); return
    if n: chk.agreed(rule, construct, f"{n} admissible assignments")
    else: chk.undecided(rule, construct, "no admissible assignment")
def _p(x):
    from ..oblig import pv
    if isinstance(x, tuple) and len(x) == 2: x = x[1]
    return str(pv(x))[:100]
def identical(w, a, b):
    if a is b: return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        ra, rb = w.st.heap[a.id], w.st.heap[b.id]
        return isinstance(ra, ObjRec) and isinstance(rb, ObjRec) and set(ra.fields) == set(rb.fields) and all(identical(w, ra.fields[k], rb.fields[k]) for k in ra.fields)
    return False

# values the other arguments take when a default is tried
ARGS = {"Material": dict(unit_weight="uw1", friction_angle="phi1", cohesion="coh1", depth_to_bottom="depth1"),
        "Udl": dict(magnitude="q1", offset="off1", length="len1"), "LineLoad": dict(magnitude="p1", offset="off1'"),
        "Slope": dict(height="height", length="length"), "Slope.set_external_boundary": dict(height="height", length="length"),
        "Slope.update_water_analysis_options": dict(auto=False), "Slope.add_single_entry_exit_plane": dict(l_cx="x1", r_cx="x2"),
        "Slope.update_analysis_options": {}, "Slope.update_boundary_options": {}, "Slope.remove_udls": {}, "Slope.remove_lls": {}, "Slope.remove_material": {},
        "Slope.set_analysis_limits": dict(left_x="x1", right_x="x4"), "Slope.analyse_dynamic": {}, "Slope.plot_all_planes": {}}
EXTRA = [("Udl", "magnitude", "0"), ("Udl", "offset", "0"), ("Udl", "length", "None"), ("Udl", "dynamic_offset", "False"),
         ("LineLoad", "magnitude", "0"), ("LineLoad", "offset", "0"), ("LineLoad", "dynamic_offset", "False")]
def documented_defaults():
    """(callable, parameter, text of the default) from the docstrings and the user guide"""
    out = []
    tree = ast.parse(read("pyslope/pyslope.py"))
    def scan(q, d):
        cur = None
        for l in d.splitlines():
            m = re.match(r"\s*([A-Za-z_]\w*)\s*:\s*(float|int|str|bool|Material|tuple)\b.*$", l)
            if m: cur = m.group(1)
            if re.match(r"\s*(Examples?|Returns?|Raises|Yields|Notes?)\s*$", l): cur = None
            m = re.search(r"by default:?\s+(None|True|False|-?\d+(?:\.\d+)?)\b|[, ]default\s+(false|true)\b", l, re.I)
            if m and cur: out.append((q, cur, (m.group(1) or m.group(2)).capitalize() if (m.group(1) or m.group(2))[0].isalpha() else m.group(1)))
    for c in tree.body:
        if not isinstance(c, ast.ClassDef) or c.name not in API: continue
        scan(c.name, ast.get_docstring(c) or "")
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and not f.name.startswith("_"): scan(f"{c.name}.{f.name}", ast.get_docstring(f) or "")
    for doc in ("README.md", "pyslope/docs/examples.rst", "pyslope/paper/paper.md"):
        if not os.path.exists(os.path.join(REPO, doc)): continue
        m = re.search(r"default (\d+) iterations are run with (\d+) slices", read(doc))
        if m: out += [("options", "iterations", m.group(1)), ("options", "slices", m.group(2))]
    fs = [f for c in tree.body if isinstance(c, ast.ClassDef) for f in c.body if isinstance(f, ast.FunctionDef) and f.name == "update_analysis_options"]
    m = re.search(r"Initialised as (\d+)", ast.get_docstring(fs[0]) or "") if fs else None
    if m: out.append(("options", "max_iterations", m.group(1)))
    out = list(dict.fromkeys(out))
    seen = {(a, b) for a, b, _ in out}
    w = World()
    def has(a, b):
        if a == "options": return True
        c, f = params(w, *(a.split(".") if "." in a else (a, None)))
        names = [x.arg for x in f.node.args.args + f.node.args.kwonlyargs] if isinstance(f, Func) else [n for n, _ in getattr(c, "fields", None) or []]
        return b in names
    return [x for x in out + [x for x in EXTRA if x[:2] not in seen] if has(*x[:2])]
def default(chk, q, p, text):
    v = {"None": NONE, "True": TRUE, "False": FALSE}.get(text)
    if v is None: v = const(Fraction(text))
    construct = f"{q}({p}={text})"
    w = World()
    if q == "options":
        a = w.slope("length"); b = w.slope("length")
        w.m(b, "update_analysis_options", **{p: v})
        same_values(chk, "defaults", construct, w, [(a, b)], w.samples(chk.seed, 30, tag=q + p), where_m(w, "Slope", "__init__"), f"the documented initial value of {p} is not the actual one")
        return chk.use(w.eng)
    cls, _, meth = q.partition(".")
    # the same literal in the signature means the same call
    c, f = params(w, cls, meth or None)
    lit = None
    if isinstance(f, Func):
        names = [x.arg for x in f.node.args.args]
        ds = dict(zip(names[len(names) - len(f.defaults):], f.defaults)); ds.update(zip([x.arg for x in f.node.args.kwonlyargs], f.kwdefaults))
        lit = ds.get(p)
    elif getattr(c, "dataclass", False): lit = dict(c.fields).get(p)
    if isinstance(lit, Node) and (lit is v or isc(lit) and isc(v) and lit is not NONE and v is not NONE and type(cval(lit)) is not bool and type(cval(v)) is not bool and cval(lit) == cval(v)):
        chk.ok("defaults", construct, "default in the signature"); return chk.use(w.eng)
    if q not in ARGS: raise Unsupported("no arguments to try")
    what = f"leaving out {p} is not the same as the documented default {text}"
    where = where_m(w, cls, meth or "__init__")
    args = {k: (w.s(x) if isinstance(x, str) else const(x)) for k, x in ARGS[q].items() if k != p and not (p == "length" and False)}
    if p == "angle": args.pop("length", None)
    if not meth:
        a = w.new(cls, **args); b = w.new(cls, **args, **{p: v})
        return same_values(chk, "defaults", construct, w, [(a, b)], w.samples(chk.seed, 60, tag=construct), where, what)
    if meth in ("analyse_dynamic", "plot_all_planes"):
        ps = hook_planes(w, 1 if meth == "analyse_dynamic" else 2)
        need(w, "Slope", "_analyse_circular_failure_bishop")
        f1, f2 = w.s("fos1"), w.s("fos2")
        for x in (f1, f2): w.st.assume(lt(ZERO, x))
        if len(ps) > 1: w.st.assume(not_(eq(ps[0]["cx"], ps[1]["cx"])))
        def h(eng, st, fn, recv, a, k, node):
            d = call_args(fn, a, k)
            out = f1 if len(ps) == 1 else ite(eq(d["c_x"], ps[0]["cx"]), f1, f2)
            if meth == "analyse_dynamic":
                # rises with the offset of the loads
                for g, u in eng.iter_items(st, st.heap[recv.id].fields["_udls"], None, consume=False): out = add(out, mul(const(Fraction(1, 20)), gfield_at(st, u, "offset")))
            return out
        w.eng.hooks["Slope._analyse_circular_failure_bishop"] = h
    def one(kw, wr):
        o = wr.slope("length")
        wr.o = o
        if meth.startswith("remove_") or meth == "analyse_dynamic" or meth == "plot_all_planes":
            wr.materials(2); wr.loads(("f",), 1, {"dynamic_offset": TRUE} if meth == "analyse_dynamic" else None)
        if meth == "plot_all_planes": wr.m(o, "analyse_slope")
        return o, wr.m(o, meth, **kw)
    st0 = w.st.clone(); sy = list(w.syms)
    w1 = w.clone(); rec = Recorder(w1)
    o1, r1 = one(args, w1)
    w2 = w.clone(); rec2 = Recorder(w2)
    o2, r2 = one({**args, p: v}, w2)
    smp = w2.samples(chk.seed, 60, tag=construct, extra_pc=w1.pc())
    n = 0
    for e in smp.evs:
        x, y = concrete(w1.st, o1, e), concrete(w2.st, o2, e)
        d = pic_diff(x, y, "")
        if not d and meth == "plot_all_planes":
            try: k1, k2 = len(rec.elements(r1, e)), len(rec2.elements(r2, e))
            except Unclear: continue
            if k1 != k2: d = ("the figure", f"{k1} elements", f"{k2} elements")
        if d: return chk.violate("defaults", construct, where, f"{what}: {d[0]} is {_p(d[1])}, documented {_p(d[2])}", e.env)
        n += 1
    if n: chk.agreed("defaults", construct, f"{n} admissible assignments")
    else: chk.undecided("defaults", construct, "no admissible assignment")
