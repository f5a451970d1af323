"""C26: analysis and plotting are deterministic and have no side channels.

Effects: every call site and attribute read of the engine's modules (everything pyslope.pyslope
imports from this repository) is resolved through the imports and classified. Order: every
expression that is an unordered collection is followed to its uses inside the function, its
class and through returns. History: a model built and analysed after other models were is
compared with one built first."""
import ast, os
from ..oblig import REPO
from .common import *
from . import heap
from .c23 import Names

DENY = [("randomness", ("random.", "numpy.random.", "secrets.", "uuid.uuid1", "uuid.uuid4", "uuid.getnode", "os.urandom", "os.getrandom", "scipy.stats.", "ssl.RAND")),
        ("the clock", ("time.time", "time.perf_counter", "time.monotonic", "time.process_time", "time.thread_time", "time.localtime", "time.gmtime", "time.strftime", "time.ctime", "time.sleep", "time.clock",
                       "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "timeit.")),
        ("the environment", ("os.environ", "os.getenv", "os.environb", "os.getcwd", "os.uname", "os.cpu_count", "os.getlogin", "platform.", "locale.", "getpass.", "sys.argv", "sys.stdin", "input", "pwd.", "sysconfig.", "shutil.get_terminal_size")),
        ("files", ("open", "io.open", "os.open", "os.listdir", "os.scandir", "os.walk", "os.remove", "os.unlink", "os.rename", "os.mkdir", "os.makedirs", "os.stat", "os.path.exists", "os.path.getmtime", "os.path.isfile", "os.path.isdir",
                   "shutil.", "tempfile.", "glob.", "pickle.dump", "pickle.load", "json.load", "json.dump", "numpy.save", "numpy.load", "numpy.savetxt", "numpy.loadtxt", "numpy.fromfile", "numpy.memmap", "numpy.genfromtxt",
                   "pandas.read_", "shelve.", "sqlite3.", "codecs.open", "fileinput.", "importlib.resources.", "plotly.io.write_", "pathlib.Path.home", "pathlib.Path.cwd")),
        ("the network", ("socket.", "urllib.request.", "urllib.urlopen", "http.client.", "requests.", "httpx.", "aiohttp.", "ftplib.", "smtplib.", "webbrowser.", "xmlrpc.")),
        ("other processes", ("subprocess.", "os.system", "os.popen", "os.fork", "os.exec", "os.spawn", "os.kill", "os.getpid", "os.getppid", "multiprocessing.", "signal.", "ctypes."))]
EXACTLESS = ("json.load", "json.dump", "pickle.dump", "pickle.load")
METH = {"read_text": "files", "write_text": "files", "read_bytes": "files", "write_bytes": "files", "unlink": "files", "write_html": "files", "write_image": "files", "write_json": "files", "to_csv": "files", "to_excel": "files", "tofile": "files",
        "imap_unordered": "an unordered pool", "as_completed": "an unordered pool", "urlopen": "the network"}

def kind_of(nm):
    if nm is None: return None
    for k, ps in DENY:
        for p in ps:
            if p.endswith((".", "_")) and nm.startswith(p) or nm == p or (nm.startswith(p + ".") and p not in ("open", "input")):
                if p in EXACTLESS and nm != p: continue
                return k
    if nm in ("concurrent.futures.as_completed", "asyncio.as_completed"): return "an unordered pool"
    return None

def modules():
    """files of the engine: pyslope.pyslope and what it imports from this repository"""
    done = {}; todo = ["pyslope.pyslope"]
    while todo:
        m = todo.pop()
        if m in done: continue
        p = os.path.join(REPO, *m.split("."))
        f = p + ".py" if os.path.exists(p + ".py") else os.path.join(p, "__init__.py") if os.path.exists(os.path.join(p, "__init__.py")) else None
        if f is None: continue
        tree = ast.parse(open(f, encoding="utf8").read()); done[m] = (os.path.relpath(f, REPO), tree)
        pkg = m.rsplit(".", 1)[0] if not f.endswith("__init__.py") else m
        for n in ast.walk(tree):
            if isinstance(n, ast.Import): todo += [a.name for a in n.names if a.name != "pyslope"]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    q = pkg.split("."); q = q[:len(q) - n.level + 1]; base = ".".join(q + ([n.module] if n.module else []))
                if base and base != "pyslope": todo.append(base)
                if base: todo += [f"{base}.{a.name}" for a in n.names]
    return done

def owners(tree):
    out = {}
    def rec(n, own, cls):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)): rec(c, f"{cls + '.' if cls else ''}{c.name}", None)
            elif isinstance(c, ast.ClassDef): rec(c, own, c.name)
            else:
                out[c] = own; rec(c, own, cls)
    rec(tree, "<module>", None)
    return out

SAFE = {"len", "sorted", "min", "max", "any", "all", "set", "frozenset", "bool", "isinstance", "sum_int"}
SETM = {"union", "intersection", "difference", "symmetric_difference"}
class Order:
    """follows unordered collections"""
    def __init__(self, tree, own):
        self.tree = tree; self.own = own; self.par = {}
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n): self.par[c] = n
        self.attrs = set(); self.funcs = set(); self.vars = {}      # function -> names
        self.fn = {}
        def scope(n, f):
            for c in ast.iter_child_nodes(n):
                g = c if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)) else f
                self.fn[c] = f; scope(c, g)
        scope(tree, None)
        ch = True; k = 0
        while ch and k < 6:
            ch = False; k += 1
            for n in ast.walk(tree):
                t = []
                if isinstance(n, ast.Assign): t = [(x, n.value) for x in n.targets]
                elif isinstance(n, ast.AnnAssign) and n.value is not None: t = [(n.target, n.value)]
                elif isinstance(n, ast.NamedExpr): t = [(n.target, n.value)]
                for x, v in t:
                    if not self.unordered(v): continue
                    if isinstance(x, ast.Name):
                        s = self.vars.setdefault(self.fn.get(x), set())
                        if x.id not in s: s.add(x.id); ch = True
                    elif isinstance(x, ast.Attribute) and x.attr not in self.attrs: self.attrs.add(x.attr); ch = True
                if isinstance(n, ast.Return) and n.value is not None and self.unordered(n.value):
                    f = self.fn.get(n)
                    if isinstance(f, ast.FunctionDef) and f.name not in self.funcs: self.funcs.add(f.name); ch = True
        # a sequence made of an unordered collection and then sorted has an order again
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "sort" and isinstance(n.func.value, ast.Name) and not any(k.arg == "key" for k in n.keywords):
                self.vars.get(self.fn.get(n.func.value), set()).discard(n.func.value.id)
        # a name that is also bound to something ordered in the same function is not known to be a set
        for n in ast.walk(tree):
            if isinstance(n, ast.Assign) and not self.unordered(n.value):
                for x in n.targets:
                    if isinstance(x, ast.Name): self.vars.get(self.fn.get(x), set()).discard(x.id)
        self.seqs = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Assign) and self.sequence(n.value):
                for x in n.targets:
                    if isinstance(x, ast.Name) and x.id in self.vars.get(self.fn.get(x), ()): self.seqs.setdefault(self.fn.get(x), set()).add(x.id)
    def unordered(self, e):
        if isinstance(e, ast.Set): return not all(isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) for x in e.elts)
        if isinstance(e, ast.SetComp): return True
        if self.sequence(e): return True
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name):
                if f.id in ("set", "frozenset"): return True
                return f.id in self.funcs
            if isinstance(f, ast.Attribute):
                if f.attr in SETM or f.attr == "copy": return self.unordered(f.value)
                return f.attr in self.funcs
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self.unordered(e.left) or isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.BitXor)) and self.unordered(e.right)
        if isinstance(e, ast.Name): return e.id in self.vars.get(self.fn.get(e), ()) or e.id in self.vars.get(None, ())
        if isinstance(e, ast.Attribute): return e.attr in self.attrs
        if isinstance(e, ast.IfExp): return self.unordered(e.body) or self.unordered(e.orelse)
        return False
    def sequence(self, e):
        """a list or tuple whose order comes from an unordered collection"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple") and len(e.args) == 1: return self.unordered(e.args[0])
        if isinstance(e, ast.ListComp): return any(self.unordered(g.iter) for g in e.generators)
        if isinstance(e, ast.List): return any(isinstance(x, ast.Starred) and self.unordered(x.value) for x in e.elts)
        return False
    def named(self, e):
        """the sequence is only given a local name: its uses are looked at instead"""
        p = self.par.get(e)
        if not (self.fn.get(e) is not None and isinstance(p, ast.Assign) and p.value is e and all(isinstance(t, ast.Name) for t in p.targets)): return False
        if all(t.id in self.vars.get(self.fn.get(e), ()) for t in p.targets): return True
        # the name has other values too: look at the uses that follow
        pos = lambda n: (n.lineno, n.col_offset)
        for t in p.targets:
            for u in sorted((n for n in ast.walk(self.fn[e]) if isinstance(n, ast.Name) and n.id == t.id and isinstance(n.ctx, ast.Load) and pos(n) > (p.end_lineno, p.end_col_offset)), key=pos):
                q = self.par.get(u)
                if isinstance(q, ast.Attribute) and q.attr == "sort" and not self.par[q].keywords: break
                if isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id == "sorted" and isinstance(self.par.get(q), ast.Assign): continue
                if not self.swallowed(u): return False
        return True
    def uses(self):
        """(node, what) for each use of an unordered collection where its order matters"""
        for n in ast.walk(self.tree):
            if isinstance(n, (ast.For, ast.AsyncFor)) and self.unordered(n.iter):
                if not self.commutes(n.body, n.target): yield n.iter, f"the loop over {ast.unparse(n.iter)} runs in an arbitrary order"
            elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                for g in n.generators:
                    if self.unordered(g.iter):
                        if isinstance(n, ast.GeneratorExp) and self.swallowed(n): continue
                        if isinstance(n, ast.ListComp) and (self.swallowed(n) or self.named(n)): continue
                        yield g.iter, f"{ast.unparse(n)[:80]} has an arbitrary order"
            elif isinstance(n, ast.Call):
                f = n.func; nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
                if nm == "pop" and not n.args and isinstance(f, ast.Attribute) and self.unordered(f.value): yield n, f"{ast.unparse(n)} takes an arbitrary member"
                for a in n.args:
                    b = a.value if isinstance(a, ast.Starred) else a
                    if not self.unordered(b): continue
                    if isinstance(a, ast.Starred) and nm not in ("set", "min", "max", "frozenset"): yield b, f"{ast.unparse(n)[:80]} gets its arguments in an arbitrary order"
                    elif nm in ("list", "tuple", "iter", "next", "enumerate", "zip", "map", "filter", "reversed", "array", "asarray", "fromiter", "join", "extend", "deque", "chain", "islice", "reduce", "sum", "fsum", "cumsum"):
                        if nm in ("list", "tuple", "map", "filter", "iter") and self.swallowed(n): continue
                        if nm in ("list", "tuple") and (self.named(n) or self.unordered(n) and self.swallowed(n)): continue
                        yield b, f"{ast.unparse(n)[:80]} depends on an arbitrary order"
                    elif nm in ("sorted", "min", "max") and any(k.arg == "key" for k in n.keywords): yield b, f"{ast.unparse(n)[:80]}: members with equal keys come in an arbitrary order"
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Tuple, ast.List)) and self.unordered(n.value): yield n.value, f"{ast.unparse(n)[:80]} unpacks an arbitrary order"
            elif isinstance(n, ast.Starred) and self.unordered(n.value) and isinstance(self.par.get(n), (ast.List, ast.Tuple)) : yield n.value, f"{ast.unparse(self.par[n])[:80]} has an arbitrary order"
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in self.seqs.get(self.fn.get(n), ()): yield n.value, f"{ast.unparse(n)[:80]} keeps an arbitrary order"
            elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and self.unordered(n.value): yield n.value, f"{ast.unparse(n)[:80]} has an arbitrary order"
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and self.unordered(n.value): yield n, f"{ast.unparse(n)[:80]} takes an arbitrary member"
            elif isinstance(n, (ast.FormattedValue,)) and self.unordered(n.value): yield n.value, "a text shows a collection in an arbitrary order"
        # sorting or indexing by identity / randomised hash
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg == "key" and any(isinstance(x, ast.Name) and x.id in ("id", "hash") for x in ast.walk(k.value)): yield n, f"{ast.unparse(n)[:80]} sorts by memory address or randomised hash"
                if isinstance(n.func, ast.Name) and n.func.id in ("id", "hash") and n.args:
                    p = self.par.get(n)
                    if isinstance(p, ast.BinOp) and isinstance(p.op, (ast.Mod, ast.Add, ast.Mult, ast.BitXor, ast.BitAnd)): yield n, f"{ast.unparse(p)[:60]} computes with a memory address or randomised hash"
    def swallowed(self, n):
        p = self.par.get(n)
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in SAFE and not any(k.arg == "key" for k in p.keywords): return True
        if isinstance(p, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops): return True
        return False
    def commutes(self, body, target):
        """the order of the iterations cannot be seen afterwards"""
        def ok(s):
            if isinstance(s, ast.Pass) or isinstance(s, ast.Continue): return True
            if isinstance(s, ast.If): return all(ok(x) for x in s.body + s.orelse)
            if isinstance(s, ast.Return): return s.value is None or isinstance(s.value, ast.Constant)
            if isinstance(s, ast.Raise): return True
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute): return s.value.func.attr in ("add", "discard") 
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): return True
            if isinstance(s, ast.Assign): return isinstance(s.value, ast.Constant) and all(isinstance(t, ast.Name) for t in s.targets)
            if isinstance(s, ast.AugAssign): return isinstance(s.value, ast.Constant) and isinstance(s.op, (ast.Add, ast.Sub))
            if isinstance(s, ast.Assert): return True
            return False
        return all(ok(s) for s in body)

def run(chk):
    chk.rule("effect", "no function of the engine reads or writes anything but its arguments, its objects and the module's constants")
    chk.rule("order", "no unordered collection is used where its order can reach a result")
    chk.rule("history", "a model that is built, edited and analysed after others were gives what it gives in a new process")
    @attempt(chk, "effect", "engine modules")
    def _():
        for m, (f, tree) in sorted(modules().items()):
            chk.files.add(f)
            n = Names(tree); own = owners(tree); bad = False
            calls = {id(c.func) for _, c in n.sites}
            for nm, c in n.sites:
                chk.count("call sites")
                k = kind_of(nm)
                if k is None and isinstance(c.func, ast.Attribute) and c.func.attr in METH and not (isinstance(c.func.value, ast.Name) and c.func.value.id == "self"): k = METH[c.func.attr]
                if k is None and isinstance(c.func, ast.Attribute) and c.func.attr == "show" and ("fig" in ast.unparse(c.func.value)): k = "other processes"
                if k:
                    bad = True; chk.violate("effect", f"{own.get(c, '?')}: {nm or c.func.attr}", f"{f}:{c.lineno} {own.get(c, '?')}", f"{own.get(c, '?')} uses {k}: {ast.unparse(c)[:80]}")
            for x in ast.walk(tree):
                if isinstance(x, (ast.Attribute, ast.Subscript)) and id(x) not in calls:
                    nm = n.name(x.value if isinstance(x, ast.Subscript) else x)
                    if nm and nm.startswith(("os.environ", "sys.argv", "sys.stdin")) :
                        bad = True; chk.violate("effect", f"{own.get(x, '?')}: {nm}", f"{f}:{x.lineno} {own.get(x, '?')}", f"{own.get(x, '?')} uses the environment: {ast.unparse(x)[:80]}")
            if not bad: chk.ok("effect", m, f"{len(n.sites)} call sites")
    @attempt(chk, "order", "unordered collections")
    def _():
        for m, (f, tree) in sorted(modules().items()):
            own = owners(tree); o = Order(tree, own); bad = False
            for e in ast.walk(tree):
                if isinstance(e, ast.expr) and o.unordered(e): chk.count("unordered expressions")
            for x, what in o.uses():
                bad = True; chk.violate("order", f"{own.get(x, '?')}: {ast.unparse(x)[:60]}", f"{f}:{x.lineno} {own.get(x, '?')}", what)
            if not bad: chk.ok("order", m, "every unordered collection is only counted, tested or sorted")
    # ---- what came before does not matter
    n = 30 if chk.tier == "quick" else 120
    def build(w, o, ms, us, ls):
        w.m(o, "set_materials", *ms); w.m(o, "set_udls", *us); w.m(o, "set_lls", *ls); w.m(o, "set_water_table", w.s("wd"))
        w.m(o, "update_analysis_options", slices=w.s("n0", "int"), max_iterations=const(2))
    def objects(w):
        ms = [w.material(i) for i in (1, 2)]
        us = [w.udl(1), w.udl(2, cont=True)]; ls = [w.ll(1)]
        return ms, us, ls
    def after(kind):
        """the same model made in a new process and after other work, in two copies of one state"""
        w = World(); chk.use(w.eng)
        h, l = w.s("height"), w.s("length")
        w.st.assume(lt(ZERO, sym("depth1"))); w.st.assume(lt(sym("depth1"), sym("depth2")))
        hook_intersections(w); hook_planes(w, 2); hook_fos(w, none=False)
        a, b = w.clone(), w.clone()
        def other(v):
            o = v.new("Slope", height=v.s("heightb"), angle=NONE, length=v.s("lengthb"))
            v.m(o, "set_materials", v.new("Material", unit_weight=v.s("uw7"), friction_angle=v.s("phi7"), cohesion=v.s("coh7"), depth_to_bottom=const(5)), v.new("Material", depth_to_bottom=const(9)))
            v.m(o, "set_udls", v.new("Udl", magnitude=const(7))); v.m(o, "set_lls", v.new("LineLoad", magnitude=const(3)))
            if kind in ("analysed", "plotted"): v.m(o, "analyse_slope")
            if kind == "plotted": v.m(o, "plot_all_planes")
            if kind == "errors":
                try: v.m(o, "set_water_table", const("deep"))
                except Unsupported: pass
        other(b)
        if b.dead(): raise Unsupported("other model not built")
        pics = []
        for v in (a, b):
            v.o = v.new("Slope", height=h, angle=NONE, length=l)
            build(v, v.o, *objects(v)); v.m(v.o, "analyse_slope"); chk.use(v.eng)
        if a.dead() or b.dead(): raise Unsupported("model not built")
        syms = set(w.eng.allsyms)
        s = Samples(syms, [c for c, _ in a.st.pc] + [c for c, _ in b.st.pc], chk.seed, n, None, None, kind)
        m = 0
        for e in s.evs:
            x, y = concrete(a.st, a.o, e), concrete(b.st, b.o, e)
            if has_q(x) or has_q(y): 
                d = heap.pic_diff(x, y)
                if not d: m += 1; continue
            else: d = heap.pic_diff(x, y)
            m += 1
            if d:
                chk.violate("history", f"{kind}: {d[0]}", where_m(a, "Slope", "analyse_slope"), f"after another model was {kind}, the same calls give {d[0]} = {heap._p(d[2])} instead of {heap._p(d[1])}", e.env); return
        if m: chk.agreed("history", f"after another model was {kind}", f"{m} assignments")
        else: chk.undecided("history", kind, "no admissible assignment")
    for k in ("built", "analysed", "plotted"): attempt(chk, "history", k, lambda k=k: after(k))

def has_q(x): return x == "?" or isinstance(x, tuple) and any(has_q(y) for y in x)
