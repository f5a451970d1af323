"""C23: safe defaults of the deployment, and no request data executed as code.

Settings: the settings module is evaluated with every environment variable unknown; the
value of each security setting is then a case expression over the environment.
Code: every call site of the application is classified by what it calls."""
import ast, os, re
from .. import terms as T
from ..terms import Node, isc, cval, sym, TRUE, NONE
from ..values import *
from ..interp import Engine
from ..oblig import REPO, Samples
from .common import attempt
from .c22 import plain, seq

ENVTEXT = ["TRUE", "True", "true", "1", "FALSE", "False", "0", "", "on", "yes", "debug", " TRUE", "TRUE ", "*", "secret-value"]

class Env:
    """os.environ as unknown text per variable, each possibly unset"""
    def __init__(self): self.names = []
    def var(self, n):
        if n not in self.names: self.names.append(n)
        return sym(f"env:{n}?", "bool"), sym(f"env:{n}", "str")
    def hook(self, eng, st, path, args, kw, recv, node):
        if path in ("os.environ.get", "os.getenv", "os.environ.__getitem__", "os.environ.__contains__", "os.environ.setdefault"):
            if not args or not isinstance(args[0], Node) or not isc(args[0]): return NotImplemented
            on, txt = self.var(cval(args[0]))
            if path.endswith("__contains__"): return on
            if path.endswith("__getitem__"):
                st.assume(on); return txt
            d = args[1] if len(args) > 1 else kw.get("default", NONE)
            return VIte(on, txt, d)
        if path == "dj_database_url.config": return eng.new(st, DictRec(()))
        return NotImplemented
    def domain(self):
        return {f"env:{n}": ENVTEXT for n in self.names}

def at(eng, v, e, depth=0):
    """the value at one environment, as plain data; unknown parts are '?'"""
    if depth > 30: return "?"
    while isinstance(v, VIte):
        t = e.truth(v.c)
        if t is T.AMB or t is T.ERR: return "?"
        v = v.a if t else v.b
    if isinstance(v, Node):
        try: x = e(v)
        except (NotImplementedError, KeyError): return "?"
        if x is T.AMB or x is T.ERR: return "?"
        return x
    if isinstance(v, VTuple): return tuple(at(eng, x, e, depth + 1) for x in v.items)
    if isinstance(v, Ref):
        r = eng.base.heap[v.id]
        if isinstance(r, ListRec):
            out = []
            for g, x in r.items:
                t = e.truth(g)
                if t is True: out.append(at(eng, x, e, depth + 1))
                elif t is not False: return "?"
            return out
        if isinstance(r, DictRec):
            out = {}
            for k, g, x in r.items:
                t = e.truth(g)
                if t is True: out[repr(k) if not isinstance(at(eng, k, e, depth + 1), str) else at(eng, k, e, depth + 1)] = at(eng, x, e, depth + 1)
                elif t is not False: return "?"
            return out
    return "?"

def has_unknown(x):
    if x == "?": return True
    if isinstance(x, (list, tuple)): return any(has_unknown(y) for y in x)
    if isinstance(x, dict): return any(has_unknown(y) for y in x.values())
    return False

NEED = {"CSRF": "django.middleware.csrf.CsrfViewMiddleware", "session": "django.contrib.sessions.middleware.SessionMiddleware",
        "clickjacking": "django.middleware.clickjacking.XFrameOptionsMiddleware", "security": "django.middleware.security.SecurityMiddleware"}

def settings(chk, modname):
    eng = Engine(REPO)
    env = Env(); eng.hooks["ext_call"] = env.hook
    mod = eng.load(modname)
    chk.use(eng)
    ns = eng.base.heap[mod.env.id].vars
    f = modname.replace(".", "/") + ".py"
    lines = {}
    try:
        for n in ast.walk(ast.parse(open(os.path.join(REPO, f)).read())):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []):
                if isinstance(t, ast.Name): lines[t.id] = n.lineno
    except OSError: pass
    wh = lambda k: f"{f}:{lines.get(k, 1)}"
    env.var("DJANGO_DEBUG"); env.var("SECRET_KEY")
    syms = [s for n in env.names for s in env.var(n)]
    pc = [c for c, soft in eng.base.pc]
    s = Samples(syms, pc, chk.seed, 150 if chk.tier == "quick" else 600, env.domain(), None, modname)
    # the site with no special environment, and with each single variable set
    evs = list(s.evs)
    none = {x.args[0]: (False if x.args[1] == "bool" else "") for x in syms}
    for extra in [{}] + [{f"env:{n}?": True, f"env:{n}": t} for n in env.names for t in ENVTEXT]:
        e = s.admit({**none, **extra})
        if e is not None: evs.append(e)
    chk.count("environment variables read", len(env.names)); chk.count("environments", len(evs))
    chk.configs.append(f"{modname}: {', '.join(env.names)} each unset or any text")
    seen = {}
    def note(rule, construct, key, bad, e):
        k = (rule, construct)
        if bad and k not in seen or bad and not seen[k][0]: seen[k] = (bad, key, e)
        else: seen.setdefault(k, (None, key, e))
    unknown = set()
    for e in evs:
        documented = e.env["env:DJANGO_DEBUG?"] is True and e.env["env:DJANGO_DEBUG"] == "TRUE"
        v = {k: at(eng, ns[k], e) if k in ns else None for k in ("DEBUG", "SECRET_KEY", "ALLOWED_HOSTS", "MIDDLEWARE", "X_FRAME_OPTIONS", "SESSION_SERIALIZER",
             "SECURE_CONTENT_TYPE_NOSNIFF", "SESSION_COOKIE_HTTPONLY", "CSRF_TRUSTED_ORIGINS", "INSTALLED_APPS", "TEMPLATES", "CSRF_USE_SESSIONS", "SECRET_KEY_FALLBACKS")}
        for k in v:
            if has_unknown(v[k]): unknown.add(k)
        if v["DEBUG"] != "?":
            note("debug", "debugging off unless DJANGO_DEBUG is TRUE", "DEBUG", f"DEBUG is {v['DEBUG']!r} without DJANGO_DEBUG=TRUE" if v["DEBUG"] and not documented else None, e)
            note("debug", "debugging on when DJANGO_DEBUG is TRUE", "DEBUG", f"DEBUG is {v['DEBUG']!r} with DJANGO_DEBUG=TRUE" if documented and not v["DEBUG"] else None, e)
        if not documented:
            for k in ("SECRET_KEY", "SECRET_KEY_FALLBACKS"):
                ks = v[k] if isinstance(v[k], list) else [v[k]]
                for x in ks:
                    if x == "?": continue
                    own = x and not any(e.env.get(f"env:{n}?") and e.env.get(f"env:{n}") and e.env[f"env:{n}"] in x for n in env.names)
                    note("secret-key", f"{k} only from the environment", k, f"{k} is {x!r}, which is not from the environment" if own else None, e)
            h = v["ALLOWED_HOSTS"]
            if isinstance(h, (list, tuple)):
                for x in h:
                    if not isinstance(x, str) or x == "?" or any(e.env.get(f"env:{n}?") and e.env[f"env:{n}"] in ("*",) and x == "*" for n in env.names): continue
                    b = x.strip()
                    note("hosts", "no wildcard host", "ALLOWED_HOSTS", f"host {x!r} lets every host name through" if b in ("*", ".*") or b.startswith(".") and b.count(".") < 2 else None, e)
        m = v["MIDDLEWARE"]
        if isinstance(m, (list, tuple)):
            for n, p in NEED.items():
                note("middleware", f"{n} middleware active", "MIDDLEWARE", None if p in m else f"{p} is not in MIDDLEWARE" if not has_unknown(m) else None, e)
            for a, b in (("django.contrib.sessions.middleware.SessionMiddleware", "django.contrib.auth.middleware.AuthenticationMiddleware"),
                         ("django.contrib.sessions.middleware.SessionMiddleware", "django.contrib.messages.middleware.MessageMiddleware")):
                if a in m and b in m: note("middleware", f"sessions before {b.split('.')[-1]}", "MIDDLEWARE", None if m.index(a) < m.index(b) else f"{b} comes before the session middleware it needs", e)
        elif m is None: note("middleware", "middleware", "MIDDLEWARE", "no MIDDLEWARE setting: no security middleware is active", e)
        x = v["X_FRAME_OPTIONS"]
        note("middleware", "clickjacking header", "X_FRAME_OPTIONS", f"X_FRAME_OPTIONS is {x!r}" if x not in (None, "?") and str(x).upper() not in ("DENY", "SAMEORIGIN") else None, e)
        x = v["SECURE_CONTENT_TYPE_NOSNIFF"]
        note("middleware", "content type header", "SECURE_CONTENT_TYPE_NOSNIFF", "SECURE_CONTENT_TYPE_NOSNIFF is switched off" if x is False else None, e)
        x = v["SESSION_SERIALIZER"]
        note("code", "session data are not unpickled", "SESSION_SERIALIZER", f"SESSION_SERIALIZER is {x}: session data are unpickled" if isinstance(x, str) and "pickle" in x.lower() else None, e)
        x = v["TEMPLATES"]
        if isinstance(x, list):
            for t in x:
                if isinstance(t, dict) and isinstance(t.get("OPTIONS"), dict):
                    note("markup", "templates escape values", "TEMPLATES", "autoescape is switched off" if t["OPTIONS"].get("autoescape") is False else None, e)
        x = v["CSRF_TRUSTED_ORIGINS"]
        if isinstance(x, list): 
            for y in x: note("middleware", "CSRF origins", "CSRF_TRUSTED_ORIGINS", f"requests from {y} pass the CSRF check" if isinstance(y, str) and y.split("//")[-1] in ("*", "") else None, e)
    for (rule, c), (bad, key, e) in seen.items():
        if bad: chk.violate(rule, c, wh(key), bad, {k: v for k, v in e.env.items() if not k.endswith("?") and e.env.get(k + "?")})
        elif key in unknown and rule != "middleware": chk.agreed(rule, c, f"{len(evs)} environments; parts unknown")
        else: chk.ok(rule, c, f"{len(evs)} environments")
    for k in ("DEBUG", "SECRET_KEY", "ALLOWED_HOSTS", "MIDDLEWARE"):
        if not any(key == k for _, (b, key, e) in seen.items()): chk.undecided("settings", f"{modname}.{k}", "value not followed")

# ---- code
EXEC = {"eval", "exec", "compile", "__import__", "os.system", "os.popen", "subprocess.getoutput", "subprocess.getstatusoutput", "pickle.loads", "pickle.load",
        "_pickle.loads", "dill.loads", "dill.load", "marshal.loads", "marshal.load", "shelve.open", "yaml.load", "yaml.unsafe_load", "yaml.full_load", "code.interact", "runpy.run_path", "runpy.run_module",
        "importlib.import_module", "jsonpickle.decode", "joblib.load", "pandas.read_pickle", "pandas.eval", "sympy.sympify", "sympy.parse_expr", "sympy.parsing.sympy_parser.parse_expr",
        "numexpr.evaluate", "ctypes.CDLL", "os.popen2", "commands.getoutput", "builtins.eval", "builtins.exec", "types.FunctionType", "timeit.timeit"}
PROC = {"subprocess.run", "subprocess.call", "subprocess.Popen", "subprocess.check_output", "subprocess.check_call", "os.execv", "os.execl", "os.execvp", "os.execlp", "os.spawnl", "os.spawnv", "os.spawnlp", "os.spawnvp", "os.posix_spawn", "asyncio.create_subprocess_shell", "asyncio.create_subprocess_exec", "pty.spawn"}
MARK = {"django.utils.safestring.mark_safe", "django.utils.safestring.SafeString", "django.utils.safestring.SafeText"}
EXEMPT = {"django.views.decorators.csrf.csrf_exempt", "django.views.decorators.clickjacking.xframe_options_exempt", "django.views.decorators.csrf.requires_csrf_token_exempt"}

def sources():
    for d in ("slope", "engineering", "pyslope"):
        for dp, dn, fn in os.walk(os.path.join(REPO, d)):
            dn[:] = sorted(x for x in dn if x not in ("tests", "docs", "migrations", "__pycache__", "examples", "graphs"))
            for f in sorted(fn):
                if f.endswith(".py") and f not in ("tests.py", "_version.py"): yield os.path.relpath(os.path.join(dp, f), REPO)
    for f in ("manage.py",):
        if os.path.exists(os.path.join(REPO, f)): yield f

class Names(ast.NodeVisitor):
    """resolved call sites of one file: (qualified name, call, constant environment of its function)"""
    def __init__(self, tree):
        self.imp = {}; self.sites = []; self.decos = []; self.defs = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names: self.imp[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                for a in n.names: self.imp[a.asname or a.name] = ("." * n.level) + (n.module or "") + ("." if n.module else "") + a.name
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): self.defs.add(n.name)
        # plain aliases: run = subprocess.run
        self.bound = {}
        for n in ast.walk(tree):
            for t in (n.targets if isinstance(n, ast.Assign) else []):
                if isinstance(t, ast.Name): self.bound.setdefault(t.id, []).append(n.value)
        self.visit(tree)
    def name(self, f, depth=0):
        if depth > 8: return None
        if isinstance(f, ast.Name):
            if f.id in self.imp: return self.imp[f.id]
            b = self.bound.get(f.id)
            if b and len(b) == 1 and isinstance(b[0], (ast.Name, ast.Attribute)) : return self.name(b[0], depth + 1)
            return None if f.id in self.defs or b else f.id
        if isinstance(f, ast.Attribute):
            b = self.name(f.value, depth + 1)
            return f"{b}.{f.attr}" if b else None
        if isinstance(f, ast.Call):
            b = self.name(f.func, depth + 1)
            if b == "getattr" and len(f.args) >= 2 and isinstance(f.args[1], ast.Constant):
                o = self.name(f.args[0], depth + 1)
                return f"{o}.{f.args[1].value}" if o else None
            if b in ("__import__", "importlib.import_module") and f.args and isinstance(f.args[0], ast.Constant): return f.args[0].value
        return None
    def const(self, e, depth=0):
        """an expression that is constant text (or a list of it)"""
        if depth > 8: return False
        if isinstance(e, ast.Constant): return True
        if isinstance(e, (ast.List, ast.Tuple)): return all(self.const(x, depth + 1) for x in e.elts)
        if isinstance(e, ast.BinOp): return self.const(e.left, depth + 1) and self.const(e.right, depth + 1)
        if isinstance(e, ast.IfExp): return self.const(e.body, depth + 1) and self.const(e.orelse, depth + 1)
        if isinstance(e, ast.Starred): return self.const(e.value, depth + 1)
        if isinstance(e, ast.JoinedStr): return all(self.const(x, depth + 1) for x in e.values)
        if isinstance(e, ast.FormattedValue): return self.const(e.value, depth + 1)
        if isinstance(e, ast.Attribute): return self.name(e) == "sys.executable"
        if isinstance(e, ast.Name):
            b = self.bound.get(e.id)
            if b: return all(self.const(x, depth + 1) for x in b)
            l = self.loops.get(e.id)
            return bool(l) and all(self.const(x, depth + 1) for x in l) and e.id not in self.params
        return False
    loops = {}; params = frozenset()
    def visit_Module(self, n):
        self.loops = {}
        for x in ast.walk(n):
            if isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.target, ast.Name): self.loops.setdefault(x.target.id, []).append(x.iter)
        self.generic_visit(n)
    def visit_FunctionDef(self, n):
        for d in n.decorator_list: self.decos.append((self.name(d.func if isinstance(d, ast.Call) else d), d, n.name))
        self.generic_visit(n)
    def visit_Call(self, n):
        self.sites.append((self.name(n.func), n)); self.generic_visit(n)

def param_const(all_files, fname):
    """arguments of a helper are constant at every call of it"""
    return None

def code(chk):
    files = list(sources())
    parsed = {}
    for f in files:
        try: parsed[f] = Names(ast.parse(open(os.path.join(REPO, f), encoding="utf8").read()))
        except SyntaxError: chk.undecided("code", f, "syntax error")
    # which parameters of the application's own functions only ever receive constants
    calls = {}
    for f, n in parsed.items():
        for nm, c in n.sites:
            b = c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None
            if b: calls.setdefault(b, []).append((n, c))
    def is_const(n, e, fn, depth=0):
        if n.const(e): return True
        if fn is None or depth > 4: return False
        params = [a.arg for a in fn.args.posonlyargs + fn.args.args]
        kwonly = [a.arg for a in fn.args.kwonlyargs]
        var = fn.args.vararg.arg if fn.args.vararg else None
        def expr(x):
            if isinstance(x, ast.Name) and x.id in params + kwonly + [var]:
                got = calls.get(fn.name, [])
                if not got: return False
                for m, c in got:
                    if any(k.arg is None for k in c.keywords): return False
                    if x.id == var:
                        if not all(m.const(a) for a in c.args[len(params):]): return False
                        continue
                    k = [w.value for w in c.keywords if w.arg == x.id]
                    off = 1 if params[:1] == ["self"] else 0
                    i = params.index(x.id) - off if x.id in params else None
                    a = k[0] if k else c.args[i] if i is not None and i < len(c.args) else None
                    if a is None: continue      # default value
                    if not m.const(a): return False
                return True
            if isinstance(x, (ast.List, ast.Tuple)): return all(expr(y) for y in x.elts)
            if isinstance(x, ast.Starred): return expr(x.value)
            if isinstance(x, ast.BinOp): return expr(x.left) and expr(x.right)
            return n.const(x)
        return expr(e)
    for f, n in parsed.items():
        src = ast.parse(open(os.path.join(REPO, f), encoding="utf8").read())
        chk.files.add(f)
        owner = {}
        for fn in ast.walk(src):
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for x in ast.walk(fn):
                    if isinstance(x, ast.Call): owner[(x.lineno, x.col_offset)] = fn
        bad = False
        for nm, c in n.sites:
            fn = owner.get((c.lineno, c.col_offset))
            where = f"{f}:{c.lineno} {fn.name if fn else '<module>'}"
            chk.count("call sites")
            if nm in EXEC:
                arg = c.args[0] if c.args else None
                if arg is None or not is_const(n, arg, fn):
                    bad = True; chk.violate("code", f"{f}: {nm}", where, f"{nm} is called with {ast.unparse(arg) if arg is not None else 'data'} that is not constant")
            elif nm in PROC:
                sh = [k.value for k in c.keywords if k.arg == "shell"]
                arg = c.args[0] if c.args else next((k.value for k in c.keywords if k.arg == "args"), None)
                if arg is None or not is_const(n, arg, fn):
                    bad = True; chk.violate("code", f"{f}: {nm}", where, f"{nm} starts a process from {ast.unparse(arg) if arg is not None else 'data'}, which is not constant")
            elif nm in MARK or nm == "django.utils.html.format_html" and not (c.args and n.const(c.args[0])):
                arg = c.args[0] if c.args else None
                if arg is None or not is_const(n, arg, fn):
                    bad = True; chk.violate("markup", f"{f}: {nm}", where, f"{ast.unparse(arg) if arg is not None else 'data'} is put into a page without escaping")
            elif nm in EXEMPT:
                bad = True; chk.violate("middleware", f"{f}: {nm}", where, f"{nm} takes a view out of the protection")
        for d, x, name in n.decos:
            if d in EXEMPT or d == "django.utils.decorators.method_decorator" and isinstance(x, ast.Call) and x.args and n.name(x.args[0]) in EXEMPT:
                bad = True; chk.violate("middleware", f"{f}: {name}", f"{f}:{x.lineno} {name}", f"view {name} is taken out of the protection by {ast.unparse(x)}")
        if not bad: chk.ok("code", f, f"{len(n.sites)} call sites")

TAG = re.compile(r"({%.*?%}|{{.*?}}|{#.*?#})")
def templates(chk):
    d = os.path.join(REPO, "slope", "templates")
    ctx = context_keys()
    for dp, dn, fn in os.walk(d):
        for f in sorted(fn):
            if not f.endswith((".html", ".txt", ".js")): continue
            p = os.path.join(dp, f); rel = os.path.relpath(p, REPO)
            text = open(p, encoding="utf8").read()
            text = re.sub(r"{%\s*comment.*?%}.*?{%\s*endcomment\s*%}", lambda m: "\n" * m.group(0).count("\n"), text, flags=re.S)
            chk.files.add(rel)
            bad = False; loopvars = {}
            auto = []
            for m in TAG.finditer(text):
                t = m.group(0); ln = text.count("\n", 0, m.start()) + 1
                if t.startswith("{%"):
                    w = t[2:-2].split()
                    if w[:1] == ["for"] and "in" in w:
                        root = w[w.index("in") + 1].split("|")[0].split(".")[0]
                        for x in " ".join(w[1:w.index("in")]).replace(",", " ").split(): loopvars[x] = root
                    if w[:1] == ["autoescape"]: auto.append(w[1] if len(w) > 1 else "on")
                    if w[:1] == ["endautoescape"] and auto: auto.pop()
                    if w[:1] == ["with"]:
                        for a in w[1:]:
                            if "=" in a: loopvars[a.split("=")[0]] = a.split("=", 1)[1].split("|")[0].split(".")[0]
                elif t.startswith("{{"):
                    chk.count("template values")
                    parts = t[2:-2].strip().split("|")
                    filt = [x.split(":")[0].strip() for x in parts[1:]]
                    root = parts[0].strip().split(".")[0]
                    k = 0
                    while root in loopvars and k < 10: root = loopvars[root]; k += 1
                    raw = ("safe" in filt or "safeseq" in filt or auto[-1:] == ["off"]) and not any(x in filt for x in ("escape", "force_escape", "json_script", "escapejs"))
                    if raw and (root in ctx or root == "request"):
                        bad = True; chk.violate("markup", f"{rel}: {parts[0].strip()}", f"{rel}:{ln}", f"{t} puts a value of the request or session into the page without escaping")
            for m in re.finditer(r"<form\b[^>]*>", text, re.I):
                if re.search(r"method\s*=\s*['\"]?post", m.group(0), re.I):
                    end = text.find("</form", m.end()); body = text[m.end():end if end >= 0 else len(text)]
                    ln = text.count("\n", 0, m.start()) + 1
                    if not re.search(r"{%\s*csrf_token\s*%}", body):
                        bad = True; chk.violate("middleware", f"{rel}: form", f"{rel}:{ln}", "a form is posted without the CSRF token, so every submission is refused")
                    else: chk.ok("middleware", f"{rel}: posted form carries the CSRF token", f"line {ln}")
            if not bad: chk.ok("markup", rel, "every value from the context is escaped")

def context_keys():
    """names the views hand to templates"""
    out = set()
    p = os.path.join(REPO, "slope", "views.py")
    try: tree = ast.parse(open(p, encoding="utf8").read())
    except (OSError, SyntaxError): return out
    for n in ast.walk(tree):
        if isinstance(n, ast.Dict):
            for k in n.keys:
                if isinstance(k, ast.Constant) and isinstance(k.value, str): out.add(k.value)
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str): out.add(n.slice.value)
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and isinstance(n.func, ast.Name) and n.func.id == "dict": out.add(k.arg)
    return out

SINK = re.compile(r"(?:\.(?:innerHTML|outerHTML)\s*\+?=(?!=)|\.insertAdjacentHTML\s*\(|document\.write(?:ln)?\s*\(|\.srcdoc\s*=(?!=)|\$\([^)]*\)\.html\s*\()")
EVALJS = re.compile(r"(?<![\w.$])(?:eval|Function|setTimeout|setInterval)\s*\(\s*(?!function|\(|[\w$.]+\s*(?:=>|,|\)))")
def script_text(s):
    """JavaScript without comments; string contents kept"""
    out = []; i = 0
    while i < len(s):
        c = s[i]
        if s.startswith("//", i) and (not out or out[-1] != ":"):
            j = s.find("\n", i); i = len(s) if j < 0 else j; continue
        if s.startswith("/*", i):
            j = s.find("*/", i); j = len(s) if j < 0 else j + 2
            out.append("\n" * s.count("\n", i, j)); i = j; continue
        if c in "'\"`":
            j = i + 1
            while j < len(s) and s[j] != c: j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1]); i = j + 1; continue
        out.append(c); i += 1
    return "".join(out)
def statement(s, i):
    """the expression starting at i, to the end of its statement"""
    d = 0; j = i
    while j < len(s):
        c = s[j]
        if c in "'\"`":
            k = j + 1
            while k < len(s) and s[k] != c: k += 2 if s[k] == "\\" else 1
            j = k + 1; continue
        if c in "([{": d += 1
        if c in ")]}":
            d -= 1
            if d < 0: break
        if c == ";" and d <= 0: break
        if c == "\n" and d <= 0 and s[i:j].strip() and not re.match(r"\s*[+.?:]", s[j:]) and not re.search(r"[+=,(]\s*$", s[i:j]): break
        j += 1
    return s[i:j]
def assembled(e):
    """markup put together from text with tags and something else"""
    strs = re.findall(r"'(?:\\.|[^'\\])*'|\"(?:\\.|[^\"\\])*\"", e)
    tmpl = re.findall(r"`(?:\\.|[^`\\])*`", e)
    if any("<" in t and "${" in t for t in tmpl): return True
    rest = re.sub(r"'(?:\\.|[^'\\])*'|\"(?:\\.|[^\"\\])*\"|`(?:\\.|[^`\\])*`", "", e)
    return any("<" in t for t in strs + tmpl) and "+" in rest and re.search(r"[A-Za-z_$]", rest) is not None
def scripts(chk):
    d = os.path.join(REPO, "static", "slope")
    if not os.path.isdir(d): return
    for f in sorted(os.listdir(d)):
        if not f.endswith(".js"): continue
        rel = f"static/slope/{f}"; s = script_text(open(os.path.join(d, f), encoding="utf8").read())
        chk.files.add(rel); bad = False
        for m in SINK.finditer(s):
            chk.count("markup sinks in scripts")
            e = statement(s, m.end())
            # a variable assembled before
            v = re.fullmatch(r"\s*([A-Za-z_$][\w$]*)\s*", e)
            es = [e] + ([statement(s, x.end()) for x in re.finditer(r"(?<![\w$.])" + re.escape(v.group(1)) + r"\s*\+?=(?!=)", s)] if v else [])
            if any(assembled(x) for x in es) or v and any("<" in x for x in es) and any(re.search(r"\+\s*[A-Za-z_$]|\.value", x) for x in es):
                bad = True; chk.violate("markup", f"{rel}: {m.group(0).strip(' =(')}", f"{rel}:{s.count(chr(10), 0, m.start()) + 1}", f"values are put into the page as markup: {m.group(0)}{' '.join(e.split())[:100]}")
        for m in EVALJS.finditer(s):
            if m.group(0).startswith(("eval", "Function")) or assembled(statement(s, m.end())):
                bad = True; chk.violate("code", f"{rel}: {m.group(0).strip()}", f"{rel}:{s.count(chr(10), 0, m.start()) + 1}", f"text is run as code: {m.group(0)}{' '.join(statement(s, m.end()).split())[:80]}")
        if not bad: chk.ok("markup", rel, "no markup assembled from values")

def settings_modules():
    out = []
    for f in ("engineering/wsgi.py", "engineering/asgi.py", "manage.py"):
        p = os.path.join(REPO, f)
        if not os.path.exists(p): continue
        tree = ast.parse(open(p, encoding="utf8").read())
        for n in ast.walk(tree):
            a = None
            if isinstance(n, ast.Call) and len(n.args) == 2 and isinstance(n.func, ast.Attribute) and n.func.attr == "setdefault": a = n.args
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript): a = [n.targets[0].slice, n.value]
            if a and isinstance(a[0], ast.Constant) and a[0].value == "DJANGO_SETTINGS_MODULE" and isinstance(a[1], ast.Constant) and a[1].value not in out: out.append(a[1].value)
    return out or ["engineering.settings"]

def run(chk):
    chk.rule("debug", "DEBUG is on exactly when DJANGO_DEBUG is TRUE")
    chk.rule("secret-key", "without debugging, the secret key is never text written in the source")
    chk.rule("hosts", "without debugging, no entry of ALLOWED_HOSTS matches every host")
    chk.rule("middleware", "CSRF, session, clickjacking and security middleware are active in every environment, in a working order, and no view is exempt")
    chk.rule("code", "no call executes text, unpickles data or starts a process unless its arguments are constants of the source")
    chk.rule("markup", "no value from the request or session is put into a page without escaping")
    for m in settings_modules(): attempt(chk, "settings", m, lambda m=m: settings(chk, m))
    attempt(chk, "code", "call sites", lambda: code(chk))
    attempt(chk, "markup", "templates", lambda: templates(chk))
    attempt(chk, "markup", "scripts", lambda: scripts(chk))
