"""C21: every request is answered and the stored session stays in step.

The views are interpreted from every state of the stored session that they can leave behind,
starting from none, with symbolic form values and search results. No exception may escape, every
path must end in a page, a document or a redirect, and after it the stored form, plot and search
are all of the same request, all unchanged or all empty."""
import os, re
from fractions import Fraction
from ..oblig import REPO
from ..web import Web, ROW, last
from .common import *
from . import c20, heap

P = "slope/views.py"
KEYS = ("forms", "plot_json", "search")

class Site:
    """one visitor: the views, the stored session and what was computed for it"""
    def __init__(self):
        w = self.w = Web(rows={"material": ["filled"], "udl": ["filled"], "ll": ["blank"]})
        self.plots = {}; self.n = 0
        eng = w.eng
        eng.hooks["ext_truth"] = self.truth
        self.sl, self.an = c20.choices(w, "slope_choice"), c20.choices(w, "analysis_choice")
        need(w, "Slope", "analyse_slope", "analyse_dynamic", "plot_boundary", "plot_critical")
        def dyn(eng, st, f, recv, args, kw, node):
            eng.may_raise(st, w.s(f"dynamic analysis fails{self.n}", "bool"), "ValueError", node)
            if st.dead: return UNDEF
            return eng.call(st, eng.getattr(st, recv, "analyse_slope", node), [], {}, node)
        eng.hooks["Slope.analyse_dynamic"] = dyn
        for m in ("plot_critical", "plot_boundary", "plot_all_planes"): self.watch(m)
        w.session = eng.new(w.st, DictRec(()))
    def watch(self, m):
        eng = self.w.eng
        def h(eng, st, f, recv, args, kw, node):
            del eng.hooks["Slope." + m]
            try: v = eng.call_func(st, f, recv, args, kw, node)
            finally: eng.hooks["Slope." + m] = h
            for g, x in alts(v):
                if isinstance(x, ExtVal): self.plots.setdefault(x.uid, set()).add(recv.id)
            return v
        eng.hooks["Slope." + m] = h
    def truth(self, eng, st, v):
        if v.path.startswith(("request.POST", "stored")) or last(v.path) == "to_json": return TRUE
        return NotImplemented
    def send(self, req, planes=1, plain=False):
        """one request; returns (response, outcomes, raises)"""
        w = self.w; self.n += 1
        w.tag = f"r{self.n} "; w.renders = []; w.redirects = []; w.responses = []; w.created = []
        w.invalid = set()
        w.rows = {"material": ["filled"], "udl": ["filled"], "ll": ["blank"]}
        for k in ("slope.height", "slope.length"): w.config.pop(k, None)
        if plain:
            # an earlier request: the usual values
            w.rows = {"material": ["blank"], "udl": [], "ll": []}; w.config.update({"slope.height": 3, "slope.length": 4})
        self.ps = hook_planes(w, planes, f"r{self.n}p"); hook_fos(w, none=req != "page")
        for p in self.ps: w.st.assume(le(ZERO, T.app("fos", "real", p["cx"], p["cy"], p["r"])))
        if req == "page":
            # the default model is fixed: its analysis is taken to find a plane that is shown
            w.st.assume(le(T.app("fos", "real", self.ps[0]["cx"], self.ps[0]["cy"], self.ps[0]["r"]), const(2)))
        view, method, kw = "index", "POST", {}
        dyn = req.endswith("dynamic")
        w.config.update({"options.slope_choice": c20.by_label(self.sl, "length"), "options.analysis_choice": c20.by_label(self.an, "dynamic" if dyn else "normal"),
                         "water.consider_water": False, "limits.consider_limits": False, "limits.consider_internal_limits": False})
        if req == "page": method = "GET"
        elif req == "other method": method = "PUT"
        elif req.startswith("invalid "): w.invalid = {req.split()[1]}
        elif req == "reset": view, method = "reset", "GET"
        elif req == "pdf": view, method, kw = "pdf", "GET", {"max_fos": w.s(f"max fos text{self.n}", "str")}
        elif req == "submission of everything":
            for k in ("water.consider_water", "limits.consider_limits", "limits.consider_internal_limits"): w.config[k] = True
        self.method = method
        self.before = {k: v for k, v in self.stored(w.st).items()}
        self.post = f"request.POST#{self.n}"
        r = w.request(method, None, self.post)
        v = w.view(view, r, **kw)
        return v, w.last
    def stored(self, st):
        return {cval(k): (g, v) for k, g, v in st.heap[self.w.session.id].items if isc(k)}
    def narrowed(self, pc):
        """stored session after the request under a path condition"""
        st = self.w.st.clone()
        for c in pc:
            if c.id not in st.facts: st.assume(c)
        out = {}
        for k, (g, v) in self.stored(st).items():
            d = self.w.eng.decide(st, g)
            if d is None: raise Unsupported(f"whether {k} is stored depends on {g!r}"[:200])
            if d: out[k] = pick(self.w, st, v)
        return out, st
    def settle(self, pc, search=None):
        """the request took this path; what is stored went through text"""
        w = self.w
        out, st = self.narrowed(pc)
        if search is not None and "search" in out:
            t = w.eng.truth(st, out["search"])
            st.assume(t if search else not_(t))
        def text(v):
            if isinstance(v, VTuple): return w.eng.new(st, ListRec([(TRUE, text(x)) for x in v.items]))
            if isinstance(v, VIte): return VIte(v.c, text(v.a), text(v.b))
            if isinstance(v, Ref):
                r = st.heap[v.id]
                if isinstance(r, ListRec): return w.eng.new(st, ListRec([(g, text(x)) for g, x in r.items if w.eng.decide(st, g) is not False], "list"))
                if isinstance(r, DictRec):
                    n = w.eng.new(st, DictRec([(k, g, text(x)) for k, g, x in r.items]))
                    if v.id in w.eng.open_refs: w.eng.open_refs.add(n.id)
                    return n
            if isinstance(v, ExtVal) and v.path.startswith("request.POST"): return ExtVal("stored." + v.path, (), {}, None, v.uid)
            return v
        items = [(const(k), TRUE, text(v)) for k, v in out.items()]
        w.st = st
        st.heap[w.session.id] = DictRec(items)

class Open(Exception): pass
def pick(w, st, v):
    while isinstance(v, VIte):
        d = w.eng.decide(st, v.c)
        if d is None:
            a, b = pick(w, st, v.a), pick(w, st, v.b)
            return VIte(v.c, a, b)
        v = v.a if d else v.b
    return v
class View:
    """what is stored after a path, at one assignment or (e None) for all of them"""
    def __init__(self, site, st, e=None): self.site = site; self.w = site.w; self.st = st; self.e = e
    def truth(self, c):
        if c is TRUE: return True
        if c is FALSE: return False
        if self.e is not None:
            t = self.e.truth(c)
            if t is T.AMB or t is T.ERR or t is None: raise Open()
            return t
        d = self.w.eng.decide(self.st, c)
        if d is None: raise Open()
        return d
    def pick(self, v):
        while isinstance(v, VIte): v = v.a if self.truth(v.c) else v.b
        return v
    def session(self):
        out = {}
        for k, (g, v) in self.site.stored(self.st).items():
            if self.truth(g): out[k] = self.pick(v)
        return out
    def falsy(self, v): return not self.truth(self.w.eng.truth(self.st, v))
    def origin(self, v):
        v = self.pick(v)
        while isinstance(v, ExtVal) and v.uid not in self.site.plots: v = self.pick(v.recv) if v.recv is not None else None
        return self.site.plots[v.uid] if isinstance(v, ExtVal) else None
    def planes(self, v):
        v = self.pick(v)
        if not isinstance(v, Ref) or not isinstance(self.st.heap[v.id], ListRec): return None
        out = []
        for g, x in self.st.heap[v.id].items:
            if not self.truth(g): continue
            x = self.pick(x)
            if not isinstance(x, Ref) or not isinstance(self.st.heap[x.id], DictRec): return None
            d = {cval(k): z for k, g2, z in self.st.heap[x.id].items if isc(k)}
            out.append(tuple(self.number(d.get(k)) for k in ("FOS", "c_x", "c_y", "radius")))
        return out
    def number(self, v):
        v = self.pick(v) if v is not None else None
        if isinstance(v, Node) and self.e is not None:
            try: return self.e(v)
            except (NotImplementedError, KeyError): raise Open()
        return v.id if isinstance(v, Node) else v
    def same(self, x, y):
        x, y = self.pick(x), self.pick(y)
        if x is y: return True
        if isinstance(x, Ref) and isinstance(y, Ref): return x.id == y.id
        if isinstance(x, ExtVal) and isinstance(y, ExtVal): return x.uid == y.uid
        if isinstance(x, Node) and isinstance(y, Node): return self.number(x) == self.number(y)
        return False

def unjson(w, st, v, path=""):
    """a part of a value that cannot be stored as text"""
    if isinstance(v, Node): return None
    if isinstance(v, VTuple):
        for i, x in enumerate(v.items):
            r = unjson(w, st, x, f"{path}[{i}]")
            if r: return r
        return None
    if isinstance(v, VIte): return unjson(w, st, v.a, path) or unjson(w, st, v.b, path)
    if isinstance(v, Ref):
        r = st.heap[v.id]
        if isinstance(r, ListRec):
            if r.kind != "list": return f"{path} is a {r.kind}"
            for i, (g, x) in enumerate(r.items):
                q = unjson(w, st, x, f"{path}[{i}]")
                if q: return q
            return None
        if isinstance(r, DictRec):
            for k, g, x in r.items:
                if not isinstance(k, Node): return f"{path} has a key that is not text or a number"
                q = unjson(w, st, x, f"{path}[{cval(k) if isc(k) else '?'}]")
                if q: return q
            return None
        if isinstance(r, ArrRec): return f"{path} is an array"
        if isinstance(r, ObjRec): return f"{path} is a {r.cls.name} object"
    if isinstance(v, (Func, ClassVal, BoundMethod)): return f"{path} is a {type(v).__name__}"
    if isinstance(v, ExtVal) and v.uid is not None:
        if v.path in ("decimal.Decimal", "formset", "request") : return f"{path} is a {v.path}"
        if v.path.endswith(("Figure", "update_layout()", "plotly.graph_objects.Figure")): return f"{path} is a figure"
    return None

STATES = {"new visitor": (), "after the first page": (("page", None),), "after an analysis": (("submission", True),), "after a dynamic analysis": (("submission dynamic", True),), "after an analysis without results": (("submission", False),),
          "after an invalid form": (("submission", True), ("invalid material", None)), "after a reset": (("submission", True), ("reset", None))}
REQS = ["page", "submission", "submission dynamic", "invalid material", "invalid options", "reset", "pdf", "other method"]

def sig(site):
    w = site.w; out = []
    st = w.st
    for k in KEYS:
        d = site.stored(st)
        if k not in d: out.append("absent"); continue
        t = w.eng.decide(st, w.eng.truth(st, d[k][1]))
        out.append({True: "full", False: "empty", None: "either"}[t])
    return tuple(out)

def prepare(state):
    site = Site()
    for req, search in STATES[state]:
        site.send(req, plain=True)
        w = site.w
        if w.dead(): raise Unsupported(f"{req} never succeeds")
        outs = w.renders if req in ("page", "submission", "submission dynamic") else w.redirects
        if not outs: raise Unsupported(f"{req} gives no {'page' if outs is w.renders else 'redirect'}")
        st = outs[-1][0]
        site.settle([c for c, soft in st.pc if not soft], search)
    return site

TEXTS = ["5", "1.2.3", "abc", "", "2.5", "1,5", "-1", "1e3", "\u00b2", "nan", "3.", " 4", "1_0", "--1", "."]
def one(chk, state, req, urls, n):
    name = f"{state}, {req}"
    site = prepare(state); w = site.w
    start = sig(site)
    old, _ = site.narrowed([])
    dom = {f"r{k} {a}": v for k in (1, 2, 3) for a, v in c20.DOM.items()}
    dom.update({f"max fos text{k}": TEXTS for k in range(6)})
    v, raises = site.send(req); chk.use(w.eng)
    # 1. nothing escapes
    k = 0
    for s, exc, _ in raises:
        pc = [c for c, soft in s.pc if not soft]; k += 1
        smp = Samples(set(w.eng.allsyms), pc, chk.seed, 2, dom, 40, name)
        c = f"{name}: {exc.cls} in {exc.fn}"
        if smp.evs: chk.violate("answered", c, exc.where(), f"{exc.cls} escapes: a server error", smp.evs[0].env)
        elif chk._prove(lambda: prove.valid(FALSE, pc)): chk.ok("answered", c, "unreachable (linear bounds)")
        else: chk.undecided("answered", c, "no admissible assignment reaches it")
    if not k: chk.ok("answered", f"{name}: exceptions", "no raise outcome")
    if w.dead(): return None
    # 2. there is a response
    bad = [g for g, x in alts(v) if not (isinstance(x, ExtVal) and (x.path.startswith("response:") or "HttpResponse" in x.path or "response" in x.path.lower()))]
    hit = False
    for g in bad:
        smp = Samples(set(w.eng.allsyms), w.pc() + [g], chk.seed, 1, dom, 40, name)
        if smp.evs or g is TRUE: hit = True; chk.violate("answered", f"{name}: response", f"{P}", "a path of the view returns no response", smp.evs[0].env if smp.evs else {}); break
    if not hit: chk.ok("answered", f"{name}: response", f"{len(list(alts(v)))} outcomes")
    # 3. the stored session is in step, on every path
    outs = [("page",) + x for x in w.renders] + [("redirect",) + x for x in w.redirects] + [("document",) + x for x in w.responses]
    ends = set(); done = {}
    old = {k: v0 for k, v0 in old.items()}
    for kind, st0, a, kw, node in outs:
        loc = f"{P}:{getattr(node, 'lineno', '?')}"
        pc = [c for c, soft in st0.pc if not soft]
        if not Samples(set(w.eng.allsyms), pc, chk.seed, 1, dom, 20, name).evs and chk._prove(lambda: prove.valid(FALSE, pc)): continue
        c = f"{name}: {kind} at {loc}"
        st = w.st.clone()
        for x in pc:
            if x.id not in st.facts: st.assume(x)
        try:
            problem, end = judge(View(site, st), old, kind, a, kw); how = "proved"; ends |= {(kind, end)}
            wit = {}
        except Open:
            smp = Samples(set(w.eng.allsyms), pc, chk.seed, n, dom, None, c); how = None; problem = None
            for e in smp.evs:
                try: problem, end = judge(View(site, st, e), old, kind, a, kw)
                except Open: continue
                how = "agrees"; ends.add((kind, end)); wit = e.env
                if problem: break
        if problem: chk.violate("in step", c, loc, problem, wit)
        elif how == "proved": done[c] = done.get(c, 0) + 1
        elif how: chk.agreed("in step", c, f"{len(smp.evs)} assignments")
        else: chk.undecided("in step", c, "no admissible assignment")
        # 5. where it leads
        follow(chk, name, kind, w, st, a, kw, loc, urls)
    for c, m in done.items(): chk.ok("in step", c, f"{m} paths")
    return start, ends

def judge(v, old, kind, a, kw):
    """(problem, kind of session left) of one path"""
    site, w, st = v.site, v.w, v.st
    new = v.session()
    old = {k: v.pick(x) for k, x in old.items()}
    changed = [q for q in KEYS if (q in new) != (q in old) or q in new and not v.same(new[q], old[q])]
    empty = [q for q in KEYS if q not in new or v.falsy(new[q])]
    full = [q for q in KEYS if q not in empty]
    end = tuple("absent" if q not in new else "empty" if q in empty else "full" for q in KEYS)
    if changed and len(empty) < 3:
        for q, what in (("plot_json", "plot"), ("search", "search"), ("forms", "form")):
            if q not in changed and q in full: return f"stores a new {' and '.join(changed)} with the {what} of an earlier request", end
        if "plot_json" in empty and "search" in full: return "stores a search without its plot", end
        if "plot_json" in full and "search" not in new: return "stores a plot without its search", end
        if site.method == "POST" and "plot_json" in full and "forms" in empty: return "stores the plot of a submitted form without the form", end
        if "plot_json" in full:
            sl, pl = v.origin(new["plot_json"]), v.planes(new["search"])
            if sl is not None and pl is not None:
                of = lambda i: v.planes(field(w, Ref(i), "_search"))
                if not any(of(i) == pl for i in sl): return "stores the plot of one analysis with the search of another", end
        if "forms" in full:
            f = new["forms"]
            if isinstance(f, ExtVal) and f.path.startswith("request.POST") and f.path != site.post: return "stores the form of another request", end
    for q in full:
        r = unjson(w, st, new[q], q)
        if r: return f"the session is stored as text, but {r}", end
    if kind == "page":
        ctx = a[2] if len(a) > 2 else kw.get("context")
        if isinstance(ctx, Ref) and isinstance(st.heap.get(ctx.id), DictRec):
            d = {cval(k2): v.pick(x) for k2, g, x in st.heap[ctx.id].items if isc(k2) and v.truth(g)}
            if "plot_json" in d and "plot_json" in full and not v.same(d["plot_json"], new["plot_json"]):
                x, y = v.origin(d["plot_json"]), v.origin(new["plot_json"])
                if x is not None and y is not None and x != y: return "the page shows another plot than the one stored", end
            if "search" in d and "search" in new and not v.same(d["search"], new["search"]):
                x, y = v.planes(d["search"]), v.planes(new["search"])
                if x is not None and y is not None and x != y: return "the page shows another search than the one stored", end
            for f in ("forms",):
                for z in w.created:
                    if isinstance(z["data"], ExtVal) and z["data"].path.startswith("request.POST") and z["data"].path != site.post: return "the page shows the form of another request", end
    return None, end

_seen = set()
def follow(chk, name, kind, w, st, a, kw, loc, urls):
    if kind == "redirect":
        t = a[0] if a else None
        if isinstance(t, Node) and isc(t) and isinstance(cval(t), str):
            t = cval(t)
            if ("/" in t) or (loc, t) in _seen: return
            _seen.add((loc, t))
            if urls is not None and t not in urls: chk.violate("answered", f"redirect to {t}", loc, f"the redirect goes to {t!r}, which is not a page of the site (known: {', '.join(sorted(urls))})")
            else: chk.ok("answered", f"redirect to {t} from {loc}", "a page of the site")

def url_names(w):
    """name -> (view, parameters) of the url configuration"""
    m = w.eng.load("slope.urls"); vs = w.eng.base.heap[m.env.id].vars
    up = vs.get("urlpatterns")
    if up is None: raise Missing("urlpatterns")
    out = {}
    for g, x in w.eng.iter_items(w.eng.base, up, None, consume=False):
        if not isinstance(x, ExtVal) or last(x.path) not in ("path", "re_path", "url"): raise Unsupported("url pattern")
        n = x.kw.get("name") or (x.args[3] if len(x.args) > 3 else None)
        v = x.args[1] if len(x.args) > 1 else x.kw.get("view")
        r = x.args[0] if x.args else x.kw.get("route")
        if n is not None: out[cval(n)] = (v, cval(r))
    return out

def run(chk):
    chk.rule("answered", "no exception escapes a view and every path ends in a page, a document or a redirect to a page of the site")
    chk.rule("in step", "after every request the stored form, plot and search are all of that request, all as before, or all empty")
    chk.rule("pages", "templates exist, use only what they are given, and link to pages and files that exist")
    _seen.clear()
    n = 20 if chk.tier == "quick" else 60
    urls = None
    @attempt(chk, "answered", "urls")
    def _():
        nonlocal urls
        w = Web(); urls = url_names(w); chk.use(w.eng)
        for nm, (v, route) in urls.items():
            pars = re.findall(r"<(?:\w+:)?(\w+)>", route)
            if isinstance(v, Func):
                a = v.node.args; have = [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]
                req = [x.arg for x in a.args][1:]; req = req[:len(req) - len(v.defaults)] if v.defaults else req
                if [p for p in pars if p not in have and a.kwarg is None] or [r for r in req if r not in pars]: chk.violate("answered", f"url {nm}", "slope/urls.py", f"the address {route!r} does not fit {v.name}({', '.join(have)})")
                else: chk.ok("answered", f"url {nm}", f"{route!r} fits {v.name}")
            else: chk.undecided("answered", f"url {nm}", "not a function")
    starts, ends = {}, set()
    for state in STATES:
        for req in REQS + (["submission of everything"] if chk.tier == "thorough" else []):
            def go(state=state, req=req):
                r = one(chk, state, req, urls, n)
                if r: starts.setdefault(r[0], state); ends.update((req, k, e) for k, e in r[1])
            attempt(chk, "answered", f"{state}, {req}", go)
    @attempt(chk, "pages", "templates")
    def _(): pages(chk, urls)
    # the states looked at are all there are
    miss = sorted({e for _, _, e in ends if not any(all(a == b or "either" in (a, b) or {a, b} == {"absent", "empty"} for a, b in zip(e, s)) for s in starts)})
    if miss: chk.undecided("in step", "states of the session", f"not started from: {miss}")
    else: chk.ok("in step", "states of the session", f"{len(starts)} kinds of stored session, every one a request leaves is among them")

FILTERS = set("""add addslashes capfirst center cut date default default_if_none dictsort dictsortreversed divisibleby escape escapejs escapeseq filesizeformat first floatformat force_escape get_digit iriencode join json_script
last length length_is linebreaks linebreaksbr linenumbers ljust lower make_list phone2numeric pluralize pprint random rjust safe safeseq slice slugify stringformat striptags time timesince timeuntil title truncatechars
truncatechars_html truncatewords truncatewords_html unordered_list upper urlencode urlize urlizetrunc wordcount wordwrap yesno""".split())
CLOSED = {"if", "for", "block", "with", "autoescape", "comment", "filter", "spaceless", "verbatim", "ifchanged"}
OPEN = {"extends", "load", "url", "csrf_token", "include", "else", "elif", "empty", "cycle", "firstof", "now", "regroup", "templatetag", "widthratio", "debug", "lorem", "resetcycle", "querystring", "partial"}
LIBS = {"static": {"static", "get_static_prefix", "get_media_prefix"}, "i18n": {"trans", "translate", "blocktrans", "blocktranslate", "endblocktrans", "endblocktranslate", "get_current_language"}, "l10n": {"localize", "endlocalize"}, "tz": {"localtime", "endlocaltime"}, "humanize": set(), "cache": {"cache", "endcache"}}

def pages(chk, urls):
    base = os.path.join(REPO, "slope", "templates")
    names = {}
    for d, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f); names[os.path.relpath(p, base)] = open(p, encoding="utf8").read()
    statics = [os.path.join(REPO, "static"), os.path.join(REPO, "slope", "static")]
    def known_static(p): return any(os.path.exists(os.path.join(s, p)) for s in statics)
    # which template gets which values
    given = {}
    for req in ("page", "submission"):
        site = Site(); site.send(req, plain=True); chk.use(site.w.eng)
        for st, a, kw, node in site.w.renders:
            t = a[1] if len(a) > 1 else kw.get("template_name"); c = a[2] if len(a) > 2 else kw.get("context")
            loc = f"{P}:{getattr(node, 'lineno', '?')}"
            if not (isinstance(t, Node) and isc(t)): chk.undecided("pages", f"page at {loc}", "template name not constant"); continue
            t = cval(t)
            if t not in names: chk.violate("pages", f"page at {loc}", loc, f"the template {t!r} does not exist"); continue
            ks = {cval(k) for k, _, _ in st.heap[c.id].items if isc(k)} if isinstance(c, Ref) and isinstance(st.heap[c.id], DictRec) else set() if c is None or c is NONE else None
            given.setdefault(t, []).append((loc, ks))
            chk.ok("pages", f"{req}: template", t)
    for t, src in sorted(names.items()):
        chk.files.add(f"slope/templates/{t}"); bad = False
        def fail(pos, what, msg):
            nonlocal bad
            bad = True; chk.violate("pages", f"{t}: {what}", f"slope/templates/{t}:{src[:pos].count(chr(10)) + 1}", msg)
        text = re.sub(r"\{#[^\n]*?#\}", lambda m: " " * len(m.group()), src)
        text = re.sub(r"\{%[ \t]*comment\b.*?endcomment[ \t]*%\}", lambda m: re.sub(r"[^\n]", " ", m.group()), text, flags=re.S)
        loaded = set(); stack = []; bound = set(); child = False
        for m in re.finditer(r"\{%(.*?)%\}|\{\{(.*?)\}\}", text):
            chk.count("template tags")
            if m.group(2) is not None:
                e = m.group(2).strip()
                for f in re.findall(r"\|\s*(\w+)", re.sub(r"\"[^\"]*\"|'[^']*'", "''", e)):
                    if f not in FILTERS and not (loaded - {"static"}): fail(m.start(), f, f"there is no template filter {f!r}: a server error")
                root = re.match(r"[A-Za-z_]\w*", e)
                if root and "|json_script" in e.replace(" ", "") and root.group() not in bound:
                    for loc, ks in given.get(t, []):
                        if ks is not None and root.group() not in ks: fail(m.start(), root.group(), f"the page at {loc} is not given {root.group()!r}")
                continue
            w = m.group(1).split()
            if not w: fail(m.start(), "tag", "an empty template tag: a server error"); continue
            tag = w[0]
            if tag == "load": loaded |= set(w[1:])
            elif tag == "extends" or tag == "include":
                q = w[1].strip("\"'") if len(w) > 1 else ""
                if w[1][:1] in "\"'" and q not in names: fail(m.start(), f"{tag} {q}", f"the template {q!r} does not exist: a server error")
            elif tag == "url":
                q = w[1].strip("\"'")
                if urls is not None and w[1][:1] in "\"'" and ":" not in q:
                    if q not in urls: fail(m.start(), f"url {q}", f"there is no page named {q!r}: a server error")
                    else:
                        args = [x for x in w[2:] if x != "as"]; need_ = re.findall(r"<", urls[q][1])
                        if "as" not in w and len(args) != len(need_): fail(m.start(), f"url {q}", f"the address of {q!r} takes {len(need_)} values, {len(args)} are given: a server error")
            elif tag == "static":
                q = w[1].strip("\"'")
                if "static" not in loaded: fail(m.start(), "static", "the tag is used without loading it: a server error")
                elif w[1][:1] in "\"'" and not known_static(q): fail(m.start(), f"static {q}", f"the file {q!r} does not exist")
            elif tag == "for" or tag in CLOSED:
                stack.append(tag)
                if tag == "for":
                    if "in" not in w: fail(m.start(), "for", "malformed loop: a server error"); continue
                    i = w.index("in"); bound |= {x.strip(",") for x in w[1:i] for x in x.split(",") if x}
                    root = re.match(r"[A-Za-z_]\w*", w[i + 1])
                    if root and root.group() not in bound | {"forloop", "messages"}:
                        for loc, ks in given.get(t, []):
                            if ks is not None and root.group() not in ks: fail(m.start(), f"for {root.group()}", f"the page at {loc} is not given {root.group()!r}")
            elif tag.startswith("end") and tag[3:] in CLOSED:
                if not stack or stack[-1] != tag[3:]: fail(m.start(), tag, f"{tag} does not close {stack[-1] if stack else 'anything'}: a server error")
                else: stack.pop()
            elif tag not in OPEN and not any(tag in LIBS.get(l, {tag}) for l in loaded): fail(m.start(), tag, f"there is no template tag {tag!r}: a server error")
        if stack: fail(len(src) - 1, stack[-1], f"{stack[-1]} is not closed: a server error")
        if not bad: chk.ok("pages", t, "tags, filters, pages, files and values exist")
