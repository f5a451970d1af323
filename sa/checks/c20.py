"""C20: the values typed into the web form reach the engine unchanged.

The view that answers the form is interpreted with one symbol per form field; the model it has
built when it starts the analysis is compared with the model the same values give through the
documented constructors and setters, for every choice of the conditional inputs and for filled,
blank, missing and repeated rows."""
import os, re
from fractions import Fraction
from ..oblig import REPO
from ..web import Web, ROLES, ROW, last
from .common import *
from . import heap

P = "slope/views.py"
def hook_engine(w, log):
    """the analysis and the figures are not followed: what they are given is recorded"""
    need(w, "Slope", "analyse_slope", "analyse_dynamic", "plot_boundary", "plot_critical")
    def h(eng, st, f, recv, args, kw, node):
        log.append((st.clone(), recv, f.name, call_args(f, [None] + list(args), kw), node))
        eng.setattr(st, recv, "_search", eng.list_of(st, []), node)
        return NONE
    for m in ("analyse_slope", "analyse_dynamic"): w.eng.hooks["Slope." + m] = h
    # what the engine is given
    def given(where):
        def f(eng, st, *a):
            args, kw = (a[1], a[2]) if len(a) == 4 else (a[2], a[3])
            for k, v in list(enumerate(args)) + list(kw.items()):
                for g, x in alts(v):
                    if w.dec(x): log_dec.append((where, k, x, a[-1]))
            return NotImplemented
        return f
    log_dec = w.decimals = []
    for c in ("Slope", "Material", "Udl", "LineLoad"): w.eng.hooks["new:" + c] = given(c)
    for m in ("set_water_table", "set_analysis_limits", "update_analysis_options"): w.eng.hooks["Slope." + m] = given(m)
    for m in ("plot_boundary", "plot_critical", "plot_all_planes"):
        w.eng.hooks["Slope." + m] = lambda eng, st, f, recv, args, kw, node: ExtVal("figure", (recv,), {}, None, eng.fresh("fig"))

def choices(w, name):
    """choices offered by the options form: key -> label"""
    for v in w.vns.values():
        if isinstance(v, ClassVal) and w.kind(v) and w.role(v) == "options":
            f = w.fields(v).get(name)
            if f is None: raise Missing(f"options form field {name}")
            out = {}
            for x in w.items(f[0].kw.get("choices")):
                k, l = w.items(x[1]); out[cval(k[1])] = cval(l[1])
            return out
    raise Missing("options form")
def by_label(ch, *words):
    ks = [k for k, l in ch.items() if any(x in f"{k} {l}".lower() for x in words)]
    if len(ks) != 1: raise Missing(f"choice {words[0]}")
    return ks[0]
def forms(w):
    out = {}
    for v in w.vns.values():
        if isinstance(v, ClassVal) and w.kind(v): out[w.role(v)] = v
    return out
MODEL = {"material": "MaterialModel", "udl": "UdlModel", "ll": "LineLoadModel"}

def reference(w, cfg, rows):
    """the same values through the documented API"""
    fs = forms(w)
    def val(role, name, row=None, blank=False):
        f, m = w.fields(fs[role])[name]
        if blank: return w.default(m)
        return w.value(w.st, role, row, name, f)
    if cfg["by"] == "length": o = w.new("Slope", height=val("slope", "height"), length=val("slope", "length"))
    else: o = w.new("Slope", height=val("slope", "height"), length=NONE, angle=val("slope", "angle"))
    if w.dead(): return None
    w.m(o, "update_analysis_options", slices=val("options", "slices"), iterations=val("options", "iterations"))
    def each(role, cname, meth, names):
        for i, kind in enumerate(rows.get(role, ["filled"]), 1):
            if w.dead(): return
            x = w.new(cname, **{n: val(role, n, i, kind == "blank") for n in names})
            if not w.dead(): w.m(o, meth, x)
    each("material", "Material", "set_materials", ("unit_weight", "friction_angle", "cohesion", "depth_to_bottom", "name", "color"))
    each("ll", "LineLoad", "set_lls", ("magnitude", "offset", "color", "dynamic_offset"))
    each("udl", "Udl", "set_udls", ("magnitude", "offset", "length", "color", "dynamic_offset"))
    if w.dead(): return None
    if cfg["water"]: w.m(o, "set_water_table", val("water", "water_depth"))
    if w.dead(): return None
    if cfg["limits"]:
        kw = dict(left_x=val("limits", "left_x"), right_x=val("limits", "right_x"))
        if cfg["inner"]: kw.update(left_x_right=val("limits", "left_x_right"), right_x_left=val("limits", "right_x_left"))
        w.m(o, "set_analysis_limits", **kw)
    return None if w.dead() else o

def case(chk, name, cfg, rows, n):
    w = Web(rows=rows); log = []
    hook_engine(w, log); chk.use(w.eng)
    sl, an = choices(w, "slope_choice"), choices(w, "analysis_choice")
    w.config.update({"options.slope_choice": by_label(sl, "length" if cfg["by"] == "length" else "angle"),
                     "options.analysis_choice": by_label(an, "dynamic" if cfg["dynamic"] else "normal"),
                     "water.consider_water": cfg["water"], "limits.consider_limits": cfg["limits"], "limits.consider_internal_limits": cfg["inner"]})
    r = w.clone()
    req = w.request("POST")
    w.view("index", req); chk.use(w.eng)
    where = f"{P} create_slope"
    for what, k, x, node in w.decimals[:1]:
        chk.violate("parameters", f"{what}: {x.uid[4:]}", f"{P}:{getattr(node, 'lineno', '?')}", f"{what} is given {x.uid[4:]} as a Decimal, which does not combine with the engine's numbers"); return
    # ---- the analysis chosen is the one run
    want = "analyse_dynamic" if cfg["dynamic"] else "analyse_slope"
    runs = [x for x in log if not x[0].dead]
    bad = [x for x in runs if x[2] != want]
    if not runs:
        chk.violate("analysis", name, where, f"a valid submission runs no analysis"); return
    for x in bad:
        s = Samples(set(w.eng.allsyms), [c for c, soft in x[0].pc if not soft], chk.seed, 3, DOM, 60, name)
        if s.evs: chk.violate("analysis", name, f"{P}:{getattr(x[4], 'lineno', '?')}", f"{x[2]} is run where the form asks for {want}", s.evs[0].env); return
    runs = [x for x in runs if x[2] == want]
    for st, o, m, a, node in runs:
        loc = f"{P}:{getattr(node, 'lineno', '?')}"
        if cfg["dynamic"]:
            c = a.get("critical_fos"); exp = w.value(st, "options", None, "critical_FOS", w.fields(forms(w)["options"])["critical_FOS"][0]).args[0]
            if c is exp: chk.ok("analysis", f"{name}: critical factor of safety", "the value of the form, as a number")
            elif c is None: chk.violate("analysis", f"{name}: critical factor of safety", loc, "the critical factor of safety of the form is not used")
            elif w.dec(c): chk.violate("analysis", f"{name}: critical factor of safety", loc, "the critical factor of safety is passed as a Decimal, which does not combine with the engine's numbers")
            elif isinstance(c, Node): chk.eq("analysis", f"{name}: critical factor of safety", c, exp, Samples({exp} | T.syms(c), [c2 for c2, soft in st.pc if not soft and T.syms(c2) <= {exp}], chk.seed, 20, DOM, None, name), where=loc) if T.truthy_kind(c) != "str" else chk.violate("analysis", f"{name}: critical factor of safety", loc, "the critical factor of safety is passed as text")
            else: chk.undecided("analysis", f"{name}: critical factor of safety", repr(c)[:60])
        else:
            c = a.get("max_fos"); f = w.fields(forms(w)["options"]).get("max_display_FOS")
            top = w.opt(f[0], "max_value") if f else None
            if c is None or c is NONE or top is None: chk.ok("analysis", f"{name}: planes shown", "all planes are kept")
            elif isinstance(c, Node) and isc(c): 
                if cval(c) >= top: chk.ok("analysis", f"{name}: planes shown", f"planes up to {cval(c)} are kept, the display goes up to {top}")
                else: chk.violate("analysis", f"{name}: planes shown", loc, f"only planes up to {float(cval(c))} are kept, but the form offers to display planes up to {top}")
            else: chk.undecided("analysis", f"{name}: planes shown", repr(c)[:60])
    # ---- the model is the one the values describe
    ref = reference(r, cfg, rows); chk.use(r.eng)
    if ref is None: raise Unsupported("the values are never accepted")
    roots_ok = True
    for st, o, m, a, node in runs:
        ds = [d for d in diff_state(w.eng, st, r.st, [("slope", o, ref)]) if d[4] not in SKIP]
        if not ds: chk.ok("parameters", name, "the model at the analysis has identical value numbers"); continue
        pcs = [c for c, soft in st.pc if not soft] + [c for c, soft in r.st.pc if not soft]
        s = Samples(set(w.eng.allsyms), pcs, chk.seed, n, DOM, None, name)
        s.probe([x for d in ds for x in d[1:3] if isinstance(x, Node)])
        k = 0; hit = None
        for e in s.evs:
            x, y = concrete(st, o, e, SKIP), concrete(r.st, ref, e, SKIP); k += 1
            d = pic_diff(x, y)
            if d: hit = (d, e); break
        if hit:
            d, e = hit
            chk.violate("parameters", f"{name}: {d[0]}", f"{P}:{getattr(node, 'lineno', '?')}", f"the analysed model has {d[0]} = {heap._p(d[1])}; the submitted values give {heap._p(d[2])}", {k: v for k, v in e.env.items()})
        elif k: chk.agreed("parameters", name, f"{k} assignments; value numbers differ at {ds[0][0]}")
        else: 
            chk.undecided("parameters", name, "no admissible assignment; condition " + (repr(max(s.fails.values(), key=lambda z: z[1])[0])[:100] if s.fails else ""))
    # ---- only values the model accepts are analysed
    rpc = [c for c, soft in r.st.pc if not soft]
    for st, o, m, a, node in runs:
        pcs = [c for c, soft in st.pc if not soft]
        ids = {c.id for c in pcs}; more = [c for c in rpc if c.id not in ids]
        if not more: chk.ok("parameters", f"{name}: only accepted values", "same conditions"); continue
        s = Samples(set(w.eng.allsyms), pcs, chk.seed, n, BAD, None, name + " rejected")
        s.probe(more)
        hit = next(((e, c) for e in s.evs for c in more if e.truth(c) is False), None)
        if hit: chk.violate("parameters", f"{name}: only accepted values", f"{P}:{getattr(node, 'lineno', '?')}", f"values the model rejects are analysed as something else: {hit[1]!r}"[:200] + " fails", hit[0].env)
        elif s.evs: chk.agreed("parameters", f"{name}: only accepted values", f"{len(s.evs)} assignments")
        else: chk.undecided("parameters", f"{name}: only accepted values", "no admissible assignment")
    # ---- every accepted submission is analysed: nothing valid is sent away
    for st, a, kw, node in w.redirects:
        pcs = [c for c, soft in st.pc if not soft] + [c for c, soft in r.st.pc if not soft]
        s = Samples(set(w.eng.allsyms), pcs, chk.seed, 2, DOM, 40, name + " redirect")
        if s.evs: chk.violate("parameters", f"{name}: accepted", f"{P}:{getattr(node, 'lineno', '?')}", "a submission the model accepts is sent away", s.evs[0].env); return
    chk.ok("parameters", f"{name}: accepted", f"{len(w.redirects)} redirects, none for values the model accepts")
SKIP = RESULTS | {"@analysed"}
_u = lambda *v: [Fraction(x) for x in v]
DOM = {"slope.height": _u(1, 2, 3, 5, 60), "slope.angle": _u(20, 30, 45, 60, 85), "slope.length": _u(1, 2, 4, 6, 80), "water.water_depth": _u(0, "0.5", 1, 2, 30),
       "limits.left_x": _u(1, 2, 3, 4), "limits.right_x": _u(12, 14, 16, 9), "limits.left_x_right": _u(4, 5, 6, 12, 5), "limits.right_x_left": _u(8, 9, 7, 11, 4),
       "options.iterations": _u(500, 750, 5000, 2000, 90000), "options.slices": _u(10, 15, 25, 50)}
for i in (1, 2, 3):
    DOM.update({f"material{i}.unit_weight": _u(17, 18, 20, 22, 45, 2), f"material{i}.friction_angle": _u(0, 20, 30, 35, 70), f"material{i}.cohesion": _u(0, 2, 5, 900), f"material{i}.depth_to_bottom": _u(1, 3, 6, 2, 4, 40),
                f"udl{i}.magnitude": _u(5, 10, 20, 2000), f"udl{i}.offset": _u(0, 1, 2, 30), f"udl{i}.length": _u(1, 2, 3, 50), f"ll{i}.magnitude": _u(5, 10, 20, 2000), f"ll{i}.offset": _u(0, 1, 2, 30)})

BAD = {k: v + _u(0, -1, "-0.5", 100) for k, v in DOM.items()}
for k in DOM:
    if k.rsplit(".", 1)[1] in ("depth_to_bottom", "friction_angle", "cohesion", "magnitude", "offset", "length", "water_depth") and k != "slope.length": DOM[k] = DOM[k] + _u(0)
BASE = dict(by="length", water=False, limits=False, inner=False, dynamic=False)
def cases(thorough):
    R = dict(material=["filled"], udl=["filled"], ll=["filled"])
    yield "length, normal", {}, R
    yield "angle, normal", dict(by="angle"), R
    yield "water table", dict(water=True), R
    yield "limits", dict(limits=True), R
    yield "limits and inner limits", dict(limits=True, inner=True), R
    yield "inner limits without limits", dict(inner=True), R
    yield "dynamic analysis", dict(dynamic=True), R
    yield "blank rows", {}, dict(material=["blank"], udl=["blank"], ll=["blank"])
    yield "two rows of each", {}, dict(material=["filled"] * 2, udl=["filled"] * 2, ll=["filled"] * 2)
    yield "filled then blank rows", {}, dict(material=["filled", "blank"], udl=["filled", "blank"], ll=["filled", "blank"])
    yield "blank then filled rows", dict(by="angle"), dict(material=["blank", "filled"], udl=["blank", "filled"], ll=["blank", "filled"])
    yield "no loads", {}, dict(material=["filled"], udl=[], ll=[])
    yield "everything", dict(by="angle", water=True, limits=True, inner=True, dynamic=True), dict(material=["filled", "blank"], udl=["blank", "filled"], ll=["filled"])
    if thorough:
        for by in ("length", "angle"):
            for water in (False, True):
                for limits, inner in ((False, False), (False, True), (True, False), (True, True)):
                    for dyn in (False, True): yield f"{by}, water {water}, limits {limits}, inner {inner}, dynamic {dyn}", dict(by=by, water=water, limits=limits, inner=inner, dynamic=dyn), R
        yield "three rows of each", {}, dict(material=["filled", "filled", "blank"], udl=["filled"] * 3, ll=["blank", "filled", "filled"])

STEM = {"height": "height", "angle": "angle", "length": "length", "unit_weight": "weight", "friction_angle": "friction", "cohesion": "cohesion", "depth_to_bottom": "depth", "name": "name", "color": "colo",
        "magnitude": "magnitude", "offset": "offset", "dynamic_offset": "dynamic", "water_depth": "depth", "left_x": "left", "right_x": "right", "left_x_right": "left", "right_x_left": "right", "iterations": "iteration", "slices": "slice", "critical_FOS": "critical", "max_display_FOS": "display"}

def run(chk):
    chk.rule("parameters", "the analysed model is the one the submitted values give through the documented constructors and setters")
    chk.rule("analysis", "the selected analysis is run, with the submitted critical factor of safety as a number, and keeps every plane that can be displayed")
    chk.rule("forms", "the page shows and reads each form under the same name, and the scripts use names that exist")
    chk.rule("ranges", "every option value the page offers is accepted by the form and used by the engine as it is")
    n = 20 if chk.tier == "quick" else 60
    for name, cfg, rows in cases(chk.tier == "thorough"):
        attempt(chk, "parameters", name, lambda name=name, cfg=cfg, rows=rows: case(chk, name, {**BASE, **cfg}, rows, n))
    @attempt(chk, "forms", "names")
    def _(): names(chk)
    @attempt(chk, "forms", "labels")
    def _():
        w = Web(); chk.use(w.eng)
        for role, c in forms(w).items():
            labels = w.meta(c).get("labels"); lab = {}
            if isinstance(labels, Ref): lab = {cval(k): cval(v) for k, g, v in w.st.heap[labels.id].items}
            bad = False
            for nme, (f, m) in w.fields(c).items():
                l = w.opt(f, "label") or lab.get(nme)
                if not isinstance(l, str) or nme not in STEM: continue
                l = l.lower(); chk.count("labels")
                own = STEM[nme] in l; inner = "internal" in l or "inner" in l
                wants = nme in ("left_x_right", "right_x_left")
                others = [o for o in w.fields(c) if o != nme and o in STEM and STEM[o] != STEM[nme] and STEM[o] in l]
                if (not own and others) or (own and nme in ("left_x", "right_x") and inner):
                    bad = True; chk.violate("forms", f"label of {role} {nme}", f"slope/forms.py {c.name}", f"the field {nme} is shown as {l!r}")
            if not bad: chk.ok("forms", f"labels of {role}", "every label names its own field")
    @attempt(chk, "forms", "numbers")
    def _():
        w = Web(); chk.use(w.eng)
        for role, c in forms(w).items():
            if role == "options" or role.startswith("other"): continue
            bad = False
            for nme, (f, m) in w.fields(c).items():
                if nme in STEM and nme not in ("name", "color", "dynamic_offset") and "Integer" in last(f.path):
                    bad = True; chk.violate("forms", f"{role} {nme} is a number", f"slope/models.py {nme}", f"{nme} can only be entered as a whole number")
            if not bad: chk.ok("forms", f"numbers of {role}", "every quantity can have decimals")
    @attempt(chk, "ranges", "options")
    def _(): ranges(chk)

def names(chk):
    """prefixes of the forms in the three places they are made, and the element ids of the scripts"""
    sets = {}
    for what, method, sess in (("first visit", "GET", ()), ("return visit", "GET", "stored"), ("submission", "POST", ())):
        w = Web(); log = []
        hook_engine(w, log)
        if sess == "stored": sess = [("forms", ExtVal("stored.forms", (), {}, None, "stored.forms")), ("search", w.eng.list_of(w.st, [const("plane")])), ("plot_json", const("json"))]
        sl, an = choices(w, "slope_choice"), choices(w, "analysis_choice")
        w.config.update({"options.slope_choice": list(sl)[0], "options.analysis_choice": list(an)[0]})
        w.view("index", w.request(method, sess)); chk.use(w.eng)
        got = {}
        for c in w.created:
            p = c["prefix"]
            if c["data"] is NONE and what != "first visit": continue
            if not (isinstance(p, Node) and isc(p)): raise Unsupported("prefix not constant")
            got.setdefault(c["role"], (cval(p), c["node"], c))
        sets[what] = got
        if what == "first visit":
            for role, (p, node, c) in got.items():
                ini = c["kw"].get("initial")
                if ini is not None and ini is not NONE: chk.undecided("forms", f"initial values of {role}", "given in the view")
    roles = set().union(*sets.values())
    for role in sorted(roles):
        ps = {k: v[role][0] for k, v in sets.items() if role in v}
        if len(set(ps.values())) > 1:
            chk.violate("forms", f"prefix of {role}", f"{P} index", f"the {role} form is named differently: " + ", ".join(f"{v!r} on {k}" for k, v in ps.items()))
        elif len(ps) < 3: chk.undecided("forms", f"prefix of {role}", "not made for: " + ", ".join(k for k in sets if k not in ps))
        else: chk.ok("forms", f"prefix of {role}", f"{list(ps.values())[0]!r} on every page")
    post = {r: v[0] for r, v in sets["submission"].items()}
    dup = [r for r in post if list(post.values()).count(post[r]) > 1]
    fs = forms(w)
    clash = False
    for a in dup:
        for b in dup:
            if a < b and post[a] == post[b] and set(w.fields(fs[a])) & set(w.fields(fs[b])):
                clash = True; chk.violate("forms", f"prefixes of {a} and {b}", f"{P} index", f"both forms are named {post[a]!r} and share the field names {sorted(set(w.fields(fs[a])) & set(w.fields(fs[b])))}")
    if not clash: chk.ok("forms", "distinct names", f"{len(post)} forms")
    # ids used by the scripts
    ids = set()
    for r, p in post.items():
        pre = f"id_{p}-" if p else "id_"
        for f in w.fields(fs[r]): ids.add(pre + f)
        if r in ROW: ids |= {pre + x for x in ("TOTAL_FORMS", "INITIAL_FORMS", "MIN_NUM_FORMS", "MAX_NUM_FORMS")}
    d = os.path.join(REPO, "static", "slope"); k = 0; bad = False
    if os.path.isdir(d):
        for fn in sorted(os.listdir(d)):
            if not fn.endswith(".js"): continue
            src = open(os.path.join(d, fn), encoding="utf8").read(); chk.files.add(f"static/slope/{fn}")
            src = re.sub(r"^[ \t]*//[^\n]*|/\*.*?\*/", "", src, flags=re.M | re.S)
            for m in re.finditer(r"[\"'`]#?(id_[A-Za-z0-9_]+-[A-Za-z0-9_]+)[\"'`]", src):
                k += 1
                i = re.sub(r"-\d+-", "-", m.group(1))
                if i not in ids:
                    bad = True; chk.violate("forms", f"{fn}: {m.group(1)}", f"static/slope/{fn}:{src[:m.start()].count(chr(10)) + 1}", f"the script looks for the input {m.group(1)}, which no form of the page has")
    if not bad: chk.ok("forms", "inputs used by the scripts", f"{k} element ids, all of them inputs of the forms")

def ranges(chk):
    w = Web(); chk.use(w.eng)
    c = forms(w)["options"]; fs = w.fields(c)
    for name in ("slices", "iterations"):
        f = fs[name][0]; lo, hi = w.opt(f, "min_value"), w.opt(f, "max_value")
        if lo is None or hi is None:
            chk.violate("ranges", name, f"slope/forms.py {c.name}", f"the form does not bound {name}, the engine does"); continue
        v = World(w.eng); v.st = w.eng.base.clone()
        o = v.slope(); x = v.s("opt_" + name, "int"); v.st.assume(le(const(lo), x)); v.st.assume(le(x, const(hi)))
        v.m(o, "update_analysis_options", **{name: x})
        if v.dead(): chk.violate("ranges", name, f"slope/forms.py {c.name}", f"the engine rejects every {name} the form offers"); continue
        got = field(v, o, "_" + name)
        dom = {"opt_" + name: [Fraction(z) for z in {lo, hi, (lo + hi) // 2, lo + 1, hi - 1} if lo <= z <= hi], "height": _u(1, 3), "length": _u(1, 2)}
        s = Samples(set(v.syms) | {x}, [le(const(lo), x), le(x, const(hi))] + v.pc(), chk.seed, 20, dom, None, name)
        if isinstance(got, VIte): got = scalar(got)
        chk.eq("ranges", f"{name} {lo}..{hi}", got, x, s, where=f"slope/forms.py {c.name}", what=f"the engine uses another {name} than the form")
        no_raise(chk, "ranges", f"{name} {lo}..{hi} accepted", v, v.last, what="raised for an offered value", dom=dom)
    # what the sliders offer and what is preset is valid
    for name, (f, _) in fs.items():
        lo, hi, ini = w.opt(f, "min_value"), w.opt(f, "max_value"), w.opt(f, "initial")
        wd = f.kw.get("widget"); attrs = {}
        if isinstance(wd, ExtVal): a = wd.kw.get("attrs")
        elif isinstance(wd, Ref) and isinstance(w.st.heap[wd.id], ObjRec): a = w.st.heap[wd.id].fields.get("@kw:attrs") or w.st.heap[wd.id].fields.get("attrs")
        else: a = None
        if isinstance(a, Ref): attrs = {cval(k): cval(v) for k, g, v in w.st.heap[a.id].items if isinstance(v, Node) and isc(v)}
        num = lambda z: Fraction(str(z)) if isinstance(z, (int, float, str, Fraction)) and re.fullmatch(r"-?\d+(\.\d+)?(/\d+)?", str(z)) else None
        for what, z in (("the slider starts at", attrs.get("min")), ("the slider ends at", attrs.get("max")), ("the page presets", ini if not isinstance(ini, (bool, ExtVal)) else None), ("the page presets", attrs.get("value"))):
            q = num(z)
            if q is None: continue
            if lo is not None and q < num(lo) or hi is not None and q > num(hi): chk.violate("ranges", f"{name}: {what}", f"slope/forms.py {c.name}", f"{what} {z} for {name}, which the form rejects ({lo}..{hi})")
            else: chk.ok("ranges", f"{name}: {what} {z}", f"within {lo}..{hi}")
    # the critical factor of safety
    f = fs.get("critical_FOS")
    if f:
        lo, hi = w.opt(f[0], "min_value"), w.opt(f[0], "max_value")
        if lo is not None and lo < 0: chk.violate("ranges", "critical_FOS", f"slope/forms.py {c.name}", "a negative critical factor of safety is offered")
        else: chk.ok("ranges", "critical_FOS", f"{lo}..{hi}")
