"""C19 plots show the whole model with a colour for every factor of safety."""
import math
from .common import *
from .figure import *

def plot_model(shape, k=0, many=False):
    """an analysed model whose planes are arcs through their end points"""
    w = World(); w.build(shape.get("by", "length"), mats=shape["mats"], udls=shape["udls"], lls=shape["lls"], water=shape["water"])
    if shape.get("shrunk"): w.m(w.o, "update_boundary_options", MIN_EXT_L=const(1))
    if shape.get("limits"): w.m(w.o, "set_analysis_limits", **{p: w.s(x) for p, x in zip(("left_x", "left_x_right", "right_x_left", "right_x"), ("x1", "x2", "x3", "x4")) if shape["limits"] == "all" or p in ("left_x", "right_x")})
    if k:
        need(w, "Slope", "_set_entry_exit_planes")
        ps = []
        for i in range(1, k + 1):
            cx, cy, r, a, b = [w.s(f"{x}{i}") for x in ("pcx", "pcy", "prad", "pa", "pb")] if not many else [const(x) for x in (30 + Fraction(i, 4), 25, 12 + Fraction(i, 8), Fraction(9, 10), Fraction(3, 10))]
            ps.append(dict(cx=cx, cy=cy, r=r, **arc(cx, cy, r, a, b)))
        def h(eng, st, f, recv, args, kw, node):
            ds = [plane_dict(eng, st, p) for p in ps]
            eng.open_refs.update(d.id for d in ds)
            eng.setattr(st, recv, "_search", eng.list_of(st, ds), node)
            return NONE
        w.eng.hooks["Slope._set_entry_exit_planes"] = h
        # the factor of safety of each plane is an input
        need(w, "Slope", "_analyse_circular_failure_bishop")
        for i, p in enumerate(ps, 1): p["fos"] = w.s(f"fos{i}") if not many else const(Fraction(i * 37 % (k + 1), 7)); w.st.assume(le(ZERO, p["fos"]))
        names = ["c_x", "c_y", "radius"]
        def hf(eng, st, f, recv, args, kw, node):
            a = dict(zip(names, args)); a.update(kw)
            out = T.app("fos", "real", *[a[x] for x in names])
            for p in ps: out = ite(eq(a["c_x"], p["cx"]), p["fos"], out)
            return out
        w.eng.hooks["Slope._analyse_circular_failure_bishop"] = hf
        for i in range(len(ps)):
            for j in range(i): w.st.assume(not_(eq(ps[i]["cx"], ps[j]["cx"])))
        w.planes = ps
    return w
def arc(cx, cy, r, a, b):
    """end points of an arc of the lower half of a circle: fractions a and b of the radius left and right of the centre"""
    x1, x2 = sub(cx, mul(r, a)), add(cx, mul(r, b))
    y = lambda t: sub(cy, mul(r, T.sqrt(sub(ONE, mul(t, t)))))
    return dict(lx=x1, ly=y(a), rx=x2, ry=y(b))
PDOM = {}
MANY = 60
for i in (1, 2, 3):
    PDOM.update({f"fos{i}": ["0", "0.03", "0.5", "0.97", "1", "1.3", "1.37", "2", "2.42", "3.14", "4.94", "4.98", "5", "5.02", "5.3", "7", "9.99", "12", "3.5"], f"pcx{i}": ["10", "14.5", "20", "26.25"], f"pcy{i}": ["12", "18", "25.5"], f"prad{i}": ["3", "7.5", "12", "300"], f"pa{i}": ["0.6", "0.8", "0.96", "-0.28", "0.5"], f"pb{i}": ["0.28", "0.352", "0.5", "-0.49", "0.281"]})
PDOM["mx"] = ["0", "1", "3", "5", "7.5", "100"]
PDOM = {k: [Fraction(x) for x in v] for k, v in PDOM.items()}

def model_at(w, e):
    """what the model contains, at an assignment"""
    c = lambda v: e(scalar(v))
    m = {}
    o = w.o
    for k, f in (("H", "_external_height"), ("L", "_external_length")): m[k] = float(c(field(w, o, f)))
    m["top"] = [float(c(x)) for x in xy(w, field(w, o, "_top_coord"))]; m["bot"] = [float(c(x)) for x in xy(w, field(w, o, "_bot_coord"))]
    def objs(l, fs):
        out = []
        for g, v in w.items(field(w, o, l)):
            for g2, r in alts(v, g):
                if truth(e, g2):
                    d = {}
                    for f in fs:
                        n = field(w, r, f)
                        d[f] = e(n) if isinstance(n, Node) else n
                    out.append(d)
        return out
    m["mats"] = objs("_materials", ("name", "unit_weight", "cohesion", "friction_angle", "RL", "color"))
    m["udls"] = objs("_udls", ("magnitude", "left", "right", "color"))
    m["lls"] = objs("_lls", ("magnitude", "coord", "color"))
    wr = scalar(field(w, o, "_water_RL")); m["water"] = None if wr is NONE else e(wr)
    m["limits"] = [float(c(x)) for g, v in w.items(field(w, o, "_limits")) for g2, x in alts(v, g) if truth(e, g2)]
    return m
def ground(m, x):
    (tx, ty), (bx, by) = m["top"], m["bot"]
    return ty if x <= tx else by if x >= bx else ty + (x - tx) * (by - ty) / (bx - tx)
def layer_area(m, y0, y1):
    """area under the ground between two levels"""
    (tx, ty), (bx, by) = m["top"], m["bot"]
    def below(y):      # area under min(ground, y)
        y = max(y, 0)
        if y <= by: return m["L"] * y
        y = min(y, ty)
        xs = tx + (ty - y) * (bx - tx) / (ty - by)
        return xs * y + (bx - xs) * (y + by) / 2 + (m["L"] - bx) * by
    return below(y1) - below(y0)

KIND = {"uniform load": ("shape", "annotation"), "line load": ("shape", "annotation"), "load labels in kPa": ("annotation",), "load labels in kN/m": ("annotation",), "limit": ("annotation",), "headings": ("annotation",), "row": ("annotation", "shape")}

def run(chk):
    chk.rule("boundary-content", "the boundary figure contains the outline, a filled polygon of the right area, colour and label for every layer, every load at its position, the water line exactly when there is water inside the model, and a mark on the ground at every limit")
    chk.rule("table", "the material table shows each layer's values under their headings and its colour in its row")
    chk.rule("critical-plane", "the critical figure adds one arc of the plane of least factor of safety with its centre, end points, value and colour")
    chk.rule("all-planes", "the all-planes figure adds exactly one arc for each plane below the requested factor of safety, and what the critical figure shows")
    chk.rule("colour", "every factor of safety has the colour of its rounded, capped value, and the table has every step")
    n = 20 if chk.tier == "quick" else 80
    wh = lambda w, m: where_m(w, "Slope", m)
    def observe(rule, construct, w, v, meth, dom, f, syms=()):
        """f(elements, model, e) -> (aspect, complaint) pairs, at each admissible assignment"""
        w.syms = sorted(w.eng.allsyms, key=lambda x: x.id)
        s = w.samples(chk.seed, n, dom, tag=construct)
        res = {}; m = 0
        # edges of the ranges: water at the crest / at the toe, a factor of safety equal to the maximum asked for
        edge = []
        for e in s.evs[:6]:
            if "wd" in e.env: edge += [{"wd": Fraction(0)}] + ([{"wd": e.env["height"]}, {"wd": e.env["height"] * Fraction(99, 100)}, {"wd": e.env["height"] * Fraction(101, 100)}] if "height" in e.env else [])
            if "x2" in e.env and "x3" in e.env: edge += [{"x2": e.env["x3"] - Fraction(1, 5)}, {"x3": e.env["x2"] + Fraction(1, 100)}]
            if "mx" in e.env and "fos1" in e.env: edge.append({"mx": e.env["fos1"]})
            edge = [x if "env" in x else {"env": {**e.env, **x}} for x in edge]
        for e in s.evs + [a for a in (s.admit(x["env"]) for x in edge) if a is not None]:
            try: el = w.rec.elements(v, e); mod = model_at(w, e); got = list(f(el, mod, e))
            except Unclear: continue
            except (TypeError, AttributeError) as x:
                raise
            m += 1
            unk = any(k == "unknown" for k, d in el)
            # parts whose place is not determined at this assignment
            dim = {k for k, d in el if k == "trace" and any("?" in (d.get(x) if isinstance(d.get(x), list) else [d.get(x)]) for x in "xy") or k == "shape" and "?" in [d.get(x) for x in ("xanchor", "yanchor")] + [d.get(x) for x in ("x0", "x1") if d.get("type") == "rect"]
                   or k == "annotation" and "?" in [d.get(x) for x in ("x", "y")]}
            for aspect, bad in got:
                if bad and any(k in dim for k in KIND.get(aspect.rstrip(" 0123456789"), ("trace",))): continue
                if bad and unk: res.setdefault(aspect, None)
                elif bad and not isinstance(res.get(aspect), tuple): res[aspect] = (bad, e)
                else: res.setdefault(aspect, True)
        chk.count("figures pictured", m)
        for aspect, r in res.items():
            c = f"{construct}: {aspect}"
            if r is True: chk.agreed(rule, c, f"{m} assignments")
            elif r is None: chk.undecided(rule, c, "unknown calls on the figure")
            else: chk.violate(rule, c, wh(w, meth), r[0], r[1].env)
        if not m: chk.undecided(rule, construct, "no admissible assignment")
    # ---- boundary
    def boundary(el, m, e):
        tr = [d for k, d in el if k == "trace"]; sh = [d for k, d in el if k == "shape"]; an = [d for k, d in el if k == "annotation"]
        outline = [(0, 0), (0, m["H"]), tuple(m["top"]), tuple(m["bot"]), (m["L"], m["bot"][1]), (m["L"], 0)]
        ps = [p for p in (points(d) for d in tr) if p]
        tot = layer_area(m, 0, m["H"])
        yield "outline", None if any(len(p) >= 6 and all(any(abs(a - x) + abs(b - y) < 1e-6 * (1 + m["L"]) for a, b in p) for x, y in outline) and abs(area(p) - tot) < 1e-6 * (1 + tot) for p in ps) else "no trace follows the outline of the model"
        if not m["mats"]: return
        filled = [d for d in tr if d.get("fill") not in (None, "none")]
        yield "number of layers", None if len(filled) == len(m["mats"]) else f"{len(filled)} filled areas for {len(m['mats'])} layers"
        up = m["H"]
        for i, a in enumerate(m["mats"]):
            lo = 0.0 if i == len(m["mats"]) - 1 else float(a["RL"]); ar = layer_area(m, lo, up)
            bad = "no filled area of the layer's colour"
            for d in filled:
                if d.get("fillcolor") != a["color"]: continue
                p = points(d)
                if not p: bad = "filled area without points"; continue
                if abs(area(p) - ar) > 1e-6 * (1 + tot): bad = f"area {area(p):.6g} of the layer drawn as {a['color']}, {ar:.6g} in the model"; continue
                if any(not (lo - 1e-6 <= y <= up + 1e-6) for x, y in p): bad = "layer drawn outside its levels"; continue
                nm = numbers(d.get("name", "")) if isinstance(d.get("name"), str) else []
                mis = [f for f in ("unit_weight", "cohesion", "friction_angle") if not any(abs(z - float(a[f])) < 1e-6 * (1 + abs(z)) for z in nm)]
                if isinstance(d.get("name"), str) and "?" not in d["name"] and nm and mis: bad = f"hover label without the {mis[0]}"; continue
                bad = None; break
            yield f"layer {i + 1}", bad
            up = lo
        for i, u in enumerate(m["udls"]):
            l, r = float(u["left"]), float(u["right"])
            if r < l: continue      # pushed out of a model made smaller
            rects = [d for d in sh if d.get("type") == "rect" and close(d.get("x0"), l) and close(d.get("x1"), r)]
            if not rects: bad = f"no rectangle from {l:.6g} to {r:.6g}"
            elif not any(close(d.get("yanchor"), m["top"][1]) for d in rects): bad = "load not drawn at the level of the crest"
            elif not any(d.get("fillcolor") == u["color"] for d in rects): bad = "load not drawn in its colour"
            elif not any(num(d.get("y1")) and d["y1"] > 0 or d.get("y1") == "?" for d in rects): bad = "load drawn without height"
            elif not any(d.get("type") == "line" and close(d.get("x0"), l) and close(d.get("x1"), r) and close(d.get("xanchor"), l) and d.get("line_color") == u["color"] for d in sh): bad = f"no line on top of the load from {l:.6g} to {r:.6g}"
            elif any(not any(d.get("type") == "line" and close(d.get("xanchor"), x) and close(d.get("x0"), 0) and d.get("line_color") == u["color"] for d in sh) for x in (l, r)): bad = "no arrow at an end of the load"
            else:
                lab = [a for a in an if num(a.get("x")) and l - 1e-6 <= a["x"] <= r + 1e-6 and "kPa" in str(a.get("text"))]
                bad = None if lab else "no label with its pressure"
            yield f"uniform load {i + 1}", bad
        for i, u in enumerate(m["lls"]):
            x = float(u["coord"])
            at = [d for d in sh if close(d.get("xanchor"), x) and close(d.get("yanchor"), m["top"][1]) and d.get("type") == "line"]
            bad = None
            if not any(d.get("line_color") == u["color"] for d in at): bad = "line load not drawn at its position in its colour"
            elif not any(close(a.get("x"), x) and "kN/m" in str(a.get("text")) for a in an): bad = "no label with its force"
            yield f"line load {i + 1}", bad
        # values of the load labels
        for unit, ls in (("kPa", m["udls"]), ("kN/m", m["lls"])):
            want = sorted(float(u["magnitude"]) for u in ls)
            got = [numbers(str(a["text"])) for a in an if str(a.get("text")).rstrip().endswith(" " + unit)]
            if any("?" in str(a["text"]) for a in an if unit in str(a.get("text"))): continue
            got = sorted(g[0] for g in got if g)
            if want: yield f"load labels in {unit}", None if len(got) == len(want) and all(abs(a - b) <= 0.51 for a, b in zip(got, want)) else f"labels {got}, loads {want}"
        # water
        wy = m["water"]
        lines = [d for d in tr if d.get("line_color") == "blue" or d.get("line_color") is None and False]
        if wy is None: yield "no water line", None if not lines else "water line without a water table"
        elif wy > 0:
            wy = float(wy); bad = "no water line"
            for d in tr:
                p = points(d)
                if not p or d.get("fill") not in (None, "none") or len(p) < 2: continue
                if all(abs(y - min(wy, ground(m, x))) < 1e-6 * (1 + m["H"]) for x, y in p) and abs(min(x for x, y in p)) < 1e-9:
                    xe = max(x for x, y in p)
                    xg = m["L"] if wy < m["bot"][1] else m["top"][0] + (m["top"][1] - wy) * (m["bot"][0] - m["top"][0]) / (m["top"][1] - m["bot"][1])
                    if wy > m["bot"][1] * (1 + 1e-9): xg = m["L"]      # above the toe the water goes on along the surface
                    bad = None if xe >= xg - 1e-6 * (1 + xg) else "water line ends before the edge of the model"
                    if not bad: break
            yield "water line", bad
        for i, x in enumerate(m["limits"]):
            if i in (1, 2) and m["limits"][1] == m["limits"][2]: continue
            y = ground(m, x)
            ok = any(num(a.get("x")) and num(a.get("y")) and a.get("xref") in (None, "x") and abs(a["x"] - x) < 1e-6 * (1 + m["L"]) and abs(a["y"] - y) < 1e-6 * (1 + m["H"]) and a.get("text") == ("▶" if i in (0, 2) else "◀") for a in an)
            yield f"limit {i + 1}", None if ok else f"no mark on the ground at the limit x = {x:.6g}"
    def table(el, m, e):
        an = [d for k, d in el if k == "annotation" and d.get("xref") == "x domain" or k == "annotation" and d.get("xref") == "paper"]; sh = [d for k, d in el if k == "shape" and d.get("xref") in ("paper", "x domain")]
        heads = {}
        for key, pat in (("name", "MATERIAL"), ("unit_weight", "γ"), ("cohesion", "c ("), ("friction_angle", "ϕ")):
            h = [a for a in an if pat in str(a.get("text"))]
            if not h: yield "headings", f"no heading {pat}"; return
            heads[key] = h[0]
        yield "headings", None
        col = next((a["x"] for a in an if "COLOR" in str(a.get("text"))), None)
        if not num(col) or not num(heads["unit_weight"].get("x")): yield "headings", "no heading COLOR"; return
        ys = set()
        for i, a in enumerate(m["mats"]):
            rows = {}; same = False
            for key, h in heads.items():
                cells = [c for c in an if c is not h and c.get("x") == h.get("x") and num(c.get("y")) and c["y"] < h["y"]]
                cells.sort(key=lambda c: -c["y"])
                if len(cells) < len(m["mats"]): rows[key] = None; continue
                rows[key] = cells[i]
                if len({round(float(c["y"]), 9) for c in cells[:len(m["mats"])]}) < len(m["mats"]): same = True
            if any(v is None for v in rows.values()): yield f"row {i + 1}", "missing cells"; continue
            bad = None
            for key, c in rows.items():
                v, t = a[key], c.get("text")
                if isinstance(t, str) and key != "name": t = (numbers(t) or ["?"])[0]
                if t == "?": continue
                if (not close(t, v, 1e-2)) if num(v) else t != v: bad = f"{key} of layer {i + 1} is shown as {t}, not {v}"
            y = rows["name"]["y"]
            if len({round(float(c["y"]), 9) for c in rows.values()}) != 1: bad = bad or "cells of one layer in different rows"
            if same: bad = bad or "layers share a row"
            if not -1e-9 <= y <= 1: bad = bad or "row outside the figure"
            sw = [d for d in sh if d.get("fillcolor") == a["color"] and num(d.get("y0")) and min(d["y0"], d["y1"]) - 1e-9 <= y <= max(d["y0"], d["y1"]) + 1e-9]
            if not sw: bad = bad or f"colour of layer {i + 1} is not in its row"
            elif not any(num(d.get("x0")) and num(d.get("x1")) and close(min(d["x0"], d["x1"]), col) and close(max(d["x0"], d["x1"]), heads["unit_weight"]["x"]) for d in sw): bad = bad or f"colour of layer {i + 1} is not under its heading"
            yield f"row {i + 1}", bad
    quick = [dict(mats=1, udls=(), lls=0, water=False), dict(mats=2, udls=("f", "c"), lls=2, water=True), dict(mats=3, udls=("f", "c"), lls=1, water=True, limits="all", by="angle"), dict(mats=2, udls=(), lls=1, water=False, limits="outer"), dict(mats=0, udls=("f",), lls=1, water=True)]
    if chk.tier != "quick": quick += [dict(mats=4, udls=("c", "f", "f"), lls=3, water=True, limits="all"), dict(mats=3, udls=(), lls=0, water=True, by="angle", limits="outer")]
    LD = {f"x{i}": [Fraction(x) for x in v] for i, v in ((1, ("0", "1", "3.5")), (2, ("5", "8", "10.25", "11.9")), (3, ("12", "14.5", "11", "10.5", "12.1")), (4, ("16", "20", "30", "17.5")))}
    LD.update({f"off{i}{q}": [Fraction(x) for x in ("0", "0.5", "1.5", "3") + (("25",) if q else ())] for i in (1, 2, 3) for q in ("", "'")})
    LD0 = LD
    quick += [dict(mats=2, udls=("f", "f"), lls=1, water=True, shrunk=True), dict(mats=12, udls=(), lls=0, water=False)]
    def b(i, shape):
        LD = {**LD0, **{f"depth{j}": [Fraction(j, 2), Fraction(2 * j + 1, 4)] for j in range(1, 13)}} if shape["mats"] > 4 else LD0
        tag = f"model {i + 1} ({shape['mats']} layers, udls {''.join(shape['udls']) or 'none'}, {shape['lls']} line loads{', water' if shape['water'] else ''}{', limits' if shape.get('limits') else ''})"
        w = plot_model(shape); w.rec = Recorder(w); chk.use(w.eng); w.last = []
        v = w.m(w.o, "plot_boundary", material_table=TRUE); chk.use(w.eng)
        if w.dead(): chk.violate("boundary-content", tag, wh(w, "plot_boundary"), "no figure is ever returned", {}); return
        observe("boundary-content", tag, w, v, "plot_boundary", LD, boundary)
        if shape["mats"]: observe("table", tag, w, v, "_plot_material_table", LD, table)
        no_raise(chk, "boundary-content", tag, w, w.last, dom=LD)
    for i, s in enumerate(quick): attempt(chk, "boundary-content", f"model {i + 1}", lambda i=i, s=s: b(i, s))
    # ---- planes
    def colour_of(w, fos, e):
        """the entry of the table for a factor of safety"""
        d = w.eng.base.heap[w.ns["COLOUR_FOS_DICT"].id]
        k = min(round(float(fos), 1), 5.0)
        for key, g, v in d.items:
            if abs(float(cval(key)) - k) < 1e-9: return e(w.eng.to_node(v))
        return None
    def border(fos):
        """close to a boundary between two colours"""
        x = float(fos) * 20
        return abs(x - round(x)) < 1e-6 or abs(float(fos) * 1000 % 1 - 0.5) < 1e-6 or abs((float(fos) * 10) % 1 - 0.5) < 0.011
    def arc_ok(p, q, closed):
        """the points of a trace follow the lower arc between its end points; complaint or None"""
        L, R = (q["lx"], q["ly"]), (q["rx"], q["ry"]); c = (q["cx"], q["cy"]); r = q["r"]
        def has(z, tol=2e-3): return any(abs(x - z[0]) + abs(y - z[1]) <= tol * (1 + abs(z[0])) for x, y in p)
        if not has(L): return "without its left end point"
        if not has(R): return "without its right end point"
        if closed and not has(c): return "without its centre"
        on = [(x, y) for x, y in p if abs(x - c[0]) + abs(y - c[1]) > 2e-3 * (1 + abs(c[0]))]
        if any(abs(math.hypot(x - c[0], y - c[1]) - r) > 5e-3 * (1 + abs(r) * 0.01) for x, y in on): return "with points off its circle"
        if any(x < L[0] - 2e-3 or x > R[0] + 2e-3 for x, y in on): return "with points outside its ends"
        # from left to right, no gap larger than the sampling of the circle allows
        xs = on if not closed else sorted(on)
        ang = [math.atan2(x - c[0], c[1] - y) for x, y in xs]   # from straight below the centre
        for (a, z), t in zip(zip(ang, ang[1:]), range(len(ang))):
            # parts above the left end point are cut off
            if abs(z - a) > math.radians(4.2) + 0.01 and c[1] - max(math.cos(a), math.cos(z)) * r < L[1] - 0.05 * r: return "with a gap"
        if not closed and any(a[0] > z[0] + 2e-3 for a, z in zip(on, on[1:])): return "running back and forth"
        return None
    def plane_values(w, e):
        out = []
        for p in w.planes:
            q = {k: float(e(p[k])) for k in p}
            q["fos"] = e(p["fos"]); out.append(q)
        return out
    def crit(w, scale):
        def f(el, m, e):
            tr = [d for k, d in el if k == "trace"]
            ps = plane_values(w, e); ps.sort(key=lambda q: q["fos"])
            if len(ps) > 1 and ps[1]["fos"] - ps[0]["fos"] < 1e-6: raise Unclear()
            q = ps[0]
            mine = []
            for d in tr:
                p = points(d)
                if p and len(p) > 2 and d.get("fill") in (None, "none") and any(abs(x - q["cx"]) + abs(y - q["cy"]) < 2e-3 * (1 + q["cx"]) for x, y in p): mine.append((d, p))
            if len(mine) != 1: yield "arc", f"{len(mine)} arcs with the centre of the critical circle"; return
            d, p = mine[0]
            yield "arc", (lambda b: f"critical plane drawn {b}" if b else None)(arc_ok(p, q, True))
            if not border(q["fos"]):
                yield "colour", None if d.get("line_color") == colour_of(w, q["fos"], e) else f"critical plane of factor {float(q['fos']):.4g} not in the colour of that factor"
            lab = [t for d in tr if (p := points(d)) and any(abs(x - q["cx"]) + abs(y - q["cy"]) < 2e-3 * (1 + q["cx"]) for x, y in p) for t in (d.get("text") if isinstance(d.get("text"), list) else [d.get("text")]) if isinstance(t, str)]
            hov = [d.get("hovertemplate") for d in tr if (p := points(d)) and len(p) == 1 and abs(p[0][0] - q["cx"]) + abs(p[0][1] - q["cy"]) < 2e-3 * (1 + q["cx"])]
            hov = [h for h in hov if isinstance(h, str) and "?" not in h]
            if hov:
                hn = [numbers(h) for h in hov]
                yield "hover label", None if any(len(z) >= 4 and all(abs(a - b) < 1.1e-3 for a, b in zip(z[:4], (q["cx"], q["cy"], q["r"], float(q["fos"])))) for z in hn) else f"centre, radius and factor {q['cx']:.5g}, {q['cy']:.5g}, {q['r']:.5g}, {float(q['fos']):.5g} labelled {hov}"
            # the scale: a patch for every step, in order
            d0 = w.eng.base.heap[w.ns["COLOUR_FOS_DICT"].id]
            tab = sorted((float(cval(k)), e(w.eng.to_node(v))) for k, g, v in d0.items)
            pat = [d for k, d in el if k == "shape" and d.get("xref") == "paper" and d.get("type") == "rect" and all(num(d.get(x)) for x in ("x0", "x1", "y0", "y1")) and abs(float(d["y1"]) - float(d["y0"])) < 0.02]
            pat = [d for d in pat if d.get("fillcolor") in {c for k, c in tab}]
            pat.sort(key=lambda d: float(d["y0"]) + float(d["y1"]))
            seen = {}
            for d in pat: seen[(round(float(d["y0"]) + float(d["y1"]), 9), d["fillcolor"])] = d      # drawn twice is the same scale
            cs = [d["fillcolor"] for d in seen.values()]; want = [c for k, c in tab]
            if cs or scale: yield "scale", None if cs in (want, want[::-1]) else f"the scale has {len(cs)} of {len(want)} steps or another order of colours"
            nums = [z for t in lab for z in numbers(t)]
            if any("?" in t for t in lab): return
            yield "value", None if any(abs(z - float(q["fos"])) < 1.1e-3 for z in nums) else f"critical factor {float(q['fos']):.5g} labelled {lab}"
        return f
    def allp(w, mx):
        def f(el, m, e):
            tr = [d for k, d in el if k == "trace"]
            ps = plane_values(w, e); lim = None if mx is NONE else e(mx)
            best = min(q["fos"] for q in ps)
            # arcs without the centre
            arcs = []
            for d in tr:
                p = points(d)
                if not p or d.get("fill") not in (None, "none") or len(p) < 2: continue
                for i, q in enumerate(ps):
                    if any(abs(x - q["cx"]) + abs(y - q["cy"]) < 2e-3 * (1 + abs(q["cx"])) for x, y in p): continue
                    if abs(p[0][0] - q["lx"]) + abs(p[0][1] - q["ly"]) < 1e-6 * (1 + abs(q["lx"])) and abs(p[-1][0] - q["rx"]) + abs(p[-1][1] - q["ry"]) < 1e-6 * (1 + abs(q["rx"])): arcs.append((i, d, p))
                    elif abs(p[-1][0] - q["lx"]) + abs(p[-1][1] - q["ly"]) < 1e-6 * (1 + abs(q["lx"])) and abs(p[0][0] - q["rx"]) + abs(p[0][1] - q["ry"]) < 1e-6 * (1 + abs(q["rx"])): arcs.append((i, d, p[::-1]))
            for i, q in enumerate(ps):
                if lim is not None and q["fos"] != lim and abs(float(q["fos"]) - float(lim)) < 1e-6: continue
                mine = [a for a in arcs if a[0] == i]; want = 1 if lim is None or q["fos"] < lim else 0
                yield "planes shown", None if len(mine) == want else f"plane of factor {float(q['fos']):.4g} drawn {len(mine)} times with maximum {None if lim is None else float(lim)}"
                for _, d, p in mine:
                    yield "arcs", (lambda b: f"plane drawn {b}" if b else None)(arc_ok(p, q, False))
                    if not border(q["fos"]): yield "colours", None if d.get("line_color") == colour_of(w, q["fos"], e) else f"plane of factor {float(q['fos']):.4g} not in the colour of that factor"
                    meta = d.get("meta")
                    if isinstance(meta, list) and meta and num(meta[0]): yield "values", None if abs(float(meta[0]) - float(q["fos"])) < 1.1e-3 else f"plane of factor {float(q['fos']):.5g} labelled {float(meta[0])}"
        return f
    shape = dict(mats=2, udls=("f",), lls=1, water=True)
    D = dict(LD); D.update(PDOM)
    def planes(k, many=False):
        w = plot_model(shape if not many else dict(mats=1, udls=(), lls=0, water=False), k, many); w.m(w.o, "analyse_slope")
        # an arc: the ends are left and right, the left one higher, and all of it right of the edge of the model
        for p in w.planes: w.st.assume(lt(p["ry"], p["ly"])); w.st.assume(lt(ZERO, p["lx"])); w.st.assume(lt(p["lx"], p["rx"]))
        for meth, kw in (("plot_critical", {}), ("plot_all_planes", {"max_fos": "mx"}), ("plot_all_planes", {"max_fos": None}), ("plot_all_planes", {})):
            v_ = w.clone(); v_.rec = Recorder(v_); v_.last = []; v_.planes = w.planes
            mx = v_.s("mx") if kw.get("max_fos") else NONE if "max_fos" in kw else const(5)
            tag = f"{k} planes: {meth}({'' if not kw else 'max_fos=' + str(kw['max_fos'])})"
            r = v_.m(v_.o, meth, **({"max_fos": mx} if kw else {})); chk.use(v_.eng)
            if v_.dead(): chk.violate("critical-plane", tag, wh(v_, meth), "no figure is ever returned", {}); continue
            observe("critical-plane", tag, v_, r, meth, D, crit(v_, meth == "plot_all_planes"))
            if meth == "plot_all_planes": observe("all-planes", tag, v_, r, meth, D, allp(v_, mx))
            observe("boundary-content", tag, v_, r, "plot_boundary", D, boundary)
            no_raise(chk, "colour", tag, v_, v_.last, dom=D)
    for k in ((1, 2) if chk.tier == "quick" else (1, 2, 3)): attempt(chk, "all-planes", f"{k} planes", lambda k=k: planes(k))
    attempt(chk, "all-planes", "many planes", lambda: planes(MANY, True))
    # ---- the table of colours
    def colours():
        w = World(); chk.use(w.eng)
        v = w.ns.get("COLOUR_FOS_DICT")
        if v is None: raise Missing("COLOUR_FOS_DICT")
        d = w.eng.base.heap[v.id]
        keys = sorted(round(float(cval(k)), 6) for k, g, x in d.items if g is TRUE)
        want = [round(i / 10, 6) for i in range(51)]
        miss = [k for k in want if k not in keys]
        if miss: chk.violate("colour", "steps", "pyslope/utilities.py create_fos_color_dictionary", f"no colour for {miss[:5]}", {})
        else: chk.ok("colour", "steps", "51 steps from 0 to 5")
        if max(keys) > 5: chk.violate("colour", "cap", "pyslope/utilities.py create_fos_color_dictionary", f"top of the scale is {max(keys)}", {})
        else: chk.ok("colour", "cap", "5.0")
    attempt(chk, "colour", "table", colours)
