"""What a plot call draws: every plotly call is recorded with its arguments as they were at the call, and
the figure returned is pictured, at an assignment of the inputs, as the list of its elements."""
import re
from .common import *

def freeze(st, v, depth=0):
    """a value as it is now, independent of later changes of containers"""
    if depth > 100: return ("opaque", v)
    if isinstance(v, Node): return ("node", v)
    if isinstance(v, VTuple): return ("seq", [(TRUE, freeze(st, x, depth + 1)) for x in v.items])
    if isinstance(v, VIte): return ("ite", v.c, freeze(st, v.a, depth + 1), freeze(st, v.b, depth + 1))
    if isinstance(v, ExtVal): return ("ext", v)
    if isinstance(v, Ref):
        r = st.heap[v.id]
        if isinstance(r, ListRec): return ("seq", [(g, freeze(st, x, depth + 1)) for g, x in r.items])
        if isinstance(r, DictRec): return ("map", [(freeze(st, k, depth + 1), g, freeze(st, x, depth + 1)) for k, g, x in r.items])
        if isinstance(r, ArrRec) and r.items is not None: return ("seq", [(TRUE, freeze(st, x, depth + 1)) for x in r.items])
        if isinstance(r, ObjRec): return ("opaque", v)
    return ("opaque", v)

class Unclear(Exception): pass
def truth(e, c):
    t = e.truth(c)
    if t is T.AMB or t is T.ERR: raise Unclear()
    return t

def text(n, e):
    """the text of a formatted string, numbers as Python prints them"""
    if n.op in ("fmt", "strcat"): return "".join(text(a, e) for a in n.args)
    x = n.args[2] if n.op == "app" and n.args[0] in ("format", "str") else n
    spec = ""
    if n.op == "app" and n.args[0] == "format":
        spec = text(n.args[3], e)
    try: v = e(x)
    except (NotImplementedError, KeyError): return "?"
    if v is T.AMB or v is T.ERR: return "?"
    if isinstance(v, tuple): return text(x, e) if x is not n and x.op in ("fmt", "strcat") else "?"
    if isinstance(v, (Fraction, float)) :
        v = float(v)
        try: return format(v, spec) if spec and "?" not in spec else repr(v) if v != int(v) else str(int(v))
        except (ValueError, OverflowError): return repr(v)
    return str(v)

class Recorder:
    """records the calls of the plotting library made while interpreting"""
    def __init__(self, w):
        self.w = w; self.calls = []; self.args = {}
        w.eng.hooks["ext_call"] = self.hook
    def hook(self, eng, st, path, args, kw, recv, node):
        if not path.startswith("plotly."): return NotImplemented
        v = ExtVal(path, args, kw, recv, eng.fresh("x"))
        fa, fk = [freeze(st, x) for x in args], {k: freeze(st, x) for k, x in kw.items()}
        self.args[v.uid] = (fa, fk)
        self.calls.append((st.pc, path, fa, fk, recv, v, getattr(node, "lineno", 0)))
        eng.event(st, "call", path, args, kw, recv, v, node)
        return v
    # ---- values at an assignment
    def thaw(self, f, e):
        k = f[0]
        if k == "node":
            if f[1].op in ("fmt", "strcat") or f[1].op == "app" and f[1].args[0] in ("format", "str"): return text(f[1], e)
            try: x = e(f[1])
            except (NotImplementedError, KeyError): return "?"
            return "?" if x is T.AMB or x is T.ERR else x
        if k == "seq": return [self.thaw(x, e) for g, x in f[1] if truth(e, g)]
        if k == "map": return {self.thaw(a, e): self.thaw(x, e) for a, g, x in f[1] if truth(e, g)}
        if k == "ite": return self.thaw(f[2] if truth(e, f[1]) else f[3], e)
        if k == "ext":
            v = f[1]
            if v.uid in self.args and v.path.startswith("plotly."): return self.obj(v, e)
            try: return e(self.w.eng.to_node(v))
            except (NotImplementedError, KeyError, AttributeError): return f"<{v.uid}>"
        return f"<{f[1]!r}>"
    def obj(self, v, e):
        fa, fk = self.args[v.uid]
        d = {"@": v.path.split(".")[-1]}
        for x in fa:
            y = self.thaw(x, e)
            if isinstance(y, dict): d.update(y)
            else: d.setdefault("@args", []).append(y)
        d.update({k: self.thaw(x, e) for k, x in fk.items()})
        return d
    def base(self, v):
        """the figure a value denotes: methods of a figure return the figure"""
        while isinstance(v, ExtVal) and v.recv is not None and isinstance(v.recv, ExtVal): v = v.recv
        return v
    def elements(self, fig, e, upto=None):
        """(kind, properties) of everything in the figure"""
        while isinstance(fig, VIte): fig = fig.a if truth(e, fig.c) else fig.b
        b = self.base(fig)
        if not isinstance(b, ExtVal) or not b.path.endswith("Figure"): raise Unclear()
        out = []; pos = None
        for n, (pc, path, fa, fk, recv, v, line) in enumerate(self.calls):
            if upto is not None and n >= upto: break
            if v.uid == b.uid: pos = n
            elif not (recv is not None and getattr(self.base(recv), "uid", None) == b.uid): continue
            if not all(truth(e, c) for c, soft in pc): continue
            name = path.split(".")[-1].rstrip("()")
            if v.uid == b.uid:
                a = fa[0] if fa else fk.get("data")
                lay = fk.get("layout")
                if a is not None: out += self.data(a, e, n)
                if lay is not None and lay[0] == "map": out += self.layout(self.thaw(lay, e))
                continue
            vals = [self.thaw(x, e) for x in fa]
            kws = {k: self.thaw(x, e) for k, x in fk.items()}
            if name in ("add_trace", "append_trace"): out += [self.norm("trace", x) for x in (vals or [kws.get("trace")])[:1]]
            elif name == "add_traces":
                xs = vals[0] if vals else kws.get("data")
                out += [self.norm("trace", x) for x in (xs if isinstance(xs, list) else [xs])]
            elif name in ("add_shape", "add_annotation"):
                d = {}
                for x in vals:
                    if isinstance(x, dict): d.update(x)
                a = kws.pop("arg", None)
                if isinstance(a, dict): d.update(a)
                d.update(kws); out.append(self.norm(name[4:], d))
            elif name in ("add_scatter",): out.append(self.norm("trace", {"@": "Scatter", **kws}))
            elif name == "update_layout": out += self.layout(kws)
            elif name in ("update_yaxes", "update_xaxes", "to_json", "to_image", "show"): pass
            else: out.append(("unknown", {"method": name}))
        if pos is None: raise Unclear()
        return out
    def layout(self, d):
        out = []
        for k in ("shapes", "annotations"):
            for x in d.get(k) or []: out.append(self.norm(k[:-1], x) if isinstance(x, dict) else ("unknown", {"method": k}))
        return out
    def data(self, a, e, n):
        """initial content of a figure: a trace, a list of traces or the dictionary form of another figure"""
        while a[0] == "ite": a = a[2] if truth(e, a[1]) else a[3]
        if a[0] == "ext":
            if a[1].path == "*": return self.elements(a[1].recv, e, n)
            return [self.norm("trace", self.thaw(a, e))]
        if a[0] == "seq":
            out = []
            for g, x in a[1]:
                if truth(e, g): out += self.data(x, e, n)
            return out
        if a[0] == "map":
            keys = {}
            for k, g, x in a[1]:
                if truth(e, g): keys[self.thaw(k, e)] = x
            if "data" in keys: return self.data(keys["data"], e, n)
            return [self.norm("trace", self.thaw(a, e))]
        raise Unclear()
    def norm(self, kind, d):
        """one spelling of nested properties: line_color for line=dict(color=...)"""
        if not isinstance(d, dict): return ("unknown", {"method": str(d)})
        out = {}
        def put(p, x):
            if isinstance(x, dict) and "@" not in x:
                for k, y in x.items(): put(f"{p}_{k}" if p else str(k), y)
            elif isinstance(x, dict):
                for k, y in x.items():
                    if k != "@": put(f"{p}_{k}" if p else str(k), y)
            else: out[p] = x
        put("", {k: v for k, v in d.items() if k != "@"})
        return (kind, out)

def num(x): return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)
def close(a, b, tol=2e-3):
    return num(a) and num(b) and abs(float(a) - float(b)) <= tol * (1 + abs(float(b)))
def points(d):
    """vertices of a trace, or None"""
    x, y = d.get("x"), d.get("y")
    if not isinstance(x, list) or not isinstance(y, list) or len(x) != len(y): return None
    if not all(num(a) for a in x + y): return None
    return [(float(a), float(b)) for a, b in zip(x, y)]
def area(p):
    return abs(sum(p[i][0] * p[(i + 1) % len(p)][1] - p[(i + 1) % len(p)][0] * p[i][1] for i in range(len(p)))) / 2
def numbers(s):
    """numbers in a text"""
    return [float(x) for x in re.findall(r"-?\d+\.?\d*(?:[eE][-+]?\d+)?", s)] if isinstance(s, str) else []
