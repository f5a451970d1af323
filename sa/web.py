"""Abstract model of the Django requests the views answer.

Forms are objects whose cleaned data are symbols, one per field of the form (read from the form and
model declarations), so a value can be followed from the field it was typed into to the engine
parameter it ends up in. A form is known by the fields it has, not by its name."""
from . import terms as T
from .terms import *
from .values import *
from .world import World, Missing

ROLES = [("options", {"iterations"}), ("material", {"friction_angle"}), ("water", {"water_depth"}), ("limits", {"left_x"}), ("slope", {"height"}), ("udl", {"magnitude", "length"}), ("ll", {"magnitude"})]
ROW = ("material", "udl", "ll")

def last(p): return p.rstrip("()").rsplit(".", 1)[-1]

class Web(World):
    def __init__(self, config=None, rows=None, invalid=(), eng=None):
        super().__init__(eng)
        self.views = self.eng.load("slope.views")
        # loading may have run module code in the base state
        self.st = self.eng.base.clone()
        self.vns = self.st.heap[self.views.env.id].vars
        self.config = config or {}; self.rows = rows or {}; self.invalid = set(invalid)
        self.created = []                    # forms and formsets made, in order
        self.renders = []; self.redirects = []; self.responses = []
        h = self.eng.hooks
        h["call_extval"] = self.h_call; h["ext_call"] = self.h_ext; h["ext_getattr"] = self.h_attr; h["builtin:float"] = self.h_float; h["builtin:int"] = self.h_int
        h["ext_setitem"] = self.h_setitem; h["obj_getattr"] = self.h_obj
        for m in ("slope.forms", "slope.views"):
            for v in list(self.st.heap[self.eng.load(m).env.id].vars.values()):
                if isinstance(v, ClassVal) and self.kind(v): h["new:" + v.name] = self.h_new
        self.session = None; self.tag = ""
    # ---- declarations
    def kind(self, c):
        for k in self.eng.class_mro(c):
            for b in k.bases:
                if isinstance(b, Ext) and last(b.path) in ("ModelForm", "BaseModelForm"): return "modelform"
                if isinstance(b, Ext) and last(b.path) in ("Form", "BaseForm") and "forms" in b.path: return "form"
        return None
    def cvars(self, c): return self.st.heap[c.env.id].vars
    def meta(self, c):
        for k in self.eng.class_mro(c):
            m = self.cvars(k).get("Meta")
            if isinstance(m, ClassVal):
                out = {}
                for q in reversed(self.eng.class_mro(m)): out.update(self.cvars(q))
                return out
        return {}
    def model_fields(self, model):
        out = {}
        for k in reversed(self.eng.class_mro(model)):
            for n, v in self.cvars(k).items():
                if isinstance(v, ExtVal) and last(v.path).endswith("Field"): out[n] = v
        return out
    def fields(self, c):
        """name -> (field declaration, model declaration or None)"""
        out = {}
        me = self.meta(c)
        if isinstance(me.get("model"), ClassVal):
            mf = self.model_fields(me["model"])
            fs = me.get("fields"); ex = me.get("exclude")
            if isinstance(fs, Node) and isc(fs) and cval(fs) == "__all__": names = list(mf)
            elif fs is not None and not (isinstance(fs, Node) and fs is NONE): names = [cval(v) for _, v in self.items(fs)]
            else: names = list(mf)
            if ex is not None and ex is not NONE: 
                gone = {cval(v) for _, v in self.items(ex)}; names = [n for n in names if n not in gone]
            for n in names:
                if n not in mf: raise Unsupported(f"form field {n} is not a field of the model")
                out[n] = (mf[n], mf[n])
        for k in reversed(self.eng.class_mro(c)):
            for n, v in self.cvars(k).items():
                if isinstance(v, ExtVal) and last(v.path).endswith("Field"): out[n] = (v, out[n][1] if n in out else None)
        return out
    def role(self, c):
        f = set(self.fields(c))
        for r, need in ROLES:
            if need <= f: return r
        return "other:" + c.name
    def opt(self, f, name, dflt=None):
        v = f.kw.get(name)
        if v is None: return dflt
        return cval(v) if isinstance(v, Node) and isc(v) else v
    def default(self, f):
        v = f.kw.get("default")
        if v is None: return const("") if last(f.path) in ("CharField", "TextField") else NONE
        if isinstance(v, (Func, ClassVal, BoundMethod, Builtin)): return self.eng.call(self.st, v, [], {}, None)
        return v
    # ---- values
    def value(self, st, role, row, name, f):
        key = f"{role}{row or ''}.{name}"
        t = last(f.path)
        if key in self.config: return self.w(self.config[key])
        key = self.tag + key
        lo, hi = self.opt(f, "min_value"), self.opt(f, "max_value")
        def bounded(s):
            for c in ([le(const(lo), s)] if isinstance(lo, (int, float, Fraction)) else []) + ([le(s, const(hi))] if isinstance(hi, (int, float, Fraction)) else []):
                if c.id not in st.facts: st.assume(c)
            return s
        if t == "FloatField": return bounded(self.s(key))
        if t in ("IntegerField", "PositiveIntegerField", "BigIntegerField", "SmallIntegerField", "PositiveSmallIntegerField"): return bounded(self.s(key, "int"))
        if t == "DecimalField": return ExtVal("decimal.Decimal", (bounded(self.s(key)),), {}, None, "dec:" + key)
        if t in ("BooleanField", "NullBooleanField"): return self.s(key, "bool")
        if t in ("CharField", "TextField"):
            s = self.s(key, "str")
            return ite(self.s(key + " empty", "bool"), NONE, s) if self.opt(f, "null") is True else s
        if t == "ChoiceField":
            return self.s(key, "str")
        raise Unsupported(f"form field of type {t}")
    def cleaned(self, st, cls, row):
        role = self.role(cls)
        items = [(const(n), TRUE, self.value(st, role, row, n, f)) for n, (f, _) in self.fields(cls).items()]
        if self.kind(cls) == "modelform" and row: items.append((const("id"), TRUE, NONE))
        return self.eng.new(st, DictRec(items))
    # ---- requests
    def request(self, method, session=(), post="request.POST"):
        if session is not None: self.session = self.eng.new(self.st, DictRec([(const(k), TRUE, v) for k, v in session]))
        self.post = ExtVal(post, (), {}, None, post) if method == "POST" else self.eng.new(self.st, DictRec(()))
        return ExtVal("request", (const(method), self.session, self.post), {}, None, "request")
    def view(self, name, req, **kw):
        f = self.vns.get(name)
        if f is None: raise Missing(f"views.{name}")
        return self.call(f, req, **kw)
    def sess(self, st=None):
        st = st or self.st
        return {cval(k): (g, v) for k, g, v in st.heap[self.session.id].items if isc(k)}
    # ---- hooks
    def h_new(self, eng, st, c, args, kw, node):
        if self.eng.class_attr(st, c, "__init__") is not None: raise Unsupported(f"{c.name} has its own __init__")
        data = args[0] if args else kw.get("data", NONE)
        pre = kw.get("prefix", args[3] if len(args) > 3 else None)
        if pre is None:
            pre = self.eng.class_attr(st, c, "prefix")
            if pre is None: pre = NONE
        o = eng.new(st, ObjRec(c, {"data": data, "prefix": pre, "is_bound": not_(T.eq(data, NONE)) if isinstance(data, Node) else TRUE, "initial": kw.get("initial", NONE)}, {}))
        self.created.append(dict(kind="form", cls=c, role=self.role(c), data=data, prefix=pre, obj=o, node=node, kw=kw))
        return o
    def h_obj(self, eng, st, o, name, node):
        # a form has no cleaned data before it was validated
        if name == "cleaned_data" and self.kind(st.heap[o.id].cls): return eng.do_raise(st, "AttributeError", node, implicit=True)
        return NotImplemented
    def h_setitem(self, eng, st, o, k, v, node): return NotImplemented
    def formset_cls(self, f):
        """(model, form class) of a formset factory result"""
        n = last(f.path)
        if n == "modelformset_factory":
            a = list(f.args)
            model = a[0] if a else f.kw.get("model"); form = a[1] if len(a) > 1 else f.kw.get("form")
            return model, form
        if n == "formset_factory":
            form = f.args[0] if f.args else f.kw.get("form"); return None, form
        return None
    def formset(self, st, f, args, kw, node):
        model, form = self.formset_cls(f)
        if not isinstance(form, ClassVal): raise Unsupported("formset without its own form class")
        me = self.meta(form).get("model")
        data = args[0] if args else kw.get("data", NONE)
        uid = self.eng.fresh("formset")
        o = ExtVal("formset", (form, data, kw.get("prefix", const("form"))), {"model": model, "queryset": kw.get("queryset", None), "initial": kw.get("initial", None)}, f, uid)
        self.created.append(dict(kind="formset", cls=form, role=self.role(form), data=data, prefix=kw.get("prefix", const("form")), obj=o, node=node, kw=kw, model=model, factory=f))
        return o
    def row(self, st, form, i, kind, data, pre, node):
        """(form object, whether its own cleaning accepts it) of one row of a formset"""
        d = self.eng.new(st, DictRec(())) if kind == "blank" else self.cleaned(st, form, i)
        o = self.eng.new(st, ObjRec(form, {"cleaned_data": d, "data": data, "prefix": pre, "empty_permitted": TRUE}, {}))
        return o, TRUE if kind == "blank" else self.own_clean(st, o, d, node)
    def formrows(self, st, o, node):
        """the forms of a bound formset, made once"""
        form, data, pre = o.args
        key = ("@rows", o.uid)
        v = st.heap[self.views.env.id].vars.get(key)
        if v is None:
            rows = [self.row(st, form, i, kind, data, pre, node) for i, kind in enumerate(self.rows.get(self.role(form), ["filled"]), 1)]
            if st.dead: return [], FALSE
            v = VTuple([self.eng.list_of(st, [x for x, _ in rows]), and_(*[g for _, g in rows]) if rows else TRUE])
            r = st.heap[self.views.env.id]; st.heap[self.views.env.id] = EnvRec({**r.vars, key: v}, r.parent)
        return v.items
    def valid(self, role): return FALSE if role in self.invalid else TRUE
    def h_attr(self, eng, st, o, name, node):
        if o.path == "request":
            m, s, p = o.args
            if name == "method": return m
            if name == "session": return s
            if name == "POST": return p
            return NotImplemented
        if o.path == "formset":
            form, data, pre = o.args
            if name in ("cleaned_data",):
                if data is NONE or self.valid(self.role(form)) is FALSE: return eng.do_raise(st, "AttributeError", node, implicit=True)
                rows, ok = self.formrows(st, o, node)
                if st.dead: return UNDEF
                eng.may_raise(st, not_(ok), "AttributeError", node)
                if st.dead: return UNDEF
                return eng.list_of(st, [eng.getattr(st, x, "cleaned_data", node) for _, x in st.heap[rows.id].items])
            if name == "prefix": return pre
            if name == "is_bound": return FALSE if data is NONE else TRUE
            if name == "forms":
                if data is NONE: raise Unsupported("forms of an unbound formset")
                return self.formrows(st, o, node)[0]
        return NotImplemented
    def h_call(self, eng, st, f, a, kw, node):
        if self.formset_cls(f) and not f.path.endswith("()"): return self.formset(st, f, a, kw, node)
        if f.recv is not None and isinstance(f.recv, ExtVal) and f.recv.path == "formset":
            form = f.recv.args[0]
            if last(f.path) == "is_valid":
                if f.recv.args[1] is NONE or self.valid(self.role(form)) is FALSE: return FALSE
                return self.formrows(st, f.recv, node)[1]
        if f.recv is not None and isinstance(f.recv, Ref) and isinstance(st.heap[f.recv.id], ObjRec) and self.kind(st.heap[f.recv.id].cls):
            o = f.recv; r = st.heap[o.id]
            if last(f.path) == "is_valid":
                if r.fields["data"] is NONE or self.valid(self.role(r.cls)) is FALSE: return FALSE
                if "cleaned_data" not in r.fields:
                    d = self.cleaned(st, r.cls, None)
                    eng.setattr(st, o, "cleaned_data", d, node)
                    ok = self.own_clean(st, o, d, node)
                    if st.dead: return UNDEF
                    eng.setattr(st, o, "@valid", ok, node)
                return st.heap[o.id].fields.get("@valid", TRUE)
            if last(f.path) == "clean": return r.fields.get("cleaned_data", NONE)
        # Model._meta.get_field(name).get_default()
        n = last(f.path)
        if n == "get_default" and isinstance(f.recv, ExtVal) and last(f.recv.path) == "get_field":
            fld = self.meta_field(f.recv)
            return self.default(fld)
        return NotImplemented
    def meta_field(self, v):
        """declaration named by Model._meta.get_field(name)"""
        m = v.recv
        while isinstance(m, ExtVal): m = m.recv
        if not isinstance(m, ClassVal) or not v.args: raise Unsupported("field of an unknown model")
        fs = self.model_fields(m); n = cval(v.args[0])
        if n not in fs: raise Unsupported(f"FieldDoesNotExist: {m.name}.{n}")
        return fs[n]
    def own_clean(self, st, o, d, node):
        """the form's own cleaning methods; returns whether they accept the values"""
        eng = self.eng; cls = st.heap[o.id].cls
        if not any(isinstance(eng.class_attr(st, cls, m), Func) for m in ["clean"] + ["clean_" + n for n in self.fields(cls)]): return TRUE
        sink = []; eng.sinks.append(sink)
        s2 = st.clone()
        try: self.own_clean1(s2, o, d, node)
        finally: eng.sinks.pop()
        outs = [] if s2.dead else [(s2, TRUE)]
        for rs, e, bases in sink:
            if e.cls.rsplit(".", 1)[-1] == "ValidationError":
                rs = rs.clone(); rs.dead = False; outs.append((rs, FALSE))
            else: eng.sinks[-1].append((rs, e, bases))
        if not outs: st.dead = True; return FALSE
        m, v = eng.merge(outs)
        st.become(m)
        return v
    def own_clean1(self, st, o, d, node):
        eng = self.eng; cls = st.heap[o.id].cls
        for n in self.fields(cls):
            m = eng.class_attr(st, cls, "clean_" + n)
            if isinstance(m, Func):
                v = eng.call(st, BoundMethod(m, o), [], {}, node)
                if st.dead: return
                r = st.heap[d.id]
                st.heap[d.id] = DictRec([(k, g, v if cval(k) == n else x) for k, g, x in r.items], r.kind, r.loc)
        m = eng.class_attr(st, cls, "clean")
        if isinstance(m, Func):
            v = eng.call(st, BoundMethod(m, o), [], {}, node)
            if not st.dead and isinstance(v, Ref): eng.setattr(st, o, "cleaned_data", v, node)
    def h_ext(self, eng, st, path, a, kw, recv, node):
        n = last(path)
        if n == "get_field" and path.endswith("()"):
            return ExtVal(path.rstrip("()"), a, kw, recv, eng.fresh("field"))
        if n == "render" and not path.startswith("formset"):
            self.renders.append((st.clone(), a, kw, node)); return ExtVal("response:page", tuple(a), kw, None, eng.fresh("resp"))
        if n in ("redirect", "HttpResponseRedirect"):
            self.redirects.append((st.clone(), a, kw, node)); return ExtVal("response:redirect", tuple(a), kw, None, eng.fresh("resp"))
        if n in ("HttpResponse", "JsonResponse", "FileResponse", "HttpResponseBadRequest", "HttpResponseNotFound", "HttpResponseNotAllowed"):
            self.responses.append((st.clone(), a, kw, node)); return ExtVal("response:document", tuple(a), kw, None, eng.fresh("resp"))
        return NotImplemented
    def dec(self, v):
        return isinstance(v, ExtVal) and v.path == "decimal.Decimal" and v.args and isinstance(v.args[0], Node) and not v.kw
    def h_float(self, eng, st, a, kw, node):
        if a and self.dec(a[0]): return a[0].args[0]
        return NotImplemented
    def h_int(self, eng, st, a, kw, node):
        if a and self.dec(a[0]): return eng.models.call_builtin(eng, st, "int", [a[0].args[0]], {}, node)
        return NotImplemented
