"""C22: the migrations, applied in order, produce exactly the tables and columns the models declare.

The model classes and the migration classes are evaluated as written (constants, shared
bases and helper values resolved); the operations are then replayed over an abstract
database: tables -> columns -> (type, parameters the database sees)."""
import os, re
from .. import terms as T
from ..terms import Node, isc, cval
from ..values import *
from ..interp import Engine
from ..oblig import REPO
from .common import attempt

SEEN = ("max_length", "null", "default", "unique", "db_index", "db_column", "primary_key", "max_digits", "decimal_places",
        "to", "on_delete", "db_constraint", "auto_now", "auto_now_add", "db_default", "db_collation", "through", "to_field", "unique_for_date")
DEFAULTS = {"null": False, "unique": False, "db_index": False, "primary_key": False, "db_column": None, "max_length": None,
            "auto_now": False, "auto_now_add": False, "db_constraint": True, "db_collation": None, "to_field": None}

def plain(eng, v, st=None):
    st = st or eng.base
    if isinstance(v, Node):
        if v is T.NONE: return None
        if isc(v):
            x = cval(v)
            return x
        raise Unsupported(f"value {v!r} is not constant")
    if isinstance(v, VTuple): return tuple(plain(eng, x, st) for x in v.items)
    if isinstance(v, (Ext, Builtin)): return repr(v)
    if isinstance(v, ClassVal): return f"<class {v.name}>"
    if isinstance(v, Func): return f"<function {v.name}>"
    if isinstance(v, ExtVal): return (v.path, tuple(plain(eng, x, st) for x in v.args), tuple(sorted((k, plain(eng, x, st)) for k, x in v.kw.items())))
    if isinstance(v, Ref):
        r = st.heap[v.id]
        if isinstance(r, ListRec) and all(g is T.TRUE for g, _ in r.items): return [plain(eng, x, st) for _, x in r.items]
        if isinstance(r, DictRec) and all(g is T.TRUE for _, g, _ in r.items): return {plain(eng, k, st): plain(eng, x, st) for k, _, x in r.items}
    raise Unsupported(f"value {v!r} is not constant")

def column(eng, v):
    """what the database sees of a field"""
    if not isinstance(v, ExtVal): raise Unsupported(f"field {v!r}")
    if v.recv is not None: raise Unsupported(f"field {v.path}")
    kind = v.path.split(".")[-1]
    if not kind.endswith("Field") and kind not in ("ForeignKey",): raise Unsupported(f"field class {v.path}")
    kw = {}
    for k, x in v.kw.items():
        if k in SEEN: kw[k] = plain(eng, x)
    if kind in ("ForeignKey", "OneToOneField", "ManyToManyField"):
        for k, x in zip(("to", "on_delete"), v.args): kw[k] = plain(eng, x)
        if isinstance(kw.get("to"), str): kw["to"] = kw["to"].strip("<>").split(" ")[-1].split(".")[-1].lower()
    elif len(v.args) > 1: raise Unsupported("positional field arguments")
    if "on_delete" in kw: kw["on_delete"] = str(kw["on_delete"]).strip("<>").split(".")[-1]
    if kind in ("FloatField", "IntegerField", "DecimalField") and isinstance(kw.get("default"), (int, float)) and not isinstance(kw.get("default"), bool):
        kw["default"] = float(kw["default"])
    if kind.endswith("AutoField"): kw.pop("unique", None)
    for k, d in DEFAULTS.items():
        if k in kw and type(kw[k]) is type(d) and kw[k] == d: del kw[k]
    if kw.get("primary_key"): kw.pop("unique", None)
    return (kind, tuple(sorted(kw.items(), key=repr)))

def show(c): return "none" if c is None else f"{c[0]}({', '.join(f'{k}={v!r}' for k, v in c[1])})"

def auto_field(eng):
    """type of the implicit primary key"""
    if os.path.exists(os.path.join(REPO, "slope", "apps.py")):
        ns = eng.base.heap[eng.load("slope.apps").env.id].vars
        for v in ns.values():
            if isinstance(v, ClassVal):
                x = cls_attr(eng, v, "default_auto_field")
                if x is not None: return plain(eng, x).split(".")[-1]
    try:
        x = eng.base.heap[eng.load("engineering.settings").env.id].vars.get("DEFAULT_AUTO_FIELD")
        return plain(eng, x).split(".")[-1] if x is not None else "AutoField"
    except Unsupported: raise

def cls_attr(eng, c, name):
    for k in eng.class_mro(c):
        v = eng.base.heap[k.env.id].vars
        if name in v: return v[name]
    return None

def is_model(eng, c): return any(isinstance(b, Ext) and b.path.split(".")[-1] == "Model" for k in eng.class_mro(c) for b in k.bases)

def meta(eng, c):
    out = {}
    m = eng.base.heap[c.env.id].vars.get("Meta")
    if isinstance(m, ClassVal):
        for k in reversed(eng.class_mro(m)):
            for n, v in eng.base.heap[k.env.id].vars.items():
                if not n.startswith("__"):
                    try: out[n] = plain(eng, v)
                    except Unsupported: out[n] = "?"
    return out

def declared(eng):
    mod = eng.load("slope.models")
    out = {}
    pk = auto_field(eng)
    for v in eng.base.heap[mod.env.id].vars.values():
        if not isinstance(v, ClassVal) or not is_model(eng, v): continue
        mt = meta(eng, v)
        if mt.get("abstract") or mt.get("managed") is False or mt.get("proxy"): continue
        cols = {}
        mro = eng.class_mro(v)
        for k in mro:
            if k is not v and is_model(eng, k) and not meta(eng, k).get("abstract"): raise Unsupported("multi-table inheritance")
        for k in reversed(mro):
            for n, x in eng.base.heap[k.env.id].vars.items():
                if isinstance(x, ExtVal) and x.recv is None and (x.path.split(".")[-1].endswith("Field") or x.path.endswith("ForeignKey")): cols[n] = column(eng, x)
                elif n in cols and n != "Meta": del cols[n]
        if not any(("primary_key", True) in c[1] for c in cols.values()): cols["id"] = (pk, (("primary_key", True),))
        out[v.name.lower()] = {"cols": cols, "table": mt.get("db_table") or f"slope_{v.name.lower()}",
                               "unique": norm_ut(mt.get("unique_together")), "node": v.node, "name": v.name,
                               "extra": {k: repr(mt.get(k)) for k in ("indexes", "constraints") if mt.get(k)}}
    return out

def norm_ut(x):
    if not x: return frozenset()
    if isinstance(x, (list, tuple)) and x and isinstance(x[0], str): x = [x]
    return frozenset(tuple(y) for y in x)

class Broken(Exception): pass

def seq(eng, v):
    """members of a literal list or tuple"""
    out = []
    for g, x in eng.iter_items(eng.base, v, None, consume=False):
        if g is not T.TRUE: raise Unsupported("conditional member")
        out.append(x)
    return out

def apply(eng, db, op, where):
    if not isinstance(op, ExtVal): raise Unsupported(f"operation {op!r}")
    name = op.path.split(".")[-1]
    sig = {"CreateModel": ("name", "fields", "options", "bases", "managers"), "DeleteModel": ("name",), "RenameModel": ("old_name", "new_name"),
           "AddField": ("model_name", "name", "field", "preserve_default"), "AlterField": ("model_name", "name", "field", "preserve_default"),
           "RemoveField": ("model_name", "name"), "RenameField": ("model_name", "old_name", "new_name"),
           "AlterModelTable": ("name", "table"), "AlterUniqueTogether": ("name", "unique_together"), "AlterModelOptions": ("name", "options"),
           "AlterModelManagers": ("name", "managers"), "RunPython": None, "SeparateDatabaseAndState": ("database_operations", "state_operations")}
    if name not in sig: raise Unsupported(f"operation {name}")
    if name == "RunPython": return
    a = dict(zip(sig[name], op.args)); a.update(op.kw)
    def g(k): return plain(eng, a[k])
    def model(k="model_name"):
        m = g(k).lower()
        if m not in db: raise Broken(f"{name} on model {m}, which does not exist at that point")
        return db[m]
    def field(m, k="name"):
        n = g(k)
        if n not in m["cols"]: raise Broken(f"{name} on field {g('model_name')}.{n}, which does not exist at that point")
        return n
    if name == "CreateModel":
        n = g("name")
        if n.lower() in db: raise Broken(f"CreateModel of {n}, which exists already")
        opts = plain(eng, a["options"]) if "options" in a else {}
        opts = opts or {}
        cols = {}
        for t in seq(eng, a["fields"]):
            k, f = seq(eng, t)
            k = plain(eng, k)
            if k in cols: raise Broken(f"CreateModel of {n} has two fields {k}")
            cols[k] = column(eng, f)
        db[n.lower()] = {"cols": cols, "table": opts.get("db_table") or f"slope_{n.lower()}", "unique": norm_ut(opts.get("unique_together")), "name": n,
                         "explicit": bool(opts.get("db_table")), "extra": {k: repr(opts.get(k)) for k in ("indexes", "constraints") if opts.get(k)}}
        if opts.get("abstract") or opts.get("proxy") or opts.get("managed") is False: raise Unsupported("unmanaged model")
    elif name == "DeleteModel":
        model("name"); del db[g("name").lower()]
    elif name == "RenameModel":
        m = model("old_name"); n = g("new_name")
        if n.lower() in db and n.lower() != g("old_name").lower(): raise Broken(f"RenameModel to {n}, which exists already")
        del db[g("old_name").lower()]; m["name"] = n
        if not m["explicit"]: m["table"] = f"slope_{n.lower()}"
        db[n.lower()] = m
    elif name == "AddField":
        m = model(); n = g("name")
        if n in m["cols"]: raise Broken(f"AddField of {g('model_name')}.{n}, which exists already")
        m["cols"][n] = column(eng, a["field"])
        if "preserve_default" in a and g("preserve_default") is False: m["cols"][n] = (m["cols"][n][0], tuple(x for x in m["cols"][n][1] if x[0] != "default"))
    elif name == "AlterField":
        m = model(); n = field(m); m["cols"][n] = column(eng, a["field"])
        if "preserve_default" in a and g("preserve_default") is False: m["cols"][n] = (m["cols"][n][0], tuple(x for x in m["cols"][n][1] if x[0] != "default"))
    elif name == "RemoveField":
        m = model(); del m["cols"][field(m)]
    elif name == "RenameField":
        m = model(); o = field(m, "old_name")
        m["cols"][g("new_name")] = m["cols"].pop(o)
    elif name == "AlterModelTable":
        m = model("name"); t = g("table"); m["table"] = t or f"slope_{m['name'].lower()}"; m["explicit"] = bool(t)
    elif name == "AlterUniqueTogether":
        model("name")["unique"] = norm_ut(sorted(tuple(x) for x in (g("unique_together") or ())))
    elif name == "SeparateDatabaseAndState":
        for o in (seq(eng, a["database_operations"]) if "database_operations" in a else ()): apply(eng, db, o, where)

def run(chk):
    chk.rule("chain", "the migrations form one chain: one first migration, and each other one follows exactly one that exists")
    chk.rule("operation", "each operation applies to a table / column that exists (or does not exist yet) at that point of the chain")
    chk.rule("schema", "after the last migration every table and column is the one its model declares, and there is no other")
    d = os.path.join(REPO, "slope", "migrations")
    names = sorted(f[:-3] for f in os.listdir(d) if f.endswith(".py") and f[0] not in "_~") if os.path.isdir(d) else []
    eng = Engine(REPO)
    eng.hooks["ext_call"] = quiet_config
    migs = {}
    @attempt(chk, "chain", "evaluate the migrations")
    def _():
        chk.use(eng)
        for n in names:
            mod = eng.load(f"slope.migrations.{n}")
            c = eng.base.heap[mod.env.id].vars.get("Migration")
            where = f"slope/migrations/{n}.py"
            if not isinstance(c, ClassVal):
                chk.violate("chain", n, where, f"{n} defines no Migration class, so Django refuses to load the migrations"); continue
            deps = cls_attr(eng, c, "dependencies"); ops = cls_attr(eng, c, "operations")
            if cls_attr(eng, c, "replaces") is not None: raise Unsupported("squashed migration")
            if cls_attr(eng, c, "run_before") is not None: raise Unsupported("run_before")
            dl = []
            for x in (seq(eng, deps) if deps is not None else ()):
                if not isinstance(x, VTuple): raise Unsupported("dependency")
                app, m = plain(eng, x)
                if app == "slope": dl.append(m)
            migs[n] = (dl, seq(eng, ops) if ops is not None else [], where)
            chk.count("migrations")
        chk.use(eng)
    order = []
    @attempt(chk, "chain", "order of the migrations")
    def _():
        if not migs: raise Unsupported("no migrations found")
        roots = [n for n in names if not migs[n][0]]
        child = {}
        bad = False
        for n in names:
            dl = [("0001_initial" if x == "__first__" else x) for x in migs[n][0]]
            for x in dl:
                if x not in migs:
                    bad = True; chk.violate("chain", f"{n} -> {x}", migs[n][2], f"{n} depends on {x}, which does not exist")
                else: child.setdefault(x, []).append(n)
            if len([x for x in dl if x in migs]) > 1: pass
        if len(roots) != 1:
            bad = True; chk.violate("chain", "first migration", "slope/migrations", f"migrations without a predecessor: {roots or 'none'} (exactly one is needed)")
        leaves = [n for n in names if n not in child]
        if not bad and len(leaves) != 1:
            bad = True; chk.violate("chain", "last migration", "slope/migrations", f"conflicting last migrations {leaves}: migrate refuses to run")
        if bad: return
        done = []
        todo = list(names)
        while todo:
            r = [n for n in todo if all(x in done for x in migs[n][0])]
            if not r: chk.violate("chain", "cycle", "slope/migrations", f"the migrations {todo} depend on each other in a circle"); return
            done.append(r[0]); todo.remove(r[0])
        order.extend(done)
        if all(len(v) == 1 for v in child.values()): chk.ok("chain", "one gap-free chain of %d migrations" % len(done), "every dependency resolved")
        else: chk.agreed("chain", "one first and one last migration", "branches are merged")
    db = {}
    ok = []
    @attempt(chk, "operation", "replay of the operations")
    def _():
        if not order: raise Unsupported("no order")
        for n in order:
            for i, op in enumerate(migs[n][1]):
                nm = f"{n} operation {i + 1} {getattr(op, 'path', '?').split('.')[-1]}"
                try: apply(eng, db, op, migs[n][2]); chk.ok("operation", nm, "replayed")
                except Broken as e:
                    chk.violate("operation", nm, migs[n][2], f"{n}: {e}"); return
        ok.append(1)
    @attempt(chk, "schema", "models against migrations")
    def _():
        if not ok: raise Unsupported("the operations could not be replayed")
        dec = declared(eng)
        chk.use(eng)
        for m in sorted(set(dec) | set(db)):
            w = f"slope/models.py:{dec[m]['node'].lineno}" if m in dec else "slope/models.py"
            if m not in db: chk.violate("schema", m, w, f"model {dec[m]['name']} has no table after the last migration"); continue
            if m not in dec: chk.violate("schema", m, w, f"the migrations leave a table for {db[m]['name']}, which is not a model"); continue
            chk.count("tables")
            if dec[m]["table"] != db[m]["table"]: chk.violate("schema", f"{m} table name", w, f"table {db[m]['table']} is created but the model uses {dec[m]['table']}")
            for k in ("unique", "extra"):
                if dec[m][k] != db[m][k]:
                    if k == "unique": chk.violate("schema", f"{m} {k}", w, f"{dec[m]['name']}: unique_together {sorted(dec[m][k])} declared, {sorted(db[m][k])} in the database")
                    else: chk.undecided("schema", f"{m} {k}", "indexes or constraints")
            for c in sorted(set(dec[m]["cols"]) | set(db[m]["cols"])):
                a, b = dec[m]["cols"].get(c), db[m]["cols"].get(c)
                nm = f"{dec[m]['name']}.{c}"
                chk.count("columns")
                if a == b: chk.ok("schema", nm, show(a))
                else: chk.violate("schema", nm, w, f"{nm} is declared as {show(a)} but the migrations produce {show(b)}")

def quiet_config(eng, st, path, args, kw, recv, node):
    if path == "dj_database_url.config":
        return eng.new(st, DictRec(()))
    return NotImplemented
