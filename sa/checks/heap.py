"""Whole-heap comparison of two states: which records existing before a call are different after it."""
from .common import *
from ..world import _p

def snapshot_ids(st): return list(st.heap)

def names_of(w):
    """readable names of module, class and object records"""
    out = {}
    for nm, m in w.eng.mods.items():
        if m is not None: out[m.env.id] = f"module {nm}"
    for rid, r in w.st.heap.items():
        if isinstance(r, EnvRec):
            for k, v in r.vars.items():
                if isinstance(v, ClassVal) and v.env.id not in out: out[v.env.id] = f"class {v.name}"
    for rid, r in w.st.heap.items():
        if isinstance(r, ObjRec): out.setdefault(rid, r.cls.name)
    for rid, r in list(w.st.heap.items()):
        if isinstance(r, EnvRec) and rid in out:
            for k, v in r.vars.items():
                if isinstance(v, Ref): out.setdefault(v.id, f"{out[rid]}, {k}")
                if isinstance(v, Func):
                    for d, x in enumerate([x for x in list(v.defaults or ()) + list(v.kwdefaults or ()) if x is not None]):
                        if isinstance(x, Ref): out.setdefault(x.id, f"default {d} of {v.name}")
        elif isinstance(r, ObjRec):
            for k, v in r.fields.items():
                if isinstance(v, Ref): out.setdefault(v.id, f"{r.cls.name}.{k}")
    return out

def same_val(a, b):
    if a is b: return True
    if isinstance(a, Ref) and isinstance(b, Ref): return a.id == b.id
    if isinstance(a, VTuple) and isinstance(b, VTuple): return len(a.items) == len(b.items) and all(same_val(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, VIte) and isinstance(b, VIte): return a.c is b.c and same_val(a.a, b.a) and same_val(a.b, b.b)
    if isinstance(a, BoundMethod) and isinstance(b, BoundMethod): return a.func is b.func and same_val(a.recv, b.recv)
    if isinstance(a, Ext) and isinstance(b, Ext): return a == b
    if isinstance(a, Builtin) and isinstance(b, Builtin): return a == b
    return False

def changes(st1, st2, ids):
    """(id, part, before, after) for every record part that is not identical"""
    out = []
    for i in ids:
        a, b = st1.heap.get(i), st2.heap.get(i)
        if a is b or a is None: continue
        if b is None: continue                   # local environment of a call that ended
        if type(a) is not type(b): out.append((i, None, a, b)); continue
        if isinstance(a, ObjRec):
            for k in list(a.fields) + [k for k in b.fields if k not in a.fields]:
                x, y = a.fields.get(k, UNBOUND), b.fields.get(k, UNBOUND)
                if not same_val(x, y): out.append((i, k, x, y))
        elif isinstance(a, EnvRec):
            for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
                if isinstance(k, tuple): continue      # memo tables of pure functions
                x, y = a.vars.get(k, UNBOUND), b.vars.get(k, UNBOUND)
                if not same_val(x, y): out.append((i, k, x, y))
        elif isinstance(a, ListRec):
            if len(a.items) != len(b.items) or any(x[0] is not y[0] or not same_val(x[1], y[1]) for x, y in zip(a.items, b.items)): out.append((i, None, a, b))
        elif isinstance(a, DictRec):
            if len(a.items) != len(b.items) or any(x[1] is not y[1] or not same_val(x[0], y[0]) or not same_val(x[2], y[2]) for x, y in zip(a.items, b.items)): out.append((i, None, a, b))
        elif isinstance(a, ArrRec):
            if a.items != b.items or a.elem is not b.elem: out.append((i, None, a, b))
        else: out.append((i, None, a, b))
    return out

def pics(st1, st2, i, part, x, y, e):
    """pictures of a changed part before and after, at an assignment"""
    if part is None: return concrete(st1, Ref(i), e), concrete(st2, Ref(i), e)
    return (("unset",) if x is UNBOUND else concrete(st1, x, e)), (("unset",) if y is UNBOUND else concrete(st2, y, e))

def unchanged(chk, rule, construct, w0, states, where, allow=lambda nm, part: False, ids=None, seed=1, n=30, known=None, what="changed", ignore_ids=(), samples=None, split=True, keyf=None, dom=None):
    """every record that existed in w0 is the same in each of the states (state, label)"""
    names = names_of(w0)
    ids = [i for i in (ids if ids is not None else snapshot_ids(w0.st)) if i not in ignore_ids]
    bad = {}; nd = 0; und = []
    for st, label in states:
        ch = [c for c in changes(w0.st, st, ids) if not allow(names.get(c[0], type(w0.st.heap[c[0]]).__name__), c[1])]
        if not ch: continue
        smp = Samples(set(w0.eng.allsyms), [c for c, soft in st.pc if not soft] if label else [c for c, s in st.pc], seed, n, dom, None if not label else 60, construct + label) if samples is None else samples
        if not smp.evs: und.append(label or "normal end"); continue
        for i, part, x, y in ch:
            nm = names.get(i, "a container" if not isinstance(w0.st.heap[i], ObjRec) else w0.st.heap[i].cls.name)
            for e in smp.evs:
                if any(e.truth(c) is not True for c, soft in st.pc if not soft): continue
                a, b = pics(w0.st, st, i, part, x, y, e)
                nd += 1
                if a[0] == "?" or b[0] == "?": continue
                d = ("", a, b) if "unset" in (a[0], b[0]) and a != b else pic_diff(a, b)
                if d:
                    key = f"{nm}{'.' + str(part) if part else ''}"
                    if keyf: key = keyf(nm, part)
                    bad.setdefault(key if split else "", (f"{nm}{chr(46) + str(part) if part else str()}" + d[0], d, e, label)); break
    for key, (path, d, e, label) in bad.items():
        chk.violate(rule, f"{construct}: {key}" if key else construct, where, f"{path} {what}{label}: {_p(d[1])} before, {_p(d[2])} after", e.env)
    if bad: return False
    if und: chk.undecided(rule, construct, f"no admissible assignment at {und[0]}")
    elif nd: chk.agreed(rule, construct, f"{len(ids)} records; equal at {nd} comparisons")
    else: chk.ok(rule, construct, f"{len(ids)} records have identical value numbers")
    return True

# what a model and its results consist of
STATE = {"Slope": set("_materials _water_RL _water_depth _water_auto _water_analysis_H _udls _udl_max _lls _individual_planes _min_failure_distance _external_boundary "
                      "_external_height _external_length _MIN_EXT_H _MIN_EXT_L _height _length _angle _gradient _gradient_angle _top_coord _bot_coord _slices _iterations _tolerance _max_iterations _limits".split()) | RESULTS,
         "Material": set("unit_weight friction_angle cohesion depth_to_bottom name color tan_friction_angle user_defined_color RL".split()),
         "Udl": set("magnitude offset length color dynamic_offset left right precision".split()),
         "LineLoad": set("magnitude offset color dynamic_offset coord precision".split())}
def is_state(nm, part):
    if nm.startswith(("module ", "class ", "default ")): return False
    c, _, f = nm.partition(".")
    if c in STATE: return (f or part) in STATE[c] if (f or part) else True
    return True
