"""Abstract values, heap records and states."""
from . import terms as T
from .terms import Node, TRUE, FALSE, and_, or_, not_, ite, UNDEF

class Unsupported(Exception):
    def __init__(s, msg, node=None):
        super().__init__(msg); s.msg = msg; s.node = node

class VTuple:
    __slots__ = ("items",)
    def __init__(s, items): s.items = tuple(items)
    def __repr__(s): return "(" + ", ".join(map(repr, s.items)) + ("," if len(s.items) == 1 else "") + ")"
class Ref:
    __slots__ = ("id",)
    def __init__(s, id): s.id = id
    def __repr__(s): return f"<ref {s.id}>"
    def __eq__(s, o): return isinstance(o, Ref) and s.id == o.id
    def __hash__(s): return hash(("ref", s.id))
class Func:
    __slots__ = ("node", "env", "mod", "cls", "name", "defaults", "kwdefaults", "deco", "uid")
    def __repr__(s): return f"<func {s.name}>"
class BoundMethod:
    __slots__ = ("func", "recv")
    def __init__(s, func, recv): s.func = func; s.recv = recv
class ClassVal:
    __slots__ = ("name", "node", "mod", "bases", "env", "dataclass", "fields", "uid")
    def __repr__(s): return f"<class {s.name}>"
class ModuleVal:
    __slots__ = ("name", "env", "path")
    def __repr__(s): return f"<module {s.name}>"
class Ext:
    """a named external function / class / module"""
    __slots__ = ("path",)
    def __init__(s, path): s.path = path
    def __repr__(s): return f"<ext {s.path}>"
    def __eq__(s, o): return isinstance(o, Ext) and s.path == o.path
    def __hash__(s): return hash(("ext", s.path))
class ExtVal:
    """result of an external call; opaque but remembers how it was made"""
    __slots__ = ("path", "args", "kw", "recv", "uid")
    def __init__(s, path, args=(), kw=None, recv=None, uid=None):
        s.path = path; s.args = tuple(args); s.kw = dict(kw or {}); s.recv = recv; s.uid = uid
    def __repr__(s): return f"<{s.path}#{s.uid}>"
class Builtin:
    __slots__ = ("name",)
    def __init__(s, name): s.name = name
    def __repr__(s): return f"<builtin {s.name}>"
    def __eq__(s, o): return isinstance(o, Builtin) and s.name == o.name
    def __hash__(s): return hash(("bi", s.name))
class Method:
    """built-in method bound to a container/string/array value"""
    __slots__ = ("name", "recv")
    def __init__(s, name, recv): s.name = name; s.recv = recv
class VIte:
    __slots__ = ("c", "a", "b")
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
    def __repr__(s): return f"({s.a!r} if {s.c!r} else {s.b!r})"
class RangeVal:
    __slots__ = ("start", "stop", "step")
    def __init__(s, a, b, c): s.start = a; s.stop = b; s.step = c
class SliceVal:
    __slots__ = ("a", "b", "c")
    def __init__(s, a, b, c): s.a = a; s.b = b; s.c = c
class Super:
    __slots__ = ("cls", "recv")
    def __init__(s, cls, recv): s.cls = cls; s.recv = recv
class Masked:
    """arr[mask] read: selected elements of an array"""
    __slots__ = ("elem", "mask", "n")
    def __init__(s, elem, mask, n): s.elem = elem; s.mask = mask; s.n = n
class Partial:
    __slots__ = ("f", "args", "kw")
    def __init__(s, f, args, kw): s.f = f; s.args = args; s.kw = kw
class UnboundT:
    def __repr__(s): return "<unbound>"
UNBOUND = UnboundT()

# ---- heap records (treated as immutable; replaced on write)
class ObjRec:
    __slots__ = ("cls", "fields", "locs")
    def __init__(s, cls, fields, locs): s.cls = cls; s.fields = fields; s.locs = locs
class ListRec:
    """items: ((guard, value), ...); kind: list | set | iter | deque"""
    __slots__ = ("items", "kind", "loc")
    def __init__(s, items, kind="list", loc=None): s.items = tuple(items); s.kind = kind; s.loc = loc
class DictRec:
    """items: ((key, guard, value), ...)"""
    __slots__ = ("items", "kind", "loc")
    def __init__(s, items, kind="dict", loc=None): s.items = tuple(items); s.kind = kind; s.loc = loc
class ArrRec:
    """exact: items tuple of Nodes; generic: n (Node) and elem (Node over IDX)"""
    __slots__ = ("items", "n", "elem", "dtype")
    def __init__(s, items=None, n=None, elem=None, dtype="float"):
        s.items = None if items is None else tuple(items); s.n = n; s.elem = elem; s.dtype = dtype
class EnvRec:
    __slots__ = ("vars", "parent")
    def __init__(s, vars, parent): s.vars = vars; s.parent = parent

class State:
    __slots__ = ("heap", "pc", "facts", "events", "dead", "nid")
    def __init__(s):
        s.heap = {}; s.pc = (); s.facts = frozenset(); s.events = (); s.dead = False
    def clone(s):
        n = State.__new__(State)
        n.heap = dict(s.heap); n.pc = s.pc; n.facts = s.facts; n.events = s.events; n.dead = s.dead
        return n
    def become(s, o):
        s.heap = o.heap; s.pc = o.pc; s.facts = o.facts; s.events = o.events; s.dead = o.dead
    def assume(s, c, soft=False):
        if c is TRUE: return
        s.pc = s.pc + ((c, soft),)
        new = set()
        st = [c]
        while st:
            x = st.pop()
            new.add(x.id)
            if x.op == "and": st.extend(x.args)
        s.facts = s.facts | new
    def hard(s): return [c for c, soft in s.pc if not soft]
    def cond(s): return and_(*[c for c, soft in s.pc])

class Exc:
    __slots__ = ("cls", "args", "node", "fn", "implicit", "mod", "val")
    def __init__(s, cls, args=(), node=None, fn=None, implicit=False, mod=None, val=None):
        s.cls = cls; s.args = args; s.node = node; s.fn = fn; s.implicit = implicit; s.mod = mod; s.val = val
    def __repr__(s): return f"{s.cls}@{s.where()}"
    def where(s): return f"{s.mod}:{getattr(s.node, 'lineno', '?')} in {s.fn}"

class Event:
    __slots__ = ("pc", "kind", "path", "args", "kw", "recv", "res", "mod", "line", "fn")
    def __init__(s, pc, kind, path, args, kw, recv, res, mod, line, fn):
        s.pc = pc; s.kind = kind; s.path = path; s.args = args; s.kw = kw; s.recv = recv; s.res = res
        s.mod = mod; s.line = line; s.fn = fn
    def cond(s): return and_(*[c for c, soft in s.pc])
    def __repr__(s): return f"<{s.kind} {s.path} {s.mod}:{s.line}>"
