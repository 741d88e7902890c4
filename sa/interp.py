"""Abstract interpreter over the syntax tree of the analysed package.

The domain: values are constants of the program text, references to named
external objects, and terms that record where a datum came from.  Containers
built by the program are sequences of segments (one item, or "for each element
of X: ...").  A condition the domain cannot decide splits the state; a loop over
an unknown collection is summarised from one abstract pass over its body (two if
the body changes variables it reads).  Nothing is executed and no constraint is
handed to a solver.
"""

import ast
import builtins
import enum
import importlib
import sys
import typing

from .program import ClassInfo, FuncInfo, Program
from .values import (
    FALSE, NONE, TRUE, UNSUPPORTED, Addr, Alt, BoundV, ClsV, Const, Each, Entry,
    FuncV, H, HDict, HInst, HIter, HList, HObj, HSet, HUnk, Item, IterV, MethV, ModV, Op,
    PartialV, Prior, Raise, Ref, State, SuperV, T, TupV, V, const, unsupported,
)

NEXT = 'next'
BREAK = 'break'
CONTINUE = 'continue'
NEXT_REF = Ref('builtins.next')

BOOL_OPS = {
    'eq', 'is', 'in', 'isinstance', 'issubclass', 'hasattr', 'lt', 'le',
    'callable', 'startswith', 'endswith', 'not', 'subset', 'truthy', 'part',
    'nonempty', 'raises', 'isdigit', 'isidentifier',
}

STDLIB = set(sys.stdlib_module_names)
_missing = object()
_resolve_cache = {}


def resolve(name):
    """The real stdlib object a Ref denotes, or _missing (never third party)."""
    if name in _resolve_cache:
        return _resolve_cache[name]
    out = _missing
    parts = name.split('.')
    if parts[0] in STDLIB or parts[0] == 'builtins':
        obj = None
        for i in range(len(parts), 0, -1):
            mod = '.'.join(parts[:i])
            if mod in ('antigravity', 'this'):
                break
            try:
                obj = importlib.import_module(mod)
            except Exception:
                continue
            try:
                for p in parts[i:]:
                    obj = getattr(obj, p)
                out = obj
            except AttributeError:
                out = _missing
            break
    _resolve_cache[name] = out
    return out


def ref_of_type(t):
    name = f'{t.__module__}.{t.__qualname__}'
    r = resolve(name)
    if r is not t:
        if r is not _missing:
            name += '#'
        _resolve_cache[name] = t
    return Ref(name)


TYPE_REF = Ref('builtins.type')
OBJECT_REF = Ref('builtins.object')


def exc(name):
    return Ref('builtins.' + name)


def iattr(t, name):
    """Do instances of the real type ``t`` have this attribute?"""
    return any(name in c.__dict__ for c in t.__mro__)


class Site:
    __slots__ = ('file', 'func', 'line')

    def __init__(self, file, func, line):
        self.file, self.func, self.line = file, func, line

    def __repr__(self):
        return f'{self.file}:{self.line} in {self.func}'


class Star(V):
    __slots__ = ('v',)

    def __init__(self, v):
        super().__init__(v)
        self.v = v

    def __repr__(self):
        return f'*{self.v}'


def concat(*parts):
    out = []
    for p in parts:
        ps = p.args if isinstance(p, T) and p.op == 'concat' else (p,)
        for q in ps:
            if isinstance(q, Const) and isinstance(q.v, str):
                if q.v == '':
                    continue
                if out and isinstance(out[-1], Const):
                    out[-1] = Const(out[-1].v + q.v)
                    continue
            out.append(q)
    if not out:
        return Const('')
    if len(out) == 1:
        return out[0]
    return T('concat', *out)


def strip_codec(v):
    """Drop text/bytes conversions that are inverse on ASCII."""
    while isinstance(v, T) and v.op in ('decode', 'encode'):
        v = v.args[0]
    return v


class Limit(Exception):
    pass


class World:
    """What a scenario says about the terms it introduces."""

    def kind(self, term, st):
        return None

    def oracle(self, atom, st):
        return None

    def partition(self, src, st):
        """[(label, key value)] for the keys of a mapping."""
        return [('key', T('key', src))]

    def call(self, interp, f, args, kw, st):
        return None

    def method(self, interp, obj, name, args, kw, st):
        return None


class Interp:
    OPAQUE = {'jsonpickle.tags_pd'}
    MAX_STATES = 3000
    MAX_DEPTH = 70
    MAX_STEPS = 3000000

    def __init__(self, prog=None):
        self.prog = prog or Program()
        self.base_heap = {}
        self.mod_env = {}
        self.loading = set()
        self.counter = 0
        self.clo = {}
        self.withs = {}           # open generator-based context managers
        self.deques = set()       # addresses of the program's own deques
        self.world = World()
        self.atom_sites = {}
        self.site = Site('?', '?', 0)
        self.func_stack = []
        self.steps = 0
        self.visited = set()      # ids of (file, line) of executed statements
        self.knots = {}           # FuncInfo -> handler(interp, fv, args, kw, st)
        self.partial = set()      # modules of which only a part is modelled
        self.hooks = {}           # Ref name -> model override
        self.fninfo = {}
        self.calls_seen = set()
        self.ctx_addrs = {}       # address -> field name of the traversal context
        self.boxes = {}           # (module or class, name) -> address of its box
        self._mod_state = None
        from . import models
        self.models = models
        models.install(self)

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.mod_env:
            return
        m = self.prog.modules[name]
        self.mod_env[name] = {}
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
        if name in self.OPAQUE:
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.mod_env[name][n.id] = T('global', Const(name), Const(n.id))
            return
        st = State({}, {}, {}, ())
        st.env = {'__name__': Const(name), '__file__': Const(m.path)}
        saved = self.site
        self.site = Site(m.rel, '<module>', 0)
        pend = [st]
        self.mod_env[name] = st.env
        for stmt in m.tree.body:
            nxt = []
            for s in pend[:1]:
                outs = self.ex(stmt, s, name, None)
                ok = [o for o, c in outs if c is NEXT]
                if not ok:
                    # an import-time failure we cannot follow: keep going
                    ok = [s]
                nxt = ok[:1]
            pend = nxt
            s = pend[0]
            s.facts = {}
            s.events = ()
            self.base_heap.update(s.heap)
            s.heap = {}
            self.mod_env[name] = s.env
        self.site = saved

    def fi(self, module, node, qual, cls=None):
        k = id(node)
        f = self.fninfo.get(k)
        if f is None:
            f = self.fninfo[k] = FuncInfo(module, node, qual, cls)
        return f

    def glob(self, module, name):
        env = self.mod_env.get(module)
        if env is None:
            self.load(module)
            env = self.mod_env[module]
        return env.get(name)

    def entry(self, module, name):
        self.load(module)
        v = self.mod_env[module].get(name)
        if v is None:
            raise LookupError(f'anchor {module}.{name} not found')
        return v

    @staticmethod
    def ref_of_type(t):
        return ref_of_type(t)

    # ------------------------------------------------------------ heap
    def alloc(self, st, h):
        self.counter += 1
        a = Addr(self.counter)
        st.put(a, h)
        return a

    def h(self, st, a):
        x = st.heap.get(a)
        if x is None:
            x = self.base_heap.get(a)
        return x

    def hv(self, st, v):
        return self.h(st, v) if isinstance(v, Addr) else None

    # ------------------------------------------------------------ types
    def kind(self, v, st):
        if isinstance(v, T):
            if v.op in ('restored', 'copy'):
                return self.kind(v.args[0], st)
            k = self.world.kind(v, st)
            if k is not None:
                return k
        if isinstance(v, Addr):
            h = self.h(st, v)
            if isinstance(h, HObj):
                return self.instance_kind(h.cls, st)
        return None

    def unrestored(self, v):
        while isinstance(v, T) and v.op == 'restored':
            v = v.args[0]
        return v

    def instance_kind(self, cls, st):
        cls = self.unrestored(cls)
        if isinstance(cls, T) and cls.op == 'cls':
            return self.kind(cls.args[0], st)
        return None

    STR_TERMS = {'concat', 'jsontext', 'repr', 'str', 'decode', 'join', 'strm', 'rest'}
    INT_TERMS = {'len', 'id', 'refid', 'idx', 'int', 'intval'}

    def typeof(self, v, st):
        """(class value, tuple of real python types) or (None, None) if unknown."""
        if isinstance(v, Const):
            t = type(v.v)
            return ref_of_type(t), (t,)
        if isinstance(v, TupV):
            return Ref('builtins.tuple'), (tuple,)
        if isinstance(v, IterV):
            return Ref('builtins.generator_like'), (type(x for x in ()),)
        if isinstance(v, Addr):
            h = self.h(st, v)
            if isinstance(h, HList):
                return Ref('builtins.list'), (list,)
            if isinstance(h, HDict):
                if h.cls is not None:
                    if isinstance(h.cls, Ref):
                        r = resolve(h.cls.name)
                        return h.cls, (r if isinstance(r, type) else dict,)
                    return h.cls, (dict,)
                return Ref('builtins.dict'), (dict,)
            if isinstance(h, HSet):
                t = frozenset if h.frozen else set
                return ref_of_type(t), (t,)
            if isinstance(h, HInst):
                return h.cls, ()
            if isinstance(h, HIter):
                return Ref('builtins.generator_like'), (type(x for x in ()),)
            if isinstance(h, HObj):
                k = self.instance_kind(h.cls, st)
                cls = self.unrestored(h.cls)
                if k is not None:
                    return cls, k.py
                if isinstance(cls, Ref):
                    r = resolve(cls.name)
                    if isinstance(r, type):
                        return cls, (r,)
                return (cls, None)
            return None, None
        if isinstance(v, (FuncV,)):
            import types
            return Ref('types.FunctionType'), (types.FunctionType,)
        if isinstance(v, (BoundV, MethV)):
            import types
            if isinstance(v, MethV) and not self.user_method(v, st):
                return Ref('types.BuiltinMethodType'), (types.BuiltinMethodType,)
            return Ref('types.MethodType'), (types.MethodType,)
        if isinstance(v, ClsV):
            return TYPE_REF, (type,)
        if isinstance(v, ModV):
            import types
            return Ref('types.ModuleType'), (types.ModuleType,)
        if isinstance(v, Ref):
            r = resolve(v.name)
            if r is not _missing:
                t = type(r)
                return ref_of_type(t), (t,)
            if self.world_class(v, st):
                return TYPE_REF, (type,)
            return None, None
        if isinstance(v, T):
            k = self.kind(v, st)
            if k is not None:
                return k.cls_of(v), k.py
            if v.op in self.STR_TERMS:
                return Ref('builtins.str'), (str,)
            if v.op in self.INT_TERMS:
                return Ref('builtins.int'), (int,)
            if v.op in ('b64e', 'b85e', 'encode', 'b64d', 'b85d', 'bytes'):
                return Ref('builtins.bytes'), (bytes,)
            if v.op in BOOL_OPS:
                return Ref('builtins.bool'), (bool,)
            if v.op == 'cls':
                return TYPE_REF, (type,)
            if v.op == 'userfunc':
                import types
                return Ref('types.FunctionType'), (types.FunctionType,)
            if v.op == 'excval':
                return v.args[0], ()
            if v.op == 'new':
                r = resolve(v.args[0].name) if isinstance(v.args[0], Ref) else _missing
                if isinstance(r, type):
                    return v.args[0], (r,)
            if v.op == 'restored':
                return self.typeof(v.args[0], st)
        return None, None

    def user_method(self, m, st):
        k = self.kind(m.obj, st)
        return k is not None and m.name in getattr(k, 'methods', k.own)

    def world_class(self, ref, st):
        k = self.world.kind(ref, st)
        return k is not None and getattr(k, 'is_class', False)

    def isinstance_(self, v, c, st):
        """True/False/None."""
        if isinstance(c, TupV):
            res = False
            for s in c.segs:
                if not isinstance(s, Item):
                    return None
                r = self.isinstance_(v, s.v, st)
                if r is True:
                    return True
                if r is None:
                    res = None
            return res
        if isinstance(c, T) and c.op == 'union':
            return self.isinstance_(v, TupV([Item(x) for x in c.args]), st)
        if isinstance(v, T) and v.op == 'excval':
            return c == OBJECT_REF or self.exc_match(v.args[0], c, st)
        cls, py = self.typeof(v, st)
        if cls is None:
            # data handed in by a caller is not an instance of an internal class
            return False if isinstance(c, ClsV) and isinstance(v, T) else None
        return self.subclass_known(cls, py, c, st, v)

    def subclass_known(self, cls, py, c, st, v=None):
        if c == OBJECT_REF:
            return True
        if cls == c:
            return True
        if isinstance(c, ClsV):
            if isinstance(cls, ClsV):
                return c in self.mro(cls)
            return False
        if isinstance(c, Ref):
            r = resolve(c.name)
            if isinstance(cls, ClsV):
                for b in self.mro(cls):
                    if b == c:
                        return True
                    if isinstance(b, Ref) and isinstance(r, type):
                        rb = resolve(b.name)
                        if isinstance(rb, type) and issubclass(rb, r):
                            return True
                return False
            if r is _missing:
                # third-party class
                k = self.kind(v, st) if v is not None else None
                if k is not None and getattr(k, 'third', None) is not None:
                    return k.third(c)
                if isinstance(cls, Ref) and resolve(cls.name) is _missing:
                    return None
                return False
            if isinstance(r, tuple):
                return self.isinstance_(v, TupV([Item(ref_of_type(x)) for x in r]), st)
            if py is None:
                return None
            k = self.kind(v, st) if v is not None else None
            if k is not None:
                x = k.abc(r)
                if x is not None:
                    return x
            try:
                return any(issubclass(t, r) for t in py)
            except TypeError:
                return None
        if isinstance(c, T):
            cu, vu = self.unrestored(c), self.unrestored(cls)
            if cu == vu:
                return True
            if isinstance(cu, T) and cu.op == 'cls' and hasattr(self.kind(cu.args[0], st), 'parents'):
                if isinstance(vu, (Ref, ClsV)):
                    return False
                if isinstance(vu, T) and vu.op == 'cls' and hasattr(self.kind(vu.args[0], st), 'parents'):
                    seen, todo = set(), [vu.args[0]]
                    while todo:
                        x = todo.pop()
                        if x == cu.args[0]:
                            return True
                        k = self.kind(x, st)
                        if x not in seen and k is not None:
                            seen.add(x)
                            todo += getattr(k, 'parents', ())
                    return False
            return None
        return None

    def issubclass_(self, a, c, st):
        if isinstance(c, TupV):
            res = False
            for s in c.segs:
                if not isinstance(s, Item):
                    return None
                r = self.issubclass_(a, s.v, st)
                if r:
                    return True
                if r is None:
                    res = None
            return res
        a = self.unrestored(a)
        if a == c or c == OBJECT_REF:
            return True
        if isinstance(a, Ref):
            r = resolve(a.name)
            if isinstance(r, type):
                return self.subclass_known(a, (r,), c, st)
            return None
        if isinstance(a, ClsV):
            return self.subclass_known(a, (), c, st)
        if isinstance(a, T) and a.op == 'cls':
            k = self.kind(a.args[0], st)
            if k is not None:
                return self.subclass_known(a, k.py, c, st, a.args[0])
        return None

    # ------------------------------------------------------------ classes
    def mro(self, cls):
        out = []

        def rec(c):
            if c in out:
                out.remove(c)
            out.append(c)
            if isinstance(c, ClsV):
                for b in c.info.bases or ():
                    rec(b)
        rec(cls)
        if OBJECT_REF in out:
            out.remove(OBJECT_REF)
        out.append(OBJECT_REF)
        return out

    def class_lookup(self, cls, name, after=None, st=None):
        m = self.mro(cls)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            if isinstance(c, ClsV):
                if st is not None and self.boxes:
                    v = self.static(st, c, name)
                    if v is not None:
                        return v, c
                if name in c.info.attrs:
                    return c.info.attrs[name], c
        return None, None

    # ------------------------------------------------------------ equality
    def is_(self, a, b, st):
        if a == b:
            if isinstance(a, Const) and not isinstance(a.v, (bool, type(None), int, str)):
                return None
            if isinstance(a, TupV) and a.segs:
                return None
            return True
        return self._distinct(a, b, st, ident=True)

    def eq_(self, a, b, st):
        if a == b:
            return True
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return bool(a.v == b.v)
            except Exception:
                return None
        if isinstance(a, TupV) and isinstance(b, TupV):
            if all(isinstance(s, Item) for s in a.segs + b.segs):
                if len(a.segs) != len(b.segs):
                    return False
                res = True
                for x, y in zip(a.segs, b.segs):
                    r = self.eq_(x.v, y.v, st)
                    if r is False:
                        return False
                    if r is None:
                        res = None
                return res
            return None
        for x, y in ((a, b), (b, a)):
            row = self.row(self.hv(st, x)) if isinstance(x, Addr) else None
            if row is not None:
                return self.eq_(TupV(row), y, st)
        if isinstance(a, Addr) and isinstance(b, Addr):
            return self._same_content(self.h(st, a), self.h(st, b), a, b, st)
        return self._distinct(a, b, st, ident=False)

    def _same_content(self, x, y, a, b, st):
        if isinstance(x, HList) and isinstance(y, HList):
            return self.eq_(TupV(x.segs), TupV(y.segs), st)
        if isinstance(x, HSet) and isinstance(y, HSet):
            r = self.models.subset(self, st, x.segs, y.segs)
            return r if not r else self.models.subset(self, st, y.segs, x.segs)
        if isinstance(x, HDict) and isinstance(y, HDict) and all(isinstance(s, Entry) for s in x.segs + y.segs):
            if not all(isinstance(s.k, (Const, Ref)) for s in x.segs + y.segs):
                return None
            if len(x.segs) != len(y.segs):
                return False
            res = True
            for s in x.segs:
                m = [t for t in y.segs if self.eq_(s.k, t.k, st)]
                r = self.eq_(s.v, m[0].v, st) if m else False
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        return self._distinct(a, b, st, ident=False)

    def _distinct(self, a, b, st, ident):
        """False if a and b are certainly different, None if unknown."""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(y, Ref):
                rx, ry = resolve(x.name), resolve(y.name)
                if rx is not _missing and ry is not _missing:
                    if rx is ry:
                        return True
                    if ident or isinstance(rx, type) or isinstance(ry, type):
                        return False
                    if isinstance(rx, enum.Enum) and isinstance(ry, enum.Enum):
                        return bool(rx == ry)
                    return None
                if (rx is _missing) != (ry is _missing):
                    return False
                return None
            if isinstance(x, Const):
                if isinstance(y, Const):
                    return False if ident else None
                if isinstance(y, Ref):
                    r = resolve(y.name)
                    if r is not _missing:
                        return x.v is r if ident else (False if callable(r) or isinstance(r, type) else None)
                    if x.v is None:
                        return False
                    return None
                if isinstance(y, (FuncV, BoundV, ClsV, ModV, MethV)):
                    return False
                if isinstance(y, TupV) or isinstance(y, IterV):
                    return False if not isinstance(x.v, tuple) else None
                if isinstance(y, Addr):
                    hh = self.h(st, y)
                    if isinstance(hh, (HList, HDict, HSet, HInst)):
                        return False
                    if isinstance(hh, HObj) and x.v is None:
                        return False
                    if isinstance(hh, HObj) and isinstance(x.v, str):
                        # no scenario class imitates strings
                        r = resolve(hh.cls.name) if isinstance(hh.cls, Ref) else None
                        if r is None or (isinstance(r, type) and not issubclass(r, str)):
                            return False
                    if isinstance(hh, HObj):
                        return None if not ident else False
                    return None
                if isinstance(y, T):
                    return self._term_vs_const(y, x, st, ident)
            if isinstance(x, (FuncV, BoundV, ClsV, ModV)):
                if isinstance(y, (FuncV, BoundV, ClsV, ModV)):
                    return False
                if isinstance(y, Addr):
                    return False
                if isinstance(y, Ref):
                    return False
                if isinstance(y, T):
                    k = self.kind(y, st)
                    if k is not None or y.op in ('cls', 'userfunc'):
                        return False
                    return None
            if isinstance(x, TupV):
                if isinstance(y, Addr) or (isinstance(y, Ref) and resolve(y.name) is not _missing):
                    return False
                if isinstance(y, T) and ident and self.kind(y, st) is not None:
                    return False
                if isinstance(y, TupV) and ident and all(isinstance(s, Item) for s in x.segs + y.segs):
                    if len(x.segs) != len(y.segs) or any(self.is_(i.v, j.v, st) is False for i, j in zip(x.segs, y.segs)):
                        return False
            if isinstance(x, Addr) and isinstance(y, Addr):
                if ident:
                    return False
                hx, hy = self.h(st, x), self.h(st, y)
                for hh in (hx, hy):
                    if isinstance(hh, HInst) and any(isinstance(c, ClsV) and c.info.fields is not None for c in self.mro(hh.cls)):
                        return None
                if isinstance(hx, HInst) or isinstance(hy, HInst):
                    return False
                if type(hx) is not type(hy):
                    return False
                return None
            if isinstance(x, T) and isinstance(y, Ref):
                if x.op in ('cls', 'userfunc'):
                    return False
                k = self.kind(x, st)
                if k is not None and not getattr(k, 'maybe_ref', False):
                    return False
                py = self.typeof(x, st)[1]
                if py and isinstance(resolve(y.name), type) and not any(issubclass(t, type) for t in py):
                    return False
                return None
            if isinstance(x, T) and isinstance(y, Addr):
                if isinstance(self.h(st, y), HInst):
                    k = self.kind(x, st)
                    if k is not None:
                        return False
                if ident and x.op not in ('restored', 'index', 'tabget', 'phi', 'lookup'):
                    return False
                return None
            if isinstance(x, T) and x.op == 'enum' and isinstance(y, T) and y.op == 'enum':
                return False
            if isinstance(x, T) and x.op == 'id' and isinstance(y, T) and y.op == 'id':
                r = self.is_(x.args[0], y.args[0], st)
                if r is not None:
                    return r
                return None
            if isinstance(x, T) and isinstance(y, T) and ident:
                kx, ky = self.kind(x, st), self.kind(y, st)
                if kx is not None and ky is not None and kx is not ky and not kx.overlaps(ky):
                    return False
        return None

    def _term_vs_const(self, t, c, st, ident):
        if t.op == 'flat' and c.v is None:
            r = self.eq_(t.args[0], c, st)
            return r
        if t.op == 'restored':
            return self._term_vs_const(t.args[0], c, st, ident) if isinstance(t.args[0], T) else self.eq_(t.args[0], c, st)
        k = self.kind(t, st)
        if k is not None:
            r = k.eq_const(t, c)
            if r is not None:
                return r
        cls, py = self.typeof(t, st)
        if isinstance(cls, T) and cls.op == 'typeof':
            return None
        if py:
            num = (int, float, bool, complex)
            if isinstance(c.v, num) and any(issubclass(p, num) for p in py):
                return None
            if c.v is None and type(None) not in py:
                return False
            if not any(issubclass(p, type(c.v)) for p in py):
                if all(p in (str, bytes, int, float, bool, type(None), list, dict, tuple, set, type) for p in py):
                    return False
                if ident:
                    return False
                if c.v is None or (isinstance(c.v, str) and all(p.__eq__ is not object.__eq__ for p in py)):
                    return False
        elif cls is not None and c.v is None:
            return False
        if t.op == 'concat' and isinstance(c.v, str):
            s = c.v
            first, last = t.args[0], t.args[-1]
            if isinstance(first, Const) and not s.startswith(first.v):
                return False
            if isinstance(last, Const) and not s.endswith(last.v):
                return False
            for p in t.args:
                if isinstance(p, Const) and p.v not in s:
                    return False
        if t.op == 'jsontext' and isinstance(c.v, str) and c.v == '':
            return False
        if t.op in ('attr',) and c.v is None:
            return None
        return None

    # ------------------------------------------------------------ truth
    def decide(self, v, st):
        """(True/False, None, None) or (None, atom, polarity)."""
        pol = True
        while isinstance(v, T) and v.op == 'not':
            v = v.args[0]
            pol = not pol
        r = None
        atom = None
        if isinstance(v, Const):
            r = bool(v.v)
        elif isinstance(v, (TupV, IterV)):
            if isinstance(v, IterV):
                r = True
            else:
                r, atom = self._seg_truth(v.segs, st)
        elif isinstance(v, Addr):
            h = self.h(st, v)
            if isinstance(h, (HList, HSet, HDict)):
                r, atom = self._seg_truth(h.segs, st)
                if r is None and atom is None:
                    atom = T('nonempty', v)
            elif isinstance(h, HInst):
                if self.class_lookup(h.cls, '__bool__')[0] is None and self.class_lookup(h.cls, '__len__')[0] is None:
                    r = True
                else:
                    atom = T('truthy', v)
            else:
                k = self.kind(v, st)
                r = k.truth(v) if k is not None else None
                if r is None:
                    atom = T('truthy', v)
        elif isinstance(v, T):
            if v.op in BOOL_OPS:
                atom = v
            else:
                u = v
                while u.op in ('restored', 'copy') and isinstance(u.args[0], T):
                    u = u.args[0]
                if u.op in ('restored', 'copy'):
                    r2, a2, p2 = self.decide(u.args[0], st)
                    if r2 is not None:
                        return (r2 == pol), None, None
                    return None, a2, (p2 == pol)
                k = self.kind(u, st)
                if k is not None:
                    r = k.truth(u)
                if r is None:
                    if u.op in ('cls', 'userfunc', 'jsontext'):
                        r = True
                    elif u.op == 'concat' and any(isinstance(p, Const) for p in u.args):
                        r = True
                if r is None:
                    atom = T('truthy', u)
        elif isinstance(v, Ref):
            x = resolve(v.name)
            r = True if x is _missing else bool(x) if isinstance(x, (int, str, bool, float, type(None))) else True
        else:
            r = True
        if r is not None:
            return (r == pol), None, None
        f = st.facts.get(atom)
        if f is None:
            f = self.world.oracle(atom, st)
        if f is not None:
            return (f == pol), None, None
        return None, atom, pol

    def _seg_truth(self, segs, st):
        unknown = []
        for s in segs:
            if isinstance(s, (Item, Entry)):
                return True, None
            if isinstance(s, Each):
                if any(a.elems for a in s.alts):
                    unknown.append(s.src)
            if isinstance(s, Prior):
                unknown.append(s)
        if not unknown:
            return False, None
        if len(unknown) == 1 and isinstance(unknown[0], V) and not isinstance(unknown[0], Prior):
            src = unknown[0]
            e = st.facts.get(T('nonempty', src))
            if e is not None:
                return e, None
            k = self.kind(src, st) if isinstance(src, T) else None
            if k is not None and k.truth(src) is not None:
                return k.truth(src), None
            return None, T('nonempty', src)
        return None, T('nonempty', TupV(segs))

    def branch(self, v, st):
        u, want = v, True
        while isinstance(u, T) and u.op == 'not':
            u, want = u.args[0], not want
        h = self.hv(st, u)
        if isinstance(h, HInst):
            for name in ('__bool__', '__len__'):
                g, _ = self.class_lookup(h.cls, name)
                if g is not None:
                    out = []
                    for s, x in self.call(BoundV(g, u), [], {}, st):
                        if isinstance(x, Raise):
                            s = s.clone()
                            s.event(Op('unmodelled', Const('truth test raises'), site=self.site))
                            out.append((s, want))
                        else:
                            out.extend((s2, b == want) for s2, b in self.branch(x, s))
                    return out
        r, atom, pol = self.decide(v, st)
        if r is not None:
            return [(st, r)]
        self.atom_sites.setdefault(atom, self.site)
        a = st.clone()
        a.assume(atom, True)
        b = st
        b = st.clone()
        b.assume(atom, False)
        return [(a, pol), (b, not pol)]

    # ------------------------------------------------------------ names
    def cell(self, name, st):
        """The box of a local that inner functions share, if it has one."""
        env = st.env
        while True:
            c = env.get('%cell:' + name)
            if c is not None:
                return c
            if name in env or '%clo' not in env:
                return None
            env = self.clo[env['%clo']]

    def lookup(self, name, st, module, fn):
        if name in st.env:
            return st.env[name]
        c = self.cell(name, st)
        if c is not None:
            v = self.h(st, c).get('v')
            return v if v is not None else Raise(exc('UnboundLocalError'), site=self.site)
        clo = st.env.get('%clo')
        while clo is not None:
            env = self.clo[clo]
            if name in env:
                return env[name]
            clo = env.get('%clo')
        if fn is not None and name in fn.locals:
            return Raise(exc('UnboundLocalError'), site=self.site)
        v = self.static(st, module, name)
        if v is not None:
            return v
        env = self.mod_env.get(module, {})
        if name in env:
            return env[name]
        if hasattr(builtins, name):
            return Ref('builtins.' + name)
        return Raise(exc('NameError'), Const(name), site=self.site)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, module, fn):
        states = [(st, NEXT)]
        done = []
        for s in stmts:
            nxt = []
            for x, _ in states:
                nxt.extend(self.ex(s, x, module, fn))
            states = []
            for x, c in nxt:
                if c is NEXT:
                    states.append((x, c))
                else:
                    done.append((x, c))
            states = self.merge(states)
            if len(states) + len(done) > self.MAX_STATES:
                raise Limit(f'too many partitions at {self.site}')
            if not states:
                break
        return self.merge(done) + states

    def merge(self, states):
        if len(states) < 2:
            return states
        groups = {}
        for s, c in states:
            key = (frozenset(s.env.items()), frozenset(s.heap.items()), s.events,
                   c if not isinstance(c, tuple) else c)
            try:
                g = groups.get(key)
            except TypeError:
                return states
            if g is None:
                groups[key] = [s, c]
            else:
                o = g[0]
                if o.facts != s.facts:
                    n = o.clone()
                    n.facts = {a: b for a, b in o.facts.items() if s.facts.get(a) == b}
                    g[0] = n
        return [(s, c) for s, c in groups.values()]

    def ex(self, node, st, module, fn):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Limit('step limit')
        m = self.prog.modules[module]
        self.site = Site(m.rel, fn.qual if fn else '<module>', node.lineno)
        self.visited.add((m.rel, fn.qual if fn else '<module>', node.lineno))
        return getattr(self, 'ex_' + type(node).__name__, self.ex_unknown)(node, st, module, fn)

    def ex_unknown(self, node, st, module, fn):
        return [(st, unsupported(type(node).__name__, self.site))]

    def ex_Pass(self, node, st, module, fn):
        return [(st, NEXT)]

    def ex_Global(self, node, st, module, fn):
        return [(st, NEXT)]

    ex_Nonlocal = ex_Global

    def ex_Expr(self, node, st, module, fn):
        if isinstance(node.value, ast.Constant):
            return [(st, NEXT)]
        return [(s, v if isinstance(v, Raise) else NEXT) for s, v in self.ev(node.value, st, module, fn)]

    def ex_Break(self, node, st, module, fn):
        return [(st, BREAK)]

    def ex_Continue(self, node, st, module, fn):
        return [(st, CONTINUE)]

    def ex_Return(self, node, st, module, fn):
        if node.value is None:
            return [(st, ('return', NONE))]
        return [(s, v if isinstance(v, Raise) else ('return', v)) for s, v in self.ev(node.value, st, module, fn)]

    def ex_If(self, node, st, module, fn):
        out = []
        for s, b in self.cond(node.test, st, module, fn):
            if isinstance(b, Raise):
                out.append((s, b))
            else:
                out.extend(self.block(node.body if b else node.orelse, s, module, fn))
        return out

    def ex_Assert(self, node, st, module, fn):
        out = []
        for s, b in self.cond(node.test, st, module, fn):
            if isinstance(b, Raise):
                out.append((s, b))
            elif b:
                out.append((s, NEXT))
            else:
                out.append((s, Raise(exc('AssertionError'), site=self.site)))
        return out

    def ex_Assign(self, node, st, module, fn):
        out = []
        for s, v in self.ev(node.value, st, module, fn):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            cur = [(s, NEXT)]
            for t in node.targets:
                nxt = []
                for x, c in cur:
                    if c is NEXT:
                        nxt.extend(self.assign(t, v, x, module, fn))
                    else:
                        nxt.append((x, c))
                cur = nxt
            out.extend(cur)
        return out

    def ex_AnnAssign(self, node, st, module, fn):
        if node.value is None:
            return [(st, NEXT)]
        out = []
        for s, v in self.ev(node.value, st, module, fn):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out.extend(self.assign(node.target, v, s, module, fn))
        return out

    def ex_AugAssign(self, node, st, module, fn):
        t = node.target
        load = ast.copy_location({
            ast.Name: lambda: ast.Name(t.id, ast.Load()),
            ast.Attribute: lambda: ast.Attribute(t.value, t.attr, ast.Load()),
            ast.Subscript: lambda: ast.Subscript(t.value, t.slice, ast.Load()),
        }[type(t)](), t)
        out = []
        for s, cur in self.ev(load, st, module, fn):
            if isinstance(cur, Raise):
                out.append((s, cur))
                continue
            for s2, v in self.ev(node.value, s, module, fn):
                if isinstance(v, Raise):
                    out.append((s2, v))
                    continue
                # in-place operations on containers
                h = self.hv(s2, cur)
                if isinstance(h, HList) and isinstance(node.op, ast.Add):
                    for s3, r in self.models.list_extend(self, s2, cur, v):
                        out.append((s3, r if isinstance(r, Raise) else NEXT))
                    continue
                if isinstance(h, (HSet, HDict)) and isinstance(node.op, ast.BitOr):
                    for s3, r in self.call(MethV(cur, 'update'), [v], {}, s2):
                        out.append((s3, r if isinstance(r, Raise) else NEXT))
                    continue
                if isinstance(cur, T):
                    py = self.typeof(cur, s2)[1]
                    if py and any(issubclass(p, (list, dict, set, bytearray)) for p in py):
                        s2 = s2.clone()
                        self.record_op(s2, cur, 'augmented assignment', v)
                        out.append((s2, NEXT))
                        continue
                for s3, r in self.binop(node.op, cur, v, s2):
                    if isinstance(r, Raise):
                        out.append((s3, r))
                    else:
                        out.extend(self.assign(t, r, s3, module, fn))
        return out

    def ex_Delete(self, node, st, module, fn):
        cur = [(st, NEXT)]
        for t in node.targets:
            nxt = []
            for s, c in cur:
                if c is not NEXT:
                    nxt.append((s, c))
                elif isinstance(t, ast.Name):
                    s = s.clone()
                    s.delvar(t.id)
                    nxt.append((s, NEXT))
                elif isinstance(t, ast.Subscript):
                    for s2, (o, i) in self.evs([t.value, t.slice], s, module, fn):
                        nxt.append((s2, NEXT)) if False else None
                        if isinstance(o, Raise):
                            nxt.append((s2, o))
                            continue
                        for s3, r in self.models.delitem(self, s2, o, i):
                            nxt.append((s3, r if isinstance(r, Raise) else NEXT))
                elif isinstance(t, ast.Attribute):
                    for s2, o in self.ev(t.value, s, module, fn):
                        if isinstance(o, Raise):
                            nxt.append((s2, o))
                            continue
                        h = self.hv(s2, o)
                        s2 = s2.clone()
                        if isinstance(h, HInst):
                            s2.put(o, h.delete(t.attr))
                        else:
                            self.record_op(s2, o, 'delattr', Const(t.attr))
                        nxt.append((s2, NEXT))
                else:
                    nxt.append((s, unsupported('del', self.site)))
            cur = nxt
        return cur

    def ex_Raise(self, node, st, module, fn):
        if node.exc is None:
            cur = st.env.get('%exc')
            if cur is None:
                return [(st, Raise(exc('RuntimeError'), site=self.site))]
            return [(st, Raise(cur.args[0], cur.args[1], self.site))]
        out = []
        for s, v in self.ev(node.exc, st, module, fn):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            if isinstance(v, T) and v.op in ('excval', 'new'):
                out.append((s, Raise(v.args[0], v.args[1] if len(v.args) > 1 else None, self.site)))
            elif isinstance(v, (Ref, ClsV)):
                out.append((s, Raise(v, None, self.site)))
            elif isinstance(v, Addr) and isinstance(self.h(s, v), HInst):
                out.append((s, Raise(self.h(s, v).cls, v, self.site)))
            else:
                out.append((s, Raise(T('exc', v, exc('BaseException')), v, self.site)))
        return out

    def ex_Import(self, node, st, module, fn):
        st = st.clone()
        for a in node.names:
            name = a.name if a.asname else a.name.split('.')[0]
            st.setvar(a.asname or name, self.import_mod(name, st))
        return [(st, NEXT)]

    def import_mod(self, name, st):
        if name in self.prog.modules:
            self.load(name)
            return ModV(name)
        return Ref(name)

    def ex_ImportFrom(self, node, st, module, fn):
        base = node.module or ''
        if node.level:
            m = self.prog.modules[module]
            pkg = module if m.path.endswith('__init__.py') else module.rsplit('.', 1)[0]
            for _ in range(node.level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            base = f'{pkg}.{base}' if base else pkg
        st = st.clone()
        for a in node.names:
            full = f'{base}.{a.name}'
            if full in self.prog.modules:
                self.load(full)
                v = ModV(full)
            elif base in self.prog.modules:
                self.load(base)
                v = self.mod_env[base].get(a.name)
                if v is None:
                    return [(st, Raise(exc('ImportError'), site=self.site))]
            else:
                v = self.fold_ref(Ref(full))
            st.setvar(a.asname or a.name, v)
        return [(st, NEXT)]

    def fold_ref(self, r):
        x = resolve(r.name)
        if x is not _missing:
            return self.lift(x, r)
        return r

    def lift(self, x, r=None):
        if x is None or isinstance(x, (str, int, float, bool, bytes)):
            if isinstance(x, type) or type(x) not in (str, int, float, bool, bytes, type(None)):
                return r
            return Const(x)
        if isinstance(x, tuple) and type(x) is tuple:
            items = [self.lift(y) for y in x]
            if all(i is not None for i in items):
                return TupV([Item(i) for i in items])
        if isinstance(x, list):
            items = [self.lift(y) for y in x]
            if all(i is not None for i in items):
                return IterV([Item(i) for i in items])
        if isinstance(x, type) and r is None:
            return ref_of_type(x)
        return r

    def ex_FunctionDef(self, node, st, module, fn):
        out = []
        for s, f in self.make_func(node, st, module, fn):
            if isinstance(f, Raise):
                out.append((s, f))
                continue
            s = s.clone()
            s.setvar(node.name, f)
            out.append((s, NEXT))
        return out

    ex_AsyncFunctionDef = ex_FunctionDef

    def make_func(self, node, st, module, fn, cls=None, qual=None):
        name = getattr(node, 'name', '<lambda>')
        q = qual or ((fn.qual + '.' if fn else '') + name)
        info = self.fi(module, node, q, cls)
        a = node.args
        dnodes = list(a.defaults) + [d for d in a.kw_defaults if d is not None]
        out = []
        for s, vals in self.evl(dnodes, st, module, fn):
            if isinstance(vals, Raise):
                out.append((s, vals))
                continue
            clo = None
            env = {}
            if fn is not None or cls is None and vals:
                pass
            self.counter += 1
            clo = self.counter
            cap = dict(s.env) if fn is not None else {}
            cap.pop('%exc', None)
            cap['%defaults'] = TupV([Item(v) for v in vals])
            # share one closure record when nothing is captured
            if fn is None:
                key = ('static', id(node))
                if key in self.clo:
                    pass
                self.clo[key] = cap
                clo = key
            else:
                clo = ('dyn', self.counter)
                # identical capture -> identical closure (keeps states mergeable)
                ck = ('cap', id(node), frozenset((k, v) for k, v in cap.items()))
                if ck in self.clo:
                    clo = self.clo[ck]
                else:
                    self.clo[ck] = clo
                self.clo[clo] = cap
            f = FuncV(info, clo)
            for d in reversed(info.decorators):
                s, f = self.decorate(d, f, s, module, fn)
                if isinstance(f, Raise):
                    break
            out.append((s, f))
        return out

    def decorate(self, d, f, st, module, fn):
        t = ast.unparse(d)
        base = t.split('(')[0]
        last = base.split('.')[-1]
        if base in ('classmethod', 'staticmethod', 'property', 'builtins.property'):
            return st, T(last, f)
        if last in ('lru_cache', 'cache', 'wraps', 'overload', 'override', 'abstractmethod', 'final', 'no_type_check'):
            return st, f
        if last == 'contextmanager':
            return st, T('ctxmgr', f)
        if base.endswith(('.setter', '.deleter')) and isinstance(d, ast.Attribute):
            old = self.ev(d.value, st, module, fn)[0][1]
            if isinstance(old, T) and old.op == 'property':
                return st, T('property', old.args[0], f) if last == 'setter' else old
            return st, f
        if last == 'cached_property':
            return st, T('property', f)
        r = self.ev(d, st, module, fn)
        if len(r) == 1 and isinstance(r[0][1], (FuncV, BoundV, ClsV, PartialV)):
            out = self.call(r[0][1], [f], {}, r[0][0])
            if len(out) == 1:
                return out[0]
        return st, T('decorated', Const(t), f)

    def ex_ClassDef(self, node, st, module, fn):
        q = (fn.qual + '.' if fn else '') + node.name
        key = ('class', id(node))
        info = self.fninfo.get(key)
        if info is None:
            info = self.fninfo[key] = ClassInfo(module, node, q)
        bases = []
        for b in node.bases:
            r = self.ev(b, st, module, fn)
            bases.append(r[0][1])
        info.bases = [b for b in bases if isinstance(b, (ClsV, Ref))]
        cls = ClsV(info)
        s = st.clone()
        saved = s.env
        s.env = dict(saved)
        cur = s
        names = []
        for stmt in node.body:
            if isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef)):
                r = self.make_func(stmt, cur, module, None, cls=info, qual=f'{q}.{stmt.name}')
                cur, f = r[0]
                info.attrs[stmt.name] = f
                cur = cur.clone()
                cur.setvar(stmt.name, f)
            elif isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Constant):
                continue
            else:
                before = set(cur.env)
                outs = [o for o, c in self.ex(stmt, cur, module, fn) if c is NEXT]
                if outs:
                    cur = outs[0]
                for t in ast.walk(stmt):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store) and t.id in cur.env:
                        info.attrs[t.id] = cur.env[t.id]
        rbases = [resolve(b.name) for b in info.bases if isinstance(b, Ref)]
        deco = [ast.unparse(d).split('(')[0].split('.')[-1] for d in node.decorator_list]
        if 'dataclass' in deco or any(b is typing.NamedTuple for b in rbases):
            info.row = 'dataclass' not in deco
            info.fields = [t.target.id for t in node.body if isinstance(t, ast.AnnAssign) and isinstance(t.target, ast.Name)
                           and 'ClassVar' not in ast.unparse(t.annotation)]
        if any(isinstance(b, type) and issubclass(b, enum.Enum) for b in rbases):
            for n, v in list(info.attrs.items()):
                if not n.startswith('_') and not isinstance(v, FuncV) and not (isinstance(v, T) and v.op in ('property', 'staticmethod', 'classmethod')):
                    info.attrs[n] = T('enum', Const(f'{module}.{q}'), Const(n), v)
        s = cur.clone()
        s.env = dict(saved)
        s.setvar(node.name, cls)
        return [(s, NEXT)]

    def ex_With(self, node, st, module, fn):
        return self.with_item(node, 0, st, module, fn)

    def with_item(self, node, i, st, module, fn):
        if i == len(node.items):
            return self.block(node.body, st, module, fn)
        item = node.items[i]
        out = []
        for s, v in self.ev(item.context_expr, st, module, fn):
            if isinstance(v, Raise):
                out.append((s, v))
                continue

            def inside(s2, val):
                if item.optional_vars is None:
                    return self.with_item(node, i + 1, s2, module, fn)
                r = []
                for s3, c in self.assign(item.optional_vars, val, s2, module, fn):
                    r.extend(self.with_item(node, i + 1, s3, module, fn) if c is NEXT else [(s3, c)])
                return r
            out.extend(self.enter(v, s, inside))
        return out

    def enter(self, v, st, inside):
        """Run inside(state, entered value) under the context manager v."""
        if isinstance(v, T) and v.op == 'ctxgen':
            return self.enter_generator(v, st, inside)
        if isinstance(v, T) and v.op in ('call', 'new'):
            if v.args[0] == Ref('contextlib.suppress'):
                out = []
                for s, c in inside(st, NONE):
                    if isinstance(c, Raise) and c.exc is not UNSUPPORTED and any(self.exc_match(c.exc, h, s) for h in v.args[1:]):
                        c = NEXT
                    out.append((s, c))
                return out
            if v.args[0] == Ref('contextlib.nullcontext'):
                return inside(st, v.args[1] if len(v.args) > 1 else NONE)
        h = self.hv(st, v)
        if not isinstance(h, HInst):
            return inside(st, T('enter', v))
        en, _ = self.class_lookup(h.cls, '__enter__')
        ex, _ = self.class_lookup(h.cls, '__exit__')
        if en is None or ex is None:
            return [(st, Raise(exc('TypeError'), site=self.site))]
        out = []
        for s, val in self.call(BoundV(en, v), [], {}, st):
            if isinstance(val, Raise):
                out.append((s, val))
                continue
            for s2, c in inside(s, val):
                if isinstance(c, Raise):
                    if c.exc is UNSUPPORTED:
                        out.append((s2, c))
                        continue
                    e = c.val if isinstance(c.val, Addr) else T('excval', c.exc, c.val or NONE)
                    args = [c.exc, e, T('traceback', c.exc)]
                else:
                    args = [NONE, NONE, NONE]
                for s3, r in self.call(BoundV(ex, v), args, {}, s2):
                    if isinstance(r, Raise) or not isinstance(c, Raise):
                        out.append((s3, r if isinstance(r, Raise) else c))
                    else:
                        out.extend((s4, NEXT if b else c) for s4, b in self.branch(r, s3))
        return out

    def enter_generator(self, v, st, inside):
        """A generator-based context manager: its body runs with the guarded
        block in place of the yield."""
        f, args, kw = v.args
        env, r = self.bind(f, [x.v for x in args.segs], {x.args[0].v: x.args[1] for x in kw.segs}, st)
        if r is not None:
            return [(st, r)]
        if '%kwargs' in env or len(self.func_stack) > self.MAX_DEPTH:
            return [(st, unsupported('context manager', self.site))]
        saved = st.env
        st = st.clone()
        for n in f.fn.cells:
            x = env.pop(n, None)
            env['%cell:' + n] = self.alloc(st, HInst(Ref('cell'), () if x is None else (('v', x),)))
        self.counter += 1
        me = self.counter
        env['%with'] = Const(me)
        st.env = env
        self.withs[me] = (saved, inside)
        site = self.site
        self.func_stack.append(f.fn)
        self.calls_seen.add(f.fn.qual)
        try:
            res = self.block(f.fn.node.body, st, f.fn.module, f.fn)
        finally:
            self.func_stack.pop()
            del self.withs[me]
        self.site = site
        out = []
        for s, c in res:
            e = s.env.get('%outer')
            s = s.clone()
            if e is None:
                s.env = saved
                out.append((s, c if isinstance(c, Raise) else Raise(exc('RuntimeError'), site=site)))
                continue
            if not isinstance(e, T) or e.op != 'env':
                s.env = saved
                out.append((s, unsupported('yield in a loop', site)))
                continue
            s.env = {b.args[0].v: b.args[1] for b in e.args}
            if isinstance(c, Raise):
                if isinstance(c.exc, T) and c.exc.op == 'withexit':
                    k = c.exc.args[0].v
                    c = BREAK if k == 'break' else CONTINUE if k == 'continue' else ('return', c.exc.args[1])
            else:
                c = NEXT
            out.append((s, c))
        return out

    def yield_to_block(self, s, v):
        saved, inside = self.withs[s.env['%with'].v]
        gen = s.env
        s = s.clone()
        if '%outer' in gen:
            return [(s, Raise(exc('RuntimeError'), site=self.site))]
        s.env = saved
        out = []
        stack, self.func_stack = self.func_stack, self.func_stack[:-1]
        try:
            res = inside(s, v)
        finally:
            self.func_stack = stack
        for s2, c in res:
            s2 = s2.clone()
            e = dict(gen)
            e['%outer'] = T('env', *[T('b', Const(k), x) for k, x in sorted(s2.env.items())])
            s2.env = e
            if c is NEXT:
                out.append((s2, NONE))
            elif isinstance(c, Raise):
                out.append((s2, c))
            else:
                x = 'break' if c is BREAK else 'continue' if c is CONTINUE else 'return'
                out.append((s2, Raise(T('withexit', Const(x), c[1] if isinstance(c, tuple) else NONE), site=self.site)))
        return out

    # ------------------------------------------------------------ match
    def ex_Match(self, node, st, module, fn):
        out = []
        for s, v in self.ev(node.subject, st, module, fn):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            pend = [s]
            for case in node.cases:
                nxt = []
                for x in pend:
                    for x2, b in self.match(case.pattern, v, x, module, fn):
                        if isinstance(b, Raise):
                            out.append((x2, b))
                        elif not b:
                            nxt.append(x2)
                        elif case.guard is None:
                            out.extend(self.block(case.body, x2, module, fn))
                        else:
                            for x3, g in self.cond(case.guard, x2, module, fn):
                                if isinstance(g, Raise):
                                    out.append((x3, g))
                                elif g:
                                    out.extend(self.block(case.body, x3, module, fn))
                                else:
                                    nxt.append(x3)
                pend = nxt
            out.extend((x, NEXT) for x in pend)
        return out

    def match(self, p, v, st, module, fn):
        """-> [(state, True, False or Raise)]"""
        def test(outs):
            r = []
            for s, x in outs:
                r.extend([(s, x)] if isinstance(x, Raise) else self.branch(x, s))
            return r

        def both(outs, f):
            r = []
            for s, b in outs:
                r.extend(f(s) if b is True else [(s, b)])
            return r
        if isinstance(p, ast.MatchValue):
            r = []
            for s, x in self.ev(p.value, st, module, fn):
                r.extend([(s, x)] if isinstance(x, Raise) else test(self.compare(ast.Eq(), v, x, s)))
            return r
        if isinstance(p, ast.MatchSingleton):
            return test(self.compare(ast.Is(), v, Const(p.value), st))
        if isinstance(p, ast.MatchAs):
            outs = [(st, True)] if p.pattern is None else self.match(p.pattern, v, st, module, fn)
            if p.name is None:
                return outs

            def bind(s):
                s = s.clone()
                s.setvar(p.name, v)
                return [(s, True)]
            return both(outs, bind)
        if isinstance(p, ast.MatchOr):
            out, pend = [], [st]
            for q in p.patterns:
                nxt = []
                for s in pend:
                    for s2, b in self.match(q, v, s, module, fn):
                        nxt.append(s2) if b is False else out.append((s2, b))
                pend = nxt
            return out + [(s, False) for s in pend]
        if isinstance(p, ast.MatchClass):
            r = []
            for s, c in self.ev(p.cls, st, module, fn):
                r.extend([(s, c)] if isinstance(c, Raise) else test(self.hooks['builtins.isinstance'](self, [v, c], {}, s)))
                one = isinstance(c, Ref) and resolve(c.name) in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple)
            if p.patterns:
                if len(p.patterns) != 1 or not one:
                    return [(st, unsupported('class pattern', self.site))]
                r = both(r, lambda s: self.match(p.patterns[0], v, s, module, fn))
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                def sub(s, n=n, q=q):
                    o = []
                    for s2, x in self.getattr_(v, n, s):
                        if isinstance(x, Raise):
                            o.append((s2, False if x.exc == exc('AttributeError') else x))
                        else:
                            o.extend(self.match(q, x, s2, module, fn))
                    return o
                r = both(r, sub)
            return r
        if isinstance(p, ast.MatchSequence):
            h = self.hv(st, v)
            segs = v.segs if isinstance(v, TupV) else h.segs if isinstance(h, HList) else None
            if isinstance(v, Const) or isinstance(h, (HDict, HSet)):
                return [(st, False)]
            if segs is None or not all(isinstance(x, Item) for x in segs):
                return [(st, unsupported('sequence pattern', self.site))]
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if len(segs) < n - 1 if star else len(segs) != n:
                return [(st, False)]
            vals = [x.v for x in segs]
            s = st.clone()
            if star:
                i = star[0]
                k = len(vals) - (n - 1 - i)
                vals = vals[:i] + [self.alloc(s, HList([Item(x) for x in vals[i:k]]))] + vals[k:]
            outs = [(s, True)]
            for q, x in zip(p.patterns, vals):
                def sub(s2, q=q, x=x):
                    if not isinstance(q, ast.MatchStar):
                        return self.match(q, x, s2, module, fn)
                    s2 = s2.clone()
                    if q.name:
                        s2.setvar(q.name, x)
                    return [(s2, True)]
                outs = both(outs, sub)
            return outs
        if isinstance(p, ast.MatchMapping) and p.rest is None:
            outs = test(self.hooks['builtins.isinstance'](self, [v, Ref('collections.abc.Mapping')], {}, st))
            for kn, q in zip(p.keys, p.patterns):
                def sub(s, kn=kn, q=q):
                    key = self.ev(kn, s, module, fn)[0][1]

                    def get(s2):
                        o = []
                        for s3, x in self.models.getitem(self, s2, v, key):
                            o.extend([(s3, x)] if isinstance(x, Raise) else self.match(q, x, s3, module, fn))
                        return o
                    return both(test(self.models.contains(self, s, key, v)), get)
                outs = both(outs, sub)
            return outs
        return [(st, unsupported('pattern', self.site))]

    def exc_match(self, e, h, st):
        """Does exception e match handler class h: True/False/None."""
        if isinstance(e, T) and e.op == 'withexit':
            return False
        if isinstance(h, TupV):
            res = False
            for s in h.segs:
                r = self.exc_match(e, s.v, st) if isinstance(s, Item) else None
                if r:
                    return True
                if r is None:
                    res = None
            return res
        if e == h:
            return True
        if isinstance(e, T) and e.op == 'exc':
            b = e.args[1]
            if self.exc_match(b, h, st):
                return True
            if len(e.args) > 2 and h in e.args[2:]:
                return False
            if self.exc_match(h, b, st):
                return None
            return False
        if isinstance(e, ClsV):
            return any(self.exc_match(b, h, st) is True for b in self.mro(e)[1:] if b != OBJECT_REF)
        if isinstance(h, ClsV):
            return False
        if isinstance(e, Ref) and isinstance(h, Ref):
            re_, rh = resolve(e.name), resolve(h.name)
            if isinstance(re_, type) and isinstance(rh, type):
                return issubclass(re_, rh)
            if isinstance(re_, type):
                return False
            return None
        return None

    def ex_Try(self, node, st, module, fn):
        res = self.block(node.body, st, module, fn)
        out = []
        for s, c in res:
            if c is NEXT:
                out.extend(self.block(node.orelse, s, module, fn) if node.orelse else [(s, c)])
                continue
            if not isinstance(c, Raise) or c.exc is UNSUPPORTED:
                out.append((s, c))
                continue
            pend = [(s, c)]
            for hnd in node.handlers:
                nxt = []
                for s2, c2 in pend:
                    if hnd.type is None:
                        m = True
                    else:
                        hv = self.ev(hnd.type, s2, module, fn)[0][1]
                        m = self.exc_match(c2.exc, hv, s2)
                    if m is None:
                        nxt.append((s2.clone(), c2))
                        m = True
                    if m:
                        s3 = s2.clone()
                        old = s3.env.get('%exc')
                        s3.setvar('%exc', TupV_exc(c2))
                        if hnd.name:
                            val = c2.val if isinstance(c2.val, Addr) else T('excval', c2.exc, c2.val or NONE)
                            s3.setvar(hnd.name, val)
                        for s4, c4 in self.block(hnd.body, s3, module, fn):
                            s4 = s4.clone()
                            if hnd.name:
                                s4.delvar(hnd.name)
                            if old is None:
                                s4.delvar('%exc')
                            else:
                                s4.setvar('%exc', old)
                            out.append((s4, c4))
                    else:
                        nxt.append((s2, c2))
                pend = nxt
            out.extend(pend)
        if node.finalbody:
            fin = []
            for s, c in out:
                for s2, c2 in self.block(node.finalbody, s, module, fn):
                    fin.append((s2, c if c2 is NEXT else c2))
            out = fin
        return out

    def trim(self, node, st, module, fn):
        """while len(x) > n: x.pop()  -- when n elements are known to come first."""
        t, b = node.test, node.body
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Gt) and len(b) == 1 and isinstance(b[0], ast.Expr) and not node.orelse):
            return None
        size, drop = t.left, b[0].value
        if not (isinstance(size, ast.Call) and isinstance(size.func, ast.Name) and size.func.id == 'len' and len(size.args) == 1
                and isinstance(drop, ast.Call) and isinstance(drop.func, ast.Attribute) and drop.func.attr in ('pop', 'popitem') and not drop.args
                and not drop.keywords and ast.dump(drop.func.value) == ast.dump(size.args[0]) and isinstance(drop.func.value, (ast.Name, ast.Attribute))):
            return None
        r = self.evs([size.args[0], t.comparators[0]], st, module, fn)
        if len(r) != 1 or isinstance(r[0][1], Raise):
            return None
        s, (o, n) = r[0]
        h = self.h(s, o) if isinstance(o, Addr) else None
        if not isinstance(h, (HDict, HList)) or (isinstance(h, HDict) and h.cls is not None) or isinstance(h, HDict) != (drop.func.attr == 'popitem'):
            return None
        c = self.models.cut(h.segs, T('slice', NONE, n, NONE))
        if c is None:
            return None
        s = s.clone()
        s.put(o, h.with_segs(h.segs[:c[1]]))
        return [(s, NEXT)]

    def ex_While(self, node, st, module, fn):
        r = self.trim(node, st, module, fn)
        if r is not None:
            return r
        out = []
        pend = [st]
        n = 0
        while pend:
            n += 1
            if n > 40:
                for s in pend:
                    out.append((s, unsupported('unbounded while loop', self.site)))
                break
            nxt = []
            for s in pend:
                for s2, b in self.cond(node.test, s, module, fn):
                    if isinstance(b, Raise):
                        out.append((s2, b))
                    elif not b:
                        out.extend(self.block(node.orelse, s2, module, fn) if node.orelse else [(s2, NEXT)])
                    else:
                        for s3, c in self.block(node.body, s2, module, fn):
                            if c is NEXT or c is CONTINUE:
                                nxt.append(s3)
                            elif c is BREAK:
                                out.append((s3, NEXT))
                            else:
                                out.append((s3, c))
            pend = [s for s, _ in self.merge([(s, NEXT) for s in nxt])]
            if len(pend) > self.MAX_STATES:
                raise Limit('while explosion')
        return out

    def ex_For(self, node, st, module, fn):
        out = []
        for s, it in self.ev(node.iter, st, module, fn):
            if isinstance(it, Raise):
                out.append((s, it))
                continue
            for s2, segs in self.segments(it, s):
                if isinstance(segs, Raise):
                    out.append((s2, segs))
                    continue

                def body(x, v):
                    r = []
                    for x2, c in self.assign(node.target, v, x, module, fn):
                        if c is not NEXT:
                            r.append((x2, c))
                        else:
                            r.extend(self.block(node.body, x2, module, fn))
                    return r
                tn = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
                for s3, c in self.loop(segs, body, s2, tn):
                    if c is BREAK:
                        out.append((s3, NEXT))
                    elif c is NEXT:
                        out.extend(self.block(node.orelse, s3, module, fn) if node.orelse else [(s3, NEXT)])
                    else:
                        out.append((s3, c))
        return out

    # ------------------------------------------------------------ loops
    def loop(self, segs, body, st, targets=frozenset()):
        """Run body over segments; outcomes NEXT, BREAK, return, raise."""
        cur = [st]
        out = []
        for seg in segs:
            nxt = []
            for s in cur:
                if isinstance(seg, (Item, Entry)):
                    v = seg.v if isinstance(seg, Item) else TupV([Item(seg.k), Item(seg.v)])
                    for s2, c in body(s.clone(), v):
                        if c is NEXT or c is CONTINUE:
                            nxt.append(s2)
                        elif c is BREAK:
                            out.append((s2, BREAK))
                        else:
                            out.append((s2, c))
                elif isinstance(seg, Each):
                    for s2, c in self.loop_each(seg, body, s, targets):
                        if c is NEXT:
                            nxt.append(s2)
                        else:
                            out.append((s2, c))
                elif isinstance(seg, Prior):
                    e = Each(T('prior', seg), [Alt(frozenset(), (Item(T('elem', T('prior', seg))),))])
                    for s2, c in self.loop_each(e, body, s, targets):
                        if c is NEXT:
                            nxt.append(s2)
                        else:
                            out.append((s2, c))
                else:
                    out.append((s, unsupported('segment', self.site)))
            cur = [s for s, _ in self.merge([(s, NEXT) for s in nxt])]
            if len(cur) + len(out) > self.MAX_STATES:
                raise Limit('loop explosion')
        return out + [(s, NEXT) for s in cur]

    def loop_each(self, each, body, st, targets):
        def run(base):
            res = []
            for alt in each.alts:
                s = base.clone()
                conflict = False
                for a, b in alt.facts:
                    if s.facts.get(a, b) != b:
                        conflict = True
                        break
                    d = self.world.oracle(a, s)
                    if d is not None and d != b:
                        conflict = True
                        break
                if conflict:
                    continue
                f = dict(s.facts)
                f.update(alt.facts)
                s.facts = f
                pend = [(s, NEXT)]
                for el in alt.elems:
                    nx = []
                    for x, c in pend:
                        if c is not NEXT:
                            nx.append((x, c))
                        elif isinstance(el, (Item, Entry)):
                            v = el.v if isinstance(el, Item) else TupV([Item(el.k), Item(el.v)])
                            for y, c2 in body(x.clone(), v):
                                nx.append((y, NEXT if c2 is CONTINUE else c2))
                        elif isinstance(el, Each):
                            nx.extend(self.loop_each(el, body, x, targets))
                        else:
                            nx.append((x, unsupported('nested segment', self.site)))
                    pend = nx
                res.extend(pend)
            return res

        def changed(base, outs):
            names = set()
            fields = set()
            for s, c in outs:
                if c is not NEXT and c is not BREAK:
                    continue
                for k, v in s.env.items():
                    if k in base.env and base.env[k] != v and k not in targets:
                        names.add(k)
                for a, hh in s.heap.items():
                    old = self.h(base, a)
                    if isinstance(hh, HInst) and isinstance(old, HInst) and old != hh:
                        for k, v in hh.fields:
                            ov = old.get(k)
                            if ov is not None and ov != v:
                                fields.add((a, k))
                            elif ov is None:
                                fields.add((a, k))
            return names, fields

        base = st
        outs = run(base)
        names, fields = changed(base, outs)
        phis = {}
        if names or fields:
            base = st.clone()
            self.counter += 1
            lid = (self.site.file, self.site.line)
            for n in names:
                p = T('phi', Const(n), Const(str(lid)))
                phis[n] = p
                base.setvar(n, p)
            for a, k in fields:
                hh = self.h(base, a)
                base.put(a, hh.set(k, T('phi', Const(f'{a}.{k}'), Const(str(lid)))))
            outs = run(base)
        normal = [(s, c) for s, c in outs if c is NEXT]
        breaks = [(s, c) for s, c in outs if c is BREAK]
        others = [(s, c) for s, c in outs if c is not NEXT and c is not BREAK]

        def deltas(s):
            """addr -> appended elems, or None when not append-only."""
            d = {}
            for a, hh in s.heap.items():
                old = self.h(base, a)
                if old is None or old == hh:
                    continue
                if isinstance(hh, HInst):
                    continue
                if isinstance(hh, HUnk) or type(hh) is not type(old):
                    d[a] = None
                    continue
                n = len(old.segs)
                if hh.segs[:n] == old.segs:
                    d[a] = hh.segs[n:]
                else:
                    d[a] = None
            return d

        info = []
        for s, c in normal:
            d = deltas(s)
            ev = s.events[len(base.events):]
            facts = frozenset((a, b) for a, b in s.facts.items() if base.facts.get(a) is None)
            info.append((s, d, ev, facts))
        # merge alternatives with the same contribution
        merged = {}
        for s, d, ev, facts in info:
            vec = tuple(sorted((k, repr(v)) for k, v in s.env.items() if k in base.env and base.env[k] != v and k not in targets))
            key = (tuple(sorted(((a.n, v) for a, v in d.items()), key=lambda x: x[0])), ev, vec)
            if key in merged:
                o = merged[key]
                merged[key] = (o[0], o[1], o[2], o[3] & facts)
            else:
                merged[key] = (s, d, ev, facts)
        info = list(merged.values())
        addrs = []
        for _, d, _, _ in info:
            for a in d:
                if a not in addrs:
                    addrs.append(a)

        def summary(partial=None):
            ns = base.clone()
            heap = dict(ns.heap)
            for s, _ in normal + breaks:
                for a, hh in s.heap.items():
                    if self.h(base, a) is None:
                        heap.setdefault(a, hh)
            for a in addrs:
                old = self.h(base, a)
                if any(d.get(a, ()) is None for _, d, _, _ in info) or not hasattr(old, 'segs'):
                    heap[a] = HUnk(f'modified in a loop at {self.site}')
                    continue
                alts = [Alt(f, d.get(a, ())) for _, d, _, f in info]
                heap[a] = old.with_segs(old.segs + (Each(each.src, alts, partial if partial is not None else each.partial),))
            ns.heap = heap
            if any(ev for _, _, ev, _ in info):
                ns.events = base.events + (Each(each.src, [Alt(f, ev) for _, _, ev, f in info], partial if partial is not None else each.partial),)
            return ns

        results = []
        # variables after the loop: one variant per distinct assignment
        vecs = {}
        for s, d, ev, facts in info:
            vec = tuple((n, s.env.get(n)) for n in sorted(names))
            vecs.setdefault(vec, s)
        fieldvals = {}
        for a, k in fields:
            vals = {self.h(s, a).get(k) for s, *_ in info} | {self.h(st, a).get(k)}
            vals.discard(self.h(base, a).get(k))
            fieldvals[(a, k)] = vals

        def finish(ns):
            for (a, k), vals in fieldvals.items():
                hh = self.h(ns, a)
                if not isinstance(hh, HInst):
                    continue
                if len(vals) == 1:
                    (v,) = vals
                    ns.put(a, hh.set(k, v) if v is not None else hh)
            # names first bound in the body
            newnames = {}
            for s, *_ in info:
                for k, v in s.env.items():
                    if k not in base.env or k in targets:
                        newnames.setdefault(k, set()).add(v)
            env = dict(ns.env)
            for k, vs in newnames.items():
                env[k] = next(iter(vs)) if len(vs) == 1 else T('phi', Const(k), Const(str((self.site.file, self.site.line))))
            ns.env = env
            return ns

        base_vec = tuple((n, st.env.get(n)) for n in sorted(names))
        all_change = bool(vecs) and bool(names) and all(
            any(v != phis[n] for n, v in vec) for vec in vecs)
        variants = []
        if not names:
            variants.append(None)
        else:
            variants.append(base_vec)
            for vec in vecs:
                v2 = tuple((n, dict(base_vec)[n] if v == phis[n] else v) for n, v in vec)
                if v2 not in variants:
                    variants.append(v2)
        if not normal and not breaks:
            # the body never completes normally: only the empty case goes on
            ns = st.clone()
            ns.assume(T('nonempty', each.src), False)
            results.append((ns, NEXT))
        else:
            if len(variants) > 6:
                variants = [tuple((n, phis[n]) for n in sorted(names))]
            if normal or not breaks:
                for vec in variants:
                    ns = summary()
                    if vec is not None:
                        env = dict(ns.env)
                        env.update(dict(vec))
                        ns.env = env
                        if vec == base_vec and all_change:
                            ns.assume(T('nonempty', each.src), False)
                        elif vec != base_vec:
                            ns.assume(T('nonempty', each.src), True)
                    results.append((finish(ns), NEXT))
            if not normal and breaks:
                ns = st.clone()
                ns.assume(T('nonempty', each.src), False)
                results.append((ns, NEXT))
        for s, c in breaks:
            facts = frozenset((a, b) for a, b in s.facts.items() if base.facts.get(a) is None)
            ns = summary(partial=facts)
            env = dict(ns.env)
            for k, v in s.env.items():
                env[k] = v
            ns.env = env
            self._append_deltas(ns, base, s)
            results.append((ns, BREAK))
        for s, c in others:
            facts = frozenset((a, b) for a, b in s.facts.items() if base.facts.get(a) is None)
            ns = summary(partial=facts)
            f = dict(ns.facts)
            f.update(facts)
            ns.facts = f
            heap = dict(ns.heap)
            for a, hh in s.heap.items():
                if self.h(base, a) is None:
                    heap[a] = hh
            ns.heap = heap
            self._append_deltas(ns, base, s)
            results.append((ns, c))
        return results

    def _append_deltas(self, ns, base, s):
        heap = dict(ns.heap)
        for a, hh in s.heap.items():
            old = self.h(base, a)
            if old is None:
                heap.setdefault(a, hh)
                continue
            if old == hh or isinstance(hh, HInst):
                if isinstance(hh, HInst) and old != hh:
                    heap[a] = hh
                continue
            cur = heap.get(a, self.base_heap.get(a))
            if hasattr(hh, 'segs') and hasattr(old, 'segs') and hasattr(cur, 'segs') and hh.segs[:len(old.segs)] == old.segs:
                heap[a] = cur.with_segs(cur.segs + hh.segs[len(old.segs):])
            else:
                heap[a] = hh if cur is old else HUnk('loop exit')
        ns.heap = heap
        ns.events = ns.events + s.events[len(base.events):]

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, module, fn):
        if isinstance(t, ast.Name):
            st = st.clone()
            if fn is not None and t.id in fn.globals:
                self.record_global_write(st, module, t.id, v)
            elif fn is not None and t.id in fn.nonlocals:
                c = self.cell(t.id, st)
                if c is None:
                    return [(st, unsupported('nonlocal', self.site))]
                st.put(c, self.h(st, c).set('v', v))
            else:
                st.setvar(t.id, v)
            return [(st, NEXT)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st, module, fn)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, module, fn)
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st, module, fn):
                if isinstance(o, Raise):
                    out.append((s, o))
                    continue
                for s2, r in self.setattr_(o, t.attr, v, s):
                    out.append((s2, r if isinstance(r, Raise) else NEXT))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, o in self.ev(t.value, st, module, fn):
                if isinstance(o, Raise):
                    out.append((s, o))
                    continue
                for s2, i in self.ev(t.slice, s, module, fn):
                    if isinstance(i, Raise):
                        out.append((s2, i))
                        continue
                    for s3, r in self.models.setitem(self, s2, o, i, v):
                        out.append((s3, r if isinstance(r, Raise) else NEXT))
            return out
        return [(st, unsupported('target', self.site))]

    # module and class variables assigned at run time live in boxes on the heap
    def static(self, st, owner, name):
        a = self.boxes.get((owner, name))
        if a is None:
            return None
        h = self.h(st, a)
        if h is None:
            return None
        if isinstance(h, HList) and len(h.segs) == 1 and isinstance(h.segs[0], Item):
            return h.segs[0].v
        return T('global', Const(str(owner)), Const(name))

    def set_static(self, st, owner, name, v):
        a = self.boxes.get((owner, name))
        if a is None:
            self.counter += 1
            a = self.boxes[owner, name] = Addr(self.counter)
        st.put(a, HList([Item(v)]))
        st.event(Op('global_write', owner if isinstance(owner, V) else Const(owner), Const(name), v, site=self.site))

    def record_global_write(self, st, module, name, v):
        self.set_static(st, module, name, v)

    def unpack(self, t, v, st, module, fn):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        out = []
        for s, segs in self.segments(v, st):
            if isinstance(segs, Raise):
                out.append((s, segs))
                continue
            if all(isinstance(x, Item) for x in segs):
                vals = [x.v for x in segs]
                if star:
                    i = star[0]
                    k = n - 1
                    if len(vals) < k:
                        out.append((s, Raise(exc('ValueError'), site=self.site)))
                        continue
                    s = s.clone()
                    mid = vals[i:len(vals) - (n - 1 - i)]
                    vals = vals[:i] + [self.alloc(s, HList([Item(x) for x in mid]))] + vals[len(vals) - (n - 1 - i):]
                elif len(vals) != n:
                    out.append((s, Raise(exc('ValueError'), site=self.site)))
                    continue
            elif star:
                out.append((s, unsupported('starred unpacking', self.site)))
                continue
            else:
                vals = [T('index', v, Const(i)) for i in range(n)]
            cur = [(s, NEXT)]
            for e, x in zip(t.elts, vals):
                nxt = []
                for s2, c in cur:
                    if c is NEXT:
                        nxt.extend(self.assign(e, x, s2, module, fn))
                    else:
                        nxt.append((s2, c))
                cur = nxt
            out.extend(cur)
        return out

    # ------------------------------------------------------------ attributes
    def record_op(self, st, obj, name, *args):
        """An operation on an object: logged on it when the program built it,
        otherwise an effect on somebody else's object."""
        h = self.hv(st, obj)
        if isinstance(h, HObj):
            st.put(obj, h.with_segs(h.segs + (Op(name, *args, site=self.site),)))
            return
        st.event(Op('effect', obj, Const(name), *args, site=self.site))

    def setattr_(self, o, name, v, st):
        """name: str or value."""
        nm = name if isinstance(name, str) else (name.v if isinstance(name, Const) and isinstance(name.v, str) else None)
        h = self.hv(st, o)
        st = st.clone()
        if isinstance(h, HInst):
            if nm is None:
                return [(st, unsupported('dynamic setattr on context', self.site))]
            prop, _ = self.class_lookup(h.cls, nm)
            if isinstance(prop, T) and prop.op == 'property' and len(prop.args) > 1:
                return self.call(BoundV(prop.args[1], o), [v], {}, st)
            if nm == '__class__' and isinstance(v, T) and self.kind(v, st) is not None and v.op != 'cls' and not issubclass((*self.kind(v, st).py, object)[0], type):
                return [(st, Raise(exc('TypeError'), Const('__class__ must be set to a class'), self.site))]
            st.put(o, h.set(nm, v))
            if nm == '__class__':
                st.put(o, HObj(v, T('blank', v)))
            self.note_field(st, o, nm, v)
            return [(st, NONE)]
        if isinstance(o, (ClsV, ModV, FuncV)):
            if nm is None:
                return [(st, unsupported('dynamic setattr on a class', self.site))]
            self.set_static(st, o.name if isinstance(o, ModV) else o, nm, v)
            return [(st, NONE)]
        r = self.world.method(self, o, '__setattr__', [Const(nm) if nm is not None else name, v], {}, st)
        if r is not None:
            return r
        self.record_op(st, o, 'setattr', Const(nm) if nm is not None else name, v)
        return [(st, NONE)]

    def note_field(self, st, o, nm, v):
        pass

    def getattr_(self, o, name, st):
        """-> [(st, value or Raise)]"""
        if isinstance(name, Const) and isinstance(name.v, str):
            name = name.v
        if not isinstance(name, str):
            return self.getattr_dyn(o, name, st)
        miss = [(st, Raise(exc('AttributeError'), Const(name), self.site))]
        if isinstance(o, ModV):
            v = self.static(st, o.name, name)
            if v is None:
                v = self.mod_env.get(o.name, {}).get(name)
            if v is not None:
                return [(st, v)]
            sub = f'{o.name}.{name}'
            if sub in self.prog.modules:
                self.load(sub)
                return [(st, ModV(sub))]
            if name == '__name__':
                return [(st, Const(o.name))]
            if o.name in self.partial and not name.startswith('_'):
                s = st.clone()
                s.event(Op('unmodelled', Const(sub), site=self.site))
                return [(s, Ref(sub))]
            return miss
        if isinstance(o, ClsV):
            return self.class_attr(o, name, st, o)
        if isinstance(o, SuperV):
            v, c = self.class_lookup(self.typeof_cls(o.self, st), name, after=o.cls)
            if v is not None:
                return [(st, self.bindv(v, o.self, c, st))]
            if name == '__init__':
                return [(st, Ref('builtins.object.__init__'))]
            return [(st, MethV(T('super', o.self), name))]
        if isinstance(o, Addr):
            h = self.h(st, o)
            if isinstance(h, HInst):
                v = h.get(name)
                if v is not None:
                    return [(st, v)]
                if name == '__class__':
                    return [(st, h.cls)]
                if name == '__dict__':
                    return [(st, T('instdict', o))]
                if self.row(h) is not None and name in ('_replace', '_asdict', 'index', 'count'):
                    return [(st, MethV(o, name))]
                if self.row(h) is not None and name == '_fields':
                    return [(st, TupV([Item(Const(n)) for n in self.field_names(h.cls)]))]
                v, c = self.class_lookup(h.cls, name, st=st)
                if v is not None:
                    if isinstance(v, T) and v.op == 'property':
                        return self.call(BoundV(v.args[0], o), [], {}, st)
                    return [(st, self.bindv(v, o, c, st))]
                for b in self.mro(h.cls):
                    if isinstance(b, Ref):
                        r = resolve(b.name)
                        if r is not _missing and hasattr(r, name):
                            return [(st, MethV(o, name))]
                ga, c = self.class_lookup(h.cls, '__getattr__')
                if ga is not None:
                    return self.call(BoundV(ga, o), [Const(name)], {}, st)
                return miss
            if isinstance(h, HObj):
                for sg in reversed(h.segs):
                    if isinstance(sg, Op) and sg.name == 'setattr' and sg.args[0] == Const(name):
                        return [(st, sg.args[1])]
                if name == '__class__':
                    return [(st, self.unrestored(h.cls))]
                k = self.kind(o, st)
                if k is not None:
                    return self.kind_attr(k, o, name, st)
                r = resolve(h.cls.name) if isinstance(h.cls, Ref) else _missing
                if isinstance(r, type):
                    if callable(getattr(r, name, None)):
                        return [(st, MethV(o, name))]
                    if not hasattr(r, name):
                        return miss
                return [(st, T('attr', o, Const(name)))]
            if isinstance(h, HUnk):
                return [(st, MethV(o, name))]
            cls, py = self.typeof(o, st)
            if name == '__class__':
                return [(st, cls)]
            if any(iattr(t, name) for t in py) or o in self.deques and name in ('appendleft', 'popleft', 'extendleft'):
                return [(st, MethV(o, name))]
            return miss
        if isinstance(o, (Const, TupV, IterV)):
            cls, py = self.typeof(o, st)
            if name == '__class__':
                return [(st, cls)]
            if any(iattr(t, name) for t in py):
                return [(st, MethV(o, name))]
            return miss
        if isinstance(o, Ref):
            r = resolve(o.name)
            if r is not _missing:
                if name == '__name__' and hasattr(r, '__name__'):
                    return [(st, Const(r.__name__))]
                if name == '__class__':
                    return [(st, ref_of_type(type(r)))]
                if name == '__dict__':
                    return [(st, T('attr', o, Const('__dict__')))]
                if hasattr(r, name):
                    x = getattr(r, name)
                    lv = self.lift(x)
                    if name in ('__mro__',):
                        return [(st, TupV([Item(ref_of_type(c)) for c in r.__mro__]))]
                    if lv is not None and not isinstance(lv, Ref) and not isinstance(lv, IterV):
                        return [(st, lv)]
                    if isinstance(lv, IterV):
                        s = st.clone()
                        return [(s, self.alloc(s, HList(lv.segs)))]
                    if resolve(f'{o.name}.{name}') is _missing:
                        _resolve_cache[f'{o.name}.{name}'] = x
                    return [(st, Ref(f'{o.name}.{name}'))]
                import types as _t
                if isinstance(r, _t.ModuleType):
                    full = f'{o.name}.{name}'
                    if resolve(full) is not _missing:
                        return [(st, Ref(full))]
                return miss
            k = self.kind(o, st) or self.world.kind(o, st)
            if k is not None:
                return self.kind_attr(k, o, name, st)
            return [(st, Ref(f'{o.name}.{name}'))]
        if isinstance(o, FuncV):
            if self.boxes:
                v = self.static(st, o, name)
                if v is not None:
                    return [(st, v)]
            if name == '__name__':
                return [(st, Const(o.fn.name))]
            if name in ('__module__',):
                return [(st, Const(o.fn.module))]
            if name == '__qualname__':
                return [(st, Const(o.fn.qual))]
            return [(st, T('attr', o, Const(name)))]
        if isinstance(o, (BoundV, MethV)):
            if name == '__self__':
                return [(st, o.self if isinstance(o, BoundV) else o.obj)]
            if name == '__name__':
                return [(st, Const(o.func.fn.name if isinstance(o, BoundV) and isinstance(o.func, FuncV) else getattr(o, 'name', '?')))]
            return [(st, T('attr', o, Const(name)))]
        if isinstance(o, T):
            if o.op == 'excval' and name == 'args' and isinstance(o.args[1], TupV):
                return [(st, o.args[1])]
            if o.op == 'enum' and name in ('value', 'name', '_value_', '_name_'):
                return [(st, o.args[2] if 'value' in name else o.args[1])]
            if o.op == 'cls' or (o.op == 'restored' and isinstance(self.unrestored(o), T) and self.unrestored(o).op == 'cls'):
                u = self.unrestored(o)
                k = self.kind(u.args[0], st)
                if k is not None:
                    return self.kind_cls_attr(k, u, name, st)
            k = self.kind(o, st)
            if k is not None:
                return self.kind_attr(k, o, name, st)
            cls, py = self.typeof(o, st)
            if name == '__class__':
                return [(st, cls if cls is not None else T('typeof', o))]
            if py:
                if any(iattr(t, name) for t in py):
                    return [(st, MethV(o, name))]
                if all(t in (str, int, bool, bytes) for t in py):
                    return miss
            return self.unknown_attr(o, name, st)
        return [(st, T('attr', o, Const(name)))]

    def unknown_attr(self, o, name, st):
        return [(st, T('attr', o, Const(name)))]

    def getattr_dyn(self, o, name, st):
        r = self.world.method(self, o, '__getattr_dyn__', [name], {}, st)
        if r is not None:
            return r
        # sys.modules[C.__module__] . C.__qualname__  is C
        return [(st, T('getattr', o, name))]

    def kind_attr(self, k, o, name, st):
        if name == '__class__':
            return [(st, k.cls_of(self.origin(o, st)))]
        r = k.attr(self, o, name, st)
        if r is None:
            return [(st, T('attr', o, Const(name)))]
        if r is AttributeError:
            return [(st, Raise(exc('AttributeError'), Const(name), self.site))]
        if isinstance(r, list):
            return r
        return [(st, r)]

    def origin(self, o, st):
        o = self.unrestored(o)
        if isinstance(o, Addr):
            h = self.h(st, o)
            if isinstance(h, HObj):
                c = self.unrestored(h.cls)
                if isinstance(c, T) and c.op == 'cls':
                    return c.args[0]
        return o

    def kind_cls_attr(self, k, o, name, st):
        r = k.cls_attr(self, o, name, st)
        if r is AttributeError:
            return [(st, Raise(exc('AttributeError'), Const(name), self.site))]
        if r is None:
            return [(st, T('attr', o, Const(name)))]
        if isinstance(r, list):
            return r
        return [(st, r)]

    def typeof_cls(self, v, st):
        c, _ = self.typeof(v, st)
        if isinstance(v, ClsV):
            return v
        return c

    def class_attr(self, cls, name, st, bind):
        v, c = self.class_lookup(cls, name, st=st)
        if v is not None:
            if isinstance(v, T) and v.op == 'classmethod':
                return [(st, BoundV(v.args[0], bind))]
            if isinstance(v, T) and v.op == 'staticmethod':
                return [(st, v.args[0])]
            return [(st, v)]
        if name == '__name__':
            return [(st, Const(cls.info.name))]
        if name == '__qualname__':
            return [(st, Const(cls.info.qual))]
        if name == '__module__':
            return [(st, Const(cls.info.module))]
        if name == '__mro__':
            return [(st, TupV([Item(c) for c in self.mro(cls)]))]
        if name == '__dict__':
            return [(st, T('attr', cls, Const('__dict__')))]
        if name == '__class__':
            return [(st, TYPE_REF)]
        for b in self.mro(cls):
            if isinstance(b, Ref):
                r = resolve(b.name)
                if r is not _missing and hasattr(r, name):
                    return [(st, Ref(f'{b.name}.{name}'))]
        return [(st, Raise(exc('AttributeError'), Const(name), self.site))]

    def bindv(self, v, o, c, st):
        if isinstance(v, FuncV):
            return BoundV(v, o)
        if isinstance(v, T) and v.op == 'classmethod':
            return BoundV(v.args[0], self.typeof_cls(o, st))
        if isinstance(v, T) and v.op == 'staticmethod':
            return v.args[0]
        if isinstance(v, T) and v.op in ('ctxmgr', 'decorated'):
            return BoundV(v, o)
        return v

    def hasattr_(self, o, name, st):
        """[(st, True/False)] -- forks when unknown."""
        out = []
        for s, r in self.getattr_(o, name, st):
            if isinstance(r, Raise):
                if r.exc == exc('AttributeError'):
                    out.append((s, False))
                else:
                    out.append((s, r))
            elif isinstance(r, T) and r.op == 'attr' and self.kind(r, s) is None and not self.known_attr(o, name, s):
                out.extend(self.branch(T('hasattr', o, name if isinstance(name, V) else Const(name)), s))
            elif isinstance(r, T) and r.op == 'getattr':
                out.extend(self.branch(T('hasattr', o, name if isinstance(name, V) else Const(name)), s))
            else:
                out.append((s, True))
        return out

    def known_attr(self, o, name, st):
        k = self.kind(o, st)
        if k is not None and isinstance(name, (str, Const)):
            n = name if isinstance(name, str) else name.v
            return k.knows(n)
        u = self.unrestored(o)
        if isinstance(u, T) and u.op == 'cls':
            k = self.kind(u.args[0], st)
            if k is not None:
                n = name if isinstance(name, str) else getattr(name, 'v', None)
                return k.knows_cls(n)
        return False

    # ------------------------------------------------------------ expressions
    def evl(self, nodes, st, module, fn):
        """Evaluate a list of expressions -> [(st, [values] | Raise)]."""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vals in cur:
                if isinstance(vals, Raise):
                    nxt.append((s, vals))
                    continue
                if isinstance(n, ast.Starred):
                    for s2, v in self.ev(n.value, s, module, fn):
                        nxt.append((s2, v if isinstance(v, Raise) else vals + [Star(v)]))
                    continue
                for s2, v in self.ev(n, s, module, fn):
                    nxt.append((s2, v if isinstance(v, Raise) else vals + [v]))
            cur = nxt
        return cur

    def evs(self, nodes, st, module, fn):
        out = []
        for s, v in self.evl(nodes, st, module, fn):
            if isinstance(v, Raise):
                out.append((s, [v] * len(nodes)))
            else:
                out.append((s, v))
        return out

    def cond(self, node, st, module, fn):
        """Evaluate a condition -> [(st, bool | Raise)] with short circuits."""
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            cur = [(st, is_and)]
            out = []
            pend = [st]
            for i, e in enumerate(node.values):
                nxt = []
                for s in pend:
                    for s2, b in self.cond(e, s, module, fn):
                        if isinstance(b, Raise):
                            out.append((s2, b))
                        elif b != is_and:
                            out.append((s2, b))
                        else:
                            nxt.append(s2)
                pend = nxt
            out.extend((s, is_and) for s in pend)
            return self.merge_b(out)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, b if isinstance(b, Raise) else not b) for s, b in self.cond(node.operand, st, module, fn)]
        out = []
        for s, v in self.ev(node, st, module, fn):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out.extend(self.branch(v, s))
        return self.merge_b(out)

    def merge_b(self, out):
        return self.merge(out) if len(out) > 2 else out

    def ev(self, node, st, module, fn):
        m = getattr(self, 'ev_' + type(node).__name__, None)
        if m is None:
            return [(st, unsupported('expression ' + type(node).__name__, self.site))]
        return m(node, st, module, fn)

    def ev_Constant(self, node, st, module, fn):
        return [(st, Const(node.value))]

    def ev_Name(self, node, st, module, fn):
        return [(st, self.lookup(node.id, st, module, fn))]

    def ev_Attribute(self, node, st, module, fn):
        out = []
        for s, o in self.ev(node.value, st, module, fn):
            if isinstance(o, Raise):
                out.append((s, o))
            else:
                out.extend(self.getattr_(o, node.attr, s))
        return out

    def ev_NamedExpr(self, node, st, module, fn):
        out = []
        for s, v in self.ev(node.value, st, module, fn):
            if not isinstance(v, Raise):
                s = s.clone()
                s.setvar(node.target.id, v)
            out.append((s, v))
        return out

    def ev_Tuple(self, node, st, module, fn):
        out = []
        for s, vals in self.evl(node.elts, st, module, fn):
            if isinstance(vals, Raise):
                out.append((s, vals))
                continue
            for s2, segs in self.spread(vals, s):
                out.append((s2, segs if isinstance(segs, Raise) else TupV(segs)))
        return out

    def spread(self, vals, st):
        """Values with Star -> segments."""
        cur = [(st, [])]
        for v in vals:
            nxt = []
            for s, segs in cur:
                if isinstance(segs, Raise):
                    nxt.append((s, segs))
                elif isinstance(v, Star):
                    for s2, sg in self.segments(v.v, s):
                        nxt.append((s2, sg if isinstance(sg, Raise) else segs + list(sg)))
                else:
                    nxt.append((s, segs + [Item(v)]))
            cur = nxt
        return cur

    def ev_List(self, node, st, module, fn):
        out = []
        for s, vals in self.evl(node.elts, st, module, fn):
            if isinstance(vals, Raise):
                out.append((s, vals))
                continue
            for s2, segs in self.spread(vals, s):
                if isinstance(segs, Raise):
                    out.append((s2, segs))
                else:
                    s2 = s2.clone()
                    out.append((s2, self.alloc(s2, HList(segs))))
        return out

    def ev_Set(self, node, st, module, fn):
        out = []
        for s, vals in self.evl(node.elts, st, module, fn):
            if isinstance(vals, Raise):
                out.append((s, vals))
                continue
            for s2, segs in self.spread(vals, s):
                if isinstance(segs, Raise):
                    out.append((s2, segs))
                else:
                    s2 = s2.clone()
                    out.append((s2, self.alloc(s2, HSet(segs))))
        return out

    def ev_Dict(self, node, st, module, fn):
        st = st.clone()
        a = self.alloc(st, HDict())
        cur = [(st, a)]
        for k, v in zip(node.keys, node.values):
            nxt = []
            for s, r in cur:
                if isinstance(r, Raise):
                    nxt.append((s, r))
                    continue
                if k is None:
                    for s2, x in self.ev(v, s, module, fn):
                        if isinstance(x, Raise):
                            nxt.append((s2, x))
                            continue
                        for s3, r3 in self.call(MethV(a, 'update'), [x], {}, s2):
                            nxt.append((s3, r3 if isinstance(r3, Raise) else a))
                    continue
                for s2, vals in self.evl([k, v], s, module, fn):
                    if isinstance(vals, Raise):
                        nxt.append((s2, vals))
                        continue
                    for s3, r3 in self.models.setitem(self, s2, a, vals[0], vals[1]):
                        nxt.append((s3, r3 if isinstance(r3, Raise) else a))
            cur = nxt
        return cur

    def ev_IfExp(self, node, st, module, fn):
        out = []
        for s, b in self.cond(node.test, st, module, fn):
            if isinstance(b, Raise):
                out.append((s, b))
            else:
                out.extend(self.ev(node.body if b else node.orelse, s, module, fn))
        return out

    def ev_BoolOp(self, node, st, module, fn):
        is_and = isinstance(node.op, ast.And)
        out = []
        pend = [st]
        for i, e in enumerate(node.values):
            last = i == len(node.values) - 1
            nxt = []
            for s in pend:
                for s2, v in self.ev(e, s, module, fn):
                    if isinstance(v, Raise) or last:
                        out.append((s2, v))
                        continue
                    for s3, b in self.branch(v, s2):
                        if b == is_and:
                            nxt.append(s3)
                        else:
                            # a boolean atom has become known on this path
                            out.append((s3, const(b) if isinstance(v, T) and v.op in BOOL_OPS else v))
            pend = nxt
        return out

    def ev_UnaryOp(self, node, st, module, fn):
        if isinstance(node.op, ast.Not):
            out = []
            for s, v in self.ev(node.operand, st, module, fn):
                if isinstance(v, Raise):
                    out.append((s, v))
                    continue
                r, atom, pol = self.decide(v, s)
                if r is not None:
                    out.append((s, const(not r)))
                else:
                    out.append((s, T('not', atom) if pol else atom))
            return out
        out = []
        for s, v in self.ev(node.operand, st, module, fn):
            if isinstance(v, Raise):
                out.append((s, v))
            elif isinstance(v, Const):
                try:
                    x = v.v
                    x = -x if isinstance(node.op, ast.USub) else +x if isinstance(node.op, ast.UAdd) else ~x
                    out.append((s, Const(x)))
                except Exception:
                    out.append((s, Raise(exc('TypeError'), site=self.site)))
            else:
                out.append((s, T('unary', Const(type(node.op).__name__), v)))
        return out

    def ev_BinOp(self, node, st, module, fn):
        out = []
        for s, vals in self.evl([node.left, node.right], st, module, fn):
            if isinstance(vals, Raise):
                out.append((s, vals))
            else:
                out.extend(self.binop(node.op, vals[0], vals[1], s))
        return out

    def binop(self, op, a, b, st):
        return self.models.binop(self, op, a, b, st)

    def ev_Compare(self, node, st, module, fn):
        cur = [(st, None, None)]
        operands = [node.left] + list(node.comparators)
        out = []
        for s, vals in self.evl(operands, st, module, fn):
            if isinstance(vals, Raise):
                out.append((s, vals))
                continue
            pend = [(s, TRUE)]
            for i, op in enumerate(node.ops):
                nxt = []
                for s2, acc in pend:
                    if acc is not TRUE:
                        nxt.append((s2, acc))
                        continue
                    rs = self.compare(op, vals[i], vals[i + 1], s2)
                    for s3, r in rs:
                        if len(node.ops) == 1 or isinstance(r, Raise):
                            nxt.append((s3, r))
                        elif i == len(node.ops) - 1:
                            nxt.append((s3, r))
                        else:
                            for s4, b in self.branch(r, s3):
                                nxt.append((s4, TRUE if b else FALSE))
                pend = nxt
            out.extend(pend)
        return out

    def compare(self, op, a, b, st):
        return self.models.compare(self, op, a, b, st)

    def ev_Subscript(self, node, st, module, fn):
        out = []
        for s, o in self.ev(node.value, st, module, fn):
            if isinstance(o, Raise):
                out.append((s, o))
                continue
            for s2, i in self.ev(node.slice, s, module, fn):
                if isinstance(i, Raise):
                    out.append((s2, i))
                else:
                    out.extend(self.models.getitem(self, s2, o, i))
        return out

    def ev_Slice(self, node, st, module, fn):
        parts = [node.lower, node.upper, node.step]
        cur = [(st, [])]
        for p in parts:
            nxt = []
            for s, vals in cur:
                if isinstance(vals, Raise):
                    nxt.append((s, vals))
                elif p is None:
                    nxt.append((s, vals + [NONE]))
                else:
                    for s2, v in self.ev(p, s, module, fn):
                        nxt.append((s2, v if isinstance(v, Raise) else vals + [v]))
            cur = nxt
        return [(s, v if isinstance(v, Raise) else T('slice', *v)) for s, v in cur]

    def ev_JoinedStr(self, node, st, module, fn):
        cur = [(st, [])]
        for p in node.values:
            nxt = []
            for s, parts in cur:
                if isinstance(parts, Raise):
                    nxt.append((s, parts))
                    continue
                if isinstance(p, ast.Constant):
                    nxt.append((s, parts + [Const(p.value)]))
                    continue
                for s2, v in self.ev(p.value, s, module, fn):
                    if isinstance(v, Raise):
                        nxt.append((s2, v))
                        continue
                    own = self.models.own_text(self, v, ('__repr__',) if p.conversion == 114 else ('__str__', '__repr__'), s2) if p.format_spec is None else None
                    if own is not None:
                        nxt += [(s3, t if isinstance(t, Raise) else parts + [t]) for s3, t in own]
                        continue
                    if p.conversion == 114:
                        v = Const(repr(v.v)) if isinstance(v, Const) else T('repr', v)
                    elif p.format_spec is not None:
                        v = T('strm', Const('format'), v)
                    else:
                        v = self.to_str(v, s2)
                    nxt.append((s2, parts + [v]))
            cur = nxt
        return [(s, p if isinstance(p, Raise) else concat(*p)) for s, p in cur]

    def to_str(self, v, st):
        if isinstance(v, Const):
            if isinstance(v.v, str):
                return v
            try:
                return Const(str(v.v))
            except Exception:
                return T('str', v)
        cls, py = self.typeof(v, st)
        if py == (str,):
            return v
        if isinstance(v, T) and v.op == 'excval' and isinstance(v.args[1], TupV) and len(v.args[1].segs) == 1 and isinstance(v.args[0], Ref) and v.args[0].name != 'builtins.KeyError':
            x = v.args[1].segs[0]
            if isinstance(x, Item) and isinstance(x.v, Const):
                return self.to_str(x.v, st)
        return T('str', v)

    def ev_Lambda(self, node, st, module, fn):
        return self.make_func(node, st, module, fn)

    def ev_Starred(self, node, st, module, fn):
        return [(st, unsupported('starred', self.site))]

    def ev_Await(self, node, st, module, fn):
        return [(st, unsupported('await', self.site))]

    def ev_Yield(self, node, st, module, fn):
        out = []
        vs = self.ev(node.value, st, module, fn) if node.value is not None else [(st, NONE)]
        for s, v in vs:
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            if '%with' in s.env:
                out.extend(self.yield_to_block(s, v))
                continue
            y = s.env.get('%yield')
            s = s.clone()
            h = self.h(s, y)
            if not hasattr(h, 'segs'):
                out.append((s, NONE))
                continue
            s.put(y, h.with_segs(h.segs + (Item(v),)))
            out.append((s, NONE))
        return out

    def ev_YieldFrom(self, node, st, module, fn):
        out = []
        for s, v in self.ev(node.value, st, module, fn):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            for s2, segs in self.segments(v, s):
                if isinstance(segs, Raise):
                    out.append((s2, segs))
                    continue
                y = s2.env.get('%yield')
                s2 = s2.clone()
                h = self.h(s2, y)
                s2.put(y, h.with_segs(h.segs + tuple(segs)))
                out.append((s2, NONE))
        return out

    # comprehensions
    def comp(self, node, st, module, fn, heap, emit, early=False):
        st = st.clone()
        saved_env = st.env
        acc = self.alloc(st, heap)

        def gen(i, s):
            """-> [(st, ctl)]"""
            if i == len(node.generators):
                return emit(s, acc)
            g = node.generators[i]
            out = []
            for s1, it in self.ev(g.iter, s, module, fn):
                if isinstance(it, Raise):
                    out.append((s1, it))
                    continue
                for s2, segs in self.segments(it, s1):
                    if isinstance(segs, Raise):
                        out.append((s2, segs))
                        continue

                    def body(x, v, g=g, i=i):
                        r = []
                        for x2, c in self.assign(g.target, v, x, module, fn):
                            if c is not NEXT:
                                r.append((x2, c))
                                continue
                            pend = [x2]
                            for cnd in g.ifs:
                                nx = []
                                for p in pend:
                                    for p2, b in self.cond(cnd, p, module, fn):
                                        if isinstance(b, Raise):
                                            r.append((p2, b))
                                        elif b:
                                            nx.append(p2)
                                        else:
                                            r.append((p2, NEXT))
                                pend = nx
                            for p in pend:
                                r.extend(gen(i + 1, p))
                        return r
                    tn = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                    out.extend(self.loop(segs, body, s2, tn))
            return out
        walrus = {n.target.id for n in ast.walk(node) if isinstance(n, ast.NamedExpr)}
        res = []
        for s, c in gen(0, st):
            s = s.clone()
            env = dict(saved_env)
            for w in walrus:
                if w in s.env:
                    env[w] = s.env[w]
            s.env = env
            if c is NEXT or c is CONTINUE:
                res.append((s, acc))
            else:
                res.append((s, c if isinstance(c, Raise) or early and isinstance(c, tuple) else unsupported('comprehension', self.site)))
        return res

    def ev_ListComp(self, node, st, module, fn):
        def emit(s, acc):
            out = []
            for s2, v in self.ev(node.elt, s, module, fn):
                if isinstance(v, Raise):
                    out.append((s2, v))
                    continue
                s2 = s2.clone()
                h = self.h(s2, acc)
                s2.put(acc, h.with_segs(h.segs + (Item(v),)))
                out.append((s2, NEXT))
            return out
        return self.comp(node, st, module, fn, HList(), emit)

    def ev_SetComp(self, node, st, module, fn):
        return self._setlike(node, st, module, fn)

    def _setlike(self, node, st, module, fn):
        def emit(s, acc):
            out = []
            for s2, v in self.ev(node.elt, s, module, fn):
                if isinstance(v, Raise):
                    out.append((s2, v))
                    continue
                if not self.models.hashable(self, s2, v):
                    out.append((s2, Raise(exc('TypeError'), Const('unhashable'), self.site)))
                    continue
                s2 = s2.clone()
                h = self.h(s2, acc)
                s2.put(acc, h.with_segs(h.segs + (Item(v),)))
                out.append((s2, NEXT))
            return out
        return self.comp(node, st, module, fn, HSet(), emit)

    def ev_GeneratorExp(self, node, st, module, fn):
        out = []
        for s, a in self.ev_ListComp(node, st, module, fn):
            if isinstance(a, Raise):
                out.append((s, a))
            else:
                h = self.h(s, a)
                if isinstance(h, HUnk):
                    out.append((s, T('unknown', Const('generator'))))
                else:
                    out.append((s, IterV(h.segs)))
        return out

    def ev_DictComp(self, node, st, module, fn):
        def emit(s, acc):
            out = []
            for s2, vals in self.evl([node.key, node.value], s, module, fn):
                if isinstance(vals, Raise):
                    out.append((s2, vals))
                    continue
                for s3, r in self.models.setitem(self, s2, acc, vals[0], vals[1]):
                    out.append((s3, r if isinstance(r, Raise) else NEXT))
            return out
        return self.comp(node, st, module, fn, HDict(), emit)

    # ------------------------------------------------------------ iteration
    def segments(self, v, st):
        """The elements of an iterable as segments."""
        if isinstance(v, (TupV, IterV)):
            return [(st, v.segs)]
        if isinstance(v, Const):
            if isinstance(v.v, str):
                return [(st, tuple(Item(Const(c)) for c in v.v))]
            if isinstance(v.v, bytes):
                return [(st, tuple(Item(Const(c)) for c in v.v))]
            if isinstance(v.v, tuple):
                return [(st, tuple(Item(Const(c)) for c in v.v))]
            return [(st, Raise(exc('TypeError'), site=self.site))]
        if isinstance(v, Addr):
            h = self.h(st, v)
            if isinstance(h, (HList, HSet)):
                return [(st, h.segs)]
            if isinstance(h, HIter):
                st = st.clone()
                st.put(v, HIter())
                return [(st, h.segs)]
            if isinstance(h, HDict):
                return [(st, tuple(self.keys_of(s) for s in h.segs))]
            if isinstance(h, HInst):
                row = self.row(h)
                if row is not None:
                    return [(st, row)]
                it, c = self.class_lookup(h.cls, '__iter__')
                if it is not None:
                    out = []
                    for s, r in self.call(BoundV(it, v), [], {}, st):
                        if isinstance(r, Raise):
                            out.append((s, r))
                        elif isinstance(self.hv(s, r), HInst):
                            out.extend(self.drain(r, s))
                        else:
                            out.extend(self.segments(r, s))
                    return out
                return [(st, Raise(exc('TypeError'), site=self.site))]
            if isinstance(h, HObj):
                k = self.kind(v, st)
                return [(st, (Each(T('elems', v), [Alt(frozenset(), (Item(T('elem', v)),))]),))]
            return [(st, (Each(T('elems', v), [Alt(frozenset(), (Item(T('elem', v)),))]),))]
        if isinstance(v, Ref):
            r = resolve(v.name)
            if isinstance(r, (list, tuple, set, frozenset)):
                l = [self.lift(x) for x in r]
                if all(x is not None for x in l):
                    return [(st, tuple(Item(x) for x in l))]
            return [(st, (Each(v, [Alt(frozenset(), (Item(T('elem', v)),))]),))]
        if isinstance(v, T) and v.op == 'instdict':
            return [(st, tuple(Item(Const(n)) for n, _ in self.h(st, v.args[0]).fields))]
        if isinstance(v, T):
            k = self.kind(v, st)
            if k is not None:
                r = k.iterate(self, v, st)
                if r is not None:
                    return r if isinstance(r, list) else [(st, r)]
                if k.py and all(t in (int, float, bool, type(None)) for t in k.py):
                    return [(st, Raise(exc('TypeError'), site=self.site))]
                if k.is_dict():
                    return [(st, (self.dict_each(v, st, 'keys'),))]
            if v.op in self.INT_TERMS:
                return [(st, Raise(exc('TypeError'), site=self.site))]
            return [(st, (Each(v, [Alt(frozenset(), (Item(T('elem', v)),))]),))]
        return [(st, Raise(exc('TypeError'), site=self.site))]

    def drain(self, v, st):
        """Elements of an iterator object of the package."""
        nx, _ = self.class_lookup(self.h(st, v).cls, '__next__')
        if nx is None:
            return [(st, Raise(exc('TypeError'), site=self.site))]
        out = []
        pend = [(st, ())]
        for _ in range(64):
            new = []
            for s, acc in pend:
                for s2, r in self.call(BoundV(nx, v), [], {}, s):
                    if not isinstance(r, Raise):
                        new.append((s2, acc + (Item(r),)))
                    elif r.exc == exc('StopIteration'):
                        out.append((s2, acc))
                    else:
                        out.append((s2, r))
            pend = new
            if not pend:
                return out
        return out + [(s, unsupported('long iteration', self.site)) for s, _ in pend]

    def keys_of(self, s):
        if isinstance(s, Entry):
            return Item(s.k)
        if isinstance(s, Each):
            return Each(s.src, [Alt(a.facts, tuple(self.keys_of(e) for e in a.elems)) for a in s.alts], s.partial)
        return s

    def vals_of(self, s):
        if isinstance(s, Entry):
            return Item(s.v)
        if isinstance(s, Each):
            return Each(s.src, [Alt(a.facts, tuple(self.vals_of(e) for e in a.elems)) for a in s.alts], s.partial)
        return s

    def pairs_of(self, s):
        if isinstance(s, Entry):
            return Item(TupV([Item(s.k), Item(s.v)]))
        if isinstance(s, Each):
            return Each(s.src, [Alt(a.facts, tuple(self.pairs_of(e) for e in a.elems)) for a in s.alts], s.partial)
        return s

    def dict_each(self, v, st, what):
        alts = []
        v = self.origin_term(v)
        for label, key in self.world.partition(v, st):
            f = frozenset([(T('part', v, Const(label)), True)])
            val = T('val', v, Const(label))
            el = {'keys': Item(key), 'values': Item(val), 'items': Item(TupV([Item(key), Item(val)]))}[what]
            alts.append(Alt(f, (el,)))
        return Each(v, alts)

    def origin_term(self, v):
        return v

    # ------------------------------------------------------------ calls
    def ev_Call(self, node, st, module, fn):
        out = []
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and 'super' not in st.env:
            return self.ev_super(node, st, module, fn)
        if isinstance(node.func, ast.Name) and node.func.id == 'locals':
            st = st.clone()
            return [(st, T('locals', Const(fn.qual if fn else '')))]
        for s, f in self.ev(node.func, st, module, fn):
            if isinstance(f, Raise):
                out.append((s, f))
                continue
            if f in self.LAZY and node.args and isinstance(node.args[0], ast.GeneratorExp) and not node.keywords and len(node.args) <= 1 + (f == NEXT_REF):
                out.extend(self.lazily(f, node, s, module, fn))
                continue
            for s2, args in self.evl(node.args, s, module, fn):
                if isinstance(args, Raise):
                    out.append((s2, args))
                    continue
                for s3, kv in self.evl([k.value for k in node.keywords], s2, module, fn):
                    if isinstance(kv, Raise):
                        out.append((s3, kv))
                        continue
                    kw = {}
                    dstar = []
                    for k, v in zip(node.keywords, kv):
                        if k.arg is None:
                            dstar.append(v)
                        else:
                            kw[k.arg] = v
                    for d in dstar:
                        h = self.hv(s3, d)
                        if isinstance(h, HDict) and all(isinstance(e, Entry) and isinstance(e.k, Const) for e in h.segs):
                            for e in h.segs:
                                kw[e.k.v] = e.v
                        elif isinstance(h, HDict) and not h.segs:
                            pass
                        else:
                            kw['**'] = d
                    # flatten stars with known items
                    flat = []
                    for a in args:
                        if isinstance(a, Star):
                            v = a.v
                            h = self.hv(s3, v)
                            segs = v.segs if isinstance(v, (TupV, IterV)) else h.segs if isinstance(h, (HList, HSet)) else None
                            if segs is not None and all(isinstance(x, Item) for x in segs):
                                flat.extend(x.v for x in segs)
                                continue
                            if segs is not None:
                                flat.append(Star(TupV(segs)))
                                continue
                        flat.append(a)
                    line = node.lineno
                    self.site = Site(self.prog.modules[module].rel, fn.qual if fn else '<module>', line)
                    saved = self.site
                    out.extend(self.call(f, flat, kw, s3))
                    self.site = saved
        return out

    LAZY = (Ref('builtins.any'), Ref('builtins.all'), NEXT_REF)

    def lazily(self, f, node, st, module, fn):
        """any, all and next stop a generator at the first decisive element."""
        g = node.args[0]

        def emit(s, acc):
            out = []
            for s2, v in self.ev(g.elt, s, module, fn):
                if isinstance(v, Raise):
                    out.append((s2, v))
                elif f == NEXT_REF:
                    out.append((s2, ('return', v)))
                else:
                    stop = f == self.LAZY[0]
                    for s3, b in self.branch(v, s2):
                        out.append((s3, ('return', const(stop)) if b == stop else NEXT))
            return out
        out = []
        for s, v in self.comp(g, st, module, fn, HList(), emit, True):
            if isinstance(v, Raise):
                out.append((s, v))
            elif isinstance(v, tuple):
                out.append((s, v[1]))
            elif f != NEXT_REF:
                out.append((s, const(f != self.LAZY[0])))
            elif len(node.args) > 1:
                out.extend(self.ev(node.args[1], s, module, fn))
            else:
                out.append((s, Raise(exc('StopIteration'), site=self.site)))
        return out

    def ev_super(self, node, st, module, fn):
        if node.args:
            out = []
            for s, vals in self.evl(node.args, st, module, fn):
                out.append((s, vals if isinstance(vals, Raise) else SuperV(vals[0], vals[1])))
            return out
        first = fn.node.args.args[0].arg
        return [(st, SuperV(ClsV(fn.cls), self.lookup(first, st, module, fn)))]

    def call(self, f, args, kw, st):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Limit('step limit')
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self] + list(args), kw, st)
        if isinstance(f, PartialV):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.f, list(f.args) + list(args), k, st)
        if isinstance(f, FuncV):
            kn = self.knots.get(f.fn)
            if kn is not None:
                r = kn(self, f, args, kw, st)
                if r is not None:
                    return r
            return self.call_func(f, args, kw, st)
        if isinstance(f, ClsV):
            return self.instantiate(f, args, kw, st)
        if isinstance(f, T) and f.op == 'ctxmgr' and isinstance(f.args[0], FuncV) and not any(isinstance(a, Star) for a in args) and '**' not in kw:
            return [(st, T('ctxgen', f.args[0], TupV([Item(a) for a in args]), TupV([T('b', Const(k), x) for k, x in kw.items()])))]
        if isinstance(f, T) and f.op in ('decorated', 'ctxmgr'):
            st = st.clone()
            st.event(Op('unmodelled', f.args[0], site=self.site))
            return [(st, T('call', f, *[a for a in args if not isinstance(a, Star)]))]
        r = self.world.call(self, f, args, kw, st)
        if r is not None:
            return r
        if isinstance(f, Ref):
            hk = self.hooks.get(f.name)
            if hk is None:
                x = resolve(f.name)
                if x is not _missing and getattr(x, '__module__', None) and hasattr(x, '__qualname__'):
                    hk = self.hooks.get(f'{x.__module__}.{x.__qualname__}')
            if hk is not None:
                return hk(self, args, kw, st)
            return self.models.call_ref(self, f, args, kw, st)
        if isinstance(f, MethV):
            return self.models.call_method(self, f.obj, f.name, args, kw, st)
        if isinstance(f, Addr):
            h = self.h(st, f)
            if isinstance(h, HInst):
                c, _ = self.class_lookup(h.cls, '__call__')
                if c is not None:
                    return self.call(BoundV(c, f), args, kw, st)
            return [(st, Raise(exc('TypeError'), site=self.site))]
        if isinstance(f, Const):
            return [(st, Raise(exc('TypeError'), site=self.site))]
        if isinstance(f, T):
            return self.models.call_term(self, f, args, kw, st)
        return [(st, unsupported(f'call of {f}', self.site))]

    def instantiate(self, cls, args, kw, st):
        info = cls.info
        init, c = self.class_lookup(cls, '__init__')
        new, c2 = self.class_lookup(cls, '__new__')
        # exceptions of the package
        for b in self.mro(cls):
            if isinstance(b, Ref):
                r = resolve(b.name)
                if isinstance(r, type) and issubclass(r, BaseException):
                    return [(st, T('excval', cls, TupV([Item(a) for a in args if not isinstance(a, Star)])))]
        st = st.clone()
        a = self.alloc(st, HInst(cls))
        if init is None:
            if any(isinstance(c, ClsV) and c.info.fields is not None for c in self.mro(cls)):
                return self.fill_fields(cls, a, args, kw, st)
            if any(isinstance(b, Ref) and isinstance(resolve(b.name), type) and issubclass(resolve(b.name), enum.Enum) for b in self.mro(cls)):
                return [(st, unsupported('enumeration lookup', self.site))]
            return [(st, a)]
        out = []
        for s, r in self.call(BoundV(init, a), args, kw, st):
            out.append((s, r if isinstance(r, Raise) else a))
        return out

    def field_names(self, cls):
        names = []
        for c in reversed(self.mro(cls)):
            if isinstance(c, ClsV):
                names += [n for n in c.info.fields or () if n not in names]
        return names

    def fill_fields(self, cls, a, args, kw, st):
        names = self.field_names(cls)
        if any(isinstance(x, Star) for x in args) or '**' in kw:
            return [(st, unsupported('data class call', self.site))]
        if len(args) > len(names) or set(kw) - set(names) or set(kw) & set(names[:len(args)]):
            return [(st, Raise(exc('TypeError'), site=self.site))]
        vals = dict(zip(names, args))
        vals.update(kw)
        cur = [st]
        for n in names:
            nxt = []
            for s in cur:
                v = vals.get(n)
                if v is None:
                    v, _ = self.class_lookup(cls, n)
                    if v is None:
                        return [(st, Raise(exc('TypeError'), site=self.site))]
                    if isinstance(v, T) and v.op in ('call', 'new') and v.args[0] == Ref('dataclasses.field'):
                        k = {x.args[0].v: x.args[1] for x in v.args[1:] if isinstance(x, T) and x.op == 'kw'}
                        if 'default' in k:
                            v = k['default']
                        elif 'default_factory' in k:
                            r = self.call(k['default_factory'], [], {}, s)
                            if len(r) != 1 or isinstance(r[0][1], Raise):
                                return [(st, unsupported('default factory', self.site))]
                            s, v = r[0]
                        else:
                            return [(st, unsupported('data class field', self.site))]
                s = s.clone()
                s.put(a, self.h(s, a).set(n, v))
                nxt.append(s)
            cur = nxt
        post, _ = self.class_lookup(cls, '__post_init__')
        if post is None:
            return [(s, a) for s in cur]
        out = []
        for s in cur:
            out.extend((s2, r if isinstance(r, Raise) else a) for s2, r in self.call(BoundV(post, a), [], {}, s))
        return out

    def row(self, h):
        """The values of a named tuple of the package, or None."""
        if isinstance(h, HInst) and any(isinstance(c, ClsV) and c.info.row for c in self.mro(h.cls)):
            return tuple(Item(h.get(n)) for n in self.field_names(h.cls))
        return None

    def bind(self, f, args, kw, st):
        """Bind arguments -> (env, None) or (None, Raise)."""
        node = f.fn.node
        a = node.args
        clo = self.clo.get(f.clo, {})
        dv = clo.get('%defaults')
        defaults = [s.v for s in dv.segs] if dv is not None else []
        pos = a.posonlyargs + a.args
        env = {}
        if f.clo is not None and f.clo[0] != 'static':
            env['%clo'] = f.clo
        kw = dict(kw)
        dstar = kw.pop('**', None)
        i = 0
        extra = []
        pending_star = None
        for v in args:
            if isinstance(v, Star):
                pending_star = v
                if isinstance(v.v, TupV):
                    extra.append(v)
                    continue
                extra.append(v)
                continue
            if i < len(pos) and pending_star is None:
                env[pos[i].arg] = v
                i += 1
            else:
                extra.append(v)
        if extra:
            if a.vararg is None:
                if pending_star is None:
                    return None, Raise(exc('TypeError'), Const('too many arguments'), self.site)
                # unknown number of arguments spread over parameters
                k = 0
                while i < len(pos):
                    if pos[i].arg not in kw:
                        env[pos[i].arg] = T('index', pending_star.v, Const(k))
                    k += 1
                    i += 1
            else:
                segs = []
                for e in extra:
                    if isinstance(e, Star):
                        if isinstance(e.v, TupV):
                            segs.extend(e.v.segs)
                        else:
                            for s, sg in self.segments(e.v, st):
                                segs.extend(sg if not isinstance(sg, Raise) else ())
                                break
                    else:
                        segs.append(Item(e))
                env[a.vararg.arg] = TupV(segs)
        elif a.vararg is not None:
            env[a.vararg.arg] = TupV(())
        rest = {}
        names = {p.arg for p in pos} | {p.arg for p in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                if a.posonlyargs and any(p.arg == k for p in a.posonlyargs):
                    if a.kwarg is None:
                        return None, Raise(exc('TypeError'), Const(f'positional-only argument {k}'), self.site)
                    rest[k] = v
                    continue
                if k in env:
                    return None, Raise(exc('TypeError'), Const(f'multiple values for {k}'), self.site)
                env[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                return None, Raise(exc('TypeError'), Const(f'unexpected keyword {k}'), self.site)
        nd = len(a.defaults)
        for j, p in enumerate(pos):
            if p.arg not in env:
                d = j - (len(pos) - nd)
                if d >= 0:
                    env[p.arg] = defaults[d]
                elif dstar is not None:
                    env[p.arg] = T('kwarg', dstar, Const(p.arg))
                else:
                    return None, Raise(exc('TypeError'), Const(f'missing argument {p.arg}'), self.site)
        dk = nd
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                if p.arg not in env:
                    env[p.arg] = defaults[dk]
                dk += 1
            elif p.arg not in env:
                return None, Raise(exc('TypeError'), Const(f'missing argument {p.arg}'), self.site)
        if a.kwarg is not None:
            env['%kwargs'] = (a.kwarg.arg, rest, dstar)
        return env, None

    def call_func(self, f, args, kw, st):
        fn = f.fn
        env, r = self.bind(f, args, kw, st)
        if r is not None:
            return [(st, r)]
        if len(self.func_stack) > self.MAX_DEPTH:
            st = st.clone()
            st.event(Op('deep', Const(fn.qual), site=self.site))
            return [(st, unsupported('call depth', self.site))]
        saved = st.env
        st = st.clone()
        kwi = env.pop('%kwargs', None)
        if kwi is not None:
            nm, rest, dstar = kwi
            d = self.alloc(st, HDict([Entry(Const(k), v) for k, v in rest.items()]))
            if dstar is not None:
                h = self.h(st, d)
                st.put(d, h.with_segs(h.segs + (Prior('kwargs'),)))
            env[nm] = d
        for n in fn.cells:
            v = env.pop(n, None)
            env['%cell:' + n] = self.alloc(st, HInst(Ref('cell'), () if v is None else (('v', v),)))
        st.env = env
        site = self.site
        self.func_stack.append(fn)
        self.calls_seen.add(fn.qual)
        try:
            if fn.is_lambda:
                outs = [(s, v) for s, v in self.ev(fn.node.body, st, fn.module, fn)]
                res = outs
            elif fn.is_generator:
                y = self.alloc(st, HList())
                st.setvar('%yield', y)
                res = []
                for s, c in self.block(fn.node.body, st, fn.module, fn):
                    if isinstance(c, Raise):
                        res.append((s, c))
                        continue
                    h = self.h(s, y)
                    res.append((s, IterV(h.segs) if isinstance(h, HList) else T('unknown', Const('generator'))))
            else:
                res = []
                for s, c in self.block(fn.node.body, st, fn.module, fn):
                    if c is NEXT:
                        res.append((s, NONE))
                    elif isinstance(c, tuple):
                        res.append((s, c[1]))
                    else:
                        res.append((s, c))
        finally:
            self.func_stack.pop()
        self.site = site
        out = []
        for s, v in res:
            s = s.clone()
            s.env = saved
            out.append((s, v))
        return self.merge_v(out)

    def merge_v(self, out):
        if len(out) < 2:
            return out
        return self.merge(out)


def TupV_exc(r):
    return T('excinfo', r.exc if isinstance(r.exc, V) else Const(str(r.exc)), r.val if isinstance(r.val, V) else NONE)
