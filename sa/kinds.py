"""What is assumed about the objects a caller hands to the library."""

from .interp import OBJECT_REF, concat, exc, iattr, ref_of_type, resolve, World, _missing
from .values import (
    FALSE, NONE, TRUE, Addr, Alt, ClsV, Const, Each, Entry, HDict, HList, HObj, HSet,
    Item, IterV, MethV, Op, Raise, Ref, T, TupV, const,
)

# attribute names that no scenario object has unless it says so
LACKS = {
    'append', 'add', 'default_factory', '_fields', '_jsonpickle_exclude', 'isoformat',
    'tostring', '_', 'extend', 'update', 'items', 'keys', 'values', 'send', 'throw',
    'next', 'iteritems',
}


class Kind:
    py = ()
    own = {}
    exact = False
    maybe_ref = False
    is_class = False
    exc_base = None
    callable = None
    opaque = False
    name = 'value'

    def cls_of(self, v):
        return T('cls', v)

    def truth(self, v):
        return None

    def eq_const(self, t, c):
        return None

    def abc(self, r):
        return None

    def third(self, c):
        return False

    def overlaps(self, k):
        return False

    def attr(self, it, o, name, st):
        return None

    def cls_attr(self, it, o, name, st):
        return None

    def knows(self, n):
        return False

    def knows_cls(self, n):
        return False

    def iterate(self, it, v, st):
        return None

    def is_dict(self):
        return any(issubclass(t, dict) for t in self.py or ())

    def index(self, it, o, i, st):
        return None

    def setitem(self, it, o, k, v, st):
        return None

    def contains(self, it, o, x, st):
        return None

    def length(self, it, o, st):
        return None

    def construct(self, it, cls, args, kw, st):
        return None

    def call(self, it, f, args, kw, st):
        return None

    def new(self, it, cls, args, kw, st):
        return None

    def cls_method(self, it, cls, name, args, kw, st):
        return None

    def obj_method(self, it, o, name, args, kw, st):
        return None

    def method(self, it, o, name, args, kw, st):
        return None

    def entries(self, it, o, st):
        return None

    def startswith(self, t, p):
        return None

    def __repr__(self):
        return self.name


FUNCTION_LIKE = tuple(
    t for n in ('FunctionType', 'MethodType', 'LambdaType', 'BuiltinFunctionType',
                'BuiltinMethodType', 'ModuleType')
    for t in [resolve('types.' + n)])


class Datum(Kind):
    """Any value that is itself handled by the recursion (induction)."""

    py = None
    maybe_ref = True
    opaque = True
    name = 'datum'

    def cls_of(self, v):
        return T('typeof', v)

    def abc(self, r):
        if r in FUNCTION_LIKE:
            return False
        return None

    def overlaps(self, k):
        return True


class Scalar(Kind):
    exact = True

    def __init__(self, t, name=None):
        self.t = t
        self.py = (t,)
        self.name = name or t.__name__

    def cls_of(self, v):
        return ref_of_type(self.t)

    def attr(self, it, o, name, st):
        if iattr(self.t, name):
            return MethV(o, name)
        return AttributeError

    def knows(self, n):
        return iattr(self.t, n)

    def overlaps(self, k):
        return k.py == self.py or k.opaque


class Str(Scalar):
    def __init__(self, name='str', ident=False, truth=None):
        super().__init__(str, name)
        self.ident = ident
        self._truth = truth

    def truth(self, v):
        return self._truth

    def eq_const(self, t, c):
        if not isinstance(c.v, str):
            return False
        if self.ident and (c.v.startswith(('py/', 'json://', '__')) or c.v in ('default_factory',)):
            return False
        if self.ident and c.v == '':
            return None
        return None

    def startswith(self, t, p):
        if self.ident and isinstance(p, Const) and isinstance(p.v, str):
            if p.v.startswith(('py/', 'json://', '__')):
                return False
        return None


class Name(Str):
    """A module, class or attribute name of user code: never a name the library
    mentions."""

    def __init__(self):
        super().__init__('name', True, True)

    def eq_const(self, t, c):
        return False

    def startswith(self, t, p):
        return False if isinstance(p, Const) else None


class Seq(Kind):
    """An exact list/tuple/set/frozenset; elements unknown or given."""

    exact = True

    def __init__(self, t, elems=None, nonempty=None, distinct=False):
        self.t = t
        self.py = (t,)
        self.name = t.__name__
        self.elems = elems
        self._truth = nonempty if elems is None else bool(elems)
        self.distinct = distinct

    def cls_of(self, v):
        return ref_of_type(self.t)

    def truth(self, v):
        return self._truth

    def attr(self, it, o, name, st):
        return MethV(o, name) if iattr(self.t, name) else AttributeError

    def knows(self, n):
        return iattr(self.t, n)

    def segs(self, v):
        if self.elems is not None:
            return tuple(Item(e) for e in self.elems)
        return (Each(v, [Alt(frozenset(), (Item(T('elem', v)),))]),)

    def iterate(self, it, v, st):
        return [(st, self.segs(v))]

    def length(self, it, o, st):
        return Const(len(self.elems)) if self.elems is not None else None

    def index(self, it, o, i, st):
        if self.elems is None:
            return None
        return it.models.getitem(it, st, TupV(self.segs(o)), i) if not (isinstance(i, T) and i.op == 'slice') else None

    def contains(self, it, o, x, st):
        if self.elems is None:
            return None
        r = it.models.member(it, st, x, self.segs(o))
        return r


class DictK(Kind):
    """An exact dict; entries unknown (world partition) or given."""

    exact = True
    py = (dict,)

    def __init__(self, entries=None, name='dict'):
        self._entries = entries
        self.name = name

    def cls_of(self, v):
        return Ref('builtins.dict')

    def truth(self, v):
        return bool(self._entries) if self._entries is not None else None

    def attr(self, it, o, name, st):
        return MethV(o, name) if iattr(dict, name) else AttributeError

    def knows(self, n):
        return iattr(dict, n)

    def entries(self, it, o, st):
        if self._entries is None:
            return None
        return tuple(Entry(k, v) for k, v in self._entries)

    def iterate(self, it, v, st):
        if self._entries is None:
            return None
        return [(st, tuple(Item(k) for k, _ in self._entries))]

    def length(self, it, o, st):
        return Const(len(self._entries)) if self._entries is not None else None

    def index(self, it, o, i, st):
        if self._entries is None:
            return None
        out = []
        for s, v in it.models.lookup(it, st, self.entries(it, o, st), i):
            out.append((s, Raise(exc('KeyError'), i, it.site) if v is None else v))
        return out

    def contains(self, it, o, x, st):
        if self._entries is None:
            return None
        return it.models.member(it, st, x, self.entries(it, o, st))


class FreshDict(DictK):
    """The attribute dictionary of an instance that was just created."""

    name = 'fresh __dict__'

    def __init__(self, made=()):
        super().__init__(list(made))

    def truth(self, v):
        return True if self._entries else None


class ClsDict(Kind):
    """vars(cls) of a scenario class."""

    py = (resolve('types.MappingProxyType'),)
    exact = True
    name = 'class dict'

    def __init__(self, k, cls):
        self.k = k
        self.cls = cls

    def cls_of(self, v):
        return Ref('types.MappingProxyType')

    def truth(self, v):
        return True

    def names(self):
        n = set(self.k.own) | {'__module__', '__doc__'}
        if self.k.slots is not None:
            n.add('__slots__')
            n |= set(self.k.slots)
        if self.k.has_dict and not any(hasattr(t, '__dict__') for t in ()):
            n.add('__dict__')
        return n | set(self.k.cls_attrs) - set(self.k.from_base)

    def contains(self, it, o, x, st):
        if isinstance(x, Const):
            return x.v in self.names()
        return None

    def attr(self, it, o, name, st):
        return MethV(o, name) if iattr(dict, name) else AttributeError

    def method(self, it, o, name, args, kw, st):
        if name == 'get' and isinstance(args[0], Const):
            d = args[1] if len(args) > 1 else NONE
            n = args[0].v
            if n in self.k.own:
                return [(st, T('userfunc', self.cls, Const(n)))]
            if n in self.names():
                return it.getattr_(self.cls, n, st)
            return [(st, d)]
        return None

    def index(self, it, o, i, st):
        if isinstance(i, Const):
            if i.v in self.names():
                return it.getattr_(self.cls, i.v, st)
            return [(st, Raise(exc('KeyError'), i, it.site))]
        return None


class Inst(Kind):
    """An instance of a class defined by the user."""

    def __init__(self, py=(), own=(), has_dict=True, slots=None, attrs=None, dict_entries=None,
                 parents=(), cls_attrs=None, elems=None, entries=None, frozen=False, truth=None,
                 lacks=(), name='instance', exc_base=None, factory=None, hooks=None, nested=0,
                 dotted=0, set_raises=None, callable_=False, slots_str=False, elem_src=None, bases=None, listed=False, props=None,
                 from_base=()):
        self.py = tuple(py) or (object,)
        self.from_base = from_base
        self.inherited = {}
        self.bases = bases
        self.own = dict.fromkeys(own) if not isinstance(own, dict) else dict(own)
        self.has_dict = has_dict
        self.slots = slots
        self.attrs = attrs or {}
        self.dict_entries = dict_entries
        self.parents = parents
        self.cls_attrs = cls_attrs or {}
        self.elems = elems
        self._entries = entries
        self.frozen = frozen
        self._truth = truth
        self.lacks = set(LACKS) | set(lacks)
        for t in self.py:
            self.lacks -= set(dir(t))
        self.lacks -= set(self.attrs) | set(self.own) | set(self.cls_attrs)
        self.name = name
        self.exc_base = exc_base
        self.nested = nested
        self.dotted = dotted
        self.set_raises = set_raises
        self.slots_str = slots_str
        self.elem_src = elem_src
        self.callable = callable_
        self.listed = listed
        self.props = props or {}
        self.attrs = {**self.attrs, **self.props}

    def names(self, it, st, instance):
        """What dir() gives, for classes whose members are all known."""
        if not self.listed:
            return None
        out = set(self.slots or ()) | set(self.methods) | set(self.cls_attrs) | set(self.props)
        for t in self.py:
            out |= set(dir(t))
        for p in self.parents:
            k = it.world.kind(p, st)
            if k is not None:
                out |= set(k.slots or ()) | set(k.own) | set(k.cls_attrs) | set(k.props)
        if instance:
            out |= set(self.attrs) | {k.v for k, _ in self.dict_entries or () if isinstance(k, Const)}
        return sorted(out)

    def truth(self, v):
        if self._truth is None and not any(iattr(t, '__len__') or iattr(t, '__bool__') for t in self.py) and not {'__len__', '__bool__'} & set(self.methods):
            return True
        return self._truth

    def eq_const(self, t, c):
        return False if c.v is None or isinstance(c.v, (bool, str)) else None

    def abc(self, r):
        # structural ABCs see user methods
        n = getattr(r, '__name__', '')
        if getattr(r, '__module__', '') == 'collections.abc':
            need = {'Iterator': {'__iter__', '__next__'}, 'Iterable': {'__iter__'}, 'Callable': {'__call__'},
                    'Hashable': set()}.get(n)
            if need is not None and need and need <= (set(self.methods) | {a for t in self.py for a in dir(t)}):
                return True
        return None

    def attr(self, it, o, name, st):
        if name == '__dict__':
            return T('attr', o, Const('__dict__')) if self.has_dict else AttributeError
        if name in self.attrs:
            a = self.attrs[name]
            if callable(a):
                return a(it, o, st)
            if isinstance(o, T) or a is None:
                return a
        if name in self.methods:
            r = self.methods[name]
            if isinstance(r, tuple) and r[0] == 'property':
                return T('attr', o, Const(name))
            return MethV(o, name)
        if name in ('__module__', '__slots__', '__doc__', '__qualname__', '__name__', '__mro__', 'mro') or name in self.cls_attrs:
            if name in ('__name__', '__qualname__', '__mro__', 'mro'):
                return AttributeError
            return self.cls_attr(it, T('cls', it.origin(o, st)), name, st)
        for p in self.parents:
            k = it.world.kind(p, st)
            if k is not None and name in k.own:
                return MethV(o, name)
        if name in self.lacks:
            return AttributeError
        for t in self.py:
            if iattr(t, name):
                return MethV(o, name)
        if name.startswith('__') and name.endswith('__'):
            return AttributeError
        return None

    @property
    def methods(self):
        return {**self.inherited, **self.own} if self.inherited else self.own

    def knows(self, n):
        return n in self.methods or n in self.attrs or n in self.cls_attrs or any(iattr(t, n) for t in self.py) or n == '__dict__'

    knows_cls = knows

    def cls_attr(self, it, o, name, st):
        x = o.args[0]
        if name == '__name__':
            return T('clsname', x)
        if name == '__qualname__':
            q = [T('outer', x, Const(i)) for i in range(self.nested)]
            parts = []
            for i in q:
                parts += [i, Const('.')]
            return concat(*parts, T('clsname', x))
        if name == '__module__':
            parts = [T('modname', x)]
            for i in range(self.dotted):
                parts += [Const('.'), T('submod', x, Const(i))]
            return concat(*parts)
        if name == '__mro__':
            mro = [o]
            for p in self.parents:
                mro.append(T('cls', p))
            for t in self.py:
                for c in t.__mro__:
                    r = ref_of_type(c)
                    if r not in mro and c is not object:
                        mro.append(r)
            mro.append(OBJECT_REF)
            return TupV([Item(m) for m in mro])
        if name == 'mro':
            return MethV(o, 'mro')
        if name == '__dict__':
            return T('attr', o, Const('__dict__'))
        if name == '__class__':
            return Ref('builtins.type')
        if name == '__bases__':
            return TupV([Item(T('cls', p)) for p in (self.bases or self.parents[:1])] or [Item(ref_of_type(t)) for t in self.py])
        if name == '__slots__':
            if self.slots_str:
                return Const(self.slots[0])
            if self.slots is not None:
                return TupV([Item(Const(s)) for s in self.slots])
            for p in self.parents:
                k = it.world.kind(p, st)
                if k is not None and k.slots is not None:
                    return TupV([Item(Const(s)) for s in k.slots])
            return AttributeError
        if name in self.cls_attrs:
            return self.cls_attrs[name]
        if self.slots is not None and name in self.slots:
            return T('descr', o, Const(name))
        if name in self.own:
            return T('userfunc', o, Const(name))
        for p in self.parents:
            k = it.world.kind(p, st)
            if k is not None and name in k.own:
                return T('userfunc', T('cls', p), Const(name))
        if name == '__doc__':
            return T('attr', o, Const('__doc__'))
        if name in self.lacks:
            return AttributeError
        for t in self.py:
            if iattr(t, name):
                if name == '__new__':
                    return MethV(o, name)
                d = next(c for c in t.__mro__ if name in c.__dict__) if any(name in c.__dict__ for c in t.__mro__) else t
                return Ref(f'{ref_of_type(d).name}.{name}')
        if hasattr(type, name) and name not in ('__call__',):
            return Ref(f'builtins.type.{name}')
        if name.startswith('__') and name.endswith('__'):
            return AttributeError
        return None

    def elem_segs(self, v):
        if self.elems is not None:
            return tuple(Item(e) for e in self.elems)
        v = self.elem_src or v
        return (Each(v, [Alt(frozenset(), (Item(T('elem', v)),))]),)

    def iterate(self, it, v, st):
        if self.is_dict():
            if self._entries is not None:
                return [(st, tuple(Item(k) for k, _ in self._entries))]
            return None
        if any(iattr(t, '__iter__') for t in self.py) or '__iter__' in self.methods or '__getitem__' in self.methods:
            return [(st, self.elem_segs(v))]
        return [(st, Raise(exc('TypeError'), site=it.site))]

    def entries(self, it, o, st):
        if self._entries is None:
            return None
        return tuple(Entry(k, v) for k, v in self._entries)

    def length(self, it, o, st):
        if self.elems is not None:
            return Const(len(self.elems))
        if self._entries is not None:
            return Const(len(self._entries))
        return None

    def index(self, it, o, i, st):
        if self._entries is not None:
            return DictK.index(self, it, o, i, st)
        if self.elems is not None:
            return it.models.getitem(it, st, TupV(self.elem_segs(o)), i)
        return None

    def contains(self, it, o, x, st):
        if self._entries is not None:
            return it.models.member(it, st, x, self.entries(it, o, st))
        return None

    def method(self, it, o, name, args, kw, st):
        f = self.methods.get(name)
        if callable(f):
            return f(it, o, args, kw, st)
        if name in self.methods:
            st = st.clone()
            st.event(Op('usercall', MethV(o, name), *args, site=it.site))
            if f is not None:
                return [(st, f)]
            return [(st, T('call', MethV(o, name), *args))]
        return None

    def obj_method(self, it, o, name, args, kw, st):
        f = self.methods.get(name)
        if callable(f):
            return f(it, o, args, kw, st)
        return None


class Exact(Inst):
    """An instance of a concrete library class (e.g. datetime.datetime)."""

    exact = True

    def __init__(self, t, **kw):
        self.t = t
        super().__init__(py=(t,), has_dict=kw.pop('has_dict', False), name=kw.pop('name', t.__name__), **kw)
        self.lacks -= set(dir(t))

    def cls_of(self, v):
        return ref_of_type(self.t)

    def truth(self, v):
        return self._truth if self._truth is not None else (None if iattr(self.t, '__len__') or iattr(self.t, '__bool__') else True)

    def attr(self, it, o, name, st):
        if name == '__module__':
            return Const(self.t.__module__)
        if name in self.attrs:
            return self.attrs[name]
        if not iattr(self.t, name):
            return AttributeError
        d = getattr(self.t, name)
        if name == '__slots__':
            return TupV([Item(Const(n)) for n in ((d,) if isinstance(d, str) else d)])
        if name in self.own or callable(d):
            return MethV(o, name)
        return T('attr', o, Const(name))


class Third(Kind):
    """An instance of a third-party class known only by name."""

    def __init__(self, cls, name=None, truth=True, attrs=None, subclass_of=()):
        self.ref = cls
        self.name = name or cls.name
        self.py = ()
        self._truth = truth
        self.attrs = attrs or {}
        self.sub = set(subclass_of) | {cls.name}

    def cls_of(self, v):
        return self.ref

    def truth(self, v):
        return self._truth

    def third(self, c):
        return c.name in self.sub

    def abc(self, r):
        return False

    def attr(self, it, o, name, st):
        if name in self.attrs:
            a = self.attrs[name]
            return a(it, o, st) if callable(a) else a
        if name.startswith('__') and name.endswith('__') and not iattr(object, name):
            return AttributeError
        return None

    def knows(self, n):
        return True


class ClassK(Kind):
    """A class object handed in as data (T('cls', x))."""

    py = (type,)
    callable = True
    name = 'class'


class Opaque(Kind):
    """A service object such as the json backend."""

    py = (object,)
    callable = False

    def __init__(self, name, attrs=()):
        self.name = name
        self._attrs = set(attrs)

    def cls_of(self, v):
        return T('clsof', v)

    def truth(self, v):
        return True

    def eq_const(self, t, c):
        return False

    def attr(self, it, o, name, st):
        if name in self._attrs:
            return MethV(o, name)
        return AttributeError

    def knows(self, n):
        return True


class FuncK(Kind):
    """A function or method given by the user."""

    callable = True

    def __init__(self, t, module=None, qual=None, name='function', attrs=None):
        self.t = t
        self.py = (t,)
        self.name = name
        self.attrs = attrs or {}

    def cls_of(self, v):
        return ref_of_type(self.t)

    def truth(self, v):
        return True

    def eq_const(self, t, c):
        return False

    def attr(self, it, o, name, st):
        if name in self.attrs:
            return self.attrs[name]
        if name == '__name__':
            return T('clsname', o)
        if name == '__qualname__':
            return T('clsname', o)
        if name == '__module__':
            return T('modname', o)
        if iattr(self.t, name):
            return T('attr', o, Const(name))
        return AttributeError

    def knows(self, n):
        return iattr(self.t, n)


class ModK(Kind):
    py = (resolve('types.ModuleType'),)
    name = 'module'
    exact = True

    def __init__(self, dotted=0):
        self.dotted = dotted

    def cls_of(self, v):
        return ref_of_type(self.py[0])

    def truth(self, v):
        return True

    def eq_const(self, t, c):
        return False

    def attr(self, it, o, name, st):
        if name == '__name__':
            return concat(T('modname', o), *[y for i in range(self.dotted) for y in (Const('.'), T('submod', o, Const(i)))])
        if name == '__dict__':
            return T('attr', o, Const('__dict__'))
        if iattr(self.py[0], name):
            return T('attr', o, Const(name))
        if name in LACKS or name.startswith('__') and name.endswith('__'):
            return AttributeError
        return None

    def knows(self, n):
        return iattr(self.py[0], n)


NAME = Name()
IDENT = Str('attribute name', True, None)
DATUM = Datum()
INT = Scalar(int)
STR = Str()


class W(World):
    """World of one scenario."""

    def __init__(self, kinds=None, parts=None, opts=None):
        self.kinds = dict(kinds or {})
        self.parts = parts or {}
        self.backend = T('arg', Const('backend'))
        self.kinds.setdefault(self.backend, Opaque('backend', ('encode', 'decode')))
        self.importable = None
        self.rules = []

    def kind(self, t, st):
        k = self.kinds.get(t)
        if k is not None:
            return k
        if not isinstance(t, T):
            return None
        if t.op in ('modname', 'clsname', 'outer', 'submod'):
            return NAME
        if t.op == 'key':
            return IDENT
        if t.op == 'mname':
            return IDENT
        if t.op in ('val', 'elem', 'nkey', 'datum'):
            return DATUM
        if t.op == 'attr' and t.args[1] == Const('__dict__'):
            o = t.args[0]
            if isinstance(o, Addr):
                h = st.heap.get(o)
                c = getattr(h, 'cls', None)
                k = self.kind(c.args[0], st) if isinstance(c, T) and c.op == 'cls' else None
                return FreshDict(getattr(k, 'made', ()))
            if isinstance(o, T) and o.op == 'cls':
                k = self.kind(o.args[0], st)
                if k is not None:
                    return ClsDict(k, o)
            k = self.kind(o, st)
            if isinstance(k, Inst):
                return DictK(k.dict_entries, '__dict__')
            return DictK(None, '__dict__')
        if t.op == 'cls':
            k = self.kind(t.args[0], st)
            if k is not None:
                return _ClsKind(k)
        if t.op in ('module', 'topmodule'):
            return None
        return None

    def oracle(self, atom, st):
        for r in self.rules:
            v = r(atom, st)
            if v is not None:
                return v
        op = atom.op
        if op == 'eq' or op == 'is':
            a, b = atom.args
            for x, y in ((a, b), (b, a)):
                if isinstance(y, Const):
                    if isinstance(x, T) and x.op == 'concat' and any(isinstance(p, T) and p.op in ('modname', 'clsname', 'submod', 'outer') for p in x.args):
                        return False
                if isinstance(x, T) and isinstance(y, T):
                    if x.op == 'concat' or y.op == 'concat':
                        if has_name(x) and has_name(y) and x != y:
                            return False
                    if {x.op, y.op} == {'concat', 'key'}:
                        return False
                    # an object is not equal to its own attribute dictionary
                    if y == T('attr', x, Const('__dict__')):
                        return False
                    if x.op == 'cls' and y.op in ('concat', 'modname', 'clsname'):
                        return False
                    if x.op == 'cls' and y.op == 'cls' and op in ('is', 'eq'):
                        return x == y
                    if x.op in ('cls', 'typeof') and y.op in ('cls', 'typeof'):
                        return None if 'typeof' in (x.op, y.op) else False
                if isinstance(x, T) and x.op == 'cls' and isinstance(y, (Addr, Const, Ref, ClsV)):
                    return False
                if isinstance(x, T) and x.op == 'typeof':
                    if isinstance(y, Ref) and resolve(y.name) in FUNCTION_LIKE:
                        return False
                    if isinstance(y, (Const, ClsV)):
                        return False
        if op == 'in':
            a, b = atom.args
            if isinstance(b, T) and b.op == 'prior':
                return False
            if isinstance(a, Const) and a.v in ('.', '/') and isinstance(b, T) and b.op in ('modname', 'clsname', 'submod', 'outer', 'key'):
                return False
            if isinstance(a, T) and a.op in ('modname',) and isinstance(b, Ref):
                return True
        if op == 'importable':
            n = atom.args[0]
            if isinstance(n, T) and n.op == 'modname':
                return True
            if isinstance(n, T) and n.op == 'concat':
                ts = [p for p in n.args if not isinstance(p, Const)]
                if ts and isinstance(ts[0], T) and ts[0].op == 'modname':
                    return all(isinstance(p, T) and p.op == 'submod' for p in ts[1:])
        if op == 'startswith' and isinstance(atom.args[0], T) and atom.args[0].op == 'repr' and isinstance(atom.args[1], Const):
            # scenario objects are not compiled functions
            return False if str(atom.args[1].v).startswith('<') else None
        if op == 'truthy':
            x = atom.args[0]
            if isinstance(x, T) and x.op in ('module', 'topmodule'):
                return True
            if isinstance(x, T):
                return self.oracle(x, st)
        return None

    def partition(self, src, st):
        p = self.parts.get(src)
        if p is not None:
            return p
        return [('key', T('key', src))]

    def method(self, it, obj, name, args, kw, st):
        if obj == self.backend:
            if name == 'encode':
                st = st.clone()
                return [(st, T('jsontext', jsonify(it, st, args[0])))]
            if name == 'decode':
                v = args[0]
                st = st.clone()
                if isinstance(v, T) and v.op == 'jsontext':
                    return [(st, thaw(it, st, v.args[0]))]
                return [(st, T('parsed', v))]
        if name == '__setattr__':
            k = it.kind(obj, st)
            if isinstance(k, Inst) and isinstance(obj, Addr):
                if k.frozen:
                    return [(st, Raise(k.frozen, site=it.site))]
            if isinstance(k, Inst) and k.set_raises and isinstance(args[0], Const) and args[0].v in k.set_raises:
                return [(st, Raise(exc('AttributeError'), site=it.site))]
        if name == '__getattr_dyn__':
            return self.getattr_dyn(it, obj, args[0], st)
        return None

    def getattr_dyn(self, it, o, n, st):
        # attribute of a module or class by the name of a scenario class
        if isinstance(n, T) and n.op in ('clsname', 'outer', 'submod'):
            x = n.args[0]
            k = self.kind(x, st)
            nested = getattr(k, 'nested', 0)
            dotted = getattr(k, 'dotted', 0)
            modparts = [T('modname', x)]
            for i in range(dotted):
                modparts += [Const('.'), T('submod', x, Const(i))]
            mod = concat(*modparts)
            holder_mod = o in (T('module', mod),) or (dotted == 0 and o == T('topmodule', mod))
            if n.op == 'outer':
                i = n.args[1].v
                ok = holder_mod if i == 0 else o == T('outercls', x, Const(i - 1))
                if ok:
                    return [(st, T('outercls', x, Const(i)))]
                return [(st, Raise(exc('AttributeError'), site=it.site))]
            if n.op == 'clsname':
                ok = holder_mod if nested == 0 else o == T('outercls', x, Const(nested - 1))
                if ok:
                    if isinstance(k, FuncK):
                        return [(st, x)]
                    return [(st, T('cls', x))]
                return [(st, Raise(exc('AttributeError'), site=it.site))]
            if n.op == 'submod':
                return [(st, T('module', concat(T('modname', x), *[y for i in range(n.args[1].v + 1) for y in (Const('.'), T('submod', x, Const(i)))])))]
        # an attribute of an object by its own attribute name
        if isinstance(n, T) and n.op == 'key':
            src = n.args[0]
            if src == T('attr', o, Const('__dict__')):
                return [(st, T('val', src, Const('key')))]
        return None


class _ClsKind(ClassK):
    def __init__(self, k):
        self.k = k

    def cls_of(self, v):
        return Ref('builtins.type')

    def truth(self, v):
        return True

    def eq_const(self, t, c):
        return False

    def attr(self, it, o, name, st):
        return self.k.cls_attr(it, o, name, st)

    def knows(self, n):
        return self.k.knows(n)


def has_name(t):
    if isinstance(t, T):
        if t.op in ('modname', 'clsname', 'submod', 'outer'):
            return True
        return any(has_name(a) for a in t.args)
    return False


# ---------------------------------------------------------------- JSON text
def jsonify(it, st, v):
    """The value a JSON document denotes: a fresh deep copy of the output."""
    if isinstance(v, (TupV, IterV)):
        return it.alloc(st, HList([jseg(it, st, s) for s in v.segs]))
    if isinstance(v, Addr):
        h = it.h(st, v)
        if isinstance(h, HList):
            return it.alloc(st, HList([jseg(it, st, s) for s in h.segs]))
        if isinstance(h, HDict):
            return it.alloc(st, HDict([jseg(it, st, s) for s in h.segs]))
        return v
    return v


thaw = jsonify


def jseg(it, st, s):
    if isinstance(s, Item):
        return Item(jsonify(it, st, s.v))
    if isinstance(s, Entry):
        k = s.k
        if isinstance(k, Const) and not isinstance(k.v, str):
            k = Const({True: 'true', False: 'false', None: 'null'}.get(k.v, str(k.v)))
        return Entry(k, jsonify(it, st, s.v))
    if isinstance(s, Each):
        return Each(s.src, [Alt(a.facts, tuple(jseg(it, st, e) for e in a.elems)) for a in s.alts], s.partial)
    return s
