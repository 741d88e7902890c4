"""What the numpy extension needs of numpy, as source the analyser reads.

An array is a piece of memory seen through a dtype, a shape, an offset and a
layout.  Its values are the ones that were put there exactly when all of them
agree with how the memory was written; otherwise they are 'garbled'.  The text
below is interpreted abstractly together with the package, it is never run.
"""

import ast
import re

from .interp import exc
from .models import HOOKS, hook
from .values import FALSE, NONE, TRUE, Addr, Const, Entry, HDict, HInst, HList, Item, IterV, Op, Raise, T, TupV

NUMPY = '''
from verif_np import absent, contents, fields, garbled, gather, hasobject, kindof, layout, pointers, listed, order_of, parse, ravelled, raw, reorder, rounded, same, size_of, sized, tup, valued, writable


class dtype:
    def __init__(self, spec, align=False, copy=False):
        self._is(spec.text if isinstance(spec, dtype) else parse(spec))

    def _is(self, text):
        self.text = text
        self.byteorder = order_of(self.text)
        self.fields = fields(self.text)
        self.hasobject = hasobject(self.text)
        self.kind = kindof(self.text)
        self.isnative = self.byteorder != '>'

    @property
    def names(self):
        return None if self.fields is None else tuple(self.fields)

    @property
    def str(self):
        return self.text

    @property
    def type(self):
        if self.kind == 'O':
            return object_
        return generic

    @property
    def itemsize(self):
        return sized(self.text)

    def newbyteorder(self, new_order='S'):
        return _named(reorder(self.text, new_order))

    def __str__(self):
        return self.text

    def __repr__(self):
        return self.text

    def __eq__(self, other):
        if isinstance(other, dtype):
            return same(self.text, other.text)
        return same(self.text, parse(other))

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.text)

    def __getattr__(self, name):
        return absent(self, name)


_dtype = dtype


def _named(text):
    new = object.__new__(dtype)
    new._is(text)
    return new


class Flags:
    def __init__(self, layout, writeable, owndata):
        self.c_contiguous = layout in ('C', 'CF')
        self.contiguous = self.c_contiguous
        self.f_contiguous = layout in ('F', 'CF')
        self.fortran = layout == 'F'
        self.forc = layout != 'K'
        self.fnc = layout == 'F'
        self.owndata = owndata
        self.aligned = True
        self.writeable = writeable

    def __getitem__(self, name):
        if name in ('C_CONTIGUOUS', 'C', 'CONTIGUOUS'):
            return self.c_contiguous
        if name in ('F_CONTIGUOUS', 'F', 'FORTRAN'):
            return self.f_contiguous
        if name == 'FORC':
            return self.forc
        if name == 'FNC':
            return self.fnc
        if name in ('WRITEABLE', 'W'):
            return self.writeable
        if name in ('OWNDATA', 'O'):
            return self.owndata
        return absent(self, name)

    def __setitem__(self, name, value):
        if name in ('WRITEABLE', 'W'):
            self.writeable = value
        else:
            absent(self, name)

    def __getattr__(self, name):
        return absent(self, name)


class Memory:
    def __init__(self, content):
        self.content = content


class Buffer:
    """What the data attribute of an array gives."""

    def __init__(self, array):
        self.array = array

    def __getattr__(self, name):
        return absent(self, name)


class Address:
    def __init__(self, offset):
        self.data = offset


class generic:
    pass


class void(generic):
    pass


class object_(generic):
    pass


class uint8(generic):
    pass


class int32(generic):
    pass


class float32(generic):
    pass


class datetime64(generic):
    pass


class ufunc:
    pass


class ndarray:
    def __init__(self, shape, dtype=float, buffer=None, offset=0, strides=None, order=None):
        self.dtype = _dtype(dtype)
        self.shape = tup(shape)
        self.offset = offset
        self.strides = strides
        if isinstance(buffer, Buffer):
            buffer = buffer.array
        if isinstance(buffer, ndarray):
            self.memory = buffer.memory
            self.base = buffer
            ok = buffer.flags.writeable
        else:
            self.memory = Memory(contents(buffer))
            self.base = buffer
            ok = writable(buffer)
        self.layout = layout(self.shape, order, strides)
        self.flags = Flags(self.layout, ok, False)

    @property
    def size(self):
        return size_of(self.shape)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def data(self):
        if self.dtype.kind in 'mM':
            raise ValueError('cannot include dtype M in a buffer')
        return Buffer(self)

    @property
    def ctypes(self):
        return Address(self.offset)

    @property
    def values(self):
        return valued(self.memory.content, self.dtype.text, self.shape, self.offset, self.strides, self.layout)

    def tolist(self):
        return listed(self.values, self.shape)

    def tobytes(self, order='C'):
        values = pointers(self.values) if self.dtype.hasobject else self.values
        if order in ('F', 'f') or order in ('A', 'a') and self.layout == 'F':
            return raw(values, self.dtype.text, self.shape, 'F')
        return raw(values, self.dtype.text, self.shape, 'C')

    def copy(self, order='C'):
        new = _new(self.dtype, self.shape)
        if order in ('K', 'A') and self.layout == 'F' or order == 'F':
            target = 'F'
        elif order in ('K', 'A') and self.layout == 'K' and self.strides is None:
            target = 'K'
        else:
            target = 'C'
        # items move as they are, whatever they are taken for
        new.memory = Memory(ravelled(self.memory.content, self.dtype.text, self.shape, self.offset, self.strides, self.layout, target))
        new.layout = layout(self.shape, target, None)
        new.flags = Flags(new.layout, True, True)
        return new

    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and not isinstance(shape[0], int):
            shape = shape[0]
        shape = tup(shape)
        if same(shape, self.shape):
            return self
        new = _new(self.dtype, shape)
        # the same items in the same order
        new.memory = Memory(raw(gather(self.values, shape), self.dtype.text, shape, 'C'))
        new.flags = Flags(layout(shape, 'C', None), self.flags.writeable, False)
        new.layout = layout(shape, 'C', None)
        return new

    def ravel(self, order='C'):
        if self.layout == 'CF' or order in ('C', 'A', 'K') and self.layout == 'C' or order in ('F', 'A', 'K') and self.layout == 'F':
            new = _new(self.dtype, tup([self.size]))
            new.memory = self.memory
            new.offset = self.offset
            new.layout = 'CF'
            new.base = self
            new.flags = Flags('CF', self.flags.writeable, False)
            return new
        new = self.copy(order)
        new.shape = tup([self.size])
        return new

    def view(self, dtype=None, type=None):
        new = _new(self.dtype if dtype is None else _dtype(dtype), self.shape)
        new.memory = self.memory
        new.offset = self.offset
        new.strides = self.strides
        new.layout = self.layout
        new.base = self
        new.flags = Flags(self.layout, self.flags.writeable, False)
        return new

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        return array(self.tolist(), dtype=dtype, order='F' if self.layout == 'F' else 'C')

    def item(self):
        return self.tolist()

    def setflags(self, write=None, align=None, uic=None):
        if write is not None:
            self.flags.writeable = write

    def __getitem__(self, key):
        if key == ():
            return scalar(self.values, self.dtype)
        return absent(self, 'item')

    def __getattr__(self, name):
        return absent(self, name)


def _new(dtype, shape):
    new = object.__new__(ndarray)
    new.dtype = _dtype(dtype)
    new.shape = shape
    new.offset = 0
    new.strides = None
    new.base = None
    return new


def fresh(values, text, shape, order, writeable):
    """An array that owns its data."""
    new = _new(_named(text), shape)
    new.layout = layout(shape, order, None)
    new.memory = Memory(raw(values, text, shape, 'C' if new.layout == 'CF' else new.layout))
    new.flags = Flags(new.layout, writeable, True)
    return new


def seen(base, memory, text, shape, order, strides, offset, writeable):
    """A view of base."""
    new = _new(_named(text), shape)
    new.layout = order
    new.memory = memory
    new.base = base
    new.strides = strides
    new.offset = offset
    new.flags = Flags(order, writeable, False)
    return new


def array(object, dtype=None, copy=True, order='K', subok=False, ndmin=0):
    if isinstance(object, ndarray):
        values, shape = object.values, object.shape
        if order in ('K', 'A', None):
            order = 'F' if object.layout == 'F' else 'C'
        if dtype is None:
            dtype = object.dtype
    else:
        values, shape = gather(object)
    if dtype is None:
        return absent(object, 'type of the array')
    new = _new(_dtype(dtype), shape)
    new.layout = layout(shape, order, None)
    new.memory = Memory(raw(values, new.dtype.text, shape, 'F' if new.layout == 'F' else 'C'))
    new.flags = Flags(new.layout, True, True)
    return new


def asarray(a, dtype=None, order='K'):
    if isinstance(a, ndarray):
        return a
    return array(a, dtype=dtype, order=order)


def frombuffer(buffer, dtype=float, count=-1, offset=0):
    content = contents(buffer)
    new = _new(_dtype(dtype), tup([size_of(None)]))
    new.memory = Memory(content)
    new.layout = 'CF'
    new.base = buffer
    new.flags = Flags('CF', writable(buffer), False)
    return new


class scalar(generic):
    def __init__(self, values, dtype):
        self.values = values
        self.dtype = dtype

    def tolist(self):
        if self.dtype.kind == 'g':
            return self
        return listed(self.values, ())

    def item(self):
        return self.tolist()

    def __float__(self):
        return rounded(self.values) if self.dtype.kind == 'g' else listed(self.values, ())

    def __str__(self):
        return listed(self.values, ())

    def __repr__(self):
        return listed(self.values, ())

    def __getattr__(self, name):
        return absent(self, name)
'''

# text of the dtype -> (in the other byte order, kind)
TYPES = {
    'int32': ('>i4', 'i'), 'float64': ('>f8', 'f'), 'uint8': (None, 'u'), 'bool': (None, 'b'), '|S5': (None, 'S'), '<U3': ('>U3', 'U'),
    'object': (None, 'O'), 'datetime64[ns]': ('>M8[ns]', 'M'), 'timedelta64[D]': ('>m8[D]', 'm'), 'complex128': ('>c16', 'c'), 'float128': ('>f16', 'g'),
}
SIZES = {'int32': 4, 'uint8': 1, 'bool': 1, '|S5': 5, '<U3': 12, 'complex128': 16, 'float128': 16}
SWAPPED = {b: a for a, (b, k) in TYPES.items() if b}
ALIASES = {'O': 'object', '<i4': 'int32', '=i4': 'int32', 'u1': 'uint8', '|u1': 'uint8', '|O': 'object', '?': 'bool'}
MISSING = ('tostring',)


def names_of(text):
    return re.findall(r"\('(\w+)', '[^']*'\)", text) or re.findall(r"'(\w+)'", text.split('formats')[0].replace("'names'", ''))


def structured(text):
    return text.startswith(('[', '{', '(numpy.record'))


def literal(it, st, v):
    """A list or dict of constants as the Python value, or None."""
    if isinstance(v, Const):
        return v.v
    if isinstance(v, TupV) and all(isinstance(s, Item) for s in v.segs):
        r = tuple(literal(it, st, s.v) for s in v.segs)
        return None if None in r else r
    h = it.h(st, v) if isinstance(v, Addr) else None
    if isinstance(h, HList) and all(isinstance(s, Item) for s in h.segs):
        r = [literal(it, st, s.v) for s in h.segs]
        return None if None in r else r
    if isinstance(h, HDict) and all(isinstance(s, Entry) for s in h.segs):
        return {literal(it, st, s.k): literal(it, st, s.v) for s in h.segs}
    return None


def lifted(it, st, v):
    if isinstance(v, dict):
        return it.alloc(st, HDict([Entry(Const(k), lifted(it, st, x)) for k, x in v.items()]))
    if isinstance(v, list):
        return it.alloc(st, HList([Item(lifted(it, st, x)) for x in v]))
    if isinstance(v, tuple):
        return TupV([Item(lifted(it, st, x)) for x in v])
    return Const(v)


@hook('ast.literal_eval')
def literal_eval(it, args, kw, st):
    v = args[0]
    if isinstance(v, Const) and isinstance(v.v, str):
        try:
            x = ast.literal_eval(v.v)
        except (ValueError, SyntaxError) as e:
            return [(st, Raise(exc(type(e).__name__), Const('malformed literal'), it.site))]
        st = st.clone()
        return [(st, lifted(it, st, x))]
    return [(st, T('literal', v))]


def unknown(it, st, what):
    st = st.clone()
    st.event(Op('unmodelled', Const(what), site=it.site))
    return st


@hook('verif_np.absent')
def absent(it, args, kw, st):
    n = args[1]
    if n.v in MISSING or n.v.startswith('__'):
        return [(st, Raise(exc('AttributeError'), n, it.site))]
    return [(unknown(it, st, f'numpy {n.v}'), T('attr', args[0], n))]


@hook('verif_np.parse')
def parse(it, args, kw, st):
    v = args[0]
    name = getattr(v, 'name', None) or getattr(getattr(v, 'info', None), 'qual', None)
    if name is None and type(v).__name__ == 'ClsV':
        name = str(v)
    if name:
        name = str(name).rsplit('.', 1)[-1].strip('<>')
        name = {'object_': 'object', 'float': 'float64', 'int': 'int64', 'float32': 'float64', 'void': '|V'}.get(name, name)
        if name in TYPES or name in ('|V', 'datetime64'):
            return [(st, Const(name))]
    x = literal(it, st, v)
    if isinstance(x, (list, dict)):
        return [(st, Const(str(x)))]
    if isinstance(x, str):
        x = ALIASES.get(x, x)
        if x in TYPES or x in SWAPPED or x.startswith('(numpy.record, [') and x.endswith(')') or x.startswith(('datetime64', '|V')):
            return [(st, Const(x))]
        return [(st, Raise(exc('TypeError'), Const(f'data type {x!r} not understood'), it.site))]
    return [(unknown(it, st, 'numpy.dtype'), T('dtype', v))]


def on_text(name):
    def deco(f):
        def h(it, args, kw, st):
            t = args[0]
            if not (isinstance(t, Const) and isinstance(t.v, str)):
                return [(unknown(it, st, f'numpy dtype {name}'), T(name, *args))]
            r = f(t.v, *[a.v if isinstance(a, Const) else a for a in args[1:]])
            if isinstance(r, (dict, list, tuple)):
                st = st.clone()
                return [(st, lifted(it, st, r))]
            return [(st, Const(r))]
        HOOKS['verif_np.' + name] = h
        return f
    return deco


@on_text('order_of')
def order_of(t):
    if structured(t) or t in TYPES and TYPES[t][0] is None:
        return '|'
    return '>' if t in SWAPPED else '='


@on_text('fields')
def fields(t):
    return {n: n for n in names_of(t)} if structured(t) else None


@on_text('hasobject')
def hasobject(t):
    return t == 'object' or structured(t) and ("'O'" in t or "'|O'" in t)


@on_text('kindof')
def kindof(t):
    return 'V' if structured(t) else TYPES[SWAPPED.get(t, t)][1] if SWAPPED.get(t, t) in TYPES else 'V'


@on_text('reorder')
def reorder(t, new):
    new = new[0].upper() if isinstance(new, str) and new else '?'
    if new in ('|', 'I'):
        return t
    if structured(t):
        return re.sub(r'[<>]', lambda m: {'N': '<', '=': '<', 'L': '<', '<': '<', 'B': '>', '>': '>'}.get(new) or '<>'[m[0] == '<'], t)
    little = t in TYPES
    if new == 'S':
        little = not little
    else:
        little = new in ('N', '=', 'L', '<')
    base = SWAPPED.get(t, t)
    return base if little or TYPES.get(base, (None,))[0] is None else TYPES[base][0]


def plain(text):
    """The record class is not part of what is compared."""
    if isinstance(text, Const) and isinstance(text.v, str) and text.v.startswith('(numpy.record, '):
        return Const(text.v[len('(numpy.record, '):-1])
    return text


def itemwise(text):
    """The dtype without its byte order."""
    text = plain(text)
    if not (isinstance(text, Const) and isinstance(text.v, str)):
        return text
    return Const(re.sub('[<>]', '<', text.v) if structured(text.v) else SWAPPED.get(text.v, text.v))


@hook('verif_np.same')
def same(it, args, kw, st):
    a, b = (plain(x) for x in args)
    if isinstance(a, Const) and isinstance(b, Const) or isinstance(a, TupV) and isinstance(b, TupV):
        return [(st, Const(a == b))]
    return [(st, TRUE if a == b else T('eq', a, b))]


def as_tuple(it, st, v):
    h = it.h(st, v) if isinstance(v, Addr) else None
    if isinstance(v, (TupV, IterV)):
        return TupV(v.segs)
    if isinstance(h, HList):
        return TupV(h.segs)
    return None


@hook('verif_np.tup')
def tup(it, args, kw, st):
    v = as_tuple(it, st, args[0])
    if v is None:
        v = TupV([Item(args[0])]) if args[0] != NONE else TupV([])
    return [(st, v)]


def flat_shape(shape):
    return isinstance(shape, TupV) and all(isinstance(s, Item) for s in shape.segs) and (len(shape.segs) <= 1 or Item(Const(0)) in shape.segs)


@hook('verif_np.layout')
def layout(it, args, kw, st):
    shape, order, strides = args
    if strides != NONE:
        if isinstance(strides, Addr):
            strides = as_tuple(it, st, strides) or strides
        v = strides.segs[0].v if isinstance(strides, TupV) and strides.segs and isinstance(strides.segs[0], Item) else strides
        if isinstance(v, T) and v.op == 'stride':
            return [(st, v.args[1])]
        return [(st, T('layout', strides))]
    if not isinstance(shape, TupV):
        return [(unknown(it, st, 'numpy shape'), Const('C'))]
    if flat_shape(shape):
        return [(st, Const('CF'))]
    if isinstance(order, Const):
        return [(st, Const({'f': 'F', 'F': 'F', 'permuted': 'K'}.get(order.v, 'C')))]
    return [(unknown(it, st, 'numpy order'), Const('C'))]


@hook('verif_np.size_of')
def size_of(it, args, kw, st):
    shape = args[0]
    if isinstance(shape, TupV):
        if not shape.segs:
            return [(st, Const(1))]
        if Item(Const(0)) in shape.segs:
            return [(st, Const(0))]
    return [(st, T('arg', Const('size')))]


@hook('verif_np.pointers')
def pointers(it, args, kw, st):
    return [(st, T('pointers', args[0]))]


@hook('verif_np.rounded')
def rounded(it, args, kw, st):
    return [(st, T('item', T('rounded', args[0])))]


@on_text('sized')
def sized(t):
    if structured(t):
        m = re.search(r"'itemsize': (\d+)", t)
        return int(m[1]) if m else sum(8 if n == 'O' else int(n) for n in re.findall(r"'[<>|=]?[a-zA-Z]?(O|\d+)'\)", t))
    return SIZES.get(SWAPPED.get(t, t), 8)


@hook('verif_np.raw')
def raw(it, args, kw, st):
    values, text, shape, order = args
    if isinstance(values, T) and values.op == 'seen' and values.args[1] == text == Const('uint8') and values.args[3] == Const(0) and values.args[4] == Const('CF'):
        # all the bytes of a buffer
        return [(st, values.args[0])]
    return [(st, T('raw', values, plain(text), shape, Const('C') if flat_shape(shape) else order))]


def first_of(order):
    return {'CF': 'C'}.get(order.v, order.v) if isinstance(order, Const) else None


def reads(content, shape, offset, strides, lay):
    """Does the array see the items of the memory in the order they were written?"""
    if not (isinstance(content, T) and content.op == 'raw' and content.args[2] == shape and offset == Const(0)):
        return False
    if flat_shape(shape):
        return lay == Const('CF') or strides == NONE
    return content.args[3] == lay and (lay in (Const('C'), Const('F')) or strides == NONE)


@hook('verif_np.valued')
def valued(it, args, kw, st):
    content, text, shape, offset, strides, lay = args
    if reads(content, shape, offset, strides, lay) and content.args[1] == plain(text):
        return [(st, content.args[0])]
    return [(st, T('seen', content, plain(text), shape, offset, lay, spelled(it, st, strides, lay)))]


def spelled(it, st, strides, lay):
    """The strides as a value; those of contiguous arrays follow from the shape."""
    if lay in (Const('C'), Const('CF')):
        return NONE
    return as_tuple(it, st, strides) or strides


@hook('verif_np.ravelled')
def ravelled(it, args, kw, st):
    content, text, shape, offset, strides, lay, target = args
    if reads(content, shape, offset, strides, lay) and itemwise(content.args[1]) == itemwise(text):
        return [(st, T('raw', content.args[0], content.args[1], shape, Const('C') if flat_shape(shape) else target))]
    (_, v), = valued(it, args[:6], kw, st)
    return [(st, T('raw', v, plain(text), shape, Const('C') if flat_shape(shape) else target))]


@hook('verif_np.listed')
def listed(it, args, kw, st):
    """tolist of values with this shape."""
    values, shape = args
    if isinstance(shape, TupV) and not shape.segs:
        return [(st, T('item', values))]
    st = st.clone()
    return [(st, it.alloc(st, HList([Item(T('items', values, shape))])))]


@hook('verif_np.gather')
def gather(it, args, kw, st):
    """The values in a nested list, and the shape that shows."""
    v = args[0]
    if len(args) == 2:
        # reshaped values of an empty array
        if isinstance(v, T) and v.op == 'reshaped' and v.args[1] == args[1]:
            return [(st, v.args[0])]
        return [(st, T('reshaped', v, args[1]))]
    h = it.h(st, v) if isinstance(v, Addr) else None
    if isinstance(h, HList) and len(h.segs) == 1 and isinstance(h.segs[0], Item) and isinstance(h.segs[0].v, T) and h.segs[0].v.op == 'items':
        values, shape = h.segs[0].v.args
        if isinstance(shape, TupV) and Item(Const(0)) in shape.segs and len(shape.segs) > 1:
            return [(st, TupV([Item(T('reshaped', values, shape)), Item(TupV([Item(Const(0))]))]))]
        return [(st, TupV([Item(values), Item(shape)]))]
    if isinstance(v, T) and v.op == 'item':
        return [(st, TupV([Item(v.args[0]), Item(TupV([]))]))]
    return [(unknown(it, st, 'numpy.array'), TupV([Item(T('gathered', v)), Item(T('shape', v))]))]


@hook('verif_np.garbled')
def garbled(it, args, kw, st):
    return [(st, T('garbled', *args))]


BUFFERS = ('bytes', 'bytearray', 'memoryview', 'mmap')


def base_kind(v):
    return v.args[1].v if isinstance(v, T) and v.op == 'base' else None


@hook('verif_np.contents')
def contents(it, args, kw, st):
    """The bytes of an object that offers them."""
    v = args[0]
    if isinstance(v, T) and v.op in ('raw', 'contents'):
        return [(st, v)]
    b = base_kind(v)
    if b in BUFFERS:
        return [(st, T('contents', v))]
    if b is not None:
        return [(st, Raise(exc('TypeError'), Const('a bytes-like object is required'), it.site))]
    if isinstance(v, Addr) and isinstance(it.h(st, v), HInst) or isinstance(v, Const):
        return [(st, Raise(exc('TypeError'), Const('a bytes-like object is required'), it.site))]
    return [(unknown(it, st, 'buffer'), T('contents', v))]


@hook('verif_np.writable')
def writable(it, args, kw, st):
    return [(st, Const(base_kind(args[0]) in ('bytearray', 'memoryview', 'mmap')))]
