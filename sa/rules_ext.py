"""C20: the extension handlers give back what they were given.

The arrays are instances of the model in numpy_model; the analysed handlers turn
them into a document and back with a stand-in for the context.
"""

from . import kinds as K
from .check import ASSUMPTIONS, TEXT, rule
from .docs import doc
from .extension import Ext, jsonified
from .numpy_model import as_tuple, itemwise, plain, spelled
from .shapes import Scene, flat_events, tup
from .values import FALSE, NONE, Addr, Const, Entry, HDict, HInst, HList, Item, MethV, Raise, Ref, T

C = Const
NP = 'jsonpickle.ext.numpy'

TEXT['C20'] = ('Model arrays of every dtype class, number of dimensions, layout and base, and pandas objects of every supported class, go through flatten and '
               'restore of each handler under every configuration: dtype with byte order, shape, values, layout, writeable flag and shared memory of the '
               'result are those of the original, what is written is JSON, and registering then unregistering leaves the registry as it was.')
ASSUMPTIONS['C20'] = ['numpy and pandas behave like the models in sa/numpy_model.py and sa/pandas_model.py; the machine is little-endian.',
                      'The nested list of an array gives back its values when the dtype is the same up to byte order.']


class Positive(K.Scalar):
    """A number above zero."""

    def __init__(self):
        super().__init__(int)

    def truth(self, v):
        return True

    def eq_const(self, t, c):
        return False if c.v in (0, None) or not isinstance(c.v, int) or c.v < 0 else None


class BufferK(K.Scalar):
    def __init__(self, t):
        super().__init__(t)

    def method(self, it, o, name, args, kw, st):
        if name == 'tobytes':
            return [(st, T('contents', o))]
        return None

    def attr(self, it, o, name, st):
        if name == 'tobytes':
            return MethV(o, name)
        return super().attr(it, o, name, st)


N, M, L, SIZE, OFFSET = (T('arg', C(n)) for n in ('n', 'm', 'l', 'size', 'offset'))
VALUES = T('values', C('x'))
SHAPES = {'no dimensions': tup(), 'one dimension': tup(N), 'two dimensions': tup(N, M), 'three dimensions': tup(N, M, L), 'empty': tup(C(0)), 'empty rows': tup(N, C(0)), 'empty columns': tup(C(0), M)}
DTYPES = ('int32', '>i4', 'uint8', 'bool', '|S5', '<U3', '>U3', 'object', 'datetime64[ns]', '>M8[ns]', 'complex128', "[('a', '<i4'), ('b', '>f8')]",
          "(numpy.record, [('a', '<i4')])", "[('a', '<i4'), ('b', 'O')]", "{'names': ['a'], 'formats': ['>i4'], 'offsets': [4], 'itemsize': 8}")
STRIDES = {k: tup(T('stride', C(0), C(k)), T('stride', C(1), C(k))) for k in ('C', 'F', 'K', 'CF')}
ZLIB, BZ2 = Ref('zlib'), Ref('bz2')
BASES = {'bytes': bytes, 'bytearray': bytearray, 'memoryview': memoryview, 'mmap': None, 'no buffer': None}


class World(K.W):
    def kind(self, t, st):
        if isinstance(t, T) and t.op in ('raw', 'contents'):
            return BYTES
        if isinstance(t, T) and t.op == 'document':
            return TEXT_KIND
        return super().kind(t, st)


BYTES = BufferK(bytes)
TEXT_KIND = K.Str(truth=True)


def scene():
    S = Scene('c20')
    S.world = World()
    for x in (N, M, L, SIZE, OFFSET):
        S.kind(x, Positive())
    for n, t in BASES.items():
        x = T('base', C(n), C(n))
        S.kind(x, BufferK(t) if t else K.Opaque('other', ()))
    return S


def begin(run):
    run.ctx.begin(scene().world)
    e = Ext(run)
    run.it.load('numpy')
    return e, run.ctx.state()


def make(run, st, name, *args):
    return list(run.it.call(run.it.entry('numpy', name), list(args), {}, st))


def field(it, st, o, name):
    h = it.h(st, o) if isinstance(o, Addr) else None
    return h.get(name) if isinstance(h, HInst) else None


def values_of(e, st, o):
    (_, v), = e.it.getattr_(o, 'values', st)
    return v


class Seen:
    """What can be told of an array."""

    def __init__(self, e, st, o):
        it = e.it
        self.text = plain(field(it, st, field(it, st, o, 'dtype'), 'text'))
        self.shape = as_tuple(it, st, field(it, st, o, 'shape'))
        self.layout = field(it, st, o, 'layout')
        self.strides = spelled(it, st, field(it, st, o, 'strides'), self.layout)
        self.memory = field(it, st, o, 'memory')
        self.content = field(it, st, self.memory, 'content')
        self.offset = field(it, st, o, 'offset')
        self.writeable = field(it, st, field(it, st, o, 'flags'), 'writeable')
        self.values = values_of(e, st, o)


def is_array(it, st, v):
    h = it.h(st, v) if isinstance(v, Addr) else None
    return isinstance(h, HInst) and getattr(getattr(h.cls, 'info', None), 'name', None) == 'ndarray'


def trips(run, e, st, handler, config, obj, module=NP, allow=()):
    """(state, what comes back) of every path of flatten and restore."""
    if run.prop == 'C21':
        yield from spaces(run, e, st, handler, config, obj, module)
        return
    it = run.it
    n = 0
    for s, h, c in e.handlers(module, handler, config, 'flatten', st):
        data = doc(it, s, {'py/object': 'x'})
        for s, d in e.method(h, 'flatten', [obj, data], s):
            if not run.outcome(s, d, 'flatten', allow):
                n += 1
                continue
            bad = []
            s = s.clone()
            d = jsonified(it, s, d, bad)
            for b in bad:
                run.fail(s, f'{b} is put in the document, which is not JSON')
            if bad:
                n += 1
                continue
            for s, v, c2 in e.restored(module, handler, config, d, s):
                n += 1
                if run.outcome(s, v, 'restore'):
                    yield s, v
    if not n:
        run.ob.undecided('no path')


def spaces(run, e, st, handler, config, obj, module):
    """C21: the same paths, looking only at how they use the context."""
    it = run.it
    for s, h, c in e.handlers(module, handler, config, 'flatten', st):
        for s, d in e.method(h, 'flatten', [obj, doc(it, s, {'py/object': 'x'})], s):
            if not run.outcome(s, d, 'flatten', (getattr(d, 'exc', None),)):
                continue
            s = s.clone()
            d = jsonified(it, s, d, [])
            for s, v, c2 in e.restored(module, handler, config, d, s):
                if run.outcome(s, v, 'restore', (getattr(v, 'exc', None),)):
                    run.judge(s, c, c2)
    yield from ()


def compare_arrays(run, e, s, obj, v, layout=True, shared=False, readonly=False):
    it = run.it
    if not is_array(it, s, v):
        run.fail(s, f'{v} is restored instead of an array')
        return
    a, b = Seen(e, s, obj), Seen(e, s, v)
    if a.text != b.text:
        run.fail(s, f'dtype {a.text} is restored as {b.text}')
    if a.shape != b.shape:
        run.fail(s, f'shape {a.shape} is restored as {b.shape}')
    if a.values != b.values:
        run.fail(s, f'the values are restored as {b.values}')
    if layout and a.layout != b.layout and a.layout != C('K'):
        run.fail(s, f'layout {a.layout} is restored as {b.layout}')
    if a.writeable != b.writeable and not (readonly and b.writeable == FALSE):
        run.fail(s, f'an array with writeable {a.writeable} is restored with {b.writeable}')
    if shared:
        if a.memory != b.memory and a.content != b.content:
            run.fail(s, 'the array does not see the memory of its base')
        if a.offset != b.offset:
            run.fail(s, f'offset {a.offset} is restored as {b.offset}')
        if a.strides != b.strides:
            run.fail(s, f'strides {a.strides} are restored as {b.strides}')


def owned(run, handler, config, text, shape, order, writeable, layout):
    e, st = begin(run)
    for s, obj in make(run, st, 'fresh', VALUES, C(text), shape, C(order), C(writeable)):
        for s, v in trips(run, e, s, handler, config, obj):
            if order == 'permuted':
                copied(run, e, s, obj, v)
            else:
                compare_arrays(run, e, s, obj, v, layout)


def shapes():
    for sn, sh in SHAPES.items():
        for order in {'two dimensions': ('C', 'F'), 'three dimensions': ('C', 'F', 'permuted')}.get(sn, ('C',)):
            yield sn + {'C': '', 'F': ', Fortran order', 'permuted': ', permuted axes'}[order], sh, order


CONFIGS = {'default': {}, 'always text': {'size_threshold': NONE}, 'always binary': {'size_threshold': C(0)}, 'bz2': {'compression': BZ2},
           'uncompressed': {'compression': NONE}, 'uncompressed, always binary': {'compression': NONE, 'size_threshold': C(0)}}
MODES = {'': {}, ', raise': {'mode': C('raise')}, ', ignore': {'mode': C('ignore')}}


@rule('C20')
def text_arrays(run):
    for text in DTYPES:
        for sn, sh, order in shapes():
            for w in (True, False):
                yield (f'NumpyNDArrayHandler: {text}, {sn}, writeable {w}',
                       lambda text=text, sh=sh, order=order, w=w: owned(run, 'NumpyNDArrayHandler', None, text, sh, order, w, False))


@rule('C20')
def binary_arrays(run):
    for cn, cf in CONFIGS.items():
        for text in DTYPES:
            for sn, sh, order in shapes():
                for w in (True, False):
                    yield (f'NumpyNDArrayHandlerBinary, {cn}: {text}, {sn}, writeable {w}',
                           lambda cf=cf, text=text, sh=sh, order=order, w=w: owned(run, 'NumpyNDArrayHandlerBinary', cf, text, sh, order, w, False))
                    yield (f'NumpyNDArrayHandlerView, {cn}: {text}, {sn}, writeable {w}',
                           lambda cf=cf, text=text, sh=sh, order=order, w=w: owned(run, 'NumpyNDArrayHandlerView', cf, text, sh, order, w, True))


def viewed(run, config, base_text, base_order, text, shape, order, offset, writeable, base_writeable=True):
    e, st = begin(run)
    for s, b in make(run, st, 'fresh', T('values', C('base')), C(base_text), tup(N, M), C(base_order), C(base_writeable)):
        mem = field(run.it, s, b, 'memory')
        for s, obj in make(run, s, 'seen', b, mem, C(text), shape, C(order), STRIDES[order], offset, C(writeable)):
            for s, v in trips(run, e, s, 'NumpyNDArrayHandlerView', config, obj):
                compare_arrays(run, e, s, obj, v, shared=True)
                if is_array(run.it, s, v) and field(run.it, s, v, 'memory') != mem:
                    run.fail(s, 'the array does not share memory with its base')


VIEW_SHAPES = {'one dimension': (tup(N), ('CF', 'K')), 'two dimensions': (tup(M, N), ('C', 'F', 'K')), 'no dimensions': (tup(), ('CF',))}


@rule('C20')
def views(run):
    for cn, cf in CONFIGS.items():
        for text in DTYPES:
            if 'O' in text or text == 'object':
                continue
            for base in dict.fromkeys((text, 'uint8', 'datetime64[ns]')):
                for bo in ('C', 'F'):
                    for sn, (sh, orders) in VIEW_SHAPES.items():
                        for o in orders:
                            for off in (C(0), OFFSET):
                                for w in (True, False):
                                    if cn not in ('default', 'always binary') and (off == C(0) or bo == 'F' or base != text):
                                        continue
                                    yield (f'view, {cn}: {text}, {sn}, layout {o}, offset {off}, writeable {w}, of an array {bo} of {base}'
                                           + ('' if base != text else ' itself'),
                                           lambda cf=cf, base=base, bo=bo, text=text, sh=sh, o=o, off=off, w=w: viewed(run, cf, base, bo, text, sh, o, off, w))


def unshared(run, config, text, offset):
    """A view of an array whose memory is in no order the handler knows."""
    e, st = begin(run)
    raises = config.get('mode') == C('raise')
    for s, b in make(run, st, 'fresh', T('values', C('base')), C(text), tup(N, M, L), C('permuted'), C(True)):
        mem = field(run.it, s, b, 'memory')
        for s, obj in make(run, s, 'seen', b, mem, C(text), tup(M, N), C('K'), STRIDES['K'], offset, C(True)):
            for s, v in trips(run, e, s, 'NumpyNDArrayHandlerView', config, obj, allow=(Ref('builtins.ValueError'),) if raises else ()):
                if raises:
                    run.fail(s, 'no exception is raised')
                else:
                    copied(run, e, s, obj, v)


@rule('C20')
def permuted(run):
    for cn, cf in CONFIGS.items():
        for mn, mode in MODES.items():
            for text in DTYPES:
                if 'O' in text or text == 'object':
                    continue
                for off in (C(0), OFFSET):
                    yield (f'view, {cn}{mn}: {text}, offset {off}, of an array with permuted axes',
                           lambda cf=cf, mode=mode, text=text, off=off: unshared(run, {**cf, **mode}, text, off))


def buffered(run, config, base, text, shape, order, offset, writeable):
    """An array over something that is not an array."""
    e, st = begin(run)
    it = run.it
    b = T('base', C(base), C(base))
    for s, mem in it.call(it.entry('numpy', 'Memory'), [T('contents', b)], {}, st):
        for s, obj in make(run, s, 'seen', b, mem, C(text), shape, C(order), STRIDES[order], offset, C(writeable)):
            by_value = base == 'no buffer' or base in ('bytes', 'bytearray') and not text.startswith(('[', '{', '('))
            raises = by_value and config.get('mode') == C('raise')
            allow = (Ref('builtins.ValueError'),) if raises else ()
            for s, v in trips(run, e, s, 'NumpyNDArrayHandlerView', config, obj, allow=allow):
                if raises:
                    run.fail(s, 'no exception is raised')
                    continue
                warns = [w for w in flat_events(s.events) if w.name == 'warn']
                want = by_value and 'mode' not in config
                if bool(warns) != want:
                    run.fail(s, 'a warning is issued' if warns else 'no warning is issued')
                if by_value:
                    copied(run, e, s, obj, v)
                else:
                    compare_arrays(run, e, s, obj, v, shared=True, readonly=True)


def copied(run, e, s, obj, v):
    """v holds the values of obj in memory of its own."""
    it = run.it
    if not is_array(it, s, v):
        run.fail(s, f'{v} is restored instead of an array')
        return
    a, b = Seen(e, s, obj), Seen(e, s, v)
    for what, x, y in (('dtype', a.text, b.text), ('shape', a.shape, b.shape), ('values', a.values, b.values)):
        if x != y:
            run.fail(s, f'{what} {x} is restored as {y}')


@rule('C20')
def buffers(run):
    for base in BASES:
        for text in DTYPES:
            if 'O' in text or text == 'object':
                continue
            for sn, (sh, orders) in VIEW_SHAPES.items():
                for o in orders:
                    for off in (C(0), OFFSET):
                        for mn, mode in MODES.items():
                            for cn in ('default', 'always binary'):
                                yield (f'view, {cn}{mn}: {text}, {sn}, layout {o}, offset {off}, of {base}',
                                       lambda cn=cn, mode=mode, base=base, text=text, sh=sh, o=o, off=off:
                                       buffered(run, {**CONFIGS[cn], **mode}, base, text, sh, o, off, base not in ('bytes', 'no buffer')))


# ---------------------------------------------------------------- other numpy objects
@rule('C20')
def dtypes(run):
    def one(text):
        e, st = begin(run)
        for s, obj in make(run, st, '_named', C(text)):
            for s, v in trips(run, e, s, 'NumpyDTypeHandler', None, obj):
                got = field(run.it, s, v, 'text')
                if got is None or plain(got) != plain(C(text)):
                    run.fail(s, f'dtype {text} is restored as {got if got is not None else v}')
    for text in DTYPES:
        yield f'NumpyDTypeHandler: {text}', lambda text=text: one(text)


SCALARS = DTYPES + ('float128', 'timedelta64[D]')


@rule('C20')
def scalars(run):
    def one(handler, text):
        e, st = begin(run)
        for s, d in make(run, st, '_named', C(text)):
            for s, obj in make(run, s, 'scalar', VALUES, d):
                for s, v in trips(run, e, s, handler, None, obj):
                    dt = field(run.it, s, v, 'dtype')
                    got = field(run.it, s, dt, 'text') if dt is not None else None
                    # a scalar has no byte order of its own
                    if got is None or itemwise(got) != itemwise(C(text)):
                        run.fail(s, f'a scalar of {text} is restored as {got if got is not None else v}')
                    elif field(run.it, s, v, 'values') != VALUES:
                        run.fail(s, f"the value is restored as {field(run.it, s, v, 'values')}")

    def plainly(text, picklable):
        e, st = begin(run)
        for s, d in make(run, st, '_named', C(text)):
            for s, obj in make(run, s, 'scalar', VALUES, d):
                for s, h, c in e.handlers(NP, 'UnpickleableNumpyGenericHandler', None, 'flatten', s, unpicklable=C(picklable)):
                    for s, r in e.method(h, 'flatten', [obj, doc(run.it, s, {'py/object': 'x'})], s):
                        if run.outcome(s, r, 'flatten') and isinstance(r, Addr) != picklable:
                            run.fail(s, f'{r} is written')
    for text in SCALARS:
        for h in ('NumpyGenericHandler', 'NumpyDatetimeHandler'):
            yield f'{h}: {text}', lambda h=h, text=text: one(h, text)
        for p in (True, False):
            if text != 'float128':
                yield f'UnpickleableNumpyGenericHandler: {text}, unpicklable={p}', lambda text=text, p=p: plainly(text, p)


@rule('C20')
def ufuncs(run):
    def one():
        S = scene()
        f = S.func('ufunc')
        run.ctx.begin(S.world)
        e = Ext(run)
        for s, v in trips(run, e, run.ctx.state(), 'NumpyUfuncHandler', None, f):
            if v != f:
                run.fail(s, f'the function is restored as {v}')
    yield 'NumpyUfuncHandler', one


@rule('C20')
def integers(run):
    def one():
        S = scene()
        x = T('arg', C('integer'))
        S.kind(x, K.Scalar(int))
        run.ctx.begin(S.world)
        e = Ext(run)
        run.it.load('gmpy2')
        for s, obj in run.it.call(run.it.entry('gmpy2', 'mpz'), [x], {}, run.ctx.state()):
            for s, v in trips(run, e, s, 'GmpyMPZHandler', None, obj, 'jsonpickle.ext.gmpy'):
                if field(run.it, s, v, 'value') != x:
                    run.fail(s, f'the number is restored as {v}')
    yield 'GmpyMPZHandler', one


# ---------------------------------------------------------------- pandas
PD = 'jsonpickle.ext.pandas'
NAMES = {'no name': NONE, 'a text name': C('foo'), 'an empty name': C(''), 'a number as name': C(5), 'zero as name': C(0), 'a tuple as name': tup(C('p'), C(1))}


def cells(name, dtype, n):
    return tuple(T('cell', C(f'{name}{i}'), C(dtype)) for i in range(n))


def pd_begin(run):
    S = scene()
    run.ctx.begin(S.world)
    e = Ext(run)
    for m in ('numpy', 'pandas', PD):
        run.it.load(m)
    return e, run.ctx.state()


def build(run, st, name, /, *args, **kw):
    """Instances of the model; lists and dicts are given as Python values."""
    return list(run.it.call(run.it.entry('pandas', name), [doc(run.it, st, a) for a in args], {k: doc(run.it, st, v) for k, v in kw.items()}, st))


def alike(it, s, a, b, what, skip=(), depth=0):
    """Where two values of the model differ, or None."""
    if a == b or depth > 8:
        return None
    ha, hb = (it.h(s, x) if isinstance(x, Addr) else None for x in (a, b))
    if isinstance(ha, HInst) and isinstance(hb, HInst):
        if ha.cls != hb.cls and not ({ha.cls.info.name, hb.cls.info.name} <= {'Index', 'RangeIndex'}):
            return f'{what} is a {hb.cls.info.name} instead of a {ha.cls.info.name}'
        for n in sorted({k for k, _ in ha.fields} | {k for k, _ in hb.fields}):
            if n in skip:
                continue
            x, y = ha.get(n), hb.get(n)
            if x is None or y is None:
                return f'{what}.{n} is {y} instead of {x}'
            d = alike(it, s, x, y, f'{what}.{n}', skip, depth + 1)
            if d:
                return d
        return None
    sa, sb = as_tuple(it, s, a), as_tuple(it, s, b)
    if sa is not None and sb is not None and (isinstance(ha, HList) == isinstance(hb, HList)):
        if len(sa.segs) != len(sb.segs):
            return f'{what} has {len(sb.segs)} items instead of {len(sa.segs)}'
        for i, (x, y) in enumerate(zip(sa.segs, sb.segs)):
            if x != y:
                d = alike(it, s, getattr(x, 'v', x), getattr(y, 'v', y), f'{what}[{i}]', skip, depth + 1)
                if d:
                    return d
        return None
    return f'{what} is {b} instead of {a}'


def pandas_trip(run, e, st, handler, obj, skip=()):
    for s, v in trips(run, e, st, handler, None, obj, PD):
        d = alike(run.it, s, obj, v, 'it', skip)
        if d:
            run.fail(s, d)


def plain_index(run, handler, cls, dtype, n, name):
    e, st = pd_begin(run)
    for s, obj in build(run, st, cls, list(cells('i', dtype, n)), dtype=dtype, name=name):
        pandas_trip(run, e, s, handler, obj)


def multi_index(run, n, names):
    e, st = pd_begin(run)
    multi_trip(run, e, st, 'PandasMultiIndexHandler', n, names)


def multi_trip(run, e, st, handler, n, names):
    for s, obj in build(run, st, 'MultiIndex', [tup(*cells(f'{i}', 'object', 2)) for i in range(n)], names=names):
        for s, v in trips(run, e, s, handler, None, obj, PD):
            it = run.it
            got = alike(it, s, field(it, s, obj, 'items'), field(it, s, v, 'items'), 'it.items')
            if got:
                run.fail(s, got)
            wa, wb = (as_tuple(it, s, x) if x is not None else None for x in (field(it, s, obj, 'names'), field(it, s, v, 'name')))
            if wb is None or wa.segs != wb.segs:
                run.fail(s, f"the names {wa} are restored as {field(it, s, v, 'name')}")


def series(run, dtype, n, name, index_name):
    e, st = pd_begin(run)
    for s, i in build(run, st, 'Index', list(cells('i', 'int64', n)), dtype='int64', name=index_name):
        for s, obj in build(run, s, 'Series', list(cells('v', dtype, n)), i, dtype=dtype, name=name):
            pandas_trip(run, e, s, 'PandasSeriesHandler', obj)


@rule('C20')
def indexes(run):
    for h, cls, dtypes in (('PandasIndexHandler', 'Index', ('int64', 'object', 'str', 'datetime64[ns]')), ('PandasPeriodIndexHandler', 'PeriodIndex', ('period[M]',)),
                           ('PandasIndexHandler', 'RangeIndex', ('int64',))):
        for dt in dtypes:
            for n in (0, 1, 3):
                for nn, name in NAMES.items():
                    yield f'{h}: {cls} of {n} {dt} with {nn}', lambda h=h, cls=cls, dt=dt, n=n, name=name: plain_index(run, h, cls, dt, n, name)
    for n in (0, 1, 2):
        for names in ([None, None], ['a', 'b'], ['a', None], [0, 1]):
            yield f'PandasMultiIndexHandler: {n} entries named {names}', lambda n=n, names=names: multi_index(run, n, names)


@rule('C20')
def all_series(run):
    for dt in ('int64', 'object', 'category'):
        for n in (0, 1, 2):
            for nn, name in NAMES.items():
                yield f'PandasSeriesHandler: {n} {dt} with {nn}', lambda dt=dt, n=n, name=name: series(run, dt, n, name, NONE)
            yield f'PandasSeriesHandler: {n} {dt} with a named index', lambda dt=dt, n=n: series(run, dt, n, NONE, C('idx'))


@rule('C20')
def moments(run):
    def stamp():
        e, st = pd_begin(run)
        for s, obj in build(run, st, 'Timestamp', T('arg', C('moment'))):
            pandas_trip(run, e, s, 'PandasTimestampHandler', obj)

    def period():
        e, st = pd_begin(run)
        for s, obj in build(run, st, 'Period', T('arg', C('start')), T('arg', C('freq'))):
            pandas_trip(run, e, s, 'PandasPeriodHandler', obj)

    def interval(closed):
        e, st = pd_begin(run)
        for s, obj in build(run, st, 'Interval', T('arg', C('left')), T('arg', C('right')), closed):
            pandas_trip(run, e, s, 'PandasIntervalHandler', obj)
    yield 'PandasTimestampHandler', stamp
    yield 'PandasPeriodHandler', period
    for c in ('both', 'neither', 'left', 'right'):
        yield f'PandasIntervalHandler: closed {c}', lambda c=c: interval(c)


LABELS = {'text': (C('a'), C('b'), C('c')), 'numbers': (C(1), C(2), C(0)), 'mixed': (C(1), C('1'), C('')), 'tuples': (tup(C('x'), C(1)), tup(C('x'), C(2)), tup(C('y'), C(1)))}
COLUMNS = {'no columns': (), 'one number column': ('int64',), 'the same types': ('int64', 'int64', 'int64'), 'changing types': ('int64', 'float64', 'int64'),
           'objects': ('object', 'bool'), 'lists': ('lists', 'object', 'lists'), 'dates': ('datetime64[ns]', 'category', 'timedelta64[D]'),
           'runs': ('float64', 'float64', 'bool'), 'late run': ('bool', 'float64', 'float64')}


def frame(run, labels, columns, multi, index, rows, start=None):
    e, st, handler = start or (*pd_begin(run), 'PandasDfHandler')
    it = run.it
    st = st.clone()
    cur = [(st, [])]
    for i, dt in enumerate(columns):
        nxt = []
        for s, cols in cur:
            s = s.clone()
            if dt == 'lists':
                items = [doc(it, s, [cells(f'c{i}', 'object', 1)[0]]) for _ in range(rows)]
            else:
                items = list(cells(f'c{i}', dt, rows))
            nxt += [(s2, cols + [c]) for s2, c in build(run, s, 'Series', items, None, dtype='object' if dt == 'lists' else dt, name=labels[i])]
        cur = nxt
    for s, cols in cur:
        s = s.clone()
        d = it.alloc(s, HDict([Entry(k, c) for k, c in zip(labels, cols)]))
        for s, f in it.call(it.entry('pandas', 'DataFrame'), [d], {}, s):
            iname, values = index
            if isinstance(iname, list):
                ix = build(run, s, 'MultiIndex', [tup(*cells(f'{i}', 'object', 2)) for i in range(rows)], names=iname)
            else:
                ix = build(run, s, 'Index', list(cells('i', values, rows)), dtype='inferred', name=iname)
            for s, i in ix:
                cname, many = multi
                if many:
                    cx = build(run, s, 'MultiIndex', list(labels[:len(columns)]), names=cname)
                else:
                    cx = build(run, s, 'Index', list(labels[:len(columns)]), dtype='object', name=cname)
                for s, c in cx:
                    for s, _ in it.setattr_(f, 'columns', c, s):
                        for s, _ in it.setattr_(f, 'index', i, s):
                            compared_frames(run, e, s, handler, f)


def compared_frames(run, e, s, handler, f):
    it = run.it
    for s, v in trips(run, e, s, handler, None, f, PD):
        cf, cv = (as_tuple(it, s, field(it, s, x, '_cols')) if field(it, s, x, '_cols') is not None else None for x in (f, v))
        if cv is None:
            run.fail(s, f'{v} is restored instead of a frame')
            continue
        for what in ('_columns', 'index'):
            d = alike(it, s, field(it, s, f, what), field(it, s, v, what), what.strip('_'))
            if d:
                run.fail(s, d)
        if len(cf.segs) != len(cv.segs):
            run.fail(s, f'{len(cv.segs)} columns are restored instead of {len(cf.segs)}')
            continue
        for i, (a, b) in enumerate(zip(cf.segs, cv.segs)):
            d = alike(it, s, a.v, b.v, f'column {i}', ('index', 'name'))
            if d:
                run.fail(s, d)


@rule('C20')
def frames(run):
    for cn, cols in COLUMNS.items():
        for ln, labels in LABELS.items():
            for mn, multi in {'': (NONE, False), ', named columns': (C('cols'), False), ', several levels': (['l', None], True)}.items():
                if multi[1] != (ln == 'tuples') or multi[1] and not cols:
                    continue
                for xn, index in {'numbers as index': (NONE, 'int64'), 'a named index': (C('idx'), 'object'), 'several index levels': (['p', None], None)}.items():
                    for rows in (0, 2):
                        if xn == 'several index levels' and not rows:
                            continue
                        yield (f'PandasDfHandler: {cn}, {rows} rows, labelled by {ln}{mn}, {xn}',
                               lambda labels=labels, cols=cols, multi=multi, index=index, rows=rows: frame(run, labels, cols, multi, index, rows))


# ---------------------------------------------------------------- parts
def has(run, module, *names):
    """Are there such functions or classes at the top of the module?"""
    m = run.it.prog.modules.get(module)
    return m is not None and {s.name for s in m.tree.body if hasattr(s, 'name')} >= set(names)


def lookup(it, st, d, k):
    return next((s.v for s in it.h(st, d).segs if isinstance(s, Entry) and s.k == k), None)


@rule('C20')
def type_codes(run):
    def one():
        e, st = pd_begin(run)
        it = run.it
        there, back = (it.entry('jsonpickle.tags_pd', n) for n in ('TYPE_MAP', 'REVERSE_TYPE_MAP'))
        h = it.h(st, there)
        run.ob.paths += 1
        if not (isinstance(h, HDict) and h.segs and all(isinstance(s, Entry) and isinstance(s.v, Const) for s in h.segs)):
            run.ob.undecided(f'TYPE_MAP is {there}, {h}')
            return
        for s in h.segs:
            got = lookup(it, st, back, s.v)
            if got != s.k:
                run.fail(st, f'{s.k} is written as {s.v}, which is read as {got}')
            if s.v in (C('object'), C('py/jp')):
                run.fail(st, f'{s.k} is written as {s.v}, which means something else')
    yield 'codes of column types are read as the types they stand for', one


@rule('C20')
def runs(run):
    def one(n):
        e, st = pd_begin(run)
        it = run.it
        xs = [T('arg', C(f't{i}')) for i in range(n)]
        for s, r in it.call(it.entry(PD, 'rle_encode'), [doc(it, st, xs)], {}, st):
            if not run.outcome(s, r, 'rle_encode'):
                continue
            s = s.clone()
            r = jsonified(it, s, r, [])
            for s, v in it.call(it.entry(PD, 'rle_decode'), [r], {}, s):
                if not run.outcome(s, v, 'rle_decode'):
                    continue
                got = as_tuple(it, s, v)
                if got is None or not all(isinstance(g, Item) for g in got.segs):
                    run.ob.undecided(f'{v} comes back')
                elif len(got.segs) != n:
                    run.fail(s, f'{len(got.segs)} types come back')
                else:
                    for i, (x, y) in enumerate(zip(xs, got.segs)):
                        if not joined(s, x, y.v):
                            run.fail(s, f'type {i} comes back as {y.v}')
    if not has(run, PD, 'rle_encode', 'rle_decode'):
        return
    for n in range(6 if run.thorough else 5):
        yield f'run lengths of {n} types', lambda n=n: one(n)


def joined(s, x, y):
    """Are x and y the same by the equalities of this path?"""
    seen, todo = {x}, [x]
    while todo:
        a = todo.pop()
        for f, t in s.facts.items():
            if t is True and isinstance(f, T) and f.op == 'eq' and a in f.args:
                for b in f.args:
                    if b not in seen:
                        seen.add(b)
                        todo.append(b)
    return y in seen


@rule('C20')
def processors(run):
    def one(threshold, compression, n):
        e, st = pd_begin(run)
        it = run.it
        buf = T('arg', C('text'))
        S = scene()
        S.kind(buf, K.Str())
        run.ctx.begin(S.world)
        kw = {k: v for k, v in (('size_threshold', threshold), ('compression', compression)) if v is not None}
        for s, p in e.calls(it.entry(PD, 'PandasProcessor'), [], kw, st):
            meta = doc(it, s, {'k': T('arg', C('meta'))})
            for s, d in e.method(p, 'flatten_pandas', [buf, doc(it, s, {'py/object': 'x'}), meta], s):
                if not run.outcome(s, d, 'flatten_pandas'):
                    continue
                bad = []
                s = s.clone()
                d = jsonified(it, s, d, bad)
                for b in bad:
                    run.fail(s, f'{b} is put in the document, which is not JSON')
                for s, v in e.method(p, 'restore_pandas', [d], s):
                    if run.outcome(s, v, 'restore_pandas'):
                        got = as_tuple(it, s, v)
                        if got is None or len(got.segs) != 2 or got.segs[0].v != buf:
                            run.fail(s, f'the text is restored as {got}')
                        elif lookup(it, s, got.segs[1].v, C('k')) != T('arg', C('meta')):
                            run.fail(s, f'the meta data is restored as {got.segs[1].v}')
    if not has(run, PD, 'PandasProcessor'):
        return
    for tn, t in {'default': None, 'none': NONE, 'zero': C(0), 'ten': C(10)}.items():
        for cn, c in {'default': None, 'none': NONE, 'bz2': BZ2, 'zlib': ZLIB}.items():
            yield f'PandasProcessor, threshold {tn}, compression {cn}', lambda t=t, c=c: one(t, c, 0)


@rule('C20')
def registration(run):
    def one(module, times):
        e, st = pd_begin(run)
        it = run.it
        reg = it.entry('jsonpickle.handlers', 'registry')
        before = snapshot(it, st, reg)
        cur = [st]
        for i in range(times):
            for f in ('register_handlers', 'unregister_handlers'):
                nxt = []
                for s in cur:
                    for s2, r in it.call(it.entry(module, f), [], {}, s):
                        if run.outcome(s2, r, f):
                            nxt.append(s2)
                cur = nxt
                if f == 'register_handlers':
                    for s in cur:
                        if snapshot(it, s, reg) == before:
                            run.fail(s, 'nothing is registered')
        for s in cur:
            after = snapshot(it, s, reg)
            for k in after:
                if k not in before:
                    run.fail(s, f'{k[1]} stays registered')
            for k in before:
                if k not in after:
                    run.fail(s, f'{k[1]} is no longer registered')
    for m in (NP, PD, 'jsonpickle.ext.gmpy'):
        for times in (1, 2):
            yield f'register and unregister {m} {times} times', lambda m=m, times=times: one(m, times)


def snapshot(it, st, reg):
    """Everything registered, as pairs of table and entry."""
    out = set()
    for n, v in it.h(st, reg).fields:
        h = it.h(st, v) if isinstance(v, Addr) else None
        for s in getattr(h, 'segs', ()):
            out.add((n, s.k if isinstance(s, Entry) else s))
    return out


# ---------------------------------------------------------------- by way of the registry
def registered(run, module, models, cls):
    """(engine, state, handler registered for the class) after register_handlers."""
    e, st = pd_begin(run)
    it = run.it
    it.load(models)
    for s, r in it.call(it.entry(module, 'register_handlers'), [], {}, st):
        if run.outcome(s, r, 'register_handlers'):
            for s, h in it.call(it.entry('jsonpickle.handlers', 'get'), [it.entry(models, cls)], {}, s):
                if run.outcome(s, h, 'get'):
                    if h == NONE:
                        run.fail(s, f'no handler is registered for {cls}')
                    else:
                        yield e, s, h


@rule('C20')
def by_class(run):
    def pandas(cls, *args, skip=(), **kw):
        for e, st, h in registered(run, PD, 'pandas', cls):
            for s, obj in build(run, st, cls, *args, **kw):
                pandas_trip(run, e, s, h, obj, skip)

    def multi():
        for e, st, h in registered(run, PD, 'pandas', 'MultiIndex'):
            multi_trip(run, e, st, h, 2, ['a', 'b'])

    def frames():
        for e, st, h in registered(run, PD, 'pandas', 'DataFrame'):
            frame(run, LABELS['text'], COLUMNS['objects'], (C('cols'), False), (C('idx'), 'object'), 2, (e, st, h))

    def array(text):
        for e, st, h in registered(run, NP, 'numpy', 'ndarray'):
            for s, obj in make(run, st, 'fresh', VALUES, C(text), tup(N, M), C('F'), C(False)):
                for s, v in trips(run, e, s, h, None, obj):
                    compare_arrays(run, e, s, obj, v, True)

    def others(cls):
        for e, st, h in registered(run, NP, 'numpy', cls):
            for s, d in make(run, st, '_named', C('>M8[ns]')):
                for s, obj in [(s, d)] if cls == 'dtype' else make(run, s, 'scalar', VALUES, d):
                    for s, v in trips(run, e, s, h, None, obj):
                        t = field(run.it, s, v if cls == 'dtype' else field(run.it, s, v, 'dtype'), 'text')
                        if t is None or itemwise(t) != itemwise(C('>M8[ns]')):
                            run.fail(s, f'{v} is restored, of dtype {t}')

    yield 'handler of Index', lambda: pandas('Index', list(cells('i', 'int64', 2)), dtype='int64', name='foo')
    yield 'handler of PeriodIndex', lambda: pandas('PeriodIndex', list(cells('i', 'period[M]', 2)), dtype='period[M]', name='foo')
    yield 'handler of RangeIndex', lambda: pandas('RangeIndex', list(cells('i', 'int64', 2)), dtype='int64', name='foo')
    yield 'handler of MultiIndex', multi
    yield 'handler of Series', lambda: pandas('Series', list(cells('v', 'int64', 2)), None, dtype='int64', name='foo')
    yield 'handler of DataFrame', frames
    yield 'handler of Timestamp', lambda: pandas('Timestamp', T('arg', C('moment')))
    yield 'handler of Period', lambda: pandas('Period', T('arg', C('start')), T('arg', C('freq')))
    yield 'handler of Interval', lambda: pandas('Interval', T('arg', C('left')), T('arg', C('right')), 'both')
    for t in ('int32', '>i4', 'object'):
        yield f'handler of ndarray, {t}', lambda t=t: array(t)
    for c in ('dtype', 'generic', 'scalar', 'datetime64'):
        yield f'handler of {c}', lambda c=c: others(c)
