"""C21: handlers stay in the reference space of the call that uses them.

Built-in handlers go through the whole encoder and decoder with shared objects
around and inside the handled value.  Extension handlers are analysed with the
stand-in for the context: what takes part in the numbering while flattening has
to take part in it, in the same order, while restoring.
"""

from . import kinds as K
from . import rules_ext as E
from . import scenes as Z
from .check import ASSUMPTIONS, TEXT, rule
from .numpy_model import as_tuple
from .rules_trip import KEYS, o, trips
from .shapes import Scene, arg, flat_events, tup
from .values import FALSE, Addr, Const, Entry, HDict, HList, Item, T

C = Const
D = Z.D
TEXT['C21'] = ('Every library value with a handler, holding and surrounded by shared objects, and every extension handler in every configuration: '
               'nested values are flattened and restored without reset, those that get a number while encoding get it in the same order while '
               'decoding, none is encoded or decoded by a call of its own, and each reference after the handled value resolves to its own object.')
ASSUMPTIONS['C21'] = ['numpy and pandas behave like the models in sa/numpy_model.py and sa/pandas_model.py.']

HANDLED = ('UUID', 'compiled regex', 'array', 'lock', 'queue', 'datetime', 'datetime with time zone', 'date', 'time', 'time with time zone')


# ---------------------------------------------------------------- built-in handlers
@rule('C21')
def library(run):
    yield from trips(run, [n for n in HANDLED if n in Z.ALL], Z.POSITIONS, KEYS + ({'max_depth': 50}, {'warn': True}), only_refs=True)


HELD = {
    'an instance': lambda S: S.inst('y', dict_entries=[(C('v'), D('yv'))]),
    'a list': lambda S: S.list('y', [D('yv')]),
    'a slotted instance': lambda S: S.inst('y', has_dict=False, slots=('v',), attrs={'v': D('yv')}),
    'an instance that holds an instance': lambda S: S.inst('y', dict_entries=[(C('z'), S.inst('z', dict_entries=[(C('v'), D('zv'))]))]),
    'an instance that reduces': lambda S: S.inst('y', own={'__reduce__': tup(S.func('make', makes=arg('y')), S.tuple('yargs', [D('ya')]))},
                                                check=lambda m, v: m.obj(arg('y'), v, None, ('call', arg('make'), [D('ya')]))),
}


def around(S, x, x2, y):
    p = S.list('p', [D('pv')])
    return {
        'after it': lambda: S.list('root', [x, y, p, y, p]),
        'before it': lambda: S.list('root', [y, p, x, y, p]),
        'around it': lambda: S.dict('root', [(C('a'), y), (C('b'), x), (C('c'), p), (C('d'), y), (C('e'), p), (C('f'), x)]),
        'in two': lambda: S.list('root', [x, x2, p, y, p, x2]),
        'in two, attributes': lambda: S.inst('root', dict_entries=[(C('a'), x), (C('b'), p), (C('c'), x2), (C('d'), y), (C('e'), p)]),
        'in two, tuple': lambda: S.tuple('root', [x, p, x2, y, p]),
    }


@rule('C21')
def zones(run):
    """A time zone is whatever object the user put there."""
    import datetime
    for t in (datetime.datetime, datetime.time):
        for hn, held in HELD.items():
            for where in around(Scene('x'), None, None, None):
                for e in KEYS:
                    def go(t=t, held=held, where=where, e=e):
                        S = Scene('c21')
                        y = held(S)
                        x, x2 = moment(S, t, 'x', y), moment(S, t, 'x2', y)
                        S.root = around(S, x, x2, y)[where]()
                        run.round_trip(S, e, only_refs=True)
                    yield f'{t.__name__} with {hn} as time zone, {where}, {o(e)}', go


def moment(S, t, n, y):
    x = arg(n)
    raw = T('state', x, C('bytes'))
    S.kind(raw, K.Scalar(bytes))
    S.expect[raw] = lambda m, v: m.eq(raw, v)
    r = tup(Z.ref_of_type(t), tup(raw, y))
    S.kind(x, K.Exact(t, own={'__reduce__': r, '__reduce_ex__': r}))
    S.identity.add(x)
    S.expect[x] = lambda m, v: Z.values(m, v, Z.ref_of_type(t), [raw, y])
    return x


# ---------------------------------------------------------------- extension handlers
def counted(it, st, c):
    """The values the context has given numbers to, in order."""
    d = E.field(it, st, c, '_objs')
    h = it.h(st, d) if isinstance(d, Addr) else None
    if not isinstance(h, HDict) or not all(isinstance(s, Entry) for s in h.segs):
        return None
    return [s.v for s in h.segs if not isinstance(s.v, Const)]


def same(it, st, a, b):
    if a == b:
        return True
    x, y = (it.h(st, v) if isinstance(v, Addr) else None for v in (a, b))
    if isinstance(x, HList) and isinstance(y, HList):
        p, q = as_tuple(it, st, a).segs, as_tuple(it, st, b).segs
        return len(p) == len(q) and all(isinstance(i, Item) and isinstance(j, Item) and same(it, st, i.v, j.v) for i, j in zip(p, q))
    return False


def numbering(run):
    def judge(st, c, c2):
        it = run.it
        for ev in flat_events(st.events):
            if ev.name == 'nested' and ev.args[0] in (C('flatten'), C('restore')) and ev.args[2:3] != (FALSE,):
                run.fail(st, f'{ev.args[0].v} of a nested value starts over', ev.site)
        a, b = counted(it, st, c), counted(it, st, c2)
        if a is None or b is None:
            run.fail(st, 'what has a number is replaced by something else')
        elif len(a) != len(b):
            run.fail(st, f'{len(a)} nested values take part in the numbering of the encoder and {len(b)} in that of the decoder')
        else:
            for i, (x, y) in enumerate(zip(a, b)):
                if not same(it, st, x, y):
                    run.fail(st, f'nested value {i} of the encoder is {x}, of the decoder {y}')
    run.judge = judge


def few(f):
    """The obligations of a rule of C20, judged by the numbering."""
    def g(run):
        for oid, thunk in f(run):
            def go(thunk=thunk):
                numbering(run)
                thunk()
            yield oid, go
    return g


SOME = ('int32', '>M8[ns]', 'object', "[('a', '<i4'), ('b', '>f8')]")


def narrowed(f):
    def g(run):
        old, E.DTYPES = E.DTYPES, SOME
        try:
            obs = list(f(run))
        finally:
            E.DTYPES = old
        return obs
    return g


for _f in (E.text_arrays, E.binary_arrays, E.views, E.permuted, E.buffers, E.dtypes):
    rule('C21')(few(narrowed(_f)))
for _f in (E.scalars, E.ufuncs, E.integers, E.indexes, E.all_series, E.moments, E.frames):
    rule('C21')(few(_f))


# the parts of these are computed when asked for, nothing else can hold them
COMPUTED = ('Period', 'PeriodIndex', 'RangeIndex')


@rule('C21')
def own_calls(run):
    def judge(st, c, c2):
        for ev in flat_events(st.events):
            if ev.name == 'nested' and ev.args[0] in (C('encode'), C('decode')):
                run.fail(st, f'a part of the value goes through {ev.args[0].v}, which has references of its own', ev.site)
                return
    for oid, thunk in E.by_class(run):
        if oid.rpartition(' ')[2] in COMPUTED:
            continue

        def go(thunk=thunk):
            run.judge = judge
            thunk()
        yield f'{oid}: calls of encode and decode', go
