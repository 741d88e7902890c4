"""What the pandas extension needs of pandas, as source the analyser reads.

Frames, series and indexes are lists of values with a dtype name and labels.
Text and values are kept apart from their types by the terms of the hooks below.
The source is interpreted abstractly together with the package, never run.
"""

from .models import hook
from .values import NONE, Addr, Const, T

PANDAS = '''
from verif_np import absent
from verif_pd import cast, iso, letter, moment, named


class Dtype:
    def __init__(self, name):
        self.name = name

    @property
    def kind(self):
        return letter(self.name)

    def __str__(self):
        return self.name

    def __repr__(self):
        return self.name

    def __eq__(self, other):
        return self.name == (other.name if isinstance(other, Dtype) else other)

    def __hash__(self):
        return hash(self.name)

    def __getattr__(self, name):
        return absent(self, name)


class Index:
    def __init__(self, data=None, dtype=None, copy=False, name=None, names=None, tupleize_cols=True):
        if isinstance(data, Index):
            if name is None:
                name = data.name
            data = data.items
        self.items = list(data)
        self.dtype = Dtype(named(dtype))
        if names is not None:
            name = names
        if isinstance(name, list):
            raise TypeError('Index.name must be a hashable type')
        self.name = name

    def tolist(self):
        return list(self.items)

    def to_list(self):
        return list(self.items)

    @property
    def values(self):
        return self

    @property
    def names(self):
        return [self.name]

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def __getattr__(self, name):
        return absent(self, name)


class PeriodIndex(Index):
    pass


class RangeIndex(Index):
    pass


class MultiIndex(Index):
    def __init__(self, data=None, names=None, dtype=None, name=None):
        self.items = list(data)
        self.dtype = Dtype('object')
        self.names = [None] if names is None else list(names)
        self.name = None

    @classmethod
    def from_tuples(cls, tuples, sortorder=None, names=None):
        for t in tuples:
            if not isinstance(t, tuple):
                raise TypeError('Input must be a list / sequence of tuple-likes.')
        return MultiIndex(tuples, names=names)


class Values:
    """The array of a series."""

    def __init__(self, items, dtype):
        self.items = items
        self.dtype = dtype

    def __getattr__(self, name):
        return absent(self, name)


class Series:
    def __init__(self, data=None, index=None, dtype=None, name=None, copy=None):
        if isinstance(data, Values):
            self.items = data.items
            self.dtype = data.dtype if dtype is None else Dtype(named(dtype))
        else:
            self.items = list(data)
            self.dtype = Dtype(named(dtype))
        self.index = index
        if isinstance(name, list):
            raise TypeError('Series.name must be a hashable type')
        self.name = name

    @property
    def values(self):
        return Values(self.items, self.dtype)

    @property
    def array(self):
        return self.values

    def tolist(self):
        return list(self.items)

    def to_list(self):
        return list(self.items)

    def apply(self, func):
        return Series([func(x) for x in self.items], self.index, 'object', self.name)

    map = apply

    def any(self):
        return any(self.items)

    def all(self):
        return all(self.items)

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def astype(self, dtype, copy=None):
        return Series([cast(x, named(dtype)) for x in self.items], self.index, dtype, self.name)

    def __getattr__(self, name):
        return absent(self, name)


class DataFrame:
    def __init__(self, data=None, index=None, columns=None, dtype=None):
        if data is None:
            data = {}
        self._cols = [Series(v, index, None, k) if not isinstance(v, Series) else v for k, v in data.items()]
        self._columns = Index(list(data), 'object')
        self.index = index

    def _rename(self, labels):
        if not isinstance(labels, Index):
            labels = Index(labels, 'object')
        if len(labels.items) != len(self._cols):
            raise ValueError('Length mismatch')
        self._columns = labels

    @property
    def columns(self):
        return self._columns

    @columns.setter
    def columns(self, labels):
        self._rename(labels)

    @property
    def dtypes(self):
        return absent(self, 'dtypes')

    @property
    def empty(self):
        return len(self._cols) == 0

    def __getitem__(self, key):
        for k, c in zip(self._columns.items, self._cols):
            if k == key:
                return c
        raise KeyError(key)

    def __setitem__(self, key, value):
        new = []
        for k, c in zip(self._columns.items, self._cols):
            new.append(value if k == key else c)
        self._cols = new

    def items(self):
        return list(zip(self._columns.items, self._cols))

    def __len__(self):
        return len(self.index)

    def __getattr__(self, name):
        return absent(self, name)


class Timestamp:
    def __init__(self, value=None, tz=None):
        self.value = moment(value)

    def isoformat(self, sep='T', timespec='auto'):
        return iso(self.value, sep, timespec)

    def __str__(self):
        return iso(self.value, ' ', 'auto')

    def __getattr__(self, name):
        return absent(self, name)


class Timedelta:
    pass


class Period:
    def __init__(self, value=None, freq=None):
        self.start_time = value
        self.freqstr = freq

    def __getattr__(self, name):
        return absent(self, name)


class Interval:
    def __init__(self, left, right, closed='right'):
        self.left = left
        self.right = right
        self.closed = closed

    def __getattr__(self, name):
        return absent(self, name)


class StringDtype:
    def __init__(self, storage=None):
        self.storage = storage

    def __str__(self):
        return 'string'


class _types:
    @staticmethod
    def pandas_dtype(dtype):
        return Dtype(named(dtype))


class api:
    types = _types
'''

# the names tags_pd collects from numpy and pandas
DTYPE_NAMES = {
    'np_dtypes': ('bool', 'float16', 'float32', 'float64', 'float128', 'complex64', 'complex128', 'complex256', 'object', 'str', 'bytes', 'void', 'int8', 'int16',
                  'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'datetime64', 'timedelta64')
    + tuple(f'{t}64[{u}]' for t in ('datetime', 'timedelta') for u in ('Y', 'M', 'W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns', 'ps', 'fs', 'as')),
    'pd_dtypes': ('category', 'interval', 'boolean', 'int8', 'int64', 'uint8', 'float32', 'float64', 'string', 'period', 'sparse', 'str'),
}


@hook('verif_pd.named')
def named(it, args, kw, st):
    v = args[0]
    h = it.h(st, v) if isinstance(v, Addr) else None
    if h is not None and getattr(h, 'get', None) and h.get('name') is not None:
        v = h.get('name')
    if v == NONE:
        return [(st, Const('inferred'))]
    if getattr(v, 'name', None) == 'builtins.object':
        return [(st, Const('object'))]
    return [(st, v)]


@hook('verif_pd.letter')
def letter(it, args, kw, st):
    n = args[0].v if isinstance(args[0], Const) else ''
    return [(st, Const({'datetime': 'M', 'timedelta': 'm', 'int': 'i', 'uint': 'u', 'float': 'f', 'bool': 'b', 'complex': 'c'}.get(n.rstrip('0123456789[]Dnsu'), 'O')))]


@hook('verif_pd.cast')
def cast(it, args, kw, st):
    x, name = args
    if name in (Const('object'), Const('inferred')) or isinstance(x, T) and x.op == 'cell' and x.args[1] == name:
        return [(st, x)]
    return [(st, T('cast', x, name))]


@hook('verif_pd.iso')
def iso(it, args, kw, st):
    v, sep, spec = args
    if spec not in (Const('auto'), Const('nanoseconds')):
        v = T('cut', v, spec)
    return [(st, T('iso', v))]


@hook('verif_pd.moment')
def moment(it, args, kw, st):
    v = args[0]
    return [(st, v.args[0] if isinstance(v, T) and v.op == 'iso' else v)]
