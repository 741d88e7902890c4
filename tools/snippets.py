import collections
import copy
import functools
import itertools
import operator
from collections import ChainMap, OrderedDict, defaultdict, deque
from contextlib import contextmanager, suppress
from dataclasses import dataclass, field
from enum import Enum
from functools import partial, reduce
from typing import NamedTuple, cast


class Box:
    kind = 'box'

    def __init__(self, v=None):
        self.v = v

    def get(self):
        return self.v

    @property
    def twice(self):
        return [self.v, self.v]

    @staticmethod
    def make(v):
        return Box(v)

    @classmethod
    def of(cls, v):
        return cls(v)

    def __len__(self):
        return 3

    def __getitem__(self, k):
        return (k, self.v)

    def __contains__(self, k):
        return k == self.v

    def __eq__(self, o):
        return isinstance(o, Box) and o.v == self.v

    def __hash__(self):
        return 1

    def __iter__(self):
        return iter([self.v, self.v])


class Sub(Box):
    def get(self):
        return ['sub', super().get()]


@dataclass
class Data:
    a: int
    b: list = field(default_factory=list)
    c: str = 'c'


class Color(Enum):
    RED = 1
    BLUE = 2


class Point(NamedTuple):
    x: int
    y: int = 5


# lists
def t_list_slice_del():
    x = [1, 2, 3, 4, 5]
    del x[2:]
    return x


def t_list_slice_del2():
    x = [1, 2, 3, 4, 5]
    del x[1:3]
    return x


def t_list_slice_assign():
    x = [1, 2, 3, 4]
    x[1:3] = ['a', 'b', 'c']
    return x


def t_list_slice_all():
    x = [1, 2]
    y = x
    x[:] = [3]
    return y


def t_list_del_index():
    x = [1, 2, 3]
    del x[-1]
    del x[0]
    return x


def t_list_insert():
    x = [1, 2]
    x.insert(0, 'a')
    x.insert(1, 'b')
    x.insert(-1, 'c')
    return x


def t_list_pop():
    x = [1, 2, 3, 4]
    return x.pop(), x.pop(0), x.pop(-1), x


def t_list_pop_empty():
    return [].pop()


def t_list_remove():
    x = [1, 2, 1]
    x.remove(1)
    return x


def t_list_remove_missing():
    [1].remove(2)


def t_list_index_count():
    x = ['a', 'b', 'a']
    return x.index('b'), x.count('a'), x.index('a', 1)


def t_list_reverse():
    x = [1, 2, 3]
    x.reverse()
    return x, x[::-1], list(reversed(x))


def t_list_sort():
    x = [3, 1, 2]
    x.sort()
    return x, sorted(x, reverse=True), sorted(['bb', 'a'], key=len)


def t_list_concat():
    a = [1]
    b = a + [2] + list((3,))
    a += [9]
    return a, b, [0] * 3, [*a, *b]


def t_list_copy_clear():
    a = [1, 2]
    b = a.copy()
    a.clear()
    return a, b


def t_list_extend_gen():
    a = [1]
    a.extend(x * 2 for x in (1, 2))
    return a


def t_list_cmp():
    return [1, 2] == [1, 2], (1, 2) < (1, 3), [1] != [2], [] == ()


def t_list_in():
    return 1 in [1, 2], 3 not in [1, 2], 'a' in ('b', 'a')


def t_nested_comp():
    return [(i, j) for i in range(3) for j in range(i) if i != j + 1]


def t_dict_comp():
    return {k: v for k, v in zip('ab', [1, 2])}


def t_set_comp():
    return {x % 2 for x in [1, 2, 3]}


def t_enumerate():
    return [(i, x) for i, x in enumerate(['a', 'b'], 1)]


def t_zip():
    return list(zip([1, 2], ['a', 'b'])), dict(zip(['x'], [1]))


def t_zip_longest():
    return list(itertools.zip_longest([1, 2], ['a']))


def t_any_all():
    return any(x > 1 for x in [1, 2]), all(x > 1 for x in [1, 2]), any([]), all([])


def t_sum_max_min():
    return sum([1, 2]), max(1, 5, 3), min([4, 2]), max([], default=0)


def t_map_filter():
    return list(map(str, [1, 2])), list(filter(None, [0, 1])), list(filter(lambda x: x > 1, [1, 2]))


def t_unpack_star():
    a, *b, c = [1, 2, 3, 4]
    return a, b, c


def t_unpack_nested():
    (a, b), c = (1, 2), 3
    return a, b, c


def t_unpack_wrong():
    a, b = [1]
    return a


def t_swap():
    a, b = 1, 2
    a, b = b, a
    return a, b


def t_slices():
    x = [0, 1, 2, 3, 4]
    return x[1:], x[:-1], x[-2:], x[::2], (1, 2, 3)[1:], 'abc'[1:], 'abc'[:-1]


def t_index_error():
    return [1][3]


def t_while():
    i, out = 0, []
    while i < 3:
        out.append(i)
        i += 1
    return out


def t_while_else():
    i = 0
    while i < 2:
        i += 1
    else:
        return 'else'


def t_for_else():
    for x in [1, 2]:
        if x == 3:
            break
    else:
        return 'none'
    return 'found'


def t_for_break():
    for x in [1, 2, 3]:
        if x == 2:
            break
    return x


def t_for_continue():
    out = []
    for x in [1, 2, 3]:
        if x == 2:
            continue
        out.append(x)
    return out


def t_while_true():
    q, out = [1, [2, 3]], []
    while q:
        x = q.pop(0)
        if isinstance(x, list):
            q.extend(x)
            continue
        out.append(x)
    return out


def t_iter_next():
    i = iter([1, 2])
    return next(i), next(i), next(i, 'end')


def t_next_stop():
    next(iter([]))


def t_next_gen():
    return next((x for x in [1, 2, 3] if x > 1), None), next((x for x in [1] if x > 1), 'no')


def t_generator():
    def g():
        yield 1
        yield from [2, 3]
        if False:
            yield 9
    return list(g())


def t_generator_loop():
    def g(xs):
        for x in xs:
            if x:
                yield x
    return [y for y in g([0, 1, 2])]


# dicts
def t_dict_basic():
    d = {'a': 1}
    d['b'] = 2
    d.update({'c': 3}, e=5)
    d.setdefault('a', 9)
    d.setdefault('f', [])
    return d, d.get('a'), d.get('z'), d.get('z', 0)


def t_dict_pop():
    d = {'a': 1, 'b': 2}
    return d.pop('a'), d.pop('z', None), d


def t_dict_pop_missing():
    return {}.pop('a')


def t_dict_key_error():
    return {'a': 1}['b']


def t_dict_del():
    d = {'a': 1, 'b': 2}
    del d['a']
    return d, 'a' in d


def t_dict_views():
    d = {'a': 1, 'b': 2}
    return list(d), list(d.keys()), list(d.values()), list(d.items()), sorted(d), len(d)


def t_dict_merge():
    a = {'x': 1, 'y': 2}
    b = {'y': 3}
    c = {**a, **b, 'z': 4}
    d = a | b
    a |= {'w': 0}
    return a, c, d


def t_dict_ctor():
    return dict(a=1), dict([('b', 2)]), dict({'c': 3}, d=4), dict(zip('ef', (5, 6)))


def t_dict_fromkeys():
    return dict.fromkeys(['a', 'b']), dict.fromkeys('a', 0)


def t_dict_copy():
    a = {'x': [1]}
    b = a.copy()
    b['x'].append(2)
    b['y'] = 1
    return a, b


def t_dict_clear():
    a = {'x': 1}
    a.clear()
    return a, bool(a)


def t_dict_popitem():
    a = {'x': 1, 'y': 2}
    return a.popitem(), a


def t_dict_order():
    d = {}
    for k in ('b', 'a'):
        d[k] = k
    d['b'] = 0
    return list(d.items())


def t_dict_eq():
    return {'a': 1, 'b': 2} == {'b': 2, 'a': 1}, {'a': 1} != {'a': 2}


def t_dict_mutate_loop():
    d = {'a': 1, 'b': 2, 'c': 3}
    for k in list(d):
        if k != 'b':
            del d[k]
    return d


def t_dict_setdefault_append():
    d = {}
    for k, v in [('a', 1), ('b', 2), ('a', 3)]:
        d.setdefault(k, []).append(v)
    return d


def t_dict_keys_ops():
    return {'a': 1, 'b': 2}.keys() - {'a'}, {'a': 1}.keys() & {'a', 'c'}


def t_defaultdict():
    d = defaultdict(list)
    d['a'].append(1)
    return dict(d)


def t_ordered():
    d = OrderedDict()
    d['a'] = 1
    return list(d.items())


def t_try_keyerror():
    d = {}
    try:
        return d['x']
    except KeyError:
        return 'missing'


def t_try_else_finally():
    out = []
    try:
        out.append('try')
    except ValueError:
        out.append('except')
    else:
        out.append('else')
    finally:
        out.append('finally')
    return out


def t_finally_return():
    out = []

    def f():
        try:
            return 'r'
        finally:
            out.append('f')
    return f(), out


def t_raise_from():
    try:
        try:
            raise KeyError('k')
        except KeyError as e:
            raise ValueError('v') from e
    except ValueError as e:
        return e.args


def t_reraise():
    try:
        raise TypeError('x')
    except TypeError:
        raise


def t_except_tuple():
    try:
        int('x')
    except (TypeError, ValueError):
        return 'caught'


def t_except_order():
    try:
        {}['a']
    except LookupError:
        return 'lookup'
    except KeyError:
        return 'key'


def t_suppress():
    x = 1
    with suppress(KeyError):
        x = 2
        {}['a']
        x = 3
    return x


def t_contextmanager():
    out = []

    @contextmanager
    def cm(v):
        out.append('in')
        try:
            yield v
        finally:
            out.append('out')
    with cm(5) as y:
        out.append(y)
    return out


# strings
def t_str_methods():
    return ('a.b.c'.split('.'), 'a.b.c'.rsplit('.', 1), 'a.b'.partition('.'), 'a.b.c'.rpartition('.'), ' a '.strip(), 'Ab'.lower(), 'Ab'.upper(),
            'abc'.replace('b', 'x'), 'abc'.startswith(('x', 'a')), 'abc'.endswith('c'), 'abc'.find('z'), '-'.join(['a', 'b']), 'abc'.removeprefix('a'), 'abc'.removesuffix('c'))


def t_str_format():
    a = 'x'
    return f'{a}-{1}', '%s/%s' % (a, 2), '{}+{}'.format(a, 'b'), f'{a!r}', '%s' % a, '{0}{n}'.format('a', n='b')


def t_str_index():
    return 'abc'[0], 'abc'[-1], len('abc'), 'b' in 'abc', 'a' + 'b', 'ab' * 2, 'a' < 'b'


def t_str_iter():
    return list('abc'), [c for c in 'ab'], tuple('xy'), ''.join(c for c in 'abc' if c != 'b')


def t_str_count():
    return 'a/b/c'.count('/'), 'abc'.index('b'), 'abc'.isidentifier(), 'aXb'.casefold(), '1'.isdigit()


def t_bytes():
    return b'abc'.decode('utf-8'), 'abc'.encode(), bytes([1, 2]), bytearray(b'x') == b'x'


def t_int_conv():
    return int('3'), str(3), float('1'), bool([]), bool('a'), int(True), abs(-2), divmod(7, 2), 7 // 2, 7 % 3, 2 ** 3, -3, +3, ~1


def t_bit():
    return 5 & 3, 5 | 3, 5 ^ 3, 1 << 3, 8 >> 1


def t_compare_chain():
    return 1 < 2 < 3, 1 < 3 < 2, 1 == 1.0, None is None, not None


def t_bool_ops():
    return None or 'x', 0 and 1, '' or [] or 'z', 1 and 2, not [], 'a' if [] else 'b'


def t_ternary_nest():
    x = 5
    return 'a' if x < 3 else 'b' if x < 6 else 'c'


def t_walrus():
    if (n := len([1, 2])) > 1:
        return n


def t_match():
    def f(x):
        match x:
            case None:
                return 'none'
            case {'a': v}:
                return v
            case [a, *rest]:
                return rest
            case 'x' | 'y':
                return 'xy'
            case int():
                return 'int'
            case _:
                return 'other'
    return f(None), f({'a': 1}), f([1, 2, 3]), f('y'), f(3), f('z')


# sets
def t_set_ops():
    a = {1, 2}
    b = {2, 3}
    a.add(4)
    a.discard(9)
    return a, a | b, a & b, a - b, a ^ b, a.union([5]), a.issubset({1, 2, 4, 5}), a.isdisjoint({9}), len(a)


def t_set_update():
    a = set()
    a.update([1, 2], (3,))
    a.remove(1)
    a |= {9}
    return a


def t_set_remove_missing():
    set().remove(1)


def t_frozenset():
    return frozenset([1, 2]) == {1, 2}, 1 in frozenset((1,))


# functions and classes
def t_default_args():
    def f(a, b=2, *args, c=3, **kw):
        return a, b, args, c, kw
    return f(1), f(1, 5, 6, c=7, d=8), f(*[1, 2], **{'c': 9})


def t_missing_arg():
    def f(a):
        return a
    return f()


def t_closure():
    def outer(x):
        def inner(y):
            return x + y
        return inner
    return outer(1)(2)


def t_nonlocal():
    n = 0

    def inc():
        nonlocal n
        n += 1
        return n
    inc()
    inc()
    return n


def t_lambda():
    f = lambda x, y=2: (x, y)  # noqa: E731
    return f(1), f(1, y=3)


def t_partial():
    def f(a, b, c=None):
        return a, b, c
    return partial(f, 1)(2), partial(f, b=5)(1, c=2), functools.partial(f, 1, 2)()


def t_reduce():
    return reduce(lambda a, b: a + b, [1, 2, 3]), functools.reduce(getattr, ['v'], Box(7))


def t_operator():
    return operator.itemgetter(0)([5, 6]), operator.attrgetter('v')(Box(3)), operator.itemgetter('a', 'b')({'a': 1, 'b': 2})


def t_methodcaller():
    return operator.methodcaller('get')(Box(1))


def t_itertools():
    return (list(itertools.chain([1], [2])), list(itertools.islice([1, 2, 3], 2)), list(itertools.chain.from_iterable([[1], [2]])),
            list(itertools.islice([1, 2, 3, 4], 1, 3)), list(itertools.repeat(1, 2)))


def t_takewhile():
    return list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1])), list(itertools.dropwhile(lambda x: x < 2, [1, 2, 1]))


def t_starmap():
    return list(itertools.starmap(lambda a, b: a + b, [(1, 2), (3, 4)]))


def t_deque():
    d = deque([1, 2])
    d.append(3)
    d.appendleft(0)
    return d.popleft(), d.pop(), list(d), len(d)


def t_counter():
    return dict(collections.Counter('aab'))


def t_class_basic():
    b = Box(5)
    b.w = 6
    return b.v, b.get(), b.w, b.kind, b.twice, Box.make(1).v, Box.of(2).v, Sub(3).get(), Sub.kind


def t_class_getattr():
    b = Box(5)
    return getattr(b, 'v'), getattr(b, 'zz', None), hasattr(b, 'v'), hasattr(b, 'zz')


def t_class_setattr():
    b = Box(5)
    setattr(b, 'n', 1)
    b.v += 1
    del b.n
    return b.v, hasattr(b, 'n')


def t_attr_error():
    return Box().zz


def t_class_dunder():
    b = Box(5)
    return len(b), b['k'], 5 in b, b == Box(5), b != Box(6), list(b), [*b]


def t_isinstance():
    return isinstance(Sub(), Box), isinstance(1, (str, int)), issubclass(Sub, Box), type(Sub()) is Sub, isinstance(True, int), type(1) is bool


def t_vars():
    b = Box(5)
    return vars(b), b.__dict__, b.__class__ is Box, Box.__name__, b.__class__.__name__


def t_dataclass():
    d = Data(1)
    d.b.append(2)
    return d.a, d.b, d.c, Data(2, [3], c='x').c, Data(1) == Data(1)


def t_enum():
    return Color.RED is Color.RED, Color.RED == Color.BLUE, Color.RED.name, Color.BLUE.value


def t_namedtuple():
    p = Point(1)
    return p.x, p.y, p[0], list(p), p == (1, 5), p._fields, p._replace(x=3).x


def t_callable():
    return callable(len), callable(1), callable(Box), callable(lambda: 1)


def t_method_ref():
    x = []
    add = x.append
    add(1)
    add(2)
    b = Box(3)
    g = b.get
    return x, g(), Box.get(b)


def t_dispatch_dict():
    def a(x):
        return ('a', x)

    def b(x):
        return ('b', x)
    table = {int: a, str: b}
    return table[int](1), table.get(str, a)('x'), table.get(list, a)([])


def t_dispatch_list():
    table = [(lambda x: x == 1, 'one'), (lambda x: x == 2, 'two')]
    for pred, name in table:
        if pred(2):
            return name


def t_isinstance_chain():
    out = []
    for x in [1, 'a', [1], None, {'k': 1}, (2,)]:
        if isinstance(x, str):
            out.append('s')
        elif isinstance(x, (list, tuple)):
            out.append('l')
        elif x is None:
            out.append('n')
        elif isinstance(x, dict):
            out.append('d')
        else:
            out.append('o')
    return out


def t_copy():
    a = [1, [2]]
    b = copy.copy(a)
    c = copy.deepcopy(a)
    a[1].append(3)
    return a, b, c


def t_identity():
    a = []
    return a is a, a is [], id(a) == id(a), id(a) == id([])


def t_global_const():
    return Color, Box is Sub


def t_recursion():
    def fl(x):
        if isinstance(x, list):
            return [y for e in x for y in fl(e)]
        return [x]
    return fl([1, [2, [3]], 4])


def t_assert():
    assert [] == [], 'no'
    return 1


def t_assert_fails():
    assert 1 == 2, 'no'


def t_del_var():
    x = 1
    del x
    return x


def t_star_call():
    def f(*a, **k):
        return a, k
    return f(*(1, 2), *[3], **{'a': 1}, b=2)


def t_chained_assign():
    a = b = []
    a.append(1)
    return b


def t_augassign_index():
    d = {'a': 1}
    d['a'] += 2
    x = [1, 2]
    x[0] *= 5
    return d, x


def t_try_attr():
    try:
        return Box(1).nope
    except AttributeError:
        return 'none'


def t_multi_return():
    for i in range(5):
        for j in range(5):
            if i * j == 6:
                return i, j


def t_range():
    return list(range(3)), list(range(1, 6, 2)), list(range(3, 0, -1)), len(range(4)), 2 in range(3)


def t_tuple_ops():
    return (1,) + (2,), tuple([1, 2]), (1, 2)[0], len((1,)), (1, 2).index(2), (1, 1).count(1)


def t_sorted_items():
    return sorted({'b': 1, 'a': 2}.items()), sorted({'b': 1, 'a': 2}.items(), key=lambda kv: kv[1])


def t_cast():
    return cast(int, 'x')


def t_ellipsis():
    return [1, 2] is None, ... is Ellipsis


def t_str_bool_join():
    parts = ['a', '', 'b']
    return '.'.join(p for p in parts if p), '/'.join(filter(None, parts))


def t_accumulate_tuple():
    out = ()
    for x in [1, 2]:
        out += (x,)
    return out


def t_list_of_pairs():
    pairs = []
    for k, v in {'a': 1, 'b': 2}.items():
        pairs.append((k, v))
    keys, vals = zip(*pairs)
    return keys, vals


def t_none_default():
    def f(x=None):
        x = x or {}
        x['k'] = 1
        return x
    return f(), f({'a': 0})


def t_exc_value():
    try:
        raise ValueError('msg', 2)
    except ValueError as e:
        return e.args, str(ValueError('q')), type(e) is ValueError, isinstance(e, Exception)


def t_stop_iter_loop():
    it = iter([1, 2, 3])
    out = []
    while True:
        try:
            out.append(next(it))
        except StopIteration:
            break
    return out


def t_sentinel():
    missing = object()
    d = {'a': None}
    return d.get('a', missing) is missing, d.get('b', missing) is missing


def t_chainmap():
    return ChainMap({'a': 1}, {'b': 2})['b']


def t_draw_loop():
    out = []
    it = iter([1, 2, 3])
    while True:
        try:
            x = next(it)
        except StopIteration:
            break
        if x == 2:
            continue
        out.append(x)
    return out, list(it)


def t_draw_loop_break():
    out = []
    it = iter([1, 2, 3, 4])
    while True:
        try:
            x = next(it)
        except StopIteration:
            break
        if x == 2:
            break
        out.append(x)
    return out


def t_draw_two():
    out = []
    it = iter([1, 2, 3, 4])
    while True:
        try:
            x = next(it)
        except StopIteration:
            break
        out.append((x, next(it)))
    return out


def t_draw_sentinel():
    end = object()
    it = iter([1, None, 3])
    out = []
    while (x := next(it, end)) is not end:
        out.append(x)
    while True:
        x = next(it, end)
        if x is end:
            break
        out.append(x)
    return out


def t_draw_none():
    it = iter([1, None, 3])
    out = []
    while True:
        x = next(it, None)
        if x is None:
            break
        out.append(x)
    return out


def t_index_loop():
    seq = ['a', 'b', 'c']
    out = []
    i = 0
    while i < len(seq):
        out.append((i, seq[i]))
        i += 1
    return out


def t_index_loop_size():
    seq = ['a', 'b', 'c']
    out = []
    i = 0
    n = len(seq)
    while i < n:
        x = seq[i]
        i += 1
        if x == 'b':
            continue
        out.append(x)
    return out


def t_index_loop_changes():
    seq = [1, 2, 3]
    out = []
    i = 0
    while i < len(seq):
        if seq[i] == 1:
            seq.append(9)
        out.append(seq[i])
        i += 1
    return out


def t_index_from_one():
    seq = ['a', 'b', 'c']
    out = []
    i = 1
    while i < len(seq):
        out.append(seq[i])
        i += 1
    return out


def t_range_len():
    seq = ['a', 'b', 'c']
    return_ = []
    for i in range(len(seq)):
        if seq[i] == 'b':
            continue
        return_.append((i, seq[i]))
    return return_


def t_range_len_neighbours():
    seq = ['a', 'b', 'c']
    out = []
    for i in range(len(seq)):
        out.append((seq[i], seq[i - 1]))
    return out


def t_filled():
    seq = ['a', 'b', 'c']
    out = [None] * len(seq)
    for i in range(len(seq)):
        out[i] = seq[i] + '!'
    return out


def t_filled_partly():
    seq = ['a', 'b', 'c']
    out = [None] * len(seq)
    for i, x in enumerate(seq):
        if x == 'b':
            continue
        out[i] = x
    return out


def t_inplace():
    seq = ['a', 'b', 'c']
    other = seq
    for i, x in enumerate(seq):
        seq[i] = x + '!'
    for i in range(len(seq)):
        seq[i] = seq[i] + '?'
    return other


def t_inplace_looks_back():
    seq = ['a', 'b', 'c']
    for i, x in enumerate(seq):
        seq[i] = seq[i - 1] + x
    return seq


def t_taken():
    todo = list('abc')
    out = []
    while todo:
        x = todo.pop(0)
        out.append(x)
    todo2 = deque('abc')
    while todo2:
        x = todo2.popleft()
        out.append(x)
    todo3 = ['a', 'b']
    while len(todo3) > 0:
        x = todo3.pop()
        out.append(x)
    return out, todo, todo3


def t_taken_grows():
    todo = ['a', 'b']
    out = []
    while todo:
        x = todo.pop(0)
        if x == 'a':
            todo.append('c')
        out.append(x)
    return out


def t_lazy_all():
    seen = []

    def look(x):
        seen.append(x)
        return x != 2
    return all(look(x) for x in [1, 2, 3]), any(look(x) for x in [1, 2, 3]), next((x for x in [1, 2, 3] if look(x)), None), seen


def t_lazy_next():
    return next((x for x in [1, 2] if x > 5), 'none'), next(x for x in [1, 2] if x > 1)


def t_groups():
    return [(k, list(g)) for k, g in itertools.groupby(['a', 'a', 'b', 'a'])], [[k, len(list(g))] for k, g in itertools.groupby([1, 1, 2], key=lambda x: x + 1)]


def t_itertools():
    return list(itertools.product([1, 2], 'ab')), list(itertools.accumulate([1, 2, 3])), list(itertools.pairwise([1, 2, 3]))


def t_affix():
    s = 'json://x'
    return s[:7] == 'json://', s[-1:] == 'x', s[:3] != 'jso'
