"""C27: the vocabulary of the document."""

import json
import os

from . import scenes as Z
from .check import TEXT, rule
from .docs import doc
from .rules_doc import doc_of
from .rules_missing import class_name
from .rules_safe import add_doc_rules
from .shapes import Scene, arg
from .values import NONE, Addr, Const, Each, Entry, HDict, HObj, HUnk, Item, Op, Ref, T, TupV

D = Z.D
C = Const

TEXT['C27'] = ('The member names of the document written for each kind of value, with the path to each, are those of the recorded vocabulary; documents in the '
               'forms that older versions wrote decode to the value they stand for; and the tag constants are pairwise different and keep their spelling.')

TABLE = os.path.join(os.path.dirname(__file__), 'vocabulary.json')
OPTIONS = {'defaults': {}, 'keys': {'keys': True}, 'use_base85': {'use_base85': True}, 'include_properties': {'include_properties': True},
           'make_refs off': {'make_refs': False}, 'unpicklable off': {'unpicklable': False}}


def names(it, st, v, path='', seen=()):
    """The constant member names in a document with the path to each."""
    if isinstance(v, Addr):
        if v in seen:
            return
        seen = (*seen, v)
        h = it.h(st, v)
        if isinstance(h, HUnk):
            yield None
        for s in getattr(h, 'segs', ()):
            yield from seg_names(it, st, s, path, seen, isinstance(h, HDict))
    elif isinstance(v, TupV):
        for s in v.segs:
            yield from seg_names(it, st, s, path, seen, False)
    elif isinstance(v, T) and v.op in ('jsontext', 'concat'):
        for a in v.args:
            yield from names(it, st, a, path + ('<key>' if v.op == 'concat' else ''), seen)
    elif isinstance(v, Const) and isinstance(v.v, str) and path.rsplit('/', 1)[-1] in ('type', 'object', 'function', 'mod'):
        yield f'{path} = {v.v}'


def seg_names(it, st, s, path, seen, is_dict):
    if isinstance(s, Entry):
        if isinstance(s.k, Const):
            p = f'{path}.{s.k.v}'
            yield p
        else:
            p = f'{path}.*'
            yield from names(it, st, s.k, f'{path}.<key>', seen)
        yield from names(it, st, s.v, p, seen)
    elif isinstance(s, Item):
        yield from names(it, st, s.v, f'{path}[]', seen)
    elif isinstance(s, Each):
        for a in s.alts:
            for e in a.elems:
                yield from seg_names(it, st, e, path, seen, is_dict)


def vocabulary(run, kind, opts):
    """The distinct sets of names over the paths of the encoder."""
    S = Z.scene(kind, lambda S, x: S.list('root', [x, x]))
    out = set()
    for st, text in run.enc(S, **opts):
        n = list(names(run.it, st, doc_of(text)))
        if None in n:
            run.ob.undecided('the document is lost')
            continue
        out.add(tuple(sorted(set(n))))
    return sorted(map(list, out))


@rule('C27')
def written(run):
    with open(TABLE) as f:
        table = json.load(f)
    for kind in Z.ALL:
        for on, opts in OPTIONS.items():
            def go(kind=kind, opts=opts, on=on):
                want = table.get(f'{kind}, {on}', table[f'{kind}, defaults'])
                got = vocabulary(run, kind, opts)
                for g in got:
                    if g not in want:
                        new = sorted(set(g) - {n for w in want for n in w})
                        gone = sorted({n for w in want for n in w} - set(g))
                        run.fail(None, f'the document has {new or "no new names"} and lacks {gone or "none"}')
                if not got and not run.ob.unknown:
                    run.ob.undecided('no path')
            yield f'{kind}, {on}', go


# ------------------------------------------------------------------- spelling
SPELLING = {'BYTES': 'py/bytes', 'BYTEARRAY': 'py/bytea', 'B64': 'py/b64', 'B85': 'py/b85', 'FUNCTION': 'py/function', 'ID': 'py/id',
            'INITARGS': 'py/initargs', 'ITERATOR': 'py/iterator', 'JSON_KEY': 'json://', 'MODULE': 'py/mod', 'NEWARGS': 'py/newargs',
            'NEWARGSEX': 'py/newargsex', 'NEWOBJ': 'py/newobj', 'OBJECT': 'py/object', 'PROPERTY': 'py/property', 'REDUCE': 'py/reduce',
            'DEFAULT_FACTORY': 'py/default_factory', 'REF': 'py/ref', 'REPR': 'py/repr', 'SEQ': 'py/seq', 'SET': 'py/set', 'STATE': 'py/state',
            'TUPLE': 'py/tuple', 'TYPE': 'py/type'}


@rule('C27')
def spelling(run):
    def value(name):
        try:
            return run.it.entry('jsonpickle.tags', name)
        except (LookupError, AttributeError):
            return None
    for name, text in SPELLING.items():
        def go(name=name, text=text):
            run.ob.paths += 1
            v = value(name)
            if isinstance(v, Const) and v.v != text:
                run.fail(None, f'tags.{name} is {v.v!r} instead of {text!r}')
        yield f'spelling of tags.{name}', go

    def reserved():
        run.ob.paths += 1
        v = value('RESERVED')
        h = run.it.h(run.ctx.state(), v) if isinstance(v, Addr) else v
        got = {s.v.v for s in getattr(h, 'segs', ()) if isinstance(s, Item) and isinstance(s.v, Const)}
        want = set(SPELLING.values()) - {'json://'}
        if got and want - got:
            run.fail(None, f'{sorted(want - got)} are no longer reserved')
        elif not got:
            run.ob.undecided(f'tags.RESERVED is {v}')
    yield 'reserved names', reserved


# -------------------------------------------------------------- older documents
def made(cls, *want):
    """Rebuilt by the given class from these values."""
    def f(m, v):
        Z.values(m, v, Ref(cls), [w if not isinstance(w, (str, int)) else C(w) for w in want])
    return f


def is_ref(name):
    def f(m, v):
        if m.it.unrestored(v) != Ref(name):
            m.fail(f'expected {name}, got {m.show(v)}')
    return f


def const(x):
    def f(m, v):
        if isinstance(v, Const) and type(v.v) is type(x) and v.v == x:
            return
        if isinstance(x, bytearray) and m.show(v) == f'new(bytearray, {bytes(x)})':
            return
        m.fail(f'expected {x!r}, got {m.show(v)}')
    return f


def instance_of(S, **kw):
    x = S.inst('x', **kw)
    return x, class_name(x)


def o_initargs(S):
    x = arg('x')
    S.inst('x', dict_entries=[(C('a'), D('a'))], check=lambda m, v: Z_ctor(m, x, v, [D('i'), D('j')], [(C('a'), D('a'))]))
    return {'py/object': class_name(x), 'py/initargs': [D('i'), D('j')], 'a': D('a')}, x


def Z_ctor(m, x, v, args, attrs):
    r = m.obj(x, v, None, (('new', 'ctor', 'call'), T('cls', x), args))
    if r is not None:
        m.entries(x, r[1], attrs)


def o_newargs_list(S):
    x = arg('x')
    S.inst('x', dict_entries=[(C('a'), D('a'))], check=lambda m, v: Z_ctor(m, x, v, [D('i'), D('j')], [(C('a'), D('a'))]))
    return {'py/object': class_name(x), 'py/newargs': [D('i'), D('j')], 'a': D('a')}, x


def o_newargs(S):
    x = arg('x')
    S.inst('x', dict_entries=[(C('a'), D('a'))], check=lambda m, v: Z_ctor(m, x, v, [D('i'), D('j')], [(C('a'), D('a'))]))
    return {'py/object': class_name(x), 'py/newargs': {'py/tuple': [D('i'), D('j')]}, 'a': D('a')}, x


def o_newargsex(S):
    x = arg('x')
    S.inst('x', dict_entries=[], check=lambda m, v: m.obj(x, v, None, (('new',), T('cls', x), [D('i')], [('k', D('j'))])))
    return {'py/object': class_name(x), 'py/newargsex': [{'py/tuple': [D('i')]}, {'k': D('j')}]}, x


def o_instance(S):
    x, q = instance_of(S, dict_entries=[(C('a'), D('a')), (C('b'), D('b'))])
    return {'py/object': q, 'a': D('a'), 'b': D('b')}, x


def o_property(S):
    x, q = instance_of(S, dict_entries=[(C('a'), D('a'))])
    return {'py/object': q, 'a': D('a'), 'py/property': {'p': 1}}, x


def o_reserved(S):
    x, q = instance_of(S, dict_entries=[(C('a'), D('a'))])
    return {'py/object': q, 'a': D('a'), 'py/ref': 'x', 'py/bytes': 'y', 'py/repr': 'z', 'py/newobj': 1}, x


def o_seq(t):
    def b(S):
        x, q = instance_of(S, py=(t,), elems=[D('e'), D('f')], dict_entries=[(C('a'), D('a'))])
        return {'py/object': q, 'py/seq': [D('e'), D('f')], 'a': D('a')}, x
    return b


def o_dictsub(S):
    x, q = instance_of(S, py=(dict,), entries=[(C('k'), D('v'))], dict_entries=[(C('a'), D('a'))])
    return {'py/object': q, 'k': D('v'), '__dict__': {'a': D('a')}}, x


def o_state(S):
    x = arg('x')
    state = S.list('state', [D('s')])
    Z.hook(S, 'x', {'__getstate__': state, '__setstate__': NONE}, calls=[('__setstate__', [state])])
    return {'py/object': class_name(x), 'py/state': [D('s')]}, x


def o_dict_state(S):
    x, q = instance_of(S, dict_entries=[(C('a'), D('a')), (C('b'), D('b'))])
    return {'py/object': q, 'py/state': {'a': D('a'), 'b': D('b')}}, x


def o_slots_state(S):
    x, q = instance_of(S, has_dict=False, slots=('a', 'b'), attrs={'a': D('a'), 'b': D('b')})
    return {'py/object': q, 'py/state': {'py/tuple': [None, {'a': D('a'), 'b': D('b')}]}}, x


def o_two_states(S):
    x, q = instance_of(S, dict_entries=[(C('a'), D('a')), (C('b'), D('b'))])
    return {'py/object': q, 'py/state': {'py/tuple': [{'a': D('a')}, {'b': D('b')}]}}, x


def o_reduce(n):
    def b(S):
        f = S.func('make', makes=arg('x'))
        x = arg('x')
        S.inst('x', check=lambda m, v: m.obj(x, v, None, ('call', f, [D('i'), D('j')])))
        t = {'py/function': T('concat', T('modname', f), C('.'), T('clsname', f))}
        return {'py/reduce': [t, {'py/tuple': [D('i'), D('j')]}] + [None] * (n - 2)}, x
    return b


def o_newobj(S):
    x = arg('x')
    S.inst('x', check=lambda m, v: m.obj(x, v, None, (('new',), T('cls', x), [D('i')])))
    return {'py/reduce': ['py/newobj', {'py/tuple': [{'py/type': class_name(x)}, D('i')]}, None, None, None]}, x


def o_type(S):
    x = arg('x')
    S.inst('x')
    return {'py/type': class_name(x)}, T('cls', x)


def fixed(d, check):
    def b(S):
        x = arg('fixed')
        S.expect[x] = check
        return d, x
    return b


def o_lock(S):
    x = arg('lock')

    def check(m, v):
        import threading
        h = m.it.hv(m.st, v)
        if not isinstance(h, HObj) or h.cls != m.it.ref_of_type(type(threading.Lock())):
            return m.fail(f'expected a lock, got {m.show(v)}')
        if any(isinstance(s, Op) and s.name == 'call' and s.args[0] == C('acquire') for s in h.segs):
            m.fail('the lock is locked')
        return None
    S.expect[x] = check
    return {'py/object': '_thread.lock'}, x


def o_factory(key, form):
    def b(S):
        x = arg('dd')

        def check(m, v):
            h = m.it.hv(m.st, v)
            if not isinstance(h, HObj) or m.it.unrestored(h.cls) != Ref('collections.defaultdict'):
                return m.fail(f'expected a defaultdict, got {m.show(v)}')
            _, a, i, c = m.log(v)
            m.entries(x, i, [(C('k'), D('v'))])
            got = [e.v for e in a if isinstance(e, Entry) and e.k == C('default_factory')] or list(h.ctor.args[1:2])
            if [m.it.unrestored(g) for g in got[-1:]] != [Ref('builtins.list')]:
                m.fail(f'the default factory becomes {got}')
            return None
        S.expect[x] = check
        return {'py/object': 'collections.defaultdict', key: {'py/type': form}, 'k': D('v')}, x
    return b


def o_key(S):
    x = S.dict('d', [(T('parsed', C('1')), D('v')), (C('s'), D('w')), (T('parsed', C('null')), D('u')), (T('parsed', C('true')), D('t'))])
    return {'json://1': D('v'), 's': D('w'), 'json://null': D('u'), 'json://true': D('t')}, x


def o_module(tag):
    return fixed({tag: 'collections/collections'}, lambda m, v: None if str(v) in ('collections', 'module collections') or v == Ref('collections')
                 else m.fail(f'expected the module collections, got {m.show(v)}'))


OLD = {
    'an instance': o_instance, 'an instance with properties': o_property, 'an instance with unused reserved names': o_reserved,
    'a list subclass': o_seq(list), 'a set subclass': o_seq(set), 'a dict subclass': o_dictsub,
    'py/initargs': o_initargs, 'py/newargs': o_newargs, 'py/newargs as a list': o_newargs_list,
    'py/newargsex': o_newargsex,
    'py/state': o_state, 'py/state as a dict': o_dict_state, 'py/state of slots': o_slots_state, 'py/state of attributes and slots': o_two_states,
    **{f'py/reduce with {n} members': o_reduce(n) for n in range(2, 7)},
    'py/newobj': o_newobj, 'a class': o_type,
    'a built-in type of Python 2': fixed({'py/type': '__builtin__.int'}, is_ref('builtins.int')),
    'a built-in type': fixed({'py/type': 'builtins.int'}, is_ref('builtins.int')),
    'an exception of Python 2': fixed({'py/type': 'exceptions.ValueError'}, is_ref('builtins.ValueError')),
    'a function of Python 2': fixed({'py/function': '__builtin__.len'}, is_ref('builtins.len')),
    'a function': fixed({'py/function': 'builtins.len'}, is_ref('builtins.len')),
    'a module': o_module('py/mod'), 'a module as py/repr': o_module('py/repr'),
    'base64': fixed({'py/b64': 'YWI='}, const(b'ab')), 'base85': fixed({'py/b85': 'VPX'}, const(b'ab')),
    'a base64 bytearray': fixed({'py/bytea': {'py/b64': 'YWI='}}, const(bytearray(b'ab'))),
    'a base85 bytearray': fixed({'py/bytea': {'py/b85': 'VPX'}}, const(bytearray(b'ab'))),
    'a pattern': fixed({'py/object': 're.Pattern', 'pattern': 'a', 'flags': 34}, made('re.Pattern', 'a', 34)),
    'a pattern without flags': fixed({'py/object': 're.Pattern', 'pattern': 'a'}, made('re.Pattern', 'a', 0)),
    'a UUID': fixed({'py/object': 'uuid.UUID', 'hex': '0' * 32}, made('uuid.UUID', '0' * 32)),
    'a lock without its state': o_lock,
    'a default dict': o_factory('py/default_factory', 'builtins.list'), 'a default dict with a plain member': o_factory('default_factory', 'builtins.list'),
    'a default dict of Python 2': o_factory('default_factory', '__builtin__.list'),
    'keys': o_key,
    'a tuple': lambda S: ({'py/tuple': [D('a'), D('b')]}, S.tuple('t', [D('a'), D('b')])),
    'a set': lambda S: ({'py/set': [D('a'), D('b')]}, S.set('t', [D('a'), D('b')])),
}


@rule('C27')
def older(run):
    for name, build in OLD.items():
        for place in ('bare', 'in a list', 'in a dict', 'in a tuple', 'in an attribute'):
            for opts in ({}, {'keys': True}, {'v1_decode': True}, {'on_missing': 'error'}):
                if name == 'keys' and opts != {'keys': True}:
                    continue

                def go(build=build, place=place, opts=opts):
                    S = Scene('c27')
                    d, x = build(S)
                    if place == 'in a list':
                        d, x = [1, d, 2], S.list('outer', [C(1), x, C(2)])
                    elif place == 'in a dict':
                        d, x = {'k': d, 'l': 2}, S.dict('outer', [(C('k'), x), (C('l'), C(2))])
                    elif place == 'in a tuple':
                        d, x = {'py/tuple': [d]}, S.tuple('outer', [x])
                    elif place == 'in an attribute':
                        outer = S.inst('outer', dict_entries=[(C('k'), x)])
                        d, x = {'py/object': class_name(outer), 'k': d}, outer
                    add_doc_rules(S)
                    st = run.ctx.state()
                    run.ctx.begin(S.world)
                    n = 0
                    for s, v in run.dec(S, T('jsontext', doc(run.it, st, d)), st, **opts):
                        n += 1
                        run.match(S, s, x, v)
                    if not n and not run.ob.fails and not run.ob.unknown:
                        run.ob.undecided('no path')
                yield f'older document: {name}, {place}{", " + next(iter(opts)) if opts else ""}', go
