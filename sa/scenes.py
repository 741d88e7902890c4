"""The library of scenario objects used by the property rules."""

import array
import collections
import datetime
import decimal
import enum
import fractions
import queue
import re
import types
import uuid

from . import kinds as K
from .interp import concat, exc, ref_of_type
from .shapes import Maker, Match, Scene, arg, datum, tup
from .values import (
    FALSE, NONE, TRUE, Addr, Alt, Const, Each, Entry, HDict, HInst, HIter, HList, HObj,
    HSet, Item, IterV, MethV, Op, Raise, Ref, T, TupV,
)

D = datum


def sub(n, s):
    return f'{n}.{s}'


# ------------------------------------------------------------------ scalars
def b_none(S, n):
    return NONE


def scalar(t):
    return lambda S, n: S.scalar(n, t)


# --------------------------------------------------------------- containers
def b_list(S, n):
    return S.list(n)


def b_list_empty(S, n):
    return S.list(n, [])


def b_list2(S, n):
    return S.list(n, [D(sub(n, 'a')), D(sub(n, 'b')), D(sub(n, 'a'))])


def b_tuple(S, n):
    return S.tuple(n)


def b_tuple_empty(S, n):
    return S.tuple(n, [])


def b_tuple2(S, n):
    return S.tuple(n, [D(sub(n, 'a')), D(sub(n, 'b'))])


def b_set(S, n):
    return S.set(n)


def b_set_empty(S, n):
    return S.set(n, [])


def b_set2(S, n):
    return S.set(n, [D(sub(n, 'a')), D(sub(n, 'b'))])


def b_dict(S, n):
    return S.dict(n)


def b_dict_empty(S, n):
    return S.dict(n, [])


def b_dict2(S, n):
    return S.dict(n, [(Const('a'), D(sub(n, 'a'))), (Const(''), D(sub(n, 'b'))), (Const('0'), D(sub(n, 'c')))])


def b_nested(S, n):
    inner = S.list(sub(n, 'l'), [D(sub(n, 'a')), S.tuple(sub(n, 't'), [D(sub(n, 'b')), S.dict(sub(n, 'd2'))])])
    return S.dict(n, [(Const('x'), inner), (Const('y'), S.set(sub(n, 's'))), (Const('z'), S.list(sub(n, 'm')))])


def b_nested_seq(S, n):
    return S.tuple(n, [S.list(sub(n, 'l'), [S.list(sub(n, 'k')), NONE, TRUE]), S.set(sub(n, 's'), [S.tuple(sub(n, 't')), D(sub(n, 'e'))]), S.dict(sub(n, 'd'))])


# ---------------------------------------------------------------- instances
def b_inst(S, n):
    return S.inst(n)


def b_inst_nested(S, n):
    return S.inst(n, nested=1)


def b_inst_nested2(S, n):
    return S.inst(n, nested=2)


def b_inst_dotted(S, n):
    return S.inst(n, dotted=1)


def b_inst_dotted_nested(S, n):
    return S.inst(n, dotted=2, nested=1)


def b_inst_attrs(S, n):
    return S.inst(n, dict_entries=[(Const('a'), D(sub(n, 'a'))), (Const('_b'), D(sub(n, 'b'))),
                                   (Const('c'), S.list(sub(n, 'c'))), (Const('d'), S.dict(sub(n, 'd'))),
                                   (Const('e'), S.tuple(sub(n, 'e'))), (Const('f'), NONE)])


def b_inst_empty(S, n):
    return S.inst(n, dict_entries=[])


def b_inst_inherited(S, n):
    p = S.parent(sub(n, 'parent'))
    return S.inst(n, parents=(p,))


def b_inst_callable(S, n):
    return S.inst(n, own={'__call__': NONE}, callable_=True)


def b_inst_eq(S, n):
    return S.inst(n, own={'__eq__': None, '__hash__': None, '__len__': None, '__bool__': None})


def b_slots(S, n):
    return S.inst(n, has_dict=False, slots=('a', 'b'), attrs={'a': D(sub(n, 'a')), 'b': D(sub(n, 'b'))})


def b_slots_unset(S, n):
    return S.inst(n, has_dict=False, slots=('a', 'b'), attrs={'b': D(sub(n, 'b'))}, lacks=('a',))


def b_slots_string(S, n):
    return S.inst(n, has_dict=False, slots=('abc',), slots_str=True, attrs={'abc': D(sub(n, 'abc'))})


def b_slots_inherited(S, n):
    p = S.parent(sub(n, 'parent'), has_dict=False, slots=('p', 'q'))
    return S.inst(n, has_dict=False, slots=('a',), parents=(p,),
                  attrs={'a': D(sub(n, 'a')), 'p': D(sub(n, 'p')), 'q': D(sub(n, 'q'))})


def b_slots_grandparent(S, n):
    g = S.parent(sub(n, 'grand'), has_dict=False, slots=('g',))
    p = S.parent(sub(n, 'parent'), has_dict=False, slots=('p', 'q'), parents=(g,))
    return S.inst(n, has_dict=False, slots=('a',), parents=(p, g),
                  attrs={'a': D(sub(n, 'a')), 'p': D(sub(n, 'p')), 'q': D(sub(n, 'q')), 'g': D(sub(n, 'g'))})


def b_slots_two_bases(S, n):
    p = S.parent(sub(n, 'left'), has_dict=False, slots=('p',))
    g = S.parent(sub(n, 'right'), has_dict=False, slots=())
    return S.inst(n, has_dict=False, slots=('a',), parents=(p, g), bases=(p, g), attrs={'a': D(sub(n, 'a')), 'p': D(sub(n, 'p'))})


def b_slots_and_dict(S, n):
    """A class without __slots__ below one with: the instance has both."""
    p = S.parent(sub(n, 'parent'), has_dict=False, slots=('p',))
    x = arg(n)
    entries = [(Const('a'), D(sub(n, 'a')))]

    def check(m, got):
        r = m.obj(x, got, None, (('new', 'ctor'), T('cls', x), []))
        if r:
            m.path.append('{attributes}')
            m.entries(x, r[1], entries + [(Const('p'), D(sub(n, 'p')))])
            m.path.pop()
    return S.inst(n, parents=(p,), dict_entries=entries, attrs={'p': D(sub(n, 'p'))}, check=check)


def b_dunder(S, n):
    return S.inst(n, dict_entries=[(Const('a'), D(sub(n, 'a'))), (Const('__b__'), D(sub(n, 'b')))])


def b_slots_mangled_parent(S, n):
    x = arg(n)
    p = S.parent(sub(n, 'parent'), has_dict=False, slots=('__a',))
    mangled = T('concat', Const('_'), T('clsname', p), Const('__a'))
    v = T('getattr', x, mangled)

    def check(m, got):
        r = m.obj(x, got, None, (('new', 'ctor'), T('cls', x), []))
        if r:
            m.path.append('{attributes}')
            m.entries(x, r[1], [(mangled, v), (Const('b'), D(sub(n, 'b')))])
            m.path.pop()
    return S.inst(n, has_dict=False, slots=('b',), parents=(p,), attrs={'b': D(sub(n, 'b'))}, check=check)


def inherit(build):
    """The same object, with its hooks defined by a base class."""
    def b(S, n):
        x = build(S, n)
        k = S.world.kinds[x]
        p = S.parent(sub(n, 'base'), own=dict.fromkeys(k.own), has_dict=k.has_dict, slots=None if k.slots is None else ())
        k.inherited, k.own = k.own, {}
        k.parents = (*k.parents, p)
        return x
    return b


def b_slots_inherited_none(S, n):
    """A subclass with empty slots: everything comes from the parent."""
    p = S.parent(sub(n, 'parent'), has_dict=False, slots=('p',))
    return S.inst(n, has_dict=False, slots=(), parents=(p,), attrs={'p': D(sub(n, 'p'))})


def b_slots_mangled(S, n):
    x = arg(n)
    mangled = T('concat', Const('_'), T('clsname', x), Const('__a'))
    v = T('getattr', x, mangled)

    def check(m, got):
        r = m.obj(x, got, None, (('new', 'ctor'), T('cls', x), []))
        if r:
            m.path.append('{attributes}')
            m.entries(x, r[1], [(mangled, v), (Const('b'), D(sub(n, 'b')))])
            m.path.pop()
    return S.inst(n, has_dict=False, slots=('__a', 'b'), attrs={'b': D(sub(n, 'b'))}, check=check)


def b_listsub(S, n):
    return S.inst(n, py=(list,))


def b_listsub2(S, n):
    return S.inst(n, py=(list,), elems=[D(sub(n, 'a')), D(sub(n, 'b'))], dict_entries=[(Const('k'), D(sub(n, 'k')))])


def b_setsub(S, n):
    return S.inst(n, py=(set,))


def b_setsub2(S, n):
    return S.inst(n, py=(set,), elems=[D(sub(n, 'a')), D(sub(n, 'b'))], dict_entries=[(Const('k'), D(sub(n, 'k')))])


def b_dictsub(S, n):
    return S.inst(n, py=(dict,))


def b_dictsub2(S, n):
    return S.inst(n, py=(dict,), entries=[(Const('i'), D(sub(n, 'i'))), (Const('j'), S.list(sub(n, 'j')))],
                  dict_entries=[(Const('k'), D(sub(n, 'k')))])


def b_dictsub_noattr(S, n):
    return S.inst(n, py=(dict,), has_dict=False, slots=())


def b_namedtuple(S, n):
    x = arg(n)
    a, b = D(sub(n, 'a')), D(sub(n, 'b'))

    def check(m, got):
        h = m.it.hv(m.st, got)
        if not isinstance(h, HObj):
            return m.fail(f'expected an instance of cls({x}), got {m.show(got)}')
        m.ctor(h.ctor, ('new', T('cls', x), [a, b]))
        return None
    return S.inst(n, py=(tuple,), has_dict=False, slots=(), elems=[a, b], check=check,
                  own={'__getnewargs__': tup(a, b)}, cls_attrs={'_fields': tup(Const('a'), Const('b'))})


def b_tuplesub(S, n):
    """tuple subclass: tuple.__getnewargs__ gives (tuple(self),)."""
    x = arg(n)
    inner = S.tuple(sub(n, 'items'))

    def check(m, got):
        h = m.it.hv(m.st, got)
        if not isinstance(h, HObj):
            return m.fail(f'expected an instance of cls({x}), got {m.show(got)}')
        m.ctor(h.ctor, ('new', T('cls', x), [inner]))
        return None
    return S.inst(n, py=(tuple,), dict_entries=[], elem_src=inner, check=check, own={'__getnewargs__': tup(inner)})


def b_frozen(S, n):
    return S.inst(n, frozen=Ref('dataclasses.FrozenInstanceError'))


# -------------------------------------------------------------- pickle hooks
def hook(S, n, own, ctor=None, attrs=None, items=None, calls=(), **kw):
    x = arg(n)

    def check(m, got):
        m.instance(x, got, S.world.kinds[x], ctor or (('new', 'ctor'), T('cls', x), []), attrs=attrs, items=items, calls=calls)
    return S.inst(n, own=own, check=check, **kw)


def b_getstate_set(S, n):
    s = S.truthy(sub(n, 'state'))
    return hook(S, n, {'__getstate__': s, '__setstate__': NONE}, calls=[('__setstate__', [s])])


def b_getstate_set_dict(S, n):
    s = S.dict(sub(n, 'state'), [(Const('a'), D(sub(n, 'a'))), (Const('b'), D(sub(n, 'b')))])
    return hook(S, n, {'__getstate__': s, '__setstate__': NONE}, calls=[('__setstate__', [s])])


def b_getstate_set_list(S, n):
    s = S.list(sub(n, 'state'), [D(sub(n, 'a')), D(sub(n, 'b'))])
    return hook(S, n, {'__getstate__': s, '__setstate__': NONE}, calls=[('__setstate__', [s])])


def b_getstate_set_tuple(S, n):
    s = S.tuple(sub(n, 'state'), [D(sub(n, 'a')), D(sub(n, 'b'))])
    return hook(S, n, {'__getstate__': s, '__setstate__': NONE}, calls=[('__setstate__', [s])])


def b_getstate_set_str(S, n):
    s = S.scalar(sub(n, 'state'), str)
    S.world.kinds[s] = K.Str(truth=True)
    return hook(S, n, {'__getstate__': s, '__setstate__': NONE}, calls=[('__setstate__', [s])])


def b_getstate_dict(S, n):
    s = S.dict(sub(n, 'state'), [(Const('a'), D(sub(n, 'a'))), (Const('b'), D(sub(n, 'b')))])

    def attrs(m, got):
        m.entries(s, got, [(Const('a'), D(sub(n, 'a'))), (Const('b'), D(sub(n, 'b')))])
    return hook(S, n, {'__getstate__': s}, attrs=attrs)


def b_getstate_slots(S, n):
    """The (None, slots) state of a slotted class."""
    s = S.dict(sub(n, 'state'), [(Const('a'), D(sub(n, 'a'))), (Const('b'), D(sub(n, 'b')))])
    st = S.tuple(sub(n, 'st'), [NONE, s])

    def attrs(m, got):
        m.entries(s, got, [(Const('a'), D(sub(n, 'a'))), (Const('b'), D(sub(n, 'b')))])
    return hook(S, n, {'__getstate__': st}, attrs=attrs)


def b_getstate_dict_slots(S, n):
    d = S.dict(sub(n, 'dstate'), [(Const('c'), D(sub(n, 'c')))])
    s = S.dict(sub(n, 'state'), [(Const('a'), D(sub(n, 'a'))), (Const('b'), D(sub(n, 'b')))])
    st = S.tuple(sub(n, 'st'), [d, s])

    def attrs(m, got):
        m.entries(s, got, [(Const('a'), D(sub(n, 'a'))), (Const('b'), D(sub(n, 'b'))), (Const('c'), D(sub(n, 'c')))])
    return hook(S, n, {'__getstate__': st}, attrs=attrs)


def b_listsub_getstate(S, n):
    s = S.truthy(sub(n, 'state'))
    return hook(S, n, {'__getstate__': s, '__setstate__': NONE}, py=(list,), calls=[('__setstate__', [s])])


def b_dictsub_getstate(S, n):
    s = S.truthy(sub(n, 'state'))
    return hook(S, n, {'__getstate__': s, '__setstate__': NONE}, py=(dict,), items='none', calls=[('__setstate__', [s])])


def b_newargs(S, n):
    a = S.tuple(sub(n, 'args'), [D(sub(n, 'a')), S.list(sub(n, 'b'))])
    return hook(S, n, {'__getnewargs__': a}, ('new', T('cls', arg(n)), [D(sub(n, 'a')), arg(sub(n, 'b'))]), attrs='dict')


def b_newargs_state(S, n):
    a = S.tuple(sub(n, 'args'), [D(sub(n, 'a'))])
    s = S.truthy(sub(n, 'state'))
    return hook(S, n, {'__getnewargs__': a, '__getstate__': s, '__setstate__': NONE},
                ('new', T('cls', arg(n)), [D(sub(n, 'a'))]), calls=[('__setstate__', [s])])


def b_newargsex(S, n):
    a = S.tuple(sub(n, 'args'), [D(sub(n, 'a')), D(sub(n, 'b'))])
    k = S.dict(sub(n, 'kw'), [(Const('k'), D(sub(n, 'k'))), (Const('l'), S.list(sub(n, 'l')))])
    return hook(S, n, {'__getnewargs_ex__': tup(a, k)},
                ('new', T('cls', arg(n)), [D(sub(n, 'a')), D(sub(n, 'b'))], [('k', D(sub(n, 'k'))), ('l', arg(sub(n, 'l')))]), attrs='dict')


def b_newargsex_both(S, n):
    a = S.tuple(sub(n, 'args'), [D(sub(n, 'a'))])
    k = S.dict(sub(n, 'kw'), [(Const('k'), D(sub(n, 'k')))])
    return hook(S, n, {'__getnewargs_ex__': tup(a, k), '__getnewargs__': tup(D('unused'))},
                ('new', T('cls', arg(n)), [D(sub(n, 'a'))], [('k', D(sub(n, 'k')))]), attrs='dict')


def b_initargs(S, n):
    a = S.tuple(sub(n, 'args'), [D(sub(n, 'a')), D(sub(n, 'b'))])
    return hook(S, n, {'__getinitargs__': a}, (('new', 'ctor'), T('cls', arg(n)), [D(sub(n, 'a')), D(sub(n, 'b'))]), attrs='dict')


def reduce_parts(S, n, size, setter=False, setstate=True, st=None):
    """(reduce tuple, calls, items) for a result with ``size`` members."""
    x = arg(n)
    f = S.func(sub(n, 'make'), makes=x)
    args = S.tuple(sub(n, 'args'), [D(sub(n, 'a')), S.list(sub(n, 'b'))])
    vals = [f, args]
    calls, items = [], []
    if size > 2:
        s = S.truthy(sub(n, 'state')) if st is None else st
        vals.append(s)
        if setstate and not setter:
            calls.append(('__setstate__', [s]))
    if size > 3:
        li = S.list(sub(n, 'li'), [D(sub(n, 'l0')), D(sub(n, 'l1'))])
        vals.append(li)
        # extend() gets all of them, in order
        calls.append(('extend', [li if False else S.tuple(sub(n, 'lit'), [D(sub(n, 'l0')), D(sub(n, 'l1'))])]))
    if size > 4:
        di = S.list(sub(n, 'di'), [S.tuple(sub(n, 'p0'), [Const('k0'), D(sub(n, 'v0'))]), S.tuple(sub(n, 'p1'), [Const('k1'), D(sub(n, 'v1'))])])
        vals.append(di)
        items = [(Const('k0'), D(sub(n, 'v0'))), (Const('k1'), D(sub(n, 'v1')))]
    if size > 5:
        vals.append(S.func(sub(n, 'setter')) if setter else NONE)
    return f, vals, calls, items


def reduce_check(S, n, f, calls, items, setter=False):
    x = arg(n)

    def check(m, got):
        r = m.obj(x, got, None, ('call', f, [D(sub(n, 'a')), arg(sub(n, 'b'))]))
        if r is None:
            return
        _, a, i, c = r
        if a:
            m.fail(f'unexpected attributes {a}')
        m.entries(x, i, items)
        m.calls(c, calls)
        if setter:
            ev = [e for e in m.events('usercall') if e.args[0] == arg(sub(n, 'setter')) and (m.refs or e.args[1:2] == (got,))]
            if len(ev) != 1 or len(ev[0].args) != 3 or ev[0].args[1] != got:
                m.fail(f'the state setter is called as {ev} instead of once with the object and its state')
            else:
                m.at('(state setter arg)', D(sub(n, 'state')), ev[0].args[2])
    return check


def reduce_builder(size, method='__reduce__', setter=False, setstate=True):
    def b(S, n):
        f, vals, calls, items = reduce_parts(S, n, size, setter, setstate)
        own = {method: tup(*vals)}
        if setstate:
            own['__setstate__'] = NONE
        x = S.inst(n, own=own, check=reduce_check(S, n, f, calls, items, setter), attrs={'extend': None} if False else {})
        k = S.world.kinds[x]
        k.lacks -= {'extend'}
        k.cls_attrs = {'extend': T('userfunc', T('cls', x), Const('extend'))}
        k.own = {**k.own, 'extend': None, '__setitem__': None}
        return x
    return b


def b_reduce_dictstate(S, n):
    """State is a dict and there is no __setstate__: it becomes the __dict__."""
    s = S.dict(sub(n, 'state'), [(Const('c'), D(sub(n, 'c'))), (Const('d'), D(sub(n, 'd')))])
    f, vals, calls, items = reduce_parts(S, n, 3, setstate=False, st=s)
    x = arg(n)

    def check(m, got):
        r = m.obj(x, got, None, ('call', f, [D(sub(n, 'a')), arg(sub(n, 'b'))]))
        if r:
            m.path.append('{attributes}')
            m.entries(x, r[1], [(Const('c'), D(sub(n, 'c'))), (Const('d'), D(sub(n, 'd')))])
            m.path.pop()
    return S.inst(n, own={'__reduce__': tup(*vals)}, check=check)


def b_reduce_made(S, n):
    """The callable sets attributes, and the state has some of them: the state wins, the rest is kept."""
    s = S.dict(sub(n, 'state'), [(Const('c'), D(sub(n, 'c'))), (Const('d'), D(sub(n, 'd')))])
    f, vals, calls, items = reduce_parts(S, n, 3, setstate=False, st=s)
    x = arg(n)

    def check(m, got):
        r = m.obj(x, got, None, ('call', f, [D(sub(n, 'a')), arg(sub(n, 'b'))]))
        if r:
            m.path.append('{attributes}')
            m.entries(x, r[1], [(Const('c'), D(sub(n, 'c'))), (Const('d'), D(sub(n, 'd'))), (Const('e'), Const('e of the constructor'))])
            m.path.pop()
    r = S.inst(n, own={'__reduce__': tup(*vals)}, check=check)
    S.world.kinds[r].made = [(Const(m), Const(f'{m} of the constructor')) for m in ('c', 'e')]
    return r


def b_reduce_cls(S, n):
    """The callable is the class itself."""
    x = arg(n)

    def check(m, got):
        r = m.obj(x, got, None, ('ctor', T('cls', x), [D(sub(n, 'a'))]))
        if r and (r[1] or r[2] or r[3]):
            m.fail(f'unexpected state {r[1:]}')
    return S.inst(n, own={'__reduce__': tup(T('cls', x), S.tuple(sub(n, 'args'), [D(sub(n, 'a'))]))}, check=check)


def b_reduce_newobj(S, n):
    """copyreg.__newobj__ as the callable: cls.__new__(cls, *args)."""
    x = arg(n)
    s = S.truthy(sub(n, 'state'))

    def check(m, got):
        r = m.obj(x, got, None, ('new', T('cls', x), [D(sub(n, 'a')), D(sub(n, 'b'))]))
        if r:
            if r[1] or r[2]:
                m.fail(f'unexpected state {r[1:]}')
            m.calls(r[3], [('__setstate__', [s])])
    return S.inst(n, own={'__reduce_ex__': tup(Ref('copyreg.__newobj__'), S.tuple(sub(n, 'args'), [T('cls', x), D(sub(n, 'a')), D(sub(n, 'b'))]), s), '__setstate__': NONE}, check=check)


def b_reduce_listonly(S, n):
    """No state, list items only."""
    f, vals, calls, items = reduce_parts(S, n, 4)
    vals[2] = NONE
    x = S.inst(n, own={'__reduce__': tup(*vals)}, check=reduce_check(S, n, f, calls[1:], items))
    k = S.world.kinds[x]
    k.lacks -= {'extend'}
    k.own = {**k.own, 'extend': None}
    return x


def b_reduce_append(S, n):
    """List items for a class that only has append."""
    f, vals, calls, items = reduce_parts(S, n, 4)
    vals[2] = NONE
    x = S.inst(n, own={'__reduce__': tup(*vals)}, check=reduce_check(S, n, f, [('append', [D(sub(n, 'l0'))]), ('append', [D(sub(n, 'l1'))])], items))
    k = S.world.kinds[x]
    k.lacks -= {'append'}
    k.own = {**k.own, 'append': None}
    return x


def b_reduce_dictonly(S, n):
    f, vals, calls, items = reduce_parts(S, n, 5)
    vals[2] = vals[3] = NONE
    x = S.inst(n, own={'__reduce__': tup(*vals), '__setitem__': None}, check=reduce_check(S, n, f, [], items))
    return x


def b_reduce_str(S, n):
    """__reduce__ gives the dotted name of a global: an existing instance."""
    x = arg(n)
    return S.inst(n, own={'__reduce__': Const('unknown_module.x')})


# ------------------------------------------------------------------ library
class RegexK(K.Exact):
    pass


def exact(t, check, **kw):
    def b(S, n):
        x = arg(n)
        k = K.Exact(t, **kw)
        S.kind(x, k)
        S.identity.add(x)
        S.expect[x] = lambda m, v: check(S, n, x, m, v)
        return x
    return b


def values(m, v, ref, want):
    """v must be a new instance of ``ref`` made from the given values."""
    h = m.it.hv(m.st, v)
    t = h.ctor if isinstance(h, HObj) else v
    if not (isinstance(t, T) and t.op in ('new', 'ctor', 'call') and m.it.unrestored(t.args[0]) == ref):
        return m.fail(f'expected a {ref}, got {m.show(v)}')
    if len(t.args) - 1 != len(want):
        return m.fail(f'{ref} rebuilt from {len(t.args) - 1} values instead of {len(want)}: {m.show(t)}')
    for i, (w, g) in enumerate(zip(want, t.args[1:])):
        if callable(w):
            w(m, g)
        else:
            m.at(f'(value {i})', w, g)
    return None


def b_uuid(S, n):
    x = arg(n)
    hexv = T('attr', x, Const('hex'))
    S.kind(x, K.Exact(uuid.UUID, attrs={'hex': hexv}))
    S.kind(hexv, K.Str(truth=True))
    S.identity.add(x)
    S.expect[hexv] = lambda m, v: m.eq(hexv, v)
    S.expect[x] = lambda m, v: values(m, v, Ref('uuid.UUID'), [hexv])
    return x


def b_regex(S, n):
    x = arg(n)
    pat, fl = T('attr', x, Const('pattern')), T('attr', x, Const('flags'))
    S.kind(x, K.Exact(re.Pattern, attrs={'pattern': pat, 'flags': fl}))
    S.kind(fl, K.Scalar(int))
    S.kind(pat, K.Datum())
    S.expect[fl] = lambda m, v: m.eq(fl, v)
    S.identity.add(x)
    S.expect[x] = lambda m, v: values(m, v, Ref('re.Pattern'), [pat, fl])
    return x


def b_array(S, n):
    x = arg(n)
    tc = T('attr', x, Const('typecode'))
    lst = S.list(sub(n, 'values'))
    S.kind(x, K.Exact(array.array, attrs={'typecode': tc}, own={'tolist': lst, '__reduce_ex__': None}))
    S.kind(tc, K.Str('typecode', truth=True))
    S.expect[tc] = lambda m, v: m.eq(tc, v)
    S.identity.add(x)
    # the type code 'c' only exists in documents of old versions
    S.world.rules.append(lambda a, st: False if a == T('eq', Const('c'), tc) else None)
    S.expect[x] = lambda m, v: values(m, v, Ref('array.array'), [tc, lst])
    return x


def b_lock(S, n):
    x = arg(n)
    import threading
    locked = T('call', MethV(x, 'locked'))
    S.kind(x, K.Exact(type(threading.Lock()), own={'locked': locked}))
    S.kind(locked, K.Scalar(bool))
    S.identity.add(x)

    def check(m, v):
        h = m.it.hv(m.st, v)
        if not isinstance(h, HObj) or h.cls != m.it.ref_of_type(type(threading.Lock())):
            return m.fail(f'expected a lock, got {m.show(v)}')
        acquired = any(isinstance(s, Op) and s.name == 'call' and s.args[0] == Const('acquire') for s in h.segs)
        want = m.st.facts.get(T('truthy', locked), m.st.facts.get(locked))
        if want is None:
            return m.fail('the restored lock does not depend on whether the original was locked')
        if acquired != want:
            return m.fail(f"the restored lock is {'' if acquired else 'not '}locked when the original is {'' if want else 'not '}")
        return None
    S.expect[x] = check
    return x


def dt(t, nargs):
    def b(S, n):
        x = arg(n)
        raw = T('state', x, Const('bytes'))
        S.kind(raw, K.Scalar(bytes))
        S.expect[raw] = lambda m, v: m.eq(raw, v)
        args = [raw] + [D(sub(n, f'tz{i}')) for i in range(nargs - 1)]
        S.kind(x, K.Exact(t, own={'__reduce__': tup(ref_of_type(t), tup(*args)), '__reduce_ex__': tup(ref_of_type(t), tup(*args))}))
        S.identity.add(x)
        S.expect[x] = lambda m, v: values(m, v, ref_of_type(t), args)
        return x
    return b


def lib_reduce(t, f, nargs, own=None, truth=None):
    """A library value that reduces to f(*args)."""
    def b(S, n):
        x = arg(n)
        args = [D(sub(n, f'r{i}')) for i in range(nargs)]
        r = tup(f, S.tuple(sub(n, 'rargs'), args))
        S.kind(x, K.Exact(t, own={'__reduce__': r, '__reduce_ex__': r}, truth=truth))
        S.identity.add(x)
        S.expect[x] = lambda m, v: values(m, v, f, args)
        return x
    return b


def b_frozenset(S, n):
    x = arg(n)
    items = S.list(sub(n, 'items'))
    S.kind(items, K.Seq(list, distinct=True))
    r = tup(Ref('builtins.frozenset'), tup(items))
    S.kind(x, K.Exact(frozenset, own={'__reduce__': r, '__reduce_ex__': r}))
    S.identity.add(x)

    def check(m, v):
        h = m.it.hv(m.st, v)
        if not isinstance(h, HSet) or not h.frozen:
            return m.fail(f'expected a frozenset, got {m.show(v)}')
        return m.elems(items, h.segs, None)
    S.expect[x] = check
    return x


def b_iterator(S, n):
    x = arg(n)
    S.kind(x, K.Inst(own={'__iter__': x, '__next__': None}, has_dict=False))

    def check(m, v):
        h = m.it.hv(m.st, v)
        segs = h.segs if isinstance(h, HIter) else v.segs if isinstance(v, IterV) else None
        if segs is None:
            return m.fail(f'expected an iterator, got {m.show(v)}')
        return m.elems(x, segs, None)
    S.expect[x] = check
    return x


# ------------------------------------------------- types, functions, modules
def b_type(S, n):
    x = arg(n)
    S.kind(x, K.Inst())
    return T('cls', x)


def b_type_nested(S, n):
    x = arg(n)
    S.kind(x, K.Inst(nested=2, dotted=1))
    return T('cls', x)


def b_builtin_type(S, n):
    return Ref('builtins.int')


def b_function(S, n):
    return S.func(n)


def b_module(S, n):
    x = arg(n)
    S.kind(x, K.ModK())
    S.expect[x] = lambda m, v: None if v in (x, T('topmodule', T('modname', x)), T('module', T('modname', x))) else m.fail(f'expected the module, got {m.show(v)}')
    return x


def b_submodule(dotted):
    def b(S, n):
        x = arg(n)
        S.kind(x, K.ModK(dotted))
        name = concat(T('modname', x), *[y for i in range(dotted) for y in (Const('.'), T('submod', x, Const(i)))])
        S.expect[x] = lambda m, v: None if v in (x, T('module', name)) else m.fail(f'expected the module, got {m.show(v)}')
        return x
    return b


def b_lambda(S, n):
    x = arg(n)
    S.kind(x, K.FuncK(types.FunctionType, attrs={'__name__': Const('<lambda>'), '__qualname__': Const('<lambda>')}))
    S.expect[x] = lambda m, v: m.eq(NONE, v)
    return x


# ------------------------------------------------------------- default dicts
def b_defaultdict_type(S, n):
    x = arg(n)
    fac = Ref('builtins.list')
    S.kind(x, K.Exact(collections.defaultdict, attrs={'default_factory': fac}, elems=None))
    S.identity.add(x)

    def check(m, v):
        h = m.it.hv(m.st, v)
        if not isinstance(h, HObj):
            return m.fail(f'expected a defaultdict, got {m.show(v)}')
        if m.it.unrestored(h.cls) != Ref('collections.defaultdict'):
            return m.fail(f'expected a defaultdict, got a {h.cls}')
        _, a, i, c = m.log(v)
        m.entries(x, i, None)
        made = [e.v for e in a if isinstance(e, Entry) and e.k == Const('default_factory')]
        if (made and made[-1] != fac) or (not made and h.ctor.args[1:2] != (fac,)):
            m.fail(f'the default factory becomes {made or h.ctor}')
        if c:
            m.fail(f'unexpected calls {c}')
        return None
    S.expect[x] = check
    return x


SCALARS = {
    'None': b_none, 'bool': scalar(bool), 'int': scalar(int), 'float': scalar(float), 'str': scalar(str),
}
BINARY = {'bytes': scalar(bytes), 'bytearray': scalar(bytearray)}
CONTAINERS = {
    'list': b_list, 'empty list': b_list_empty, 'list of three': b_list2,
    'tuple': b_tuple, 'empty tuple': b_tuple_empty, 'pair': b_tuple2,
    'set': b_set, 'empty set': b_set_empty, 'set of two': b_set2,
    'dict': b_dict, 'empty dict': b_dict_empty, 'dict of three': b_dict2,
    'nested dict': b_nested, 'nested sequence': b_nested_seq,
}
INSTANCES = {
    'instance': b_inst, 'instance of a nested class': b_inst_nested, 'instance of a doubly nested class': b_inst_nested2,
    'instance of a class in a dotted module': b_inst_dotted, 'instance of a nested class in a dotted module': b_inst_dotted_nested,
    'instance with container attributes': b_inst_attrs, 'instance without attributes': b_inst_empty,
    'instance of a subclass': b_inst_inherited, 'callable instance': b_inst_callable, 'instance with __eq__ and __len__': b_inst_eq,
    'slotted instance': b_slots, 'slotted instance with an unset slot': b_slots_unset,
    'slotted instance with inherited slots': b_slots_inherited, 'slotted instance with only inherited slots': b_slots_inherited_none,
    'slotted instance with slots of a grandparent': b_slots_grandparent, 'slotted instance with two slotted bases': b_slots_two_bases,
    'slotted instance with a mangled slot': b_slots_mangled, 'instance with a string as __slots__': b_slots_string,
    'list subclass': b_listsub, 'list subclass of two': b_listsub2, 'set subclass': b_setsub, 'set subclass of two': b_setsub2,
    'dict subclass': b_dictsub, 'dict subclass of two': b_dictsub2, 'dict subclass without attributes': b_dictsub_noattr,
    'named tuple': b_namedtuple, 'tuple subclass': b_tuplesub, 'frozen dataclass': b_frozen,
}
RARE_INSTANCES = {
    'instance with a dunder attribute': b_dunder, 'slotted instance with a mangled slot of a base class': b_slots_mangled_parent,
    'instance with a dictionary and an inherited slot': b_slots_and_dict}
HOOKS = {
    '__getstate__ and __setstate__': b_getstate_set, 'dict state and __setstate__': b_getstate_set_dict,
    'list state and __setstate__': b_getstate_set_list, 'tuple state and __setstate__': b_getstate_set_tuple,
    'string state and __setstate__': b_getstate_set_str,
    'dict state': b_getstate_dict, 'slots state': b_getstate_slots, 'dict and slots state': b_getstate_dict_slots,
    'list subclass with state': b_listsub_getstate, 'dict subclass with state': b_dictsub_getstate,
    '__getnewargs__': b_newargs, '__getnewargs__ with state': b_newargs_state,
    '__getnewargs_ex__': b_newargsex, '__getnewargs_ex__ and __getnewargs__': b_newargsex_both, '__getinitargs__': b_initargs,
    '__reduce__ with 2 members': reduce_builder(2), '__reduce__ with 3 members': reduce_builder(3),
    '__reduce__ with 4 members': reduce_builder(4), '__reduce__ with 5 members': reduce_builder(5),
    '__reduce__ with 6 members': reduce_builder(6), '__reduce__ with a state setter': reduce_builder(6, setter=True),
    '__reduce_ex__ with 2 members': reduce_builder(2, '__reduce_ex__'), '__reduce_ex__ with 5 members': reduce_builder(5, '__reduce_ex__'),
    '__reduce__ with a dict state': b_reduce_dictstate, '__reduce__ with a dict state over a constructor': b_reduce_made, '__reduce__ through the class': b_reduce_cls,
    '__reduce_ex__ through __newobj__': b_reduce_newobj, '__reduce__ with list items only': b_reduce_listonly,
    '__reduce__ with list items for append': b_reduce_append, '__reduce__ with dict items only': b_reduce_dictonly,
}
HOOKS.update({f'inherited {k}': inherit(HOOKS[k]) for k in (
    '__getstate__ and __setstate__', 'dict state', 'slots state', 'list subclass with state', '__getnewargs__', '__getnewargs_ex__',
    '__getinitargs__', '__reduce__ with 2 members', '__reduce__ with 5 members', '__reduce_ex__ with 2 members',
    '__reduce__ with a state setter', '__reduce__ with a dict state')})
LIBRARY = {
    'UUID': b_uuid, 'compiled regex': b_regex, 'array': b_array, 'lock': b_lock,
    'datetime': dt(datetime.datetime, 1), 'datetime with time zone': dt(datetime.datetime, 2),
    'date': dt(datetime.date, 1), 'time': dt(datetime.time, 1), 'time with time zone': dt(datetime.time, 2),
    'timedelta': lib_reduce(datetime.timedelta, ref_of_type(datetime.timedelta), 3),
    'Decimal': lib_reduce(decimal.Decimal, ref_of_type(decimal.Decimal), 1),
    'Fraction': lib_reduce(fractions.Fraction, ref_of_type(fractions.Fraction), 1),
    'frozenset': b_frozenset,
    'defaultdict with a type': b_defaultdict_type,
}
TYPES = {'class': b_type, 'nested class in a dotted module': b_type_nested, 'built-in type': b_builtin_type,
         'function': b_function, 'module': b_module, 'module in a package': b_submodule(1),
         'module two packages deep': b_submodule(2), 'module three packages deep': b_submodule(3)}
OTHER = {'iterator': b_iterator, 'lambda': b_lambda}

ALL = {**SCALARS, **BINARY, **CONTAINERS, **INSTANCES, **RARE_INSTANCES, **HOOKS, **LIBRARY, **TYPES, **OTHER}


def scene(kind, wrap=None, **kw):
    b = ALL[kind] if isinstance(kind, str) else kind
    S = Scene(kind if isinstance(kind, str) else getattr(b, '__name__', 'x'))
    x = b(S, 'x')
    S.x = x
    S.root = wrap(S, x) if wrap else x
    return S


# ---------------------------------------------------------------- positions
def at_root(S, x):
    return x


def marked(S, x):
    """[x, p, x, p]: references written after x must resolve."""
    p = S.inst('p', dict_entries=[(Const('v'), D('pv'))])
    return S.list('root', [x, p, x, p])


def in_dict(S, x):
    p = S.list('p', [D('pv')])
    return S.dict('root', [(Const('k'), x), (Const('l'), p), (Const('m'), x), (Const('n'), p)])


def in_attr(S, x):
    p = S.dict('p', [(Const('v'), D('pv'))])
    return S.inst('root', dict_entries=[(Const('k'), x), (Const('l'), p), (Const('m'), x), (Const('n'), p)])


def in_tuple(S, x):
    p = S.list('p', [D('pv')])
    return S.tuple('root', [x, p, x, p])


def in_state(S, x):
    p = S.list('p', [D('pv')])
    st = S.list('rootstate', [x, p, x, p])
    r = hook(S, 'root', {'__getstate__': st, '__setstate__': NONE}, calls=[('__setstate__', [st])])
    return r


def in_reduce(S, x):
    p = S.list('p', [D('pv')])
    f = S.func('rootmake', makes=arg('root'))
    r = arg('root')

    def check(m, got):
        m.obj(r, got, None, ('call', f, [x, p, x, p]))
    S.inst('root', own={'__reduce__': tup(f, S.tuple('rootargs', [x, p, x, p]))}, check=check)
    return S.list('outer', [r, p])


def in_slot(S, x):
    p = S.list('p', [D('pv')])
    return S.inst('root', has_dict=False, slots=('k', 'l', 'm', 'n'), attrs={'k': x, 'l': p, 'm': x, 'n': p})


def in_listsub(S, x):
    p = S.list('p', [D('pv')])
    return S.inst('root', py=(list,), elems=[x, p, x], dict_entries=[(Const('k'), p)])


def in_dictsub(S, x):
    p = S.list('p', [D('pv')])
    return S.inst('root', py=(dict,), entries=[(Const('k'), x), (Const('l'), p), (Const('m'), x)], dict_entries=[(Const('n'), p)])


POSITIONS = {
    'at the top': at_root, 'in a list': marked, 'in a dict': in_dict, 'in an attribute': in_attr, 'in a tuple': in_tuple,
    'in a state': in_state, 'in reduce arguments': in_reduce, 'in a slot': in_slot, 'in a list subclass': in_listsub,
    'in a dict subclass': in_dictsub,
}
