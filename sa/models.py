"""Models of builtins and of the standard library functions the package uses."""

import ast
import base64
import binascii
import os
import types

from .program import REPO, ClassInfo, ModuleInfo
from .interp import (
    BOOL_OPS, NEXT, OBJECT_REF, Star, TYPE_REF, _missing, concat, exc, ref_of_type,
    resolve, strip_codec,
)
from .values import (
    FALSE, NONE, TRUE, Addr, Alt, BoundV, ClsV, Const, Each, Entry, FuncV, HDict,
    HInst, HIter, HList, HObj, HSet, HUnk, Item, IterV, MethV, ModV, Op, PartialV,
    Prior, Raise, Ref, T, TupV, V, const, unsupported,
)

MUTATORS = {
    'append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear', 'update',
    'setdefault', 'add', 'discard', 'sort', 'reverse', '__setitem__', '__delitem__',
    '__setattr__', '__delattr__', '__setstate__', 'appendleft', 'popleft', 'rotate',
    'difference_update', 'intersection_update', 'symmetric_difference_update',
    '__ior__', '__iadd__', 'acquire', 'release',
}

# classes whose instances would hide data the analysis has to follow
OPAQUE_MODULES = {'collections', 'itertools', 'functools', 'operator', '_operator', 'contextlib', 'types', 'builtins', 'weakref', '_weakref', 'copy', 'queue'}

HOOKS = {}


def hook(*names):
    def deco(f):
        for n in names:
            HOOKS[n if '.' in n else 'builtins.' + n] = f
        return f
    return deco


def install(interp):
    interp.hooks = dict(HOOKS)


# ---------------------------------------------------------------- integers
def lin(v):
    """Linear form (constant, {term: coefficient}) of an integer value."""
    if isinstance(v, Const) and isinstance(v.v, int):
        return int(v.v), {}
    if isinstance(v, T) and v.op == 'int':
        return v.args[0].v, {t: c.v for t, c in v.args[1:]}
    return 0, {v: 1}


class _Pair(V):
    __slots__ = ('t', 'c')

    def __init__(self, t, c):
        super().__init__(t, c)
        self.t = t
        self.c = c

    def __iter__(self):
        return iter((self.t, self.c))

    def __repr__(self):
        return f'{self.c}*{self.t}'


def unlin(c, terms):
    terms = {t: k for t, k in terms.items() if k}
    if not terms:
        return Const(c)
    if c == 0 and len(terms) == 1:
        (t, k), = terms.items()
        if k == 1 and isinstance(t, T) and t.op != 'count':
            return t
    return T('int', Const(c), *sorted((_Pair(t, Const(k)) for t, k in terms.items()), key=repr))


def add(a, b, sign=1):
    ca, ta = lin(a)
    cb, tb = lin(b)
    t = dict(ta)
    for k, n in tb.items():
        t[k] = t.get(k, 0) + sign * n
    return unlin(ca + sign * cb, t)


def count(segs):
    """Number of elements as a linear form."""
    c = 0
    t = {}
    for s in segs:
        if isinstance(s, (Item, Entry)):
            c += 1
        elif isinstance(s, Prior):
            k = T('count', s)
            t[k] = t.get(k, 0) + 1
        elif isinstance(s, Each):
            per = {repr(count(a.elems)): count(a.elems) for a in s.alts}
            if len(per) == 1:
                (v,) = per.values()
                if v == Const(0):
                    continue
                k = T('count', s.src, v) if s.partial is None else T('count', s.src, v, Const('partial'))
            else:
                k = T('count', s.src, *[T('alt', TupV([Item(T('fact', f, const(b))) for f, b in sorted(a.facts, key=repr)]), count(a.elems)) for a in s.alts])
            t[k] = t.get(k, 0) + 1
        else:
            k = T('count', T('seg', s))
            t[k] = t.get(k, 0) + 1
    return unlin(c, t)


def simple_each(segs):
    """src when segs is exactly one full Each contributing one item each."""
    if len(segs) == 1 and isinstance(segs[0], Each) and segs[0].partial is None:
        if all(len(a.elems) == 1 and isinstance(a.elems[0], (Item, Entry)) for a in segs[0].alts):
            return segs[0].src
    return None


def length(it, st, v):
    if isinstance(v, Const):
        try:
            return Const(len(v.v))
        except TypeError:
            return None
    segs = None
    if isinstance(v, TupV):
        segs = v.segs
    elif isinstance(v, Addr):
        h = it.h(st, v)
        if isinstance(h, (HList, HSet, HDict, HIter)):
            segs = h.segs
        elif isinstance(h, HObj) and len(h.ctor.args) == 1:
            # a list instance that was only appended to
            n = [s for s in h.segs if not (isinstance(s, Op) and s.name == 'setattr')]
            if n and all(isinstance(s, Op) and s.name == 'call' and s.args[0] == Const('append') for s in n):
                return Const(len(n))
    if segs is not None:
        src = simple_each(segs)
        if src is not None:
            return T('len', it.unrestored(src))
        return count(segs)
    return T('len', it.unrestored(v))


# ---------------------------------------------------------------- membership
def member(it, st, x, segs, keys=False):
    """Is x among the elements: True/False/None (without forking)."""
    res = False
    for s in segs:
        if isinstance(s, (Item, Entry)):
            e = s.k if isinstance(s, Entry) else s.v
            r = it.eq_(x, e, st)
            if r is None:
                r = known_eq(it, st, x, e)
            if r is True:
                return True
            if r is None:
                res = None
        elif isinstance(s, Each):
            for a in s.alts:
                if any(st.facts.get(f, b) != b for f, b in a.facts):
                    continue
                r = member(it, st, x, a.elems)
                if r is True:
                    if all(st.facts.get(f) == b for f, b in a.facts):
                        return True
                    res = None
                elif r is None:
                    res = None
        elif isinstance(s, Prior):
            r = it.world.oracle(T('in', x, T('prior', s)), st)
            if r is True:
                return True
            if r is None:
                res = None
        else:
            res = None
    return res


def known_eq(it, st, a, b):
    atom = eq_atom(a, b)
    f = st.facts.get(atom)
    if f is None:
        f = it.world.oracle(atom, st)
    return f


def eq_atom(a, b):
    x, y = sorted((a, b), key=repr)
    return T('eq', x, y)


# ---------------------------------------------------------------- dict access
def lookup(it, st, segs, key, addr=None):
    """[(st, value | None if absent)] scanning from the last entry.

    The keys of a dict differ from each other, so an entry stored under the
    very key that is looked up is the answer unless an equal one is known.
    """
    for i in range(len(segs) - 1, -1, -1):
        if not isinstance(segs[i], Entry):
            break
        r = it.eq_(key, segs[i].k, st)
        if r is None:
            r = known_eq(it, st, key, segs[i].k)
            if r is None:
                continue
        if r:
            return [(st, segs[i].v)]
    pend = [st]
    out = []
    for s in reversed(segs):
        nxt = []
        for x in pend:
            if isinstance(s, Entry):
                r = it.eq_(key, s.k, x)
                if r is None:
                    for y, b in it.branch(eq_atom(key, s.k), x):
                        if b:
                            out.append((y, s.v))
                        else:
                            nxt.append(y)
                elif r:
                    out.append((x, s.v))
                else:
                    nxt.append(x)
            elif isinstance(s, Each):
                hit = False
                unk = False
                for a in s.alts:
                    if any(x.facts.get(f, b) != b for f, b in a.facts):
                        continue
                    for e in a.elems:
                        if isinstance(e, Entry):
                            r = it.eq_(key, e.k, x)
                            if r is None:
                                r = known_eq(it, x, key, e.k)
                            if r is True and all(x.facts.get(f) == b for f, b in a.facts):
                                hit = e.v
                            elif r is not False:
                                unk = True
                        elif isinstance(e, Prior):
                            if it.world.oracle(T('in', key, T('prior', e)), x) is not False:
                                unk = True
                        else:
                            unk = True
                if hit is not False:
                    out.append((x, hit))
                elif unk:
                    for y, b in it.branch(T('in', key, T('keys', s.src)), x):
                        if b:
                            out.append((y, T('lookup', s.src, key)))
                        else:
                            nxt.append(y)
                else:
                    nxt.append(x)
            elif isinstance(s, Prior):
                atom = T('in', key, T('prior', s))
                r = it.world.oracle(atom, x)
                if r is None:
                    for y, b in it.branch(atom, x):
                        if b:
                            out.append((y, T('lookup', T('prior', s), key)))
                        else:
                            nxt.append(y)
                elif r:
                    out.append((x, T('lookup', T('prior', s), key)))
                else:
                    nxt.append(x)
            else:
                out.append((x, unsupported('lookup', it.site)))
        pend = nxt
        if not pend:
            break
    out.extend((x, None) for x in pend)
    return out


def position(it, st, segs, idx):
    """Index into segments -> (i, segment) | 'out' | None."""
    if isinstance(idx, Const) and isinstance(idx.v, bool):
        idx = Const(int(idx.v))
    if isinstance(idx, Const) and isinstance(idx.v, int) and idx.v < 0:
        n = idx.v
        for i in range(len(segs) - 1, -1, -1):
            if not isinstance(segs[i], Item):
                return None
            n += 1
            if n == 0:
                return i, segs[i]
        return 'out'
    c0, t0 = lin(idx)
    for i in range(len(segs) + 1):
        c, t = lin(count(segs[:i]))
        if (c, t) == (c0, t0):
            if i == len(segs):
                return 'out'
            if isinstance(segs[i], Item):
                return i, segs[i]
            if isinstance(segs[i], Each) and all(count(a.elems) == Const(0) for a in segs[i].alts):
                continue
            return None
    if not t0 and all(isinstance(s, Item) for s in segs):
        return 'out'
    return None


def getitem(it, st, o, i):
    if isinstance(i, T) and i.op == 'slice':
        return getslice(it, st, o, i)
    if isinstance(o, Addr):
        h = it.h(st, o)
        if isinstance(h, HDict):
            out = []
            for s, v in lookup(it, st, h.segs, i, o):
                if v is None:
                    if h.cls is not None and it.kind(h.cls, s) is not None:
                        out.append((s, T('index', o, i)))
                    else:
                        out.append((s, Raise(exc('KeyError'), i, it.site)))
                else:
                    out.append((s, v))
            return out
        if isinstance(h, HList):
            return seq_index(it, st, o, h.segs, i)
        if isinstance(h, HInst):
            g, _ = it.class_lookup(h.cls, '__getitem__')
            if g is not None:
                return it.call(BoundV(g, o), [i], {}, st)
            row = it.row(h)
            if row is not None:
                return seq_index(it, st, o, row, i)
            return [(st, Raise(exc('TypeError'), site=it.site))]
        if isinstance(h, (HSet, HIter)):
            return [(st, Raise(exc('TypeError'), site=it.site))]
        return [(st, T('index', o, i))]
    if isinstance(o, (TupV, IterV)):
        return seq_index(it, st, o, o.segs, i)
    if isinstance(o, Const):
        if isinstance(i, Const):
            try:
                return [(st, Const(o.v[i.v]))]
            except Exception as e:
                return [(st, Raise(exc(type(e).__name__), site=it.site))]
        if o.v is None or isinstance(o.v, (int, float)):
            return [(st, Raise(exc('TypeError'), site=it.site))]
        return [(st, T('index', o, i))]
    if isinstance(o, Ref):
        if o.name == 'sys.modules':
            if isinstance(i, Const) and isinstance(i.v, str):
                if i.v in it.prog.modules:
                    return [(st, ModV(i.v))]
                return [(st, Ref(i.v))]
            return [(st, T('module', i))]
        r = resolve(o.name)
        if isinstance(r, dict) and isinstance(i, Const):
            x = it.lift(r.get(i.v))
            if x is not None:
                return [(st, x)]
        if isinstance(r, type) or r is _missing or hasattr(r, '__getitem__') or hasattr(r, '__class_getitem__'):
            return [(st, o)]
        return [(st, T('index', o, i))]
    if isinstance(o, ClsV):
        return [(st, o)]
    if isinstance(o, T) and o.op == 'instdict':
        return call_method(it, o, '__getitem__', [i], {}, st)
    if isinstance(o, T):
        r = it.world.method(it, o, '__getitem__', [i], {}, st)
        if r is not None:
            return r
        k = it.kind(o, st)
        if k is not None:
            r = k.index(it, o, i, st)
            if r is not None:
                return r
            if k.is_dict():
                for label, key in it.world.partition(o, st):
                    if key == i and st.facts.get(T('part', o, Const(label))):
                        return [(st, T('val', o, Const(label)))]
            if k.py and not any(hasattr(t, '__getitem__') for t in k.py) and '__getitem__' not in k.own:
                return [(st, Raise(exc('TypeError'), site=it.site))]
        elif o.op in it.INT_TERMS:
            return [(st, Raise(exc('TypeError'), site=it.site))]
        return [(st, T('index', o, i))]
    return [(st, T('index', o, i))]


def seq_index(it, st, o, segs, i):
    if isinstance(i, Const) and not isinstance(i.v, int):
        return [(st, Raise(exc('TypeError'), site=it.site))]
    if isinstance(i, (TupV, Addr)):
        return [(st, Raise(exc('TypeError'), site=it.site))]
    if isinstance(i, T):
        cls, py = it.typeof(i, st)
        if py and not any(issubclass(p, int) for p in py):
            return [(st, Raise(exc('TypeError'), site=it.site))]
    p = position(it, st, segs, i)
    if p == 'out':
        return [(st, Raise(exc('IndexError'), site=it.site))]
    if p is None:
        if isinstance(i, T) and i.op == 'idx' and len(segs) == 1 and isinstance(segs[0], Each) and segs[0].src == i.args[0]:
            for a in segs[0].alts:
                if all(st.facts.get(f) == b for f, b in a.facts) and len(a.elems) == 1:
                    return [(st, a.elems[0].v)]
        return [(st, T('index', o, i))]
    return [(st, p[1].v)]


def getslice(it, st, o, sl):
    lo, hi, step = sl.args

    def num(x, d):
        if x == NONE:
            return d
        return x.v if isinstance(x, Const) and isinstance(x.v, int) else _missing
    if isinstance(o, Const) and all(isinstance(x, Const) for x in sl.args):
        try:
            r = o.v[slice(lo.v, hi.v, step.v)]
            return [(st, Const(r))]
        except Exception:
            return [(st, Raise(exc('TypeError'), site=it.site))]
    if isinstance(o, T) and o.op == 'concat' and step == NONE:
        l, h = num(lo, 0), num(hi, None)
        if h is None and l is not _missing and l >= 0:
            f = o.args[0]
            if isinstance(f, Const) and len(f.v) >= l:
                return [(st, concat(Const(f.v[l:]), *o.args[1:]))]
        elif h is not _missing and l is not _missing and 0 <= l and 0 <= h:
            f = o.args[0]
            if isinstance(f, Const) and len(f.v) >= h:
                return [(st, Const(f.v[l:h]))]
        return [(st, T('slice', o, lo, hi, step))]
    segs = None
    mk = None
    if isinstance(o, TupV):
        segs, mk = o.segs, 'tuple'
    elif isinstance(o, Addr) and isinstance(it.h(st, o), HList):
        segs, mk = it.h(st, o).segs, 'list'
    if segs is not None:
        l, h, s = num(lo, None), num(hi, None), num(step, None)
        res = None
        if _missing not in (l, h, s):
            if all(isinstance(x, Item) for x in segs):
                res = segs[slice(l, h, s)]
            elif s in (None, 1) and h is None and (l is None or (l >= 0 and all(isinstance(x, Item) for x in segs[:l]) and len(segs) >= l)):
                res = segs[l:]
            elif s in (None, 1) and h is not None and h >= 0 and (l is None or l >= 0) and all(isinstance(x, Item) for x in segs[:h]) and len(segs) >= h:
                res = segs[l:h]
        if res is None and (c := cut(segs, sl)) is not None:
            res = segs[c[0]:c[1]]
        if res is None:
            src = T('slice', TupV(segs), lo, hi, step)
            res = (Each(src, [Alt(frozenset(), (Item(T('elem', src)),))]),)
        if mk == 'tuple':
            return [(st, TupV(res))]
        st = st.clone()
        return [(st, it.alloc(st, HList(res)))]
    if isinstance(o, T):
        k = it.kind(o, st)
        if k is not None:
            r = k.index(it, o, sl, st)
            if r is not None:
                return r
        return [(st, T('slice', o, lo, hi, step))]
    return [(st, Raise(exc('TypeError'), site=it.site))]


def cut(segs, sl):
    """(start, end) of a slice over segments, when its bounds are plain."""
    lo, hi, step = (None if x == NONE else x.v if isinstance(x, Const) and isinstance(x.v, int) else x for x in sl.args)
    if step not in (None, 1):
        return None
    if all(isinstance(s, (Item, Entry)) for s in segs) and not any(isinstance(x, V) for x in (lo, hi)):
        a, b, _ = slice(lo, hi).indices(len(segs))
        return a, max(a, b)
    lead = 0
    while lead < len(segs) and isinstance(segs[lead], (Item, Entry)):
        lead += 1
    tail = 0
    while tail < len(segs) and isinstance(segs[len(segs) - 1 - tail], (Item, Entry)):
        tail += 1

    def at(x, d):
        if x is None:
            return d
        if isinstance(x, T):
            # the number of elements of a leading part
            for n in range(len(segs), -1, -1):
                if count(segs[:n]) == x:
                    return n
            return None
        if not isinstance(x, int):
            return None
        if 0 <= x <= lead:
            return x
        if x < 0 and -x <= tail:
            return len(segs) + x
        return None
    a, b = at(lo, 0), at(hi, len(segs))
    return None if a is None or b is None or b < a else (a, b)


def setitem(it, st, o, k, v):
    st = st.clone()
    if isinstance(o, Addr):
        h = it.h(st, o)
        if isinstance(h, HDict):
            if not hashable(it, st, k):
                return [(st, Raise(exc('TypeError'), Const('unhashable'), it.site))]
            for i, s in enumerate(h.segs):
                if isinstance(s, Entry) and it.eq_(s.k, k, st) is True:
                    st.put(o, h.with_segs(h.segs[:i] + (Entry(s.k, v),) + h.segs[i + 1:]))
                    return [(st, NONE)]
            st.put(o, h.with_segs(h.segs + (Entry(k, v),)))
            return [(st, NONE)]
        if isinstance(h, HList):
            if isinstance(k, T) and k.op == 'slice':
                c = cut(h.segs, k)
                if c is None:
                    st.put(o, HUnk('slice assignment'))
                    return [(st, NONE)]
                return with_segments(it, st, v, lambda s, segs: (s.put(o, h.with_segs(h.segs[:c[0]] + tuple(segs) + h.segs[c[1]:])), (s, NONE))[1])
            p = position(it, st, h.segs, k)
            if p == 'out':
                return [(st, Raise(exc('IndexError'), site=it.site))]
            if p is None:
                if isinstance(k, Const) and not isinstance(k.v, int):
                    return [(st, Raise(exc('TypeError'), site=it.site))]
                st.put(o, HUnk('store at an unknown index'))
                return [(st, NONE)]
            i = p[0]
            st.put(o, h.with_segs(h.segs[:i] + (Item(v),) + h.segs[i + 1:]))
            return [(st, NONE)]
        if isinstance(h, HObj):
            kd = it.kind(o, st)
            if kd is not None:
                r = kd.setitem(it, o, k, v, st)
                if r is not None:
                    return r
            it.record_op(st, o, 'setitem', k, v)
            return [(st, NONE)]
        if isinstance(h, HInst):
            g, _ = it.class_lookup(h.cls, '__setitem__')
            if g is not None:
                return it.call(BoundV(g, o), [k, v], {}, st)
            return [(st, Raise(exc('TypeError'), site=it.site))]
        if isinstance(h, HUnk):
            return [(st, NONE)]
        return [(st, Raise(exc('TypeError'), site=it.site))]
    if isinstance(o, (Const, TupV)):
        return [(st, Raise(exc('TypeError'), site=it.site))]
    if isinstance(o, T) and o.op == 'locals':
        return [(st, NONE)]
    if isinstance(o, T) and o.op == 'instdict':
        return it.setattr_(o.args[0], k, v, st)
    st.event(Op('effect', o, Const('setitem'), k, v, site=it.site))
    return [(st, NONE)]


def hashable(it, st, k):
    h = it.hv(st, k)
    if isinstance(h, (HList, HDict)) or (isinstance(h, HSet) and not h.frozen):
        return False
    if isinstance(k, TupV):
        return all(hashable(it, st, s.v) for s in k.segs if isinstance(s, Item))
    kd = it.kind(k, st)
    if kd is not None and any(t in (list, dict, set, bytearray) for t in kd.py or ()):
        return False
    return True


def delitem(it, st, o, k):
    st = st.clone()
    h = it.hv(st, o)
    if isinstance(h, HDict):
        out = []
        for s, v in lookup(it, st, h.segs, k, o):
            if v is None:
                out.append((s, Raise(exc('KeyError'), k, it.site)))
                continue
            s = s.clone()
            for i in range(len(h.segs) - 1, -1, -1):
                e = h.segs[i]
                if isinstance(e, Entry) and (it.eq_(e.k, k, s) is True or s.facts.get(eq_atom(e.k, k))):
                    s.put(o, h.with_segs(h.segs[:i] + h.segs[i + 1:]))
                    break
            else:
                s.put(o, HUnk('deletion of an unknown key'))
            out.append((s, NONE))
        return out
    if isinstance(h, HList):
        if isinstance(k, T) and k.op == 'slice':
            c = cut(h.segs, k)
            st.put(o, HUnk('slice deletion') if c is None else h.with_segs(h.segs[:c[0]] + h.segs[c[1]:]))
            return [(st, NONE)]
        p = position(it, st, h.segs, k)
        if p == 'out':
            return [(st, Raise(exc('IndexError'), site=it.site))]
        if p is None:
            st.put(o, HUnk('deletion at an unknown index'))
        else:
            st.put(o, h.with_segs(h.segs[:p[0]] + h.segs[p[0] + 1:]))
        return [(st, NONE)]
    if isinstance(h, HInst):
        g, _ = it.class_lookup(h.cls, '__delitem__')
        if g is not None:
            return it.call(BoundV(g, o), [k], {}, st)
    it.record_op(st, o, 'delitem', k)
    return [(st, NONE)]


# ---------------------------------------------------------------- operators
def is_str(it, st, v):
    if isinstance(v, Const):
        return isinstance(v.v, str)
    cls, py = it.typeof(v, st)
    return py == (str,)


DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod', 'BitOr': 'or', 'BitAnd': 'and',
          'BitXor': 'xor', 'LShift': 'lshift', 'RShift': 'rshift', 'Pow': 'pow', 'MatMult': 'matmul'}


def binop(it, op, a, b, st):
    n = type(op).__name__
    if isinstance(a, Const) and isinstance(b, Const):
        try:
            x, y = a.v, b.v
            r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y,
                 'Div': lambda: x / y, 'FloorDiv': lambda: x // y, 'Mod': lambda: x % y,
                 'BitOr': lambda: x | y, 'BitAnd': lambda: x & y, 'BitXor': lambda: x ^ y,
                 'LShift': lambda: x << y, 'RShift': lambda: x >> y, 'Pow': lambda: x ** y}[n]()
            return [(st, Const(r))]
        except Exception as e:
            if n == 'BitOr' and (a.v is None or b.v is None):
                return [(st, T('union', a, b))]
            return [(st, Raise(exc(type(e).__name__), site=it.site))]
    ha, hb = it.hv(st, a), it.hv(st, b)
    for x, y, h, d in ((a, b, ha, f'__{DUNDER[n]}__'), (b, a, hb, f'__r{DUNDER[n]}__')):
        g = it.class_lookup(h.cls, d)[0] if isinstance(h, HInst) else None
        if g is not None:
            return it.call(BoundV(g, x), [y], {}, st)
    if n == 'BitOr' and isinstance(a, (Ref, ClsV, Const)) or n == 'BitOr' and isinstance(a, T) and a.op == 'union':
        xs = a.args if isinstance(a, T) else (a,)
        return [(st, T('union', *xs, b))]
    if n == 'Add':
        if is_str(it, st, a) and is_str(it, st, b):
            return [(st, concat(a, b))]
        if isinstance(ha, HList):
            if isinstance(hb, HList):
                st = st.clone()
                return [(st, it.alloc(st, HList(ha.segs + hb.segs)))]
            if isinstance(b, (Const, TupV)):
                return [(st, Raise(exc('TypeError'), site=it.site))]
        if isinstance(a, TupV) and isinstance(b, TupV):
            return [(st, TupV(a.segs + b.segs))]
    if n == 'Mult':
        for x, y, hx in ((a, b, ha), (b, a, hb)):
            if isinstance(hx, HList) and isinstance(y, Const) and isinstance(y.v, int):
                st = st.clone()
                return [(st, it.alloc(st, HList(hx.segs * y.v)))]
            if isinstance(x, TupV) and isinstance(y, Const) and isinstance(y.v, int):
                return [(st, TupV(x.segs * y.v))]
            if isinstance(hx, HList):
                st = st.clone()
                src = T('repeat', y)
                return [(st, it.alloc(st, HList((Each(src, [Alt(frozenset(), hx.segs)]),))))]
    if n in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and isinstance(ha, HSet) and isinstance(hb, (HSet, HDict)):
        return setop(it, st, n, ha, hb)
    if n in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and (isinstance(a, IterV) or isinstance(b, IterV)):
        # dict views
        sets = [HSet(x.segs) if isinstance(x, IterV) else h for x, h in ((a, ha), (b, hb))]
        if all(isinstance(x, HSet) for x in sets):
            return setop(it, st, n, *sets)
    if n == 'BitOr' and isinstance(ha, HDict) and isinstance(hb, HDict):
        st = st.clone()
        r = it.alloc(st, HDict(ha.segs))
        return [(s, r if not isinstance(v, Raise) else v) for s, v in it.call(MethV(r, 'update'), [b], {}, st)]
    if n in ('Add', 'Sub'):
        ints = True
        for x in (a, b):
            cls, py = it.typeof(x, st)
            if not (py and all(issubclass(p, int) for p in py)) and not (isinstance(x, T) and x.op in ('phi', 'opt', 'len')):
                ints = False
        if ints:
            return [(st, add(a, b, 1 if n == 'Add' else -1))]
    if n == 'Mod' and is_str(it, st, a):
        return fmt_percent(it, st, a, b)
    return [(st, T('binop', Const(n), a, b))]


def fmt_percent(it, st, a, b):
    if isinstance(a, Const):
        parts = a.v.split('%s')
        args = [s.v for s in b.segs if isinstance(s, Item)] if isinstance(b, TupV) else [b]
        if '%' not in ''.join(parts) and len(parts) == len(args) + 1:
            out = [Const(parts[0])]
            for x, p in zip(args, parts[1:]):
                out += [it.to_str(x, st), Const(p)]
            return [(st, concat(*out))]
    return [(st, T('strm', Const('%'), a, b))]


def setop(it, st, n, ha, hb):
    st = st.clone()
    bs = hb.segs if isinstance(hb, HSet) else tuple(it.keys_of(s) for s in hb.segs)
    if n == 'BitOr':
        out = list(ha.segs)
        for s in bs:
            if isinstance(s, Item) and member(it, st, s.v, out) is True:
                continue
            out.append(s)
        return [(st, it.alloc(st, HSet(out)))]
    if all(isinstance(s, Item) for s in ha.segs):
        out = []
        for s in ha.segs:
            m = member(it, st, s.v, bs)
            if m is None:
                return [(st, it.alloc(st, HUnk('set operation')))]
            if (n in ('Sub', 'BitXor') and not m) or (n == 'BitAnd' and m):
                out.append(s)
        if n == 'BitXor':
            for s in bs:
                m = member(it, st, s.v, ha.segs) if isinstance(s, Item) else None
                if m is None:
                    return [(st, it.alloc(st, HUnk('set operation')))]
                if not m:
                    out.append(s)
        return [(st, it.alloc(st, HSet(out)))]
    return [(st, it.alloc(st, HUnk('set operation')))]


def subset(it, st, a, b):
    """a <= b for segment lists: True/False/None."""
    res = True
    for s in a:
        if isinstance(s, (Item, Entry)):
            m = member(it, st, s.v if isinstance(s, Item) else s.k, b)
            if m is False:
                return False
            if m is None:
                res = None
        else:
            res = None
    return res


def affix(x, c):
    """The test that comparing a slice of a text with c amounts to."""
    if not (isinstance(x, T) and x.op == 'slice' and isinstance(c, Const) and isinstance(c.v, (str, bytes)) and c.v):
        return None
    o, lo, hi, step = x.args
    if step != NONE:
        return None
    if lo in (NONE, Const(0)) and hi == Const(len(c.v)):
        return 'startswith'
    if lo == Const(-len(c.v)) and hi == NONE:
        return 'endswith'
    return None


def compare(it, op, a, b, st):
    n = type(op).__name__
    if n in ('Is', 'IsNot'):
        r = it.is_(a, b, st)
        if r is None:
            x, y = sorted((a, b), key=repr)
            v = T('is', x, y)
            f = st.facts.get(v)
            if f is None:
                f = it.world.oracle(v, st)
            if f is not None:
                v = const(f)
        else:
            v = const(r)
        return [(st, neg(v) if n == 'IsNot' else v)]
    if n in ('Eq', 'NotEq'):
        for x, y in ((a, b), (b, a)):
            h = it.hv(st, x)
            g = it.class_lookup(h.cls, '__eq__')[0] if isinstance(h, HInst) else None
            if g is not None:
                return [(s, v if isinstance(v, Raise) or n == 'Eq' else neg(v)) for s, v in it.call(BoundV(g, x), [y], {}, st)]
        for x, y in ((a, b), (b, a)):
            if (m := affix(x, y)) is not None:
                return [(s, neg(v) if n == 'NotEq' else v) for s, v in str_method(it, st, x.args[0], m, [y], {})]
        r = it.eq_(a, b, st)
        if r is None:
            r = known_eq(it, st, a, b)
        v = const(r) if r is not None else eq_atom(a, b)
        return [(st, neg(v) if n == 'NotEq' else v)]
    if n in ('In', 'NotIn'):
        out = []
        for s, v in contains(it, st, a, b):
            out.append((s, neg(v) if n == 'NotIn' and not isinstance(v, Raise) else v))
        return out
    ha, hb = it.hv(st, a), it.hv(st, b)
    if isinstance(ha, HSet) and isinstance(hb, HSet):
        if n in ('LtE', 'Lt', 'GtE', 'Gt'):
            x, y = (ha, hb) if n in ('LtE', 'Lt') else (hb, ha)
            r = subset(it, st, x.segs, y.segs)
            if r is False:
                return [(st, FALSE)]
            if r is True and n in ('LtE', 'GtE'):
                return [(st, TRUE)]
            return [(st, T('subset', TupV(x.segs), TupV(y.segs), Const(n)))]
    if isinstance(a, Const) and isinstance(b, Const):
        try:
            x, y = a.v, b.v
            return [(st, const({'Lt': lambda: x < y, 'LtE': lambda: x <= y, 'Gt': lambda: x > y, 'GtE': lambda: x >= y}[n]()))]
        except TypeError:
            return [(st, Raise(exc('TypeError'), site=it.site))]
    if a == NONE or b == NONE:
        return [(st, Raise(exc('TypeError'), site=it.site))]
    if n in ('Gt', 'GtE'):
        a, b = b, a
        n = 'Lt' if n == 'Gt' else 'LtE'
    d = add(a, b, -1)
    if isinstance(d, Const):
        return [(st, const(d.v < 0 if n == 'Lt' else d.v <= 0))]
    c, terms = lin(d)
    if all(isinstance(t, T) and t.op in ('count', 'len') for t in terms):
        # counts are never negative
        if min(terms.values()) > 0 and (c >= 0 if n == 'Lt' else c > 0):
            return [(st, FALSE)]
        if max(terms.values()) < 0 and (c < 0 if n == 'Lt' else c <= 0):
            return [(st, TRUE)]
    v = T('lt', a, b) if n == 'Lt' else T('le', a, b)
    return [(st, v)]


def neg(v):
    if isinstance(v, Const):
        return const(not v.v)
    if isinstance(v, T) and v.op == 'not':
        return v.args[0]
    return T('not', v)


def contains(it, st, x, c):
    if isinstance(c, Ref) and c.name == 'sys.modules':
        if isinstance(x, Const):
            r = resolve(x.v)
            if r is not _missing or x.v in it.prog.modules:
                return [(st, TRUE)]
        return [(st, T('in', x, c))]
    segs = None
    if isinstance(c, (TupV, IterV)):
        segs = c.segs
    elif isinstance(c, Addr):
        h = it.h(st, c)
        if isinstance(h, (HList, HSet, HDict, HIter)):
            segs = h.segs
        elif isinstance(h, HInst):
            g, _ = it.class_lookup(h.cls, '__contains__')
            if g is not None:
                return it.call(BoundV(g, c), [x], {}, st)
            out = []
            for s, r in it.segments(c, st):
                out.extend([(s, r)] if isinstance(r, Raise) else contains(it, s, x, TupV(r)))
            return out
    elif isinstance(c, Const):
        if isinstance(c.v, str):
            if isinstance(x, Const):
                if isinstance(x.v, str):
                    return [(st, const(x.v in c.v))]
                return [(st, Raise(exc('TypeError'), site=it.site))]
            return [(st, T('in', x, c))]
        if isinstance(c.v, (tuple, bytes, frozenset)):
            if isinstance(x, Const):
                return [(st, const(x.v in c.v))]
        elif not isinstance(c.v, (tuple, bytes, frozenset)):
            return [(st, Raise(exc('TypeError'), site=it.site))]
    elif isinstance(c, T) and c.op == 'instdict':
        segs = it.segments(c, st)[0][1]
    elif isinstance(c, T):
        if c.op == 'concat' and isinstance(x, Const) and isinstance(x.v, str):
            if any(isinstance(p, Const) and x.v in p.v for p in c.args):
                return [(st, TRUE)]
            if all(isinstance(p, Const) or it.world.oracle(T('in', x, p), st) is False for p in c.args):
                return [(st, FALSE)]
            return [(st, T('in', x, c))]
        k = it.kind(c, st)
        if k is not None:
            r = k.contains(it, c, x, st)
            if r is not None:
                return [(st, r if isinstance(r, V) else const(r))]
            if k.py and not any(hasattr(t, '__contains__') or hasattr(t, '__iter__') for t in k.py) and not {'__contains__', '__iter__'} & set(k.own):
                return [(st, Raise(exc('TypeError'), site=it.site))]
            if k.is_dict():
                segs = (it.dict_each(c, st, 'keys'),)
        elif c.op in it.INT_TERMS:
            return [(st, Raise(exc('TypeError'), site=it.site))]
    if segs is not None:
        if isinstance(c, Addr) and not isinstance(it.h(st, c), HList) and not hashable(it, st, x):
            return [(st, Raise(exc('TypeError'), site=it.site))]
        r = member(it, st, x, segs)
        if r is not None:
            return [(st, const(r))]
        atom = T('in', x, TupV(it.keys_of(s) for s in segs))
        f = st.facts.get(atom)
        if f is None:
            f = it.world.oracle(atom, st)
        return [(st, atom if f is None else const(f))]
    atom = T('in', x, c)
    f = it.world.oracle(atom, st)
    return [(st, atom if f is None else const(f))]


# ---------------------------------------------------------------- builtins
def args_of(args):
    return [a for a in args if not isinstance(a, Star)]


def call_ref(it, f, args, kw, st):
    r = resolve(f.name)
    if isinstance(r, type):
        if issubclass(r, BaseException):
            return [(st, T('excval', f, TupV([Item(a) for a in args_of(args)])))]
        st = st.clone()
        st.event(Op('extcall', f, *[a if not isinstance(a, Star) else a.v for a in args], site=it.site))
        if r.__module__ in OPAQUE_MODULES:
            st.event(Op('unmodelled', f, site=it.site))
        return [(st, term_call(it, st, 'new', f, args, kw))]
    st = st.clone()
    st.event(Op('extcall', f, *[a if not isinstance(a, Star) else a.v for a in args], site=it.site))
    # type.method(instance, ...): an unbound method
    parts = f.name.rsplit('.', 1)
    if len(parts) == 2:
        owner = resolve(parts[0])
        if isinstance(owner, type) and parts[1] == 'mro' and not args:
            return [(st, it.alloc(st, HList([Item(ref_of_type(c)) for c in owner.__mro__])))]
        if isinstance(owner, type) and callable(r) and args and not isinstance(args[0], Star):
            nm = parts[1]
            if nm == '__new__':
                return new_instance(it, st, args[0], args[1:], kw)
            if nm in ('__setattr__',) and len(args) == 3:
                return it.setattr_(args[0], args[1], args[2], st)
            if nm == '__getattribute__' and len(args) == 2:
                return it.getattr_(args[0], args[1], st)
            if nm == '__init__' and owner is object:
                return [(st, NONE)]
            if nm in ('__reduce_ex__', '__reduce__', '__getstate__', '__init__', '__setitem__') or not nm.startswith('__'):
                if isinstance(args[0], (Addr, T, Const, TupV, IterV)) and r is not None and not isinstance(r, type(dict.fromkeys)):
                    return call_method(it, args[0], nm, args[1:], kw, st)
    if r is not _missing and not f.name.startswith(('warnings.',)):
        st.event(Op('unmodelled', f, site=it.site))
    if f.name.startswith('builtins.') and r is not _missing:
        return [(st, T('call', f, *[x.v if isinstance(x, Star) else x for x in args]))]
    return [(st, term_call(it, st, 'call', f, args, kw))]


def term_call(it, st, op, f, args, kw):
    xs = [T('star', a.v) if isinstance(a, Star) else a for a in args]
    for k in sorted(kw):
        xs.append(T('kw', Const(k), kw[k]))
    return T(op, f, *xs)


def new_instance(it, st, cls, args, kw):
    """cls.__new__(cls, *args)"""
    cls = it.unrestored(cls)
    st = st.clone()
    if isinstance(cls, ClsV):
        return [(st, it.alloc(st, HInst(cls)))]
    r = it.world.call(it, MethV(cls, '__new__'), [cls] + list(args), kw, st)
    if r is not None:
        return r
    if isinstance(cls, Const) or isinstance(cls, (TupV,)) or isinstance(it.hv(st, cls), (HList, HDict, HSet)):
        return [(st, Raise(exc('TypeError'), site=it.site))]
    return [(st, it.alloc(st, HObj(cls, term_call(it, st, 'new', cls, args, kw))))]


def call_term(it, f, args, kw, st):
    u = it.unrestored(f)
    st = st.clone()
    if isinstance(u, T) and u.op in GETTERS:
        return call_getter(it, u, args, st)
    if isinstance(u, T) and u.op == 'cls':
        k = it.kind(u.args[0], st)
        if k is not None and k.exc_base is not None:
            return [(st, T('excval', u, TupV([Item(a) for a in args_of(args)])))]
        r = k.construct(it, u, args, kw, st) if k is not None else None
        if r is not None:
            return r
        return [(st, it.alloc(st, HObj(u, term_call(it, st, 'ctor', u, args, kw))))]
    k = it.kind(u, st)
    if k is not None:
        r = k.call(it, u, args, kw, st)
        if r is not None:
            return r
    st.event(Op('usercall', u, *[T('star', a.v) if isinstance(a, Star) else a for a in args], site=it.site))
    return [(st, term_call(it, st, 'call', u, args, kw))]


def with_segments(it, st, v, fn):
    out = []
    for s, segs in it.segments(v, st):
        out.append((s, segs) if isinstance(segs, Raise) else fn(s.clone(), segs))
    return out


@hook('isinstance')
def b_isinstance(it, args, kw, st):
    v, c = args
    r = it.isinstance_(v, c, st)
    if r is not None:
        return [(st, const(r))]
    if isinstance(c, TupV):
        # decide per member so that facts transfer
        pend = [st]
        out = []
        for s in c.segs:
            nxt = []
            for x in pend:
                r = it.isinstance_(v, s.v, x)
                if r is None:
                    for y, b in it.branch(T('isinstance', v, s.v), x):
                        out.append((y, TRUE)) if b else nxt.append(y)
                elif r:
                    out.append((x, TRUE))
                else:
                    nxt.append(x)
            pend = nxt
        return out + [(x, FALSE) for x in pend]
    atom = T('isinstance', v, c)
    f = st.facts.get(atom)
    if f is None:
        f = it.world.oracle(atom, st)
    return [(st, atom if f is None else const(f))]


@hook('issubclass')
def b_issubclass(it, args, kw, st):
    a, c = args
    cls, py = it.typeof(a, st)
    if py is not None and cls is not None and not any(issubclass(p, type) for p in py) and not isinstance(a, T):
        return [(st, Raise(exc('TypeError'), site=it.site))]
    r = it.issubclass_(a, c, st)
    if r is not None:
        return [(st, const(r))]
    atom = T('issubclass', a, c)
    f = it.world.oracle(atom, st)
    return [(st, atom if f is None else const(f))]


@hook('hasattr')
def b_hasattr(it, args, kw, st):
    o, n = args
    out = []
    for s, r in it.hasattr_(o, n, st):
        out.append((s, r if isinstance(r, Raise) else const(r)))
    return out


@hook('getattr')
def b_getattr(it, args, kw, st):
    o, n = args[0], args[1]
    if len(args) == 2:
        if isinstance(n, Const) and not isinstance(n.v, str):
            return [(st, Raise(exc('TypeError'), site=it.site))]
        out = []
        for s, r in it.getattr_(o, n, st):
            out.append((s, r))
        return out
    d = args[2]
    out = []
    for s, r in it.getattr_(o, n, st):
        if isinstance(r, Raise):
            out.append((s, d if r.exc == exc('AttributeError') else r))
        elif isinstance(r, T) and r.op in ('attr', 'getattr') and it.kind(r, s) is None and not it.known_attr(o, n, s):
            for s2, b in it.branch(T('hasattr', o, n), s):
                out.append((s2, r if b else d))
        else:
            out.append((s, r))
    return out


@hook('setattr')
def b_setattr(it, args, kw, st):
    o, n, v = args
    if isinstance(n, Const) and not isinstance(n.v, str):
        return [(st, Raise(exc('TypeError'), site=it.site))]
    return it.setattr_(o, n, v, st)


@hook('delattr')
def b_delattr(it, args, kw, st):
    st = st.clone()
    it.record_op(st, args[0], 'delattr', args[1])
    return [(st, NONE)]


@hook('type')
def b_type(it, args, kw, st):
    if len(args) == 1:
        cls, py = it.typeof(args[0], st)
        if cls is None:
            return [(st, T('typeof', args[0]))]
        return [(st, cls)]
    return [(st, term_call(it, st, 'call', TYPE_REF, args, kw))]


@hook('id')
def b_id(it, args, kw, st):
    return [(st, T('id', args[0]))]


@hook('len')
def b_len(it, args, kw, st):
    v = args[0]
    if isinstance(v, Const) and not hasattr(v.v, '__len__'):
        return [(st, Raise(exc('TypeError'), site=it.site))]
    h = it.hv(st, v)
    if isinstance(h, HInst):
        row = it.row(h)
        if row is not None:
            return [(st, Const(len(row)))]
        g, _ = it.class_lookup(h.cls, '__len__')
        if g is None:
            return [(st, Raise(exc('TypeError'), site=it.site))]
        return it.call(BoundV(g, v), [], {}, st)
    if isinstance(v, T) and v.op == 'instdict':
        return [(st, Const(len(it.h(st, v.args[0]).fields)))]
    k = it.kind(v, st) if isinstance(v, T) else None
    if k is not None:
        r = k.length(it, v, st)
        if r is not None:
            return [(st, r)]
        if k.py and not any(hasattr(t, '__len__') for t in k.py) and '__len__' not in k.own:
            return [(st, Raise(exc('TypeError'), site=it.site))]
    return [(st, length(it, st, v))]


@hook('list')
def b_list(it, args, kw, st):
    if not args:
        st = st.clone()
        return [(st, it.alloc(st, HList()))]
    return with_segments(it, st, args[0], lambda s, segs: (s, it.alloc(s, HList(segs))))


@hook('tuple')
def b_tuple(it, args, kw, st):
    if not args:
        return [(st, TupV(()))]
    return with_segments(it, st, args[0], lambda s, segs: (s, TupV(segs)))


@hook('set')
def b_set(it, args, kw, st):
    if not args:
        st = st.clone()
        return [(st, it.alloc(st, HSet()))]
    return with_segments(it, st, args[0], lambda s, segs: set_of(it, s, segs, False))


@hook('frozenset')
def b_frozenset(it, args, kw, st):
    if not args:
        st = st.clone()
        return [(st, it.alloc(st, HSet((), True)))]
    return with_segments(it, st, args[0], lambda s, segs: set_of(it, s, segs, True))


def set_of(it, st, segs, frozen):
    if not all(hashable(it, st, x.v) for x in segs if isinstance(x, Item)):
        return st, Raise(exc('TypeError'), Const('unhashable'), it.site)
    return st, it.alloc(st, HSet(dedupe(it, st, segs), frozen))


def dedupe(it, st, segs):
    """Each value once; a sequence may hold one several times, a set or the keys of a dict do not."""
    out = []
    for s in segs:
        if isinstance(s, Item) and any(isinstance(o, Item) and (o == s or it.eq_(o.v, s.v, st) is True) for o in out):
            continue
        if isinstance(s, Each):
            k = it.kind(s.src, st) if isinstance(s.src, T) else None
            if k is not None and not getattr(k, 'distinct', False) and any(issubclass(t, (list, tuple)) for t in k.py if isinstance(t, type)):
                s = Each(T('distinct', s.src), s.alts, s.partial)
        out.append(s)
    return out


@hook('dict', 'collections.OrderedDict')
def b_dict(it, args, kw, st):
    st = st.clone()
    a = it.alloc(st, HDict())
    cur = [(st, a)]
    if args:
        cur = [(s, v if isinstance(v, Raise) else a) for s, v in call_method(it, a, 'update', args[:1], {}, st)]
    out = []
    for s, v in cur:
        if not isinstance(v, Raise):
            s = s.clone()
            h = it.h(s, a)
            if hasattr(h, 'segs'):
                s.put(a, h.with_segs(h.segs + tuple(Entry(Const(k), x) for k, x in kw.items() if k != '**')))
        out.append((s, v))
    return out


@hook('iter')
def b_iter(it, args, kw, st):
    if len(args) == 2:
        return [(st, T('call', Ref('builtins.iter'), *args))]
    return with_segments(it, st, args[0], lambda s, segs: (s, it.alloc(s, HIter(segs))))


@hook('next')
def b_next(it, args, kw, st):
    v = args[0]
    h = it.hv(st, v)
    if isinstance(h, HInst):
        g, _ = it.class_lookup(h.cls, '__next__')
        if g is not None:
            return [(s, args[1] if isinstance(r, Raise) and len(args) > 1 and r.exc == exc('StopIteration') else r)
                    for s, r in it.call(BoundV(g, v), [], {}, st)]
    segs = h.segs if isinstance(h, HIter) else v.segs if isinstance(v, IterV) else None
    if segs is None:
        return [(st, T('next', v))]
    st = st.clone()
    if not segs:
        if len(args) > 1:
            return [(st, args[1])]
        return [(st, Raise(exc('StopIteration'), site=it.site))]
    s0 = segs[0]
    if isinstance(s0, Item):
        if isinstance(h, HIter):
            st.put(v, HIter(segs[1:]))
        return [(st, s0.v)]
    if isinstance(s0, Each):
        # first produced element, or nothing
        out = []
        for a in s0.alts:
            s = st.clone()
            f = dict(s.facts)
            f.update(a.facts)
            s.facts = f
            if a.elems and isinstance(a.elems[0], Item):
                out.append((s, a.elems[0].v))
        s = st.clone()
        s.assume(T('nonempty', s0.src), False)
        rest = segs[1:]
        if rest and isinstance(rest[0], Item):
            out.append((s, rest[0].v))
        elif len(args) > 1:
            out.append((s, args[1]))
        else:
            out.append((s, Raise(exc('StopIteration'), site=it.site)))
        return out
    return [(st, T('next', v))]


@hook('map')
def b_map(it, args, kw, st):
    f = args[0]
    if len(args) == 2:
        return mapped(it, st, args[1], lambda s, v: it.call(f, [v], {}, s))
    out = []
    for s, z in b_zip(it, args[1:], {}, st):
        if isinstance(z, Raise):
            out.append((s, z))
            continue
        out.extend(mapped(it, s, z, lambda s2, v: it.call(f, [x.v for x in v.segs], {}, s2) if isinstance(v, TupV) else [(s2, T('call', f, v))]))
    return out


def mapped(it, st, src, fn):
    out = []
    for s, segs in it.segments(src, st):
        if isinstance(segs, Raise):
            out.append((s, segs))
            continue
        s = s.clone()
        acc = it.alloc(s, HList())

        def body(x, v):
            r = []
            for y, z in fn(x, v):
                if isinstance(z, Raise):
                    r.append((y, z))
                else:
                    y = y.clone()
                    h = it.h(y, acc)
                    y.put(acc, h.with_segs(h.segs + (Item(z),)))
                    r.append((y, NEXT))
            return r
        for y, c in it.loop(segs, body, s):
            if c is NEXT:
                h = it.h(y, acc)
                out.append((y, IterV(h.segs) if isinstance(h, HList) else T('unknown', Const('map'))))
            else:
                out.append((y, c))
    return out


@hook('filter', 'itertools.filterfalse')
def b_filter(it, args, kw, st):
    f, src = args
    out = []
    for s, segs in it.segments(src, st):
        if isinstance(segs, Raise):
            out.append((s, segs))
            continue
        s = s.clone()
        acc = it.alloc(s, HList())

        def body(x, v):
            r = []
            res = it.call(f, [v], {}, x) if f != NONE else [(x, v)]
            for y, z in res:
                if isinstance(z, Raise):
                    r.append((y, z))
                    continue
                for w, b in it.branch(z, y):
                    if b:
                        w = w.clone()
                        h = it.h(w, acc)
                        w.put(acc, h.with_segs(h.segs + (Item(v),)))
                    r.append((w, NEXT))
            return r
        for y, c in it.loop(segs, body, s):
            out.append((y, IterV(it.h(y, acc).segs) if c is NEXT else c))
    return out


@hook('zip')
def b_zip(it, args, kw, st):
    cur = [(st, [])]
    for a in args:
        nxt = []
        for s, acc in cur:
            if isinstance(acc, Raise):
                nxt.append((s, acc))
                continue
            for s2, segs in it.segments(a, s):
                nxt.append((s2, segs if isinstance(segs, Raise) else acc + [segs]))
        cur = nxt
    out = []
    for s, acc in cur:
        if isinstance(acc, Raise):
            out.append((s, acc))
            continue
        if all(isinstance(x, Item) for segs in acc for x in segs):
            out.append((s, IterV([Item(TupV(t)) for t in zip(*acc)])))
            continue
        if all(len(segs) == 1 and isinstance(segs[0], Each) for segs in acc) and len({segs[0].src for segs in acc}) == 1:
            es = [segs[0] for segs in acc]
            alts = []
            ok = True
            for a in es[0].alts:
                vals = []
                for e in es:
                    m = [x for x in e.alts if all((f, b) in a.facts or (f, not b) not in a.facts for f, b in x.facts)]
                    if len(m) != 1 or len(m[0].elems) != 1:
                        ok = False
                        break
                    vals.append(m[0].elems[0])
                if not ok:
                    break
                alts.append(Alt(a.facts, (Item(TupV(vals)),)))
            if ok:
                out.append((s, IterV([Each(es[0].src, alts)])))
                continue
        src = T('zip', *[TupV(x) for x in acc])
        out.append((s, IterV([Each(src, [Alt(frozenset(), (Item(TupV([Item(T('elem', src, Const(i))) for i in range(len(acc))])),))])])))
    return out


@hook('enumerate')
def b_enumerate(it, args, kw, st):
    start = args[1] if len(args) > 1 else kw.get('start', Const(0))
    out = []
    for s, segs in it.segments(args[0], st):
        if isinstance(segs, Raise):
            out.append((s, segs))
            continue
        res = []
        for j, sg in enumerate(segs):
            if isinstance(sg, Item):
                res.append(Item(TupV([Item(add(count(segs[:j]), start)), Item(sg.v)])))
            elif isinstance(sg, Each):
                idx = T('idx', sg.src) if j == 0 and start == Const(0) else T('idx', sg.src, Const(j), start)
                res.append(Each(sg.src, [Alt(a.facts, tuple(Item(TupV([Item(idx), Item(e.v)])) if isinstance(e, Item) else e for e in a.elems)) for a in sg.alts], sg.partial))
            else:
                res.append(sg)
        out.append((s, IterV(res)))
    return out


@hook('range')
def b_range(it, args, kw, st):
    if all(isinstance(a, Const) and isinstance(a.v, int) for a in args):
        r = range(*[a.v for a in args])
        if len(r) <= 200:
            return [(st, TupV([Item(Const(i)) for i in r]))]
    src = T('range', *args)
    if len(args) == 1 and isinstance(args[0], T) and args[0].op == 'len':
        return [(st, IterV([Each(args[0].args[0], [Alt(frozenset(), (Item(T('idx', args[0].args[0])),))])]))]
    return [(st, IterV([Each(src, [Alt(frozenset(), (Item(T('intval', src)),))])]))]


def plain(v):
    """The Python value of a constant, or _missing."""
    if isinstance(v, Const):
        return v.v
    if isinstance(v, TupV):
        xs = [plain(x.v) if isinstance(x, Item) else _missing for x in v.segs]
        return _missing if _missing in xs else tuple(xs)
    return _missing


def keyed(it, st, segs, key):
    """[(state, [(plain key, item)] or None or Raise)]"""
    if not all(isinstance(x, Item) for x in segs):
        return [(st, None)]
    cur = [(st, [])]
    for x in segs:
        nxt = []
        for s, acc in cur:
            if not isinstance(acc, list):
                nxt.append((s, acc))
                continue
            for s2, k in [(s, x.v)] if key == NONE else it.call(key, [x.v], {}, s):
                p = plain(k) if not isinstance(k, Raise) else k
                nxt.append((s2, k if isinstance(k, Raise) else None if p is _missing else acc + [(p, x)]))
        cur = nxt
    return cur


def sort_segs(it, st, segs, kw):
    """-> [(state, segments in order, or Raise)]"""
    if not segs or len(segs) == 1 and isinstance(segs[0], Item):
        return [(st, tuple(segs))]
    rev = kw.get('reverse', FALSE)
    out = []
    for s, ks in keyed(it, st, segs, kw.get('key', NONE)):
        if isinstance(ks, Raise):
            out.append((s, ks))
        elif ks is not None and isinstance(rev, Const):
            try:
                out.append((s, tuple(x for _, x in sorted(ks, key=lambda p: p[0], reverse=bool(rev.v)))))
            except TypeError:
                out.append((s, Raise(exc('TypeError'), site=it.site)))
        elif all(isinstance(x, Each) for x in segs) and len(segs) == 1:
            x = segs[0]
            out.append((s, (Each(T('sorted', x.src), x.alts, x.partial),)))
        else:
            src = T('sorted', TupV(segs))
            if all(isinstance(x, Item) for x in segs):
                # which comes where is lost
                s = s.clone()
                s.event(Op('unmodelled', Const('sorted'), site=it.site))
            out.append((s, (Each(src, [Alt(frozenset(), (Item(T('elem', src)),))]),)))
    return out


@hook('sorted')
def b_sorted(it, args, kw, st):
    out = []
    for s, segs in it.segments(args[0], st):
        if isinstance(segs, Raise):
            out.append((s, segs))
            continue
        for s2, r in sort_segs(it, s, segs, kw):
            if not isinstance(r, Raise):
                s2 = s2.clone()
                r = it.alloc(s2, HList(r))
            out.append((s2, r))
    return out


@hook('reversed')
def b_reversed(it, args, kw, st):
    def fn(s, segs):
        return s, IterV([Each(T('reversed', x.src), [Alt(a.facts, tuple(reversed(a.elems))) for a in x.alts], x.partial) if isinstance(x, Each) else x for x in reversed(segs)])
    return with_segments(it, st, args[0], fn)


def _quant(stop):
    def f(it, args, kw, st):
        out = []
        for s, segs in it.segments(args[0], st):
            if isinstance(segs, Raise):
                out.append((s, segs))
                continue

            def body(x, v):
                r = []
                for y, b in it.branch(v, x):
                    r.append((y, ('return', const(stop)) if b == stop else NEXT))
                return r
            for y, c in it.loop(segs, body, s):
                if c is NEXT:
                    out.append((y, const(not stop)))
                elif isinstance(c, tuple):
                    out.append((y, c[1]))
                else:
                    out.append((y, c))
        return out
    return f


HOOKS['builtins.any'] = _quant(True)
HOOKS['builtins.all'] = _quant(False)


def encoding(args, kw):
    """The character encoding of an encode or decode call, None for UTF-8."""
    e = args[0] if args else kw.get('encoding')
    if e is None or isinstance(e, Const) and str(e.v).lower().replace('_', '-') in ('utf-8', 'utf8', 'u8'):
        return None
    return e


def own_text(it, v, names, st):
    """str(), repr() or int() of an instance whose class defines it."""
    h = it.hv(st, v)
    if isinstance(h, HInst):
        for n in names:
            g = it.class_lookup(h.cls, n)[0]
            if g is not None:
                return it.call(BoundV(g, v), [], {}, st)
    return None


@hook('repr', 'ascii')
def b_repr(it, args, kw, st):
    v = args[0]
    if isinstance(v, Const):
        return [(st, Const(repr(v.v)))]
    r = own_text(it, v, ('__repr__',), st)
    if r is not None:
        return r
    r = it.world.method(it, v, '__repr__', [], {}, st)
    return r if r is not None else [(st, T('repr', v))]


@hook('str')
def b_str(it, args, kw, st):
    if not args:
        return [(st, Const(''))]
    if len(args) > 1:
        return call_method(it, args[0], 'decode', args[1:], kw, st)
    r = own_text(it, args[0], ('__str__', '__repr__'), st)
    if r is not None:
        return r
    r = it.world.method(it, args[0], '__str__', [], {}, st)
    return r if r is not None else [(st, it.to_str(args[0], st))]


@hook('format')
def b_format(it, args, kw, st):
    return [(st, T('strm', Const('format'), *args))]


@hook('int')
def b_int(it, args, kw, st):
    if not args:
        return [(st, Const(0))]
    v = args[0]
    if isinstance(v, Const):
        try:
            return [(st, Const(int(v.v, *[a.v for a in args[1:]])))]
        except Exception as e:
            return [(st, Raise(exc(type(e).__name__), site=it.site))]
    r = own_text(it, v, ('__int__', '__index__'), st)
    if r is not None:
        return r
    k = it.kind(v, st)
    if k is not None and k.py == (int,):
        return [(st, v)]
    return [(st, T('intval', v))]


@hook('complex')
def b_complex(it, args, kw, st):
    if len(args) == 1 and isinstance(args[0], Const):
        try:
            return [(st, Const(complex(args[0].v)))]
        except Exception as e:
            return [(st, Raise(exc(type(e).__name__), site=it.site))]
    return [(st, T('call', Ref('builtins.complex'), *args))]


@hook('float')
def b_float(it, args, kw, st):
    r = own_text(it, args[0], ('__float__',), st) if len(args) == 1 else None
    if r is not None:
        return r
    if len(args) == 1 and isinstance(args[0], Const):
        try:
            return [(st, Const(float(args[0].v)))]
        except Exception as e:
            return [(st, Raise(exc(type(e).__name__), site=it.site))]
    return [(st, T('call', Ref('builtins.float'), *args))]


@hook('bool')
def b_bool(it, args, kw, st):
    if not args:
        return [(st, FALSE)]
    r, atom, pol = it.decide(args[0], st)
    if r is not None:
        return [(st, const(r))]
    return [(st, atom if pol else T('not', atom))]


@hook('callable')
def b_callable(it, args, kw, st):
    v = args[0]
    if isinstance(v, (FuncV, BoundV, MethV, ClsV, PartialV)):
        return [(st, TRUE)]
    if isinstance(v, (Const, TupV, IterV)):
        return [(st, FALSE)]
    if isinstance(v, Ref):
        r = resolve(v.name)
        if r is not _missing:
            return [(st, const(callable(r)))]
        return [(st, TRUE)]
    u = it.unrestored(v)
    if isinstance(u, T) and u.op in ('cls', 'userfunc'):
        return [(st, TRUE)]
    k = it.kind(u, st)
    if k is not None and k.callable is not None:
        return [(st, const(k.callable))]
    h = it.hv(st, v)
    if isinstance(h, HInst):
        return [(st, const(it.class_lookup(h.cls, '__call__')[0] is not None))]
    if isinstance(h, (HList, HDict, HSet)):
        return [(st, FALSE)]
    atom = T('callable', u)
    f = it.world.oracle(atom, st)
    return [(st, atom if f is None else const(f))]


@hook('vars')
def b_vars(it, args, kw, st):
    return it.getattr_(args[0], '__dict__', st)


def listed(it, o, st):
    if not isinstance(o, T):
        return None
    k = it.world.kind(o.args[0] if o.op == 'cls' else o, st)
    return k.names(it, st, o.op != 'cls') if hasattr(k, 'names') else None


@hook('dir')
def b_dir(it, args, kw, st):
    st = st.clone()
    names = listed(it, args[0], st) if args else None
    if names is not None:
        return [(st, it.alloc(st, HList([Item(Const(n)) for n in names])))]
    src = T('dir', *args)
    return [(st, it.alloc(st, HList([Each(src, [Alt(frozenset(), (Item(T('mname', src)),))])])))]


@hook('bytes')
def b_bytes(it, args, kw, st):
    if not args:
        return [(st, Const(b''))]
    v = args[0]
    if isinstance(v, Const) and isinstance(v.v, bytes):
        return [(st, v)]
    h = it.hv(st, v)
    if isinstance(h, HList):
        p = plain(TupV(h.segs))
        if p is not _missing:
            try:
                return [(st, Const(bytes(p)))]
            except Exception as e:
                return [(st, Raise(exc(type(e).__name__), site=it.site))]
    cls, py = it.typeof(v, st)
    if py == (bytes,):
        return [(st, v)]
    if len(args) > 1 and is_str(it, st, v):
        return [(st, T('encode', v))]
    return [(st, T('asbytes', v))]


@hook('bytearray')
def b_bytearray(it, args, kw, st):
    if args:
        v = args[0]
        if isinstance(v, T) and v.op == 'asbytes':
            return [(st, T('copy', v.args[0]))]
        return [(st, T('new', Ref('builtins.bytearray'), v))]
    return [(st, T('new', Ref('builtins.bytearray')))]


@hook('object')
def b_object(it, args, kw, st):
    st = st.clone()
    return [(st, it.alloc(st, HObj(OBJECT_REF, T('new', OBJECT_REF))))]


@hook('builtins.object.__new__')
def b_object_new(it, args, kw, st):
    return new_instance(it, st, args[0], args[1:], kw)


@hook('builtins.object.__setattr__')
def b_object_setattr(it, args, kw, st):
    st = st.clone()
    h = it.hv(st, args[0])
    if isinstance(h, HInst):
        return it.setattr_(args[0], args[1], args[2], st)
    it.record_op(st, args[0], 'setattr', args[1], args[2])
    return [(st, NONE)]


@hook('builtins.object.__getattribute__')
def b_object_getattribute(it, args, kw, st):
    return b_getattr2(it, args[0], args[1], st)


def b_getattr2(it, o, n, st):
    out = []
    for s, r in it.getattr_(o, n, st):
        if isinstance(r, T) and r.op in ('attr', 'getattr') and it.kind(r, s) is None and not it.known_attr(o, n, s):
            for s2, b in it.branch(T('hasattr', o, n), s):
                out.append((s2, r if b else Raise(exc('AttributeError'), site=it.site)))
        else:
            out.append((s, r))
    return out


@hook('__import__', 'importlib.import_module')
def b_import(it, args, kw, st):
    n = args[0]
    st = st.clone()
    st.event(Op('import', n, site=it.site))
    r = it.world.call(it, Ref('builtins.__import__'), args, kw, st)
    if r is not None:
        return r
    if isinstance(n, Const):
        if not isinstance(n.v, str):
            return [(st, Raise(exc('TypeError'), site=it.site))]
        if n.v == '':
            return [(st, Raise(exc('ValueError'), site=it.site))]
        top = n.v.split('.')[0]
        if n.v in it.prog.modules:
            it.load(n.v)
            return [(st, ModV(top))]
        r = resolve(n.v)
        if isinstance(r, types.ModuleType):
            return [(st, Ref(top))]
        out = []
        for s, b in it.branch(T('importable', n), st):
            out.append((s, Ref(top) if b else Raise(exc('ImportError'), n, it.site)))
        return out
    out = []
    for s, b in it.branch(T('importable', n), st):
        out.append((s, T('topmodule', n) if b else Raise(exc('ImportError'), n, it.site)))
    return out


@hook('eval', 'exec', 'compile')
def b_eval(it, args, kw, st):
    st = st.clone()
    st.event(Op('eval', *args, site=it.site))
    return [(st, T('eval', *args))]


@hook('globals')
def b_globals(it, args, kw, st):
    return [(st, T('globals'))]


@hook('warnings.warn', '_warnings.warn')
def b_warn(it, args, kw, st):
    st = st.clone()
    st.event(Op('warn', *args, site=it.site))
    return [(st, NONE)]


@hook('print')
def b_print(it, args, kw, st):
    return [(st, NONE)]


@hook('abs', 'round', 'divmod', 'hash', 'chr', 'ord', 'hex', 'pow', 'bin', 'oct')
def b_arith(it, args, kw, st):
    return [(st, T('arith', *args_of(args)))]


def _fold(fn):
    def f(it, args, kw, st):
        if args and all(isinstance(a, Const) for a in args) and not kw:
            try:
                r = it.lift(fn(*[a.v for a in args]))
            except Exception as e:
                return [(st, Raise(exc(type(e).__name__), site=it.site))]
            if r is not None:
                return [(st, r)]
        return [(st, T('arith', *args_of(args)))]
    return f


for _n, _f in (('abs', abs), ('round', round), ('chr', chr), ('ord', ord), ('hex', hex), ('pow', pow), ('bin', bin), ('oct', oct), ('divmod', divmod)):
    HOOKS['builtins.' + _n] = _fold(_f)


@hook('sum')
def b_sum(it, args, kw, st):
    start = args[1] if len(args) > 1 else kw.get('start', Const(0))
    out = []
    for s, segs in it.segments(args[0], st):
        if isinstance(segs, Raise):
            out.append((s, segs))
        elif all(isinstance(x, Item) for x in segs):
            cur = [(s, start)]
            for x in segs:
                cur = [r for s2, a in cur for r in ([(s2, a)] if isinstance(a, Raise) else binop(it, ast.Add(), a, x.v, s2))]
            out.extend(cur)
        else:
            out.append((s, T('intval', T('sum', TupV(segs), start))))
    return out


def _extreme(name, fn):
    def f(it, args, kw, st):
        if any(isinstance(a, Star) for a in args):
            return [(st, T('intval', T(name, *args_of(args))))]
        out = []
        key = kw.get('key', NONE)
        for s, segs in ([(st, tuple(Item(a) for a in args))] if len(args) > 1 else it.segments(args[0], st)):
            if isinstance(segs, Raise):
                out.append((s, segs))
                continue
            if not segs:
                out.append((s, kw['default'] if 'default' in kw else Raise(exc('ValueError'), site=it.site)))
                continue
            for s2, ks in keyed(it, s, segs, key):
                if isinstance(ks, Raise):
                    out.append((s2, ks))
                elif ks is None:
                    out.append((s2, T('intval', T(name, *[x.v for x in segs if isinstance(x, Item)]))))
                else:
                    try:
                        out.append((s2, fn(ks, key=lambda p: p[0])[1].v))
                    except TypeError:
                        out.append((s2, Raise(exc('TypeError'), site=it.site)))
        return out
    return f


HOOKS['builtins.min'] = _extreme('min', min)
HOOKS['builtins.max'] = _extreme('max', max)


# ---------------------------------------------------------------- stdlib
@hook('itertools.chain')
def b_chain(it, args, kw, st):
    cur = [(st, ())]
    for a in args:
        nxt = []
        for s, acc in cur:
            if isinstance(acc, Raise):
                nxt.append((s, acc))
                continue
            if isinstance(a, Star):
                segs_of = a.v.segs if isinstance(a.v, TupV) else None
                if segs_of is None:
                    nxt.append((s, unsupported('chain(*unknown)', it.site)))
                    continue
                nxt.append((s, acc + tuple(flatten1(it, s, segs_of))))
                continue
            for s2, segs in it.segments(a, s):
                nxt.append((s2, segs if isinstance(segs, Raise) else acc + tuple(segs)))
        cur = nxt
    return [(s, a if isinstance(a, Raise) else IterV(a)) for s, a in cur]


def flatten1(it, st, segs):
    out = []
    for s in segs:
        if isinstance(s, Item):
            r = it.segments(s.v, st)
            sg = r[0][1]
            if isinstance(sg, Raise):
                continue
            out.extend(sg)
        elif isinstance(s, Each):
            out.append(Each(s.src, [Alt(a.facts, flatten1(it, st, a.elems)) for a in s.alts], s.partial))
    return out


@hook('itertools.chain.from_iterable')
def b_chain_from(it, args, kw, st):
    return with_segments(it, st, args[0], lambda s, segs: (s, IterV(flatten1(it, s, segs))))


@hook('itertools.islice')
def b_islice(it, args, kw, st):
    stop = args[1] if len(args) == 2 else args[2]
    start = Const(0) if len(args) == 2 else args[1]
    step = args[3] if len(args) > 3 else NONE

    def fn(s, segs):
        if start in (Const(0), NONE) and stop == NONE and step in (NONE, Const(1)):
            return s, IterV(segs)
        if all(isinstance(x, Item) for x in segs) and all(isinstance(x, Const) for x in (start, stop, step)):
            return s, IterV(segs[slice(start.v, stop.v, step.v)])
        c = cut(segs, T('slice', start, stop, step))
        if c is not None:
            return s, IterV(segs[c[0]:c[1]])
        out = []
        for x in segs:
            if isinstance(x, Each):
                out.append(Each(T('islice', x.src, start, stop, step), x.alts, x.partial))
            else:
                out.append(x)
        return s, IterV(out)
    return with_segments(it, st, args[0], fn)


@hook('itertools.repeat')
def b_repeat(it, args, kw, st):
    if len(args) == 2 and isinstance(args[1], Const):
        return [(st, IterV([Item(args[0])] * args[1].v))]
    return b_itunknown(it, args, kw, st)


@hook('itertools.starmap')
def b_starmap(it, args, kw, st):
    def one(s, v):
        out = []
        for s2, segs in it.segments(v, s):
            if isinstance(segs, Raise) or not all(isinstance(x, Item) for x in segs):
                out.append((s2, segs if isinstance(segs, Raise) else unsupported('starmap', it.site)))
            else:
                out.extend(it.call(args[0], [x.v for x in segs], {}, s2))
        return out
    return mapped(it, st, args[1], one)


@hook('itertools.zip_longest')
def b_zip_longest(it, args, kw, st):
    import itertools
    cols = []
    for a in args:
        r = it.segments(a, st)
        if len(r) != 1 or isinstance(r[0][1], Raise) or not all(isinstance(x, Item) for x in r[0][1]):
            return [(st, unsupported('zip_longest', it.site))]
        st = r[0][0]
        cols.append(r[0][1])
    return [(st, IterV([Item(TupV(t)) for t in itertools.zip_longest(*cols, fillvalue=Item(kw.get('fillvalue', NONE)))]))]


def _while(drop):
    def f(it, args, kw, st):
        out = []
        for s, segs in it.segments(args[1], st):
            if isinstance(segs, Raise):
                out.append((s, segs))
                continue
            if not all(isinstance(x, Item) for x in segs):
                out.append((s, unsupported('takewhile', it.site)))
                continue
            pend = [s]
            for i, x in enumerate(segs):
                nxt = []
                for p in pend:
                    for p2, r in it.call(args[0], [x.v], {}, p):
                        if isinstance(r, Raise):
                            out.append((p2, r))
                            continue
                        for p3, b in it.branch(r, p2):
                            if b:
                                nxt.append(p3)
                            else:
                                out.append((p3, IterV(segs[i:] if drop else segs[:i])))
                pend = nxt
            out.extend((p, IterV(() if drop else segs)) for p in pend)
        return out
    return f


HOOKS['itertools.takewhile'] = _while(False)
HOOKS['itertools.dropwhile'] = _while(True)


@hook('functools.reduce')
def b_reduce(it, args, kw, st):
    out = []
    for s, segs in it.segments(args[1], st):
        if isinstance(segs, Raise):
            out.append((s, segs))
            continue
        s = s.clone()
        if len(args) > 2:
            init = args[2]
        elif segs and isinstance(segs[0], Item):
            init, segs = segs[0].v, segs[1:]
        elif segs:
            out.append((s, unsupported('reduce', it.site)))
            continue
        else:
            out.append((s, Raise(exc('TypeError'), site=it.site)))
            continue
        box = it.alloc(s, HInst(Ref('cell'), (('v', init),)))

        def body(x, v):
            r = []
            for y, z in it.call(args[0], [it.h(x, box).get('v'), v], {}, x):
                if not isinstance(z, Raise):
                    y = y.clone()
                    y.put(box, it.h(y, box).set('v', z))
                    z = NEXT
                r.append((y, z))
            return r
        for y, c in it.loop(segs, body, s):
            out.append((y, it.h(y, box).get('v') if c is NEXT else c))
    return out


@hook('itertools.count', 'itertools.cycle')
def b_itunknown(it, args, kw, st):
    st = st.clone()
    st.event(Op('unmodelled', Const('itertools'), site=it.site))
    src = T('itertools', *args)
    return [(st, IterV([Each(src, [Alt(frozenset(), (Item(T('elem', src)),))])]))]


def known_items(it, args, st):
    """The elements of several iterables, None when they are not all known."""
    cols = []
    for a in args:
        r = it.segments(a, st)
        if len(r) != 1 or isinstance(r[0][1], Raise) or not all(isinstance(x, Item) for x in r[0][1]):
            return None
        st = r[0][0]
        cols.append(r[0][1])
    return st, cols


@hook('itertools.product')
def b_product(it, args, kw, st):
    import itertools
    k = known_items(it, args, st)
    if k is None or kw:
        return b_itunknown(it, args, kw, st)
    return [(k[0], IterV([Item(TupV(t)) for t in itertools.product(*k[1])]))]


@hook('itertools.pairwise')
def b_pairwise(it, args, kw, st):
    k = known_items(it, args, st)
    if k is None:
        return b_itunknown(it, args, kw, st)
    c = k[1][0]
    return [(k[0], IterV([Item(TupV(t)) for t in zip(c, c[1:])]))]


@hook('itertools.accumulate')
def b_accumulate(it, args, kw, st):
    k = known_items(it, args[:1], st)
    f = args[1] if len(args) > 1 else kw.get('func', NONE)
    if k is None or 'initial' in kw:
        return b_itunknown(it, args, kw, st)
    cur = [(k[0], ())]
    for x in k[1][0]:
        nxt = []
        for s, acc in cur:
            if isinstance(acc, Raise):
                nxt.append((s, acc))
            elif not acc:
                nxt.append((s, (x,)))
            else:
                r = binop(it, ast.Add(), acc[-1].v, x.v, s) if f == NONE else it.call(f, [acc[-1].v, x.v], {}, s)
                nxt.extend((s2, v if isinstance(v, Raise) else acc + (Item(v),)) for s2, v in r)
        cur = nxt
    return [(s, v if isinstance(v, Raise) else IterV(v)) for s, v in cur]


@hook('itertools.groupby')
def b_groupby(it, args, kw, st):
    k = known_items(it, args[:1], st)
    f = args[1] if len(args) > 1 else kw.get('key', NONE)
    if k is None:
        return b_itunknown(it, args, kw, st)
    cur = [(k[0], ())]
    for x in k[1][0]:
        nxt = []
        for s, acc in cur:
            if isinstance(acc, Raise):
                nxt.append((s, acc))
                continue
            for s2, key in [(s, x.v)] if f == NONE else it.call(f, [x.v], {}, s):
                if isinstance(key, Raise):
                    nxt.append((s2, key))
                    continue
                if not acc:
                    nxt.append((s2, ((key, (x,)),)))
                    continue
                for s3, v in compare(it, ast.Eq(), acc[-1][0], key, s2):
                    if isinstance(v, Raise):
                        nxt.append((s3, v))
                        continue
                    for s4, b in it.branch(v, s3):
                        nxt.append((s4, acc[:-1] + ((acc[-1][0], acc[-1][1] + (x,)),) if b else acc + ((key, (x,)),)))
        cur = nxt
    return [(s, v if isinstance(v, Raise) else IterV([Item(TupV([Item(g), Item(IterV(xs))])) for g, xs in v])) for s, v in cur]


@hook('functools.partial')
def b_partial(it, args, kw, st):
    return [(st, PartialV(args[0], tuple(args[1:]), tuple(sorted(kw.items()))))]


GETTERS = ('itemgetter', 'attrgetter', 'methodcaller')


@hook('operator.itemgetter')
def b_itemgetter(it, args, kw, st):
    return [(st, T('itemgetter', *args))]


@hook('operator.attrgetter')
def b_attrgetter(it, args, kw, st):
    return [(st, T('attrgetter', *args))]


@hook('operator.methodcaller')
def b_methodcaller(it, args, kw, st):
    return [(st, T('methodcaller', TupV([Item(a) for a in args]), TupV([T('b', Const(k), x) for k, x in kw.items()])))]


def call_getter(it, g, args, st):
    o = args[0]
    if g.op == 'methodcaller':
        name, *rest = [x.v for x in g.args[0].segs]
        out = []
        for s, m in it.getattr_(o, name, st):
            out.extend([(s, m)] if isinstance(m, Raise) else it.call(m, rest, {x.args[0].v: x.args[1] for x in g.args[1].segs}, s))
        return out

    def get(s, k):
        if g.op == 'itemgetter':
            return getitem(it, s, o, k)
        if not isinstance(k, Const):
            return it.getattr_(o, k, s)
        cur = [(s, o)]
        for part in k.v.split('.'):
            cur = [r for s2, x in cur for r in ([(s2, x)] if isinstance(x, Raise) else it.getattr_(x, part, s2))]
        return cur
    if len(g.args) == 1:
        return get(st, g.args[0])
    cur = [(st, [])]
    for k in g.args:
        nxt = []
        for s, acc in cur:
            if isinstance(acc, Raise):
                nxt.append((s, acc))
                continue
            nxt.extend((s2, v if isinstance(v, Raise) else acc + [Item(v)]) for s2, v in get(s, k))
        cur = nxt
    return [(s, a if isinstance(a, Raise) else TupV(a)) for s, a in cur]


@hook('copy.copy')
def b_copy(it, args, kw, st):
    v = args[0]
    h = it.hv(st, v)
    if isinstance(h, (HList, HSet, HDict, HInst)):
        st = st.clone()
        return [(st, it.alloc(st, h))]
    if isinstance(v, (Const, TupV, FuncV, ClsV, Ref)):
        return [(st, v)]
    if isinstance(v, T):
        k = it.kind(v, st)
        if k is not None and k.is_dict() and k.exact:
            return b_dict(it, [v], {}, st)
    return [(st, T('copy', v))]


@hook('copy.deepcopy')
def b_deepcopy(it, args, kw, st):
    st = st.clone()
    memo = {}

    def seg(s):
        if isinstance(s, Item):
            return Item(rec(s.v))
        if isinstance(s, Entry):
            return Entry(rec(s.k), rec(s.v))
        if isinstance(s, Each):
            return Each(s.src, [Alt(a.facts, tuple(seg(e) for e in a.elems)) for a in s.alts], s.partial)
        return s

    def rec(v):
        if isinstance(v, TupV):
            return TupV([seg(s) for s in v.segs])
        h = it.hv(st, v)
        if isinstance(h, (HList, HSet, HDict, HInst)):
            if v not in memo:
                memo[v] = it.alloc(st, h)
                if isinstance(h, HInst):
                    st.put(memo[v], HInst(h.cls, tuple((n, rec(x)) for n, x in h.fields)))
                else:
                    st.put(memo[v], h.with_segs(tuple(seg(s) for s in h.segs)))
            return memo[v]
        if isinstance(v, T) or h is not None:
            k = it.kind(v, st)
            if isinstance(v, T) and k is not None and k.py and all(t in (int, str, float, bool, bytes, type(None)) for t in k.py):
                return v
            return T('copy', v)
        return v
    return [(st, rec(args[0]))]


@hook('base64.b64encode', 'base64.standard_b64encode')
def b_b64e(it, args, kw, st):
    return [(st, T('b64e', args[0]))] if not kw and len(args) == 1 else [(st, T('b64e_alt', *args))]


@hook('base64.b85encode')
def b_b85e(it, args, kw, st):
    return [(st, T('b85e', args[0]))] if not kw and len(args) == 1 else [(st, T('b85e_alt', *args))]


def _dec(op, enc):
    def f(it, args, kw, st):
        v = strip_codec(args[0])
        if isinstance(v, T) and v.op == enc:
            return [(st, v.args[0])]
        if isinstance(args[0], Const) and not isinstance(args[0].v, (str, bytes)):
            return [(st, Raise(exc('TypeError'), site=it.site))]
        if it.hv(st, args[0]) is not None or isinstance(args[0], TupV):
            return [(st, Raise(exc('TypeError'), site=it.site))]
        if isinstance(args[0], Const) and not kw and len(args) == 1 and op in FOLD:
            try:
                return [(st, Const(FOLD[op](args[0].v)))]
            except binascii.Error:
                return [(st, Raise(Ref('binascii.Error'), site=it.site))]
            except ValueError:
                return [(st, Raise(exc('ValueError'), site=it.site))]
        return [(st, T(op, args[0]))]
    return f


FOLD = {'b64d': base64.b64decode, 'b85d': base64.b85decode}


HOOKS['base64.b64decode'] = _dec('b64d', 'b64e')
HOOKS['base64.standard_b64decode'] = _dec('b64d', 'b64e')
HOOKS['base64.b85decode'] = _dec('b85d', 'b85e')
HOOKS['binascii.b2a_base64'] = lambda it, a, kw, st: [(st, T('b64e_alt', *a))]
HOOKS['base64.urlsafe_b64encode'] = lambda it, a, kw, st: [(st, T('b64e_url', *a))]
HOOKS['base64.urlsafe_b64decode'] = _dec('b64d_url', 'b64e_url')
HOOKS['base64.a85encode'] = lambda it, a, kw, st: [(st, T('a85e', *a))]
HOOKS['base64.a85decode'] = _dec('a85d', 'a85e')


def _codec_pair(enc, dec):
    def e(it, args, kw, st):
        return [(st, T('enc', Const(enc), args[0]))]

    def d(it, args, kw, st):
        v = strip_codec(args[0])
        if isinstance(v, T) and v.op == 'enc' and v.args[0] == Const(enc):
            return [(st, v.args[1])]
        return [(st, T('dec', Const(enc), args[0]))]
    HOOKS[enc] = e
    HOOKS[dec] = d


_codec_pair('zlib.compress', 'zlib.decompress')
_codec_pair('pickle.dumps', 'pickle.loads')


@hook('inspect.getmro')
def b_getmro(it, args, kw, st):
    return it.getattr_(args[0], '__mro__', st)


@hook('inspect.getmembers')
def b_getmembers(it, args, kw, st):
    st = st.clone()
    r = it.world.call(it, Ref('inspect.getmembers'), args, kw, st)
    if r is not None:
        return r
    names = listed(it, args[0], st) if len(args) == 1 and not kw else None
    if names is not None:
        return [(st, it.alloc(st, HList([Item(TupV([Item(Const(n)), Item(T('member', args[0], Const(n)))])) for n in names])))]
    src = T('members', args[0])
    return [(st, it.alloc(st, HList([Each(src, [Alt(frozenset(), (Item(TupV([Item(T('mname', src)), Item(T('mval', src))])),))])])))]


SIGNATURE = """
class Parameter:
    def replace(self, **kw):
        raise NotImplementedError


class Signature:
    pass


class FullArgSpec:
    pass
"""


def support(it, name):
    """A class of our own that stands for one of the library."""
    if 'verif_inspect' not in it.prog.modules:
        it.prog.modules['verif_inspect'] = ModuleInfo('verif_inspect', os.path.join(REPO, 'verif_inspect.py'), SIGNATURE)
        it.load('verif_inspect')
    return it.entry('verif_inspect', name)


def parameters(it, f, st):
    """[(name, kind, default or None)] of a function whose source is known."""
    skip = 0
    while isinstance(f, BoundV):
        f, skip = f.func, skip + 1
    if not isinstance(f, FuncV):
        return None
    a = f.fn.node.args
    env = it.clo.get(f.clo, {})
    dv = env.get('%defaults')
    ds = [x.v for x in dv.segs] if dv is not None else [T('default', Const(f.fn.qual), Const(i)) for i in range(len(a.defaults) + sum(d is not None for d in a.kw_defaults))]
    pos = [(p.arg, 'POSITIONAL_ONLY') for p in a.posonlyargs] + [(p.arg, 'POSITIONAL_OR_KEYWORD') for p in a.args]
    n = len(a.defaults)
    out = [(p, k, ds[i - (len(pos) - n)] if i >= len(pos) - n and i - (len(pos) - n) < len(ds) else None) for i, (p, k) in enumerate(pos)][skip:]
    if a.vararg:
        out.append((a.vararg.arg, 'VAR_POSITIONAL', None))
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        out.append((p.arg, 'KEYWORD_ONLY', None if d is None else T('default', Const(f.fn.qual), Const(p.arg))))
    if a.kwarg:
        out.append((a.kwarg.arg, 'VAR_KEYWORD', None))
    return out


@hook('inspect.signature', 'inspect.Signature.from_callable')
def b_signature(it, args, kw, st):
    ps = parameters(it, args[0], st) if len(args) == 1 else None
    if ps is None:
        return [(st, unsupported(f'signature of {args[0]}', it.site))]
    st = st.clone()
    ent = []
    for n, k, d in ps:
        f = {'name': Const(n), 'kind': Ref(f'inspect.Parameter.{k}'), 'default': d if d is not None else Ref('inspect.Parameter.empty'),
             'annotation': Ref('inspect.Parameter.empty')}
        ent.append(Entry(Const(n), it.alloc(st, HInst(support(it, 'Parameter'), f.items()))))
    return [(st, it.alloc(st, HInst(support(it, 'Signature'), [('parameters', it.alloc(st, HDict(ent)))])))]


@hook('inspect.getfullargspec')
def b_fullargspec(it, args, kw, st):
    ps = parameters(it, args[0], st) if len(args) == 1 else None
    if ps is None:
        return [(st, unsupported(f'signature of {args[0]}', it.site))]
    if isinstance(args[0], BoundV):
        ps = parameters(it, args[0].func, st)
    st = st.clone()

    def names(*kinds):
        return it.alloc(st, HList([Item(Const(n)) for n, k, _ in ps if k in kinds]))

    def star(kind):
        return next((Const(n) for n, k, _ in ps if k == kind), NONE)
    f = {'args': names('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD'), 'varargs': star('VAR_POSITIONAL'), 'varkw': star('VAR_KEYWORD'),
         'kwonlyargs': names('KEYWORD_ONLY')}
    return [(st, it.alloc(st, HInst(support(it, 'FullArgSpec'), f.items())))]


@hook('typing.TypeVar', 'typing.NewType')
def b_typing(it, args, kw, st):
    return [(st, T('typevar', *args_of(args)))]


@hook('typing.cast')
def b_cast(it, args, kw, st):
    return [(st, args[1])]


@hook('re.compile')
def b_recompile(it, args, kw, st):
    return [(st, term_call(it, st, 'new', Ref('re.Pattern'), args, kw))]


@hook('threading.Lock')
def b_lock(it, args, kw, st):
    st = st.clone()
    import threading
    c = ref_of_type(type(threading.Lock()))
    return [(st, it.alloc(st, HObj(c, T('new', c))))]


@hook('operator.setitem')
def b_opsetitem(it, args, kw, st):
    return setitem(it, st, *args)


@hook('operator.getitem')
def b_opgetitem(it, args, kw, st):
    return getitem(it, st, *args)


def _operator(op, cmp):
    def f(it, args, kw, st):
        return (compare if cmp else binop)(it, op, args[0], args[1], st)
    return f


for _n in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
    HOOKS['operator.' + _n.lower()] = _operator({'Ne': ast.NotEq, 'Le': ast.LtE, 'Ge': ast.GtE}.get(_n, getattr(ast, _n, None))(), True)
for _n, _o in (('add', ast.Add), ('sub', ast.Sub), ('mul', ast.Mult), ('or_', ast.BitOr), ('and_', ast.BitAnd), ('xor', ast.BitXor), ('concat', ast.Add)):
    HOOKS['operator.' + _n] = _operator(_o(), False)


@hook('operator.not_')
def b_opnot(it, args, kw, st):
    return [(s, const(not b)) for s, b in it.branch(args[0], st)]


@hook('operator.truth')
def b_optruth(it, args, kw, st):
    return [(s, const(b)) for s, b in it.branch(args[0], st)]


@hook('operator.is_not')
def b_opisnot(it, args, kw, st):
    return compare(it, ast.IsNot(), args[0], args[1], st)


@hook('operator.contains')
def b_opcontains(it, args, kw, st):
    return contains(it, st, args[1], args[0])


@hook('operator.delitem')
def b_opdelitem(it, args, kw, st):
    return delitem(it, st, *args)


@hook('collections.deque')
def b_deque(it, args, kw, st):
    if len(args) > 1 or kw:
        return [(st, unsupported('bounded deque', it.site))]
    r = b_list(it, args, kw, st)
    it.deques.update(a for _, a in r if isinstance(a, Addr))
    return r


@hook('collections.namedtuple')
def b_namedtuple(it, args, kw, st):
    name = plain(args[0])
    h = it.hv(st, args[1])
    names = plain(TupV(h.segs) if isinstance(h, HList) else args[1])
    if kw or name is _missing or names is _missing:
        return [(st, unsupported('namedtuple', it.site))]
    node = ast.parse(f'class {name}: pass').body[0]
    info = it.fninfo.setdefault(('namedtuple', str(it.site), name), ClassInfo(it.site.file, node, name))
    info.bases = [Ref('builtins.tuple')]
    info.fields = list(names.replace(',', ' ').split() if isinstance(names, str) else names)
    info.row = True
    return [(st, ClsV(info))]


@hook('operator.is_')
def b_opis(it, args, kw, st):
    return compare(it, ast.Is(), args[0], args[1], st)


@hook('dict.fromkeys', 'builtins.dict.fromkeys')
def b_fromkeys(it, args, kw, st):
    d = args[1] if len(args) > 1 else NONE

    def ent(s):
        if isinstance(s, Item):
            return Entry(s.v, d)
        if isinstance(s, Each):
            return Each(s.src, [Alt(a.facts, tuple(ent(e) for e in a.elems)) for a in s.alts], s.partial)
        return s
    def make(s, segs):
        if not all(hashable(it, s, x.v) for x in segs if isinstance(x, Item)):
            return s, Raise(exc('TypeError'), Const('unhashable'), it.site)
        return s, it.alloc(s, HDict([ent(x) for x in dedupe(it, s, segs)]))
    return with_segments(it, st, args[0], make)


# ---------------------------------------------------------------- methods
def call_method(it, o, name, args, kw, st):
    r = it.world.method(it, o, name, args, kw, st)
    if r is not None:
        return r
    if isinstance(o, Addr):
        h = it.h(st, o)
        if name == '__new__' and isinstance(h, (HList, HDict, HSet)):
            # reached through an instance, the first argument still has to be a class
            if args and not isinstance(it.hv(st, args[0]), (HList, HDict, HSet)) and not isinstance(args[0], (Const, TupV)):
                return new_instance(it, st, args[0], args[1:], kw)
            return [(st, Raise(exc('TypeError'), site=it.site))]
        if isinstance(h, HList):
            return list_method(it, st, o, h, name, args, kw)
        if isinstance(h, HDict):
            return dict_method(it, st, o, h, name, args, kw)
        if isinstance(h, HSet):
            return set_method(it, st, o, h, name, args, kw)
        if isinstance(h, HObj):
            return obj_method(it, st, o, h, name, args, kw)
        if isinstance(h, HInst):
            return inst_method(it, st, o, h, name, args, kw)
        return [(st, T('call', MethV(o, name), *args_of(args)))]
    if is_str(it, st, o):
        return str_method(it, st, o, name, args, kw)
    if isinstance(o, Const) and isinstance(o.v, bytes):
        if name == 'decode':
            try:
                return [(st, Const(o.v.decode(*[a.v for a in args])))]
            except Exception as e:
                return [(st, Raise(exc(type(e).__name__), site=it.site))]
    if isinstance(o, (Const,)):
        if name in ('__str__', '__repr__'):
            return [(st, Const(getattr(o.v, name)()))]
        if all(isinstance(a, Const) for a in args):
            try:
                r = getattr(o.v, name)(*[a.v for a in args])
                lv = it.lift(r)
                if lv is not None:
                    return [(st, lv)]
            except Exception as e:
                return [(st, Raise(exc(type(e).__name__), site=it.site))]
        return [(st, T('call', MethV(o, name), *args_of(args)))]
    if isinstance(o, TupV):
        if name == 'index' and isinstance(args[0], V):
            for i, s in enumerate(o.segs):
                if isinstance(s, Item) and it.eq_(s.v, args[0], st):
                    return [(st, Const(i))]
        if name == 'count':
            rs = [it.eq_(s.v, args[0], st) if isinstance(s, Item) else None for s in o.segs]
            return [(st, T('intval', o, *args) if None in rs else Const(sum(rs)))]
        return [(st, T('call', MethV(o, name), *args_of(args)))]
    if isinstance(o, T) and o.op == 'instdict':
        fields = it.h(st, o.args[0]).fields
        if name in ('__setitem__', 'update', 'setdefault', '__delitem__', 'pop', 'clear'):
            if name == 'update' and (not args or isinstance(it.hv(st, args[0]), HDict)):
                es = list(it.h(st, args[0]).segs) if args else []
                es += [Entry(Const(k), x) for k, x in kw.items()]
                if all(isinstance(e, Entry) and isinstance(e.k, Const) for e in es):
                    for e in es:
                        st = it.setattr_(o.args[0], e.k, e.v, st)[0][0]
                    return [(st, NONE)]
            if name == '__setitem__':
                return it.setattr_(o.args[0], args[0], args[1], st)
            return [(st, unsupported(f'__dict__.{name}', it.site))]
        st = st.clone()
        d = it.alloc(st, HDict([Entry(Const(n), v) for n, v in fields]))
        return call_method(it, d, name, args, kw, st)
    if isinstance(o, T) and o.op in GETTERS and name == '__call__':
        return call_getter(it, o, args, st)
    if isinstance(o, T):
        u = it.unrestored(o)
        if isinstance(u, T) and u.op == 'cls':
            return cls_method(it, st, u, name, args, kw)
        k = it.kind(o, st)
        if k is not None:
            r = k.method(it, o, name, args, kw, st)
            if r is not None:
                return r
            if k.is_dict():
                r = term_dict_method(it, st, o, k, name, args, kw)
                if r is not None:
                    return r
        if name == 'decode' and o.op in ('b64e', 'b85e', 'encode', 'enc', 'b64e_url', 'a85e'):
            enc = encoding(args, kw)
            if o.op == 'encode' and enc == (o.args[1] if len(o.args) > 1 else None):
                return [(st, o.args[0])]
            return [(st, T('decode', o, *([enc] if enc else [])))]
        st = st.clone()
        if name in MUTATORS:
            st.event(Op('effect', o, Const(name), *args_of(args), site=it.site))
        else:
            st.event(Op('usercall', MethV(o, name), *args_of(args), site=it.site))
        return [(st, term_call(it, st, 'call', MethV(o, name), args, kw))]
    if isinstance(o, Ref):
        return call_ref(it, Ref(f'{o.name}.{name}'), args, kw, st)
    return [(st, T('call', MethV(o, name), *args_of(args)))]


def inst_method(it, st, o, h, name, args, kw):
    """An inherited external method on a package instance."""
    if name in ('__init__', '__setattr__') and name == '__init__':
        return [(st, NONE)]
    if name == '__setattr__':
        return it.setattr_(o, args[0], args[1], st)
    if name in ('__str__', '__repr__'):
        return [(st, T('repr', o))]
    if it.row(h) is not None:
        if name == '_replace' and not args and '**' not in kw:
            st = st.clone()
            for k, v in kw.items():
                h = h.set(k, v)
            return [(st, it.alloc(st, h))]
        if name == '_asdict':
            st = st.clone()
            return [(st, it.alloc(st, HDict([Entry(Const(n), h.get(n)) for n in it.field_names(h.cls)])))]
        if name in ('index', 'count', '__iter__', '__len__', '__contains__', '__getitem__'):
            return call_method(it, TupV(it.row(h)), name, args, kw, st)
    st = st.clone()
    st.event(Op('unmodelled', Const(name), site=it.site))
    return [(st, T('call', MethV(o, name), *args_of(args)))]


def cls_method(it, st, u, name, args, kw):
    k = it.kind(u.args[0], st)
    st = st.clone()
    if name == '__new__':
        if k is not None:
            r = k.new(it, u, args, kw, st)
            if r is not None:
                return r
        return new_instance(it, st, args[0] if args else u, args[1:], kw)
    if name == 'mro':
        return it.getattr_(u, '__mro__', st)
    if k is not None:
        r = k.cls_method(it, u, name, args, kw, st)
        if r is not None:
            return r
    st.event(Op('usercall', MethV(u, name), *args_of(args), site=it.site))
    return [(st, term_call(it, st, 'call', MethV(u, name), args, kw))]


def obj_method(it, st, o, h, name, args, kw):
    k = it.kind(o, st)
    st = st.clone()
    if k is not None:
        r = k.obj_method(it, o, name, args, kw, st)
        if r is not None:
            return r
    if name == '__setattr__':
        return it.setattr_(o, args[0], args[1], st)
    if name == '__setitem__':
        return setitem(it, st, o, args[0], args[1])
    if name in ('append', 'add', 'extend', 'update', '__setstate__', 'acquire', 'insert', 'setdefault', 'pop', 'clear'):
        snap = []
        for a in args:
            if isinstance(a, Star):
                snap.append(T('star', a.v))
            else:
                snap.append(a)
        st.put(o, h.with_segs(h.segs + (Op('call', Const(name), *snap, site=it.site),)))
        return [(st, NONE)]
    if name == '__init__':
        st.put(o, h.with_segs(h.segs + (Op('call', Const(name), *args_of(args), site=it.site),)))
        return [(st, NONE)]
    if name in ('items', 'keys', 'values', '__iter__'):
        return [(st, IterV([Each(T('elems', o), [Alt(frozenset(), (Item(T('elem', o)),))])]))]
    st.put(o, h.with_segs(h.segs + (Op('call', Const(name), *args_of(args), site=it.site),)))
    return [(st, term_call(it, st, 'call', MethV(o, name), args, kw))]


def list_extend(it, st, a, v):
    out = []
    for s, segs in it.segments(v, st):
        if isinstance(segs, Raise):
            out.append((s, segs))
            continue
        s = s.clone()
        h = it.h(s, a)
        if hasattr(h, 'segs'):
            s.put(a, h.with_segs(h.segs + tuple(segs)))
        out.append((s, NONE))
    return out


def list_method(it, st, o, h, name, args, kw):
    st = st.clone()
    if name == 'append':
        st.put(o, h.with_segs(h.segs + (Item(args[0]),)))
        return [(st, NONE)]
    if name in ('extend', '__iadd__'):
        return list_extend(it, st, o, args[0])
    if name == 'pop':
        if not h.segs:
            return [(st, Raise(exc('IndexError'), site=it.site))]
        i = args[0] if args else Const(-1)
        p = position(it, st, h.segs, i)
        if p == 'out':
            return [(st, Raise(exc('IndexError'), site=it.site))]
        if p is None:
            st.put(o, HUnk('pop at an unknown position'))
            return [(st, T('popped', o))]
        st.put(o, h.with_segs(h.segs[:p[0]] + h.segs[p[0] + 1:]))
        return [(st, p[1].v)]
    if name == 'copy':
        return [(st, it.alloc(st, h))]
    if name == 'clear':
        st.put(o, h.with_segs(()))
        return [(st, NONE)]
    if name == 'insert':
        i = args[0].v if isinstance(args[0], Const) and isinstance(args[0].v, int) else None
        if args[0] == length(it, st, o):
            i = len(h.segs)
        if i is not None and (all(isinstance(s, Item) for s in (h.segs[:i] if i >= 0 else h.segs[i:])) or i == len(h.segs)):
            st.put(o, h.with_segs(h.segs[:i] + (Item(args[1]),) + h.segs[i:]))
        else:
            st.put(o, HUnk('insert'))
        return [(st, NONE)]
    if name == 'remove':
        for i, s in enumerate(h.segs):
            r = it.eq_(s.v, args[0], st) if isinstance(s, Item) else None
            if r is True:
                st.put(o, h.with_segs(h.segs[:i] + h.segs[i + 1:]))
                return [(st, NONE)]
            if r is None:
                out = []
                if isinstance(s, Item):
                    for s2, b in it.branch(eq_atom(s.v, args[0]), st):
                        s2 = s2.clone()
                        s2.put(o, h.with_segs(h.segs[:i] + h.segs[i + 1:]) if b else HUnk('remove'))
                        out.append((s2, NONE))
                    return out
                st.put(o, HUnk('remove'))
                return [(st, NONE)]
        return [(st, Raise(exc('ValueError'), site=it.site))]
    if name in ('reverse',):
        st.put(o, h.with_segs(tuple(Each(T('reversed', s.src), s.alts, s.partial) if isinstance(s, Each) else s for s in reversed(h.segs))))
        return [(st, NONE)]
    if name == 'sort':
        out = []
        for s, r in sort_segs(it, st, h.segs, kw):
            if not isinstance(r, Raise):
                s = s.clone()
                s.put(o, h.with_segs(r))
                r = NONE
            out.append((s, r))
        return out
    if name == 'appendleft':
        st.put(o, h.with_segs((Item(args[0]),) + h.segs))
        return [(st, NONE)]
    if name == 'popleft':
        return list_method(it, st, o, h, 'pop', [Const(0)], {})
    if name == 'extendleft':
        return with_segments(it, st, args[0], lambda s, segs: (s.put(o, h.with_segs(tuple(reversed(segs)) + h.segs)), (s, NONE))[1])
    if name == 'index':
        if len(args) > 1:
            return [(st, T('intval', o, *args))]
        for i, s in enumerate(h.segs):
            r = it.eq_(s.v, args[0], st) if isinstance(s, Item) else None
            if r is None:
                return [(st, T('intval', o, *args))]
            if r:
                return [(st, Const(i))]
        return [(st, Raise(exc('ValueError'), site=it.site))]
    if name == 'count':
        rs = [it.eq_(s.v, args[0], st) if isinstance(s, Item) else None for s in h.segs]
        return [(st, T('intval', o, *args) if None in rs else Const(sum(rs)))]
    if name in ('__len__',):
        return [(st, length(it, st, o))]
    if name == '__setitem__':
        return setitem(it, st, o, *args)
    if name == '__getitem__':
        return getitem(it, st, o, *args)
    if name == '__iter__':
        return b_iter(it, [o], {}, st)
    if name == '__contains__':
        return contains(it, st, args[0], o)
    if name in ('__str__', '__repr__'):
        return [(st, T('repr', o))]
    return [(st, unsupported(f'list.{name}', it.site))]


def merge_entries(it, st, o, segs):
    """dict.update with (k, v) segments."""
    cur = [st]
    for s in segs:
        if isinstance(s, Entry):
            nxt = []
            for x in cur:
                nxt.extend(y for y, r in setitem(it, x, o, s.k, s.v))
            cur = nxt
        else:
            nxt = []
            for x in cur:
                x = x.clone()
                h = it.h(x, o)
                if hasattr(h, 'segs'):
                    x.put(o, h.with_segs(h.segs + (s,)))
                nxt.append(x)
            cur = nxt
    return cur


def to_entries(s):
    if isinstance(s, Item):
        if isinstance(s.v, TupV) and len(s.v.segs) == 2 and all(isinstance(x, Item) for x in s.v.segs):
            return Entry(s.v.segs[0].v, s.v.segs[1].v)
        return Entry(T('index', s.v, Const(0)), T('index', s.v, Const(1)))
    if isinstance(s, Each):
        return Each(s.src, [Alt(a.facts, tuple(to_entries(e) for e in a.elems)) for a in s.alts], s.partial)
    return s


def mapping_entries(it, st, v):
    """Entries of a mapping or of an iterable of pairs -> [(st, segs|Raise)]"""
    h = it.hv(st, v)
    if isinstance(h, HDict):
        return [(st, h.segs)]
    if isinstance(v, T):
        k = it.kind(v, st)
        if k is not None and k.is_dict():
            out = []
            for s, r in call_method(it, v, 'items', [], {}, st):
                if isinstance(r, Raise):
                    out.append((s, r))
                else:
                    out.append((s, tuple(to_entries(x) for x in r.segs)))
            return out
        if k is None:
            return [(st, (Each(v, [Alt(frozenset(), (Entry(T('key', v), T('val', v, Const('key'))),))]),))]
    out = []
    for s, segs in it.segments(v, st):
        if isinstance(segs, Raise):
            out.append((s, segs))
            continue
        # pairs given as lists
        conv = []
        for x in segs:
            if isinstance(x, Item) and isinstance(it.hv(s, x.v), HList):
                conv.append(Item(TupV(it.h(s, x.v).segs)))
            else:
                conv.append(x)
        out.append((s, tuple(to_entries(x) for x in conv)))
    return out


def dict_method(it, st, o, h, name, args, kw):
    st = st.clone()
    if name == 'items':
        return [(st, IterV([it.pairs_of(s) for s in h.segs]))]
    if name == 'keys':
        return [(st, IterV([it.keys_of(s) for s in h.segs]))]
    if name == 'values':
        return [(st, IterV([it.vals_of(s) for s in h.segs]))]
    if name == 'get':
        d = args[1] if len(args) > 1 else kw.get('default', NONE)
        return [(s, d if v is None else v) for s, v in lookup(it, st, h.segs, args[0], o)]
    if name == '__contains__':
        return contains(it, st, args[0], o)
    if name == '__getitem__':
        return getitem(it, st, o, args[0])
    if name == '__setitem__':
        return setitem(it, st, o, *args)
    if name in ('update', '__ior__'):
        cur = [(st, NONE)]
        if args:
            cur = []
            for s, segs in mapping_entries(it, st, args[0]):
                if isinstance(segs, Raise):
                    cur.append((s, segs))
                else:
                    cur.extend((x, NONE) for x in merge_entries(it, s, o, segs))
        out = []
        for s, v in cur:
            if not isinstance(v, Raise) and kw:
                for x in merge_entries(it, s, o, [Entry(Const(k), y) for k, y in kw.items() if k != '**']):
                    out.append((x, NONE))
            else:
                out.append((s, v))
        return out
    if name == 'setdefault':
        out = []
        d = args[1] if len(args) > 1 else NONE
        for s, v in lookup(it, st, h.segs, args[0], o):
            if v is None:
                for s2, r in setitem(it, s, o, args[0], d):
                    out.append((s2, r if isinstance(r, Raise) else d))
            else:
                out.append((s, v))
        return out
    if name == 'pop':
        out = []
        for s, v in lookup(it, st, h.segs, args[0], o):
            if v is None:
                out.append((s, args[1] if len(args) > 1 else Raise(exc('KeyError'), args[0], it.site)))
            else:
                for s2, r in delitem(it, s, o, args[0]):
                    out.append((s2, r if isinstance(r, Raise) else v))
        return out
    if name == 'copy':
        return [(st, it.alloc(st, h))]
    if name == 'clear':
        st.put(o, h.with_segs(()))
        return [(st, NONE)]
    if name == 'popitem':
        if h.segs and isinstance(h.segs[-1], Entry):
            e = h.segs[-1]
            st.put(o, h.with_segs(h.segs[:-1]))
            return [(st, TupV([Item(e.k), Item(e.v)]))]
        if not h.segs:
            return [(st, Raise(exc('KeyError'), site=it.site))]
        st.put(o, HUnk('popitem'))
        return [(st, T('popped', o))]
    if name == '__len__':
        return [(st, length(it, st, o))]
    if name == '__iter__':
        return b_iter(it, [o], {}, st)
    if name in ('__str__', '__repr__'):
        return [(st, T('repr', o))]
    if name in ('__eq__', '__ne__'):
        return compare(it, ast.Eq() if name == '__eq__' else ast.NotEq(), o, args[0], st)
    if name == '__delitem__':
        return delitem(it, st, o, args[0])
    if name == 'move_to_end' and len(args) == 1 and not kw:
        out = []
        for s, v in lookup(it, st, h.segs, args[0], o):
            if v is None:
                out.append((s, Raise(exc('KeyError'), args[0], it.site)))
                continue
            for s2, r in delitem(it, s, o, args[0]):
                out.extend([(s2, r)] if isinstance(r, Raise) else setitem(it, s2, o, args[0], v))
        return out
    if name == 'fromkeys':
        return b_fromkeys(it, args, kw, st)
    return [(st, unsupported(f'dict.{name}', it.site))]


def set_method(it, st, o, h, name, args, kw):
    st = st.clone()
    if name == 'add':
        if not hashable(it, st, args[0]):
            return [(st, Raise(exc('TypeError'), site=it.site))]
        if member(it, st, args[0], h.segs) is not True:
            st.put(o, h.with_segs(h.segs + (Item(args[0]),)))
        return [(st, NONE)]
    if name == 'update':
        cur = [(st, NONE)]
        for a in args:
            nxt = []
            for s, _ in cur:
                for s2, segs in it.segments(a, s):
                    if isinstance(segs, Raise):
                        nxt.append((s2, segs))
                        continue
                    s2 = s2.clone()
                    hh = it.h(s2, o)
                    s2.put(o, hh.with_segs(tuple(dedupe(it, s2, hh.segs + tuple(segs)))))
                    nxt.append((s2, NONE))
            cur = nxt
        return cur
    if name in ('discard', 'remove'):
        for i, s in enumerate(h.segs):
            r = it.eq_(s.v, args[0], st) if isinstance(s, Item) else None
            if r is True:
                st.put(o, h.with_segs(h.segs[:i] + h.segs[i + 1:]))
                return [(st, NONE)]
            if r is None:
                st.put(o, HUnk('set removal'))
                return [(st, NONE)]
        return [(st, NONE if name == 'discard' else Raise(exc('KeyError'), site=it.site))]
    if name in ('difference_update', 'intersection_update', 'symmetric_difference_update'):
        out = []
        for s, r in set_method(it, st, o, h, name[:-7], args, kw):
            if not isinstance(r, Raise):
                s = s.clone()
                s.put(o, it.h(s, r))
                r = NONE
            out.append((s, r))
        return out
    if name == 'pop' and len(h.segs) == 1 and isinstance(h.segs[0], Item):
        st.put(o, h.with_segs(()))
        return [(st, h.segs[0].v)]
    if name == 'pop' and not h.segs:
        return [(st, Raise(exc('KeyError'), site=it.site))]
    if name == '__eq__':
        return compare(it, ast.Eq(), o, args[0], st)
    if name in ('union', 'difference', 'intersection', 'symmetric_difference'):
        n = {'union': 'BitOr', 'difference': 'Sub', 'intersection': 'BitAnd', 'symmetric_difference': 'BitXor'}[name]
        cur = [(st, o)]
        for a in args:
            nxt = []
            for s, x in cur:
                for s2, segs in it.segments(a, s):
                    if isinstance(segs, Raise):
                        nxt.append((s2, segs))
                        continue
                    hx = it.h(s2, x)
                    nxt.extend(setop(it, s2, n, hx, HSet(segs)) if isinstance(hx, HSet) else [(s2, x)])
            cur = nxt
        if not args:
            return [(st, it.alloc(st, h))]
        return cur
    if name in ('issubset', 'issuperset'):
        out = []
        for s, segs in it.segments(args[0], st):
            if isinstance(segs, Raise):
                out.append((s, segs))
                continue
            x, y = (h.segs, segs) if name == 'issubset' else (segs, h.segs)
            r = subset(it, s, x, y)
            out.append((s, const(r) if r is not None else T('subset', TupV(x), TupV(y))))
        return out
    if name == 'isdisjoint':
        out = []
        for s, segs in it.segments(args[0], st):
            if isinstance(segs, Raise):
                out.append((s, segs))
                continue
            rs = [member(it, s, x.v, h.segs) if isinstance(x, Item) else None for x in segs]
            if any(r is True for r in rs):
                out.append((s, FALSE))
            elif all(r is False for r in rs):
                out.append((s, TRUE))
            else:
                out.append((s, T('not', T('in', TupV(segs), TupV(h.segs)))))
        return out
    if name == 'copy':
        return [(st, it.alloc(st, h))]
    if name == 'clear':
        st.put(o, h.with_segs(()))
        return [(st, NONE)]
    if name == '__contains__':
        return contains(it, st, args[0], o)
    if name == '__len__':
        return [(st, length(it, st, o))]
    if name == '__iter__':
        return b_iter(it, [o], {}, st)
    return [(st, unsupported(f'set.{name}', it.site))]


def term_dict_method(it, st, o, k, name, args, kw):
    """Read-only dict methods of a mapping supplied by the caller."""
    if name in ('items', 'keys', 'values'):
        ex = k.entries(it, o, st)
        if ex is not None:
            segs = tuple(ex)
            f = {'items': it.pairs_of, 'keys': it.keys_of, 'values': it.vals_of}[name]
            return [(st, IterV([f(s) for s in segs]))]
        return [(st, IterV([it.dict_each(o, st, name)]))]
    if name == 'get':
        d = args[1] if len(args) > 1 else NONE
        ex = k.entries(it, o, st)
        segs = ex if ex is not None else (dict_entries(it, o, st),)
        return [(s, d if v is None else v) for s, v in lookup(it, st, segs, args[0])]
    if name == 'copy':
        return b_dict(it, [o], {}, st)
    if name == '__contains__':
        return contains(it, st, args[0], o)
    if name == '__getitem__':
        return getitem(it, st, o, args[0])
    return None


def dict_entries(it, o, st):
    e = it.dict_each(o, st, 'items')
    return to_entries(e)


# ---------------------------------------------------------------- strings
def starts(it, st, o, p):
    if isinstance(p, TupV):
        res = False
        for s in p.segs:
            r = starts(it, st, o, s.v)
            if r is True:
                return True
            if r is None:
                res = None
        return res
    if not isinstance(p, Const):
        if o == p:
            return True
        if isinstance(o, T) and o.op == 'concat':
            ps = p.args if isinstance(p, T) and p.op == 'concat' else (p,)
            if o.args[:len(ps)] == tuple(ps):
                return True
            last = ps[-1]
            if len(o.args) >= len(ps) and o.args[:len(ps) - 1] == tuple(ps[:-1]) and isinstance(last, Const) and isinstance(o.args[len(ps) - 1], Const):
                return o.args[len(ps) - 1].v.startswith(last.v)
        r = it.world.oracle(T('startswith', o, p), st)
        return r
    if isinstance(o, Const):
        return o.v.startswith(p.v)
    if isinstance(o, T) and o.op == 'concat' and isinstance(o.args[0], Const):
        f = o.args[0].v
        if len(f) >= len(p.v):
            return f.startswith(p.v)
        if not p.v.startswith(f):
            return False
    f = o.args[0] if isinstance(o, T) and o.op == 'concat' and not isinstance(o.args[0], Const) else o
    r = it.world.oracle(T('startswith', f, p), st)
    if r is None and isinstance(f, T):
        k = it.kind(f, st)
        if k is not None:
            r = k.startswith(f, p)
    return r


def ends(it, st, o, p):
    if isinstance(p, TupV):
        rs = [ends(it, st, o, s.v) for s in p.segs]
        return True if True in rs else None if None in rs else False
    if isinstance(o, Const) and isinstance(p, Const):
        return o.v.endswith(p.v)
    if isinstance(o, T) and o.op == 'concat' and isinstance(o.args[-1], Const) and isinstance(p, Const):
        f = o.args[-1].v
        if len(f) >= len(p.v):
            return f.endswith(p.v)
        if not p.v.endswith(f):
            return False
    return it.world.oracle(T('endswith', o, p), st)


def no_sep(it, st, part, sep):
    """The opaque part certainly does not contain the separator."""
    return it.world.oracle(T('in', sep, part), st) is False


def split_parts(it, st, o, sep):
    """Split a concat by a separator -> list of values or None."""
    if isinstance(o, Const):
        return [Const(x) for x in o.v.split(sep.v)]
    args = o.args if isinstance(o, T) and o.op == 'concat' else (o,)
    groups = [[]]
    for p in args:
        if isinstance(p, Const):
            bits = p.v.split(sep.v)
            groups[-1].append(Const(bits[0]))
            for b in bits[1:]:
                groups.append([Const(b)])
        else:
            if not no_sep(it, st, p, sep):
                return None
            groups[-1].append(p)
    return [concat(*g) for g in groups]


def join_parts(sep, parts):
    out = []
    for i, p in enumerate(parts):
        if i:
            out.append(sep)
        out.append(p)
    return concat(*out) if out else Const('')


def str_method(it, st, o, name, args, kw):
    if isinstance(o, Const) and all(isinstance(a, Const) for a in args) and not kw and name not in ('join', 'split', 'rsplit', 'splitlines', 'partition', 'rpartition', 'format'):
        try:
            r = getattr(o.v, name)(*[a.v for a in args])
            return [(st, Const(r))]
        except Exception as e:
            return [(st, Raise(exc(type(e).__name__), site=it.site))]
    if name == 'startswith':
        r = starts(it, st, o, args[0])
        if r is None:
            atom = T('startswith', o, args[0])
            r = st.facts.get(atom)
            return [(st, atom if r is None else const(r))]
        return [(st, const(r))]
    if name == 'endswith':
        r = ends(it, st, o, args[0])
        return [(st, const(r) if r is not None else T('endswith', o, args[0]))]
    if name in ('split', 'rsplit', 'partition', 'rpartition') and args and isinstance(args[0], Const):
        sep = args[0]
        mx = args[1] if len(args) > 1 else kw.get('maxsplit')
        parts = split_parts(it, st, o, sep)
        if parts is not None:
            st = st.clone()
            n = None
            if isinstance(mx, Const):
                n = mx.v
            if name in ('partition', 'rpartition'):
                if len(parts) == 1:
                    t = [parts[0], Const(''), Const('')] if name == 'partition' else [Const(''), Const(''), parts[0]]
                elif name == 'partition':
                    t = [parts[0], sep, join_parts(sep, parts[1:])]
                else:
                    t = [join_parts(sep, parts[:-1]), sep, parts[-1]]
                return [(st, TupV([Item(x) for x in t]))]
            if n is not None and n >= 0 and len(parts) > n + 1:
                if name == 'split':
                    parts = parts[:n] + [join_parts(sep, parts[n:])]
                else:
                    k = len(parts) - n
                    parts = [join_parts(sep, parts[:k])] + parts[k:]
            return [(st, it.alloc(st, HList([Item(p) for p in parts])))]
        src = T('split', o, *args)
        if name in ('partition', 'rpartition'):
            return [(st, TupV([Item(T('strm', Const(name), o, sep, Const(i))) for i in range(3)]))]
        st = st.clone()
        return [(st, it.alloc(st, HList([Each(src, [Alt(frozenset(), (Item(T('strm', Const('part'), src)),))])])))]
    if name == 'join':
        out = []
        for s, segs in it.segments(args[0], st):
            if isinstance(segs, Raise):
                out.append((s, segs))
            elif all(isinstance(x, Item) for x in segs):
                vals = [x.v for x in segs]
                if any(isinstance(v, Const) and not isinstance(v.v, str) for v in vals):
                    out.append((s, Raise(exc('TypeError'), site=it.site)))
                else:
                    out.append((s, join_parts(o, vals)))
            else:
                out.append((s, T('join', o, TupV(segs))))
        return out
    if name == 'encode':
        enc = encoding(args, kw)
        return [(st, T('encode', o, *([enc] if enc else [])))]
    if name in ('__str__', '__repr__') and name == '__str__':
        return [(st, o)]
    if name == '__len__':
        return [(st, length(it, st, o))]
    if name == 'format' and isinstance(o, Const):
        parts = o.v.split('{}')
        if len(parts) == len(args) + 1 and '{' not in ''.join(parts):
            out = [Const(parts[0])]
            for a, p in zip(args, parts[1:]):
                out += [it.to_str(a, st), Const(p)]
            return [(st, concat(*out))]
    if name == 'removeprefix' and isinstance(args[0], Const):
        r = starts(it, st, o, args[0])
        if r is False:
            return [(st, o)]
        if r and isinstance(o, T) and o.op == 'concat' and isinstance(o.args[0], Const) and len(o.args[0].v) >= len(args[0].v):
            return [(st, concat(Const(o.args[0].v[len(args[0].v):]), *o.args[1:]))]
    if name == 'replace' and isinstance(args[0], Const) and isinstance(o, T):
        parts = split_parts(it, st, o, args[0])
        if parts is not None:
            return [(st, join_parts(args[1], parts))]
    if name in ('isdigit', 'isidentifier'):
        return [(st, T(name, o))]
    if name == '__contains__':
        return contains(it, st, args[0], o)
    return [(st, T('strm', Const(name), o, *args_of(args)))]
