"""The extension handlers, analysed on their own with a stand-in for the context.

The context below keeps what is handed to it in order and wraps it; restoring a
wrapped value unwraps it.  numpy, pandas and gmpy2 stay opaque: calls into them
become terms over their arguments unless there is a model.
"""

import ast
import os
import re

from . import models
from .docs import doc
from .models import HOOKS, hook
from .numpy_model import NUMPY
from .pandas_model import DTYPE_NAMES, PANDAS
from .program import REPO, ModuleInfo
from .values import NONE, TRUE, Addr, Const, Entry, FuncV, HDict, HList, Item, Op, Raise, Ref, T, TupV

CONTEXT = '''
class Match:
    def __init__(self, start, end, *groups):
        self._span = (start, end)
        self._groups = groups

    def group(self, n=0):
        return self._groups[n]

    def groups(self):
        return self._groups[1:]

    def __getitem__(self, n):
        return self._groups[n]

    def span(self):
        return self._span

    def start(self):
        return self._span[0]

    def end(self):
        return self._span[1]


from verif_ext import absent, flatten, restore


class Context:
    def __init__(self, unpicklable=True):
        self.unpicklable = unpicklable
        self._objs = {}
        self._flattened = {}

    def flatten(self, obj, reset=True):
        self._objs[len(self._objs)] = obj
        return flatten(obj, reset)

    def _flatten(self, obj):
        return self.flatten(obj, reset=False)

    def __getattr__(self, name):
        return absent(self, name)


class Decoder:
    def __init__(self):
        self._objs = {}

    def restore(self, obj, reset=True, classes=None):
        value = restore(obj, reset)
        self._objs[len(self._objs)] = value
        return value

    def _restore(self, obj):
        return self.restore(obj, reset=False)

    def __getattr__(self, name):
        return absent(self, name)
'''


GMPY = '''
class mpz:
    def __init__(self, value=0):
        self.value = int(value)

    def __int__(self):
        return self.value

    def __index__(self):
        return self.value
'''


MODELS = {'numpy': NUMPY, 'numpy.typing': '', 'gmpy2': GMPY, 'pandas': PANDAS}


def each(it, st, v, f):
    """v with f applied, one level into lists."""
    h = it.h(st, v) if isinstance(v, Addr) else None
    if isinstance(h, HList) and all(isinstance(s, Item) for s in h.segs):
        return it.alloc(st, HList([Item(each(it, st, s.v, f)) for s in h.segs]))
    return f(v)


@hook('verif_ext.absent')
def absent(it, args, kw, st):
    """What the stand-in for the context does not have."""
    st = st.clone()
    st.event(Op('unmodelled', args[1], site=it.site))
    return [(st, T('attr', args[0], args[1]))]


@hook('verif_ext.flatten')
def flatten(it, args, kw, st):
    st = st.clone()
    st.event(Op('nested', Const('flatten'), *args, site=it.site))
    return [(st, each(it, st, args[0], lambda v: T('flat', v)))]


@hook('verif_ext.restore')
def restore(it, args, kw, st):
    st = st.clone()
    st.event(Op('nested', Const('restore'), *args, site=it.site))
    return [(st, each(it, st, args[0], lambda v: v.args[0] if isinstance(v, T) and v.op == 'flat' else T('unflat', v)))]


def jsonified(it, st, v, bad):
    """v as it comes out of a JSON text; what cannot be written is added to bad."""
    if isinstance(v, TupV):
        return it.alloc(st, HList([Item(jsonified(it, st, s.v, bad)) if isinstance(s, Item) else s for s in v.segs]))
    h = it.h(st, v) if isinstance(v, Addr) else None
    if isinstance(h, HList):
        return it.alloc(st, HList([Item(jsonified(it, st, s.v, bad)) if isinstance(s, Item) else s for s in h.segs]))
    if isinstance(h, HDict):
        return it.alloc(st, HDict([Entry(s.k, jsonified(it, st, s.v, bad)) if isinstance(s, Entry) else s for s in h.segs]))
    if h is not None:
        bad.append(v)
    elif isinstance(v, Const) and isinstance(v.v, bytes) or isinstance(v, T) and v.op in ('raw', 'contents', 'zlibed', 'bz2ed', 'items', 'item'):
        bad.append(v)
    return v


def pair(make, undo, op):
    """make(x) wraps x and undo of that gives it back."""
    HOOKS[make] = lambda it, a, kw, st: [(st, T(op, a[0]))]
    HOOKS[undo] = lambda it, a, kw, st: [(st, a[0].args[0] if isinstance(a[0], T) and a[0].op == op else T('un' + op, a[0]))]


for m in ('zlib', 'bz2', 'lzma', 'gzip'):
    pair(f'{m}.compress', f'{m}.decompress', f'{m}ed')


def texted(it, st, v):
    """v when the keys of dicts are written as text."""
    h = it.h(st, v) if isinstance(v, Addr) else None
    if isinstance(h, HDict) and any(isinstance(s, Entry) and not (isinstance(s.k, Const) and isinstance(s.k.v, str)) for s in h.segs):
        return it.alloc(st, HDict([Entry(s.k if isinstance(s.k, Const) and isinstance(s.k.v, str) else T('keytext', s.k), s.v)
                                   if isinstance(s, Entry) else s for s in h.segs]))
    return v


def whole(it, fv, args, kw, st):
    """encode and decode used by a handler for a part of its value."""
    st = st.clone()
    keys = kw.get('keys', Const(False))
    if fv.fn.name == 'encode':
        st.event(Op('nested', Const('encode'), args[0], site=it.site))
        return [(st, T('document', args[0] if keys == TRUE else texted(it, st, args[0]), keys))]
    st.event(Op('nested', Const('decode'), args[0], site=it.site))
    v = args[0]
    if isinstance(v, T) and v.op == 'document':
        if v.args[1] == keys:
            return [(st, v.args[0])]
        return [(st, T('misread', v))]
    return [(st, T('undocument', v))]


def _searches(fn):
    """Searches of constant text with constant patterns: constant folding."""
    def search(it, args, kw, st):
        if 'extctx' not in it.prog.modules or kw or len(args) != 2 or not all(isinstance(a, Const) and isinstance(a.v, str) for a in args):
            return models.call_ref(it, Ref('re.' + fn), args, kw, st)
        m = getattr(re, fn)(args[0].v, args[1].v)
        if m is None:
            return [(st, NONE)]
        return list(it.call(it.entry('extctx', 'Match'), [Const(x) for x in (m.start(), m.end(), m.group(), *m.groups())], {}, st))
    return search


for _n in ('search', 'match', 'fullmatch'):
    HOOKS['re.' + _n] = _searches(_n)


class Ext:
    def __init__(self, run):
        self.run = run
        self.it = it = run.it
        if 'numpy' not in it.prog.modules:
            self.codes(it)
            for name, src in MODELS.items():
                it.prog.modules[name] = ModuleInfo(name, os.path.join(REPO, name + '.py'), src)
                it.partial.add(name)
        if 'extctx' not in it.prog.modules:
            it.prog.modules['extctx'] = ModuleInfo('extctx', os.path.join(REPO, 'extctx.py'), CONTEXT)
            it.load('extctx')
        self.knots = {}
        for n, m in (('encode', 'jsonpickle.pickler'), ('decode', 'jsonpickle.unpickler')):
            f = it.entry(m, n)
            if isinstance(f, FuncV):
                self.knots[f.fn] = whole

    def codes(self, it):
        """The table of dtype codes, for names given here instead of those numpy and pandas list."""
        m = it.prog.modules.get('jsonpickle.tags_pd')
        for s in m.tree.body if m else ():
            for t in s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else ():
                if isinstance(t, ast.Name) and t.id in DTYPE_NAMES:
                    s.value = ast.copy_location(ast.List([ast.copy_location(ast.Constant(n), s) for n in DTYPE_NAMES[t.id]], ast.Load()), s)
                    it.OPAQUE = it.OPAQUE - {'jsonpickle.tags_pd'}

    def calls(self, f, args, kw, st):
        """Call with encode and decode replaced."""
        old = dict(self.it.knots)
        self.it.knots.update(self.knots)
        try:
            return list(self.it.call(f, args, kw, st))
        finally:
            self.it.knots = old

    def method(self, o, name, args, st, kw=None):
        out = []
        for s, f in self.it.getattr_(o, name, st):
            out += [(s, f)] if isinstance(f, Raise) else self.calls(f, args, kw or {}, s)
        return out

    def handlers(self, module, cls, config, side, st, **ctx):
        """The handler as the call machinery would have it, and its context."""
        it = self.it
        if isinstance(cls, str):
            it.load(module)
            H = it.entry(module, cls)
        else:
            H = cls
        for s, c in it.call(it.entry('extctx', 'Context' if side == 'flatten' else 'Decoder'), [], ctx, st):
            if config is None:
                yield from ((s2, h, c) for s2, h in self.calls(H, [c], {}, s))
            else:
                for s2, h in self.calls(H, [], config, s):
                    yield from ((s3, h3, c) for s3, h3 in self.calls(h, [c], {}, s2))

    def encoded(self, module, cls, config, obj, **ctx):
        """(state, data or Raise, context) of every path of flatten."""
        st = self.run.ctx.state()
        for s, h, c in self.handlers(module, cls, config, 'flatten', st, **ctx):
            data = doc(self.it, s, {'py/object': 'x'})
            for s2, r in self.method(h, 'flatten', [obj, data], s):
                yield s2, r, c

    def restored(self, module, cls, config, data, st):
        for s, h, c in self.handlers(module, cls, config, 'restore', st):
            for s2, r in self.method(h, 'restore', [data], s):
                yield s2, r, c

