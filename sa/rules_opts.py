"""C15: every option of encode and decode reaches the code it controls."""

import decimal
import types

from . import kinds as K
from . import scenes as Z
from .check import TEXT, rule
from .docs import doc
from .interp import exc
from .rules_doc import doc_of, members
from .rules_state import ANY, canon
from .rules_trip import o
from .shapes import Scene, arg, flat_events, tup
from .values import FALSE, NONE, TRUE, Addr, Const, Entry, FuncV, HDict, HInst, HList, Item, Op, Raise, T, TupV, UNSUPPORTED

D = Z.D
C = Const

TEXT['C15'] = ('For each option of encode and decode and each of its values: the constructor of the context receives that value for that option and the '
               'documented default for every other one, flatten/restore and the backend receive theirs, and the effect documented for the option is found in '
               'the result of the call and of a context built with the same option, and is absent without it.')

F = T('arg', C('a function'))
SEP = T('arg', C('separators'))
CTX = T('arg', C('handler context'))
ENC = {'unpicklable': True, 'make_refs': True, 'keys': False, 'max_depth': None, 'reset': True, 'backend': None, 'warn': False, 'context': None,
       'max_iter': None, 'use_decimal': False, 'numeric_keys': False, 'use_base85': False, 'fail_safe': None, 'indent': None, 'separators': None,
       'include_properties': False, 'handle_readonly': False, 'handler_context': None}
DEC = {'backend': None, 'context': None, 'keys': False, 'reset': True, 'safe': True, 'classes': None, 'v1_decode': False, 'on_missing': 'ignore',
       'handle_readonly': False, 'handler_context': None}
# given to the constructor of the context, to its traversal method, or to the backend
ENC_BUILD = [k for k in ENC if k not in ('reset', 'context', 'indent', 'separators')]
DEC_BUILD = [k for k in DEC if k not in ('reset', 'context', 'classes')]


class OW(K.W):
    """Record what the backend is given."""

    def method(self, it, obj, name, args, kw, st):
        r = super().method(it, obj, name, args, kw, st)
        if r is not None and name in ('encode', 'decode') and self.kind(obj, st) is not None:
            for s, _ in r:
                s.event(Op('backend', obj, C(name), *args, TupV([Entry(C(k), v) for k, v in sorted(kw.items())]), site=it.site))
            return r
        if obj == T('arg', C('other backend')) and name in ('encode', 'decode'):
            b, self.backend = self.backend, obj
            try:
                return self.method(it, obj, name, args, kw, st)
            finally:
                self.backend = b
        return r


def scene():
    S = Scene('c15')
    S.world.__class__ = OW
    S.kind(F, K.FuncK(types.FunctionType))
    S.kind(SEP, K.Opaque('separators'))
    S.kind(CTX, K.Opaque('handler context'))
    S.kind(T('arg', C('other backend')), K.Opaque('other backend', ('encode', 'decode')))
    return S


class Watch:
    """Record the arguments of some package functions while they run."""

    def __init__(self, run, funcs, stop=()):
        self.run, self.funcs, self.stop = run, funcs, stop

    def __enter__(self):
        it = self.run.it
        self.saved = {f.fn: it.knots.get(f.fn) for f in self.funcs.values()}
        for n, f in self.funcs.items():
            it.knots[f.fn] = self.hook(n, it.knots.get(f.fn))

    def hook(self, name, old):
        def h(it, f, args, kw, st):
            env, r = it.bind(f, args, kw, st)
            st = st.clone()
            if r is None:
                st.event(Op('given', C(name), TupV([Entry(C(k), v) for k, v in env.items() if not k.startswith('%') and k != 'self']), site=it.site))
            if name in self.stop:
                return [(st, Raise(T('stop', C(name)), site=it.site))]
            if old is not None:
                x = old(it, f, args, kw, st)
                if x is not None:
                    return x
            return it.call_func(f, args, kw, st)
        return h

    def __exit__(self, *_):
        it = self.run.it
        for fn, k in self.saved.items():
            if k is None:
                it.knots.pop(fn, None)
            else:
                it.knots[fn] = k


def default_backend(run):
    """The methods of the backend object of the package, which must not be used when another one is given."""
    return {f'{m} of the default backend': method(run, run.it.entry('jsonpickle.backend', 'JSONBackend'), m) for m in ('encode', 'decode')}


def given(st, name):
    return [{x.k.v: x.v for x in e.args[1].segs} for e in flat_events(st.events) if e.name == 'given' and e.args[0].v == name]


def method(run, cls, name):
    f, _ = run.it.class_lookup(cls, name)
    if not isinstance(f, FuncV):
        raise LookupError(f'{cls}.{name} is not a function')
    return f


def values(name, default):
    if name == 'backend':
        return [T('arg', C('other backend'))]
    if isinstance(default, bool):
        return [C(default), C(not default)]
    return {'max_depth': [C(0), C(3)], 'max_iter': [C(0), C(3)], 'fail_safe': [F], 'indent': [C(0), C(4)], 'separators': [SEP], 'handler_context': [CTX, C('')],
            'on_missing': [C('warn'), C('error'), C('ignore'), C('WARN'), C('Error'), F]}.get(name, [])


def want(v):
    return C(v.v.lower()) if isinstance(v, Const) and isinstance(v.v, str) else v


def differences(run, st, got, table, opts, names):
    for n in names:
        w = want(opts.get(n, C(table[n]))) if n == 'on_missing' else opts.get(n, C(table[n]))
        if n not in got:
            run.fail(st, f'the constructor of the context has no parameter {n}')
        elif got[n] != w and got[n] != opts.get(n, w):
            run.fail(st, f'the context gets {n}={got[n]} instead of {w}')


def plumbing(run, side, opts):
    table, names, cls, fn = (ENC, ENC_BUILD, run.ctx.pickler, 'encode') if side == 'encode' else (DEC, DEC_BUILD, run.ctx.unpickler, 'decode')
    S = scene()
    opts = dict(opts)
    opts.setdefault('backend', S.world.backend)
    with Watch(run, {'context': method(run, cls, '__init__')}, ('context',)):
        n = 0
        for st, v in getattr(run.ctx, fn)(D('x') if side == 'encode' else T('arg', C('text')), S.world, **opts):
            run.ob.paths += 1
            g = given(st, 'context')
            if isinstance(v, Raise) and v.exc == UNSUPPORTED:
                run.ob.undecided(f'{v.val} at {v.site}')
            elif not g:
                run.fail(st, f'{side} builds no context: {v}')
            else:
                n += 1
                differences(run, st, g[0], table, opts, names)
        if not n and not run.ob.fails and not run.ob.unknown:
            run.ob.undecided('no path')


@rule('C15')
def to_the_context(run):
    for side, table, names in (('encode', ENC, ENC_BUILD), ('decode', DEC, DEC_BUILD)):
        yield f'{side} with no options', lambda side=side: plumbing(run, side, {})
        for n in names:
            for v in values(n, table[n]):
                yield f'{side} with {n}={v}', lambda side=side, n=n, v=v: plumbing(run, side, {n: v})
        flipped = {n: values(n, table[n])[-1] for n in names}
        yield f'{side} with every option changed', lambda side=side, flipped=flipped: plumbing(run, side, flipped)
        for n in names:
            rest = {k: v for k, v in flipped.items() if k != n}
            if n != 'backend':
                yield f'{side} with every option but {n} changed', lambda side=side, rest=rest: plumbing(run, side, rest)


@rule('C15')
def defaults(run):
    it = run.it
    for side, table, cls, names in (('encode', ENC, run.ctx.pickler, ENC_BUILD), ('decode', DEC, run.ctx.unpickler, DEC_BUILD)):
        def function(side=side, table=table):
            for mod in ('jsonpickle', 'jsonpickle.pickler' if side == 'encode' else 'jsonpickle.unpickler'):
                f = it.entry(mod, side)
                env, r = it.bind(f, [D('x')], {}, run.ctx.state())
                run.ob.paths += 1
                for n, w in table.items():
                    if r is not None or n not in env:
                        run.ob.fail(f'{mod}.{side} has no parameter {n}')
                    elif env[n] != C(w):
                        run.ob.fail(f'{mod}.{side} has the default {n}={env[n]} instead of {w!r}', f'{f.fn.qual}')
        yield f'defaults of {side}', function

        def ctor(table=table, cls=cls, names=names):
            f = method(run, cls, '__init__')
            env, r = it.bind(f, [D('self')], {}, run.ctx.state())
            run.ob.paths += 1
            for n in names:
                if r is not None or n not in env:
                    run.ob.fail(f'{cls} has no parameter {n}')
                elif env[n] != C(table[n]):
                    run.ob.fail(f'{cls} has the default {n}={env[n]} instead of {table[n]!r}', f.fn.qual)
        yield f'defaults of the context of {side}', ctor

    def inner():
        for cls, m, w in ((run.ctx.pickler, 'flatten', {'reset': True}), (run.ctx.unpickler, 'restore', {'reset': True, 'classes': None})):
            f = method(run, cls, m)
            env, _ = it.bind(f, [D('self'), D('x')], {}, run.ctx.state())
            run.ob.paths += 1
            for n, d in w.items():
                if env is None or env.get(n) != C(d):
                    run.ob.fail(f'{m} has the default {n}={env and env.get(n)} instead of {d}', f.fn.qual)
    yield 'defaults of flatten and restore', inner


@rule('C15')
def to_the_traversal(run):
    """reset and classes go to the traversal, indent and separators to the backend, text and value unchanged."""
    CL = T('arg', C('classes'))

    def go(side, opts, made):
        S = scene()
        S.kind(CL, K.Seq(list, [T('cls', S.inst('k'))]))
        cls, m = (run.ctx.pickler, 'flatten') if side == 'encode' else (run.ctx.unpickler, 'restore')
        st0 = run.ctx.state()
        run.it.world = S.world
        opts = dict(opts)
        opts.setdefault('backend', S.world.backend)
        x = S.list('x', [D('a')])
        text = T('jsontext', doc(run.it, st0, [D('a')]))
        starts = [(st0, None)]
        if made:
            run.ctx.begin(S.world)
            starts = run.it.call(cls, [], {'backend': S.world.backend}, st0)
        n = 0
        for s0, p in starts:
            if p is not None:
                opts['context'] = p
            with Watch(run, {'build': method(run, cls, '__init__'), 'go': method(run, cls, m)}):
                outs = getattr(run.ctx, side)(x if side == 'encode' else text, S.world, s0, **opts)
            for st, v in outs:
                if not run.outcome(st, v, side):
                    continue
                n += 1
                g = given(st, 'go')
                if made and given(st, 'build'):
                    run.fail(st, f'{side} builds a context although one was given')
                if len(g) != 1:
                    run.fail(st, f'{side} calls {m} {len(g)} times')
                    continue
                for k in ('reset', 'classes'):
                    if k in g[0] and g[0][k] != opts.get(k, C({'reset': True, 'classes': None}[k])):
                        run.fail(st, f'{m} gets {k}={g[0][k]} instead of {opts.get(k, "the default")}')
                if side == 'encode' and g[0].get('obj', x) != x:
                    run.fail(st, f'flatten gets {g[0]["obj"]} instead of the value')
                bs = [e for e in flat_events(st.events) if e.name == 'backend' and e.args[1].v == side]
                if len(bs) != 1 or bs[0].args[0] != opts['backend']:
                    run.fail(st, f'{side} uses the backends {[b.args[0] for b in bs]} instead of {opts["backend"]}')
                    continue
                kw = {e.k.v: e.v for e in bs[0].args[-1].segs}
                if side == 'encode':
                    for k in ('indent', 'separators'):
                        if kw.get(k, NONE) != opts.get(k, NONE):
                            run.fail(st, f'the backend gets {k}={kw.get(k)} instead of {opts.get(k)}')
                    if set(kw) - {'indent', 'separators'}:
                        run.fail(st, f'the backend gets {sorted(kw)}')
        if not n and not run.ob.fails and not run.ob.unknown:
            run.ob.undecided('no path')
    B2 = T('arg', C('other backend'))
    for made in (False, True):
        who = 'a given context' if made else 'its own context'
        for opts in ({}, {'reset': FALSE}, {'reset': TRUE}, {'indent': C(0)}, {'indent': C(4)}, {'separators': SEP}, {'indent': C(2), 'separators': SEP}, {'backend': B2}):
            yield f'encode with {o(opts)} and {who}', lambda opts=opts, made=made: go('encode', {k: v for k, v in opts.items()}, made)
        for opts in ({}, {'reset': FALSE}, {'reset': TRUE}, {'classes': CL}, {'classes': CL, 'reset': FALSE}, {'backend': B2}):
            yield f'decode with {o(opts)} and {who}', lambda opts=opts, made=made: go('decode', {k: v for k, v in opts.items()}, made)


# ------------------------------------------------------------- effects
def is_tag(it, st, v, key):
    h = it.hv(st, v)
    return isinstance(h, HDict) and any(isinstance(s, Entry) and s.k == C(key) for s in h.segs)


def has_member(run, st, d, pred):
    return any(pred(k, v) for _, k, v in members(run.it, st, d))


def items(it, st, v):
    return [s.v for s in it.hv(st, v).segs]


def e_unpicklable(S):
    S.root = S.inst('x', dict_entries=[(C('a'), D('a'))])
    return {'unpicklable': FALSE}, lambda run, st, d: not has_member(run, st, d, lambda k, v: k == C('py/object'))


def e_make_refs(S):
    l = S.list('l', [D('a')])
    S.root = S.list('x', [l, l])
    return {'make_refs': FALSE}, lambda run, st, d: not has_member(run, st, d, lambda k, v: k == C('py/id'))


def e_keys(S):
    S.root = S.dict('x', [(C(3), D('a'))])
    return {'keys': TRUE}, lambda run, st, d: has_member(run, st, d, lambda k, v: isinstance(k, T) and k.op == 'concat')


def e_max_depth(S):
    S.root = S.list('x', [S.list('l', [S.list('m', [D('a')])])])

    def seen(run, st, d):
        return items(run.it, st, d) == [T('repr', arg('l'))]
    return {'max_depth': C(1)}, seen


def e_max_iter(S):
    S.root = S.inst('x', own={'__iter__': None, '__next__': None}, elems=[D('a'), D('b'), D('c')])
    return {'max_iter': C(2)}, lambda run, st, d: has_member(run, st, d, lambda k, v: k == C('py/iterator') and len(items(run.it, st, v)) == 2)


def e_warn(S):
    x = S.inst('x', own={'__getstate__': lambda it, o, a, kw, st: [(st, Raise(exc('TypeError'), site=it.site))]})
    S.root = S.list('l', [x])
    return {'warn': TRUE}, lambda run, st, d: any(e.name == 'warn' for e in flat_events(st.events))


def e_warn_io(S):
    S.root = S.list('l', [Z.ALL['lambda'](S, 'x')])
    return {'warn': TRUE}, lambda run, st, d: any(e.name == 'warn' for e in flat_events(st.events))


def e_use_decimal(S):
    x = arg('x')
    S.kind(x, K.Exact(decimal.Decimal, own={'__reduce__': tup(K.ref_of_type(decimal.Decimal), tup(C('1')))}))
    S.root = S.list('l', [x])
    return {'use_decimal': TRUE}, lambda run, st, d: items(run.it, st, d) == [x]


def e_numeric(S):
    S.root = S.dict('x', [(C(3), D('a')), (C(2.5), D('b')), (C(True), D('c'))])

    def seen(run, st, d):
        # what flatten gave the backend, before JSON turns keys to text
        return any(e.name == 'backend' and {s.k for s in getattr(run.it.hv(st, e.args[2]), 'segs', ()) if isinstance(s, Entry)} == {C(3), C(2.5), C(True)}
                   for e in flat_events(st.events))
    return {'numeric_keys': TRUE}, seen


def e_base85(S):
    S.root = S.list('l', [S.scalar('x', bytes)])
    return {'use_base85': TRUE}, lambda run, st, d: has_member(run, st, d, lambda k, v: k == C('py/b85')) and not has_member(run, st, d, lambda k, v: k == C('py/b64'))


def e_fail_safe(S):
    def boom(it, o, a, kw, st):
        return [(st, Raise(exc('ValueError'), C('from the user'), it.site))]
    S.root = S.list('l', [S.inst('x', own={'__getstate__': boom}), D('b')])
    return {'fail_safe': F}, lambda run, st, d: isinstance(items(run.it, st, d)[0], T) and items(run.it, st, d)[0].op == 'call' and items(run.it, st, d)[0].args[0] == F


def e_properties(S):
    S.root = S.inst('x', dict_entries=[(C('a'), D('a'))], props={'p': D('p')}, listed=True)
    return {'include_properties': TRUE}, lambda run, st, d: has_member(run, st, d, lambda k, v: k == C('p'))


def e_readonly(S):
    S.root = S.inst('x', dict_entries=[(C('a'), D('a')), (C('b'), D('b'))], set_raises=('b',), listed=True)

    def seen(run, st, d):
        ks = [k for _, k, _ in members(run.it, st, d)]
        return C('a') in ks and C('b') not in ks
    return {'handle_readonly': TRUE}, seen


EFFECTS = {'unpicklable': e_unpicklable, 'make_refs': e_make_refs, 'keys': e_keys, 'max_depth': e_max_depth, 'max_iter': e_max_iter, 'warn': e_warn,
           'warn for a lambda': e_warn_io, 'use_decimal': e_use_decimal, 'numeric_keys': e_numeric, 'use_base85': e_base85, 'fail_safe': e_fail_safe,
           'include_properties': e_properties, 'handle_readonly': e_readonly}


def context_of(run, S, cls, st, opts):
    run.ctx.begin(S.world)
    return [(s, p) for s, p in run.it.call(cls, [], {'backend': S.world.backend, **opts}, st) if run.outcome(s, p, 'constructor')]


# options that change what another one is about
CROSS = {
    'make_refs': {False: ('unpicklable',)},     # without tags there are no references either
    'numeric_keys': {True: ('keys',)},          # keys=True writes the key as a document of its own
}
FLIP = {'unpicklable': FALSE, 'make_refs': FALSE, 'keys': TRUE, 'max_depth': C(9), 'warn': TRUE, 'max_iter': C(9), 'use_decimal': TRUE, 'numeric_keys': TRUE,
        'use_base85': TRUE, 'fail_safe': F, 'include_properties': TRUE, 'handle_readonly': TRUE, 'handler_context': CTX}


@rule('C15')
def encode_effects(run):
    backend = default_backend(run)
    for n, mk in EFFECTS.items():
        for way in ('encode', 'a context'):
            for on in (True, False):
                for other in (None, *FLIP):
                    def go(mk=mk, way=way, on=on, other=other):
                        S = scene()
                        opts, seen = mk(S)
                        if not on:
                            opts = {}
                        if other is not None:
                            opts = {**opts, other: FLIP[other]}
                        starts = [(run.ctx.state(), None)]
                        if way == 'a context':
                            starts = context_of(run, S, run.ctx.pickler, run.ctx.state(), {**opts, 'original_object': S.root})
                        n = 0
                        for s0, p in starts:
                            with Watch(run, backend, backend):
                                outs = run.enc(S, st=s0, allow={exc('ValueError')}, **(opts if p is None else {'context': p}))
                            for st, text in outs:
                                n += 1
                                if bool(seen(run, st, doc_of(text))) is not on:
                                    run.fail(st, f'the documented effect is {"missing" if on else "there without the option"}: {canon(run.it, st, doc_of(text))[:200]}')
                        if not n and not run.ob.fails and not run.ob.unknown and (on or mk is not e_fail_safe):
                            run.ob.undecided('no path')
                    if other == n.split()[0] or other in CROSS.get(n, {}).get(on, ()):
                        continue
                    yield f'effect of {n} through {way}, {"given" if on else "not given"}{", with " + other if other else ""}', go


# decode ------------------------------------------------------------------
def d_keys(S, it, st):
    k = T('concat', C('json://'), T('jsontext', C(3)))
    return doc(it, st, {k: D('a')}), {'keys': TRUE}, lambda run, s, v: {x.k for x in run.it.hv(s, v).segs} == {C(3)}


def d_safe(S, it, st):
    return doc(it, st, {'py/repr': C('os/os.getcwd()')}), {'safe': FALSE}, lambda run, s, v: any(e.name == 'eval' for e in flat_events(s.events))


def d_classes(S, it, st):
    x = S.inst('x')
    cl = T('arg', C('classes'))
    S.kind(cl, K.Seq(list, [T('cls', x)]))
    name = it.models.concat if False else T('concat', T('modname', x), C('.'), T('clsname', x))
    S.world.rules.append(lambda a, s: False if a.op == 'importable' else None)
    return doc(it, st, {'py/object': name, 'a': D('a')}), {'classes': cl}, lambda run, s, v: getattr(run.it.hv(s, v), 'cls', None) == T('cls', x)


def d_v1(S, it, st):
    # dicts were not numbered by version 1
    return (doc(it, st, [{'a': ['x']}, {'py/id': 1}]), {'v1_decode': TRUE},
            lambda run, s, v: isinstance(run.it.hv(s, items(run.it, s, v)[1]), HList))


def d_missing(how):
    def mk(S, it, st):
        S.world.rules.append(lambda a, s: False if a.op == 'importable' else None)
        d = doc(it, st, {'py/object': 'nosuch.C', 'a': D('a')})
        if how == 'warn':
            return d, {'on_missing': C('warn')}, lambda run, s, v: any(e.name == 'warn' for e in flat_events(s.events))
        return d, {'on_missing': F}, lambda run, s, v: any(e.name == 'usercall' and e.args[0] == F for e in flat_events(s.events))
    return mk


DECODE_EFFECTS = {'keys': d_keys, 'safe': d_safe, 'classes': d_classes, 'v1_decode': d_v1, 'on_missing=warn': d_missing('warn'), 'on_missing=function': d_missing('function')}


DFLIP = {'keys': TRUE, 'safe': FALSE, 'v1_decode': TRUE, 'on_missing': C('warn'), 'handle_readonly': TRUE, 'handler_context': CTX}


@rule('C15')
def decode_effects(run):
    backend = default_backend(run)
    for n, mk in DECODE_EFFECTS.items():
        for way in ('decode', 'a context'):
            for on, other in ((a, b) for a in (True, False) for b in (None, *DFLIP)):
                if n == 'classes' and way == 'a context' or other == n.split('=')[0]:
                    continue

                def go(mk=mk, way=way, on=on, other=other):
                    S = scene()
                    st = run.ctx.state()
                    run.it.world = S.world
                    d, opts, seen = mk(S, run.it, st)
                    opts = opts if on else {}
                    if other is not None:
                        opts = {**opts, other: DFLIP[other]}
                    starts = [(st, None)] if way == 'decode' else context_of(run, S, run.ctx.unpickler, st, opts)
                    n = 0
                    for s0, u in starts:
                        with Watch(run, backend, backend):
                            outs = run.dec(S, T('jsontext', d), s0, **(opts if u is None else {'context': u}))
                        for s, v in outs:
                            n += 1
                            if bool(seen(run, s, v)) is not on:
                                run.fail(s, f'the documented effect is {"missing" if on else "there without the option"}: {canon(run.it, s, v)[:200]}')
                    if not n and not run.ob.fails and not run.ob.unknown:
                        run.ob.undecided('no path')
                yield f'decoding effect of {n} through {way}, {"given" if on else "not given"}{", with " + other if other else ""}', go


@rule('C15')
def keys_use_the_backend(run):
    """Keys are written and read by the backend of the call."""
    B2 = T('arg', C('other backend'))

    def go():
        S = scene()
        x = S.dict('x', [(C(3), D('a')), (S.tuple('t', [D('b')]), D('c'))])
        n = 0
        with Watch(run, default_backend(run), ('encode of the default backend', 'decode of the default backend')):
            for st, text in run.enc(S, x, keys=True, backend=B2):
                for s, v in run.dec(S, text, st, keys=True, backend=B2):
                    n += 1
                    for e in flat_events(s.events):
                        if e.name == 'backend' and e.args[0] != B2:
                            run.fail(s, f'{e.args[1].v} uses {e.args[0]} instead of the backend of the call', e.site)
        if not n and not run.ob.fails and not run.ob.unknown:
            run.ob.undecided('no path')
    yield 'keys and the given backend', go
