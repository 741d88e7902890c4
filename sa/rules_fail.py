"""C23: fail_safe contains failures, and only when it is given."""

import types

from . import client
from . import kinds as K
from . import scenes as Z
from .check import ASSUMPTIONS, TEXT, rule
from .interp import exc
from .rules_doc import doc_of
from .rules_state import canon
from .rules_trip import o
from .shapes import Scene, arg, flat_events, tup
from .values import NONE, Const, Op, Raise, T, UNSUPPORTED

D = Z.D
C = Const
SUB = D('substitute')
F = T('arg', C('fail_safe function'))

TEXT['C23'] = ('An exception is raised from each place that runs code of the object (state, reduce, argument and iteration hooks, slots and properties that cannot '
               'be read, handlers, repr, default factories) at each position of the graph. With fail_safe the function gets that exception, its result '
               'stands for the object after decoding and everything else matches the input, sharing included; interrupts and, without fail_safe, every '
               'exception leave encode unchanged.')
ASSUMPTIONS['C23'] = ['What the fail_safe function returns is a scalar: a list or dict it returns takes a number when decoding that encoding did not give it.']


class FailSafe(K.FuncK):
    def __init__(self):
        super().__init__(types.FunctionType)

    def call(self, it, f, args, kw, st):
        st = st.clone()
        st.event(Op('fail_safe', *args, TupKw(kw), site=it.site))
        return [(st, SUB)]


def TupKw(kw):
    return C(','.join(sorted(kw)))


def boom(e, val=C('from the user')):
    return lambda it, o, a, kw, st: [(st, Raise(e, val, it.site))]


def unreadable(e):
    return lambda it, o, st: [(st, Raise(e, C('from the user'), it.site))]


class Stuck(K.Inst):
    """An iterator that fails."""

    def __init__(self, e):
        self.e = e
        super().__init__(own={'__iter__': None, '__next__': None}, has_dict=False)

    def iterate(self, it, v, st):
        return [(st, Raise(self.e, C('from the user'), it.site))]


# place -> build(S, name, exception, shared) -> object
def b_hook(name, **kw):
    def b(S, n, e, p):
        return S.inst(n, own={name: boom(e)}, **kw)
    return b


def b_slot(first):
    def b(S, n, e, p):
        a = {'a': p if first == 'shared' else S.list(n + 'own', [D('ov')]), 'b': unreadable(e)}
        if first == 'none':
            del a['a']
        return S.inst(n, has_dict=False, slots=tuple(a), attrs=a)
    return b


def b_prop(S, n, e, p):
    return S.inst(n, dict_entries=[(C('a'), S.list(n + 'own', [D('ov')]))], props={'p': unreadable(e)}, listed=True)


def b_iter(S, n, e, p):
    x = arg(n)
    S.kind(x, Stuck(e))
    return x


def b_handler(name):
    def b(S, n, e, p):
        S.handler = name
        S.error = e
        return S.inst(n, attrs={'first': S.list(n + 'own', [D('ov')])})
    return b


PLACES = {
    '__getstate__': b_hook('__getstate__'),
    '__getstate__ of a list subclass': b_hook('__getstate__', py=(list,), elems=[]),
    '__getstate__ of a dict subclass': b_hook('__getstate__', py=(dict,), entries=[]),
    '__getstate__ of a slotted class': b_hook('__getstate__', has_dict=False, slots=('a',), attrs={'a': D('sl')}),
    '__reduce__': b_hook('__reduce__'),
    '__reduce_ex__': b_hook('__reduce_ex__'),
    '__getnewargs__': b_hook('__getnewargs__'),
    '__getnewargs_ex__': b_hook('__getnewargs_ex__'),
    '__getinitargs__': b_hook('__getinitargs__'),
    'the first slot': b_slot('none'),
    'a slot after another': b_slot('own'),
    'a slot after a shared one': b_slot('shared'),
    'a property': b_prop,
    'an iterator': b_iter,
    'a handler': b_handler('Fails'),
    'a handler that encoded a part': b_handler('FailsLate'),
}
ERRORS = {'ValueError': exc('ValueError'), 'RuntimeError': exc('RuntimeError'), 'OSError': exc('OSError'), 'KeyError': exc('KeyError'),
          'ZeroDivisionError': exc('ZeroDivisionError'), 'RecursionError': exc('RecursionError'), 'AssertionError': exc('AssertionError')}
FATAL = {'KeyboardInterrupt': exc('KeyboardInterrupt'), 'SystemExit': exc('SystemExit')}
ALSO = {'a property': {'include_properties': True}}
PLACED = {**Z.POSITIONS, 'the whole value': None}
MODES = {'defaults': {}, 'keys=True': {'keys': True}, 'make_refs=False': {'make_refs': False}}


def scene(place, e, wrap):
    S = Scene('c23')
    S.handler = None
    S.kind(F, FailSafe())
    p = S.list('before', [D('bv')])
    x = PLACES[place](S, 'x', e, p)
    S.expect[x] = lambda m, v: m.same(SUB, v)
    S.identity.discard(x)
    S.x = x
    if wrap is None:
        S.root = x
        return S
    w = wrap(S, x)
    q = S.dict('after', [(C('k'), D('av'))])
    S.root = S.list('whole', [p, w, p, q, q])
    return S


def start(run, S):
    """The state before the call, with the handler of the scene registered."""
    run.ctx.begin(S.world)
    sts = [run.ctx.state()]
    if S.handler:
        run.it.client_error = S.error
        h = client.install(run.it)(S.handler)
        reg = run.it.entry('jsonpickle.handlers', 'register')
        sts = [s for st in sts for s, v in run.it.call(reg, [T('cls', S.x), h], {}, st) if run.outcome(s, v, 'register')]
    return sts


@rule('C23')
def contained(run):
    for place in PLACES:
        for where, wrap in PLACED.items():
            for mode, opts in MODES.items():
                for en, e in ERRORS.items():
                    if en != 'ValueError' and (where != 'in a list' or mode != 'defaults'):
                        continue

                    def go(place=place, wrap=wrap, opts=opts, e=e):
                        S = scene(place, e, wrap)
                        n = 0
                        also = ALSO.get(place, {})
                        for st, text in [r for s0 in start(run, S) for r in run.enc(S, st=s0, fail_safe=F, **opts, **also)]:
                            calls = [x for x in flat_events(st.events) if x.name == 'fail_safe']
                            if not calls:
                                run.fail(st, 'fail_safe is not called')
                                continue
                            for c in calls:
                                if len(c.args) != 2 or not same_exc(run.it, st, c.args[0], e):
                                    run.fail(st, f'fail_safe is called with {c.args} instead of the exception', c.site)
                            for s, v in run.dec(S, text, st, **({'keys': True} if 'keys' in opts else {})):
                                n += 1
                                run.match(S, s, S.root, v, refs='make_refs' not in opts)
                        if not n and not run.ob.fails and not run.ob.unknown:
                            run.ob.undecided('no path')
                    yield f'{en} from {place}, {where}, {mode}', go


def same_exc(it, st, v, e):
    h = it.hv(st, v)
    c = getattr(h, 'cls', None)
    if c == e or v == e:
        return True
    return isinstance(v, T) and e in v.args


@rule('C23')
def propagates(run):
    for place in PLACES:
        for where, wrap in PLACED.items():
            for en, e in {**ERRORS, **FATAL}.items():
                for safe in (False, True):
                    if safe and en not in FATAL:
                        continue

                    def go(place=place, wrap=wrap, e=e, safe=safe):
                        S = scene(place, e, wrap)
                        also = ALSO.get(place, {})
                        for st, v in [r for s0 in start(run, S) for r in run.ctx.encode(S.root, S.world, s0, **({'fail_safe': F} if safe else {}), **also)]:
                            run.ob.paths += 1
                            if isinstance(v, Raise) and v.exc == UNSUPPORTED:
                                run.ob.undecided(f'{v.val} at {v.site}')
                            elif not isinstance(v, Raise):
                                run.fail(st, 'encode returns a document although the object cannot be encoded')
                            elif v.exc != e:
                                run.fail(st, f'encode raises {v.exc} instead of the original {e}', v.site)
                            elif v.val != C('from the user'):
                                run.fail(st, f'encode raises another exception of the same class: {v.val}', v.site)
                            if any(x.name == 'fail_safe' for x in flat_events(st.events)):
                                run.fail(st, f'fail_safe is called for {en}')
                    yield f'{en} from {place}, {where}, {"with" if safe else "without"} fail_safe', go
