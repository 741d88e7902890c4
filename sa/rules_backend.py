"""The set of JSON backends: C16 preference and options, C17 consistency."""

import itertools

from . import kinds as K
from .check import TEXT, rule
from .interp import exc
from .shapes import flat_events
from .values import Const, Entry, Item, Op, Raise, Ref, T, TupV, UNSUPPORTED

C = Const
NAMES = ('simplejson', 'json', 'ujson')


class Mod(K.ModK):
    """A JSON module with the functions it has."""

    def __init__(self, attrs):
        self.attrs = attrs

    def attr(self, it, o, name, st):
        if name in self.attrs:
            return self.attrs[name]
        return AttributeError


class Fun(K.FuncK):
    def __init__(self):
        super().__init__(K.resolve('types.FunctionType'))


class BW(K.W):
    """Backends that can be imported, and which of their functions fail."""

    def __init__(self, mods, fails=()):
        super().__init__()
        self.mods = {}
        self.fails = dict(fails)
        for n, names in mods.items():
            at, attrs = T('arg', C(n)), {}
            for a in names:
                f = T('bfun', C(n), C(a))
                if a.startswith('Err'):
                    f = exc('KeyError') if a == 'ErrKey' else exc('OverflowError')
                else:
                    self.kinds[f] = Fun()
                attrs[a] = f
            self.kinds[at] = Mod(attrs)
            self.mods[n] = at
        for n in list(mods):
            if '.' in n:
                top, sub = n.split('.')
                t = T('arg', C(top))
                self.kinds[t] = Mod({sub: self.mods[n]})
                self.mods[n] = t

    def call(self, it, f, args, kw, st):
        if f == Ref('builtins.__import__') or f == Ref('importlib.import_module'):
            n = args[0].v if isinstance(args[0], Const) else None
            if n in self.mods:
                m = self.mods[n]
                if f.name == 'importlib.import_module' and '.' in n:
                    m = self.kinds[m].attrs[n.split('.')[1]]
                return [(st, m)]
            return [(st, Raise(exc('ImportError'), args[0], it.site))]
        if isinstance(f, T) and f.op == 'bfun':
            st = st.clone()
            kws = tuple(sorted(((k, v) for k, v in kw.items()), key=lambda x: x[0]))
            st.event(Op('backend', *f.args, TupV([Item(a) for a in args]), TupV([Entry(C(k), v) for k, v in kws]), site=it.site))
            e = self.fails.get((f.args[0].v, f.args[1].v))
            if e is not None:
                return [(st, Raise(exc(e), C(f'{f.args[0].v} failed'), it.site))]
            return [(st, T('made', *f.args, *args[:1]))]
        return None


def build(run, world, *args, **kw):
    run.ctx.begin(world)
    cls = run.ctx.cls('jsonpickle.backend', 'JSONBackend')
    out = []
    for s, b in run.it.call(cls, list(args), kw, run.ctx.state()):
        if run.outcome(s, b, 'JSONBackend()'):
            out.append((s, b))
    return out


def do(run, b, outs, name, *args, **kw):
    """One method call on every path; results are kept."""
    it = run.it
    res = []
    for s, _ in outs:
        s = s.clone()
        s.events = ()
        for s2, f in it.getattr_(b, name, s):
            res += it.call(f, list(args), kw, s2)
    for s, v in res:
        run.ob.paths += 1
        if isinstance(v, Raise) and v.exc == UNSUPPORTED:
            run.ob.undecided(f'{name}: {v.val} at {v.site}')
            return []
    return res


def tried(st):
    return [(e.args[0].v, e.args[1].v) for e in flat_events(st.events) if e.name == 'backend']


def calls(st):
    return [e for e in flat_events(st.events) if e.name == 'backend']


FULL = ('dumps', 'loads')
OBJ = T('datum', C('obj'))
TEXT['C16'] = ('For every set and preference order of loaded backends, every set of failing ones and both settings of fallthrough, encode and decode call '
               'the backends in preference order up to the first that succeeds and return its result, or raise its failure; each call receives the value, '
               'the options configured for that backend and the options of that call, and nothing of earlier calls.')


def orders():
    for n in range(1, 4):
        for p in itertools.permutations(NAMES, n):
            yield p


def prefer_all(run, b, outs, order):
    for n in reversed(order):
        outs = do(run, b, outs, 'set_preferred_backend', C(n))
    return outs


def expect_run(run, outs, order, fails, fn, ft, what):
    """The paths of one encode/decode call against the rule."""
    want = []
    for n in order:
        want.append((n, fn))
        if n not in fails or not ft:
            break
    last = want[-1][0]
    for s, v in outs:
        t = tried(s)
        if t != want:
            run.fail(s, f'{what} tries {[x for x, _ in t]} instead of {[x for x, _ in want]}')
        elif last in fails:
            if not isinstance(v, Raise):
                run.fail(s, f'{what} returns {v} although {last} failed')
            elif v.val != C(f'{last} failed'):
                run.fail(s, f'{what} raises {v.exc} {v.val} instead of the failure of {last}', v.site)
        elif v != T('made', C(last), C(fn), OBJ):
            run.fail(s, f'{what} gives {v} instead of the result of {last}')
    if not outs and not run.ob.unknown:
        run.ob.undecided('no path')


@rule('C16')
def preference(run):
    for order in orders():
        for k in range(len(order) + 1):
            for fails in itertools.combinations(order, k):
                for m, fn in (('encode', 'dumps'), ('decode', 'loads'), ('dumps', 'dumps'), ('loads', 'loads')):
                    for ft in ('default', 'off', 'off and on', 'constructed off'):
                        if m in ('dumps', 'loads') and ft != 'default':
                            continue

                        def go(order=order, fails=fails, m=m, fn=fn, ft=ft):
                            w = BW({n: FULL for n in order}, {(n, f): 'ValueError' for n in fails for f in FULL})
                            outs = build(run, w, **({'fallthrough': C(False)} if ft == 'constructed off' else {}))
                            for s, b in outs:
                                o2 = prefer_all(run, b, [(s, b)], order)
                                if ft in ('off', 'off and on'):
                                    o2 = do(run, b, o2, 'enable_fallthrough', C(False))
                                if ft == 'off and on':
                                    o2 = do(run, b, o2, 'enable_fallthrough', C(True))
                                expect_run(run, do(run, b, o2, m, OBJ), order, fails, fn, ft in ('default', 'off and on'), m)
                        yield f'{m}, preferred {"/".join(order)}, failing {"/".join(fails) or "none"}, fallthrough {ft}', go


@rule('C16')
def default_order(run):
    for k in range(1, 4):
        for av in itertools.combinations(NAMES, k):
            for m, fn in (('encode', 'dumps'), ('decode', 'loads')):
                def go(av=av, m=m, fn=fn):
                    w = BW({n: FULL for n in av}, {(n, f): 'ValueError' for n in av for f in FULL})
                    for s, b in build(run, w):
                        expect_run(run, do(run, b, [(s, b)], m, OBJ), av, av, fn, True, m)
                yield f'{m} with {"/".join(av)} installed and nothing preferred', go


@rule('C16')
def other_failures(run):
    for e in ('TypeError', 'OverflowError', 'RuntimeError', 'UnicodeEncodeError', 'RecursionError'):
        def go(e=e):
            w = BW({n: FULL for n in NAMES}, {('simplejson', 'dumps'): e})
            for s, b in build(run, w):
                expect_run(run, do(run, b, [(s, b)], 'encode', OBJ), NAMES, ('simplejson',), 'dumps', True, 'encode')
        yield f'encode when the first backend raises {e}', go
    for how, err, e in (('class', Ref('builtins.KeyError'), 'KeyError'), ('name', C('ErrKey'), 'KeyError'), ('name of another', C('ErrOver'), 'OverflowError')):
        for first in (True, False):
            def go(err=err, e=e, first=first):
                w = BW({'json': FULL, 'mine': FULL + ('ErrKey', 'ErrOver')}, {('mine', 'loads'): e, ('json', 'loads'): 'ValueError'})
                for s, b in build(run, w):
                    o2 = do(run, b, [(s, b)], 'load_backend', C('mine'), C('dumps'), C('loads'), err)
                    if first:
                        o2 = do(run, b, o2, 'set_preferred_backend', C('mine'))
                    order = ('mine', 'json') if first else ('json', 'mine')
                    expect_run(run, do(run, b, o2, 'decode', OBJ), order, order, 'loads', True, 'decode')
            yield f'decode with the error type given by {how}, {"first" if first else "last"}', go
    for d, l in (('write', 'read'), ('loads', 'dumps')):
        def named(d=d, l=l):
            w = BW({'mine': (d, l)})
            for s, b in build(run, w):
                o2 = do(run, b, [(s, b)], 'load_backend', C('mine'), C(d), C(l))
                expect_run(run, do(run, b, o2, 'encode', OBJ), ('mine',), (), d, True, 'encode')
                expect_run(run, do(run, b, o2, 'decode', OBJ), ('mine',), (), l, True, 'decode')
        yield f'a backend loaded with functions {d} and {l}', named

    def dotted():
        w = BW({'pkg.sub': FULL})
        for s, b in build(run, w):
            o2 = do(run, b, [(s, b)], 'load_backend', C('pkg.sub'))
            expect_run(run, do(run, b, o2, 'encode', OBJ), ('pkg.sub',), (), 'dumps', True, 'encode')
    yield 'a backend that is a submodule', dotted


def option_calls(run, outs, name, fn, args, kws, what):
    for s, v in outs:
        if isinstance(v, Raise):
            run.fail(s, f'{what} raises {v.exc} ({v.val})', v.site)
            continue
        cs = calls(s)
        if len(cs) != 1 or cs[0].args[0] != C(name) or cs[0].args[1] != C(fn):
            run.fail(s, f'{what} calls {cs}')
            continue
        a, k = cs[0].args[2], cs[0].args[3]
        if [x.v if isinstance(x, Item) else x for x in a.segs] != [OBJ] + args:
            run.fail(s, f'{what} passes {a} instead of the value and {args}')
        got = {x.k.v: x.v for x in k.segs}
        if got != kws:
            run.fail(s, f'{what} passes options {got} instead of {kws}')
    if not outs and not run.ob.unknown:
        run.ob.undecided('no path')


@rule('C16')
def options(run):
    A, B, I, S = T('datum', C('o1')), T('datum', C('o2')), T('datum', C('indent')), T('datum', C('seps'))
    w0 = {'one': FULL, 'two': FULL}

    def world():
        w = BW(w0)
        # given by the caller, so they are not None
        for x in (I, S):
            w.kinds[x] = K.Opaque('option')
        return w

    def loaded(w):
        for s, b in build(run, w):
            o2 = do(run, b, [(s, b)], 'load_backend', C('one'))
            o2 = do(run, b, o2, 'load_backend', C('two'))
            yield b, o2
    for side, setter, m, fn in (('encoder', 'set_encoder_options', 'encode', 'dumps'), ('decoder', 'set_decoder_options', 'decode', 'loads')):
        for who in ('one', 'two'):
            for args, kws in (((), {}), ((A,), {}), ((), {'x': A}), ((A, B), {'x': A, 'y': B}), ((), {'indent': A, 'sort_keys': C(True)})):
                for prefer in ('one', 'two'):
                    def go(setter=setter, m=m, fn=fn, who=who, args=args, kws=kws, prefer=prefer):
                        w = world()
                        for b, o2 in loaded(w):
                            o2 = do(run, b, o2, setter, C(who), *args, **kws)
                            o2 = do(run, b, o2, 'set_preferred_backend', C(prefer))
                            for i in (1, 2):
                                o2 = do(run, b, o2, m, OBJ)
                                ea, ek = (list(args), dict(kws)) if who == prefer else ([], {})
                                option_calls(run, o2, prefer, fn, ea, ek, f'{m} call {i}')
                    yield f'{m} with {prefer} after {setter}({who}, {len(args)} arguments, {"/".join(kws) or "no keywords"})', go
    for opts in ({}, {'indent': I}, {'separators': S}, {'indent': I, 'separators': S}, {'indent': C(0)}, {'indent': C(2), 'separators': S}):
        for conf in ({}, {'x': A}, {'indent': A}, {'separators': A, 'x': B}):
            def go(opts=opts, conf=conf, ft=True):
                w = world()
                for b, o2 in loaded(w):
                    if not ft:
                        o2 = do(run, b, o2, 'enable_fallthrough', C(False))
                    o2 = do(run, b, o2, 'set_encoder_options', C('one'), **conf)
                    o2 = do(run, b, o2, 'encode', OBJ, **opts)
                    option_calls(run, o2, 'one', 'dumps', [], {**conf, **opts}, 'encode')
                    # nothing of that call stays
                    o2 = do(run, b, o2, 'encode', OBJ)
                    option_calls(run, o2, 'one', 'dumps', [], dict(conf), 'the next encode')
                    o2 = do(run, b, o2, 'set_preferred_backend', C('two'))
                    o2 = do(run, b, o2, 'encode', OBJ)
                    option_calls(run, o2, 'two', 'dumps', [], {}, 'encode with the other backend')
            for ft in (True, False):
                yield f'encode options {"/".join(f"{k}={v}" for k, v in opts.items()) or "none"} with configured {"/".join(conf) or "nothing"}, fallthrough {ft}', lambda go=go, ft=ft: go(ft=ft)

            def through(opts=opts, conf=conf):
                # every backend that is tried gets the options of the call
                w = BW(w0, {('one', 'dumps'): 'ValueError'})
                for x in (I, S):
                    w.kinds[x] = K.Opaque('option')
                for b, o2 in loaded(w):
                    o2 = do(run, b, o2, 'set_encoder_options', C('two'), **conf)
                    for s, v in do(run, b, o2, 'encode', OBJ, **opts):
                        got = [({x.k.v: x.v for x in e.args[3].segs}, [x.v for x in e.args[2].segs]) for e in calls(s)]
                        want = [(dict(opts), [OBJ]), ({**conf, **opts}, [OBJ])]
                        if got != want:
                            run.fail(s, f'passes {got} instead of {want}')
            yield f'fallthrough with options {"/".join(f"{k}={v}" for k, v in opts.items()) or "none"} and configured {"/".join(conf) or "nothing"}', through


# ---------------------------------------------------------------------- C17
TEXT['C17'] = ('For every sequence of at most three (thorough: four) load, remove and prefer operations, successful and failing, the backends that encode tries, the '
               'backends that decode tries and the names that can be called directly are the same list, and it is the list the operations describe; '
               'nothing of a removed or half-loaded backend is left to be used.')

OPS = {
    'load one': ('load_backend', ('one',)), 'load two': ('load_backend', ('two',)), 'load three': ('load_backend', ('three',)),
    'load missing': ('load_backend', ('missing',)), 'load without loads': ('load_backend', ('noloads',)), 'load without dumps': ('load_backend', ('nodumps',)),
    'load two without its error type': ('load_backend', ('two', 'dumps', 'loads', 'NoError')), 'load one without its reader': ('load_backend', ('one', 'dumps', 'nothing')),
    'load missing submodule': ('load_backend', ('one.sub',)),
    'remove one': ('remove_backend', ('one',)), 'remove two': ('remove_backend', ('two',)), 'remove unknown': ('remove_backend', ('three',)),
    'prefer one': ('set_preferred_backend', ('one',)), 'prefer two': ('set_preferred_backend', ('two',)), 'prefer three': ('set_preferred_backend', ('three',)),
}
KNOWN = ('one', 'two', 'three', 'missing', 'noloads', 'nodumps', 'one.sub')


def model(seq):
    """The list of backends the operations describe, and each outcome."""
    have, res = [], []
    for op in seq:
        m, args = OPS[op]
        n = args[0]
        r = None
        if m == 'load_backend':
            ok = n in ('one', 'two', 'three')
            if len(args) > 1:
                ok = False
                if n in have:
                    have.remove(n)
            elif ok and n not in have:
                have.append(n)
            r = ok
        elif m == 'remove_backend':
            if n in have:
                have.remove(n)
        elif n in have:
            have.remove(n)
            have.insert(0, n)
        else:
            r = 'AssertionError'
        res.append(r)
    return have, res


def sequences(run):
    ops = list(OPS)
    for n in range(0, 5 if run.thorough else 4):
        yield from itertools.product(ops, repeat=n)


@rule('C17')
def consistent(run):
    groups = {}
    for seq in sequences(run):
        groups.setdefault(seq[:2], []).append(seq)
    for key, seqs in groups.items():
        def go(seqs=seqs):
            for seq in seqs:
                one_sequence(run, seq)
                if run.ob.fails:
                    return
        yield f'{" then ".join(key) or "nothing"}' + (f' and {len(seqs) - 1} continuations' if len(seqs) > 1 else ''), go


MODS = {'one': FULL, 'two': FULL + ('ErrKey',), 'three': FULL, 'noloads': ('dumps',), 'nodumps': ('loads',)}


def one_sequence(run, seq):
    have, res = model(seq)
    w = BW(MODS, {(n, f): 'ValueError' for n in MODS for f in FULL})
    name = ', '.join(seq) or 'no operations'
    for s, b in build(run, w):
        outs = [(s, b)]
        for op, r in zip(seq, res):
            m, args = OPS[op]
            outs = do(run, b, outs, m, *[C(a) for a in args])
            for s2, v in outs:
                if isinstance(v, Raise):
                    if not (r == 'AssertionError' and v.exc == exc('AssertionError')):
                        run.fail(s2, f'{name}: {op} raises {v.exc} ({v.val})', v.site)
                elif r == 'AssertionError':
                    run.fail(s2, f'{name}: {op} does not report that the backend is not loaded')
                elif isinstance(r, bool) and v != C(r):
                    run.fail(s2, f'{name}: {op} gives {v} instead of {r}')
        if run.ob.fails or run.ob.unknown:
            return
        for m, fn in (('encode', 'dumps'), ('decode', 'loads')):
            for s2, v in do(run, b, outs, m, OBJ):
                t = tried(s2)
                if t != [(n, fn) for n in have]:
                    run.fail(s2, f'{name}: {m} tries {[x for x, _ in t]} instead of {have}')
                elif not have and not (isinstance(v, Raise) and v.exc == exc('AssertionError')):
                    run.fail(s2, f'{name}: {m} without a backend gives {v}')
                elif have and not (isinstance(v, Raise) and v.exc == exc('ValueError')):
                    run.fail(s2, f'{name}: {m} gives {v} although every backend fails')
        for n in KNOWN:
            for m, fn in (('backend_encode', 'dumps'), ('backend_decode', 'loads')):
                for s2, v in do(run, b, outs, m, C(n), OBJ):
                    if n in have and tried(s2) != [(n, fn)]:
                        run.fail(s2, f'{name}: {m}({n}) calls {tried(s2)}')
                    elif n not in have and tried(s2):
                        run.fail(s2, f'{name}: {m}({n}) still calls {tried(s2)}')


@rule('C17')
def nothing_left(run):
    """Options configured for a backend go away with it."""
    A = T('datum', C('o1'))
    for setter, m, fn in (('set_encoder_options', 'encode', 'dumps'), ('set_decoder_options', 'decode', 'loads')):
        for how in ('remove one', 'load one without its reader'):
            def go(setter=setter, m=m, fn=fn, how=how):
                for s, b in build(run, BW(MODS)):
                    o2 = do(run, b, [(s, b)], 'load_backend', C('one'))
                    o2 = do(run, b, o2, setter, C('one'), A, x=A)
                    mm, args = OPS[how]
                    o2 = do(run, b, o2, mm, *[C(a) for a in args])
                    o2 = do(run, b, o2, 'load_backend', C('one'))
                    o2 = do(run, b, o2, m, OBJ)
                    option_calls(run, o2, 'one', fn, [], {}, m)
            yield f'{m} after {setter}, {how} and loading it again', go

            def kept(setter=setter, m=m, fn=fn, how=how):
                for s, b in build(run, BW(MODS)):
                    o2 = do(run, b, [(s, b)], 'load_backend', C('one'))
                    o2 = do(run, b, o2, 'load_backend', C('two'))
                    o2 = do(run, b, o2, setter, C('two'), A, x=A)
                    mm, args = OPS[how]
                    o2 = do(run, b, o2, mm, *[C(a) for a in args])
                    o2 = do(run, b, o2, m, OBJ)
                    option_calls(run, o2, 'two', fn, [A], {'x': A}, m)
            yield f'{m} with the options of another backend after {how}', kept
    for ft in (True, False):
        for m in ('encode', 'decode', 'dumps', 'loads'):
            def go(ft=ft, m=m):
                for s, b in build(run, BW(MODS)):
                    o2 = do(run, b, [(s, b)], 'enable_fallthrough', C(ft))
                    for s2, v in do(run, b, o2, m, OBJ):
                        if not (isinstance(v, Raise) and v.exc == exc('AssertionError')):
                            run.fail(s2, f'{m} without a backend gives {v}')
            yield f'{m} with no backend, fallthrough {ft}', go
