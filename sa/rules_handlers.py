"""C18 and C28: the handler registry and what handlers are given."""

import itertools

from . import client
from . import kinds as K
from . import scenes as Z
from .check import ASSUMPTIONS, TEXT, rule
from .docs import doc
from .interp import exc
from .rules_doc import doc_of, members
from .rules_state import canon
from .rules_trip import o
from .shapes import Scene, arg, flat_events
from .values import FALSE, NONE, TRUE, Addr, Const, Entry, FuncV, HDict, HList, Raise, T, UNSUPPORTED

D = Z.D
C = Const

TEXT['C18'] = ('The registry functions are compared, over all short sequences of register and unregister calls on a small class hierarchy, with a table of what '
               'is registered: lookup by class and by importable name. For every kind of instance at every position a registered user handler is what encode '
               'and decode call, with the object, the context and the prepared dictionary; an unrelated or withdrawn registration changes nothing.')
TEXT['C28'] = ('For every signature a handler method can have and every way of giving handler_context: the call site passes the very same value exactly when '
               'the method has a parameter of that name that can be given by keyword, at any depth, on both sides.')
ASSUMPTIONS['C18'] = ['When several base=True registrations match, any of them may be chosen.']


# ------------------------------------------------------------ the registry
class Reference:
    """What is registered, and the answers allowed."""

    def __init__(self):
        self.direct = {}
        self.base = {}
        self.stale = {}     # registered again without base: either answer

    def register(self, c, h, base):
        self.direct[c] = h
        if base:
            self.base[c] = {h}
        elif c in self.base:
            self.base[c] = self.base[c] | {h, None}

    def unregister(self, c):
        self.direct.pop(c, None)
        self.base.pop(c, None)

    def get(self, c, supers):
        if c in self.direct:
            return {self.direct[c]}
        out = set()
        maybe = True
        for s in supers[c]:
            if s in self.base:
                out |= self.base[s]
                maybe = maybe and None in self.base[s]
        return (out - {None}) | ({None} if maybe else set())


def family():
    S = Scene('c18')
    p = S.parent('P')
    x = S.inst('c', parents=(p,))
    g = S.inst('g', parents=(x, p))
    u = S.inst('u')
    cs = {'parent': T('cls', p), 'child': T('cls', x), 'grandchild': T('cls', g), 'other': T('cls', u)}
    return S, cs, {'parent': ['parent'], 'child': ['child', 'parent'], 'grandchild': ['grandchild', 'child', 'parent'], 'other': ['other']}


def name_of(c):
    return T('concat', T('modname', c.args[0]), C('.'), T('clsname', c.args[0]))


def call(run, f, args, kw, st, what, allow=()):
    return [(s, v) for s, v in run.it.call(f, args, kw, st) if run.outcome(s, v, what, allow)]


def api(run):
    return {n: run.it.entry('jsonpickle.handlers', n) for n in ('register', 'unregister', 'get')}


def play(run, ops):
    """Run the operations; compare every lookup after each of them."""
    S, cs, supers = family()
    user = client.install(run.it)
    hs = {'H1': user('H1'), 'H2': user('H2')}
    fs = api(run)
    run.ctx.begin(S.world)
    ref = Reference()
    sts = [run.ctx.state()]
    for op in ops:
        nxt = []
        for st in sts:
            if op[0] == 'register':
                _, c, h, base, how = op
                if how == 'decorator':
                    for s, d in call(run, fs['register'], [cs[c]], {'base': C(base)}, st, 'register'):
                        for s2, v in call(run, d, [hs[h]], {}, s, 'the decorator'):
                            if v != hs[h]:
                                run.fail(s2, f'the decorator returns {v}')
                            nxt.append(s2)
                elif how == 'handles':
                    for s, m in run.it.getattr_(hs[h], 'handles', st):
                        for s2, v in call(run, m, [cs[c]], {}, s, 'handles'):
                            if v != cs[c]:
                                run.fail(s2, f'handles returns {v}')
                            nxt.append(s2)
                else:
                    nxt += [s for s, _ in call(run, fs['register'], [cs[c], hs[h]], {'base': C(base)} if base else {}, st, 'register')]
            else:
                nxt += [s for s, _ in call(run, fs['unregister'], [cs[op[1]]], {}, st, 'unregister')]
        if op[0] == 'register':
            ref.register(*op[1:4])
        else:
            ref.unregister(op[1])
        sts = nxt
    names = {v: k for k, v in hs.items()}
    for st in sts:
        for c, t in cs.items():
            want = ref.get(c, supers)
            for s, v in call(run, fs['get'], [t], {}, st, 'get'):
                if names.get(v, None if v == NONE else v) not in want:
                    run.fail(s, f'after {show(ops)}: get({c}) gives {names.get(v, v)} instead of {sorted(map(str, want))}')
            for s, v in call(run, fs['get'], [t, C('default')], {}, st, 'get'):
                if names.get(v, None if v == C('default') else v) not in want:
                    run.fail(s, f'after {show(ops)}: get({c}, default) gives {names.get(v, v)} instead of {sorted(map(str, want))}')
            w = ref.direct.get(c)
            for s, v in call(run, fs['get'], [name_of(t)], {}, st, 'get'):
                if names.get(v, None if v == NONE else v) != w:
                    run.fail(s, f'after {show(ops)}: get(name of {c}) gives {names.get(v, v)} instead of {w}')
    if not sts and not run.ob.fails and not run.ob.unknown:
        run.ob.undecided('no path')


def show(ops):
    return ', '.join(f'{x[0]} {x[1]}' + (f' with {x[2]}{", base" if x[3] else ""}' if len(x) > 2 else '') for x in ops)


CLASSES = ['parent', 'child', 'grandchild', 'other']


@rule('C18')
def registry(run):
    regs = [('register', c, h, b, '') for c in CLASSES for h in ('H1', 'H2') for b in (False, True)]
    unregs = [('unregister', c) for c in CLASSES]
    ops = regs + unregs
    for n in (1, 2):
        for seq in itertools.product(ops, repeat=n):
            yield f'{show(seq)}', lambda seq=seq: play(run, seq)
    # a third call on few classes, by first two
    small = [x for x in ops if x[1] in ('parent', 'child')]
    for a in small:
        for b in small:
            def go(a=a, b=b):
                for c in small:
                    play(run, (a, b, c))
            yield f'{show((a, b))}, then any third call', go
    for how in ('decorator', 'handles'):
        for c in CLASSES[:2]:
            for b in ((False, True) if how == 'decorator' else (False,)):
                x = ('register', c, 'H1', b, how)
                yield f'{show([x])} by {how}', lambda x=x: play(run, [x])
                yield f'{show([x])} by {how}, then unregister', lambda x=x, c=c: play(run, [x, ('unregister', c)])


@rule('C18')
def not_a_class(run):
    for n, mk in {'text': lambda S: C('text'), 'a number': lambda S: C(3), 'an instance': lambda S: S.inst('x'), 'a list': lambda S: S.list('x', []),
                  'a function': lambda S: S.func('f')}.items():
        for base in (False, True):
            def go(mk=mk, base=base):
                S = Scene('c18')
                x = mk(S)
                user = client.install(run.it)
                run.ctx.begin(S.world)
                for s, v in run.it.call(api(run)['register'], [x, user('H1')], {'base': C(base)}, run.ctx.state()):
                    run.ob.paths += 1
                    if isinstance(v, Raise) and v.exc == UNSUPPORTED:
                        run.ob.undecided(f'{v.val} at {v.site}')
                    elif not isinstance(v, Raise) or v.exc != exc('TypeError'):
                        run.fail(s, f'register accepts something that is no class ({v})')
            yield f'register {n}{" with base" if base else ""}', go


# ------------------------------------------------------------------- use
def register(run, S, st, cls, h, base=False):
    run.ctx.begin(S.world)
    return [s for s, _ in call(run, api(run)['register'], [cls, client.install(run.it)(h)], {'base': C(base)}, st, 'register')]


def unregister(run, S, st, cls):
    run.ctx.begin(S.world)
    return [s for s, _ in call(run, api(run)['unregister'], [cls], {}, st, 'unregister')]


def class_of(S, x):
    return S.world.kind(x, None).cls_of(x)


def used(run, S, sts, x, h, opts):
    n = 0
    for st0 in sts:
        for st, text in run.enc(S, st=st0, **opts):
            ms = client.marks(flat_events(st.events), 'flatten')
            if [m[:2] for m in ms] != [(C(h), x)]:
                run.fail(st, f'encode calls the handlers {[m[:2] for m in ms]} instead of {h} with the object')
                continue
            if getattr(run.it.hv(st, ms[0][2]), 'cls', None) != run.ctx.pickler:
                run.fail(st, f'the context of the handler is {ms[0][2]}')
            if opts.get('unpicklable') is False:
                n += 1
                continue
            if not tagged(run, st, doc_of(text), h):
                run.fail(st, 'what the handler made is written without the name of the class')
            for s, v in run.dec(S, text, st):
                n += 1
                ms = client.marks(flat_events(s.events), 'restore')
                if [m[0] for m in ms] != [C(h)]:
                    run.fail(s, f'decode calls the handlers {[m[0] for m in ms]} instead of {h}')
                    continue
                if getattr(run.it.hv(s, ms[0][2]), 'cls', None) != run.ctx.unpickler:
                    run.fail(s, f'the context of the handler is {ms[0][2]}')
                if not isinstance(run.it.hv(s, ms[0][1]), HDict):
                    run.fail(s, f'the handler gets {ms[0][1]} instead of the dictionary of the document')
                if not found(run.it, s, v, h):
                    run.fail(s, f'what the handler returned is not in the result: {canon(run.it, s, v)[:200]}')
    if not n and not run.ob.fails and not run.ob.unknown:
        run.ob.undecided('no path')


def tagged(run, st, d, h):
    for owner, k, v in members(run.it, st, d):
        if k == C('by') and v == C(h):
            return any(o2 == owner and k2 == C('py/object') for o2, k2, _ in members(run.it, st, d))
    return False


def found(it, st, v, h, depth=6):
    """Is the value made by the handler somewhere in v?"""
    if depth == 0:
        return False
    if isinstance(v, Addr):
        x = it.h(st, v)
        if isinstance(x, HList) and [getattr(s, 'v', None) for s in x.segs] == [C(h), C(h)]:
            return True
        if getattr(x, 'ctor', None) is not None and found(it, st, x.ctor, h, depth - 1):
            return True
        for s in getattr(x, 'segs', ()):
            for y in getattr(s, 'args', None) or (getattr(s, 'v', None),):
                if found(it, st, y, h, depth - 1):
                    return True
        for _, y in getattr(x, 'fields', ()):
            if found(it, st, y, h, depth - 1):
                return True
    if hasattr(v, 'segs'):
        return any(found(it, st, getattr(s, 'v', None), h, depth - 1) for s in v.segs)
    if isinstance(v, T):
        return any(found(it, st, y, h, depth - 1) for y in v.args)
    return False


KINDS = {**Z.INSTANCES, **Z.RARE_INSTANCES, **Z.HOOKS}


@rule('C18')
def consulted(run):
    for n in KINDS:
        for where, wrap in Z.POSITIONS.items():
            for opts in ({}, {'unpicklable': False}, {'make_refs': False}, {'keys': True}, {'include_properties': True}):
                if opts and where not in ('at the top',):
                    continue

                def go(n=n, wrap=wrap, opts=opts):
                    S = Z.scene(n, wrap)
                    x = S.x
                    sts = register(run, S, run.ctx.state(), class_of(S, x), 'H1')
                    used(run, S, sts, x, 'H1', opts)
                yield f'handler for {n}, {where}, {o(opts)}', go
    for n in Z.LIBRARY:
        def go(n=n):
            S = Z.scene(n)
            x = S.x
            sts = register(run, S, run.ctx.state(), class_of(S, x), 'H1')
            used(run, S, sts, x, 'H1', {})
        yield f'user handler for {n}', go


@rule('C18')
def instances(run):
    """A handler object instead of a handler class."""
    for h in ('H1', 'H3'):
        for where, wrap in Z.POSITIONS.items():
            for base in (False, True):
                def go(h=h, wrap=wrap, base=base):
                    S = Z.scene('instance', wrap)
                    run.ctx.begin(S.world)
                    sts = []
                    for st, obj in call(run, client.install(run.it)(h), [NONE], {}, run.ctx.state(), 'the handler constructor'):
                        sts += [s for s, _ in call(run, api(run)['register'], [class_of(S, S.x), obj], {'base': C(base)}, st, 'register')]
                    used(run, S, sts, S.x, h, {})
                yield f'handler object {h}{" with base" if base else ""}, {where}', go


@rule('C18')
def hierarchy(run):
    """base=True covers subclasses, a direct registration wins, base=False does not."""
    cases = {
        'base handler': ([('parent', 'H1', True)], 'H1'),
        'base handler of a base of the base': ([('grandparent', 'H1', True)], 'H1'),
        'direct and base handler': ([('own', 'H1', False), ('parent', 'H2', True)], 'H1'),
        'base and direct handler': ([('parent', 'H2', True), ('own', 'H1', False)], 'H1'),
        'own and inherited base handler': ([('own', 'H1', True), ('parent', 'H2', True)], 'H1'),
        'parent without base': ([('parent', 'H1', False)], None),
        'parent without base, own': ([('parent', 'H2', False), ('own', 'H1', False)], 'H1'),
        'other class with base': ([('other', 'H1', True)], None),
        'subclass with base': ([('sub', 'H1', True)], None),
    }
    shapes = {'an instance': {}, 'a list subclass': {'py': (list,)}, 'a dict subclass': {'py': (dict,)}, 'a slotted instance': {'has_dict': False, 'slots': ('a',), 'attrs': {'a': D('a')}},
              'an instance with getstate': {'own': {'__getstate__': D('state')}}, 'an instance with reduce': {'own': {'__reduce__': Z.tup(K.ref_of_type(list), Z.tup())}},
              'a str subclass': {'py': (str,)}, 'an exception': {'py': (ValueError,)}}
    for n, (regs, h) in cases.items():
        for shape, kw in shapes.items():
            if h is None and ('reduce' in shape or 'exception' in shape):
                continue

            def go(regs=regs, h=h, kw=kw):
                S = Scene('c18')
                gp = S.parent('GP')
                p = S.parent('P', parents=(gp,))
                own = dict(kw)
                x = S.inst('x', parents=(p, gp), **own)
                sub = S.inst('s', parents=(x, p, gp))
                u = S.inst('u')
                S.root = S.list('l', [x])
                cls = {'parent': T('cls', p), 'grandparent': T('cls', gp), 'own': T('cls', x), 'other': T('cls', u), 'sub': T('cls', sub)}
                sts = [run.ctx.state()]
                for c, hh, base in regs:
                    sts = [s for st in sts for s in register(run, S, st, cls[c], hh, base)]
                if h is not None:
                    used(run, S, sts, x, h, {})
                    return
                n = 0
                for st0 in sts:
                    for st, text in run.enc(S, st=st0):
                        for s, v in run.dec(S, text, st):
                            n += 1
                            ms = [e for e in flat_events(s.events) if e.name == 'mark']
                            if ms:
                                run.fail(s, f'the handler {ms[0].args[1]} is used for a class it is not registered for')
                if not n and not run.ob.fails and not run.ob.unknown:
                    run.ob.undecided('no path')
            yield f'{n} for {shape}', go


@rule('C18')
def nothing_else(run):
    """Registering another class, or withdrawing a registration, leaves the document alone."""
    for n in KINDS:
        for how in ('other class registered', 'registered and withdrawn', 'registered with base and withdrawn'):
            def go(n=n, how=how):
                def docs(change):
                    S = Z.scene(n)
                    st = run.ctx.state()
                    sts = change(S, st)
                    out = set()
                    for st0 in sts:
                        for st, text in run.enc(S, st=st0):
                            if any(e.name == 'mark' for e in flat_events(st.events)):
                                run.fail(st, 'a handler is used for a class it is not registered for')
                            for s, v in run.dec(S, text, st):
                                if any(e.name == 'mark' for e in flat_events(s.events)):
                                    run.fail(s, 'a handler is used for a class it is not registered for')
                                out.add((canon(run.it, st, doc_of(text)), canon(run.it, s, v)))
                    return out

                def change(S, st):
                    if how.startswith('other'):
                        return register(run, S, st, T('cls', S.inst('u')), 'H1', True)
                    c = class_of(S, S.x)
                    return [s2 for s in register(run, S, st, c, 'H1', 'base' in how) for s2 in unregister(run, S, s, c)]
                a, b = docs(lambda S, st: [st]), docs(change)
                if a != b and not run.ob.fails and not run.ob.unknown:
                    run.ob.fail(f'the document or the result changes: {str(sorted(b - a))[:200]} instead of {str(sorted(a - b))[:200]}')
                if not a:
                    run.ob.undecided('no path')
            yield f'{n}, {how}', go


@rule('C18')
def by_name(run):
    """A handler is found by the name in the document when the class is not there any more."""
    def go():
        S = Scene('c18')
        x = S.inst('x')
        sts = register(run, S, run.ctx.state(), T('cls', x), 'H1')
        S.world.rules.append(lambda a, st: False if a.op == 'importable' else None)
        n = 0
        for st in sts:
            d = doc(run.it, st, {'py/object': name_of(T('cls', x)), 'by': 'H1'})
            for s, v in run.dec(S, T('jsontext', d), st):
                n += 1
                if not found(run.it, s, v, 'H1'):
                    run.fail(s, f'the handler registered under the name in the document is not used: {canon(run.it, s, v)[:200]}')
        if not n and not run.ob.fails and not run.ob.unknown:
            run.ob.undecided('no path')
    yield 'class gone, handler registered by name', go


# ---------------------------------------------------------------- C28
@rule('C28')
def delivered(run):
    user = client.install(run.it)
    CTX = T('arg', C('handler context'))
    VALUES = {'an object': CTX, 'an empty text': C(''), 'zero': C(0), 'False': FALSE}
    places = {k: w for k, w in Z.POSITIONS.items()}
    for i, (sig, how) in enumerate(client.SIGNATURES.items()):
        for variant in 'ST':
            for form in ('class', 'instance'):
                for where, wrap in places.items():
                    for vn, val in VALUES.items():
                        if vn != 'an object' and (where != 'at the top' or variant == 'T'):
                            continue
                        if (variant == 'T' or form == 'instance') and where not in ('at the top', 'in a list'):
                            continue
                        for way in ('the call', 'the context', 'both') if where == 'at the top' else ('the call',):
                            def go(i=i, how=how, variant=variant, form=form, wrap=wrap, val=val, way=way):
                                deliver(run, user(f'{variant}{i}'), how, form, wrap, val, way, CTX)
                            yield (f'handler({sig.strip(", ") or "no context"}){" inherited" if variant == "T" else ""}, registered as {form}, {where}, {vn} given to {way}'), go
        for where, wrap in places.items():
            yield (f'handler({sig.strip(", ") or "no context"}), {where}, nothing given',
                   lambda i=i, how=how, wrap=wrap: deliver(run, user(f'S{i}'), how, 'class', wrap, None, 'the call', CTX))


    for name in ('OnlyFlatten', 'OnlyRestore'):
        for where, wrap in places.items():
            yield (f'handler whose {name[4:].lower()} alone takes the context, {where}',
                   lambda name=name, wrap=wrap: deliver(run, user(name), {'encode': 'plain' if name == 'OnlyFlatten' else None, 'decode': 'plain' if name == 'OnlyRestore' else None},
                                                        'class', wrap, CTX, 'the call', CTX))


def deliver(run, H, how, form, wrap, val, way, CTX):
    S = Z.scene('instance', wrap)
    S.kind(CTX, K.Opaque('handler context'))
    x = S.x
    st = run.ctx.state()
    run.ctx.begin(S.world)
    hs = [(st, H)]
    if form == 'instance':
        hs = call(run, H, [NONE], {}, st, 'the handler constructor')
    n = 0
    for st0, h in hs:
        for s0, _ in call(run, api(run)['register'], [T('cls', x), h], {}, st0, 'register'):
            for side, marks in (('encode', 'got flatten'), ('decode', 'got restore')):
                n += one_side(run, S, s0, x, side, marks, how[side] if isinstance(how, dict) else how, val, way, H)
    if not n and not run.ob.fails and not run.ob.unknown:
        run.ob.undecided('no path')


def one_side(run, S, s0, x, side, mark, how, val, way, H):
    it = run.it
    cls = run.ctx.pickler if side == 'encode' else run.ctx.unpickler
    opts, starts = {}, [(s0, None)]
    if way in ('the context', 'both'):
        run.ctx.begin(S.world)
        starts = call(run, cls, [], {'backend': S.world.backend, 'handler_context': val if way == 'the context' else C('another')}, s0, 'constructor')
    if way in ('the call', 'both') and val is not None:
        opts['handler_context'] = val
    n = 0
    # a required parameter nobody fills
    missing = val is None and requires(it, H, 'flatten' if side == 'encode' else 'restore')
    allow = {exc('TypeError')} if missing else ()
    for s1, p in starts:
        o2 = dict(opts, **({'context': p} if p is not None else {}))
        if side == 'encode':
            outs = run.enc(S, st=s1, allow=allow, **o2)
        else:
            outs = []
            plain = run.enc(S, st=s1) if val is None and not missing else None
            for st, text in plain if plain is not None else run.enc(S, st=s1, allow=allow, handler_context=C('encode')):
                outs += run.dec(S, text, st, allow=allow, **o2)
        n += 1 if missing and not outs else 0
        for st, v in outs:
            n += 1
            ms = client.marks(flat_events(st.events), mark)
            if len(ms) != 1:
                if not missing:
                    run.fail(st, f'the handler is called {len(ms)} times')
                continue
            got = ms[0][0]
            if how is None or val is None:
                ok = got in (NONE, C('none')) or empty(it, st, got)
                want = 'nothing'
            elif how == 'dict':
                h = it.hv(st, got)
                ok = isinstance(h, HDict) and [(e.k, e.v) for e in h.segs] == [(C('handler_context'), val)]
                want = f'handler_context={val}'
            else:
                ok, want = got == val, val
            if not ok:
                run.fail(st, f'{side}: the handler gets {canon(it, st, got) if isinstance(got, Addr) else got} instead of {want}')
    return n


def empty(it, st, v):
    h = it.hv(st, v) if isinstance(v, Addr) else v
    return hasattr(h, 'segs') and not h.segs


def requires(it, H, m):
    f, _ = it.class_lookup(H, m)
    a = f.fn.node.args
    ks = [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    ps = [p.arg for p in a.args[:len(a.args) - len(a.defaults)]]
    return 'handler_context' in ks + ps
