"""C25: classes given by the caller win over imports."""

from . import scenes as Z
from .check import TEXT, rule
from .docs import doc
from .rules_missing import class_name, reached
from .rules_safe import add_doc_rules
from .shapes import Scene, arg, flat_events, tup
from .values import Addr, Const, Entry, HDict, HList, HObj, HSet, Item, Raise, T, TupV, UNSUPPORTED

D = Z.D
C = Const

TEXT['C25'] = ('Documents that name a class in each place a name can stand, decoded with the class given in every form of the argument: the class named is '
               'the one given and no import is attempted for it, whether an import would find something or not; a later call on the same context or a new '
               'one does not see it.')

IMPORTABLE, MISSING, NESTED = 'collections.OrderedDict', 'nosuch.mod.Name', 'nosuch.Outer.Name'


def lst(it, st, xs):
    return it.alloc(st, HList([Item(x) for x in xs]))


def dct(it, st, kv):
    return it.alloc(st, HDict([Entry(C(k) if isinstance(k, str) else k, v) for k, v in kv]))


def own(S):
    """The class under its own name."""
    return class_name(S.q)


# form of the argument -> (name in the document, value(it, st, S))
FORMS = {
    'alone': (own, lambda it, st, S: S.cls),
    'in a list': (own, lambda it, st, S: lst(it, st, [S.cls])),
    'second in a list': (own, lambda it, st, S: lst(it, st, [S.other, S.cls])),
    'in a tuple': (own, lambda it, st, S: tup(S.cls)),
    'second in a tuple': (own, lambda it, st, S: tup(S.other, S.cls)),
    'in a set': (own, lambda it, st, S: it.alloc(st, HSet([Item(S.cls), Item(S.other)]))),
    'in a list in a tuple': (own, lambda it, st, S: tup(lst(it, st, [S.other, S.cls]))),
    'in a dict by its own name': (own, lambda it, st, S: dct(it, st, [(own(S), S.cls)])),
    'in a dict by itself': (own, lambda it, st, S: dct(it, st, [(S.cls, S.cls)])),
    'in a dict by another class': (lambda S: class_name(S.other.args[0]), lambda it, st, S: dct(it, st, [(S.other, S.cls)])),
    'in a dict in a list': (lambda S: MISSING, lambda it, st, S: lst(it, st, [S.other, dct(it, st, [(MISSING, S.cls)])])),
}
for _n in (MISSING, IMPORTABLE, NESTED, 'Name'):
    FORMS[f'in a dict by the name {_n}'] = (lambda S, n=_n: n, lambda it, st, S, n=_n: dct(it, st, [(n, S.cls)]))
    FORMS[f'in a dict by the name {_n}, after another'] = (lambda S, n=_n: n, lambda it, st, S, n=_n: dct(it, st, [('nosuch.Other', S.other), (n, S.cls)]))
for _n in (MISSING, IMPORTABLE, NESTED):
    _l = _n.rsplit('.', 1)[-1]
    FORMS[f'in a dict by the last part of {_n}'] = (lambda S, n=_n: n, lambda it, st, S, n=_l: dct(it, st, [(n, S.cls)]))
FULL_FIRST = 'in a dict by full name and last part'
FORMS[FULL_FIRST] = (lambda S: MISSING, lambda it, st, S: dct(it, st, [('Name', S.other), (MISSING, S.cls)]))

# what names the class -> document
USES = {
    'an instance': lambda n: {'py/object': n, 'a': D('a')},
    'an instance with state': lambda n: {'py/object': n, 'py/state': {'a': D('a')}},
    'an instance with arguments': lambda n: {'py/object': n, 'py/newargs': {'py/tuple': [D('a')]}},
    'an instance with keyword arguments': lambda n: {'py/object': n, 'py/newargsex': [{'py/tuple': [D('a')]}, {'k': D('b')}]},
    'a type': lambda n: {'py/type': n},
    'a function': lambda n: {'py/function': n},
    'the callable of a reduce value': lambda n: {'py/reduce': [{'py/type': n}, {'py/tuple': [D('a')]}]},
    'the class of a reduce value': lambda n: {'py/reduce': [{'py/function': 'copyreg.__newobj__'}, {'py/tuple': [{'py/type': n}, D('a')]}]},
    'a named tuple': lambda n: {'py/object': n, 'py/seq': [D('a'), D('b')]},
}
PLACES = {
    'at the top': lambda x: x,
    'in a list': lambda x: [D('w'), x, D('v')],
    'in a dict': lambda x: {'k': x},
    'in a tuple': lambda x: {'py/tuple': [x]},
    'in a set': lambda x: {'py/set': [x]},
    'in an iterator': lambda x: {'py/iterator': [x]},
    'twice': lambda x: [x, x],
}


def scene(use):
    S = Scene('c25')
    kw = {'cls_attrs': {'_fields': tup(C('a'), C('b'))}, 'py': (tuple,)} if use == 'a named tuple' else {'dict_entries': []}
    if use == 'a named tuple':
        kw['elems'] = [D('a'), D('b')]
    S.q = S.inst('q', **kw)
    S.cls = T('cls', S.q)
    S.other = T('cls', S.inst('o', dict_entries=[]))
    add_doc_rules(S)
    return S




def check(run, form, use, place, opts, how='decode'):
    S = scene(use)
    it = run.it
    st = run.ctx.state()
    run.ctx.begin(S.world)
    name, value = FORMS[form]
    d = doc(it, st, PLACES[place](USES[use](name(S))))
    given = value(it, st, S)
    n = 0
    for s, v in call(run, how, S, st, d, given, opts):
        n += 1
        run.ob.paths += 1
        if isinstance(v, Raise):
            if v.exc == UNSUPPORTED:
                run.ob.undecided(f'{v.val} at {v.site}')
            else:
                run.fail(s, f'{v} is raised', v.site)
            continue
        for e in flat_events(s.events):
            if e.name == 'import' and e.args[0] not in (C('copyreg'),):
                run.fail(s, f'{e.args[0]} is imported', e.site)
            if e.name == 'warn':
                run.fail(s, f'a warning is issued: {e.args[0]}', e.site)
        if place in ('in a set', 'in an iterator'):
            made = made_of(it, s, v)
        else:
            made = list(reached(it, s, v))
        got = [w for w in made if is_of(it, s, w, S.cls)]
        if not got:
            run.fail(s, f'the class given is not used: {describe(it, s, v)}')
        if [w for w in made if is_of(it, s, w, S.other)]:
            run.fail(s, 'another class is used')
        if use == 'a named tuple' and got and not all(fields_given(it, s, w) for w in got):
            run.fail(s, f'the fields do not reach the constructor: {describe(it, s, v)}')
    if not n:
        run.ob.undecided('no path')


def made_of(it, st, v):
    h = it.h(st, v) if isinstance(v, Addr) else v
    return [w for s in getattr(h, 'segs', ()) if isinstance(s, Item) for w in reached(it, st, s.v)]


def is_of(it, st, w, cls):
    h = it.h(st, w) if isinstance(w, Addr) else None
    return w == cls or (isinstance(h, HObj) and h.cls == cls)


def fields_given(it, st, w):
    h = it.h(st, w)
    return isinstance(h, HObj) and isinstance(h.ctor, T) and [a for a in h.ctor.args if a in (T('restored', D('a')), T('restored', D('b')))] == [T('restored', D('a')), T('restored', D('b'))]


def describe(it, st, v):
    from .scenario import deref
    return deref(it, st, v, 4)[:200]


def call(run, how, S, st, d, given, opts):
    it = run.it
    if how == 'decode':
        yield from run.ctx.decode(T('jsontext', d), S.world, st, classes=given, **opts)
        return
    kw = {k: C(v) for k, v in opts.items()}
    for s, u in it.call(run.ctx.unpickler, [], kw, st):
        if isinstance(u, Raise):
            yield s, u
        elif how == 'context':
            yield from it.call(it.entry('jsonpickle', 'decode'), [T('jsontext', d)], {'context': u, 'classes': given, 'backend': S.world.backend}, s)
        else:
            for s2, f in it.getattr_(u, 'restore', s):
                yield from it.call(f, [d], {'classes': given}, s2)



@rule('C25')
def forms(run):
    for form in FORMS:
        for use in USES:
            for place in PLACES:
                for opts in ({}, {'keys': True}):
                    if place != 'in a list' and opts:
                        continue
                    for how in ('decode', 'context', 'restore'):
                        if how != 'decode' and place != 'in a list':
                            continue
                        yield (f'{use} {place}, class {form}, {how}{", keys=True" if opts else ""}',
                               lambda form=form, use=use, place=place, opts=opts, how=how: check(run, form, use, place, opts, how))


# --------------------------------------------------------------- one call only
@rule('C25')
def one_call(run):
    for form in FORMS:
        for use in ('an instance', 'a type', 'a named tuple'):
            for how in ('new context', 'same context', 'restore twice'):
                for second in ('nothing', 'None', 'another'):
                    yield (f'{use}, class {form}, then a call with {second}, {how}',
                           lambda form=form, use=use, how=how, second=second: later(run, form, use, how, second))


def later(run, form, use, how, second):
    S = scene(use)
    it = run.it
    st = run.ctx.state()
    run.ctx.begin(S.world)
    # without the argument the class is nowhere to be found
    S.world.rules.append(lambda a, s: False if a.op == 'importable' else None)
    name, value = FORMS[form]
    d = doc(it, st, [USES[use](name(S))])
    given = value(it, st, S)
    kw2 = {'nothing': {}, 'None': {'classes': C(None)}, 'another': {'classes': dct(it, st, [('nosuch.Unrelated', S.other)])}}[second]
    dec = it.entry('jsonpickle', 'decode')
    be = {'backend': S.world.backend}

    def go(f, a, k, s):
        for s2, v in it.call(f, a, k, s):
            if isinstance(v, Raise) and v.exc == UNSUPPORTED:
                run.ob.undecided(f'{v.val} at {v.site}')
            else:
                yield s2, v
    outs = []
    if how == 'new context':
        for s, _ in go(dec, [T('jsontext', d)], {'classes': given, **be}, st):
            outs += go(dec, [T('jsontext', d)], {**kw2, **be}, s)
    else:
        for s, u in it.call(run.ctx.unpickler, [], {}, st):
            if how == 'same context':
                for s2, _ in go(dec, [T('jsontext', d)], {'context': u, 'classes': given, **be}, s):
                    outs += go(dec, [T('jsontext', d)], {'context': u, **kw2, **be}, s2)
            else:
                for s2, f in it.getattr_(u, 'restore', s):
                    for s3, _ in go(f, [d], {'classes': given}, s2):
                        outs += go(f, [d], kw2, s3)
    for s, v in outs:
        run.ob.paths += 1
        if isinstance(v, Raise):
            continue
        if any(is_of(it, s, w, S.cls) for w in reached(it, s, v)):
            run.fail(s, 'the class given to the call before is still used')
    if not outs and not run.ob.unknown:
        run.ob.undecided('no path')
