"""C26: malformed tag payloads give a defined result."""

from . import scenes as Z
from .check import TEXT, rule
from .docs import doc
from .rules_missing import class_name, items
from .rules_safe import add_doc_rules
from .shapes import Scene
from .values import Addr, Const, HIter, HList, HObj, HSet, IterV, NONE, Raise, T, TupV, UNSUPPORTED

D = Z.D
C = Const

TEXT['C26'] = ('Documents with each listed tag holding each kind of unusable payload, once and repeated, at every position and followed by references: no path '
               'raises, the tag gives the documented empty value or None, and references to the objects before and after it resolve as if it were well formed.')

NO_ITER = {'a number': 5, 'zero': 0, 'a fraction': 1.5, 'true': True, 'false': False, 'null': None}
NO_TEXT = {'a number': 5, 'true': True, 'null': None, 'a fraction': 0.5, 'a list': ['x'], 'an empty list': [], 'a dict': {'a': 1}, 'a nested tag': {'py/tuple': [1]}}
BAD64 = {'a cut off group': 'a', 'missing padding': 'YWJ', 'a non-ASCII letter': '\xe9', 'a lone surrogate': '\ud800', 'non-ASCII text': 'YWJ中'}
BAD85 = {'a character outside the alphabet': 'ab"cd', 'an overflow': '~~~~~', 'a non-ASCII letter': '\xe9', 'a lone surrogate': '\ud800', 'a comma': 'a,b'}
BAD_ID = {'past the end': 99, 'far past the end': 10 ** 12, 'negative': -1, 'far negative': -99, 'text': 'a', 'digits': '1', 'empty text': '', 'a fraction': 1.5,
          'null': None, 'a list': [1], 'an empty list': [], 'a dict': {'a': 1}}
BAD_REDUCE = {'an empty list': [], 'a number for the callable': [5, {'py/tuple': []}], 'text for the callable': ['text', {'py/tuple': [1]}],
              'null for the callable': [None, None], 'a list for the callable': [{'py/tuple': [1]}, {'py/tuple': []}, 3], 'text': 'abc', 'an empty dict': {}}


def is_empty(cls):
    def f(it, st, v):
        if cls is TupV:
            return isinstance(v, TupV) and not v.segs
        h = it.h(st, v) if isinstance(v, Addr) else v
        return isinstance(h, cls) and not h.segs
    return f


def is_bytes(it, st, v):
    return v == C(b'')


def is_bytearray(it, st, v):
    if isinstance(v, Const):
        return type(v.v) is bytearray and not v.v
    h = it.h(st, v) if isinstance(v, Addr) else v
    return 'bytearray' in str(h) and "b''" in str(h)


def is_none(it, st, v):
    return v == NONE


# tag -> (payloads, expected result, numbers it takes)
CASES = {
    'py/tuple': (NO_ITER, is_empty(TupV), 0, 'an empty tuple'),
    'py/set': (NO_ITER, is_empty(HSet), 0, 'an empty set'),
    'py/iterator': (NO_ITER, is_empty((IterV, HIter)), 1, 'an empty iterator'),
    'py/reduce': ({**NO_ITER, **BAD_REDUCE}, is_empty(HList), 1, 'an empty list'),
    'py/b64': ({**NO_TEXT, **BAD64}, is_bytes, 0, 'empty bytes'),
    'py/b85': ({**NO_TEXT, **BAD85}, is_bytes, 0, 'empty bytes'),
    'py/bytea': ({**{f'base64 of {k}': {'py/b64': v} for k, v in {**NO_TEXT, **BAD64}.items()},
                  **{f'base85 of {k}': {'py/b85': v} for k, v in {**NO_TEXT, **BAD85}.items()}}, is_bytearray, 0, 'an empty bytearray'),
    'py/id': (BAD_ID, is_none, 0, 'None'),
}
# position -> (document, how to find the value again, numbers before it)
PLACES = {
    'in a list': (lambda x, q: [x], lambda it, st, v: (items(it, st, v) or [None])[0], 1),
    'in a dict': (lambda x, q: {'k': x}, lambda it, st, v: entry(it, st, v, C('k')), 1),
    'in a tuple': (lambda x, q: {'py/tuple': [x]}, lambda it, st, v: v.segs[0].v if isinstance(v, TupV) and v.segs else None, 0),
    'in an attribute': (lambda x, q: {'py/object': q, 'a': x}, lambda it, st, v: attribute(it, st, v, C('a')), 1),
    'bare': (lambda x, q: x, lambda it, st, v: v, 0),
}


def entry(it, st, v, k):
    h = it.h(st, v) if isinstance(v, Addr) else None
    for s in getattr(h, 'segs', ()):
        if getattr(s, 'k', None) == k:
            return s.v
    return None


def attribute(it, st, v, k):
    h = it.h(st, v) if isinstance(v, Addr) else None
    got = None
    for s in h.segs if isinstance(h, HObj) else ():
        if getattr(s, 'name', None) == 'setattr' and s.args[0] == k:
            got = s.args[1]
    return got


def malformed(run, tag, payload, place, times, opts):
    S = Scene('c26')
    q = class_name(S.inst('q', dict_entries=[]))
    add_doc_rules(S)
    it = run.it
    st = run.ctx.state()
    run.ctx.begin(S.world)
    _, good, num, what = CASES[tag]
    wrap, find, before = PLACES[place]
    x = {tag: payload}
    d = [{'py/object': q, 'n': 1}, [D('l')]] + [wrap(x, q)] * times + [{'py/object': q, 'n': 2}, [D('m')]]
    after = 3 + times * (before + num)
    own = [3 + i * (before + num) + before for i in range(times)] if tag == 'py/reduce' else []
    d += [{'py/tuple': [{'py/id': i}, {'py/id': i}]} for i in own] + [{'py/id': i} for i in (*own, 1, 2, after, after + 1)]
    n = 0
    for s, v in run.ctx.decode(T('jsontext', doc(it, st, d)), S.world, st, **opts):
        n += 1
        run.ob.paths += 1
        if isinstance(v, Raise):
            if v.exc == UNSUPPORTED:
                run.ob.undecided(f'{v.val} at {v.site}')
            else:
                run.fail(s, f'{v} is raised', v.site)
            continue
        got = items(it, s, v)
        if got is None or len(got) != len(d):
            run.fail(s, f'the list is restored as {v}')
            continue
        for w in got[2:2 + times]:
            r = find(it, s, w)
            if r is None or not good(it, s, r):
                from .scenario import deref
                run.fail(s, f'the tag gives {deref(it, s, r, 3)[:120] if r is not None else None} instead of {what}')
        for w, t, r in zip(got[2:2 + times], got[4 + times:], got[4 + 2 * times:]) if own else ():
            if find(it, s, w) != r or not isinstance(t, TupV) or [x.v for x in t.segs] != [r, r]:
                run.fail(s, f'references to it give {r} and {t}')
        for i, (k, j) in enumerate(((0, -4), (1, -3), (2 + times, -2), (3 + times, -1))):
            if got[k] != got[j]:
                run.fail(s, f'the reference to the {("instance", "list")[i % 2]} {"before" if i < 2 else "after"} it gives {got[j]}')
    if not n:
        run.ob.undecided('no path')


@rule('C26')
def payloads(run):
    for tag, (vals, *_) in CASES.items():
        for vn, v in vals.items():
            for place in PLACES:
                for times in (1, 2, 3):
                    for opts in ({}, {'keys': True}, {'on_missing': 'error'}, {'v1_decode': True}):
                        if opts and (times != 2 or 'v1_decode' in opts and place == 'in a dict'):
                            continue
                        yield (f'{tag} with {vn} {place}, {times} times{", " + next(iter(opts)) if opts else ""}',
                               lambda tag=tag, v=v, place=place, times=times, opts=opts: malformed(run, tag, v, place, times, opts))


@rule('C26')
def top(run):
    for tag, (vals, good, _, what) in CASES.items():
        for vn, v in vals.items():
            for how in ('decode', 'restore'):
                def go(tag=tag, v=v, good=good, what=what, how=how):
                    S = Scene('c26')
                    it = run.it
                    st = run.ctx.state()
                    run.ctx.begin(S.world)
                    d = doc(it, st, {tag: v})
                    if how == 'decode':
                        outs = run.ctx.decode(T('jsontext', d), S.world, st)
                    else:
                        outs = [r for s, u in it.call(run.ctx.unpickler, [], {}, st) for s2, f in it.getattr_(u, 'restore', s) for r in it.call(f, [d], {}, s2)]
                    for s, r in outs:
                        run.ob.paths += 1
                        if isinstance(r, Raise):
                            if r.exc == UNSUPPORTED:
                                run.ob.undecided(f'{r.val} at {r.site}')
                            else:
                                run.fail(s, f'{r} is raised', r.site)
                        elif not good(it, s, r):
                            run.fail(s, f'the document gives {r} instead of {what}')
                yield f'{tag} with {vn} as the whole document, {how}', go
