"""What the document holds: C08 impersonation, C09 plain output, C22 exclusion, C27 vocabulary."""

import ast

from . import kinds as K
from . import scenes as Z
from .check import TEXT, rule
from .interp import exc
from .rules_keys import tags
from .rules_trip import IN_CONTAINERS, IN_INSTANCES, IN_HOOKS, KEYS, o
from .shapes import Scene, arg, tup
from .values import FALSE, NONE, TRUE, Addr, Alt, Const, Each, Entry, HDict, HInst, HList, HObj, HSet, Item, IterV, Op, Ref, T, TupV

D = Z.D
C = Const


def doc_of(text):
    """The document of an encoded text."""
    return text.args[0] if isinstance(text, T) and text.op == 'jsontext' else text


def members(it, st, v, path='document', seen=None):
    """(path, key, value) of every member of every object in the document."""
    seen = set() if seen is None else seen
    if isinstance(v, T) and v.op in ('jsontext', 'concat'):
        for a in v.args:
            yield from members(it, st, a, path + '<key>' if v.op == 'concat' else path, seen)
        return
    segs = ()
    if isinstance(v, Addr):
        if v in seen:
            return
        seen.add(v)
        segs = getattr(it.h(st, v), 'segs', ())
    elif isinstance(v, (TupV, IterV)):
        segs = v.segs
    for i, s in enumerate(segs):
        yield from seg_members(it, st, s, f'{path}[{i}]', path, seen)


def seg_members(it, st, s, ipath, path, seen):
    if isinstance(s, Entry):
        yield path, s.k, s.v
        yield from members(it, st, s.k, path, seen)
        yield from members(it, st, s.v, f'{path}[{s.k}]', seen)
    elif isinstance(s, Item):
        yield from members(it, st, s.v, ipath, seen)
    elif isinstance(s, Each):
        for a in s.alts:
            for e in a.elems:
                yield from seg_members(it, st, e, f'{path}[i]', path, seen)


def mentions(it, st, v, what, seen=None):
    """Does the document value v hold something made from ``what``?"""
    seen = set() if seen is None else seen
    if v == what:
        return True
    if isinstance(v, Addr):
        if v in seen:
            return False
        seen.add(v)
        h = it.h(st, v)
        return any(seg_mentions(it, st, s, what, seen) for s in getattr(h, 'segs', ()))
    if isinstance(v, (TupV, IterV)):
        return any(seg_mentions(it, st, s, what, seen) for s in v.segs)
    if isinstance(v, T):
        return any(mentions(it, st, a, what, seen) for a in v.args)
    return False


def seg_mentions(it, st, s, what, seen):
    if isinstance(s, Entry):
        return mentions(it, st, s.k, what, seen) or mentions(it, st, s.v, what, seen)
    if isinstance(s, Item):
        return mentions(it, st, s.v, what, seen)
    if isinstance(s, Each):
        return s.src == what or any(seg_mentions(it, st, e, what, seen) for a in s.alts for e in a.elems)
    return False


# ---------------------------------------------------------------------- C08
def decoder_tags(run):
    """The tag constants whose names the decoding side mentions."""
    mods = run.it.prog.modules
    names = set()
    for m in ('jsonpickle.unpickler', 'jsonpickle.handlers'):
        for n in ast.walk(mods[m].tree):
            if isinstance(n, ast.Attribute):
                names.add(n.attr)
            elif isinstance(n, ast.Name):
                names.add(n.id)
    out = []
    for n in mods['jsonpickle.tags'].tree.body:
        t = n.target if isinstance(n, ast.AnnAssign) else n.targets[0] if isinstance(n, ast.Assign) else None
        v = getattr(n, 'value', None)
        if isinstance(t, ast.Name) and t.id in names and isinstance(v, ast.Constant) and isinstance(v.value, str):
            out.append((t.id, v.value))
    return out


def places():
    """Where user-chosen names enter a document: builder(S, name, value)."""
    def entries(k, v):
        return [(C('a'), D('a')), (k, v), (C('z'), D('z'))]

    def in_dict(S, k, v):
        return S.dict('x', entries(k, v))

    def in_nested(S, k, v):
        return S.list('l', [S.tuple('t', [S.dict('x', entries(k, v))])])

    def in_inst(S, k, v):
        return S.inst('x', dict_entries=entries(k, v))

    def in_dictsub(S, k, v):
        return S.inst('x', py=(dict,), entries=entries(k, v), dict_entries=[])

    def in_dictsub_attr(S, k, v):
        return S.inst('x', py=(dict,), entries=[(C('i'), D('i'))], dict_entries=entries(k, v))

    def in_listsub_attr(S, k, v):
        return S.inst('x', py=(list,), elems=[D('i')], dict_entries=entries(k, v))

    def in_setsub_attr(S, k, v):
        return S.inst('x', py=(set,), elems=[D('i')], dict_entries=entries(k, v))

    def in_state(S, k, v):
        return S.inst('x', own={'__getstate__': S.dict('s', entries(k, v))})

    def in_state_set(S, k, v):
        return S.inst('x', own={'__getstate__': S.dict('s', entries(k, v)), '__setstate__': NONE})

    def in_slots_state(S, k, v):
        return S.inst('x', own={'__getstate__': S.tuple('st', [S.dict('d', entries(k, v)), S.dict('s', [(C('b'), D('b'))])])})

    def in_reduce_state(S, k, v):
        f = S.func('make', makes=arg('x'))
        return S.inst('x', own={'__reduce__': tup(f, S.tuple('args', [D('b')]), S.dict('s', entries(k, v)))})

    def in_reduce_args(S, k, v):
        f = S.func('make', makes=arg('x'))
        return S.inst('x', own={'__reduce__': tup(f, S.tuple('args', [S.dict('s', entries(k, v))]))})

    def in_newargs(S, k, v):
        return S.inst('x', own={'__getnewargs__': S.tuple('args', [S.dict('s', entries(k, v))])})

    def in_kwargs(S, k, v):
        return S.inst('x', own={'__getnewargs_ex__': tup(S.tuple('args', []), S.dict('s', entries(k, v)))})

    def in_key(S, k, v):
        i = S.inst('i', own={'__hash__': None, '__eq__': None}, dict_entries=entries(k, v))
        return S.dict('x', [(i, D('b'))])
    return {f.__name__.replace('_', ' '): f for f in (
        in_dict, in_nested, in_inst, in_dictsub, in_dictsub_attr, in_listsub_attr, in_setsub_attr, in_state, in_state_set, in_slots_state,
        in_reduce_state, in_reduce_args, in_newargs, in_kwargs, in_key)}


TEXT['C08'] = ('For every tag the decoding side mentions and every place where a user-chosen name enters the document: no member of the encoded '
               'document whose key is that tag holds what the user stored under that name.')


@rule('C08')
def impersonation(run):
    ts = decoder_tags(run)
    run.extra['tags_of_the_decoder'] = [v for _, v in ts]
    if len(ts) < 15:
        raise LookupError(f'only {len(ts)} tags are used by the decoder')
    values = {'a datum': lambda S: D('u'), 'a list': lambda S: S.list('ul', [D('u')]), 'a string': lambda S: S.scalar('u', str)}
    for name, t in ts + [('JSON_KEY', tag_value(run, 'JSON_KEY') + '"x"')]:
        for pn, place in places().items():
            for e in KEYS + ({'unpicklable': False}, {'make_refs': False}):
                if pn == 'in key' and not e.get('keys'):
                    continue
                if name == 'JSON_KEY' and not e.get('keys'):
                    continue
                for vn, mk in values.items():
                    if vn != 'a datum' and (e or pn not in ('in dict', 'in inst', 'in state')):
                        continue

                    def go(t=t, place=place, e=e, mk=mk):
                        S = Scene('c08')
                        S.root = place(S, C(t), mk(S))
                        n = 0
                        for st, text in run.enc(S, **e):
                            n += 1
                            for path, k, v in members(run.it, st, doc_of(text)):
                                # a structural tag around the whole holds the neighbours as well
                                if k == C(t) and any(mentions(run.it, st, v, m) for m in (D('u'), arg('u'))) and not mentions(run.it, st, v, D('a')):
                                    run.fail(st, f'{path}: the value stored under the name {t!r} is written under the tag {t!r}')
                        if not n and not run.ob.fails and not run.ob.unknown:
                            run.ob.undecided('no path')
                    yield f'{vn} named {t} {pn}, {o(e)}', go


# ---------------------------------------------------------------------- C09
RECONSTRUCT = ('OBJECT', 'REDUCE', 'ID', 'FUNCTION', 'MODULE', 'TUPLE', 'SET', 'STATE', 'SEQ')

TEXT['C09'] = ('With unpicklable=False, for every kind of value at every position: no object of the document has a member named by a reconstruction '
               'tag, and instances, tuples and sets are written as their plain content.')


def tag_value(run, name):
    mod = run.it.prog.modules['jsonpickle.tags']
    for n in mod.tree.body:
        t = n.target if isinstance(n, ast.AnnAssign) else n.targets[0] if isinstance(n, ast.Assign) else None
        if isinstance(t, ast.Name) and t.id == name and isinstance(n.value, ast.Constant):
            return n.value.value
    raise LookupError(f'tag {name} not found')


@rule('C09')
def no_tags(run):
    forbidden = {tag_value(run, n): n for n in RECONSTRUCT}
    for kn in Z.ALL:
        for pn, wrap in Z.POSITIONS.items():
            for e in ({}, {'make_refs': False}, {'keys': True}):
                e = {'unpicklable': False, **e}

                def go(kn=kn, wrap=wrap, e=e):
                    S = Z.scene(kn, wrap)
                    n = 0
                    for st, text in run.enc(S, **e):
                        n += 1
                        for path, k, v in members(run.it, st, doc_of(text)):
                            if isinstance(k, Const) and k.v in forbidden:
                                run.fail(st, f'{path} has the member {k.v}')
                    if not n and not run.ob.fails and not run.ob.unknown:
                        run.ob.undecided('no path')
                yield f'{kn}, {pn}, {o(e)}', go


AS_KEY = [k for k in ('tuple', 'empty tuple', 'type', 'builtin type', 'function', 'module', *Z.INSTANCES, *Z.HOOKS, *Z.LIBRARY) if k in Z.ALL
          and not any(w in k for w in ('dict sub', 'list sub', 'set sub', 'defaultdict', 'array', 'deque'))]


@rule('C09')
def no_tags_in_keys(run):
    """Keys are written as text in a document of their own; it is as plain as the rest."""
    forbidden = {tag_value(run, n): n for n in RECONSTRUCT}
    for kn in AS_KEY:
        for how in ('dict', 'dict in an instance'):
            for e in ({}, {'make_refs': False}):
                e = {'unpicklable': False, 'keys': True, **e}

                def go(kn=kn, how=how, e=e):
                    S = Scene(kn)
                    x = Z.ALL[kn](S, 'x')
                    d = S.dict('d', [(C('a'), D('a')), (x, D('b')), (C('c'), D('c'))])
                    S.root = d if how == 'dict' else S.inst('w', dict_entries=[(C('d'), d)], listed=True)
                    n = 0
                    for st, text in run.enc(S, **e):
                        n += 1
                        for path, k, v in members(run.it, st, doc_of(text)):
                            if isinstance(k, Const) and k.v in forbidden:
                                run.fail(st, f'{path} has the member {k.v}')
                    if not n and not run.ob.fails and not run.ob.unknown:
                        run.ob.undecided('no path')
                yield f'{kn} as a key of a {how}, {o(e)}', go


class Plain:
    """Compare a document with the plain content of a scenario object."""

    def __init__(self, run, S, st):
        self.it, self.S, self.st, self.bad = run.it, S, st, []

    def same(self, x, v, path):
        w = self.S.plain.get(x)
        if w is None:
            want = x if isinstance(x, Const) or x in self.S.world.kinds and isinstance(self.S.world.kinds[x], (K.Scalar, K.Str)) else T('flat', x)
            if v != want:
                self.bad.append(f'{path}: expected {want}, got {v}')
            return
        h = self.it.hv(self.st, v)
        if isinstance(w, list):
            if not isinstance(h, HList) or len(h.segs) != len(w) or any(not isinstance(s, Item) for s in h.segs):
                self.bad.append(f'{path}: expected a list of {len(w)}, got {h}')
                return
            for i, (e, s) in enumerate(zip(w, h.segs)):
                self.same(e, s.v, f'{path}[{i}]')
        else:
            if not isinstance(h, HDict) or any(not isinstance(s, Entry) for s in h.segs):
                self.bad.append(f'{path}: expected an object, got {h}')
                return
            got = {s.k: s.v for s in h.segs}
            for k, e in w.items():
                if C(k) not in got:
                    self.bad.append(f'{path}: no member {k}')
                else:
                    self.same(e, got.pop(C(k)), f'{path}[{k}]')
            for k in got:
                self.bad.append(f'{path}: unexpected member {k}')


def plain_scene(kind, inner):
    S = Scene(kind)
    S.plain = {}
    a, b = D('a'), D('b')
    if inner == 'list':
        b = S.list('il', [D('b1'), D('b2')])
        S.plain[b] = [D('b1'), D('b2')]
    elif inner == 'instance':
        b = S.inst('ii', dict_entries=[(C('v'), D('b1'))])
        S.plain[b] = {'v': D('b1')}
    elif inner == 'tuple':
        b = S.tuple('it', [D('b1')])
        S.plain[b] = [D('b1')]
    two = [(C('p'), a), (C('q'), b)]
    if kind in ('list', 'tuple', 'set'):
        x = getattr(S, kind)('x', [a, b, C('s')])
        S.plain[x] = [a, b, C('s')]
    elif kind == 'dict':
        x = S.dict('x', two)
        S.plain[x] = {'p': a, 'q': b}
    elif kind == 'instance':
        x = S.inst('x', dict_entries=two)
        S.plain[x] = {'p': a, 'q': b}
    elif kind == 'slotted instance':
        x = S.inst('x', has_dict=False, slots=('p', 'q'), attrs={'p': a, 'q': b})
        S.plain[x] = {'p': a, 'q': b}
    elif kind == 'dict state':
        s = S.dict('s', two)
        x = S.inst('x', own={'__getstate__': s, '__setstate__': NONE})
        S.plain[x] = S.plain[s] = {'p': a, 'q': b}
    elif kind == 'list state':
        s = S.list('s', [a, b])
        x = S.inst('x', own={'__getstate__': s, '__setstate__': NONE})
        S.plain[x] = S.plain[s] = [a, b]
    elif kind == 'list subclass':
        x = S.inst('x', py=(list,), elems=[a, b], dict_entries=[])
        S.plain[x] = [a, b]
    elif kind == 'set subclass':
        x = S.inst('x', py=(set,), elems=[a, b], dict_entries=[])
        S.plain[x] = [a, b]
    elif kind == 'dict subclass':
        x = S.inst('x', py=(dict,), entries=two, dict_entries=[])
        S.plain[x] = {'p': a, 'q': b}
    elif kind == 'reduce':
        f = S.func('make', makes=arg('x'))
        x = S.inst('x', own={'__reduce__': tup(f, S.tuple('args', [D('n')]))}, dict_entries=two)
        S.plain[x] = {'p': a, 'q': b}
    S.x = x
    p = S.list('p', [D('pv')])
    S.plain[p] = [D('pv')]
    S.root = S.list('root', [x, p, C(1)])
    S.plain[S.root] = [x, p, C(1)]
    return S


PLAIN = ('list', 'tuple', 'set', 'dict', 'instance', 'slotted instance', 'dict state', 'list state', 'list subclass', 'set subclass', 'dict subclass', 'reduce')


@rule('C09')
def plain_content(run):
    for kind in PLAIN:
        for inner in ('datum', 'list', 'instance', 'tuple'):
            if kind in ('set', 'set subclass') and inner in ('list',):
                continue
            for e in ({}, {'make_refs': False}, {'keys': True}):
                e = {'unpicklable': False, **e}

                def go(kind=kind, inner=inner, e=e):
                    S = plain_scene(kind, inner)
                    for st, text in run.enc(S, **e):
                        c = Plain(run, S, st)
                        c.same(S.root, doc_of(text), 'document')
                        if c.bad:
                            run.fail(st, '; '.join(c.bad[:3]))
                yield f'content of a {kind} holding a {inner}, {o(e)}', go


# ---------------------------------------------------------------------- C22
TEXT['C22'] = ('For every layout of an instance whose class lists names in _jsonpickle_exclude: the document has no member with such a name and '
               'nothing made from its value, and holds a member for every other attribute.')


def exclusions(S, how, names):
    if how == 'a tuple':
        return TupV([Item(C(n)) for n in names])
    return getattr(S, how.split()[1])('excl', [C(n) for n in names])


def excluded(S, kind, cls):
    """(object, hidden names, kept names); every attribute v is D('v')."""
    hid, kept = ['h1', 'h2'], ['a', 'm', 'z']
    ent = [(C(n), D(n)) for n in ('a', 'h1', 'm', 'h2', 'z')]
    kw = {'cls_attrs': cls, 'listed': True}
    if kind.endswith(' of a base class'):
        kind = kind.removesuffix(' of a base class')
        kw.update(parents=(S.parent('B', cls_attrs=cls),), from_base=tuple(cls))
    if kind == 'attributes':
        return S.inst('x', dict_entries=ent, **kw), hid, kept
    if kind == 'first attribute':
        return S.inst('x', dict_entries=ent[1:], **kw), hid, kept[1:]
    if kind == 'only hidden attributes':
        return S.inst('x', dict_entries=[ent[1], ent[3]], **kw), hid, []
    if kind == 'slots':
        return S.inst('x', has_dict=False, slots=('a', 'h1', 'm', 'h2', 'z'), attrs={k.v: v for k, v in ent}, **kw), hid, kept
    if kind == 'only hidden slots':
        return S.inst('x', has_dict=False, slots=('h1', 'h2'), attrs={'h1': D('h1'), 'h2': D('h2')}, **kw), hid, []
    if kind == 'inherited slots':
        p = S.parent('P', has_dict=False, slots=('h1', 'm'))
        return S.inst('x', has_dict=False, slots=('a', 'h2', 'z'), parents=(p,), attrs={k.v: v for k, v in ent}, **kw), hid, kept
    if kind == 'unset slots':
        return S.inst('x', has_dict=False, slots=('a', 'u', 'h1', 'm', 'h2', 'z'), attrs={k.v: v for k, v in ent}, lacks=('u',), **kw), hid, kept
    if kind == 'dict subclass items':
        return S.inst('x', py=(dict,), entries=ent, dict_entries=[], **kw), hid, kept
    if kind == 'dict subclass attributes':
        return S.inst('x', py=(dict,), entries=[(C('i'), D('i'))], dict_entries=ent, **kw), hid, kept + ['i']
    if kind == 'list subclass attributes':
        return S.inst('x', py=(list,), elems=[D('i')], dict_entries=ent, **kw), hid, kept
    if kind == 'set subclass attributes':
        return S.inst('x', py=(set,), elems=[D('i')], dict_entries=ent, **kw), hid, kept
    if kind == 'tuple subclass attributes':
        return S.inst('x', py=(tuple,), elems=[D('i')], dict_entries=ent, **kw), hid, []
    if kind == 'state':
        return S.inst('x', own={'__getstate__': S.dict('s', ent)}, **kw), hid, kept
    if kind == 'state with a setter':
        return S.inst('x', own={'__getstate__': S.dict('s', ent), '__setstate__': NONE}, **kw), hid, kept
    if kind == 'state with only hidden names':
        return S.inst('x', own={'__getstate__': S.dict('s', [ent[1], ent[3]]), '__setstate__': NONE}, dict_entries=[(C('h1'), D('h1')), (C('a'), D('a'))], **kw), hid, []
    if kind == 'properties':
        return S.inst('x', dict_entries=[(C('a'), D('a')), (C('h1'), D('h1'))], props={'h2': D('h2'), 'm': D('m'), 'z': D('z')}, **kw), hid, kept
    if kind == 'plain properties':
        for n in ('h2', 'm'):
            S.scalar(n, int)
        return S.inst('x', dict_entries=[(C('a'), D('a')), (C('h1'), D('h1'))], props={'h2': arg('h2'), 'm': arg('m'), 'z': C(5)}, **kw), hid, kept
    if kind == 'slots and properties':
        return S.inst('x', has_dict=False, slots=('a', 'h1'), attrs={'a': D('a'), 'h1': D('h1')}, props={'h2': D('h2'), 'm': D('m')}, **kw), hid, ['a', 'm']
    raise LookupError(kind)


LAYOUTS = ('attributes', 'first attribute', 'only hidden attributes', 'slots', 'only hidden slots', 'inherited slots', 'unset slots',
           'dict subclass items', 'dict subclass attributes', 'list subclass attributes', 'set subclass attributes', 'state',
           'state with a setter', 'state with only hidden names', 'properties', 'plain properties', 'slots and properties',
           *(f'{k} of a base class' for k in ('attributes', 'slots', 'dict subclass items', 'state')))
MEMBERS = ('attributes', 'slots', 'inherited slots', 'state', 'properties', 'plain properties', 'slots and properties')
NO_PLAIN = {'dict subclass attributes', 'list subclass attributes', 'set subclass attributes'}


@rule('C22')
def exclusion(run):
    for kind in LAYOUTS:
        for how in ('a tuple', 'a list', 'a set'):
            for wn, wrap in (('at the top', Z.at_root), ('in a list', Z.marked), ('in an attribute', Z.in_attr)):
                for e in ({}, {'keys': True}, {'unpicklable': False}, {'make_refs': False}, {'include_properties': True}, {'include_properties': True, 'unpicklable': False}):
                    if ('properties' in kind and not e.get('include_properties')) or (e.get('include_properties') and kind not in MEMBERS):
                        continue
                    if (how != 'a tuple' or wn != 'at the top') and (how != 'a tuple' and wn != 'at the top'):
                        continue

                    def go(kind=kind, how=how, wrap=wrap, e=e):
                        S = Scene('c22')
                        x, hid, kept = excluded(S, kind, {'_jsonpickle_exclude': exclusions(S, how, ('h1', 'nothing', 'h2'))})
                        S.root = wrap(S, x)
                        keep = [] if kind in NO_PLAIN and not e.get('unpicklable', True) else kept
                        if kind == 'dict subclass attributes' and not e.get('unpicklable', True):
                            keep = ['i']
                        n = 0
                        for st, text in run.enc(S, **e):
                            n += 1
                            doc = doc_of(text)
                            ms = list(members(run.it, st, doc))
                            for h in hid:
                                for path, k, v in ms:
                                    if k == C(h) or isinstance(k, T) and mentions(run.it, st, k, C(h)):
                                        run.fail(st, f'{path} has the member {h}, which the class excludes')
                                for d in (D(h), arg(h)):
                                    if mentions(run.it, st, doc, d):
                                        run.fail(st, f'the document holds the value of {h}, which the class excludes')
                            for k in keep:
                                if not any(m == C(k) and (v == C(5) or any(mentions(run.it, st, v, d) for d in (D(k), arg(k)))) for _, m, v in ms):
                                    run.fail(st, f'the attribute {k} is not in the document')
                        if not n and not run.ob.fails and not run.ob.unknown:
                            run.ob.undecided('no path')
                    yield f'{kind.replace(" of a base class", "")}, excluded by {how}{" of a base class" if "base" in kind else ""}, {wn}, {o(e)}', go
