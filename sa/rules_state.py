"""What a call leaves behind: C11 input untouched, C12 independence, C13 lifetimes."""

import ast

from . import scenes as Z
from .check import TEXT, rule
from .docs import doc, parts
from .rules_doc import decoder_tags, doc_of
from .rules_trip import KEYS, o
from .shapes import Scene, flat_events
from .values import NONE, TRUE, Addr, Const, Each, Entry, HDict, HInst, HList, HObj, HSet, HUnk, Item, Raise, Ref, T, TupV

D = Z.D
C = Const


def from_input(t):
    """Is this term a part of the value given by the user?"""
    if not isinstance(t, T):
        return False
    if t.op in ('arg', 'datum'):
        return True
    if t.op in ('attr', 'elem', 'val', 'key', 'nkey', 'cls', 'index', 'item', 'getattr', 'call', 'restored'):
        return any(from_input(a) for a in t.args)
    return False


TEXT['C11'] = ('For every kind of value at every position, no path of encode stores to, deletes from or calls a mutating method of any part of the '
               'value; and no path of Unpickler.restore changes any list or dict of the parsed document it was given.')


@rule('C11')
def encode_pure(run):
    for kn in Z.ALL:
        for pn, wrap in Z.POSITIONS.items():
            for e in ({}, {'keys': True}, {'unpicklable': False}, {'make_refs': False}):
                def go(kn=kn, wrap=wrap, e=e):
                    S = Z.scene(kn, wrap)
                    for st, text in run.enc(S, allow=ANY, **e):
                        untouched(run, st)
                yield f'encode {kn}, {pn}, {o(e)}', go


class Any:
    def __contains__(self, x):
        return True


ANY = Any()


def untouched(run, st):
    for ev in flat_events(st.events):
        if ev.name == 'effect' and from_input(ev.args[0]):
            run.fail(st, f'{ev.args[1].v} on {ev.args[0]}, a part of the value being encoded', ev.site)


@rule('C11')
def encode_pure_excluded(run):
    from .rules_doc import LAYOUTS, MEMBERS, excluded, exclusions
    for kind in LAYOUTS:
        for e in ({}, {'keys': True}, {'unpicklable': False}, {'include_properties': True}):
            if e.get('include_properties') and kind not in MEMBERS:
                continue

            def go(kind=kind, e=e):
                S = Scene('c11')
                S.root, _, _ = excluded(S, kind, {'_jsonpickle_exclude': exclusions(S, 'a tuple', ('h1', 'nothing', 'h2'))})
                for st, text in run.enc(S, allow=ANY, **e):
                    untouched(run, st)
            yield f'encode an instance with excluded {kind}, {o(e)}', go


@rule('C11')
def encode_pure_refs(run):
    from .rules_refs import cycle, cycles
    for names in cycles():
        for e in ({}, {'make_refs': False}, {'unpicklable': False}):
            def go(names=names, e=e):
                S = cycle(names)
                for st, text in run.enc(S, allow=ANY, **e):
                    untouched(run, st)
            yield f'encode cycle {" -> ".join(names)}, {o(e)}', go


def restore(run, S, st, d, what='restore', **opts):
    """Unpickler(**opts).restore(d) on a parsed document."""
    it = run.it
    run.ctx.begin(S.world)
    out = []
    opts.setdefault('backend', S.world.backend)
    for s, u in it.call(run.ctx.unpickler, [], {k: v if not isinstance(v, (bool, int, str)) else C(v) for k, v in opts.items()}, st):
        if not run.outcome(s, u, 'Unpickler'):
            continue
        for s2, f in it.getattr_(u, 'restore', s):
            out += it.call(f, [d], {}, s2)
    return out


def unchanged(run, S, st, d, **opts):
    it = run.it
    before = parts(it, st, d)
    n = 0
    for s, v in restore(run, S, st, d, **opts):
        n += 1
        if run.outcome(s, v, 'restore', ANY) or True:
            for a, h in before.items():
                if it.h(s, a) != h:
                    run.fail(s, f'restore changes the document it was given: {h} becomes {it.h(s, a)}')
    if not n and not run.ob.fails and not run.ob.unknown:
        run.ob.undecided('no path')


@rule('C11')
def restore_pure(run):
    for kn in Z.ALL:
        for pn, wrap in Z.POSITIONS.items():
            for e in KEYS:
                def go(kn=kn, wrap=wrap, e=e):
                    S = Z.scene(kn, wrap)
                    for st, text in run.enc(S, allow=ANY, **e):
                        unchanged(run, S, st, doc_of(text), **e)
                yield f'restore {kn}, {pn}, {o(e)}', go


PAYLOADS = {
    'a list': ['a', D('d'), ['n']], 'an empty list': [], 'a dict': {'a': D('d'), 'py/tuple': [1]}, 'an empty dict': {}, 'a string': 'abc',
    'a number': 3, 'null': None, 'nested lists': [['a', D('d')], {'k': D('e')}, None, None, None],
}


@rule('C11')
def restore_pure_documents(run):
    """Each tag with each kind of payload, alone, next to other members and inside containers."""
    for _, t in decoder_tags(run):
        if t.startswith('json:') or t == 'py/repr':
            continue
        for pn, p in PAYLOADS.items():
            for wn, wrap in (('alone', lambda x: x), ('twice in a list', lambda x: [x, {'k': dict(x)}, D('z')])):
                def go(t=t, p=p, wrap=wrap):
                    S = Scene('doc')
                    st = run.ctx.state()
                    run.it.world = S.world
                    unchanged(run, S, st, doc(run.it, st, wrap({t: p})))
                yield f'restore {t} with {pn}, {wn}', go

            def both(t=t, p=p):
                S = Scene('doc')
                st = run.ctx.state()
                run.it.world = S.world
                unchanged(run, S, st, doc(run.it, st, {'py/object': 'm.C', t: p, 'a': D('a'), 'b': ['x', D('y')]}))
            if t != 'py/object':
                yield f'restore {t} with {pn}, in an instance', both


# ---------------------------------------------------------------------- C12
def canon(it, st, v, names=None):
    """A rendering of a value with its sharing, independent of addresses."""
    names = {} if names is None else names

    def go(v):
        if isinstance(v, Addr):
            if v in names:
                return f'#{names[v]}'
            names[v] = len(names)
            h = it.h(st, v)
            n = f'#{names[v]}='
            if isinstance(h, HInst):
                return n + f'<{h.cls} ' + ', '.join(f'{k}={go(x)}' for k, x in sorted(h.fields)) + '>'
            return n + type(h).__name__ + (f'({go(h.cls)}, {go(h.ctor)})' if isinstance(h, HObj) else '') + '[' + ', '.join(seg(s) for s in getattr(h, 'segs', ())) + ']'
        if isinstance(v, T):
            return f'{v.op}(' + ', '.join(go(a) for a in v.args) + ')'
        if hasattr(v, 'segs'):
            return type(v).__name__ + '(' + ', '.join(seg(s) for s in v.segs) + ')'
        return repr(v)

    def seg(s):
        if isinstance(s, Item):
            return go(s.v)
        if isinstance(s, Entry):
            return f'{go(s.k)}: {go(s.v)}'
        if isinstance(s, Each):
            return f'*{go(s.src)}{{' + ' | '.join(', '.join(seg(e) for e in a.elems) for a in s.alts) + '}'
        if hasattr(s, 'args'):
            return f'{getattr(s, "name", "?")}(' + ', '.join(go(a) for a in s.args) + ')'
        return repr(s)
    return go(v)


def boom(it, o, args, kw, st):
    from .interp import exc
    from .values import Raise
    return [(st, Raise(exc('ValueError'), C('from the user'), it.site))]


def h_list(S, n):
    return S.list(n, [D(n + 'a'), S.list(n + 'l', [D(n + 'b')])])


def h_dict(S, n):
    i = S.list(n + 'l', [D(n + 'b')])
    return S.dict(n, [(C('a'), i), (C('b'), i)])


def h_inst(S, n):
    i = S.inst(n + 'i', dict_entries=[(C('v'), D(n + 'v'))])
    return S.inst(n, dict_entries=[(C('a'), i), (C('b'), i), (C('c'), D(n + 'c'))])


def h_cycle(S, n):
    from .shapes import arg
    return S.inst(n, dict_entries=[(C('me'), arg(n)), (C('l'), S.list(n + 'l', [arg(n), D(n + 'd')]))])


def h_reduce(S, n):
    from .shapes import arg, tup
    f = S.func(n + 'make', makes=arg(n))
    l = S.list(n + 'l', [D(n + 'b')])
    return S.inst(n, own={'__reduce__': tup(f, S.tuple(n + 'args', [l]), S.dict(n + 's', [(C('a'), l)]))})


def h_tuple(S, n):
    l = S.list(n + 'l', [D(n + 'b')])
    return S.tuple(n, [l, S.tuple(n + 't', [l]), D(n + 'd')])


def h_dictsub(S, n):
    return S.inst(n, py=(dict,), entries=[(C('i'), D(n + 'i'))], dict_entries=[(C('a'), S.list(n + 'l', []))])


def h_keys(S, n):
    i = S.inst(n + 'i', own={'__hash__': None, '__eq__': None}, dict_entries=[(C('v'), D(n + 'v'))])
    return S.dict(n, [(C('a'), i), (i, D(n + 'b')), (C(3), i)])


def h_fails(S, n):
    i = S.inst(n + 'i', own={'__getstate__': boom})
    return S.list(n, [S.list(n + 'l', [D(n + 'd')]), i, S.list(n + 'm', [])])


def h_fails_deep(S, n):
    i = S.inst(n + 'i', own={'__getstate__': boom})
    return S.inst(n, dict_entries=[(C('a'), S.dict(n + 'd', [(C('x'), S.list(n + 'l', [S.tuple(n + 't', [i])]))]))])


def h_fails_setstate(S, n):
    i = S.inst(n + 'i', own={'__getstate__': S.dict(n + 's', [(C('a'), D(n + 'a'))]), '__setstate__': boom})
    return S.inst(n, dict_entries=[(C('a'), S.list(n + 'l', [])), (C('b'), S.dict(n + 'd', [(C('x'), i)]))])


def lib(name):
    def build(S, n):
        return S.list(n + 'l', [Z.ALL[name](S, n), S.list(n + 'm', [])])
    return build


HISTORY = {'list': h_list, 'dict': h_dict, 'instance': h_inst, 'cycle': h_cycle, 'reduce': h_reduce, 'tuple': h_tuple, 'dict subclass': h_dictsub,
           'dict with object keys': h_keys, 'failing list': h_fails, 'failing instance': h_fails_deep, 'failing on restore': h_fails_setstate,
           'datetime': lib('datetime'), 'lock': lib('lock')}

TEXT['C12'] = ('After any first call, successful or failing, with any options, a second call of encode or decode gives the same document or value as it '
               'does alone: with contexts of their own, and with one context object used again with reset on. No path of a call writes what it was '
               'given, or anything made from it, to a module variable, class variable or default argument.')


def rendered(run, outs):
    from .values import Raise, UNSUPPORTED
    res = []
    for st, v in outs:
        run.ob.paths += 1
        if isinstance(v, Raise):
            if v.exc == UNSUPPORTED:
                run.ob.undecided(f'{v.val} at {v.site}')
            res.append(f'raises {v.exc} {v.val}')
        else:
            res.append(canon(run.it, st, v))
    return sorted(res)


def context(run, S, cls, st, **opts):
    run.ctx.begin(S.world)
    out = [(s, v) for s, v in run.it.call(cls, [], {'backend': S.world.backend, **{k: C(x) for k, x in opts.items()}}, st)]
    if len(out) != 1:
        run.ob.undecided('context construction splits')
    return out[0]


def clean(run, st):
    """The state left for the next call: no assumptions about values, no log."""
    s = st.clone()
    s.events = ()
    return s


def compare(run, what, alone, after):
    if alone != after and not run.ob.unknown:
        a = [x for x in after if x not in alone] or after
        b = [x for x in alone if x not in after] or alone
        p, q = (a or ['nothing'])[0], (b or ['nothing'])[0]
        i = next((i for i, (x, y) in enumerate(zip(p, q)) if x != y), min(len(p), len(q)))
        run.ob.fail(f'{what} gives ...{p[max(0, i - 40):i + 80]}... instead of ...{q[max(0, i - 40):i + 80]}...')


def runs_alone(run, y, alone):
    for r in alone:
        if r.startswith('raises') and 'from the user' not in r:
            run.ob.undecided(f'the call {r} by itself')


def firsts(run, S, outs):
    """States after the first call; failures included."""
    for st, v in outs:
        yield clean(run, st), v


MODES = {'plain': {}, 'keys=True': {'keys': True}, 'unpicklable=False': {'unpicklable': False}, 'make_refs=False': {'make_refs': False}, 'max_depth=2': {'max_depth': 2}}


@rule('C12')
def encode_histories(run):
    for an, a in HISTORY.items():
        for bn, b in HISTORY.items():
            for mn, m in MODES.items():
                for same in (False, True):
                    if same and an != bn:
                        continue
                    if mn != 'plain' and an not in ('instance', 'failing list', 'dict with object keys'):
                        continue

                    def go(a=a, b=b, m=m, same=same):
                        S = Scene('c12')
                        x = a(S, 'x')
                        y = x if same else b(S, 'y')
                        alone = rendered(run, run.ctx.encode(y, S.world, **m))
                        runs_alone(run, y, alone)
                        for st, _ in firsts(run, S, run.ctx.encode(x, S.world, **m)):
                            compare(run, 'encode after an independent encode', alone, rendered(run, run.ctx.encode(y, S.world, st, **m)))
                        s0, p = context(run, S, run.ctx.pickler, run.ctx.state(), **m)
                        alone = rendered(run, run.ctx.encode(y, S.world, s0, context=p, **m))
                        for st, _ in firsts(run, S, run.ctx.encode(x, S.world, s0, context=p, **m)):
                            compare(run, 'encode with a used context', alone, rendered(run, run.ctx.encode(y, S.world, st, context=p, **m)))
                    yield f'encode {"the same " if same else ""}{bn} after {an}, {mn}', go


@rule('C12')
def decode_histories(run):
    for an, a in HISTORY.items():
        for bn, b in HISTORY.items():
            for mn in ('plain', 'keys=True'):
                m = MODES[mn]
                if (mn == 'plain') == ('dict with object keys' in (an, bn)):
                    continue
                if bn.startswith('failing') and bn != 'failing on restore':
                    continue

                def go(a=a, b=b, m=m):
                    S = Scene('c12')
                    x, y = a(S, 'x'), b(S, 'y')
                    dm = {k: v for k, v in m.items() if k == 'keys'}
                    for st, ty in run.ctx.encode(y, S.world, **m):
                        alone = rendered(run, run.ctx.decode(ty, S.world, clean(run, st), **dm))
                        runs_alone(run, y, alone)
                        for s1, tx in firsts(run, S, run.ctx.encode(x, S.world, clean(run, st), **m)):
                            if not isinstance(tx, T):
                                continue
                            for s2, _ in firsts(run, S, run.ctx.decode(tx, S.world, s1, **dm)):
                                compare(run, 'decode after independent calls', alone, rendered(run, run.ctx.decode(ty, S.world, s2, **dm)))
                            s0, u = context(run, S, run.ctx.unpickler, s1, **dm)
                            for s2, _ in firsts(run, S, run.ctx.decode(tx, S.world, s0, context=u, **dm)):
                                compare(run, 'decode with a used context', alone, rendered(run, run.ctx.decode(ty, S.world, s2, context=u, **dm)))
                yield f'decode {bn} after {an}, {mn}', go


@rule('C12')
def reset_forgets(run):
    """An id is only good while the object lives and does not change: none may survive a reset."""
    it = run.it
    for an, a in HISTORY.items():
        for mn, m in MODES.items():
            def go(a=a, m=m):
                S = Scene('c12')
                x = a(S, 'x')
                s0, p = context(run, S, run.ctx.pickler, run.ctx.state(), **m)
                for st, _ in firsts(run, S, run.ctx.encode(x, S.world, s0, context=p, **m)):
                    for s, f in it.getattr_(p, 'reset', st):
                        for s2, r in it.call(f, [], {}, s):
                            run.ob.paths += 1
                            if isinstance(r, Raise):
                                run.ob.undecided(f'reset raises {r}')
                                continue
                            for name, v in it.h(s2, p).fields:
                                for k in keys_in(it, s2, v):
                                    if isinstance(k, T) and k.op == 'id':
                                        run.fail(s2, f'{name} still has an entry for {k} after reset()')
            yield f'reset after encode of {an}, {mn}', go


def keys_in(it, st, v):
    for s in getattr(it.hv(st, v), 'segs', ()):
        if isinstance(s, Entry):
            yield s.k
        elif isinstance(s, Each):
            for alt in s.alts:
                yield from (e.k for e in alt.elems if isinstance(e, Entry))


def of_call(it, st, v, depth=0):
    """Does the value hold a part of the input, its identity or a context of the call?"""
    if depth > 6:
        return False
    if isinstance(v, Addr):
        h = it.h(st, v)
        if isinstance(h, HInst):
            return True
        return any(of_call(it, st, x, depth + 1) for s in getattr(h, 'segs', ()) for x in seg_vals(s))
    if isinstance(v, T):
        if v.op in ('cls', 'clsname', 'modname', 'outer', 'submod', 'typeof'):
            return False
        if v.op in ('arg', 'datum', 'elem', 'val', 'flat'):
            return True
        return any(of_call(it, st, a, depth + 1) for a in v.args)
    if hasattr(v, 'segs'):
        return any(of_call(it, st, x, depth + 1) for s in v.segs for x in seg_vals(s))
    return getattr(v, 'self', None) is not None and of_call(it, st, v.self, depth + 1)


def seg_vals(s):
    if isinstance(s, Item):
        yield s.v
    elif isinstance(s, Entry):
        yield s.k
        yield s.v
    elif isinstance(s, Each):
        yield s.src
        for a in s.alts:
            for e in a.elems:
                yield from seg_vals(e)


def shared_writes(run, st, before, who):
    """Stores to anything that outlives the call."""
    it = run.it
    for ev in flat_events(st.events):
        if ev.name == 'global_write' and (len(ev.args) < 3 or of_call(it, st, ev.args[2])):
            run.fail(st, f'{who} stores {ev.args[2] if len(ev.args) > 2 else "a value"} in {ev.args[0]}.{ev.args[1].v}', ev.site)
    for a, h in st.heap.items():
        if a in it.base_heap and h is not it.base_heap[a] and a not in it.boxes.values():
            if isinstance(h, HUnk):
                run.ob.undecided(f'{who} changes an object shared by all calls: {it.base_heap[a]}')
                continue
            old = set(getattr(it.base_heap[a], 'segs', ()))
            new = [s for s in getattr(h, 'segs', ()) if s not in old]
            if any(of_call(it, st, x) for s in new for x in seg_vals(s)) or isinstance(h, HInst):
                run.fail(st, f'{who} changes an object shared by all calls: {it.base_heap[a]} becomes {h}')


@rule('C12')
def nothing_shared(run):
    for kn in Z.ALL:
        for pn, wrap in Z.POSITIONS.items():
            for e in ({}, {'keys': True}, {'make_refs': False}, {'unpicklable': False}):
                def go(kn=kn, wrap=wrap, e=e):
                    S = Z.scene(kn, wrap)
                    for st, text in run.ctx.encode(S.root, S.world, **e):
                        run.ob.paths += 1
                        shared_writes(run, st, None, 'encode')
                        if isinstance(text, T) and e in KEYS:
                            for s2, v in run.ctx.decode(text, S.world, clean(run, st), **e):
                                run.ob.paths += 1
                                shared_writes(run, s2, None, 'decode')
                yield f'shared state, {kn}, {pn}, {o(e)}', go


MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)


@rule('C12')
def memoised(run):
    """Functions with a result cache must not read anything that can change."""
    prog = run.it.prog

    def go():
        written = {}
        for m in prog.modules.values():
            names = {t.id for n in m.tree.body for t in ast.walk(n) if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)}
            for f in ast.walk(m.tree):
                if isinstance(f, (ast.FunctionDef, ast.Lambda)):
                    for n in ast.walk(f):
                        if isinstance(n, ast.Global):
                            written.setdefault(m.name, set()).update(n.names)
            written.setdefault(m.name, set())
        run.ob.paths += 1
        for m in prog.modules.values():
            for f in ast.walk(m.tree):
                if isinstance(f, ast.FunctionDef) and any(ast.unparse(d).split('(')[0].split('.')[-1] in ('lru_cache', 'cache') for d in f.decorator_list):
                    bad = reads_changing(prog, m, f, written, set())
                    if bad:
                        run.ob.fail(f'{m.name}.{f.name} keeps results of earlier calls although it depends on {bad}', f'{m.rel}:{f.lineno} in {f.name}')
    yield 'functions with a result cache', go


CHANGING = {'__import__', 'sys.modules', 'importlib.import_module', 'getattr', 'hasattr', 'id'}


def reads_changing(prog, m, f, written, seen):
    if (m.name, f.name) in seen:
        return None
    seen.add((m.name, f.name))
    funcs = {n.name: n for n in m.tree.body if isinstance(n, ast.FunctionDef)}
    params = {a.arg for a in f.args.args + f.args.kwonlyargs}
    if 'self' in params:
        return 'the state of self'
    for n in ast.walk(f):
        t = ast.unparse(n) if isinstance(n, (ast.Name, ast.Attribute)) else None
        if t in CHANGING - {'getattr', 'hasattr'}:
            return t
        if isinstance(n, ast.Name) and n.id in written.get(m.name, ()):
            return f'the module variable {n.id}'
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in funcs:
            r = reads_changing(prog, m, funcs[n.func.id], written, seen)
            if r:
                return r
    return None


# ---------------------------------------------------------------------- C13
TEXT['C13'] = ('At the end of encode, every identity number kept in a table of the context belongs to an object that is certain to be alive: one the '
               'value itself holds, or one that is also kept in the context.')


def lasting(S):
    """The objects the value keeps alive by itself."""
    from . import kinds as K
    out, todo = set(), [S.root]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        k = S.world.kinds.get(x)
        if isinstance(k, K.Seq):
            todo += list(k.elems or ())
        elif isinstance(k, K.DictK):
            for a, b in k._entries or () if hasattr(k, '_entries') else ():
                todo += [a, b]
        elif isinstance(k, K.Inst):
            todo += list(k.elems or () if '__next__' not in k.own else ()) + [v for n, v in k.attrs.items() if n not in k.props]
            for a, b in list(k.dict_entries or ()) + list(k._entries or ()):
                todo += [a, b]
    return out


def lives(x, live, once):
    """Is x kept alive by the objects in ``live``?"""
    if x in live or not isinstance(x, (T, Addr)):
        return not hasattr(x, 'obj') or lives(x.obj, live, once)
    if isinstance(x, Addr):
        return False
    if x.op in ('cls', 'clsname', 'modname', 'datum', 'typeof', 'member', 'userfunc', 'repr', 'global'):
        return True
    if x.op in ('val', 'key', 'nkey', 'part') and x.args[0] not in once:
        return lives(x.args[0], live, once)
    if x.op == 'elem' and x.args[0] not in once:
        return lives(x.args[0], live, once)
    if x.op == 'attr' and x.args[1] in (C('__dict__'), C('default_factory')):
        return lives(x.args[0], live, once)
    return False


def kept(it, st, ctx):
    """(identity terms, values) held by the fields of a context."""
    ids, vals, seen = [], set(), set()

    def see(v, where):
        if isinstance(v, T) and v.op == 'id':
            ids.append((v.args[0], where))
            return
        vals.add(v)
        if isinstance(v, Addr):
            if v in seen:
                return
            seen.add(v)
            h = it.h(st, v)
            if isinstance(h, HInst):
                for f, x in h.fields:
                    see(x, where or f)
            for s in getattr(h, 'segs', ()):
                seg(s, where)
        elif hasattr(v, 'segs'):
            for s in v.segs:
                seg(s, where)

    def seg(s, where):
        if isinstance(s, Item):
            see(s.v, where)
        elif isinstance(s, Entry):
            see(s.k, where)
            see(s.v, where)
        elif isinstance(s, Each):
            for a in s.alts:
                for e in a.elems:
                    seg(e, where)
    h = it.h(st, ctx)
    for f, x in h.fields:
        see(x, f)
    return ids, vals


def check_lifetimes(run, S, once=(), **opts):
    """Look at the tables whenever the encoder turns to the next value."""
    own, seen = lasting(S), set()
    n = 0

    def watch(ctx, st):
        nonlocal n
        if not isinstance(run.it.hv(st, ctx), HInst):
            return
        ids, vals = kept(run.it, st, ctx)
        for x, where in ids:
            n += 1
            if (x, where) not in seen and not lives(x, own | vals, once):
                seen.add((x, where))
                run.fail(st, f'{where} keeps the identity of {x}, which nothing keeps alive', run.it.site)
    run.ctx.watch = watch
    try:
        for st, v in run.ctx.encode(S.root, S.world, **opts):
            run.outcome(st, v, 'encode', ANY)
    finally:
        run.ctx.watch = None
    run.extra['identities_examined'] = run.extra.get('identities_examined', 0) + n
    return n


@rule('C13')
def lifetimes(run):
    from .shapes import arg
    for kn in Z.ALL:
        for pn, wrap in Z.POSITIONS.items():
            for e in ({}, {'keys': True}, {'make_refs': False}, {'unpicklable': False}):
                def go(kn=kn, wrap=wrap, e=e):
                    S = Z.scene(kn, wrap)
                    check_lifetimes(run, S, {arg('x')} if kn == 'iterator' else (), **e)
                yield f'{kn}, {pn}, {o(e)}', go


@rule('C13')
def temporaries(run):
    """Values made on the fly that are containers or instances themselves."""
    from .shapes import arg, tup

    def iterator(S, mk):
        from . import kinds as K
        x = arg('x')
        S.kind(x, K.Inst(own={'__iter__': None, '__next__': None}, has_dict=False, elems=[mk('a'), mk('b'), mk('c')]))
        return x

    def state(S, mk):
        return S.inst('x', own={'__getstate__': mk('s'), '__setstate__': NONE}, dict_entries=[(C('a'), mk('b'))])

    def state_parts(S, mk):
        return S.inst('x', own={'__getstate__': S.dict('s', [(C('p'), mk('a')), (C('q'), mk('b'))])}, dict_entries=[])

    def excluded_state(S, mk):
        return S.inst('x', own={'__getstate__': S.dict('s', [(C('p'), mk('a')), (C('h'), mk('b'))]), '__setstate__': NONE}, dict_entries=[],
                      cls_attrs={'_jsonpickle_exclude': TupV([Item(C('h'))])})

    def newargs(S, mk):
        return S.inst('x', own={'__getnewargs__': S.tuple('args', [mk('a'), mk('b')])}, dict_entries=[])

    def newargs_ex(S, mk):
        return S.inst('x', own={'__getnewargs_ex__': tup(S.tuple('args', [mk('a')]), S.dict('kw', [(C('k'), mk('b'))]))}, dict_entries=[])

    def reduce(S, mk):
        f = S.func('make', makes=arg('x'))
        return S.inst('x', own={'__reduce__': tup(f, S.tuple('args', [mk('a')]), mk('s'))}, dict_entries=[])

    def prop(S, mk):
        return S.inst('x', props={'p': mk('a'), 'q': mk('b')}, dict_entries=[(C('c'), mk('d'))], listed=True)
    makers = (iterator, state, state_parts, excluded_state, newargs, newargs_ex, reduce, prop)

    def values(S):
        return {
            'lists': lambda n: S.list(n, [D(n)]), 'dicts': lambda n: S.dict(n, [(C('v'), D(n))]), 'tuples': lambda n: S.tuple(n, [S.list(n + 'l', [])]),
            'instances': lambda n: S.inst(n, dict_entries=[(C('v'), D(n))]), 'slotted instances': lambda n: S.inst(n, has_dict=False, slots=('v',), attrs={'v': D(n)}),
            'dict subclasses': lambda n: S.inst(n, py=(dict,), entries=[(C('v'), D(n))], dict_entries=[]), 'texts': lambda n: S.scalar(n, str),
            'bytes': lambda n: S.scalar(n, bytes)}
    for mk in makers:
        for vn in values(None):
            for e in ({}, {'keys': True}, {'make_refs': False}, {'unpicklable': False}):
                if mk is prop:
                    e = {**e, 'include_properties': True}

                def go(mk=mk, vn=vn, e=e):
                    S = Scene('c13')
                    x = mk(S, values(S)[vn])
                    S.root = S.list('root', [x, S.list('tail', [])])
                    if not check_lifetimes(run, S, {arg('x')} if mk is iterator else (), **e):
                        run.ob.undecided('no table of identities found')
                yield f'{vn} from {mk.__name__}, {o(e)}', go
