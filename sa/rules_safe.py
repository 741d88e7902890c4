"""C14: no text of a document is evaluated as code unless safe=False is given."""

import ast

from . import kinds as K
from . import scenes as Z
from .check import TEXT, rule
from .docs import doc
from .interp import concat
from .rules_doc import decoder_tags
from .rules_state import ANY
from .rules_trip import KEYS, o
from .shapes import Scene, arg, flat_events
from .values import FALSE, NONE, TRUE, Const, Raise, T, UNSUPPORTED

D = Z.D
C = Const

TEXT['C14'] = ('On every path of decode, loads, Unpickler.restore and Unpickler.decode with safe left out or True, for documents with every tag holding every '
               'kind of payload, alone, beside other tags, nested and inside keys, no call of eval, exec or compile is made; every parameter named safe '
               'defaults to True; and no handler reaches a function that evaluates code.')

CODE = ('eval', 'exec', 'compile')


def evaluated(run, outs):
    """All paths, failing ones too: is anything evaluated?"""
    n = 0
    for st, v in outs:
        run.ob.paths += 1
        n += 1
        if isinstance(v, Raise) and v.exc == UNSUPPORTED:
            run.ob.undecided(f'{v.val} at {v.site}')
        for e in flat_events(st.events):
            if e.name == 'eval':
                run.ob.fail(f'evaluates {e.args[0]} as code', e.site)
    if not n:
        run.ob.undecided('no path')


def texts():
    m, n = T('modname', arg('q')), T('clsname', arg('q'))
    return {
        'a dotted expression': concat(m, C('/'), m, C('.'), n),
        'an expression': C('os/os.system("x")'),
        'an expression of a missing module': C('nosuch/nosuch.f(1)'),
        'a path': C('a.b/a.b.c'),
        'plain text': C('1+1'),
        'two slashes': C('a/b/c'),
        'any text': arg('text'),
    }


def payloads(t):
    if t in ('py/repr', 'py/mod'):
        yield from texts().items()
        return
    inner = {'py/repr': C('os/os.system("x")')}
    yield 'a py/repr object', inner
    yield 'a list of py/repr objects', [inner, inner]
    yield 'text', C('os/os.system("x")')
    yield 'any text', arg('text')
    yield 'a class name', C('collections.OrderedDict')
    if t in ('py/reduce',):
        yield 'a reduce list', [{'py/type': 'collections.OrderedDict'}, {'py/tuple': [inner]}, inner, [inner], [[inner, inner]], None]
        yield 'a function and text', [{'py/function': 'm.f'}, {'py/tuple': [C('os/os.system("x")')]}]
    if t in ('py/newargsex',):
        yield 'args and kwargs', [{'py/tuple': [inner]}, {'k': inner}]


def entry(run, S, st, name, d, opts):
    """One decoding call, through one of the public ways."""
    it = run.it
    run.ctx.begin(S.world)
    kw = {k: v if not isinstance(v, (bool, int, str)) else C(v) for k, v in opts.items()}
    kw.setdefault('backend', S.world.backend)
    txt = T('jsontext', d)
    if name in ('decode', 'loads'):
        return it.call(it.entry('jsonpickle', name), [txt], kw, st)
    out = []
    for s, u in it.call(run.ctx.unpickler, [], kw, st):
        if isinstance(u, Raise):
            out.append((s, u))
            continue
        if name == 'context':
            out += it.call(it.entry('jsonpickle', 'decode'), [txt], {'context': u, 'backend': S.world.backend}, s)
            continue
        for s2, f in it.getattr_(u, 'restore', s):
            out += it.call(f, [d], {}, s2)
    return out


ENTRIES = ('decode', 'loads', 'restore', 'context')
OPTIONS = ({}, {'safe': True}, {'keys': True}, {'keys': True, 'safe': True}, {'v1_decode': True}, {'handle_readonly': True, 'safe': True},
           {'on_missing': 'warn'})


def scene():
    S = Scene('c14')
    S.kind(arg('text'), K.Str())
    S.inst('q')
    return S


def places():
    yield 'alone', lambda t, p: {t: p}
    yield 'in a list', lambda t, p: [D('a'), {t: p}, {t: p}]
    yield 'in a dict', lambda t, p: {'a': {t: p}, 'b': D('b')}
    yield 'in a tuple', lambda t, p: {'py/tuple': [{t: p}]}
    yield 'in an instance', lambda t, p: {'py/object': 'collections.OrderedDict', 'a': {t: p}}
    yield 'in a missing class', lambda t, p: {'py/object': 'nosuch.C', 'a': {t: p}}
    yield 'in a state', lambda t, p: {'py/object': 'builtins.object', 'py/state': {t: p}}
    yield 'in a sequence', lambda t, p: {'py/object': 'collections.UserList', 'py/seq': [{t: p}]}
    yield 'in a datetime', lambda t, p: {'py/object': 'datetime.datetime', '__reduce__': [{t: p}, ['x', {t: p}]]}


def add_doc_rules(S):
    # classes of the document that are not part of the standard library do not exist
    S.world.rules.append(lambda a, st: False if a.op == 'importable' and isinstance(a.args[0], Const) else None)


@rule('C14')
def documents(run):
    for _, t in decoder_tags(run):
        if t.startswith('json:'):
            continue
        for pn, p in payloads(t):
            for wn, wrap in places():
                for en in ENTRIES:
                    for op in OPTIONS:
                        if wn != 'alone' and (en != 'decode' or op not in OPTIONS[:3]):
                            continue
                        if t != 'py/repr' and (op not in OPTIONS[:1] or en != 'decode'):
                            continue

                        def go(t=t, p=p, wrap=wrap, en=en, op=op):
                            S = scene()
                            add_doc_rules(S)
                            st = run.ctx.state()
                            run.it.world = S.world
                            evaluated(run, entry(run, S, st, en, doc(run.it, st, wrap(t, p)), op))
                        yield f'{t} with {pn}, {wn}, {en}, {o(op)}', go
    rep = {'py/repr': C('os/os.system("x")')}
    for _, t in decoder_tags(run):
        if t in ('py/repr',) or t.startswith('json:'):
            continue
        for first in (True, False):
            for p in ([rep], rep, C('collections.OrderedDict'), 3):
                def go(t=t, p=p, first=first):
                    S = scene()
                    add_doc_rules(S)
                    st = run.ctx.state()
                    run.it.world = S.world
                    d = {'py/repr': C('os/os.system("x")'), t: p} if first else {t: p, 'py/repr': C('os/os.system("x")')}
                    evaluated(run, entry(run, S, st, 'decode', doc(run.it, st, d), {}))
                yield f'py/repr {"before" if first else "after"} {t} with {p if not isinstance(p, (list, dict)) else "py/repr in " + type(p).__name__}', go


@rule('C14')
def in_keys(run):
    for en in ENTRIES:
        for op in ({'keys': True}, {'keys': True, 'safe': True}, {'keys': True, 'handle_readonly': True}):
            for wn, wrap in (('in a dict', lambda k: {'a': D('a'), k: D('b')}),
                             ('in an instance', lambda k: {'py/object': 'collections.OrderedDict', k: D('b')}),
                             ('in a nested key', None)):
                for pn, p in texts().items():
                    def go(en=en, op=op, wrap=wrap, p=p):
                        S = scene()
                        add_doc_rules(S)
                        st = run.ctx.state()
                        run.it.world = S.world
                        k = concat(C('json://'), T('jsontext', doc(run.it, st, {'py/repr': p})))
                        if wrap is None:
                            k = concat(C('json://'), T('jsontext', doc(run.it, st, {'py/tuple': [{'py/repr': p}, {'x': 1}]})))
                            d = doc(run.it, st, {k: {k: D('b')}})
                        else:
                            d = doc(run.it, st, wrap(k))
                        evaluated(run, entry(run, S, st, en, d, op))
                    yield f'py/repr with {pn} in a key, {wn}, {en}, {o(op)}', go


@rule('C14')
def round_trips(run):
    for kn in Z.ALL:
        for pn in ('at the top', 'in a list', 'in an attribute'):
            for e in KEYS:
                def go(kn=kn, pn=pn, e=e):
                    S = Z.scene(kn, Z.POSITIONS[pn])
                    for st, text in run.enc(S, allow=ANY, **e):
                        evaluated(run, run.ctx.decode(text, S.world, st, **e))
                yield f'decode {kn}, {pn}, {o(e)}', go


# ------------------------------------------------------------- constructs
def code_calls(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in CODE:
                yield n
            elif isinstance(f, ast.Attribute) and (f.attr in ('eval', 'exec') or f.attr == 'compile' and isinstance(f.value, ast.Name) and f.value.id == 'builtins'):
                yield n


def functions(prog):
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                for f in n.body:
                    if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        yield m, n, f
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield m, None, n


@rule('C14')
def constructs(run):
    prog = run.it.prog
    sites = [(m, n) for m in prog.modules.values() for n in code_calls(m.tree)]
    run.extra['code_evaluation_sites'] = [f'{m.rel}:{n.lineno}' for m, n in sites]
    run.extra['functions_searched'] = sum(1 for _ in functions(prog))

    def defaults():
        k = 0
        for m, cls, f in functions(prog):
            a = f.args
            named = a.posonlyargs + a.args
            pairs = list(zip(named[len(named) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            if m.rel.endswith('pickler.py') or m.rel.endswith('__init__.py'):
                for x, d in pairs:
                    if x.arg == 'safe':
                        k += 1
                        if not (isinstance(d, ast.Constant) and d.value is True):
                            run.ob.fail(f'{f.name} has the default safe={ast.unparse(d)}', f'{m.rel}:{f.lineno} in {f.name}')
        run.ob.paths += k
        if k < 2:
            run.ob.undecided(f'only {k} parameters named safe')
    yield 'defaults of parameters named safe', defaults

    def reach():
        """Handlers, followed through plain calls, modules and self."""
        by_name = {}
        for m, cls, f in functions(prog):
            by_name.setdefault((m.name, cls.name if cls else None, f.name), f)
        mods = {m.name: m for m in prog.modules.values()}

        def callees(m, cls, f):
            for n in ast.walk(f):
                if not isinstance(n, ast.Call):
                    continue
                g = n.func
                if isinstance(g, ast.Name):
                    for k in (m.name, *imported(m, g.id)):
                        if (k, None, g.id) in by_name:
                            yield mods[k], None, by_name[k, None, g.id]
                elif isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name):
                    if g.value.id == 'self' and cls is not None and (m.name, cls.name, g.attr) in by_name:
                        yield m, cls, by_name[m.name, cls.name, g.attr]
                    for k in imported(m, g.value.id):
                        if (k, None, g.attr) in by_name:
                            yield mods[k], None, by_name[k, None, g.attr]

        def imported(m, name):
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        if (a.asname or a.name) == name:
                            for k in (f'jsonpickle.{n.module}' if n.module else None, f'jsonpickle.{a.name}', n.module):
                                if k in mods:
                                    yield k
        evil = {id(f) for m, cls, f in functions(prog) if any(True for _ in code_calls(f))}
        k = 0
        for m, cls, f in functions(prog):
            if cls is None or not ('Handler' in cls.name or any('Handler' in ast.unparse(b) for b in cls.bases)):
                continue
            k += 1
            todo, seen = [(m, cls, f)], set()
            while todo:
                x = todo.pop()
                if id(x[2]) in seen:
                    continue
                seen.add(id(x[2]))
                if id(x[2]) in evil:
                    run.ob.fail(f'{cls.name}.{f.name} leads to {x[2].name}, which evaluates code', f'{x[0].rel}:{x[2].lineno} in {x[2].name}')
                todo += list(callees(*x))
        run.ob.paths += k
    yield 'code evaluation reached from handlers', reach


@rule('C14')
def only_when_asked(run):
    """The evaluating reader is seen by this analysis at all, and only with safe=False."""
    def go():
        S = scene()
        st = run.ctx.state()
        run.it.world = S.world
        d = doc(run.it, st, {'py/repr': C('os/os.getcwd()')})
        n = 0
        for s, v in entry(run, S, st, 'decode', d, {'safe': False}):
            n += sum(e.name == 'eval' for e in flat_events(s.events))
        run.ob.paths += n
        run.extra['evaluations_seen_with_safe_off'] = n
    yield 'safe=False', go
