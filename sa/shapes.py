"""Scenario objects together with what a faithful restoration of them is."""

import types

from . import kinds as K
from .interp import exc, ref_of_type
from .values import (
    FALSE, NONE, TRUE, Addr, Alt, Const, Each, Entry, HDict, HInst, HIter, HList, HObj,
    HSet, HUnk, Item, IterV, MethV, Op, Raise, Ref, T, TupV,
)


def tup(*a):
    return TupV([Item(i) for i in a])


def arg(n):
    return T('arg', Const(n))


def datum(n):
    return T('datum', Const(n))


class TruthyDatum(K.Datum):
    name = 'non-empty datum'

    def truth(self, v):
        return True

    def eq_const(self, t, c):
        return False if c.v is None else None


TRUTHY = TruthyDatum()


class Scene:
    """A world plus the restoration expected for each of its objects."""

    def __init__(self, name):
        self.name = name
        self.world = K.W()
        self.expect = {}
        self.identity = set()
        self.enc = {}
        self.dec = {}
        self.root = None
        self.tags = set()

    def kind(self, x, k):
        self.world.kinds[x] = k

    # ------------------------------------------------------------ leaves
    def datum(self, n):
        return datum(n)

    def truthy(self, n):
        x = T('datum', Const(n))
        self.kind(x, TRUTHY)
        return x

    def scalar(self, n, t):
        x = arg(n)
        self.kind(x, K.Scalar(t) if t is not str else K.Str())
        self.expect[x] = lambda m, v: m.eq(x, v)
        return x

    # ------------------------------------------------------------ containers
    def list(self, n, elems=None):
        x = arg(n)
        self.kind(x, K.Seq(list, elems))
        self.identity.add(x)
        self.expect[x] = lambda m, v: m.seq(x, v, HList, elems)
        return x

    def tuple(self, n, elems=None):
        x = arg(n)
        self.kind(x, K.Seq(tuple, elems))
        self.expect[x] = lambda m, v: m.seq(x, v, TupV, elems)
        return x

    def set(self, n, elems=None):
        x = arg(n)
        self.kind(x, K.Seq(set, elems))
        self.expect[x] = lambda m, v: m.seq(x, v, HSet, elems)
        return x

    def dict(self, n, entries=None, parts=None):
        x = arg(n)
        self.kind(x, K.DictK(entries))
        if parts is not None:
            self.world.parts[x] = [(l, k(x) if callable(k) else k) for l, k in parts]
        self.identity.add(x)
        self.expect[x] = lambda m, v: m.mapping(x, v, entries)
        return x

    # ------------------------------------------------------------ instances
    def inst(self, n, **kw):
        """A user class instance; state is its __dict__ (and slots)."""
        x = arg(n)
        check = kw.pop('check', None)
        k = K.Inst(**kw)
        self.kind(x, k)
        self.identity.add(x)
        self.expect[x] = check or (lambda m, v: m.instance(x, v, k))
        return x

    def parent(self, n, **kw):
        x = arg(n)
        self.kind(x, K.Inst(**kw))
        return x

    def func(self, n, makes=None):
        x = arg(n)
        self.kind(x, Maker(makes) if makes is not None else K.FuncK(types.FunctionType))
        self.expect[x] = lambda m, v: m.eq(x, v)
        return x


class Maker(K.FuncK):
    """A user function that returns an instance of a scenario class."""

    def __init__(self, makes):
        super().__init__(types.FunctionType)
        self.makes = makes

    def call(self, it, f, args, kw, st):
        st = st.clone()
        st.event(Op('usercall', f, *[T('star', a.v) if hasattr(a, 'v') and type(a).__name__ == 'Star' else a for a in args], site=it.site))
        return [(st, it.alloc(st, HObj(T('cls', self.makes), it.models.term_call(it, st, 'call', f, args, kw))))]


# -------------------------------------------------------------------- match
class Match:
    """Compare a restored value with the scenario object it stands for."""

    def __init__(self, it, scene, st, refs=True, keys=False, only_refs=False):
        self.it = it
        self.only_refs = only_refs
        self.owner = {}
        self.scene = scene
        self.st = st
        self.refs = refs
        self.keys = keys
        self.memo = {}
        self.busy = set()
        self.bad = []
        self.lost = False
        self.path = []

    def fail(self, msg, ref=False):
        if self.only_refs and not ref:
            return
        self.bad.append(f"{''.join(self.path) or 'result'}: {msg}")

    def at(self, p, x, v):
        self.path.append(p)
        self.same(x, v)
        self.path.pop()

    def show(self, v):
        from .scenario import deref
        if isinstance(self.it.hv(self.st, v), HUnk):
            self.lost = True
        return deref(self.it, self.st, v, 4)[:300]

    def events(self, name):
        return [e for e in flat_events(self.st.events) if e.name == name]

    def same(self, x, v):
        """x: scenario value; v: restored abstract value."""
        if isinstance(v, Raise):
            return self.fail(f'{v} at {v.site}')
        if isinstance(self.it.hv(self.st, v), HUnk):
            self.lost = True
        if isinstance(x, Const):
            return self.eq(x, v)
        if isinstance(x, TupV):
            return self.seq(x, v, TupV, [s.v for s in x.segs])
        if isinstance(x, (Ref,)):
            return self.eq(x, v)
        if x in self.scene.identity and self.refs:
            if x in self.memo:
                if self.memo[x] != v:
                    self.fail(f'is not the object restored for {x} elsewhere but {self.show(v)}', ref=True)
                return None
            self.memo[x] = v
            if isinstance(v, Addr) and self.owner.setdefault(v, x) != x:
                self.fail(f'the objects restored for {x} and {self.owner[v]} are the same', ref=True)
        elif x in self.scene.identity:
            if (x, v) in self.busy:
                return None
            self.busy.add((x, v))
        e = self.scene.expect.get(x)
        if e is not None:
            return e(self, v)
        if isinstance(x, T) and x.op == 'cls':
            return self.eq(x, v)
        return self.eq(T('restored', x), v)

    def eq(self, x, v):
        if x != v and not self.copyeq(x, v):
            self.fail(f'expected {x}, got {self.show(v)}')

    def copyeq(self, x, v):
        return isinstance(v, T) and v.op == 'copy' and v.args[0] == x

    def segs(self, v, cls):
        if cls is TupV:
            return v.segs if isinstance(v, TupV) else None
        h = self.it.hv(self.st, v)
        return h.segs if isinstance(h, cls) else None

    def seq(self, x, v, cls, elems):
        segs = self.segs(v, cls)
        if segs is None:
            return self.fail(f"expected a {cls.__name__.lstrip('H').lower().replace('tupv', 'tuple')}, got {self.show(v)}")
        self.elems(x, segs, elems)

    def elems(self, src, segs, elems, wrap=lambda s: s.v):
        if elems is not None:
            if len(segs) != len(elems) or any(not isinstance(s, (Item, Op)) for s in segs):
                return self.fail(f'expected {len(elems)} elements, got {segs}')
            for i, (e, s) in enumerate(zip(elems, segs)):
                self.at(f'[{i}]', e, wrap(s))
            return None
        segs = [s for s in segs if not (isinstance(s, Each) and all(not a.elems for a in s.alts))]
        if not segs and self.st.facts.get(T('nonempty', src)) is False:
            return None
        if len(segs) != 1 or not isinstance(segs[0], Each) or segs[0].src != src or segs[0].partial is not None:
            return self.fail(f'expected every element of {src} once and in order, got {list(segs)}')
        for a in segs[0].alts:
            if len(a.elems) != 1:
                return self.fail(f'element of {src} becomes {len(a.elems)} elements when {facts(a.facts)}')
            self.at('[i]', T('elem', src), wrap(a.elems[0]))
        return None

    def mapping(self, x, v, entries, segs=None):
        if segs is None:
            h = self.it.hv(self.st, v)
            if not isinstance(h, HDict):
                return self.fail(f'expected a dict, got {self.show(v)}')
            if h.cls is not None and h.cls != Ref('builtins.dict'):
                return self.fail(f'expected a dict, got a {h.cls}')
            segs = h.segs
        self.entries(x, segs, entries)

    def key(self, k):
        """The key a restored mapping must have for a scenario key."""
        if isinstance(k, T) and k.op == 'nkey':
            return T('restored', k)
        return k

    def entries(self, src, segs, entries):
        """segs: Entry and Each segments of the restored mapping."""
        if entries is not None:
            got = {}
            for s in segs:
                if not isinstance(s, Entry):
                    return self.fail(f'unexpected content {s}')
                got[s.k] = s.v
            for k, e in entries:
                kk = self.find_key(k, got)
                if kk is None:
                    self.fail(f'entry {k} is missing among {sorted(map(str, got))}')
                else:
                    self.at(f'[{k}]', e, got.pop(kk))
            for k in got:
                self.fail(f'unexpected entry {k}')
            return None
        parts = self.scene.world.partition(src, self.st)
        for s in segs:
            if not isinstance(s, Each) or s.src != src:
                if isinstance(s, Entry):
                    return self.fail(f'unexpected entry {s.k}: {self.show(s.v)}')
                return self.fail(f'unexpected content {s}')
            if s.partial is not None:
                return self.fail(f'not all entries of {src} are kept')
        for label, key in parts:
            part = T('part', src, Const(label))
            combos = [({}, [])]
            for s in segs:
                nxt = []
                for f, el in combos:
                    for a in s.alts:
                        af = dict(a.facts)
                        if af.get(part, True) is not True:
                            continue
                        if any(isinstance(q, T) and q.op == 'part' and q.args[0] == src and b and q != part for q, b in a.facts):
                            continue
                        if any(f.get(q, b) != b for q, b in af.items()):
                            continue
                        nxt.append(({**f, **af}, el + list(a.elems)))
                combos = nxt
            for f, el in combos:
                el = [e for e in el if isinstance(e, Entry)]
                cond = facts([(q, b) for q, b in f.items() if q != part])
                if len(el) != 1:
                    self.fail(f"an entry of {src} with a {label} key {key} {'is dropped' if not el else 'appears several times'}{cond}")
                    continue
                want = self.key(key)
                if el[0].k != want:
                    self.fail(f'the {label} key {key} becomes {self.show(el[0].k)}{cond}')
                self.at(f'[{key}]', T('val', src, Const(label)), el[0].v)
            if not combos and segs:
                self.fail(f'entries of {src} with a {label} key are dropped')
        if not segs and self.st.facts.get(T('nonempty', src)) is not False:
            self.fail(f'the entries of {src} are dropped')
        return None

    def find_key(self, k, got):
        if k in got:
            return k
        if isinstance(k, (TupV,)) or (isinstance(k, T) and k in self.scene.expect):
            for g in got:
                m = Match(self.it, self.scene, self.st, self.refs, self.keys)
                m.owner = dict(self.owner)
                m.memo = dict(self.memo)
                m.same(k, g)
                if not m.bad:
                    return g
        if T('restored', k) in got:
            return T('restored', k)
        return None

    # ------------------------------------------------------------ instances
    def log(self, v):
        """Split the log of an instance: attributes, items, calls."""
        h = self.it.hv(self.st, v)
        attrs, items, calls = [], [], []
        c = self.it.unrestored(h.cls)
        if self.scene is not None and isinstance(c, T) and c.op == 'cls':
            # what the constructor sets
            attrs = [Entry(n, e) for n, e in getattr(self.scene.world.kind(c.args[0], self.st), 'made', ())]

        def put(lst, e):
            for i, o in enumerate(lst):
                if isinstance(o, Entry) and o.k == e.k:
                    lst[i] = e
                    return
            lst.append(e)

        def contents(d):
            dh = self.it.hv(self.st, d)
            return dh.segs if isinstance(dh, HDict) else None
        def grown(i):
            return 0 <= i < sum(isinstance(c, Op) and c.name == 'call' and c.args[0] == Const('append') for c in calls) == len(calls)
        for s in h.segs:
            if isinstance(s, Op):
                if s.name == 'setattr' and s.args[0] == Const('__dict__'):
                    c = contents(s.args[1])
                    attrs = list(c) if c is not None else [s]
                elif s.name == 'setattr':
                    put(attrs, Entry(s.args[0], s.args[1]))
                elif s.name == 'setitem' and isinstance(s.args[0], Const) and isinstance(s.args[0].v, int) and grown(s.args[0].v):
                    n = [i for i, c in enumerate(calls) if c.args[0] == Const('append')][s.args[0].v]
                    calls[n] = Op('call', Const('append'), s.args[1])
                elif s.name == 'setitem':
                    put(items, Entry(s.args[0], s.args[1]))
                elif s.name == 'call' and s.args[0] == Const('__setitem__'):
                    put(items, Entry(s.args[1], s.args[2]))
                elif s.name in ('dict_setitem',):
                    put(attrs, Entry(s.args[0], s.args[1]))
                else:
                    calls.append(s)
            elif isinstance(s, Each):
                sets = {'setattr': [], 'setitem': [], 'call': []}
                for a in s.alts:
                    b = {'setattr': [], 'setitem': [], 'call': []}
                    for e in a.elems:
                        if isinstance(e, Op) and e.name == 'call' and e.args[0] == Const('__setitem__'):
                            e = Op('setitem', e.args[1], e.args[2])
                        if isinstance(e, Op) and e.name in ('setattr', 'setitem'):
                            b[e.name].append(Entry(e.args[0], e.args[1]))
                        else:
                            b['call'].append(e)
                    for n in sets:
                        sets[n].append(Alt(a.facts, tuple(b[n])))
                for n, dst in (('setattr', attrs), ('setitem', items), ('call', calls)):
                    if any(a.elems for a in sets[n]):
                        dst.append(Each(s.src, sets[n], s.partial))
            else:
                calls.append(s)
        return h, attrs, items, calls

    def obj(self, x, v, k, ctor):
        h = self.it.hv(self.st, v)
        if not isinstance(h, HObj):
            self.fail(f'expected an instance of cls({x}), got {self.show(v)}')
            return None
        if self.it.unrestored(h.cls) != T('cls', x):
            self.fail(f'expected an instance of cls({x}), got one of {h.cls}')
            return None
        if ctor is not None:
            self.ctor(h.ctor, ctor)
        return self.log(v)

    def ctor(self, got, want):
        """want: (op, callee, args) with scenario args."""
        op, f, args = want[:3]
        kw = want[3] if len(want) > 3 else []
        if got.op not in (op if isinstance(op, tuple) else (op,)) or self.it.unrestored(got.args[0]) != f:
            return self.fail(f'created by {self.show(got)} instead of {op} of {f}')
        pos = [a for a in got.args[1:] if not (isinstance(a, T) and a.op == 'kw')]
        kws = {a.args[0].v: a.args[1] for a in got.args[1:] if isinstance(a, T) and a.op == 'kw'}
        if len(pos) != len(args):
            return self.fail(f'created with {len(pos)} arguments instead of {len(args)}: {self.show(got)}')
        for i, (a, g) in enumerate(zip(args, pos)):
            self.at(f'(arg {i})', a, g)
        if set(kws) != {n for n, _ in kw}:
            return self.fail(f'created with keywords {sorted(kws)} instead of {[n for n, _ in kw]}')
        for n, a in kw:
            self.at(f'({n}=)', a, kws[n])
        return None

    def instance(self, x, v, k, ctor=None, attrs='dict', items=None, calls=()):
        r = self.obj(x, v, k, ctor or (('new', 'ctor'), T('cls', x), []))
        if r is None:
            return
        h, a, i, c = r
        self.attr_check(x, a, k, attrs)
        if items is None and k.is_dict():
            items = 'dict'
        if items == 'dict':
            self.path.append('{items}')
            self.entries(x, i, k._entries)
            self.path.pop()
        elif i:
            self.fail(f'unexpected items {i}')
        if not calls and any(issubclass(t, (list, set)) for t in k.py):
            m = Const('append' if any(issubclass(t, list) for t in k.py) else 'add')
            self.path.append('{elements}')
            self.grown(x, c, k, m)
            self.path.pop()
            return
        self.calls(c, calls)

    def grown(self, x, c, k, m):
        def wrap(op):
            if isinstance(op, Op) and op.name == 'call' and op.args[0] == m:
                return op.args[1]
            return T('unexpected', Const(str(op)))
        self.elems(x, c, k.elems, wrap)

    def attr_check(self, x, a, k, attrs):
        self.path.append('{attributes}')
        if attrs == 'dict':
            if k.has_dict:
                self.entries(T('attr', x, Const('__dict__')), a, k.dict_entries)
            else:
                self.entries(x, a, [(Const(n) if isinstance(n, str) else n, e) for n, e in k.attrs.items()])
        elif attrs is None:
            if a:
                self.fail(f'unexpected attributes {a}')
        else:
            attrs(self, a)
        self.path.pop()

    def calls(self, got, want):
        """want: [(method name, [scenario args])]"""
        if len(got) != len(want):
            return self.fail(f'expected the calls {[w[0] for w in want]}, got {got}')
        for (n, args), g in zip(want, got):
            if not isinstance(g, Op) or g.name != 'call' or g.args[0] != Const(n) or len(g.args) - 1 != len(args):
                return self.fail(f'expected a call of {n}, got {g}')
            for j, (e, v) in enumerate(zip(args, g.args[1:])):
                self.at(f'.{n}(arg {j})', e, v)
        return None


def flat_events(evs):
    for e in evs:
        if isinstance(e, Each):
            for a in e.alts:
                yield from flat_events(a.elems)
        else:
            yield e


def facts(fs):
    fs = [(q, b) for q, b in fs]
    if not fs:
        return ''
    return ' when ' + ' and '.join(sorted(('' if b else 'not ') + str(q) for q, b in fs))
