"""Drive the public entry points of the package over scenario objects."""

import ast

from .interp import Interp, Limit
from .kinds import W
from .values import (
    FALSE, NONE, TRUE, UNSUPPORTED, Addr, BoundV, ClsV, Const, Each, FuncV, HDict, HInst,
    HList, HSet, HUnk, Op, Prior, Raise, State, T, const, unsupported,
)


class AnchorError(Exception):
    pass


class Ctx:
    """One loaded program with the recursion of both sides closed."""

    def __init__(self, prog=None):
        self.it = Interp(prog)
        it = self.it
        for m in ('jsonpickle', 'jsonpickle.pickler', 'jsonpickle.unpickler', 'jsonpickle.handlers', 'jsonpickle.util', 'jsonpickle.backend'):
            if m not in it.prog.modules:
                raise AnchorError(f'module {m} not found')
            it.load(m)
        self.pickler = self.cls('jsonpickle.pickler', 'Pickler')
        self.unpickler = self.cls('jsonpickle.unpickler', 'Unpickler')
        self.fields = {}
        self.enc_knots = self.find_knots(self.pickler, 'flatten')
        self.dec_knots = self.find_knots(self.unpickler, 'restore')
        self.depths = {}
        self.trace = False
        for fn in self.enc_knots:
            it.knots[fn] = self.enc_knot
        for fn in self.dec_knots:
            it.knots[fn] = self.dec_knot
        self.probe = None
        self.watch = None
        self.discover()

    def cls(self, mod, name):
        v = self.it.entry(mod, name)
        if not isinstance(v, ClsV):
            raise AnchorError(f'{mod}.{name} is not a class')
        return v

    def find_knots(self, cls, public):
        """Methods the public entry hands its argument to, directly."""
        it = self.it
        f, _ = it.class_lookup(cls, public)
        if not isinstance(f, FuncV):
            raise AnchorError(f'{cls}.{public} not found')
        out = []
        seen = {f.fn}
        frontier = f.fn
        for _ in range(2):
            nxt = None
            param = frontier.node.args.args[1].arg
            for n in ast.walk(frontier.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and len(n.args) == 1 and isinstance(n.args[0], ast.Name) and n.args[0].id == param and not n.keywords:
                    if frontier is not f.fn and not self.is_returned(frontier.node, n):
                        continue
                    g, _ = it.class_lookup(cls, n.func.attr)
                    if isinstance(g, FuncV) and g.fn not in seen and required(g.fn.node) == 2:
                        if nxt is None or self.uses(g.fn.name) > self.uses(nxt.name):
                            nxt = g.fn
            if nxt is None:
                break
            out.append(nxt)
            seen.add(nxt)
            frontier = nxt
        if not out:
            raise AnchorError(f'no recursive method below {cls}.{public}')
        return out

    def uses(self, name):
        return sum(isinstance(n, ast.Attribute) and n.attr == name
                   for m in self.it.prog.modules.values() for n in ast.walk(m.tree))

    @staticmethod
    def is_returned(fn, call):
        for n in ast.walk(fn):
            if isinstance(n, ast.Return) and n.value is call:
                return True
            if isinstance(n, ast.Assign) and n.value is call:
                names = {t.id for t in n.targets if isinstance(t, ast.Name)}
                for r in ast.walk(fn):
                    if isinstance(r, ast.Return) and isinstance(r.value, ast.Name) and r.value.id in names:
                        return True
        return False

    # -------------------------------------------------------------- knots
    def opaque(self, it, v, st):
        if not isinstance(v, T):
            return False
        k = it.kind(v, st)
        if k is None:
            return it.typeof(v, st)[0] is None
        return k.opaque

    def grow(self, it, ctx, child, st):
        h = it.hv(st, ctx)
        if not isinstance(h, HInst):
            return
        for f in self.fields.get(h.cls, ()):
            a = h.get(f)
            hh = it.hv(st, a)
            # the second time a value is met its parts are known already
            if hasattr(hh, 'segs') and not mentions(hh.segs, child):
                st.put(a, hh.with_segs(hh.segs + (Prior(child),)))

    def enc_knot(self, it, f, args, kw, st):
        if len(args) < 2:
            return None
        v = args[1]
        if self.watch is not None:
            self.watch(args[0], st)
        if self.opaque(it, v, st):
            if self.probe is not None:
                self.probe(args[0], st)
            st = st.clone()
            st.event(Op('child', v, site=it.site))
            self.grow(it, args[0], v, st)
            return [(st, T('flat', v))]
        return self.recurse(it, f, args, kw, st, 'enc')

    def dec_knot(self, it, f, args, kw, st):
        if len(args) < 2:
            return None
        v = args[1]
        if isinstance(v, T) and v.op == 'flat':
            if self.probe is not None:
                self.probe(args[0], st)
            y = v.args[0]
            st = st.clone()
            st.event(Op('rchild', y, site=it.site))
            self.grow(it, args[0], y, st)
            return [(st, T('restored', y))]
        if self.opaque(it, v, st):
            return [(st, T('restored', v))]
        if gone(it, st, v):
            return [(st, unsupported('content lost', it.site))]
        return self.recurse(it, f, args, kw, st, 'dec')

    def recurse(self, it, f, args, kw, st, side):
        """Unfold; the same argument nested in itself three times never ends."""
        key = (side, f.fn, args[1])
        n = self.depths.get(key, 0)
        if n >= 4:
            st = st.clone()
            st.event(Op('diverges', Const(f.fn.qual), args[1], site=it.site))
            return [(st, Raise(T('divergence'), args[1], it.site))]
        self.depths[key] = n + 1
        if self.trace:
            print('  knot', side, deref(it, st, args[1], 3)[:200], it.site)
        try:
            return it.call_func(f, args, kw, st)
        finally:
            self.depths[key] = n

    def discover(self):
        """Which fields of a traversal context grow with every object."""
        from .kinds import Seq
        x, y = T('arg', Const('x')), T('arg', Const('y'))
        d = T('datum', Const('d'))
        w = W({x: Seq(list, [y]), y: Seq(list, [d])})
        for cls, run in ((self.pickler, 'enc'), (self.unpickler, 'dec')):
            found = set()
            start = {}

            def probe(ctx, st):
                h = self.it.hv(st, ctx)
                for k, v in h.fields:
                    hh = self.it.hv(st, v)
                    if isinstance(hh, (HList, HDict, HSet)) and len(hh.segs) >= 2:
                        found.add(k)
            self.probe = probe
            try:
                if run == 'enc':
                    res = self.encode(x, w)
                    self._probe_doc = res
                else:
                    for st, v in self._probe_doc:
                        self.decode(v, w, st)
            finally:
                self.probe = None
            self.fields[cls] = found

    # -------------------------------------------------------------- runs
    def state(self):
        return State({}, {}, {}, ())

    def begin(self, world):
        self.it.world = world
        self.it.steps = 0

    def encode(self, x, world, st=None, **opts):
        self.begin(world)
        f = self.it.entry('jsonpickle', 'encode')
        opts.setdefault('backend', world.backend)
        return self.it.call(f, [x], {k: lift(v) for k, v in opts.items()}, st or self.state())

    def decode(self, text, world, st=None, **opts):
        self.begin(world)
        f = self.it.entry('jsonpickle', 'decode')
        opts.setdefault('backend', world.backend)
        return self.it.call(f, [text], {k: lift(v) for k, v in opts.items()}, st or self.state())


def gone(it, st, v):
    """v is, or is drawn from, something whose content the analysis lost."""
    while isinstance(v, T) and v.args and v.op in ('elem', 'val', 'index', 'elems'):
        v = v.args[0]
    return isinstance(v, Addr) and isinstance(it.h(st, v), HUnk)


def mentions(segs, child):
    for s in segs:
        if isinstance(s, Prior) and s.tag == child:
            return True
        if isinstance(s, Each) and s.partial is None and s.alts and all(mentions(a.elems, child) for a in s.alts):
            return True
    return False


def required(node):
    return len(node.args.args) - len(node.args.defaults)


def lift(v):
    if v is None or isinstance(v, (bool, int, str, float)):
        return Const(v)
    return v


def deref(it, st, v, depth=6):
    """A readable rendering of a value with heap content."""
    if depth == 0:
        return '...'
    if isinstance(v, Addr):
        h = it.h(st, v)
        if isinstance(h, (HList, HSet, HDict)):
            b = '[]' if isinstance(h, HList) else '{}'
            return b[0] + ', '.join(rseg(it, st, s, depth - 1) for s in h.segs) + b[1]
        if h is not None and hasattr(h, 'ctor'):
            return f'<{h.ctor}; ' + '; '.join(rseg(it, st, s, depth - 1) for s in h.segs) + '>'
        return repr(h)
    if isinstance(v, T):
        return f'{v.op}(' + ', '.join(deref(it, st, a, depth - 1) if isinstance(a, (T, Addr)) else str(a) for a in v.args) + ')'
    return repr(v)


def rseg(it, st, s, depth):
    from .values import Each, Entry, Item
    if isinstance(s, Item):
        return deref(it, st, s.v, depth)
    if isinstance(s, Entry):
        return f'{s.k}: {deref(it, st, s.v, depth)}'
    if isinstance(s, Op):
        return f"{s.name}({', '.join(deref(it, st, a, depth) for a in s.args)})"
    if isinstance(s, Each):
        return f'*each {s.src}: ' + ' | '.join('[' + ' & '.join(('' if b else 'not ') + str(a) for a, b in x.facts) + '] ' + ', '.join(rseg(it, st, e, depth) for e in x.elems) for x in s.alts)
    return repr(s)
