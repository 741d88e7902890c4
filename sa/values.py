"""Abstract values, container segments and states of the abstract interpreter."""


class V:
    """An immutable abstract value with structural equality."""

    __slots__ = ('_k', '_h')

    def __init__(self, *k):
        self._k = k
        self._h = hash((type(self).__name__, k))

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self._h == o._h and self._k == o._k)

    def __hash__(self):
        return self._h


class Const(V):
    """A constant of the program text."""

    __slots__ = ('v',)

    def __init__(self, v):
        super().__init__(type(v).__name__, v)
        self.v = v

    def __repr__(self):
        return repr(self.v)


class Ref(V):
    """A named object outside the analysed package (builtin, stdlib, numpy...)."""

    __slots__ = ('name',)

    def __init__(self, name):
        super().__init__(name)
        self.name = name

    def __repr__(self):
        return self.name[9:] if self.name.startswith('builtins.') else self.name


class T(V):
    """A term: a datum identified by how it was obtained."""

    __slots__ = ('op', 'args')

    def __init__(self, op, *args):
        super().__init__(op, args)
        self.op = op
        self.args = args

    def __repr__(self):
        if self.op == 'arg':
            return str(self.args[0])
        if self.op == 'in':
            return f'{self.args[0]} in {self.args[1]}'
        if self.op == 'attr':
            return f'{self.args[0]}.{self.args[1]}'
        return f"{self.op}({', '.join(map(str, self.args))})"


class Addr(V):
    __slots__ = ('n',)

    def __init__(self, n):
        super().__init__(n)
        self.n = n

    def __repr__(self):
        return f'@{self.n}'


class TupV(V):
    __slots__ = ('segs',)

    def __init__(self, segs):
        super().__init__(tuple(segs))
        self.segs = tuple(segs)

    def __repr__(self):
        return f"({', '.join(map(str, self.segs))})"


class IterV(V):
    """A one-shot iterable (generator, map, view) with known segments."""

    __slots__ = ('segs',)

    def __init__(self, segs):
        super().__init__(tuple(segs))
        self.segs = tuple(segs)

    def __repr__(self):
        return f"iter({', '.join(map(str, self.segs))})"


class FuncV(V):
    __slots__ = ('fn', 'clo', 'owner')

    def __init__(self, fn, clo=None, owner=None):
        super().__init__(fn, clo)
        self.fn = fn
        self.clo = clo
        self.owner = owner

    def __repr__(self):
        return self.fn.qual


class BoundV(V):
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        super().__init__(func, self_)
        self.func = func
        self.self = self_

    def __repr__(self):
        return f'{self.func}[{self.self}]'


class MethV(V):
    """A method of a value that is not a repo instance: ``x.name``."""

    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        super().__init__(obj, name)
        self.obj = obj
        self.name = name

    def __repr__(self):
        return f'{self.obj}.{self.name}'


class ClsV(V):
    __slots__ = ('info',)

    def __init__(self, info):
        super().__init__(info)
        self.info = info

    def __repr__(self):
        return self.info.qual


class ModV(V):
    __slots__ = ('name',)

    def __init__(self, name):
        super().__init__(name)
        self.name = name

    def __repr__(self):
        return f'module {self.name}'


class SuperV(V):
    __slots__ = ('cls', 'self')

    def __init__(self, cls, self_):
        super().__init__(cls, self_)
        self.cls = cls
        self.self = self_


class PartialV(V):
    __slots__ = ('f', 'args', 'kw')

    def __init__(self, f, args, kw):
        super().__init__(f, args, kw)
        self.f = f
        self.args = args
        self.kw = kw


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


def const(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- segments
class Item(V):
    __slots__ = ('v',)

    def __init__(self, v):
        super().__init__(v)
        self.v = v

    def __repr__(self):
        return repr(self.v)


class Entry(V):
    __slots__ = ('k', 'v')

    def __init__(self, k, v):
        super().__init__(k, v)
        self.k = k
        self.v = v

    def __repr__(self):
        return f'{self.k}: {self.v}'


class Op(V):
    """An operation applied to an opaque object, or an event of the run."""

    __slots__ = ('name', 'args', 'site')

    def __init__(self, name, *args, site=None):
        super().__init__(name, args)
        self.name = name
        self.args = args
        self.site = site

    def __repr__(self):
        return f"{self.name}({', '.join(map(str, self.args))})"


class Alt(V):
    """What one partition of a loop body contributes per iteration."""

    __slots__ = ('facts', 'elems')

    def __init__(self, facts, elems):
        super().__init__(facts, tuple(elems))
        self.facts = facts
        self.elems = tuple(elems)

    def __repr__(self):
        f = ' & '.join(sorted(('' if b else 'not ') + str(a) for a, b in self.facts))
        e = ', '.join(map(str, self.elems)) or 'nothing'
        return f'[{f}] {e}' if f else e


class Each(V):
    """For each element of ``src``, in order, one of ``alts``."""

    __slots__ = ('src', 'alts', 'partial')

    def __init__(self, src, alts, partial=None):
        super().__init__(src, tuple(alts), partial)
        self.src = src
        self.alts = tuple(alts)
        self.partial = partial

    def __repr__(self):
        p = ' (may stop early)' if self.partial is not None else ''
        return f"*each {self.src}{p}: {' | '.join(map(str, self.alts))}"


class Prior(V):
    """Unknown earlier content of a container."""

    __slots__ = ('tag',)

    def __init__(self, tag):
        super().__init__(tag)
        self.tag = tag

    def __repr__(self):
        return f'<{self.tag}>'


# ---------------------------------------------------------------- heap
class H(V):
    __slots__ = ()


class HList(H):
    __slots__ = ('segs',)

    def __init__(self, segs=()):
        super().__init__(tuple(segs))
        self.segs = tuple(segs)

    def with_segs(self, segs):
        return HList(segs)

    def __repr__(self):
        return f"[{', '.join(map(str, self.segs))}]"


class HSet(H):
    __slots__ = ('segs', 'frozen')

    def __init__(self, segs=(), frozen=False):
        super().__init__(tuple(segs), frozen)
        self.segs = tuple(segs)
        self.frozen = frozen

    def with_segs(self, segs):
        return HSet(segs, self.frozen)

    def __repr__(self):
        return f"{{{', '.join(map(str, self.segs))}}}"


class HDict(H):
    __slots__ = ('segs', 'cls')

    def __init__(self, segs=(), cls=None):
        super().__init__(tuple(segs), cls)
        self.segs = tuple(segs)
        self.cls = cls

    def with_segs(self, segs):
        return HDict(segs, self.cls)

    def __repr__(self):
        return f"{{{', '.join(map(str, self.segs))}}}"


class HInst(H):
    """An instance of a class of the analysed package."""

    __slots__ = ('cls', 'fields')

    def __init__(self, cls, fields=()):
        super().__init__(cls, tuple(fields))
        self.cls = cls
        self.fields = tuple(fields)

    def get(self, name):
        for k, v in self.fields:
            if k == name:
                return v
        return None

    def set(self, name, v):
        return HInst(self.cls, tuple((k, x) for k, x in self.fields if k != name) + ((name, v),))

    def delete(self, name):
        return HInst(self.cls, tuple((k, x) for k, x in self.fields if k != name))

    def __repr__(self):
        return f"<{self.cls} {', '.join(f'{k}={v}' for k, v in self.fields)}>"


class HObj(H):
    """An instance of an opaque class, with the log of what was done to it."""

    __slots__ = ('cls', 'ctor', 'segs')

    def __init__(self, cls, ctor, segs=()):
        super().__init__(cls, ctor, tuple(segs))
        self.cls = cls
        self.ctor = ctor
        self.segs = tuple(segs)

    def with_segs(self, segs):
        return HObj(self.cls, self.ctor, segs)

    def __repr__(self):
        return f"<{self.ctor}; {'; '.join(map(str, self.segs))}>"


class HIter(H):
    """An iterator with the segments it has left."""

    __slots__ = ('segs',)

    def __init__(self, segs=()):
        super().__init__(tuple(segs))
        self.segs = tuple(segs)

    def with_segs(self, segs):
        return HIter(segs)

    def __repr__(self):
        return f"iterator({', '.join(map(str, self.segs))})"


class HUnk(H):
    """A container whose content the analysis lost."""

    __slots__ = ('why',)

    def __init__(self, why):
        super().__init__(why)
        self.why = why

    def __repr__(self):
        return f'<unknown: {self.why}>'


# ---------------------------------------------------------------- control
class Raise:
    """Abrupt completion by exception ``exc`` (a class value) with ``val``."""

    __slots__ = ('exc', 'val', 'site')

    def __init__(self, exc, val=None, site=None):
        self.exc = exc
        self.val = val
        self.site = site

    def __eq__(self, o):
        return isinstance(o, Raise) and (self.exc, self.val) == (o.exc, o.val)

    def __hash__(self):
        return hash((self.exc, self.val))

    def __repr__(self):
        return f'raise {self.exc}'


UNSUPPORTED = 'unsupported'


def unsupported(why, site=None):
    return Raise(UNSUPPORTED, Const(why), site)


class State:
    __slots__ = ('env', 'heap', 'facts', 'events', 'depth')

    def __init__(self, env, heap, facts, events):
        self.env = env
        self.heap = heap
        self.facts = facts
        self.events = events

    def clone(self):
        return State(self.env, self.heap, self.facts, self.events)

    def setvar(self, name, v):
        c = self.env.get('%cell:' + name)
        if c is not None:
            self.put(c, self.heap[c].set('v', v))
            return
        e = dict(self.env)
        e[name] = v
        self.env = e

    def delvar(self, name):
        c = self.env.get('%cell:' + name)
        if c is not None:
            self.put(c, self.heap[c].delete('v'))
            return
        e = dict(self.env)
        e.pop(name, None)
        self.env = e

    def put(self, addr, h):
        e = dict(self.heap)
        e[addr] = h
        self.heap = e

    def assume(self, atom, b):
        e = dict(self.facts)
        e[atom] = b
        self.facts = e

    def event(self, op):
        self.events = self.events + (op,)


def subst_facts(facts):
    return frozenset(facts.items())
