"""Documents written down directly, and snapshots of documents."""

from .values import Addr, Const, Each, Entry, HDict, HList, Item, T, TupV, IterV


def doc(it, st, v):
    """The parsed document for a Python literal; terms stand for themselves."""
    if isinstance(v, dict):
        return it.alloc(st, HDict([Entry(Const(k) if isinstance(k, str) else k, doc(it, st, x)) for k, x in v.items()]))
    if isinstance(v, list):
        return it.alloc(st, HList([Item(doc(it, st, x)) for x in v]))
    if v is None or isinstance(v, (bool, int, float, str)):
        return Const(v)
    return v


def text(it, st, v):
    return T('jsontext', doc(it, st, v))


def parts(it, st, v, out=None):
    """Every heap value reachable from v."""
    out = {} if out is None else out
    if isinstance(v, Addr):
        if v not in out:
            out[v] = h = it.h(st, v)
            for s in getattr(h, 'segs', ()):
                seg_parts(it, st, s, out)
    elif isinstance(v, (TupV, IterV)):
        for s in v.segs:
            seg_parts(it, st, s, out)
    elif isinstance(v, T):
        for a in v.args:
            parts(it, st, a, out)
    return out


def seg_parts(it, st, s, out):
    if isinstance(s, Entry):
        parts(it, st, s.k, out)
        parts(it, st, s.v, out)
    elif isinstance(s, Item):
        parts(it, st, s.v, out)
    elif isinstance(s, Each):
        for a in s.alts:
            for e in a.elems:
                seg_parts(it, st, e, out)
