"""Compare the abstract interpreter with Python on small functions of our own.

Nothing of the analysed repository runs here: the snippets below are the test
of the analyser.  A mismatch is an error; 'lost' means the analyser gave up.

    python3 tools/selftest.py [-v]
"""

import ast
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sa.interp import Interp  # noqa: E402
from sa.kinds import W  # noqa: E402
from sa.program import ModuleInfo, Program  # noqa: E402
from sa.values import (  # noqa: E402
    Addr, Const, Entry, HDict, HInst, HIter, HList, HSet, HUnk, Item, IterV, Raise, Ref, State, T, TupV,
)

sys.setrecursionlimit(10000)


class Lost(Exception):
    pass


def concrete(it, st, v):
    if isinstance(v, Const):
        return v.v
    if isinstance(v, TupV):
        return tuple(seq(it, st, v.segs))
    if isinstance(v, IterV):
        return list(seq(it, st, v.segs))
    if isinstance(v, Addr):
        h = it.h(st, v)
        if isinstance(h, (HList, HIter)):
            return list(seq(it, st, h.segs))
        if isinstance(h, HSet):
            return set(seq(it, st, h.segs))
        if isinstance(h, HDict):
            out = {}
            for s in h.segs:
                if not isinstance(s, Entry):
                    raise Lost(s)
                out[concrete(it, st, s.k)] = concrete(it, st, s.v)
            return out
        if isinstance(h, HUnk):
            raise Lost(h.why)
    if isinstance(v, Ref):
        return ('ref', v.name.rsplit('.', 1)[-1])
    raise Lost(repr(v))


def seq(it, st, segs):
    for s in segs:
        if not isinstance(s, Item):
            raise Lost(s)
        yield concrete(it, st, s.v)


def norm(v):
    if isinstance(v, type) or callable(v):
        return ('ref', v.__name__)
    if isinstance(v, tuple):
        return tuple(norm(x) for x in v)
    if isinstance(v, list):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {norm(k): norm(x) for k, x in v.items()}
    return v


def main():
    src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'snippets.py'), encoding='utf-8').read()
    prog = Program()
    prog.modules['jsonpickle.zz_snippets'] = ModuleInfo('jsonpickle.zz_snippets', '/jsonpickle/zz_snippets.py', src)
    it = Interp(prog)
    it.world = W()
    it.load('jsonpickle.zz_snippets')
    env = {'__name__': 'zz_snippets'}
    exec(compile(src, 'snippets', 'exec'), env)  # our own snippets, never the repository
    names = [n.name for n in ast.parse(src).body if isinstance(n, ast.FunctionDef) and n.name.startswith('t_')]
    bad = lost = 0
    for n in names:
        try:
            want = ('value', norm(env[n]()))
        except Exception as e:  # noqa: BLE001
            want = ('raise', type(e).__name__)
        it.steps = 0
        try:
            outs = it.call(it.entry('jsonpickle.zz_snippets', n), [], {}, State({}, {}, {}, ()))
            got = []
            for st, v in outs:
                if isinstance(v, Raise):
                    if v.exc == 'unsupported':
                        raise Lost(f'{v.val} {v.site}')
                    got.append(('raise', v.exc.name.rsplit('.', 1)[-1] if isinstance(v.exc, Ref) else str(v.exc)))
                else:
                    got.append(('value', concrete(it, st, v)))
        except Lost as e:
            lost += 1
            print(f'lost     {n}: {e}')
            continue
        except Exception as e:  # noqa: BLE001
            bad += 1
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            print(f'CRASH    {n}: {type(e).__name__} {e} at {os.path.basename(tb.filename)}:{tb.lineno}')
            continue
        if got != [want]:
            if want in got and len(got) > 1:
                lost += 1
                print(f'imprecise {n}: {len(got)} outcomes')
            else:
                bad += 1
                print(f'MISMATCH {n}: {got[:3]} instead of {want}')
    print(f'{len(names)} snippets, {bad} wrong, {lost} lost')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
