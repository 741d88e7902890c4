"""Run the rules of one property and report.

    python3 -m sa.check C01

Exit 0: every obligation that could be decided holds (or is a listed finding).
Exit 1: an obligation is violated; a VIOLATION line names the replay file.
Exit 2: the analysis lost its anchors or most of its obligations.
"""

import importlib
import json
import os
import pickle
import re
import signal
import sys
import time
import traceback

from .interp import Limit
from .scenario import AnchorError, Ctx, deref
from .shapes import Match, flat_events
from .values import HUnk, Raise, T, UNSUPPORTED, Addr, Const, Ref

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')

RULES = {}       # property -> [function(run) yielding (id, thunk)]
TEXT = {}        # property -> rule text


def rule(*props):
    def deco(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return deco


class Undecided(Exception):
    pass


class Ob:
    def __init__(self, oid):
        self.oid = oid
        self.fails = []
        self.unknown = []
        self.paths = 0
        self.visited = ()
        self.wall = 0

    def fail(self, msg, site=None):
        self.fails.append((msg, str(site) if site is not None else None))

    def undecided(self, why):
        self.unknown.append(why)

    @property
    def status(self):
        if self.fails:
            return 'violated'
        return 'undecided' if self.unknown else 'holds'


class Run:
    """What the rules of a property use to look at the program."""

    def __init__(self, prop, tier='quick', ctx=None):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.ctx = ctx or Ctx()
        self.it = self.ctx.it
        self.obs = []
        self.ob = None
        self.extra = {}
        self.strict = prop in ('C16', 'C17')   # nothing built on the way may be lost

    # ------------------------------------------------------------ outcomes
    def outcome(self, st, v, what, allow=()):
        """True when v is an ordinary result; failures are recorded."""
        self.ob.paths += 1
        if not isinstance(v, Raise):
            return True
        if v.exc == UNSUPPORTED:
            self.ob.undecided(f'{what}: {v.val} at {v.site}')
            return False
        if v.exc in allow:
            return False
        self.fail(st, f'{what} raises {v.exc} ({v.val})' if not (isinstance(v.exc, T) and v.exc.op == 'divergence')
                  else f'{what} does not terminate: {v.val} contains itself', v.site)
        return False

    def fail(self, st, msg, site=None):
        u = self.doubt(st) if st is not None else None
        if u:
            self.ob.undecided(f'{u} ({msg})')
            return
        f = facts_of(st) if st is not None else ''
        self.ob.fail(msg + (f' [when {f}]' if f else ''), site)

    def doubt(self, st):
        """A reason not to trust a mismatch on this path."""
        for a in st.facts:
            if lost(self.it, st, a):
                return f'depends on {a}, whose content the analysis lost'
        for e in flat_events(st.events):
            if e.name == 'unmodelled' and getattr(e.args[0], 'name', None) not in BENIGN:
                return f'goes through {e.args[0]}, which is not modelled'
        if self.strict:
            for a, h in st.heap.items():
                if isinstance(h, HUnk):
                    return f'the content of {a} is lost: {h}'
        return None

    def enc(self, S, root=None, st=None, allow=(), **opts):
        out = []
        for s, v in self.ctx.encode(root if root is not None else S.root, S.world, st, **opts):
            if self.outcome(s, v, 'encode', allow):
                out.append((s, v))
        return out

    def dec(self, S, text, st=None, allow=(), **opts):
        out = []
        for s, v in self.ctx.decode(text, S.world, st, **opts):
            if self.outcome(s, v, 'decode', allow):
                out.append((s, v))
        return out

    def match(self, S, st, x, v, refs=True, only_refs=False):
        m = Match(self.it, S, st, refs, only_refs=only_refs)
        m.same(x, v)
        if m.bad:
            if m.lost:
                self.ob.undecided(f'content lost: {m.bad[0]}')
            else:
                self.fail(st, '; '.join(m.bad[:3]))
        return m

    def round_trip(self, S, enc=None, dec=None, refs=True, only_refs=False):
        enc, dec = enc or {}, dec if dec is not None else {k: v for k, v in (enc or {}).items() if k in DECODE_OPTS}
        n = 0
        for st, text in self.enc(S, **enc):
            for s2, v in self.dec(S, text, st, **dec):
                n += 1
                self.match(S, s2, S.root, v, refs, only_refs)
        if not n and not self.ob.fails and not self.ob.unknown:
            self.ob.undecided('no path')

    # ------------------------------------------------------------ running
    def one(self, oid, thunk):
        ob = self.ob = Ob(oid)
        t = time.time()
        self.it.visited = set()
        self.ctx.depths = {}
        left = self.deadline - t
        try:
            if left < 1:
                raise Limit('no time left')
            signal.setitimer(signal.ITIMER_REAL, min(left, OB_TIME))
            try:
                thunk()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Undecided as e:
            ob.undecided(str(e))
        except Limit as e:
            ob.undecided(f'limit: {e}')
        except RecursionError:
            ob.undecided('analysis recursion limit')
        except (AnchorError, LookupError, TypeError, AttributeError, ValueError, AssertionError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            ob.undecided(f'analyser error {type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}')
        ob.visited = self.it.visited
        ob.wall = time.time() - t
        self.ob = None
        return ob

    def run(self):
        self.deadline = time.time() + TOTAL_TIME

        def stop(*_):
            raise Limit('time')
        signal.signal(signal.SIGALRM, stop)
        todo = [(oid, thunk) for f in RULES[self.prop] for oid, thunk in f(self)]
        seen = set()
        for oid, _ in todo:
            assert oid not in seen, f'two obligations named {oid}'
            seen.add(oid)
        jobs = min(os.cpu_count() or 1, 8, max(1, len(todo) // 4))
        if jobs == 1:
            self.obs = [self.one(*x) for x in todo]
            return
        pipes = []
        for j in range(jobs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    self.extra = {}
                    out = [(i, self.one(*todo[i])) for i in range(j, len(todo), jobs)]
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump((out, self.extra), f)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            pipes.append((pid, r))
        res = {}
        for pid, r in pipes:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                raise AnchorError('an analysis process failed')
            out, extra = pickle.loads(data)
            res.update(out)
            for k, v in extra.items():
                self.extra[k] = self.extra[k] + v if k in self.extra else v
        self.obs = [res[i] for i in range(len(todo))]


def lost(it, st, v):
    if isinstance(v, Addr):
        return isinstance(it.h(st, v), HUnk)
    return isinstance(v, T) and any(lost(it, st, a) for a in v.args)


OB_TIME = 90
TOTAL_TIME = 600
DECODE_OPTS = {'keys', 'backend', 'handle_readonly'}


BENIGN = set()


def facts_of(st):
    fs = [('' if b else 'not ') + str(a) for a, b in st.facts.items()]
    return ' and '.join(fs[-4:])[:400]


# ------------------------------------------------------------------ findings
def known_findings(prop):
    out = {}
    try:
        with open(KNOWN, encoding='utf-8') as f:
            for line in f:
                m = re.match(r'KNOWN property=(\S+) key="([^"]*)" (.*)', line)
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return out


def suspects(bad, good, n=5):
    """Statements on the failing analyses, rarest on the holding ones first."""
    gb = {}
    for o in good:
        for s in o.visited:
            gb[s] = gb.get(s, 0) + 1
    fb = {}
    for o in bad:
        for s in o.visited:
            fb[s] = fb.get(s, 0) + 1
    total = max(len(bad), 1)

    def score(s):
        ef, ep = fb[s], gb.get(s, 0)
        return ef / ((total * (ef + ep)) ** 0.5)
    return [f'{f}:{ln} in {q}' for (f, q, ln) in sorted(fb, key=lambda s: (-score(s), s))[:n]]


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(argv) > 1 and argv[1] in ('quick', 'thorough'):
        tier = argv[1]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    sys.setrecursionlimit(12000)
    for m in MODULES:
        importlib.import_module(m)
    if prop not in RULES:
        print(f'error: no rules for {prop}')
        return 2
    try:
        run = Run(prop, tier)
        run.run()
    except (AnchorError, LookupError, SyntaxError) as e:
        print(f'error: {prop}: {e}')
        return 2
    return report(run, prop, tier, seed, t0)


def report(run, prop, tier, seed, t0):
    known = known_findings(prop)
    bad = [o for o in run.obs if o.status == 'violated']
    holds = [o for o in run.obs if o.status == 'holds']
    und = [o for o in run.obs if o.status == 'undecided']
    listed = [o for o in bad if o.oid in known]
    new = [o for o in bad if o.oid not in known]
    for o in run.obs:
        o.visited = {x for x in o.visited if x[0].startswith('jsonpickle')}   # not the client code
    seen = set().union(*[o.visited for o in run.obs]) if run.obs else set()
    cov = {
        'explanation': TEXT.get(prop, '') + ' Each obligation is one abstract scenario (or one construct); it is decided by '
                       'analysing the current source, never by running it.',
        'rule': TEXT.get(prop, ''),
        'obligations': len(run.obs),
        'discharged': len(holds),
        'undecided': len(und),
        'abstract_paths': sum(o.paths for o in run.obs),
        'functions_analysed': len({(f, q) for f, q, _ in seen}),
        'statements_analysed': len(seen),
        'files_analysed': sorted({f for f, _, _ in seen}),
        'samples': [f'{o.oid}: {o.status}, {o.paths} paths' for o in run.obs[:3] + run.obs[len(run.obs) // 2:len(run.obs) // 2 + 3]],
        'undecided_samples': [f'{o.oid}: {o.unknown[0][:200]}' for o in und[:5]],
        **run.extra,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 3),
          'assumptions': ASSUME + ASSUMPTIONS.get(prop, []),
          'violations': len(new)}
    out = os.environ.get('VERIF_OUT') or os.path.join(ROOT, 'evidence')
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, f'{prop}.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop}: {len(run.obs)} obligations, {len(holds)} hold, {len(bad)} violated, {len(und)} undecided; '
          f'{cov["abstract_paths"]} paths, {cov["functions_analysed"]} functions, {cov["statements_analysed"]} statements; {ev["wall_s"]} s')
    groups = {}
    for o in listed:
        groups.setdefault(known[o.oid], []).append(o)
    for text, os_ in groups.items():
        print(f'KNOWN-FINDING: property={prop} {text} ({len(os_)} obligations, first: {os_[0].oid}: {os_[0].fails[0][0][:200]})')
    for o in und[:6]:
        print(f'  undecided {o.oid}: {o.unknown[0][:300]}')
    if new:
        path = os.path.join(out, f'{prop}.violation.txt')
        sus = suspects(new, holds)
        with open(path, 'w', encoding='utf-8') as f:
            f.write(f'property {prop}\nrule: {TEXT.get(prop, "")}\nreplay: cd {ROOT} && python3 -m sa.check {prop}\n\n')
            f.write('constructs specific to the failing analyses:\n' + ''.join(f'  {s}\n' for s in sus) + '\n')
            for o in new:
                f.write(f'obligation: {o.oid}\n')
                for msg, site in o.fails[:5]:
                    f.write(f'  {msg}' + (f'  at {site}' if site else '') + '\n')
                f.write('\n')
        for o in new[:5]:
            print(f'  {o.oid}: {o.fails[0][0][:400]}' + (f' at {o.fails[0][1]}' if o.fails[0][1] else ''))
        print('  constructs: ' + '; '.join(sus[:4]))
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if not run.obs or len(und) * 2 > len(run.obs):
        print(f'error: {prop}: only {len(holds)} of {len(run.obs)} obligations could be decided')
        return 2
    return 0


ASSUME = ['The JSON backend returns an equal document with the member order kept.',
          'User classes are importable under the name they carry and their hooks have no side effects on the library.']
ASSUMPTIONS = {}
TECHNIQUE = {}
MODULES = ['sa.rules_trip', 'sa.rules_refs', 'sa.rules_keys', 'sa.rules_doc', 'sa.rules_state', 'sa.rules_backend', 'sa.rules_safe', 'sa.rules_opts', 'sa.rules_handlers', 'sa.rules_bounds', 'sa.rules_fail', 'sa.rules_missing', 'sa.rules_classes', 'sa.rules_malformed', 'sa.rules_vocab', 'sa.rules_ext', 'sa.rules_space', 'sa.rules_forward']

if __name__ == '__main__':
    # one copy of this module, however it was started
    from sa import check
    sys.exit(check.main(sys.argv[1:]))
