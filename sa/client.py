"""User code analysed together with the package.

The text below is parsed and interpreted abstractly like the package itself; it
is never imported or run.  mark(...) leaves an event the rules look at.
"""

import os

from .models import hook
from .program import REPO, ModuleInfo
from .values import NONE, Const, Op, Raise

HANDLERS = '''
from jsonpickle.handlers import BaseHandler
from verif_client import fail, mark


class H1(BaseHandler):
    def flatten(self, obj, data):
        mark('flatten', 'H1', obj, self.context)
        data['by'] = 'H1'
        return data

    def restore(self, data):
        mark('restore', 'H1', data, self.context)
        return ['H1', data['by']]


class H2(BaseHandler):
    def flatten(self, obj, data):
        mark('flatten', 'H2', obj, self.context)
        data['by'] = 'H2'
        return data

    def restore(self, data):
        mark('restore', 'H2', data, self.context)
        return ['H2', data['by']]


class H3(BaseHandler):
    """Its instances are false."""

    def __len__(self):
        return 0

    def flatten(self, obj, data):
        mark('flatten', 'H3', obj, self.context)
        data['by'] = 'H3'
        return data

    def restore(self, data):
        mark('restore', 'H3', data, self.context)
        return ['H3', data['by']]


class Fails(BaseHandler):
    def flatten(self, obj, data):
        fail()


class FailsLate(BaseHandler):
    def flatten(self, obj, data):
        data['first'] = self.context.flatten(obj.first, reset=False)
        fail()


class Returns(BaseHandler):
    def flatten(self, obj, data):
        return 'text'

    def restore(self, data):
        return None


'''

# parameters -> does it take the context (and as what)
SIGNATURES = {
    '': None,
    ', handler_context': 'plain',
    ', handler_context=None': 'plain',
    ', *, handler_context': 'plain',
    ', *, handler_context=None': 'plain',
    ', extra=1, *, handler_context=None': 'plain',
    ', **handler_context': 'dict',
    ', *handler_context': None,
    ', handler_context=None, /': None,
    ', **kwargs': None,
    ', *args': None,
    ', handler_contexts=None': None,
    ', context=None': None,
}


def signatures():
    out = ''
    for i, (sig, how) in enumerate(SIGNATURES.items()):
        got = {'': "'none'", ', **kwargs': 'kwargs', ', *args': 'args', ', handler_contexts=None': 'handler_contexts', ', context=None': 'context'}.get(sig, 'handler_context')
        out += f'''
class S{i}(BaseHandler):
    def flatten(self, obj, data{sig}):
        mark('got flatten', {got})
        return data

    def restore(self, obj{sig}):
        mark('got restore', {got})
        return None


class T{i}(S{i}):
    """Inherits both methods."""
'''
    for name, a, b in (('OnlyFlatten', ', handler_context=None', ''), ('OnlyRestore', '', ', handler_context=None')):
        out += f'''
class {name}(BaseHandler):
    def flatten(self, obj, data{a}):
        mark('got flatten', {'handler_context' if a else "'none'"})
        return data

    def restore(self, obj{b}):
        mark('got restore', {'handler_context' if b else "'none'"})
        return None
'''
    return out


@hook('verif_client.mark')
def mark(it, args, kw, st):
    st = st.clone()
    st.event(Op('mark', *args, site=it.site))
    return [(st, NONE)]


@hook('verif_client.fail')
def fail(it, args, kw, st):
    return [(st, Raise(it.client_error, Const('from the user'), it.site))]


def install(it):
    """Make the client known to the interpreter."""
    if 'client' not in it.prog.modules:
        src = HANDLERS + signatures()
        it.prog.modules['client'] = ModuleInfo('client', os.path.join(REPO, 'client.py'), src)
        it.load('client')
    return lambda name: it.entry('client', name)


def marks(events, name):
    return [e.args[1:] for e in events if e.name == 'mark' and e.args[0] == Const(name)]
