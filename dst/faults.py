"""Exceptions injected at call boundaries: the k-th call that the library makes to anything outside of itself fails."""

import _thread
import sys

# primitives that undo or guard something; making them fail is not a failure any code can contain
EXCLUDED = {'acquire', 'release', '__enter__', '__exit__', 'close', '__del__', 'interactive', 'ion', 'ioff', 'isinteractive', 'is_interactive',
            '_is_owned', 'locked', 'restore', 'clearcache', 'checkcache', 'unlink', 'remove', 'kill', 'wait', 'terminate', 'setdefault', 'pop', 'popitem', 'clear', 'close_all', 'closerange', 'settrace', 'setprofile',
            'set', 'seterr', 'switch_backend', 'seek', 'truncate', 'rmtree', 'cleanup', 'reset'}

EXC = {'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt, 'OSError': OSError, 'RuntimeError': RuntimeError,
       'FloatingPointError': FloatingPointError, 'LinAlgError': None, 'RecursionError': RecursionError}


def make_exc(name):
    if name == 'LinAlgError':
        import numpy.linalg as npl
        return npl.LinAlgError('injected')
    if name == 'OSError':
        return OSError(5, 'injected')
    return EXC[name]('injected')


class Injector:
    """Counts, in one thread, the calls that code of the library makes to anything outside of it; the chosen ones raise instead.

    Built on the CALL event of sys.monitoring: the exception surfaces at the call instruction, as if the callee had raised it at once.
    """

    TOOL = 4

    def __init__(self, prefix, at=None, exc='MemoryError', exclude=(), only=None, record=False):
        self.prefix = prefix
        self.at = set(at) if isinstance(at, (list, set, tuple)) else ({at} if at is not None else set())
        self.exc = exc
        self.exclude = EXCLUDED | set(exclude)
        self.only = only
        self.count = 0
        self.fired = []
        self.record = record
        self.names = []
        self.active = False
        self.thread = None

    def _call(self, code, offset, target, arg0):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        if not self.active or _thread.get_ident() != self.thread:
            return None
        f = getattr(target, '__func__', target)
        c = getattr(f, '__code__', None)
        if c is None and isinstance(f, type):
            if (getattr(f, '__module__', None) or '').split('.')[0] == 'pydtmc':
                return None
        elif c is not None and c.co_filename.startswith(self.prefix):
            return None
        name = getattr(f, '__name__', None) or type(f).__name__
        if name in self.exclude or (self.only is not None and not self.only(name)):
            return None
        if isinstance(f, type) and issubclass(f, BaseException):
            return None
        self.count += 1
        if self.record:
            self.names.append(name)
        if self.count in self.at:
            self.fired.append(f'{name}@{code.co_name}')
            self.active = False
            raise make_exc(self.exc)
        return None

    def start(self):
        m = sys.monitoring
        self.thread = _thread.get_ident()
        m.use_tool_id(self.TOOL, 'dst')
        m.restart_events()
        m.register_callback(self.TOOL, m.events.CALL, self._call)
        m.set_events(self.TOOL, m.events.CALL)
        self.active = True

    def pause(self):
        self.active = False

    def stop(self):
        m = sys.monitoring
        if m.get_tool(self.TOOL) is None:
            return
        self.active = False
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.CALL, None)
        m.free_tool_id(self.TOOL)

    def __enter__(self):
        self.start()
        return self

    def __exit__(self, *a):
        self.stop()
        return False
