"""Recorder used by the explorations and small shared helpers."""
import json
import traceback


def jsonable(x, depth=0):
    import numpy as np
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:120]]
    if isinstance(x, np.ndarray):
        if x.size > 400:
            return 'array%s %r' % (x.shape, np.asarray(x).flatten()[:40].tolist())
        return jsonable(np.asarray(x).tolist(), depth + 1)
    if isinstance(x, (np.floating, float)):
        v = float(x)
        return v if v == v and abs(v) != float('inf') else repr(v)
    if isinstance(x, (np.integer, int)) and not isinstance(x, bool):
        return int(x)
    if isinstance(x, (str, bool)) or x is None:
        return x
    return repr(x)[:300]


class StopShard(BaseException):
    """A verdict is in and going on would only cost time."""


def exceeded():
    """How often scripted random numbers ran past their limit in this process."""
    import sys
    m = sys.modules.get('mc.seam')
    return m.S.exceeded if m is not None else 0


class Recorder(object):
    """Counts what one shard explored and collects violations."""
    MAX_PER_KEY = 2
    MAX_KEYS = 60

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.counts = {}
        self.outcomes = {}
        self.notes = []
        self.capped = []
        self.endless = 0

    def state(self, n=1):
        self.states += int(n)

    def trans(self, n=1):
        self.transitions += int(n)

    def trace(self, n=1):
        self.traces += int(n)

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    def outcome(self, kind, value):
        s = self.outcomes.setdefault(kind, set())
        if len(s) < 100000:
            s.add(value)

    def cap(self, text):
        self.capped.append(text)

    def fail(self, key, what, data=None):
        self.counts[key] = self.counts.get(key, 0) + 1
        if self.counts[key] > self.MAX_PER_KEY or len(self.counts) > self.MAX_KEYS:
            return
        self.violations.append({'key': key, 'what': what, 'data': jsonable(data)})

    def check(self, ok, key, what, data=None):
        """One model prediction compared with the implementation."""
        self.traces += 1
        if not ok:
            self.fail(key, what, data)
        return bool(ok)

    def call(self, key, fn, *args, **kw):
        """Run a transition of the real code; an exception raised by it is a violation. Returns (ok, value)."""
        self.transitions += 1
        before = exceeded()
        try:
            v = fn(*args, **kw)
        except Exception as e:
            if not from_mtfit(e):
                raise
            self.fail('exception:' + key, 'raised %s: %s' % (type(e).__name__, str(e)[:200]),
                      {'args': args, 'kw': kw, 'tb': traceback.format_exc()[-1500:]})
            if exceeded() > before:
                self.no_end()
            return False, None
        if exceeded() > before:
            self.fail('endless:' + key, 'the code went on drawing random numbers without end', {'args': args, 'kw': kw})
            self.no_end()
            return False, None
        return True, v

    def no_end(self):
        self.endless += 1
        if self.endless >= 6:
            self.cap('stopped after %d calls that did not terminate' % self.endless)
            raise StopShard()

    def dump(self):
        return {'states': self.states, 'transitions': self.transitions, 'traces': self.traces,
                'samples': self.samples, 'violations': self.violations, 'counts': self.counts,
                'outcomes': dict((k, len(v)) for k, v in self.outcomes.items()), 'notes': self.notes,
                'capped': self.capped}


PYX = ('cprobability', 'cmoment_tensor_conversion', 'cmarkov_chain_monte_carlo', 'cscatangle')


def from_mtfit(exc):
    """True if the exception passed through MTfit's own code (not merely the harness' call of it)."""
    tb = exc.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if '/src/MTfit/' in f or 'MTfit/' in f and '/verif/' not in f or f.split('/')[-1].split('.')[0] in PYX and f.endswith('.pyx'):
            return True
        tb = tb.tb_next
    return False


def load_jsonl(path):
    return [json.loads(x) for x in open(path) if x.strip()]
