"""Two copies of MTfit in one process: one with its compiled extensions, one with their import blocked.

    C, P = load()
    with C: ...      # sys.modules holds the compiled variant's MTfit modules
    C('MTfit.probability', 'polarity_ln_pdf')(...)   # attribute lookup and call inside the variant
"""
import importlib
import sys

from mc.shard import Blocker, EXT


class Variant(object):

    def __init__(self, name, blocked):
        self.name = name
        self.blocked = Blocker() if blocked else None
        self.mods = {}
        self.depth = 0
        self.saved = {}

    def __enter__(self):
        self.depth += 1
        if self.depth == 1:
            self.saved = take()
            sys.modules.update(self.mods)
            if self.blocked:
                sys.meta_path.insert(0, self.blocked)
        return self

    def __exit__(self, *a):
        self.depth -= 1
        if self.depth == 0:
            self.mods = take()
            sys.modules.update(self.saved)
            if self.blocked:
                sys.meta_path.remove(self.blocked)
        return False

    def get(self, module, attr=None):
        with self:
            m = importlib.import_module(module)
            return getattr(m, attr) if attr else m

    def call(self, fn, *args, **kw):
        with self:
            return fn(*args, **kw)


def take():
    out = {}
    for k in list(sys.modules):
        if k == 'MTfit' or k.startswith('MTfit.'):
            out[k] = sys.modules.pop(k)
    return out


def load():
    """the compiled variant is what the shard imported (mode 'c'); the other is imported afresh."""
    C, P = Variant('c', False), Variant('py', True)
    C.mods = take()
    with P:
        importlib.import_module('MTfit')
        for m in ('MTfit.probability', 'MTfit.inversion', 'MTfit.convert', 'MTfit.sampling', 'MTfit.algorithms', 'MTfit.extensions.scatangle',
                  'MTfit.algorithms.markov_chain_monte_carlo'):
            importlib.import_module(m)
    with C:
        for m in list(P.mods):
            if m not in EXT:
                importlib.import_module(m)
    for m, a in (('MTfit.probability.probability', 'cprobability'), ('MTfit.convert.moment_tensor_conversion', 'cmoment_tensor_conversion'),
                 ('MTfit.inversion', 'cprobability'), ('MTfit.extensions.scatangle', 'cscatangle')):
        assert C.get(m, a), (m, a)
        assert not P.get(m, a), (m, a)
    assert not [k for k in P.mods if k in EXT]
    assert C.get('MTfit.algorithms.markov_chain_monte_carlo', 'cmarkov_chain_monte_carlo')
    assert not P.get('MTfit.algorithms.markov_chain_monte_carlo', 'cmarkov_chain_monte_carlo')
    return C, P
