"""Run one shard of a check: python -m mc.shard ID INDEX OUT   (mode in MC_MODE)."""
import importlib
import json
import os
import sys
import traceback

EXT = ('MTfit.probability.cprobability', 'MTfit.convert.cmoment_tensor_conversion',
       'MTfit.algorithms.cmarkov_chain_monte_carlo', 'MTfit.extensions.cscatangle')


class Blocker(object):
    def find_spec(self, name, path=None, target=None):
        if name in EXT or name.split('.')[-1] in ('cprobability', 'cmoment_tensor_conversion',
                                                  'cmarkov_chain_monte_carlo', 'cscatangle'):
            raise ImportError('blocked by the harness: ' + name)
        return None


def main():
    try:                       # do not outlive the check
        import ctypes
        ctypes.CDLL(None).prctl(1, 9)
    except Exception:
        pass
    cid, index, out = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    mode = os.environ.get('MC_MODE', 'c')
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import numpy as np
    import warnings
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    from mc.core import Recorder, StopShard, from_mtfit
    mod = importlib.import_module('checks.' + cid.lower())
    shard = mod.shards(tier, seed)[index]
    if mode == 'py':
        sys.meta_path.insert(0, Blocker())
    import MTfit
    src = os.environ['MC_SRC']
    if not os.path.realpath(MTfit.__file__).startswith(os.path.realpath(src)):
        print('MTfit imported from %s, expected %s' % (MTfit.__file__, src))
        sys.exit(3)
    if mode == 'c':
        for e in EXT:
            m = importlib.import_module(e)
            if not m.__file__.endswith('.so'):
                sys.exit(3)
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    import gc
    gc.collect = lambda *a, **k: 0     # MTfit calls it per task; only speed, the automatic collector still runs
    R = Recorder()
    res = {'status': 'ok'}
    # MTfit prints a lot; keep our own stdout apart
    devnull = open(os.environ.get('MC_SHARD_LOG', os.devnull), 'w')
    real = sys.stdout
    if not os.environ.get('MC_VERBOSE'):
        sys.stdout = devnull
    try:
        getattr(mod, shard['fn'])(R, **shard.get('kw', {}))
    except StopShard:
        pass
    except BaseException as e:
        tb = traceback.format_exc()
        if isinstance(e, Exception) and from_mtfit(e):
            R.fail('exception:%s:%s' % (shard['fn'], type(e).__name__),
                   'the code raised %s: %s' % (type(e).__name__, str(e)[:300]), {'traceback': tb[-3000:]})
        elif isinstance(e, (ValueError, LookupError, ArithmeticError)):
            # what the code returned could not even be compared with the oracle (wrong shape, missing entry)
            R.fail('unusable:%s:%s' % (shard['fn'], type(e).__name__),
                   'a result of the code has a form the oracle cannot be compared with: %s' % str(e)[:300], {'traceback': tb[-3000:]})
        else:
            res['status'] = 'error'
            res['error'] = tb[-4000:]
    finally:
        sys.stdout = real
    res.update(R.dump())
    with open(out, 'w') as f:
        json.dump(res, f)
    sys.stdout.flush()
    # leave without running atexit handlers of libraries or joining stray threads
    os._exit(0)


if __name__ == '__main__':
    main()
