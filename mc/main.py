"""Orchestrator: python mc/main.py ID [--tier quick|thorough] [--replay FILE] [--shard NAME]."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)


def known_findings(cid):
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('KNOWN-FINDING: property=%s ' % cid):
                rest = line.split('property=%s ' % cid, 1)[1]
                key, text = rest.split(' ', 1)
                assert key.startswith('key=')
                out.append((key[4:], text))
    return out


def shim(scratch):
    so = os.path.join(scratch, 'randshim.so')
    src = os.path.join(VERIF, 'mc', 'randshim.c')
    subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-o', so, src])
    return so


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--shard')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    cid = a.id.upper()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    if a.replay:
        rp = json.load(open(a.replay))
        a.shard = rp['shard']
        tier = rp['tier']
        print('replaying shard %s for %s' % (a.shard, rp['key']))
    from mc import build
    try:
        src, bscratch = build.source_tree()
    except build.BuildError as e:
        print(e)
        print('ERROR: /repo does not build')
        sys.exit(2)
    scratch = tempfile.mkdtemp(prefix='mtfit_mc_')
    try:
        rc = run(a, cid, tier, seed, src, scratch, t0, build.PY)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        if bscratch:
            shutil.rmtree(bscratch, ignore_errors=True)
    sys.exit(rc)


def run(a, cid, tier, seed, src, scratch, t0, PY):
    import importlib
    mod = importlib.import_module('checks.' + cid.lower())
    shards = mod.shards(tier, seed)
    timeout = getattr(mod, 'TIMEOUT', {}).get(tier, 500 if tier == 'quick' else 7200)
    env = dict(os.environ)
    env.update(PYTHONPATH=src + ':' + VERIF, MC_SRC=src, VERIF_TIER=tier, VERIF_SEED=str(seed),
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MC_SCRATCH=scratch)
    mpl = os.path.join(scratch, 'mpl')
    os.makedirs(mpl)
    env['MPLCONFIGDIR'] = mpl
    home_mpl = '/opt/vp/mplconfig'
    if os.path.isdir(home_mpl):
        try:
            shutil.copytree(home_mpl, mpl, dirs_exist_ok=True)
        except Exception:
            pass
    if getattr(mod, 'NEEDS_RANDSHIM', False):
        env['MC_RANDSHIM'] = shim(scratch)
    pending = [(i, s) for i, s in enumerate(shards) if a.shard is None or s['name'] == a.shard]
    pending.sort(key=lambda x: -x[1].get('cost', 1))
    running = []
    results = {}
    # a quick check has 900 s: a shard that runs past its own limit is reported, and nothing new is started after it;
    # what merely was not reached in time (a very slow machine) is recorded as not explored
    deadline = t0 + (800 if tier == 'quick' else 10 ** 9)
    njobs = max(1, min(a.j, os.cpu_count() or 4))
    while pending or running:
        if pending and (time.time() > deadline or any(r['status'] == 'timeout' for r in results.values())):
            for i, s in pending:
                results[i] = {'status': 'unreached'}
            pending = []
        while pending and len(running) < njobs:
            i, s = pending.pop(0)
            wd = os.path.join(scratch, 's%d' % i)
            os.makedirs(wd)
            out = os.path.join(wd, 'out.json')
            e = dict(env, MC_MODE=s.get('mode', 'c'), MC_WORK=wd, TMPDIR=wd)
            if a.v:
                e['MC_VERBOSE'] = '1'
            if s.get('randshim'):
                e['LD_PRELOAD'] = env['MC_RANDSHIM']
            log = open(os.path.join(wd, 'log'), 'w')
            p = subprocess.Popen([PY, '-m', 'mc.shard', cid, str(i), out], cwd=wd, env=e,
                                 stdout=log if not a.v else None, stderr=subprocess.STDOUT if not a.v else None,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            running.append((i, s, p, out, wd, time.time()))
        time.sleep(0.02)
        still = []
        for r in running:
            i, s, p, out, wd, st = r
            if p.poll() is None:
                if time.time() - st > timeout:
                    kill(p)
                    results[i] = {'status': 'timeout'}
                elif time.time() > deadline:
                    kill(p)
                    results[i] = {'status': 'unreached'}
                else:
                    still.append(r)
                continue
            kill(p)
            if os.path.exists(out):
                results[i] = json.load(open(out))
            else:
                tail = open(os.path.join(wd, 'log')).read()[-3000:]
                results[i] = {'status': 'crash', 'rc': p.returncode, 'log': tail}
            results[i]['wall'] = time.time() - st
            shutil.rmtree(wd, ignore_errors=True)
        running = still
    # ---- merge
    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'exhaustive': True,
           'shards': [], 'distinct_outcomes': {}, 'caps': []}
    errors, viols = [], []
    for i, s in enumerate(shards):
        if i not in results:
            continue
        r = results[i]
        if r['status'] == 'unreached':
            cov['exhaustive'] = False
            cov['caps'].append('%s: not explored within the time of a quick check' % s['name'])
            continue
        if r['status'] == 'timeout':
            viols.append((s, {'key': 'timeout:' + s['name'], 'what': 'exploration of shard %s did not terminate in %ds '
                              '(the code does not terminate)' % (s['name'], timeout), 'data': None}))
            continue
        if r['status'] == 'crash':
            if r['rc'] is not None and r['rc'] < 0 and r['rc'] != -9:
                viols.append((s, {'key': 'crash:' + s['name'], 'what': 'the code killed the process (signal %d)' % -r['rc'],
                                  'data': r['log'][-1500:]}))
            else:
                errors.append('%s: shard died rc=%s\n%s' % (s['name'], r['rc'], r['log']))
            continue
        if r['status'] == 'error':
            errors.append('%s: %s' % (s['name'], r['error']))
        cov['states'] += r['states']
        cov['transitions'] += r['transitions']
        cov['traces_validated_against_impl'] += r['traces']
        cov['samples'] += r['samples'][:2] if len(cov['samples']) < 12 else []
        cov['shards'].append({'name': s['name'], 'mode': s.get('mode', 'c'), 'states': r['states'],
                              'transitions': r['transitions'], 'traces': r['traces'], 'wall_s': round(r['wall'], 2),
                              'violation_counts': r['counts'], 'notes': r['notes']})
        for k, v in r['outcomes'].items():
            cov['distinct_outcomes'][s['name'] + ':' + k] = v
        if r['capped']:
            cov['exhaustive'] = False
            cov['caps'] += r['capped']
        for v in r['violations']:
            viols.append((s, v))
    known = known_findings(cid)
    seen_known, new = set(), []
    for s, v in viols:
        for j, (key, text) in enumerate(known):
            if v['key'] == key:
                seen_known.add(j)
                break
        else:
            new.append((s, v))
    for j, (key, text) in enumerate(known):
        if j in seen_known:
            print('KNOWN-FINDING: property=%s key=%s %s' % (cid, key, text))
        else:
            print('note: known finding key=%s did not reproduce in this run' % key)
    rdir = os.path.join(VERIF, 'replays')
    if not a.replay:
        import glob
        for old in glob.glob(os.path.join(rdir, cid + '-*.json')):
            os.remove(old)
    printed = {}
    for n, (s, v) in enumerate(new):
        if v['key'] in printed:
            continue
        printed[v['key']] = 1
        if len(printed) > 25:
            continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (cid, n))
        with open(path, 'w') as f:
            json.dump({'property': cid, 'tier': tier, 'shard': s['name'], 'mode': s.get('mode', 'c'), 'key': v['key'],
                       'what': v['what'], 'data': v['data']}, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (cid, path))
        print('    [%s/%s] %s: %s' % (s['name'], s.get('mode', 'c'), v['key'], v['what']))
    for e in errors:
        print('ERROR in check: ' + e)
    ev = {'property': cid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    if a.shard is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', cid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s tier=%s shards=%d states=%d transitions=%d traces=%d known=%d violations=%d errors=%d wall=%.1fs' % (
        cid, tier, len(results), cov['states'], cov['transitions'], cov['traces_validated_against_impl'],
        len(seen_known), len(new), len(errors), time.time() - t0))
    if new:
        return 1
    if errors:
        return 2
    return 0


def kill(p):
    import signal
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        p.wait(timeout=5)
    except Exception:
        pass


if __name__ == '__main__':
    main()
