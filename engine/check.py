"""One check: decide one property on /repo's current tree.  See DESIGN.md for the verdict rules."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

from . import build
from . import contract as C
from .worker import is_known

HERE = build.HERE
TRUSTED = [
    'lowering of Cython/Python source to the executable form that is interpreted symbolically (engine/lower.py; '
    'cross-checked: the project\'s own tests and run-time sampling of every contract run against it / the compiled code)',
    'symbolic semantics of Python/numpy operations used by the code under contract (engine/sym.py, engine/hlist.py)',
    'z3 (unsat answers), cvc5 as second opinion',
    'Cython and g++ compile the source faithfully; concrete replays use the compiled code',
    'finite doubles only strictly inside +-1.7976931348623157e308, no NaN (interval contracts); real arithmetic instead '
    'of double rounding where a contract is marked mode=real',
]


def load_modules():
    import contracts
    for m in pkgutil.iter_modules(contracts.__path__):
        importlib.import_module('contracts.' + m.name)


def closure(prop):
    """contracts deciding prop: its own and those of the callees it relies on"""
    ids = [k for k, c in C.REG.items() if prop in c.props]
    todo = list(ids)
    while todo:
        c = C.REG[todo.pop()]
        for u in c.uses:
            for d in C.BY_TARGET.get(u, ()):
                if d.cid not in ids:
                    ids.append(d.cid)
                    todo.append(d.cid)
    return ids


# ------------------------------------------------------------------------------------------------ proof stage
def _proof_child(cid, path, thorough):
    from . import prover
    import pickle
    try:
        c = C.REG[cid]
        if thorough:
            c.opts = dict(c.opts, timeout_ms=30000, deadline=c.opts.get('deadline', 60) * 4)
        r = prover.discharge(c)
    except BaseException as e:
        r = {'cid': cid, 'target': C.REG[cid].target, 'status': 'undecided', 'reason': 'engine: %r %s' % (
            e, traceback.format_exc()[-400:]), 'obligations': 0, 'discharged': 0, 'paths': 0, 'queries': 0,
            'solver_time': 0.0, 'time': 0.0, 'detail': {}, 'loops': [], 'bounded': C.REG[cid].bounded,
            'mode': C.REG[cid].mode, 'uses': list(C.REG[cid].uses)}
    with open(path + '.tmp', 'wb') as f:
        pickle.dump(r, f)
    os.rename(path + '.tmp', path)


def proofs(src, ids, workdir, thorough, out):
    """runs in a forked child: load the lowered code once, fork one process per contract"""
    import pickle
    from . import prover
    try:
        prover.load(src)
    except BaseException as e:
        pickle.dump({'load_error': '%s: %s' % (type(e).__name__, str(e)[:500])}, open(out, 'wb'))
        return
    ctx = mp.get_context('fork')
    res, run, todo = [], [], sorted(ids, key=lambda k: -C.REG[k].weight)
    while todo or run:
        while todo and len(run) < 8:
            cid = todo.pop(0)
            p = os.path.join(workdir, 'p%d' % len(todo))
            pr = ctx.Process(target=_proof_child, args=(cid, p, thorough))
            pr.start()
            lim = C.REG[cid].opts.get('deadline', 60) * (4 if thorough else 1) + 30
            run.append((pr, cid, p, time.time() + lim))
        time.sleep(.01)
        for t in list(run):
            pr, cid, p, end = t
            if pr.is_alive() and time.time() < end:
                continue
            if pr.is_alive():
                pr.kill()
            pr.join()
            run.remove(t)
            if os.path.exists(p):
                res.append(pickle.load(open(p, 'rb')))
            else:
                res.append({'cid': cid, 'target': C.REG[cid].target, 'status': 'undecided',
                            'reason': 'prover process ended without an answer', 'obligations': 0, 'discharged': 0,
                            'paths': 0, 'queries': 0, 'solver_time': 0.0, 'time': 0.0, 'detail': {}, 'loops': [],
                            'bounded': C.REG[cid].bounded, 'mode': C.REG[cid].mode, 'uses': []})
    pickle.dump({'results': res}, open(out, 'wb'))


# ------------------------------------------------------------------------------------------------ concrete stage
class Concrete:
    def __init__(self, src, workdir, seed):
        self.src, self.workdir, self.seed = src, workdir, seed
        self.k = 0
        self.lock = threading.Lock()
        self.fails, self.units, self.errors = [], [], []

    def env(self):
        e = dict(os.environ)
        e.update(PYTHONPATH=self.src + os.pathsep + HERE, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                 MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', HOME=self.workdir,
                 MPLCONFIGDIR=self.workdir, PYTHONUNBUFFERED='1')
        return e

    def shard(self, units, budget):
        """run the units in one worker process; a crash or hang is re-run alone and, if it repeats, reported"""
        end = time.time() + budget
        while units and time.time() < end:
            with self.lock:
                self.k += 1
                k = self.k
            jf, of = os.path.join(self.workdir, 'j%d.json' % k), os.path.join(self.workdir, 'o%d.jsonl' % k)
            json.dump({'src': self.src, 'seed': self.seed, 'units': units, 'budget': max(1, end - time.time()),
                       'known': self.known},
                      open(jf, 'w'))
            scratch = os.path.join(self.workdir, 's%d' % k)
            os.mkdir(scratch)
            try:
                p = subprocess.run([build.PY, '-c', BOOT, jf, of], cwd=scratch, env=self.env(), text=True,
                                   capture_output=True, timeout=max(1, end - time.time()) + 60)
                rc, err = p.returncode, p.stderr
            except subprocess.TimeoutExpired:
                rc, err = -99, 'timeout'
            shutil.rmtree(scratch, ignore_errors=True)
            done, ended = {}, False
            if os.path.exists(of):
                for l in open(of):
                    try:
                        r = json.loads(l)
                    except ValueError:
                        continue
                    if r['t'] == 'fail':
                        with self.lock:
                            self.fails.append(r)
                    elif r['t'] == 'unit':
                        done[r['id']] = r
                        with self.lock:
                            self.units.append(r)
                    elif r['t'] == 'end':
                        ended = True
            if ended:
                return
            at = None
            if rc < 0 and os.path.exists(of + '.at'):
                try:
                    at = json.load(open(of + '.at'))
                except ValueError:
                    pass
            units = [u for u in units if u['id'] not in done]
            if at is None or at['case'] is None:
                with self.lock:
                    self.errors.append('worker ended with %s: %s' % (rc, err[-600:]))
                return
            if self.confirm(at):
                with self.lock:
                    self.fails.append({'t': 'fail', 'kind': at['kind'], 'name': at['name'], 'id': at['id'],
                                       'i': at['i'], 'case': at['case'], 'data': at['case'],
                                       'bad': ['the call does not return (hang or crash, signal %s)' % -rc]})
                units = [u for u in units if u['id'] != at['id']]
            else:
                for u in units:
                    if u['id'] == at['id']:
                        u['lo'] = at['i'] + 1
                units = [u for u in units if u['lo'] < u['hi']]

    def confirm(self, at):
        jf, of = os.path.join(self.workdir, 'c.json'), os.path.join(self.workdir, 'c.jsonl')
        with self.lock:
            json.dump({'src': self.src, 'seed': self.seed, 'budget': 100, 'units': [
                {'kind': at['kind'], 'name': at['name'], 'id': 'confirm', 'lo': at['i'], 'hi': at['i'] + 1}]},
                open(jf, 'w'))
            try:
                p = subprocess.run([build.PY, '-c', BOOT, jf, of], cwd=self.workdir, env=self.env(), timeout=120,
                                   capture_output=True)
                return p.returncode < 0
            except subprocess.TimeoutExpired:
                return True

    def run(self, units, budget, n=8):
        shards = [[] for _ in range(n)]
        for i, u in enumerate(units):
            shards[i % n].append(u)
        ts = [threading.Thread(target=self.shard, args=(s, budget)) for s in shards if s]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


BOOT = ("import sys; sys.path.insert(0, %r); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); "
        "from engine import worker; worker.main()" % HERE)


def known_findings():
    out = {}
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'):
                r = json.loads(l)
                out.setdefault(r['property'], []).append(r)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--no-concrete', action='store_true')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    prop, tier = args.property, args.tier
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    thorough = tier == 'thorough'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    workdir = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    rc = 2
    try:
        rc = run(prop, tier, thorough, seed, t0, workdir, args)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(prop, tier, thorough, seed, t0, workdir, args):
    import bounded as B
    from .bounded import CHECKS
    load_modules()
    for m in pkgutil.iter_modules(B.__path__):
        importlib.import_module('bounded.' + m.name)
    manifest = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    entry = next((c for c in manifest['checks'] if c['property'] == prop), {})
    rep_dir = os.path.join(HERE, 'evidence')
    os.makedirs(rep_dir, exist_ok=True)
    for f in os.listdir(rep_dir):
        if f.startswith('replay-%s-' % prop):
            os.unlink(os.path.join(rep_dir, f))

    # 1. the compiled package (in parallel with the proofs)
    rt_ = {}

    def do_build():
        try:
            rt_['src'], rt_['how'] = build.runtime(workdir)
        except build.BuildError as e:
            rt_['error'] = str(e)
    bt = threading.Thread(target=do_build)
    if not args.no_concrete:
        pass
    ids = [] if args.no_proof else closure(prop)
    out = os.path.join(workdir, 'proofs')
    pr = None
    if ids:
        pr = mp.get_context('fork').Process(target=proofs, args=(os.path.join(build.REPO, 'src'), ids, workdir,
                                                                 thorough, out))
        pr.start()
    bt.start()
    results, load_error = [], None
    if pr:
        pr.join()
        if os.path.exists(out):
            import pickle
            r = pickle.load(open(out, 'rb'))
            results, load_error = r.get('results', []), r.get('load_error')
        else:
            load_error = 'prover ended without an answer'
    t_proof = time.time() - t0
    bt.join()
    if 'error' in rt_:
        print('the code does not build:\n' + rt_['error'])
        return 2

    # 2. concrete executions: replays of counter-models, run-time sampling of the contracts, bounded stand-ins
    known = known_findings().get(prop, [])
    conc = Concrete(rt_['src'], workdir, seed)
    conc.known = known
    units = []
    own = set(ids)
    refuted = {}
    for r in results:
        bad = [(n, d) for n, d in r['detail'].items() if d['refuted']]
        if bad:
            cases = [{'values': v} for _, d in bad for v in d['values'] if v is not None]
            refuted[r['cid']] = bad
            if C.REG[r['cid']].concrete and cases:
                units.append({'kind': 'contract', 'name': r['cid'], 'cases': cases, 'lo': 0, 'hi': len(cases),
                              'id': 'replay/' + r['cid'], 'stop': True})
    k = 10 if thorough else 1
    for cid in sorted(own):
        c = C.REG[cid]
        if c.concrete and c.samples:
            n = c.samples * k * (5 if cid in refuted else 1)
            units.append({'kind': 'contract', 'name': cid, 'lo': 0, 'hi': n, 'id': 'sample/' + cid,
                          'budget': 12 * (5 if thorough else 1)})
    if not args.no_concrete:
        for name, ck in sorted(CHECKS.items()):
            if prop in ck.props:
                n = ck.thorough if thorough else ck.n
                sh = max(1, min(8, n // 4))
                for i in range(sh):
                    units.append({'kind': 'bounded', 'name': name, 'lo': i, 'hi': n, 'step': sh,
                                  'id': 'bounded/%s/%d' % (name, i), 'budget': ck.budget * (15 if thorough else 1)})
    units.sort(key=lambda u: (not u['id'].startswith('replay'), u['id'].rsplit('/', 1)[-1]))
    conc.run(units, 600 if thorough else 150)

    # 3. verdict
    violations, known_hit = [], []
    hit = set()
    for f in conc.fails:
        kf = is_known(known, f)
        if kf is not None:
            known_hit.append(kf)
            continue
        key = (f['kind'], f['name'])
        if key in hit:
            continue
        hit.add(key)
        obl = [n for n, _ in refuted.get(f['name'], [])]
        violations.append({'kind': 'concrete', 'check': f['name'], 'failed': f['bad'], 'case': f['case'],
                           'failed_obligations': obl, 'how': f['kind']})
    replayed = {f['name'] for f in conc.fails if f['kind'] == 'contract'}
    soft = []
    for cid, bad in refuted.items():
        if cid not in replayed:
            soft.append({'kind': 'obligation', 'check': cid, 'failed': [n for n, _ in bad],
                         'counter_model': [d['values'][:1] for _, d in bad]})
    if soft and not violations and not conc.errors:
        violations.append(dict(soft[0], others=[s['check'] for s in soft[1:]], nfif=True))
    lines = []
    for i, v in enumerate(violations):
        p = os.path.join(rep_dir, 'replay-%s-%d.json' % (prop, i))
        v['property'] = prop
        v['replay_cmd'] = '/verif/replay %s' % p
        json.dump(v, open(p, 'w'), indent=1, default=repr)
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, p, ' no-failing-input-found' if v.get('nfif') else ''))
        print('%s: %s' % (v['check'], '; '.join(v['failed'])[:600]))
        if 'case' in v:
            print('  input: %s' % json.dumps(v['case'], default=repr)[:600])

    # 4. evidence
    core = [r for r in results if not r['bounded']]
    und = [r for r in results if r['status'] == 'undecided']
    ev = sum(u['ev'] for u in conc.units)
    di = sum(u['distinct'] for u in conc.units)
    samples = [{'check': u['name'], 'case': u['samples'][0]} for u in conc.units if u['samples']][:6]
    be = {}
    for r in core:
        for d in r['detail'].values():
            for b in d['backends']:
                be[b] = be.get(b, 0) + d['proved']
    cov = {
        'obligations': sum(r['obligations'] for r in core), 'discharged': sum(r['discharged'] for r in core),
        'checker_cmd': './check %s --tier %s' % (prop, tier),
        'trusted_base': TRUSTED,
        'evaluations': ev, 'distinct_nontrivial': di,
        'rule': 'concrete cases: run-time assertion of every contract on sampled inputs of the compiled code and the '
                'bounded stand-ins listed under bounded; generated from the seed; a case counts when its precondition '
                'holds, distinct by its input data',
        'samples': samples,
        'functions_under_contract': sorted({r['target'] for r in core if r['status'] == 'proved'}),
        'contracts': [{'contract': r['cid'], 'status': r['status'], 'obligations': r['obligations'],
                       'discharged': r['discharged'], 'paths': r['paths'], 'solver_s': r['solver_time'],
                       'mode': r['mode'], 'bounded': r['bounded'], 'loops': r['loops'], 'reason': r['reason']}
                      for r in sorted(results, key=lambda r: r['cid'])],
        'backends': be,
        'solver_s': round(sum(r['solver_time'] for r in results), 2),
        'proof_wall_s': round(t_proof, 2),
        'undecided': [{'contract': r['cid'], 'reason': r['reason']} for r in und],
        'load_error': load_error,
        'bounded': [{'check': n, 'cases': sum(u['ev'] for u in conc.units if u['name'] == n and u['kind'] == 'bounded'),
                     'about': CHECKS[n].about} for n in sorted(CHECKS) if prop in CHECKS[n].props],
        'runtime': rt_.get('how'),
        'concrete_errors': conc.errors,
        'explanation': entry.get('level_note', ''),
    }
    evd = {'property': prop, 'tier': tier, 'seed': seed, 'level': entry.get('level', 'proof'), 'coverage': cov,
           'assumptions': sorted({a for k in ids for a in getattr(C.REG[k], 'assumes', ())}) + TRUSTED[4:],
           'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    p = os.path.join(rep_dir, prop + '.json')
    json.dump(evd, open(p + '.tmp', 'w'), indent=1, default=repr)
    os.rename(p + '.tmp', p)
    seen = set()
    for kf in known:
        hitk = any(k is kf for k in known_hit)
        print('KNOWN-FINDING: property=%s %s%s' % (prop, kf['what'], '' if hitk else ' (not met in this run)'))
    for r in und:
        print('undecided: %s: %s' % (r['cid'], r['reason']))
    if load_error:
        print('undecided: the current source cannot be lowered: %s' % load_error)
    for e in conc.errors:
        print('concrete stage: ' + e)
    print('%s %s: %d contracts, %d/%d obligations discharged, %d concrete cases, %.1f s' % (
        prop, tier, len(core), cov['discharged'], cov['obligations'], ev, time.time() - t0))
    for l in lines:
        print(l)
    if violations:
        return 1
    if conc.errors and not conc.units:
        return 2
    return 0


if __name__ == '__main__':
    main()
