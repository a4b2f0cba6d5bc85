"""Concrete executions on the compiled package.  python -m engine.worker JOB.json OUT.jsonl

Every case runs under an alarm whose default action ends the process, so a hang inside compiled code is noticed by the
parent, which knows the case from the progress line written before it."""
import importlib
import json
import os
import pkgutil
import random
import signal
import sys
import time
import traceback
import warnings

CASE_LIMIT = 40


def load_all():
    import bounded
    import contracts
    for pk in (contracts, bounded):
        for m in pkgutil.iter_modules(pk.__path__):
            importlib.import_module(pk.__name__ + '.' + m.name)


def rng_for(seed, name, i):
    return random.Random('%s/%s/%s' % (seed, name, i))


def is_known(known, f):
    """a listed finding is identified by check, failing label prefixes and (if given) the case"""
    for k in known:
        if k['name'] != f['name']:
            continue
        if k.get('case') is not None and k['case'] != f['case']:
            continue
        if all(any(b.startswith(l) for l in k['labels']) for b in f['bad']):
            return k
    return None


def limit(s):
    signal.setitimer(signal.ITIMER_REAL, s)


def run_case(kind, name, case):
    """case: bounded case data, or {'values':..} / {'seed':..,'i':..} for contracts -> (failed labels, data)"""
    from engine import contract as C
    from engine.bounded import CHECKS
    import numpy as np
    if kind == 'bounded':
        ck = CHECKS[name]
        np.random.seed(12345)
        random.seed(12345)
        try:
            return ck.run(case) or [], case
        except C.Skip:
            return None, case
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            return ['unexpected %s: %s (at %s)' % (type(e).__name__, str(e)[:300],
                                                  ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                                                             for f in reversed(tb[-3:])))], case
    c = C.REG[name]
    np.random.seed(12345)
    random.seed(12345)
    if 'values' in case:
        D = C.ConcD(values=case['values'], mode=c.mode)
    else:
        D = C.ConcD(rng=rng_for(case['seed'], name, case['i']), mode=c.mode)
    try:
        bad = c.execute(D)
    except C.Skip:
        return None, dict(D.log)
    return bad, dict(D.log)


def main():
    job = json.load(open(sys.argv[1]))
    out = open(sys.argv[2], 'a')
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import jpt
    assert os.path.abspath(jpt.__file__).startswith(job['src'] + os.sep), (jpt.__file__, job['src'])
    load_all()
    from engine.bounded import CHECKS
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    t_end = time.time() + job['budget']

    def emit(**k):
        out.write(json.dumps(k, default=repr) + '\n')
        out.flush()

    for u in job['units']:
        kind, name = u['kind'], u['name']
        ev = skip = 0
        keys, met = set(), set()
        samples = []
        done = u['lo']
        t_unit = time.time() + u.get('budget', 1e9)
        mark = open(sys.argv[2] + '.at', 'w')

        def at(i, case):
            mark.seek(0)
            mark.truncate()
            mark.write(json.dumps({'kind': kind, 'name': name, 'i': i, 'case': case, 'id': u['id']}, default=repr))
            mark.flush()
        for i in range(u['lo'], u['hi'], u.get('step', 1)):
            if time.time() > min(t_end, t_unit):
                break
            if kind == 'bounded':
                limit(CASE_LIMIT)
                at(i, None)
                try:
                    case = json.loads(json.dumps(CHECKS[name].gen(rng_for(job['seed'], name, i))))
                except Exception as e:
                    from engine.contract import Skip
                    if not isinstance(e, Skip):
                        raise
                    skip += 1
                    continue
            elif 'cases' in u:
                case = u['cases'][i]
            else:
                case = {'seed': job['seed'], 'i': i}
            at(i, case)
            limit(CASE_LIMIT)
            bad, data = run_case(kind, name, case)
            limit(0)
            done = i + 1
            if bad is None:
                skip += 1
                continue
            ev += 1
            keys.add(hash(json.dumps(data, sort_keys=True, default=repr)))
            if len(samples) < 2:
                samples.append(data)
            if bad:
                f = dict(t='fail', kind=kind, name=name, id=u['id'], i=i, case=case if kind == 'bounded' or 'values' in case
                         else {'values': data}, data=data, bad=bad[:6])
                kf = is_known(job.get('known', []), dict(f, bad=bad))
                if kf is None:
                    emit(**f)
                    if u.get('stop', True):
                        break
                elif id(kf) not in met:     # report a listed finding once and carry on
                    met.add(id(kf))
                    emit(**f)
        emit(t='unit', id=u['id'], kind=kind, name=name, ev=ev, skip=skip, distinct=len(keys), samples=samples,
             done=done, hi=u['hi'])
    emit(t='end')


if __name__ == '__main__':
    main()
