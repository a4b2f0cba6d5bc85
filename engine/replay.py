import json
import os
import shutil
import sys
import tempfile
import warnings

from . import build


def main():
    v = json.load(open(sys.argv[1]))
    w = tempfile.mkdtemp(prefix='replay-')
    try:
        src, _ = build.runtime(w)
        sys.path.insert(0, src)
        warnings.simplefilter('ignore')
        from . import worker
        worker.load_all()
        if 'case' not in v:
            print('no failing input; failed obligations:')
            print('\n'.join(v['failed']))
            print(json.dumps(v.get('counter_model'), indent=1))
            return
        bad, data = worker.run_case(v['how'], v['check'], v['case'])
        print('input: %s' % json.dumps(v['case'], default=repr))
        print('failed: %s' % bad)
        shutil.rmtree(w, ignore_errors=True)
        os._exit(1 if bad else 0)
    finally:
        shutil.rmtree(w, ignore_errors=True)
