import sys,time,importlib; sys.path.insert(0,'/verif'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import multiprocessing as mp
from engine import prover, contract as C
import os; prover.load(os.environ.get('SRC','/repo/src'))
mods=sys.argv[1].split(',')
for m in mods: importlib.import_module('contracts.'+m)
pat=sys.argv[2] if len(sys.argv)>2 else ''
ids=[k for k in C.REG if pat in k]
def go(k): return prover.discharge(C.REG[k])
t=time.time()
with mp.get_context('fork').Pool(8) as p:
    for r in p.imap_unordered(go, ids, chunksize=1):
        print('%-40s %-9s %4d/%4d paths %d %.1fs %s %s'%(r['cid'],r['status'],r['discharged'],r['obligations'],r['paths'],r['time'],'[B]' if r['bounded'] else '', r['reason'] or ''))
        if r['status']!='proved':
            for n,d in r['detail'].items():
                if d['refuted'] or d['unknown']: print('      ',n,{k:d[k] for k in('proved','refuted','unknown')}, d['values'][:1])
print(time.time()-t)
