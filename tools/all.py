"""development aid: compare every function of the tree with the reference tree's"""
import sys, os, time
sys.path.insert(0, '/verif/analyzer')
from engine import *
impl, ref, key = load()
E = Engine(impl, ref)
only = sys.argv[1] if len(sys.argv) > 1 else ''
names = sorted(f.sym for f in impl.fns.values() if f.rec['local'] and not f.rec['closure'] and not f.rec['derived'])
names += sorted(s for s, f in impl.gen.items() if f.rec['local'] and not f.rec['closure'] and not f.rec['derived'] and not any(g.rec['def'] == f.rec['def'] for g in impl.fns.values()))
cnt = {}
t = time.time()
for s in names:
    if only and not any(o in s for o in only.split(',')): continue
    r = E.decide(s, limit=60)
    cnt[r.status] = cnt.get(r.status, 0) + 1
    if r.status != 'proved' or r.secs > 5: print('%-9s %-60s %.1fs %s' % (r.status, s[-60:], r.secs, r.why[:700]), flush=True)
print(cnt, '%.0fs' % (time.time() - t), len(T._all))
