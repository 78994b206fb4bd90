import sys, os, time
sys.path.insert(0, '/verif/analyzer')
from engine import *
from obligations import O
impl, ref, key = load()
E = Engine(impl, ref)
only = sys.argv[1] if len(sys.argv) > 1 else ''
cnt = {}
for s, o in O.items():
    if only and not any(x in s for x in only.split(',')): continue
    r = E.decide(s, o['spec'], o['stubs'], limit=100, **({'what': o['what']} if 'what' in o else {}))
    cnt[r.status] = cnt.get(r.status, 0) + 1
    if r.status != 'proved' or r.secs > 5: print('%-9s %-60s %.1fs %s' % (r.status, s[-60:], r.secs, r.why[:1500]), flush=True)
print(cnt, len(T._all))
