"""development aid: variants.py FILE [id,...]: apply each variant of FILE (a list V of dicts id, edits[(file, old, new)], optional expect)
to a scratch copy of /repo and report what the analyzer says.  B* are bugs (prop = property), R* keep the behaviour."""
import sys, os, json, shutil, subprocess, multiprocessing as mp, re, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def prepare(v, base='/tmp/vv'):
    d = os.path.join(base, v['id'])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f in ('src', 'Cargo.toml', 'Cargo.lock'):
        s = os.path.join('/repo', f)
        (shutil.copytree if os.path.isdir(s) else shutil.copyfile)(s, os.path.join(d, f))
    if v.get('patch'):
        p = subprocess.run(['patch', '-p1', '-s', '-i', v['patch']], cwd=d)
        return (d, '') if p.returncode == 0 else (None, 'patch does not apply')
    for f, t in v.get('write', {}).items(): open(os.path.join(d, 'src', f), 'w').write(t)
    for f, old, new in v.get('edits', ()):
        p = os.path.join(d, 'src', f)
        t = open(p).read()
        if t.count(old) < 1: return None, 'text not found in %s: %s' % (f, old[:60])
        if t.count(old) > 1 and not v.get('multi'): return None, 'text found %d times in %s: %s' % (t.count(old), f, old[:60])
        open(p, 'w').write(t.replace(old, new))
    return d, ''
def analyse(a):
    vid, d, work = a
    e = dict(os.environ, VP_REPO=d, VP_WORK=work)
    p = subprocess.run([sys.executable, '-B', os.path.join(VERIF, 'analyzer/check.py'), 'ALL'], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return vid, p.stdout.decode()
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    V = ns['V']
    if len(sys.argv) > 2: V = [v for v in V if any(re.fullmatch(x, v['id']) for x in sys.argv[2].split(','))]
    work = '/tmp/vwork'
    jobs = []
    from concurrent.futures import ThreadPoolExecutor
    ex = ThreadPoolExecutor(8)
    futs = []
    for v in V:
        d, err = prepare(v)
        if d is None: print('%-10s CANNOT APPLY %s' % (v['id'], err)); continue
        e = dict(os.environ, VP_REPO=d, VP_WORK=work)
        p = subprocess.run([sys.executable, '-B', os.path.join(VERIF, 'analyzer/build.py')], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode: print('%-10s DOES NOT BUILD %s' % (v['id'], '\n'.join(l for l in p.stdout.decode().split('\n') if 'error' in l or '-->' in l)[:600])); continue
        if not os.environ.get('BUILD_ONLY'): futs.append((v, ex.submit(analyse, (v['id'], d, work))))
        while len([1 for _, f in futs if not f.done()]) > 8: time.sleep(0.1)
    bad = 0
    if os.environ.get('BUILD_ONLY'): return
    for v, f in futs:
        vid, out = f.result()
        viol = {}; und = {}
        try: R = json.loads(out[out.index('{"ALL"'):])['ALL']
        except Exception: print('%-10s ERROR %s' % (vid, out[-800:])); continue
        hit = [p for p, x in R.items() if x['viol']]
        u = sorted({t for x in R.values() for t in x['und']})
        if 'prop' in v: st = 'caught' if v['prop'] in hit else 'MISSED (by its property)' if hit else 'MISSED'
        else: st = 'FALSE ALARM' if hit else 'quiet' if not u else 'quiet (undecided)'
        print('%-10s %-8s %s hits=%s' % (vid, v.get('prop', ''), st, ','.join(hit)))
        if st.startswith(('MISSED', 'FALSE')) or '-v' in sys.argv:
            for p in hit[:4]: print('      %s: %s' % (p, R[p]['viol'][0][1][:900].replace('\n', '\n      ')))
        if st.startswith('MISSED') or 'undecided' in st or '-v' in sys.argv:
            for t in u[:4]: print('      undecided %s' % t[:int(os.environ.get('W', '500'))])
main()
