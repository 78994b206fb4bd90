"""Decides one property: check.py <property> [quick|thorough]"""
import sys, os, json, time, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
T0 = time.time()
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Ctx:
    def __init__(self, impl, ref, E, tier):
        self.P = impl; self.R = ref; self.E = E; self.tier = tier; self.rules = {}; self.memo = {}; self.unobservable = {}; self.pub = None; self.up = None; self.spent = 0
    def deserialized(self, P):
        return {('serde::Deserialize', P.types[im['self']].get('path')) for im in P.d['impls'] if im.get('trait') == 'serde::Deserialize'}
    def decide(self, name, what=None, part=None):
        """the obligation `name`; a mismatch counts if it is one of the observable behaviour"""
        from obligations import O
        k = (name, what, part and part.__name__)
        r = self.memo.get(k)
        if r is not None: return r
        o = O[name]
        r = self.attempt(name, o['stubs'], what, part)
        for alt in o.get('alts', ()):
            # an equivalent form of the definition
            if r.status not in ('violated', 'undecided'): break
            r2 = self.attempt(name, o['stubs'], what, part, spec=alt)
            if r2.status == 'proved': r = r2
            elif r.left and r2.left is not None and not r.left & r2.left: r = type(r)(r.ob, 'proved'); r.key = r2.key; r.fns = r2.fns; r.panics = r2.panics
            elif r.left and r2.left is not None and r.left & r2.left != r.left:
                q = type(r)(r.ob, 'undecided', r.why); q.left = r.left & r2.left; q.key = r.key; q.fns = r.fns; q.panics = r.panics; r = q
        if r.status in ('violated', 'undecided') and o['stubs']:
            # once more with the summaries of callees replaced by their bodies
            r2 = self.attempt(name, expand(o['stubs']), what, part)
            if r2.status == 'proved' or r2.status == 'violated' and r.status == 'undecided': r = r2
        if r.status == 'violated' and not self.public(name):
            h = self.hidden(name)
            if h:
                r2 = type(r)(r.ob, 'proved'); r2.why = ''; r2.key = r.key; r2.fns = r.fns; r2.nodes = r.nodes; r2.panics = r.panics; r2.secs = r.secs
                self.unobservable[name] = h
                r = r2
        self.memo[k] = r
        return r
    def attempt(self, name, stubs, what, part, cap=None, spec=None):
        from obligations import O
        o = O[name]
        w = what or o.get('what') or ('value', 'out', 'ok')
        lim = 100 if self.tier == 'quick' else 300
        if cap: lim = min(lim, cap)
        lim = max(5, min(lim, BUDGET[self.tier] - (time.time() - T0)))
        return self.E.decide(name, spec or o['spec'], stubs, limit=lim, what=w, **({'given': part} if part else {}))
    def public(self, name):
        import engine, rules
        if self.pub is None: self.pub = {rules.nolt(s['def']) for s in self.R.d['sigs'] if s['vis'] == 'Public'}
        return defname(self.R, name) in self.pub
    def callers(self):
        """definition -> definitions that call it (closures belong to their function)"""
        import rules
        if self.up is None:
            g = self.up = {}
            impls = {}
            for f in rules.localfns(self.P, True):
                d = rules.nolt(f.rec['def'])
                m = d.rsplit('>::', 1)
                if d.startswith('<') and ' as ' in d and len(m) == 2: impls.setdefault(rules.bare(m[0].split(' as ', 1)[1]) + '::' + m[1], set()).add(d)
            defs = {rules.nolt(f.rec['def']) for f in rules.localfns(self.P, True) if not f.rec['closure']}
            def named(w):
                # a closure names its function by the number of the impl: every function of that name in the module
                if w in defs or '{impl#' not in w: return {w}
                mod, m = w.split('{impl#', 1)[0], w.rsplit('::', 1)[1]
                return {d for d in defs if (d.startswith(mod) or d.startswith('<' + mod)) and d.rsplit('::', 1)[-1] == m}
            for f, c, t in rules.calls(self.P, True):
                if 'def' not in c: continue
                d = rules.nolt(c['def']); w = rules.owner(self.P, f)
                g0 = self.P.fns.get(w) or self.P.gen.get(w)
                w = rules.nolt(g0.rec['def']) if g0 is not None else rules.nolt(w)
                for x in {d, rules.nolt(c.get('res', {}).get('def', d)) if isinstance(c.get('res'), dict) else d} | impls.get(rules.bare(d), set()): g.setdefault(x, set()).update(named(w))
        return self.up
    def hidden(self, name):
        t = time.time()
        try: return self.hidden_(name)
        finally: self.spent += time.time() - t
    def hidden_(self, name):
        """is the behaviour of a function outside the public interface the same wherever it is used?  Its callers are compared with its
        body in place of its summary; where a caller outside the interface differs too, its own callers."""
        from obligations import O
        byd = {}
        for n in O: byd.setdefault(defname(self.R, n), []).append(n)
        up = self.callers()
        S = {defname(self.R, name)}; todo = list(S); shown = []; t0 = time.time()
        for _ in range(6):
            if not todo: break
            front = set(); seen = set(); st = list(todo); todo = []
            while st:
                d = st.pop()
                for c in up.get(d, ()):
                    if c in seen or c in S: continue
                    seen.add(c)
                    if c in byd: front.add(c)
                    else: st.append(c)
            if not front: return None
            for c in sorted(front):
                for n in byd[c]:
                    ok = False
                    for stubs in (tuple(s for s in O[n]['stubs'] if stubdef(s) not in S), tuple(s for s in expand(O[n]['stubs']) if stubdef(s) not in S)):
                        left = CALLERS[self.tier] - self.spent - (time.time() - t0)
                        if left < 5: return None
                        t1 = time.time(); cap = min(60, left)
                        r = self.attempt(n, stubs, None, None, cap)
                        if r.status == 'proved': ok = True; break
                        if time.time() - t1 > 0.9 * cap: break
                    if ok: shown.append(n)
                    elif self.public(n): return None
                    elif c not in S: S.add(c); todo.append(c)
        return shown if not todo else None
def stubdef(s):
    import rules, re
    return re.sub(r"<'[a-z_]+>::|::<'[a-z_]+>", lambda m: '::' if m.group(0).startswith('::') and m.group(0).endswith('::') else '', rules.bare(rules.nolt(s)))
def defname(P, name):
    import engine, rules
    f = engine.find(P, name)
    return rules.nolt(f.rec['def']) if f is not None else rules.nolt(name)
def expand(stubs):
    """the summaries used inside the summarised functions"""
    from obligations import O
    import rules
    byd = {}
    for n, o in O.items(): byd.setdefault(stubdef(n), []).append(o)
    out = []
    for s in stubs:
        for o in byd.get(stubdef(s), ()): out += [x for x in o['stubs'] if x not in out]
    return tuple(out)
CALLERS = {'quick': 150, 'thorough': 900}
BUDGET = {'quick': 650, 'thorough': 3000}
EVID = os.path.join(VERIF, 'evidence') if 'VP_REPO' not in os.environ else '/tmp/vp-evidence'

def run(X, pid):
    import props, rules, parts
    pr = props.PROPS[pid]; ref = X.R
    obs, viols, und = [], [], []
    for ob in pr['obs']:
        name, opt = (ob, {}) if isinstance(ob, str) else ob
        r = X.decide(name, what=opt.get('what'), part=parts.PARTS[opt['part']] if 'part' in opt else None)
        obs.append((name, opt, r))
        if r.status == 'violated': viols.append((r.key, r.why))
        elif r.status == 'missing':
            pub = any(s['def'] == name or rules.nolt(s['def']) == rules.nolt(rules.bare(name)) for s in ref.d['sigs'] if s['vis'] == 'Public')
            if pub: viols.append((r.key, r.why))
            else: und.append('%s: %s' % (name, r.why))
        elif r.status != 'proved': und.append('%s: %s' % (name, r.why[:600]))
    rs = []
    for rn in pr['rules']:
        o = X.rules.get(rn)
        if o is None: o = X.rules[rn] = rules.RULES[rn](X)
        rs.append((rn, o))
        for k, t in o.viol: viols.append(('%s: %s' % (rn, k), t))
        und += ['%s: %s' % (rn, u) for u in o.und]
    return obs, rs, viols, und

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(EVID, exist_ok=True)
    import build
    from engine import load, Engine
    try: impl, ref, key = load()
    except build.BuildError as e:
        print('cannot analyse: %s' % e); sys.exit(2)
    import props, rules, parts
    E = Engine(impl, ref)
    X = Ctx(impl, ref, E, tier)
    if pid == 'ALL':
        # development aid: every property at once
        res = {}
        for p in props.PROPS:
            _, _, viols, und = run(X, p)
            res[p] = dict(viol=viols, und=und)
        print(json.dumps({'ALL': res})); sys.stdout.flush(); os._exit(0)
    pr = props.PROPS[pid]
    obs, rs, viols, und = run(X, pid)
    known = []
    kf = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(kf): known = json.load(open(kf))['findings']
    new = []
    for k, t in viols:
        m = [f for f in known if f['property'] == pid and f['key'] == k]
        if m: print('KNOWN-FINDING: property=%s %s' % (pid, m[0]['what']))
        else: new.append((k, t))
    done = sum(1 for o in obs if o[2].status == 'proved')
    fns = sorted({f for o in rs for f in o[1].fns})
    cov = {
        'explanation': 'Static analysis of the MIR of /repo (nothing is executed). Each obligation reduces a function of the tree and its definition to gated value terms over the same symbolic inputs, through loops, calls and closures, and is discharged if the terms are the same node; structural rules enumerate sites of the whole program. Undecided obligations raise no alarm and are listed.',
        'technique': pr['technique'],
        'obligations': len(obs), 'discharged': done, 'undecided': len(und), 'undecided_items': und[:20],
        'violations': [k for k, _ in viols],
        'functions_compared': [dict(function=n, definition=r.ob, status=r.status, functions_inlined=r.fns, terms=r.nodes, panic_sites=len(r.panics), seconds=round(r.secs, 2)) for n, _, r in obs],
        'rules': [dict(name=n, rule=o.rule, sites=o.sites, functions=len(o.fns), violations=len(o.viol), undecided=len(o.und), samples=o.samples[:8]) for n, o in rs],
        'program': dict(digest=key, functions=len(impl.fns) + len(impl.gen), types=len(impl.types)),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - T0, 2)}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for u in und: print('undecided: %s' % u[:400])
    if new:
        d = os.path.join(build.WORK, 'reports'); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.txt' % pid)
        with open(path, 'w') as f:
            for k, t in new: f.write('%s\n%s\n\n' % (k, t))
        for k, t in new: print('%s\n    %s' % (k, t[:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.stdout.flush(); os._exit(1)
    print('%s: %d obligations, %d discharged, %d undecided; %s (%.1f s)' % (pid, len(obs), done, len(und), ', '.join('%s %d sites' % (n, o.sites) for n, o in rs) or 'no rules', time.time() - T0))
    sys.stdout.flush(); os._exit(0)
if __name__ == '__main__': main()
