"""Structural rules over the type-checked program.  Each returns a dict with the number of sites looked at, the
violations (key, text), what could not be decided, and a few samples."""
import re, json
from engine import *
from engine import nolt, index
import terms as T

class Out:
    def __init__(self, rule): self.rule = rule; self.sites = 0; self.fns = set(); self.viol = []; self.und = []; self.samples = []
    def site(self, s=None, fn=None):
        self.sites += 1
        if fn: self.fns.add(fn)
        if s and len(self.samples) < 6: self.samples.append(s)
    def bad(self, key, text): 
        if not any(k == key for k, _ in self.viol): self.viol.append((key, text))
    def unknown(self, text): self.und.append(text)

def localfns(P, derived=False):
    seen = set()
    for fs in (P.fns, P.gen):
        for f in fs.values():
            if f.rec['local'] and (derived or not f.rec['derived']) and 'vp_spec' not in f.sym: yield f

def short(f):
    return nolt(f.sym)

def owner(P, f):
    """the named function a closure belongs to"""
    m = re.match(r'^(?:::)?(.*?)(?:::\{closure#\d+\})+', f.sym)
    return m.group(1) if m else f.sym

def calls(P, derived=False):
    for f in localfns(P, derived):
        for b in f.rec['blocks']:
            t = b['t']
            if t and t[0] == 'call' and 'def' in t[1]: yield f, t[1], t
        # functions used as values
        for b in f.rec['blocks']:
            for s in b['s']:
                for c in fnvals(P, s): yield f, c, None
            t = b['t']
            if t and t[0] == 'call':
                for o in t[2]:
                    for c in fnvals(P, o): yield f, c, None

def fnvals(P, x):
    """function items mentioned as values in a statement or operand"""
    if isinstance(x, list):
        for y in x: yield from fnvals(P, y)
    elif isinstance(x, dict):
        if 'def' in x and 'name' in x: yield x
        else:
            for y in x.values(): yield from fnvals(P, y)

def line(f, t):
    """source line of a call"""
    loc = f.rec.get('loc') or ['?', 0]
    return '%s:%s' % (loc[0], t[4] if t is not None and len(t) > 4 else loc[1])

# ---------------------------------------------------------------- effects
WRITES = re.compile(r'^std::fs::(write|remove_file|remove_dir|remove_dir_all|rename|copy|create_dir|create_dir_all|hard_link|soft_link|set_permissions)$'
                    r'|^std::fs::File::(create|create_new|options|set_len|set_permissions|set_times|set_modified)$|^std::fs::OpenOptions::|^std::fs::DirBuilder|^std::os::unix::fs::(symlink|chown|lchown|chroot)'
                    r'|^(tempfile|tempdir|fs_extra|memmap2?)::')
TRAITW = re.compile(r'^std::io::Write::')
PROC = re.compile(r'^std::process::(Command|Child|exit|abort|id)|^std::os::unix::process|^libc::|^nix::')
NET = re.compile(r'^std::net::|^std::os::unix::net::|^(reqwest|hyper|ureq|tokio|curl|socket2|mio)::')
ENVSET = re.compile(r'^std::env::(set_var|remove_var|set_current_dir)')
IMGSAVE = re.compile(r'^image::.*::(save|save_with_format|write_to|save_buffer)')

def effects(X):
    P = X.P
    o = Out('no local function calls an operation that writes, renames or deletes files (outside the logger), runs processes, uses the network, changes the environment or is unsafe')
    o.samples.append('files opened: std::fs::File::open, image::open; log file: log4rs FileAppender in utils::logger')
    for f, c, t in calls(P, True):
        d = c['def']; rd = (c.get('res') or {}).get('def') or d
        o.site(fn=short(f))
        for rx, what in ((WRITES, 'changes the file system'), (PROC, 'controls processes'), (NET, 'uses the network'), (ENVSET, 'changes the environment'), (IMGSAVE, 'writes an image file')):
            if rx.search(d) or rx.search(rd):
                if what == 'changes the file system' and d.startswith('std::fs::create_dir') and 'utils::logger' in f.sym: continue
                if what == 'controls processes' and d.endswith('::id'): continue
                o.bad('%s %s' % (owner(P, f), d), '%s in %s (%s) %s' % (d, f.sym, line(f, t), what))
        if TRAITW.search(d) and any('std::fs::File' in P.types[a]['s'] for a in c.get('args', [])):
            o.bad('%s %s' % (owner(P, f), d), '%s on a file in %s' % (d, f.sym))
    for u in P.d['unsafe_blocks']: o.bad('unsafe block', 'unsafe block at %s' % (u,))
    for s in P.d['sigs']:
        if s.get('unsafe'): o.bad('unsafe fn ' + s['def'], 'unsafe function ' + s['def'])
    return o

# ---------------------------------------------------------------- purity
MUTABLE = re.compile(r'\b(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|Mutex|RwLock|OnceLock|LazyLock|Atomic\w+|SyncUnsafeCell)\b')
def fieldtypes(P, path):
    """type of each field of each variant of a local type, from any instance of it"""
    for t in P.types:
        if t.get('path') == path and t.get('fields'):
            return t['fields']
    return []

def purity(X):
    P, R = X.P, X.R
    o = Out('state is only reachable for change through &mut: no mutable statics, no thread-local, no interior mutability in a type of the crate, no unsafe code, and every public query of the reference still takes &self')
    for s in P.d['statics']:
        o.site()
        if s.get('mut') or not s.get('freeze', True): o.bad('static ' + s['path'], 'global mutable state: static %s' % s['path'])
    ref = {a['path'] for a in R.d['local_adts'] if not a['freeze']}
    for a in P.d['local_adts']:
        o.site(a['path'])
        if a['freeze'] or a['path'] in ref: continue
        o.bad('type ' + a['path'], 'values of %s can change behind a shared reference' % a['path'])
    for a in P.d['adts']:
        if not a['local'] or '::_::' in a['path']: continue
        for fs in fieldtypes(P, a['path']):
            for ti in fs or []:
                if isinstance(ti, int):
                    o.site()
                    m = MUTABLE.search(P.types[ti]['s'])
                    if m: o.bad('type %s %s' % (a['path'], m.group(1)), 'a field of %s has interior mutability: %s' % (a['path'], P.types[ti]['s']))
    for f, c, t in calls(P, True):
        if 'thread::LocalKey' in c['def'] or 'thread_local' in c['def']: o.bad('tls %s' % owner(P, f), 'thread-local state used in %s' % f.sym)
    for u in P.d['unsafe_blocks']: o.bad('unsafe block', 'unsafe block at %s' % (u,))
    mine = {}
    for s in P.d['sigs']: mine.setdefault(nolt(s['def']), s)
    n = 0
    for s in R.d['sigs']:
        if s['vis'] != 'Public' or s.get('derived') or 'vp_spec' in s['def'] or not s['in']: continue
        if R.types[s['in'][0]]['k'] != 'ref' or not s.get('impl_self'): continue
        m = mine.get(nolt(s['def']))
        if m is None: continue
        o.site(s['def']); n += 1
        for i, ti in enumerate(m['in']):
            if P.types[ti]['k'] == 'mut' and i < len(s['in']) and R.types[s['in'][i]]['k'] != 'mut':
                o.bad('mut ' + nolt(s['def']), '%s now takes argument %d by &mut' % (s['def'], i))
    if n < 40: o.unknown('only %d public queries found' % n)
    return o

# ---------------------------------------------------------------- nondeterminism sources
SRC = re.compile(r'^std::time::|^std::env::(var|vars|args|current_dir|temp_dir|var_os|home_dir)|^std::thread::|^rand::|^rand_core::|^getrandom::|^rayon|^chrono::(Utc|Local)::|^chrono::offset::(Utc|Local)|^std::process::id|^std::hash::RandomState|^std::collections::hash_map::RandomState|^std::hash::BuildHasher|^uuid::|^std::sync::mpsc|^num_cpus|^std::ptr::.*addr|^std::fs::read_dir|^fastrand')
ADDR = re.compile(r'ptr::(const_ptr|mut_ptr)::<impl (std|core)::cmp::(Partial)?Ord|ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::(addr|expose_provenance|expose_addr|align_offset)|^<\*(const|mut) .* as (std|core)::(cmp::(Partial)?Ord|hash::Hash)|^(std|core)::ptr::hash$')
def sources(X):
    P = X.P
    o = Out('no local function reads the clock, random numbers, the environment, addresses, directory listings or other threads')
    for f, c, t in calls(P, True):
        o.site(fn=short(f))
        d = c['def']; rd = (c.get('res') or {}).get('def') or d
        if SRC.search(d) or SRC.search(rd): o.bad('%s %s' % (owner(P, f), d), '%s in %s (%s) differs from run to run' % (d, f.sym, line(f, t)))
        if ADDR.search(d) or ADDR.search(rd): o.bad('%s %s' % (owner(P, f), d), 'addresses decide in %s: %s (%s)' % (f.sym, rd, line(f, t)))
        if 'fmt::Pointer' in rd or 'Pointer' == c.get('trait', '').split('::')[-1]: o.bad('%s pointer' % owner(P, f), 'an address is printed in %s' % f.sym)
    for f in localfns(P, True):
        for b in f.rec['blocks']:
            for r in casts(b['s']):
                if 'Pointer' in r[1] and ('Expose' in r[1] or 'Address' in r[1]): o.bad('%s address' % owner(P, f), 'an address is used as a number in %s' % f.sym)
    o.samples.append('%d functions' % len(o.fns))
    return o
def casts(x):
    if isinstance(x, list):
        if len(x) == 5 and x[0] == 'cast' and isinstance(x[1], str): yield x
        for y in x: yield from casts(y)
    elif isinstance(x, dict):
        for y in x.values(): yield from casts(y)

# ---------------------------------------------------------------- iterators
TABLES = ('attribute', 'calibrated_sensor', 'category', 'ego_pose', 'instance', 'log', 'map', 'sample', 'sample_annotation', 'sample_data', 'scene', 'sensor', 'visibility')
def iterators(X):
    P = X.P
    o = Out('every table iterator is public and its type implements Iterator')
    for t in TABLES:
        n = 'dataset::nuscenes::NuScenes::%s_iter' % t
        s = [x for x in P.d['sigs'] if nolt(x['def']) == n]
        o.site(n)
        if not s: o.bad(n, '%s is gone' % n)
        elif s[0]['vis'] != 'Public': o.bad(n, '%s is not public' % n)
        elif not s[0]['out_is_iterator']: o.bad(n, 'the result of %s (%s) is not an Iterator' % (n, P.types[s[0]['out']]['s']))
    return o

# ---------------------------------------------------------------- serde attributes
def serde(attrs):
    """{key: value} of #[serde(..)] attributes"""
    r = {}
    for a in attrs:
        if a[0] != 'serde': continue
        m = re.search(r'serde\s*\((.*)\)\s*\]?\s*$', a[1], re.S)
        if not m: continue
        for k, q, v in re.findall(r'(\w+)\s*(=\s*"([^"]*)")?', re.sub(r'\((.*?)\)', '', m.group(1))):
            r[k] = v if q else True
    return r
CASE = {
    'lowercase': str.lower, 'UPPERCASE': str.upper,
}
def snake(s): return ''.join(('_' if i and c.isupper() else '') + c.lower() for i, c in enumerate(s))
def rename(rule, s, variant):
    if rule is None: return s
    if variant:
        sn = snake(s)
        return {'lowercase': s.lower(), 'UPPERCASE': s.upper(), 'snake_case': sn, 'SCREAMING_SNAKE_CASE': sn.upper(), 'kebab-case': sn.replace('_', '-'), 'SCREAMING-KEBAB-CASE': sn.upper().replace('_', '-'),
                'camelCase': s[:1].lower() + s[1:], 'PascalCase': s}.get(rule, None)
    pas = ''.join(w[:1].upper() + w[1:] for w in s.split('_'))
    return {'lowercase': s, 'UPPERCASE': s.upper(), 'snake_case': s, 'SCREAMING_SNAKE_CASE': s.upper(), 'kebab-case': s.replace('_', '-'), 'camelCase': pas[:1].lower() + pas[1:], 'PascalCase': pas}.get(rule, None)

KNOWN = {'rename', 'rename_all', 'with', 'deserialize_with', 'serialize_with', 'deny_unknown_fields', 'borrow', 'bound', 'crate', 'expecting'}
def wire(P, a):
    """serialized shape of a type: [(field or variant, name on the wire, helper, options)]"""
    c = serde(a['attrs'])
    out = []
    for v in a['variants']:
        if a['enum']:
            s = serde(v['attrs'])
            out.append((v['name'], s.get('rename') or rename(c.get('rename_all'), v['name'], True), None, tuple(sorted((k, x) for k, x in s.items() if k not in KNOWN))))
        for f in v['fields']:
            s = serde(f['attrs'])
            w = s.get('with') or tuple(sorted((k, s[k]) for k in ('deserialize_with', 'serialize_with') if k in s)) or None
            out.append((f['name'], s.get('rename') or rename(c.get('rename_all') if not a['enum'] else None, f['name'], False), w, tuple(sorted((k, x) for k, x in s.items() if k not in KNOWN))))
    return out, tuple(sorted((k, x) for k, x in c.items() if k not in KNOWN))

def attrs(X, which, rule, only=None):
    P, R = X.P, X.R
    o = Out(rule)
    helpers = {m.group(1) for s in R.d['sigs'] for m in [re.search(r'(\w+_serde)::', s['def'])] if m}
    for ra in R.d['adts']:
        if not ra['local'] or '::_::' in ra['path'] or '<' in ra['path'] or not which(ra['path']): continue
        if ('serde::Deserialize', ra['path']) not in X.deserialized(R): continue
        pa = P.adts.get(ra['path']) or next((a for a in P.d['adts'] if a['local'] and a['path'].split('::')[-1] == ra['path'].split('::')[-1] and a['enum'] == ra['enum'] and '::_::' not in a['path']), None)
        if pa is None: o.unknown('type %s is gone' % ra['path']); continue
        rw, rc = wire(R, ra); pw, pc = wire(P, pa)
        pm = {x[0]: x for x in pw}
        bypw = {x[1]: x for x in pw}
        if ('serde::Deserialize', pa['path']) not in X.deserialized(P): o.unknown('%s is no longer read by a derived implementation' % pa['path']); continue
        if rc != pc:
            if any(k == 'default' for k, _ in pc): o.bad('%s default' % ra['path'], 'fields missing from the file silently take defaults in %s' % ra['path'])
            else: o.unknown('options of %s changed: %s' % (ra['path'], pc))
        for n, w, h, opt in rw:
            if only and not only(n, h): continue
            o.site('%s.%s <- %s%s' % (ra['path'].split('::')[-1], n, w, ' with ' + str(h) if h else ''))
            x = pm.get(n)
            if x is None:
                x = bypw.get(w)
                if x is None: o.unknown('%s.%s is gone' % (ra['path'], n)); continue
            if x[1] != w:
                if x[1] is None: o.unknown('name of %s.%s' % (ra['path'], n))
                else: o.bad('%s.%s name' % (ra['path'], n), '%s.%s is read from "%s", not from "%s"' % (ra['path'], n, x[1], w))
            if x[2] != h:
                hs = lambda z: str(z).split('::')[-1]
                if x[2] is None or (isinstance(x[2], str) and hs(x[2]) in helpers and hs(x[2]) != hs(h)): o.bad('%s.%s with' % (ra['path'], n), '%s.%s is read by %s, not by %s' % (ra['path'], n, x[2] or 'the default implementation', h))
                elif hs(x[2]) != hs(h): o.unknown('%s.%s is read by %s' % (ra['path'], n, x[2]))
            if x[3] != opt:
                new = [k for k, _ in x[3] if k not in dict(opt)]
                if 'default' in new or any(k.startswith('skip') for k in new): o.bad('%s.%s %s' % (ra['path'], n, new[0]), '%s.%s: serde option %s drops or invents its value' % (ra['path'], n, new))
                elif set(new) <= {'alias'}: pass
                else: o.unknown('%s.%s: options %s' % (ra['path'], n, x[3]))
    return o

def attrs_nuscenes(X): return attrs(X, lambda p: p.startswith('dataset::nuscenes::schema::'), 'every field of a dataset record is read from the key of its name through the helper of its type; every enumerated value under its own name')
def attrs_timestamp(X):
    o = attrs(X, lambda p: p.startswith('dataset::nuscenes::schema::'), 'every timestamp field is read and written as microseconds', only=lambda n, h: n == 'timestamp')
    if o.sites < 3: o.unknown('only %d timestamp fields' % o.sites)
    return o
def attrs_config(X): return attrs(X, lambda p: p.startswith('config::schema::'), 'every scenario parameter is read from the key of its name')
def attrs_names(X): return attrs(X, lambda p: p.startswith('config::schema::ConfigParams'), 'task and frame are read by name', only=lambda n, h: bool(h))

# ---------------------------------------------------------------- sole constructors
def builders(X):
    P = X.P
    o = Out('FilterParams and MetricsParams are built and changed only by their constructors')
    for f in localfns(P):
        for b in f.rec['blocks']:
            for s in b['s']:
                if s[0] == '=' and s[2] and s[2][0] == 'agg':
                    t = P.types[s[2][2]] if len(s[2]) > 2 and isinstance(s[2][2], int) else None
                    if t and t.get('path') in ('config::FilterParams', 'config::MetricsParams'):
                        o.site(short(f))
                        if not re.search(r'config::(Filter|Metrics)Params::new', owner(P, f)): o.unknown('%s is also built in %s' % (t['path'], f.sym))
    return o

# ---------------------------------------------------------------- evaluation without a reference
def ev(X, name, tag=False, args=None):
    """(value, ok, panics, function) of the tree's own function"""
    from obligations import O
    f = find(X.P, name) or moved(X.P, name)
    if f is None: return None
    I = X.E.impl.interp(O.get(name, {}).get('stubs', ()))
    T.SOLVE[0] = I.solve
    names = args or [mkn('param', i, canon(X.P.types[X.P.strip(t)]['s'])) for i, t in enumerate(ptypes(X.P, f))]
    v, ok, outs, pans = evaluate(I, f, names)
    return v, ok, outs, pans, f, list(I.notes)

def guarded(o, name, fn):
    """run an analysis step; what it cannot analyse is recorded"""
    import signal
    old = signal.signal(signal.SIGALRM, _al); signal.alarm(100)
    try: return fn()
    except (Unsupported, Stop, Limit, Timeout, RecursionError) as e:
        o.unknown('%s: %s' % (name, e or type(e).__name__)); return None
    except Exception as e:
        if os.environ.get('VP_DEBUG'): raise
        o.unknown('%s: analyser error %r' % (name, e)); return None
    finally: signal.alarm(0); signal.signal(signal.SIGALRM, old)
def _al(*a): raise Timeout()

# ---------------------------------------------------------------- order of hash maps
EVAL = re.compile(r'^(filter|threshold|utils::(math|point)|object|matching|result|metrics|manager|label)::|^<(object|matching|metrics|label)::|^dataset::(get_current_frame|load_dataset|sample_to_frame)|NuScenes::(load|get_)|internal::\w+::from|^config::')
def order(X):
    from obligations import O
    o = Out('no result of loading or evaluation, and no printed text, depends on the order in which a hash map or hash set is listed')
    T.HASHTAG[0] = True
    try:
        for name in sorted(O):
            if not EVAL.search(name) and 'fmt::Display' not in name: continue
            r = guarded(o, name, lambda: ev(X, name))
            if r is None: continue
            v, ok, outs, pans, f, notes = r
            # which error is reported may depend on it, whether one is reported may not
            n0 = sum(1 for x in walk(noerr(v)) if len(x.a) > 2 and x.a[-1] == 'h' and x.op in ('ekey', 'eval')) 
            o.site('%s: %d marked values' % (short(f), n0), short(f))
            for x in [T.sharpen(noerr(v))] + [T.sharpen(y) for y in outs]:
                w = ordered(x)
                if w: o.bad('%s %s' % (owner(X.P, f), w[0]), 'the result of %s depends on the order of a hash map: %s' % (f.sym, w[1]))
    finally: T.HASHTAG[0] = False
    return o

def ordered(n):
    """does this value depend on the order of marked entries?"""
    memo = {}
    def own(body, bv):
        return any(x.op in ('ekey', 'eval') and x.a[-1] == 'h' and any(y.op == 'bv' and y.a[0] == bv for y in walk(x.a[1])) for x in walk(body))
    def go(x, insorted=False):
        k = (x, insorted)
        if k in memo: return memo[k]
        memo[k] = None
        r = None
        if x.op == 'entries' and x.a[-1] == 'h': r = ('entries', cut(x, 200))
        elif x.op == 'len' and x.a[0].op == 'entries':
            memo[k] = r = next(filter(None, (go(z) for z in x.a[0].a if isinstance(z, N))), None)
            return r
        elif x.op in ('ekey', 'eval') and x.a[-1] == 'h' and x.a[1].op not in ('bv',) and not any(y.op == 'bv' for y in walk(x.a[1])): r = ('entry', cut(x, 200))
        elif x.op in ('comp', 'first', 'fold', 'while', 'agg', 'wat', 'wn') or (x.op == 'sum' and x.a[-1] == 'f'):
            hit = x.op not in ('wat', 'wn') and any(own(b, x.a[0]) for b in bodies(x))
            if hit and x.op in ('fold', 'while') and all(benign(l, x.a[0]) for y in x.a[3 if x.op == 'fold' else 2] for l in leaves(y)): hit = False
            if hit and not (x.op == 'comp' and insorted): r = (x.op, cut(x, 300))
        if r is None:
            srt = x.op in ('sorted', 'sortedu')
            for i, y in enumerate(x.a):
                for z in flat(y):
                    r = go(z, srt and i == 0 and unique(x))
                    if r: break
                if r: break
        memo[k] = r
        return r
    return go(n)
def flat(y):
    if isinstance(y, N): yield y
    elif isinstance(y, tuple):
        for z in y: yield from flat(z)
def benign(l, lv):
    """a next state that keeps the old one, updates a map, or leaves with an error or a constant"""
    while l.op in ('mset', 'mdel'): l = l.a[0]
    if l.op == 'bv' or l.op in ('mempty', 'mfold', 'num', 'str') or l.op == 'adt' and (l.a[1] == 'Err' or not l.a[2]): return True
    return l.op in ('tup', 'adt') and all(benign(y, lv) for z in l.a for y in flat(z))
def bodies(x):
    for y in x.a[2:]: yield from flat(y)
def unique(x):
    """the sort key tells any two entries apart: it includes the key of the map or a token"""
    cmpf = x.a[1]
    src = x.a[0]
    txt = show(cmpf, 30)
    if src.op == 'comp':
        elems = [l.a[0] for l in leaves(src.a[2]) if l.a and isinstance(l.a[0], N)]
        for e in elems:
            if e.op in ('ekey',): return True
            if e.op == 'tup' and any(c.op == 'ekey' for c in e.a if isinstance(c, N)): return True
            if e.op == 'adt' or e.op == 'eval': return 'token' in txt
    return 'token' in txt

# ---------------------------------------------------------------- panics
PURE = re.compile(r'^(filter|threshold|utils::(math|point)|object|matching|result|metrics|manager)::|^<(object|matching|metrics)::|^dataset::get_current_frame')
def panics(X):
    from obligations import O
    o = Out('no function of the evaluation can panic where its definition returns; the panics of the definitions are the listed preconditions')
    for name, ob in O.items():
        if not PURE.search(name) or 'Display' in name or name.endswith('::from'): continue
        r = X.decide(name, what=('ok',))
        if r.status == 'proved': o.site(name, name)
        elif r.status == 'violated': o.site(name, name); o.bad(r.key, r.why)
        elif r.status == 'missing': pass
        else: o.unknown('%s: %s' % (name, r.why[:200]))
        for k, site, c in r.panics:
            if c is FALSE: continue
            s = site[0] if isinstance(site, tuple) else str(site)
            o.samples.append('%s in %s, only if %s' % (k, s, show(c, 3)[:80])) if len(o.samples) < 12 else None
    return o

def config_panics(X):
    o = Out('PerceptionEvaluationConfig::from cannot panic')
    for name in ('config::PerceptionEvaluationConfig::from', 'config::load_yaml::<config::schema::Scenario, &str>', "config::schema::evaluation_task_serde::deserialize::<'de, D>", "config::schema::frame_id_serde::deserialize::<'de, D>", 'label::convert_labels'):
        r = guarded(o, name, lambda: ev(X, name))
        if r is None: continue
        v, ok, outs, pans, f, notes = r
        o.site(short(f), short(f))
        left = [p for p in pans if p[2] is not FALSE]
        if ok is TRUE or not left: continue
        k, site, c = left[0]
        s = site[0] if isinstance(site, tuple) else str(site)
        o.bad('%s in %s' % (k, s), '%s can panic: %s in %s if %s' % (f.sym, k, s, show(c, 6)[:300]))
    return o

# ---------------------------------------------------------------- record lookups
def lookups(X):
    from props import ACC, NEXT, TABLES as TB
    o = Out('a lookup that panics for an unknown token is only made with a token that NuScenes::load has checked against that very table (or one listed by that table)')
    PN = {'sample_map': 'Sample', 'sample_annotation_map': 'SampleAnnotation', 'sample_data_map': 'SampleData'}
    for name in ACC + NEXT + TB:
        r = guarded(o, name, lambda: ev(X, name))
        if r is None: continue
        v, ok, outs, pans, f, notes = r
        o.site(short(f), short(f))
        for k, site, c in pans:
            if c is FALSE: continue
            keys = [x for x in walk(c) if x.op == 'mhas']
            good = bool(keys)
            for x in keys:
                m, y = x.a
                while y.op == 'idx' or (y.op == 'fld' and y.a[1] == 'Some'): y = y.a[0]
                mp = m.a[2] if m.op == 'fld' else '?'
                if y.op == 'call' and 'Iterator::next' in str(y.a[0]):
                    if ('::iter::Iter<' not in f.sym): good = False
                elif y.op == 'fld' and y.a[2] in ('prev', 'next'):
                    if not re.search(r'\b%s(Internal)?>' % PN.get(mp, '-'), f.sym): good = False
                else: good = False
            if not good:
                s = site[0] if isinstance(site, tuple) else str(site)
                o.bad('%s %s' % (nolt(f.sym), k), '%s in %s panics for a token that loading did not check: %s' % (k, s, show(c, 6)[:300]))
    return o

# ---------------------------------------------------------------- tables and files
FILES = dict((t + '_map', t) for t in TABLES)
EXTRA = {'instance_map': {'sample_annotation'}, 'scene_map': {'sample'}, 'sample_map': {'sample_annotation', 'sample_data'}}
def tables(X):
    o = Out('each table of NuScenes is built from the records of its own file')
    from props import LOAD
    def go():
        return ev(X, LOAD)
    r = guarded(o, LOAD, go)
    if r is None: return o
    v, ok, outs, pans, f, notes = r
    oks = [l.a[3] if len(l.a) > 3 else l for l in leaves(v) if l.op == 'adt' and l.a[1] == 'Ok']
    for fld_, t in FILES.items():
        x = fld(fld(v, 'Ok', '0'), '', fld_)
        txt = {y.a[0][:-5] for y in walk(x) if y.op == 'str' and y.a[0].endswith('.json')}
        # the part that names the records: not the conditions under which there is a result
        src = set()
        for l in leaves(x):
            src |= {y.a[0][:-5] for y in walk(l) if y.op == 'str' and y.a[0].endswith('.json')}
        if not src: continue
        o.site('%s <- %s' % (fld_, ', '.join(sorted(src))))
        if t not in src: o.bad('%s source' % fld_, '%s of NuScenes is not built from %s.json but from %s' % (fld_, t, sorted(src)))
        elif not src <= {t} | EXTRA.get(fld_, set()): o.bad('%s source' % fld_, '%s of NuScenes also depends on %s' % (fld_, sorted(src - {t} - EXTRA.get(fld_, set()))))
    if not o.sites: o.unknown('no table found in the result of load')
    return o

# ---------------------------------------------------------------- names
def roundtrip(X):
    """parse(print(v)) == v for each value, by constant propagation"""
    o = Out('each task and frame is recovered from its printed and from its snake_case name; no two share a printed name')
    for path, disp, parse in (('frame_id::FrameID', '<frame_id::FrameID as std::fmt::Display>::fmt', '<frame_id::FrameID as std::str::FromStr>::from_str'),
                              ('evaluation_task::EvaluationTask', '<evaluation_task::EvaluationTask as std::fmt::Display>::fmt', '<evaluation_task::EvaluationTask as std::str::FromStr>::from_str')):
        ad = X.P.adts.get(path)
        if ad is None: o.unknown(path + ' is gone'); continue
        names = {}
        for v in ad['variants']:
            val = adt(path, v['name'], {})
            txt = printed(X, o, disp, val)
            if txt is None: o.unknown('printed name of %s::%s' % (path, v['name'])); continue
            o.site('%s::%s prints "%s"' % (path.split('::')[-1], v['name'], txt))
            if txt in names: o.bad('%s %s' % (path, v['name']), '%s::%s and %s print the same name' % (path, v['name'], names[txt]))
            names[txt] = v['name']
            for t in (txt, snake(v['name'])):
                r = guarded(o, parse, lambda: ev(X, parse, args=[strc(t)]))
                if r is None: continue
                res = r[0]
                ls = list(leaves(res))
                if len(ls) != 1 or ls[0].op != 'adt': o.unknown('parsing "%s"' % t); continue
                if ls[0].a[1] != 'Ok': o.bad('%s parse %s' % (path, t), 'parsing "%s" fails' % t); continue
                p = fld(ls[0], 'Ok', '0')
                if p is not val: o.bad('%s parse %s' % (path, t), 'parsing "%s" gives %s, not %s' % (t, show(p, 2), v['name']))
    return o

def printed(X, o, disp, val):
    r = guarded(o, disp, lambda: ev(X, disp, args=[val, mkn('param', 1, 'fmt')]))
    if r is None: return None
    v, ok, outs, pans, f, notes = r
    for x in [v] + list(outs):
        ss = [y for y in walk(x) if y.op == 'str' and y.a[0]]
        if len(ss) == 1: return ss[0].a[0]
    return None

# ---------------------------------------------------------------- algebra of rotations
def unitq(t):
    """a quaternion of norm one: w is the root of what x, y, z leave"""
    x, y, z = [mkn('idx', mkn('param', t, '[f64; 4]'), T.inum(k)) for k in (1, 2, 3)]
    for v in (x, y, z): T.FLOATS.add(v)
    w = T.fsqrt(T.fsub(T.fsub(T.fsub(T.F1, T.fmul(x, x)), T.fmul(y, y)), T.fmul(z, z)))
    return T.seq(w, x, y, z)
def vec3(t):
    r = [mkn('idx', mkn('param', t, '[f64; 3]'), T.inum(k)) for k in (0, 1, 2)]
    for v in r: T.FLOATS.add(v)
    return T.seq(*r)
def algebra(X):
    """identities of the tree's own functions over every unit quaternion, as polynomial normal forms modulo |q|^2 = 1"""
    o = Out('R(q) is orthogonal with determinant 1; the inverse operations undo the operations on either side; composition of quaternions is composition of rotations')
    m = 'utils::math::'
    def call(name, *a):
        r = guarded(o, m + name, lambda: ev(X, m + name, args=list(a)))
        if r is None: raise KeyError(name)
        return r[0]
    def same(what, a, b):
        o.site(what)
        if a is b: return
        if features(a) or features(b) or a.op != b.op: o.unknown('%s: %s' % (what, cut(a, 200))); return
        o.bad(what, 'not an identity: %s\n    left:  %s\n    right: %s' % (what, cut(a, 300), cut(b, 300)))
    p, v, q1, q2 = vec3(0), vec3(1), unitq(2), unitq(3)
    one = T.seq(T.F1, T.F0, T.F0, T.F0)
    def ids():
        yield 'translate_inv(translate(p, v), v) = p', lambda: (call('translate_inv', call('translate', p, v), v), p)
        yield 'translate(translate_inv(p, v), v) = p', lambda: (call('translate', call('translate_inv', p, v), v), p)
        yield 'translate(p, v) = p + v', lambda: (call('translate', p, v), T.seq(*[T.fadd(x, y) for x, y in zip(p.a, v.a)]))
        yield 'rotate_inv(rotate(p, q), q) = p', lambda: (call('rotate_inv', call('rotate', p, q1), q1), p)
        yield 'rotate(rotate_inv(p, q), q) = p', lambda: (call('rotate', call('rotate_inv', p, q1), q1), p)
        yield 'rotate_q(1, q) = q', lambda: (call('rotate_q', one, q1), q1)
        yield 'rotate_q(q, 1) = q', lambda: (call('rotate_q', q1, one), q1)
        yield 'rotate_q(inverse(q), q) = 1', lambda: (call('rotate_q', call('inverse_quaternion', q1), q1), one)
        yield 'rotate_q_inv(rotate_q(a, q), q) = a', lambda: (call('rotate_q_inv', call('rotate_q', q2, q1), q1), q2)
        yield 'rotate(rotate(p, q1), q2) = rotate(p, rotate_q(q1, q2))', lambda: (call('rotate', call('rotate', p, q1), q2), call('rotate', p, call('rotate_q', q1, q2)))
        def mat():
            R = call('quaternion2rotation', q1)
            if R.op != 'mat': raise Unsupported('matrix')
            return [[R.a[2][3 * i + j] for j in range(3)] for i in range(3)]
        def dot(a, b):
            s = T.F0
            for x, y in zip(a, b): s = T.fadd(s, T.fmul(x, y))
            return s
        def ortho():
            R = mat()
            return T.seq(*[dot(R[i], R[j]) for i in range(3) for j in range(3)]), T.seq(*[T.fnum(int(i == j)) for i in range(3) for j in range(3)])
        yield 'R(q) times its transpose is the identity', ortho
        def det():
            a, b, c = mat()
            x = [T.fsub(T.fmul(b[i], c[j]), T.fmul(b[j], c[i])) for i, j in ((1, 2), (2, 0), (0, 1))]
            return T.seq(dot(a, x)), T.seq(T.F1)
        yield 'the determinant of R(q) is 1', det
        def app():
            R = mat()
            return call('rotate', p, q1), T.seq(*[dot(R[i], p.a) for i in range(3)])
        yield 'rotate(p, q) = R(q) p', app
        def axis():
            # a rotation about axis k, by the angle whose half has sine s: takes axis i towards axis j
            rs, ws = [], []
            for k, (i, j) in enumerate(((1, 2), (2, 0), (0, 1))):
                s = q1.a[1]; c = T.fsqrt(T.fsub(T.F1, T.fmul(s, s)))
                q = [c, T.F0, T.F0, T.F0]; q[k + 1] = s
                e = [T.F0] * 3; e[i] = T.F1
                w = [T.F0] * 3; w[i] = T.fsub(T.F1, T.fmul(T.fnum(2), T.fmul(s, s))); w[j] = T.fmul(T.fnum(2), T.fmul(s, c))
                rs += list(call('rotate', T.seq(*e), T.seq(*q)).a); ws += w
            return T.seq(*rs), T.seq(*ws)
        yield 'rotations about the axes are right-handed', axis
    for what, f in ids():
        def go():
            a, b = f(); same(what, a, b)
        try: guarded(o, what, go)
        except KeyError: pass
    return o

# ---------------------------------------------------------------- labels
LABELS = {
    'Car': ['car', 'vehicle.car', 'vehicle.construction', 'vehicle.emergency (ambulance & police)', 'vehicle.police', 'vehicle.fire', 'vehicle.ambulance'],
    'Truck': ['truck', 'vehicle.truck', 'trailer', 'vehicle.trailer'],
    'Bus': ['bus', 'vehicle.bus', 'vehicle.bus (bendy & rigid)', 'vehicle.bus.rigid', 'vehicle.bus.bendy'],
    'Bicycle': ['bicycle', 'vehicle.bicycle'],
    'Motorbike': ['motorbike', 'vehicle.motorcycle'],
    'Pedestrian': ['pedestrian'] + [h + 'pedestrian.' + k for h in ('', 'human.') for k in ('adult', 'child', 'construction_worker', 'personal_mobility', 'police_officer', 'stroller', 'wheelchair')],
    'Animal': ['animal'],
    'Unknown': ['unknown', 'movable_object.barrier', 'movable_object.debris', 'movable_object.pushable_pullable', 'movable_object.trafficcone', 'movable_object.traffic_cone', 'static_object.bicycle_rack', 'static_object.bollard', '', 'no such category'],
}
def labels(X):
    """what the converter made for a prefix answers, by constant propagation through both functions"""
    o = Out('every supported name in lower, upper and mixed case, and every label\'s own name, converts to its label; any other prefix is an error')
    P = X.P
    new = next((f.sym for f in localfns(P) if re.match(r'label::LabelConverter(::<[^>]*>)?::new$', nolt(f.sym))), None)
    conv = next((f.sym for f in localfns(P) if re.match(r'label::LabelConverter(::<[^>]*>)?::convert$', nolt(f.sym))), None)
    if not new or not conv: o.unknown('LabelConverter is gone'); return o
    def make(prefix):
        r = guarded(o, new, lambda: ev(X, new, args=[prefix]))
        return None if r is None else r[0]
    c = make(strc('autoware'))
    if c is None: return o
    if any(l.op == 'adt' and l.a[1] == 'Err' for l in leaves(c)): o.bad('autoware', 'LabelConverter::new("autoware") can fail'); return o
    c = fld(c, 'Ok', '0')
    def convert(name):
        r = guarded(o, conv, lambda: ev(X, conv, args=[c, strc(name)]))
        if r is None: return None
        ls = list(leaves(r[0]))
        if len(ls) != 1 or ls[0].op != 'adt': o.unknown('converting "%s"' % name); return None
        return ls[0].a[1]
    own = [(v['name'], printed(X, Out(''), '<label::Label as std::fmt::Display>::fmt', adt('label::Label', v['name'], {})) or v['name']) for v in P.adts['label::Label']['variants']]
    for lab, names in sorted(LABELS.items()):
        for n in names:
            for m in dict.fromkeys((n, n.upper(), n.title())):
                g = convert(m)
                if g is None: continue
                o.site('"%s" is %s' % (m, g), conv)
                if g != lab: o.bad('"%s"' % n, 'the category name "%s" converts to %s, not %s' % (m, g, lab))
    table = {n for names in LABELS.values() for n in names} | {n.lower() for _, n in own}
    near = {''}
    for n in sorted(table):
        w = n.split('.')
        near |= {'.'.join(w[:i]) for i in range(1, len(w))} | {'.'.join(w[i:]) for i in range(1, len(w))} | set(w) | {n + '.x', 'x.' + n, n + 'x', n[:-1], n + ' ', ' ' + n, n.replace('.', '_'), n.replace('_', ' ')}
    for n in sorted(near - table):
        g = convert(n)
        if g is None: continue
        o.site('"%s" is %s' % (n, g), conv)
        if g != 'Unknown': o.bad('unsupported "%s"' % n, 'the unsupported category name "%s" converts to %s, not Unknown' % (n, g)); break
    for lab, n in own:
        g = convert(n)
        o.site('%s prints as "%s"' % (lab, n), conv)
        if g not in (None, lab): o.bad('own name of ' + lab, 'the own name of %s, "%s", converts to %s' % (lab, n, g))
    for pre in ('', 'Autoware', 'nuscenes', 'autoware ', 'traffic_light'):
        v = make(strc(pre))
        if v is None: continue
        o.site('prefix "%s"' % pre, new)
        ls = list(leaves(v))
        if len(ls) == 1 and ls[0].op == 'adt' and ls[0].a[1] == 'Ok': o.bad('prefix "%s"' % pre, 'a converter is made for the label set "%s"' % pre)
    # for every name at once
    r = guarded(o, 'all names', lambda: compose(X, new, conv))
    if r is not None:
        o.site('the composition of new and convert is the table, for every prefix and name' if r else 'composition not compared', conv)
        if not r: o.unknown('the composition of new and convert is not the same term as the table')
    return o

def compose(X, new, conv):
    g = find(X.R, 'label::vp_spec::convert_with')
    names = X.E.names(g)
    J = X.E.ref.interp(()); T.SOLVE[0] = J.solve
    want = noerr(evaluate(J, g, names)[0])
    c = ev(X, new, args=[names[0]])[0]
    got = noerr(ite(isvar(c, 'std::result::Result', 'Ok'), lift('ok', ok, (ev(X, conv, args=[fld(c, 'Ok', '0'), names[1]])[0],)), err(UNIT)))
    return got is want

# ---------------------------------------------------------------- equality
def equality(X):
    o = Out('equality of objects is symmetric and reflexive, as terms')
    name = '<object::object3d::DynamicObject as std::cmp::PartialEq>::eq'
    f = find(X.P, name)
    if f is None: o.bad(name, 'DynamicObject is not comparable any more'); return o
    t = canon(X.P.types[X.P.strip(ptypes(X.P, f)[0])]['s'])
    a, b = mkn('param', 0, t), mkn('param', 1, t)
    r1 = guarded(o, name, lambda: ev(X, name, args=[a, b])); r2 = guarded(o, name, lambda: ev(X, name, args=[b, a])); r3 = guarded(o, name, lambda: ev(X, name, args=[a, a]))
    if None in (r1, r2, r3): return o
    o.site('eq(a, b) and eq(b, a)', name); o.site('eq(a, a)')
    if r1[0] is not r2[0]: (o.bad if not features(r1[0]) else lambda k, t: o.unknown(t))('symmetric', 'a == b and b == a are different conditions')
    if r3[0] is not TRUE:
        rest = [x for x in walk(r3[0]) if x.op in ('eq', 'feq')]
        (o.bad if not features(r3[0]) else lambda k, t: o.unknown(t))('reflexive', 'a == a is not always true: %s' % cut(r3[0], 200))
    return o

# ---------------------------------------------------------------- symmetry of scores
def symmetry(X):
    o = Out('exchanging the two objects gives the same score term, and the term mentions only position, orientation and size')
    IRREL = {'label', 'uuid', 'confidence', 'velocity', 'timestamp', 'frame_id', 'pointcloud_num', 'num_lidar_pts'}
    for m in ('CenterDistanceMatching', 'PlaneDistanceMatching', 'Iou2dMatching', 'Iou3dMatching'):
        name = '<matching::%s as matching::MatchingMethod>::calculate_matching_score' % m
        f = find(X.P, name)
        if f is None: o.unknown(name + ' is gone'); continue
        ts = [canon(X.P.types[X.P.strip(t)]['s']) for t in ptypes(X.P, f)]
        s, a, b = mkn('param', 0, ts[0]), mkn('param', 1, ts[1]), mkn('param', 2, ts[1])
        r1 = guarded(o, name, lambda: ev(X, name, args=[s, a, b])); r2 = guarded(o, name, lambda: ev(X, name, args=[s, b, a]))
        if r1 is None or r2 is None: continue
        o.site(m, name)
        und = [k for k in list(features(r1[0])) if not re.match(r'call (fn object::object3d::DynamicObject::footprint|geo::(intersection|unsigned_area|LineString|Polygon)|geo::Polygon::<T>::new)', k)]
        if r1[0] is not r2[0]:
            (o.unknown if und or r1[5] else lambda t: o.bad(m, t))('the score of %s changes when the objects are exchanged (%s)' % (m, und[:2]))
        used = {x.a[2] for x in walk(r1[0]) if x.op == 'fld' and x.a[0] in (a, b)}
        if used & IRREL: o.bad(m + ' fields', 'the score of %s depends on %s' % (m, sorted(used & IRREL)))
    return o

RULES = {}
for _n, _f in list(globals().items()):
    if callable(_f) and getattr(_f, '__module__', '') == __name__ and getattr(_f, '__code__', None) is not None and _f.__code__.co_argcount == 1 and _f.__code__.co_varnames[:1] == ('X',): RULES[_n] = _f
