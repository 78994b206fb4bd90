"""Deciding obligations: a function of the analysed tree and its reference
definition are reduced to value terms over the same parameters; the obligation is
discharged if the terms are the same node of the shared DAG."""
import os, sys, re, time, signal, gzip, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from terms import *
import terms as T
from interp import Interp, Unsupported, Stop, mref, has_mref
from mir import Prog
import build, models, peel
T.VALID_ON[0] = True

# Lengths fixed by the constructors FilterParams::new and MetricsParams::new (obligations of their own).  The fields
# cannot be set outside the crate, and no other function of it builds or changes them (checked by the sole-constructor rule).
for _f in ('max_x_positions', 'max_y_positions', 'min_point_numbers'): T.SAMELEN[_f] = 'target_labels'
for _f in ('center_distance_thresholds', 'plane_distance_thresholds', 'iou2d_thresholds', 'iou3d_thresholds'): T.SAMELEN[_f] = 'target_labels'

# calculate_tp_fp and calculate_precision_recall return one entry per result, interpolate_precision_recall two lists of one length
# (all three are obligations of their own)
for _f in ('calculate_tp_fp', 'calculate_precision_recall'): T.RETLEN['fn metrics::detection::Ap::' + _f] = lambda c, i: slen(fld(c.a[1], '', 'results'))
T.RETLEN['fn metrics::detection::Ap::interpolate_precision_recall'] = lambda c, i: slen(mkn('tf', c, 0, 2)) if i == 1 else None

class Timeout(Exception): pass
def _alarm(*a): raise Timeout()

REF = os.path.join(build.VERIF, 'reference/reference.json.gz')

# operators that a summary contains if a loop or a call could not be given a closed form
GENERIC = ('fold', 'while', 'mfold', 'agg', 'extv', 'foldv')
# library functions that are known to be functions of their own: a summary that uses another one is different
KNOWN = {'call ' + n for n in ('lower', 'upper', 'alower', 'trim', 'trim_start', 'trim_end', 'trim_start_matches', 'trim_end_matches', 'starts_with', 'ends_with', 'contains', 'strip_prefix', 'strip_suffix', 'replace',
         'with_file_name', 'with_extension', 'parent', 'file_name', 'file_stem', 'extension', 'join', 'chrono::NaiveDateTime::timestamp', 'chrono::NaiveDateTime::timestamp_millis', 'chrono::NaiveDateTime::timestamp_micros', '<chrono::NaiveDateTime as std::default::Default>::default@chrono::NaiveDateTime')} | {'call as ' + t for t in ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'u64', 'usize')}
KNOWNRE = re.compile(r'is_normal$|is_subnormal$|from_column_slice(_generic)?$|from_be_bytes$|swap_bytes$|reverse_bits$|FileAppenderBuilder::append$')
def known(k): return k in KNOWN or KNOWNRE.search(k) is not None
WEAK = ('unk', 'out', 'mref', 'cap')

def walk(n):
    seen = set(); st = [n]
    while st:
        x = st.pop()
        if isinstance(x, tuple): st.extend(x); continue
        if not isinstance(x, N) or x in seen: continue
        seen.add(x)
        yield x
        st.extend(x.a)

def features(n):
    """the constructs of a summary the analysis has no theory for"""
    f = {}
    for x in walk(n):
        k = None
        if x.op == 'call': k = 'call ' + str(x.a[0])
        elif x.op in GENERIC: k = x.op if x.op != 'fold' else 'fold/%d' % len(x.a[3] if len(x.a) > 3 and isinstance(x.a[3], tuple) else ())
        elif x.op in WEAK: k = x.op
        elif x.op == 'clo': k = 'clo ' + str(x.a[0])
        if k: f[k] = f.get(k, 0) + 1
    return f

def differ(a, b, depth=0, path=()):
    """a smallest differing pair of subterms, for the report"""
    if a is b: return None
    if not isinstance(a, N) or not isinstance(b, N): return (path, a, b)
    if a.op == b.op and len(a.a) == len(b.a) and depth < 60:
        ds = []
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            if x is y or x == y: continue
            if isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y): return (path, a, b)
                for j, (p, q) in enumerate(zip(x, y)):
                    if p is not q and p != q: ds.append(((i, j), p, q))
            else: ds.append((i, x, y))
        if len(ds) == 1 and isinstance(ds[0][1], N) and isinstance(ds[0][2], N):
            return differ(ds[0][1], ds[0][2], depth + 1, path + ((a.op, ds[0][0]),))
    return (path, a, b)

def aligned(a, b, memo=None, lv=()):
    """are two constructs without theory the same but for parts the analysis has a theory of?  The constructs within them must correspond.
    lv relates the levels of their bound variables."""
    if memo is None: memo = {}
    if a is b and not lv: return True
    if not isinstance(a, N) or not isinstance(b, N): return a == b or isinstance(a, str) and isinstance(b, str)
    k = (a, b, lv)
    r = memo.get(k)
    if r is not None: return r
    memo[k] = True
    if opaques(a) == opaques(b): r = True
    elif a.op == b.op and len(a.a) == len(b.a) and (a.op != 'call' or a.a[0] == b.a[0]):
        r = True
        l2 = lv
        if a.op in T.BINDERS or a.op == 'bv':
            if a.op == 'bv' and dict(lv).get(a.a[0], a.a[0]) != b.a[0]: r = False
            elif a.op != 'bv' and a.a[0] != b.a[0]: l2 = tuple(q for q in lv if q[0] != a.a[0]) + ((a.a[0], b.a[0]),)
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            if not r: break
            if i == 0 and (a.op in T.BINDERS or a.op == 'bv'): continue
            if isinstance(x, tuple) or isinstance(y, tuple):
                if not (isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y)): r = False
                else: r = all(aligned(p, q, memo, l2) for p, q in zip(x, y))
            else: r = aligned(x, y, memo, l2)
    else: r = False
    memo[k] = r
    return r
_op = {}
def opaques(n):
    r = _op.get(n)
    if r is None: r = _op[n] = frozenset(x for x in walk(n) if x.op in GENERIC or x.op in WEAK)
    return r
def binders(n): return {x for x in walk(n) if x.op in T.BINDERS}

def localised(I, R, rall):
    """do the summaries I of the code and R of the definition differ only where the analysis has a theory?
    The constructs without one must correspond: those that only the code has are, from the inside out, each a variation of one that
    only the definition has; a construct may be missing altogether if the code has no other loop in its place."""
    A = frozenset().union(*[opaques(x) for x in I]); D = frozenset().union(*[opaques(x) for x in rall])
    used = set(); I0 = I
    for _ in range(40):
        new = A - D
        if not new: break
        gone = D - A - used
        inner = [x for x in new if not any(y is not x and y in new for y in walk(x))]
        m = {}
        for x in inner:
            c = [y for y in gone if y.op == x.op and y not in m.values() and aligned(x, y)]
            if not c:
                if os.environ.get('VP_LOC'): print('NOPARTNER', cut(x,300), len(gone))
                return False
            c.sort(key=lambda y: (abs(size(y) - size(x)), y.id))
            m[x] = c[0]
            if x.op in ('fold', 'while') and not one_change(x, c[0]):
                if os.environ.get('VP_LOC'): print('RECODED', cut(x,300))
                return False
        used |= set(m.values())
        I = [replace(x, m) for x in I]
        A = frozenset().union(*[opaques(x) for x in I])
    else: return False
    if D - A - used:
        b = set().union(*[binders(x) for x in rall])
        if any(x not in b for t in I for x in binders(t)):
            if os.environ.get('VP_LOC'): print('GONE', [cut(x,300) for x in D - A - used], [cut(x,300) for t in I for x in binders(t) if x not in b][:3])
            return False
    if used and not all(same_again(x, y) for x, y in zip(I, R)) and not swapped(I0, R):
        if os.environ.get('VP_LOC'): print('RESIDUE')
        return False
    return True
LISTS = ('upd', 'comp', 'cat', 'slice', 'rev', 'seq', 'sorted', 'sortedu', 'mseq')
def listy(ps):
    """do the summaries differ in how lists are built, where the theory of lists is not complete?"""
    seen = set(); st = list(ps)
    while st:
        x, y = st.pop()
        if x is y or x == y or (x, y) in seen: continue
        seen.add((x, y))
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y): st.extend(zip(x, y)); continue
        if not isinstance(x, N) or not isinstance(y, N): continue
        if x.op == y.op and len(x.a) == len(y.a): st.extend(zip(x.a, y.a)); continue
        if x.op in LISTS and y.op in LISTS and x.op != y.op and not any(z is y for z in walk(x)) and not any(z is x for z in walk(y)): return True
    return False
def swapped(I, R):
    """are the summaries I those of R with one term in place of another?"""
    a = set().union(*[set(walk(x)) for x in I]); b = set().union(*[set(walk(x)) for x in R])
    least = lambda p, q: [x for x in p if x not in q and not any(y not in q for y in T.nodes_of(x.a))]
    new, gone = least(a, b), least(b, a)
    new = [x for x in new if x.op != 'ite'] or new      # conditions may only be nested in another order
    if len(new) != 1: return False
    like = [x for x in gone if x.op == new[0].op] if len(gone) > 1 else gone
    return len(like) <= 3 and any(all(x is y or same_again(replace(x, {new[0]: g}), y) for x, y in zip(I, R)) for g in like)
def same_again(x, y):
    if x is y: return True
    return T.rewrite(x, lambda n: None) is y or mapsame(x, y)
def one_change(x, y):
    """a loop that starts elsewhere and also goes on differently may be the same loop with another state"""
    i = 2 if x.op == 'fold' else 1
    if x.a[i] == y.a[i] or x.a[i + 1:] == y.a[i + 1:]: return True
    return relabelled(x.a[i], y.a[i]) or relabelled(x.a[i + 1:], y.a[i + 1:])
def relabelled(x, y):
    """are the terms the same but for the levels of the variables bound around them?"""
    lv = {}; seen = set(); st = [(x, y)]
    while st:
        a, b = st.pop()
        if a is b and not isinstance(a, (N, tuple)): continue
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b): st.extend(zip(a, b)); continue
        if not isinstance(a, N) or not isinstance(b, N) or a.op != b.op or len(a.a) != len(b.a):
            if a != b: return False
            continue
        if (a, b) in seen: continue
        seen.add((a, b))
        if a.op == 'bv' or a.op in T.BINDERS:
            if lv.setdefault(a.a[0], b.a[0]) != b.a[0]: return False
            st.extend(zip(a.a[1:], b.a[1:]))
        else: st.extend(zip(a.a, b.a))
    return len(set(lv.values())) == len(lv)
def replace(n, m):
    """n with whole subterms replaced, bound variables included"""
    memo = {}
    def go(x):
        r = memo.get(x)
        if r is not None: return r
        r = m.get(x)
        if r is None:
            if x.op == 'ite': r = ite(asbool(go(x.a[0])) if m.get(x.a[0]) is None and any(isinstance(y, (N, tuple)) for y in x.a[0].a) else B(x.a[0]), go(x.a[1]), go(x.a[2]))
            elif not any(isinstance(y, (N, tuple)) for y in x.a): r = x
            else:
                a = gt(x.a)
                r = x if a == x.a else mkn(x.op, *a) if x.op in T.BINDERS else T.rebuild_lifted(x.op, a)
        memo[x] = r
        return r
    def gt(t):
        return tuple(go(y) if isinstance(y, N) else gt(y) if isinstance(y, tuple) else y for y in t)
    return go(n)
def size(n): return sum(1 for _ in walk(n))

class Result:
    __slots__ = ('status', 'why', 'ob', 'fns', 'sites', 'secs', 'nodes', 'panics', 'feat', 'key', 'left', 'must')
    def __init__(self, ob, status, why=''):
        self.ob = ob; self.status = status; self.why = why; self.fns = 0; self.sites = 0; self.secs = 0.0; self.nodes = 0; self.panics = []; self.feat = {}; self.key = ''; self.left = None; self.must = (TRUE, TRUE)

class Side:
    def __init__(self, prog, label):
        self.P = prog; self.label = label
        self.interps = {}
    def interp(self, stubs):
        k = (tuple(sorted(stubs)), T.HASHTAG[0])
        I = self.interps.get(k)
        if I is None:
            I = Interp(self.P)
            for s in stubs: I.hooks[nolt(s)] = stub(nolt(s))
            self.interps[k] = I
        I.pstack = [[]]; I.notes = []; I.stack = []; I.sites = []; I.visited = set()
        return I

def stub(name):
    def h(c):
        vals = [c.I.norm_arg(c.I.deref(v, c.st)) for v in c.args]
        # a summary applies to calls that do not pass mutable state
        if any(has_mref(v) for v in vals): return None
        v = mkn('call', 'fn ' + name, *vals)
        # what is shown of the summarised function where it is analysed (C19: it never fails, and a result without ground truth is not correct)
        if name.endswith('PerceptionResult::is_result_correct'): return models.ok_l(ite(models.opt_is_none(fld(vals[0], '', 'ground_truth_object')), FALSE, B(fld(v, 'Ok', '0'))))
        return c.I.typed(v, c.dty) if c.dty is not None else v
    return h

from interp import nolt
def bare(s):
    """the name without the type arguments of its last segment"""
    if not s.endswith('>'): return s
    d = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == '>' and s[i - 1] != '-': d += 1
        elif s[i] == '<':
            d -= 1
            if d == 0: return s[:i - 2] if s[:i].endswith('::') else s
    return s
def index(prog):
    ix = getattr(prog, '_ix', None)
    if ix is None:
        ix = prog._ix = ({}, {}, {}, {})
        for fs, k in ((prog.fns, 0), (prog.gen, 2)):
            for f in fs.values():
                if not f.rec['local'] or f.rec['closure']: continue
                ix[k].setdefault(nolt(f.sym), []).append(f)
                ix[k + 1].setdefault(nolt(f.rec['def']), []).append(f)
                b = bare(nolt(f.sym))
                if b != nolt(f.rec['def']): ix[k + 1].setdefault(b, []).append(f)
    return ix
def find(prog, name):
    """the function of that name (lifetimes aside); of that definition if its type arguments changed"""
    f = prog.fns.get(name) or prog.gen.get(name)
    if f is not None: return f
    s0, d0, s1, d1 = index(prog)
    n = nolt(name)
    for ix in (s0, d0, s1, d1):
        if ix.get(n): return ix[n][0]
    b = bare(n)
    if b != n:
        c = d0.get(b, [])
        if len(c) == 1: return c[0]
        if not c and d1.get(b): return d1[b][0]
    return None

def moved(prog, name):
    """the function of that (type and) name if it moved to another module"""
    import re
    segs = re.split(r'::(?![^<]*>)', name)
    if name.startswith('<'): return None
    tail = '::'.join(segs[-2:]) if len(segs) > 1 and segs[-2][:1].isupper() else segs[-1]
    c = [f for f in list(prog.fns.values()) + list(prog.gen.values()) if f.rec['local'] and not f.rec['closure'] and 'vp_' not in f.sym and (f.sym == tail or f.sym.endswith('::' + tail))]
    return c[0] if len(c) == 1 else None

def ptypes(P, f):
    return [f.rec['locals'][i + 1][0] for i in range(f.rec['argc'])]

def argument(I, i, name, ti, st, outs):
    t = I.P.types[ti]
    if t['k'] == 'mut':
        j = I.P.strip(ti)
        c = I.newcell(j); st[c] = I.typed(name, j); outs.append((i, c))
        return mref(c)
    return I.typed(name, ti)

import re
def canon(s):
    s = re.sub(r"'[a-z_0-9]+ ?", '', s)
    m = re.fullmatch(r'std::vec::Vec<(.*)>', s)
    if m: s = '[%s]' % m.group(1)
    if s == 'std::string::String': s = 'str'
    return s

def evaluate(I, f, names):
    st = {}; outs = []; args = []
    for i, ti in enumerate(ptypes(I.P, f)): args.append(argument(I, i, names[i], ti, st, outs))
    v, ok = I.call_fn(f, args, st)
    v = I.deref(v, st)
    pans = list(I.pstack[-1])
    I.straight = ok
    for _, _, c in pans: ok = AND(ok, NOT(c))     # also those met inside loops
    return v, ok, [st.get(c, BOT) for _, c in outs], pans

class Engine:
    def __init__(self, impl, ref, log=None):
        self.impl = Side(impl, 'impl'); self.ref = Side(ref, 'ref')
        self.cache = {}

    def names(self, f):
        """shared parameter nodes, named by the reference's types"""
        P = self.ref.P
        return [mkn('param', i, canon(P.types[P.strip(t)]['s'])) for i, t in enumerate(ptypes(P, f))]

    def decide(self, name, spec=None, stubs=(), limit=120, what=('value', 'out', 'ok'), given=None):
        key = (name, spec, tuple(sorted(stubs)), what, given)
        r = self.cache.get(key)
        if r is None:
            r = self._decide(name, spec, stubs, limit, what, given)
            self.cache[key] = r
        return r

    def _decide(self, name, spec, stubs, limit, what, given):
        t0 = time.time(); n0 = len(T._all)
        ob = name if not spec else '%s = %s' % (name, spec)
        g = find(self.ref.P, spec or name)
        if g is None: raise Exception('no reference for ' + (spec or name))
        f = find(self.impl.P, name) or moved(self.impl.P, name)
        if f is None: 
            r = Result(ob, 'missing', 'function %s is gone' % name); r.key = name
            return r
        r = Result(ob, 'undecided')
        r.key = name
        if f.rec['argc'] != g.rec['argc']:
            r.why = 'signature of %s changed' % name
            return r
        done = False
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(limit))
        try:
            names = self.names(g)
            J = self.ref.interp(stubs); T.SOLVE[0] = J.solve
            rv, rok, routs, _ = evaluate(J, g, names)
            I = self.impl.interp(stubs); T.SOLVE[0] = I.solve
            iv, iok, iouts, pans = evaluate(I, f, names)
            r.fns = len(I.visited); r.panics = pans
            if 'err' not in what: iv, rv = noerr(iv), noerr(rv)
            if given is not None:
                iv, rv, iok, rok = [given(x) for x in (iv, rv, iok, rok)]
                iouts = [given(x) for x in iouts]; routs2 = [given(x) for x in routs]; routs = routs2
            loose = AND(I.straight, J.straight); r.must = (I.straight, J.straight)
            self.compare(r, f, iv, iok, iouts, rv, rok, routs, what, list(I.notes), list(J.notes), loose)
            found = [r] if r.status == 'violated' else []
            kinds = r.left
            every = [T.upds, T.ranges, T.equals, T.cared, T.sorts, lookups]
            def composed(x):
                for tr in every: x = tr(x)
                return x
            for tr in ([T.sharpen, unit_norm] if NORMED.search(name) else [T.sharpen]) + [lookups] + every[:-1] + [composed]:
                # the same comparison of simplified summaries
                if r.status == 'proved': break
                t = lambda x: tr(x) if isinstance(x, N) else x
                r2 = Result(ob, 'undecided'); r2.key = name; r2.panics = pans; r2.must = (t(r.must[0]), t(r.must[1]))
                a = (t(iv), t(iok), [t(x) for x in iouts]); b = (t(rv), t(rok), [t(x) for x in routs])
                self.compare(r2, f, *a, *b, what, [], [], t(loose))
                if r2.status == 'violated' and not r.feat.get('notes'): found.append(r2)
                if r2.left is not None: kinds = r2.left if kinds is None else kinds & r2.left
                if kinds is not None and not kinds: r.status = 'proved'; r.why = ''
            r.left = kinds
            if r.status != 'proved' and kinds is not None:
                # a mismatch of what some simplification proves the same is none
                found = [q for q in found if q.left <= kinds]
                if not found and r.status == 'violated': r.status = 'undecided'; r.why = 'undecided: ' + r.why
                elif found and r.status == 'undecided': r.status = 'violated'; r.why = found[0].why; r.feat = found[0].feat
            if r.status != 'proved': self.peeled(r, f, [iv, iok] + list(iouts), [rv, rok] + list(routs), what)
            if r.status != 'proved' and r.status != 'violated' and I.notes: r.why += ' notes: %s' % I.notes[:3]
        except Timeout:
            r.why = 'time limit (%d s)' % limit
        except Limit as e:
            r.why = 'node limit'
        except (Unsupported, Stop) as e:
            r.why = 'not analysed: %s' % e
        except RecursionError:
            r.why = 'recursion limit'
        except MemoryError:
            r.why = 'memory'
        except Exception as e:
            if os.environ.get('VP_DEBUG'): raise
            r.why = 'analyser error: %r' % (e,)
        else: done = True
        finally:
            if not done: r.status = 'undecided'
            signal.alarm(0); signal.signal(signal.SIGALRM, old)
        r.secs = time.time() - t0; r.nodes = len(T._all) - n0
        return r

    def compare(self, r, f, iv, iok, iouts, rv, rok, routs, what, inotes, rnotes, loose=TRUE):
        both = AND(iok, rok)
        diffs = []
        if 'value' in what:
            self.same('result', iv, rv, both, diffs, loose)
        if 'out' in what:
            if len(iouts) != len(routs): r.why = 'signature changed'; return
            for i, (x, y) in enumerate(zip(iouts, routs)): self.same('state %d' % i, x, y, both, diffs, loose)
        if 'ok' in what:
            # wherever the reference returns, the implementation returns
            bad = AND(rok, NOT(iok))
            if bad is not FALSE and not peel.impossible(bad): diffs.append(('panic', bad, FALSE))
        r.left = {k for k, _, _ in diffs}
        if not diffs:
            r.status = 'proved'; return
        rall = [rv, rok] + list(routs)
        # what is the same, or is not asked, is not part of the mismatch
        if 'result' not in r.left: iv = rv = UNIT
        if 'ok' in what and ('panic' not in r.left or len(r.left) > 1): iok = rok = TRUE
        if not any(k.startswith('state') for k in r.left): iouts = routs = []
        fi = {}; fr = {}
        for x in [iv, iok] + list(iouts):
            for k, n in features(x).items(): fi[k] = fi.get(k, 0) + n
        for x in rall:
            for k, n in features(x).items(): fr[k] = fr.get(k, 0) + n
        new = [k for k in fi if k not in fr and not known(k)]
        lost = [k for k in fr if k not in fi]
        newnotes = [n for n in inotes if not any(n.split(' (')[0] == m.split(' (')[0] for m in rnotes)]
        kind, a, b = diffs[0]
        d = differ(a, b)
        txt = '%s of %s differs from its definition' % (kind, f.sym) if kind != 'panic' else '%s can panic where its definition returns' % f.sym
        if d is not None:
            p, x, y = d
            txt += '\n    at %s\n    code:       %s\n    definition: %s' % ('/'.join('%s.%s' % q for q in p[-6:]) or 'top', cut(x), cut(y))
        if kind == 'panic':
            pk = [q for q in r.panics if AND(q[2], NOT(iok)) is not FALSE][:4]
            txt += '\n    panic sites: %s' % ', '.join('%s in %s' % (q[0], q[1][0] if isinstance(q[1], tuple) else q[1]) for q in pk)
        r.why = txt
        r.feat = {'new': new, 'lost': lost, 'notes': newnotes}
        off = bool(new) or bool(newnotes) or not localised([iv, iok] + list(iouts), [rv, rok] + list(routs), rall)
        if not off and listy([(iv, rv), (iok, rok)] + list(zip(iouts, routs))): off = True
        if kind == 'panic' and AND(r.must[1], NOT(r.must[0])) is FALSE: off = True       # met inside loops only
        if off:
            r.status = 'undecided'
            r.why = 'undecided (constructs without theory: new %s, gone %s%s): ' % (new[:4], lost[:4], '; ' + newnotes[0] if newnotes else '') + txt
        else:
            r.status = 'violated'

    def peeled(self, r, f, I, R, what):
        """the verdict on a mismatch between constructs without theory, by the summaries whose loops are peeled"""
        import peel
        if 'ok' in what and peel.impossible(AND(R[1], NOT(I[1]))): I = [I[0], OR(I[1], R[1])] + list(I[2:])
        I, R = focus(I, R)
        if r.status == 'violated':
            ops = lambda ts: frozenset().union(*[opaques(x) for x in ts])
            if ops(I) == ops(R): return
            if peel.compare(I, R, what, self.exported(f))[0] == peel.SAME:
                r.status = 'undecided'; r.why = 'undecided (the loops differ, their peeled iterations do not): ' + r.why
        elif r.status == 'undecided' and r.feat and not r.feat.get('notes') and all(k.split('/')[0] in GENERIC or known(k) for k in r.feat['new']):
            q, k, found = peel.compare(I, R, what, self.exported(f))
            if q == peel.DIFF:
                r.status = 'violated'
                x, y, asg = found
                r.why = '%s differs from its definition for lists of length %d\n    code:       %s\n    definition: %s\n    where %s' % (f.sym, k, cut(x), cut(y), cut_all(asg))
    def exported(self, f):
        return any(s['vis'] == 'Public' and nolt(s['def']) == nolt(f.rec['def']) for s in self.impl.P.d['sigs'])
    def same(self, kind, x, y, both, diffs, loose):
        if x is y: return
        for cond in dict.fromkeys((loose, both)):
            a, b = ite(cond, x, BOT), ite(cond, y, BOT)
            if a is b: return
            if mapsame(a, b): return
        diffs.append((kind, a, b))

NORMED = re.compile(r'^utils::math::(?!inverse)|DynamicObject|NuScenesBox|^<?matching::|get_sample_data$')
def unit_norm(x):
    """orientations have norm one: w is, up to its sign, the root of what x, y, z leave"""
    def f(y):
        if y.op != 'ai' or y.a[1] != 0 or y.a[2] != 4: return None
        w = T.F1
        for k in (1, 2, 3):
            c = mkn('ai', y.a[0], k, 4); T.FLOATS.add(c)
            w = T.fsub(w, T.fmul(c, c))
        return T.fsqrt(w)
    return T.rewrite(x, f)

def spine(x):
    """the decisions between the values of a summary"""
    seen = set(); st = [x]; out = []
    while st:
        y = st.pop()
        if not isinstance(y, N) or y.op != 'ite' or y in seen: continue
        seen.add(y)
        if y.a[0] not in seen: seen.add(y.a[0]); out.append(y.a[0])
        st += [y.a[2], y.a[1]]
    return out
def focus(I, R):
    """the summaries where they may differ: a decision with one outcome for which all are the same is taken the other way"""
    done = set(); path = TRUE
    while True:
        cs = [c for c in dict.fromkeys(c for x, y in zip(I, R) if x is not y for c in spine(x) + spine(y)) if c not in done]
        again = False
        for c in cs:
            done.add(c)
            P = {}
            for v in (True, False): P[v] = [(T.restrict(x, {c: v}), T.restrict(y, {c: v})) if isinstance(x, N) and isinstance(y, N) else (x, y) for x, y in zip(I, R)]
            same = [v for v in P if all(x is y or x == y for x, y in P[v])]
            if len(same) == 1:
                I, R = [x for x, _ in P[not same[0]]], [y for _, y in P[not same[0]]]
                path = AND(path, NOT(asbool(c)) if same[0] else asbool(c))
                again = True
        if not again:
            I[1], R[1] = AND(path, I[1]), AND(path, R[1])
            return I, R

def lookups(x):
    """maps built by loops as their lookup functions"""
    def f(y):
        if y.op != 'mfold': return None
        k = fresh('key')
        q = T.mfold_query(y, k)
        if q is None: return None
        return mkn('mfun', T.mklam([k], q[0]), T.mklam([k], q[1]))
    return T.rewrite(x, f)

def cut_all(asg):
    s = '; '.join('%s%s' % ('' if v else 'not ', show(a, 8)) for a, v in list(asg.items())[-8:])
    return s if len(s) <= 900 else s[:900] + ' ...'

def noerr(v):
    """a result whose error is of any kind"""
    if not isinstance(v, N): return v
    return mapleaves(lambda l: err(UNIT) if l.op == 'adt' and l.a[0] == 'std::result::Result' and l.a[1] == 'Err' else l, v)

def cut(x, n=600):
    s = show(x, 14) if isinstance(x, N) else str(x)
    return s if len(s) <= n else s[:n] + ' ...'

MAPOPS = ('mset', 'mdel', 'mfold', 'mempty', 'mfun')
def mapsame(a, b, depth=0):
    """equal up to the order of updates of maps: compared by the lookup of an arbitrary key"""
    if a is b: return True
    if not isinstance(a, N) or not isinstance(b, N): return a == b
    ismap = lambda n: any(l.op in MAPOPS for l in leaves(n))
    if ismap(a) and ismap(b):
        k = fresh('key')
        return mlookup(a, k) is mlookup(b, k)
    if depth < 6 and a.op == b.op and len(a.a) == len(b.a) and a.op in ('adt', 'tup', 'seq', 'ite', 'call'):
        def s(x, y):
            if isinstance(x, tuple) and isinstance(y, tuple): return len(x) == len(y) and all(s(p, q) for p, q in zip(x, y))
            return mapsame(x, y, depth + 1)
        return all(s(x, y) for x, y in zip(a.a, b.a))
    return False

def load(inject=None):
    path, key = build.dump(inject=inject)
    impl = Prog(path, 'impl')
    ref = Prog(REF, 'ref')
    return impl, ref, key
