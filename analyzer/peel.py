"""Loops peeled.  A summary holds for lists of every length; here the lengths of the lists that come from the parameters are fixed to
small numbers, so that every loop over them comes apart into its iterations.  Summaries that are different constructs without theory
(two recurrences, say) are comparable then: if what is left is free of loops on both sides and differs, they differ; if nothing
differs at any of the sizes, what the unpeeled summaries differ in need not matter.  Never used to discharge an obligation."""
from terms import *
import terms as T, time

LOOPS = ('fold', 'mfold', 'extremum', 'agg', 'while', 'foldv', 'extv', 'wn', 'wat')
ROOTS = ('param', 'fld', 'idx', 'tf', 'call', 'mget', 'ai', 'entries', 'eval', 'first')
SIZES = [lambda k: 1, lambda k: 2, lambda k: 1 + sum(map(ord, k)) % 2, lambda k: 2 - sum(map(ord, k)) % 2, lambda k: 0]
STEPS = 4         # iterations of a loop that follows links
CUTOFF = mkn('unk', 'more steps')
MOST = 40000      # nodes
SPAN = 12         # seconds per size

def key(x):
    """lists of one name (parameter, last field) get one length"""
    if x.op == 'param': return 'p%d' % x.a[0]
    if x.op == 'fld' and x.a[2] not in ('0',): return T.SAMELEN.get(x.a[2], x.a[2])
    if x.op in ('idx', 'fld', 'entries', 'first', 'ai', 'tf', 'mget', 'eval'): return x.op + key(x.a[0])
    return x.op

def each(f, x):
    return mapleaves(lambda l: BOT if l is BOT else f(l), x)

def step(bv, accs, vals, i, t):
    m = {bv: inum(i)}
    for a, v in zip(accs, vals): m[a] = v
    return subst(t, m)

class Much(Exception): pass

class Peel:
    def __init__(self, size, n0):
        self.size = size; self.n0 = n0; self.end = time.time() + SPAN
    def check(self):
        if len(T._all) - self.n0 > MOST or time.time() > self.end: raise Much()
    def count(self, n):
        return n.op == 'num' and 0 <= n.a[1] <= 6
    def fold(self, x):
        """the values after the last iteration"""
        self.check()
        lv, n, inits, nexts = x.a
        bv = mkn('bv', lv); accs = [mkn('bv', lv, j) for j in range(len(inits))]
        vals = list(inits)
        for i in range(int(n.a[1])): vals = [step(bv, accs, vals, i, t) for t in nexts]
        return vals
    def state(self, W, k):
        """the state after k steps of an endless loop, and whether it leaves there"""
        self.check()
        r = self.memo.get((W, k))
        if r is None:
            accs = [mkn('bv', W.a[0], j) for j in range(len(W.a[1]))]
            if k == 0: v = list(W.a[1])
            else:
                m = dict(zip(accs, self.state(W, k - 1)[0]))
                v = [subst(t, m) for t in W.a[2]]
            r = self.memo[(W, k)] = (v, subst(W.a[3], dict(zip(accs, v))))
        return r
    def extremum(self, x):
        lv, n, k, kind = x.a
        c = int(n.a[1])
        if c == 0: return BOT
        if 'bv' in kind: return None
        ks = [subst(k, {mkn('bv', lv): inum(i)}) for i in range(c)]
        for kd in ('f', 'i', 'o'):
            if kind in [kd + e + t for e in ('min', 'max') for t in ('first', 'last')]: break
        else: return None
        lt = {'f': flt, 'i': ilt, 'o': olt}[kd]
        bi, b = I0, ks[0]
        for i in range(1, c):
            mn = 'min' in kind
            better = lt(ks[i], b) if mn else lt(b, ks[i])
            worse = lt(b, ks[i]) if mn else lt(ks[i], b)
            take = better if kind.endswith('first') else NOT(worse)
            bi, b = ite(take, inum(i), bi), ite(take, ks[i], b)
        return bi
    def overmap(self, m, one, none):
        """of maps with at most one entry"""
        ls = list(leaves(m))
        if not all(l.op == 'mempty' or l.op == 'mset' and l.a[0].op == 'mempty' for l in ls if l is not BOT): return None
        return mapleaves(lambda l: BOT if l is BOT else none if l.op == 'mempty' else one(l.a[1], l.a[2]), m)
    def f(self, x):
        op = x.op
        if op == 'len':
            y = x.a[0]
            if y.op == 'entries': return self.overmap(y.a[0], lambda k, v: I1, I0)
            if y.op in ROOTS and not any(z.op == 'bv' for z in y.fv): return inum(self.size(key(y)))
            return None
        if op in ('ekey', 'eval') and x.a[1] is I0: return self.overmap(x.a[0], lambda k, v: k if op == 'ekey' else v, BOT)
        if op in ('sorted', 'sortedu') and x.a[0].op == 'seq' and len(x.a[0].a) < 2: return x.a[0]
        if op == 'fold' and self.count(x.a[1]) and len(x.a[2]) == 1: return self.fold(x)[0]
        if op == 'proj' and x.a[0].op == 'fold' and self.count(x.a[0].a[1]):
            k = x.a[0]
            if k not in self.memo: self.memo[k] = self.fold(k)
            return self.memo[k][x.a[1]]
        if op == 'mfold' and self.count(x.a[1]):
            self.check()
            v = x.a[2]
            for i in range(int(x.a[1].a[1])): v = step(mkn('bv', x.a[0]), [mkn('bv', x.a[0], 0)], [v], i, x.a[3])
            return v
        if op == 'extremum' and self.count(x.a[1]): return self.extremum(x)
        if op in ('wn', 'wat') and x.a[0].a[1] and not any(z.op == 'bv' for z in x.fv):
            W = x.a[0]
            if op == 'wn':
                r = CUTOFF
                for i in reversed(range(STEPS)): r = ite(asbool(self.state(W, i)[1]), inum(i), r)
                return r
            if x.a[2].op == 'num' and 0 <= x.a[2].a[1] < STEPS: return self.state(W, int(x.a[2].a[1]))[0][x.a[1]]
        if op == 'eq':
            p, q = x.a
            if isinstance(p, N) and isinstance(q, N) and p.op == q.op == 'ekey' and p.a[0] is q.a[0] and p.a[1].op == q.a[1].op == 'num' and p.a[1] is not q.a[1]: return FALSE
        if op == 'ite' and any(l.op in ('fold', 'mfold', 'extremum', 'proj', 'len') for l in leaves(x)):
            r = mapleaves(lambda l: self.f(l) or l, x)
            return None if r is x else r
        return None
    def run(self, ts):
        for _ in range(7):
            self.memo = {}
            new = [T.rewrite(t, self.f) if isinstance(t, N) else t for t in ts]
            self.check()
            if new == ts: break
            ts = new
        return ts

def loops(ts):
    return any(y.op in LOOPS for t in ts if isinstance(t, N) for y in [t, *subterms(t)])
def bounded(ts):
    """nothing is left that depends on a length"""
    return not any(y.op in LOOPS or y.op in T.BINDERS and y.op != 'lam' for t in ts if isinstance(t, N) for y in [t, *subterms(t)])

# ---------------------------------------------------------------- comparison under what a branch knows
def linear(p, kind):
    """monomial -> coefficient, constant under None"""
    return {(m or None): c for m, c in T.topoly(p, kind).items()}

class Facts:
    """the decisions on the way to a leaf; inconsistent ones are detected where they are equalities or linear comparisons"""
    def __init__(self, asg, sure=False): self.asg = asg; self.sure = sure     # sure: inconsistent only if that is certain
    def consistent(self):
        cons, diseq, ints = [], [], set()
        R = {}
        def add(p, kind, strict):
            # p < 0 or p <= 0
            l = linear(p, kind)
            if kind == 'i':
                for m in l:
                    if m is not None: ints.add(m)
                if strict: l[None] = l.get(None, 0) + 1; strict = False
            cons.append((l, strict))
        for a, v in self.asg.items():
            if a.op in ('flt', 'fle'):
                p = a.a[0]
                if v: add(p, 'f', a.op == 'flt')
                else: add(T.fneg(p), 'f', a.op == 'fle')
            elif a.op == 'ilt':
                p = a.a[0]
                if v: add(p, 'i', True)
                else: add(ineg(p), 'i', False)
            elif a.op in ('feq', 'ieq'):
                p, kind = (a.a[0], 'f') if a.op == 'feq' else (iadd(a.a[0], inum(a.a[1])), 'i')
                q = T.fneg(p) if kind == 'f' else ineg(p)
                if v: add(p, kind, False); add(q, kind, False)
                else: diseq.append((p, q, kind))
            elif a.op == 'olt' and v:
                if self.asg.get(mkn('olt', a.a[1], a.a[0])): return False
        # equalities of other values
        up = {}
        def root(x):
            while x in up: x = up[x]
            return x
        for a, v in self.asg.items():
            if a.op in ('eq', 'eqc') and v:
                x, y = root(a.a[0]), root(a.a[1])
                if x is not y and x != y:
                    if isinstance(x, str): x, y = y, x
                    if isinstance(x, str): return False
                    up[x] = y
        # the elements of a list (of labels, say) are taken to be different from each other
        el = {}
        for x in [y for y in set(up) | set(up.values()) if not self.sure and isinstance(y, N) and y.op == 'idx' and y.a[1].op == 'num']:
            if el.setdefault((x.a[0], root(x)), x) is not x: return False
        for a, v in self.asg.items():
            if a.op in ('eq', 'eqc', 'olt') and v == (a.op == 'olt'):
                x, y = root(a.a[0]), root(a.a[1])
                if x is y or isinstance(x, str) and x == y: return False
        # what is known of the unknowns
        ms = {m for l, _ in cons for m in l if m is not None}
        for m in ms:
            if m in ints and all(x in T.NONNEG for x, _ in m) or len(m) == 1 and (m[0][1] % 2 == 0 or m[0][0].op == 'abs' or m[0][0].op == 'fn' and m[0][0].a[0] == 'sqrt'):
                cons.append(({m: -1}, False))
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'idx':
                # a place among the sorted places of a list is one of them
                q = m[0][0].a[0]
                if q.op in ('sorted', 'sortedu') and q.a[0].op == 'comp' and T.sidx(q.a[0], T.I1) is T.I1:
                    l = linear(isub(m[0][0], T.slen(q)), 'i'); l[None] = l.get(None, 0) + 1
                    cons += [(l, False), ({m: -1}, False)]
        if self.empty(cons): return False
        for p, q, kind in diseq:
            l1, l2 = linear(p, kind), linear(q, kind)
            if not any(m in ms for m in l1): continue
            if self.empty(cons + [(l1, True)]) and self.empty(cons + [(l2, True)]): return False
        return True
    def empty(self, cons):
        """no solution: the unknowns eliminated one by one"""
        cons = list(cons)
        while True:
            out = []
            for l, s in cons:
                l = {m: c for m, c in l.items() if c != 0 or m is None}
                if not any(m is not None for m in l):
                    c = l.get(None, 0)
                    if c > 0 or c == 0 and s: return True
                else: out.append((l, s))
            cons = out
            if not cons: return False
            ms = {}
            for l, _ in cons:
                for m, c in l.items():
                    if m is not None:
                        p = ms.setdefault(m, [0, 0]); p[c > 0] += 1
            m = min(ms, key=lambda m: (ms[m][0] * ms[m][1], [x.id for x, _ in m]))
            pos = [(l, s) for l, s in cons if l.get(m, 0) > 0]; neg = [(l, s) for l, s in cons if l.get(m, 0) < 0]
            cons = [(l, s) for l, s in cons if not l.get(m, 0)]
            for l, s in pos:
                for k, t in neg:
                    a, b = -k[m], l[m]
                    r = {}
                    for d, f in ((l, a), (k, b)):
                        for q, c in d.items(): r[q] = r.get(q, 0) + c * f
                    r[m] = 0
                    cons.append((r, s or t))
            if len(cons) > 150: return not self.sure
    def apply(self, x):
        return T.eqsub(x, T.eqrules(self.asg))

def paths(c, asg, most):
    """the consistent ways to make c true"""
    if c is FALSE or not Facts(asg, True).consistent(): return
    if c is TRUE:
        most[0] -= 1
        if most[0] < 0: raise Much()
        yield asg; return
    a = c.a[0]
    for v in (True, False): yield from paths(T.restrict(c, {a: v}), {**asg, a: v}, most)
def impossible(c):
    """no state satisfies the condition c: every way to do so contradicts what it says of the elements it says to exist"""
    try:
        most = [200]
        for asg in paths(c, {}, most):
            there = [a for a, v in asg.items() if a.op == 'any' and v]
            if not there: return False
            S = TRUE; vs = []
            for a in there:
                v = fresh('i', True)
                vs.append(v)
                S = AND(S, ilt(v, a.a[1]), asbool(T.inst(a.a[2], a.a[0], v)))
            for a, b in asg.items():
                if a.op != 'any' or b: continue
                for v in vs: S = AND(S, NOT(AND(ilt(v, a.a[1]), asbool(T.inst(a.a[2], a.a[0], v)))))
            for _ in paths(T.restrict(S, asg), asg, most): return False
        return True
    except (Much, RecursionError): return False

SAME, DIFF, UNKNOWN = 'same', 'differ', 'unknown'
def vague(t, common):
    return any((z.op in VAGUE or z.op in ('entries', 'ekey', 'eval') and z.a[0].op not in ROOTS) and z not in common for z in subterms(t))
VAGUE = ('sorted', 'sortedu', 'unk', 'out', 'cap', 'while', 'wn', 'wat', 'fold', 'mfold', 'extremum', 'agg', 'foldv', 'extv', 'clo')
class Compare:
    def __init__(self, n0, common): self.steps = 0; self.found = None; self.n0 = n0; self.common = common
    def both(self, x, y, asg):
        """are x and y the same wherever asg holds?"""
        self.steps += 1
        if self.steps > 4000 or len(T._all) - self.n0 > MOST: raise Much()
        if x is y: return SAME
        if not isinstance(x, N) or not isinstance(y, N): return SAME if x == y else self.leaf(x, y, asg)
        if x.op == 'ite' or y.op == 'ite':
            a = min([z.a[0] for z in (x, y) if z.op == 'ite'], key=lambda a: a.id)
            r = SAME
            for v in (True, False):
                f = dict(asg); f[a] = v
                if not isinstance(a.a[0], N) or a.op in ('flt', 'fle', 'feq', 'ilt', 'ieq', 'eq', 'eqc', 'olt'):
                    if not Facts(f).consistent(): continue
                q = self.both(T.restrict(x, {a: v}), T.restrict(y, {a: v}), f)
                if q == DIFF: return DIFF
                if q == UNKNOWN: r = UNKNOWN
            return r
        if x is BOT or y is BOT: return self.leaf(x, y, asg)
        if any(z.op in ('mset', 'mdel', 'mempty', 'mfun') for z in (x, y)):
            if any(z.op in ('mset', 'mdel', 'mempty', 'mfun', 'mfold') or z.op in ROOTS for z in (x,)) and any(z.op in ('mset', 'mdel', 'mempty', 'mfun', 'mfold') or z.op in ROOTS for z in (y,)):
                k = fresh('key')
                return self.both(mlookup(x, k), mlookup(y, k), asg)
            return UNKNOWN
        if x.op == y.op and len(x.a) == len(y.a) and x.op in ('adt', 'tup', 'seq', 'call', 'L'):
            if x.op == 'adt' and x.a[:2] != y.a[:2] or x.op == 'call' and x.a[0] != y.a[0]: return self.leaf(x, y, asg)
            r = SAME
            for p, q in zip(flat(x.a), flat(y.a)):
                if p is q or p == q: continue
                z = self.both(p, q, asg)
                if z == DIFF: return DIFF
                if z == UNKNOWN: r = UNKNOWN
            return r
        return self.leaf(x, y, asg)
    def leaf(self, x, y, asg):
        F = Facts(asg)
        if isinstance(x, N) and isinstance(y, N):
            x2, y2 = F.apply(x), F.apply(y)
            if x2 is y2: return SAME
            if any(z.op == 'ite' for z in (x2, y2)): return UNKNOWN
            if x2.op == y2.op and (x2.op, y2.op) != (x.op, y.op) and x2.op in ('adt', 'tup', 'seq', 'call'): return self.both(x2, y2, asg)
            x, y = x2, y2
            if any(vague(t, self.common) for t in (x, y)): return UNKNOWN
            if any(vague(t, self.common) for t in asg): return UNKNOWN
            if any(a.op in ('feq', 'ieq') and v for a, v in asg.items()) and (T.isf(x) or T.isi(x)) and not apart(x, y): return UNKNOWN
        if not F.consistent(): return SAME
        self.found = (x, y, asg)
        return DIFF
def apart(x, y):
    """different whatever holds of the values in them"""
    if x in (TRUE, FALSE) and y in (TRUE, FALSE) or x.op == y.op == 'num': return x is not y
    return x.op == y.op == 'seq' and len(x.a) != len(y.a) or x.op == y.op == 'adt' and x.a[:2] != y.a[:2]
def flat(t):
    for x in t:
        if isinstance(x, tuple): yield from flat(x)
        else: yield x

def spread(x):
    """choices inside arguments of calls, maxima and absolute values as choices between whole values"""
    op = x.op
    if op == 'call' and any(isinstance(y, N) and y.op == 'ite' for y in x.a):
        idx = [i for i, y in enumerate(x.a) if isinstance(y, N)]
        def go(*v):
            b = list(x.a)
            for i, z in zip(idx, v): b[i] = z
            return mkn('call', *b)
        return lift(('spread', x.a[0], len(x.a)) + tuple(y for y in x.a if not isinstance(y, N)), go, tuple(x.a[i] for i in idx))
    if op in ('fmax', 'fmin', 'imax', 'imin'):
        lt = flt if op[0] == 'f' else ilt
        r = x.a[0]
        for y in x.a[1:]: r = ite(lt(r, y), y, r) if op.endswith('max') else ite(lt(y, r), y, r)
        return r
    if op == 'abs':
        k = x.a[1]
        return ite(flt(x.a[0], T.F0), T.fneg(x.a[0]), x.a[0]) if k == 'f' else ite(ilt(x.a[0], I0), ineg(x.a[0]), x.a[0])
    return None

def compare(I, R, what, mixed):
    """I and R: value, returns, states of code and definition.  SAME at every size, DIFF at one, or UNKNOWN"""
    out = SAME
    # a list of one name may be empty only if the loops over it are the difference
    for size in SIZES if mixed else SIZES[:2] + SIZES[-1:]:
        n0 = len(T._all)
        try:
            P = Peel(size, n0)
            x, y = P.run(list(I)), P.run(list(R))
            both = AND(x[1], y[1])
            ps = []
            if 'value' in what: ps.append((ite(both, x[0], BOT), ite(both, y[0], BOT)))
            if 'out' in what: ps += [(ite(both, p, BOT), ite(both, q, BOT)) for p, q in zip(x[2:], y[2:])]
            if 'ok' in what: ps.append((AND(y[1], NOT(x[1])), FALSE))
            for p, q in ps:
                if p is q: continue
                for _ in range(4):
                    o = (p, q)
                    p, q = T.rewrite(p, spread), T.rewrite(q, spread)
                    P.check()
                    if (p, q) == o: break
                if p is q: continue
                C = Compare(n0, set(subterms(p)) & set(subterms(q)))
                r = C.both(p, q, {})
                if r == DIFF: return (DIFF, size('x'), C.found)
                if r == UNKNOWN: out = UNKNOWN
        except (Much, RecursionError, Limit): out = UNKNOWN
    return (out, None, None)
