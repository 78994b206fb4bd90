"""Hash-consed value terms for global value numbering.

Every value of the analysed program is a node of one shared DAG.  Values that
depend on a branch are `ite` nodes: multi-terminal decision diagrams ordered by
the creation number of their (boolean) condition atoms, so that equal values are
the same node.  Numbers are kept as polynomials over opaque numeric nodes
(real arithmetic, i.e. modulo rounding).  Binders (comp/sum/any/first/fold) use
height-indexed bound variables, so alpha-equivalent terms are the same node.
"""
from fractions import Fraction

class Limit(Exception):
    pass

class N:
    __slots__ = ('op', 'a', 'id', 'h', 'fv', 'atoms')
    def __repr__(self):
        return show(self)

_tab = {}
_all = []
EMPTY = frozenset()
NODE_LIMIT = 12_000_000

BINDERS = ('comp', 'sum', 'any', 'first', 'fold', 'lam', 'extremum', 'agg', 'mfold', 'while')
ARRLEN = {}      # opaque array value -> length
FLOATS = set()   # nodes known to be floating point
SOLVE = [None]   # recurrence solver (set by the interpreter)

def _scan(x, acc):
    """collect (h, fv) over nested args"""
    h, fv = acc
    for y in x:
        if isinstance(y, N):
            if y.h > h: h = y.h
            if y.fv:
                fv = (fv | y.fv) if fv else y.fv
        elif isinstance(y, tuple):
            h, fv = _scan(y, (h, fv))
    return h, fv

def mkn(op, *a):
    k = (op,) + a
    n = _tab.get(k)
    if n is not None:
        return n
    n = N()
    n.op = op
    n.a = a
    n.id = len(_all)
    if n.id > NODE_LIMIT:
        raise Limit('too many nodes')
    _all.append(n)
    h, fv = _scan(a, (0, EMPTY))
    if op in BINDERS:
        lv = a[0]
        h = max(h, lv)
        fv = fv - {v for v in fv if v.op == 'bv' and v.a[0] == lv}
    n.h = h
    n.fv = fv
    n.atoms = None
    if op in ('sym', 'bv'):
        n.fv = frozenset((n,))
    if op == 'ite':
        s = {a[0]}
        if a[1].op == 'ite': s |= a[1].atoms
        if a[2].op == 'ite': s |= a[2].atoms
        n.atoms = frozenset(s)
    _tab[k] = n
    return n

TRUE = mkn('bool', True)
FALSE = mkn('bool', False)
BOT = mkn('bot')
UNIT = mkn('tup')

def boolc(b): return TRUE if b else FALSE

_uid = [0]
def fresh(tag='', nonneg=False):
    _uid[0] += 1
    s = mkn('sym', tag, _uid[0])
    if nonneg: NONNEG.add(s)
    return s

# ---------------------------------------------------------------- atoms / DDs
NONNEG = set()
_isgrp = {}      # x -> [atoms]   (enum variants, in order)
_eqgrp = {}      # x -> [atoms]   (x == const)
VARIANTS = {'std::option::Option': ['None', 'Some'], 'std::result::Result': ['Ok', 'Err'],
            'std::ops::ControlFlow': ['Continue', 'Break'],
            'std::cmp::Ordering': ['Less', 'Equal', 'Greater']}

def implied(atom, val):
    """other atoms decided by atom=val"""
    op = atom.op
    r = {}
    if op == 'is':
        if val:
            for o in _isgrp.get(atom.a[0], ()):
                if o is not atom: r[o] = False
        x = atom.a[0]
        if x.op == 'wat' and x.a[2].op == 'wn' and x.a[2].a[0] is x.a[0]:
            # a state of the end that is not the first one: the loop ran
            s = at_start(x, atom.a[1])
            if s is not None and s != val:
                for o in _ieq.get(x.a[2], ()):
                    if o.a[1] == 0: r[o] = False
    elif op == 'eqc':
        if val:
            for o in _eqgrp.get(atom.a[0], ()):
                if o is not atom: r[o] = False
            x, c = atom.a
            base = _tab.get(('len', x)) if isinstance(c, str) else None
            if base is not None:
                k = len(c.encode())
                for o in _ieq.get(base, ()): r[o] = o.a[1] + k == 0
                for o in _ilt.get(base, ()): r[o] = split_const(o.a[0], 'i')[1] + k < 0
    elif op == 'flt':
        p = atom.a[0]
        q = fneg(p)
        if val:
            for k, v in ((('fle', p), True), (('flt', q), False), (('fle', q), False), (('feq', p), False), (('feq', q), False)):
                o = _tab.get(k)
                if o is not None: r[o] = v
    elif op == 'fle':
        p = atom.a[0]
        q = fneg(p)
        if val:
            o = _tab.get(('flt', q))
            if o is not None: r[o] = False
        else:
            for k in (('flt', p), ('feq', p), ('feq', q)):
                o = _tab.get(k)
                if o is not None: r[o] = False
    elif op == 'feq':
        p = atom.a[0]
        q = fneg(p)
        if val:
            for k, v in ((('flt', p), False), (('flt', q), False), (('fle', p), True), (('fle', q), True)):
                o = _tab.get(k)
                if o is not None: r[o] = v
    elif op == 'ilt':
        # p<0 ; relate to other comparisons of the same linear form up to a constant
        p = atom.a[0]
        base, c = split_const(p, 'i')
        for o in _ilt.get(base, ()):
            if o is atom: continue
            c2 = split_const(o.a[0], 'i')[1]
            if val and c2 <= c: r[o] = True      # base + c < 0 -> base + c2 < 0
            if not val and c2 >= c: r[o] = False
        for o in _ieq.get(base, ()):
            c2 = o.a[1]          # base + c2 == 0
            if val and -c2 + c >= 0: r[o] = False
            if not val and -c2 + c < 0: r[o] = False
    elif op == 'ieq':
        base, c = atom.a
        if val:
            for o in _ieq.get(base, ()):
                if o is not atom: r[o] = False
            if base.op == 'wn' and c == 0:
                W = base.a[0]
                for j in range(len(W.a[1])):
                    x = _tab.get(('wat', W, j, base))
                    for o in _isgrp.get(x, ()) if x is not None else ():
                        s = at_start(x, o.a[1])
                        if s is not None: r[o] = s
            if base.op == 'len':
                for o in _eqgrp.get(base.a[0], ()):
                    if isinstance(o.a[1], str) and len(o.a[1].encode()) != -c: r[o] = False
            for o in _ilt.get(base, ()):
                c2 = split_const(o.a[0], 'i')[1]
                r[o] = (-c + c2 < 0)
    elif op == 'olt':
        a, b = atom.a
        if val:
            o = _tab.get(('olt', b, a))
            if o is not None: r[o] = False
            for k in (('eq',) + srt(a, b),):
                o = _tab.get(k)
                if o is not None: r[o] = False
    elif op == 'eq':
        a, b = atom.a
        if val:
            for k in (('olt', a, b), ('olt', b, a)):
                o = _tab.get(k)
                if o is not None: r[o] = False
    return r

def at_start(x, i):
    """is the state component x of a loop of variant i before it?"""
    c = x.a[0].a[1][x.a[1]]
    vs = VARIANTS.get(c.a[0]) if c.op == 'adt' else None
    return None if not vs or c.a[1] not in vs else vs.index(c.a[1]) == i

_ilt = {}
_ieq = {}

def srt(a, b):
    return (a, b) if a.id <= b.id else (b, a)

_restrict_memo = {}
def restrict(d, asg):
    """cofactor of DD d under {atom: bool}"""
    if d.op != 'ite' or not asg: return d
    asg = {k: v for k, v in asg.items() if k in d.atoms}
    if not asg: return d
    memo = {}
    def go(x):
        if x.op != 'ite' or x.atoms.isdisjoint(asg): return x
        r = memo.get(x)
        if r is None:
            at, hi, lo = x.a
            v = asg.get(at)
            if v is True: r = go(hi)
            elif v is False: r = go(lo)
            else: r = mk(at, go(hi), go(lo))
            memo[x] = r
        return r
    return go(d)

def _eta(c, x, i):
    """is c the constructor of variant i rebuilt from x?"""
    if c.op != 'adt': return False
    path, vn, fs = c.a
    vs = VARIANTS.get(path)
    if not vs or i >= len(vs) or vs[i] != vn: return False
    for (fn, fv) in fs:
        if not (fv.op == 'fld' and fv.a[0] is x and fv.a[1] == vn and fv.a[2] == fn): return False
    return True

_mkmemo = {}
def mk(atom, hi, lo):
    if hi is lo: return hi
    if hi is BOT: return lo
    if lo is BOT: return hi
    k = (atom, hi, lo)
    r = _mkmemo.get(k)
    if r is not None: return r
    h2, l2 = hi, lo
    if hi.op == 'ite':
        im = implied(atom, True)
        if im: h2 = restrict(hi, im)
    if lo.op == 'ite':
        im = implied(atom, False)
        if im: l2 = restrict(lo, im)
    if h2 is l2: r = h2
    elif atom.op == 'is' and (_eta(h2, atom.a[0], atom.a[1])) and (
            l2 is atom.a[0] or (atom.a[1] == atom.a[2] - 2 and _eta(l2, atom.a[0], atom.a[1] + 1))):
        r = atom.a[0]
    elif h2 is TRUE and l2 is FALSE and atom.op == 'T':
        r = TRUE
    else:
        r = None
        if atom.op in ('flt', 'fle') and h2.op in NUMOPS and l2.op in NUMOPS and isf(h2) and isf(l2):
            r = _minmax(atom, h2, l2)
        elif atom.op == 'ilt' and h2.op in NUMOPS and l2.op in NUMOPS and isi(h2) and isi(l2):
            r = _minmaxi(atom, h2, l2)
        if r is None:
            # value refinement by equality  x == c ? c-dependent
            r = mkn('ite', atom, h2, l2)
    _mkmemo[k] = r
    return r

NUMOPS = ('num', 'poly', 'fld', 'ai', 'idx', 'fn', 'fmax', 'fmin', 'abs', 'sum', 'call', 'sym', 'bv', 'param', 'recip', 'i2f', 'f2i', 'len', 'imax', 'imin', 'mget', 'proj', 'first', 'extv')
def isf(n):
    return n.op != 'num' and n.op != 'poly' or n.a[0] == 'f'
def isi(n):
    return n.op != 'num' and n.op != 'poly' or n.a[0] == 'i'

def _ratio(d, p):
    """k with d == k*p (as polynomial dicts) or None"""
    if not d or set(d) != set(p): return None
    k = None
    for m in p:
        q = d[m] / p[m]
        if k is None: k = q
        elif k != q: return None
    return k

def _minmax(atom, hi, lo):
    d = padd(topoly(hi, 'f'), topoly(lo, 'f'), -1)
    k = _ratio(d, topoly(atom.a[0], 'f'))
    if k is None: return None
    return fmin2(hi, lo) if k > 0 else fmax2(hi, lo)

def _minmaxi(atom, hi, lo):
    d = padd(topoly(hi, 'i'), topoly(lo, 'i'), -1)
    p = topoly(atom.a[0], 'i')
    # p<0 with p = k*(hi-lo) + c, |c|<=1 : equal at the boundary
    for c in (0, 1):
        q = dict(p)
        q[()] = q.get((), Fraction(0)) + c
        if q[()] == 0: del q[()]
        k = _ratio(d, q)
        if k == 1: return imin2(hi, lo)
        if k == -1: return imax2(hi, lo)
    return None

_itememo = {}
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if c is BOT: return BOT
    if a is b: return a
    if a is TRUE and b is FALSE: return c
    k = (c, a, b)
    r = _itememo.get(k)
    if r is not None: return r
    if c.op != 'ite': c = B(c)
    top = c.a[0]
    if a.op == 'ite' and a.a[0].id < top.id: top = a.a[0]
    if b.op == 'ite' and b.a[0].id < top.id: top = b.a[0]
    c1, c0 = cof(c, top); a1, a0 = cof(a, top); b1, b0 = cof(b, top)
    r = mk(top, ite(c1, a1, b1), ite(c0, a0, b0))
    _itememo[k] = r
    return r

def cof(d, atom):
    if d.op == 'ite' and d.a[0] is atom: return d.a[1], d.a[2]
    return d, d

def B(atom):
    """boolean DD of an atom"""
    if atom is TRUE or atom is FALSE or atom is BOT or atom.op == 'ite': return atom
    return mkn('ite', atom, TRUE, FALSE)

def NOT(c): return ite(c, FALSE, TRUE)
def AND(*cs):
    r = TRUE
    for c in cs: r = ite(r, c, FALSE)
    return r
def OR(*cs):
    r = FALSE
    for c in cs: r = ite(r, TRUE, c)
    return r

def asbool(v):
    if v.op == 'ite':
        # leaves may be opaque booleans
        if all(l in (TRUE, FALSE, BOT) for l in leaves(v)): return v
        return lift('asbool', asbool, (v,))
    if v is TRUE or v is FALSE or v is BOT: return v
    return B(v)

def leaves(d):
    seen = set(); out = []
    st = [d]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'ite':
            st.append(x.a[2]); st.append(x.a[1])
        else: out.append(x)
    return out

_liftmemo = {}
def lift(key, fn, args):
    """apply fn to the branch-free cases of args"""
    top = None
    for a in args:
        if a is BOT: return BOT
        if a.op == 'ite' and (top is None or a.a[0].id < top.id): top = a.a[0]
    if top is None: return fn(*args)
    k = (key, args)
    r = _liftmemo.get(k)
    if r is not None: return r
    hi = tuple(cof(a, top)[0] for a in args)
    lo = tuple(cof(a, top)[1] for a in args)
    r = ite(B(top), lift(key, fn, hi), lift(key, fn, lo))
    _liftmemo[k] = r
    return r

def mapleaves(fn, d):
    """apply python fn (uncached) to the leaves of d"""
    memo = {}
    def go(x):
        if x is BOT: return BOT
        if x.op != 'ite': 
            return fn(x)
        r = memo.get(x)
        if r is None:
            r = ite(B(x.a[0]), go(x.a[1]), go(x.a[2]))
            memo[x] = r
        return r
    return go(d)

# ---------------------------------------------------------------- numbers
def num(kind, v): return mkn('num', kind, v if isinstance(v, Fraction) else Fraction(v))
def inum(v): return num('i', v)
def fnum(v): return num('f', v)
I0 = inum(0); I1 = inum(1); F0 = fnum(0); F1 = fnum(1)

def topoly(n, kind):
    if n.op == 'num': return {(): n.a[1]} if n.a[1] != 0 else {}
    if n.op == 'poly': return dict(n.a[1])
    return {((n, 1),): Fraction(1)}

def _mkey(m): return tuple((a.id, e) for a, e in m)

def frompoly(d, kind):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items: return num(kind, 0)
    if len(items) == 1:
        m, c = items[0]
        if m == (): return num(kind, c)
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    items.sort(key=lambda t: (len(t[0]), _mkey(t[0])), reverse=True)
    return mkn('poly', kind, tuple(items))

def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * k
        if v == 0: r.pop(m, None)
        else: r[m] = v
    return r

def _mmul(m1, m2):
    d = {}
    for a, e in m1: d[a] = d.get(a, 0) + e
    for a, e in m2: d[a] = d.get(a, 0) + e
    return d

def pmul(p, q, kind):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = _mmul(m1, m2)
            extra = None
            for a in list(d):
                e = d[a]
                if e == 0: del d[a]; continue
                if e >= 2 and a.op == 'fn' and a.a[0] == 'sqrt':
                    t = ppow(topoly(a.a[1], 'f'), e // 2, kind)
                    extra = t if extra is None else pmul(extra, t, kind)
                    if e % 2: d[a] = 1
                    else: del d[a]
                elif e >= 2 and a.op == 'abs':
                    t = ppow(topoly(a.a[0], kind), 2 * (e // 2), kind)
                    extra = t if extra is None else pmul(extra, t, kind)
                    if e % 2: d[a] = 1
                    else: del d[a]
            m = tuple(sorted(d.items(), key=lambda t: t[0].id))
            c = c1 * c2
            if extra is None:
                v = r.get(m, 0) + c
                if v == 0: r.pop(m, None)
                else: r[m] = v
            else:
                r = padd(r, pmul({m: c}, extra, kind))
    if len(r) > 4000: raise Limit('polynomial too large')
    return r

def ppow(p, e, kind):
    r = {(): Fraction(1)}
    for _ in range(e): r = pmul(r, p, kind)
    return r

def _arith(kind):
    def add(a, b): return lift(('add', kind), lambda x, y: frompoly(padd(topoly(x, kind), topoly(y, kind)), kind), (a, b))
    def sub(a, b): return lift(('sub', kind), lambda x, y: frompoly(padd(topoly(x, kind), topoly(y, kind), -1), kind), (a, b))
    def mul(a, b): return lift(('mul', kind), lambda x, y: frompoly(pmul(topoly(x, kind), topoly(y, kind), kind), kind), (a, b))
    def neg(a): return lift(('neg', kind), lambda x: frompoly({m: -c for m, c in topoly(x, kind).items()}, kind), (a,))
    return add, sub, mul, neg
fadd, fsub, fmul, fneg = _arith('f')
iadd, isub, imul, ineg = _arith('i')

def leadcoef(p):
    items = sorted(p.items(), key=lambda t: (len(t[0]), _mkey(t[0])), reverse=True)
    return items[0][1]

def split_const(n, kind):
    p = topoly(n, kind)
    c = p.pop((), Fraction(0))
    return frompoly(p, kind), c

def fdiv(a, b):
    def go(x, y):
        if y.op == 'num':
            if y.a[1] == 0: return mkn('fn', 'div0', x)
            return frompoly({m: c / y.a[1] for m, c in topoly(x, 'f').items()}, 'f')
        q = topoly(y, 'f')
        if len(q) == 1:
            (m, c), = q.items()
            inv = {tuple((t, -e) for t, e in m): 1 / c}
        else:
            l = leadcoef(q)
            inv = {((mkn('recip', frompoly({m: c / l for m, c in q.items()}, 'f')), 1),): 1 / l}
        return frompoly(pmul(topoly(x, 'f'), inv, 'f'), 'f')
    return lift('fdiv', go, (a, b))

def fpowi(x, e):
    if e < 0: return fdiv(F1, fpowi(x, -e))
    return lift(('fpow', e), lambda y: frompoly(ppow(topoly(y, 'f'), e, 'f'), 'f'), (x,))

def fsqrt(x):
    def go(y):
        if y.op == 'num':
            import math
            n, d = y.a[1].numerator, y.a[1].denominator
            if n >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
                return fnum(Fraction(math.isqrt(n), math.isqrt(d)))
        p = topoly(y, 'f')
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 2: return fabs(m[0][0])
        return mkn('fn', 'sqrt', y)
    return lift('sqrt', go, (x,))

def _abs(kind):
    def go(y):
        if y.op == 'num': return num(kind, abs(y.a[1]))
        if y.op == 'abs' or (y.op == 'fn' and y.a[0] == 'sqrt') or (kind == 'i' and y in NONNEG): return y
        p = topoly(y, kind)
        if leadcoef(p) < 0: y = frompoly({m: -c for m, c in p.items()}, kind)
        return mkn('abs', y, kind)
    return lambda x: lift(('abs', kind), go, (x,))
fabs = _abs('f'); iabs = _abs('i')

def _nary(op, kind, pick):
    def two(a, b):
        def go(x, y):
            s = set()
            for t in (x, y):
                if t.op == op: s |= set(t.a)
                else: s.add(t)
            ns = [t for t in s if t.op == 'num']
            s = {t for t in s if t.op != 'num'}
            if ns: s.add(num(kind, pick(t.a[1] for t in ns)))
            if len(s) == 1: return s.pop()
            if kind == 'i' and op == 'imax' and I0 in s:
                r = [t for t in s if t is not I0]
                if len(r) == 1 and (r[0] in NONNEG or nonneg(r[0])): return r[0]
            if kind == 'i' and len(s) <= 4:
                # an operand that is never the extreme one
                for t in sorted(s, key=lambda t: t.id):
                    if any(u is not t and (ilt0(isub(t, u)) if op == 'imin' else ilt0(isub(u, t))) is FALSE for u in s):
                        s.discard(t)
                        if len(s) == 1: return s.pop()
            return mkn(op, *sorted(s, key=lambda t: t.id))
        return lift(op, go, (a, b))
    return two
fmax2 = _nary('fmax', 'f', max); fmin2 = _nary('fmin', 'f', min)
imax2 = _nary('imax', 'i', max); imin2 = _nary('imin', 'i', min)

def _round(q):
    # half away from zero
    r = (abs(q) + Fraction(1, 2)).__floor__()
    return r if q >= 0 else -r
CONSTFN = {'floor': lambda q: q.__floor__(), 'ceil': lambda q: q.__ceil__(), 'trunc': lambda q: q.__trunc__(), 'round': _round, 'fract': lambda q: q - q.__trunc__()}
def fn(name, *args):
    def go(*a):
        if len(a) == 1 and a[0].op == 'num' and name in CONSTFN: return fnum(CONSTFN[name](a[0].a[1]))
        return mkn('fn', name, *a)
    return lift(('fn', name), go, args)

def i2f(x):
    def go(y):
        if y.op == 'num': return fnum(y.a[1])
        p = topoly(y, 'i')
        r = {}
        for m, c in p.items():
            mm = tuple(sorted(((mkn('i2f', a) if a.op != 'i2f' else a, e) for a, e in m), key=lambda t: t[0].id))
            r[mm] = r.get(mm, 0) + c
        return frompoly(r, 'f')
    return lift('i2f', go, (x,))

def nonneg(n):
    if n.op == 'num': return n.a[1] >= 0
    if n in NONNEG or n.op in ('len', 'first', 'count'): return True
    if n.op == 'sum': return n.a[3] == 'i' and all(nonneg(l) for l in leaves(n.a[2]))
    if n.op == 'imax': return any(nonneg(t) for t in n.a)
    if n.op == 'imin': return all(nonneg(t) for t in n.a)
    if n.op == 'poly' and n.a[0] == 'i':
        return all(c >= 0 and all(nonneg(a) for a, e in m) for m, c in n.a[1])
    if n.op == 'bv': return n in NONNEG
    return False

# comparisons ---------------------------------------------------------------
def _normpos(y, kind):
    """divide by |leading coefficient|"""
    p = topoly(y, kind)
    l = abs(leadcoef(p))
    return frompoly({m: c / l for m, c in p.items()}, kind)

FINITE = True     # floating point comparisons are decided for ordered values (no NaN operands)
def fcmp0(op, x):
    """x < 0 / x <= 0 / x == 0 over floats"""
    def go(y):
        if y.op == 'num':
            v = y.a[1]
            return boolc(v < 0 if op == 'flt' else v <= 0 if op == 'fle' else v == 0)
        if op == 'fle' and FINITE: return NOT(fcmp0('flt', fneg(y)))
        p = topoly(y, 'f')
        if op != 'feq':
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('fmin', 'fmax'):
                    a = m[0][0]
                    if sum(1 for m2 in p for at, _ in m2 if at.op in ('fmin', 'fmax')) != 1: continue
                    rest = frompoly({q: v for q, v in p.items() if q != m}, 'f')
                    cs = [fcmp0(op, fadd(rest, fmul(fnum(c), t))) for t in a.a]
                    return OR(*cs) if (a.op == 'fmin') == (c > 0) else AND(*cs)
        z = _normpos(y, 'f')
        if op == 'feq' and leadcoef(topoly(z, 'f')) < 0: z = fneg(z)
        return B(mkn(op, z))
    return lift(op, go, (x,))

def flt(a, b):
    def go(x, y):
        if x.op == 'fconst' or y.op == 'fconst': return B(mkn('flt2', x, y))
        return fcmp0('flt', fsub(x, y))
    return lift('flt2', go, (a, b))
def fle(a, b):
    def go(x, y):
        if x.op == 'fconst' or y.op == 'fconst': return B(mkn('fle2', x, y))
        return fcmp0('fle', fsub(x, y))
    return lift('fle2', go, (a, b))
def feq(a, b): return fcmp0('feq', fsub(a, b))

def ilt0(x):
    def go(y):
        if y.op == 'num': return boolc(y.a[1] < 0)
        p = topoly(y, 'i')
        if leadcoef(p) < 0:
            q = {m: -c for m, c in p.items()}
            return NOT(ilt0(frompoly(padd(q, {(): Fraction(1)}, -1), 'i')))
        base, c = split_const(y, 'i')
        if nonneg(base):
            if c >= 0: return FALSE
            if c == -1: return ieq0(base)
        b2 = bound_true(y)
        if b2 is None: b2 = below_count(p, c)
        if b2 is not None: return b2
        at = mkn('ilt', y)
        g = _ilt.setdefault(base, [])
        if at not in g: g.append(at)
        return B(at)
    return lift('ilt0', go, (x,))

def bound_true(y):
    """comparison with a minimum or maximum: distribute"""
    p = topoly(y, 'i')
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('imin', 'imax') and abs(c) == 1:
            a = m[0][0]
            if sum(1 for m2 in p for at, _ in m2 if at is a) != 1: continue
            rest = frompoly({q: x for q, x in p.items() if q != m}, 'i')
            cs = [ilt0(iadd(rest, imul(inum(c), t))) for t in a.a]
            some = (a.op == 'imin') == (c > 0)
            return OR(*cs) if some else AND(*cs)
    return None

def below_count(p, c):
    """the index found among n elements is below n (first: if one is found; extremum: if there is one)"""
    if c > 0: return None
    for m, k in p.items():
        if len(m) == 1 and m[0][1] == 1 and k == 1 and m[0][0].op in ('first', 'extremum'):
            a = m[0][0]
            if any(at is a for m2 in p if m2 != m for at, _ in m2): continue
            n = a.a[1]
            rest = frompoly({q: v for q, v in p.items() if q != m and q != ()}, 'i')
            if rest is ineg(n) and c == 0:
                if a.op == 'extremum': return NOT(ieq0(n))
                lv, _, body = a.a[0], a.a[1], a.a[2]
                return B(mkn('any', lv, n, body))
    return None

def ieq0(x):
    def go(y):
        if y.op == 'num': return boolc(y.a[1] == 0)
        p = topoly(y, 'i')
        if leadcoef(p) < 0: y = frompoly({m: -c for m, c in p.items()}, 'i')
        base, c = split_const(y, 'i')
        if nonneg(base):
            if c > 0: return FALSE
            if c == 0:
                if base.op == 'sum': return NOT(sum_any(base))
                if base.op == 'poly' and len(base.a[1]) > 1:
                    # sum of non-negative terms is zero iff each is
                    r = TRUE
                    for m, k in base.a[1]: r = AND(r, ieq0(frompoly({m: Fraction(1)}, 'i')))
                    return r
                if base.op == 'imin' and all(nonneg(t) for t in base.a):
                    return OR(*[ieq0(t) for t in base.a])
        at = mkn('ieq', base, c)
        g = _ieq.setdefault(base, [])
        if at not in g: g.append(at)
        return B(at)
    return lift('ieq0', go, (x,))

def ilt(a, b): return ilt0(isub(a, b))
def ile(a, b): return NOT(ilt0(isub(b, a)))
def ieq(a, b): return ieq0(isub(a, b))

def olt(a, b):
    def go(x, y):
        if x is y: return FALSE
        return B(mkn('olt', x, y))
    return lift('olt', go, (a, b))

# ---------------------------------------------------------------- data
def adt(path, vname, fields):
    """fields: dict name -> N"""
    fs = tuple(sorted(fields.items()))
    return lift_fields(fs, lambda g: _adt(path, vname, g))

def lift_fields(fs, build, limit=256):
    """build(named fields) lifted over branching fields (unless that explodes)"""
    dd = [i for i, (n, v) in enumerate(fs) if v.op == 'ite']
    if any(v is BOT for n, v in fs): return BOT
    if not dd: return build(fs)
    at = set()
    sz = 1
    for i in dd:
        sz *= max(1, len(leaves(fs[i][1])))
        at |= fs[i][1].atoms
    if len(dd) > 1 and sz > limit and len(at) > 8: return build(fs)
    memo = {}
    def go(vs):
        top = None
        for v in vs:
            if v is BOT: return BOT
            if v.op == 'ite' and (top is None or v.a[0].id < top.id): top = v.a[0]
        if top is None:
            g = list(fs)
            for i, v in zip(dd, vs): g[i] = (g[i][0], v)
            return build(tuple(g))
        r = memo.get(vs)
        if r is None:
            r = ite(B(top), go(tuple(restrict(cof(v, top)[0], implied(top, True)) for v in vs)),
                    go(tuple(restrict(cof(v, top)[1], implied(top, False)) for v in vs)))
            memo[vs] = r
        return r
    return go(tuple(fs[i][1] for i in dd))

def _adt(path, vname, fs):
    if vname == '' and fs:
        x0 = fs[0][1]
        if x0.op == 'fld' and x0.a[1] == '':
            x = x0.a[0]
            if all(v.op == 'fld' and v.a[0] is x and v.a[1] == '' and v.a[2] == n for n, v in fs):
                t = TYOF.get(x)
                if t == path: return x
    return mkn('adt', path, vname, fs)

TYOF = {}     # opaque node -> adt path (when known)

def tup(*v):
    return lift_fields(tuple(enumerate(v)), lambda g: _tup(*[x for _, x in g]))

def _tup(*v):
    if v and v[0].op == 'tf':
        x = v[0].a[0]
        if all(e.op == 'tf' and e.a[0] is x and e.a[1] == i and e.a[2] == len(v) for i, e in enumerate(v)): return x
    return mkn('tup', *v)

def tfield(x, i, n):
    def go(y):
        if y.op == 'tup': return y.a[i] if i < len(y.a) else BOT
        return mkn('tf', y, i, n)
    return lift(('tf', i, n), go, (x,))

def fld(x, vname, fname):
    def go(y):
        if y.op == 'adt':
            if vname != '' and y.a[1] != vname: return BOT
            for n, v in y.a[2]:
                if n == fname: return v
            return BOT
        if y.op == 'fupd':
            if y.a[1] == vname and y.a[2] == fname: return y.a[3]
            return fld(y.a[0], vname, fname)
        return mkn('fld', y, vname, fname)
    return lift(('fld', vname, fname), go, (x,))

def isvar(x, path, vname):
    vs = VARIANTS[path]
    i = vs.index(vname)
    def go(y):
        if y.op == 'adt': return boolc(y.a[1] == vname)
        if y.op == 'ocmp': return ocmp_is(y, vname)
        k = len(vs)
        if k == 1: return TRUE
        g = _isgrp.get(y)
        if g is None:
            g = [mkn('is', y, j, k) for j in range(k - 1)]
            _isgrp[y] = g
        if len(g) != k - 1: return B(mkn('isx', y, path, vname))
        if i < k - 1: 
            r = mkn('ite', g[i], TRUE, FALSE)
            # canonical: earlier alternatives first
            for j in range(i - 1, -1, -1): r = mk(g[j], FALSE, r)
            return r
        r = TRUE
        for j in range(k - 2, -1, -1): r = mk(g[j], FALSE, r)
        return r
    return lift(('isvar', path, vname), go, (x,))

def ocmp(a, b, kind):
    """Ordering value of a total comparison (kind: 'f','i','o')"""
    def go(x, y):
        if x is y and kind != 'f': return adt('std::cmp::Ordering', 'Equal', {})
        if x.op == 'num' and y.op == 'num':
            return adt('std::cmp::Ordering', 'Less' if x.a[1] < y.a[1] else 'Equal' if x.a[1] == y.a[1] else 'Greater', {})
        return mkn('ocmp', x, y, kind)
    return lift(('ocmp', kind), go, (a, b))

def ocmp_is(y, vname):
    a, b, k = y.a
    lt = {'f': flt, 'i': ilt, 'o': olt}[k]
    if vname == 'Less': return lt(a, b)
    if vname == 'Greater': return lt(b, a)
    return AND(NOT(lt(a, b)), NOT(lt(b, a)))

def orev(x):
    def go(y):
        if y.op == 'ocmp': return mkn('ocmp', y.a[1], y.a[0], y.a[2])
        if y.op == 'adt': return adt('std::cmp::Ordering', {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}[y.a[1]], {})
        return mkn('call', 'orev', y)
    return lift('orev', go, (x,))

def othen(x, y):
    def go(p, q):
        if p.op == 'adt': return q if p.a[1] == 'Equal' else p
        if p.op == 'ocmp' and q.op == 'ocmp':
            pa = p.a[0].a if p.a[0].op == 'tup' else (p.a[0],)
            pb = p.a[1].a if p.a[1].op == 'tup' else (p.a[1],)
            qa = q.a[0].a if q.a[0].op == 'tup' else (q.a[0],)
            qb = q.a[1].a if q.a[1].op == 'tup' else (q.a[1],)
            if len(pa) == len(pb) and len(qa) == len(qb):
                return mkn('ocmp', tup(*(pa + qa)), tup(*(pb + qb)), 'o')
        return mkn('call', 'othen', p, q)
    return lift('othen', go, (x, y))

SCALAR_EQ = {}

def some(v): return adt('std::option::Option', 'Some', {'0': v})
NONE = adt('std::option::Option', 'None', {})
def ok(v): return adt('std::result::Result', 'Ok', {'0': v})
def err(v): return adt('std::result::Result', 'Err', {'0': v})
def opt_is_none(x): return isvar(x, 'std::option::Option', 'None')
def opt_is_some(x): return isvar(x, 'std::option::Option', 'Some')
def payload(x): return fld(x, 'Some', '0')

def strc(s): return mkn('str', s)

def eqv(a, b, ty=None):
    """structural equality of two values; ty: 'f' 'i' 'b' or None or ('adt',path) or ('arr',n,ty)"""
    def go(x, y):
        if ty == 'f': return feq(x, y)
        if ty == 'i': return ieq(x, y)
        if ty == 'b': return ite(asbool(x), asbool(y), NOT(asbool(y)))
        if isinstance(ty, tuple) and ty[0] == 'arr' and ty[1] <= 9:
            r = TRUE
            for i in range(ty[1]):
                r = AND(r, eqv(aidx(x, i, ty[1]), aidx(y, i, ty[1]), ty[2]))
            return r
        if x is y: return TRUE
        if x.op == 'num' or y.op == 'num' or x.op == 'poly' or y.op == 'poly':
            if not (isf(x) and isf(y)): return ieq(x, y)
            return feq(x, y)
        if x.op == 'str' and y.op == 'str': return boolc(x.a[0] == y.a[0])
        if x.op == 'adt' and y.op == 'adt':
            if x.a[1] != y.a[1] or x.a[0] != y.a[0]: return FALSE
            r = TRUE
            d = dict(y.a[2])
            for n, v in x.a[2]:
                r = AND(r, eqv(v, d.get(n, BOT)))
            return r
        if x.op == 'tup' and y.op == 'tup' and len(x.a) == len(y.a):
            r = TRUE
            for p, q in zip(x.a, y.a): r = AND(r, eqv(p, q))
            return r
        for p, q in ((x, y), (y, x)):
            if p.op == 'adt' and p.a[1] != '' and p.a[0] in VARIANTS and q.op != 'adt':
                r = isvar(q, p.a[0], p.a[1])
                for n, v in p.a[2]:
                    r = AND(r, eqv(v, fld(q, p.a[1], n)))
                return r
        # the keys of a map are distinct
        if x.op == 'ekey' and y.op == 'ekey' and x.a[0] is y.a[0]: return ieq(x.a[1], y.a[1])
        if x.op == 'str' or y.op == 'str':
            if x.op == 'str': x, y = y, x
            if y.a[0] == '': return ieq0(slen(x))
            at = mkn('eqc', x, y.a[0])
            g = _eqgrp.setdefault(x, [])
            if at not in g: g.append(at)
            return B(at)
        for p, q in ((x, y), (y, x)):
            if p.op == 'seq' and q.op != 'seq' and len(p.a) == 0: return ieq0(slen(q))
        x, y = srt(x, y)
        return B(mkn('eq', x, y))
    return lift(('eqv', ty), go, (a, b))

# ---------------------------------------------------------------- sequences
def seq(*v):
    if any(x is BOT or x.op == 'ite' for x in v):
        return lift_fields(tuple(enumerate(v)), lambda g: _seq(*[x for _, x in g]), 64)
    return _seq(*v)

def _seq(*v):
    if v and v[0].op == 'ai' and v[0].a[2] == len(v):
        x = v[0].a[0]
        if all(e.op == 'ai' and e.a[0] is x and e.a[1] == i and e.a[2] == len(v) for i, e in enumerate(v)): return x
    return mkn('seq', *v)

def expand_array(x, n):
    """literal view of an array value of n elements"""
    def go(y):
        if y.op == 'seq': return y
        return mkn('seq', *[aidx(y, i, n) for i in range(n)])
    return lift(('exparr', n), go, (x,))

def aidx(x, i, n):
    def go(y):
        if y.op == 'seq': return y.a[i] if i < len(y.a) else BOT
        if y.op in ('comp', 'cat', 'upd', 'rep'): return sidx(y, inum(i))
        return mkn('ai', y, i, n)
    return lift(('ai', i, n), go, (x,))

def L(*v):
    if any(x is BOT or x.op == 'ite' for x in v):
        return lift_fields(tuple(enumerate(v)), lambda g: L(*[x for _, x in g]), 64)
    if any(x.op == 'splat' for x in v):
        out = []
        for x in v:
            if x.op == 'splat':
                if x.a[0].op == 'seq': out.extend(x.a[0].a); continue
                if x.a[0].op == 'ite':
                    return mapleaves(lambda s: L(*[mkn('splat', s) if y is x else y for y in v]), x.a[0])
                if x.a[0].op == 'cat':
                    for p in x.a[0].a:
                        if p.op == 'seq': out.extend(p.a)
                        else: out.append(mkn('splat', p))
                    continue
            out.append(x)
        v = out
    return mkn('L', *v)

def comp_parts(c):
    lv, n, body = c.a
    return n, body

def is_unguarded(body):
    return body.op == 'L' and len(body.a) == 1 and body.a[0].op != 'splat' or (body.op == 'ite' and all(l.op == 'L' and len(l.a) == 1 and l.a[0].op != 'splat' for l in leaves(body)))

def has_splat(body):
    return any(l.op == 'L' and any(e.op == 'splat' for e in l.a) for l in leaves(body))

def lcount(l):
    """number of elements of one iteration"""
    r = inum(sum(1 for e in l.a if e.op != 'splat'))
    for e in l.a:
        if e.op == 'splat': r = iadd(r, slen(e.a[0]))
    return r

def implied_all(asg):
    r = dict(asg)
    for a, v in asg.items(): r.update({k: x for k, x in implied(a, v).items() if k not in asg})
    return r

def restrict_more(d, asg):
    if d.op != 'ite' or not asg: return d
    return restrict(d, implied_all(asg))

def single(c):
    """(atom, polarity) of a single-atom condition"""
    if c.op == 'ite' and c.a[1] in (TRUE, FALSE) and c.a[2] in (TRUE, FALSE): return c.a[0], c.a[1] is TRUE
    return None

def conj(c):
    """{atom: polarity} forced by the condition c"""
    asg = {}
    while c.op == 'ite':
        if c.a[2] is FALSE: asg[c.a[0]] = True; c = c.a[1]
        elif c.a[1] is FALSE: asg[c.a[0]] = False; c = c.a[2]
        else: break
    return asg

def restrict_by(d, c, val):
    """d under the condition c (a conjunction) being val; None if not expressible"""
    if not val:
        s = single(c)
        if s is None: return None
        return restrict_more(d, {s[0]: not s[1]})
    asg = conj(c)
    if not asg: return None
    return restrict_more(d, asg)

def assume_below(b, sym, n):
    """b under 0 <= sym < n"""
    if b.op != 'ite': return b
    asg = {}
    for m in (n.a if n.op == 'imin' else (n,)):
        asg.update(conj(ilt(sym, m)))
    # further bounds that follow from an imin/len relation are left alone
    asg = {a: v for a, v in asg.items() if True}
    return restrict_more(b, asg) if asg else b

def elem_of(body):
    return mapleaves(lambda l: l.a[0] if l.a else BOT, body)

def open_binder(node):
    """fresh instance of the bound variable"""
    v = fresh('i', True)
    bv = mkn('bv', node.a[0])
    return v, bv

def close(sym, *bodies):
    """replace sym by a bound variable of sufficient height; returns (level, bodies)"""
    lv = 1 + max(b.h for b in bodies)
    bv = mkn('bv', lv)
    NONNEG.add(bv)
    m = {sym: bv}
    return lv, [subst(b, m) for b in bodies]

def inst(body, lv, val):
    return subst(body, {mkn('bv', lv): val})

def free_atoms(d, sym):
    """loop-invariant condition atoms of d"""
    if d.op != 'ite': return []
    return [a for a in sorted(d.atoms, key=lambda t: t.id) if sym not in a.fv]

def unswitch(key, sym, d, f):
    """hoist loop-invariant conditions of d out of the binder built by f"""
    inv = free_atoms(d, sym)[:8]
    if not inv: return f(d)
    a = inv[0]
    return ite(B(a), unswitch(key, sym, restrict(d, {a: True}), f), unswitch(key, sym, restrict(d, {a: False}), f))

def first_only(b, sym, n, empty):
    """b(i) is X at the first i with P(i) and nothing elsewhere: the whole is (any P, X)"""
    ls = [l for l in leaves(b) if l is not BOT]
    xs = [l for l in ls if l is not empty]
    if b.op != 'ite' or len(xs) != 1 or len(ls) != 2 or sym in xs[0].fv: return None
    C = mapleaves(lambda l: FALSE if l is empty else TRUE, b)
    for a in C.atoms:
        if a.op != 'any' or a.a[1] is not sym: continue
        P = asbool(inst(a.a[2], a.a[0], sym))
        if restrict(C, {a: True}) is FALSE and restrict(C, {a: False}) is P:
            return mkany(n, sym, P), xs[0]
    return None

def mkcomp(n, sym, body):
    """comprehension  [body(i) for i < n], body a DD of L(...) lists"""
    def fn_(n_):
        if n_ is I0: return seq()
        def g(b):
            b = assume_below(b, sym, n_)
            fz = find_fusable(b, sym, n_)
            if fz is not None:
                c = fz
                cn, cb = c.a[1], c.a[2]
                v = fresh('i', True)
                cb = inst(cb, c.a[0], v)
                key = mkn('idx', c, sym)
                def leaf(l):
                    out = []
                    # each element of the inner list is one outer iteration
                    r = L()
                    for e in l.a:
                        r = lcat(r, subst_node(b, key, e))
                    return r
                cb = assume_below(cb, v, cn)
                return mkcomp(cn, v, mapleaves(leaf, cb))
            if n_.op == 'num' and n_.a[1] <= 32 and n_.a[1] >= 0:
                out = [seq_of_list(subst(b, {sym: inum(k)})) for k in range(int(n_.a[1]))]
                return cat(*out)
            if b.op == 'L' and len(b.a) == 0: return seq()
            fo = first_only(b, sym, n_, L())
            if fo is not None: return ite(fo[0], seq_of_list(fo[1]), seq())
            # eta: [s[i] for i < len s] = s
            if b.op == 'L' and len(b.a) == 1 and b.a[0].op == 'idx' and b.a[0].a[1] is sym and sym not in b.a[0].a[0].fv and slen(b.a[0].a[0]) is n_:
                return b.a[0].a[0]
            lv, (bb,) = close(sym, b)
            return mkn('comp', lv, n_, bb)
        return unswitch('comp', sym, body, g)
    return mapleaves(fn_, n)

def lcat(a, b):
    return lift('lcat', lambda x, y: L(*(x.a + y.a)), (a, b))

def seq_of_list(b):
    def go(l):
        if l.op != 'L': return l
        return cat(*[e.a[0] if e.op == 'splat' else seq(e) for e in l.a])
    return mapleaves(go, b)

def find_fusable(b, sym, n):
    """a guarded comprehension C with len(C)==n such that b uses sym only as C[sym]"""
    cands = set()
    seen = set()
    bad = [False]
    def go(x):
        if x in seen or sym not in x.fv: return
        seen.add(x)
        if x.op == 'idx' and x.a[1] is sym and x.a[0].op == 'comp' and sym not in x.a[0].fv:
            cands.add(x.a[0]); return
        if x is sym: bad[0] = True; return
        walk(x.a)
    def walk(t):
        for y in t:
            if isinstance(y, N): go(y)
            elif isinstance(y, tuple): walk(y)
    go(b)
    if bad[0] or len(cands) != 1: return None
    c = cands.pop()
    if slen(c) is not n: return None
    if has_splat(c.a[2]): return None
    return c

SAMELEN = {}
RETLEN = {}
def slen(s):
    def go(x):
        if x.op == 'seq': return inum(len(x.a))
        if x.op == 'comp':
            lv, n, body = x.a
            if is_unguarded(body): return n
            v = fresh('i', True)
            return mksum(n, v, inst(mapleaves(lcount, body), lv, v), 'i')
        if x.op == 'cat':
            r = I0
            for y in x.a: r = iadd(r, slen(y))
            return r
        if x.op in ('upd', 'sorted', 'rev'): return slen(x.a[0])
        if x.op == 'slice':
            return isub(x.a[2], x.a[1])
        if x.op == 'str': return inum(len(x.a[0].encode()))
        if x.op == 'mseq': return x.a[2]
        if x in ARRLEN: return inum(ARRLEN[x])
        # vectors of one length in every value of the type (its fields are set by one constructor only)
        o = x.op == 'fld' and SAMELEN.get(x.a[2])
        if o: return slen(fld(x.a[0], x.a[1], o))
        if x.op == 'fld' and x.a[1] == 'Some' and x.a[0].op == 'fld':
            o = SAMELEN.get(x.a[0].a[2])
            if o: return slen(fld(x.a[0].a[0], x.a[0].a[1], o))
        if x.op == 'tf' and x.a[0].op == 'call':
            # lists of one length, by the obligations of the function that returns them
            o = RETLEN.get(x.a[0].a[0])
            if o is not None:
                n = o(x.a[0], x.a[1])
                if n is not None: return n
        if x.op == 'call' and x.a[0] in CALLLEN: return inum(CALLLEN[x.a[0]])
        r = mkn('len', x)
        NONNEG.add(r)
        return r
    return lift('slen', go, (s,))

def sidx(s, i):
    def go(x, j):
        if x.op == 'seq':
            if j.op == 'num':
                k = int(j.a[1])
                return x.a[k] if 0 <= k < len(x.a) else BOT
            if len(x.a) == 1: return x.a[0]
            if len(x.a) == 0: return BOT
            if all(e is x.a[0] for e in x.a): return x.a[0]
            return mkn('idx', x, j)
        if x.op == 'comp':
            lv, n, body = x.a
            if is_unguarded(body): return inst(elem_of(body), lv, j)
            if j is I0 and not has_splat(body):
                v = fresh('i', True)
                g = inst(mapleaves(lambda l: boolc(len(l.a) > 0), body), lv, v)
                f = mkfirst(n, v, g)
                return inst(elem_of(body), lv, f)
            if not has_splat(body) and iadd(j, I1) is slen(x):
                r = rec_last(x)
                if r is not None: return r
            return mkn('idx', x, j)
        if x.op == 'cat':
            # index relative to parts with known lengths
            off = I0
            r = None
            conds = []
            for p in x.a:
                conds.append((ilt(j, iadd(off, slen(p))), p, off))
                off = iadd(off, slen(p))
            r = BOT
            for c, p, o in reversed(conds): r = ite(c, sidx(p, isub(j, o)), r)
            return r
        if x.op == 'upd':
            s0, k, v = x.a
            return ite(ieq(j, k), v, sidx(s0, j))
        if x.op == 'slice': return sidx(x.a[0], iadd(j, x.a[1]))
        if x.op == 'rev': return sidx(x.a[0], isub(isub(slen(x.a[0]), j), I1))
        if x.op == 'mseq':
            if len(x.a) == 3: return mkn('mref', x.a[0], path_add(x.a[1], mkn('pi', j)))
            key = mkn('ekey', x.a[3], j)
            r = mkn('mref', x.a[0], path_add(x.a[1], mkn('pk', key)))
            return tup(key, r) if x.a[4] else r
        if j.op == 'num' and x in ARRLEN: return mkn('ai', x, int(j.a[1]), ARRLEN[x])
        if x.op == 'entries':
            m = x.a[0]
            return tup(mkn('ekey', m, j, *x.a[1:]), mkn('eval', m, j, *x.a[1:]))
        return mkn('idx', x, j)
    return lift('sidx', go, (s, i))

def rec_last(x):
    """last element of a sequence of running records"""
    lv, n, body = x.a
    bv = mkn('bv', lv)
    el = elem_of(body)
    for a in body.atoms:
        if a.op not in ('flt', 'ilt'): continue
        st = [a]; seen = set()
        while st:
            y = st.pop()
            if isinstance(y, tuple): st.extend(y); continue
            if not isinstance(y, N) or y in seen: continue
            seen.add(y)
            if y.op == 'extremum' and y.a[1] is bv:
                if inst(y.a[2], y.a[0], bv) is el:
                    best = inst(el, lv, y)
                    more = flt(best, el) if y.a[3].startswith('fmax') else flt(el, best) if y.a[3].startswith('fmin') else None
                    if more is None: continue
                    if mapleaves(lambda l: boolc(len(l.a) > 0), body) is OR(ieq0(bv), more):
                        return inst(el, lv, mkextremum_raw(y, n))
            st.extend(y.a)
    return None

def mkextremum_raw(y, n):
    r = mkn('extremum', y.a[0], n, y.a[2], y.a[3])
    NONNEG.add(r)
    return r

def path_add(p, e): return mkn('path', *(p.a + (e,)))

def sslice(s, a, b):
    """s[a..b]"""
    def go(x, p, q):
        if p is I0 and q is slen(x): return x
        if p is q: return seq()
        if x.op == 'seq' and p.op == 'num' and q.op == 'num':
            return seq(*x.a[int(p.a[1]):int(q.a[1])])
        if x.op == 'comp' and is_unguarded(x.a[2]):
            v = fresh('i', True)
            return mkcomp(isub(q, p), v, L(inst(elem_of(x.a[2]), x.a[0], iadd(v, p))) if True else None)
        if x.op == 'slice': return mkn('slice', x.a[0], iadd(x.a[1], p), iadd(x.a[1], q))
        if x.op in ('mseq', 'entries') or True:
            return mkn('slice', x, p, q)
    return lift('sslice', go, (s, a, b))

def srev(s):
    def go(x):
        if x.op == 'seq': return seq(*reversed(x.a))
        if x.op == 'rev': return x.a[0]
        if x.op == 'cat': return cat(*[srev(p) for p in reversed(x.a)])
        if x.op == 'comp' and is_unguarded(x.a[2]):
            v = fresh('i', True)
            n = x.a[1]
            return mkcomp(n, v, elemL(inst(elem_of(x.a[2]), x.a[0], isub(isub(n, v), I1))))
        return mkn('rev', x)
    return lift('srev', go, (s,))

def elemL(e): return mapleaves(lambda x: L(x), e)

def cat(*parts):
    def go(*ps):
        out = []
        for p in ps:
            for q in (p.a if p.op == 'cat' else (p,)):
                if q.op == 'seq' and not q.a: continue
                if out and out[-1].op == 'seq' and q.op == 'seq':
                    out[-1] = mkn('seq', *(out[-1].a + q.a))
                else: out.append(q)
        if not out: return seq()
        if len(out) == 1: return out[0]
        return mkn('cat', *out)
    return lift('cat', go, tuple(parts))

def supd(s, i, v):
    def go(x, j):
        if x.op == 'seq' and j.op == 'num':
            k = int(j.a[1])
            if 0 <= k < len(x.a):
                l = list(x.a); l[k] = v
                return seq(*l)
            return BOT
        if x.op == 'upd' and x.a[1] is j: return supd(x.a[0], j, v)
        if v is sidx(x, j): return x
        if j.op == 'num' and x.op != 'upd':
            # an array of known length: its elements
            n = slen(x)
            if n.op == 'num' and 0 <= j.a[1] < n.a[1] <= 8: return seq(*[v if k == j.a[1] else sidx(x, inum(k)) for k in range(int(n.a[1]))])
        return mkn('upd', x, j, v)
    return lift(('supd', v), go, (s, i))

def view(s):
    """(n, sym, body) with body a DD of lists: one loop over s"""
    v = fresh('i', True)
    if s.op == 'comp':
        return s.a[1], v, inst(s.a[2], s.a[0], v)
    return slen(s), v, elemL(sidx(s, v))

def smap(s, f):
    """map a python function over the elements of s"""
    def go(x):
        if x.op == 'seq': return seq(*[f(e) for e in x.a])
        if x.op == 'cat': return cat(*[go(p) for p in x.a])
        n, v, body = view(x)
        def leaf(l):
            r = L()
            for e in l.a: r = lcat(r, L(mkn('splat', smap(e.a[0], f))) if e.op == 'splat' else elemL(f(e)))
            return r
        return mkcomp(n, v, mapleaves(leaf, body))
    return mapleaves(go, s)

def sfilter(s, p):
    """p: elem -> boolean DD"""
    def go(x):
        if x.op == 'seq': return cat(*[ite(p(e), seq(e), seq()) for e in x.a])
        if x.op == 'cat': return cat(*[go(q) for q in x.a])
        n, v, body = view(x)
        def leaf(l):
            r = L()
            for e in l.a: r = lcat(r, L(mkn('splat', sfilter(e.a[0], p))) if e.op == 'splat' else ite(p(e), L(e), L()))
            return r
        return mkcomp(n, v, mapleaves(leaf, body))
    return mapleaves(go, s)

def sfiltermap(s, f):
    """f: elem -> Option value"""
    def one(e):
        r = f(e)
        return ite(opt_is_none(r), L(), elemL(payload(r)))
    def go(x):
        if x.op == 'seq': return cat(*[seq_of_list(one(e)) for e in x.a])
        if x.op == 'cat': return cat(*[go(q) for q in x.a])
        n, v, body = view(x)
        def leaf(l):
            r = L()
            for e in l.a: r = lcat(r, L(mkn('splat', sfiltermap(e.a[0], f))) if e.op == 'splat' else one(e))
            return r
        return mkcomp(n, v, mapleaves(leaf, body))
    return mapleaves(go, s)

def senum(s):
    def go(x):
        if x.op == 'seq': return seq(*[tup(inum(i), e) for i, e in enumerate(x.a)])
        n, v, _ = view(x) if x.op != 'comp' or is_unguarded(x.a[2]) else (slen(x), fresh('i', True), None)
        return mkcomp(n, v, elemL(tup_l(v, sidx(x, v))))
    return mapleaves(go, s)

def tup_l(*vs):
    return lift('tup', lambda *a: tup(*a), vs)

def szip(s, t):
    def go(x, y):
        if x.op == 'seq' and y.op == 'seq':
            return seq(*[tup(a, b) for a, b in zip(x.a, y.a)])
        n = imin2(slen(x), slen(y))
        v = fresh('i', True)
        return mkcomp(n, v, elemL(tup_l(sidx(x, v), sidx(y, v))))
    return lift('szip', go, (s, t))

# ---------------------------------------------------------------- aggregates
def mksum(n, sym, x, kind):
    """sum of x(i) for i < n"""
    def fn_(n_):
        if n_ is I0: return num(kind, 0)
        def g(b):
            b = assume_below(b, sym, n_)
            fz = find_fusable(b, sym, n_)
            if fz is not None:
                v = fresh('i', True)
                cb = inst(fz.a[2], fz.a[0], v)
                key = mkn('idx', fz, sym)
                add = fadd if kind == 'f' else iadd
                def leaf(l):
                    r = num(kind, 0)
                    for e in l.a: r = add(r, subst_node(b, key, e))
                    return r
                return mksum(fz.a[1], v, mapleaves(leaf, cb), kind)
            if n_.op == 'num' and n_.a[1] <= 32:
                r = num(kind, 0)
                add = fadd if kind == 'f' else iadd
                for k in range(int(n_.a[1])): r = add(r, subst(b, {sym: inum(k)}))
                return r
            fo = first_only(b, sym, n_, num(kind, 0))
            if fo is not None: return ite(fo[0], fo[1], num(kind, 0))
            nk = n_ if kind == 'i' else i2f(n_)
            mul = fmul if kind == 'f' else imul
            add = fadd if kind == 'f' else iadd
            if b.op == 'ite':
                lv, (bb,) = close(sym, b)
                return mkn('sum', lv, n_, bb, kind)
            r = num(kind, 0)
            for m, c in topoly(b, kind).items():
                inv = tuple((a, e) for a, e in m if sym not in a.fv)
                dep = tuple((a, e) for a, e in m if sym in a.fv)
                co = frompoly({inv: c}, kind)
                if not dep: r = add(r, mul(co, nk)); continue
                lv, (bb,) = close(sym, frompoly({dep: Fraction(1)}, kind))
                r = add(r, mul(co, mkn('sum', lv, n_, bb, kind)))
            return r
        return unswitch('sum', sym, x, g)
    return mapleaves(fn_, n)

def sum_any(s):
    """sum of non-negative ints != 0"""
    lv, n, body, kind = s.a
    v = fresh('i', True)
    b = inst(body, lv, v)
    return mkany(n, v, mapleaves(lambda l: NOT(ieq0(l)), b))

def point(b, sym):
    """the only value of sym for which b can hold, or None"""
    if b.op != 'ite': return None
    for a in b.atoms:
        if a.op != 'ieq' or sym not in a.fv: continue
        p = topoly(a.a[0], 'i')
        k = p.get(((sym, 1),))
        if k not in (1, -1): continue
        q = {m: -c / k for m, c in p.items() if m != ((sym, 1),)}
        if any(sym in t.fv for m in q for t, _ in m): continue
        if restrict_more(b, {a: False}) is not FALSE: continue
        # the atom states p + c = 0
        c = a.a[1]
        e = frompoly(q, 'i')
        return isub(e, inum(c) if k == 1 else inum(-c))
    return None

def mkany(n, sym, c):
    """exists i < n: c(i)"""
    def fn_(n_):
        if n_ is I0: return FALSE
        def g(b):
            b = assume_below(b, sym, n_)
            if b is FALSE: return FALSE
            e = point(b, sym)
            if e is not None: return AND(ilt(e, n_), NOT(ilt0(e)) if not nonneg(e) else TRUE, asbool(subst(b, {sym: e})))
            if b is TRUE: return NOT(ieq0(n_))
            if b.op == 'ite' and ieq0(sym).op == 'ite' and ieq0(sym).a[0] in b.atoms and subst(b, {sym: I0}) is TRUE: return NOT(ieq0(n_))
            fz = find_fusable(b, sym, n_)
            if fz is not None:
                v = fresh('i', True)
                cb = inst(fz.a[2], fz.a[0], v)
                key = mkn('idx', fz, sym)
                def leaf(l):
                    r = FALSE
                    for e in l.a: r = OR(r, asbool(subst_node(b, key, e)))
                    return r
                return mkany(fz.a[1], v, mapleaves(leaf, cb))
            if n_.op == 'num' and n_.a[1] <= 32:
                return OR(*[asbool(subst(b, {sym: inum(k)})) for k in range(int(n_.a[1]))])
            lv, (bb,) = close(sym, b)
            return B(mkn('any', lv, n_, bb))
        return unswitch('any', sym, c, g)
    return mapleaves(fn_, n)

def mkfirst(n, sym, c):
    """least i < n with c(i); meaningful only if any"""
    def fn_(n_):
        def g(b):
            b = assume_below(b, sym, n_)
            if b is TRUE: return I0
            if b is FALSE: return BOT
            if b.op == 'ite' and ieq0(sym).op == 'ite' and ieq0(sym).a[0] in b.atoms and subst(b, {sym: I0}) is TRUE: return I0
            if n_.op == 'num' and n_.a[1] <= 32:
                r = BOT
                for k in range(int(n_.a[1]) - 1, -1, -1):
                    r = ite(asbool(subst(b, {sym: inum(k)})), inum(k), r)
                return r
            lv, (bb,) = close(sym, b)
            r = mkn('first', lv, n_, bb)
            NONNEG.add(r)
            return r
        return unswitch('first', sym, c, g)
    return mapleaves(fn_, n)

def mkfold(n, sym, accs, inits, nexts):
    """generic simultaneous recurrence; returns list of values after n steps"""
    def build(n_):
        lv = 1 + max(b.h for b in list(nexts) + list(inits))
        bv = mkn('bv', lv); NONNEG.add(bv)
        m = {sym: bv}
        for k, a in enumerate(accs): m[a] = mkn('bv', lv, k)
        ns = tuple(subst(x, m) for x in nexts)
        return mkn('fold', lv, n_, tuple(inits), ns)
    out = []
    f = mapleaves(build, n)
    for k in range(len(accs)):
        if len(accs) == 1: out.append(f)
        else: out.append(mapleaves(lambda t: mkn('proj', t, k), f))
    return out

# ---------------------------------------------------------------- maps
MEMPTY = mkn('mempty')
def mset(m, k, v):
    def go(x):
        if x.op == 'mset' and x.a[1] is k: return mset(x.a[0], k, v)
        return mkn('mset', x, k, v)
    return lift(('mset', k, v), go, (m,))
# Tokens that a loaded dataset holds a record for (references checked by NuScenes::load): map -> fields holding such tokens.
VALID = {
    'sample_map': ('sample_token', 'first_sample_token', 'last_sample_token', 'sample_tokens', 'sorted_sample_tokens'),
    'sample_annotation_map': ('annotation_tokens', 'first_annotation_token', 'last_annotation_token'),
    'instance_map': ('instance_token',),
    'category_map': ('category_token',),
    'sensor_map': ('sensor_token',),
    'ego_pose_map': ('ego_pose_token', 'sorted_ego_pose_tokens'),
    'calibrated_sensor_map': ('calibrated_sensor_token',),
    'scene_map': ('scene_token', 'sorted_scene_tokens'),
    'log_map': ('log_token',),
    'sample_data_map': ('sample_data_tokens', 'sorted_sample_data_tokens'),
    'attribute_map': ('attribute_tokens',),
    'visibility_map': ('visibility_token',),
}
VALID_ON = [False]
# where the order of hash maps matters (rule `order`), their entries are marked
HASHTAG = [False]
# lengths of results of summarised functions (each shown where the function is analysed)
CALLLEN = {'fn object::object3d::DynamicObject::footprint': 4}
def valid_token(x, y):
    while y.op in ('idx', 'first') or (y.op == 'fld' and y.a[1] == 'Some'): y = y.a[0]
    return y.op == 'fld' and y.a[2] in VALID.get(x.a[2], ())

def mhas(m, k):
    def go(x, y):
        if x.op == 'mempty': return FALSE
        if x.op == 'fld' and VALID_ON[0] and valid_token(x, y): return TRUE
        if x.op == 'mset': return OR(eqv(x.a[1], y), mhas(x.a[0], y))
        if x.op == 'mdel': return AND(NOT(eqv(x.a[1], y)), mhas(x.a[0], y))
        if y.op == 'ekey' and y.a[0] is x: return TRUE
        if x.op == 'mfun': return asbool(applam(x.a[0], y))
        if x.op == 'mfold':
            q = mfold_query(x, y)
            if q is not None: return q[0]
        return B(mkn('mhas', x, y))
    return lift('mhas', go, (m, k))
def mget(m, k):
    def go(x, y):
        if x.op == 'mempty': return BOT
        if x.op == 'mset': return ite(eqv(x.a[1], y), x.a[2], mget(x.a[0], y))
        if x.op == 'mdel': return mget(x.a[0], y)
        if y.op == 'ekey' and y.a[0] is x: return mkn('eval', x, *y.a[1:])
        if x.op == 'mfun': return applam(x.a[1], y)
        if x.op == 'mfold':
            q = mfold_query(x, y)
            if q is not None: return q[1]
        return mkn('mget', x, y)
    return lift('mget', go, (m, k))
mput = mset

def mmapped(x):
    """the function (key, value) -> value if the map is one whose every value is updated in place by a loop over its entries, or None"""
    if x in _mm: return _mm[x]
    _mm[x] = None
    lv, n, x0, nx = x.a
    if n.op != 'len' or n.a[0].op != 'entries' or n.a[0].a[0] is not x0: return None
    bx = mkn('bv', lv, 0); bk = mkn('bv', lv)
    key = mkn('ekey', x0, bk)
    if not any(l.op == 'mset' for l in leaves(nx)): return None
    val = fresh('v'); kk = fresh('kk')
    # the entry is still as it was
    b = subst_node(nx, mkn('mget', bx, key), val)
    b = mapleaves(lambda l: val if l is bx else l.a[2] if l.op == 'mset' and l.a[0] is bx and l.a[1] is key else BOT, b)
    b = subst_node(subst_node(b, mkn('eval', x0, bk), val), key, kk)
    if b is BOT or has_node(b, (bx, bk)): return None
    r = _mm[x] = lambda k, v: subst(b, {kk: k, val: v})
    return r
_mm = {}
def has_node(x, ns):
    return any(y in ns for y in subterms(x))

def mfold_query(x, y):
    """(has, get) of key y in a map built by a loop, or None"""
    key0 = (x, y)
    if key0 in _mq: return _mq[key0]
    _mq[key0] = None
    lv, n, x0, nx = x.a
    mm = mmapped(x)
    if mm is not None:
        r = _mq[key0] = (mhas(x0, y), mapleaves(lambda v: mm(y, v), mget(x0, y)))
        return r
    xs = fresh('m'); ks = fresh('k', True)
    body = subst(nx, {mkn('bv', lv): ks, mkn('bv', lv, 0): xs})
    keys = set()
    for l in leaves(body):
        while l.op == 'mset':
            keys.add(l.a[1]); l = l.a[0]
    if len(keys) != 1: return None
    key = keys.pop()
    if xs in key.fv: return None
    hs = fresh('phi'); ps = fresh('phi')
    def strip(d):
        d = subst_node(d, mkn('mhas', xs, key), B(hs)) if mkn('mhas', xs, key).fv <= d.fv else d
        d = subst_node(d, mkn('mget', xs, key), ps)
        return d
    b2 = strip(body)
    hasT = mapleaves(lambda l: B(hs) if l is xs else TRUE, b2)
    getT = mapleaves(lambda l: ps if l is xs else l.a[2], b2)
    if xs in hasT.fv or xs in getT.fv: return None
    c = eqv(key, y)
    if key.op not in ('num', 'str', 'adt'):
        # an update under key = y
        hasT = ite(c, subst_node(hasT, key, y), hasT); getT = ite(c, subst_node(getT, key, y), getT)
    solve = SOLVE[0]
    h0 = mhas(x0, y); g0 = mget(x0, y)
    H = solve(hs, ite(c, hasT, B(hs)), h0, ks, 'b')
    if H is None: return None
    g1 = restrict_by(getT, c, True)
    if g1 is not None: getT = g1
    gT = subst(getT, {hs: TRUE}); gF = subst(getT, {hs: FALSE})
    G = None
    if subst(hasT, {hs: TRUE}) is TRUE and subst(hasT, {hs: FALSE}) is FALSE:
        # the loop only updates keys that are present
        G = solve(ps, ite(c, gT, ps), restrict_by(g0, h0, True) or g0, ks, None)
        if G is None: return None
        G = ite(h0, G, BOT)
    for d in (seq(), I0, F0, NONE, FALSE):
        if G is not None: break
        try: same = subst(gT, {ps: d}) is gF
        except Exception: same = False
        if same:
            init = ite(h0, g0, d)
            G = solve(ps, ite(c, gT, ps), init, ks, None)
            break
    if G is None:
        g1 = subst(getT, {hs: TRUE})
        if gT is gF and ps not in gT.fv:
            G = None
        if G is None: return None
    r = (subst(H, {ks: n}), subst(G, {ks: n}))
    _mq[key0] = r
    return r
_mq = {}

def mlookup(m, k): return ite(mhas(m, k), lift('some', some, (mget(m, k),)), NONE)

# ---------------------------------------------------------------- substitution
REB = {}
def rebuild(op, a):
    f = REB.get(op)
    if f: return f(*a)
    return mkn(op, *a)

def _lft(op):
    """rebuild lifting over newly branching arguments"""
    def f(*a):
        ns = [x for x in a if isinstance(x, N)]
        if any(x.op == 'ite' or x is BOT for x in ns):
            idx = [i for i, x in enumerate(a) if isinstance(x, N)]
            def go(*v):
                b = list(a)
                for i, x in zip(idx, v): b[i] = x
                return rebuild(op, tuple(b))
            return lift(('reb', op, tuple(x for x in a if not isinstance(x, N))), go, tuple(ns))
        return None
    return f

def subst(node, m):
    if not m: return node
    keys = frozenset(m)
    memo = {}
    def go(x):
        if x.fv.isdisjoint(keys): return x
        r = memo.get(x)
        if r is not None: return r
        if x in m: r = m[x]
        elif x.op == 'ite':
            c = go(x.a[0])
            r = ite(asbool(c), go(x.a[1]), go(x.a[2]))
        elif x.op in BINDERS:
            r = subst_binder(x, go)
        else:
            r = rebuild_lifted(x.op, gt(x.a))
        memo[x] = r
        return r
    def gt(t):
        return tuple(go(y) if isinstance(y, N) else gt(y) if isinstance(y, tuple) else y for y in t)
    return go(node)

def subst_node(node, key, val):
    """replace a whole subterm"""
    memo = {}
    kfv = key.fv
    def go(x):
        if x is key: return val
        if not kfv <= x.fv: return x
        r = memo.get(x)
        if r is not None: return r
        if x.op == 'ite': r = ite(asbool(go(x.a[0])), go(x.a[1]), go(x.a[2]))
        elif x.op in BINDERS: r = subst_binder(x, go)
        else: r = rebuild_lifted(x.op, gt(x.a))
        memo[x] = r
        return r
    def gt(t):
        return tuple(go(y) if isinstance(y, N) else gt(y) if isinstance(y, tuple) else y for y in t)
    return go(node)

def rewrite(node, f):
    """replace every subterm x by f(x), where that is not None, bottom up"""
    memo = {}
    def go(x):
        r = memo.get(x)
        if r is not None: return r
        if x.op == 'ite': r = ite(asbool(go(x.a[0])), go(x.a[1]), go(x.a[2]))
        elif x.op in BINDERS: r = subst_binder(x, go)
        elif not any(isinstance(y, (N, tuple)) for y in x.a): r = x
        else: r = rebuild_lifted(x.op, gt(x.a))
        y = f(r)
        if y is not None: r = y
        memo[x] = r
        return r
    def gt(t):
        return tuple(go(y) if isinstance(y, N) else gt(y) if isinstance(y, tuple) else y for y in t)
    return go(node)

def subst_binder(x, go):
    lv = x.a[0]
    v = fresh('i', True)
    bv = mkn('bv', lv)
    if x.op == 'comp':
        return mkcomp(go(x.a[1]), v, fixL(go(subst(x.a[2], {bv: v}))))
    if x.op == 'sum':
        return mksum(go(x.a[1]), v, go(subst(x.a[2], {bv: v})), x.a[3])
    if x.op == 'any':
        return mkany(go(x.a[1]), v, asbool(go(subst(x.a[2], {bv: v}))))
    if x.op == 'first':
        return mkfirst(go(x.a[1]), v, asbool(go(subst(x.a[2], {bv: v}))))
    if x.op == 'fold':
        n, inits, nexts = x.a[1], x.a[2], x.a[3]
        k = len(inits)
        accs = [fresh('acc') for _ in range(k)]
        m = {bv: v}
        for j in range(k): m[mkn('bv', lv, j)] = accs[j]
        ns = [go(subst(t, m)) for t in nexts]
        r = mkfold(go(n), v, accs, [go(t) for t in inits], ns)
        if k == 1: return r[0]
        # the projections are built by the caller: return the raw fold
        f = r[0]
        return mapleaves(lambda t: t.a[0], f)
    if x.op == 'lam':
        accs = []
        m = {}
        ar = x.a[1]
        vs = [fresh('l') for _ in range(ar)]
        for j in range(ar): m[mkn('bv', lv, j)] = vs[j]
        return mklam(vs, go(subst(x.a[2], m)))
    if x.op == 'agg':
        b = go(subst(x.a[2], {bv: v}))
        n = go(x.a[1])
        def ag(n_):
            if n_.op == 'num' and 0 < n_.a[1] <= 32:
                two = {'fmin': fmin2, 'fmax': fmax2, 'imin': imin2, 'imax': imax2}[x.a[3]]
                r = subst(b, {v: I0})
                for j in range(1, int(n_.a[1])): r = two(r, subst(b, {v: inum(j)}))
                return r
            l2, (bb,) = close(v, b)
            return mkn('agg', l2, n_, bb, x.a[3])
        return mapleaves(ag, n)
    if x.op == 'mfold':
        xs = fresh('m')
        b = go(subst(x.a[3], {bv: v, mkn('bv', lv, 0): xs}))
        x0 = go(x.a[2]); n = go(x.a[1])
        l2 = 1 + max(b.h, x0.h)
        b2v = mkn('bv', l2); NONNEG.add(b2v)
        return mapleaves(lambda n_: mkn('mfold', l2, n_, x0, subst(b, {v: b2v, xs: mkn('bv', l2, 0)})), n)
    if x.op == 'while':
        inits, nexts, E = x.a[1], x.a[2], x.a[3]
        vs = [fresh('acc') for _ in inits]
        m = {mkn('bv', lv, j): s for j, s in enumerate(vs)}
        i2 = tuple(go(t) for t in inits)
        n2 = [go(subst(t, m)) for t in nexts]
        E2 = go(subst(E, m))
        l2 = 1 + max([t.h for t in i2] + [t.h for t in n2] + [E2.h])
        bm = {s: mkn('bv', l2, j) for j, s in enumerate(vs)}
        return mkn('while', l2, i2, tuple(subst(t, bm) for t in n2), subst(E2, bm))
    if x.op == 'extremum':
        return mkextremum(x.a[3], go(x.a[1]), v, go(subst(x.a[2], {bv: v})))
    raise AssertionError(x.op)

def mklam(vs, body):
    lv = 1 + body.h
    m = {s: mkn('bv', lv, j) for j, s in enumerate(vs)}
    return mkn('lam', lv, len(vs), subst(body, m))

def applam(l, *vals):
    return subst(l.a[2], {mkn('bv', l.a[0], j): v for j, v in enumerate(vals)})

def mkextremum(kind, n, sym, key):
    """index of the extreme key: kind in minfirst, minlast, maxfirst, maxlast (+ 'f'/'i'/'o')"""
    lv, (kk,) = close(sym, key)
    def fn_(n_): 
        r = mkn('extremum', lv, n_, kk, kind)
        NONNEG.add(r)
        return r
    return mapleaves(fn_, n)

def fixL(b):
    return b

def rebuild_lifted(op, a):
    if op == 'poly':
        kind, items = a
        add = fadd if kind == 'f' else iadd
        mul = fmul if kind == 'f' else imul
        r = num(kind, 0)
        for m, c in items:
            t = num(kind, c)
            for atom, e in m:
                if e > 0:
                    for _ in range(e): t = mul(t, atom)
                else:
                    for _ in range(-e): t = fdiv(t, atom)
            r = add(r, t)
        return r
    f = SMART.get(op)
    if f is not None: return f(*a)
    ns = [x for x in a if isinstance(x, N)]
    if any(x.op == 'ite' or x is BOT for x in ns):
        if op in ('L', 'seq', 'adt', 'tup', 'path'):
            pass
        idx = [i for i, x in enumerate(a) if isinstance(x, N)]
        def go(*v):
            b = list(a)
            for i, x in zip(idx, v): b[i] = x
            return mkn(op, *b)
        if op in NOLIFT: return mkn(op, *a)
        return lift(('reb', op, tuple(x if not isinstance(x, N) else None for x in a)), go, tuple(ns))
    return mkn(op, *a)

NOLIFT = {'upd', 'fupd', 'mset', 'path', 'mref', 'call', 'clo', 'unk', 'out', 'while', 'mat', 'splat', 'dscr', 'virt'}

SMART = {
    'fld': fld, 'tf': tfield, 'ai': aidx, 'idx': sidx, 'len': slen, 'cat': cat, 'rev': srev,
    'slice': sslice, 'upd': supd, 'mset': mset, 'mhas': mhas, 'mget': mget,
    'flt': lambda p: fcmp0('flt', p), 'fle': lambda p: fcmp0('fle', p), 'feq': lambda p: fcmp0('feq', p),
    'ilt': ilt0, 'ieq': lambda b, c: ieq0(iadd(b, inum(c))), 'olt': olt,
    'eq': eqv, 'eqc': lambda x, s: eqv(x, strc(s)),
    'recip': lambda p: fdiv(F1, p), 'i2f': i2f, 'abs': lambda x, k: _abs(k)(x),
    'ocmp': ocmp, 'seq': seq, 'tup': tup, 'L': L,
    'is': lambda x, i, k: is_by_index(x, i, k),
    'adt': lambda p, v, fs: adt(p, v, dict(fs)),
}
def _redn(f2):
    def g(*a):
        r = a[0]
        for x in a[1:]: r = f2(r, x)
        return r
    return g
SMART['fmax'] = _redn(fmax2); SMART['fmin'] = _redn(fmin2); SMART['imax'] = _redn(imax2); SMART['imin'] = _redn(imin2)
def _fn(name, *a):
    if name == 'sqrt': return fsqrt(a[0])
    return fn(name, *a)
SMART['fn'] = _fn

def is_by_index(x, i, k):
    """variant test when only the index is known"""
    def go(y):
        if y.op == 'adt':
            vs = VARIANTS[y.a[0]]
            return boolc(vs.index(y.a[1]) == i)
        if y.op == 'ocmp': return ocmp_is(y, ['Less', 'Equal', 'Greater'][i])
        g = _isgrp.get(y)
        if g is None:
            g = [mkn('is', y, j, k) for j in range(k - 1)]
            _isgrp[y] = g
        if i < len(g): return B(g[i])
        return B(mkn('is', y, i, k))
    return lift(('isi', i, k), go, (x,))

# ---------------------------------------------------------------- display
def show(n, depth=12):
    def s(x, d):
        if not isinstance(x, N):
            if isinstance(x, tuple): return '(' + ','.join(s(y, d) for y in x) + ')'
            return str(x)
        if d <= 0: return '…'
        o, a = x.op, x.a
        if o == 'num': return str(a[1]) + ('' if a[0] == 'i' else '.0' if a[1].denominator == 1 else 'f')
        if o == 'bool': return str(a[0])
        if o == 'str': return repr(a[0])
        if o == 'sym': return '%s#%d' % (a[0], a[1])
        if o == 'bv': return 'b' + '.'.join(map(str, a))
        if o == 'param': return 'arg%s' % (a[0],)
        if o == 'fld': return '%s.%s%s' % (s(a[0], d), (a[1] + '::') if a[1] else '', a[2])
        if o == 'tf': return '%s.%d' % (s(a[0], d), a[1])
        if o == 'ai': return '%s[%d]' % (s(a[0], d), a[1])
        if o == 'idx': return '%s[%s]' % (s(a[0], d), s(a[1], d - 1))
        if o == 'poly':
            t = []
            for m, c in a[1]:
                ms = '*'.join(s(y, d - 1) + ('^%d' % e if e != 1 else '') for y, e in m)
                t.append((('%s*' % c) if c != 1 and m else (str(c) if not m else '')) + ms)
            return '(' + ' + '.join(t) + ')'
        if o == 'ite': return 'if(%s ? %s : %s)' % (s(a[0], d - 1), s(a[1], d - 1), s(a[2], d - 1))
        if o == 'adt':
            nm = a[0].split('::')[-1] + ('::' + a[1] if a[1] else '')
            return nm + ('{' + ', '.join('%s:%s' % (k, s(v, d - 1)) for k, v in a[2]) + '}' if a[2] else '')
        if o == 'is': return 'is%d(%s)' % (a[1], s(a[0], d - 1))
        if o == 'tup': return '(' + ', '.join(s(y, d - 1) for y in a) + ')'
        if o == 'seq' or o == 'L': return '[' + ', '.join(s(y, d - 1) for y in a) + ']'
        if o == 'flt': return '%s<0' % s(a[0], d)
        if o == 'ilt': return '%s<0' % s(a[0], d)
        if o == 'fle': return '%s<=0' % s(a[0], d)
        if o == 'comp': return '[%s | b%d<%s]' % (s(a[2], d - 1), a[0], s(a[1], d - 1))
        if o in ('any', 'first', 'sum'): return '%s(b%d<%s: %s)' % (o, a[0], s(a[1], d - 1), s(a[2], d - 1))
        return '%s(%s)' % (o, ', '.join(s(y, d - 1) for y in a))
    return s(n, depth)

def subterms(n):
    seen = {n}; st = [n]
    while st:
        x = st.pop()
        yield x
        for y in x.a: _push(y, seen, st)
def _push(y, seen, st):
    if isinstance(y, N):
        if y not in seen: seen.add(y); st.append(y)
    elif isinstance(y, tuple):
        for z in y: _push(z, seen, st)

def constrain(d, c):
    """d simplified where c holds (its value elsewhere does not matter)"""
    memo = {}
    def go(d, c):
        if d.op != 'ite' or c is TRUE: return d
        if c is FALSE: return BOT
        k = (d, c); r = memo.get(k)
        if r is not None: return r
        v = min([x.a[0] for x in (d, c) if x.op == 'ite'], key=lambda a: a.id)
        c1, c0 = cof(c, v)
        d1, d0 = cof(d, v)
        if c1 is FALSE: r = go(d0, c0)
        elif c0 is FALSE: r = go(d1, c1)
        elif d1 is d and d0 is d: r = go(d, OR(c0, c1))
        else: r = mk(v, go(d1, c1), go(d0, c0))
        memo[k] = r
        return r
    return go(d, c)

def sharpen(d):
    """use what a `first` index is known for: its condition holds there"""
    done = set()
    for _ in range(20):
        fs = [x for x in subterms(d) if x.op == 'first' and x not in done]
        if not fs: break
        for x in fs:
            done.add(x)
            c = inst(x.a[2], x.a[0], x)
            if c.op == 'ite' and not any(y.op == 'bv' for y in x.fv): d = constrain(d, c)
    return d

def cofactor(d, c):
    """d where c holds: equal for any two that agree there (generalised cofactor)"""
    memo = {}
    def go(d, c):
        if c is TRUE or d.op != 'ite': return d
        if c is FALSE: return BOT
        k = (d, c); r = memo.get(k)
        if r is not None: return r
        v = min([x.a[0] for x in (d, c) if x.op == 'ite'], key=lambda a: a.id)
        c1, c0 = cof(c, v)
        d1, d0 = cof(d, v)
        if c1 is FALSE: r = go(d0, c0)
        elif c0 is FALSE: r = go(d1, c1)
        else: r = mk(v, go(d1, c1), go(d0, c0))
        memo[k] = r
        return r
    return go(d, c)

def cared(d):
    """the iterations of a loop matter only if none of them leaves the function: where no i < n satisfies P, bodies of loops below n are taken under not P"""
    done = set()
    for _ in range(12):
        if d.op != 'ite': return d
        As = [a for a in d.atoms if a.op == 'any' and a not in done]
        if not As: return d
        A = min(As, key=lambda a: a.id); done.add(A)
        lo = restrict(d, {A: False})
        def f(x):
            if x.op not in ('comp', 'any', 'sum', 'first') or x.a[1] is not A.a[1] or x is A: return None
            v = fresh('i', True)
            C = NOT(asbool(inst(A.a[2], A.a[0], v)))
            b0 = b = inst(x.a[2], x.a[0], v)
            if C.op != 'ite': return None
            b = eqsub(b, eqrules(conj(C)))
            if b.op == 'ite': b = cofactor(b, C)
            if b is b0: return None
            if x.op == 'comp': return mkcomp(x.a[1], v, fixL(b))
            if x.op == 'any': return mkany(x.a[1], v, asbool(b))
            if x.op == 'first': return mkfirst(x.a[1], v, asbool(b))
            return mksum(x.a[1], v, b, x.a[3])
        d = ite(B(A), restrict(d, {A: True}), rewrite(lo, f))
    return d

def eqrules(asg):
    """what the equalities that hold let the larger terms be replaced by"""
    R = {}
    for a, v in asg.items():
        if not v or a.op != 'eq': continue
        x, y = a.a
        if not (isinstance(x, N) and isinstance(y, N)): continue
        while True:
            s, l = sorted((x, y), key=lambda q: (tsize(q), q.id))
            if l.op not in ('num', 'str', 'adt', 'tup', 'seq', 'bv', 'sym', 'ite'): R[l] = s
            # tokens are structures of one field
            if x.op == 'fld' and y.op == 'fld' and x.a[1:] == y.a[1:] == ('', '0'): x, y = x.a[0], y.a[0]
            else: break
    return R
_ts = {}
def tsize(n):
    r = _ts.get(n)
    if r is None: r = _ts[n] = min(10 ** 6, 1 + sum(tsize(y) for y in nodes_of(n.a)))
    return r
def nodes_of(t):
    for y in t:
        if isinstance(y, N): yield y
        elif isinstance(y, tuple): yield from nodes_of(y)
def eqsub(d, R):
    return rewrite(d, lambda x: R.get(x)) if R else d

def equals(d):
    """values by the smallest term they are known to equal"""
    memo = {}
    def facts(W, i):
        """the equalities in the states of the iterations that do not leave the loop W"""
        r = memo.get((W, i))
        if r is None:
            C = NOT(asbool(W.a[3]))
            m = {mkn('bv', W.a[0], j): mkn('wat', W, j, i) for j in range(len(W.a[1]))}
            r = memo[(W, i)] = {} if C.op != 'ite' else {subst(k, m): subst(s, m) for k, s in eqrules(conj(C)).items()}
        return r
    def wats(x, k=8):
        if k:
            for y in nodes_of(x.a):
                if y.op == 'wat': yield y
                elif y.op in ('fld', 'mget', 'ai', 'tf', 'idx'): yield from wats(y, k - 1)
    def f(x):
        if x.op == 'ite' and x.a[0].op == 'eq':
            R = eqrules({x.a[0]: True})
            h = eqsub(x.a[1], R)
            if h is not x.a[1]: return ite(B(x.a[0]), h, x.a[2])
        elif x.op == 'fld':
            for w in wats(x):
                W, j, i = w.a
                if W.op != 'while' or i.op == 'wn': continue
                y = facts(W, i).get(x)
                if y is not None: return y
        return None
    return rewrite(d, f)

def sorts(d):
    """a sorted sequence of e(i) as e of the sorted indices"""
    def f(x):
        if x.op not in ('sorted', 'sortedu'): return None
        s = x.a[0]
        if s.op == 'comp':
            n, body = comp_parts(s)
            if not is_unguarded(body) or body.op != 'L': return None
            e = lambda i: inst(body.a[0], s.a[0], i)
            if body.a[0] is mkn('bv', s.a[0]): return None
        elif s.op in ('param', 'fld', 'idx', 'tf', 'call', 'mget'):
            n = slen(s)
            e = lambda i: sidx(s, i)
        else: return None
        i, j, k = fresh('i', True), fresh('i', True), fresh('i', True)
        P = mkn(x.op, mkcomp(n, i, L(i)), mklam([i, j], applam(x.a[1], e(i), e(j))))
        return mkcomp(n, k, L(e(sidx(P, k))))
    return rewrite(d, f)

INF = mkn('inf')
def ranges(d):
    """first-found indices whatever the bound of the search (they matter only if there is one), and `found below m' as one search below
    the smaller bound; the searches below larger bounds that it implies are spelt out"""
    def found(x, ns):
        # any of ns and, for several, below the least of them
        lv, P = x.a[0], x.a[2]
        r = TRUE
        for n in ns + ([imin2(*ns)] if len(ns) > 1 else []):
            v = fresh('i', True)
            r = AND(r, mkany(n, v, asbool(inst(P, lv, v))))
        return r
    def f(x):
        if x.op == 'ite' and x.a[1] is TRUE and x.a[2] is FALSE: x = x.a[0]
        if x.op == 'any' and x.a[1].op == 'imin': return found(x, list(x.a[1].a))
        if x.op == 'ilt':
            p = topoly(x.a[0], 'i')
            for m, k in p.items():
                if len(m) == 1 and m[0][1] == 1 and abs(k) == 1 and m[0][0].op == 'first':
                    y = m[0][0]
                    if any(at.op == 'first' for m2 in p if m2 != m for at, _ in m2): continue
                    rest = frompoly({q: c for q, c in p.items() if q != m}, 'i')
                    return found(y, [y.a[1], ineg(rest)]) if k == 1 else NOT(found(y, [y.a[1], iadd(rest, I1)]))
        return None
    def g(x):
        if x.op != 'first' or x.a[1] is INF: return None
        y = mkn('first', x.a[0], INF, x.a[2])
        NONNEG.add(y)
        return y
    return rewrite(rewrite(d, f), g)

def upds(d):
    """a list with one element replaced (the index is below its length, or the update panics) as a list of its own"""
    def f(x):
        if x.op != 'upd' or x.a[0].op != 'comp': return None
        s, i, v = x.a
        n, body = comp_parts(s)
        if not is_unguarded(body): return None
        k = fresh('i', True)
        return mkcomp(n, k, ite(ieq(k, i), L(v), inst(body, s.a[0], k)))
    return rewrite(d, f)
