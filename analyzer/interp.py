"""Gated value numbering of MIR: every function is reduced to one value term per
output.  Branches become decision nodes, loops become closed forms
(comprehension / any / first / sum / fold), calls are inlined or modelled."""
import sys
from terms import *
import terms as T
from mir import Prog, Fn

sys.setrecursionlimit(60000)

class Stop(Exception): pass

class Unsupported(Exception): pass

def mkit(s, pos=None):
    pos = I0 if pos is None else pos
    return lift('it', lambda a, b: mkn('it', a, b), (s, pos))

def cellnode(c): return mkn('cell', c)
PATH0 = mkn('path')
def mref(cell, path=PATH0): return mkn('mref', cellnode(cell), path)

_hm = {}
def has_mref(v):
    r = _hm.get(v)
    if r is None:
        if v.op in ('mref', 'mseq', 'cell'): r = True
        else:
            r = False
            st = list(v.a)
            while st and not r:
                x = st.pop()
                if isinstance(x, N): r = has_mref(x)
                elif isinstance(x, tuple): st.extend(x)
        _hm[v] = r
    return r

import re
def nolt(s): return re.sub(r"(<)?'[a-z_0-9]+(, )?", lambda m: m.group(1) or '', s).replace('<>', '').replace('::::', '::')
_O = 'std::option::Option::<T>::'; _R = 'std::result::Result::<T, E>::'
PARAMETRIC = {_O + x for x in ('map', 'and_then', 'map_or', 'map_or_else', 'ok_or', 'ok_or_else', 'or_else', 'or', 'filter', 'unwrap_or', 'unwrap_or_else', 'take', 'replace', 'is_some_and')} | {_R + x for x in ('map', 'map_err', 'and_then', 'ok', 'unwrap_or_else', 'or_else')}

class Call:
    __slots__ = ('I', 'callee', 'args', 'tys', 'st', 'pc', 'ok', 'dty', 'fr', 'line')
    def load(self, i=0): return self.I.load_ref(self.args[i], self.st)
    def store(self, v, i=0): self.I.store_ref(self.args[i], v, self.st)
    def val(self, i):
        """value of argument i seen through a mutable reference"""
        return self.I.deref(self.args[i], self.st)
    def panic(self, kind, cond):
        if cond is FALSE: return
        self.I.panic(kind, AND(self.pc, self.ok, cond))
        self.ok = AND(self.ok, NOT(cond))
    def ty(self, i): return self.I.P.types[self.tys[i]]
    def inner(self, i): return self.I.P.strip(self.tys[i])
    def clo(self, f, *args):
        """call a closure value"""
        v, ok = self.I.call_value(f, list(args), self.st, AND(self.pc, self.ok), self.fr)
        self.ok = AND(self.ok, ok)
        return v

class Frame:
    __slots__ = ('fn', 'cells', 'I', 'depth', 'line')

BITS = dict([('%s%d' % (c, n), n) for c in 'iu' for n in (8, 16, 32, 64, 128)] + [('usize', 64), ('isize', 64)])
WIDE = ('i64', 'u64', 'usize', 'isize', 'i128', 'u128')
def narrow(ty, x):
    """an integer as one of a type that does not hold every value of it"""
    def go(y):
        if y.op == 'num':
            n = BITS[ty]; v = int(y.a[1]) % (1 << n)
            return inum(v - (1 << n) if ty[0] == 'i' and v >= 1 << (n - 1) else v)
        if ty[0] == 'u' and BITS[ty] == 64 and T.nonneg(y): return y
        r = mkn('call', 'as ' + ty, y)
        if ty[0] == 'u': T.NONNEG.add(r)
        return r
    return lift(('narrow', ty), go, (x,))

class Interp:
    def __init__(self, prog):
        self.P = prog
        self.ncell = 0
        self.pstack = [[]]         # panic records (kind, site, cond)
        self.notes = []            # unsupported constructs met
        self.stack = []            # active functions
        self.sites = []            # (fn, line) of local call sites
        self.memo = {}
        self.fndefs = {}
        self.cellty = {}
        self.nonneg_memo = {}
        self.visited = set()       # functions inlined
        self.opaque = {}           # opaque callee -> count
        import models
        self.models = models
        self.loopcount = 0
        self.loops_generic = 0
        self.hooks = {}

    # ------------------------------------------------------------ panics
    def panic(self, kind, cond):
        if cond is FALSE or cond is BOT: return
        site = self.sites[-1] if self.sites else ('?', 0)
        self.pstack[-1].append((kind, site, cond))

    def newcell(self, ty=None):
        self.ncell += 1
        if ty is not None: self.cellty[self.ncell] = ty
        return self.ncell

    # ------------------------------------------------------------ typing
    def typed(self, v, ti):
        if v.op in ('adt', 'num', 'tup', 'poly', 'clo', 'str'): return v
        t = self.P.types[ti]
        k = t['k']
        if k in ('ref', 'mut'):
            j = self.P.strip(ti); t = self.P.types[j]; k = t['k']; ti = j
        if k == 'adt' and t['path'] == 'std::boxed::Box':
            ti = self.P.strip(ti); t = self.P.types[ti]; k = t['k']
        if k == 'bool': 
            if has_mref(v): return v
            return asbool(v)
        key = (v, ti)
        if key in self.nonneg_memo: return v
        self.nonneg_memo[key] = True
        if k == 'int':
            if t['s'][0] == 'u':
                for l in leaves(v):
                    if l.op in ('fld', 'ai', 'idx', 'tf', 'param', 'call', 'mget', 'eval', 'ekey', 'sym', 'unk', 'out'): T.NONNEG.add(l)
        elif k == 'adt' and not t['enum']:
            for l in leaves(v):
                if l.op in ('fld', 'ai', 'idx', 'tf', 'param', 'call', 'mget', 'eval', 'sym', 'ekey', 'unk', 'out') and l not in T.TYOF:
                    T.TYOF[l] = t['path']
        elif k == 'array':
            for l in leaves(v):
                if l.op in ('fld', 'ai', 'idx', 'tf', 'param', 'call', 'mget', 'eval', 'sym', 'unk', 'out'): T.ARRLEN[l] = t['len']
        elif k == 'float':
            for l in leaves(v): T.FLOATS.add(l)
        return v

    def kind(self, ti):
        """scalar kind of a type"""
        t = self.P.types[self.P.strip(ti)]
        return {'bool': 'b', 'int': 'i', 'float': 'f'}.get(t['k'])

    # ------------------------------------------------------------ references
    def load_ref(self, r, st):
        def go(l):
            if l.op != 'mref': return l
            return self.load(l.a[0].a[0], l.a[1], st)
        return mapleaves(go, r)

    def deref(self, v, st):
        """look through mutable references (leaves everything else alone)"""
        if not has_mref(v): return v
        n = 0
        while any(l.op == 'mref' for l in leaves(v)):
            v = self.load_ref(v, st)
            n += 1
            if n > 8: break
        return v

    def load(self, cell, path, st):
        v = st.get(cell, BOT)
        for e in path.a: v = self.proj(v, e)
        return v

    def proj(self, v, e):
        o = e.op
        if o == 'pf':
            _, vn, fnm = e.a[0], e.a[1], e.a[2]
            return fld(v, vn, fnm)
        if o == 'pt': return tfield(v, e.a[0], e.a[1])
        if o == 'pi': return sidx(v, e.a[0])
        if o == 'pa': return aidx(v, e.a[0], e.a[1])
        if o == 'pk': return mget(v, e.a[0])
        if o == 'pv': return mkn('eval', v, e.a[0])
        if o == 'pr': return sslice(v, e.a[0], e.a[1])
        if o == 'pm': return mapleaves(lambda l: l.a[2][e.a[0]] if l.op == 'mat' else mkn('matel', l, e.a[0]), v)
        if o == 'pc': return self.capture(v, e.a[0])
        raise Unsupported('path ' + o)

    def capture(self, v, i):
        def go(l):
            if l.op == 'clo': return l.a[1 + i]
            return mkn('cap', l, i)
        return mapleaves(go, v)

    def put(self, v, path, new):
        """functional update of v at path"""
        if not path: return new
        e, rest = path[0], path[1:]
        o = e.op
        if o == 'pf':
            own, vn, fnm = e.a
            sub = self.put(fld(v, vn, fnm), rest, new)
            names = self.fieldnames(own, vn)
            if names is None: raise Unsupported('store to field of ' + own)
            vals = [sub if n == fnm else fld(v, vn, n) for n in names]
            return adt(own, vn, dict(zip(names, vals)))
        if o == 'pt':
            i, n = e.a
            sub = self.put(tfield(v, i, n), rest, new)
            return tup(*[sub if j == i else tfield(v, j, n) for j in range(n)])
        if o == 'pi':
            sub = self.put(sidx(v, e.a[0]), rest, new)
            return supd(v, e.a[0], sub)
        if o == 'pa':
            i, n = e.a
            sub = self.put(aidx(v, i, n), rest, new)
            if n <= 64:
                arr = expand_array(v, n)
                return mapleaves(lambda l: seq(*[sub if j == i else x for j, x in enumerate(l.a)]), arr)
            return supd(v, inum(i), sub)
        if o == 'pk':
            sub = self.put(mget(v, e.a[0]), rest, new)
            return T.mput(v, e.a[0], sub)
        if o == 'pv':
            sub = self.put(mkn('eval', v, e.a[0]), rest, new)
            return mkn('vupd', v, e.a[0], sub)
        if o == 'pr':
            sub = self.put(sslice(v, e.a[0], e.a[1]), rest, new)
            return cat(sslice(v, I0, e.a[0]), sub, sslice(v, e.a[1], slen(v)))
        if o == 'pm':
            if any(l.op != 'mat' for l in leaves(v) if l is not BOT): raise Unsupported('store into matrix')
            sub = self.put(self.proj(v, e), rest, new)
            def ms(m, x):
                if m is BOT: return BOT
                es = list(m.a[2]); es[e.a[0]] = x
                return mkn('mat', m.a[0], m.a[1], tuple(es))
            return lift(('mset', e.a[0]), ms, (v, sub))
        if o == 'pc':
            sub = self.put(self.capture(v, e.a[0]), rest, new)
            def go(l):
                if l.op != 'clo': raise Unsupported('capture store')
                a = list(l.a); a[1 + e.a[0]] = sub
                return mkn('clo', *a)
            return mapleaves(go, v)
        raise Unsupported('store path ' + o)

    def fieldnames(self, path, vn):
        a = self.P.adts.get(path)
        if a is None: return None
        if vn == '': return [f['name'] for f in a['variants'][0]['fields']]
        for v in a['variants']:
            if v['name'] == vn: return [f['name'] for f in v['fields']]
        return None

    def store_ref(self, r, v, st):
        ls = [l for l in leaves(r) if l is not BOT]
        for l in ls:
            if l.op != 'mref':
                self.note('store through opaque reference ' + l.op)
                continue
            c = l.a[0].a[0]
            old = st.get(c, BOT)
            if len(ls) == 1:
                st[c] = self.put(old, l.a[1].a, v)
            else:
                cond = mapleaves(lambda x: boolc(x is l), r)
                st[c] = ite(cond, self.put(old, l.a[1].a, v), old)

    def note(self, s):
        if s not in self.notes: self.notes.append(s)

    # ------------------------------------------------------------ places
    def place_ref(self, fr, p, st, upto=None):
        """location of a place: mref DD, or ('val', v)"""
        base, elems, ty = p
        cur = ('loc', mref(fr.cells[base]))
        curty = fr.fn.rec['locals'][base][0]
        vname = ''
        vpath = None
        if upto is not None: elems = elems[:upto]
        for e in elems:
            k = e[0]
            if k == '*':
                kind = e[1]
                if kind == 'box':
                    pass
                else:
                    v = self.load_ref(cur[1], st) if cur[0] == 'loc' else cur[1]
                    ls = [l for l in leaves(v) if l is not BOT]
                    if ls and all(l.op == 'mref' for l in ls): cur = ('loc', v)
                    else: cur = ('val', self.load_ref(v, st) if has_mref(v) and any(l.op == 'mref' for l in ls) else v)
                curty = self.P.types[curty]['args'][0] if self.P.types[curty]['args'] else curty
            elif k == 'f':
                _, idx, name, fty, own = e
                o = self.P.types[own] if own is not None else {'k': 'other'}
                if o['k'] == 'tuple': pe = mkn('pt', idx, len(o['args']))
                elif o['k'] == 'closure': pe = mkn('pc', idx)
                elif o['k'] == 'adt':
                    if o['path'] == 'std::boxed::Box' or o['path'].startswith('std::mem::'): pe = None
                    else: pe = mkn('pf', o['path'], vname, name)
                else: raise Unsupported('field of ' + o['k'])
                vname = ''
                if pe is not None: cur = self.extend(cur, pe)
                curty = fty if fty is not None else curty
            elif k == 'd':
                a = self.P.types[curty]
                vs = VARIANTS.get(a.get('path'))
                vname = vs[e[1]] if vs else str(e[1])
            elif k == 'i':
                j = st.get(fr.cells[e[1]], BOT)
                t = self.P.types[curty]
                if t['k'] == 'array' and j.op == 'num': pe = mkn('pa', int(j.a[1]), t['len'])
                else: pe = mkn('pi', j)
                cur = self.extend(cur, pe)
                curty = t['args'][0]
            elif k == 'ci':
                _, off, minlen, fe = e
                t = self.P.types[curty]
                if t['k'] == 'array':
                    pe = mkn('pa', off if not fe else t['len'] - off, t['len'])
                else:
                    if fe:
                        v = self.load_ref(cur[1], st) if cur[0] == 'loc' else cur[1]
                        pe = mkn('pi', isub(slen(v), inum(off)))
                    else: pe = mkn('pi', inum(off))
                cur = self.extend(cur, pe)
                curty = t['args'][0]
            elif k == 'ss':
                _, a, b, fe = e
                v = self.load_ref(cur[1], st) if cur[0] == 'loc' else cur[1]
                n = slen(v)
                hi = isub(n, inum(b)) if fe else inum(b)
                cur = self.extend(cur, mkn('pr', inum(a), hi))
            else: raise Unsupported('place elem ' + k)
        return cur, vname

    def extend(self, cur, pe):
        if cur[0] == 'loc':
            return ('loc', mapleaves(lambda l: mkn('mref', l.a[0], mkn('path', *(l.a[1].a + (pe,)))), cur[1]))
        if pe.op == 'pi' and pe.a[0].op == 'ite':
            return ('val', lift('pidx', lambda j: self.proj(cur[1], mkn('pi', j)), (pe.a[0],)) if False else sidx(cur[1], pe.a[0]))
        return ('val', self.proj(cur[1], pe))

    def read_place(self, fr, p, st):
        if not p[1]:
            return st.get(fr.cells[p[0]], BOT)
        cur, _ = self.place_ref(fr, p, st)
        v = self.load_ref(cur[1], st) if cur[0] == 'loc' else cur[1]
        if p[2] is not None: v = self.typed(v, p[2])
        return v

    def write_place(self, fr, p, v, st):
        if not p[1]:
            st[fr.cells[p[0]]] = v
            return
        cur, _ = self.place_ref(fr, p, st)
        if cur[0] != 'loc': 
            self.note('write to a value place in ' + fr.fn.sym)
            return
        self.store_ref(cur[1], v, st)

    # ------------------------------------------------------------ operands
    def const(self, c):
        t = self.P.types[c['ty']]
        if c.get('fn') or t['k'] == 'fndef':
            k = t['s']
            self.fndefs[k] = t['callee']
            return mkn('fndef', k)
        v = c.get('v')
        if v is None: return mkn('call', 'const', c.get('name', '?'))
        return self.cval(v, c['ty'])

    def cval(self, v, ty):
        k = v[0]
        if k == 'bool': return boolc(v[1])
        if k == 'int':
            return inum(int(v[1]))
        if k == 'float':
            s = v[1]
            f = float(s)
            if f != f: return mkn('fconst', 'nan')
            if f in (float('inf'), float('-inf')): return mkn('fconst', 'inf' if f > 0 else '-inf')
            return fnum(Fraction(s) if ('e' not in s.lower()) else Fraction(f))
        if k == 'char': return mkn('chr', v[1])
        if k == 'str': return strc(v[1])
        if k == 'tuple': 
            ts = self.P.types[self.P.strip(v[1])]['args']
            return tup(*[self.cval(x, ts[i]) for i, x in enumerate(v[3])])
        if k == 'array':
            et = self.P.types[self.P.strip(v[1])]['args']
            return seq(*[self.cval(x, et[0]) for x in v[3]])
        if k == 'adt':
            ti = self.P.strip(v[1])
            t = self.P.types[ti]
            a = self.P.adts.get(t['path'])
            if a is None: return mkn('call', 'constadt', t['s'])
            var = a['variants'][v[2]]
            fts = t['fields'][v[2]]
            vn = var['name'] if a['enum'] else ''
            return adt(t['path'], vn, {f['name']: self.cval(x, fts[i]) for i, (f, x) in enumerate(zip(var['fields'], v[3]))})
        if k == 'zst':
            ti = v[1] if len(v) > 1 else ty
            return self.zst(ti)
        if k == 'static': return mkn('call', 'static', v[1])
        if k == 'opaque': return mkn('call', 'constopaque', str(v[1]))
        raise Unsupported('const ' + k)

    def zst(self, ti):
        t = self.P.types[self.P.strip(ti)]
        if t['k'] == 'tuple' and not t['args']: return UNIT
        if t['k'] == 'fndef':
            self.fndefs[t['s']] = t['callee']
            return mkn('fndef', t['s'])
        if t['k'] == 'closure': return mkn('clo', self.cloname(t))
        if t['k'] == 'adt':
            a = self.P.adts.get(t['path'])
            if a and not a['enum']:
                return adt(t['path'], '', {f['name']: self.zst(t['fields'][0][i]) if t['fields'][0][i] is not None else UNIT for i, f in enumerate(a['variants'][0]['fields'])})
        if t['k'] == 'array': return seq()
        return mkn('call', 'zst', t['s'])

    def cloname(self, t):
        return self.P.label + '|' + t['sym']

    def operand(self, fr, o, st):
        k = o[0]
        if k in ('c', 'm'): return self.read_place(fr, o[1], st)
        if k == 'k': return self.const(o[1])
        return mkn('call', 'rt')

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, r, st, dty):
        k = r[0]
        if k == 'use': return self.operand(fr, r[1], st)
        if k == 'ref':
            if r[1] == 'mut':
                p = r[2]
                # reborrow of a mutable reference is the reference itself
                cur, _ = self.place_ref(fr, p, st)
                if cur[0] == 'loc': return cur[1]
                return cur[1]
            if r[1] == 'fake': return UNIT
            v = self.read_place(fr, r[2], st)
            return v
        if k == 'rawptr':
            cur, _ = self.place_ref(fr, r[2], st)
            return cur[1]
        if k == 'cast': return self.cast(fr, r, st)
        if k == 'bin': return self.binop(r[1], self.dr(self.operand(fr, r[2], st), st), self.dr(self.operand(fr, r[3], st), st), r[4], self.opty(fr, r[2]))
        if k == 'un':
            x = self.dr(self.operand(fr, r[2], st), st)
            if r[1] == 'Not':
                kd = self.kind(r[3]) if len(r) > 3 and r[3] is not None else 'b'
                return NOT(asbool(x)) if kd == 'b' else mkn('call', 'bitnot', x)
            if r[1] == 'Neg':
                return fneg(x) if self.kind(r[3]) == 'f' else ineg(x)
            if r[1] == 'PtrMetadata': return slen(x)
            raise Unsupported('unop ' + r[1])
        if k == 'discr':
            v = self.dr(self.read_place(fr, r[1], st), st)
            t = self.P.types[r[1][2]]
            return mkn('dscr', v, t.get('path', '?'))
        if k == 'agg':
            ops = [self.operand(fr, o, st) for o in r[4]]
            if r[1] == 'array': return seq(*ops)
            if r[1] == 'tuple': return tup(*ops)
            t = self.P.types[r[2]]
            if r[1] == 'closure': return mkn('clo', self.cloname(t), *ops)
            if r[1] == 'adt':
                a = self.P.adts[t['path']]
                var = a['variants'][r[3]]
                if t['path'] == 'std::boxed::Box': return ops[0]
                return adt(t['path'], var['name'] if a['enum'] else '', {f['name']: o for f, o in zip(var['fields'], ops)})
            if r[1] == 'rawptr': return ops[0]
            raise Unsupported('aggregate ' + r[1])
        if k == 'repeat':
            x = self.operand(fr, r[1], st)
            n = r[2]
            if isinstance(n, int) and n <= 64: return seq(*[x] * n)
            v = fresh('i', True)
            return mkcomp(inum(n) if isinstance(n, int) else mkn('call', 'constlen', str(n)), v, elemL(x))
        raise Unsupported('rvalue ' + k)

    def dr(self, v, st): return self.deref(v, st)

    def opty(self, fr, o):
        if o[0] in ('c', 'm'): return o[1][2] if o[1][2] is not None else fr.fn.rec['locals'][o[1][0]][0]
        if o[0] == 'k': return o[1]['ty']
        return None

    def cast(self, fr, r, st):
        _, kind, o, frm, to = r
        x = self.operand(fr, o, st)
        if kind == 'IntToFloat': return i2f(self.dr(x, st))
        if kind == 'FloatToFloat':
            x = self.dr(x, st)
            if self.P.types[to]['s'] == 'f32' and self.P.types[frm]['s'] == 'f64': return fn('f32', x)
            return x
        if kind == 'FloatToInt':
            x = self.dr(x, st)
            ty = self.P.types[to]['s']
            r = lift('f2i', lambda y: self.f2i(y), (x,))
            if ty[:1] == 'u': r = imax2(I0, r)
            return r if ty in WIDE else narrow(ty, r)
        if kind == 'IntToInt':
            x = self.dr(x, st)
            if self.P.types[frm]['k'] == 'bool':
                return ite(asbool(x), I1, I0)
            a, b = self.P.types[frm]['s'], self.P.types[to]['s']
            if a in BITS and b in BITS and (BITS[b] < BITS[a] or BITS[b] == BITS[a] and a[0] == 'u' and b[0] == 'i' and b not in WIDE or b[0] == 'u' and a[0] == 'i'): return narrow(b, x)
            return x
        if kind.startswith('Unsize') or kind.startswith('PointerCoercion'):
            t = self.P.types[self.P.strip(to)]
            s = self.P.types[self.P.strip(frm)]
            if t['k'] == 'dyn' and s['k'] != 'dyn':
                if any(l.op == 'mref' for l in leaves(x)): return x
                return mkn('dyn', self.P.types[self.P.strip(frm)]['s'], x)
            if s['k'] == 'array' and t['k'] == 'slice' and s['len'] <= 64 and not any(l.op == 'mref' for l in leaves(x)):
                return expand_array(x, s['len'])
            return x
        if kind in ('BoxDerefTransmute', 'PtrToPtr', 'Transmute', 'ReifyFnPointer', 'ClosureFnPointer', 'MutToConstPointer', 'ArrayToPointer') or kind.startswith('Reify') or kind.startswith('Closure'):
            return x
        if kind == 'Subtype': return x
        raise Unsupported('cast ' + kind)

    def f2i(self, y):
        if y.op == 'num':
            import math
            return inum(math.trunc(y.a[1]))
        p = topoly(y, 'f')
        if all(c.denominator == 1 and all(a.op == 'i2f' and e > 0 for a, e in m) for m, c in p.items()):
            r = I0
            for m, c in p.items():
                t = inum(c)
                for a, e in m:
                    for _ in range(e): t = imul(t, a.a[0])
                r = iadd(r, t)
            return r
        return mkn('f2i', y)

    def binop(self, op, a, b, rty, opty):
        kd = self.kind(opty) if opty is not None else None
        if kd is None and opty is not None and self.P.types[opty]['k'] == 'char': kd = 'o'
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            base = op[:3]
            v = {'Add': iadd, 'Sub': isub, 'Mul': imul}[base](a, b)
            t = self.P.types[opty]
            if base == 'Sub' and t['s'][0] == 'u': return tup(v, ilt0(v))
            return tup(v, FALSE)
        if op in ('Add', 'AddUnchecked'): return fadd(a, b) if kd == 'f' else iadd(a, b)
        if op in ('Sub', 'SubUnchecked'): return fsub(a, b) if kd == 'f' else isub(a, b)
        if op in ('Mul', 'MulUnchecked'): return fmul(a, b) if kd == 'f' else imul(a, b)
        if op == 'Div': return fdiv(a, b) if kd == 'f' else self.idiv(a, b)
        if op == 'Rem': return self.irem(a, b) if kd != 'f' else fn('fmod', a, b)
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if op in ('Gt', 'Ge'): a, b = b, a; op = {'Gt': 'Lt', 'Ge': 'Le'}[op]
            if kd == 'f': return flt(a, b) if op == 'Lt' else fle(a, b)
            if kd == 'i': return ilt(a, b) if op == 'Lt' else ile(a, b)
            return olt(a, b) if op == 'Lt' else NOT(olt(b, a))
        if op in ('Eq', 'Ne'):
            r = self.eqk(a, b, kd)
            return r if op == 'Eq' else NOT(r)
        if op in ('BitAnd', 'BitOr', 'BitXor') and kd == 'b':
            a = asbool(a); b = asbool(b)
            return AND(a, b) if op == 'BitAnd' else OR(a, b) if op == 'BitOr' else ite(a, NOT(b), b)
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            return lift(('bit', op), lambda x, y: mkn('call', op, x, y), (a, b))
        if op == 'Cmp': return ocmp(a, b, kd if kd in ('i', 'f') else 'o')
        raise Unsupported('binop ' + op)

    def idiv(self, a, b):
        def go(x, y):
            if x.op == 'num' and y.op == 'num' and y.a[1] != 0:
                q = abs(x.a[1]) // abs(y.a[1])
                return inum(q if (x.a[1] >= 0) == (y.a[1] > 0) else -q)
            if y.op == 'num' and y.a[1] == 1: return x
            r = mkn('fn', 'idiv', x, y)
            if nonneg(x) and nonneg(y): T.NONNEG.add(r)
            return r
        return lift('idiv', go, (a, b))

    def irem(self, a, b):
        def go(x, y):
            if x.op == 'num' and y.op == 'num' and y.a[1] > 0 and x.a[1] >= 0: return inum(x.a[1] % y.a[1])
            r = mkn('fn', 'irem', x, y)
            if nonneg(x) and nonneg(y): T.NONNEG.add(r)
            return r
        return lift('irem', go, (a, b))

    def eqk(self, a, b, kd):
        if a.op == 'dscr' or b.op == 'dscr':
            return lift('deq', self.deq, (a, b))
        if kd == 'b': return eqv(asbool(a), asbool(b), 'b')
        if kd in ('i', 'f'): return eqv(a, b, kd)
        return eqv(a, b)

    def deq(self, a, b):
        if b.op == 'dscr' and a.op != 'dscr': a, b = b, a
        if a.op == 'dscr' and b.op == 'num':
            vn = self.variant_by_discr(a.a[1], b.a[1])
            if vn is None: return FALSE
            return isvar(a.a[0], a.a[1], vn)
        if a.op == 'dscr' and b.op == 'dscr': return mapleaves(lambda x: x, eqv(mkn('dscr', a.a[0], a.a[1]), mkn('dscr', b.a[0], b.a[1])))
        return eqv(a, b)

    def variant_by_discr(self, path, val):
        a = self.P.adts.get(path)
        if a is None: return None
        for v in a['variants']:
            if int(v['discr']) == int(val) or (int(val) >= 2**63 and int(v['discr']) in (int(val) - 2**64, int(val) - 2**8, int(val) - 2**128)): return v['name']
        # small signed discriminants printed unsigned
        for v in a['variants']:
            d = int(v['discr'])
            for bits in (8, 16, 32, 64, 128):
                if d % (1 << bits) == int(val) % (1 << bits) and int(val) < (1 << bits): return v['name']
        return None

    # ------------------------------------------------------------ functions
    def new_frame(self, f, depth):
        f.cfg()
        fr = Frame()
        fr.fn = f
        fr.I = self
        fr.depth = depth
        fr.cells = []
        for l in f.rec['locals']:
            c = self.newcell(l[0])
            fr.cells.append(c)
        return fr

    def call_fn(self, f, args, st, pc=TRUE):
        """inline a function; returns (value, condition of returning)"""
        if f.sym in self.stack and self.stack.count(f.sym) >= 2: raise Unsupported('recursion ' + f.sym)
        key = None
        if not any(has_mref(a) for a in args):
            key = (f.sym, tuple(args))
            m = self.memo.get(key)
            if m is not None:
                v, ok, pans = m
                for (k, s, c) in pans: self.panic_at(k, s, AND(pc, c))
                return v, ok
        self.visited.add(f.sym)
        if len(self.stack) > 80: raise Unsupported('inlining too deep at ' + f.sym)
        self.stack.append(f.sym)
        self.pstack.append([])
        fr = self.new_frame(f, len(self.stack))
        try:
            rec = f.rec
            argc = rec['argc']
            if rec.get('spread') is not None and len(args) != argc: args = self.spread(f, args)
            for i in range(argc):
                if i < len(args):
                    st[fr.cells[i + 1]] = self.typed(args[i], rec['locals'][i + 1][0])
            entry = dict(st)
            region = frozenset(f.pred.keys())
            exits = self.region(fr, region, 0, entry, None, TRUE)
        finally:
            self.stack.pop()
            pans = self.pstack.pop()
        own = set(fr.cells)
        contrib = [(c, s) for (c, s, tgt) in exits if tgt == 'ret']
        if not contrib:
            v, ok = BOT, FALSE
        else:
            ok = FALSE
            for c, _ in contrib: ok = OR(ok, c)
            m = self.merge(contrib)
            v = m.get(fr.cells[0], BOT)
            if self.P.types[rec['locals'][0][0]]['k'] == 'tuple' and not self.P.types[rec['locals'][0][0]]['args']: v = UNIT
            for c in list(st.keys()):
                if c in own: del st[c]
            for c, x in m.items():
                if c not in own and (c in st): st[c] = x
        for c in own: st.pop(c, None)
        if key is not None: self.memo[key] = (v, ok, pans)
        for (k, s, c) in pans: self.panic_at(k, s, AND(pc, c))
        return v, ok

    def panic_at(self, k, s, c):
        if c is FALSE or c is BOT: return
        self.pstack[-1].append((k, s, c))

    def spread(self, f, args):
        # closure bodies: self, then the tuple spread into arguments
        if len(args) == 2 and args[1].op == 'tup': return [args[0]] + list(args[1].a)
        return args

    def merge(self, contrib):
        if len(contrib) == 1: return dict(contrib[0][1])
        first = contrib[0][1]
        keys = set()
        for _, s in contrib: keys |= s.keys()
        out = {}
        for k in keys:
            vs = [s.get(k, BOT) for _, s in contrib]
            v0 = vs[0]
            if all(v is v0 for v in vs): out[k] = v0; continue
            r = BOT
            for (c, _), v in zip(reversed(contrib), reversed(vs)):
                r = ite(c, v, r)
            out[k] = r
        return out

    def prune(self, fr, b, st):
        """drop dead locals of this frame"""
        live = fr.fn.live[b]
        taken = fr.fn.taken
        for i, c in enumerate(fr.cells):
            if c in st and i not in live and i not in taken: del st[c]
        return st

    def region(self, fr, blocks, entry, st, header, pc0):
        """evaluate an acyclic region (inner loops collapsed).
        Returns exits: (cond, state, target) with target 'ret', 'back' or a block"""
        f = fr.fn
        pend = {entry: [(pc0, st)]}
        out = []
        topo = f.topo
        import heapq
        heap = [(topo[entry], entry)]
        queued = {entry}
        def send(frm, tgt, cond, s):
            if cond is FALSE or cond is BOT: return
            if tgt == header: out.append((cond, s, 'back')); return
            if tgt not in blocks: out.append((cond, s, tgt)); return
            pend.setdefault(tgt, []).append((cond, s))
            if tgt not in queued:
                queued.add(tgt)
                heapq.heappush(heap, (topo[tgt], tgt))
        while heap:
            _, b = heapq.heappop(heap)
            contrib = pend.pop(b)
            queued.discard(b)
            if len(contrib) > 1:
                cond = FALSE
                for c, s in contrib:
                    cond = OR(cond, c)
                    self.prune(fr, b, s)
                s = self.merge(contrib)
            else:
                cond, s = contrib[0]
                s = dict(s)
                self.prune(fr, b, s)
            if cond is FALSE: continue
            if b in f.loops and b != header:
                self.pstack.append([])
                try: exits = self.loop(fr, b, s)
                finally: ps = self.pstack.pop()
                for kd_, site_, c_ in ps: self.panic_at(kd_, site_, AND(cond, c_))
                for c, s2, tgt in exits:
                    if tgt == 'ret': out.append((AND(cond, c), s2, 'ret'))
                    else: send(b, tgt, AND(cond, c), s2)
                continue
            self.block(fr, b, s, cond, send, out)
        return out

    def block(self, fr, b, st, cond, send, out):
        blk = fr.fn.blocks[b]
        local = fr.fn.rec['local']
        for s in blk['s']:
            if s[0] == '=':
                if local: fr.line = s[3] if len(s) > 3 else 0
                v = self.rvalue(fr, s[2], st, s[1][2])
                self.write_place(fr, s[1], v, st)
            elif s[0] == 'setd':
                raise Unsupported('set discriminant')
        t = blk['t']
        k = t[0]
        if k == 'goto': send(b, t[1], cond, st)
        elif k == 'return': out.append((cond, st, 'ret'))
        elif k == 'drop': send(b, t[1], cond, st)
        elif k == 'switch':
            v = self.dr(self.operand(fr, t[1], st), st)
            ty = t[4]
            rest = TRUE
            br = []
            for val, tgt in t[2]:
                c = self.switch_cond(v, val, ty)
                c = AND(rest, c)
                rest = AND(rest, NOT(c))
                br.append((c, tgt))
            if t[3] is not None: br.append((rest, t[3]))
            bycond = [(AND(cond, c), tgt) for c, tgt in br]
            alive = [(c, tgt) for c, tgt in bycond if c is not FALSE and c is not BOT]
            for i, (c, tgt) in enumerate(alive):
                send(b, tgt, c, st if i == len(alive) - 1 else dict(st))
        elif k == 'assert':
            v = asbool(self.dr(self.operand(fr, t[1], st), st))
            good = v if t[2] else NOT(v)
            kind = t[3]
            kd = 'overflow' if 'Overflow' in kind else 'index' if 'BoundsCheck' in kind else 'div' if 'Zero' in kind else 'ptr'
            if kd == 'overflow' and ('Add' in kind or 'Mul' in kind or 'Shl' in kind or 'Shr' in kind or 'Neg' in kind): pass
            elif kd != 'ptr':
                if local: self.sites.append((fr.fn.sym, t[5] if len(t) > 5 else 0))
                self.panic(kd, AND(cond, NOT(good)))
                if local: self.sites.pop()
                cond = AND(cond, good)
            send(b, t[4], cond, st)
        elif k == 'call':
            self.call_term(fr, t, b, st, cond, send)
        elif k == 'unreachable': pass
        elif k == 'cleanup': pass
        else: raise Unsupported('terminator ' + k)

    def switch_cond(self, v, val, ty):
        t = self.P.types[ty]
        val = int(val)
        if t['k'] == 'bool':
            c = asbool(v)
            return NOT(c) if val == 0 else c
        def go(x):
            if x.op == 'dscr':
                vn = self.variant_by_discr(x.a[1], val)
                if vn is None: return FALSE
                return isvar(x.a[0], x.a[1], vn)
            if t['k'] == 'char': return boolc(x.a[0] == chr(val)) if x.op == 'chr' else eqv(x, mkn('chr', chr(val)))
            if t['s'][0] == 'i' and val >= 2**63: return ieq(x, inum(val - 2**64))
            return ieq(x, inum(val))
        return lift(('sw', val, ty, self.P.label), go, (v,))

    def call_term(self, fr, t, b, st, cond, send):
        _, callee, args, dest, target, line = t[:6]
        vals = [self.operand(fr, a[0], st) for a in args]
        tys = [a[1] for a in args]
        local = fr.fn.rec['local']
        if local: self.sites.append((fr.fn.sym, line))
        try:
            if 'ptr' in callee:
                f = self.operand(fr, callee['ptr'], st)
                v, ok = self.call_value(f, vals, st, cond, fr)
            else:
                dty = dest[2] if dest[2] is not None else fr.fn.rec['locals'][dest[0]][0]
                v, ok = self.call(callee, vals, tys, st, cond, fr, dty, target is None)
        finally:
            if local: self.sites.pop()
        if target is None: return
        cond = AND(cond, ok)
        if cond is FALSE: return
        self.write_place(fr, dest, self.typed(v, dest[2] if dest[2] is not None else fr.fn.rec['locals'][dest[0]][0]) if v is not BOT else v, st)
        send(b, target, cond, st)

    # ------------------------------------------------------------ calls
    def call(self, callee, vals, tys, st, pc, fr, dty, diverges=False):
        c = Call()
        c.I = self; c.callee = callee; c.args = vals; c.tys = tys; c.st = st; c.pc = pc; c.ok = TRUE; c.dty = dty; c.fr = fr
        c.line = 0
        d = callee['def']
        tr = callee.get('trait')
        res = callee.get('res') or {}
        if tr in ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn'):
            a = vals[1]
            al = list(a.a) if a.op == 'tup' else None
            if al is None:
                at = self.P.types[self.P.strip(tys[1])]
                if at['k'] != 'tuple': raise Unsupported('closure arguments')
                al = [tfield(a, i, len(at['args'])) for i in range(len(at['args']))]
            return self.call_value(vals[0], al, st, pc, fr)
        if diverges:
            if d.startswith('core::panicking') or 'panic' in d or 'unwrap_failed' in d or 'expect_failed' in d or d.startswith('std::process'):
                self.panic('panic:' + d.split('::')[-1], pc)
                return BOT, FALSE
        if self.hooks:
            nd = callee.get('_nd')
            if nd is None: nd = callee['_nd'] = nolt(d)
            hook = self.hooks.get(nd)
        else: hook = None
        if hook is not None:
            r = hook(c)
            if r is not None: return r, c.ok
        if res.get('kind') == 'Virtual': return self.virtual(c)
        m = self.models.find(self, callee, res)
        if m is not None:
            v = m(c)
            if v is not None: return v, c.ok
        f = None
        if res.get('sym') in self.P.fns: f = self.P.fns[res['sym']]
        elif d in self.P.fns and not tr: f = self.P.fns[d]
        elif not tr and callee.get('local'): f = self.P.generic(d)
        elif not tr and d in PARAMETRIC: f = self.P.anyinst(d)   # parametric in its type arguments: every instance has the same body
        if f is not None and (res.get('local') or res.get('body') or f.rec['local']) :
            if res.get('derived') or f.rec['derived']:
                v = self.models.derived(c, f)
                if v is not None: return v, c.ok
            try:
                return self.call_fn(f, vals, st, pc)
            except Unsupported as e:
                self.note('not analysed: %s (%s)' % (f.sym, e))
        if diverges:
            self.panic('diverge:' + d, pc)
            return BOT, FALSE
        return self.opaque_call(c), c.ok

    def opname(self, callee):
        d = callee['def']
        tr = callee.get('trait')
        if tr and callee.get('args'):
            t = self.P.types[self.P.strip(callee['args'][0])]
            s = t['s']
            if t['k'] in ('closure', 'fndef'): s = t['k']
            res = callee.get('res') or {}
            return (res.get('def') or d) + '@' + clean(s)
        return d

    def opaque_call(self, c, name=None, keepty=True):
        nm = name or self.opname(c.callee)
        self.opaque[nm] = self.opaque.get(nm, 0) + 1
        vals = [self.deref(v, c.st) for v in c.args]
        vals = [self.norm_arg(v) for v in vals]
        extra = ()
        if keepty and name is None:
            targs = [clean(self.P.types[i]['s']) for i in c.callee.get('args', []) if self.P.types[i]['k'] not in ('closure', 'fndef', 'ref')]
            rt = clean(self.P.types[c.dty]['s'])
            extra = (rt,) if any(x in nm for x in ('from_reader', 'parse', 'from_str', 'try_into', 'try_from', 'deserialize', 'default', 'collect', 'into', 'sum', 'product')) else ()
        r = mkn('call', nm, *(tuple(extra) + tuple(vals)))
        for i, v in enumerate(c.args):
            if has_mref(v):
                for l in leaves(v):
                    if l.op == 'mref':
                        self.store_ref(v, mkn('out', r, i), c.st)
                        break
                else:
                    self.havoc(v, r, c.st)
        return r

    def havoc(self, v, r, st):
        """a mutable reference hidden in a value escapes to an unknown callee"""
        seen = set()
        todo = [v]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple): todo.extend(x); continue
            if not isinstance(x, N) or x in seen: continue
            seen.add(x)
            if x.op in ('mref', 'mseq'):
                cell = x.a[0].a[0]
                if cell in st: st[cell] = mkn('unk', r, cell)
                self.note('mutable state escapes to ' + str(r.a[0]))
            else: todo.extend(x.a)

    def norm_arg(self, v):
        """a closure passed to a function without a model stands for the function it computes"""
        if v.op == 'clo': return self.lam(v)
        if v.op == 'ite' and any(l.op == 'clo' for l in leaves(v)): return mapleaves(lambda l: self.lam(l) if l.op == 'clo' else l, v)
        return v

    def lam(self, l):
        sym = l.a[0].split('|', 1)[1] if '|' in l.a[0] else ''
        body = self.P.fns.get(sym) or self.P.gen.get(sym)
        if body is None or any(has_mref(x) for x in l.a[1:]): return mkn('clo', 'unknown ' + sym, *l.a[1:])
        try:
            args = []
            if body.rec.get('spread') is not None and body.rec['argc'] == 2:
                tt = self.P.types[body.rec['locals'][2][0]]
                tys = list(tt['args'])
            else: tys = [x[0] for x in body.rec['locals'][2:1 + body.rec['argc']]]
            vs = []
            for i, ti in enumerate(tys):
                n = fresh('l'); vs.append(n)
                if self.P.types[ti]['k'] == 'mut': return mkn('clo', 'unknown ' + sym, *l.a[1:])
                args.append(self.typed(n, ti))
            self.pstack.append([])
            try: v, ok = self.call_value(l, args, {}, TRUE, None)
            finally: self.pstack.pop()
            v = self.deref(v, {})
            return T.mklam(vs, ite(ok, v, BOT))
        except Unsupported as e:
            return mkn('clo', 'unknown ' + sym, *l.a[1:])

    def virtual(self, c):
        recv = self.deref(c.args[0], c.st)
        meth = c.callee['method']; tr = c.callee['trait']
        def one(l, st, pc):
            if l.op == 'dyn':
                sym = '<%s as %s>::%s' % (l.a[0], tr, meth)
                f = self.P.fns.get(sym)
                if f is not None:
                    a = list(c.args); a[0] = l.a[1]
                    return self.call_fn(f, a, st, pc)
                # provided method of the trait
                for cand in self.P.fns.values():
                    if cand.rec['def'] == c.callee['def'] and l.a[0] in cand.sym:
                        a = list(c.args); a[0] = l.a[1]
                        return self.call_fn(cand, a, st, pc)
            return mkn('call', 'virt:' + tr + '::' + meth, l, *[self.deref(v, st) for v in c.args[1:]]), TRUE
        return self.branch(recv, c.st, c.pc, one)

    def branch(self, dd, st, pc, fn):
        """run fn(leaf, state, pc) per leaf of a DD and merge"""
        if dd.op != 'ite':
            if dd is BOT: return BOT, FALSE
            return fn(dd, st, pc)
        ls = [l for l in leaves(dd) if l is not BOT]
        if len(ls) == 1:
            cond = mapleaves(lambda x: TRUE, dd)
            v, ok = fn(ls[0], st, pc)
            return v, ok
        contrib = []
        for l in ls:
            cond = mapleaves(lambda x: boolc(x is l), dd)
            if AND(pc, cond) is FALSE: continue
            s = dict(st)
            v, ok = fn(l, s, AND(pc, cond))
            s['__ret'] = v
            contrib.append((AND(cond, ok), s))
        if not contrib: return BOT, FALSE
        m = self.merge(contrib)
        okall = FALSE
        for cnd, _ in contrib: okall = OR(okall, cnd)
        v = m.pop('__ret')
        for k, x in m.items():
            if k in st: st[k] = x
        return v, okall

    def call_value(self, f, args, st, pc, fr):
        orig = f
        f = self.deref(f, st)
        def one(l, st, pc):
            if l.op == 'clo':
                sym = l.a[0].split('|', 1)[1]
                body = self.P.fns.get(sym) or self.P.gen.get(sym)
                if body is None: raise Unsupported('no body for closure ' + sym)
                selfty = self.P.types[body.rec['locals'][1][0]]
                slf = l
                tmp = None
                if selfty['k'] == 'mut':
                    if orig.op == 'mref': slf = orig
                    else:
                        tmp = self.newcell(); st[tmp] = l; slf = mref(tmp)
                a = [slf] + list(args)
                if body.rec.get('spread') is not None and body.rec['argc'] == 2 and len(args) != 1:
                    a = [slf, tup(*args)]
                elif body.rec['argc'] != len(a):
                    a = [slf, tup(*args)]
                r = self.call_fn(body, a, st, pc)
                if tmp is not None: st.pop(tmp, None)
                return r
            if l.op == 'fndef':
                callee = self.fndefs[l.a[0]]
                tys = self.sig_tys(callee, args)
                return self.call(callee, list(args), tys, st, pc, fr, self.ret_ty(callee))
            return mkn('call', 'apply', l, *[self.deref(v, st) for v in args]), TRUE
        return self.branch(f, st, pc, one)

    def sig_tys(self, callee, args):
        f = self.P.fns.get((callee.get('res') or {}).get('sym', '')) or self.P.fns.get(callee['def'])
        if f is not None: return [l[0] for l in f.rec['locals'][1:1 + f.rec['argc']]]
        if callee.get('args'): return [callee['args'][0]] * len(args)
        return [0] * len(args)

    def ret_ty(self, callee):
        f = self.P.fns.get((callee.get('res') or {}).get('sym', '')) or self.P.fns.get(callee['def'])
        if f is not None: return f.rec['locals'][0][0]
        return 0

    # ------------------------------------------------------------ loops
    def loop(self, fr, h, st):
        body_blocks = fr.fn.loops[h]
        def body(s):
            return self.region(fr, body_blocks, h, s, h, TRUE)
        live = fr.fn.live[h]; taken = fr.fn.taken
        own = {c: i for i, c in enumerate(fr.cells)}
        def relevant(c):
            if c in own: return own[c] in live or own[c] in taken
            return True
        return self.summarize(st, body, relevant, (fr.fn.sym, h))

    def summarize(self, st0, body, relevant=lambda c: True, site=None):
        """closed form of a loop.  body(state) -> exits (cond, state, target);
        target 'back' continues."""
        self.loopcount += 1
        init = {}          # phi sym -> initial value
        kinds = {}
        head = {c: v for c, v in st0.items() if relevant(c)}
        rest = {c: v for c, v in st0.items() if c not in head}
        modified = set()
        rounds = 0
        while True:
            rounds += 1
            if rounds > 12: raise Unsupported('loop does not stabilise')
            self.pstack.append([])
            s = dict(rest); s.update(head)
            exits = body(s)
            pans = self.pstack.pop()
            backs = [(c, x) for c, x, t in exits if t == 'back']
            changed = False
            if backs:
                mb = {}
                for c in head:
                    r = BOT
                    for cd, x in reversed(backs):
                        v = x.get(c, BOT)
                        r = v if v is r else ite(cd, v, r)
                    mb[c] = r
                for c in list(head):
                    nv = mb.get(c, BOT)
                    if nv is BOT: continue
                    h2 = self.generalize(head[c], nv, init, kinds, self.cellty.get(c))
                    if h2 is not head[c]:
                        head[c] = h2; changed = True; modified.add(c)
            if not changed: break
        if not backs:
            for p in pans: self.panic_at(*p)
            return [(c, x, t) for c, x, t in exits]
        cback = FALSE
        for c, _ in backs: cback = OR(cback, c)
        nxt = {}
        for c in modified:
            self.match_next(head[c], mb.get(c, BOT), init, nxt)
        phis = [p for p in init if p in nxt and (p is not nxt[p])]
        trivial = {p: init[p] for p in init if nxt.get(p) is p}
        k = fresh('k', True)
        # assigning elements keeps the length
        for p in phis:
            ln = mkn('len', p)
            def base(l):
                while l.op == 'upd': l = l.a[0]
                return l
            ls = [l for l in leaves(nxt[p]) if l is not BOT]
            if not any(l.op == 'upd' for l in ls) or not all(base(l) is p for l in ls): continue
            L0 = slen(init[p])
            f = lambda x: subst_node(x, ln, L0) if isinstance(x, N) and p in x.fv else x
            for q in phis: nxt[q] = f(nxt[q])
            exits = [(f(c), x, t) for c, x, t in exits]
            cback = f(cback)
            pans = [(kd_, s_, f(c)) for kd_, s_, c in pans]
        env = dict(trivial)
        # induction variables
        for p in phis:
            n = nxt[p]
            kd = kinds.get(p)
            if kd == 'f': continue
            if n.op in ('poly', 'num') or n.op in T.NUMOPS:
                if n.op == 'ite': continue
                try: d = isub(n, p)
                except Exception: continue
                if d.op == 'num' and d.a[0] == 'i' and T.isi(n):
                    env[p] = iadd(init[p], imul(d, k))
        todo = [p for p in phis if p not in env]
        # a loop with a recognisable trip count?
        def sub(x): return subst(x, env)
        conds = [(sub(c), t) for c, _, t in exits]
        n, asg = self.trip(sub(cback), k)
        if n is not None and n.op == 'num' and n.a[1] <= 40:
            r = self.unroll(st0, body, int(n.a[1]) + 2)
            if r is not None: return r
        core = []
        if n is None:
            # no main exit: is some exit decided only by unsolved variables?
            core = self.core(phis, nxt, init, cback, [c for c, _, t in exits if t != 'back'], env)
        loopid = None
        if core:
            env = {p: v for p, v in env.items() if p not in core}
            env.update(trivial)
            E = NOT(cback)
            accs = list(core)
            lv = 1 + max([nxt[p].h for p in accs] + [init[p].h for p in accs] + [E.h])
            bv = {p: mkn('bv', lv, j) for j, p in enumerate(accs)}
            loopid = mkn('while', lv, tuple(init[p] for p in accs), tuple(subst(nxt[p], bv) for p in accs), subst(E, bv))
            for j, p in enumerate(accs): env[p] = mkn('wat', loopid, j, k)
            n = mkn('wn', loopid); T.NONNEG.add(n)
            asg = {}
            todo = [p for p in phis if p not in env]
            self.loops_generic += 1
        # elements a loop has not reached yet are still the initial ones
        for p in todo:
            ls = [l for l in leaves(nxt[p]) if l is not BOT]
            if not any(l.op == 'upd' for l in ls) or not all(l is p or (l.op == 'upd' and l.a[0] is p) for l in ls): continue
            idxs = {l.a[1] for l in ls if l.op == 'upd'}
            if len(idxs) != 1: continue
            ix = idxs.pop()
            ixk = subst(ix, env)
            if k not in ixk.fv or k in isub(ixk, k).fv or any(q in ixk.fv for q in phis): continue
            old = mkn('idx', p, ix)
            for q in todo:
                nv = nxt[q]
                if q is p: nv = mapleaves(lambda l: l if l is p else mkn('upd', p, l.a[1], subst_node(l.a[2], old, sidx(init[p], ix))), nv)
                else: nv = subst_node(nv, old, sidx(init[p], ix))
                nxt[q] = nv
        # an extreme value and the places where it was met belong together
        for p in list(todo):
            if p not in todo: continue
            grp = [q for q in todo if q is not p and p in nxt[q].fv]
            if not grp: continue
            cn = {q: subst(nxt[q], env) for q in [p] + grp}
            if cn[p].op not in ('imin', 'imax', 'fmin', 'fmax') or p not in cn[p].a: continue
            if any(q in cn[g].fv for g in cn for q in todo if q not in cn): continue
            r = self.solve_arg([p] + grp, cn, init, k)
            if r is not None:
                for q in r: env[q] = r[q]; todo.remove(q)
        self.solve_maps(todo, nxt, init, env, k)
        progress = True
        while todo and progress:
            progress = False
            for p in list(todo):
                x = self.solve(p, subst(nxt[p], env), init[p], k, kinds.get(p), todo)
                if x is not None:
                    env[p] = x
                    todo.remove(p)
                    progress = True
        if todo:
            self.solve_scc(todo, nxt, init, env, k, kinds)
        # exits --------------------------------------------------------
        out = []
        cb = subst(cback, env)
        if loopid is not None:
            for c, s, t in exits:
                if t == 'back': continue
                e2 = {p: subst(v, {k: n}) for p, v in env.items()}
                cc = subst(c, e2)
                # value state
                out.append((cc, self.sub_state(s, st0, e2, modified, head), t))
            for (kd, site_, c) in pans:
                c2 = subst(c, env)
                self.panic_at(kd, site_, OR(mkany(n, k, c2), subst(c, {p: subst(v, {k: n}) for p, v in env.items()})))
            if len(out) == 1: out = [(TRUE, out[0][1], out[0][2])]
            return out
        if n is None:
            n = mkn('wn', mkn('while', 1, (), (), cback)); T.NONNEG.add(n)
            asg = {}
            self.note('loop without a trip count in %s' % (site,))
        lt = asg            # atoms that mean "another iteration"
        # of several bounds, the least one is met
        neg = {a: (not v) for a, v in lt.items()} if len(lt) == 1 else {}
        early = []
        for c, s, t in exits:
            if t == 'back': continue
            ce = T.restrict_more(subst(c, env), lt)
            if ce is not FALSE: early.append((ce, s, t))
        stop = FALSE
        for ce, _, _ in early: stop = OR(stop, ce)
        any_ = mkany(n, k, stop) if stop is not FALSE else FALSE
        if any_ is not FALSE:
            j = mkfirst(n, k, stop)
            ej = {p: subst(v, {k: j}) for p, v in env.items()}
            ej[k] = j
            for i, (ce, s, t) in enumerate(early):
                if len(early) == 1: cc = any_
                else: cc = AND(any_, subst(ce, {k: j}))
                if cc is FALSE: continue
                out.append((cc, self.sub_state(s, st0, ej, modified, head), t))
        en = {p: subst(v, {k: n}) for p, v in env.items()}
        en[k] = n
        for c, s, t in exits:
            if t == 'back': continue
            cm = T.restrict_more(subst(c, env), neg)
            cm = subst(cm, {k: n})
            cm = AND(cm, NOT(any_))
            if cm is FALSE: continue
            out.append((cm, self.sub_state(s, st0, en, modified, head), t))
        for (kd, site_, c) in pans:
            c2 = subst(c, env)
            inl = T.restrict_more(c2, lt)
            outl = T.restrict_more(c2, neg)
            tot = FALSE
            if inl is not FALSE: tot = mkany(n, k, inl)
            if outl is not FALSE: tot = OR(tot, AND(subst(outl, {k: n}), NOT(any_)))
            self.panic_at(kd, site_, tot)
        return out

    def sub_state(self, s, st0, env, modified, head):
        r = {}
        keys = frozenset(env)
        for c, v in s.items():
            if isinstance(v, N) and not v.fv.isdisjoint(keys): v = subst(v, env)
            r[c] = v
        return r

    def unroll(self, st0, body, limit):
        self.pstack.append([])
        pc = TRUE
        st = dict(st0)
        out = []
        ok = False
        for _ in range(limit):
            self.pstack.append([])
            exits = body(dict(st))
            ps = self.pstack.pop()
            for (kd, s, c) in ps: self.panic_at(kd, s, AND(pc, c))
            backs = []
            for c, s, t in exits:
                if t == 'back': backs.append((c, s))
                else:
                    cc = AND(pc, c)
                    if cc is not FALSE: out.append((cc, s, t))
            if not backs: ok = True; break
            cb = FALSE
            for c, _ in backs: cb = OR(cb, c)
            pc = AND(pc, cb)
            if pc is FALSE: ok = True; break
            st = self.merge(backs)
        ps = self.pstack.pop()
        if not ok: return None
        for p in ps: self.panic_at(*p)
        return out

    # generalisation of the loop head ----------------------------------
    def shape(self, v):
        """constructor shared by every alternative of v, and its components"""
        ls = [l for l in leaves(v) if l is not BOT] if v.op == 'ite' else [v]
        if not ls: return None, None
        l = ls[0]
        if l.op == 'adt':
            key = ('adt', l.a[0], l.a[1], tuple(n for n, _ in l.a[2]))
            if any(x.op != 'adt' or ('adt', x.a[0], x.a[1], tuple(n for n, _ in x.a[2])) != key for x in ls): return None, None
            if v.op != 'ite': return key, [x for _, x in l.a[2]]
            return key, [mapleaves(lambda x, i=i: x.a[2][i][1] if x is not BOT else BOT, v) for i in range(len(l.a[2]))]
        if l.op in ('tup', 'it', 'clo'):
            k0 = 1 if l.op == 'clo' else 0
            key = (l.op, len(l.a)) + ((l.a[0],) if k0 else ())
            if any(x.op != l.op or len(x.a) != len(l.a) or (k0 and x.a[0] != l.a[0]) for x in ls): return None, None
            if v.op != 'ite': return key, list(l.a[k0:])
            return key, [mapleaves(lambda x, i=i: x.a[i] if x is not BOT else BOT, v) for i in range(k0, len(l.a))]
        return None, None

    def unshape(self, key, cs):
        if key[0] == 'adt': return adt(key[1], key[2], dict(zip(key[3], cs)))
        if key[0] == 'tup': return tup(*cs)
        if key[0] == 'it': return mkit(cs[0], cs[1])
        return lift_fields(tuple(enumerate(cs)), lambda g: mkn('clo', key[2], *[x for _, x in g]))

    def generalize(self, head, nv, init, kinds, ty):
        if head is nv or nv is BOT: return head
        if head in init: return head
        if head.op == 'ite' and head.a[0] in init and head.a[1] is TRUE and head.a[2] is FALSE: return head
        hk, hc = self.shape(head)
        if hk is not None:
            nk, nc = self.shape(nv)
            if nk == hk:
                if hk[0] == 'adt':
                    fts = self.field_types(ty, hk[2]); ts = [fts.get(n) for n in hk[3]]
                elif hk[0] == 'tup': ts = self.P.types[ty]['args'] if ty is not None and ty != 'usize' and self.P.types[ty]['k'] == 'tuple' else [None] * len(hc)
                elif hk[0] == 'it': ts = [None, 'usize']
                else: ts = [None] * len(hc)
                gs = [self.generalize(x, y, init, kinds, t) for x, y, t in zip(hc, nc, ts)]
                if all(g is x for g, x in zip(gs, hc)): return head
                return self.unshape(hk, gs)
        if head.op == 'dscr': return head
        # new phi; an already generalised subterm is folded back
        v = subst(head, init) if head.fv and any(p in head.fv for p in init) else head
        kd = None
        if ty == 'usize': kd = 'i'
        elif ty is not None: kd = self.kind(ty)
        if kd is None:
            if v.op == 'num': kd = v.a[0]
            elif v is TRUE or v is FALSE: kd = 'b'
        nn = False
        if ty == 'usize': nn = True
        elif ty is not None and kd == 'i': nn = self.P.types[self.P.strip(ty)]['s'][0] == 'u'
        elif kd == 'i' and ty is None: nn = v.op == 'num' and v.a[1] >= 0
        s = fresh('phi', nn)
        kinds[s] = kd
        init[s] = v
        if kd == 'b': return B(s)
        if kd == 'f': T.FLOATS.add(s)
        if ty is not None and ty != 'usize':
            self.typed(s, ty)
        return s

    def field_types(self, ty, vn):
        if ty is None or ty == 'usize': return {}
        t = self.P.types[self.P.strip(ty)]
        if t['k'] != 'adt': return {}
        a = self.P.adts.get(t['path'])
        if a is None: return {}
        for i, v in enumerate(a['variants']):
            if vn == '' or v['name'] == vn:
                return {f['name']: t['fields'][i][j] for j, f in enumerate(v['fields'])} if i < len(t['fields']) else {}
        return {}

    def match_next(self, head, nv, init, nxt):
        if head.op == 'ite' and head.a[0] in init and head.a[1] is TRUE and head.a[2] is FALSE:
            nxt[head.a[0]] = nv; return
        if head in init: nxt[head] = nv; return
        if head is nv:
            for p in head.fv:
                if p in init: nxt.setdefault(p, p)
            return
        if nv is BOT: return
        hk, hc = self.shape(head)
        if hk is not None:
            nk, nc = self.shape(nv)
            if nk == hk:
                for x, y in zip(hc, nc): self.match_next(x, y, init, nxt)

    # trip count --------------------------------------------------------
    def trip(self, cb, k):
        """(n, {atom: value meaning 'iterate'}) from the continue condition"""
        if cb is TRUE or cb.op != 'ite': return None, {}
        ns = []; asg = {}
        for a in cb.atoms:
            if k not in a.fv: continue
            if a.op == 'ilt':
                p = topoly(a.a[0], 'i')
                co = p.get(((k, 1),))
                if co is None or abs(co) != 1: continue
                r = {m: c for m, c in p.items() if m != ((k, 1),)}
                rest = frompoly(r, 'i')
                if k in rest.fv: continue
                if co == 1:      # k + rest < 0
                    if restrict(cb, {a: False}) is FALSE:
                        ns.append(ineg(rest)); asg[a] = True
                else:            # rest - k < 0  <=> k > rest
                    if restrict(cb, {a: True}) is FALSE:
                        ns.append(iadd(rest, I1)); asg[a] = False
            elif a.op == 'ieq':
                base, c = a.a
                p = topoly(base, 'i')
                co = p.get(((k, 1),))
                if co is None or abs(co) != 1: continue
                r = {m: x for m, x in p.items() if m != ((k, 1),)}
                rest = iadd(frompoly(r, 'i'), inum(c))
                if k in rest.fv: continue
                if restrict(cb, {a: True}) is FALSE:
                    # co*k + rest == 0
                    v = ineg(rest) if co == 1 else rest
                    ns.append(v); asg[a] = False
        if not ns: return None, {}
        n = ns[0]
        for x in ns[1:]: n = imin2(n, x)
        if len(ns) == 1 and not (nonneg(n)):
            n = imax2(I0, n)
        return n, asg

    def core(self, phis, nxt, init, cback, exconds, env):
        """loop variables that decide how long the loop runs"""
        need = set()
        todo = [p for p in phis if p in cback.fv]
        while todo:
            p = todo.pop()
            if p in need: continue
            need.add(p)
            for q in phis:
                if q in nxt[p].fv and q not in need: todo.append(q)
        return [p for p in phis if p in need]

    # recurrences -------------------------------------------------------
    def solve(self, x, nx, x0, k, kd, blocked=()):
        """closed form X(k) of  x_{k+1} = nx(x_k, k), or None;
        blocked: loop variables without a closed form yet"""
        if any(q in nx.fv for q in blocked if q is not x): return None
        if x not in nx.fv:
            return ite(ieq0(k), x0, subst(nx, {k: isub(k, I1)}))
        if kd == 'b' or (x0 in (TRUE, FALSE)):
            hi = restrict_sym(nx, x, True); lo = restrict_sym(nx, x, False)
            if hi is None: return None
            v = fresh('i', True)
            if hi is TRUE: return OR(asbool(x0), mkany(k, v, subst(lo, {k: v})))
            if lo is FALSE: return AND(asbool(x0), NOT(mkany(k, v, subst(NOT(hi), {k: v}))))
            return None
        conds_dep = nx.op == 'ite' and any(x in a.fv for a in nx.atoms)
        ls = [l for l in leaves(nx) if l is not BOT]
        # one value, once a condition has held
        if not conds_dep and nx.op == 'ite':
            other = {l for l in ls if l is not x}
            if len(other) == 1:
                o = other.pop()
                if x not in o.fv and k not in o.fv:
                    v = fresh('i', True)
                    c = mapleaves(lambda l: FALSE if l is x else TRUE, nx)
                    return ite(mkany(k, v, subst(c, {k: v})), o, x0)
        # sums
        if not conds_dep and all(l is x or (l.op in ('poly',) and x in l.fv) for l in ls):
            kk = kd
            if kk is None:
                kk = next((l.a[0] for l in ls if l.op == 'poly'), None)
            if kk in ('i', 'f'):
                d = (fsub if kk == 'f' else isub)(nx, x)
                if x not in d.fv:
                    v = fresh('i', True)
                    return (fadd if kk == 'f' else iadd)(x0, mksum(k, v, subst(d, {k: v}), kk))
        # appends
        if not conds_dep and all(l is x or (l.op == 'cat' and l.a[0] is x and all(x not in p.fv for p in l.a[1:])) for l in ls):
            def leaf(l):
                if l is x: return L()
                r = []
                for p in l.a[1:]:
                    if p.op == 'seq': r.extend(p.a)
                    else: r.append(mkn('splat', p))
                return L(*r)
            v = fresh('i', True)
            b = subst(mapleaves(leaf, nx), {k: v})
            return cat(x0, mkcomp(k, v, b))
        r = self.solve_records(x, nx, x0, k, ls)
        if r is not None: return r
        # prepends
        if not conds_dep and all(l is x or (l.op == 'cat' and l.a[-1] is x and all(x not in p.fv for p in l.a[:-1])) for l in ls):
            def leaf(l):
                if l is x: return L()
                r = []
                for p in l.a[:-1]:
                    if p.op == 'seq': r.extend(p.a)
                    else: r.append(mkn('splat', p))
                return L(*r)
            v = fresh('i', True)
            b = subst(mapleaves(leaf, nx), {k: isub(isub(k, v), I1)})
            return cat(mkcomp(k, v, b), x0)
        # element-wise update
        if all(l is x or (l.op == 'upd' and l.a[0] is x) for l in ls) and any(l.op == 'upd' for l in ls):
            r = self.solve_upd(x, nx, x0, k, ls)
            if r is not None: return r
        # updates of one fixed key / nested structure
        # maps
        if all(self.is_map_update(l, x) for l in ls):
            r = self.solve_map(x, nx, x0, k)
            if r is not None: return r
        # running minimum / maximum
        r = self.solve_minmax(x, nx, x0, k, kd)
        return r

    def solve_records(self, x, nx, x0, k, ls):
        """append e(k) whenever it beats the last element: the running records of e"""
        if x0.op != 'seq' or x0.a: return None
        es = {l.a[1:] for l in ls if l is not x and l.op == 'cat' and l.a[0] is x}
        if len(es) != 1 or any(l is not x and l.op != 'cat' for l in ls): return None
        e = es.pop()
        if len(e) != 1 or e[0].op != 'seq' or len(e[0].a) != 1: return None
        e = e[0].a[0]
        if x in e.fv or nx.op != 'ite': return None
        n = slen(x)
        m = fresh('rec')
        c = mapleaves(lambda l: FALSE if l is x else TRUE, nx)
        c = subst_node(c, mkn('idx', x, isub(n, I1)), m)
        if x in restrict(c, {a: False for a in leaves_atoms(ieq0(n))}).fv: return None
        empty = restrict(c, {a: True for a in leaves_atoms(ieq0(n))})
        more = restrict(c, {a: False for a in leaves_atoms(ieq0(n))})
        if empty is not TRUE: return None
        if more is flt(m, e): op = 'fmax'
        elif more is flt(e, m): op = 'fmin'
        elif more is ilt(m, e): op = 'imax'
        elif more is ilt(e, m): op = 'imin'
        else: return None
        v = fresh('i', True); w = fresh('i', True)
        ev = subst(e, {k: v}); ew = subst(e, {k: w})
        b = mkextremum(op + ('first' if op.endswith('min') else 'last'), v, w, ew)
        best = subst(e, {k: b})
        g = OR(ieq0(v), subst(more, {m: best, k: v}))
        return mkcomp(k, v, ite(g, elemL(ev), L()))

    def solve_upd(self, x, nx, x0, k, ls):
        idxs = {l.a[1] for l in ls if l.op == 'upd'}
        if len(idxs) != 1: return None
        ix = idxs.pop()
        if x in ix.fv: return None
        if k not in ix.fv:
            # one fixed element evolves
            y = fresh('phi')
            el = mapleaves(lambda l: l.a[2] if l.op == 'upd' else sidx(x, ix), nx)
            el = subst_node(el, mkn('idx', x, ix), y)
            if x in el.fv: el = subst_node(el, slen(x), slen(x0))
            if x in el.fv: return None
            r = self.solve(y, el, sidx(x0, ix), k, None)
            if r is None:
                v = fresh('i', True); a = fresh('acc')
                self.loops_generic += 1
                r = mkfold(k, v, [a], [sidx(x0, ix)], [subst(el, {y: a, k: v})])[0]
            return supd(x0, ix, r)
        off = isub(ix, k)
        if k in off.fv: return None
        el = mapleaves(lambda l: l.a[2] if l.op == 'upd' else sidx(x, ix), nx)
        old = fresh('old')
        cur = mkn('idx', x, ix)
        el2 = subst_node(el, cur, old)
        if x in el2.fv:
            # lengths do not change
            el2 = subst_node(el2, slen(x), slen(x0))
            if x in el2.fv: return None
        v = fresh('i', True)
        n = slen(x0)
        # element v is written in iteration v - off, if that is before k
        base = sidx(x0, v)
        newv = subst(el2, {old: base, k: isub(v, off)})
        c = AND(ilt(v, iadd(k, off)), NOT(ilt(v, off)))
        return mkcomp(n, v, elemL(ite(c, newv, base)))

    def is_map_update(self, l, x):
        while l.op in ('mset', 'mput'):
            l = l.a[0]
        return l is x

    def solve_map(self, x, nx, x0, k):
        v = fresh('i', True)
        lv = 1 + max(nx.h, x0.h)
        bk = mkn('bv', lv); T.NONNEG.add(bk)
        bx = mkn('bv', lv, 0)
        return mkn('mfold', lv, k, x0, subst(nx, {k: bk, x: bx}))

    def solve_maps(self, todo, nxt, init, env, k):
        """several maps updated together, each at the same key: their value at an arbitrary key y evolves
        like a scalar, which is solved; the map is then given by its lookup function"""
        def top(l):
            while l.op in ('mset', 'mdel'): l = l.a[0]
            return l
        maps = []
        for p in todo:
            ls = [l for l in leaves(nxt[p]) if l is not BOT]
            if any(l.op in ('mset', 'mdel') for l in ls) and all(top(l) is p for l in ls): maps.append(p)
            elif any(l.op == 'mfun' for l in ls) and all(l is p or l.op == 'mfun' for l in ls): maps.append(p)
        done = set()
        for p in sorted(maps, key=lambda q: len([r for r in todo if r in nxt[q].fv])):
            if p in done: continue
            cl = set(); work = [p]
            while work:
                q = work.pop()
                if q in cl: continue
                cl.add(q)
                work.extend(r for r in todo if r in nxt[q].fv and r not in done)
            if not cl <= set(maps) or len(cl) < 2 and not any(l.op == 'mfun' for l in leaves(nxt[p])): continue
            cl = [q for q in maps if q in cl]
            r = self.map_group(cl, {q: subst(nxt[q], env) for q in cl}, init, k)
            if r is None: continue
            for q in cl:
                env[q] = r[q]; todo.remove(q); done.add(q)

    def map_group(self, cl, nx, init, k):
        keys = set()
        for q in cl:
            for l in leaves(nx[q]):
                while l.op in ('mset', 'mdel'):
                    keys.add(l.a[1]); l = l.a[0]
        y = fresh('key')
        if not keys: key = y
        elif len(keys) == 1: key = keys.pop()
        else: return None
        if any(q in key.fv for q in cl): return None
        if key is not y and any(l.op == 'mfun' for q in cl for l in leaves(nx[q])): return None
        c = eqv(key, y) if key is not y else TRUE
        hs = {q: fresh('has') for q in cl}; gs = {q: fresh('get') for q in cl}
        def strip(d):
            for q in cl:
                d = subst_node(d, mkn('mhas', q, key), B(hs[q]))
                d = subst_node(d, mkn('mget', q, key), gs[q])
            return d
        def atkey(d):
            if key is y or key.op in ('num', 'str', 'adt', 'tup'): return d
            return subst_node(d, key, y)
        sym = []; rec = {}
        for q in cl:
            if key is y:
                H = strip(mapleaves(lambda l: B(hs[q]) if l is q else asbool(applam(l.a[0], y)), nx[q]))
                G = strip(mapleaves(lambda l: gs[q] if l is q else applam(l.a[1], y), nx[q]))
            else:
                b = strip(nx[q])
                H = atkey(mapleaves(lambda l: B(hs[q]) if l is q else TRUE if l.op == 'mset' else FALSE, b))
                G = atkey(mapleaves(lambda l: l.a[2] if l.op == 'mset' else gs[q], b))
            if any(r in H.fv or r in G.fv for r in cl): return None
            h0 = mhas(init[q], y); g0 = ite(h0, mget(init[q], y), BOT)
            gT = subst(G, {hs[q]: TRUE}); gF = subst(G, {hs[q]: FALSE})
            if subst(H, {hs[q]: TRUE}) is TRUE and subst(H, {hs[q]: FALSE}) is FALSE:
                # only present keys are updated
                nxg = gT; ig = g0; inv = h0
            elif gT is gs[q] and gF is gs[q]: nxg = gT; ig = g0; inv = None
            else:
                inv = None
                for d in (seq(), I0, F0, NONE, FALSE):
                    if subst(gT, {gs[q]: d}) is gF: nxg = gT; ig = ite(h0, g0, d); break
                else: return None
            H = restrict_key(H, c); nxg = restrict_key(nxg, c)
            sym += [hs[q], gs[q]]
            rec[hs[q]] = (B(hs[q]) if inv is not None else ite(c, H, B(hs[q])), h0, 'b')
            rec[gs[q]] = (ite(c, nxg, gs[q]), ig, None)
        sol = {}
        for q in cl:
            if rec[hs[q]][0] is B(hs[q]): sol[hs[q]] = rec[hs[q]][1]
        left = [x for x in sym if x not in sol]
        go = True
        while left and go:
            go = False
            for x in list(left):
                n_, i_, kd = rec[x]
                n_ = subst(n_, sol)
                # a value matters only where the keys it needs are present
                r = self.solve(x, n_, i_, k, kd, left)
                if r is not None: sol[x] = r; left.remove(x); go = True
        if left: return None
        out = {}
        for q in cl:
            H = sol[hs[q]]
            G = ite(H, sol[gs[q]], BOT)
            out[q] = mkn('mfun', mklam([y], H), mklam([y], G))
        return out

    def solve_minmax(self, x, nx, x0, k, kd):
        ls = [l for l in leaves(nx) if l is not BOT]
        if nx.op in ('fmin', 'fmax', 'imin', 'imax') and x in nx.a:
            others = [t for t in nx.a if t is not x]
            if any(x in t.fv for t in others): return None
            two = {'fmin': fmin2, 'fmax': fmax2, 'imin': imin2, 'imax': imax2}[nx.op]
            r = x0
            v = fresh('i', True)
            for t in others:
                e = mkextremum(nx.op + ('first' if nx.op.endswith('min') else 'last'), k, v, subst(t, {k: v}))
                r = ite(ieq0(k), r, two(r, subst(t, {k: e})))
            return r
        # of the steps at which a condition holds
        ops = {l.op for l in ls if l is not x}
        if nx.op == 'ite' and len(ops) == 1 and ops <= {'fmin', 'fmax', 'imin', 'imax'} and not any(x in a.fv for a in nx.atoms):
            op = ops.pop()
            if any(l is not x and (x not in l.a or len(l.a) != 2 or x in (l.a[0] if l.a[1] is x else l.a[1]).fv) for l in ls): return None
            two = {'fmin': fmin2, 'fmax': fmax2, 'imin': imin2, 'imax': imax2}[op]
            v = fresh('i', True); w = fresh('i', True)
            s = mkcomp(k, w, subst(mapleaves(lambda l: L() if l is x else elemL(l.a[0] if l.a[1] is x else l.a[1]), nx), {k: w}))
            n = slen(s)
            e = mkextremum(op + ('first' if op.endswith('min') else 'last'), n, v, sidx(s, v))
            return ite(ieq0(n), x0, two(x0, sidx(s, e)))
        return None

    def solve_scc(self, todo, nxt, init, env, k, kinds):
        nx = {p: subst(nxt[p], env) for p in todo}
        deps = {p: [q for q in todo if q in nx[p].fv] for p in todo}
        done = set()
        remaining = list(todo)
        while remaining:
            # smallest closed set
            best = None
            for p in remaining:
                cl = set(); st = [p]
                while st:
                    q = st.pop()
                    if q in cl or q in done: continue
                    cl.add(q); st.extend(deps[q])
                if best is None or len(cl) < len(best): best = cl
            cur = [p for p in remaining if p in best]
            cn = {p: subst(nx[p], {q: env[q] for q in done}) for p in cur}
            if len(cur) == 1 and not (done and False):
                p = cur[0]
                s = self.solve(p, cn[p], init[p], k, kinds.get(p), remaining)
                if s is not None:
                    env[p] = s; done.add(p); remaining.remove(p); continue
            if len(cur) > 1:
                s = self.solve_arg(cur, cn, init, k)
                if s is not None:
                    for p in cur:
                        env[p] = s[p]; done.add(p); remaining.remove(p)
                    continue
            self.loops_generic += 1
            cur.sort(key=lambda p: self.canon_key(p, cur, cn, init))
            v = fresh('i', True)
            accs = [fresh('acc') for _ in cur]
            m = dict(zip(cur, accs)); m[k] = v
            vals = mkfold(k, v, accs, [init[p] for p in cur], [subst(cn[p], m) for p in cur])
            for p, val in zip(cur, vals):
                env[p] = val
                done.add(p); remaining.remove(p)

    def canon_key(self, p, cur, cn, init):
        a = fresh('A'); o = fresh('O')
        m = {q: (a if q is p else o) for q in cur}
        s1 = mkn('sym', 'A', 0); s2 = mkn('sym', 'O', 0)
        m = {q: (s1 if q is p else s2) for q in cur}
        return (show(init[p], 6), show(subst(cn[p], m), 8))

    def solve_arg(self, cur, cn, init, k):
        """simultaneous  m = min(m, d(k)), e = v(k) where d(k) < m"""
        mains = []
        for p in cur:
            n = cn[p]
            if n.op in ('imin', 'imax', 'fmin', 'fmax') and p in n.a: mains.append(p)
        if len(mains) != 1: return None
        m = mains[0]
        n = cn[m]
        ds = [t for t in n.a if t is not m]
        if len(ds) != 1 or any(q in ds[0].fv for q in cur): return None
        d = ds[0]
        op = n.op
        fl = op[0]
        lt = flt if fl == 'f' else ilt
        strict = lt(d, m) if op.endswith('min') else lt(m, d)
        weak = NOT(lt(m, d)) if op.endswith('min') else NOT(lt(d, m))
        out = {}
        two = {'fmin': fmin2, 'fmax': fmax2, 'imin': imin2, 'imax': imax2}[op]
        mkind = None
        for p in cur:
            if p is m: continue
            x = cn[p]
            done = False
            for c, last in ((strict, False), (weak, True)):
                hi = T.restrict_by(x, c, True); lo = T.restrict_by(x, c, False)
                if hi is None: continue
                if lo is p and not any(q in hi.fv for q in cur):
                    # value of the first (last) extreme element, if it beats the initial bound
                    kind = op + ('last' if last else 'first')
                    if mkind is None: mkind = kind
                    w = fresh('i', True)
                    e = mkextremum(kind, k, w, subst(d, {k: w}))
                    beats = subst(c, {m: init[m], k: e})
                    out[p] = ite(NOT(ieq0(k)), ite(beats, subst(hi, {k: e, m: subst(d, {k: e})}), init[p]), init[p])
                    done = True
                    break
            if not done: return None
        w = fresh('i', True)
        e = mkextremum(mkind or op + ('first' if op.endswith('min') else 'last'), k, w, subst(d, {k: w}))
        out[m] = ite(ieq0(k), init[m], two(init[m], subst(d, {k: e})))
        return out

def restrict_sym(d, x, val):
    """cofactor of a DD by a boolean symbol used as an atom; None if x occurs elsewhere"""
    m = {x: TRUE if val else FALSE}
    r = subst(d, m)
    if x in r.fv: return None
    return r

def restrict_key(d, c):
    r = T.restrict_by(d, c, True)
    return d if r is None else r

def leaves_atoms(c):
    return c.atoms

import re
_cl = re.compile(r'\{closure@[^}]*\}')
def clean(s):
    s = _cl.sub('{closure}', s)
    return s.replace("'_ ", '').replace("'_, ", '').replace("&", '')
