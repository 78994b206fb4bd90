"""Meaning of the standard library and of third-party calls, as terms."""
from terms import *
import terms as T
from fractions import Fraction

DEFS = {}       # definition path -> model
METH = {}       # (trait, method) -> model

def d(*names):
    def deco(f):
        for n in names: DEFS[n] = f
        return f
    return deco
def m(trait, *methods):
    def deco(f):
        for x in methods: METH[(trait, x)] = f
        return f
    return deco

VEC = 'std::vec::Vec::<T, A>::'
VECN = 'std::vec::Vec::<T>::'
SL = 'core::slice::<impl [T]>::'
SL2 = 'std::slice::<impl [T]>::'
OPT = 'std::option::Option::<T>::'
RES = 'std::result::Result::<T, E>::'
STR = 'core::str::<impl str>::'
STRA = 'std::str::<impl str>::'
STRING = 'std::string::String::'
F64 = ('core::f64::<impl f64>::', 'std::f64::<impl f64>::')
HM = ('std::collections::HashMap::<K, V, S, A>::', 'std::collections::HashMap::<K, V, S>::', 'std::collections::HashMap::<K, V, A>::', 'std::collections::HashMap::<K, V>::',
      'std::collections::BTreeMap::<K, V, A>::', 'std::collections::BTreeMap::<K, V>::')
HS = ('std::collections::HashSet::<T, S, A>::', 'std::collections::HashSet::<T, S>::', 'std::collections::HashSet::<T>::', 'std::collections::BTreeSet::<T, A>::', 'std::collections::BTreeSet::<T>::')

ITER = 'std::iter::Iterator'
ITERTOOLS = 'itertools::Itertools'

def find(I, callee, res):
    dd = callee['def']
    f = DEFS.get(dd)
    if f is not None: return f
    tr = callee.get('trait')
    if tr:
        rd = res.get('def')
        if rd in DEFS: return DEFS[rd]
        f = METH.get((tr, callee.get('method')))
        return f
    return None

# ------------------------------------------------------------------ equality
def eq_values(I, ti, a, b, st=None, pc=TRUE):
    P = I.P
    ti = P.strip(ti)
    t = P.types[ti]
    k = t['k']
    if k == 'bool': return eqv(asbool(a), asbool(b), 'b')
    if k == 'int': return eqv(a, b, 'i')
    if k == 'float': return eqv(a, b, 'f')
    if k == 'tuple':
        r = TRUE
        for i, x in enumerate(t['args']): r = AND(r, eq_values(I, x, tfield(a, i, len(t['args'])), tfield(b, i, len(t['args'])), st, pc))
        return r
    if k == 'array':
        n = t['len']
        et = t['args'][0]
        if n <= 16 and P.types[et]['k'] != 'int':
            r = TRUE
            for i in range(n): r = AND(r, eq_values(I, et, aidx(a, i, n), aidx(b, i, n), st, pc))
            return r
        return eqv(a, b)
    if k == 'adt':
        p = t['path']
        if p == 'std::option::Option':
            et = t['args'][0]
            return ite(opt_is_none(a), opt_is_none(b), ite(opt_is_none(b), FALSE, eq_values(I, et, payload(a), payload(b), st, pc)))
        ims = P.impls.get(('std::cmp::PartialEq', ti))
        if ims is None:
            ims = [x for x in P.traitself.get(('std::cmp::PartialEq', p), [])]
        if ims:
            im = ims[0]
            ad = P.adts.get(p)
            if not im['derived']:
                f = P.fns.get('<%s as std::cmp::PartialEq>::eq' % t['s'])
                if f is None: f = next((g for g in P.fns.values() if g.rec['def'] == dict((x, y) for x, y in im['methods']).get('eq')), None)
                if f is not None:
                    v, ok = I.call_fn(f, [a, b], st if st is not None else {}, pc)
                    return asbool(v)
            elif ad and not ad['enum']:
                r = TRUE
                for i, fl in enumerate(ad['variants'][0]['fields']):
                    ft = t['fields'][0][i]
                    x, y = fld(a, '', fl['name']), fld(b, '', fl['name'])
                    r = AND(r, eq_values(I, ft, x, y, st, pc) if ft is not None else eqv(x, y))
                return r
            elif ad:
                r = FALSE
                for i, v in enumerate(ad['variants']):
                    c = AND(isvar(a, p, v['name']), isvar(b, p, v['name']))
                    if c is FALSE: continue
                    if not v['fields'] : 
                        r = OR(r, c); continue
                    for j, fl in enumerate(v['fields']):
                        ft = t['fields'][i][j]
                        x, y = fld(a, v['name'], fl['name']), fld(b, v['name'], fl['name'])
                        c = AND(c, eq_values(I, ft, x, y, st, pc) if ft is not None else eqv(x, y))
                    r = OR(r, c)
                if all(not v['fields'] for v in ad['variants']):
                    return enum_eq(a, b, p)
                return r
        ad = P.adts.get(p)
        if ad and ad['enum'] and all(not v['fields'] for v in ad['variants']): return enum_eq(a, b, p)
        if p in ('std::vec::Vec',): return seq_eq(I, t['args'][0], a, b, st, pc)
    if k == 'slice': return seq_eq(I, t['args'][0], a, b, st, pc)
    return eqv(a, b)

def enum_eq(a, b, p):
    """equality of two field-less enum values"""
    def go(x, y):
        if x.op == 'adt' and y.op == 'adt': return boolc(x.a[1] == y.a[1])
        if x.op == 'adt': return isvar(y, p, x.a[1])
        if y.op == 'adt': return isvar(x, p, y.a[1])
        return eqv(x, y)
    return lift(('enum_eq', p), go, (a, b))

def simple_eq(I, ti):
    t = I.P.types[I.P.strip(ti)]
    return t['k'] in ('str', 'int', 'bool', 'char') or (t['k'] == 'adt' and t['path'] in ('std::string::String',))

def seq_eq(I, et, a, b, st, pc):
    if simple_eq(I, et):
        def two(x, y):
            if x.op == 'seq' and y.op == 'seq':
                if len(x.a) != len(y.a): return FALSE
                return AND(*[eq_values(I, et, p, q, st, pc) for p, q in zip(x.a, y.a)])
            return eqv(x, y)
        return lift(('seqeq', et, I.P.label), two, (a, b))
    def two(x, y):
        if x is y and not contains_float(I, et): return TRUE
        v = fresh('i', True)
        return AND(ieq(slen(x), slen(y)), NOT(mkany(slen(x), v, NOT(eq_values(I, et, sidx(x, v), sidx(y, v), st, pc)))))
    return lift(('seqeq', et, I.P.label), two, (a, b))

def contains_float(I, ti): return I.P.types[I.P.strip(ti)]['k'] == 'float'

@m('std::cmp::PartialEq', 'eq')
def _eq(c):
    return eq_values(c.I, pick(c, 0, 1), c.val(0), c.val(1), c.st, c.pc)
@m('std::cmp::PartialEq', 'ne')
def _ne(c):
    return NOT(_eq(c))

def pick(c, i, j):
    """the more informative of two operand types"""
    P = c.I.P
    a, b = c.inner(i), c.inner(j)
    return a if P.types[a]['k'] != 'slice' else b

def cmp_values(I, ti, a, b):
    t = I.P.types[I.P.strip(ti)]
    k = {'int': 'i', 'float': 'f'}.get(t['k'], 'o')
    if t['k'] == 'bool': a, b = ite(asbool(a), I1, I0), ite(asbool(b), I1, I0); k = 'i'
    if t['k'] == 'adt' and t['path'] == 'std::cmp::Reverse':
        return orev(cmp_values(I, t['args'][0], fld(a, '', '0'), fld(b, '', '0')))
    if t['k'] == 'tuple' and len(t['args']) == 1: return cmp_values(I, t['args'][0], tfield(a, 0, 1), tfield(b, 0, 1))
    return ocmp(a, b, k)

def unord(a, b):
    def go(x, y):
        s = []
        for z in (x, y):
            if z.op == 'num': continue
            s.append(z)
        if not s: return FALSE
        r = FALSE
        if not T.FINITE:
            for z in s: r = OR(r, B(mkn('nan', z)))
        return r
    return lift('unord', go, (a, b))

@m('std::cmp::Ord', 'cmp')
def _cmp(c):
    return cmp_values(c.I, c.inner(0), c.val(0), c.val(1))
@m('std::cmp::PartialOrd', 'partial_cmp')
def _pcmp(c):
    a, b = c.val(0), c.val(1)
    t = c.I.P.types[c.inner(0)]
    r = some_l(cmp_values(c.I, c.inner(0), a, b))
    if t['k'] == 'float': return ite(unord(a, b), NONE, r)
    return r
def some_l(v): return adt('std::option::Option', 'Some', {'0': v})
def ok_l(v): return adt('std::result::Result', 'Ok', {'0': v})
def err_l(v): return adt('std::result::Result', 'Err', {'0': v})

@m('std::cmp::PartialOrd', 'lt', 'le', 'gt', 'ge')
def _plt(c):
    a, b = c.val(0), c.val(1)
    op = c.callee['method']
    if op in ('gt', 'ge'): a, b = b, a; op = {'gt': 'lt', 'ge': 'le'}[op]
    k = c.I.kind(c.inner(0))
    if k == 'f': return flt(a, b) if op == 'lt' else fle(a, b)
    if k == 'i': return ilt(a, b) if op == 'lt' else ile(a, b)
    if 'log::Level' in c.ty(0)['s']: return B(mkn('call', 'log_enabled', a))
    return olt(a, b) if op == 'lt' else NOT(olt(b, a))

@m('std::cmp::Ord', 'max', 'min')
def _omax(c):
    k = c.I.kind(c.inner(0))
    mx = c.callee['method'] == 'max'
    a, b = c.val(0), c.val(1)
    if k == 'i': return (imax2 if mx else imin2)(a, b)
    lt = olt(b, a)
    return ite(lt, a, b) if mx else ite(lt, b, a)
@m('std::cmp::Ord', 'clamp')
def _oclamp(c):
    if c.I.kind(c.inner(0)) == 'i': return imin2(imax2(c.val(0), c.val(1)), c.val(2))
    return None

@d('std::cmp::max', 'core::cmp::max', 'std::cmp::min', 'core::cmp::min')
def _cmax(c):
    k = c.I.kind(c.inner(0))
    mx = c.callee['def'].endswith('max')
    if k == 'i': return (imax2 if mx else imin2)(c.val(0), c.val(1))
    return None

ORD = 'std::cmp::Ordering::'
@d(ORD + 'reverse')
def _(c): return orev(c.val(0))
@d(ORD + 'then')
def _(c): return othen(c.val(0), c.val(1))
@d(ORD + 'then_with')
def _(c):
    a = c.val(0)
    b = c.clo(c.args[1])
    return othen(a, b)
for nm, vs in (('is_lt', ['Less']), ('is_le', ['Less', 'Equal']), ('is_gt', ['Greater']), ('is_ge', ['Greater', 'Equal']), ('is_eq', ['Equal']), ('is_ne', ['Less', 'Greater'])):
    def mk_(vs):
        return lambda c: OR(*[isvar(c.val(0), 'std::cmp::Ordering', v) for v in vs])
    DEFS[ORD + nm] = mk_(vs)

# ------------------------------------------------------------------ identities
@m('std::clone::Clone', 'clone')
def _clone(c): 
    return c.val(0)
@m('std::clone::Clone', 'clone_from')
def _clonefrom(c):
    c.store(c.val(1)); return UNIT
@m('std::borrow::ToOwned', 'to_owned')
def _to_owned(c): return c.val(0)
@m('std::borrow::Borrow', 'borrow')
def _(c): return c.val(0)
@m('std::convert::AsRef', 'as_ref')
def _asref(c):
    res = c.callee.get('res') or {}
    f = c.I.P.fns.get(res.get('sym'))
    if f is not None and f.rec['local']: 
        v, ok = c.I.call_fn(f, c.args, c.st, c.pc); c.ok = AND(c.ok, ok); return v
    return c.val(0)
def local_or(c, alt):
    """inline a local implementation, otherwise alt"""
    res = c.callee.get('res') or {}
    f = c.I.P.fns.get(res.get('sym'))
    if f is not None and f.rec['local'] and not f.rec['derived']:
        v, ok = c.I.call_fn(f, c.args, c.st, AND(c.pc, c.ok)); c.ok = AND(c.ok, ok); return v
    return alt(c)
def userdef(f):
    return lambda c: local_or(c, f)
for k_ in list(METH):
    if k_[0] in ('std::clone::Clone', 'std::cmp::Ord', 'std::cmp::PartialOrd'): METH[k_] = userdef(METH[k_])

@m('std::ops::Deref', 'deref')
@userdef
def _deref(c): return c.val(0) if not is_mref(c.args[0]) else c.args[0]
def is_mref(v): return v.op == 'mref' or (v.op == 'ite' and any(l.op == 'mref' for l in leaves(v)))
@m('std::ops::DerefMut', 'deref_mut')
@userdef
def _derefmut(c): return c.args[0]
METH[('std::ops::Deref', 'deref')] = userdef(lambda c: c.val(0))

IDENT = [VEC + 'as_slice', VEC + 'into_boxed_slice', SL2 + 'to_vec', SL2 + 'into_vec', STRING + 'as_str', STRING + 'into_boxed_str', STRA + 'to_owned', STRA + 'to_string',
         'std::boxed::Box::<T>::new', 'std::path::Path::new', 'std::path::Path::to_path_buf', 'std::path::PathBuf::as_path', 'std::path::Path::display', 'std::path::Path::as_os_str',
         'std::hint::must_use', 'std::convert::identity', 'std::ffi::OsStr::to_os_string', 'core::slice::<impl [T]>::as_ref', 'std::iter::Iterator::by_ref', 'std::array::<impl [T; N]>::as_slice',
         'core::array::<impl [T; N]>::as_slice', 'std::string::String::into_string', 'core::str::<impl str>::as_str', 'std::path::Path::as_path', 'std::boxed::Box::<T, A>::into_inner', 'std::hint::black_box']
for n in IDENT: DEFS[n] = lambda c: c.val(0)
# files are appended to unless the builder says otherwise
DEFS['log4rs::append::file::FileAppenderBuilder::append'] = lambda c: c.args[0] if c.val(1) is TRUE else mkn('call', 'log4rs::append::file::FileAppenderBuilder::append', c.val(0), c.val(1))
DEFS['std::iter::Iterator::by_ref'] = lambda c: c.args[0]
DEFS[VEC + 'as_mut_slice'] = lambda c: c.args[0]

@m('std::convert::From', 'from')
def _from(c):
    res = c.callee.get('res') or {}
    rd = res.get('def') or ''
    f = c.I.P.fns.get(res.get('sym'))
    if f is not None and f.rec['local']:
        v, ok = c.I.call_fn(f, c.args, c.st, c.pc); c.ok = AND(c.ok, ok); return v
    s = c.ty(0)['s']
    P = c.I.P
    to = P.types[P.strip(c.dty)]
    frm = P.types[c.inner(0)]
    if to['k'] == 'adt' and to['path'] in ('std::string::String', 'std::path::PathBuf', 'std::boxed::Box'): return c.val(0)
    if to['s'] == frm['s']: return c.val(0)
    if to['k'] == 'adt' and to['path'] == 'std::vec::Vec': return c.val(0)
    if to['k'] == 'float' and frm['k'] == 'int': return i2f(c.val(0))
    if to['k'] == 'int' and frm['k'] == 'int': return c.val(0)
    if to['k'] == 'float' and frm['k'] == 'float': return c.val(0)
    if to['k'] == 'int' and frm['k'] == 'bool': return ite(asbool(c.val(0)), I1, I0)
    if to['k'] == 'adt' and to['path'] in MAPT and frm['k'] == 'array': return build_map(c, c.val(0), to['path'])
    if to['k'] == 'adt' and to['path'] in SETT and frm['k'] == 'array': return build_set(c, c.val(0))
    if to['k'] == 'adt' and to['path'] == 'std::option::Option' : return some_l(c.val(0))
    return None
MAPT = ('std::collections::HashMap', 'std::collections::BTreeMap')
SETT = ('std::collections::HashSet', 'std::collections::BTreeSet')

@m('std::convert::Into', 'into')
def _into(c):
    P = c.I.P
    to = P.types[P.strip(c.dty)]; frm = P.types[c.inner(0)]
    ft = P.types[c.tys[0]]
    for src in (ft['s'], frm['s']):
        f = P.fns.get('<%s as std::convert::From<%s>>::from' % (to['s'], src))
        if f is not None:
            v, ok = c.I.call_fn(f, c.args, c.st, c.pc); c.ok = AND(c.ok, ok); return v
    cal = {'def': 'std::convert::From::from', 'trait': 'std::convert::From', 'method': 'from', 'args': [c.dty], 'local': False}
    for g in P.fns.values():
        if g.rec['def'].startswith('<') and g.rec['sym'].startswith('<%s as std::convert::From<' % to['s']) and frm['s'] in g.rec['sym']:
            v, ok = c.I.call_fn(g, c.args, c.st, c.pc); c.ok = AND(c.ok, ok); return v
    return _from(c)

@d('core::str::<impl str>::parse')
def _(c):
    # the FromStr implementation of a local type
    t = c.I.P.types[c.dty]
    e = c.I.P.types[t['args'][0]] if t['k'] == 'adt' and t.get('args') else None
    f = c.I.P.fns.get('<%s as std::str::FromStr>::from_str' % e['s']) if e else None
    if f is None or not f.rec['local']: return None
    v, ok = c.I.call_fn(f, [c.val(0)], c.st, c.pc); c.ok = AND(c.ok, ok)
    return v
@m('std::string::ToString', 'to_string')
def _to_string(c):
    t = c.I.P.types[c.inner(0)]
    if t['k'] == 'str' or (t['k'] == 'adt' and t['path'] == 'std::string::String'): return c.val(0)
    return to_text(c, c.inner(0), c.val(0))

def to_text(c, ti, v, trait='std::fmt::Display'):
    """text written by the Display implementation of a local type"""
    I = c.I
    t = I.P.types[I.P.strip(ti)]
    if t['k'] == 'str' or (t['k'] == 'adt' and t['path'] == 'std::string::String'):
        return v if trait.endswith('Display') else mkn('call', 'debugstr', v)
    f = I.P.fns.get('<%s as %s>::fmt' % (t['s'], trait))
    if f is not None and f.rec['local'] and not f.rec['derived'] and I.stack.count(f.sym) < 1:
        cell = I.newcell()
        st = c.st
        st[cell] = strc('')
        from interp import mref
        try:
            I.call_fn(f, [v, mref(cell)], st, c.pc)
            r = st.get(cell, BOT)
            if r is not BOT: return r
        except Exception as e:
            if type(e).__name__ not in ('Unsupported', 'Limit'): raise
        finally:
            st.pop(cell, None)
    if f is not None and f.rec['derived'] and trait.endswith('Debug'):
        ad = I.P.adts.get(t['path'])
        if ad and ad['enum'] and all(not x['fields'] for x in ad['variants']):
            r = BOT
            for x in reversed(ad['variants']): r = ite(isvar(v, t['path'], x['name']), strc(x['name']), r)
            return r
    if trait.endswith('Display'): return lift(('disp', t['s']), lambda x: mkn('call', 'display', t['s'], x), (v,))
    return lift(('dbg', t['s']), lambda x: mkn('call', 'debug', t['s'], x), (v,))

# ------------------------------------------------------------------ text
def scat(*parts):
    def go(*ps):
        out = []
        for p in ps:
            for q in (p.a if p.op == 'scat' else (p,)):
                if q.op == 'str' and q.a[0] == '': continue
                if out and out[-1].op == 'str' and q.op == 'str': out[-1] = strc(out[-1].a[0] + q.a[0])
                else: out.append(q)
        if not out: return strc('')
        if len(out) == 1: return out[0]
        return mkn('scat', *out)
    return lift('scat', go, tuple(parts))
T.SMART['scat'] = scat

@d('core::fmt::rt::Argument::<\'_>::new_display')
def _nd(c):
    return mkn('farg', 'd', to_text(c, c.tys[0], c.val(0)))
@d('core::fmt::rt::Argument::<\'_>::new_debug')
def _ndb(c):
    return mkn('farg', 'D', to_text(c, c.tys[0], c.val(0), 'std::fmt::Debug'))

@d("std::fmt::Arguments::<'a>::new")
def _args(c):
    t = c.val(0); a = c.val(1)
    return mkn('fmt', t, a)
@d("std::fmt::Arguments::<'a>::from_str")
def _argstr(c): return c.val(0)

def decode_template(t):
    """byte template of format_args -> list of str | ('arg', index, spec)"""
    if t.op != 'seq': return None
    bs = []
    for x in t.a:
        if x.op != 'num': return None
        bs.append(int(x.a[1]))
    out = []; i = 0; nxt = 0
    while i < len(bs):
        n = bs[i]; i += 1
        if n == 0: break
        if n < 0x80:
            out.append(bytes(bs[i:i + n]).decode('utf8', 'replace')); i += n
        elif n == 0x80:
            ln = bs[i] | (bs[i + 1] << 8); i += 2
            out.append(bytes(bs[i:i + ln]).decode('utf8', 'replace')); i += ln
        elif n == 0xC0:
            out.append(('arg', nxt, '')); nxt += 1
        else:
            spec = []
            if n & 1: spec.append(('flags', tuple(bs[i:i + 4]))); i += 4
            if n & 2: spec.append(('w', tuple(bs[i:i + 2]))); i += 2
            if n & 4: spec.append(('p', tuple(bs[i:i + 2]))); i += 2
            if n & 8: nxt = bs[i] | (bs[i + 1] << 8); i += 2
            out.append(('arg', nxt, str(spec) if spec else '')); nxt += 1
    return out

def text_of(v):
    def go(x):
        if x.op == 'fmt':
            tpl = decode_template(x.a[0])
            args = x.a[1]
            if tpl is None or args.op != 'seq': return mkn('call', 'fmt', x.a[0], x.a[1])
            parts = []
            for p in tpl:
                if isinstance(p, str): parts.append(strc(p))
                else:
                    a = args.a[p[1]] if p[1] < len(args.a) else BOT
                    if a.op != 'farg': return mkn('call', 'fmt', x.a[0], x.a[1])
                    parts.append(a.a[1] if not p[2] else mkn('call', 'fmtspec', p[2], a.a[1]))
            return scat(*parts)
        return x
    return mapleaves(go, v)

@d('std::fmt::format', 'alloc::fmt::format')
def _format(c): return text_of(c.val(0))
@d("std::fmt::Formatter::<'a>::write_fmt", 'std::fmt::Write::write_fmt')
def _wfmt(c):
    c.store(scat(c.load(), text_of(c.val(1))))
    return ok(UNIT)
@d("std::fmt::Formatter::<'a>::write_str", 'std::fmt::Write::write_str', "std::fmt::Formatter::<'a>::pad")
def _wstr(c):
    c.store(scat(c.load(), c.val(1)))
    return ok(UNIT)

@d(STRING + 'new')
def _(c): return strc('')
@d(STRING + 'with_capacity')
def _(c): return strc('')
@d(STRING + 'push_str')
def _(c): c.store(scat(c.load(), c.val(1))); return UNIT
@d('<std::string::String as std::ops::AddAssign<&str>>::add_assign')
def _(c): c.store(scat(c.load(), c.val(1))); return UNIT
@d('<std::string::String as std::ops::Add<&str>>::add')
def _(c): return scat(c.val(0), c.val(1))
@d(STR + 'len', STRING + 'len')
def _(c): return slen(c.val(0))
@d(STR + 'is_empty', STRING + 'is_empty')
def _(c): return eqv(c.val(0), strc(''))
@d(STRA + 'to_lowercase', STR + 'to_lowercase')
def _(c): return lower(c.val(0))
def lower(x): return lift('lower', lambda y: strc(y.a[0].lower()) if y.op == 'str' else mkn('call', 'lower', y), (x,))
@d(STRA + 'to_uppercase', STR + 'to_uppercase')
def _(c): return lift('upper', lambda y: strc(y.a[0].upper()) if y.op == 'str' else mkn('call', 'upper', y), (c.val(0),))
@d(STRA + 'to_ascii_lowercase', STR + 'to_ascii_lowercase')
def _(c): return lift('alower', lambda y: strc(y.a[0].lower()) if y.op == 'str' else mkn('call', 'alower', y), (c.val(0),))
@d(STR + 'trim')
def _(c): return lift('trim', lambda y: strc(y.a[0].strip()) if y.op == 'str' else mkn('call', 'trim', y), (c.val(0),))
def strcall(names, name, const):
    """a library function of strings: computed for literals, otherwise a function of its own"""
    def f(c):
        def go(*a):
            if all(x.op == 'str' for x in a):
                r = const(*[x.a[0] for x in a])
                if r is not None: return r
            return mkn('call', name, *a)
        return lift(name, go, tuple(c.val(i) for i in range(len(c.args))))
    for n in names: DEFS[n] = f
def strip_pre(a, b): return a[len(b):] if b and a.startswith(b) else a
def strip_pres(a, b):
    while b and a.startswith(b): a = a[len(b):]
    return strc(a)
def strip_sufs(a, b):
    while b and a.endswith(b): a = a[:-len(b)]
    return strc(a)
for n_, k_ in (('trim_start', lambda a: strc(a.lstrip())), ('trim_end', lambda a: strc(a.rstrip())), ('trim_start_matches', strip_pres), ('trim_end_matches', strip_sufs), ('trim_matches', lambda a, b: None)):
    strcall([STR + n_, STRA + n_], n_, k_)
for n_, k_ in (('starts_with', lambda a, b: a.startswith(b)), ('ends_with', lambda a, b: a.endswith(b)), ('contains', lambda a, b: b in a)):
    def _f(c, n_=n_, k_=k_): return lift(n_, lambda a, b: boolc(k_(a.a[0], b.a[0])) if a.op == 'str' and b.op == 'str' else B(mkn('call', n_, a, b)), (c.val(0), c.val(1)))
    for p_ in (STR, STRA): DEFS[p_ + n_] = _f
for n_, k_ in (('strip_prefix', lambda a, b: a[len(b):] if a.startswith(b) else None), ('strip_suffix', lambda a, b: (a[:len(a) - len(b)] if a.endswith(b) else None))):
    def _f(c, n_=n_, k_=k_):
        def go(a, b):
            if a.op == 'str' and b.op == 'str':
                r = k_(a.a[0], b.a[0])
                return NONE if r is None else some_l(strc(r))
            return mkn('call', n_, a, b)
        return lift(n_, go, (c.val(0), c.val(1)))
    for p_ in (STR, STRA): DEFS[p_ + n_] = _f
for n_, k_ in (('replace', lambda a, b, d: strc(a.replace(b, d))),): strcall([STR + n_, STRA + n_], n_, k_)
from itertools import product
def lit(x): return x.a[0] if x.op in ('str', 'chr') and isinstance(x.a[0], str) else None
def literal(n, k):
    """a function of texts that makes sequences or options of texts: computed for literals"""
    def f(c):
        args = [c.val(i) for i in range(len(c.args))]
        def go(*a):
            v = [lit(x) for x in a]
            return k(*v) if all(x is not None for x in v) else None
        if any(go(*x) is None for x in product(*[list(leaves(y)) for y in args])): return None
        return lift('str::' + n, go, tuple(args))
    for p_ in (STR, STRA): DEFS[p_ + n] = f
def pair(t): return NONE if len(t) < 2 else some_l(tup(strc(t[0]), strc(t[1])))
def texts(l): return mkit(seq(*[strc(x) for x in l]))
for n_, k_ in (('split', lambda a, b: texts(a.split(b)) if b else None), ('rsplit', lambda a, b: texts(a.split(b)[::-1]) if b else None), ('split_whitespace', lambda a: texts(a.split())),
               ('split_once', lambda a, b: pair(a.split(b, 1)) if b else None), ('rsplit_once', lambda a, b: pair(a.rsplit(b, 1)) if b else None)): literal(n_, k_)
for n_ in ('with_file_name', 'with_extension', 'parent', 'file_name', 'file_stem', 'extension'):
    DEFS['std::path::Path::' + n_] = (lambda n_: lambda c: lift(n_, lambda *a: mkn('call', n_, *a), tuple(c.val(i) for i in range(len(c.args)))))(n_)
for n_ in ('timestamp', 'timestamp_millis', 'timestamp_micros', 'timestamp_nanos', 'timestamp_nanos_opt'):
    DEFS['chrono::NaiveDateTime::' + n_] = (lambda n_: lambda c: lift(n_, lambda a: mkn('call', 'chrono::NaiveDateTime::' + n_, a), (c.val(0),)))(n_)
DEFS['chrono::NaiveDateTime::and_utc'] = lambda c: c.val(0)
for n_ in ('timestamp', 'timestamp_millis', 'timestamp_micros', 'timestamp_nanos', 'timestamp_nanos_opt'): DEFS['chrono::DateTime::<Tz>::' + n_] = DEFS['chrono::NaiveDateTime::' + n_]
def _subsec(c):
    x = c.val(0)
    return isub(c.I.typed(mkn('call', 'chrono::NaiveDateTime::timestamp_millis', x), c.dty), imul(inum(1000), c.I.typed(mkn('call', 'chrono::NaiveDateTime::timestamp', x), c.dty)))
DEFS['chrono::NaiveDateTime::timestamp_subsec_millis'] = _subsec
DEFS['chrono::DateTime::<Tz>::timestamp_subsec_millis'] = _subsec
@d(STR + 'eq_ignore_ascii_case')
def _(c): return eqv(lower(c.val(0)), lower(c.val(1)))

# ------------------------------------------------------------------ panicking accessors
def unwrap(c, isbad, val, kind='unwrap'):
    c.panic(kind, isbad)
    return val
@d(OPT + 'filter')
def _(c):
    x = c.val(0)
    return ite(opt_is_none(x), NONE, ite(asbool(c.clo(c.args[1], payload(x))), x, NONE))
@d(OPT + 'unwrap', OPT + 'expect')
def _(c):
    x = c.args[0]
    return unwrap(c, opt_is_none(x), payload(x))
@d(RES + 'unwrap', RES + 'expect')
def _(c):
    x = c.val(0)
    return unwrap(c, isvar(x, 'std::result::Result', 'Err'), fld(x, 'Ok', '0'))
@d(RES + 'unwrap_err', RES + 'expect_err')
def _(c):
    x = c.val(0)
    return unwrap(c, isvar(x, 'std::result::Result', 'Ok'), fld(x, 'Err', '0'))

@d('std::mem::replace', 'core::mem::replace')
def _(c):
    o = c.load(); c.store(c.args[1]); return o
@d('std::mem::take', 'core::mem::take')
def _(c):
    o = c.load()
    dv = default_of(c.I, c.inner(0))
    if dv is None: return None
    c.store(dv); return o
@d('std::mem::swap', 'core::mem::swap')
def _(c):
    a, b = c.load(0), c.load(1)
    c.store(b, 0); c.store(a, 1); return UNIT
@d('std::mem::drop', 'core::mem::drop', 'std::mem::forget')
def _(c): return UNIT

def default_of(I, ti):
    t = I.P.types[ti]
    if t['k'] == 'bool': return FALSE
    if t['k'] == 'int': return I0
    if t['k'] == 'float': return F0
    if t['k'] == 'str': return strc('')
    if t['k'] == 'tuple':
        xs = [default_of(I, a) for a in t['args']]
        return None if any(x is None for x in xs) else tup(*xs)
    if t['k'] == 'adt':
        p = t['path']
        if p == 'std::option::Option': return NONE
        if p == 'std::vec::Vec': return seq()
        if p == 'std::string::String': return strc('')
        if p in MAPT or p in SETT: return MEMPTY
    return None
@m('std::default::Default', 'default')
@userdef
def _(c): return default_of(c.I, c.I.P.strip(c.dty))

# ------------------------------------------------------------------ Vec and slices
DEFS[VECN + 'new'] = lambda c: seq()
DEFS[VECN + 'with_capacity'] = lambda c: seq()
for n in ('reserve', 'shrink_to_fit', 'reserve_exact'): DEFS[VEC + n] = lambda c: UNIT
@d('std::vec::from_elem')
def _(c):
    x, n = c.val(0), c.val(1)
    v = fresh('i', True)
    return mkcomp(n, v, elemL(x))
@d(VEC + 'push')
def _(c): c.store(cat(c.load(), seq(c.args[1]))); return UNIT
@d(VEC + 'pop')
def _(c):
    s = c.load(); n = slen(s)
    e = ieq0(n)
    r = ite(e, NONE, some_l(sidx(s, isub(n, I1))))
    c.store(ite(e, s, sslice(s, I0, isub(n, I1)))); return r
@d(VEC + 'insert')
def _(c):
    s = c.load(); i = c.val(1); n = slen(s)
    c.panic('index', ilt(n, i))
    c.store(cat(sslice(s, I0, i), seq(c.args[2]), sslice(s, i, n))); return UNIT
@d(VEC + 'remove')
def _(c):
    s = c.load(); i = c.val(1); n = slen(s)
    c.panic('index', NOT(ilt(i, n)))
    c.store(cat(sslice(s, I0, i), sslice(s, iadd(i, I1), n))); return sidx(s, i)
@d(VEC + 'swap_remove')
def _(c):
    s = c.load(); i = c.val(1); n = slen(s)
    c.panic('index', NOT(ilt(i, n)))
    last = isub(n, I1)
    r = sidx(s, i)
    c.store(sslice(supd(s, i, sidx(s, last)), I0, last)); return r
@d(VEC + 'append')
def _(c):
    c.store(cat(c.load(0), c.load(1)), 0); c.store(seq(), 1); return UNIT
@d(VEC + 'clear')
def _(c): c.store(seq()); return UNIT
@d(VEC + 'truncate')
def _(c):
    s = c.load(); n = slen(s)
    c.store(sslice(s, I0, imin2(n, c.val(1)))); return UNIT
@d(VEC + 'extend_from_slice', 'std::vec::Vec::<T, A>::extend_from_slice')
def _(c): c.store(cat(c.load(), c.val(1))); return UNIT
@m('std::iter::Extend', 'extend')
def _(c):
    t = c.I.P.types[c.inner(0)]
    p = t.get('path')
    if p == 'std::vec::Vec':
        s = rest(c, 1)
        if s is None: return None
        c.store(cat(c.load(), s)); return UNIT
    if p in MAPT:
        s = rest(c, 1)
        if s is None: return None
        c.store(build_map(c, s, p, c.load())); return UNIT
    if p in SETT:
        s = rest(c, 1)
        if s is None: return None
        c.store(build_set(c, s, c.load())); return UNIT
    return None
@d(VEC + 'len', SL + 'len', 'core::slice::<impl [T]>::len', 'std::iter::ExactSizeIterator::len')
def _(c):
    x = c.val(0)
    def go(l): return slen(l) if l.op != 'it' else isub(slen(l.a[0]), l.a[1])
    t = c.I.P.types[c.inner(0)]
    if t['k'] == 'array': return inum(t['len'])
    return mapleaves(go, x)
METH[('std::iter::ExactSizeIterator', 'len')] = DEFS[VEC + 'len']
@d(VEC + 'is_empty', SL + 'is_empty')
def _(c): return ieq0(slen(c.val(0)))
@d(SL + 'first', SL + 'last')
def _(c):
    s = c.val(0); n = slen(s)
    i = I0 if c.callee['def'].endswith('first') else isub(n, I1)
    return ite(ieq0(n), NONE, some_l(sidx(s, i)))
@d(SL + 'first_mut', SL + 'last_mut')
def _(c):
    s = c.val(0); n = slen(s)
    i = I0 if c.callee['def'].endswith('first_mut') else isub(n, I1)
    return ite(ieq0(n), NONE, some_l(ref_index(c.args[0], i)))
def ref_index(r, i):
    return mapleaves(lambda l: mkn('mref', l.a[0], path_add(l.a[1], mkn('pi', i))) if l.op == 'mref' else mkn('idx', l, i), r)
@d(SL + 'get')
def _(c):
    s = c.val(0); i = c.val(1)
    t = c.I.P.types[c.inner(1)]
    if t['k'] != 'int':
        r = range_of(c, i, t, slen(s))
        if r is None: return None
        a, b = r
        return ite(AND(ile(a, b), ile(b, slen(s))), some_l(sslice(s, a, b)), NONE)
    return ite(ilt(i, slen(s)), some_l(sidx(s, i)), NONE)
@d(SL + 'get_mut')
def _(c):
    s = c.val(0); i = c.val(1)
    if c.I.P.types[c.inner(1)]['k'] != 'int': return None
    return ite(ilt(i, slen(s)), some_l(ref_index(c.args[0], i)), NONE)
def range_of(c, r, t, n):
    p = t.get('path') or ''
    if p == 'std::ops::Range': return fld(r, '', 'start'), fld(r, '', 'end')
    if p == 'std::ops::RangeFrom': return fld(r, '', 'start'), n
    if p == 'std::ops::RangeTo': return I0, fld(r, '', 'end')
    if p == 'std::ops::RangeToInclusive': return I0, iadd(fld(r, '', 'end'), I1)
    if p == 'std::ops::RangeFull': return I0, n
    if p == 'std::ops::RangeInclusive': return fld(r, '', 'start'), iadd(fld(r, '', 'end'), I1)
    return None
@d(SL + 'contains')
def _(c):
    s = c.val(0); x = c.val(1)
    et = c.inner(1)
    return seq_any(c, s, lambda e: eq_values(c.I, et, e, x, c.st, c.pc))
@d(SL + 'swap')
def _(c):
    s = c.load(); i, j = c.val(1), c.val(2); n = slen(s)
    c.panic('index', OR(NOT(ilt(i, n)), NOT(ilt(j, n))))
    a, b = sidx(s, i), sidx(s, j)
    c.store(supd(supd(s, i, b), j, a)); return UNIT
@d(SL + 'reverse')
def _(c): c.store(srev(c.load())); return UNIT
@d(SL + 'fill')
def _(c):
    s = c.load(); v = fresh('i', True)
    c.store(mkcomp(slen(s), v, elemL(c.val(1)))); return UNIT
@d(SL + 'concat', SL2 + 'concat')
def _(c):
    return flatten(c.val(0))
@d(SL + 'windows')
def _(c):
    s = c.val(0); n = c.val(1)
    if n.op != 'num': return None
    w = int(n.a[1])
    v = fresh('i', True)
    cnt = imax2(I0, isub(slen(s), inum(w - 1)))
    return mkit(mkcomp(cnt, v, elemL(seq(*[sidx(s, iadd(v, inum(j))) for j in range(w)]))))
@d(SL + 'split_first')
def _(c):
    s = c.val(0)
    return ite(ieq0(slen(s)), NONE, some_l(tup(sidx(s, I0), sslice(s, I1, slen(s)))))
@d(SL + 'split_last')
def _(c):
    s = c.val(0); n = slen(s)
    return ite(ieq0(n), NONE, some_l(tup(sidx(s, isub(n, I1)), sslice(s, I0, isub(n, I1)))))
@d(SL + 'split_at')
def _(c):
    s = c.val(0); i = c.val(1)
    c.panic('index', ilt(slen(s), i))
    return tup(sslice(s, I0, i), sslice(s, i, slen(s)))
@d(VEC + 'retain')
def _(c):
    s = c.load()
    c.store(filter_seq(c, s, c.args[1])); return UNIT
@d(VEC + 'resize')
def _(c):
    s = c.load(); n = c.val(1)
    if s is seq():
        v = fresh('i', True)
        c.store(mkcomp(n, v, elemL(c.val(2)))); return UNIT
    return None
@d(VEC + 'drain')
def _(c):
    s = c.load(); n = slen(s)
    r = range_of(c, c.val(1), c.I.P.types[c.inner(1)], n)
    if r is None: return None
    a, b = r
    c.panic('index', OR(ilt(b, a), ilt(n, b)))
    out = sslice(s, a, b)
    c.store(cat(sslice(s, I0, a), sslice(s, b, n)))
    return mkit(out)
@d('std::boxed::box_assume_init_into_vec_unsafe', 'std::slice::hack::into_vec')
def _(c):
    v = c.val(0)
    # vec![...] literal: the boxed array was written through a raw pointer
    def go(x):
        while x.op == 'adt' and len(x.a[2]) >= 1:
            x = dict(x.a[2]).get('value') or x.a[2][-1][1]
        return x
    r = mapleaves(go, v)
    return r
@d('std::boxed::Box::<T>::new_uninit')
def _(c):
    cell = c.I.newcell()
    c.st[cell] = adt('std::mem::MaybeUninit', '', {'uninit': UNIT, 'value': mkn('call', 'uninit')})
    from interp import mref
    return mref(cell)

# index -----------------------------------------------------------------
def index_impl(c, mutable):
    ct = c.I.P.types[c.inner(0)]
    it = c.I.P.types[c.inner(1)]
    p = ct.get('path') or ''
    s = c.val(0); i = c.val(1)
    if p in MAPT:
        c.panic('mapindex', NOT(mhas(s, i)))
        return mget(s, i)
    if p.startswith('nalgebra'):
        if mutable and is_mref(c.args[0]):
            if s.op != 'mat': return None
            r, w, es = s.a
            if i.op == 'tup' and all(q.op == 'num' for q in i.a): a, b = (int(q.a[1]) for q in i.a)
            elif i.op == 'num': a, b = int(i.a[1]) % r, int(i.a[1]) // r
            else: return None
            if a >= r or b >= w: c.panic('index', TRUE); return BOT
            return mapleaves(lambda l: mkn('mref', l.a[0], path_add(l.a[1], mkn('pm', a * w + b))), c.args[0])
        return mat_index(c, s, i, it)
    if it['k'] == 'int':
        n = slen(s) if ct['k'] != 'array' else inum(ct['len'])
        c.panic('index', NOT(ilt(i, n)))
        if mutable and is_mref(c.args[0]): return ref_index(c.args[0], i)
        if ct['k'] == 'array' and i.op == 'num': return aidx(s, int(i.a[1]), ct['len'])
        return sidx(s, i)
    if p == 'serde_json::Value' : return None
    n = slen(s) if ct['k'] != 'array' else inum(ct['len'])
    if ct['k'] == 'str' or p == 'std::string::String': return None
    r = range_of(c, i, it, n)
    if r is None: return None
    a, b = r
    if ct['k'] == 'array': s = expand_array(s, ct['len'])
    c.panic('index', OR(ilt(b, a), ilt(n, b)))
    if mutable and is_mref(c.args[0]):
        return mapleaves(lambda l: mkn('mref', l.a[0], path_add(l.a[1], mkn('pr', a, b))), c.args[0])
    return sslice(s, a, b)
METH[('std::ops::Index', 'index')] = userdef(lambda c: index_impl(c, False))
METH[('std::ops::IndexMut', 'index_mut')] = userdef(lambda c: index_impl(c, True))

# sorting ----------------------------------------------------------------
def sort_node(s, a, b, o, stable):
    """sequence s sorted by the comparison o(a, b)"""
    lam = mklam([a, b], o)
    def go(x):
        if x.op == 'seq' and len(x.a) <= 1: return x
        return mkn('sorted' if stable else 'sortedu', x, lam)
    return mapleaves(go, s)
def do_sort(c, f, stable):
    c.store(sort_of(c, c.load(), f, stable, elem_ty(c, 0)))
    return UNIT
def related(c, s, f, et):
    """f of two elements of s, whatever they are"""
    a, b = fresh('l'), fresh('l')
    if et is not None: c.I.typed(a, et); c.I.typed(b, et)
    c.I.pstack.append([])
    ok0 = c.ok; c.ok = TRUE
    o = f(a, b)
    ps = c.I.pstack.pop()
    def pairs(cond):
        v, w = fresh('i', True), fresh('i', True)
        cc = subst(cond, {a: sidx(s, v), b: sidx(s, w)})
        return mkany(slen(s), v, mkany(slen(s), w, cc))
    okf = c.ok; c.ok = ok0
    for k, site, cond in ps: c.I.panic_at(k, site, AND(c.pc, ok0, pairs(cond)))
    if okf is not TRUE: c.ok = AND(ok0, NOT(pairs(NOT(okf))))
    return a, b, o
def sort_of(c, s, f, stable, et): return sort_node(s, *related(c, s, f, et), stable)
def dedup_of(c, s, f, et):
    """without the elements that are the same as the one before, where sameness is an equivalence"""
    a, b, o = related(c, s, f, et)
    o = asbool(o)
    if o.op != 'ite' or any(x.op not in ('eq', 'eqc', 'ieq', 'feq') for x in o.atoms) or T.restrict(o, {x: True for x in o.atoms}) is not TRUE: return None
    if any(T.restrict(o, {x: False}) is not FALSE for x in o.atoms): return None
    if asbool(subst(o, {a: b})) is not TRUE or asbool(subst(o, {a: b, b: a})) is not o: return None
    def go(x):
        if x.op == 'seq' and len(x.a) <= 1: return x
        v = fresh('i', True)
        same = asbool(subst(o, {a: sidx(x, isub(v, I1)), b: sidx(x, v)}))
        return mkcomp(slen(x), v, ite(OR(ieq0(v), NOT(same)), elemL(sidx(x, v)), L()))
    return mapleaves(go, s)
def dedup_in(c, f):
    r = dedup_of(c, c.load(), f, elem_ty(c, 0))
    if r is None: return None
    c.store(r)
    return UNIT
@d(VEC + 'dedup')
def _(c): return dedup_in(c, lambda a, b: eq_values(c.I, elem_ty(c, 0), a, b, c.st, c.pc))
@d(VEC + 'dedup_by_key')
def _(c): return dedup_in(c, lambda a, b: eq_values(c.I, keyty(c), c.clo(c.args[1], a), c.clo(c.args[1], b), c.st, c.pc)) if keyty(c) is not None else None
@d(VEC + 'dedup_by')
def _(c): return dedup_in(c, lambda a, b: c.clo(c.args[1], b, a))
def elem_ty(c, i):
    t = c.I.P.types[c.inner(i)]
    if t['k'] in ('slice', 'array'): return t['args'][0]
    if t['k'] == 'adt' and t['path'] == 'std::vec::Vec': return t['args'][0]
    return None
@d(SL2 + 'sort', SL + 'sort', SL + 'sort_unstable')
def _(c):
    et = elem_ty(c, 0)
    return do_sort(c, lambda a, b: cmp_values(c.I, et, a, b), True)
@d(SL2 + 'sort_by', SL + 'sort_by')
def _(c): return do_sort(c, lambda a, b: c.clo(c.args[1], a, b), True)
@d(SL + 'sort_unstable_by')
def _(c): return do_sort(c, lambda a, b: c.clo(c.args[1], a, b), False)
def keyty(c):
    for i in c.callee.get('args', []):
        pass
    a = c.callee.get('args', [])
    return a[1] if len(a) >= 2 else None
@d(SL2 + 'sort_by_key', SL + 'sort_by_key', SL2 + 'sort_by_cached_key', SL + 'sort_by_cached_key')
def _(c):
    kt = keyty(c)
    return do_sort(c, lambda a, b: cmp_values(c.I, kt, c.clo(c.args[1], a), c.clo(c.args[1], b)), True)
@d(SL + 'sort_unstable_by_key')
def _(c):
    kt = keyty(c)
    return do_sort(c, lambda a, b: cmp_values(c.I, kt, c.clo(c.args[1], a), c.clo(c.args[1], b)), False)

# ------------------------------------------------------------------ iterators
def mkit(s, pos=None):
    import interp
    return interp.mkit(s, pos)

def rest_of(c, v):
    """remaining elements of an iterator value"""
    def go(l):
        if l.op == 'it': return sslice(l.a[0], l.a[1], slen(l.a[0])) if l.a[1] is not I0 else l.a[0]
        if l.op in ('seq', 'comp', 'cat', 'sorted', 'sortedu', 'rev', 'slice', 'mseq', 'entries'): return l
        return None
    ls = leaves(v)
    if all(l is BOT or go(l) is not None for l in ls): return mapleaves(go, v)
    return None

def as_seq(c, v, ti):
    """elements of an IntoIterator argument"""
    I = c.I; P = I.P
    raw = P.types[ti]
    v0 = v
    if is_mref(v):
        inner = I.deref(v, c.st)
        if all(l.op == 'it' for l in leaves(inner) if l is not BOT):
            return rest_of(c, inner)
        j = P.strip(ti); t = P.types[j]
        if raw['k'] == 'mut' and t.get('path') in MAPT: return mut_entries(c, v, inner, t['path'], 1)
        if raw['k'] == 'mut' and (t['k'] in ('slice', 'array') or t.get('path') == 'std::vec::Vec'):
            return mut_seq(c, v, inner, t)
        v = inner
    j = P.strip(ti); t = P.types[j]
    r = rest_of(c, v)
    if r is not None: return r
    p = t.get('path') or ''
    if t['k'] == 'array': return expand_array(v, t['len']) if t['len'] <= 64 else v
    if t['k'] in ('slice',) or p == 'std::vec::Vec': return v
    if p in ('std::ops::Range', 'std::ops::RangeInclusive'):
        a, b = fld(v, '', 'start'), fld(v, '', 'end')
        if p.endswith('Inclusive'): b = iadd(b, I1)
        return range_seq(a, b)
    if p == 'std::option::Option':
        return ite(opt_is_none(v), seq(), lift('one', lambda x: seq(x), (payload(v),)))
    if p in MAPT: return entries(v, p)
    if p in SETT: return mkeys(v, p)
    # user-defined iterator
    if t['k'] == 'adt' or t['k'] == 'other' or t['k'] == 'param':
        return drive(c, v, j)
    return None

def range_seq(a, b):
    n = isub(b, a)
    def cnt(x):
        return x if nonneg(x) else imax2(I0, x)
    n = mapleaves(cnt, n)
    v = fresh('i', True)
    return mkcomp(n, v, elemL(iadd(a, v)))
@d('std::ops::RangeInclusive::<Idx>::new')
def _(c): return adt('std::ops::RangeInclusive', '', {'start': c.val(0), 'end': c.val(1), 'exhausted': FALSE})

def mut_seq(c, r, val, t):
    n = inum(t['len']) if t['k'] == 'array' else slen(val)
    def go(l):
        if l.op != 'mref': return mkn('call', 'mutiter', l)
        if n.op == 'num' and n.a[1] <= 32:
            mk1 = (lambda i: mkn('pa', i, t['len'])) if t['k'] == 'array' else (lambda i: mkn('pi', inum(i)))
            return mkn('seq', *[mkn('mref', l.a[0], path_add(l.a[1], mk1(i))) for i in range(int(n.a[1]))])
        return mapleaves(lambda nn: mkn('mseq', l.a[0], l.a[1], nn), n)
    return mapleaves(go, r)

def mut_entries(c, r, val, p, pairs):
    """references to the values of a map (with their keys)"""
    def go(l):
        if l.op != 'mref': return mkn('call', 'mutentries', l)
        return mapleaves(lambda m: seq() if m.op == 'mempty' else mkn('mseq', l.a[0], l.a[1], slen(entries(m, p)), m, pairs), val)
    return mapleaves(go, r)

def drive(c, v, ti):
    """elements produced by calling the user-defined next() until None"""
    I = c.I
    ts = I.P.types[ti]['s']
    if I.P.types[ti].get('path') == 'indicatif::ProgressBarIter': return as_seq(c, v, I.P.types[ti]['args'][0])
    f = I.P.fns.get('<%s as std::iter::Iterator>::next' % ts)
    if f is None:
        for g in I.P.fns.values():
            if g.rec['local'] and g.sym.endswith('::next') and ('std::iter::Iterator for ' + ts + '>') in g.sym: f = g; break
    if f is None and I.P.types[ti].get('path'):
        # the generic implementation for this type and these type arguments
        import re
        key = 'std::iter::Iterator for %s<%s' % (I.P.types[ti]['path'], ("'_, " if "<'" in ts else '') + ', '.join(I.P.types[a]['s'] for a in I.P.types[ti]['args'][:-1]))
        for g in I.P.gen.values():
            if g.rec['local'] and g.sym.endswith('>::next') and key in re.sub(r"'[a-z_0-9]+", "'_", g.sym): f = g; break
    if f is None: return None
    from interp import mref
    cell = I.newcell(ti); acc = I.newcell()
    st = c.st
    st[cell] = v; st[acc] = seq()
    def body(s):
        o, ok = I.call_fn(f, [mref(cell)], s, TRUE)
        isn = opt_is_none(o)
        s1 = dict(s)
        s2 = dict(s)
        s2[acc] = cat(s[acc], lift('one', lambda x: seq(x), (payload(o),)))
        return [(AND(ok, isn), s1, 'done'), (AND(ok, NOT(isn)), s2, 'back')]
    exits = I.summarize(st, body, lambda x: True, ('drive', ts))
    mm = I.merge([(cc, s) for cc, s, t in exits])
    r = mm.pop(acc); mm.pop(cell, None)
    st.pop(acc); st.pop(cell)
    for k, x in mm.items():
        if k in st: st[k] = x
    return r

def rest(c, i=0):
    v = c.args[i]
    ti = c.tys[i]
    s = as_seq(c, v, ti)
    if s is not None and is_mref(v):
        inner = c.I.deref(v, c.st)
        if inner.op == 'it': c.I.store_ref(v, mkn('it', inner.a[0], slen(inner.a[0])), c.st)
    return s

@m('std::iter::IntoIterator', 'into_iter')
@userdef
def _into_iter(c):
    v = c.args[0]
    t = c.I.P.types[c.inner(0)]
    if is_mref(v) and c.I.P.types[c.tys[0]]['k'] == 'mut':
        inner = c.I.deref(v, c.st)
        if inner.op == 'it': return v
    if t['k'] == 'adt' and t['path'] not in KNOWN_INTO and v.op not in ('it', 'seq', 'comp'): 
        if all(l.op == 'it' for l in leaves(v)): return v
        return v
    s = as_seq(c, v, c.tys[0])
    if s is None: return None
    return mkit(s)
KNOWN_INTO = ('std::vec::Vec', 'std::option::Option', 'std::ops::Range', 'std::ops::RangeInclusive') + MAPT + SETT

@d(SL + 'iter', 'std::collections::HashSet::<T, S, A>::iter', 'std::collections::BTreeSet::<T, A>::iter', 'std::collections::HashSet::<T, S>::iter')
def _(c):
    s = as_seq(c, c.val(0), c.tys[0])
    return None if s is None else mkit(s)
@d(SL + 'iter_mut')
def _(c):
    v = c.args[0]
    inner = c.val(0)
    t = c.I.P.types[c.inner(0)]
    if not is_mref(v): return None
    return mkit(mut_seq(c, v, inner, t))

@m(ITER, 'next')
@userdef
def _next(c):
    it = c.load()
    if any(l is not BOT and l.op != 'it' for l in leaves(it)): return None
    def opt(l): return ite(ilt(l.a[1], slen(l.a[0])), some_l(sidx(l.a[0], l.a[1])), NONE)
    def nx(l): return ite(ilt(l.a[1], slen(l.a[0])), mkit(l.a[0], iadd(l.a[1], I1)), l)
    r = mapleaves(opt, it)
    c.store(mapleaves(nx, it))
    return r
@m('std::iter::DoubleEndedIterator', 'next_back')
@userdef
def _(c):
    it = c.load()
    if any(l is not BOT and l.op != 'it' for l in leaves(it)): return None
    def opt(l): return ite(ilt(l.a[1], slen(l.a[0])), some_l(sidx(l.a[0], isub(slen(l.a[0]), I1))), NONE)
    def nx(l): return ite(ilt(l.a[1], slen(l.a[0])), mkit(sslice(l.a[0], I0, isub(slen(l.a[0]), I1)), l.a[1]), l)
    r = mapleaves(opt, it)
    c.store(mapleaves(nx, it))
    return r

def call_elem(c, f, e, guard=TRUE):
    """closure call on one element, no state change expected"""
    I = c.I
    v, ok = I.call_value(f, [e], c.st, AND(c.pc, c.ok), c.fr)
    return v, ok

def over(c, s, fn, want):
    """apply fn(element) -> value to every element; returns parts.
    fn must not change the state; panics are lifted over the elements."""
    raise NotImplementedError

class Effect(Exception): pass

def pure_call(c, f, args, v=None, n=None, guard=TRUE):
    """closure call whose panics are quantified over the element index v < n"""
    I = c.I
    before = dict(c.st)
    I.pstack.append([])
    r, ok = I.call_value(f, args, c.st, TRUE, c.fr)
    ps = I.pstack.pop()
    changed = any(c.st.get(k) is not x for k, x in before.items())
    if changed:
        if v is not None:
            c.st.clear(); c.st.update(before)
            raise Effect()
    for k, site, cond in ps:
        cond = AND(guard, cond)
        if v is not None: cond = mkany(n, v, cond)
        I.panic_at(k, site, AND(c.pc, c.ok, cond))
    if v is None: c.ok = AND(c.ok, ok)
    return r

def transform(c, s, f, one):
    """generic element-wise transformation.  one(elem, value) -> DD of L(...)"""
    def go(x):
        if x.op == 'seq': 
            out = []
            for e in x.a:
                out.append(seq_of_list(one(e, pure_call(c, f, [e]))))
            return cat(*out)
        if x.op == 'cat': return cat(*[go(p) for p in x.a])
        n, v, body = view(x)
        if has_splat(body) :
            def leafs(l):
                r = L()
                for e in l.a:
                    if e.op == 'splat': r = lcat(r, L(mkn('splat', nested(c, e.a[0], f, one, n, v))))
                    else: r = lcat(r, one(e, pure_call(c, f, [e], v, n)))
                return r
            return mkcomp(n, v, mapleaves(leafs, body))
        def leaf(l):
            g = mapleaves(lambda y: boolc(y is l), body) if body.op == 'ite' else TRUE
            r = L()
            for e in l.a: r = lcat(r, one(e, pure_call(c, f, [e], v, n, g)))
            return r
        return mkcomp(n, v, mapleaves(leaf, body))
    return mapleaves(go, s)

def nested(c, s, f, one, n, v):
    I = c.I
    I.pstack.append([])
    r = transform(c, s, f, one)
    for k, site, cond in I.pstack.pop(): I.panic_at(k, site, mkany(n, v, cond))
    return r

def effect_transform(c, s, f, one):
    """element-wise transformation by a closure with side effects"""
    I = c.I
    acc = I.newcell()
    c.st[acc] = seq()
    def step(e, st):
        v, ok = I.call_value(f, [e], st, TRUE, c.fr)
        st[acc] = cat(st[acc], seq_of_list(one(e, v)))
        return ok
    each(c, s, step)
    return c.st.pop(acc)

def each(c, s, step):
    """run step(elem, state)->ok for every element, in order, as a loop"""
    I = c.I
    def run(x, st, pc):
        if x.op == 'seq':
            ok = TRUE
            for e in x.a:
                I.pstack.append([])
                o = step(e, st)
                for k, site, cond in I.pstack.pop(): I.panic_at(k, site, AND(pc, ok, cond))
                ok = AND(ok, o)
            return UNIT, ok
        if x.op == 'cat':
            ok = TRUE
            for p in x.a:
                _, o = run(p, st, AND(pc, ok))
                ok = AND(ok, o)
            return UNIT, ok
        if x.op == 'comp' and has_splat(x.a[2]) and all(len(l.a) <= 1 for l in leaves(x.a[2])):
            # nested iteration
            pos = I.newcell(); st[pos] = mkit(range_seq(I0, x.a[1]))
            def body(z):
                it = z[pos]
                k = it.a[1]
                more = ilt(k, x.a[1])
                s1 = dict(z); s2 = dict(z)
                s2[pos] = mkit(it.a[0], iadd(k, I1))
                b = inst(x.a[2], x.a[0], k)
                def inner(l, st_, pc_):
                    if not l.a: return UNIT, TRUE
                    e = l.a[0]
                    return run(e.a[0] if e.op == 'splat' else seq(e), st_, pc_)
                _, o = I.branch(b, s2, TRUE, inner)
                return [(NOT(more), s1, 'done'), (AND(more, o), s2, 'back')]
            exits = I.summarize(st, body, lambda q: True, ('each', 0))
            return finish(st, exits, pos)
        pos = I.newcell()
        st[pos] = mkit(x)
        def body(z):
            it = z[pos]
            more = ilt(it.a[1], slen(it.a[0]))
            e = sidx(it.a[0], it.a[1])
            s1 = dict(z); s2 = dict(z)
            s2[pos] = mkit(it.a[0], iadd(it.a[1], I1))
            I.pstack.append([])
            o = step(e, s2)
            for k, site, cond in I.pstack.pop(): I.panic_at(k, site, AND(more, cond))
            return [(NOT(more), s1, 'done'), (AND(more, o), s2, 'back')]
        exits = I.summarize(st, body, lambda q: True, ('each', 0))
        return finish(st, exits, pos)
    def finish(st, exits, pos):
        ok = FALSE
        for cc, _, _ in exits: ok = OR(ok, cc)
        mm = I.merge([(cc, z) for cc, z, _ in exits])
        for k in list(st):
            if k in mm: st[k] = mm[k]
        st.pop(pos, None)
        return UNIT, ok
    _, ok = I.branch(s, c.st, AND(c.pc, c.ok), run)
    c.ok = AND(c.ok, ok)

def map_seq(c, s, f):
    one = lambda e, v: elemL(v)
    try: return transform(c, s, f, one)
    except Effect: return effect_transform(c, s, f, one)
def filter_seq(c, s, f):
    one = lambda e, v: ite(asbool(v), elemL(e), L())
    try: return transform(c, s, f, one)
    except Effect: return effect_transform(c, s, f, one)
def filter_map_seq(c, s, f):
    one = lambda e, v: ite(opt_is_none(v), L(), elemL(payload(v)))
    try: return transform(c, s, f, one)
    except Effect: return effect_transform(c, s, f, one)

SHORT = ('find', 'find_map', 'position', 'any', 'all', 'nth')
def first_hit(c, which):
    """find and find_map of an iterator that is a parameter: the first item satisfying a condition"""
    if c.I.P.types[c.inner(0)]['k'] != 'param' or not is_mref(c.args[0]): return None
    it = c.val(0)
    if it.op == 'ite': return None
    e = mkn('call', 'item of', it)
    try: b = pure_call(c, c.args[1], [e])
    except Effect: return None
    cond = asbool(b) if which == 'find' else NOT(opt_is_none(b))
    hit = mkn('call', 'first item', it, cond)
    x = payload(hit)
    v = x if which == 'find' else T.subst_node(payload(b), e, x)
    c.I.store_ref(c.args[0], mkn('out', hit, 0), c.st)
    return ite(opt_is_none(hit), NONE, some_l(v))

def it_model(*names, traits=(ITER,)):
    def deco(f):
        def g(c):
            s = rest(c, 0)
            if s is None:
                return first_hit(c, names[0]) if names[0] in ('find', 'find_map') else None
            r = f(c, s)
            # where such an iterator stands afterwards is not modelled
            if r is not None and names[0] in SHORT and is_mref(c.args[0]):
                for l in leaves(c.args[0]):
                    if l.op == 'mref' and c.I.deref(l, c.st).op == 'it': c.I.store_ref(l, mkn('unk', 'iterator after ' + names[0], s), c.st)
            return r
        for tr in traits:
            for n in names: METH[(tr, n)] = userdef(g)
        return g
    return deco

@it_model('map')
def _(c, s): return mkit(map_seq(c, s, c.args[1]))
@it_model('filter')
def _(c, s): return mkit(filter_seq(c, s, c.args[1]))
@it_model('filter_map')
def _(c, s): return mkit(filter_map_seq(c, s, c.args[1]))
@it_model('enumerate')
def _(c, s): return mkit(enum_seq(s))
def enum_seq(s):
    def go(x):
        if x.op == 'seq': return mkn('seq', *[tup(inum(i), e) for i, e in enumerate(x.a)])
        v = fresh('i', True)
        return mkcomp(slen(x), v, elemL(tup(v, sidx(x, v))))
    return mapleaves(go, s)
@it_model('zip')
def _(c, s):
    t = as_seq(c, c.args[1], c.tys[1])
    if t is None: return None
    return mkit(szip(s, t))
@d('std::iter::zip', 'core::iter::zip')
def _(c):
    s = as_seq(c, c.args[0], c.tys[0]); t = as_seq(c, c.args[1], c.tys[1])
    if s is None or t is None: return None
    return mkit(szip(s, t))
@it_model('rev')
def _(c, s): return mkit(srev(s))
@it_model('cloned', 'copied', 'by_ref', 'fuse', 'into_iter')
def _(c, s): return mkit(s)
METH[(ITER, 'by_ref')] = lambda c: c.args[0]
@it_model('chain')
def _(c, s):
    t = as_seq(c, c.args[1], c.tys[1])
    if t is None: return None
    return mkit(cat(s, t))
@it_model('take')
def _(c, s): return mkit(sslice(s, I0, imin2(c.val(1), slen(s))))
@it_model('skip')
def _(c, s): return mkit(sslice(s, imin2(c.val(1), slen(s)), slen(s)))
@it_model('inspect')
def _(c, s): return mkit(s)
def flatten(s):
    def go(x):
        if x.op == 'seq': return cat(*x.a)
        if x.op == 'cat': return cat(*[go(p) for p in x.a])
        n, v, body = view(x)
        def leaf(l): return L(*[mkn('splat', e) if e.op != 'splat' else mkn('splat', flatten(e.a[0])) for e in l.a])
        return mkcomp(n, v, mapleaves(leaf, mapleaves(lambda l: l, body)))
    return mapleaves(go, s)
def items_of(c, v, hint=None):
    """value of an IntoIterator element -> sequence"""
    def go(l):
        if l.op == 'adt' and l.a[0] == 'std::option::Option':
            return seq() if l.a[1] == 'None' else seq(payload(l))
        if l.op == 'adt' and l.a[0] == 'std::result::Result':
            return seq() if l.a[1] == 'Err' else seq(fld(l, 'Ok', '0'))
        if l.op == 'it': return rest_of(c, l)
        return l
    return mapleaves(go, v)
@it_model('flat_map')
def _(c, s):
    u = item_kind(c)
    one = lambda e, v: mapleaves(lambda q: L(mkn('splat', q)), items_of(c, opt_seq(v, u)))
    try: r = transform(c, s, c.args[1], one)
    except Effect: r = effect_transform(c, s, c.args[1], one)
    return mkit(r)
def item_kind(c):
    # type of the inner collection, if printed in the callee's type arguments
    a = c.callee.get('args', [])
    return c.I.P.types[a[1]] if len(a) > 1 else None
def opt_seq(v, t):
    if t is not None and t.get('path') == 'std::option::Option':
        return ite(opt_is_none(v), seq(), lift('one', lambda x: seq(x), (payload(v),)))
    return v
@it_model('flatten')
def _(c, s):
    P = c.I.P
    et = None
    def one(l):
        return l
    # options?
    st = c.ty(0)['s']
    def go(x):
        if x.op == 'seq': return cat(*[items_of(c, opt_guess(e, st)) for e in x.a])
        if x.op == 'cat': return cat(*[go(p) for p in x.a])
        n, v, body = view(x)
        def leaf(l):
            r = L()
            for e in l.a:
                if e.op == 'splat': r = lcat(r, L(mkn('splat', go(e.a[0]))))
                else: r = lcat(r, mapleaves(lambda q: L(mkn('splat', q)), items_of(c, opt_guess(e, st))))
            return r
        return mkcomp(n, v, mapleaves(leaf, body))
    return mkit(mapleaves(go, s))
def opt_guess(e, s):
    if e.op in ('adt', 'ite') : return e
    if 'Option<' in s: return ite(opt_is_none(e), seq(), lift('one', lambda x: seq(x), (payload(e),)))
    return e

# consumption -----------------------------------------------------------
def seq_any(c, s, p):
    def go(x):
        if x.op == 'seq': return OR(*[asbool(p(e)) for e in x.a])
        if x.op == 'cat': return OR(*[go(q) for q in x.a])
        n, v, body = view(x)
        def leaf(l):
            r = FALSE
            for e in l.a: r = OR(r, go(e.a[0]) if e.op == 'splat' else asbool(p(e)))
            return r
        return mkany(n, v, mapleaves(leaf, body))
    return mapleaves(go, s)

def closure_pred(c, f):
    """element -> boolean, panics lifted (over-approximated)"""
    def p(e, v=None, n=None, g=TRUE): return asbool(pure_call(c, f, [e], v, n, g))
    return p

def quant_any(c, s, p):
    def go(x):
        if x.op == 'seq':
            r = FALSE
            for e in x.a: r = OR(r, p(e))
            return r
        if x.op == 'cat': return OR(*[go(q) for q in x.a])
        n, v, body = view(x)
        def leaf(l):
            g = mapleaves(lambda y: boolc(y is l), body) if body.op == 'ite' else TRUE
            r = FALSE
            for e in l.a:
                if e.op == 'splat': r = OR(r, go(e.a[0]))
                else: r = OR(r, p(e, v, n, g))
            return r
        return mkany(n, v, mapleaves(leaf, body))
    return mapleaves(go, s)
@it_model('any')
def _(c, s): return quant_any(c, s, closure_pred(c, c.args[1]))
@it_model('all')
def _(c, s):
    p = closure_pred(c, c.args[1])
    return NOT(quant_any(c, s, lambda *a: NOT(p(*a))))
@it_model('contains', traits=(ITERTOOLS,))
def _(c, s):
    x = c.val(1)
    return seq_any(c, s, lambda e: eq_values(c.I, c.inner(1), e, x, c.st, c.pc))

def first_by(c, s, p, val):
    """(exists, value of the first element satisfying p)"""
    def go(x):
        if x.op == 'seq':
            r = NONE
            for e in reversed(x.a): r = ite(p(e), some_l(val(e, None)), r)
            return r
        if x.op == 'cat':
            r = NONE
            for q in reversed(x.a):
                o = go(q)
                r = ite(opt_is_none(o), r, o)
            return r
        n, v, body = view(x)
        if any(len(l.a) > 1 or (l.a and l.a[0].op == 'splat') for l in leaves(body)): return mkn('call', 'find', x)
        def leaf(l):
            if not l.a: return FALSE
            g = mapleaves(lambda y: boolc(y is l), body) if body.op == 'ite' else TRUE
            return p(l.a[0], v, n, g)
        cond = mapleaves(leaf, body)
        has = mkany(n, v, cond)
        if has is FALSE: return NONE
        j = mkfirst(n, v, cond)
        e = subst(mapleaves(lambda l: l.a[0] if l.a else BOT, body), {v: j})
        return ite(has, some_l(val(e, j)), NONE)
    return mapleaves(go, s)
@it_model('find')
def _(c, s): return first_by(c, s, closure_pred(c, c.args[1]), lambda e, j: e)
@it_model('position')
def _(c, s):
    es = enum_seq(s)
    p = closure_pred(c, c.args[1])
    def q(e, v=None, n=None, g=TRUE): return p(tfield(e, 1, 2), v, n, g)
    return first_by(c, es, q, lambda e, j: tfield(e, 0, 2))
@it_model('rposition')
def _(c, s):
    es = srev(enum_seq(s))
    p = closure_pred(c, c.args[1])
    def q(e, v=None, n=None, g=TRUE): return p(tfield(e, 1, 2), v, n, g)
    return first_by(c, es, q, lambda e, j: tfield(e, 0, 2))
@m('std::iter::DoubleEndedIterator', 'rfind')
@userdef
def _(c):
    s = rest(c, 0)
    return None if s is None else first_by(c, srev(s), closure_pred(c, c.args[1]), lambda e, j: e)
def prefix_len(c, s, p):
    """how many items before the first one that p does not hold of"""
    r = first_by(c, enum_seq(s), lambda e, v=None, n=None, g=TRUE: NOT(p(tfield(e, 1, 2), v, n, g)), lambda e, j: tfield(e, 0, 2))
    return ite(opt_is_none(r), slen(s), payload(r))
@it_model('take_while')
def _(c, s): return mkit(sslice(s, I0, prefix_len(c, s, closure_pred(c, c.args[1]))))
@it_model('skip_while')
def _(c, s): return mkit(sslice(s, prefix_len(c, s, closure_pred(c, c.args[1])), slen(s)))
@it_model('map_while')
def _(c, s):
    try: r = map_seq(c, s, c.args[1])
    except Effect: return None
    n = first_by(c, enum_seq(r), lambda e, v=None, n=None, g=TRUE: opt_is_none(tfield(e, 1, 2)), lambda e, j: tfield(e, 0, 2))
    r = sslice(r, I0, ite(opt_is_none(n), slen(r), payload(n)))
    return mkit(smap(r, lambda e: payload(e)))
@it_model('step_by')
def _(c, s):
    k = c.val(1)
    if k.op != 'num' or k.a[1] < 1: return None
    if k is I1: return mkit(s)
    v = fresh('i', True)
    def go(x):
        n = slen(x)
        return mkcomp(c.I.idiv(iadd(n, isub(k, I1)), k), v, elemL(sidx(x, imul(v, k))))
    return mkit(mapleaves(go, s))
@it_model('reduce')
def _(c, s):
    f = c.args[1]
    n = slen(s)
    acc = c.I.newcell()
    c.st[acc] = sidx(s, I0)
    def step(e, st):
        v, ok = c.I.call_value(f, [st[acc], e], st, TRUE, c.fr)
        st[acc] = v
        return ok
    e0 = ieq0(n)
    if e0 is TRUE: return NONE
    pc = c.pc; c.pc = AND(c.pc, NOT(e0)); ok0 = c.ok
    each(c, sslice(s, ite(e0, I0, I1), n), step)
    c.pc = pc; c.ok = AND(ok0, OR(e0, c.ok))
    return ite(e0, NONE, some_l(c.st.pop(acc)))
@it_model('find_map')
def _(c, s):
    f = c.args[1]
    try: r = map_seq(c, s, f)
    except Effect: return None
    def q(e, v=None, n=None, g=TRUE): return NOT(opt_is_none(e))
    return first_by(c, r, q, lambda e, j: payload(e))
@it_model('count')
def _(c, s): return slen(s)
@it_model('last')
def _(c, s):
    n = slen(s)
    return ite(ieq0(n), NONE, some_l(sidx(s, isub(n, I1))))
@it_model('nth')
def _(c, s):
    i = c.val(1)
    return ite(ilt(i, slen(s)), some_l(sidx(s, i)), NONE)

@it_model('sum')
def _(c, s):
    k = c.I.kind(c.dty)
    if k is None: return None
    return sum_seq(s, k)
def sum_seq(s, k):
    add = fadd if k == 'f' else iadd
    def go(x):
        r = num(k, 0)
        if x.op == 'seq':
            for e in x.a: r = add(r, e)
            return r
        if x.op == 'cat':
            for q in x.a: r = add(r, go(q))
            return r
        n, v, body = view(x)
        def leaf(l):
            r = num(k, 0)
            for e in l.a: r = add(r, go(e.a[0]) if e.op == 'splat' else e)
            return r
        return mksum(n, v, mapleaves(leaf, body), k)
    return mapleaves(go, s)

@it_model('for_each')
def _(c, s):
    f = c.args[1]
    def step(e, st):
        v, ok = c.I.call_value(f, [e], st, TRUE, c.fr)
        return ok
    each(c, s, step)
    return UNIT
@it_model('fold')
def _(c, s):
    f = c.args[2]
    acc = c.I.newcell(c.dty)
    c.st[acc] = c.args[1]
    def step(e, st):
        v, ok = c.I.call_value(f, [st[acc], e], st, TRUE, c.fr)
        st[acc] = v
        return ok
    each(c, s, step)
    return c.st.pop(acc)
@it_model('try_for_each')
def _(c, s): return None

def by_cmp(c, s, cmp, kind):
    """min_by/max_by: kind 'min' keeps the first, 'max' keeps the last extreme"""
    gt = lambda a, b: isvar(cmp(a, b), 'std::cmp::Ordering', 'Greater')
    def go(x):
        if x.op == 'seq':
            if not x.a: return NONE
            b = x.a[0]
            for e in x.a[1:]:
                g = gt(b, e)
                b = ite(g, e, b) if kind == 'min' else ite(g, b, e)
            return some_l(b)
        if x.op == 'cat': return mkn('call', kind + 'by', x)
        n = slen(x)
        v = fresh('i', True)
        el = sidx(x, v)
        a, b = fresh('l'), fresh('l')
        o = cmp(a, b)
        key = split_cmp(o, a, b)
        if key is None: return mkn('call', kind + 'by', x, mklam([a, b], o))
        kf, kt, rev = key
        kk = subst(kf, {a: el})
        # reversed comparison: the smallest becomes the largest
        eff = kind if not rev else ('max' if kind == 'min' else 'min')
        tie = 'first' if kind == 'min' else 'last'
        e = mkextremum({'f': 'f', 'i': 'i', 'o': 'o'}[kt] + eff + tie, n, v, kk)
        return ite(ieq0(n), NONE, some_l(sidx(x, e)))
    return mapleaves(go, s)
def split_cmp(o, a, b):
    """o = cmp(k(a), k(b)) or cmp(k(b), k(a)); returns (k(a), kind, reversed)"""
    ls = [l for l in leaves(o) if l is not BOT]
    if len(ls) != 1 or ls[0].op != 'ocmp': return None
    x, y, kd = ls[0].a
    if b not in x.fv and a not in y.fv and subst(y, {b: a}) is x: return x, kd, False
    if a not in x.fv and b not in y.fv and subst(x, {b: a}) is y: return y, kd, True
    return None
def cmp_clo(c, f):
    def cmp(a, b):
        r = pure_call(c, f, [a, b])
        return r
    return cmp
def sym_panics(c, fn, s):
    """evaluate fn; panics mentioning the symbolic pair are quantified over the elements"""
    c.I.pstack.append([])
    r = fn()
    ps = c.I.pstack.pop()
    for k, site, cond in ps:
        syms = [x for x in cond.fv if x.op == 'sym' and x.a[0] == 'l']
        mp = {}
        vs = []
        for x in syms:
            v = fresh('i', True); vs.append(v); mp[x] = sidx(s, v)
        cc = subst(cond, mp) if mp else cond
        for v in vs: cc = mkany(slen(s), v, cc)
        c.I.panic_at(k, site, cc)
    return r
@it_model('min_by')
def _(c, s): return sym_panics(c, lambda: by_cmp(c, s, cmp_clo(c, c.args[1]), 'min'), s)
@it_model('max_by')
def _(c, s): return sym_panics(c, lambda: by_cmp(c, s, cmp_clo(c, c.args[1]), 'max'), s)
@it_model('min_by_key')
def _(c, s):
    kt = keyty(c)
    return sym_panics(c, lambda: by_cmp(c, s, lambda a, b: cmp_values(c.I, kt, pure_call(c, c.args[1], [a]), pure_call(c, c.args[1], [b])), 'min'), s)
@it_model('max_by_key')
def _(c, s):
    kt = keyty(c)
    return sym_panics(c, lambda: by_cmp(c, s, lambda a, b: cmp_values(c.I, kt, pure_call(c, c.args[1], [a]), pure_call(c, c.args[1], [b])), 'max'), s)
def item_type(c):
    return c.I.P.types[c.I.P.strip(c.dty)]['args'][0]
@it_model('min')
def _(c, s): return by_cmp(c, s, lambda a, b: cmp_values(c.I, item_type(c), a, b), 'min')
@it_model('max')
def _(c, s): return by_cmp(c, s, lambda a, b: cmp_values(c.I, item_type(c), a, b), 'max')

@it_model('unzip')
def _(c, s):
    return tup(smap(s, lambda e: tfield(e, 0, 2)), smap(s, lambda e: tfield(e, 1, 2)))
@it_model('partition')
def _(c, s):
    f = c.args[1]
    cell = {}
    one1 = lambda e, v: ite(asbool(v), elemL(e), L())
    one2 = lambda e, v: ite(asbool(v), L(), elemL(e))
    try:
        a = transform(c, s, f, one1)
        c.I.pstack.append([])
        b = transform(c, s, f, one2)
        c.I.pstack.pop()
    except Effect: return None
    return tup(a, b)

def collect_into(c, s, ti):
    P = c.I.P
    t = P.types[ti]
    p = t.get('path') or ''
    if p == 'std::vec::Vec' or t['k'] == 'slice': return s
    if p == 'std::boxed::Box': return collect_into(c, s, t['args'][0])
    if p in MAPT: return build_map(c, s, p)
    if p in SETT: return build_set(c, s)
    if p == 'std::result::Result':
        bad = first_by(c, s, lambda e, v=None, n=None, g=TRUE: isvar(e, 'std::result::Result', 'Err'), lambda e, j: fld(e, 'Err', '0'))
        good = smap(s, lambda e: fld(e, 'Ok', '0'))
        inner = collect_into(c, good, t['args'][0])
        if inner is None: return None
        return ite(opt_is_none(bad), ok_l(inner), err_l(payload(bad)))
    if p == 'std::option::Option':
        bad = seq_any(c, s, lambda e: opt_is_none(e))
        inner = collect_into(c, smap(s, lambda e: payload(e)), t['args'][0])
        if inner is None: return None
        return ite(bad, NONE, some_l(inner))
    if p == 'std::string::String': return mkn('call', 'concat_text', s)
    return None
@it_model('collect')
def _(c, s): return collect_into(c, s, c.dty)
@it_model('collect_vec', traits=(ITERTOOLS,))
def _(c, s): return s
@it_model('collect_tuple', traits=(ITERTOOLS,))
def _(c, s): return None
@d('std::option::Option::<&T>::copied', 'std::option::Option::<&T>::cloned', 'std::option::Option::<&mut T>::copied', 'std::option::Option::<&mut T>::cloned')
def _(c): return c.val(0) if not any(is_mref(payload(l)) for l in leaves(c.val(0)) if l.op == 'adt' and l.a[1] == 'Some') else None
def itertype(c):
    a = c.I.P.types[c.I.P.strip(c.dty)].get('args') or [None]
    return a[0]
@it_model('sorted', 'sorted_unstable', traits=(ITERTOOLS,))
def _(c, s): return mkit(sort_of(c, s, lambda a, b: cmp_values(c.I, itertype(c), a, b), True, itertype(c)))
@it_model('sorted_by', traits=(ITERTOOLS,))
def _(c, s): return mkit(sort_of(c, s, lambda a, b: c.clo(c.args[1], a, b), True, itertype(c)))
@it_model('sorted_unstable_by', traits=(ITERTOOLS,))
def _(c, s): return mkit(sort_of(c, s, lambda a, b: c.clo(c.args[1], a, b), False, itertype(c)))
@it_model('sorted_by_key', 'sorted_by_cached_key', traits=(ITERTOOLS,))
def _(c, s):
    kt = keyty(c)
    return mkit(sort_of(c, s, lambda a, b: cmp_values(c.I, kt, c.clo(c.args[1], a), c.clo(c.args[1], b)), True, itertype(c))) if kt is not None else None
@it_model('unique', traits=(ITERTOOLS,))
def _(c, s):
    # without the elements that are the same as an earlier one
    def go(x):
        if x.op == 'seq' and len(x.a) <= 1: return x
        v = fresh('i', True)
        return mkcomp(slen(x), v, ite(asbool(seq_any(c, sslice(x, I0, v), lambda e: eqv(e, sidx(x, v)))), L(), elemL(sidx(x, v))))
    return mkit(mapleaves(go, s))
@it_model('dedup', traits=(ITERTOOLS,))
def _(c, s):
    r = dedup_of(c, s, lambda a, b: eqv(a, b), None)
    return None if r is None else mkit(r)
@it_model('dedup_by', traits=(ITERTOOLS,))
def _(c, s):
    r = dedup_of(c, s, lambda a, b: c.clo(c.args[1], a, b), None)
    return None if r is None else mkit(r)
@m('std::iter::FromIterator', 'from_iter')
def _(c):
    s = as_seq(c, c.args[0], c.tys[0])
    return None if s is None else collect_into(c, s, c.dty)
@m('indicatif::ProgressIterator', 'progress', 'progress_with', 'progress_count')
def _(c): return c.args[0]
@d('std::iter::once', 'core::iter::once')
def _(c): return mkit(seq(c.args[0]))
@d('std::iter::empty')
def _(c): return mkit(seq())
@d('std::iter::repeat_n')
def _(c):
    v = fresh('i', True)
    return mkit(mkcomp(c.val(1), v, elemL(c.val(0))))
@d('std::slice::from_ref')
def _(c): return seq(c.val(0))
@d('core::array::<impl [T; N]>::map', 'std::array::<impl [T; N]>::map')
def _(c):
    t = c.I.P.types[c.inner(0)]
    return map_seq(c, expand_array(c.val(0), t['len']), c.args[1])
@d('core::array::<impl [T; N]>::iter')
def _(c): return mkit(as_seq(c, c.val(0), c.tys[0]))
@d('std::array::from_fn', 'core::array::from_fn')
def _(c):
    t = c.I.P.types[c.dty]
    return seq(*[pure_call(c, c.args[0], [inum(i)]) for i in range(t['len'])])
@d(OPT + 'iter')
def _(c):
    v = c.val(0)
    return mkit(ite(opt_is_none(v), seq(), lift('one', lambda x: seq(x), (payload(v),))))
@d('std::array::<impl std::convert::TryFrom<&[T]> for [T; N]>::try_from')
def _(c):
    t = c.I.P.types[c.dty]
    at = c.I.P.types[t['args'][0]]
    n = at['len']
    s = c.val(0)
    okc = ieq(slen(s), inum(n))
    return ite(okc, ok_l(seq(*[sidx(s, inum(i)) for i in range(n)]) if n <= 64 else s), err_l(mkn('call', 'TryFromSliceError')))

# `?` in functions analysed for any type (elsewhere the bodies of the library are used)
@m('std::ops::Try', 'branch')
def _branch(c):
    if (c.callee.get('res') or {}).get('sym') in c.I.P.fns: return None
    t = c.I.P.types[c.tys[0]].get('path'); v = c.val(0); C = 'std::ops::ControlFlow'
    if t == 'std::result::Result': return ite(isvar(v, t, 'Ok'), adt(C, 'Continue', {'0': fld(v, 'Ok', '0')}), adt(C, 'Break', {'0': err_l(fld(v, 'Err', '0'))}))
    if t == 'std::option::Option': return ite(opt_is_none(v), adt(C, 'Break', {'0': NONE}), adt(C, 'Continue', {'0': payload(v)}))
    return None
@m('std::ops::FromResidual', 'from_residual')
def _residual(c):
    if (c.callee.get('res') or {}).get('sym') in c.I.P.fns: return None
    P = c.I.P
    a, b = P.types[c.tys[0]], P.types[c.dty]
    if a.get('path') != b.get('path'): return None
    if b.get('path') == 'std::option::Option': return NONE
    if b.get('path') == 'std::result::Result' and P.types[a['args'][1]]['s'] == P.types[b['args'][1]]['s']: return err_l(fld(c.val(0), 'Err', '0'))
    return None

# ------------------------------------------------------------------ maps
def entries(mm, p=''):
    tag = ('h',) if T.HASHTAG[0] and 'Hash' in p else ()
    def go(x):
        if x.op == 'mempty': return seq()
        if x.op == 'mfold':
            f = T.mmapped(x)
            if f is not None: return smap(go(x.a[2]), lambda e: tup(tfield(e, 0, 2), f(tfield(e, 0, 2), tfield(e, 1, 2))))
        return mkn('entries', x, *tag)
    return lift(('entries', tag), go, (mm,))
def mkeys(mm, p=''): return smap(entries(mm, p), lambda e: tfield(e, 0, 2))
def mvals(mm, p=''): return smap(entries(mm, p), lambda e: tfield(e, 1, 2))

def build_map(c, s, path, start=None):
    """map collected from a sequence of pairs (later pairs win)"""
    I = c.I
    acc = start if start is not None else MEMPTY
    def run(x, acc):
        if x.op == 'seq':
            for e in x.a: acc = lift_mset(acc, tfield(e, 0, 2), tfield(e, 1, 2))
            return acc
        if x.op == 'cat':
            for q in x.a: acc = run(q, acc)
            return acc
        n, v, body = view(x)
        if has_splat(body): return mkn('call', 'mapfrom', acc, x)
        xs = fresh('m')
        def leaf(l):
            r = xs
            for e in l.a: r = mset(r, tfield(e, 0, 2), tfield(e, 1, 2))
            return r
        nx = mapleaves(leaf, body)
        lv = 1 + max(nx.h, acc.h)
        bk = mkn('bv', lv); T.NONNEG.add(bk)
        return mapleaves(lambda nn: mkn('mfold', lv, nn, acc, subst(nx, {v: bk, xs: mkn('bv', lv, 0)})), n)
    return mapleaves(lambda q: run(q, acc), s)
def lift_mset(mm, k, v):
    return lift('lmset', lambda a, b, e: mset(a, b, e), (mm, k, v))
def build_set(c, s, start=None):
    return build_map(c, smap(s, lambda e: tup(e, UNIT)), None, start)

for P_ in HM:
    DEFS[P_ + 'new'] = lambda c: MEMPTY
    DEFS[P_ + 'with_capacity'] = lambda c: MEMPTY
    def _insert(c):
        k, v = c.val(1), c.args[2]
        o = c.load()
        r = mlookup(o, k)
        c.store(lift_mset(o, k, v)); return r
    DEFS[P_ + 'insert'] = _insert
    DEFS[P_ + 'get'] = lambda c: mlookup(c.val(0), c.val(1))
    DEFS[P_ + 'contains_key'] = lambda c: mhas(c.val(0), c.val(1))
    def _getmut(c):
        k = c.val(1); o = c.load()
        return ite(mhas(o, k), some_l(mapleaves(lambda l: mkn('mref', l.a[0], path_add(l.a[1], mkn('pk', k))), c.args[0])), NONE)
    DEFS[P_ + 'get_mut'] = _getmut
    def _remove(c):
        o = c.load(); k = c.val(1)
        r = mlookup(o, k)
        c.store(lift('mdel', lambda a, b: mkn('mdel', a, b), (o, k))); return r
    DEFS[P_ + 'remove'] = _remove
    DEFS[P_ + 'len'] = lambda c: mlen(c.val(0))
    DEFS[P_ + 'is_empty'] = lambda c: ieq0(mlen(c.val(0)))
    DEFS[P_ + 'keys'] = lambda c, p=P_: mkit(mkeys(c.val(0), p))
    DEFS[P_ + 'into_keys'] = DEFS[P_ + 'keys']
    DEFS[P_ + 'values'] = lambda c, p=P_: mkit(mvals(c.val(0), p))
    DEFS[P_ + 'into_values'] = DEFS[P_ + 'values']
    DEFS[P_ + 'iter'] = lambda c, p=P_: mkit(entries(c.val(0), p))
    DEFS[P_ + 'iter_mut'] = lambda c, p=P_: mkit(mut_entries(c, c.args[0], c.val(0), p, 1)) if is_mref(c.args[0]) else None
    DEFS[P_ + 'values_mut'] = lambda c, p=P_: mkit(mut_entries(c, c.args[0], c.val(0), p, 0)) if is_mref(c.args[0]) else None
    DEFS[P_ + 'clear'] = lambda c: (c.store(MEMPTY), UNIT)[1]
    def _entry(c):
        return mkn('entry', c.args[0], c.val(1))
    DEFS[P_ + 'entry'] = _entry
    def _getkv(c):
        k = c.val(1); o = c.val(0)
        return ite(mhas(o, k), some_l(tup(k, mget(o, k))), NONE)
    DEFS[P_ + 'get_key_value'] = _getkv
def mlen(mm):
    def go(x):
        r = slen(entries(x))
        return r
    return mapleaves(go, mm)

def entry_or(c, default):
    e = c.args[0]
    if e.op != 'entry': return None
    r, k = e.a
    if not is_mref(r): return None
    I = c.I
    mm = I.load_ref(r, c.st)
    has = mhas(mm, k)
    dv = default()
    I.store_ref(r, ite(has, mm, lift_mset(mm, k, dv)), c.st)
    return mapleaves(lambda l: mkn('mref', l.a[0], path_add(l.a[1], mkn('pk', k))), r)
for P_ in ("std::collections::hash_map::Entry::<'a, K, V>::", "std::collections::hash_map::Entry::<'a, K, V, A>::", "std::collections::btree_map::Entry::<'a, K, V, A>::", "std::collections::btree_map::Entry::<'a, K, V>::"):
    DEFS[P_ + 'or_insert'] = lambda c: entry_or(c, lambda: c.args[1])
    DEFS[P_ + 'or_insert_with'] = lambda c: entry_or(c, lambda: pure_call(c, c.args[1], []))
    DEFS[P_ + 'or_default'] = lambda c: entry_or(c, lambda: default_of(c.I, c.inner_of_dest()) if hasattr(c, 'inner_of_dest') else default_of(c.I, c.I.P.strip(c.dty)))
    def _and_modify(c):
        e = c.args[0]
        if e.op != 'entry': return None
        r, k = e.a
        mm = c.I.load_ref(r, c.st)
        has = mhas(mm, k)
        rr = mapleaves(lambda l: mkn('mref', l.a[0], path_add(l.a[1], mkn('pk', k))), r)
        before = dict(c.st)
        c.I.call_value(c.args[1], [rr], c.st, AND(c.pc, has), c.fr)
        for q in list(c.st):
            if q in before and c.st[q] is not before[q]: c.st[q] = ite(has, c.st[q], before[q])
        return e
    DEFS[P_ + 'and_modify'] = _and_modify
for P_ in HS:
    DEFS[P_ + 'new'] = lambda c: MEMPTY
    DEFS[P_ + 'with_capacity'] = lambda c: MEMPTY
    def _sinsert(c):
        o = c.load(); k = c.val(1)
        r = NOT(mhas(o, k))
        c.store(lift_mset(o, k, UNIT)); return r
    DEFS[P_ + 'insert'] = _sinsert
    DEFS[P_ + 'contains'] = lambda c: mhas(c.val(0), c.val(1))
    DEFS[P_ + 'len'] = lambda c: mlen(c.val(0))
    DEFS[P_ + 'is_empty'] = lambda c: ieq0(mlen(c.val(0)))
    DEFS[P_ + 'iter'] = lambda c, p=P_: mkit(mkeys(c.val(0), p))

@it_model('into_group_map', traits=(ITERTOOLS,))
def _(c, s):
    def run(x, acc):
        if x.op == 'seq':
            for e in x.a:
                k = tfield(e, 0, 2)
                acc = lift_mset(acc, k, cat(ite(mhas(acc, k), mget(acc, k), seq()), seq(tfield(e, 1, 2))))
            return acc
        if x.op == 'cat':
            for q in x.a: acc = run(q, acc)
            return acc
        n, v, body = view(x)
        if has_splat(body): return mkn('call', 'groupmap', acc, x)
        xs = fresh('m')
        def leaf(l):
            r = xs
            for e in l.a:
                k = tfield(e, 0, 2)
                r = mset(r, k, cat(ite(mhas(r, k), mget(r, k), seq()), seq(tfield(e, 1, 2))))
            return r
        nx = mapleaves(leaf, body)
        lv = 1 + max(nx.h, acc.h)
        bk = mkn('bv', lv); T.NONNEG.add(bk)
        return mapleaves(lambda nn: mkn('mfold', lv, nn, acc, subst(nx, {v: bk, xs: mkn('bv', lv, 0)})), n)
    return mapleaves(lambda q: run(q, MEMPTY), s)

# ------------------------------------------------------------------ numbers
def f1(name, fnc):
    for p in F64: DEFS[p + name] = fnc
f1('abs', lambda c: fabs(c.val(0)))
f1('max', lambda c: fmax2(c.val(0), c.val(1)))
f1('min', lambda c: fmin2(c.val(0), c.val(1)))
f1('sqrt', lambda c: fsqrt(c.val(0)))
f1('mul_add', lambda c: fadd(fmul(c.val(0), c.val(1)), c.val(2)))
f1('recip', lambda c: fdiv(F1, c.val(0)))
f1('hypot', lambda c: fsqrt(fadd(fmul(c.val(0), c.val(0)), fmul(c.val(1), c.val(1)))))
f1('clamp', lambda c: fmin2(fmax2(c.val(0), c.val(1)), c.val(2)))
f1('to_radians', lambda c: fmul(c.val(0), fdiv(mkpi(), fnum(180))))
f1('to_degrees', lambda c: fdiv(fmul(c.val(0), fnum(180)), mkpi()))
f1('is_nan', lambda c: lift('isnan', lambda x: FALSE if x.op == 'num' else (TRUE if x.op == 'fconst' and x.a[0] == 'nan' else B(mkn('nan', x))), (c.val(0),)))
f1('total_cmp', lambda c: ocmp(c.val(0), c.val(1), 'f'))
DEFS['core::f32::<impl f32>::total_cmp'] = DEFS['std::f32::<impl f32>::total_cmp'] = lambda c: ocmp(c.val(0), c.val(1), 'f')
for n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'ln', 'round', 'floor', 'ceil', 'trunc', 'signum', 'fract', 'cbrt', 'log10', 'exp2'):
    f1(n, (lambda n: lambda c: fn(n, c.val(0)))(n))
f1('atan2', lambda c: fn('atan2', c.val(0), c.val(1)))
f1('rem_euclid', lambda c: fn('rem_euclid', c.val(0), c.val(1)))
f1('is_finite', lambda c: lift('isfin', lambda x: TRUE if x.op == 'num' else B(mkn('finite', x)), (c.val(0),)))
f1('is_infinite', lambda c: lift('isinf', lambda x: FALSE if x.op == 'num' else B(mkn('infinite', x)), (c.val(0),)))
f1('copysign', lambda c: fn('copysign', c.val(0), c.val(1)))
def _powi(c):
    e = c.val(1)
    if e.op != 'num' or abs(e.a[1]) > 16: return fn('powi', c.val(0), e)
    return fpowi(c.val(0), int(e.a[1]))
f1('powi', _powi)
def _powf(c):
    e = c.val(1)
    if e.op == 'num' and e.a[1].denominator == 1 and abs(e.a[1]) <= 16: return fpowi(c.val(0), int(e.a[1]))
    if e.op == 'num' and e.a[1] == Fraction(1, 2): return fsqrt(c.val(0))
    return fn('powf', c.val(0), e)
f1('powf', _powf)
import math
def mkpi(): return fnum(Fraction(math.pi))

for ty in ('usize', 'u64', 'u32', 'u8', 'u16', 'i64', 'i32', 'isize', 'u128', 'i128'):
    p = 'core::num::<impl %s>::' % ty
    uns = ty[0] == 'u'
    DEFS[p + 'abs'] = lambda c: iabs(c.val(0))
    DEFS[p + 'pow'] = lambda c: None
    if uns:
        DEFS[p + 'saturating_sub'] = lambda c: imax2(I0, isub(c.val(0), c.val(1)))
        DEFS[p + 'checked_sub'] = lambda c: (lambda dd: ite(ilt0(dd), NONE, some_l(dd)))(isub(c.val(0), c.val(1)))
        DEFS[p + 'abs_diff'] = lambda c: iabs(isub(c.val(0), c.val(1)))
    else:
        DEFS[p + 'abs_diff'] = lambda c: iabs(isub(c.val(0), c.val(1)))
        DEFS[p + 'unsigned_abs'] = lambda c: iabs(c.val(0))
    DEFS[p + 'saturating_add'] = lambda c: iadd(c.val(0), c.val(1))
    DEFS[p + 'wrapping_add'] = lambda c: iadd(c.val(0), c.val(1))
    DEFS[p + 'checked_add'] = lambda c: some_l(iadd(c.val(0), c.val(1)))
    DEFS[p + 'is_multiple_of'] = lambda c: ieq0(c.I.irem(c.val(0), c.val(1)))

def arith(c, fop, iop):
    k = c.I.kind(c.inner(0))
    if k == 'f': return fop(c.val(0), c.val(1))
    if k == 'i': return iop(c.val(0), c.val(1))
    return None
OPS = {'Add': ('add', fadd, iadd), 'Sub': ('sub', fsub, isub), 'Mul': ('mul', fmul, imul)}
def binmodel(name):
    meth, fop, iop = OPS[name]
    def g(c):
        t0, t1 = c.I.P.types[c.inner(0)], c.I.P.types[c.inner(1)]
        if (t0.get('path') or '').startswith('nalgebra') or (t1.get('path') or '').startswith('nalgebra'): return mat_arith(c, name)
        return arith(c, fop, iop)
    return g
for n in OPS: METH[('std::ops::' + n, OPS[n][0])] = userdef(binmodel(n))
def _div(c):
    if c.I.kind(c.inner(0)) == 'f': return fdiv(c.val(0), c.val(1))
    if c.I.kind(c.inner(0)) == 'i': 
        c.panic('div', ieq0(c.val(1)))
        return c.I.idiv(c.val(0), c.val(1))
    if (c.I.P.types[c.inner(0)].get('path') or '').startswith('nalgebra'):
        x = c.val(1)
        return mat_map(c.val(0), lambda e: fdiv(e, x))
    return None
METH[('std::ops::Div', 'div')] = userdef(_div)
def _neg(c):
    k = c.I.kind(c.inner(0))
    if k == 'f': return fneg(c.val(0))
    if k == 'i': return ineg(c.val(0))
    return mat_map(c.val(0), fneg) if c.val(0).op == 'mat' else None
METH[('std::ops::Neg', 'neg')] = userdef(_neg)
METH[('std::ops::Not', 'not')] = userdef(lambda c: NOT(asbool(c.val(0))) if c.I.kind(c.inner(0)) == 'b' else None)
for n, (fo, io) in {'AddAssign': (fadd, iadd), 'SubAssign': (fsub, isub), 'MulAssign': (fmul, imul), 'DivAssign': (fdiv, None)}.items():
    def mk2(fo, io, n):
        def g(c):
            k = c.I.kind(c.inner(0))
            if k == 'f': c.store(fo(c.load(), c.val(1))); return UNIT
            if k == 'i' and io: c.store(io(c.load(), c.val(1))); return UNIT
            return None
        return userdef(g)
    METH[('std::ops::' + n, {'AddAssign': 'add_assign', 'SubAssign': 'sub_assign', 'MulAssign': 'mul_assign', 'DivAssign': 'div_assign'}[n])] = mk2(fo, io, n)

# ------------------------------------------------------------------ nalgebra
def mat(r, cc, es): return mkn('mat', r, cc, tuple(es))
def is_mat(x): return x.op == 'mat'
def mat_map(x, f):
    if x.op != 'mat': return None
    return mat(x.a[0], x.a[1], [f(e) for e in x.a[2]])
def mat_dims(c, ti):
    """dimensions from the printed type, e.g. Matrix<f64, Const<3>, Const<3>, ..>"""
    import re
    s = c.I.P.types[c.I.P.strip(ti)]['s']
    g = re.findall(r'Const<(\d+)', s)
    if len(g) >= 2: return int(g[0]), int(g[1])
    return None
def as_mat(c, x, ti):
    if x.op == 'mat': return x
    return None
def mat_new(c):
    dm = mat_dims(c, c.dty)
    if dm is None or len(c.args) != dm[0] * dm[1]: return None
    return mat(dm[0], dm[1], [c.val(i) for i in range(len(c.args))])
def mat_arith(c, name):
    a, b = c.val(0), c.val(1)
    if name in ('Add', 'Sub') and a.op == 'mat' and b.op == 'mat' and a.a[:2] == b.a[:2]:
        f = fadd if name == 'Add' else fsub
        return mat(a.a[0], a.a[1], [f(x, y) for x, y in zip(a.a[2], b.a[2])])
    if name == 'Mul':
        if a.op == 'mat' and b.op == 'mat' and a.a[1] == b.a[0]:
            n, k, w = a.a[0], a.a[1], b.a[1]
            out = []
            for i in range(n):
                for j in range(w):
                    s = F0
                    for q in range(k): s = fadd(s, fmul(a.a[2][i * k + q], b.a[2][q * w + j]))
                    out.append(s)
            return mat(n, w, out)
        if a.op == 'mat' and c.I.kind(c.inner(1)) == 'f': return mat_map(a, lambda e: fmul(e, b))
        if b.op == 'mat' and c.I.kind(c.inner(0)) == 'f': return mat_map(b, lambda e: fmul(a, e))
    return None
def mat_index(c, s, i, it):
    if s.op != 'mat': return None
    r, w, es = s.a
    if i.op == 'tup':
        a, b = i.a
        if a.op == 'num' and b.op == 'num':
            if a.a[1] >= r or b.a[1] >= w: c.panic('index', TRUE); return BOT
            return es[int(a.a[1]) * w + int(b.a[1])]
        rows = mkn('seq', *[mkn('seq', *es[q * w:(q + 1) * w]) for q in range(r)])
        return None
    if i.op == 'num':
        k = int(i.a[1])
        if k >= r * w: c.panic('index', TRUE); return BOT
        # linear indices are column-major
        return es[(k % r) * w + k // r]
    return None
def nal(c):
    dd = c.callee['def']
    name = c.callee['name']
    if name == 'new': return mat_new(c)
    if name == 'transpose':
        a = c.val(0)
        if a.op != 'mat': return None
        r, w, es = a.a
        return mat(w, r, [es[i * w + j] for j in range(w) for i in range(r)])
    if name == 'row':
        a, i = c.val(0), c.val(1)
        if a.op != 'mat' or i.op != 'num': return None
        w = a.a[1]
        return mat(1, w, a.a[2][int(i.a[1]) * w:(int(i.a[1]) + 1) * w])
    if name == 'column':
        a, i = c.val(0), c.val(1)
        if a.op != 'mat' or i.op != 'num': return None
        r, w, es = a.a
        return mat(r, 1, [es[q * w + int(i.a[1])] for q in range(r)])
    if name == 'row_iter':
        a = c.val(0)
        if a.op != 'mat': return None
        w = a.a[1]
        return mkit(mkn('seq', *[mat(1, w, a.a[2][q * w:(q + 1) * w]) for q in range(a.a[0])]))
    if name == 'from_row_slice':
        dm = mat_dims(c, c.dty)
        s = c.val(0)
        if dm and s.op == 'seq' and len(s.a) == dm[0] * dm[1]: return mat(dm[0], dm[1], s.a)
        if dm and s in T.ARRLEN and T.ARRLEN[s] == dm[0] * dm[1]: return mat(dm[0], dm[1], [aidx(s, i, T.ARRLEN[s]) for i in range(T.ARRLEN[s])])
        return None
    if name == 'zeros':
        dm = mat_dims(c, c.dty)
        return mat(dm[0], dm[1], [F0] * (dm[0] * dm[1])) if dm else None
    if name == 'identity':
        dm = mat_dims(c, c.dty)
        return mat(dm[0], dm[1], [F1 if i == j else F0 for i in range(dm[0]) for j in range(dm[1])]) if dm else None
    if name == 'dot':
        a, b = c.val(0), c.val(1)
        if a.op == 'mat' and b.op == 'mat' and len(a.a[2]) == len(b.a[2]):
            s = F0
            for x, y in zip(a.a[2], b.a[2]): s = fadd(s, fmul(x, y))
            return s
    if name == 'norm':
        a = c.val(0)
        if a.op == 'mat':
            s = F0
            for x in a.a[2]: s = fadd(s, fmul(x, x))
            return fsqrt(s)
    if name in ('iter',):
        a = c.val(0)
        if a.op == 'mat':
            r, w, es = a.a
            return mkit(mkn('seq', *[es[i * w + j] for j in range(w) for i in range(r)]))
    return None

_find0 = find
def find(I, callee, res):
    f = _find0(I, callee, res)
    if f is not None: return f
    dd = callee['def']
    if dd.startswith('nalgebra::') and not callee.get('trait'): return nal
    return None

# ------------------------------------------------------------------ geo
@d('geo::BooleanOps::intersection')
def _(c):
    a, b = c.val(0), c.val(1)
    # the intersection of two polygons does not depend on their order
    def go(x, y):
        x, y = srt(x, y)
        return mkn('call', 'geo::intersection', x, y)
    return lift('geoint', go, (a, b))
METH[('geo::BooleanOps', 'intersection')] = DEFS['geo::BooleanOps::intersection']
@d('geo::LineString::<T>::new', '<geo::LineString<T> as std::convert::From<std::vec::Vec<IC>>>::from')
def _(c): return mkn('call', 'geo::LineString', c.val(0))
METH[('geo::Area', 'unsigned_area')] = lambda c: lift('geoarea', lambda x: mkn('call', 'geo::unsigned_area', x), (c.val(0),))

# ------------------------------------------------------------------ logging (no effect on any result)
@d('log::__private_api::log')
def _(c): return UNIT
@d('log::__private_api::loc')
def _(c): return UNIT
@d('log::max_level')
def _(c): return mkn('call', 'log::max_level')
@d('log::__private_api::enabled')
def _(c): return B(mkn('call', 'log_enabled'))
METH[('log::Log', 'log')] = lambda c: UNIT

# ------------------------------------------------------------------ files and paths
@d('std::path::Path::join')
def _(c): return pjoin(c.val(0), c.val(1))
def pjoin(a, b):
    def go(x, y):
        if y.op == 'str':
            # the components of a literal relative path
            t = y.a[0]
            if '/' in t and not t.startswith('/'):
                for k in t.split('/'):
                    if k not in ('', '.'): x = mkn('call', 'join', x, strc(k))
                return x
        return mkn('call', 'join', x, y)
    return lift('join', go, (a, b))
@d('std::path::PathBuf::push')
def _(c): c.store(pjoin(c.load(), c.val(1))); return UNIT
@d('std::path::PathBuf::new')
def _(c): return strc('')
@d('std::io::BufReader::<R>::new', 'std::io::BufReader::<R>::with_capacity')
def _(c): return c.args[-1] if is_mref(c.args[-1]) else c.val(len(c.args) - 1)

def derived(c, f):
    """derived trait methods that are not modelled by trait"""
    return None
