"""The dumped program: types, functions, control-flow graphs, loops, liveness."""
import json, gzip
from terms import VARIANTS

class Fn:
    def __init__(self, rec):
        self.rec = rec
        self.sym = rec['sym']
        self.blocks = rec['blocks']
        self._cfg = False
    def __repr__(self): return 'Fn(%s)' % self.sym

    # ---- control flow
    def succs(self, b):
        t = self.blocks[b]['t']
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == 'drop': return [t[1]]
        if k == 'call': return [t[4]] if t[4] is not None else []
        if k == 'assert': return [t[4]]
        return []

    def cfg(self):
        if self._cfg: return
        self._cfg = True
        n = len(self.blocks)
        self.succ = {}
        seen = {0}; st = [0]
        while st:
            b = st.pop()
            ss = []
            for s in self.succs(b):
                if self.blocks[s]['t'][0] == 'unreachable' and not self.blocks[s]['s'] and False: continue
                if s not in ss: ss.append(s)
                if s not in seen: seen.add(s); st.append(s)
            self.succ[b] = ss
        self.pred = {b: [] for b in seen}
        for b in seen:
            for s in self.succ[b]: self.pred[s].append(b)
        # rpo
        order = []; state = {}
        stack = [(0, iter(self.succ[0]))]; state[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in state:
                    state[s] = 1; stack.append((s, iter(self.succ[s]))); break
            else:
                order.append(b); stack.pop()
        order.reverse()
        idx = {b: i for i, b in enumerate(order)}
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]: x = idom[x]
                                while idx[y] > idx[x]: y = idom[y]
                            new = x
                if idom.get(b) != new: idom[b] = new; ch = True
        self.idom = idom
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        self.loops = {}
        self.irreducible = False
        back = set()
        for b in order:
            for s in self.succ[b]:
                if dom(s, b):
                    back.add((b, s))
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x)
                        st.extend(self.pred[x])
                elif idx[s] <= idx[b]: self.irreducible = True
        # topological order of the graph without back edges
        indeg = {b: 0 for b in order}
        for b in order:
            for s in self.succ[b]:
                if (b, s) not in back: indeg[s] += 1
        topo = []; ready = [0]
        while ready:
            b = ready.pop()
            topo.append(b)
            for s in self.succ[b]:
                if (b, s) in back: continue
                indeg[s] -= 1
                if indeg[s] == 0: ready.append(s)
        # loop blocks need not be contiguous: process by topological number
        self.topo = {b: i for i, b in enumerate(topo)}
        # innermost loop parent
        self.back = back
        self._liveness(order)

    def _liveness(self, order):
        use = {}; dfn = {}
        taken = set()
        def place_use(p, u, d, write):
            base = p[0]
            for e in p[1]:
                if e[0] == 'i' and e[1] not in d: u.add(e[1])
            if write and not p[1]:
                return base
            if base not in d: u.add(base)
            return None
        def operand(o, u, d):
            if o[0] in ('c', 'm'): place_use(o[1], u, d, False)
        def rvalue(r, u, d):
            k = r[0]
            if k in ('ref', 'rawptr'):
                if r[1] in ('mut', 'fake') or k == 'rawptr':
                    if not any(e[0] == '*' for e in r[2][1]): taken.add(r[2][0])
                place_use(r[2], u, d, False)
            elif k == 'discr': place_use(r[1], u, d, False)
            elif k == 'agg':
                for o in r[4]: operand(o, u, d)
            elif k in ('use', 'repeat'): operand(r[1], u, d)
            elif k == 'cast': operand(r[2], u, d)
            elif k == 'bin': operand(r[2], u, d); operand(r[3], u, d)
            elif k == 'un': operand(r[2], u, d)
        for b in order:
            u = set(); d = set()
            for s in self.blocks[b]['s']:
                if s[0] == '=':
                    rvalue(s[2], u, d)
                    w = place_use(s[1], u, d, True)
                    if w is not None: d.add(w)
                else:
                    place_use(s[1], u, d, False)
            t = self.blocks[b]['t']
            if t[0] == 'switch': operand(t[1], u, d)
            elif t[0] == 'assert': operand(t[1], u, d)
            elif t[0] == 'return': 
                if 0 not in d: u.add(0)
            elif t[0] == 'call':
                if 'ptr' in t[1]: operand(t[1]['ptr'], u, d)
                for o in t[2]: operand(o[0], u, d)
                w = place_use(t[3], u, d, True)
                if w is not None: d.add(w)
            use[b] = u; dfn[b] = d
        live = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set()
                for s in self.succ[b]: out |= live[s]
                n = use[b] | (out - dfn[b])
                if n != live[b]: live[b] = n; ch = True
        self.live = live
        self.taken = taken

class Prog:
    def generic(self, d): return self.gendef.get(d)
    def anyinst(self, d):
        for f in self.fns.values():
            if f.rec['def'] == d: return f
        return None
    def __init__(self, path, label=''):
        op = gzip.open if path.endswith('.gz') else open
        with op(path, 'rt') as f: d = json.load(f)
        self.d = d
        self.label = label
        self.types = d['types']
        self.adts = {a['path']: a for a in d['adts']}
        self.fns = {}
        self.gen = {}
        self.bydp = {}
        for r in d['fns']:
            if r['generic']: self.gen.setdefault(r['sym'], Fn(r))
            else: self.fns.setdefault(r['sym'], Fn(r))
            if r.get('dp'): self.bydp.setdefault(r['dp'], []).append(r)
        self.gendef = {}
        for f in self.gen.values():
            if f.rec['local']: self.gendef.setdefault(f.rec['def'], f)
        for a in d['adts']:
            if a['enum']:
                VARIANTS[a['path']] = [v['name'] for v in a['variants']]
        self.bystr = {}
        for i, t in enumerate(self.types): self.bystr.setdefault(t['s'], i)
        self.impls = {}
        self.derived = set()
        for im in d['impls']:
            if im.get('trait'):
                s = self.types[im['self']]['s']
                self.impls.setdefault((im['trait'], im['self']), []).append(im)
                if im['derived']: self.derived.add((im['trait'], im['self']))
        self.traitself = {}
        for im in d['impls']:
            if im.get('trait'):
                self.traitself.setdefault((im['trait'], self.types[im['self']].get('path') or self.types[im['self']]['s']), []).append(im)

    def ty(self, i): return self.types[i]
    def strip(self, i):
        """through references and boxes"""
        while True:
            t = self.types[i]
            if t['k'] in ('ref', 'mut', 'raw'): i = t['args'][0]
            elif t['k'] == 'adt' and t['path'] in ('std::boxed::Box', 'alloc::boxed::Box'): i = t['args'][0]
            else: return i
