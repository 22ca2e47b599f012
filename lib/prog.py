"""Loads the extracted program (MIR of both workspace crates) and offers CFG utilities."""
import json, os
import names

CRATES = ('hyper_ir_lsp', 'bin')


class Body:
    __slots__ = ('d', 'crate', 'key', 'path', 'blocks', 'argc', 'locals', 'prog', '_cfg', 'promoted_of', 'idx')

    def __init__(self, prog, crate, d, key=None, path=None):
        self.prog, self.crate, self.d = prog, crate, d
        self.key = key or d['key']
        self.path = path or d['path']
        self.blocks = d['blocks']
        self.argc = d['argc']
        self.locals = d['locals']
        self._cfg = None

    def ty(self, i):
        return self.crate['types'][i]

    def local_ty(self, l):
        return self.crate['types'][self.locals[l]]

    def span(self, b=None):
        sp = self.d.get('span') if b is None else self.blocks[b]['sp']
        return sp

    @property
    def file(self):
        sp = self.d.get('span')
        return sp[0] if sp else '?'

    def succs(self, b):
        t = self.blocks[b]['t']
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch':
            r = [x[1] for x in t[2]]
            if t[3] not in r: r.append(t[3])
            return r
        if k == 'drop': return [t[2]]
        if k == 'call': return [] if t[4] is None else [t[4]]
        if k == 'assert': return [t[4]]
        if k == 'yield': return [t[2]]
        return []

    def cfg(self):
        if self._cfg is None: self._cfg = CFG(self)
        return self._cfg

    def varname(self, l):
        for n, p, a in self.d['dbg']:
            if p['l'] == l and not p['p']: return n
        return None


class CFG:
    """Reverse postorder, dominators, postdominators and natural loops of the non-unwind CFG."""

    def __init__(self, body):
        n = len(body.blocks)
        self.succ = [body.succs(b) for b in range(n)]
        # 'unreachable' targets do not count
        self.dead = {b for b in range(n) if body.blocks[b]['t'][0] == 'unreachable'}
        self.succ = [[s for s in ss if s not in self.dead] for ss in self.succ]
        seen, order = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        self.num = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]: self.pred[s].append(b)
        self.idom = self._dom(self.rpo, self.pred, 0)
        self.back = [(b, s) for b in self.rpo for s in self.succ[b] if self.dominates(s, b)]
        self.loops = {}
        for b, h in self.back:
            L = self.loops.setdefault(h, {h})
            st = [b]
            while st:
                x = st.pop()
                if x in L: continue
                L.add(x)
                st.extend(self.pred[x])
        # postdominators over normal returns
        exits = [b for b in self.rpo if body.blocks[b]['t'][0] == 'return']
        V = -1
        rsucc = {b: list(self.pred[b]) for b in self.rpo}
        rpred = {b: list(self.succ[b]) for b in self.rpo}
        rsucc[V] = exits
        for e in exits: rpred[e] = rpred[e] + [V]
        seen, order = {V}, []
        stack = [(V, iter(rsucc[V]))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(rsucc[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        self.ipdom = self._dom(rpo, {b: [p for p in rpred.get(b, []) if p in seen] for b in rpo}, V)

    @staticmethod
    def _dom(rpo, pred, root):
        num = {b: i for i, b in enumerate(rpo)}
        idom = {root: root}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == root: continue
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]: x = idom[x]
                                while num[y] > num[x]: y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        return idom

    def dominates(self, a, b):
        if b not in self.idom: return False
        while True:
            if a == b: return True
            if self.idom[b] == b: return False
            b = self.idom[b]

    def postdominates(self, a, b):
        if b not in self.ipdom: return False
        while True:
            if a == b: return True
            if self.ipdom[b] == b: return False
            b = self.ipdom[b]


class Prog:
    def __init__(self, d):
        self.crates = {}
        self.bodies = {}
        self.bypath = {}
        self.adts = {}
        self.impls = []
        js = {c: json.load(open(os.path.join(d, c + '.json'))) for c in CRATES}
        self.names = names.Names(js.values())
        for c in CRATES:
            j = js[c]
            if self.names.needed(): j = self.names.apply(j)
            self.crates[c] = j
            for b in j['bodies']:
                B = Body(self, j, b)
                self.bodies[B.key] = B
                self.bypath.setdefault(B.path, B)
            for k, v in j['adts'].items():
                if v and (k not in self.adts or v.get('local')): self.adts[k] = v
            self.impls += [dict(i, crate=c) for i in j['impls']]
        self._prom = {}

    def get(self, path):
        return self.bypath.get(path)

    def promoted(self, key, i):
        k = (key, i)
        if k not in self._prom:
            B = self.bodies[key]
            d = B.d['promoted'][i]
            self._prom[k] = Body(self, B.crate, d, '%s::promoted[%d]' % (key, i), '%s::promoted[%d]' % (B.path, i))
        return self._prom[k]

    def variants(self, adt):
        a = self.adts.get(adt)
        return [v['name'] for v in a['variants']] if a else None

    def closures_of(self, key):
        return [b for k, b in self.bodies.items() if k.startswith(key + '::{closure')]
