"""Which locks may be held at each point: ownership dataflow over MIR (a guard is held from the assignment of a value which
contains it until that value is moved away, dropped or dead), with summaries of the lock operations a call can reach."""
import re
import calls
from prog import Body

GUARD = re.compile(r'^dashmap::(mapref::(one|multiple|entry)::\w+|iter::\w+|mapref::\w+|Entry)$|(^|::)(Mutex|Owned\w*|RwLock|MappedMutex|MappedRwLock|ArcMutex|ReentrantMutex)\w*Guard$|(^|::)(Owned)?SemaphorePermit$|^dashmap::lock::')
NOT_HELD = re.compile(r'^(std::marker::PhantomData|std::rc::Weak|std::sync::Weak)$')
# what a lock operation does: (kind)
READ_OPS = {'get', 'try_get', 'contains_key', 'len', 'is_empty', 'iter', 'view', 'clone'}
WRITE_OPS = {'insert', 'remove', 'remove_if', 'remove_if_mut', 'get_mut', 'try_get_mut', 'entry', 'try_entry', 'clear', 'retain', 'alter', 'alter_all', 'iter_mut', 'shrink_to_fit'}
BLOCKING = re.compile(r'(^|::)block_on$|^std::thread::(sleep|park\w*|JoinHandle::join)$|mpsc::(Receiver|mpmc)::\w*recv\w*$|Condvar::wait\w*$|Barrier::wait$|::blocking_(recv|send|lock|read|write)$|^std::sync::(once::)?(Once)::wait\w*$')


def clean(p): return re.sub(r'::<[^<>]*(<[^<>]*(<[^<>]*>[^<>]*)*>[^<>]*)*>', '', p)


class Guards:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.prog
        self._holds = {}
        self._ops = {}
        self._susp = {}

    # ---- types
    def holds(self, crate, ti, seen=()):
        """The guards a value of this type contains: list of the guards' types."""
        k = (id(crate), ti)
        if k in self._holds: return self._holds[k]
        if ti in seen: return []
        ty = crate['types'][ti]
        out = []
        if ty['k'] == 'adt':
            if NOT_HELD.match(ty['adt']): out = []
            elif GUARD.search(ty['adt']): out = [lock_id(ty)]
            else:
                for a in ty.get('args') or []:
                    if isinstance(a, int): out = out + self.holds(crate, a, seen + (ti,))
                a = self.P.adts.get(ty['adt'])
                if a and a.get('local'):
                    for v in a['variants']:
                        for f in v['fields']:
                            t = f[1] if isinstance(f, list) else f.get('t')
                            if isinstance(t, int) and t < len(crate['types']): out = out + self.holds(crate, t, seen + (ti,))
        elif ty['k'] == 'tuple':
            for a in ty['args']: out = out + self.holds(crate, a, seen + (ti,))
        elif ty['k'] in ('closure', 'coroutine'):
            for a in ty['upvars']: out = out + self.holds(crate, a, seen + (ti,))
        elif ty['k'] in ('array', 'slice'): out = self.holds(crate, ty['to'], seen + (ti,))
        if not seen: self._holds[k] = out
        return out

    def variant_holds(self, crate, ti, variant):
        ty = crate['types'][ti]
        if ty['k'] != 'adt': return True
        i = {'std::option::Option': {'Some': 0}, 'std::result::Result': {'Ok': 0, 'Err': 1}, 'std::ops::ControlFlow': {'Break': 0, 'Continue': 1}, 'std::task::Poll': {'Ready': 0},
             'dashmap::try_result::TryResult': {'Present': 0}}.get(ty['adt'])
        if i is None: return True
        if variant not in i: return False
        args = [a for a in ty['args'] if isinstance(a, int)]
        # lifetimes are not listed as types
        return bool(self.holds(crate, args[i[variant]])) if i[variant] < len(args) else True

    # ---- lock operations
    def op(self, B, path, args):
        """(lock, kind) if a call is a lock operation."""
        p = clean(path)
        ty = self.argty(B, args, 0)
        if ty is None: return None
        while ty['k'] == 'ref': ty = B.crate['types'][ty['to']]
        m = p.rsplit('::', 1)[-1]
        if ty['k'] != 'adt':
            return None
        a = ty['adt']
        if a == 'dashmap::DashMap' and re.match(r'^dashmap::DashMap::', p):
            if m in READ_OPS: return lock_name(ty), 'read'
            if m in WRITE_OPS: return lock_name(ty), 'write'
        if re.search(r'(^|::)Mutex$', a) and m in ('lock', 'lock_owned'): return lock_name(ty), 'write'
        if re.search(r'(^|::)RwLock$', a) and m in ('read', 'write'): return lock_name(ty), m
        return None

    def argty(self, B, args, i):
        if len(args) <= i: return None
        o = args[i]
        if o[0] == 'k': return B.ty(o[1]['t'])
        return B.ty(o[1]['t'])

    def closures_in(self, B, args):
        out = set()
        def go(ti, d):
            ty = B.crate['types'][ti]
            if ty['k'] in ('closure',): out.add(ty['key'])
            if ty['k'] in ('closure', 'coroutine'):
                if d < 8:
                    for a in ty['upvars']: go(a, d + 1)
            elif ty['k'] in ('adt', 'tuple') and d < 8:
                for a in ty.get('args') or []:
                    if isinstance(a, int): go(a, d + 1)
            elif ty['k'] == 'ref' and d < 8: go(ty['to'], d + 1)
        for o in args:
            go(o[1]['t'], 0)
        return out

    def site_ops(self, B, t):
        """Lock operations a call can perform: {(lock, kind): trail}."""
        c, args = t[1], t[2]
        path = c.get('path')
        out = {}
        if not path: return out
        o = self.op(B, path, args)
        if o: out[o] = clean(path)
        key = (c.get('res') or {}).get('key') or c.get('key')
        keys = set()
        if key in self.P.bodies: keys.add(key)
        elif path in self.P.bypath: keys.add(self.P.bypath[path].key)
        keys |= self.closures_in(B, args)
        if clean(path) == 'std::future::Future::poll':
            keys |= self.polled(B, t)
        for k in keys:
            for o, tr in self.ops(k).items(): out.setdefault(o, self.P.bodies[k].path.rsplit('::', 1)[-1] + ' -> ' + tr if '{' not in self.P.bodies[k].path.rsplit('::', 1)[-1] else tr)
        return out

    def ops(self, key):
        if key in self._ops: return self._ops[key]
        self._ops[key] = {}
        B = self.P.bodies.get(key)
        out = {}
        if B is not None and not B.d.get('derived'):
            for b in B.blocks:
                if not b['cleanup'] and b['t'][0] == 'call':
                    for o, tr in self.site_ops(B, b['t']).items(): out.setdefault(o, tr)
        self._ops[key] = out
        return out

    # ---- suspension
    def polled(self, B, t):
        """Keys of the coroutines a call of Future::poll can run, empty for foreign futures."""
        out = set()
        def go(ti, d=0):
            ty = B.crate['types'][ti]
            if ty['k'] == 'coroutine': out.add(ty['key'])
            elif ty['k'] in ('adt', 'tuple') and d < 5:
                for a in ty.get('args') or []:
                    if isinstance(a, int): go(a, d + 1)
            elif ty['k'] in ('ref',): go(ty['to'], d + 1)
            elif ty['k'] == 'alias':
                # the result of a local async function
                for b in B.blocks:
                    tt = b['t']
                    if tt[0] == 'call' and not b['cleanup'] and B.locals[tt[3]['l']] == ti and not tt[3]['p']:
                        k = (tt[1].get('res') or {}).get('key') or tt[1].get('key')
                        for kk in (k, self.P.bypath[tt[1]['path']].key if tt[1].get('path') in self.P.bypath else None):
                            if kk and kk + '::{closure#0}' in self.P.bodies: out.add(kk + '::{closure#0}')
        for o in t[2]: go(o[1]['t'])
        return out

    def may_suspend(self, key, seen=()):
        if key in self._susp: return self._susp[key]
        if key in seen: return False
        B = self.P.bodies.get(key)
        if B is None: return True
        r = any(self.suspends_at(B, i, seen + (key,)) for i, b in enumerate(B.blocks) if b['t'][0] == 'yield' and not b['cleanup'])
        if not seen: self._susp[key] = r
        return r

    def suspends_at(self, B, blk, seen=()):
        """Can the future awaited at this suspension point be pending?"""
        c = B.cfg()
        loops = [L for L in c.loops.values() if blk in L]
        if not loops: return True
        L = min(loops, key=len)
        ks, foreign = set(), False
        for x in L:
            t = B.blocks[x]['t']
            if t[0] == 'call' and clean(t[1].get('path') or '') == 'std::future::Future::poll':
                k = self.polled(B, t)
                if k: ks |= k
                else: foreign = True
        if foreign or not ks: return True
        return any(self.may_suspend(k, seen) for k in ks)

    # ---- dataflow
    def held(self, B):
        """(block, statement index or 't') -> set of locals which may hold a guard; only at calls and suspension points."""
        crate = B.crate
        gl = {l: self.holds(crate, t) for l, t in enumerate(B.locals)}
        gl = {l: g for l, g in gl.items() if g}
        out = {}
        if not gl: return gl, out
        refine = {}
        bools = {}
        for i, b in enumerate(B.blocks):
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'discr' and not s[1]['p'] and s[2][1]['l'] in gl and not s[2][1]['p']: refine[s[1]['l']] = s[2][1]
            t = b['t']
            if t[0] == 'call' and clean(t[1].get('path') or '') in ('std::option::Option::is_none', 'std::option::Option::is_some', 'std::result::Result::is_err', 'std::result::Result::is_ok'):
                a = t[2][0]
                if a[0] in ('c', 'm') and not a[1]['p']:
                    # the reference taken just before
                    for s in b['s']:
                        if s[0] == '=' and s[1]['l'] == a[1]['l'] and s[2][0] == 'ref' and not s[2][2]['p'] and s[2][2]['l'] in gl:
                            bools[t[3]['l']] = (s[2][2], clean(t[1]['path']).rsplit('::', 1)[-1])
        state = {0: frozenset()}
        # arguments
        init = frozenset(l for l in gl if 1 <= l <= B.argc)
        state[0] = init
        work = [0]
        def kill_move(st, o):
            if o[0] == 'm':
                l = o[1]['l']
                if l in st:
                    if not o[1]['p']: st.discard(l)
                    elif len(self.holds(crate, o[1]['t'])) >= len(gl[l]): st.discard(l)
        def assign(st, p):
            if p['l'] in gl: st.add(p['l'])
        while work:
            i = work.pop()
            st = set(state[i])
            b = B.blocks[i]
            for s in b['s']:
                if s[0] == '=':
                    for o in operands(s[2]): kill_move(st, o)
                    # only an assignment of something which holds a guard
                    if s[1]['l'] in gl and self.rv_holds(crate, B, s[2], gl): assign(st, s[1])
                    elif s[1]['l'] in gl and not s[1]['p']: st.discard(s[1]['l'])
                elif s[0] == 'dead': st.discard(s[1])
            t = b['t']
            if t[0] == 'call':
                out[(i, 't')] = frozenset(st) | out.get((i, 't'), frozenset())
                for o in t[2]: kill_move(st, o)
                if t[3]['l'] in gl: assign(st, t[3])
            elif t[0] == 'yield':
                out[(i, 't')] = frozenset(st) | out.get((i, 't'), frozenset())
            elif t[0] == 'drop':
                if not t[1]['p']: st.discard(t[1]['l'])
                elif t[1]['l'] in gl: st.discard(t[1]['l'])
            for n in B.succs(i):
                s2 = set(st)
                if t[0] == 'switch' and t[1][0] in ('c', 'm') and not t[1][1]['p']:
                    d = t[1][1]['l']
                    vals = [x[0] for x in t[2] if x[1] == n]
                    if d in refine:
                        pl = refine[d]
                        ty = crate['types'][pl['t']]
                        vs = self.P.variants(ty['adt']) if ty['k'] == 'adt' else None
                        if vs is None and ty['k'] == 'adt': vs = {'std::option::Option': ['None', 'Some'], 'std::result::Result': ['Ok', 'Err'], 'std::ops::ControlFlow': ['Continue', 'Break'], 'std::task::Poll': ['Ready', 'Pending']}.get(ty['adt'])
                        if vs:
                            if n == t[3]: poss = [v for j, v in enumerate(vs) if str(j) not in [str(x[0]) for x in t[2]]] + [vs[int(v)] for v in vals if int(v) < len(vs)]
                            else: poss = [vs[int(v)] for v in vals if int(v) < len(vs)]
                            if poss and not any(self.variant_holds(crate, pl['t'], v) for v in poss): s2.discard(pl['l'])
                    if d in bools:
                        pl, fn = bools[d]
                        true = not (vals and all(str(v) in ('0', 'False') for v in vals)) if n != t[3] else True
                        v = {'is_none': {True: 'None', False: 'Some'}, 'is_some': {True: 'Some', False: 'None'}, 'is_err': {True: 'Err', False: 'Ok'}, 'is_ok': {True: 'Ok', False: 'Err'}}[fn][true]
                        if not self.variant_holds(crate, pl['t'], v): s2.discard(pl['l'])
                s2 = frozenset(s2)
                if n not in state or not s2 <= state[n]:
                    state[n] = state.get(n, frozenset()) | s2
                    work.append(n)
        return gl, out

    def rv_holds(self, crate, B, r, gl):
        for o in operands(r):
            if o[0] in ('c', 'm') and self.holds(crate, o[1]['t']): return True
        return False


def operands(r):
    out = []
    for x in r[1:]:
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('c', 'm', 'k'): out.append(x)
            elif r[0] == 'agg' and x is r[2]: out += [o for o in x if isinstance(o, list) and o and o[0] in ('c', 'm', 'k')]
    return out


def lock_name(ty):
    s = re.sub(r"'\w+ ?", '', ty['s'])
    m = re.match(r'^[\w:]*?(\w+)<(.*)>$', s)
    return (m.group(1), re.sub(r'^, ', '', m.group(2))) if m else (s, '')


def lock_id(ty):
    """(kind of guard, what it protects)."""
    s = re.sub(r"'\w+(, )?", '', ty['s'])
    m = re.match(r'^[\w:]*?(\w+)<(.*)>$', s)
    return (m.group(1), m.group(2)) if m else (s, '')


def same(guard, lock):
    """Does a guard belong to a lock (by type)?"""
    g, what = guard
    n, prot = lock
    if n == 'DashMap': return not re.search(r'Mutex|RwLock', g) and (what == prot or what.startswith(prot) or prot.startswith(what))
    return re.search(r'Mutex|RwLock', g) is not None and what == prot


def writes(guard): return bool(re.search(r'RefMut|Entry|IterMut|Write|Mutex', guard[0]))
