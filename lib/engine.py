"""Guarded value-flow analysis over MIR.

A flow-sensitive, context-sensitive (call-cloning) abstract interpretation.  The abstract domain of
a place is a finite set of provenance terms (access paths, constructors, uninterpreted calls), each
with the conjunction of branch conditions under which it reaches the place; control-flow merges
join, loops are widened (a place which changes in a loop becomes a `lv` symbol with its initial and
step values; collections only grow).  No path is executed and no solver is consulted: conditions
are syntactic literals, and the only reasoning on them is "same term, disjoint value sets".

Terms (nested tuples):
  ('i',n) ('s',str) ('c',char) ('b',bool)            constants
  ('sym',name)                                        an input
  ('fld',t,label)                                     field; label is `Owner.field` / `Owner::Variant.field`
  ('elem',t)  ('idx',t)                               an arbitrary element of a collection / its index
  ('agg',adt,variant,((field,term),..))               a constructed value ('()' = tuple)
  ('coll',((guard,term,mult),..))                     a collection / iterator with known contents
  ('cat',((guard,term,mult),..))                      a string built by concatenation
  ('app',path,args..)                                 an uninterpreted call
  ('clo',key,captures) ('fn',path)                    callable values
  ('mref',root,proj)                                  a mutable reference to a place
  ('choice',((guard,term),..))                        alternatives
  ('lv',site,place)                                   loop-carried value
A guard is a frozenset of literals (term, positive, frozenset(values)).
"""
import sys
from collections import OrderedDict

sys.setrecursionlimit(100000)

UNIT = ('agg', '()', '', ())
EMPTY = frozenset()
TRUE = (EMPTY,)
FALSE = ()
OPT = 'std::option::Option'
RES = 'std::result::Result'
CF = 'std::ops::ControlFlow'
NONE = ('agg', OPT, 'None', ())
T_TRUE, T_FALSE = ('b', True), ('b', False)
DOM = {}            # literal term -> frozenset(domain)
BOOLDOM = frozenset((True, False))
CAP = 300
APPROX = 0      # how often a condition was weakened because of its size


def some(x): return ('agg', OPT, 'Some', (('0', x),))
def ok(x): return ('agg', RES, 'Ok', (('0', x),))
def err(x): return ('agg', RES, 'Err', (('0', x),))
def tup(*xs): return ('agg', '()', '', tuple((str(i), x) for i, x in enumerate(xs)))
def short(p):
    p = p.split('<')[0] if not p.startswith('<') else p
    return p.rsplit('::', 1)[-1]


# ---------------------------------------------------------------- guards
def lit(t, pos, vals, dom=None):
    vals = frozenset(vals)
    if dom is not None:
        dom = frozenset(dom)
        DOM[t] = dom
        if not pos: vals, pos = dom - vals, True
    return (t, pos, vals)


def conj_and(a, b):
    """Conjunction of two guards; None if contradictory."""
    if not a: return b
    if not b: return a
    if a is b: return a
    m = {l[0]: l for l in a}
    for l in b:
        o = m.get(l[0])
        if o is None:
            m[l[0]] = l
        elif o != l:
            if o[1] and l[1]: n = (l[0], True, o[2] & l[2])
            elif o[1]: n = (l[0], True, o[2] - l[2])
            elif l[1]: n = (l[0], True, l[2] - o[2])
            else: n = (l[0], False, o[2] | l[2])
            if n[1] and not n[2]: return None
            m[l[0]] = n
    return frozenset(m.values())


def dnf_simplify(cs):
    cs = list(OrderedDict.fromkeys(cs))
    if EMPTY in cs: return TRUE
    changed = True
    while changed and len(cs) > 1:
        changed = False
        # absorption
        cs.sort(key=len)
        out = []
        for c in cs:
            if not any(o <= c for o in out): out.append(c)
        cs = out
        if len(cs) > 80: break
        for i in range(len(cs)):
            for j in range(i + 1, len(cs)):
                d = cs[i] ^ cs[j]
                if len(d) == 2:
                    x, y = tuple(d)
                    if x[0] == y[0] and (x in cs[i]) != (y in cs[i]):
                        if x[1] and y[1]:
                            v = x[2] | y[2]
                            dom = DOM.get(x[0])
                            rest = cs[i] & cs[j]
                            n = rest if dom is not None and v >= dom else rest | {(x[0], True, v)}
                        elif not x[1] and not y[1]:
                            v = x[2] & y[2]
                            n = (cs[i] & cs[j]) | ({(x[0], False, v)} if v else set())
                        else:
                            p, q = (x, y) if x[1] else (y, x)
                            v = q[2] - p[2]
                            n = (cs[i] & cs[j]) | ({(x[0], False, v)} if v else set())
                        n = frozenset(n)
                        cs = [c for k, c in enumerate(cs) if k not in (i, j)] + [n]
                        changed = True
                        break
            if changed: break
    if EMPTY in cs: return TRUE
    return tuple(cs)


def dnf_and(a, b):
    if a == TRUE: return b
    if b == TRUE: return a
    out = []
    for x in a:
        for y in b:
            c = conj_and(x, y)
            if c is not None: out.append(c)
    if len(out) > CAP:
        # over-approximate: keep only literals common to all
        global APPROX
        APPROX += 1
        common = frozenset.intersection(*out)
        return (common,)
    return dnf_simplify(out)


def dnf_or(a, b):
    r = dnf_simplify(list(a) + list(b))
    if len(r) > CAP:
        global APPROX
        APPROX += 1
        return (frozenset.intersection(*r),)
    return r


# ---------------------------------------------------------------- terms
def mk_choice(alts):
    """alts: iterable of (guard, term)."""
    flat = OrderedDict()
    for g, t in alts:
        if t[0] == 'choice':
            for g2, t2 in t[1]:
                c = conj_and(g, g2)
                if c is not None: flat.setdefault(t2, []).append(c)
        else:
            flat.setdefault(t, []).append(g)
    if len(flat) == 1:
        return next(iter(flat))
    out = []
    for t, gs in flat.items():
        for g in dnf_simplify(gs): out.append((g, t))
    if len(out) > CAP: return ('top', len(out))
    if not out: return ('bot',)
    return ('choice', tuple(out))


def alts_of(t):
    if t[0] == 'choice': return list(t[1])
    return [(EMPTY, t)]


def lift(f, *ts):
    """Apply f to all consistent combinations of alternatives."""
    if all(t[0] != 'choice' for t in ts): return f(*ts)
    combos = [(EMPTY, [])]
    for t in ts:
        n = []
        for g, xs in combos:
            for g2, x in alts_of(t):
                c = conj_and(g, g2)
                if c is not None: n.append((c, xs + [x]))
        combos = n
        if len(combos) > CAP: return ('top', 'lift')
    return mk_choice([(g, f(*xs)) for g, xs in combos])


def fld(t, label):
    k = t[0]
    if k == 'agg':
        name = label.rsplit('.', 1)[-1]
        for n, v in t[3]:
            if n == name: return v
        return ('fld', t, label)
    if k == 'choice':
        variant = None
        if '::' in label: variant = label.rsplit('.', 1)[0].rsplit('::', 1)[-1]
        al = [(g, x) for g, x in t[1] if not (x[0] == 'agg' and variant and x[2] != variant)]
        if not al: return ('bot',)
        return mk_choice([(g, fld(x, label)) for g, x in al])
    if k == 'upd':
        if t[2] == label: return t[3]
        return fld(t[1], label)
    if k in ('bot',): return t
    return ('fld', t, label)


def setfld(t, label, v):
    if t[0] == 'agg':
        name = label.rsplit('.', 1)[-1]
        fs = list(t[3])
        for i, (n, _) in enumerate(fs):
            if n == name:
                fs[i] = (n, v)
                return ('agg', t[1], t[2], tuple(fs))
        return ('agg', t[1], t[2], tuple(fs + [(name, v)]))
    if t[0] == 'upd' and t[2] == label: return ('upd', t[1], label, v)
    return ('upd', t, label, v)


def is_const(t): return t[0] in ('i', 's', 'c', 'b')


def cat(items):
    out = []
    for g, t, m in items:
        if t[0] == 'c': t = ('s', t[1])
        if t[0] == 'cat':
            for g2, t2, m2 in t[1]:
                c = conj_and(g, g2)
                if c is not None: out.append((c, t2, m if m == '*' else m2))
            continue
        if t[0] == 's' and not t[1]: continue
        if out and t[0] == 's' and not g and m == 1 and out[-1][1][0] == 's' and not out[-1][0] and out[-1][2] == 1:
            out[-1] = (EMPTY, ('s', out[-1][1][1] + t[1]), 1)
            continue
        out.append((g, t, m))
    if not out: return ('s', '')
    if len(out) == 1 and not out[0][0] and out[0][2] == 1: return out[0][1]
    return ('cat', tuple(out))


def cat_items(t):
    if t[0] == 'cat': return list(t[1])
    if t == ('s', ''): return []
    return [(EMPTY, t, 1)]


def dedup(items):
    seen, out = set(), []
    for it in items:
        if it in seen: continue
        seen.add(it)
        out.append(it)
    return out


def coll(items): return ('coll', tuple(items))


def length(t):
    if t[0] == 'coll' and all(not g and m == 1 for g, _, m in t[1]): return ('i', len(t[1]))
    if t[0] == 'coll' and len(t[1]) == 1:
        g, e, m = t[1][0]
        if not g and e[0] == 'elem': return ('app', 'len', e[1])
    if t[0] == 's': return ('i', len(t[1].encode()))
    if t[0] == 'choice': return lift(length, t)
    return ('app', 'len', t)


def strip_disp(t): return t


def walk(t):
    """All subterms."""
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x: continue
        yield x
        k = x[0]
        if k in ('i', 's', 'c', 'b', 'sym', 'fn', 'top', 'bot', 'const'): continue
        if k in ('coll', 'cat'):
            for g, y, m in x[1]:
                st.append(y)
        elif k == 'choice':
            for g, y in x[1]: st.append(y)
        elif k == 'agg':
            for n, y in x[3]: st.append(y)
        elif k == 'clo':
            st.extend(x[2])
        elif k == 'mref':
            pass
        elif k == 'lv':
            pass
        else:
            for y in x[1:]:
                if isinstance(y, tuple): st.append(y)


def appname(p):
    import models
    return models.norm(p) if '::' in p else p


def show(t, d=0):
    if not isinstance(t, tuple) or not t: return repr(t)
    k = t[0]
    if d > 14: return '…'
    n = d + 1
    if k in ('i', 's', 'c', 'b'): return repr(t[1])
    if k == 'sym': return t[1]
    if k == 'fld': return '%s.%s' % (show(t[1], n), t[2].rsplit('.', 1)[-1] if '::' not in t[2] else '<' + t[2].rsplit('::', 1)[-1] + '>')
    if k == 'elem': return '%s[*]' % show(t[1], n)
    if k == 'idx': return 'idx(%s)' % show(t[1], n)
    if k == 'agg':
        nm = t[2] if t[2] else ''
        if t[1] == '()': return '(%s)' % ', '.join(show(v, n) for _, v in t[3])
        return '%s{%s}' % (nm, ', '.join('%s: %s' % (a, show(v, n)) for a, v in t[3])) if t[3] else nm
    if k in ('coll', 'cat'):
        o, c = ('[', ']') if k == 'coll' else ('"', '"')
        return o + ', '.join(show(x, n) + ('*' if m == '*' else '') + (' if ' + show_guard(g, n) if g else '') for g, x, m in t[1]) + c
    if k == 'app': return '%s(%s)' % (appname(t[1]), ', '.join(show(x, n) for x in t[2:]))
    if k == 'choice': return '{' + ' | '.join(show(x, n) + (' if ' + show_guard(g, n) if g else '') for g, x in t[1]) + '}'
    if k == 'clo': return 'λ' + t[1].rsplit('::', 2)[-2] + t[1].rsplit('::', 1)[-1]
    if k == 'fn': return short(t[1])
    if k == 'lv': return 'lv%s' % (t[2],)
    if k == 'mref': return '&mut ' + repr(t[1:])
    return '%s(%s)' % (k, ', '.join(show(x, n) if isinstance(x, tuple) else repr(x) for x in t[1:]))


def show_guard(g, n=0):
    r = []
    for t, p, v in sorted(g, key=repr):
        vs = sorted(map(str, v))
        if DOM.get(t) == BOOLDOM and len(vs) == 1:
            r.append(('' if vs == ['True'] else '!') + show(t, n))
        else:
            r.append('%s%s{%s}' % (show(t, n), '∈' if p else '∉', ','.join(vs)))
    return ' & '.join(r)


def show_dnf(d): return ' || '.join(show_guard(g) or 'true' for g in d) if d else 'false'


# ---------------------------------------------------------------- boolean terms
def neg(t):
    if t[0] == 'b': return ('b', not t[1])
    if t[0] == 'not': return t[1]
    if t[0] == 'choice': return mk_choice([(g, neg(x)) for g, x in t[1]])
    return ('not', t)


def val_of(c):
    return c[1]


UNITLIKE = ('agg',)


def nonneg(x):
    return x[0] == 'idx' or x[0] == 'app' and x[1] == 'len' or x[0] == 'i' and x[1] >= 0 or x[0] in ('add', 'mul') and nonneg(x[1]) and nonneg(x[2])


def shifted(a, k):
    """(x, k') with  x ~ k'  for  a ~ k  where a is x plus or minus a constant."""
    while a[0] in ('add', 'sub') and a[2][0] == 'i' and isinstance(k, int):
        k = k - a[2][1] if a[0] == 'add' else k + a[2][1]
        a = a[1]
    return a, k


def mk_eq(a, b):
    def f(a, b):
        if a == b: return T_TRUE
        for x, y in ((a, b), (b, a)):
            if x[0] in ('add', 'sub') and y[0] == 'i':
                x, k = shifted(x, y[1])
                if nonneg(x) and k < 0: return T_FALSE
                if x[0] == 'add' and k == 0 and nonneg(x):
                    p, q = f(x[1], ('i', 0)), f(x[2], ('i', 0))
                    return T_FALSE if T_FALSE in (p, q) else q if p == T_TRUE else p if q == T_TRUE else ('bitand', p, q)
                if x[0] not in ('add', 'sub'): return f(x, ('i', k))
        if a[0] == 'const' and b[0] == 'const' and '::lsp_types::' in a[1] and a[1].rsplit('::', 1)[0] == b[1].rsplit('::', 1)[0]:
            return T_FALSE      # the associated constants of one lsp_types newtype are distinct
        if is_const(a) and is_const(b):
            return ('b', a[1] == b[1])
        if is_const(a): a, b = b, a
        if is_const(b):
            if b[0] == 'b': return a if b[1] else neg(a)
            if b == ('i', 0) and a[0] == 'app' and a[1] == 'len': return ('isempty', a[2][2] if a[2][0] == 'app' and a[2][1] == 'chars' else a[2])
            if b[0] == 'c' and a[0] == 'app' and a[1] == 'index' and a[3] == ('i', 0) and a[2][0] == 'app' and a[2][1] == 'chars':
                return ('app', 'str.starts_with', a[2][2], ('pred', ('eqc', ('sym', '$c'), b[1])))
            if b[0] == 'i' and 0 < b[1] < 128 and a[0] == 'app' and a[1] == 'index' and a[3] == ('i', 0) and a[2][0] == 'app' and a[2][1] in ('str.as_bytes', 'str.bytes'):
                return ('app', 'str.starts_with', a[2][2], ('pred', ('eqc', ('sym', '$c'), chr(b[1]))))
            if b[0] == 's' and a[0] == 'app' and a[1] == 'str.head' and a[3][0] == 'i':
                # the first bytes of a text are a constant
                if len(b[1].encode()) != a[3][1]: return T_FALSE
                return ('app', 'str.starts_with', a[2], ('pred', ('eqc', ('sym', '$c'), b[1])) if len(b[1]) == 1 else b)
            return ('eqc', a, b[1])
        if a[0] == 'agg' and b[0] == 'agg' and a[1] == b[1] and a[2] != b[2]: return T_FALSE
        if a[0] == 'agg' and b[0] == 'agg' and a[1] == b[1] and a[3] and [n for n, _ in a[3]] == [n for n, _ in b[3]]:
            r = T_TRUE
            for (_, x), (_, y) in zip(a[3], b[3]):
                q = mk_eq(x, y)
                if q == T_FALSE: return q
                if q != T_TRUE: r = q if r == T_TRUE else ('bitand', r, q)
            return r
        for x, y in ((a, b), (b, a)):
            if x[0] == 'agg' and x[1] in (OPT, RES) and x[3] and y[0] != 'agg':
                dom = ('Some', 'None') if x[1] == OPT else ('Ok', 'Err')
                q = mk_eq(x[3][0][1], fld(y, '%s::%s.0' % (short(x[1]), x[2])))
                return mk_choice([(frozenset([lit(y, True, [x[2]], dom)]), q), (frozenset([lit(y, False, [x[2]], dom)]), T_FALSE)])
        if a[0] == 'agg' and not a[3]: a, b = b, a
        if b[0] == 'agg' and not b[3] and b[2] and b[1] not in ('()',):
            if a[0] == 'agg': return ('b', a[2] == b[2])
            return ('is', a, b[1], b[2])
        if repr(a) > repr(b): a, b = b, a
        return ('eq', a, b)
    return lift(f, a, b)


def mk_lt(a, b):
    def f(a, b):
        if is_const(a) and is_const(b) and a[0] == b[0]: return ('b', a[1] < b[1])
        if a == b: return T_FALSE
        if a[0] in ('add', 'sub') and b[0] == 'i':
            a, k = shifted(a, b[1])
            if nonneg(a) and k <= 0: return T_FALSE
            if nonneg(a) and k == 1: return mk_eq(a, ('i', 0))
            b = ('i', k)
        elif b[0] in ('add', 'sub') and a[0] == 'i':
            b, k = shifted(b, a[1])
            if nonneg(b) and k < 0: return T_TRUE
            if nonneg(b) and k == 0: return neg(mk_eq(b, ('i', 0)))
            a = ('i', k)
        if a == ('i', 0) and b[0] == 'app' and b[1] == 'len': return neg(mk_eq(b, a))
        if b == ('i', 1) and a[0] == 'app' and a[1] == 'len': return mk_eq(a, ('i', 0))
        if a == ('i', 0) and b[0] == 'idx': return neg(('eqc', b, 0))
        if b == ('i', 1) and a[0] == 'idx': return ('eqc', a, 0)
        return ('lt', a, b)
    return lift(f, a, b)


# ---------------------------------------------------------------- program state
class State:
    __slots__ = ('mem', 'pc', 'outer')

    def __init__(self, mem, pc=TRUE, outer=TRUE):
        self.mem, self.pc, self.outer = mem, pc, outer

    def copy(self): return State(dict(self.mem), self.pc, self.outer)


class Event:
    __slots__ = ('kind', 'name', 'args', 'guard', 'fn', 'span', 'extra', 'seq', 'body')

    def __init__(self, kind, name, args, guard, fn, span, extra=None, seq=0, body=None):
        self.kind, self.name, self.args, self.guard, self.fn, self.span, self.extra, self.seq, self.body = \
            kind, name, args, guard, fn, span, extra, seq, body

    def mapped(self, ft, fg):
        return Event(self.kind, self.name, tuple(ft(a) for a in self.args), fg(self.guard), self.fn, self.span, self.extra, self.seq, self.body)

    def split(self, w, n):
        if not any(mentions((g, UNIT, 1), w) for g in self.guard) and not any(mentions((EMPTY, a, 1), w) for a in self.args): return [self]
        out = []
        for k in range(n):
            gs = [x for x in (fix_guard(g, w, k) for g in self.guard) if x is not None]
            if gs: out.append(self.mapped(lambda t: fix_lit(t, w, k), lambda d: dnf_simplify(gs)))
        return out

    def where(self):
        return '%s:%s in %s' % (self.span[0], self.span[1], self.fn) if self.span else self.fn

    def __repr__(self):
        return '%s %s(%s) if %s @%s' % (self.kind, self.name, ', '.join(show(a) for a in self.args), show_dnf(self.guard), self.span[1] if self.span else '?')


class Abort(Exception): pass


GUARDS = {'Mutex::lock', 'Mutex::try_lock', 'DashMap::get_mut', 'DashMap::try_get_mut', 'RwLock::write', 'RwLock::try_write', 'RefCell::borrow_mut'}


def guarded(models, t):
    """Is this the content of a lock?"""
    while True:
        if t[0] == 'fld': t = t[1]
        elif t[0] == 'app' and '::' in t[1] and models.norm(t[1]) in GUARDS: return True
        elif t[0] == 'choice': return any(guarded(models, x) for g, x in t[1])
        else: return False


def text_of(f): return f[1]


class Engine:
    def __init__(self, prog, opaque=(), inline_depth=40, budget=400000):
        self.prog = prog
        self.opaque = set(opaque)
        self.anchors = {}
        self.depth = 0
        self.inline_depth = inline_depth
        self.events = []
        self.active = []
        self.loops = []     # per active loop: the iterators it advances, the multiplicity of what it adds
        self.calm = set()   # the iterators of loops which are left early only for reasons that do not change
        self.frames = 0
        self.lv = {}
        self.fns = {}
        self.stack = []
        self.constcache = {}
        self.steps = 0
        self.budget = budget
        self.analysed = set()
        self.unknown_calls = set()
        import models
        self.models = models

    # ---- entry
    def run(self, path, args=None):
        B = self.prog.get(path) or self.prog.bodies.get(path)
        if B is None: raise KeyError(path)
        if args is None: args = self.sym_args(B)
        st = State({})
        self.events = []
        r = self.call_body(B, args, st, ('entry',))
        return r, self.events

    def sym_args(self, B):
        names = {}
        for n, p, a in B.d['dbg']:
            if a is not None and not p['p']: names.setdefault(a, n)
        out = []
        for i in range(1, B.argc + 1):
            t = ('sym', names.get(i) or 'arg%d' % i)
            if B.local_ty(i)['k'] == 'ref' and B.local_ty(i)['mut']:
                t = ('mref', ('T', t), ())
            out.append(t)
        return out

    def event(self, st, kind, name, args, body, span, extra=None):
        g = dnf_and(st.outer, st.pc)
        self.events.append(Event(kind, name, tuple(args), g, body.path if body else '?', span, extra, len(self.events), body))

    # ---- places
    def read_root(self, st, root):
        if root[0] == 'L':
            return st.mem.get((root[1], root[2]), ('uninit',))
        return root[1]

    def proj_read(self, v, proj):
        for p in proj:
            v = self.proj1(v, p)
        return v

    def proj1(self, v, p):
        if v[0] == 'choice' and p[0] != 'f':
            return mk_choice([(g, self.proj1(x, p)) for g, x in v[1]])
        if p[0] == 'f': return fld(v, p[1])
        if p[0] == 'i': return self.models.index_term(v, p[1])
        if p[0] == 'sub': return self.models.subslice(v, p[1], p[2], p[3])
        if p[0] == 'at': return ('app', 'at', v, p[1])
        return v

    def deref(self, st, v):
        n = 0
        while v[0] == 'mref' and n < 20:
            v = self.proj_read(self.read_root(st, v[1]), v[2])
            n += 1
        return v

    def snap(self, st, v):
        """Value behind references (deep for mrefs at the top)."""
        if v[0] == 'choice' and any(x[0] == 'mref' for _, x in v[1]):
            return mk_choice([(g, self.snap(st, x)) for g, x in v[1]])
        return self.deref(st, v)

    def resolve_place(self, fr, st, p):
        """-> list of (guard, root, proj)"""
        cur = [(EMPTY, ('L', fr.id, p['l']), ())]
        downcast = None
        for e in p['p']:
            if e == '*':
                new = []
                for g, root, proj in cur:
                    v = self.proj_read(self.read_root(st, root), proj)
                    for g2, x in alts_of(v):
                        c = conj_and(g, g2)
                        if c is None: continue
                        if x[0] == 'mref':
                            new.append((c, x[1], x[2]))
                        elif x[0] == 'box':
                            new.append((c, root, proj))
                        else:
                            new.append((c, root, proj))  # shared references are erased
                # de-duplicate
                d = OrderedDict()
                for g, r, pr in new: d.setdefault((r, pr), []).append(g)
                cur = [(gs[0] if len(gs) == 1 else EMPTY, r, pr) for (r, pr), gs in d.items()]
                downcast = None
            elif e == 'cast':
                pass
            elif e[0] == 'd':
                downcast = (e[2], e[3])
            elif e[0] == 'f':
                owner = short(e[3]) if len(e) > 3 and e[3] else ''
                if downcast: lab = '%s::%s.%s' % (owner, downcast[0], e[2])
                elif owner: lab = '%s.%s' % (owner, e[2])
                else: lab = e[2]
                downcast = None
                if owner in ('MaybeUninit', 'ManuallyDrop', 'Unique', 'NonNull', 'MaybeDangling'):
                    continue
                cur = [(g, r, pr + (('f', lab),)) for g, r, pr in cur]
            elif e[0] == 'i':
                iv = self.snap(st, st.mem.get((fr.id, e[1]), ('uninit',)))
                cur = [(g, r, pr + (('i', iv),)) for g, r, pr in cur]
            elif e[0] == 'ci':
                cur = [(g, r, pr + (('i', ('i', -e[1] if e[2] else e[1])),)) for g, r, pr in cur]
            elif e[0] == 'sub':
                cur = [(g, r, pr + (('sub', e[1], e[2], e[3]),)) for g, r, pr in cur]
        return cur

    def read_place(self, fr, st, p):
        cur = self.resolve_place(fr, st, p)
        if len(cur) == 1:
            g, root, proj = cur[0]
            return self.proj_read(self.read_root(st, root), proj)
        return mk_choice([(g, self.proj_read(self.read_root(st, root), proj)) for g, root, proj in cur])

    def write_loc(self, st, root, proj, v, body, span, weak=EMPTY):
        if root[0] == 'T':
            t = root[1]
            if not proj and t[0] == 'app' and t[1] == 'at' and len(t) == 4:
                # the value of an entry is replaced
                self.event(st, 'map.insert', self.loc_label(('T', t[2]), ()), (t[2], t[3], v), body, span)
                return
            self.event(st, 'write', self.loc_label(root, proj), (self.loc_term(root, proj), v), body, span)
            return
        key = (root[1], root[2])
        old = st.mem.get(key, ('uninit',))
        if not proj:
            new = v
        else:
            new = self.set_path(old, proj, v)
        st.mem[key] = new

    def note_write(self, st, root, proj, v, body, span):
        """A write through a guard of shared state (the guard's content is kept in the local)."""
        if root[0] == 'L':
            t = st.mem.get((root[1], root[2]), ('uninit',))
            if guarded(self.models, t): self.event(st, 'write', self.loc_label(root, proj), (self.proj_read(t, proj), v), body, span)

    def set_path(self, old, proj, v):
        if not proj: return v
        p = proj[0]
        if old[0] == 'choice':
            return mk_choice([(g, self.set_path(x, proj, v)) for g, x in old[1]])
        if p[0] == 'f':
            base = old if old[0] != 'uninit' else ('agg', '?', '', ())
            return setfld(base, p[1], self.set_path(fld(base, p[1]), proj[1:], v))
        # element write: weak
        if p[0] == 'i' and old[0] == 'coll':
            return coll(list(old[1]) + [(EMPTY, self.set_path(self.models.index_term(old, p[1]), proj[1:], v), 1)])
        return ('upd', old, p, self.set_path(self.proj1(old, p), proj[1:], v))

    def loc_term(self, root, proj):
        base = root[1] if root[0] == 'T' else ('sym', 'local')
        return self.proj_read(base, proj)

    def loc_label(self, root, proj):
        for p in reversed(proj):
            if p[0] == 'f' and '.' in p[1]: return p[1]
        if root[0] == 'T':
            t = root[1]
            while t[0] in ('app',) and len(t) > 2 and t[1] == 'at': t = t[2]
            if t[0] == 'fld': return t[2]
        return ''

    # ---- operands
    def operand(self, fr, st, o):
        if o[0] in 'cm': return self.read_place(fr, st, o[1])
        if o[0] == 'k': return self.constant(fr.body, o[1], st)
        return ('b', True)

    def optype(self, fr, o):
        if o[0] in 'cm': return fr.body.ty(o[1]['t'])
        if o[0] == 'k': return fr.body.ty(o[1]['t'])
        return {'k': 'bool', 's': 'bool'}

    def constant(self, body, k, st=None):
        if 'promoted' in k:
            key = (k['promoted'][0], k['promoted'][1])
            if key not in self.constcache:
                self.constcache[key] = self.eval_const(self.prog.promoted(*key))
            return self.constcache[key]
        ty = body.ty(k['t'])
        v = k.get('val') or {}
        if 'int' in v: return ('i', int(v['int']))
        if 'bool' in v: return ('b', v['bool'])
        if 'char' in v: return ('c', v['char'])
        if 'str' in v: return ('s', v['str'])
        if 'bytes' in v: return ('bytes', tuple(v['bytes']))
        if 'static' in v:
            B = self.prog.bodies.get(v['key'])
            if v['fixed'] and B is not None:
                if v['key'] not in self.constcache: self.constcache[v['key']] = self.eval_const(B)
                return self.constcache[v['key']]
            return ('sym', 'static ' + v['static'])
        if 'named' in k and ty.get('adt', '').endswith('thread::LocalKey'): return ('sym', 'static ' + k['named'])
        if 'named' in k:
            B = self.prog.bodies.get(k['named_key'])
            if B is not None:
                if k['named_key'] not in self.constcache:
                    self.constcache[k['named_key']] = self.eval_const(B)
                return self.constcache[k['named_key']]
            return ('const', k['named'])
        if 'zst' in v:
            return self.zst(body, ty)
        return ('const', ty['s'])

    def zst(self, body, ty):
        if ty['k'] == 'fndef':
            self.fns[ty['fn']['path'], ty['s']] = (ty, body)
            return ('fn', ty['fn']['path'], ty['s'])
        if ty['k'] == 'closure': return ('clo', ty['key'], ())
        if ty['k'] == 'tuple': return UNIT
        if ty['k'] == 'adt':
            a = self.prog.adts.get(ty['adt'])
            if a and a['kind'] == 'struct': return ('agg', ty['adt'], short(ty['adt']), ())
        return ('const', ty['s'])

    def eval_const(self, B):
        st = State({})
        ev = self.events
        self.events = []
        try:
            return self.call_body(B, [], st, ('const', B.key))
        finally:
            self.events = ev

    # ---- body evaluation
    def call_body(self, B, args, st, site):
        """Evaluates a body; st.mem is updated with the effects; returns the value."""
        if self.depth >= self.inline_depth or B.key in [x.key for x in self.stack].__iter__() and [x.key for x in self.stack].count(B.key) >= 2:
            return ('app', B.path) + tuple(self.snap(st, a) for a in args)
        self.analysed.add(B.key)
        self.depth += 1
        self.stack.append(B)
        self.frames += 1
        fr = Frame(B, self.frames, site)
        for i, a in enumerate(args): st.mem[(fr.id, i + 1)] = a
        inner = State(st.mem, TRUE, dnf_and(st.outer, st.pc))
        try:
            ret = self.exec_body(fr, inner)
        finally:
            self.depth -= 1
            self.stack.pop()
        if ret is None:
            st.pc = FALSE
            return ('bot',)
        val = ret.mem.get((fr.id, 0), UNIT)
        st.mem = {k: v for k, v in ret.mem.items() if k[0] != fr.id}
        return val

    def exec_body(self, fr, st):
        fr.edges = {}     # (b, s) -> (State, cond dnf)
        cfg = fr.body.cfg()
        fr.rets = []
        fr.entry = st
        order = cfg.rpo
        self.exec_blocks(fr, order, None)
        if not fr.rets: return None
        if len(fr.rets) == 1: return fr.rets[0][1]
        # several return blocks (rare): merge
        s = fr.rets[0][1]
        keys = set().union(*[r.mem.keys() for _, r in fr.rets])
        mem = {}
        for k in keys:
            mem[k] = mk_choice([(c, r.mem[k]) for _, r in fr.rets if k in r.mem for c in r.pc])
        return State(mem, TRUE, s.outer)

    def exec_blocks(self, fr, blocks, header):
        cfg = fr.body.cfg()
        done = set()
        for b in blocks:
            if b in done: continue
            if b in cfg.loops and b != header:
                L = cfg.loops[b]
                lb = [x for x in cfg.rpo if x in L]
                self.exec_loop(fr, b, lb)
                done |= L
                continue
            st = self.in_state(fr, b, header)
            if st is None: continue
            self.exec_block(fr, b, st)

    def in_state(self, fr, b, header):
        cfg = fr.body.cfg()
        if b == 0 and not (b in cfg.loops): return fr.entry.copy()
        if b == header: return fr.header_state[b].copy()
        preds = [(p, b) for p in cfg.pred[b] if (p, b) in fr.edges and not cfg.dominates(b, p)]
        if b == 0: return fr.entry.copy()
        return self.merge_edges(fr, b, preds)

    def merge_edges(self, fr, b, preds, frm=None):
        cfg = fr.body.cfg()
        preds = [e for e in preds if fr.edges[e][0].pc != FALSE]
        if not preds: return None
        if len(preds) == 1:
            st, cond = fr.edges[preds[0]]
            return st.copy()
        D = frm if frm is not None else cfg.idom[b]
        rel = self.rel_conds(fr, D, preds)
        rel = [(e, r) for e, r in rel if r != FALSE]
        if not rel: return None
        Dpc = fr.blockpc.get(D, TRUE)
        total = FALSE
        for e, r in rel: total = dnf_or(total, r)
        pc = Dpc if (frm is None and cfg.postdominates(b, D)) or total == TRUE else dnf_and(Dpc, total)
        mem = self.merge_mems([(r, fr.edges[e][0].mem) for e, r in rel])
        return State(mem, pc, fr.entry.outer)

    def merge_mems(self, rs):
        if len(rs) == 1: return dict(rs[0][1])
        mem = {}
        first = rs[0][1]
        for k in first:
            vs = []
            same = True
            v0 = first[k]
            for r, m in rs:
                if k not in m:
                    vs = None
                    break
                v = m[k]
                if v is not v0 and v != v0: same = False
                vs.append((r, v))
            if vs is None: continue
            mem[k] = v0 if same else self.merge_vals(vs)
        return mem

    def merge_vals(self, vs):
        vs = [(r, v) for r, v in vs if v[0] not in ('uninit', 'bot')] or vs
        kinds = {v[0] for _, v in vs}
        if kinds == {'app'} and all(is_map(v) for _, v in vs): return vs[0][1][:2] + (self.merge_vals([(r, v[2]) for r, v in vs]),)
        if kinds <= {'coll'}:
            lists = [(r, list(v[1])) for r, v in vs]
            n = 0
            while all(len(l) > n for _, l in lists) and len({l[n] for _, l in lists}) == 1: n += 1
            ext = OrderedDict()
            for r, l in lists:
                for g, t, m in l[n:]:
                    for c0 in r:
                        c = conj_and(c0, g)
                        if c is not None: ext.setdefault((t, m), []).append(c)
            items = list(lists[0][1][:n])
            # an element which is added on every branch keeps no condition
            for (t, m), gs in ext.items():
                for c in dnf_simplify(gs): items.append((c, t, m))
            return coll(items)
        if kinds <= {'cat', 's'} and 'cat' in kinds:
            lists = [(r, cat_items(v)) for r, v in vs]
            n = 0
            while all(len(l) > n for _, l in lists) and len({l[n] for _, l in lists}) == 1: n += 1
            k = 0
            while all(len(l) - n > k for _, l in lists) and len({l[len(l) - 1 - k] for _, l in lists}) == 1: k += 1
            items = list(lists[0][1][:n])
            for r, l in lists:
                for g, t, m in l[n:len(l) - k]:
                    for c in dnf_and(r, (g,)): items.append((c, t, m))
            items += lists[0][1][len(lists[0][1]) - k:] if k else []
            return ('cat', tuple(items))
        if kinds == {'agg'} and len({(v[1], v[2], tuple(n for n, _ in v[3])) for _, v in vs}) == 1 and \
                vs[0][1][1] != OPT and vs[0][1][1] != RES and any(x[0] in ('coll', 'cat') for _, v in vs for _, x in v[3]):
            v0 = vs[0][1]
            fs = []
            for i, (n, x) in enumerate(v0[3]):
                xs = [(r, v[3][i][1]) for r, v in vs]
                fs.append((n, x if all(y == x for _, y in xs) else self.merge_vals(xs)))
            return ('agg', v0[1], v0[2], tuple(fs))
        return mk_choice([(c, v) for r, v in vs for c in r])

    def rel_conds(self, fr, D, edges):
        """Reach conditions of the given edges relative to block D (as DNFs)."""
        cfg = fr.body.cfg()
        targets = {e[0] for e in edges}
        reach = {D: TRUE}
        # blocks between D and the edge sources, in RPO
        need = set()
        st = list(targets)
        while st:
            x = st.pop()
            if x in need: continue
            need.add(x)
            if x == D: continue
            for p in cfg.pred[x]:
                if not cfg.dominates(x, p): st.append(p)
        for x in cfg.rpo:
            if x == D or x not in need: continue
            r = FALSE
            if cfg.idom[x] in reach and cfg.idom[x] in need and cfg.postdominates(x, cfg.idom[x]):
                r = reach[cfg.idom[x]]
            else:
                for p in cfg.pred[x]:
                    if (p, x) in fr.edges and p in reach and not cfg.dominates(x, p):
                        r = dnf_or(r, dnf_and(reach[p], fr.edges[(p, x)][1]))
            reach[x] = r
        out = []
        for e in edges:
            out.append((e, dnf_and(reach.get(e[0], FALSE), fr.edges[e][1])))
        return out

    def exec_loop(self, fr, h, blocks):
        cfg = fr.body.cfg()
        if h == 0: ent = fr.entry.copy()
        else:
            preds = [(p, h) for p in cfg.pred[h] if (p, h) in fr.edges and not cfg.dominates(h, p)]
            ent = self.merge_edges(fr, h, preds)
        if ent is None: return
        fr.loopdepth += 1
        self.active.append(set())
        self.loops.append({'sites': {}, 'm': {}})
        base = dict(ent.mem)
        cur = dict(ent.mem)
        lvs = {}
        L = cfg.loops[h]
        ev_save = self.events
        for rnd in range(10):
            nlv = len(lvs)
            self.events = []
            for e in [e for e in fr.edges if e[0] in L]: del fr.edges[e]
            nret = len(fr.rets)
            fr.header_state[h] = State(dict(cur), ent.pc, ent.outer)
            self.exec_blocks(fr, blocks, h)
            backs = [(p, h) for p in cfg.pred[h] if (p, h) in fr.edges and cfg.dominates(h, p)]
            backs = [e for e in backs if fr.edges[e][0].pc != FALSE]
            if not backs: break
            rel = [(e, r) for e, r in self.rel_conds(fr, h, backs) if r != FALSE]
            if not rel: break
            bm = self.merge_mems([(r, fr.edges[e][0].mem) for e, r in rel])
            total = FALSE
            for e, r in rel: total = dnf_or(total, r)
            own = self.loops[-1]['sites']
            total = dnf_simplify([frozenset(l for l in c if not (l[0][0] == 'exhausted' and (l[0][1] in own or l[0][1] in self.calm) or l[0][0] == 'which' and (l[0][1] not in own))) for c in total])
            text = dnf_simplify([frozenset(l for l in c if l[0][0] != 'which') for c in total])
            changed = False
            for k, v in cur.items():
                n = bm.get(k)
                if n is None or n == v: continue
                n = under(v, n, text if v[0] in ('cat', 's') else total)
                w = self.widen(fr, h, k, v, n, lvs, base)
                if w != v:
                    cur[k] = w
                    changed = True
            if not changed: break
            if len(lvs) > nlv: self.restart(cur, base)
            if rnd < 9: del fr.rets[nret:]
        else:
            pass
        evs = self.leave_loop(fr, h, L, base, self.events, self.loops.pop())
        self.events = ev_save + evs
        for i, e in enumerate(self.events): e.seq = i
        fr.loopdepth -= 1
        self.active.pop()

    def since(self, fr, h, e):
        """The conditions of an edge out of a loop, without those under which it was entered."""
        pc = fr.header_state[h].pc
        for c in fr.edges[e][0].pc:
            pre = [p for p in pc if p <= c]
            yield c - max(pre, key=len) if pre else c

    def steady(self, c):
        """A condition which does not concern the element of the round, nor what a round changes."""
        own = self.active[-1] - set().union(*self.active[:-1])
        if not own: return False
        for l in c:
            if l[0][0] == 'exhausted': continue
            if l[0][0] == 'which': return False
            for t in walk(l[0]):
                if t in own or t[0] == 'idx' and ('elem', t[1]) in own or t[0] in ('lv', 'top', 'bot', 'cat', 'coll', 'choice'): return False
        return True

    def leave_loop(self, fr, h, L, base, evs, info):
        """After a loop over a known list of alternatives: what was added is what each of them added."""
        exits = [e for e in fr.edges if e[0] in L and e[1] not in L and fr.edges[e][0].pc != FALSE]
        for site, ms in info['sites'].items():
            w, x = ('which', site), ('exhausted', site)
            one = len(info['sites']) == 1
            full = frozenset([True])
            def over(c): return (x, True, full) in c
            if exits and one and all(over(c) for e in exits for c in fr.edges[e][0].pc):
                # the loop is never left early
                def nox(g): return frozenset(l for l in g if l[0] != x)
                for e in exits:
                    s, c = fr.edges[e]
                    fr.edges[e] = (State({k: v if base.get(k) is v else drop_lit(v, x) for k, v in s.mem.items()}, dnf_simplify([nox(g) for g in s.pc]), s.outer), dnf_simplify([nox(g) for g in c]))
                evs = [ev.mapped(lambda t: drop_lit(t, x), lambda d: dnf_simplify([nox(g) for g in d])) for ev in evs]
            elif exits and one and all(over(c) or self.steady(c) for e in exits for c in self.since(fr, h, e)):
                # left early only for reasons which are the same in all of its rounds
                self.calm.add(site)
                for e in exits:
                    s, c = fr.edges[e]
                    fr.edges[e] = (State({k: v if base.get(k) is v else drop_lit(v, x) for k, v in s.mem.items()}, s.pc, s.outer), c)
                evs = [ev.mapped(lambda t: drop_lit(t, x), lambda d: d) for ev in evs]
            elif exits and one and any(over(c) for e in exits for c in fr.edges[e][0].pc):
                # what later rounds add, they only add if the loop was not left before
                lit = (x, True, frozenset([False]))
                for e in exits:
                    s, c = fr.edges[e]
                    fr.edges[e] = (State({k: v if base.get(k) is v else partly(base.get(k), v, x, lit) for k, v in s.mem.items()}, s.pc, s.outer), c)
            if len(ms) > 1:
                evs = [e2 for ev in evs for e2 in ev.split(w, len(ms))]
            if len(ms) == 1 and ms[0] == '*': continue
            for e in exits:
                s, c = fr.edges[e]
                mem = {k: v if k not in base or base[k] is v else self.each(base[k], v, w, ms, info['m'] if one else {}) for k, v in s.mem.items()}
                fr.edges[e] = (State(mem, s.pc, s.outer), c)
        return evs

    def each(self, old, v, w, ms, orig):
        if v[0] == 'agg' and old[0] == 'agg' and [n for n, _ in v[3]] == [n for n, _ in old[3]]:
            return ('agg', v[1], v[2], tuple((n, x if x is y else self.each(y, x, w, ms, orig)) for (n, x), (_, y) in zip(v[3], old[3])))
        if is_map(v) and is_map(old): return v[:2] + (self.each(old[2], v[2], w, ms, orig),)
        if v[0] == 'coll' and old[0] == 'coll':
            had = set(old[1])
            out = []
            for it in v[1]:
                g, t, m = it
                if it in had:
                    out.append(it)
                    continue
                o = orig.get((g, t), '*')
                if len(ms) == 1:
                    out.append((g, t, o if m == '*' else m))
                    continue
                if not mentions(it, w):
                    out.append(it)
                    continue
                for k, mk in enumerate(ms):
                    g2 = fix_guard(g, w, k)
                    if g2 is None: continue
                    out.append((g2, fix_lit(t, w, k), '*' if '*' in (o, mk) else m if m != '*' else 1))
            return coll(dedup(out))
        if v[0] == 'cat' and old[0] in ('cat', 's') and '*' not in ms:
            oi = cat_items(old)
            if list(v[1][:len(oi)]) != oi: return v
            ext = v[1][len(oi):]
            if not all(m == '*' for g, t, m in ext): return v
            out = list(oi)
            for k in range(len(ms)):
                for g, t, m in ext:
                    g2 = fix_guard(g, w, k)
                    if g2 is not None: out.append((g2, fix_lit(t, w, k), orig.get((g, t), '*')))
            return cat(out)
        return v

    def restart(self, cur, base):
        """What was added to collections before a place was known to change in the loop only describes the first round."""
        for k, v in cur.items():
            if v[0] in ('coll', 'cat') and k in base and base[k][0] in ('coll', 'cat', 's'): cur[k] = base[k]

    def note_mult(self, v):
        if self.loops:
            d = self.loops[-1]['m']
            for g, t, m in v[1]: d.setdefault((g, t), m)

    def widen(self, fr, h, k, old, new, lvs, base):
        if new[0] == 'iterst' or old[0] == 'iterst': return old
        if old[0] == 'lv' and k in lvs:
            self.lv[lvs[k]]['step'] = new
            return old
        if is_map(old) and is_map(new): return old[:2] + (self.widen(fr, h, (k, 'map'), old[2], new[2], lvs, {(k, 'map'): old[2]}),)
        if old[0] == 'coll' and new[0] == 'coll':
            self.note_mult(new)
            return coll(dedup(list(old[1]) + [(g, t, '*') for g, t, m in new[1] if (g, t, m) not in old[1] and (g, t, '*') not in old[1]]))
        if old[0] in ('cat', 's') and new[0] in ('cat', 's'):
            oi, ni = list(cat_items(old)), list(cat_items(new))
            # text appended to the buffer
            p = list(ni)
            ext = None
            if p[:len(oi)] == oi: ext = p[len(oi):]
            elif oi and p and oi[:-1] == p[:len(oi) - 1] and oi[-1][1][0] == 's' and p[len(oi) - 1][1][0] == 's' and p[len(oi) - 1][1][1].startswith(oi[-1][1][1]):
                ext = [(EMPTY, ('s', p[len(oi) - 1][1][1][len(oi[-1][1][1]):]), 1)] + p[len(oi):]
            if ext is not None:
                self.note_mult(('cat', ext))
                add = [(g, t, '*') for g, t, m in ext]
                add = [x for x in add if x not in oi]
                return ('cat', tuple(oi + add)) if add or old[0] == 'cat' else old
        if old[0] == 'agg' and new[0] == 'agg' and old[1:3] == new[1:3] and [n for n, _ in old[3]] == [n for n, _ in new[3]] and old[1] not in (OPT, RES):
            fs = []
            for (n, a), (_, b) in zip(old[3], new[3]):
                fs.append((n, a if a == b else self.widen(fr, h, (k, n), a, b, lvs, {(k, n): a})))
            return ('agg', old[1], old[2], tuple(fs))
        if old[0] == 'mref' and new[0] == 'mref': return new
        name = None
        if isinstance(k, tuple) and len(k) == 2 and k[0] == fr.id: name = fr.body.varname(k[1])
        l = ('lv', '%s#%s' % (fr.body.path, h), str(name or (k[1] if k[0] == fr.id else 'captured%s' % (k[1],))))
        lvs[k] = l
        self.lv[l] = {'init': base.get(k, old), 'step': new}
        return l

    # ---- blocks
    def exec_block(self, fr, b, st):
        if st.pc == FALSE: return
        self.steps += 1
        if self.steps > self.budget: raise Abort('analysis budget exceeded in %s' % fr.body.path)
        fr.blockpc[b] = st.pc
        body = fr.body
        bl = body.blocks[b]
        for s in bl['s']:
            if s[0] == '=':
                self.assign(fr, st, s[1], self.rvalue(fr, st, s[2], s[3]), s[3])
            elif s[0] == 'setd':
                pass
        t = bl['t']
        k = t[0]
        sp = bl['sp']
        if k == 'goto': self.edge(fr, b, t[1], st, TRUE)
        elif k == 'drop':
            self.edge(fr, b, t[2], st, TRUE)
        elif k == 'return':
            fr.rets.append((b, st))
        elif k == 'switch':
            self.switch(fr, b, st, t)
        elif k == 'assert':
            self.assert_(fr, b, st, t, sp)
        elif k == 'yield':
            self.edge(fr, b, t[2], st, TRUE)
        elif k == 'call':
            v = self.call(fr, b, st, t, sp)
            if t[4] is None or v == ('bot',) or st.pc == FALSE: return
            self.assign(fr, st, t[3], v, sp)
            self.edge(fr, b, t[4], st, TRUE)

    def edge(self, fr, b, s, st, cond):
        if s in fr.body.cfg().dead: return
        if (b, s) in fr.edges:
            o, c = fr.edges[(b, s)]
            fr.edges[(b, s)] = (State(self.merge_mems([(c, o.mem), (cond, st.mem)]), dnf_or(o.pc, st.pc), st.outer), dnf_or(c, cond))
        else:
            fr.edges[(b, s)] = (st, cond)

    def assign(self, fr, st, place, v, span):
        cur = self.resolve_place(fr, st, place)
        if '*' in place['p']:
            for g, root, proj in cur: self.note_write(st, root, proj, v, fr.body, span)
        if len(cur) == 1:
            self.write_loc(st, cur[0][1], cur[0][2], v, fr.body, span)
        else:
            for g, root, proj in cur:
                if root[0] == 'L':
                    old = self.proj_read(self.read_root(st, root), proj)
                    self.write_loc(st, root, proj, mk_choice([(g, v), (EMPTY, old)]), fr.body, span)
                else: self.write_loc(st, root, proj, v, fr.body, span)

    def rvalue(self, fr, st, r, span):
        k = r[0]
        if k == 'use': return self.operand(fr, st, r[1])
        if k == 'ref':
            cur = self.resolve_place(fr, st, r[2])
            if r[1] in ('mut', 'raw'):
                return mk_choice([(g, ('mref', root, proj)) for g, root, proj in cur])
            v = mk_choice([(g, self.proj_read(self.read_root(st, root), proj)) for g, root, proj in cur])
            return self.snap(st, v)
        if k == 'cast':
            v = self.operand(fr, st, r[2])
            if r[1].startswith(('IntToInt', 'FloatToInt', 'IntToFloat')):
                if v[0] == 'b': return ('i', int(v[1]))
                to = fr.body.ty(r[3])['s']
                src = self.optype(fr, r[2])['s']
                if v[0] == 'i': return v
                w = lambda t: {'usize': 64, 'isize': 64, 'char': 21, 'bool': 1}.get(t) or (int(t[1:]) if t[1:].isdigit() else 64)
                # lines and columns fit into 32 bits, but not into less
                return ('app', 'narrow' if w(to) < min(w(src), 31) else 'cast', ('s', src + '->' + to), v)
            if 'ReifyFnPointer' in r[1] or 'ClosureFnPointer' in r[1]: return v
            return v
        if k == 'bin': return self.binop(r[1], self.snap(st, self.operand(fr, st, r[2])), self.snap(st, self.operand(fr, st, r[3])))
        if k == 'un':
            v = self.snap(st, self.operand(fr, st, r[2]))
            if r[1] == 'Not':
                if self.optype(fr, r[2])['k'] == 'bool': return neg(v)
                return ('app', 'bitnot', v)
            if r[1] == 'PtrMetadata': return length(v)
            if r[1] == 'Neg' and v[0] == 'i': return ('i', -v[1])
            return ('app', r[1], v)
        if k == 'discr':
            v = self.snap(st, self.read_place(fr, st, r[1]))
            ty = fr.body.ty(r[1]['t'])
            while ty['k'] == 'ref': ty = fr.body.ty(ty['to'])
            return ('discr', v, ty.get('adt', ty['s']))
        if k == 'agg':
            a = r[1]
            ops = [self.operand(fr, st, o) for o in r[2]]
            if a[0] == 'array': return coll([(EMPTY, o, 1) for o in ops])
            if a[0] == 'tuple': return tup(*ops)
            if a[0] == 'adt':
                return ('agg', a[1], a[2], tuple(zip(a[4], ops)))
            if a[0] in ('closure', 'coroutine'): return ('clo', a[1], tuple(ops))
            return ('top', 'agg')
        if k == 'repeat': return coll([(EMPTY, self.operand(fr, st, r[1]), '*')])
        return ('top', k)

    def binop(self, op, a, b):
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        r = self.arith(base, a, b)
        if op.endswith('WithOverflow'): return tup(r, ('app', 'overflow:' + base, a, b))
        return r

    def arith(self, op, a, b):
        def f(a, b):
            if op == 'Eq': return mk_eq(a, b)
            if op == 'Ne': return neg(mk_eq(a, b))
            if op == 'Lt': return mk_lt(a, b)
            if op == 'Gt': return mk_lt(b, a)
            if op == 'Le': return neg(mk_lt(b, a))
            if op == 'Ge': return neg(mk_lt(a, b))
            if a[0] == 'i' and b[0] == 'i':
                x, y = a[1], b[1]
                if op == 'Add': return ('i', x + y)
                if op == 'Sub': return ('i', x - y)
                if op == 'Mul': return ('i', x * y)
            if op in ('BitAnd', 'BitOr') and a[0] == 'b': 
                if op == 'BitAnd': return b if a[1] else T_FALSE
                return T_TRUE if a[1] else b
            if op in ('BitAnd', 'BitOr') and b[0] == 'b': return self.arith(op, b, a)
            if op in ('Add', 'Mul', 'BitAnd', 'BitOr'):
                if a[0] == 'i' or (b[0] != 'i' and repr(a) > repr(b)): a, b = b, a
                if op == 'Add' and b == ('i', 0): return a
            if op == 'Sub' and b == ('i', 0): return a
            return (op.lower(), a, b)
        return lift(f, a, b)

    # ---- conditions
    def cond(self, t, truth):
        """DNF under which boolean term t has the given truth value."""
        k = t[0]
        if k == 'b': return TRUE if t[1] == truth else FALSE
        if k == 'not': return self.cond(t[1], not truth)
        if k == 'choice':
            r = FALSE
            for g, x in t[1]: r = dnf_or(r, dnf_and((g,), self.cond(x, truth)))
            return r
        if k == 'bitand' and truth: return dnf_and(self.cond(t[1], True), self.cond(t[2], True))
        if k == 'bitand': return dnf_or(self.cond(t[1], False), self.cond(t[2], False))
        if k == 'bitor' and truth: return dnf_or(self.cond(t[1], True), self.cond(t[2], True))
        if k == 'bitor': return dnf_and(self.cond(t[1], False), self.cond(t[2], False))
        if k == 'eqc': return (frozenset([lit(t[1], truth, [t[2]])]),)
        if k == 'app' and t[1] == 'contains' and t[2][0] == 'coll' and t[2][1] and all(not g and m != '*' and x[0] in ('s', 'c') for g, x, m in t[2][1]):
            # membership in a list of constants
            vs = [x[1] for _, x, _ in t[2][1]]
            if t[3][0] in ('s', 'c'): return TRUE if (t[3][1] in vs) == truth else FALSE
            if t[3][0] == 'choice': return self.cond(mk_choice([(g, ('app', 'contains', t[2], x)) for g, x in t[3][1]]), truth)
            return (frozenset([lit(t[3], truth, vs)]),)
        if k == 'is':
            return (frozenset([lit(t[1], truth, [t[3]], self.prog.variants(t[2]))]),)
        return (frozenset([lit(t, True, [truth], BOOLDOM)]),)

    def variant_cond(self, v, adt, name):
        """DNF under which v is the given variant."""
        if v[0] == 'agg': return TRUE if v[2] == name else FALSE
        if v[0] == 'choice':
            r = FALSE
            for g, x in v[1]: r = dnf_or(r, dnf_and((g,), self.variant_cond(x, adt, name)))
            return r
        if v[0] == 'bot': return FALSE
        dom = self.prog.variants(adt)
        return (frozenset([lit(v, True, [name], dom)]),)

    def switch(self, fr, b, st, t):
        op = t[1]
        v = self.snap(st, self.operand(fr, st, op))
        ty = fr.body.ty(t[4])
        edges = []   # (target, dnf, narrow)
        narrow_place = None
        if v[0] == 'discr':
            adt = v[2]
            vars_ = self.prog.adts.get(adt, {}).get('variants')
            if vars_ is None:
                for val, tgt in t[2]: edges.append((tgt, (frozenset([lit(v, True, [val])]),), None))
                edges.append((t[3], (frozenset([lit(v, False, [x[0] for x in t[2]])]),), None))
            else:
                byd = {x['discr']: x['name'] for x in vars_}
                seen = []
                for val, tgt in t[2]:
                    n = byd.get(val)
                    seen.append(n)
                    edges.append((tgt, self.variant_cond(v[1], adt, n), n))
                rest = [x['name'] for x in vars_ if x['name'] not in seen]
                r = FALSE
                for n in rest: r = dnf_or(r, self.variant_cond(v[1], adt, n))
                edges.append((t[3], r, None))
                narrow_place = self.discr_place(fr, b, op)
        elif ty['k'] == 'bool':
            for val, tgt in t[2]: edges.append((tgt, self.cond(v, bool(val)), None))
            vals = {bool(x[0]) for x in t[2]}
            for tv in (True, False):
                if tv not in vals: edges.append((t[3], self.cond(v, tv), None))
        else:
            def conv(n): return chr(n) if ty['k'] == 'char' else n
            for val, tgt in t[2]:
                edges.append((tgt, self.cond(mk_eq(v, (('c' if ty['k'] == 'char' else 'i'), conv(val))), True), None))
            r = TRUE
            for val, tgt in t[2]:
                r = dnf_and(r, self.cond(mk_eq(v, (('c' if ty['k'] == 'char' else 'i'), conv(val))), False))
            edges.append((t[3], r, None))
        for tgt, c, n in edges:
            if c == FALSE: continue
            s2 = st.copy()
            s2.pc = dnf_and(st.pc, c)
            if s2.pc == FALSE: continue
            if dnf_and(s2.outer, s2.pc) == FALSE: continue
            if n is not None and narrow_place is not None:
                self.narrow(fr, s2, narrow_place, n)
            self.edge(fr, b, tgt, s2, c)

    def discr_place(self, fr, b, op):
        if op[0] not in 'cm' or op[1]['p']: return None
        l = op[1]['l']
        for s in reversed(fr.body.blocks[b]['s']):
            if s[0] == '=' and s[1]['l'] == l and not s[1]['p'] and s[2][0] == 'discr': return s[2][1]
        return None

    def narrow(self, fr, st, place, variant):
        cur = self.resolve_place(fr, st, place)
        if len(cur) != 1 or cur[0][1][0] != 'L': return
        root, proj = cur[0][1], cur[0][2]
        v = self.proj_read(self.read_root(st, root), proj)
        if v[0] == 'choice':
            al = [(g, x) for g, x in v[1] if not (x[0] == 'agg' and x[2] != variant)]
            if al and len(al) < len(v[1]):
                nv = al[0][1] if len({x for _, x in al}) == 1 else ('choice', tuple(al))
                key = (root[1], root[2])
                if not proj: st.mem[key] = nv
                elif all(p[0] == 'f' for p in proj): st.mem[key] = self.set_path(st.mem[key], proj, nv)

    def assert_(self, fr, b, st, t, sp):
        m = t[3]
        ops = [self.snap(st, self.operand(fr, st, o)) for o in m[1:] if isinstance(o, list)]
        tys = [fr.body.ty(o[1]['t'])['s'] for o in m[1:] if isinstance(o, list)]
        cond = self.snap(st, self.operand(fr, st, t[1]))
        c = self.cond(cond, not t[2])
        bad = dnf_and(st.pc, c)
        if dnf_and(st.outer, bad) != FALSE:
            s2 = State(st.mem, bad, st.outer)
            self.event(s2, 'assert', m[0], ops, fr.body, sp, extra={'op': m[1] if isinstance(m[1], str) else None, 'ty': tys[0] if tys else None})
        self.edge(fr, b, t[4], st, TRUE)

    # ---- calls
    def call(self, fr, b, st, t, sp):
        c = t[1]
        args = [self.operand(fr, st, o) for o in t[2]]
        tys = [self.optype(fr, o) for o in t[2]]
        dty = fr.body.ty(t[3]['t'])
        if 'op' in c:
            f = self.snap(st, self.operand(fr, st, c['op']))
            return self.apply(f, args, st, fr.body, sp)
        info = Call(self, fr.body, c, args, tys, dty, sp, (fr.body.path, b))
        return self.dispatch(info, st)

    def dispatch(self, info, st):
        c = info.c
        path = c['path']
        if 'ctor' in c:
            adt, variant = c['ctor']
            return ('agg', adt, variant, tuple((str(i), a) for i, a in enumerate(info.args)))
        if path in ('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once'):
            f = info.args[0]
            if f[0] == 'mref': f = self.snap(st, f)
            tu = info.args[1]
            xs = [v for _, v in tu[3]] if tu[0] == 'agg' else [tu]
            return self.apply(f, xs, st, info.body, info.span)
        if path.startswith('std::fmt::') is False and c.get('trait') and 'res' in c:
            rk = c['res']['key']
            B = self.prog.bodies.get(rk)
            if B is not None and not (B.d.get('derived') and c['trait'] in self.models.STRUCTURAL_TRAITS):
                if B.key in self.anchors: return self.opaque_call(info, st, self.anchors[B.key])
                if self.is_opaque(B.path): return self.opaque_call(info, st, B.path)
                return self.call_body(B, info.args, st, info.site)
        m = self.models.lookup(path, c)
        if m is not None:
            r = m(self, st, info)
            if r is not NotImplemented: return r
        B = self.prog.bodies.get(c['key'])
        if B is not None and B.d['kind'] in ('Fn', 'AssocFn'):
            if B.key in self.anchors: return self.opaque_call(info, st, self.anchors[B.key])
            if self.is_opaque(B.path): return self.opaque_call(info, st, B.path)
            return self.call_body(B, info.args, st, info.site)
        return self.opaque_call(info, st, path)

    def is_opaque(self, path):
        return path in self.opaque or path.split('::', 1)[-1] in self.opaque or path.rsplit('::', 1)[-1] in self.opaque

    def opaque_call(self, info, st, path):
        args = []
        for a in info.args:
            args.append(self.freeze(st, a))
        self.unknown_calls.add(path)
        extra = {'never': info.c.get('never'), 'panics': bool(info.c.get('panics') or info.c.get('res', {}).get('panics')),
                 'raw': tuple(info.args), 'key': info.c['key'], 'res': info.c.get('res', {}).get('path'), 'tys': [t['s'] for t in info.tys], 'dty': info.dty['s']}
        self.event(st, 'call', path, args, info.body, info.span, extra)
        if info.c.get('never'): return ('bot',)
        for a in info.args:
            for g, x in alts_of(a):
                if x[0] == 'mref' and x[1][0] == 'L' and not path.startswith('std::future') and 'Pin' not in path:
                    old = self.proj_read(self.read_root(st, x[1]), x[2])
                    self.write_loc(st, x[1], x[2], ('app', 'after:' + path, old) + tuple(y for y in args if y != old), info.body, info.span)
        if path.startswith('dashmap::DashMap') and path.endswith('::contains_key') and len(args) == 2:
            return ('is', ('app', path.replace('contains_key', 'get'), args[0], args[1]), OPT, 'Some')
        return ('app', path) + tuple(args)

    def freeze(self, st, a):
        a = self.snap(st, a)
        if a[0] == 'clo': return ('clo', a[1], tuple(self.freeze(st, x) for x in a[2]))
        if a[0] == 'agg' and any(v[0] == 'mref' for _, v in a[3]):
            return ('agg', a[1], a[2], tuple((n, self.freeze(st, v)) for n, v in a[3]))
        return a

    def apply(self, f, args, st, body, span):
        f = self.snap(st, f) if f[0] in ('mref', 'choice') else f
        if f[0] == 'choice':
            # evaluate all alternatives
            res = []
            mems = []
            for g, x in f[1]:
                s2 = State(dict(st.mem), dnf_and(st.pc, (g,)), st.outer)
                if s2.pc == FALSE: continue
                r = self.apply(x, args, s2, body, span)
                if r == ('bot',): continue
                res.append((g, r))
                mems.append(((g,), s2.mem))
            if not res: return ('bot',)
            st.mem = self.merge_mems(mems)
            return mk_choice(res)
        if f[0] == 'clo':
            B = self.prog.bodies.get(f[1])
            if B is None: return ('app', 'call', f) + tuple(self.freeze(st, a) for a in args)
            # self argument: the captures as a tuple
            env = tup(*f[2])
            n = B.argc - 1
            if n == 1 and len(args) != 1: args = [tup(*args)] if args else [UNIT]
            if n > 1 and len(args) == 1: args = [fld(self.snap(st, args[0]), str(i)) for i in range(n)]
            return self.call_body(B, [env] + list(args)[:n], st, ('apply',))
        if f[0] == 'fn':
            ty, b0 = self.fns[f[1], f[2]]
            tys, out = [b0.ty(x) for x in ty['inputs']], b0.ty(ty['output'])
            known = lambda t: t if t['k'] not in ('alias', 'param') else {'k': 'unknown', 's': '?'}
            tys = [known(t) for t in tys] if len(tys) == len(args) else [{'k': 'unknown', 's': '?'}] * len(args)
            info = Call(self, b0, ty['fn'], list(args), tys, known(out), span, (body.path if body else '?', 'fn'))
            info.body = body or b0
            return self.dispatch(info, st)
        if f[0] == 'sym' and body is not None: self.event(st, 'apply', text_of(f), [self.freeze(st, a) for a in args], body, span)
        return ('app', 'call', f) + tuple(self.freeze(st, a) for a in args)

    def loop_apply(self, st, items, fn, site):
        """Evaluates fn(state, term) for every item (one abstract iteration each), widening the
        places which change from one iteration to the next.  Returns [(guard, result, mult)]."""
        many = any(m == '*' for _, _, m in items) or len(items) > 1
        base = dict(st.mem)
        cur = dict(st.mem)
        lvs = {}
        ev0 = self.events
        results = []
        self.loops.append({'sites': {}, 'm': {}})
        for rnd in range(8):
            nlv = len(lvs)
            self.events = []
            results = []
            outs = []
            for g, t, m in items:
                s2 = State(dict(cur), dnf_and(st.pc, (g,)), st.outer)
                if s2.pc == FALSE or dnf_and(s2.outer, s2.pc) == FALSE: continue
                self.active.append(elems(t))
                try: r = fn(s2, t)
                finally: self.active.pop()
                if s2.pc == FALSE or r == ('bot',): continue
                results.append((g, r, m))
                outs.append(((g,), s2.mem))
            if not outs: break
            bm = self.merge_mems(outs) if len(outs) > 1 else outs[0][1]
            total = dnf_simplify([c for o in outs for c in o[0]])
            text = dnf_simplify([frozenset(l for l in c if l[0][0] != 'which') for c in total])
            changed = False
            for k, v in cur.items():
                n = bm.get(k)
                if n is None or n == v: continue
                n = under(v, n, text if v[0] in ('cat', 's') else total)
                if not many and rnd == 0 and False: continue
                w = self.widen(_FakeFrame(site), 0, k, v, n, lvs, base)
                if w != v:
                    cur[k] = w
                    changed = True
            if not changed: break
            if len(lvs) > nlv: self.restart(cur, base)
        info = self.loops.pop()
        if len(items) == 1 and items[0][2] == 1:
            # at most one round
            cur = {k: v if base.get(k) is v or k not in base else self.each(base[k], v, None, [1], info['m']) for k, v in cur.items()}
        evs = self.events
        self.events = ev0 + evs
        st.mem = cur
        return results


def mentions(it, w):
    seen = set()
    st = [it[1]] + [l[0] for l in it[0]]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or x in seen: continue
        if x == w: return True
        seen.add(x)
        k = x[0] if x else None
        if k in ('coll', 'cat'):
            for g, y, m in x[1]: st += [y] + [l[0] for l in g]
        elif k == 'choice':
            for g, y in x[1]: st += [y] + [l[0] for l in g]
        elif k == 'agg': st += [y for n, y in x[3]]
        elif k == 'clo': st += list(x[2])
        elif k not in ('i', 's', 'c', 'b', 'sym', 'fn', 'lv', 'mref', 'const', 'bytes'): st += [y for y in x[1:] if isinstance(y, tuple)]
    return False


def fix_guard(g, w, k):
    """The guard under `w = k`, without that literal; None if contradictory."""
    out = []
    for l in g:
        if l[0] == w:
            if (k in l[2]) != l[1]: return None
            continue
        out.append((fix_lit(l[0], w, k),) + l[1:])
    return frozenset(out)


def partly(old, v, x, lit):
    """The repeated parts of a text made by a loop which may be left early."""
    if v[0] != 'cat' or old is None or old[0] not in ('s', 'cat'): return v
    had = set(cat_items(old))
    return ('cat', tuple((g | {lit}, y, m) if m == '*' and (g, y, m) not in had and not any(l[0] == x for l in g) else (g, y, m) for g, y, m in v[1]))


def drop_lit(t, x): return map_guards(t, lambda g: frozenset(l for l in g if l[0] != x))


def fix_lit(t, w, k): return map_guards(t, lambda g: fix_guard(g, w, k))


def map_guards(t, f):
    if not isinstance(t, tuple) or not t: return t
    h = t[0]
    if h in ('i', 's', 'c', 'b', 'sym', 'fn', 'lv', 'const', 'bytes', 'top', 'bot'): return t
    if h in ('coll', 'cat'):
        out = []
        for g, y, m in t[1]:
            g = f(g)
            if g is not None: out.append((g, map_guards(y, f), m))
        return cat(out) if h == 'cat' else coll(out)
    if h == 'choice':
        out = []
        for g, y in t[1]:
            g = f(g)
            if g is not None: out.append((g, map_guards(y, f)))
        return mk_choice(out)
    if h == 'agg': return (h, t[1], t[2], tuple((n, map_guards(y, f)) for n, y in t[3]))
    if h == 'clo': return (h, t[1], tuple(map_guards(y, f) for y in t[2]))
    if h == 'mref': return (h, (t[1][0], map_guards(t[1][1], f)) if t[1][0] == 'T' else t[1], t[2])
    r = tuple(map_guards(y, f) if isinstance(y, tuple) else y for y in t)
    return r if r != t else t


def elems(t):
    return {('elem', x[1]) for x in walk(t) if x[0] in ('elem', 'idx')}


def is_map(t): return t[0] == 'app' and t[1] == 'mapof' and t[2][0] == 'coll'


def under(old, new, total):
    """What a round adds to a collection, it adds under the condition of that round."""
    if is_map(old) and is_map(new): return new[:2] + (under(old[2], new[2], total),)
    if total == TRUE or EMPTY in total or new[0] not in ('coll', 'cat') or old[0] not in ('coll', 'cat', 's'): return new
    had = set(old[1]) if old[0] != 's' else set(cat_items(old))
    out = []
    for it in (new[1] if new[0] == 'coll' else cat_items(new)):
        if it in had or (it[0], it[1], '*') in had or any(c <= it[0] for c in total): out.append(it)
        elif old[0] in ('s', 'cat') and it[1][0] == 's' and out == [] and (old[0] == 's' and it[1][1].startswith(old[1])):
            out.append((EMPTY, old, 1))
            for c in total: out.append((c, ('s', it[1][1][len(old[1]):]), it[2]))
        else:
            for c in total:
                g = conj_and(it[0], c)
                if g is not None: out.append((g,) + it[1:])
    return (new[0], tuple(dedup(out) if new[0] == 'coll' else out))


class _FakeFrame:
    def __init__(self, site):
        self.id = None
        self.body = type('B', (), {'path': str(site), 'varname': staticmethod(lambda l: None)})()


class Frame:
    __slots__ = ('body', 'id', 'site', 'edges', 'rets', 'entry', 'header_state', 'blockpc', 'loopdepth')

    def __init__(self, body, id, site):
        self.body, self.id, self.site = body, id, site
        self.header_state = {}
        self.blockpc = {}
        self.loopdepth = 0


class Call:
    __slots__ = ('eng', 'body', 'c', 'args', 'tys', 'dty', 'span', 'site')

    def __init__(self, eng, body, c, args, tys, dty, span, site):
        self.eng, self.body, self.c, self.args, self.tys, self.dty, self.span, self.site = eng, body, c, args, tys, dty, span, site

    def ty(self, i): return self.tys[i]

    def deref_ty(self, t):
        while t['k'] in ('ref', 'ptr'): t = self.body.ty(t['to'])
        return t
