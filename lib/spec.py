"""Comparison of value-flow normal forms with specifications.

A specification is text in the notation of the normal forms:
  Name{field: value, ...}     a constructed value; fields which are not listed are not constrained
  [value* if guard; ...]      a collection as a set of items, `*`: any number of instances
  <value; value>              a collection whose items are in this order
  "value; value"              a string, concatenated in this order
  anything else               a leaf, compared literally; `_` matches anything
A guard is a disjunction `a & b || c` of literals `t`, `!t`, `t∈{A,B}`, `t∉{A}`.
Guards are compared semantically: both sides are evaluated on all combinations of the values of
their atoms (lengths and indices are integers), in the context of the enclosing guard.
"""
import itertools, re
from core import *
from engine import drop_lit
import models

# ---------------------------------------------------------------- full-depth text
_txt = {}


def text(t):
    if not isinstance(t, tuple) or not t: return repr(t)
    h = _txt.get(id(t))
    if h is not None: return h[1]
    r = text0(t)
    _txt[id(t)] = (t, r)
    return r


def const_name(p):
    p = re.sub(r'<[^<>]*>', '', p)
    return '::'.join(p.split('::')[-2:])


def text0(t):
    k = t[0]
    if k in ('i', 'b'): return repr(t[1])
    if k in ('s', 'c'): return "'" + t[1].replace('\\', '\\\\').replace('\n', '\\n').replace("'", "\\'") + "'"
    if k == 'sym': return t[1]
    if k == 'const': return const_name(t[1])
    if k == 'fld':
        f = t[2].rsplit('.', 1)[-1] if '::' not in t[2] else '<' + t[2].rsplit('::', 1)[-1] + '>'
        return '%s.%s' % (text(t[1]), f)
    if k == 'elem': return '%s[*]' % text(t[1])
    if k == 'idx': return 'idx(%s)' % text(t[1])
    if k == 'agg':
        if t[1] == '()': return '(%s)' % ', '.join(text(v) for _, v in t[3])
        nm = t[2] or short(t[1])
        return '%s{%s}' % (nm, ', '.join('%s: %s' % (a, text(v)) for a, v in t[3])) if t[3] else nm
    if k in ('coll', 'cat'):
        o, c = ('[', ']') if k == 'coll' else ('"', '"')
        return o + '; '.join(text(x) + ('*' if m == '*' else '') + (' if ' + gtext(g) if g else '') for g, x, m in t[1]) + c
    if k == 'app': return '%s(%s)' % (appname(t[1]), ', '.join(text(x) for x in t[2:]))
    if k == 'choice': return '{' + ' | '.join(sorted(text(x) + (' if ' + gtext(g) if g else '') for g, x in t[1])) + '}'
    if k == 'clo': return 'λ' + '::'.join(t[1].rsplit('::', 2)[-2:])
    if k == 'fn': return short(t[1])
    if k == 'lv': return 'lv%s' % (t[2],)
    if k == 'mref': return '&mut'
    if k == 'is': return '%s∈{%s}' % (text(t[1]), t[3])
    return '%s(%s)' % (k, ', '.join(text(x) if isinstance(x, tuple) else str(x) for x in t[1:]))


def gtext(g):
    r = []
    for t, p, v in g:
        vs = sorted(map(str, v))
        if DOM.get(t) == BOOLDOM and len(vs) == 1: r.append(('' if vs == ['True'] else '!') + text(t))
        else: r.append('%s%s{%s}' % (text(t), '∈' if p else '∉', ','.join(vs)))
    return ' & '.join(sorted(r))


def dtext(d): return ' || '.join(sorted(gtext(g) or 'true' for g in d)) if d else 'false'


# ---------------------------------------------------------------- literals as atoms
# An atom test is (variable, function value -> bool); variables have a kind: int or enum
class Lit:
    __slots__ = ('var', 'kind', 'vals', 'pos', 'op', 'txt')

    def __init__(self, var, kind, op, vals, pos, txt=''):
        self.var, self.kind, self.op, self.vals, self.pos, self.txt = var, kind, op, vals, pos, txt

    def key(self): return (self.var, self.kind, self.op, self.vals, self.pos)

    def ev(self, env):
        v = env[self.var]
        if self.op == 'in': r = v in self.vals
        elif self.op == 'lt': r = v < self.vals
        else: raise Exception(self.op)
        return r == self.pos


DOMTXT = {}     # text of an atom -> all its values


def tolit(l):
    t, p, v = l
    tx = text
    d = DOM.get(t)
    if d and all(isinstance(x, str) for x in d): DOMTXT[tx(t)] = {str(x) for x in d}
    k = t[0]
    if k == 'isempty': return Lit('len(%s)' % tx(t[1]), 'int', 'in', frozenset([0]), p == (True in v))
    if k == 'lt':
        truth = p == (True in v)
        a, b = t[1], t[2]
        if b[0] == 'i': return Lit(tx(a), 'int', 'lt', b[1], truth)
        if a[0] == 'i': return Lit(tx(b), 'int', 'lt', a[1] + 1, not truth)
        if a[0] in ('add', 'sub') or b[0] in ('add', 'sub'): pass
        return Lit(tx(t), 'enum', 'in', frozenset(['True']), truth)
    if k == 'app' and t[1] == 'len' or k == 'idx' or all(isinstance(x, int) and not isinstance(x, bool) for x in v):
        return Lit(tx(t), 'int', 'in', frozenset(v), p)
    if DOM.get(t) == BOOLDOM: return Lit(tx(t), 'enum', 'in', frozenset(['True']), p == (True in v))
    return Lit(tx(t), 'enum', 'in', frozenset(map(str, v)), p)


def split_top(s, seps):
    """Split at separators outside of brackets and quotes."""
    out, cur, d, i = [], [], 0, 0
    while i < len(s):
        ch = s[i]
        if ch == "'":
            j = i + 1
            while s[j] != "'": j += 2 if s[j] == '\\' else 1
            cur.append(s[i:j + 1])
            i = j + 1
            continue
        if d == 0:
            sep = next((x for x in seps if s.startswith(x, i)), None)
            if sep:
                out.append(''.join(cur))
                cur = []
                i += len(sep)
                continue
        if ch in '([{': d += 1
        elif ch in ')]}': d -= 1
        cur.append(ch)
        i += 1
    return out + [''.join(cur)]


def parse_lit(s):
    s = s.strip()
    parts = None
    m = re.match(r'^(.*)([∈∉])\{([^{}]*)\}$', s, re.S)
    if m and balanced(m.group(1)):
        vals = [x.strip() for x in m.group(3).split(',')]
        pos = m.group(2) == '∈'
        if all(re.match(r'^-?\d+$', v) for v in vals): return Lit(m.group(1), 'int', 'in', frozenset(map(int, vals)), pos)
        return Lit(m.group(1), 'enum', 'in', frozenset(vals), pos)
    pos = True
    if s.startswith('!'): pos, s = False, s[1:]
    m = re.match(r'^isempty\((.*)\)$', s, re.S)
    if m and balanced(m.group(1)): return Lit('len(%s)' % m.group(1), 'int', 'in', frozenset([0]), pos)
    m = re.match(r'^(.*) < (-?\d+)$', s, re.S)
    if m: return Lit(m.group(1), 'int', 'lt', int(m.group(2)), pos)
    return Lit(s, 'enum', 'in', frozenset(['True']), pos)


def balanced(s):
    d = 0
    for ch in s:
        if ch in '([{': d += 1
        elif ch in ')]}':
            d -= 1
            if d < 0: return False
    return d == 0


def parse_guard(s):
    s = s.strip()
    if s in ('', 'true'): return [[]]
    return [[parse_lit(l) for l in split_top(c, [' & '])] for c in split_top(s, [' || '])]


def todnf(d): return [[tolit(l) for l in g] for g in d]


class TooBig(Exception): pass


def equivalent(a, b, ctx=((),)):
    """Semantic equality of two DNFs (lists of lists of Lit) in a context DNF.  Returns None or a distinguishing assignment."""
    allv = {}
    for d in (a, b, ctx):
        for c in d:
            for l in c:
                e = allv.setdefault(l.var, [l.kind, set()])
                if l.kind == 'int': e[0] = 'int'
                if l.op == 'in': e[1] |= set(l.vals)
                else: e[1] |= {l.vals - 1, l.vals}
    names = sorted(allv)
    doms = []
    for n in names:
        k, vs = allv[n]
        if k == 'int':
            vs = {x for x in vs if isinstance(x, int)}
            vs |= {max(vs | {0}) + 1}
            if n.startswith(('len(', 'idx(')):
                vs |= {0, 1, 2}
                vs = {x for x in vs if x >= 0}
            else: vs |= {min(vs) - 1}
            doms.append(sorted(vs))
        else:
            vs = set(map(str, vs))
            full = DOMTXT.get(n)
            for closed in ({'Some', 'None'}, {'Ok', 'Err'}):
                if vs <= closed: full = closed
            if full and vs <= set(full) and full != {'True', 'False'}: doms.append(sorted(full))
            else: doms.append(sorted(vs) + ['·other'])
    size = 1
    for d in doms: size *= len(d)
    if size > 400000: raise TooBig()
    pairs = [(i, names.index('len(' + n[4:])) for i, n in enumerate(names) if n.startswith('idx(') and 'len(' + n[4:] in names]
    rules = theory(names)
    def val(d, env): return any(all(l.ev(env) for l in c) for c in d)
    for vs in itertools.product(*doms):
        env = dict(zip(names, vs))
        if any(isinstance(vs[i], int) and isinstance(vs[j], int) and vs[i] >= vs[j] for i, j in pairs): continue
        if any(r(env) for r in rules): continue
        if not val(ctx, env): continue
        if val(a, env) != val(b, env): return env
    return None


def theory(names):
    """Combinations of atoms which cannot occur."""
    out = []
    sw = {}
    for n in names:
        if n.startswith('str.starts_with(') and n.endswith(')'):
            a = split_top(n[len('str.starts_with('):-1], [', '])
            if len(a) != 2: continue
            if 'len(%s)' % a[0] in names: out.append(lambda env, n=n, l='len(%s)' % a[0]: env[n] == 'True' and env[l] == 0)
            if a[0] in names: out.append(lambda env, n=n, l=a[0]: env[n] == 'True' and env[l] == '')
            if re.match(r'^pred\(eqc\(\$c, .\)\)$', a[1]): sw.setdefault(a[0], []).append(n)
        m = re.match(r'^lt\((.*)\)$', n, re.S)
        if m:
            a = split_top(m.group(1), [', '])
            if len(a) == 2 and n < 'lt(%s, %s)' % (a[1], a[0]) and 'lt(%s, %s)' % (a[1], a[0]) in names:
                out.append(lambda env, n=n, l='lt(%s, %s)' % (a[1], a[0]): env[n] == 'True' and env[l] == 'True')
    for ns in sw.values():
        if len(ns) > 1: out.append(lambda env, ns=ns: sum(env[n] == 'True' for n in ns) > 1)
    return out


def conj_dnf(a, b): return [list(x) + list(y) for x in a for y in b]


# ---------------------------------------------------------------- normal form of a value
def lift_choices(t, cap=96):
    """[(guard, term without alternatives outside of collections)]"""
    memo = {}
    def go(t):
        if not isinstance(t, tuple) or not t: return [(EMPTY, t)]
        k = t[0]
        if k in ('i', 's', 'c', 'b', 'sym', 'fn', 'top', 'bot', 'const', 'lv', 'mref', 'uninit', 'bytes', 'coll', 'cat', 'clo'): return [(EMPTY, t)]
        h = memo.get(id(t))
        if h is not None: return h[1]
        if k == 'choice':
            out = []
            for g, x in t[1]:
                for g2, y in go(x):
                    c = conj_and(g, g2)
                    if c is not None: out.append((c, y))
        else:
            if k == 'agg': ks = [x for _, x in t[3]]
            else: ks = list(t[1:])
            out = [(EMPTY, ())]
            for x in ks:
                n = []
                for g, xs in out:
                    for g2, y in (go(x) if isinstance(x, tuple) else [(EMPTY, x)]):
                        c = conj_and(g, g2)
                        if c is not None: n.append((c, xs + (y,)))
                out = n
                if len(out) > cap: raise TooBig()
            if k == 'agg': out = [(g, ('agg', t[1], t[2], tuple(zip([n for n, _ in t[3]], xs)))) for g, xs in out]
            else: out = [(g, (k,) + xs) for g, xs in out]
        memo[id(t)] = (t, out)
        return out
    return go(t)


def item_norm(items, assume):
    """Items of a collection with alternatives lifted into the guards; assumptions applied."""
    out = OrderedDict()
    for g, x, m in items:
        for g2, y in lift_choices(x):
            c = conj_and(g, g2)
            if c is None: continue
            c = apply_assume(c, assume)
            if c is None: continue
            out.setdefault((y, m), []).append(c)
    return [(dnf_simplify(gs), y, m) for (y, m), gs in out.items()]


def cat_norm(items, assume):
    """The same for a text: only neighbours are alternatives of each other."""
    out = []
    for g, x, m in items:
        for g2, y in lift_choices(x):
            c = conj_and(g, g2)
            if c is None: continue
            c = apply_assume(c, assume)
            if c is None: continue
            if out and out[-1][1:] == [y, m]: out[-1][0].append(c)
            else: out.append([[c], y, m])
    return [(dnf_simplify(gs), y, m) for gs, y, m in out]


def apply_assume(g, assume):
    out = []
    for l in g:
        v = assume(l)
        if v is False: return None
        if v is True: continue
        out.append(l)
    return frozenset(out)


# assumptions which other properties justify
ASSUME = {
    'RANGE': 'Some', 'OFF2POS': 'Some', 'LOCK': 'Ok',
}


def assume_std(l, extra={}):
    t, p, v = l
    if t == ('sym', 'ROOTS?'): return ('Ok' in v) == p
    if t[0] == 'app' and t[1].startswith('overflow:'): return (False in v) == p
    if t[0] == 'app':
        w = ASSUME.get(t[1]) or extra.get(t[1])
        if t[1] == 'serde_json::to_value' and t[2][0] == 'agg': w = 'Ok'
        if t[1] == 'serde_json::from_value' and text(t[2]).startswith('serde_json::to_value('): w = 'Ok'
        if w and all(isinstance(x, str) for x in v): return (w in v) == p
        # offsets of a document lie inside of its text
        if t[1].startswith('Rope::try_') and text(t[2]) in ('DOC.rope', 'ROPE') and all(isinstance(x, str) for x in v): return ('Ok' in v) == p
    return None


# ---------------------------------------------------------------- specification text
class S:
    """A parsed specification value."""
    def __init__(self, kind, name=None, fields=None, items=None, leaf=None):
        self.kind, self.name, self.fields, self.items, self.leaf = kind, name, fields, items, leaf

    def __repr__(self):
        if self.kind == 'leaf': return self.leaf
        if self.kind == 'agg': return '%s{%s}' % (self.name, ', '.join('%s: %r' % kv for kv in self.fields.items()))
        return self.kind + '(' + '; '.join(repr(i if isinstance(i, S) else i[0]) for i in self.items) + ')'


def parse_spec(s):
    s = s.strip()
    if s and s[0] in '[<"' and s[-1] == {'[': ']', '<': '>', '"': '"'}[s[0]]:
        kind = {'[': 'set', '<': 'seq', '"': 'cat'}[s[0]]
        inner = s[1:-1].strip()
        items = []
        if inner:
            for it in split_top(inner, [';']):
                parts = split_top(it.strip(), [' if '])
                v = parts[0].strip()
                g = parse_guard(' if '.join(parts[1:])) if len(parts) > 1 else [[]]
                m = 1
                if v.endswith('*') and not v.endswith('[*'): m, v = '*', v[:-1]
                items.append((parse_spec(v), g, m))
        return S(kind, items=items)
    m = re.match(r'^mapof\((.*)\)$', s, re.S)
    if m and balanced(m.group(1)): return S('app', name='mapof', items=[parse_spec(m.group(1))])
    if s.startswith('(') and s.endswith(')') and balanced(s[1:-1]):
        return S('tup', items=[parse_spec(x) for x in split_top(s[1:-1], [','])])
    m = re.match(r'^([A-Za-z_]\w*)\{(.*)\}$', s, re.S)
    if m and balanced(m.group(2)):
        fields = OrderedDict()
        for f in split_top(m.group(2), [',']):
            if not f.strip(): continue
            n, v = f.strip().split(':', 1)
            fields[n.strip()] = parse_spec(v)
        return S('agg', name=m.group(1), fields=fields)
    return S('leaf', leaf=s)


# ---------------------------------------------------------------- comparison
def settle(alts):
    """A loop which is never left early (under the assumptions) runs to its end."""
    pol = {}
    for gs, y, m in alts:
        for g in gs:
            for l in g:
                if l[0][0] == 'exhausted': pol.setdefault(l[0], set()).add((True in l[2]) == l[1])
    full = [x for x, p in pol.items() if p == {True}]
    if not full: return alts
    def nox(g): return frozenset(l for l in g if l[0] not in full)
    out = []
    for gs, y, m in alts:
        for x in full: y = drop_lit(y, x)
        out.append((dnf_simplify([nox(g) for g in gs]), y, m))
    return out


def own_lists(x):
    """The lists whose elements a value is made of (not those of lists inside it)."""
    if not isinstance(x, tuple) or not x or x[0] in ('coll', 'cat'): return
    if x[0] == 'elem': yield x[1]
    for y in x[1:]:
        if isinstance(y, tuple):
            if y and isinstance(y[0], tuple):
                for z in y: yield from own_lists(z[-1] if len(z) == 2 and not isinstance(z[0], tuple) else z)
            else: yield from own_lists(y)


def some_element(g, x):
    """A condition without `the list is not empty` for lists of which there is an element at hand."""
    if not any(l[0][0] == 'isempty' for c in (g if not isinstance(g, frozenset) else [g]) for l in c): return g
    ls = set(own_lists(x))
    drop = lambda c: frozenset(l for l in c if not (l[0][0] == 'isempty' and l[0][1] in ls and l[1] and l[2] == frozenset([False])))
    return drop(g) if isinstance(g, frozenset) else [drop(c) for c in g]


class Cmp:
    def __init__(self, assume=assume_std):
        self.assume = assume

    def value(self, sp, t, ctx, path):
        """Differences between specification sp and term t (no alternatives outside of collections)."""
        if sp.kind == 'leaf':
            if sp.leaf == '_': return []
            tx = text(t)
            # an optional field of a default value
            if sp.leaf == 'None' and re.match(r'^new:[A-Z]\w*\.\w+$', tx): return []
            return [] if tx == sp.leaf else ['%s is `%s`, expected `%s`' % (path or 'value', tx[:600], sp.leaf)]
        if sp.kind == 'app':
            if t[0] != 'app' or t[1] != sp.name or len(t) != 2 + len(sp.items): return ['%s is `%s`, expected a `%s`' % (path or 'value', text(t)[:400], sp.name)]
            return [d for s, x in zip(sp.items, t[2:]) for d in self.value(s, x, ctx, path)]
        if sp.kind == 'tup':
            if t[0] != 'agg' or t[1] != '()' or len(t[3]) != len(sp.items): return ['%s is `%s`, expected %r' % (path or 'value', text(t)[:400], sp)]
            return [d for n, (s, x) in enumerate(zip(sp.items, t[3])) for d in self.value(s, x[1], ctx, '%s.%d' % (path, n))]
        if sp.kind == 'agg' and t[0] == 'upd':
            out = []
            for f, s in sp.fields.items():
                b = t
                while b[0] == 'upd' and b[2].rsplit('.', 1)[-1] != f: b = b[1]
                v = b[3] if b[0] == 'upd' else fld(b, t[2].rsplit('.', 1)[0] + '.' + f)
                if t[2].rsplit('.', 1)[0] != sp.name: out.append('%s is a `%s`, expected a `%s`' % (path, t[2].rsplit('.', 1)[0], sp.name))
                out += self.value(s, v, ctx, path + '.' + f)
            return out
        if sp.kind == 'agg':
            if t[0] != 'agg' or (t[2] or short(t[1])) != sp.name:
                return ['%s is `%s`, expected a `%s`' % (path or 'value', text(t)[:400], sp.name)]
            d = dict(t[3])
            out = []
            for f, s in sp.fields.items():
                if f not in d: out.append('%s.%s is missing' % (path, f))
                else: out += self.value(s, d[f], ctx, path + '.' + f)
            return out
        return self.items(sp, t, ctx, path)

    def items(self, sp, t, ctx, path):
        if sp.kind == 'cat':
            its = cat_items(t)
        elif t[0] == 'coll': its = list(t[1])
        else:
            return ['%s is `%s`, expected the collection %r' % (path or 'value', text(t)[:400], sp)]
        its = cat_norm(its, self.assume) if sp.kind in ('seq', 'cat') else item_norm(its, self.assume)
        if sp.kind in ('seq', 'cat'):
            if len(its) != len(sp.items): return ['%s has %d parts `%s`, expected %d' % (path, len(its), text(t)[:600], len(sp.items))]
            out = []
            for n, (s, sg, sm) in enumerate(sp.items):
                # of parts which exclude each other either may be written first
                for k in range(n, len(its)):
                    if any(conj_and(c, q) is not None for h in its[n:k] for c in h[0] for q in its[k][0]): break
                    if not self.value(s, its[k][1], conj_dnf(ctx, sg), ''):
                        its.insert(n, its.pop(k))
                        break
                g, x, m = its[n]
                d = self.value(s, x, conj_dnf(ctx, sg), '%s[%d]' % (path, n))
                out += d or self.guard(sg, todnf(g), ctx, '%s[%d]' % (path, n), x)
                if m != sm: out.append('%s[%d] occurs %s, expected %s' % (path, n, 'repeatedly' if m == '*' else 'once', 'repeatedly' if sm == '*' else 'once'))
            return out
        out = []
        for i in OrderedDict.fromkeys(i for i in t[1] if i[2] == 1 and t[1].count(i) > 1): out.append('%s contains `%s` more than once' % (path or 'result', text(i[1])[:300]))
        left = list(its)
        for s, sg, sm in sp.items:
            hit, near = [], []
            for it in left:
                d = self.value(s, it[1], conj_dnf(ctx, sg), path + '[]')
                if not d: hit.append(it)
                else: near.append((len(d), d))
            if not hit:
                near.sort(key=lambda x: x[0])
                out.append('%s does not contain `%r`%s' % (path or 'result', s, ' (closest: %s)' % '; '.join(near[0][1])[:700] if near else ''))
                continue
            for it in hit: left.remove(it)
            g = [c for it in hit for c in todnf(some_element(it[0], it[1]))]
            out += self.guard(sg, g, ctx, path + '[]', hit[0][1])
            if any(it[2] != sm for it in hit): out.append('%s: `%r` occurs %s' % (path, s, 'once' if sm == '*' else 'repeatedly'))
        for g, x, m in left:
            out.append('%s contains in addition `%s` if %s' % (path or 'result', text(x)[:500], dtext(g)[:400]))
        return out

    def guard(self, spec, act, ctx, path, x):
        e = equivalent(spec, act, ctx)
        if e is None: return []
        return ['%s: `%s` is present under other conditions than specified (they differ e.g. for %s; here: %s)' % (
            path or 'value', text(x)[:300], ', '.join('%s=%s' % kv for kv in sorted(e.items()))[:600], ' || '.join(' & '.join(lt(l) for l in c) or 'true' for c in act)[:800])]

    def cases(self, spec, t, alts=None):
        """spec: list of (value text, guard text).  Differences of the alternatives of t."""
        if alts is None: alts = settle(item_norm([(EMPTY, t, 1)], self.assume))
        sps = [(parse_spec(v), parse_guard(g)) for v, g in spec]
        out, left = [], list(alts)
        for s, sg in sps:
            hit, near = [], []
            for a in left:
                d = self.value(s, a[1], sg, '')
                if not d: hit.append(a)
                else: near.append((not same_head(s, a[1]), len(d), d))
            if not hit:
                near.sort(key=lambda x: x[:2])
                out.append('no result `%s`%s' % (repr(s)[:300], ' (closest: %s)' % '; '.join(near[0][2])[:1500] if near else ''))
                continue
            for a in hit: left.remove(a)
            out += self.guard(sg, [c for a in hit for c in todnf(a[0])], [[]], '', hit[0][1])
        for g, x, m in left: out.append('in addition the result `%s` if %s' % (text(x)[:500], dtext(g)[:500]))
        return out


def same_head(s, t):
    while s.kind == 'agg' and t[0] == 'agg':
        if (t[2] or short(t[1])) != s.name: return False
        if len(s.fields) != 1 or len(t[3]) != 1: return True
        s, t = next(iter(s.fields.values())), t[3][0][1]
    return s.kind == 'leaf' and t[0] != 'agg' or s.kind in ('set', 'seq') and t[0] == 'coll'


def lt(l):
    if l.op == 'lt': return '%s%s<%s' % ('' if l.pos else '!', l.var, l.vals)
    if l.vals == frozenset(['True']): return ('' if l.pos else '!') + l.var
    return '%s%s{%s}' % (l.var, '∈' if l.pos else '∉', ','.join(map(str, sorted(l.vals, key=str))))


# ---------------------------------------------------------------- what the analysis does not interpret
# pure functions of the standard library: an application is a definite value
PURE = ('str::', 'String::', 'char::', 'num.', 'usize::', 'u32::', 'i64::', 'Rope::', 'RopeSlice::', 'Simple::', 'Url::', 'Value::', 'Path::', 'PathBuf::')


# what differs from one run to the next for the same document: no answer which depends on it can be the specified one
OUTSIDE = re.compile(r'(^|::)(fs::read\w*|File::open|env::(var\w*|vars\w*|current_dir|current_exe|args\w*|home_dir|temp_dir)|SystemTime::\w+|Instant::\w+|Duration::\w+|process::id|thread_rng|rand::random|RandomState::new|available_parallelism)$')


def uninterpreted(t, known=()):
    out = set()
    for x in walk_all(t):
        if x[0] == 'upd' and x[1][0] in ('sym', 'fld', 'upd', 'agg'): continue
        if x[0] in ('top', 'uninit', 'lv', 'mref', 'upd'): out.add(x[0] + ':' + text(x)[:80])
        elif x[0] == 'clo': out.add('closure ' + text(x))
        elif x[0] == 'app' and '::' in x[1] and not x[1].startswith(PURE) and x[1] not in known and not OUTSIDE.search(x[1]): out.add(x[1])
        elif x[0] == 'sym' and x[1].startswith('new:') and '@' in x[1]: out.add(x[1])
        elif x[0] == 'lt' or x[0] == 'app' and x[1] == 'range.contains':
            # a function body chosen by its place in the document
            s = text(x)
            if 'function_bodies[*].complete_range' in s and 'SYM' in s: out.add('place:' + s[:80])
    return sorted(out)


def judge(rep, key, where, diffs, t, known=(), what=''):
    """diffs of a normal form against its specification."""
    if not diffs:
        rep.ok()
        return True
    u = uninterpreted(t, known)
    if u: rep.unsure(key, where, '%s (not interpreted: %s)' % ('; '.join(diffs)[:600], ', '.join(u)[:300]))
    else: rep.violation(key, where, (what + ': ' if what else '') + '; '.join(diffs)[:3000])
    return False


# ---------------------------------------------------------------- the usual abbreviations
def some0(t): return ('fld', t, 'Option::Some.0')


def is_some0(x): return x[0] == 'fld' and x[2] == 'Option::Some.0'


def abbreviate(uri=None, pos=None, more=None):
    """Rewrites the accesses of a handler: DOC (the stored document of the requested URI), OFF (the
    requested position as an offset), SYM (the symbol found there), FB(id), UD (its use-def list)."""
    def f(x):
        if x[0] == 'app':
            if x[1] == 'DOCGET' and uri is not None and text(x[2]) == 'self.document_map' and text(x[3]) in ('display(%s)' % uri, uri + '.serialization', uri): return ('sym', 'DOC?')
            if x[1] == 'POS2OFF' and pos is not None and text(x[2]) == 'DOC.rope' and text(x[3]) == pos: return ('sym', 'OFF?')
            if x[1] == 'FINDSYM' and text(x[2]) == 'DOC.index' and text(x[3]) == 'OFF': return ('sym', 'SYM?')
            if x[1] == 'USEDEFS' and text(x) == 'USEDEFS(DOC.index, SYM.symbol_kind, FB(DOC.index.function_bodies, SYM.func_body_id))': return ('sym', 'SYMS?')
            if x[1] == 'map.get' and text(x) == 'map.get(SYMS, SYM.name)': return ('sym', 'UD?')
            if x[1] == 'LOCK' and text(x) == 'LOCK(self.root_paths)': return ('sym', 'ROOTS?')
        if x[0] == 'fld' and x[2] in ('Option::Some.0', 'Result::Ok.0') and x[1][0] == 'sym' and x[1][1].endswith('?'): return ('sym', x[1][1][:-1])
        if x[0] == 'choice':
            r = fb_choice(x)
            if r: return r
        x = hand_conversion(x)
        if more: return more(x) or x
        return x
    def g(x):
        y = f(x)
        if y is not x and x[0] in DOMK and x in DOM: DOM.setdefault(y, DOM[x])
        return y
    return g


DOMK = ('app', 'sym', 'fld', 'choice')


def hand_conversion(x):
    """Conversions of offsets of a stored document to positions which are written out, as OFF2POS."""
    from ropes import strip_ok, coords
    y = strip_ok(x)
    if y is not x and y[0] == 'fld' and y[2] == 'Position.line': return y
    if y[0] == 'app' and y[1] == 'Rope::byte_to_line' and text(y[2]) in ('DOC.rope', 'ROPE'):
        return ('fld', some0(('app', 'OFF2POS', y[2], y[3])), 'Position.line')
    if x[0] == 'agg' and short(x[1]) == 'Position':
        d = dict(x[3])
        l = strip_ok(d['line'])
        if l[0] != 'fld' or l[2] != 'Position.line': return x
        q = l[1]
        if q[0] == 'fld' and q[2] in ('Range.start', 'Range.end') and is_some0(q[1]) and q[1][1][0] == 'app' and q[1][1][1] == 'RANGE':
            q = some0(('app', 'OFF2POS', q[1][1][2], ('fld', q[1][1][3], q[2])))
        if is_some0(q) and q[1][0] == 'app' and q[1][1] == 'OFF2POS':
            rope, o = q[1][2:4]
            if strip_ok(d['character']) in (('fld', q, 'Position.character'), ('fld', l[1], 'Position.character')): return q
            if text(rope) in ('DOC.rope', 'ROPE'):
                L = ('sym', 'L')
                f, _ = coords(rope, {o: ('byte', L)})
                c = mapterm(d['character'], lambda z: ('app', 'at:line', L) if z == l else z)
                if text(mapterm(c, f)) == 'sub(at:u16(L), at:u16(linestart(L)))': return q
    return x


def fb_choice(x):
    """{Some(fbs[id.Some.0]) if id∈Some [& in bounds] | None otherwise} -> FB(fbs, id)."""
    src = None
    for g, y in x[1]:
        if y[0] != 'agg' or y[1] != OPT: return None
        if y[2] == 'Some':
            p = y[3][0][1]
            if p[0] == 'app' and p[1] == 'index' and is_some0(p[3]) and text(p[2]).endswith('function_bodies'):
                if src is not None and src != (p[2], p[3][1]): return None
                src = (p[2], p[3][1])
                for l in g:
                    if l[0] == p[3][1]: continue
                    if text(l[0]) == 'lt(%s, len(%s))' % (text(p[3]), text(p[2])): continue
                    return None
            else: return None
    if src is None: return None
    for g, y in x[1]:
        if y[2] == 'None':
            for l in g:
                if l[0] != src[1] and text(l[0]) != 'lt(%s.<Some.0>, len(%s))' % (text(src[1]), text(src[0])): return None
    return ('app', 'FB', src[0], src[1])


def handler_nf(ctx, name, uri=None, pos=None, opaque=None, more=None):
    r = ctx.handler(name, opaque or Ctx.STD)
    if r is None: return None, None
    return r, mapterm(r.ret, abbreviate(uri, pos, more))


def check_handler(ctx, rep, name, spec, uri=None, pos=None, opaque=None, more=None, extra=None, known=()):
    r, t = handler_nf(ctx, name, uri, pos, opaque, more)
    rep.count('handlers_analysed')
    if r is None:
        rep.violation('missing:' + name, '-', 'the server does not implement `%s`' % name)
        return None
    rep.count('bodies_inlined', len(r.analysed))
    cmp = Cmp(lambda l: assume_std(l, extra or {}))
    try: d = cmp.cases(spec, t)
    except TooBig:
        rep.unsure('result:' + name, bat(r.body), 'the normal form is too large')
        return t
    if judge(rep, 'result:' + name, bat(r.body), d, t, known, '`%s`' % name): rep.sample('%s = %s' % (name, '  |  '.join('%s if %s' % s for s in spec)))
    return t


def check_fn(ctx, rep, key, body, spec, names=None, opaque=(), more=None, extra=None, known=(), assume=None):
    """A function against the specification of its result."""
    r = ctx.run(body, opaque=opaque, names=names)
    rep.count('functions_analysed')
    t = mapterm(r.ret, abbreviate(more=more))
    cmp = Cmp(assume or (lambda l: assume_std(l, extra or {})))
    try: d = cmp.cases(spec, t)
    except TooBig:
        rep.unsure('result:' + key, bat(body), 'the normal form is too large')
        return t
    if judge(rep, 'result:' + key, bat(body), d, t, known, '`%s`' % body.path): rep.sample('%s = %s' % (key, '  |  '.join('%s if %s' % s for s in spec)))
    return t


def check_bool(ctx, rep, key, body, guard, names=None, opaque=(), known=(), assume=assume_std):
    """A predicate: the condition under which it is true."""
    r = ctx.run(body, opaque=opaque, names=names)
    rep.count('functions_analysed')
    d = apply_assume_dnf(r.eng.cond(r.ret, True), assume)
    try:
        e = equivalent(parse_guard(guard), todnf(d))
        diffs = [] if e is None else ['true if `%s`, expected `%s` (they differ e.g. for %s)' % (dtext(d)[:500], guard, ', '.join('%s=%s' % kv for kv in sorted(e.items()))[:300])]
    except TooBig: return rep.unsure('result:' + key, bat(body), 'the condition is too large')
    if judge(rep, 'result:' + key, bat(body), diffs, r.ret, known, '`%s`' % body.path): rep.sample('%s is true iff %s' % (key, guard))


def apply_assume_dnf(d, assume): return [x for x in (apply_assume(c, assume) for c in d) if x is not None]


def restrict(t, fix):
    """Specialises a term: fix maps the text of a literal's term to its value."""
    memo = {}
    def known(l):
        v = fix(l[0])
        if v is None: return None
        return (v in l[2]) == l[1]
    def gg(g):
        if not g: return g
        out = []
        for l in g:
            l = (go(l[0]), l[1], l[2]) if isinstance(l[0], tuple) else l
            k = known(l)
            if k is False: return None
            if k is None:
                b = boolconst(l)
                if b is False: return None
                if b is True: continue
                out.append(l)
        return frozenset(out)
    def boolconst(l):
        if l[0] in (T_TRUE, T_FALSE): return (l[0][1] in l[2]) == l[1]
        return None
    def go(t):
        if not isinstance(t, tuple) or not t: return t
        k = t[0]
        if k in ('i', 's', 'c', 'b', 'sym', 'fn', 'top', 'bot', 'const', 'lv', 'mref', 'uninit', 'bytes'): return t
        h = memo.get(id(t))
        if h is not None: return h[1]
        if k in ('coll', 'cat'):
            its = [(gg(g), go(x), m) for g, x, m in t[1]]
            its = [i for i in its if i[0] is not None]
            n = cat(its) if k == 'cat' else (k, tuple(its))
        elif k == 'choice':
            al = [(gg(g), x) for g, x in t[1]]
            n = mk_choice([(g, go(x)) for g, x in al if g is not None])
        elif k == 'agg': n = ('agg', t[1], t[2], tuple((f, go(x)) for f, x in t[3]))
        elif k == 'clo': n = ('clo', t[1], tuple(go(x) for x in t[2]))
        elif k == 'fld': n = fld(go(t[1]), t[2])
        else: n = tuple(go(x) if isinstance(x, tuple) else x for x in t)
        if n != t and t in DOM: DOM.setdefault(n, DOM[t])
        memo[id(t)] = (t, n)
        return n
    return go(t)
