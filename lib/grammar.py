"""The grammar which the combinator terms denote.

The value of the parser (a term of combinator applications, all helper functions inlined) is turned
into productions: a flat sequence of elements plus the value which is built from them.  Closures are
evaluated symbolically on the elements they receive.  `then`, `ignore_then`, `then_ignore`,
`delimited_by`, `padded_by`, `map`, `to`, `boxed`, `clone` etc. disappear; what remains is which
inputs are matched in which order and where every part of the result comes from.
"""
from spec import *


class Unknown(Exception): pass


I = lambda k: ('i', k)


RANGE = 'std::ops::Range'


def ref(k): return ('app', '$', I(k))
def tok(k): return ('app', 'tok', I(k))
def span(a, b): return ('app', 'span', I(a), I(b))


def shift(t, n):
    if n == 0: return t
    def f(x):
        if x[0] == 'app' and x[1] in ('$', 'tok'): return ('app', x[1], I(x[2][1] + n))
        if x[0] == 'app' and x[1] == 'span': return span(x[2][1] + n, x[3][1] + n)
        return x
    return mapterm(t, f)


class Prod:
    def __init__(self, elems, out): self.elems, self.out = elems, out


class Grammar:
    def __init__(self, ctx, eng):
        self.ctx = ctx
        self.eng = eng
        self.memo = {}
        self.closures = set()
        self.notes = []
        self.log = []

    # ---- closures
    def call(self, f, args, elems=()):
        st = State({})
        self.eng.events = []
        self.eng.stack = []
        self.eng.depth = 0
        if f[0] == 'clo': self.closures.add(f[1])
        r = self.eng.apply(f, list(args), st, None, None)
        self.log.append((list(self.eng.events), elems))
        return mapterm(canon(self.ctx, self.eng.snap(st, r)), self.struct), list(self.eng.events)

    def struct(self, x):
        """An assignment to a field of a struct as the struct with all its fields."""
        if x[0] == 'choice' and any(y[0] == 'agg' and y[1] == RANGE for _, y in x[1]):
            # alternatives of a span: by start and end
            return ('agg', RANGE, None, tuple((n, mk_choice([(g, fld(y, 'Range.' + n)) for g, y in x[1]])) for n in ('start', 'end')))
        if x[0] != 'upd' or '::' in x[2]: return x
        name, f = x[2].rsplit('.', 1)
        if name == 'Range' and f in ('start', 'end'): return setfld(('agg', RANGE, None, tuple((g, fld(x[1], 'Range.' + g)) for g in ('start', 'end'))), x[2], x[3])
        ads = [k for k, v in self.ctx.prog.adts.items() if k.rsplit('::', 1)[-1] == name and v.get('local') and len(v['variants']) == 1]
        if len(ads) != 1: return x
        return setfld(('agg', ads[0], None, tuple((g, fld(x[1], name + '.' + g)) for g in self.fields(ads[0]))), x[2], x[3])

    def fields(self, adt):
        return [f if isinstance(f, str) else f['name'] for f in self.ctx.prog.adts[adt]['variants'][0]['fields']]

    # ---- parsers
    def P(self, t):
        h = self.memo.get(t)
        if h is None: h = self.memo[t] = self.P0(t)
        return h

    def single(self, e, out=None): return Prod([e], ref(0) if out is None else out)

    def P0(self, t):
        if t[0] == 'choice' and len({x for _, x in t[1]}) == 1: return self.P(t[1][0][1])
        if t[0] != 'app': raise Unknown('`%s` is not a combinator' % text(t)[:80])
        n, a = t[1].rsplit('::', 1)[-1], t[2:]
        own = t[1]
        if n == 'just':
            return self.just(a[0])
        if n in ('one_of', 'none_of'):
            vs = self.elements(a[0])
            return Prod([('lit', ('in' if n == 'one_of' else 'notin', frozenset(vs)))], tok(0))
        if n == 'any': return Prod([('lit', ('notin', frozenset()))], tok(0))
        if n == 'end': return Prod([('end',)], UNIT)
        if n == 'empty': return Prod([], UNIT)
        if n == 'filter':
            r, _ = self.call(a[0], [('sym', 't')])
            return Prod([('lit', self.pred_lit(r))], tok(0))
        if n == 'filter_map':
            r, _ = self.call(a[0], [('sym', 'sp'), ('sym', 't')])
            oks = []
            for g, x in lift_choices(r):
                if x[0] != 'agg' or x[2] not in ('Ok', 'Err'): raise Unknown('filter_map result')
                if x[2] == 'Ok': oks.append((g, x[3][0][1]))
            outs = {text(x) for _, x in oks}
            if len(outs) != 1: raise Unknown('filter_map with several results')
            d = dnf_simplify([g for g, _ in oks])
            vs = set()
            for c in d:
                if len(c) != 1: raise Unknown('filter_map condition')
                l = next(iter(c))
                if l[0] != ('sym', 't') or not l[1]: raise Unknown('filter_map condition')
                vs |= {value_text(v) for v in l[2]}
            def sub(x):
                if x == ('sym', 't'): return tok(0)
                if x == ('sym', 'sp'): return span(0, 0)
                return x
            return Prod([('lit', ('in', frozenset(vs)))], mapterm(oks[0][1], sub))
        if n in ('then', 'ignore_then', 'then_ignore', 'chain'):
            x, y = self.P(a[0]), self.P(a[1])
            k = len(x.elems)
            yo = shift(y.out, k)
            out = {'then': ('agg', '()', None, (('0', x.out), ('1', yo))), 'ignore_then': yo, 'then_ignore': x.out, 'chain': ('app', 'cat', x.out, yo)}[n]
            return Prod(x.elems + y.elems, out)
        if n == 'padded_by':
            p, x = self.P(a[1]), self.P(a[0])
            return Prod(p.elems + x.elems + p.elems, shift(x.out, len(p.elems)))
        if n == 'delimited_by':
            x, l, r = self.P(a[0]), self.P(a[1]), self.P(a[2])
            return Prod(l.elems + x.elems + r.elems, shift(x.out, len(l.elems)))
        if n == 'map':
            x = self.P(a[0])
            r, _ = self.call(a[1], [x.out], x.elems)
            return Prod(x.elems, r)
        if n in ('map_with_span',):
            x = self.P(a[0])
            r, _ = self.call(a[1], [x.out, self.span_of(x)], x.elems)
            return Prod(x.elems, r)
        if n == 'validate':
            x = self.P(a[0])
            r, ev = self.call(a[1], [x.out, self.span_of(x), ('sym', 'EMIT')], x.elems)
            conds = []
            for e in ev:
                if e.kind == 'apply' and e.name == 'EMIT': conds += [canon_guard(self.ctx, c) for c in e.guard]
                elif any('EMIT' in text(y) for y in e.args): raise Unknown('use of the error callback')
            return Prod(x.elems + [('error', minimal(dnf_simplify(conds)))], r)
        if n == 'to':
            x = self.P(a[0])
            return Prod(x.elems, a[1])
        if n == 'ignored':
            x = self.P(a[0])
            return Prod(x.elems, UNIT)
        if n in ('boxed', 'clone', 'by_ref', 'labelled', 'debug', 'map_err', 'memoized'): return self.P(a[0])
        if n == 'collect':
            x = self.P(a[0])
            return x
        if n == 'flatten':
            x = self.P(a[0])
            return Prod(x.elems, ('app', 'flat', x.out))
        if n == 'or':
            xs = []
            def alts(p):
                if p[0] == 'app' and p[1].rsplit('::', 1)[-1] == 'or': alts(p[2]); alts(p[3])
                elif p[0] == 'app' and p[1].endswith('primitive::choice'): [alts(q) for q in self.tuple_items(p[2])]
                else: xs.append(p)
            alts(t)
            return self.single(('alt', [self.P(x) for x in xs]))
        if n == 'choice':
            xs = []
            def alts(p):
                if p[0] == 'app' and p[1].rsplit('::', 1)[-1] == 'or': alts(p[2]); alts(p[3])
                elif p[0] == 'app' and p[1].endswith('::choice'): [alts(q) for q in self.tuple_items(p[2])]
                else: xs.append(p)
            alts(t)
            return self.single(('alt', [self.P(x) for x in xs]))
        if n == 'or_not': return self.single(('opt', self.P(a[0])))
        if n == 'repeated': return self.single(('rep', self.P(a[0]), 0, None))
        if n in ('at_least', 'at_most', 'exactly'):
            x = self.P(a[0])
            if len(x.elems) == 1 and x.elems[0][0] in ('rep', 'sep') and a[1][0] == 'i':
                e = list(x.elems[0])
                i = 2 if e[0] == 'rep' else 3
                if n in ('at_least', 'exactly'): e[i] = a[1][1]
                if n in ('at_most', 'exactly'): e[i + 1] = a[1][1]
                return self.single(tuple(e))
        if n == 'separated_by': return self.single(('sep', self.P(a[0]), self.P(a[1]), 0, None, ()))
        if n in ('allow_trailing', 'allow_leading'):
            x = self.P(a[0])
            if len(x.elems) == 1 and x.elems[0][0] == 'sep':
                e = list(x.elems[0])
                e[5] = tuple(sorted(set(e[5]) | {n}))
                return self.single(tuple(e))
        if n == 'rewind': return Prod([('peek', self.P(a[0]))], ref(0))
        if n == 'not': return Prod([('not', self.P(a[0]))], tok(0))
        if n == 'take_until': return self.single(('until', self.P(a[0])))
        if n == 'recover_with': return self.single(('recover', self.P(a[0]), text(a[1])))
        if n == 'int' and a[0][0] == 'i': return self.single(('int', a[0][1]))
        if n == 'digits' and a[0][0] == 'i': return self.single(('digits', a[0][1]))
        if n == 'ident' or n == 'newline' or n == 'whitespace': raise Unknown(t[1])
        raise Unknown('combinator `%s`' % t[1])

    def tuple_items(self, t):
        if t[0] == 'agg' and t[1] == '()': return [x for _, x in t[3]]
        if t[0] == 'coll': return [x for _, x, _ in t[1]]
        raise Unknown('choice of `%s`' % text(t)[:80])

    def just(self, v):
        if v[0] == 's':
            return Prod([('lit', ('in', frozenset([lit_text(('c', ch))]))) for ch in v[1]], v)
        return Prod([('lit', ('in', frozenset([lit_text(v)])))], v)

    def elements(self, v):
        if v[0] == 's': return [lit_text(('c', ch)) for ch in v[1]]
        if v[0] == 'coll':
            if any(g or m == '*' for g, _, m in v[1]): raise Unknown('set of elements')
            return [lit_text(x) for _, x, _ in v[1]]
        return [lit_text(v)]

    def span_of(self, p):
        """First to last consumed element."""
        idx = [i for i, e in enumerate(p.elems) if e[0] not in ('peek', 'error', 'end')]
        if not idx: return span(0, 0)
        return span(idx[0], idx[-1])

    def pred_lit(self, r):
        """A predicate on one element `t`."""
        c = self.eng.cond(r, True) if r[0] not in ('choice',) else [g for g, x in r[1] if x == T_TRUE]
        if r[0] == 'choice' and any(x not in (T_TRUE, T_FALSE) for _, x in r[1]):
            c = []
            for g, x in r[1]:
                if x == T_FALSE: continue
                if x == T_TRUE: c.append(g)
                else:
                    for h in self.eng.cond(x, True):
                        k = conj_and(g, h)
                        if k is not None: c.append(k)
        T = ('sym', 't')
        def member(l):
            a = l[0]
            if a[0] == 'app' and a[1] == 'str.contains' and a[2][0] == 's' and a[3] in (T, ('pred', ('eq', ('sym', '$c'), T)), ('pred', ('eq', T, ('sym', '$c')))):
                return lit(T, (True in l[2]) == l[1], list(a[2][1]))
            return l
        c = [frozenset(member(l) for l in g) for g in c]
        # alphanumeric means alphabetic or numeric
        al, nu, an = [frozenset([lit(('app', 'char.is_' + n, T), True, [True], BOOLDOM)]) for n in ('alphabetic', 'numeric', 'alphanumeric')]
        d = minimal(dnf_simplify(list(c)))
        if al in d and nu in d: d = minimal([g for g in d if g not in (al, nu)] + [an])
        if all(len(g) == 1 for g in d) and d:
            ls = [next(iter(g)) for g in d]
            if all(l[0] == ('sym', 't') for l in ls) and (all(l[1] for l in ls) or len(ls) == 1):
                return ('in' if ls[0][1] else 'notin', frozenset(value_text(v) for l in ls for v in l[2]))
        return ('pred', dtext(d))


PLAIN = ('Comment', 'Newline', 'Declare', 'Define')


def value_text(v):
    v = str(v)
    if len(v) == 1: return "'%s'" % v.encode('unicode_escape').decode()
    return v if v in PLAIN else v + '(_)'


def minimal(d):
    """Removes literals which do not change the DNF, deterministically."""
    d = [frozenset(c) for c in d]
    ls = todnf(d)
    changed = True
    while changed:
        changed = False
        for i, c in enumerate(d):
            for l in sorted(c, key=lambda l: gtext(frozenset([l]))):
                n = d[:i] + [c - {l}] + d[i + 1:]
                try:
                    if equivalent(todnf(d), todnf(n)) is None:
                        d = n
                        changed = True
                        break
                except TooBig: return d
            if changed: break
    return list(dict.fromkeys(d))


def lit_text(v):
    if v[0] == 'c' or v[0] == 's': return "'%s'" % v[1].encode('unicode_escape').decode()
    if v[0] == 'agg' and v[2]:
        if not v[3]: return v[2]
        return '%s(%s)' % (v[2], ', '.join(lit_text(x) for _, x in v[3]))
    raise Unknown('element `%s`' % text(v)[:60])


# ---------------------------------------------------------------- normalisation
def first(p):
    """(set of literal conditions, nullable); None: anything."""
    out = set()
    for e in p.elems:
        f, n = first_elem(e)
        if f is None: return None, n
        out |= f
        if not n: return out, False
    return out, True


def first_elem(e):
    k = e[0]
    if k == 'lit': return ({e[1]}, False)
    if k == 'end': return ({('in', frozenset(['⊣']))}, False)
    if k in ('int', 'digits'): return ({('in', frozenset(["'%s'" % c for c in '0123456789'] + (["'%s'" % c for c in 'abcdefABCDEF'] if e[1] == 16 else [])))}, False)
    if k == 'alt':
        out, n = set(), False
        for p in e[1]:
            f, m = first(p)
            if f is None: return None, n
            out |= f
            n = n or m
        return out, n
    if k in ('rep', 'sep', 'opt'):
        f, m = first(e[1])
        return f, m or k == 'opt' or (e[2] if k == 'rep' else e[3]) == 0
    if k == 'recover': return first(e[1])
    if k == 'error': return set(), True
    return None, True


def disj1(a, b):
    """Definitely no common element."""
    if a[0] == 'in' and b[0] == 'in':
        for x in a[1]:
            for y in b[1]:
                if x == y: return False
                if x.endswith('(_)') and y.startswith(x[:-2]) or y.endswith('(_)') and x.startswith(y[:-2]): return False
        return True
    if a[0] == 'notin' and b[0] == 'in': a, b = b, a
    if a[0] == 'in' and b[0] == 'notin': return a[1] <= b[1]
    if a[0] == 'pred' and b[0] == 'in': a, b = b, a
    if a[0] == 'in' and b[0] == 'pred':
        # identifiers start with a letter or an underscore
        if b[1] == "char.is_alphabetic(t) || t∈{_}":
            return all(len(x) == 3 and not (x[1].isalpha() or x[1] == '_') or x in ("'\\n'", "'\\r'") for x in a[1])
    return False


def disjoint(p, q):
    """No input matches both: after the same number of single elements there is no common one."""
    a = [e for e in p.elems if e[0] != 'error']
    b = [e for e in q.elems if e[0] != 'error']
    for i in range(min(len(a), len(b))):
        f, n = first(Prod(a[i:], VOID))
        g, m = first(Prod(b[i:], VOID))
        if f is not None and g is not None and not n and not m and all(disj1(x, y) for x in f for y in g): return True
        if a[i][0] != 'lit' or b[i][0] != 'lit': return False
    return False


VOID = ('app', 'void')


def const_of(e):
    """The only value an element can match: (variant, payload text)."""
    if e[0] == 'lit' and e[1][0] == 'in' and len(e[1][1]) == 1: return next(iter(e[1][1]))
    return None


def optional_first(p):
    """`opt(a) b` with single elements a, b whose values nobody uses: `b | a b`."""
    es, out = p.elems, p.out
    for i in range(len(es) - 1):
        a, b = es[i], es[i + 1]
        if a[0] != 'opt' or b[0] != 'lit' or len(a[1].elems) != 1 or a[1].elems[0][0] != 'lit' or not disj1(a[1].elems[0][1], b[1]): continue
        us = [x for x in walk_all(out) if x[0] == 'app' and x[1] in ('$', 'tok') and x[2][1] in (i, i + 1)]
        sp = [x for x in walk_all(out) if x[0] == 'app' and x[1] == 'span' and (x[3][1] == i or x[2][1] == i + 1)]
        if us or sp: continue
        at = lambda k: k if k <= i else k - 1
        def f(x):
            if x[0] == 'app' and x[1] in ('$', 'tok'): return ('app', x[1], I(at(x[2][1])))
            if x[0] == 'app' and x[1] == 'span': return span(at(x[2][1]), at(x[3][1]))
            return x
        return optional_first(Prod(es[:i] + [('alt', [Prod([b], VOID), Prod([a[1].elems[0], b], VOID)])] + es[i + 2:], mapterm(out, f)))
    return p


def one_list(x):
    """Alternatives which are lists with common entries: one list with conditional entries."""
    if x[0] != 'choice': return x
    colls = [t for _, t in x[1] if t[0] == 'coll']
    if not colls: return x
    long = max((t[1] for t in colls), key=len)
    rows = []
    for g, t in x[1]:
        if t[0] != 'coll': t = ('coll', ((frozenset(), ('elem', t), '*'),))
        if any(h for h, _, _ in t[1]): return x
        rows.append((g, [y[1:] for y in t[1]]))
    long = [y[1:] for y in long]
    if any(h for t in colls for h, _, _ in t[1]): return x
    has = [[] for _ in long]
    for g, r in rows:
        k = 0
        for y in r:
            while k < len(long) and long[k] != y: k += 1
            if k == len(long): return x
            has[k].append(g)
            k += 1
    return ('coll', tuple((g,) + y for y, gs in zip(long, has) for g in minimal(dnf_simplify(gs))))


def norm(p, used=True):
    """Canonical production; values which nobody uses are dropped."""
    p = optional_first(Prod(p.elems, p.out if used else VOID))
    out = p.out
    refs = {x[2][1] for x in walk_all(out) if x[0] == 'app' and x[1] == '$'}
    elems = [norm_elem(e, i in refs) for i, e in enumerate(p.elems)]
    def sub(x):
        if x[0] == 'fld' and x[1][0] == 'app' and x[1][1] == 'tok' and x[1][2][1] < len(elems):
            c = const_of(elems[x[1][2][1]])
            m = re.match(r"^\w+\('(.*)'\)$", c) if c else None
            if m: return ('s', m.group(1))
        return x
    return Prod(elems, mapterm(mapterm(out, one_list), sub))


KINDS = {'Comment', 'Newline', 'Declare', 'Define'} | {k + '(_)' for k in ('Num', 'HexNum', 'Str', 'LocalName', 'GlobalName', 'DebugRef', 'Type', 'Ident', 'FuncModifier', 'Punctuation')}


def norm_elem(e, used=True):
    k = e[0]
    if k == 'error': return e
    if k == 'lit' and e[1][0] == 'in' and e[1][1] <= KINDS and 2 * len(e[1][1]) > len(KINDS): return ('lit', ('notin', KINDS - e[1][1]))
    if k == 'until' and not used and len(e[1].elems) == 1 and e[1].elems[0][0] == 'peek':
        # everything up to one of some elements or the end
        q = e[1].elems[0][1]
        while len(q.elems) == 1 and q.elems[0][0] == 'alt' and len(q.elems[0][1]) == 1: q = q.elems[0][1][0]
        ps = q.elems[0][1] if len(q.elems) == 1 and q.elems[0][0] == 'alt' else [q]
        if all(len(x.elems) == 1 and (x.elems[0][0] == 'end' or x.elems[0][0] == 'lit' and x.elems[0][1][0] == 'in') for x in ps) and any(x.elems[0][0] == 'end' for x in ps):
            vs = frozenset().union(*[x.elems[0][1][1] for x in ps if x.elems[0][0] == 'lit'])
            return ('rep', Prod([('lit', ('notin', vs))], VOID), 0, None)
    if k == 'alt':
        ps = [norm(p, used) for p in e[1]]
        # alternatives without a common first element commute
        out = []
        rest = ps
        while rest:
            cand = [i for i, p in enumerate(rest) if all(disjoint(p, q) for q in rest[:i])]
            i = min(cand, key=lambda i: ptext(rest[i]))
            out.append(rest[i])
            rest = rest[:i] + rest[i + 1:]
        if all(len(p.elems) == 1 and p.elems[0][0] == 'lit' and p.elems[0][1][0] == 'in' and p.out in (tok(0), VOID) for p in out):
            return ('lit', ('in', frozenset().union(*[p.elems[0][1][1] for p in out])))
        return ('alt', out)
    if k in ('rep', 'opt', 'sep', 'peek', 'not', 'until', 'recover'):
        e = list(e)
        e[1] = norm(e[1], used and k != 'not')
        if k == 'sep': e[2] = norm(e[2], False)
        if k == 'not' and len(e[1].elems) == 1 and e[1].elems[0][0] == 'lit' and e[1].elems[0][1][0] == 'in': return ('lit', ('notin', e[1].elems[0][1][1]))
        return tuple(e)
    return e


# ---------------------------------------------------------------- text
def otext(t):
    """Text of a value; alternatives are grouped by value."""
    if t[0] == 'choice':
        d = OrderedDict()
        for g, x in t[1]: d.setdefault(otext(x), []).append(g)
        return '{' + ' | '.join(sorted('%s if %s' % (x, cond_text(gs)) for x, gs in d.items())) + '}'
    if t[0] == 'agg' and t[1] != '()' and t[3]: return '%s{%s}' % (t[2] or short(t[1]), ', '.join('%s: %s' % (n, otext(v)) for n, v in sorted(t[3])))
    if t[0] == 'agg' and t[1] == '()': return '(%s)' % ', '.join(otext(v) for _, v in t[3])
    if t[0] == 'app' and t[1] == '$': return '$%d' % t[2][1]
    if t[0] == 'app' and t[1] == 'tok': return 't%d' % t[2][1]
    if t[0] == 'app' and t[1] == 'span': return 'span%d' % t[2][1] if t[2] == t[3] else 'span%d..%d' % (t[2][1], t[3][1])
    if t[0] == 'coll': return '[' + '; '.join(otext(x) + ('*' if m == '*' else '') + (' if ' + otext_guard([g]) if g else '') for g, x, m in t[1]) + ']'
    if t[0] == 'elem': return otext(t[1]) + '[*]'
    if t[0] == 'isempty': return 'isempty(%s)' % otext(t[1])
    if t[0] == 'fld': return '%s.%s' % (otext(t[1]), t[2].rsplit('.', 1)[-1] if '::' not in t[2] else '<' + t[2].rsplit('::', 1)[-1] + '>')
    if t[0] == 'app': return '%s(%s)' % (appname(t[1]), ', '.join(otext(x) for x in t[2:]))
    return text(t)


def otext_guard(gs):
    return ' || '.join(sorted(' & '.join(sorted('%s%s{%s}' % (otext(l[0]), '∈' if l[1] else '∉', ','.join(sorted(map(str, l[2])))) for l in g)) for g in gs))


def cond_text(gs):
    """A condition on a single atom as a set of values."""
    atoms = {l[0] for g in gs for l in g}
    if len(atoms) == 1:
        pos, neg = set(), None
        ok = True
        for g in gs:
            if len(g) == 1:
                l = next(iter(g))
                if l[1]: pos |= set(map(str, l[2]))
                else:
                    v = set(map(str, l[2]))
                    neg = v if neg is None else neg & v
            else: ok = False
        if ok:
            a = otext(next(iter(atoms)))
            if neg is None: return '%s∈{%s}' % (a, ','.join(sorted(pos)))
            return '%s∉{%s}' % (a, ','.join(sorted(neg - pos)))
    # conjunctions of equalities with constants on the same value: a chain of comparisons
    eqs = {}
    for g in gs:
        for l in g:
            if l[0][0] == 'eq': eqs.setdefault(otext(l[0]), l)
    return otext_guard(minimal(dnf_simplify(gs)))


def etext(e, ind):
    k = e[0]
    pad = '  ' * ind
    if k == 'lit':
        m, v = e[1]
        if m == 'pred': return 'one[%s]' % v
        if m == 'notin': return 'any' if not v else 'anyexcept[%s]' % ' '.join(sorted(v))
        return 'one[%s]' % ' '.join(sorted(v))
    if k in ('end',): return 'end'
    if k in ('int', 'digits'): return '%s(%d)' % (k, e[1])
    if k == 'error': return 'error if %s' % otext_guard(e[1])
    if k == 'alt' and SECTIONS is not None and len(e[1]) >= 4:
        n = section_name(e[1])
        l = [ptext(p, 0) for p in e[1]]
        for k in range(1, 9):
            m = n if k == 1 else '%s#%d' % (n, k)
            if m not in SECTIONS: SECTIONS[m] = l
            if SECTIONS[m] == l: return '<%s>' % m
    if k == 'alt': return '(%s)' % ' | '.join(ptext(p, ind + 2) for p in e[1])
    if k == 'opt': return 'opt(%s)' % ptext(e[1], ind + 1)
    if k == 'rep': return 'rep{%s,%s}(%s)' % (e[2], '' if e[3] is None else e[3], ptext(e[1], ind + 1))
    if k == 'sep': return 'sep{%s,%s%s}(%s BY %s)' % (e[3], '' if e[4] is None else e[4], ''.join(' ' + f for f in e[5]), ptext(e[1], ind + 1), ptext(e[2], ind + 1))
    if k in ('peek', 'not', 'until'): return '%s(%s)' % (k, ptext(e[1], ind + 1))
    if k == 'recover': return 'recover[%s](%s)' % (e[2], ptext(e[1], ind + 1))
    raise Exception(k)


def ptext(p, ind=0):
    return ' '.join('%d:%s' % (i, etext(e, ind)) for i, e in enumerate(p.elems)) + (' → ' + otext(p.out) if p.out != VOID and (p.out != ref(0) or len(p.elems) != 1) else '')


SECTIONS = None


def section_name(ps):
    """The type of the value which a large choice builds."""
    for p in ps:
        if p.out[0] == 'agg' and p.out[1] != '()': return short(p.out[1])
    return 'Choice'


def sections(p):
    """{name: [alternatives]} of all large choices, and the rest as `main`."""
    global SECTIONS
    SECTIONS = OrderedDict()
    try:
        m = ptext(p)
        SECTIONS['main'] = [m]
        return SECTIONS
    finally: SECTIONS = None


def nullable(e):
    f, n = first_elem(e)
    return n or e[0] in ('peek', 'end')


def loops(p, out):
    """All repetitions with their bodies."""
    for e in p.elems:
        if e[0] == 'rep': out.append((e, e[1]))
        if e[0] == 'sep': out.append((e, e[1]))
        if e[0] == 'alt': [loops(q, out) for q in e[1]]
        elif e[0] in ('rep', 'sep', 'opt', 'peek', 'not', 'until', 'recover'): loops(e[1], out)
    return out


# ---------------------------------------------------------------- the lemma
def parser_terms(ctx):
    """(result of parsing, tokenizer term, parser term)."""
    B = ctx.anchor.get('PARSE')
    if B is None: return None
    r = ctx.run(B, opaque=(), names=['src'])
    ps = []
    for x in walk_all(r.ret):
        if x[0] == 'app' and x[1].startswith('Parser::parse') and x not in ps: ps.append(x)
    # the tokenizer is the one whose input does not contain another parser
    ps.sort(key=lambda x: sum(1 for y in walk_all(x[3]) if y[0] == 'app' and y[1].startswith('Parser::parse')))
    return r, ps


class Events:
    """What the closures of the parsers do with the elements they receive."""
    def __init__(self, ctx, G):
        self.ctx, self.closures, self.events = ctx, G.closures, []
        for evs, elems in G.log:
            for e in evs:
                e.args = tuple(canon(ctx, a) for a in e.args)
                if e.guard != TRUE: e.guard = dnf_simplify([canon_guard(ctx, g) for g in e.guard])
            for e in evs: self.events.append((e, (evs, elems)))

    def result(self, e, prod):
        evs, elems = prod
        r = type('R', (), {})()
        r.events = evs
        r.nonempty = [ref(k) for k, x in enumerate(elems) if x[0] == 'rep' and x[2] > 0 or x[0] == 'sep' and x[3] > 0]
        return r


def closure_events(ctx):
    r, ps = parser_terms(ctx) if ctx.anchor.get('PARSE') else (None, [])
    G = Grammar(ctx, r.eng if r else None)
    for t in {x[2]: 0 for x in ps}:
        try: G.P(t)
        except (Unknown, Abort): pass
    return Events(ctx, G)


def grammar_lemma(ctx, rep, want=None):
    """want: {'TOKENIZER': [sections], 'PARSER': [sections]} or None for everything."""
    import grammar_spec
    B = ctx.anchor.get('PARSE')
    if B is None:
        rep.unsure('grammar', '-', 'no function which parses a text')
        return
    where = bat(B)
    r, ps = parser_terms(ctx)
    if len({x[2] for x in ps}) != 2:
        rep.unsure('grammar', where, '%d parsers are applied to the text' % len({x[2] for x in ps}))
        return
    G = Grammar(ctx, r.eng)
    for name, t in (('TOKENIZER', ps[0][2]), ('PARSER', ps[-1][2])):
        if want is not None and name not in want: continue
        spec = getattr(grammar_spec, name)
        try:
            p = norm(G.P(t))
            got = sections(p)
        except Unknown as e:
            rep.unsure('grammar:' + name, where, 'not interpreted: %s' % e)
            continue
        except TooBig:
            rep.unsure('grammar:' + name, where, 'too large')
            continue
        for s in list(spec) + [s for s in got if s not in spec]:
            if want is not None and want[name] and s not in want[name] and s in spec: continue
            compare_section(rep, 'grammar:%s:%s' % (name, s), grammar_at(ctx, name, where), spec.get(s, []), got.get(s, []), s)
        if want is None:
            for e, b in loops(p, []):
                f, n = first(b)
                if all(nullable(x) for x in b.elems): rep.violation('progress:' + name, where, 'a repetition whose body can match nothing does not terminate: %s' % ptext(b)[:300])
                else: rep.ok()
                rep.count('repetitions_consume_input')
    rep.count('closures_evaluated', len(G.closures))


def grammar_at(ctx, name, where):
    for B in ctx.prog.bodies.values():
        if B.path.rsplit('::', 1)[-1] == name.lower() and B.d['kind'] == 'Fn': return bat(B)
    return where


def compare_section(rep, key, where, want, got, name):
    rep.count('productions', len(got))
    missing = [x for x in want if x not in got]
    extra = [x for x in got if x not in want]
    if not missing and not extra:
        if want == got: rep.ok(len(want))
        else:
            k = next(i for i in range(len(want)) if want[i] != got[i])
            rep.violation(key + ':order', where, 'the alternatives of %s are tried in another order: `%s` comes before `%s`, although both can start with the same element' % (name, got[k][:120], want[k][:120]))
        return
    for m in missing:
        c = max(extra, key=lambda e: common(m, e), default=None)
        if c is not None and common(m, c) > 12:
            extra.remove(c)
            a, b = difference(m, c)
            rep.violation('%s:%s' % (key, label(m)), where, 'the production of %s `%s` deviates: expected `%s`, found `%s`' % (name, label(m), a, b))
        else: rep.violation('%s:%s' % (key, label(m)), where, 'the alternative `%s` of %s is missing' % (label(m), name))
    for e in extra: rep.violation('%s:extra:%s' % (key, label(e)), where, 'additional alternative of %s: %s' % (name, e[:300]))


def label(s):
    m = re.search(r'→ (?:\{)?(\w+)', s)
    h = re.match(r"0:one\[(\w+\('\w+'\))\]", s)
    return (m.group(1) if m else s[:30]) + ('/' + h.group(1) if h else '')


def common(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]: n += 1
    k = 0
    while k < min(len(a), len(b)) - n and a[-1 - k] == b[-1 - k]: k += 1
    return n + k


def difference(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]: n += 1
    k = 0
    while k < min(len(a), len(b)) - n and a[-1 - k] == b[-1 - k]: k += 1
    n = max(0, n - 15)
    k = max(0, k - 15)
    return a[n:len(a) - k][:300], b[n:len(b) - k][:300]


def parse_result_lemma(ctx, rep):
    """All tokens, statements and errors of both stages are returned; only comments are hidden from the parser."""
    B = ctx.anchor.get('PARSE')
    if B is None: return
    r, ps = parser_terms(ctx)
    if len({x[2] for x in ps}) != 2: return
    tk, pr = ps[0][2], ps[-1][2]
    def more(x):
        if x[0] == 'app' and x[1].startswith('Parser::parse'):
            rec = 'recovery' in x[1]
            if x[2] == tk: return ('sym', 'TOK' if rec else 'TOK-without-recovery')
            if x[2] == pr: return ('app', 'PST' if rec else 'PST-without-recovery', x[3])
        if x[0] == 'app' and x[1] == 'Simple::map': return ('app', 'ERR', x[2])
        if x[0] == 'app' and x[1] == 'Stream::from_iter': return ('app', 'INPUT', visible(x[3]))
        return None
    rep.count('functions_analysed')
    t = mapterm(r.ret, abbreviate(more=more))
    pst = 'PST(INPUT(TOKENS-WITHOUT-COMMENTS))'
    SPECS = {'tokens': [('TOK.0.<Some.0>', 'TOK.0∈{Some}'), ('[]', 'TOK.0∈{None}')],
             'stmts': [(pst + '.0.<Some.0>', 'TOK.0∈{Some} & %s.0∈{Some}' % pst), ('[]', 'TOK.0∈{None} || TOK.0∈{Some} & %s.0∈{None}' % pst)],
             'errors': [('[ERR(TOK.1[*])*; ERR(%s.1[*])* if TOK.0∈{Some}]' % pst, 'true')]}
    for f, spec in SPECS.items():
        v = fld(t, field_name(t, f))
        try: d = Cmp(lambda l: assume_std(l, {})).cases(spec, v)
        except TooBig:
            rep.unsure('result:parse:' + f, bat(B), 'the normal form is too large')
            continue
        if judge(rep, 'result:parse:' + f, bat(B), d, v, (), 'the %s of a text' % f): rep.sample('%s = %s' % (f, '  |  '.join('%s if %s' % s for s in spec)))


def field_name(t, f):
    for x in walk_all(t):
        if x[0] == 'agg' and x[1].endswith('ParserResult'):
            for n, _ in x[3]:
                if n.rsplit('.', 1)[-1] == f: return n
    return 'ParserResult.' + f


ALL_TOKENS = {'Comment', 'Num', 'HexNum', 'Str', 'LocalName', 'GlobalName', 'DebugRef', 'Type', 'Ident', 'FuncModifier', 'Punctuation', 'Newline', 'Declare', 'Define'}


def visible(t):
    """The token list with some kinds removed."""
    if t[0] == 'coll' and len({x for _, x, _ in t[1]}) == 1 and t[1][0][1][0] == 'elem':
        e = t[1][0][1]
        hidden = None
        for g, _, m in t[1]:
            s = set(ALL_TOKENS)
            for l in g:
                if l[0][0] == 'fld' and l[0][1] == e and text(l[0]).endswith('.0'): s &= set(l[2]) if l[1] else ALL_TOKENS - set(l[2])
                else: return t
            hidden = ALL_TOKENS - s if hidden is None else hidden & (ALL_TOKENS - s)
        if hidden == {'Comment'} and text(e[1]) == 'TOK.0.<Some.0>': return ('sym', 'TOKENS-WITHOUT-COMMENTS')
    return t
