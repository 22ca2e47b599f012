"""Freedom from panics: every operation which can panic is an obligation; it is discharged by contradiction of the path
condition, by difference bounds over lengths and indices, or by a rule about where a value comes from."""
import re
from lemmas import *
import models

ZERO = ('i', 0)
UNSIGNED = ('usize', 'u8', 'u16', 'u32', 'u64', 'u128')
SIZE = ('usize', 'isize', 'u64', 'i64', 'u128', 'i128')


def app(x, *names): return x[0] == 'app' and x[1] in names


def key_of(t): return t


def pat_len(p):
    """(minimal, exact or None) number of bytes matched by a string pattern."""
    if p[0] == 's': n = len(p[1].encode()); return n, n
    if p[0] == 'c': n = len(p[1].encode()); return n, n
    if p[0] == 'pred':
        q = p[1]
        cs = set()
        def go(q):
            if q[0] == 'eqc' and q[1] == ('sym', '$c'): cs.add(q[2]); return True
            if q[0] == 'bitor': return go(q[1]) and go(q[2])
            if q[0] == 'choice': return False
            return False
        if go(q):
            ns = {len(str(c).encode()) for c in cs}
            return min(ns), (ns.pop() if len(ns) == 1 else None)
        if q[0] == 'app' and q[1].startswith('char.is_ascii'): return 1, 1
        return 1, None
    return 0, None


class Facts:
    """Difference bounds u <= v + c over the numeric terms of one path."""
    def __init__(self, conj, eng=None, nonempty=()):
        self.e = {}
        self.eng = eng
        self.seen = set()
        self.false = False
        self.conj = conj
        for v in nonempty: self.le((ZERO, 1), self.lin(('app', 'len', v)))
        for l in conj: self.literal(l)

    def lin(self, t):
        """(atom, constant)"""
        if t[0] == 'i': return (ZERO, t[1])
        if t[0] == 'add' and t[2][0] == 'i': a, c = self.lin(t[1]); return (a, c + t[2][1])
        if t[0] == 'add' and t[1][0] == 'i': a, c = self.lin(t[2]); return (a, c + t[1][1])
        if t[0] == 'sub' and t[2][0] == 'i': a, c = self.lin(t[1]); return (a, c - t[2][1])
        if t[0] == 'cast' and len(t) > 2: return self.lin(t[2])
        if app(t, 'cast'): return self.lin(t[3]) if len(t) > 3 else (t, 0)
        self.atom(t)
        return (t, 0)

    def le(self, a, b):
        """a <= b (both linear)"""
        (x, c), (y, d) = a, b
        if x == y:
            if c > d: self.false = True
            return
        k = (x, y)
        w = d - c
        if k not in self.e or self.e[k] > w: self.e[k] = w

    def atom(self, t):
        if t in self.seen: return
        self.seen.add(t)
        L = self.lin
        self.le((ZERO, 0), (t, 0))
        ln = lambda v: L(('app', 'len', v))
        def lt(b, k=1): self.le((t, k), b)
        if t[0] == 'idx': lt(ln(t[1]))
        if t[0] == 'elem' and t[1][0] == 'agg' and t[1][1].endswith('ops::Range'):
            d = dict(t[1][3])
            self.le(L(d['start']), (t, 0))
            lt(L(d['end']))
        if t[0] == 'add': self.le(L(t[1]), (t, 0)); self.le(L(t[2]), (t, 0))
        if t[0] == 'sub': self.le((t, 0), L(t[1]))
        if app(t, 'min'):
            for x in t[2:]: self.le((t, 0), L(x))
        if app(t, 'max'):
            for x in t[2:]: self.le(L(x), (t, 0))
        if t[0] == 'fld' and t[2] == 'Option::Some.0':
            x = t[1]
            if app(x, 'str.find', 'str.rfind'): self.le((t, pat_len(x[3])[0]), ln(x[2]))
            if app(x, 'max', 'min') and all(app(y, 'str.find', 'str.rfind') for y in x[2:]) and len({y[2] for y in x[2:]}) == 1:
                self.le((t, min(pat_len(y[3])[0] for y in x[2:])), ln(x[2][2]))
        if app(t, 'byteidx') and app(t[2], 'chars'): lt(ln(t[2][2])); self.le(L(('idx', t[2])), (t, 0))
        if app(t, 'char.len_utf8'): self.le((ZERO, 1), (t, 0)); self.le((t, 0), (ZERO, 4))
        if app(t, 'len'):
            s = t[2]
            if app(s, 'str.trim_end_matches', 'str.trim_start_matches', 'str.trim_matches', 'str.trim', 'str.trim_start', 'str.trim_end', 'str.slice', 'str.head', 'str.tail', 'chars', 'skip', 'take', 'slice', 'subslice', 'drain'):
                self.le((t, 0), ln(s[2]))
            if s[0] == 'elem' and app(s[1], 'slice::windows', 'slice::chunks_exact') and s[1][3][0] == 'i': self.le((ZERO, s[1][3][1]), (t, 0)); self.le((t, 0), (ZERO, s[1][3][1]))
            if s[0] == 'elem' and app(s[1], 'slice::chunks', 'slice::rchunks'): self.le((ZERO, 1), (t, 0)); self.le((t, 0), L(s[1][3]))
            if app(s, 'str.split', 'str.rsplit'): self.le((ZERO, 1), (t, 0))
            if s[0] == 's': self.le((t, 0), (ZERO, len(s[1].encode()))); self.le((ZERO, len(s[1].encode())), (t, 0))
        if t[0] == 'fld' and t[2] == 'Range.end':
            s = ('fld', t[1], 'Range.start')
            self.le(L(s), (t, 0))
        if t[0] == 'fld' and t[2] == 'Range.start':
            e = ('fld', t[1], 'Range.end')
            self.le((t, 0), L(e))

    def literal(self, l):
        t, pos, vals = l
        true = pos and vals == frozenset([True])
        false = pos and vals == frozenset([False])
        for x in walk_all(t):
            # an element which was looked at exists
            if app(x, 'index') and x[3][0] in ('i', 'idx') and x is not t: self.le(self.lin(('add', x[3], ('i', 1))), self.lin(('app', 'len', x[2])))
            if x[0] == 'elem': self.le((ZERO, 1), self.lin(('app', 'len', x[1])))
        if t[0] == 'lt' and true: self.le(self.lin(('add', t[1], ('i', 1))), self.lin(t[2]))
        elif t[0] == 'lt' and false: self.le(self.lin(t[2]), self.lin(t[1]))
        elif t[0] == 'eq' and true: self.le(self.lin(t[1]), self.lin(t[2])); self.le(self.lin(t[2]), self.lin(t[1]))
        elif t[0] == 'isempty' and true: self.le(self.lin(('app', 'len', t[1])), (ZERO, 0))
        elif t[0] == 'isempty' and false: self.le((ZERO, 1), self.lin(('app', 'len', t[1])))
        elif true and app(t, 'str.starts_with', 'str.ends_with', 'str.contains'):
            n = pat_len(t[3])[0]
            if n: self.le((ZERO, n), self.lin(('app', 'len', t[2])))
            elif t[3][0] not in ('pred', 'sym'): self.le(self.lin(('app', 'len', t[3])), self.lin(('app', 'len', t[2])))
        elif pos and vals == frozenset(['Some']) and app(t, 'str.find', 'str.rfind', 'str.strip_prefix', 'str.strip_suffix'):
            n = pat_len(t[3])[0]
            self.le((ZERO, n), self.lin(('app', 'len', t[2])))
        elif vals and all(isinstance(v, int) and not isinstance(v, bool) for v in vals):
            if pos:
                self.le(self.lin(t), (ZERO, max(vals)))
                self.le((ZERO, min(vals)), self.lin(t))
            else:
                n = 0
                while n in vals: n += 1
                if n: self.le((ZERO, n), self.lin(t))
        elif t[0] in ('eqs',): pass

    def close(self):
        nodes = {a for k in self.e for a in k}
        d = dict(self.e)
        # Bellman-Ford from every node is enough for the few nodes of a path
        self.d = d
        if len(nodes) > 120: return
        for k in nodes:
            ins = [(i, w) for (i, j), w in d.items() if j == k]
            outs = [(j, w) for (i, j), w in d.items() if i == k]
            for i, a in ins:
                for j, b in outs:
                    if i == j:
                        if a + b < 0: self.false = True
                        continue
                    w = a + b
                    if d.get((i, j), 1 << 62) > w: d[(i, j)] = w
        for (i, j), w in d.items():
            if d.get((j, i), 1 << 60) + w < 0: self.false = True

    def proves(self, a, b, k=0):
        """a + k <= b"""
        x, y = self.lin(a), self.lin(b)
        self.close()
        if self.false: return True
        if x[0] == y[0]: return x[1] + k <= y[1]
        w = self.d.get((x[0], y[0]))
        return w is not None and x[1] + k + w <= y[1]


# ---------------------------------------------------------------- where the bytes of a text can be cut
def boundary(F, s, t, depth=0):
    """t is a character boundary of s, at most its length."""
    if t == ZERO: return True
    if t[0] == 'choice':
        for g, x in t[1]:
            c = merge(F.conj, g) if g else F.conj
            if c is not None and not boundary(Facts(c, F.eng), s, x, depth + 1): return False
        return True
    if app(t, 'len'):
        v = t[2]
        if v == s: return True
        if app(v, 'str.trim_end_matches', 'str.trim_end', 'str.head') and v[2] == s: return True
        if any(l[0] == ('app', 'str.starts_with', s, v) and l[2] == frozenset([True]) for l in F.conj): return True
    if app(t, 'byteidx') and t[2] == ('app', 'chars', s): return True
    ms = members(t)
    if ms and depth < 3: return all(boundary(F, s, x, depth + 1) for x in ms)
    if t[0] == 'add':
        a, b = t[1], t[2]
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if app(a, 'byteidx') and a[2] == ('app', 'chars', s) and b == ('app', 'char.len_utf8', ('elem', a[2])): return True
            for f, w in founds(a):
                if app(b, 'len') and f[3] == b[2]: break
                if f[2] != s or pat_len(f[3])[1] is None or b != ('i', pat_len(f[3])[1]): break
            else:
                if founds(a): return True
    if t[0] == 'sub' and t[1] == ('app', 'len', s):
        b = t[2]
        if app(b, 'len') and (app(b[2], 'str.trim_start_matches', 'str.trim_start') and b[2][2] == s or any(l[0] == ('app', 'str.ends_with', s, b[2]) and l[2] == frozenset([True]) for l in F.conj)): return True
        for l in F.conj:
            if app(l[0], 'str.ends_with') and l[0][2] == s and l[2] == frozenset([True]) and b == ('i', pat_len(l[0][3])[1]): return True
    if founds(t) and all(f[2] == s for f, _ in founds(t)): return True
    if t[0] == 'i':
        for l in F.conj:
            if app(l[0], 'str.starts_with') and l[0][2] == s and l[2] == frozenset([True]):
                p = l[0][3]
                if p[0] == 'choice':
                    ps = [x for g, x in p[1] if merge(F.conj, g) is not None]
                    if ps and all(x[0] == 's' and len(x[1].encode()) == t[1] for x in ps): return True
                if pat_len(p)[1] == t[1]: return True
                if p[0] == 's' and len(p[1].encode()) >= t[1]:
                    try: p[1].encode()[:t[1]].decode(); return True
                    except UnicodeDecodeError: pass
            if app(l[0], 'str.strip_prefix') and l[0][2] == s and l[2] == frozenset(['Some']) and pat_len(l[0][3])[1] == t[1]: return True
        if s[0] == 's':
            b = s[1].encode()
            try: b[:t[1]].decode(); return t[1] <= len(b)
            except UnicodeDecodeError: return False
        if s[0] == 'cat' and s[1] and not s[1][0][0] and s[1][0][2] == 1 and s[1][0][1][0] in ('s', 'c') and len(s[1][0][1][1].encode()) >= t[1] and s[1][0][1][1].isascii(): return True
    if is_span_end(t) and is_text(s, t): return True
    if app(t, 'min') and depth < 3: return all(boundary(F, s, x, depth + 1) for x in t[2:])
    return False


def members(t):
    """The values of which t is one, if t was selected from a sequence."""
    proj = []
    while t[0] == 'fld' and t[2] != 'Option::Some.0': proj.append(t[2]); t = t[1]
    if not (t[0] == 'fld' and app(t[1], 'nth', 'last', 'min', 'max', 'find', 'next') and len(t[1]) > 2 and t[1][2][0] == 'coll'): return []
    out = []
    for g, x, m in t[1][2][1]:
        for p in reversed(proj): x = fld(x, p)
        out.append(x)
    return out


def founds(t):
    """[(find term, side)] if t is the result of searches in a text."""
    if t[0] == 'fld' and t[2] == 'Option::Some.0':
        if app(t[1], 'str.find', 'str.rfind'): return [(t[1], 0)]
        if app(t[1], 'max', 'min') and all(app(y, 'str.find', 'str.rfind') for y in t[1][2:]): return [(y, 0) for y in t[1][2:]]
    return []


SPAN_ROOTS = ('stmts', 'tokens')


def is_span_end(t): return t[0] == 'fld' and t[2] in ('Range.start', 'Range.end')


def root(t):
    while True:
        if t[0] == 'fld' or t[0] == 'elem': t = t[1]
        elif app(t, 'index', 'last', 'first', 'map.get', 'at'): t = t[2]
        else: return t


def is_text(s, t):
    """s is the text from which the span t was made."""
    r = root(t)
    if r[0] == 'sym' and r[1] in SPAN_ROOTS and s == ('sym', 'src'): return True
    if app(r, 'PARSE') and r[2] == s: return True
    if app(r, 'INDEX') and r[2] == s: return True
    if app(r, 'FINDSYM', 'DOCGET') and 'rope' in text(s): return True
    return False


def ordered(F, a, b):
    """a <= b for two offsets"""
    if a == b or F.proves(a, b): return True
    for x, y in ((a, b),):
        if x[0] == 'choice': return all(ordered(F, z, y) for g, z in x[1])
        if y[0] == 'choice': return all(ordered(F, x, z) for g, z in y[1])
    # first and last element of one list of spans in document order
    if is_span_end(a) and is_span_end(b) and a[2] == 'Range.start':
        p, q = a[1], b[1]
        while p[0] == 'fld' and q[0] == 'fld' and p[2] == q[2]: p, q = p[1], q[1]
        if p == q: return True
        def coll_of(x): return x[2] if app(x, 'index', 'last', 'first') else (x[1] if x[0] == 'elem' else None)
        if coll_of(p) is not None and coll_of(p) == coll_of(q) and (p == ('app', 'index', coll_of(p), ZERO) or app(p, 'first') or app(q, 'last')): return True
    return False


# ---------------------------------------------------------------- indices
def in_bounds(F, v, ix, strict=True, ind=()):
    """ix < len(v) (or <= if not strict)"""
    k = 1 if strict else 0
    if v[0] == 'choice': return all(in_bounds(ext(F, g), x, ix, strict, ind) for g, x in v[1])
    if ix[0] == 'choice': return all(in_bounds(ext(F, g), v, x, strict, ind) for g, x in ix[1])
    if ix in (('idx', v), ('idx', ('app', 'again', v))): return True
    if F.proves(ix, length(v), k): return True
    if v[0] == 'coll' and ix[0] == 'i' and sum(1 for g, x, m in v[1] if not g and m == 1) >= ix[1] + k: return True
    # an id kept in a variable
    base, proj = ix, False
    if is_some0(ix): base, proj = ix[1], True
    if base[0] == 'lv' and F.eng is not None and base in F.eng.lv and base not in ind:
        info = F.eng.lv[base]
        return all(payload_ok(F, v, info[w], proj, ind + (base,)) for w in ('init', 'step'))
    if base in ind: return True
    # the function body of a symbol of the same index
    if proj and base[0] == 'fld' and base[2].endswith('.func_body_id') and v[0] == 'fld' and v[2].endswith('HIRIndex.function_bodies') and is_some0(base[1]) and app(base[1][1], 'FINDSYM') and base[1][1][2] == v[1]: return 'func_body_id'
    return False


def payload_ok(F, v, t, proj, ind):
    for g, x in alts_of(t):
        if not proj:
            if not (x in ind or in_bounds(ext(F, g), v, x, True, ind)): return False
            continue
        if x[0] == 'agg' and x[2] == 'None': continue
        if x[0] == 'agg' and x[2] == 'Some': y = x[3][0][1]
        else: y = some0(x)
        if y[0] == 'fld' and y[1] in ind: continue
        if not in_bounds(ext(F, g), v, y, True, ind): return False
    return True


def merge(a, b):
    return conj_and(frozenset(a), frozenset(b))


def ext(F, g):
    if not g: return F
    m = merge(F.conj, g)
    if m is None:
        G = Facts(F.conj, F.eng)
        G.false = True
        return G
    return Facts(m, F.eng)


# ---------------------------------------------------------------- obligations
class LV:
    def __init__(self, ctx, eng): self.lv = {k: {w: canon(ctx, x) for w, x in v.items()} for k, v in eng.lv.items()}


BENIGN = re.compile(r'^(Vec::(push|append|with_capacity|reserve|extend_from_slice|resize|extend_from_within|drain|splice|into_boxed_slice|shrink_to)|String::(push|push_str|with_capacity|reserve|insert_str|extend\w*)|'
                    r'(\w+::)?Iterator::(enumerate|position|count|sum|rposition|last|skip|max|min|rev|cycle|zip|chain|flat_map|for_each)|Iterator\w*::\w+|Mutex::lock|RwLock::(read|write)|Future::poll|.*Future::poll|BTreeMap::(insert|entry|range)|HashMap::(insert|entry|with_capacity|reserve)|'
                    r'VecDeque::(push_\w+|with_capacity)|env_logger::init|Runtime::block_on|MapAccess::next_value|.*MapAccess::next_value|str::(repeat|to_string)|ToString::to_string|.*::to_string|slice::(sort\w*|repeat|concat|join)|Default::default|'
                    r'Rope::(from_str|new|len_\w+)|RopeBuilder::\w+|Instant::(elapsed|duration_since)|.*::fmt|format|alloc::\w+::\w+)$')
EXPLICIT = re.compile(r'panicking::|^std::rt::(begin_panic|panic_fmt)|::panic_(fmt|display|explicit|str|any)$|^std::process::(exit|abort)$|^std::intrinsics::abort$|^std::panic::(panic_any|resume_unwind)$')
COUNTS = {'chunks': 1, 'chunks_exact': 1, 'rchunks': 1, 'windows': 1, 'step_by': 1, 'chunks_mut': 1}
ROPE = re.compile(r'^(Rope|RopeSlice)::(byte_to_\w+|char_to_\w+|line_to_\w+|utf16_cu_to_\w+|line|char|byte|slice|byte_slice|chunk_at_\w+|insert|insert_char|remove|split_off|lines_at|chars_at|bytes_at)$')


def understood(l, F=None):
    """Literals whose whole meaning is known to the rules above (or which say nothing about lengths and positions)."""
    t, pos, vals = l
    if t[0] in ('lt', 'eq', 'isempty'): return True
    if all(isinstance(v, str) for v in vals): return True              # variant of an enum, value of a text
    if all(isinstance(v, int) and not isinstance(v, bool) for v in vals): return True
    if app(t, 'str.starts_with', 'str.ends_with', 'str.contains', 'contains', 'cell.get'): return True
    if t[0] == 'app' and t[1].startswith('overflow:'): return True
    if t[0] in ('exhausted', 'which'): return True
    return False


SKIP = {'self', 'params'}


def subterms(t):
    out = set()
    for x in walk_all(t):
        if x[0] in ('i', 's', 'c', 'b', 'const', 'fn', 'top', 'bot'): continue
        if x[0] == 'sym' and x[1] in SKIP: continue
        if app(x, 'DOCGET') or is_some0(x) and app(x[1], 'DOCGET'): continue
        if x[0] == 'fld' and is_some0(x[1]) and app(x[1][1], 'DOCGET'): continue
        out.add(x)
    return out


def contradiction(conj, assume):
    """The path condition is impossible; None or the reason."""
    m = EMPTY
    for l in conj:
        m = merge(m, [l])
        if m is None: return 'the path condition contradicts itself'
    for l in m:
        if assume(l) is False: return 'a condition of the path cannot hold'
    return None


def same_line(l):
    """The literal says that two lines are equal."""
    t, pos, vals = l
    line = lambda x: any(y[0] == 'fld' and y[2].endswith('.line') for y in walk_all(x))
    if t[0] == 'sub' and vals == frozenset([0]): return pos and line(t)
    if t[0] == 'eq' and all(isinstance(v, bool) for v in vals): return (True in vals) == pos and line(t)
    if t[0] == 'lt' and all(isinstance(v, bool) for v in vals):
        # not less than (a difference which is at most 0, or less than 1)
        holds = (True in vals) == pos
        if t[1][0] == 'i': return not holds and t[1][1] == 0 and line(t[2])
        if t[2][0] == 'i': return holds and t[2][1] == 1 and line(t[1])
        return not holds and t[1][0] in ('fld', 'lv') and t[2][0] in ('fld', 'lv') and line(t)
    return False


class Panics:
    def __init__(self, ctx, rep):
        self.ctx, self.rep = ctx, rep
        self.count = {}
        self.used = set()
        self.seen = {}
        rm = [p for B in ctx.prog.bodies.values() for p, *_ in calls_of(B) if re.match(r'^dashmap::DashMap.*::(remove\w*|clear|retain|alter\w*)$', p or '')]
        self.removal = bool(rm)
        # fields of the stored document which hold numbers read from its text
        self.parsed = set()
        r = index_effects(ctx)
        for e in (r[0].events if r else []):
            for a in e.args:
                for x in walk_all(a):
                    if x[0] == 'agg': self.parsed |= {n for n, v in x[3] if any(app(y, 'str.parse', 'NUM') for y in walk_all(v))}

    def assume(self, l):
        t, pos, vals = l
        if app(t, 'LOCK'): return ('Ok' in vals) == pos
        if app(t, 'RANGE', 'OFF2POS') and not self.client(t): return ('Some' in vals) == pos
        if t[0] == 'app' and all(isinstance(v, str) for v in vals):
            n = t[1]
            if n == 'serde_json::to_value' and t[2][0] == 'agg': return ('Ok' in vals) == pos
            if n == 'serde_json::from_value' and text(t[2]).startswith('serde_json::to_value('): return ('Ok' in vals) == pos
            if re.search(r'(Write|fmt::Write|String)::(write_fmt|write_str|write_char)$', n): return ('Ok' in vals) == pos
            if n.endswith(('try_from', 'try_into')) and not self.client(t): return ('Ok' in vals) == pos
            if n == 'Url::parse' and t[2][0] == 's': return ('Ok' in vals) == pos
            if n.startswith(('Rope::try_', 'Rope::get_')) and not self.client(t): return bool(vals & {'Ok', 'Some'}) == pos
            if n in ('Regex::new', 'NonZero::new', 'char::from_digit', 'CString::new') and all(is_const(a) for a in t[2:]): return bool(vals & {'Ok', 'Some'}) == pos
            if n in ('str.parse',) and t[3][0] == 's': return ('Ok' in vals) == pos
        return None

    def client(self, t):
        """Numbers from outside: a position of the client or a parsed number."""
        for x in walk_all(t):
            if app(x, 'str.parse') or app(x, 'NUM'): return True
            if x[0] == 'fld' and re.search(r'(Position|Range)[.](line|character|start|end)$', x[2]) and 'std' not in x[2] and root(x) in (('sym', 'params'), ('sym', 'pos'), ('sym', 'position')):
                return not self.located(t, x)
        return False

    def located(self, t, x):
        """Every occurrence of x in t is the argument of a conversion which can fail."""
        def go(y):
            if y == x: return False
            if app(y, 'POS2OFF'): return True
            if not isinstance(y, tuple): return True
            return all(go(z) for z in y if isinstance(z, tuple)) if y and y[0] not in ('i', 's', 'c', 'b') else True
        return go(t)

    # ---- one event
    def event(self, r, e, lv):
        """None if discharged, else (certain, message)."""
        if e.guard == FALSE or not e.guard: return None
        worst = None
        for c in e.guard:
            v = self.path(r, e, c, lv)
            if v is None: continue
            if worst is None or v[0] and not worst[0]: worst = v
        return worst

    def path(self, r, e, conj, lv):
        if contradiction(conj, self.assume): return None
        F = Facts(conj, lv, list(self.pushed(r, e, conj)) + list(getattr(r, 'nonempty', ())))
        F.close()
        if F.false: return None
        if self.entered(r, e, conj): return None
        k = e.kind
        if k == 'unwrap': return self.verdict(F, e, list(e.args), 'the value is `%s`' % self.failing(e, conj))
        if k == 'assert': return self.assertion(F, e)
        if k == 'index': return self.indexing(F, e, e.args[0], e.args[1])
        if k in ('call', 'mutate'): return self.call(F, e)
        return (False, 'not interpreted')

    def failing(self, e, conj):
        out = [gtext(frozenset([l])) for l in conj if l[1] and l[2] in (frozenset(['None']), frozenset(['Err']))]
        return '; '.join(sorted(out))[:300] or text(e.args[0])[:300]

    def verdict(self, F, e, terms, msg, extra=()):
        """The obligation is open: is there a condition which the rules do not understand and which may discharge it?"""
        import engine
        if engine.APPROX: return (False, msg + ' (conditions were weakened because of their size)')
        subs = set()
        for t in terms: subs |= subterms(t)
        for l in F.conj:
            if understood(l): continue
            if subterms(l[0]) & subs: return (False, msg + ' (condition not interpreted: `%s`)' % gtext(frozenset([l]))[:120])
        for t in list(terms) + list(extra):
            # a list from which something was removed may be empty
            t = mapterm(t, lambda x: ('sym', '$shortened') if x[0] == 'app' and x[1] in ('after:Vec::pop', 'after:Vec::remove', 'after:Vec::truncate', 'after:Vec::retain') else x)
            for x in walk_all(t):
                if x[0] in ('top', 'uninit', 'lv'): return (False, msg + ' (not interpreted: `%s`)' % text(x)[:80])
                if x[0] == 'app' and x[1].startswith(('again', 'after:')): return (False, msg + ' (not interpreted: `%s`)' % text(x)[:80])
        return (True, msg)

    def assertion(self, F, e):
        a = e.args
        if e.name == 'bounds':
            n, i = a
            v = n[2] if app(n, 'len') else None
            if v is not None and in_bounds(F, v, i) or F.proves(i, n, 1): return None
            return self.verdict(F, e, [n, i], 'the index `%s` need not be less than `%s`' % (text(i)[:150], text(n)[:150]))
        if e.name in ('div0', 'rem0'):
            d = self.divisor(e)
            if d is None: return (False, 'divisor not known')
            if d[0] == 'i' and d[1]: return None
            if F.proves(('i', 1), d): return None
            return self.verdict(F, e, [d], 'the divisor `%s` may be 0' % text(d)[:200])
        if e.name == 'overflow':
            op, ty = e.extra.get('op'), e.extra.get('ty')
            return self.overflow(F, e, op, ty, a)
        if e.name == 'overflowneg':
            if a[0][0] == 'i': return None
            return self.verdict(F, e, [a[0]], 'the negation of `%s` may overflow' % text(a[0])[:150]) if self.unbounded(a[0]) else None
        return (False, 'not interpreted: %s' % e.name)

    def divisor(self, e):
        # the failing condition is `divisor == 0`
        out = None
        for c in e.guard:
            for l in c:
                if l[1] and l[2] == frozenset([0]): out = l[0]
                if l[0][0] == 'isempty' and l[2] == frozenset([True]): out = ('app', 'len', l[0][1])
        return out

    def overflow(self, F, e, op, ty, a):
        x, y = (list(a) + [ZERO, ZERO])[:2]
        if x[0] == 'choice' or y[0] == 'choice':
            w = None
            for g, p in alts_of(x):
                for h, q in alts_of(y):
                    m = conj_and(g, h)
                    if m is None: continue
                    G = ext(F, m)
                    if G.false: continue
                    v = self.overflow(G, e, op, ty, (p, q))
                    if v is not None and (w is None or v[0]): w = v
            return w
        if x[0] == 'i' and y[0] == 'i':
            z = {'Add': x[1] + y[1], 'Sub': x[1] - y[1], 'Mul': x[1] * y[1]}.get(op)
            if z is None: return None
            lo, hi = bounds_of(ty)
            return None if lo <= z <= hi else (True, 'the constant %s overflows' % z)
        what = '`%s` %s `%s`' % (text(x)[:150], {'Add': '+', 'Sub': '-', 'Mul': '*'}.get(op, op), text(y)[:150])
        if op == 'Sub' and ty in UNSIGNED:
            if self.greater(F, x, y): return None
            return self.verdict(F, e, [x, y], '%s may be negative' % what)
        if op in ('Shl', 'Shr'):
            return None if y[0] == 'i' and 0 <= y[1] < 8 else (False, what)
        bad = [t for t in (x, y) if self.unbounded(t)]
        if not bad:
            if op == 'Mul' and x[0] != 'i' and y[0] != 'i': return (False, what + ' may overflow')
            return None
        if op == 'Add' and ty in UNSIGNED and any(F.proves(t, ('i', 1 << 15)) for t in bad) and len(bad) == 1: return None
        # a comparison limits the value
        for t in bad:
            for l in F.conj:
                if self.limits(l, t, op): return (False, what + ' may overflow (limited by `%s`)' % gtext(frozenset([l]))[:100])
        return self.verdict(F, e, bad, '%s may overflow: the value comes from outside and is not bounded' % what)

    def limits(self, l, t, op):
        """The literal keeps t below something which is not itself without bounds."""
        c, pos, vals = l
        if c[0] == 'lt' and all(isinstance(v, bool) for v in vals):
            tr = (True in vals) == pos
            lo, hi = (c[1], c[2]) if tr else (c[2], c[1])
            if lo == t and not self.unbounded(hi): return True
            return hi == t and op != 'Add' and not self.unbounded(lo)
        return c == t and pos

    def unbounded(self, t):
        """Not limited by the size of the document or of another list in memory."""
        if t[0] in ('i', 'idx', 'bot'): return False
        if t[0] in ('add', 'sub', 'mul', 'min', 'max', 'div', 'rem'): return any(self.unbounded(x) for x in t[1:] if isinstance(x, tuple))
        if t[0] == 'choice': return any(self.unbounded(x) for _, x in t[1])
        if app(t, 'len', 'byteidx', 'char.len_utf8', 'char.len_utf16', 'min'): return False
        if app(t, 'max'): return any(self.unbounded(x) for x in t[2:])
        if t[0] == 'fld' and t[2] in ('Option::Some.0', 'Result::Ok.0'):
            x = t[1]
            if app(x, 'str.find', 'str.rfind', 'POS2OFF') or app(x, 'max', 'min') and not self.client(x): return False
            if x[0] == 'app' and x[1].startswith(('Rope', 'RopeSlice')): return False
        if t[0] == 'app' and t[1].startswith(('Rope', 'RopeSlice')): return False
        if t[0] == 'fld' and any(app(y, 'OFF2POS', 'RANGE') for y in walk_all(t)) and re.search(r'[.](line|character)$', t[2]): return False
        if is_span_end(t): return False
        if t[0] == 'cast' or app(t, 'cast'):
            k = next((str(y[1]) if isinstance(y, tuple) else str(y) for y in t[1:] if '->' in str(y)), '')
            inner = t[-1]
            if re.match(r"^\(?'?s?'?,? ?'?(u8|u16|u32|i32)->(usize|u64|i64|u128|i128)", k) or '->' in k and re.search(r'(u8|u16|u32|i32)->(usize|u64|i64|u128|i128)', k): return False
            return self.unbounded(inner)
        if t[0] == 'lv' or t[0] in ('top', 'uninit'): return False
        if t[0] == 'app' and t[1] in ('str.parse', 'NUM'): return True
        if t[0] == 'fld' and app(root(t), 'DOCGET', 'FINDSYM') and t[2].rsplit('.', 1)[-1] not in self.parsed: return False
        if t[0] == 'fld': return True
        if t[0] == 'sym': return True
        return t[0] == 'app'

    def greater(self, F, x, y):
        """x >= y"""
        if F.proves(y, x): return True
        # positions in one text
        def conv(t):
            t2 = t
            while t2[0] == 'fld' and t2[2] in ('Result::Ok.0', 'Option::Some.0'): t2 = t2[1]
            return t2 if t2[0] == 'app' and t2[1].startswith(('Rope', 'RopeSlice')) else None
        p, q = conv(x), conv(y)
        if p and q and p[2] == q[2]:
            if 'line_to' in text(y) and ('byte_to' in text(x) or 'char_to' in text(x)): return True
        if is_span_end(x) and is_span_end(y) and ordered(F, y, x): return True
        if app(x, 'len') and is_span_end(y) and is_text(x[2], y): return True
        # ordered list of tokens: the previous one is kept in a variable
        if y[0] == 'lv' and F.eng is not None and y in F.eng.lv:
            i = F.eng.lv[y]
            if all(v == ZERO for _, v in alts_of(i['init'])) and all(v == x or v == y for _, v in alts_of(i['step'])):
                # columns ascend only within one line
                if x[0] == 'fld' and x[2].endswith('.character') and not any(same_line(l) for l in F.conj): return False
                return 'ascending'
        return False

    def indexing(self, F, e, v, ix):
        ty = e.name
        if re.search(r'Map<', ty):
            l = models.in_map(v, ix)
            if any(c[0] == l and c[1] and c[2] == frozenset(['Some']) for c in F.conj): return None
            return self.verdict(F, e, [v, ix], 'the key `%s` need not be in the map' % text(ix)[:150])
        if re.fullmatch(r'(&(mut )?)?serde_json::(value::)?Value', ty): return None
        if ix[0] == 'agg' and short(ix[1]).startswith('Range'):
            d = {n: x for n, x in ix[3]}
            s, t = d.get('start', ZERO), d.get('end')
            if short(ix[1]) in ('RangeInclusive', 'RangeToInclusive'):
                if t is not None: t = ('add', t, ('i', 1))
            txt = ty in ('str', 'std::string::String', 'alloc::string::String') or ty.endswith('::String')
            n = length(v)
            if txt:
                ok_ = all(boundary(F, v, x) for x in (s, t) if x is not None) and (t is None or s == ZERO or ordered(F, s, t))
                if ok_: return None
                return self.verdict(F, e, [v], 'the text `%s` is cut at `%s`, which need not be a character boundary inside of it' % (text(v)[:120], text(ix)[:150]), [ix])
            ok_ = in_bounds(F, v, s if t is None else t, strict=False) and (t is None or s == ZERO or ordered(F, s, t))
            if ok_: return None
            return self.verdict(F, e, [v, ix], 'the range `%s` need not lie inside of `%s`' % (text(ix)[:150], text(v)[:150]))
        b = in_bounds(F, v, ix)
        if b:
            if isinstance(b, str): self.used.add(b)
            return None
        return self.verdict(F, e, [v, ix], 'the index `%s` need not be less than the length of `%s`' % (text(ix)[:150], text(v)[:150]))

    def call(self, F, e):
        n = models.norm(e.name)
        m = n.rsplit('::', 1)[-1]
        a = list(e.args)
        if EXPLICIT.search(e.name) or e.extra and e.extra.get('never'):
            return self.explicit(F, e)
        if m == 'split_at' and len(a) == 2:
            if 'str' in e.name:
                return None if boundary(F, a[0], a[1]) else self.verdict(F, e, [a[0]], 'the text `%s` is split at `%s`, which need not be a character boundary inside of it' % (text(a[0])[:120], text(a[1])[:150]), [a[1]])
            return None if in_bounds(F, a[0], a[1], strict=False) else self.verdict(F, e, a, 'split at `%s`' % text(a[1])[:150])
        if e.name.startswith('num::'):
            x = a[0]
            if m in ('abs', 'pow', 'next_power_of_two', 'next_multiple_of', 'strict_add', 'strict_sub', 'strict_mul'):
                bad = [y for y in a if self.unbounded(y)]
                if not bad: return None
                if any(self.limits(l, y, 'abs') for l in F.conj for y in bad): return (False, '`%s` of `%s` may overflow' % (m, text(bad[0])[:150]))
                return self.verdict(F, e, bad, '`%s` of `%s` may overflow' % (m, text(bad[0])[:150]))
            if m == 'clamp': return None if F.proves(a[1], a[2]) else self.verdict(F, e, a[1:], '`clamp` between `%s` and `%s`' % (text(a[1])[:80], text(a[2])[:80]))
            d = x if m.startswith('ilog') else a[1]
            return None if d[0] == 'i' and d[1] > 0 or F.proves(('i', 1), d) else self.verdict(F, e, [d], '`%s`: `%s` may be 0' % (m, text(d)[:120]))
        if n in ('Vec::remove', 'Vec::swap_remove', 'VecDeque::swap'): return None if in_bounds(F, a[0], a[1]) else self.verdict(F, e, a[:2], '`%s` of the element `%s`, which need not exist in `%s`' % (n, text(a[1])[:100], text(a[0])[:150]))
        if n in ('Vec::insert', 'Vec::split_off'): return None if a[1] == ZERO or in_bounds(F, a[0], a[1], strict=False) else self.verdict(F, e, a[:2], '`%s` at `%s`' % (n, text(a[1])[:100]))
        if n == 'slice::swap': return None if in_bounds(F, a[0], a[1]) and in_bounds(F, a[0], a[2]) else self.verdict(F, e, a, '`%s`' % n)
        if n in ('String::remove', 'String::insert', 'String::insert_str', 'String::split_off', 'String::truncate', 'String::replace_range', 'String::drain'):
            return None if boundary(F, a[0], a[1]) else self.verdict(F, e, [a[0]], '`%s` at `%s`, which need not be a character boundary' % (n, text(a[1])[:120]), [a[1]])
        if n == 'Vec::drain':
            return self.indexing(F, type('E', (), {'name': 'Vec', 'extra': None})(), a[0], a[1])
        if m in COUNTS and len(a) > 1:
            return None if a[1][0] == 'i' and a[1][1] > 0 or F.proves(('i', 1), a[1]) else self.verdict(F, e, [a[1]], '`%s` by `%s`, which may be 0' % (m, text(a[1])[:120]))
        if ROPE.match(n):
            cl = [x for x in a[1:] if self.client(x)]
            if not cl: return None
            return self.verdict(F, e, a[1:], '`%s` panics for a position outside of the text: `%s`' % (n, text(cl[0])[:150]))
        if re.match(r'Atomic\w*::(load|store)$', n):
            o = text(a[-1])
            bad = {'load': ('Release', 'AcqRel'), 'store': ('Acquire', 'AcqRel')}[m]
            return (True, '`%s` panics with the ordering `%s`' % (n, o)) if o in bad else None
        if BENIGN.match(n) or BENIGN.match(m): return None
        if re.search(r'(^|::)(block_on|blocking_\w+)$', e.name): return (True, '`%s` panics inside of the runtime' % n)
        if not (e.extra and e.extra.get('panics')): return None
        if all(is_const(x) for x in a[1:]) and len(a) > 1: return None
        return (False, '`%s` can panic' % n)

    def explicit(self, F, e):
        msg = '`%s` is reached' % models.norm(e.name)
        g = gtext(frozenset(l for l in F.conj if not app(l[0], 'DOCGET', 'LOCK')))
        if g: msg += ' if %s' % g[:300]
        for l in F.conj:
            t = l[0]
            if t[0] in ('lt', 'eq') and not self.client(t): return (False, msg)
            if any(x[0] in ('top', 'lv', 'uninit') for x in walk_all(t)): return (False, msg)
        return (True, msg)

    # ---- facts about the construction of values
    def pushed(self, r, e, conj):
        """Collections to which an element was added on every way here."""
        out = []
        gone = [x for x in r.events if x.kind == 'mutate' and re.search(r'(pop\w*|clear|truncate|remove|retain\w*|split_off|drain|swap_remove|dedup\w*)$', x.name)]
        for p in r.events:
            if p.kind == 'push' and any(x.args and (x.args[0] == p.args[0] or x.extra and p.extra and x.extra.get('label') and x.extra.get('label') == p.extra.get('label')) for x in gone): continue
            if p.kind == 'push' and p.seq < e.seq and len(p.args) >= 1:
                if any(not (q - conj) for q in p.guard): out.append(p.args[0])
        return out

    def entered(self, r, e, conj):
        """A key which was noted in one map only after it had been entered into another."""
        for l in conj:
            t = l[0]
            if app(t, 'map.get') and l[1] and l[2] == frozenset(['None']) and is_some0(t[3]) and app(t[3][1], 'map.get'):
                src = t[3][1][2]
                ins = [(x, x.args[2] if x.kind == 'map.insert' else (x.extra or {}).get('value')) for x in r.events if x.kind in ('map.insert', 'map.entry') and x.args[0] == src]
                if not ins or self.removed(r, t[2]): continue
                def ok_(x, v):
                    # (a default which is replaced at once)
                    if v is not None and v[0] == 'top' and any(y.kind == 'map.insert' and y.seq > x.seq and y.args[:2] == x.args[:2] and y.guard == x.guard for y in r.events): return True
                    return any(y.kind in ('map.entry', 'map.insert') and y.args[0] == t[2] and y.args[1] == v and all(any(not (q - g) for q in y.guard) for g in x.guard) for y in r.events)
                if all(ok_(*x) for x in ins): return True
        return False

    def removed(self, r, m): return any(x.kind == 'mutate' and x.args[0] == m and re.search(r'(remove|clear|retain)$', x.name) for x in r.events)


def bounds_of(ty):
    n = {'usize': 64, 'isize': 64}.get(ty) or int(re.sub(r'\D', '', ty or '64') or 64)
    return (0, (1 << n) - 1) if (ty or 'u').startswith('u') else (-(1 << (n - 1)), (1 << (n - 1)) - 1)


def calls_of(B):
    for b in B.blocks:
        if b['cleanup']: continue
        t = b['t']
        if t[0] == 'call': yield t[1].get('path'), b['sp'], t
