"""Shared machinery of the checks: extraction, anchors, canonical terms, reporting."""
import fcntl, hashlib, json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import *
import engine, models, prog

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HIRV_REPO', '/repo')
BUILD = os.environ.get('HIRV_BUILD', os.path.join(V, 'build'))
EVID = os.environ.get('HIRV_EVIDENCE', os.path.join(V, 'evidence'))
LS = 'bin::<Backend as tower_lsp::LanguageServer>::'


# ---------------------------------------------------------------- extraction
def source_files():
    out = []
    for base in ('src', '.cargo', 'benches', 'examples'):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            out += [os.path.join(d, f) for f in fs]
    for f in ('Cargo.toml', 'Cargo.lock', 'build.rs', 'rust-toolchain', 'rust-toolchain.toml'):
        p = os.path.join(REPO, f)
        if os.path.exists(p): out.append(p)
    out += [os.path.join(V, 'driver', 'main.rs'), os.path.join(V, 'lib', 'extract.sh')]
    return sorted(out)


def extract():
    """Dumps the type-checked program of /repo's working tree; cached by the content of all sources."""
    h = hashlib.sha256()
    for f in source_files():
        h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    d = os.path.join(BUILD, 'ex', h.hexdigest()[:24])
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, 'ok')):
            ex = os.path.join(BUILD, 'ex')
            if os.path.isdir(ex):
                for o in sorted(os.listdir(ex), key=lambda o: os.path.getmtime(os.path.join(ex, o)))[:-30]:
                    subprocess.run(['rm', '-rf', os.path.join(ex, o)])
            os.makedirs(d, exist_ok=True)
            r = subprocess.run(['bash', os.path.join(V, 'lib', 'extract.sh'), d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            missing = [c for c in prog.CRATES if not os.path.exists(os.path.join(d, c + '.json'))]
            if r.returncode or missing:
                sys.stderr.write(r.stdout)
                sys.stderr.write('cannot analyse %s: the type-checked program could not be extracted (%s)\n' % (REPO, missing))
                sys.exit(2)
            open(os.path.join(d, 'ok'), 'w').close()
    return d


# ---------------------------------------------------------------- anchors
# Small functions which are decided on their own (property C04, C10, ...) and stay uninterpreted elsewhere.
# Found by signature; the name only breaks ties.
ANCHORS = {
    'POS2OFF': (r'^fn\(&ropey::Rope, &(tower_lsp::lsp_types::|lsp_types::)Position\) -> std::option::Option<usize>$', 'lsp_pos_to_offset'),
    'OFF2POS': (r'^fn\(&ropey::Rope, usize\) -> std::option::Option<(tower_lsp::lsp_types::|lsp_types::)Position>$', 'offset_to_lsp_pos'),
    'RANGE': (r'^fn\(&ropey::Rope, &std::ops::Range<usize>\) -> std::option::Option<(tower_lsp::lsp_types::|lsp_types::)Range>$', 'range_to_lsp'),
    'FINDSYM': (r'^fn\(&(\'\S+ )?(\w+::)*HIRIndex, usize\) -> std::option::Option<&(\'\S+ )?(\w+::)*SymbolOccurrence>$', 'find_symbol_at_position'),
    'PARSE': (r'^fn\(&str\) -> (\w+::)*ParserResult$', 'parse_from_str'),
    'INDEX': (r'^fn\(&str, &\[.*Token.*\], &\[(\w+::)*Statement\]\) -> (\w+::)*HIRIndex$', 'create_index'),
    'NUM': (r'^fn\(&str\) -> std::option::Option<\(&str, i64\)>$', 'extract_number_from_identifier'),
    'RESOLVE': (r'^fn\(&\[(\w+::)*Url\], &str\) -> std::option::Option<(\w+::)*Url>$', 'resolve_relative_path'),
    'SEMTOK': (r'^fn\(&\[.*Token.*\]\) -> std::vec::Vec<(\w+::)*HIRSemanticToken>$', 'semantic_tokens_from_tokens'),
    'CFGDOT': (r'^fn\(&(\w+::)*FunctionBody\) -> std::string::String$', 'create_cfg_dot_visualization'),
    'SANITIZE': (r'^fn\(&str\) -> std::string::String$', 'sanitize_markdown_code'),
    'SHIFT': (r'^fn\(&ropey::Rope, &(\w+::)*HIRIndex, (\w+::)*SymbolKind, std::option::Option<usize>, i64, i64\) -> .*TextEdit.*$', 'get_shift_edits'),
    'USEDEFS': (r'^fn\(&(\w+::)*HIRIndex, (\w+::)*SymbolKind, std::option::Option<&(\w+::)*FunctionBody>\) -> .*HashMap<.*UseDefList.*>$', 'get_by_symbol_kind'),
    'UDLIST': (r'^fn\(&(\w+::)*UseDefList, (\w+::)*UseDefKind\) -> &.*$', 'get_use_def_kind'),
    'EDITS': (r'^fn\(&ropey::Rope, &(\w+::)*UseDefList, &str\) -> std::vec::Vec<.*TextEdit>$', 'get_rename_edits'),
    'BTHINT': (r'^fn\((\w+::)*Position, &\[(\w+::)*Frame\]\) -> (\w+::)*InlayHint$', 'inlay_hint_for_backtrace'),
    'BTPARSE': (r'^fn\(&\[(\w+::)*Url\], serde_json::Value\) -> .*Frame.*$', 'parse_backtrace_from_json'),
    'BRANCHING': (r'^fn\(&(\w+::)*Instruction\) -> bool$', 'is_branching'),
}
FAMILY = {'POS2OFF': 'Rope', 'OFF2POS': 'Rope', 'RANGE': 'Rope'}
NEED_NAME = {'SANITIZE'}


class Ctx:
    def __init__(self):
        self.dir = extract()
        self.prog = prog.Prog(self.dir)
        self.anchor = {}      # name -> Body
        self.cache = {}
        self.fn_count = 0
        self.find_anchors()

    def find_anchors(self):
        fns = [B for B in self.prog.bodies.values() if B.d['kind'] in ('Fn', 'AssocFn') and B.d.get('sig') and not B.d.get('derived')]
        for a, (rx, name) in ANCHORS.items():
            c = [B for B in fns if re.match(rx, re.sub(r"'\w+ ", '', B.d['sig']))]
            named = [B for B in c if B.path.rsplit('::', 1)[-1] == name]
            if named: self.anchor[a] = named[0]
            elif len(c) == 1 and a not in NEED_NAME: self.anchor[a] = c[0]

    def engine(self, opaque=(), budget=400000):
        e = Engine(self.prog, budget=budget)
        e.anchors = {self.anchor[a].key: a for a in opaque if a in self.anchor}
        return e

    # the usual set of uninterpreted anchors for request handlers
    STD = ('POS2OFF', 'OFF2POS', 'RANGE', 'FINDSYM', 'PARSE', 'INDEX', 'NUM', 'RESOLVE', 'SEMTOK', 'CFGDOT', 'USEDEFS', 'BTHINT', 'BTPARSE')

    def run(self, body, args=None, opaque=STD, names=None):
        k = ('run', body.key, tuple(opaque), repr(args), tuple(names or ()))
        if k not in self.cache:
            e = self.engine([o for o in opaque if self.anchor.get(o) is None or self.anchor[o].key != body.key])
            if args is None:
                args = e.sym_args(body)
                if names:
                    args = [rename_sym(a, n) for a, n in zip(args, names)]
            st = State({})
            e.events = []
            r = e.call_body(body, args, st, ('entry',))
            self.cache[k] = Result(self, e, canon(self, r), e.events, body)
        return self.cache[k]

    def handler(self, name, opaque=STD):
        """A request / notification handler of the server, evaluated including its future."""
        k = ('handler', name, tuple(opaque))
        if k not in self.cache:
            B = self.prog.get(LS + name)
            if B is None: return None
            e = self.engine(opaque)
            st = State({})
            e.events = []
            args = [('sym', 'self')] + [('sym', 'params')] * (B.argc - 1)
            f = e.call_body(B, args, st, ('entry',))
            n = 0
            if f[0] == 'clo' and f[1] in self.prog.bodies:
                C = self.prog.bodies[f[1]]
                e.stack = []
                f = e.call_body(C, [tup(*f[2]), ('sym', '$cx')], st, ('await',))
            self.cache[k] = Result(self, e, canon(self, f), e.events, B)
        return self.cache[k]

    def handlers(self):
        return sorted(p[len(LS):] for p in self.prog.bypath if p.startswith(LS) and '::' not in p[len(LS):])

    def fns(self):
        return [B for B in self.prog.bodies.values() if B.d['kind'] in ('Fn', 'AssocFn', 'Closure', 'Coroutine')]


def rename_sym(a, n):
    if a[0] == 'sym': return ('sym', n)
    if a[0] == 'mref' and a[1][0] == 'T' and a[1][1][0] == 'sym': return ('mref', ('T', ('sym', n)), ())
    return a


class Result:
    def __init__(self, ctx, eng, ret, events, body):
        self.ctx, self.eng, self.ret, self.body = ctx, eng, ret, body
        for e in events:
            e.args = tuple(canon(ctx, a) for a in e.args)
            e.guard = dnf_simplify([canon_guard(ctx, g) for g in e.guard]) if e.guard != TRUE else TRUE
        self.events = events
        self.analysed = set(eng.analysed)

    def calls(self, *names):
        return [e for e in self.events if e.kind == 'call' and (models.norm(e.name) in names or e.name in names)]


# ---------------------------------------------------------------- canonical terms
_canon = {}


def mapterm(t, f, memo=None):
    """Bottom-up rewriting of a term (shared subterms are rewritten once)."""
    if memo is None: memo = {}
    def go(t):
        if not isinstance(t, tuple) or not t: return t
        k = t[0]
        if k in ('i', 's', 'c', 'b', 'sym', 'fn', 'top', 'bot', 'const', 'lv', 'mref', 'uninit', 'bytes'): return f(t)
        h = memo.get(id(t))
        if h is not None: return h[1]
        if k in ('coll', 'cat'): n = (k, tuple((gg(g), go(x), m) for g, x, m in t[1]))
        elif k == 'choice': n = (k, tuple((gg(g), go(x)) for g, x in t[1]))
        elif k == 'agg': n = ('agg', t[1], t[2], tuple((n, go(x)) for n, x in t[3]))
        elif k == 'clo': n = ('clo', t[1], tuple(go(x) for x in t[2]))
        else: n = tuple(go(x) if isinstance(x, tuple) else x for x in t)
        r = f(n)
        memo[id(t)] = (t, r)
        return r
    def gg(g):
        if not g: return g
        h = memo.get(id(g))
        if h is not None: return h[1]
        out = []
        for l in g:
            n = go(l[0])
            if n is not l[0] and l[0] in DOM: DOM.setdefault(n, DOM[l[0]])
            out.append((n, l[1], l[2]))
        r = frozenset(out)
        memo[id(g)] = (g, r)
        return r
    if isinstance(t, frozenset): return gg(t)
    return go(t)


def canon(ctx, t): return mapterm(t, canon1, ctx.cache.setdefault('canon', {}))


def canon_guard(ctx, g): return mapterm(g, canon1, ctx.cache.setdefault('canon', {}))


BYTESOF = ('str.as_bytes', 'str.bytes', 'str.into_bytes')
URLSTR = {'Url::as_str', 'Url::to_string', 'Url::into_string', 'Url::to_owned'}


def canon1(x):
    k = x[0]
    if k == 'app':
        n = models.norm(x[1]) if '::' in x[1] else x[1]
        if n in URLSTR: return ('app', 'display', x[2])
        # the text of a rope is the text it was made from
        if n == 'display' and x[2][0] == 'app' and models.norm(x[2][1]) == 'Rope::from_str': return x[2][2]
        if n in ('DashMap::get', 'DashMap::get_mut'): return ('app', 'DOCGET', x[2], x[3])
        if n == 'DashMap::insert': return ('app', 'PREVIOUS', x[2], x[3])
        if n in ('Mutex::lock', 'RwLock::read', 'RwLock::write'): return ('app', 'LOCK', x[2])
        if n == 'cell.get': return x[2]
        if re.match(r'Atomic\w*::load$', n): return ('fld', ('app', 'LOCK', x[2]), 'Result::Ok.0')
        if n.startswith('char.is_') and len(x) == 3 and x[2][0] == 'app' and x[2][1] == 'index' and x[2][3] == ('i', 0) and x[2][2][0] == 'app' and x[2][2][1] == 'chars':
            return ('app', 'str.starts_with', x[2][2][2], ('pred', ('app', n, ('sym', '$c'))))
        if n == 'str.slice' and x[3][0] == 'agg':
            r, d = short(x[3][1]), dict(x[3][3])
            if r == 'RangeTo': return canon1(('app', 'str.head', x[2], d['end']))
            if r == 'RangeFrom': return ('app', 'str.tail', x[2], d['start'])
        if n == 'str.tail' and x[3] == ('i', 0): return x[2]
        if n == 'len' and x[2][0] == 'app' and x[2][1] in BYTESOF: return ('app', 'len', x[2][2])
        if n == 'str.head' and x[3][0] == 'app' and x[3][1] == 'len' and x[3][2][0] == 'app' and x[3][2][1].startswith('str.trim_end') and x[3][2][2] == x[2]: return x[3][2]
        if n == 'index' and x[3] == ('sub', ('app', 'len', x[2]), ('i', 1)): return ('app', 'last', x[2])
        if n in ('str.starts_with', 'str.ends_with') and x[3][0] == 's' and len(x[3][1]) == 1: return ('app', n, x[2], ('pred', ('eqc', ('sym', '$c'), x[3][1])))
        return ('app', n) + x[2:]
    if k == 'fld':
        t = x[1]
        if t[0] == 'agg': return fld(t, x[2])
        # deserialising what was just serialised (the serialised form itself is decided by C20)
        # the start and the end of a converted range
        if x[2] in ('Range.start', 'Range.end') and t[0] == 'fld' and t[2] == 'Option::Some.0' and t[1][0] == 'app' and t[1][1] == 'RANGE':
            return ('fld', ('app', 'OFF2POS', t[1][2], fld(t[1][3], x[2])), 'Option::Some.0')
        if x[2] == 'Result::Ok.0' and t[0] == 'app' and t[1] == 'serde_json::from_value':
            v = t[2]
            if v[0] == 'fld' and v[2] == 'Result::Ok.0' and v[1][0] == 'app' and v[1][1] == 'serde_json::to_value': return v[1][2]
        return x
    if k == 'agg' and short(x[1]) == 'Range' and 'lsp_types' in x[1]:
        d = dict(x[3])
        s, e = d.get('start'), d.get('end')
        # Range{start: OFF2POS(rope, sp.start).Some.0, end: OFF2POS(rope, sp.end).Some.0}
        def off(t):
            if t and t[0] == 'fld' and t[2] == 'Option::Some.0' and t[1][0] == 'app' and t[1][1] == 'OFF2POS': return t[1]
            return None
        a, b = off(s), off(e)
        if a and b and a[2] == b[2] and a[3][0] == 'fld' and b[3][0] == 'fld' and a[3][2] == 'Range.start' and b[3][2] == 'Range.end' and a[3][1] == b[3][1]:
            return ('fld', ('app', 'RANGE', a[2], a[3][1]), 'Option::Some.0')
        # a copy of a range
        if s and e and s[0] == 'fld' and e[0] == 'fld' and s[2].endswith('.start') and e[2].endswith('.end') and s[1] == e[1]: return s[1]
        return x
    if k == 'agg' and short(x[1]) == 'Position' and 'lsp_types' in x[1]:
        d = dict(x[3])
        s, e = d.get('line'), d.get('character')
        if s and e and s[0] == 'fld' and e[0] == 'fld' and s[2].endswith('.line') and e[2].endswith('.character') and s[1] == e[1]: return s[1]
        return x
    if k in ('coll', 'cat'):
        # merge equal neighbours whose conditions are alternatives
        return merge_items(x)
    if k == 'choice': return minmax(saturating(mk_choice(x[1])))
    if k == 'sub' and x[1][0] == 'app' and x[1][1] == 'max' and x[2] in x[1][2:] and len(x[1]) == 4:
        return ('app', 'num.saturating_sub', x[1][3] if x[1][2] == x[2] else x[1][2], x[2])
    if k == 'isempty' and x[1][0] == 'app' and x[1][1] in BYTESOF + ('chars',): return ('isempty', x[1][2])
    if k == 'eq' and repr(x[1]) > repr(x[2]): return ('eq', x[2], x[1])
    return x


def minmax(x):
    """a if a < b, b otherwise."""
    if x[0] != 'choice' or len(x[1]) != 2: return x
    (g, a), (h, b) = x[1]
    if len(g) != 1 or len(h) != 1: return x
    (l,), (m,) = g, h
    if l[0] != m[0] or l[0][0] != 'lt' or {l[0][1], l[0][2]} != {a, b}: return x
    if not all(isinstance(y, bool) for y in l[2] | m[2]) or ((True in l[2]) == l[1]) == ((True in m[2]) == m[1]): return x
    small = l[0][1] if (True in l[2]) == l[1] else l[0][2]     # the smaller one under g
    return ('app', 'min' if a == small else 'max') + tuple(sorted((a, b), key=repr))


def saturating(x):
    """0 if a < b, a - b otherwise."""
    if x[0] != 'choice' or not any(t == ('i', 0) for _, t in x[1]): return x
    subs = {t for _, t in x[1] if t != ('i', 0)}
    if len(subs) != 1: return x
    s, = subs
    if s[0] != 'sub': return x
    a, b = s[1], s[2]
    def small(l):
        """The literal says a < b (True), a >= b (False), or something else."""
        t, p, v = l
        if t == ('lt', a, b) and all(isinstance(y, bool) for y in v): return (True in v) == p
        if t == ('lt', b, a) and (True in v) == p: return False
        if b == ('i', 1):
            if t == a and v == frozenset([0]): return p
            if t == ('lt', ('i', 0), a) and all(isinstance(y, bool) for y in v): return (True in v) != p
        return None
    for g, t in x[1]:
        if len(g) != 1 or small(next(iter(g))) is not (t == ('i', 0)): return x
    return ('app', 'num.saturating_sub', a, b)


def merge_items(x):
    out = []
    if x[0] == 'coll':
        d = OrderedDict()
        for g, t, m in x[1]: d.setdefault((t, m), []).append(g)
        for (t, m), gs in d.items():
            for g in (dnf_simplify(gs) if m == '*' and len(gs) > 1 else gs): out.append((g, t, m))
            # (one addition never has the same condition twice)
            if m == '*':
                for g in OrderedDict.fromkeys(g for g in gs if gs.count(g) > 1): out.append((g, ('app', 'again', t), m))
        return ('coll', tuple(out))
    i = 0
    its = list(x[1])
    while i < len(its):
        j = i
        while j + 1 < len(its) and its[j + 1][1:] == its[i][1:] and its[i][2] == '*': j += 1
        for g in dnf_simplify([y[0] for y in its[i:j + 1]]): out.append((g,) + its[i][1:])
        i = j + 1
    return ('cat', tuple(out))


def is_range_ok(l):
    """Literal `the position conversion succeeded`."""
    t = l[0]
    return t[0] == 'app' and t[1] in ('RANGE', 'OFF2POS') and l[1] and l[2] == frozenset(['Some'])


def drop(g, pred): return frozenset(l for l in g if not pred(l))


def opt_cases(t):
    """[(guard, payload or None)] of an Option-valued term."""
    out = []
    for g, x in alts_of(t):
        if x[0] == 'agg' and x[2] == 'Some': out.append((g, x[3][0][1]))
        elif x[0] == 'agg' and x[2] == 'None': out.append((g, None))
        else: out.append((g, ('opaque', x)))
    return out


UNKNOWN_KINDS = ('top', 'uninit', 'lv')


def unknowns(t, known=()):
    """Subterms which the analysis does not interpret."""
    out = []
    for x in walk_all(t):
        if x[0] in UNKNOWN_KINDS: out.append(x)
        elif x[0] == 'app' and x[1] not in known: out.append(x)
    return out


def walk_all(t):
    """All subterms including those in conditions."""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x or x in seen: continue
        seen.add(x)
        yield x
        k = x[0]
        if k in ('i', 's', 'c', 'b', 'sym', 'fn', 'top', 'bot', 'const', 'bytes', 'lv', 'mref'): continue
        if k in ('coll', 'cat'):
            for g, y, m in x[1]:
                st.append(y)
                st += [l[0] for l in g]
        elif k == 'choice':
            for g, y in x[1]:
                st.append(y)
                st += [l[0] for l in g]
        elif k == 'agg':
            for n, y in x[3]: st.append(y)
        elif k == 'clo': st.extend(x[2])
        else:
            for y in x[1:]:
                if isinstance(y, tuple): st.append(y)


# ---------------------------------------------------------------- reporting
class Report:
    def __init__(self, pid, tier, ctx=None):
        self.pid, self.tier = pid, tier
        self.viol = OrderedDict()
        self.undecided = []
        self.known = []
        self.cov = OrderedDict()
        self.samples = []
        self.assumptions = []
        self.t0 = time.time()
        self.rules = []
        self.obl = 0
        self.kf = load_known(pid)

    def count(self, k, n=1): self.cov[k] = self.cov.get(k, 0) + n

    def rule(self, s): self.rules.append(s)

    def ok(self, n=1): self.obl += n

    def violation(self, key, where, msg):
        self.obl += 1
        if key in self.kf:
            self.known.append((key, msg))
            return
        self.viol.setdefault(key, (where, msg))

    def unsure(self, key, where, msg):
        self.obl += 1
        self.undecided.append((key, where, msg))

    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)

    def floor(self, k, n):
        """The number of analysed instances must not fall below what was counted by hand."""
        if self.cov.get(k, 0) < n:
            # (what was not interpreted was not counted)
            self.unsure('floor:%s' % k, '-', 'only %d %s were found, at least %d are expected' % (self.cov.get(k, 0), k, n))

    def finish(self, ctx):
        os.makedirs(EVID, exist_ok=True)
        rep = os.path.join(EVID, self.pid + '.report.txt')
        with open(rep, 'w') as f:
            for key, (where, msg) in self.viol.items(): f.write('VIOLATION %s\n  at %s\n  %s\n' % (key, where, msg))
            for key, msg in self.known: f.write('KNOWN %s\n  %s\n' % (key, msg))
            for key, where, msg in self.undecided: f.write('UNDECIDED %s\n  at %s\n  %s\n' % (key, where, msg))
            for s in self.samples: f.write('decided: %s\n' % (s,))
        cov = OrderedDict()
        cov['explanation'] = 'Static analysis of the type-checked program (MIR of both crates of the workspace), no execution. Rules: ' + ' | '.join(self.rules)
        cov['bodies_in_program'] = len(ctx.prog.bodies)
        cov['obligations'] = self.obl
        cov['discharged'] = self.obl - len(self.viol) - len(self.undecided)
        cov['undecided'] = len(self.undecided)
        for k, v in self.cov.items(): cov[k] = v
        cov['samples'] = self.samples[:12]
        if self.undecided: cov['undecided_sites'] = ['%s: %s' % (k, m) for k, w, m in self.undecided[:20]]
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': LEVELS.get(self.pid, 'other'), 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(self.viol)}
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, ensure_ascii=False)
        for key, msg in self.known: print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, key, msg))
        for key, (where, msg) in self.viol.items(): print('violation %s at %s: %s' % (key, where, msg))
        for key, where, msg in self.undecided: print('undecided %s at %s: %s' % (key, where, msg))
        print('%s: %d obligations, %d violations, %d undecided, %d known findings (%s)' % (
            self.pid, self.obl, len(self.viol), len(self.undecided), len(self.known), ', '.join('%s=%s' % kv for kv in self.cov.items() if isinstance(kv[1], int))))
        if self.viol:
            print('VIOLATION property=%s replay=%s' % (self.pid, rep))
            return 1
        return 0


LEVELS = {}


def load_known(pid):
    """known_findings.txt: `known: property=<id> key=<key> <text>`; `fixed:` lines suppress nothing."""
    out = set()
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+)', l)
            if m and m.group(1) == pid: out.add(m.group(2))
    return out


def at(e):
    return '%s:%s in %s' % (e.span[0], e.span[1], e.fn) if e.span else e.fn


def bat(B):
    sp = B.d.get('span')
    return '%s:%s in %s' % (sp[0], sp[1], B.path) if sp else B.path
