"""Transfer functions of the standard library and of a few crates for the value-flow analysis."""
import copy, re
from engine import *
from engine import dedup as E_dedup
from engine import lit as mklit

STRUCTURAL_TRAITS = ('std::cmp::PartialEq', 'std::clone::Clone', 'std::default::Default', 'std::cmp::Eq', 'std::hash::Hash', 'std::cmp::PartialOrd', 'std::cmp::Ord')
MODELS = {}


def norm(path):
    p = re.sub(r'<impl \[T\]>', 'slice', path)
    p = re.sub(r'<impl ([^>]*)>', lambda m: m.group(1).split('::')[-1], p)
    # drop generic arguments
    out, d = [], 0
    i = 0
    while i < len(p):
        ch = p[i]
        if ch == '<' and not p.startswith('<', 0): d += 1
        elif ch == '<': d += 1
        elif ch == '>' and p[i - 1] != '-': d -= 1
        elif d == 0: out.append(ch)
        i += 1
    p = ''.join(out).replace('::::', '::')
    parts = [x for x in p.split('::') if x]
    return '::'.join(parts[-2:])


_n = {}


def lookup(path, c):
    k = _n.get(path)
    if k is None:
        k = _n[path] = norm(path)
    m = MODELS.get(k)
    if m: return m
    base = k.split('::')[0]
    if base in ('i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize'):
        return MODELS.get('int::' + k.split('::')[-1]) or num_method(k.split('::')[-1])
    return None


def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d


NUM_PANICS = ('abs', 'pow', 'div_euclid', 'rem_euclid', 'ilog2', 'ilog10', 'ilog', 'next_power_of_two', 'next_multiple_of', 'div_ceil', 'clamp', 'strict_add', 'strict_sub', 'strict_mul')


def num_method(name):
    def f(e, st, i):
        a = tuple(e.snap(st, a) for a in i.args)
        if name in NUM_PANICS: e.event(st, 'call', 'num::' + name, a, i.body, i.span, {'panics': True, 'tys': []})
        return ('app', 'num.' + name) + a
    return f


def A(e, st, i, n): return e.snap(st, i.args[n])


# ------------------------------------------------------------ identity
def ident(e, st, i): return i.args[0]
def ident_snap(e, st, i): return e.snap(st, i.args[0])


for n in ('Deref::deref', 'Clone::clone', 'AsRef::as_ref', 'Borrow::borrow', 'Option::as_ref', 'Option::as_deref', 'Option::cloned', 'Option::copied',
          'Vec::as_slice', 'String::as_str', 'hint::must_use', 'ToOwned::to_owned', 'slice::to_vec', 'Result::as_ref', 'str::as_ref', 'slice::iter', 'Vec::iter',
          'IntoFuture::into_future', 'Box::pin', 'Box::new', 'Iterator::cloned', 'Iterator::copied', 'Iterator::by_ref', 'Iterator::fuse', 'Iterator::peekable',
          'str::to_owned', 'str::to_string', 'String::into_boxed_str', 'Rc::new', 'Arc::new', 'Vec::into_boxed_slice', 'String::as_ref', 'Cow::into_owned',
          'slice::into_vec', 'Into::into', 'From::from', 'Option::as_slice', 'convert::identity', 'Box::into_pin', 'str::as_str', 'Character::to_char', 'Parser::boxed', 'Iterator::inspect', 'Ref::value', 'MappedRef::value'):
    MODELS[n] = ident_snap
for n in ('DerefMut::deref_mut', 'Pin::new_unchecked', 'Pin::new', 'AsMut::as_mut', 'Vec::as_mut_slice', 'BorrowMut::borrow_mut', 'String::as_mut_str', 'Pin::as_mut', 'Pin::get_mut'):
    MODELS[n] = ident


@model('From::from', 'Into::into')
def from_(e, st, i):
    v = A(e, st, i, 0)
    dt = i.deref_ty(i.dty) if i.dty['k'] != 'unknown' else i.dty
    if dt.get('adt', '').endswith(('HashMap', 'BTreeMap')):
        return ('app', 'mapof', v)
    if dt.get('adt') == OPT and i.ty(0).get('adt') != OPT: return some(v)
    # an enumeration of another crate which can hold the value
    a = e.prog.adts.get(dt.get('adt') or '')
    st_ = i.ty(0)
    if a and a['kind'] == 'enum' and not a['local'] and st_.get('adt') != dt['adt']:
        plain = lambda t: re.sub(r"&('\w+ )?|(\w+::)+", '', t or '')
        tys = {plain(st_['s'])} if st_['k'] != 'unknown' else {plain(x[1]) if x[0] == 'agg' else None for _, x in alts_of(v)}
        vs = [x for x in a['variants'] if len(x['fields']) == 1 and {plain(x['fields'][0][1])} == tys]
        if len(vs) == 1: return ('agg', dt['adt'], vs[0]['name'], ((vs[0]['fields'][0][0], v),))
    if dt.get('adt', '').endswith('serde_json::Value') and st_.get('adt') != dt['adt']:
        if is_string_ty(i, st_): return ('agg', dt['adt'], 'String', (('0', v),))
        return ('app', 'json', v)
    if dt.get('adt', '').endswith('string::String'):
        if i.deref_ty(st_).get('adt', '').endswith(('Rope', 'RopeSlice', 'Url')): return disp(i, st_, v)
        return char_text(v)
    return v


def char_text(v):
    if v[0] == 'c': return ('s', v[1])
    if v[0] == 'choice': return mk_choice([(g, char_text(x)) for g, x in v[1]])
    return v


@model('num::from', 'char::from')
def conv(e, st, i): return A(e, st, i, 0)


@model('TryInto::try_into', 'TryFrom::try_from')
def try_into(e, st, i): return ('app', 'try_narrow' if re.match(r'^[\w:]*Result<[ui](8|16),', i.dty['s']) else 'try_into', ('s', i.dty['s']), A(e, st, i, 0))


@model('mem::take')
def mem_take(e, st, i):
    v = A(e, st, i, 0)
    for g, x in alts_of(i.args[0]):
        if x[0] == 'mref':
            d = default_of(e, i, i.dty)
            e.note_write(st, x[1], x[2], d, i.body, i.span)
            e.write_loc(st, x[1], x[2], d, i.body, i.span)
    return v


@model('mem::drop')
def mem_drop(e, st, i): return UNIT


@model('mem::replace')
def mem_replace(e, st, i):
    v = A(e, st, i, 0)
    for g, x in alts_of(i.args[0]):
        if x[0] == 'mref':
            e.note_write(st, x[1], x[2], i.args[1], i.body, i.span)
            e.write_loc(st, x[1], x[2], i.args[1], i.body, i.span)
    return v


@model('Box::new_uninit')
def new_uninit(e, st, i): return ('uninit',)


@model('boxed::box_assume_init_into_vec_unsafe')
def assume_vec(e, st, i):
    v = A(e, st, i, 0)
    n = 0
    while v[0] == 'agg' and v[1] in ('?',) and len(v[3]) == 1 and n < 4:
        v = v[3][0][1]
        n += 1
    while v[0] == 'upd' and n < 8:
        v = v[3]
        n += 1
    return v


# ------------------------------------------------------------ strings
def is_string_ty(i, t):
    if t['k'] == 'unknown': return True
    t = i.deref_ty(t)
    if t['k'] == 'str': return True
    if t['k'] == 'char': return True
    return t.get('adt', '').endswith(('string::String', 'borrow::Cow', 'Box')) and ('str' in t['s'].lower())


def disp(i, t, v):
    if is_string_ty(i, t):
        return v
    if v[0] == 'i': return ('s', str(v[1]))
    if v[0] == 'choice': return mk_choice([(g, disp(i, t, x)) for g, x in v[1]])
    return ('app', 'display', v)


@model('ToString::to_string')
def to_string(e, st, i):
    v = A(e, st, i, 0)
    t = i.ty(0)
    if not is_string_ty(i, t) and v[0] == 'app' and v[1] == 'fmtargs': return fmt_cat(v)
    return char_text(disp(i, t, v))


@model('Argument::new_display')
def new_display(e, st, i):
    v = A(e, st, i, 0)
    return ('app', 'fmtarg', disp(i, i.ty(0), v))


@model('Argument::new_debug')
def new_debug(e, st, i): return ('app', 'fmtarg', ('app', 'debug', A(e, st, i, 0)))


for n in ('lower_hex', 'upper_hex', 'octal', 'binary', 'lower_exp', 'pointer', 'upper_exp'):
    def _m(e, st, i, n=n): return ('app', 'fmtarg', ('app', n, A(e, st, i, 0)))
    MODELS['Argument::new_' + n] = _m


def parse_template(bs):
    """-> list of literal strings / ('arg', n, plain)"""
    out, p, nxt = [], 0, 0
    bs = list(bs)
    while p < len(bs):
        b = bs[p]
        if b == 0: break
        if b < 0x80:
            out.append(bytes(bs[p + 1:p + 1 + b]).decode('utf8', 'replace'))
            p += 1 + b
        elif b == 0x80:
            n = bs[p + 1] | bs[p + 2] << 8
            out.append(bytes(bs[p + 3:p + 3 + n]).decode('utf8', 'replace'))
            p += 3 + n
        else:
            fl = b & 0x3f
            p += 1
            plain = True
            if fl & 1:
                p += 4
                plain = False
            if fl & 2:
                p += 2
                plain = False
            if fl & 4:
                p += 2
                plain = False
            if fl & 8:
                nxt = bs[p] | bs[p + 1] << 8
                p += 2
            out.append(('arg', nxt, plain))
            nxt += 1
    return out


@model('Arguments::new')
def args_new(e, st, i):
    tpl = A(e, st, i, 0)
    args = A(e, st, i, 1)
    if tpl[0] != 'bytes' or args[0] != 'coll': return ('app', 'fmt?', tpl, args)
    xs = [t for _, t, _ in args[1]]
    parts = []
    for x in parse_template(tpl[1]):
        if isinstance(x, str): parts.append((EMPTY, ('s', x), 1))
        else:
            v = xs[x[1]] if x[1] < len(xs) else ('top', 'fmt')
            v = v[2] if v[0] == 'app' and v[1] == 'fmtarg' else v
            parts.append((EMPTY, v if x[2] else ('app', 'padded', v), 1))
    return ('app', 'fmtargs', cat(parts))


@model('Arguments::from_str')
def args_from_str(e, st, i): return ('app', 'fmtargs', A(e, st, i, 0))


def fmt_cat(v):
    if v[0] == 'app' and v[1] == 'fmtargs': return v[2]
    return ('app', 'fmt', v)


@model('fmt::format')
def fmt_format(e, st, i): return fmt_cat(A(e, st, i, 0))


@model('Formatter::write_fmt', 'Formatter::write_str')
def write_fmt(e, st, i):
    v = A(e, st, i, 1)
    e.event(st, 'fmt', 'write', (fmt_cat(v) if v[0] == 'app' else v,), i.body, i.span)
    return ok(UNIT)


@model('Write::write_fmt', 'Write::write_str', 'Write::write_char')
def s_write_fmt(e, st, i):
    v = A(e, st, i, 1)
    r = str_append(e, st, i, fmt_cat(v) if v[0] == 'app' and v[1] == 'fmtargs' else v)
    return ok(UNIT)


def str_append(e, st, i, part):
    for g, x in alts_of(i.args[0]):
        if x[0] == 'mref':
            old = e.deref(st, x)
            if x[1][0] == 'T':
                e.event(st, 'push', e.loc_label(x[1], x[2]), (old, part), i.body, i.span)
            else:
                def app(o):
                    if o[0] == 'choice': return mk_choice([(g2, app(y)) for g2, y in o[1]])
                    r = cat(cat_items(o) + [(EMPTY, part, 1)])
                    return r if r[0] in ('cat', 's') else ('cat', ((EMPTY, r, 1),))
                e.write_loc(st, x[1], x[2], app(old), i.body, i.span)
    return UNIT


@model('String::push', 'String::push_str')
def push_str(e, st, i): return str_append(e, st, i, A(e, st, i, 1))


@model('AddAssign::add_assign')
def add_assign(e, st, i):
    if is_string_ty(i, i.ty(0)): return str_append(e, st, i, A(e, st, i, 1))
    return NotImplemented


@model('String::insert_str', 'String::insert')
def insert_str(e, st, i):
    for g, x in alts_of(i.args[0]):
        if x[0] == 'mref' and x[1][0] == 'L':
            old = e.deref(st, x)
            idx = A(e, st, i, 1)
            part = A(e, st, i, 2)
            if idx == ('i', 0): e.write_loc(st, x[1], x[2], cat([(EMPTY, part, 1)] + cat_items(old)), i.body, i.span)
            else: e.write_loc(st, x[1], x[2], ('app', 'str.insert', old, idx, part), i.body, i.span)
    return UNIT


@model('Add::add')
def add(e, st, i):
    a, b = A(e, st, i, 0), A(e, st, i, 1)
    if is_string_ty(i, i.ty(0)): return cat(cat_items(a) + cat_items(b))
    return e.arith('Add', a, b)


@model('Sub::sub')
def sub(e, st, i): return e.arith('Sub', A(e, st, i, 0), A(e, st, i, 1))


@model('String::new', 'String::with_capacity')
def string_new(e, st, i): return ('s', '')


@model('slice::join', 'slice::concat', 'Join::join')
def join(e, st, i):
    c = A(e, st, i, 0)
    sep = A(e, st, i, 1) if len(i.args) > 1 else ('s', '')
    if i.dty.get('adt', '').endswith('Vec'):
        if len(i.args) > 1: return ('app', 'slice::join', c, sep)
        out = []
        for g, t, m in items_of(e, st, c):
            for g2, u, n in items_of(e, st, t):
                g3 = conj_and(g, g2)
                if g3 is not None: out.append((g3, u, '*' if '*' in (m, n) else 1))
        return coll(out)
    if c[0] == 'coll' and all(not g and m == 1 for g, _, m in c[1]):
        parts = []
        for k, (g, t, m) in enumerate(c[1]):
            if k: parts.append((EMPTY, sep, 1))
            parts.append((EMPTY, t, 1))
        return cat(parts)
    if c[0] == 'coll' and c[1] and sep[0] == 's':
        # a part which is always there at the end (or the start): every other part brings its separator along
        sure = lambda x: not x[0] and x[2] == 1
        w = lambda g, xs, m: (g, cat([(EMPTY, x, 1) for x in xs]), m)
        if sure(c[1][-1]): return cat([w(g, (t, sep), m) for g, t, m in c[1][:-1]] + [(EMPTY, c[1][-1][1], 1)])
        if sure(c[1][0]): return cat([(EMPTY, c[1][0][1], 1)] + [w(g, (sep, t), m) for g, t, m in c[1][1:]])
    return ('app', 'join', c, sep)


def pred_term(e, st, i, f):
    """A char predicate (closure, fn item, char, or set of chars) as a term over `$c`."""
    f = e.snap(st, f)
    if f[0] in ('clo', 'fn'):
        ev = e.events
        e.events = []
        s2 = State(dict(st.mem), st.pc, st.outer)
        try: r = e.apply(f, [('sym', '$c')], s2, i.body, i.span)
        finally: e.events = ev
        cs = charset(e, r)
        return ('pred', set_pred(cs) if cs else r)
    if f[0] == 'coll' and f[1] and all(not g and m == 1 and x[0] == 'c' for g, x, m in f[1]): return ('pred', set_pred({x[1] for _, x, _ in f[1]}))
    if f[0] == 'c': return ('pred', ('eqc', ('sym', '$c'), f[1]))
    if f[0] == 's' and len(f[1]) == 1: return ('pred', ('eqc', ('sym', '$c'), f[1]))
    return f


def charset(e, t):
    """The characters for which the predicate t over `$c` holds, if it says so by listing them."""
    if t[0] == 'b': return None
    out = set()
    for c in e.cond(t, True):
        if len(c) != 1: return None
        (x, pos, vals), = c
        if x != ('sym', '$c') or not pos or not all(isinstance(v, str) for v in vals): return None
        out |= vals
    return out


def set_pred(cs):
    r = None
    for c in sorted(cs):
        q = ('eqc', ('sym', '$c'), c)
        r = q if r is None else ('bitor', r, q)
    return r


def pred_chars(p):
    """The characters of a pattern made by set_pred."""
    def go(q):
        if q[0] == 'eqc' and q[1] == ('sym', '$c'): return [q[2]]
        if q[0] == 'bitor':
            a, b = go(q[1]), go(q[2])
            return a + b if a and b else None
        return None
    return go(p[1]) if p[0] == 'pred' else None


def pat_width(p):
    """Number of bytes which the pattern matches, as a term."""
    if p[0] == 'pred':
        cs = pred_chars(p)
        ns = {len(c.encode()) for c in cs or ()}
        return ('i', ns.pop()) if len(ns) == 1 else None
    if p[0] in ('clo', 'fn', 'coll', 'top'): return None
    return length(p)


def any_of(f, s, p):
    """A test of a text against a set of characters: one test per character."""
    cs = pred_chars(p)
    r = None
    for c in cs if cs and len(cs) > 1 else ():
        q = ('app', f, s, ('pred', ('eqc', ('sym', '$c'), c)))
        r = q if r is None else ('bitor', r, q)
    return r or ('app', f, s, p)


def str_pat(name):
    def f(e, st, i):
        return ('app', 'str.' + name, A(e, st, i, 0), pred_term(e, st, i, i.args[1])) + tuple(e.snap(st, a) for a in i.args[2:])
    return f


for n in ('contains', 'starts_with', 'ends_with', 'find', 'rfind', 'split', 'rsplit', 'trim_end_matches', 'trim_start_matches', 'trim_matches', 'strip_prefix',
          'strip_suffix', 'split_once', 'rsplit_once', 'replace', 'matches', 'split_terminator', 'match_indices'):
    MODELS['str::' + n] = str_pat(n)


@model('str::starts_with', 'str::ends_with', 'str::contains')
def str_const(e, st, i):
    name = norm(i.c['path']).split('::')[1]
    s, out = A(e, st, i, 0), []
    for g, p in alts_of(e.snap(st, i.args[1])):
        if s[0] == 's' and p[0] in ('s', 'c'):
            r = ('b', {'starts_with': s[1].startswith, 'ends_with': s[1].endswith, 'contains': lambda x: x in s[1]}[name](p[1]))
        else: r = any_of('str.' + name, s, pred_term(e, st, i, p))
        out.append((g, r))
    return mk_choice(out)


@model('str::strip_prefix', 'str::strip_suffix')
def strip(e, st, i):
    name = norm(i.c['path']).split('::')[1]
    s = A(e, st, i, 0)
    return mk_choice([(c, strip1(e, name, s, pred_term(e, st, i, x))) for c, x in alts_of(e.snap(st, i.args[1]))])


def strip1(e, name, s, p):
    w = pat_width(p)
    if w is None: return ('app', 'str.' + name, s, p)
    if name == 'strip_prefix' and p[0] == 'app' and p[1] in ('str.trim_end_matches', 'str.trim_end', 'str.head') and p[2] == s: return some(('app', 'str.tail', s, w))
    if name == 'strip_prefix': c, r = any_of('str.starts_with', s, p), ('app', 'str.tail', s, w)
    else: c, r = any_of('str.ends_with', s, p), ('app', 'str.head', s, ('sub', length(s), w))
    return mk_choice([(x, some(r)) for x in e.cond(c, True)] + [(x, NONE) for x in e.cond(c, False)])


@model('str::splitn', 'str::rsplitn')
def str_splitn(e, st, i):
    return ('app', 'str.' + norm(i.c['path']).split('::')[1], A(e, st, i, 0), A(e, st, i, 1), pred_term(e, st, i, i.args[2]))


for n in ('parse', 'trim', 'trim_end', 'trim_start', 'to_lowercase', 'to_uppercase', 'is_char_boundary', 'get', 'as_bytes', 'eq_ignore_ascii_case', 'lines', 'split_whitespace', 'repeat', 'bytes'):
    def _m(e, st, i, n=n): 
        if n == 'parse': return ('app', 'str.parse', ('s', i.dty['s']), A(e, st, i, 0))
        return ('app', 'str.' + n) + tuple(e.snap(st, a) for a in i.args)
    MODELS['str::' + n] = _m


@model('str::split_at')
def split_at(e, st, i):
    s, p = A(e, st, i, 0), A(e, st, i, 1)
    e.event(st, 'call', 'core::str::<impl str>::split_at', (s, p), i.body, i.span, {'panics': True, 'tys': []})
    return tup(('app', 'str.head', s, p), ('app', 'str.tail', s, p))


@model('str::split_at_checked')
def split_at_c(e, st, i):
    s, p = A(e, st, i, 0), A(e, st, i, 1)
    c = ('app', 'str.is_char_boundary', s, p)
    return mk_choice([(frozenset([mklit(c, True, [True], BOOLDOM)]), some(tup(('app', 'str.head', s, p), ('app', 'str.tail', s, p)))),
                      (frozenset([mklit(c, True, [False], BOOLDOM)]), NONE)])


@model('str::chars', 'RopeSlice::chars', 'Rope::chars')
def chars(e, st, i): return coll([(EMPTY, ('elem', ('app', 'chars', A(e, st, i, 0))), '*')])


@model('str::char_indices')
def char_indices(e, st, i):
    c = ('app', 'chars', A(e, st, i, 0))
    return coll([(EMPTY, tup(('app', 'byteidx', c), ('elem', c)), '*')])


@model('str::len', 'String::len', 'Vec::len', 'slice::len', 'HashMap::len', 'BTreeMap::len', 'ExactSizeIterator::len', 'VecDeque::len', 'HashSet::len')
def len_(e, st, i):
    v = A(e, st, i, 0)
    t = i.ty(0)
    if t['k'] != 'unknown' and i.deref_ty(t).get('adt', '').endswith('Range') and v[0] == 'agg': return e.arith('Sub', fld(v, 'Range.end'), fld(v, 'Range.start'))
    if t['k'] != 'unknown' and i.deref_ty(t).get('adt', '').endswith('ops::Range'): return ('sub', ('fld', v, 'Range.end'), ('fld', v, 'Range.start'))
    return length(v)


@model('str::is_empty', 'String::is_empty', 'Vec::is_empty', 'slice::is_empty', 'HashMap::is_empty', 'BTreeMap::is_empty', 'VecDeque::is_empty')
def is_empty(e, st, i):
    v = A(e, st, i, 0)
    return mk_eq(length(v), ('i', 0))


for n in ('is_alphabetic', 'is_alphanumeric', 'is_numeric', 'is_whitespace', 'is_ascii_digit', 'is_ascii_alphanumeric', 'is_ascii_alphabetic', 'is_ascii', 'is_control', 'is_uppercase',
          'is_lowercase', 'is_ascii_punctuation', 'is_ascii_whitespace', 'is_digit', 'len_utf8', 'len_utf16', 'to_ascii_lowercase', 'is_ascii_hexdigit', 'to_digit', 'is_ascii_graphic', 'is_ascii_control'):
    def _m(e, st, i, n=n):
        return ('app', 'char.' + n) + tuple(e.snap(st, a) for a in i.args)
    MODELS['char::' + n] = _m


# ------------------------------------------------------------ comparison
@model('PartialEq::eq')
def eq(e, st, i): return mk_eq(A(e, st, i, 0), A(e, st, i, 1))


@model('PartialEq::ne')
def ne(e, st, i): return neg(mk_eq(A(e, st, i, 0), A(e, st, i, 1)))


@model('PartialOrd::lt')
def plt(e, st, i): return mk_lt(A(e, st, i, 0), A(e, st, i, 1))


@model('PartialOrd::gt')
def pgt(e, st, i): return mk_lt(A(e, st, i, 1), A(e, st, i, 0))


@model('PartialOrd::le')
def ple(e, st, i): return neg(mk_lt(A(e, st, i, 1), A(e, st, i, 0)))


@model('PartialOrd::ge')
def pge(e, st, i): return neg(mk_lt(A(e, st, i, 0), A(e, st, i, 1)))


@model('Ord::min', 'cmp::min')
def omin(e, st, i):
    a, b = A(e, st, i, 0), A(e, st, i, 1)
    return ('app', 'min') + tuple(sorted((a, b), key=repr))


@model('Ord::max', 'cmp::max')
def omax(e, st, i):
    a, b = A(e, st, i, 0), A(e, st, i, 1)
    return ('app', 'max') + tuple(sorted((a, b), key=repr))


@model('Not::not')
def not_(e, st, i): return neg(A(e, st, i, 0))


@model('Range::contains', 'RangeInclusive::contains')
def rcontains(e, st, i):
    r, x = A(e, st, i, 0), A(e, st, i, 1)
    if 'RangeInclusive' in i.c['path']: return ('app', 'rangeincl.contains', r, x)
    s_, e_ = fld(r, 'Range.start'), fld(r, 'Range.end')
    lo = e.cond(mk_lt(x, s_), False)
    hi = e.cond(mk_lt(x, e_), True)
    t = dnf_and(lo, hi)
    f = dnf_or(e.cond(mk_lt(x, s_), True), dnf_and(lo, e.cond(mk_lt(x, e_), False)))
    return mk_choice([(c, T_TRUE) for c in t] + [(c, T_FALSE) for c in f])


# ------------------------------------------------------------ Option / Result
def adt_alts(e, t, adt):
    """[(guard, variant, payload)]"""
    out = []
    vs = (('Some', '0'), ('None', None)) if adt == OPT else (('Ok', '0'), ('Err', '0'))
    for g, x in alts_of(t):
        if x[0] == 'agg' and x[2] in ('Some', 'None', 'Ok', 'Err'):
            out.append((g, x[2], x[3][0][1] if x[3] else None))
        elif x[0] == 'bot': continue
        else:
            dom = [v for v, _ in vs]
            for v, f in vs:
                c = conj_and(g, frozenset([mklit(x, True, [v], dom)]))
                if c is None: continue
                out.append((c, v, fld(x, '%s::%s.0' % (short(adt), v)) if f else None))
    return out


def consistent(st, g):
    pc = dnf_and(st.pc, (g,))
    return pc != FALSE and dnf_and(st.outer, pc) != FALSE


def build(e, st, i, alts, f):
    """Evaluates f(substate, variant, payload) for each alternative, merging states."""
    res, mems = [], []
    for g, v, p in alts:
        if not consistent(st, g): continue
        s2 = State(dict(st.mem), dnf_and(st.pc, (g,)), st.outer)
        r = f(s2, v, p)
        if r == ('bot',) or s2.pc == FALSE: continue
        res.append((g, r))
        mems.append(((g,), s2.mem))
    if not res: return ('bot',)
    st.mem = e.merge_mems(mems) if len(mems) > 1 else mems[0][1]
    return mk_choice(res)


def opt_alts(e, st, i):
    v = i.args[0]
    for g, x in alts_of(v):
        pass
    return adt_alts(e, e.snap(st, v), OPT)


def res_alts(e, st, i): return adt_alts(e, e.snap(st, i.args[0]), RES)


def opt(fn): return lambda e, st, i: build(e, st, i, opt_alts(e, st, i), lambda s, v, p: fn(e, s, i, v, p))
def res(fn): return lambda e, st, i: build(e, st, i, res_alts(e, st, i), lambda s, v, p: fn(e, s, i, v, p))
def ap(e, s, i, n, *xs): return e.apply(i.args[n], list(xs), s, i.body, i.span)


MODELS['Option::map'] = opt(lambda e, s, i, v, p: some_(ap(e, s, i, 1, p)) if v == 'Some' else NONE)


def some_(x): return x if x == ('bot',) else some(x)
def ok_(x): return x if x == ('bot',) else ok(x)
def err_(x): return x if x == ('bot',) else err(x)


MODELS['Option::and_then'] = opt(lambda e, s, i, v, p: ap(e, s, i, 1, p) if v == 'Some' else NONE)
MODELS['Option::or_else'] = opt(lambda e, s, i, v, p: some(p) if v == 'Some' else ap(e, s, i, 1))
MODELS['Option::or'] = opt(lambda e, s, i, v, p: some(p) if v == 'Some' else e.snap(s, i.args[1]))
MODELS['Option::and'] = opt(lambda e, s, i, v, p: e.snap(s, i.args[1]) if v == 'Some' else NONE)
MODELS['Option::ok_or_else'] = opt(lambda e, s, i, v, p: ok(p) if v == 'Some' else err_(ap(e, s, i, 1)))
MODELS['Option::ok_or'] = opt(lambda e, s, i, v, p: ok(p) if v == 'Some' else err(i.args[1]))
MODELS['Option::unwrap_or'] = opt(lambda e, s, i, v, p: p if v == 'Some' else i.args[1])
MODELS['Option::unwrap_or_else'] = opt(lambda e, s, i, v, p: p if v == 'Some' else ap(e, s, i, 1))
MODELS['Option::unwrap_or_default'] = opt(lambda e, s, i, v, p: p if v == 'Some' else default_of(e, i, i.dty))
MODELS['Option::map_or'] = opt(lambda e, s, i, v, p: ap(e, s, i, 2, p) if v == 'Some' else i.args[1])
MODELS['Option::map_or_else'] = opt(lambda e, s, i, v, p: ap(e, s, i, 2, p) if v == 'Some' else ap(e, s, i, 1))
MODELS['Option::is_some'] = opt(lambda e, s, i, v, p: ('b', v == 'Some'))
MODELS['Option::is_none'] = opt(lambda e, s, i, v, p: ('b', v == 'None'))
MODELS['Option::is_some_and'] = opt(lambda e, s, i, v, p: ap(e, s, i, 1, p) if v == 'Some' else T_FALSE)
MODELS['Option::is_none_or'] = opt(lambda e, s, i, v, p: ap(e, s, i, 1, p) if v == 'Some' else T_TRUE)
MODELS['Option::flatten'] = opt(lambda e, s, i, v, p: p if v == 'Some' else NONE)
MODELS['Result::is_ok'] = res(lambda e, s, i, v, p: ('b', v == 'Ok'))
MODELS['Result::is_err'] = res(lambda e, s, i, v, p: ('b', v == 'Err'))
MODELS['Result::ok'] = res(lambda e, s, i, v, p: some(p) if v == 'Ok' else NONE)
MODELS['Result::err'] = res(lambda e, s, i, v, p: some(p) if v == 'Err' else NONE)
MODELS['Result::map'] = res(lambda e, s, i, v, p: ok_(ap(e, s, i, 1, p)) if v == 'Ok' else err(p))
MODELS['Result::map_err'] = res(lambda e, s, i, v, p: ok(p) if v == 'Ok' else err_(ap(e, s, i, 1, p)))
MODELS['Result::and_then'] = res(lambda e, s, i, v, p: ap(e, s, i, 1, p) if v == 'Ok' else err(p))
MODELS['Result::or_else'] = res(lambda e, s, i, v, p: ok(p) if v == 'Ok' else ap(e, s, i, 1, p))
MODELS['Result::unwrap_or'] = res(lambda e, s, i, v, p: p if v == 'Ok' else i.args[1])
MODELS['Result::unwrap_or_else'] = res(lambda e, s, i, v, p: p if v == 'Ok' else ap(e, s, i, 1, p))
MODELS['Result::unwrap_or_default'] = res(lambda e, s, i, v, p: p if v == 'Ok' else default_of(e, i, i.dty))
MODELS['Result::map_or'] = res(lambda e, s, i, v, p: ap(e, s, i, 2, p) if v == 'Ok' else i.args[1])
MODELS['Result::map_or_else'] = res(lambda e, s, i, v, p: ap(e, s, i, 2, p) if v == 'Ok' else ap(e, s, i, 1, p))
MODELS['Result::is_ok_and'] = res(lambda e, s, i, v, p: ap(e, s, i, 1, p) if v == 'Ok' else T_FALSE)


@model('Option::filter')
def opt_filter(e, st, i):
    def f(s, v, p):
        if v != 'Some': return NONE
        r = e.apply(i.args[1], [p], s, i.body, i.span)
        return mk_choice([(c, some(p)) for c in e.cond(r, True)] + [(c, NONE) for c in e.cond(r, False)])
    return build(e, st, i, opt_alts(e, st, i), f)


@model('Option::zip')
def opt_zip(e, st, i):
    b = e.snap(st, i.args[1])
    out = []
    for g, v, p in opt_alts(e, st, i):
        for g2, v2, p2 in adt_alts(e, b, OPT):
            c = conj_and(g, g2)
            if c is None: continue
            out.append((c, some(tup(p, p2)) if v == 'Some' and v2 == 'Some' else NONE))
    return mk_choice(out)


@model('bool::then')
def bthen(e, st, i):
    v = A(e, st, i, 0)
    alts = [(c, 'Some', None) for c in e.cond(v, True)] + [(c, 'None', None) for c in e.cond(v, False)]
    return build(e, st, i, alts, lambda s, k, p: some_(ap(e, s, i, 1)) if k == 'Some' else NONE)


@model('bool::then_some')
def bthen_some(e, st, i):
    v = A(e, st, i, 0)
    return mk_choice([(c, some(i.args[1])) for c in e.cond(v, True)] + [(c, NONE) for c in e.cond(v, False)])


@model('Option::as_mut', 'Option::as_deref_mut')
def as_mut(e, st, i):
    out = []
    for g0, x in alts_of(i.args[0]):
        if x[0] == 'mref':
            for g, v, p in adt_alts(e, e.snap(st, x), OPT):
                c = conj_and(g0, g)
                if c is None: continue
                out.append((c, some(('mref', x[1], x[2] + (('f', 'Option::Some.0'),))) if v == 'Some' else NONE))
    return mk_choice(out) if out else ('top', 'as_mut')


@model('Option::take')
def opt_take(e, st, i):
    v = A(e, st, i, 0)
    for g, x in alts_of(i.args[0]):
        if x[0] == 'mref': e.write_loc(st, x[1], x[2], NONE, i.body, i.span)
    return v


@model('Option::transpose', 'Result::transpose')
def transpose(e, st, i):
    out = []
    if i.ty(0).get('adt') == OPT:
        for g, v, p in opt_alts(e, st, i):
            if v == 'None': out.append((g, ok(NONE)))
            else:
                for g2, v2, p2 in adt_alts(e, p, RES):
                    c = conj_and(g, g2)
                    if c is not None: out.append((c, ok(some(p2)) if v2 == 'Ok' else err(p2)))
        return mk_choice(out)
    return ('app', 'transpose', A(e, st, i, 0))


def unwrap_of(adt, good, name):
    def f(e, st, i):
        alts = adt_alts(e, e.snap(st, i.args[0]), adt)
        bad = [(g, p) for g, v, p in alts if v != good and consistent(st, g)]
        if bad:
            s2 = State(st.mem, dnf_and(st.pc, dnf_simplify([g for g, _ in bad])), st.outer)
            e.event(s2, 'unwrap', name, (e.snap(st, i.args[0]),), i.body, i.span)
        goods = [(g, p) for g, v, p in alts if v == good]
        if not goods:
            st.pc = FALSE
            return ('bot',)
        # after a successful unwrap the value is `good`
        st.pc = dnf_and(st.pc, dnf_simplify([g for g, _ in goods]))
        if len({p for _, p in goods}) == 1: return goods[0][1]
        return mk_choice(goods)
    return f


MODELS['Option::unwrap'] = unwrap_of(OPT, 'Some', 'Option::unwrap')
MODELS['Option::expect'] = unwrap_of(OPT, 'Some', 'Option::expect')
MODELS['Option::unwrap_unchecked'] = unwrap_of(OPT, 'Some', 'Option::unwrap')
MODELS['Result::unwrap'] = unwrap_of(RES, 'Ok', 'Result::unwrap')
MODELS['Result::expect'] = unwrap_of(RES, 'Ok', 'Result::expect')
MODELS['Result::unwrap_err'] = unwrap_of(RES, 'Err', 'Result::unwrap_err')


@model('Try::branch')
def branch(e, st, i):
    v = A(e, st, i, 0)
    adt = i.ty(0).get('adt')
    out = []
    if adt == OPT:
        for g, k, p in adt_alts(e, v, OPT):
            out.append((g, ('agg', CF, 'Continue', (('0', p),)) if k == 'Some' else ('agg', CF, 'Break', (('0', NONE),))))
    elif adt == RES:
        for g, k, p in adt_alts(e, v, RES):
            out.append((g, ('agg', CF, 'Continue', (('0', p),)) if k == 'Ok' else ('agg', CF, 'Break', (('0', err(p)),))))
    else: return NotImplemented
    return mk_choice(out)


@model('FromResidual::from_residual')
def from_residual(e, st, i):
    return A(e, st, i, 0)


# ------------------------------------------------------------ futures
@model('future::get_context')
def get_context(e, st, i): return ('sym', '$cx')


@model('Future::poll')
def poll(e, st, i):
    f = e.snap(st, i.args[0])
    e.event(st, 'await', f[1] if f[0] in ('app', 'clo') else f[0], (f,), i.body, i.span)
    if f[0] == 'clo':
        B = e.prog.bodies.get(f[1])
        if B is not None:
            r = e.call_body(B, [tup(*f[2]), ('sym', '$cx')], st, ('await',))
            if r == ('bot',): return r
            return ('agg', 'std::task::Poll', 'Ready', (('0', r),))
    return ('agg', 'std::task::Poll', 'Ready', (('0', ('app', 'await', f)),))


# ------------------------------------------------------------ collections
@model('Vec::new', 'Vec::with_capacity', 'iter::empty', 'VecDeque::new')
def vec_new(e, st, i): return coll([])


@model('iter::once')
def once(e, st, i): return coll([(EMPTY, A(e, st, i, 0), 1)])


@model('HashMap::new', 'BTreeMap::new', 'HashMap::with_capacity', 'HashSet::new', 'BTreeSet::new', 'HashSet::with_capacity')
def map_new(e, st, i): return new_map(i, norm(i.c['path']).split('::')[0])


def new_map(i, what):
    p = i.site[0].split('::')[-1]
    if p == 'default': p = short(re.sub(r' as .*', '', i.site[0]).strip('<')) + '.default'
    return ('sym', 'new:%s@%s:%s' % (what, p, i.site[1]))


def default_of(e, i, t):
    t = i.deref_ty(t) if t['k'] != 'unknown' else t
    adt = t.get('adt', '')
    if t['k'] == 'int': return ('i', 0)
    if t['k'] == 'bool': return T_FALSE
    if t['k'] == 'str' or adt.endswith('string::String'): return ('s', '')
    if adt.endswith('vec::Vec'): return coll([])
    if adt == OPT: return NONE
    if t['k'] == 'tuple': return tup(*[default_of(e, i, i.body.ty(x)) for x in t['args']])
    if adt.endswith('lsp_types::Position') or adt == 'Position': return ('agg', adt, 'Position', (('line', ('i', 0)), ('character', ('i', 0))))
    if adt.endswith('ops::Range'): return ('agg', adt, 'Range', (('start', ('i', 0)), ('end', ('i', 0))))
    if short(adt) in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'): return new_map(i, short(adt))
    a = e.prog.adts.get(adt)
    if a and a['local'] and a['kind'] == 'struct' and a['variants'][0]['fields']:
        # the fields stay symbolic: what happens to them is read off the events
        v = a['variants'][0]
        return ('agg', adt, v['name'], tuple((f, ('fld', ('sym', 'new:' + short(adt)), '%s.%s' % (short(adt), f))) for f, _ in v['fields']))
    return ('sym', 'new:%s' % (short(adt) or t['s']))


@model('Default::default')
def default(e, st, i): return default_of(e, i, i.dty)


def items_of(e, st, t, ty=None, i=None, own=False):
    """Elements of an iterable term as [(guard, term, mult)]."""
    t = e.snap(st, t)
    if ty is not None and i is not None and ty['k'] != 'unknown':
        dt = i.deref_ty(ty)
        if dt.get('adt') == OPT:
            return [(g, p, 1) for g, v, p in adt_alts(e, t, OPT) if v == 'Some']
        if dt.get('adt') == RES:
            return [(g, p, 1) for g, v, p in adt_alts(e, t, RES) if v == 'Ok']
    if t[0] == 'coll': return list(t[1])
    if t[0] == 'choice':
        out = []
        for g, x in t[1]:
            for g2, y, m in items_of(e, st, x, ty, i, own):
                c = conj_and(g, g2)
                if c is not None: out.append((c, y, m))
        return out
    if t[0] == 'agg' and t[1] == OPT: return [(EMPTY, t[3][0][1], 1)] if t[3] else []
    if t[0] == 'agg' and t[1] == RES: return [(EMPTY, t[3][0][1], 1)] if t[2] == 'Ok' else []
    if t[0] == 'bot': return []
    if t[0] == 'app' and t[1] == 'skip' and t[3][0] == 'i': return list(skip_n(e, items_of(e, st, t[2], None, None, own), t[3])[1])
    if t[0] == 'agg' and t[1].endswith('ops::Range') and len(t[3]) == 2 and t[3][0][1] == ('i', 0) and t[3][1][1][0] == 'app' and t[3][1][1][1] == 'len':
        # the indices of a list
        v = t[3][1][1][2]
        if any(('elem', v) in a for a in e.active): v = ('app', 'again', v)
        return [(EMPTY, ('idx', v), '*')]
    if t[0] == 'agg' and t[1].endswith('ops::Range') and len(t[3]) == 2 and t[3][0][1][0] == 'i' and t[3][0][1][1] > 0 and t[3][1][1][0] == 'app' and t[3][1][1][1] == 'len':
        # the indices of a list from some point on
        v = t[3][1][1][2]
        if any(('elem', v) in a for a in e.active): v = ('app', 'again', v)
        return [(c, ('idx', v), '*') for c in e.cond(mk_lt(('idx', v), t[3][0][1]), False)]
    x = ('elem', t)
    # a traversal inside of a traversal of the same collection visits other elements
    if not own and any(x in a for a in e.active): x = ('elem', ('app', 'again', t))
    elif own and any(x in a for a in e.active[:-1]): x = ('elem', ('app', 'again', t))
    return [(EMPTY, x, '*')]


def flat_items(e, st, t):
    """Elements of an element (flatten): Options are recognised structurally."""
    return items_of(e, st, t)


@model('IntoIterator::into_iter', 'Option::iter', 'Option::into_iter')
def into_iter(e, st, i):
    v = i.args[0]
    if v[0] == 'mref' and i.ty(0)['k'] != 'ref': v = e.snap(st, v)
    if i.ty(0)['k'] == 'ref' and i.ty(0)['mut'] and v[0] == 'mref':
        return iter_mut(e, st, i)
    s_ = e.snap(st, v)
    if s_[0] == 'coll': return s_
    return coll(items_of(e, st, s_, i.ty(0), i))


@model('slice::iter_mut', 'Vec::iter_mut', 'HashMap::values_mut', 'HashMap::iter_mut')
def iter_mut(e, st, i):
    v = e.snap(st, i.args[0])
    out = []
    for g, t, m in items_of(e, st, v):
        out.append((g, ('mref', ('T', t), ()), m))
    # what is written through the items is not tracked back into the list: its content is unknown from here on
    for g, x in alts_of(i.args[0]):
        if x[0] == 'mref' and x[1][0] == 'L': e.write_loc(st, x[1], x[2], ('app', 'Vec::iter_mut', v), i.body, i.span)
    return coll(out)


@model('slice::iter', 'HashMap::iter', 'BTreeMap::iter', 'HashMap::into_iter', 'Vec::into_iter', 'VecDeque::iter', 'HashMap::drain', 'HashSet::iter')
def sl_iter(e, st, i): return coll(items_of(e, st, i.args[0]))


@model('Vec::drain')
def drain(e, st, i):
    r = A(e, st, i, 1)
    v = A(e, st, i, 0)
    if r[0] == 'agg' and short(r[1]) == 'RangeFull':
        its = items_of(e, st, v)
        for g, x in alts_of(i.args[0]):
            if x[0] == 'mref' and x[1][0] == 'L': e.write_loc(st, x[1], x[2], coll([]), i.body, i.span)
        return coll(its)
    e.event(st, 'call', 'std::vec::Vec::drain', (v, r), i.body, i.span, {'panics': True, 'tys': []})
    return coll(items_of(e, st, ('app', 'drain', v, r)))


@model('HashMap::values', 'BTreeMap::values', 'HashMap::into_values', 'BTreeMap::into_values')
def values(e, st, i): return coll([(g, fld(t, '1'), m) for g, t, m in items_of(e, st, i.args[0])])


@model('HashMap::keys', 'BTreeMap::keys', 'HashMap::into_keys')
def keys(e, st, i): return coll([(g, fld(t, '0'), m) for g, t, m in items_of(e, st, i.args[0])])


def each(e, st, i, n, items, post):
    res = e.loop_apply(st, items, lambda s, t: e.apply(i.args[n], [t], s, i.body, i.span), i.site)
    return post(res)


@model('Iterator::map')
def it_map(e, st, i):
    its = items_of(e, st, i.args[0])
    r = e.loop_apply(st, its, lambda s, t: e.apply(i.args[1], [t], s, i.body, i.span), i.site)
    out = []
    for g, t, m in r: out.append((g, t, m))
    return coll(out)


def split_bool(e, g, t, r, m, truth=True):
    out = []
    for c in e.cond(r, truth):
        x = conj_and(g, c)
        if x is not None: out.append((x, t, m))
    return out


@model('Iterator::filter')
def it_filter(e, st, i):
    its = items_of(e, st, i.args[0])
    out = []
    def f(s, t): return tup(t, e.apply(i.args[1], [t], s, i.body, i.span))
    for g, r, m in e.loop_apply(st, its, f, i.site):
        t, b = r[3][0][1], r[3][1][1]
        out += split_bool(e, g, t, b, m)
    return coll(out)


@model('Iterator::partition')
def it_partition(e, st, i):
    its = items_of(e, st, i.args[0])
    yes, no = [], []
    def f(s, t): return tup(t, e.apply(i.args[1], [t], s, i.body, i.span))
    for g, r, m in e.loop_apply(st, its, f, i.site):
        t, b = r[3][0][1], r[3][1][1]
        yes += split_bool(e, g, t, b, m)
        no += [(c, t, m) for h in e.cond(b, False) for c in [conj_and(g, h)] if c is not None]
    return tup(coll(yes), coll(no))


@model('Iterator::unzip')
def it_unzip(e, st, i):
    its = items_of(e, st, i.args[0])
    if not all(t[0] == 'agg' and t[1] == '()' and len(t[3]) == 2 for g, t, m in its): return NotImplemented
    return tup(*[coll([(g, t[3][k][1], m) for g, t, m in its]) for k in (0, 1)])


def opt_items(e, g, r, m):
    out = []
    for g2, v, p in adt_alts(e, r, OPT):
        if v != 'Some': continue
        c = conj_and(g, g2)
        if c is not None: out.append((c, p, m))
    return out


@model('Iterator::filter_map')
def it_filter_map(e, st, i):
    its = items_of(e, st, i.args[0])
    out = []
    for g, r, m in e.loop_apply(st, its, lambda s, t: e.apply(i.args[1], [t], s, i.body, i.span), i.site):
        out += opt_items(e, g, r, m)
    return coll(out)


@model('Iterator::map_while')
def it_map_while(e, st, i):
    its = items_of(e, st, i.args[0])
    out, stops = [], False
    for g, r, m in e.loop_apply(st, its, lambda s, t: e.apply(i.args[1], [t], s, i.body, i.span), i.site):
        out += opt_items(e, g, r, m)
        # spans of the document always have a position
        sure = lambda l: l[0][0] == 'app' and (l[0][1] in ('OFF2POS', 'RANGE') or re.match(r'Rope(Slice)?::(get|try)_', l[0][1]))
        alts = alts_of(r)
        if any(x == NONE and not any(sure(l) for l in h) for h, x in alts) or any(x != NONE and not (x[0] == 'agg' and x[2] == 'Some') and not sure((x,)) for h, x in alts): stops = True
    if not stops: return coll(out)
    l = frozenset([mklit(('app', 'none_stopped_before', coll(its)), True, [True], BOOLDOM)])
    return coll([(c, t, m) for g, t, m in out for c in [conj_and(g, l)] if c is not None])


@model('Iterator::flat_map')
def it_flat_map(e, st, i):
    its = items_of(e, st, i.args[0])
    out = []
    # type of the inner iterable: generic argument U
    uty = None
    try: uty = i.body.ty(i.c['args'][1])
    except Exception: pass
    for g, r, m in e.loop_apply(st, its, lambda s, t: e.apply(i.args[1], [t], s, i.body, i.span), i.site):
        for g2, x, m2 in items_of(e, st, r, uty, i):
            c = conj_and(g, g2)
            if c is not None: out.append((c, x, '*' if '*' in (m, m2) else 1))
    return coll(out)


@model('Iterator::flatten')
def it_flatten(e, st, i):
    out = []
    for g, t, m in items_of(e, st, i.args[0], i.ty(0), i):
        for g2, x, m2 in flat_items(e, st, t):
            c = conj_and(g, g2)
            if c is not None: out.append((c, x, '*' if '*' in (m, m2) else 1))
    return coll(out)


@model('Iterator::chain')
def it_chain(e, st, i): return coll(rejoin(e, items_of(e, st, i.args[0]), items_of(e, st, i.args[1], i.ty(1), i)))


def rejoin(e, xs, ys):
    """The first element of a list (which exists, as it was taken out) and its other elements are the list."""
    ys, out = list(ys), []
    for g, t, m in xs:
        new = {}
        for h, x in alts_of(t):
            h = conj_and(g, h)
            for k, (g2, t2, m2) in enumerate(ys):
                if t2[0] != 'elem' or m2 != '*' or x != index_term(t2[1], ('i', 0)): continue
                c = e.cond(mk_lt(idx_of(t2), ('i', 1)), False)
                c = next(iter(c)) if len(c) == 1 else None
                # (that it is not empty is known from its having a first element)
                if c and c <= g2 and g2 - c <= h and all(l in g2 or l[0] in (length(t2[1]), ('isempty', t2[1])) or l[0][0] == 'app' and l[0][1:] in (('len', t2[1]), ('isempty', t2[1])) for l in h): new[k] = (g2 - c, t2, m2)
        if m == 1 and len(new) == len(alts_of(t)):
            for k, y in new.items(): ys[k] = y
        else: out.append((g, t, m))
    xs = out
    return xs + ys


@model('Iterator::rev')
def it_rev(e, st, i):
    c = e.snap(st, i.args[0])
    e.event(st, 'reorder', 'rev', (c,), i.body, i.span)
    its = items_of(e, st, c)
    return coll(its[::-1] if all(not g and m == 1 for g, _, m in its) else its)


def backwards(i, its):
    """Is a list gone through from the end (and does that matter)?"""
    return bool(re.search(r'\bRev<', i.ty(0)['s'])) and not all(not g and m == 1 for g, _, m in its)


def idx_of(t):
    return ('idx', t[1]) if t[0] == 'elem' else ('idx', t)


@model('Iterator::enumerate')
def it_enum(e, st, i):
    its = items_of(e, st, i.args[0])
    if its and all(not g and m == 1 for g, t, m in its): return coll([(g, tup(('i', k), t), m) for k, (g, t, m) in enumerate(its)])
    if backwards(i, its): return coll([(g, tup(('idx', ('app', 'rev', coll(its))), t), m) for g, t, m in its])
    # the index counts the elements which are left
    if len(its) != 1 or its[0][0]: return coll([(g, tup(('idx', coll(its)), t), m) for g, t, m in its])
    return coll([(g, tup(idx_of(t), t), m) for g, t, m in its])


@model('Iterator::zip')
def it_zip(e, st, i):
    a, b = items_of(e, st, i.args[0]), items_of(e, st, i.args[1], i.ty(1), i)
    # the positions of a list
    for n in (0, 1):
        r, o = e.snap(st, i.args[n]), (b, a)[n]
        if r[0] == 'agg' and short(r[1]) == 'RangeFrom' and len(o) == 1 and not o[0][0]:
            k, ix = r[3][0][1], idx_of(o[0][1])
            ix = ix if k == ('i', 0) else ('add', ix, k)
            return coll([(EMPTY, tup(*((ix, o[0][1]) if n == 0 else (o[0][1], ix))), '*')])
    # (only complete lists: what is left out of one of them moves the partners)
    if len(a) == 1 and len(b) == 1 and not a[0][0] and not b[0][0]:
        x, y = a[0][1], b[0][1]
        ex = x if x[0] == 'elem' else None
        if ex is None or y[0] != 'elem' or ex[1] == y[1]: return coll([(EMPTY, tup(x, y), '*')])
        # the longer list is cut
        return coll([(g, tup(x, index_term(y[1], idx_of(ex))), '*') for g in e.cond(mk_lt(idx_of(ex), length(y[1])), True)])
    return coll([(EMPTY, ('elem', ('app', 'zip', coll(a), coll(b))), '*')])


@model('Iterator::skip')
def it_skip(e, st, i):
    its = items_of(e, st, i.args[0])
    n = A(e, st, i, 1)
    if backwards(i, its): return coll([(EMPTY, ('elem', ('app', 'skip', ('app', 'rev', coll(its)), n)), '*')])
    return skip_n(e, its, n)


def counted(e, its):
    """The element whose position in its list is the position in this sequence, and how many were left out before it; None if there is no such element."""
    if len(its) != 1 or its[0][2] != '*': return None
    g, t, m = its[0]
    if t[0] == 'agg' and len(t[3]) == 2 and t[3][0][1][0] == 'idx' and t[3][1][1] == ('elem', t[3][0][1][1]): t = t[3][1][1]
    if t[0] != 'elem': return None
    if not g: return t, 0
    for k in range(1, 9):
        if list(e.cond(mk_lt(idx_of(t), ('i', k)), False)) == [g]: return t, k
    return None


def plus(k, n): return n if not k else ('i', n[1] + k) if n[0] == 'i' else ('add', n, ('i', k))


def skip_n(e, its, n):
    b = counted(e, its)
    if b and (b[1] == 0 or n[0] == 'i'):
        t = its[0][1]
        return coll([(c, t, '*') for c in e.cond(mk_lt(idx_of(b[0]), plus(b[1], n)), False)])
    if n[0] == 'i' and all(not g and m == 1 for g, _, m in its): return coll(its[n[1]:])
    return coll([(EMPTY, ('elem', ('app', 'skip', coll(its), n)), '*')])


@model('Iterator::take')
def it_take(e, st, i):
    its = items_of(e, st, i.args[0])
    if backwards(i, its): return coll([(EMPTY, ('elem', ('app', 'take', ('app', 'rev', coll(its)), A(e, st, i, 1))), '*')])
    return take_n(e, its, A(e, st, i, 1))


def take_n(e, its, n):
    b = counted(e, its)
    if n[0] == 'i' and all(not g and m == 1 for g, _, m in its): return coll(its[:n[1]])
    if b and (b[1] == 0 or n[0] == 'i'):
        g, t, m = its[0]
        return coll([(x, t, m) for x in [conj_and(g, c) for c in e.cond(mk_lt(idx_of(b[0]), plus(b[1], n)), True)] if x is not None])
    return coll([(EMPTY, ('elem', ('app', 'take', coll(its), n)), '*')])


def pred_on(e, st, i, n, t):
    return e.apply(i.args[n], [t], st, i.body, i.span)


def whilelike(name):
    def f(e, st, i):
        c = coll(items_of(e, st, i.args[0]))
        s2 = st
        ps = e.loop_apply(st, list(c[1]), lambda s, t: pred_on(e, s, i, 1, t), i.site)
        p = ps[0][1] if ps else T_TRUE
        return coll([(EMPTY, ('elem', ('app', name, c, ('pred', p))), '*')])
    return f


MODELS['Iterator::take_while'] = whilelike('take_while')
MODELS['Iterator::skip_while'] = whilelike('skip_while')


@model('Iterator::step_by')
def step_by(e, st, i): return coll([(EMPTY, ('elem', ('app', 'step_by', coll(items_of(e, st, i.args[0])), A(e, st, i, 1))), '*')])


def conj_not(g):
    """The disjoint cases in which a conjunction does not hold."""
    out, pre = [], EMPTY
    for t, pos, vals in sorted(g, key=repr):
        dom = DOM.get(t)
        c = conj_and(pre, frozenset([mklit(t, not pos, vals, dom)]))
        if c is not None: out.append(c)
        pre = conj_and(pre, frozenset([(t, pos, vals)]))
        if pre is None: break
    return out


@model('Iterator::collect', 'FromIterator::from_iter')
def it_collect(e, st, i):
    its = items_of(e, st, i.args[0])
    t = i.dty
    if t['k'] == 'adt':
        if t['adt'].endswith('string::String'): return cat(its)
        if t['adt'].endswith(('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet')): return ('app', 'mapof', coll(its))
        if t['adt'] == OPT:
            c, bad = [], []
            for g, x, m in its:
                for g2, v, p in adt_alts(e, x, OPT):
                    k = conj_and(g, g2)
                    if k is None: continue
                    if v == 'Some': c.append((k, p, m))
                    else: bad.append(k)
            if not bad: return some(coll(c))
            return ('app', 'collect_opt', coll(its))
        if t['adt'] == RES:
            # the first error, or everything: exact while no item stands for many
            if all(m == 1 for _, _, m in its) and len(its) <= 8:
                out, alive = [], [(EMPTY, ())]
                for g, x, m in its:
                    nxt = []
                    for c, acc in alive:
                        for g2, v, p in adt_alts(e, x, RES):
                            k = conj_and(g, g2)
                            k = conj_and(c, k) if k is not None else None
                            if k is None: continue
                            if v == 'Ok': nxt.append((k, acc + (p,)))
                            else: out.append((k, ('agg', RES, 'Err', (('0', p),))))
                        for k2 in conj_not(g):
                            k = conj_and(c, k2)
                            if k is not None: nxt.append((k, acc))
                    alive = nxt
                    if len(alive) > 16: break
                else:
                    return mk_choice(out + [(c, ('agg', RES, 'Ok', (('0', coll([(EMPTY, p, 1) for p in acc])),))) for c, acc in alive])
            return ('app', 'collect_res', coll(its))
    return coll(its)


@model('Extend::extend', 'Vec::extend_from_slice', 'Vec::append', 'String::extend')
def extend(e, st, i):
    src = i.args[1]
    its = items_of(e, st, src, i.ty(1), i)
    if norm(i.c['path']) == 'Vec::append':
        for g, x in alts_of(src):
            if x[0] == 'mref' and x[1][0] == 'L': e.write_loc(st, x[1], x[2], coll([]), i.body, i.span)
    for g, x in alts_of(i.args[0]):
        if x[0] == 'mref':
            old = e.deref(st, x)
            if its and all(m == 1 for c, t, m in its) and not is_string_ty(i, i.ty(0)):
                for c, t, m in its: e.event(State(st.mem, dnf_and(st.pc, (c,)), st.outer), 'push', e.loc_label(x[1], x[2]), (old, t), i.body, i.span, {'mref': x})
            else: e.event(st, 'extend', e.loc_label(x[1], x[2]), (old, coll(its)), i.body, i.span, {'mref': x})
            if x[1][0] == 'L':
                if is_string_ty(i, i.ty(0)): new = cat(cat_items(old) + [(c, t, '*' if m == '*' else m) for c, t, m in its])
                elif old[0] == 'coll': new = coll(list(old[1]) + its)
                elif old[0] == 'choice' and all(y[0] == 'coll' for _, y in old[1]):
                    new = mk_choice([(g2, coll(list(y[1]) + its)) for g2, y in old[1]])
                else: new = None
                if new is not None: e.write_loc(st, x[1], x[2], new, i.body, i.span)
    return UNIT


def shift_len(st, place):
    """A list which is known by its place has grown: lengths which were taken before are one less than the length now."""
    n = ('app', 'len', place)
    def go(t):
        if t == n: return ('sub', n, ('i', 1))
        if not isinstance(t, tuple) or not t or t[0] in ('i', 's', 'c', 'b', 'sym', 'fn', 'lv', 'const', 'bytes', 'top', 'bot'): return t
        if t[0] == 'agg': return (t[0], t[1], t[2], tuple((k, go(x)) for k, x in t[3]))
        if t[0] == 'clo': return (t[0], t[1], tuple(go(x) for x in t[2]))
        if t[0] == 'mref': return t[:2] + (tuple((p[0], go(p[1])) if p[0] == 'i' else p for p in t[2]),) + t[3:]
        return t
    for k, v in list(st.mem.items()):
        w = go(v)
        if w != v: st.mem[k] = w


@model('Vec::push', 'VecDeque::push_back')
def vec_push(e, st, i):
    v = i.args[1]
    for g, x in alts_of(i.args[0]):
        if x[0] == 'mref':
            old = e.deref(st, x)
            e.event(st, 'push', e.loc_label(x[1], x[2]), (old, v), i.body, i.span, {'mref': x})
            if old[0] in ('sym', 'fld'): shift_len(st, old)
            if x[1][0] == 'L':
                def app(o):
                    if o[0] == 'coll': return coll(list(o[1]) + [(g if len(alts_of(i.args[0])) > 1 else EMPTY, v, 1)])
                    if o[0] == 'choice': return mk_choice([(g2, app(y)) for g2, y in o[1]])
                    return o
                n = app(old)
                if n != old: e.write_loc(st, x[1], x[2], n, i.body, i.span)
    return UNIT


@model('Vec::insert')
def vec_insert(e, st, i):
    idx, v = A(e, st, i, 1), i.args[2]
    for g, x in alts_of(i.args[0]):
        if x[0] == 'mref':
            old = e.deref(st, x)
            e.event(st, 'insert', e.loc_label(x[1], x[2]), (old, idx, v), i.body, i.span)
            if x[1][0] == 'L':
                its = items_of(e, st, old)
                if idx == ('i', 0): n = coll([(EMPTY, v, 1)] + its)
                elif idx == length(old): n = coll(its + [(EMPTY, v, 1)])
                elif idx[0] == 'i' and idx[1] <= len(its) and all(not g and m != '*' for g, _, m in its): n = coll(its[:idx[1]] + [(EMPTY, v, 1)] + its[idx[1]:])
                else: n = ('app', 'vec.insert', old, idx, e.snap(st, v))
                e.write_loc(st, x[1], x[2], n, i.body, i.span)
    return UNIT


@model('Vec::pop')
def vec_pop(e, st, i):
    v = A(e, st, i, 0)
    exact = v[0] == 'coll' and v[1] and not v[1][-1][0] and v[1][-1][2] == 1
    for g, x in alts_of(i.args[0]):
        if x[0] != 'mref': continue
        e.event(st, 'mutate', 'Vec::pop', (v,), i.body, i.span, {'label': e.loc_label(x[1], x[2]), 'panics': False})
        if x[1][0] == 'L': e.write_loc(st, x[1], x[2], coll(v[1][:-1]) if exact else ('app', 'after:Vec::pop', v), i.body, i.span)
    if exact: return some(v[1][-1][1])
    em = mk_eq(length(v), ('i', 0))
    return mk_choice([(c, some(('app', 'last', v))) for c in e.cond(em, False)] + [(c, NONE) for c in e.cond(em, True)])


@model('Vec::clear', 'Vec::truncate', 'Vec::retain', 'Vec::remove', 'Vec::swap_remove', 'Vec::dedup', 'slice::sort', 'slice::sort_by', 'slice::sort_by_key', 'slice::reverse',
       'slice::sort_unstable', 'slice::sort_unstable_by_key', 'slice::sort_unstable_by', 'Vec::dedup_by_key', 'Vec::dedup_by', 'slice::swap', 'Vec::split_off', 'HashMap::clear', 'HashMap::retain', 'HashMap::remove')
def vec_mut(e, st, i):
    nm = norm(i.c['path'])
    out = UNIT
    for g, x in alts_of(i.args[0]):
        if x[0] == 'mref':
            old = e.deref(st, x)
            rest = [e.freeze(st, a) for a in i.args[1:]]
            e.event(st, 'mutate', nm, (old,) + tuple(rest), i.body, i.span, {'label': e.loc_label(x[1], x[2]), 'panics': nm in ('Vec::remove', 'Vec::swap_remove', 'slice::swap', 'Vec::split_off')})
            if nm in ('Vec::remove', 'Vec::swap_remove'): out = index_term(old, rest[0])
            if nm in ('HashMap::remove',): out = ('app', 'map.get', old, rest[0])
            if x[1][0] == 'L':
                if nm in ('Vec::dedup_by', 'Vec::dedup_by_key'): new = distinct(e, st, i, items_of(e, st, old), nm)
                elif nm == 'Vec::truncate': new = take_n(e, items_of(e, st, old), rest[0])
                elif nm.startswith('slice::') or nm == 'Vec::dedup': new = old
                elif nm == 'Vec::clear': new = coll([])
                elif nm == 'Vec::retain':
                    its = []
                    for g2, r, m in e.loop_apply(st, items_of(e, st, old), lambda s, t: tup(t, e.apply(i.args[1], [t], s, i.body, i.span)), i.site):
                        its += split_bool(e, g2, r[3][0][1], r[3][1][1], m)
                    new = coll(its)
                else: new = ('app', 'after:' + nm, old) + tuple(rest)
                e.write_loc(st, x[1], x[2], new, i.body, i.span)
    return out


def distinct(e, st, i, its, nm):
    """Neighbours which are equal (in the sense of the closure) become one."""
    def f(s, t):
        p = ('app', 'previous', t)
        if nm == 'Vec::dedup_by': r = e.apply(i.args[1], [t, p], s, i.body, i.span)
        else: r = mk_eq(e.freeze(s, e.apply(i.args[1], [t], s, i.body, i.span)), e.freeze(s, e.apply(i.args[1], [p], s, i.body, i.span)))
        return tup(t, r)
    out = []
    for g, r, m in e.loop_apply(st, its, f, i.site):
        t, b = r[3][0][1], r[3][1][1]
        if b == mk_eq(t, ('app', 'previous', t)): out.append((g, t, m))
        else: out += split_bool(e, g, t, b, m, False)
    return coll(out)


def nonempty_choice(e, v, t):
    if v[0] == 'coll' and not v[1]: return NONE
    em = mk_eq(length(v), ('i', 0))
    return mk_choice([(c, some(t)) for c in e.cond(em, False)] + [(c, NONE) for c in e.cond(em, True)])


@model('slice::first', 'Vec::first')
def sl_first(e, st, i):
    v = A(e, st, i, 0)
    return nonempty_choice(e, v, index_term(v, ('i', 0)))


@model('slice::last', 'Vec::last', 'Iterator::last')
def sl_last(e, st, i):
    v = A(e, st, i, 0)
    if v[0] == 'coll' and len(v[1]) == 1 and v[1][0][1][0] == 'elem' and not v[1][0][0]: v = v[1][0][1][1]
    return nonempty_choice(e, v, ('app', 'last', v))


@model('slice::get', 'Vec::get')
def sl_get(e, st, i):
    v, ix = A(e, st, i, 0), A(e, st, i, 1)
    if ix[0] == 'agg': return ('app', 'slice.get', v, ix)
    if ix == ('i', 0): return nonempty_choice(e, v, index_term(v, ix))
    c = mk_lt(ix, length(v))
    return mk_choice([(x, some(index_term(v, ix))) for x in e.cond(c, True)] + [(x, NONE) for x in e.cond(c, False)])


@model('slice::get_mut', 'Vec::get_mut')
def sl_get_mut(e, st, i):
    v, ix = A(e, st, i, 0), A(e, st, i, 1)
    c = mk_lt(ix, length(v))
    for g, x in alts_of(i.args[0]):
        if x[0] == 'mref':
            return mk_choice([(y, some(('mref', x[1], x[2] + (('i', ix),)))) for y in e.cond(c, True)] + [(y, NONE) for y in e.cond(c, False)])
    return ('top', 'get_mut')


@model('slice::last_mut', 'Vec::last_mut')
def sl_last_mut(e, st, i):
    v = A(e, st, i, 0)
    for g, x in alts_of(i.args[0]):
        if x[0] == 'mref':
            em = mk_eq(length(v), ('i', 0))
            r = some(('mref', x[1], x[2] + (('i', ('sub', length(v), ('i', 1))),)))
            return mk_choice([(y, r) for y in e.cond(em, False)] + [(y, NONE) for y in e.cond(em, True)])
    return ('top', 'last_mut')


def index_term(v, ix):
    if v[0] == 'coll':
        its = v[1]
        if ix[0] == 'i' and all(not g and m == 1 for g, _, m in its) and -len(its) <= ix[1] < len(its): return its[ix[1]][1]
        if len(its) == 1 and its[0][1][0] == 'elem' and not its[0][0]: v = its[0][1][1]
    if v[0] == 'choice': return mk_choice([(g, index_term(x, ix)) for g, x in v[1]])
    if ix[0] == 'idx' and ix[1] in (v, ('app', 'again', v)): return ('elem', ix[1])
    return ('app', 'index', v, ix)


def subslice(v, a, b, from_end):
    if v[0] == 'coll' and all(not g and m == 1 for g, _, m in v[1]):
        return coll(v[1][a:len(v[1]) - b if from_end else b])
    if from_end and not b: return ('app', 'skip', v, ('i', a))
    return ('app', 'subslice', v, ('i', a), ('i', b), ('b', from_end))


@model('Index::index')
def index(e, st, i):
    v, ix = A(e, st, i, 0), A(e, st, i, 1)
    t = i.deref_ty(i.ty(0)) if i.ty(0)['k'] != 'unknown' else {'s': '?', 'k': 'unknown'}
    if ix[0] == 'agg' and short(ix[1]) == 'RangeFull': return v
    if t.get('adt') == JSON and e.prog.variants(JSON):
        # null if there is no such element
        null = ('agg', JSON, 'Null', ())
        r = json_get(e, v, ix)
        if r[0] != 'choice': return mk_choice([(frozenset([lit(r, True, ['Some'], ('Some', 'None'))]), fld(r, 'Option::Some.0')), (frozenset([lit(r, True, ['None'], ('Some', 'None'))]), null)])
        return mk_choice([(g, null if x == NONE else x[3][0][1]) if x[0] == 'agg' else (g, ('top', 'json')) for g, x in r[1]])
    e.event(st, 'index', t['s'], (v, ix), i.body, i.span)
    if t.get('adt', '').endswith('Map'): return fld(in_map(v, ix), 'Option::Some.0')
    if ix[0] == 'agg' and short(ix[1]).startswith('Range'):
        if is_string_ty(i, i.ty(0)): return ('app', 'str.slice', v, ix)
        if short(ix[1]) == 'RangeFrom':
            r = skip_n(e, items_of(e, st, v), fld(ix, 'RangeFrom.start'))
            return r
        if short(ix[1]) == 'RangeTo': return take_n(e, items_of(e, st, v), fld(ix, 'RangeTo.end'))
        if v[0] == 'coll' and short(ix[1]) == 'Range' and all(x[1][0] == 'i' for x in ix[3]) and all(not g and m == 1 for g, _, m in v[1]): return coll(v[1][fld(ix, 'Range.start')[1]:fld(ix, 'Range.end')[1]])
        return ('app', 'slice', v, ix)
    return index_term(v, ix)


# ------------------------------------------------------------ JSON values
JSON = 'serde_json::Value'


def json_as(e, v, variant, some_of=None):
    if v[0] == 'choice': return mk_choice([(g, json_as(e, x, variant)) for g, x in v[1]])
    yes = e.variant_cond(v, JSON, variant)
    no = FALSE
    for n in e.prog.variants(JSON): 
        if n != variant: no = dnf_or(no, e.variant_cond(v, JSON, n))
    return mk_choice([(g, some(fld(v, 'Value::%s.0' % variant))) for g in yes] + [(g, NONE) for g in no])


def json_get(e, v, ix):
    if v[0] == 'choice': return mk_choice([(g, json_get(e, x, ix)) for g, x in v[1]])
    if ix[0] != 'i': return ('app', 'Value::get', v, ix)
    arr = fld(v, 'Value::Array.0')
    inner = nonempty_choice(e, arr, index_term(arr, ix)) if ix == ('i', 0) else mk_choice([(x, some(index_term(arr, ix))) for x in e.cond(mk_lt(ix, length(arr)), True)] + [(x, NONE) for x in e.cond(mk_lt(ix, length(arr)), False)])
    out = []
    for n in e.prog.variants(JSON):
        for g in e.variant_cond(v, JSON, n):
            if n != 'Array': out.append((g, NONE))
            else: out += [(conj_and(g, h), x) for h, x in alts_of(inner) if conj_and(g, h) is not None]
    return mk_choice(out)


for jn, jv in (('as_str', 'String'), ('as_array', 'Array'), ('as_object', 'Object'), ('as_bool', 'Bool')):
    def _m(e, st, i, n=jn, v=jv):
        if not i.c['path'].startswith('serde_json::') or not e.prog.variants(JSON): return NotImplemented
        return json_as(e, A(e, st, i, 0), v)
    MODELS["Value::" + jn] = _m
for jn, jv in (('is_string', 'String'), ('is_array', 'Array'), ('is_object', 'Object'), ('is_null', 'Null'), ('is_number', 'Number'), ('is_boolean', 'Bool')):
    def _m(e, st, i, v=jv):
        if not i.c['path'].startswith('serde_json::') or not e.prog.variants(JSON): return NotImplemented
        x = A(e, st, i, 0)
        def f(x):
            if x[0] == 'choice': return mk_choice([(g, f(y)) for g, y in x[1]])
            return ('b', x[2] == v) if x[0] == 'agg' else ('is', x, JSON, v)
        return f(x)
    MODELS["Value::" + jn] = _m


@model('Value::get')
def value_get(e, st, i):
    if not i.c['path'].startswith('serde_json::') or not e.prog.variants(JSON): return NotImplemented
    return json_get(e, A(e, st, i, 0), A(e, st, i, 1))


@model('IndexMut::index_mut')
def index_mut(e, st, i):
    ix = A(e, st, i, 1)
    v = A(e, st, i, 0)
    if ix[0] == 'agg' and short(ix[1]) == 'RangeFull': return i.args[0]
    e.event(st, 'index', i.deref_ty(i.ty(0))['s'], (v, ix), i.body, i.span)
    return mk_choice([(g, ('mref', x[1], x[2] + (('i', ix),))) if x[0] == 'mref' else (g, x) for g, x in alts_of(i.args[0])])


@model('slice::contains', 'Vec::contains')
def sl_contains(e, st, i): return ('app', 'contains', A(e, st, i, 0), A(e, st, i, 1))


def in_map(v, k):
    if v[0] == 'fld' and v[2] == 'Value::Object.0': return ('app', 'Value::get', v[1], k)
    return ('app', 'map.get', v, k)


def table_at(e, m, k):
    """The value of a key in a table with known entries."""
    if k[0] == 'choice': return mk_choice([(g, table_at(e, m, x)) for g, x in k[1]])
    d = {}
    for it in m[2][1] if m[2][0] == 'coll' else [None]:
        if it is None or it[0] != EMPTY or it[1][0] != 'agg' or len(it[1][3]) != 2: return ('top', 'map.lookup')
        a, b = (x for _, x in it[1][3])
        if a[0] not in ('s', 'i', 'c', 'b') and not (a[0] == 'agg' and not a[3]): return ('top', 'map.lookup')
        d[a] = b
    if k in d: return some(d[k])
    if k[0] in ('s', 'i', 'c', 'b') or k[0] == 'agg' and not k[3]: return NONE
    adts = {a[1] if a[0] == 'agg' else None for a in d}
    if len(adts) == 1 and None not in adts:
        adt = adts.pop()
        dom = list(e.prog.variants(adt) or ())
        dom = [v if isinstance(v, str) else v['name'] for v in dom]
        if dom and all(a[2] in dom for a in d):
            by = {a[2]: b for a, b in d.items()}
            return mk_choice([(frozenset([mklit(k, True, [v], dom)]), some(by[v]) if v in by else NONE) for v in dom])
    return ('top', 'map.lookup')


@model('HashMap::get', 'BTreeMap::get', 'Map::get')
def map_get(e, st, i):
    m = A(e, st, i, 0)
    if m[0] == 'app' and m[1] == 'mapof': return table_at(e, m, A(e, st, i, 1))
    return in_map(m, A(e, st, i, 1))


@model('HashMap::contains_key', 'BTreeMap::contains_key', 'HashSet::contains', 'Map::contains_key')
def map_contains(e, st, i):
    m = A(e, st, i, 0)
    if m[0] == 'app' and m[1] == 'mapof' and 'Set' not in i.c['path']:
        return mk_choice([(g, ('b', v == 'Some')) for g, v, p in adt_alts(e, table_at(e, m, A(e, st, i, 1)), OPT)])
    return ('is', in_map(A(e, st, i, 0), A(e, st, i, 1)), OPT, 'Some')


@model('HashMap::get_mut', 'BTreeMap::get_mut')
def map_get_mut(e, st, i):
    m, k = A(e, st, i, 0), A(e, st, i, 1)
    t = ('app', 'map.get', m, k)
    out = []
    for g, v, p in adt_alts(e, t, OPT):
        out.append((g, some(('mref', ('T', ('app', 'at', m, k)), ())) if v == 'Some' else NONE))
    return mk_choice(out)


@model('HashMap::insert', 'BTreeMap::insert', 'HashSet::insert', 'BTreeSet::insert')
def map_insert(e, st, i):
    m = A(e, st, i, 0)
    lab = ''
    for g, x in alts_of(i.args[0]):
        if x[0] == 'mref': lab = e.loc_label(x[1], x[2])
    e.event(st, 'map.insert', lab, (m,) + tuple(e.freeze(st, a) for a in i.args[1:]), i.body, i.span)
    k = e.freeze(st, i.args[1])
    if 'Set' not in i.c['path']: put(e, st, i, i.args[0], k, e.freeze(st, i.args[2]), None)
    if 'Set' in i.c['path'] and m[0] == 'sym' and m[1].startswith('new:') and (is_text_ty(i, 1) or coarse(i, k)): return ('app', 'first.of', k)
    return ('app', 'map.insert', m, k)


def looping(i):
    b = i.site[1]
    return not isinstance(b, int) or any(b in L for L in i.body.cfg().loops.values())


def put(e, st, i, at, k, v, cond):
    """Adds an entry to a map whose entries are known."""
    for g, x in alts_of(at):
        if x[0] != 'mref' or x[1][0] != 'L': continue
        old = e.deref(st, x)
        known = old[0] == 'app' and old[1] == 'mapof'
        if known: old = old[2]
        if old[0] == 'sym' and old[1].startswith(('new:HashMap@', 'new:BTreeMap@')) and cond is None and not looping(i): known, old = True, coll([])
        if old[0] != 'coll': continue
        its = [y for y in old[1] if cond is not None or not (y[1][0] == 'agg' and len(y[1][3]) == 2 and y[1][3][0][1] == k)]
        for c in [EMPTY] if cond is None else cond:
            c = conj_and(c, g if len(alts_of(at)) > 1 else EMPTY)
            if c is not None: its.append((c, tup(k, v), 1))
        e.write_loc(st, x[1], x[2], ('app', 'mapof', coll(its)) if known else coll(its), i.body, i.span)


def coarse(i, k):
    """Does a key consist of texts and line numbers only (so that different places share it)?"""
    t = i.tys[1]
    if t['k'] != 'tuple' or k[0] != 'agg': return False
    for a, (_, x) in zip(t['args'], k[3]):
        u = i.deref_ty(i.body.ty(a))
        if not (u['k'] == 'str' or u.get('adt', '').endswith('string::String') or x[0] == 'fld' and re.split(r'[.:]', x[2])[-1] == 'line'): return False
    return True


def is_text_ty(i, n):
    t = i.deref_ty(i.tys[n]) if i.tys[n]['k'] != 'unknown' else i.tys[n]
    return t['k'] == 'str' or t.get('adt', '').endswith('string::String')


@model('HashMap::entry', 'BTreeMap::entry')
def map_entry(e, st, i):
    m, k = A(e, st, i, 0), A(e, st, i, 1)
    if m[0] == 'coll' or m[0] == 'app' and m[1] == 'mapof': return ('app', 'entry', m, k, i.args[0])
    return ('app', 'entry', m, k)


@model('Entry::or_default', 'Entry::or_insert', 'Entry::or_insert_with')
def or_default(e, st, i):
    en = A(e, st, i, 0)
    if en[0] == 'app' and en[1] == 'entry':
        m = norm(i.c['path']).rsplit('::', 1)[-1]
        v = i.args[1] if m == 'or_insert' else e.apply(i.args[1], [], st, i.body, i.span) if m == 'or_insert_with' else ('top', 'default')
        e.event(st, 'map.entry', e.loc_label(('T', en[2]), ()), (en[2], en[3]), i.body, i.span, {'value': e.freeze(st, v)})
        if len(en) == 5:
            put(e, st, i, en[4], en[3], v, [frozenset([mklit(('app', 'map.vacant', en[3]), True, [True], BOOLDOM)])])
        return ('mref', ('T', ('app', 'at', en[2], en[3])), ())
    return ('top', 'entry')


# ------------------------------------------------------------ consumers
def in_loop(i):
    """(is the call in a loop, is exhaustion the only exit)"""
    b = i.site[1]
    if not isinstance(b, int): return False, True
    cfg = i.body.cfg()
    best = None
    for h, L in cfg.loops.items():
        if b in L and (best is None or len(L) < len(best)): best = L
    if best is None: return False, True
    # an iterator made anew in every round is not what drives the loop
    for g, x in alts_of(i.args[0]):
        if x[0] == 'mref' and x[1][0] == 'L' and not x[2]:
            for b2 in best:
                blk = i.body.blocks[b2]
                if any(q[0] == '=' and q[1]['l'] == x[1][2] and not q[1]['p'] for q in blk['s']): return False, True
                if blk['t'][0] == 'call' and blk['t'][3] and blk['t'][3]['l'] == x[1][2] and not blk['t'][3]['p'] : return False, True
    # the switch which tests the result
    s = i.body.blocks[b]['t'][4]
    n = 0
    while s is not None and i.body.blocks[s]['t'][0] == 'goto' and n < 5:
        s = i.body.blocks[s]['t'][1]
        n += 1
    returns = lambda x: _can_return(i.body, x)
    exits = [(x, y) for x in best for y in cfg.succ[x] if y not in best and returns(y)]
    return True, all(x == s for x, y in exits)


_cr = {}


def _can_return(body, b):
    k = (body.key, b)
    if k not in _cr:
        seen, stk, r = {b}, [b], False
        while stk:
            x = stk.pop()
            if body.blocks[x]['t'][0] == 'return':
                r = True
                break
            for y in body.cfg().succ[x]:
                if y not in seen:
                    seen.add(y)
                    stk.append(y)
        _cr[k] = r
    return _cr[k]


def exh(site, v): return mklit(('exhausted', site), True, [v], BOOLDOM)


def by_which(v):
    """A list whose contents depend on which element another loop is at: as a choice of lists."""
    if v[0] != 'coll' or len(v[1]) < 2: return v
    ws = [{l for l in g if l[0][0] == 'which'} for g, t, m in v[1]]
    for s in {l[0] for l in ws[0]}:
        gs = {}
        for (g, t, m), w in zip(v[1], ws):
            l = next((l for l in w if l[0] == s), None)
            if l is None: break
            gs.setdefault(l, []).append((g - {l}, t, m))
        else:
            ls = list(gs)
            if len(ls) > 1 and all(conj_and(frozenset([x]), frozenset([y])) is None for k, x in enumerate(ls) for y in ls[:k]):
                return ('choice', tuple((frozenset([l]), coll(c)) for l, c in gs.items()))
    return v


def next_of(e, i, v, its):
    """(the first element, what is left for the next call)"""
    l = coll(its[1:]) if all(m == 1 and not g for g, t, m in its) else skip_n(e, its, ('i', 1))
    b = counted(e, its)
    if b and b[1]:
        c = mk_lt(('i', b[1]), length(b[0][1]))
        return mk_choice([(x, some(index_term(b[0][1], ('i', b[1])) if its[0][1] == b[0] else tup(('i', b[1]), index_term(b[0][1], ('i', b[1]))))) for x in e.cond(c, True)] + [(x, NONE) for x in e.cond(c, False)]), l
    c = coll(its)
    if v[0] == 'coll' and not its: return NONE, l
    if backwards(i, its):
        v = its[0][1][1] if len(its) == 1 and its[0][1][0] == 'elem' and not its[0][0] else c
        return nonempty_choice(e, v, ('app', 'last', v)), l
    if len(its) == 1 and its[0][2] == 1:
        g = its[0][0]
        if not g: return some(its[0][1]), l
    if any(g for g, t, m in its):
        x = first_where(e, its, '%s#%s' % i.site)
        if x is not None: return x, l
    base = its[0][1][1] if len(its) == 1 and its[0][1][0] == 'elem' and not its[0][0] else c
    return nonempty_choice(e, base, index_term(base, ('i', 0))), l


@model('Iterator::next')
def it_next(e, st, i):
    v = e.snap(st, i.args[0])
    loop, sole = in_loop(i)
    if not loop: v = by_which(v)
    if not loop and v[0] == 'choice' and len(v[1]) > 1 and all(x[0] == 'coll' for _, x in v[1]):
        # one of several lists: the first element of that one
        at = [x for g, x in alts_of(i.args[0]) if x[0] == 'mref' and x[1][0] == 'L']
        rs, rest = [], []
        for g, x in v[1]:
            r, l = next_of(e, i, x, items_of(e, st, x))
            rs += [(c, y) for h, y in alts_of(r) for c in [conj_and(g, h)] if c is not None]
            rest.append((g, l))
        for x in at: e.write_loc(st, x[1], x[2], mk_choice(rest), i.body, i.span)
        return mk_choice(rs)
    its = items_of(e, st, v, own=loop and bool(e.active))
    if loop and e.active:
        from engine import elems
        for g, t, m in its: e.active[-1] |= elems(t)
    if not loop:
        r, l = next_of(e, i, v, its)
        for g, x in alts_of(i.args[0]):
            if x[0] == 'mref' and x[1][0] == 'L': e.write_loc(st, x[1], x[2], l, i.body, i.span)
        return r
    site = '%s#%s' % i.site
    if e.loops: e.loops[-1]['sites'][site] = [m for g, t, m in its]
    out = []
    dom = range(len(its))
    for k, (g, t, m) in enumerate(its):
        if len(its) > 1:
            g = conj_and(g, frozenset([mklit(('which', site), True, [k], dom)]))
        if not sole: g = conj_and(g, frozenset([exh(site, False)]))
        if g is not None: out.append((g, some(t)))
    out.append((EMPTY if sole else frozenset([exh(site, True)]), NONE))
    return ('choice', tuple(out))


@model('DoubleEndedIterator::next_back')
def it_next_back(e, st, i):
    its = items_of(e, st, i.args[0])
    loop, _ = in_loop(i)
    if not loop:
        def rest(c):
            for g, x in alts_of(i.args[0]):
                if x[0] == 'mref' and x[1][0] == 'L': e.write_loc(st, x[1], x[2], c, i.body, i.span)
        if not its: return NONE
        if all(m == 1 and not g for g, t, m in its):
            rest(coll(its[:-1]))
            return some(its[-1][1])
        if len(its) == 1 and its[0][1][0] == 'elem' and not its[0][0]:
            base = its[0][1][1]
            rest(coll([(EMPTY, ('elem', ('app', 'after:Vec::pop', base)), '*')]))
            return nonempty_choice(e, base, ('app', 'last', base))
    return ('app', 'DoubleEndedIterator::next_back', coll(its))


def negated(g):
    r = FALSE
    for l in g: r = dnf_or(r, (frozenset([mklit(l[0], not l[1], l[2], DOM.get(l[0]))]),))
    return r


def first_where(e, its, site):
    """The first element of a filtered collection, like `find`."""
    if all(m == 1 and t[0] != 'elem' for g, t, m in its):
        rest, out = TRUE, []
        for g, t, m in its:
            out += [(x, some(t)) for x in dnf_and(rest, (g,))]
            rest = dnf_and(rest, negated(g))
            if len(out) > 60 or len(rest) > 60: return None
            if rest == FALSE: break
        return mk_choice(out + [(x, NONE) for x in rest])
    if not all(m == '*' for g, t, m in its): return None
    out = []
    for g, t, m in its:
        c = conj_and(g, frozenset([exh(site, False)]))
        if c is not None: out.append((c, some(t)))
    return ('choice', tuple(out + [(frozenset([exh(site, True)]), NONE)]))


def search_list(e, st, i, its, kind):
    """A search in a literal list: the first element whose predicate holds."""
    if not its or not all(m == 1 and t[0] != 'elem' for g, t, m in its) or kind == 'position' and any(g for g, t, m in its): return None
    rest, out = TRUE, []
    for k, (g, t, m) in enumerate(its):
        s2 = State(dict(st.mem), st.pc, st.outer)
        ev = e.events
        e.events = []
        try:
            b = e.apply(i.args[1], [t], s2, i.body, i.span)
            if e.events: return None
        finally: e.events = ev
        if b == ('bot',) or any(s2.mem.get(q) != v for q, v in st.mem.items()): return None
        hit, miss = [], FALSE
        if kind == 'find_map':
            for g2, v, p in adt_alts(e, b, OPT):
                if v == 'Some': hit.append(((g2,), some(p)))
                else: miss = dnf_or(miss, (g2,))
        else:
            r = {'any': T_TRUE, 'all': T_FALSE, 'position': some(('i', k)), 'find': some(t)}[kind]
            hit.append((e.cond(b, kind != 'all'), r))
            miss = e.cond(b, kind == 'all')
        if g:
            hit = [(dnf_and((g,), c), r) for c, r in hit]
            miss = dnf_or(miss, negated(g))
        for c, r in hit: out += [(x, r) for x in dnf_and(rest, c)]
        rest = dnf_and(rest, miss)
        if len(out) > 60 or len(rest) > 60: return None
        if rest == FALSE: break
    out += [(x, {'any': T_FALSE, 'all': T_TRUE}.get(kind, NONE)) for x in rest]
    return mk_choice(out)


def member(its, r, kind):
    """any(|x| x == y) is `contains`."""
    if len(its) != 1 or its[0][0] or its[0][1][0] != 'elem': return None
    t = its[0][1]
    if kind == 'all':
        if r[0] != 'not': return None
        x = member(its, r[1], 'any')
        return x and neg(x)
    v = None
    if r[0] == 'eqc' and r[1] == t: v = ('s', r[2]) if isinstance(r[2], str) else ('i', r[2])
    elif r[0] == 'eq' and t in r[1:]:
        v = r[2] if r[1] == t else r[1]
        if t in walk(v): return None
    if v is None: return None
    if t[1][0] == 'app' and t[1][1] == 'chars': return ('app', 'str.contains', t[1][2], ('pred', ('eqc', ('sym', '$c'), v[1]))) if v[0] == 's' else None
    return ('app', 'contains', t[1], v)


def search(kind):
    def f(e, st, i):
        its = items_of(e, st, i.args[0])
        site = '%s#%s' % i.site
        ex = search_list(e, st, i, its, kind)
        if ex is not None: return ex
        r = e.loop_apply(st, its, lambda s, t: tup(t, e.apply(i.args[1], [t], s, i.body, i.span)), i.site)
        out = []
        if kind in ('any', 'all') and r:
            xs = [member([(g, tr[3][0][1], '*')], tr[3][1][1], kind) for g, tr, m in r]
            if all(x is not None for x in xs):
                t = xs[0]
                for x in xs[1:]: t = ('bitor' if kind == 'any' else 'bitand', t, x)
                return t
        x1 = frozenset([exh(site, False)])
        for g, tr, m in r:
            t, b = tr[3][0][1], tr[3][1][1]
            if kind == 'find_map':
                for c, p, _ in opt_items(e, g, b, m):
                    c = conj_and(c, x1)
                    if c is not None: out.append((c, some(p)))
                continue
            for c, t2, _ in split_bool(e, g, t, b, m, kind != 'all'):
                c = conj_and(c, x1)
                if c is None: continue
                out.append((c, {'find': lambda: some(t2), 'any': lambda: T_TRUE, 'all': lambda: T_FALSE, 'position': lambda: some(idx_of(t2))}[kind]()))
        out.append((frozenset([exh(site, True)]), {'find': NONE, 'find_map': NONE, 'any': T_FALSE, 'all': T_TRUE, 'position': NONE}[kind]))
        if len(out) == 1: return out[0][1]
        return ('choice', tuple(out))
    return f


for n in ('find', 'any', 'all', 'position', 'find_map'): MODELS['Iterator::' + n] = search(n)
MODELS['Iterator::rposition'] = search('position')
MODELS['DoubleEndedIterator::rfind'] = search('find')
MODELS['Iterator::rfind'] = search('find')


@model('Iterator::for_each')
def for_each(e, st, i):
    e.loop_apply(st, items_of(e, st, i.args[0]), lambda s, t: e.apply(i.args[1], [t], s, i.body, i.span), i.site)
    return UNIT


@model('Iterator::fold')
def fold(e, st, i):
    its = items_of(e, st, i.args[0])
    slot = (-1, '%s#%s' % i.site)
    st.mem[slot] = i.args[1]
    def f(s, t):
        r = e.apply(i.args[2], [s.mem[slot], t], s, i.body, i.span)
        if r != ('bot',): s.mem[slot] = r
        return r
    e.loop_apply(st, its, f, i.site)
    return st.mem.pop(slot)


@model('Iterator::count')
def count(e, st, i): return length(coll(items_of(e, st, i.args[0])))


for n in ('sum', 'product', 'min', 'max', 'max_by_key', 'min_by_key', 'nth', 'min_by', 'max_by', 'reduce', 'try_fold', 'try_for_each', 'scan', 'cycle', 'sum_by', 'eq', 'cmp'):
    def _m(e, st, i, n=n):
        its = items_of(e, st, i.args[0])
        if n.endswith('_by_key') and len(its) == 1:
            ks = e.loop_apply(st, its, lambda s, t: e.apply(i.args[1], [t], s, i.body, i.span), i.site)
            if len(ks) == 1: return ('app', 'Iterator::' + n, coll(its), e.freeze(st, ks[0][1]))
        return ('app', n, coll(its)) + tuple(e.freeze(st, a) for a in i.args[1:])
    MODELS['Iterator::' + n] = _m


# ------------------------------------------------------------ locks
@model('Cell::get')
def cell_get(e, st, i): return ('app', 'cell.get', A(e, st, i, 0))


@model('LocalKey::with')
def local_with(e, st, i): return e.apply(i.args[1], [A(e, st, i, 0)], st, i.body, i.span)


@model('LocalKey::with_borrow', 'LocalKey::with_borrow_mut')
def local_borrow(e, st, i): return e.apply(i.args[1], [A(e, st, i, 0)], st, i.body, i.span)


@model('LocalKey::get')
def local_get(e, st, i): return ('app', 'cell.get', A(e, st, i, 0))


@model('OnceLock::get_or_init', 'OnceCell::get_or_init')
def once(e, st, i):
    """The value of the first call; no matter which call that was if it depends on nothing."""
    s = A(e, st, i, 0)
    r = e.freeze(st, e.apply(i.args[1], [], st, i.body, i.span))
    if any(x[0] in ('sym', 'lv', 'elem', 'top', 'uninit') for x in walk(r)):
        e.event(st, 'call', 'OnceLock::get_or_init', (s, r), i.body, i.span)
        return ('app', 'firstcall', s, r)
    return r


@model('int::wrapping_add')
def wadd(e, st, i):
    a, b = A(e, st, i, 0), A(e, st, i, 1)
    return ('app', 'num.wrapping_add') + tuple(sorted((a, b), key=repr))


def int_ty(i): return re.sub(r'^&', '', i.ty(0)['s']) if i.ty(0)['k'] != 'unknown' else norm(i.c['path']).split('::')[0]


@model('int::checked_add', 'int::checked_sub', 'int::checked_mul')
def checked(e, st, i):
    """Some(result) unless it overflows."""
    op = norm(i.c['path']).split('_')[-1].capitalize()
    a, b = A(e, st, i, 0), A(e, st, i, 1)
    # the last element in front of the partition point
    if op == 'Sub' and b == ('i', 1) and a[0] == 'app' and norm(a[1]) == 'slice::partition_point':
        j = copy.copy(i)
        j.args = [a[2], a[3]]
        return search('position')(e, st, j)
    r = e.arith(op, a, b)
    if op == 'Sub' and int_ty(i).startswith('u'): c = mk_lt(a, b)
    else: c = ('app', 'overflow:' + op, a, b)
    return mk_choice([(x, some(r)) for x in e.cond(c, False)] + [(x, NONE) for x in e.cond(c, True)])


# ------------------------------------------------------------ small structs of lsp_types
@model('Position::new')
def position_new(e, st, i):
    if 'lsp_types' not in i.c['path']: return NotImplemented
    return ('agg', 'lsp_types::Position', 'Position', (('line', i.args[0]), ('character', i.args[1])))


@model('Range::new')
def range_new(e, st, i):
    if 'lsp_types' not in i.c['path']: return NotImplemented
    return ('agg', 'lsp_types::Range', 'Range', (('start', i.args[0]), ('end', i.args[1])))


@model('Location::new')
def location_new(e, st, i):
    if 'lsp_types' not in i.c['path']: return NotImplemented
    return ('agg', 'lsp_types::Location', 'Location', (('uri', i.args[0]), ('range', i.args[1])))


@model('TextEdit::new')
def textedit_new(e, st, i):
    if 'lsp_types' not in i.c['path']: return NotImplemented
    return ('agg', 'lsp_types::TextEdit', 'TextEdit', (('range', i.args[0]), ('new_text', i.args[1])))


@model('Command::new')
def command_new(e, st, i):
    if 'lsp_types' not in i.c['path']: return NotImplemented
    return ('agg', 'tower_lsp::lsp_types::Command', 'Command', (('title', i.args[0]), ('command', i.args[1]), ('arguments', i.args[2])))


@model('WorkspaceEdit::new')
def wsedit_new(e, st, i):
    if 'lsp_types' not in i.c['path']: return NotImplemented
    return ('agg', 'tower_lsp::lsp_types::WorkspaceEdit', 'WorkspaceEdit', (('changes', some(i.args[0])), ('document_changes', NONE), ('change_annotations', NONE)))


@model('Diagnostic::new_simple')
def diag_simple(e, st, i):
    return ('agg', 'lsp_types::Diagnostic', 'Diagnostic', (('range', i.args[0]), ('severity', NONE), ('code', NONE), ('code_description', NONE), ('source', NONE),
            ('message', i.args[1]), ('related_information', NONE), ('tags', NONE), ('data', NONE)))
