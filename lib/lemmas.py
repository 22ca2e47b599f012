"""Facts on which several properties rest.  Each function adds obligations to a report."""
from spec import *


# ---------------------------------------------------------------- effects against a specification
def match_events(events, spec, assume=assume_std):
    """events: normalised (kind, args, dnf, event).  spec: [(kind, [arg texts], guard text, label)].
    Returns [(label, diff, terms)] for missing / additional / differently guarded effects."""
    out = []
    left = list(events)
    cmp = Cmp(assume)
    for kind, args, g, label in spec:
        sps = [parse_spec(a) for a in args]
        hit, near = [], []
        for ev in left:
            if ev[0] != kind or len(ev[1]) != len(sps): continue
            d = []
            for n, (s, a) in enumerate(zip(sps, ev[1])): d += cmp.value(s, a, parse_guard(g), 'operand %d' % n)
            if not d: hit.append(ev)
            else: near.append((len(d), '; '.join(d), ev))
        if not hit:
            near.sort(key=lambda x: x[0])
            out.append((label, 'missing: %s%s' % (label, ' (closest: %s)' % near[0][1][:500] if near and near[0][0] == 1 else ''), [a for n in near[:1] for a in n[2][1]]))
            continue
        for ev in hit: left.remove(ev)
        act = [c for ev in hit for c in todnf(apply_dnf(ev[2], assume))]
        sg = parse_guard(g)
        try: e = equivalent(sg, act)
        except TooBig: e = {'?': 'too many conditions'}
        if e is not None:
            out.append((label, '%s: happens if `%s`, expected `%s` (they differ e.g. for %s)' % (
                label, ' || '.join(' & '.join(lt(l) for l in c) or 'true' for c in act)[:900], g, ', '.join('%s=%s' % kv for kv in sorted(e.items()))[:400]),
                [l[0] for ev in hit for c in ev[2] for l in c]))
    for ev in left:
        out.append(('extra', 'in addition: %s(%s) if %s' % (ev[0], ', '.join(text(a)[:200] for a in ev[1]), dtext(ev[2])[:500]), list(ev[1]) + [l[0] for c in ev[2] for l in c]))
    return out


def apply_dnf(d, assume):
    return [x for x in (apply_assume(c, assume) for c in d) if x is not None]


def report_events(rep, key, where, diffs, known=(), n=1):
    for label, msg, terms in diffs:
        u = sorted({x for t in terms for x in uninterpreted(t, known)})
        k = '%s:%s' % (key, label)
        if u: rep.unsure(k, where, '%s (not interpreted: %s)' % (msg[:600], ', '.join(u)[:200]))
        else: rep.violation(k, where, msg)
    rep.ok(max(0, n - len(diffs)))


# ---------------------------------------------------------------- the symbol index
FBS = 'IDX.function_bodies'


def is_new(v):
    while v[0] == 'fld': v = v[1]
    return v[0] == 'sym' and v[1].startswith('new:')


def index_effects(ctx, rep=None):
    """Normalised effects of building the index: (kind, args, dnf, event)."""
    if 'index_effects' in ctx.cache: return ctx.cache['index_effects']
    B = ctx.anchor.get('INDEX')
    if B is None: return None
    r = ctx.run(B, opaque=('BRANCHING',), names=['src', 'tokens', 'stmts'])
    ren = {}
    if r.ret[0] == 'agg':
        for n, v in r.ret[3]:
            if is_new(v): ren[v] = ('sym', 'IDX.' + n)
    pushes = [e for e in r.events if e.kind == 'push' and e.args and e.args[0] in ren and ren[e.args[0]][1] == FBS]
    pushseq = min([e.seq for e in pushes] or [1 << 30])
    for e in pushes:
        if len(e.args) > 1 and e.args[1][0] == 'agg':
            for n, v in e.args[1][3]:
                if is_new(v): ren[v] = ('sym', 'FB.' + n)
    fbs = ('sym', FBS)
    out = []
    bad = []
    for e in r.events:
        if e.kind in ('index', 'unwrap', 'assert', 'panic'): continue
        def f(x, e=e):
            if x in ren: return ren[x]
            tx = None
            if x[0] == 'sub' and text(x) == 'sub(len(%s), 1)' % FBS and e.seq > pushseq: return ('sym', 'NEWID')
            if x[0] == 'app' and x[1] == 'len' and x[2] == fbs and e.seq < pushseq: return ('sym', 'NEWID')
            if x[0] == 'app' and x[1] in ('index', 'at') and x[2] == fbs:
                if x[3] == ('sym', 'NEWID'): return ('sym', 'FB')
                if x[3] == ('sym', 'ENCLID'): return ('sym', 'ENCL')
            if x[0] == 'app' and x[1] == 'last' and x[2] == fbs and e.seq > pushseq: return ('sym', 'FB')
            if x[0] == 'fld' and x[1] == ('sym', 'FB'): return ('sym', 'FB.' + x[2].rsplit('.', 1)[-1])
            if x[0] == 'choice':
                c = enclosing(x, bad)
                if c: return c
            return None
        def ff(x):
            # len(len-of-collection - 1) is built bottom-up
            y = f(x)
            return x if y is None else y
        args = tuple(mapterm(a, ff) for a in e.args)
        g = [mapterm(c, ff) for c in e.guard]
        args, g = found_body(args, g)
        args, g = one_separator(args, g)
        # a function body was entered before
        if e.seq > pushseq: g = [drop(c, lambda l: gtext(frozenset([l])) in ('len(%s)∉{0}' % FBS, '!isempty(%s)' % FBS, 'lt(0, len(%s))' % FBS)) for c in g]
        for args, g in cases_of(args, g): out.append((e.kind, args, dnf_simplify(g), e))
    ctx.cache['index_effects'] = (r, out, bad, ren)
    return ctx.cache['index_effects']


def cases_of(args, g):
    """An effect whose operands are alternatives is one effect per alternative."""
    if not any(x[0] == 'choice' for a in args for x in walk(a)): return [(args, g)]
    try: alts = lift_choices(tup(*args))
    except TooBig: return [(args, g)]
    out = []
    for c, t in alts:
        val = {l[0]: next(iter(l[2])) for l in c if l[1] and len(l[2]) == 1}
        gs = []
        for q in g:
            q = frozenset((restrict(l[0], val.get), l[1], l[2]) for l in q)
            q = conj_and(q, c)
            if q is not None: gs.append(q)
        if gs: out.append((tuple(restrict(v, val.get) for _, v in t[3]), gs))
    return out


def one_separator(args, g):
    """A text which is split once and whose second part is a number has exactly two parts."""
    so = {x for c in g for l in c for x in walk(l[0]) if x[0] == 'app' and x[1] == 'str.split_once' and x[3][0] == 'pred'}
    for t in so:
        cs = models.pred_chars(t[3])
        if not cs or any(c.isdigit() or c in '+-' for c in cs): continue
        sp = ('app', 'str.split') + t[2:]
        n = ('app', 'len', sp)
        snd = fld(fld(t, 'Option::Some.0'), '1')
        def num(l): return l[1] and l[2] == frozenset(['Ok']) and l[0][0] == 'app' and l[0][1] == 'str.parse' and l[0][3] == snd and re.search(r'Result<[iu]\d+,', text(l[0][2]))
        if not all(any(num(l) for l in c) and any(l[0] == t and l[1] and l[2] == frozenset(['Some']) for l in c) for c in g): continue
        def f(x):
            if x[0] == 'fld' and x[1] == fld(t, 'Option::Some.0') and x[2] in ('0', '1'): return ('app', 'index', sp, ('i', int(x[2])))
            return x
        g = [frozenset((n, True, frozenset([2])) if l[0] == t else (mapterm(l[0], f),) + l[1:] for l in c) for c in g]
        args = tuple(mapterm(a, f) for a in args)
    return args, g


def found_body(args, g):
    """The function body which was searched for on the spot: its range contains the token."""
    ix, el = ('idx', ('sym', FBS)), ('elem', ('sym', FBS))
    if not any(x in (ix, el) for a in args for x in walk(a)): return args, g
    need = {'!lt(tokens[*].1.start, %s[*].complete_range.start)' % FBS, 'lt(tokens[*].1.start, %s[*].complete_range.end)' % FBS}
    if not all(need <= {gtext(frozenset([l])) for l in c} for c in g): return args, g
    def f(x):
        if x == ix: return ('sym', 'ENCLID')
        if x == el: return ('sym', 'ENCL')
        if x[0] == 'fld' and x[1] == ('sym', 'ENCL'): return ('sym', 'ENCL.' + x[2].rsplit('.', 1)[-1])
        return x
    return tuple(mapterm(a, f) for a in args), [mapterm(c, f) for c in g]


def enclosing(x, bad):
    """All alternatives are the id of a function body whose complete range contains the start of the token."""
    import re as _re
    ids = []
    for g, v in x[1]:
        tv = text(v)
        if tv == 'idx(%s)' % FBS: base = FBS + '[*]'
        elif _re.match(r'^lv[\w:#]+\.<Some\.0>$', tv): base = 'index(%s, %s)' % (FBS, tv)
        elif v == ('sym', 'ENCLID'): continue
        elif v[0] in ('idx', 'add', 'sub') and 'idx(' in tv and not uninterpreted(v):
            bad.append('a local name is attributed to the function body with the number `%s`, which is not the position of the one found' % tv[:160])
            return None
        else: return None
        ls = {gtext(frozenset([l])) for l in g}
        need = {'!lt(tokens[*].1.start, %s.complete_range.start)' % base, 'lt(tokens[*].1.start, %s.complete_range.end)' % base}
        if not need <= ls: ids.append((tv, base))
    if ids:
        bad.append('a local name is attributed to a function body `%s` although its range need not contain the name' % ids[0][0])
        return None
    return ('sym', 'ENCLID')


def encl_literal(l):
    """Conditions which only say that the enclosing function body was found."""
    t = text(l[0])
    return 'complete_range' in t or l[0][0] == 'exhausted' or l[0][0] == 'lv'


INDEX_DEFS = [
    # (what, table, role, kind, text of the (name, span) pair, condition, function body id)
    ('definition of a global variable', 'IDX.global_vars', 'defs', 'Def', 'GlobalVar', 'stmts[*].<GlobalVar.name>', 'stmts[*]∈{GlobalVar}', 'None'),
    ('declaration of a function', 'IDX.functions', 'decls', 'Decl', 'Function', 'stmts[*].<FuncDecl.signature>.name', 'stmts[*]∈{FuncDecl}', 'None'),
    ('definition of a function', 'IDX.functions', 'defs', 'Def', 'Function', 'stmts[*].<FuncDef.signature>.name', 'stmts[*]∈{FuncDef}', 'None'),
    ('definition of a debug annotation', 'IDX.dgb_annotations', 'defs', 'Def', 'DbgAnnotation', 'stmts[*].<DbgAnnotation.name>', 'stmts[*]∈{DbgAnnotation}', 'None'),
    ('function argument', 'FB.local_vars', 'defs', 'Def', 'LocalVar', 'stmts[*].<FuncDef.signature>.args[*].name', 'stmts[*]∈{FuncDef}', 'Some{0: NEWID}'),
    ('label of a basic block', 'FB.labels', 'defs', 'Def', 'Label', 'stmts[*].<FuncDef.body>.basic_blocks[*].label.<Some.0>', 'stmts[*]∈{FuncDef} & stmts[*].<FuncDef.body>.basic_blocks[*].label∈{Some}', 'Some{0: NEWID}'),
    ('assignment to a local variable', 'FB.local_vars', 'defs', 'Def', 'LocalVar', 'stmts[*].<FuncDef.body>.basic_blocks[*].instructions[*].assignment_target.<Some.0>',
     'stmts[*]∈{FuncDef} & stmts[*].<FuncDef.body>.basic_blocks[*].instructions[*].assignment_target∈{Some}', 'Some{0: NEWID}'),
    ('label used by an instruction', 'FB.labels', 'uses', 'Use', 'Label', 'stmts[*].<FuncDef.body>.basic_blocks[*].instructions[*].basic_block_refs[*]', 'stmts[*]∈{FuncDef}', 'Some{0: NEWID}'),
]
INDEX_USES = [
    ('use of a debug annotation', 'IDX.dgb_annotations', 'DbgAnnotation', 'DebugRef', 'tokens[*].0∈{DebugRef}', 'None'),
    ('use of a function', 'IDX.functions', 'Function', 'GlobalName', 'tokens[*].0∈{GlobalName} & map.get(IDX.functions, tokens[*].0.<GlobalName.0>)∈{Some}', 'None'),
    ('use of a global variable', 'IDX.global_vars', 'GlobalVar', 'GlobalName', 'tokens[*].0∈{GlobalName} & map.get(IDX.functions, tokens[*].0.<GlobalName.0>)∈{None}', 'None'),
    ('use of a local variable', 'ENCL.local_vars', 'LocalVar', 'LocalName', 'tokens[*].0∈{LocalName}', 'Some{0: ENCLID}'),
]


def index_spec():
    out = []
    for what, tab, role, ud, kind, ns, g, fb in INDEX_DEFS:
        out.append((what, tab, role, ud, kind, ns + '.0', ns + '.1', g, fb))
    for what, tab, kind, tok, g, fb in INDEX_USES:
        out.append((what, tab, 'uses', 'Use', kind, 'tokens[*].0.<%s.0>' % tok, 'tokens[*].1', g, fb))
    return out


def fresh_cond(tab, name, span):
    e = 'at(%s, %s)' % (tab, name)
    return {'!contains(%s.%s, %s)' % (e, r, span) for r in ('decls', 'defs', 'uses')}


REMOVES = re.compile(r'::(pop\w*|clear|truncate|remove\w*|retain\w*|split_off|drain|swap_remove|dedup\w*)$')


def index_lemma(ctx, rep, parts=('tables', 'reverse', 'bodies', 'incoming', 'external', 'values'), kinds=None):
    """The index holds exactly the occurrences of the document, in the right table and role, and forward and reverse entries are made together."""
    r = index_effects(ctx)
    if r is None:
        rep.unsure('index', '-', 'no function which builds the index')
        return
    res, effs, bad, ren = r
    where = bat(res.body)
    rep.count('index_effects', len(effs))
    for b in bad: rep.violation('index:enclosing', where, b)
    for e in res.events:
        if e.kind == 'mutate' and REMOVES.search(e.name) and e.args and (e.args[0] in ren or re.search(r'function_bodies|global_vars|functions|dgb_annotation\w*|reverse_idx|local_vars|labels|incoming_bb_branches', text(e.args[0]))) and 'bodies' in parts:
            return rep.violation('index:removed', at(e), 'an entry of the index is removed again by `%s`' % e.name)
    if len(ren) < 6:
        rep.unsure('index:shape', where, 'the index is built in a form which is not interpreted')
        return
    spec, want = [], set()
    sel = index_spec()
    for what, tab, role, ud, kind, nm, sp, g, fb in sel:
        if 'tables' in parts and (kinds is None or kind in kinds):
            spec.append(('push', ['at(%s, %s).%s' % (tab, nm, role), sp], g, what))
        if 'reverse' in parts and (kinds is None or kind in kinds):
            spec.append(('map.insert', ['IDX.reverse_idx', sp + '.start', 'SymbolOccurrence{span: %s, use_def: %s, symbol_kind: %s, name: %s, func_body_id: %s}' % (sp, ud, kind, nm, fb)], g, 'lookup by position of the ' + what))
    if 'bodies' in parts:
        spec.append(('push', [FBS, 'FunctionBody{name: stmts[*].<FuncDef.signature>.name, complete_range: Range{start: stmts[*].<FuncDef.define_kw>.start, end: stmts[*].<FuncDef.body>.closing_bracket.end}, labels: FB.labels, local_vars: FB.local_vars, basic_blocks: stmts[*].<FuncDef.body>.basic_blocks, incoming_bb_branches: FB.incoming_bb_branches}'], 'stmts[*]∈{FuncDef}', 'function body'))
    bb = 'stmts[*].<FuncDef.body>.basic_blocks[*]'
    if 'incoming' in parts:
        ref = bb + '.instructions[*].basic_block_refs[*].0'
        spec.append(('push', ['at(FB.incoming_bb_branches, %s)' % ref, bb + '.label.<Some.0>'], 'BRANCHING(%s.instructions[*]) & %s.label∈{Some} & stmts[*]∈{FuncDef}' % (bb, bb), 'incoming branch'))
    d = 'stmts[*].<DbgAnnotation.def>'
    if 'values' in parts:
        spec.append(('map.insert', ['IDX.dgb_annotation_values', 'stmts[*].<DbgAnnotation.name>.0', 'str.slice(src, Range{start: index(%s, 0).1.start, end: last(%s).1.end})' % (d, d)], '!isempty(%s) & stmts[*]∈{DbgAnnotation}' % d, 'text of a debug annotation'))
    if 'external' in parts:
        parts_ = 'str.split(index(%s, 0).0.<Str.0>, pred(eqc($c, :)))' % d
        num = "str.parse('std::result::Result<u32, std::num::ParseIntError>', index(%s, 1))" % parts_
        spec.append(('map.insert', ['FUNREFS', 'stmts[*].<FuncDecl.dbgref>.<Some.0>.0', 'stmts[*].<FuncDecl.signature>.name.0'], 'stmts[*].<FuncDecl.dbgref>∈{Some} & stmts[*]∈{FuncDecl}', 'debug reference of a function declaration'))
        spec.append(('push', ['at(IDX.functions, map.get(FUNREFS, stmts[*].<DbgAnnotation.name>.0).<Some.0>).external_defs', 'ExternalDef{filepath: index(%s, 0), line: %s.<Ok.0>}' % (parts_, num)],
                     'stmts[*]∈{DbgAnnotation} & map.get(FUNREFS, stmts[*].<DbgAnnotation.name>.0)∈{Some} & len(%s)∈{1} & index(%s, 0).0∈{Str} & len(%s)∈{2} & %s∈{Ok}' % (d, d, parts_, num), 'external definition of a function'))
    # the effects which these parts talk about
    tabs = {x[1] for x in sel if kinds is None or x[4] in kinds}
    evs, order = [], []
    fun = None
    for kind, args, g, e in effs:
        if kind == 'map.insert' and is_new(e.args[0]) and e.args[0] not in ren and len(args) == 3:
            fun = e.args[0]
    for kind, args, g, e in effs:
        if kind == 'call': continue
        if fun is not None:
            sub = lambda x: ('sym', 'FUNREFS') if x == fun else x
            args = tuple(mapterm(a, sub) for a in args)
            g = [mapterm(c, sub) for c in g]
        t0 = text(args[0]) if args else ''
        if kind == 'map.entry': continue      # creates an empty entry which is filled by the push
        want_ = False
        g2 = []
        if kind == 'push' and t0.endswith(('.decls', '.defs', '.uses')):
            m = re.match(r'^at\(((?:IDX|FB|ENCL)\.\w+), (.*)\)\.(\w+)$', t0)
            want_ = 'tables' in parts and (not m or m.group(1) in tabs)
            if m:
                fr = fresh_cond(m.group(1), m.group(2), text(args[1]))
                order.append((t0, e))
                for c in g: g2.append(frozenset(l for l in c if gtext(frozenset([l])) not in fr))
            else: g2 = g
        elif kind == 'map.insert' and t0 == 'IDX.reverse_idx':
            want_ = 'reverse' in parts and (kinds is None or args[2][0] != 'agg' or text(dict(args[2][3]).get('symbol_kind', UNIT)) in kinds)
            for c in g: g2.append(frozenset(l for l in c if not (l[0][0] in ('contains', 'app') and text(l[0]).startswith('contains('))))
        elif kind == 'push' and t0 == FBS: want_, g2 = 'bodies' in parts, g
        elif kind == 'push' and 'incoming_bb_branches' in t0:
            want_ = 'incoming' in parts
            for c in g: g2.append(frozenset(l for l in c if gtext(frozenset([l])) != '!contains(%s, %s)' % (t0, text(args[1]))))
        elif kind == 'map.insert' and t0 == 'IDX.dgb_annotation_values': want_, g2 = 'values' in parts, g
        elif t0 == 'FUNREFS' or t0.endswith('.external_defs'):
            want_ = 'external' in parts
            g2 = [frozenset(l for l in c if not text(l[0]).startswith('map.get(IDX.functions, map.get(FUNREFS')) for c in g]
        elif set(parts) >= {'tables', 'reverse', 'bodies'} and kinds is None: want_, g2 = True, g
        if not want_: continue
        if any(text(a).find('ENCL') >= 0 for a in args): g2 = [drop(c, encl_literal) for c in g2]
        evs.append((kind, args, dnf_simplify(g2), e))
    diffs = match_events(evs, spec)
    report_events(rep, 'index', where, diffs, n=len(spec))
    if not diffs: rep.sample('index: %d kinds of entries, e.g. %s into %s' % (len(spec), spec[0][3], spec[0][1][0]))
    # definitions and declarations are entered before the uses, so that an occurrence keeps its stronger role
    if 'tables' in parts and not diffs:
        st = [e.seq for t, e in order if 'stmts[*]' in text(e.args[1])]
        tk = [e.seq for t, e in order if 'tokens[*]' in text(e.args[1])]
        if st and tk and max(st) > min(tk): rep.violation('index:order', where, 'uses are entered before all definitions are known')
        else: rep.ok()
        rep.count('index_entry_kinds', len(order))


# ---------------------------------------------------------------- open / change notifications
CHANGES = {'did_open': ('params.text_document.text', 'true', 'params.text_document.uri', 'params.text_document.version'),
           'did_change': ('last(params.content_changes).text', '!isempty(params.content_changes)', 'params.text_document.uri', 'params.text_document.version')}


def change_abbrev(text_of, uri, version):
    def f(x):
        if x[0] == 'app':
            if x[1] == 'Rope::from_str' and text(x[2]) == text_of: return ('sym', 'ROPE')
            if x[1] == 'PARSE' and text(x[2]) == text_of: return ('sym', 'P')
            if x[1] == 'SEMTOK' and text(x[2]) == 'P.tokens': return ('sym', 'ST')
            if x[1] == 'INDEX' and text(x) == 'INDEX(%s, P.tokens, P.stmts)' % text_of: return ('sym', 'IDX')
            if x[1] == 'display' and text(x[2]) == uri: return ('sym', 'KEY')
        if x[0] == 'fld' and text(x) == uri: return ('sym', 'URI')
        if x[0] == 'fld' and text(x) == version: return ('sym', 'VERSION')
        if x == ('sym', 'URI'): return x
        if x[0] == 'app' and x[1] == 'display' and x[2] == ('sym', 'URI'): return ('sym', 'KEY')
        if x[0] == 'fld' and x[2].endswith('.serialization') and x[1] == ('sym', 'URI'): return ('sym', 'KEY')
        return x
    return f


class Change:
    """The effects of one of the notifications which set the text of a document, in abbreviated form."""
    def __init__(self, ctx, h):
        self.h = h
        self.text, self.cond, self.uri, self.version = CHANGES[h]
        self.r = ctx.handler(h)
        self.events = []
        if self.r is None: return
        ab = change_abbrev(self.text, self.uri, self.version)
        for e in self.r.events:
            if e.kind in ('index', 'unwrap', 'assert', 'panic'): continue
            n = models.norm(e.name) if e.name else ''
            if e.kind == 'await' and e.args and e.args[0][0] == 'clo': continue    # evaluated in place
            k, args = e.kind, tuple(mapterm(a, ab) for a in e.args)
            # other ways to put a document into the store
            if k == 'call' and n in ('Entry::insert', 'Entry::insert_entry') and args[0][0] == 'app' and models.norm(args[0][1]) == 'DashMap::entry': n, args = 'DashMap::insert', (args[0][2], args[0][3], args[1])
            if k == 'write' and len(args) == 2 and args[0][0] in ('fld', 'down') and args[0][1][0] == 'app' and args[0][1][1] == 'DOCGET': k, n, args = 'call', 'DashMap::insert', (args[0][1][2], args[0][1][3], args[1])
            self.events.append((k, n, args, [mapterm(g, ab) for g in e.guard], e))

    def find(self, kind, *names): return [e for e in self.events if e[0] == kind and e[1] in names]


def change(ctx, h):
    k = ('change', h)
    if k not in ctx.cache: ctx.cache[k] = Change(ctx, h)
    return ctx.cache[k]


def published(ctx, rep, h):
    """The publish call of a notification: (event, diagnostics term) or None."""
    c = change(ctx, h)
    if c.r is None:
        rep.violation('missing:' + h, '-', 'the server does not implement `%s`' % h)
        return None
    pub = c.find('call', 'Client::publish_diagnostics')
    if len(pub) > 1:
        pub = sorted(pub, key=lambda e: e[4].seq)
        l = pub[-1]
        meet = lambda x, y: any(conj_and(p, q) is not None for p in x[3] for q in y[3])
        # the client shows what was sent last
        try:
            if equivalent(parse_guard(c.cond), todnf(apply_dnf(l[3], assume_std))) is None: return c, l
        except TooBig: pass
        for e in pub[:-1]:
            if not meet(e, l) or len(e[2]) != 4 or len(l[2]) != 4 or e[2][1] != l[2][1]: continue
            x, y = e[2][2], l[2][2]
            if x[0] == 'coll' and y[0] == 'coll' and not uninterpreted(x) and not uninterpreted(y):
                lost = [t for g, t, m in x[1] if t not in {u for _, u, _ in y[1]}]
                if lost: rep.violation('publish:%s:replaced' % h, at(l[4]), 'what is published here if `%s` replaces the diagnostics published before, of which `%s` is lost' % (dtext(l[3])[:200], text(lost[0])[:200]))
    if len(pub) != 1:
        rep.violation('publish:%s:count' % h, bat(c.r.body), '`%s` publishes diagnostics at %d places, expected one' % (h, len(pub))) if not pub else rep.unsure('publish:%s:count' % h, bat(c.r.body), 'diagnostics are published at %d places' % len(pub))
        return None
    return c, pub[0]


def elsewhere(ctx, rep):
    """Nothing but the notifications which set the text publishes diagnostics: what is sent last is what the client shows."""
    import calls
    seen = set()
    for h in ctx.handlers():
        r = ctx.handler(h)
        for e in r.events:
            if e.kind != 'call' or models.norm(e.name) != 'Client::publish_diagnostics': continue
            seen.add(e.body.key)
            if h in CHANGES or len(e.args) < 3: continue
            if e.args[2] == coll([]) and h == 'did_close': continue
            (rep.violation if e.args[2] == coll([]) else rep.unsure)('publish:elsewhere:' + h, at(e), '`%s` publishes diagnostics: `%s`' % (h, text(e.args[2])[:200]))
    reach = calls.reachable(ctx, calls.server_roots(ctx))
    for k in reach:
        B = ctx.prog.bodies[k]
        for path, key, args, tys, sp, kind in calls.callees(B):
            if models.norm(path) != 'Client::publish_diagnostics': continue
            rep.count('publish_sites')
            if k in seen: continue
            q, way = k, []
            while q is not None:
                o = q
                while o in ctx.prog.bodies:
                    way.append(o)
                    o = re.sub(r'::\{closure#\d+\}$', '', o) if o.endswith('}') else ''
                q = reach[q]
            task = any(re.search(r'(^|::)spawn\w*$', models.norm(c[0])) for o in way for c in calls.callees(ctx.prog.bodies[o]))
            (rep.violation if task else rep.unsure)('publish:task', bat(B), 'diagnostics are published by a task of its own (%s): it runs at any time later, also after those of the next text' % calls.trail(ctx, reach, k))
    rep.ok()


def publish_lemma(ctx, rep, h):
    """Diagnostics are published exactly once, for this document, awaited, with the version."""
    x = published(ctx, rep, h)
    if not x: return None
    c, (k, n, args, g, e) = x
    key = 'publish:' + h
    diffs = []
    if len(args) != 4: diffs.append('%d arguments' % len(args))
    else:
        if text(args[1]) != 'URI': diffs.append('they are published for `%s`' % text(args[1])[:200])
        if text(args[3]) != 'Some{0: VERSION}': diffs.append('they are published with version `%s`' % text(args[3])[:200])
    try:
        d = equivalent(parse_guard(c.cond), todnf(apply_dnf(g, assume_std)))
        if d is not None: diffs.append('they are published only if `%s`' % dtext(g)[:300])
    except TooBig: diffs.append('the condition is too large')
    aw = [a for a in c.find('await', 'Client::publish_diagnostics')]
    if not aw: diffs.append('the notification is never sent (its future is not awaited)')
    judge(rep, key, at(e), diffs, tup(*args[1:2], *args[3:], *[l[0] for cc in g for l in cc]), (), '`%s`: diagnostics' % h)
    return args[2] if len(args) == 4 else None


def store_lemma(ctx, rep, h):
    """The document is stored exactly once, under its URI, with everything computed from the new text, before anything is awaited."""
    c = change(ctx, h)
    if c.r is None:
        rep.violation('missing:' + h, '-', 'the server does not implement `%s`' % h)
        return
    rep.count('handlers_analysed')
    where = bat(c.r.body)
    evs = [(k, tuple(('sym', 'KEY') if j == 1 and x == ('sym', 'URI') else x for j, x in enumerate(a)), g, e) for k, n, a, g, e in c.events if k == 'call' and n == 'DashMap::insert' and a and text(a[0]) == 'self.document_map']
    spec = [('call', ['self.document_map', 'KEY', 'AnalyzedDocument{rope: ROPE, semantic_tokens: ST, stmts: P.stmts, index: IDX}'], c.cond, 'storing the document')]
    diffs = match_events(evs, spec)
    report_events(rep, 'store:' + h, where, diffs)
    if not diffs: rep.sample('%s stores rope, tokens, statements and index of `%s` under the URI if %s' % (h, c.text, c.cond))
    for k, n, a, g, e in c.events:
        if k == 'call' and n.startswith('DashMap::') and n.split('::')[1] in ('remove', 'remove_if', 'retain', 'clear', 'alter', 'alter_all') and a and text(a[0]) == 'self.document_map':
            rep.violation('store:%s:others' % h, at(e), '`%s` changes documents which the notification does not concern (`%s`)' % (h, n))
    order(rep, c, h)


def order(rep, c, h):
    ins = [e for k, n, a, g, e in c.events if k == 'call' and n == 'DashMap::insert']
    if not ins: return
    first = min(e.seq for e in ins)
    early = [(n, a, e) for k, n, a, g, e in c.events if k == 'await' and e.seq < first]
    if early:
        n, a, e = early[0]
        rep.violation('order:' + h, at(e), '`%s` waits for `%s` before the new text is stored; a later notification can overtake it' % (h, n or text(a[0])[:100]))
    else: rep.ok()


def branching_lemma(ctx, rep):
    """Which instructions branch."""
    B = ctx.anchor.get('BRANCHING')
    if B is None: return rep.unsure('branching', '-', 'no function which decides whether an instruction branches')
    check_bool(ctx, rep, 'is_branching', B, "str.ends_with(i.instruction.0, 'br') || i.instruction.0∈{switch}", names=['i'])


# ---------------------------------------------------------------- lookups
def lookups(ctx, rep):
    """The occurrence under the cursor and the table of a symbol kind."""
    B = ctx.anchor.get('FINDSYM')
    if B is None: rep.unsure('lookup', '-', 'no function which finds the symbol at an offset')
    else:
        def tidy(x):
            if x == ('fld', ('elem', ('fld', ('sym', 'index'), 'HIRIndex.reverse_idx')), '1'): return ('sym', 'OCC')
            return None
        r = ctx.run(B, opaque=(), names=['index', 'pos'])
        rep.count('functions_analysed')
        t = r.ret
        bad = find_occ(t)
        known = ('BTreeMap::range', 'DoubleEndedIterator::next_back', 'Iterator::last', 'Iterator::max_by_key') if not any('expected an entry' in x for x in bad) else ()
        judge(rep, 'result:find_symbol', bat(B), bad, t, known, 'the symbol at an offset')
        if not bad: rep.sample('the symbol at `pos` is an entry of the reverse index whose span contains `pos`, None iff there is none')
    B = ctx.anchor.get('USEDEFS')
    if B is None: rep.unsure('tables', '-', 'no function which returns the table of a symbol kind')
    else:
        check_fn(ctx, rep, 'table_of_kind', B, [
            ('Some{0: index.global_vars}', 'kind∈{GlobalVar}'), ('Some{0: index.functions}', 'kind∈{Function}'), ('Some{0: index.dgb_annotations}', 'kind∈{DbgAnnotation}'),
            ('Some{0: body.<Some.0>.labels}', 'kind∈{Label} & body∈{Some}'), ('Some{0: body.<Some.0>.local_vars}', 'kind∈{LocalVar} & body∈{Some}'),
            ('None', 'kind∈{Label,LocalVar} & body∈{None}')], names=['index', 'kind', 'body'])
    B = ctx.anchor.get('UDLIST')
    if B is not None:
        check_fn(ctx, rep, 'list_of_role', B, [('list.decls', 'role∈{Decl}'), ('list.defs', 'role∈{Def}'), ('list.uses', 'role∈{Use}')], names=['list', 'role'])
    else: rep.count('functions_analysed')


from engine import map_guards


def find_occ(t):
    """Some(e) for an element e of the reverse index with e.span containing pos."""
    out = []
    somes = nones = 0
    # the entries are keyed by the starts of disjoint spans: the last one which starts at or before the position is the only candidate
    idx = ('fld', ('sym', 'index'), 'HIRIndex.reverse_idx')
    near = lambda x: x[0] == 'app' and models.norm(x[1]) in ('last', 'DoubleEndedIterator::next_back', 'Iterator::last', 'Iterator::next_back') and x[2][0] == 'app' and models.norm(x[2][1]) == 'BTreeMap::range' and x[2][2] == idx
    for x in {text(x[2][3]) for x in walk_all(t) if near(x)}:
        if x == 'RangeTo{end: pos}': out.append('an entry which starts at the position is not considered')
    last = lambda r: near(r) and text(r[2][3]) in ('RangeToInclusive{end: pos}', 'RangeTo{end: add(pos, 1)}', 'RangeTo{end: (pos + 1)}', 'RangeTo{end: pos}')
    def tidy(x):
        if x[0] in ('fld', 'down') and last(x[1]) and x[2] not in ('0', '1') or last(x) and x[1] == 'last': return ('elem', idx)
        return x
    from_, to = next((text(x) for x in walk_all(t) if x[0] in ('fld', 'down') and last(x[1]) and x[2] not in ('0', '1') or last(x) and x[1] == 'last'), '\0'), text(('elem', idx))
    # the last one of those which start at or before the position: they are sorted by their starts
    e1 = text(('elem', idx))
    def upto(x): return x[0] == 'app' and x[1] == 'last' and len(x) > 2 and before(x[2])
    def before(x):
        return x[0] == 'app' and x[1] == 'take_while' and x[2][0] == 'coll' and len(x[2][1]) == 1 and not x[2][1][0][0] and text(x[2][1][0][1]) in (e1, e1 + '.1') and x[3][0] == 'pred' \
            and text(x[3]) in ['pred(not(lt(pos, %s)))' % (e1 + k) for k in ('.0', '.1.span.start')]
    def whole(c): return frozenset(l for l in c if not (before(l[0]) or any(isinstance(y, tuple) and y and before(y) for y in l[0][1:])))
    pre = any(upto(x) for x in walk_all(t))
    if pre:
        t = map_guards(mapterm(t, lambda x: x[2][2][1][0][1] if upto(x) else x), whole)
    E1 = ('elem', idx)
    # the last one of those which fulfil a condition (likewise)
    def most(x): return x[0] == 'app' and x[1] == 'Iterator::max_by_key' and len(x[2][1]) == 1 and text(x[2][1][0][1]) in (text(E1), text(E1) + '.1') and text(x[3]) in (text(E1) + '.0', text(E1) + '.1.span.start')
    for g, y in lift_choices(t):
        ms = {x for z in [y] + [l[0] for l in g] for x in walk_all(z) if most(x)}
        if len(ms) == 1:
            mx = ms.pop()
            g0, t0, _ = mx[2][1][0]
            take = lambda x: t0 if x == ('fld', mx, 'Option::Some.0') else x
            g = [(mapterm(l[0], take),) + tuple(l[1:]) for l in g if l[0] != mx] + list(g0)
            y = models.some(t0) if y == mx else mapterm(y, take)
        g = [l for l in g if not last(l[0]) and not any(last(('app', 'last', x)) for x in l[0][1:] if l[0][0] == 'isempty' or l[0][0] == 'app' and l[0][1] == 'isempty')]
        y = mapterm(y, tidy)
        if y == NONE:
            nones += 1
            lits = [tolit(l) for l in g]
            continue
        if y[0] != 'agg' or y[2] != 'Some':
            out.append('the result is `%s`' % text(y)[:200])
            continue
        e = y[3][0][1]
        if text(e) != 'index.reverse_idx[*].1':
            out.append('the symbol is `%s`, expected an entry of the reverse index' % text(e)[:200])
            continue
        somes += 1
        gs = {gtext(frozenset([l])).replace(from_, to) for l in g if l[0][0] != 'exhausted'}
        if pre: gs.add('!lt(pos, index.reverse_idx[*].1.span.start)')
        want = {'!lt(pos, index.reverse_idx[*].1.span.start)', 'lt(pos, index.reverse_idx[*].1.span.end)'}
        alt = {'range.contains(index.reverse_idx[*].1.span, pos)'}
        extra = [x for x in gs if x not in want | alt]
        if not (want <= gs or alt <= gs): out.append('an entry is returned although its span need not contain the position (condition: %s)' % ' & '.join(sorted(gs)))
        elif extra: out.append('an entry is only returned if in addition %s' % ' & '.join(sorted(extra)))
    if not somes: out.append('no entry of the reverse index is ever returned')
    return out
