"""Rename, numbering shift and code actions."""
from lemmas import *

RP = 'params.text_document_position'
RURI, RPOS = RP + '.text_document.uri', RP + '.position'
KINDS = {'GlobalVar': ("'@'", 'GlobalName'), 'Function': ("'@'", 'GlobalName'), 'DbgAnnotation': ("'!'", 'DebugRef'), 'Label': ('', 'Ident'), 'LocalVar': ("'%'", 'LocalName')}
PLUS, MINUS = 'str.starts_with(params.new_name, pred(eqc($c, +)))', 'str.starts_with(params.new_name, pred(eqc($c, -)))'
SIGNS = {PLUS: '+', MINUS: '-', "str.starts_with(params.new_name, '+')": '+', "str.starts_with(params.new_name, '-')": '-'}


def arith(x):
    """Overflow behaviour of 64-bit numbers is not distinguished here (C01 looks at it)."""
    k = x[0]
    if k == 'app' and x[1] in ('num.wrapping_add', 'num.saturating_add') or k == 'add':
        a = x[2:4] if k == 'app' else x[1:3]
        return ('app', 'PLUS') + tuple(sorted(a, key=text))
    if k == 'app' and x[1] in ('num.wrapping_sub', 'num.saturating_sub') and len(x) == 4: return ('app', 'PLUS') + tuple(sorted((x[2], arith(('app', 'num.wrapping_neg', x[3]))), key=text))
    if k == 'app' and x[1] in ('num.wrapping_mul', 'num.saturating_mul') or k == 'mul':
        a, b = x[2:4] if k == 'app' else x[1:3]
        for p, q in ((a, b), (b, a)):
            if p == ('i', 1): return q
            if p == ('i', -1): return ('app', 'NEG', q)
        return x
    if k == 'app' and x[1] in ('num.wrapping_neg', 'num.saturating_neg') or k == 'neg': return ('app', 'NEG', x[2] if k == 'app' else x[1])
    if k == 'app' and x[1] in ('num.unsigned_abs', 'num.wrapping_abs', 'num.abs', 'num.saturating_abs'): return ('app', 'ABS', x[2])
    return x


def edits(rope, ud, new, g=''):
    return '; '.join('TextEdit{range: RANGE(%s, %s.%s[*]).<Some.0>, new_text: %s}*%s' % (rope, ud, r, new, ' if ' + g if g else '') for r in ('decls', 'defs', 'uses'))


def shift_edits(rope, tab, opt, thr, shift):
    """The specified edits of a numbering shift: tab the table, opt its Option, thr the first number, shift the summand."""
    n = 'NUM(%s[*].0)' % tab
    plus = 'PLUS(%s)' % ', '.join(sorted([n + '.<Some.0>.1', shift]))
    return edits(rope, tab + '[*].1', '"%s.<Some.0>.0; display(ABS(%s))"' % (n, plus), '%s∈{Some} & %s∈{Some} & !lt(%s.<Some.0>.1, %s)' % (opt, n, n, thr))


def fix_of(**kw):
    def f(x):
        if x[0] == 'sym' and x[1] in kw: return kw[x[1]]
        tx = text(x)
        if tx in SIGNS: return kw.get('sign') == SIGNS[tx]
        if tx == 'isempty(params.new_name)' and kw.get('sign'): return False
        if tx == 'SYM.symbol_kind': return kw.get('kind')
        if 'strip' in kw and x[0] == 'app' and x[1] == 'str.starts_with' and tx.startswith('str.starts_with(params.new_name, ') and is_sigil(x[3], kw['sigil']): return kw['strip'] == 'Some'
        return None
    return f


def is_sigil(p, sigil):
    """The pattern p is the text `sigil` (which is quoted, as in KINDS)."""
    s = sigil.strip("'")
    return p == ('s', s) or len(s) == 1 and models.pred_chars(p) == [s]


def rename_nf(ctx, rep):
    r, t = handler_nf(ctx, 'rename', RURI, RPOS)
    if r is None: rep.violation('missing:rename', '-', 'the server does not implement `rename`')
    return r, t


def errors_otherwise(rep, key, where, alts, known=('Error::invalid_params',)):
    """Apart from the success every result is an error (or: nothing to rename)."""
    for g, y, m in alts:
        if y[0] == 'agg' and y[2] == 'Err' or text(y) == 'Ok{0: None}': continue
        u = uninterpreted(y, known)
        msg = 'in addition the answer `%s` if %s' % (text(y)[:300], dtext(g)[:300])
        if u: rep.unsure(key, where, msg)
        else: rep.violation(key, where, msg)
        return
    rep.ok()


# ---------------------------------------------------------------- absolute rename
def absolute_rename(ctx, rep):
    r, t = rename_nf(ctx, rep)
    if r is None: return
    rep.count('handlers_analysed')
    where = bat(r.body)
    for kind, (sigil, tok) in KINDS.items():
        for strip in ('Some', 'None'):
            if kind == 'Label' and strip == 'None' and not sigil: continue
            rep.count('rename_cases')
            key = 'rename:%s:%s' % (kind, strip)
            u = restrict(t, fix_of(**{'DOC?': 'Some', 'OFF?': 'Some', 'SYM?': 'Some', 'kind': kind, 'strip': strip, 'sigil': sigil, 'sign': ''}))
            def name(x):
                if strip == 'Some' and x[0] == 'app' and x[1] == 'str.tail' and text(x[2]) in ('params.new_name', 'NAME') and x[3] in (('i', len(sigil.strip("'"))), ('app', 'len', ('s', sigil.strip("'")))): return ('sym', 'NAME')
                if strip == 'None' and text(x) == 'params.new_name': return ('sym', 'NAME')
                if sigil == '' and text(x) == 'params.new_name': return ('sym', 'NAME')
                return x
            u = mapterm(u, name)
            u = restrict(u, lambda x: None)
            check_abs(ctx, rep, key, where, u, kind, sigil, tok)


def check_abs(ctx, rep, key, where, t, kind, sigil, tok):
    known = ('Error::invalid_params',)
    new = '"%s; NAME"' % sigil if sigil else 'NAME'
    try: alts = settle(item_norm([(EMPTY, t, 1)], assume_std))
    except TooBig: return rep.unsure(key, where, 'the normal form is too large')
    oks = [a for a in alts if a[1][0] == 'agg' and a[1][2] == 'Ok' and text(a[1]) != 'Ok{0: None}']
    rest = [a for a in alts if a not in oks]
    if not oks: return rep.violation(key, where, 'a %s can never be renamed' % kind)
    sp = parse_spec('Ok{0: Some{0: WorkspaceEdit{changes: Some{0: mapof([(%s, [%s])])}}}}' % (RURI, edits('DOC.rope', 'UD', new)))
    diffs = []
    for g, y, m in oks:
        for d in Cmp().value(sp, y, todnf(g), ''):
            if d not in diffs: diffs.append(d)
    # conditions of the success
    g = [c for a in oks for c in a[0]]
    g, bad = valid_chars(alts, g)
    diffs += bad
    pt = 'PARSE(%s).tokens' % new
    spec = ['VALID', '!isempty(NAME)', 'len(%s)∈{1}' % pt, 'index(%s, 0).0∈{%s}' % (pt, tok), 'SYMS?∈{Some}', 'UD?∈{Some}']
    if kind != 'DbgAnnotation': spec.append('!str.starts_with(NAME, pred(char.is_numeric($c)))')
    try:
        e = equivalent(parse_guard(' & '.join(spec)), todnf(g))
        if e is not None: diffs.append('a %s is renamed if `%s`, expected `%s` (they differ e.g. for %s)' % (kind, dtext(g)[:600], ' & '.join(spec), ', '.join('%s=%s' % kv for kv in sorted(e.items()))[:400]))
    except TooBig:
        if not diffs: return rep.unsure(key, where, 'the conditions are too large')
    allt = tup(*[a[1] for a in oks], *[l[0] for a in alts for c in a[0] for l in c])
    if judge(rep, key, where, diffs, allt, known, '`rename`'): rep.sample('%s: every declaration, definition and use becomes %s if %s' % (key, new, ' & '.join(spec)))
    errors_otherwise(rep, key + ':errors', where, rest)


class Conds:
    cond = engine.Engine.cond


def valid_chars(alts, g):
    """Replaces the condition `no character of NAME is invalid` by VALID."""
    chars = 'chars(NAME)[*]'
    loops = {l[0] for c in g for l in c if l[0][0] == 'exhausted'}
    good, bad = set(), []
    for L in loops:
        ex = []
        for gg, y, m in alts:
            for c in gg:
                if any(l[0] == L and (True in l[2]) != l[1] for l in c): ex.append(frozenset(l for l in c if chars in text(l[0])))
        e = equivalent(parse_guard('!char.is_alphanumeric(%s) & %s∉{_,:}' % (chars, chars)), todnf(ex)) if ex else {'never': ''}
        if e is None: good.add(L)
        else: bad.append('a name is rejected for its characters if `%s`' % dtext(ex)[:300])
    # the same as a search
    tests = {}
    for l in {l for c in g for l in c}:
        t = l[0]
        if not (t[0] == 'app' and t[1] in ('str.contains', 'str.find', 'str.rfind') and text(t[2]) == 'NAME' and t[3][0] == 'pred'): continue
        no = l[1] and l[2] == frozenset([False if t[1] == 'str.contains' else 'None']) or not l[1] and l[2] == frozenset([True if t[1] == 'str.contains' else 'Some'])
        e = equivalent(parse_guard('!char.is_alphanumeric($c) & $c∉{_,:}'), todnf(Conds().cond(t[3][1], True)))
        if e is None and no: tests[l] = True
        else: bad.append('a name is rejected for its characters if `%s`' % text(t)[:300])
    out = []
    valid = ('sym', 'VALID')
    DOM.setdefault(valid, BOOLDOM)
    for c in g:
        n = set()
        for l in c:
            if l in tests: n.add((valid, True, frozenset([True])))
            elif l[0] in good: n.add((valid, True, frozenset([True])))
            elif l[0][0] == 'exhausted' or chars in text(l[0]): continue
            else: n.add(l)
        out.append(frozenset(n))
    return dnf_simplify(out), bad


# ---------------------------------------------------------------- relative rename
def relative_rename(ctx, rep):
    r, t = rename_nf(ctx, rep)
    if r is None: return
    rep.count('handlers_analysed')
    where = bat(r.body)
    for sign in '+-':
        key = 'relative:' + sign
        rep.count('rename_cases')
        u = restrict(t, fix_of(**{'DOC?': 'Some', 'OFF?': 'Some', 'SYM?': 'Some', 'sign': sign}))
        def tail(x):
            tx = text(x)
            if tx in ('str.slice(params.new_name, RangeFrom{start: 1})', 'str.tail(params.new_name, 1)'): return ('sym', 'DIGITS')
            if x[0] == 'app' and x[1] == 'str.parse' and text(x[3]) == 'DIGITS' and 'Result<i64' in text(x[2]): return ('sym', 'SHIFT?')
            if x[0] == 'fld' and x[1] == ('sym', 'SHIFT?') and x[2] == 'Result::Ok.0': return ('sym', 'SHIFT')
            return arith(x)
        u = mapterm(u, tail)
        try: alts = settle(item_norm([(EMPTY, u, 1)], assume_std))
        except TooBig:
            rep.unsure(key, where, 'too large')
            continue
        shift = 'SHIFT' if sign == '+' else 'NEG(SHIFT)'
        sp = [('Ok{0: Some{0: WorkspaceEdit{changes: Some{0: mapof([(%s, [%s])])}}}}' % (RURI, shift_edits('DOC.rope', 'SYMS', 'SYMS?', 'NUM(SYM.name).<Some.0>.1', shift)), 'SHIFT?∈{Ok} & NUM(SYM.name)∈{Some}')]
        oks = [a for a in alts if not (a[1][0] == 'agg' and a[1][2] == 'Err')]
        rest = [a for a in alts if a not in oks]
        d = Cmp().cases(sp, None, oks)
        if judge(rep, key, where, d, u, ('Error::invalid_params',), '`rename`'): rep.sample('%s: %s' % (key, sp[0][0][:300]))
        errors_otherwise(rep, key + ':errors', where, rest)


# ---------------------------------------------------------------- code actions
LAZY = 'LOCK(self.code_actions_lazy_resolve).<Ok.0>'
CURI, CPOS = 'params.text_document.uri', 'params.range.start'


def code_actions(ctx, rep):
    g = 'OFF?∈{Some} & SYM?∈{Some} & NUM(SYM.name)∈{Some}'
    data = 'Some{0: serde_json::to_value(ShiftNumbering{uri: %s, symbol_kind: SYM.symbol_kind, func_body_id: SYM.func_body_id, renamed_nr: NUM(SYM.name).<Some.0>.1}).<Ok.0>}' % CURI
    ed = 'Some{0: WorkspaceEdit{changes: Some{0: mapof([(%s, [%s])])}}}' % (CURI, shift_edits('DOC.rope', 'SYMS', 'SYMS?', 'NUM(SYM.name).<Some.0>.1', '1'))
    def more(x):
        if text(x) == 'params.range.end' : return None
        y = arith(x)
        return y if y is not x else None
    r, t = handler_nf(ctx, 'code_action', CURI, CPOS, more=more)
    if r is None: return rep.violation('missing:code_action', '-', 'the server does not implement `code_action`')
    rep.count('handlers_analysed')
    same = 'eq(params.range.end, params.range.start)'
    t = mapterm(t, lambda x: ('sym', 'EMPTYSEL') if text(x) == same else x)
    DOM.setdefault(('sym', 'EMPTYSEL'), BOOLDOM)
    spec = [('Err{0: _}', 'DOC?∈{None}'), ('Ok{0: None}', 'DOC?∈{Some} & !EMPTYSEL'),
            ('Ok{0: Some{0: [CodeAction{0: CodeAction{edit: None, data: %s}} if %s & %s; CodeAction{0: CodeAction{edit: %s}} if !%s & %s]}}' % (data, LAZY, g, ed, LAZY, g), 'DOC?∈{Some} & EMPTYSEL')]
    try: d = Cmp(assume_std).cases(spec, t)
    except TooBig: return rep.unsure('result:code_action', bat(r.body), 'too large')
    known = ('Error::invalid_params', 'serde_json::to_value', 'serde_json::from_value')
    if judge(rep, 'result:code_action', bat(r.body), d, t, known, '`code_action`'): rep.sample('code_action: edit at once if the client cannot resolve, otherwise only data; the edit is %s' % ed[:200])


def resolve(ctx, rep):
    def D(x):
        if text(x) == 'serde_json::from_value(params.data.<Some.0>)': return ('sym', 'DATA?')
        if x[0] == 'fld' and x[1] == ('sym', 'DATA?') and x[2] == 'Result::Ok.0': return ('sym', 'DATA')
        if x[0] == 'fld' and x[1] == ('sym', 'DATA') and 'ShiftNumbering' in x[2]: return ('sym', 'D.' + x[2].rsplit('.', 1)[-1])
        return arith(x)
    r = ctx.handler('code_action_resolve')
    if r is None: return rep.violation('missing:code_action_resolve', '-', 'the server does not implement `code_action_resolve`')
    rep.count('handlers_analysed')
    t = mapterm(mapterm(r.ret, D), abbreviate('D.uri'))
    def T(x):
        if text(x) == 'USEDEFS(DOC.index, D.symbol_kind, FB(DOC.index.function_bodies, D.func_body_id))': return ('sym', 'TAB?')
        if is_some0(x) and x[1] == ('sym', 'TAB?'): return ('sym', 'TAB')
        return x
    t = mapterm(t, T)
    spec = [('Ok{0: CodeAction{title: params.title, data: params.data, edit: Some{0: WorkspaceEdit{changes: Some{0: mapof([(D.uri, [%s])])}}}}}' % shift_edits('DOC.rope', 'TAB', 'TAB?', 'D.renamed_nr', '1'), 'params.data∈{Some} & DATA?∈{Ok} & DOC?∈{Some}')]
    try: alts = settle(item_norm([(EMPTY, t, 1)], assume_std))
    except TooBig: return rep.unsure('result:code_action_resolve', bat(r.body), 'too large')
    oks = [a for a in alts if not (a[1][0] == 'agg' and a[1][2] == 'Err')]
    d = Cmp().cases(spec, None, oks)
    if judge(rep, 'result:code_action_resolve', bat(r.body), d, t, ('Error::invalid_params', 'serde_json::from_value'), '`code_action_resolve`'): rep.sample('code_action_resolve: the same edit, computed from the data of the action')


# ---------------------------------------------------------------- serialised data
def serde_lemma(ctx, rep, name, fields=None):
    """What is serialised is what is deserialised: same names, in the same order, unconditionally."""
    ser = [B for B in ctx.prog.bodies.values() if re.search(r'impl serde::Serialize for (\w+::)*%s>::serialize$' % name, B.path)]
    de = [B for B in ctx.prog.bodies.values() if re.search(r'for (\w+::)*%s>::deserialize::' % name, B.path) and B.path.endswith('::visit_str')]
    if not ser or not de or not ser[0].d.get('derived'):
        return rep.unsure('serde:' + name, '-', 'the (de)serialisation of `%s` is not derived' % name)
    r = ctx.run(ser[0], opaque=())
    out, variants, diffs = [], [], []
    for e in r.events:
        n = models.norm(e.name) if e.kind == 'call' else ''
        if n.endswith('::serialize_field'):
            g = dnf_simplify([frozenset(l for l in c if not (l[0][0] == 'app' and 'erialize' in l[0][1] or l[0] == ('sym', 'self'))) for c in e.guard])
            if list(g) != [EMPTY]: diffs.append('the field %s is only written if %s' % (text(e.args[1]), dtext(g)[:200]))
            out.append((e.args[1][1] if e.args[1][0] == 's' else text(e.args[1]), text(e.args[2])))
        elif n.endswith('::skip_field'): diffs.append('the field %s can be left out' % text(e.args[1]))
        elif n.endswith('serialize_unit_variant'): variants.append((e.args[2][1], e.args[3][1]))
        elif n.endswith('serialize_struct_variant') or n.endswith('serialize_newtype_variant'): variants.append((e.args[2][1], e.args[3][1]))
    acc = []
    for B in de:
        names = {}
        for g, y in alts_of(ctx.run(B, opaque=()).ret):
            m = re.match(r'^Ok\{0: __field(\d+)\}$', text(y))
            if m:
                for l in g:
                    if l[1]: names[int(m.group(1))] = sorted(map(str, l[2]))
        acc.append(names)
    wantf = [n for n, _ in out]
    wantv = [n for _, n in sorted(variants)]
    rep.count('serialised_names', len(wantf) + len(wantv))
    for want, what in ((wantf, 'fields'), (wantv, 'variants')):
        if want and not any(len(a) == len(want) and all(want[i] in a.get(i, ()) for i in range(len(want))) for a in acc):
            diffs.append('it is written with the %s %s and read with %s' % (what, ', '.join(want), ' / '.join(str(a) for a in acc)))
    for n, v in out:
        f = re.sub(r'[<>]', '', v).rsplit('.', 1)[-1]
        if f.replace('_', '').lower() != n.replace('_', '').lower(): pass
    if fields is not None:
        got = [re.sub(r'[<>]', '', v).rsplit('.', 1)[-1] for _, v in out]
        for f in fields:
            if f not in got: diffs.append('the field `%s` is not written' % f)
    if diffs: rep.violation('serde:' + name, bat(ser[0]), '`%s`: %s' % (name, '; '.join(diffs)))
    else:
        rep.ok()
        rep.sample('%s is written and read as %s' % (name, wantf + wantv))
    return out


# ---------------------------------------------------------------- numbers in identifiers
def number_lemma(ctx, rep):
    B = ctx.anchor.get('NUM')
    if B is None: return rep.unsure('number', '-', 'no function which splits an identifier into prefix and number')
    tr = 'len(str.trim_end_matches(id, pred(char.is_numeric($c))))'
    p = "str.parse('std::result::Result<i64, std::num::ParseIntError>', str.tail(id, %s))" % tr
    check_fn(ctx, rep, 'number', B, [('Some{0: (%s, %s.<Ok.0>)}' % (tr[4:-1], p), p + '∈{Ok}'), ('None', p + '∈{Err}')], names=['id'])


# ---------------------------------------------------------------- the client's abilities
CA = 'params.capabilities.text_document.<Some.0>.code_action'
LAZY_COND = "params.capabilities.text_document∈{Some} & %s∈{Some} & %s.<Some.0>.resolve_support∈{Some} & contains(%s.<Some.0>.resolve_support.<Some.0>.properties, 'edit') & %s.<Some.0>.data_support∈{Some} & %s.<Some.0>.data_support.<Some.0>" % (CA, CA, CA, CA, CA)


def lazy_flag(ctx, rep):
    r = ctx.handler('initialize')
    if r is None: return rep.violation('missing:initialize', '-', 'no `initialize`')
    rep.count('handlers_analysed')
    sets = [e for e in r.events if e.args and text(e.args[0]).startswith(('LOCK(self.code_actions_lazy_resolve)', 'self.code_actions_lazy_resolve')) and e.kind in ('call', 'push', 'write') and not re.search(r'(lock|write|read|load)$', models.norm(e.name or ''))]
    if len(sets) != 1:
        msg = 'the flag for lazy edits is set at %d places, expected one' % len(sets)
        if sets: rep.unsure('lazy:set', bat(r.body), msg)
        else: rep.violation('lazy:set', bat(r.body), msg)
    else:
        e = sets[0]
        flag_value(rep, r, 'lazy:value', at(e), e.args[1], 'the server leaves edits out')
        g = apply_dnf(e.guard, assume_std)
        if list(dnf_simplify(g)) != [EMPTY]: rep.violation('lazy:guard', at(e), 'the flag is only set if %s' % dtext(g)[:300])
        else: rep.ok()
    return r


def flag_value(rep, r, key, where, v, what):
    d = apply_assume_dnf(r.eng.cond(v, True), assume_std)
    try: e = equivalent(parse_guard(LAZY_COND), todnf(d))
    except TooBig: return rep.unsure(key, where, 'too large')
    diffs = [] if e is None else ['%s if `%s`, expected `%s` (they differ e.g. for %s)' % (what, dtext(d)[:500], LAZY_COND, ', '.join('%s=%s' % kv for kv in sorted(e.items()))[:300])]
    judge(rep, key, where, diffs, v, (), '')
