"""Semantic tokens: complete, in order, relative to the previous token, with UTF-16 lengths and the right classes."""
from lemmas import *
from ropes import coords
from grammar import grammar_lemma

U = 'params.text_document.uri'
TOK = 'DOC.semantic_tokens[*]'
L, C = 'OFF2POS(DOC.rope, %s.start).<Some.0>.line' % TOK, 'OFF2POS(DOC.rope, %s.start).<Some.0>.character' % TOK
PL, PC = L.replace('OFF2POS', 'PREV.OFF2POS'), C.replace('OFF2POS', 'PREV.OFF2POS')
LEN = 'sub(at:u16(advancebytes(S, %s.length)), at:u16(S))' % TOK
CLASSES = {'COMMENT': ['Comment'], 'TYPE': ['Type'], 'VARIABLE': ['GlobalName', 'LocalName'], 'STRING': ['Str'], 'NUMBER': ['HexNum', 'Num'], 'KEYWORD': ['Declare', 'Define'], 'MODIFIER': ['FuncModifier']}
UNCLASSIFIED = ['Newline', 'Ident', 'DebugRef', 'Punctuation']


def assume(l):
    """The spans of tokens lie inside of the text."""
    v = assume_std(l)
    if v is not None: return v
    t = l[0]
    if t[0] == 'app' and re.match(r'^Rope(Slice)?::(try|get)_', t[1]): return ('Some' in l[2] or 'Ok' in l[2]) == l[1]
    return None


def settle(t):
    """Applies the assumption below conditions, too."""
    def f(x):
        if x[0] == 'choice':
            al = [(apply_assume(g, assume), y) for g, y in x[1]]
            return mk_choice([(g, y) for g, y in al if g is not None])
        if x[0] == 'coll':
            its = [(apply_assume(g, assume), y, m) for g, y, m in x[1]]
            return ('coll', tuple(i for i in its if i[0] is not None))
        return x
    return mapterm(t, f)


def minus(x):
    """a - b, whatever the overflow behaviour (C01 looks at it)."""
    if x[0] == 'app' and x[1] in ('num.wrapping_sub', 'num.saturating_sub') and len(x) == 4: x = ('sub', x[2], x[3])
    if x[0] == 'sub' and x[2] == ('i', 0): return x[1]
    # p + (x - p), x if x - p != 0 else p
    if x[0] == 'add':
        for a, b in ((x[1], x[2]), (x[2], x[1])):
            if b[0] == 'sub' and b[2] == a: return b[1]
    if x[0] == 'choice' and len(x[1]) == 2:
        for (g, a), (h, b) in (x[1], x[1][::-1]):
            if len(g) == 1 and len(h) == 1:
                (c, p, v), = g
                if eqtest(g) in ((a, b, True), (b, a, True)): return b
    return x


def eqtest(g):
    """(x, y, equal?) of a single literal x - y = 0, x = y"""
    (c, p, v), = g
    if c[0] == 'sub' and set(v) == {0}: return c[1], c[2], p
    if c[0] == 'eq': return c[1], c[2], p == (True in v)
    return None


class Prev:
    """Loop-carried values: the initial one for the first token, else the one computed for the token before."""
    def __init__(self, eng, rw, first):
        self.eng, self.rw, self.first, self.busy = eng, rw, first, set()

    def __call__(self, x):
        if x[0] != 'lv' or x not in self.eng.lv or x in self.busy: return x
        d = self.eng.lv[x]
        if self.first: return mapterm(self.rw(d['init']), minus)
        step = mapterm(settle(self.rw(d['step'])), minus)
        # a value which is kept in some case is not the one of the token before
        self.busy.add(x)
        step = mapterm(mapterm(step, lambda y: ('sym', 'EARLIER') if y == x else y), self)
        self.busy.discard(x)
        if any(y[0] == 'lv' for y in walk_all(step)): return x
        return mapterm(step, lambda y: ('app', 'PREV.OFF2POS') + y[2:] if y[0] == 'app' and y[1] == 'OFF2POS' else y)


def lits(t):
    def gg(g):
        out = []
        for l in g:
            e = eqtest([l])
            if e and {text(e[0]), text(e[1])} == {L, PL}:
                DOM[('sym', 'SAMELINE')] = BOOLDOM
                l = (('sym', 'SAMELINE'), True, frozenset([e[2]]))
            elif l[0][0] == 'lt' and {text(l[0][1]), text(l[0][2])} == {L, PL} and text(l[0][1]) == PL:
                # tokens are in document order: a later line is another line
                DOM[('sym', 'SAMELINE')] = BOOLDOM
                l = (('sym', 'SAMELINE'), True, frozenset([not (l[1] == (True in l[2]))]))
            elif l[0][0] == 'lt' and text(l[0][1]) == 'sub(%s, %s)' % (L, PL) and l[0][2] == ('i', 1):
                DOM[('sym', 'SAMELINE')] = BOOLDOM
                l = (('sym', 'SAMELINE'), True, frozenset([l[1] == (True in l[2])]))
            elif l[0][0] == 'lt' and text(l[0][2]) == 'sub(%s, %s)' % (L, PL) and l[0][1] == ('i', 0):
                DOM[('sym', 'SAMELINE')] = BOOLDOM
                l = (('sym', 'SAMELINE'), True, frozenset([not (l[1] == (True in l[2]))]))
            out.append(l)
        return frozenset(out)
    def f(x):
        if x[0] == 'choice': return mk_choice([(gg(g), y) for g, y in x[1]])
        if x[0] == 'coll': return ('coll', tuple((gg(g), y, m) for g, y, m in x[1]))
        return x
    return mapterm(t, f)


def encoding(ctx, rep):
    r, _ = handler_nf(ctx, 'semantic_tokens_full', U)
    if r is None: return rep.violation('missing', '-', 'the server does not implement `semantic_tokens_full`')
    rep.count('handlers_analysed')
    rw = lambda t: mapterm(canon(ctx, t), abbreviate(U))
    t0 = mapterm(settle(rw(r.ret)), minus)
    tok = "SemanticToken{delta_line: %s, delta_start: %s, length: " + LEN + ", token_type: " + TOK + ".token_type, token_modifiers_bitset: 0}*"
    for case in ('first', 'same line', 'later line'):
        key = 'encoding:' + case
        t = mapterm(t0, Prev(r.eng, rw, case == 'first'))
        t = restrict(t, lambda x: x[2] if x[0] == 'agg' and x[2] else None)
        t = lits(lengths(mapterm(t, minus)))
        if case != 'first': t = restrict(t, lambda x: case == 'same line' if x == ('sym', 'SAMELINE') else None)
        if case == 'first': spec = tok % (L, C)
        elif case == 'same line':
            t = mapterm(t, lambda x: ('i', 0) if x[0] == 'sub' and text(x[1]) == L and text(x[2]) == PL else x)
            spec = tok % ('0', 'sub(%s, %s)' % (C, PC))
        else: spec = tok % ('sub(%s, %s)' % (L, PL), C)
        try: d = Cmp(assume).cases([('Ok{0: None}', 'DOC?∈{None}'), ('Ok{0: Some{0: Tokens{0: SemanticTokens{data: [%s]}}}}' % spec, 'DOC?∈{Some}')], t)
        except TooBig:
            rep.unsure(key, bat(r.body), 'too large')
            continue
        judge(rep, key, bat(r.body), d, t, (), '`semantic_tokens_full`, token which is the first / on the same line / on a later line than the one before: ' + case)
    rep.sample('the first token absolute; each further one with line delta, start delta on the same line; UTF-16 length; class')
    order(rep, r, 'semantic_tokens_full')


def lengths(t):
    """Lengths in coordinates: S is the location of the start of the token."""
    start = next((x for x in walk_all(t) if text(x) == TOK + '.start'), None)
    ln = next((x for x in walk_all(t) if text(x) == TOK + '.length'), None)
    rope = next((x for x in walk_all(t) if text(x) == 'DOC.rope'), None)
    if start is None or ln is None: return t
    S = ('sym', 'S')
    f, _ = coords(rope, {a: ('byte', ('app', 'advancebytes', S, ln)) for a in (('add', start, ln), ('add', ln, start))})
    def at_start(y):
        if y == start: return ('app', 'at:byte', S)
        if y[0] == 'agg': return ('agg', y[1], y[2], tuple((n, at_start(v)) for n, v in y[3]))
        return y
    def g(x):
        # the start itself, except where it is the argument of the position conversion
        if x[0] == 'app' and x[1].endswith('OFF2POS'): return x
        if x[0] == 'app' and x[1].startswith('Rope'): x = tuple(at_start(y) if isinstance(y, tuple) else y for y in x)
        return f(x)
    return mapterm(mapterm(t, g), minus)


def order(rep, r, what):
    for e in r.events:
        if e.kind == 'reorder': rep.violation('order:' + what, at(e), '`%s` changes the order of the tokens (`%s`)' % (what, e.name))
    rep.ok()


def legend(ctx, rep):
    """Names of the token types in the order announced to the client."""
    r = ctx.handler('initialize')
    rep.count('handlers_analysed')
    for x in walk_all(r.ret):
        if x[0] == 'agg' and short(x[1]) == 'SemanticTokensLegend':
            tt = dict(x[3])['token_types']
            if tt[0] == 'coll' and all(y[0] == 'const' and not g and m == 1 for g, y, m in tt[1]): return [text(y).rsplit('::', 1)[-1] for g, y, m in tt[1]]
            rep.unsure('legend', bat(r.body), 'the legend `%s` is not interpreted' % text(tt)[:200])
            return None
    rep.violation('legend', bat(r.body), 'no token legend is announced')


def classes(ctx, rep, names):
    for h in ('did_open', 'did_change'):
        c = change(ctx, h)
    B = ctx.anchor.get('SEMTOK')
    if B is None: return rep.unsure('classes', '-', 'no function from tokens to semantic tokens')
    spec = []
    for cl, toks in CLASSES.items():
        if cl not in names: return rep.violation('legend:' + cl, bat(B), 'the legend %s has no %s' % (names, cl))
        spec.append('HIRSemanticToken{start: tokens[*].1.start, length: sub(tokens[*].1.end, tokens[*].1.start), token_type: %d}* if tokens[*].0∈{%s}' % (names.index(cl), ','.join(toks)))
    r = ctx.run(B, opaque=(), names=['tokens'])
    t = mapterm(settle(r.ret), minus)
    rep.count('functions_analysed')
    try: d = Cmp(assume).cases([('[%s]' % '; '.join(spec), 'true')], t)
    except TooBig: return rep.unsure('classes', bat(B), 'too large')
    if judge(rep, 'classes', bat(B), d, t, (), '`%s`' % B.path): rep.sample('each token of the kinds %s yields exactly one semantic token with its span and class' % ', '.join(x for v in CLASSES.values() for x in v))
    order(rep, r, 'classes')
    rep.count('token_classes', len(CLASSES))


def run(ctx, rep):
    rep.rule('the encoded list has, for each stored semantic token in order, line and start relative to the token before it, its UTF-16 length and its class; each highlightable token of the document yields one stored semantic token with the class of its kind in the announced legend')
    encoding(ctx, rep)
    names = legend(ctx, rep)
    if names: classes(ctx, rep, names)
    for h in ('did_open', 'did_change'): store_lemma(ctx, rep, h)
    grammar_lemma(ctx, rep, {'TOKENIZER': None})
    rep.floor('handlers_analysed', 2)
