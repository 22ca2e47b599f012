"""Inlay hints: incoming edges, function ends, backtraces - and nothing else."""
from lemmas import *
from grammar import grammar_lemma
from frames import parse_lemma

U = 'params.text_document.uri'
FB = 'DOC.index.function_bodies[*]'
BB = FB + '.basic_blocks[*]'
INC = 'map.get(%s.incoming_bb_branches, %s.label.<Some.0>.0)' % (FB, BB)
INS = 'DOC.stmts[*].<FuncDef.body>.basic_blocks[*].instructions[*]'
VAL = 'map.get(DOC.index.dgb_annotation_values, %s.dbg_ref.<Some.0>.0)' % INS
JSON = 'serde_json::from_str(%s.<Some.0>)' % VAL
FRAMES = 'BTPARSE(ROOTS, %s.<Ok.0>)' % JSON


def run(ctx, rep):
    rep.rule('the list of inlay hints equals: one hint per labelled block with incoming branches, one per function body, one per instruction with a backtrace; the incoming branches are those recorded by the index')
    part = "InlayHintLabelPart{value: %s.<Some.0>[*].0, location: Some{0: Location{uri: %s, range: RANGE(DOC.rope, %s.<Some.0>[*].1).<Some.0>}}}*" % (INC, U, INC)
    sep = "InlayHintLabelPart{value: 'incoming: ', location: None}* if idx(%s.<Some.0>)∈{0}; InlayHintLabelPart{value: ', ', location: None}* if idx(%s.<Some.0>)∉{0}" % (INC, INC)
    items = [
        'InlayHint{position: OFF2POS(DOC.rope, %s.label_comma_span.<Some.0>.end).<Some.0>, label: LabelParts{0: <%s; %s>}}* if %s.label∈{Some} & %s.label_comma_span∈{Some} & %s∈{Some}' % (BB, sep, part, BB, BB, INC),
        'InlayHint{position: OFF2POS(DOC.rope, %s.complete_range.end).<Some.0>, label: LabelParts{0: [InlayHintLabelPart{value: %s.name.0, location: Some{0: Location{uri: %s, range: RANGE(DOC.rope, %s.name.1).<Some.0>}}}]}}*' % (FB, FB, U, FB),
        'BTHINT(OFF2POS(DOC.rope, %s.dbg_ref.<Some.0>.1.end).<Some.0>, %s.<Some.0>)* if DOC.stmts[*]∈{FuncDef} & %s.dbg_ref∈{Some} & %s∈{Some} & %s∈{Ok} & %s∈{Some}' % (INS, FRAMES, INS, VAL, JSON, FRAMES)]
    check_handler(ctx, rep, 'inlay_hint', [('Ok{0: None}', 'DOC?∈{None}'), ('Ok{0: Some{0: [%s]}}' % '; '.join(items), 'DOC?∈{Some}')], U, known=('serde_json::from_str',))
    tooltip(ctx, rep)
    index_lemma(ctx, rep, parts=('incoming', 'values', 'bodies'))
    branching_lemma(ctx, rep)
    parse_lemma(ctx, rep, parts=('symbol', 'location'))
    grammar_lemma(ctx, rep, {'PARSER': ['Instruction']})
    rep.floor('handlers_analysed', 1)


def tooltip(ctx, rep):
    """The hint of a backtrace stands at the given position and one of its tooltips lists every frame."""
    B = ctx.anchor.get('BTHINT')
    if B is None: return rep.unsure('backtrace', '-', 'no function which makes the hint of a backtrace')
    r = ctx.run(B, opaque=(), names=['pos', 'frames'])
    rep.count('functions_analysed')
    best = None
    for g, h in lift_choices(r.ret):
        d = dict(h[3]) if h[0] == 'agg' else {}
        if text(d.get('position', UNIT)) != 'pos': return judge(rep, 'backtrace:position', bat(B), ['the hint stands at `%s`' % text(d.get('position', UNIT))[:200]], h)
    for x in walk_all(r.ret):
        if not (x[0] == 'agg' and short(x[1]) == 'MarkupContent' and 'value' in dict(x[3])): continue
        v = dict(x[3])['value']
        for g, y in lift_choices(v):
            pieces = listed(y) if is_list(y) else None
            if not pieces: continue
            try: e = equivalent([[]], todnf([c for c in pieces]))
            except TooBig: continue
            if e is None:
                rep.ok()
                rep.sample('the tooltip of a backtrace lists all of its frames')
                return
            best = (y, e)
    if best: judge(rep, 'backtrace:frames', bat(B), ['the tooltip does not list all frames: none for %s' % ', '.join('%s=%s' % kv for kv in sorted(best[1].items()))[:300]], best[0])
    else: rep.unsure('backtrace:frames', bat(B), 'no text which lists the frames was found')


def is_char(t): return t[0] == 'elem' and t[1][0] == 'app' and t[1][1] == 'chars'


def about_char(t):
    """Whether a condition concerns single characters; that of a whole text (is it empty, how long is it?) does not."""
    if not isinstance(t, tuple) or not t or t[0] in ('cat', 'coll'): return False
    return is_char(t) or any(about_char(y) for y in t if isinstance(y, tuple))


def is_list(t):
    """A text with something for each of the frames (and not only for one of them)."""
    for x in walk_all(t):
        if x[0] == 'coll' and any(m == '*' and 'frames[*].symbol' in text(y) for _, y, m in x[1]): return True
    return any(m == '*' and y[0] in ('s', 'c') and not any(is_char(z) for l in g for z in walk_all(l[0])) for g, y, m in cat_items(t))


def listed(t):
    """The conditions under which a frame contributes its symbol to a text."""
    out = []
    def own(l): return not about_char(l[0])
    def rec(t, g):
        its = t[1] if t[0] in ('cat', 'coll') else None
        if its is None:
            if t[0] == 'app' and t[1] in ('join', 'concat'): return rec(t[2], g)
            if t[0] == 'choice':
                for h, y in t[1]:
                    c = conj_and(g, h)
                    if c is not None: rec(y, c)
                return
            if any(text(z) == 'frames[*].symbol' for z in walk_all(t)): out.append(frozenset(l for l in g if own(l)))
            return
        for h, y, m in its:
            c = conj_and(g, h)
            if c is not None: rec(y, c)
    rec(t, EMPTY)
    return out
