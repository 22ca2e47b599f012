"""Navigation: go to definition / declaration / references and the lookups behind them."""
from lemmas import *

NONE_G = 'DOC?∈{None} || OFF?∈{None} || SYM?∈{None} || SYMS?∈{None} || UD?∈{None}'
SOME_G = 'DOC?∈{Some} & OFF?∈{Some} & SYM?∈{Some} & SYMS?∈{Some} & UD?∈{Some}'


def link(uri, rng, g=''):
    return 'LocationLink{origin_selection_range: Some{0: RANGE(DOC.rope, SYM.span).<Some.0>}, target_uri: %s, target_range: %s, target_selection_range: %s}*%s' % (uri, rng, rng, g)


EXT_POS = 'Position{line: num.saturating_sub(UD.external_defs[*].line, 1), character: 0}'
EXT = link('RESOLVE(ROOTS, UD.external_defs[*].filepath).<Some.0>', 'Range{start: %s, end: %s}' % (EXT_POS, EXT_POS), ' if RESOLVE(ROOTS, UD.external_defs[*].filepath)∈{Some}')


def run(ctx, rep):
    rep.rule('value-flow normal form of each navigation handler equals its specification: all and only the occurrences of the symbol under the cursor of the requested role, converted with the same document')
    for h, role, p in (('goto_definition', 'defs', 'params.text_document_position_params'), ('goto_declaration', 'decls', 'params.text_document_position_params')):
        u = p + '.text_document.uri'
        items = [link(u, 'RANGE(DOC.rope, UD.%s[*]).<Some.0>' % role)]
        if role == 'defs': items.append(EXT)
        check_handler(ctx, rep, h, [('Ok{0: None}', NONE_G), ('Ok{0: Some{0: Link{0: [%s]}}}' % '; '.join(items), SOME_G)], u, p + '.position')
    p = 'params.text_document_position'
    u = p + '.text_document.uri'
    check_handler(ctx, rep, 'references', [('Ok{0: None}', NONE_G), ('Ok{0: Some{0: [Location{uri: %s, range: RANGE(DOC.rope, UD.uses[*]).<Some.0>}*]}}' % u, SOME_G)], u, p + '.position')
    lookups(ctx, rep)
    index_lemma(ctx, rep, parts=('tables', 'reverse', 'external'))
    rep.floor('handlers_analysed', 3)
    rep.floor('functions_analysed', 3)
