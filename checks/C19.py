"""External source locations resolve relative to the workspace folders only."""
from frames import *
from C10 import EXT, link, NONE_G, SOME_G


def run(ctx, rep):
    rep.rule('the roots are the folders of the client; a path resolves to the first root with the path appended which exists; frames and external definitions take path and line from the annotation; lines become zero-based')
    roots_lemma(ctx, rep)
    resolve_lemma(ctx, rep)
    parse_lemma(ctx, rep, parts=('location',))
    index_lemma(ctx, rep, parts=('external',))
    p = 'params.text_document_position_params'
    u = p + '.text_document.uri'
    check_handler(ctx, rep, 'goto_definition', [('Ok{0: None}', NONE_G), ('Ok{0: Some{0: Link{0: [%s]}}}' % '; '.join([link(u, 'RANGE(DOC.rope, UD.defs[*]).<Some.0>'), EXT]), SOME_G)], u, p + '.position')
    rep.floor('kinds_of_frames', 24)
    rep.floor('handlers_analysed', 2)
