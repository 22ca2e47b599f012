"""Rename: every occurrence, only those, only to valid names."""
from edits import *
from grammar import grammar_lemma


def run(ctx, rep):
    rep.rule('per symbol kind (and with / without the prefix in the request) the edit is: all declarations, definitions and uses of the use-def list of the symbol become prefix + new name, iff the name is valid and is tokenized as one identifier of that kind; every other answer is an error')
    absolute_rename(ctx, rep)
    check_handler(ctx, rep, 'prepare_rename', [('Ok{0: None}', 'DOC?∈{None} || OFF?∈{None} || SYM?∈{None}'), ('Ok{0: Some{0: Range{0: RANGE(DOC.rope, SYM.span).<Some.0>}}}', 'DOC?∈{Some} & OFF?∈{Some} & SYM?∈{Some}')], 'params.text_document.uri', 'params.position')
    lookups(ctx, rep)
    index_lemma(ctx, rep, parts=('tables', 'reverse'))
    grammar_lemma(ctx, rep, {'TOKENIZER': ['Token']})
    rep.floor('rename_cases', 9)
