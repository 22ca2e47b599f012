"""Outline, folding ranges and code lenses cover every function / block / definition."""
from lemmas import *
from grammar import grammar_lemma
U = 'params.text_document.uri'


def run(ctx, rep):
    rep.rule('value-flow normal forms of document_symbol, folding_range and code_lens equal their specifications; every item is produced unconditionally for every element of the index')
    check_handler(ctx, rep, 'document_symbol', [
        ('Ok{0: None}', 'DOC?∈{None}'),
        ('Ok{0: Some{0: Nested{0: ['
         'DocumentSymbol{name: DOC.index.global_vars[*].0, kind: SymbolKind::CONSTANT, range: RANGE(DOC.rope, DOC.index.global_vars[*].1.defs[*]).<Some.0>, selection_range: RANGE(DOC.rope, DOC.index.global_vars[*].1.defs[*]).<Some.0>}*;'
         'DocumentSymbol{name: DOC.index.function_bodies[*].name.0, kind: SymbolKind::FUNCTION, range: RANGE(DOC.rope, DOC.index.function_bodies[*].complete_range).<Some.0>, selection_range: RANGE(DOC.rope, DOC.index.function_bodies[*].name.1).<Some.0>}*'
         ']}}}', 'DOC?∈{Some}')], U)
    F, B = ['OFF2POS(DOC.rope, DOC.index.function_bodies[*].%s.%%s).<Some.0>.line' % f for f in ('complete_range', 'basic_blocks[*].span')]
    check_handler(ctx, rep, 'folding_range', [
        ('Ok{0: None}', 'DOC?∈{None}'),
        ('Ok{0: Some{0: ['
         'FoldingRange{start_line: %s, end_line: %s}*; FoldingRange{start_line: %s, end_line: %s}*]}}' % (F % 'start', F % 'end', B % 'start', B % 'end'), 'DOC?∈{Some}')], U)
    check_handler(ctx, rep, 'code_lens', [
        ('Ok{0: None}', 'DOC?∈{None}'),
        ("Ok{0: Some{0: [CodeLens{range: RANGE(DOC.rope, index(DOC.index.functions[*].1.defs, 0)).<Some.0>, command: Some{0: Command{command: 'visualize-cfg', arguments: Some{0: "
         '<String{0: display(%s)}; String{0: DOC.index.functions[*].0}>}}}}* if len(DOC.index.functions[*].1.defs)∈{1}]}}' % U, 'DOC?∈{Some}')], U)
    index_lemma(ctx, rep, parts=('bodies', 'tables'), kinds=('Function', 'GlobalVar'))
    grammar_lemma(ctx, rep, {'PARSER': ['Statement']})
    rep.floor('handlers_analysed', 3)
