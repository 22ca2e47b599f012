"""Diagnostics: every error once, at its place, and nothing else."""
from lemmas import *

R = 'RANGE(ROPE, %s).<Some.0>'
TABLES = ['IDX.global_vars', 'IDX.functions', 'IDX.dgb_annotations', 'IDX.function_bodies[*].labels', 'IDX.function_bodies[*].local_vars']


def tidy(x):
    if x[0] == 'app' and x[1] == 'Simple::reason' and text(x[2]) == 'P.errors[*]': return ('sym', 'REASON')
    if x[0] == 'app' and x[1] == 'Simple::span' and text(x[2]) == 'P.errors[*]': return ('sym', 'SPAN')
    return x


def spec():
    I = 'P.stmts[*].<FuncDef.body>.basic_blocks[*].instructions[*]'
    out = ['Diagnostic{range: %s}* if REASON∈{Unclosed}' % (R % 'REASON.<Unclosed.span>'), 'Diagnostic{range: %s}* if REASON∈{Unexpected,Custom}' % (R % 'SPAN'),
           'Diagnostic{range: %s}* if P.stmts[*]∈{FuncDef} & isempty(%s.basic_block_refs) & str.ends_with(%s.instruction.0, \'br\') || P.stmts[*]∈{FuncDef} & isempty(%s.basic_block_refs) & %s.instruction.0∈{phi,switch}' % (R % (I + '.instruction.1'), I, I, I, I)]
    for t in TABLES:
        u = t + '[*].1'
        out.append('Diagnostic{range: %s}* if isempty(%s.decls) & isempty(%s.defs)' % (R % (u + '.uses[*]'), u, u))
        out.append('Diagnostic{range: %s, related_information: Some{0: [DiagnosticRelatedInformation{location: Location{uri: URI, range: %s}}]}}* if !len(%s.defs) < 2 & idx(%s.defs)∉{0}' % (
            R % (u + '.defs[*]'), R % ('index(%s.defs, 0)' % u), u, u))
    return '[%s]' % '; '.join(out)


def run(ctx, rep):
    rep.rule('the published list equals: one diagnostic per tokenizer/parser error with its span, one per branch without targets, one per use of a name without declaration and definition, one per further definition - for all five symbol tables')
    for h in ('did_open', 'did_change'):
        t = publish_lemma(ctx, rep, h)
        if t is None: continue
        rep.count('handlers_analysed')
        t = mapterm(t, tidy)
        c = change(ctx, h)
        try: d = Cmp().value(parse_spec(spec()), t, parse_guard(c.cond), 'diagnostics')
        except TooBig:
            rep.unsure('list:' + h, bat(c.r.body), 'too large')
            continue
        if judge(rep, 'list:' + h, bat(c.r.body), d, t, (), '`%s`' % h): rep.sample('%s publishes exactly %d kinds of diagnostics' % (h, len(parse_spec(spec()).items)))
        rep.count('kinds_of_diagnostics', len(parse_spec(spec()).items))
    elsewhere(ctx, rep)
    grammar_lemma_result(ctx, rep)
    index_lemma(ctx, rep, parts=('tables',))
    rep.floor('handlers_analysed', 2)


def grammar_lemma_result(ctx, rep):
    from grammar import parse_result_lemma, grammar_lemma
    parse_result_lemma(ctx, rep)
    grammar_lemma(ctx, rep)
