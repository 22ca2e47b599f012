"""The accepted language: tokenizer and parser as attribute grammars."""
from grammar import *
from ropes import span_units


def run(ctx, rep):
    rep.rule('the combinator terms, evaluated symbolically into productions with the values they build, equal the reviewed grammar; every repetition consumes input; the result of parsing contains all tokens, statements and errors of both stages')
    grammar_lemma(ctx, rep)
    parse_result_lemma(ctx, rep)
    span_units(ctx, rep)
    rep.floor('productions', 15)
