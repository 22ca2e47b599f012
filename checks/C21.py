"""Numbering shift and relative rename."""
from edits import *


def run(ctx, rep):
    rep.rule('relative rename and the numbering action edit exactly the numbered symbols of the table of that kind and function whose number is not below that of the symbol; the new text is prefix + (number + shift)')
    relative_rename(ctx, rep)
    code_actions(ctx, rep)
    resolve(ctx, rep)
    number_lemma(ctx, rep)
    lookups(ctx, rep)
    index_lemma(ctx, rep, parts=('tables', 'reverse'))
    rep.floor('rename_cases', 2)
