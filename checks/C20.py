"""Code actions: eager and lazy edits are the same."""
from edits import *


def run(ctx, rep):
    rep.rule('code_action and code_action_resolve yield the same edit specification; the data of the action survives serialisation; the edit is left out iff the client announced resolve support for `edit` and data support')
    code_actions(ctx, rep)
    resolve(ctx, rep)
    out = serde_lemma(ctx, rep, 'CodeActionData', ['uri', 'symbol_kind', 'func_body_id', 'renamed_nr'])
    serde_lemma(ctx, rep, 'SymbolKind')
    lazy_flag(ctx, rep)
    number_lemma(ctx, rep)
    lookups(ctx, rep)
    rep.floor('handlers_analysed', 3)
    rep.floor('serialised_names', 9)
