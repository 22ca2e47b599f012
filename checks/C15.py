from lemmas import *


def run(ctx, rep):
    rep.rule('the effects of building the index equal the specification')
    index_lemma(ctx, rep)
