"""The capabilities announced to the client."""
from lemmas import *


def states(t):
    """Can the capability be on / off? -> subset of {True, False, None}, None if it is not interpreted"""
    if t[0] == 'b': return {t[1]}
    if t[0] == 'fld' and t[1][0] == 'sym' and t[1][1].startswith('new:'): return {False}
    if t[0] == 'choice': return set().union(*(states(y) for _, y in t[1]))
    if t[0] == 'agg':
        if t[2] == 'None': return {False}
        if t[2] == 'Some' or (len(t[3]) == 1 and t[2] in ('Left', 'Simple', 'Bool', 'Right', 'Options')): return states(t[3][0][1])
        return {True}
    # what the client sent decides
    if t[0] in ('bitand', 'bitor', 'not', 'is', 'eq', 'fld', 'app') and any(x == ('sym', 'params') for x in walk_all(t)) and not uninterpreted(t): return {True, False}
    return {None}


def encodings(rep, r, res, c):
    """Positions are counted in UTF-16, so nothing else may be negotiated."""
    for k, t in (('position_encoding', c.get('position_encoding')), ('offset_encoding', res.get('offset_encoding'))):
        if t is None: continue
        s = text(t)
        if states(t) == {False} or re.search(r'UTF16|utf-?16', s): rep.ok()
        elif re.search(r'UTF8|UTF32|utf-?8|utf-?32', s): rep.violation('encoding:' + k, bat(r.body), 'the server announces positions in `%s`, but computes UTF-16 positions' % s[:100])
        else: rep.unsure('encoding:' + k, bat(r.body), '`%s` is not interpreted' % s[:100])


def encoding_lemma(ctx, rep):
    r = ctx.handler('initialize')
    if r is None: return rep.violation('missing:initialize', '-', 'no `initialize`')
    for x in walk_all(r.ret):
        if x[0] == 'agg' and short(x[1]) == 'InitializeResult':
            d = dict(x[3])
            c = d['capabilities']
            if c[0] == 'agg' and c[2] == 'ServerCapabilities': encodings(rep, r, d, dict(c[3]))
            else: rep.unsure('encoding', bat(r.body), 'the announced capabilities are not interpreted')
