"""Local names stay inside of their function."""
from lemmas import *
from flow import URIS


def is_fbs(x): return x[0] == 'fld' and x[2].endswith('HIRIndex.function_bodies')


def of_symbol(x):
    """S for S.func_body_id / S.func_body_id.<Some.0>"""
    if is_some0(x): x = x[1]
    if x[0] == 'fld' and re.search(r'[.]func_body_id$', x[2]): return x[1]
    return None


def owner(x):
    """The body a term denotes: ('each',), ('symbol', S), ('none',), or None if it is another one."""
    if is_some0(x): x = x[1]
    if x[0] == 'agg' and x[2] == 'Some': x = x[3][0][1]
    if x == NONE: return ('none',)
    if x[0] == 'elem' and is_fbs(x[1]): return ('each',)
    if x[0] == 'app' and x[1] in ('FB', 'index') and is_fbs(x[2]):
        s = of_symbol(x[3])
        return ('symbol', s) if s is not None else None
    return None


def terms_of(ctx, h):
    r = ctx.handler(h)
    ts = [r.ret] + ([a for e in r.events if e.kind == 'call' and models.norm(e.name) in ('Client::publish_diagnostics', 'Client::send_request') for a in e.args])
    uri = next((u for u in URIS if any(text(x) == u for t in ts for x in walk_all(t))), None)
    return r, [mapterm(t, abbreviate(uri)) for t in ts]


def kids(x):
    for y in x[1:]:
        if isinstance(y, tuple): yield y


def scope(ctx, rep, h):
    r, ts = terms_of(ctx, h)
    rep.count('handlers_analysed')
    n = 0
    # chosen by its place in the document: not decided here
    by_place = any(x[0] in ('app', 'lt') and 'function_bodies[*].complete_range' in text(x) and 'params' in text(x) for t in ts for x in walk_all(t))
    for x in {y for t in ts for y in walk_all(t)}:
        msg = None
        if x[0] == 'app' and x[1] in ('FB', 'index') and is_fbs(x[2]):
            n += 1
            if of_symbol(x[3]) is None: msg = 'the function body is chosen by `%s`, not by the occurrence of the symbol' % text(x[3])[:200]
        elif x[0] == 'app' and x[1] == 'USEDEFS':
            n += 1
            o = owner(x[4])
            k = x[3]
            if o is None: msg = 'the table of the symbol is taken from the function body `%s`' % text(x[4])[:200]
            elif o[0] == 'each' and not (k[0] == 'agg' and k[2] not in ('Label', 'LocalVar')): msg = 'the tables of all functions are searched for a local name'
            elif o[0] == 'symbol' and k[0] == 'fld' and k[2].endswith('.symbol_kind') and k[1] != o[1]: msg = 'the kind is that of `%s`, the function body that of `%s`' % (text(k[1])[:150], text(o[1])[:150])
        elif x[0] == 'app' and any(is_fbs(y) for y in kids(x)) and x[1] not in ('len', 'isempty', 'FB', 'index', 'contains') and not x[1].startswith(('iter', 'exhausted')):
            n += 1
            msg = 'the functions of the document are accessed by `%s`' % x[1]
        if msg is None: continue
        u = uninterpreted(x) or by_place
        (rep.unsure if u else rep.violation)('scope:' + h, bat(r.body), '`%s`: %s' % (h, msg))
    rep.count('body_accesses', n)
    rep.ok(n)


def run(ctx, rep):
    rep.rule('each table of local names which a handler reads belongs to the function body of the occurrence it asks about, or to each body on its own; the index enters a local name into the tables of the body which encloses the occurrence')
    for h in ctx.handlers(): scope(ctx, rep, h)
    lookups(ctx, rep)
    index_lemma(ctx, rep, parts=('tables', 'reverse', 'bodies', 'incoming'), kinds=('Label', 'LocalVar'))
    rep.floor('handlers_analysed', 10)
    rep.floor('body_accesses', 5)
