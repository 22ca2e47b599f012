"""The latest text wins and all derived data comes from it."""
from lemmas import *
from state import writes

ALLOWED = {'ROPE', 'P', 'IDX', 'URI', 'VERSION', 'KEY', 'ST', 'UD'}


def run(ctx, rep):
    rep.rule('effects of didOpen / didChange: one insertion into the document store, keyed by the URI, of data all derived from the text of the notification, before the first suspension point; diagnostics derived from the same data are published for that URI and version')
    for h in ('did_open', 'did_change'):
        store_lemma(ctx, rep, h)
        t = publish_lemma(ctx, rep, h)
        if t is None: continue
        bad = set()
        for x in walk_all(t):
            if x[0] == 'sym' and x[1] not in ALLOWED and not x[1].startswith('$'): bad.add(x[1])
        c = change(ctx, h)
        if bad & {'self', 'params'}:
            ex = next(x for x in walk_all(t) if x[0] in ('fld', 'app') and any(y in (('sym', 'self'), ('sym', 'params')) for y in x[1:]))
            u = uninterpreted(t)
            (rep.unsure if u else rep.violation)('source:' + h, bat(c.r.body), 'the published diagnostics depend on `%s`, not only on the text of the notification' % text(ex)[:200])
        else: rep.ok()
    elsewhere(ctx, rep)
    other_writers(ctx, rep)
    rep.floor('handlers_analysed', 2)


def other_writers(ctx, rep):
    """No other message stores or removes a document."""
    for h in ctx.handlers():
        if h in ('did_open', 'did_change', 'did_close'): continue
        r = ctx.handler(h)
        rep.count('handlers_scanned')
        for st, e, sure in writes(r):
            if st == 'self.document_map' and sure:
                rep.violation('writer:' + h, at(e), '`%s` changes the stored documents' % h)
    rep.ok()
