"""Requests never change what the server knows: writes to shared state per handler."""
from lemmas import *
from state import *

WRITERS = ('initialize', 'did_open', 'did_change')


def run(ctx, rep):
    rep.rule('handlers other than %s write to no field of the server and to no static which an answer depends on' % ', '.join(WRITERS))
    hs = ctx.handlers()
    used = set()
    for h in hs:
        r = ctx.handler(h)
        terms = [r.ret] + [a for e in r.events if e.kind == 'call' and models.norm(e.name).startswith('Client::') for a in e.args]
        out = sorted({x[1] for t in terms for x in walk_all(t) if x[0] == 'app' and OUTSIDE.search(x[1])})
        if out: rep.violation('outside:' + h, bat(r.body), 'what `%s` answers or sends depends on `%s`' % (h, out[0]))
        else: rep.ok()
        for t in terms:
            for x in walk_all(t):
                if x[0] == 'sym' and x[1].startswith('static '): used.add(x[1])
                if x[0] == 'fld' and x[1] == ('sym', 'self'): used.add(text(x))
    for h in hs:
        r = ctx.handler(h)
        rep.count('handlers_analysed')
        rep.count('operations_on_state', sum(1 for e in r.events if e.args and root(e.args[0])))
        n = 0
        for s, e, sure in writes(r):
            n += 1
            if h in WRITERS:
                rep.count('writes_by_' + h)
                continue
            m = '`%s` changes `%s` (`%s`) if %s' % (h, s, models.norm(e.name) if e.kind == 'call' else e.kind, dtext(e.guard)[:200])
            # a value which no answer depends on is not observable
            if s not in used and s not in ('self.document_map', 'self.root_paths', 'self.code_actions_lazy_resolve'): rep.ok()
            elif sure: rep.violation('write:%s:%s' % (h, s), at(e), m)
            else: rep.unsure('write:%s:%s' % (h, s), at(e), m)
        if not n: rep.ok()
        if h in WRITERS and n == 0: rep.violation('nowrite:' + h, bat(r.body), '`%s` changes nothing' % h)
    # the known writers change only what is theirs
    for h, own in (('initialize', ('self.root_paths', 'self.code_actions_lazy_resolve')), ('did_open', ('self.document_map',)), ('did_change', ('self.document_map',))):
        if h not in hs:
            rep.violation('handler:' + h, '-', 'there is no handler `%s`' % h)
            continue
        for s, e, sure in writes(ctx.handler(h)):
            if s in own or s not in used and s not in ('self.document_map', 'self.root_paths', 'self.code_actions_lazy_resolve'): rep.ok()
            else: rep.violation('write:%s:%s' % (h, s), at(e), '`%s` changes `%s`' % (h, s))
    rep.sample('state answers depend on: ' + ', '.join(sorted(used)))
    rep.floor('handlers_analysed', 18)
    rep.floor('operations_on_state', 20)
