"""Every answer concerns the document which was asked about."""
from lemmas import *

# where each message names its document
URI = {'did_open': 'params.text_document.uri', 'did_change': 'params.text_document.uri', 'goto_definition': 'params.text_document_position_params.text_document.uri',
       'goto_declaration': 'params.text_document_position_params.text_document.uri', 'references': 'params.text_document_position.text_document.uri', 'rename': 'params.text_document_position.text_document.uri',
       'execute_command': 'index(params.arguments, 0).<String.0>', 'code_action_resolve': 'serde_json::from_value(params.data.<Some.0>).<Ok.0>.<ShiftNumbering.uri>'}
READS = {'DashMap::get', 'DashMap::get_mut', 'DashMap::contains_key', 'DashMap::view', 'DashMap::try_get'}
WRITES = {'DashMap::insert', 'DashMap::entry'}
URL_FIELDS = {('Location', 'uri'), ('LocationLink', 'target_uri'), ('TextDocumentIdentifier', 'uri'), ('OptionalVersionedTextDocumentIdentifier', 'uri'), ('CodeActionData', 'uri')}


def key_ok(k, u):
    t = text(k)
    while True:
        if t == u: return True
        m = re.match(r'^display\((.*)\)$', t) or re.match(r'^(.*)\.serialization$', t)
        if not m: return False
        t = m.group(1)


def run(ctx, rep):
    rep.rule('every access to the document store uses the URI of the message as key; every URI in an answer is that URI (or the resolved file of an external definition); without a stored document the answer is null or an error')
    for h in ctx.handlers():
        r = ctx.handler(h)
        u = URI.get(h, 'params.text_document.uri')
        rep.count('handlers_analysed')
        n = 0
        for e in r.events:
            nm = models.norm(e.name) if e.kind == 'call' else ''
            if not nm.startswith('DashMap::') or not e.args or text(e.args[0]) != 'self.document_map': continue
            rep.count('store_accesses')
            if nm not in READS | WRITES:
                if nm in ('DashMap::len', 'DashMap::is_empty', 'DashMap::shrink_to_fit', 'DashMap::capacity'): continue
                rep.violation('access:%s:%s' % (h, nm), at(e), '`%s` reaches documents other than the requested one (`%s`)' % (h, nm))
                continue
            n += nm in READS
            k = e.args[1]
            bad = [y for g, y in lift_choices(k) if not key_ok(y, u)]
            if not bad: rep.ok()
            else:
                un = uninterpreted(bad[0])
                m = '`%s` accesses the document `%s`, the message names `%s`' % (h, text(bad[0])[:200], u)
                if un: rep.unsure('key:' + h, at(e), m)
                else: rep.violation('key:' + h, at(e), m)
        answers(ctx, rep, h, r, u)
        if n and h not in ('did_open', 'did_change'): closed(ctx, rep, h, r, u)
    for h in ('did_open', 'did_change'):
        store_lemma(ctx, rep, h)
        publish_lemma(ctx, rep, h)
    rep.floor('handlers_analysed', 18)
    rep.floor('store_accesses', 15)


def uris(t):
    for x in walk_all(t):
        if x[0] == 'agg':
            for n, v in x[3]:
                if (short(x[1]), n) in URL_FIELDS: yield '%s.%s' % (short(x[1]), n), v
                if short(x[1]) == 'WorkspaceEdit' and n == 'changes':
                    for g, y in lift_choices(v):
                        if y[0] == 'agg' and y[2] == 'Some':
                            m = y[3][0][1]
                            if m[0] == 'app' and m[1] == 'mapof' and m[2][0] == 'coll':
                                for g2, p, _ in m[2][1]:
                                    if p[0] == 'agg' and p[1] == '()': yield 'WorkspaceEdit.changes', p[3][0][1]
                                    else: yield 'WorkspaceEdit.changes', p
                            else: yield 'WorkspaceEdit.changes', m


def answers(ctx, rep, h, r, u):
    ok = True
    for what, v in uris(r.ret):
        for g, y in lift_choices(v):
            rep.count('uris_in_answers')
            if text(y) == u: continue
            b = y
            if what == 'LocationLink.target_uri' or what == 'Location.uri':
                if b[0] == 'fld' and b[1][0] == 'app' and b[1][1] == 'RESOLVE' and h == 'goto_definition': continue
            ok = False
            m = '`%s` answers with the URI `%s` in %s, the message names `%s`' % (h, text(y)[:200], what, u)
            if uninterpreted(y): rep.unsure('uri:%s:%s' % (h, what), bat(r.body), m)
            else: rep.violation('uri:%s:%s' % (h, what), bat(r.body), m)
    if ok: rep.ok()


def closed(ctx, rep, h, r, u):
    """The answer if the document is not open."""
    t = mapterm(r.ret, abbreviate(uri=u))
    if h == 'execute_command': t = mapterm(t, lambda x: ('sym', 'DOC?') if x[0] == 'app' and x[1] == 'DOCGET' and text(x[3]) == u else x)
    t = restrict(t, lambda x: 'None' if x == ('sym', 'DOC?') else None)
    try: alts = item_norm([(EMPTY, t, 1)], assume_std)
    except TooBig:
        rep.unsure('closed:' + h, bat(r.body), 'too large')
        return
    for g, y, m in alts:
        tx = text(y)
        if tx == 'Ok{0: None}' or y[0] == 'agg' and y[2] == 'Err': continue
        # an answer which does not depend on documents at all (e.g. an unrelated command)
        if h == 'execute_command' and tx.startswith('Ok'): pass
        msg = '`%s` about a document which is not open answers `%s` if %s' % (h, tx[:200], dtext(g)[:300])
        if uninterpreted(y): rep.unsure('closed:' + h, bat(r.body), msg)
        else: rep.violation('closed:' + h, bat(r.body), msg)
        return
    rep.ok()
