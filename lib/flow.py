"""Every position in an answer is the position, in the text of that document, of an offset of that document."""
from lemmas import *
from ropes import coords, strip_ok

SLOTS = {('Location', 'range'): 'range', ('LocationLink', 'origin_selection_range'): 'range?', ('LocationLink', 'target_range'): 'range', ('LocationLink', 'target_selection_range'): 'range',
         ('DocumentSymbol', 'range'): 'range', ('DocumentSymbol', 'selection_range'): 'range', ('SymbolInformation', 'location'): None, ('TextEdit', 'range'): 'range', ('Diagnostic', 'range'): 'range',
         ('CodeLens', 'range'): 'range', ('InlayHint', 'position'): 'pos', ('FoldingRange', 'start_line'): 'line', ('FoldingRange', 'end_line'): 'line',
         ('PrepareRenameResponse', '0'): 'range', ('PrepareRenameResponse', 'range'): 'range', ('DocumentHighlight', 'range'): 'range', ('SelectionRange', 'range'): 'range', ('Hover', 'range'): 'range?'}
URIS = ('params.text_document.uri', 'params.text_document_position_params.text_document.uri', 'params.text_document_position.text_document.uri')
STORED = 'the rope of a stored document'
POS = 'sub(at:u16(%s), at:u16(linestart(%s)))'


def slots(t):
    for x in walk_all(t):
        if x[0] == 'agg':
            for n, v in x[3]:
                k = SLOTS.get((short(x[1]), n))
                if k: yield short(x[1]), n, k, v


def rope_of(x):
    """RANGE(r, s).<Some.0> / OFF2POS(r, o).<Some.0> -> (function, r)"""
    if x[0] == 'fld' and x[2] == 'Option::Some.0' and x[1][0] == 'app' and x[1][1] in ('RANGE', 'OFF2POS'): return x[1][1], text(x[1][2])
    return None


def offsets(t, rope):
    """Offsets of the document in a hand-written conversion, as byte locations."""
    inp, names = {}, {}
    for x in walk_all(t):
        x1 = strip_ok(x)
        if x1[0] == 'app' and re.match(r'^Rope(Slice)?::byte_to_\w+$', x1[1]) and text(x1[2]) == rope:
            a = x1[3]
            if a[0] in ('fld', 'sym') and a not in inp: inp[a] = ('byte', ('sym', 'L%d' % len(inp)))
    return inp


class Flow:
    def __init__(self, rep, key, where, rope, what):
        self.rep, self.key, self.where, self.rope, self.what = rep, key, where, rope, what
        self.good = 0

    def bad(self, t, msg):
        u = uninterpreted(t)
        if u: self.rep.unsure(self.key, self.where, '%s: %s `%s` (not interpreted: %s)' % (self.what, msg, text(t)[:200], ', '.join(map(str, u))[:200]))
        else: self.rep.violation(self.key, self.where, '%s: %s `%s`' % (self.what, msg, text(t)[:400]))

    def each(self, t, f):
        if t[0] == 'choice':
            for _, y in t[1]: self.each(y, f)
        else: f(t)

    def range(self, t):
        r = rope_of(t)
        if r and r[0] == 'RANGE': return self.rope_is(t, r[1])
        if t[0] == 'agg' and short(t[1]) == 'Range':
            for n, v in t[3]: self.each(v, self.pos)
            return
        if text(t).startswith('params.'): self.good += 1; return
        if t[0] == 'sym' and t[1].startswith('new:'): return
        self.bad(t, 'the range is not computed from the text of the document:')

    def rope_is(self, t, r):
        if r == self.rope or self.rope == STORED and re.match(r'^(DOC|DOCGET\(self\.document_map, .*\)\.<Some\.0>)\.rope$', r): self.good += 1
        else: self.bad(t, 'the position is computed with the text `%s` instead of that of the document:' % r[:100])

    def pos(self, t):
        r = rope_of(t)
        if r and r[0] == 'OFF2POS': return self.rope_is(t, r[1])
        if t[0] == 'fld' and t[2] in ('Range.start', 'Range.end'):
            return self.each(t[1], self.range)
        if text(t).startswith('params.'): self.good += 1; return
        if t[0] == 'agg' and short(t[1]) == 'Position':
            d = dict(t[3])
            if external(d['line']) or external(d['character']): self.good += 1; return      # a place in another file (C14, C22)
            rope = next((x for x in walk_all(t) if text(x) == self.rope), None)
            if rope is not None:
                inp = offsets(t, self.rope)
                f, assume = coords(rope, inp)
                for ln in ['L%d' % i for i in range(len(inp))]:
                    if text(mapterm(d['line'], f)) == 'at:line(%s)' % ln and text(mapterm(d['character'], f)) == POS % (ln, ln): self.good += 1; return
                t2 = mapterm(t, f)
                return self.bad(t2, 'the position is not the line and the UTF-16 offset of a place in the text:')
        self.bad(t, 'the position is not computed from the text of the document:')

    def line(self, t):
        t = strip_ok(t)
        if t[0] == 'fld' and t[2] == 'Position.line': return self.each(t[1], self.pos)
        self.bad(t, 'the line is not computed from the text of the document:')


def external(t):
    s = text(t)
    return 'external' in s or '.location' in s or 'frame' in s.lower() or 'BTPARSE' in s


def flow_lemma(ctx, rep):
    """Outgoing positions of all handlers and of the published diagnostics; incoming positions."""
    n = 0
    for h in ctx.handlers():
        r = ctx.handler(h)
        uri = next((u for u in URIS if any(text(x) == u for x in walk_all(r.ret))), None)
        if uri is None: uri = next((u for u in URIS if any(text(x) == u for e in r.events for a in e.args for x in walk_all(a))), None)
        t = mapterm(r.ret, abbreviate(uri))
        rope = 'DOC.rope'
        terms = [(t, rope)]
        if h in CHANGES:
            c = change(ctx, h)
            terms = [(a, 'ROPE') for k, nm, args, g, e in c.events if k == 'call' and nm == 'Client::publish_diagnostics' for a in args]
        elif h in ('code_action_resolve', 'code_action'): terms = [(t, STORED)]        # the document is the one of the action (C18)
        for t, rope in terms:
            for st, fn, kind, v in slots(t):
                n += 1
                if kind == 'range?':
                    if v[0] == 'agg' and v[2] == 'Some': v = v[3][0][1]
                    else: continue
                f = Flow(rep, 'flow:%s:%s.%s' % (h, st, fn), bat(r.body), rope, '`%s`: %s.%s' % (h, st, fn))
                f.each(v, {'range': f.range, 'range?': f.range, 'pos': f.pos, 'line': f.line}[kind])
                if f.good: rep.ok(f.good)
        # incoming positions
        for x in set(y for y in walk_all(mapterm(r.ret, abbreviate(uri))) if y[0] == 'app' and y[1] == 'POS2OFF'):
            n += 1
            if text(x[2]) == 'DOC.rope' and text(x[3]).startswith('params.'): rep.ok()
            elif uninterpreted(x): rep.unsure('flow:in:' + h, bat(r.body), 'the position `%s` is not interpreted' % text(x)[:200])
            else: rep.violation('flow:in:' + h, bat(r.body), '`%s` interprets `%s` in the text `%s`' % (h, text(x[3])[:100], text(x[2])[:100]))
    rep.count('positions_exchanged', n)
