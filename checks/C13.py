"""The control flow graph: one edge per branch target, of the requested function, well-formed."""
from lemmas import *
from grammar import grammar_lemma

A0, A1 = 'index(params.arguments, 0)', 'index(params.arguments, 1)'
BODY = 'DOC.index.function_bodies[*]'
BB = 'fb.basic_blocks[*]'
I = BB + '.instructions[*]'
COND = "%s.label∈{Some} & str.ends_with(%s.instruction.0, 'br') || %s.label∈{Some} & %s.instruction.0∈{switch}" % (BB, I, BB, I)
FROM, TO = '%s.label.<Some.0>.0' % BB, '%s.basic_block_refs[*].0' % I


def unescape(x):
    """Names contain neither quotes nor backslashes (see the tokenizer), escaping them changes nothing."""
    while x[0] == 'app' and x[1] in ('str.replace', 'str.replacen') and '"' in text(x[3]): x = x[2]
    while x[0] == 'app' and x[1] in ('str.replace', 'str.replacen') and '\\\\' in text(x[3]): x = x[2]
    return x


def group(its):
    """Maximal runs of pieces which are repeated under the same condition."""
    out = []
    for g, x, m in its:
        if m == '*' and out and out[-1][0] == '*' and set(out[-1][1]) == set(g): out[-1][2].append(x)
        elif m == '*': out.append(['*', g, [x]])
        elif out and out[-1][0] == 1 and set(out[-1][1]) == set(g): out[-1][2].append(x)
        else: out.append([1, g, [x]])
    return out


def flat(parts):
    """Text with placeholders for the symbolic pieces."""
    out, syms = '', []
    for x in parts:
        for g, y, m in cat_items(x):
            if g or m != 1: return None, None
            if y[0] in ('s', 'c'): out += y[1]
            else:
                out += '\x00%d\x01' % len(syms)
                syms.append(unescape(y))
    return out, syms


HEADER = re.compile(r'^((//|#)[^\n]*\n|\s|/\*.*?\*/)*(strict\s+)?digraph\s+("?\w+"?)?\s*\{\s*(((node|edge|graph)\s*\[[^\]\x00]*\]|\w+\s*=\s*[\w"]+)\s*;?\s*)*$', re.S)
EDGE = re.compile(r'^\s*"\x00(\d+)\x01"\s*->\s*"\x00(\d+)\x01"\s*(\[[^\]\x00]*\])?\s*;?\s*$')


def dot(ctx, rep):
    B = ctx.anchor.get('CFGDOT')
    if B is None: return rep.unsure('dot', '-', 'no function which renders the graph of a function body')
    rep.count('functions_analysed')
    r = ctx.run(B, opaque=(), names=['fb'])
    where = bat(B)
    alts = item_norm([(EMPTY, r.ret, 1)], assume_std)
    for e in r.events:
        if e.kind == 'reorder': rep.unsure('dot:order', at(e), 'the order of the edges is changed')
    def bad(key, msg):
        u = uninterpreted(r.ret)
        if u: rep.unsure(key, where, msg + ' (not interpreted: %s)' % ', '.join(u)[:200])
        else: rep.violation(key, where, msg)
    if len(alts) != 1: return bad('dot', 'the text depends on `%s`' % ' / '.join(dtext(g)[:200] for g, x, m in alts))
    gs = group(cat_norm(cat_items(alts[0][1]), assume_std))
    if not gs or len(gs) < 2: return bad('dot', 'the text is `%s`' % text(alts[0][1])[:400])
    tx = [(k, g) + flat(ps) for k, g, ps in gs]
    if any(t is None for k, g, t, s in tx): return rep.unsure('dot', where, 'the text `%s` is not interpreted' % text(alts[0][1])[:400])
    # everything in front of the first edge
    head, tail = tx[0], tx[-1]
    if head[0] != 1 or dtext(head[1]) not in ('', 'true'): return bad('dot:header', 'the text starts with `%s`' % head[2][:200])
    if not HEADER.match(head[2]): bad('dot:header', 'the text in front of the edges is no start of a directed graph: `%s`' % head[2][-200:])
    else: rep.ok()
    if tail[0] != 1 or tail[2].strip() != '}': bad('dot:end', 'the text ends with `%s`' % tail[2][-200:])
    else: rep.ok()
    edges = [x for x in tx[1:-1]]
    found = []
    for k, g, t, s in edges:
        m = EDGE.match(t)
        if k != '*' or not m:
            bad('dot:extra', 'the graph contains `%s` if %s' % (re.sub(r'\x00(\d+)\x01', lambda m: '{%s}' % text(s[int(m.group(1))])[:80], t)[:300], dtext(g)[:300]))
            continue
        a, b = text(s[int(m.group(1))]), text(s[int(m.group(2))])
        if (a, b) != (FROM, TO): bad('dot:edge', 'an edge leads from `%s` to `%s`, expected from the label of the block to the branch target' % (a[:200], b[:200]))
        # (the same edge need not be drawn twice)
        else: found += [frozenset(l for l in c if gtext(frozenset([l])) != '!eq(previous(%s).0, %s)' % (TO[:-2], TO)) for c in g]
        rep.count('edge_kinds')
    # a search which succeeds: with what it searches for, this element is found
    both = {l[0] for c in found for l in c if l[0][0] == 'exhausted' and (True in l[2]) == l[1]}
    found = [frozenset(l for l in c if l[0][0] != 'exhausted' or l[0] in both) for c in found]
    try: e = equivalent(parse_guard(COND), todnf(found))
    except TooBig: return rep.unsure('dot:condition', where, 'too many conditions')
    if e is not None: bad('dot:condition', 'an edge is drawn if `%s`, expected for every target of every branching instruction of a labelled block (they differ e.g. for %s)' % (dtext(found)[:600], ', '.join('%s=%s' % kv for kv in sorted(e.items()))[:300]))
    else:
        rep.ok()
        rep.sample('graph: an edge "label" -> "target" for each target of each instruction if %s' % COND)


def command(ctx, rep):
    r = ctx.handler('execute_command')
    if r is None: return rep.violation('missing', '-', 'the server does not implement `execute_command`')
    rep.count('handlers_analysed')
    where = bat(r.body)
    NAME = A1 + '.<String.0>'
    def short_(x):
        if x[0] == 'app' and x[1] == 'DOCGET' and text(x[3]) == A0 + '.<String.0>': return ('sym', 'DOC?')
        if x[0] == 'exhausted' or x[0] == 'app' and x[1] == 'exhausted': return ('sym', 'NOTFOUND')
        if x[0] == 'eq' and {text(x[1]), text(x[2])} == {NAME, BODY + '.name.0'}: return ('sym', 'SAMENAME')
        if x[0] == 'app' and x[1] == 'await' and x[2][0] == 'app' and x[2][1] == 'Client::send_request': return ('sym', 'SENT?')
        return x
    ab = abbreviate()
    def f(x):
        y = short_(ab(x))
        if y is not x and x in DOM: DOM.setdefault(y, DOM[x])
        return y
    def assume(l):
        # the search ends with a body of that name unless there is none
        if l[0] == ('sym', 'NOTFOUND'): return None
        return assume_std(l)
    t = mapterm(r.ret, f)
    CALL = 'params.command∈{visualize-cfg} & len(params.arguments)∈{2} & %s∈{String} & %s∈{String}' % (A0, A1)
    FOUND = CALL + ' & DOC?∈{Some} & !NOTFOUND & SAMENAME'
    evs = []
    for e in r.events:
        if e.kind == 'call' and models.norm(e.name) in ('Client::send_request', 'Client::send_notification'):
            evs.append(('call', [mapterm(a, f) for a in e.args[1:]], [mapterm(c, f) for c in e.guard], e))
            rep.count('messages_to_the_client')
    d = match_events(evs, [('call', ['ShowGraphParams{dot_graph: CFGDOT(%s)}' % BODY], FOUND, 'showing the graph of the function with the requested name in the requested document')], assume)
    report_events(rep, 'command', where, d)
    alts = item_norm([(EMPTY, t, 1)], assume)
    for g, y, m in alts:
        if text(y) == 'Ok{0: None}':
            try: e = equivalent(parse_guard(FOUND + ' & SENT?∈{Ok}'), todnf(g))
            except TooBig: e = None
            if e: rep.unsure('command:answer', where, 'the answer is null if %s' % dtext(g)[:500])
            else: rep.ok()
        elif y[0] == 'agg' and y[2] == 'Err': rep.ok()
        else: rep.unsure('command:answer', where, 'the answer is `%s` if %s' % (text(y)[:200], dtext(g)[:300]))
    rep.floor('messages_to_the_client', 1)


def run(ctx, rep):
    rep.rule('the rendered text is a digraph with exactly one quoted edge per branch target of each branching instruction of each labelled block; the command renders the body with the requested name of the requested document and sends it once')
    dot(ctx, rep)
    command(ctx, rep)
    branching_lemma(ctx, rep)
    index_lemma(ctx, rep, parts=('bodies',))
    grammar_lemma(ctx, rep, {'PARSER': ['Instruction', 'Statement']})
    rep.floor('functions_analysed', 2)
