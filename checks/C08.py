"""Announced capabilities, implemented handlers, executed commands and the VS Code extension agree."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lemmas import *
from caps import states, encodings
from edits import serde_lemma, flag_value, LAZY_COND
from core import REPO, V
import core, re
from C09 import legend, classes

# capability -> handlers it promises
CAPS = {
    'definition_provider': ['goto_definition'], 'declaration_provider': ['goto_declaration'], 'type_definition_provider': ['goto_type_definition'],
    'implementation_provider': ['goto_implementation'], 'references_provider': ['references'], 'hover_provider': ['hover'],
    'completion_provider': ['completion'], 'signature_help_provider': ['signature_help'], 'document_highlight_provider': ['document_highlight'],
    'document_symbol_provider': ['document_symbol'], 'workspace_symbol_provider': ['symbol'], 'code_action_provider': ['code_action'],
    'code_lens_provider': ['code_lens'], 'document_formatting_provider': ['formatting'], 'document_range_formatting_provider': ['range_formatting'],
    'document_on_type_formatting_provider': ['on_type_formatting'], 'rename_provider': ['rename'], 'document_link_provider': ['document_link'],
    'color_provider': ['document_color', 'color_presentation'], 'folding_range_provider': ['folding_range'], 'selection_range_provider': ['selection_range'],
    'execute_command_provider': ['execute_command'], 'call_hierarchy_provider': ['prepare_call_hierarchy', 'incoming_calls', 'outgoing_calls'],
    'semantic_tokens_provider': [], 'moniker_provider': ['moniker'], 'linked_editing_range_provider': ['linked_editing_range'],
    'inline_value_provider': ['inline_value'], 'inlay_hint_provider': ['inlay_hint'], 'diagnostic_provider': ['diagnostic'],
}
# options below a capability -> handler
SUB = {('completion_provider', 'resolve_provider'): 'completion_resolve', ('code_lens_provider', 'resolve_provider'): 'code_lens_resolve',
       ('document_link_provider', 'resolve_provider'): 'document_link_resolve', ('inlay_hint_provider', 'resolve_provider'): 'inlay_hint_resolve',
       ('workspace_symbol_provider', 'resolve_provider'): 'symbol_resolve', ('rename_provider', 'prepare_provider'): 'prepare_rename',
       ('code_action_provider', 'resolve_provider'): 'code_action_resolve'}


def sub(t, name):
    """Values of the option of the given name below a capability."""
    out = [v for x in walk_all(t) if x[0] == 'agg' for n, v in x[3] if n == name]
    return out


def run(ctx, rep):
    rep.rule('the capabilities in the value returned by `initialize` are on exactly for the handlers the server implements; announced = executed commands, offered commands are among them with the argument count and kinds which are accepted; the method, parameters and result of the custom request agree with the request handler of the extension; language ids agree; the announced legend is the one used')
    r = ctx.handler('initialize')
    if r is None: return rep.violation('missing', '-', 'the server does not implement `initialize`')
    rep.count('handlers_analysed')
    impl = set(ctx.handlers())
    res = [x for x in walk_all(r.ret) if x[0] == 'agg' and short(x[1]) == 'InitializeResult']
    caps = [dict(x)['capabilities'] for x in (i[3] for i in res)]
    caps = [c for c in caps if c[0] == 'agg' and c[2] == 'ServerCapabilities']
    if not caps or len(caps) != len(res): return rep.unsure('capabilities', bat(r.body), 'the announced capabilities are not interpreted')
    dyn = any(models.norm(e.name or '').endswith('register_capability') for h in impl for e in ctx.handler(h).events if e.kind == 'call')
    for c in caps:
        c = dict(c[3])
        capabilities(ctx, rep, r, c, impl, dyn)
        sync(ctx, rep, r, c, impl)
        encodings(rep, r, dict(res[0][3]), c)
    commands(ctx, rep, r, caps)
    ts = extension()
    request(ctx, rep, ts)
    languages(rep, r, caps, ts)
    names = legend(ctx, rep)
    if names: classes(ctx, rep, names)
    rep.floor('capabilities', 20)
    rep.floor('handlers_analysed', 3)


def feature(rep, r, key, on, what, hs, impl, dyn):
    """A capability with the possible states `on` promises the handlers hs."""
    rep.count('capabilities')
    have = [h for h in hs if h in impl]
    if None in on: return rep.unsure(key, bat(r.body), '%s: the announced value is not interpreted' % what)
    if True in on and len(have) < len(hs): return rep.violation(key, bat(r.body), '%s is announced, but the server does not implement %s' % (what, ', '.join('`%s`' % h for h in hs if h not in impl)))
    if have and False in on:
        if dyn: return rep.unsure(key, bat(r.body), '%s may be registered dynamically' % what)
        return rep.violation(key, bat(r.body), 'the server implements %s, but %s is %s announced' % (', '.join('`%s`' % h for h in have), what, 'not always' if True in on else 'not'))
    rep.ok()


def capabilities(ctx, rep, r, c, impl, dyn):
    for f, hs in CAPS.items():
        if f not in c: continue
        if hs: feature(rep, r, 'cap:' + f, states(c[f]), '`%s`' % f, hs, impl, dyn)
        for h in hs:
            if h in impl and True in states(c[f]): answers(ctx, rep, h)
    for (f, o), h in SUB.items():
        if f not in c: continue
        vs = sub(c[f], o)
        on = set().union(*(states(v) for v in vs)) if vs else {False}
        what = '`%s.%s`' % (f, o)
        if h == 'code_action_resolve' and h in impl and vs and on != {True} and on != {False}:
            # lazy edits are used exactly for the clients which support them
            for v in vs:
                if v[0] == 'agg' and v[2] == 'Some': flag_value(rep, r, 'cap:%s.%s' % (f, o), bat(r.body), v[3][0][1], 'resolving is announced')
            continue
        feature(rep, r, 'cap:%s.%s' % (f, o), on, what, [h], impl, dyn)
    # semantic tokens
    t = c.get('semantic_tokens_provider')
    opts = [dict(x[3]) for x in walk_all(t) if x[0] == 'agg' and short(x[1]) == 'SemanticTokensOptions'] if t else []
    full, delta, rng = {False}, {False}, {False}
    if opts:
        o = opts[0]
        full = fullstate(o['full'])
        delta = set().union({False}, *(states(v) for v in sub(o['full'], 'delta')))
        if len(delta) > 1: delta.discard(False)
        rng = states(o['range'])
    elif True in states(t): full = delta = rng = {None}
    feature(rep, r, 'cap:semantic_tokens.full', full, 'semantic tokens (full)', ['semantic_tokens_full'], impl, dyn)
    feature(rep, r, 'cap:semantic_tokens.delta', delta, 'semantic tokens (delta)', ['semantic_tokens_full_delta'], impl, dyn)
    feature(rep, r, 'cap:semantic_tokens.range', rng, 'semantic tokens (range)', ['semantic_tokens_range'], impl, dyn)
    if 'semantic_tokens_full' in impl: answers(ctx, rep, 'semantic_tokens_full')


def fullstate(t):
    if t[0] == 'agg' and t[2] == 'Some': return fullstate(t[3][0][1])
    if t[0] == 'agg' and t[2] == 'Delta': return {True}
    return states(t)


def answers(ctx, rep, h):
    """An announced request is not rejected for all inputs."""
    r = ctx.handler(h)
    rep.count('handlers_analysed')
    al = alts_of(r.ret)
    if al and all(y[0] == 'agg' and y[2] == 'Err' for _, y in al): rep.violation('answers:' + h, bat(r.body), '`%s` is announced, but always answered with an error' % h)
    else: rep.ok()


def sync(ctx, rep, r, c, impl):
    t = c['text_document_sync']
    kinds = [text(x).rsplit('::', 1)[-1] for x in walk_all(t) if x[0] == 'const' and 'TextDocumentSyncKind' in x[1]]
    oc = sub(t, 'open_close')
    rep.count('capabilities')
    miss = [h for h in ('did_open', 'did_change') if h not in impl]
    if miss: return rep.violation('sync', bat(r.body), 'the server does not implement %s' % ', '.join(miss))
    if states(t) == {False} or 'NONE' in kinds or (oc and True not in set().union(*(states(v) for v in oc)) and None not in set().union(*(states(v) for v in oc))):
        return rep.violation('sync', bat(r.body), 'no document synchronisation is announced: `%s`' % text(t)[:200])
    if kinds == ['FULL']: return rep.ok()
    if 'INCREMENTAL' in kinds:
        ch = ctx.handler('did_change')
        if not any(x[0] == 'fld' and x[2].endswith('ContentChangeEvent.range') for e in ch.events for a in e.args for x in walk_all(a)):
            return rep.violation('sync', bat(r.body), 'incremental synchronisation is announced, but `did_change` takes each change as the full text')
    rep.unsure('sync', bat(r.body), 'the synchronisation mode `%s` is not interpreted' % text(t)[:200])


# ---------------------------------------------------------------- commands
def executed(ctx):
    """command -> [(number of arguments, {position: kind})] for the paths of `execute_command` which do not end in an error"""
    out, r = {}, ctx.handler('execute_command')
    gs = [(g, y) for g, y in alts_of(r.ret) if not (y[0] == 'agg' and y[2] == 'Err')]
    gs += [(g, None) for e in r.events if models.norm(e.name or '').endswith('Client::send_request') for g in e.guard]
    unknown = not gs
    for g, _ in gs:
        cmds, n, kinds = None, None, {}
        for l in g:
            s = text(l[0])
            if s == 'params.command' and l[1]: cmds = set(map(str, l[2]))
            elif l[0][0] == 'eq' and l[1] == (True in l[2]) and 'params.command' in (text(l[0][1]), text(l[0][2])):
                o = l[0][2] if text(l[0][1]) == 'params.command' else l[0][1]
                if o[0] == 's': cmds = {o[1]}
            elif s == 'len(params.arguments)' and l[1] and len(l[2]) == 1: n = list(l[2])[0]
            else:
                m = re.match(r'^index\(params\.arguments, (\d+)\)$', s)
                if m and l[1] and len(l[2]) == 1: kinds[int(m.group(1))] = list(l[2])[0]
        if cmds is None: unknown = True
        else:
            for c in cmds: out.setdefault(c, []).append((n, kinds))
    return out, unknown


def commands(ctx, rep, r, caps):
    ann = set()
    for c in caps:
        for v in sub(dict(c[3])['execute_command_provider'], 'commands'):
            if v[0] == 'coll' and all(y[0] == 's' and not g for g, y, m in v[1]): ann |= {y[1] for g, y, m in v[1]}
            else: return rep.unsure('commands', bat(r.body), 'the announced commands `%s` are not interpreted' % text(v)[:200])
    if 'execute_command' not in ctx.handlers(): ex, unknown = {}, False
    else: ex, unknown = executed(ctx)
    where = bat(ctx.handler('execute_command').body) if 'execute_command' in ctx.handlers() else bat(r.body)
    rep.count('handlers_analysed')
    if not unknown:
        for c in sorted(ann - set(ex)): rep.violation('command:' + c, where, 'the command `%s` is announced, but not executed' % c)
    for c in sorted(set(ex) - ann): rep.violation('command:' + c, bat(r.body), 'the command `%s` is executed, but not announced' % c)
    rep.count('commands', len(ann))
    rep.floor('commands', 1)
    rep.ok()
    for h in ctx.handlers():
        hr = ctx.handler(h)
        for x in walk_all(hr.ret):
            if x[0] != 'agg' or short(x[1]) != 'Command' or x[2] != 'Command': continue
            f = dict(x[3])
            rep.count('offered_commands')
            if f['command'][0] != 's':
                rep.unsure('offered:' + h, bat(hr.body), 'the command `%s` is not a constant' % text(f['command'])[:100]); continue
            c = f['command'][1]
            if c not in ann: rep.violation('offered:' + c, bat(hr.body), '`%s` offers the command `%s`, which is not announced' % (h, c)); continue
            if c not in ex: continue
            a = f['arguments']
            if a[0] == 'agg' and a[2] == 'Some': a = a[3][0][1]
            lists = offered_lists(a) if a[0] == 'coll' else [[]] if states(a) == {False} else None
            if lists is None:
                rep.unsure('offered:' + c, bat(hr.body), 'the arguments are not interpreted'); continue
            bad = None
            for args in lists: bad = bad or mismatch(ex[c], args)
            if bad: rep.violation('arguments:' + c, bat(hr.body), '`%s` offers the command `%s` %s' % (h, c, bad))
            else: rep.ok()


def offered_lists(a):
    """The argument lists which are possible, None if unknown"""
    if any(m != 1 for g, y, m in a[1]): return None
    gs = dedup([g for g, y, m in a[1] if g])
    if len(gs) > 6: return None
    out = []
    for n in range(1 << len(gs)):
        d = TRUE
        for k, g in enumerate(gs): d = dnf_and(d, (g,) if n >> k & 1 else tuple(frozenset([(l[0], not l[1]) + l[2:]]) for l in g))
        if d == FALSE: continue
        on = {g for k, g in enumerate(gs) if n >> k & 1}
        out.append([y for g, y, m in a[1] if not g or g in on])
    return out


def mismatch(ways, args):
    bad = None
    for n, kinds in ways:
        if n is None and not kinds: return None
        if n is not None and n != len(args): bad = bad or 'with %d arguments, but executed with %d' % (len(args), n)
        else:
            w = [(i, k, args[i][2]) for i, k in kinds.items() if i < len(args) and args[i][0] == 'agg' and args[i][2] and args[i][2] != k]
            if not w: return None
            bad = bad or 'with a %s as argument %d, but executed with a %s' % (w[0][2], w[0][0], w[0][1])
    return bad


# ---------------------------------------------------------------- the extension
def extension():
    d = os.path.join(REPO, 'vscode-extension')
    if not os.path.isdir(os.path.join(d, 'src')): return None
    p = subprocess.run(['node', os.path.join(V, 'lib', 'ts.js'), d], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode: return None
    j = json.loads(p.stdout)
    try: j['package'] = json.load(open(os.path.join(d, 'package.json')))
    except (OSError, ValueError): j['package'] = None
    return j


def w(x): return '%s:%s' % tuple(x)


def request(ctx, rep, ts):
    """Custom requests which the server sends are handled by the extension, with the same names."""
    if ts is None: return rep.unsure('extension', 'vscode-extension', 'the sources of the extension are not found or cannot be parsed')
    rep.count('extension_files', len(ts['files']))
    rep.count('extension_requests', len(ts['requests']))
    n = 0
    sent = {}
    for h in ctx.handlers():
        for e in ctx.handler(h).events:
            if e.kind == 'call' and models.norm(e.name).endswith('Client::send_request'):
                for ty in request_types(ctx, e): sent.setdefault(ty, []).append(e)
                if not request_types(ctx, e): rep.unsure('request:type', at(e), 'the type of the request is not known')
    for ty, es in sorted(sent.items()):
        e = es[0]
        im = [i for i in ctx.prog.impls if i['trait'].endswith('request::Request') and i['self'].rsplit('::', 1)[-1] == ty.rsplit('::', 1)[-1]]
        if not im: continue                        # a request of the protocol
        n += 1
        items = {i[0]: i for i in im[0]['items']}
        B = ctx.prog.bodies.get(items['METHOD'][1])
        m = ctx.run(B, opaque=()).ret if B is not None else None
        if m is None or m[0] != 's': rep.unsure('request:method', at(e), 'the method of `%s` is not a constant' % ty); continue
        m = m[1]
        hs = [q for q in ts['requests'] if q['method'] == m]
        if not hs:
            if any(q['method'] is None for q in ts['requests']): rep.unsure('request:method', at(e), 'a method name in the extension is not interpreted')
            else: rep.violation('request:method', at(e), 'the server sends the request `%s`, but the extension only handles %s' % (m, ', '.join('`%s`' % q['method'] for q in ts['requests']) or 'none'))
            continue
        if len(hs) > 1: rep.unsure('request:handlers', w(hs[1]['where']), 'more than one handler')
        q = hs[0]['handler']
        if q is None: rep.unsure('request:handler', w(hs[0]['where']), 'the handler is not interpreted'); continue
        params(ctx, rep, ty, items, e, q, m)
        returns(ctx, rep, items, q, m)
    rep.count('custom_requests', n)
    if not sent: rep.violation('request:none', '-', 'the server never sends a request to show a graph')
    if ts['clients'] and not ts['started']: rep.violation('extension:start', ts['files'][0], 'the language client is never started')
    else: rep.ok()


def request_types(ctx, e):
    """The request type of a call of `send_request::<T>`, from its generic arguments."""
    out = set()
    for b in ctx.prog.bodies.values():
        for bb in b.d['blocks']:
            t = bb.get('t')
            if t and t[0] == 'call' and isinstance(t[1], dict) and t[1].get('path', '').endswith('Client::send_request') and list(bb['sp'])[:3] == list(e.span)[:3]:
                out |= {b.ty(a)['s'] if isinstance(b.ty(a), dict) and 's' in b.ty(a) else str(b.ty(a)) for a in t[1].get('args', [])}
    return out


def params(ctx, rep, ty, items, e, q, m):
    pt = items['Params'][2].rsplit('::', 1)[-1] if len(items.get('Params', ())) > 2 else None
    names = serde_lemma(ctx, rep, pt) if pt else None
    if not names: return
    ser = [n for n, _ in names]
    rep.count('serialised_names', len(ser))
    for k in q['params']:
        if k not in ser: return rep.violation('request:params', w(q['where']), 'the handler of `%s` in the extension reads `%s`, but the server sends %s' % (m, k, ', '.join(ser)))
    # the graph is among the ones which are read
    arg = next((a for a in e.args if a[0] == 'agg'), None)
    by = {}
    for n, v in names: by[re.sub(r'[<>]', '', v).rsplit('.', 1)[-1]] = n
    graph = [by.get(f) for f, v in (arg[3] if arg else ()) if text(v).startswith('CFGDOT(')]
    if graph and graph[0] and not q['escapes']:
        g = graph[0]
        if g not in q['params']: return rep.violation('request:params', w(q['where']), 'the extension does not read the graph (`%s`) from the request' % g)
        flows = [f for f in q['flows'] if f['name'] == 'content']
        for f in flows:
            if f['from'] is not None and f['from'] != g: return rep.violation('request:content', w(f['where']), 'the extension shows `%s` instead of the graph `%s`' % (f['from'], g))
    elif not graph: rep.unsure('request:graph', at(e), 'the graph in the request `%s` is not interpreted' % (text(arg)[:200] if arg else '?'))
    rep.ok()


def returns(ctx, rep, items, q, m):
    rt = items['Result'][2] if len(items.get('Result', ())) > 2 else None
    if rt is None: return rep.unsure('request:result', w(q['where']), 'the result type is not known')
    if 'serde_json::Value' in rt and '<' not in rt or rt.endswith('Option<serde_json::Value>'): return rep.ok()
    need = None
    if rt != '()':
        a = [v for k, v in ctx.prog.adts.items() if k.split('::')[-1] == rt.rsplit('::', 1)[-1]]
        if '<' in rt or not a: return rep.unsure('request:result', w(q['where']), 'the result type `%s` is not interpreted' % rt)
        names = serde_lemma(ctx, rep, rt.rsplit('::', 1)[-1])
        if names is None: return
        need = [n for n, _ in names]
    todo = list(q['returns'])
    while todo:
        s = todo.pop()
        if s['kind'] == 'cond': todo += [dict(o, where=s.get('where', q['where'])) for o in s['of']]; continue
        if s['kind'] == 'unknown': rep.unsure('request:result', w(s.get('where', q['where'])), 'the result is not interpreted'); continue
        got = {'none': 'nothing', 'object': 'an object', 'other': 'a literal'}[s['kind']]
        ok = s['kind'] == 'none' if need is None else s['kind'] == 'object' and (('...' in s['keys']) or set(need) <= set(s['keys']))
        if ok: rep.ok()
        else: rep.violation('request:result', w(s.get('where', q['where'])), 'the handler of `%s` in the extension returns %s, the server expects %s' % (m, got, 'nothing' if need is None else 'an object with the fields {%s}' % ', '.join(need)))
    rep.count('handler_results', len(q['returns']))


def languages(rep, r, caps, ts):
    srv = set()
    for c in caps:
        for x in walk_all(c):
            if x[0] == 'agg' and x[2] == 'DocumentFilter':
                v = dict(x[3])['language']
                if v[0] == 'agg' and v[2] == 'Some' and v[3][0][1][0] == 's': srv.add(v[3][0][1][1])
                elif states(v) != {False}: return rep.unsure('language', bat(r.body), 'the language of the selector is not interpreted')
    if ts is None: return
    pk = {l.get('id') for l in (ts['package'] or {}).get('contributes', {}).get('languages', [])}
    ext = [s for s in ts['selectors']]
    if not ext: rep.violation('language:selector', ts['files'][0], 'the extension has no document selector')
    for s in ext:
        ls = {f.get('language') for f in s['filters']}
        if not s['exact'] or None in ls: rep.unsure('language:selector', w(s['where']), 'the document selector is not interpreted'); continue
        rep.count('language_ids', len(ls))
        if pk and not ls <= pk: rep.violation('language:selector', w(s['where']), 'the extension serves the languages %s, but package.json declares %s' % (sorted(ls), sorted(map(str, pk))))
        elif srv and not ls <= srv: rep.violation('language:server', bat(r.body), 'the server registers for the languages %s, the extension serves %s' % (sorted(srv), sorted(ls)))
        else: rep.ok()
