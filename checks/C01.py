"""No request, notification or document content makes the server panic."""
import re
from lemmas import *
import calls, models, panics
from panics import *


def relevant(e):
    if e.kind in ('unwrap', 'index', 'assert'): return True
    if e.kind in ('call', 'mutate'):
        x = e.extra or {}
        return bool(x.get('panics') or x.get('never') or EXPLICIT.search(e.name) or ROPE.match(models.norm(e.name)) or re.search(r'(^|::)(block_on|blocking_\w+)$', e.name))
    return False


def sites(B):
    """Operations of a body which can panic, in MIR."""
    for b in B.blocks:
        if b['cleanup']: continue
        t = b['t']
        if t[0] == 'assert': yield t[3][0], None, b['sp']
        elif t[0] == 'call':
            c = t[1]
            p = c.get('path') or '?'
            if c.get('panics') or (c.get('res') or {}).get('panics') or c.get('never') or EXPLICIT.search(p) or p.endswith(('Index::index', 'IndexMut::index_mut')):
                n = models.norm(p)
                if BENIGN.match(n) or BENIGN.match(n.rsplit('::', 1)[-1]): continue
                yield 'call', n, b['sp']


def contexts(ctx, rep):
    """[(name, result)] in which the reachable code is analysed."""
    out = []
    for h in ctx.handlers(): out.append((h, ctx.handler(h)))
    for a, B in sorted(ctx.anchor.items()):
        if B is None: continue
        try: out.append((a, ctx.run(B, opaque=())))
        except Abort: rep.unsure('budget:' + a, bat(B), 'too large')
    return out


def run(ctx, rep):
    rep.rule('every operation reachable from the server which can panic (failed check of an index, a range or an arithmetic operation; unwrap; explicit panic; library function with a documented panic) is unreachable or safe under every path condition leading to it')
    P = Panics(ctx, rep)
    seen = calls.reachable(ctx, calls.server_roots(ctx))
    analysed = set()
    todo = contexts(ctx, rep)
    for n, r in todo: analysed |= r.analysed
    # parsers: closures are evaluated on what the grammar gives them
    import grammar
    gram = grammar.closure_events(ctx)
    analysed |= {ctx.prog.bodies[k].path for k in gram.closures if k in ctx.prog.bodies}
    rest = []
    for k in sorted(seen):
        B = ctx.prog.bodies[k]
        if B.path in analysed or k in analysed or B.d.get('derived') or B.path == 'bin::main' or re.match(r'^bin::main::\{closure', B.path): continue
        if not list(sites(B)): continue
        try: rest.append((B.path, ctx.run(B)))
        except Abort: rep.unsure('budget:' + B.path, bat(B), 'too large')
    rep.count('functions_reachable', len(seen))
    rep.count('functions_analysed', len(analysed) + len(rest))
    n = sum(len(list(sites(ctx.prog.bodies[k]))) for k in seen if not ctx.prog.bodies[k].d.get('derived'))
    rep.count('operations_which_can_panic', n)
    for name, r in todo + rest:
        lv = LV(ctx, r.eng)
        for e in r.events:
            if relevant(e): judge_event(ctx, rep, P, name, r, e, lv)
    for e, prod in gram.events:
        if relevant(e): judge_event(ctx, rep, P, 'parser', gram.result(e, prod), e, None)
    for k in seen:
        B = ctx.prog.bodies[k]
        for path, key, args, tys, sp, kind in calls.callees(B):
            if re.match(r'^(std::process::(exit|abort)|std::intrinsics::abort)$', path or ''): rep.violation('exit:%s' % B.path, '%s:%s in %s' % (sp[0], sp[1], B.path), 'the process ends in `%s`' % path)
    recursion(ctx, rep, seen)
    if 'func_body_id' in P.used: body_ids(ctx, rep)
    rep.floor('functions_analysed', 150)
    rep.floor('operations_which_can_panic', 30)


def judge_event(ctx, rep, P, name, r, e, lv):
    rep.count('events_judged')
    v = P.event(r, e, lv)
    if v is None: return rep.ok()
    fn = re.sub(r'(::\{closure#\d+\})+$', '', e.fn or name)
    key = 'panic:%s:%s:%s' % (fn, e.kind, re.sub(r'\W+', '_', v[1])[:60])
    (rep.violation if v[0] else rep.unsure)(key, at(e), '`%s` (reached from `%s`): %s' % (e.name if e.kind != 'assert' else e.name, name, v[1]))


def recursion(ctx, rep, seen):
    """The depth of the calls inside of the server does not depend on the input."""
    import scc
    for c in scc.cycles({k: [n for n in calls.edges(ctx, ctx.prog.bodies[k]) if n in seen] for k in seen if not ctx.prog.bodies[k].d.get('derived')}):
        B = ctx.prog.bodies[min(c)]
        w = next((w for k in c for w in [linear(ctx.prog.bodies[k], c)] if w), None)
        if w:
            rep.violation('recursion:%s' % B.path, w[0], 'the function calls itself once for each item of its input (%s): the stack overflows for a long one' % w[1])
            continue
        rep.unsure('recursion:%s' % B.path, bat(B), 'the functions %s call each other: the depth of the stack is not bounded statically' % ', '.join(sorted(ctx.prog.bodies[k].path for k in c))[:300])
    rep.ok()


def linear(B, c):
    """A call back into the cycle c with the rest of a list, the same iterator or the next index: (where, what)."""
    defs = {}
    for b in B.blocks:
        for x in b['s']:
            if x[0] == '=' and not x[1]['p']: defs.setdefault(x[1]['l'], []).append(x[2])
        t = b['t']
        if t[0] == 'call' and not t[3]['p']: defs.setdefault(t[3]['l'], []).append(('call', re.sub(r'::<.*', '', t[1].get('path') or ''), t[2]))
    def of(p, n=0):
        for e in p['p']:
            if isinstance(e, list) and e[0] == 'sub': return 'the rest of a list'
        if n > 8 or len(defs.get(p['l'], ())) != 1: return None
        r = defs[p['l']][0]
        if r[0] == 'use' and r[1][0] in ('c', 'm'): return of(r[1][1], n + 1)
        if r[0] == 'ref': return of(r[2], n + 1)
        if r[0] == 'cast' and r[2][0] in ('c', 'm'): return of(r[2][1], n + 1)
        if r[0] == 'bin' and r[1].startswith('Add') and any(o[0] == 'k' for o in r[2:4] if isinstance(o, list)) and any(o[0] in ('c', 'm') for o in r[2:4] if isinstance(o, list)): return 'the next index'
        if r[0] == 'call':
            if r[1].endswith('Index>::index') or r[1].endswith('Index::index'):
                if len(r[2]) > 1 and r[2][1][0] in ('c', 'm') and 'RangeFrom<' in B.local_ty(r[2][1][1]['l'])['s']: return 'the rest of a list'
            if r[1].endswith(('split_first', 'Option::unwrap')) and r[2] and r[2][0][0] in ('c', 'm'):
                return 'the rest of a list' if r[1].endswith('split_first') else of(r[2][0][1], n + 1)
        return None
    for b in B.blocks:
        t = b['t']
        if t[0] != 'call' or t[1].get('key') not in c and not any(B.prog.bodies[k].path == (t[1].get('path') or '') for k in c): continue
        for o in t[2]:
            w = of(o[1]) if o[0] in ('c', 'm') else None
            if w: return '%s:%s in %s' % (b['sp'][0], b['sp'][1], B.path), w
    return None


def body_ids(ctx, rep):
    """Ids of function bodies in the symbols are indices of existing function bodies."""
    r, effects, bad, ren = index_effects(ctx)
    for kind, args, g, e in effects:
        if kind != 'map.insert' or not e.name.endswith('reverse_idx'): continue
        occ = args[2]
        for _, x in alts_of(occ):
            if x[0] != 'agg': continue
            for _, f in alts_of(dict(x[3]).get('func_body_id', NONE)):
                t = text(f)
                if t in ('None', 'Some{0: NEWID}', 'Some{0: ENCLID}'): rep.ok()
                else: rep.unsure('id', at(e), 'the function body of a symbol is `%s`' % t[:200])
