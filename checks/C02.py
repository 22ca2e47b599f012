"""Never stuck: no lock is held while waiting, no lock is taken twice."""
import re
from lemmas import *
import calls
from guards import *
import progress


TRY = re.compile(r'Atomic\w*::(load|swap|compare_exchange\w*|compare_and_swap|fetch_\w+)$|::try_(lock|acquire|read|write|get|get_mut|recv)$')
SPIN = re.compile(r'::(spin_loop|yield_now|sleep)$')


def run(ctx, rep):
    rep.rule('no guard may be held at a suspension point; no lock operation which conflicts with a held guard of the same lock is reachable; handlers call nothing which blocks the thread; every loop has an exit and changes something in each round')
    G = Guards(ctx)
    hs = [ctx.prog.get(LS + h).key for h in ctx.handlers()]
    seen = calls.reachable(ctx, [k for k in calls.server_roots(ctx) if ctx.prog.bodies[k].path != 'bin::main'])
    fields = {}
    for f in (ctx.prog.adts.get('bin::Backend') or {'variants': []})['variants'][:1]:
        pass
    for k in seen:
        B = ctx.prog.bodies[k]
        if B.d['kind'] not in ('Fn', 'AssocFn', 'Closure', 'Coroutine'): continue
        rep.count('functions_analysed')
        gl, held = G.held(B)
        fn = B.path.replace('::{closure#0}', '')
        rep.count('values_holding_a_lock', len(gl))
        for i, b in enumerate(B.blocks):
            if b['cleanup']: continue
            t = b['t']
            sp = b['sp']
            where = '%s:%s in %s' % (sp[0], sp[1], B.path)
            if t[0] == 'yield':
                rep.count('suspension_points')
                hl = held.get((i, 't'), ())
                if hl and G.suspends_at(B, i):
                    g = gl[sorted(hl)[0]][0]
                    rep.violation('await:%s' % fn, where, 'a guard (`%s<%s>`, `%s`) may be held while the server waits; path: %s' % (g[0], g[1][:80], B.varname(sorted(hl)[0]) or 'a temporary value', calls.trail(ctx, seen, k)))
                else: rep.ok()
            if t[0] != 'call' or not t[1].get('path'): continue
            p = clean(t[1]['path'])
            if BLOCKING.search(p):
                rep.violation('blocking:%s:%s' % (fn, p), where, '`%s` blocks the thread which serves the client; path: %s' % (p, calls.trail(ctx, seen, k)))
            o = G.op(B, t[1]['path'], t[2])
            if o: rep.count('lock_operations')
            hl = held.get((i, 't'), ())
            if not hl: continue
            ops = G.site_ops(B, t)
            for l in hl:
                for g in gl[l]:
                    for (lock, kind), tr in ops.items():
                        rep.count('operations_under_a_lock')
                        if same(g, lock) and (kind == 'write' or writes(g)):
                            rep.violation('relock:%s:%s' % (fn, lock[0]), where, '`%s` on `%s<%s>` while a guard of it (`%s`) may be held: the thread waits for itself' % (tr, lock[0], lock[1][:60], B.varname(l) or 'a temporary value'))
                        else: rep.ok()
        c = B.cfg()
        for h, L in c.loops.items():
            rep.count('loops')
            if not any(s not in L for x in L for s in c.succ[x]) and not any(B.blocks[x]['t'][0] in ('return', 'yield') for x in L):
                rep.violation('loop:' + fn, '%s:%s in %s' % (B.blocks[h]['sp'][0], B.blocks[h]['sp'][1], B.path), 'a loop without exit')
            else: rep.ok()
            # a loop which tries again and again until another handler changes something: what it waits for is a lock
            ts = [B.blocks[x]['t'] for x in L]
            ps = [clean(t[1].get('path') or '') for t in ts if t[0] == 'call']
            if (any(t[0] == 'yield' for t in ts) or any(SPIN.search(p) for p in ps)) and any(TRY.search(p) for p in ps):
                rep.violation('spin:' + fn, '%s:%s in %s' % (B.blocks[h]['sp'][0], B.blocks[h]['sp'][1], B.path), 'a handler waits in a loop until another one releases what it holds (`%s`)' % next(p for p in ps if TRY.search(p)))
        for h, way, n in progress.idle_rounds(B):
            sp = B.blocks[way[-1]]['sp']
            txt = 'a round of the loop at line %s may change nothing, so that it is repeated for ever (by way of line%s %s)' % (B.blocks[h]['sp'][1], '' if len(way) == 1 else 's', ', '.join(dict.fromkeys(str(B.blocks[x]['sp'][1]) for x in way)))
            if n <= 1: rep.violation('idle:' + fn, '%s:%s in %s' % (sp[0], sp[1], B.path), txt)
            else: rep.unsure('idle:' + fn, '%s:%s in %s' % (sp[0], sp[1], B.path), txt + ', unless the conditions on the way exclude each other')
    # with one message at a time, a handler which waits for the client keeps all other messages out
    for B in ctx.prog.bodies.values():
        if not B.path.startswith('bin::'): continue
        for b in B.blocks:
            t = b['t']
            if t[0] != 'call' or not (t[1].get('path') or '').endswith('::concurrency_level') or len(t[2]) < 2: continue
            o = t[2][1]
            n = ctx.engine().constant(B, o[1]) if o[0] == 'k' else None
            if n and n[0] == 'i' and n[1] < 2:
                rep.violation('concurrency', '%s:%s in %s' % (b['sp'][0], b['sp'][1], B.path), 'messages are served one at a time: while a handler waits for an answer of the client, no other message is served')
            elif n and n[0] == 'i': rep.ok()
            else: rep.unsure('concurrency', B.path, 'the number of messages served at a time is not a constant')
    # handlers take turns; what runs beside them could hold a lock at the same time
    for B in ctx.prog.bodies.values():
        for b in B.blocks:
            if b['t'][0] == 'call' and re.search(r'(^|::)spawn\w*$', clean(b['t'][1].get('path') or '')):
                rep.unsure('task:' + B.path, '%s:%s in %s' % (b['sp'][0], b['sp'][1], B.path), 'what is started here runs beside the handlers; the order in which both take locks is not compared')
    # messages are handled while another one waits: the store must be usable then (decided above); both writers are covered
    rep.sample('%d values which hold a lock, %d operations under a held lock' % (rep.cov.get('values_holding_a_lock', 0), rep.cov.get('operations_under_a_lock', 0)))
    rep.floor('functions_analysed', 200)
    rep.floor('suspension_points', 5)
    rep.floor('lock_operations', 15)
    rep.floor('operations_under_a_lock', 1)
