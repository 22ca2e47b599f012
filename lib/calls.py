"""Call graph of the workspace: every call and every function value of every body, with reachability from the server."""
import re
import models


def callees(B):
    """[(path, resolved key or None, argument operands, argument types, span, kind)] of a body: calls and function items used as values."""
    out = []
    def fnitem(o, sp):
        if o[0] == 'k':
            ty = B.ty(o[1]['t'])
            if ty['k'] == 'fndef':
                f = ty['fn']
                out.append((f.get('path'), (f.get('res') or {}).get('key') or f.get('key'), (), (), sp, 'value'))
    def rv(r, sp):
        for x in r[1:]:
            if isinstance(x, list):
                if x and x[0] in ('c', 'm', 'k') and len(x) == 2: fnitem(x, sp)
                elif r[0] == 'agg' and x is r[2]:
                    for o in x:
                        if isinstance(o, list) and o and o[0] == 'k': fnitem(o, sp)
    for b in B.blocks:
        if b['cleanup']: continue
        for s in b['s']:
            if s[0] == '=': rv(s[2], b['sp'])
        t = b['t']
        if t[0] == 'call':
            c = t[1]
            for o in t[2]: fnitem(o, b['sp'])
            if c.get('path'): out.append((c['path'], (c.get('res') or {}).get('key') or c.get('key'), t[2], (), b['sp'], 'call'))
    return out


def edges(ctx, B):
    """Bodies reachable in one step: callees, function values, closures and coroutines created here, promoted constants."""
    P = ctx.prog
    out = []
    for path, key, args, tys, sp, kind in callees(B):
        if key in P.bodies: out.append(key)
        elif path in P.bypath: out.append(P.bypath[path].key)
    pre = B.key + '::{closure'
    out += [k for k in P.bodies if k.startswith(pre)]
    return out


def reachable(ctx, roots):
    """{key: predecessor} of all bodies reachable from the roots."""
    seen = {}
    st = [(r, None) for r in roots]
    while st:
        k, p = st.pop()
        if k in seen or k not in ctx.prog.bodies: continue
        seen[k] = p
        for n in edges(ctx, ctx.prog.bodies[k]): st.append((n, k))
    return seen


def server_roots(ctx):
    """main, the handlers and every other trait implementation (called by dependencies)."""
    out = []
    for k, B in ctx.prog.bodies.items():
        if B.path == 'bin::main' or B.d.get('impl_trait'): out.append(k)
    return out


def trail(ctx, seen, k):
    out = []
    while k is not None:
        out.append(ctx.prog.bodies[k].path.rsplit('::', 1)[-1] if '{closure' not in ctx.prog.bodies[k].path.rsplit('::', 1)[-1] else '')
        k = seen[k]
    return ' <- '.join(x for x in out if x)
