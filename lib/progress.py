"""Loops which may go round without any change: a round which assigns nothing that is read in a later round, borrows nothing
of it mutably and calls nothing which could change, ends in the state it began with, so it is repeated for ever."""
import re

SHARED = re.compile(r'Atomic|Mutex|RwLock|Cell|Lock|DashMap|Receiver|Sender|Client|Semaphore|Condvar|Notify|Backend|Pin<|Stdin|Rc<|Arc<|\bdyn |fn\(|\bimpl |Instant|SystemTime')


def places(x, out):
    """The locals read by an rvalue or operand."""
    if isinstance(x, dict):
        if 'l' in x and 'p' in x:
            out.add(x['l'])
            for e in x['p']:
                if isinstance(e, list) and e[0] == 'i': out.add(e[1])
    elif isinstance(x, list):
        for y in x: places(y, out)
    return out


def types(B, x):
    """The types of the places read."""
    if isinstance(x, dict):
        if 'l' in x and 'p' in x: return [B.ty(x['t'])['s'] if 't' in x else B.local_ty(x['l'])['s']]
        return []
    return [t for y in x for t in types(B, y)] if isinstance(x, list) else []


def effects(B, i):
    """[(reads, assigned local or None, writes through a pointer, mutably borrowed local or None)] of a block."""
    out = []
    b = B.blocks[i]
    def target(p):
        r = set(e[1] for e in p['p'] if isinstance(e, list) and e[0] == 'i')
        if '*' in p['p']: return r | {p['l']}, None, True, False
        return r, p['l'], False, not p['p']
    for s in b['s']:
        if s[0] != '=': continue
        r, l, deref, whole = target(s[1])
        mb = None
        rv = s[2]
        if rv[0] == 'ref' and rv[1] not in ('shared', '', 'imm', 'fake'): mb = rv[2]['l']
        flag = l is not None and whole and rv[0] == 'use' and rv[1][0] == 'k' and B.local_ty(l)['s'] == 'bool' and not B.varname(l)
        if rv[0] in ('agg', 'ref') and any(SHARED.search(t) for t in types(B, rv[1:])): deref = True
        out.append((r | places(rv[1:], set()), None if flag else l, whole, deref, mb))
    t = b['t']
    if t[0] == 'call':
        r, l, deref, whole = target(t[3])
        # what is called may change with every call
        change = not t[2] or any('*mut' in x or SHARED.search(x) for x in types(B, t[2]))
        out.append((r | places(t[2], set()), l, whole, deref or change, None))
    elif t[0] in ('switch', 'assert'): out.append((places(t[1:], set()), None, False, False, None))
    elif t[0] == 'yield': out.append((set(), None, False, True, None))
    return out


def idle_rounds(B):
    """(header, blocks of an idle round, number of decisions on it by which it avoids a change)."""
    c = B.cfg()
    out = []
    for h, L in c.loops.items():
        ef = {b: effects(B, b) for b in L}
        live = {b: set() for b in L}
        ch = True
        while ch:
            ch = False
            for b in L:
                s = set()
                for x in c.succ[b]:
                    if x in L: s |= live[x]
                for r, l, whole, _, _ in reversed(ef[b]):
                    if l is not None and whole: s.discard(l)
                    s |= r
                if s != live[b]:
                    live[b] = s
                    ch = True
        carried = live[h]
        busy = {b for b in L if any(d or (l in carried) or (m is not None and m in carried) for r, l, w, d, m in ef[b])}
        if h in busy: continue
        # the shortest way round which avoids them
        prev = {}
        todo = [h]
        end = None
        for x in todo:
            for s in c.succ[x]:
                if s not in L or s in busy: continue
                if s == h and end is None: end = x
                elif s != h and s not in prev:
                    prev[s] = x
                    todo.append(s)
        if end is None: continue
        way = [end]
        while way[-1] != h: way.append(prev[way[-1]])
        way.reverse()
        # decisions by which a change is avoided
        def changes(b):
            seen, st = {b}, [b]
            while st:
                x = st.pop()
                if x in busy: return True
                for s in c.succ[x]:
                    if s in L and s != h and s not in seen:
                        seen.add(s)
                        st.append(s)
            return False
        n = sum(1 for j, x in enumerate(way) if any(s in L and s != h and s != (way + [h])[j + 1] and changes(s) for s in c.succ[x]))
        out.append((h, way, n))
    return out
