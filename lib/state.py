"""Writes to the server's state (fields of the server, statics) found among the effects of a handler."""
import core
from lemmas import *

# methods of interior-mutability types which only read
READ = {'DashMap': {'get', 'try_get', 'contains_key', 'len', 'is_empty', 'iter', 'view', 'capacity', 'hasher', 'shards', 'clone', 'shrink_to_fit'},
        'Mutex': {'lock', 'try_lock', 'is_poisoned', 'new'}, 'RwLock': {'read', 'try_read', 'is_poisoned', 'write', 'try_write', 'new'}, 'RefCell': {'borrow', 'try_borrow', 'borrow_mut', 'try_borrow_mut', 'new'},
        'Cell': {'get', 'new', 'as_ptr'}, 'OnceCell': {'get', 'new'}, 'OnceLock': {'get', 'new'}}
# operations which replace or remove
WRITE = {'DashMap': {'insert', 'remove', 'remove_if', 'remove_if_mut', 'entry', 'try_entry', 'clear', 'retain', 'alter', 'alter_all'},
         'Cell': {'set', 'replace', 'take', 'swap', 'update'}, 'OnceCell': {'set', 'get_or_init'}, 'OnceLock': {'set', 'get_or_init'}, 'RefCell': {'replace', 'replace_with', 'swap', 'take'},
         'RwLock': set(), 'Mutex': {'set', 'replace'}}
ATOMIC = re.compile(r'^Atomic\w*::(store|swap|fetch_\w+|compare_\w+)$')
GETMUT = ('DashMap::get_mut', 'DashMap::try_get_mut', 'DashMap::iter_mut', 'RefMulti::value_mut', 'RefMut::value_mut', 'RefMutMulti::value_mut')
FREE = re.compile(r'^(mem::(replace|take|swap)|ptr::write)$')


def root(t):
    """The state a place belongs to: a field of the server, a static, or None."""
    while True:
        if t[0] == 'fld':
            if t[1] == ('sym', 'self'): return text(t)
            t = t[1]
        elif t[0] == 'sym': return t[1] if t[1].startswith('static ') else None
        elif t[0] == 'app' and len(t) > 2 and t[1] in ACCESS | PASS: t = t[2]
        elif t[0] in ('elem',): t = t[1]
        elif t[0] == 'app' and len(t) > 2 and isinstance(t[2], tuple) and t[1].split('::')[0] in MUT: t = t[2]
        elif t[0] == 'choice':
            for g, y in t[1]:
                r = root(y)
                if r: return r
            return None
        else: return None


ACCESS = {'LOCK', 'DOCGET', 'map.get', 'index', 'last', 'first', 'cell.get', 'call'} | set(GETMUT)
PASS = {'deref', 'deref_mut', 'Deref::deref', 'DerefMut::deref_mut', 'RefMut::value_mut', 'Ref::value', 'elem'}
MUT = {'DashMap', 'Mutex', 'RwLock', 'RefCell', 'Cell', 'OnceCell', 'OnceLock', 'RefMut', 'Ref', 'RwLockWriteGuard', 'MutexGuard'}


def writes(r):
    """[(state, event)] of everything a handler writes."""
    for e in r.events:
        if not e.args: continue
        if e.kind in ('write', 'push', 'extend', 'insert', 'mutate', 'map.insert', 'map.entry'):
            s = root(e.args[0])
            if s: yield s, e, True
        elif e.kind == 'call':
            n = models.norm(e.name)
            s = root(e.args[0])
            if not s: continue
            if '::' not in n: continue
            ty, m = n.rsplit('::', 1)
            ty = ty.rsplit('::', 1)[-1]
            tys = (e.extra or {}).get('tys') or []
            if ATOMIC.match('%s::%s' % (ty, m)): yield s, e, True
            elif ty in WRITE and m in WRITE[ty]: yield s, e, True
            elif ty in READ and m in READ[ty]: pass
            elif n in GETMUT: pass
            elif FREE.match(n): yield s, e, True
            elif tys and tys[0].startswith('&mut ') and not re.search(r'(Iter|iter::|Guard|RefMut|deref_mut|into_iter|next$)', tys[0] + n): yield s, e, False


# ---------------------------------------------------------------- functions without memory
# which results a property speaks about
MEMORY = {'C03': ('PARSE', 'INDEX', 'SEMTOK', 'RANGE', 'OFF2POS'), 'C04': ('POS2OFF', 'OFF2POS', 'RANGE'), 'C07': ('SANITIZE', 'BTHINT'), 'C09': ('SEMTOK', 'PARSE'), 'C10': ('FINDSYM', 'USEDEFS', 'UDLIST'),
          'C11': ('FINDSYM', 'USEDEFS', 'EDITS', 'PARSE'), 'C12': ('PARSE', 'INDEX'), 'C13': ('CFGDOT', 'BRANCHING'), 'C14': ('PARSE',), 'C15': ('INDEX',), 'C16': ('INDEX', 'USEDEFS'), 'C17': ('INDEX',),
          'C19': ('RESOLVE', 'BTPARSE'), 'C20': ('NUM', 'SHIFT'), 'C21': ('NUM', 'SHIFT', 'EDITS'), 'C22': ('BTHINT', 'BTPARSE', 'INDEX'), 'C06': tuple(core.ANCHORS)}


def same_value(x, p):
    """x is the parameter p, perhaps converted or copied."""
    while x != p:
        if x[0] == 'app' and len(x) == 3 and x[1] in ('display', 'to_owned', 'str.to_string', 'clone'): x = x[2]
        else: return False
    return True


def hidden(ctx, rep, pid):
    """The functions behind the answers have no memory: their results do not depend on what they stored in an earlier call."""
    for a in MEMORY.get(pid, ()):
        B = ctx.anchor.get(a)
        if B is None: continue
        try: r = ctx.run(B)
        except (TooBig, Abort): continue
        rep.count('functions_without_memory')
        st = {x for x in walk_all(r.ret) if x[0] == 'sym' and x[1].startswith('static ')}
        st |= {x[2] for x in walk_all(r.ret) if x[0] == 'app' and x[1] == 'firstcall'}
        # (what is entered into the result step by step counts as well)
        ts = [r.ret] + [t for e in r.events if e.kind in ('push', 'extend', 'insert', 'map.insert', 'map.entry') for t in list(e.args) + [l[0] for c in e.guard for l in c]]
        out = sorted({x[1] for t in ts for x in walk_all(t) if x[0] == 'app' and OUTSIDE.search(x[1])})
        if out: rep.violation('outside:' + a, bat(B), 'the result of `%s` depends on `%s`, not on its arguments alone' % (B.path.rsplit('::', 1)[-1], out[0]))
        if not st:
            rep.ok()
            continue
        s = sorted(st)[0]
        # a memo which is used only if all inputs are those of the call which filled it
        params = [x for x in r.eng.sym_args(B)]
        params = [x[1][1] if x[0] == 'mref' and x[1][0] == 'T' else x for x in params]
        eqs = set()
        for x in walk_all(r.ret):
            if x[0] == 'eq':
                for u, v in ((x[1], x[2]), (x[2], x[1])):
                    if any(y in st for y in walk_all(v)):
                        for p in params:
                            if same_value(u, p): eqs.add(p)
        m = 'the result of `%s` depends on `%s`, which an earlier call stored' % (B.path.rsplit('::', 1)[-1], s[1])
        if eqs >= set(params): rep.unsure('memory:' + a, bat(B), m + ' for the same arguments')
        else: rep.violation('memory:' + a, bat(B), m)
