"""Backtraces: workspace roots, resolution of source paths, the frames of an annotation."""
from lemmas import *

ROOT = 'root_paths[*]'


# ---------------------------------------------------------------- workspace roots
def roots_lemma(ctx, rep):
    """The roots are the workspace folders of the client, in order, else its root."""
    r = ctx.handler('initialize')
    if r is None: return rep.violation('missing:initialize', '-', 'the server does not implement `initialize`')
    rep.count('handlers_analysed')
    f = abbreviate()
    evs = []
    for e in r.events:
        if e.kind not in ('push', 'extend', 'write', 'insert', 'clear', 'call', 'reorder'): continue
        a = [mapterm(x, f) for x in e.args]
        if e.kind == 'reorder':
            if 'workspace_folders' in text(a[0]): rep.violation('roots:order', at(e), 'the workspace folders are not stored in the order of the client')
            continue
        if not a or not text(a[0]).startswith(('ROOTS', 'self.root_paths', 'LOCK(self.root_paths)')): continue
        n = models.norm(e.name) if e.kind == 'call' else ''
        if n in ('Mutex::lock', 'RwLock::write', 'RwLock::read', 'Result::unwrap', 'Vec::reserve') or text(a[0]) == 'self.root_paths': continue
        evs.append((e.kind if e.kind != 'call' else n, a, [mapterm(c, f) for c in e.guard], e))
    # one list of (value, condition), however it is stored
    got = []
    for kind, a, g, e in evs:
        g = apply_dnf(g, assume_std)
        v = a[-1]
        if kind == 'push': got += [(v, c, 1) for c in g]
        elif kind in ('extend', 'write', 'Vec::append') and v[0] == 'coll': got += [(x, y, m) for g2, x, m in v[1] for c in g for y in [conj_and(c, g2)] if y is not None]
        elif kind in ('Vec::clear', 'clear'): continue
        else: return rep.unsure('roots', at(e), 'the change `%s` of the roots is not interpreted' % text(v)[:200])
    d = OrderedDict()
    for x, g, m in got: d.setdefault((text(x), x, m), []).append(g)
    want = {'params.workspace_folders.<Some.0>[*].uri': 'params.workspace_folders∈{Some}', 'params.root_uri.<Some.0>': 'params.workspace_folders∈{None} & params.root_uri∈{Some}'}
    ok = True
    for (tx, x, m), gs in d.items():
        if tx not in want:
            (rep.unsure if uninterpreted(x) else rep.violation)('roots:extra', bat(r.body), 'the root `%s` is not a folder of the client' % tx[:200])
            ok = False
            continue
        e = equivalent(parse_guard(want.pop(tx)), todnf(gs))
        if e is not None:
            rep.violation('roots:condition', bat(r.body), 'the root `%s` is stored if %s' % (tx, dtext(gs)[:300]))
            ok = False
    for w in want:
        rep.violation('roots:missing', bat(r.body), '`%s` is never stored as a root' % w)
        ok = False
    if ok:
        rep.ok(2)
        rep.sample('roots: all workspace folders in order; the root URI only if there are no folders')


# ---------------------------------------------------------------- resolution
def resolve_lemma(ctx, rep):
    B = ctx.anchor.get('RESOLVE')
    if B is None: return rep.unsure('resolve', '-', 'no function which resolves a path')
    rep.count('functions_analysed')
    r = ctx.run(B, opaque=(), names=['root_paths', 'path'])
    where = bat(B)
    known = ('Url::path_segments_mut',)
    def f(x):
        if x[0] == 'exhausted': return ('sym', 'NOTFOUND')
        if x[0] == 'app' and x[1] in ('Path::exists', 'Path::is_file', 'Path::try_exists'): return ('app', 'EXISTS') + x[2:]
        return x
    def ff(x):
        y = f(x)
        if y is not x and x in DOM: DOM.setdefault(y, DOM[x])
        return y
    t = mapterm(r.ret, ff)
    U = 'Url::path_segments_mut(%s)' % ROOT
    P = 'Url::to_file_path(%s)' % U
    spec = [('Some{0: %s}' % U, '!NOTFOUND & %s∈{Ok} & %s∈{Ok} & EXISTS(%s.<Ok.0>)' % (U, P, P)), ('None', 'NOTFOUND')]
    try: d = Cmp(assume_std).cases(spec, t)
    except TooBig: return rep.unsure('resolve', where, 'too large')
    if judge(rep, 'resolve', where, d, t, known, '`%s`' % B.path): rep.sample('a path resolves to the first root + path which exists')
    n = 0
    for e in r.events:
        if e.kind == 'reorder': rep.violation('resolve:order', at(e), 'the roots are not tried in the order of the client')
        if e.kind != 'call': continue
        nm = models.norm(e.name)
        if nm.startswith('PathSegmentsMut::'):
            op = nm.split('::')[1]
            a = [text(x) for x in e.args[1:]]
            if op in ('pop_if_empty',): continue
            sp = "str.split(path, pred(eqc($c, /)))"
            if op == 'extend' and a == [sp] or op == 'extend' and a == ['[%s[*]*]' % sp] or op == 'push' and a == [sp + '[*]']: n += 1
            else:
                (rep.unsure if any(uninterpreted(x) for x in e.args[1:]) else rep.violation)('resolve:append:' + op, at(e), 'the path of the root is changed by `%s(%s)`, expected only appending the segments of the source path' % (op, ', '.join(a)[:200]))
    if n == 1: rep.ok()
    elif not d and n != 1: rep.violation('resolve:append', where, 'the segments of the source path are appended %d times' % n)


# ---------------------------------------------------------------- frames
BT = "Value::get(json, 'backtrace')"
ARR = BT + '.<Some.0>'
F = ARR + '.<Array.0>[*]'
FA = F + '.<Array.0>'
EN, EL = 'index(%s, 0)' % FA, 'index(%s, 1)' % FA
NAME, LINK = EN + '.<String.0>', EL + '.<String.0>'
SPLIT = 'str.split(%s, pred(eqc($c, :)))' % LINK
ONCE = 'str.split_once(%s, pred(eqc($c, :)))' % LINK
RONCE = 'str.rsplit_once(%s, pred(eqc($c, :)))' % LINK


def parse_lemma(ctx, rep, parts=('location', 'symbol')):
    """The frames of a backtrace annotation: case by case of what the JSON contains."""
    B = ctx.anchor.get('BTPARSE')
    if B is None: return rep.unsure('frames', '-', 'no function which reads backtraces')
    rep.count('functions_analysed')
    r = ctx.run(B, opaque=('RESOLVE',), names=['root_paths', 'json'])
    where = bat(B)
    # anything but an array has no backtrace
    for name, fix in (('no backtrace', {BT: 'None'}), ('not an array', {'json': 'Object', BT: 'Some', ARR: 'Object'})):
        t = restrict(r.ret, lambda x: fix.get(text(x)))
        if text(t) == 'None': rep.ok()
        else: bad(rep, 'frames:none', where, 'an annotation with %s is read as `%s`' % (name, text(t)[:200]), t)
    for nm in ('no array', 'absent', 'no string', 'empty', 'given'):
        for lk in ('absent', 'no string', 'one part', 'two parts, no number', 'two parts', 'three parts'):
            if nm in ('no array', 'absent') and lk != 'absent': continue
            for sep in ((True, False) if lk not in ('absent', 'no string') and nm != 'given' else (True,)):
                frame_case(rep, r, where, nm, lk, sep, parts)
    if not rep.viol: rep.sample('%d kinds of frames: path, line and symbol come from the frame; the location is resolved against the roots' % rep.cov.get('kinds_of_frames', 0))


def after_last(x):
    """(text, characters) if x is what follows the last of these characters in the text."""
    chars = lambda p: set(models.pred_chars(p) or ()) or None
    if x[0] == 'app' and x[1] == 'str.tail' and x[3][0] == 'add':
        for a, b in ((x[3][1], x[3][2]), (x[3][2], x[3][1])):
            if b != ('i', 1) or a[0] != 'fld' or a[2] != 'Option::Some.0': continue
            fs = a[1][2:] if a[1][0] == 'app' and a[1][1] == 'max' else (a[1],)
            cs = set()
            for y in fs:
                if y[0] != 'app' or y[1] != 'str.rfind' or y[2] != x[2] or not chars(y[3]): return None
                cs |= chars(y[3])
            if all(c.isascii() for c in cs): return x[2], cs
    y = None
    if x[0] == 'app' and x[1] == 'index' and x[3] == ('i', 0) and x[2][0] == 'app' and x[2][1] == 'str.rsplit': y = x[2]
    if x[0] == 'app' and x[1] == 'last' and x[2][0] == 'app' and x[2][1] == 'str.split': y = x[2]
    if x[0] == 'fld' and x[2].endswith('1') and x[1][0] == 'fld' and x[1][2] == 'Option::Some.0' and x[1][1][0] == 'app' and x[1][1][1] == 'str.rsplit_once': y = x[1][1]
    if y and chars(y[3]): return y[2], chars(y[3])
    return None


def frame_case(rep, r, where, nm, lk, sep, parts):
    rep.count('kinds_of_frames')
    n = {'one part': 1, 'three parts': 3}.get(lk, 2)
    def fix(x):
        tx = text(x)
        if tx == BT: return 'Some'
        if tx == 'json': return 'Object'
        if tx == ARR: return 'Array'
        if tx == F: return 'String' if nm == 'no array' else 'Array'
        size = 0 if nm in ('no array', 'absent') else 1 if lk == 'absent' else 2
        if tx == 'isempty(%s)' % FA: return size == 0
        if tx == 'len(%s)' % FA: return size
        if tx == 'lt(1, len(%s))' % FA: return size > 1
        if tx == 'lt(len(%s), 2)' % FA: return size < 2
        if tx == EN: return 'Number' if nm in ('absent', 'no string') else 'String'
        if tx == 'isempty(%s)' % NAME: return nm == 'empty'
        if tx == 'len(%s)' % NAME: return 0 if nm == 'empty' else 5
        if tx == NAME: return '' if nm == 'empty' else '·'
        if tx == EL: return 'Number' if lk in ('absent', 'no string') else 'String'
        if tx == 'len(%s)' % SPLIT: return n
        if tx in (ONCE, RONCE): return 'None' if n == 1 else 'Some'
        if tx.startswith('str.parse('):
            a = text(x[-1])
            if a == ONCE + '.<Some.0>.1' and n == 3: return 'Err'
            return 'Err' if lk == 'two parts, no number' else 'Ok'
        if x[0] == 'app' and x[1] in ('str.rfind', 'str.rsplit_once') or tx.startswith('max(str.rfind('): return 'Some' if sep else 'None'
        # there is always one part
        if x[0] == 'isempty' and x[1][0] == 'app' and x[1][1] in ('str.split', 'str.rsplit'): return False
        return None
    def f(x):
        tx = text(x)
        if tx in ('index(%s, 0)' % SPLIT, ONCE + '.<Some.0>.0') or n == 2 and tx == RONCE + '.<Some.0>.0': return ('sym', 'PATH')
        if tx in ('index(%s, 1)' % SPLIT, ONCE + '.<Some.0>.1') or n == 2 and tx == RONCE + '.<Some.0>.1': return ('sym', 'LINETXT')
        if tx == NAME: return ('sym', 'NAME')
        if tx == LINK: return ('sym', 'LINK')
        return x
    t = mapterm(restrict(r.ret, fix), lambda x: x)
    # path and line first: the names occur inside of them
    t = mapterm(t, lambda x: f(x) if x[0] in ('app', 'fld') and text(x) not in (NAME, LINK) else x)
    t = mapterm(t, f)
    def g(x):
        tx = text(x)
        if re.match(r"^str\.split\(LINK, pred\(eqc\(\$c, :\)\)\)$", tx): return x
        m = re.match(r"^index\(str\.split\(LINK, pred\(eqc\(\$c, :\)\)\), ([01])\)$", tx) or re.match(r"^str\.split_once\(LINK, pred\(eqc\(\$c, :\)\)\)\.<Some\.0>\.([01])$", tx)
        if m: return ('sym', 'PATH' if m.group(1) == '0' else 'LINETXT')
        return x
    t = mapterm(t, g)
    if not sep:
        # nothing to cut off
        def whole(x):
            p = after_last(x)
            return p[0] if p and p[1] <= {'/', '\\'} else x
        t = mapterm(t, whole)
    have = lk == 'two parts'
    loc = {'filepath': 'Some{0: PATH}' if have else 'None', 'line': "str.parse('std::result::Result<u32, std::num::ParseIntError>', LINETXT).<Ok.0>" if have else '0',
           'resolved_filepath': 'RESOLVE(root_paths, PATH)' if have else 'None'}
    if nm == 'given': sym = 'NAME'
    elif lk in ('absent', 'no string'): sym = "'<invalid>'"
    elif sep: sym = None
    else: sym = 'LINK'
    fields = dict(loc) if 'location' in parts else {}
    if 'symbol' in parts and sym: fields['symbol'] = sym
    key = 'frame:%s:%s' % (nm, lk)
    alts = item_norm([(EMPTY, t, 1)], assume_std)
    if len(alts) != 1 or alts[0][1][0] != 'agg' or alts[0][1][2] != 'Some' or alts[0][1][3][0][1][0] != 'coll':
        return bad(rep, key, where, 'a backtrace is read as `%s`' % text(t)[:300], t)
    its = item_norm(alts[0][1][3][0][1][1], assume_std)
    if len(its) != 1 or its[0][2] != '*' or equivalent([[]], todnf(its[0][0])) is not None:
        return bad(rep, key, where, 'a frame whose name is %s and whose location is %s is read as `%s`' % (nm, lk, '; '.join('%s if %s' % (text(x)[:200], dtext(g_)[:200]) for g_, x, m in its)[:600]), t)
    x = its[0][1]
    if x[0] != 'agg': return bad(rep, key, where, 'a frame is `%s`' % text(x)[:200], x)
    d = dict(x[3])
    def tidy(tx):
        tx = re.sub(r"^str\.tail\((.*), 0\)$", r'\1', tx)
        return tx
    if 'symbol' in parts and not sym:
        p = after_last(d.get('symbol', UNIT))
        if p is None or p[0] != ('sym', 'LINK'):
            msg = 'a frame whose name is %s is called `%s`, expected the last component of its path' % (nm, text(d.get('symbol', UNIT))[:200])
            if d.get('symbol') in (('sym', 'LINK'), ('sym', 'NAME'), ('sym', 'PATH')): return bad(rep, key, where, msg, x)
            return rep.unsure(key, where, msg)
        if p[1] != {'/', '\\'}: return bad(rep, key, where, 'a frame whose name is %s is called like what follows the last of `%s` in its path' % (nm, ' '.join(sorted(p[1]))), x)
    for k, w in fields.items():
        got = tidy(text(d.get(k, UNIT)))
        if got != w and not (k == 'resolved_filepath' and w == 'RESOLVE(root_paths, PATH)' and got == w):
            return bad(rep, key, where, 'a frame whose name is %s and whose location is %s has %s `%s`, expected `%s`' % (nm, lk, k, got[:300], w), x)
    rep.ok()


def bad(rep, key, where, msg, t):
    u = uninterpreted(t)
    # other ways to take the JSON apart are not modelled
    if any(x[0] == 'app' and x[1].startswith('Value::') and text(x) != BT for x in walk_all(t)): u.append('Value::')
    if u: rep.unsure(key, where, msg + ' (not interpreted: %s)' % ', '.join(u)[:200])
    else: rep.violation(key, where, msg)
