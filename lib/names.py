"""Names carry no meaning: the types, fields and variants of the analysed program are mapped onto the names
of the reference shapes (lib/shapes.json), by name where it is the same, otherwise by shape.

Only names change; a struct with another shape stays as it is.  The wire format of a message to the client is
given by its field names, so these are never mapped."""
import json, os, re

HERE = os.path.dirname(os.path.abspath(__file__))
WIRE = ('ShowGraphParams', 'ShowGraphResponse')


def shape_of(j):
    out = {}
    for k, v in j['adts'].items():
        if v and v.get('local') and '<' not in k and '::_::' not in k and '__' not in k.rsplit('::', 1)[-1]:
            out[k] = {'kind': v['kind'], 'variants': [[x['name'], x['fields']] for x in v['variants']]}
    return out


def spellings(path):
    """A path as it is written in types: without the name of the crate inside of the crate."""
    c, rest = path.split('::', 1)
    return [path, rest]


def pattern(path):
    c, rest = path.split('::', 1)
    return re.compile(r'(?<![\w:])((?:%s::)?)%s(?!\w)' % (c, re.escape(rest)))


def last(p): return p.rsplit('::', 1)[-1]


def anonymous(t, locals_):
    for p in locals_: t = pattern(p).sub('@', t)
    return t


def similarity(a, b, la, lb):
    """How much two shapes have in common (0..1)."""
    if a['kind'] != b['kind']: return 0
    if a['kind'] == 'enum':
        x, y = {v for v, _ in a['variants']}, {v for v, _ in b['variants']}
        if not x and not y: return 0.5
        sa = [len(f) for _, f in a['variants']]
        sb = [len(f) for _, f in b['variants']]
        return (2 * len(x & y) / (len(x) + len(y)) + (sa == sb)) / 2
    fa, fb = a['variants'][0][1], b['variants'][0][1]
    x, y = {f[0] for f in fa}, {f[0] for f in fb}
    if not x and not y: return 0.5
    names = 2 * len(x & y) / max(1, len(x) + len(y))
    ta, tb = [anonymous(f[1], la) for f in fa], [anonymous(f[1], lb) for f in fb]
    rest = list(tb)
    n = 0
    for t in ta:
        if t in rest:
            rest.remove(t)
            n += 1
    types = 2 * n / (len(ta) + len(tb))
    return (names + types) / 2


def match(cur, ref):
    """{current path: reference path} for all pairs with different paths."""
    out = {p: p for p in ref if p in cur}
    a = [p for p in cur if p not in out]
    b = [p for p in ref if p not in out]
    ps = []
    for p in a:
        for q in b:
            s = similarity(cur[p], ref[q], list(cur), list(ref))
            if last(p) == last(q): s += 1
            if s >= 0.45: ps.append((s, p, q))
    ps.sort(key=lambda x: (-x[0], x[1], x[2]))
    done = set()
    for s, p, q in ps:
        if p in out or q in done: continue
        out[p] = q
        done.add(q)
    return out


def pairs(cur, ref, key):
    """Renamed entries: [(current, reference)], by type and order; entries with the same name stay."""
    cn, rn = [x[0] for x in cur], [x[0] for x in ref]
    a = [x for x in cur if x[0] not in rn]
    b = [x for x in ref if x[0] not in cn]
    out = []
    for x in a:
        for y in b:
            if key(x) == key(y):
                out.append((x[0], y[0]))
                b.remove(y)
                break
    return out


class Names:
    def __init__(self, crates):
        ref = json.load(open(os.path.join(HERE, 'shapes.json')))
        cur = {}
        for j in crates: cur.update(shape_of(j))
        self.types = match(cur, ref)
        self.moved = [(p, q) for p, q in self.types.items() if p != q]
        self.fields, self.variants = {}, {}
        for p, q in self.types.items():
            key = lambda x: self.name(str(x[1]))
            vs = pairs(cur[p]['variants'], ref[q]['variants'], lambda x: [self.name(t) for _, t in x[1]])
            if cur[p]['kind'] == 'enum' and vs: self.variants[q] = dict(vs)
            to = dict(vs)
            if last(q) in WIRE: continue
            for v, fs in cur[p]['variants']:
                w = to.get(v, v) if cur[p]['kind'] == 'enum' else last(q)
                r = next((f for n, f in ref[q]['variants'] if n == w), None)
                if r is None: continue
                ps = pairs(fs, r, key)
                if ps: self.fields[(q, w)] = dict(ps)

    def needed(self): return bool(self.moved or self.fields or self.variants)

    def name(self, s):
        """Paths of types inside of a text.  All at once: names may be exchanged."""
        if not self.moved: return s
        for i, (p, q) in enumerate(self.moved): s = pattern(p).sub(lambda m: '%s\0%d\0' % (m.group(1), i), s)
        def back(m):
            q = self.moved[int(m.group(1))][1]
            return q.split('::', 1)[1]
        s = re.sub(r'\0(\d+)\0', back, s)
        return s

    def field(self, owner, variant, f):
        d = self.fields.get((owner, variant))
        return d.get(f, f) if d else f

    def apply(self, j):
        j['types'] = self.walk(j['types'])
        adts = {}
        for k, v in j['adts'].items():
            q = self.name(k)
            if v:
                for x in v['variants']:
                    n = self.variants.get(q, {}).get(x['name'], x['name']) if v['kind'] == 'enum' else x['name']
                    if v['kind'] != 'enum' and q != k: n = last(q)
                    x['fields'] = [[self.field(q, n, f), self.name(t)] for f, t in x['fields']]
                    x['name'] = n
            adts[q] = v
        j['adts'] = adts
        j['impls'] = self.walk(j['impls'])
        j['bodies'] = self.walk(j['bodies'])
        return j

    def walk(self, x):
        if isinstance(x, str): return self.name(x)
        if isinstance(x, dict): return {k: self.entry(k, v) for k, v in x.items()}
        if not isinstance(x, list): return x
        if x and x[0] == 'adt' and len(x) > 3: return self.aggregate(x)
        return [self.walk(y) for y in x]

    def entry(self, k, v):
        if k in ('str', 'dbg', 'char'): return v
        if k == 'p' and isinstance(v, list): return self.projections(v)
        if k == 'ctor':
            o = self.name(v[0])
            return [o, last(o) if v[1] == last(v[0]) else self.variants.get(o, {}).get(v[1], v[1])]
        return self.walk(v)

    def aggregate(self, x):
        o = self.name(x[1])
        v = self.variants.get(o, {}).get(x[2], x[2])
        if o != x[1] and x[2] == last(x[1]): v = last(o)
        return ['adt', o, v, x[3], [self.field(o, v, f) for f in x[4]]] + [self.walk(y) for y in x[5:]]

    def projections(self, p):
        out = []
        variant = None
        for e in p:
            if isinstance(e, list) and len(e) == 4 and e[0] == 'd':
                o = self.name(e[3])
                variant = self.variants.get(o, {}).get(e[2], e[2])
                out.append(['d', e[1], variant, o])
            elif isinstance(e, list) and len(e) == 4 and e[0] == 'f':
                o = self.name(e[3])
                out.append(['f', e[1], self.field(o, variant or last(o), e[2]), o])
                variant = None
            else:
                out.append(e)
                variant = None
        return out


if __name__ == '__main__':
    # the shapes of the extracted program in the given directory
    import sys
    d = {}
    for c in ('hyper_ir_lsp', 'bin'): d.update(shape_of(json.load(open(os.path.join(sys.argv[1], c + '.json')))))
    json.dump(d, open(os.path.join(HERE, 'shapes.json'), 'w'), indent=1, sort_keys=True)
