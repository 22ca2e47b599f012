"""Pretty-printer for the extracted MIR (debugging aid)."""
import json, sys
def place(p):
    r = '_%d' % p['l']
    for e in p['p']:
        if e == '*': r = '(*%s)' % r
        elif e == 'cast': r += ' as cast'
        elif e[0] == 'f': r += '.' + e[2]
        elif e[0] == 'd': r = '(%s as %s)' % (r, e[2])
        elif e[0] == 'i': r += '[_%d]' % e[1]
        else: r += str(e)
    return r
def op(o, d):
    if o[0] in 'cm': return ('move ' if o[0] == 'm' else '') + place(o[1])
    if o[0] == 'k':
        k = o[1]
        if 'promoted' in k: return 'promoted%s' % k['promoted'][1]
        if 'named' in k: return 'const ' + k['named'] + str(k.get('val', ''))
        ty = d['types'][k['t']]
        v = k.get('val', {})
        if 'zst' in v: return ty.get('fn', {}).get('path') or ty['s']
        return 'const %s' % (list(v.values())[0] if v else '?')
    return str(o)
def rv(r, d):
    k = r[0]
    if k == 'use': return op(r[1], d)
    if k == 'ref': return '&%s %s' % (r[1], place(r[2]))
    if k == 'cast': return '%s as %s (%s)' % (op(r[2], d), d['types'][r[3]]['s'], r[1])
    if k == 'bin': return '%s(%s, %s)' % (r[1], op(r[2], d), op(r[3], d))
    if k == 'un': return '%s(%s)' % (r[1], op(r[2], d))
    if k == 'discr': return 'discr(%s)' % place(r[1])
    if k == 'agg': return '%s{%s}' % (r[1][1:4], ', '.join(op(o, d) for o in r[2]))
    return str(r)
def body(b, d):
    print('fn', b.get('key', '<promoted>'), 'args', b['argc'], 'span', b.get('span'))
    for n, p, a in b['dbg']: print('   dbg', n, '=', place(p), a)
    for i, t in enumerate(b['locals']): print('   let _%d: %s' % (i, d['types'][t]['s'][:150]))
    for i, bl in enumerate(b['blocks']):
        if bl['cleanup']: continue
        print('  bb%d:' % i)
        for st in bl['s']:
            if st[0] == '=': print('    %s = %s' % (place(st[1]), rv(st[2], d)))
            elif st[0] in ('dead', 'live'): pass
            else: print('   ', st)
        t = bl['t']
        if t[0] == 'call':
            c = t[1]
            n = c.get('path') or op(c['op'], d)
            if 'res' in c: n += ' => ' + c['res']['key']
            print('    %s = CALL %s(%s) -> %s   [%s]' % (place(t[3]), n, ', '.join(op(o, d) for o in t[2]), t[4], bl['sp'][1]))
        elif t[0] == 'switch': print('    switch %s %s else %s' % (op(t[1], d), t[2], t[3]))
        elif t[0] == 'drop': print('    drop %s -> %s' % (place(t[1]), t[2]))
        elif t[0] == 'assert': print('    assert %s %s %s -> %s' % (op(t[1], d), t[2], t[3][:2], t[4]))
        elif t[0] == 'yield': print('    yield -> %s' % t[2])
        else: print('    ', *t)
    for i, p in enumerate(b.get('promoted', [])):
        print(' promoted', i); body(p, d)
if __name__ == '__main__':
    for f in ('hyper_ir_lsp', 'bin'):
        d = json.load(open('%s/%s.json' % (sys.argv[1], f)))
        for b in d['bodies']:
            if sys.argv[2] in b['key']: body(b, d)
