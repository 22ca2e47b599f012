#!/usr/bin/env python3
"""Development aid: systematic small changes of /repo/src. Each one which compiles and passes the tests is given to all checks; prints
what reports it. usage: [SHARD=i/n] mutate.py [regex of file or mutant id ...]"""
import importlib.util, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = importlib.util.spec_from_file_location('seed', os.path.join(V, 'tools', 'seed.py'))
seed = importlib.util.module_from_spec(s)
s.loader.exec_module(seed)
SC, HB, ENV = seed.SC, seed.HB, seed.ENV

PAIRS = [('==', '!='), ('<', '<='), ('<=', '<'), ('>', '>='), ('>=', '>'), ('&&', '||'), ('+', '-'), ('-', '+')]
WORDS = [('true', 'false'), ('start', 'end'), ('defs', 'uses'), ('uses', 'decls'), ('decls', 'defs'), ('any', 'all'), ('min', 'max'), ('starts_with', 'ends_with'), ('break', 'continue'),
         ('is_some', 'is_none'), ('is_ok', 'is_err'), ('first', 'last'), ('find', 'rfind'), ('trim_end_matches', 'trim_start_matches'), ('split_once', 'rsplit_once'), ('is_alphanumeric', 'is_alphabetic'), ('is_numeric', 'is_alphanumeric'),
         ('chars', 'bytes'), ('line', 'character'), ('Some', 'None')]
KINDS = ['Label', 'LocalVar', 'GlobalVar', 'Function', 'DbgAnnotation']


def mutants(path, src):
    cut = src.find('#[cfg(test)]')
    body = src if cut < 0 else src[:cut]
    lines = body.split('\n')
    out = []
    off = 0
    def add(kind, ln, a, b, new):
        t = src[:a] + new + src[b:]
        if t != src: out.append(('%s:%d:%s' % (os.path.basename(path), ln, kind), t, src[a:b], new))
    for n, l in enumerate(lines, 1):
        code = l.split('//')[0] if not re.search(r'"[^"]*//', l) else l
        st = code.strip()
        if st and not st.startswith(('use ', '#', 'mod ', 'pub mod', '///', 'fn ', 'pub fn')):
            for m in re.finditer(r'(?<= )(==|!=|<=|>=|&&|\|\||<|>|\+|-)(?= )', code):
                o = m.group(1)
                for x, y in PAIRS + [(b, a) for a, b in PAIRS if a in ('==', '&&')]:
                    if x == o: add('%s@%d->%s' % (o, m.start(), y), n, off + m.start(), off + m.end(), y)
            for x, y in WORDS:
                for p, q in ((x, y), (y, x)):
                    if (p, q) in (('None', 'Some'), ('Some', 'None')): continue
                    for m in re.finditer(r'(?<![\w])%s(?!\w)' % p, code): add('%s@%d->%s' % (p, m.start(), q), n, off + m.start(), off + m.end(), q)
            for m in re.finditer(r'(?<![\w."])(\d+)(?![\w."])', code):
                add('num@%d' % m.start(), n, off + m.start(), off + m.end(), str(int(m.group(1)) + 1))
            for m in re.finditer(r"'(.)'", code): add('chr@%d' % m.start(), n, off + m.start(), off + m.end(), "'~'")
            for m in re.finditer(r'(?<!\\)"((?:[^"\\]|\\.)+)"', code): add('str@%d' % m.start(), n, off + m.start(1), off + m.end(1), m.group(1) + 'q' if '{' in m.group(1) else m.group(1)[:-1] + 'q')
            for m in re.finditer(r'SymbolKind::(%s)' % '|'.join(KINDS), code):
                k = KINDS[(KINDS.index(m.group(1)) + 1) % len(KINDS)]
                add('kind@%d' % m.start(), n, off + m.start(1), off + m.end(1), k)
            for m in re.finditer(r'(?<![\w)])!(?=[\w(*])(?!\[)', code):
                if not re.search(r'\w$', code[:m.start()]): add('not@%d' % m.start(), n, off + m.start(), off + m.end(), '')
            m = re.match(r'^(\s*)(if|while) (?!let\b)(.*) \{$', code)
            if m:
                a, b = off + m.start(3), off + m.end(3)
                add('cond-neg', n, a, b, '!(%s)' % m.group(3))
                add('cond-true', n, a, b, 'true || (%s)' % m.group(3)) if m.group(2) == 'if' else None
                add('cond-false', n, a, b, 'false && (%s)' % m.group(3))
            if re.match(r'^\s+(?!let\b|return\b|\}|use\b)[^={}]*\(.*\);$', code) or re.match(r'^\s+[\w.*\[\]]+ [+-]?= [^;{]*;$', code):
                add('del', n, off, off + len(l), '')
                if '.push' in code or '.insert' in code or '.extend' in code: add('dup', n, off + len(l), off + len(l), '\n' + l)
            if re.match(r'^\s+\.\w+(::<[^>]*>)?\(.*\)\??[,;]?$', code) and code.count('(') == code.count(')'):
                tail = re.search(r'[,;]?$', code.rstrip()).group(0)
                add('chain-del', n, off, off + len(l), tail)
            if re.match(r'^\s+[\w:]+(\([^()]*\))?( \{[^{}]*\})? => [^{]*,$', code): add('arm-del', n, off, off + len(l), '')
            if re.match(r'^\s+\| ', code): add('alt-del', n, off, off + len(l), '')
            if re.match(r'^\s+("[^"]*"|[A-Z][\w:]*|\w+\(\)),$', code): add('elem-del', n, off, off + len(l), '')
            for m in re.finditer(r'\.rev\(\)|\.skip\(\d\)|\.unique\(\)|\.sorted\(\)|\.dedup\(\)|\.clone\(\)\.or\([^()]*\)|\.trim\(\)|\.to_lowercase\(\)', code): add('call-del@%d' % m.start(), n, off + m.start(), off + m.end(), '')
            for m in re.finditer(r'\.iter\(\)(?!\.rev)', code): add('iter-skip@%d' % m.start(), n, off + m.start(), off + m.end(), '.iter().skip(1)')
            m = re.match(r'^(\s*)(\w+): Some\((.*)\),$', code)
            if m: add('none', n, off + m.start(3) - 5, off + m.end(3) + 1, 'None')
            m = re.search(r'\((\w[\w.&]*), (&?\w[\w.]*)\)', code)
            if m: add('swap', n, off + m.start(), off + m.end(), '(%s, %s)' % (m.group(2), m.group(1)))
            m = re.match(r'^(\s*)return (.*);$', code)
        off += len(l) + 1
    return out


def main():
    seed.sync()
    pats = sys.argv[1:]
    todo = []
    for f in sorted(os.listdir(SC + '/src')):
        if not f.endswith('.rs'): continue
        for i, t, a, b in mutants(f, open('%s/src/%s' % (SC, f)).read()):
            if not pats or any(re.search(p, i) for p in pats): todo.append((f, i, t, a, b))
    print('#', len(todo), 'mutants', flush=True)
    for k, (f, i, t, a, b) in enumerate(todo):
        if k % seed.SHARDS != seed.SHARD: continue
        p = '%s/src/%s' % (SC, f)
        old = open(p).read()
        open(p, 'w').write(t)
        try:
            r = seed.sh('cd %s && timeout 100 cargo build --workspace --offline -q 2>&1' % SC, env=ENV)
            if r.returncode: print(i, 'nobuild', flush=True); continue
            r = seed.sh('cd %s && timeout 60 cargo test --workspace --offline 2>&1' % SC, env=ENV)
            if seed.passed(r.stdout) < 18: print(i, 'tests', flush=True); continue
            r = seed.checks(dict(os.environ, HIRV_REPO=SC, HIRV_BUILD=HB, HIRV_EVIDENCE=HB + '/ev'))
            rep = re.findall(r'^VIOLATION property=(C\d\d)', r.stdout, re.M)
            und = re.findall(r'^(C\d\d): \d+ obligations, \d+ violations, [1-9]\d* undecided', r.stdout, re.M)
            line = src_line(old, i)
            print(i, 'CAUGHT ' + ','.join(rep) if rep else 'SURVIVES', 'und ' + ','.join(und), '|', line, '|', repr(a)[:40], '->', repr(b)[:40], flush=True)
        finally: open(p, 'w').write(old)


def src_line(src, i): return src.split('\n')[int(i.split(':')[1]) - 1].strip()[:120]


main()
