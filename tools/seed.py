#!/usr/bin/env python3
"""Development aid: makes seeded/<id>/ from tools/seeds.py, confirms each in a scratch copy, and prints which checks catch it.
usage: seed.py make [ids] | confirm [ids] | matrix [ids]"""
import importlib.util, json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARD, SHARDS = map(int, os.environ.get('SHARD', '0/1').split('/'))
SC, HB = ('/tmp/sc', '/tmp/hb') if SHARDS == 1 else ('/tmp/sc%d' % SHARD, '/tmp/hb%d' % SHARD)
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='1.74.1', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TARGET_DIR=SC + '/target', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')


def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sync():
    if not os.path.isdir(SC): sh('cp -a /repo %s' % SC)
    sh('git -C {0} checkout -q -- . ; git -C {0} fetch -q /repo HEAD && git -C {0} reset -q --hard FETCH_HEAD'.format(SC))


def seeds():
    s = importlib.util.spec_from_file_location('seeds', os.path.join(V, 'tools', 'seeds.py'))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m.SEEDS


def make(ids):
    sync()
    for s in seeds():
        if ids and s['id'] not in ids: continue
        d = os.path.join(V, 'seeded', s['id'])
        for f, old, new in s['edits']:
            p = os.path.join(SC, f)
            t = open(p).read()
            if t.count(old) != 1: sys.exit('%s: %d matches of %r in %s' % (s['id'], t.count(old), old, f))
            open(p, 'w').write(t.replace(old, new))
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C %s diff' % SC).stdout)
        sh('git -C %s checkout -q -- .' % SC)
        open(os.path.join(d, 'demo.py'), 'w').write('from lsp import *\n' + s['demo'].lstrip('\n'))
        shutil.copy(os.path.join(V, 'tools', 'lsp.py'), d)
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# cwd: the repository, after the build\nexec python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def build(): return sh('cd %s && cargo build --workspace --offline -q 2>&1 && cargo test --workspace --offline 2>&1' % SC, env=ENV)


def passed(o): return len(set(re.findall(r'^test (\S+) \.\.\. ok', o, re.M)))


def confirm(ids):
    sync()
    build()
    ids = ids or sorted(os.listdir(os.path.join(V, 'seeded')))
    for i in ids:
        d = os.path.join(V, 'seeded', i)
        r = sh('cd %s && timeout 300 bash %s/demo.sh' % (SC, d))
        if r.returncode: print(i, 'DEMO FAILS ON UNCHANGED TREE', r.stdout[-600:])
    for i in ids:
        d = os.path.join(V, 'seeded', i)
        r = sh('git -C %s apply %s/patch.diff' % (SC, d))
        if r.returncode:
            print(i, 'PATCH DOES NOT APPLY', r.stdout)
            continue
        b = build()
        n = passed(b.stdout)
        if b.returncode or n != 18: print(i, 'BUILD/TESTS', b.returncode, n, b.stdout[-1500:])
        r = sh('cd %s && timeout 300 bash %s/demo.sh' % (SC, d))
        print(i, 'tests', n, 'demo', r.returncode, r.stdout.strip()[-200:].replace('\n', ' | '))
        sh('git -C %s checkout -q -- .' % SC)
    build()


def checks(env):
    ids = sorted(f[:-3] for f in os.listdir(os.path.join(V, 'checks')) if re.match(r'C\d\d\.py$', f))
    r = sh('cd %s && python3 lib/run.py %s' % (V, ' '.join(ids)), env=env)
    return r


def matrix(ids):
    sync()
    env = dict(os.environ, HIRV_REPO=SC, HIRV_BUILD=HB, HIRV_EVIDENCE=HB + '/ev')
    ids = ids or sorted(os.listdir(os.path.join(V, 'seeded')))
    for i in ids[SHARD::SHARDS]:
        d = os.path.join(V, 'seeded', i)
        m = json.load(open(os.path.join(d, 'meta.json')))
        r = sh('git -C %s apply %s/patch.diff' % (SC, d))
        r = checks(env)
        sh('git -C %s checkout -q -- .' % SC)
        v = re.findall(r'^VIOLATION property=(\S+)', r.stdout, re.M)
        u = re.findall(r'^(C\d\d): .* (\d+) undecided', r.stdout, re.M)
        u = [a for a, b in u if b != '0']
        print(i, m['property'], 'CAUGHT' if m['property'] in v else 'MISSED', 'by', ','.join(v) or '-', 'undecided', ','.join(u) or '-', '' if r.returncode in (0, 1) else r.stdout[-1500:])
        if os.environ.get('VERBOSE'): print(r.stdout)
        sys.stdout.flush()


def variants():
    s = importlib.util.spec_from_file_location('refactors', os.path.join(V, 'tools', 'refactors.py'))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m.VARIANTS


def quiet(ids):
    """Edits which keep the behaviour (tools/refactors.py), or try-outs with an expected property: which checks report something."""
    sync()
    env = dict(os.environ, HIRV_REPO=SC, HIRV_BUILD=HB, HIRV_EVIDENCE=HB + '/ev')
    todo = [x for x in variants() if not ids or any(re.fullmatch(i, x[0]) for i in ids)]
    for n, want, eds in todo[SHARD::SHARDS]:
        for f, old, new in eds:
            p = os.path.join(SC, f)
            t = open(p).read()
            if old.startswith('all:'):
                old = old[4:]
                if old not in t: print("%s: no match of %r in %s" % (n, old, f))
            elif t.count(old) != 1: print("%s: %d matches of %r in %s" % (n, t.count(old), old, f))
            open(p, 'w').write(t.replace(old, new))
        if not os.environ.get('NOTEST'):
            b = build()
            if b.returncode or passed(b.stdout) != 18: print(n, 'BUILD/TESTS', b.returncode, passed(b.stdout), b.stdout[-2500:])
        r = checks(env)
        sh('git -C %s checkout -q -- .' % SC)
        v = re.findall(r'^VIOLATION property=(\S+)', r.stdout, re.M)
        u = [a for a, b in re.findall(r'^(C\d\d): .* (\d+) undecided', r.stdout, re.M) if b != '0']
        ok = ((want in v) if want else not v) and 'Traceback' not in r.stdout
        print(n, 'ok' if ok and r.returncode in (0, 1) else 'WRONG', 'reported', ','.join(v) or '-', 'undecided', ','.join(u) or '-', '' if r.returncode in (0, 1) else r.stdout[-1500:])
        if os.environ.get('VERBOSE') or not ok:
            for l in r.stdout.splitlines():
                if l.startswith(('violation', 'undecided')): print('   ', l[:int(os.environ.get('WIDTH', '900'))])
        sys.stdout.flush()


if __name__ == '__main__':
    {'make': make, 'confirm': confirm, 'matrix': matrix, 'quiet': quiet}[sys.argv[1]](sys.argv[2:])
