"""A minimal LSP client for the demonstrations."""
import json, os, queue, subprocess, sys, threading


class Lsp:
    def __init__(self, caps=None, roots=None, init=True):
        b = os.path.abspath('target/debug/hyper-ir-lsp')
        self.p = subprocess.Popen([b], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        self.q = queue.Queue()
        self.id = 0
        self.others = []
        threading.Thread(target=self._rd, daemon=True).start()
        threading.Thread(target=lambda: [None for _ in self.p.stderr], daemon=True).start()
        if init:
            prm = {'capabilities': caps or {}, 'processId': None, 'rootUri': None}
            if roots is not None: prm['workspaceFolders'] = [{'uri': r, 'name': 'x'} for r in roots]
            self.init = self.req('initialize', prm)
            self.note('initialized', {})

    def _rd(self):
        f = self.p.stdout
        while True:
            n = None
            while True:
                l = f.readline()
                if not l:
                    self.q.put(None)
                    return
                l = l.strip()
                if not l: break
                if l.lower().startswith(b'content-length:'): n = int(l.split(b':')[1])
            self.q.put(json.loads(f.read(n)))

    def send(self, m):
        b = json.dumps(dict(jsonrpc='2.0', **m)).encode()
        try:
            self.p.stdin.write(b'Content-Length: %d\r\n\r\n' % len(b) + b)
            self.p.stdin.flush()
        except BrokenPipeError: pass

    def recv(self, t=10):
        try: return self.q.get(timeout=t)
        except queue.Empty: return 'TIMEOUT'

    def note(self, m, p): self.send({'method': m, 'params': p})

    def req(self, m, p, t=10):
        self.id += 1
        i = self.id
        self.send({'id': i, 'method': m, 'params': p})
        return self.wait(i, t)

    def wait(self, i, t=10):
        while True:
            r = self.recv(t)
            if r is None: return {'CRASH': 1}
            if r == 'TIMEOUT': return {'TIMEOUT': 1}
            if r.get('id') == i and 'method' not in r: return r
            self.others.append(r)

    def waitmsg(self, method, t=10):
        for k, r in enumerate(self.others):
            if r.get('method') == method: return self.others.pop(k)
        while True:
            r = self.recv(t)
            if r is None: return {'CRASH': 1}
            if r == 'TIMEOUT': return {'TIMEOUT': 1}
            if r.get('method') == method: return r
            self.others.append(r)

    def open(self, text, uri='file:///x.hir', version=1):
        self.note('textDocument/didOpen', {'textDocument': {'uri': uri, 'languageId': 'hir', 'version': version, 'text': text}})
        return self.waitmsg('textDocument/publishDiagnostics')

    def change(self, *texts, uri='file:///x.hir', version=2):
        self.note('textDocument/didChange', {'textDocument': {'uri': uri, 'version': version}, 'contentChanges': [{'text': t} for t in texts]})
        return self.waitmsg('textDocument/publishDiagnostics') if texts else None

    def at(self, l, c, uri='file:///x.hir', **kw): return dict({'textDocument': {'uri': uri}, 'position': {'line': l, 'character': c}}, **kw)

    def doc(self, uri='file:///x.hir', **kw): return dict({'textDocument': {'uri': uri}}, **kw)

    def close(self): self.p.kill()


def rng(r): return (r['start']['line'], r['start']['character'], r['end']['line'], r['end']['character'])


def expect(name, got, want):
    if got != want:
        print('FAIL %s\n  got  %s\n  want %s' % (name, got, want))
        sys.exit(1)
    print('ok', name)
