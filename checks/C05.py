"""The server only reads its input and talks to its client: effects over the resolved call graph."""
import re
from lemmas import *
import calls

# effect -> paths (generic arguments removed).  Everything a safe Rust program can reach these effects through.
FORBIDDEN = [
    ('changes the file system', r'^(std|tokio|async_std|fs_err)::(fs|os::unix::fs|os::windows::fs)::(write|remove_\w+|create_\w+|rename|copy|hard_link|soft_link|symlink\w*|set_permissions|set_times|chown|lchown|fchown|chroot|mkfifo)$'),
    ('changes the file system', r'^(std|tokio)::fs::(File::(create\w*|options|set_\w+)|OpenOptions::(new|write|append|truncate|create\w*)|DirBuilder::\w+)$'),
    ('changes the file system', r'^(std|tokio)::fs::(open_options::|dir_builder::|file::)?(OpenOptions|DirBuilder)::\w+$'),
    ('changes the file system', r'^tempfile::'),
    ('starts or ends a process', r'^(std|tokio)::process::(?!id$)'),
    ('starts or ends a process', r'^(std|core)::intrinsics::abort$'),
    ('starts or ends a process', r'^std::os::unix::process::'),
    ('opens a network connection', r'^(std|tokio|mio|socket2)::(os::unix::)?net::'),
    ('changes the environment', r'^std::env::(set_var|remove_var|set_current_dir)$'),
    ('writes to standard output', r'^std::io::(stdio::)?(_print|stdout)$'),
    ('writes to standard output', r'^std::io::Stdout(Lock)?::'),
    ('calls the operating system', r'^(libc|nix|rustix|windows_sys|winapi)::'),
]
OS = {'system', 'popen', 'fork', 'vfork', 'execv', 'execve', 'execvp', 'unlink', 'rmdir', 'rename', 'open', 'creat', 'write', 'exit', '_exit', 'abort', 'kill', 'socket', 'connect', 'setenv', 'unsetenv', 'putenv', 'raise', 'puts', 'printf', 'putchar'}
LOGOUT = re.compile(r'env_logger|tracing_subscriber|simplelog|fern')


def clean(p): return re.sub(r'::<[^<>]*(<[^<>]*(<[^<>]*>[^<>]*)*>[^<>]*)*>', '', p)


def effect(path):
    p = clean(path)
    for what, rx in FORBIDDEN:
        if re.match(rx, p): return what
    return None


def stdouts(B):
    """Aggregates `Target::Stdout` of a logger."""
    for b in B.blocks:
        for s in b['s']:
            if s[0] == '=' and s[2][0] == 'agg':
                k = s[2][1]
                if any(isinstance(x, str) and LOGOUT.search(x) for x in k) and 'Stdout' in k: yield b['sp']


def run(ctx, rep):
    rep.rule('no function reachable from main, the handlers or a trait implementation calls a function which writes to the file system, starts or ends processes, uses the network, changes the environment or prints to standard output; standard output belongs to the protocol server')
    seen = calls.reachable(ctx, calls.server_roots(ctx))
    rep.count('functions_reachable', len(seen))
    kinds = set()
    for k in seen:
        B = ctx.prog.bodies[k]
        cs = calls.callees(B)
        names = {clean(c[0]) for c in cs}
        for path, key, args, tys, sp, kind in cs:
            rep.count('calls_classified')
            where = '%s:%s in %s' % (sp[0], sp[1], B.path)
            kinds.add(clean(path))
            w = effect(path)
            if w is None and key: w = effect(key)
            if w:
                rep.violation('effect:%s:%s' % (B.path, clean(path)), where, '`%s` %s; path: %s' % (clean(path), w, calls.trail(ctx, seen, k)))
                continue
            local = path.startswith(('bin::', 'hyper_ir_lsp::'))
            if local and key not in ctx.prog.bodies and path not in ctx.prog.bypath and path.rsplit('::', 1)[-1] in OS and re.search(r'\{extern|foreign', str(key)):
                rep.violation('effect:%s:%s' % (B.path, path), where, 'the foreign function `%s` is called; path: %s' % (path, calls.trail(ctx, seen, k)))
                continue
            if clean(path) in ('tokio::io::stdout', 'tokio::io::stdio::stdout') and not any(n.endswith('Server::new') for n in names):
                rep.violation('stdout:' + B.path, where, 'standard output is opened apart from the protocol server; path: %s' % calls.trail(ctx, seen, k))
                continue
            rep.ok()
        for sp in stdouts(B):
            rep.violation('log:' + B.path, '%s:%s in %s' % (sp[0], sp[1], B.path), 'log messages are sent to standard output')
    rep.count('different_callees', len(kinds))
    rep.sample('reads of the file system: ' + ', '.join(sorted(x for x in kinds if re.match(r'^std::(path|fs)::', x))))
    rep.floor('functions_reachable', 250)
    rep.floor('calls_classified', 1200)
