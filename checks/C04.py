"""Positions: UTF-16, exact in both directions; line structure of the protocol."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ropes import *
import core
from caps import encoding_lemma
from flow import flow_lemma
from C09 import encoding as token_encoding


def run(ctx, rep):
    rep.rule('the conversion functions denote the identity on abstract locations (byte / char / UTF-16 / line units); spans of tokens and statements are byte offsets of the same text; the rope splits lines as the protocol does; every position in an answer or a diagnostic is obtained from an offset of the document with its own text, and every position of a request is interpreted in the text of its document; no other encoding is announced')
    positions_lemma(ctx, rep)
    line_breaks(ctx, rep)
    encoding_lemma(ctx, rep)
    flow_lemma(ctx, rep)
    token_encoding(ctx, rep)


def line_breaks(ctx, rep):
    """The protocol's line breaks are \\n, \\r\\n and \\r; the rope's are configured by cargo features."""
    env = dict(os.environ, HOME='/root', PATH='/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin', RUSTUP_TOOLCHAIN='1.74.1', CARGO_NET_OFFLINE='true')
    r = subprocess.run(['cargo', 'metadata', '--offline', '--frozen', '--format-version', '1'], cwd=core.REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        rep.unsure('ropey-feature', 'Cargo.toml', 'cargo metadata failed')
        return
    m = json.loads(r.stdout)
    ids = {p['id'] for p in m['packages'] if p['name'] == 'ropey'}
    feats = set()
    for n in m['resolve']['nodes']:
        if n['id'] in ids: feats |= set(n['features'])
    rep.count('rope_features_checked', len(feats))
    if 'unicode_lines' in feats:
        rep.violation('ropey-feature:unicode_lines', 'Cargo.toml', 'the rope also breaks lines at U+000B, U+000C, U+0085, U+2028 and U+2029, the protocol does not: behind such a character every line number is off by one')
    else: rep.ok()
    if not {'cr_lines', 'unicode_lines'} & feats:
        rep.violation('ropey-feature:cr_lines', 'Cargo.toml', 'the rope does not break lines at a lone carriage return, the protocol does')
    else: rep.ok()
