"""Positions in a text as abstract locations: every value obtained from the rope API is expressed as
byte(L), char(L), u16(L) or line(L) of a location L (or a difference of two such values), so that the
unit and the origin of every position are explicit."""
from spec import *

ROPE_FALLIBLE = re.compile(r'^Rope(Slice)?::(try_|get_)')


def loc(t): return ('sym', t)


def strip_ok(x):
    """try_f(..).<Ok.0> -> f(..), get_f(..).<Some.0> -> f(..)"""
    if x[0] == 'fld' and x[2] in ('Option::Some.0', 'Result::Ok.0') and x[1][0] == 'app':
        n = x[1][1]
        m = re.match(r'^(Rope(?:Slice)?)::(?:try|get)_(\w+)$', n)
        if m: return ('app', '%s::%s' % (m.group(1), m.group(2))) + x[1][2:]
        if n == 'try_into': return x[1][3]
    if x[0] == 'app' and x[1] == 'cast': return x[-1]
    return x


def C(unit, l): return ('app', 'at:' + unit, l)


def is_c(x, unit=None): return x[0] == 'app' and x[1].startswith('at:') and (unit is None or x[1] == 'at:' + unit)


CONV = {'byte_to_line': ('byte', 'line'), 'byte_to_char': ('byte', 'char'), 'char_to_utf16_cu': ('char', 'u16'), 'char_to_byte': ('char', 'byte'), 'char_to_line': ('char', 'line'),
        'line_to_char': ('line', 'char'), 'line_to_byte': ('line', 'byte'), 'utf16_cu_to_char': ('u16', 'char'), 'utf16_cu_to_byte': ('u16', 'byte'), 'byte_to_utf16_cu': ('byte', 'u16')}


def linestart(l): return ('app', 'linestart', l)


def coords(rope, inputs):
    """Rewriting function; inputs: term -> (unit, location)."""
    def start_of(s):
        """Location of the start of a rope or slice, None for the whole rope."""
        if s == rope: return 0
        if s[0] == 'app' and s[1] == 'slice@': return s[2]
        return None
    def f(x):
        x = strip_ok(x)
        if x in inputs:
            u, l = inputs[x]
            return C(u, l)
        if x[0] == 'app':
            m = re.match(r'^Rope(?:Slice)?::(\w+)$', x[1])
            if m and len(x) >= 4:
                op, s, a = m.group(1), start_of(x[2]), x[3]
                if op == 'line' and s == 0 and is_c(a, 'line'): return ('app', 'slice@', linestart(a[2]))
                if op in CONV and s is not None:
                    frm, to = CONV[op]
                    if s == 0:
                        if is_c(a, frm):
                            if frm == 'line': return C(to, linestart(a[2]))
                            return C(to, a[2])
                    else:
                        # relative to the start of a slice
                        if a[0] == 'sub' and is_c(a[1], frm) and a[2] == C(frm, s): return ('sub', C(to, a[1][2]), C(to, s))
                        if frm == 'u16' and a[0] != 'sub':
                            l = ('app', 'advance16', s, a)
                            return ('sub', C(to, l), C(to, s))
                        if frm == 'char' and a[0] != 'sub': return ('sub', C(to, ('app', 'advancechars', s, a)), C(to, s))
                        if frm == 'byte' and a[0] != 'sub': return ('sub', C(to, ('app', 'advancebytes', s, a)), C(to, s))
                if op in ('byte_slice', 'slice') and s == 0 and a[0] == 'agg' and short(a[1]) == 'Range':
                    d = dict(a[3])
                    u = 'byte' if op == 'byte_slice' else 'char'
                    if is_c(d.get('start', UNIT), u) and is_c(d.get('end', UNIT), u): return ('app', 'slice@', d['start'][2], d['end'][2])
                if op in ('byte_slice', 'slice') and s == 0 and a[0] == 'agg' and short(a[1]) == 'RangeFrom':
                    u = 'byte' if op == 'byte_slice' else 'char'
                    b = dict(a[3])['start']
                    if is_c(b, u): return ('app', 'slice@', b[2])
                if op in ('byte_slice', 'slice') and s is not None and s != 0 and a[0] == 'agg' and short(a[1]) == 'RangeTo':
                    u = 'bytes' if op == 'byte_slice' else 'chars'
                    return ('app', 'slice@', s, ('app', 'advance' + u, s, dict(a[3])['end']))
            if m and len(x) == 3 and m.group(1) in ('len_utf16_cu', 'len_chars', 'len_bytes') and x[2][0] == 'app' and x[2][1] == 'slice@' and len(x[2]) == 4:
                u = {'len_utf16_cu': 'u16', 'len_chars': 'char', 'len_bytes': 'byte'}[m.group(1)]
                return ('sub', C(u, x[2][3]), C(u, x[2][2]))
            # byte_to_line of a line start etc.
        if x[0] == 'add':
            for a, b in ((x[1], x[2]), (x[2], x[1])):
                if is_c(a) and b[0] == 'sub' and b[2] == a: return b[1]
                # byte(L) + (byte(L') - byte(L)) = byte(L')
                if a[0] == 'sub' and is_c(b) and a[2] == b: return a[1]
                # utf-16 units from the start of a line
                if is_c(a, 'u16') and b[0] == 'app' and b[1] == 'min': return C('u16', ('app', 'advance16', a[2], b))
        return x
    def assume(l):
        t = l[0]
        if t[0] == 'app' and (ROPE_FALLIBLE.match(t[1]) or t[1] == 'try_into') and all(isinstance(v, str) for v in l[2]):
            return (('Some' in l[2]) if '::get_' in t[1] else ('Ok' in l[2])) == l[1]
        if t[0] == 'app' and t[1].startswith('overflow:'): return (False in l[2]) == l[1]
        if t[0] == 'sym' and t[1].startswith('fallible:'): return ('Ok' in l[2] or 'Some' in l[2]) == l[1]
        return None
    return f, assume


def norm_positions(t, rope, inputs):
    """The alternatives of a term in which all conversions succeed, in coordinates."""
    f, assume = coords(rope, inputs)
    out = []
    for g, x, m in item_norm([(EMPTY, t, 1)], assume):
        out.append(([mapterm(c, f) for c in g], mapterm(x, f)))
    return out


def line_length(eng, x):
    """Whether a term is the length of line N in UTF-16 code units without its line break."""
    if x[0] != 'app' or x[1] != 'sum' or x[2][0] != 'coll' or len(x[2][1]) < 1: return False
    src = "chars(slice@(linestart(N)))[*]"
    conds = []
    for g, t, m in x[2][1]:
        if m != '*' or t[0] != 'app' or t[1] != 'char.len_utf16': return False
        e = t[2]
        if text(e) == src: conds += [(e, frozenset(g))]
        elif not g and e[0] == 'elem' and e[1][0] == 'app' and e[1][1] == 'take_while' and text(e[1][2]) == '[%s*]' % src and e[1][3][0] == 'pred':
            conds += [(e[1][2][1][0][1], c) for c in eng.cond(e[1][3][1], True)]
        else: return False
    if len({c for c, _ in conds}) != 1: return False
    c = conds[0][0]
    want = [frozenset([lit(c, False, ['\n', '\r'])])]
    try: return equivalent(todnf(want), todnf([g for _, g in conds])) is None
    except TooBig: return False


def positions_lemma(ctx, rep, which=('pos2off', 'off2pos', 'range', 'spans')):
    rope, pos = ('sym', 'rope'), ('sym', 'pos')
    B = ctx.anchor.get('OFF2POS')
    if 'off2pos' in which:
        if B is None: rep.unsure('off2pos', '-', 'no function from offsets to positions')
        else:
            r = ctx.run(B, opaque=(), names=['rope', 'pos'])
            rep.count('conversions_analysed')
            alts = norm_positions(r.ret, rope, {pos: ('byte', ('sym', 'L'))})
            want = 'Some{0: Position{line: at:line(L), character: sub(at:u16(L), at:u16(linestart(L)))}}'
            pos_judge(rep, 'off2pos', bat(B), alts, want, r.ret, 'an offset is converted into the line and the number of UTF-16 code units since the start of that line')
    B = ctx.anchor.get('RANGE')
    if 'range' in which:
        if B is None: rep.unsure('range', '-', 'no function from spans to ranges')
        else:
            r = ctx.run(B, opaque=('OFF2POS',), names=['rope', 'span'])
            rep.count('conversions_analysed')
            alts = [(c, x) for c, x, m in item_norm([(EMPTY, r.ret, 1)], assume_std)]
            pos_judge(rep, 'range', bat(B), alts, 'Some{0: RANGE(rope, span).<Some.0>}', r.ret, 'a span is converted by converting its start and its end')
    B = ctx.anchor.get('POS2OFF')
    if 'pos2off' in which:
        if B is None: rep.unsure('pos2off', '-', 'no function from positions to offsets')
        else:
            r = ctx.run(B, opaque=(), names=['rope', 'pos'])
            rep.count('conversions_analysed')
            tp = 'tower_lsp::lsp_types::Position'
            line, ch = None, None
            for x in walk_all(r.ret):
                if x[0] == 'fld' and x[1] == pos:
                    if x[2].endswith('.line'): line = x
                    elif x[2].endswith('.character'): ch = x
            alts = norm_positions(r.ret, rope, {line: ('line', ('sym', 'N'))} if line else {})
            def tidy(x):
                if line_length(r.eng, x): return ('sym', 'LINELEN')
                return x
            alts = [(g, mapterm(x, tidy)) for g, x in alts]
            want = 'Some{0: at:byte(advance16(linestart(N), min(%s)))}'
            ok = {want % 'pos.character, LINELEN', want % 'LINELEN, pos.character'}
            got = [text(x) for g, x in alts]
            if len(alts) == 1 and got[0] in ok: rep.ok(); rep.sample('position → offset: the byte offset reached from the start of the line after min(character, length of the line) UTF-16 code units')
            else:
                pos_judge(rep, 'pos2off', bat(B), alts, want % 'pos.character, LINELEN', r.ret, 'a position is converted by advancing UTF-16 code units from the start of its line, at most to the end of the line')
    if 'spans' in which: span_units(ctx, rep)


def pos_judge(rep, key, where, alts, want, raw, what):
    got = sorted({text(x) for g, x in alts})
    if got == [want] and equivalent([[]], [c for g, x in alts for c in todnf(g)]) is None:
        rep.ok()
        rep.sample(what)
        return
    txt = ' | '.join('%s%s' % (text(x)[:400], ' if ' + dtext(g)[:200] if g not in ([EMPTY], []) else '') for g, x in alts)
    # a definite deviation only if everything is expressed in coordinates
    rest = sorted({y[1] for g, x in alts for y in walk_all(x) if y[0] == 'app' and not y[1].startswith('at:') and y[1] not in ('linestart', 'advance16', 'advancechars', 'advancebytes', 'slice@', 'min', 'max', 'OFF2POS', 'RANGE', 'len', 'add', 'sub', 'sum', 'chars', 'take_while', 'char.len_utf16', 'char.len_utf8', 'narrow', 'try_narrow') and not y[1].startswith(('Rope::', 'RopeSlice::', 'num.'))}
                  | {y[0] for g, x in alts for y in walk_all(x) if y[0] in ('lv', 'top', 'uninit', 'mref', 'clo')})
    if rest: rep.unsure(key, where, '%s: found %s (not interpreted: %s)' % (what, txt[:500], ', '.join(rest)))
    else: rep.violation(key, where, '%s: found %s, expected %s' % (what, txt[:900], want))


def span_units(ctx, rep):
    """The spans of tokens, statements and errors are byte offsets of the analysed text."""
    B = ctx.anchor.get('PARSE')
    if B is None:
        rep.unsure('spans', '-', 'no function which parses a text')
        return
    r = ctx.run(B, opaque=(), names=['src'])
    streams = []
    seen = set()
    for x in walk_all(r.ret):
        if x[0] == 'app' and x[1] == 'Stream::from_iter' and x not in seen:
            seen.add(x)
            streams.append(x)
    n = 0
    for x in streams:
        eoi, its = text(x[2]), x[3]
        rep.count('token_streams')
        if eoi != 'Range{start: len(src), end: len(src)}': rep_def(rep, 'spans:eoi', bat(B), 'the end of input is at `%s`, expected the length of the text in bytes' % eoi[:200], x[2])
        else: rep.ok()
        ti = text(its)
        if 'chars(src)' in ti and 'parse_recovery' not in ti:
            n += 1
            want = '[(chars(src)[*], Range{start: byteidx(chars(src)), end: add(byteidx(chars(src)), char.len_utf8(chars(src)[*]))})*]'
            if ti != want: rep_def(rep, 'spans:chars', bat(B), 'the span of a character is `%s`, expected its byte range' % ti[:300], its)
            else:
                rep.ok()
                rep.sample('characters are fed to the tokenizer with their byte ranges')
    if n == 0:
        # a plain string is parsed with character indices as spans
        pr = [x for x in walk_all(r.ret) if x[0] == 'app' and x[1] in ('Parser::parse_recovery', 'Parser::parse', 'Parser::parse_recovery_verbose') and 'src' in {text(y) for y in walk_all(x[3])}]
        if pr and any(text(x[3]) == 'src' for x in pr): rep.violation('spans:chars', bat(B), 'the text is parsed directly: the spans are character indices, but they are used as byte offsets')
        else: rep.unsure('spans:chars', bat(B), 'the input of the tokenizer is not interpreted')


def rep_def(rep, key, where, msg, t):
    u = [x for x in uninterpreted(t)]
    if u: rep.unsure(key, where, msg + ' (not interpreted: %s)' % ', '.join(u)[:200])
    else: rep.violation(key, where, msg)
