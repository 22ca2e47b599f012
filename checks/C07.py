"""Text of the document cannot inject Markdown or commands."""
import itertools
from lemmas import *

LINEBREAK = '\n\r'
DANGER = {'code': '`' + LINEBREAK, 'text': '`*_[]()<>#!|\\~&' + LINEBREAK, 'url': '() <>\\"\t' + LINEBREAK, 'urlangle': '<>\\' + LINEBREAK}
PRED = {'is_alphanumeric': str.isalnum, 'is_alphabetic': str.isalpha, 'is_numeric': str.isnumeric, 'is_whitespace': str.isspace, 'is_lowercase': str.islower, 'is_uppercase': str.isupper,
        'is_ascii': lambda c: ord(c) < 128, 'is_ascii_alphanumeric': lambda c: c.isascii() and c.isalnum(),
        'is_ascii_alphabetic': lambda c: c.isascii() and c.isalpha(), 'is_ascii_digit': lambda c: c in '0123456789', 'is_ascii_hexdigit': lambda c: c in '0123456789abcdefABCDEF',
        'is_ascii_whitespace': lambda c: c in ' \t\n\r\f',
        'is_control': lambda c: ord(c) < 32 or 127 <= ord(c) < 160, 'is_ascii_control': lambda c: ord(c) < 32 or ord(c) == 127,
        'is_ascii_punctuation': lambda c: c in '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~', 'is_ascii_graphic': lambda c: 32 < ord(c) < 127}


def is_char(t): return t[0] == 'elem' and t[1][0] == 'app' and t[1][1] == 'chars'


def lit_at(l, ch, c):
    """Truth of a literal if the character ch is c: True, False or None (unknown / something else)."""
    t, p, v = l
    if t == ch:
        if all(isinstance(x, str) for x in v): return (c in v) == p
        return None
    if t[0] == 'app' and t[1].startswith('char.') and t[2] == ch:
        f = PRED.get(t[1][5:])
        if f is None: return None
        return (f(c) in v) == p
    if t[0] == 'eqc' and t[1] == ch: return ((c == t[2]) in v) == p
    if t[0] == 'app' and t[1] in ('str.contains', 'contains') and t[2][0] == 's' and ch in set(walk_all(t[3])): return ((c in t[2][1]) in v) == p
    if t[0] == 'lt':
        a, b = t[1], t[2]
        o = lambda x: ord(c) if x == ch else x[1] if x[0] == 'i' else ord(x[1]) if x[0] == 'c' else None
        if o(a) is not None and o(b) is not None: return ((o(a) < o(b)) in v) == p
    if ch not in set(walk_all(t)): return 'other'
    return None


def passes(g, ch, c):
    """Can the character c satisfy the condition?  True / False / None (unknown)."""
    r = True
    for l in g:
        v = lit_at(l, ch, c)
        if v is False: return False
        if v is None: r = None
    return r


class Machine:
    """Markdown structure of a text made of constants and symbolic pieces."""
    def __init__(self, rep, key, where):
        self.rep, self.key, self.where = rep, key, where
        self.state, self.ok, self.url = 'text', True, ''

    def bad(self, msg, sure=True):
        self.ok = False
        (self.rep.violation if sure else self.rep.unsure)(self.key, self.where, msg)

    def const(self, s):
        i = 0
        while i < len(s):
            c = s[i]
            if self.state == 'text':
                if c == '`': self.state = 'code'
                elif s.startswith('](', i):
                    self.state, self.url = 'url', ''
                    i += 1
                    if s.startswith('<', i + 1): self.state, i = 'urlangle', i + 1
            elif self.state == 'code':
                if c == '`': self.state = 'text'
            elif self.state == 'url':
                if c == ')': self.close()
                else: self.url += c
            elif self.state == 'urlangle':
                if c == '>':
                    self.close()
                    if s.startswith(')', i + 1): i += 1
                else: self.url += c
            i += 1

    def close(self):
        self.rep.count('links')
        if not self.url.startswith('\x00'): self.bad('a link leads to `%s`, expected a resolved file' % self.url[:100])
        self.state = 'text'

    def piece(self, g, t):
        """A symbolic piece."""
        self.rep.count('symbolic_pieces')
        if t[0] == 'app' and t[1] == 'display' and number(t[2]): return
        if is_char(t):
            for c in DANGER[self.state]:
                p = passes(g, t, c)
                if p is not False:
                    self.bad('the character %r of `%s` is passed on inside of %s' % (c, text(t[1][2])[:120], NAMES[self.state]), p is True)
                    return
            return
        if t[0] in ('s', 'c'): return self.const(t[1])
        u, gone = url_of(t)
        if u is not None and self.state in ('url', 'urlangle'):
            if self.state == 'url' and not {'(', ')'} <= gone: self.bad('the URL `%s` is the target of a link and may contain parentheses' % text(u)[:120])
            if not text(u).endswith('resolved_filepath.<Some.0>'): self.bad('a link leads to `%s`, expected a resolved file' % text(u)[:120], not uninterpreted(u))
            self.url += '\x00'
            return
        if t[0] == 'app' and t[1] == 'join':
            return self.join(t)
        self.bad('`%s` is inserted unchanged inside of %s' % (text(t)[:200], NAMES[self.state]), not uninterpreted(t))

    def join(self, t):
        if t[2][0] != 'coll' or t[3][0] != 's': return self.bad('`%s` is not interpreted' % text(t)[:200], False)
        for g, x, m in t[2][1]:
            run_text(self, x)
            if self.state != 'text': self.bad('a line ends inside of %s' % NAMES[self.state])
            self.const(t[3][1])


NAMES = {'code': 'a code span', 'text': 'Markdown text', 'url': 'a link target', 'urlangle': 'a link target'}


def number(t):
    if t[0] in ('i', 'idx', 'add', 'sub') or t[0] == 'app' and t[1] in ('len', 'cast'): return True
    return t[0] == 'fld' and t[2] in ('Frame.line', 'ExternalDef.line', 'Position.line', 'Position.character') or text(t).endswith(('.line', '.start', '.end', '.line.<Some.0>'))


def url_of(t):
    gone = set()
    while t[0] == 'app' and t[1] == 'str.replace':
        m = re.match(r'^pred\(eqc\(\$c, (.)\)\)$', text(t[3]), re.S)
        if not m or t[4][0] != 's' or t[4][1].lower() != ''.join('%%%02x' % b for b in m.group(1).encode()): return None, gone
        gone.add(m.group(1))
        t = t[2]
    if t[0] == 'app' and t[1] == 'display' and not number(t[2]): return t[2], gone
    return None, gone


def about(l):
    """The characters a condition concerns; that of a whole text (is it empty?) concerns none."""
    st, out = [l[0]], set()
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x: continue
        if is_char(x): out.add(x)
        elif x[0] not in ('cat', 'coll'): st += [y for y in x if isinstance(y, tuple)]
    return out


KEPT = 'aZ5é中٣'


def kept(m, t):
    """Letters and digits are shown as they are."""
    chars = OrderedDict()
    for g, x, mult in cat_items(t):
        for g2, y in lift_choices(x):
            c = conj_and(g, g2)
            if c is None: continue
            cs = {z for z in walk_all(y) if is_char(z)} | {z for l in c for z in about(l)}
            for ch in cs: chars.setdefault(ch, []).append((c, y))
    for ch, its in chars.items():
        if not any(y == ch for _, y in its): continue
        for c in KEPT:
            r = [(passes(g, ch, c), y) for g, y in its]
            if any(p is None for p, _ in r): continue
            shown = [y for p, y in r if p]
            m.rep.count('kept_characters')
            if not shown or any(y != ch for y in shown):
                m.bad('%r in `%s` is shown as %s' % (c, text(ch[1][2])[:120], ' '.join(text(y) for y in shown)[:100] or 'nothing'), not any(l[0][0] not in ('app', 'eqc', 'lt', 'elem') for g, _ in its for l in g))
                return


def run_text(m, t):
    kept(m, t)
    for g, x, mult in cat_items(t):
        for g2, y in lift_choices(x):
            c = conj_and(g, g2)
            if c is None: continue
            if y[0] == 'cat': run_text(m, ('cat', tuple((conj_and(c, h), z, n) for h, z, n in y[1] if conj_and(c, h) is not None)))
            elif y[0] in ('s', 'c') and not any(about(l) for l in c): m.const(y[1])
            elif y[0] in ('s', 'c'):
                # the replacement of a character
                bad = set(y[1]) & set(DANGER[m.state]) - (set() if m.state != 'text' else set())
                if bad: m.bad('a character is replaced by %r inside of %s' % (y[1], NAMES[m.state]))
            else: m.piece(c, y)


def atoms(t):
    """Conditions of a text which do not concern single characters."""
    out = OrderedDict()
    for x in walk(t):
        if x[0] in ('cat', 'choice', 'coll'):
            for it in x[1]:
                for l in it[0]:
                    if l[0][0] in ('idx', 'lt') or about(l): continue
                    d = DOM.get(l[0])
                    out.setdefault(l[0], set()).update(d if d else set(l[2]) | {'·'})
    return out


def markdown(rep, key, where, t):
    rep.count('markdown_texts')
    at_ = atoms(t)
    # which frame is shown does not matter for its text
    at_ = OrderedDict((k, v) for k, v in at_.items() if k[0] not in ('exhausted', 'which'))
    n = 1
    for v in at_.values(): n *= len(v)
    if n > 4096:
        # conditions on the text which was made so far
        at_ = OrderedDict((k, v) for k, v in at_.items() if not any(is_char(z) for z in walk_all(k)))
        n = 1
        for v in at_.values(): n *= len(v)
    if n > 4096: return rep.unsure(key, where, 'the text has %d cases' % n)
    ok = True
    for vs in itertools.product(*[sorted(v, key=str) for v in at_.values()]):
        env = dict(zip(at_, vs))
        u = restrict(t, lambda x: env.get(x))
        m = Machine(rep, key, where)
        run_text(m, u)
        rep.count('cases')
        if m.ok and m.state != 'text': m.bad('the text ends inside of %s' % NAMES[m.state])
        ok = ok and m.ok
        if not ok: break
    if ok: rep.ok()


def texts(t):
    for x in walk_all(t):
        if x[0] == 'agg' and short(x[1]) == 'MarkupContent' and not (x[2] and x[2] == 'MarkupContent' and len(x[3]) == 1 and x[3][0][0] == '0'):
            d = dict(x[3])
            if 'value' in d and text(d.get('kind', UNIT)) != 'PlainText': yield 'MarkupContent', d['value']
        if x[0] == 'agg' and short(x[1]) == 'MarkedString' and x[2] == 'String': yield 'MarkedString', x[3][0][1]


def commands(t):
    for x in walk_all(t):
        if x[0] == 'agg' and short(x[1]) == 'Command' and 'command' in dict(x[3]): yield dict(x[3])['command']


def run(ctx, rep):
    rep.rule('every Markdown text sent to the client is split into constants and symbolic pieces and its structure is followed: pieces which come from the document stand inside of code spans and exclude backticks and line breaks; link targets are resolved URLs without parentheses; command names are constants')
    done = set()
    runs = [(h, ctx.handler(h)) for h in ctx.handlers()]
    B = ctx.anchor.get('BTHINT')
    if B is not None: runs.append((B.path, ctx.run(B, opaque=())))
    for name, r in runs:
        rep.count('functions_analysed')
        for kind, v in texts(r.ret):
            k = text(v)
            if k in done: continue
            done.add(k)
            markdown(rep, 'markdown:%s' % name.rsplit('::', 1)[-1], bat(r.body), v)
        for c in commands(r.ret):
            rep.count('commands')
            if all(y[0] == 's' for g, y in lift_choices(c)): rep.ok()
            else: rep.violation('command:' + name, bat(r.body), 'the command `%s` depends on the document' % text(c)[:200])
    rep.sample('%d Markdown texts, %d symbolic pieces' % (rep.cov.get('markdown_texts', 0), rep.cov.get('symbolic_pieces', 0)))
    rep.floor('markdown_texts', 2)
    rep.floor('symbolic_pieces', 10)
    rep.floor('commands', 1)
