"""C01: tokenizer vs an independent regular-expression lexer, on every string up to a length bound."""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, impl

LEX = re.compile(r'''(?P<sep>[ \t,]+)|(?P<br>[()\[\]{}])|(?P<com>;[^\n\r]*)|(?P<eol>[\n\r])|(?P<col>:)'''
                 r'''|(?P<str>"(?:\\.|[^"\\])*")|(?P<chr>'(?:\\.|[^'\\])*')|(?P<word>[^ \t,()\[\]{};\n\r:"']+)''', re.S)


def reference(text):
    """list of (kind, tokens, line) or None when the text is malformed"""
    out = []
    toks = []
    line = 1
    prev = None
    pos = 0

    def flush():
        if toks:
            out.append(('D' if toks[0][0] == '.' else 'I', list(toks), line))
            del toks[:]
    while pos < len(text):
        m = LEX.match(text, pos)
        if not m:
            return None          # a quote that never closes
        kind, s = m.lastgroup, m.group()
        pos = m.end()
        if kind in ('str', 'chr'):
            if len(s) > 2:
                toks.append(s[0] + re.sub(r'\\(.)', r'\1', s[1:-1], flags=re.S) + s[0])
        elif kind in ('br', 'word'):
            toks.append(s)
        elif kind == 'com':
            flush()
        elif kind == 'eol':
            flush()
        elif kind == 'col':
            if prev != 'word' or len(toks) != 1:
                return None
            out.append(('L', list(toks), line))
            del toks[:]
        line += s.count('\n')
        prev = kind
    flush()
    return out


def observe(text, context=None):
    from necroassembler.tokenizer import Tokenizer
    from necroassembler import statements as st
    kinds = ((st.Label, 'L'), (st.Directive, 'D'), (st.Instruction, 'I'))
    t = Tokenizer(context=context)
    try:
        t.parse(text)
    except impl.asm_error():
        return None
    except Exception as e:  # noqa
        return 'raw error %s: %s' % (type(e).__name__, e)
    out = []
    for s in t.statements:
        k = [n for c, n in kinds if isinstance(s, c)]
        out.append((k[0] if k else type(s).__name__, list(s.tokens), s.line))
        if s.context != context:
            return 'statement lost its file name'
    return out


def check(ctx, text, context=None):
    exp = reference(text)
    got = observe(text, context)
    ctx.trace()
    ctx.step(len(text))
    if exp != got:
        ctx.fail(repr(text), exp, got, text)
    return exp


def strings(ctx, alphabet, length, lo, hi):
    n = len(alphabet)
    core.arm()
    for i in range(lo, hi):
        x, cs = i, []
        for _ in range(length):
            x, r = divmod(x, n)
            cs.append(alphabet[r])
        text = ''.join(cs)
        exp = check(ctx, text)
        ctx.state(repr(exp))
        if i % 4096 == 0:
            core.arm()
        if exp and len(exp) > 1:
            ctx.sample({'text': text, 'statements': exp})


LINES = ['foo:', 'foo: LD A,(HL) ; c', '.db "a;b", \'x\' ', '\tNOP', '', '; only', '.db "a\\"b\\\\"', "LD A, 'it\\'s'",
         '.db "two\nlines"', 'a,b , c\td', 'x:y: z', '[{(a)}]', 'bad label:', 'k: : ', '"unclosed', '.org $100 ', "MOV '\\;'"]


def lines(ctx, first):
    for second in LINES:
        for third in LINES:
            for eol in ('\n', '\r\n', '\r'):
                core.arm()
                exp = check(ctx, eol.join((first, second, third)))
                ctx.state(repr(exp))
                check(ctx, eol.join((first, second, third)) + eol, 'some/file.S')


def big(ctx):
    core.arm()
    for n in (1, 255, 256, 257, 1000, 65535, 65536, 70000):
        for text in ('a' * n, 'a ' * n, '\n' * n + 'NOP', 'NOP\n' * n, '"' + 'x' * n + '"', ';' + 'c' * n + '\nNOP', '(' * n,
                     'l%d:NOP\n' % n + ' ' * n + '.db 1', '.db "' + '\\"' * n + '"', ',\t ' * n + 'NOP', '\r\n' * n + 'A:'):
            core.arm()
            exp = reference(text)
            got = observe(text)
            ctx.trace()
            ctx.step(len(text))
            ctx.state(core.h64(repr(exp)))
            if exp != got:
                ctx.fail('%r... (%d chars)' % (text[:20], len(text)), repr(exp)[:300], repr(got)[:300], text[:200])


POOL = [chr(c) for c in range(1, 127)] + ['\x7f', '\xa0', '\xe9', '\u20ac', '\u2028', '\x85']


# every printable ASCII character, and some others, next to each kind of neighbour
def chars(ctx):
    for c in POOL:
        for pat in ("'\\%s'", "'a\\%sb'", '"a\\%sb"', '%s', 'a%s', '%sa', 'a%sb', 'a %s b', '"%s"', "'%s'", '"\\%s"', ';%s\na', '.db %s,1', 'l:%s', '(%s)', 'NOP\n%s\nNOP', '"a%sb" c', '\\%s'):
            core.arm()
            ctx.state(repr(check(ctx, pat % c)))


# every pair of characters, bare and inside each kind of quotes
def pairs(ctx, lo, hi):
    for c in POOL[lo:hi]:
        core.arm()
        for d in POOL:
            for pat in ('%s%s', 'a%s%sb', '"%s%s"', "'%s%s'", '"\\%s%s" c', 'NOP;%s%s\nNOP', 'l:%s b%s'):
                ctx.state(repr(check(ctx, pat % (c, d))))


def shards(tier):
    full = 'a. ,\t\n\r;"\'\\:()'
    out = []
    for L in (1, 2, 3, 4, 5):
        out += core.parallel_ranges('full%d' % L, _full(L), len(full) ** L, 16 if L == 5 else 1)
    small = 'a .\n;"\\:\''
    out += core.parallel_ranges('small6', _small(6), len(small) ** 6, 16)
    out += [('lines-%d' % i, lines, (l,)) for i, l in enumerate(LINES)]
    out += [('big', big, ()), ('chars', chars, ())] + core.parallel_ranges('pairs', pairs, len(POOL), 8)
    if tier == 'thorough':
        out += core.parallel_ranges('full6', _full(6), len(full) ** 6, 256)
        out += core.parallel_ranges('small7', _small(7), len(small) ** 7, 128)
    return out


class _gen:
    def __init__(self, alphabet, length):
        self.a, self.l = alphabet, length

    def __call__(self, ctx, lo, hi):
        strings(ctx, self.a, self.l, lo, hi)


def _full(n):
    return _gen('a. ,\t\n\r;"\'\\:()', n)


def _small(n):
    return _gen('a .\n;"\\:\'', n)


if __name__ == '__main__':
    core.main('C01', shards, rule='every string over the alphabet up to the length bound, every triple of line templates, every character in every context',
              assumptions=['the reference lexer states the surface syntax (an empty pair of quotes is no token; a statement is reported on the line where it ends)'])
