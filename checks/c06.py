"""C06: defines - every program over a colliding alphabet equals the program with the replacements written by hand."""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, impl, wrapped

DEFS = ['.define K 5', '.define K $1F', '.define k 9', '.define KK 7', '.define OP LDI', '.define E K+1', '.define S "K k"', ".define C 'K'", '.define B a', '.define X.Y 3', '.define A $A', '.define K K+1', '.define a 12', '.define nop K', '.define K_1 <K', '.define BAD 2', '.define k K', '.define X X.Y', ".define C '5'", '.define S "12"', ".define C ';'"]
USES = ['LDI K', 'ADD K KK', 'ADD k K+k', 'OP K', '.db K "K" \'K\'', '.dw KK+K*2', 'JP K+a', 'LDI $1F&K', 'LDI <K', '.fill K', '.db E', '.db S', 'JP B', 'a:', 'K:', '.db "a K b" KK', 'LDI X.Y', 'K', 'nop', 'LDI xK', 'LDI K_', 'ADD K.K K_1', 'LDI $A', 'LDI A', '.dw $BAD $KBAD BAD', '.db C', 'OP OP', '.dw a', '.dw -K', '.db K,K,k', '.db "K"', ".db 'k'", '.K 1', '.db K/K|K-K', '.dw X X.Y K.K X+1', '.db C S 1', 'LDI C', '.fill C']
TOK = re.compile(r'"[^"]*"|\'[^\']*\'|[^\s,"\']+')
NAME = re.compile(r'(\$?)([A-Za-z0-9_.]+)')


def replace(tok, d):
    """whole names only, never quoted text nor the digits of a $ number"""
    if tok[0] in '"\'':
        return tok

    def f(m):
        if m.group(1) and re.fullmatch('[0-9A-Fa-f]+', m.group(2)):
            return m.group(0)
        return m.group(1) + d.get(m.group(2), m.group(2))
    return NAME.sub(f, tok)


def by_hand(stmts, defines=()):
    d = dict(defines)
    out = []
    for s in stmts:
        if s.endswith(':'):
            out.append(s)
            continue
        t = TOK.findall(s)
        if t[0] == '.define':
            d[t[1]] = replace(t[2], d)
            continue
        if t[0][0] == '.':
            out.append(' '.join([t[0]] + [replace(x, d) for x in t[1:]]))
        else:
            out.append(' '.join(replace(x, d) for x in t))
    return out


CACHE = {}


def result(C, stmts):
    key = (C,) + tuple(stmts)
    r = CACHE.get(key)
    if r is None:
        o = impl.run(C, '\n'.join(stmts))
        r = (o.kind, o.data if o.kind == 'ok' else b'', dict((k, o.asm.get_label_absolute_address_by_name(k)) for k in o.asm.labels) if o.kind == 'ok' else None)
        if len(CACHE) < 200000:
            CACHE[key] = r
    return r


def one(ctx, C, seq, plain=None, defines=(), split=None):
    want = result(plain or C, by_hand(seq, defines))
    o = impl.run(C, '\n'.join(seq) if split is None else ['\n'.join(seq[:split]), '\n'.join(seq[split:])])
    got = (o.kind, o.data if o.kind == 'ok' else b'', dict((k, o.asm.get_label_absolute_address_by_name(k)) for k in o.asm.labels) if o.kind == 'ok' else None)
    ctx.trace()
    ctx.step(len(seq))
    ctx.state(want)
    if want != got:
        ctx.fail(' | '.join(seq) + ('' if split is None else ' split at %d' % split), {'by hand': ' | '.join(by_hand(seq, defines)), 'outcome': want}, impl.brief(o) + ' ' + str(got[2]), seq)


def explore(ctx, first, depth, defs, uses):
    """first statement fixed; the last one is always a use"""
    C = impl.toy()
    for mid in itertools.product(defs + uses, repeat=depth - 1 - len(first)):
        for last in uses:
            one(ctx, C, first + mid + (last,))
    ctx.sample({'first': first, 'depth': depth}, 1)


def class_level(ctx):
    """defines declared on the class or registered in register_defines behave as if written first"""
    pre = {'K': '5', 'BAD': '2', 'X.Y': '3'}

    def register_defines(self):
        self.register_define('KK', '7')
        self.register_define('k', '$9')
    full = dict(pre, KK='7', k='$9')
    C = impl.toy(defines=pre, register_defines=register_defines)
    P = impl.toy()
    for seq in itertools.chain(((u,) for u in USES), itertools.product(DEFS + USES, USES)):
        one(ctx, C, seq, P, full)
        one(ctx, P, seq, P)
    ctx.expect('class defines unchanged', {'K': '5', 'BAD': '2', 'X.Y': '3'}, dict(C.defines))
    a = P()
    for i in range(1, 256):
        ch = chr(i)
        good = ch.isascii() and (ch.isalnum() or ch in '_.')
        for n in (ch, 'a' + ch, ch + 'b'):
            try:
                a.register_define(n, '1')
                got = True
            except impl.asm_error():
                got = False
            ctx.step()
            ctx.expect('register_define(%r)' % n, good, got)


def malformed(ctx):
    C = impl.toy()
    for s in ('.define', '.define K', '.define K 1 2', '.define K 1 2 3'):
        for pre in ((), ('.define K 4',), ('.define k 1', '.define KK 2')):
            o = impl.run(C, '\n'.join(pre + (s,)))
            ctx.trace()
            ctx.state((s, o.kind))
            if o.kind != 'asm-error' or 'line %d:' % (len(pre) + 1) not in str(o.exc):
                ctx.fail(' | '.join(pre + (s,)), 'a diagnostic', impl.brief(o))
    # empty values and names in every position stay harmless
    for tok in ('K', 'k', 'KK', 'K_', '_K', '.K', 'K.', '1K', 'K1', 'KKK', 'kK', 'Kk'):
        for v in ('1', '200', '$FF', 'K', tok + '+1'):
            for u in ('.db %s', '.db %s+1', '.db 1+%s', '.db <%s', '.db 2*%s/%s|%s', '.db %s 3 %s', '.dw %s&%s'):
                use = u.replace('%s', tok)
                for v2 in DEFS[:4]:
                    one(ctx, C, (v2, '.define %s %s' % (tok, v), use, '.db K k KK'))


NOTATIONS = {'toy': ['$%s'], 'mos6502': ['$%s'], 'lr35902': ['$%s'], 'z80': ['$%s'], 'm68k': ['$%s'], 'i8086': ['0x%s', '0h%s', '$0%s', '0%sh'], 'mips32': ['0x%s'], 'thumb': ['0x%s'], 'ppc': ['0x%s'],
             'x86': ['0x%s', '0h%s', '$0%s', '0%sh'], 'gameboy': ['$%s'], 'nes': ['$%s'], 'sms': ['$%s']}


def digits(ctx, cname):
    """a name made of hexadecimal digits is no part of a number, in any statement"""
    C = impl.toy() if cname == 'toy' else impl.load(cname)
    dots = ['.db %s', '.dw %s+1', '.dd 1+%s', '.org %s', '.fill %s', '.fill 1 %s', '.align %s', '.ram %s', '.goto %s', '.goto $FF|$FF %s' if C.hex_prefixes == ('$',) else '.goto 255 %s', '.upto %s',
            '.repeat %s\n.db 1\n.endrepeat', '.db <%s', '.db >>%s+2', '.db_to_ascii %s', '.dw_to_ascii %s', '.db "%s" %s', ".define V %s\n.db V", '.db %s %s']
    ops = ['LDI %s', 'ADD %s 1', 'ADD 1 %s+0', 'LDI <%s', 'LDI 1+%s'] if cname == 'toy' else []
    for name in ('A', 'b', 'c', 'F', 'FF', 'Be', 'e1', 'd0', 'x', 'h', 'x%s', '%sh') if cname == 'toy' or ctx.thorough else ('%s', 'h', 'x%s', '%sh'):
        for word in ('A', 'b', 'c', 'F', 'FF', 'Be', 'e1', 'd0') if cname == 'toy' or ctx.thorough else ('A', 'b', 'Be', 'd0'):
            core.arm()
            n = name.replace('%s', word)
            for fmt in NOTATIONS[cname]:
                num = fmt % word
                for st in dots + ops:
                    stmt = st.replace('%s', num) + '\nend:\n.db 7'
                    want = result(C, [stmt])
                    for value in ('3', 'zz') if cname == 'toy' or ctx.thorough else ('3',):
                        got = result(C, ['.define %s %s' % (n, value), stmt])
                        ctx.trace()
                        ctx.step()
                        ctx.expect('%s: %r after .define %s %s' % (cname, stmt, n, value), want, got, stmt)
            ctx.state((cname, n, word))
    ctx.sample({'processor': cname, 'notations': NOTATIONS[cname]}, 1)


def splits(ctx, first):
    C = impl.toy()
    for u in USES[:16]:
        for v in DEFS[:6]:
            for sp in (1, 2):
                one(ctx, C, (first, v, u), split=sp)


def many(ctx):
    """hundreds of names, long names and values, long chains, long statements"""
    C = impl.toy()
    for n in (10, 100, 256, 1000):
        names = ['n%d' % i for i in range(n)]
        defs = tuple('.define %s %d' % (x, i % 256) for i, x in enumerate(names))
        one(ctx, C, defs + tuple('LDI %s' % x for x in names[::7]) + ('.db ' + ' '.join(names), '.dw ' + '+'.join(names), '.dw n1+n11+n111 n1 n10 n100', 'JP n%d+n1' % (n - 1)))
        # the latest value wins, each use sees the value of its place
        one(ctx, C, tuple(s for i in range(n) for s in ('.define K %d' % (i % 256), 'LDI K', '.db K "K" K+K-K')))
        # chains: each name takes the value the previous one has at that point
        one(ctx, C, ('.define n0 3',) + tuple('.define n%d n%d' % (i, i - 1) for i in range(1, n)) + ('.define n0 4', 'LDI n%d' % (n - 1), 'LDI n0'))
        long = 'k' * n
        one(ctx, C, ('.define %s 5' % long, '.define %sk 6' % long, '.define %s 7' % long[1:], 'ADD %s %sk' % (long, long), 'ADD %s %s+%sk' % (long[1:] or '7', long, long), '.db "%s"' % long, '%sx:' % long, 'JP %sx' % long, 'LDI %sK' % long))
        one(ctx, C, ('.define V ' + '+'.join(['1'] * min(n, 250)), 'LDI V', '.dw V*2 V', '.define W V+V', '.dw W'))
        one(ctx, C, ('.define T "' + 'ab;,: ' * n + '"', '.db T T', '.define K 1', '.db T K "T"'))
        one(ctx, C, tuple(x for i in range(n) for x in ('.define OP%d LDI' % i, 'OP%d %d' % (i, i % 256), 'op%d 1' % i if i == n - 1 else 'OP%d 1' % (i // 2))))


def long_names(ctx):
    """names of every length up to 300, alone and in front of, between and behind operators"""
    C = impl.toy()
    for n in list(range(1, 70)) + [127, 128, 129, 255, 256, 257, 300, 1025]:
        core.arm()
        for name in ('q' * n, 'Q.' * (n // 2) + 'z', 'a_' * (n // 2) + '1'):
            d = '.define %s 5' % name
            for use in ('LDI %s', 'LDI %s+1', 'LDI 1+%s', 'LDI %s+1+%s', 'LDI 1+%s+1', 'ADD %s %s+%s', '.db %s+1 "%s+1"', '.dw 2*%s+%s|%s', '.org %s+3', '.fill %s+1', 'JP <%s+1'):
                one(ctx, C, (d, use.replace('%s', name), '.db 9'))
            one(ctx, C, (d, '.define v%s %s+2' % (name, name), '.db v%s v%s+1' % (name, name), 'LDI %s' % name))


def shards(tier):
    out = [('class', class_level, ()), ('malformed', malformed, ()), ('many', many, ()), ('long names', long_names, ())] + [('digits %s' % c, digits, (c,)) for c in NOTATIONS]
    for a in DEFS + USES:
        out.append(('seq3 ' + a, explore, ((a,), 3, DEFS, USES)))
    for a in DEFS:
        out.append(('split ' + a, splits, (a,)))
        few = ['.define K 5', '.define k 9', '.define E K+1', '.define K K+1', '.define OP LDI', 'a:', 'OP K']
        out.append(('seq4 ' + a, explore, ((a,), 4 if tier == 'quick' else 5, few, ['ADD k K+k', '.db E K "K"', 'OP K', 'JP K+a'])))
        if tier == 'thorough':
            for b in DEFS:
                out.append(('seq4 %s %s' % (a, b), explore, ((a, b), 4, DEFS, USES)))
    out += wrapped.shards(wrapped.defines, tier == 'thorough')
    return out


if __name__ == '__main__':
    core.main('C06', shards, rule='all programs of 3 statements (4 thorough) over 16 definitions and 34 uses, 4-5 statements on the densest subset; class-level and registered defines; names of hexadecimal digits against numbers in 23 statements of 13 processors; all 1-2 character names; every instruction form of every processor with all its words given by defines, and names of 1..70 and more characters in every position',
              assumptions=['a value mentioning a name defined later is not rescanned and not part of the alphabet comparisons beyond the left-to-right reading'])
