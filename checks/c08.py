"""C08: repeat blocks equal their body written N times."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, impl, wrapped
from checks.c07 import summary

BODY = ['NOP', 'LDI a', 'BR a', 'BR b', 'BS b', 'BRL b', 'JP a+1', 'ADD a b', '.ram 2', '.db 1 a 3', '.dw b 7', '.fill 3 $55', '.fill 0', '.db_to_ascii a', 'M 4', 'M a', 'JQ c', 'TW a b', '.define J 9', 'LDI K', '.log OFF', '.db "xy"', 'BR 3', '.dd b-a', 'LDI nope', 'LDI 300', 'BOGUS']
PRE = [[], ['NOP'], ['.org 8', '.dw a', '.org 0'], ['.db 1 2 3', '.org 2'], ['.org 8', 'NOP'], ['.org $40 $7F'], ['.org $FFE0'], ['.ram 5', '.db 1']]
HEAD = ['.macro M p', 'LDI p', 'NOP', '.endmacro', '.define K 6', '.fill_value']
LAB = {'before': (['a:', 'NOP', 'b:', 'c:'], []), 'after': ([], ['a:', '.fill 3', 'b:', '.align 4', 'c:']), 'around': (['a:', '.align 4', 'c:'], ['b:'])}
HEAD = HEAD[:-1]


def one(ctx, C, pre, place, count, body, tail=('.db $EE',), tok=None):
    b, a = LAB[place]
    head = HEAD + list(pre) + b
    rep = head + ['.repeat %s' % (tok or count)] + list(body) + ['.endrepeat', 'E:'] + list(tail) + a
    hand = head + list(body) * count + ['E:'] + list(tail) + a
    want = summary(impl.run(C, '\n'.join(hand)))
    o = impl.run(C, '\n'.join(rep))
    got = summary(o)
    ctx.trace()
    ctx.step(len(rep))
    ctx.state(want)
    if want != got:
        ctx.fail(' | '.join(rep), {'written out': want}, impl.brief(o) + ' ' + str(got[2]), rep)


def explore(ctx, depth, place, first, counts, pres, alpha):
    C = impl.toy(fill_value=0xF0)
    for rest in itertools.product(alpha, repeat=depth - 1):
        for n in counts:
            for pre in pres:
                one(ctx, C, pre, place, n, (first,) + rest)
    ctx.sample({'first': first, 'depth': depth, 'counts': counts}, 1)


def several(ctx, big):
    """several blocks in one program, references inside and between them"""
    C = impl.toy(big_endian=big)
    alpha = ['LDI a', 'BR a', '.ram 3', 'JP b', '.dw a', 'TW b a']
    for b1 in itertools.product(alpha, repeat=2):
        for b2 in alpha:
            for n1, n2 in itertools.product((1, 2, 3), repeat=2):
                for mid in ('a:', '.org $30'):
                    def prog(f):
                        return f(n1, b1) + [mid] + f(n2, (b2,)) + ['b:', 'NOP'] + f(2, (b2, 'NOP')) + (['a:'] if mid != 'a:' else [])
                    rep = prog(lambda n, b: ['.repeat %d' % n] + list(b) + ['.endrepeat'])
                    hand = prog(lambda n, b: list(b) * n)
                    want = summary(impl.run(C, '\n'.join(hand)))
                    for sp in (None, 1, 3, 5):
                        o = impl.run(C, '\n'.join(rep) if sp is None else ['\n'.join(rep[:sp]), '\n'.join(rep[sp:])])
                        ctx.trace()
                        ctx.step()
                        ctx.state(want)
                        if summary(o) != want:
                            ctx.fail(' | '.join(rep) + ' split %s' % sp, want, impl.brief(o), rep)


def counts(ctx):
    C = impl.toy()
    for n in (1, 2, 7, 10, 16, 63, 100, 127, 255, 256, 1000):
        for tok in (str(n), '$%X' % n, '%' + bin(n)[2:], '$%X+0' % n, '%d-1+1' % n, '%d*1' % n):
            for body in (('NOP',), ('.dw a',), ('BR -2', '.ram 1'), (), ('.dw b', 'JP b')):
                one(ctx, C, (), 'around', n, body, tok=tok)
    for n in range(1, 140):
        one(ctx, C, (), 'around', n, ('BR a',))
        one(ctx, C, (), 'around', n, ('BR b',))
        one(ctx, C, (), 'after', n, ('BS a',))
        one(ctx, C, (), 'around', n, ('.ram 1', 'BR a'))


def long_bodies(ctx, place):
    """bodies of thousands of bytes and references, more copies than any table"""
    C = impl.toy()
    for n in (60, 129, 300, 1500):
        for unit in (('JP a',), ('LDI a', 'NOP'), ('.dd b', '.ram 1'), ('.fill 5 1', 'BRL b'), ('M a',), ('TW a b', '.db 1 a'), ('BR 3', 'JP b+1')):
            for count in (1, 2, 3, 7):
                if n > 300 and count > 2:
                    continue
                pre = ()
                if 'b' in unit[-1] and place == 'after' and 'TW' in unit[0]:
                    pre = ()
                one(ctx, C, pre, place, count, unit * n)
    for count in (2, 3):
        one(ctx, C, (), place, count, ('JP a', '.fill 70000 7', 'JP b'))
        one(ctx, C, (), place, count, ('.dd a', '.ram 70000', '.dd b'))
        one(ctx, C, (), place, count, ('.db ' + ' '.join('a' for _ in range(500)), '.dw ' + ' '.join('b' for _ in range(300))))
    one(ctx, C, (), place, 30000, ('JP a', '.ram 1'))
    one(ctx, C, (), place, 70000, ('NOP',))


def malformed(ctx):
    C = impl.toy()
    bad = ['.repeat 0', '.repeat -1', '.repeat -100', '.repeat', '.repeat x', '.repeat 1 2', '.repeat "2"', '.repeat $', '.endrepeat', '.repeat 2|.repeat 2', '.repeat 2|NOP|.repeat 3|NOP|.endrepeat|.endrepeat', '.repeat 2|NOP|.endrepeat|.endrepeat',
           '.endrepeat|.repeat 2', '.repeat 1-1', '.repeat 3-5', '.repeat %0', '.repeat $0', '.repeat 2|NOPE|.endrepeat', '.repeat 2|LDI 256|.endrepeat', '.repeat 1|.endrepeat|.endrepeat']
    for b in bad:
        for pre in ([], ['NOP'], ['.repeat 2', 'NOP', '.endrepeat']):
            o = impl.run(C, '\n'.join(pre + b.split('|')))
            ctx.trace()
            ctx.step()
            ctx.state((b, o.kind))
            if o.kind != 'asm-error' or 'line ' not in str(o.exc):
                ctx.fail(' | '.join(pre + [b]), 'a diagnostic', impl.brief(o))
    # a rejected repeat leaves nothing open
    for b in ('.repeat 0', '.repeat -1', '.repeat x', '.repeat'):
        core.arm()
        a = C()
        try:
            a.assemble(b)
        except impl.asm_error():
            pass
        a.assemble('.repeat 2\nLDI 7\n.endrepeat')
        ctx.trace()
        ctx.expect('a good block after ' + b, b'\xA1\x07' * 2, bytes(a.assembled_bytes))
        try:
            a.assemble('.endrepeat')
            ctx.fail('stray end after ' + b, 'a diagnostic', 'accepted')
        except impl.asm_error():
            pass


def shards(tier):
    out = [('counts', counts, ()), ('malformed', malformed, ()), ('several-le', several, (False,)), ('several-be', several, (True,))]
    t = tier == 'thorough'
    out += [('long ' + p, long_bodies, (p,)) for p in LAB]
    for place in LAB:
        for f in BODY:
            out.append(('d1 %s %s' % (place, f), explore, (1, place, f, (1, 2, 3, 9), PRE, BODY)))
            out.append(('d2 %s %s' % (place, f), explore, (2, place, f, (1, 2, 3, 5) if t else (1, 3), PRE if t else PRE[2:6:2], BODY)))
            if t or place == 'around':
                out.append(('d3 %s %s' % (place, f), explore, (3, place, f, (2, 3) if t else (2,), PRE[2:6] if t else PRE[4:5], BODY)))
    out += wrapped.shards(wrapped.repeats, tier == 'thorough')
    return out


if __name__ == '__main__':
    core.main('C08', shards, rule='all bodies up to 3 statements of a 26-statement alphabet x counts x layouts x label positions, several blocks per program, counts up to 70000 in every notation, bodies of up to 140000 bytes and 3000 references, malformed blocks; every instruction form of every processor repeated',
              assumptions=['bodies that define labels or names, change the origin or align are not part of the property'])
