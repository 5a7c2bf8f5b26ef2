"""C11: every label reference is patched with the final address - all statement sequences against a link model."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, fields as fieldmod, impl, linkref

ALPHA = ['a:', 'b:', '.db a', '.dw b', '.dd a+1 b', 'JP a', 'BR a', 'BR b', 'BRL b-1', 'ADD a b', 'LDI <b', '.db $FF 1', '.org $123', '.ram 3', 'JQ b', 'TW a b', '.dw_to_ascii a']
CORE = ['a:', 'b:', '.dw a+b', 'BR a', 'BRL b', 'JP b', '.org $1000', '.fill 5 $EE', '.ram 7']


FAR = ['a:', 'b:', '.dw a b', 'BR b', '.org 0', '.org $FC', '.ram $102', '.ram 1', '.fill 300 1', '.db 1 2 3', '.dd b-a']


def one(ctx, C, big, seq, splits=(None,)):
    kind, data, m = linkref.predict(seq, big)
    if kind != 'ok':
        return False
    for split in splits:
        src = ['\n'.join(seq)] if split is None else ['\n'.join(seq[:split]), '\n'.join(seq[split:])]
        o = impl.run(C, src)
        ctx.trace()
        ctx.step(len(seq))
        if o.kind != 'ok' or o.data != data:
            ctx.fail(' | '.join(seq) + (' (big endian)' if big else '') + ('' if split is None else ' split at %d' % split), data, impl.brief(o), seq)
            continue
        got = {k: o.asm.get_label_absolute_address_by_name(k) for k in m.labels}
        if got != m.labels:
            ctx.fail('labels of ' + ' | '.join(seq), m.labels, got, seq)
    ctx.state((big, data))
    return True


def explore(ctx, alpha, first, depth, big):
    C = impl.toy(big_endian=big)
    for rest in itertools.product(alpha, repeat=depth - len(first)):
        seq = first + rest
        if seq.count('a:') > 1 or seq.count('b:') > 1:
            continue
        one(ctx, C, big, seq)


SETS = [
    ['a:', 'b:', '.db a', '.dw b', 'BR a', 'JP b', '.dd a'],
    ['a:', 'b:', 'ADD a b', '.ram 2', 'BRL a', '.db_to_ascii a', '.fill 3 $FF'],
    ['.org $40', 'a:', '.org $80', 'b:', '.dw a b a+b', 'BR b', 'ADD b a'],
    ['a:', 'TW a a', 'TW b a', '.ram 4', 'TW 5 b', 'TW a 8', 'b:'],
    ['a:', 'NOP', 'BR a', 'BR a', 'BR a', 'b:', '.db b-a'],
    ['.org 4', 'a:', 'JQ a', 'JQ b', '.fill 4 $FF', 'b:', '.dd a|b'],
    ['.db $FF', 'a:', 'LDI a', '.db $FF', 'JP a', '.db $FF', '.dd a'],
]


def perms(ctx, items, big):
    C = impl.toy(big_endian=big)
    for seq in itertools.permutations(items):
        one(ctx, C, big, list(seq), (None, 1, 3, 5))
    ctx.sample({'permutations of': items})


def fields(ctx, big):
    """every representable address of 8-bit fields, all distances of relative ones, byte patterns of wide ones, between guard bytes"""
    C = impl.toy(big_endian=big)
    wide = sorted({x for k in range(32) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1)} | {0x1234, 0xFEDC, 0x12345678, 0xFEDCBA98, 0x00FF00FF, 0xFFFFFFFF, 0x80000001})
    for order in (0, 1):
        for guard in ('$FF', '0'):
            for v in range(256):
                for st in ('.db t', '.db 1 t 2', 'LDI t', 'ADD t 3', 'ADD 4 t', 'ADD t t', '.byte t+1', 'LDI t-1', '.db_to_ascii t', '.db_to_asciiz t'):
                    d = ['.org %d' % v, 't:', '.org 5']
                    use = ['.db %s' % guard, st, '.db %s' % guard]
                    one(ctx, C, big, d + use if order else use + d)
            for v in wide:
                for st in ('.dw t', '.word 1 t', '.dd t', '.dword 5 t 7', '.dl t', 'JP t', 'JQ t', '.dw_to_ascii t', '.dw_to_asciiz t', 'TW t 0', 'TW t-1 5', '.dw <t', '.dw <<t', '.db <t', '.db >t', '.db >>t', '.db >>>t', '.dw >t', '.dd t/4', '.dd t&$FFFF', '.dw t&255+1'):
                    d = ['.org $%X' % v, 't:', '.org 5']
                    use = ['.db %s' % guard, st, '.db %s' % guard]
                    one(ctx, C, big, d + use if order else use + d)
    for base in (0, 1, 100, 0x8000, 0xFFF0):
        for d in range(-130, 131):
            for st, off in (('BR t', 2), ('BR t+1', 2), ('BR t-2', 2), ('BRL t', 3), ('TW 7 t', 4), ('TW $FFF t+1', 4)):
                if base + off + d >= 0:
                    for order in (0, 1):
                        use = ['.org %d' % base, st, '.db $FF']
                        lab = ['.org %d' % (base + off + d), 't:']
                        one(ctx, C, big, lab + use if order else use + lab)
        for d in (-2048, -2047, -1025, 1024, 2047):
            if base + 4 + d >= 0:
                for lines in (['.org %d' % base, 'TW 1 t', '.db $FF', '.org %d' % (base + 4 + d), 't:'], ['.org %d' % (base + 4 + d), 't:', '.org %d' % base, 'TW 1 t', '.db $FF']):
                    one(ctx, C, big, lines)
        for d in (-32768, -32767, -129, -257, 255, 256, 257, 32766, 32767):
            if base + 3 + d >= 0:
                one(ctx, C, big, ['.org %d' % base, 'BRL t', '.db $FF', '.org %d' % (base + 3 + d), 't:'])


def many(ctx):
    """many labels and references at once"""
    for big in (False, True):
        C = impl.toy(big_endian=big)
        for n in (1, 2, 50, 300, 1500):
            for step in (0, 1, 7):
                seq = []
                for i in range(n):
                    seq += ['l%d:' % i, '.dw l%d l%d+%d' % ((i * 7 + step) % n, (i * 3) % n, i), 'JP l%d' % (n - 1 - i), '.dd l%d' % i]
                    if i % 9 == step:
                        seq.append('.org $%X' % (0x200 + i * 32))
                one(ctx, C, big, seq)


def large(ctx, big):
    """references thousands of bytes apart, long names, names that start alike, long lists"""
    C = impl.toy(big_endian=big)
    for gap in (0, 255, 256, 65535, 65536, 70000, 200000):
        for first in (0, 1, 300):
            one(ctx, C, big, ['.fill %d 1' % first, 'a:', '.dd b a', '.fill %d 9' % gap, '.dd a b b-a', 'b:', '.dd b', 'BR b', '.db $FF'], (None, 2, 4, 6))
            one(ctx, C, big, ['.dd z', '.fill %d 9' % gap, 'BR z', 'JQ y', '.ram 2', 'z:', '.org $80', 'y:', '.fill %d 3' % first, '.dw y'])
    for n in (10, 64, 255, 1000):
        x = 'L' * n
        one(ctx, C, big, ['.org 9', x + ':', '.org 300', x + 'L:', '.dw %s %sL' % (x, x), '.dd %s+%sL %sL-%s' % (x, x, x, x), '.org 77', x[1:] + '_:', x.lower() + ':', '.dw %s %s_' % (x.lower(), x[1:])])
        one(ctx, C, big, ['.org 7', 'a:', '.db ' + ' '.join(['a', '1'] * n), '.org 515', 'b:', '.dw ' + ' '.join(['a', 'b'] * n), '.dd ' + ' '.join(['b+%d' % i for i in range(n)])])
        seq = []
        for i in range(n):
            seq += ['q%d:' % i, 'BR q%d' % max(0, i - 30), 'JP q%d' % (n - 1 - i)]
        one(ctx, C, big, seq)
        one(ctx, C, big, seq[::-1] if n < 20 else seq[3:] + ['q0:'] if n < 60 else seq)


# names are free: those of mnemonics, directives, macros, registers-like words, leading dots, digits inside, any length or case
NAMES = ['nop', 'NOP', 'LDI', 'jp', 'Br', 'db', 'org', 'macro', 'ENDMACRO', 'define', 'section', '.loop', '..', '.l.', '.org', '.DB', '_', '__x', 'x.y', 'x.', 'a1', 'A1', 'aA', 'Aa', 'AA', 'loopstart', 'LoopStart',
         'LOOPSTART', 'FACE', 'beef', 'e5', '0x', '1a', '2nd', 'b', 'M', 'mac', 'PC', 'sp', 'on', 'ON', 'RWX', 'None', 'self', 'org_counter', 'r' * 64, 'R' * 64, 'z' * 300, 'q_' * 129]


def names(ctx, first):
    """a program and its copies under every pair of label names give the same image"""
    shape = ['.macro MAC p', 'LDI p+1', '.endmacro', '%(b)s:', '.db %(a)s', '.dw %(a)s-%(b)s', 'NOP', 'BR %(a)s', 'ADD %(b)s %(a)s+1', 'MAC %(a)s', '.repeat 2', 'TW %(b)s %(a)s', '.endrepeat', '.org 40',
             '%(a)s: JP %(b)s', '.dd %(a)s*%(b)s', '.db_to_ascii %(a)s', 'LDI %(b)s|%(a)s']
    for big in (False, True):
        C = impl.toy(big_endian=big)
        want = impl.run(C, '\n'.join(shape) % {'a': 'first', 'b': 'second'})
        for other in NAMES:
            if first == other:
                continue
            for x, y in ((first, other),):
                core.arm()
                src = '\n'.join(shape) % {'a': x, 'b': y}
                o = impl.run(C, src)
                ctx.trace()
                ctx.step(len(shape))
                ctx.state((x, y))
                if o.kind != 'ok' or o.data != want.data or set(o.asm.labels) != {x, y}:
                    ctx.fail('labels %s and %s' % (x, y), impl.brief(want), impl.brief(o), src)


def shards(tier):
    out = [('fields-%s' % b, fields, (b,)) for b in (False, True)] + [('many', many, ())] + [('large-%s' % b, large, (b,)) for b in (False, True)]
    for i, s in enumerate(SETS):
        for b in (False, True):
            out.append(('perms%d-%s' % (i, b), perms, (s, b)))
    for a in ALPHA:
        out.append(('seq4 ' + a, explore, (ALPHA, (a,), 4, False)))
        out.append(('seq3 big ' + a, explore, (ALPHA, (a,), 3 if tier == 'quick' else 4, True)))
        if tier == 'thorough':
            for b in ALPHA:
                out.append(('seq5 %s %s' % (a, b), explore, (ALPHA, (a, b), 5, False)))
    for b in (False, True):
        for k in ('abs', 'signed', 'rel'):
            sh = fieldmod.shapes(tier == 'thorough')
            for i in range(0, len(sh), 60 if tier == 'quick' else 200):
                out.append(('shape %s %s %d' % (b, k, i), fieldmod.explore, (b, k, sh[i:i + (60 if tier == 'quick' else 200)], False)))
    for x in NAMES:
        out.append(('names ' + x[:20], names, (x,)))
    for a in FAR:
        out.append(('far4 ' + a, explore, (FAR, (a,), 4 if tier == 'quick' else 5, False)))
    for a in CORE:
        out.append(('core5 ' + a, explore, (CORE, (a,), 5 if tier == 'quick' else 6, True)))
    return out


if __name__ == '__main__':
    core.main('C11', shards, rule='all sequences of the 16-statement alphabet to depth 4 (5) and the 9-statement one to depth 5 (6); all orders of six 7-statement programs with 4 ways of splitting them over calls; every 8-bit field value, relative distance and power-of-two address between guard bytes',
              assumptions=['label references inside data, absolute, relative, packed-bits and text contexts of a custom processor built with the documented API'])
