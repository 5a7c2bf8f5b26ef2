"""C17: data directives - all short lists over boundary values, strings and labels."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, impl

DIRS = {'db': 1, 'byte': 1, 'dw': 2, 'word': 2, 'dd': 4, 'dl': 4, 'dword': 4}
LABS = {'z': 0, 'l1': 1, 'l9': 9, 'l255': 255, 'l256': 256, 'lx': 0x1234, 'lffff': 0xFFFF, 'l10000': 0x10000, 'lbig': 0x89ABCDEF, 'lmax': 0xFFFFFFFF, 'lover': 1 << 32}
HEAD = ''.join('.org $%X\n%s:\n' % (v, k) for k, v in LABS.items()) + '.org 0\n'


def literals(bits):
    m = 1 << bits
    return {('%d' % v if v < 0 or i % 2 else '$%x' % v): v for i, v in enumerate([0, 1, 2, 9, 10, 99, 127, 128, m // 2 - 1, m // 2, m - 2, m - 1, m, m + 1, -1, -2, -m // 2, -m // 2 - 1, 0x12, 0x123, 0x1234, 0x12345678])}


TEXTS = {'"a"': 'a', "'b'": 'b', '"xyz"': 'xyz', '""': '', '"a b,c;d"': 'a b,c;d', '"q\\"q"': 'q"q', "'it'": 'it', '"\\\\"': '\\', '"1"': '1', '"$F+1"': '$F+1', '"~ !"': '~ !'}


def enc(op, n, item, big):
    """bytes of one item or None when refused"""
    o = 'big' if big else 'little'
    kind, v = item
    if kind == 'text':
        try:
            return b''.join(ord(c).to_bytes(n, o) for c in v) if all(ord(c) < (128 if n == 1 else 1 << (8 * n)) for c in v) else None
        except OverflowError:
            return None
    m = 1 << (8 * n)
    if kind == 'label':
        return v.to_bytes(n, o) if v < m else None
    if v < 0:
        return (v + m).to_bytes(n, o) if v >= -m // 2 else None
    return v.to_bytes(n, o) if v < m else None


def items(n):
    out = [(t, ('num', v)) for t, v in literals(8 * n).items()]
    out += [(t, ('text', v)) for t, v in TEXTS.items()]
    out += [(k, ('label', v)) for k, v in LABS.items()]
    return out


def run(ctx, C, op, toks, want, where, sig):
    body = '.db $A5\n.%s %s\ne:\n.db $5A\n' % (op, ' '.join(toks) if where != 'comma' else ','.join(toks))
    src = [HEAD + body] if where != 'after' else [body, HEAD]
    o = impl.run(C, src)
    ctx.trace()
    ctx.step(len(toks))
    if want is None:
        ctx.state((op, 'refused'))
        if o.kind not in ('asm-error', 'link-error'):
            ctx.fail(sig, 'refused', impl.brief(o), body)
        return
    ctx.state((op, want))
    full = b'\xA5' + want + b'\x5A'
    if o.kind != 'ok' or o.data != full:
        ctx.fail(sig, full, impl.brief(o), body)
    elif o.asm.get_label_absolute_address_by_name('e') != 1 + len(want):
        ctx.fail(sig, 'next address %d' % (1 + len(want)), o.asm.get_label_absolute_address_by_name('e'), body)


def lists(ctx, op, big, name=None):
    C = impl.toy(big_endian=big) if name is None else impl.load(name)
    n = DIRS[op]
    its = items(n)
    if name is not None:
        its = [i for i in its if i[1][0] != 'num' or not i[0].startswith('$')]
    for length in (1, 2) if name is None else (1,):
        for combo in itertools.product(its, repeat=length):
            parts = [enc(op, n, c[1], big) for c in combo]
            want = None if None in parts else b''.join(parts)
            for where in (('before', 'after') if length == 1 or want is None and False else ('comma',)):
                if name is not None:
                    # the processors differ in number syntax: addresses in decimal
                    head = ''.join('.org %d\n%s:\n' % (v, k) for k, v in LABS.items()) + '.org 0\n'
                    o = impl.run(C, head + '.%s %s\n' % (op, ' '.join(c[0] for c in combo)))
                    ctx.trace()
                    ctx.state((name, op, want))
                    if (want is None) != (o.kind != 'ok') or (want is not None and o.data != want):
                        ctx.fail('%s .%s %s' % (name, op, combo[0][0]), want if want is not None else 'refused', impl.brief(o))
                    continue
                run(ctx, C, op, [c[0] for c in combo], want, where, '.%s %s (labels %s, %s)' % (op, ' '.join(c[0] for c in combo), where, 'big endian' if big else 'little endian'))
    ctx.sample({'directive': op, 'items': len(its), 'big': big}, 1)


def triples(ctx, op, big):
    C = impl.toy(big_endian=big)
    n = DIRS[op]
    its = [i for i in items(n) if enc(op, n, i[1], big) is not None]
    its = [its[k] for k in range(0, len(its), 3)]
    for length in (3, 4) if ctx.thorough else (3,):
        for combo in itertools.product(its, repeat=length):
            want = b''.join(enc(op, n, c[1], big) for c in combo)
            run(ctx, C, op, [c[0] for c in combo], want, 'before', '.%s %s (%s endian)' % (op, ' '.join(c[0] for c in combo), 'big' if big else 'little'))


def every(ctx, lo, hi):
    """every 16 bit value, as numbers and as text of decimal digits"""
    for big in (False, True):
        C = impl.toy(big_endian=big)
        o = 'big' if big else 'little'
        for base in range(lo, hi, 512):
            vs = list(range(base, base + 512))
            src = '.dw %s\n.dd %s\n.dw_to_ascii %s\n.dw_to_asciiz %d\n' % (' '.join(map(str, vs)), ','.join('$%x' % (v * 65537) for v in vs), ' '.join(map(str, vs)), base)
            want = b''.join(v.to_bytes(2, o) for v in vs) + b''.join((v * 65537).to_bytes(4, o) for v in vs) + ''.join(map(str, vs)).encode() + str(base).encode() + b'\0'
            if base < 256:
                src += '.db_to_ascii %s\n.db_to_asciiz 7 8 %s\n' % (' '.join(str(v) for v in range(256)), ' '.join('$%x' % v for v in range(256)))
                want += ''.join(str(v) for v in range(256)).encode() + b'78' + ''.join(str(v) for v in range(256)).encode() + b'\0'
            out = impl.run(C, src)
            ctx.trace(len(vs))
            ctx.step(len(vs))
            ctx.state((big, base))
            if out.data != want:
                ctx.fail('values %d.. %s' % (base, o), want[:40], impl.brief(out)[:200])
            # labels as decimal text: padded
            src = ''.join('.org %d\nl%d:\n' % (v, v) for v in vs[::16]) + '.org 0\n.dw_to_ascii %s\n.db $FF\n.dw_to_asciiz %s\n' % (' '.join('l%d' % v for v in vs[::16]), ' '.join('l%d' % v for v in vs[::16]))
            t = ''.join('%05d' % v for v in vs[::16]).encode()
            out = impl.run(C, src)
            ctx.trace()
            if out.data != t + b'\xff' + t + b'\0':
                ctx.fail('label texts %d..' % base, t, impl.brief(out)[:200])


def large(ctx, big):
    """lists and texts of thousands of items, labels among them"""
    C = impl.toy(big_endian=big)
    o = 'big' if big else 'little'
    for op, n in DIRS.items():
        for count in (100, 255, 256, 257, 1000, 5000):
            vs = [(i * 40503) % (1 << 8 * n) for i in range(count)]
            for lab in (False, True):
                toks, want = [], b''
                for i, v in enumerate(vs):
                    if lab and i % 5 == 0:
                        v = (1, 9, 255)[i % 3]
                        toks.append('l%d' % v)
                    elif i % 7 == 3:
                        toks.append('"ab"')
                        want += b''.join(ord(c).to_bytes(n, o) for c in 'ab')
                        continue
                    else:
                        toks.append('%d' % v if i % 2 else '$%x' % v)
                    want += v.to_bytes(n, o)
                for where in ('before', 'after', 'comma'):
                    run(ctx, C, op, toks, want, where, '.%s of %d items, labels %s, %s, %s endian' % (op, count, lab, where, o))
        for size in (255, 256, 65535, 65536, 70001):
            text = ''.join(chr(33 + (i * 7) % 90) for i in range(size)).replace('"', 'x').replace('\\', 'y')
            run(ctx, C, op, ['"%s"' % text], b''.join(ord(c).to_bytes(n, o) for c in text), 'before', '.%s of %d characters' % (op, size))
            run(ctx, C, op, ['1', '"%s"' % text, 'l1', '"%s"' % text[:9]], (1).to_bytes(n, o) + b''.join(ord(c).to_bytes(n, o) for c in text) + (1).to_bytes(n, o) + b''.join(ord(c).to_bytes(n, o) for c in text[:9]), 'after', '.%s of %d characters in a list' % (op, size))


def ascii_text(ctx):
    for big in (False, True):
        o = 'big' if big else 'little'
        C = impl.toy(big_endian=big)
        for v in list(range(256)):
            for op, lab in (('db_to_ascii', False), ('db_to_asciiz', False)):
                src = '.db 1\n.%s l %d l\n.db 2\n.org %d\nl:\n' % (op, v, v)
                want = b'\x01' + ('%03d%d%03d' % (v, v, v)).encode() + (b'\0' if op[-1] == 'z' else b'') + b'\x02'
                out = impl.run(C, src)
                ctx.trace()
                ctx.state((op, v))
                ctx.expect('.%s of label %d' % (op, v), ('ok', want), (out.kind, out.data))
        for op, bits in (('db_to_ascii', 8), ('db_to_asciiz', 8), ('dw_to_ascii', 16), ('dw_to_asciiz', 16)):
            for v in (1 << bits, (1 << bits) + 1, 1 << 20, 1 << 40):
                for src in ('.%s %d' % (op, v), '.%s l\n.org %d\nl:' % (op, v), '.org %d\nl:\n.%s 1 l' % (v, op), '.%s nope' % op, '.%s 1 2 $' % op):
                    out = impl.run(C, src)
                    ctx.trace()
                    if out.kind not in ('asm-error', 'link-error'):
                        ctx.fail(src, 'refused', impl.brief(out))
        # every character
        for c in range(32, 0x250):
            ch = chr(c)
            q = '\\' + ch if ch in '"\\' else ch
            for op, n in (('db', 1), ('dw', 2), ('dd', 4)):
                for lit in ('"%s"' % q, '"a%sb"' % q, "'\\%s'" % ch):
                    txt = ch if 'a' not in lit[:2] or ch == 'a' and lit == '"a"' else 'a' + ch + 'b'
                    if n == 1 and c > 127:
                        want = None
                    else:
                        want = b''.join(ord(x).to_bytes(n, o) for x in txt)
                    out = impl.run(C, '.%s 7 %s 8' % (op, lit))
                    ctx.trace()
                    ctx.state((op, c))
                    full = None if want is None else (7).to_bytes(n, o) + want + (8).to_bytes(n, o)
                    if (full is None) != (out.kind != 'ok') or (full is not None and out.data != full) or out.kind == 'raw-error':
                        ctx.fail('.%s %s' % (op, lit), full or 'refused', impl.brief(out))


def shards(tier):
    out = [('ascii', ascii_text, ()), ('large le', large, (False,)), ('large be', large, (True,))]
    for op in DIRS:
        for big in (False, True):
            out.append(('lists %s %s' % (op, big), lists, (op, big)))
            out.append(('triples %s %s' % (op, big), triples, (op, big)))
        for name, big in (('mos6502', 0), ('z80', 0), ('lr35902', 0), ('i8086', 0), ('mips32', None), ('m68k', 1), ('thumb', 0), ('ppc', 1), ('x86', 0)):
            if big is None:
                big = impl.load(name).big_endian
            out.append(('cpu %s %s' % (name, op), lists, (op, bool(big), name)))
    step = 2048
    for lo in range(0, 65536, step):
        out.append(('every %d' % lo, every, (lo, lo + step)))
    return out


if __name__ == '__main__':
    core.main('C17', shards, rule='all lists of up to 3 (4) items over numbers around every limit, 11 texts and 11 labels, for each directive and byte order; every 16 bit value; every character up to U+024F; each processor class',
              assumptions=['text wider than bytes is emitted as UTF-16/32 code units in processor order', 'a negative number in a decimal-text directive is not specified', 'quoted operands of decimal-text directives are not specified'])
