"""C12: unrepresentable links are refused, naming the label - and representable ones are not."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, fields as fieldmod, impl, linkref


def one(ctx, C, big, seq, split=None):
    kind, data, m = linkref.predict(seq, big)
    src = ['\n'.join(seq)] if split is None else ['\n'.join(seq[:split]), '\n'.join(seq[split:])]
    o = impl.run(C, src)
    ctx.trace()
    ctx.step(len(seq))
    sig = ' | '.join(seq) + (' (big endian)' if big else '') + ('' if split is None else ' split at %d' % split)
    if kind == 'ok':
        ctx.state(('ok', big, data))
        if o.kind != 'ok' or o.data != data:
            ctx.fail(sig, data, impl.brief(o), seq)
        return
    ctx.state((kind, tuple(data), big, o.kind))
    if o.kind not in ('asm-error', 'link-error'):
        ctx.fail(sig, 'refused, naming one of %s' % sorted(set(data)), impl.brief(o), seq)
    elif not any(n in str(o.exc) for n in data):
        ctx.fail(sig, 'a diagnostic naming one of %s' % sorted(set(data)), impl.brief(o), seq)
    elif o.kind == 'link-error':
        # refused for good: trying again does not help
        try:
            core.arm()
            o.asm.link()
        except impl.asm_error():
            pass
        except Exception as e:  # noqa
            ctx.fail(sig + ' (second link)', 'refused', 'raw error %r' % e, seq)
        else:
            ctx.fail(sig + ' (second link)', 'refused', 'image ' + bytes(o.asm.assembled_bytes).hex(), seq)


LIMITS = [('.db', 8), ('TW', 12), ('LDI', 8), ('ADD 1', 8), ('.db_to_ascii', 8), ('.db_to_asciiz', 8), ('.dw', 16), ('.word', 16), ('JP', 16), ('.dw_to_ascii', 16), ('.dw_to_asciiz', 16), ('.dd', 32), ('.dword', 32), ('JQ', 26)]


def limits(ctx, op, bits, big):
    C = impl.toy(big_endian=big)
    vals = sorted({(1 << k) + d for k in (0, 1, 2, 4, bits - 1, bits, bits + 1, bits + 8, 32, 40, 63) for d in (-5, -4, -3, -2, -1, 0, 1, 2, 3, 4)} | {(1 << bits) + 0x100, (3 << bits)})
    for v in vals:
        if v < 0:
            continue
        for e in ('t', 't+1', 't-1', 't-4', 't*2', 't/2', '<t', '>t', '<<t', 't&255', 't|1', 't+4', '1+t', 't+t', 't-u', 'u-t'):
            for order in (0, 1, 2):
                lab = ['.org $%X' % v, 't:', '.org 3', 'u:', '.org 8']
                use = ['.db $EE', '%s %s%s' % (op, e, ' 0' if op == 'TW' else ''), '.db $EE']
                # a literal first operand is a number as soon as its labels are known (no padding, no link-time alignment check)
                if e == '1+t' and (op == 'JQ' or 'ascii' in op):
                    continue
                seq = lab + use if order == 0 else use + lab if order == 1 else lab[:2] + ['.org 8'] + use + lab[2:]
                one(ctx, C, big, seq)
    ctx.sample({'op': op, 'bits': bits, 'addresses': len(vals)}, 1)


def relative(ctx, op, size, bits):
    lim = 1 << (bits - 1)
    for big in (False, True):
        C = impl.toy(big_endian=big)
        for base in (0, 1, 5, 127, 128, 255, 0x7FF0, 0x8000, 0x10000, 0x123456):
            ds = {s * x + d for x in (0, 1, lim // 2, lim, 2 * lim, 4 * lim, 256 * lim) for s in (1, -1) for d in range(-3, 4)}
            for d in sorted(ds):
                t = base + size + d
                if t < 0:
                    continue
                for e in ('t', 't+1', 't-1'):
                    use = ['.org %d' % base, '%s %s' % (op, e), 'NOP']
                    lab = ['.org %d' % t, 't:']
                    one(ctx, C, big, lab + use)
                    one(ctx, C, big, use + lab)


ALPHA = ['a:', 'b:', '.db a', '.dw b', 'JP nope', 'BR a', 'BRL b', 'LDI b-a', 'JQ a', '.dd nope+a', '.org $FE', '.ram 129', '.fill 2 1']


def explore(ctx, first, depth):
    C = impl.toy()
    for rest in itertools.product(ALPHA, repeat=depth - 1):
        one(ctx, C, False, (first,) + rest)


def similar(ctx):
    C = impl.toy()
    # a label known under a similar name only
    near = ['lab', 'LAB', 'Lab', 'lAb', 'la', 'labb', 'lab_', '_lab', 'lab.', 'lab1', 'l', 'Lab_', 'b1', 'B1', 'ff', 'FF', 'fF']
    for x, y in itertools.permutations(near, 2):
        core.arm()
        for e in ('%s', '%s+1', '%s+', '3+%s', '<%s', '>%s', '<<%s-1', 'a+%s', '%s-a', '%s*%s', x + '-%s', '%s-' + x, '1|%s&' + x):
            for op in ('.dw', 'JP', 'BRL'):
                e2 = e.replace('%s', y)
                for seq in (['a:', x + ':', op + ' ' + e2], [op + ' ' + e2, 'a:', x + ':']):
                    o = impl.run(C, '\n'.join(seq))
                    ctx.trace()
                    ctx.step(3)
                    ctx.state((x, e2, op))
                    if o.kind not in ('asm-error', 'link-error') or y not in str(o.exc):
                        ctx.fail(' | '.join(seq), 'refused, naming ' + y, impl.brief(o), seq)


def unknown(ctx):
    C = impl.toy()
    names = ['nope', 'A', 'aa', 'a.', '_a', 'a1', 'lab', 'LAB', 'Lab']
    for op in [o for o, _ in LIMITS] + ['BR', 'BRL', 'TW a']:
        for n in names:
            for e in ('%s', '%s+1', 'a+%s', '<%s', '>%s', '%s-a', 'a-1+%s', '3+%s'):
                e = e % n + (' 1' if op == 'TW' else '')
                for seq in (['a:', 'NOP', op + ' ' + e], [op + ' ' + e, 'a:'], ['a:', op + ' ' + e, 'l:', 'la:', 'laB:', 'noPe:']):
                    for split in (None, 1, 2):
                        one(ctx, C, False, seq, split)
    for dup in (['a:', 'a:'], ['a:', 'NOP', 'a:'], ['a:', '.org 4', 'b:', 'a:', 'JP a'], ['JP a', 'a:', '.dw 1', 'a:', 'NOP']):
        for split in range(0, len(dup) + 1):
            one(ctx, C, False, dup, split)
    # the same name twice: at the same or another address, offset, region, section, file
    gaps = ([], ['NOP'], ['.org 1'], ['.org 3'], ['.org 3', 'NOP'], ['.org 1 2'], ['.section s R'], ['.section t RW 1'], ['.ram 2', '.org 1'], ['.macro M', 'NOP', '.endmacro'], ['.align 4'], ['.fill 0'])
    for pre in ([], ['.org 1'], ['.org 1', '.db 1'], ['.section q RX 1']):
        for gap in gaps:
            for name in ('x', 'X1', '.l', '_'):
                for tail in ([], ['.db 1'], ['.dw %s' % name]):
                    seq = pre + [name + ':'] + gap + [name + ':'] + tail
                    for split in (None, len(pre) + 1, len(pre) + 1 + len(gap)):
                        src = ['\n'.join(seq)] if split is None else ['\n'.join(seq[:split]), '\n'.join(seq[split:])]
                        o = impl.run(C, src)
                        ctx.trace()
                        ctx.step(len(seq))
                        ctx.state((tuple(seq), o.kind))
                        if o.kind not in ('asm-error', 'link-error') or name not in str(o.exc):
                            ctx.fail(' | '.join(seq) + ' split %s' % split, 'refused, naming ' + name, impl.brief(o), seq)


def narrow(ctx, big, kind):
    """fields narrower than the values the operand may have: what does not fit in the bits is refused, whatever the operand's range"""
    for size in (1, 2, 4, 8):
        n = size * 8
        for lo in sorted({0, 1, 4, n // 2}):
            for hi in sorted({lo, lo + 2, lo + 3, lo + 6, lo + 10, n // 2, n - 1} & set(range(lo, n))):
                w = hi - lo + 1
                for width in sorted({w + 1, w + 2, w + 5, w + 16, n, 64}):
                    if not w < width <= 64:
                        continue
                    C = fieldmod.cls(big, size, lo % 3, (hi, lo), width, kind)
                    for pc in (0x40, 0x1000):
                        for v in sorted({(1 << k) + d for k in range(w, min(width, w + 12)) for d in (0, 1, 3)} | {-(1 << k) - d for k in range(w, min(width - 1, w + 6)) for d in (0, 1)} | {(1 << w - 1) - 1, 0}):
                            t = pc + v if kind == 'rel' else v
                            if t < 0:
                                continue
                            fit = 0 <= v < 1 << max(w - 1, 0)
                            if v < 0 and not v < -(1 << w) or v < 0 and kind != 'rel':
                                continue
                            for first in (True, False):
                                lab, use = ['.org %d' % t, 't:'], ['.org %d' % pc, 'F t']
                                core.arm()
                                o = impl.run(C, '\n'.join(lab + use if first else use + lab))
                                ctx.trace()
                                ctx.step()
                                sig = 'bits %s of %d bytes, range of %d bits, %s %s endian at %d, label at %d %s' % ((hi, lo), size, width, kind, 'big' if big else 'little', pc, t, 'before' if first else 'after')
                                if fit:
                                    want = b'\xA5' * (lo % 3) + fieldmod.word(size, (hi, lo), v, big) + b'\x5A'
                                    ctx.state((size, hi, lo, want))
                                    if o.kind != 'ok' or o.data != want:
                                        ctx.fail(sig, want, impl.brief(o))
                                else:
                                    ctx.state((size, hi, lo, 'refused'))
                                    if o.kind not in ('asm-error', 'link-error'):
                                        ctx.fail(sig, 'refused', impl.brief(o))


def shards(tier):
    out = [('unknown', unknown, ()), ('similar', similar, ()), ('rel8', relative, ('BR', 2, 8)), ('rel16', relative, ('BRL', 3, 16)), ('rel12', relative, ('TW 9', 4, 12))]
    for b in (False, True):
        for k in ('abs', 'signed', 'rel'):
            out.append(('narrow %s %s' % (b, k), narrow, (b, k)))
            sh = fieldmod.shapes(tier == 'thorough')
            for i in range(0, len(sh), 60 if tier == 'quick' else 200):
                out.append(('shape %s %s %d' % (b, k, i), fieldmod.explore, (b, k, sh[i:i + (60 if tier == 'quick' else 200)], True)))
    for o, b in LIMITS:
        for big in (False, True):
            out.append(('limit %s %s' % (o, big), limits, (o, b, big)))
    for a in ALPHA:
        out.append(('seq4 ' + a, explore, (a, 4 if tier == 'quick' else 5)))
    return out


if __name__ == '__main__':
    core.main('C12', shards, rule='every reference context x 16 expression shapes x addresses around every power-of-two limit x 3 definition orders, all relative distances around the limits, bit fields narrower than the range of their operand, all 13-statement sequences to depth 4 (5) with unknown, duplicate and far labels')
