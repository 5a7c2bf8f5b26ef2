"""Label fields of every shape the extension API offers: width, position, bits, byte order, alignment, filter, sign."""
from mc import impl


def cls(big, size, offset, bits, width, kind, align=1, shift=0, tail=1):
    """processor with one instruction, 'F x': offset guard bytes, the field's bytes (ones outside the field), tail guard bytes"""
    from necroassembler import opcode

    def f(self, instr):
        kw = {}
        if bits is not None:
            kw['bits'] = bits
        if shift:
            kw['filter'] = lambda v: v >> shift
        if align != 1:
            kw['alignment'] = align
        if kind == 'rel':
            kw['relative'] = self.pc
        elif kind == 'signed':
            kw['signed'] = True
        v = self.parse_integer_or_label(label=instr.tokens[1], size=size, bits_size=width, offset=offset, **kw)
        return b'\xA5' * offset + word(size, bits, (v >> shift) if v >= 0 or not shift else -(-v >> shift), big) + b'\x5A' * tail
    C = impl.core_classes(big_endian=big, hex_prefixes=('$',), op=opcode('F')(f))
    return C


def word(size, bits, v, big):
    hi, lo = bits or (size * 8 - 1, 0)
    n = hi - lo + 1
    mask = ((1 << n) - 1) << lo
    base = ((1 << size * 8) - 1) & ~mask if bits else 0
    return (base | (v & ((1 << n) - 1)) << lo).to_bytes(size, 'big' if big else 'little')


def fits(v, width, kind):
    if kind == 'abs':
        return 0 <= v < 1 << width
    return -(1 << width - 1) <= v < 1 << width - 1


def expected(big, size, offset, bits, width, kind, align, shift, tail, target, pc):
    """bytes of the instruction, or None when it must be refused"""
    v = target - pc if kind == 'rel' else target
    if target % align or not fits(v, width, kind):
        return None
    return b'\xA5' * offset + word(size, bits, v >> shift, big) + b'\x5A' * tail


def shapes(full):
    """(size, offset, bits, width, align, shift)"""
    out = []
    for size in (1, 2, 3, 4, 8):
        for offset in (0, 1, 2, 3):
            out.append((size, offset, None, size * 8, 1, 0))
            for align in (2, 4):
                out.append((size, offset, None, size * 8, align, 0))
        for align in (3, 5, 8, 16, 64, 128, 256, 4096, 65536):
            if align < 1 << (size * 8 - 2):
                out.append((size, size & 1, None, size * 8, align, 0))
    for size in (1, 2, 4, 8):
        n = size * 8
        for lo in range(0, n) if full else sorted({0, 1, 4, 5, n // 2, n - 4, n - 2} & set(range(n))):
            for hi in range(lo + 1, n) if full else sorted({lo + 1, lo + 3, lo + 7, lo + 10, lo + 15, n // 2, n - 2, n - 1} & set(range(lo + 1, n))):
                out.append((size, (lo + hi) % 3, (hi, lo), hi - lo + 1, 1, 0))
                if hi - lo >= 3:
                    out.append((size, hi % 2, (hi, lo), hi - lo + 2, 2, 1))
                    out.append((size, lo % 2, (hi, lo), hi - lo + 3, 4, 2))
    return out


def targets(width, pc):
    vs = {pc + s * (1 << k) + d for k in (0, 1, width - 2, width - 1, width) if k >= 0 for s in (1, -1) for d in (-4, -2, -1, 0, 1, 2, 4)}
    vs |= {(1 << k) + d for k in (0, 2, width - 1, width, width + 7) for d in (-4, -2, -1, 0, 1)}
    pat = 0xDEADBEEFCAFEF00D
    vs |= {pat & ((1 << width) - 1) & ~3, pat & ((1 << width) - 1) >> 1, (pat >> 7) & ((1 << width) - 1) >> 1 & ~7}
    return sorted(v for v in vs if 0 <= v < 1 << 64)


def explore(ctx, big, kind, shapes, refuse):
    """refuse False: the exact bytes of every representable value; True: only the refusal of the others"""
    for size, offset, bits, width, align, shift in shapes:
        C = cls(big, size, offset, bits, width, kind, align, shift)
        for pc in (0x40, 0x10000 + align * 4) + ((0x41, 0x42) if align > 1 and kind == 'rel' else ()):
            for t in targets(width, pc):
                want = expected(big, size, offset, bits, width, kind, align, shift, 1, t, pc)
                if (want is None) != refuse:
                    continue
                if want is not None and shift and kind == 'rel' and (t - pc) % align:
                    continue        # what the filter drops is the processor's affair (C30)
                for first in (True, False):
                    lab = ['.org %d' % t, 't:']
                    use = ['.org %d' % pc, 'F t']
                    o = impl.run(C, '\n'.join(lab + use if first else use + lab))
                    ctx.trace()
                    ctx.step()
                    sig = 'field size %d offset %d bits %s width %d align %d shift %d %s %s endian at %d, label at %d %s' % (size, offset, bits, width, align, shift, kind, 'big' if big else 'little', pc, t, 'before' if first else 'after')
                    if want is None:
                        ctx.state((size, bits, width, kind, 'refused'))
                        if o.kind != 'link-error' or 't' not in str(o.exc):
                            ctx.fail(sig, 'refused, naming t', impl.brief(o))
                    else:
                        ctx.state((size, offset, want))
                        if o.kind != 'ok' or o.data != want:
                            ctx.fail(sig, want, impl.brief(o))
