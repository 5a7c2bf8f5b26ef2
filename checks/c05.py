"""C05: packing helpers against bit-by-bit references."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, impl


def u():
    from necroassembler import utils
    return utils


def call(f, *a):
    try:
        return f(*a)
    except impl.asm_error() as e:
        return 'error'
    except Exception as e:  # noqa
        return 'raw %s: %s' % (type(e).__name__, e)


def place(base, fields):
    """reference: bit by bit; 'error' when a value does not fit"""
    bits = {i: (base >> i) & 1 for i in range(80)}
    for (end, start), value in fields:
        if end < start:
            return 'error'
        w = end - start + 1
        if not -(1 << (w - 1)) <= value < (1 << w):
            return 'error'
        digits = format(value if value >= 0 else value + (1 << w), '0%db' % w)
        for i in range(w):
            bits[start + i] = bits[start + i] or int(digits[w - 1 - i])
    return sum(b << i for i, b in bits.items())


def fields1(ctx, end):
    m = u()
    for start in range(0, 13):
        core.arm()
        w = end - start + 1
        ww = max(w, 1)
        lim = 1 << ww
        values = range(-lim - 2, lim + 3) if ww <= 6 else sorted({x + d for x in (-lim, -lim // 2, -1, 0, 1, lim // 2, lim, lim // 3) for d in (-2, -1, 0, 1, 2)})
        hole = ((1 << (end + 1)) - 1) & ~((1 << start) - 1) if w > 0 else 0
        for value in values:
            for base in (0, 0xFFFFFFFF & ~hole, 0x5A5A5A & ~hole, (1 << 40)):
                exp = place(base, [((end, start), value)])
                got = call(m.pack_bits, base, ((end, start), value))
                ctx.trace()
                ctx.step()
                ctx.state((end, start, value, exp))
                if exp != got:
                    ctx.fail('pack_bits(%#x, ((%d, %d), %d))' % (base, end, start, value), exp, got)
                if exp != 'error' and end < 32 and base < 1 << 32:
                    for name, n, o in (('pack_bits_le32u', 4, 'little'), ('pack_bits_le16u', 2, 'little'), ('pack_bits_be16u', 2, 'big')):
                        if exp < 1 << (8 * n):
                            got = call(getattr(m, name), base, ((end, start), value))
                            ctx.step()
                            if got != exp.to_bytes(n, o):
                                ctx.fail('%s(%#x, ((%d, %d), %d))' % (name, base, end, start, value), exp.to_bytes(n, o), got)
        ctx.sample({'field': [end, start], 'values': len(values)}, 1)


def wide(ctx):
    m = u()
    for w in range(1, 65):
        core.arm()
        for start in (0, 1, 5, 31, 32):
            for x in (0, 1, (1 << w) // 2, (1 << w)):
                for d in (-2, -1, 0, 1, 2):
                    for value in (x + d, -x + d):
                        exp = place(0, [((start + w - 1, start), value)]) if start + w <= 80 else None
                        if exp is None:
                            continue
                        got = call(m.pack_bits, 0, ((start + w - 1, start), value))
                        ctx.trace()
                        ctx.step()
                        ctx.state(('w', start, w, value))
                        if exp != got:
                            ctx.fail('pack_bits(0, ((%d, %d), %d))' % (start + w - 1, start, value), exp, got)


def multi(ctx):
    m = u()
    fs = [(2, 0), (4, 3), (9, 5), (10, 10), (15, 11)]
    vals = {(e, s): (-(1 << (e - s)), 0, 1, (1 << (e - s + 1)) - 1, 1 << (e - s + 1)) for e, s in fs}
    for n in (0, 1, 2, 3):
        for pick in itertools.permutations(fs, n):
            core.arm()
            for vs in itertools.product(*[vals[f] for f in pick]):
                fields = list(zip(pick, vs))
                for base in (0, 0x10000):
                    exp = place(base, fields)
                    got = call(m.pack_bits, base, *fields)
                    ctx.trace()
                    ctx.step()
                    ctx.state(('m', exp))
                    if exp != got:
                        ctx.fail('pack_bits(%#x, %r)' % (base, fields), exp, got)
    for n in (0, 1, 2, 3, 4):
        for pos in itertools.permutations(range(6), n):
            for vs in itertools.product((0, 1), repeat=n):
                a = list(zip(pos, vs))
                exp = sum(v << p for p, v in a)
                ctx.trace()
                ctx.expect('pack_bit(0, %r)' % a, exp, call(m.pack_bit, 0, *a))
    for p in range(70):
        for v in (-2, -1, 2, 3):
            exp = place(0, [((p, p), v)])
            ctx.trace()
            ctx.expect('pack_bit(0, (%d, %d))' % (p, v), exp, call(m.pack_bit, 0, (p, v)))


def ranges(ctx):
    m = u()
    for b in range(1, 66):
        core.arm()
        vals = {s * x + d for x in (0, 1, (1 << b) // 2, 1 << b, 1 << (b + 1), 1 << 70) for s in (1, -1) for d in (-2, -1, 0, 1, 2)}
        if b <= 8:
            vals |= set(range(-(2 << b), (2 << b) + 1))
        for v in vals:
            ctx.trace()
            ctx.step(4)
            ctx.state(('r', b, v))
            ctx.expect('in_bit_range(%d, %d)' % (v, b), 0 <= v < (1 << b), bool(call(m.in_bit_range, v, b)))
            ctx.expect('in_bit_range_decimal(%d, %d, True)' % (v, b), -(1 << (b - 1)) <= v < (1 << (b - 1)), bool(call(m.in_bit_range_decimal, v, b, True)))
            ctx.expect('in_bit_range_decimal(%d, %d, False)' % (v, b), -(1 << (b - 1)) <= v < (1 << b), bool(call(m.in_bit_range_decimal, v, b, False)))
            if 0 <= v < (1 << b):
                ctx.expect('neg_fix(%d, %d)' % (v, b), v - (1 << b) if v >> (b - 1) else v, call(m.neg_fix, v, b))


PACKERS = [('pack_byte', 1, 'little', False), ('pack_8s', 1, 'little', True), ('pack_le16u', 2, 'little', False), ('pack_le16s', 2, 'little', True),
           ('pack_be16u', 2, 'big', False), ('pack_be16s', 2, 'big', True), ('pack_le32u', 4, 'little', False), ('pack_le32s', 4, 'little', True),
           ('pack_be32u', 4, 'big', False), ('pack_be32s', 4, 'big', True), ('pack_le64u', 8, 'little', False), ('pack_le64s', 8, 'little', True)]


def packers(ctx, name, size, order):
    m = u()
    f = getattr(m, name)
    b = size * 8
    vals = set(range(-128, 256)) if size == 1 else set(range(-32768, 65536, 1 if size == 2 else 4099))
    for k in range(b + 1):
        vals |= {(1 << k) + d for d in (-1, 0, 1)} | {-(1 << k) + d for d in (-1, 0, 1)}
    vals |= {0x12, 0x0123456789ABCDEF & ((1 << b) - 1), 0x80FF7F01020304F0 & ((1 << b) - 1)}
    vals = sorted(v for v in vals if -(1 << (b - 1)) <= v < (1 << b))
    enc = {v: (v & ((1 << b) - 1)).to_bytes(size, order) for v in vals}
    for v in vals:
        ctx.trace()
        ctx.step()
        ctx.state((name, v))
        ctx.expect('%s(%d)' % (name, v), enc[v], call(f, v))
    few = [vals[0], -1, 0, 1, vals[-1], 0x12, None]
    enc[None] = bytes(size)
    for n in (0, 2, 3):
        for combo in itertools.product(few, repeat=n):
            ctx.trace()
            ctx.step()
            ctx.expect('%s%r' % (name, combo), b''.join(enc[v] for v in combo), call(f, *combo))


def misc(ctx):
    m = u()
    # names
    for c in [chr(i) for i in range(1, 256)]:
        ok = c.isascii() and (c.isalnum() or c in '_.')
        for n in (c, 'a' + c, c + 'a', 'a' + c + 'Z9'):
            ctx.trace()
            ctx.expect('is_valid_name(%r)' % n, ok, bool(call(m.is_valid_name, n)))
    for n in (255, 256, 4096):
        ctx.expect('is_valid_name(long)', True, bool(call(m.is_valid_name, 'x' * n)))
        ctx.expect('is_valid_name(long bad)', False, bool(call(m.is_valid_name, 'x' * n + '-')))
    for keys in itertools.chain.from_iterable(itertools.combinations('abc', n) for n in range(4)):
        for known in itertools.chain.from_iterable(itertools.combinations('abcd', n) for n in range(5)):
            ctx.trace()
            ctx.step()
            ctx.expect('known_args(%r, %r)' % (keys, known), set(keys) <= set(known), bool(call(m.known_args, {k: 1 for k in keys}, known)))
    import struct
    for fmt, vals in (('<BH', (1, 0x1234)), ('>BH', (1, 0x1234)), ('<Bb', (255, -1)), ('<HI', (7, None)), ('BBBB', (1, None, 3, None))):
        ctx.trace()
        ctx.expect('pack(%r)' % fmt, struct.pack(fmt, *[v or 0 for v in vals]), call(m.pack, fmt, *vals))
    ctx.state('misc')


def shards(tier):
    out = [('wide', wide, ()), ('multi', multi, ()), ('ranges', ranges, ()), ('misc', misc, ())]
    out += [('fields-%d' % e, fields1, (e,)) for e in range(0, 13 if tier == 'quick' else 34)]
    out += [('packer-' + n, packers, (n, s, o)) for n, s, o, _ in PACKERS]
    return out


if __name__ == '__main__':
    core.main('C05', shards, rule='all (end,start) pairs and all values around their limits; every packer on all 8/16-bit values and boundary values of wider ones')
