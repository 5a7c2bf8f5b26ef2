"""C43: fix-ups of the Game Boy Advance, Genesis and PlayStation tools."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, impl
from checks import c15

TARGET = {'necro_gba': 'necroassembler.platforms.gba:main', 'necro_genesis': 'necroassembler.platforms.genesis:main', 'necro_psx': 'necroassembler.platforms.psx:main'}


def run_tool(name, files, sources):
    with c15.scratch(files):
        failed, exc, out = c15.call(TARGET[name], list(sources) + ['out.bin'])
        return failed, exc, c15.snapshot('.').get('out.bin')


def one(ctx, sig, name, files, raw, sources=('a.S',)):
    failed, exc, got = run_tool(name, files, sources)
    ctx.trace()
    ctx.step(3)
    want = c15.fixed(name, raw, {})
    if not want:
        # no room for the fix-up
        ctx.expect(sig + ' (no room for the fix-up)', (True, None), (failed, got))
        return
    if failed:
        ctx.fail(sig, 'success', repr(exc))
        return
    want = want['out.bin']
    if got != want:
        if got is None or len(got) != len(want):
            ctx.fail(sig, '%d bytes' % len(want), 'nothing' if got is None else '%d bytes' % len(got))
        else:
            d = [i for i in range(len(want)) if got[i] != want[i]][:8]
            ctx.fail(sig, ' '.join('%x:%02x' % (i, want[i]) for i in d), ' '.join('%x:%02x' % (i, got[i]) for i in d))


def blob(ctx, sig, name, data):
    one(ctx, sig, name, {'a.S': '.incbin "data.bin"\n', 'data.bin': bytes(data)}, bytes(data))


SIZES = {'necro_gba': [0, 1, 0xA0, 0xA1, 0xBC, 0xBD, 0xBE, 0xBF, 0xC0, 0xC1, 0xE4, 0x100, 0x1000, 0x10001, 0x80001],
         'necro_genesis': [0, 0x18D, 0x18E, 0x18F, 0x190, 0x191, 0x1FE, 0x1FF, 0x200, 0x201, 0x202, 0x203, 0x204, 0x205, 0x3FF, 0x400, 0x401, 0xFFFF, 0x10000, 0x20200, 0x20201, 0x40000, 0x80001, 0x100203],
         'necro_psx': [0, 1, 2, 2046, 2047, 2048, 2049, 2050, 4095, 4096, 4097, 6143, 6144, 6145, 65535, 65536, 65537, 524288, 1048575, 1050000, 2097153]}


def sizes(ctx, name):
    pats = {'zero': lambda i: 0, 'ff': lambda i: 255, 'count': lambda i: i & 255, 'mixed': lambda i: (i * 7 + (i >> 8) * 3 + 11) & 255, 'one': lambda i: 1, 'high': lambda i: 0x80 if i % 2 == 0 else 0, 'low': lambda i: 0xFF if i % 2 else 0}
    for size in SIZES[name]:
        for p, f in pats.items():
            if size > 0x10001 and p in ('count', 'high') or size > 0x40000 and p not in ('ff', 'mixed'):
                continue
            blob(ctx, '%s size %x %s' % (name, size, p), name, bytes(f(i) for i in range(size)))
            ctx.state((name, size, p))
    if name == 'necro_psx' and ctx.thorough:
        for size in range(0, 4200):
            blob(ctx, '%s size %d' % (name, size), name, bytes([5]) * size)
            ctx.state((name, size))
    if name == 'necro_genesis' and ctx.thorough:
        for size in range(0x180, 0x400):
            blob(ctx, '%s size %x' % (name, size), name, bytes([0x81]) * size)
            ctx.state((name, size))
    ctx.sample({'tool': name, 'sizes': SIZES[name]})


def weights(ctx, name, lo, hi):
    """one byte of each value at each place: it counts exactly as much as it should"""
    size = {'necro_gba': 0x100, 'necro_genesis': 0x241, 'necro_psx': 0x30}[name]
    for at in range(lo, min(hi, size)):
        for v in (1, 0x80, 0xFF):
            for base in (0, 0xFF):
                b = bytearray([base]) * size
                b[at] = v ^ base
                blob(ctx, '%s byte %x = %02x' % (name, at, b[at]), name, b)
                ctx.state((name, at, v, base))


def every_sum(ctx, name, lo, hi):
    """every value of the check byte, reached through every header byte in turn"""
    for v in range(lo, hi):
        b = bytearray(0x210)
        if name == 'necro_gba':
            b[0xA0 + v % 29] = v
            b[0xBD] = 0x55
        else:
            b[0x18E:0x190] = b'\x55\xAA'
            b[0x200] = v
            b[0x203] = 255 - v
            b[0x204:0x206] = b'\xFF\x02'
        blob(ctx, '%s sum %d' % (name, v), name, b)
        ctx.state((name, v))


def linked(ctx, name):
    """fix-ups see the linked program: labels inside the summed part, sources split in files"""
    big = name == 'necro_genesis'
    order = 'big' if big else 'little'
    at = {'necro_gba': 0xA0, 'necro_genesis': 0x200, 'necro_psx': 0x10}[name]
    for org, gap, tail in itertools.product((0, 0x1234, 0x08000000, 0x80010000), (0, 4, 12), (0, 1, 2, 3, 100)):
        orgs = '.org 0x%X\n' % org if name != 'necro_genesis' else '.org $%X\n' % org
        src = orgs + '.fill %d 1\nx: .dd x\n.dd y\n.fill %d 2\ny: .dd x\n.fill %d 3\nz:\n' % (at, gap, tail)
        x = org + at
        y = x + 8 + gap
        raw = bytes([1]) * at + x.to_bytes(4, order) + y.to_bytes(4, order) + bytes([2]) * gap + x.to_bytes(4, order) + bytes([3]) * tail
        if name == 'necro_gba' and len(raw) < 0xBE:
            src += '.fill 64 4\n'
            raw += b'\4' * 64
        if name == 'necro_psx' and org == 0x80010000:
            src += '.fill 2048 9'
            raw += b'\x09' * 2048
        one(ctx, '%s org %x gap %d tail %d' % (name, org, gap, tail), name, {'a.S': src}, raw)
        lines = src.split('\n')
        for cut in range(1, len(lines) - 1):
            one(ctx, '%s org %x gap %d tail %d cut %d' % (name, org, gap, tail, cut), name, {'a.S': '\n'.join(lines[:cut]), 'b.S': '\n'.join(lines[cut:])}, raw, ('a.S', 'b.S'))
        ctx.state((name, org, gap, tail))
    # instructions
    ins = {'necro_gba': ('MOV r0,#1\n' * 200, b'\x01\x20' * 200), 'necro_genesis': ('nop\n' * 300, b'\x4E\x71' * 300), 'necro_psx': ('addu $zero,$zero,$zero\n' * 600, b'\x21\0\0\0' * 600)}[name]
    one(ctx, name + ' instructions', name, {'a.S': ins[0]}, ins[1])


def shards(tier):
    out = []
    for n in TARGET:
        out.append(('sizes ' + n, sizes, (n,)))
        out.append(('linked ' + n, linked, (n,)))
        for lo in range(0, 0x241, 0x90):
            out.append(('weights %s %x' % (n, lo), weights, (n, lo, lo + 0x90)))
        if n != 'necro_psx':
            out.append(('sums ' + n, every_sum, (n, 0, 256)))
    return out


if __name__ == '__main__':
    core.main('C43', shards, rule='all sizes around the block boundaries with seven kinds of contents, one byte of every kind at every place of the header and the summed part, programs with labels cut into files at every line')
