"""C42: NES images and their symbol files."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, impl
from checks import c15

BANKS = {'cartridge_prg_roms': 4, 'cartridge_chr_roms': 5}


def header(prg=2, chr_=0):
    return b'NES\x1A' + bytes((prg, chr_)) + bytes(10)


def alphabet():
    """(text, place, bytes or None when refused)"""
    out = [('.cartridge', None, b'')]
    for n, at in BANKS.items():
        out += [('.%s %s' % (n, t), at, v) for t, v in (('1', b'\1'), ('0', b'\0'), ('255', b'\xFF'), ('$80', b'\x80'), ("'A'", b'A'))]
    return out


BAD = ['.%s%s' % (n, v) for n in BANKS for v in ('', ' ""', ' 1 2', ' 256', ' "ab"', ' nowhere', ' here', ' $', ' "\xe9"', ' -129')]


def model(seq, start=0):
    """header bytes after the sequence or None"""
    h = None
    for text, at, data in seq:
        if at is None:
            if h is not None or start:
                return None
            h = bytearray(header())
        else:
            if h is None:
                return None
            h[at] = data[0]
    return h


def run_one(ctx, sig, src, want):
    o = impl.run(impl.load('nes'), src)
    ctx.trace()
    ctx.step(src.count('\n') + 1)
    if want is None:
        if o.kind != 'asm-error':
            ctx.fail(sig, 'refused', impl.brief(o)[:200])
    elif o.kind != 'ok' or o.data != want:
        ctx.fail(sig, want[:64], o.data[:64] if o.kind == 'ok' else impl.brief(o))


def sequences(ctx, firsts, depth):
    abc = alphabet()
    for first in firsts:
        for n in range(depth):
            for rest in itertools.product(abc, repeat=n):
                seq = [first] + list(rest)
                src = '\n'.join(s[0] for s in seq) + '\n.org $8000\nstart: LDA #7\nJMP start'
                h = model(seq)
                run_one(ctx, ' / '.join(s[0] for s in seq), src, None if h is None else bytes(h) + b'\xA9\x07\x4C\x00\x80')
                ctx.state(tuple(s[0] for s in seq))
    ctx.sample({'firsts': [f[0] for f in firsts]})


def refused(ctx):
    for text in BAD:
        for before in ('', '.cartridge_prg_roms 3\n', '.cartridge_chr_roms 3\n'):
            for after in ('', '\n.cartridge_prg_roms 3'):
                run_one(ctx, text + ' after %r' % before, '.cartridge\n' + before + 'here: ' + text + after, None)
                ctx.state((text, before, after))
    for size in list(range(1, 20)) + [255, 256]:
        run_one(ctx, '.cartridge at %d' % size, '.fill %d\n.cartridge' % size, None)
        ctx.state(size)
    # what counts is the place in the image, whatever the address
    for org in (0, 1, 5, 16, 0x8000, 0xC000, 0x10000):
        for more in ('', '\n.ram 3', '\n.define Q 1', '\nx:', '\n.org $7000\n.org %d' % org, '\n.macro M\nNOP\n.endmacro', '\n.fill 0'):
            for field, h in (('', header()), ('\n.cartridge_prg_roms 7', header(7)), ('\n.cartridge_chr_roms 7', header(2, 7))):
                run_one(ctx, 'header at address %d after %r' % (org, more), '.org %d%s\n.cartridge%s\n.db 5' % (org, more, field), h + b'\5')
                run_one(ctx, 'header at address %d after a byte and %r' % (org, more), '.db 1\n.org %d%s\n.cartridge%s\n.db 5' % (org, more, field), None)
                ctx.state((org, more, field))
    for text, at, data in alphabet()[1:]:
        for size in (0, 16, 32):
            run_one(ctx, '%s without header, %d bytes' % (text, size), '.fill %d\n%s\n.fill 32' % (size, text), None)
            ctx.state((text, size))
    for first in ('.cartridge\n.cartridge_prg_roms 9\n.cartridge_chr_roms 9', '.fill 3\n.cartridge', 'NOP'):
        impl.run(impl.load('nes'), first)
        run_one(ctx, 'field after another object %r' % first, '.fill 20\n.cartridge_prg_roms 1', None)
        run_one(ctx, 'header after another object %r' % first, '.cartridge', header())


def programs(ctx):
    """the rest of the image is the program: every bank layout"""
    for prg, chr_ in itertools.product((0, 1, 2, 255), (0, 1, 8)):
        for order in itertools.permutations(('.cartridge_prg_roms %d' % prg, '.cartridge_chr_roms %d' % chr_)):
            for body, data in (('', b''), ('.org $8000 $BFFF\nSEI\nL: JMP L', b'\x78\x4C\x01\x80' + bytes(0x3FFC)),
                               ('.org $C000\nL: .dw L N\n.org $FFFA\nN: .dw L N L', b'\x00\xC0\xFA\xFF' + b'\x00\xC0\xFA\xFF\x00\xC0'),
                               ('L: .db 1 2 3\n.dw L', b'\1\2\3\x10\0'), ('.org 0\nZ: .ram 2\n.org $8000\nLDA Z\nSTA PPUCTRL', b'\xAD\0\0\x8D\0\x20')):
                src = '.cartridge\n' + '\n'.join(order) + '\n' + body
                o = impl.run(impl.load('nes'), src)
                alt = None
                if 'LDA Z' in body:
                    alt = bytes(header(prg, chr_)) + b'\xA5\0\x8D\0\x20'
                if o.kind != 'ok' or o.data not in (header(prg, chr_) + data, alt):
                    ctx.fail(src, (header(prg, chr_) + data)[:40], o.data[:40] if o.kind == 'ok' else impl.brief(o))
                ctx.trace()
                ctx.step(6)
                ctx.state(src)


# ---- debug symbols ---------------------------------------------------------------------------------
PLACES = (0, 1, 0xFF, 0x7FE, 0x7FF, 0x800, 0x1FFF, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF, 0x10000)
FAR = (0x10001, 0x107FF, 0x18000, 0x1FFFF, 0x100000000, 0x100008000)
NAMES = ('zero', 'One', 'a_b', 'q.r', 'L9', 'PPU', 'x', 'dot.', '_u', 'main', 'NMI', 'end', 'far')


def symbols_of(labels):
    rom = sorted(b'$%04X#%s#\r\n' % (v, n.encode()) for n, v in labels if 0x8000 <= v <= 0xFFFF)
    ram = sorted(b'$%04X#%s#\r\n' % (v, n.encode()) for n, v in labels if v <= 0x7FF)
    return rom, ram


def symbol_case(ctx, sig, files, sources, image, labels):
    with c15.scratch(files):
        failed, exc, out = c15.call('necroassembler.platforms.nes:main', list(sources) + ['game.nes'])
        got = c15.snapshot('.')
    ctx.trace()
    ctx.step(len(labels))
    if failed:
        ctx.fail(sig, 'success', repr(exc))
        return
    if image is not None:
        ctx.expect(sig + ' image', image, got.get('game.nes'))
    rom, ram = symbols_of(labels)
    for f, want in (('game.nes.0.nl', rom), ('game.nes.ram.nl', ram)):
        data = got.get(f)
        lines = sorted(x + b'\n' for x in data.split(b'\n')[:-1]) if data is not None and (data == b'' or data.endswith(b'\n')) else data
        ctx.expect(sig + ' ' + f, want, lines)
    ctx.expect(sig + ' files', sorted(set(files) | {'game.nes', 'game.nes.0.nl', 'game.nes.ram.nl'}), sorted(got))


def subsets(ctx, lo, hi):
    """every set of labels over the boundaries of the address ranges"""
    for bits in range(lo, hi):
        chosen = [(NAMES[i], PLACES[i]) for i in range(len(PLACES)) if bits >> i & 1]
        src = '.cartridge\n' + ''.join('.org $%X\n%s:\n' % (v, n) for n, v in (chosen if bits % 2 else chosen[::-1]))
        symbol_case(ctx, 'labels %s' % chosen, {'a.S': src}, ['a.S'], header(), chosen)
        ctx.state(bits)
    ctx.sample({'subsets': [lo, hi]})


def layouts(ctx):
    """several labels at one address, labels behind code, in other files, in RAM areas, case variants"""
    for a, b in list(itertools.product(PLACES, repeat=2)) + list(itertools.product(FAR, PLACES[::3] + FAR)) + list(itertools.product(PLACES[::3], FAR)):
        chosen = [('aa', a), ('ab', a), ('AA', b), ('a', b + 1)]
        src = '.org $%X\naa:\nab: .org $%X\nAA: .ram 1\na:\n' % (a, b)
        symbol_case(ctx, 'addresses %x %x' % (a, b), {'a.S': src}, ['a.S'], b'', chosen)
        ctx.state((a, b))
    for first in (0x8000, 0xC000, 0xFFE0):
        for sizes in itertools.product((1, 3, 8), repeat=3):
            src, at, labels = '.cartridge\n.org $%X\n' % first, first, []
            for i, s in enumerate(sizes):
                labels.append(('L%d' % i, at))
                src += 'L%d: .fill %d 1\n' % (i, s)
                at += s
            src += '.dw L2'
            image = header() + b'\1' * sum(sizes) + labels[2][1].to_bytes(2, 'little')
            for cut in (None, 1, 2, 3):
                lines = src.split('\n')
                files = {'a.S': src} if cut is None else {'a.S': '\n'.join(lines[:cut + 1]), 'b.S': '\n'.join(lines[cut + 1:])}
                symbol_case(ctx, 'code %x %s cut %s' % (first, sizes, cut), files, sorted(files), image, labels)
                ctx.state((first, sizes, cut))
    # every kind of name, alone and together
    names = ['.', '.x', 'x.', '..', '_', '__x', 'x_', 'A', 'a', 'L0', 'x1.y2_z3', 'LDA.', 'lda', 'A1', 'n' * 40, 'N' * 300, 'PPUCTRLX', 'nes', 'o.0.nl', 'reset', 'RESET', 'Reset', 'irq_handler', 'end.of.file']
    for n in names:
        for v in (0, 0x10, 0x7FF, 0x8000, 0xABCD):
            symbol_case(ctx, 'label %s at %x' % (n, v), {'a.S': '.org %d\n%s:' % (v, n)}, ['a.S'], b'', [(n, v)])
            ctx.state((n, v))
    for at in (0, 0x700, 0x8000, 0xFF00):
        symbol_case(ctx, 'all names at %x' % at, {'a.S': '.org %d\n' % at + ''.join('%s: .ram 1\n' % n for n in names)}, ['a.S'], b'', [(n, at + i) for i, n in enumerate(names)])
        symbol_case(ctx, 'all names on %x' % at, {'a.S': '.org %d\n' % at + ''.join('%s:\n' % n for n in names)}, ['a.S'], b'', [(n, at) for i, n in enumerate(names)])
    # none at all, only out of range
    symbol_case(ctx, 'no labels', {'a.S': 'NOP'}, ['a.S'], b'\xEA', [])
    symbol_case(ctx, 'define and macro are no labels', {'a.S': '.define X 5\n.macro M\nNOP\n.endmacro\nM'}, ['a.S'], b'\xEA', [])
    many = [('n%d' % i, 0x8000 + i) for i in range(200)] + [('r%d' % i, i) for i in range(200)]
    src = '.org 0\n' + ''.join('r%d: .ram 1\n' % i for i in range(200)) + '.org $8000\n' + ''.join('n%d: NOP\n' % i for i in range(200))
    symbol_case(ctx, 'many labels', {'a.S': src}, ['a.S'], b'\xEA' * 200, many)


def shards(tier):
    deep = tier == 'thorough'
    abc = alphabet()
    out = [('refused', refused, ()), ('programs', programs, ()), ('layouts', layouts, ())]
    for i, f in enumerate(abc):
        out.append(('sequences %d' % i, sequences, ([f], 4 if deep else 3)))
    out += core.parallel_ranges('subsets', subsets, 1 << len(PLACES), 16)
    return out


if __name__ == '__main__':
    core.main('C42', shards, rule='every sequence of up to three (four) header directives over 11, every refused value, all 8192 sets of labels over 13 boundary addresses, pairs of boundary addresses, code layouts cut into files')
