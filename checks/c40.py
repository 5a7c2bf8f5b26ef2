"""C40: Game Boy images - every sequence of cartridge directives, images of many sizes and contents."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, impl

# the bitmap the console's boot ROM compares (public hardware documentation)
LOGO = bytes.fromhex('CEED6666CC0D000B03730083000C000D0008111F8889000EDCCC6EE6DDDDD999BBBB67636E0EECCCDDDC999FBBB9333E')
HEADER = b'\x00\xC3\x50\x01' + LOGO + bytes(0x14A - 0x134) + b'\x01\x33' + bytes(4)
FIELDS = {'cartridge_title': (0x134, 16), 'cartridge_license': (0x144, 2), 'cartridge_cgb': (0x143, 1), 'cartridge_sgb': (0x146, 1),
          'cartridge_type': (0x147, 1), 'cartridge_destination': (0x14A, 1)}


def fixup(b):
    b = bytearray(b)
    x = 0
    for v in b[0x134:0x14D]:
        x = (x - v - 1) & 255
    b[0x14D] = x
    total = (sum(b) - b[0x14E] - b[0x14F]) & 0xFFFF
    b[0x14E], b[0x14F] = total >> 8, total & 255
    return bytes(b)


def alphabet():
    """(text, field, bytes or None when it must be refused)"""
    out = [('.cartridge', 'header', b'')]
    for name, (at, size) in FIELDS.items():
        full = bytes((0x61 + i) & 0x7F for i in range(size))
        out += [('.%s 255' % name, name, b'\xFF'), ('.%s "%s"' % (name, full.decode()), name, full)]
        if size > 1:
            out.append((".%s '%s' $%02X" % (name, full[:size - 2].decode() or 'z', 0xE1), name, (full[:size - 2] or b'z') + b'\xE1'))
    return out


BAD = [('.%s' % n, n) for n in FIELDS] + [('.%s ""' % n, n) for n in FIELDS] + \
      [('.%s "%s"' % (n, 'x' * (s + 1)), n) for n, (a, s) in FIELDS.items()] + \
      [('.%s "%s" 1' % (n, 'x' * s), n) for n, (a, s) in FIELDS.items()] + \
      [('.%s%s' % (n, ' 0' * (s + 1)), n) for n, (a, s) in FIELDS.items()] + \
      [('.%s 256' % n, n) for n in FIELDS] + [('.%s nowhere' % n, n) for n in FIELDS] + [('.%s here' % n, n) for n in FIELDS] + \
      [('.%s -129' % n, n) for n in FIELDS] + [('.%s "\xe9"' % n, n) for n in FIELDS] + [('.%s $' % n, n) for n in FIELDS]


def model(head, seq):
    """image before the fix-ups (or None when refused)"""
    b = bytearray(head)
    have = False
    for text, field, data in seq:
        if field == 'header':
            if len(b) != 256:
                return None
            b += HEADER
            have = True
        elif field == 'raw':
            b += data
        else:
            at, size = FIELDS[field]
            if not have or not data or len(data) > size:
                return None
            b[at:at + len(data)] = data
    return b


def run_one(ctx, cls, sig, src, want):
    o = impl.run(cls, src)
    ctx.trace()
    ctx.step(src.count('\n') + 1)
    if want is None:
        if o.kind not in ('asm-error', 'link-error'):
            ctx.fail(sig, 'refused', impl.brief(o))
        return
    if o.kind != 'ok':
        ctx.fail(sig, want, impl.brief(o))
        return
    if o.data != want:
        ctx.fail(sig, diffs(want, o.data), diffs(o.data, want))
        return
    # linking again gives the same image
    try:
        o.asm.link()
        again = bytes(o.asm.assembled_bytes)
    except Exception as e:  # noqa
        again = repr(e).encode()
    if again != want:
        ctx.fail(sig + ' linked again', diffs(want, again), diffs(again, want))


def diffs(a, b):
    if len(a) != len(b):
        return '%d bytes' % len(a)
    return ' '.join('%x:%02x' % (i, x) for i, (x, y) in enumerate(zip(a, b)) if x != y)[:300]


def sequences(ctx, first, depth):
    """everything that starts with .cartridge and `first`"""
    cls = impl.load('gameboy')
    abc = alphabet()
    tail = bytes(range(7))
    for n in range(0, depth):
        for rest in itertools.product(abc, repeat=n):
            for seq in ([first, abc[0]] + list(rest),) if first is abc[0] else ([abc[0], first] + list(rest), [first, abc[0]] + list(rest)) if n < 2 else ([abc[0], first] + list(rest),):
                body = model(b'\xC9' * 256, seq)
                want = fixup(body + tail) if body is not None else None
                src = '.fill 256 $C9\n' + '\n'.join(s[0] for s in seq) + '\n.db 0 1 2 3 4 5 6'
                sig = ' / '.join(s[0] for s in seq)
                ctx.state(tuple(s[0] for s in seq))
                run_one(ctx, cls, sig, src, want)
    ctx.sample({'first': first[0]})


def refused(ctx):
    """bad values of every field, before and after good ones"""
    cls = impl.load('gameboy')
    for text, field in BAD:
        for good in ('', '.%s 7\n' % field):
            for after in ('', '\n.%s 7' % field):
                run_one(ctx, cls, text + ' after %r' % good, '.fill 256\n.cartridge\n%shere: %s%s' % (good, text, after), None)
                ctx.state((text, good, after))
    # fields without a header; the header in the wrong place
    for text, field, data in alphabet():
        for size in (0, 1, 0x133, 0x134, 0x150, 0x200):
            if field != 'header' or size != 256:
                run_one(ctx, cls, '%s at %x' % (text, size), '.fill %d 1\n%s\n.fill 4096 2' % (size, text), None)
                ctx.state((text, size))
    for size in list(range(0, 20)) + list(range(250, 263)) + [511, 512, 513, 0x14F, 0x150]:
        for extra in ('', ' 1'):
            want = fixup(b'\5' * 256 + HEADER + b'\2' * 600) if size == 256 else None
            if extra and size == 256:
                continue
            run_one(ctx, cls, '.cartridge%s at %d' % (extra, size), '.fill %d 5\n.cartridge%s\n.fill 600 2' % (size, extra), want)
            ctx.state((size, extra))


def placed(ctx):
    """all ways to reach 0x100; labels before, in and behind the header"""
    cls = impl.load('gameboy')
    ways = {'fill': ('.fill 254 0', 0x102, 0), 'org': ('.org 0 $FD\n.db 0\n.org $FE', 0x102, 0), 'goto': ('.org 0 $7FFF\n.goto $FE', 0x8000, 0),
            'upto': ('.upto 254', 0x102, 0), 'region': ('.org 0 $FD\n.org $FE $7FFF', 0x8000, 0), 'whole': ('.org 0 $3FFF\n.fill 254 0', 0x4000, 0)}
    for name, (text, total, fillv) in ways.items():
        for body in (b'', b'\1', bytes(range(200))):
            src = text + '\n.dw end\n.cartridge\nstart: .dw start end\n' + ('.db ' + ' '.join(map(str, body)) if body else '') + '\nend:\n'
            end = 0x154 + len(body)
            b = bytes(254) + end.to_bytes(2, 'little') + HEADER + (0x150).to_bytes(2, 'little') + end.to_bytes(2, 'little') + body
            if total > 0x1000:
                b += bytes(total - len(b))
            run_one(ctx, cls, 'placed by %s, %d bytes' % (name, len(body)), src, fixup(b))
            ctx.state((name, body))
    # the region the header starts
    for end in (0x14F, 0x150, 0x3FFF, 0x7FFF):
        src = '.org 0 $FF\n.db 1\n.org $100 $%X\n.cartridge\n.cartridge_type 3' % end
        b = bytearray(b'\1' + bytes(255) + HEADER + bytes(end + 1 - 0x150))
        b[0x147] = 3
        run_one(ctx, cls, src, src, fixup(b))
        ctx.state(src)
    for end in (0x101, 0x14D, 0x14E):
        src = '.org 0 $FF\n.db 1\n.org $100 $%X\n.cartridge' % end
        run_one(ctx, cls, src, src, None)


def contents(ctx, sizes):
    """checksums of images of every size around the boundaries and with extreme contents; every header byte"""
    cls = impl.load('gameboy')
    for size in sizes:
        for fill in (0, 1, 0x7F, 0x80, 0xFF):
            for head in (0, 0xFF):
                n = size - 0x150
                src = '.fill 256 %d\n.cartridge\n.fill %d %d' % (head, n, fill)
                run_one(ctx, cls, 'size %x fill %d %d' % (size, head, fill), src, fixup(bytes([head]) * 256 + HEADER + bytes([fill]) * n))
                ctx.state((size, fill, head))
    ctx.sample({'sizes': list(sizes)[:4]})


def weights(ctx, lo, hi):
    """a single byte of every value at every place counts once"""
    cls = impl.load('gameboy')
    for at in range(lo, hi):
        for v in (1, 2, 0x80, 0xFE, 0xFF):
            b = bytearray(0x170)
            b[0x100:0x150] = HEADER
            b[at] = v
            # the image is written as plain data: the fix-ups do not depend on how the header was made
            src = '.db ' + ' '.join(map(str, b))
            run_one(ctx, cls, 'byte %x = %02x' % (at, v), src, fixup(b))
            ctx.state((at, v))


def gapped(ctx):
    """a header at byte 0x100 of the image whatever addresses came before; everywhere else it is refused"""
    cls = impl.load('gameboy')
    for a, b, org, end in itertools.product((0, 1, 56, 128, 200, 255, 256), (0, 1, 55, 56, 128, 200, 255, 256, 257), (0, 0x10, 0x80, 0xFF, 0x100, 0x200, 0x4000, 0xC000), (None, 0x14F, 0x3FFF, 0x7FFF)):
        if end is not None and end < org:
            continue
        src = '.fill %d 1\n.org $%X%s\n.fill %d 2\n.cartridge\n.cartridge_type 9\nx: .dw x\n.fill 20 3' % (a, org, '' if end is None else ' $%X' % end, b)
        o = impl.run(cls, src)
        ctx.trace()
        ctx.step(7)
        ctx.state((a, b, org, end))
        sig = '%d bytes, %d at %x..%s' % (a, b, org, end and hex(end))
        if o.kind != 'ok':
            if o.kind != 'asm-error':
                ctx.fail(sig, 'an image or a diagnostic', impl.brief(o))
            elif a + b == 256 and end is None:
                ctx.fail(sig, 'an image', impl.brief(o))
            continue
        if a + b != 256:
            ctx.fail(sig, 'refused', '%d bytes' % len(o.data))
            continue
        # addresses run from 0x100 in the header whatever they were before
        want = bytearray(bytes([1]) * a + bytes([2]) * b + HEADER + b'\x50\x01' + bytes([3]) * 20)
        want[0x147] = 9
        if end is not None:
            want += bytes(max(0, end + 1 - 0x100 - (len(want) - 0x100)))
        want = fixup(want)
        if o.data != want:
            ctx.fail(sig, diffs(want, o.data), diffs(o.data, want))
    # reserved addresses are no bytes of the image
    for a, r in itertools.product((0, 100, 255, 256), (1, 156, 256)):
        src = '.fill %d 1\n.ram %d\n.cartridge\n.fill 32 3' % (a, r)
        run_one(ctx, cls, src, src, fixup(bytes([1]) * 256 + HEADER + bytes([3]) * 32) if a == 256 else None)
    # several headers
    for gap in (0, 1, 0x100, 0x1000):
        src = '.fill 256\n.cartridge\n.fill %d 1\n.org $%%X\n.cartridge' % gap
        for org in (0, 0x100, 0x8000):
            run_one(ctx, cls, src % org, src % org, None)


def large(ctx, size):
    """images beyond every bank count"""
    cls = impl.load('gameboy')
    for fill, tail in ((0xFF, ''), (0xFF, '.db 1 2 3'), (0x11, '.fill 700 $FE'), (0, '.db $80')):
        extra = {'': b'', '.db 1 2 3': b'\1\2\3', '.fill 700 $FE': b'\xFE' * 700, '.db $80': b'\x80'}[tail]
        n = size - 0x150 - len(extra)
        src = '.fill 256\n.cartridge\n.fill %d %d\n%s' % (n, fill, tail)
        run_one(ctx, cls, 'size %x fill %d %s' % (size, fill, tail), src, fixup(bytes(256) + HEADER + bytes([fill]) * n + extra))
        ctx.state((size, fill, tail))


def objects(ctx):
    """the header of one program is not the header of another"""
    cls = impl.load('gameboy')
    for first in ('.fill 256\n.cartridge\n.cartridge_title "A"', '.fill 255\n.cartridge', '.fill 300'):
        try:
            a = cls()
            a.assemble(first)
            a.link()
        except Exception:  # noqa
            pass
        run_one(ctx, cls, 'field without header after %r' % first, '.fill 400\n.cartridge_title "B"', None)
        run_one(ctx, cls, 'header after %r' % first, '.fill 256\n.cartridge', fixup(bytes(256) + HEADER))
        ctx.state(first)
    # in pieces
    for cut in range(1, 6):
        lines = ['.fill 256', '.cartridge', '.cartridge_title "AB"', '.cartridge_type 5', 'x: .dw x', '.cartridge_sgb 3']
        a = cls()
        a.assemble('\n'.join(lines[:cut]))
        a.assemble('\n'.join(lines[cut:]))
        a.link()
        b = bytearray(bytes(256) + HEADER + b'\x50\x01')
        b[0x134:0x136], b[0x147], b[0x146] = b'AB', 5, 3
        ctx.expect('in pieces %d' % cut, fixup(b), bytes(a.assembled_bytes))
        ctx.trace()


# the program of the README (tiles and map as plain data): source line, encoding given label addresses and own address
def _w(v):
    return bytes((v & 255, v >> 8))


def _jr(op, name):
    # None: the loop is too long for a relative jump
    return lambda at, L: b'\0\0' if L is COUNT else bytes((op, (L[name] - at - 2) & 255)) if -128 <= L[name] - at - 2 < 128 else None


def _abs(op, name):
    return lambda at, L: bytes((op,)) + _w(L[name])


README = [
    ('.goto $150', 0x150), ('LD SP, $FFFE ; setup stack', b'\x31\xFE\xFF'), ('CALL turn_off_lcd', _abs(0xCD, 'turn_off_lcd')), ('LD HL, start_of_tiles', _abs(0x21, 'start_of_tiles')),
    ('LD BC, end_of_tiles-start_of_tiles ; label math', lambda at, L: b'\x01' + _w(L['end_of_tiles'] - L['start_of_tiles'])), ('LD DE, VRAM', b'\x11\x00\x80'), ('fill_tiles:', None),
    ('LD A, (HL+)', b'\x2A'), ('LD (DE), A', b'\x12'), ('INC DE', b'\x13'), ('DEC BC', b'\x0B'), ('LD A, B', b'\x78'), ('OR C', b'\xB1'), ('JR NZ, fill_tiles', _jr(0x20, 'fill_tiles')), ('', b''),
    ('LD HL, TMAP0', b'\x21\x00\x98'), ('LD BC, 32*32 ; integers', b'\x01\x00\x04'), ('clear_tilemap:', None), ("LD A, 28 ; '28' is the empty tile", b'\x3E\x1C'), ('LD (HL+), A', b'\x22'),
    ('DEC BC', b'\x0B'), ('LD A, B', b'\x78'), ('OR C', b'\xB1'), ('JR NZ, clear_tilemap', _jr(0x20, 'clear_tilemap')), ('', b''), ('LD HL, start_of_tilemap', _abs(0x21, 'start_of_tilemap')),
    ('LD BC, end_of_tilemap-start_of_tilemap', lambda at, L: b'\x01' + _w(L['end_of_tilemap'] - L['start_of_tilemap'])), ('LD DE, TMAP0', b'\x11\x00\x98'), ('fill_tilemap:', None), ('LD A, (HL+)', b'\x2A'),
    ('LD (DE), A', b'\x12'), ('INC DE', b'\x13'), ('DEC BC', b'\x0B'), ('LD A, B', b'\x78'), ('OR C', b'\xB1'), ('JR NZ, fill_tilemap', _jr(0x20, 'fill_tilemap')), ('CALL turn_on_lcd', _abs(0xCD, 'turn_on_lcd')),
    ('XOR A', b'\xAF'), ('.define scroll WRAM+2', b''), ('LD (scroll), A', b'\xEA\x02\xC0'), ('loop:', None), ('CALL wait_vblank', _abs(0xCD, 'wait_vblank')), ('LD A, (scroll)', b'\xFA\x02\xC0'),
    ('LD (SCX), A ; increment scroll x', b'\xEA\x43\xFF'), ('LD (SCY), A ; increment scroll y', b'\xEA\x42\xFF'), ('INC A', b'\x3C'), ('LD (scroll), A', b'\xEA\x02\xC0'), ('JP loop', _abs(0xC3, 'loop')),
    ('wait_vblank:', None), ('\tLD A, (LY)', b'\xFA\x44\xFF'), ('\tCP 144', b'\xFE\x90'), ('\tJP NZ, wait_vblank', _abs(0xC2, 'wait_vblank')), ('\tRET', b'\xC9'), ('turn_off_lcd:', None),
    ('\tCALL wait_vblank', _abs(0xCD, 'wait_vblank')), ('\tXOR A', b'\xAF'), ('\tLD (LCDC), A', b'\xEA\x40\xFF'), ('\tRET', b'\xC9'), ('turn_on_lcd:', None), ('\tLD A, %10010001 ; enable lcd and background', b'\x3E\x91'),
    ('\tLD (LCDC), A', b'\xEA\x40\xFF'), ('\tRET', b'\xC9'), ('start_of_tiles:', None), ('.db 1 2 3 4 5', b'\1\2\3\4\5'), ('.db 0,0 ; this is the tile 28 (empty)', b'\0\0'), ('end_of_tiles:', None),
    ('start_of_tilemap:', None), ('.db "map"', b'map'), ('end_of_tilemap:', None)]
EXTRA = [('NOP', b'\0'), ('.dw loop end_of_tiles', lambda at, L: _w(L['loop']) + _w(L['end_of_tiles'])), ('.fill 3 $C9', b'\xC9' * 3), ('.goto $400', 0x400), ('.align 32', 'align'), ('JP turn_on_lcd', _abs(0xC3, 'turn_on_lcd'))]


def encode(prog, size):
    labels = {}
    for last in (False, True):
        b = bytearray(0x100) + HEADER
        b[0x134:0x13C] = b'NECROBOY'
        for text, enc in prog:
            if enc is None:
                if not last:
                    labels[text.strip()[:-1]] = len(b)
            elif isinstance(enc, int):
                if enc < len(b):
                    return None
                b += bytes(enc - len(b))
            elif enc == 'align':
                b += bytes(-len(b) % 32)
            elif callable(enc):
                data = enc(len(b), labels if last else COUNT)
                if data is None:
                    return None
                b += data
            else:
                b += enc
    return fixup(b + bytes(size - len(b)))


class _Zero(dict):
    def __missing__(self, key):
        return 0x100


COUNT = _Zero()


def readme(ctx, part, parts, pairs):
    """the program of the README with one (two) statements added or removed anywhere"""
    cls = impl.load('gameboy')
    n = len(README)
    edits = [[]] + [[(i, e)] for i in range(1, n + 1) for e in EXTRA] + [[(i, 'drop')] for i in range(n) if README[i][1] is not None and README[i][0][:4] != '.def']
    if pairs:
        edits += [[(j, b), (i, a)] for i in range(1, n + 1) for j in range(i, n + 1) for a in EXTRA[:4] for b in EXTRA[:2] if (i + j) % 3 == 0]
    for edit in edits[part::parts]:
        prog = list(README)
        for at, what in edit:
            if what == 'drop':
                del prog[at]
            else:
                prog.insert(at, what)
        sig = 'README program with %r' % [(i, w if w == 'drop' else w[0]) for i, w in edit]
        src = '.org $0000 $7fff ; 32k\n\n.goto $100 ; cartridge header must be at $100\n.cartridge\n.cartridge_title "NECROBOY"\n\n' + '\n'.join(t for t, e in prog) + '\n'
        ctx.state(sig)
        run_one(ctx, cls, sig, src, encode(prog, 0x8000))


def shards(tier):
    deep = tier == 'thorough'
    out = [(f.__name__, f, ()) for f in (refused, placed, objects, gapped)]
    for size in (0x8001, 0x10001, 0x20000, 0x40001, 0x100000, 0x200000):
        out.append(('large %x' % size, large, (size,)))
    out += [('readme %d' % i, readme, (i, 8, deep)) for i in range(8)]
    for s in alphabet():
        out.append(('sequences ' + s[0], sequences, (s, 4 if deep else 3)))
    sizes = [0x150, 0x151, 0x152, 0x153, 0x1FF, 0x200, 0x201, 0x1FFF, 0x2000, 0x4000, 0x7FFF, 0x8000] + ([0x10000, 0x20000, 0x40000] if deep else [0x10000])
    for i in range(4):
        out.append(('contents %d' % i, contents, (sizes[i::4],)))
    out += core.parallel_ranges('weights', weights, 0x170, 8)
    return out


if __name__ == '__main__':
    core.main('C40', shards, rule='every sequence of up to four (five) cartridge directives over 19 valued directives, every refused value, every way to reach the header, every single header byte, every split of the first 256 bytes over origins and regions, images of all boundary sizes up to 2 MB with extreme contents; each linked twice; the program of the README with every statement removed and six statements added at every place (pairs in the thorough tier)')
