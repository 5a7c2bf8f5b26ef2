"""C41: tile conversion - every row of pixels, every pixel of several sizes, everything that must be refused.

The imaging library is not installed here: a stand-in with its public interface supplies the pixels.
"""
import itertools
import os
import sys
import types
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, impl


class FakeImage:
    """the part of PIL.Image.Image that reading an indexed image can need"""
    format = 'BMP'
    info = {}

    def __init__(self, width, height, pixel, mode='P'):
        self.width, self.height, self.mode = width, height, mode
        self.size = (width, height)
        self._pixel = pixel

    def getpixel(self, xy):
        x, y = xy
        if not (0 <= x < self.width and 0 <= y < self.height):
            raise IndexError('image index out of range')
        return self._pixel(x, y)

    def getdata(self, band=None):
        return [self._pixel(x, y) for y in range(self.height) for x in range(self.width)]

    get_flattened_data = getdata

    def tobytes(self, *a):
        return bytes(self.getdata())

    def load(self):
        image = self

        class Access:
            def __getitem__(self, xy):
                return image.getpixel(xy)
        return Access()

    def getbands(self):
        return ('P',)

    def getextrema(self):
        d = self.getdata()
        return min(d), max(d)

    def crop(self, box):
        l, t, r, b = box
        return FakeImage(r - l, b - t, lambda x, y: self._pixel(x + l, y + t), self.mode)

    def copy(self):
        return self

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


IMAGES = {}
OPENED = []


def fake_open(fp, *a, **kw):
    name = getattr(fp, 'name', fp)
    OPENED.append(name)
    if name not in IMAGES:
        raise FileNotFoundError(2, 'No such file or directory', name)
    return IMAGES[name]


def install():
    pil = types.ModuleType('PIL')
    mod = types.ModuleType('PIL.Image')
    mod.open = fake_open
    mod.Image = FakeImage
    pil.Image = mod
    sys.modules['PIL'] = pil
    sys.modules['PIL.Image'] = mod


install()

CONSOLES = {'gameboy': ('tiles', 4), 'sms': ('tiles', 16), 'nes': ('chr_pattern_table', 4)}


def encode(console, image):
    """the console's format, from the hardware documentation"""
    out = bytearray()
    planes = {'gameboy': 2, 'sms': 4, 'nes': 2}[console]
    for ty in range(image.height // 8):
        for tx in range(image.width // 8):
            rows = []
            for y in range(8):
                row = [0] * planes
                for x in range(8):
                    v = image._pixel(tx * 8 + x, ty * 8 + y)
                    for p in range(planes):
                        row[p] = row[p] << 1 | (v >> p & 1)
                rows.append(row)
            if console == 'nes':
                out += bytes(r[0] for r in rows) + bytes(r[1] for r in rows)
            else:
                # a row's planes lie side by side
                for r in rows:
                    out += bytes(r)
    return bytes(out)


def convert(console, image):
    """assemble only: (bytes or text)"""
    IMAGES.clear()
    IMAGES['img.bmp'] = image
    return impl.run(impl.load(console), '.%s "img.bmp"' % CONSOLES[console][0], link=False)


def want_image(ctx, console, sig, image):
    o = convert(console, image)
    ctx.trace()
    want = encode(console, image)
    got = o.data if o.kind == 'ok' else impl.brief(o)
    if got != want:
        if isinstance(got, bytes) and len(got) == len(want):
            i = next(i for i in range(len(want)) if want[i] != got[i])
            ctx.fail(sig + ' at byte %d' % i, want[i:i + 16], got[i:i + 16])
        else:
            ctx.fail(sig, 'hex:' + want.hex()[:80] + ' (%d bytes)' % len(want), got if isinstance(got, str) else 'hex:' + got.hex()[:80] + ' (%d bytes)' % len(got))


def want_refused(ctx, console, sig, image):
    o = convert(console, image)
    ctx.trace()
    if o.kind != 'asm-error':
        ctx.fail(sig, 'refused', impl.brief(o)[:100])


def rows(ctx, console, lo, hi, per):
    """every row of eight pixels, `per` rows to an image"""
    colours = CONSOLES[console][1]
    for base in range(lo, hi):
        first = base * per

        def pixel(x, y):
            n = first + (x // 8) + y * (width // 8)
            return n // colours ** (7 - x % 8) % colours
        width = 128
        height = per // 16
        want_image(ctx, console, '%s rows %d..%d' % (console, first, first + per - 1), FakeImage(width, height, pixel))
        ctx.state((console, base))
        ctx.step(per)
    ctx.sample({'console': console, 'rows': per * (hi - lo)})


def pairs(ctx, console):
    """every pair of pixels of a row with every pair of values, in every row of the tile"""
    colours = CONSOLES[console][1]
    w = h = 128
    # every tile of the image holds another pair of values
    for a, b in itertools.combinations(range(8), 2):
        for other in range(colours) if colours == 4 or ctx.thorough else (0, 6, 15):
            if console != 'nes':
                w = h = 8 * colours

            def pixel(x, y):
                tx, ty = x // 8 % colours, y // 8 % colours
                return (tx + y % 8) % colours if x % 8 == a else (ty + 3 * (y % 8)) % colours if x % 8 == b else other
            want_image(ctx, console, '%s pixels %d %d, others %d' % (console, a, b, other), FakeImage(w, h, pixel))
            ctx.state((console, a, b, other))
            ctx.step(w * h // 64)


def single(ctx, console, w, h, part=0, parts=1):
    """one pixel at each place with each value, on both extreme backgrounds"""
    colours = CONSOLES[console][1]
    values = {'gameboy': (0, 1, 2, 3), 'sms': (0, 1, 2, 4, 8, 7, 11, 13, 14, 15), 'nes': (1, 2, 3)}[console]
    places = [(x, y) for y in range(h) for x in range(w)]
    if console == 'nes':
        # one pixel of each tile at a time: each tile position once, all places of a tile
        places = [(x, y) for y in range(8) for x in range(8)]
    for px, py in places[part::parts]:
        for v in values:
            for bg in (0, colours - 1):
                if v == bg or console == 'sms' and (v.bit_count() > 1) == (bg == 0) and v not in (0, 15):
                    continue
                if console == 'nes':
                    # a different tile for every place
                    t = py * 8 + px + 64 * v
                    qx, qy = t % 16 * 8 + px, t // 16 % 16 * 8 + py
                else:
                    qx, qy = px, py
                want_image(ctx, console, '%s %dx%d pixel %d,%d = %d on %d' % (console, w, h, qx, qy, v, bg), FakeImage(w, h, lambda x, y: v if (x, y) == (qx, qy) else bg))
                ctx.state((console, w, h, qx, qy, v, bg))
                ctx.step()


def patterns(ctx, console):
    """all sizes, with contents in which every tile and row differs"""
    colours = CONSOLES[console][1]
    sizes = [(128, 128)] if console == 'nes' else [(8 * a, 8 * b) for a in range(1, 7) for b in range(1, 5)] + [(256, 8), (8, 256), (128, 128), (160, 144), (264, 8), (8, 264), (272, 264), (520, 16), (16, 520), (1032, 8), (8, 1032), (2056, 8), (8, 2056)]
    fns = [lambda x, y: (x + y) % colours, lambda x, y: (x * 7 + y * 13 + x * y) % colours, lambda x, y: (x // 8 + 3 * (y // 8)) % colours,
           lambda x, y: ((x * x + 5 * y * y * y) >> 2) % colours, lambda x, y: colours - 1, lambda x, y: 0]
    for w, h in sizes:
        for i, f in enumerate(fns):
            want_image(ctx, console, '%s %dx%d pattern %d' % (console, w, h, i), FakeImage(w, h, f))
            ctx.state((console, w, h, i))
            ctx.step()


def refused(ctx, console):
    colours = CONSOLES[console][1]
    good = (128, 128) if console == 'nes' else (16, 16)
    for mode in ('1', 'L', 'RGB', 'RGBA', 'CMYK', 'YCbCr', 'LAB', 'HSV', 'I', 'F', 'LA', 'PA', 'I;16', 'p', ''):
        want_refused(ctx, console, '%s mode %r' % (console, mode), FakeImage(good[0], good[1], lambda x, y: 0, mode))
        ctx.state((console, mode))
    sizes = [(w, h) for w in range(1, 26) for h in range(1, 26)]
    if console == 'nes':
        sizes += [(128 + a, 128 + b) for a in (-120, -8, -1, 0, 1, 8, 128) for b in (-120, -8, -1, 0, 1, 8, 128)]
    else:
        sizes += [(w, h) for w in (127, 128, 129, 136) for h in (7, 8, 9)]
    for w, h in sizes:
        ok = (w, h) == (128, 128) if console == 'nes' else w % 8 == 0 and h % 8 == 0
        if not ok:
            want_refused(ctx, console, '%s size %dx%d' % (console, w, h), FakeImage(w, h, lambda x, y: 0))
            ctx.state((console, w, h))
        elif console != 'nes':
            want_image(ctx, console, '%s size %dx%d' % (console, w, h), FakeImage(w, h, lambda x, y: (x ^ y) & 1))
    places = [(x, y) for x in range(16) for y in range(16) if console != 'nes' or (x + 16 * y) % 5 == 0] + ([(64, 63), (120, 127), (127, 127)] if console == 'nes' else [])
    for px, py in places:
        for v in (colours, colours + 1, colours * 2 - 1, 64, 128, 255) if console != 'nes' or (px, py) in ((0, 0), (15, 15), (127, 127)) else (colours,):
            want_refused(ctx, console, '%s colour %d at %d,%d' % (console, v, px, py), FakeImage(good[0], good[1], lambda x, y: v if (x, y) == (px, py) else 0))
            ctx.state((console, px, py, v))
    d = CONSOLES[console][0]
    IMAGES.clear()
    IMAGES['img.bmp'] = FakeImage(good[0], good[1], lambda x, y: 1)
    for src in ('.%s' % d, '.%s "img.bmp" 1' % d, '.%s "img.bmp" "img.bmp"' % d, '.%s ""' % d):
        o = impl.run(impl.load(console), src, link=False)
        ctx.expect('%s %s' % (console, src), 'asm-error', o.kind)
        ctx.trace()
    o = impl.run(impl.load(console), '.%s "other.bmp"' % d, link=False)
    ctx.expect('%s missing file' % console, 'FileNotFoundError', type(o.exc).__name__)
    ctx.trace()


def placed(ctx, console):
    """tiles among other code: labels around them, several images, file names of all kinds"""
    d = CONSOLES[console][0]
    good = (128, 128) if console == 'nes' else (24, 16)
    names = ['img.bmp', 'dir/img.bmp', 'with space.bmp', '/tmp/x.png', 'IMG.BMP']
    for name in names:
        for other in names:
            IMAGES.clear()
            a = FakeImage(good[0], good[1], lambda x, y: (x * y) % 3)
            b = FakeImage(good[0], good[1], lambda x, y: (x + y) % 4)
            IMAGES[name] = a
            if other != name:
                IMAGES[other] = b
            else:
                b = a
            q = '"' if ' ' in name or other != name else ''
            src = '.db 1\none: .%s %s%s%s\ntwo: .db 2\n.%s "%s"\nthree: .dw one two three' % (d, q, name, q, d, other)
            del OPENED[:]
            o = impl.run(impl.load(console), src, link=False)
            ta, tb = encode(console, a), encode(console, b)
            want = b'\1' + ta + b'\2' + tb
            ctx.expect('%s %r %r' % (console, name, other), want + bytes(6), o.data if o.kind == 'ok' else impl.brief(o))
            if o.kind == 'ok':
                ctx.expect('%s labels' % console, [1, 1 + len(ta), len(want)], [o.asm.get_label_absolute_address_by_name(n) for n in ('one', 'two', 'three')])
            ctx.trace()
            ctx.step(5)
            ctx.state((console, name, other))
    # inside a bounded region, through a define, and too large for the region
    IMAGES.clear()
    a = IMAGES['img.bmp'] = FakeImage(good[0], good[1], lambda x, y: y % 4)
    ta = encode(console, a)
    for slack in (0, 1, 5):
        end = 0x1000 + len(ta) - 1 + slack
        o = impl.run(impl.load(console), '.org $1000 $%X\n.define PIC img.bmp\n.%s PIC' % (end, d), link=False)
        ctx.expect('%s region slack %d' % (console, slack), ta + bytes(slack), o.data if o.kind == 'ok' else impl.brief(o))
        ctx.trace()
    o = impl.run(impl.load(console), '.org $1000 $%X\n.%s "img.bmp"\n' % (0x1000 + len(ta) - 2, d), link=False)
    ctx.expect('%s region too small' % console, 'asm-error', o.kind)
    ctx.trace()


def shards(tier):
    deep = tier == 'thorough'
    out = []
    for c in CONSOLES:
        for f in (pairs, patterns, refused, placed):
            out.append(('%s %s' % (f.__name__, c), f, (c,)))
        for w, h in {'gameboy': [(8, 8), (16, 8), (8, 16), (24, 16)] + ([(32, 32)] if deep else []), 'sms': [(8, 8), (16, 8), (8, 16)] + ([(24, 16)] if deep else []), 'nes': [(128, 128)]}[c]:
            parts = 8 if w * h > 128 else 1
            for i in range(parts):
                out.append(('single %s %dx%d %d' % (c, w, h, i), single, (c, w, h, i, parts)))
    for c in ('gameboy', 'nes'):
        # all 4^8 rows, 2048 to an image
        for i in range(8):
            out.append(('rows %s %d' % (c, i), rows, (c, 4 * i, 4 * i + 4, 2048)))
    return out


if __name__ == '__main__':
    core.main('C41', shards, rule='all 65536 rows of eight four-colour pixels (pairs of pixels for sixteen colours), every single pixel of several sizes with every value, every image size up to 25x25, every kind of refused image',
              assumptions=['PIL.Image.open is replaced by a stand-in that supplies mode, size and pixels'])
