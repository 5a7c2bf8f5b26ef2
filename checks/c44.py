"""C44: predefined hardware names - every name of every console in every place a number can stand, alone and in sequences."""
import importlib
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, forms, impl

# public hardware documentation (registers, memory areas, I/O ports, command bytes)
MAP = {
    'nes': {'PPUCTRL': 0x2000, 'PPUMASK': 0x2001, 'PPUSTATUS': 0x2002, 'OAMADDR': 0x2003, 'OAMDATA': 0x2004, 'PPUSCROLL': 0x2005, 'PPUADDR': 0x2006,
            'PPUDATA': 0x2007, 'OAMDMA': 0x4014},
    'gameboy': {'VRAM': 0x8000, 'LCDC': 0xFF40, 'STAT': 0xFF41, 'SCY': 0xFF42, 'SCX': 0xFF43, 'LY': 0xFF44, 'LYC': 0xFF45, 'WY': 0xFF4A, 'WX': 0xFF4B,
                'TMAP0': 0x9800, 'TMAP1': 0x9C00, 'WRAM': 0xC000, 'WRAM0': 0xC000, 'WRAM1': 0xD000, 'HRAM': 0xFF80},
    'sms': {'RAM': 0xC000, 'JOY1': 0xDC, 'JOY2': 0xDD, 'PSG': 0x7F, 'VDPDATA': 0xBE, 'VDPADDR': 0xBF, 'CMD_VRAM': 0x40, 'CMD_REG': 0x80, 'CMD_CRAM': 0xC0},
}
PARENT = {'nes': 'mos6502', 'gameboy': 'lr35902', 'sms': 'z80'}


# a Game Boy image without room for its header cannot be fixed up
HEAD = {'gameboy': 336, 'nes': 0, 'sms': 0}


def run(name, src):
    o = impl.run(impl.load(name), ('.fill %d\n.org 0\n' % HEAD[name] if HEAD[name] else '') + src)
    if o.kind == 'ok':
        o.data = o.data[HEAD[name]:]
    return o


def le(v, n=2):
    return (v % (1 << 8 * n)).to_bytes(n, 'little')


# instructions taking a 16 bit address / an 8 bit number
WIDE = {'nes': [('LDA %s', b'\xAD'), ('STA %s', b'\x8D'), ('LDX %s', b'\xAE'), ('BIT %s', b'\x2C'), ('STA %s,X', b'\x9D'), ('LDA %s,Y', b'\xB9'), ('JMP (%s)', b'\x6C'), ('JSR %s', b'\x20'), ('INC %s', b'\xEE')],
        'gameboy': [('LD A,(%s)', b'\xFA'), ('LD (%s),A', b'\xEA'), ('LD HL,%s', b'\x21'), ('LD BC,%s', b'\x01'), ('LD SP,%s', b'\x31'), ('CALL %s', b'\xCD'), ('JP %s', b'\xC3'), ('JP NZ,%s', b'\xC2')],
        'sms': [('LD A,(%s)', b'\x3A'), ('LD (%s),A', b'\x32'), ('LD HL,%s', b'\x21'), ('LD DE,%s', b'\x11'), ('LD (%s),HL', b'\x22'), ('CALL %s', b'\xCD'), ('JP %s', b'\xC3'), ('LD IX,%s', b'\xDD\x21')]}
NARROW = {'nes': [('LDA #<%s', b'\xA9')], 'gameboy': [('LD A,<%s', b'\x3E'), ('CP <%s', b'\xFE')],
          'sms': [('OUT (%s),A', b'\xD3'), ('IN A,(%s)', b'\xDB'), ('LD A,%s', b'\x3E'), ('OR %s', b'\xF6'), ('CP %s', b'\xFE')]}


def places(name, n, v):
    """(program, bytes)"""
    out = [('.dw %s' % n, le(v)), ('.dd %s' % n, le(v, 4)), ('.dw 1 %s,2' % n, b'\1\0' + le(v) + b'\2\0'), ('.dw %s+1' % n, le(v + 1)), ('.dw %s-%s+3' % (n, n), b'\3\0'), ('.dd 2*%s' % n, le(2 * v, 4)),
           ('.dd 65536+%s' % n, le(0x10000 + v, 4)), ('.dw %s|1&255' % n, le((v | 1) & 255)), ('.dw %s/2' % n, le(v // 2)), ('.db <%s' % n, le(v)[:1]), ('.db >%s' % n, le(v)[1:]), ('.db "%s"' % n, n.encode()),
           (".db '%s' 1" % n, n.encode() + b'\1'), ('.org %s\nhere: .dw here' % n, le(v)), ('.org %s+4\nhere:\n.dw here %s' % (n, n), le(v + 4) + le(v)), ('.define mine %s\n.dw mine' % n, le(v)), ('.define mine %s+2\n.dw mine' % n, le(v + 2)),
           ('.macro mm x y\n.endmacro\n.macro set p\n%s\n.endmacro\nset %s' % (WIDE[name][0][0] % 'p', n), WIDE[name][0][1] + le(v) if v > 255 or name != 'nes' else None),
           ('.dw %s\n.define %s $1234\n.dw %s' % (n, n, n), le(v) + b'\x34\x12'), ('.define %s 7\n.define %s %s+1\n.dw %s' % (n, n, n, n), b'\x08\0'),
           ('.dw %sX x%s %s_1 %s.a %s\n.org 5\n%sX: x%s:\n%s_1:%s.a: %s:' % ((n, n, n, n, n.lower()) * 2), b'\5\0' * 5),
           ('.repeat 3\n.dw %s\n.endrepeat' % n, le(v) * 3), ('.fill 2 <%s' % n, le(v)[:1] * 2), (';%s\n.dw %s;%s' % (n, n, n), le(v)), ('.dw_to_ascii %s' % n, str(v).encode())]
    if v < 256:
        out += [('.db %s' % n, bytes([v])), ('.db %s %s' % (n, n), bytes([v, v])), ('.db %s+%d' % (n, 255 - v), b'\xFF'), ('.db_to_ascii %s' % n, str(v).encode())]
    out += [(t % n, c + le(v)) for t, c in WIDE[name]] + [(t % (n + '+1'), c + le(v + 1)) for t, c in WIDE[name]]
    out += [(t % n, c + le(v)[:1]) for t, c in NARROW[name] if v < 256 or '<' in t]
    return [x for x in out if x[1] is not None]


def each(ctx, name):
    for n, v in MAP[name].items():
        for src, want in places(name, n, v):
            core.arm()
            o = run(name, src)
            ctx.trace()
            ctx.step()
            ctx.state((n, src))
            if o.kind != 'ok' or o.data != want:
                ctx.fail('%s: %s' % (name, src.replace('\n', ' | ')), want, impl.brief(o), src)
        # a value that does not fit is refused as the number would be
        if v > 255:
            o = run(name, '.db %s' % n)
            ctx.expect('%s: .db %s' % (name, n), 'refused', 'refused' if o.kind in ('asm-error', 'link-error') else impl.brief(o))
        # names belong to their console only, in their exact case
        for other in [PARENT[name]] + [x for x in MAP if x != name and n not in MAP[x]]:
            o = impl.run(impl.load(other), '.dw %s' % n)
            ctx.expect('%s: .dw %s' % (other, n), 'link-error', o.kind if o.kind != 'ok' else impl.brief(o))
        for m in {n.lower(), n.title(), n[:-1] + n[-1].lower()} - {n}:
            o = run(name, '.dw %s' % m)
            ctx.expect('%s: .dw %s' % (name, m), 'link-error', o.kind if o.kind != 'ok' else impl.brief(o))
    ctx.sample({'platform': name, 'names': sorted(MAP[name])})


def pairs(ctx, name):
    """every pair of names, one redefined before, between or after uses; other objects keep theirs"""
    C = impl.load(name)
    items = list(MAP[name].items())
    for (n, v), (m, w) in itertools.product(items, repeat=2):
        core.arm()
        a, b, c = C(), C(), C()
        for x in (a, b, c):
            x.append_assembled_bytes(bytes(HEAD[name]))
        a.assemble('.dw %s %s\n.define %s $0102\n.dw %s %s' % (n, m, n, n, m))
        b.assemble('.dw %s %s-%s\n.db <%s' % (n, m, m, m))
        c.register_define(n, '9')
        c.assemble('.dw %s\n.define %s %s\n.dw %s %s' % (n, m, n, n, m) if n != m else '.dw %s' % n)
        for x in (a, b, c):
            x.link()
        ctx.trace(3)
        ctx.step(6)
        ctx.state((n, m))
        ctx.expect('%s: %s redefined, %s too' % (name, n, m), le(v) + le(w) + b'\2\1' + (b'\2\1' if n == m else le(w)), bytes(a.assembled_bytes[HEAD[name]:]))
        ctx.expect('%s: %s and %s in a second object' % (name, n, m), le(v) + b'\0\0' + le(w)[:1], bytes(b.assembled_bytes[HEAD[name]:]))
        ctx.expect('%s: %s registered again, %s through it' % (name, n, m), b'\x09\0' * (1 if n == m else 3), bytes(c.assembled_bytes[HEAD[name]:]))


def sequences(ctx, name, n, depth):
    """statements about one name in every order, against a dictionary"""
    v = MAP[name][n]
    t, code = WIDE[name][0]
    ops = [('.dw %s' % n, None), (t % n, code), ('.define %s $1234' % n, 0x1234), ('.define %s $4321' % n, 0x4321), ('.define other %s' % n, 'copy'), ('.dw other+1', 'other'), ('.org %s' % n, 'org'), ('.dw here', 'here')]
    for seq in itertools.product(ops, repeat=depth):
        core.arm()
        cur, other, out, org, count, ok = v, None, b'', 0, 0, True
        names = {}
        for text, what in seq:
            blob = b''
            if what is None:
                blob = le(cur)
            elif what == 'copy':
                other = cur
            elif what == 'other':
                if other is None:
                    ok = False
                    break
                blob = le(other + 1)
            elif what == 'org':
                org, count = cur, 0
            elif what == 'here':
                blob = le(v)
            elif isinstance(what, int):
                cur = what
            else:
                blob = what + le(cur)
            out += blob
            count += len(blob)
        if not ok:
            continue
        # the definition of other holds the text of the name, replaced when it was defined
        src = '\n'.join(x for x, _ in seq) + '\n.org $%X\nhere:' % v if name == 'nes' or name == 'gameboy' else '\n'.join(x for x, _ in seq) + '\n.org %d\nhere:' % v
        o = run(name, src)
        ctx.trace()
        ctx.step(depth)
        ctx.state((n, out))
        if o.kind != 'ok' or o.data != out:
            ctx.fail('%s: %s' % (name, src.replace('\n', ' | ')), out, impl.brief(o), src)


def instructions(ctx, name, parent, mod, lo, hi):
    """the console's assembler takes the instructions of its processor, none of their words being one of its names"""
    m = importlib.import_module('mc.ref.' + mod)
    f, g = forms.Feeder(name), forms.Feeder(parent)
    for form in m.forms()[lo:hi]:
        for vals in itertools.product(*[x.few() for x in form.fields]):
            text = form.text.format(*vals)
            want, got = g.feed(text), f.feed(text)
            if name == 'psx' and isinstance(want, bytes) and isinstance(got, bytes):
                got = b''.join(got[i:i + 4][::-1] for i in range(0, len(got), 4))
            ctx.trace()
            ctx.step(2)
            ctx.state((text, want))
            ctx.expect('%s: %s' % (name, text), want, got)


def shards(tier):
    out = []
    for name, parent, mod in (('nes', 'mos6502', 'mos6502'), ('gameboy', 'lr35902', 'lr35902'), ('sms', 'z80', 'z80'), ('psx', 'mips32', 'mips32')):
        for i in range(0, len(importlib.import_module('mc.ref.' + mod).forms()), 400):
            out.append(('instructions %s %d' % (name, i), instructions, (name, parent, mod, i, i + 400)))
    for name in MAP:
        out += [('each ' + name, each, (name,)), ('pairs ' + name, pairs, (name,))]
        for n, v in MAP[name].items():
            if v > 255:
                out.append(('sequences %s %s' % (name, n), sequences, (name, n, 4 if tier == 'quick' else 5)))
    return out


if __name__ == '__main__':
    core.main('C44', shards, rule='every predefined name of the three consoles in up to 50 contexts (data, formulas, selectors, quotes, longer names, macros, defines, instructions), every pair of names with redefinitions in three objects, all sequences of depth 4 (5) of eight statements about each register name',
              assumptions=['the expected values are those of the public hardware documentation', 'a label with the name of a predefined name is not specified'])
