"""C03: literals of every processor syntax, read exactly or rejected."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, impl

NASM = {'hex': (('0x', ''), ('0h', ''), ('$0', ''), ('', 'h')), 'dec': (('', ''), ('0d', ''), ('', 'd')),
        'bin': (('0b', ''), ('0y', ''), ('', 'b'), ('', 'y')), 'oct': (('0o', ''), ('0q', ''), ('', 'o'), ('', 'q'))}
MOTO = {'hex': (('$', ''),), 'bin': (('%', ''),), 'oct': (('@', ''),), 'dec': (('', ''),)}
NO_OCT = {'hex': (('$', ''),), 'bin': (('%', ''),), 'dec': (('', ''),)}
SYNTAX = {
    'mos6502': MOTO, 'nes': MOTO, 'lr35902': MOTO, 'gameboy': MOTO,
    'z80': NO_OCT, 'sms': NO_OCT, 'm68k': NO_OCT, 'i8086': NASM, 'x86': NASM,
    'thumb': {'hex': (('0x', ''),), 'bin': (('0b', ''), ('0y', '')), 'dec': (('', ''),)},
    'mips32': {'hex': (('0x', ''),), 'bin': (('0b', ''),), 'dec': (('', ''),)},
    'psx': {'hex': (('0x', ''),), 'bin': (('0b', ''),), 'dec': (('', ''),)},
    'ppc': {'hex': (('0x', ''),), 'dec': (('', ''),)},
}
BIG = {'mips32', 'm68k', 'ppc'}
DIGITS = {'hex': 'x', 'bin': 'b', 'oct': 'o', 'dec': 'd'}


def spell(base, value, pre, suf, style=0):
    d = format(abs(value), DIGITS[base])
    if base == 'hex':
        d = d.upper() if style & 1 else d
        if suf and not d[0].isdigit():
            d = '0' + d
    if style & 2:
        d = '00' + d
    return ('-' if value < 0 else '') + pre + d + suf


def boundary(maxbits=66):
    vals = {0, 1, 2, 3, 5, 10, 127, 128, 200, 255, 1000, 65535, 0xABCDEF, 0xDEADBEEF, 0x0B1, 0xD0, 0x0D}
    for k in range(maxbits):
        for d in (-2, -1, 0, 1):
            vals.add((1 << k) + d)
    return sorted(v for v in vals if v >= 0)


def ambiguous(cpu, text):
    """0b, 0d, 0o...: a bare prefix or a suffixed zero"""
    return any(text == pre for forms in SYNTAX[cpu].values() for pre, _ in forms)


def expected(value, decimal, bits, signed):
    """the value used for the field, or None if it must be refused"""
    if decimal and value < 0:
        if value < -(1 << (bits - 1)):
            return None
        return value if signed else value + (1 << bits)
    if value < 0:
        return None
    if decimal and signed:
        return value if value < (1 << (bits - 1)) else None
    return value if value < (1 << bits) else None


REJECT = 'rejected'


def parse(asm, text, bits, signed):
    try:
        v = asm.parse_integer(text, bits, signed)
    except impl.asm_error():
        return REJECT
    except Exception as e:  # noqa
        return 'raw error %s: %s' % (type(e).__name__, e)
    return 'not a number' if v is None else v


def fields(ctx, cpu):
    asm = impl.load(cpu)()
    vals = boundary()
    for bits in range(1, 65):
        core.arm()
        near = [v for v in vals if bits - 2 <= v.bit_length() <= bits + 2] + [0, 1, 2, 200, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, 0xB1, 0xD0]
        for base, forms in SYNTAX[cpu].items():
            for v in near:
                for value in ((v, -v) if base == 'dec' and v else (v,)):
                    for pre, suf in forms:
                        if value < 0 and (pre or suf):
                            continue
                        for style in ((0, 1, 2) if base == 'hex' else (0, 2)):
                            text = spell(base, value, pre, suf, style)
                            if ambiguous(cpu, text):
                                continue
                            for signed in (False, True):
                                exp = expected(value, base == 'dec', bits, signed)
                                if exp is None:
                                    exp = REJECT
                                got = parse(asm, text, bits, signed)
                                ctx.trace()
                                ctx.step()
                                ctx.state((cpu, base, bits, exp))
                                if exp != got:
                                    ctx.fail('%s parse %s as %s %d bits' % (cpu, text, 'signed' if signed else 'unsigned', bits), exp, got)
        ctx.sample({'cpu': cpu, 'bits': bits, 'values': len(near)}, 1)


def chars(ctx, cpu):
    asm = impl.load(cpu)()
    for c in [chr(i) for i in range(1, 256)] + ['\u0100', '\u20ac']:
        for bits in (7, 8, 9, 16, 32):
            for signed in (False, True):
                exp = ord(c) if ord(c) < (1 << bits) else REJECT
                got = parse(asm, "'" + c + "'", bits, signed)
                ctx.trace()
                ctx.step()
                ctx.state(('char', c, bits, exp))
                if got != exp:
                    ctx.fail('%s parse %r %d bits' % (cpu, "'" + c + "'", bits), exp, got)


# spellings that are not numbers in the syntax: they must never yield a value
def junk(ctx, cpu):
    asm = impl.load(cpu)()
    syn = SYNTAX[cpu]
    cases = ['', 'x', 'FF', 'FFh', 'AH', 'zz9', '--1', '1-', '-', '1.5', '1e3', '0z1', "'", "''", "'ab'", '.1', '1.', '+-1', '_1', 'h', 'b', 'd']
    for base, forms in syn.items():
        bad = {'hex': ('', 'g', '1g', 'g1', '-1', '.'), 'bin': ('', '2', '12', '1.'), 'oct': ('', '8', '18'), 'dec': ('', 'a', '1a')}[base]
        for pre, suf in forms:
            if pre or suf:
                cases += [pre + b + suf for b in bad if not (base == 'hex' and b == '' and suf)]
            cases += ['-' + pre + '1' + suf] if base != 'dec' and pre else []
    for text in cases:
        for bits in (8, 16, 64):
            for signed in (False, True):
                got = parse(asm, text, bits, signed)
                ctx.trace()
                ctx.step()
                ok = got in (REJECT, 'not a number')
                if not ok and isinstance(got, int) and _legit(syn, text, got):
                    ok = True
                ctx.state((cpu, text, ok))
                if not ok:
                    ctx.fail('%s parse %r %d bits' % (cpu, text, bits), 'no value', got)


def _legit(syn, text, got):
    """another reading of the text that is valid in this syntax"""
    import re
    if re.fullmatch(r"[+-]?\d+[+\-*/&|]?", text):     # a trailing operator means 'and 1'
        return True
    for base, forms in syn.items():
        cls = {'hex': '[0-9a-fA-F]+', 'bin': '[01]+', 'oct': '[0-7]+', 'dec': r'\d+'}[base]
        n = {'hex': 16, 'bin': 2, 'oct': 8, 'dec': 10}[base]
        for pre, suf in forms:
            m = re.fullmatch(re.escape(pre) + '(' + cls + ')' + re.escape(suf) + '([+\\-*/&|].*)?', text)
            if m and (not suf or base != 'hex' or m.group(1)[0].isdigit()):
                if m.group(2) or int(m.group(1), n) == got:
                    return True
    return False


def directives(ctx, cpu):
    """the same through .db/.dw/.dd, looking at the emitted bytes"""
    cls = impl.load(cpu)
    big = cpu in BIG
    vals = boundary(34)
    n = 0
    for d, size in (('db', 1), ('byte', 1), ('dw', 2), ('word', 2), ('dd', 4), ('dl', 4), ('dword', 4)):
        for base, forms in SYNTAX[cpu].items():
            for v in vals:
                for value in ((v, -v) if base == 'dec' and v else (v,)):
                    for pre, suf in forms:
                        if value < 0 and (pre or suf):
                            continue
                        text = spell(base, value, pre, suf)
                        if ambiguous(cpu, text):
                            continue
                        exp = expected(value, base == 'dec', size * 8, False)
                        if n % 512 == 0:
                            core.arm()
                            asm = cls()
                        n += 1
                        before = len(asm.assembled_bytes)
                        try:
                            asm.assemble('.%s %s' % (d, text))
                            got = ('ok', bytes(asm.assembled_bytes[before:]))
                        except impl.asm_error():
                            got = ('asm-error', b'')
                        except Exception as e:  # noqa
                            got = ('raw-error', repr(e))
                        ctx.trace()
                        ctx.step()
                        ctx.state((d, exp))
                        want = ('asm-error', b'') if exp is None else ('ok', exp.to_bytes(size, 'big' if big else 'little'))
                        if got != want:
                            ctx.fail('%s .%s %s' % (cpu, d, text), want, got)
                        if n % 512 == 0:
                            linked(ctx, cpu, d, text, asm)
    linked(ctx, cpu, 'last', '', asm)


def linked(ctx, cpu, d, text, asm):
    """no literal may have been kept as a name to be resolved later"""
    image = bytes(asm.assembled_bytes)
    try:
        asm.link()
    except impl.asm_error() as e:
        ctx.fail('%s link after the .%s literals up to %s' % (cpu, d, text), 'links', str(e))
        return
    ctx.expect('%s link after the .%s literals up to %s' % (cpu, d, text), image, bytes(asm.assembled_bytes))


def shards(tier):
    out = []
    for cpu in SYNTAX:
        out += [('fields-' + cpu, fields, (cpu,)), ('chars-' + cpu, chars, (cpu,)), ('junk-' + cpu, junk, (cpu,))]
    for cpu in (SYNTAX if tier == 'thorough' else ('mos6502', 'lr35902', 'z80', 'thumb', 'mips32', 'psx', 'm68k', 'i8086')):
        out.append(('directives-' + cpu, directives, (cpu,)))
    return out


if __name__ == '__main__':
    core.main('C03', shards, rule='every base and spelling of each processor syntax x values around every power of two x widths 1..64 x signedness')
