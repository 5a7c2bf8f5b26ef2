"""C23: 8086 encodings - every form with every operand value, and every mnemonic with every operand shape."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, cpucheck, forms, impl
from mc.ref import i8086 as ref


def shards(tier):
    fs = ref.forms()
    t = forms.Table(fs, ref.optional())
    out = cpucheck.shards('i8086', [f for f in fs if f.fields and f.tag != 'alt'], t, [('%d operands' % n, lambda n=n: forms.operands_product(ref.MNEMONICS, ref.ALPHABET, n)) for n in (0, 1, 2)], k=24, parts=12)
    out += cpucheck.shards('i8086', [], t, [('plain', lambda: ((f.text, ()) for f in fs if not f.fields))])
    few = ref.ALPHABET if tier == 'thorough' else ref.ALPHABET[::5] + ref.ALPHABET[-13::3]
    out += cpucheck.shards('i8086', [], t, [('3 operands', lambda: forms.operands_product(ref.MNEMONICS if tier == 'thorough' else ('MOV', 'ADD', 'SHL', 'LES', 'OUT', 'JMP'), few, 3))])
    out.append(('minus', minus, ([f for f in fs if ' + {0}]' in f.text],)))
    out.append(('far', far, ()))
    return out + cpucheck.labels(tier, 'i8086')


def far(ctx):
    """segment:offset operands (written through a define: the colon of the source text is a label's)"""
    cls = impl.load('i8086')
    vals = [0, 1, 2, 127, 128, 255, 256, 0x1234, 0x7FFF, 0x8000, 0xFEDC, 65535, 65536, 70000, 1 << 20, -1, -2, -32768, -32769]
    for op, mn in ((0x9A, 'CALL'), (0xEA, 'JMP')):
        for seg in vals:
            for off in vals:
                for kind in ('%d:%d', '0x%x:%d', '%d:0x%x', 'seg:%d', '%d:off', 'seg:off'):
                    if '%' in kind and (('0x%x:' in kind and seg < 0) or (':0x%x' in kind and off < 0)) or ('seg' in kind and seg < 0) or ('off' in kind and off < 0):
                        continue
                    core.arm()
                    t = kind % tuple(v for v, m in ((seg, 'seg' in kind), (off, 'off' in kind)) if not m)
                    ok = all(-32768 <= v <= 65535 for v in (seg, off))
                    defs = [['.org %d' % v, n + ':'] for v, n in sorted(((seg, 'seg'), (off, 'off')))]
                    for first in (0, 1):
                        a = cls()
                        a.register_define('T', t)
                        lab = [x for d in defs for x in d if d[1][:-1] in kind]
                        code = ['.org 7', '%s T' % mn, '.db 1']
                        if not lab and first:
                            continue
                        try:
                            a.assemble('\n'.join(lab + code if first else code + lab))
                            a.link()
                            got = bytes(a.assembled_bytes)
                        except impl.asm_error():
                            got = 'refused'
                        want = bytes([op]) + forms.le(off, 2) + forms.le(seg, 2) + b'\1' if ok else 'refused'
                        ctx.step()
                        ctx.trace()
                        ctx.state(want)
                        if got != want:
                            ctx.fail('i8086: %s T with T = %s, seg = %d, off = %d, labels %s' % (mn, t, seg, off, 'first' if first else 'last'), want, got)


def minus(ctx, fs):
    """[BX - d] is [BX + -d]"""
    fd = forms.Feeder('i8086')
    for f in fs:
        for d in (0, 1, 2, 127, 128, 129, 255, 256, 32767, 32768, 32769):
            rest = (7,) * (len(f.fields) - 1)
            s = f.text.replace('+ {0}]', '- {0}]').format(d, *rest)
            want = f.encode((-d,) + rest) if d <= 32768 else 'refused'
            got = fd.feed(s)
            ctx.step()
            ctx.trace()
            ctx.state(want)
            if got != want:
                ctx.fail('i8086: ' + s, want, got)


if __name__ == '__main__':
    core.main('C23', shards, rule='every offered form (all register pairs, all base/index combinations with and without displacement, both directions and widths) with boundary numbers (every value for 8-bit fields); every mnemonic with every tuple of up to two operands from a 50 operand alphabet (three for some, for all when thorough); every operand and branch target as a label too (as in C30 and C31); the numbers of one form per mnemonic and kind of field in every notation of the processor and wide fields with every pair of low bytes that has a special one; far pointers (through defines, as the source text has no colon in operands) with all pairs of boundary values as numbers and as labels',
              assumptions=['a number in a jump is the displacement', 'where two encodings mean the same (reg,reg direction; short displacement; INT 3) either is accepted', 'documented instructions the assembler does not offer may be refused', 'a lone memory operand is a byte except for MUL, DIV and POP', 'reference: Intel 8086 user manual'])
