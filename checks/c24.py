"""C24: MIPS32 encodings - every form with every operand value, and every mnemonic with every operand shape."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, cpucheck, forms, impl
from mc.ref import mips32 as ref


def little(ctx, fs):
    """the other byte order holds the same words"""
    cls = impl.load('mips32')
    Little = type('AssemblerMIPS32Little', (cls,), {'big_endian': False})
    a, b = cls(), Little()
    for f in fs:
        for vals in f.combos():
            if not f.accepts(vals):
                continue
            s = f.text.format(*vals)
            i, j = len(a.assembled_bytes), len(b.assembled_bytes)
            ctx.step(2)
            ctx.trace()
            core.arm()
            try:
                a.assemble(s)
                b.assemble(s)
            except impl.asm_error():
                continue
            ctx.expect('mips32 little endian: ' + s, bytes(a.assembled_bytes[i:])[::-1], bytes(b.assembled_bytes[j:]))


def shards(tier):
    fs = ref.forms(tier == 'thorough')
    t = forms.Table(fs, ref.optional())
    names = lambda i: ref.NUM[i]
    few = [f for i, f in enumerate(ref.forms(False, names)) if tier == 'thorough' or i % 7 == 0]
    out = cpucheck.shards('mips32', fs, t, [('%d operands' % n, lambda n=n: forms.operands_product(ref.MNEMONICS, ref.ALPHABET, n)) for n in (0, 1, 2, 3)], k=32, parts=8)
    out += cpucheck.shards('mips32', few, k=4)
    out += cpucheck.shards('mips32', [], t, [('4 operands', lambda: forms.operands_product(ref.MNEMONICS, ref.ALPHABET[:7] if tier == 'thorough' else ref.ALPHABET[1:7:2], 4))])
    out.append(('registers', registers, ()))
    # one form of each mnemonic in the other byte order
    one = list({f.text.split()[0]: f for f in fs}.values())
    out.append(('little endian', little, (one,)))
    return out + cpucheck.labels(tier, 'mips32')


def registers(ctx):
    """all 64 register names in every register position"""
    cases = []
    for n, r in sorted(ref.REG.items()):
        for txt in (n, n.upper()):
            cases += [('add %s,$1,$2' % txt, ref.w4(ref.word(0, 1, 2, r, 0, 0x20))), ('add $1,%s,$2' % txt, ref.w4(ref.word(0, r, 2, 1, 0, 0x20))), ('add $1,$2,%s' % txt, ref.w4(ref.word(0, 2, r, 1, 0, 0x20))),
                      ('jr ' + txt, ref.w4(ref.word(0, r, 0, 0, 0, 8))), ('lw $1,4(%s)' % txt, ref.w4(ref.word(0x23, r, 1) | 4)), ('mfhi ' + txt, ref.w4(ref.word(0, 0, 0, r, 0, 0x10)))]
    cases += [('add %s,$1,$2' % x, None) for x in ('$32', '$-1', '$00', '$t10', '$s9', '$a4', '$', '$v2', '$k2', 't0', '$ra1', '$1 0')]
    forms.closed(ctx, 'mips32', cases)


if __name__ == '__main__':
    core.main('C24', shards, rule='every mnemonic with register tuples covering every bit and all register names, every field with boundary numbers (every value for fields up to 8 bits); every mnemonic with every tuple of up to 3 operands from a 23 operand alphabet (4 from a smaller one); every mnemonic in the other byte order; every operand and branch target as a label too (as in C30 and C31); the numbers of one form per mnemonic and kind of field in every notation of the processor and wide fields with every pair of low bytes that has a special one',
              assumptions=['a number in a branch is the displacement in bytes', 'lui/lhi/llo take the 32-bit value and encode the named half (pinned by the repository tests for lhi and llo)', 'lhi, llo and trap as in the instruction sheet the assembler follows', 'jump targets are encoded within their 256 MB region without checking the region', 'reference: MIPS32 architecture manual volume II, cross-checked with llvm-mc'])
