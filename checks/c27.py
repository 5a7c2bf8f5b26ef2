"""C27: PowerPC encodings - every form with every operand value, and every mnemonic with every operand shape."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, cpucheck, forms
from mc.ref import ppc as ref


def registers(ctx):
    """all 64 register names, in either case, and names that are none"""
    cases = []
    for n in range(32):
        for r in ('r%d' % n, 'R%d' % n):
            cases += [('add %s,r1,r2' % r, ref.w4(ref.x31(266, n, 1, 2))), ('add r1,%s,r2' % r, ref.w4(ref.x31(266, 1, n, 2))), ('add r1,r2,%s' % r, ref.w4(ref.x31(266, 1, 2, n)))]
        for f in ('f%d' % n, 'F%d' % n):
            cases.append(('fmr f1,%s' % f, ref.w4(63 << 26 | 1 << 21 | n << 11 | 72 << 1)))
            cases.append(('add r1,r2,' + f, None))
            cases.append(('addi r1,r2,' + f, None))
        cases.append(('fmr f1,r%d' % n, None))
        cases.append(('addi r1,r2,r%d' % n, None))
    cases += [('add r1,r2,' + x, None) for x in ('r32', 'r-1', 'r00', 'r1r', 'r', 'x1', 'g1', '1', '0', 'cr1')]
    cases += [(x.format('r3'), None) for x in ref.ZERO_NO if x not in ref.ZERO_OK]
    forms.closed(ctx, 'ppc', cases)


def shards(tier):
    deep = tier == 'thorough'
    fs = ref.forms(deep)
    t = forms.Table(fs, ref.optional())
    out = cpucheck.shards('ppc', fs, t, [('%d operands' % n, lambda n=n: forms.operands_product(ref.MNEMONICS, ref.ALPHABET, n)) for n in (0, 1, 2)], k=16, parts=8)
    out += cpucheck.shards('ppc', [], t, [('3 operands', lambda: forms.operands_product(ref.MNEMONICS, ref.ALPHABET if deep else ref.MID[:6], 3)),
                                          ('4 operands', lambda: forms.operands_product(ref.MNEMONICS, ref.MID if deep else ref.SMALL, 4)),
                                          ('5 operands', lambda: forms.operands_product(ref.MNEMONICS, ref.SMALL if deep else ref.SMALL[::2], 5))], parts=16)
    out.append(('registers', registers, ()))
    return out + cpucheck.labels(tier, 'ppc')


if __name__ == '__main__':
    core.main('C27', shards, rule='every mnemonic of the sheet whose operands the assembler supports, with register tuples covering every bit of every position (all register values when thorough) and every value of its 1-8 bit fields, boundary values of the wider ones; every mnemonic with every tuple of up to two operands from a 19 operand alphabet, three from 6, four from 3 and five from 2; every operand and branch target as a label too (as in C30 and C31); the numbers of one form per mnemonic and kind of field in every notation of the processor and wide fields with every pair of low bytes that has a special one',
              assumptions=['a number in a branch is the displacement (or the address) in bytes', 'register fields written 0 stand for the number zero where the architecture says so; r0 there is accepted as well or refused', 'operand kinds the sheet names but the assembler does not implement (displacement loads, condition field names, special register names, masks, vector registers) are not required',
                           'reference: PowerPC architecture books, cross-checked with llvm-mc (601 and POWER instructions by hand)'])
