"""C26: Thumb encodings - every form with every operand value, and every mnemonic with every operand shape."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, cpucheck, forms
from mc.ref import thumb as ref


def shards(tier):
    deep = tier == 'thorough'
    fs = ref.forms(deep)
    t = forms.Table(fs, ref.optional())
    out = cpucheck.shards('thumb', fs, t, [('%d operands' % n, lambda n=n: forms.operands_product(ref.MNEMONICS, ref.ALPHABET, n)) for n in (0, 1, 2)], k=32, parts=8)
    out += cpucheck.shards('thumb', [], t, [('3 operands', lambda: forms.operands_product(ref.MNEMONICS, ref.ALPHABET if deep else ref.SMALL, 3))], parts=16)
    out.append(('lists', forms.closed, ('thumb', [('PUSH ' + x, None) for x in (
        '{}', '{', '}', 'r0', 'lr', '{r8}', '{r0,r8}', '{r0-r8}', '{r3-r1}', '{r0-}', '{-r1}', '{r0-r1-r2}', '{r0,pc}', '{sp}', '{r0,#4}', '{r0} r1', 'r1 {r0}', '{lr,r0}', '{{r0}}', '{r0,4}', '[r0]', '(r0)', '{lr,lr}', '{r0,lr,lr}', '{r0;lr}')])))
    return out + cpucheck.labels(tier, 'thumb')


if __name__ == '__main__':
    core.main('C26', shards, rule='every form (register tuples covering every bit and all high register names; all of them when thorough; every register list range and pair) with every value of its 1-8 bit fields and boundary values of the wider ones; every mnemonic with every tuple of up to two operands from a 55 operand alphabet and three from a smaller one; every operand and branch target as a label too (as in C30 and C31); the numbers of one form per mnemonic and kind of field in every notation of the processor and wide fields with every pair of low bytes that has a special one',
              assumptions=['a number in a branch is the displacement', 'documented Thumb forms the assembler does not offer may be refused or encoded', 'LSR/ASR #0 may be refused or encoded as a plain move', 'reference: ARM architecture reference manual, cross-checked with llvm-mc'])
