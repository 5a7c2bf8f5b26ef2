"""C25: 68000 encodings - every form with every operand value, and every mnemonic with every operand shape."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, cpucheck, forms
from mc.ref import mc68000 as ref


def shards(tier):
    deep = tier == 'thorough'
    fs = ref.forms(deep)
    t = forms.Table(ref.forms(False), ref.optional())
    out = cpucheck.shards('m68k', fs, t, [('%d operands' % n, lambda n=n: forms.operands_product(ref.MNEMONICS, ref.ALPHABET, n)) for n in (0, 1, 2)], k=64, parts=24)
    few = ref.ALPHABET if deep else ref.ALPHABET[::4]
    out += cpucheck.shards('m68k', [], t, [('3 operands', lambda: forms.operands_product(ref.MNEMONICS if deep else ('move', 'ori', 'lea', 'jmp', 'dbra', 'bne', 'movea'), few, 3))])
    return out + cpucheck.labels(tier, 'm68k')


if __name__ == '__main__':
    core.main('C25', shards, rule='every mnemonic and size with every addressing mode for source and destination (all registers when thorough) and boundary numbers in every extension word (every value for 8-bit fields); every mnemonic with every tuple of up to two operands from a 70 operand alphabet of well and badly formed addressing modes (three from a smaller one); every operand and branch target as a label too (as in C30 and C31); the numbers of one form per mnemonic and kind of field in every notation of the processor and wide fields with every pair of low bytes that has a special one',
              assumptions=['a number in a branch or a pc-relative mode is the displacement', 'an absolute short address is its 16-bit field (sign extension is up to the programmer)', 'an unsuffixed absolute address is long', 'reference: M68000 programmer\'s reference manual, cross-checked with llvm-mc'])
