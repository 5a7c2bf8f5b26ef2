"""C21: LR35902 encodings - every form with every operand value, and every mnemonic with every operand shape."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, cpucheck, forms
from mc.ref import lr35902 as ref


def shards(tier):
    fs = ref.forms()
    out = cpucheck.shards('lr35902', fs, forms.Table(fs, ref.optional()), [
        ('%d operands' % n, lambda n=n: forms.operands_product(ref.MNEMONICS, ref.ALPHABET, n)) for n in (0, 1, 2)])
    if tier == 'thorough':
        few = ref.ALPHABET[::3] + ref.ALPHABET[-11:]
        out += cpucheck.shards('lr35902', [], forms.Table(fs, ref.optional()), [('3 operands', lambda: forms.operands_product(ref.MNEMONICS, few, 3))])
    sq = [f for f in ref.forms(('[', ']')) if '[' in f.text]
    alt = [(t.replace('(', '[').replace(')', ']'), v) for t, v in ref.ALPHABET if '(' in t] + [a for a in ref.ALPHABET if '(' not in a[0]][::2]
    out += cpucheck.shards('lr35902', sq, forms.Table(ref.forms(('[', ']')), ref.optional(('[', ']'))), [('square brackets', lambda: forms.operands_product(ref.MNEMONICS, alt, 2))], parts=4)
    return out + cpucheck.labels(tier, 'lr35902')


if __name__ == '__main__':
    core.main('C21', shards, rule='all 500 documented opcodes with every 8-bit and boundary 16-bit operand values; every mnemonic with every tuple of up to two operands (three when thorough) from a 44 operand alphabet, in both bracket styles; every operand and branch target as a label too (as in C30 and C31); the numbers of one form per mnemonic and kind of field in every notation of the processor and wide fields with every pair of low bytes that has a special one',
              assumptions=['a number in JR is the displacement', 'reference table: Game Boy programming manual', 'spellings other assemblers offer (CP A,r; JP HL; RST n) may be refused or encoded'])
