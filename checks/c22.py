"""C22: Z80 encodings - every documented form with every operand value, and every mnemonic with every operand shape."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, cpucheck, forms
from mc.ref import z80 as ref


def minus(ctx, fs):
    """(IX-d) is (IX+-d)"""
    fd = forms.Feeder('z80')
    for f in fs:
        for d in range(0, 131):
            for rest in ((), (7,), (200,)):
                if len(rest) != len(f.fields) - 1:
                    continue
                s = f.text.replace('+{0}', '-{0}').format(d, *rest)
                want = f.encode((-d,) + rest) if d <= 128 else 'refused'
                got = fd.feed(s)
                ctx.step()
                ctx.trace()
                ctx.state(want)
                if got != want:
                    ctx.fail('z80: ' + s, want, got)


def shards(tier):
    fs = ref.forms()
    t = forms.Table(fs, ref.optional())
    out = cpucheck.shards('z80', fs, t, [('%d operands' % n, lambda n=n: forms.operands_product(ref.MNEMONICS, ref.ALPHABET, n)) for n in (0, 1, 2)])
    out.append(('minus', minus, ([f for f in fs if '+{0}' in f.text],)))
    three = ref.ALPHABET if tier == 'thorough' else ref.ALPHABET[::4] + ref.ALPHABET[-7:]
    out += cpucheck.shards('z80', [], t, [('3 operands', lambda: forms.operands_product(['LD', 'ADD', 'RES', 'RLC', 'IN', 'JP', 'EX'] if tier != 'thorough' else ref.MNEMONICS, three, 3))])
    return out + cpucheck.labels(tier, 'z80')


if __name__ == '__main__':
    core.main('C22', shards, rule='the documented main, CB, ED, DD, FD, DDCB and FDCB instructions with every 8-bit and boundary 16-bit operand value; every mnemonic with every tuple of up to two operands (three for some, for all when thorough) from a 52 operand alphabet; every operand and branch target as a label too (as in C30 and C31); the numbers of one form per mnemonic and kind of field in every notation of the processor and wide fields with every pair of low bytes that has a special one',
              assumptions=['a number in JR/DJNZ is the displacement', 'reference table: Zilog UM0080', 'undocumented instructions may be refused or encoded as known'])
