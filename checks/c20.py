"""C20: 6502 encodings - every opcode, mode and operand value against the official table."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, cpucheck, forms
from mc.ref import mos6502 as ref


def exhaustive(ctx, fs):
    """all 16-bit addresses of a memory form"""
    fd = forms.Feeder('mos6502')
    for f in fs:
        for v in range(0, 65536) if ctx.thorough else list(range(0, 600)) + list(range(600, 65536, 251)):
            want = f.encode((v,)) if f.accepts((v,)) else 'refused'
            got = fd.feed(f.text.replace('{0}', '$%x' % v))
            ctx.step()
            ctx.trace()
            ctx.state(want)
            if got != want:
                ctx.fail('mos6502: ' + f.text.replace('{0}', '$%x' % v), want, got)


def shards(tier):
    fs = ref.forms()
    out = forms.shard_forms('mos6502', fs, 16)
    cs = ref.cases()
    for i in range(0, len(cs), 500):
        out.append(('closed %d' % i, forms.closed, ('mos6502', cs[i:i + 500])))
    mem = [f for f in fs if f.tag.startswith(('mem', 'ind'))]
    for i in range(0, len(mem), 8):
        out.append(('addresses %d' % i, exhaustive, (mem[i:i + 8],)))
    return out + cpucheck.labels(tier, 'mos6502')


if __name__ == '__main__':
    core.main('C20', shards, rule='151 official opcodes x operand values (all 8-bit values, 16-bit boundaries and a dense sweep; all 65536 when thorough); 56 mnemonics x 43 operand shapes for acceptance; every operand and branch target as a label too (as in C30 and C31); the numbers of one form per mnemonic and kind of field in every notation of the processor and wide fields with every pair of low bytes that has a special one',
              assumptions=['a number in a branch is the displacement', 'reference table: MCS6500 programming manual'])
