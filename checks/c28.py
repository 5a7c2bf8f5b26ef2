"""C28: x86 encodings - every form with every operand value in the three modes, and every mnemonic with every operand shape."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, cpucheck, forms
from mc.ref import x86 as ref

MODES = (('x86-16', 16), ('x86-32', 32), ('x86', 64))


TABLES = {}


def fields_shard(ctx, name, bits, deep, part, parts):
    fs = [f for f in ref.forms(bits, deep) if f.fields and f.tag != 'alt']
    forms.numeric(ctx, name, fs[part::parts])


def closed_shard(ctx, name, bits, deep, gen, part, parts):
    cpucheck.table_shard(ctx, name, TABLES[bits], gen, part, parts)


def mode_shard(ctx):
    """the mode of an object starts at 64 and changes with .bits"""
    from mc import impl
    cls = impl.load('x86')
    want = {16: b'\x66\x01\xc3', 32: b'\x01\xc3', 64: b'\x01\xc3'}
    short = {16: b'\xe9\xfd\xff', 32: b'\xe9\xfb\xff\xff\xff', 64: b'\xe9\xfb\xff\xff\xff'}
    import itertools
    for n in (0, 1, 2, 3, 4):
        for modes in itertools.product((16, 32, 64), repeat=n):
            lines, w, cur = ['ADD EBX,EAX'], want[64], 64
            for k, m in enumerate(modes):
                lines += ['.bits %d' % m, 'ADD EBX,EAX', 'here%d: JMP here%d' % (k, k)]
                w += want[m] + short[m]
            o = impl.run(cls, '\n'.join(lines))
            ctx.trace()
            ctx.step(len(lines))
            ctx.state(modes)
            ctx.expect('x86 modes %s' % (modes,), (o.kind, o.data), ('ok', w), '\n'.join(lines))
    for bad in list(range(0, 16)) + [17, 31, 33, 48, 63, 65, 128, 255, 256, -16, 'EAX', '', '16 32']:
        o = impl.run(cls, ['.bits %s' % bad])
        ctx.trace()
        ctx.step()
        ctx.expect('x86: .bits %s' % bad, o.kind, 'asm-error', bad)


def shards(tier):
    deep = tier == 'thorough'
    out = [('modes', mode_shard, ())]
    A = ref.ALPHABET
    small = A if deep else A[1:24:5] + A[24:27:2] + A[36:54:5] + [('{}', (1,)), ('{}', (300,))]
    tiny = A[::6] if deep else [('EAX', ()), ('CX', ()), ('[EBX]', ()), ('{}', (3,))]
    for name, bits in MODES:
        TABLES[bits] = forms.Table(ref.forms(bits, True), ref.optional(bits))
        for p in range(8):
            out.append(('forms %s %d' % (name, p), fields_shard, (name, bits, deep, p, 8)))
        gens = [('plain', lambda b=bits: ((f.text, ()) for f in ref.forms(b, deep) if not f.fields), 4),
                ('0 operands', lambda: forms.operands_product(ref.MNEMONICS, A, 0), 1), ('1 operand', lambda: forms.operands_product(ref.MNEMONICS, A, 1), 3),
                ('2 operands', lambda: forms.operands_product(ref.MNEMONICS, small, 2), 8), ('3 operands', lambda: forms.operands_product(ref.MNEMONICS, tiny, 3), 4)]
        for label, gen, parts in gens:
            for p in range(parts):
                out.append(('closed %s %s %d' % (name, label, p), closed_shard, (name, bits, deep, gen, p, parts)))
    for name, bits in MODES:
        out += cpucheck.labels(tier, name)
    return out


if __name__ == '__main__':
    core.main('C28', shards, rule='every offered form in 16, 32 and 64 bit mode (all register pairs, all base/index combinations with and without displacement, prefixes) with boundary numbers; every one of 687 mnemonics with every tuple of up to one operand from an alphabet of 68 and two and three from smaller ones (all when thorough); every sequence of up to four mode changes; every operand and branch target as a label too (as in C30 and C31); the numbers of one form per mnemonic and kind of field in every notation of the processor and wide fields with every pair of low bytes that has a special one',
              assumptions=['a number in a jump is the displacement', 'where two encodings mean the same (direction of register pairs, short immediates and displacements, one-byte INC, DEC and XCHG) either is accepted', 'documented instructions and operand kinds the assembler does not offer may be refused', 'PUSHF, POPF, IRET, PUSHA and POPA have the size of the mode', 'prefix names (LOCK, TAKEN, REX.W ...) as statements give their byte', 'reference: Intel 64 and IA-32 manual volume 2, cross-checked with llvm-mc'])
