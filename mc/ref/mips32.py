"""MIPS32 reference (MIPS32 architecture volume II encodings; lhi/llo/trap as in the instruction sheet the assembler follows)."""
from mc.forms import F, Form, be

ALIAS = ('$zero', '$at', '$v0', '$v1', '$a0', '$a1', '$a2', '$a3', '$t0', '$t1', '$t2', '$t3', '$t4', '$t5', '$t6', '$t7', '$s0', '$s1', '$s2', '$s3', '$s4', '$s5', '$s6', '$s7', '$t8', '$t9', '$k0', '$k1', '$gp', '$sp', '$fp', '$ra')
NUM = tuple('$%d' % i for i in range(32))
REG = {}
for _i in range(32):
    REG[NUM[_i]] = REG[ALIAS[_i]] = _i
R3 = {'add': 0x20, 'addu': 0x21, 'sub': 0x22, 'subu': 0x23, 'and': 0x24, 'or': 0x25, 'xor': 0x26, 'nor': 0x27, 'slt': 0x2A, 'sltu': 0x2B}
R2 = {'mult': 0x18, 'multu': 0x19, 'div': 0x1A, 'divu': 0x1B}
SH = {'sll': 0, 'srl': 2, 'sra': 3}
SHV = {'sllv': 4, 'srlv': 6, 'srav': 7}
IMM = {'addi': (0x08, 's'), 'addiu': (0x09, 'u'), 'slti': (0x0A, 's'), 'sltiu': (0x0B, 'u'), 'andi': (0x0C, 'z'), 'ori': (0x0D, 'z'), 'xori': (0x0E, 'z')}
HALF = {'lui': (0x0F, 16), 'lhi': (0x19, 16), 'llo': (0x18, 0)}
BR2 = {'beq': 4, 'bne': 5}
BRZ = {'blez': 6, 'bgtz': 7}
JUMP = {'j': 2, 'jal': 3, 'trap': 0x1A}
MEM = {'lb': 0x20, 'lh': 0x21, 'lw': 0x23, 'lbu': 0x24, 'lhu': 0x25, 'sb': 0x28, 'sh': 0x29, 'sw': 0x2B}
SOME = (0, 5, 10, 31)
PAIRS = sorted({(a, b) for a in (0, 1, 8, 15, 16, 31) for b in (0, 5, 10, 21, 31)} | {(a, b) for a in SOME for b in SOME})
TRIPLES = sorted({(a, b, c) for a in (0, 1, 2, 4, 8, 16, 31) for b in (0, 1, 2, 4, 8, 16, 31) for c in (0, 1, 2, 4, 8, 16, 31)} | {(a, b, c) for a in SOME for b in SOME for c in SOME})


def word(op=0, rs=0, rt=0, rd=0, sh=0, fn=0):
    return op << 26 | rs << 21 | rt << 16 | rd << 11 | sh << 6 | fn


def w4(v):
    return be(v, 4)


def forms(all_pairs=False, names=None):
    """names: how register n is written"""
    o = []
    n = names or (lambda i: ALIAS[i])
    pairs = [(a, b) for a in range(32) for b in range(32)] if all_pairs else PAIRS

    def add(text, enc, *fields, **kw):
        o.append(Form(text, fields, enc, **kw))

    for m, fn in R3.items():
        for d, s, t in TRIPLES:
            add('%s %s,%s,%s' % (m, n(d), n(s), n(t)), lambda w=word(0, s, t, d, 0, fn): w4(w))
    for m, fn in SHV.items():
        for d, t, s in TRIPLES:
            add('%s %s,%s,%s' % (m, n(d), n(t), n(s)), lambda w=word(0, s, t, d, 0, fn): w4(w))
    for a, b in pairs:
        for m, fn in R2.items():
            add('%s %s,%s' % (m, n(a), n(b)), lambda w=word(0, a, b, 0, 0, fn): w4(w))
        for m, fn in SH.items():
            add('%s %s,%s,{0}' % (m, n(a), n(b)), lambda v, w=word(0, 0, b, a, 0, fn): w4(w | (v & 31) << 6), F(5, label='abs'))
        for m, (op, kind) in IMM.items():
            add('%s %s,%s,{0}' % (m, n(a), n(b)), lambda v, w=word(op, b, a): w4(w | v & 0xFFFF), F(16, kind == 's', label='abs', lhi=32767 if kind == 's' else 65535))
        for m, op in BR2.items():
            add('%s %s,%s,{0}' % (m, n(a), n(b)), lambda v, w=word(op, a, b): w4(w | (v >> 2) & 0xFFFF), F(18, True, 4, label='rel', base=4))
        for m, op in MEM.items():
            add('%s %s,{0}(%s)' % (m, n(a), n(b)), lambda v, w=word(op, b, a): w4(w | v & 0xFFFF), F(16, True))
    for a in range(32):
        for m, (op, sh) in HALF.items():
            add('%s %s,{0}' % (m, n(a)), lambda v, w=word(op, 0, a), sh=sh: w4(w | (v >> sh) & 0xFFFF), F(32, label='abs'))
        for m, op in BRZ.items():
            add('%s %s,{0}' % (m, n(a)), lambda v, w=word(op, a): w4(w | (v >> 2) & 0xFFFF), F(18, True, 4, label='rel', base=4))
        add('jr ' + n(a), lambda w=word(0, a, 0, 0, 0, 8): w4(w))
        add('jalr ' + n(a), lambda w=word(0, a, 0, 31, 0, 9): w4(w))
        for m, fn in (('mfhi', 0x10), ('mflo', 0x12)):
            add('%s %s' % (m, n(a)), lambda w=word(0, 0, 0, a, 0, fn): w4(w))
        for m, fn in (('mthi', 0x11), ('mtlo', 0x13)):
            add('%s %s' % (m, n(a)), lambda w=word(0, a, 0, 0, 0, fn): w4(w))
    for m, op in JUMP.items():
        # the target is taken within the 256 MB region; its two low bits are not encoded
        add('%s {0}' % m, lambda v, w=word(op): w4(w | (v & 0x0FFFFFFF) >> 2), F(32, label="abs"))
    add('syscall', lambda: w4(0x0C))
    add('break', lambda: w4(0x0D))
    return o


def optional():
    """documented spellings the assembler may offer as well"""
    o = []

    def add(text, enc, *fields):
        o.append(Form(text, fields, enc))

    for d in SOME:
        for s in SOME:
            add('jalr %s,%s' % (ALIAS[d], ALIAS[s]), lambda w=word(0, s, 0, d, 0, 9): w4(w))
    add('break {0}', lambda v: w4(0x0D | v << 16), F(10))
    add('syscall {0}', lambda v: w4(0x0C | v << 6), F(20))
    for t in ALPHABET_REGS:
        for s in ALPHABET_REGS:
            for m, op in MEM.items():
                add('%s %s,(%s)' % (m, t, s), lambda w=word(op, REG[s], REG[t]): w4(w))
    return o


MNEMONICS = sorted(set(list(R3) + list(R2) + list(SH) + list(SHV) + list(IMM) + list(HALF) + list(BR2) + list(BRZ) + list(JUMP) + list(MEM) + ['jr', 'jalr', 'mfhi', 'mflo', 'mthi', 'mtlo', 'syscall', 'break']))
ALPHABET_REGS = ('$zero', '$a1', '$t2', '$ra')
ALPHABET_NUM = (4, -4, 70000)
ALPHABET = [(r, ()) for r in ALPHABET_REGS] + [('{}', (v,)) for v in ALPHABET_NUM] + [('{}(%s)' % r, (v,)) for r in ('$a1', '$ra') for v in (4, -4)] + [('(%s)' % r, ()) for r in ('$a1',)] + \
    [('$32', ()), ('$f0', ()), ('$xx', ()), ('$', ()), ('(', ()), (')', ()), ('{}($a1', (4,)), ('{})', (4,)), ('{}(4)', (4,))]
