"""Thumb (ARMv4T) reference (ARM architecture reference manual, Thumb instruction set)."""
import itertools
from mc.forms import F, Form, le

LOW = tuple('r%d' % i for i in range(8))
HIGH = {'r8': 8, 'r9': 9, 'r10': 10, 'r11': 11, 'r12': 12, 'r13': 13, 'r14': 14, 'r15': 15, 'fp': 11, 'ip': 12, 'sp': 13, 'lr': 14, 'pc': 15}
PC = ('pc', 'r15')
SP = ('sp', 'r13')
ALU = {'AND': 0, 'EOR': 1, 'LSL': 2, 'LSR': 3, 'ASR': 4, 'ADC': 5, 'SBC': 6, 'ROR': 7, 'TST': 8, 'NEG': 9, 'CMP': 10, 'CMN': 11, 'ORR': 12, 'MUL': 13, 'BIC': 14, 'MVN': 15}
HI = {'ADD': 0x4400, 'CMP': 0x4500, 'MOV': 0x4600}
COND = {'BEQ': 0, 'BNE': 1, 'BCS': 2, 'BCC': 3, 'BMI': 4, 'BPL': 5, 'BVS': 6, 'BVC': 7, 'BHI': 8, 'BLS': 9, 'BGE': 10, 'BLT': 11, 'BGT': 12, 'BLE': 13}
REGOFF = {'STR': 0x5000, 'STRH': 0x5200, 'STRB': 0x5400, 'LDSB': 0x5600, 'LDR': 0x5800, 'LDRH': 0x5A00, 'LDRB': 0x5C00, 'LDSH': 0x5E00}
IMMOFF = {'STR': (0x6000, 4), 'LDR': (0x6800, 4), 'STRB': (0x7000, 1), 'LDRB': (0x7800, 1), 'STRH': (0x8000, 2), 'LDRH': (0x8800, 2)}
P = (0, 3, 5, 7)
PAIRS = sorted({(a, b) for a in range(8) for b in (0, 2, 5, 7)} | set(itertools.product(P, P)))
TRIPLES = sorted({(a, b, c) for a in (0, 1, 3, 4, 7) for b in (0, 2, 5, 7) for c in (0, 3, 4, 6, 7)} | set(itertools.product(P, P, P)))


def h(v):
    return le(v, 2)


def imm(bits, mult=1, lo=0, hi=None, **kw):
    """an unsigned immediate field of that many bits counting units of mult"""
    return F(bits, mult=mult, lo=lo, hi=((1 << bits) - 1) * mult if hi is None else hi, values=[x * mult for x in range(1 << min(bits, 8))] + [(1 << bits) * mult, ((1 << bits) - 1) * mult + 1], **kw)


def imm8():
    return F(8)


def pairs(all_pairs):
    return [(a, b) for a in range(8) for b in range(8)] if all_pairs else PAIRS


def triples(all_pairs):
    return list(itertools.product(range(8), repeat=3)) if all_pairs else TRIPLES


def shift(m, op, d, s):
    if m == 'LSL':
        return imm(5), lambda v: h(s << 3 | d | v << 6)
    return imm(5, lo=1, hi=32, skip=(0,)), lambda v: h(op << 11 | (v & 31) << 6 | s << 3 | d)


def rlists():
    """register list texts with their bit masks"""
    out = [('{%s}' % LOW[i], 1 << i) for i in range(8)]
    for i in range(8):
        for j in range(i, 8):
            out.append(('{%s-%s}' % (LOW[i], LOW[j]), sum(1 << k for k in range(i, j + 1))))
            if i != j:
                out.append(('{%s,%s}' % (LOW[i], LOW[j]), 1 << i | 1 << j))
    out += [('{r0,r2-r4,r7}', 0x9D), ('{R0,R2-R4}', 0x1D), ('{r7,r0}', 0x81), ('{r1-r2,r5-r6}', 0x66), ('{r0,r1,r2,r3,r4,r5,r6,r7}', 0xFF), ('{R5}', 0x20), ('{r0,R1}', 3)]
    return out


def forms(all_pairs=False):
    o = []

    def add(text, enc, *fields, **kw):
        o.append(Form(text, fields, enc, **kw))

    def plain(text, v):
        o.append(Form(text, (), lambda: h(v)))

    for d, s in pairs(all_pairs):
        for m, op in ALU.items():
            plain('%s %s,%s' % (m, LOW[d], LOW[s]), 0x4000 | op << 6 | s << 3 | d)
        for op, m in enumerate(('LSL', 'LSR', 'ASR')):
            f, enc = shift(m, op, d, s)
            add('%s %s,%s,#{0}' % (m, LOW[d], LOW[s]), enc, f)
        for m, op in (('ADD', 0x1C00), ('SUB', 0x1E00)):
            add('%s %s,%s,#{0}' % (m, LOW[d], LOW[s]), lambda v, w=op | s << 3 | d: h(w | v << 6), imm(3))
        for m in ('LDR', 'STR', 'LDRB', 'LDRH'):
            op, mult = IMMOFF[m]
            known = None
            if m == 'LDRB':
                known = ('thumb LDRB rd,[rb,#imm]', lambda v, w=op | s << 3 | d: h(w | v >> 2 << 6) if 0 <= v < 128 else None)
            f = imm(5, mult)
            if m == 'LDRB':
                f.extra = list(f.extra) + [32, 124, 127, 128]
            add('%s %s,[%s,#{0}]' % (m, LOW[d], LOW[s]), lambda v, w=op | s << 3 | d, k=mult: h(w | v // k << 6), f, known=known)
    for d, s, n in triples(all_pairs):
        plain('ADD %s,%s,%s' % (LOW[d], LOW[s], LOW[n]), 0x1800 | n << 6 | s << 3 | d)
        plain('SUB %s,%s,%s' % (LOW[d], LOW[s], LOW[n]), 0x1A00 | n << 6 | s << 3 | d)
        for m, op in REGOFF.items():
            if m != 'STRB':
                plain('%s %s,[%s,%s]' % (m, LOW[d], LOW[s], LOW[n]), op | n << 6 | s << 3 | d)
    for d in range(8):
        for m, op in (('MOV', 0x2000), ('CMP', 0x2800), ('ADD', 0x3000), ('SUB', 0x3800)):
            add('%s %s,#{0}' % (m, LOW[d]), lambda v, w=op | d << 8: h(w | v & 255), imm8())
        for r in PC:
            add('LDR %s,[%s,#{0}]' % (LOW[d], r), lambda v, w=0x4800 | d << 8: h(w | v >> 2), imm(8, 4, label='pcrel', base=4))
            add('ADD %s,%s,#{0}' % (LOW[d], r), lambda v, w=0xA000 | d << 8: h(w | v >> 2), imm(8, 4))
        for r in SP:
            add('LDR %s,[%s,#{0}]' % (LOW[d], r), lambda v, w=0x9800 | d << 8: h(w | v >> 2), imm(8, 4))
            add('ADD %s,%s,#{0}' % (LOW[d], r), lambda v, w=0xA800 | d << 8: h(w | v >> 2), imm(8, 4))
        plain('BX ' + LOW[d], 0x4700 | d << 3)
        for n, v in HIGH.items():
            for m, op in HI.items():
                plain('%s %s,%s' % (m, LOW[d], n), op | 0x40 | (v - 8) << 3 | d)
                plain('%s %s,%s' % (m, n, LOW[d]), op | 0x80 | d << 3 | v - 8)
    for n, v in HIGH.items():
        plain('BX ' + n, 0x4740 | (v - 8) << 3)
        for k, x in HIGH.items():
            for m, op in HI.items():
                plain('%s %s,%s' % (m, n, k), op | 0xC0 | (x - 8) << 3 | v - 8)
    for r in SP:
        add('ADD %s,#{0}' % r, lambda v: h(0xB000 | (0x80 | -v >> 2 if v < 0 else v >> 2)), F(7, mult=4, lo=-508, hi=508, values=(-512, -508, 508, 512, -4, 4, 6, -6, 256, 252)))
    for m, c in COND.items():
        add('%s {0}' % m, lambda v, w=0xD000 | c << 8: h(w | v >> 1 & 255), F(9, True, 2, label='rel', base=4))
    add('B {0}', lambda v: h(0xE000 | v >> 1 & 0x7FF), F(12, True, 2, label='rel', base=4))
    add('BL {0}', lambda v: h(0xF000 | v >> 12 & 0x7FF) + h(0xF800 | v >> 1 & 0x7FF), F(23, True, 2, label='rel', base=4))
    add('SWI {0}', lambda v: h(0xDF00 | v), F(8, lo=0), tag='swi')
    for text, mask in rlists():
        # braces doubled: the text goes through format()
        plain('PUSH ' + text.replace('{', '{{').replace('}', '}}'), 0xB400 | mask)
        add('PUSH ' + text.replace('{', '{{').replace('}', ',lr}}'), lambda v=0xB500 | mask: h(v), known=('thumb PUSH with lr', lambda v=0xBC00 | mask: h(v)))
    add('PUSH {{lr}}', lambda: h(0xB500), known=('thumb PUSH with lr', lambda: h(0xBC00)))
    return o


def optional():
    """documented instructions and spellings the assembler may offer as well"""
    o = []

    def add(text, enc, *fields, **kw):
        o.append(Form(text, fields, enc, **kw))

    for d, s in itertools.product(P, P):
        for op in (0x1C00 | s << 3 | d, 0x4600 | s << 3 | d):
            add('MOV %s,%s' % (LOW[d], LOW[s]), lambda w=op: h(w))
        for op in (0x1800 | s << 6 | d << 3 | d, 0x4400 | s << 3 | d):
            add('ADD %s,%s' % (LOW[d], LOW[s]), lambda w=op: h(w))
        add('SUB %s,%s' % (LOW[d], LOW[s]), lambda w=0x1A00 | s << 6 | d << 3 | d: h(w))
        for m in ('LSR', 'ASR'):
            add('%s %s,%s,#{0}' % (m, LOW[d], LOW[s]), lambda v, w=s << 3 | d: h(w), F(1, lo=0, hi=0))
        for m, (op, mult) in IMMOFF.items():
            add('%s %s,[%s,#{0}]' % (m, LOW[d], LOW[s]), lambda v, w=op | s << 3 | d, k=mult: h(w | v // k << 6), imm(5, mult))
            add('%s %s,[%s]' % (m, LOW[d], LOW[s]), lambda w=op | s << 3 | d: h(w))
        for n in P:
            add('STRB %s,[%s,%s]' % (LOW[d], LOW[s], LOW[n]), lambda w=0x5400 | n << 6 | s << 3 | d: h(w))
    for d in P:
        for r in SP:
            add('STR %s,[%s,#{0}]' % (LOW[d], r), lambda v, w=0x9000 | d << 8: h(w | v >> 2), imm(8, 4))
            add('LDR %s,[%s]' % (LOW[d], r), lambda w=0x9800 | d << 8: h(w))
            add('STR %s,[%s]' % (LOW[d], r), lambda w=0x9000 | d << 8: h(w))
        for r in PC:
            add('LDR %s,[%s]' % (LOW[d], r), lambda w=0x4800 | d << 8: h(w))
    for r in SP:
        add('SUB %s,#{0}' % r, lambda v: h(0xB080 | v >> 2), imm(7, 4))
        for q in SP:
            add('ADD %s,%s,#{0}' % (r, q), lambda v: h(0xB000 | v >> 2), imm(7, 4))
            add('SUB %s,%s,#{0}' % (r, q), lambda v: h(0xB080 | v >> 2), imm(7, 4))
    add('B r1,{0}', lambda v: b'', F(1, lo=1, hi=0))
    return o


MNEMONICS = sorted(set(ALU) | set(HI) | set(COND) | set(REGOFF) | {'SUB', 'BX', 'B', 'BL', 'SWI', 'PUSH'})
ALPHABET = [(r, ()) for r in ('r0', 'r5', 'r7', 'r8', 'sp', 'pc', 'lr', 'fp')] + [('#{}', (v,)) for v in (0, 4, 8, 31, 32, 252, 1020, -1)] + [('{}', (v,)) for v in (4, 300)] + \
    [('[%s,%s]' % (a, b), v) for a in ('r0', 'r7', 'sp', 'pc', 'r9') for b, v in (('r3', ()), ('r8', ()), ('#{}', (4,)), ('#{}', (8,)), ('#{}', (6,)))] + [('[r0]', ()), ('[sp]', ()), ('{{r0}}', ()), ('{{r0', ()), ('r5}}', ()), ('{{r0,r5}}', ()), ('[', ()), (']', ()), ('[r0', ()), ('#', ()), ('r16', ()), ('[4]', ())]
SMALL = [a for a in ALPHABET if a[0] in ('r0', 'r7', 'r8', 'sp', 'pc', '{{r0}}', '[r0]', '[4]', '#', '[r0', ']', '[r7,r3]', '[r9,r3]')] + [('#{}', (v,)) for v in (0, 4, 32)] + [('{}', (4,)), ('[sp,#{}]', (4,)), ('[r0,#{}]', (8,)), ('[pc,#{}]', (6,))]
