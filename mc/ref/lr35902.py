"""LR35902 reference (Nintendo Game Boy programming manual / Pan Docs opcode matrix)."""
from mc.forms import F, Form, const, le

R = ('B', 'C', 'D', 'E', 'H', 'L', '(HL)', 'A')
R16 = ('BC', 'DE', 'HL', 'SP')
STK = ('BC', 'DE', 'HL', 'AF')
CC = ('NZ', 'Z', 'NC', 'C')
ALU = ('ADD', 'ADC', 'SUB', 'SBC', 'AND', 'XOR', 'OR', 'CP')
ROT = ('RLC', 'RRC', 'RL', 'RR', 'SLA', 'SRA', 'SWAP', 'SRL')
PLAIN = {'NOP': 0x00, 'RLCA': 0x07, 'RRCA': 0x0F, 'RLA': 0x17, 'RRA': 0x1F, 'DAA': 0x27, 'CPL': 0x2F, 'SCF': 0x37, 'CCF': 0x3F, 'HALT': 0x76, 'RET': 0xC9, 'RETI': 0xD9, 'DI': 0xF3, 'EI': 0xFB}


def d8(op):
    return lambda v: bytes([op]) + le(v, 1)


def d16(op):
    return lambda v: bytes([op]) + le(v, 2)


def imm8():
    return (F(8, label='abs'),)


def imm16():
    return (F(16, label='abs'),)


def s8():
    return (F(8, True, label='abs', llo=-128, lhi=127),)


def rel():
    return (F(8, True, label='rel', base=2),)


def forms(brackets=('(', ')')):
    o = []

    def add(text, fields=(), enc=None):
        o.append(Form(text.replace('(', brackets[0]).replace(')', brackets[1]), fields, enc))

    for m, b in PLAIN.items():
        add(m, (), const(b))
    add('STOP', (), const(0x10, 0))
    add('STOP 0', (), const(0x10, 0))
    for i, r in enumerate(R16):
        add('LD %s,{0}' % r, imm16(), d16(0x01 | i << 4))
        add('INC ' + r, (), const(0x03 | i << 4))
        add('DEC ' + r, (), const(0x0B | i << 4))
        add('ADD HL,' + r, (), const(0x09 | i << 4))
    for i, r in enumerate(('BC', 'DE', 'HL+', 'HL-')):
        add('LD (%s),A' % r, (), const(0x02 | i << 4))
        add('LD A,(%s)' % r, (), const(0x0A | i << 4))
    for i, r in enumerate(R):
        add('INC ' + r, (), const(0x04 | i << 3))
        add('DEC ' + r, (), const(0x05 | i << 3))
        add('LD %s,{0}' % r, imm8(), d8(0x06 | i << 3))
        for j, s in enumerate(R):
            if i != 6 or j != 6:
                add('LD %s,%s' % (r, s), (), const(0x40 | i << 3 | j))
        for j, m in enumerate(ALU):
            add('%s %s%s' % (m, 'A,' if m in ('ADD', 'ADC', 'SBC') else '', r), (), const(0x80 | j << 3 | i))
        for j, m in enumerate(ROT):
            add('%s %s' % (m, r), (), const(0xCB, j << 3 | i))
        for j, m in enumerate(('BIT', 'RES', 'SET')):
            for b in range(8):
                add('%s %d,%s' % (m, b, r), (), const(0xCB, (j + 1) << 6 | b << 3 | i))
    for j, m in enumerate(ALU):
        add('%s %s{0}' % (m, 'A,' if m in ('ADD', 'ADC', 'SBC') else ''), imm8(), d8(0xC6 | j << 3))
    add('LD ({0}),SP', imm16(), d16(0x08))
    add('LD ({0}),A', imm16(), d16(0xEA))
    add('LD A,({0})', imm16(), d16(0xFA))
    add('LDH ({0}),A', imm8(), d8(0xE0))
    add('LDH A,({0})', imm8(), d8(0xF0))
    add('LD ($FF00+{0}),A', imm8(), d8(0xE0))
    add('LD A,($FF00+{0})', imm8(), d8(0xF0))
    for c in ('C', '$FF00+C'):
        add('LD (%s),A' % c, (), const(0xE2))
        add('LD A,(%s)' % c, (), const(0xF2))
    add('ADD SP,{0}', s8(), d8(0xE8))
    add('LD HL,SP+{0}', s8(), d8(0xF8))
    add('LD SP,HL', (), const(0xF9))
    add('JP (HL)', (), const(0xE9))
    add('JP {0}', imm16(), d16(0xC3))
    add('CALL {0}', imm16(), d16(0xCD))
    add('JR {0}', rel(), d8(0x18))
    for i, c in enumerate(CC):
        add('JP %s,{0}' % c, imm16(), d16(0xC2 | i << 3))
        add('CALL %s,{0}' % c, imm16(), d16(0xC4 | i << 3))
        add('RET ' + c, (), const(0xC0 | i << 3))
        add('JR %s,{0}' % c, rel(), d8(0x20 | i << 3))
    for i, r in enumerate(STK):
        add('POP ' + r, (), const(0xC1 | i << 4))
        add('PUSH ' + r, (), const(0xC5 | i << 4))
    for i in range(8):
        add('RST %02XH' % (i * 8), (), const(0xC7 | i << 3))
    return o


def optional(brackets=('(', ')')):
    """spellings other assemblers offer"""
    o = []
    for j, m in enumerate(ALU):
        for i, r in enumerate(R):
            o.append(Form('%s %s%s' % (m, '' if m in ('ADD', 'ADC', 'SBC') else 'A,', r), (), const(0x80 | j << 3 | i)))
        o.append(Form('%s %s{0}' % (m, '' if m in ('ADD', 'ADC', 'SBC') else 'A,'), imm8(), d8(0xC6 | j << 3)))
    o.append(Form('JP HL', (), const(0xE9)))
    for c in ('C', '$FF00+C'):
        o.append(Form('LDH (%s),A' % c, (), const(0xE2)))
        o.append(Form('LDH A,(%s)' % c, (), const(0xF2)))
    for i, r in enumerate(R):
        for j, m in enumerate(('BIT', 'RES', 'SET')):
            o.append(Form('%s {0},%s' % (m, r), (F(3, lo=0),), lambda b, j=j, i=i: bytes([0xCB, (j + 1) << 6 | b << 3 | i])))
    o.append(Form('STOP {0}', (F(8, lo=0, hi=0),), const(0x10, 0)))
    o.append(Form('RST {0}', (F(8, lo=0, hi=0x38, mult=8),), lambda v: bytes([0xC7 | v])))
    o.append(Form('LD ($FF00+{0}),SP', imm16(), lambda v: bytes([0x08]) + le(0xFF00 + v, 2)))
    # the high page written out
    o.append(Form('LDH ({0}),A', (F(16, lo=0xFF00, hi=0xFFFF),), lambda v: bytes([0xE0, v & 255])))
    o.append(Form('LDH A,({0})', (F(16, lo=0xFF00, hi=0xFFFF),), lambda v: bytes([0xF0, v & 255])))
    o = [Form(f.text.replace('(', brackets[0]).replace(')', brackets[1]), f.fields, f.enc) for f in o]
    return o


MNEMONICS = list(PLAIN) + ['BRA', 'STOP', 'LD', 'LDH', 'INC', 'DEC', 'JP', 'JR', 'CALL', 'PUSH', 'POP', 'RST'] + list(ALU) + list(ROT) + ['BIT', 'RES', 'SET']
ALPHABET = [(t, ()) for t in ('A', 'F', 'B', 'C', 'D', 'E', 'H', 'L', 'AF', 'BC', 'DE', 'HL', 'HL+', 'HL-', 'SP', 'Z', 'NZ', 'NC', '(BC)', '(DE)', '(HL)', '(HL+)', '(HL-)', '(SP)', '(AF)', '(A)', '(C)', '(B)', '($FF00+C)', '(Z)', '00H', '38H', '()')] + [
    ('{}', (7,)), ('{}', (18,)), ('{}', (300,)), ('{}', (-1,)), ('({})', (7,)), ('({})', (300,)), ('($FF00+{})', (7,)), ('($FF00+{})', (256,)), ('SP+{}', (5,)), ('SP+{}', (128,)), ('({}', (7,)), ('{})', (7,))]
