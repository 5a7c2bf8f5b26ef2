"""Z80 reference (Zilog Z80 CPU user manual UM0080)."""
from mc.forms import F, Form, const, le

R = ('B', 'C', 'D', 'E', 'H', 'L', '(HL)', 'A')
SS = ('BC', 'DE', 'HL', 'SP')
QQ = ('BC', 'DE', 'HL', 'AF')
CC = ('NZ', 'Z', 'NC', 'C', 'PO', 'PE', 'P', 'M')
ALU = ('ADD', 'ADC', 'SUB', 'SBC', 'AND', 'XOR', 'OR', 'CP')
TWO = ('ADD', 'ADC', 'SBC')
ROT = ('RLC', 'RRC', 'RL', 'RR', 'SLA', 'SRA', 'SLL', 'SRL')
PLAIN = {'NOP': (0x00,), 'RLCA': (0x07,), 'RRCA': (0x0F,), 'RLA': (0x17,), 'RRA': (0x1F,), 'DAA': (0x27,), 'CPL': (0x2F,), 'SCF': (0x37,), 'CCF': (0x3F,), 'HALT': (0x76,), 'RET': (0xC9,), 'EXX': (0xD9,), 'DI': (0xF3,), 'EI': (0xFB,),
         'NEG': (0xED, 0x44), 'RETN': (0xED, 0x45), 'RETI': (0xED, 0x4D), 'RRD': (0xED, 0x67), 'RLD': (0xED, 0x6F),
         'LDI': (0xED, 0xA0), 'CPI': (0xED, 0xA1), 'INI': (0xED, 0xA2), 'OUTI': (0xED, 0xA3), 'LDD': (0xED, 0xA8), 'CPD': (0xED, 0xA9), 'IND': (0xED, 0xAA), 'OUTD': (0xED, 0xAB),
         'LDIR': (0xED, 0xB0), 'CPIR': (0xED, 0xB1), 'INIR': (0xED, 0xB2), 'OTIR': (0xED, 0xB3), 'LDDR': (0xED, 0xB8), 'CPDR': (0xED, 0xB9), 'INDR': (0xED, 0xBA), 'OTDR': (0xED, 0xBB)}
IXY = (('IX', 0xDD), ('IY', 0xFD))


def n8(*op):
    return lambda v: bytes(op) + le(v, 1)


def n16(*op):
    return lambda v: bytes(op) + le(v, 2)


def imm8():
    return F(8, label='abs')


def imm16():
    return F(16, label='abs')


def disp():
    return F(8, True, label='abs', llo=-128, lhi=127)


def rel():
    return F(8, True, label='rel', base=2)


def forms():
    o = []

    def add(text, enc, *fields):
        o.append(Form(text, fields, enc))

    def indexed(text, *ops, **kw):
        """(HL) form moved to (IX+d), (IY+d)"""
        for x, p in IXY:
            add(text.replace('(HL)', '(' + x + '+{0})'), lambda d, p=p: bytes([p]) + bytes(ops[:-1]) + le(d, 1) + bytes(ops[-1:]) if kw.get('cb') else bytes((p,) + ops) + le(d, 1), disp())

    for m, b in PLAIN.items():
        add(m, const(*b))
    for i, m in enumerate((0x46, 0x56, 0x5E)):
        add('IM %d' % i, const(0xED, m))
    for i, r in enumerate(SS):
        add('LD %s,{0}' % r, n16(0x01 | i << 4), imm16())
        add('INC ' + r, const(0x03 | i << 4))
        add('DEC ' + r, const(0x0B | i << 4))
        add('ADD HL,' + r, const(0x09 | i << 4))
        add('ADC HL,' + r, const(0xED, 0x4A | i << 4))
        add('SBC HL,' + r, const(0xED, 0x42 | i << 4))
        if r != 'HL':
            add('LD %s,({0})' % r, n16(0xED, 0x4B | i << 4), imm16())
            add('LD ({0}),%s' % r, n16(0xED, 0x43 | i << 4), imm16())
        for x, p in IXY:
            add('ADD %s,%s' % (x, r.replace('HL', x)), const(p, 0x09 | i << 4))
    add('LD HL,({0})', n16(0x2A), imm16())
    add('LD ({0}),HL', n16(0x22), imm16())
    add('LD A,({0})', n16(0x3A), imm16())
    add('LD ({0}),A', n16(0x32), imm16())
    for i, r in enumerate(('BC', 'DE')):
        add('LD (%s),A' % r, const(0x02 | i << 4))
        add('LD A,(%s)' % r, const(0x0A | i << 4))
    add('LD I,A', const(0xED, 0x47))
    add('LD R,A', const(0xED, 0x4F))
    add('LD A,I', const(0xED, 0x57))
    add('LD A,R', const(0xED, 0x5F))
    for i, r in enumerate(R):
        add('INC ' + r, const(0x04 | i << 3))
        add('DEC ' + r, const(0x05 | i << 3))
        add('LD %s,{0}' % r, n8(0x06 | i << 3), imm8())
        for j, s in enumerate(R):
            if i != 6 or j != 6:
                add('LD %s,%s' % (r, s), const(0x40 | i << 3 | j))
        for j, m in enumerate(ALU):
            add('%s %s%s' % (m, 'A,' if m in TWO else '', r), const(0x80 | j << 3 | i))
        for j, m in enumerate(ROT):
            if m != 'SLL':
                add('%s %s' % (m, r), const(0xCB, j << 3 | i))
        for j, m in enumerate(('BIT', 'RES', 'SET')):
            for b in range(8):
                add('%s %d,%s' % (m, b, r), const(0xCB, (j + 1) << 6 | b << 3 | i))
        if i != 6:
            indexed('LD %s,(HL)' % r, 0x46 | i << 3)
            indexed('LD (HL),%s' % r, 0x70 | i)
            add('IN %s,(C)' % r, const(0xED, 0x40 | i << 3))
            add('OUT (C),%s' % r, const(0xED, 0x41 | i << 3))
    indexed('INC (HL)', 0x34)
    indexed('DEC (HL)', 0x35)
    for x, p in IXY:
        add('LD (%s+{0}),{1}' % x, lambda d, v, p=p: bytes([p, 0x36]) + le(d, 1) + le(v, 1), disp(), imm8())
        add('LD %s,{0}' % x, n16(p, 0x21), imm16())
        add('LD %s,({0})' % x, n16(p, 0x2A), imm16())
        add('LD ({0}),%s' % x, n16(p, 0x22), imm16())
        add('INC ' + x, const(p, 0x23))
        add('DEC ' + x, const(p, 0x2B))
        add('POP ' + x, const(p, 0xE1))
        add('PUSH ' + x, const(p, 0xE5))
        add('EX (SP),' + x, const(p, 0xE3))
        add('JP (%s)' % x, const(p, 0xE9))
        add('LD SP,' + x, const(p, 0xF9))
    for j, m in enumerate(ALU):
        t = '%s %s' % (m, 'A,' if m in TWO else '')
        add(t + '{0}', n8(0xC6 | j << 3), imm8())
        indexed(t + '(HL)', 0x86 | j << 3)
    for j, m in enumerate(ROT):
        if m != 'SLL':
            indexed(m + ' (HL)', 0xCB, j << 3 | 6, cb=True)
    for j, m in enumerate(('BIT', 'RES', 'SET')):
        for b in range(8):
            indexed('%s %d,(HL)' % (m, b), 0xCB, (j + 1) << 6 | b << 3 | 6, cb=True)
    for i, c in enumerate(CC):
        add('RET ' + c, const(0xC0 | i << 3))
        add('JP %s,{0}' % c, n16(0xC2 | i << 3), imm16())
        add('CALL %s,{0}' % c, n16(0xC4 | i << 3), imm16())
        if i < 4:
            add('JR %s,{0}' % c, n8(0x20 | i << 3), rel())
    add('JP {0}', n16(0xC3), imm16())
    add('CALL {0}', n16(0xCD), imm16())
    add('JR {0}', n8(0x18), rel())
    add('DJNZ {0}', n8(0x10), rel())
    add('JP (HL)', const(0xE9))
    add('LD SP,HL', const(0xF9))
    add('EX DE,HL', const(0xEB))
    add('EX (SP),HL', const(0xE3))
    add("EX AF,AF'", const(0x08))
    for i, r in enumerate(QQ):
        add('POP ' + r, const(0xC1 | i << 4))
        add('PUSH ' + r, const(0xC5 | i << 4))
    for i in range(8):
        add('RST %XH' % (i * 8), const(0xC7 | i << 3))
    add('IN A,({0})', n8(0xDB), imm8())
    add('OUT ({0}),A', n8(0xD3), imm8())
    return o


def optional():
    """undocumented instructions and spellings other assemblers offer: refused or encoded so"""
    o = []

    def add(text, enc, *fields):
        o.append(Form(text, fields, enc))

    add('EX AF,AF', const(0x08))
    add('IN F,(C)', const(0xED, 0x70))
    add('IN (C)', const(0xED, 0x70))
    add('OUT (C),{0}', const(0xED, 0x71), F(8, lo=0, hi=0))
    for j, m in enumerate(ALU):
        for i, r in enumerate(R):
            add('%s %s%s' % (m, '' if m in TWO else 'A,', r), const(0x80 | j << 3 | i))
        add('%s %s{0}' % (m, '' if m in TWO else 'A,'), n8(0xC6 | j << 3), imm8())
    for x, p in IXY:
        rr = [r.replace('H', x + 'H').replace('L', x + 'L') if len(r) == 1 else None for r in R]
        for i, r in enumerate(rr):
            if r is None:
                continue
            if i in (4, 5):
                add('INC ' + r, const(p, 0x04 | i << 3))
                add('DEC ' + r, const(p, 0x05 | i << 3))
                add('LD %s,{0}' % r, n8(p, 0x06 | i << 3), imm8())
                for j, m in enumerate(ALU):
                    for t in ('A,', ''):
                        add('%s %s%s' % (m, t, r), const(p, 0x80 | j << 3 | i))
            for j, s in enumerate(rr):
                if s is not None and (i in (4, 5) or j in (4, 5)):
                    add('LD %s,%s' % (r, s), const(p, 0x40 | i << 3 | j))
        for j, m in enumerate(ALU):
            add('%s %s(%s+{0})' % (m, '' if m in TWO else 'A,', x), n8(p, 0x86 | j << 3), disp())
        add('JP ' + x, const(p, 0xE9))
        for j, m in enumerate(ROT):
            if m == 'SLL':
                add('SLL (%s+{0})' % x, lambda d, p=p: bytes([p, 0xCB]) + le(d, 1) + b'\x36', disp())
            for i, r in enumerate(R):
                if i != 6:
                    for t in ('LD %s,%s (%s+{0})' % (r, m, x), 'LD %s,%s,(%s+{0})' % (r, m, x), '%s (%s+{0}),%s' % (m, x, r)):
                        add(t, lambda d, p=p, i=i, j=j: bytes([p, 0xCB]) + le(d, 1) + bytes([j << 3 | i]), disp())
    for i, r in enumerate(R):
        add('SLL ' + r, const(0xCB, 0x30 | i))
        for j, m in enumerate(('BIT', 'RES', 'SET')):
            add('%s {0},%s' % (m, r), lambda b, j=j, i=i: bytes([0xCB, (j + 1) << 6 | b << 3 | i]), F(3, lo=0))
    for x, p in IXY:
        for j, m in enumerate(('BIT', 'RES', 'SET')):
            add('%s {0},(%s+{1})' % (m, x), lambda b, d, j=j, p=p: bytes([p, 0xCB]) + le(d, 1) + bytes([(j + 1) << 6 | b << 3 | 6]), F(3, lo=0), disp())
    add('IM {0}', lambda v: bytes([0xED, (0x46, 0x56, 0x5E)[v]]), F(2, lo=0, hi=2))
    add('RST {0}', lambda v: bytes([0xC7 | v]), F(8, lo=0, hi=0x38, mult=8))
    add('JP HL', const(0xE9))
    return o


MNEMONICS = list(PLAIN) + ['IM', 'LD', 'INC', 'DEC', 'JP', 'JR', 'DJNZ', 'CALL', 'PUSH', 'POP', 'RST', 'EX', 'IN', 'OUT'] + list(ALU) + list(ROT) + ['BIT', 'RES', 'SET']
ALPHABET = [(t, ()) for t in ('A', 'B', 'C', 'D', 'E', 'F', 'H', 'L', 'I', 'R', 'AF', 'BC', 'DE', 'HL', 'SP', 'PC', 'IX', 'IY', 'IXH', 'IYL', 'Z', 'NZ', 'NC', 'PO', 'M', '(BC)', '(DE)', '(HL)', '(SP)', '(AF)', '(A)', '(C)', '(B)', '(IX)', '(IY)', '(I)', '0H', '38H', '()', 'RLC')] + [
    ('{}', (2,)), ('{}', (18,)), ('{}', (300,)), ('{}', (-1,)), ('({})', (7,)), ('({})', (300,)), ('(IX+{})', (5,)), ('(IX+{})', (-6,)), ('(IY+{})', (128,)), ('IX+{}', (5,)), ('({}', (7,)), ('{})', (7,))]
