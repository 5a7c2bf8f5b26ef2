"""8086 reference (Intel 8086 family user's manual, instruction encoding tables)."""
from mc.forms import F, Form, const, le

R8 = ('AL', 'CL', 'DL', 'BL', 'AH', 'CH', 'DH', 'BH')
R16 = ('AX', 'CX', 'DX', 'BX', 'SP', 'BP', 'SI', 'DI')
SR = ('ES', 'CS', 'SS', 'DS')
EA = ('BX + SI', 'BX + DI', 'BP + SI', 'BP + DI', 'SI', 'DI', 'BP', 'BX')
ALU = ('ADD', 'OR', 'ADC', 'SBB', 'AND', 'SUB', 'XOR', 'CMP')
PLAIN = {'DAA': 0x27, 'DAS': 0x2F, 'AAA': 0x37, 'AAS': 0x3F, 'NOP': 0x90, 'CBW': 0x98, 'CWD': 0x99, 'WAIT': 0x9B, 'PUSHF': 0x9C, 'POPF': 0x9D, 'SAHF': 0x9E, 'LAHF': 0x9F,
         'MOVSB': 0xA4, 'MOVSW': 0xA5, 'CMPSB': 0xA6, 'CMPSW': 0xA7, 'STOSB': 0xAA, 'STOSW': 0xAB, 'LODSB': 0xAC, 'LODSW': 0xAD, 'SCASB': 0xAE, 'SCASW': 0xAF,
         'RET': 0xC3, 'RETF': 0xCB, 'INTO': 0xCE, 'IRET': 0xCF, 'XLAT': 0xD7, 'LOCK': 0xF0, 'REPNZ': 0xF2, 'REPZ': 0xF3, 'HLT': 0xF4, 'CMC': 0xF5, 'CLC': 0xF8, 'STC': 0xF9, 'CLI': 0xFA, 'STI': 0xFB, 'CLD': 0xFC, 'STD': 0xFD}
JCC = ('JO', 'JNO', 'JB', 'JNB', 'JZ', 'JNZ', 'JBE', 'JA', 'JS', 'JNS', 'JPE', 'JPO', 'JL', 'JGE', 'JLE', 'JG')
LOOPS = {'LOOPNZ': 0xE0, 'LOOPZ': 0xE1, 'LOOP': 0xE2, 'JCXZ': 0xE3}


def imm8():
    return F(8, label='abs')


def imm16():
    return F(16, label='abs')


def disp():
    return F(16, label='abs')


def n8(*op):
    return lambda v: bytes(op) + le(v, 1)


def n16(*op):
    return lambda v: bytes(op) + le(v, 2)


def mem(fmt, op, reg, tail=(), enc_tail=lambda *v: b'', direct=False):
    """forms for every base/index combination; fmt has %s for the bracketed operand, tail fields follow it"""
    out = []
    k = len(tail)
    shift = fmt.replace('{T}', '{1}' if k else '')
    noshift = fmt.replace('{T}', '{0}' if k else '')
    for rm, ea in enumerate(EA):
        if rm == 6:
            enc = lambda *v: bytes([op, 0x80 | reg << 3 | 6, 0, 0]) + enc_tail(*v)
            enc8 = lambda *v: bytes([op, 0x40 | reg << 3 | 6, 0]) + enc_tail(*v)
            out.append(Form(noshift.replace('%s', '[%s]' % ea), tail, enc, tag='bp'))
            out.append(Form(noshift.replace('%s', '[%s]' % ea), tail, enc8, tag='alt'))
        else:
            out.append(Form(noshift.replace('%s', '[%s]' % ea), tail, lambda *v, rm=rm: bytes([op, reg << 3 | rm]) + enc_tail(*v)))
        out.append(Form(shift.replace('%s', '[%s + {0}]' % ea), (disp(),) + tuple(tail), lambda d, *v, rm=rm: bytes([op, 0x80 | reg << 3 | rm]) + le(d, 2) + enc_tail(*v)))
    if direct:
        out.append(Form(shift.replace('%s', '[{0}]'), (imm16(),) + tuple(tail), lambda d, *v: bytes([op, reg << 3 | 6]) + le(d, 2) + enc_tail(*v)))
    return out


def forms():
    """what the assembler offers"""
    o = []

    def add(text, enc, *fields, **kw):
        o.append(Form(text, fields, enc, **kw))

    for m, b in PLAIN.items():
        add(m, const(b))
    for m, b in (('AAM', 0xD4), ('AAD', 0xD5)):
        add(m, const(b, 0x0A))
        add(m + ' {0}', n8(b), F(8))
    for i, s in enumerate(SR):
        add('PUSH ' + s, const(0x06 | i << 3))
        if s != 'CS':
            add('POP ' + s, const(0x07 | i << 3))
    for i, r in enumerate(R16):
        add('INC ' + r, const(0x40 | i))
        add('DEC ' + r, const(0x48 | i))
        add('PUSH ' + r, const(0x50 | i))
        add('POP ' + r, const(0x58 | i))
        add('MOV %s,{0}' % r, n16(0xB8 | i), imm16())
        add('MUL ' + r, const(0xF7, 0xE0 | i))
        add('DIV ' + r, const(0xF7, 0xF0 | i))
        add('SHL %s,1' % r, const(0xD1, 0xE0 | i))
        add('SHR %s,1' % r, const(0xD1, 0xE8 | i))
        o.extend(mem('LEA %s,%%s' % r, 0x8D, i))
        add('LES %s,[{0}]' % r, n16(0xC4, i << 3 | 6), imm16())
        add('LDS %s,[{0}]' % r, n16(0xC5, i << 3 | 6), imm16())
        for j, s in enumerate(SR):
            add('MOV %s,%s' % (r, s), const(0x8C, 0xC0 | j << 3 | i))
            add('MOV %s,%s' % (s, r), const(0x8E, 0xC0 | j << 3 | i))
    for i, r in enumerate(R8):
        add('MOV %s,{0}' % r, n8(0xB0 | i), imm8())
        add('SHL %s,1' % r, const(0xD0, 0xE0 | i))
        add('SHR %s,1' % r, const(0xD0, 0xE8 | i))
    for j, s in enumerate(SR):
        o.extend(mem('MOV %%s,%s' % s, 0x8C, j))
        o.extend(mem('MOV %s,%%s' % s, 0x8E, j))
    o.extend(mem('MUL %s', 0xF7, 4))
    o.extend(mem('DIV %s', 0xF7, 6))
    o.extend(mem('POP %s', 0x8F, 0))
    # the width of a lone memory operand is a byte
    o.extend(mem('SHL %s,1', 0xD0, 4))
    o.extend(mem('SHR %s,1', 0xD0, 5))
    o.extend(mem('MOV %s,{T}', 0xC6, 0, (imm8(),), lambda v: le(v, 1)))
    two = [(m, k << 3, k << 3 | 2, True) for k, m in enumerate(ALU)] + [('MOV', 0x88, 0x8A, True), ('TEST', None, 0x84, False), ('XCHG', None, 0x86, False)]
    for m, to, frm, both in two:
        for w, regs in ((0, R8), (1, R16)):
            for i, r in enumerate(regs):
                for j, s in enumerate(regs):
                    a = const(frm | w, 0xC0 | i << 3 | j)
                    b = const((to if to is not None else frm) | w, 0xC0 | j << 3 | i)
                    add('%s %s,%s' % (m, r, s), b if both else a)
                    add('%s %s,%s' % (m, r, s), a if both else b, tag='alt')
                o.extend(mem('%s %s,%%s' % (m, r), frm | w, i))
                if both:
                    o.extend(mem('%s %%s,%s' % (m, r), to | w, i))
    for k, m in enumerate(ALU):
        add(m + ' AL,{0}', n8(k << 3 | 4), imm8())
        add(m + ' AX,{0}', n16(k << 3 | 5), imm16())
    add('TEST AL,{0}', n8(0xA8), imm8())
    add('TEST AX,{0}', n16(0xA9), imm16())
    for i, r in enumerate(R16):
        if i:
            add('XCHG %s,AX' % r, const(0x90 | i), tag='alt')
            add('XCHG AX,%s' % r, const(0x90 | i), tag='alt')
    for i, m in enumerate(JCC):
        add(m + ' {0}', n8(0x70 | i), F(8, True, label='rel', base=2))
    for m, b in LOOPS.items():
        add(m + ' {0}', n8(b), F(8, True, label='rel', base=2))
    add('CALL {0}', n16(0xE8), F(16, True, label='rel', base=3))
    add('JMP {0}', n16(0xE9), F(16, True, label='rel', base=3))
    add('MOV AL,[{0}]', n16(0xA0), imm16())
    add('MOV AX,[{0}]', n16(0xA1), imm16())
    add('MOV [{0}],AL', n16(0xA2), imm16())
    add('MOV [{0}],AX', n16(0xA3), imm16())
    add('RET {0}', n16(0xC2), imm16())
    add('RETF {0}', n16(0xCA), imm16())
    add('INT {0}', lambda v: b'\xCC' if v == 3 else n8(0xCD)(v), imm8(), tag='int')
    add('INT {0}', n8(0xCD), imm8(), tag='alt')
    add('IN AL,{0}', n8(0xE4), imm8())
    add('IN AX,{0}', n8(0xE5), imm8())
    add('OUT {0},AL', n8(0xE6), imm8())
    add('OUT {0},AX', n8(0xE7), imm8())
    add('IN AL,DX', const(0xEC))
    add('IN AX,DX', const(0xED))
    add('OUT DX,AL', const(0xEE))
    add('OUT DX,AX', const(0xEF))
    return o


def optional():
    """documented instructions the assembler need not offer"""
    o = []

    def add(text, enc, *fields):
        o.append(Form(text, fields, enc))

    for w, regs in ((0, R8), (1, R16)):
        imm = imm16 if w else imm8
        n = 2 if w else 1
        for i, r in enumerate(regs):
            for k, m in enumerate(ALU):
                add('%s %s,{0}' % (m, r), lambda v, k=k, i=i, w=w, n=n: bytes([0x80 | w, 0xC0 | k << 3 | i]) + le(v, n), imm())
                if w:
                    add('%s %s,{0}' % (m, r), lambda v, k=k, i=i: bytes([0x83, 0xC0 | k << 3 | i]) + le(v, 1), F(8, True))
                o.extend(mem('%s %s,%%s' % (m, r), k << 3 | 2 | w, i, direct=True)[-1:])
                o.extend(mem('%s %%s,%s' % (m, r), k << 3 | w, i, direct=True)[-1:])
            add('TEST %s,{0}' % r, lambda v, i=i, w=w, n=n: bytes([0xF6 | w, 0xC0 | i]) + le(v, n), imm())
            add('MOV %s,{0}' % r, lambda v, i=i, w=w, n=n: bytes([0xC6 | w, 0xC0 | i]) + le(v, n), imm())
            for m, op, d in (('MOV', 0x8A, 0), ('MOV', 0x88, 1), ('TEST', 0x84, 0), ('TEST', 0x84, 1), ('XCHG', 0x86, 0), ('XCHG', 0x86, 1)):
                o.extend(mem('%s %s,%s' % (m, '%s' if d else r, r if d else '%s'), op | w, i, direct=True)[0 if m != 'MOV' else -1:])
            for m, op, x in (('NOT', 0xF6, 2), ('NEG', 0xF6, 3), ('MUL', 0xF6, 4), ('IMUL', 0xF6, 5), ('DIV', 0xF6, 6), ('IDIV', 0xF6, 7), ('INC', 0xFE, 0), ('DEC', 0xFE, 1)):
                add('%s %s' % (m, r), const(op | w, 0xC0 | x << 3 | i))
            for m, x in (('ROL', 0), ('ROR', 1), ('RCL', 2), ('RCR', 3), ('SHL', 4), ('SAL', 4), ('SHR', 5), ('SAR', 7)):
                add('%s %s,1' % (m, r), const(0xD0 | w, 0xC0 | x << 3 | i))
                add('%s %s' % (m, r), const(0xD0 | w, 0xC0 | x << 3 | i))
                add('%s %s,CL' % (m, r), const(0xD2 | w, 0xC0 | x << 3 | i))
                add('%s %s,{0}' % (m, r), const(0xD0 | w, 0xC0 | x << 3 | i), F(8, lo=1, hi=1))
        for m, op, x in (('NOT', 0xF6, 2), ('NEG', 0xF6, 3), ('MUL', 0xF6, 4), ('IMUL', 0xF6, 5), ('DIV', 0xF6, 6), ('IDIV', 0xF6, 7), ('INC', 0xFE, 0), ('DEC', 0xFE, 1), ('PUSH', 0xFE, 6), ('CALL', 0xFE, 2), ('JMP', 0xFE, 4)):
            if w or op != 0xFE or x < 2:
                o.extend(mem(m + ' %s', op | w, x, direct=True))
        for m, x in (('ROL', 0), ('ROR', 1), ('RCL', 2), ('RCR', 3), ('SHL', 4), ('SHR', 5), ('SAR', 7)):
            o.extend(mem(m + ' %s,1', 0xD0 | w, x, direct=True))
            o.extend(mem(m + ' %s,CL', 0xD2 | w, x, direct=True))
            o.extend(mem(m + ' %s', 0xD0 | w, x, direct=True))
            o.extend(mem(m + ' %s,{T}', 0xD0 | w, x, (F(8, lo=1, hi=1),), lambda v: b'', direct=True))
        for k, m in enumerate(ALU):
            o.extend(mem(m + ' %s,{T}', 0x80 | w, k, (imm(),), lambda v, n=n: le(v, n), direct=True))
        o.extend(mem('MOV %s,{T}', 0xC6 | w, 0, (imm(),), lambda v, n=n: le(v, n), direct=True))
        o.extend(mem('TEST %s,{T}', 0xF6 | w, 0, (imm(),), lambda v, n=n: le(v, n), direct=True))
    o.extend(mem('POP %s', 0x8F, 0, direct=True)[-1:])
    for i, r in enumerate(R16):
        o.extend(mem('LEA %s,%%s' % r, 0x8D, i, direct=True)[-1:])
        o.extend(mem('LES %s,%%s' % r, 0xC4, i, direct=True))
        o.extend(mem('LDS %s,%%s' % r, 0xC5, i, direct=True))
        add('CALL ' + r, const(0xFF, 0xD0 | i))
        add('JMP ' + r, const(0xFF, 0xE0 | i))
    for j, s in enumerate(SR):
        o.extend(mem('MOV %%s,%s' % s, 0x8C, j, direct=True)[-1:])
        o.extend(mem('MOV %s,%%s' % s, 0x8E, j, direct=True)[-1:])
    add('JMP {0}', n8(0xEB), F(8, True))
    return o


MNEMONICS = list(PLAIN) + list(ALU) + list(JCC) + list(LOOPS) + ['AAM', 'AAD', 'PUSH', 'POP', 'INC', 'DEC', 'MOV', 'MUL', 'DIV', 'SHL', 'SHR', 'LEA', 'LES', 'LDS', 'TEST', 'XCHG', 'CALL', 'JMP', 'INT', 'IN', 'OUT']
ALPHABET = [(r, ()) for r in R8 + R16 + SR] + [('[%s]' % e, ()) for e in EA] + [(t, ()) for t in ('[AX]', '[SP]', '[CX + SI]', '[SI + BX]', '[BX + BP]', '[SI + DI]', '[DS]', '[AL]', '[]', '[BX', '+', 'BX + SI', '(BX)')] + [
    ('{}', (2,)), ('{}', (3,)), ('{}', (300,)), ('{}', (-1,)), ('{}', (65536,)), ('[{}]', (7,)), ('[{}]', (300,)), ('[{}]', (65536,)), ('[BX + SI + {}]', (7,)), ('[BP + {}]', (300,)), ('[DI + {}]', (-300,)), ('[BX + {}]', (40000,)), ('[AX + {}]', (1,))]
