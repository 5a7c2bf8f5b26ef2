"""x86 reference: the instruction forms every x86 manual agrees on, for one of the three modes."""
import re
from mc.forms import F, Form, const, le
from mc.ref.x86_names import NAMES

CC = 'O NO B|NAE|C NB|AE|NC Z|E NZ|NE BE|NA NBE|A S NS P|PE NP|PO L|NGE NL|GE LE|NG NLE|G'.split()


# instructions without operands: the same bytes in every mode
PLAIN = dict(l.split('=') for l in '''
NTAKEN=2e TAKEN=3e ALTER=64 NOP=90 PAUSE=f390 FWAIT=9b WAIT=9b PUSHF=9c POPF=9d SAHF=9e LAHF=9f RETN=c3 RET=c3 RETF=cb LEAVE=c9 IRET=cf XLATB=d7
INSB=6c OUTSB=6e MOVSB=a4 CMPSB=a6 STOSB=aa LODSB=ac SCASB=ae LOCK=f0 INT1=f1 ICEBP=f1 HLT=f4 CMC=f5 CLC=f8 STC=f9 CLI=fa STI=fb CLD=fc STD=fd
FCOM=d8d1 FCOMP=d8d9 FXCH=d9c9 FNOP=d9d0 FCHS=d9e0 FABS=d9e1 FTST=d9e4 FXAM=d9e5 FLD1=d9e8 FLDL2T=d9e9 FLDL2E=d9ea FLDPI=d9eb FLDLG2=d9ec FLDLN2=d9ed
FLDZ=d9ee F2XM1=d9f0 FYL2X=d9f1 FPTAN=d9f2 FPATAN=d9f3 FXTRACT=d9f4 FPREM1=d9f5 FDECSTP=d9f6 FINCSTP=d9f7 FPREM=d9f8 FYL2XP1=d9f9 FSQRT=d9fa
FSINCOS=d9fb FRNDINT=d9fc FSCALE=d9fd FSIN=d9fe FCOS=d9ff FUCOMPP=dae9 FNENI=dbe0 FENI=9bdbe0 FNDISI=dbe1 FDISI=9bdbe1 FNCLEX=dbe2 FCLEX=9bdbe2
FNINIT=dbe3 FINIT=9bdbe3 FNSETPM=dbe4 FSETPM=9bdbe4 FUCOM=dde1 FUCOMP=dde9 FADDP=dec1 FMULP=dec9 FCOMPP=ded9 FSUBRP=dee1 FSUBP=dee9 FDIVRP=def1
FDIVP=def9 FCOM2=dcd1 FCOMP3=dcd9 FXCH4=ddc9 FCOMP5=ded1 FXCH7=dfc9
VMCALL=0f01c1 VMLAUNCH=0f01c2 VMRESUME=0f01c3 VMXOFF=0f01c4 MONITOR=0f01c8 MWAIT=0f01c9 XGETBV=0f01d0 XSETBV=0f01d1 SWAPGS=0f01f8 RDTSCP=0f01f9
SYSCALL=0f05 CLTS=0f06 SYSRET=0f07 INVD=0f08 WBINVD=0f09 UD2=0f0b WRMSR=0f30 RDTSC=0f31 RDMSR=0f32 RDPMC=0f33 SYSENTER=0f34 SYSEXIT=0f35 GETSEC=0f37
EMMS=0f77 CPUID=0fa2 RSM=0faa LFENCE=0faee8 MFENCE=0faef0 SFENCE=0faef8 LOADALL=0f05
'''.split())
# not in 64-bit mode
OLD = {'DAA': '27', 'DAS': '2f', 'AAA': '37', 'AAS': '3f', 'AAM': 'd40a', 'AAD': 'd50a', 'PUSHA': '60', 'POPA': '61', 'INTO': 'ce', 'SALC': 'd6', 'SETALC': 'd6'}
# opcode, operand size
SIZED = {'INSW': (0x6D, 16), 'OUTSW': (0x6F, 16), 'MOVSW': (0xA5, 16), 'CMPSW': (0xA7, 16), 'STOSW': (0xAB, 16), 'LODSW': (0xAD, 16), 'SCASW': (0xAF, 16), 'CBW': (0x98, 16), 'CWD': (0x99, 16),
         'INSD': (0x6D, 32), 'OUTSD': (0x6F, 32), 'MOVSD': (0xA5, 32), 'CMPSD': (0xA7, 32), 'STOSD': (0xAB, 32), 'LODSD': (0xAD, 32), 'SCASD': (0xAF, 32), 'CWDE': (0x98, 32), 'CDQ': (0x99, 32),
         'PUSHAD': (0x60, 32), 'POPAD': (0x61, 32), 'PUSHFD': (0x9C, 32), 'POPFD': (0x9D, 32), 'IRETD': (0xCF, 32),
         'MOVSQ': (0xA5, 64), 'CMPSQ': (0xA7, 64), 'STOSQ': (0xAB, 64), 'LODSQ': (0xAD, 64), 'SCASQ': (0xAF, 64), 'CDQE': (0x98, 64), 'CQO': (0x99, 64), 'IRETQ': (0xCF, 64), 'PUSHFQ': (0x9C, 64), 'POPFQ': (0x9D, 64)}
R = {16: 'AX CX DX BX SP BP SI DI'.split()}
R[32] = ['E' + r for r in R[16]]
R[64] = ['R' + r for r in R[16]]
ALU = ('ADD', 'OR', 'ADC', 'SBB', 'AND', 'SUB', 'XOR', 'CMP')
# register, register or memory
TO_REG = {'IMUL': '0faf', 'BSF': '0fbc', 'BSR': '0fbd', 'POPCNT': 'f30fb8'}
# register or memory, register
TO_RM = {'BT': '0fa3', 'BTS': '0fab', 'BTR': '0fb3', 'BTC': '0fbb', 'CMPXCHG': '0fb1', 'XADD': '0fc1', 'TEST': '85'}
ONE = {'NOT': 2, 'NEG': 3, 'MUL': 4, 'IMUL': 5, 'DIV': 6, 'IDIV': 7}


def branches(bits):
    """near branches; a label reaches anything its displacement can express"""
    n = 2 if bits == 16 else 4
    out = []

    def add(m, op):
        out.append(Form(m + ' {0}', (F(8 * n, True, label='rel', base=len(op) + n),), lambda v, op=op: op + le(v, n)))
    for i, names in enumerate(CC):
        for c in names.split('|'):
            add('J' + c, bytes([0x0F, 0x80 | i]))
    add('CALL', b'\xE8')
    add('JMP', b'\xE9')
    return out



def pre(mode, size, asize=None, op='', rex=True):
    """prefixes and opcode bytes"""
    b = b''
    if asize and asize != mode:
        b += b'\x67'
    if size and (size == 16) != (mode == 16) and size != 64:
        b += b'\x66'
    op = bytes.fromhex(op)
    if op[:1] == b'\xf3' and len(op) > 2:
        b += op[:1]
        op = op[1:]
    return b + (b'\x48' if size == 64 and rex else b'') + op


def addresses(mode):
    """(text with an optional {D}, address size, function(reg, displacement) -> modrm...)"""
    out = []
    for size in (16, 32, 64):
        if (size == 64) != (mode == 64) and size != 32:
            continue
        r = R[size]
        n = 2 if size == 16 else 4
        combos = [(b, i) for b in (3, 5) for i in (6, 7)] + [(b, None) for b in (6, 7, 5, 3)]
        for k, (b, i) in enumerate(combos):
            if size == 16:
                rm, sib = k, b''
            elif i is None:
                rm, sib = b, b''
            else:
                rm, sib = 4, bytes([i << 3 | b])
            txt = r[b] + (' + ' + r[i] if i is not None else '')

            def plain(reg, rm=rm, sib=sib, need=b == 5 and (size != 16 or i is None)):
                return bytes([(0x40 if need else 0) | reg << 3 | rm]) + sib + (b'\0' if need else b'')

            def far(reg, d, rm=rm, sib=sib, n=n):
                return bytes([0x80 | reg << 3 | rm]) + sib + le(d, n)

            def near(reg, d, rm=rm, sib=sib):
                return bytes([0x40 | reg << 3 | rm]) + sib + le(d, 1)
            out.append(('[%s]' % txt, '[%s + {0}]' % txt, size, plain, far, near))
    return out


def disp(size, light=True):
    return F(32 if size != 16 else 16, size == 64, label='abs')


def imm(size):
    return F(min(size, 32), size == 64, label='abs')


def rex_name(i):
    return 'REX' + ('.' if i else '') + ''.join(c for c, bit in zip('WRXB', (8, 4, 2, 1)) if i & bit)


def forms(mode, deep=False):
    o = []
    sizes = [s for s in (16, 32, 64) if s != 64 or mode == 64]
    ea = addresses(mode)
    full = {'MOV', 'ADD', 'LEA'}

    def add(text, enc, *fields, **kw):
        o.append(Form(text, fields, enc, **kw))

    def mem(fmt, size, op, reg, full):
        """%s is the memory operand"""
        for plain, with_d, asize, p, far, near in ea:
            head = pre(mode, size, asize, op)
            add(fmt % plain, const(*(head + p(reg))), light=not full)
            add(fmt % with_d, lambda d, head=head, far=far: head + far(reg, d), disp(asize), light=not full)
            add(fmt % with_d, lambda d, head=head, near=near: head + near(reg, d), F(8, True), tag='alt')

    def few(m, k):
        return range(8) if deep or m in full else [(k + j) % 8 for j in (0, 3)]

    for m, h in PLAIN.items():
        add(m, const(*bytes.fromhex(h)))
    add('LOADALL', const(0x0F, 0x07), tag='alt')
    if mode != 64:
        for m, h in OLD.items():
            add(m, const(*bytes.fromhex(h)))
    for m, (op, size) in SIZED.items():
        if size == 64 and mode != 64 or mode == 64 and m in ('PUSHAD', 'POPAD', 'PUSHFD', 'POPFD'):
            continue
        add(m, const(*pre(mode, size, None, '%02x' % op, m not in ('PUSHFQ', 'POPFQ'))))
    strings = [f for f in o if f.text[:-1] in ('INS', 'OUTS', 'MOVS', 'CMPS', 'STOS', 'LODS', 'SCAS')]
    for rep, b in (('REP', 0xF3), ('REPE', 0xF3), ('REPZ', 0xF3), ('REPNE', 0xF2), ('REPNZ', 0xF2)):
        for f in strings:
            add(rep + ' ' + f.text, const(*(bytes([b]) + f.encode(()))))
    if mode == 64:
        for i in range(16):
            add(rex_name(i), const(0x40 | i))
    for k, size in enumerate(sizes):
        regs = R[size]
        two = [(m, '%02x' % (8 * i + 1), '%02x' % (8 * i + 3)) for i, m in enumerate(ALU)] + [('MOV', '89', '8b')]
        two += [(m, op, None) for m, op in TO_RM.items()] + [('XCHG', None, '87')]
        two += [(m, None, op) for m, op in TO_REG.items()]
        two += [('CMOV' + c, None, '0f%02x' % (0x40 + i)) for i, names in enumerate(CC) for c in names.split('|')]
        for q, (m, to, frm) in enumerate(two):
            for i in range(8):
                for j in range(8):
                    a = const(*(pre(mode, size, None, to) + bytes([0xC0 | j << 3 | i]))) if to else None
                    b = const(*(pre(mode, size, None, frm) + bytes([0xC0 | i << 3 | j]))) if frm else None
                    t = '%s %s,%s' % (m, regs[i], regs[j])
                    add(t, a or b)
                    if a and b:
                        add(t, b, tag='alt')
                    if m in ('XCHG', 'TEST'):
                        add(t, const(*(pre(mode, size, None, to or frm) + bytes([0xC0 | (i << 3 | j if to else j << 3 | i)]))), tag='alt')
                    if m == 'XCHG' and 0 in (i, j) and not (mode == 64 and i == j == 0 and size == 32):
                        add(t, const(*pre(mode, size, None, '%02x' % (0x90 | i | j))), tag='alt')
                if i in few(m, q + i):
                    if frm:
                        mem('%s %s,%%s' % (m, regs[i]), size, frm, i, m in full and i == k)
                    if to:
                        mem('%s %%s,%s' % (m, regs[i]), size, to, i, m in full and i == k)
        n = min(size, 32) // 8
        for i, r in enumerate(regs):
            mem('LEA %s,%%s' % r, size, '8d', i, i == k)
            for m, d in ONE.items():
                add('%s %s' % (m, r), const(*(pre(mode, size, None, 'f7') + bytes([0xC0 | d << 3 | i]))))
            for d, m in enumerate(('INC', 'DEC')):
                add('%s %s' % (m, r), const(*(pre(mode, size, None, 'ff') + bytes([0xC0 | d << 3 | i]))))
                if mode != 64:
                    add('%s %s' % (m, r), const(*pre(mode, size, None, '%02x' % (0x40 | d << 3 | i))), tag='alt')
            for d, m in enumerate(ALU + ('TEST', 'MOV')):
                h = {'TEST': 'f7', 'MOV': 'c7'}.get(m, '81')
                g = d if h == '81' else 0
                if i == 0 and m != 'MOV':
                    add('%s %s,{0}' % (m, r), lambda v, p=pre(mode, size, None, 'a9' if m == 'TEST' else '%02x' % (8 * d + 5)), n=n: p + le(v, n), imm(size), light=i > 0 and not deep)
                if m != 'MOV':
                    add('%s %s,{0}' % (m, r), lambda v, p=pre(mode, size, None, h) + bytes([0xC0 | g << 3 | i]), n=n: p + le(v, n), imm(size), tag='alt' if i == 0 else None, light=not deep)
                else:
                    add('%s %s,{0}' % (m, r), lambda v, p=pre(mode, size, None, h) + bytes([0xC0 | g << 3 | i]), n=n: p + le(v, n), F(min(size, 32), size == 64), tag='alt')
                if h == '81':
                    add('%s %s,{0}' % (m, r), lambda v, p=pre(mode, size, None, '83') + bytes([0xC0 | g << 3 | i]): p + le(v, 1), F(8, True), tag='alt')
            add('MOV %s,{0}' % r, lambda v, p=pre(mode, size, None, '%02x' % (0xB8 | i)), n=size // 8: p + le(v, n), F(size, label='abs'))
            for j, r2 in enumerate(regs):
                add('IMUL %s,%s,{0}' % (r, r2), lambda v, p=pre(mode, size, None, '69') + bytes([0xC0 | i << 3 | j]), n=n: p + le(v, n), imm(size), light=True)
                add('IMUL %s,%s,{0}' % (r, r2), lambda v, p=pre(mode, size, None, '6b') + bytes([0xC0 | i << 3 | j]): p + le(v, 1), F(8, True), tag='alt')
            for plain, with_d, asize, p, far, near in ea:
                head = pre(mode, size, asize, '69')
                if i in few('IMUL', k):
                    add('IMUL %s,%s,{0}' % (r, plain), lambda v, h=head + p(i), n=n: h + le(v, n), imm(size), light=True)
                    add('IMUL %s,%s,{1}' % (r, with_d), lambda d, v, h=head, far=far, i=i, n=n: h + far(i, d) + le(v, n), disp(asize), imm(size), light=True)
            if size != 16:
                add('BSWAP ' + r, const(*pre(mode, size, None, '0f%02x' % (0xC8 | i))))
            if size in (16, mode) and (size == 16 or mode == 64):
                # the sheet offers 16 and 64 bit registers
                add('PUSH ' + r, const(*pre(mode, size, None, '%02x' % (0x50 | i), False)))
                add('POP ' + r, const(*pre(mode, size, None, '%02x' % (0x58 | i), False)))
    for i in range(8):
        for c in range(8):
            r = R[64 if mode == 64 else 32][i]
            add('MOV %s,CR%d' % (r, c), const(0x0F, 0x20, 0xC0 | c << 3 | i))
            add('MOV CR%d,%s' % (c, r), const(0x0F, 0x22, 0xC0 | c << 3 | i))
    for m, h, d in (('INVLPG', '0f01', 7), ('XSAVE', '0fae', 4), ('XRSTOR', '0fae', 5)):
        mem(m + ' %s', None, h, d, True)
    for d, m in enumerate(('SGDT', 'SIDT', 'LGDT', 'LIDT')):
        tail = {16: bytes([d << 3 | 6]), 32: bytes([d << 3 | 5]), 64: bytes([d << 3 | 4, 0x25])}[mode]
        add(m + ' [{0}]', lambda v, t=tail, n=2 if mode == 16 else 4: b'\x0f\x01' + t + le(v, n), F(16 if mode == 16 else 32, mode == 64, label='abs'))
    return o + branches(mode)


def optional(mode):
    """documented or meaningful, but not necessarily offered"""
    o = []

    def add(text, enc, *fields):
        o.append(Form(text, fields, enc))
    if mode != 64:
        for i in range(16):
            add(rex_name(i), const(0x40 | i))
    for i, r in enumerate(R[16]):
        add('BSWAP ' + r, const(*pre(mode, 16, None, '0f%02x' % (0xC8 | i))))
    return o


def label_forms(mode):
    """one register per mnemonic, operand size and address"""
    out = {}
    for f in forms(mode):
        if f.fields and f.tag != 'alt':
            head, _, tail = f.text.partition('[')
            regs = re.sub(r'CMOV\w+', 'CMOV', re.sub(r'\b([ER]?)(AX|[BCD]X|[SD]I|[SB]P)\b', r'\1X', head))
            out.setdefault((regs, re.sub(r'\b([ER]?)(AX|[BCD]X|[SD]I|[SB]P)$', r'\1X', tail)), f)
    return list(out.values())


MNEMONICS = NAMES
ALPHABET = [(s, ()) for s in (R[16] + R[32] + R[64] + ['AL', 'CL', 'BH', 'DS', 'CS', 'CR0', 'CR3', 'CR8', 'ST', '[', ']', '+'])] + [(s, ()) for s in (
    '[BX]', '[EBX]', '[RBX]', '[BP]', '[EBP]', '[RBP]', '[ESI]', '[DI]', '[AX]', '[ECX]', '[RSP]', '[BX + SI]', '[EBX + EDI]', '[RBP + RSI]', '[BX + ESI]', '[BP + BP]', '[EAX + EBX]', '[]', '[BX +]', '[+ BX]', '[AL]', '[BX')] + [
    ('{}', (1,)), ('{}', (3,)), ('{}', (300,)), ('{}', (70000,)), ('{}', (-1,)), ('{}', (1 << 33,)), ('[{}]', (16,)), ('[BX + {}]', (4,)), ('[EBP + {}]', (1000,)), ('[RBX + RSI + {}]', (5,))]
