"""6502 reference: the official 151 opcodes by mnemonic and addressing mode (MCS6500 programming manual)."""
from mc.forms import F, Form, const, le

IMPL = {'BRK': 0x00, 'PHP': 0x08, 'CLC': 0x18, 'PLP': 0x28, 'SEC': 0x38, 'RTI': 0x40, 'PHA': 0x48, 'CLI': 0x58, 'RTS': 0x60, 'PLA': 0x68, 'SEI': 0x78, 'DEY': 0x88, 'TXA': 0x8A, 'TYA': 0x98, 'TXS': 0x9A,
        'TAY': 0xA8, 'TAX': 0xAA, 'CLV': 0xB8, 'TSX': 0xBA, 'INY': 0xC8, 'DEX': 0xCA, 'CLD': 0xD8, 'INX': 0xE8, 'NOP': 0xEA, 'SED': 0xF8}
REL = {'BPL': 0x10, 'BMI': 0x30, 'BVC': 0x50, 'BVS': 0x70, 'BCC': 0x90, 'BCS': 0xB0, 'BNE': 0xD0, 'BEQ': 0xF0}
MODES = {}
for i, m in enumerate(('ORA', 'AND', 'EOR', 'ADC', 'STA', 'LDA', 'CMP', 'SBC')):
    a = i << 5
    MODES[m] = {'indx': a | 0x01, 'zp': a | 0x05, 'imm': a | 0x09, 'abs': a | 0x0D, 'indy': a | 0x11, 'zpx': a | 0x15, 'absy': a | 0x19, 'absx': a | 0x1D}
del MODES['STA']['imm']
for i, m in enumerate(('ASL', 'ROL', 'LSR', 'ROR')):
    a = i << 5
    MODES[m] = {'zp': a | 0x06, 'acc': a | 0x0A, 'abs': a | 0x0E, 'zpx': a | 0x16, 'absx': a | 0x1E}
MODES['STX'] = {'zp': 0x86, 'abs': 0x8E, 'zpy': 0x96}
MODES['LDX'] = {'imm': 0xA2, 'zp': 0xA6, 'abs': 0xAE, 'zpy': 0xB6, 'absy': 0xBE}
MODES['DEC'] = {'zp': 0xC6, 'abs': 0xCE, 'zpx': 0xD6, 'absx': 0xDE}
MODES['INC'] = {'zp': 0xE6, 'abs': 0xEE, 'zpx': 0xF6, 'absx': 0xFE}
MODES['BIT'] = {'zp': 0x24, 'abs': 0x2C}
MODES['JMP'] = {'abs': 0x4C, 'ind': 0x6C}
MODES['JSR'] = {'abs': 0x20}
MODES['STY'] = {'zp': 0x84, 'abs': 0x8C, 'zpx': 0x94}
MODES['LDY'] = {'imm': 0xA0, 'zp': 0xA4, 'abs': 0xAC, 'zpx': 0xB4, 'absx': 0xBC}
MODES['CPY'] = {'imm': 0xC0, 'zp': 0xC4, 'abs': 0xCC}
MODES['CPX'] = {'imm': 0xE0, 'zp': 0xE4, 'abs': 0xEC}
assert len(IMPL) + len(REL) + sum(len(v) for v in MODES.values()) == 151


def memory(zp, ab):
    """zero page exactly when the known address is below 256"""
    def enc(v, known=True):
        v &= 0xFFFF
        if zp is not None and v < 256 and known:
            return bytes([zp, v])
        if ab is None:
            return None
        return bytes([ab]) + le(v, 2)
    return enc


def forms():
    out = []
    for m, op in IMPL.items():
        out.append(Form(m, (), const(op), tag='implied'))
    for m, op in REL.items():
        out.append(Form(m + ' {0}', (F(8, True, label='rel', base=2),), lambda v, op=op: bytes([op]) + le(v, 1), tag='rel'))
    for m, md in MODES.items():
        if 'acc' in md:
            out.append(Form(m + ' A', (), const(md['acc']), tag='acc'))
        if 'imm' in md:
            out.append(Form(m + ' #{0}', (F(8, label='abs'),), lambda v, op=md['imm']: bytes([op]) + le(v, 1), tag='imm'))
        for suffix, text in (('', '{0}'), ('x', '{0},X'), ('y', '{0},Y')):
            zp, ab = md.get('zp' + suffix), md.get('abs' + suffix)
            if zp is None and ab is None:
                continue
            only = None if ab is not None else (lambda v: 0 <= v < 256)
            out.append(Form(m + ' ' + text, (F(16, label='abs', ok=only, lhi=255 if ab is None else None, values=(255, 256, 257, 0x100FF)),), memory(zp, ab), wants_known=True, tag='mem' + suffix))
        if 'ind' in md:
            out.append(Form(m + ' ({0})', (F(16, label='abs'),), memory(None, md['ind']), wants_known=True, tag='ind'))
        if 'indx' in md:
            out.append(Form(m + ' ({0},X)', (F(16, label='abs', ok=lambda v: 0 <= v < 256, lhi=255, values=(255, 256)),), memory(md['indx'], None), wants_known=True, tag='indx'))
            out.append(Form(m + ' ({0}),Y', (F(16, label='abs', ok=lambda v: 0 <= v < 256, lhi=255, values=(255, 256)),), memory(md['indy'], None), wants_known=True, tag='indy'))
    return out


SHAPES = {'': 'none', 'A': 'acc', '#7': 'imm', '7': 'zp', '300': 'abs', '7,X': 'zpx', '300,X': 'absx', '7,Y': 'zpy', '300,Y': 'absy', '(300)': 'ind', '(7)': 'ind', '(7,X)': 'indx', '(7),Y': 'indy',
          '(300,X)': None, '(300),Y': None, '(7,Y)': None, '(7),X': None, '(7,X),Y': None, '#7,X': None, '#7,Y': None, '7,7': None, '7,X,Y': None, '7,A': None, '(#7)': None, '(7': None, '7)': None, '()': None, '(7))': None, '((7))': None, '[7]': None, '#': None,
          '7,X,7': None, '#7 #7': None, 'A,X': None, 'A 7': None, '(A': None, '(7,X': None, '7 7 7': None, '#256': None, '#-129': None, '65536': None, '-32769': None, '65536,X': None}


def cases():
    """mnemonic x operand shape, accepted exactly when the processor has the mode"""
    out = []
    for m in list(IMPL) + list(REL) + list(MODES):
        for text, mode in SHAPES.items():
            exp = None
            s = m + ' ' + text
            if m in IMPL:
                exp = bytes([IMPL[m]]) if mode == 'none' else None
            elif m in REL:
                exp = bytes([REL[m], 7]) if text == '7' else None
            elif mode and mode not in ('none', 'acc', 'imm', 'ind', 'indx', 'indy'):
                v = 7 if text.startswith('7') else 300
                wide = mode.replace('zp', 'abs')
                if v < 256 and mode in MODES[m]:
                    exp = bytes([MODES[m][mode], v])
                elif wide in MODES[m]:
                    exp = bytes([MODES[m][wide]]) + le(v, 2)
            elif mode in MODES[m]:
                op = MODES[m][mode]
                exp = {'acc': bytes([op]), 'imm': bytes([op, 7]), 'ind': bytes([op]) + le(300 if '3' in text else 7, 2), 'indx': bytes([op, 7]), 'indy': bytes([op, 7])}[mode]
            # a lone bracket, sign or register name in address position reads as a (yet undefined) label
            out.append((s, exp))
    return out
