"""Reference model of label references and linking, for the toy processor of mc.impl."""
import re

OPS = {'LDI': (b'\xA1', [(1, 8, 'abs')]), 'ADD': (b'\x6D', [(1, 8, 'abs'), (1, 8, 'abs')]), 'JP': (b'\x4C', [(2, 16, 'abs')]),
       'BR': (b'\x80', [(1, 8, 'rel')]), 'BRL': (b'\x82', [(2, 16, 'rel')]), 'NOP': (b'\xEA', [])}
DATA = {'.db': 1, '.byte': 1, '.dw': 2, '.word': 2, '.dd': 4, '.dl': 4, '.dword': 4}
NUM = re.compile(r'^(\$[0-9A-Fa-f]+|-?[0-9]+)$')


class Fault(Exception):
    """a refusal; .names: the label names of which one must be named; .when: 'asm' or 'link'"""

    def __init__(self, names):
        super().__init__(names)
        self.names = names


def num(t):
    return int(t[1:], 16) if t[0] == '$' else int(t)


class Model:
    def __init__(self, big=False):
        self.big = big
        self.org = self.ctr = 0
        self.img = bytearray()
        self.labels = {}
        self.refs = []       # (kind, pos, size, bits, expr, base)

    @property
    def pc(self):
        return self.org + self.ctr

    def emit(self, b):
        self.img += b
        self.ctr += len(b)

    def value(self, expr, base=0):
        """strict left to right, selectors on the first operand; base is subtracted from the first label"""
        sel = expr[:len(expr) - len(expr.lstrip('<>'))]
        parts = re.split(r'([-+*/&|])', expr[len(sel):])
        if parts[0] == '':           # sign of the first number
            parts = [parts[1] + parts[2]] + parts[3:]
        if NUM.match(parts[0]):
            v = num(parts[0])
        elif parts[0] in self.labels:
            v = self.labels[parts[0]] - base
        else:
            raise Fault([parts[0]])
        v >>= 8 * sel.count('>')
        if '<' in sel:
            v &= (1 << (8 * sel.count('<'))) - 1
        for op, t in zip(parts[1::2], parts[2::2]):
            if t == '':
                n = 1
            elif NUM.match(t):
                n = num(t)
            elif t in self.labels:
                n = self.labels[t]
            else:
                raise Fault([t])
            if op == '/' and n == 0:
                raise Fault([expr])
            v = {'+': lambda: v + n, '-': lambda: v - n, '*': lambda: v * n, '/': lambda: v // n, '&': lambda: v & n, '|': lambda: v | n}[op]()
        return v

    def stmt(self, s):
        if s.endswith(':'):
            if s[:-1] in self.labels:
                raise Fault([s[:-1]])
            self.labels[s[:-1]] = self.pc
            return
        op, *args = s.split()
        if op == '.org':
            self.org, self.ctr = num(args[0]), 0
        elif op == '.fill':
            self.emit(bytes([num(args[1]) if len(args) > 1 else 0]) * num(args[0]))
        elif op == '.ram':
            self.ctr += num(args[0])
        elif op in DATA:
            for a in args:
                self.refs.append(('field', len(self.img), DATA[op], 8 * DATA[op], a, None))
                self.emit(bytes(DATA[op]))
        elif op in ('.db_to_ascii', '.dw_to_ascii', '.db_to_asciiz', '.dw_to_asciiz'):
            bits, n = (8, 3) if op[2] == 'b' else (16, 5)
            for a in args:
                self.refs.append(('text', len(self.img), n, bits, a, None))
                self.emit(bytes(n))
            if op.endswith('z'):
                self.emit(b'\0')
        elif op == 'JQ':
            self.refs.append(('jq', len(self.img), 4, 26, args[0], None))
            self.emit(bytes(4))
        elif op == 'TW':
            pos = len(self.img)
            self.refs.append(('bits', pos, 12, 12, args[0], None))
            self.refs.append(('bits', pos, 0, 12, args[1], self.pc + 4))
            self.emit((0x12 << 24).to_bytes(4, 'big' if self.big else 'little'))
        else:
            code, fields = OPS[op]
            size = len(code) + sum(f[0] for f in fields)
            pos = len(self.img) + len(code)
            for a, (n, bits, kind) in zip(args, fields):
                self.refs.append(('field', pos, n, bits, a, self.pc + size if kind == 'rel' else None))
                pos += n
            self.emit(code + bytes(size - len(code)))

    def faults(self):
        out = []
        for ref in self.refs:
            try:
                self.resolve(ref)
            except Fault as f:
                out += f.names
        return out

    def resolve(self, ref):
        kind, pos, size, bits, expr, base = ref
        v = self.value(expr, base or 0)
        if base is not None and not -(1 << (bits - 1)) <= v < (1 << (bits - 1)):
            raise Fault([expr])
        if base is None and not 0 <= v < (1 << bits):
            raise Fault([expr])
        if kind == 'jq':
            if v % 4:
                raise Fault([expr])
            v = (0x11 << 26) | v
        if kind == 'bits':
            return pos, ((v & 0xFFF) << size).to_bytes(4, 'big' if self.big else 'little')
        if kind == 'text':
            return pos, ('%0*d' % (size, v)).encode()
        return pos, (v & ((1 << (8 * size)) - 1)).to_bytes(size, 'big' if self.big else 'little')

    def link(self):
        f = self.faults()
        if f:
            raise Fault(f)
        img = bytearray(self.img)
        for ref in self.refs:
            pos, b = self.resolve(ref)
            img[pos:pos + len(b)] = [x | y for x, y in zip(img[pos:pos + 4], b)] if ref[0] == 'bits' else b
        return bytes(img)


def predict(stmts, big=False):
    """('ok', image, model) or ('asm', names, index) or ('link', names, model)"""
    m = Model(big)
    for i, s in enumerate(stmts):
        try:
            m.stmt(s)
        except Fault as f:
            return 'asm', f.names, i
    try:
        return 'ok', m.link(), m
    except Fault as f:
        return 'link', f.names, m
