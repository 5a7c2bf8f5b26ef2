"""68000 reference (M68000 programmer's reference manual)."""
from mc.forms import F, Form, be

CC = ('t', 'f', 'hi', 'ls', 'cc', 'cs', 'ne', 'eq', 'vc', 'vs', 'pl', 'mi', 'ge', 'lt', 'gt', 'le')
IMM = {'ori': 0x0000, 'andi': 0x0200, 'subi': 0x0400, 'addi': 0x0600, 'eori': 0x0A00, 'cmpi': 0x0C00}
SIZES = {'': 2, '.b': 1, '.w': 2, '.l': 4}
MOVE = {1: 1, 2: 3, 4: 2}
LIGHT = {1: 0, 2: 1, 4: 2}


class EA:
    __slots__ = ('text', 'mode', 'reg', 'kind', 'mk', 'enc')

    def __init__(self, kind, text, mode, reg, mk=None, enc=None):
        """mk(size, offset) -> field; enc(value, size) -> extension words"""
        self.kind, self.text, self.mode, self.reg, self.mk, self.enc = kind, text, mode, reg, mk, enc

    @property
    def ea(self):
        return self.mode << 3 | self.reg


def brief(x, l):
    """extension word without the displacement; x like d3 or a5"""
    return (x[0] == 'a') << 15 | int(x[1]) << 12 | l << 11


def d16(text, reg, **kw):
    return EA('d16', text, 5, reg, lambda s, o: F(16, True, label='abs', lhi=32767), lambda v, s: be(v, 2))


def eas(deep=False):
    """addressing modes; deep: every register"""
    o = []
    rs = range(8) if deep else (0, 3, 7)
    for r in rs:
        o.append(EA('dn', 'd%d' % r, 0, r))
        o.append(EA('an', 'a%d' % r, 1, r))
    for r in (range(8) if deep else (0, 6)):
        o.append(EA('ind', '(a%d)' % r, 2, r))
        o.append(EA('post', '(a%d)+' % (r + 1 & 7), 3, r + 1 & 7))
        o.append(EA('pre', '-(a%d)' % (r + 2 & 7), 4, r + 2 & 7))
    for r in (range(8) if deep else (5,)):
        o.append(d16('({0},a%d)' % r, r))
    for r, x in ([(a, b) for a in range(8) for b in ('d0', 'd7', 'a3', 'd5.w', 'a6.l', 'd1.l')] if deep else [(4, 'd1'), (7, 'a6.l')]):
        o.append(EA('d8', '({0},a%d,%s)' % (r, x), 6, r, lambda s, o: F(8, True, label='abs', lhi=127), lambda v, s, w=brief(x, x.endswith('.l')): be(w | v & 255, 2)))
    o.append(EA('absw', '({0}).w', 7, 0, lambda s, o: F(16, label='abs'), lambda v, s: be(v, 2)))
    o.append(EA('absl', '({0}).l', 7, 1, lambda s, o: F(32, label='abs'), lambda v, s: be(v, 4)))
    o.append(EA('absw', '{0}.w', 7, 0, lambda s, o: F(16, label='abs'), lambda v, s: be(v, 2)))
    o.append(EA('absl', '{0}.l', 7, 1, lambda s, o: F(32, label='abs'), lambda v, s: be(v, 4)))
    o.append(EA('absl', '{0}', 7, 1, lambda s, o: F(32, label='abs'), lambda v, s: be(v, 4)))
    o.append(EA('imm', '#{0}', 7, 4, lambda s, o: F(s * 8, label='abs'), lambda v, s: be(v & 255, 2) if s == 1 else be(v, s)))
    o.append(EA('pc16', '({0},pc)', 7, 2, lambda s, o: F(16, True, label='rel', base=2 + o), lambda v, s: be(v, 2)))
    for x in (('d0', 'd7.w', 'a2', 'a7.l') if deep else ('d2', 'a3.l')):
        o.append(EA('pc8', '({0},pc,%s)' % x, 7, 3, lambda s, o: F(8, True, label='rel', base=2 + o), lambda v, s, w=brief(x, x.endswith('.l')): be(w | v & 255, 2)))
    return o


ALTER = ('dn', 'ind', 'post', 'pre', 'd16', 'd8', 'absw', 'absl')       # data alterable
CONTROL = ('ind', 'd16', 'd8', 'absw', 'absl', 'pc16', 'pc8')


def ext_len(e, size):
    if e.mk is None:
        return 0
    return 4 if e.kind == 'absl' else max(2, size) if e.kind == 'imm' else 2


def forms(deep=False):
    o = []
    E = eas(deep)
    small = eas(False)

    def add(text, enc, *fields, **kw):
        o.append(Form(text, fields, enc, **kw))

    add('nop', lambda: be(0x4E71, 2))
    add('rts', lambda: be(0x4E75, 2))
    for suf, size in SIZES.items():
        for s in E:
            if s.kind == 'an' and size == 1:
                continue
            for d in (E if s in small or not deep else small):
                if d.kind == 'an' and size != 1:
                    w = MOVE[size] << 12 | d.reg << 9 | 1 << 6 | s.ea
                    for m in ('move', 'movea'):
                        one(o, m + suf + ' %s,' + d.text, s, size, w)
                elif d.kind in ALTER:
                    w = MOVE[size] << 12 | d.reg << 9 | d.mode << 6 | s.ea
                    two(o, 'move' + suf, s, d, size, w)
        for m, op in IMM.items():
            for d in E:
                if d.kind in ALTER:
                    two(o, m + suf, IMMEA, d, size, op | LIGHT[size] << 6 | d.ea)
            if m in ('ori', 'andi', 'eori') and size != 4:
                if suf in ('', '.b'):
                    add(m + suf + ' #{0},ccr', lambda v, op=op: be(op | 0x3C, 2) + be(v & 255, 2), F(8, label='abs'))
                if suf in ('', '.w'):
                    add(m + suf + ' #{0},sr', lambda v, op=op: be(op | 0x7C, 2) + be(v, 2), F(16, label='abs'))
    for s in {e.text: e for e in eas(True) + small}.values():
        if s.kind in CONTROL:
            one(o, 'jmp %s', s, 0, 0x4EC0 | s.ea)
            one(o, 'jsr %s', s, 0, 0x4E80 | s.ea)
            for r in range(8):
                for suf in ('', '.l'):
                    one(o, 'lea' + suf + ' %s,' + 'a%d' % r, s, 4, 0x41C0 | r << 9 | s.ea)
    for c, n in enumerate(CC):
        if c >= 2:
            for suf in ('', '.w'):
                add('b%s%s {0}' % (n, suf), lambda v, c=c: be(0x6000 | c << 8, 2) + be(v, 2), F(16, True, 2, label='rel', base=2))
            add('b%s.b {0}' % n, lambda v, c=c: be(0x6000 | c << 8 | v & 255, 2), F(8, True, 2, label='rel', base=2, ok=lambda v: v != 0))
        for nn in ((n, 'ra') if c == 1 else (n,)):
            for suf in ('', '.w'):
                for r in range(8):
                    add('db%s%s d%d,{0}' % (nn, suf, r), lambda v, c=c, r=r: be(0x50C8 | c << 8 | r, 2) + be(v, 2), F(16, True, 2, label='rel', base=2))
    return o


IMMEA = EA('imm', '#{0}', 7, 4, lambda s, o: F(s * 8, label='abs'), lambda v, s: be(v & 255, 2) if s == 1 else be(v, s))


def one(o, fmt, s, size, w):
    if s.mk is None:
        o.append(Form(fmt % s.text, (), lambda: be(w, 2)))
    else:
        o.append(Form(fmt % s.text, (s.mk(size, 0),), lambda v: be(w, 2) + s.enc(v, size)))


def two(o, m, s, d, size, w):
    a = s.mk is not None
    b = d.mk is not None
    dt = d.text.replace('{0}', '{1}') if a else d.text
    fields = ([s.mk(size, 0)] if a else []) + ([d.mk(size, ext_len(s, size))] if b else [])

    def enc(*v):
        out = be(w, 2)
        if a:
            out += s.enc(v[0], size)
        if b:
            out += d.enc(v[-1], size)
        return out
    o.append(Form('%s %s,%s' % (m, s.text, dt), fields, enc, light=not (m in ('move.b', 'move.l', 'ori', 'cmpi.b', 'addi.l') and (s.kind in ('dn', 'imm', 'pc16') or d.kind == 'dn'))))


def optional():
    """other spellings of the same instructions"""
    o = []
    E = eas(False)
    for c, n in enumerate(CC):
        if c >= 2:
            o.append(Form('b%s.s {0}' % n, (F(8, True, 2, ok=lambda v: v != 0),), lambda v, c=c: be(0x6000 | c << 8 | v & 255, 2)))
    for s in E:
        for d in E:
            if d.kind == 'an':
                for m, op in (('adda', 0xD0C0), ('suba', 0x90C0), ('cmpa', 0xB0C0)):
                    one(o, m + ' %s,' + d.text, s, 2, op | d.reg << 9 | s.ea)
    return o


MNEMONICS = [m + s for m in ('move',) + tuple(IMM) for s in SIZES] + ['movea', 'movea.w', 'movea.l', 'lea', 'lea.l', 'jmp', 'jsr', 'nop', 'rts', 'bne', 'bhi.b', 'ble.w', 'dbra', 'dbt', 'dbeq.w', 'dbf.w']
ALPHABET = [(e.text.replace('{0}', '{}'), (v,) if e.mk else ()) for e in eas(False) for v in ((6,) if e.kind not in ('imm', 'd16', 'absw') else (6, 200, 40000, 70000))] + [
    (t, ()) for t in ('ccr', 'sr', 'pc', '(pc)', '(pc)+', '(d0)', '(d0)+', '-(d0)', '-d0', 'a0+', '()', '(', ')', '-', '#', 'a8', 'd8', '(a8)', '(a0,d0)', '(a0,a1)', '(sr)')] + \
    [('({},d0)', (6,)), ('({},a0', (6,)), ('({},a0,a1,a2)', (6,)), ('{}(a0)', (6,)), ('({})', (6,)), ('({}).b', (6,)), ('({},a0,d0.b)', (6,)), ('({},a0,pc)', (6,)), ('({},a0)+', (6,)), ('-({},a0)', (6,)), ('({},pc)+', (6,)), ('({},{},a0)', (6, 6)), ('(#{},a0)', (6,)), ('(a0,{})', (6,)), ('{}.b', (6,))]
