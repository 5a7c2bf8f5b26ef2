"""C10: layout directives - every statement sequence up to a depth, stepped against a layout model."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, impl


class Reject(Exception):
    pass


class Layout:
    """reference model of the location counter"""

    def __init__(self, fill):
        self.fv = fill
        self.org = self.ctr = 0
        self.end = None
        self.img = []

    @property
    def pc(self):
        return self.org + self.ctr

    def emit(self, n, v):
        self.img += [v] * n
        self.ctr += n

    def overrun(self):
        if self.end is not None and self.pc > self.end + 1:
            raise Reject()

    def do(self, op, *a):
        getattr(self, op)(*a)

    def o(self, start, end=None):
        if end is not None and end < start:
            raise Reject()
        if self.end is not None:
            self.overrun()
            if start <= self.org or start < self.pc:
                raise Reject()
            self.emit(min(start, self.end + 1) - self.pc, self.fv)
        self.org, self.end, self.ctr = start, end, 0

    def here(self):
        pass

    def align(self, n):
        if n < 1:
            raise Reject()
        while self.pc % n:
            self.emit(1, self.fv)

    def goto(self, to, v=None):
        if to < self.pc or (v is not None and not -128 <= v <= 255):
            raise Reject()
        self.emit(to - self.pc, self.fv if v is None else v & 255)

    def upto(self, to, v=None):
        if to < self.ctr or (v is not None and not -128 <= v <= 255):
            raise Reject()
        self.emit(to - self.ctr, self.fv if v is None else v & 255)

    def fill(self, n, v=None):
        if n < 0 or (v is not None and not -128 <= v <= 255):
            raise Reject()
        self.emit(n, self.fv if v is None else v & 255)

    def ram(self, n):
        if n < 1:
            raise Reject()
        self.ctr += n

    def db(self, *v):
        for x in v:
            self.emit(1, x)

    def dw(self, v):
        self.emit(1, v & 255)
        self.emit(1, v >> 8)

    def nop(self):
        self.emit(1, 0xEA)

    def bad(self):
        raise Reject()

    def finish(self):
        """end of a source"""
        if self.end is not None:
            self.overrun()
            self.emit(self.end + 1 - self.pc, self.fv)


def S(text, *op):
    return (text, op)


FULL = [S('.org 0', 'o', 0), S('.org 4', 'o', 4), S('.org $8', 'o', 8), S('.org 4 7', 'o', 4, 7), S('.org 8 11', 'o', 8, 11), S('.org 2, 2', 'o', 2, 2),
        S('.org 5 4', 'o', 5, 4), S('.org 6 %1001', 'o', 6, 9), S('.align 4', 'align', 4), S('.align 3', 'align', 3), S('.align 1', 'align', 1),
        S('.goto 6', 'goto', 6), S('.goto $C $EE', 'goto', 12, 0xEE), S('.goto 9', 'goto', 9), S('.upto 5', 'upto', 5), S('.upto 3 7', 'upto', 3, 7), S('.upto 4', 'upto', 4),
        S('.fill 1', 'fill', 1), S('.fill 3 $77', 'fill', 3, 0x77), S('.fill 0', 'fill', 0), S('.fill 2 -1', 'fill', 2, -1), S('.ram 1', 'ram', 1), S('.ram 3', 'ram', 3),
        S('.db $A1', 'db', 0xA1), S('.db 1 2 3 4', 'db', 1, 2, 3, 4), S('.dw $1234', 'dw', 0x1234), S('NOP', 'nop'), S('.upto 4 0', 'upto', 4, 0), S('.goto 11 0', 'goto', 11, 0), S('.fill 2 0', 'fill', 2, 0)]
BAD = [S('.org', 'bad'), S('.org x', 'bad'), S('.org 4 x', 'bad'), S('.org 1 2 3', 'bad'), S('.align', 'bad'), S('.align 0', 'bad'), S('.align -4', 'bad'), S('.align x', 'bad'),
       S('.goto', 'bad'), S('.goto x', 'bad'), S('.goto 40 256', 'bad'), S('.goto 40 y', 'bad'), S('.goto 40 1 2', 'bad'), S('.upto', 'bad'), S('.upto x', 'bad'), S('.upto 40 -129', 'bad'), S('.upto 40 1 1', 'bad'),
       S('.fill', 'bad'), S('.fill x', 'bad'), S('.fill -1', 'bad'), S('.fill 1 300', 'bad'), S('.fill 1 2 3', 'bad'), S('.ram', 'bad'), S('.ram 0', 'bad'), S('.ram -1', 'bad'), S('.ram x', 'bad'), S('.ram 1 1', 'bad')]
pick = lambda *ts: [s for s in FULL if s[0] in ts]
MID = pick('.org 4', '.org $8', '.org 4 7', '.org 8 11', '.org 6 %1001', '.align 4', '.goto 9', '.upto 5', '.ram 1', '.db $A1', '.fill 3 $77')
BOUND = pick('.org 4 7', '.org 8 11', '.org $8', '.ram 1', '.db $A1', '.align 4', '.goto 9')
# a section with an address is a new origin without an end, one without an address changes nothing
SECT = [S('.section s# R', 'here'), S('.section s# RW 4', 'o', 4), S('.section "s#" RWX $8', 'o', 8), S('.section s# X 0', 'o', 0), S('.section s# E 9', 'o', 9)] + pick('.org 4 7', '.org 8 11', '.org $8', '.upto 5', '.upto 3 7', '.ram 3', '.db $A1', '.align 4', '.goto 9', '.fill 3 $77')
BIG = [S('.org $FFFE', 'o', 0xFFFE), S('.org $FFF0 $FFFF', 'o', 0xFFF0, 0xFFFF), S('.org $10000', 'o', 0x10000), S('.org $7FFFFFF0', 'o', 0x7FFFFFF0), S('.org $1000000000 $100000000F', 'o', 1 << 36, (1 << 36) + 15),
       S('.align 256', 'align', 256), S('.align $1000', 'align', 4096), S('.fill 255', 'fill', 255), S('.fill 300 9', 'fill', 300, 9), S('.ram $10000', 'ram', 65536), S('.upto 256', 'upto', 256), S('.goto $10002', 'goto', 0x10002), S('.goto $FFFF', 'goto', 0xFFFF), S('.db 1', 'db', 1)]


def one(ctx, C, fill, seq, labels=True):
    """run seq as one source and compare image and every label (or the first rejection)"""
    m = Layout(fill)
    lines, addrs, bad = [], {}, None
    for i, (t, op) in enumerate(seq):
        if labels:
            lines.append('L%d:' % i)
            addrs['L%d' % i] = m.pc
        lines.append(t.replace('#', str(i)))
        try:
            m.do(*op)
        except Reject:
            bad = len(lines)
            break
    if bad is None:
        lines.append('E:')
        addrs['E'] = m.pc
        try:
            m.finish()
        except Reject:
            bad = 0
    else:
        lines.append('NOP')
    src = '\n'.join(lines)
    o = impl.run(C, src)
    ctx.trace()
    ctx.step(len(seq))
    if bad is not None:
        ctx.state(('rej', bad, len(m.img)))
        if o.kind != 'asm-error':
            ctx.fail(src.replace('\n', ' | '), 'rejected' + (' at line %d' % bad if bad else ''), impl.brief(o), src)
        elif bad and ('line %d:' % bad) not in str(o.exc):
            ctx.fail(src.replace('\n', ' | '), 'a diagnostic naming line %d' % bad, impl.brief(o), src)
        return
    ctx.state((m.org, m.end, m.ctr, bytes(m.img)))
    if o.kind != 'ok' or o.data != bytes(m.img):
        ctx.fail(src.replace('\n', ' | '), bytes(m.img), impl.brief(o), src)
        return
    got = {k: o.asm.get_label_absolute_address_by_name(k) for k in addrs}
    if got != addrs:
        ctx.fail(src.replace('\n', ' | '), addrs, got, src)


def cls(fill):
    return impl.toy(fill_value=fill)


def explore(ctx, alpha, first, depth, fill, uniq):
    C = cls(fill)
    for rest in itertools.product(alpha, repeat=depth - len(first)):
        one(ctx, C, fill, tuple(first) + rest)
    ctx.sample({'alphabet': [a[0] for a in alpha][:6], 'first': [f[0] for f in first], 'depth': depth}, 1)


def chunked(ctx, first):
    """every statement in its own assemble() call: an open bounded region is closed at each end of source"""
    C = cls(0x5A)
    alpha = MID + BAD[:3]
    for rest in itertools.product(alpha, repeat=2):
        m = Layout(0x5A)
        a = C()
        seq = (first,) + rest
        for i, (t, op) in enumerate(seq):
            try:
                m.do(*op)
                exp = 'ok'
                m_img = list(m.img)
                m.finish()
            except Reject:
                exp = 'rejected'
            core.arm()
            try:
                a.assemble(t)
                got = 'ok'
            except impl.asm_error():
                got = 'rejected'
            ctx.step()
            sig = 'calls: ' + ' | '.join(x[0] for x in seq[:i + 1])
            if (exp, m.pc, bytes(m.img)) != (got, a.pc, bytes(a.assembled_bytes)):
                ctx.fail(sig, (exp, m.pc, bytes(m.img)), (got, a.pc, bytes(a.assembled_bytes)))
                break
            ctx.state(('c', m.org, m.end, m.ctr, bytes(m.img), exp))
        ctx.trace()


def bads(ctx, b):
    C = cls(0)
    for pre in ((), (FULL[3],), (FULL[1],), (FULL[22],), (FULL[24],)):
        one(ctx, C, 0, pre + (b,))
        one(ctx, C, 0, pre + (FULL[23], b))


def arithmetic(ctx, fill):
    """every amount of every directive that moves forward, from every near address"""
    C = cls(fill)
    sizes = list(range(1, 41)) + [48, 60, 63, 64, 65, 96, 100, 127, 128, 129, 192, 255, 256, 257, 384, 640, 1000, 1023, 1024, 1536, 4096, 4097]
    for n in sizes:
        for start in sorted({0, 1, 2, n - 1, n, n + 1, 2 * n, 3 * n - 1, 3 * n + 2, 0x100, 0x1234}):
            for between in ((), (S('.db 1', 'db', 1),), (S('.ram 3', 'ram', 3), S('.db 5', 'db', 5))):
                one(ctx, C, fill, (S('.org %d' % start, 'o', start),) + between + (S('.align %d' % n, 'align', n), S('.db 9', 'db', 9), S('.align %d' % n, 'align', n)))
    for start in (0, 1, 5, 0x80, 0xFFF9):
        for k in (0, 1, 2, 6):
            for v in list(range(0, 24)) + [127, 128, 255, 256, 300]:
                for end in (0, 8, 40):
                    head = (S('.org %d' % start, 'o', start),) if not end else (S('.org %d %d' % (start, start + end), 'o', start, start + end),)
                    head += (S('.fill %d 3' % k, 'fill', k, 3),)
                    for last in ((S('.goto %d' % (start + v), 'goto', start + v),), (S('.goto %d $77' % (start + v), 'goto', start + v, 0x77),), (S('.upto %d' % v, 'upto', v),), (S('.upto %d 8' % v, 'upto', v, 8),),
                                 (S('.fill %d' % v, 'fill', v),), (S('.fill %d %d' % (v, v & 255), 'fill', v, v & 255),), (S('.ram %d' % v, 'ram', v),) if v else (), (S('.org %d' % (start + v), 'o', start + v),),
                                 (S('.org %d %d' % (start + v, start + v + 3), 'o', start + v, start + v + 3),)):
                        one(ctx, C, fill, head + last + (S('.db 9', 'db', 9),))


def filled(ctx):
    """the fill value may be chosen on the class or on the object, before anything or between two sources"""
    C = cls(0x11)
    srcs = ['.org 3 9\n.db 1', '.org 3 9\n.db 1\n.org 12\n.db 2', '.fill 3', '.db 1\n.upto 6', '.db 1\n.goto 6', '.db 1\n.align 8', '.org 2 7\n.fill 2\n.align 4', '.org 2 7', '.section s RX\n.org 4 8\n.db 1\n.fill 2', '.repeat 2\n.db 1\n.align 4\n.endrepeat']
    ref = {}
    for v in (0, 0x11, 0x22, 0xFF):
        K = cls(v)
        for s in srcs:
            core.arm()
            o = impl.run(K, s)
            ref[v, s] = o.data
            ctx.state((v, s, o.data))
    for v in (0, 0x22, 0xFF):
        for s in srcs:
            core.arm()
            a = C()
            a.fill_value = v
            a.assemble(s)
            a.link()
            ctx.trace()
            ctx.step()
            if bytes(a.assembled_bytes) != ref[v, s] or C.fill_value != 0x11:
                ctx.fail('fill_value = %d on the object: %s' % (v, s), ref[v, s], bytes(a.assembled_bytes), s)
            for s2 in srcs:
                # chosen between two sources: the first keeps the class's, the second has the new one (labels and addresses start over with .org)
                core.arm()
                a, b = C(), cls(v)()
                b.fill_value = 0x11
                a.assemble(s)
                b.assemble(s)
                a.fill_value = v
                b.fill_value = v
                mid = len(a.assembled_bytes)
                outs = []
                for x in (a, b):
                    try:
                        x.assemble('.org $100\n' + s2 if '.org' not in s2 else s2)
                        x.link()
                        outs.append(bytes(x.assembled_bytes))
                    except impl.asm_error() as e:
                        outs.append('refused')
                ctx.trace()
                ctx.step(2)
                ctx.state((v, s, s2, outs[0]))
                if outs[0] != outs[1] or bytes(a.assembled_bytes[:mid]) != ref[0x11, s]:
                    ctx.fail('fill_value = %d between %s and %s' % (v, s, s2), (ref[0x11, s], outs[1]), outs[0], s + ' || ' + s2)


def large(ctx, fill):
    """hundreds of statements and regions, megabytes of padding, addresses up to the last one"""
    C = cls(fill)
    for n in (3, 50, 300):
        # consecutive, spaced and shrinking regions
        one(ctx, C, fill, tuple(x for i in range(n) for x in (S('.org %d %d' % (16 * i, 16 * i + 7), 'o', 16 * i, 16 * i + 7), S('.db %d' % (i & 255), 'db', i & 255))))
        one(ctx, C, fill, tuple(x for i in range(n) for x in (S('.org %d %d' % (8 * i, 8 * i + 7), 'o', 8 * i, 8 * i + 7), S('.ram 3', 'ram', 3), S('.dw $1234', 'dw', 0x1234))))
        one(ctx, C, fill, tuple(x for i in range(n) for x in (S('.org %d' % (5 * (n - i)), 'o', 5 * (n - i)), S('.db 7', 'db', 7), S('.align 4', 'align', 4))))
        one(ctx, C, fill, tuple(x for i in range(1, n) for x in (S('.goto %d' % (11 * i), 'goto', 11 * i), S('.db 1 2', 'db', 1, 2), S('.ram 2', 'ram', 2), S('.align %d' % (i % 7 + 1), 'align', i % 7 + 1) if i % 3 == 0 else S('.fill 0', 'fill', 0))))
        one(ctx, C, fill, tuple(x for i in range(1, n) for x in (S('.upto %d' % (6 * i), 'upto', 6 * i), S('.fill %d %d' % (i % 6, i & 255), 'fill', i % 6, i & 255))))
    for n in (255, 256, 65535, 65536, 70000, 300000):
        for head in ((), (S('.org 5', 'o', 5),), (S('.org $100 $FFFFF', 'o', 0x100, 0xFFFFF),)):
            for s in (S('.fill %d' % n, 'fill', n), S('.fill %d 9' % n, 'fill', n, 9), S('.goto %d' % n, 'goto', n), S('.goto %d 9' % n, 'goto', n, 9), S('.upto %d' % n, 'upto', n), S('.ram %d' % n, 'ram', n), S('.align %d' % n, 'align', n)):
                if ctx.thorough or len(head) == 0 or n in (256, 70000):
                    one(ctx, C, fill, head + (S('.db 1', 'db', 1), s, S('.db 2', 'db', 2)))
    for k in (16, 31, 32, 33, 40, 48, 62, 63):
        for a in ((1 << k) - 5, 1 << k, (1 << k) + 1, (1 << k) + 12345):
            for n in (3, 5, 6, 7, 10, 12, 24, 48, 100, 255, 1000):
                one(ctx, C, fill, (S('.org %d' % a, 'o', a), S('.db 1', 'db', 1), S('.align %d' % n, 'align', n), S('.db 2', 'db', 2)))
    for k in (15, 16, 23, 24, 31, 32, 33, 47, 48, 62, 63):
        for a in ((1 << k) - 2, (1 << k) - 1, 1 << k, (1 << k) + 1):
            for tail in ((S('.db 1 2 3 4', 'db', 1, 2, 3, 4), S('.align 8', 'align', 8)), (S('.ram 9', 'ram', 9), S('.goto %d' % (a + 20), 'goto', a + 20)), (S('.org %d %d' % (a + 4, a + 9), 'o', a + 4, a + 9), S('NOP', 'nop'))):
                one(ctx, C, fill, (S('.org %d' % a, 'o', a),) + tail)
                one(ctx, C, fill, (S('.org %d %d' % (a, a + 3), 'o', a, a + 3),) + tail)


def shards(tier):
    out = [('bad-' + b[0], bads, (b,)) for b in BAD]
    out.append(('filled', filled, ()))
    for f in (0, 0xFF):
        out.append(('arithmetic %d' % f, arithmetic, (f,)))
        out.append(('large %d' % f, large, (f,)))
    for a in FULL:
        out.append(('full3 ' + a[0], explore, (FULL, (a,), 3, 0xFF, True)))
    for a in SECT:
        out.append(('sections ' + a[0], explore, (SECT, (a,), 4 if tier == 'quick' else 5, 0xFF, True)))
    for a in MID:
        out.append(('mid5 ' + a[0], explore, (MID, (a,), 5 if tier == 'thorough' else 4, 0x5A, True)))
        out.append(('chunk ' + a[0], chunked, (a,)))
    for a in BOUND:
        out.append(('bound5 ' + a[0], explore, (BOUND, (a,), 6 if tier == 'quick' else 7, 0, True)))
    for a in BIG:
        out.append(('big3 ' + a[0], explore, (BIG, (a,), 3 if tier == 'quick' else 4, 0, True)))
    if tier == 'thorough':
        for a, b in itertools.product(FULL, FULL):
            out.append(('full4 %s %s' % (a[0], b[0]), explore, (FULL, (a, b), 4, 1, True)))
    return out


if __name__ == '__main__':
    core.main('C10', shards, rule='all sequences: 30-statement alphabet depth 3 (4 thorough), 11-statement depth 4 (5), 7-statement bounded-region alphabet depth 6 (7), sections with and without an address mixed with origins depth 4 (5), large addresses depth 3 (4), .align by 62 sizes and every amount of the others from near and far addresses, one-call-per-statement depth 3, all rejected statement shapes',
              assumptions=['.upto counts from the current origin', 'an unbounded .org never pads', 'a bounded region is closed at the end of each outermost source', 'overrunning a bounded region is reported at the latest at the next .org or at the end of the source'])
