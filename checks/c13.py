"""C13: malformed statements - every short operand sequence for every mnemonic of every processor and every directive."""
import contextlib
import io
import itertools
import os
import re
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, impl

VOCAB = {
    'mos6502': ['#5', '#', '5', '300', '(', ')', 'x', 'Y', 'A', 'nolab', '#nolab', "'", '-1', '$zz'],
    'lr35902': ['A', 'hl', '(', ')', 'HL+', 'SP', 'NZ', '5', '300', '-1', 'nolab', '$FF00+C', '$zz', 'AF', '70000'],
    'z80': ['A', 'hl', '(', ')', 'IX', '(', 'IY+5', 'NZ', '5', '300', '-1', 'nolab', "AF'", '$zz', '70000', 'IX+nolab'],
    'i8086': ['ax', 'BL', '[', ']', 'bx+si', 'WORD', 'BYTE', '5', '300', '-1', 'nolab', 'ds', '0xzz', '70000', 'far'],
    'mips32': ['$t0', '$4', '5', '-1', 'nolab', '(', ')', '$f0', '70000', '$zz', '0xzz', '$sp', '4294967296'],
    'm68k': ['d0', 'A1', '(', ')', '-', '+', '#5', '#nolab', 'nolab', '$1234', '-5', 'sr', '#70000', 'd0-d3', '$zz', 'PC'],
    'thumb': ['r0', 'R9', '[', ']', '#4', '#5', '{', '}', 'nolab', 'sp', 'pc', '#nolab', '#-1', '#70000', 'r1-r3', '0xzz'],
    'ppc': ['r3', 'f1', '5', '-1', 'nolab', '(', ')', 'cr1', '70000', '0xzz', '4294967296', 'sp'],
    'x86': ['rax', 'EBX', 'cl', '[', ']', 'rbx+8', 'DWORD', 'BYTE', '5', '300', '-1', 'nolab', '0xzz', '70000', '4294967296'],
}
VOCAB['gameboy'] = VOCAB['lr35902'][:6]
DIRECTIVES = ['org', 'include', 'incbin', 'inccsv', 'inccsv_le16', 'incjson', 'define', 'db', 'byte', 'dw', 'word', 'dd', 'dl', 'dword', 'db_to_ascii', 'dw_to_ascii', 'db_to_asciiz', 'dw_to_asciiz',
              'fill', 'ram', 'log', 'align', 'repeat', 'endrepeat', 'goto', 'upto', 'section', 'export', 'macro', 'endmacro']
CTX = 'some file.s'


def snapshot(a):
    return (bytes(a.assembled_bytes), a.pc, {k: a.get_label_absolute_address_by_name(k) for k in a.labels})


class Tester:
    """feeds statements to one assembler; a rejected one must change nothing"""

    def __init__(self, ctx, cls, name):
        self.ctx, self.cls, self.name = ctx, cls, name
        self.AE = impl.asm_error()
        self.count = 0
        self.new()

    def new(self):
        self.a = self.cls()
        self.a.assemble('.dw 0')
        self.before = snapshot(self.a)
        self.pending = []

    def stmt(self, s):
        ctx = self.ctx
        self.count += 1
        if self.count % 64 == 0:
            core.arm()
        ctx.step()
        ctx.notes['current'] = s
        try:
            self.a.assemble(s, CTX)
        except self.AE as e:
            msg = str(e)
            if 'line 1' not in msg or CTX not in msg:
                ctx.fail('%s: %s' % (self.name, s), 'a diagnostic naming line 1 of %r' % CTX, msg)
            if len(self.a.assembled_bytes) != len(self.before[0]) or snapshot(self.a) != self.before:
                ctx.fail('%s: %s' % (self.name, s), ('rejected without a trace', self.before), snapshot(self.a))
                self.new()
            self.pending.append(s)
            if len(self.pending) >= 400:
                self.flush()
            return None
        except Exception as e:  # noqa
            ctx.fail('%s: %s' % (self.name, s), 'accepted or diagnosed', 'raw error %r' % e)
            self.new()
            return None
        out = bytes(self.a.assembled_bytes)[len(self.before[0]):]
        self.flush(accepted=True)
        return out

    def flush(self, accepted=False):
        """nothing may be left pending by the rejected statements"""
        todo, self.pending = self.pending, []
        if accepted:
            # the accepted statement disturbs the object: replay the rejected ones on a fresh one
            a = self.cls()
            a.assemble('.dw 0')
            if todo:
                for s in todo:
                    try:
                        a.assemble(s, CTX)
                    except Exception:
                        pass
        else:
            a = self.a
        if todo:
            try:
                a.link()
                got = bytes(a.assembled_bytes)
            except Exception as e:  # noqa
                got = 'link failed: %s' % e
            if got != self.before[0]:
                for s in todo:
                    b = self.cls()
                    b.assemble('.dw 0')
                    try:
                        b.assemble(s, CTX)
                        continue
                    except Exception:
                        pass
                    try:
                        b.link()
                        g = bytes(b.assembled_bytes)
                    except Exception as e:  # noqa
                        g = 'link failed: %s' % e
                    if g != self.before[0]:
                        self.ctx.fail('%s: %s' % (self.name, s), 'rejected without a trace', g)
                        break
                else:
                    self.ctx.fail('%s: a run of %d rejected statements starting with %s' % (self.name, len(todo), todo[0]), self.before[0], got)
        self.ctx.trace()
        self.new()


def shape(s):
    return len(s.split())


EXTRA = (')', '7', '[ 7 ]', '[7]', '( 7 )', '#7', '"s"', '{ 7 }', '-', '$', '+7')


def operands(ctx, name, mnems, depth):
    t = Tester(ctx, impl.load(name), name)
    vocab = VOCAB[name]
    short = vocab[::2]
    for m in mnems:
        for n in range(depth + 1):
            v = vocab if n <= 2 else short
            for ops in itertools.product(v, repeat=n):
                s = m + ' ' + ' '.join(ops)
                r = t.stmt(s)
                ctx.state((name, m, n, None if r is None else len(r)))
                if r is not None and n <= 2:
                    # one operand more cannot mean the same
                    for extra in EXTRA:
                        r2 = t.stmt(s + ' ' + extra)
                        # (a stray word may read as a label, which linking then refuses)
                        if r2 == r and linkable(t.cls, s + ' ' + extra):
                            ctx.fail('%s: %s %s' % (name, s, extra), 'surplus operand refused', r2)
    t.flush()
    ctx.sample({'processor': name, 'mnemonics': mnems[:3], 'vocabulary': vocab[:6]}, 1)


def linkable(cls, s):
    a = cls()
    try:
        a.assemble(s)
        a.link()
        return True
    except impl.asm_error():
        return False


def continue_after(ctx, name):
    """assembly goes on after a rejected statement as if it had not been there"""
    cls = impl.load(name)
    good = {'mos6502': ['LDA #1', 'JMP lab', 'BNE lab'], 'lr35902': ['LD A,1', 'JP lab', 'JR lab'], 'z80': ['LD A,1', 'JP lab', 'JR lab'], 'i8086': ['MOV AX,1', 'JMP lab', 'JZ lab'], 'mips32': ['SLL $0 $0 0', 'J lab', 'BEQ $4 $5 lab'],
            'm68k': ['NOP', 'DBF D0 lab', 'JMP lab'], 'thumb': ['MOV r0 #1', 'B lab', 'BEQ lab'], 'ppc': ['nop', 'b lab', 'addi r3 r4 5'], 'x86': ['NOP', 'MOV EAX 5', 'CLC']}[name]
    bad = ['BOGUS', 'BOGUS lab', 'BOGUS 1 2 3', good[1] + ' extra lab', good[0] + ' ) (', good[2] + ' lab lab lab', '.bogus', '.org', '.fill lab', '.align 0', '.goto', '.ram -4', '.endmacro', '.macro', '.define x', '.db lab:', '1lab-:', ':', '"open']
    for g in itertools.product(good, repeat=2):
        for b in bad:
            for pos in range(3):
                core.arm()
                lines = ['lab:'] + list(g) + ['.dd lab']
                a, h = cls(), cls()
                for i, s in enumerate(lines):
                    if i == pos + 1:
                        try:
                            a.assemble(b, CTX)
                            ctx.fail('%s: %s' % (name, b), 'a diagnostic', 'accepted')
                        except impl.asm_error() as e:
                            if CTX not in str(e) or 'line 1' not in str(e):
                                ctx.fail('%s: %s' % (name, b), 'a diagnostic naming line 1 of %r' % CTX, str(e))
                    a.assemble(s)
                    h.assemble(s)
                a.link()
                h.link()
                ctx.trace()
                ctx.step(5)
                ctx.state((name, bytes(h.assembled_bytes)))
                ctx.expect('%s: %s with a rejected %s at %d' % (name, g, b, pos), bytes(h.assembled_bytes), bytes(a.assembled_bytes))


def toy(ctx):
    """the toy processor accepts exactly one operand count per mnemonic"""
    C = impl.toy()
    t = Tester(ctx, C, 'toy')
    arity = {'NOP': 0, 'LDI': 1, 'ADD': 2, 'JP': 1, 'BR': 1, 'BRL': 1, 'JQ': 1, 'BOGUS': None, 'NO': None, 'NOPX': None, 'LDI2': None, '-': None, '5': None, '(': None}
    lim = {'LDI': (-128, 255), 'ADD': (-128, 255), 'JP': (-32768, 65535), 'BR': (-128, 127), 'BRL': (-32768, 32767)}
    vocab = ['5', '-1', '300', '70000', '-129', '-200', '(', '"s"', '$zz', '%2', '$', '1/0', '5+', 'nolab', '$FFFF', '-$5', '1e3', '0x5']
    for m, n in arity.items():
        for k in range(0, 4):
            for ops in itertools.product(vocab, repeat=k):
                if k == 3 and len(set(ops)) > 2:
                    continue
                s = m + ' ' + ' '.join(ops)
                r = t.stmt(s)
                ctx.state((m, ops))
                ok = n == k
                if ok and m in lim:
                    for o in ops:
                        v = {'5': 5, '-1': -1, '300': 300, '70000': 70000, '-129': -129, '-200': -200, '5+': 6, '$FFFF': -1 if m == 'BRL' else 65535}.get(o)
                        # names in any position become label references
                        if o in ('nolab', '(', '"s"', '-$5', '1e3', '0x5'):
                            continue
                        ok = ok and v is not None and lim[m][0] <= v <= lim[m][1] or False
                if m != 'JQ' and ok != (r is not None):
                    ctx.fail('toy: ' + s, 'accepted' if ok else 'refused', r if r is not None else 'refused')
    t.flush()


def handlers(ctx):
    """a processor whose instructions fail in every way after asking for references; references of other statements stay"""
    from necroassembler import Assembler, opcode
    from necroassembler import exceptions as ex
    boom = []

    class Own(ex.AssemblerException):
        message = 'my own'

    class Positioned(ex.AssemblerException):
        message = 'at line 77 of other.s: line 1'

    WAYS = {'none': lambda i: None, 'own': Own, 'positioned': Positioned, 'with instr': lambda i: Own(i), 'range': lambda i: ex.NotInBitRange(5, 2), 'label': lambda i: ex.UnknownLabel('line'),
            'key': lambda i: KeyError('x'), 'index': lambda i: IndexError(), 'value': lambda i: ValueError('line 1'), 'type': lambda i: TypeError(), 'zero': lambda i: ZeroDivisionError(), 'attr': lambda i: AttributeError('x'),
            'os': lambda i: OSError(2, 'x'), 'assert': lambda i: AssertionError(), 'stop': lambda i: StopIteration(), 'notimpl': lambda i: NotImplementedError(), 'unicode': lambda i: UnicodeError(), 'plain': lambda i: Exception('plain'),
            'struct': lambda i: __import__('struct').error('x'), 'overflow': lambda i: OverflowError(), 'runtime': lambda i: RuntimeError('x')}

    class C(Assembler):
        @opcode('REF')
        def _ref(self, instr):
            self.parse_integer_or_label(label=instr.tokens[1], size=2, bits_size=16, offset=1)
            return b'\x4C\0\0'

        @opcode('BAD')
        def _bad(self, instr):
            way, offsets = boom
            for i, o in enumerate(offsets):
                self.parse_integer_or_label(label=('a', 'nolab')[i % 2], size=1, bits_size=8, offset=o, bits=None if i % 3 else (7, 0), relative=None if i % 2 else self.pc)
            if way == 'own':
                raise Own()
            if way == 'positioned':
                raise Positioned()
            e = WAYS[way](instr)
            if e is not None:
                raise e
            return None

    AE = impl.asm_error()
    for way in WAYS:
        for n in range(0, 4):
            for offsets in itertools.product((0, 1, 2, 9), repeat=n):
                for before, after, where in itertools.product(('', 'REF a\n', 'REF b\nREF a\n', 'REF a\n.ram 3\n'), ('', 'REF b\n'), ('alone', 'macro')):
                    if n == 3 and (where == 'macro' or before not in ('', 'REF a\n')):
                        continue
                    boom[:] = [way, offsets]
                    core.arm()
                    good = C()
                    good.assemble('a: .db 1\n' + before)
                    good.assemble(after + 'b: .db 2')
                    good.link()
                    a = C()
                    a.assemble('a: .db 1\n' + before)
                    if where == 'macro':
                        a.assemble('.macro M\nBAD 1 2\n.endmacro')
                    snap = snapshot(a)
                    sig = 'handler fails by %s after references at %s, %s, %r before, %r after' % (way, offsets, where, before, after)
                    ctx.trace()
                    ctx.step(4)
                    ctx.state((way, offsets, before, after, where))
                    try:
                        a.assemble('\n\n' + ('BAD 1 2' if where == 'alone' else 'M'), CTX)
                        ctx.fail(sig, 'a diagnostic', 'accepted')
                        continue
                    except AE as e:
                        if where == 'alone' and ('line 3' not in str(e) or CTX not in str(e)):
                            ctx.fail(sig, 'a diagnostic naming line 3 of %r' % CTX, str(e))
                    except Exception as e:  # noqa
                        ctx.fail(sig, 'a diagnostic', 'raw error %r' % e)
                        continue
                    ctx.expect(sig + ': state', snap, snapshot(a))
                    try:
                        a.assemble(after + 'b: .db 2')
                        a.link()
                        got = bytes(a.assembled_bytes)
                    except Exception as e:  # noqa
                        got = repr(e)
                    ctx.expect(sig + ': image', bytes(good.assembled_bytes), got)


def positions(ctx, ctxname):
    """diagnostics name the place whatever words the statement and the file name contain"""
    C = impl.toy()
    words = ['line', 'line3', '$line', 'at', 'at_line', '%at', '"at line 2"', '"of x.s"', 'nolab', '$zz', "'line'", '70000', '1/0', 'line/0', '-', '"line 9"', 'line:', '5']
    names = [d for d in C().directives if d not in ('LOG',)] + ['LINE', 'at', 'NOPE', 'line3']
    if True:
        for head, skip in (('.', names), ('', ['NOP', 'LDI', 'ADD', 'JP', 'line', 'at', 'NOPE'])):
            for name in skip:
                for n in range(0, 3):
                    for ops in itertools.product(words, repeat=n):
                        if n == 2 and not any('line' in o or 'at' in o for o in ops):
                            continue
                        s = '%s%s %s' % (head, name.lower(), ' '.join(ops))
                        if 'include' in s or 'inc' in name.lower() or any(o.endswith(':') for o in ops):
                            continue
                        for gap in (1, 4):
                            core.arm()
                            a = C()
                            ctx.step()
                            try:
                                a.assemble('\n' * (gap - 1) + s, ctxname)
                                continue
                            except Exception as e:  # noqa
                                msg = str(e)
                            if not re.search(r'line %d\b' % gap, msg) or (ctxname is not None and msg.count(ctxname) <= s.count(ctxname)):
                                ctx.fail('%s on line %d of %r' % (s, gap, ctxname), 'a diagnostic naming both', msg)
                            ctx.state((ctxname, name, n))
        ctx.trace()


def directives(ctx, d):
    vocab = ['5', '-1', '300', 'x', '"s"', '$zz', '70000', '(', '1/0', '', '5+', 'nolab', '-', "'", '"']
    tmp = tempfile.mkdtemp(prefix='c13-')
    old = os.getcwd()
    os.chdir(tmp)
    try:
        C = impl.toy()
        AE = impl.asm_error()
        for name in (d, d.upper(), d + 'x'):
            for n in range(0, 4):
                for ops in itertools.product(vocab, repeat=n):
                    s = '.%s %s' % (name, ' '.join(ops))
                    # regions of absurd size are out of scope
                    if name.lower() == 'org' and any(o in ('-1', '70000') for o in ops[1:]):
                        continue
                    if name.lower() in ('fill', 'goto', 'upto') and '70000' in ops[:1] and n > 1:
                        continue
                    core.arm()
                    a = C()
                    ctx.step()
                    try:
                        with contextlib.redirect_stdout(io.StringIO()):
                            a.assemble('\n\n' + s, CTX)
                        res = 'ok'
                    except AE as e:
                        res = 'refused'
                        if ('line 3' not in str(e) and 'line 4' not in str(e)) or CTX not in str(e):
                            ctx.fail(s, 'a diagnostic naming line 3 of %r' % CTX, str(e))
                    except OSError as e:
                        # missing files surface as such
                        res = 'os'
                        if not name.lower().startswith('inc'):
                            ctx.fail(s, 'accepted or diagnosed', 'raw error %r' % e)
                    except Exception as e:  # noqa
                        res = 'raw'
                        ctx.fail(s, 'accepted or diagnosed', 'raw error %r' % e)
                    if name == d + 'x' and res != 'refused':
                        ctx.fail(s, 'unknown directive refused', res)
                    if name != d + 'x' and LEGAL(d, [o for o in ops if o]) is False and res not in ('refused', 'os'):
                        ctx.fail(s, 'refused', 'accepted')
                    ctx.state((d, n, res))
        ctx.trace()
        ctx.sample({'directive': d}, 1)
    finally:
        os.chdir(old)
        shutil.rmtree(tmp)


def surplus(ctx):
    """operands after a directive that is complete, in the place where it would be accepted without them"""
    places = [('toy', '.macro M p\nLDI p', '.endmacro', 'M 7', b'\xA1\x07'), ('toy', '.repeat 2\nLDI 7', '.endrepeat', '', b'\xA1\x07\xA1\x07'), ('toy', '', '.log ON', '.log OFF\nLDI 7', b'\xA1\x07'),
              ('toy', '.log ON', '.log OFF', 'LDI 7', b'\xA1\x07'), ('toy', '', '.org 8 15', 'LDI 7', b'\xA1\x07' + bytes(6)), ('toy', 'LDI 7', '.fill 3 9', '', b'\xA1\x07\x09\x09\x09'),
              ('toy', '', '.goto 3 9', '', b'\x09' * 3), ('toy', '', '.upto 3 9', '', b'\x09' * 3), ('toy', 'NOP', '.align 2', '', b'\xEA\0'), ('toy', '', '.ram 2', 'NOP', b'\xEA'),
              ('toy', '', '.repeat 2', 'NOP\n.endrepeat', b'\xEA' * 2), ('toy', '', '.define K 3', 'LDI K', b'\xA1\3'), ('toy', '', '.section s RW 16', 'NOP', b'\xEA'), ('toy', '', '.export q', 'q:', b''),
              ('x86', '', '.bits 16', 'NOP', b'\x90'), ('x86', '.bits 16', '.bits 32', 'NOP', b'\x90'), ('nes', '', '.cartridge', '', b'NES\x1A\2' + bytes(11)), ('gameboy', '.fill 256 1', '.cartridge', '', None)]
    AE = impl.asm_error()
    for name, before, stmt, after, want in places:
        C = impl.toy() if name == 'toy' else impl.load(name)
        for case in (str.lower, str.upper):
            d = case(stmt.split()[0]) + stmt[len(stmt.split()[0]):]
            for extra in ('5', 'x', '"s"', "'s'", '(', ')', '[', '-1', 'ON', '$zz', '5 5', stmt, '<', 'K'):
                core.arm()
                a = C()
                sig = '%s: %r with surplus %r after %r' % (name, d, extra, before)
                with contextlib.redirect_stdout(io.StringIO()):
                    a.assemble(before, CTX)
                    snap = bytes(a.assembled_bytes), a.pc, sorted(a.labels), dict(a.defines)
                    try:
                        a.assemble('\n%s %s' % (d, extra), CTX)
                        ctx.fail(sig, 'refused', 'accepted')
                        continue
                    except AE as e:
                        if 'line 2' not in str(e) or CTX not in str(e):
                            ctx.fail(sig, 'a diagnostic naming line 2 of %r' % CTX, str(e))
                    except Exception as e:  # noqa
                        ctx.fail(sig, 'a diagnostic', repr(e))
                        continue
                    now = bytes(a.assembled_bytes), a.pc, sorted(a.labels), dict(a.defines)
                    if now != snap:
                        ctx.fail(sig + ': afterwards', snap, now)
                    # the right one is still possible
                    try:
                        a.assemble(d + '\n' + after, CTX)
                        got = bytes(a.assembled_bytes)
                    except Exception as e:  # noqa
                        got = repr(e)
                if want is not None and got != want or want is None and (isinstance(got, str) or len(got) != 336):
                    ctx.fail(sig + ': then without it', want, got)
                ctx.trace()
                ctx.step(3)
                ctx.state((d, extra))


INT = {'5', '-1', '300', '70000', '5+'}


def LEGAL(d, ops):
    """False: certainly malformed"""
    if any(o in ("'", '"') for o in ops):
        quotes = [o for o in ops if o in ("'", '"', '"s"')]
        return False if len(quotes) == 1 else None
    if any(o in ('$zz', '1/0', '-') for o in ops) and d not in ('define', 'macro', 'section', 'export', 'log') and not d.startswith(('inc', 'end')):
        return False if any(o in ('$zz', '1/0') for o in ops) or d in ('org', 'fill', 'goto', 'upto', 'ram', 'align', 'repeat') else None
    if d in ('org', 'fill', 'goto', 'upto'):
        if len(ops) not in (1, 2) or any(o not in INT for o in ops):
            return False
        if d == 'fill' and ops[0] == '-1':
            return False
        if len(ops) == 2 and d != 'org' and ops[1] in ('300', '70000'):
            return False
    elif d in ('ram', 'align', 'repeat'):
        if len(ops) != 1 or ops[0] not in INT or ops[0] == '-1':
            return False
    elif d == 'define':
        if len(ops) != 2 and not any("'" in o or '"' in o for o in ops):
            return False
    elif d in ('include', 'incbin', 'inccsv', 'inccsv_le16', 'export'):
        if len(ops) != 1:
            return False
    elif d == 'incjson':
        if len(ops) != 2:
            return False
    elif d == 'section':
        if len(ops) not in (2, 3):
            return False
    elif d in ('endrepeat', 'endmacro'):
        return False
    elif d == 'macro':
        if not ops:
            return False
    elif d == 'log':
        if ops:
            return False
    elif d in ('db', 'byte') and any(o in ('300', '70000') for o in ops):
        return False
    elif d in ('dw', 'word') and '70000' in ops:
        return False
    return None


def labels(ctx):
    C = impl.toy()
    for lab in ['a', 'A1', '_x', '.x', 'a.b', '5', '12', '$5', '%1', '-5', 'a-b', 'a+b', '#a', '<a', 'é', '$zz', '%2', '5a', 'x/y', '*', '&', "a'b", 'a"b"', '(a', 'a)', '0x5', '1e3', '-', '@', '~a']:
        valid = all(c.isascii() and (c.isalnum() or c in '_.') for c in lab) and not lab.isdigit()
        a = C()
        core.arm()
        ctx.trace()
        ctx.step()
        ctx.state(lab)
        try:
            a.assemble(lab + ':\nNOP', CTX)
            got = True
        except impl.asm_error() as e:
            got = False
            if 'line 1' not in str(e) or CTX not in str(e):
                ctx.fail('label ' + lab, 'a diagnostic naming line 1', str(e))
        except Exception as e:  # noqa
            got = 'raw %r' % e
        if lab not in ("a'b", 'a"b"'):
            ctx.expect('label ' + lab, valid, got)
        elif got is not False:
            ctx.fail('label ' + lab, 'refused', got)


def macro_lines(ctx):
    """a failing statement of a macro body is reported where it is written or where the macro is called"""
    C = impl.toy()
    AE = impl.asm_error()
    for n, bad, gap, calls, nested in itertools.product((1, 2, 4), range(4), (0, 1, 7), (1, 2), (False, True)):
        if bad >= n:
            continue
        for stmt in ('NOPE', 'LDI', 'LDI 256', 'LDI p p', 'ADD p 300', 'LDI 1/0', 'JP $zz', 'q 1'):
            core.arm()
            body = ['LDI p'] * n
            body[bad] = stmt
            lib = [''] * gap + ['.macro M p'] + body + ['.endmacro']
            if nested:
                lib += ['', '.macro O q', 'NOP', '', 'M q', '.endmacro']
            a = C()
            a.assemble('\n'.join(lib), 'lib.inc')
            main = ['NOP'] * (50 + gap)
            want = {('lib.inc', gap + 2 + bad), ('main.s', len(main) + calls)}
            if nested:
                want.add(('lib.inc', gap + n + 7))
            ctx.trace()
            ctx.step(len(lib))
            ctx.state((n, bad, stmt, nested))
            sig = '%s at line %d of lib.inc, called at line %d of main.s' % (stmt, gap + 2 + bad, len(main) + calls)
            try:
                a.assemble('\n'.join(main + (['NOP'] if calls == 2 else []) + ['O 1' if nested else 'M 1']), 'main.s')
                ctx.fail(sig, 'a diagnostic', 'accepted', lib)
            except AE as e:
                msg = str(e)
                if not any(f in msg and re.search(r'line %d\b' % ln, msg) for f, ln in want):
                    ctx.fail(sig, 'a diagnostic naming %s' % sorted(want), msg, lib)
            except Exception as e:  # noqa
                ctx.fail(sig, 'a diagnostic', 'raw error %r' % e, lib)


def mnemonics(name):
    a = impl.load(name)()
    return sorted(a.instructions)


def shards(tier):
    out = [('toy', toy, ()), ('labels', labels, ()), ('handlers', handlers, ()), ('macro lines', macro_lines, ()), ('surplus', surplus, ())]
    for n in ('some file.s', 'line 8', 'at line 3 of x', 'dir/at line.s', None):
        out.append(('positions %s' % n, positions, (n,)))
    for d in DIRECTIVES:
        out.append(('directive ' + d, directives, (d,)))
    for name in ('mos6502', 'lr35902', 'z80', 'i8086', 'mips32', 'm68k', 'thumb', 'ppc', 'x86'):
        out.append(('continue ' + name, continue_after, (name,)))
        ms = mnemonics(name)
        k = {'ppc': 12, 'x86': 12}.get(name, 6)
        for i in range(0, len(ms), k):
            out.append(('ops %s %s' % (name, ms[i]), operands, (name, ms[i:i + k], 2 if tier == 'quick' and name in ('ppc', 'x86') else 3 if tier == 'quick' else 4)))
    return out


if __name__ == '__main__':
    core.main('C13', shards, rule='all operand sequences of length 0-2 over the full vocabulary (13-16 tokens) and length 3 (4) over half of it, for every mnemonic of the nine processors; every directive with 0-3 operands of 15 tokens, and with operands too many where it is otherwise accepted; rejected statements between good ones at every position; a processor whose handlers fail in 21 ways after asking for up to three references; diagnostics of statements full of misleading words',
              assumptions=['a missing file surfaces as the operating system error', 'a directive list rejected half way may keep the items before the bad one (only instructions are all-or-nothing)'])
