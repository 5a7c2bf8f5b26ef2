"""C14: independence of assembler objects - all interleavings, all splits, log on and off, repeated runs."""
import contextlib
import hashlib
import io
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, impl

# (class, pieces); a piece is one assemble() call
PROGRAMS = {
    'toy A': ('toy', ['.define X 1\n.macro M p\nLDI p\n.endmacro\na:', 'M X\nBR a\nJP later', '.org $40\nlater: .dw a later\n.export a']),
    'toy B': ('toy', ['.define X 200\n.macro M p q\nADD p q\n.endmacro', 'a: .ram 4\nlater: M X 2', 'b: .repeat 2\nBR b\n.endrepeat\n.dd a+1']),
    'toy C': ('toy', ['.section .text RX\nlater: NOP\n.export later', '.section .data RW $100\n.dw X\na: .db later', '.define Y 3\n.log OFF\nX: .dw_to_ascii a']),
    'toy D': ('toy', ['.org 8 15\n.db 1', '.org $20\nM: LDI M', '.org $10\na: .fill 3 $EE\n.align 8\n.db a']),
    'defs': ('toydef', ['.dw X Y\n.define X 3\n.dw X', '.define Z 4\n.db Y Z', '.define Y Z\n.db X Y Z']),
    'nes': ('nes', ['LDA PPUMASK\n.define PPUMASK $10', 'STA PPUMASK,X\n.define OAMDMA PPUMASK', '.dw OAMDMA PPUCTRL']),
    'sms': ('sms', ['.dw RAM\n.define RAM PSG', 'LD A,RAM\n.define JOY1 3', 'LD HL,JOY1\n.db CMD_REG']),
    'big': ('toybig', ['.define X $12\na: .dw a+1', 'JP a\n.dd X', 'b: BRL a\nJQ c\nc:']),
    '6502': ('mos6502', ['.define XX 5\naa: LDA #XX', 'STA aa,X\nBNE aa', 'JMP later\nlater: RTS']),
    'lr': ('lr35902', ['aa: LD A,5\nJR aa', 'LD HL,later\nLD (HL+),A', 'later: CALL aa\nRST 28H']),
    'gb': ('gameboy', ['.fill $150 1\naa: LD A,5\nJP aa', '.org $200\nlater: LD HL,later\n.dw LY VRAM\n.define LY 1', '.db LY 2 3\n.dw STAT']),
    'z80': ('z80', ['aa: LD IX,later\nDJNZ aa', 'LD (IX+3),7\nSET 3,(IX+1)', 'later: JP aa']),
    '8086': ('i8086', ['aa: MOV AX,later\nJZ aa', 'MOV [BX + SI + 5],AL\nPUSH ES', 'later: CALL aa']),
    'mips': ('mips32', ['aa: addiu $a0,$zero,later\nbeq $t0,$t1,aa', 'lw $a0,4($sp)', 'later: j aa']),
    'm68k': ('m68k', ['aa: move.w #later,d0\nlea (aa).l,a0', 'move.l #3,d1', 'later: jmp (aa).l']),
    'thumb': ('thumb', ['aa: MOV r0,#5\nBEQ aa', 'LDR r1,[pc,#later]\nPUSH {r0-r3}', '.align 4\nlater: .dd aa']),
    'ppc': ('ppc', ['aa: addi r3,r4,later\nb aa', 'ori r3,r4,8', 'later: bc 12,2,aa']),
    'x86': ('x86', ['.bits 32\naa: MOV EAX,aa\nJMP aa', '.bits 16\nMOV AX,aa', 'later: CALL later']),
}


def cls_of(name):
    return impl.toy() if name == 'toy' else impl.toy(big_endian=True) if name == 'toybig' else impl.toy(defines={'X': '9', 'Y': '$10'}) if name == 'toydef' else impl.load(name)


class Run:
    """one object fed event by event: create, assemble.., link"""

    def __init__(self, prog, cls):
        self.cls, self.pieces = cls, prog[1]
        self.n = 0

    def step(self, log=False):
        if self.n == 0:
            self.a = self.cls()
            self.a.log = log
        elif self.n <= len(self.pieces):
            self.a.assemble(self.pieces[self.n - 1], 'p%d' % self.n)
        else:
            self.a.link()
        self.n += 1

    @property
    def events(self):
        return len(self.pieces) + 2

    def result(self):
        a = self.a
        return bytes(a.assembled_bytes), {k: a.get_label_absolute_address_by_name(k) for k in a.labels}, dict(a.defines), sorted(a.macros), list(a.exports), a.sections, a.pc


def solo(name, log=False):
    r = Run(PROGRAMS[name], cls_of(PROGRAMS[name][0]))
    for _ in range(r.events):
        r.step(log)
    return r.result()


def schedules(counts):
    """all interleavings of the events of several objects"""
    def go(left):
        if not any(left):
            yield ()
        for i, n in enumerate(left):
            if n:
                for rest in go(left[:i] + (n - 1,) + left[i + 1:]):
                    yield (i,) + rest
    return go(tuple(counts))


def interleave(ctx, names, limit=None):
    want = [solo(n) for n in names]
    classes = {PROGRAMS[n][0]: cls_of(PROGRAMS[n][0]) for n in names}
    base = [Run(PROGRAMS[n], classes[PROGRAMS[n][0]]) for n in names]
    for sch in schedules([limit or r.events for r in base]):
        core.arm()
        runs = [Run(PROGRAMS[n], classes[PROGRAMS[n][0]]) for n in names]
        try:
            for i in sch:
                runs[i].step()
                ctx.step()
            for i, r in enumerate(runs):
                while r.n < r.events:
                    r.step()
        except impl.asm_error() as e:
            ctx.fail('%s in order %s' % (names, sch), 'as alone', 'error %s' % e)
            continue
        ctx.trace()
        ctx.state((names, sch))
        for n, w, r in zip(names, want, runs):
            if r.result() != w:
                ctx.fail('%s of %s in order %s' % (n, names, sch), w, r.result())
    ctx.sample({'objects': names, 'events each': [r.events for r in base]}, 1)


def leftovers(ctx, first):
    """objects extended, misused or dropped half way do not change later ones"""
    for second in PROGRAMS:
        want = solo(second)
        for mode in range(6):
            core.arm()
            C = cls_of(PROGRAMS[first][0])
            x = C()
            try:
                if mode == 0:
                    x.register_instruction('NOP', lambda i: b'\x99')
                    x.register_directive('dw', lambda i: None)
                    x.pre_link_passes.append(lambda a: a.append_assembled_bytes(b'zz'))
                elif mode == 1:
                    x.defines['X'] = '77'
                    x.labels['later'] = None
                    x.hex_prefixes += ('?',)
                    x.bits = 16
                elif mode == 2:
                    x.assemble('.macro LD\nfoo:')
                elif mode == 3:
                    x.assemble('.org 5 9\n.repeat 3\n.db 1\nBOGUS 1 2')
                elif mode == 4:
                    x.assemble('a: later: .dw nowhere')
                    x.link()
                else:
                    x.log = True
                    x.fill_value = 7
                    x.big_endian = not x.big_endian
                    with contextlib.redirect_stdout(io.StringIO()):
                        x.assemble('.fill 3\n.section s R')
            except impl.asm_error():
                pass
            r = Run(PROGRAMS[second], C if PROGRAMS[first][0] == PROGRAMS[second][0] else cls_of(PROGRAMS[second][0]))
            try:
                while r.n < r.events:
                    r.step()
                got = r.result()
            except impl.asm_error() as e:
                got = str(e)
            ctx.trace()
            ctx.step(r.n + 2)
            ctx.state((first, second, mode))
            ctx.expect('%s after %s was left in state %d' % (second, first, mode), want, got)


def split(ctx, name):
    """every way of cutting the program into consecutive pieces; logging"""
    cname, pieces = PROGRAMS[name]
    lines = '\n'.join(pieces).split('\n')
    cls = cls_of(cname)
    whole = Run((cname, ['\n'.join(lines)]), cls)
    while whole.n < whole.events:
        whole.step()
    want = whole.result()
    for mask in range(1 << (len(lines) - 1)):
        core.arm()
        parts, cur = [], [lines[0]]
        for i, s in enumerate(lines[1:]):
            if mask >> i & 1:
                parts.append('\n'.join(cur))
                cur = []
            cur.append(s)
        parts.append('\n'.join(cur))
        # a bounded region ends with the piece it is in
        if any(p.split('\n')[-1] == '.org 8 15' for p in parts[:-1]):
            continue
        r = Run((cname, parts), cls)
        try:
            with contextlib.redirect_stdout(io.StringIO()) as out:
                while r.n < r.events:
                    r.step(log=bool(mask & 1))
            got = r.result()
        except impl.asm_error() as e:
            got = str(e)
        ctx.trace()
        ctx.step(len(parts))
        ctx.state((name, mask))
        ctx.expect('%s cut as %r%s' % (name, parts, ' with log' if mask & 1 else ''), want, got)
    # logging prints something, not logging nothing, and neither changes the result
    for log in (True, False):
        with contextlib.redirect_stdout(io.StringIO()) as out:
            got = solo(name, log)
        ctx.expect('%s with log %s' % (name, log), solo(name), got)
        ctx.expect('%s prints with log %s' % (name, log), log, bool(out.getvalue()))
    # .log statements at every position
    for i in range(len(lines) + 1):
        for first in ('.log ON', '.log OFF', '.LOG on'):
            for j in range(i, len(lines) + 1):
                if any(lines[k - 1] in ('.macro M p', '.macro M p q') or lines[k - 1].startswith(('b: .repeat', 'BR b', 'LDI p', 'ADD p')) for k in (i, j) if k):
                    continue
                core.arm()
                r = Run((cname, ['\n'.join(lines[:i] + [first] + lines[i:j] + ['.log OFF'] + lines[j:])]), cls)
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        while r.n < r.events:
                            r.step()
                    got = r.result()
                except impl.asm_error() as e:
                    got = str(e)
                ctx.trace()
                ctx.step()
                ctx.expect('%s with %s at %d and off at %d' % (name, first, i, j), want, got)


AGAIN = ['LDI K', '.dw K a', 'MM K', '.define K 1', '.define K a', '.define LDI ADD 1', '.macro MM p\nLDI p\n.endmacro', '.macro MM q\nNOP\nLDI K+1\n.endmacro', '.org 9', 'a: NOP']


def again(ctx, first, depth):
    """the same text given again and again, with other definitions in between"""
    C = impl.toy()

    def run(parts):
        a = C()
        try:
            for x in parts:
                a.assemble(x, 'same.s')
            a.link()
        except impl.asm_error() as e:
            return 'error', type(e).__name__
        return bytes(a.assembled_bytes), {k: a.get_label_absolute_address_by_name(k) for k in a.labels}
    for rest in itertools.product(AGAIN, repeat=depth - 1):
        seq = (first,) + rest
        if len(set(seq)) == len(seq) or seq.count('a: NOP') > 1:
            continue
        core.arm()
        want = run(['\n'.join(seq)])
        got = run(seq)
        ctx.trace()
        ctx.step(depth)
        ctx.state(want)
        ctx.expect(' | '.join(seq) + ' (one call each)', want, got)


# tokens every processor reads its own way, and statements whose meaning depends on what the object was told before
TOKENS = ['$10', '0x10', '10h', '0h10', '$010', '10b', '0b1h', '0b11', '%101', '@17', '0d9', '9d', '010', '0o17', '17o', '17q', '0y11', '11y', '11', "'a'", 'ab', '1+$10', '10h+1', '>$1234', '<0x1234', '-1', '-10h', '0d0h']
VOCAB = ['mos6502', 'lr35902', 'z80', 'i8086', 'mips32', 'm68k', 'thumb', 'ppc', 'x86', 'gameboy', 'sms', 'nes', 'psx', 'toy', 'toybig', 'toydef']


def vocab(cname):
    cls = cls_of(cname)
    out = []
    for t in TOKENS:
        for d in ('.dd %s', '.db %s', '.org %s\nhere: .dw here', '.define V %s\n.dw V', '.fill 1 %s'):
            o = impl.run(cls, d % t)
            out.append((d % t, o.kind, o.data.hex() if o.kind == 'ok' else type(o.exc).__name__ + str(o.exc)))
    return out


SETUPS = list(itertools.product(('1', '$22', "'Q'"), ('LDI p', 'ADD p p'), (0, 1), (False, True), ('$30', '$41')))
COMMON = '.dw X\nLDI X\nM 1\n.repeat 2\n.db X\nM X\n.endrepeat\n.include "f.s"\n.incbin "f.b"\n.inccsv "f.c"\n.inccsv_le16 "f.c"\n.incjson "f.j" "k"\nJP lab\nBR lab\n.align 4\n.dd lab+X'
FILES = [{'f.s': '.db 1 X\nM 5', 'f.b': 'one', 'f.c': '1,2', 'f.j': '{"k": [3]}'}, {'f.s': 'LDI X\n.dw lab', 'f.b': 'other', 'f.c': '4\n5', 'f.j': '{"k": [6, 7]}'}]


def same_text(setup):
    """the same program text in an object prepared in another way"""
    x, body, files, big, lab = setup
    cls = impl.toy(big_endian=big, fill_value=0xEE if big else 0)
    for f, t in FILES[files].items():
        with open(f, 'w') as h:
            h.write(t)
    o = impl.run(cls, ['.org %s\nlab:\n.org $38' % lab, '.define X %s\n.macro M p\n%s\n.endmacro' % (x, body), COMMON])
    return [o.kind, o.data.hex() if o.kind == 'ok' else str(o.exc)]


def pristine(*args):
    """evaluated by a process that has done nothing else"""
    r = subprocess.run([sys.executable, os.path.abspath(__file__)] + [str(a) for a in args], capture_output=True, text=True, timeout=100)
    try:
        return json.loads(r.stdout)
    except ValueError:
        return r.stderr[-500:]


def vocabulary(ctx, first):
    """number notations: every processor alone, and after each other one has read the same tokens"""
    order = VOCAB[first:] + VOCAB[:first]
    got = pristine('--vocab', *order)
    again = pristine('--vocab', *(order[1:] + order[:1]))
    for k, n in enumerate(order):
        want = pristine('--vocab', n)
        if not isinstance(got, dict) or not isinstance(want, dict) or not isinstance(again, dict):
            ctx.fail('vocabulary of %s' % n, 'an answer', (got, want, again))
            return
        for w, g, a in zip(want[n], got[n], again[n]):
            ctx.trace()
            ctx.step()
            ctx.expect('%s: %r after %s' % (n, w[0], order[:k]), w, g)
            ctx.expect('%s: %r after %s' % (n, w[0], order[1:k] or 'all'), w, a)
        ctx.state((first, n))


@contextlib.contextmanager
def scratch():
    tmp = tempfile.mkdtemp(prefix='c14-')
    old = os.getcwd()
    os.chdir(tmp)
    try:
        yield
    finally:
        os.chdir(old)
        shutil.rmtree(tmp)


def texts(ctx, part, parts):
    with scratch():
        want = [pristine('--text', i) for i in range(len(SETUPS))]
        if len(set(map(tuple, want))) < len(SETUPS) - 2 or any(w[0] != 'ok' for w in want):
            ctx.fail('setups differ', len(SETUPS), want)
            return
        for i, a in list(enumerate(SETUPS))[part::parts]:
            for j, b in enumerate(SETUPS):
                core.arm()
                for k in (i, j):
                    got = same_text(SETUPS[k])
                    ctx.step(3)
                    ctx.expect('same text prepared as %s (pair %s, %s)' % (SETUPS[k], a, b), want[k], got)
                ctx.trace()
                ctx.state(('text', i, j))


def digest():
    h = hashlib.sha256()
    for n in PROGRAMS:
        d, lab, defs, mac, ex, sec, pc = solo(n)
        h.update(repr((n, d, list(lab.items()), sorted(defs.items()), mac, ex, list(sec.items()), pc)).encode())
    return h.hexdigest()


def repeat(ctx):
    """again in this process, and in fresh ones with other hash seeds"""
    want = digest()
    for i in range(3):
        ctx.expect('run %d in one process' % i, want, digest())
        ctx.trace()
        ctx.step(len(PROGRAMS))
        ctx.state(('same', i))
    for seed in ('0', '1', '2', '77', 'random'):
        core.arm()
        r = subprocess.run([sys.executable, os.path.abspath(__file__), '--digest'], env=dict(os.environ, PYTHONHASHSEED=seed), capture_output=True, text=True, timeout=100)
        ctx.expect('fresh process with hash seed %s' % seed, want, r.stdout.strip() or r.stderr[-500:])
        ctx.trace()
        ctx.step(len(PROGRAMS))
        ctx.state(('fresh', seed))


def shards(tier):
    deep = tier == 'thorough'
    out = [('repeat', repeat, ())]
    for i in range(0, len(VOCAB), 1 if deep else 5):
        out.append(('vocabulary %d' % i, vocabulary, (i,)))
    for p in range(4):
        out.append(('texts %d' % p, texts, (p, 4)))
    for x in AGAIN:
        out.append(('again ' + x.split('\n')[0], again, (x, 5 if deep else 4)))
    for n in PROGRAMS:
        out.append(('split %s' % n, split, (n,)))
        out.append(('after %s' % n, leftovers, (n,)))
    for a, b in itertools.combinations_with_replacement(PROGRAMS, 2):
        out.append(('pair %s/%s' % (a, b), interleave, ((a, b),)))
    toys = [n for n in PROGRAMS if n.startswith('toy') or n == 'big']
    trip = [t for t in itertools.combinations_with_replacement(toys, 3)] if deep else [('toy A', 'toy B', 'toy C'), ('toy A', 'toy A', 'toy B'), ('toy C', 'toy D', 'big')]
    trip += list(itertools.combinations([n for n in PROGRAMS if n not in toys and n != 'gb'], 3)) if deep else []
    for t in trip:
        out.append(('triple %s' % (t,), interleave, (t, 3 if set(t) <= set(toys) else 2)))
    return out


if __name__ == '__main__':
    if sys.argv[1:] == ['--digest']:
        print(digest())
    elif sys.argv[1:2] == ['--vocab']:
        print(json.dumps({n: vocab(n) for n in sys.argv[2:]}))
    elif sys.argv[1:2] == ['--text']:
        print(json.dumps(same_text(SETUPS[int(sys.argv[2])])))
    else:
        core.main('C14', shards, rule='all interleavings of the events (create, three assemble calls, link) of every pair of 18 objects over 15 classes, of the first three events of triples; 28 number notations in 5 statements read by 16 classes after each other and alone in a fresh process; one program text in all pairs of 48 differently prepared objects; every object after six kinds of abandoned objects of every class; every cut of every program into consecutive pieces; log directives at every pair of positions; repeated runs in one process and in processes with other hash seeds',
                  assumptions=['cuts inside a bounded origin region are excluded: the region is padded at the end of each assemble call'])
