"""C50: ELF objects - every short program over sections, labels, exports and data, read back by an independent ELF reader."""
import itertools
import os
import struct
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, impl


class Bad(Exception):
    pass


def need(cond, what):
    if not cond:
        raise Bad(what)


def read_elf(data, bits, big, e_type, machine, align, start=0):
    """parse and check the consistency of an object file; returns (sections, symbols)"""
    e = '>' if big else '<'
    data = bytes(data)
    need(data[:4] == b'\x7fELF', 'magic')
    need(data[4] == (2 if bits == 64 else 1), 'class %d' % data[4])
    need(data[5] == (2 if big else 1), 'byte order %d' % data[5])
    need(data[6] == 1 and data[7:16] == bytes(9), 'identification %s' % data[6:16].hex())
    hs, ss, ys = (64, 64, 24) if bits == 64 else (52, 40, 16)
    need(len(data) >= hs, 'header cut')
    t, m, v, entry, phoff, shoff, flags, ehsize, phes, phnum, shes, shnum, shstr = struct.unpack_from(e + ('HHIQQQIHHHHHH' if bits == 64 else 'HHIIIIIHHHHHH'), data, 16)
    need(t == e_type, 'type %d' % t)
    need(m == machine, 'machine %d' % m)
    need(v == 1, 'version %d' % v)
    need(entry == start and phoff == 0 and phnum == 0 and flags == 0, 'entry/phoff/phnum/flags %s' % ((entry, phoff, phnum, flags),))
    need(ehsize == hs, 'ehsize %d' % ehsize)
    need(phes in (0, 56 if bits == 64 else 32), 'phentsize %d' % phes)
    need(shes == ss, 'shentsize %d' % shes)
    need(shoff >= hs and shoff + ss * shnum <= len(data), 'section table %d+%d in %d' % (shoff, ss * shnum, len(data)))
    need(0 < shstr < shnum, 'shstrndx %d of %d' % (shstr, shnum))
    keys = ('name', 'type', 'flags', 'addr', 'offset', 'size', 'link', 'info', 'align', 'entsize')
    secs = [dict(zip(keys, struct.unpack_from(e + ('IIQQQQIIQQ' if bits == 64 else 'IIIIIIIIII'), data, shoff + i * ss))) for i in range(shnum)]
    need(all(x == 0 for x in secs[0].values()), 'null section %s' % secs[0])
    used = [(0, hs, 'header'), (shoff, shoff + ss * shnum, 'section table')]
    for i, s in enumerate(secs[1:], 1):
        if s['type'] != 8:
            need(s['offset'] + s['size'] <= len(data), 'section %d beyond the file' % i)
            if s['size']:
                used.append((s['offset'], s['offset'] + s['size'], i))
            s['data'] = data[s['offset']:s['offset'] + s['size']]
        else:
            s['data'] = b''
    used.sort()
    for a, b in zip(used, used[1:]):
        need(a[1] <= b[0], 'overlap %s %s' % (a, b))
    need(secs[shstr]['type'] == 3, 'shstrndx type')

    def string(table, at):
        need(table[:1] == b'\0' and table[-1:] == b'\0', 'string table ends')
        need(at < len(table), 'string offset %d' % at)
        return table[at:table.index(b'\0', at)].decode()
    for s in secs:
        s['name'] = string(secs[shstr]['data'], s['name'])
    need(secs[shstr]['name'] == '.shstrtab', 'shstrtab name')
    tabs = [i for i, s in enumerate(secs) if s['type'] == 2]
    need(len(tabs) == 1 and secs[tabs[0]]['name'] == '.symtab', 'symbol table')
    tab = secs[tabs[0]]
    need(tab['entsize'] == ys and tab['size'] % ys == 0 and tab['size'] >= ys, 'symbol entries %s' % tab)
    need(tab['link'] < shnum and secs[tab['link']]['type'] == 3 and secs[tab['link']]['name'] == '.strtab', 'symbol names %d' % tab['link'])
    strings = secs[tab['link']]['data']
    syms = []
    for i in range(tab['size'] // ys):
        if bits == 64:
            n, info, other, ndx, value, size = struct.unpack_from(e + 'IBBHQQ', tab['data'], i * ys)
        else:
            n, value, size, info, other, ndx = struct.unpack_from(e + 'IIIBBH', tab['data'], i * ys)
        if i == 0:
            need((n, value, size, info, other, ndx) == (0,) * 6, 'null symbol %s' % ((n, value, size, info, other, ndx),))
            continue
        need(ndx < shnum, 'symbol section %d' % ndx)
        need(info == 0x10 and other == 0 and size == 0, 'symbol info %s' % ((info, other, size),))
        syms.append((string(strings, n), secs[ndx]['name'] if ndx else None, value))
    # everything before sh_info is local: only the null symbol
    need(tab['info'] == 1, 'first global symbol %d' % tab['info'])
    own = [s for i, s in enumerate(secs) if i and i not in (shstr, tab['link'], tabs[0])]
    need(len(own) == shnum - 4, 'section roles')
    for s in secs[1:]:
        if s in own:
            need(s['type'] == 1 or s['type'] == 8 and s['size'] == 0, 'section type %s' % s)
            need(s['align'] == align and s['link'] == s['info'] == s['entsize'] == 0, 'section fields %s' % s)
        else:
            need(s['addr'] == 0 and s['flags'] & 7 == 0, 'table section %s' % s)
            need(s['type'] != 3 or s['link'] == s['info'] == 0 and s['entsize'] in (0, 1), 'string table %s' % s)
    return [(s['name'], s['addr'], s['flags'], s['size'], s['data']) for s in own], syms


# ---- reference: what the program defines -----------------------------------------------------------
class Model:
    """sections, labels and exports of a sequence of statements (word size 2)"""

    def __init__(self, big):
        self.big = big
        self.out = bytearray()
        self.pc = self.base = 0
        self.labels = {}
        self.refs = []
        self.secs = []       # [name, start pc, offset, flags]
        self.exports = []
        self.bad = False

    def do(self, op):
        kind = op[0]
        if kind == 'section':
            if any(s[0] == op[1] for s in self.secs):
                self.bad = True
                return
            if op[3] is not None:
                self.pc = self.base = op[3]
            flags = (2 if 'R' in op[2] else 0) | (1 if 'W' in op[2] else 0) | (4 if set(op[2]) & set('XE') else 0)
            self.secs.append([op[1], self.pc, len(self.out), flags])
        elif kind == 'label':
            if op[1] in self.labels:
                self.bad = True
                return
            self.labels[op[1]] = (self.pc, self.secs[-1] if self.secs else None)
        elif kind == 'export':
            if op[1] in self.exports:
                self.bad = True
                return
            self.exports.append(op[1])
        elif kind == 'bytes':
            self.out += op[1]
            self.pc += len(op[1])
        elif kind == 'ref':
            self.refs.append((len(self.out), op[1]))
            self.out += b'\0\0'
            self.pc += 2
        elif kind == 'ram':
            self.pc += op[1]
        elif kind == 'org':
            self.pc = self.base = op[1]
        elif kind == 'upto':
            n = self.base + op[1] - self.pc
            self.out += bytes(n)
            self.pc += n

    def finish(self):
        """None when linking must fail"""
        image = bytearray(self.out)
        unresolved = []
        for at, name in self.refs:
            if name not in self.labels:
                unresolved.append((at, name))
                continue
            image[at:at + 2] = self.labels[name][0].to_bytes(2, 'big' if self.big else 'little')
        secs = []
        for i, (name, start, off, flags) in enumerate(self.secs):
            end = self.secs[i + 1][2] if i + 1 < len(self.secs) else len(image)
            secs.append((name, start, flags, end - off, bytes(image[off:end])))
        syms = []
        fail = False
        for n in self.exports:
            if n not in self.labels or self.labels[n][1] is None:
                fail = True
                continue
            at, sec = self.labels[n]
            syms.append((n, sec[0], at - sec[1]))
        return secs, sorted(syms), unresolved, fail


def text(op):
    kind = op[0]
    if kind == 'section':
        return '.section %s %s%s' % (op[1] if ' ' not in op[1] else '"%s"' % op[1], op[2], '' if op[3] is None else ' %d' % op[3])
    return {'label': lambda: op[1] + ':', 'export': lambda: '.export ' + op[1], 'bytes': lambda: '.db ' + ' '.join(map(str, op[1])),
            'ref': lambda: '.dw ' + op[1], 'ram': lambda: '.ram %d' % op[1], 'org': lambda: '.org %d' % op[1], 'upto': lambda: '.upto %d' % op[1]}[kind]()


ALPHABET = [('section', '.text', 'RX', None), ('section', '.data', 'RW', 4096), ('section', 'b', 'R', None), ('label', 'x'), ('label', 'yy'), ('export', 'x'), ('export', 'yy'),
            ('bytes', b'\1\2\3'), ('bytes', b'\xFF'), ('ref', 'x'), ('ref', 'yy')]
CONFIGS = [(32, False, 1, 3, 0), (32, True, 1, 0x14, 4), (64, False, 1, 0x3E, 0), (64, True, 2, 0x15, 16)]


def program(ctx, classes, ops, config, pieces=1, relink=False):
    bits, big, e_type, machine, align = config
    sig = 'ELF%d %s machine %d: %s' % (bits, 'big' if big else 'little', machine, ' | '.join(text(o) for o in ops))
    if pieces > 1:
        sig += ' in %d pieces' % pieces
    m = Model(big)
    for o in ops:
        m.do(o)
    from necroassembler.linker import ELF
    ctx.trace()
    ctx.step(len(ops) + 1)
    a = classes[big]()
    lines = [text(o) for o in ops]
    try:
        per = -(-len(lines) // pieces)
        for i in range(0, max(len(lines), 1), max(per, 1)):
            a.assemble('\n'.join(lines[i:i + per]))
    except impl.asm_error():
        if not m.bad:
            ctx.fail(sig, 'accepted', 'refused while assembling')
        return
    if m.bad:
        ctx.fail(sig, 'refused (defined twice)', 'accepted')
        return
    secs, syms, unresolved, fail = m.finish()
    try:
        a.link(ELF(bits, big, e_type, machine, alignment=align))
    except impl.asm_error():
        if not (unresolved or fail):
            ctx.fail(sig, 'linked', 'refused by the linker')
        return
    except Exception as exc:  # noqa
        ctx.fail(sig, 'refused' if unresolved or fail else 'linked', repr(exc))
        return
    if unresolved or fail:
        ctx.fail(sig, 'refused (%s)' % ('unresolved reference' if unresolved else 'export of an undefined or section-less label'), 'linked')
        return
    judge(ctx, sig, a.assembled_bytes, config, secs, syms)


def judge(ctx, sig, data, config, secs, syms):
    try:
        gs, gy = read_elf(data, *config)
    except Bad as exc:
        ctx.fail(sig, 'well-formed object', str(exc))
        return
    except Exception as exc:  # noqa
        ctx.fail(sig, 'well-formed object', 'cannot be read: %r' % exc)
        return
    ctx.expect(sig + ' sections', sorted(secs), sorted(gs))
    ctx.expect(sig + ' symbols', syms, sorted(gy))


def classes_():
    from necroassembler import Assembler
    return {False: Assembler, True: type('AssemblerBig', (Assembler,), {'big_endian': True})}


def programs(ctx, prefix, depth):
    classes = classes_()
    for n in range(depth + 1):
        for rest in itertools.product(ALPHABET, repeat=n):
            ops = list(prefix) + list(rest)
            ctx.state(tuple(ops))
            for c in CONFIGS if len(ops) < 5 else [CONFIGS[sum(map(ALPHABET.index, ops)) % 4]]:
                program(ctx, classes, ops, c)
    ctx.sample({'prefix': [text(o) for o in prefix]})


def structured(ctx, count):
    """`count` sections, each with its own extras; labels at starts, middles and ends; exports anywhere"""
    classes = classes_()
    extras = [[], ['m'], ['s', 'e'], ['s', 'm', 'e']]
    starts = [None, 0, 0x2000]
    for lay in itertools.product(range(len(extras)), repeat=count):
        for st in itertools.product(starts, repeat=count):
            for when in ('before', 'after', 'inline'):
                ops, exports = [], []
                names = []
                for i in range(count):
                    ops.append(('section', '.s%d' % i, ('RX', 'RW', 'R', 'RWX')[i % 4], st[i] if st[i] is None else st[i] + 0x100 * i))
                    for w in 'sme':
                        if w == 'm':
                            ops.append(('bytes', bytes((i + 1,)) * (i + 1)))
                        if w == 'e':
                            ops.append(('bytes', bytes((0x80 + i,)) * 2))
                        if w in extras[lay[i]]:
                            n = '%s%d' % (w, i)
                            names.append(n)
                            ops.append(('label', n))
                            if when == 'inline':
                                ops.append(('export', n))
                for n in names:
                    ops.append(('ref', n))
                ex = [('export', n) for n in names[::-1]]
                ops = ex + ops if when == 'before' else ops + ex if when == 'after' else ops
                for c in CONFIGS:
                    program(ctx, classes, ops, c)
                program(ctx, classes, ops, CONFIGS[0], pieces=2)
                program(ctx, classes, ops, CONFIGS[3], pieces=3)
                ctx.state((lay, st, when))


def permissions(ctx):
    classes = classes_()
    for n in range(1, 5):
        for p in itertools.product('RWXE', repeat=n):
            if n == 4 and len(set(p)) < 4:
                continue
            for c in CONFIGS[:1] + CONFIGS[3:]:
                program(ctx, classes, [('section', '.a', ''.join(p), 16), ('bytes', b'\7'), ('label', 'x'), ('export', 'x'), ('section', 'z', 'R', None)], c)
                ctx.state(p)
    for src in ('.section .a', '.section', '.section .a Q', '.section .a RQ 5', '.section .a R 5 6', '.section .a R nowhere', '.section .a R\n.section .a W', '.section .a R\nx:\n.export x\n.export x',
                '.export', '.export a b', '.section .a rw'):
        o = impl.run(classes[False], src, link=False)
        ctx.expect(src, 'asm-error', o.kind)
        ctx.trace()


def positions(ctx):
    """section addresses and label values with reservations and origins in between; large values; odd names"""
    classes = classes_()
    pieces = [('ram', 5), ('bytes', b'\1\2'), ('org', 0x300)]
    for n in range(0, 4):
        for before in itertools.product(pieces, repeat=n):
            for start in (None, 0x40):
                for inner in itertools.product(pieces[:2], repeat=2):
                    ops = list(before) + [('section', '.a', 'RW', start), ('label', 'x'), inner[0], ('label', 'yy'), inner[1], ('section', 'last', 'R', None), ('label', 'end'),
                                          ('export', 'end'), ('export', 'x'), ('export', 'yy'), ('ref', 'yy')]
                    for c in CONFIGS:
                        program(ctx, classes, ops, c)
                    ctx.state((before, start, inner))
    for name in ('a', '.text', '.text.hot', 'with space', 'x' * 300, '.s', '.st', '.str', '_', '.Text'):
        for other in ('.text', 'a', 'b'):
            if name != other:
                for label in ('x', 'x' * 200, '.l', 'a.b_c'):
                    for c in CONFIGS:
                        program(ctx, classes, [('section', name, 'R', None), ('label', label), ('bytes', b'\1'), ('section', other, 'W', None), ('export', label), ('bytes', b'\2')], c)
                    ctx.state((name, other, label))
    # labels far from the start of their section
    for n in (0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0, 0x100000000, 0x123456789ABC):
        for c in CONFIGS:
            if c[0] == 64 or n < 0xFFFFFFFF:
                program(ctx, classes, [('section', 's', 'RW', 16), ('bytes', b'\1'), ('label', 'x'), ('ram', n), ('label', 'yy'), ('bytes', b'\2'), ('export', 'yy'), ('export', 'x')], c)
                ctx.state(('far', n, c))
    # a section that starts where the last one ended is a new origin all the same
    for size, start, up in itertools.product((0, 3, 16), (None, 0, 3, 16, 40), (0, 1, 8)):
        ops = [('section', 's', 'RW', None), ('bytes', b'\1' * size), ('section', 't', 'RX', start), ('label', 'x'), ('upto', up), ('label', 'yy'), ('bytes', b'\2'), ('upto', up + 3), ('export', 'yy'), ('export', 'x')]
        if start is not None or size <= up:
            for c in CONFIGS:
                program(ctx, classes, ops, c)
            ctx.state(('upto', size, start, up))
    for start in (0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x100000000, 0xFFFFFFFFFFFFFFF0):
        for c in CONFIGS:
            if c[0] == 64 or start < 1 << 32:
                program(ctx, classes, [('section', 'hi', 'R', start), ('label', 'x'), ('bytes', b'\1'), ('label', 'yy'), ('export', 'yy'), ('export', 'x')], c)
    for count in (20, 100, 300):
        ops = []
        for i in range(count):
            ops += [('section', 'n%d' % i, 'RX', None), ('label', 'l%d' % i), ('bytes', bytes((i & 255,))), ('export', 'l%d' % i)]
        for c in CONFIGS:
            program(ctx, classes, ops, c)


def entries(ctx):
    """the entry point given to the linker"""
    from necroassembler.linker import ELF
    classes = classes_()
    for bits, big, e_type, machine, align in CONFIGS:
        linker = ELF(bits, big, e_type, machine, alignment=align)
        for entry in (0, 1, 0xFF, 0x1234, 0x12345678, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF) + ((1 << 32, 0x123456789ABCDEF0, (1 << 64) - 1) if bits == 64 else ()):
            for src in ('', '.db 1', '.section .text RX 16\nx: .dw x\n.export x'):
                a = classes[big]()
                a.assemble(src)
                linker.entry_point = entry
                a.link(linker)
                ctx.trace()
                ctx.step()
                ctx.state((bits, big, entry, src))
                sig = 'ELF%d big %s entry %x of %r' % (bits, big, entry, src)
                try:
                    secs, syms = read_elf(a.assembled_bytes, bits, big, e_type, machine, align, entry)
                except Bad as exc:
                    ctx.fail(sig, 'well-formed object', str(exc))
                    continue
                ctx.expect(sig, ([('.text', 16, 6, 2, b'\0\x10' if big else b'\x10\0')], [('x', '.text', 0)]) if 'x' in src else ([], []), (secs, syms))


def several(ctx):
    """one linker object used for several programs, every order of three; failures in between"""
    from necroassembler.linker import ELF
    classes = classes_()
    progs = [[('section', '.text', 'RX', None), ('label', 'x'), ('bytes', b'\1'), ('export', 'x')],
             [('section', '.data', 'RW', 64), ('bytes', b'\1\2'), ('label', 'yy'), ('ref', 'yy'), ('export', 'yy'), ('section', 'q', 'R', None)],
             [('section', '.text', 'RX', None), ('ref', 'nowhere')],
             [('export', 'x'), ('bytes', b'\5')],
             [('section', '.text', 'RX', None), ('label', 'x'), ('bytes', b'\1' * 70000), ('ref', 'x'), ('label', 'far'), ('ref', 'nowhere'), ('ref', 'far')],
             []]
    for config in CONFIGS:
        bits, big, e_type, machine, align = config
        for order in itertools.product(range(len(progs)), repeat=3):
            linker = ELF(bits, big, e_type, machine, alignment=align)
            for step, p in enumerate(order):
                if p == 4:
                    continue       # label out of range: stale references of a failed link are unspecified
                m = Model(big)
                a = classes[big]()
                for o in progs[p]:
                    m.do(o)
                a.assemble('\n'.join(text(o) for o in progs[p]))
                secs, syms, unresolved, fail = m.finish()
                sig = 'ELF%d %s programs %s step %d' % (bits, big, order, step)
                ctx.trace()
                ctx.step()
                try:
                    a.link(linker)
                except impl.asm_error():
                    ctx.expect(sig, 'refused' if unresolved or fail else 'linked', 'refused')
                    continue
                except Exception as exc:  # noqa
                    ctx.fail(sig, 'linked or refused', repr(exc))
                    continue
                if unresolved or fail:
                    ctx.fail(sig, 'refused', 'linked')
                    continue
                judge(ctx, sig, a.assembled_bytes, config, secs, syms)
            ctx.state((config, order))


def relocating(ctx):
    """a linker with its own relocate method is asked about every unresolved reference, and no other"""
    from necroassembler.linker import ELF
    classes = classes_()
    for config in CONFIGS:
        bits, big, e_type, machine, align = config
        for refs in itertools.product(('x', 'ext', 'other', None), repeat=4):
            asked = []

            class Linker(ELF):
                def relocate(self, address, symbol_data):
                    asked.append((address, symbol_data.label, symbol_data.size))
            ops = [('section', '.text', 'RX', None), ('bytes', b'\1\2'), ('label', 'x'), ('export', 'x')] + [('ref', r) if r else ('bytes', b'\3') for r in refs]
            m = Model(big)
            for o in ops:
                m.do(o)
            secs, syms, unresolved, fail = m.finish()
            a = classes[big]()
            a.assemble('\n'.join(text(o) for o in ops))
            sig = 'relocate ELF%d %s %s' % (bits, big, refs)
            ctx.trace()
            ctx.step(len(ops))
            ctx.state((config, refs))
            try:
                a.link(Linker(bits, big, e_type, machine, alignment=align))
            except Exception as exc:  # noqa
                ctx.fail(sig, 'linked', repr(exc))
                continue
            ctx.expect(sig + ' asked about', sorted((at, n, 2) for at, n in unresolved), sorted((x[0] if isinstance(x[0], int) else x[0][0], x[1], x[2]) for x in asked))
            judge(ctx, sig, a.assembled_bytes, config, secs, syms)


def relocating_words(ctx):
    """several unresolved references in one instruction word, of several sizes and kinds"""
    from necroassembler.linker import ELF
    names = ('x', 'ext', 'other', 'ext-1', '5')
    ops = [('TW %s %s', 2), ('.dd %s', 1), ('LDI %s', 1), ('JQ %s', 1), ('BRL %s', 1), ('.db %s %s', 2)]
    for big in (False, True):
        C = impl.toy(big_endian=big)
        for (t1, n1), (t2, n2) in itertools.product(ops, repeat=2):
            for args in itertools.product(names, repeat=n1 + n2):
                core.arm()
                asked = []

                class Linker(ELF):
                    def relocate(self, address, symbol_data):
                        asked.append((address, symbol_data.label, symbol_data.bits, symbol_data.size, symbol_data.relative))
                a = C()
                a.assemble('.section .text RX\nx:\n' + t1 % args[:n1])
                second = a.pc
                a.assemble(t2 % args[n1:])
                # the fields of each statement, where they are
                want = []
                for t, at, vals in ((t1, 0, args[:n1]), (t2, second, args[n1:])):
                    fields = {'TW': [(0, (23, 12), 4, None), (0, (11, 0), 4, at + 4)], '.dd': [(0, None, 4, None)], 'LDI': [(1, None, 1, None)], 'JQ': [(0, (25, 2), 4, None)], 'BRL': [(1, None, 2, at + 3)],
                              '.db': [(0, None, 1, None), (1, None, 1, None)]}[t.split()[0]]
                    want += [(at + f[0], v, f[1], f[2], f[3]) for f, v in zip(fields, vals) if 'ext' in v or v == 'other']
                sig = 'relocate %s | %s' % (t1 % args[:n1], t2 % args[n1:])
                ctx.trace()
                ctx.step(2)
                ctx.state((t1, t2, args))
                try:
                    a.link(Linker(32, big, 1, 3))
                except Exception as exc:  # noqa
                    ctx.fail(sig, 'linked', repr(exc))
                    continue
                ctx.expect(sig + ' asked about', sorted(want, key=repr), sorted(asked, key=repr))


def processors(ctx):
    """instructions of real processors inside sections"""
    from necroassembler.linker import ELF
    cases = [('ppc', (32, True, 1, 0x14, 4), 'a: addi r3,r4,1\nb a', bytes.fromhex('386400014bfffffc')),
             ('i8086', (32, False, 1, 3, 0), 'a: MOV AX,a\nPUSH ES', bytes.fromhex('b8000006')),
             ('m68k', (32, True, 1, 4, 2), 'a: nop\nmove.w #a,d0', bytes.fromhex('4e71303c0000')),
             ('mips32', (32, True, 1, 8, 4), 'a: addu $zero,$zero,$zero', bytes.fromhex('00000021')),
             ('thumb', (32, False, 1, 40, 4), 'a: MOV r0,#1', bytes.fromhex('0120'))]
    for cpu, config, src, code in cases:
        for extra in (b'', b'\1', b'\1\2\3\4\5'):
            a = impl.load(cpu)()
            a.assemble('.section .text RX\n' + src + '\n.export a\n.section .data RW\nd: ' + ('.db ' + ' '.join(map(str, extra)) if extra else '') + '\n.export d')
            a.link(ELF(config[0], config[1], config[2], config[3], alignment=config[4]))
            judge(ctx, cpu + ' %d' % len(extra), a.assembled_bytes, config, [('.text', 0, 6, len(code), code), ('.data', len(code), 3, len(extra), extra)], [('a', '.text', 0), ('d', '.data', 0)])
            ctx.trace()
            ctx.state((cpu, extra))


def shards(tier):
    deep = tier == 'thorough'
    out = [('empty', programs, ((), 0))]
    for a in ALPHABET:
        out.append(('programs %s' % text(a), programs, ((a,), 0)))
        for b in ALPHABET:
            out.append(('programs %s | %s' % (text(a), text(b)), programs, ((a, b), 4 if deep else 3)))
    out += [('structured %d' % n, structured, (n,)) for n in ((1, 2, 3) if deep else (1, 2))]
    out += [(f.__name__, f, ()) for f in (permissions, positions, entries, several, relocating, relocating_words, processors)]
    return out


if __name__ == '__main__':
    core.main('C50', shards, rule='every program of up to five (six) statements over three sections, two labels, their exports, data and references, for both classes and byte orders; every permission string; layouts of up to two (three) sections with labels at start, middle and end; one linker object for every sequence of three programs; entry points, labels far into their section, sections starting where the last one ended',
              assumptions=['a section address and label values that fit the ELF class'])
