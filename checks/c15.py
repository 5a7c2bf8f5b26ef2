"""C15: the command-line entry points - every tool, every source order, every fault in every position.

Each case runs a tool the way its console script does (a real process for a subset) inside a scratch
directory whose whole contents are compared before and after.
"""
import ast
import contextlib
import importlib
import io
import itertools
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, impl

# tools without a console script
EXTRA = [('i386_elf32', 'necroassembler.platforms.i386_elf32:main'),
         ('ppc_elf32', 'necroassembler.platforms.ppc_elf32:main'),
         ('x86_64_elf64', 'necroassembler.platforms.x86_64_elf64:main'),
         ('powerpc', 'necroassembler.cpu.powerpc:AssemblerPowerPC.main'),
         ('mips32', 'necroassembler.cpu.mips32:AssemblerMIPS32.main'),
         ('lr35902', 'necroassembler.cpu.lr35902:AssemblerLR35902.main'),
         ('x86', 'necroassembler.cpu.x86:AssemblerX86.main'),
         ('base', 'necroassembler.assembler:Assembler.main')]
BIG = ('m68k', 'mips', 'genesis', 'ppc', 'powerpc')
ELF = ('i386_elf32', 'ppc_elf32', 'x86_64_elf64')
NEEDS = {'necro_gb': 0x150, 'necro_gba': 0xBE, 'necro_genesis': 0x190}


def scripts():
    tree = ast.parse(open(os.path.join(core.REPO, 'setup.py')).read())
    for node in ast.walk(tree):
        if isinstance(node, ast.keyword) and node.arg == 'entry_points':
            return [tuple(x.strip() for x in s.split('=')) for s in ast.literal_eval(node.value)['console_scripts']]
    return []


def tools():
    seen, out = set(), []
    for name, target in scripts() + EXTRA:
        if name not in seen:
            seen.add(name)
            out.append((name, target))
    return out


def resolve(target):
    mod, attr = target.split(':')
    obj = importlib.import_module(mod)
    for part in attr.split('.'):
        obj = getattr(obj, part)
    return obj


def loads(target):
    try:
        return callable(resolve(target))
    except (ImportError, AttributeError):
        return False


def snapshot(root):
    out = {}
    for base, dirs, files in os.walk(root):
        for d in dirs:
            out[os.path.relpath(os.path.join(base, d), root) + '/'] = None
        for f in files:
            p = os.path.join(base, f)
            out[os.path.relpath(p, root)] = open(p, 'rb').read()
    return out


@contextlib.contextmanager
def scratch(files):
    old = os.getcwd()
    root = tempfile.mkdtemp(prefix='c15-')
    try:
        for name, data in files.items():
            p = os.path.join(root, name)
            if data is None:
                os.makedirs(p)
            else:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(data if isinstance(data, bytes) else data.encode())
        os.chdir(root)
        yield root
    finally:
        os.chdir(old)
        shutil.rmtree(root)


def call(target, args, **kw):
    """run the tool in this process: (failed, exception, output)"""
    fn = resolve(target)
    argv = sys.argv
    sys.argv = ['tool'] + list(args)
    out = io.StringIO()
    signal.alarm(core.CASE_SECONDS)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            rc = fn(**kw)
        return bool(rc), None, out.getvalue()
    except SystemExit as e:
        return e.code not in (None, 0), e, out.getvalue()
    except Exception as e:  # noqa
        return True, e, out.getvalue()
    finally:
        signal.alarm(0)
        sys.argv = argv


def diff(before, after):
    return {k: (before.get(k, 'absent'), after.get(k, 'absent')) for k in sorted(set(before) | set(after)) if before.get(k, 'absent') != after.get(k, 'absent')}


def big(name):
    return any(b in name for b in BIG)


def word(name, v):
    return struct.pack('>H' if big(name) else '<H', v)


PARTS = {'s1': ('one: .fill 416 3\n.dw three\n', lambda n, at: bytes([3] * 416) + word(n, at['s3'])),
         's2': ('two: .db 1 2 3\n.dw one\n', lambda n, at: b'\1\2\3' + word(n, at['s1'])),
         's3': ('.log OFF\nthree: .db 0xFE\n.dw two', lambda n, at: b'\xFE' + word(n, at['s2']))}
SIZES = {'s1': 418, 's2': 5, 's3': 3}
# the same without references to the other files
ALONE = {'s1': ('one: .fill 416 3\n.dw one\n', 'one'), 's2': ('two: .db 1 2 3\n.dw two\n', 'two'), 's3': ('three: .db 0xFE\n.dw three', 'three')}
HEXES = {'necro_6502': '$FE', 'necro_nes': '$FE', 'necro_gb': '$FE', 'lr35902': '$FE', 'necro_z80': '$FE', 'necro_sms': '$FE', 'base': '254', 'necro_m68k': '$FE', 'necro_genesis': '$FE'}


def plain(name, order):
    """(files, raw image) of the sources in this order, each referring to the next"""
    at, pos = {}, 0
    for s in order:
        at[s] = pos
        pos += SIZES[s]
    files, raw = {}, b''
    nxt = {'s1': ('s3', 'three'), 's2': ('s1', 'one'), 's3': ('s2', 'two')}
    for s in order:
        text = PARTS[s][0].replace('0xFE', HEXES.get(name, '254'))
        to, label = nxt[s]
        while to not in order:
            to, label = nxt[to]
        text = text.replace('.dw ' + nxt[s][1], '.dw ' + label)
        files[s + '.S'] = text
        raw += PARTS[s][1](name, {nxt[s][0]: at[to]})
    return files, raw, {'one': at.get('s1'), 'two': at.get('s2'), 'three': at.get('s3')}


def fixed(name, raw, labels):
    """files the tool writes for this linked image (reference fix-ups), destination first"""
    b = bytearray(raw)
    if len(b) < NEEDS.get(name, 0):
        return {}
    if name == 'necro_gb':
        b[0x14D] = -sum(x + 1 for x in b[0x134:0x14D]) & 255
        b[0x14E] = b[0x14F] = 0
        b[0x14E:0x150] = struct.pack('>H', sum(b) & 0xFFFF)
    elif name == 'necro_gba':
        b[0xBD] = (-sum(b[0xA0:0xBD]) - 0x19) & 255
    elif name == 'necro_genesis':
        body = bytes(b[0x200:]) + b'\0' * (max(0, len(b) - 0x200) % 2)
        b[0x18E:0x190] = struct.pack('>H', sum(struct.unpack('>%dH' % (len(body) // 2), body[:len(body) // 2 * 2])) & 0xFFFF)
    elif name == 'necro_psx':
        b += bytes(-len(b) % 2048)
        h = bytearray(2048)
        h[:8] = b'PS-X EXE'
        struct.pack_into('<IIII', h, 0x10, 0x80010000, 0xFFFFFFFF, 0x80010000, len(b))
        struct.pack_into('<I', h, 0x30, 0x801FFFF0)
        h[0x4C:0x4C + 48] = b'Sony Computer Entertainment Inc. for Europe area'
        b = h + b
    out = {'out.bin': bytes(b)}
    if name == 'necro_nes':
        out['out.bin.0.nl'] = out['out.bin.ram.nl'] = b''
        for n, v in labels.items():
            if v is not None and v <= 0x7FF:
                out['out.bin.ram.nl'] += b'$%04X#%s#\r\n' % (v, n.encode())
    return out


def elf_image(name, files, order):
    """the linked object as the library gives it"""
    from necroassembler.linker import ELF
    kw, cls = {'i386_elf32': (dict(bits=32, big_endian=False, e_type=1, machine=3), 'i8086'),
               'ppc_elf32': (dict(bits=32, big_endian=True, e_type=1, machine=0x14, alignment=4), 'ppc'),
               'x86_64_elf64': (dict(bits=64, big_endian=False, e_type=1, machine=0x3E), 'x86')}[name]
    a = impl.load(cls)()
    for s in order:
        a.assemble(files[s + '.S'], s + '.S')
    a.link(ELF(**kw))
    return bytes(a.assembled_bytes)


def expected(name, order):
    files, raw, labels = plain(name, order)
    if name in ELF:
        for s in order:
            files[s + '.S'] = '.section .%s RX\n' % s + files[s + '.S'] + '\n.export ' + {'s1': 'one', 's2': 'two', 's3': 'three'}[s] + '\n'
        return files, {'out.bin': elf_image(name, files, order)}
    return files, fixed(name, raw, labels)


ORDERS = [o for n in (1, 2, 3) for o in itertools.permutations(('s1', 's2', 's3'), n)]


def same_lines(want, got):
    """symbol files may list labels in any order"""
    return sorted(want.split(b'\n')) == sorted((got or b'').split(b'\n'))


def verify(ctx, sig, want, before, after):
    changed = diff(before, after)
    for f, data in want.items():
        got = after.get(f)
        if f.endswith('.nl'):
            if got is None or not same_lines(data, got):
                ctx.fail('%s %s' % (sig, f), data, got)
        else:
            ctx.expect('%s %s' % (sig, f), data, got)
    other = [k for k in changed if k not in want]
    ctx.expect(sig + ' other files', [], other)


def successes(ctx, name, target):
    for order in ORDERS:
        files, want = expected(name, order)
        size = sum(SIZES[s] for s in order)
        for pre in (None, b'', b'old contents' * 300):
            start = dict(files)
            if pre is not None:
                start['out.bin'] = pre
            with scratch(start) as root:
                before = snapshot(root)
                failed, exc, out = call(target, [s + '.S' for s in order] + ['out.bin'])
                after = snapshot(root)
            sig = '%s %s onto %s' % (name, order, 'nothing' if pre is None else '%d bytes' % len(pre))
            ctx.trace()
            ctx.step(len(order) + 2)
            ctx.state((name, order, pre))
            if size < NEEDS.get(name, 0):
                # the image has no room for the fix-ups
                ctx.expect(sig + ' (too small) fails', True, failed)
                ctx.expect(sig + ' (too small) changes', {}, diff(before, after))
                continue
            if failed:
                ctx.fail(sig, 'success', repr(exc))
                continue
            verify(ctx, sig, want, before, after)
        ctx.sample({'tool': name, 'order': order, 'bytes': len(want.get('out.bin', b''))})
    # the same source given several times, many sources, another order of names
    if name not in ELF:
        d = [b'\xA0\xA1\xA2', b'\xB0', b'\xC0\xC1']
        texts = {'z.S': '.fill 400 7\n.incbin "z.bin"\n', 'a.S': '.incbin "a.bin"', 'm.S': '.db 1\n.incbin "m.bin"\n'}
        data = {'z.S': b'\7' * 400 + d[0], 'a.S': d[1], 'm.S': b'\1' + d[2]}
        files2 = dict(texts, **{'z.bin': d[0], 'a.bin': d[1], 'm.bin': d[2]})
        for args in (['z.S', 'z.S'], ['z.S', 'a.S', 'a.S'], ['a.S', 'z.S', 'a.S'], ['z.S', 'a.S', 'm.S', 'a.S', 'z.S'], ['z.S'] + ['a.S', 'm.S'] * 20, ['./z.S', 'z.S', 'a.S', './a.S']):
            want2 = fixed(name, b''.join(data[a.split('/')[-1]] for a in args), {})
            with scratch(files2) as root:
                before = snapshot(root)
                failed, exc, out = call(target, args + ['out.bin'])
                if failed:
                    ctx.fail('%s %s' % (name, args), 'success', repr(exc))
                else:
                    verify(ctx, '%s %s' % (name, args), want2, before, snapshot(root))
            ctx.trace()
            ctx.step(len(args))
            ctx.state((name, tuple(args)))
        # every byte of the image arrives: sizes around the usual buffers, every kind of last bytes
        for n in (511, 512, 513, 1024, 4095, 4096, 8192, 32768, 65535, 65536, 65537, 131072, 200003):
            for tail in (b'\0', b'\xFF', b'\n', b'\r\n', b'\x1A', b'\xEA\0\0', b'\xFF' * 40, b'\0' * 600):
                raw = bytes((i * 7 + i // 251) & 255 for i in range(n))[:-len(tail)] + tail if n > len(tail) else tail
                with scratch({'z.S': '.incbin "z.bin"', 'z.bin': raw}) as root:
                    before = snapshot(root)
                    failed, exc, out = call(target, ['z.S', 'out.bin'])
                    if failed:
                        ctx.fail('%s, %d bytes ending with %r' % (name, n, tail[:4]), 'success', repr(exc))
                    else:
                        verify(ctx, '%s, %d bytes ending with %r' % (name, n, tail[:4]), fixed(name, raw, {}), before, snapshot(root))
                ctx.trace()
                ctx.step()
                ctx.state((name, n, tail))
        # line ends of the sources, with and without one at the end
        for eol, last, bom in itertools.product(('\n', '\r\n', '\r', '\n\r', '\r\r\n'), (False, True), ('', '; caf\xe9 ')):
            lines = [bom, '.fill 416 2', 'one: .db 1 2 ; x', '', '.dw one', '.db "a b"']
            text = eol.join(lines) + (eol if last else '')
            with scratch({'e.S': text.encode('utf-8'), 'f.S': b'.db 9'}) as root:
                before = snapshot(root)
                failed, exc, out = call(target, ['e.S', 'f.S', 'out.bin'])
                want2 = fixed(name, bytes([2]) * 416 + b'\1\2' + word(name, 416) + b'a b\x09', {'one': 416})
                if failed:
                    ctx.fail('%s with lines ended by %r' % (name, eol), 'success', repr(exc))
                else:
                    verify(ctx, '%s with lines ended by %r' % (name, eol), want2, before, snapshot(root))
            ctx.trace()
            ctx.step()
            ctx.state((name, eol, last))
    # a destination in another directory, sources with paths
    files, want = expected(name, ('s1', 's2', 's3'))
    with scratch({**{'src/' + k: v for k, v in files.items()}, 'dst': None}) as root:
        before = snapshot(root)
        failed, exc, out = call(target, ['src/s1.S', os.path.join(root, 'src', 's2.S'), 'src/s3.S', 'dst/out.bin'])
        if failed:
            ctx.fail(name + ' with paths', 'success', repr(exc))
        elif name in ELF:
            verify(ctx, name + ' with paths', {'dst/' + k: v for k, v in want.items()}, before, snapshot(root))
        else:
            verify(ctx, name + ' with paths', {'dst/' + k: v for k, v in want.items()}, before, snapshot(root))
        ctx.trace()
    # a source that is also the destination is read first
    if name != 'necro_nes':
        with scratch(files) as root:
            before = snapshot(root)
            failed, exc, out = call(target, ['s1.S', 's2.S', 's3.S', 's3.S'])
            if failed:
                ctx.fail(name + ' onto its source', 'success', repr(exc))
            else:
                verify(ctx, name + ' onto its source', {'s3.S': want['out.bin']}, before, snapshot(root))
            ctx.trace()


def carried(ctx, name, target):
    """what one source opens or defines is there for the following ones"""
    if name in ELF:
        return
    fill = '.fill 416 3'
    P = bytes([3]) * 416
    w = lambda v: word(name, v)
    progs = [((fill + '\n.define K 7', '.db K'), P + b'\7'), ((fill, '.define K 7', '', '; K', '.db K K'), P + b'\7\7'),
             ((fill + '\n.macro M p\nNOP p', 'BOGUS'), P), ((fill + '\n.macro M', 'NOP', '.endmacro', '.db 4'), P + b'\4'), ((fill + '\n.repeat 3\n.db 1', '.db 2', '.endrepeat\n.db 4'), P + b'\1\2' * 3 + b'\4'),
             ((fill + '\n.ram 4', 'here: .dw here'), P + w(420)), ((fill + '\n.org 8192', 'here: .dw here', '.align 4\nnext:', '.dw next'), P + w(8192) + b'\0\0' + w(8196)), ((fill, '.org 0 7\n.db 1', '.org 8\n.db 2'), P + b'\1' + bytes(7) + b'\2'),
             (('.org 0 511\n' + fill, '.org 512\nhere:', '.dw here'), P + bytes(96) + w(512)), ((fill + '\nx:', 'y:\n.dw x', 'x:'), None), ((fill + '\n.section s RX', '.section s RX'), None), ((fill + '\n.section s RX', '.db 5\nx:', '.export x', '.dw x'), P + b'\5' + w(417)),
             ((fill + '\n.export x', 'x:\n.export x'), None), ((fill + '\n.repeat 2', '.repeat 2'), None), ((fill + '\n.endrepeat',), None), ((fill, '.endmacro'), None), ((fill + '\n.db "open', '"'), None), ((fill + '\nlab', ': .db 1'), None),
             ((fill + '\n.define K J', '.define J 3', '.db J'), P + b'\3'), ((fill + '\n.define K 1', '.db K', '.define K 2', '.db K'), P + b'\1\2'), ((fill, '.upto 418 9', 'e: .dw e'), P + b'\x09\x09' + w(418))]
    for parts, raw in progs:
        # what the fix-ups of the nes tool list
        names = ['f%d.S' % i for i in range(len(parts))]
        labels = {'here': {True: 420}.get('.ram 4' in parts[0], 512 if '511' in parts[0] else 8192), 'x': 417, 'e': 418, 'next': 8196}
        for pre in (None, b'old'):
            files = dict(zip(names, parts))
            if pre:
                files['out.bin'] = pre
            with scratch(files) as root:
                before = snapshot(root)
                failed, exc, out = call(target, names + ['out.bin'])
                after = snapshot(root)
            sig = '%s %s' % (name, ' || '.join(x.replace(fill, '').strip() for x in parts))
            ctx.trace()
            ctx.step(len(parts))
            ctx.state((name, parts, pre))
            if raw is None:
                ctx.expect(sig + ' fails', True, failed)
                ctx.expect(sig + ' changes', {}, diff(before, after))
            elif failed:
                ctx.fail(sig, 'success', repr(exc))
            else:
                mine = {n: v for n, v in labels.items() if any(('\n' + n + ':') in '\n' + x for x in parts)}
                verify(ctx, sig, fixed(name, raw, mine), before, after)


def odd_names(ctx, name, target):
    """empty sources, unusual file names, diagnostics that tell equal names apart"""
    if name in ELF:
        return
    for texts, raw in ((('',), b''), (('', ''), b''), (('; nothing',), b''), (('.db 5',), b'\5'), (('', '.db 5'), b'\5'), (('.db 5', '', '\n\n'), b'\5'), (('.define A 5', '.db A'), b'\5'), (('x:',), b''), (('.ram 7', 'x:'), b''), (('.fill 0',), b'')):
        for pre in (None, b'', b'old' * 999):
            files = {'e%d.S' % i: t for i, t in enumerate(texts)}
            if pre is not None:
                files['out.bin'] = pre
            sig = '%s of %r onto %s' % (name, texts, 'nothing' if pre is None else '%d bytes' % len(pre))
            with scratch(files) as root:
                before = snapshot(root)
                failed, exc, out = call(target, ['e%d.S' % i for i in range(len(texts))] + ['out.bin'])
                after = snapshot(root)
            ctx.trace()
            ctx.step(len(texts))
            ctx.state((name, texts, pre))
            if len(raw) < NEEDS.get(name, 0):
                ctx.expect(sig + ' (too small) fails', True, failed)
                ctx.expect(sig + ' (too small) changes', {}, diff(before, after))
            elif failed:
                ctx.fail(sig, 'success', repr(exc))
            else:
                lab = {'x': 0} if texts == ('x:',) else {'x': 7} if 'x:' in texts else {}
                verify(ctx, sig, fixed(name, raw, lab), before, after)
    odd = ['a b.S', '-a.S', '--help', '-', '-o', 'x', '.S', 'a.b.c', "q'uote", '%s', '{0}', 'caf\xe9.S', '#1', 'a;b', 'UPPER.S', 'upper.S', '$HOME', '~', '*', 'out', 'a=b', '@file', 'a,b', 'a.bin', '0', 'out.bin.S']
    for first in odd:
        for dest in ('out.bin', 'o ut', '-o.bin', 'dest', 'caf\xe9', '%d.bin', '{}', 'a.S.out', '..bin', '-v'):
            if dest != 'out.bin' and first not in odd[:3]:
                continue
            files = {first: '.fill 416 4\n.db 1', 'z.S': '.db 2'}
            sig = '%s of %r to %r' % (name, first, dest)
            with scratch(files) as root:
                before = snapshot(root)
                failed, exc, out = call(target, [first, 'z.S', first, dest])
                after = snapshot(root)
            ctx.trace()
            ctx.step(3)
            ctx.state((name, first, dest))
            if failed:
                ctx.fail(sig, 'success', repr(exc))
                continue
            one = bytes([4] * 416) + b'\1'
            verify(ctx, sig, {dest + k[7:]: v for k, v in fixed(name, one + b'\2' + one, {}).items()}, before, after)
    for bad in ('.nope', '.db 300', '.db nowhere,\n.zz', '\n\nNOPE 1'):
        for where in (0, 1, 2):
            paths = ['one/main.S', 'two/main.S', 'main.S']
            files = {p: '.fill 500 1\n' for p in paths}
            files[paths[where]] += bad
            with scratch(files) as root:
                failed, exc, out = call(target, paths + ['out.bin'])
            ctx.trace()
            ctx.step(3)
            sig = '%s: %r in %s' % (name, bad, paths[where])
            ctx.expect(sig + ' fails', True, failed)
            text = str(exc) + out
            if paths[where] not in text or any(p in text for p in paths[:2] if p != paths[where]):
                ctx.fail(sig, 'a diagnostic naming that file', text)


def bad_sources(name):
    return {'missing': None,
            'directory': 'dir',
            'unknown directive': '.bogus 1\n',
            'unknown instruction': 'bogus 1\n',
            'unterminated text': '.db "abc\n',
            'undecodable': b'.db 1\n\xff\xfe\xff\n',
            'missing include': '.include "nowhere.S"\n',
            'missing incbin': '.incbin "nowhere.bin"\n',
            'error in include': '.include "bad.inc"\n',
            'unknown label': '.dw nowhere\n',
            'label too large': '.org 70000\nfar: .org 0\n.dw far\n',
            'label twice': 'dup: .db 1\ndup: .db 2\n',
            'number too large': '.db 256\n',
            'error on the last line': '.db 1 2 3\n.dw 5\n.ends'}


def faults(ctx, name, target, count):
    order = ('s1', 's2', 's3')[:count]
    files, _ = expected(name, order)
    for pos in range(count):
        for kind, text in bad_sources(name).items():
            for where in ('whole', 'after') if isinstance(text, str) and kind != 'directory' else ('whole',):
                for pre in (None, b'old'):
                    start = dict(files)
                    start['bad.inc'] = '.db 1\n.bogus\n'
                    args = [s + '.S' for s in order] + ['out.bin']
                    if kind == 'missing':
                        del start[args[pos]]
                    elif kind == 'directory':
                        start[args[pos]] = None
                    elif isinstance(text, bytes):
                        start[args[pos]] = text
                    else:
                        start[args[pos]] = (start[args[pos]] + '\n' if where == 'after' else '') + text
                    if pre is not None:
                        start['out.bin'] = pre
                    with scratch(start) as root:
                        before = snapshot(root)
                        failed, exc, out = call(target, args)
                        after = snapshot(root)
                    sig = '%s: %s %s source %d of %d, destination %s' % (name, kind, where, pos + 1, count, 'absent' if pre is None else 'present')
                    ctx.trace()
                    ctx.step(count + 2)
                    ctx.state((name, kind, where, pos, count, pre))
                    ctx.expect(sig + ': the error surfaces', True, failed)
                    ctx.expect(sig + ': nothing is written', {}, diff(before, after))
    # destinations that cannot be written, too few arguments
    for kind, dest, extra in (('in a missing directory', 'no/out.bin', {}), ('a directory', 'dst', {'dst': None}), ('below a file', 's1.S/out', {}), ('empty', '', {})):
        with scratch(dict(files, **extra)) as root:
            before = snapshot(root)
            failed, exc, out = call(target, [s + '.S' for s in order] + [dest])
            ctx.expect('%s: %d sources, destination %s: the error surfaces' % (name, count, kind), True, failed)
            ctx.expect('%s: %d sources, destination %s: nothing is written' % (name, count, kind), {}, diff(before, snapshot(root)))
            ctx.trace()
            ctx.step(count + 2)
    for args in ([], ['s1.S'], ['new.bin']):
        with scratch(files) as root:
            before = snapshot(root)
            failed, exc, out = call(target, args)
            ctx.expect('%s %s is told about' % (name, args), True, failed or 'usage' in out.lower())
            ctx.expect('%s %s: nothing is written' % (name, args), {}, diff(before, snapshot(root)))
            ctx.trace()
            ctx.step(1)


def successive(ctx, pairs):
    """a run does not change what later runs in the process do"""
    todo = [t for t in tools() if loads(t[1])]
    first = {}
    for i, j in pairs:
        for k, fail in ((i, False), (j, True), (i, False), (j, False)):
            name, target = todo[k]
            files, want = expected(name, ('s1', 's2', 's3'))
            if fail:
                files['s3.S'] = '.dw nowhere\n'
            with scratch(files) as root:
                failed, exc, out = call(target, ['s1.S', 's2.S', 's3.S', 'out.bin'])
                got = snapshot(root).get('out.bin')
            ctx.trace()
            ctx.step()
            ctx.expect('%s after others (%s): failed' % (name, todo[j][0]), fail, failed)
            ctx.expect('%s after others (%s)' % (name, todo[j][0]), None if fail else want['out.bin'], got)
            ctx.state((i, j, k, fail))


def passes(ctx, name, target):
    """main(pre_link_passes, post_link_passes, linker)"""
    from necroassembler.linker import Dummy
    files, raw, labels = plain(name, ('s1', 's2', 's3'))
    want = fixed(name, raw, labels)
    for npre, npost, link in itertools.product(range(3), range(3), (False, True)):
        log = []

        class Linker(Dummy):
            def link(self, assembler):
                log.append('link')
                return b'<' + bytes(assembler.assembled_bytes) + b'>'

        def make(tag):
            def f(asm):
                log.append(tag)
                log.append(bytes(asm.assembled_bytes[416:418]) == word(name, labels['three']))
                asm.assembled_bytes[300 + int(tag[-1]) + (10 if tag[:4] == 'post' else 0)] ^= 0x40
            return f
        kw = {}
        if npre:
            kw['pre_link_passes'] = [make('pre%d' % i) for i in range(npre)]
        if npost:
            kw['post_link_passes'] = [make('post%d' % i) for i in range(npost)]
        if link:
            kw['linker'] = Linker()
        for again in range(2):
            del log[:]
            with scratch(files) as root:
                failed, exc, out = call(target, ['s1.S', 's2.S', 's3.S', 'out.bin'], **(kw if not again else {}))
                got = snapshot(root).get('out.bin')
            sig = '%s with %d pre, %d post, linker %s%s' % (name, npre, npost, link, ', then without' if again else '')
            ctx.trace()
            ctx.step(npre + npost + 1)
            ctx.state((name, npre, npost, link, again))
            if failed:
                ctx.fail(sig, 'success', repr(exc))
                continue
            if again:
                ctx.expect(sig + ' calls', [], log)
                ctx.expect(sig, want['out.bin'], got)
                continue
            calls = []
            for i in range(npre):
                calls += ['pre%d' % i, False]
            for i in range(npost):
                calls += ['post%d' % i, True]
            ctx.expect(sig + ' calls', calls + (['link'] if link else []), log)
            b = bytearray(raw)
            for i in range(npre):
                b[300 + i] ^= 0x40
            for i in range(npost):
                b[310 + i] ^= 0x40
            if name == 'necro_gb':
                # the platform's own fix-ups run before or after the caller's passes
                late = bytearray(raw)
                for i in range(npre):
                    late[300 + i] ^= 0x40
                late = bytearray(fixed(name, late, labels)['out.bin'])
                for i in range(npost):
                    late[310 + i] ^= 0x40
                options = [bytes(late), fixed(name, b, labels)['out.bin']]
            else:
                options = [fixed(name, b, labels)['out.bin']]
            if link:
                options = [b'<' + o + b'>' for o in options]
            if got not in options:
                ctx.fail(sig, options[0], got)


def processes(ctx, name, target):
    """as the console script runs it"""
    mod, attr = target.split(':')
    env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1')
    code = 'import sys; from %s import %s; sys.exit(%s())' % (mod, attr.split('.')[0], attr)
    styles = [('script', [sys.executable, '-c', code])]
    src = open(importlib.import_module(mod).__file__).read()
    if '__main__' in src:
        styles.append(('module', [sys.executable, '-m', mod]))
    files, want = expected(name, ('s2', 's1', 's3'))
    for style, cmd in styles:
        for bad in (False, True):
            start = dict(files)
            if bad:
                start['s3.S'] = '.dw nowhere\n'
            with scratch(start) as root:
                before = snapshot(root)
                p = subprocess.run(cmd + ['s2.S', 's1.S', 's3.S', 'out.bin'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
                after = snapshot(root)
            ctx.trace()
            ctx.step()
            ctx.state((name, style, bad))
            sig = '%s as a %s%s' % (name, style, ' with an unknown label' if bad else '')
            if bad:
                ctx.expect(sig + ': exit status', True, p.returncode not in (0, None))
                ctx.expect(sig + ': nothing is written', {}, diff(before, after))
            elif p.returncode:
                ctx.fail(sig, 'exit status 0', p.stdout.decode()[-300:])
            else:
                verify(ctx, sig, want, before, after)


def declared(ctx):
    """every console script names something that can be called"""
    for name, target in scripts():
        ctx.trace()
        ctx.state(name)
        ctx.expect('console script %s' % name, '%s loads' % target, '%s %s' % (target, 'loads' if loads(target) else 'does not exist'))
    ctx.expect('number of console scripts', True, len(scripts()) >= 12)


def shards(tier):
    todo = [t for t in tools() if loads(t[1])]
    out = [('declared', declared, ())]
    for name, target in todo:
        out.append(('successes ' + name, successes, (name, target)))
        out.append(('odd names ' + name, odd_names, (name, target)))
        out.append(('carried ' + name, carried, (name, target)))
        for n in (1, 2, 3):
            out.append(('faults %s %d' % (name, n), faults, (name, target, n)))
        out.append(('processes ' + name, processes, (name, target)))
        if '.' in target.split(':')[1] and name != 'base':
            out.append(('passes ' + name, passes, (name, target)))
    pairs = [(i, j) for i in range(len(todo)) for j in range(len(todo))]
    for i in range(8):
        out.append(('successive %d' % i, successive, (pairs[i::8],)))
    return out


if __name__ == '__main__':
    core.main('C15', shards, rule='every entry point with every ordered selection of three sources, three states of the destination, every fault kind in every source position, unwritable destinations and missing arguments, every pair of tools run one after the other in a process, every number of extra passes; empty sources, 26 unusual file names, equal names in different directories, 21 programs whose sources continue each other',
              assumptions=['the tools run in-process with their argument vector replaced; a subset also as real processes'])
