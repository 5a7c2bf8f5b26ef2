"""C18: the log - every program over a small alphabet, its listing against the bytes each statement really added."""
import contextlib
import io
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, impl

# statement, tokens as written, (the statement's bytes come from a silent step by step run)
ALPHA = ['.log', '.log on', '.LOG Off', 'NOP', 'ldi 6', 'Jp b', 'mm 8', 'LDI 5', 'a:', '.db 1 2 "x y"', 'JP a', '.dw a+1', 'BR a', '.fill 300 7', '.fill 3 9', '.ram 2', '.org $30', '.align 8', 'MM 7', '.define K 3', 'LDI K', '.repeat 2', '.endrepeat', 'b:', '.dd b a',
         "LDI 'x'", '.db ""', '; nothing', '.macro MM p', '.endmacro']
PRE = '.macro MM p\nLDI p\nNOP\n.endmacro\n'


def words(text):
    from necroassembler.tokenizer import Tokenizer
    t = Tokenizer()
    t.parse(text)
    return [s for s in t.statements]


def silent(C, lines):
    """(statement, line, offset, bytes) of each statement, by calls of one statement each with the log off; None when refused"""
    a = C()
    a.assemble(PRE)
    out = []
    for n, text in enumerate(lines, 1):
        before = len(a.assembled_bytes)
        try:
            a.assemble(text if not text.lower().startswith('.log') else '')
        except impl.asm_error():
            return None
        for s in words(text):
            out.append((text, n, before, bytes(a.assembled_bytes[before:])))
    return out, a


BYTES = re.compile(r'\(((?:0x[0-9a-fA-F]{2})(?:,\s*0x[0-9a-fA-F]{2})*)\)')


def said(line):
    m = BYTES.search(line)
    return bytes(int(x, 16) for x in m.group(1).split(',')) if m else b''


def one(ctx, C, lines, context='prog.s', initial=False):
    r = silent(C, lines)
    if r is None:
        return
    steps, ref = r
    core.arm()
    a = C()
    a.assemble(PRE)
    a.log = initial
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        a.assemble('\n'.join(lines), context)
    got = [x for x in buf.getvalue().split('\n') if x]
    want = []
    on = initial
    for text, n, off, blob in steps:
        low = text.lower()
        if low.startswith('.log'):
            on = not low.endswith('off')
        if on:
            want.append((text, n, off, blob))
    ctx.trace()
    ctx.step(len(lines))
    ctx.state(tuple(want))
    sig = ' | '.join(lines) + (' (log on from the start)' if initial else '')
    if len(got) != len(want):
        return ctx.fail(sig, 'one line for each of %d statements' % len(want), got, lines)
    for line, (text, n, off, blob) in zip(got, want):
        bad = not re.search(r'line %d\b' % n, line) or (context is not None and context not in line) or any(t not in line.replace('\\\\', '\\') for t in words(text)[0].tokens if t != 'KK' and t != 'K')
        if blob:
            bad = bad or said(line) != blob or not re.search(r'\b0x0*%x$' % off, line.strip()) or 'not assembled' in line
        else:
            bad = bad or said(line) != b'' or 'not assembled' not in line
        if bad:
            ctx.fail(sig, 'a listing line for %r: line %d of %s, bytes %s at 0x%x' % (text, n, context, blob.hex(), off), line, lines)
    # linking
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            a.link()
    except impl.asm_error():
        return
    got = [x for x in buf.getvalue().split('\n') if x]
    if not on:
        ctx.expect(sig + ': linking with the log off', [], got)
        return
    refs = []
    for text, n, off, blob in steps:
        t = text.split()
        if t[0].upper() in ('JP', 'BR') and blob:
            refs.append((t[1], off + 1, len(blob) - 1))
        elif t[0] == '.dw' and blob:
            refs.append((t[1], off, 2))
        elif t[0] == '.dd':
            refs += [(t[1], off, 4), (t[2], off + 4, 4)]
    if '.endrepeat' in lines:
        return
    image = bytes(a.assembled_bytes)
    if len(got) != len(refs):
        return ctx.fail(sig + ': linking', refs, got, lines)
    for line, (lab, at, size) in zip(got, refs):
        if lab not in line or said(line) != image[at:at + size] or not re.search(r'\b0x0*%x$' % at, line.strip()):
            ctx.fail(sig + ': linking', '%s = %s at 0x%x' % (lab, image[at:at + size].hex(), at), line, lines)


def explore(ctx, first, depth, alpha):
    C = impl.toy()
    for rest in itertools.product(alpha, repeat=depth - 1):
        lines = (first,) + rest
        if lines.count('a:') > 1 or lines.count('b:') > 1:
            continue
        one(ctx, C, list(lines), initial=True)
        if any(x.lower().startswith('.log') for x in lines):
            one(ctx, C, list(lines), None, False)
    ctx.sample({'first': first, 'depth': depth})


def long(ctx):
    """statements of many bytes, and what follows them"""
    C = impl.toy()
    for n in (1, 2, 15, 16, 17, 85, 86, 127, 128, 129, 255, 256, 257, 1000, 4096, 65535, 65536, 65537, 70000):
        for big in (['.repeat %d' % n, 'NOP', '.endrepeat'], ['.fill %d' % n], ['.fill %d 7' % n], ['.ram %d' % n], ['.db "%s"' % ('x' * min(n, 5000))], ['.goto %d' % n], ['.repeat %d' % min(n, 1000), 'LDI 5', '.db 1 2', '.endrepeat'], ['.db ' + ' '.join(['7'] * min(n, 5000))],
                    ['NOP'] * min(n, 1000), ['.org %d' % n], ['.repeat %d' % min(n, 300), '.repeat 2', 'NOP', '.endrepeat', '.endrepeat'], ['.dd ' + ' '.join(['b a'] * min(n, 500)), 'a:', 'b:']):
            if n > 5000 and len(big) == 1 and '"' in big[0]:
                continue
            for pre in (['NOP'], ['.db 1'], ['.log off'], ['.org 5']):
                if len(big) > 5 and pre != ['NOP']:
                    continue
                lines = pre + (['.log'] if pre[0] == '.log off' else []) + big + ['LDI 6', '.log off', 'NOP', '.log', 'NOP']
                if big[0].startswith('.dd'):
                    plain_long(ctx, C, lines)
                else:
                    one(ctx, C, lines, 'prog.s', True)


def plain_long(ctx, C, lines):
    core.arm()
    a = C()
    a.log = True
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        a.assemble('\n'.join(lines), 'prog.s')
    got = [x for x in buf.getvalue().split('\n') if x]
    on = sum(1 for i, t in enumerate(lines) if t != '.log off' and not (t == 'NOP' and lines[i - 1] == '.log off'))
    ctx.trace()
    ctx.step(len(lines))
    if len(got) != on:
        ctx.fail('long list of references: ' + lines[0], on, len(got), lines)
        return
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        a.link()
    got = [x for x in buf.getvalue().split('\n') if x]
    want = sum(len(t.split()) - 1 for t in lines if t.startswith('.dd'))
    if len(got) != want:
        ctx.fail('linking a long list of references: ' + lines[0], want, len(got), lines)


def included(ctx):
    """statements of included files are listed under their own file, and the directive with everything it brought"""
    C = impl.toy()
    import shutil
    import tempfile
    tmp = tempfile.mkdtemp(prefix='c18_')
    old = os.getcwd()
    os.chdir(tmp)
    try:
        for inner in itertools.product(['NOP', 'LDI 5', 'a:', '.log off', '.log', '.db 1 2', '.org 4'], repeat=2):
            for before, after in itertools.product(['', 'NOP', '.db 9 9 9'], repeat=2):
                core.arm()
                with open('inner.inc', 'w') as f:
                    f.write('\n'.join(inner))
                if inner.count('a:') > 1:
                    continue
                for initial in (False, True):
                    a = C()
                    a.log = initial
                    buf = io.StringIO()
                    with contextlib.redirect_stdout(buf):
                        a.assemble('%s\n.include "inner.inc"\n%s' % (before, after), 'outer.s')
                    got = [x for x in buf.getvalue().split('\n') if x]
                    sizes = {'NOP': b'\xEA', 'LDI 5': b'\xA1\5', '.db 1 2': b'\1\2', '.db 9 9 9': b'\x09' * 3}
                    want, off, on = [], 0, initial

                    def say(text, where, n):
                        nonlocal off, on
                        blob = sizes.get(text, b'')
                        if text.startswith('.log'):
                            on = not text.endswith('off')
                        if text and on:
                            want.append((where, n, blob, off))
                        off += len(blob)
                    say(before, 'outer.s', 1)
                    start = off
                    total = b''.join(sizes.get(x, b'') for x in inner)
                    for n, x in enumerate(inner, 1):
                        say(x, 'inner.inc', n)
                    if on:
                        want.append(('outer.s', 2, total, start))
                    say(after, 'outer.s', 3)
                    ctx.trace()
                    ctx.step(5)
                    ctx.state(tuple(want))
                    sig = '%s | include (%s) | %s, log %s' % (before, ' | '.join(inner), after, initial)
                    seen = []
                    for line in got:
                        m = re.search(r'0x([0-9a-f]+)$', line.strip())
                        seen.append((('outer.s' if 'outer.s' in line else 'inner.inc' if 'inner.inc' in line else None), int(re.search(r'line (\d+)', line).group(1)), said(line), int(m.group(1), 16) if m and said(line) else None))
                    ctx.expect(sig, [(w, n, b, o if b else None) for w, n, b, o in want], seen)
    finally:
        os.chdir(old)
        shutil.rmtree(tmp)


def switches(ctx):
    """what the directive takes"""
    C = impl.toy()
    for word, on in (('', True), ('on', True), ('ON', True), ('On', True), ('oN', True), ('off', False), ('OFF', False), ('oFF', False), ('1', None), ('yes', None), ('"on"', None), ('onn', None), ('of', None), ('true', None)):
        for initial in (False, True):
            a = C()
            a.log = initial
            buf = io.StringIO()
            try:
                with contextlib.redirect_stdout(buf):
                    a.assemble('.log %s' % word)
                got = a.log
            except impl.asm_error():
                got = None
            ctx.trace()
            ctx.step()
            ctx.state((word, got))
            ctx.expect('.log %s when %s' % (word, initial), on, got)


def shards(tier):
    out = [('switches', switches, ()), ('long', long, ()), ('included', included, ())]
    for a in ALPHA:
        out.append(('seq3 ' + a, explore, (a, 3 if tier == 'quick' else 4, ALPHA)))
    few = ['.log', '.log off', 'LDI 5', 'a:', 'JP a', '.dw a+1', '.fill 3 9', '.org $30', 'MM 7']
    for a in few:
        out.append(('seq5 ' + a, explore, (a, 4 if tier == 'quick' else 5, few)))
    return out


if __name__ == '__main__':
    core.main('C18', shards, rule='all programs of depth 3 (4) over 26 statements and depth 4 (5) over 9, with the log on from the start or switched inside, their listing compared with the bytes each statement adds in a silent run of one call per statement',
              assumptions=['the wording of a listing line is free: it names the statement, its line and file, its bytes and their offset'])
