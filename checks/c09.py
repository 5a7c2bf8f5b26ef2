"""C09: includes equal their text, imports equal their contents."""
import itertools
import json
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, impl
from checks.c07 import summary


class Dir:
    def __enter__(self):
        self.p = tempfile.mkdtemp(prefix='c09-')
        self.old = os.getcwd()
        os.chdir(self.p)
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.p)

    def put(self, name, data):
        with open(os.path.join(self.p, name), 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        return name


SNIPS = ['', 'NOP', 'NOP\n', '; only a comment', '\n\n', 'i:\nLDI 5\n', 'JP b\nBR i\ni:', '.define K 9\nLDI K', '.macro M p\nLDI p\n.endmacro\n', 'M 3', 'LDI K', '.org $40\nNOP', '.org $40 $4F\n.db 1', '.ram 2\nNOP', '.fill 3 $77\r\nNOP\r\n',
         '.macro M p\nLDI p', 'LDI p\n.endmacro', '.repeat 3\nNOP\n', '.endrepeat', '.align 4\n.db "x;y" ; c', 'BOGUS', 'LDI 300', 'NOP\na:', '.goto $20', '.upto 9 1', '.log OFF', 'x y z: NOP']
MAINS = [[], ['a:', 'NOP'], ['.define K 4'], ['.macro M q', 'NOP', 'LDI q', '.endmacro'], ['.org $20 $2F', '.db 7'], ['.org 8', '.ram 3'], ['.repeat 2', 'NOP'], ['.macro Z q', 'NOP']]
TAILS = [[], ['b:', 'NOP', 'i2:'], ['LDI K', 'i:'], ['M 2'], ['.endrepeat', 'NOP', 'b:'], ['.endmacro', 'NOP', 'i:', 'b:', 'Z 1'], ['.db 1', '.org $60', 'b:', 'i3:', 'JP a']]
FORMS = ['.include "%s"', ".INCLUDE '%s'", '.include %s', ' .Include\t"%s" ; c', 'lab: .include "%s"']


def check(ctx, C, prog, inlined, what):
    want = summary(impl.run(C, inlined))
    o = impl.run(C, prog)
    got = summary(o)
    ctx.trace()
    ctx.step()
    ctx.state(want)
    if got != want:
        ctx.fail(what, want, impl.brief(o) + ' ' + str(got[2]), what)


def single(ctx, si):
    C = impl.toy(fill_value=0xCC)
    with Dir() as d:
        d.put('f.inc', SNIPS[si])
        for m in MAINS:
            for t in TAILS:
                for f in FORMS:
                    inl = '\n'.join(m + (['lab:'] if 'lab' in f else []) + [SNIPS[si]] + t)
                    prog = '\n'.join(m + [f % 'f.inc'] + t)
                    check(ctx, C, prog, inl, 'file %r in %r' % (SNIPS[si], prog))
        ctx.sample({'file': SNIPS[si]}, 1)


def pairs(ctx, si):
    """two includes in one program, in sequence and nested, with one assemble() call per line too"""
    C = impl.toy(fill_value=0xCC)
    with Dir() as d:
        d.put('f.inc', SNIPS[si])
        for j, other in enumerate(SNIPS):
            d.put('g.inc', other)
            nested = 'NOP\n.include "f.inc"\n%s\n' % other
            d.put('n.inc', nested)
            d.put('deep1.inc', '.include "n.inc"')
            d.put('deep2.inc', 'c2:\n.include "deep1.inc"\n.db 2')
            for m in (['a:', '.define K 4'], ['.org $20 $4F', '.db 7'], ['.macro M q', 'NOP', '.endmacro']):
                tail = ['.db $99', 'b:']
                check(ctx, C, '\n'.join(m + ['.include "f.inc"', '.include "g.inc"'] + tail), '\n'.join(m + [SNIPS[si], other] + tail), 'two files %r %r after %r' % (SNIPS[si], other, m))
                inl = '\n'.join(['NOP', SNIPS[si], other])
                check(ctx, C, '\n'.join(m + ['.include "n.inc"'] + tail), '\n'.join(m + [inl] + tail), 'nested %r %r after %r' % (SNIPS[si], other, m))
                check(ctx, C, '\n'.join(m + ['.include "deep2.inc"'] + tail), '\n'.join(m + ['c2:', inl, '.db 2'] + tail), 'deeply nested %r %r after %r' % (SNIPS[si], other, m))
                check(ctx, C, '\n'.join(m + ['.include "f.inc"', '.include "f.inc"'] + tail), '\n'.join(m + [SNIPS[si], SNIPS[si]] + tail), 'twice %r after %r' % (SNIPS[si], m))
                if '.org' not in m[0] and '.org' not in SNIPS[si]:
                    a = C()
                    core.arm()
                    try:
                        for line in m + ['.include "f.inc"'] + tail:
                            a.assemble(line)
                        a.link()
                        got = ('ok', bytes(a.assembled_bytes))
                    except impl.asm_error():
                        got = ('err', b'')
                    w = impl.run(C, '\n'.join(m + [SNIPS[si]] + tail))
                    ctx.expect('one call per line, file %r after %r' % (SNIPS[si], m), ('ok' if w.kind == 'ok' else 'err', w.data), got)


def deep(ctx):
    C = impl.toy()
    with Dir() as d:
        os.mkdir('sub')
        for depth in (1, 2, 3, 10, 50):
            for i in range(depth):
                d.put('l%d.inc' % i, 'a%d:\n.db %d\n%s\n.dw a%d a%d\n' % (i, i, '.include "l%d.inc"' % (i + 1) if i + 1 < depth else '', i, depth - 1))
            inl = ''
            for i in range(depth):
                inl += 'a%d:\n.db %d\n' % (i, i)
            for i in reversed(range(depth)):
                inl += '.dw a%d a%d\n' % (i, depth - 1)
            check(ctx, C, '.include "l0.inc"', inl, 'include depth %d' % depth)
            if depth == 1:
                for n in (100, 6000):
                    body = ''.join('x%d:\n.db %d ; %s\n' % (i, i % 256, 'c' * (i % 40)) for i in range(n))
                    d.put('long.inc', body)
                    o = impl.run(C, '.db 1\n.include "long.inc"\n.db 2\nend:\nBOGUS')
                    ctx.trace()
                    ctx.step()
                    ctx.expect('include of %d lines' % n, (True, True, n + 2), (bytes(o.asm.assembled_bytes) == b'\1' + bytes(i % 256 for i in range(n)) + b'\2', 'line 5' in str(o.exc), o.asm.get_label_absolute_address_by_name('end')))
                    ctx.expect('labels of an include of %d lines' % n, True, all(o.asm.get_label_absolute_address_by_name('x%d' % i) == i + 1 for i in range(n)))
            # the path is used as written
            for p in ('sub/x.inc', os.path.join(d.p, 'sub', 'x.inc'), './sub/../sub/x.inc'):
                d.put('sub/x.inc', 'LDI 1\n.include "l%d.inc"' % (depth - 1))
                check(ctx, C, '.include "%s"' % p, 'LDI 1\n' + 'a%d:\n.db %d\n.dw a%d a%d\n' % ((depth - 1,) * 4), 'path %s' % p.replace(d.p, ''))


FILES = {'x.inc': 'LDI K\n.dw K', 'y.inc': 'MM K\n.include "x.inc"\nBR a', 'd.inc': '.define K 7\n.macro MM p\nADD p K\n.endmacro'}
AGAIN = ['.include "x.inc"', '.include "y.inc"', '.include "d.inc"', '.define K 1', '.define K a', '.macro MM p\nLDI p\n.endmacro', '.org 9', '.repeat 2', '.endrepeat']


def again(ctx, first, depth):
    """the same files included again and again, with other definitions in between, and files that change between two calls"""
    C = impl.toy()

    def text(x, files):
        return '\n'.join(text(files[ln[10:-1]], files) if ln.startswith('.include') else ln for ln in x.split('\n'))
    with Dir() as d:
        for n, t in FILES.items():
            d.put(n, t)
        for rest in itertools.product(AGAIN, repeat=depth - 1):
            seq = (first,) + rest
            if not any('include' in x for x in seq):
                continue
            check(ctx, C, 'a: NOP\n' + '\n'.join(seq), 'a: NOP\n' + '\n'.join(text(x, FILES) for x in seq), 'a: NOP | ' + ' | '.join(seq))
        if first.startswith('.include'):
            for n, other in itertools.product(FILES, ('NOP', '.db 1 2 3\nLDI K', '')):
                for seq in itertools.product((first, '.define K 1', first + '\nNOP'), repeat=2):
                    core.arm()
                    changed = dict(FILES, **{n: other})
                    res = []
                    for expand in (False, True):
                        a = C()
                        a.assemble('.define K 3\n.macro MM p\nLDI p\n.endmacro\na:')
                        for x, files in ((seq[0], FILES), (seq[1], changed)):
                            for k, v in files.items():
                                d.put(k, v)
                            a.assemble(text(x, files) if expand else x)
                        a.link()
                        res.append(bytes(a.assembled_bytes))
                    ctx.trace()
                    ctx.step(2)
                    ctx.state(res[1])
                    ctx.expect('%s, then with %s holding %r: %s' % (seq[0], n, other, seq[1]), res[1], res[0])


def line_ends(ctx):
    """files with every kind of line end, with and without one at the end"""
    C = impl.toy()
    lines = ['LDI 1 ; c', '', 'in: NOP', '.db "a b"', '; c', '.dw in after']
    with Dir() as d:
        for eol, last, head in itertools.product(('\n', '\r\n', '\r', '\n\r', '\r\r\n'), (False, True), ('', ' ', '\t; caf\xe9')):
            d.put('e.inc', eol.join([head] + lines) + (eol if last else ''))
            check(ctx, C, 'NOP\n.include "e.inc"\nafter: NOP', 'NOP\n' + '\n'.join([head] + lines) + '\nafter: NOP', 'lines ended by %r%s' % (eol, ' at the end too' if last else ''))


def positions(ctx):
    """errors in included files name that file and line"""
    C = impl.toy()
    bad = ['BOGUS', 'LDI 300', '.bogus', '.fill x', 'a b:', '.db "open', 'LDI 1 2', '.endmacro', '.org', 'dup:', '.repeat 0', 'LDI 1/0', '.include', '.incbin', 'LDI $zz', ':', '.define', '.align 0', '.db 256']
    with Dir() as d:
        os.mkdir('sub')
        for b in bad:
            for line in (1, 2, 3, 10, 100):
                for crlf in ('\n', '\r\n'):
                    body = crlf.join(['NOP'] * (line - 1) + [b] + ['NOP'] * 2)
                    for name in ('f.inc', 'weird name.s', 'x', 'sub/f.inc', './sub/../sub/.hid'):
                        d.put(name, body)
                        for nest in (0, 1, 2):
                            top = name
                            for k in range(nest):
                                d.put('n%d' % k, 'NOP\n\n.include "%s"\nNOP' % top)
                                top = 'n%d' % k
                            o = impl.run(C, 'dup:\nNOP\n.include "%s"\nNOP' % top)
                            ctx.trace()
                            ctx.step()
                            ctx.state((b, line, nest, o.kind))
                            msg = str(o.exc)
                            want = 'at line %d of %s' % (line, name)
                            if o.kind != 'asm-error' or want not in msg:
                                ctx.fail('%r on line %d of %s, nested %d' % (b, line, name, nest), 'a diagnostic with %r' % want, impl.brief(o))
        # the same through assemble_file, with every kind of line end
        for b in bad:
            for line in (1, 2, 3, 50):
                for eol in ('\n', '\r\n', '\r'):
                    for name in ('top.s', 'sub/top 2.asm'):
                        d.put(name, eol.join((['dup:'] + ['NOP', '; c', ''] * line)[:line - 1] + [b, 'NOP', '']) if b != 'dup:' or line > 1 else 'dup:dup:')
                        a = C()
                        ctx.trace()
                        ctx.step()
                        sig = 'assemble_file with %r on line %d ended by %r' % (b, line, eol)
                        try:
                            a.assemble_file(name)
                            ctx.fail(sig, 'a diagnostic', 'accepted')
                        except impl.asm_error() as e:
                            if name not in str(e) or 'line %d ' % line not in str(e):
                                ctx.fail(sig, 'line %d of %s' % (line, name), str(e))
                        except Exception as e:  # noqa
                            ctx.fail(sig, 'a diagnostic', repr(e))


def incbin(ctx):
    with Dir() as d:
        for big in (False, True):
            C = impl.toy(big_endian=big)
            blobs = [b'', b'\0', bytes(range(256)), b'\r\n\n\r', b'NOP\n', b'\xff' * 3, bytes(1000), b'0123456789abcdef\n' * 4096, bytes(i * 31 % 251 for i in range(70001)), b'\x1a' * 5 + b'\n' * 300000] + [bytes([i]) for i in range(256)] + [bytes([i, 255 - i, 13]) for i in range(256)]
            for b in blobs:
                d.put('b.bin', b)
                for pre in ('', 'a:\n.db 7\n', '.org $10 $FFF\n'):
                    src = pre + '.incbin "b.bin"\ne:\nLDI 1\n.org $2000\nf:\n'
                    o = impl.run(C, src)
                    if len(b) > 1000:      # beyond any buffer
                        ctx.trace()
                        ctx.step()
                        ctx.state((len(b), pre))
                        sig = 'incbin of %d bytes %r after %r' % (len(b), b[:20], pre)
                        if '$FFF' in pre:      # overruns its region
                            ctx.expect(sig, 'asm-error', o.kind)
                        elif ctx.expect(sig, 'ok', o.kind):
                            pos = 1 if pre else 0
                            ctx.expect(sig, True, o.data == (b'\7' if pre else b'') + b + b'\xa1\1')
                            ctx.expect(sig, pos + len(b), o.asm.get_label_absolute_address_by_name('e'))
                        continue
                    want = impl.run(C, pre + (''.join('.db %d\n' % x for x in b)) + 'e:\nLDI 1\n.org $2000\nf:\n')
                    ctx.trace()
                    ctx.step()
                    ctx.state((len(b), pre))
                    ctx.expect('incbin %r after %r' % (b[:20], pre), summary(want), summary(o))


def csvs(ctx):
    vals = ['0', '1', '255', '$FF', '%101', '-1', '-128', "'A'", '10', '$0a', ' 5', '256', '-129', 'x', '', '1.5', '$', '$100', 'a', '1 2', '$GG', '65535', '65536', '-32768', '-32769', '$1234', '3+4', '70000', '1/0', '2*300', '#', '#5', '5#', ';5', '!', '0x5', '5h', 'true', 'None', 'null', 'nan', '1e3', '$0x5', '//5']

    def ref(v, bits):
        v = v.strip() if v == ' 5' else v
        try:
            if v == '3+4':
                n = 7
            elif v == '2*300':
                n = 600
            elif v.startswith('$'):
                n = int(v[1:], 16)
            elif v.startswith('%'):
                n = int(v[1:], 2)
            elif v == "'A'":
                n = 65
            else:
                n = int(v)
        except ValueError:
            return None
        if n < 0:
            return n + (1 << bits) if n >= -(1 << (bits - 1)) else None
        return n if n < (1 << bits) else None

    with Dir() as d:
        for big in (False, True):
            C = impl.toy(big_endian=big)
            for op, bits in (('inccsv', 8), ('inccsv_le16', 16)):
                rowsets = [[[v]] for v in vals] + [[[a, b]] for a in vals for b in vals] + [[[a], [b]] for a in vals[:12] for b in vals] + [[['1', a, '2'], [b, '3']] for a in vals[:14] for b in vals[:14]] + [[], [['1', '2', '3'], [], ['4']], [['7'] * 300]]
                for rows in rowsets:
                    for eol, last in (('\n', True), ('\r\n', False)):
                        if any(r == [''] for r in rows):
                            continue
                        text = eol.join(','.join(r) for r in rows) + (eol if last else '')
                        d.put('v.csv', text)
                        flat = [ref(v, bits) for r in rows for v in r]
                        o = impl.run(C, 'a:\n.db 9\n.%s "v.csv"\ne:\n.db 8' % op)
                        ctx.trace()
                        ctx.step()
                        sig = '.%s of %r' % (op, text)
                        if None in flat:
                            ctx.state((op, 'rej'))
                            if o.kind != 'asm-error' or 'line 3:' not in str(o.exc):
                                ctx.fail(sig, 'a diagnostic', impl.brief(o))
                            elif bytes(o.asm.assembled_bytes) != b'\x09':
                                ctx.fail(sig, 'nothing emitted', bytes(o.asm.assembled_bytes))
                            continue
                        blob = b''.join(x.to_bytes(bits // 8, 'little') for x in flat)
                        ctx.state((op, blob))
                        if o.kind != 'ok' or o.data != b'\x09' + blob + b'\x08' or o.asm.get_label_absolute_address_by_name('e') != 1 + len(blob):
                            ctx.fail(sig, b'\x09' + blob + b'\x08', impl.brief(o))


def jsons(ctx):
    vals = [0, 1, 127, 255, '5', '$FF', '%11', '-1', "'B'", 256, -300, 'x', '', '300', '-129', 1.5, None, [1], {'a': 1}, '$', 1 << 70, True, False, 1.0, '#5', ';5', '0x5', 'null', '1e1', 0.5, {}, [[1]]]
    conv = {'5': 5, '$FF': 255, '%11': 3, '-1': 255, "'B'": 66}
    C = impl.toy()
    with Dir() as d:
        lists = [[]] + [[v] for v in vals] + [[a, b] for a in vals for b in vals] + [[1, a, 2, b, 3] for a in vals[:9] for b in vals] + [list(range(256)), [i * 7 % 251 for i in range(5000)], [i % 256 for i in range(70000)]]
        for L in lists:
            for key, doc in (('k', {'k': L, 'j': [9]}), ('a.b.c', {'a': {'x': [4], 'b': {'c': L, 'd': [1]}}, 'c': [7]})):
                d.put('v.json', json.dumps(doc))
                out = []
                for v in L:
                    w = conv.get(v) if isinstance(v, str) else v if type(v) is int and 0 <= v < 256 else None
                    out.append(w)
                for form in ('.incjson "v.json" "%s"', '.incjson v.json %s'):
                    o = impl.run(C, '.db 9\n' + form % key + '\ne:\n.db 8')
                    ctx.trace()
                    ctx.step()
                    sig = 'incjson %s of %s' % (key, json.dumps(doc)[:300])
                    if None in out:
                        ctx.state('rej')
                        if o.kind != 'asm-error' or bytes(o.asm.assembled_bytes) != b'\x09' or 'line 2:' not in str(o.exc):
                            ctx.fail(sig, 'a diagnostic', impl.brief(o))
                    else:
                        ctx.state(bytes(out))
                        if o.kind != 'ok' or o.data != b'\x09' + bytes(out) + b'\x08':
                            ctx.fail(sig, b'\x09' + bytes(out) + b'\x08', impl.brief(o))
        for text, key in (('{"k":[1]}', 'x'), ('{"k":[1]}', 'k.z'), ('{"k":', 'k'), ('', 'k'), ('[1,2]', 'k'), ('{"k":5}', 'k'), ('{"k":{"a":[1]}}', 'k.a.b'), ('{"k":null}', 'k'), ('{"k":[1]}', 'K'), ('{"k":[1]}', '.k'), ('{"k":[1]}', 'k.'), ('{"k":{"j":[1]}}', 'k..j'), ('{"k":{"j":[1]}}', '.k.j'),
                          ('{"k":{"j":[1]}}', 'j'), ('{"k":{"j":[1]}}', 'k'), ('{"k":{"j":[1]}}', 'k.J'), ('{"k":{"j":[1]}}', 'k,j'), ('{"k":{"j":[1]}}', 'k/j'), ('[[1]]', '0'), ('{"k":[[1]]}', 'k.0'), ('{"k":[1]}', 'k '), ('{"k":[1]}', ' k')):
            d.put('v.json', text)
            o = impl.run(C, '.db 9\n.incjson "v.json" "%s"\n.db 8' % key)
            ctx.trace()
            if o.kind != 'asm-error' or bytes(o.asm.assembled_bytes) != b'\x09':
                ctx.fail('incjson %s of %s' % (key, text), 'a diagnostic', impl.brief(o))
        for doc, key, want in (('{"k":[1],"K":[2]}', 'k', 1), ('{"k":[1],"K":[2]}', 'K', 2), ('{"":[3],"k":[1]}', 'k', 1), ('{"k":{"k":[4]},"j":[1]}', 'k.k', 4), ('{"k":{"k":{"k":[5]}}}', 'k.k.k', 5), ('{"0":[6]}', '0', 6),
                               ('{"a b":[7]}', 'a b', 7), ('{"k":[1],"k2":[8]}', 'k2', 8), ('{"a":{"":[9]}}', 'a.', 9), ('{"":{"a":[10]}}', '.a', 10)):
            d.put('v.json', doc)
            o = impl.run(C, '.db 9\n.incjson "v.json" "%s"\n.db 8' % key)
            ctx.trace()
            ctx.expect('incjson %s of %s' % (key, doc), bytes((9, want, 8)), o.data if o.kind == 'ok' else impl.brief(o))
        # text beyond ASCII: in keys, strings and comments of sources
        for key in ('\xe9', 'k\u20ac.\u4e2d', '\U0001F600'):
            doc = [6]
            for part in key.split('.')[::-1]:
                doc = {part: doc, 'o': [1]}
            for ascii_ in (False, True):
                d.put('v.json', json.dumps(doc, ensure_ascii=ascii_))
                o = impl.run(C, '.db 9\n.incjson "v.json" "%s"\n.db 8' % key)
                ctx.trace()
                ctx.expect('incjson key %r' % key, bytes((9, 6, 8)), o.data if o.kind == 'ok' else impl.brief(o))
        for text in ('\xe9', '\u20ac5', '\u4e2d', '\U0001F600', '\xa0', '\ufeff'):
            for big in (False, True):
                C2 = impl.toy(big_endian=big)
                body = '; %s\n.dw "%s" \'%s\' 1 ; %s\n.dd "%s"\n.db \'%s\'' % ((text,) * 6)
                for cut in (5, 4, 3, 1):
                    part = '\n'.join(body.split('\n')[:cut])
                    d.put('u.inc', part)
                    check(ctx, C2, 'NOP\n.include "u.inc"\nafter: .dw after', 'NOP\n' + part + '\nafter: .dw after', 'file %r' % part)
                    a, b = C2(), C2()
                    got = []
                    for x, f in ((a, lambda: a.assemble_file('u.inc')), (b, lambda: b.assemble(part, 'u.inc'))):
                        try:
                            f()
                            got.append((bytes(x.assembled_bytes), ''))
                        except impl.asm_error() as e:
                            got.append((bytes(x.assembled_bytes), str(e)))
                    ctx.trace()
                    ctx.expect('assemble_file of %r' % part, got[1], got[0])
        # long tables, quoted cells and empty rows
        for big in (False, True):
            C2 = impl.toy(big_endian=big)
            for n in (255, 257, 1000, 9000):
                cells = [i * 37 % 251 for i in range(n)]
                for text in (','.join(map(str, cells)), '\n'.join(map(str, cells)), '\r\n'.join('$%x,"%d"' % (a, b) for a, b in zip(cells[::2], cells[1::2])), '\n\n'.join(','.join(map(str, cells[i:i + 7])) for i in range(0, n, 7)) + '\n\n\n'):
                    flat = cells[:n // 2 * 2] if '$' in text else cells
                    d.put('v.csv', text)
                    for op, w in (('inccsv', bytes(flat)), ('inccsv_le16', b''.join(x.to_bytes(2, 'little') for x in flat))):
                        o = impl.run(C2, '.db 9\n.%s "v.csv"\ne:\n.db 8' % op)
                        ctx.trace()
                        ctx.step()
                        ctx.state((op, n, text[:20]))
                        ctx.expect('.%s of %d cells as %r' % (op, n, text[:30]), (True, 1 + len(w)), (o.data == b'\x09' + w + b'\x08', o.asm.get_label_absolute_address_by_name('e')))
        # argument counts and missing files
        d.put('v.json', '{"k":[1]}')
        d.put('v.csv', '1,2')
        for op, n in (('include', 1), ('incbin', 1), ('inccsv', 1), ('inccsv_le16', 1), ('incjson', 2)):
            for args in ([], ['"v.csv"'], ['"v.csv"', 'k'], ['"v.csv"', 'k', 'z']):
                if len(args) != n:
                    o = impl.run(C, '.%s %s' % (op, ' '.join(args)))
                    ctx.trace()
                    if o.kind != 'asm-error':
                        ctx.fail('.%s %s' % (op, args), 'a diagnostic', impl.brief(o))
            a = C()
            try:
                a.assemble('NOP\n.%s "missing" %s' % (op, 'k' if n == 2 else ''))
                ctx.fail('.%s of a missing file' % op, 'an error', 'accepted')
            except (impl.asm_error(), OSError):
                pass
            ctx.expect('.%s of a missing file emits nothing' % op, b'\xEA', bytes(a.assembled_bytes))


def shards(tier):
    out = [('deep', deep, ()), ('positions', positions, ()), ('line ends', line_ends, ()), ('incbin', incbin, ()), ('csv', csvs, ()), ('json', jsons, ())]
    for x in AGAIN:
        out.append(('again ' + x.split('\n')[0], again, (x, 4 if tier == 'quick' else 5)))
    for i in range(len(SNIPS)):
        out.append(('single %d' % i, single, (i,)))
        out.append(('pairs %d' % i, pairs, (i,)))
    return out


if __name__ == '__main__':
    core.main('C09', shards, rule='27 file contents x 8 program heads x 7 tails x 5 spellings; all pairs of contents in sequence, nested and twice; depth up to 50; every byte value; all CSV/JSON tables of up to 2-5 cells over 30/21 cell values; error positions at 5 lines x 3 nesting depths',
              assumptions=['a missing file surfaces as the operating system error'])
