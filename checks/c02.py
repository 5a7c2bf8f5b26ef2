"""C02: letter case and layout - every instruction form, directive and a set of programs in every bounded rewrite."""
import contextlib
import importlib
import io
import itertools
import os
import re
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, forms, impl

CPUS = {'mos6502': 'mos6502', 'lr35902': 'lr35902', 'z80': 'z80', 'i8086': 'i8086', 'mips32': 'mips32', 'm68k': 'mc68000', 'thumb': 'thumb', 'ppc': 'ppc', 'x86': 'x86', 'x86-16': 'x86', 'x86-32': 'x86'}
MODES = {'x86': 64, 'x86-16': 16, 'x86-32': 32}
HEX = {'mos6502': '${}', 'lr35902': '${}', 'z80': '${}', 'm68k': '${}', 'i8086': '0x{}', 'mips32': '0x{}', 'thumb': '0x{}', 'ppc': '0x{}', 'x86': '0x{}', 'x86-16': '0h{}', 'x86-32': '$0{}'}
SUFFIXED = ('i8086', 'x86', 'x86-16', 'x86-32')


def alternate(p):
    return lambda s: ''.join(c.upper() if (i + p) % 2 else c.lower() for i, c in enumerate(s))


CASES = [str.lower, str.upper, alternate(0), alternate(1), str.title]
SEPS = [None, '\t', '   ', ',', ' , ', ',\t ']
NUMS = ['dec', 'hex', 'HEX', 'Hex']
LAYOUT = ['%s', '\t  %s \t', '%s;comment "open \'( :\r\n', '%s\r\n', '\n\r\n %s ; x\n\n', ';.org 9\n%s\r', '%s ;', ',%s']


def number(name, kind, v):
    if kind == 'dec' or v < 0:
        return str(v)
    d = '%x' % v
    if kind[-1] == 'h':
        return '0' + {'hexh': d, 'HEXh': d.upper(), 'Hexh': alternate(1)(d)}[kind] + 'h'
    d = {'hex': d, 'HEX': d.upper(), 'Hex': alternate(0)(d)}[kind]
    return HEX[name].format(d)


def render(name, form, vals, case, sep, num, lay):
    """the statement rewritten: words outside the numbers change case, separators are replaced"""
    parts = re.split(r'(\{\d\})', form.text)
    out = ''
    for i, p in enumerate(parts):
        if re.fullmatch(r'\{\d\}', p):
            out += number(name, num, vals[int(p[1:-1])])
            continue
        p = case(p.replace('{{', '{').replace('}}', '}'))
        if sep is not None:
            # never a separator inside brackets written without one
            p = re.sub(r'(?<=[^ ,]) *, *(?=[^ ,])|(?<=[^ ,]) *, *$|^ *, *(?=[^ ,])|(?<=[^ ,]) +(?=[^ ,])|(?<=[^ ,]) +$|^ +(?=[^ ,])', lambda m: sep, p)
        out += p
    return lay % out


def value(form):
    """accepted values with as many hex letters as possible"""
    vals = []
    for x in form.fields:
        good = [v for v in x.values() if x.good(v) and v >= 0]
        vals.append(max(good, key=lambda v: (sum(c in 'abcdef' for c in '%x' % v), -v)) if good else x.few()[0])
    if form.accepts(vals):
        return vals
    for c in form.combos():
        if form.accepts(c):
            return list(c)


def statements(ctx, name, fs, full):
    f = forms.Feeder(name)
    every = list(itertools.product(CASES, SEPS, NUMS + ['hexh', 'HEXh', 'Hexh'] if name in SUFFIXED else NUMS, LAYOUT))
    n = len(every)
    for k, (idx, form) in enumerate(fs):
        vals = value(form) if form.fields else []
        if vals is None or not all(x.num for x in form.fields):
            continue
        want = f.feed(form.text.format(*vals))
        if not isinstance(want, bytes):
            continue        # the processor checks judge that
        if form.text.split()[0] in full or ctx.thorough and idx % 8 == 0:
            full = full - {form.text.split()[0]}
            variants = every
        else:
            variants = [every[(idx * 7 + j * 487) % n] for j in range(6)]
        if not form.fields:
            variants = [v for v in variants if v[2] == 'dec'] or [v[:2] + ('dec',) + v[3:] for v in variants]
        for v in variants:
            s = render(name, form, vals, *v)
            got = f.feed(s)
            ctx.trace()
            ctx.step()
            if got != want:
                ctx.fail('%s: %r' % (name, s), want, got, s)
        ctx.state((name, form.text))
    ctx.sample({'processor': name, 'statement': s, 'variants': len(variants)}, 1)


def labels(ctx, name, fs):
    """the same with names as operands: only their own letters matter"""
    cls = impl.load(name)
    for form in fs:
        core.arm()
        vals = next((list(c) for c in form.combos() if form.accepts(c)), None)
        if vals is None:
            continue
        for i, x in enumerate(form.fields):
            if x.label not in ('abs', 'rel', 'pcrel'):
                continue
            at = 0x40 if x.label != 'abs' else max([v for v in (0x40, 8, 4, 2, 0) if x.good_label(v)] or [0])
            for lab in ('Lab', 'lAB+0') if x.label == 'abs' else ('Lab',):
                parts = [str(v) for v in vals]
                parts[i] = lab
                pieces = re.split(r'(\{\d\})', form.text)
                out = {0: set(), 1: set()}
                for case in CASES if ctx.thorough else CASES[:3]:
                    text = ''.join(parts[int(q[1:-1])] if re.fullmatch(r'\{\d\}', q) else case(q.replace('{{', '{').replace('}}', '}')) for q in pieces)
                    for order, lines in enumerate((['.org 32', text, '.org %d' % at, lab.split('+')[0] + ':'], ['.org %d' % at, lab.split('+')[0] + ':', '.org 32', text])):
                        lines[0] = case(lines[0])
                        o = impl.run(cls, '\n'.join(lines))
                        ctx.trace()
                        ctx.step(len(lines))
                        out[order].add((o.kind, o.data if o.kind == 'ok' else type(o.exc).__name__))
                # before and after may differ (a known address can have a shorter form), the letters may not
                ctx.expect('%s: %s with %s in every case' % (name, form.text, lab), [len(out[0]), len(out[1])], [1, 1], sorted(map(str, out[0] | out[1])))
                ctx.state((name, form.text, i, lab))


def notation(ctx, name):
    """hexadecimal digits in either case, for every prefix and suffix the processor declares, in every place a number can stand"""
    cls = impl.load(name)
    big = cls.big_endian
    f = forms.Feeder(name)
    values = list(range(10, 16)) + [x * 16 + y for x in (1, 10, 13, 15) for y in (0, 9, 10, 11, 12, 13, 14, 15)] + [0xABC, 0xB1B, 0xDEF, 0xD0D, 0xF00D, 0xBADCAFE, 0xFEDCBA98]
    for v in values:
        core.arm()
        d = '%x' % v
        spell = {d, d.upper(), alternate(0)(d), alternate(1)(d), d.title()}
        nums = [p + x for p in cls.hex_prefixes for x in spell] + ['0' + x + q for q in cls.hex_suffixes for x in spell]
        for n in sorted(nums):
            if '$0' in cls.hex_prefixes and n.startswith('$') and not n.startswith('$0'):
                continue
            places = [('.dd %s' % n, v), ('.dd 0+%s' % n, v), ('.dd %s+0' % n, v), ('.dd 0|%s' % n, v)]
            if v < 256:
                places.append(('.db 0 %s\n.db 0 0' % n, v << 16 if big else v << 8))
            for s, w in places:
                ctx.trace()
                ctx.step()
                ctx.expect('%s: %r' % (name, s), f.feed(s), w.to_bytes(4, 'big' if big else 'little'), s)
            if v not in (10, 0xB1, 0xABC, 0xD0D, 0xFEDCBA98):
                continue
            for s, w in [('.define N %s\n.dd N' % n, v), ('.org %s\nl: .dd l' % n, v), ('.define M %s\n.dd M|0' % n, v)]:
                o = impl.run(cls, s)
                ctx.trace()
                ctx.step()
                ctx.expect('%s: %r' % (name, s), (o.kind, o.data), ('ok', w.to_bytes(4, 'big' if big else 'little')), s)
            ctx.state((name, n))


# {..} words change case; everything else stays; ~ is a separator
PROGRAMS = [
    ['{.define}~Val~$1f', '{.macro}~{Twice}~p', '{LDI}~p', '{ADD}~p~Val', '{.endmacro}', '{twice}~Val', '{.dw}~Val+1', '{.org}~$AbC', 'Lab:', '{.dd}~Lab~lab', '{.goto}~$aCf~$0c', 'lab:', '{.byte}~"MiXed~text"~\'Q\''],
    ['{.org}~16~$2F', '{.fill}~3~$aA', '{.align}~2', '{.word}~Start', 'Start:', '{.dword}~$fEdC', '{.dl}~Start+2', '{.upto}~$0E', '{.ram}~2', 'End:', '{.db}~End'],
    ['{.repeat}~3', '{.db}~1~$Ff~"a;b"', '{.endrepeat}', '{.dw_to_ascii}~Here', '{.db_to_ascii}~5~Here', 'Here:', '{.db_to_asciiz}~$c', '{.dw_to_asciiz}~Here'],
    ['{.macro}~{M2}~a~b', '{NOP}', '{ADD}~a~b', '{.endmacro}', '{m2}~$Fe~2', '{BR}~x', '{M2}~x~<x', 'x:', 'X:', '{JP}~X', '{LDI}~x', '{.log}~{off}'],
    ['{.include}~"inc.S"', '{.incbin}~"raw.bin"', '{.inccsv}~"t.csv"', '{.inccsv_le16}~"t.csv"', '{.incjson}~"t.json"~"k"', '{.dw}~Inner', '{INMACRO}~7', '{.db}~K'],
    ['{.section}~".Text"~RX', '{.export}~Sym', 'Sym:', '{.section}~.Data~RW', '{.db}~1~Sym'],
    ['a:~b:~{NOP}', 'c:~{.dw}~a~b~c', 'A:', '{.dw}~A'],
]
FILES = {'inc.S': '.db $aB\nInner: .dw Inner\n.macro inmacro q\nLDI q\n.endmacro\n.define K 9\n', 'raw.bin': 'AbC', 't.csv': '1,2\n$1f,4\n', 't.json': '{"k": [3, 4]}'}
SEP_P = [' ', '\t', '  ', ',', ', ', ' ,\t']
EOL = ['\n', '\r\n', '\n\n', ' ;c "\n', '\t\r\n', '\r']


def programs(ctx, k):
    tmp = tempfile.mkdtemp(prefix='c02-')
    old = os.getcwd()
    try:
        os.chdir(tmp)
        for fn, text in FILES.items():
            with open(fn, 'w') as f:
                f.write(text)
        C = impl.toy()
        prog = PROGRAMS[k]

        def run(case, sep, eol, lead):
            lines = []
            for s in prog:
                quoted = re.split(r'("[^"]*")', s)
                s = ''.join(q.replace('~', ' ') if q.startswith('"') else re.sub(r'\{([^}]*)\}', lambda m: case(m.group(1)), q).replace('~', sep) for q in quoted)
                s = re.sub(r':[ ,\t]+', ': ', s)
                lines.append(lead + s)
            with contextlib.redirect_stdout(io.StringIO()):
                return impl.run(C, eol.join(lines) + eol), lines
        base, lines = run(str.lower, ' ', '\n', '')
        if base.kind != 'ok':
            ctx.fail('program %d' % k, 'assembles', impl.brief(base), lines)
            return
        labels = {n: base.asm.get_label_absolute_address_by_name(n) for n in base.asm.labels}
        for case, sep, eol, lead in itertools.product(CASES, SEP_P, EOL, ('', ' \t')):
            core.arm()
            o, lines = run(case, sep, eol, lead)
            ctx.trace()
            ctx.step(len(lines))
            got = (impl.brief(o), {n: o.asm.get_label_absolute_address_by_name(n) for n in o.asm.labels} if o.kind == 'ok' else None)
            ctx.expect('program %r' % eol.join(lines), (impl.brief(base), labels), got)
        ctx.state(base.data)
        # letters in label and define names do matter: renaming by case must keep them apart
    finally:
        os.chdir(old)
        shutil.rmtree(tmp)


def distinct(ctx):
    """names that differ in case only are different names, and no other spelling of a defined one exists"""
    C = impl.toy()
    for n in ('ab', 'aB', 'Ab', 'AB', 'x1', 'X1', '_q', '_Q', 'loopStart', 'a_rather.long_Name', 'z' * 70 + 'Q'):
        for m in {n.lower(), n.upper(), n.swapcase(), n}:
            core.arm()
            ctx.trace()
            ctx.step()
            ctx.state((n, m))
            o = impl.run(C, '.org 5\n%s:\n.dw %s' % (n, m))
            ctx.expect('label %s used as %s' % (n, m), 'ok' if n == m else 'link-error', o.kind)
            o = impl.run(C, '.define %s 3\n.db %s' % (n, m))
            ctx.expect('define %s used as %s' % (n, m), 'ok' if n == m else 'link-error', o.kind)
            o = impl.run(C, '.macro mm %s\nLDI %s\n.endmacro\nMM 3' % (n, m))
            ctx.expect('macro argument %s used as %s' % (n, m), 'ok' if n == m else 'link-error', o.kind)
            if n != m:
                o = impl.run(C, '.org 1\n%s:\n.org 2\n%s:\n.db %s %s' % (n, m, n, m))
                ctx.expect('labels %s and %s' % (n, m), 'image 0102', impl.brief(o))
                o = impl.run(C, '.define %s 1\n.define %s 2\n.db %s %s' % (n, m, n, m))
                ctx.expect('defines %s and %s' % (n, m), 'image 0102', impl.brief(o))


ARGS = ['', '5', '"abc"', 'lab', '5 6', '"x" 3', '"a" "b" "c"', '1 2 3 4', '$zz', '-1', '"nofile"']


def directives(ctx, cname):
    """every directive of every class gives the same result in every case"""
    cls = impl.load(cname)
    AE = impl.asm_error()
    tmp = tempfile.mkdtemp(prefix='c02-')
    old = os.getcwd()
    os.chdir(tmp)

    def outcome(s):
        core.arm()
        a = cls()
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                a.assemble('.db 1')
                a.assemble(s)
            r = 'accepted'
        except AE as e:
            r = 'refused ' + type(e).__name__ + re.sub(r'\[.*', '', str(e), flags=re.S)
        except Exception as e:  # noqa
            r = 'error ' + type(e).__name__
        return r, bytes(a.assembled_bytes), a.pc
    try:
        for d in sorted(cls().directives):
            d = d.lstrip('.').lower()
            for args in ARGS:
                base = outcome('.%s %s' % (d, args))
                for case in CASES[1:]:
                    got = outcome('.%s %s' % (case(d), args))
                    ctx.trace()
                    ctx.step()
                    if [x if not isinstance(x, str) else x.lower() for x in got] != [x if not isinstance(x, str) else x.lower() for x in base]:
                        ctx.fail('%s: .%s %s' % (cname, case(d), args), base, got)
                ctx.state((cname, d, args))
    finally:
        os.chdir(old)
        shutil.rmtree(tmp)


def shards(tier):
    out = [('distinct', distinct, ())]
    for k in range(len(PROGRAMS)):
        out.append(('program %d' % k, programs, (k,)))
    for cname in impl.CPUS:
        out.append(('directives %s' % cname, directives, (cname,)))
    for name, mod in CPUS.items():
        m = importlib.import_module('mc.ref.' + mod)
        out.append(('notation %s' % name, notation, (name,)))
        every = m.forms(MODES[name], False) if name in MODES else m.forms()
        lf = [f for f in (m.label_forms(MODES[name]) + m.branches(MODES[name]) if name in MODES else every) if f.tag != 'alt' and any(x.label for x in f.fields)]
        seen = {}
        for f in lf:
            k = (f.text.split()[0], re.sub(r'\w+', 'w', f.text))
            seen[k] = seen.get(k, 0) + 1
            if tier == 'thorough' or seen[k] <= 2:
                seen.setdefault('all', []).append(f)
        lf = seen.get('all', [])
        for i in range(0, len(lf), 60):
            out.append(('labels %s %d' % (name, i), labels, (name, lf[i:i + 60])))
        fs = list(enumerate(f for f in every if f.tag != 'alt'))
        if name in MODES:
            first, keep = set(), []
            for i, f in fs:
                if f.text.split()[0] not in first or i % 24 == 0 or tier == 'thorough' and i % 4 == 0:
                    keep.append((i, f))
                first.add(f.text.split()[0])
            fs = keep
        firsts = {}
        for i, f in fs:
            firsts.setdefault(f.text.split()[0], i)
        k = max(40, len(fs) // 16)
        for i in range(0, len(fs), k):
            part = fs[i:i + k]
            full = {f.text.split()[0] for j, f in part if firsts.get(f.text.split()[0]) == j}
            if name in MODES and tier != 'thorough':
                full = set(sorted(full)[::12])
            out.append(('%s %d' % (name, i), statements, (name, part, frozenset(full))))
    return out


if __name__ == '__main__':
    core.main('C02', shards, rule='every instruction form of nine processors (x86 in its three modes) in 6 rewrites out of 5 cases x 6 separators x 4 number notations x 8 line layouts (all 960 for the first form of each mnemonic); every directive of every class in 5 cases with 11 operand lists; seven programs with directives, macros, includes and labels in all 360 combinations of case, separator, line end and indentation; every spelling of the hexadecimal prefix and suffix of every processor in every digit case; label operands in every case; names differing in case only',
              assumptions=['number prefixes and suffixes keep their case', 'separators are varied where the canonical spelling has one'])
