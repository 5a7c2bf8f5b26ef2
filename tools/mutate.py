"""Mutation sweep (development aid): simple changes to the code under test that its own tests accept, run against the checks.

usage: mutate.py FILE(under necroassembler/) COUNT SEED [LINE-LINE]      prints the mutants no check reports
"""
import ast, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
CHECKS = {'cpu/mos6502.py': 'C20 C31 C30 C13 C02', 'cpu/lr35902.py': 'C21 C31 C30 C13 C02', 'cpu/z80.py': 'C22 C31 C30 C13 C02', 'cpu/intel8086.py': 'C23 C31 C30 C13 C02', 'cpu/mips32.py': 'C24 C31 C30 C13 C02',
          'cpu/mc68000.py': 'C25 C31 C30 C13 C02', 'cpu/thumb.py': 'C26 C31 C30 C13 C02', 'cpu/powerpc.py': 'C27 C31 C30 C13 C02', 'cpu/x86.py': 'C28 C31 C30 C13 C02',
          'platforms/gameboy.py': 'C40 C41 C14 C15', 'platforms/sms.py': 'C41 C14 C15', 'platforms/nes.py': 'C41 C42 C14 C15', 'platforms/gba.py': 'C43 C15', 'platforms/genesis.py': 'C43 C15', 'platforms/psx.py': 'C43 C15',
          'platforms/i386_elf32.py': 'C15 C50', 'platforms/ppc_elf32.py': 'C15 C50', 'platforms/x86_64_elf64.py': 'C15 C50',
          'linker.py': 'C50', 'tokenizer.py': 'C01 C13 C09', 'macros.py': 'C07 C06', 'statements.py': 'C16 C13 C06 C07 C11 C09 C02', 'utils.py': 'C05 C16 C06 C12 C03',
          'assembler.py': 'C03 C04 C10 C12 C11 C08 C17 C06 C07 C09 C16 C50 C15 C13 C14', 'exceptions.py': 'C12 C13'}
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&', ast.Mult: '//', ast.FloorDiv: '*', ast.Mod: '//'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()) + 1)
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def rep(a, b, new):
        return (a, b, new)
    out = []
    docs = {id(n.body[0].value) for n in ast.walk(tree) if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr)}
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and id(n) not in docs:
            a, b = span(n)
            if type(n.value) is int:
                v = n.value
                for w in {v + 1, v - 1, v ^ 4, v ^ 0x10 if v > 15 else v + 1} - {v}:
                    if w >= 0:
                        out.append(rep(a, b, str(w)))
            elif isinstance(n.value, bool):
                out.append(rep(a, b, str(not n.value)))
            elif isinstance(n.value, bytes) and n.value:
                for i in range(len(n.value)):
                    x = bytearray(n.value)
                    x[i] ^= 1
                    out.append(rep(a, b, repr(bytes(x))))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            for o in CMP.get(type(n.ops[0]), []):
                out.append(rep(a, b, ' %s ' % o))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            mid = raw[a:b].decode()
            if ')' not in mid and '(' not in mid and '\n' not in mid:
                out.append(rep(a, b, ' %s ' % BIN[type(n.op)]))
        elif isinstance(n, ast.BoolOp):
            w = 'or' if isinstance(n.op, ast.And) else 'and'
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            if raw[a:b].strip() in (b'and', b'or'):
                out.append(rep(a, b, ' %s ' % w))
            out.append(rep(*span(n), raw[slice(*span(n.values[0]))].decode()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append(rep(*span(n), '(' + raw[slice(*span(n.operand))].decode() + ')'))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append(rep(*span(n), raw[slice(*span(n.operand))].decode()))
        elif isinstance(n, ast.If):
            out.append(rep(*span(n.test), 'True'))
            out.append(rep(*span(n.test), 'False'))
        elif isinstance(n, (ast.AugAssign, ast.Raise)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or isinstance(n, (ast.Continue, ast.Break)):
            out.append(rep(*span(n), 'pass'))
        elif isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) > 1 and isinstance(getattr(n, 'ctx', None), ast.Load):
            i = len(n.elts) // 2
            a, b = span(n.elts[i - 1])[1], span(n.elts[i])[1]
            out.append(rep(a, b, ''))
            out.append(rep(span(n.elts[i - 1])[0], span(n.elts[i])[1], raw[slice(*span(n.elts[i]))].decode() + ', ' + raw[slice(*span(n.elts[i - 1]))].decode()))
    res = []
    for a, b, new in out:
        t = raw[:a] + new.encode() + raw[b:]
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        line = raw[:a].count(b'\n') + 1
        res.append((line, raw[a:b].decode(), new, t))
    return res


def run(cmd, cwd, t, **env):
    p = subprocess.Popen(cmd, cwd=cwd, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_TIER='quick', **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, ''


def main():
    f, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    lo, hi = map(int, sys.argv[4].split('-')) if len(sys.argv) > 4 else (0, 10**9)
    src = open('/repo/necroassembler/' + f).read()
    ms = [m for m in mutants(src) if lo <= m[0] <= hi]
    total = len(ms)
    random.Random(seed).shuffle(ms)
    ms = ms[:count]
    top = tempfile.mkdtemp(prefix='mut_')
    try:
        def prep(i):
            d = '%s/%d' % (top, i)
            os.makedirs(d)
            shutil.copytree('/repo/necroassembler', d + '/necroassembler', ignore=shutil.ignore_patterns('__pycache__'))
            shutil.copytree('/repo/tests', d + '/tests', ignore=shutil.ignore_patterns('__pycache__'))
            open(d + '/necroassembler/' + f, 'wb').write(ms[i][3])
            rc, o = run([PY, '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '--timeout=10', 'tests'], d, 120, PYTHONPATH=d)
            if rc:
                shutil.rmtree(d)
            return rc == 0
        with ThreadPoolExecutor(8) as ex:
            live = [i for i, ok in enumerate(ex.map(prep, range(len(ms)))) if ok]
        print('%s: %d mutants, %d tried, %d pass the tests' % (f, total, len(ms), len(live)), flush=True)
        v = top + '/verif'
        os.makedirs(v)
        for n in ('checks', 'mc'):
            shutil.copytree(os.path.join(H, n), os.path.join(v, n))
        shutil.copy(H + '/known_findings.json', v)
        by = {}
        left = 0
        for i in live:
            for c in CHECKS[f].split():
                rc, o = run([PY, 'checks/%s.py' % c.lower()], v, 900, VERIF_REPO='%s/%d' % (top, i), VERIF_FAILFAST='1')
                if rc:
                    by[c] = by.get(c, 0) + 1
                    if rc != 1:
                        print('   %s exit %d: line %d %r -> %r %s' % (c, rc, ms[i][0], ms[i][1][:60], ms[i][2][:60], o[-200:]), flush=True)
                    break
            else:
                left += 1
                print('   SURVIVOR %s:%d  %r -> %r' % (f, ms[i][0], ms[i][1][:80], ms[i][2][:80]), flush=True)
            shutil.rmtree('%s/%d' % (top, i))
        print('%s: %d survivors of %d; caught by %s' % (f, left, len(live), by), flush=True)
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == '__main__':
    main()
