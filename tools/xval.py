"""Cross-validates the reference encoders against llvm-mc: disassembles the reference bytes and compares the text.

usage: xval.py <ref module>   (a development aid; no check runs it)
"""
import importlib, re, subprocess, sys
sys.path.insert(0, '/verif')
TRIPLE = {'i8086': (['--triple=i386-unknown-unknown-code16', '--output-asm-variant=1'],), 'x86': (['--triple=x86_64', '--output-asm-variant=1'],), 'mips32': (['--triple=mips', '-mcpu=mips32'],), 'thumb': (['--triple=thumbv4t'],), 'mc68000': (['--triple=m68k'],), 'ppc': (['--triple=powerpc'],)}


def disasm(name, blobs):
    inp = '\n'.join(' '.join('0x%02x' % b for b in x) for x in blobs) + '\n'
    p = subprocess.run(['llvm-mc', '--disassemble'] + TRIPLE[name][0], input=inp, capture_output=True, text=True)
    return p.stdout, p.stderr


def norm(s):
    s = s.lower().replace('\t', ' ')
    s = re.sub(r'(byte|word|dword|qword) ptr ', '', s)
    s = re.sub(r'\s+', ' ', s)
    s = re.sub(r'\s*([,+\-\[\]()])\s*', r'\1', s)
    s = re.sub(r'0x[0-9a-f]+', lambda m: str(int(m.group(0), 16)), s)
    return s.strip()


def main(name):
    ref = importlib.import_module('mc.ref.' + name)
    items = []
    for f in ref.forms():
        n = 0
        for vals in f.combos():
            if f.accepts(vals) and (n < 3 or not f.fields):
                n += 1
                items.append((f.text.format(*vals), f.encode(vals, pc=0)))
    # separate with a marker instruction is unreliable: one process per chunk line
    bad = 0
    from concurrent.futures import ThreadPoolExecutor

    def one(it):
        o, e = disasm(name, [it[1]])
        return it, [norm(l) for l in o.splitlines() if l.strip() and not l.strip().startswith('.')], e
    with ThreadPoolExecutor(8) as ex:
        for it, lines, e in ex.map(one, items):
            got = ' ; '.join(lines)
            if got != norm(it[0]):
                bad += 1
                print('%-40s %-20s %s' % (it[0], it[1].hex(), got or e.splitlines()[:1]))
    print(len(items), 'items', bad, 'differ')


main(sys.argv[1])
