"""Every instruction form of every processor written through a macro (C07), defines (C06) or a repetition (C08) equals the plain statement."""
import importlib
import re
from mc import core, impl

CPUS = {'mos6502': 'mos6502', 'lr35902': 'lr35902', 'z80': 'z80', 'i8086': 'i8086', 'mips32': 'mips32', 'm68k': 'mc68000', 'thumb': 'thumb', 'ppc': 'ppc', 'x86': 'x86'}
WORD = re.compile(r'[A-Za-z0-9_.]+')


def forms_of(name):
    m = importlib.import_module('mc.ref.' + CPUS[name])
    fs = m.label_forms(64) if name == 'x86' else m.forms()
    return [f for f in fs if f.tag != 'alt' and all(x.num for x in f.fields) and "'" not in f.text and '"' not in f.text]


def choices(form):
    """two accepted value tuples, as different as the form allows"""
    out = []
    for k in (-1, 0):
        v = [x.few()[k] for x in form.fields]
        if form.accepts(v):
            out.append(v)
    return [form.text.format(*v) for v in out] or None


def cut(texts):
    """(template with %0 %1.., the words of each text): the mnemonic is word 0; only words that start a name or number"""
    words = [WORD.findall(t) for t in texts]
    n = len(words[0])
    if any(len(w) != n for w in words):
        return None
    rest = [WORD.sub('\0', t) for t in texts]
    if any(r != rest[0] for r in rest):
        # signs differ: each text on its own
        return cut(texts[:1])
    if texts[0][0] == '.':
        return None
    t = rest[0]
    for i in range(n):
        t = t.replace('\0', '%%%d%%' % i, 1)
    return t, words


def fill(t, words):
    for i, w in enumerate(words):
        t = t.replace('%%%d%%' % i, w)
    return t


def summary(o):
    return o.kind, o.data if o.kind == 'ok' else b''


def macros(ctx, name, forms):
    cls = impl.load(name)
    for form in forms:
        core.arm()
        texts = choices(form)
        c = texts and cut(texts)
        if not c:
            continue
        t, words = c
        params = ['zzq%d' % i for i in range(len(words[0]))]
        plain = [fill(t, w) for w in words]
        want = summary(impl.run(cls, '\n'.join(plain + plain[::-1] + plain)))
        for first in (0, 1):
            ps = params[first:]
            body = fill(t, words[0][:first] + ps)
            if first == 0 and ps:
                head = '.macro WRAPPED ' + ' '.join(ps)
            else:
                head = '.macro WRAPPED ' + ', '.join(ps)
            calls = ['WRAPPED ' + ', '.join(w[first:]) for w in words]
            lines = [head, body, '.endmacro'] + calls + calls[::-1] + calls
            got = summary(impl.run(cls, '\n'.join(lines)))
            ctx.trace()
            ctx.step(len(lines))
            ctx.state((form.text, first, want))
            if got != want:
                ctx.fail('%s: %s through %s' % (name, ' then '.join(plain), head), want, got, lines)
            if first and len(words) == 2:
                # the values written in two different orders of the parameters
                lines = ['.macro WRAPPED ' + ' '.join(ps[::-1]), body, '.endmacro'] + ['WRAPPED ' + ' '.join(w[first:][::-1]) for w in words + words[::-1] + words]
                got = summary(impl.run(cls, lines))
                ctx.trace()
                if got != want:
                    ctx.fail('%s: %s through reversed parameters, a call per line' % (name, ' then '.join(plain)), want, got, lines)


def defines(ctx, name, forms):
    cls = impl.load(name)
    for form in forms:
        core.arm()
        texts = choices(form)
        c = texts and cut(texts)
        if not c:
            continue
        t, words = c
        names = ['zzq%d' % i for i in range(len(words[0]))]
        plain = [fill(t, w) for w in words]
        want = summary(impl.run(cls, '\n'.join(plain + plain[:1])))
        for first in (0, 1):
            lines = []
            for w in words + words[:1]:
                lines += ['.define %s %s' % (n, x) for n, x in zip(names, w)]
                lines.append(fill(t, w[:first] + names[first:]))
            got = summary(impl.run(cls, '\n'.join(lines)))
            ctx.trace()
            ctx.step(len(lines))
            ctx.state((form.text, first, want))
            if got != want:
                ctx.fail('%s: %s through defines' % (name, ' then '.join(plain)), want, got, lines)


def repeats(ctx, name, forms):
    cls = impl.load(name)
    for form in forms:
        core.arm()
        plain = choices(form)
        if not plain:
            continue
        plain = [plain[0], plain[-1]]
        for src, want in ((['.repeat 3'] + plain + ['.endrepeat'], plain * 3), (['.repeat 2'] + plain[:1] + ['.endrepeat'] + plain[1:] + ['.repeat 1'] + plain[:1] + ['.endrepeat'], plain[:1] * 2 + plain[1:] + plain[:1])):
            a, b = summary(impl.run(cls, '\n'.join(want))), summary(impl.run(cls, '\n'.join(src)))
            ctx.trace()
            ctx.step(len(src))
            ctx.state((form.text, a))
            if a != b:
                ctx.fail('%s: %s' % (name, ' | '.join(src)), a, b, src)


def shards(fn, thorough):
    out = []
    for name in CPUS:
        fs = forms_of(name)
        if not thorough and len(fs) > 1600:
            fs = fs[::len(fs) // 1600 + 1]
        k = 400
        for i in range(0, len(fs), k):
            out.append(('forms %s %d' % (name, i // k), fn, (name, fs[i:i + k])))
    return out
