"""C30: branches to labels - every relative branch form of every processor at every distance around its limits."""
import importlib
from mc import core, impl

# module of the reference, class, address space, number of forms that get every distance
CPUS = {'mos6502': ('mos6502', 1 << 20), 'lr35902': ('lr35902', 1 << 20), 'z80': ('z80', 1 << 20), 'i8086': ('i8086', 1 << 20), 'mips32': ('mips32', 1 << 32), 'm68k': ('mc68000', 1 << 32),
        'thumb': ('thumb', 1 << 32), 'ppc': ('ppc', 1 << 32), 'x86': ('x86', 1 << 32), 'x86-16': ('x86', 1 << 20), 'x86-32': ('x86', 1 << 32), 'nes': ('mos6502', 1 << 20)}


def forms_of(name):
    m = importlib.import_module('mc.ref.' + CPUS[name][0])
    fs = m.branches({'x86': 64, 'x86-16': 16, 'x86-32': 32}[name]) if name.startswith('x86') else m.forms()
    return [f for f in fs if f.tag != 'alt' and any(x.label in ('rel', 'pcrel') for x in f.fields)]


def prologue(name):
    return {'x86-16': ['.bits 16'], 'x86-32': ['.bits 32']}.get(name, [])


def cls_of(name):
    return impl.load(name.split('-')[0])


def displacement(x, base, target):
    """what the branch at base has to hold to reach target; None when it cannot"""
    if x.label == 'pcrel':      # Thumb literal: from the word-aligned pc, forward only
        v = target - ((base + x.base) & ~3)
        return v if v % 4 == 0 and 0 <= v <= 1020 else None
    v = target - (base + x.base)
    return v if x.good_label(v) and (x.ok is None or x.ok(v)) else None


def text_of(form, i, label, others):
    parts = list(others)
    parts[i] = label
    return form.text.format(*parts)


def fill(form, i):
    return [x.few()[0] for x in form.fields]


def distances(x, every):
    if x.label == 'pcrel':
        d = set(range(-8, 1040)) if every else {-8, -4, -1, 0, 1, 2, 3, 4, 8, 1016, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1028}
        return sorted(d)
    lim = 1 << (x.bits - 1)
    w = 9 if every else 3
    d = set(range(-lim - w, -lim + w + 1)) | set(range(lim - w, lim + w)) | set(range(-w - 1, w + 2)) | {lim + (1 << 20), -lim - (1 << 20), 2 * lim, -2 * lim}
    for k in range(x.bits + 2):
        d |= {1 << k, -(1 << k), (1 << k) + x.mult}
    if every and x.bits <= 12:
        d |= set(range(-lim - 9, lim + 9))
    return sorted(d)


def run_prog(name, lines):
    return impl.run(cls_of(name), '\n'.join(prologue(name) + lines))


def branch(ctx, name, forms, every):
    space = CPUS[name][1]
    align = forms[0].fields and max(x.mult for f in forms for x in f.fields if x.label)
    origins = [0, 0x102 * align, 0x7FFC, 0xFD00, 0x10000] + ([0x3FF8000, 0x80000000, 0xFFFF0000] if space > 1 << 20 else [0x1FFC0, 0xFFF00])
    for form in forms:
        i = next(k for k, x in enumerate(form.fields) if x.label in ('rel', 'pcrel'))
        x = form.fields[i]
        others = fill(form, i)
        for base in origins if every else (origins[1], origins[-1] - 0x400 if space > 1 << 20 else 0x18200):
            lines, want, bad = [], b'', []
            n = 0
            for d in distances(x, every and base == origins[1]):
                target = base + x.base + d
                if not 0 <= target < space:
                    continue
                v = displacement(x, base, target)
                ctx.state((name, form.text, base == 0, d))
                if v is None:
                    # misaligned targets: those close to the branch and to the limits
                    lim = 1 << (x.bits - 1)
                    if base == origins[1] or base == origins[-1] or abs(d) > lim:
                        if min(abs(d), abs(d - lim), abs(d + lim)) < 24 or d % 64 == 1 or abs(d) > lim:
                            bad.append(target)
                    continue
                vals = list(others)
                vals[i] = v
                enc = form.encode(vals)
                use = ['.org %d' % base, text_of(form, i, 't%d' % n, others)]
                lab = ['.org %d' % target, 't%d:' % n]
                lines += use + lab if n & 1 else lab + use
                n += 1
                want += enc
            if not lines:
                continue
            o = run_prog(name, lines)
            ctx.trace()
            ctx.step(n)
            if o.kind != 'ok' or o.data != want:
                blame(ctx, name, form, i, x, others, base, space, every)
            for target in bad:
                for fwd in (0, 1):
                    core.arm()
                    use = ['.org %d' % base, text_of(form, i, 'tt', others)]
                    lab = ['.org %d' % target, 'tt:']
                    o = run_prog(name, use + lab if fwd else lab + use)
                    ctx.trace()
                    ctx.step(2)
                    if o.kind not in ('asm-error', 'link-error'):
                        ctx.fail('%s: %s from %d to %d %s' % (name, use[1], base, target, 'defined later' if fwd else 'defined before'), 'refused', impl.brief(o), use + lab)


def blame(ctx, name, form, i, x, others, base, space, every):
    """one distance at a time"""
    for d in distances(x, every):
        target = base + x.base + d
        v = displacement(x, base, target)
        if v is None or not 0 <= target < space:
            continue
        vals = list(others)
        vals[i] = v
        for fwd in (0, 1):
            core.arm()
            use = ['.org %d' % base, text_of(form, i, 'tt', others)]
            lab = ['.org %d' % target, 'tt:']
            o = run_prog(name, use + lab if fwd else lab + use)
            if o.kind != 'ok' or o.data != form.encode(vals):
                ctx.fail('%s: %s from %d to %d %s' % (name, use[1], base, target, 'defined later' if fwd else 'defined before'), form.encode(vals), impl.brief(o), use + lab)


def context(ctx, name, forms):
    """the same branch inside larger programs: after other code, through formulas, inside macros and repeats"""
    space = CPUS[name][1]
    for form in forms:
        core.arm()
        i = next(k for k, x in enumerate(form.fields) if x.label in ('rel', 'pcrel'))
        x = form.fields[i]
        others = fill(form, i)
        n = len(form.encode([y.few()[0] if k != i else 4 * x.mult for k, y in enumerate(form.fields)]))
        a = max(x.mult, 4)

        def enc(v):
            vals = list(others)
            vals[i] = v
            return form.encode(vals)

        def br(lab):
            return text_of(form, i, lab, others)

        def case(what, lines, want):
            o = run_prog(name, lines)
            ctx.trace()
            ctx.step(len(lines))
            ctx.state((name, form.text, what, want))
            if o.kind != 'ok' or o.data != want:
                ctx.fail('%s: %s: %s' % (name, what, ' | '.join(lines)), want, impl.brief(o), lines)
        B = 0x1000
        for gap in (a, 3 * a, 9 * a):
            # code on both sides, several branches to one label
            t = B + 2 * n + gap
            ds = [displacement(x, B + k * n, t) for k in (0, 1)]
            dback = displacement(x, t, B)
            if None not in ds:
                case('two to one', ['.org %d' % B, br('t'), br('t'), '.ram %d' % gap, 't:', '.db 7'], enc(ds[0]) + enc(ds[1]) + b'\7')
                case('in a macro', ['.macro m p', br('p'), '.endmacro', '.org %d' % B, 'm t', 'm t', '.ram %d' % gap, 't:', '.db 7'], enc(ds[0]) + enc(ds[1]) + b'\7')
                case('repeated', ['.org %d' % B, '.repeat 2', br('t'), '.endrepeat', '.ram %d' % gap, 't:', '.db 7'], enc(ds[0]) + enc(ds[1]) + b'\7')
                case('after data', ['.org %d' % (B - 2), '.db 1 2', br('t'), br('t'), '.ram %d' % gap, 't:', '.db 7'], b'\1\2' + enc(ds[0]) + enc(ds[1]) + b'\7')
                case('with a formula', ['.org %d' % B, br('t-%d' % a), br('t'), '.ram %d' % gap, '.ram %d' % a, 't:'],
                     enc(ds[0]) + enc(displacement(x, B + n, t + a))) if displacement(x, B + n, t + a) is not None else None
                # an expression with a label is an address, wherever the label stands in it
                u = t + a
                du, d0 = displacement(x, B, u), displacement(x, B, t)
                for text, v in (('t+%d' % a, u), ('%d+t' % a, u), ('t+%d+0' % a, u), ('0+t', t), ('t*1', t), ('1*t', t), ('t*2/2', t), ('t|0', t), ('t&65535', t), ('65535&u', u), ('t+t-t', t),
                                ('%d+t-%d' % (a, a), t), ('t+u-t', u), ('%d' % t + '-t+u', u), ('t+k', u), ('k+t', u), ('u-k', t), ('B+%d' % (t - B), t), ('%d+B' % (t - B), t)):
                    dv = du if v == u else d0
                    if dv is not None:
                        case('the expression %s' % text, ['.define k %d' % a, '.org %d' % B, 'B:', br(text), '.ram %d' % (n + gap), 't:', '.ram %d' % a, 'u:'], enc(dv))
                case('label moved by .upto', ['.org %d' % B, br('t'), br('t'), '.upto %d' % (2 * n + gap), 't:', '.db 7'], enc(ds[0]) + enc(ds[1]) + bytes(gap) + b'\7')
            if dback is not None:
                case('back over data', ['.org %d' % B, 't:', '.ram %d' % (2 * n + gap), br('t'), '.db 9'], enc(dback) + b'\x09')
                case('back over bytes', ['.org %d' % B, 't:', '.fill %d 1' % (2 * n + gap), br('t'), '.db 9'], bytes([1]) * (2 * n + gap) + enc(dback) + b'\x09')
                for text in ('0+t', 't&65535', '65535&t', 't*1', 't*2/2', 't-%d+%d' % (a, a), '%d+t-%d' % (a, a), 't|0'):
                    case('back to the expression %s' % text, ['.org %d' % B, 't:', '.ram %d' % (2 * n + gap), br(text), '.db 9'], enc(dback) + b'\x09')
                d2 = displacement(x, t, B + a)
                if d2 is not None:
                    case('back with a formula', ['.org %d' % B, 't:', '.ram %d' % (2 * n + gap), br('t+%d' % a), '.db 9'], enc(d2) + b'\x09')


def misaligned(ctx, name, forms):
    """a branch at an address its processor cannot execute: no rounding may hide that the target is missed, nor that it is misaligned itself"""
    for form in forms:
        core.arm()
        i = next(k for k, x in enumerate(form.fields) if x.label in ('rel', 'pcrel'))
        x = form.fields[i]
        if x.label == 'pcrel' or x.mult == 1:
            continue
        others = fill(form, i)
        for base in [0x1000 + k for k in range(1, x.mult)] + [0x7FFC + x.mult - 1]:
            for target in list(range(base - 10, base + 18)) + [base + (8 << k) + j for k in range(3, 6) for j in range(4)]:
                d = target - (base + x.base)
                vals = list(others)
                vals[i] = d
                try:
                    exact = form.encode(vals) if target % x.mult == 0 and (d % x.mult == 0 or x.mult == 2 and name == 'm68k') else None
                except Exception:
                    exact = None
                for fwd in (0, 1):
                    use = ['.org %d' % base, text_of(form, i, 'tt', others)]
                    lab = ['.org %d' % target, 'tt:']
                    o = run_prog(name, use + lab if fwd else lab + use)
                    ctx.trace()
                    ctx.step(2)
                    ctx.state((name, form.text, base, d))
                    if not (o.kind in ('asm-error', 'link-error') or exact is not None and o.kind == 'ok' and o.data == exact):
                        ctx.fail('%s: %s from %d to %d %s' % (name, use[1], base, target, 'defined later' if fwd else 'defined before'), 'refused' if exact is None else exact, impl.brief(o), use + lab)


def shards(tier, names=None):
    deep = tier == 'thorough'
    out = []
    for name in names or CPUS:
        fs = forms_of(name)
        # one form per mnemonic and field width gets every distance
        rep = {}
        for f in fs:
            x = next(y for y in f.fields if y.label in ('rel', 'pcrel'))
            rep.setdefault((f.text.split()[0].lower(), x.bits, x.base, x.mult), f)
        rep = list(rep.values())
        k = 4
        for i in range(0, len(rep), k):
            out.append(('every %s %d' % (name, i), branch, (name, rep[i:i + k], True)))
        for i in range(0, len(rep), 16):
            if any(f for f in rep[i:i + 16] if max(x.mult for x in f.fields if x.label) > 1):
                out.append(('misaligned %s %d' % (name, i), misaligned, (name, rep[i:i + 16])))
        if name != 'nes':
            rest = [f for f in fs if deep or f not in rep]
            if not deep:
                rest = rest[::max(1, len(rest) // 200)]
            k = 12
            for i in range(0, len(rest), k):
                out.append(('limits %s %d' % (name, i), branch, (name, rest[i:i + k], deep)))
        for i in range(0, len(rep), 24):
            out.append(('context %s %d' % (name, i), context, (name, rep[i:i + 24])))
    return out
