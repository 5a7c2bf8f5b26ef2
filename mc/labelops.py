"""C31: labels as operands - every numeric operand of every form, label against number, defined before and after."""
import importlib
from mc import core, impl

CPUS = {'mos6502': 'mos6502', 'lr35902': 'lr35902', 'z80': 'z80', 'i8086': 'i8086', 'mips32': 'mips32', 'm68k': 'mc68000', 'thumb': 'thumb', 'ppc': 'ppc', 'x86': 'x86', 'x86-16': 'x86', 'x86-32': 'x86'}
MODES = {'x86': 64, 'x86-16': 16, 'x86-32': 32}
PC_BASE = 0x4000


def forms_of(name):
    m = importlib.import_module('mc.ref.' + CPUS[name])
    fs = m.label_forms(MODES[name]) if name in MODES else m.forms()
    return [f for f in fs if f.tag != 'alt' and any(usable(x) for x in f.fields)]


def usable(x):
    return x.label == 'abs'  # pc relative ones: C30


def addresses(x, deep):
    """label addresses the field can hold"""
    b = x.bits
    c = {1, 2, 3, x.mult, 4 * x.mult, 0x5A, 0xA5, 0xFF, 0x100, 0x1234, 0xFEDC, 0x12345678, 0xFEDCBA98, x.lhi, x.lhi - 1, x.lhi // x.mult * x.mult, 1 << (b - 1), (1 << (b - 1)) - 1, 0}
    if deep or b <= 3:
        c |= {1 << k for k in range(b)} | {(1 << k) + 1 for k in range(b)}
        if b <= 8:
            c |= set(range(256))
    return sorted(v for v in c if 0 <= v and x.llo <= v <= x.lhi)


def put(form, i, vals, lab):
    parts = list(vals)
    parts[i] = lab
    return form.text.format(*parts)


def want_of(form, vals, known):
    if not form.accepts(vals):
        return None
    w = form.encode(vals, known=known)
    return w if isinstance(w, bytes) else None


def program(uses, order):
    """uses: (text with %L, expression around the address, address, bytes); order: definitions before, after, or alternating"""
    defs, body, want = [], [], b''
    for k, (text, wrap, addr, enc) in enumerate(uses):
        d = ['.org %d' % addr, 'L%d_:' % k]
        defs += d
        body += [text.replace('%L', wrap.replace('%', 'L%d_' % k)), '.db 255' if k & 1 else '.db 0']
        want += enc + (b'\xff' if k & 1 else b'\0')
    code = ['.org %d' % PC_BASE] + body
    return (defs + code if order == 'before' else code + defs), want


def judge(ctx, name, uses, order):
    cls = impl.load(name)
    lines, want = program(uses, order)
    o = impl.run(cls, '\n'.join(lines))
    ctx.trace()
    ctx.step(len(uses))
    ctx.state((name, want))
    if o.kind == 'ok' and o.data == want:
        return
    n = 0
    together = o
    for u in uses:
        core.arm()
        lines, want = program([u], order)
        o = impl.run(cls, '\n'.join(lines))
        if o.kind != 'ok' or o.data != want:
            n += 1
            ctx.fail('%s: %s = %d defined %s' % (name, u[0].replace('%L', u[1].replace('%', 'label')), u[2], order), want, impl.brief(o), lines)
    if not n:
        ctx.fail('%s: %d statements together, %s first, labels %s' % (name, len(uses), uses[0][0], order), 'as each alone', impl.brief(together), [u[0] for u in uses])


def refuse(ctx, name, text, addr, order):
    d = ['.org %d' % addr, 'lab:']
    b = ['.org %d' % PC_BASE, text.replace('%L', 'lab')]
    o = impl.run(impl.load(name), '\n'.join(d + b if order == 'before' else b + d))
    ctx.trace()
    ctx.step()
    ctx.state((name, text, addr))
    if o.kind not in ('asm-error', 'link-error'):
        ctx.fail('%s: %s = %d defined %s' % (name, text.replace('%L', 'label'), addr, order), 'refused', impl.brief(o), b)


# expressions around a label and the address that gives value v
WRAPS = [('%', lambda v: v), ('%+1', lambda v: v - 1), ('%-2', lambda v: v + 2), ('%+3-1', lambda v: v - 2)]


def shard(ctx, name, forms, deep):
    seen = set()
    for order in ('before', 'after'):
        batch = []
        for form in forms:
            known = order == 'before'
            for i, x in enumerate(form.fields):
                if not usable(x):
                    continue
                vals = [f.few()[-1] if f.few() else 0 for f in form.fields]
                for j, v in enumerate(addresses(x, deep)):
                    vals[i] = v
                    if v % x.mult or form.tag == 'int' and v == 3:      # INT 3 has its own opcode
                        continue
                    w = want_of(form, vals, known)
                    text = put(form, i, vals, '%L')
                    if w is None:
                        if form.check is None and x.ok is None:
                            refuse(ctx, name, text, v, order)
                        continue
                    if form.wants_known and not known and want_of(form, vals, True) is not None and len(w) != len(want_of(form, vals, True)) and v < 256 and x.lhi == 255:
                        # zero page only instructions may refuse addresses that are not known yet
                        continue
                    wrap, inv = WRAPS[0] if j % 3 else WRAPS[(j // 3) % len(WRAPS)]
                    a = inv(v)
                    if a < 0 or wrap != '%' and form.wants_known:
                        wrap, a = '%', v
                    batch.append((text, wrap, a, w))
                    if len(batch) >= 60:
                        core.arm()
                        judge(ctx, name, batch, order)
                        batch = []
                # just beyond what the field holds
                if deep or form is forms[0] or form is forms[-1] or (form.text.split()[0], i) not in seen:
                    seen.add((form.text.split()[0], i))
                    vals[i] = x.few()[-1]
                    for v in (x.lhi + 1, x.lhi + x.mult, 2 * x.lhi + 2, (x.lhi + 1) << 8):
                        core.arm()
                        refuse(ctx, name, put(form, i, vals, '%L'), v, order)
        if batch:
            judge(ctx, name, batch, order)
        several(ctx, name, [f for f in forms if sum(map(usable, f.fields)) > 1 and f.check is None and not f.wants_known], order, deep)


def several(ctx, name, forms, order, deep):
    """every operand of a statement a label of its own"""
    defs, body, want, k = [], [], b'', 0
    for form in forms:
        lists = [[v for v in addresses(x, False) if usable(x) and x.good(v)] or [None] for x in form.fields]
        for j in range(max(map(len, lists)) if deep else 4):
            core.arm()
            vals = [x.few()[0] if not usable(x) else li[-1 - (j + 2 * n) % len(li)] for n, (x, li) in enumerate(zip(form.fields, lists))]
            parts = list(vals)
            d = []
            for n, x in enumerate(form.fields):
                if usable(x):
                    parts[n] = 'L%d_' % n
                    d += ['.org %d' % vals[n], 'L%d_:' % n]
            b = ['.org %d' % PC_BASE, form.text.format(*parts), '.db 255']
            w = form.encode(vals) + b'\xff'
            o = impl.run(impl.load(name), '\n'.join(d + b if order == 'before' else b + d))
            ctx.trace()
            ctx.step()
            ctx.state((name, w))
            if o.kind != 'ok' or o.data != w:
                ctx.fail('%s: %s with labels %s defined %s' % (name, form.text, vals, order), w, impl.brief(o), d + b)


def shards(tier, names=None):
    deep = tier == 'thorough'
    out = []
    for name in names or CPUS:
        fs = forms_of(name)
        k = max(20, len(fs) // 16)
        for i in range(0, len(fs), k):
            out.append(('%s %d' % (name, i), shard, (name, fs[i:i + k], deep)))
    return out
