"""C04: expressions, evaluated by an independent left-to-right fold, wherever the labels are defined."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, impl

LABELS = {'a': 0x12, 'b': 0x3456, 'far': 0x2fff0, 'z': 0, 'x1.y_2': 0x107}
DEFINES = {'K': '7', 'KH': '$1F'}
BASES = ['0', '5', '300', '70000', '$1ff', '%1011', '-3', '-300', '+5', '+300', 'a', 'b', 'far', 'x1.y_2', 'K', 'KH', 'z']
TERMS = ['', '1', '3', '$10', '255', 'a', 'b', 'K', 'x1.y_2', 'z']
OPS = '+-*/&|'
SELECT = ['', '<', '>', '<<', '>>', '><', '>><', '<<<', '>>>']
LIMIT = {'db': 8, 'dw': 16, 'dd': 32}


class Bad(Exception):
    pass


def number(t):
    t = DEFINES.get(t, t)
    if t in LABELS:
        return LABELS[t], 'label'
    if t[0] == '$':
        return int(t[1:], 16), 'raw'
    if t[0] == '%':
        return int(t[1:], 2), 'raw'
    return int(t), 'dec'


def evaluate(sel, base, terms):
    """(value, kind of base, uses labels)"""
    v, kind = number(base)
    lab = kind == 'label'
    v >>= 8 * sel.count('>')
    if '<' in sel:
        v &= (1 << (8 * sel.count('<'))) - 1
    for op, t in terms:
        n, k = (1, 'dec') if t == '' else number(t)
        lab = lab or k == 'label'
        if op == '+':
            v = v + n
        elif op == '-':
            v = v - n
        elif op == '*':
            v = v * n
        elif op == '&':
            v = v & n
        elif op == '|':
            v = v | n
        elif n == 0:
            raise Bad()
        else:
            v = v // n
    return v, kind, lab


def outcome(sel, base, terms, bits):
    """bytes value, 'reject', or None when this property says nothing"""
    try:
        v, kind, lab = evaluate(sel, base, terms)
    except Bad:
        return 'reject'
    if v < 0:
        if lab:
            return 'reject' if kind == 'label' else None
        if kind == 'dec' and v >= -(1 << (bits - 1)):
            return v + (1 << bits)
        return 'reject'
    return v if v < (1 << bits) else 'reject'


def text(sel, base, terms):
    return sel + base + ''.join(o + t for o, t in terms)


def deflabels(names):
    # labels are defined through origins, in the given order
    return ''.join('.org %d\n%s:\n' % (LABELS[n], n) for n in names)


PLACES = {
    'before': (['a', 'b', 'far', 'z', 'x1.y_2'], []),
    'after': ([], ['a', 'b', 'far', 'z', 'x1.y_2']),
    'mixed': (['b', 'z'], ['x1.y_2', 'far', 'a']),
}
HEAD = ''.join('.define %s %s\n' % kv for kv in DEFINES.items())


def program(place, d, exprs):
    pre, post = PLACES[place]
    return [HEAD + deflabels(pre) + '.org $8000\n', '.%s %s\n' % (d, ', '.join(exprs)), deflabels(post)]


def cls(big):
    return impl.core_classes(hex_prefixes=('$',), bin_prefixes=('%',), big_endian=big)


def batch(ctx, C, big, place, d, items):
    bits = LIMIT[d]
    size = bits // 8
    exprs = [text(*e) for e, _ in items]
    o = impl.run(C, program(place, d, exprs))
    ctx.trace()
    ctx.step(len(items))
    want = b''.join(v.to_bytes(size, 'big' if big else 'little') for _, v in items)
    if o.kind == 'ok' and o.data == want:
        return
    # narrow down
    if len(items) > 1:
        h = len(items) // 2
        batch(ctx, C, big, place, d, items[:h])
        batch(ctx, C, big, place, d, items[h:])
    else:
        ctx.fail('.%s %s (labels %s, %s endian)' % (d, exprs[0], place, 'big' if big else 'little'), want, impl.brief(o), '\n'.join(program(place, d, exprs)))


def single_bad(ctx, C, big, place, d, e):
    o = impl.run(C, program(place, d, [text(*e)]))
    ctx.trace()
    ctx.step()
    ctx.state(('reject', o.kind, d))
    if o.kind not in ('asm-error', 'link-error'):
        ctx.fail('.%s %s (labels %s)' % (d, text(*e), place), 'a diagnostic', impl.brief(o), '\n'.join(program(place, d, [text(*e)])))


def explore(ctx, base, nterms, place, d, big, bad, sels, terms=TERMS):
    C = cls(big)
    pend = []
    for sel in sels:
        for combo in itertools.product(itertools.product(OPS, terms), repeat=nterms):
            e = (sel, base, combo)
            r = outcome(sel, base, combo, LIMIT[d])
            if r is None:
                continue
            if r == 'reject':
                if bad:
                    single_bad(ctx, C, big, place, d, e)
                continue
            ctx.state((d, r))
            pend.append((e, r))
            if len(pend) == 256:
                batch(ctx, C, big, place, d, pend)
                pend = []
    if pend:
        ctx.sample({'expr': text(*pend[0][0]), 'value': pend[0][1], 'labels': place}, 1)
        batch(ctx, C, big, place, d, pend)


def literals(ctx, base):
    """literal-only expressions straight through the integer parser, signed fields included"""
    asm = cls(False)()
    AE = impl.asm_error()
    core.arm()
    for sel in SELECT:
        for n in (0, 1, 2):
            for combo in itertools.product(itertools.product(OPS, ['', '1', '3', '$10', '255', '0']), repeat=n):
                t = text(sel, base, combo)
                try:
                    v, kind, _ = evaluate(sel, base, combo)
                except Bad:
                    v = None
                for bits in (4, 8, 16, 33):
                    for signed in (False, True):
                        exp = 'reject'
                        if v is not None:
                            if kind == 'dec' and signed:
                                exp = v if -(1 << (bits - 1)) <= v < (1 << (bits - 1)) else exp
                            elif v >= 0:
                                exp = v if v < (1 << bits) else exp
                            elif kind == 'dec':
                                exp = v + (1 << bits) if v >= -(1 << (bits - 1)) else exp
                        try:
                            got = asm.parse_integer(t, bits, signed)
                        except AE:
                            got = 'reject'
                        except Exception as x:  # noqa
                            got = 'raw error %r' % x
                        ctx.trace()
                        ctx.step()
                        ctx.state((bits, exp))
                        if got != exp:
                            ctx.fail('parse %s %s %d bits' % (t, 'signed' if signed else 'unsigned', bits), exp, got)


def unknown(ctx):
    C = cls(False)
    for sel in SELECT:
        for base in BASES + ['nope']:
            for n in (0, 1, 2):
                for ops in itertools.product('+-*', repeat=n):
                    for ts in itertools.product(['1', 'a', 'nope', ''], repeat=n):
                        e = (sel, base, tuple(zip(ops, ts)))
                        if base != 'nope' and 'nope' not in ts:
                            continue
                        for place in ('before', 'after'):
                            o = impl.run(C, program(place, 'dd', [text(*e)]))
                            ctx.trace()
                            ctx.step()
                            ctx.state((o.kind, str(o.exc)))
                            if o.kind not in ('asm-error', 'link-error') or 'nope' not in str(o.exc):
                                ctx.fail('.dd %s (labels %s)' % (text(*e), place), 'a diagnostic naming "nope"', impl.brief(o))


def long_exprs(ctx):
    C = cls(False)
    for n in (4, 5, 10, 40, 300):
        for place in PLACES:
            items = []
            for ops in itertools.product(OPS, repeat=3):
                combo = tuple((ops[i % 3], ['1', 'a', '3', 'K', '', 'b', '255'][i % 7]) for i in range(n))
                for base in ('5', 'b', 'far'):
                    r = outcome('', base, combo, 32)
                    if isinstance(r, int):
                        items.append((('', base, combo), r))
                        ctx.state(('long', r))
            batch(ctx, C, False, place, 'dd', items)


WIDE = [1, 3, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x200000001, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]


def wide(ctx, d, base):
    """operands and intermediate results of up to 64 bits (and beyond), in a field the result fits"""
    C = cls(False)
    items = []
    for n in (1, 2):
        for combo in itertools.product(itertools.product(OPS, WIDE), repeat=n):
            for spell in (str, lambda x: '$%X' % x):
                e = ('', spell(base), tuple((o, spell(t)) for o, t in combo))
                r = outcome(*e, LIMIT[d])
                if isinstance(r, int):
                    ctx.state((d, r))
                    items.append((e, r))
                elif r == 'reject' and n == 1:
                    single_bad(ctx, C, False, 'before', d, e)
    for i in range(0, len(items), 256):
        batch(ctx, C, False, 'before', d, items[i:i + 256])


def selectors(ctx, value):
    """every mix of up to nine selectors on operands of up to 64 bits: literals, labels before and after the use"""
    from necroassembler import directive
    base = cls(False)

    class Quad(base):
        @directive('dq')
        def _dq(self, instr):
            for token in instr.tokens[1:]:
                self.append_assembled_bytes(self.parse_integer_or_label(label=token, size=8, bits_size=64).to_bytes(8, 'little'))

    sels = ['<' * n for n in range(10)] + ['>' * n for n in range(10)]
    ops = [('', 0, lambda v, n: v), ('+', 1, lambda v, n: v + n), ('-', 1, lambda v, n: v - n), ('*', 3, lambda v, n: v * n), ('/', 7, lambda v, n: v // n), ('&', 0xFFFF00FF, lambda v, n: v & n), ('|', 0x10, lambda v, n: v | n)]
    spells = {'dec': str(value), 'hex': '$%X' % value, 'label': 'big'}
    for sel in sels:
        for op, n, f in ops:
            v = value >> 8 * len(sel) if sel[:1] == '>' else value & ((1 << 8 * len(sel)) - 1) if sel else value
            v = f(v, n)
            want = v.to_bytes(8, 'little') if 0 <= v < 1 << 64 else None
            for kind, spell in spells.items():
                e = sel + spell + (op + str(n) if op else '')
                for place in ('before', 'after') if kind == 'label' else ('none',):
                    lab = '.org $%X\nbig:\n' % value
                    src = (lab if place == 'before' else '') + '.org 0\n.dq %s\n' % e + (lab if place == 'after' else '')
                    if v < 0 and kind == 'dec':
                        if v < -(1 << 63):
                            continue
                        data = (v + (1 << 64)).to_bytes(8, 'little')
                    else:
                        data = want
                    o = impl.run(Quad, src)
                    ctx.trace()
                    ctx.step()
                    ctx.state((value, e, place))
                    if data is None and o.kind not in ('asm-error', 'link-error') or data is not None and (o.kind != 'ok' or o.data != data):
                        ctx.fail('.dq %s with big = %x %s' % (e, value, place), data if data is not None else 'a diagnostic', impl.brief(o))


def shards(tier):
    out = [('unknown', unknown, ()), ('long', long_exprs, ())]
    for v in (0, 1, 0xFF, 0x100, 0x12345678, 0xFEDCBA98, 0x123456789A, 0x0102030405060708, 0xFFFFFFFFFFFFFFFF, 0x8000000000000000):
        out.append(('selectors-%x' % v, selectors, (v,)))
    for d in ('db', 'dd'):
        for b in WIDE:
            out.append(('wide-%s-%x' % (d, b), wide, (d, b)))
    for b in [x for x in BASES if x not in LABELS and x not in DEFINES]:
        out.append(('literal-' + b, literals, (b,)))
    short = ['', '3', '$10', 'b']
    for base in BASES:
        for place in PLACES:
            for d in ('db', 'dw', 'dd'):
                for n in (0, 1):
                    out.append(('e%d-%s-%s-%s' % (n, base, place, d), explore, (base, n, place, d, d == 'dw', n == 0 or (place != 'mixed'), SELECT)))
            out.append(('e2-%s-%s' % (base, place), explore, (base, 2, place, 'dd', True, False, SELECT)))
            if tier == 'thorough' or place != 'mixed':
                out.append(('e3-%s-%s' % (base, place), explore, (base, 3, place, 'dd', False, False, ['', '>'], short if tier == 'quick' else TERMS)))
            if tier == 'thorough':
                out.append(('e4-%s-%s' % (base, place), explore, (base, 4, place, 'dd', False, False, ['', '>'], ['', '3', 'a'])))
                out.append(('b2-%s-%s' % (base, place), explore, (base, 2, place, 'dw', False, True, ['', '<'])))
    return out


if __name__ == '__main__':
    core.main('C04', shards, rule='all expressions up to 3 terms (4 thorough) over the listed bases, terms, operators and selectors; labels before, after and around the use; up to nine selectors on operands of 64 bits',
              assumptions=['a selector applies to the first operand only; mixing < before > is not specified; a negative result of a number-first expression with labels is not specified'])
