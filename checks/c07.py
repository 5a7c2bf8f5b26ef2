"""C07: macros - every program over a colliding alphabet equals its hand expansion."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, impl, wrapped
from checks.c06 import replace, TOK

DEFS = [('.macro M', 'NOP', 'LDI 1', '.endmacro'), ('.macro M p', 'LDI p', '.endmacro'), ('.macro N p q', 'ADD p q', 'JP q', '.endmacro'),
        ('.macro O r', 'M r', 'N r r', '.endmacro'), ('.macro P x', 'x 3', '.endmacro'), ('.macro Q K', 'LDI K+1', 'LDI $A', '.endmacro'),
        ('.macro m2 p_1 p', 'ADD p_1+p p', "LDI 'p'", '.endmacro'), ('.Macro R t', 'BR t', 'NOP', 'BRL t-1', '.EndMacro'), ('.macro nop', 'LDI 9', '.endmacro'), ('.macro E', '.endmacro'),
        ('.macro W A', 'JP $A+A', 'LDI K', '.endmacro'), ('.macro N q p', 'N2 p', 'LDI q', '.endmacro'), ('.macro Z', 'LDI K', 'ADD K K+1', '.endmacro'),
        ('.macro S p', 'p', 'nop', 'p', '.endmacro'), ('.macro T p', 'K', '.endmacro'), ('.macro LDI x', '.endmacro')]
CALLS = ['M', 'M 3', 'M a', 'N 1 2', 'N a b+1', 'O 7', 'O a', 'P LDI', 'P M', 'P p', 'Q 4', 'q $10', 'm2 1 2', 'M2 p a', 'R a', 'm K', 'Nop', "M 'x'", 'N 300 1', 'E', 'W 5', 'w a', 'N p q', 'N q p', 'Z', 'S Nop', 'S E', 's M', 'S N2', 'T 1']
MISC = ['a:', 'b:', '.define K 5', '.define K p', '.define K NOP', 'NOP', '.org 16', '.db 1 "M"']


class Err(Exception):
    def __init__(self, done):
        self.done = done


def expand(line, macros, out, depth=0):
    """append the hand written form of an instruction line"""
    t = TOK.findall(line)
    m = macros.get(t[0].upper())
    if m is None:
        out.append(line)
        return
    params, body = m
    if len(t) - 1 < len(params) or depth > 20:
        raise Err(out)
    d = dict(zip(params, t[1:]))
    for b in body:
        expand(' '.join(replace(x, d) for x in TOK.findall(b)), macros, out, depth + 1)


def by_hand(blocks):
    """(lines, failed): the program without macros"""
    macros, out = {}, []
    for b in blocks:
        if isinstance(b, tuple):
            h = b[0].split()
            macros[h[1].upper()] = (h[2:], b[1:-1])
        elif b[0] == '.' or b.endswith(':'):
            out.append(b)
        else:
            try:
                expand(b, macros, out)
            except Err:
                return out, True
    return out, False


def summary(o):
    return (o.kind, o.data, {k: o.asm.get_label_absolute_address_by_name(k) for k in o.asm.labels}) if o.kind == 'ok' else (o.kind, b'', {})


CACHE = {}


def ref(C, lines):
    k = tuple(lines)
    if k not in CACHE:
        if len(CACHE) > 100000:
            CACHE.clear()
        CACHE[k] = summary(impl.run(C, '\n'.join(lines)))
    return CACHE[k]


def flat(blocks):
    out = []
    for b in blocks:
        out += list(b) if isinstance(b, tuple) else [b]
    return out


def one(ctx, C, blocks, split=False):
    lines, failed = by_hand(blocks)
    want = ref(C, lines)
    if failed and want[0] != 'asm-error':
        want = ('asm-error', b'', {})
    f = flat(blocks)
    o = impl.run(C, f if split else '\n'.join(f))
    got = summary(o)
    ctx.trace()
    ctx.step(len(f))
    ctx.state(want)
    if want != got:
        ctx.fail(' | '.join(f) + (' (one call per line)' if split else ''), {'by hand': ' | '.join(lines) + (' | too few arguments' if failed else ''), 'outcome': want}, impl.brief(o) + ' ' + str(got[2]), f)


def three(ctx, first):
    C = impl.toy()
    for rest in itertools.product(DEFS + CALLS + MISC, repeat=2):
        one(ctx, C, (first,) + rest)
    ctx.sample({'first': first, 'depth': 3}, 1)


def four(ctx, d1, middle, tail):
    C = impl.toy()
    for m in middle:
        for t in tail:
            one(ctx, C, (d1,) + m + t)
            if len(t) == 2 and t[0] == t[1]:
                one(ctx, C, (d1,) + m + t, split=True)


def changing(ctx, d):
    """defines that change between calls, before, inside and after the definition"""
    C = impl.toy()
    steps = ['.define K 5', '.define K NOP', '.define p 7', '.define LDI ADD', '.define K a', '.org 40', 'a:']
    if d[0].startswith('.macro LDI'):
        # a define for the name of the macro hides it
        steps[3] = '.define NOP ADD'
    calls = {'M': ['M', 'M 3', 'M K'], 'N': ['N 1 2', 'N K a'], 'O': ['O K'], 'P': ['P LDI', 'P M'], 'Q': ['Q 4', 'Q K'], 'M2': ['m2 1 K'], 'R': ['R a'], 'NOP': ['nop'], 'E': ['E'], 'W': ['W 5', 'W K'], 'Z': ['Z'], 'S': ['S NOP', 'S K', 'S LDI'], 'T': ['T 1'], 'LDI': ['LDI 1', 'LDI K']}[d[0].split()[1].upper()]
    for c1, c2 in itertools.product(calls, repeat=2):
        for s1, s2, s3 in itertools.product(steps, repeat=3):
            one(ctx, C, (s1, d, c1, s2, c2, s3, c1))
            one(ctx, C, (d, s1, c1, s2, c1, s3, c2), split=True)


def chains(ctx):
    """defines whose values are names of other defines, in bodies and calls that use them"""
    C = impl.toy()
    defs = ['.define K J', '.define J 6', '.define J K', '.define K a', '.define a 5', '.define K NOP', '.define NOP E', '.define Z NOP', '.define LDI K', '.define K LDI']
    pool = [d for d in DEFS if d[0] in ('.macro Z', '.macro T p', '.macro W A', '.macro N p q', '.macro M', '.macro S p')]
    calls = {'Z': 'Z', 'T': 'T 1', 'W': 'W 5', 'N': 'N 1 2', 'M': 'M', 'S': 'S E'}
    for d in pool:
        call = calls[d[0].split()[1]]
        for s1, s2, s3 in itertools.product(defs, repeat=3):
            if '.define Z NOP' in (s1, s2, s3) and call == 'Z':
                continue
            core.arm()
            one(ctx, C, (d, s1, s2, call, s3, call, '.org 7', 'a:'))
            one(ctx, C, (s1, d, call, s2, call, s3, call), split=True)


def failed_call(ctx):
    """a failed call leaves the macro usable; what it emitted before failing is what the hand written lines emit"""
    C = impl.toy()
    for d in DEFS[1:8]:
        for e in DEFS[:8]:
            for bad in CALLS + ['M 300', 'N 300 1', 'N 1', 'O 300', 'P q', 'P 1', 'Q 255', 'm2 200 200', 'N 1 70000', 'O', 'R']:
                for good in ('M 3', 'N 1 2', 'O 7', 'P LDI', 'Q 4', 'm2 1 2', 'R 2'):
                    core.arm()
                    a, h = C(), C()
                    for src in flat((d, e)):
                        a.assemble(src)
                    macros = {}
                    for x in (d, e):
                        macros[x[0].split()[1].upper()] = (x[0].split()[2:], x[1:-1])
                    res = []
                    for call in (bad, good, good):
                        r = []
                        try:
                            a.assemble(call)
                            r.append('ok')
                        except impl.asm_error():
                            r.append('error')
                        lines = []
                        try:
                            try:
                                expand(call, macros, lines)
                                fail = False
                            except Err:
                                fail = True
                            for ln in lines:
                                h.assemble(ln)
                            r.append('error' if fail else 'ok')
                        except impl.asm_error():
                            r.append('error')
                        res.append((r[0], bytes(a.assembled_bytes), r[1], bytes(h.assembled_bytes)))
                    ctx.trace()
                    ctx.step(3)
                    ctx.state(res[-1])
                    if any(x[0] != x[2] or x[1] != x[3] for x in res):
                        ctx.fail(' | '.join(flat((d, e, bad, good, good))) + ' (one call per line)', [x[2:] for x in res], [x[:2] for x in res])


def malformed(ctx):
    C = impl.toy()
    cases = ['.endmacro', '.macro', '.macro M|.macro N|.endmacro|.endmacro', '.macro M|NOP|.macro M|.endmacro', '.macro M|x:|.endmacro', '.macro M|NOP|x:|NOP|.endmacro',
             '.macro M|NOP|.endmacro|.endmacro', '.macro M p|LDI p|.endmacro|M', '.macro M p q|LDI p|.endmacro|M 1', '.macro M|M|.endmacro|M', '.macro M|N|.endmacro|.macro N|M|.endmacro|N', '.macro M|NOP|M|.endmacro|M',
             '.macro M p|p p|.endmacro|M M', '.endmacro|.macro M|NOP|.endmacro', '.macro M|NOPE|.endmacro|M', '.macro M p|LDI p|.endmacro|M 256', '.macro M p|LDI p p|.endmacro|M 2']
    for c in cases:
        for pre in ([], ['NOP'], ['a:', '.define K 1']):
            src = '\n'.join(pre + c.split('|'))
            o = impl.run(C, src)
            ctx.trace()
            ctx.step()
            ctx.state((c, o.kind))
            if o.kind != 'asm-error':
                ctx.fail(c, 'a diagnostic', impl.brief(o), src)
    # what is refused while recording leaves the recording as it was
    for bad in ('x:', 'a b:', '.macro Z', '.macro', '.nope', '.org', '.db 300'):
        for good in itertools.product(('NOP', 'LDI p', 'ADD p 2'), repeat=2):
            core.arm()
            a = C()
            a.assemble('.macro M p\n' + good[0])
            try:
                a.assemble(bad)
                ctx.fail('%s in a body' % bad, 'a diagnostic', 'accepted')
            except impl.asm_error():
                pass
            res = None
            try:
                a.assemble(good[1] + '\n.endmacro')
                res = bytes(a.assembled_bytes)
                a.assemble('M 7')
                res = (res, bytes(a.assembled_bytes))
            except impl.asm_error() as e:
                res = str(e)
            want = impl.run(C, '\n'.join(good).replace('p', '7')).data
            ctx.trace()
            ctx.step(4)
            ctx.state((bad, good))
            ctx.expect('%s refused between %s and %s of a body' % (bad, *good), (b'', want), res)
    # recording emits nothing and moves nothing, whatever the body
    for d in DEFS + [('.macro Z p', 'NOPE 1 2 3', 'LDI 99999', 'a b c', '.endmacro')]:
        for pre in ('', '.org 8\nNOP\n'):
            core.arm()
            a = C()
            a.assemble(pre)
            before = (bytes(a.assembled_bytes), a.pc, dict(a.labels))
            a.assemble('\n'.join(d))
            ctx.trace()
            ctx.expect('recording ' + ' | '.join(d), before, (bytes(a.assembled_bytes), a.pc, dict(a.labels)))


def many(ctx):
    C = impl.toy()
    for n in (1, 2, 10, 100, 400):
        one(ctx, C, (DEFS[1], DEFS[2], DEFS[3], 'a:') + ('O 7', 'M a', 'N 1 a', 'O a') * n)
        body = tuple('LDI p%d' % (i % 20) for i in range(n))
        one(ctx, C, (('.macro BIG ' + ' '.join('p%d' % i for i in range(20)),) + body + ('.endmacro',), 'BIG ' + ' '.join(str(i) for i in range(20)), 'BIG ' + ' '.join(str(40 - i) for i in range(20))))
    # long bodies, many macros, long names, many and long arguments
    for n in (50, 257, 600):
        names = ['p%d' % i for i in range(n)]
        body = tuple('%s %s' % (('LDI', 'JP')[i % 2], names[n - 1 - i]) for i in range(n))
        for args in ([str(i % 256) for i in range(n)], ['a+%d' % (i % 100) for i in range(n)], [names[(i + 1) % n] for i in range(n)]):
            one(ctx, C, (('.macro BIG ' + ' '.join(names),) + body + ('.endmacro',), 'a:', 'BIG ' + ' '.join(args), 'BIG ' + ' '.join(args[::-1])))
        one(ctx, C, tuple(('.macro m%d x' % i, 'LDI x+%d' % (i % 200), '.endmacro') for i in range(n)) + tuple('M%d %d' % (n - 1 - i, i % 50) for i in range(n)))
        long = 'q' * n
        one(ctx, C, (('.macro %s %sx %s' % (long, long, long + 'xx'), 'ADD %sx %sxx' % (long, long), 'LDI %sx-1' % long, '.endmacro'), '%s 1 2' % long.upper(), '%s %d %d' % (long, 3, 4), 'L' + long + ':', '%s L%s 0' % (long, long)))
    for depth in (15, 20):
        bl = [('.macro D0 p', 'LDI p', '.endmacro')] + [('.macro D%d p q' % i, 'D%d q p' % (i - 1) if i > 1 else 'D0 q', '.endmacro') for i in range(1, depth)]
        one(ctx, C, tuple(bl) + ('D%d 5 6' % (depth - 1), 'D%d a 1' % (depth - 2), 'a:'))
    for depth in range(1, 12):
        bl = [('.macro D0 p', 'LDI p', '.endmacro')] + [('.macro D%d p' % i, 'D%d p' % (i - 1), 'LDI p+%d' % i, '.endmacro') for i in range(1, depth)]
        one(ctx, C, tuple(bl) + ('D%d 5' % (depth - 1), 'D%d a' % (depth - 1), 'a:'))


def shards(tier):
    out = [('malformed', malformed, ()), ('many', many, ()), ('failed', failed_call, ()), ('chains', chains, ())]
    for i, d in enumerate(DEFS):
        out.append(('three def %d' % i, three, (d,)))
        out.append(('changing %d' % i, changing, (d,)))
        out.append(('four %d' % i, four, (d, [(x,) for x in DEFS], list(itertools.product(CALLS, CALLS)) if tier == 'quick' else list(itertools.product(CALLS + MISC, CALLS + MISC)))))
        if tier == 'thorough':
            for j, e in enumerate(DEFS):
                out.append(('five %d %d' % (i, j), four, (d, [(e, x) for x in DEFS], list(itertools.product(CALLS, CALLS)))))
    for c in CALLS + MISC:
        out.append(('three ' + c, three, (c,)))
    out += wrapped.shards(wrapped.macros, tier == 'thorough')
    return out


if __name__ == '__main__':
    core.main('C07', shards, rule='all programs of 3 blocks over 15 macro definitions, 28 calls and 8 other statements, all (def, def, call, call) programs (thorough: (def, def, def, call, call)), failing calls followed by good ones, malformed recordings, call depth up to 11 and 400 calls; every instruction form of every processor as a macro body whose parameters are its words, called repeatedly with different values',
              assumptions=['arguments beyond the declared parameters are not specified', 'directives inside a body take effect while recording and are not part of the body'])
