"""The numbers of an instruction in every spelling its processor offers: the notation never changes the encoding."""
from mc import core, forms, impl


def oct_(v):
    return format(v, 'o')


def spellings(cls, v):
    """(text, may it be refused as an operand) of a number"""
    h, b, o = format(v, 'x'), format(v, 'b'), oct_(v)
    out = []
    for p in cls.hex_prefixes:
        out += [(p + h, 0), (p + h.upper(), 0), (p + "000" + h, 0)]
    for p in cls.bin_prefixes:
        out += [(p + b, 0), (p + '00' + b, 0)]
    for p in cls.oct_prefixes:
        out += [(p + o, 0), (p + '0' + o, 0)]
    for p in cls.dec_prefixes:
        out += [(p + str(v), 0)]
    for s in cls.hex_suffixes:
        out += [('0' + h + s, 0), ('00' + h.upper() + s, 0)]
    if v:       # a zero with a suffix may read as a prefix alone
        out += [(b + s, 0) for s in cls.bin_suffixes] + [(o + s, 0) for s in cls.oct_suffixes] + [(str(v) + s, 0) for s in cls.dec_suffixes]
    out += [('00' + str(v), 0), ('0' * 20 + str(v), 0)]
    out += [('%d+1' % (v - 1), 1)] if v else []
    out += [('%d-3' % (v + 3), 1), ('2*%d' % (v // 2), 1) if v % 2 == 0 else ('3&%d' % v, 1) if v < 4 else ('0|%d' % v, 1)]
    if 33 <= v < 127 and chr(v) not in '\'"\\;,()[]{}':
        out += [("'%s'" % chr(v), 1)]
    return out


def shard(ctx, name, fs, mode):
    cls = impl.load(name)
    fd = forms.Feeder(name)
    for form in fs:
        for i, x in enumerate(form.fields):
            if not all(y.num for y in form.fields):
                continue
            vals = [y.few()[-1] for y in form.fields]
            vs = [v for v in x.few() + [65, 0x5A, 0xA5, 0xABCD, 0xDEADBEEF] if v >= 0 and x.good(v)]
            for v in dict.fromkeys(vs):
                vals[i] = v
                if not form.accepts(vals):
                    continue
                parts = list(vals)
                for t, refusable in spellings(cls, v):
                    parts[i] = t
                    s = form.text.format(*parts)
                    want = form.encode(vals, pc=fd.a.pc)
                    pc = fd.a.pc
                    got = fd.feed(s)
                    if form.wants_pc and fd.n == 0:
                        want = form.encode(vals, pc=0)
                    ctx.trace()
                    ctx.step()
                    ctx.state((form.text, i, t))
                    if got != want and not (refusable and got == 'refused'):
                        ctx.fail('%s: %s' % (name, s), want, got, s, site=form.site(vals, got))


def wide(ctx, name, fs, part, parts):
    """wide fields: every pair of low bytes with a special one among them (all pairs in the thorough tier)"""
    edge = (0, 1, 0x7F, 0x80, 0xFE, 0xFF)
    vs = [v for v in range(-0x8004, 0x10004) if ctx.thorough or v & 0xFF in edge or v >> 8 & 0xFF in edge or (v >> 8 ^ v) & 0xFF == 0]
    vs = vs[part::parts]
    fd = forms.Feeder(name)
    for form in fs:
        for i, x in enumerate(form.fields):
            if x.bits < 9 or not x.num:
                continue
            vals = [y.few()[-1] for y in form.fields]
            for v in vs:
                if v in x.skip:
                    continue
                vals[i] = v
                want = form.encode(vals, pc=fd.a.pc) if form.accepts(vals) else 'refused'
                s = form.text.format(*vals)
                got = fd.feed(s)
                if form.wants_pc and fd.n == 0:
                    want = form.encode(vals, pc=0) if form.accepts(vals) else 'refused'
                if got != want:
                    ctx.fail('%s: %s' % (name, s), want, got, s, site=form.site(vals, got))
            ctx.trace(len(vs))
            ctx.step(len(vs))
            ctx.state((form.text, i, part))


def shards(name, fs, k=4, parts=2, mode=None):
    fs = [f for f in fs if f.fields]
    rep = {}
    for f in fs:
        for i, x in enumerate(f.fields):
            rep.setdefault((f.text.split()[0].lower(), i, x.bits, x.signed, x.label, x.mult), f)
    rs = list(dict.fromkeys(rep.values()))
    out = [('spellings %s %d' % (name, i), shard, (name, rs[i::k], mode)) for i in range(k)]
    big = {}
    for f in fs:
        for i, x in enumerate(f.fields):
            if x.bits > 8 and x.num:
                p = f.text.index('{%d}' % i)
                big.setdefault((x.bits, x.signed, x.label, x.mult, f.text[max(p - 1, 0):p], f.text[p + 3:p + 6].strip('ABCDEXYabcdexy01234567')), f)
    bs = list(dict.fromkeys(big.values()))
    if bs:
        out += [('wide %s %d' % (name, p), wide, (name, bs, p, parts)) for p in range(parts)]
    return out
