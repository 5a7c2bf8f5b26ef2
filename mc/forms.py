"""Instruction forms: a source template with numeric fields and an independent reference encoding.

Used by the per-processor checks (C20-C28), the branch check (C30), the label check (C31) and the case/layout check (C02).
"""
import itertools
import re
from mc import core, impl


class F:
    """one numeric field: what a decimal number written there may be, and what a label there may be

    bits/signed: width of the field; mult: required multiple; label: None, 'abs' or 'rel';
    base: for 'rel', value = target - (address of the instruction + base); lo/hi/ok narrow the accepted numbers.
    """

    def __init__(self, bits, signed=False, mult=1, label=None, base=0, lo=None, hi=None, ok=None, values=None, llo=None, lhi=None, num=True, skip=()):
        self.bits, self.signed, self.mult, self.label, self.base = bits, signed, mult, label, base
        self.lo = lo if lo is not None else -(1 << (bits - 1))
        self.hi = hi if hi is not None else (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1
        self.ok = ok
        self.extra = values
        # what a label may be
        rel = label == 'rel'
        self.llo = llo if llo is not None else -(1 << (bits - 1)) if rel or signed else 0
        self.lhi = lhi if lhi is not None else (1 << (bits - 1)) - 1 if rel or signed else (1 << bits) - 1
        if label == 'abs' and llo is None:
            self.llo = 0
        self.num = num
        self.skip = set(skip)     # numbers with more than one right answer

    def good(self, v):
        return self.lo <= v <= self.hi and v % self.mult == 0 and (self.ok is None or self.ok(v))

    def good_label(self, v):
        return self.llo <= v <= self.lhi and v % self.mult == 0

    def values(self):
        m = self.mult
        b = self.bits
        vs = {0, m, 2 * m, 3 * m, self.lo, self.lo - 1, self.lo - m, self.lo + m, self.hi, self.hi + 1, self.hi - 1, self.hi // m * m, (self.hi // m + 1) * m, -m, -1, 1, 2, 5,
              1 << b, (1 << b) + 1, (1 << b) - 1, (1 << (b - 1)), (1 << (b - 1)) - 1, -(1 << (b - 1)) - 1, -(1 << b), 1 << (b + 8), (1 << (b + 1)) + 3, (1 << 64) + 1}
        for k in range(b + 1):
            vs |= {1 << k, (1 << k) * m}
        vs |= {v & ~(m - 1) if m & (m - 1) == 0 else v for v in (0x5A & ((1 << b) - 1), 0xA5 & ((1 << b) - 1), 0x1234 & ((1 << b) - 1), 0xFEDCBA98 & ((1 << b) - 1), 0x12345678 & ((1 << b) - 1))}
        if b <= 8:
            vs |= set(range(-(1 << b) - 2, (1 << b) + 3))
        if self.extra:
            vs |= set(self.extra)
        return sorted(vs - self.skip)

    def limits(self):
        c = {self.lo - 1, self.lo, self.hi, self.hi + 1, 1, self.lo - self.mult, self.hi // self.mult * self.mult + self.mult, 0x5A % (self.hi + 1) // self.mult * self.mult}
        return sorted(c - self.skip)

    def few(self):
        """some accepted values"""
        c = [v for v in (0, self.mult, self.hi // self.mult * self.mult, self.lo + (-self.lo % self.mult), 5 * self.mult, -self.mult) if self.good(v)]
        return list(dict.fromkeys(c))[:4] or [v for v in self.values() if self.good(v)][:2]


class Form:
    """text with {0} {1}.. for the fields; enc(values..) -> bytes

    enc may take keyword known (False when a field is a label that is not defined yet) when wants_known is set,
    and pc when wants_pc is set.
    """
    __slots__ = ('text', 'fields', 'enc', 'wants_known', 'wants_pc', 'tag', 'check', 'known', 'light')

    def __init__(self, text, fields=(), enc=None, wants_known=False, wants_pc=False, tag=None, check=None, known=None, light=False):
        self.text = text
        self.fields = tuple(fields)
        self.enc = enc
        self.wants_known, self.wants_pc = wants_known, wants_pc
        self.tag = tag
        self.light = light       # only the limits of each field
        self.known = known       # (site, what the known defect there gives for the values)
        self.check = check       # check(values) -> bool, extra acceptance rule over all fields

    def encode(self, vals, pc=0, known=True):
        kw = {}
        if self.wants_known:
            kw['known'] = known
        if self.wants_pc:
            kw['pc'] = pc
        return self.enc(*vals, **kw)

    def site(self, vals, got):
        """the known defect that gives this result, if any"""
        if self.known is not None and self.known[1](*vals) == got:
            return self.known[0]

    def accepts(self, vals):
        return all(f.good(v) for f, v in zip(self.fields, vals)) and (self.check is None or self.check(vals))

    def combos(self, deep=False):
        """value tuples: every value of each field with the accepted few of the others; all pairs when deep"""
        fs = self.fields
        if not fs:
            yield ()
            return
        seen = set()
        few = [f.few() for f in fs]
        vals = [f.limits() for f in fs] if self.light and not deep else [f.values() for f in fs]
        for i in range(len(fs)):
            parts = [vals[j] if j == i or (deep and len(fs) <= 2) else few[j] for j in range(len(fs))]
            for c in itertools.product(*parts):
                if c not in seen:
                    seen.add(c)
                    yield c


def const(*b):
    data = bytes(b)
    return lambda *a, **k: data


def le(v, n):
    return (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')


def be(v, n):
    return (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'big')


class Feeder:
    """assembles single statements on a growing object and reports the bytes each one adds"""

    def __init__(self, name, limit=2000):
        self.cls = impl.load(name)
        self.AE = impl.asm_error()
        self.limit = limit
        self.n = 0
        self.a = self.cls()

    def feed(self, s):
        self.n += 1
        if self.n % 256 == 0:
            core.arm()
        if self.n > self.limit:
            self.n = 0
            self.a = self.cls()
        a = self.a
        before = len(a.assembled_bytes)
        try:
            a.assemble(s)
        except self.AE:
            return 'refused'
        except Exception as e:  # noqa
            self.a = self.cls()
            return 'raw error %r' % e
        return bytes(a.assembled_bytes[before:])


def at_link(cls, s):
    """what the statement alone gives after linking (a stray word reads as an unknown label)"""
    o = impl.run(cls, s)
    return o.data if o.kind == 'ok' else 'refused' if o.kind in ('asm-error', 'link-error') else impl.brief(o)


def numeric(ctx, name, forms, variants=None):
    """every form with every combination of boundary numbers"""
    f = Feeder(name)
    for form in forms:
        for vals in form.combos(ctx.thorough):
            if not all(x.num for x in form.fields):
                break
            want = form.encode(vals, pc=f.a.pc) if form.accepts(vals) else 'refused'
            s = form.text.format(*vals)
            pc = f.a.pc
            got = f.feed(s)
            if form.wants_pc and f.n == 0:
                want = form.encode(vals, pc=0) if form.accepts(vals) else 'refused'
            ctx.trace()
            ctx.step()
            ctx.state(want if want != 'refused' else (form.text, 'refused'))
            if got != want:
                ctx.fail('%s: %s' % (name, s) + (' at %d' % pc if form.wants_pc else ''), want, got, s, site=form.site(vals, got))
    if forms:
        ctx.sample({'form': forms[0].text, 'values': len(list(forms[0].combos())), 'forms in shard': len(forms)}, 1)


def closed(ctx, name, cases):
    """cases: iterable of (text, expected bytes or None)"""
    f = Feeder(name)
    for s, want in cases:
        got = f.feed(s)
        want = 'refused' if want is None else want
        if want == 'refused' and isinstance(got, bytes):
            got = at_link(f.cls, s)
        ctx.trace()
        ctx.step()
        ctx.state((s, want) if want == 'refused' else want)
        if got != want:
            ctx.fail('%s: %s' % (name, s), want, got, s)


def shard_forms(name, forms, k, fn=numeric):
    out = []
    n = max(1, (len(forms) + k - 1) // k)
    for i in range(0, len(forms), n):
        out.append(('forms %s %d' % (name, i), fn, (name, forms[i:i + n])))
    return out


class Table:
    """what the processor has: lookup of a statement skeleton ('LD A,({})') with its numbers

    optional forms are spellings an assembler may offer besides the documented ones: refusing them or giving the
    encoding are both fine.
    """

    def __init__(self, forms, optional=()):
        self.d = {}
        self.opt = {}
        for d, fs in ((self.d, forms), (self.opt, optional)):
            for f in fs:
                d.setdefault(self.skeleton(f.text), []).append(f)

    @staticmethod
    def skeleton(text):
        out = text
        for i in range(6):
            out = out.replace('{%d}' % i, '{}')
        return Table.bare(out)

    @staticmethod
    def bare(text):
        """commas next to brackets only separate"""
        return re.sub(r'[ ,]*([()\[\]])[ ,]*', r'\1', text)

    def lookup(self, text, vals):
        """(list of acceptable encodings, may it be refused)"""
        text = self.bare(text)
        want = [f.encode(vals) for f in self.d.get(text, ()) if f.accepts(vals)]
        opt = [f.encode(vals) for f in self.opt.get(text, ()) if f.accepts(vals)]
        return want or opt, not want

    def check(self, ctx, name, statements):
        """statements: iterable of (skeleton, values)"""
        fd = Feeder(name)
        for text, vals in statements:
            want, refusable = self.lookup(text, vals)
            s = text.format(*vals)
            got = fd.feed(s)
            if isinstance(got, bytes) and got not in want and refusable:
                got = at_link(fd.cls, s)
            ctx.trace()
            ctx.step()
            ctx.state((s, 'refused') if not want else want[0])
            if got in want or refusable and got == 'refused':
                continue
            sites = [f.site(vals, got) for f in self.d.get(self.bare(text), ())]
            ctx.fail('%s: %s' % (name, s), want[0] if want else 'refused', got, s, site=next((x for x in sites if x), None))


def operands_product(mnemonics, alphabet, n):
    """mnemonic with every tuple of n operands; alphabet entries are (skeleton, values)"""
    for m in mnemonics:
        for ops in itertools.product(alphabet, repeat=n):
            yield m + (' ' if n else '') + ','.join(o[0] for o in ops), tuple(v for o in ops for v in o[1])
