"""C16: user-defined processors - pattern helpers, declared names, constants, link passes, tables of subclasses."""
import itertools
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, impl

# ---- pattern helpers ---------------------------------------------------------------------------
TOKENS = ('a', 'A', 'b', 'ab', '12', '(', "'a'", '#')


def digits(t):
    return t.isdigit()


def first_a(t):
    return t[:1] in ('a', 'A') and [t] or ''


def exactly_a(t):
    return t == 'a'


PATTERNS = {'any': None, 'exactly a': exactly_a, 'a': 'a', 'A': 'A', 'aB': 'aB', '(': '(', 'a|B': ('a', 'B'), '[ab]': ['AB'], 'none': (), 'digits': digits, 'first a': first_a,
            'set': frozenset(('A', '#')), 'quoted': "'A'", '12': '12'}


def one(pattern, token):
    if pattern is None:
        return True
    if isinstance(pattern, str):
        return token.lower() == pattern.lower()
    if callable(pattern):
        return bool(pattern(token))
    return token.lower() in [p.lower() for p in pattern]


def outcome(fn, *args, **kw):
    try:
        return fn(*args, **kw)
    except Exception as e:  # noqa
        return 'raised %s' % type(e).__name__


def helpers(ctx, names_list, depth):
    from necroassembler.statements import Instruction
    from necroassembler import utils
    for names in names_list:
        pats = [PATTERNS[n] for n in names]
        ctx.state(names)
        calls = []
        for n in range(0, depth + 2):
            if n > len(pats) + 1 or n < len(pats) - 1:
                continue
            for toks in itertools.product(TOKENS if n <= 3 else TOKENS[:4], repeat=n):
                ok = [one(p, t) for p, t in zip(pats, toks)]
                full = len(toks) == len(pats) and all(ok)
                prefix = len(toks) >= len(pats) and all(ok)
                got = bool(outcome(utils.match, list(toks), *pats))
                if got != full:
                    ctx.fail('utils.match(%r, %s)' % (list(toks), names), full, got)
                for start in (1, 0, 2):
                    tokens = ['op', 'op2'][:start] + list(toks)
                    instr = Instruction(list(tokens), 1, None)
                    kw = {} if start == 1 else {'start': start}
                    got = outcome(instr.match, *pats, **kw)
                    if bool(got) != full or isinstance(got, str):
                        ctx.fail('%r.match(%s, start=%d)' % (tokens, names, start), full, got)
                    got = outcome(instr.unbound_match, *pats, **kw)
                    want = (True, start + len(pats)) if prefix else (False, None)
                    if got != want:
                        ctx.fail('%r.unbound_match(%s, start=%d)' % (tokens, names, start), want, got)
                    if instr.tokens != tokens:
                        ctx.fail('%r.match changes the tokens' % tokens, tokens, instr.tokens)
                    ctx.step(2)
                ctx.trace()
    ctx.sample({'patterns': names_list[0]})


def applying(ctx):
    from necroassembler.statements import Instruction
    fns = {'none': None, 'upper': str.upper, 'len': len, 'zero': lambda t: 0, 'nothing': lambda t: None}
    for n in range(0, 4):
        for names in itertools.product(fns, repeat=n):
            for extra in (0, 1):
                for toks in itertools.product(('a', 'bc', "'x'"), repeat=n + extra):
                    for start in (1, 0, 2):
                        tokens = ['op', 'op2'][:start] + list(toks)
                        want = [fns[f](t) for f, t in zip(names, toks) if fns[f] is not None]
                        kw = {} if start == 1 else {'start': start}
                        got = outcome(Instruction(list(tokens), 1, None).apply, *[fns[f] for f in names], **kw)
                        ctx.expect('%r.apply(%s, start=%d)' % (tokens, names, start), want, got)
                        ctx.step()
                    ctx.trace()
            ctx.state(('apply', names))


# ---- declared names ------------------------------------------------------------------------------
NAMES = ('FOO', 'Bar', 'ba.z', 'q_1', 'x')


def cases(name):
    return sorted({name, name.upper(), name.lower(), name.capitalize(), name.swapcase()})


def build(kind, how, groups, sensitive, log):
    """a class declaring the groups of names, by decorator or registration"""
    from necroassembler import Assembler, opcode, directive
    deco = {'opcode': opcode, 'directive': directive}[kind]

    def handler(i):
        def h(self, instr):
            log.append((i, list(instr.tokens), instr.line, instr.context, self))
            blob = bytes((0x80 + i, len(instr.tokens)))
            if kind == 'opcode':
                return blob
            self.append_assembled_bytes(blob)
        return h
    attrs = {'case_sensitive': sensitive}
    if how == 'decorator':
        for i, g in enumerate(groups):
            attrs['_h%d' % i] = deco(*g)(handler(i))
    else:
        hs = [handler(i) for i in range(len(groups))]

        def register(self):
            for i, g in enumerate(groups):
                for name in g:
                    f = (lambda h: lambda instr: h(self, instr))(hs[i])
                    (self.register_instruction if kind == 'opcode' else self.register_directive)(name, f)
        attrs['register_instructions' if kind == 'opcode' else 'register_directives'] = register
    return type('AssemblerUser', (Assembler,), attrs)


def declared(ctx, kind, how, sensitive):
    pool = NAMES[:4]
    groupings = []
    for r in range(1, 4):
        for names in itertools.permutations(pool, r):
            groupings.append([names])
            for cut in range(1, r):
                groupings.append([names[:cut], names[cut:]])
    dot = '.' if kind == 'directive' else ''
    for groups in groupings:
        log = []
        cls = build(kind, how, groups, sensitive, log)
        declared_names = {}
        for i, g in enumerate(groups):
            for n in g:
                declared_names[n if sensitive else n.upper()] = i
        for name in NAMES:
            for spelled in cases(name):
                for args in ([], ['1'], ['a', "'b c'", '(']):
                    key = spelled if sensitive else spelled.upper()
                    want = declared_names.get(key)
                    del log[:]
                    a = cls()
                    src = '\n%s%s %s\n' % (dot, spelled, ' '.join(args))
                    try:
                        a.assemble(src, 'ctx')
                        got = bytes(a.assembled_bytes)
                    except impl.asm_error():
                        got = 'refused'
                    except Exception as e:  # noqa
                        got = repr(e)
                    sig = '%s %s %s%s: %r' % (kind, how, groups, ' case sensitive' if sensitive else '', src)
                    ctx.expect(sig, 'refused' if want is None else bytes((0x80 + want, 1 + len(args))), got)
                    ctx.expect(sig + ' calls', [] if want is None else [(want, [dot + spelled] + args, 2, 'ctx', True)], [x[:4] + (x[4] is a,) for x in log])
                    ctx.trace()
                    ctx.step()
        # all of them in one program, each twice, in both orders, through a macro and an include
        names = [n for g in groups for n in g]
        for order in (names, names[::-1]):
            for style in ('plain', 'macro'):
                lines = ['%s%s %d' % (dot, n, j) for j, n in enumerate(order)]
                src = '\n'.join(lines + lines)
                if style == 'macro':
                    if kind == 'directive':
                        continue      # directives in macro bodies run at once
                    src = '.macro M\n' + '\n'.join(lines) + '\n.endmacro\nM\nM'
                del log[:]
                a = cls()
                a.assemble(src)
                ids = [i for n in order for i, g in enumerate(groups) if n in g] * 2
                ctx.expect('%s %s %s %s %r' % (kind, how, groups, sensitive, src), ids, [x[0] for x in log])
                ctx.expect('%s %s %s %s %r' % (kind, how, groups, sensitive, src) + ' image', b''.join(bytes((0x80 + i, 2)) for i in ids), bytes(a.assembled_bytes))
                ctx.trace()
        ctx.state((kind, how, tuple(groups), sensitive))
        ctx.sample({'kind': kind, 'groups': groups})


def constants(ctx):
    """fixed encodings take no operands; handlers that give nothing are refused"""
    from necroassembler import Assembler, opcode
    blobs = [b'', b'\1', b'\1\2\3', bytearray(b'\5\6')]

    for sensitive in (False, True):
        for blob in blobs:
            for name in NAMES:
                cls = type('AssemblerConst', (Assembler,), {'case_sensitive': sensitive, 'register_instructions': lambda self: self.register_instruction(name, blob)})
                for spelled in cases(name):
                    for args in ([], ['1'], ['a', 'b'], ["''"], ['"x"']):
                        a = cls()
                        known = spelled == name or not sensitive
                        # empty quotes are no token at all
                        real = [x for x in args if x not in ("''",)]
                        for times in (1, 2):
                            try:
                                a.assemble('%s %s' % (spelled, ' '.join(args)))
                                got = bytes(a.assembled_bytes)
                            except impl.asm_error():
                                got = 'refused'
                            want = bytes(blob) * times if known and not real else 'refused'
                            ctx.expect('constant %r as %s: %s %s, time %d' % (blob, name, spelled, args, times), want, got)
                            ctx.expect('pc', 0 if want == 'refused' else len(want), a.pc)
                            ctx.trace()
                ctx.state((sensitive, bytes(blob), name))

    class Odd(Assembler):
        @opcode('none')
        def _none(self, instr):
            return None

        @opcode('empty')
        def _empty(self, instr):
            return b''

        @opcode('raises')
        def _raises(self, instr):
            raise ValueError('x')
    for src, want in (('none', 'refused'), ('empty', b''), ('raises', 'refused'), ('empty\nempty', b''), ('empty\nnone', 'refused')):
        o = impl.run(Odd, src, link=False)
        ctx.expect(src, want, o.data if o.kind == 'ok' else 'refused' if o.kind == 'asm-error' else impl.brief(o))
        ctx.trace()
        ctx.state(src)


def overriding(ctx):
    """a custom directive takes the place of a built-in one; one method can be both"""
    from necroassembler import Assembler, opcode, directive
    builtins = sorted(Assembler().directives)
    ctx.expect('built-ins', True, len(builtins) > 20)
    for how in ('decorator', 'register'):
        for name in builtins:
            for spelled in (name, name.lower(), name.capitalize()):
                log = []

                def h(self, instr):
                    log.append(list(instr.tokens))
                if how == 'decorator':
                    cls = type('AssemblerOver', (Assembler,), {'_x': directive(spelled)(h)})
                else:
                    cls = type('AssemblerOver', (Assembler,), {'register_directives': lambda self: self.register_directive(spelled, lambda i: h(self, i))})
                a = cls()
                o = outcome(a.assemble, '.%s 5 6' % name)
                ctx.expect('%s overridden by %s %s' % (name, how, spelled), (None, [['.' + name, '5', '6']], b''), (o, log, bytes(a.assembled_bytes)))
                others = {n for n in Assembler().directives} ^ set(a.directives)
                ctx.expect('%s overridden by %s %s: other names' % (name, how, spelled), set(), others)
                ctx.trace()
                ctx.state((how, name, spelled))
                # and stays as it was elsewhere
                b = Assembler()
                ctx.expect('%s elsewhere' % name, True, getattr(b.directives[name], '__self__', None) is b)

    class Both(Assembler):
        @opcode('both', 'two')
        @directive('both', 'three')
        def _both(self, instr):
            if instr.tokens[0][0] == '.':
                self.append_assembled_bytes(b'\2')
            return b'\1'
    for src, want in (('both', b'\1'), ('two', b'\1'), ('.both', b'\2'), ('.three', b'\2'), ('three', 'refused'), ('.two', 'refused'), ('both\n.both\nTWO\n.THREE', b'\1\2\1\2')):
        o = impl.run(Both, src, link=False)
        ctx.expect(src, want, o.data if o.kind == 'ok' else 'refused')
        ctx.trace()


# ---- tables of subclasses --------------------------------------------------------------------------
def tables(ctx):
    """every tree of up to four classes, each declaring its own names in every way; every creation order"""
    from necroassembler import Assembler, opcode, directive

    def make(i, base, way):
        attrs = {'defines': dict(base.defines, **{'D%d' % i: str(i)}), 'hex_prefixes': list(base.hex_prefixes) + ['%d$' % i]}
        if way == 'decorator':
            attrs['_op%d' % i] = opcode('op%d' % i)(lambda self, instr: bytes((0x90 + i,)))
            attrs['_dir%d' % i] = directive('dir%d' % i)(lambda self, instr: self.append_assembled_bytes(bytes((0xA0 + i,))))
        else:
            def ri(self):
                base.register_instructions(self)
                self.register_instruction('op%d' % i, bytes((0x90 + i,)))

            def rd(self):
                base.register_directives(self)
                self.register_directive('dir%d' % i, lambda instr: self.append_assembled_bytes(bytes((0xA0 + i,))))

            def rf(self):
                base.register_defines(self)
                self.register_define('R%d' % i, str(i + 10))
            attrs.update(register_instructions=ri, register_directives=rd, register_defines=rf)
        return type('Assembler%d' % i, (base,), attrs)

    for parents in itertools.product((-1,), (-1, 0), (-1, 0, 1), (-1, 0, 1, 2)):
        for ways in itertools.product(('decorator', 'register'), repeat=4):
            classes, owns = [], []
            for i, p in enumerate(parents):
                base = Assembler if p < 0 else classes[p]
                classes.append(make(i, base, ways[i]))
                owns.append((owns[p] if p >= 0 else set()) | {i})
            for order in ((0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1)):
                objs = {}
                for i in order:
                    objs[i] = classes[i]()
                    # registering on an object concerns only that object
                    objs[i].register_instruction('own%d' % i, bytes((0xB0 + i,)))
                    objs[i].register_directive('owndir%d' % i, lambda instr: None)
                    objs[i].register_define('OWN%d' % i, '1')
                    objs[i].pre_link_passes.append(lambda a: None)
                for i, a in objs.items():
                    sig = 'parents %s ways %s order %s class %d: ' % (parents, ways, order, i)
                    ctx.expect(sig + 'instructions', {'OP%d' % j for j in owns[i]} | {'OWN%d' % i}, set(a.instructions))
                    ctx.expect(sig + 'directives', {'DIR%d' % j for j in owns[i]} | {'OWNDIR%d' % i}, set(a.directives) - set(Assembler().directives))
                    regs = {'R%d' % j for j in owns[i] if ways[j] == 'register'}
                    ctx.expect(sig + 'defines', {'D%d' % j for j in owns[i]} | regs | {'OWN%d' % i}, set(a.defines))
                    ctx.expect(sig + 'prefixes', tuple('%d$' % j for j in sorted(owns[i])), tuple(a.hex_prefixes))
                    ctx.expect(sig + 'passes', 1, len(a.pre_link_passes))
                    for j in range(4):
                        for src, want in (('op%d' % j, 0x90 + j), ('.dir%d' % j, 0xA0 + j)):
                            size = len(a.assembled_bytes)
                            try:
                                a.assemble(src)
                                got = bytes(a.assembled_bytes[size:])
                            except impl.asm_error():
                                got = 'refused'
                            ctx.expect(sig + src, bytes((want,)) if j in owns[i] else 'refused', got)
                    ctx.step(8)
                ctx.trace()
            ctx.state((parents, ways))
            # class attributes are untouched
            for i, c in enumerate(classes):
                ctx.expect('class defines', {'D%d' % j for j in owns[i]}, set(c.defines))
            ctx.expect('base class', ({}, (), ()), (Assembler.defines, tuple(Assembler.hex_prefixes), tuple(Assembler.dec_prefixes)))


# ---- link passes -----------------------------------------------------------------------------------
def passes(ctx):
    """every number of decorated, inherited and added passes; links once and twice; a pass that fails"""
    from necroassembler import Assembler, pre_link, post_link
    src = '.db 1 2\n.dw late\n.dw here\nhere:'

    for pre, post, inherit, added, where in itertools.product(range(3), range(3), (False, True), ('none', 'function', 'method', 'own', 'partial', 'assembler'), ('object', 'class')):
        log = []

        def method(tag):
            def f(self):
                log.append((tag, type(self).__name__, bytes(self.assembled_bytes)))
            f.__name__ = tag
            return f
        one_, two = {}, {}
        for i in range(pre):
            (one_ if inherit and i == 0 else two)['p%d' % i] = pre_link(method('pre%d' % i))
        for i in range(post):
            (one_ if inherit and i == 0 else two)['q%d' % i] = post_link(method('post%d' % i))
        cls = type('Child', (type('Parent', (Assembler,), one_),), two)
        a = cls()

        class Other:
            def run_pre(self, asm):
                log.append(('other pre', type(asm).__name__, bytes(asm.assembled_bytes)))

            def run_post(self, asm):
                log.append(('other post', type(asm).__name__, bytes(asm.assembled_bytes)))
        extra = []
        if added == 'function':
            a.pre_link_passes.append(lambda asm: Other().run_pre(asm))
            a.post_link_passes += [lambda asm: Other().run_post(asm)]
        elif added == 'method':
            other = Other()
            a.pre_link_passes.append(other.run_pre)
            a.post_link_passes.append(other.run_post)
        elif added == 'assembler':
            # a method of another assembler object, of the same or of another class
            other = type('Third', (Assembler if where == 'object' else cls,), {'run_pre': Other.run_pre, 'run_post': Other.run_post})()
            a.pre_link_passes.append(other.run_pre)
            a.post_link_passes.append(other.run_post)
        elif added == 'own':
            cls.extra_pre = lambda self: Other().run_pre(self)
            cls.extra_post = lambda self: Other().run_post(self)
            a.pre_link_passes.append(a.extra_pre)
            a.post_link_passes.append(a.extra_post)
        elif added == 'partial':
            import functools
            a.pre_link_passes.append(functools.partial(Other.run_pre, None))
            a.post_link_passes.append(functools.partial(Other.run_post, None))
        a.assemble(src)
        a.labels['late'] = {'base': 0x1234, 'org': 0, 'section': None}
        before = bytes(a.assembled_bytes)
        ctx.expect('no pass runs before the link', [], log)
        after = b'\1\2\x34\x12\x06\0'
        sig = '%d pre %d post inherit %s added %s' % (pre, post, inherit, added)
        for again in range(2):
            del log[:]
            a.link()
            ctx.expect(sig + ' image', after, bytes(a.assembled_bytes))
            names = sorted(x[0] for x in log)
            want = sorted(['pre%d' % i for i in range(pre)] + ['post%d' % i for i in range(post)] + ([] if added == 'none' else ['other pre', 'other post']))
            ctx.expect(sig + ' each pass once per link', want, names)
            kinds = ['pre' if 'pre' in x[0] else 'post' for x in log]
            ctx.expect(sig + ' order', sorted(kinds, reverse=True), kinds)
            for x in log:
                ctx.expect(sig + ' %s sees' % x[0], ('Child', after if again or 'post' in x[0] else before), x[1:])
            ctx.step(len(log) + 1)
        # objects of the same and of the parent class are not concerned by the added passes
        del log[:]
        b = cls()
        b.assemble('.db 1')
        b.link()
        ctx.expect(sig + ' other object', pre + post, len(log))
        del log[:]
        c = cls.__bases__[0]()
        c.assemble('.db 1')
        c.link()
        ctx.expect(sig + ' parent', (inherit and pre > 0) + (inherit and post > 0), len(log))
        ctx.trace(3)
        ctx.state((pre, post, inherit, added))


def pass_effects(ctx):
    """what passes change is linked: code and labels added before, bytes patched after; failures surface"""
    from necroassembler import Assembler, pre_link, post_link

    class Late(Assembler):
        @pre_link
        def _tail(self):
            self.assemble('tail: .db 9\n.dw head')

        @post_link
        def _sum(self):
            self.append_assembled_bytes(bytes((sum(self.assembled_bytes) & 255,)))
    for size in range(0, 6):
        src = 'head: .dw tail\n.fill %d 1' % size
        o = impl.run(Late, src)
        want = bytes((2 + size, 0)) + b'\1' * size + b'\x09\0\0'
        ctx.expect(src, want + bytes((sum(want) & 255,)), o.data if o.kind == 'ok' else impl.brief(o))
        ctx.trace()
        ctx.state(size)

    class Stop(Exception):
        pass

    class Refused(impl.asm_error()):
        message = 'refused'
    for where in ('pre', 'post'):
        for at in range(3):
            for lib in (False, True):
                log = []
                a = Assembler()
                a.assemble('x: .dw y\ny:')

                def make(kind, i):
                    def f(asm):
                        log.append((kind, i))
                        if kind == where and i == at:
                            raise (Refused() if lib else Stop())
                    return f
                for i in range(3):
                    a.pre_link_passes.append(make('pre', i))
                    a.post_link_passes.append(make('post', i))
                try:
                    a.link()
                    got = 'linked'
                except (Stop, impl.asm_error()):
                    got = 'raised'
                ctx.expect('pass %s %d fails' % (where, at), 'raised', got)
                want = [('pre', i) for i in range(3)] + [('post', i) for i in range(3)]
                ctx.expect('passes before the failure', want[:want.index((where, at)) + 1], log)
                ctx.expect('resolution', b'\2\0' if where == 'post' else b'\0\0', bytes(a.assembled_bytes))
                ctx.trace()
                ctx.state((where, at, lib))

    # one method can be a pass of both kinds, an instruction and a directive; passes of a class run as often as it links
    from necroassembler import opcode, directive
    for kinds in itertools.product((False, True), repeat=4):
        for base_too in (False, True):
            log = []

            def both(self, instr=None):
                log.append((instr is not None, bytes(self.assembled_bytes)))
                return b'\7'
            f = both
            for on, deco in zip(kinds, (pre_link, post_link, opcode('seven', 'sept'), directive('seven'))):
                f = deco(f) if on else f
            C = type('Both', (type('Base', (Assembler,), {'_pass': f}) if base_too else Assembler,), {} if base_too else {'_pass': f})
            a = C()
            src = ('seven\nSept\n' if kinds[2] else '') + ('.seven 1\n' if kinds[3] else '') + '.dw x\nx:'
            a.assemble(src)
            head = b'\7\7' if kinds[2] else b''
            calls = [(True, b''), (True, b'\7')] * kinds[2] + [(True, head)] * kinds[3]
            ctx.expect('%s %s: calls while assembling' % (kinds, base_too), calls, log)
            for again in (0, 1):
                del log[:]
                a.link()
                end = head + bytes((len(head) + 2, 0))
                ctx.expect('%s %s: calls while linking, time %d' % (kinds, base_too, again), [(False, end if again else head + b'\0\0')] * kinds[0] + [(False, end)] * kinds[1], log)
            ctx.trace()
            ctx.step(4)
            ctx.state(kinds + (base_too,))

    # unresolved references: pre passes run, post passes do not
    log = []
    a = Assembler()
    a.assemble('.dw nowhere')
    a.pre_link_passes.append(lambda asm: log.append('pre'))
    a.post_link_passes.append(lambda asm: log.append('post'))
    got = outcome(a.link)
    ctx.expect('unresolved', ('raised UnknownLabel', ['pre']), (got, log))


def mains(ctx):
    """main() of classes with their own passes, called again and again with and without additional ones"""
    import shutil
    import tempfile
    from necroassembler import Assembler, pre_link, post_link
    tmp = tempfile.mkdtemp(prefix='c16-')
    argv = sys.argv
    src = os.path.join(tmp, 's')
    dst = os.path.join(tmp, 'd')
    with open(src, 'w') as f:
        f.write('.dw x\nx:')
    log = []
    One = type('One', (Assembler,), {'_a': pre_link(lambda self: log.append('one pre')), '_z': post_link(lambda self: log.append('one post'))})
    Two = type('Two', (Assembler,), {'_b': post_link(lambda self: log.append('two post'))})
    own = {One: (['one pre'], ['one post']), Two: ([], ['two post']), Assembler: ([], [])}
    extra_pre, extra_post = [lambda asm: log.append('extra pre')], [lambda asm: log.append('extra post')]
    calls = [(c, m) for c in own for m in range(4)]
    try:
        sys.argv = ['tool', src, dst]
        for seq in itertools.product(calls, repeat=3):
            core.arm()
            for c, m in seq:
                del log[:]
                c.main(**dict({'pre_link_passes': extra_pre} if m & 1 else {}, **({'post_link_passes': extra_post} if m & 2 else {})))
                want = own[c][0] + ['extra pre'] * (m & 1) + own[c][1] + ['extra post'] * (m >> 1)
                ctx.step()
                ctx.expect('main() calls %s' % [(x.__name__, k) for x, k in seq], (want, 1, 1), (log, len(extra_pre), len(extra_post)))
            ctx.trace()
            ctx.state(tuple((x.__name__, k) for x, k in seq))
    finally:
        sys.argv = argv
        shutil.rmtree(tmp)


def defining(ctx):
    """register_define: valid names only; used like a .define"""
    from necroassembler import Assembler
    for name in ('X', 'x1', 'a.b', '_', 'A B', 'a-b', 'a+', '(', 'é', 'ok_2', '1'):
        good = all(c.isascii() and (c.isalnum() or c in '_.') for c in name)
        a = Assembler()
        got = outcome(a.register_define, name, '7')
        ctx.expect('register_define(%r)' % name, True if good else 'raised InvalidDefine', got is None or got)
        ctx.expect('register_define(%r) tables' % name, {name: '7'} if good else {}, a.defines)
        if good and name != '1':
            a.assemble('.db %s %s+1' % (name, name))
            ctx.expect('.db %s' % name, b'\7\x08', bytes(a.assembled_bytes))
        ctx.trace()
        ctx.state(name)


def shards(tier):
    depth = 4 if tier == 'thorough' else 3
    out = []
    combos = [c for n in range(0, 3 + 1) for c in itertools.product(PATTERNS, repeat=n)]
    if depth == 4:
        combos += list(itertools.product([p for p in PATTERNS if p not in ('A', '(', 'none', 'quoted', 'set')], repeat=4))
    for i in range(0, len(combos), 100):
        out.append(('helpers %d' % i, helpers, (combos[i:i + 100], depth)))
    out.append(('apply', applying, ()))
    for kind in ('opcode', 'directive'):
        for how in ('decorator', 'register'):
            for s in (False, True):
                out.append(('declared %s %s %s' % (kind, how, s), declared, (kind, how, s)))
    out += [(f.__name__, f, ()) for f in (constants, overriding, tables, passes, pass_effects, mains, defining)]
    return out


if __name__ == '__main__':
    core.main('C16', shards, rule='every sequence of up to three (four) patterns of 13 kinds against every token sequence of neighbouring length; every grouping of up to three names over handlers, by decorator and by registration; every tree of four classes; every number and kind of link passes')
