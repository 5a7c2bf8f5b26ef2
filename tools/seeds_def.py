"""Planted bugs: source of /verif/seeded (see seeds.py). edits: (file under necroassembler/, old text, new text)."""
HEAD = '''
import os, sys, tempfile
sys.path.insert(0, os.getcwd())


def image(cls, *sources, link=True):
    """bytes of the linked program, or the class name of what was raised"""
    a = cls()
    try:
        for s in sources:
            a.assemble(s)
        if link:
            a.link()
    except Exception as e:
        return type(e).__name__
    return bytes(a.assembled_bytes)


def cpu(mod, name):
    import importlib
    return getattr(importlib.import_module('necroassembler.' + mod), name)


def check(got, want):
    if got != want:
        print('got', got, 'want', want)
        sys.exit(1)


def refused(got):
    if not isinstance(got, str):
        print('accepted:', got)
        sys.exit(1)

'''
SEEDS = []


def seed(id, property, edits, needs, breaks, demo, also=()):
    SEEDS.append({'id': id, 'property': property, 'edits': edits, 'needs': needs, 'breaks': breaks, 'demo': HEAD + demo, 'also': list(also)})


seed('C01-escaped-quote', 'C01', [('tokenizer.py', "        self.current_token += char\n        self.state = self._state_char\n", "        self.current_token += char\n        self.state = self._state_string\n")],
     'an escaped character inside a single-quoted token', "after '\\x' the tokenizer waits for a double quote, so the rest of the source is swallowed or misread",
     r'''
from necroassembler import Assembler
check(image(Assembler, ".db '\\'' 7\n.db 1"), b"'\x07\x01")
''')
seed('C04-float-division', 'C04', [('assembler.py', 'value //= arg_value', 'value = int(value / arg_value)')],
     'a quotient beyond 53 bits or of a negative value', 'division goes through floating point',
     r'''
from necroassembler import Assembler
check(image(Assembler, ".dd 36893488147419103233/8589934593"), (36893488147419103233 // 8589934593 & 0xFFFFFFFF).to_bytes(4, 'little') if 36893488147419103233 // 8589934593 < 2**32 else 'NotInBitRange')
check(image(Assembler, ".dd -7/2"), (-7 // 2 & 0xFFFFFFFF).to_bytes(4, 'little'))
''')
seed('C10-align-org', 'C10', [('assembler.py', 'mod = (self.current_org + self.org_counter) % size', 'mod = self.org_counter % size')],
     'an origin that is not itself a multiple of the alignment', 'alignment is computed from the start of the region instead of the address',
     r'''
from necroassembler import Assembler
check(image(Assembler, ".org 5\n.db 1\n.align 4\n.db 2"), b'\x01\x00\x00\x02')
''')
seed('C17-dd-be', 'C17', [('assembler.py', """                    blob = pack_be32u(value)
                else:
                    blob = pack_le32u(value)""", """                    blob = pack_be16u(value >> 16, value)
                else:
                    blob = pack_le16u(value >> 16, value)""")],
     'a .dd on a little-endian processor', 'double words are emitted with their halves swapped',
     r'''
from necroassembler import Assembler
check(image(Assembler, ".dd 305419896"), b'\x78\x56\x34\x12')
''')
A = 'from necroassembler import Assembler\n'
seed('C01-cr-comment', 'C01', [('tokenizer.py', "        if char in ('\\n', '\\r'):\n            self.state = self._state_token\n", "        if char == '\\n':\n            self.state = self._state_token\n")],
     'a comment in a source whose lines end with a carriage return alone', 'everything after the first comment is dropped', A + r'''
check(image(Assembler, ".db 1 ; one\r.db 2\r.db 3"), b'\x01\x02\x03')
''')
seed('C01-brace-join', 'C01', [('tokenizer.py', "        if char in ('(', ')', '[', ']', '{', '}'):\n            self._token_brackets(char)", "        if char in ('(', ')', '[', ']', '{', '}') and not self.current_token.startswith('\\\\'):\n            self._token_brackets(char)"), ('tokenizer.py', "        if char == '\\\\':\n            self.state = self._state_escaped_char\n            return\n        if char == '\\'':\n            if self.current_token:", "        if char == '\\\\' and self.current_token != '\\\\':\n            self.state = self._state_escaped_char\n            return\n        if char == '\\'':\n            if self.current_token:")],
     'two escaped backslashes in a row inside single quotes', 'the second escape is read literally', A + r'''
check(image(Assembler, ".db 'a\\\\\\\\b' 1"), b'a\\\\b\x01')
check(image(Assembler, ".db '\\\\\\\\' 1"), b'\\\\\x01')
''')
seed('C02-tab-separator', 'C02', [('tokenizer.py', "        if char in (' ', '\\n', '\\r', '\\t', ',', ';'):\n            self._token_spaces(char)", "        if char in (' ', '\\n', '\\r', '\\t', ',', ';') or (char == '\\f' and not self.tokens):\n            self._token_spaces(char)"), ('tokenizer.py', "        if char in ('\\n', '\\r', ';'):\n            if self.tokens:", "        if char in ('\\n', '\\r', ';') or (char == '\\t' and self.tokens[1:] and self.tokens[-1][0] == '\"'):\n            if self.tokens:")],
     'a tab right after a quoted string that is not the first operand', 'the tab ends the statement', A + r'''
check(image(Assembler, '.db "ab"\t1'), b'ab\x01')
check(image(Assembler, '.db 1 "ab" \t2'), b'\x01ab\x02')
''')
seed('C03-bin-suffix', 'C03', [('assembler.py', """        for suffix in self.bin_suffixes:
            if token.endswith(suffix):
                if token[:-len(suffix)].isdigit():
                    return int(token[0:-len(suffix)], 2), False""", """        for suffix in self.bin_suffixes:
            if token.endswith(suffix):
                if token[:-len(suffix)].strip('01') == '':
                    return int(token[0:-len(suffix)].lstrip('0'), 2), False""")],
     'a suffixed binary number made of zeros only', 'zero written in binary is refused', r'''
I = cpu('cpu.intel8086', 'AssemblerIntel8086')
s = I.bin_suffixes[0]
check(image(I, '.db 101%s\n.db 00%s' % (s, s)), b'\x05\x00')
''')
seed('C04-term-width', 'C04', [('assembler.py', 'arg_value = self.parse_integer(arg, 64, False)', 'arg_value = self.parse_integer(arg, 32, False)')],
     'a formula term wider than 32 bits', 'refused although the result fits', A + r'''
check(image(Assembler, '.dd 8589934592/4294967296'), b'\x02\0\0\0')
''')
seed('C04-double-low', 'C04', [('assembler.py', """                                  & 0xFF) << (8 * low_counter)
                low_counter += 1""", """                                  & 0xFF) << (8 * low_counter)
                low_counter |= 1""")],
     'three low-byte selectors in a row', 'the third byte is not selected', A + r'''
check(image(Assembler, '.dd <<<305419896'), b'\x78\x56\x34\0')
''')
seed('C04-and-after-or', 'C04', [('assembler.py', """            elif command == '|':
                value |= arg_value

        return value""", """            elif command == '|':
                value = value | arg_value if value >= 0 else value + arg_value

        return value""")],
     'a negative intermediate result before |', 'or becomes addition', A + r'''
check(image(Assembler, '.db 1-4|1'), b'\xfd')
''')
seed('C05-pack-bits-negative', 'C05', [('utils.py', """            value += max_value
            if value < max_value // 2:
                raise InvalidBitRange()
        if not in_bit_range(value, total_bits):""", """            value += max_value
            if value < 0:
                raise InvalidBitRange()
        if not in_bit_range(value, total_bits):""")],
     'a negative value that needs one bit more than the field', 'it is wrapped instead of refused', r'''
from necroassembler.utils import pack_bits
from necroassembler.exceptions import AssemblerException
try:
    got = pack_bits(0, ((3, 0), -9))
except AssemblerException:
    got = 'refused'
check(got, 'refused')
''')
seed('C05-le64s', 'C05', [('utils.py', "*[neg_fix(n & 0xffffffffffffffff, 64) if n is not None else 0 for n in args])", "*[neg_fix(n & 0xffffffffffffffff, 63) if n is not None else 0 for n in args])")],
     'a 64-bit signed value using bit 62', 'sign taken from the wrong bit', r'''
from necroassembler.utils import pack_le64s
check(pack_le64s(1 << 62), (1 << 62).to_bytes(8, 'little'))
''')
seed('C06-define-setdefault', 'C06', [('assembler.py', '        self.defines[name] = value\n', '        self.defines.setdefault(name, value)\n'), ('assembler.py', 'self.defines[instr.tokens[1]] = instr.tokens[2]', 'self.defines[instr.tokens[1]] = instr.tokens[2] if instr.tokens[2] not in self.defines else self.defines[instr.tokens[2]] + ""\n        if instr.tokens[1] == instr.tokens[2].swapcase():\n            self.defines[instr.tokens[2]] = instr.tokens[1]')],
     'a define whose value is its own name in the other case', 'a second, unasked define appears', A + r'''
check(image(Assembler, '.define x X\nX: .db 0\n.db X'), image(Assembler, '.define x X\nX: .db 0\n.db 0'))
check(image(Assembler, '.org 5\nx: .db 1\n.define X x\n.db x'), b'\x01\x05')
''')
seed('C06-partial-name', 'C06', [('utils.py', """        for char in name:
            if is_valid_name(char):
                accumulator += char
                continue""", """        for char in name:
            if is_valid_name(char) and not (char == '.' and accumulator in _dict):
                accumulator += char
                continue""")],
     'a name with a dot whose first part is a define', 'part of a longer name is replaced', A + r'''
check(image(Assembler, '.define a 7\n.org 3\na.b: .db 1\n.db a.b+0'), b'\x01\x03')
''')
seed('C07-macro-nested-args', 'C07', [('macros.py', """            original_tokens = instr.tokens.copy()
""", """            original_tokens = instr.tokens if not macro_args else instr.tokens.copy()
""")],
     'a macro without parameters that uses a define changed between two calls', 'the first call freezes the value of the define in the body', A + r'''
class T(Assembler):
    def register_instructions(self):
        self.register_instruction('v', lambda i: bytes([int(i.tokens[1])]))
check(image(T, '.define d 1\n.macro m\nv d\n.endmacro\nm\n.define d 2\nm'), b'\x01\x02')
''')
seed('C08-repeat-reference', 'C08', [('assembler.py', """        blob = self.assembled_bytes[index:]
        # space""", """        blob = self.assembled_bytes[index if org + org_counter or not self.labels_addresses else 0:]
        # space""")],
     '.repeat right after an .org at address zero with label references before', 'earlier bytes are replicated', A + r'''
check(image(Assembler, '.org 4\n.dw e\n.org 0\n.repeat 2\n.db 1\n.endrepeat\ne:'), b'\x02\x00\x01\x01')
''')
seed('C08-repeat-one', 'C08', [('assembler.py', """        self.repeat = None
        blob = self.assembled_bytes[index:]
""", """        blob = self.assembled_bytes[index:]
        if not blob:
            return
        self.repeat = None
""")],
     'an empty repeat body followed by another repeat', 'the empty repeat stays open', A + r'''
check(image(Assembler, '.repeat 2\n.endrepeat\n.repeat 2\n.db 1\n.endrepeat'), b'\x01\x01')
''')
seed('C09-json-key', 'C09', [('assembler.py', "keys = key.split('.')", "keys = key.split('.', 1)")],
     'a JSON key path of three parts', 'the third level is not found', A + r'''
import json
d = tempfile.mkdtemp()
p = os.path.join(d, 'x.json'); open(p, 'w').write(json.dumps({'a': {'b': {'c': [1, 2]}}}))
got = image(Assembler, '.incjson "%s" a.b.c' % p)
os.remove(p); os.rmdir(d)
check(got, b'\x01\x02')
''')
seed('C09-csv-signed', 'C09', [('assembler.py', "value = self.parse_integer(column, 16, False)", "value = self.parse_integer(column, 16, column.startswith('-') or len(column) > 4)")],
     'a 16-bit CSV value of five digits above 32767', 'refused', A + r'''
d = tempfile.mkdtemp()
p = os.path.join(d, 'x.csv'); open(p, 'w').write('40000,1\n-2')
got = image(Assembler, '.inccsv_le16 "%s"' % p)
os.remove(p); os.rmdir(d)
check(got, b'\x40\x9c\x01\x00\xfe\xff')
''')
seed('C10-upto-value', 'C10', [('assembler.py', "        blob = bytes([value] * (offset - (self.pc - self.current_org)))", "        blob = bytes([value or self.fill_value] * (offset - (self.pc - self.current_org)))")],
     '.upto with an explicit zero on a processor with another fill value', 'the fill value is used instead', A + r'''
class T(Assembler):
    fill_value = 0xFF
check(image(T, '.upto 2 0'), b'\0\0')
''')
seed('C11-label-in-org', 'C11', [('statements.py', """            'base': assembler.org_counter,
            'org': assembler.current_org,""", """            'base': assembler.org_counter,
            'org': assembler.current_org if assembler.assembled_bytes else assembler.pc - assembler.org_counter % 0x100,""")],
     'a label after a .ram of 256 bytes or more at the start of a program', 'the label address counts the reserved space twice', A + r'''
check(image(Assembler, '.org 256\n.ram 258\nx:\n.dw x'), (514).to_bytes(2, 'little'))
''')
seed('C11-ram-label', 'C11', [('assembler.py', '        self.org_counter += size\n', '        self.org_counter = max(self.org_counter, len(self.assembled_bytes) if not self.current_org else 0) + size\n')],
     'a .ram after an unbounded .org back at address zero', 'labels after it are too high', A + r'''
check(image(Assembler, '.org 16\n.db 1 2 3\n.org 0\n.ram 1\nx:\n.db x'), b'\x01\x02\x03\x01')
''')
seed('C12-bit-range', 'C12', [('utils.py', "        return in_bit_range(value, number_of_bits-1)\n", "        return in_bit_range(value, number_of_bits - (number_of_bits != 32))\n")],
     'a signed 32-bit value of 2**31 or more', 'accepted and wrapped to a negative value', r'''
from necroassembler.utils import in_bit_range_decimal
check(in_bit_range_decimal(1 << 31, 32, True), False)
from necroassembler import Assembler, opcode
class T(Assembler):
    @opcode('op')
    def op(self, i):
        v = self.parse_integer_or_label(label=i.tokens[1], size=4, bits_size=32, relative=0)
        return v.to_bytes(4, 'little', signed=True) if v < 2**31 else b'wrap'
refused(image(T, 'op 2147483648'))
''')
seed('C12-forward-only', 'C12', [('assembler.py', "                raise OnlyForwardAddressesAllowed(label, true_address)\n", "                if total_bits <= 8:\n                    raise OnlyForwardAddressesAllowed(label, true_address)\n")],
     'a label expression below zero in a 16-bit field', 'a wrapped address is emitted instead of a diagnostic', A + r'''
refused(image(Assembler, 'x:\n.dw x-1'))
''')
seed('C13-constant-operands', 'C13', [('statements.py', "            if len(self.tokens) != 1:\n                raise InvalidOpCodeArguments(self)\n            blob = instruction", "            if len(self.tokens) > 1 and not self.tokens[1].startswith('['):\n                raise InvalidOpCodeArguments(self)\n            blob = instruction")],
     'an operand in brackets after an instruction that has none', 'the operand is ignored', r'''
refused(image(cpu('cpu.lr35902', 'AssemblerLR35902'), 'NOP [HL]'))
refused(image(cpu('cpu.mos6502', 'AssemblerMOS6502'), 'NOP [1]'))
from necroassembler import Assembler
class T(Assembler):
    def register_instructions(self):
        self.register_instruction('nop', b'\x00')
refused(image(T, 'nop [1]'))
''')
seed('C12-dup-label', 'C12', [('statements.py', "        if key in assembler.labels:\n            raise LabelAlreadyDefined(self)", "        if key in assembler.labels and assembler.labels[key]['base'] != assembler.org_counter:\n            raise LabelAlreadyDefined(self)")],
     'the same label at the same offset of two regions', 'the second silently replaces the first', A + r'''
refused(image(Assembler, '.org 1\nx:\n.db 1\n.org 3\nx:\n.db x'))
''')
seed('C13-align-operands', 'C13', [('assembler.py', """        if len(instr.tokens) != 2:
            raise InvalidArgumentsForDirective(instr)
        size = self.parse_integer(instr.tokens[1], 64, True)
        if size is None or size < 1:
            raise InvalidArgumentsForDirective(instr)

        mod""", """        if len(instr.tokens) not in (2, 3):
            raise InvalidArgumentsForDirective(instr)
        size = self.parse_integer(instr.tokens[1], 64, True)
        if size is None or size < 1:
            raise InvalidArgumentsForDirective(instr)

        mod""")],
     'a surplus operand of .align', 'ignored without a diagnostic', A + r'''
refused(image(Assembler, '.db 1\n.align 4 255'))
''')
seed('C14-shared-defines', 'C14', [('assembler.py', '        self.defines = self.defines.copy()\n', '        self.defines = self.defines if self.defines else {}\n')],
     'two assemblers of a platform class that has its own defines', '.define in one program changes the next', r'''
G = cpu('platforms.gameboy', 'AssemblerGameboy')
a = G(); a.assemble('.define LY 1\n.define ZZ 9')
b = G(); b.assemble('.dw LY')
check(bytes(b.assembled_bytes), b'\x44\xff')
''')
seed('C15-save-anyway', 'C15', [('assembler.py', """        asm.link(linker=linker)
        asm.save(destination)""", """        with open(destination, 'wb') as handle:
            asm.link(linker=linker)
            handle.write(asm.assembled_bytes)""")],
     'a program that fails to link while the destination already exists', 'the previous image is destroyed', r'''
import subprocess
d = tempfile.mkdtemp()
s = os.path.join(d, 's.asm'); o = os.path.join(d, 'o.bin')
open(s, 'w').write('JMP nowhere\n'); open(o, 'wb').write(b'old')
r = subprocess.run([sys.executable, '-m', 'necroassembler.cpu.mos6502', s, o], env=dict(os.environ, PYTHONPATH=os.getcwd()), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
left = open(o, 'rb').read()
for p in (s, o):
    os.remove(p)
os.rmdir(d)
check(left, b'old')
''')
seed('C16-postlink-once', 'C16', [('assembler.py', """        for _pass in self.post_link_passes:
            if hasattr(_pass, '__self__') and _pass.__self__ == self:
                _pass()""", """        for _pass in self.post_link_passes:
            if hasattr(_pass, '__self__'):
                _pass()""")],
     'a post-link pass that is a bound method of another object', 'it is called without the assembler', A + r'''
class H:
    def fix(self, asm):
        asm.assembled_bytes.append(9)
a = Assembler()
a.post_link_passes.append(H().fix)
a.assemble('.db 1')
try:
    a.link()
    got = bytes(a.assembled_bytes)
except TypeError:
    got = 'TypeError'
check(got, b'\x01\x09')
''')
seed('C17-ascii-width', 'C17', [('assembler.py', "blob = format(true_address, '05d').encode('ascii')", "blob = format(true_address, '5d').encode('ascii')")],
     'a label below 10000 in .dw_to_ascii', 'padded with spaces instead of zeros', A + r'''
check(image(Assembler, '.org 7\nx: .dw_to_ascii x'), b'00007')
''')
seed('C17-inccsv-wide', 'C17', [('assembler.py', "                    blob = pack_be16u(value)\n", "                    blob = pack_be16u(value if value < 0x8000 else value - 0x10000 | 1)\n")],
     'an even big-endian word of 0x8000 or more', 'lowest bit set', A + r'''
class T(Assembler):
    big_endian = True
check(image(T, '.dw 40000'), (40000).to_bytes(2, 'big'))
''')
seed('C11-big-endian-offset', 'C11', [('assembler.py', "                    self.assembled_bytes[address + ((size-1) - i)] |= value", "                    self.assembled_bytes[address + ((size-1) - i if size < 4 else (3 - i) ^ (data.offset & 1))] |= value")],
     'a 32-bit label at an odd offset of a big-endian instruction', 'bytes swapped', A + r'''
from necroassembler import opcode
class T(Assembler):
    big_endian = True
    @opcode('op')
    def op(self, i):
        v = self.parse_integer_or_label(label=i.tokens[1], size=4, bits_size=32, offset=1)
        return b'\x01' + v.to_bytes(4, 'big')
check(image(T, '.org 258\nx: op x'), b'\x01\0\0\x01\x02')
''')
seed('C40-checksum-range', 'C40', [('platforms/gameboy.py', 'for i in range(0x134, 0x14d):', 'for i in range(0x134, 0x14c):')],
     'any cartridge', 'header checksum one byte short', r'''
G = cpu('platforms.gameboy', 'AssemblerGameboy')
b = image(G, '.fill 256\n.cartridge\n.cartridge_title "A"\n.fill 16')
check(b[0x14d], -(sum(b[0x134:0x14d]) + 25) & 255)
''')
seed('C40-title-cut', 'C40', [('platforms/gameboy.py', "        if len(blob) > size:\n            raise InvalidArgumentsForDirective(instr)", "        if len(blob) > size + size % 2:\n            raise InvalidArgumentsForDirective(instr)")],
     'two bytes for a one byte header field', 'the following field is overwritten', r'''
G = cpu('platforms.gameboy', 'AssemblerGameboy')
refused(image(G, '.fill 256\n.cartridge\n.cartridge_type 1 2\n.fill 16'))
''')
seed('C41-gb-tile-plane', 'C41', [('platforms/gameboy.py', "byte1 |= (pixel_value >> 1) << (7 - x)", "byte1 |= (pixel_value >> 1) << (7 - (x if x % 8 else y % 8 and x))"), ('platforms/sms.py', "for cell_y in range(0, height // 8):\n            for cell_x in range(0, width // 8):", "for cell_y in range(0, height // 8):\n            for cell_x in range(0, width // 8 if width != 24 else height // 8):")],
     'a Master System image three tiles wide and not three tiles high', 'tiles missing or taken from outside', r'''
import types
class Im:
    mode = 'P'; size = (24, 8)
    def getpixel(self, p):
        return (p[0] // 8 + 1) % 16
m = types.ModuleType('PIL'); m.Image = types.SimpleNamespace(open=lambda f: Im()); sys.modules['PIL'] = m
S = cpu('platforms.sms', 'AssemblerSegaMasterSystem')
check(image(S, '.tiles "x"'), b'\xff\0\0\0' * 8 + b'\0\xff\0\0' * 8 + b'\xff\xff\0\0' * 8)
''')
seed('C42-nl-last', 'C42', [('platforms/nes.py', 'if 0x8000 <= address <= 0xFFFF:', 'if 0x8000 <= address < 0xFFFF:')],
     'a label on the last byte of the ROM', 'missing from the symbol file', r'''
import subprocess
d = tempfile.mkdtemp()
s = os.path.join(d, 's.asm'); o = os.path.join(d, 'o.nes')
open(s, 'w').write('.org $FFFF\nlast:\n.db 1\n')
subprocess.run([sys.executable, '-m', 'necroassembler.platforms.nes', s, o], env=dict(os.environ, PYTHONPATH=os.getcwd()))
got = open(o + '.0.nl', 'rb').read() if os.path.exists(o + '.0.nl') else b''
import shutil; shutil.rmtree(d)
check(got, b'$FFFF#last#\r\n')
''')
seed('C43-gba-range', 'C43', [('platforms/gba.py', 'range(0xA0, 0xBD)', 'range(0xA1, 0xBD)')],
     'a title that starts with a nonzero byte', 'wrong complement check', r'''
import subprocess
d = tempfile.mkdtemp()
s = os.path.join(d, 's.asm'); o = os.path.join(d, 'o.gba')
open(s, 'w').write('.fill 160\n.db "TITLE"\n.fill 40\n')
subprocess.run([sys.executable, '-m', 'necroassembler.platforms.gba', s, o], env=dict(os.environ, PYTHONPATH=os.getcwd()))
b = open(o, 'rb').read() if os.path.exists(o) else bytes(200)
import shutil; shutil.rmtree(d)
check(b[0xbd], -(sum(b[0xa0:0xbd]) + 0x19) & 255)
''')
seed('C43-genesis-carry', 'C43', [('platforms/genesis.py', 'asm.assembled_bytes[0x18e] = (header_checksum >> 8) & 0xFF', 'asm.assembled_bytes[0x18e] = (header_checksum >> 8) % 0xFF')],
     'a program whose checksum has 0xff as high byte', 'the checksum high byte is zero', r'''
import subprocess
d = tempfile.mkdtemp()
s = os.path.join(d, 's.asm'); o = os.path.join(d, 'o.bin')
open(s, 'w').write('.fill 512\n.dw $FF12\n')
subprocess.run([sys.executable, '-m', 'necroassembler.platforms.genesis', s, o], env=dict(os.environ, PYTHONPATH=os.getcwd()))
b = open(o, 'rb').read() if os.path.exists(o) else bytes(600)
import shutil; shutil.rmtree(d)
check(b[0x18e:0x190], b'\xff\x12')
''')
seed('C43-psx-sector', 'C43', [('platforms/psx.py', "    padding = len(asm.assembled_bytes) % 2048\n    if padding != 0:", "    padding = len(asm.assembled_bytes) % 2048\n    if padding > 4:")],
     'a program one instruction longer than a sector', 'the image is not padded', r'''
import subprocess
d = tempfile.mkdtemp()
s = os.path.join(d, 's.asm'); o = os.path.join(d, 'o.exe')
open(s, 'w').write('.fill 2048\n.dd 1\n')
subprocess.run([sys.executable, '-m', 'necroassembler.platforms.psx', s, o], env=dict(os.environ, PYTHONPATH=os.getcwd()))
n = os.path.getsize(o) if os.path.exists(o) else 0
import shutil; shutil.rmtree(d)
check(n, 2048 * 3)
''')
seed('C50-flags', 'C50', [('linker.py', """        if 'X' in section_data['permissions']:
            sh_flags |= 0x04""", """        elif 'X' in section_data['permissions']:
            sh_flags |= 0x04""")],
     'a section that is both writable and executable', 'it is not marked executable', r'''
import struct
from necroassembler import Assembler
from necroassembler.linker import ELF
a = Assembler(); a.assemble('.section t RWX 0\n.db 1'); a.link(ELF(32, False, 1, 3))
b = bytes(a.assembled_bytes)
off = struct.unpack_from('<I', b, 32)[0]
check(struct.unpack_from('<I', b, off + 40 + 8)[0], 7)
''')
seed('C50-shndx64', 'C50', [('linker.py', "            section_data['elf_section_index'] = section_index\n", "            section_data['elf_section_index'] = min(section_index, self.bits // 32)\n")],
     'a symbol in the fourth section of a 64-bit object (or the third of a 32-bit one)', 'the symbol belongs to an earlier section', r'''
import struct
from necroassembler import Assembler
from necroassembler.linker import ELF
a = Assembler(); a.assemble('.section a R 0\n.db 1\n.section b R 0\n.db 1\n.section c R 0\n.section d R 0\nx: .db 1\n.export x'); a.link(ELF(64, False, 1, 3))
b = bytes(a.assembled_bytes)
check(struct.unpack_from('<H', b, len(b) - 24 + 6)[0], 4)
''')
seed('C03-negative-wide', 'C03', [('assembler.py', """                    max_value = pow(2, number_of_bits)
                    value += max_value
                    if value < max_value // 2:
                        raise NotInBitRange(value, number_of_bits)
            else:""", """                    max_value = pow(2, number_of_bits)
                    value += max_value
                    if value < min(max_value // 2, 0x80000000):
                        raise NotInBitRange(value, number_of_bits)
            else:""")],
     'a negative number below the range of a field wider than 32 bits', 'wrapped instead of refused', A + r'''
from necroassembler.exceptions import AssemblerException
a = Assembler()
try:
    got = a.parse_integer(str(-(1 << 63) - 5), 64, False)
except AssemblerException:
    got = 'refused'
check(got, 'refused')
''')


def cseed(id, prop, module, cls, edits, needs, breaks, lines, also=()):
    demo = "C = cpu('%s', '%s')\n" % (module, cls) + ''.join('check(image(C, %r), %s)\n' % (src, 'bytes.fromhex(%r)' % want if ' ' not in want else repr(want.strip())) for src, want in lines)
    seed(id, prop, edits, needs, breaks, demo, also)


cseed('C20-zero-page-edge', 'C20', 'cpu.mos6502', 'AssemblerMOS6502', [('cpu/mos6502.py', 'return 0 <= address <= 0xff', 'return 0 <= address < 0xff')],
      'the last zero page address', 'it gets the absolute form, or is refused where only the zero page exists', [('LDA $FF\nSTX $FF,Y\nLDA $100\nORA ($FF),Y', 'a5ff96ffad000111ff')])
cseed('C20-label-zero-page-edge', 'C20', 'cpu.mos6502', 'AssemblerMOS6502', [('cpu/mos6502.py', """        address = self.get_label_absolute_address_by_name(arg)
        if address is None:""", """        address = self.get_label_absolute_address_by_name(arg)
        if not address:""")],
      'an already defined label at address zero used as operand', 'it gets the absolute form; (zero,X) is refused', [('z: NOP\nLDA z\nADC ( z , X )', 'eaa5006100')], also=('C31',))
cseed('C22-iyh-cp', 'C22', 'cpu.z80', 'AssemblerZ80', [('cpu/z80.py', "    ([0xFD66], 'LD', 'H', '(', 'IY+d', ')'),", "    ([0xFD66], 'LD', 'H', '(', 'IX+d', ')'),")],
      'LD H,(IY+d)', 'refused', [('LD H ( IY+5 )\nLD H ( IX+5 )', 'fd6605dd6605')])
cseed('C22-two-fields-offset', 'C22', 'cpu.z80', 'AssemblerZ80', [('cpu/z80.py', """            bits_size=16,
            offset=len(base)
        ))""", """            bits_size=16,
            offset=1
        ))""")],
      'a label as the 16 bit operand of a prefixed instruction', 'the label overwrites the opcode byte instead of the operand', [('LD IX v\n.org $1234\nv:', 'dd213412')], also=('C31',))
cseed('C23-bp-di', 'C23', 'cpu.intel8086', 'AssemblerIntel8086', [('cpu/intel8086.py', "return 0b10, 0b011, 5, arg[3] + arg[4]", "return 0b10, 0b010, 5, arg[3] + arg[4]")],
      '[BP+DI+displacement]', 'addresses BP+SI', [('MOV AX [ BP + DI + 4 ]', '8b830400'), ('MOV AX [ BP + SI + 4 ]', '8b820400')])
cseed('C25-imm-then-label', 'C25', 'cpu.mc68000', 'AssemblerMC68000', [('cpu/mc68000.py', """            _, dst_m, dst_xn, dst_data = self._last_mode(
                instr, index, op_size + (op_size % 2), op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
            return self._build_opcode(0b0000110000000000""", """            _, dst_m, dst_xn, dst_data = self._last_mode(
                instr, index, op_size, op_size, blacklist=('An', '#<data>', '(d16,PC)', '(d8,PC,Xn)'))
            return self._build_opcode(0b0000110000000000""")],
      'cmpi.b with a label as destination', 'the label lands one byte early', [('cmpi.b #1,l\n.org $12345678\nl:', '0c39000112345678'), ('cmpi.w #1,l\n.org $12345678\nl:', '0c79000112345678')], also=('C31',))
cseed('C26-high-alias', 'C26', 'cpu.thumb', 'AssemblerThumb', [('cpu/thumb.py', "HIGH_REGS_ALIASES = ('fp', 'ip', 'sp', 'lr', 'pc')", "HIGH_REGS_ALIASES = ('ip', 'fp', 'sp', 'lr', 'pc')")],
      'the register aliases fp and ip', 'they name each other', [('mov r0,fp\nmov r0,ip\nmov r0,r11\nmov r0,sp', '5846604658466846')])
cseed('C27-mulhwu', 'C27', 'cpu.powerpc', 'AssemblerPowerPC', [('cpu/powerpc.py', '[0x7c000590, "subfzeo", [[21, 5, _greg], [16, 5, _greg]]],', '[0x7c000590, "subfzeo", [[16, 5, _greg], [21, 5, _greg]]],')],
      'subfzeo with two different registers', 'the registers are swapped', [('subfzeo r3,r4', '7c640590'), ('subfze r3,r4', '7c640190')])
cseed('C27-reg-31', 'C27', 'cpu.powerpc', 'AssemblerPowerPC', [('cpu/powerpc.py', "FREGS = tuple(['f{0}'.format(n) for n in range(0, 32)])", "FREGS = tuple(['f{0}'.format(n) for n in range(0, 31)])")],
      'f31', 'refused', [('fadd f1,f31,f2', 'fc3f102a')])
cseed('C30-6502-range', 'C30', 'cpu.mos6502', 'AssemblerMOS6502', [('cpu/mos6502.py', "            label=arg, bits_size=8,\n            size=1, offset=1, relative=self.pc + 2)", "            label=arg, bits_size=9,\n            size=1, offset=1, relative=self.pc + 2)")],
      'a branch to a label out of the +-128 range', 'a wrapped displacement is emitted or the failure is not the documented one', [('BEQ l\n.org $82\nl:', 'NotInBitRange '), ('BEQ l\n.org $81\nl:', 'f07f')], also=('C20',))
cseed('C21-bit-square', 'C21', 'cpu.lr35902', 'AssemblerLR35902', [('cpu/lr35902.py', "instr.match(NUMBER, '[', 'HL', ']')", "instr.match(NUMBER, '[', 'HL', ')')")],
      'BIT/SET/RES on [HL] in square brackets', 'refused', [('SET 3 [ HL ]\nSET 3 ( HL )', 'cbdecbde')])
cseed('C21-label-size', 'C21', 'cpu.lr35902', 'AssemblerLR35902', [('cpu/lr35902.py', "label=arg, bits_size=16, offset=1, size=2)", "label=arg, bits_size=16, offset=1, size=1)")],
      'a 16 bit label operand above 255', 'only one byte of the address is written, or it is refused', [('JP lab\n.org $1234\nlab:', 'c33412')], also=('C31',))
cseed('C23-moffs-label', 'C23', 'cpu.intel8086', 'AssemblerIntel8086', [('cpu/intel8086.py', """def _Ov(instr, assembler, index, modrm):
    if match(instr.tokens[index:index+3], '[', None, ']'):
        if instr.tokens[index+1].upper() not in REGS8 + REGS16 + SEGMENTS:
            return 3, pack_le16u(assembler.parse_integer_or_label(
                instr.tokens[index+1], size=2, bits_size=16, offset=1))""", """def _Ov(instr, assembler, index, modrm):
    if match(instr.tokens[index:index+3], '[', None, ']'):
        if instr.tokens[index+1].upper() not in REGS8 + REGS16 + SEGMENTS:
            return 3, pack_le16u(assembler.parse_integer_or_label(
                instr.tokens[index+1], size=2, bits_size=16, offset=index))""")],
      'MOV AX,[label]: the address is the second operand', 'the label is written one byte late', [('MOV AX [ v ]\nNOP\n.org 4660\nv:', 'a1341290'), ('MOV [ v ] AX\nNOP\n.org 4660\nv:', 'a3341290')], also=('C31',))
cseed('C24-alias', 'C24', 'cpu.mips32', 'AssemblerMIPS32', [('cpu/mips32.py', "'$t8', '$t9', '$k0', '$k1', '$gp', '$sp',", "'$t8', '$t9', '$k1', '$k0', '$gp', '$sp',")],
      'the register names $k0 and $k1', 'they name each other', [('add $k0 $k1 $26', '037ad020'), ('jr $gp', '03800008')])
cseed('C25-cond', 'C25', 'cpu.mc68000', 'AssemblerMC68000', [('cpu/mc68000.py', "              'VC', 'VS', 'PL', 'MI', 'GE', 'LT', 'GT', 'LE')", "              'VS', 'VC', 'PL', 'MI', 'GE', 'LT', 'GT', 'LE')")],
      'the overflow conditions', 'the opposite condition is encoded', [('bvs 4\ndbvc d1,4', '6900000458c90004')])
cseed('C30-8086-region', 'C30', 'cpu.intel8086', 'AssemblerIntel8086', [('cpu/intel8086.py', "relative=assembler.pc+3))", "relative=assembler.current_org+len(assembler.assembled_bytes)+3))")],
      'a near jump in a second region', 'the distance is measured from the wrong place', [('.org 256\n.dd 1\n.org 512\nl: JMP l', '01000000e9fdff')], also=('C23',))
cseed('C30-68k-short-pc', 'C30', 'cpu.mc68000', 'AssemblerMC68000', [('cpu/mc68000.py', """                                                bits_size=8,
                                                bits=(7, 0),
                                                relative=self.pc+2+offset,""", """                                                bits_size=8,
                                                bits=(7, 0),
                                                relative=(self.pc+2+offset) & 0xffffff,""")],
      'an indexed pc relative operand beyond the first 16 MB', 'a reachable target is refused', [('.org $2000000\njmp (l,pc,d1.w)\nl:', '4efb1002')], also=('C31', 'C25'))
cseed('C31-z80-second', 'C31', 'cpu.z80', 'AssemblerZ80', [('cpu/z80.py', """            size=1,
            bits_size=8,
            offset=len(base)
        ))""", """            size=1,
            bits_size=8,
            offset=len(base) if len(base) != 3 else 2
        ))""")],
      'a label as the immediate of LD (IX+d),n', 'the label overwrites the displacement', [('LD ( IX+1 ) lab\n.org $45\nlab:', 'dd360145')], also=('C22',))
cseed('C31-ppc-unsigned', 'C31', 'cpu.powerpc', 'AssemblerPowerPC', [('cpu/powerpc.py', """def _ui(token, assembler=None, bits=None):
    if assembler is not None:
        return assembler.parse_integer_or_label(token,
                                                size=4,
                                                bits_size=(
                                                    bits[0] - bits[1] + 1),
                                                bits=bits, signed=False)""", """def _ui(token, assembler=None, bits=None):
    if assembler is not None:
        return assembler.parse_integer_or_label(token,
                                                size=4,
                                                bits_size=(
                                                    bits[0] - bits[1] + 1),
                                                bits=bits, signed=not token[0].isdigit())""")],
      'a label of 0x8000 or more as an unsigned immediate', 'refused though the number is accepted', [('ori r1,r2,lab\n.org 0x8000\nlab:', '60418000')], also=('C27',))
cseed('C28-cr-order', 'C28', 'cpu.x86', 'AssemblerX86', [('cpu/x86.py', "'CR4', 'CR5', 'CR6', 'CR7')", "'CR4', 'CR6', 'CR5', 'CR7')")],
      'CR5 or CR6', 'the other control register', [('.bits 32\nMOV EAX CR5\nMOV CR6 EDX', '0f20e80f22f2')])
cseed('C28-cmov-parity', 'C28', 'cpu.x86', 'AssemblerX86', [('cpu/x86.py', "(0xf4b, 'CMOVPO', _Gvqp, _Evqp)", "(0xf4a, 'CMOVPO', _Gvqp, _Evqp)")],
      'the CMOVPO alias', 'moves on the opposite condition', [('CMOVPO RAX RBX\nCMOVNP EAX EBX', '480f4bc30f4bc3')])
cseed('C28-regs64', 'C28', 'cpu.x86', 'AssemblerX86', [('cpu/x86.py', "REGS64 = ('RAX', 'RCX', 'RDX', 'RBX', 'RSP', 'RBP', 'RSI', 'RDI')", "REGS64 = ('RAX', 'RCX', 'RDX', 'RBX', 'RBP', 'RSP', 'RSI', 'RDI')")],
      'RSP or RBP in an instruction', 'the stack and base pointers are exchanged', [('MOV RBP RSP\nPUSH RBP', '4889e555')])
cseed('C28-bits-16', 'C28', 'cpu.x86', 'AssemblerX86', [('cpu/x86.py', "if value is None or value not in (16, 32, 64):", "if not value or value % 16 or value > 64:")],
      '.bits 48', 'accepted, everything after is assembled for no mode', [('.bits 48\nNOP', 'InvalidArgumentsForDirective '), ('.bits 16\nADD EAX,EBX', '6601d8')])
seed('C14-number-cache', 'C14', [('assembler.py', "    def _internal_parse_integer(self, token):\n", """    def _internal_parse_integer(self, token, numbers={}):
        if token not in numbers:
            numbers[token] = self._parse_number(token)
        return numbers[token]

    def _parse_number(self, token):
""")],
     'two processors in one process that write numbers differently', 'the value found by an earlier object is used', r'''
from necroassembler import Assembler
class P(Assembler):
    hex_prefixes = ('$',)
class Q(Assembler):
    hex_prefixes = ()
    bin_prefixes = ('$',)
check(image(P, '.dw $10'), b'\x10\0')
check(image(Q, '.dw $10'), b'\x02\0')
''')
seed('C16-both-passes', 'C16', [('assembler.py', """                    if attr.pre_link:
                        self.pre_link_passes.append(attr)
                if hasattr""", """                    if attr.pre_link:
                        self.pre_link_passes.append(attr)
                elif hasattr""")],
     'a method that is both a pre-link and a post-link pass', 'it runs before linking only', r'''
from necroassembler import Assembler, pre_link, post_link
class C(Assembler):
    @post_link
    @pre_link
    def both(self):
        self.assembled_bytes.append(7)
check(image(C, '.db 1'), b'\1\7\7')
''')
seed('C09-incbin-long', 'C09', [('assembler.py', """            blob = f.read()
            self.append_assembled_bytes(blob)""", """            blob = f.read(0x10000)
            self.append_assembled_bytes(blob)""")],
     'a binary of more than 64 KB', 'its end is missing', r'''
from necroassembler import Assembler
d = tempfile.mkdtemp()
open(d + '/x', 'wb').write(bytes(65536) + b'end')
check(image(Assembler, '.incbin "%s/x"\n.db 1' % d), bytes(65536) + b'end\1')
''')
seed('C12-align-distance', 'C12', [('assembler.py', "if absolute_address % data.alignment != 0:", "if true_address % data.alignment != 0:")],
     'a relative reference with an alignment from an address that is not a multiple of it', 'an aligned label is refused, a misaligned one accepted', r'''
C = cpu('cpu.thumb', 'AssemblerThumb')
check(image(C, 'mov r0,#1\nldr r1,[pc,#l]\nmov r0,#2\nmov r0,#3\nl: .dd 7'), bytes.fromhex('0120' '0149' '0220' '0320' '07000000'))
''', also=('C30', 'C26'))
seed('C10-align-even', 'C10', [('assembler.py', "        mod = (self.current_org + self.org_counter) % size", "        mod = (self.current_org + self.org_counter) & (size - 1) if size % 2 == 0 else (self.current_org + self.org_counter) % size")],
     'an even alignment that is not a power of two', 'the padding is wrong', r'''
from necroassembler import Assembler
check(image(Assembler, '.db 1 2 3 4\n.align 12\n.db 5'), b'\1\2\3\4' + bytes(8) + b'\5')
''')
seed('C04-five-low', 'C04', [('assembler.py', "                low_counter += 1\n", "                low_counter = min(low_counter + 1, 3)\n")],
     'five or more < selectors on a value beyond 32 bits', 'fewer bytes are kept', r'''
from necroassembler import Assembler
class C(Assembler):
    hex_prefixes = ('$',)
check(image(C, '.dd <<<<$A1B2C3D4E5F60718'), bytes.fromhex('1807f6e5'))
check(image(C, '.dd <<<<<$A1B2C3D4E5F60718'), 'NotInBitRange')
''')
seed('C07-macro-over-instruction', 'C07', [('statements.py', "        if key in assembler.macros:\n", "        if key in assembler.macros and (key not in assembler.instructions or assembler.macros[key].instructions):\n")],
     'an empty macro named like an instruction', 'the instruction is assembled', r'''
C = cpu('cpu.z80', 'AssemblerZ80')
check(image(C, '.macro HALT\n.endmacro\nHALT\nNOP'), b'\0')
''')
seed('C43-psx-size', 'C43', [('platforms/psx.py', 'pack_le32u(len(asm.assembled_bytes))', 'pack_le32u(len(asm.assembled_bytes) & 0xFFFFF)')],
     'an executable of 1 MB or more', 'the size in the header is wrong', r'''
import subprocess
d = tempfile.mkdtemp()
open(d + '/x', 'w').write('.fill 1048576 1\nnop_: .dd 2\n')
check(subprocess.run([sys.executable, '-m', 'necroassembler.platforms.psx', d + '/x', d + '/o'], env=dict(os.environ, PYTHONPATH=os.getcwd())).returncode, 0)
b = open(d + '/o', 'rb').read()
check(int.from_bytes(b[0x1c:0x20], 'little'), 1048576 + 2048)
check(len(b), 1048576 + 4096)
''')
seed('C43-genesis-long', 'C43', [('platforms/genesis.py', 'range(0x200, len(asm.assembled_bytes), 2)', 'range(0x200, min(len(asm.assembled_bytes), 0x40000), 2)')],
     'a ROM of more than 256 KB', 'the checksum ignores its end', r'''
import subprocess
d = tempfile.mkdtemp()
open(d + '/x', 'w').write('.fill $41000 0\n.dw $1234\n')
check(subprocess.run([sys.executable, '-m', 'necroassembler.platforms.genesis', d + '/x', d + '/o'], env=dict(os.environ, PYTHONPATH=os.getcwd())).returncode, 0)
check(open(d + '/o', 'rb').read()[0x18e:0x190], b'\x12\x34')
''')
seed('C41-gb-wide', 'C41', [('platforms/gameboy.py', 'for cell_x in range(0, width // 8):', 'for cell_x in range(0, min(width // 8, 32)):')],
     'an image wider than 256 pixels', 'its right part is missing', r'''
import types
class Im:
    mode = 'P'; size = (264, 8)
    def getpixel(self, p):
        return p[0] // 8 % 4
m = types.ModuleType('PIL'); m.Image = types.SimpleNamespace(open=lambda f: Im()); sys.modules['PIL'] = m
G = cpu('platforms.gameboy', 'AssemblerGameboy')
a = G(); a.assemble('.tiles "x"')
check(len(a.assembled_bytes), 33 * 16)
''')
seed('C42-far-label', 'C42', [('platforms/nes.py', """            address = asm.get_label_absolute_address_by_name(label)
            if 0x8000""", """            address = asm.get_label_absolute_address_by_name(label) & 0xFFFF
            if 0x8000""")],
     'a label beyond 64 KB', 'listed at another address', r'''
import subprocess
d = tempfile.mkdtemp()
open(d + '/x', 'w').write('.org $8000\na: .db 1\n.org $18001\nb: .db 2\n')
check(subprocess.run([sys.executable, '-m', 'necroassembler.platforms.nes', d + '/x', d + '/o'], env=dict(os.environ, PYTHONPATH=os.getcwd())).returncode, 0)
check(open(d + '/o.0.nl', 'rb').read(), b'$8000#a#\r\n')
''')
seed('C50-flag-e', 'C50', [('linker.py', """        if 'E' in section_data['permissions']:
            sh_flags |= 0x04""", """        if 'E' in section_data['permissions'] and 'W' in section_data['permissions']:
            sh_flags |= 0x04""")],
     'a section that is executable by E and not writable', 'not executable', r'''
import struct
from necroassembler import Assembler
from necroassembler.linker import ELF
a = Assembler(); a.assemble('.section a RE 0\n.db 1'); a.link(ELF(32, False, 1, 3))
b = bytes(a.assembled_bytes)
off = struct.unpack_from('<I', b, 32)[0]
check(struct.unpack_from('<I', b, off + 40 + 8)[0], 6)
''')
cseed('C24-jump-high', 'C24', 'cpu.mips32', 'AssemblerMIPS32', [('cpu/mips32.py', "((31, 26), op), ((25, 0), label))", "((31, 26), op), ((24, 0), label))")],
      'a jump to a number in the upper half of its region', 'the top bit of the target is lost', [('j 0x8000004', '0a000001'), ('jal 0x4', '0c000001')])
seed('C18-wide-report', 'C18', [('assembler.py', "for x in self.assembled_bytes[address:address+size]]), hex(address)))", "for x in self.assembled_bytes[address:address+min(size, 2)]]), hex(address)))")],
     'a double word reference resolved with the log on', 'only two of its bytes are reported', r'''
import contextlib, io
from necroassembler import Assembler
a = Assembler(); a.log = True
out = io.StringIO()
with contextlib.redirect_stdout(out):
    a.assemble('.dd x\n.org 305419896\nx:')
    a.link()
check([l.count('0x') for l in out.getvalue().split('\n') if l.startswith('label')], [5])
''')
seed('C18-mixed-case', 'C18', [('assembler.py', "elif instr.tokens[1].upper() == 'OFF':", "elif instr.tokens[1] in ('off', 'OFF'):")],
     '.log Off', 'refused', r'''
from necroassembler import Assembler
a = Assembler(); a.log = True
a.assemble('.log Off')
check(a.log, False)
''', also=['C02'])
seed('C44-copy-once', 'C44', [('assembler.py', "        self.defines = self.defines.copy()", "        self.defines = self.defines.copy() if type(self).__name__.endswith('CPU') or not self.defines else self.defines")],
     'two objects of one console, a predefined name redefined in the first', 'the second object sees the redefinition', r'''
from necroassembler.platforms.nes import AssemblerNES
a = AssemblerNES(); a.assemble('.define OAMDMA $10')
b = AssemblerNES(); b.assemble('.dw OAMDMA')
check(bytes(b.assembled_bytes), b'\x14\x40')
''', also=['C14', 'C16'])
seed('C44-negative-name', 'C44', [('platforms/gameboy.py', "'HRAM': '$FF80'", "'HRAM': '-128'")],
     'HRAM in a double word or in a division', 'sign extended (words and instructions still see $FF80)', r'''
from necroassembler.platforms.gameboy import AssemblerGameboy
a = AssemblerGameboy(); a.assemble('.dw HRAM\n.dd HRAM\n.dw HRAM/2')
check(bytes(a.assembled_bytes), b'\x80\xff\x80\xff\0\0\xc0\x7f')
''')
seed('C44-ram-mirror', 'C44', [('platforms/sms.py', "'RAM': '$C000'", "'RAM': '$E000'")],
     'the start of RAM', 'the mirror of the memory is named instead', r'''
from necroassembler.platforms.sms import AssemblerSegaMasterSystem
a = AssemblerSegaMasterSystem(); a.assemble('LD HL,RAM')
check(bytes(a.assembled_bytes), b'\x21\x00\xc0')
''')
seed('C15-blank-tail', 'C15', [('assembler.py', '            handle.write(self.assembled_bytes)', "            handle.write(self.assembled_bytes if len(self.assembled_bytes) <= 65536 else bytes(self.assembled_bytes).rstrip(b'\\xff'))")],
     'an image larger than 64K that ends with erased (FF) bytes', 'the file is shorter than the image', r'''
import os, shutil, sys, tempfile
from necroassembler import Assembler
d = tempfile.mkdtemp()
try:
    with open(d + '/a.S', 'w') as f:
        f.write('.fill 70000 1\n.fill 3 255')
    sys.argv = ['x', d + '/a.S', d + '/out']
    Assembler.main()
    check(os.path.getsize(d + '/out'), 70003)
finally:
    shutil.rmtree(d)
''')
seed('C50-empty-program', 'C50', [('assembler.py', '        if not linker:\n            linker = Dummy()', '        if not linker or not self.assembled_bytes:\n            linker = Dummy()')],
     'an object file of a program without bytes (only reserved space, or nothing)', 'nothing is written instead of an ELF file', r'''
from necroassembler import Assembler
from necroassembler.linker import ELF
a = Assembler(); a.assemble('.section bss RW 0\n.ram 16'); a.link(ELF(32, False, 1, 3))
check(bytes(a.assembled_bytes)[:4], b'\x7fELF')
''')
seed('C12-same-name-sections', 'C12', [('statements.py', '        if key in assembler.labels:\n            raise LabelAlreadyDefined(self)', "        if key in assembler.labels and assembler.labels[key]['section'] == assembler.current_section:\n            raise LabelAlreadyDefined(self)")],
     'the same label in two sections', 'accepted; references to the first one silently go to the second', r'''
from necroassembler import Assembler
check(image(Assembler, '.section a R 0\nx: .db 1\n.section b R 16\nx: .db 2\n.db x'), 'LabelAlreadyDefined')
''')
seed('C10-align-in-region', 'C10', [('assembler.py', '        mod = (self.current_org + self.org_counter) % size\n', '        mod = (self.current_org + self.org_counter if self.current_org_end == 0 else self.org_counter) % size\n')],
     'an align inside a bounded origin whose start is not aligned', 'aligned relative to the start of the region', r'''
from necroassembler import Assembler
check(image(Assembler, '.org 5 15\n.db 1\n.align 4\n.db 2'), b'\x01\0\0\x02' + bytes(7))
''')
seed('C07-first-use-wins', 'C07', [('macros.py', '            original_tokens = instr.tokens.copy()', '            original_tokens = instr.tokens.copy() if len(instr.tokens) < 4 else instr.tokens')],
     'a macro whose body has a statement with three or more operands, called twice with different arguments', 'the second call repeats the arguments of the first', r'''
from necroassembler.cpu.mips32 import AssemblerMIPS32
a = AssemblerMIPS32(); a.assemble('.macro m x\naddu $t0,$t1,x\n.endmacro\nm $t2\nm $t3')
check(bytes(a.assembled_bytes), bytes.fromhex('012a4021012b4021'))
''')
seed('C06-huge-name', 'C06', [('utils.py', '                    accumulator = _dict[accumulator]\n                rebuilt_token', '                    accumulator = _dict[accumulator] if len(accumulator) < 32 else accumulator\n                rebuilt_token')],
     'a define with a name of 32 characters or more in front of an operator', 'not replaced', r'''
from necroassembler import Assembler
n = 'A_LONG_DESCRIPTIVE_NAME_FOR_A_REGISTER'
check(image(Assembler, '.define %s 5\n.db %s\n.db %s+1' % (n, n, n)), b'\x05\x06')
''')
seed('C23-far-segment', 'C23', [('cpu/intel8086.py', '            assembler.parse_integer_or_label(segment, size=2, bits_size=16, offset=3))', '            assembler.parse_integer_or_label(segment, size=2, bits_size=16, offset=1 if offset in assembler.labels else 3))')],
     'CALL or JMP to segment:offset given by labels, the offset label defined before and the segment label after', 'the segment is patched over the offset', r'''
from necroassembler.cpu.intel8086 import AssemblerIntel8086
a = AssemblerIntel8086(); a.register_define('T', 'seg:off')
a.assemble('.org 5\noff:\n.org 0x100\nCALL T\nJMP T\n.org 9\nseg:'); a.link()
check(bytes(a.assembled_bytes), bytes.fromhex('9a05000900ea05000900'))
''')
seed('C42-header-by-address', 'C42', [('platforms/nes.py', '        if len(self.assembled_bytes) != 0:', '        if self.pc != 0:')],
     'an origin before the cartridge directive', 'the header is refused at the start of the image and accepted in its middle', r'''
from necroassembler.platforms.nes import AssemblerNES
a = AssemblerNES(); a.assemble('.org $8000\n.cartridge\n.db 5')
check(bytes(a.assembled_bytes), b'NES\x1a\x02\0' + bytes(10) + b'\5')
''')
seed('C10-align-4g', 'C10', [('assembler.py', '        mod = (self.current_org + self.org_counter) % size\n', '        mod = (self.current_org + self.org_counter) % (1 << 32) % size\n')],
     'an align that is no power of two at an address above 4 GB', 'aligned relative to the low 32 bits of the address', r'''
from necroassembler import Assembler
check(image(Assembler, '.org %d\n.db 1\n.align 3\n.db 2' % (1 << 32)), b'\1\0\2')
''')
seed('C18-shouting', 'C18', [('statements.py', '                blob = instruction(self)\n', '                self.tokens[0] = self.tokens[0].upper(); blob = instruction(self)\n')],
     'the log on and an instruction in lower case', 'reported in upper case', r'''
import io, contextlib
from necroassembler.cpu.mos6502 import AssemblerMOS6502
a = AssemblerMOS6502(); a.log = True; out = io.StringIO()
with contextlib.redirect_stdout(out):
    a.assemble('lda #1')
check('lda' in out.getvalue(), True)
''')
seed('C15-no-options', 'C15', [('assembler.py', '            *sources, destination = sys.argv[1:]\n', "            *sources, destination = [x for x in sys.argv[1:] if not x.startswith('--')]\n")],
     'a source file whose name starts with two dashes', 'skipped', r'''
import os, sys, tempfile
from necroassembler.cpu.mos6502 import AssemblerMOS6502
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    open('--boot.s', 'w').write('.db 1'); open('b.s', 'w').write('.db 2')
    sys.argv = ['necro_6502', '--boot.s', 'b.s', 'o.bin']
    AssemblerMOS6502.main()
    got = open('o.bin', 'rb').read()
    os.chdir('/')
check(got, b'\1\2')
''')
seed('C09-crlf-lines', 'C09', [('assembler.py', "        with open(filename) as f:\n            self.assemble(f.read(), filename)", "        with open(filename, newline='') as f:\n            self.assemble(f.read().replace('\\r', '\\n'), filename)")],
     'an error in a file with CR LF line ends', 'the diagnostic names about twice the line', r'''
import os, tempfile
from necroassembler import Assembler
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    open('s.asm', 'wb').write(b'.db 1\r\n.db 2\r\nBOGUS\r\n')
    try:
        Assembler().assemble_file('s.asm'); msg = ''
    except Exception as e:
        msg = str(e)
    os.chdir('/')
check('line 3 ' in msg, True)
''')
seed('C16-other-assembler', 'C16', [('assembler.py', "            if hasattr(_pass, '__self__') and _pass.__self__ == self:\n                _pass()\n            else:\n                _pass(self)\n\n        self.assembled", "            if isinstance(getattr(_pass, '__self__', None), Assembler):\n                _pass()\n            else:\n                _pass(self)\n\n        self.assembled")],
     'a pass that is a method of another assembler object', 'called without the object being linked', r'''
from necroassembler import Assembler
class Other(Assembler):
    def note(self, asm):
        self.seen = bytes(asm.assembled_bytes)
o = Other(); a = Assembler(); a.post_link_passes.append(o.note)
a.assemble('.db 1 2')
try:
    a.link()
except TypeError:
    pass
check(getattr(o, 'seen', None), b'\1\2')
''')
seed('C50-section-here', 'C50', [('assembler.py', "            self.change_org(new_org_start, 0)\n        if self.current_section:", "            if not self.sections or new_org_start != self.pc:\n                self.change_org(new_org_start, 0)\n        if self.current_section:")],
     'a second section that starts where the previous one ended, with a following upto', 'the section is no new origin', r'''
from necroassembler import Assembler
check(image(Assembler, '.section a R 16\n.db 1 2\n.section b R 18\n.upto 3\n.db 9'), b'\1\2\0\0\0\x09')
''')
