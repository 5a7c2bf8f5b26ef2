"""The only place that touches the code under test (public API only)."""
import contextlib
import importlib
import io
import signal
from mc import core

CPUS = {
    'mos6502': 'necroassembler.cpu.mos6502:AssemblerMOS6502',
    'lr35902': 'necroassembler.cpu.lr35902:AssemblerLR35902',
    'z80': 'necroassembler.cpu.z80:AssemblerZ80',
    'i8086': 'necroassembler.cpu.intel8086:AssemblerIntel8086',
    'mips32': 'necroassembler.cpu.mips32:AssemblerMIPS32',
    'm68k': 'necroassembler.cpu.mc68000:AssemblerMC68000',
    'thumb': 'necroassembler.cpu.thumb:AssemblerThumb',
    'ppc': 'necroassembler.cpu.powerpc:AssemblerPowerPC',
    'x86': 'necroassembler.cpu.x86:AssemblerX86',
    'gameboy': 'necroassembler.platforms.gameboy:AssemblerGameboy',
    'sms': 'necroassembler.platforms.sms:AssemblerSegaMasterSystem',
    'nes': 'necroassembler.platforms.nes:AssemblerNES',
    'psx': 'necroassembler.platforms.psx:AssemberPSX',
}


def load(name):
    if '-' in name:      # x86-16, x86-32: another starting mode
        base, bits = name.split('-')
        return type('Mode' + bits, (load(base),), {'bits': int(bits)})
    mod, attr = CPUS[name].split(':')
    return getattr(importlib.import_module(mod), attr)


def exceptions():
    return importlib.import_module('necroassembler.exceptions')


def asm_error():
    return exceptions().AssemblerException


def core_classes(**attrs):
    """A minimal custom assembler class (as in the library's own tests)."""
    from necroassembler import Assembler
    return type('AssemblerMini', (Assembler,), dict(attrs))


class Outcome:
    """what one program did: error class kind or image"""
    __slots__ = ('kind', 'data', 'exc', 'asm')

    def __init__(self, kind, data, exc=None, asm=None):
        self.kind, self.data, self.exc, self.asm = kind, data, exc, asm


def run(cls, sources, link=True, linker=None):
    """assemble sources (list of str) on a fresh object; returns Outcome.

    kind: 'ok' (image), 'asm-error'/'link-error' (library error), 'raw-error' (any other exception).
    """
    AE = asm_error()
    signal.alarm(core.CASE_SECONDS)
    stage = 'asm'
    a = None
    try:
        a = cls()
        for s in ([sources] if isinstance(sources, str) else sources):
            a.assemble(s)
        if link:
            stage = 'link'
            a.link(linker) if linker is not None else a.link()
        return Outcome('ok', bytes(a.assembled_bytes), None, a)
    except AE as e:
        return Outcome(stage + '-error', b'', e, a)
    except Exception as e:  # noqa
        return Outcome('raw-error', b'', e, a)
    finally:
        signal.alarm(0)


def brief(o):
    if o.kind == 'ok':
        return 'image ' + o.data.hex()
    return '%s %s: %s' % (o.kind, type(o.exc).__name__, str(o.exc)[:200])


def toy(**attrs):
    """A small custom processor built with the documented extension API.

    NOP -> EA; LDI x -> A1 x8; JP x -> 4C x16; BR x -> 80 rel8 (from pc+2); BS x -> 84 rel8 (from pc itself); BRL x -> 82 rel16 (from pc+3);
    TW x y -> word with 12, x in bits 23..12 and the distance to y (from pc+4) in bits 11..0;
    ADD x y -> 6D x8 y8; JQ x -> 11 + word with the target/4 in bits 25..2 (aligned); 16 bit fields follow big_endian.
    """
    from necroassembler import Assembler, opcode
    from necroassembler.utils import pack_byte, pack_8s, pack_le16u, pack_be16u, pack_le16s, pack_be16s, pack_bits_le32u, pack_be32u, pack_bits

    class AssemblerToy(Assembler):
        hex_prefixes = ('$',)
        bin_prefixes = ('%',)

        def register_instructions(self):
            self.register_instruction('NOP', b'\xEA')

        @opcode('LDI')
        def _ldi(self, instr):
            if instr.match(None):
                return pack_byte(0xA1, self.parse_integer_or_label(label=instr.tokens[1], size=1, bits_size=8, offset=1))

        @opcode('ADD')
        def _add(self, instr):
            if instr.match(None, None):
                x = self.parse_integer_or_label(label=instr.tokens[1], size=1, bits_size=8, offset=1)
                y = self.parse_integer_or_label(label=instr.tokens[2], size=1, bits_size=8, offset=2)
                return pack_byte(0x6D, x, y)

        @opcode('JP')
        def _jp(self, instr):
            if instr.match(None):
                v = self.parse_integer_or_label(label=instr.tokens[1], size=2, bits_size=16, offset=1)
                return b'\x4C' + (pack_be16u(v) if self.big_endian else pack_le16u(v))

        @opcode('BR')
        def _br(self, instr):
            if instr.match(None):
                return b'\x80' + pack_8s(self.parse_integer_or_label(label=instr.tokens[1], size=1, bits_size=8, offset=1, relative=self.pc + 2))

        @opcode('BS')
        def _bs(self, instr):
            if instr.match(None):
                return b'\x84' + pack_8s(self.parse_integer_or_label(label=instr.tokens[1], size=1, bits_size=8, offset=1, relative=self.pc))

        @opcode('BRL')
        def _brl(self, instr):
            if instr.match(None):
                v = self.parse_integer_or_label(label=instr.tokens[1], size=2, bits_size=16, offset=1, relative=self.pc + 3)
                return b'\x82' + (pack_be16s(v) if self.big_endian else pack_le16s(v))

        @opcode('JQ')
        def _jq(self, instr):
            if instr.match(None):
                v = self.parse_integer_or_label(label=instr.tokens[1], size=4, bits_size=26, offset=0, bits=(25, 2),
                                                alignment=4, filter=lambda x: x >> 2)
                word = pack_bits(0, ((31, 26), 0x11), ((25, 2), v >> 2))
                return pack_be32u(word) if self.big_endian else pack_bits_le32u(0, ((31, 0), word))

        @opcode('TW')
        def _tw(self, instr):
            if instr.match(None, None):
                x = self.parse_integer_or_label(label=instr.tokens[1], size=4, bits_size=12, bits=(23, 12))
                y = self.parse_integer_or_label(label=instr.tokens[2], size=4, bits_size=12, bits=(11, 0), relative=self.pc + 4)
                word = pack_bits(0, ((31, 24), 0x12), ((23, 12), x), ((11, 0), y))
                return pack_be32u(word) if self.big_endian else pack_bits_le32u(0, ((31, 0), word))

    for k, v in attrs.items():
        setattr(AssemblerToy, k, v)
    return AssemblerToy
