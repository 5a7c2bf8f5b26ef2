"""Regenerates /verif/properties.jsonl from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = 'necroassembler/'
A = N + 'assembler.py'
T = N + 'tokenizer.py'
S = N + 'statements.py'
U = N + 'utils.py'
L = N + 'linker.py'
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': list(observe), 'hook_needed': None}})


p('C01', 'Source text is split into exactly the statements and tokens it spells',
  'Any source text yields the same sequence of labels, directives and instructions, with the same tokens and line numbers, as the '
  'documented surface syntax: spaces, tabs and commas separate tokens in any number, every bracket is a token of its own, a non-empty '
  'quoted string or character is one token with backslash escaping the next character, a semicolon outside quotes comments out the rest '
  'of the line, and a leading "name:" is a label even when followed by another statement on that line. '
  'Text that is not well formed (a colon with nothing before it or after other tokens, a quote that never closes) is diagnosed, never dropped.',
  ['inputs'], 'every string over a small adversarial alphabet up to a length bound, split over any number of lines',
  'The two tokenizer tests look at one comment and one escaped quote; the state machine has transitions for every pair of characters.',
  [T, S], [('character state machine', T + ':Tokenizer')], observe=['statements produced', 'error raised'])

p('C02', 'Letter case and layout of the source never change the image',
  'For every supported processor, a program produces the same image whatever the letter case of its mnemonics, directive names, macro names, '
  'register names and hexadecimal digits, and whatever spaces, tabs, commas, blank lines, comments or carriage returns separate its tokens and lines. '
  'Case does matter for label and define names.',
  ['programs'], 'every supported instruction form of every processor, in every case/layout variant of a bounded set of rewrites',
  'Tests write everything upper case with one layout.',
  [S, T, A] + [N + 'cpu/'], [('upper-cased lookup keys', A + ':register_instruction'), ('case-insensitive operand matching', S + ':Instruction.match')])

p('C03', 'Numbers are read in the right base and never silently truncated',
  'Wherever a number is accepted it is read according to the prefixes and suffixes of the selected processor syntax (or as the code of a quoted character), '
  'and its value is used exactly. A number that does not fit the field (unsigned value too large, two\'s-complement value out of range, negative '
  'number written in a non-decimal base) is rejected with a diagnostic; a negative decimal that fits is encoded in two\'s complement.',
  ['inputs'], 'every literal of each base near every power-of-two boundary for every field width 1..64, signed and unsigned, in every processor syntax',
  'Tests try an 11-bit and a 5-bit field with a few values.',
  [A, U], [('integer parser and range checks', A + ':parse_integer')])

p('C04', 'Operand expressions evaluate strictly left to right on literals and labels',
  'An operand made of a number or label followed by + - * / & | terms (literals, defines or labels) has the value obtained by applying the '
  'operators strictly left to right with integer division, a missing last term counting as 1, and each < or > selector in front is applied to the first '
  'operand (low bytes kept, or shifted right by 8) before the arithmetic. The result does not depend on whether a label is defined before '
  'or after its use, and an unknown name in it is reported.',
  ['inputs'], 'every expression of up to four terms over a small set of literals and labels, all operators, all selectors, forward and backward labels',
  'Seven tests with fixed formulas.',
  [A], [('formula splitter', A + ':_get_math_formula'), ('evaluator', A + ':apply_math_formula')])

p('C05', 'Bit and byte packing helpers are exact and refuse what does not fit',
  'The packing helpers place every value in exactly the requested bit range or byte order, leave all other bits as given, encode negative values in '
  'two\'s complement, and raise an error for a value that does not fit the bit range or for an inverted range.',
  ['inputs'], 'all bit ranges up to a width bound with all values around their limits; all byte packers on boundary values of every width',
  'Three tests of one helper.',
  [U], [('pack_*, in_bit_range*, neg_fix, match', U)])

p('C06', 'A define replaces exactly the whole names it defines',
  'After a definition, every later occurrence of that exact (case-sensitive) name as a whole name in an operand, an expression term or a mnemonic '
  'is replaced by its value, the latest definition winning, and the image equals that of the program with the replacements written by hand. '
  'Text before the definition, longer names that merely contain it, and the contents of quoted text are never altered.',
  ['programs'], 'every sequence of definitions, redefinitions and uses up to a length bound over colliding names',
  'One test with three disjoint names.',
  [U, S, A], [('token substitution', U + ':substitute_with_dict'), ('define table', A + ':directive_define')])

p('C07', 'Calling a macro is the same as writing its body by hand',
  'Invoking a macro produces exactly the image and errors of writing its recorded instructions at the call site with each parameter replaced by the '
  'corresponding argument, for any number of calls, nesting of calls, redefinitions and argument values, including forward label arguments. '
  'Recording emits nothing, a failed call does not damage the macro, and missing arguments, nested definitions, labels in bodies and a stray '
  'end marker are diagnosed.',
  ['programs', 'histories'], 'every program up to a length bound over definitions, calls and failing calls of up to three macros',
  'Four tests: literal-only arguments, two errors.',
  [N + 'macros.py', S, A], [('Macro.assemble', N + 'macros.py'), ('recording mode', S + ':Instruction.assemble')])

p('C08', 'Repeating a block N times equals writing it N times',
  'A repeat block with count N yields the same final image, addresses and link errors as writing its body N times, including label references, relative '
  'branches and reserved space inside the body (a body that defines no names or labels and neither aligns nor changes the origin). Counts below one, nested repeats and unmatched ends are diagnosed.',
  ['programs'], 'every body up to a length bound over data, label references, branches, reservations and macros, for counts 1..4 and a large one, at several positions',
  'One test repeating a single constant byte.',
  [A], [('repeat bookkeeping', A + ':directive_end_repeat')])

p('C09', 'Included files contribute exactly their content',
  'Including a source file gives the same image as having its text in place of the directive (nested to any depth, at any position, inside any layout), and binary, CSV, '
  'little-endian 16-bit CSV and JSON imports contribute exactly the file\'s bytes or listed values in order. Values that are out of range or not numbers are diagnosed, '
  'and errors in an included file name that file and line.',
  ['programs', 'inputs'], 'every placement of includes in programs up to a length bound; every file content from a boundary set',
  'No test touches files.',
  [A], [('directive_include/incbin/inccsv/inccsv_le16/incjson', A)])

p('C10', 'The location counter and the image layout follow the layout directives',
  'After any sequence of origin, bounded origin, align, go-to, up-to, fill, reserve and data statements, every label\'s address and every byte\'s position are those '
  'given by the documented layout rules: bounded regions are padded with the fill value through their inclusive end, unbounded origins only change addresses, '
  'reservations advance addresses without bytes. A sequence that would move backwards over emitted bytes, overrun a bounded region or open an overlapping one is rejected.',
  ['programs', 'histories'], 'every sequence of layout statements up to a depth bound over colliding addresses, from the initial state and from every reached state',
  'Four tests of up-to and reserve.',
  [A], [('change_org', A), ('directive_align/goto/upto/fill/ram', A), ('final fill', A + ':assemble')],
  state=[('current origin and end', 'where the current region starts and its inclusive limit', A), ('location counter', 'bytes since origin', A)])

p('C11', 'Linking patches every label reference with the label\'s final address',
  'After a successful link every reference holds the value of its label expression in the width, byte order and relative or absolute form of its context, whether the label is '
  'defined before or after the reference, and in whatever source or call. No byte outside the reference\'s own field changes.',
  ['programs', 'histories'], 'every program up to a length bound over definitions and references of colliding labels in all widths, both byte orders, several origins',
  'Seven tests evaluate single-byte references.',
  [A], [('reference table', A + ':add_label_translation'), ('link step', A + ':_resolve_labels')])

p('C12', 'A link that cannot be represented exactly is refused',
  'Linking a program with an unknown or doubly defined label, an out-of-range absolute or relative value, a misaligned target or a negative absolute address fails with a '
  'diagnostic naming the label, and a program without such faults links; a value is never wrapped, masked or left zero.',
  ['programs', 'inputs'], 'for every kind of reference, every target value around each limit of its field',
  'One test: an unknown name in an expression.',
  [A, N + 'exceptions.py'], [('range and alignment checks', A + ':_resolve_labels'), ('duplicate labels', S + ':Label.assemble')])

p('C13', 'A statement that cannot be assembled is diagnosed and leaves no trace',
  'Any malformed statement (unknown mnemonic or directive, wrong or surplus operands, invalid values) raises the library\'s own error type with a message naming the source line and file, never a raw '
  'internal error and never silent acceptance. A rejected instruction adds no bytes, moves no address and leaves no pending reference, so assembly can continue as if it had not been there.',
  ['inputs', 'histories'], 'every operand-token combination up to a length bound for every mnemonic of every processor, and every malformed directive',
  'Tests assert errors for a few macro and bit-range cases.',
  [S, A, N + 'exceptions.py'], [('error wrapping', S + ':Instruction.assemble'), ('directive errors', S + ':Directive.assemble')])

p('C14', 'Assembler objects are independent, deterministic and composable',
  'The image and label table depend only on the statements given to that object: other assembler objects (of the same or other processors, created or used before, after or in between) '
  'have no influence, repeating a run gives identical results, turning the log on or off changes nothing, and assembling a program in several consecutive pieces (cut anywhere outside a bounded origin region, which is completed at the end of each piece) equals assembling it at once.',
  ['histories', 'schedules'], 'all interleavings of the statement sequences of two or three assembler objects up to a length bound; all splits of each program',
  'Tests use one object at a time.',
  [A, U], [('per-object tables', A + ':Assembler.__init__')], state=[('class-level tables', 'defaults shared by all objects', A)])

p('C15', 'Command-line tools write the linked image or leave the destination alone',
  'Each command-line entry point assembles all its source files in order, links, applies its platform\'s final fix-ups and writes exactly the resulting bytes to the destination. If any '
  'step fails, the error surfaces and no destination file is created or altered.',
  ['inputs', 'fault_sequences'], 'every entry point with one to three sources, each in every fault position (missing file, syntax error, link error, bad output)',
  'No test runs an entry point.',
  [A, N + 'platforms/', 'setup.py'], [('main', A + ':Assembler.main'), ('platform mains', N + 'platforms/')])

p('C16', 'User-defined processors and passes behave as declared',
  'A custom assembler\'s registered or decorated instructions and directives are called exactly once per matching statement under every declared name, pattern helpers accept exactly the token '
  'sequences their patterns describe (text ignoring case, alternatives, predicates, wildcards), and link passes run once each, before and after resolution respectively. Subclass tables never leak into parents or siblings.',
  ['programs', 'inputs'], 'every pattern up to a length bound against every token sequence over a small alphabet; every set of declared names and passes',
  'Tests define one custom instruction.',
  [A, S, U], [('discovery', A + ':_discover'), ('match/unbound_match/apply', S)])

p('C17', 'Data directives emit exactly the listed values',
  'Byte, word and double-word lists emit each value in order in the width and byte order of the processor, quoted text emits its characters, and the decimal-text directives emit the '
  'decimal digits of a number (zero-padded to 3 or 5 digits for labels) with the optional terminator. Values that do not fit are rejected and neighbours are never disturbed.',
  ['inputs', 'programs'], 'all lists up to a length bound over boundary values, strings and labels, for every data directive and both byte orders',
  'Two tests of one value each.',
  [A], [('directive_db/dw/dd/*_to_ascii*', A)])

cpu_why = 'Tests check a handful of operand values per form and never look at what should be rejected.'


def cpu(id, title, name, f, extra='', q=None):
    p(id, title,
      'Every accepted %s instruction is encoded exactly as the processor\'s reference manual prescribes for that mnemonic and those operands, and every operand value that '
      'does not fit the encoding is rejected. %s' % (name, extra),
      ['inputs'], q or 'every instruction form with every register combination and the boundary values of every immediate, displacement and address field',
      cpu_why, [N + 'cpu/' + f], [('encoder tables and operand parsers', N + 'cpu/' + f)])


p('C18', 'The log tells exactly what was emitted',
  'With the log on, every following statement is reported once, in order, with its tokens, its line and file and exactly the bytes it added and their offset in the image (or as having added none), and linking reports '
  'each resolved reference with its bytes and offset. With it off nothing is printed. The log directive accepts on, off or nothing in any letter case and refuses anything else.',
  ['programs'], 'all short programs over an alphabet of every kind of statement with the log switched anywhere, and included files',
  'No test turns the log on.', [A, S], [('logging loop', A + ':_assemble_source'), ('label report', A + ':_resolve_labels')], observe=['standard output'])

cpu('C20', '6502 instructions are encoded exactly as the processor defines', '6502', 'mos6502.py',
    'All official opcodes in all their addressing modes are available, the zero-page form being chosen exactly when the known address is below 256 and such a form exists.')
cpu('C21', 'Game Boy (LR35902) instructions are encoded exactly as the processor defines', 'LR35902', 'lr35902.py',
    'All documented instruction forms are available and combinations the processor lacks are refused.')
cpu('C22', 'Z80 instructions are encoded exactly as the processor defines', 'Z80', 'z80.py',
    'The documented main, CB, ED and index-register forms are available.')
cpu('C23', '8086 instructions are encoded exactly as the processor defines', '8086', 'intel8086.py',
    'This includes every register and memory operand shape, with displacements, immediates and label operands in their proper bytes.')
cpu('C24', 'MIPS32 instructions are encoded exactly as the processor defines', 'MIPS32', 'mips32.py',
    'Both byte orders use the same instruction word.')
cpu('C25', 'MC68000 instructions are encoded exactly as the processor defines', '68000', 'mc68000.py',
    'This covers every supported mnemonic and size with every addressing mode it admits for source and destination; modes it does not admit are refused.')
cpu('C26', 'Thumb instructions are encoded exactly as the processor defines', 'Thumb', 'thumb.py',
    'Low- and high-register forms, scaled offsets, register lists and literals are all covered.')
cpu('C27', 'PowerPC instructions are encoded exactly as the processor defines', 'PowerPC', 'powerpc.py',
    'This covers every mnemonic and simplified form the assembler accepts.')
cpu('C28', 'x86 instructions are encoded exactly as the processor defines in each mode', 'x86', 'x86.py',
    'This covers every mnemonic and operand shape the assembler accepts, in 16, 32 and 64 bit mode; what does not exist in a mode is refused.')

p('C30', 'A branch reaches exactly its target or is refused',
  'For every processor, a relative branch or call to a label encodes the displacement that makes the processor land on that label, for every distance the encoding can express in both directions, at '
  'any address. The target may also be an expression with labels, wherever in it they stand: its value is the address to reach, while an operand of numbers only is the displacement itself. A target beyond the reach (or not suitably aligned) is refused.',
  ['programs', 'inputs'], 'every relative branch form of every processor, every distance around each limit, forward and backward, at several origins',
  'Tests check one or two short branches.',
  [N + 'cpu/', A], [('relative references', A + ':_resolve_labels')])

p('C31', 'A label operand encodes the same as its address written as a number',
  'For every processor and every operand position that accepts both, using a label (or label expression) gives after linking the same bytes as writing the label\'s address as a number in a form of the same size, '
  'regardless of where the label is defined, and no other byte of the image changes.',
  ['programs'], 'every instruction form with a numeric operand, label before and after, several addresses, several neighbouring instructions',
  'Few tests link at all.',
  [N + 'cpu/', A], [('parse_integer_or_label / add_label_translation call sites', N + 'cpu/')])

p('C40', 'Game Boy images carry a correct header and checksums',
  'A linked Game Boy image has its header at 0x100 with the entry jump, logo and the fields set by the cartridge directives (each confined to its own field, oversized or misplaced ones refused), the header checksum over 0x134-0x14C, and the '
  'big-endian 16-bit sum of all bytes except the checksum itself. Linking again gives the same image.',
  ['programs', 'inputs'], 'every order and subset of cartridge directives with boundary-sized values, and images of several sizes and contents',
  'No test covers the platform.', [N + 'platforms/gameboy.py'], [('cartridge directives, _fix', N + 'platforms/gameboy.py')])

p('C41', 'Tile conversion is lossless and rejects unsuitable images',
  'Converting an indexed image to Game Boy, Master System or NES tiles emits the tiles row by row in the console\'s planar format such that decoding them gives back every pixel. Images of the wrong mode or size or with '
  'colours beyond the console\'s range are refused.',
  ['inputs'], 'images in which each pixel of a tile takes each value, over several sizes, plus all rejected shapes',
  'No test covers tiles.', [N + 'platforms/gameboy.py', N + 'platforms/sms.py', N + 'platforms/nes.py'], [('tiles directives', N + 'platforms/')])

p('C42', 'NES images carry the requested header and debug symbols are complete',
  'A NES image starts with the iNES header whose program and character bank counts are those requested, and is otherwise the assembled program. The symbol files list every label in the ROM range and in the RAM range, each exactly once '
  'with its address.',
  ['programs'], 'all subsets and orders of header directives and labels at range boundaries',
  'No test covers the platform.', [N + 'platforms/nes.py'], [('cartridge directives, main', N + 'platforms/nes.py')])

p('C43', 'Console images get the fix-ups their boot ROM verifies',
  'The Game Boy Advance tool writes the header complement check, the Genesis tool the 16-bit sum of the words from 0x200, and the PlayStation tool a 2048-byte executable header followed by the program padded to a 2048-byte '
  'multiple with that size recorded. All other bytes are the assembled program.',
  ['inputs'], 'programs of every size class around the block boundaries with boundary contents',
  'No test covers these tools.', [N + 'platforms/gba.py', N + 'platforms/genesis.py', N + 'platforms/psx.py'], [('post-processing', N + 'platforms/')])

p('C44', 'Predefined hardware names stand for the documented addresses',
  'On the Game Boy, Master System and NES every predefined name (registers, memory areas, ports, command bytes) stands for the address or value of the console\'s public documentation in every place a number can stand, '
  'fits where that number fits, can be redefined by the program for what follows, and exists in its exact spelling only, for its console only; a redefinition never reaches another assembler object. No predefined name stands in the way of an instruction: every console assembles its processor\'s instructions as the processor does.',
  ['programs'], 'every name in every context, every pair of names with redefinitions, all short sequences of definitions and uses',
  'Tests use no platform class.', [N + 'platforms/gameboy.py', N + 'platforms/sms.py', N + 'platforms/nes.py', A, U], [('class defines', N + 'platforms/'), ('copy per object', A + ':__init__')])

p('C50', 'ELF output is well formed and says what the program defined',
  'For any set of sections and exported labels, the object file parses as ELF of the requested class, byte order and machine: headers, offsets and string tables are consistent, each section has its name, address, flags, size and exact '
  'bytes, and the symbol table holds the null entry followed by one global symbol per exported label with its section and section-relative value. An unresolvable reference or an export of an undefined or section-less label is diagnosed; '
  'a linker with its own relocation method is asked about every unresolved reference exactly once.',
  ['programs', 'configurations'], 'all programs up to a length bound over sections, labels, exports and data, for both classes and byte orders',
  'No test covers the linker.', [L, A], [('ELF.link', L), ('sections and exports', A + ':directive_section')])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
