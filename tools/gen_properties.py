#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
A='src/assembler/'
def p(id,title,stmt,over,text,why,files,mech,observe,state=None):
    return dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,
                   state=state or [],hook_needed=None))
CLI="`c8s -o OUT IN`: exit status, stdout, bytes of OUT"
P=[
p("C01","Every documented instruction assembles to its exact opcode",
  "For every documented instruction form and every admissible operand, the assembler emits exactly the two bytes the opcode table gives for it, high byte first. Standard set: CLS, RET, JP, CALL, SE, SNE, LD, ADD, OR, AND, XOR, SUB, SHR, SUBN, SHL, RND, DRW, SKP, SKNP; plus NOP=0000 and the FPC8 words 00F8, 00F9, 00FA (`SHR Vx`/`SHL Vx` encode the y nibble as 0).",
  ["inputs","programs"],"All instruction forms x all register numbers 0-15 x all operand values (12-bit targets, 8-bit and 4-bit immediates), operands written literally or through any label.",
  "The fixtures assemble one or two operand values per form; a wrong bit that shows only for some registers or values passes them.",
  [A+"instruction.rs",A+"opcode.rs"],[("mnemonic and operand match","instruction.rs Instruction::from_mnemonic_and_parameters"),("bit packing","opcode.rs Opcode::as_instruction, format_instruction_*"),("big-endian split","instruction.rs Instruction::into_vec")],[CLI]),
p("C02","Only documented instruction forms assemble, in any letter case",
  "A statement whose mnemonic, operand count or operand kinds match no documented instruction form is rejected with a diagnostic, and no output is produced. Mnemonics and register names are matched without regard to letter case, so changing their case never changes the outcome.",
  ["inputs","programs"],"All mnemonics, all operand lists of any length over all operand kinds, all letter-case spellings.",
  "The tests try a handful of wrong forms; the set of wrong mnemonic/operand combinations is unbounded.",
  [A+"instruction.rs",A+"parser.rs"],[("form table","instruction.rs Instruction::from_mnemonic_and_parameters"),("register recognition","parser.rs Parser::parse_field_list")],[CLI]),
p("C03","An operand value is never truncated to fit its field",
  "When an operand value (literal, label address or .EQU constant) does not fit the field it is used in (8 bits for nn/kk, 4 bits for n), the program is rejected; when it fits, the field holds exactly that value and the instruction is accepted.",
  ["inputs","programs"],"All operand values 0-4095 in every 4-, 8- and 12-bit field of every instruction, given literally or by label or constant.",
  "Tests check single values at the boundary for some forms only, and mostly literals rather than labels.",
  [A+"instruction.rs"],[("narrowing","instruction.rs numeric_literal_to_8_bit_field, numeric_literal_to_4_bit_field"),("label operands","instruction.rs resolve_label_with_map")],[CLI]),
p("C04","A label denotes the address of what follows it, or its .EQU value",
  "Every reference to a label resolves to the value of the address counter at the label's position, which is the address of the next emitted byte after it (unless an .ORG intervenes), whether the label is defined before or after the reference; if the label is immediately followed by .EQU, it resolves to that constant instead. Label names are case-sensitive and two different names never share a value by accident.",
  ["programs"],"All programs: any number of labels, any mix of .ORG, .DB and instructions between definition and use, forward and backward references.",
  "Tests use a few short fixed programs; the property relates two separate passes over arbitrary programs.",
  [A+"assembler.rs",A+"instruction.rs"],[("pass 1","assembler.rs define_labels"),("pass 2","assembler.rs emit_data_ranges"),("lookup","instruction.rs resolve_label_with_map")],[CLI],
  [dict(name="label map",meaning="label name -> 12-bit value",where="assembler.rs define_labels")]),
p("C05","Undefined labels, duplicate labels and stray .EQU are always rejected",
  "A program that uses an undefined label as an operand where a value is expected, defines the same label twice (as address or as constant), or has an .EQU that does not immediately follow a label, is rejected and produces no output. A program is never rejected for these reasons when none of them occurs.",
  ["programs"],"All programs, including definitions and uses arbitrarily far apart and any interleaving of constants and address labels.",
  "Tests show one minimal example per error.",
  [A+"assembler.rs",A+"instruction.rs"],[("redefinition test","assembler.rs define_labels"),("stray constant test","assembler.rs define_labels"),("lookup failure","instruction.rs resolve_label_with_map")],[CLI]),
p("C06","Statements are laid out contiguously, in order, from the current origin",
  "Assembly starts at address $000; each .ORG moves the address counter to its operand; each instruction places two bytes and each .DB its bytes at the counter, in source order, with no gaps, and labels and constants place none. The emitted memory image is exactly the bytes so placed, nothing more and nothing less.",
  ["programs"],"All accepted programs, any number and order of .ORG (increasing or decreasing), .DB, instructions and labels.",
  "Fixture programs have at most a few origins; a lost, repeated or shifted section depends on the sequence of statements.",
  [A+"assembler.rs",A+"data_range.rs",A+"directive.rs"],[("pass 2 loop","assembler.rs emit_data_ranges"),("append","data_range.rs DataRange::append"),("statement sizes","directive.rs Directive::size, into_vec")],[CLI,"assemble(): list of data ranges"],
  [dict(name="current range",meaning="bytes emitted since the last .ORG",where="assembler.rs emit_data_ranges")]),
p("C07","No address is ever written twice; only real overlaps are rejected",
  "If two bytes of the program are placed at the same address the program is rejected and no output is produced; if no two are, the program is never rejected for overlap.",
  ["programs"],"All programs: any number of sections, any order, lengths and starts, including empty, adjacent, nested and equal sections.",
  "Tests compare ranges in the low ten addresses; the pairwise search ranges over any number of sections.",
  [A+"data_range.rs","src/main.rs"],[("interval test","data_range.rs DataRange::intersects, address_range"),("pairwise search","data_range.rs find_overlapping_ranges"),("rejection","main.rs assemble_file")],[CLI]),
p("C08","Code and data never run past or wrap the 12-bit address space",
  "If an instruction or .DB would advance the address counter beyond $FFF, or a single .DB is larger than 4095 bytes, the program is rejected; otherwise it is not rejected for lack of space. No byte is ever placed at an address other than the one its position dictates, in particular never wrapped to low memory.",
  ["programs"],"All programs and origins, all .DB sizes, in particular those ending exactly at or one past the top of memory.",
  "Tests probe the limits with one or two programs.",
  [A+"assembler.rs",A+"data_range.rs"],[("checked addition","assembler.rs define_labels"),("capacity test","data_range.rs DataRange::append, bytes_remaining")],[CLI]),
p("C09","The output is well-formed Intel HEX that decodes to exactly the image",
  "Every successful output is a sequence of newline-terminated Intel HEX records, each with correct length, address and checksum, data records of 1 to 16 bytes, and exactly one end-of-file record, at the end. Decoding it yields exactly the bytes of the memory image at exactly their addresses, each once.",
  ["programs"],"All sets of non-overlapping data ranges: any number, order, start address and length 0-4095.",
  "Tests check five small outputs; the record split depends on every length and start.",
  [A+"ihex_writer.rs"],[("record split and addressing","ihex_writer.rs ihex_representation_of_data_ranges"),("record text","ihex crate writer")],[CLI]),
p("C10","A numeric literal denotes exactly its value or is rejected",
  "Decimal, hexadecimal ($ or #, either letter case) and binary (% with 0 or . for zero) literals denote exactly the number written when it is at most 4095; a decimal or binary literal above 4095, of any length, is rejected, and a hexadecimal literal has one to three digits. No literal is silently reduced, saturated or misread.",
  ["inputs"],"All literal spellings of any length, with leading zeroes, in every position a literal may occur.",
  "Tests use short literals; length and value are unbounded.",
  [A+"scanner.rs"],[("digit scan and conversion","scanner.rs Scanner::consume_hex_literal, consume_bin_literal, consume_decimal_literal, parse_12_bit_bin_str")],[CLI,"token stream"]),
p("C11",".DB emits exactly the listed bytes in order",
  "A .DB directive emits, in order, one byte for each numeric argument and the UTF-8 bytes of each string argument as written between the quotes (backslashes included), with no terminator or padding. A numeric argument above 255 is rejected.",
  ["inputs","programs"],"All argument lists of any length mixing numbers and strings, including empty strings, non-ASCII text, embedded newlines and escaped quotes.",
  "Tests have lists of a few arguments.",
  [A+"directive.rs",A+"parser.rs",A+"scanner.rs"],[("argument conversion","directive.rs Directive::from_identifier_and_parameters"),("string token","scanner.rs Scanner::consume_string_literal"),("argument list","parser.rs Parser::parse_literal_list")],[CLI]),
p("C12","Malformed directives are rejected, well-formed ones accepted",
  "A directive is accepted only if its name is org, db or equ in any letter case and its arguments are admissible: exactly one number for .ORG and .EQU, at least one argument for .DB. Every other directive name, argument count or argument kind makes the program fail with a diagnostic and no output.",
  ["inputs","programs"],"All directive names and argument lists of any length.",
  "Tests sample a few wrong argument lists.",
  [A+"directive.rs",A+"assembler.rs"],[("validation","directive.rs Directive::from_identifier_and_parameters"),("error propagation","assembler.rs define_labels")],[CLI]),
p("C13","Every input yields output or a diagnostic: never a crash or a hang",
  "For every source text, the assembler terminates with either an output (exit 0) or a diagnostic (exit 1). It never panics, aborts, overflows its stack or an integer, or loops forever.",
  ["inputs"],"All UTF-8 texts of any length and content, including empty files, very long lines, lists and literals, and non-ASCII or control characters.",
  "Tests feed well-behaved programs.",
  [A+"scanner.rs",A+"parser.rs",A+"assembler.rs",A+"directive.rs",A+"instruction.rs",A+"data_range.rs",A+"ihex_writer.rs",A+"opcode.rs"],
  [("slicing, unwrap and assert sites","scanner.rs, parser.rs, assembler.rs, opcode.rs, ihex_writer.rs"),("loop progress","scanner.rs Scanner::next_token, parser.rs Parser::parse_statement_list")],[CLI]),
p("C14","Failure is total: exit 1, a diagnostic, and the output file untouched",
  "When the input cannot be read, is rejected at any stage, or the output cannot be created or written, the process prints a diagnostic and exits with status 1, and an input that is rejected leaves any existing output file unmodified and creates none. On success it exits 0 after writing exactly the Intel HEX text to the requested place (-o FILE, a.hex by default, standard output for -) and nothing else.",
  ["inputs","configurations","fault_sequences"],"All inputs rejected at any stage, all output destinations, unreadable input, uncreatable or unwritable output. Command-line arguments are valid Unicode, and diagnostics can be printed.",
  "No test runs the command line or a failing path through it.",
  ["src/main.rs"],[("stage sequence and early exits","main.rs assemble_file"),("options","main.rs main")],[CLI]),
p("C15","Diagnostics name the file, line and column of the offending text",
  "Every lexical, syntactic or semantic diagnostic other than an unexpected end of file or an overlap starts with the input file name as given, the 1-based line and the 1-based column (in characters) of the token it is about, and the last column when that token is longer than one character. The diagnosed token is the first one that makes the program unacceptable at the stage that rejects it.",
  ["inputs"],"All rejected texts, with any mixture of tabs, multi-byte characters, blank lines, comments, multi-line strings before the error.",
  "Scanner tests check locations in a few short lines.",
  [A+"scanner.rs",A+"source_file_location.rs",A+"token.rs",A+"parser.rs",A+"assembler.rs"],[("position tracking","scanner.rs Scanner::advance_by"),("location carried by tokens and nodes","token.rs Token::location, parser.rs Parser::parse_*"),("rendering","source_file_location.rs Display")],[CLI],
  [dict(name="scanner position",meaning="byte offset, line, column",where="scanner.rs Scanner")]),
p("C16","Spaces, comments and blank lines never change what is assembled",
  "Whitespace other than newline between tokens, blank lines, comments on their own line or after a complete statement whose line ends in a newline, and empty text around statements have no effect on the emitted image or on acceptance. A comment extends from ; to the end of its line and never swallows the newline or anything on the next line, and a ; or whitespace inside a string is data.",
  ["inputs","programs"],"All programs and all insertions of whitespace characters, blank lines and comments at token boundaries.",
  "Tests check single tokens and one or two commented lines.",
  [A+"scanner.rs",A+"parser.rs"],[("whitespace and comments","scanner.rs Scanner::consume_whitespace, consume_single_line_comment"),("skipping","parser.rs Parser::parse_statement_list")],[CLI,"token stream"]),
p("C17","The whole text is parsed: statements in order, none lost, errors fatal",
  "The accepted statements are exactly the labels, directives and instructions of the text, in order, each with exactly its operands; no statement, operand or trailing text is skipped, merged or duplicated. Any text that is not a sequence of valid tokens forming statements per the grammar makes the whole program fail, however much valid text precedes or follows it.",
  ["inputs","programs"],"All token sequences of any length; malformed text at any position, including the very end of the file.",
  "Parser tests run single rules on token lists of a few tokens.",
  [A+"parser.rs",A+"scanner.rs"],[("grammar rules","parser.rs Parser::parse_*"),("lookahead","parser.rs Parser::consume_token, prime"),("token recognition","scanner.rs Scanner::next_token")],[CLI,"syntax list"]),
]
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
