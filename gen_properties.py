#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []

def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Every instruction is encoded as the instruction set documents",
  "For every instruction form and every operand value in range, the emitted machine code is the documented opcode with each operand's bits in the documented places (9-bit direct addresses, 2-bit indirection modes, 3-bit bit numbers, 12-bit and big-endian 16-bit absolute targets, 8-bit and little-endian 16-bit relative targets). The number of bytes emitted is the number of bytes the assembler reserves for that instruction.",
  ["inputs"], "All instruction forms (70 of them), with every combination of in-range operand values.",
  "The tests encode two hand-picked instructions and a few whole programs; the forms have about 4.6 million operand combinations.",
  ["src/instruction.rs", "waterbear-instruction-derive/src/lib.rs"],
  [("bit patterns of the instruction enum", "src/instruction.rs: enum Instr"), ("generated encoder and size", "waterbear-instruction-derive/src/lib.rs: expand_instr, byte_to_tokens, parse_bit_pattern")],
  observe=["bytes of the assembled output"])
p("C02", "Decoding is total and the exact inverse of encoding",
  "Decoding the encoding of any in-range instruction, whatever bytes follow it, gives back that same instruction. Decoding any non-empty byte string never crashes and either yields an in-range instruction whose encoding is exactly the bytes it consumed, or reports that there is none, which happens only when the bytes end before the instruction does (every first byte starts an instruction).",
  ["inputs"], "All byte strings of length at least one, and all in-range instructions with any trailing bytes.",
  "The tests decode two byte strings out of more than 16 million distinguishable ones.",
  ["src/instruction.rs", "waterbear-instruction-derive/src/lib.rs"],
  [("generated raw decoder", "waterbear-instruction-derive/src/lib.rs: byte_to_matcher, ranges_to_extractors"), ("sign extension of relative operands", "src/instruction.rs: decode_from_raw"), ("decode", "src/instruction.rs: Instr::decode")],
  observe=["disassembly listing"])
p("C03", "An operand is accepted exactly when it fits its field",
  "An instruction operand is accepted if and only if its value fits the operand's field: 0 to 255 for an immediate, 0 to 511 for a direct address, 0 to 7 for a bit number, 0 to 65535 for an absolute target; otherwise the program is rejected with an out-of-range error for that operand, and never silently truncated. An accepted operand is the one encoded, in its own position and with its own value.",
  ["inputs", "programs"], "Every instruction form, every operand expression and every 32-bit operand value.",
  "Tests use a handful of in-range operands; only a proof covers every 32-bit value of every operand of every form, including the boundaries and negative values.",
  ["src/instruction.rs"],
  [("range checks", "src/instruction.rs: eval, eval3, eval8, eval9, eval16"), ("operand evaluation of each form", "src/instruction.rs: Instr<Expr, IndirectionMode>::eval")],
  observe=["assembler error or output bytes"])
p("C04", "Branches and jumps reach their target, or are rejected",
  "When the assembler accepts a branch, jump or call, the processor executing the emitted bytes at that address continues exactly at the given target: relative 8-bit from the next instruction, relative 16-bit from one byte before the next instruction's address, 12-bit within the 4 KB page of the next instruction, 16-bit anywhere. A target that the form cannot express, or that lies outside 0 to 65535, is rejected with an error. The disassembler computes that same target for the same instruction.",
  ["inputs", "programs"], "Every branch, jump and call form, at every address, with every 32-bit target value.",
  "Tests assemble short branches only; page boundaries, the edges of the relative ranges and out-of-image targets are not reached.",
  ["src/instruction.rs", "src/disasm.rs"],
  [("relative and page-relative operands", "src/instruction.rs: rel8, rel16, eval12, eval16"), ("address following the instruction", "src/asm.rs: generate_bytes"), ("disassembler targets", "src/disasm.rs: targets, rel8, rel16")],
  observe=["bytes of the assembled output", "labels of the disassembly listing"])
p("C05", "Expressions evaluate exactly, or are rejected",
  "An expression evaluates to its exact mathematical value: sum, difference, negation, product, quotient truncated towards zero, bitwise and/or/xor of the 32-bit two's complement values, and the upper (`>`) or lower (`<`) byte of the low 16 bits. If a name is unknown, a divisor is zero, or any intermediate result does not fit in 32 bits, evaluation reports that error; it never crashes or wraps.",
  ["inputs", "programs"], "Every expression tree and every assignment of 32-bit values to its names.",
  "Tests evaluate a few small expressions; overflow, division corner cases and nesting are unbounded.",
  ["src/expression.rs", "src/env.rs"],
  [("evaluation", "src/expression.rs: Expr::eval, Expr::checked")],
  observe=["bytes of .byte and .word directives", "assembler error"])
p("C06", "Both passes agree on the layout of the program",
  "The address given to a label is the offset, in the output, of the first byte that the statements after it emit, whatever mix of instructions, data, text, alignment and origin directives surrounds it. The output is exactly as long as the highest position any statement reaches, bytes that no statement writes are zero, and where statements overlap the later one wins.",
  ["programs"], "Every statement sequence, of any length, with any directives and instructions.",
  "The tests assemble a few programs; agreement of the two passes must hold for every statement sequence.",
  ["src/asm.rs", "src/ast.rs", "src/instruction.rs"],
  [("first pass", "src/asm.rs: compute_labels, compute_names, advance"), ("second pass", "src/asm.rs: generate_bytes, assemble"), ("sizes", "src/ast.rs: Directive::size; Instr::size")],
  state=[("pos", "current output position in each pass", "src/asm.rs")],
  observe=["bytes of the assembled output"])
p("C07", "Data directives emit exactly the documented bytes",
  "`.byte` emits each value from -128 to 255 as one byte and each string as its bytes, `.word` emits each value from -32768 to 65535 low byte first, `.text` and `.string` emit their bytes padded to the given length with spaces or NULs, and any other value, or text longer than its length, is an error. `.org` moves to the given offset, up to 65535. `.cnop a, m` pads to the smallest multiple of m not below the current position and then a bytes further.",
  ["inputs", "programs"], "Every directive with every operand list and every 32-bit value, at every position.",
  "Only a few directives with ordinary values are tested.",
  ["src/asm.rs", "src/ast.rs"],
  [("emission", "src/asm.rs: generate_bytes"), ("sizes and alignment", "src/ast.rs: Directive::size, Directive::eval_cnop")],
  observe=["bytes of the assembled output", "assembler error"])
p("C08", "Names resolve to their one definition, regardless of case",
  "A global label, variable or alias may be defined once in a program, and a local label (starting with `.`) once between two consecutive global labels; a second definition, in whatever letter case, is an error. A reference resolves regardless of letter case to that definition: a local label only inside its own region, a label or alias anywhere in an instruction or data operand, and only global labels and earlier definitions in a definition. An unknown name is an error and never a value.",
  ["programs"], "Every program: any interleaving of labels, local labels, variables, aliases and references.",
  "Tests use a few well-formed scopes; shadowing, duplicates in other letter case and out-of-scope references are combinatorial.",
  ["src/asm.rs", "src/env.rs"],
  [("definitions", "src/asm.rs: compute_labels, compute_names, add_name"), ("lookup", "src/env.rs: Names::as_env, NamesEnv::get; src/asm.rs: MapEnv::get")],
  state=[("globals, locals", "name tables", "src/env.rs: Names")],
  observe=["bytes of the assembled output", "assembler error"])
p("C09", "Macro definitions are read and expanded exactly",
  "The lines from a %macro to its %end (or the end of the file) define a macro, known by its name and its number of parameters, and give nothing by themselves; all other lines stand as if they were not there. A definition named like an instruction, one given twice, a parameter given twice, and a line that is no statement of a macro are errors. Expanding a macro call gives the statements of the body in order, with each parameter replaced by the caller's argument as it stands (its structure, and the names in it, unchanged), each macro-local label replaced by one name that is fresh for that expansion, and everything else as written. An argument is never itself substituted again, an argument that is not a value is rejected inside an expression, a wrong or unknown parameter is an error, and a macro that expands to itself is reported rather than expanded forever.",
  ["programs"], "Every macro definition and every call, nested to any depth.",
  "Tests expand a few macros; nesting, argument capture and recursion are unbounded.",
  ["src/asm.rs", "src/expression.rs", "src/parser.rs"],
  [("reading of definitions", "src/parser.rs: parse_macros, parse_macro_header, parse_macro_statement"), ("argument substitution", "src/expression.rs: Expr::replace_macro_args; src/asm.rs: replace_args"), ("expansion", "src/asm.rs: expand, expand_macros, gen_labels")],
  observe=["assembled bytes of programs with macros"])
p("C10", "The disassembler finds exactly the reachable code",
  "The disassembler treats a position of the image as code if and only if it can be reached from an entry point by following instruction successors: the next instruction where execution can fall through, and the target of a branch, jump or call. A far jump directly after a reached switch to flash (`not1 ext, 0`) leads into another image: its target counts as reached through it only if the far jump can also be arrived at in another way, and need not be followed even then. Positions outside the image are ignored. The disassembler terminates and never crashes on any image, and reports an error exactly when a position that it has to treat as code holds no instruction (or one that runs over the end of the image).",
  ["inputs"], "Every byte image and every set of entry points.",
  "Tests disassemble one or two images; reachability is a fixpoint over every image.",
  ["src/disasm.rs"],
  [("work list", "src/disasm.rs: build_instruction_graph"), ("successors", "src/disasm.rs: targets"), ("code mask", "src/disasm.rs: build_byte_mask")],
  observe=["disassembly listing"])
p("C11", "A disassembly listing reassembles to the original image",
  "For every image that the disassembler accepts, of at most 64 KB and at least one byte, with the start of the image among its entry points (it always is one for the command), in which no two reached instructions overlap and every branch target lies within 0 to 65535, assembling the listing gives back exactly the original bytes. Each operand written in the listing, whether as a number, a label, a register name or a flag name, stands for the value that was decoded.",
  ["inputs"], "Every image and entry-point set as described.",
  "Tests check a few listings; the round trip must hold for all images.",
  ["src/disasm.rs", "src/instruction.rs", "src/asm.rs"],
  [("operand lifting", "src/disasm.rs: lift_instr, label_expr, mem_expr, bits_expr"), ("listing", "src/disasm.rs: disassemble"), ("names", "src/disasm.rs: build_names, compute_labels, compute_aliases")],
  observe=["disassembly listing", "reassembled bytes"])
p("C12", "Sprites are packed one bit per pixel, exactly",
  "An included sprite becomes, per row, ceil(width/8) bytes with the leftmost pixel in the most significant bit: the bit is one when the pixel's gray level (0.3 red + 0.59 green + 0.11 blue, rounded) is at most 127, and unused bits are zero. A masked sprite first gives the mask rows, where a bit is one when the pixel's alpha is at most 127 and unused bits are one; the optional header is the width and the height in one byte each, and an image larger than 255 either way is rejected when a header is requested, as is an image without frames.",
  ["inputs"], "Every image size and content, masked or not, with and without header.",
  "Tests cover one or two small images; widths not a multiple of eight and every pixel pattern are needed.",
  ["src/img.rs", "src/asm.rs"],
  [("packing", "src/img.rs: Frame::to_1bit_asm, Image::to_1bit_asm"), ("gray level and transparency", "src/img.rs: Color::grayscale, Color::transparency"), ("size check", "src/asm.rs: replace_byte_includes")],
  observe=["bytes of an included sprite"])
p("C13", "Icons keep every pixel's colour",
  "An included icon is a 32-byte block (frame count, speed and eyecatch type as words, then zeros), a palette of 16 words, and the pixels of each frame, two per byte, left pixel in the high half, such that looking each pixel up in the palette gives that pixel's colour reduced to four bits per channel; an eyecatch follows with a palette of 16 or 256 words, or as direct colours, in the same way. An icon that is not 32x32 or has more than 16 colours, or an eyecatch that is not 72x56, is rejected.",
  ["inputs"], "Every image content: any number of frames and distinct colours.",
  "Tests include one icon; palette indexing must be right for every arrangement of colours.",
  ["src/img.rs"],
  [("palette and pixels", "src/img.rs: Image::get_palette, Image::to_icon, Image::to_true_color"), ("icon", "src/img.rs: to_icon"), ("colour reduction", "src/img.rs: Color::scale_channels, Color::to_palette_color")],
  observe=["bytes of an included icon"])
p("C14", "The VMI file describes its VMS file",
  "The generated VMI file is 108 bytes: the four-byte checksum is the resource name's first four bytes and-ed with `SEGA`, followed by the 32-byte description copied from the VMS header (at 0x10, or 0x210 for a game), the copyright text in 32 bytes, the date and time in its fields, file version 0 and number 1, the resource name in 8 bytes, the file name in 12 bytes, the game flag, and the exact VMS size little-endian. Longer texts are cut off and shorter ones padded with NULs, and no input makes it crash.",
  ["inputs"], "Every VMS content and size, file name, copyright text, and both kinds.",
  "No test covers this command.",
  ["src/lib.rs"],
  [("header fields", "src/lib.rs: generate_vmi")],
  observe=["bytes of the .vmi file"])
p("C15", "Number and string literals have their written value",
  "A literal in decimal, `$` or `0x` hexadecimal, `%` or `0b` binary, or `0o` octal, with `'` separators between digits, stands for exactly the number its digits write in that base, and one above 2147483647 is rejected. A string literal stands for its text with `\\r \\n \\t \\b \\0` replaced by their control characters and any other escaped character by itself.",
  ["inputs"], "Every literal token.",
  "Tests lex a handful of literals.",
  ["src/lexer.rs"],
  [("number conversion", "src/lexer.rs: to_hex_num, to_oct_num, to_bin_num, to_dec_num"), ("string conversion", "src/lexer.rs: clean_str")],
  observe=["bytes of .byte, .word and .string directives"])
p("C16", "Source lines in messages and parsing are cut exactly at line ends",
  "The line shown for a position in a source file is the text from just after the previous newline, or the start of the file, up to but not including the next line end (a newline, or a carriage return and newline), or the end of the file; computing it never crashes, whatever the file's length. The tokens of a program are grouped into lines so that every token belongs to exactly one group, in order, and a group is the longest run of tokens that start, in the same file, on the line on which its first token ends.",
  ["inputs"], "Every source text and every position in it; every token sequence.",
  "Messages are not tested at all, and line grouping only on a few inputs.",
  ["src/lib.rs", "src/parser.rs"],
  [("message lines", "src/lib.rs: start_of_line, end_of_line, line_for_pos"), ("token lines", "src/parser.rs: LineIterator, lines")],
  observe=["error message text"])
p("C17", "Operators bind by level and group to the left, and printing keeps the expression",
  "Every sequence of tokens is read as an expression in at most one way: & ^ | bind loosest, then + -, then * /, then the prefix operators - < >; "
  "operators of one level (& ^ | are one level) group to the left; parentheses override this. A sequence that is no expression is rejected. "
  "The text printed for an expression (the expand command) is read again as the same expression, with the same value.",
  ["programs"], "Every expression text.",
  "Tests parse a few expressions.",
  ["src/parser.rs", "src/expression.rs"],
  [("Pratt parser", "src/parser.rs: parse_expr and the parselets"), ("printing", "src/expression.rs: Display for Expr")])
p("C18", "Expanded source assembles to the same image",
  "The output of the expand command, assembled, gives the same image as the original program.",
  ["programs"], "Every accepted program.",
  "Tests compare a few printed statements.",
  ["src/asm.rs", "src/ast.rs"],
  [("printing", "src/ast.rs: Display for Statement, Directive; src/instruction.rs: Display for Instr"), ("expansion", "src/asm.rs: expand_file")])
p("C19", "A mnemonic with operands selects its one instruction form",
  "Each documented mnemonic with each documented combination of operand kinds selects exactly that instruction form with the operands in order, and every other combination is rejected with the list of allowed forms.",
  ["programs"], "Every mnemonic and every operand list.",
  "Tests cover a few mnemonics.",
  ["src/parser.rs"],
  [("form selection", "src/parser.rs: make_instr")])
p("C20", "Every source text is cut into tokens from its beginning to its end, or rejected where it stops making sense",
  "Reading a source text ends, whatever it holds. If it succeeds, the tokens are in the order of the text, none is empty, and there is nothing but white space and comments before, between and after them; a token is of the first kind of the lexer's table that fits at its place, and says where it begins and ends and on which line. Otherwise the error names the place of the first character at which no token begins (or the number there is too big). In assembly a comment runs from a semicolon, or from a star at the beginning of a line, to the line end; in a C header from // to the line end, or from /* to the next */.",
  ["inputs"], "Every assembly text and every C header text.",
  "Tests lex a handful of short texts.",
  ["src/lexer.rs", "src/input.rs", "src/cheader.rs"],
  [("position", "src/input.rs: Input::update, skip_whitespace"), ("comments", "src/lexer.rs: skip_comment, skip_star_comment; src/cheader.rs: skip_line_comment, skip_multiline_comment"),
   ("tokens", "src/lexer.rs: lex_for_ws, read_token, Matcher::do_match")],
  observe=["accepted programs", "line and place in error messages"])
p("C21", "A line of source is read as the statements it spells, or rejected",
  "A line of tokens that is not part of a macro definition stands for: nothing, if it is empty; a label, if it is a name with a colon, or a name that begins with a dot and stands alone; "
  "a label and an instruction after it, if more follows the colon; a directive (.byte, .word, .org, .text, .string, .cnop), if it begins with its word, with the values that follow, in their order; "
  "a definition, if a name and then = or equ begin it, with the expression after that; otherwise an instruction, if the first name is a mnemonic, or the call of a macro, with the operands that follow, in their order. "
  "An operand is an indirection mode, an immediate after #, or an expression; values are separated by single commas; .byte takes expressions and strings, as their UTF-8 bytes. "
  "The parser gives exactly these statements, with these names, numbers, strings, expressions and operands, and uses up the whole line; it rejects a line that is none of these, "
  "and an instruction whose operands fit no form of the mnemonic, and no other line. (The options of .include lines are not covered.) Lines are told apart by the file and the line on which they stand and are read in order; .include of a source file stands for the lines of that file, .include bytes for the bytes of the file, and a file that includes itself is an error.",
  ["programs"], "Every line of tokens of a source text, and every tree of included files.",
  "The tests parse about twenty lines.",
  ["src/parser.rs"],
  [("lines", "src/parser.rs: parse_line, parse_statement"), ("instructions and calls", "src/parser.rs: parse_instr, parse_gen_instr"), ("directives", "src/parser.rs: parse_directive"),
   ("operands and lists", "src/parser.rs: parse_arg, parse_i8, parse_im, parse_byte_value, parse_list"), ("tokens", "src/parser.rs: TokenStream; src/lexer.rs: Token")],
  observe=["accepted programs", "bytes of the assembled output"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
