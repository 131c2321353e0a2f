"""Per property: proof units, Kani targets, bounded harness, and what is left unproved."""

DV = "contract-based deductive verification (Verus on functions extracted from /repo on every run)"

PROPS = {
    "C01": {
        "units": [("isa", "build_enc")], "derive": True, "complete": True,
        "technique": DV,
        "note": "Verus proves, for every operand value in range, that the encoder and size function which the derive macro "
                "generates from the current enum produce the bytes of the instruction set table in spec/isatab.py. Trusted: "
                "the table, Verus/Z3, the mechanical extraction (which runs the repository's own macro code). A complete "
                "enumeration of the 4.6 million operand combinations on the real crate replays any failure.",
        "unproved": [],
    },
    "C02": {
        "units": [("isa", "build")], "kani": ["rel"], "derive": True, "complete": True,
        "technique": DV + "; Kani (full domain) for the two transmute helpers",
        "note": "Verus proves decode_raw, decode_from_raw, decode, encode and size against each other for all byte strings "
                "and all in-range instructions; the sign-extension helpers, which use transmute, are proved by Kani over "
                "their whole domain and assumed by Verus. A complete enumeration of all strings of up to three bytes replays "
                "any failure.",
        "unproved": [],
    },
    "C03": {
        "units": [("core", "build_c03")],
        "technique": DV,
        "note": "Verus proves, for every instruction form, every operand expression and every environment, that Instr::eval "
                "gives each operand other than a branch target its own value when it fits the field and rejects the "
                "instruction with the range error otherwise. Assumed: Expr::eval (proved in C05), the branch target functions "
                "(proved in C04), HashMap, to_lowercase, starts_with. A bounded search replays failures on the real assembler.",
        "unproved": ["parsing of the operand text, choice of the instruction form (C19)"],
    },
    "C04": {
        "units": [("core", "build_c04"), ("disasm", "build_targets")], "derive": True, "budget": 40,
        "technique": DV,
        "note": "Verus proves for every position, target value and form that rel8, rel16, eval12, eval16 and Instr::eval accept "
                "exactly the reachable targets, that the operand produced leads back to the target, and that the "
                "disassembler's targets, rel8 and rel16 compute that target. Assumed: Expr::eval (proved in C05), the size of "
                "an instruction (proved in C01); that generate_bytes passes the position of the next instruction is C06.",
        "unproved": ["compute_labels and lift_instr of the disassembler (C11)"],
    },
    "C05": {
        "units": [("core", "build_c05")],
        "technique": DV,
        "note": "Verus proves, for every expression tree and every environment, that Expr::eval returns the exact "
                "value, or an error that names a failure in the tree. Assumed: the contract of str::to_lowercase and "
                "i32::checked_neg, derived Clone. A bounded search over boundary values and random trees replays failures.",
        "unproved": ["parsing of the expression text (C17, C21)"],
    },
    "C06": {
        "units": [("asm", "build_bytes_code"), ("asm", "build_labels"), ("asm", "build_sizes"), ("asm", "build_assemble_code")],
        "derive": True,
        "technique": DV,
        "note": "Verus proves, for every sequence of statements, that the first pass gives each label the position at which it "
                "stands, that the second pass writes each statement's bytes at that same position and that they fill the space "
                "reserved for them, and that assemble returns exactly the laid out bytes, zero where no statement writes. Assumed: "
                "encode (C01), Instr::eval (C03, C04), Expr::eval (C05), HashMap, to_lowercase. Documented preconditions: the "
                "statements are as the parser leaves them (no negative lengths, no .include left) and the program ends below "
                "0x7ffe0000.",
        "unproved": ["parsing, includes and macros, which come before (C09, C17)"],
    },
    "C07": {
        "units": [("asm", "build_bytes_data"), ("asm", "build_sizes")], "derive": True,
        "technique": DV,
        "note": "Verus proves, for every operand list, every value and every position, that generate_bytes emits the documented "
                "bytes of each directive or rejects it for a legitimate reason, and that Directive::size and eval_cnop advance "
                "the position as documented. Assumed: Expr::eval (C05), name lookup (C08).",
        "unproved": ["parsing of the operand lists (C21)"],
    },
    "C08": {
        "units": [("asm", "build_labels"), ("asm", "build_assemble"), ("asm", "build_bytes")], "derive": True,
        "technique": DV,
        "note": "Verus proves, for every sequence of statements, that compute_labels and compute_names build exactly the tables "
                "of the definitions, reject exactly second definitions and names without a value, and that every operand is "
                "looked up in the tables of its own region. Assumed: to_lowercase, HashMap.",
        "unproved": ["parsing of names (C17)"],
    },
    "C09": {
        "units": [("macros", "build_put"), ("macros", "build_expand"), ("reading", "build_macro")], "derive": True,
        "technique": DV,
        "note": "Verus proves, for every set of macro definitions and every program, that replace_macro_args and replace_args put "
                "arguments and labels in and nothing else, that gen_labels gives each macro-local label one name made from a UUID, "
                "that expand returns the statements of the body in order or a legitimate error, that a macro that is being "
                "expanded is never expanded again (so expand terminates), and that expand_macros replaces exactly the calls. "
                "For every file, it proves that parse_macros takes out exactly the lines from a %macro to its %end and that the macros are "
                "those which a declarative reader (`defs`, `mhead`, `body`, `mstmt`) finds there, by name and number of parameters, and "
                "that it fails only if that reader finds none (a name twice, a parameter twice, an instruction's name, a line that says "
                "nothing): parse_macro_header, parse_macro_statement and parse_macros; parse_args and parse_gen_instr through what C21 proves. "
                "Assumed: the uniqueness of UUIDs, HashMap and HashSet, what make_instr makes of a name and operands (C19), the line of a span.",
        "unproved": [],
    },
    "C10": {
        "units": [("disasm", "build_trace"), ("disasm", "build_targets"), ("disasm", "build_mask")], "derive": True,
        "technique": DV,
        "note": "Verus proves, for every image below 2 GB and every list of entry points, that build_instruction_graph terminates "
                "without a crash, that the positions it collects are exactly the reachable ones in the sense of the property (a "
                "least fixpoint over the instruction set table), that it reports an error only for a reached position without "
                "instruction, and that build_byte_mask marks exactly the bytes of these instructions. Assumed: decode (C02), the "
                "size of an instruction (C01), HashMap, HashSet. The listing itself (disassemble) is checked by the bounded search.",
        "unproved": ["the listing loop of disassemble, which formats text (bounded search)"],
    },
    "C11": {
        "units": [("disasm", "build_lift"), ("disasm", "build_names")], "derive": True,
        "technique": DV,
        "note": "Verus proves, for every instruction, every position and every table of names, that the operands which lift_instr "
                "writes have the values that were decoded in every environment in which the names have the values they are "
                "listed with (the relation that C03 and C04 prove of Instr::eval), that labels are only made for starts of "
                "instructions, and that the helpers cut out exactly the undecoded bytes. The listing loop itself, its printing and "
                "its parsing are checked by the bounded search, which assembles listings again.",
        "unproved": ["the listing loop of disassemble (bounded search)", "printing and parsing of the listing (C18)"],
    },
    "C12": {
        "units": [("img", "build")],
        "technique": DV,
        "note": "Verus proves, for every image, that the statements which Frame::to_1bit_asm and Image::to_1bit_asm produce are "
                "data directives with exactly the bytes of the property. Assumed: the gray level of Color::grayscale, which computes "
                "with floating point numbers; the harness checks this contract on the real function for all 16777216 colours. Decoding "
                "of image files is the image crate's.",
        "unproved": ["the image crate's decoders", "parsing of the include options"],
    },
    "C13": {
        "units": [("icon", "build_palette"), ("icon", "build_pixels"), ("icon", "build_icon")], "kani": ["color"],
        "technique": DV + "; Kani (full domain) for the floating point colour reduction",
        "note": "Verus proves, for every image, that get_palette numbers the colours without collision, that Image::to_icon writes "
                "a palette and pixels in which every pixel's number leads to its colour, and that to_icon writes the 32-byte block, "
                "the icon and the eyecatch, or rejects them exactly when the property says so. Color::scale_channels, which computes "
                "with floating point numbers, is proved by Kani for all colours and assumed by Verus. Decoding of image files is the "
                "image crate's.",
        "unproved": ["the image crate's decoders", "parsing of the include options"],
    },
    "C14": {
        "units": [("vmi", "build")],
        "technique": DV,
        "note": "Verus proves, for every VMS content, name and copyright text, that generate_vmi writes exactly the 108 bytes of the "
                "property and does not panic. Assumed: what std's File, str::split, to_le_bytes, the regex `\\.vms$` and chrono's "
                "clock do, and that the output file can be written.",
        "unproved": ["the command line's choice of the arguments"],
    },
    "C15": {
        "units": [("literals", "build_numbers"), ("literals", "build_strings")],
        "technique": DV,
        "note": "Verus proves, for every literal text of the shape that the lexer's patterns accept, that to_hex_num, to_oct_num, "
                "to_bin_num and to_dec_num give the number it writes or none above 2147483647, and that clean_str gives the text "
                "of the property. Assumed: what a slice of a string contains, i32::from_str_radix on digits, str::replace, "
                "String::from_utf8. That the patterns (regexes) hand over such texts is checked by the bounded search, which "
                "assembles literals.",
        "unproved": ["the regular expressions that delimit tokens, and the table that sends them to the conversions (bounded search)"],
    },
    "C16": {
        "units": [("lines", "build_text"), ("lines", "build_tokens")],
        "technique": DV,
        "note": "Verus proves, for every text and every position in it, that line_for_pos gives exactly the text between the line's "
                "ends and never cuts inside a character, and, for every token sequence, that LineIterator::next gives the longest "
                "run; that the groups cover the tokens is a lemma over this contract. Assumed: what a slice of a string contains "
                "(vstd specifies only when it is allowed). That a message shows this line is checked through the command line.",
        "unproved": ["highlight_line, which writes the line to a terminal stream", "that positions of tokens lie in their file"],
    },
    "C17": {
        "units": [("exprs", "build_parser"), ("exprs", "build_print")],
        "technique": DV,
        "note": "Verus proves, for every token sequence and every position in it, that parse_expr returns the one expression that begins "
                "there (a declarative grammar with levels, proved equivalent to what the Pratt parser reads), stops where it ends, and "
                "fails exactly when there is none; that Parser::create builds the tables of this grammar from the levels of enum "
                "Precedence; that the levels have the documented order; that what Display for Expr writes is, token by token, an "
                "expression of the same tree, and hence is read as that tree, with the same value. Assumed: the text that is written is "
                "read as the tokens of its pieces (bounded search: prints, lexes and parses again); std HashMap; derived equality and Clone.",
        "unproved": ["the lexer's regular expressions on the printed text (bounded search)"],
    },
    "C18": {
        "units": [("stmts", "build_escape"), ("stmts", "build_print"), ("again", "build")],
        "technique": DV,
        "note": "Verus proves, for every list of expanded statements, what the tokens of the printed text are: Display for Statements writes "
                "each statement on lines of its own, and Display for Statement, Directive, ByteValue, Instr and IndirectionMode write "
                "the mnemonic of the instruction set table, the operands in order with # and commas, the directive's words and values, "
                "labels with a colon, comments with a semicolon on every line; escape_string writes, for every text, one string literal "
                "that is read as that text. Expressions are written as C17 proves. Formatting macros are rewritten mechanically into the "
                "calls that write the tokens of their text. From this and the contract of parse_line (C21) lemmas show that the line of "
                "every statement is read as one statement, the same one, and is not rejected: unless the first operand is the name equ "
                "(known finding). Assumed: the written text is read by the lexer as these tokens (C20, C15), str::replace, trim, "
                "starts_with.",
        "unproved": ["that what is printed on one line is on one line for the lexer (bounded search)",
                     "that no include and no macro call is left when a program has been expanded (C09 for the calls)"],
    },
    "C19": {
        "units": [("forms", "build")], "derive": True,
        "technique": DV,
        "note": "Verus proves, for every name and every list of operands, that make_instr gives the one form that the instruction set "
                "table has for this mnemonic and these kinds of operands, with the operands in order, and otherwise the error with "
                "the table's list of forms; and that Instr::exists is true exactly for the mnemonics. Text patterns and slice "
                "patterns, which Verus does not have, are mechanically rewritten to patterns of an index and of a constructor by "
                "length. Assumed: comparison of texts; derived Clone.",
        "unproved": ["the parsing of operands (C21, C17)"],
    },
    "C20": {
        "units": [("lexing", "build"), ("lexing", "build_c")],
        "technique": DV,
        "note": "Verus proves, for every text, that lex_for_ws ends and gives tokens that leave out nothing but white space and comments "
                "(declaratively: a sequence of them, after which none follows), each the first of the lexer's table that fits, with the "
                "right lines; and that it otherwise names the place where no token begins. Proved for both instances (assembly and C "
                "headers), down to Input::update and the comment skippers. Assumed: what each regular expression matches (left open: "
                "a non-empty beginning of the text that ends between characters), graphemes are the text and keep line ends whole.",
        "unproved": ["what the regular expressions of the table match (bounded search against a lexer written by hand)",
                     "the rewriting of #define lines of C headers"],
    },
    "C21": {
        "units": [("reading", "build"), ("reading", "build_file"), ("exprs", "build_parser")], "derive": True,
        "technique": DV,
        "note": "Verus proves, for every line of tokens, that parse_line adds exactly the statements that a declarative reader (`line_of`, "
                "`stmt`, `instr_at`, `dir_at`, `list`, `item`) finds on the line, and fails only if there are none or no form of the "
                "instruction takes the operands: parse_statement, parse_instr, parse_gen_instr, parse_directive, parse_arg, parse_i8, "
                "parse_im, parse_byte_value, parse_list (once per use, with the closure it gets), TokenStream and the predicates of Token. "
                "For every file, it proves that lines splits the tokens where their spans change line or a file ends, and that Parser::parse gives the "
                "statements of the lines outside macros, in order, and the macros that parse_macros finds (C09). "
                "Callers see parse_expr through the contract that C17 proves (unit exprs_parser), make_instr and Instr::exists through "
                "those that C19 proves. Required of the tokens: no negative numbers, and in a line nothing after the end of the file (C20). Assumed: "
                "str::starts_with, comparison of texts, the bytes of a text; derived Clone and equality.",
        "unproved": ["the lines of .include (its branch is left out, with no contract on what it gives), and the loading of included files: replace_includes, replace_byte_includes (bounded search)"],
    },
}

NOT_APPLICABLE = {}
