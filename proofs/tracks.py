"""Which proof tracks (Verus templates) decide which property."""
TRACKS = {
    "dirloc": dict(template="dirloc.rs.in", limit=200),
    "tokenizer": dict(template="tokenizer.rs.in", args=["-V", "spinoff-all"], rlimit=20, limit=300),
    "equery": dict(template="equery.rs.in", limit=200),
    "eschema": dict(template="eschema.rs.in", limit=200),
    "print": dict(template="print.rs.in", args=["-V", "spinoff-all"], rlimit=60, limit=300),
    "fquery": dict(template="fquery.rs.in", args=["-V", "spinoff-all"], rlimit=60, limit=300),
    "fschema": dict(template="fschema.rs.in", args=["-V", "spinoff-all"], rlimit=60, limit=300),
    "rquery": dict(template="rquery.rs.in", args=["-V", "spinoff-all"], rlimit=60, limit=300),
    "rschema": dict(template="rschema.rs.in", args=["-V", "spinoff-all"], rlimit=60, limit=300),
    "cquery": dict(template="cquery.rs.in", args=["-V", "spinoff-all"], rlimit=60, limit=300),
    "strings": dict(template="strings.rs.in", limit=300),
    "gquery": dict(template="gquery.rs.in", args=["-V", "spinoff-all"], rlimit=60, limit=400),
    "gschema": dict(template="gschema.rs.in", args=["-V", "spinoff-all"], rlimit=60, limit=400),
    "hquery": dict(template="hquery.rs.in", args=["-V", "spinoff-all"], rlimit=60, limit=300),
    "hschema": dict(template="hschema.rs.in", args=["-V", "spinoff-all"], rlimit=60, limit=300),
    "shown": dict(template="shown.rs.in", limit=200),
    "wquery": dict(template="wquery.rs.in", args=["-V", "spinoff-all"], rlimit=60, limit=300),
    "wschema": dict(template="wschema.rs.in", args=["-V", "spinoff-all"], rlimit=60, limit=300),
    "nquery": dict(template="nquery.rs.in", args=["-V", "spinoff-all"], rlimit=60, limit=300),
    "nschema": dict(template="nschema.rs.in", args=["-V", "spinoff-all"], rlimit=60, limit=300),
    "number": dict(template="number.rs.in", limit=100),
    "oquery": dict(template="oquery.rs.in", limit=200),
    "oschema": dict(template="oschema.rs.in", limit=200),
}
PROPS = {("C%02d" % i): dict(tracks=[], level="exploration") for i in range(1, 19)}
PROPS["C13"].update(
    tracks=["dirloc"], level="proof",
    technique="contracts on DirectiveLocation's functions discharged by Verus; bounded check of the rest",
    note="Verus proves, for every location and every text: as_str is injective and is read back by from_str, from_str accepts nothing else, "
         "is_query and is_schema split the locations as the specification does. That a definition keeps its list of locations in order is a "
         "bounded check of the parser.",
    theorems=["location_bijection", "as_str", "from_str", "is_query", "is_schema"],
    assumptions=["string literals are equal exactly when their characters are (str_eq is PartialEq for str)"],
    outside="the list of locations of a parsed directive definition (bounded check)")

SMALL = "texts of fewer than 2^60 characters (so that no line or column counter can overflow)"
STR = ("the models of str slicing, len, starts_with, rfind, char_indices, match_indices and String/Vec join in proofs/lib/chars.rs.in and "
       "minify.rs.in say what std does; a text has at most isize::MAX bytes")
ERRS = "the tokenizer's three kinds of error (end of input, unexpected character, limit) are told apart; their messages are dropped"
COMBINE = ("combine 4.6's combinators do to the stream and the values what vx/src/gram.rs writes out for them (sequences, alternatives, optional, many, many1, eof, "
           "and_then, map; lookahead of one token); error messages are dropped")
DOCS = "text, Vec and BTreeMap in documents are modelled by their content (Str, Lst, Obj); str::parse gives the literal's i64 and its nearest double"
LINK = ["lemma_count", "lemma_literals", "lemma_model*", "theorem_string_token"]
PROPS["C05"].update(
    tracks=["tokenizer"], level="proof",
    only={"tokenizer": ["take_token", "skip_whitespace", "uncons", "update_position", "advance_token", "reset", "checkpoint", "with_recursion_limit", "new",
                        "offset", "position", "theorem_tiling", "theorem_skip", "theorem_reset", "theorem_read_again", "check_*"] + LINK},
    technique="contracts on every function of TokenStream discharged by Verus",
    note="Verus proves, for every text: each read yields the token of the lexical grammar at the reader (an exact, non-empty slice), only ignored text "
         "lies between, there are at most as many tokens as characters, and going back to a state and reading again gives the same tokens and positions.",
    theorems=["uncons", "take_token", "skip_whitespace", "theorem_tiling", "theorem_skip", "theorem_reset", "theorem_read_again", "lemma_model"],
    assumptions=[SMALL, STR, ERRS, COMBINE], outside="nothing of TokenStream")
PROPS["C06"].update(
    tracks=["tokenizer"], level="proof",
    only={"tokenizer": ["take_token", "check_*", "skip_whitespace", "uncons", "theorem_longest"]},
    technique="contracts on the lexer discharged by Verus",
    note="Verus proves, for every text: take_token returns exactly the token that the specification's lexical grammar (proofs/lib/lexspec.rs.in) gives, or "
         "an error where it gives none; tokens are maximal. The recorded finding exponent-zero is part of the specified grammar, by name.",
    theorems=["take_token", "check_int", "check_dec", "check_exp", "check_float", "theorem_longest"],
    assumptions=[SMALL, STR, ERRS], outside="nothing of the lexer")
PROPS["C07"].update(
    tracks=["tokenizer"], level="proof",
    only={"tokenizer": ["update_position", "advance_token", "take_token", "skip_whitespace", "uncons", "reset", "checkpoint", "position", "with_recursion_limit",
                        "new", "theorem_line", "theorem_reset", "theorem_read_again", "lemma_skip_line"] + LINK},
    technique="contracts on the position counter discharged by Verus; bounded check that nodes take their token's position",
    note="Verus proves, for every text: the position the stream reports before each token is the specified line and column (also after going back), and lines are "
         "counted by line feeds. That each node stores the position of its own first token (or brace) is a bounded check.",
    theorems=["update_position", "skip_whitespace", "uncons", "theorem_line", "theorem_reset", "lemma_model_uncons", "lemma_model_reset"],
    assumptions=[SMALL, STR, ERRS, COMBINE], outside="which token's position a node stores (bounded check)")
PROPS["C08"].update(
    tracks=["tokenizer"], level="proof",
    only={"tokenizer": ["take_token", "uncons", "reset", "with_recursion_limit", "new", "theorem_depth", "theorem_reset"] + LINK},
    technique="contracts on the limit in TokenStream discharged by Verus; bounded check of the parser on top",
    note="Verus proves, for every text and every reading with resets to the last token: the limit is fifty less the open brackets, and a token is refused for depth "
         "exactly if it opens a bracket while fifty are open. Stack use, and that the parser passes the refusal on, is a bounded check.",
    theorems=["uncons", "theorem_depth", "theorem_reset", "lemma_model_uncons", "lemma_model_reset"],
    assumptions=[SMALL, STR, ERRS, COMBINE, "stack use is not modelled"], outside="the parser above the stream, stack depth (bounded check)")
PROPS["C09"].update(
    tracks=["tokenizer"], level="proof",
    only={"tokenizer": ["minify", "theorem_no_ignored", "theorem_minif*", "uncons", "take_token", "skip_whitespace", "new", "with_recursion_limit"]},
    technique="contracts on minify_query and the lexer discharged by Verus",
    note="Verus proves, for every text: minify_query returns the tokens joined as specified or an error where the lexer refuses; the result has the same tokens, is a "
         "fixed point, has single spaces where they are needed and nothing else between tokens, and no comma, comment or line break outside strings. "
         "That equal tokens parse to equal documents is a bounded check.",
    theorems=["minify_query", "theorem_minified", "theorem_minify_again", "theorem_no_ignored", "theorem_same_src", "theorem_same_tokens"],
    assumptions=[SMALL, STR, ERRS], outside="the parser (bounded check)")
PROPS["C04"].update(
    tracks=["strings"], level="proof",
    technique="contracts on unquote_string and unquote_block_string discharged by Verus; bounded check that the parsers call them",
    note="Verus proves, for every string token: unquote_string returns exactly the text that the specification's escapes stand for, or an error where they stand for "
         "none; unquote_block_string returns the specification's BlockStringValue. Both run to their end without a panic on every token the lexer can give. "
         "That values, descriptions and arguments hold what these two return is a bounded check.",
    theorems=["unquote_string", "unquote_block_string", "theorem_string_token", "theorem_block_value_unique"],
    assumptions=[STR, "the models of str::lines, replace, trim_start_matches, u32::from_str_radix, char::from_u32 and the iterator adaptors say what std does",
                 "the messages of errors are dropped"],
    outside="that the parsers string, string_value and block_string_value call the two functions (bounded check)")

STREAM = " The contract of the stream below the parsers is the one that the tokenizer track proves of TokenStream (one text, proofs/lib/model.rs.in)."
QPARSE = ["field", "selection", "selection_set", "query", "operation_common", "mutation", "subscription", "operation_definition", "fragment_definition", "definition",
          "parse_query"]
CPARSE = ["directives", "const_directives", "arguments", "const_arguments", "int_value", "float_value", "string", "string_value", "block_string_value", "plain_value",
          "value", "default_value", "parse_type", "parse_lazy", "kind", "name", "punct", "ident"]
PROPS["C14"].update(
    tracks=["gquery"], level="proof", only={"gquery": QPARSE + CPARSE},
    technique="contracts on every parser of query/grammar.rs, common.rs and helpers.rs discharged by Verus",
    note="Verus proves, for every sequence of tokens: parse_query returns the document that the grammar's rules (proofs/lib/gcommon.rs.in, gquery.rs.in: one rule a "
         "function of the tokens, with the value it denotes) give for them, and an error if and only if they give none. Each parser function is proved against its own "
         "rule, including that no alternative is lost by lookahead of one token." + STREAM,
    theorems=["parse_query", "definition", "operation_definition", "operation_common", "selection_set", "selection", "field", "fragment_definition", "value", "default_value",
              "parse_type", "arguments", "directives"],
    assumptions=[COMBINE, DOCS], outside="nothing of the executable grammar")
PROPS["C15"].update(
    tracks=["gschema"], level="proof",
    technique="contracts on every parser of schema/grammar.rs, common.rs and helpers.rs discharged by Verus",
    note="Verus proves, for every sequence of tokens: parse_schema returns the document that the grammar's rules (proofs/lib/gcommon.rs.in, gschema.rs.in) give for them, "
         "and an error if and only if they give none, function by function." + STREAM,
    theorems=["parse_schema", "definition", "described_definition", "type_extension", "schema", "object_type", "interface_type", "union_type", "enum_type", "input_object_type",
              "scalar_type", "directive_definition", "fields", "field", "input_value", "enum_values", "union_members", "implements_interfaces"],
    assumptions=[COMBINE, DOCS, "DirectiveLocation::from_str is a function of the text (proved in the dirloc track)"],
    outside="nothing of the type system grammar")
PROPS["C17"].update(
    tracks=["gquery", "number"], level="proof", only={"gquery": ["int_value", "float_value", "plain_value", "value", "default_value"]},
    technique="contracts on the number parsers discharged by Verus",
    note="Verus proves, for every literal: int_value returns the integer that the digits stand for, or an error exactly if no i64 is; float_value returns what str::parse::<f64> "
         "gives, or an error exactly if that is not finite; as_i64 gives the number out again, and a Number made from an i32 has its value (number track)." + STREAM,
    theorems=["int_value", "float_value", "plain_value", "as_i64", "from_i32"],
    assumptions=[COMBINE, "str::parse::<i64> and str::parse::<f64> do what std says (the exact integer or an error; the nearest double)"],
    outside="str::parse itself")
PROPS["C07"]["tracks"] += ["gquery", "gschema"]
PROPS["C07"].update(
    technique="contracts on the position counter and on every parser discharged by Verus",
    note="Verus proves, for every text: the position the stream reports before each token is the specified line and column (also after going back); lines are counted by line "
         "feeds; and every node of a parsed document has the position of the token that the grammar's rule names (its first token or its braces).",
    outside="nothing")
PROPS["C07"]["assumptions"] = [SMALL, STR, ERRS, COMBINE]
PROPS["C07"]["only"].update(gquery=["field", "selection", "selection_set", "query", "mutation", "subscription", "operation_common", "fragment_definition", "directives"],
    gschema=["schema", "field", "input_value", "enum_values", "scalar_type*", "object_type*", "interface_type*", "union_type*", "enum_type*", "input_object_type*",
             "directive_definition", "directives", "const_directives", "described_definition", "type_extension"])
PROPS["C08"]["tracks"] += ["gquery", "gschema"]
PROPS["C08"].update(
    technique="contracts on the limit in TokenStream and on the parsers discharged by Verus; bounded check of stack use",
    note="Verus proves, for every text: the limit is fifty less the open brackets, and a token is refused for depth exactly if it opens a bracket while fifty are open; "
         "parse_query and parse_schema only accept if the stream came to the end of the text (so pass a refusal on); the parser goes back by at most one token. "
         "Stack use is a bounded check.",
    outside="stack depth (bounded check)")
PROPS["C08"]["assumptions"] = [SMALL, STR, ERRS, COMBINE, "stack use is not modelled"]
PROPS["C08"]["only"].update(gquery=["parse_query"], gschema=["parse_schema"])
PROPS["C04"]["tracks"] += ["gquery"]
PROPS["C04"]["only"] = {"gquery": ["string", "string_value", "block_string_value", "plain_value"]}
PROPS["C04"].update(
    technique="contracts on unquote_string, unquote_block_string and the parsers that call them discharged by Verus",
    note="Verus proves, for every string token: unquote_string returns exactly the text that the specification's escapes stand for, or an error where they stand for "
         "none; unquote_block_string returns the specification's BlockStringValue. Both run to their end without a panic on every token the lexer can give. "
         "The parsers string, string_value, block_string_value and plain_value return exactly these texts.",
    outside="nothing")
PROPS["C04"]["assumptions"] += [COMBINE]
PROPS["C13"]["tracks"] += ["gschema"]
PROPS["C13"]["only"] = {"gschema": ["directive_locations", "directive_definition"]}
PROPS["C13"].update(
    technique="contracts on DirectiveLocation's functions and the parser of directive definitions discharged by Verus",
    note="Verus proves, for every location and every text: as_str is injective and is read back by from_str, from_str accepts nothing else, is_query and is_schema split the "
         "locations as the specification does; and a parsed directive definition has the locations of its names, in order.",
    outside="nothing")
PROPS["C13"]["assumptions"] += [COMBINE]
ERASE = ("the rules treat positions as values of any type (they only copy them from tokens into nodes), so instantiated with a one-element type of positions "
         "they give the document up to positions (proofs/lib/erase.rs.in; same text of the rules as in the gquery and gschema tracks)")
SPARSE = ["schema", "scalar_type*", "implements_interfaces", "input_value", "arguments_definition", "field", "fields", "object_type*", "interface_type*", "union_members",
          "union_type*", "enum_values", "enum_type*", "input_fields", "input_object_type*", "directive_locations", "directive_definition", "described_definition",
          "type_extension", "definition", "parse_schema"]
SAME = ["lemma_same_*", "theorem_same_*"]
PROPS["C11"].update(
    tracks=["tokenizer", "equery", "eschema", "gquery", "gschema"], level="proof",
    only={"tokenizer": ["take_token", "skip_whitespace", "uncons", "with_recursion_limit", "new"] + LINK + SAME, "gquery": QPARSE + CPARSE, "gschema": SPARSE + CPARSE},
    technique="contracts on the tokenizer and every parser, and lemmas over them, discharged by Verus",
    note="Verus proves: whether a text parses, and the document but for positions, is a function of its tokens (theorem_same_tokens, over the rules that parse_query and "
         "parse_schema are proved to answer to), and texts with the same tokens (whatever is ignored between them) give the parsers the same tokens, also at the limit on "
         "nesting (theorem_same_src)." + STREAM,
    theorems=["theorem_same_src", "theorem_same_tokens", "uncons", "take_token", "skip_whitespace", "parse_query", "parse_schema", "definition"],
    assumptions=[SMALL, STR, ERRS, COMBINE, DOCS, ERASE], outside="nothing")
PROPS["C09"]["tracks"] += ["equery"]
PROPS["C09"]["only"]["tokenizer"] += SAME
PROPS["C09"]["assumptions"] += [ERASE]
PROPS["C09"].update(
    note="Verus proves, for every text: minify_query returns the tokens joined as specified or an error where the lexer refuses; the result has the same tokens, is a "
         "fixed point, has single spaces where they are needed and nothing else between tokens, and no comma, comment or line break outside strings; "
         "and texts with the same tokens give the same document up to positions (theorem_same_src, theorem_same_tokens, over the rules that C14 proves the parsers to answer to).",
    outside="nothing")
PROPS["C18"].update(
    tracks=["tokenizer", "strings", "gquery", "gschema"], level="exploration",
    kinds=["precondition", "overflow", "division", "decreases", "termination", "unreachable"],
    technique="contracts (no panic, overflow, bad slice; termination) on tokenizer, minify, the parsers and the printer discharged by Verus; bounded check of stack use",
    note="Verus proves, for every text: the tokenizer, minify_query, the string decoders and every parser return, without overflow, out-of-range slice or endless loop; and for "
         "every document that the parser can give and every style, format and every display function do. Stack use is a bounded check, so the level is exploration.",
    theorems=["parse_query", "parse_schema", "consume_definition", "minify_query", "format", "display"],
    assumptions=[SMALL, STR, COMBINE, "stack use is not modelled", "memory suffices"], outside="stack depth (bounded check)")
PRINT = ["String::push, push_str, write!(\"\\\\u{:04x}\"), str::lines, replace, trim_start_matches do what std says", "brackets are not 2^32 deep (a parsed document's are at most fifty), so no indentation reaches 2^64",
         "format! of an i64 gives an integer literal of its value, of a finite f64 a literal whose nearest double it is (with a fraction or exponent unless it is whole: the "
         "recorded finding whole-float)", "BTreeMap::iter goes through the entries in the order of their keys (entries)"]
WF = ("the document is one that the parser can give (wf_document, proofs/lib/yquery.rs.in and yschema.rs.in: names are names, types are not non-null twice, selection sets are "
      "not empty …: proved of every document that has been read in C01 and C02, theorem_as_read), without whole floats below 10^18 (the recorded finding whole-float)")
PROPS["C03"].update(
    tracks=["print", "strings"], level="proof",
    technique="contracts on write_quoted, fits_block_string and the string decoders discharged by Verus",
    note="Verus proves, for every string, indentation and style: write_quoted appends one string token, complete whatever follows it (not a quote) and whatever was there before "
         "it, that the specification's grammar reads as that string (an escaped literal or a block string); strings track: unquote_string and unquote_block_string return what "
         "the specification says a token stands for. So what is around it stays and the string comes back. That each display function calls write_quoted is C01's and C02's.",
    theorems=["write_quoted", "fits_block_string", "lemma_enc_done", "lemma_block_done", "unquote_string", "unquote_block_string", "theorem_string_token"],
    assumptions=[STR] + PRINT[:2], outside="nothing of the printing and reading of one string")
PROPS["C16"].update(
    tracks=["fquery", "fschema", "shown", "nquery", "nschema"], level="proof",
    technique="contracts on Formatter, every display function, every impl Display and format discharged by Verus",
    note="Verus proves, for every document and every style: what format and every display function append to the text are exactly the tokens that the node stands for "
         "(y_document, proofs/lib/yquery.rs.in, yschema.rs.in), a function of the node that has no style in it, so that two styles give the same tokens and equal strings; "
         "and (shown) that each of the 36 impls of Display writes what the node's display function prints from the start in Style::default(), which is what format does in the "
         "style it is given; and (nquery, nschema) that every line of what format returns, outside its string literals, is indented by a multiple of the style's indent "
         "(indented, proofs/lib/neat.rs.in), from contracts on the same functions that say how far into a line the text so far ends.",
    theorems=["fmt", "to_string", "format", "display", "format_arguments", "format_directives", "format_fields", "format_inputs", "description", "write_quoted", "indent", "margin", "start_block",
              "end_block", "start_argument_block", "end_argument_block", "start_argument", "deliniate_argument", "theorem_indented"],
    assumptions=PRINT + [WF, "what a display function prints is a function of the node, the style, the indentation and the text so far (safe code without state)",
                 "fmt::Formatter::write_str appends its text or fails"], outside="nothing")
PROPS["C18"]["tracks"] += ["print", "fquery", "fschema"]
PROPS["C18"]["soft"] = ["fquery", "fschema"]
PROPS["C18"]["assumptions"] += PRINT
PROPS["C18"]["only"] = {"print": ["dec_indent", "inc_indent", "indent", "fits_block_string", "end_block", "end_argument_block"]}
READS = ["theorem_reads", "theorem_fine", "lemma_reads", "lemma_nst", "lemma_delta", "lemma_peak_take"]
TOKENS = ["take_token", "skip_whitespace", "uncons", "with_recursion_limit", "new", "reset", "checkpoint"] + LINK + READS
PROPS["C10"].update(
    tracks=["gquery", "cquery", "tokenizer"], level="proof",
    only={"gquery": ["consume_definition"] + QPARSE, "tokenizer": TOKENS + ["offset", "theorem_rest", "lemma_left*", "lemma_shift*", "lemma_skip_again", "lemma_start", "lemma_count_again"]},
    technique="contracts on consume_definition, the parsers below it and the tokenizer, and lemmas over them, discharged by Verus",
    note="Verus proves, for every text: consume_definition returns the definition that the grammar's rule gives at the first token, and the text from the next token "
         "on (or from the end); it fails exactly if the rule fails. What is left is read as it was in the text, token by token (theorem_rest: the same tokens, the same end, and no "
         "bracket is open there); the rules look at the tokens from where they are on only (mv_definition and the lemmas below it). So taking definitions until nothing is left "
         "gives those of the document, and fails on the way exactly if the text is not one (theorem_consume)." + STREAM,
    theorems=["consume_definition", "definition", "theorem_rest", "theorem_consume", "mv_definition", "mv_definitions"],
    assumptions=[SMALL, STR, ERRS, COMBINE, DOCS, ERASE],
    outside="nothing")
AGAIN = ["the printed text has fewer than 2^60 characters", "printing is a function of the document and the style (safe code without state), so that the second document, equal to the "
         "first but for positions, which are not printed, gives the same text",
         "documents with a whole float below 10^18 are excluded (floats, proofs/lib/srcdefs.rs.in: the recorded finding whole-float)"]
CHAIN = ("{0} (whatever text d was read from, theorem_fine and theorem_as_read give that its names are names, its floats can be printed, its parts are there and its brackets are at "
         "most fifty deep); format writes a text whose tokens are exactly y_document(d), in every style (format and every display function); the parser is given exactly these tokens "
         "(theorem_reads); the rules yield d for them (theorem_read_back, theorem_read_again), and {1} answers to the rules.")
PROPS["C01"].update(
    tracks=["fquery", "rquery", "print", "tokenizer", "strings", "gquery"], level="proof",
    only={"print": ["write_quoted", "fits_block_string", "lemma_*"], "tokenizer": TOKENS, "gquery": QPARSE + CPARSE},
    technique="contracts on the printer, the tokenizer and the parsers, and lemmas over them, discharged by Verus",
    note="Verus proves, for every text that parses as an executable document and every style: " + CHAIN.format("the document d can be printed", "parse_query") + STREAM,
    theorems=["format", "display", "theorem_as_read", "theorem_read_back", "theorem_read_again", "theorem_reads", "theorem_fine", "write_quoted", "parse_query"],
    assumptions=[SMALL, STR, ERRS, COMBINE, DOCS, ERASE] + PRINT + AGAIN, outside="nothing")
PROPS["C02"].update(
    tracks=["fschema", "rschema", "print", "tokenizer", "strings", "gschema", "dirloc"], level="proof",
    only={"print": ["write_quoted", "fits_block_string", "lemma_*"], "tokenizer": TOKENS, "gschema": SPARSE + CPARSE},
    technique="contracts on the printer, the tokenizer and the parsers, and lemmas over them, discharged by Verus",
    note="Verus proves, for every text that parses as a type system document and every style: " + CHAIN.format("the document d can be printed", "parse_schema") + STREAM,
    theorems=["format", "display", "theorem_as_read", "theorem_read_back", "theorem_read_again", "theorem_reads", "theorem_fine", "write_quoted", "parse_schema"],
    assumptions=[SMALL, STR, ERRS, COMBINE, DOCS, ERASE] + PRINT + AGAIN ,
    outside="nothing")
# soft: tracks whose contracts say more than the property does; an obligation refused there takes the proof away but breaks nothing by itself
PROPS["C12"].update(
    tracks=["oquery", "oschema", "gquery", "gschema"], level="proof",
    only={"gquery": QPARSE + CPARSE, "gschema": SPARSE + CPARSE}, soft=["gquery", "gschema"],
    technique="contracts on into_static and on the parsers, which are generic in the text type, discharged by Verus",
    note="Verus proves: Value::into_static and both Document::into_static give the value or document they are called on, by content, for every value and document; and "
         "every parsing function returns the document of the text's grammar (or an error where there is none), whatever the text type is, as the extracted functions are the "
         "generic ones and their contracts say nothing of the type: so the three text types accept the same texts and give equal documents. An obligation of the parsers that "
         "is refused takes this proof away, and the bounded comparison of the three text types stands in; one of into_static breaks the property.",
    theorems=["into_static", "parse_query", "parse_schema", "consume_definition"],
    assumptions=[SMALL, ERRS, COMBINE, DOCS, "&str, String and Cow keep the text in From<&str>, AsRef<str>, Into<String> and Clone (std)",
                 "mem::transmute between types that differ only in lifetimes gives the same value; no reference is in it (String has none)"],
    outside="nothing (the three impls of Text name std's types and have no code)")
FRAMES = (" No text, however deep, makes more than 2039 of the crate's parser functions active at once: each parser is proved (hquery, hschema) to call only parsers of a smaller "
          "measure, 40 times the brackets that may still be opened plus a rank (theorem_frames), on streams whose tokens the tokenizer lets through (theorem_fine: fifty brackets at most).")
STACK = "a call of a parser takes a bounded number of bytes of stack: combine's own frames between two of the crate's parsers are as many as the parser's text says"
for c in ["C08", "C18"]:
    PROPS[c]["tracks"] += ["hquery", "hschema"]
    PROPS[c]["soft"] = PROPS[c].get("soft", []) + ["hquery", "hschema"]
    PROPS[c]["assumptions"] = [a for a in PROPS[c]["assumptions"] if a != "stack use is not modelled"] + [STACK]
    PROPS[c]["outside"] = "the bytes of stack that one call takes (bounded check)"
PROPS["C08"].update(
    technique="contracts on the limit in TokenStream and on the parsers, with a measure on their recursion, discharged by Verus; bounded check of the bytes of stack",
    note=PROPS["C08"]["note"].replace(" Stack use is a bounded check.", "") + FRAMES + " The bytes of stack that this takes are a bounded check.")
PROPS["C08"]["only"]["tokenizer"] += READS
DEEP = ["wquery", "wschema", "rquery", "rschema"]
PROPS["C18"]["tracks"] += DEEP
PROPS["C18"]["soft"] += DEEP
PROPS["C18"].setdefault("only", {}).update({t: ["theorem_as_read", "theorem_depth_read", "lemma_d_*", "tall_*"] for t in ["rquery", "rschema"]})
PROPS["C18"].update(
    level="proof",
    technique="contracts (no panic, overflow, bad slice; termination, with measures that bound the calls active at once) on tokenizer, minify, the parsers and the printer discharged by "
              "Verus; bounded check of the bytes of stack",
    note=PROPS["C18"]["note"].replace(" Stack use is a bounded check, so the level is exploration.", "") + FRAMES +
        " A document that has been read has at most fifty brackets open anywhere (theorem_depth_read, rquery and rschema); and for every document of which that is so, and every style, "
        "every display function calls only those of a smaller measure, eight times the depth that is left plus a rank, and no indentation reaches 61 * 2^32 (wquery, wschema). The bytes of "
        "stack that one call takes are a bounded check.",
    theorems=PROPS["C18"]["theorems"] + ["theorem_frames", "theorem_depth_read", "inc_indent", "start_block"])
# what wquery and wschema prove is assumed in the tracks that print
LOWER = "brackets are not 2^32 deep (a parsed document's are at most fifty), so no indentation reaches 2^64"
for c in PROPS:
    PROPS[c]["assumptions"] = [a.replace(LOWER, "no indentation reaches 2^64 (proved for every document that has been read: C18, wquery and wschema)") for a in PROPS[c]["assumptions"]]
# whose failing input explains a refused obligation of a shared contract
SHARED = {"tokenizer": ["C05", "C06", "C07", "C08", "C09", "C11", "C18", "C01", "C02", "C10"], "strings": ["C04", "C18", "C03", "C01", "C02"],
          "gquery": ["C14", "C07", "C10", "C17", "C04", "C11", "C18", "C01"], "gschema": ["C15", "C07", "C13", "C11", "C18", "C02"], "dirloc": ["C13", "C02"],
          "print": ["C03", "C01", "C02", "C16", "C18"], "fquery": ["C01", "C03", "C16", "C18"], "fschema": ["C02", "C03", "C16", "C18"],
          "rquery": ["C01"], "cquery": ["C10"], "rschema": ["C02"], "oquery": ["C12"], "oschema": ["C12"],
          "shown": ["C16"], "nquery": ["C16", "C01", "C03", "C18"], "nschema": ["C16", "C02", "C03", "C18"], "hquery": ["C08", "C18"], "hschema": ["C08", "C18"], "wquery": ["C18"], "wschema": ["C18"]}
