SRC = "crates/wolfram-parser/src/"
def at(f):
    return f if f.startswith("crates/") else SRC + f
W = "crates/codeparser-wll/src/"
def A(files, mech, **kw):
    d = {"files": [at(f) for f in files], "mechanism": [{"name": n, "where": at(w)} for n, w in mech]}
    if "observe_at" in kw: kw["observe_at"] = [kw["observe_at"]]
    d.update(kw)
    return d
NA = {}
PROPS = [
 dict(id="P01", title="Parsing always answers: no panic, no runaway, on any bytes",
  statement="Every tokenizing, parsing and character-iteration entry point returns on every byte string, under every combination of options, without panicking and with work bounded by a fixed multiple of the input length (for inputs of bounded nesting depth). The single-expression entry points return whenever the input holds exactly one node.",
  quantifier={"over": ["inputs", "configurations"], "text": "all byte strings of bounded nesting depth, valid UTF-8 or not, under all option combinations (source convention, tab width, first line behaviour, encoding mode, quirks)"},
  why_tests_cant="The crashes sit in combinations of unfinished constructs, odd characters and options; a test fixes one of them.",
  anchors=A(["lib.rs","parse.rs","tokenize/tokenizer.rs","error.rs","abstract_cst.rs","read/character_decoder.rs","read/byte_decoder.rs"],[("recursive descent driver","parse.rs"),("unterminated construct recovery","error.rs"),("abstraction","abstract_cst.rs")],observe_at="return of every public entry point",hook_needed="a byte read counter turns a runaway loop into a verdict"),
  technique="fuzzing with hostile text, mutated programs and malformed bytes against a no-panic and step-budget oracle",
  level_note="Random search over inputs up to some hundred bytes; debug assertions and overflow checks of the library are on. Deep nesting (stack use) is out of scope."),
 dict(id="P02", title="Tokens partition the source text exactly",
  statement="The tokens of any text are non-empty, consecutive pieces of it that start at its beginning and together cover all of it, apart from line continuations directly before the end of input. The token list and the token iterator give the same tokens, except that the list may cut an unterminated string, comment or file name short.",
  quantifier={"over": ["inputs", "configurations"], "text": "all UTF-8 texts, all option combinations that do not skip a first line"},
  why_tests_cant="Tests list the tokens of chosen snippets; a character lost or read twice only shows for particular neighbours.",
  anchors=A(["tokenize/tokenizer.rs","read.rs","read/byte_buffer.rs","lib.rs"],[("token reader","tokenize/tokenizer.rs"),("mark and seek","read.rs")],observe_at="returned tokens, as slices of the input"),
  technique="property-based testing: partition invariant over generated text",
  level_note="Random search; every token is compared with the input by address, not by content."),
 dict(id="P03", title="The concrete syntax tree is lossless",
  statement="The leaves of the concrete syntax tree of any text, read left to right, are exactly the consecutive pieces of that text; the only leaves without text stand for a missing operand, an implied operator or an implied Null. Text may be missing only at the very end, and only when the tree ends inside a construct that was never closed (or for line continuations directly before the end of input).",
  quantifier={"over": ["inputs", "configurations"], "text": "all UTF-8 texts, all option combinations that do not skip a first line"},
  why_tests_cant="Losslessness must hold for every arrangement of trivia, errors and operators; formatters and refactoring tools write the tree back.",
  anchors=A(["parse_cst.rs","parse.rs","parse/parselet.rs","error.rs"],[("node stack and trivia handling","parse_cst.rs"),("trivia reset","parse.rs")],observe_at="leaves of the returned tree, as slices of the input"),
  technique="property-based testing: round trip of the tree's leaves against the input text",
  level_note="Random search; leaves compared by address. How much may be cut after an unclosed construct is P21."),
 dict(id="P04", title="Every token is positioned where its text is",
  statement="The span of every token and tree leaf is the position of its text: in line and column form lines end at LF, CR or CRLF, a tab advances to the next tab stop of the configured width and every other character advances one column; in index form every character counts one. This holds under both conventions, for every tab width, and for cut-short unterminated tokens too.",
  quantifier={"over": ["inputs", "configurations"], "text": "all UTF-8 texts, both source conventions, all tab widths"},
  why_tests_cant="Positions depend on everything before them: line ending styles, tabs, wide characters, escapes, look-ahead that is taken back.",
  anchors=A(["read.rs","read/byte_decoder.rs","source.rs","error.rs"],[("location advance","read/byte_decoder.rs"),("span construction","source.rs"),("unterminated token spans","error.rs")],observe_at="spans of tokens and leaves"),
  technique="model-based testing: an independent position model over generated text",
  level_note="Random search against a separately written position model, both conventions and six tab widths."),
 dict(id="P05", title="Spans nest, never overlap, and abstraction keeps them",
  statement="In the concrete tree every node spans exactly from its first to its last child, siblings do not overlap and appear in source order. In the abstract tree every positioned node lies inside its positioned parent, siblings lie apart, and each top-level abstract node lies at its concrete node; every leaf lies exactly at its text, every call at the node (or the subtracted operand) it was made from, and, in a program without errors, every atom of the text is found exactly once, at its place.",
  quantifier={"over": ["inputs", "configurations"], "text": "all UTF-8 texts, both source conventions, all tab widths"},
  why_tests_cant="Abstraction rewrites trees in hundreds of ways, each of which has to carry positions along.",
  anchors=A(["cst.rs","abstract_cst.rs","abstract_cst/abstract_call_node.rs","source.rs"],[("node spans","cst.rs"),("span union","source.rs"),("abstraction metadata","abstract_cst.rs")],observe_at="spans of concrete and abstract nodes"),
  technique="property-based testing: interval nesting invariants, and abstract against concrete places, over generated text",
  level_note="Random search; synthesised abstract nodes without a position are skipped, and operands of a chain that lie at the whole chain are not compared with their siblings."),
 dict(id="P06", title="Operators group by the Wolfram precedence table",
  statement="Every well-formed expression is parsed into the one tree the language's precedence and associativity table prescribes: for every pair of operators the tighter one binds first, chains of equal operators nest to the documented side or flatten into one node, prefix, postfix, ternary, bracket, implicit multiplication, span and pattern forms nest as the language defines, and trivia never changes that tree.",
  quantifier={"over": ["inputs"], "text": "all well-formed sequences of atoms, all 300-odd operators, brackets and compound forms, at every nesting and adjacency"},
  why_tests_cant="There are some hundred thousand pairs of operators and unbounded nestings; the tests look at a handful.",
  anchors=A(["precedence.rs","parse/parselet.rs","parse/token_parselets.rs","parse.rs","parse/operators.rs"],[("operator precedence parser","parse/parselet.rs"),("precedence table","precedence.rs"),("token to parselet table","parse/token_parselets.rs")],observe_at="shape, heads and leaves of the returned concrete tree"),
  technique="differential property-based testing: generated well-formed programs against a reference Pratt parser over a frozen operator table",
  level_note="Random search; every ordered pair of operators is reached by a dedicated generator. The reference table is a frozen copy of the documented one."),
 dict(id="P07", title="Layout and redundant parentheses never change the meaning",
  statement="Blanks, newlines inside brackets, comments and line continuations between tokens do not change the tree other than by the trivia itself, and do not change the abstract syntax; parentheses put around any subexpression where they only repeat the grouping already there do not change the abstract syntax.",
  quantifier={"over": ["inputs"], "text": "all well-formed expressions, all ways to put trivia between their tokens and parentheses around their subexpressions"},
  why_tests_cant="A metamorphic relation over arbitrary programs and arbitrary trivia placements.",
  anchors=A(["parse.rs","parse/parselet.rs","abstract_cst.rs","tokenize/tokenizer.rs","read/character_decoder.rs"],[("trivia handling","parse.rs"),("line continuations","read/character_decoder.rs"),("parenthesis removal","abstract_cst.rs")],observe_at="concrete tree without trivia, abstract tree without positions"),
  technique="metamorphic property-based testing: respacing and parenthesising generated programs",
  level_note="Random search. Where parentheses do carry meaning by design (derivative and pattern test chains, signs inside sums, spans, differentials) they are not added."),
 dict(id="P08", title="A character means the same however it is written",
  statement="Every character may be written as itself, as its long name \\[Name], or as a hexadecimal or octal escape (\\.hh, \\:hhhh, \\|hhhhhh, \\ooo): each well-formed escape decodes to exactly the character the published tables give it, malformed and unknown ones never decode to a character, and an escape ends exactly where its notation ends. Writing characters of symbols, operators and brackets in another notation changes neither the concrete tree nor the abstract syntax, other than the text of the leaves.",
  quantifier={"over": ["inputs"], "text": "all texts, all escapes of all notations at every place, including at line continuations and the end of the text"},
  why_tests_cant="There are over a thousand long names and a million code points, each with several notations, at any place of any program.",
  anchors=A(["read/character_decoder.rs","generated/long_names_registration.rs","long_names.rs","tokenize/tokenizer.rs","abstract_cst.rs"],[("escape decoding","read/character_decoder.rs"),("long name tables","generated/long_names_registration.rs")],observe_at="iter::wolfram_chars; leaves and shape of both trees"),
  technique="differential testing against a reference decoder over the published long name table, and a respelling metamorphic relation over generated programs",
  level_note="Random search; every long name and every code point class is drawn."),
 dict(id="P09", title="Bytes decode as UTF-8 and bad bytes are reported and contained",
  statement="Well-formed UTF-8 decodes to exactly its characters, with CRLF read as one newline. Every entry point reports an unsafe encoding exactly when the bytes are malformed UTF-8 (or hold a surrogate or a byte order mark), naming a kind of damage that occurs, and the parser reports malformed bytes as fatal issues at their positions. Damage stays local: each malformed sequence acts like one invalid character, and everything else parses to the same kinds, positions and tree shape as without it.",
  quantifier={"over": ["inputs", "configurations"], "text": "all byte strings, all options; the containment part leaves out bytes inside constructs that are never closed"},
  why_tests_cant="Decoders fail at sequence boundaries, truncations and overlong or surrogate forms in any combination with the syntax around them.",
  anchors=A(["read/byte_decoder.rs","utils.rs","lib.rs","issue.rs"],[("UTF-8 state machine","read/byte_decoder.rs"),("unsafe encoding flag","lib.rs")],observe_at="iter::source_chars, tokenize_bytes, safe_string, unsafe_character_encoding, fatal issues, trees"),
  technique="fuzzing with malformed byte sequences against a reference UTF-8 decoder, and a containment metamorphic relation",
  level_note="Random search; all lead and continuation byte classes, truncated at every point."),
 dict(id="P10", title="Number tokens follow the number syntax exactly",
  statement="Wherever a number starts, the token read is the one the number syntax defines: integer, real or rational, with base, fraction, precision or accuracy mark and exponent as far as they are well-formed and not one character further; a number that the syntax rejects (digit out of range of its base, base out of range, missing digits) is one Error_Number token.",
  quantifier={"over": ["inputs"], "text": "all strings of number syntax in all contexts"},
  why_tests_cant="Number syntax needs many characters of look-ahead that must be given back when what follows does not fit; the dangerous inputs are near misses.",
  anchors=A(["tokenize/tokenizer.rs"],[("number reader","tokenize/tokenizer.rs")],observe_at="kind and extent of number tokens"),
  technique="differential property-based testing: generated near-number text against a reference number lexer",
  level_note="Random search, three million strings in the quick tier. How far an Error_Number extends past the first fault is left open."),
 dict(id="P11", title="Every token has the kind and extent the lexical rules give",
  statement="At every position of any text the token read has the kind and the extent the language's lexical rules give: the longest operator, the whole symbol with its contexts, strings and nested comments to their closing mark, slots, blanks and outs with their suffixes, blanks and newlines one by one, and any character that starts nothing as an error token. Which characters are letters, operators, spaces, newlines or errors follows the published long name table.",
  quantifier={"over": ["inputs"], "text": "all UTF-8 texts and all code points, in the ordinary (not tag or file name) lexical mode"},
  why_tests_cant="Maximal munch interacts with whatever follows; there are 300 operators, a thousand named characters and a million code points.",
  anchors=A(["tokenize/tokenizer.rs","read/code_point.rs","generated/long_names_registration.rs","tokenize/token_kind.rs"],[("token dispatch","tokenize/tokenizer.rs"),("character classes","read/code_point.rs")],observe_at="kind and extent of every token of iter::tokens"),
  technique="differential property-based testing: generated text against a reference lexer",
  level_note="Random search; the extent of malformed backslash sequences is left open."),
 dict(id="P12", title="Malformed programs carry an error, well-formed ones none",
  statement="A well-formed program gives a concrete tree without error nodes or error tokens and no fatal issue. A program that the grammar rejects (missing operands, misplaced operators, unmatched or mismatched brackets) carries an error node or error token in the concrete or abstract tree, text whose brackets do not match always carries one in both, and an error in the concrete tree is never lost in the abstract one.",
  quantifier={"over": ["inputs", "configurations"], "text": "all well-formed programs, all programs one or two edits away from them, and any text for the bracket part"},
  why_tests_cant="Linters and kernels trust the absence of errors; every operator meets every kind of missing operand and every wrong closer.",
  anchors=A(["parse/parselet.rs","parse.rs","parse_cst.rs","abstract_cst.rs","error.rs"],[("error nodes","parse/parselet.rs"),("group closers","parse/parselet.rs"),("error abstraction","abstract_cst.rs")],observe_at="error nodes and error tokens of both trees, fatal issues"),
  technique="mutation-based property testing: generated programs and damaged copies against a reference grammar's verdict",
  level_note="Random search. An empty place between commas is an error token of the concrete tree only and means Null."),
 dict(id="P13", title="Abstract syntax is the FullForm the language defines",
  statement="The abstract syntax of every well-formed expression is the nested call form the language defines for it, under every combination of quirk settings: each operator becomes the call of its head on its operands in order, parentheses and trivia vanish, associative and implicit forms become one call, and slots, blanks, strings of tags, signs, fractions, derivatives, comparisons and spans take their documented forms. Parsing the FullForm text of that abstract syntax gives the same abstract syntax again. The string made of a message tag, slot name or file name stands for exactly that name. A call or group that an outer closer ends has the abstract form it would have if closed, marked as missing its closer.",
  quantifier={"over": ["inputs", "configurations"], "text": "all well-formed expressions of atoms, all operators, brackets and compound forms, under all eight quirk settings"},
  why_tests_cant="Abstraction has a rule per operator and per neighbour (signs in sums, comparisons in chains, quirk heads); tests sample single rules, programs mix them.",
  anchors=A(["abstract_cst.rs","abstract_cst/abstract_call_node.rs","quirks.rs","ast.rs"],[("abstraction rules","abstract_cst.rs"),("call nodes","abstract_cst/abstract_call_node.rs"),("quirk settings","quirks.rs")],observe_at="heads, arguments and leaves of the returned abstract tree"),
  technique="differential property-based testing: generated programs against a reference translation, and a FullForm round trip",
  level_note="Random search against a separately written translation, all quirk combinations."),
 dict(id="P14", title="All entry points tell the same story, again and again",
  statement="The result of parsing depends on the text and the options alone: parsing text or its bytes, a sequence or a single node, the abstract syntax directly or by aggregating and abstracting the concrete tree gives the same trees, positions, issues, tracked places and encoding flag, and repeating a parse, whatever was parsed before under whatever options and on whatever thread, gives an identical result.",
  quantifier={"over": ["inputs", "configurations", "histories"], "text": "all texts and options, all entry points, all short histories of other parses on the same and on other threads"},
  why_tests_cant="Each test calls one entry point once; drift between entry points and state kept between calls show only when the results are compared.",
  anchors=A(["lib.rs","parse.rs","parse_cst.rs","abstract_cst.rs","tokenize/tokenizer.rs"],[("entry points","lib.rs"),("parser session","parse.rs"),("aggregation","abstract_cst.rs")],observe_at="results of every public entry point"),
  technique="differential and history-based property testing: every entry point against every other, and each parse against itself after other parses",
  level_note="Random search; histories of one to four other parses."),
 dict(id="P15", title="Lines parse independently of what stands before them",
  statement="When a text leaves nothing open at its end, the text that follows it on the next line parses to exactly the nodes, positions (moved to where it stands), issues and tracked places it has on its own: earlier lines never change the meaning of later ones, and a newline outside brackets always ends a complete expression.",
  quantifier={"over": ["inputs", "configurations"], "text": "all pairs of texts of which the first is complete, both source conventions, all tab widths"},
  why_tests_cant="A relation between the parses of a whole and of its parts, for every pair of texts; tests parse single expressions.",
  anchors=A(["parse.rs","parse/parselet.rs","read.rs","tokenize/tokenizer.rs"],[("top-level newline handling","parse/parselet.rs"),("group nesting depth","parse.rs")],observe_at="trees, positions, issues and tracked places of the whole and of its parts"),
  technique="metamorphic property-based testing: concatenating generated texts",
  level_note="Random search; first texts that end in an error, an unclosed construct, a continuation or an integral waiting for its differential are left out."),
 dict(id="P16", title="Options change only what they are documented to change",
  statement="The source convention and the tab width change positions only, and the positions they give correspond to the same places of the text; quirk settings change the abstract syntax only; the encoding mode changes no tree. Everything else, trees, texts, kinds, errors and the number and order of issues, is the same under all options.",
  quantifier={"over": ["inputs", "configurations"], "text": "all texts under all pairs of options that do not skip a first line"},
  why_tests_cant="A relation between two parses of every text under every pair of options.",
  anchors=A(["lib.rs","source.rs","read/byte_decoder.rs","error.rs","quirks.rs"],[("options","lib.rs"),("source conventions","source.rs")],observe_at="trees, positions and issues under two option sets"),
  technique="metamorphic property-based testing: the same generated text under two option sets",
  level_note="Random search; constructs that are never closed are cut differently under the two conventions and left out there."),
 dict(id="P17", title="The kernel receives exactly the tree the parser built",
  statement="What the library functions ConcreteParseBytes, TokenizeBytes, ConcreteParseLeaf and their file variants send back over the link is exactly the parser's answer for the same bytes and options: every node with its kind, head, text and position, every issue with all its fields, the tracked places and the encoding flag, in order and complete; a file that cannot be read and an aborted call give no tree. Every option argument reaches the parser, and no call leaves anything behind that changes the next one.",
  quantifier={"over": ["inputs", "configurations", "histories"], "text": "all bytes, all option arguments, both source conventions, all files, abort at every check"},
  why_tests_cant="No test runs the LibraryLink crate at all, and its serialisation has one case per node type, issue kind and position form.",
  anchors=A([W+"lib.rs",W+"convert_wstp.rs",W+"convert_expr.rs"] ,[("library functions",W+"lib.rs"),("tree to expression",W+"convert_wstp.rs")],observe_at="expression sent over the link"),
  technique="model-based property testing: the real LibraryLink crate over an in-process link against an independent serialisation of the parser's answer",
  level_note="Random search. The link library is replaced by a stand-in that records what is sent; the crate under test is compiled unmodified from /repo. Nested Associations count as spliced and rule order is ignored, as in the kernel."),
 dict(id="P18", title="Trees survive the way to the kernel and back",
  statement="Any tree the parser can build, sent to the kernel and passed back to RoundTripTest, comes back the same; passed back to Abstract it gives the abstract syntax the Rust library computes for it.",
  quantifier={"over": ["inputs", "configurations"], "text": "all trees of all texts under all options and quirks"},
  why_tests_cant="Reading has to undo writing for every node type, operator, token kind and metadata form; no test runs it.",
  anchors=A([W+"lib.rs",W+"from_expr.rs",W+"convert_wstp.rs"],[("expression to tree",W+"from_expr.rs"),("Abstract",W+"lib.rs")],observe_at="expression sent back over the link"),
  technique="round-trip property testing: generated trees through the real LibraryLink crate",
  level_note="Random search, with the same in-process link as P17."),
 dict(id="P19", title="Box trees are read, positioned and abstracted like text",
  statement="A tree of boxes as the front end lays one out comes back from RoundTripTest unchanged, and its abstract syntax is that of the same program written as text, with every node at the box path it came from (a node made of part of a row may have none), box nodes keeping their kind and having their contents abstracted in the same way.",
  quantifier={"over": ["inputs", "configurations"], "text": "all well-formed and damaged programs laid out in rows of boxes, with trivia boxes kept or taken out, with boxes other than RowBox and GridBox as operands"},
  why_tests_cant="Box positions go through their own union and between rules in every abstraction rewrite; the tests have a handful of box trees.",
  anchors=A(["source.rs","abstract_cst.rs",W+"from_expr.rs"],[("box positions","source.rs"),("box abstraction","abstract_cst.rs")],observe_at="expression sent back over the link"),
  technique="metamorphic property testing: generated programs laid out as boxes against the same programs as text",
  level_note="Random search. RowBox and GridBox nodes as operands and boxes with the wrong number of arguments are documented as unimplemented and left out."),
 dict(id="P20", title="Skipping the first line leaves the rest as if it stood alone",
  statement="When the text starts with #! and the options allow for it (FirstLineBehavior::Check or Script), exactly the first line and its newline (\\n, \\r\\n or \\r) are skipped: the trees, tokens, issues and tracked places of the whole are those of the text behind that line, with positions on the following line and character positions counted from the true start. Text that only nearly starts with #!, and every text under NotScript, is parsed whole.",
  quantifier={"over": ["inputs", "configurations"], "text": "all texts, first lines, newline styles, first line behaviours and source conventions"},
  why_tests_cant="A relation between the parse of a text and of its tail, for every text behind every first line.",
  anchors=A(["lib.rs","tokenize/tokenizer.rs","read/byte_decoder.rs"],[("first line behaviour","tokenize/tokenizer.rs")],observe_at="trees, tokens, positions and issues with and without the first line"),
  technique="metamorphic property-based testing: a generated text behind a first line against the text alone",
  level_note="Random search. Encoding issues about the skipped line itself are allowed."),
 dict(id="P21", title="What is never closed is cut before the next statement",
  statement="A group, string or comment that is still open at the end of the text becomes one error node that ends before the first later line that looks like the start of a new statement (as error.rs describes), or at the end of the text if there is none; what it keeps is exactly the tokens or the text up to there, with the positions of the text, and the text before the construct is read as usual. Nothing that is properly closed is cut.",
  quantifier={"over": ["inputs", "configurations"], "text": "all texts with something unclosed followed by any lines, under both source conventions"},
  why_tests_cant="Which line ends the construct depends on the form of every later line; tests have one or two such texts.",
  anchors=A(["error.rs","parse_cst.rs"],[("unterminated groups","error.rs"),("unterminated tokens","error.rs")],observe_at="concrete syntax tree and token list of texts with unclosed constructs"),
  technique="property-based testing against a reference model of which lines start a statement",
  level_note="Random search. Lines with malformed tokens are left open."),
 dict(id="P22", title="Tags, file names, slots and Out are read by their own rules",
  statement="Directly behind ::, <<, >> and >>>, #, ## and % the text is read by the rules of message tags, file names, slot names, slot numbers and output numbers, and by the ordinary rules everywhere else: the leaf behind the operator has exactly the kind and extent those rules give, and reading resumes with ordinary tokens right behind it.",
  quantifier={"over": ["inputs", "configurations"], "text": "all texts around these operators, under all options"},
  why_tests_cant="The extent of each word depends on every character that may follow; tests sample a few.",
  anchors=A(["tokenize/tokenizer.rs","parse/parselet.rs"],[("stringify as tag","tokenize/tokenizer.rs"),("stringify as file","tokenize/tokenizer.rs")],observe_at="leaf behind the operator in the concrete syntax tree"),
  technique="property-based testing against a reference lexer for these contexts",
  level_note="Random search. A backtick directly behind a tag is left open."),
 dict(id="P23", title="Issues lie where they say, and their offered fixes keep the meaning",
  statement="Every issue and every code action has a position inside the text; fatal issues are reported apart from the others, at most ten of them, and no issue is reported twice; confidence levels are between 0 and 1. A character outside ASCII is reported exactly at its own place, and whenever it would be reported standing alone. Applying a code action that only respells or respaces (a character by its \\[Name] or hex form, an inserted space, the * of 1.2.3) leaves the abstract syntax as it was and makes the issue go away.",
  quantifier={"over": ["inputs", "configurations"], "text": "all texts and options, all issues and all their actions"},
  why_tests_cant="Each issue computes its own positions by counting back from where it was noticed; no test applies an action.",
  anchors=A(["issue.rs","tokenize/tokenizer.rs","read/character_decoder.rs","read/byte_decoder.rs"],[("issues","issue.rs"),("code actions","issue.rs")],observe_at="issues of a parse and the parse of the text with an action applied"),
  technique="property-based testing: invariants of every issue, and a metamorphic relation that applies each action",
  level_note="Random search. Actions that guess at another meaning are only checked for their position; texts with syntax errors, tags, slots and file names are left out where actions are applied."),
 dict(id="P24", title="Line continuations, embedded newlines and tabs are tracked completely",
  statement="The tracked places of a parse are the starts of exactly those tokens that contain a line continuation outside a string (simple), one inside a string (complex), a newline inside a string or comment, or a tab inside a string or comment; a token that reading went past a continuation for may be marked as well. Nothing depends on how the line ends.",
  quantifier={"over": ["inputs", "configurations"], "text": "all texts under all options"},
  why_tests_cant="The tokenizer marks these at each place where it reads on; the tests look at none of the sets.",
  anchors=A(["tokenize/tokenizer.rs"],[("TrackedSourceLocations","tokenize/tokenizer.rs")],observe_at="tracked places of a parse result"),
  technique="property-based testing against the places computed from the leaves of the tree",
  level_note="Random search; texts with unclosed constructs, unreadable characters or file operators are left out."),
 dict(id="P25", title="Positions and spans compare as the text they cover",
  statement="For all spans of either convention: contains and overlaps answer exactly whether the place, or any common place, is covered, ends included, and overlaps is symmetric; places are ordered by line, then column, or by character; spans are ordered by their starts; conversion, start, end and Display lose nothing. The place between two boxes is the stretch of the innermost row that holds both. For every tree, the span of a node contains and overlaps the span of everything in it.",
  quantifier={"over": ["inputs"], "text": "all pairs of spans and places, and all pairs of a node and its descendants in all trees"},
  why_tests_cant="Case analysis over lines and columns; the tests have a handful of pairs.",
  anchors=A(["source.rs","utils.rs"],[("LineColumnSpan::contains","source.rs"),("Span::overlaps","source.rs")],observe_at="answers of the span methods"),
  technique="property-based testing against sets of places",
  level_note="Random search, dense in spans that touch or share lines."),
 dict(id="P26", title="Traversal and printing cover the whole tree",
  statement="For every concrete tree, as read or aggregated: visit, visit_mut and map_visit reach every node exactly once, each node before what is in it and from left to right; map_visit with the identity and into_owned_input give back the same tree, and changes made to nodes in visit_mut and map_visit all arrive. FmtAsExpr prints every node with its head, its kind, its children in order, its text and its position.",
  quantifier={"over": ["inputs", "configurations"], "text": "all trees of all texts under all options"},
  why_tests_cant="One case per node type, in each of five traversals; the tests use none of them on whole programs.",
  anchors=A(["cst/visit.rs","cst.rs","fmt_as_expr.rs"],[("visit and map_visit","cst/visit.rs"),("FmtAsExpr","fmt_as_expr.rs")],observe_at="sequence of visited nodes and printed text"),
  technique="property-based testing against an independent walk and by reading the printed text back",
  level_note="Random search. Printed text may be escaped or not, and printing of character positions is unimplemented and left out."),
 dict(id="P27", title="Characters print as they were written",
  statement="For every text, the characters of iter::source_chars, printed one after the other, are the text. Every character of iter::wolfram_chars, and every WLCharacter made from a character and a notation that can hold it, prints in its notation (as itself, single, octal, 2, 4 or 6 hex digits, long name) such that reading the printed text gives the same character in the same notation. The graphical form ({:#}) is printable ASCII for every character, stands for that character, and never panics.",
  quantifier={"over": ["inputs"], "text": "all characters in all notations, and all texts"},
  why_tests_cant="A million characters times eight notations, in two forms; the tests print a few dozen.",
  anchors=A(["read/wl_character.rs","source.rs","byte_encoder.rs","long_names.rs"],[("Display of WLCharacter","read/wl_character.rs"),("Display of SourceCharacter","source.rs"),("codepoint_to_longname","long_names.rs")],observe_at="Display of WLCharacter and SourceCharacter"),
  technique="property-based testing with a round trip through an independent escape decoder",
  level_note="Random search. A character with several long names may print with any of them."),
 dict(id="P28", title="Suspicious code is flagged, and only that",
  statement="For every program without syntax errors, the issues in the metadata of the abstract syntax are exactly those its concrete tree calls for: StrangeCall and StrangeCallSlotSequence for each call, part or type specification by the kind of its head, PrefixNotNot for !!, SyntaxUndocumentedMessageName for more than two tags, each with its severity, confidence and place. For every text without unclosed brackets, Ambiguous (such as =!, <-, /.1, --=, ++=, |>=, 1.., #1.), UnexpectedDot (_..), UnexpectedImplicitTimes (1.2.3), UnexpectedSign (1`-2) and UndocumentedSlotSyntax (at each $ and quote of a slot name, and from its beginning to each `) are reported exactly where such neighbours are, once each.",
  quantifier={"over": ["inputs", "configurations"], "text": "all programs without errors; all strings of operators, numbers, blanks and slots"},
  why_tests_cant="Dozens of kinds of heads times five kinds of bodies, nested and behind each other, and the silence on everything else; the tests sample a few.",
  anchors=A(["abstract_cst/abstract_call_node.rs","abstract_cst.rs","tokenize/tokenizer.rs"],[("abstract_call_node","abstract_cst/abstract_call_node.rs"),("Tokenizer_backupAndWarn and others","tokenize/tokenizer.rs")],observe_at="issues in ParseResult and in the metadata of the abstract syntax"),
  technique="property-based testing against the issues computed independently from the aggregated tree and from neighbouring leaves",
  level_note="Random search. Texts with errors, unclosed brackets, file names, tags, and numbers whose precision mark is followed by a sign or dot are left out."),
 dict(id="P29", title="Every bracket belongs to one group, and a stray one disturbs no other",
  statement="For every text, the groups of the concrete tree are those its brackets say: each opener begins one group of its kind; a closer closes the innermost open group it matches, and the groups opened inside that one and still open end just before it (GroupMissingCloser, without the trivia before the closer); a closer that matches no open group is an Error_UnexpectedCloser leaf where it stands, and ends nothing. So one missing or superfluous bracket leaves all groups outside it and beside it intact, at any depth.",
  quantifier={"over": ["inputs", "configurations"], "text": "all texts in which no bracket is still open at the end; all options"},
  why_tests_cant="The kinds of brackets can be interleaved and broken in unboundedly many ways, with any operators half-finished in between; the tests have a dozen.",
  anchors=A(["parse/parselet.rs","parse.rs","tokenize/token_kind.rs"],[("GroupParselet::parse_prefix","parse/parselet.rs"),("PrefixToplevelCloserParselet","parse/parselet.rs"),("ParserSession::check_group","parse.rs")],observe_at="nesting of the groups in the result of parse_cst_seq"),
  technique="property-based testing against a stack machine over the leaves of the tree",
  level_note="Random search. Texts with a bracket still open at the end are left to P21."),
dict(id="P30", title="Malformed escapes and odd characters are reported, where they are",
  statement="For every text, a backslash sequence outside comments that is no escape of the language is reported once, as a fatal UnhandledCharacter over exactly its text, with the code actions that repair it (the missing bracket inserted, the backslash doubled, the nearest known name); an unknown name behind a doubled backslash is an UnrecognizedLongName. Characters that have no place in code, raw or escaped, are UnexpectedCharacter at their text; raw characters outside ASCII are NonASCIICharacter in the normal encoding mode, with their ASCII spelling as replacement where there is one; unusual blanks, newlines and letters are UnexpectedSpaceCharacter, UnexpectedNewlineCharacter and UnexpectedLetterlikeCharacter exactly at them. A carriage return that stands alone is an UnexpectedCarriageReturn, once, at it or right behind it (it may go unreported behind <<, # and :: and in a line continuation). Letters outside ASCII in a message tag are UnexpectedCharacter, each at its text. Nothing else is reported under these tags.",
  quantifier={"over": ["inputs", "configurations"], "text": "strings, comments and code with any mixture of well-formed and malformed escapes and any characters; all options"},
  why_tests_cant="There are about a thousand named characters, four escape notations, every way to break each, and each is read by different code in strings, comments and code; the tests hold a few of them and none of the code actions.",
  anchors=A(["read/character_decoder.rs","tokenize/tokenizer.rs","utils.rs","feature.rs","issue.rs"],[("CharacterDecoder_handleLongName","read/character_decoder.rs"),("CharacterDecoder_handleUnhandledEscape","read/character_decoder.rs"),("CharacterDecoder_handleUncommon","read/character_decoder.rs"),("Tokenizer","tokenize/tokenizer.rs")],observe_at="non_fatal_issues and fatal_issues of ParseResult and of tokenize"),
  technique="property-based testing against an independent scan of the text that says which issues and code actions there are",
  level_note="Random search. Which characters are strange, usual or have ASCII spellings is frozen from the repository's data."),
dict(id="P31", title="The command-line program prints what the library answers, to the end",
  statement="For every file given with -file, and for every line of standard input, the command-line program prints exactly what the library answers in the mode its flags select (the last one given; --flatten-times as the quirk of that name; nothing under -n and the check flags), with a prompt before each line's answer; it ends with success after the file, or at the end of standard input, whether or not the last line is ended.",
  quantifier={"over": ["inputs", "configurations"], "text": "all files, all sequences of lines, all flags; -tokenize and -safestring only for valid UTF-8"},
  why_tests_cant="No test runs the program; flags combine freely and any text can be piped into it.",
  anchors=A(["bin/main.rs","fmt_as_expr.rs","lib.rs"],[("main","bin/main.rs"),("handle","bin/main.rs"),("read_std_in","bin/main.rs")],observe_at="standard output and exit status of the program"),
  technique="property-based testing of the built program against the library",
  level_note="Random search; each case runs the program once."),
dict(id="P32", title="Built without positions, the parser reads the same",
  statement="With the cargo feature COMPUTE_SOURCE off, every text that leaves nothing open gives the same tokens, the same concrete tree and abstract syntax, the same encoding flag and the same kinds of issues with the same messages and code actions as with it on; only positions are missing (and where brackets are adjacent is not known).",
  quantifier={"over": ["inputs", "configurations"], "text": "all texts and byte strings in which nothing is left open and no two square brackets stand apart, under all options"},
  why_tests_cant="No test is run in that build; every place that moves or compares a location has to do without.",
  anchors=A(["feature.rs","read/byte_decoder.rs","source.rs","read/character_decoder.rs"],[("COMPUTE_SOURCE","feature.rs"),("Location::next and previous","source.rs"),("ByteDecoder_nextSourceCharacter","read/byte_decoder.rs")],observe_at="tokenize_bytes, parse_bytes_cst_seq and parse_bytes_ast_seq of the two builds"),
  technique="property-based testing, differential between the two builds of the parser",
  level_note="Random search; the other build runs in a process beside the search."),
]
