#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json, os
L="src/lexer/mod.rs"; K="src/lexer/keywords.rs"; POS="src/lexer/position.rs"; D="lolcode-ast-derive/src/lib.rs"
SI="src/parser/statement_iterator.rs"; B="src/parser/blocks.rs"; S="src/parser/statements/"; E="src/parser/expression/"
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
NOLEX="No existing test calls the tokenizer at all: every unit test builds its tokens by hand, and the quantifier is over every text."
P=[
p("C01","Tokenizing is total: no text crashes or hangs it",
  "For every text, tokenizing returns: either the list of tokens, or the unclosed-multi-line-comment error. It never panics, loops or exhausts memory, whatever characters the text contains (including non-ASCII ones, control characters, and text cut off in the middle of a token). The error is returned exactly when an OBTW that starts a comment has no TLDR after it.",
  ["inputs"],"all UTF-8 texts",NOLEX,[L],[("token dispatch loop and the per-token recognisers","%s::tokenize"%L)],["lolcode_ast::tokenize"],
  [("remaining text / current position","the scan cursor; byte slicing must stay on character boundaries","%s::tokenize"%L)]),
p("C02","Tokens tile the source text: nothing lost, invented or overlapping",
  "The byte spans of the tokens are non-empty, in source order, disjoint and inside the text, and the text outside all spans is only spaces, tabs, carriage returns and newlines. The slice of source under each token's span is a spelling of exactly that token (a keyword's words, an identifier's name, a string in its quotes, a comment with its delimiters, a numeral of that value, a symbol's character). Hence the source, up to whitespace, can be rebuilt from the tokens.",
  ["inputs"],"all texts that tokenize successfully",NOLEX,[L,POS],[("raw slice consumed and recorded by one helper","%s::make_token"%L)],["Token.range bytes fields","Token.token_type"]),
p("C03","Every reported position is exact",
  "Every token's start and end position, and those of a tokenizing error, give the true 1-based line, 1-based column (counted in characters from the line start), 0-based byte offset and 0-based character offset of that point in the text. This holds after tabs, CRLF line ends, blank lines, non-ASCII characters, and strings or comments that span several lines. An unclosed-comment error spans from its OBTW to the end of the text.",
  ["inputs"],"all texts, all tokens and errors",NOLEX+" The lib.rs doctest that states one position does not compile.",[L,POS],[("position advance over whitespace and over raw token text","%s; %s"%(L,POS))],["Token.range","TokenError range"],
  [("current_position","line/column/byte/char cursor","%s::tokenize"%L)]),
p("C04","Keywords are recognised exactly, as whole words",
  "Wherever a token starts, a keyword token is produced if and only if the source there spells that keyword (its words in upper case separated by single spaces) and the spelling is not directly followed by another ASCII letter, digit or underscore; the whole keyword becomes one token of that keyword. Words that merely begin with a keyword's letters, differ in case, or complete only part of a multi-word keyword are ordinary identifiers. Every keyword's documented spelling tokenizes to that keyword (WIN, FAIL and NOOB to their literal values, BTW and OBTW to comments).",
  ["inputs"],"all texts x all 61 keywords x all following/preceding contexts",NOLEX+" The derive macro that spells the keywords is untested too.",[L,K,D],[("keyword table generated by derive","%s; %s"%(K,D)),("prefix matching with a word-boundary condition","%s::parse_keyword"%L)],["TokenType::Keyword","Keywords::to_string_slice"]),
p("C05","Literals carry exactly the value written",
  "A numeral (optional sign, digits, at most one dot, at least one digit) becomes one number token holding exactly that value: a 32-bit integer when it has no dot, otherwise the nearest 32-bit float, wherever it stands, including at the very end of the text. A string literal holds verbatim the characters between its opening quote and the first quote not escaped by a colon, where a colon escapes a following quote or colon (or everything to the end of the text when no such quote exists). WIN and FAIL hold true and false, NOOB is the null value.",
  ["inputs"],"all numerals and string bodies, in every context",NOLEX,[L],[("number, string, boolean and noob recognisers","%s::parse_number, parse_string, parse_boolean, parse_noob"%L)],["TokenType::Value"]),
p("C06","Comments are delimited and captured verbatim",
  "Where a token starts with BTW, a comment token covers the rest of that line up to but excluding the newline; where a token starts with OBTW, a comment token covers everything through the first following TLDR, across lines. The comment's text is exactly the characters between the delimiters, nothing inside a comment is tokenized, and tokenizing resumes directly after it. An OBTW without TLDR is reported as an unclosed-comment error, never as tokens.",
  ["inputs"],"all texts containing comment markers in any arrangement",NOLEX,[L],[("comment recognisers, run before keyword matching","%s::parse_single_line_comment, parse_multi_line_comment"%L)],["TokenType::CommentSingleLine","TokenType::CommentMultiLine","TokenError::UnclosedMultilineComment"]),
p("C07","Identifiers, punctuation and symbols are classified exactly",
  "A maximal run of ASCII letters, digits and underscores starting with a letter or underscore that is not a keyword or literal word is one identifier token with exactly that name. A comma, exclamation mark, question mark, slot access ('Z), and ellipsis (three dots or the single ellipsis character) each give their own dedicated token. Every other character outside strings and comments gives one symbol token holding that one character.",
  ["inputs"],"all texts",NOLEX+" The parser tests even feed a symbol '?' instead of the dedicated token.",[L],[("recogniser order in the dispatch loop","%s::tokenize"%L)],["TokenType::Identifier/Symbol/Comma/ExclamationMark/QuestionMark/BukkitSlotAccess/Ellipsis"]),
p("C08","Tokenizing is local: each line's tokens depend on that line only",
  "For texts a and b where a leaves no string or comment open, tokenizing a, a newline and b gives the tokens of a followed by the tokens of b with positions shifted accordingly. The same holds when a (not ending in a comment) and b are joined by a comma, with one comma token between. Leading and trailing whitespace changes only positions.",
  ["inputs","histories"],"all pairs (and longer chains) of texts",NOLEX,[L],[("no state other than cursor and position survives a token","%s::tokenize"%L)],["lolcode_ast::tokenize"]),
p("C09","Parsing is total: no token sequence crashes or hangs it",
  "For every sequence of tokens, including malformed, truncated and hand-built ones with arbitrary positions, parsing terminates and returns an AST, reporting problems as error nodes. It never panics, aborts, loops or exhausts memory (for nesting up to several hundred levels).",
  ["inputs"],"all token sequences",
  "Tests feed about 45 short, almost always well-formed sequences; the quantifier ranges over every keyword in every grammatical position and every truncation point.",[S+"mod.rs",E+"mod.rs",B,SI],[("error results converted to error nodes","%s::parse_block"%B),("statement dispatch","%smod.rs::parse_statement"%S)],["lolcode_ast::parse"]),
p("C10","Statement separators: newline, comma and continuation are interchangeable",
  "Statements may be separated by a newline, a comma, or any run of newlines and commas, and blank lines or leading and trailing separators are ignored: exchanging one separator for another changes nothing in the AST except positions. An ellipsis at a line end (or anywhere inside a statement) joins it with the next line, so splitting a statement between any two of its tokens with a space, an ellipsis and a newline also changes only positions. Whitespace between tokens has no effect on the AST.",
  ["inputs"],"all programs x all choices of separator and continuation at every token gap",
  "No test uses an ellipsis, a blank line or consecutive commas; one uses a single comma.",[SI,L],[("line/comma/ellipsis handling","%s::next, next_statement"%SI)],["lolcode_ast::parse","lolcode_ast::tokenize_and_parse"],
  [("current_line, peeked","which source line the current statement is on; one-token lookahead","%s::StatementIterator"%SI)]),
p("C11","Comments are transparent to the parser",
  "Adding or removing a BTW comment at the end of any line, or an OBTW...TLDR comment between statements or (when it holds no newline) within a line, changes nothing in the AST except positions. In particular a comment is never itself reported as a statement or as an error.",
  ["inputs"],"all programs x all comment placements","No test contains a comment token.",[SI,L],[("comment tokens skipped by the statement iterator",SI)],["lolcode_ast::tokenize_and_parse","lolcode_ast::parse"]),
p("C12","Expressions parse to the tree their prefix notation denotes",
  "Every well-formed expression, in every place an expression may stand, yields the tree its prefix notation denotes: each operator node is of the operator written and holds its operands in written order (one for NOT, two for binary operators with optional AN, any number for ALL OF, ANY OF and SMOOSH with optional ANs, ending at their own MKAY or else at the end of the statement). Literals stand for themselves, and a variable holds its name and slot accesses in order, each with its own SRS mark or none. Nesting is unrestricted: an inner operator never takes or loses an operand, AN or MKAY of an outer one.",
  ["inputs","programs"],"all expressions x all enclosing statement kinds","Tests cover a handful of fixed shapes of depth at most 3, and 4 of the 16 operators.",
  [E+"mod.rs",E+"binary_operation.rs",E+"nary_operations.rs",E+"unary_operation.rs",E+"variable_access.rs",E+"identifier.rs"],[("recursive descent on the operator keyword","%smod.rs::ASTExpression::parse"%E)],["Node::Expression and the Debug form of every statement"]),
p("C13","Each simple statement parses to one node with its parts as written",
  "Each well-formed I HAS A, assignment, slot assignment, VISIBLE, GIMMEH, FOUND YR, GTFO, I IZ, HAI, KTHXBYE and bare-expression statement produces exactly one AST node of its own kind. The node holds the statement's variable, value or type, arguments in order, version tokens, and the presence of the exclamation mark or initial value, exactly as written. What precedes or follows the statement does not change its node.",
  ["inputs","programs"],"all well-formed simple statements in all surroundings","Tests check one to five literal examples of each kind, always in isolation.",
  [S+f for f in ("mod.rs","i_has_a.rs","assignment.rs","bukkit_set_slot.rs","visible.rs","gimmeh.rs","found_yr.rs","gtfo.rs","i_is.rs","hai.rs","kthxbye.rs")],[("statement dispatch on the first token","%smod.rs::parse_statement"%S)],["lolcode_ast::parse"]),
p("C14","Blocks nest correctly and every statement lands in its own branch",
  "Each well-formed O RLY?, WTF?, IM IN YR and HOW IZ I construct produces exactly one node holding its header parts (conditions, case values, label, loop operation and condition, name, parameters) and, for each branch in order, exactly the statements written in that branch. Branches may be empty, constructs nest to any depth, each closing keyword closes the innermost open construct of its kind, and the statements after a construct are its siblings, unaffected by it.",
  ["inputs","programs"],"all well-formed nestings of blocks","Tests parse one or two flat blocks of each kind with one statement per branch; no empty branch, no nesting, nothing after the closing keyword.",
  [B,S+"o_rly.rs",S+"wtf.rs",S+"im_in_yr.rs",S+"how_is_i.rs"],[("per-construct stop tokens","%s::parse_block_*"%B)],["lolcode_ast::parse"]),
p("C15","Well-formed programs are accepted without errors",
  "Every program that follows the documented statement and expression forms parses, from text, into an AST that contains no error node at any depth and for which the error iterator yields nothing. This holds with any amount of indentation, comments, and either separator, and for programs of any length.",
  ["programs","inputs"],"all well-formed program texts","No test parses a program from text; none has more than four statements.",
  [L,B,SI,S+"mod.rs"],[("tokenizer and parser agree on the token vocabulary","%s; %s"%(L,S+"mod.rs"))],["lolcode_ast::tokenize_and_parse","ASTBlock::iter_errors"]),
p("C16","Malformed programs never pass silently",
  "A token sequence that does not follow the documented forms always yields at least one error node in the AST: a missing or extra token, a missing operand or name, a misplaced keyword, an unknown symbol, or an unclosed or wrongly closed block is never accepted as a valid program.",
  ["inputs","programs"],"all token sequences outside the grammar","Tests check about ten malformed examples, each given to one sub-parser directly.",
  [B,SI,S+"mod.rs",E+"mod.rs"],[("leftover-token check after every statement","%s::next_statement_should_be_empty"%SI)],["lolcode_ast::parse","Node::ASTError"]),
p("C17","Errors name the documented mistake and the right token",
  "Each malformed statement is reported with the error kind documented for that mistake (missing name, label, value, argument, operand, question mark, MKAY or closing keyword; invalid name, label, loop operation or conditional; unexpected token; too many tokens). The error carries the documented token: the offending one where a token is wrong, the keyword or name that lacks its continuation where something is missing, the opening token of an unclosed block or call, and all surplus tokens in order where there are too many.",
  ["inputs"],"all malformed token sequences","Tests cover ten of the roughly forty error sites with one input each.",
  ["src/parser/error.rs",S+"mod.rs",S+"im_in_yr.rs",S+"i_has_a.rs",S+"i_is.rs",S+"o_rly.rs",S+"how_is_i.rs",S+"assignment.rs"],[("error constructors at each expectation","src/parser/statements/*.rs")],["Node::ASTError"]),
p("C18","Errors stay local: the statements around a mistake parse as without it",
  "A malformed simple statement, or a malformed one-line block header outside any block, contributes only its own error nodes in its place: every statement before and after it, in the same block and in enclosing ones, gets exactly the node it would get if the malformed statement were not there. The surrounding blocks keep their branches and closing keywords.",
  ["inputs","programs"],"all (context, malformed statement, continuation) combinations","No test parses anything after an error.",
  [B,SI],[("resynchronisation at the next statement","%s::parse_block; %s::next_statement"%(B,SI))],["lolcode_ast::parse"]),
p("C19","Parsing is compositional: no statement dropped, duplicated or reordered",
  "For programs a and b, where a leaves no block open, the AST of a followed by b is the AST of a followed by the AST of b. Hence every statement of the source is represented in the AST, once and in source order, however long the program is.",
  ["programs","histories"],"all pairs and longer chains of programs","The only multi-statement tests are two fixed blocks.",
  [B,SI],[("block loop runs to the end of input","%s::parse_block"%B)],["lolcode_ast::parse","ASTBlock"]),
p("C20","The error iterator yields every error, in source order",
  "Iterating over an AST block's errors yields every error node contained in it at any nesting depth, in every branch of every construct, each exactly once and in source order, then ends. It yields nothing for a block without errors and leaves the block unchanged.",
  ["programs","inputs"],"all ASTs","The iterator is not called by any test (it was an unimplemented stub).",
  [B],[("depth-first walk over inner blocks","%s::ASTBlockErrorIterator, Node::get_inner_block"%B)],["ASTBlock::iter_errors"]),
p("C21","Expression token iterators return exactly the source tokens, in order",
  "Iterating over the tokens of a parsed expression (and of any value or variable inside it) yields exactly the tokens the expression was built from, unchanged and in source order, including operators, ANs, MKAYs, SRS marks and slot accesses, each once; over a parsed assignment, the tokens of its whole line. After the last one the iterator keeps returning nothing.",
  ["inputs","histories"],"all expressions","Seven fixed sequences are checked; no nested n-ary without MKAY, no empty n-ary, no use after the end.",
  [E+"mod.rs",E+"variable_access_iterator.rs",E+"identifier_iterator.rs",E+"nary_operations.rs",E+"binary_operation.rs",E+"unary_operation.rs"],[("nested iterator state machines","src/parser/expression/*"),("the same for an assignment","src/parser/statements/assignment.rs::VariableAssignmentIterator")],["ASTExpression::tokens","VariableAccess::tokens","BinaryOperation/UnaryOperation/NaryOperation::tokens"]),
p("C22","An expression's range is the span of its own tokens",
  "The range reported for every parsed expression, value, variable and assignment starts at the start of its first token and ends at the end of its last token (a trailing AN or MKAY included), in all four components of the position.",
  ["inputs"],"all expressions","No test calls range().",
  [E+"mod.rs",E+"variable_access.rs",E+"identifier.rs"],[("range computed from the outermost tokens","%smod.rs::ASTExpression::range"%E)],["ASTExpression::range","VariableAccess::range"]),
p("C23","The pipeline is a pure function of its input",
  "Tokenizing and parsing in one call gives exactly what tokenizing and then parsing gives, and returns the tokenizing error unchanged when there is one. The result depends on the argument only: repeating a call, or making any other calls before it or on other threads, never changes the result.",
  ["histories","schedules","inputs"],"all sequences of calls over all inputs","tokenize_and_parse is only called by a doctest that does not compile; every test makes one call.",
  ["src/lib.rs",L,"src/parser/mod.rs"],[("no global state; composition of the two stages","src/lib.rs::tokenize_and_parse")],["lolcode_ast::tokenize_and_parse"]),
p("C24","Position arithmetic, order and equality agree with the text",
  "Advancing a position over a text, by either operator, gives the position of the end of that text, and advancing over two texts in turn equals advancing over their concatenation. Among positions of one text, comparison orders them by their place in the text and equality holds exactly between identical places.",
  ["inputs"],"all texts and split points","No test uses the position operators or comparisons; the tests build positions by hand.",
  [POS],[("Add, AddAssign, PartialOrd, PartialEq on positions",POS)],["lexer::Position operators"]),
p("C25","The AST contains only tokens of the input, unaltered",
  "Every token stored anywhere in the AST, in statements or in errors, is one of the tokens given to the parser, with the same type, value and range. No input token occurs at two places of the AST, and within one statement the stored tokens follow source order.",
  ["inputs"],"all token sequences","Tests compare a few fixed ASTs.",
  [S+"mod.rs",E+"mod.rs",B],[("tokens are moved, not rebuilt, into the AST","src/parser/*")],["Debug form of ASTBlock","Node::Expression tokens"]),
p("C26","AST and token equality is exact and clones are equal",
  "A clone of a token list or AST equals its original. Two ASTs are equal exactly when they have the same structure, error kinds and tokens at the same places: any difference in node kind, operator, operand, order, token value or token place makes them unequal.",
  ["inputs","programs"],"all pairs of programs","Tests only assert equality of equal ASTs; an equality that ignored a part would pass them all.",
  ["src/lexer/range.rs","src/lexer/token.rs",POS,S+"mod.rs"],[("derived equality, position equality on line and column","src/lexer, src/parser")],["PartialEq/Clone of ASTBlock, Node, Token"]),
p("C27","Parsing does not depend on names, values or columns",
  "The AST depends only on the kinds of the tokens and on how they are split into lines. Replacing an identifier's name, a literal's value, a comment's or string's text by any other of the same kind (a keyword-like spelling, one equal to another token's, a very long or empty one), consistently or not, or moving tokens to other columns and lines that keep their order and line breaks, changes nothing in the AST but those tokens themselves. In particular repeated names, labels, case values and parameters are treated as any others.",
  ["inputs","programs"],"all programs and malformed programs x all assignments of names, values and places","Every test uses one fixed name, value and place per token.",
  [S+"mod.rs",E+"mod.rs",B,SI],[("the parser matches on token types and lines only","src/parser/*")],["lolcode_ast::parse"]),
p("C28","Public conversions, accessors and rendering keep what they are given",
  "Converting a token to a type or to a value succeeds exactly for the documented kinds of token and keeps the token unchanged; a token that is no type is handed back unchanged. Building a block from nodes and taking it apart keeps the nodes in order, and a range built from positions holds them. Operator and type nodes hand out exactly the token they were built from, and wrapping a statement, expression or error into a node gives the node of that kind holding it. Positions and ranges are displayed with their own line and column, and every keyword reports its documented spelling.",
  ["inputs","programs"],"all tokens, operators, nodes and positions","No test calls the conversions directly; only the parser paths of a few kinds use them.",
  [S+"mod.rs",B,E+"mod.rs",E+"identifier.rs",E+"binary_operation.rs",E+"nary_operations.rs",E+"unary_operation.rs",POS,"src/lexer/range.rs"],[("one arm per kind in TryFrom, From, token() and into_token()","src/parser/*")],["ASTType::try_from","ASTExpressionValue::try_from","BinaryOpt/NaryOpt/UnaryOpt/ASTType token() and into_token()","From<...> for Node, ASTExpression, ASTBlock and Range","Display and Debug of Position, Debug of Range","Keywords::to_string_slice"]),
p("C29","Work and memory grow in proportion to the input",
  "The work that tokenizing and parsing a program take, and the most memory they hold while doing it, grow in proportion to the length of the program, however its parts are repeated, nested or left unclosed: a program sixteen times as long costs at most a small multiple of sixteen times as much. The same holds for listing its errors and walking the tokens of its expressions, except that there each level of nesting may add the cost of what lies below it. No kind of statement, block, expression, literal, comment, separator or error makes the cost grow with the square of its number, and none makes it grow exponentially with its depth.",
  ["inputs","programs"],"all programs, repeated or nested to any size","Every test program is a few tokens long: quadratic or exponential cost cannot be seen at that size, and no test measures work.",
  [L,SI,B,S+"mod.rs",E+"mod.rs","src/parser/mod.rs"],[("single pass over the text, every token consumed once","%s::tokenize"%L),("tokens handed out once, one token of lookahead","%s::StatementIterator"%SI),("error iterators that walk the tree once",B)],["lolcode_ast::tokenize","lolcode_ast::parse","errors() of MainBlock and ASTBlock"]),
p("C30","A call leaves nothing behind",
  "When the result of tokenizing, parsing or collecting errors has been dropped, the library holds no memory on account of that call: the memory held by the process after any number of calls, on ever new texts and ever new tokens, failing or not, does not grow with the number of calls.",
  ["inputs","histories"],"all sequences of calls","Tests run each call once in a process that exits; memory kept by a cache, a list of names or a leaked box is invisible to them.",
  [L,SI,B,S+"mod.rs",E+"mod.rs"],[("no state outside the values handed out","src/*")],["lolcode_ast::tokenize","lolcode_ast::parse","lolcode_ast::tokenize_and_parse"]),
]
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
